"""Copula distribution functions: for every family, dimension and parameter of the alphabet, the cdf on the full
Cartesian grid of a coordinate alphabet (0, tails, interior, near 1, 1) against the textbook formula in multi-digit
arithmetic, plus the lattice axioms (margins, groundedness, monotonicity, every elementary grid box non-negative)."""
import numpy as np

from .. import cops, sweep
from ..core import Model

AX = {2: [0.0, 1e-12, 1e-6, 1e-3, 0.005, 0.01, 0.0101, 0.05, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 0.95, 0.99, 0.999,
          1 - 1e-6, 1 - 1e-12, 1.0],
      3: [0.0, 1e-6, 0.005, 0.02, 0.1, 0.3, 0.5, 0.7, 0.9, 0.995, 1.0],
      4: [0.0, 0.004, 0.1, 0.4, 0.7, 0.98, 1.0],
      5: [0.0, 0.01, 0.3, 0.8, 1.0]}
AX_ELL = {2: AX[2], 3: [0.0, 0.001, 0.1, 0.3, 0.5, 0.8, 0.99, 1.0], 4: [0.0, 0.05, 0.4, 0.8, 1.0]}


def axioms(t, G, C, axis, d, tol, ctx, ok=None):
    if ok is not None and not ok.all():      # keep the sub-grid whose points are all representable
        axis = [a for i, a in enumerate(axis) if ok[G[:, 0] == a].any() and all(
            ok[(G == a).any(1) & np.isin(G, [b for b in axis if ok[(G == b).all(1)].all()]).all(1)])]
        m = np.isin(G, axis).all(1)
        G, C, ok = G[m], C[m], ok[m]
        assert ok.all()
    t.expect(((C >= -tol) & (C <= 1 + tol)).all(), "range", lambda: "%s outside [0,1]: %r" % (ctx, C[(C < -tol) | (C > 1 + tol)][:3]))
    zero = (G == 0).any(1)
    t.expect((np.abs(C[zero]) <= tol).all(), "grounded", lambda: "%s: cdf not 0 at %r" % (ctx, G[zero][np.abs(C[zero]) > tol][:2].tolist()))
    for j in range(d):
        oth = np.delete(G, j, 1)
        m = (oth == 1).all(1)
        t.close(C[m], G[m, j], "margin", rtol=1e-6 if tol > 1e-8 else 1e-8, atol=tol, ctx="%s margin %d" % (ctx, j))
    T = C.reshape((len(axis),) * d)
    B = T
    for j in range(d):
        df = np.diff(T, axis=j)
        t.expect((df >= -tol).all(), "monotone", lambda: "%s decreases by %g along %d" % (ctx, -df.min(), j))
        B = np.diff(B, axis=j)
    t.expect((B >= -tol * 2 ** d).all(), "d-increasing", lambda: "%s: box mass %g" % (ctx, B.min()))
    t.step(C.size)


class Archimedean(Model):
    name = "archimedean grid"
    chunk = 1

    def cases(self):
        yield from cops.archimedean((2, 3, 4))
        if self.thorough:
            for s in cops.archimedean((5,)):
                yield s
            for p in np.round(np.linspace(-0.95, 12, 60), 6):
                yield {"f": "clayton", "d": 2, "p": float(p)}
            for p in np.round(np.linspace(-60, 60, 121), 6):
                yield {"f": "frank", "d": 2, "p": float(p)}
            for p in np.round(np.linspace(1, 12, 45), 6):
                yield {"f": "gumbel", "d": 2, "p": float(p)}

    def check(self, s, t):
        d = s["d"]
        axis = AX[d]
        G = cops.grid(axis, d)
        ok = cops.representable(s, G)
        C = np.asarray(cops.make(s).cdf(G.copy()), float)
        want = np.array([float(cops.dec_cdf(s, r)) if k else np.nan for r, k in zip(G.tolist(), ok)])
        t.close(C[ok], want[ok], "textbook", rtol=1e-8, atol=1e-13, ctx=str(s))
        bad = ok & ~(np.abs(C - want) <= 1e-13 + 1e-8 * want)
        if bad.any():
            t.fail("textbook", "first bad point %r: %r vs %r" % (G[bad][0].tolist(), C[bad][0], want[bad][0]))
        t.step(ok.sum())
        axioms(t, G, C, axis, d, 1e-10, str(s), ok)


ROWS = [(.5, .5), (.3, .8), (.02, .04), (.97, .9), (.99999, .4), (1e-6, 1e-3), (.01, .7), (.999, .9995), (.6, 1.0), (0.0, .3), (1e-300, .5), (.12, .11)]


def rows(d):
    if d == 2:
        return np.array(ROWS)
    return np.array([[a ** (1 / (1 + j % 3)) if j % 2 == 0 else b ** (1 / (1 + j % 2)) for j in range(d)] for a, b in ROWS if a < 1])


def blocks(f, d, thorough, k=12):
    ps = sweep.parameters(f, d, thorough)
    for i in range(0, len(ps), k):
        yield {"f": f, "d": d, "ps": ps[i:i + k]}


class Parameters(Model):
    """Parameters on both sides of every magnitude at which a formula might switch branches; dimensions up to 8."""
    name = "parameter sweep"
    chunk = 2

    def cases(self):
        for f in ("clayton", "frank", "gumbel"):
            for d in (2, 3, 4, 6, 8) if self.thorough else (2, 3, 5):
                yield from blocks(f, d, self.thorough)
        yield from blocks("rho", 2, self.thorough)

    def check(self, case, t):
        f, d = case["f"], case["d"]
        G = rows(d)
        for p in case["ps"]:
            s = {"f": f, "d": d, "p": p} if f != "rho" else {"f": "gaussian", "d": 2, "p": [p]}
            C = np.atleast_1d(np.asarray(cops.make(s).cdf(G.copy()), float))
            if f == "rho":
                want = cops.gauss_cdf(s, G)
                t.close(C, want, "textbook", rtol=0, atol=2e-6, ctx=str(s))
                continue
            ok = cops.representable(s, G)
            want = np.array([float(cops.dec_cdf(s, r)) if k else np.nan for r, k in zip(G.tolist(), ok)])
            t.close(C[ok], want[ok], "textbook", rtol=1e-8, atol=1e-13, ctx=str(s))
            t.step(len(G))


class GaussianSingular(Model):
    """Perfect dependence: the Frechet bounds."""
    name = "gaussian singular"

    def cases(self):
        yield {"f": "gaussian", "d": 2, "p": [1.0]}
        yield {"f": "gaussian", "d": 2, "p": [-1.0]}
        yield {"f": "gaussian", "d": 3, "p": [1.0, 1.0, 1.0]}
        yield {"f": "gaussian", "d": 3, "p": [1.0, -1.0, -1.0]}

    def check(self, s, t):
        d = s["d"]
        axis = AX_ELL[d]
        G = cops.grid(axis, d)
        C = np.asarray(cops.make(s).cdf(G.copy()), float)
        sg = np.array([1] + s["p"][:d - 1])
        pos, neg = G[:, sg > 0], G[:, sg < 0]
        want = pos.min(1)
        if neg.shape[1]:
            want = np.maximum(want + neg.min(1) - 1, 0)
        t.close(C, want, "bound", rtol=0, atol=1e-4 if d == 3 else 1e-6, ctx=str(s))
        axioms(t, G, C, axis, d, 1e-4 if d == 3 else 1e-6, str(s))


class Independence(Model):
    name = "independence grid"

    def cases(self):
        for d in (2, 3, 4):
            yield {"f": "indep", "d": d}

    def check(self, s, t):
        G = cops.grid(AX[s["d"]], s["d"])
        C = np.asarray(cops.make(s).cdf(G.copy()), float)
        t.close(C, [float(cops.dec_cdf(s, r)) for r in G.tolist()], "textbook", rtol=1e-12, atol=0)
        axioms(t, G, C, AX[s["d"]], s["d"], 1e-14, str(s))


class Gaussian(Model):
    name = "gaussian grid"
    chunk = 1

    def cases(self):
        yield from cops.gaussian((2, 3, 4))
        if self.thorough:
            for r in np.round(np.linspace(-0.995, 0.995, 61), 6):
                yield {"f": "gaussian", "d": 2, "p": [float(r)]}

    def check(self, s, t):
        d = s["d"]
        axis = AX_ELL[d]
        G = cops.grid(axis, d)
        C = np.asarray(cops.make(s).cdf(G.copy()), float)
        tol = 2e-6 if d == 2 else 2e-4   # the randomised lattice rule behind d >= 3 promises 1e-5; see ASSUMPTIONS
        if d <= 3:
            want = cops.gauss_cdf(s, G)
            want[(G == 1).sum(1) >= d - 1] = G[(G == 1).sum(1) >= d - 1].min(1)
            t.close(C, want, "textbook", rtol=0, atol=tol, ctx=str(s))
        axioms(t, G, C, axis, d, tol, str(s))


class References(Model):
    """The textbook cdf and density used as references agree with each other (mixed difference quotients)."""
    name = "reference self-check"

    def cases(self):
        for s in cops.archimedean((2, 3)):
            if s["f"] == "clayton" and s["p"] == -1 or abs(s["p"]) > 50:
                continue
            yield s

    def check(self, s, t):
        import itertools
        from decimal import Decimal as D
        d = s["d"]
        h = D("1e-16")
        for r in itertools.product((0.2, 0.55, 0.8), repeat=d):
            with cops.prec(120):
                tot = D(0)
                for e in itertools.product((0, 1), repeat=d):
                    pt = [D(x) + (h if b else -h) for x, b in zip(r, e)]
                    old = cops._digits
                    cops._digits = lambda spec: 140
                    try:
                        v = cops.dec_cdf(s, pt)
                    finally:
                        cops._digits = old
                    tot += v if (d - sum(e)) % 2 == 0 else -v
                fd = float(tot / (2 * h) ** d)
            want = float(cops.dec_pdf(s, r))
            t.close(fd, want, "reference", rtol=1e-9, atol=1e-9, ctx="%s at %r" % (s, r))


MODELS = [Parameters, Archimedean, Independence, Gaussian, GaussianSingular, References]
RULE = ("states: one per (family, dimension, parameter); each visits the full Cartesian product of the coordinate "
        "alphabet (21^2, 11^3, 7^4 points, including 0, 1, both tails and the implementation's own branch points); "
        "transitions: points compared plus lattice axioms")
ASSUMPTIONS = ["points at which u^-theta (Clayton) or (-log u)^theta (Gumbel) leaves the double range are skipped",
               "Gaussian dim >= 3 within 2e-4 (SciPy's randomised quasi-Monte-Carlo rule), dim 2 within 2e-6",
               "Student offers no cdf (NotImplementedError upstream)",
               "parameters outside the alphabet and points off the grid are not visited"]
