"""Copula densities: pdf on the Cartesian grid of interior coordinates against the textbook density in multi-digit
arithmetic (elliptical: closed form), quadrature of the pdf over every elementary box against the cdf, and every
placement of out-of-cube / NaN coordinates for the Archimedean families."""
import itertools

import numpy as np
from scipy import stats as st

from .. import cops
from ..core import Model
from .c01 import blocks, rows

AX = {2: [1e-8, 1e-6, 1e-3, 0.005, 0.01, 0.05, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 0.95, 0.99, 0.999, 1 - 1e-6],
      3: [1e-6, 0.005, 0.02, 0.1, 0.3, 0.5, 0.7, 0.9, 0.995],
      4: [0.004, 0.1, 0.4, 0.7, 0.98],
      5: [0.02, 0.3, 0.6, 0.95]}


def dense(s):
    """No density: Clayton at its countermonotonic end."""
    return not (s["f"] == "clayton" and s["p"] == -1)


def judge(s, G, t):
    d = s["d"]
    L = np.asarray(cops.make(s).pdf(G.copy(), log=True), float)
    P = np.asarray(cops.make(s).pdf(G.copy()), float)
    want = np.array([cops.declog(cops.dec_pdf(s, r)) for r in G.tolist()])
    t.step(len(G))
    t.expect((P >= 0).all(), "negative", lambda: "%s: pdf %r" % (s, P[~(P >= 0)][:3]))
    # near 1 the score -log(u) of a double carries ~1e-10 relative noise (u = 1 - 1e-6), amplified by theta
    tol = 1e-9 + 1e-11 * (abs(s["p"]) + 1) * d * 10
    if s["f"] == "gumbel" and d > 2 and s["p"] > 1:        # what one unit in the last place of theta makes of theta - 1
        tol += 1e-15 * d / (s["p"] - 1)
    edge = np.abs(np.where(np.isfinite(want), want, 0)) * 1e-11
    bad = ~((np.abs(L - want) <= tol + edge) | (L == want))
    if bad.any():
        i = int(np.argmax(bad))
        t.fail("textbook log", "%s at %r: %r, want %r" % (s, G[i].tolist(), L[i], want[i]))
    m = np.isfinite(want) & (np.abs(want) < 690)
    t.close(P[m], np.exp(want[m]), "textbook", rtol=(tol + 1e-9) * 5, atol=1e-300, ctx=str(s))
    z = want == -np.inf
    t.expect((P[z] == 0).all(), "support", lambda: "%s: density %r outside the support" % (s, P[z][:3]))


class Archimedean(Model):
    name = "archimedean grid"
    chunk = 1

    def cases(self):
        for s in cops.archimedean((2, 3, 4)):
            if dense(s):
                yield s
        if self.thorough:
            yield from cops.archimedean((5,))
            for p in np.round(np.linspace(-0.95, 12, 60), 6):
                yield {"f": "clayton", "d": 2, "p": float(p)}
            for p in np.round(np.linspace(-60, 60, 121), 6):
                yield {"f": "frank", "d": 2, "p": float(p)}
            for p in np.round(np.linspace(1, 12, 45), 6):
                yield {"f": "gumbel", "d": 2, "p": float(p)}

    def check(self, s, t):
        d = s["d"]
        G = cops.grid(AX[d], d)
        ok = cops.representable(s, G)
        G = G[ok]
        judge(s, G, t)


def elliptical(s, G, t):
    want = cops.ell_logpdf(s, G)
    c = cops.make(s)
    L, P = np.asarray(c.pdf(G.copy(), log=True), float), np.asarray(c.pdf(G.copy()), float)
    far = s["p"][0] if s["f"] == "student" and s["p"][0] > 10000 else 0    # documented: the normal density takes over
    if far:
        q = st.norm.ppf(G)
        tol = (1 + 2 * np.abs(q).max(1)) ** 4 * len(q[0]) ** 2 / far
        t.expect((np.abs(L - want) <= tol).all(), "textbook log", lambda: "%s: %r instead of %r" % (s, L, want))
        t.close(P, np.exp(L), "plain", rtol=1e-9, atol=1e-300, ctx=str(s))
    else:
        t.close(L, want, "textbook log", rtol=1e-8, atol=1e-7, ctx=str(s))
        m = np.abs(want) < 600
        t.close(P[m], np.exp(want[m]), "textbook", rtol=1e-5, atol=1e-300, ctx=str(s))
    t.expect((P >= 0).all(), "negative", str(s))
    t.step(len(G))


class Elliptical(Model):
    name = "elliptical grid"
    chunk = 4

    def cases(self):
        yield from cops.gaussian((2, 3, 4))
        yield from cops.student((2, 3, 4))
        if self.thorough:
            for r in np.round(np.linspace(-0.99, 0.99, 23), 6):
                yield {"f": "gaussian", "d": 2, "p": [float(r)]}
                for df in (0.5, 1.5, 2.5, 3, 5, 10, 50, 200):
                    yield {"f": "student", "d": 2, "p": [df, float(r)]}

    def check(self, s, t):
        d = s["d"]
        G = cops.grid(AX[d], d)
        if s["f"] == "student":
            G = G[(G > 1e-7).all(1)]
        elliptical(s, G, t)


class Parameters(Model):
    """Parameters on both sides of every magnitude at which a formula might switch branches; dimensions up to 8."""
    name = "parameter sweep"
    chunk = 2

    def cases(self):
        for f in ("clayton", "frank", "gumbel"):
            for d in (2, 3, 4, 6, 8) if self.thorough else (2, 3, 5):
                yield from blocks(f, d, self.thorough)
        for d in (2, 3, 5):
            yield from blocks("rho", d, self.thorough, 30)
            yield from blocks("df", d, self.thorough, 30)

    def check(self, case, t):
        f, d = case["f"], case["d"]
        G = np.clip(rows(d), 1e-8, 1 - 1e-9)
        if f == "df":
            G = np.clip(G, 1e-6, 1 - 1e-6)
        for p in case["ps"]:
            if f in ("rho", "df"):
                n = d * (d - 1) // 2
                r = [p * [1, .5, .3, -.2, .4][i % 5] for i in range(n)] if f == "rho" else [[.6, -.2, .3, .1][i % 4] for i in range(n)]
                for s in [{"f": "gaussian", "d": d, "p": r}, {"f": "student", "d": d, "p": [3.7] + r}] if f == "rho" else [{"f": "student", "d": d, "p": [p] + r}]:
                    if np.linalg.eigvalsh(cops.corr(d, r))[0] < 1e-7:
                        continue
                    elliptical(s, G, t)
                continue
            s = {"f": f, "d": d, "p": p}
            if dense(s):
                judge(s, G[cops.representable(s, G)], t)


class Boxes(Model):
    """Integral of the implementation's pdf over each box of a partition = its own cdf's mass of the box."""
    name = "box integrals"
    chunk = 1

    def cases(self):
        for s in [{"f": "clayton", "p": p} for p in (-0.4, 0.0, 0.5, 2.0)] + \
                 [{"f": "frank", "p": p} for p in (-5.0, 0.0, 1.0, 6.0)] + \
                 [{"f": "gumbel", "p": p} for p in (1.0, 1.3, 2.5)] + \
                 [{"f": "gaussian", "p": [r]} for r in (-0.7, 0.0, 0.6)] + [{"f": "indep"}]:
            yield dict(s, d=2)
        for s in [{"f": "clayton", "p": 1.0}, {"f": "frank", "p": 3.0}, {"f": "gumbel", "p": 1.6},
                  {"f": "gaussian", "p": [.5, .2, .3]}, {"f": "indep"}]:
            yield dict(s, d=3)
            if self.thorough and s["f"] != "gaussian":
                yield dict(s, d=4)

    def check(self, s, t):
        d = s["d"]
        cuts = {2: [0.05, 0.15, 0.3, 0.5, 0.7, 0.85, 0.95], 3: [0.1, 0.3, 0.5, 0.75, 0.9], 4: [0.2, 0.5, 0.8]}[d]
        c = cops.make(s)
        T = np.asarray(c.cdf(cops.grid(cuts, d)), float).reshape((len(cuts),) * d)
        for j in range(d):
            T = np.diff(T, axis=j)
        k = {2: 32, 3: 14, 4: 8}[d]
        x, w = np.polynomial.legendre.leggauss(k)
        W = w
        for _ in range(d - 1):
            W = np.multiply.outer(W, w)
        tol = {2: 1e-6, 3: 1e-5, 4: 1e-5}[d]
        if s["f"] == "gaussian":
            tol = 1e-5 if d == 2 else 5e-4
        if s["f"] == "clayton" and s["p"] < 0:
            tol = 2e-3       # the density has a jump at the edge of its support
        for idx in itertools.product(range(len(cuts) - 1), repeat=d):
            nodes = cops.grid((x + 1) / 2, d)
            lo = np.array([cuts[i] for i in idx])
            ln = np.array([cuts[i + 1] - cuts[i] for i in idx])
            v = np.asarray(c.pdf(lo + nodes * ln), float)
            mass = (v * W.ravel()).sum() * np.prod(ln) / 2 ** d
            t.expect(abs(mass - T[idx]) <= tol, "box", lambda: "%s box %r: integral %r, cdf %r" % (s, idx, mass, T[idx]))


class StudentMargin(Model):
    """Student offers no cdf, so its density is decided by uniform margins: for every v the conditional integrates to 1."""
    name = "student conditionals"
    chunk = 1

    def cases(self):
        for df in (1.0, 2.5, 4.0, 30.0):
            for r in (-0.8, 0.0, 0.5, 0.9):
                yield {"f": "student", "d": 2, "p": [df, r]}

    def check(self, s, t):
        c = cops.make(s)
        x, w = np.polynomial.legendre.leggauss(400)
        th = (x + 1) / 2
        # u = s^5(...) substitution clusters nodes at both ends
        u = th ** 4 * (35 - 84 * th + 70 * th ** 2 - 20 * th ** 3)
        du = 140 * th ** 3 * (1 - th) ** 3
        keep = (u > 1e-12) & (u < 1 - 1e-12)
        for v in (0.02, 0.1, 0.3, 0.5, 0.8, 0.95):
            p = np.asarray(c.pdf(np.column_stack([u[keep], np.full(keep.sum(), v)])), float)
            tot = (p * du[keep] * w[keep]).sum() / 2
            t.expect(abs(tot - 1) < 5e-4, "conditional", lambda: "%s v=%g integrates to %r" % (s, v, tot))


class Outside(Model):
    """Every placement of out-of-range coordinates, alone and among ordinary rows."""
    name = "outside the cube"

    BAD = [-0.5, -1e-9, 1.0000001, 2.0, float("nan")]

    def cases(self):
        for s in cops.archimedean((2, 3)):
            if dense(s):
                yield s

    def check(self, s, t):
        d = s["d"]
        rows = []
        for k in range(1, d + 1):
            for pos in itertools.combinations(range(d), k):
                for vals in itertools.product(self.BAD, repeat=k):
                    r = [0.3, 0.6, 0.45][:d]
                    for p, v in zip(pos, vals):
                        r[p] = v
                    rows.append(r)
        c = cops.make(s)
        good = [0.35, 0.55, 0.7][:d]
        for arr in (rows, [good] + rows + [good]):
            for log in (False, True):
                v = np.asarray(c.pdf(np.array(arr), log=log), float)
                t.step(len(arr))
                x = v if arr is rows else v[1:-1]
                p = np.exp(x) if log else x
                bad = np.isfinite(p) & (p > 0)
                if bad.any():
                    t.fail("outside", "%s log=%s: pdf(%r) = %r" % (s, log, rows[int(np.argmax(bad))], x[bad][0]))
                if arr is not rows:
                    w = c.pdf(np.array([good]), log=log)
                    t.close(v[[0, -1]], [w, w], "neighbours", rtol=1e-13, ctx=str(s))
        for r in rows[:12]:
            v = float(c.pdf(np.array([r])))
            t.expect(not (np.isfinite(v) and v > 0), "outside single", lambda: "%s: pdf(%r) = %r" % (s, r, v))


MODELS = [Parameters, Archimedean, Elliptical, Boxes, StudentMargin, Outside]
RULE = ("states: (family, dimension, parameter) points; each visits the whole Cartesian grid of interior coordinates, "
        "every box of a partition, or every placement of out-of-range values; transitions: single comparisons")
ASSUMPTIONS = ["points whose textbook quantities leave the double range are skipped (as C01)",
               "density at coordinates exactly 0 or 1 is a limit and not specified",
               "tolerances grow with theta: 1e-9 + 1e-10 d (1 + |theta|) on the log density"]
