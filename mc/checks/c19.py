"""Archimedean generators: mutual inverses, monotonicity, boundary values, derivatives, log variants, containers, purity;
the Gumbel dependence function and its derivatives."""
import itertools
import math
from decimal import Decimal as D

import numpy as np

from .. import cops, sizes, sweep
from ..core import Model
from .c18 import KINDS, containers, snapshot

RULE = ("family x parameter lattice (domain ends, branch boundaries of the implementation's regimes) x lattice of levels from 1e-300 "
        "to 1 (both ends included) and of generator values; container kinds x all pairs of levels; decimal references")
ASSUMPTIONS = ["levels at which the generator value itself does not fit into a double are left out (Clayton theta*|log u| >= 600, "
               "Gumbel theta*|log(-log u)| >= 600, Frank theta*u >= 600); dAdu up to theta = 100",
               "a generator is defined up to a positive factor: the factor is read off one level and then has to be the same everywhere"]

PAR = {"clayton": [-1.0, -.999, -.9, -.5, -.1, -1e-3, -1e-6, 0.0, 1e-9, 1e-6, 1e-3, .1, .5, 1.0, 1.5, 2.0, 5.0, 20.0, 100.0],
       "frank": [-300.0, -100.0, -36.1, -36.0, -35.9, -20.0, -5.0, -1.0, -.1, -1e-3, -1e-6, 0.0, 1e-9, 1e-6, 1e-3, .1, .5, 1.0, 2.0, 5.0,
                 20.0, 37.0, 50.0, 100.0, 300.0, 500.0],
       "gumbel": [1.0, 1 + 1e-9, 1.0001, 1.1, 1.25, 1.5, 1.9, 2.0, 2.1, 3.0, 5.0, 10.0, 30.0, 100.0]}
LEVELS = [0.0, 1e-300, 1e-100, 1e-20, 1e-10, 1e-6, 1e-3, .005, .0099, .01, .0101, .02, .1, .25, 1 / 3, .49, .5, .51, .75, .9, .96, .99, .9999,
          1 - 1e-6, 1 - 1e-10, 1 - 2 ** -52, 1 - 2 ** -53, 1.0]


def ipsi_ref(f, th, u):
    """the textbook inverse generator (some scale), and its first two derivatives, as Decimals; u in (0, 1]"""
    th, u = D(th), D(u)
    one = D(1)
    if (f in ("clayton", "frank") and th == 0) or (f == "gumbel" and th == 1):
        return -u.ln(), -1 / u, 1 / u ** 2
    if f == "clayton":
        p = (-th * u.ln()).exp()
        return (p - 1) / th, -p / u, (th + 1) * p / u ** 2
    if f == "frank":
        e, eu = (-th).exp() - 1, (-th * u).exp()
        return -((eu - 1) / e).ln(), th * eu / (eu - 1), th ** 2 * eu / (eu - 1) ** 2
    l = -u.ln()
    if l == 0:
        # right ends: phi' -> 0, phi'' -> inf (theta < 2), 2 (theta = 2), 0
        return D(0), D(0), D("Infinity") if th < 2 else (D(2) if th == 2 else D(0))
    p = (th * l.ln()).exp()
    return p, -th * p / (l * u), th * p / (l * l * u * u) * (th - 1 + l)


def digits(f, th):
    return int(400 + abs(th)) if f == "frank" else 90


def fits(f, th, u):
    if u == 0:
        return True
    if f == "clayton":
        return abs(th * math.log(u)) < 600
    if f == "frank":
        return abs(th) * u < 600
    return u == 1 or th * abs(math.log(-math.log(u))) < 600


def limit0(f, th):
    """the inverse generator's own value at 0 (times the same factor): finite only for Clayton with theta < 0"""
    return (-1 / D(th)) if f == "clayton" and th < 0 else D("Infinity")


class Generators(Model):
    name = "generators"

    def cases(self):
        for f in PAR:
            for th in PAR[f]:
                for d in (2, 3) if not (f in ("clayton", "frank") and th < 0) else (2,):
                    yield {"f": f, "p": th, "d": d}

    def levels(self, f, th):
        ls = list(LEVELS)
        if self.thorough:
            ls += [k / 256 for k in range(1, 256)] + [10.0 ** -k for k in range(1, 60, 2)] + [1 - 2.0 ** -k for k in range(2, 52, 3)]
        if f == "frank" and th:
            # boundaries of the regimes: r = 0.01|theta|, theta - r = 0.5
            for b in (.5, 1e-3, 1.0):
                x = 1 - b / abs(th)
                if 0 < x < 1:
                    ls += [x, np.nextafter(x, 0), np.nextafter(x, 1)]
        return sorted(u for u in set(float(x) for x in ls) if fits(f, th, u))

    def check(self, c, t):
        f, th, d = c["f"], c["p"], c["d"]
        cop = cops.make(c)
        u = np.array(self.levels(f, th))
        with cops.prec(digits(f, th)):
            refs = [ipsi_ref(f, th, x) if x > 0 else (limit0(f, th), None, None) for x in u]
            k = self.factor(f, th, cop, u, refs, t)
            if k is None:
                return
            want = np.array([cops.tofloat(r[0] * D(k)) if r[0].is_finite() else math.inf for r in refs])
            w1 = np.array([cops.tofloat(r[1] * D(k)) if r[1] is not None else math.nan for r in refs])
            w2 = np.array([(cops.tofloat(r[2] * D(k)) if r[2].is_finite() else math.inf) if r[2] is not None else math.nan for r in refs])
        # conditioning: an inverse generator near its zero inherits the rounding of log u and of expm1
        got = np.asarray(cop.ipsi(u.copy()), float)
        for i, x in enumerate(u):
            tol = 1e-9 * abs(want[i]) + (3e-16 * abs(w1[i]) if x > .9 and f == "frank" else 0.0) + self.atol(f, th)
            ok = got[i] == want[i] or abs(got[i] - want[i]) <= tol
            t.expect(ok, "ipsi", lambda: "ipsi(%r)=%r, want %r (theta=%r)" % (x, got[i], want[i], th))
        t.expect(got[-1] == 0, "ipsi(1)", "ipsi(1)=%r" % got[-1])
        s0 = float(cop.psi(0.0))
        t.expect(abs(s0 - 1) <= 1e-12, "psi(0)", "psi(0)=%r" % s0)
        t.expect(abs(float(cop.psi(got[0]))) <= 1e-12, "psi(ipsi(0))", "psi(%r)=%r" % (got[0], float(cop.psi(got[0]))))
        # strictly decreasing where the true difference is resolvable, never increasing elsewhere
        for i in range(1, len(u)):
            a, b = got[i - 1], got[i]
            slack = 4 * self.atol(f, th) + 1e-12 * abs(want[i - 1]) + (6e-16 * abs(w1[i]) if u[i] > .9 and f == "frank" else 0.0)
            strict = want[i - 1] - want[i] > slack or want[i - 1] == math.inf
            ok = a > b if strict else a >= b - slack
            t.expect(ok, "ipsi decreasing", lambda: "ipsi(%r)=%r, ipsi(%r)=%r" % (u[i - 1], a, u[i], b))
        # psi(ipsi(u)) == u
        back = np.asarray(cop.psi(got.copy()), float)
        for i, x in enumerate(u):
            tol = 1e-8 * x + 1e-12
            if f == "clayton" and 0 < th < .1 or f == "frank" and 0 < th:     # relative accuracy holds into the tail
                tol = max(1e-8 * x, 1e-12 if x > 1e-3 else 0.0)
            t.expect(abs(back[i] - x) <= tol, "psi(ipsi(u))", lambda: "psi(ipsi(%r))=%r (theta=%r)" % (x, back[i], th))
        # ipsi(psi(s)) == s over the whole range of the generator
        top = got[0]
        ss = [x * (1 if top == math.inf else min(top, 1.0)) for x in (0.0, 1e-12, 1e-6, 1e-3, .05, .3, .5, .8, .999, 1.0)] + \
             ([1.5, 3.0, 10.0, 30.0, 100.0, 400.0] if top == math.inf else [top])
        if f == "frank" and th > 0:
            ss = [x for x in ss if x == 0 or x > math.exp(-th) * 0]
        s = np.array(sorted(set(ss)))
        v = np.asarray(cop.psi(s.copy()), float)
        t.expect(bool(np.all((v >= 0) & (v <= 1 + 1e-12))), "psi range", "psi(s)=%s" % v)
        for i in range(1, len(s)):
            t.expect(v[i] <= v[i - 1] and (v[i] < v[i - 1] or s[i] - s[i - 1] < 1e-9 or v[i] == 0 or v[i - 1] - v[i] < 1e-9
                                           and self.flat(f, th, s[i - 1])), "psi decreasing",
                     lambda: "psi(%r)=%r, psi(%r)=%r" % (s[i - 1], v[i - 1], s[i], v[i]))
        for x, y in zip(s, v):
            if not fits(f, th, y) or y == 0 and x < top or y == 0:
                continue
            with cops.prec(digits(f, th)):
                p, d1, _ = ipsi_ref(f, th, min(y, 1.0))
                p, d1 = cops.tofloat(p * D(k)), cops.tofloat(d1 * D(k))
            # the level y is a rounded number: its generator value may move by one rounding of y
            tol = 1e-9 * abs(x) + 8e-16 * abs(d1) * max(y, 1e-3) * (1 + 0 * th) + 1e-12
            t.expect(abs(p - x) <= tol or abs(y - 1) < 1e-12 and f == "gumbel" and x < 1e-9, "psi", lambda: "psi(%r)=%r whose generator value is %r" % (x, y, p))
        # derivatives on (0, 1]
        pos = u > 0
        for deg, w in ((1, w1), (2, w2)):
            g = np.asarray(cop.dipsi(u[pos].copy(), degree=deg), float)
            gl = np.asarray(cop.dipsi(u[pos].copy(), degree=deg, log=True), float)
            for x, a, b, ww in zip(u[pos], g, gl, w[pos]):
                if 0 < abs(ww) < 1e-290 or 1e290 < abs(ww) < math.inf:
                    continue
                # u near 1: -log u carries the relative rounding of 1-u exactly, derivatives of order theta-1 in it
                t.expect(a == ww or abs(a - ww) <= 1e-7 * abs(ww) + 1e-290, "dipsi degree %d" % deg,
                         lambda: "dipsi(%r, %d)=%r, want %r (theta=%r)" % (x, deg, a, ww, th))
                lw = math.log(abs(ww)) if 0 < abs(ww) < math.inf else (-math.inf if ww == 0 else math.inf)
                t.expect(b == lw or abs(b - lw) <= 1e-7 * abs(lw) + 1e-7, "dipsi log degree %d" % deg,
                         lambda: "dipsi(%r, %d, log)=%r, want %r (theta=%r)" % (x, deg, b, lw, th))
        gl = np.asarray(cop.ipsi(u.copy(), log=True), float)
        for x, a, b in zip(u, gl, got):
            lw = math.log(b) if 0 < b < math.inf else (-math.inf if b == 0 else math.inf)
            t.expect(a == lw or abs(a - lw) <= 1e-9 * abs(lw) + 1e-12, "ipsi log", lambda: "ipsi(%r, log)=%r, want %r" % (x, a, lw))
        for bad in (0, 3, -1):
            t.raises(Exception, lambda: cop.dipsi(.5, degree=bad), "dipsi degree rejected", "degree=%d" % bad)
        t.close(cop.params, th, "parameter changed", 0, 0)

    @staticmethod
    def atol(f, th):
        return 1e-13 if f == "frank" and th < 0 else 0.0

    @staticmethod
    def flat(f, th, s):
        return True

    def factor(self, f, th, cop, u, refs, t):
        i = int(np.argmin(np.abs(u - .5)))
        k = float(cop.ipsi(.5))
        with cops.prec(digits(f, th)):
            k = float(D(k) / ipsi_ref(f, th, .5)[0])
        if not t.expect(k > 0 and math.isfinite(k), "ipsi scale", "ipsi(.5)/reference = %r" % k):
            return None
        return k


class Sweep(Generators):
    """The same on both sides of every magnitude of the parameter at which a formula might switch branches."""
    name = "generators, parameter sweep"
    FEW = [0.0, 1e-300, 1e-10, 1e-3, .01, .1, .5, .9, .9999, 1 - 1e-6, 1.0]

    def cases(self):
        for f in PAR:
            for th in sweep.parameters(f, 2, self.thorough):
                yield {"f": f, "p": th, "d": 2}

    def levels(self, f, th):
        return sorted(u for u in self.FEW if fits(f, th, u))


class Containers(Model):
    """Every container kind x all pairs of levels: same values as the scalar calls, same shape, argument untouched."""
    name = "containers"

    def cases(self):
        for f, ps in (("clayton", [-.5, 0.0, 1.5]), ("frank", [-40.0, -3.0, 0.0, 4.0, 60.0]), ("gumbel", [1.0, 1.5, 2.0, 4.0])):
            for p in ps:
                for fn in ("psi", "ipsi", "ipsi_log", "dipsi1", "dipsi2", "dipsi1_log", "dipsi2_log") + (("A", "dAdu") if f == "gumbel" else ()):
                    for k in KINDS:
                        yield {"f": f, "p": p, "fn": fn, "kind": k}

    def check(self, c, t):
        cop = cops.make({"f": c["f"], "d": 2, "p": c["p"]})
        fn = c["fn"]
        call = {"psi": cop.psi, "ipsi": cop.ipsi, "ipsi_log": lambda x: cop.ipsi(x, log=True), "dipsi1": cop.dipsi,
                "dipsi2": lambda x: cop.dipsi(x, degree=2), "dipsi1_log": lambda x: cop.dipsi(x, degree=1, log=True),
                "dipsi2_log": lambda x: cop.dipsi(x, 2, True), "A": getattr(cop, "A", None), "dAdu": getattr(cop, "dAdu", None)}[fn]
        al = [0.0, .25, .5, 1.0, 3.0] if fn == "psi" else [0.0, .009, .25, .5, .75, 1.0]
        if fn.startswith("dipsi"):
            al = al[1:]
        if c["kind"] == "ints":
            al = [0.0, 1.0, 3.0] if fn == "psi" else ([1.0] if fn.startswith("dipsi") else [0.0, 1.0])
        if c["kind"] == "float32":
            al = [x for x in al if np.float32(x) == x]
        scal = {x: np.asarray(call(float(x)), float) for x in al}
        tuples = [(a,) for a in al] + list(itertools.product(al, repeat=2)) + [tuple(al)]
        for tup in tuples:
            if len(tup) > 1 and c["kind"] in ("scalar", "npscalar", "zerod"):
                continue
            x, shape, vals = containers(tup, c["kind"])
            snap = snapshot(x)
            if fn == "dAdu" and np.ndim(x) > 1:
                continue
            got = np.asarray(call(x), float)
            name = "s" if fn == "psi" else "w" if fn in ("A", "dAdu") else "u"
            opts = {"ipsi_log": {"log": True}, "dipsi2": {"degree": 2}, "dipsi1_log": {"log": True}, "dipsi2_log": {"degree": 2, "log": True}}.get(fn, {})
            kw = np.asarray(getattr(cop, fn.split("_")[0].rstrip("12"))(**{name: x}, **opts), float)
            t.expect(kw.shape == got.shape and np.array_equal(kw, got, equal_nan=True), "keyword call", lambda: "%s: %r / %r" % (fn, kw, got))
            t.close(snapshot(x), snap, "argument modified", 0, 0, fn)
            ctx = "%s(%s %s)" % (fn, c["kind"], list(tup))
            want = np.array([scal[float(v)] for v in np.ravel(vals)])
            if fn != "dAdu":
                if not (len(tup) == 1 or c["kind"] == "column"):
                    t.expect(got.shape == shape, "shape", "%s: shape %s, want %s" % (ctx, got.shape, shape))
            tol = 2e-4 if c["kind"] == "float32" else 1e-12
            if t.expect(got.size == want.size, "size", "%s: %d values, want %d" % (ctx, got.size, want.size)):
                t.close(got.ravel(), want.ravel(), "value", tol, tol, ctx)


class Dependence(Model):
    """Gumbel: A against the textbook value, its bounds and the cdf; dAdu against the exact derivatives."""
    name = "dependence"

    def cases(self):
        for p in PAR["gumbel"] + [1000.0]:
            for d in (2, 3):
                yield {"f": "gumbel", "p": p, "d": d}

    def check(self, c, t):
        th = c["p"]
        cop = cops.make(c)
        ws = sorted({0.0, 1e-12, 1e-6, 1e-3, .05, .1, .2, .3, 1 / 3, .4, .45, .49, .499, .5, .501, .51, .6, 2 / 3, .75, .9, .999, 1 - 1e-6, 1.0}
                    | ({k / 128 for k in range(129)} if self.thorough else set()))
        w = np.array(ws)
        A = np.asarray(cop.A(w.copy()), float)
        G = np.asarray(cop.dAdu(w.copy()), float)
        if not t.expect(A.shape == w.shape and G.shape == (len(w), 2), "shape", "A %s dAdu %s" % (A.shape, G.shape)):
            return
        with cops.prec(60):
            for i, x in enumerate(ws):
                T, X = D(th), D(x)
                if 0 < x < 1:
                    a, b = X.ln(), (1 - X).ln()
                    S = (T * a).exp() + (T * b).exp()
                    r = (S.ln() / T).exp()
                    p1 = (a * (T - 1)).exp() - (b * (T - 1)).exp()
                    g = r / S * p1
                    h = (1 - T) * r / S ** 2 * p1 ** 2 + (T - 1) * r / S * ((a * (T - 2)).exp() + (b * (T - 2)).exp())
                    r, g, h = cops.tofloat(r), cops.tofloat(g), cops.tofloat(h)
                else:
                    r, g, h = 1.0, (0.0 if th == 1 else (-1.0 if x == 0 else 1.0)), None
                    h = 0.0 if th == 1 or th > 2 else (math.inf if th < 2 else 1.0)
                t.expect(abs(A[i] - r) <= 1e-9, "A", lambda: "A(%r)=%r, want %r (theta=%r)" % (x, A[i], r, th))
                t.expect(max(x, 1 - x) - 1e-12 <= A[i] <= 1 + 1e-12, "A bounds", lambda: "A(%r)=%r" % (x, A[i]))
                # theta-1 cancels in the derivatives; near 1/2 the gradient is a difference of two nearly equal powers
                if th > 100:
                    continue
                t.expect(abs(G[i, 0] - g) <= 1e-7 * abs(g) + 1e-9, "dA", lambda: "A'(%r)=%r, want %r (theta=%r)" % (x, G[i, 0], g, th))
                t.expect(G[i, 1] == h or abs(G[i, 1] - h) <= 1e-6 * abs(h) + 1e-9 * th, "d2A",
                         lambda: "A''(%r)=%r, want %r (theta=%r)" % (x, G[i, 1], h, th))
                if th <= 100 and c["d"] == 2:
                    for e in (.1, 1.0, 5.0):       # C(exp(-e w), exp(-e (1-w))) = exp(-e A(w))
                        u = [math.exp(-e * x), math.exp(-e * (1 - x))]
                        t.close(float(cop.cdf(u)), math.exp(-e * A[i]), "A and cdf", 1e-7, 1e-12, "w=%r e=%r" % (x, e))
        for x in (0.0, .3, .5, 1.0) if th <= 100 else ():
            s = cop.A(x)
            t.close(s, float(A[ws.index(x)]), "A scalar", 1e-14, 0)
            g = np.asarray(cop.dAdu(x), float).ravel()
            t.close(g, G[ws.index(x)], "dAdu scalar", 1e-12, 1e-14)


class Sizes(Model):
    """Arrays on both sides of every length that might be treated specially."""
    name = "sizes"
    chunk = 1

    def cases(self):
        for f, ps in (("clayton", [-.5, 0.0, 1.5, 8.0]), ("frank", [-40.0, -3.0, 0.0, 4.0, 60.0]), ("gumbel", [1.0, 1.5, 2.0, 4.0])):
            for p in ps:
                for fn in ("psi", "ipsi", "ipsi_log", "dipsi1", "dipsi2", "dipsi1_log", "dipsi2_log") + (("A", "dAdu") if f == "gumbel" else ()):
                    yield {"f": f, "p": p, "fn": fn}

    def check(self, c, t):
        cop = cops.make({"f": c["f"], "d": 2, "p": c["p"]})
        fn = c["fn"]
        call = {"psi": cop.psi, "ipsi": cop.ipsi, "ipsi_log": lambda x: cop.ipsi(x, log=True), "dipsi1": cop.dipsi,
                "dipsi2": lambda x: cop.dipsi(x, degree=2), "dipsi1_log": lambda x: cop.dipsi(x, degree=1, log=True),
                "dipsi2_log": lambda x: cop.dipsi(x, 2, True), "A": getattr(cop, "A", None), "dAdu": getattr(cop, "dAdu", None)}[fn]
        if fn == "dAdu":
            for col in (0, 1):
                sizes.elementwise(t, lambda x: np.asarray(cop.dAdu(x), float).reshape(-1, 2)[:, col], [.05, .2, .4, .5, .75, .93], "dAdu", 20001, forms=False)
            return
        pts = [0.0, .25, .5, 1.0, 3.0, .07, 11.0] if fn == "psi" else [.009, .25, .5, .75, .99, .33, .61]
        sizes.elementwise(t, lambda x: np.asarray(call(x), float), pts, fn, 100001 if self.thorough else 20001)


MODELS = [Sweep, Sizes, Generators, Containers, Dependence]
