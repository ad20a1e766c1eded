"""Dependence measures: closed forms, the copula's own cdf, the inverses, the derivatives, monotonicity and purity."""
import itertools
import math
from fractions import Fraction

import numpy as np
import scipy.stats as st

from .. import cops, sweep
from ..core import Model

RULE = ("every family x parameter lattice (both ends of the domain) x {tau, rho, lambda_, dtau, drho, itau, irho}; inverses and "
        "derivatives with every container kind over all pairs/triples of a value alphabet; grid brackets tie the measures to the cdf")
ASSUMPTIONS = ["Kendall's tau / Spearman's rho of the cdf are bracketed by an n x n grid (the bracket is rigorous: undetermined "
               "pairs share a grid row or column)", "infinite Archimedean parameters are not explored"]

CL = [-1.0, -.999, -.7, -.3, -1e-6, 0.0, 1e-9, 1e-4, 1e-3, .003, .006, .0095, .011, .02, .05, .5, 1.0, 2.0, 7.5, 20.0, 100.0, 1e4]
FR = [-800.0, -300.0, -60.0, -36.0, -20.0, -7.0, -3.1, -2.9, -1.0, -.2, -.011, -.009, -.0011, -9e-4, -1e-6, 0.0, 1e-9, 1e-5, 9e-4, .0011,
      .009, .011, .1, .5, 1.0, 2.0, 2.9, 3.1, 5.0, 10.0, 30.0, 60.0, 300.0, 800.0, 1e5]
GU = [1.0, 1 + 1e-8, 1.001, 1.1, 1.5, 2.0, 3.3, 10.0, 100.0, 1e6]
RH = [-1.0, -.999, -.8, -.5, -.1, -1e-6, 0.0, 1e-9, .2, .5, .75, .9, .999, .9999, .9999999, 1.0]

# ---------------------------------------------------------------- Debye references
_B = [Fraction(1)]
for _m in range(1, 61):
    _B.append(-sum(math.comb(_m + 1, _k) * _B[_k] for _k in range(_m)) / (_m + 1))
_x, _w = np.polynomial.legendre.leggauss(200)


def _q(f, x):
    """integral of f over [0, x], in panels"""
    hi = min(x, 745.0)
    n = max(1, int(hi / 8) + 1)
    e = np.linspace(0, hi, n + 1)
    return math.fsum(float((f((a + (b - a) * (_x + 1) / 2) * 1.0) * _w).sum() * (b - a) / 2) for a, b in zip(e, e[1:]))


def frank_ref(x):
    """tau, rho, dtau, drho of the Frank copula (x != 0)"""
    s = 1 if x > 0 else -1
    x = abs(x)
    if x < 3:
        tau = rho = dtau = drho = 0.0
        for k in range(30, 0, -1):
            b = float(_B[2 * k]) / math.factorial(2 * k)
            c = 4 * b / (2 * k + 1)
            g = 12 * b * (1 / (k + 1) - 1 / (2 * k + 1))
            tau += c * x ** (2 * k - 1)
            rho += g * x ** (2 * k - 1)
            dtau += c * (2 * k - 1) * x ** (2 * k - 2)
            drho += g * (2 * k - 1) * x ** (2 * k - 2)
    else:
        d1 = _q(lambda t: t / np.expm1(t), x) / x
        d2 = 2 * _q(lambda t: t * t / np.expm1(t), x) / x ** 2
        tau = 1 + 4 * (d1 - 1) / x
        rho = 1 + 12 * (d2 - d1) / x
        e = 1 / math.expm1(x) if x < 700 else 0.0
        dd1 = e - d1 / x
        dd2 = 2 * e - 2 * d2 / x
        dtau = -4 * (d1 - 1) / x ** 2 + 4 * dd1 / x
        drho = -12 * (d2 - d1) / x ** 2 + 12 * (dd2 - dd1) / x
    return s * tau, s * rho, dtau, drho


def ref(f, p, df=None):
    """dict of the textbook values at a scalar parameter"""
    if f == "clayton":
        return {"tau": p / (p + 2), "dtau": 2 / (p + 2) ** 2, "lower": 2 ** (-1 / p) if p > 0 else 0.0, "upper": 0.0}
    if f == "gumbel":
        return {"tau": 1 - 1 / p, "dtau": 1 / p ** 2, "lower": 0.0, "upper": 2 - 2 ** (1 / p)}
    if f == "frank":
        t, r, dt, dr = frank_ref(p) if p else (0.0, 0.0, 1 / 9, 1 / 6)
        return {"tau": t, "rho": r, "dtau": dt, "drho": dr, "lower": 0.0, "upper": 0.0}
    o = {"tau": 2 / math.pi * math.asin(p), "dtau": 2 / (math.pi * math.sqrt(1 - p * p)) if abs(p) < 1 else math.inf}
    if f == "gaussian":
        o["rho"] = 6 / math.pi * math.asin(p / 2)
        o["drho"] = 6 / (math.pi * math.sqrt(4 - p * p))
        o["lower"] = o["upper"] = float(p == 1)
    else:
        if p == -1:
            lam = 0.0
        else:
            z = math.sqrt((df + 1) * (1 - p) / (1 + p))
            lam = 2 * st.t.sf(z, df + 1)
        o["lower"] = o["upper"] = lam
    return o


LATTICE = {"clayton": CL, "frank": FR, "gumbel": GU, "gaussian": RH, "student": RH}
DFS = [.05, .5, 1.0, 2.5, 4.0, 30.0, 150.0, 1e3, 5e3, 1e5, 1e7]


def build(f, p, d=2, df=3.0):
    if f in ("gaussian", "student"):
        n = d * (d - 1) // 2
        rr = [p] * n if np.ndim(p) == 0 else list(p)
        return cops.make({"f": f, "d": d, "p": rr if f == "gaussian" else [df] + rr})
    return cops.make({"f": f, "d": d, "p": p})


class Measures(Model):
    """tau, rho, lambda_ and the default-argument derivatives at every parameter, dimension and parameter history."""
    name = "measures"

    def cases(self):
        for f, lat in LATTICE.items():
            for d in (2, 3, 4):
                for p in lat:
                    if d > 2 and (f in ("clayton", "frank") and p < 0 or f in ("gaussian", "student") and p < -.33):
                        continue
                    for df in (DFS if f == "student" else [None]):
                        yield {"f": f, "p": p, "d": d, "df": df}

    def check(self, c, t):
        cop = build(c["f"], c["p"], c["d"], c["df"])
        self.compare(cop, c, t)
        # the measures follow the current parameter, not the one of construction
        other = build(c["f"], {"clayton": .4, "frank": 1.7, "gumbel": 1.9}.get(c["f"], .3), c["d"], 7.0)
        other.tau, other.lambda_
        other.params = cop.params
        self.compare(other, c, t, "after assignment: ")

    def compare(self, cop, c, t, pre=""):
        f, p, d = c["f"], c["p"], c["d"]
        ell = f in ("gaussian", "student")
        want = ref(f, p, c["df"])
        before = np.array(np.hstack([np.ravel(v) for v in cop.params]) if f == "student" else cop.params, float).copy()
        shape = (d * (d - 1) // 2,) if ell else ()
        tol = {"tau": (1e-9, 1e-11), "rho": (1e-9, 1e-11), "dtau": (1e-6, 1e-12), "drho": (1e-6, 1e-12)}
        for m in ("tau", "rho", "dtau", "drho"):
            if m not in want:
                continue
            got = getattr(cop, m)() if m.startswith("d") else getattr(cop, m)
            if ell and np.ndim(got) == 0:      # single-element vectors may come squeezed
                got = np.reshape(got, (1,))
            t.close(got, np.full(shape, want[m]), m, *tol[m], ctx=pre + m)
            if isinstance(got, np.ndarray) and got.ndim:
                got[...] = 0.123
        lam = cop.lambda_
        t.close(np.reshape(lam[0], shape or ()) if ell else lam[0], np.full(shape, want["lower"]), "lambda lower", 1e-8, 1e-300, pre + "lower")
        t.close(np.reshape(lam[1], shape or ()) if ell else lam[1], np.full(shape, want["upper"]), "lambda upper", 1e-8, 1e-300, pre + "upper")
        t.expect(tuple(getattr(lam, "_fields", ())) == ("lower", "upper"), "lambda fields", "fields of lambda_")
        after = np.array(np.hstack([np.ravel(v) for v in cop.params]) if f == "student" else cop.params, float)
        t.close(after, before, "parameters changed", 0, 0, pre)


class SweepMeasures(Measures):
    """The same on both sides of every magnitude at which a formula might switch branches."""
    name = "measures, parameter sweep"

    def cases(self):
        for f in ("clayton", "frank", "gumbel"):
            for p in sweep.parameters(f, 2, self.thorough):
                yield {"f": f, "p": p, "d": 2, "df": None}
        for p in sweep.parameters("rho", 2, self.thorough):
            yield {"f": "gaussian", "p": p, "d": 2, "df": None}
            yield {"f": "student", "p": p, "d": 2, "df": 3.3}
        for df in sweep.parameters("df", 2, self.thorough):
            for p in (-.7, .4, .995):
                yield {"f": "student", "p": p, "d": 2, "df": df}


class Pairwise(Model):
    """For a matrix of correlations the measures are those of each pair, in the order of the parameters."""
    name = "pairwise"

    def cases(self):
        vals = [-.4, .1, .6] if not self.thorough else [-.4, -.2, .1, .35, .6]
        for f in ("gaussian", "student"):
            for r in itertools.product(vals, repeat=3):
                if np.linalg.eigvalsh(cops.corr(3, r)).min() > .01:
                    yield {"f": f, "p": list(r)}
            yield {"f": f, "p": [.8, .6, .4, .7, .5, .6]}
            yield {"f": f, "p": [.1, -.2, .3, .15, -.25, .35]}

    def check(self, c, t):
        d = 3 if len(c["p"]) == 3 else 4
        cop = build(c["f"], c["p"], d, 3.5)
        refs = [ref(c["f"], p, 3.5) for p in c["p"]]
        for m in ("tau", "rho", "dtau", "drho"):
            if m in refs[0]:
                got = getattr(cop, m)() if m.startswith("d") else getattr(cop, m)
                t.close(got, [r[m] for r in refs], m, 1e-9, 1e-12, m)
        lam = cop.lambda_
        t.close(lam.lower, [r["lower"] for r in refs], "lower", 1e-8, 1e-12)
        t.close(lam.upper, [r["upper"] for r in refs], "upper", 1e-8, 1e-12)


class OwnCdf(Model):
    """tau, rho and lambda_ against the functionals of the copula's own cdf on a grid (rigorous brackets)."""
    name = "own_cdf"

    def cases(self):
        for f in ("clayton", "frank", "gumbel", "gaussian"):
            lat = {"clayton": [-.7, -.3, 0.0, .05, .5, 1.0, 2.0, 7.5, 20.0], "frank": [-60.0, -20.0, -5.0, -1.0, 0.0, 1e-3, .5, 3.0, 10.0, 60.0],
                   "gumbel": [1.0, 1.1, 1.5, 2.0, 5.0, 20.0], "gaussian": [-.9, -.5, 0.0, .3, .75, .95]}[f]
            for p in lat:
                yield {"f": f, "p": p, "n": (400 if self.thorough else 200) if f != "gaussian" else (100 if self.thorough else 50)}

    def check(self, c, t):
        n = c["n"]
        cop = build(c["f"], c["p"])
        # interior grid only: the boundary values of a copula cdf are C(u,1)=u, C(u,0)=0 (property C01)
        g = np.linspace(0, 1, n + 1)
        C = np.zeros((n + 1, n + 1))
        u = cops.grid(g[1:-1], 2)
        C[1:-1, 1:-1] = np.asarray(cop.cdf(u), float).reshape(n - 1, n - 1)
        C[-1, :] = g
        C[:, -1] = g
        M = np.clip(C[1:, 1:] - C[:-1, 1:] - C[1:, :-1] + C[:-1, :-1], 0, 1)
        # concordant/discordant probability of two cells strictly apart in both coordinates
        low = np.zeros_like(M)
        low[1:, 1:] = M.cumsum(0).cumsum(1)[:-1, :-1]
        disc = np.zeros_like(M)
        disc[1:, :-1] = M[:, ::-1].cumsum(0).cumsum(1)[:, ::-1][:-1, 1:]
        P, Q = 2 * (M * low).sum(), 2 * (M * disc).sum()
        und = 1 - P - Q
        tau = float(np.ravel(cop.tau)[0])
        t.expect(P - Q - und - 1e-6 <= tau <= P - Q + und + 1e-6, "tau of the cdf", "tau %r outside [%r, %r]" % (tau, P - Q - und, P - Q + und))
        if c["f"] in ("frank", "gaussian"):
            rho = float(np.ravel(cop.rho)[0])
            lo, hi = 12 * C[:-1, :-1].mean() - 3, 12 * C[1:, 1:].mean() - 3
            t.expect(lo - 1e-6 <= rho <= hi + 1e-6, "rho of the cdf", "rho %r outside [%r, %r]" % (rho, lo, hi))
            # the midpoint of the two sums (trapezoid) is second order
            tr = (C[:-1, :-1] + C[1:, 1:] + C[1:, :-1] + C[:-1, 1:]).mean() / 4 * 12 - 3
            t.expect(abs(tr - rho) <= 40 / n ** 2 * max(1, abs(c["p"])), "rho of the cdf (trapezoid)", "rho %r, trapezoid %r" % (rho, tr))
        if c["f"] != "gaussian":
            lam = cop.lambda_
            q = max(1e-300, 10.0 ** (-240 / c["p"])) if c["f"] == "clayton" and c["p"] > 0 else 1e-7
            if c["f"] == "gumbel":
                q = 1e-300 if c["p"] >= 1.1 else 1e-7
            got = float(cop.cdf([q, q])) / q
            slow = c["f"] == "gumbel"     # C(q,q)/q = q**(2**(1/theta) - 1) tends to 0 slowly
            want = float(lam.lower)
            t.close(got, q ** (2 ** (1 / c["p"]) - 1) if slow else want, "lower tail of the cdf", 1e-5, 1e-3, "q=%g" % q)
            if slow:
                t.close(want, 0.0, "lower tail of the cdf", 0, 0)
            h = 1e-7
            got = (1 - 2 * (1 - h) + float(cop.cdf([1 - h, 1 - h]))) / h
            t.close(got, float(lam.upper), "upper tail of the cdf", 1e-4, 1e-3, "upper")


KINDS = ["scalar", "npscalar", "zerod", "list", "tuple", "array", "column", "matrix", "ints", "float32", "readonly", "strided", "series"]


def containers(vals, kind):
    """the values in a container, or None where the kind cannot hold them; and the expected output shape"""
    v = np.array(vals, float)
    if kind == "scalar":
        return float(v[0]), (), v[:1]
    if kind == "npscalar":
        return np.float64(v[0]), (), v[:1]
    if kind == "zerod":
        return np.array(v[0]), (), v[:1]
    if kind == "list":
        return v.tolist(), v.shape, v
    if kind == "tuple":
        return tuple(v.tolist()), v.shape, v
    if kind == "array":
        return v.copy(), v.shape, v
    if kind == "column":
        return v.reshape(-1, 1).copy(), v.shape, v
    if kind == "matrix":
        m = np.stack([v, v[::-1]])
        return m.copy(), m.shape, m
    if kind == "ints":
        if not np.all(v == np.round(v)):
            return None, None, None
        return v.astype(int), v.shape, v
    if kind == "float32":
        w = v.astype(np.float32)
        return w, w.shape, w.astype(float)
    if kind == "readonly":
        w = v.copy()
        w.flags.writeable = False
        return w, w.shape, v
    if kind == "strided":
        w = np.full(2 * len(v), -77.0)
        w[::2] = v
        return w[::2], v.shape, v
    import pandas as pd
    return pd.Series(v, index=range(5, 5 + len(v))), v.shape, v


def snapshot(x):
    if isinstance(x, np.ndarray):
        return (x.base if x.base is not None else x).copy()
    if hasattr(x, "to_numpy"):
        return x.to_numpy().copy()
    return np.array(x, float)


KEYWORD = {(f, fn): {"itau": "tau", "irho": "rho", "dtau": "x", "drho": "x"}[fn] for f in LATTICE for fn in ("itau", "irho", "dtau", "drho")}
KEYWORD["clayton", "dtau"] = "theta"


class Functions(Model):
    """itau/irho/dtau/drho with an explicit argument: every container kind x all tuples over a value alphabet."""
    name = "functions"

    TAUS = {"clayton": [-1.0, -.5, -1 / 3, -1e-6, 0.0, 1e-6, .2, .5, .9, .999, 1.0],
            "frank": [-.99, -.9, -.5, -.02, -1e-6, 0.0, 1e-6, 1e-3, .02, .5, .9, .99],
            "gumbel": [0.0, 1e-6, .2, .5, .9, .999, 1.0],
            "gaussian": [-1.0, -.9, -.5, -1e-6, 0.0, .1, 1 / 3, .5, .9, 1.0]}
    TAUS["student"] = TAUS["gaussian"]

    def cases(self):
        for f in LATTICE:
            for fn in ("itau", "irho", "dtau", "drho"):
                if fn in ("irho",) and f != "gaussian" or fn == "drho" and f not in ("frank", "gaussian"):
                    continue
                al = self.TAUS[f] if fn[0] == "i" else [x for x in LATTICE[f] if not (f in ("gaussian", "student") and fn == "dtau" and abs(x) == 1)]
                tuples = [(a,) for a in al] + list(itertools.permutations(al, 2) if self.thorough else zip(al, al[1:])) + \
                    [tuple(al), tuple(al[::-1])]
                for k in KINDS:
                    yield {"f": f, "fn": fn, "kind": k, "tuples": [list(x) for x in tuples]}

    def inverse(self, f, fn, v):
        if fn == "itau":
            if f == "clayton":
                return 2 * v / (1 - v) if v != 1 else math.inf
            if f == "gumbel":
                return 1 / (1 - v) if v != 1 else math.inf
            return math.sin(math.pi / 2 * v)
        return 2 * math.sin(math.pi / 6 * v)

    def check(self, c, t):
        f, fn = c["f"], c["fn"]
        for d in (2, 3):
            cop = build(f, {"clayton": .7, "frank": 2.2, "gumbel": 1.3}.get(f, .25), d)
            p0 = np.hstack([np.ravel(x) for x in (cop.params if f == "student" else (cop.params,))]).astype(float)
            for tup in c["tuples"]:
                if len(tup) > 1 and c["kind"] in ("scalar", "npscalar", "zerod"):
                    continue
                x, shape, vals = containers(tup, c["kind"])
                if x is None:
                    continue
                snap = snapshot(x)
                got = getattr(cop, fn)(x)
                t.close(snapshot(x), snap, "argument modified", 0, 0, fn)
                g = np.asarray(got, float)
                n = np.size(vals)
                kw = np.asarray(getattr(cop, fn)(**{KEYWORD[f, fn]: x}), float)
                t.expect(kw.shape == g.shape and np.array_equal(kw, g, equal_nan=True), "keyword call", lambda: "%s: %r / %r" % (fn, kw, g))
                ctx = "%s(%s) d=%d" % (fn, c["kind"], d)
                if len(tup) == 1 or c["kind"] == "column":
                    okshape = g.size == n
                else:
                    okshape = g.shape == shape
                if not t.expect(okshape, "shape", "%s: shape %s for argument shape %s" % (ctx, g.shape, shape)):
                    continue
                g, w = g.ravel(), np.ravel(vals)
                if fn == "itau" and f == "frank":
                    for a, b in zip(g, w):
                        if b == 0:
                            t.close(a, 0.0, "itau", 0, 1e-12, ctx)
                            continue
                        tr, _, dt, _ = frank_ref(a) if a else (0, 0, 1 / 9, 0)
                        # solver tolerance on the parameter scale
                        t.expect(abs(tr - b) <= 1e-6 * dt * max(1, abs(a)) + 1e-12 and np.sign(a) == np.sign(b), "itau",
                                 lambda: "%s: itau(%r) = %r whose tau is %r" % (ctx, b, a, tr))
                elif c["kind"] == "float32":       # computed in the caller's single precision
                    t.close(g, [self.inverse(f, fn, b) if fn[0] == "i" else ref(f, b, 3.0)[fn] for b in w], fn, 2e-3, 1e-5, ctx)
                elif fn[0] == "i":
                    t.close(g, [self.inverse(f, fn, b) for b in w], fn, 1e-9, 1e-12, ctx)
                else:
                    t.close(g, [ref(f, b, 3.0)[fn] for b in w], fn, 2e-6, 1e-12, ctx)
            p1 = np.hstack([np.ravel(x) for x in (cop.params if f == "student" else (cop.params,))]).astype(float)
            t.close(p1, p0, "parameters changed", 0, 0, fn)


class RoundTrip(Model):
    """itau(tau(p)) = p, irho(rho(p)) = p; measures increase along the lattice."""
    name = "roundtrip"

    def cases(self):
        for f in LATTICE:
            yield {"f": f}
            ps = sweep.parameters(f if f in ("clayton", "frank", "gumbel") else "rho", 2, self.thorough)
            for i in range(0, len(ps), 20):
                yield {"f": f, "ps": ps[i:i + 21]}

    def check(self, c, t):
        f = c["f"]
        prev = None
        for p in c.get("ps", LATTICE[f]):
            cop = build(f, p)
            tau = float(np.ravel(cop.tau)[0])
            rho = float(np.ravel(cop.rho)[0]) if f in ("frank", "gaussian") else None
            lam = max(float(np.ravel(x)[0]) for x in cop.lambda_)
            if prev is not None:
                t.expect(tau > prev[0] or tau == prev[0] == 1, "tau increases", "tau(%r)=%r after tau(%r)=%r" % (p, tau, prev[3], prev[0]))
                if rho is not None:
                    t.expect(rho > prev[1] or (abs(p) >= 1e5 and rho >= prev[1] - 1e-12), "rho increases", "rho(%r)=%r after %r" % (p, rho, prev[1]))
                t.expect(lam >= prev[2], "lambda increases", "lambda(%r)=%r after %r" % (p, lam, prev[2]))
            prev = (tau, rho, lam, p)
            if f == "clayton" and p > 1e3 or f == "gumbel" and p > 1e3 or f == "frank" and abs(p) > 700:
                continue
            got = float(np.ravel(cop.itau(cop.tau))[0])
            t.close(got, p, "itau(tau)", 1e-6, 2e-8, "p=%r" % p)
            if f == "gaussian":
                t.close(float(np.ravel(cop.irho(cop.rho))[0]), p, "irho(rho)", 1e-9, 1e-9, "p=%r" % p)


_g1, _w1 = np.polynomial.legendre.leggauss(60)


class StudentRho(Model):
    """Spearman's rho of the Student copula: 6/pi E[asin(r sqrt(B1 B2))], B_i = V_i/(V+V_i), V, V_i iid gamma(df/2)."""
    name = "student_rho"

    def cases(self):
        for df in (1.0, 4.0, 1e7):
            for r in (-.5, 0.0, .8):
                yield {"df": df, "p": r}

    def check(self, c, t):
        cop = build("student", c["p"], 2, c["df"])
        if c["df"] > 1e6:
            want, dw = 6 / math.pi * math.asin(c["p"] / 2), 6 / math.pi / math.sqrt(4 - c["p"] ** 2)
        else:
            x = (_g1 + 1) / 2
            x, w = x * x * (3 - 2 * x), _w1 / 2 * 6 * x * (1 - x)
            v = st.gamma.ppf(x, c["df"] / 2)
            B = v[None, :] / (v[:, None] + v[None, :])          # V index first
            s = np.sqrt(B[:, :, None] * B[:, None, :])
            W = w[:, None, None] * w[None, :, None] * w[None, None, :]
            want = 6 / math.pi * (W * np.arcsin(c["p"] * s)).sum()
            dw = 6 / math.pi * (W * s / np.sqrt(1 - (c["p"] * s) ** 2)).sum()
        t.close(np.ravel(cop.rho)[0], want, "rho", 1e-4, 1e-4)
        t.close(np.ravel(cop.drho())[0], dw, "drho", 1e-4, 1e-4)


MODELS = [SweepMeasures, Measures, Pairwise, OwnCdf, Functions, RoundTrip, StudentRho]
