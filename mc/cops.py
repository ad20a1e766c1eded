"""Copula specifications (JSON-able), how to build the real object from one, and textbook references for it.

The Archimedean references are the textbook formulas evaluated in decimal arithmetic with enough digits that rounding
plays no role; they share nothing with the implementation.  The elliptical ones use Gauss-Legendre quadrature of
Plackett's identity and the closed-form densities.
"""
import decimal
import itertools
import math
from decimal import Decimal as D
from fractions import Fraction
from functools import lru_cache

import numpy as np
from scipy import stats as st

ctx = decimal.getcontext()
ctx.prec = 60
ctx.Emax, ctx.Emin = 999999999, -999999999


# ------------------------------------------------------------------ building the real thing
def make(spec):
    import copulae as c
    f, d, p = spec["f"], spec.get("d"), spec.get("p")
    if f == "clayton":
        return c.ClaytonCopula(p, d)
    if f == "frank":
        return c.FrankCopula(p, d)
    if f == "gumbel":
        return c.GumbelCopula(p, d)
    if f == "gaussian":
        cop = c.GaussianCopula(d)
        cop.params = np.array(p, float)
        return cop
    if f == "student":
        cop = c.StudentCopula(d)
        cop.params = np.array(p, float)
        return cop
    if f == "indep":
        return c.IndepCopula(d)
    if f == "empirical":
        return c.EmpiricalCopula(np.array(spec["data"], float), smoothing=spec.get("smoothing"),
                                 ties=spec.get("ties", "average"), offset=spec.get("offset", 0))
    if f == "marginal":
        return c.MarginalCopula(make(spec["inner"]), [dict(m) for m in spec["margins"]])
    if f == "gmc":
        from copulae.mixtures.gmc import GMCParam
        k, d = np.shape(spec["means"])
        return c.GaussianMixtureCopula(k, d, GMCParam(k, d, np.array(spec["prob"], float), np.array(spec["means"], float),
                                                      np.array(spec["covs"], float)))
    raise KeyError(f)


def corr(d, rhos):
    """The package's documented order: rhos fill the lower triangle column by column."""
    m = np.eye(d)
    k = 0
    for i in range(d):
        for j in range(i + 1, d):
            m[i, j] = m[j, i] = rhos[k]
            k += 1
    return m


# ------------------------------------------------------------------ alphabets
CLAYTON2 = [-1.0, -0.9, -0.5, -0.1, 0.0, 0.1, 0.5, 1.0, 2.0, 5.0, 20.0, 100.0]
CLAYTON = [0.0, 0.1, 0.5, 1.0, 2.0, 5.0, 20.0]
FRANK2 = [-100.0, -36.0, -35.9, -20.0, -5.0, -1.0, -1e-6, 0.0, 1e-9, 1e-3, 0.5, 1.0, 5.0, 20.0, 37.0, 50.0, 100.0, 300.0]
FRANK = [0.0, 1e-9, 1e-3, 0.5, 1.0, 5.0, 20.0, 37.0, 100.0]
GUMBEL2 = [1.0, 1.0001, 1.25, 1.5, 2.0, 3.0, 5.0, 10.0, 30.0]
GUMBEL = [1.0, 1.25, 1.5, 2.0, 3.0, 5.0, 10.0]
RHO2 = [-0.999, -0.9, -0.5, -0.1, 0.0, 0.1, 0.5, 0.9, 0.99, 0.999]
R3 = [[0, 0, 0], [.5, .5, .5], [.9, .5, .3], [.3, .2, .5], [-.4, .3, .2], [.1, -.7, .3], [.9, .8, .7], [-.4, -.4, -.4]]
R4 = [[0] * 6, [.5] * 6, [.8, .6, .4, .7, .5, .6], [.1, -.2, .3, .15, -.25, .35]]
DFS = [1.0, 2.0, 3.5, 4.0, 8.0, 30.0, 1000.0]


def archimedean(dims=(2, 3, 4), dense=True):
    for d in dims:
        for p in (CLAYTON2 if d == 2 else CLAYTON):
            yield {"f": "clayton", "d": d, "p": p}
        for p in (FRANK2 if d == 2 else FRANK):
            yield {"f": "frank", "d": d, "p": p}
        for p in (GUMBEL2 if d == 2 else GUMBEL):
            yield {"f": "gumbel", "d": d, "p": p}


def rhos(d):
    return {2: [[r] for r in RHO2], 3: R3, 4: R4}[d]


def gaussian(dims=(2, 3, 4)):
    for d in dims:
        for r in rhos(d):
            yield {"f": "gaussian", "d": d, "p": [float(x) for x in r]}


def student(dims=(2, 3, 4), dfs=DFS):
    for d in dims:
        for r in rhos(d):
            for df in dfs:
                yield {"f": "student", "d": d, "p": [df] + [float(x) for x in r]}


# a small menagerie with one or two members of every class, for properties that quantify over classes
def zoo(cdf=None, pdf=None):
    data = [[0.1, 3.0], [2.0, 1.0], [2.0, 5.0], [-1.0, 4.0], [7.0, 4.0]]
    out = [{"f": "clayton", "d": 2, "p": 1.5}, {"f": "clayton", "d": 2, "p": -0.4}, {"f": "clayton", "d": 3, "p": 2.0},
           {"f": "clayton", "d": 2, "p": 0.0},
           {"f": "frank", "d": 2, "p": 4.0}, {"f": "frank", "d": 2, "p": -3.0}, {"f": "frank", "d": 3, "p": 2.5},
           {"f": "frank", "d": 2, "p": 0.0},
           {"f": "gumbel", "d": 2, "p": 2.0}, {"f": "gumbel", "d": 3, "p": 1.5}, {"f": "gumbel", "d": 2, "p": 1.0},
           {"f": "gaussian", "d": 2, "p": [0.6]}, {"f": "gaussian", "d": 3, "p": [0.3, -0.2, 0.5]},
           {"f": "student", "d": 2, "p": [3.0, 0.6]}, {"f": "student", "d": 3, "p": [4.5, 0.3, -0.2, 0.5]},
           {"f": "indep", "d": 2}, {"f": "indep", "d": 3},
           {"f": "empirical", "d": 2, "data": data},
           {"f": "empirical", "d": 2, "data": data, "smoothing": "beta", "offset": 1},
           {"f": "empirical", "d": 2, "data": data, "smoothing": "checkerboard", "ties": "max"},
           {"f": "marginal", "d": 2, "inner": {"f": "clayton", "d": 2, "p": 1.5},
            "margins": [{"type": "norm", "parameters": {"loc": 1, "scale": 2}}, {"type": "expon", "parameters": {"scale": 3}}]},
           {"f": "marginal", "d": 3, "inner": {"f": "gaussian", "d": 3, "p": [0.3, -0.2, 0.5]},
            "margins": [{"type": "norm", "parameters": {"loc": 1, "scale": 2}}, {"type": "gamma", "parameters": {"a": 2.0}},
                        {"type": "t", "parameters": {"df": 5}}]},
           {"f": "gmc", "d": 2, "prob": [0.4, 0.6], "means": [[0, 0], [1, 2]],
            "covs": [[[1, .3], [.3, 1]], [[2, -.5], [-.5, 1]]]},
           {"f": "gmc", "d": 3, "prob": [0.2, 0.5, 0.3], "means": [[0, 0, 0], [1, 2, 3], [-1, 0.5, 0]],
            "covs": [np.eye(3).tolist(), [[2, -.5, 0], [-.5, 1, .2], [0, .2, 1]], (np.eye(3) * 0.5).tolist()]}]
    for s in out:
        if cdf and s["f"] == "student":
            continue
        if pdf and (s["f"] == "empirical" and s.get("smoothing") != "beta"):
            continue
        yield s


# ------------------------------------------------------------------ decimal references
def Dx(x):
    return D(x)      # exact


class prec:
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        self.old = ctx.prec
        ctx.prec = self.n

    def __exit__(self, *a):
        ctx.prec = self.old


def _digits(spec):
    p = abs(float(spec["p"])) if spec["f"] in ("clayton", "frank", "gumbel") else 0
    if spec["f"] == "frank":
        return int(60 + 2 * 0.45 * p) + (40 if 0 < p < 1e-3 else 0)
    return 90


def dec_cdf(spec, u):
    """Textbook cdf at a row of floats or Decimals; coordinates in [0, 1]."""
    f, th = spec["f"], D(spec["p"]) if spec.get("p") is not None and not isinstance(spec["p"], list) else None
    u = [D(x) for x in u]
    d = len(u)
    if min(u) <= 0:
        return D(0)
    with prec(_digits(spec)):
        if f == "indep" or (f in ("clayton", "frank") and th == 0) or (f == "gumbel" and th == 1):
            r = D(1)
            for x in u:
                r *= x
            return +r
        if f == "clayton":
            s = sum(((-th) * x.ln()).exp() for x in u) - (d - 1)
            return (s.ln() * (-1 / th)).exp() if s > 0 else D(0)
        if f == "frank":
            e = (-th).exp() - 1
            r = D(1)
            for x in u:
                r *= (-th * x).exp() - 1
            r = 1 + r / e ** (d - 1)
            return -r.ln() / th if r > 0 else D(0)
        if f == "gumbel":
            s = sum((th * (-x.ln()).ln()).exp() if x < 1 else D(0) for x in u)
            return (-((s.ln() / th).exp())).exp() if s > 0 else D(1)
    raise KeyError(f)


@lru_cache(None)
def stirling2(n, k):
    if n == k:
        return 1
    if k == 0 or k > n:
        return 0
    return k * stirling2(n - 1, k) + stirling2(n - 1, k - 1)


@lru_cache(None)
def stirling1(n, k):
    """signed"""
    if n == k:
        return 1
    if k == 0 or k > n:
        return 0
    return stirling1(n - 1, k - 1) - (n - 1) * stirling1(n - 1, k)


@lru_cache(None)
def gumbel_coefs(d, theta):
    a = 1 / Fraction(theta)
    return [(-1) ** (d - k) * sum(a ** j * stirling1(d, j) * stirling2(j, k) for j in range(k, d + 1))
            for k in range(1, d + 1)]


def dec_pdf(spec, u):
    """Textbook density at an interior row."""
    f, th = spec["f"], D(spec["p"]) if spec.get("p") is not None and not isinstance(spec["p"], list) else None
    u = [D(x) for x in u]
    d = len(u)
    with prec(_digits(spec)):
        if f == "indep" or (f in ("clayton", "frank") and th == 0) or (f == "gumbel" and th == 1):
            return D(1)
        if f == "clayton":
            s = sum(((-th) * x.ln()).exp() for x in u) - (d - 1)
            if s <= 0:
                return D(0)
            r = (s.ln() * (-(d + 1 / th))).exp()
            for k, x in enumerate(u):
                r *= (1 + k * th) * (x.ln() * (-(1 + th))).exp()
            return r
        if f == "frank":
            e = 1 - (-th).exp()
            es = [1 - (-th * x).exp() for x in u]
            h = D(1)
            for x in es:
                h *= x
            h /= e ** (d - 1)
            z = h / (1 - h)
            li = sum(math.factorial(k) * stirling2(d, k + 1) * z ** (k + 1) for k in range(d))
            return (th / e) ** (d - 1) * li / h * (-th * sum(u)).exp()
        if f == "gumbel":
            nl = [-x.ln() for x in u]
            t = sum((th * x.ln()).exp() for x in nl)
            x = (t.ln() / th).exp()
            P = D(0)
            for k, a in enumerate(gumbel_coefs(d, float(spec["p"])), 1):
                P += D(a.numerator) / D(a.denominator) * x ** k
            r = th ** d * (-x).exp() * P / t ** d
            for v, w in zip(u, nl):
                r *= (w.ln() * (th - 1)).exp() / v
            return r
    raise KeyError(f)


def tofloat(x):
    try:
        return float(x)
    except OverflowError:
        return math.inf


def declog(x):
    if x == 0:
        return -math.inf
    with prec(50):
        return float(D(x).ln())


# ------------------------------------------------------------------ elliptical references
_gx, _gw = np.polynomial.legendre.leggauss(160)


def bvn(a, b, r):
    """P(X <= a, Y <= b) for a standard bivariate normal (vectorised over a, b), |r| <= 0.9999."""
    a, b, r = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float), np.asarray(r, float))
    shape = a.shape
    a, b, r = a.ravel(), b.ravel(), r.ravel()
    base = st.norm.cdf(a) * st.norm.cdf(b)
    fin = np.isfinite(a) & np.isfinite(b)
    out = base.copy()
    if fin.any():
        x, y, rr = a[fin][:, None], b[fin][:, None], r[fin][:, None]
        top = np.arcsin(rr)
        tot = 0
        for lo, hi in ((0.0, 0.5), (0.5, 0.9), (0.9, 1.0)):
            th = top * (lo + (hi - lo) * (_gx + 1) / 2)
            s, c2 = np.sin(th), np.cos(th) ** 2
            tot = tot + (np.exp(-(x * x + y * y - 2 * x * y * s) / (2 * c2)) * _gw).sum(1) * (hi - lo) / 2
        out[fin] += tot * top[:, 0] / (2 * np.pi)
    return np.clip(out, 0, 1).reshape(shape)


def gauss_cdf(spec, u):
    """Reference for d = 2, 3 (rows of u)."""
    u = np.asarray(u, float)
    n, d = u.shape
    R = corr(d, spec["p"])
    q = st.norm.ppf(u)
    if d == 2:
        return bvn(q[:, 0], q[:, 1], R[0, 1])
    assert d == 3
    out = np.zeros(n)
    s1, s2 = math.sqrt(1 - R[0, 1] ** 2), math.sqrt(1 - R[0, 2] ** 2)
    rc = (R[1, 2] - R[0, 1] * R[0, 2]) / (s1 * s2)
    for i in range(n):
        if u[i].min() <= 0:
            continue
        hi = min(q[i, 0], 8.5)
        lo = -8.5
        if hi <= lo:
            continue
        x = lo + (hi - lo) * (_gx + 1) / 2
        # conditional scores (an infinite upper limit stays infinite)
        b = (q[i, 1] - R[0, 1] * x) / s1
        c = (q[i, 2] - R[0, 2] * x) / s2
        out[i] = (_gw * st.norm.pdf(x) * bvn(b, c, np.full(x.shape, rc))).sum() * (hi - lo) / 2
    return out


def ell_logpdf(spec, u):
    """log density of the Gaussian / Student copula at interior rows."""
    u = np.asarray(u, float)
    n, d = u.shape
    if spec["f"] == "gaussian":
        R = corr(d, spec["p"])
        q = st.norm.ppf(u)
        P = np.linalg.inv(R) - np.eye(d)
        return -0.5 * np.log(np.linalg.det(R)) - 0.5 * np.einsum("ij,jk,ik->i", q, P, q)
    df, R = spec["p"][0], corr(d, spec["p"][1:])
    q = st.t.ppf(u, df)
    lg = math.lgamma
    m = np.einsum("ij,jk,ik->i", q, np.linalg.inv(R), q)
    joint = lg((df + d) / 2) - lg(df / 2) - d / 2 * math.log(df * math.pi) - 0.5 * math.log(np.linalg.det(R)) \
        - (df + d) / 2 * np.log1p(m / df)
    marg = (lg((df + 1) / 2) - lg(df / 2) - 0.5 * math.log(df * math.pi) - (df + 1) / 2 * np.log1p(q * q / df)).sum(1)
    return joint - marg


def grid(axis, d):
    return np.array(list(itertools.product(axis, repeat=d)), float)


def representable(spec, u):
    """Points at which the quantities of the textbook formula fit into a double (stated assumption of C01/C02)."""
    f, p = spec["f"], spec.get("p")
    u = np.asarray(u, float)
    with np.errstate(all="ignore"):
        lu = np.where(u > 0, -np.log(u), 0.0)
        if f == "clayton":
            return (abs(p) * lu < 600).all(1)
        if f == "gumbel":
            return ((u == 1) | (p * np.abs(np.log(lu)) < 600) | (u <= 0)).all(1)
    return np.ones(len(u), bool)
