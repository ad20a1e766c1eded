"""Multivariate t and skew stable distributions: densities on parameter/point lattices against independent references
(Student's formula, inversion of the characteristic function), draws on a grid of the underlying random numbers."""
import functools
import itertools
import math

import numpy as np
import scipy.stats as st

from .. import sizes
from ..core import Model
from .c17 import feed, t_cdf2

COVS = {1: [1, 2.5, [[2.0]], [[.09]]],
        2: [[[1., 0.], [0., 1.]], [[2., .6], [.6, .5]], [[1., -.95], [-.95, 1.]], [[6.1, 2.78], [2.78, 1.28]]],
        3: [np.eye(3).tolist(), [[1., .5, .2], [.5, 2., -.3], [.2, -.3, .8]]],
        4: [(np.eye(4) * .4 + .6).tolist()]}
MEANS = {1: [None, 1.5, [-2.0]], 2: [None, 3, [1., -2.]], 3: [None, [1., 0., -1.]], 4: [None, [0., 1., 2., 3.]]}
DFS = (.3, 1, 2, 2.5, None, 7, 30.0, 500.0, 9999.0, 10000, 10000.5, 20000, 1e7, math.inf)


def mvt_log(x, mean, cov, df):
    """log density by its definition; rows of x"""
    cov = np.atleast_2d(np.asarray(cov, float))
    d = len(cov)
    L = np.linalg.cholesky(cov)
    z = np.linalg.solve(L, (np.atleast_2d(x) - mean).T)
    q = (z * z).sum(0)
    ld = np.log(np.diag(L)).sum()
    if math.isinf(df):
        return -.5 * q - ld - d / 2 * math.log(2 * math.pi), q
    if df > 1e6:            # lgamma differences lose digits: Stirling's expansion of lgamma((df+d)/2) - lgamma(df/2)
        h = df / 2
        lg = d / 2 * math.log(h) + d / 2 * (d / 2 - 1) / (2 * h)
    else:
        lg = math.lgamma((df + d) / 2) - math.lgamma(df / 2)
    return lg - d / 2 * math.log(df * math.pi) - ld - (df + d) / 2 * np.log1p(q / df), q


def axis(d):
    a = {1: (-1e6, -30., -2., -.5, 0., .1, 1., 4., 100.), 2: (-40., -2., 0., .3, 1.7, 12.), 3: (-9., -.5, 0., 2.), 4: (-3., 0., 1.5)}[d]
    return np.array(list(itertools.product(a, repeat=d)))


class Density(Model):
    name = "multivariate t density"

    def cases(self):
        for d in (1, 2, 3, 4):
            for ci, mi in itertools.product(range(len(COVS[d])), range(len(MEANS[d]))):
                for df in DFS if not self.thorough else DFS + (.01, .05, 1.1, 3, 4, 15, 60.5, 120, 1000, 5000, 11000, 1e5, 1e12):
                    yield {"d": d, "cov": COVS[d][ci], "mean": MEANS[d][mi], "df": df if df is None or math.isfinite(df) else "inf"}

    def check(self, case, t):
        from copulae.stats import multivariate_t as mvt
        d, cov, mean = case["d"], case["cov"], case["mean"]
        df = math.inf if case["df"] == "inf" else case["df"]
        x = axis(d)
        ctx = repr(case)
        mu = np.zeros(d) if mean is None else np.broadcast_to(np.asarray(mean, float), (d,))
        nu = 4.6692 if df is None else df
        want, q = mvt_log(x, mu, cov, nu)
        if isinstance(cov, list):
            ac = np.array(cov)
            am = None if mean is None else np.array(mean) if isinstance(mean, list) else mean
        else:
            ac, am = cov, mean
        x0, c0, m0 = x.copy(), np.array(ac), None if am is None else np.array(am)
        lg = np.asarray(mvt.logpdf(x, am, ac, df))
        t.expect(lg.shape == (len(x),), "shape", lambda: "%s: %s" % (ctx, lg.shape))
        # documented approximation by the normal for very many degrees of freedom
        slack = np.zeros(len(x)) if nu <= 9999 or math.isinf(nu) else np.minimum(.5 * (d + q) ** 2 / nu + .5 * d * d / nu, np.abs(want) + q)
        if nu <= 10000:
            slack[:] = 0
        bad = ~(np.abs(lg - want) <= 1e-8 + 1e-9 * np.abs(want) + slack)
        t.expect(not bad.any(), "log density", lambda: "%s at %r: %r instead of %r" % (ctx, x[bad][0].tolist(), lg[bad][0], want[bad][0]))
        pd_ = np.asarray(mvt.pdf(x, am, ac, df))
        t.close(pd_, np.exp(lg), "density and log density", 1e-10, 1e-300, ctx)
        t.close(mvt.pdf(x=x.tolist(), mean=mean, cov=cov, df=df), pd_, "containers", 1e-12, 0, ctx)
        if df is None:
            t.close(mvt.logpdf(x, am, ac), lg, "default degrees of freedom", 0, 0, ctx)
        if mean is None:
            t.close(mvt.logpdf(x, cov=ac, df=df), lg, "default mean", 0, 0, ctx)
        t.expect(np.array_equal(x, x0) and np.array_equal(np.array(ac), c0) and (am is None or np.array_equal(am, m0)), "arguments modified", ctx)
        pick = range(0, len(x), 1 if self.thorough else max(1, len(x) // 12))
        for i in pick:
            r = np.asarray(mvt.logpdf(x[i] if d > 1 else float(x[i, 0]), am, ac, df))
            t.expect(r.size == 1 and abs(r.ravel()[0] - lg[i]) <= 1e-9 * (1 + abs(lg[i])), "row-wise", lambda: "%s at %r: %r instead of %r" % (ctx, x[i], r, lg[i]))
        t.close(mvt.logpdf(x[::-1], am, ac, df), lg[::-1], "row order", 1e-12, 0, ctx)
        if d > 1:
            k = len(x) // 2 * 2
            t.close(mvt.logpdf(x[:k].reshape(2, k // 2, d), am, ac, df), lg[:k].reshape(2, -1), "stacked points", 1e-12, 0, ctx)
        else:
            t.close(mvt.logpdf(x[:, 0], am, ac, df), lg, "one variable", 1e-12, 0, ctx)
        # a common permutation of the variables
        for p in list(itertools.permutations(range(d)))[1:4]:
            C = np.atleast_2d(np.asarray(cov, float))[np.ix_(p, p)]
            t.close(mvt.logpdf(x[:, p], mu[list(p)], C, df), lg, "permuted variables", 1e-9, 1e-9, ctx)


class Invalid(Model):
    name = "invalid multivariate t parameters"

    def cases(self):
        good = {"mean": None, "cov": [[1., .2], [.2, 1.]], "df": 4}
        for k, v in (("df", 0), ("df", -1), ("df", -1e-9), ("df", -math.inf), ("mean", [0.0]), ("mean", [0., 0., 0.]), ("mean", [[0., 0.]]),
                     ("cov", [[1., 2.], [2., 1.]]), ("cov", [[-1., 0.], [0., 1.]]), ("cov", [[1., 0.], [0., -1e-3]]), ("cov", -1.0)):
            yield {**good, k: v if not isinstance(v, float) or math.isfinite(v) else "-inf", "why": k}

    def check(self, case, t):
        from copulae.stats import multivariate_t as mvt
        df = -math.inf if case["df"] == "-inf" else case["df"]
        x = [[.1, .2], [.3, -1.]] if case["cov"] != -1.0 else [.1, .2]
        for f in (mvt.pdf, mvt.logpdf):
            t.raises(ValueError, lambda: f(x, case["mean"], case["cov"], df), "refused", "%s %r" % (f.__name__, case))
        if case["why"] == "df":
            for n in (1, 5):
                t.raises(ValueError, lambda: mvt.rvs(case["mean"], case["cov"], df, n), "refused", "rvs %r" % case)
        t.raises(ValueError, lambda: mvt.rvs(None, [[1., .2], [.2, 1.]], None, 3), "refused", "rvs without df")
        t.raises(ValueError, lambda: mvt.rvs(None, [[1., .2], [.2, 1.]], 3, 3, "other"), "refused", "rvs of unknown type")
        for n in (2.5, [2, 2.5], "3"):
            t.raises(ValueError, lambda: mvt.rvs(None, [[1., .2], [.2, 1.]], 3, n), "refused", "rvs size %r" % (n,))


@functools.lru_cache(None)
def t2(a, b, df, rho):
    return t_cdf2(a, b, df, rho)


class Draws(Model):
    name = "multivariate t draws"
    chunk = 1

    def cases(self):
        for d in (1, 2, 3):
            for cov, mean in itertools.product(COVS[d], MEANS[d]):
                if isinstance(mean, (int, float)) and d > 1:
                    continue        # scalar means are broadcast by the density only
                for df in (1.0, 2.5, 6, 40.0, 2e4):
                    for kind in ("shifted", "kshirsagar"):
                        yield {"d": d, "cov": cov, "mean": mean, "df": df, "type": kind}

    def check(self, case, t):
        from copulae.stats import multivariate_t as mvt
        d, cov, mean, df, kind = (case[k] for k in ("d", "cov", "mean", "df", "type"))
        ctx = repr(case)
        cv = np.array(cov) if isinstance(cov, list) else cov
        mn = np.array(mean) if isinstance(mean, list) else mean
        c0, m0 = np.array(cv), None if mn is None else np.array(mn)
        for size in (1, 2, 7, [3], [4, 2], (2, 3)):
            r = np.asarray(mvt.rvs(mn, cv, df, size, kind, random_state=11))
            shp = tuple(size) if isinstance(size, (list, tuple)) else () if size == 1 else (size,)
            full = shp + (d,)
            ok = r.shape == full or d == 1 and r.shape in (shp, full)
            t.expect(ok and r.dtype == float, "shape", lambda: "%s size %r: %s" % (ctx, size, r.shape))
            t.close(mvt.rvs(mn, cv, df, size, kind, random_state=11), r, "same seed, same draws", 0, 0, ctx)
            np.random.seed(11)
            t.close(mvt.rvs(mn, cv, df, size, kind), r, "global seed", 0, 0, ctx)
            if kind == "shifted":
                t.close(mvt.rvs(mn, cv, df, size, "SHIFTED", 11), r, "type is not case sensitive", 0, 0, ctx)
                t.close(mvt.rvs(mean=mn, cov=cv, df=df, size=size, random_state=11), r, "default type", 0, 0, ctx)
                z = np.asarray(mvt.rvs(None, cv, df, size, kind, random_state=11))
                t.close(np.ravel(r - (0 if mn is None else mn)), z.ravel(), "shift", 1e-9, 1e-9, ctx)
            o = np.asarray(mvt.rvs(mn, cv, df, size, kind, random_state=12))
            t.expect(not np.array_equal(o, r), "different seeds, different draws", ctx)
        t.expect(np.array_equal(np.array(cv), c0) and (mn is None or np.array_equal(mn, m0)), "arguments modified", ctx)
        n = (2 ** 14, 2 ** 15, 2 ** 16)[d - 1] * (8 if self.thorough else 1)
        x = feed(lambda k: mvt.rvs(mn, cv, df, k, kind), n)
        t.outcome = "grid" if x is not None else "generator"
        tol = .004 if x is not None else .009
        if x is None:
            x = np.asarray(mvt.rvs(mn, cv, df, 200000, kind, random_state=5))
        x = x.reshape(len(x), d)
        C = np.atleast_2d(np.asarray(cov, float))
        sd = np.sqrt(np.diag(C))
        mu = np.zeros(d) if mean is None else np.broadcast_to(np.asarray(mean, float), (d,))
        big = df > 1e4
        for j in range(d):
            for a in (.02, .1, .3, .5, .75, .9, .98):
                if kind == "shifted" or big:
                    q = mu[j] + sd[j] * (st.norm.ppf(a) if big else st.t.ppf(a, df))
                    want = a
                else:
                    q = mu[j] + sd[j] * st.t.ppf(a, df)
                    want = float(st.nct.cdf(q / sd[j], df, mu[j] / sd[j])) if mu[j] else float(st.t.cdf(q / sd[j], df))
                got = (x[:, j] <= q).mean()
                t.expect(abs(got - want) <= tol, "margins", lambda: "%s column %d: P(X <= %g) = %g instead of %g" % (ctx, j, q, got, want))
        if kind == "shifted" or not mu.any():
            for i, j in itertools.combinations(range(d), 2):
                rho = C[i, j] / sd[i] / sd[j]
                for a, b in itertools.product((.1, .5, .9), repeat=2):
                    qa, qb = (st.norm.ppf([a, b]) if big else st.t.ppf([a, b], df))
                    want = t2(qa, qb, df if not big else 1e6, rho)
                    got = ((x[:, i] <= mu[i] + sd[i] * qa) & (x[:, j] <= mu[j] + sd[j] * qb)).mean()
                    t.expect(abs(got - want) <= tol, "joint distribution", lambda: "%s pair %d,%d at %r: %g instead of %g" % (ctx, i, j, (a, b), got, want))


# ---------------------------------------------------------------- stable
GX, GW = np.polynomial.legendre.leggauss(20)


def nodes(x, a, b):
    """quadrature of the characteristic function in the continuous (S0) parametrisation: nodes, weights, phase, modulus"""
    top = 45.0 ** (1 / a)
    sk = abs(b * math.tan(math.pi * a / 2)) if a != 1 else abs(b) * math.log(top)
    n = int(min(max(80, top * (abs(x) + min(sk, 60) + 1) / 2), 200000))
    e = np.linspace(0, 1, n + 1) ** 3 * top
    mid, h = (e[1:] + e[:-1]) / 2, (e[1:] - e[:-1]) / 2
    s = (mid[:, None] + h[:, None] * GX).ravel()
    w = (GW * h[:, None]).ravel()
    if a == 1:
        ph = -b * 2 / math.pi * s * np.log(s)
    elif a == 2:
        ph = 0 * s
    else:
        ph = -b * math.tan(math.pi * a / 2) * (s - s ** a)
    return s, w, ph, np.exp(-s ** a)


def s_pdf(x, a, b):
    s, w, ph, m = nodes(x, a, b)
    return float((m * np.cos(ph - s * x) * w).sum() / math.pi)


def s_cdf(x, a, b):
    s, w, ph, m = nodes(x, a, b)
    return float(.5 - (m * np.sin(ph - s * x) / s * w).sum() / math.pi)


@functools.lru_cache(None)
def s_mode(a, b):
    if b == 0 or a == 2:
        return 0.0
    lo, hi = sorted((0.0, -.7 * np.sign(b)))
    for _ in range(40):         # ternary search, the density is unimodal
        u, v = lo + (hi - lo) / 3, hi - (hi - lo) / 3
        if s_pdf(u, a, b) < s_pdf(v, a, b):
            lo = u
        else:
            hi = v
    return (lo + hi) / 2


ALPHAS = (.4, .5, .6, .75, .9, .99, 1, 1.01, 1.1, 1.3, 1.5, 1.75, 1.95, 2)
BETAS = (-1, -.7, -.1, 0, .01, .3, .9, .999, 1)
XS = (-40., -10., -3., -1.2, -.4, -.05, 0., .2, .7, 1.5, 4., 15., 60.)


def location(a, b, gamma, delta, pm):
    """(location, scale) of the S0 form"""
    if pm == 0:
        return delta, gamma
    if pm == 1:
        return delta + b * gamma * (math.tan(math.pi * a / 2) if a not in (1, 2) else 2 / math.pi * math.log(gamma) if a == 1 else 0.0), gamma
    g = gamma * a ** (-1 / a)
    return delta - g * s_mode(a, b), g


class Stable(Model):
    name = "skew stable density"
    chunk = 1

    def cases(self):
        al = ALPHAS if not self.thorough else ALPHAS + (.37, .45, .55, .65, .85, .95, .999, 1.001, 1.2, 1.4, 1.6, 1.85, 1.99, 1.999)
        be = BETAS if not self.thorough else BETAS + (-.999, -.9, -.3, -.01, .1, .5, .7)
        for a in al:
            for b in be:
                yield {"alpha": a, "beta": b}

    def check(self, case, t):
        from copulae.stats import skew_stable as ss
        a, b = case["alpha"], case["beta"]
        xs = np.array(XS + ((-100., -20., -5., -2., -.8, .05, .45, 1., 2.5, 8., 30., 150.) if self.thorough else ()))
        ctx = repr(case)
        with np.errstate(all="ignore"):
            got = np.asarray(ss.pdf(xs, a, b))
            want = np.array([max(s_pdf(x, a, b), 0) for x in xs])
            t.close(got, want, "density", 5e-4, 2e-6, ctx)
            t.expect(np.all(got >= 0), "density", lambda: "%s: negative %r" % (ctx, got))
            if a < 1 and abs(b) == 1:
                edge = -b * math.tan(math.pi * a / 2)
                out = xs < edge if b > 0 else xs > edge
                t.expect(np.all(got[out] == 0), "support", lambda: "%s: %r outside" % (ctx, got[out]))
            lg = np.asarray(ss.logpdf(xs, a, b))
            t.close(np.exp(lg), got, "log density", 1e-6, 1e-9, ctx)
            t.close(ss.pdf(xs, a, b, log=True), lg, "log density", 1e-12, 0, ctx)
            t.close(ss.pdf(xs.tolist(), a, b), got, "containers", 1e-12, 0, ctx)
            t.close(ss.pdf(xs[:12].reshape(3, 4), a, b), got[:12].reshape(3, 4), "containers", 1e-12, 0, ctx)
            for i in range(0, len(xs), 3):
                r = ss.pdf(float(xs[i]), a, b)
                t.expect(np.ndim(r) == 0 and abs(r - got[i]) <= 1e-12, "scalar", lambda: "%s at %r: %r, array %r" % (ctx, xs[i], r, got[i]))
            t.close(ss.pdf(-xs, a, -b), got, "reflection", 5e-4, 2e-6, ctx)
            for pm in (0, 1, 2) if b in (-.7, 0, .3, 1) or self.thorough else (1,):
                for gamma, delta in ((1.0, 0.0), (2.5, -1.0), (.2, 3.0)):
                    m, s = location(a, b, gamma, delta, pm)
                    y = m + s * xs[2:11]
                    tol = (5e-4, 2e-6) if pm < 2 else (2e-3, 2e-4)
                    t.close(np.asarray(ss.pdf(y, a, b, gamma, delta, pm)) * s, want[2:11], "parametrisation", tol[0], tol[1] * 2, "%s pm=%d scale %g location %g" % (ctx, pm, gamma, delta))
                    if (gamma, delta) == (2.5, -1.0):
                        l1 = np.asarray(ss.logpdf(y, a, b, gamma, delta, pm))
                        t.close(np.exp(l1) * s, want[2:11], "parametrisation", 2e-3 if pm == 2 else 5e-4, 4e-4 if pm == 2 else 4e-6, "log, %s pm=%d" % (ctx, pm))


class Closed(Model):
    """Members with a closed density, far into the tails, and power tails of the others."""
    name = "closed stable densities and tails"

    def cases(self):
        for k in ("normal", "cauchy", "levy", "levy reflected"):
            yield {"kind": k}
        for a in (.4, .75, 1, 1.2, 1.5, 1.8):
            for b in (-.5, 0, .5, 1) if a != 1 else (-.5, .5, 1):
                yield {"kind": "tail", "alpha": a, "beta": b}

    def check(self, case, t):
        from copulae.stats import skew_stable as ss
        k = case["kind"]
        with np.errstate(all="ignore"):
            if k == "normal":
                x = np.array([-30., -9., -2., 0., .5, 1., 6., 30.])
                for b in (-1, -.3, 0, .4, 1):
                    t.close(ss.pdf(x, 2, b), st.norm.pdf(x, 0, 2 ** .5), k, 1e-9, 1e-300, str(b))
                    t.close(ss.logpdf(x, 2, b), st.norm.logpdf(x, 0, 2 ** .5), k, 1e-9, 0, str(b))
                    t.close(ss.logpdf(x, 2.0, b, 3.0, 1.0, 1), st.norm.logpdf(x, 1, 3 * 2 ** .5), k, 1e-9, 0, str(b))
            elif k == "cauchy":
                x = np.array([-1e8, -1e3, -2., 0., .5, 1e5])
                for pm in (0, 1, 2):
                    t.close(ss.pdf(x, 1, 0, 2.0, .5, pm), st.cauchy.pdf(x, .5, 2.0), k, 1e-9, 0, str(pm))
                    t.close(ss.logpdf(x, 1.0, 0, 2.0, .5, pm), st.cauchy.logpdf(x, .5, 2.0), k, 1e-9, 0, str(pm))
            elif k.startswith("levy"):
                sg = 1 if k == "levy" else -1
                x = np.array([-5., -1.5, -.9, -.5, 0., 1., 10., 100., 1e4])
                t.close(ss.pdf(sg * x, .5, sg), st.levy.pdf(x, -1, 1), k, 2e-4, 2e-8, "S0")
                t.close(ss.pdf(sg * x, .5, sg, 1.0, 0.0, 1), st.levy.pdf(x, 0, 1), k, 2e-4, 2e-8, "S1")
                t.close(ss.pdf(sg * x, .5, sg, 3.0, sg * 1.0, 1), st.levy.pdf(x, 1, 3), k, 2e-4, 2e-8, "S1")
            else:
                a, b = case["alpha"], case["beta"]
                c = math.gamma(a) * math.sin(math.pi * a / 2) / math.pi
                prev = None
                for x in (1e3, 1e4, 1e5, 1e6):
                    for sg in (1, -1):
                        f = ss.pdf(sg * x, a, b)
                        w = a * (1 + sg * b) * c * x ** (-1 - a)
                        slack = 4 * x ** -min(a, 1) * (1 + abs(math.log(x)) * (a == 1)) + .01
                        t.expect(abs(f - w) <= slack * w + 2e-8, "power tail", lambda: "%r at %g: %g, tail %g" % (case, sg * x, f, w))
                    prev = f


class StableInvalid(Model):
    name = "invalid stable parameters"

    def cases(self):
        for k, v in (("alpha", 0), ("alpha", -1), ("alpha", 2.0001), ("alpha", 3), ("beta", 1.0001), ("beta", -1.5), ("gamma", -1.0), ("gamma", -1e-9), ("pm", 3), ("pm", -1)):
            yield {"which": k, "value": v}

    def check(self, case, t):
        from copulae.stats import skew_stable as ss
        kw = {"alpha": 1.5, "beta": .5, "gamma": 1.0, "pm": 0, case["which"]: case["value"]}
        for f in (lambda: ss.pdf([.1, .2], **kw), lambda: ss.logpdf(.5, **kw), lambda: ss.rvs(**kw, size=3)):
            t.raises((ValueError, AssertionError), f, "refused", repr(case))


class StableDraws(Model):
    name = "stable draws on a grid of random numbers"
    chunk = 1

    def cases(self):
        for a in (.4, .6, .75, .9, 1, 1.1, 1.4, 1.8, 2):
            for b in (-1, -.5, 0, .3, .8, 1):
                yield {"alpha": a, "beta": b}

    def check(self, case, t):
        a, b = case["alpha"], case["beta"]
        zs = (-20., -5., -2., -1., -.4, 0., .3, .9, 2., 6., 25.) if a >= .6 else (-5., -2., -1., -.4, 0., .3, .9, 2., 6.)
        want = {z: s_cdf(z, a, b) for z in zs}
        for pm, gamma, delta in ((0, 1.0, 0.0), (1, 1.0, 0.0), (1, 2.5, -1.0), (0, .3, 2.0), (2, 1.5, 1.0)):
            self.one(t, a, b, pm, gamma, delta, want)

    def one(self, t, a, b, pm, gamma, delta, cdf):
        from copulae.stats import skew_stable as ss
        ctx = "alpha %g beta %g pm %d scale %g location %g" % (a, b, pm, gamma, delta)

        def draw(n):
            return ss.rvs(a, b, gamma, delta, pm, n)
        n = (300 if not self.thorough else 900) ** 2
        x = feed(draw, n)
        t.outcome = "grid" if x is not None else "generator"
        tol = .004 if x is not None else .009
        if x is None:
            np.random.seed(3)
            x = np.asarray(draw(200000))
        t.expect(x.shape == (len(x),) and np.all(np.isfinite(x)), "shape", lambda: "%s: %s" % (ctx, x.shape))
        m, s = location(a, b, gamma, delta, pm)
        for z, want in cdf.items():
            got = (x <= m + s * z).mean()
            t.expect(abs(got - want) <= tol, "draws follow the distribution", lambda: "%s: P(X <= %g) = %g instead of %g" % (ctx, m + s * z, got, want))
        for size in (1, 5, (2, 3)):
            np.random.seed(8)
            u = np.asarray(ss.rvs(a, b, gamma, delta, pm, size))
            np.random.seed(8)
            t.close(ss.rvs(alpha=a, beta=b, gamma=gamma, delta=delta, pm=pm, size=size), u, "same seed, same draws", 0, 0, ctx)
            t.expect(u.shape == (size if isinstance(size, tuple) else (size,)) and np.all(np.isfinite(u)), "shape", lambda: "%s %r: %s" % (ctx, size, u.shape))
            np.random.seed(9)
            t.expect(not np.array_equal(ss.rvs(a, b, gamma, delta, pm, size), u), "different seeds, different draws", ctx)
        # location and scale act on the same standard variate
        np.random.seed(8)
        base = np.asarray(ss.rvs(a, b, 1.0, 0.0, 0, 5))
        np.random.seed(8)
        t.close(ss.rvs(a, b, gamma, delta, pm, 5), m + s * base, "location and scale", 1e-6, 1e-4 if pm == 2 else 1e-8, ctx)


class Sizes(Model):
    """Numbers of points and of draws on both sides of every length that might be treated specially, and more variables."""
    name = "sizes"
    chunk = 1

    def cases(self):
        for d in (1, 2, 3, 4):
            for df in (1, 2.5, 30.0, 20000, "inf"):
                yield {"d": d, "df": df}
        for d in (5, 6, 8, 10, 15, 20, 33, 50, 64, 65, 100):
            for df in (3, 12.5, "inf"):
                yield {"d": d, "df": df, "wide": 1}
        for a, b in ((.6, .5), (1, 0), (1, .4), (1.5, -.3), (2, 0)):
            yield {"alpha": a, "beta": b}

    def check(self, case, t):
        from copulae.stats import multivariate_t as mvt, skew_stable as ss
        if "alpha" in case:
            a, b = case["alpha"], case["beta"]
            sizes.elementwise(t, lambda x: np.asarray(ss.pdf(x, a, b)), [-3., -.4, 0.1, 1.3, 9.], "stable density", 129, 1e-7, 1e-9, forms=False)
            for n in sizes.upto(100001, True):
                r = np.asarray(ss.rvs(a, b, size=n))
                t.expect(r.shape == (n,) and np.isfinite(r).all() and len(np.unique(r)) > .95 * n, "stable draws", lambda: "%r size %d: %s" % (case, n, r.shape))
            return
        d, df = case["d"], math.inf if case["df"] == "inf" else case["df"]
        i = np.arange(d)
        cov = np.exp(-np.abs(i[:, None] - i) / 2.) * np.sqrt(np.outer(1 + i % 3, 1 + i % 3))
        mu = (i % 4) - 1.5
        pts = np.array([[((k * 7 + j * 5) % 13 - 6) / 3 for j in range(d)] for k in range(7)])
        want, _ = mvt_log(pts, mu, cov, df)
        big = isinstance(case["df"], int) and case["df"] > 10000
        t.close(mvt.logpdf(pts, mu, cov, df), want, "log density", .02 if big else 1e-9, .02 if big else 1e-9, repr(case))
        single = np.concatenate([np.ravel(mvt.logpdf(p if d > 1 else float(p[0]), mu, cov, df)) for p in pts])
        for n in (1, 2, 10, 33, 101) if case.get("wide") else sizes.upto(20001, True):
            k = (np.arange(n) * 5 + np.arange(n) // 11) % len(pts)
            t.close(np.ravel(mvt.logpdf(pts[k], mu, cov, df)), single[k], "row-wise", 1e-11, 1e-11, "%r: %d points" % (case, n))
            t.close(np.ravel(mvt.pdf(pts[k], mu, cov, df)), np.exp(single[k]), "row-wise", 1e-9, 1e-300, "%r: %d points" % (case, n))
            for kind in ("shifted", "kshirsagar"):
                r = np.asarray(mvt.rvs(mu, cov, df if math.isfinite(df) else 1e6, n, kind, random_state=n)).reshape(-1, d)
                t.expect(r.shape == (n, d) and np.isfinite(r).all() and len(np.unique(r[:, 0])) == n, "draws", lambda: "%r size %d %s: %s" % (case, n, kind, r.shape))


MODELS = [Sizes, Density, Invalid, Draws, Stable, Closed, StableInvalid, StableDraws]
RULE = ("every degree of freedom x shape matrix x location x lattice of points of the multivariate t density (both variants, containers, row orders, permutations) "
        "against the definition; every stable index x skew x parametrisation x point against the inverted characteristic function; all draws of an "
        "equidistributed grid of the underlying random numbers against the distribution functions; all listed invalid parameters")
ASSUMPTIONS = ["stable densities to 5e-4 relative, 2e-6 absolute (the accuracy its quadrature aims at)",
               "above 10000 degrees of freedom the density may be the normal one, as documented",
               "stable indices from 0.37; smaller ones only through their tails"]
