"""Random draws: reproducibility over every prior history, shape and range over all classes, parameters and sizes, and -
with the underlying random numbers replaced by an equidistributed grid - the distribution of the draws."""
import itertools

import numpy as np
import scipy.stats as st

from .. import cops, env, sizes, sweep
from ..core import Model, isolated

TRI = {"prob": [.2, .5, .3], "means": [[-2., 1.], [0., 0.], [3., -1.]], "covs": [[[1., .5], [.5, 2.]], [[.5, -.2], [-.2, .7]], [[1., 0.], [0., 1.]]]}
MARG = [{"type": "norm", "parameters": {"loc": 1, "scale": 2}}, {"type": "expon", "parameters": {"scale": 3}}, {"type": "beta", "parameters": {"a": 2, "b": 3}}]


def specs(thorough=False):
    out = []
    for p in (-1.0, -.99, -.5, -1e-3, 0.0, 1e-9, 1e-3, .5, 2.0, 10.0, 50.0, 300.0):
        out.append({"f": "clayton", "d": 2, "p": p})
    for p in (-800.0, -100.0, -10.0, -1.0, -1e-6, 0.0, 1e-9, .1, 1.0, 5.0, 30.0, 100.0, 800.0):
        out.append({"f": "frank", "d": 2, "p": p})
    for p in (1.0, 1 + 1e-8, 1 + 1e-6, 1.001, 1.5, 2.0, 3.0, 10.0, 20.0, 50.0):
        out.append({"f": "gumbel", "d": 2, "p": p})
    for d in (3, 4) + ((5,) if thorough else ()):
        for p in (0.0, 1e-9, .1, .5, 2.0, 10.0, 40.0):
            out.append({"f": "clayton", "d": d, "p": p})
        for p in (0.0, 1e-9, .1, 1.0, 2.9, 3.1, 5.0, 20.0, 100.0, 800.0):
            out.append({"f": "frank", "d": d, "p": p})
        for p in (1.0, 1 + 1e-8, 1.001, 1.5, 3.0, 10.0, 40.0):
            out.append({"f": "gumbel", "d": d, "p": p})
    for d, rr in ((2, [[-1.0], [-.9], [-.3], [0.0], [.5], [.95], [1.0]]), (3, [[0, 0, 0], [.9, .5, .3], [-.4, .3, .2], [.9, .8, .7]]),
                  (4, [[.8, .6, .4, .7, .5, .6], [.1, -.2, .3, .15, -.25, .35]])):
        for r in rr:
            if abs(r[0]) < 1:
                out.append({"f": "gaussian", "d": d, "p": r})
            for df in (1.0, 2.5, 8.0, 2e4):
                if abs(r[0]) < 1:
                    out.append({"f": "student", "d": d, "p": [df] + list(r)})
        out.append({"f": "indep", "d": d})
    return out


def others():
    out = [{"f": "gmc", **TRI}, {"f": "gmc", "prob": [1.0], "means": [[0., 1.]], "covs": [[[1., .3], [.3, 1.]]]},
           {"f": "gmc", "prob": [.9, .1], "means": [[0., 1., 2.], [-1., 0., 3.]], "covs": [np.diag([1., 2., 3.]).tolist(), (np.eye(3) * .5 + .5).tolist()]}]
    for inner in ({"f": "clayton", "d": 2, "p": 2.0}, {"f": "gaussian", "d": 2, "p": [.5]}, {"f": "frank", "d": 3, "p": 4.0}, {"f": "student", "d": 3, "p": [4.0, .3, .2, .5]}):
        out.append({"f": "marginal", "inner": inner, "margins": MARG[:inner["d"]]})
    data = [[2 / 6, 4 / 6, 2 / 6], [1 / 6, 5 / 6, 3 / 6], [4 / 6, 2 / 6, 1 / 6], [3 / 6, 3 / 6, 5 / 6], [5 / 6, 1 / 6, 4 / 6]]
    for sm in (None, "beta", "checkerboard"):
        out.append({"f": "empirical", "data": data, "smoothing": sm})
    out.append({"f": "empirical", "data": [[.25, .25], [.25, .75], [.75, .25]], "smoothing": None})
    return out


def dim(spec):
    f = spec["f"]
    return len(spec["means"][0]) if f == "gmc" else spec["inner"]["d"] if f == "marginal" else len(spec["data"][0]) if f == "empirical" else spec["d"]


def continuous(spec):
    return spec["f"] != "empirical"


class Draws(Model):
    name = "shape, range, seeds"
    chunk = 1

    def cases(self):
        for s in specs(self.thorough) + others():
            yield s

    def check(self, case, t):
        c = cops.make(case)
        d = dim(case)
        lo, hi = (np.array([-np.inf, 0, 0])[:d], np.array([np.inf, np.inf, 1])[:d]) if case["f"] == "marginal" else (np.zeros(d), np.ones(d))
        first = {}
        for seed in (0, 1, 42, 2 ** 32 - 1, np.int64(7)):
            for n in (1, 2, 3, 50):
                x = c.random(n, seed)
                a = np.asarray(x)
                ctx = "%r random(%d, %r)" % (case, n, seed)
                t.expect(a.shape == (n, d) and a.dtype == float, "shape", lambda: "%s: %s %s" % (ctx, a.shape, a.dtype))
                t.expect(np.all((a >= lo) & (a <= hi)), "range", lambda: "%s: %r" % (ctx, a[~((a >= lo) & (a <= hi)).all(1)][:2]))
                b = np.asarray(c.random(n, seed=seed))
                t.expect(np.array_equal(a, b), "same seed, same draws", ctx)
                b = np.asarray(cops.make(case).random(n=n, seed=seed))
                t.expect(np.array_equal(a, b), "same seed, same draws", ctx + " on a fresh copula")
                first[(int(seed), n)] = a
        for n in (3, 50) if continuous(case) else (50,):
            v = [q.tobytes() for (s, k), q in first.items() if k == n]
            t.expect(len(set(v)) == len(v), "different seeds, different draws", lambda: "%r n=%d" % (case, n))
        if continuous(case):
            np.random.seed(5)
            v = [np.asarray(c.random(4)).tobytes() for _ in range(4)]
            t.expect(len(set(v)) == 4, "unseeded draws differ", repr(case))
            a = np.asarray(c.random(400, 3))
            for j in range(d):
                t.expect(len(set(a[:, j])) > 350, "draws are not repeated", lambda: "%r column %d has %d different values in 400" % (case, j, len(set(a[:, j]))))


HIST = {"none": lambda c: None, "global seed": lambda c: np.random.seed(9), "numpy draws": lambda c: np.random.uniform(size=17),
        "normal": lambda c: np.random.normal(size=3), "own draws": lambda c: c.random(5), "own seeded": lambda c: c.random(6, 2),
        "student seeded": lambda c: cops.make({"f": "student", "d": 2, "p": [3.0, .5]}).random(3, 4),
        "scipy draws": lambda c: st.multivariate_normal.rvs([0, 0], np.eye(2), 3), "scipy seeded": lambda c: st.multivariate_normal.rvs([0, 0], np.eye(2), 3, random_state=1)}


class Histories(Model):
    """Every history of up to two (three) operations on the generators before a seeded draw."""
    name = "histories before a seeded draw"
    chunk = 1

    def cases(self):
        for s in ([{"f": "clayton", "d": 2, "p": 2.0}, {"f": "clayton", "d": 3, "p": 2.0}, {"f": "clayton", "d": 2, "p": 0.0}, {"f": "frank", "d": 2, "p": 3.0},
                   {"f": "frank", "d": 3, "p": 5.0}, {"f": "frank", "d": 3, "p": 2.0}, {"f": "gumbel", "d": 2, "p": 1.0}, {"f": "gumbel", "d": 2, "p": 3.0},
                   {"f": "gumbel", "d": 3, "p": 1.5}, {"f": "gaussian", "d": 2, "p": [.5]}, {"f": "gaussian", "d": 3, "p": [.9, .5, .3]},
                   {"f": "student", "d": 2, "p": [4.0, .5]}, {"f": "student", "d": 2, "p": [2e4, .5]}, {"f": "student", "d": 3, "p": [4.0, .3, .2, .5]}, {"f": "indep", "d": 3}]
                  + others()):
            for seed in (0, 8):
                yield {"spec": s, "seed": seed}

    def check(self, case, t):
        spec, seed = case["spec"], case["seed"]
        want = isolated(lambda: np.asarray(cops.make(spec).random(7, seed)).tolist())
        for depth in range(0, 4 if self.thorough else 3):
            for h in itertools.product(HIST, repeat=depth):
                c = cops.make(spec)
                for op in h:
                    HIST[op](c)
                got = np.asarray(c.random(7, seed)).tolist()
                if not t.expect(got == want, "seeded draws depend on the history", lambda: "%r after %r" % (case, h)):
                    return


# ---------------------------------------------------------------- distribution
class Source:
    """Answers every request for n random vectors with one coordinate block of an equidistributed grid."""

    def __init__(self, n, cols=None):
        self.n, self.cols, self.used, self.bad = n, cols, 0, 0
        self.grid = None if cols is None else points(n, cols)

    def u(self, size):
        """uniform variates of the given size"""
        size = () if size is None else (int(size),) if np.ndim(size) == 0 else tuple(int(s) for s in size)
        if not size or size[0] != self.n or len(size) > 2:
            if len(size) in (1, 2):         # a random share of the rows (mixture components)
                k = size[1] if len(size) == 2 else 1
                self.bad += 1
                return points(size[0], k, shift=.37 * self.bad).reshape(size) if size[0] else np.empty(size)
            raise NotImplementedError(size)
        k = size[1] if len(size) == 2 else 1
        i = self.used
        self.used += k
        if self.grid is None:
            return points(self.n, k, shift=.1 * i + .05).reshape(size)
        return self.grid[:, i:i + k].reshape(size)

    def handlers(self):
        s = self
        h = {}
        h["np_random_uniform"] = lambda o, low=0.0, high=1.0, size=None: low + (high - low) * s.u(size)
        for nm in ("random", "random_sample"):
            h["np_random_" + nm] = lambda o, size=None: s.u(size)
        h["np_random_rand"] = lambda o, *sh: s.u(sh)
        h["np_random_standard_normal"] = lambda o, size=None: st.norm.ppf(s.u(size))
        h["np_random_randn"] = lambda o, *sh: st.norm.ppf(s.u(sh))
        h["np_random_normal"] = lambda o, loc=0.0, scale=1.0, size=None: loc + scale * st.norm.ppf(s.u(size))
        h["np_random_standard_gamma"] = lambda o, shape, size=None: st.gamma.ppf(s.u(size), shape)
        h["np_random_gamma"] = lambda o, shape, scale=1.0, size=None: scale * st.gamma.ppf(s.u(size), shape)
        h["np_random_standard_exponential"] = lambda o, size=None: -np.log(s.u(size))
        h["np_random_exponential"] = lambda o, scale=1.0, size=None: -scale * np.log(s.u(size))
        h["np_random_chisquare"] = lambda o, df, size=None: st.chi2.ppf(s.u(size), df)
        h["np_random_choice"] = lambda o, a, size=None, replace=True, p=None: s.choice(a, size, p)
        h["np_random_multivariate_normal"] = lambda o, *a, **k: s.mvn(*a, **k)
        return h

    def choice(self, a, size, p):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(list(a))
        p = np.full(len(a), 1 / len(a)) if p is None else np.asarray(p)
        return a[np.minimum(np.searchsorted(np.cumsum(p), self.u(size)), len(a) - 1)]

    def mvn(self, mean, cov, size=None, *a, **k):
        size = () if size is None else (int(size),) if np.ndim(size) == 0 else tuple(int(x) for x in size)
        d = len(mean)
        z = st.norm.ppf(self.u(size + (d,)) if len(size) == 1 else self.u((1, d)))
        w, v = np.linalg.eigh(np.asarray(cov, float))
        return np.asarray(mean) + z @ (v * np.sqrt(np.maximum(w, 0))).T

    def scipy(self):
        s = self

        class RS(np.random.RandomState):
            def multivariate_normal(self, *a, **k):
                return s.mvn(*a, **k)

            def standard_normal(self, size=None):
                return st.norm.ppf(s.u(size))
        return RS(0)


def points(n, k, shift=0.0):
    """n points of an additive (generalised golden ratio) grid in k dimensions; the full square grid when k = 2 and n is a square."""
    m = int(round(n ** .5))
    if k == 2 and m * m == n and n > 100:
        g = (np.arange(m) + .5) / m
        return np.array(np.meshgrid(g, g)).reshape(2, -1).T
    if k == 1:
        return (((np.arange(n) + .5) / n + shift) % 1.0).clip(1e-12, 1 - 1e-12)[:, None]
    phi = 2.0
    for _ in range(60):
        phi = (1 + phi) ** (1 / (k + 1))
    a = (1 / phi) ** np.arange(1, k + 1)
    return ((.5 + shift + np.outer(np.arange(1, n + 1), a)) % 1.0).clip(1e-12, 1 - 1e-12)


def feed(draw, n):
    """draw(n) with its random numbers from the grid; None when they come from elsewhere."""
    rv = st.multivariate_normal

    def run(src, seed):
        old = rv.__dict__.get("_random_state")
        np.random.seed(seed)
        try:
            rv._random_state = src.scipy()
            with env.handle(**src.handlers()):
                return np.asarray(draw(n))
        finally:
            if old is not None:
                rv._random_state = old
    try:
        s = Source(n)
        run(s, 1)
        if not s.used:
            return None
        cols = s.used
        a = run(Source(n, cols), 1)
        b = run(Source(n, cols), 2)
    except NotImplementedError:
        return None
    return a if np.allclose(a, b, 1e-9, 1e-12, equal_nan=True) else None


LEV = (.02, .1, .3, .5, .7, .9, .98)


def t_cdf2(a, b, df, r):
    """bivariate t cdf as a mixture of normals over a fine grid of the mixing variable"""
    q = (np.arange(400) + .5) / 400
    s = np.sqrt(st.chi2.ppf(q, df) / df)
    return float(np.mean([cops.bvn(a * k, b * k, r) for k in s]))


def pair_cdf(spec, i, j, u, v):
    """Copula cdf of the pair (i, j)."""
    f = spec["f"]
    if f == "gmc":
        from scipy.optimize import brentq
        p, m, c = (np.array(spec[k]) for k in ("prob", "means", "covs"))

        def q(k, lev):
            return brentq(lambda x: float(p @ st.norm.cdf(x, m[:, k], np.sqrt(c[:, k, k]))) - lev, -60, 60)
        a, b = q(i, u), q(j, v)
        return sum(w * cops.bvn((a - mm[i]) / cc[i, i] ** .5, (b - mm[j]) / cc[j, j] ** .5, cc[i, j] / (cc[i, i] * cc[j, j]) ** .5) for w, mm, cc in zip(p, m, c))
    R = cops.corr(spec["d"], spec["p"] if f == "gaussian" else spec["p"][1:])
    r = R[i, j]
    if f == "gaussian":
        return float(cops.bvn(st.norm.ppf(u), st.norm.ppf(v), r))
    df = spec["p"][0]
    if df > 1000:
        return float(cops.bvn(st.norm.ppf(u), st.norm.ppf(v), r))
    return t_cdf2(st.t.ppf(u, df), st.t.ppf(v, df), df, r)


class Distribution(Model):
    """The draws produced by an equidistributed grid of underlying random numbers have the copula's cdf."""
    name = "distribution on a grid of random numbers"
    chunk = 1

    def cases(self):
        for s in specs(self.thorough):
            yield s
        for s in others():
            if s["f"] == "gmc":
                yield s

    def check(self, case, t):
        d = dim(case)
        c = cops.make(case)
        n = (300 ** 2 if d == 2 else 2 ** 16) * (4 if self.thorough else 1)
        x = feed(c.random, n)
        controlled = x is not None
        tol = .004 if controlled else .009
        if not controlled:
            x = np.asarray(c.random(200000, 3))
        t.outcome = "grid" if controlled else "generator"
        t.expect(x.shape[1] == d and np.all((x >= 0) & (x <= 1)), "range", lambda: "%r: %r" % (case, x[~((x >= 0) & (x <= 1)).all(1)][:2]))
        tol_m = tol + (3e-4 if case["f"] == "gmc" else 0)
        for j in range(d):
            for a in LEV:
                got = (x[:, j] <= a).mean()
                t.expect(abs(got - a) <= tol_m, "margins are uniform", lambda: "%r column %d: P(U <= %g) = %g" % (case, j, a, got))
        if case["f"] in ("gaussian", "student", "gmc"):
            lev = LEV[1:-1:2] if d > 2 or case["f"] == "gmc" else LEV[1:-1]
            for i, j in itertools.combinations(range(d), 2):
                for a, b in itertools.product(lev, repeat=2):
                    want = pair_cdf(case, i, j, a, b)
                    got = ((x[:, i] <= a) & (x[:, j] <= b)).mean()
                    t.expect(abs(got - want) <= tol_m, "draws follow the copula", lambda: "%r pair %r: P(U <= %r) = %g, cdf %g" % (case, (i, j), (a, b), got, want))
            if d == 3 and case["f"] != "gmc":
                R = cops.corr(3, case["p"] if case["f"] == "gaussian" else case["p"][1:])
                want = .125 + np.arcsin(R[np.triu_indices(3, 1)]).sum() / (4 * np.pi)
                got = (x <= .5).all(1).mean()
                t.expect(abs(got - want) <= tol, "draws follow the copula", lambda: "%r: P(all <= 1/2) = %g instead of %g" % (case, got, want))
            return
        axis = LEV if d == 2 else (.1, .5, .9) if d == 3 else (.3, .8)
        for p in itertools.product(axis, repeat=d):
            want = float(cops.dec_cdf(case, p)) if case["f"] != "indep" else float(np.prod(p))
            got = (x <= np.array(p)).all(1).mean()
            t.expect(abs(got - want) <= tol, "draws follow the copula", lambda: "%r: P(U <= %r) = %g, cdf %g" % (case, p, got, want))
        # upper orthants too: the joint upper tail is invisible to the cdf near 1
        for a in (.5, .9, .98):
            got = (x > a).all(1).mean()
            want = 1 + sum((-1) ** k * len(list(itertools.combinations(range(d), k))) * (float(cops.dec_cdf({**case, "d": d}, [a] * k + [1.0] * (d - k))) if case["f"] != "indep" else a ** k)
                           for k in range(1, d + 1))
            t.expect(abs(got - want) <= 2 * tol, "draws follow the copula", lambda: "%r: P(U > %g) = %g, survival %g" % (case, a, got, want))


class ParameterSweep(Model):
    """The same, coarser, on both sides of every magnitude of the parameter at which a sampler might switch branches."""
    name = "distribution, parameter sweep"
    chunk = 2

    def cases(self):
        for d in (2, 3):
            for f in ("clayton", "frank", "gumbel"):
                for p in sweep.parameters(f, d, self.thorough):
                    if .004 < abs(p - (f == "gumbel")) < 400 and p != -1:
                        yield {"f": f, "d": d, "p": p}
        for p in sweep.parameters("rho", 2, self.thorough):
            if abs(p) > .01:
                yield {"f": "gaussian", "d": 2, "p": [p]}
        for p in sweep.parameters("df", 2, self.thorough):
            if p > .3:
                yield {"f": "student", "d": 2, "p": [p, .6]}

    def check(self, case, t):
        d = case["d"]
        x = feed(cops.make(case).random, 200 ** 2 if d == 2 else 2 ** 15)
        controlled = x is not None
        if not controlled:
            x = np.asarray(cops.make(case).random(60000, 3))
        t.outcome = "grid" if controlled else "generator"
        tol = (.008 if d == 2 else .012) if controlled else .015
        t.expect(x.shape[1] == d and np.all((x >= 0) & (x <= 1)), "range", lambda: "%r: %r" % (case, x[~((x >= 0) & (x <= 1)).all(1)][:2]))
        lev = (.1, .5, .9)
        for j in range(d):
            for a in lev:
                t.expect(abs((x[:, j] <= a).mean() - a) <= tol, "margins are uniform", lambda: "%r column %d: P(U <= %g) = %g" % (case, j, a, (x[:, j] <= a).mean()))
        for p in itertools.product(lev, repeat=2) if d == 2 else [(a,) * 3 for a in lev] + [(.1, .5, .9), (.9, .5, .2), (.5, .9, .4)]:
            want = pair_cdf(case, 0, 1, *p) if case["f"] in ("gaussian", "student") else float(cops.dec_cdf(case, p))
            got = (x <= np.array(p)).all(1).mean()
            t.expect(abs(got - want) <= tol, "draws follow the copula", lambda: "%r: P(U <= %r) = %g, cdf %g" % (case, p, got, want))


class Weak(Model):
    """Weak dependence, far below the resolution of box probabilities: fed with the same grid, the draws at a parameter and
    those at independence differ in Spearman's rho by the rho of the copula."""
    name = "weak dependence"
    chunk = 1

    def cases(self):
        for f, ps in (("clayton", (-.05, -1e-2, -1e-3, -1e-4, 1e-4, 1e-3, 1e-2, .05, .2)), ("frank", (-.5, -1e-2, -1e-4, 1e-4, 1e-2, .1, .5)),
                      ("gumbel", (1.001, 1.005, 1.01, 1.02, 1.1)), ("gaussian", ([-.05], [-1e-2], [-1e-4], [1e-4], [1e-2], [.05]))):
            for p in ps:
                yield {"f": f, "d": 2, "p": p}
        for m in sweep.magnitudes(-4, -1, sweep.STEPS if self.thorough else (1.0, 2.0, 4.6)):
            for f in ("clayton", "frank", "gumbel"):
                if f != "gumbel" or m > 9e-4:       # a grid cannot resolve its sampler any closer to independence
                    yield {"f": f, "d": 2, "p": m + (f == "gumbel")}
            yield {"f": "clayton", "d": 2, "p": -m}
            yield {"f": "frank", "d": 2, "p": -m}
            yield {"f": "gaussian", "d": 2, "p": [m]}
        for f, ps in (("clayton", (.05, .1, .2)), ("frank", (.5, .8)), ("gumbel", (1.1, 1.2))):    # beyond two dimensions the grid is coarser
            for p in ps:
                yield {"f": f, "d": 3, "p": p}

    def check(self, case, t):
        d, f = case["d"], case["f"]
        base = {"clayton": 0.0, "frank": 0.0, "gumbel": 1.0, "gaussian": [0.0] * (d * (d - 1) // 2)}[f]
        n = 300 ** 2 if d == 2 else 2 ** 16
        x, y = feed(cops.make(case).random, n), feed(cops.make({**case, "p": base}).random, n)
        t.outcome = "generator" if x is None or y is None else "grid"
        if t.outcome == "generator":
            return

        def rho(z, i, j):
            a, b = z[:, i] - z[:, i].mean(), z[:, j] - z[:, j].mean()
            return float(np.mean(a * b) / np.sqrt(np.mean(a * a) * np.mean(b * b)))
        if f == "gaussian":
            want = 6 / np.pi * np.arcsin(case["p"][0] / 2)
        else:
            g, w = np.polynomial.legendre.leggauss(24)
            g, w = (g + 1) / 2, w / 2
            want = 12 * sum(w[i] * w[j] * (float(cops.dec_cdf({**case, "d": 2}, [g[i], g[j]])) - g[i] * g[j]) for i in range(24) for j in range(24))
        for i, j in itertools.combinations(range(d), 2):
            got = rho(x, i, j) - rho(y, i, j)
            t.expect(abs(got - want) <= (.2 if d == 2 else .4) * abs(want), "draws follow the copula", lambda: "%r pair %r: rho of the draws %g, of the copula %g" % (case, (i, j), got, want))


class Components(Model):
    """Draws of composed copulas in terms of their parts."""
    name = "empirical and composed copulas"
    chunk = 4

    def cases(self):
        for s in others():
            if s["f"] != "gmc":
                yield s
        for n in (1, 2, 3, 4):
            for perm in itertools.permutations(range(n)):
                yield {"f": "empirical", "data": [[i, perm[i]] for i in range(n)], "smoothing": None}

    def check(self, case, t):
        c = cops.make(case)
        if case["f"] == "marginal":
            dist = [getattr(st, m["type"])(**m["parameters"]) for m in case["margins"]]
            for n in (1, 2, 30):
                for seed in (0, 3):
                    u = np.asarray(cops.make(case["inner"]).random(n, seed))
                    t.close(c.random(n, seed), np.column_stack([q.ppf(u[:, j]) for j, q in enumerate(dist)]), "quantiles of the inner draws", 1e-9, 1e-12, ctx=repr(case))
            return
        x = np.asarray(case["data"], float)
        n, d = x.shape
        rows = {tuple(r) for r in np.asarray(c.data, float).tolist()}
        # all indices once
        asked = []

        def randint(orig, low, high=None, size=None, dtype=int):
            lo, hi = (0, low) if high is None else (low, high)
            k = 1 if size is None else int(np.prod(size))
            asked.append((lo, hi))
            v = np.arange(k) % (hi - lo) + lo
            return v.reshape(size) if size is not None else int(v[0])
        with env.handle(np_random_randint=randint):
            a = np.asarray(c.random(n))
        if asked:
            t.expect(sorted(map(tuple, a.tolist())) == sorted(map(tuple, np.asarray(c.data, float).tolist())), "every row drawn equally often", lambda: "%r: %r" % (case, a.tolist()))
        a = [tuple(r) for r in np.asarray(c.random(60 * n, 5)).tolist()]
        t.expect(set(a) == rows, "draws are rows of the data", lambda: repr(case))
        for r in rows:
            k = sum(tuple(q) == r for q in np.asarray(c.data, float).tolist())
            t.expect(abs(a.count(r) - 60 * k) < 6 * (60 * k) ** .5 + 1, "every row drawn equally often", lambda: "%r: %r %d times of %d" % (case, r, a.count(r), len(a)))


class Sizes(Model):
    """Numbers of draws on both sides of every length that might be treated specially: no shape, seed or dependence changes with it."""
    name = "sizes"
    chunk = 1

    def cases(self):
        for s in specs(self.thorough) + others():
            yield s
        for d in (5, 8, 12):
            yield {"f": "clayton", "d": d, "p": 1.5}
            yield {"f": "frank", "d": d, "p": 3.0}
            yield {"f": "gumbel", "d": d, "p": 1.7}
            yield {"f": "indep", "d": d}
            yield {"f": "gaussian", "d": d, "p": [((i * 7) % 5 + 1) / 20 for i in range(d * (d - 1) // 2)]}
            yield {"f": "student", "d": d, "p": [5.0] + [((i * 7) % 5 + 1) / 20 for i in range(d * (d - 1) // 2)]}

    def check(self, case, t):
        c, d = cops.make(case), dim(case)
        pool = np.concatenate([np.asarray(c.random(100, 1000 + k)) for k in range(60)])
        med = np.median(pool, 0)
        pairs = [(i, j) for i in range(d) for j in range(i)][:6]

        def quad(a, n):
            return np.array([np.mean((a[:, i] <= med[i]) & (a[:, j] <= med[j])) for i, j in pairs] + [np.mean(a[:, i] <= med[i]) for i in range(d)])
        ref_q = quad(pool, len(pool))
        for n in sizes.upto(10 ** 5 if self.thorough else 20001, True):
            a = np.asarray(c.random(n, 11 + n % 7))
            ctx = "%r random(%d)" % (case, n)
            if not t.expect(a.shape == (n, d) and np.isfinite(a).all(), "shape", lambda: "%s: %s" % (ctx, a.shape)):
                continue
            if case["f"] not in ("marginal",):
                t.expect(a.min() >= 0 and a.max() <= 1, "range", ctx)
            if n in (17, 101, 257, 1001, 2001, 10001):
                t.expect(np.array_equal(a, np.asarray(cops.make(case).random(n, 11 + n % 7))), "same seed, same draws", ctx)
            if n >= 100:
                parts = [a] if n < 400 else [a, a[:n // 2], a[n // 2:], a[-200:]]
                for b in parts:
                    q = quad(b, len(b))
                    tol = 6 * .5 * (1 / len(b) + 1 / len(pool)) ** .5
                    t.expect(np.all(np.abs(q - ref_q) < tol), "the same dependence for every number of draws", lambda: "%s: %r instead of %r" % (ctx, q, ref_q))
                if continuous(case) and case["f"] != "gmc":
                    for j in range(d):
                        k = len(np.unique(a[:, j]))
                        t.expect(k > .85 * n, "draws are not repeated", lambda: "%s column %d: %d different values" % (ctx, j, k))


MODELS = [Sizes, ParameterSweep, Draws, Histories, Distribution, Weak, Components]
RULE = ("states: copulas (class x parameter x dimension), copulas x seeds; transitions: draws for every size and seed, every history of generator "
        "operations before a seeded draw, and probabilities of boxes compared with the cdf over all points of an equidistributed grid of random numbers")
ASSUMPTIONS = ["random numbers are taken from NumPy's global functions or SciPy's multivariate_normal; draws from another source are judged by frequency over 200000 draws (and weak dependence is not judged)",
               "box probabilities within 0.004 (discretisation of the grid)",
               "Clayton theta <= 40 beyond two dimensions, Gumbel theta <= 50 (frailties under- and overflow beyond)",
               "smoothed empirical copulas draw observations (documented bootstrap); only the unsmoothed one is compared with its cdf"]
