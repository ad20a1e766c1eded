"""Everything computed from pseudo-observations depends on the data through its ranks only, and not on the order of rows."""
import ctypes
import itertools

import numpy as np

from ..core import Model
from .c09 import plain

# strictly increasing sequences of representable values; the first is the reference
SCALES = {
    "ranks": [1., 2., 3., 4., 5., 6.],
    "unit": [.07, .15, .31, .5, .83, .99],
    "unit ends": [0., .2, .4, .6, .8, 1.],
    "pobs-like": [1 / 7, 2 / 7, 3 / 7, 4 / 7, 5 / 7, 6 / 7],
    "negative": [-9., -5., -4.5, -3., -2., -1.],
    "huge": [-1e300, -1e200, -1., 1e-200, 1e200, 1e300],
    "tiny": [1e-300, 2e-300, 3e-300, 4e-300, 5e-300, 6e-300],
    "close": [1., 1 + 2. ** -52, 1 + 2. ** -51, 1 + 2. ** -50, 1 + 2. ** -49, 1 + 2. ** -48],
    "shifted": [1e9 + k for k in range(6)],
    "exp": list(np.exp(np.arange(6.) * 5)),
    "int": [-3, 1, 2, 40, 41, 10 ** 15],
    "bool-like": [-1., 0., 1., 2., 3., 4.],
}


def weak_orders(n):
    seen = set()
    for t in itertools.product(range(n), repeat=n):
        r = tuple(sorted(set(t)).index(v) for v in t)
        if r not in seen:
            seen.add(r)
            yield r


def table(cols, names):
    out = [np.array([SCALES[s][k] for k in c]) for c, s in zip(cols, names)]
    if all(s == "int" for s in names):
        return np.column_stack([np.array(o, dtype=np.int64) for o in out])
    return np.column_stack([np.asarray(o, float) for o in out])


LIBC = ctypes.CDLL(None)


def outcome(f):
    np.random.seed(3)
    LIBC.srand(3)          # the compiled resampling loops draw from the C library
    try:
        return plain(f())
    except Exception as e:   # noqa
        return type(e).__name__


def families(d):
    import copulae as c
    return {"clayton": lambda: c.ClaytonCopula(dim=d), "frank": lambda: c.FrankCopula(dim=d), "gumbel": lambda: c.GumbelCopula(dim=d),
            "gaussian": lambda: c.GaussianCopula(d), "student": lambda: c.StudentCopula(d)}


def fitted(make, data, **kw):
    c = make()
    np.random.seed(1)
    c.fit(data, verbose=0, **kw)
    s = c.summary("fit")
    return {"params": plain(c.params), "ll": plain(s.log_lik), "estimate": plain(s.params), "n": s.nsample, "text": str(s)}


GP = {"prob": [0.4, 0.6], "means": [[-2., -1.5], [2., 1.8]], "covs": [[[1., .2], [.2, 1.1]], [[.9, -.1], [-.1, 1.2]]]}


def procedures(d, ties):
    """name -> function(data): everything that is documented to rank its data"""
    import copulae as c
    from copulae import core, stats
    from copulae.gof import exch_test, rad_sym_test
    out = {}
    for n, mk in families(d).items():
        for m in ("itau", "irho") if n == "gaussian" else ("itau",):
            out["fit %s %s" % (n, m)] = lambda x, mk=mk, m=m: fitted(mk, x, method=m, ties=ties)
    par = {"clayton": 1.5, "frank": 3., "gumbel": 1.7, "gaussian": .4, "student": np.r_[3., np.full(d * (d - 1) // 2, .4)]}
    for n, mk in families(d).items():
        def ll(x, n=n, mk=mk):
            k = mk()
            k.params = par[n]
            return k.log_lik(x, ties=ties)
        out["log_lik " + n] = ll
    g = np.array([[.1, .9, .4], [.5, .5, .5], [.25, .75, 1.]])[:, :d]
    for sm in ("none", "beta", "checkerboard"):
        def emp(x, sm=sm):
            e = c.EmpiricalCopula(x, smoothing=sm, ties=ties)
            return [e.cdf(g), e.pdf(g) if sm == "beta" else 0, e.cdf(g, log=True)]
        out["empirical " + sm] = emp
    out["pobs"] = lambda x: core.pseudo_obs(x, ties)
    out["kendall"] = lambda x: stats.corr(x, method="kendall")
    out["spearman"] = lambda x: stats.corr(x, method="spearman")
    out["radial"] = lambda x: plain(tuple(rad_sym_test(x, N=9, ties=ties)))
    if d == 2:
        out["exchangeability"] = lambda x: plain(tuple(exch_test(x[:, 0], x[:, 1], N=9, ties=ties)))
        out["exchangeability grid"] = lambda x: plain(tuple(exch_test(x[:, 0], x[:, 1], N=5, m=3, ties=ties)))
        out["mixture em"] = lambda x: gmc(x, x0=GP_vec(), method="pem", max_iter=2, verbose=0, ties=ties)
        out["mixture sgd"] = lambda x: gmc(x, x0=GP_vec(), method="sgd", max_iter=3, ties=ties)
    return out


def GP_vec():
    from .c09 import c_vec
    return c_vec(GP)


def gmc(x, **kw):
    import copulae as c
    k = c.GaussianMixtureCopula(2, 2, GP)
    k.fit(x, **kw)
    return plain(k.params)


def slow(d, ties):
    """the numerically optimised fits and the bootstrap"""
    from copulae.gof import gof_copula
    import copulae as c
    out = {}
    for n, mk in families(d).items():
        out["ml " + n] = lambda x, mk=mk: fitted(mk, x, ties=ties)
    for n, cls in (("clayton", c.ClaytonCopula), ("gaussian", c.GaussianCopula)):
        def gof(x, cls=cls):
            np.random.seed(11)
            r = gof_copula(cls, x, reps=2, ties=ties, fit_ties="max" if ties == "average" else "average", multiprocess=False, fit_options=dict(verbose=0, method="itau"))
            return plain(tuple(r))
        out["gof " + n] = gof
    return out


def same(a, b):
    return repr(a) == repr(b)


class Transform(Model):
    name = "increasing transformations"

    def cases(self):
        names = list(SCALES)[1:]
        n = 4
        W = list(weak_orders(n))
        for i, w in enumerate(W):
            for j, v in enumerate(W):
                if w == tuple(sorted(w)) and (self.thorough or (i + 5 * j) % 2 == 0):     # rows in the order of the first column
                    yield {"cols": [list(w), list(v)], "ties": "average max min dense ordinal".split()[(i + j) % 5]}
        for p in itertools.permutations(range(5)):
            if self.thorough or p[0] % 2 == 0:
                yield {"cols": [list(range(5)), list(p)], "ties": "average"}
        P3 = list(weak_orders(3)) if self.thorough else list(itertools.permutations(range(3)))
        for p in P3:
            for q in P3:
                yield {"cols": [[0, 1, 2], list(p), list(q)], "ties": "average" if sum(p) % 2 else "min"}
        for p in itertools.permutations(range(4)):
            for q in itertools.permutations(range(4)):
                if self.thorough or (7 * p[0] + 3 * p[1] + q[0] + q[2]) % 3 == 0:
                    yield {"cols": [[0, 1, 2, 3], list(p), list(q)], "ties": "average"}

    def check(self, case, t):
        cols = case["cols"]
        d = len(cols)
        procs = procedures(d, case["ties"])
        base = table(cols, ["ranks"] * d)
        want = {k: outcome(lambda: f(base.copy())) for k, f in procs.items()}
        names = list(SCALES)[1:]
        combos = [[s] * d for s in names] + [[names[(i + 4 * j) % len(names)] for j in range(d)] for i in range(len(names))]
        for combo in combos:
            x = table(cols, combo)
            for k, f in procs.items():
                got = outcome(lambda: f(x.copy()))
                t.expect(same(got, want[k]), "values matter:" + k, lambda: "%s of columns with ranks %s written as %s: %s instead of %s" % (k, cols, combo, got, want[k]))
            if t.fails:
                return


class SlowTransform(Model):
    name = "increasing transformations, optimised fits and bootstrap"

    def cases(self):
        for i, p in enumerate(itertools.permutations(range(5))):
            if self.thorough or i % 3 == 0:
                for k in ("ml clayton", "ml frank", "ml gumbel", "ml gaussian", "ml student", "gof clayton", "gof gaussian"):
                    yield {"cols": [list(range(5)), list(p)], "ties": "average", "proc": k}
        for i, p in enumerate(itertools.permutations(range(4))):
            for j, q in enumerate(itertools.permutations(range(4))):
                if (i + 5 * j) % (2 if self.thorough else 12) == 0:
                    for k in ("ml clayton", "ml frank", "ml gumbel", "ml gaussian", "gof clayton"):
                        yield {"cols": [[0, 1, 2, 3], list(p), list(q)], "ties": "max", "proc": k}
        for w in ([0, 0, 1, 2, 3], [0, 1, 1, 2, 2], [0, 1, 2, 3, 3]):
            for v in itertools.product(range(3), repeat=5):
                if len(set(v)) == 3 and (self.thorough or sum(a * b for a, b in zip(v, (1, 2, 3, 5, 7))) % 9 == 0):
                    for k in ("ml clayton", "ml frank", "ml gumbel", "ml gaussian", "gof clayton"):
                        yield {"cols": [w, list(v)], "ties": ("average", "min", "max")[v[0]], "proc": k}

    def check(self, case, t):
        cols = case["cols"]
        d = len(cols)
        f = slow(d, case["ties"])[case["proc"]]
        want = outcome(lambda: f(table(cols, ["ranks"] * d)))
        for combo in ("unit", "pobs-like", "huge", "int", "close") if not self.thorough else list(SCALES)[1:]:
            got = outcome(lambda: f(table(cols, [combo] * d)))
            t.expect(same(got, want), "values matter:" + case["proc"], lambda: "%s of columns with ranks %s written as %s: %s instead of %s" % (case["proc"], cols, combo, got, want))


def close(a, b, tol):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k], tol) for k in a if k != "text")
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or (a != a and b != b) or abs(a - b) <= tol * (1 + abs(b))
    return repr(a) == repr(b)


class Rows(Model):
    """The order of the rows does not matter."""
    name = "row orders"
    SKIP = ("radial", "exchangeability", "mixture", "pobs")

    def cases(self):
        for i, v in enumerate(weak_orders(4)):
            yield {"cols": [[0, 1, 2, 3], list(v)], "ties": ("average", "max", "min", "dense")[i % 4]}
            yield {"cols": [[0, 1, 1, 2], list(v)], "ties": ("average", "max", "min", "dense")[(i + 1) % 4]}
        for i, (p, q) in enumerate(itertools.product(itertools.permutations(range(4)), repeat=2)):
            if i % (2 if self.thorough else 11) == 0:
                yield {"cols": [[0, 1, 2, 3], list(p), list(q)], "ties": "average"}

    def check(self, case, t):
        cols = case["cols"]
        d = len(cols)
        x = table(cols, (["exp", "negative", "unit"])[:d])
        procs = {k: f for k, f in procedures(d, case["ties"]).items() if not k.startswith(self.SKIP)}
        want = {k: outcome(lambda: f(x.copy())) for k, f in procs.items()}
        for perm in itertools.permutations(range(len(x))):
            y = x[list(perm)]
            for k, f in procs.items():
                got = outcome(lambda: f(y.copy()))
                t.expect(close(got, want[k], 1e-9), "row order matters:" + k, lambda: "%s of %s, rows in the order %s: %s instead of %s" % (k, cols, perm, got, want[k]))
            if t.fails:
                return


class Columns(Model):
    """Relabelling the variables relabels the estimate."""
    name = "column orders"

    def cases(self):
        for i, (p, q) in enumerate(itertools.product(itertools.permutations(range(4)), repeat=2)):
            if self.thorough or i % 5 == 0:
                yield {"cols": [[0, 1, 2, 3], list(p), list(q)], "ties": "average"}
        for i, (p, q) in enumerate(itertools.product(weak_orders(3), repeat=2)):
            yield {"cols": [[0, 1, 2], list(p), list(q)], "ties": "max"}
        for i, (p, q) in enumerate(itertools.product(itertools.permutations(range(4)), repeat=2)):
            if i % (3 if self.thorough else 29) == 0:
                yield {"cols": [[0, 1, 2, 3], list(p), list(q), [3, 1, 0, 2], [1, 0, 3, 2]][:4 + i % 2], "ties": "average"}

    def check(self, case, t):
        cols = case["cols"]
        d = len(cols)
        x = table(cols, (["exp", "negative", "unit", "int", "ranks"])[:d])
        import copulae as c

        def see(y):
            out = {}
            for n, mk in families(d).items():
                for m in ("itau", "irho") if n == "gaussian" else ("itau",):
                    def f():
                        k = mk()
                        k.fit(y.copy(), method=m, ties=case["ties"], verbose=0)
                        e = k.sigma if n in ("gaussian", "student") else k.params
                        return [np.asarray(e), k.summary("fit").log_lik]
                    try:
                        out[n, m] = f()
                    except Exception as e:   # noqa
                        out[n, m] = type(e).__name__
            return out
        want = see(x)
        for perm in itertools.permutations(range(d)):
            if d > 3 and perm[0] > perm[-1] and not self.thorough:
                continue
            got = see(x[:, list(perm)])
            for k, w in want.items():
                g = got[k]
                if isinstance(w, str) or isinstance(g, str):
                    t.expect(w == g, "column order matters", lambda: "%s of %s, columns %s: %s instead of %s" % (k, cols, perm, g, w))
                    continue
                we = w[0][np.ix_(perm, perm)] if w[0].ndim == 2 else w[0]
                # where the fitted matrix is singular the density, and hence the likelihood, is undefined
                ok = np.allclose(g[0], we, rtol=1e-8, atol=1e-8)
                if w[0].ndim < 2 or np.linalg.eigvalsh(w[0])[0] > 1e-6:
                    ok = ok and close(plain(g[1]), plain(w[1]), 1e-7)
                t.expect(ok, "column order matters", lambda: "%s of %s, columns %s: %s instead of %s, %s" % (k, cols, perm, g, we, w[1]))
            if t.fails:
                return


MODELS = [Transform, SlowTransform, Rows, Columns]
# k-means is left out: its means and covariances are those of the data as given, which are not ranks
RULE = ("states: (data set given by its ranks, tie rule) - all pairs of weak orders of 4 rows by stride, permutations of 5, all pairs of permutations of 3 and 4 rows "
        "in three columns by stride; each written with eleven scales of values, alike and mixed across columns, respectively in every order of rows or columns; "
        "transitions: comparisons of the complete outcome of every procedure that ranks its data")
ASSUMPTIONS = ["tests and the bootstrap, which draw from NumPy's global generator or the C library's, are compared under the same seeds"]
