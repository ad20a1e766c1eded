"""The log likelihood over all small data sets, tie rules and containers, against textbook log densities."""
import itertools
import math

import numpy as np
import pandas as pd

from .. import cops, ref, sizes
from ..core import Model

UNIT = [0.05, 0.3, 0.5, 0.85]
REAL = [-1.5, 0.25, 0.5, 2.0]
INT3 = [0, 1, 2]


def ref_logpdf(s, rows):
    """Textbook log density of each row, independent of the implementation."""
    rows = np.asarray(rows, float)
    f = s["f"]
    if f in ("clayton", "frank", "gumbel", "indep"):
        return np.array([cops.declog(cops.dec_pdf(s, [repr(float(x)) for x in r])) for r in rows])
    if f in ("gaussian", "student"):
        return cops.ell_logpdf(s, rows)
    if f == "empirical":          # beta smoothing: mean of products of beta densities of the ranks
        from fractions import Fraction
        data = np.asarray(s["data"], float)
        n = len(data)
        R = [[float(v) for v in ref.ranks(list(c), s.get("ties", "average"))] for c in data.T]
        out = []
        for r in rows:
            tot = 0.0
            for i in range(n):
                p = 1.0
                for j, x in enumerate(r):
                    a, b = R[j][i], n + 1 - R[j][i]
                    p *= math.exp(math.lgamma(a + b) - math.lgamma(a) - math.lgamma(b) + (a - 1) * math.log(x) + (b - 1) * math.log1p(-x))
                tot += p
            out.append(math.log(tot / (n + s.get("offset", 0))))
        return np.array(out)
    if f == "marginal":
        from scipy import stats as st
        u, tot = np.empty(rows.shape), np.zeros(len(rows))
        for j, m in enumerate(s["margins"]):
            d = getattr(st, m["type"])(**m["parameters"])
            u[:, j] = d.cdf(rows[:, j])
            tot += d.logpdf(rows[:, j])
        ok = ((u > 0) & (u < 1)).all(1)
        out = np.full(len(rows), -np.inf)
        if ok.any():
            out[ok] = ref_logpdf(s["inner"], u[ok]) + tot[ok]
        return out
    if f == "gmc":
        out = []
        for x in rows:
            tot = 0.0
            for p, m, c in zip(s["prob"], s["means"], s["covs"]):
                c = np.array(c, float)
                z = x - np.array(m, float)
                tot += p * math.exp(-0.5 * z @ np.linalg.inv(c) @ z) / math.sqrt((2 * math.pi) ** len(m) * np.linalg.det(c))
            out.append(math.log(tot))
        return np.array(out)
    raise KeyError(f)


def dim(s):
    return s.get("d") or len(s["means"][0])


def containers(rows):
    a = np.asarray(rows, float)
    d = a.shape[1]
    yield "array", a
    yield "Fortran array", np.asfortranarray(a)
    yield "read-only array", _ro(a)
    yield "lists", a.tolist()
    yield "tuples", tuple(map(tuple, a.tolist()))
    yield "DataFrame", pd.DataFrame(a, columns=list("zyxw")[:d], index=[7 * i + 3 for i in range(len(a))])


def _ro(a):
    a = a.copy()
    a.setflags(write=False)
    return a


def frozen(x):
    return x.copy() if isinstance(x, (np.ndarray, pd.DataFrame)) else (list(map(list, x)) if isinstance(x, list) else x)


def unchanged(a, b):
    if isinstance(a, pd.DataFrame):
        return a.equals(b) and list(a.columns) == list(b.columns) and list(a.index) == list(b.index)
    return np.array_equal(a, b) and type(a) is type(b)


def agree(t, got, want, aspect, ctx, tol=1e-8):
    if not t.expect(type(got) is float or isinstance(got, np.floating), aspect + " is a float", lambda: "%s: %r" % (ctx, type(got))):
        return
    if math.isinf(want):
        t.expect(got == want, aspect, lambda: "%s: %r, expected %r" % (ctx, got, want))
    else:
        t.close(float(got), want, aspect, rtol=tol, atol=tol, ctx=ctx)


class AsGiven(Model):
    """to_pobs=False: the plain sum over the rows, whatever holds them."""
    name = "rows as given"
    chunk = 1

    def cases(self):
        pool = list(cops.zoo(pdf=True)) + [s for s in cops.archimedean((2, 3)) if not (s["f"] == "clayton" and s["p"] == -1)] \
            + list(cops.gaussian((2, 3))) + list(cops.student((2, 3), [1.0, 4.0, 30.0]))
        if self.thorough:
            pool += list(cops.archimedean((4,))) + list(cops.gaussian((4,))) + list(cops.student((4,)))
        yield from pool

    def check(self, s, t):
        c, d = cops.make(s), dim(s)
        axis = REAL if s["f"] in ("marginal", "gmc") else UNIT
        G = cops.grid(axis, d)
        G = G[cops.representable(s, G)]
        L = ref_logpdf(s, G)
        if s["f"] == "clayton" and s["p"] < 0:      # rows next to the edge of the support carry no correct digit
            with np.errstate(all="ignore"):
                m = np.abs((G ** -s["p"]).sum(1) - (d - 1)) > 1e-9
            G, L = G[m], L[m]
        rows = list(range(len(G)))
        for i in rows:                               # every single row
            agree(t, c.log_lik(G[i:i + 1].copy(), to_pobs=False), L[i], "one row", "%s %s" % (s, G[i]))
            t.step()
        step = 1 if d == 2 else 5
        pairs = [p for k, p in enumerate(itertools.product(rows, repeat=2)) if k % step == 0]
        for p in pairs:                              # every ordered pair, repeats included
            agree(t, c.log_lik(G[list(p)], to_pobs=False), L[list(p)].sum(), "two rows", "%s %s" % (s, p))
            t.step()
        for rows_ in ([], [0], [0, len(G) - 1], rows):
            if not rows_:
                continue
            for name, x in containers(G[rows_]):
                b = frozen(x)
                agree(t, c.log_lik(x, to_pobs=False), L[rows_].sum(), "container", "%s %s of %d rows" % (s, name, len(rows_)))
                t.expect(unchanged(x, b) if not isinstance(x, (list, tuple)) else True, "argument unchanged", name)
                t.step()


class Ranked(Model):
    """to_pobs=True (the default): the rows are ranked column by column under the tie rule first."""
    name = "pseudo-observations"
    chunk = 1

    def cases(self):
        for s in cops.zoo(pdf=True):
            if s["f"] == "clayton" and s["p"] < 0:
                continue
            for ties in ref.TIES:
                yield {"s": s, "ties": ties}

    def check(self, case, t):
        s, ties = case["s"], case["ties"]
        c, d = cops.make(s), dim(s)
        cache = {}

        def L(r):
            k = tuple(r)
            if k not in cache:
                cache[k] = float(ref_logpdf(s, [r])[0])
            return cache[k]
        top = 3 if d == 3 and not self.thorough else 4
        for n in range(1, top + 1):
            W = ref.weak_orderings(n)
            if d == 2:
                combos = itertools.product(W, W) if n < 4 or self.thorough else itertools.product(W[::5], W)
            else:
                combos = itertools.product(W[::2] if n > 2 else W, W, W) if n < 4 else itertools.product(W[::15], W[::4], W[::3])
            for cols in combos:
                # values whose weak order is the column's: the ranks, not the values, must matter
                data = np.array([[v * v - 3.5 * (j == 1) for v in w] for j, w in enumerate(cols)]).T
                u = ref.pobs_rows(data, ties)
                want = sum(L(r) for r in u)
                x = data.copy()
                agree(t, c.log_lik(x, ties=ties), want, "ranked", "%s ties %s %s" % (s, ties, data.tolist()))
                t.expect(np.array_equal(x, data), "argument unchanged", "")
                # the same ranks from values strictly inside the unit interval, and from far away
                y = (data - data.min(0) + .4) / (np.ptp(data, axis=0) + .9)
                agree(t, c.log_lik(y.copy(), ties=ties), want, "ranked", "%s ties %s %s" % (s, ties, y.tolist()))
                agree(t, c.log_lik(-1e6 + 1e3 * data, ties=ties), want, "ranked", "%s ties %s %s" % (s, ties, data.tolist()))
                if ties == "average":
                    agree(t, c.log_lik(x), want, "defaults", "%s %s" % (s, data.tolist()))
                    agree(t, c.log_lik(x, to_pobs=True), want, "defaults", "%s %s" % (s, data.tolist()))
                t.step()
        for name, x in containers(data):
            b = frozen(x)
            agree(t, c.log_lik(x, to_pobs=True, ties=ties), want, "container", "%s ranked %s" % (s, name))
            agree(t, c.log_lik(x, ties=ties, to_pobs=False) if s["f"] in ("marginal", "gmc") else 0.0,
                  ref_logpdf(s, data).sum() if s["f"] in ("marginal", "gmc") else 0.0, "tie rule without ranking", name)
            t.expect(unchanged(x, b) if not isinstance(x, (list, tuple)) else True, "argument unchanged", name)


class Labels(Model):
    """A copula fitted on a frame evaluates the log likelihood by label, ranked or not, whatever the order of the columns."""
    name = "labelled data"

    def cases(self):
        for cls in ("Gaussian", "Student", "Marginal", "Empirical", "GMC"):
            yield {"cls": cls}

    def check(self, case, t):
        from copulae import EmpiricalCopula, GaussianCopula, GaussianMixtureCopula, MarginalCopula, StudentCopula
        rs = np.random.RandomState(4)
        z = rs.normal(size=(12, 3)) @ np.array([[1, .8, .1], [0, 1, -.3], [0, 0, 1]])
        X = pd.DataFrame(z, columns=["a", "b", "c"])
        cls = case["cls"]
        if cls == "Gaussian":
            c = GaussianCopula(3).fit(X, method="itau")
        elif cls == "Student":
            c = StudentCopula(3).fit(X, method="itau")
        elif cls == "Marginal":
            c = MarginalCopula(GaussianCopula(3), "norm").fit(X, method="itau")
        elif cls == "Empirical":
            c = EmpiricalCopula(X, smoothing="beta")
        else:
            np.random.seed(3)
            big = np.vstack([rs.normal(size=(30, 3)) @ np.array([[1, .3, .1], [0, 1, -.3], [0, 0, 1]]) + m for m in (-3, 3)])
            c = GaussianMixtureCopula(2, 3).fit(pd.DataFrame(big, columns=["a", "b", "c"]), method="kmeans")
        P = X.rank() / 13
        for n in (1, 2, 5, 12):
            for data, kw in ((P.iloc[:n], {"to_pobs": False}), (X.iloc[:n], {"to_pobs": True}), (X.iloc[:n], {})):
                vals = {}
                for perm in itertools.permutations("abc"):
                    x = data[list(perm)].copy()
                    b = x.copy()
                    vals[perm] = c.log_lik(x, **kw)
                    t.expect(x.equals(b) and list(x.columns) == list(perm), "argument unchanged", "%s %s" % (cls, perm))
                    t.step()
                base = vals[("a", "b", "c")]
                for perm, v in vals.items():
                    t.close(v, base, "by label", rtol=1e-9, atol=1e-9, ctx="%s %s %s n=%d" % (cls, perm, kw, n))
                t.close(c.log_lik(data.to_numpy().copy(), **kw), base, "by position", rtol=1e-9, atol=1e-9, ctx="%s %s n=%d" % (cls, kw, n))
        pd_ = c.pdf(P, log=True) if cls != "GMC" else c.pdf(P, True)
        t.close(c.log_lik(P, to_pobs=False), float(np.sum(pd_)), "sum of log densities", rtol=1e-10, ctx=cls)
        if cls in ("Gaussian", "Student"):
            t.close(c.log_lik(X), c.summary("fit").log_lik, "the fitted value", rtol=1e-10, ctx=cls)


class Matrices(Model):
    """Elliptical copulas: a correlation matrix without a density gives -inf or an error, never a finite value; the
    value follows every later parameter change."""
    name = "parameter changes"

    def cases(self):
        for f in ("gaussian", "student"):
            for d in (2, 3):
                yield {"f": f, "d": d}

    def check(self, case, t):
        f, d = case["f"], case["d"]
        specs = [s for s in (cops.gaussian((d,)) if f == "gaussian" else cops.student((d,), [1.0, 4.0, 30.0]))]
        c = cops.make(specs[0])
        data = cops.grid([0.1, 0.45, 0.8], d)
        want = {json_key(s): ref_logpdf(s, data).sum() for s in specs}
        for a, b in itertools.product(specs, repeat=2):
            for s in (a, b, a):
                c.params = np.array(s["p"], float)
                agree(t, c.log_lik(data, to_pobs=False), want[json_key(s)], "after a change", "%s -> %s" % (a["p"], b["p"]))
                t.step()
        for r in (1.0, -1.0):
            if d == 2:
                try:
                    c.params = np.array(([4.0] if f == "student" else []) + [r])
                    v = c.log_lik(data, to_pobs=False)
                except Exception:
                    continue
                t.expect(not math.isfinite(v), "singular matrix", lambda: "%s %s: %r" % (f, r, v))


def json_key(s):
    return repr(s["p"])


class Sizes(Model):
    """Samples on both sides of every length that might be treated specially."""
    name = "sizes"
    chunk = 1

    def cases(self):
        for s in list(cops.zoo(pdf=True)) + [{"f": "clayton", "d": 6, "p": 1.5}, {"f": "frank", "d": 5, "p": 3.0}, {"f": "gumbel", "d": 5, "p": 1.6}, {"f": "indep", "d": 9},
                                            {"f": "gaussian", "d": 6, "p": [((i * 7) % 5 + 1) / 20 for i in range(15)]},
                                            {"f": "student", "d": 6, "p": [5.0] + [((i * 7) % 5 + 1) / 20 for i in range(15)]}]:
            yield s

    def check(self, s, t):
        c, d = cops.make(s), dim(s)
        real = s["f"] in ("marginal", "gmc")
        A = np.array([[((i * 7 + j * 4) % 11 + .5) / 12 * (3 if real else 1) for j in range(d)] for i in range(9)])
        neg = s["f"] == "clayton" and s["p"] < 0
        if neg:
            A = np.clip(A + .3, 0, .97)
        L = np.array([float(np.ravel(c.pdf(r[None], log=True))[0]) for r in A])
        if not real or s["f"] == "gmc":
            t.close(L, ref_logpdf(s, A), "one row", 1e-8, 1e-8, ctx=repr(s))
        for n in sizes.upto(1025 if s["f"] == "empirical" else 100001 if self.thorough else 20001, True):
            i = (np.arange(n) * 5 + np.arange(n) // 11) % 9
            x = A[i]
            t.close(c.log_lik(x, to_pobs=False), math.fsum(L[i]), "sum over rows", 1e-9, 1e-9, ctx="%s n=%d" % (s, n))
            if n > (260 if s["f"] == "empirical" else 1100) or neg:
                continue
            for k, sh in enumerate(("up", "mixed", "pairs")):
                X = np.column_stack([sizes.column(n, "up") * 2 + sizes.column(n, sh, j) for j in range(d)])
                ties = ref.TIES[(n + k) % 5]
                U = np.stack([sizes.ranks(q, ties) for q in X.T], 1) / (n + 1)
                want = math.fsum(float(v) for a in range(0, n, 7) for v in np.ravel(c.pdf(U[a:a + 7], log=True)))
                t.close(c.log_lik(X, ties=ties), want, "ranked", 1e-9, 1e-8, ctx="%s n=%d %s %s" % (s, n, sh, ties))


MODELS = [Sizes, AsGiven, Ranked, Labels, Matrices]
RULE = ("Every copula class with a density: every row, every ordered pair of rows and the whole lattice, in every kind of container, against the textbook log density; "
        "every weak-order data set of up to 4 rows (3 columns: 3 rows) under every tie rule; every column order of labelled data; every pair of parameter changes.")
ASSUMPTIONS = ["rows whose textbook quantities fit into a double; negative Clayton parameters away from the edge of the support",
               "custom marginals and mixtures rank the rows as well when to_pobs is left on (that is what the documented switch says)"]
