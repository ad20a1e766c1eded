"""Fits by inversion of rank correlations: every small data set x family x method, against closed forms."""
import itertools
import math

import numpy as np
import pandas as pd

from .. import cops, ref, sizes
from ..core import Model

_gx, _gw = np.polynomial.legendre.leggauss(200)
OTHER = np.random.RandomState(3).normal(size=(11, 1)) + np.random.RandomState(5).normal(size=(11, 3))
METHOD = {"itau": "Kendall Tau", "irho": "Spearman Rho"}


def frank_tau(th):
    if abs(th) < 1e-4:
        return th / 9
    x = abs(th) * (_gx + 1) / 2
    d1 = (_gw * x / np.expm1(x)).sum() / 2
    tau = 1 - 4 / abs(th) * (1 - d1)
    return math.copysign(tau, th)


_frank = {}


def frank_itau(tau):
    k = round(tau, 12)
    if k not in _frank:
        lo, hi = 0.0, 2000.0
        for _ in range(200):
            m = (lo + hi) / 2
            if frank_tau(m) < abs(tau):
                lo = m
            else:
                hi = m
        _frank[k] = math.copysign((lo + hi) / 2, tau)
    return _frank[k]


def inverse(fam, method, x):
    """textbook inverse of the measure"""
    if fam in ("gaussian", "student"):
        return math.sin(math.pi * x / 2) if method == "itau" else 2 * math.sin(math.pi * x / 6)
    if x > 1 - 1e-9:
        return math.inf
    if fam == "clayton":
        return 2 * x / (1 - x)
    if fam == "gumbel":
        return max(1.0, 1 / (1 - x))        # the family has no negative dependence; itau answers with independence
    if fam == "frank":
        return frank_itau(x) if abs(x) < 1 - 1e-9 else math.copysign(math.inf, x)


def lower_bound(fam, d):
    return {"clayton": -1.0 if d == 2 else 0.0, "gumbel": 1.0, "frank": -math.inf if d == 2 else 0.0}[fam]


def clipped(R):
    """nearest matrix by eigenvalue clipping, rescaled to a unit diagonal"""
    w, V = np.linalg.eigh(R)
    if w[0] >= -1e-12:
        return R
    M = (V * np.maximum(w, 1e-15)) @ V.T
    s = np.sqrt(np.diag(M))
    return M / np.outer(s, s)


def fresh(fam, d, df=3.5):
    import copulae as c
    if fam == "student":
        x = c.StudentCopula(d, df=df)
        return x
    return {"gaussian": c.GaussianCopula, "clayton": c.ClaytonCopula, "gumbel": c.GumbelCopula, "frank": c.FrankCopula}[fam](dim=d)


def check_fit(t, fam, method, data, ctx, fit=None, df=3.5, ties="average", pobs=None, memo=None):
    """one fit against the closed form; returns the fitted copula, or None"""
    data = np.asarray(data, float)
    n, d = data.shape
    U = ref.pobs_rows(data, ties) if pobs is None else pobs
    cols = [list(map(float, c)) for c in U.T]
    stat = ref.kendall if method == "itau" else ref.spearman
    pair = {}
    for i in range(d):
        for j in range(i + 1, d):
            k = (tuple(cols[i]), tuple(cols[j]), method)
            if memo is not None and k in memo:
                pair[i, j] = memo[k]
            else:
                pair[i, j] = stat(cols[i], cols[j])
                if memo is not None:
                    memo[k] = pair[i, j]
    order = [(i, j) for i in range(d) for j in range(i + 1, d)]
    x = [pair[k] for k in order]
    c = fresh(fam, d, df)
    before = repr(c.params)
    arg = data.copy()
    try:
        r = fit(c, arg) if fit else c.fit(arg, method=method, ties=ties)
        err = None
    except Exception as e:  # noqa
        err = e
    t.expect(np.array_equal(arg, data), "argument unchanged", ctx)
    got = getattr(c.params, "rho", c.params)
    if any(math.isnan(v) for v in x):           # a constant column has no rank correlation
        t.expect(err is not None or not np.isfinite(np.asarray(got, float)).all(), "constant column gives a finite estimate", lambda: "%s: %r" % (ctx, c.params))
        return None
    inv = [inverse(fam, method, v) for v in x]
    if fam in ("gaussian", "student"):
        R = np.eye(d)
        for (i, j), v in zip(order, inv):
            R[i, j] = R[j, i] = v
        P = clipped(R)
        want = np.array([P[k] for k in order])
        low = np.linalg.eigvalsh(P)[0]
        if err is not None:
            t.expect(low < 1e-6 and isinstance(err, np.linalg.LinAlgError), "fit refused", lambda: "%s: %r" % (ctx, err))
            return None
        edge = abs(np.linalg.eigvalsh(R)[0]) < 1e-9
        if not t.close(np.asarray(got, float), want, "estimate", rtol=0, atol=1e-6 if edge else 1e-9, ctx=ctx):
            return None
        if fam == "student":
            t.expect(c.params.df == df, "degrees of freedom changed", lambda: "%s: %r" % (ctx, c.params))
        fine = low > 1e-4
        spec = {"f": fam, "d": d, "p": ([df] if fam == "student" else []) + [float(v) for v in want]}
    else:
        if math.inf in inv and -math.inf in inv:
            return None                         # perfect dependence both ways: no mean
        th = math.fsum(inv) / len(inv) if all(map(math.isfinite, inv)) else math.inf if math.inf in inv else -math.inf
        bad = th < lower_bound(fam, d) - 1e-12
        on_edge = abs(th - lower_bound(fam, d)) < 1e-9
        if bad:
            t.expect(err is not None, "inadmissible estimate accepted", lambda: "%s: %r" % (ctx, c.params))
            t.expect(repr(c.params) == before, "refused fit changed the parameters", lambda: "%s: %r" % (ctx, c.params))
            return None
        if not math.isfinite(th):               # perfectly dependent columns: the parameter is unbounded
            t.expect(err is not None or abs(got) > 1e8, "perfect dependence", lambda: "%s: %r" % (ctx, c.params))
            return None
        if err is not None:
            t.expect(on_edge, "fit refused", lambda: "%s: %r" % (ctx, err))
            return None
        if not t.close(float(got), th, "estimate", rtol=1e-6, atol=1e-7, ctx=ctx):
            return None
        spec = {"f": fam, "d": d, "p": float(got)}
        fine = abs(th) < 30 and not (fam == "clayton" and th < 0)
    t.expect(r is c, "fit returns the copula", ctx)
    s = c.summary("fit")
    t.close(np.asarray(s.params, float), np.asarray(got, float), "summary estimate", rtol=0, atol=0, ctx=ctx)
    t.expect(METHOD[method] in str(s.method), "summary method", lambda: "%s: %r" % (ctx, s.method))
    t.expect(s.nsample == n, "summary sample size", lambda: "%s: %r" % (ctx, s.nsample))
    with np.errstate(all="ignore"):
        ll = c.log_lik(U, to_pobs=False)
    t.expect(s.log_lik == ll or abs(s.log_lik - ll) < 1e-9 or (s.log_lik != s.log_lik and ll != ll), "summary log likelihood", lambda: "%s: %r / %r" % (ctx, s.log_lik, ll))
    if fine:
        if fam in ("gaussian", "student"):
            w = float(cops.ell_logpdf(spec, U).sum())
        else:
            w = sum(cops.declog(cops.dec_pdf(spec, [repr(float(v)) for v in row])) for row in U) if n * d < 9 or (hash(ctx) & 7) == 0 and n < 60 else ll
        t.close(s.log_lik, w, "log likelihood", rtol=1e-6, atol=1e-6, ctx=ctx)
    return c


def families(method):
    return ("gaussian",) if method == "irho" else ("gaussian", "student", "clayton", "gumbel", "frank")


COMBOS = [(f, m) for m in ("itau", "irho") for f in families(m)]


class Bivariate(Model):
    """Two columns: all pairs of weak orders."""
    name = "two columns"
    chunk = 1

    def cases(self):
        for f, m in COMBOS:
            for n in (2, 3, 4, 5):
                for ties in (ref.TIES if n < 5 or self.thorough else ["average"]):
                    yield {"f": f, "m": m, "n": n, "ties": ties}

    def check(self, case, t):
        n = case["n"]
        W = ref.weak_orderings(n)
        first = W if n < 4 else [sorted(w) for w in {tuple(sorted(w)) for w in W}] if n == 4 or self.thorough else [list(range(n))]
        memo = {}
        for a, b in itertools.product(sorted(first), W):
            X = np.array([[v * 2.5 - 1 for v in a], [v ** 3 for v in b]], float).T
            check_fit(t, case["f"], case["m"], X, "%s %s" % (case, [a, b]), ties=case["ties"], memo=memo)
            t.step()


class Multivariate(Model):
    """Three and four columns: all tuples of permutations (and of weak orders on three rows)."""
    name = "three and four columns"
    chunk = 1

    def cases(self):
        for f, m in COMBOS:
            yield {"f": f, "m": m, "kind": "weak3", "part": 0}
            for part in range(4):
                yield {"f": f, "m": m, "kind": "perm34", "part": part}
            parts = 24 if self.thorough else 6
            for part in range(parts):
                yield {"f": f, "m": m, "kind": "perm44", "part": part}
                yield {"f": f, "m": m, "kind": "perm35", "part": part}
                yield {"f": f, "m": m, "kind": "perm45", "part": part}

    def check(self, case, t):
        memo = {}
        P4, P5 = list(itertools.permutations(range(4))), list(itertools.permutations(range(5)))
        k, part = case["kind"], case["part"]
        if k == "weak3":
            W = ref.weak_orderings(3)
            it = [(a, b, c) for a in ([0, 1, 2], [0, 0, 1], [0, 1, 1], [0, 0, 0]) for b in W for c in W]
        elif k == "perm34":
            it = [(range(4), a, b) for a in P4 for b in P4][part::4]
        elif k == "perm44":
            it = [(range(4), a, b, c) for a in P4 for b in P4 for c in P4]
            it = it[part::24] if self.thorough else it[part::18]
        elif k == "perm35":
            it = [(range(5), a, b) for a in P5 for b in P5]
            it = it[part::24] if self.thorough else it[part::36]
        else:       # positively dependent columns on five rows
            near = [p for p in P5 if sum(p[i] > p[j] for i in range(5) for j in range(i + 1, 5)) <= 3]
            it = [(range(5), a, b, c) for a in near for b in near for c in near]
            it = it[part::24] if self.thorough else it[part::60]
        for cols in it:
            cols = [list(c) for c in cols]
            X = np.array([[v * v * (j + 1) - j for v in c] for j, c in enumerate(cols)], float).T
            check_fit(t, case["f"], case["m"], X, "%s %s" % (case, cols), memo=memo)
            t.step()


class Many(Model):
    """Five and six columns: the estimates stay with their pairs."""
    name = "five and six columns"
    chunk = 1

    def cases(self):
        for f, m in COMBOS:
            for d in (5, 6):
                for base in range(12 if self.thorough else 3):
                    yield {"f": f, "m": m, "d": d, "base": base}

    def check(self, case, t):
        d, n = case["d"], 8
        # every cyclic shift of the columns of data in which all the pairs differ
        rs = np.random.RandomState(case["base"])
        X = rs.normal(size=(n, 1)) * (2 if case["f"] not in ("gaussian", "student") else .6) + rs.normal(size=(n, d))
        memo = {}
        for s in range(d):
            check_fit(t, case["f"], case["m"], np.roll(X, s, axis=1), "%s shift %d" % (case, s), memo=memo)
            check_fit(t, case["f"], case["m"], np.roll(X, s, axis=1)[:, ::-1].copy(), "%s reversed shift %d" % (case, s), memo=memo)
            t.step(2)


class Calls(Model):
    """Ways of asking for the same fit, and what came before it."""
    name = "ways of calling"

    def cases(self):
        for f, m in COMBOS:
            for d in (2, 3):
                yield {"f": f, "m": m, "d": d}

    def check(self, case, t):
        f, m, d = case["f"], case["m"], case["d"]
        X = np.array([[1, 2, 3, 4, 5, 6], [1, 4, 2, 3, 6, 5], [3, 2, 1, 6, 4, 5]], float).T[:, :d]
        U = ref.pobs_rows(X)
        raw = (X - .5) / 6.5
        ways = {
            "upper case": lambda c, a: c.fit(a, method=m.upper()),
            "mixed case": lambda c, a: c.fit(a, method=m[0] + m[1:].capitalize()),
            "starting value": lambda c, a: c.fit(a, x0=[.123] * 3, method=m),
            "options": lambda c, a: c.fit(a, method=m, optim_options={"method": "BFGS"}),
            "silent": lambda c, a: c.fit(a, method=m, verbose=0),
            "scaled": lambda c, a: c.fit(a, method=m, scale=.01),
            "frame": lambda c, a: c.fit(pd.DataFrame(a, columns=list("zyx")[:d], index=list("fedcba")), method=m),
            "lists": lambda c, a: c.fit(a.tolist(), method=m),
            "positional": lambda c, a: c.fit(a, None, m),
            "again": lambda c, a: c.fit(a[::-1].copy(), method=m).fit(a, method=m),
            "after other data": lambda c, a: c.fit(OTHER[:, :d], method=m).fit(a, method=m),
            "after a refused fit": lambda c, a: (refused(c, m, d), c.fit(a, method=m))[1],
        }
        for name, w in ways.items():
            check_fit(t, f, m, X, "%s %s" % (case, name), fit=w)
            t.step()
        for name, w in (("given levels", lambda c, a: c.fit(a, method=m, to_pobs=False)),
                        ("given levels frame", lambda c, a: c.fit(pd.DataFrame(a, columns=list("zyx")[:d]), method=m, to_pobs=False)),
                        ("given levels lists", lambda c, a: c.fit(a.tolist(), method=m, to_pobs=False))):
            check_fit(t, f, m, raw, "%s %s" % (case, name), fit=w, pobs=raw)
            t.step()
        if f == "student":
            for df in (1.0, 2.0, 7.25, 40.0):
                check_fit(t, f, m, X, "%s df %r" % (case, df), df=df)
        for bad in ("itauu", "tau", "", "rho", "mle", "i rho"):
            c = fresh(f, d)
            before = repr(c.params)
            t.raises(Exception, lambda: c.fit(X, method=bad), "unknown method", bad)
            t.expect(repr(c.params) == before, "unknown method changed the copula", bad)
        c = fresh(f, d)
        t.raises(ValueError, lambda: c.fit(X[:d - 1], method=m), "too few rows", str(case))
        base = getattr(fresh(f, d).fit(X, method=m).params, "rho", None)
        base = fresh(f, d).fit(X, method=m).params if base is None else base
        for perm in itertools.islice(itertools.permutations(range(6)), 0, None, 7):
            g = fresh(f, d).fit(X[list(perm)], method=m).params
            t.close(np.asarray(getattr(g, "rho", g), float), np.asarray(base, float), "order of rows", rtol=1e-12, atol=1e-12, ctx="%s %s" % (case, perm))
            t.step()


def refused(c, m, d):
    try:
        c.fit(np.ones((5, d + 1)), method=m)
    except Exception:  # noqa
        return


class Sizes(Model):
    """Samples on both sides of every length that might be treated specially."""
    name = "sizes"
    chunk = 1

    def cases(self):
        for n in sizes.upto(5001 if self.thorough else 2001, True)[::-1]:
            if n > 4:
                for d in (2, 3) if n < 800 else (2,):
                    yield {"n": n, "d": d}

    def check(self, case, t):
        n, d = case["n"], case["d"]
        for sh, ties in (("mixed", "average"), ("runs", "average"), ("few levels", "max")) if n < 800 else (("runs", "average"),):
            X = np.column_stack([sizes.column(n, "up") * 2. + sizes.column(n, sh if k else "mixed", k) * (k + 1) for k in range(d)])
            U = np.stack([sizes.ranks(c, ties) for c in X.T], 1) / (n + 1)
            cols = [list(map(float, c)) for c in U.T]
            memo = {}
            for m, f in (("itau", sizes.kendall), ("irho", sizes.spearman)):
                for i, j in itertools.combinations(range(d), 2):
                    memo[tuple(cols[i]), tuple(cols[j]), m] = f(X[:, i], X[:, j])
            for f, m in COMBOS:
                check_fit(t, f, m, X, "%s %s %s %s %s" % (case, sh, ties, f, m), ties=ties, pobs=U, memo=memo)


MODELS = [Sizes, Bivariate, Multivariate, Many, Calls]
RULE = ("Two columns: all pairs of weak orders of 2-4 rows (5: against the identity) under every tie rule; three columns: all weak orders of 3 and all permutations of 4 rows; "
        "every shift and reflection of 5 and 6 columns; four columns of 4 rows: every third, five rows: every sixth to tenth configuration (thorough: all); every family x method; every way of calling. Reference: closed-form inverses of exact rank correlations, "
        "eigenvalue clipping, textbook log densities.")
ASSUMPTIONS = ["a correlation matrix that is singular to working precision may be refused with LinAlgError by the likelihood",
               "inversion of Spearman's rho is offered for the Gaussian copula only"]
