"""Correlation matrices: every small data set with ties, constants and missing values x method x missing-data policy, against exact
coefficients of the observations the policy keeps."""
import itertools
import math
from functools import lru_cache

import numpy as np
import pandas as pd

from .. import ref, sizes
from ..core import Model

NA = None
V2 = (0, 1, 2.5, NA)          # both columns of the two-column model
V3 = (0, 1, NA)
REF = {"pearson": ref.pearson, "kendall": ref.kendall, "spearman": ref.spearman}
USES = ("everything", "complete", "pairwise.complete")


@lru_cache(maxsize=200000)
def coef(method, xs, ys):
    return REF[method](list(xs), list(ys))


def kept(rows, i, j, use):
    if use == "complete":
        rows = [r for r in rows if None not in r]
    elif use == "pairwise.complete":
        rows = [r for r in rows if r[i] is not None and r[j] is not None]
    return [r[i] for r in rows], [r[j] for r in rows]


def expected(rows, method, use):
    """The matrix, or None when some coefficient is over fewer than two observations (undefined: anything but a number)."""
    d = len(rows[0])
    m = np.eye(d)
    for i in range(d):
        for j in range(i):
            x, y = kept(rows, i, j, use)
            if None in x or None in y:
                m[i, j] = m[j, i] = math.nan
            elif len(x) < 2:
                return None
            else:
                m[i, j] = m[j, i] = coef(method, tuple(x), tuple(y))
    return m


def arr(rows):
    return np.array([[math.nan if v is None else v for v in r] for r in rows], float)


def judge(t, fn, want, ctx):
    try:
        got = fn()
    except Exception as e:      # noqa
        t.expect(want is None, "exception", lambda: "%s: %s: %s" % (ctx(), type(e).__name__, e))
        return None
    g = np.asarray(got, float)
    if want is None:
        t.expect(g.ndim == 2 and not np.isfinite(g[np.triu_indices(len(g), 1)]).all(), "undefined coefficient", lambda: "%s: %r" % (ctx(), g.tolist()))
    else:
        t.close(g, want, "coefficients", 1e-9, 1e-9, ctx=ctx() if g.shape != want.shape or not np.allclose(g, want, 1e-9, 1e-9, equal_nan=True) else "")
    return got


class Data(Model):
    name = "data sets"

    def cases(self):
        """Prefix of rows; the check completes it in every way."""
        for k in range(0, 1):
            yield {"cols": 2, "n": 2, "first": None}
        rows2 = list(itertools.product(V2, repeat=2))
        for r in rows2:
            yield {"cols": 2, "n": 3, "first": r}
        for a in range(len(rows2)):
            yield {"cols": 2, "n": 4, "multiset": a}
            if self.thorough:
                yield {"cols": 2, "n": 5, "multiset": a}
        rows3 = list(itertools.product(V3, repeat=3))
        for a in range(len(rows3)):
            yield {"cols": 3, "n": 3, "multiset": a}
            if self.thorough:
                yield {"cols": 3, "n": 4, "multiset": a}
        for w in range(8):
            yield {"cols": 4, "n": 5, "pattern": w}

    chunk = 1

    def data(self, case):
        c, n = case["cols"], case["n"]
        if "pattern" in case:       # wide tables: every placement of up to two missing values in a fixed table
            base = [[3, 1, 4, 1], [5, 9, 2, 6], [5, 3, 5, 8], [9, 7, 9, 3], [2, 3, 8, 4]]
            w = case["pattern"]
            cells = list(itertools.product(range(5), range(4)))
            for k, combo in enumerate(itertools.chain([()], [(x,) for x in cells], itertools.combinations(cells, 2))):
                if k % 8 == w:
                    yield [[None if (i, j) in combo else v for j, v in enumerate(r)] for i, r in enumerate(base)]
            return
        rows = list(itertools.product(V2 if c == 2 else V3, repeat=c))
        if "first" in case:
            if case["first"] is None:
                yield from itertools.product(rows, repeat=n)
            else:
                f = tuple(case["first"])
                for rest in itertools.product(rows, repeat=n - 1):
                    yield (f,) + rest
            return
        a = case["multiset"]
        for k, rest in enumerate(itertools.combinations_with_replacement(range(a, len(rows)), n - 1)):
            s = [rows[a]] + [rows[i] for i in rest]
            yield s[1::2] + s[::2][::-1] if k % 2 else s       # the multiset, in an order that is not sorted

    def check(self, case, t):
        from copulae.stats import corr
        for rows in self.data(case):
            x = arr(rows)
            for method in REF:
                for use in USES:
                    want = expected(rows, method, use)
                    judge(t, lambda: corr(x, method=method, use=use), want, lambda: "%r %s %s" % (rows, method, use))
                    if len(rows[0]) == 2 and use != "complete":
                        judge(t, lambda: corr(x[:, 0], x[:, 1], method, use), want, lambda: "two vectors %r %s %s" % (rows, method, use))
            if len(t.fails) > 20:
                return


TABLES = {"int": [[3, 1, 4], [5, 9, 2], [5, 3, 5], [9, 7, 9], [2, 3, 8]],
          "na": [[3, 1, None], [5, None, 2], [5, 3, 5], [9, 7, 9], [2, 3, 8]],
          "const": [[1, 2, 3], [1, 5, 4], [1, 3, 3]],
          "allna": [[1, None, 3], [2, None, 4], [4, None, 3]]}


class Forms(Model):
    """Containers, labels, aliases, specialised functions, defaults, and invalid calls."""
    name = "containers, labels and arguments"

    def cases(self):
        for tb in TABLES:
            for cols in (["a", "b", "c"], [2, 0, 1], ["x", "x", "y"], [("p", 1), ("p", 2), ("q", 1)]):
                for idx in (None, [9, 4, 4, 1, 0], list("vwxyz")):
                    yield {"k": "frame", "table": tb, "cols": [list(c) if isinstance(c, tuple) else c for c in cols], "index": idx}
            for nx in (None, "u", "v", 0, 1, ""):
                for ny in (None, "u", "v", 0, 1, ""):
                    yield {"k": "series", "table": tb, "names": [nx, ny]}
            yield {"k": "arrays", "table": tb}
        yield {"k": "errors"}

    def check(self, case, t):
        from copulae.stats import corr, kendall_tau, pearson_rho, spearman_rho
        if case["k"] == "errors":
            return self.errors(t)
        rows = TABLES[case["table"]]
        x = arr(rows)
        special = {"pearson": pearson_rho, "kendall": kendall_tau, "spearman": spearman_rho}
        alias = {"pearson": ["pearson", "PEARSON"], "kendall": ["kendall", "tau", "Kendall"], "spearman": ["spearman", "rho", "RHO"]}
        if case["k"] == "frame":
            cols = [tuple(c) if isinstance(c, list) else c for c in case["cols"]]
            cols = pd.MultiIndex.from_tuples(cols) if isinstance(cols[0], tuple) else cols
            f = pd.DataFrame(x, columns=cols, index=None if case["index"] is None else case["index"][:len(x)])
            before = f.copy(deep=True)
            for method in REF:
                for use in USES:
                    want = expected(rows, method, use)
                    for g in (lambda: corr(f, method=method, use=use), lambda: special[method](f, use=use)):
                        got = judge(t, g, want, lambda: "%r %s %s" % (case, method, use))
                        if got is not None:
                            t.expect(isinstance(got, pd.DataFrame) and list(got.columns) == list(f.columns) and list(got.index) == list(f.columns),
                                     "frame labels", lambda: "%r -> %r" % (case, got))
            t.expect(f.equals(before) and list(f.columns) == list(before.columns), "input changed", lambda: repr(case))
        elif case["k"] == "series":
            nx, ny = case["names"]
            a, b = pd.Series(x[:, 0], name=nx), pd.Series(x[:, 1], name=ny, index=range(7, 7 + len(x)))
            r2 = [r[:2] for r in rows]
            for method in REF:
                for use in USES:
                    want = expected(r2, method, use)
                    for g in (lambda: corr(a, b, method, use), lambda: special[method](a, b, use)):
                        got = judge(t, g, want, lambda: "%r %s %s" % (case, method, use))
                        if got is not None:
                            labels = list(getattr(got, "columns", []))
                            ok = isinstance(got, pd.DataFrame) and labels == list(got.index) and len(set(map(str, labels))) == 2
                            if nx not in (None, "") and ny not in (None, "") and nx != ny:
                                ok = ok and labels == [nx, ny]
                            t.expect(ok, "series labels", lambda: "names %r -> %r" % (case["names"], labels))
            t.expect(np.array_equal(a, x[:, 0], equal_nan=True) and a.name == nx and b.name == ny, "input changed", lambda: repr(case))
        else:
            forms = {"list": x.tolist(), "tuple": tuple(map(tuple, x)), "fortran": np.asfortranarray(x), "strided": np.repeat(x, 2, 0)[::2],
                     "float32": x.astype("float32"), "reversed view": x[::-1][::-1]}
            if case["table"] in ("int", "const"):
                forms.update({"int": x.astype(int), "int32": x.astype("int32"), "uint8": x.astype("uint8")})
            for method in REF:
                for use in USES:
                    want = expected(rows, method, use)
                    for fn, f in forms.items():
                        before = np.array(f)
                        for nm in alias[method]:
                            for u in (use, use.upper()):
                                judge(t, lambda: corr(f, None, nm, u), want, lambda: "%r %s %s %s" % (case, fn, nm, u))
                        judge(t, lambda: special[method](f, None, use), want, lambda: "%r %s %s %s" % (case, fn, method, use))
                        t.expect(np.array_equal(np.asarray(f), before, equal_nan=True), "input changed", lambda: "%r %s" % (case, fn))
                    r2 = [r[1:] for r in rows]
                    w2 = expected(r2, method, use)
                    for fn, f in forms.items():
                        f = np.asarray(f)
                        judge(t, lambda: special[method](f[:, 1], f[:, 2], use), w2, lambda: "%r %s vectors" % (case, fn))
                        judge(t, lambda: corr(f[:, 1].tolist(), f[:, 2].tolist(), method, use), w2, lambda: "%r %s lists" % (case, fn))
                judge(t, lambda: special[method](x), expected(rows, method, "everything"), lambda: "%r default policy" % case)
            judge(t, lambda: corr(x), expected(rows, "pearson", "everything"), lambda: "%r defaults" % case)

    def errors(self, t):
        from copulae.stats import corr, kendall_tau, pearson_rho, spearman_rho
        x = arr(TABLES["int"])
        for m in ("", "nope", "pearsons", "taus", "spearman "):
            t.raises(ValueError, lambda: corr(x, method=m), "invalid method", m)
            t.raises(ValueError, lambda: corr(x[:, 0], x[:, 1], method=m), "invalid method", m)
        for u in ("", "all", "pairwise", "complete.pairwise", "everything "):
            t.raises(ValueError, lambda: corr(x, use=u), "invalid policy", u)
            t.raises(ValueError, lambda: corr(x[:, 0], x[:, 1], use=u), "invalid policy", u)
            for f in (kendall_tau, pearson_rho, spearman_rho):
                t.raises(ValueError, lambda: f(x, use=u), "invalid policy", u)
        for f in (corr, kendall_tau, pearson_rho, spearman_rho):
            t.raises(ValueError, lambda: f(x[:, 0]), "one vector")
            t.raises(ValueError, lambda: f(x[None]), "three dimensions")
            t.raises(ValueError, lambda: f(x, x[:, 0]), "matrix and vector")
            t.raises(ValueError, lambda: f(x[:, 0], x), "vector and matrix")
            t.raises(ValueError, lambda: f(x, x), "two matrices")
            t.raises(ValueError, lambda: f(x[:, 0], x[:-1, 1]), "different lengths")
            t.raises(ValueError, lambda: f(pd.Series(x[:, 0]), pd.Series(x[:-1, 1])), "different lengths")


class Sizes(Model):
    """Lengths on both sides of every length that might be treated specially, with and without missing values."""
    name = "sizes"
    EXACT = {"pearson": sizes.pearson, "kendall": sizes.kendall, "spearman": sizes.spearman}
    chunk = 1

    def cases(self):
        for n in sizes.upto(10 ** 6 if self.thorough else 5001, True):
            if n < 3:
                continue
            for sh in (sizes.SHAPES if n < 2500 else ("mixed", "few levels")):
                yield {"n": n, "shape": sh}

    def check(self, case, t):
        from copulae.stats import corr
        n, sh = case["n"], case["shape"]
        x = np.column_stack([sizes.column(n, sh), sizes.column(n, "mixed", 1), sizes.column(n, "runs", 2)]).astype(float)
        for every in (0, 5):
            miss = x.copy()
            if every:
                miss[::every, 0] = miss[1::every, 1] = np.nan
            ok = ~np.isnan(miss)
            for method, f in self.EXACT.items():
                if every and method == "kendall" and n > 2500:
                    continue
                for use in USES if every else ("everything",):
                    want = np.eye(3)
                    und = False
                    for i, j in ((0, 1), (0, 2), (1, 2)):
                        k = ok.all(1) if use == "complete" else ok[:, i] & ok[:, j]
                        if use == "everything" and not k.all():
                            v = math.nan
                        elif k.sum() < 2:
                            und, v = True, 0
                        else:
                            v = f(x[k, i], x[k, j])
                        want[i, j] = want[j, i] = v
                    judge(t, lambda: corr(miss, method=method, use=use), None if und else want, lambda: "%r missing %s %s %s" % (case, every, method, use))
                    if use != "complete" or not every:
                        judge(t, lambda: corr(miss[:, 0], miss[:, 1], method, use), None if und else want[:2, :2],
                              lambda: "%r vectors, missing %s %s %s" % (case, every, method, use))
        if sh == "mixed" and n <= 65:       # many columns
            y = np.stack([sizes.column(13, "mixed", k) for k in range(n)], 1).astype(float)
            y[4, ::3] = np.nan
            for method, f in self.EXACT.items():
                for use in ("everything", "pairwise.complete"):
                    want = np.eye(n)
                    for i in range(n):
                        for j in range(i):
                            k = ~np.isnan(y[:, i]) & ~np.isnan(y[:, j])
                            want[i, j] = want[j, i] = math.nan if use == "everything" and not k.all() else f(y[k, i], y[k, j])
                    judge(t, lambda: corr(y, method=method, use=use), want, lambda: "%d columns %s %s" % (n, method, use))


MODELS = [Data, Forms, Sizes]
RULE = ("states: blocks of data sets (all two-column tables of 2-3 rows over {0,1,2.5,NA}, all multisets of 4 (5) rows, all multisets of 3 (4) rows of "
        "three columns over {0,1,NA}, all placements of up to two missing cells in a 5x4 table) and all containers/labels/aliases; "
        "transitions: coefficient matrices compared with exact rational references")
ASSUMPTIONS = ["coefficients over fewer than two kept observations are undefined: an exception or NaN are both accepted",
               "infinite observations are outside the statement", "Series with missing, empty or equal names may get any two distinct labels"]
