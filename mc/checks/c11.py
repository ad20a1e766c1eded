"""Every weak ordering of up to n observations (so every possible rank situation), pushed through every tie rule,
container and several order-preserving value maps; matrices column by column over every pair/triple of orderings.
The reference is the rank definition computed in exact rational arithmetic."""
import itertools

import numpy as np
import pandas as pd

from ..core import Model
from .. import ref, sizes

MAPS = {
    "int": lambda v: v,
    "neg": lambda v: v * 0.25 - 0.6,
    "huge": lambda v: [-1e308, -1.0, 0.0, 1e-308, 2.5, 1e308][v],
    "fine": lambda v: 1.0 + v * 2.220446049250313e-16,
    "wide": lambda v: 2 ** 53 - 1 + v,        # neighbouring integers without a floating point form of their own
    "low": lambda v: -2 ** 63 + v,
}
EXACT = ("wide", "low")


def containers(vals, exact=False):
    if exact:
        i = np.array(vals, np.int64)
        yield "list", list(vals), None
        yield "int array", i, None
        yield "int series", pd.Series(i), None
        if min(vals) >= 0:
            yield "unsigned", i.astype(np.uint64) + np.uint64(2 ** 63), None
        return
    f = np.array(vals, float)
    yield "list", list(vals), None
    yield "tuple", tuple(vals), None
    yield "array", f, None
    yield "strided", np.repeat(f, 2)[::2], None
    yield "series", pd.Series(f, index=[chr(122 - i) for i in range(len(f))]), None
    if all(isinstance(v, int) for v in vals):
        yield "int array", np.array(vals, int), None


class Vectors(Model):
    name = "vectors"

    def cases(self):
        for n in range(1, 7 if self.thorough else 6):
            for w in ref.weak_orderings(n):
                yield w

    def check(self, w, t):
        from copulae.core import pseudo_obs, rank_data
        from copulae import pseudo_obs as top
        n = len(w)
        t.outcome = sorted(w)
        for mname, m in MAPS.items():
            vals = [m(v) for v in w]
            for ties in ref.TIES:
                want = [float(r) for r in ref.ranks(vals, ties)]
                for cname, c, _ in containers(vals, mname in EXACT):
                    before = np.array(c, copy=True)
                    t.close(rank_data(c, 0, ties), want, "rank", ctx=f"{mname} {ties} {cname}")
                    got = pseudo_obs(c, ties)
                    t.close(got, [x / (n + 1) for x in want], "pobs", ctx=f"{mname} {ties} {cname}")
                    t.expect(np.array_equal(before, np.asarray(c)), "mutated", lambda: f"{ties} {cname}")
            t.close(pseudo_obs(vals), [float(r) / (n + 1) for r in ref.ranks(vals)], "default ties")
            t.close(top(np.array(vals)), [float(r) / (n + 1) for r in ref.ranks(vals)], "default ties")


INDEXES = [None, "rev", "str", "dup", "date"]


def index_of(kind, n):
    return {None: pd.RangeIndex(n), "rev": pd.Index(range(n, 0, -1)), "str": pd.Index([f"r{i}" for i in range(n)]),
            "dup": pd.Index([0] * n), "date": pd.date_range("2020-01-01", periods=n)}[kind]


class Matrices(Model):
    name = "matrices"

    def cases(self):
        for n, k in [(1, 2), (2, 2), (3, 2), (2, 3), (3, 3)] + ([(4, 2)] if self.thorough else []):
            ws = ref.weak_orderings(n)
            for cols in itertools.product(ws, repeat=k):
                yield [list(c) for c in cols]
        if not self.thorough:   # every ordering of 4 and 5 rows in each column position once, against a fixed one
            for n in (4, 5):
                ws = ref.weak_orderings(n)
                for i, w in enumerate(ws):
                    yield [w, ws[(i * 7 + 3) % len(ws)]]

    def check(self, cols, t):
        from copulae import NormalCopula
        from copulae.core import pseudo_obs, rank_data
        n, k = len(cols[0]), len(cols)
        x = np.array(cols, float).T * 1.5 - 2
        for j, ties in enumerate(ref.TIES):
            r = np.array([[float(v) for v in ref.ranks(c, ties)] for c in cols]).T
            want = r / (n + 1)
            for cname, c in [("array", x.copy()), ("fortran", np.asfortranarray(x)), ("list", x.tolist()),
                             ("int", np.array(cols, int).T), ("wide", np.array(cols, np.int64).T + 2 ** 53 - 1),
                             ("small", np.array(cols, np.uint8).T), ("single", np.array(cols, np.float32).T)]:
                before = np.array(c, copy=True)
                t.close(pseudo_obs(c, ties), want, "pobs", ctx=f"{ties} {cname}")
                t.close(rank_data(c, 1, ties), r, "rank columns", ctx=f"{ties} {cname}")
                t.expect(isinstance(pseudo_obs(c, ties), np.ndarray), "type")
                t.expect(np.array_equal(before, np.asarray(c)), "mutated", lambda: f"{ties} {cname}")
            rows = np.array([[float(v) for v in ref.ranks(row, ties)] for row in x.tolist()])
            t.close(rank_data(x, 0, ties), rows, "rank rows", ctx=ties)
            idx = index_of(INDEXES[j], n)
            names = [["b", "a", "c"], [10, 3, 7], ["x", "x", "x"], ["b", "a", "c"], ["q", 1, "z"]][j][:k]
            df = pd.DataFrame(x, index=idx, columns=names)
            keep = df.copy(deep=True)
            for f in (pseudo_obs, NormalCopula.pobs, NormalCopula(2).pobs):
                got = f(df, ties)
                t.expect(isinstance(got, pd.DataFrame), "type", lambda: type(got))
                t.close(got, want, "frame", ctx=ties)
                t.expect(list(got.columns) == names and got.index.equals(idx), "labels",
                         lambda: f"{list(got.columns)} {got.index}")
            t.expect(df.equals(keep) and list(df.columns) == names and df.index.equals(idx), "mutated", "frame")


class Invalid(Model):
    name = "invalid"

    def cases(self):
        for ties in ["", "first", "mean", "rank", "minmax"]:
            for shape in ["v", "m"]:
                yield [ties, shape]
        for nd in (0, 3):
            yield ["average", nd]

    def check(self, case, t):
        from copulae.core import pseudo_obs, rank_data
        ties, shape = case
        x = {"v": np.arange(3.), "m": np.arange(6.).reshape(3, 2), 0: np.array(1.0), 3: np.zeros((2, 2, 2))}[shape]
        t.raises((ValueError, AssertionError, TypeError), lambda: rank_data(x, 1 if shape == "m" else 0, ties), "accepted")
        t.raises((ValueError, AssertionError, TypeError), lambda: pseudo_obs(x, ties), "accepted")


class Sizes(Model):
    """Lengths on both sides of every length that might be treated specially."""
    name = "sizes"
    VALUES = {"whole": lambda v: v, "close": lambda v: 1.0 + v * 2.220446049250313e-16, "scaled": lambda v: v / 7 - 3}

    def cases(self):
        for n in sizes.upto(10 ** 6, True):
            for sh in sizes.SHAPES:
                yield {"n": n, "shape": sh}

    def check(self, case, t):
        from copulae.core import pseudo_obs, rank_data
        n, sh = case["n"], case["shape"]
        a, b = sizes.column(n, sh), sizes.column(n, sh, 1)
        for ties in ref.TIES:
            ra, rb = sizes.ranks(a, ties), sizes.ranks(b, ties)
            for nm, m in self.VALUES.items():
                va, vb = m(a), m(b)
                ctx = "%r %s %s" % (case, ties, nm)
                t.close(pseudo_obs(va, ties), ra / (n + 1), "pobs", 0, 1e-15, ctx=ctx)
                t.close(pseudo_obs(pd.Series(vb), ties), rb / (n + 1), "pobs", 0, 1e-15, ctx=ctx)
                x = np.column_stack([va, vb, va])
                for f in (x, np.asfortranarray(x)) if n > 20000 else (x, np.asfortranarray(x), pd.DataFrame(x), x.tolist()):
                    t.close(pseudo_obs(f, ties), np.column_stack([ra, rb, ra]) / (n + 1), "pobs", 0, 1e-15, ctx=ctx)
                t.close(rank_data(x, 1, ties), np.column_stack([ra, rb, ra]), "ranks", 0, 0, ctx=ctx)
                t.close(rank_data(va, 0, ties), ra, "ranks", 0, 0, ctx=ctx)
        if n <= 300 and sh != "constant":       # and as many columns
            x = np.stack([sizes.column(7, "mixed", k) * 3 - k for k in range(n)], 1)
            for ties in ref.TIES:
                w = np.stack([sizes.ranks(c, ties) for c in x.T], 1) / 8
                t.close(pseudo_obs(x, ties), w, "many columns", 0, 1e-15, ctx="%d columns %s" % (n, ties))
                t.close(pseudo_obs(pd.DataFrame(x), ties), w, "many columns", 0, 1e-15, ctx="%d columns %s" % (n, ties))


MODELS = [Vectors, Matrices, Invalid, Sizes]
RULE = ("one state per weak ordering (vector) or tuple of weak orderings (matrix); each is executed under 5 tie rules, "
        "several containers and several order-preserving value maps and compared with exact rational ranks")
