"""The radial symmetry test: every outcome of its coin flips on every small sample in two and three dimensions.

The statistic is recomputed from counts; the whole tree of coin flips is explored (coins.explore) and the probability
of 'replicate at least as large' must be that of the defining scheme over all 2^n patterns of reflected rows."""
import itertools
from math import comb

import numpy as np
import pandas as pd

from .. import coins, ref, sizes
from ..core import Model
from .c13 import sorted_weak
from .c14 import levels, orders, tie_positions


def stat_counts(cols):
    """n^2 * statistic, an integer; levels are doubles and compared as such."""
    rows = list(zip(*cols))
    tot = 0
    for k in rows:
        d = 0
        for i in rows:
            d += all(a <= b for a, b in zip(i, k))
            d -= all(1.0 - a <= b for a, b in zip(i, k))
        tot += d * d
    return tot


def exact_counts(ranks, n):
    rows = list(zip(*ranks))
    tot = 0
    for k in rows:
        d = sum(all(a <= b for a, b in zip(i, k)) - all(n + 1 - a <= b for a, b in zip(i, k)) for i in rows)
        tot += d * d
    return tot


def has_ties(cols):
    return any(len(set(c)) < len(c) for c in cols)


def replicates(rk, pattern, ir, ties, tied, every):
    """All values (in counts) a replicate can take; rk: the ranks of each column."""
    n = len(rk[0])
    rows = [tuple(n + 1 - v for v in r) if f else tuple(r) for r, f in zip(zip(*rk), pattern)]

    def go(rows, i):
        if i == len(rk) or not tied:
            yield stat_counts([levels([r[j] for r in rows], ties) for j in range(len(rk))])
            return
        for o in orders([r[i] for r in rows], every):
            s = [rows[k] for k in o]
            yield from go([tuple(s[ir[i][j]][i] if c == i else v for c, v in enumerate(s[j])) for j in range(n)], i + 1)
    return go(rows, 0)


def probability(rk, ir, ties, tied, s, every):
    n = len(rk[0])
    lo = hi = 0
    for f in itertools.product((0, 1), repeat=n):
        v = [k >= s for k in replicates(rk, f, ir, ties, tied, every)]
        lo += all(v)
        hi += any(v)
    return lo / 2 ** n, hi / 2 ** n


class Flips(Model):
    name = "all coin flips of one replicate"
    chunk = 1

    def cases(self):
        for n in (2, 3):
            for x in ref.weak_orderings(n):
                for ties in ("average", "min", "max", "dense"):
                    yield {"x": x, "d": 2, "ties": ties, "width": 4, "stride": 1}
        for x in sorted_weak(2) + [[1, 0]]:
            for ties in ("average", "max"):
                yield {"x": x, "d": 3, "ties": ties, "width": 4, "stride": 1}
        for d in (4, 5):
            for x in sorted_weak(2) + [[1, 0]]:
                for ties in ("average", "max"):
                    yield {"x": x, "d": d, "ties": ties, "width": 2, "stride": 1}
            for x in sorted_weak(3):
                for k in range(2):
                    yield {"x": x, "d": d, "ties": "average", "width": 2, "stride": 13 ** (d - 1) // (20 if self.thorough else 6), "offset": k}
        for x in sorted_weak(3):
            for k in range(4):
                yield {"x": x, "d": 3, "ties": "average", "width": 2, "stride": 4 if self.thorough else 16, "offset": k}
        for x in sorted_weak(4):
            for ties in ("average", "max", "min", "dense"):
                for k in range(5):
                    if ties in ("min", "dense") and not self.thorough and k:
                        continue
                    yield {"x": x, "d": 2, "ties": ties, "width": 2, "stride": 5 if self.thorough or ties in ("average", "max") else 20, "offset": k}
        big = sorted_weak(5) if self.thorough else [[0, 0, 1, 1, 2], [0, 1, 1, 1, 2], [0, 1, 2, 3, 4], [0, 0, 0, 0, 1]]
        for x in big:
            for k in range(8):
                yield {"x": x, "d": 2, "ties": "average", "width": 2, "stride": 8 if self.thorough else 48, "offset": k}

    def check(self, case, t):
        x, d = case["x"], case["d"]
        n = len(x)
        rest = list(itertools.product(ref.weak_orderings(n), repeat=d - 1))
        for ys in rest[case.get("offset", 0)::case["stride"]]:
            rot = sum(ys[0]) % n
            cols = [c[rot:] + c[:rot] for c in (x,) + ys]
            self.one(t, cols, case["ties"], case["width"])
            if len(t.fails) > 10:
                return

    def one(self, t, cols, ties, width):
        from copulae.gof import rad_sym_test
        n = len(cols[0])
        data = np.column_stack([np.array(c) * (1.5 + j) - j for j, c in enumerate(cols)])
        rk = [ref.ranks(c, ties) for c in cols]
        s = stat_counts([levels(c, ties) for c in cols])
        ir = [tie_positions(c) for c in cols]
        tied = has_ties(cols)
        ctx = "columns=%r ties=%s" % (cols, ties)

        def run():
            r = rad_sym_test(data, 1, ties)
            return float(r.statistic), float(r.p_value)
        hits, total = 0.0, 0.0
        for w, (st, p), ch in coins.explore(run, width):
            t.close(st, s / n ** 2, "statistic", 1e-12, 1e-14, ctx=ctx)
            if not ch:
                lo, hi = probability(rk, ir, ties, tied, s, True)
                N = 1500
                q = (rad_sym_test(data, N, ties).p_value * (N + 1) - .5) / N
                t.expect(lo - .09 <= q <= hi + .09, "frequency of replicates at least as large", lambda: "%s: %g not in [%g, %g]" % (ctx, q, lo, hi))
                return
            if not t.expect(min(abs(p - .25), abs(p - .75)) < 1e-12, "p-value", lambda: "%s: %r" % (ctx, p)):
                return
            hits += w * (p > .5)
            total += w
        exact, _ = probability(rk, ir, ties, tied, s, False)
        if abs(hits - exact) > 1e-9:
            lo, hi = probability(rk, ir, ties, tied, s, True)
            t.expect(lo - 1e-9 <= hits <= hi + 1e-9, "probability of a replicate at least as large",
                     lambda: "%s: %g, defined as %g (between %g and %g over sorting orders)" % (ctx, hits, exact, lo, hi))
        else:
            t.step()


class Replications(Model):
    name = "all coin flips of several replicates"
    chunk = 1

    def cases(self):
        for n, N in ((2, 2), (2, 3), (2, 4), (3, 2), (3, 3)):
            for x in ref.weak_orderings(n):
                yield {"x": x, "N": N}

    def check(self, case, t):
        from copulae.gof import rad_sym_test
        x, N = case["x"], case["N"]
        n = len(x)
        for y in ref.weak_orderings(n)[::1 if n == 2 else 4]:
            cols = [x, y]
            s = stat_counts([levels(c, "average") for c in cols])
            lo, hi = probability([ref.ranks(c, "average") for c in cols], [tie_positions(c) for c in cols], "average", has_ties(cols), s, True)
            if lo != hi:
                continue
            got = {}
            ctx = "x=%r y=%r N=%d" % (x, y, N)
            data = np.column_stack(cols)
            for w, p, ch in coins.explore(lambda: float(rad_sym_test(data, N=N).p_value), 2):
                if not ch:
                    break
                k = p * (N + 1) - .5
                t.expect(abs(k - round(k)) < 1e-9 and 0 <= round(k) <= N, "p-value", lambda: "%s: %r" % (ctx, p))
                got[round(k)] = got.get(round(k), 0) + w
            else:
                want = [comb(N, k) * lo ** k * (1 - lo) ** (N - k) for k in range(N + 1)]
                t.close([got.get(k, 0) for k in range(N + 1)], want, "distribution of the p-value", 1e-9, 1e-9, ctx=ctx)


class Many(Model):
    """Any number of replications: with constant choices all replicates are alike, so the p-value is known exactly."""
    name = "many equal replicates"

    def cases(self):
        for x, y in MANY:
            for N in (1, 7, 64, 999, 1000, 1001, 2500) + ((10000, 30000) if self.thorough else ()):
                for ties in ("average", "min", "max"):
                    yield {"x": x, "y": y, "N": N, "ties": ties}

    def check(self, case, t):
        from copulae.gof import rad_sym_test
        data = np.column_stack([case["x"], case["y"]])
        N = case["N"]
        one = coins.constant(lambda: float(rad_sym_test(data, N=1, ties=case["ties"]).p_value))
        got = coins.constant(lambda: float(rad_sym_test(data, N=N, ties=case["ties"]).p_value))
        for a, b in zip(one, got):
            if a is not None and b is not None:
                t.close(b, (N * (a > .5) + .5) / (N + 1), "p-value of equal replicates", 1e-12, 0, ctx=repr(case))


MANY = [([0, 1, 2], [0, 1, 2]), ([0, 1, 2], [1, 0, 2]), ([0, 0, 1], [0, 1, 2]), ([0, 0, 1], [0, 1, 1]), ([0, 1, 2, 3], [2, 0, 3, 1]), ([0, 0, 1, 2], [1, 2, 0, 0]),
        ([0, 0, 0, 1], [0, 0, 1, 1]), ([0, 1, 1, 1, 2], [2, 0, 0, 1, 1])]


class Invariances(Model):
    name = "invariances and arguments"

    def cases(self):
        for n in (2, 3, 4):
            for x in sorted_weak(n):
                for y in ref.weak_orderings(n):
                    yield {"cols": [x, y]}
        for n in (2, 3):
            for x in sorted_weak(n):
                for y in ref.weak_orderings(n):
                    for z in ref.weak_orderings(n)[:: 1 if n == 2 else 3]:
                        yield {"cols": [x, y, z]}
        yield {"cols": [[0, 1, 2], [1, 0, 2], [2, 1, 0], [0, 0, 1]]}
        yield {"cols": [[0, 1, 2]]}
        yield {"cols": [[0, 1, 1, 2]]}
        yield {"errors": 1}

    def check(self, case, t):
        from copulae.gof import rad_sym_test
        if "errors" in case:
            v = np.array([[.1, .3], [.5, .2], [.2, .9]])
            for kw in ({"N": 0}, {"N": -1}, {"N": 2.5}):
                t.raises(Exception, lambda: rad_sym_test(v, **kw), "invalid argument accepted", repr(kw))
            t.raises(Exception, lambda: rad_sym_test(v[:, 0]), "vector accepted")
            t.raises(Exception, lambda: rad_sym_test(v[None]), "cube accepted")
            return
        cols = case["cols"]
        n, d = len(cols[0]), len(cols)
        if n == 4 and sum(map(sum, cols)) % 2 and not self.thorough:
            return
        data = np.column_stack(cols).astype(float)
        for ties in ("average", "max", "min", "dense", "ordinal"):
            s = stat_counts([levels(c, ties) for c in cols]) / n ** 2
            forms = [("plain", data), ("list", data.tolist()), ("int", data.astype(int)), ("frame", pd.DataFrame(data, index=range(3, 3 + n))),
                     ("float32", data.astype("float32")), ("F", np.asfortranarray(data))]
            if d > 1:
                forms.append(("columns", data[:, ::-1]))
            if ties != "ordinal":
                forms += [("transformed", np.column_stack([[np.exp, np.cbrt, lambda v: 3 * v - 7, np.arctan][j](data[:, j]) for j in range(d)])),
                          ("rows", data[::-1]), ("rotated", np.roll(data, 1, 0))]
            for nm, a in forms:
                before = np.array(a)
                r = rad_sym_test(a, N=2, ties=ties)
                t.close(r.statistic, s, "statistic", 1e-12, 1e-14, ctx="%r %s %s" % (case, nm, ties))
                t.expect(np.array_equal(before, np.asarray(a)), "sample changed")
                t.expect(any(abs(r.p_value * 3 - k - .5) < 1e-9 for k in (0, 1, 2)), "p-value", lambda: repr(r.p_value))
        r = rad_sym_test(data)
        t.close(r.statistic, stat_counts([levels(c, "average") for c in cols]) / n ** 2, "default ties", 1e-12, 1e-14, ctx=repr(case))
        k = r.p_value * 1001 - .5
        t.expect(abs(k - round(k)) < 1e-6 and 0 <= round(k) <= 1000, "default number of replications", lambda: repr(r.p_value))


class Exact(Model):
    """Levels k/(n+1) and 1 - k/(n+1) that coincide must compare as equal (a fixed, small set of samples)."""
    name = "reflected levels that coincide"
    chunk = 1

    def cases(self):
        for n in range(2, 13):
            yield {"n": n, "shape": "comonotone"}
            yield {"n": n, "shape": "countermonotone"}

    def check(self, case, t):
        from copulae.gof import rad_sym_test
        n = case["n"]
        x = list(range(n))
        y = x if case["shape"] == "comonotone" else x[::-1]
        want = exact_counts([ref.ranks(x, "average"), ref.ranks(y, "average")], n) / n ** 2
        t.close(rad_sym_test(np.column_stack([x, y]), N=1).statistic, want, "statistic", 1e-12, 1e-14, ctx=repr(case))


class Sizes(Model):
    """The statistic on both sides of every length that might be treated specially, and in more dimensions."""
    name = "sizes"
    chunk = 1

    def cases(self):
        for n in sizes.upto(4097 if self.thorough else 1025, True)[::-1]:
            for sh in sizes.SHAPES if n < 600 else ("mixed", "few levels", "down"):
                for d in (1, 2, 3, 6) if n < 260 else (2,):
                    yield {"n": n, "shape": sh, "d": d}
        for d in (8, 9, 10, 12, 16, 17, 20):
            yield {"n": 40, "shape": "few levels", "d": d}
            yield {"n": 41, "shape": "mixed", "d": d}

    def check(self, case, t):
        from copulae.gof import rad_sym_test
        n, sh, d = case["n"], case["shape"], case["d"]
        i = np.arange(n)
        base = sizes.column(n, sh)
        for nm in ("turned", "alike"):
            x = np.column_stack([base] + [sizes.column(n, sh if k % 2 else "mixed", k) if nm == "turned" else base + (i % (k + 2) == 0) for k in range(1, d)])
            for ties in ("average", "max", "ordinal") if n < 300 else ("average",):
                u = np.stack([sizes.ranks(c, ties) for c in x.T], 1) / (n + 1)
                tot = 0
                for row in u:
                    tot += int((u <= row).all(1).sum() - (1.0 - u <= row).all(1).sum()) ** 2
                for cols in (list(range(d)), list(range(d))[::-1]):
                    r = rad_sym_test(x[:, cols] * 1.5 - 7, 1, ties)
                    t.close(r.statistic, tot / n ** 2, "statistic", 1e-11, 1e-13, ctx="%r %s %s" % (case, nm, ties))
                    t.expect(min(abs(r.p_value - .25), abs(r.p_value - .75)) < 1e-12, "p-value", lambda: "%r: %r" % (case, r.p_value))
        # reflecting nothing reproduces the statistic; rows come in identical pairs, or not
        for x in (np.column_stack([(i * sizes.stride(n) * (k + 1) + k) % n if k else i for k in range(d)]),
                  np.column_stack([np.repeat((i * sizes.stride(n) + k * n // 3) % n, 2) for k in range(d)])):
            p = [v for v in coins.constant(lambda: float(rad_sym_test(x, 2).p_value)) if v is not None]
            t.expect(not p or max(abs(p[0] - 2.5 / 3), 0) < 1e-12 or abs(p[-1] - 2.5 / 3) < 1e-12, "replicates without a reflection", lambda: "%r: %r" % (case, p))


MODELS = [Flips, Replications, Many, Invariances, Exact, Sizes]
RULE = ("states: blocks of samples (all weak orders per column up to 3-5 observations, two and three columns); transitions: executions of the test, "
        "one per outcome of its coin flips, and the comparisons of their statistics and p-values with counts")
ASSUMPTIONS = ["uniform variates are represented by 0, the neighbours of 1/2 and 1", "where rows tie, any order of the tied rows while sorting is accepted",
               "levels are compared as doubles in the statistic (1 - k/(n+1) against m/(n+1)); the model 'reflected levels that coincide' lists where this differs from exact arithmetic",
               "ordinal ranks of tied data are judged for the statistic only"]
