"""The exchangeability test: every outcome of its coin flips and a lattice of multipliers, on every small sample.

The statistic is recomputed from counts.  With ties the whole tree of coin flips is explored (coins.explore) and the
probability of 'replicate at least as large' must be that of the defining scheme over all 2^n patterns; without ties
the normal multipliers are supplied from a lattice and every replicate is recomputed."""
import itertools
from fractions import Fraction

import numpy as np
import pandas as pd

from .. import coins, env, ref, sizes
from ..core import Model
from .c13 import sorted_weak


def counts(a, b, x, y):
    return sum(1 for p, q in zip(a, b) if p <= x and q <= y)


def stat_counts(a, b, grid):
    """n * |grid| * statistic, an integer"""
    return sum((counts(a, b, x, y) - counts(a, b, y, x)) ** 2 for x, y in grid)


def grid_points(m):
    g = np.linspace(1 / m, 1 - 1 / m, m)
    return [(float(x), float(y)) for y in g for x in g]


def near(levels, m):
    """True when a grid point cannot be told from a level in floating point."""
    g = np.linspace(1 / m, 1 - 1 / m, m)
    d = np.abs(np.subtract.outer(np.asarray(levels, float), g))
    return bool(((d < 1e-9) & (np.abs(g - .5) > 1e-12)).any())


def levels(col, ties):
    n = len(col)
    return [float(r / (n + 1)) for r in ref.ranks(list(col), ties)]


def tie_positions(col):
    return [int(r) - 1 for r in ref.ranks(sorted(col), "average")]


def orders(col, every):
    """Row orders that sort a column: the stable one, or all of them."""
    idx = sorted(range(len(col)), key=lambda i: (col[i], i))
    if not every:
        yield idx
        return
    groups = [list(g) for _, g in itertools.groupby(idx, key=lambda i: col[i])]
    for c in itertools.product(*(list(itertools.permutations(g)) for g in groups)):
        yield [i for g in c for i in g]


def replicates(u, pattern, ir, ties, m, every):
    """All values (in counts) the replicate can take for a pattern of exchanges."""
    rows = [(b, a) if f else (a, b) for (a, b), f in zip(u, pattern)]
    for o1 in orders([r[0] for r in rows], every):
        r1 = [rows[i] for i in o1]
        c0 = [r1[ir[0][j]][0] for j in range(len(r1))]
        for o2 in orders([r[1] for r in r1], every):
            a = [c0[i] for i in o2]
            s = [r1[i][1] for i in o2]
            b = [s[ir[1][j]] for j in range(len(s))]
            ua, ub = levels(a, ties), levels(b, ties)
            yield stat_counts(ua, ub, list(zip(ua, ub)) if m == 0 else grid_points(m))


class Tied(Model):
    name = "tied samples: all coin flips"

    def cases(self):
        for n in (2, 3):
            for x in ref.weak_orderings(n):
                for ties in ("average", "min", "max", "dense"):
                    for m in ((0, 2, 4) if n == 2 else (0, 4)):
                        if n == 3 and ties != "average" and m:
                            continue
                        yield {"x": x, "ties": ties, "m": m, "width": 4, "stride": 1}
        for x in sorted_weak(4):
            for ties in ("average", "max"):
                for k in range(5):
                    yield {"x": x, "ties": ties, "m": 0 if k < 4 else 3, "width": 2, "stride": 5, "offset": k}
        if self.thorough:
            for x in sorted_weak(4):
                for ties in ("average", "min", "dense"):
                    for k in range(5):
                        yield {"x": x, "ties": ties, "m": 0, "width": 4, "stride": 5, "offset": k}
            for x in sorted_weak(5):
                for k in range(8):
                    yield {"x": x, "ties": "average", "m": 0, "width": 2, "stride": 8, "offset": k}
        else:
            for x in ([0, 0, 1, 1, 2], [0, 1, 1, 1, 2], [0, 1, 2, 3, 4]):
                for k in range(4):
                    yield {"x": x, "ties": "average", "m": 0, "width": 2, "stride": 40, "offset": k}

    chunk = 1

    def check(self, case, t):
        x, ties, m = case["x"], case["ties"], case["m"]
        n = len(x)
        for y in ref.weak_orderings(n)[case.get("offset", 0)::case["stride"]]:
            if len(set(x)) == n and len(set(y)) == n:
                continue
            rot = (sum(y) + y[0]) % n
            a, b = x[rot:] + x[:rot], y[rot:] + y[:rot]
            if m and near(levels(a, ties) + levels(b, ties), m):
                continue
            self.one(t, a, b, ties, m, 1, case["width"])
            if len(t.fails) > 10:
                return

    def one(self, t, x, y, ties, m, N, width):
        from copulae.gof import exch_test
        n = len(x)
        u = list(zip(levels(x, ties), levels(y, ties)))
        ua, ub = [p[0] for p in u], [p[1] for p in u]
        g = u if m == 0 else grid_points(m)
        s = stat_counts(ua, ub, g)
        xv, yv = np.array(x) * 1.5 - 1, np.array(y) * -2.0 + 7
        yv = -yv       # increasing in y
        ctx = "x=%r y=%r ties=%s m=%d" % (x, y, ties, m)
        ir = [tie_positions(x), tie_positions(y)]

        def run():
            r = exch_test(xv, yv, N, m, ties)
            return float(r.statistic), float(r.p_value)

        hits, total, uncontrolled = 0.0, 0.0, False
        for w, (st, p), ch in coins.explore(run, width):
            t.close(st, s / (n * len(g)), "statistic", 1e-12, 1e-14, ctx=ctx)
            if not ch:
                uncontrolled = True
                break
            if not t.expect(min(abs(p - .25), abs(p - .75)) < 1e-12, "p-value", lambda: "%s: %r" % (ctx, p)):
                return
            hits += w * (p > .5)
            total += w
        if uncontrolled:
            return self.statistical(t, xv, yv, ties, m, u, ir, s, ctx)
        want = [any(v >= s for v in replicates(u, f, ir, ties, m, False)) for f in itertools.product((0, 1), repeat=n)]
        exact = sum(want) / 2 ** n
        if abs(hits - exact) > 1e-9:
            lo = hi = 0
            for f in itertools.product((0, 1), repeat=n):
                v = list(replicates(u, f, ir, ties, m, True))
                lo += all(k >= s for k in v)
                hi += any(k >= s for k in v)
            t.expect(lo / 2 ** n - 1e-9 <= hits <= hi / 2 ** n + 1e-9, "probability of a replicate at least as large",
                     lambda: "%s: %g, defined as %g (between %g and %g over sorting orders)" % (ctx, hits, exact, lo / 2 ** n, hi / 2 ** n))
        else:
            t.step()

    def statistical(self, t, xv, yv, ties, m, u, ir, s, ctx):
        """Random numbers come from a source the stand-ins do not control."""
        from copulae.gof import exch_test
        n = len(u)
        v = [list(replicates(u, f, ir, ties, m, True)) for f in itertools.product((0, 1), repeat=n)]
        lo, hi = sum(min(k) >= s for k in v) / 2 ** n, sum(max(k) >= s for k in v) / 2 ** n
        N = 1500
        p = (exch_test(xv, yv, N, m, ties).p_value * (N + 1) - .5) / N
        t.expect(lo - .09 <= p <= hi + .09, "frequency of replicates at least as large", lambda: "%s: %g not in [%g, %g]" % (ctx, p, lo, hi))


class Replications(Tied):
    """The p-value for several replications: the full tree of N * n flips."""
    name = "tied samples: several replications"

    def cases(self):
        for n, N in ((2, 2), (2, 3), (2, 4), (3, 2), (3, 3)):
            for x in ref.weak_orderings(n):
                yield {"x": x, "N": N}

    def check(self, case, t):
        from copulae.gof import exch_test
        x, N = case["x"], case["N"]
        n = len(x)
        for y in ref.weak_orderings(n)[::1 if n == 2 else 4]:
            if len(set(x)) == n and len(set(y)) == n:
                continue
            u = list(zip(levels(x, "average"), levels(y, "average")))
            s = stat_counts([p[0] for p in u], [p[1] for p in u], u)
            ir = [tie_positions(x), tie_positions(y)]
            v = [list(replicates(u, f, ir, "average", 0, True)) for f in itertools.product((0, 1), repeat=n)]
            lo, hi = sum(min(k) >= s for k in v) / 2 ** n, sum(max(k) >= s for k in v) / 2 ** n
            if lo != hi:
                continue
            got = {}
            ctx = "x=%r y=%r N=%d" % (x, y, N)
            for w, p, ch in coins.explore(lambda: float(exch_test(x, y, N=N).p_value), 2):
                if not ch:
                    break
                k = p * (N + 1) - .5
                t.expect(abs(k - round(k)) < 1e-9 and 0 <= round(k) <= N, "p-value", lambda: "%s: %r" % (ctx, p))
                got[round(k)] = got.get(round(k), 0) + w
            else:
                from math import comb
                want = [comb(N, k) * lo ** k * (1 - lo) ** (N - k) for k in range(N + 1)]
                t.close([got.get(k, 0) for k in range(N + 1)], want, "distribution of the p-value", 1e-9, 1e-9, ctx=ctx)


class Many(Model):
    """Any number of replications: with constant choices all replicates are alike, so the p-value is known exactly."""
    name = "many equal replicates"

    def cases(self):
        from .c15 import MANY
        for x, y in MANY:
            for N in (1, 7, 64, 999, 1000, 1001, 2500) + ((10000, 30000) if self.thorough else ()):
                for ties in ("average", "min", "max"):
                    yield {"x": x, "y": y, "N": N, "ties": ties}

    def check(self, case, t):
        from copulae.gof import exch_test
        x, y, N = np.array(case["x"]), np.array(case["y"]), case["N"]
        if len(set(case["x"])) == len(x) and len(set(case["y"])) == len(y):
            return
        for m in (0, 3):
            one = coins.constant(lambda: float(exch_test(x, y, 1, m, case["ties"]).p_value))
            got = coins.constant(lambda: float(exch_test(x, y, N, m, case["ties"]).p_value))
            for a, b in zip(one, got):
                if a is not None and b is not None:
                    t.close(b, (N * (a > .5) + .5) / (N + 1), "p-value of equal replicates", 1e-12, 0, ctx="%r m=%d" % (case, m))


def multiplier(u, g, z):
    """One replicate of the multiplier scheme."""
    U, V = u[:, 0], u[:, 1]
    n = len(U)
    h = 1 / np.sqrt(n)
    ind = lambda x, y: (U <= x) & (V <= y)      # noqa
    C = lambda x, y: ind(x, y).mean()           # noqa
    cl = lambda v: min(max(v, h), 1 - h)        # noqa
    d1 = lambda x, y: (C(cl(x) + h, y) - C(cl(x) - h, y)) / (2 * h)     # noqa
    d2 = lambda x, y: (C(x, cl(y) + h) - C(x, cl(y) - h)) / (2 * h)     # noqa
    zc = z - z.mean()
    s = 0.0
    for x, y in g:
        f = 1. * ind(x, y) - d1(x, y) * (U <= x) - d2(x, y) * (V <= y) - ind(y, x) + d1(y, x) * (U <= y) + d2(y, x) * (V <= x)
        s += (zc @ f / np.sqrt(n)) ** 2
    return s / len(g)


class Untied(Model):
    name = "samples without ties: multiplier lattice"
    chunk = 2

    def cases(self):
        for n in (2, 3, 4, 5) if not self.thorough else (2, 3, 4, 5, 6):
            for perm in itertools.permutations(range(n)):
                if n >= 5 and perm[0] % 2 and not self.thorough:
                    continue
                for m in (0, 3, 4) if n < 5 else (0,):
                    yield {"perm": list(perm), "m": m}
        for perm in ([2, 0, 5, 1, 6, 3, 4], [6, 5, 4, 3, 2, 1, 0, 7], [3, 6, 0, 8, 1, 7, 2, 5, 4], [4, 9, 0, 2, 8, 6, 1, 3, 7, 5]):
            yield {"perm": perm, "m": 0}

    def check(self, case, t):
        from copulae.gof import exch_test
        perm, m = case["perm"], case["m"]
        n = len(perm)
        rows = [(i, perm[i]) for i in range(n)]
        rows = rows[1::2] + rows[::2]
        x, y = np.array([r[0] for r in rows]) * 2. - 1, np.array([r[1] for r in rows]) * .5
        u = np.column_stack([levels(x, "average"), levels(y, "average")])
        if m and near(u.ravel(), m):
            return
        g = [tuple(r) for r in u] if m == 0 else grid_points(m)
        s = stat_counts(u[:, 0], u[:, 1], g) / (n * len(g))
        base = [-1.25, .375, 2.0]
        if n <= 4:
            zs = [np.array(z) for z in itertools.product(base, repeat=n)]
        else:
            zs = [np.roll(np.array((base * 2 * n)[k:k + n]) * (1 + k % 3), k) + np.arange(n) * .125 * ((-1) ** k) for k in range(24)]
        # with multipliers that small or large some replicates land on either side of the statistic
        zs = [z * c for z in zs[:: 1 if n < 4 else 2] for c in (.3, 1.1)]
        want = np.array([multiplier(u, g, z) for z in zs])
        src = {"k": 0}

        def normal(orig, *a, **k):
            loc = a[0] if a else k.get("loc", 0.0)
            scale = a[1] if len(a) > 1 else k.get("scale", 1.0)
            size = a[2] if len(a) > 2 else k.get("size")
            return loc + scale * draw(size)

        def standard(orig, size=None):
            return draw(size)

        def randn(orig, *shape):
            return draw(shape)

        def draw(size):
            size = (size,) if np.ndim(size) == 0 else tuple(size)
            if size == (n,):
                src["k"] += 1
                return src["zs"][(src["k"] - 1) % len(src["zs"])].copy()
            if size == (src["N"], n):
                src["k"] += src["N"]
                return np.array(src["zs"])
            src["bad"] = True
            return np.zeros(size)
        h = {"np_random_normal": normal, "np_random_standard_normal": standard, "np_random_randn": randn}

        def run(batch):
            src.update(k=0, zs=batch, N=len(batch), bad=False)
            with env.handle(**h):
                return exch_test(x, y, len(batch), m)
        r = run(zs)
        t.close(r.statistic, s, "statistic", 1e-12, 1e-14, ctx=repr(case))
        if src["k"] != len(zs) or src["bad"]:
            # another source of normals: judge the frequency only
            N = 3000
            rng = np.random.default_rng(5)
            q = np.mean([multiplier(u, g, rng.normal(size=n)) >= s for _ in range(N)])
            p = (exch_test(x, y, N, m).p_value * (N + 1) - .5) / N
            t.expect(abs(p - q) < .08, "frequency of replicates at least as large", lambda: "%r: %g instead of %g" % (case, p, q))
            return
        clear = np.abs(want - s) > 1e-9
        low, high = (want[clear] > s).sum(), (want[clear] > s).sum() + (~clear).sum()
        cnt = r.p_value * (len(zs) + 1) - .5
        t.expect(low - 1e-6 <= cnt <= high + 1e-6 and abs(cnt - round(cnt)) < 1e-6, "p-value over all multipliers",
                 lambda: "%r: %r replicates at least as large, defined %d..%d" % (case, cnt, low, high))
        if n <= 5 and sum(perm[:2]) % 2:           # the same multipliers over and over
            for k in (3, 1 + 1500 // len(zs)):
                many = run(zs * k)
                cnt = many.p_value * (len(zs) * k + 1) - .5
                t.expect(k * low - 1e-6 <= cnt <= k * high + 1e-6 and abs(cnt - round(cnt)) < 1e-6, "p-value over many multipliers",
                         lambda: "%r: %r replicates of %d at least as large, defined %d..%d" % (case, cnt, len(zs) * k, k * low, k * high))
        for z, w in list(zip(zs, want))[:: max(1, len(zs) // 40)]:
            if abs(w - s) > 1e-9:
                p = run([z]).p_value
                t.close(p, .75 if w > s else .25, "replicate", 1e-12, 0, ctx="%r z=%r replicate %r statistic %r" % (case, z.tolist(), w, s))


class Symmetry(Model):
    """Swapping the variables, increasing transformations, row order, containers, defaults, invalid arguments."""
    name = "invariances and arguments"

    def cases(self):
        for n in (2, 3, 4):
            for x in sorted_weak(n):
                for y in ref.weak_orderings(n):
                    yield {"x": x, "y": y}
        yield {"errors": 1}

    def check(self, case, t):
        from copulae.gof import exch_test
        if "errors" in case:
            v = np.array([.1, .5, .2])
            for kw in ({"N": 0}, {"N": -1}, {"N": 2.5}, {"m": -1}, {"m": .5}):
                t.raises(Exception, lambda: exch_test(v, v[::-1], **kw), "invalid argument accepted", repr(kw))
            t.raises(Exception, lambda: exch_test(np.ones((3, 2)), np.ones((3, 2))), "matrices accepted")
            t.raises(Exception, lambda: exch_test(v, v[:2]), "different lengths accepted")
            return
        x, y = np.array(case["x"], float), np.array(case["y"], float)
        n = len(x)
        if n == 4 and (sum(case["y"]) + case["x"][-1]) % 2 and not self.thorough:
            return
        for ties in ("average", "max", "ordinal"):
            u = list(zip(levels(x, ties), levels(y, ties)))
            s = stat_counts([p[0] for p in u], [p[1] for p in u], u) / (n * n)
            forms = [("swap", y, x), ("exp", np.exp(x), y ** 3 - 5), ("reversed", x[::-1], y[::-1])] if ties != "ordinal" else [("swap", y, x)]
            forms += [("list", x.tolist(), y.tolist()), ("int", x.astype(int), y.astype(int)), ("series", pd.Series(x, index=range(5, 5 + n)), pd.Series(y)),
                      ("float32", x.astype("float32"), y.astype("float32"))]
            for nm, a, b in forms:
                before = np.array(a), np.array(b)
                r = exch_test(a, b, N=2, ties=ties)
                t.close(r.statistic, s, "statistic", 1e-12, 1e-14, ctx="%r %s %s" % (case, nm, ties))
                t.expect(np.array_equal(before[0], np.asarray(a)) and np.array_equal(before[1], np.asarray(b)), "sample changed")
                t.expect(any(abs(r.p_value * 3 - k - .5) < 1e-9 for k in (0, 1, 2)), "p-value", lambda: repr(r.p_value))
            for m in (1, 2, 5):
                if not near(levels(x, ties) + levels(y, ties), m):
                    a, b = levels(x, ties), levels(y, ties)
                    g = grid_points(m)
                    for p, q in ((x, y), (y, x)):
                        t.close(exch_test(p, q, N=1, m=m, ties=ties).statistic, stat_counts(a, b, g) / (n * len(g)), "grid statistic", 1e-12, 1e-14,
                                ctx="%r m=%d" % (case, m))
        r = exch_test(x, y)
        k = r.p_value * 1001 - .5
        t.expect(abs(k - round(k)) < 1e-6 and 0 <= round(k) <= 1000, "default number of replications", lambda: repr(r.p_value))


def stat_fast(a, b, g):
    """n * |g| * statistic, counted with arrays."""
    tot = 0
    for x, y in g:
        tot += int(((a <= x) & (b <= y)).sum() - ((a <= y) & (b <= x)).sum()) ** 2
    return tot


class Sizes(Model):
    """The statistic and simple replicates on both sides of every length that might be treated specially."""
    name = "sizes"
    chunk = 1

    def cases(self):
        top = 4097 if self.thorough else 1025
        for n in sizes.upto(top, True)[::-1]:
            if n > 1:
                for sh in sizes.SHAPES if n < 600 else ("mixed", "few levels", "down"):
                    yield {"n": n, "shape": sh}
        for m in (1, 2, 3, 7, 10, 16, 17, 31, 32, 33, 50, 51, 64, 65, 99, 100, 101):
            yield {"n": 29, "shape": "mixed", "m": m}
            yield {"n": 29, "shape": "few levels", "m": m}

    def check(self, case, t):
        from copulae.gof import exch_test
        n, sh, m = case["n"], case["shape"], case.get("m", 0)
        x = sizes.column(n, sh)
        for y, nm in ((sizes.column(n, "mixed", 1), "ties"), (x[::-1], "reversed"), ((np.arange(n) * sizes.stride(n) + n // 3) % n, "untied"),
                      (sizes.column(n, "runs", 2), "runs")):
            for ties in ("average", "max", "ordinal") if n < 300 else ("average",):
                a, b = sizes.ranks(x, ties) / (n + 1), sizes.ranks(y, ties) / (n + 1)
                if m and near(np.r_[a, b], m):
                    continue
                g = list(zip(a, b)) if m == 0 else grid_points(m)
                want = stat_fast(a, b, g) / (n * len(g))
                for p, q in ((x, y), (y, x)) if ties != "ordinal" else ((x, y),):
                    r = exch_test(p * 1.5 - 7, q, 1, m, ties)
                    t.close(r.statistic, want, "statistic", 1e-11, 1e-13, ctx="%r %s %s" % (case, nm, ties))
                    t.expect(min(abs(r.p_value - .25), abs(r.p_value - .75)) < 1e-12, "p-value", lambda: "%r: %r" % (case, r.p_value))
        # rows that come in identical pairs: exchanging nothing, or everything, reproduces the statistic
        k = n // 2
        if k > 1 and not m:
            o = sizes.column(2 * k, "mixed") if k > 2 else np.arange(2 * k)
            u, v = sizes.column(k, "up"), (np.arange(k) * sizes.stride(k) + k // 3) % k
            u, v = np.repeat(u, 2)[o], np.repeat(v, 2)[o]
            p = coins.constant(lambda: float(exch_test(u, v, 2).p_value))
            if p[0] is not None:
                t.close([p[0], p[-1]], [2.5 / 3] * 2, "replicates without or with every exchange", 1e-12, 0, ctx=repr(case))
        # no ties at all: given multipliers
        if n <= 129 and sh == "mixed" or n in (255, 256, 257, 513, 1025) and sh == "mixed":
            y = (np.arange(n) * sizes.stride(n) + n // 3) % n
            if len(set(x)) < n or len(set(y)) < n:
                return
            u = np.column_stack([x + 1., y + 1.]) / (n + 1)
            if m and near(u.ravel(), m):
                return
            g = [tuple(r) for r in u] if m == 0 else grid_points(m)
            s = stat_fast(u[:, 0], u[:, 1], g) / (n * len(g))
            i = np.arange(n)
            for c in (.5, 1.5):
                z = c * (((i * 7 + i * i // 3) % 11) / 4 - 1.2)
                want = multiplier(u, g, z)
                used = []

                def normal(orig, loc=0., scale=1., size=None):
                    used.append(np.prod(size) == n)
                    return z.copy().reshape(size) if used[-1] else orig(loc, scale, size)
                with env.handle(np_random_normal=normal):
                    p = exch_test(x, y, 1, m).p_value
                if used == [True] and abs(want - s) > 1e-9:
                    t.close(p, .75 if want > s else .25, "replicate", 1e-12, 0, ctx="%r: replicate %r statistic %r" % (case, want, s))


MODELS = [Tied, Replications, Many, Untied, Symmetry, Sizes]
RULE = ("states: blocks of samples (every pair of weak orders up to 4 (5) observations, every permutation up to 5 (6)); transitions: executions of "
        "the test, one per outcome of the random choices it makes, and the comparisons of their p-values with exact counts")
ASSUMPTIONS = ["uniform variates are represented by 0, the neighbours of 1/2 and 1", "where rows tie, any order of the tied rows while sorting is accepted",
               "grid points that coincide with a level up to rounding are left out", "ordinal ranks of tied data are judged for the statistic only"]
