"""Empirical copulas against their defining sums: every small rank configuration (ties included) x smoothing x tie rule x offset x
query lattice, every sequence of later setting changes, draws and marginal mappings."""
import itertools
import math
from fractions import Fraction
from functools import lru_cache

import numpy as np
import pandas as pd

from .. import ref, sizes
from ..core import Model

SMOOTH = (None, "none", "beta", "checkerboard")


@lru_cache(maxsize=None)
def beta_cdf(a2, b2, v):
    """Regularised incomplete beta at (a2/2, b2/2): exact binomial sum for integers, SciPy's betainc otherwise."""
    if v <= 0:
        return 0.0
    if v >= 1:
        return 1.0
    if a2 % 2 == 0 and b2 % 2 == 0:
        a, b = a2 // 2, b2 // 2
        x, m = Fraction(v), a + b - 1
        return float(sum(math.comb(m, j) * x ** j * (1 - x) ** (m - j) for j in range(a, m + 1)))
    from scipy.special import betainc
    return float(betainc(a2 / 2, b2 / 2, v))


@lru_cache(maxsize=None)
def beta_pdf(a2, b2, v):
    a, b = a2 / 2, b2 / 2
    lead = math.lgamma(a + b) - math.lgamma(a) - math.lgamma(b)
    p = (v ** (a - 1) if not (v == 0 and a < 1) else math.inf) * ((1 - v) ** (b - 1) if not (v == 1 and b < 1) else math.inf)
    return math.exp(lead) * p


def rank_rows(data, ties):
    return np.array([[float(r) for r in ref.ranks(list(c), ties)] for c in np.asarray(data, float).T]).T


def ref_cdf(data, x, smoothing, ties, offset):
    r = rank_rows(data, ties)
    n, d = r.shape
    out = []
    for q in x:
        s = 0.0
        for row in r:
            p = 1.0
            for rk, v in zip(row, q):
                if smoothing in (None, "none"):
                    p *= float(rk / (n + 1) <= v)
                elif smoothing == "beta":
                    p *= beta_cdf(int(2 * rk), int(2 * (n + 1 - rk)), float(v))
                else:
                    p *= min(max(n * v - rk + 1, 0.0), 1.0)
                if p == 0:
                    break
            s += p
        out.append(s / (n + offset))
    return np.array(out)


def ref_pdf(data, x, ties, offset):
    r = rank_rows(data, ties)
    n, d = r.shape
    return np.array([sum(math.prod(beta_pdf(int(2 * rk), int(2 * (n + 1 - rk)), float(v)) for rk, v in zip(row, q)) for row in r) / (n + offset)
                     for q in x])


def axis(n, fine):
    k = np.arange(1, n + 1) / (n + 1)
    a = {0.0, 1.0, *k}
    if fine:
        a |= set(np.nextafter(k, 0)) | set((np.arange(n + 1) + .5) / (n + 1)) | {1 / (n + 2), .93}
    else:
        a |= {1.5 / (n + 1), .93}
    return sorted(a)


def sorted_weak(n):
    return [w for w in ref.weak_orderings(n) if w == sorted(w)]


class Sums(Model):
    name = "defining sums"

    def cases(self):
        for n in (1, 2, 3):
            for a in ref.weak_orderings(n):
                yield {"n": n, "first": a, "d": 2}
        for n in (2, 3):
            for a in sorted_weak(n):
                yield {"n": n, "first": a, "d": 3}
        for n in (4, 5) if self.thorough else (4,):
            for a in sorted_weak(n):
                yield {"n": n, "first": a, "d": 2}
        yield {"n": 2, "first": [0, 1], "d": 4}

    chunk = 1

    def check(self, case, t):
        from copulae.empirical import EmpiricalCopula
        n, d = case["n"], case["d"]
        others = ref.weak_orderings(n)
        if n >= 4 and not self.thorough:
            others = others[::4] + [w for w in others if len(set(w)) <= 2]
        x = np.array(list(itertools.product(axis(n, d == 2 and n <= 3), repeat=d)))
        x = x[:, :]
        if len(x) > 150:
            x = x[:: len(x) // 150 + 1]
        inner = x[((x > 0) & (x < 1)).all(1)]
        for rest in itertools.product(others, repeat=d - 1):
            data = np.array([case["first"], *rest], float).T * 3 - 1
            tied = any(len(set(c)) < n for c in data.T)
            for ties in (ref.TIES if tied else ("average", "ordinal")):
                for offset in (0, 1.5):
                    for sm in SMOOTH[1:]:
                        e = EmpiricalCopula(data, smoothing=sm, ties=ties, offset=offset)
                        want = ref_cdf(data, x, sm, ties, offset)
                        t.close(e.cdf(x) if len(x) > 1 else [e.cdf(x)], want, "cdf %s" % sm, 1e-10, 1e-12,
                                ctx="%r ties=%s offset=%s" % (data.tolist(), ties, offset))
                    e = EmpiricalCopula(data, smoothing="beta", ties=ties, offset=offset)
                    want = ref_pdf(data, inner, ties, offset)
                    t.close(e.pdf(inner), want, "pdf", 1e-9, 1e-12, ctx="%r ties=%s offset=%s" % (data.tolist(), ties, offset))
                    few = inner[::7]
                    t.close(np.atleast_1d(e.pdf(few, log=True)), np.log(want[::7]), "log pdf", 1e-8, 1e-9,
                            ctx="%r ties=%s offset=%s" % (data.tolist(), ties, offset))
            if len(t.fails) > 10:
                return


BASE = np.array([[1.5, 2, 0], [1.5, -1, 4], [0, 7, 4], [3, 2, -2], [0, 2, 1]])
Q = np.array(list(itertools.product((0, 1 / 6, .31, 2.5 / 6, 4 / 6, .99, 1), repeat=2)))


class Settings(Model):
    """Later changes of smoothing and tie rule act as if built that way."""
    name = "setting histories"

    def cases(self):
        ops = [["s", s] for s in SMOOTH] + [["t", r] for r in ref.TIES] + [["eval"], ["draw"], ["bad"], ["summary"]]
        starts = [(s, r, o) for s in (None, "beta", "checkerboard") for r in ("average", "max") for o in (0, 1)]
        depth = 3 if self.thorough else 2
        for st in starts:
            for n in range(depth + 1):
                for seq in itertools.product(ops, repeat=n):
                    yield {"start": list(st), "ops": [list(o) for o in seq]}

    def check(self, case, t):
        from copulae.empirical import EmpiricalCopula
        s, r, o = case["start"]
        data = BASE[:, :2].copy()
        e = EmpiricalCopula(data, smoothing=s, ties=r, offset=o)
        for op in case["ops"]:
            if op[0] == "s":
                e.smoothing = s = op[1]
            elif op[0] == "t":
                e.ties = r = op[1]
            elif op[0] == "eval":
                e.cdf(Q)
            elif op[0] == "draw":
                e.random(3, 1)
            elif op[0] == "summary":
                str(e.summary())
            else:
                t.raises(Exception, lambda: setattr(e, "smoothing", "cubic"), "bad smoothing accepted")
        t.expect(e.smoothing == (s or "none") and e.ties == r, "settings read back", lambda: "%r %r" % (e.smoothing, e.ties))
        want = ref_cdf(BASE[:, :2], Q, s, r, o)
        t.close(e.cdf(Q), want, "cdf", 1e-10, 1e-12, ctx=repr(case))
        t.close(np.exp(e.cdf(Q, log=True)), want, "log cdf", 1e-9, 1e-12, ctx=repr(case))
        q = Q[((Q > 0) & (Q < 1)).all(1)]
        if s == "beta":
            dens = ref_pdf(BASE[:, :2], q, r, o)
            t.close(e.pdf(q), dens, "pdf", 1e-9, 1e-12, ctx=repr(case))
            t.close(e.pdf(q, log=True), np.log(dens), "log pdf", 1e-8, 1e-9, ctx=repr(case))
        else:
            t.raises(Exception, lambda: e.pdf(q), "density without beta smoothing")
        t.expect(np.array_equal(data, BASE[:, :2]), "data changed")
        for bad in ([1.2, .5], [-.1, .5], [[.2, .3], [.4, 1.5]]):
            t.raises(ValueError, lambda: e.cdf(bad), "level outside the cube accepted", repr(bad))


class Containers(Model):
    name = "containers of the data"

    def cases(self):
        for f in ("list", "tuple", "int", "float32", "fortran", "strided", "frame", "int frame", "mixed frame", "shuffled index"):
            for s in SMOOTH:
                for d in (2, 3):
                    yield {"form": f, "smoothing": s, "d": d}

    def check(self, case, t):
        from copulae.empirical import EmpiricalCopula
        f, s, d = case["form"], case["smoothing"], case["d"]
        x = BASE[:, :d] * 2
        data = {"list": lambda: x.tolist(), "tuple": lambda: tuple(map(tuple, x)), "int": lambda: x.astype(int), "float32": lambda: x.astype("float32"),
                "fortran": lambda: np.asfortranarray(x), "strided": lambda: np.repeat(x, 2, 0)[::2], "frame": lambda: pd.DataFrame(x, columns=list("bac")[:d]),
                "int frame": lambda: pd.DataFrame(x.astype(int), columns=[1, 0, 2][:d]),
                "mixed frame": lambda: pd.DataFrame({"b": x[:, 0].astype(int), "a": x[:, 1], "c": x[:, 2 % d].astype("float32")}).iloc[:, :d],
                "shuffled index": lambda: pd.DataFrame(x, columns=list("bac")[:d], index=[3, 1, 1, 0, 9])}[f]()
        before = np.array(data)
        q = np.array(list(itertools.product((1 / 6, .31, 2.5 / 6, .99), repeat=d)))
        e = EmpiricalCopula(data, s) if s else EmpiricalCopula(data)
        t.close(e.cdf(q), ref_cdf(x, q, s, "average", 0), "cdf", 1e-10, 1e-12, ctx=repr(case))
        if s == "beta":
            t.close(e.pdf(q), ref_pdf(x, q, "average", 0), "pdf", 1e-9, 1e-12, ctx=repr(case))
        t.expect(e.dim == d, "dimension")
        rows = {tuple(r) for r in x.tolist()}
        for n in (1, 2, 400):
            for seed in (0, 1, 7):
                r = e.random(n, seed)
                v = np.asarray(r, float)
                t.expect(v.shape == (n, d) and all(tuple(k) in rows for k in v.tolist()), "draws are rows of the data", lambda: "%r %r" % (case, v[:5].tolist()))
                t.expect(np.array_equal(v, np.asarray(e.random(n, seed), float)), "same seed, same draws", lambda: repr(case))
                if n == 400:
                    c = {k: 0 for k in rows}
                    for k in v.tolist():
                        c[tuple(k)] += 1
                    t.expect(all(40 < m < 130 for m in c.values()), "every row equally likely", lambda: "%r: %r" % (case, c))
                if "frame" in f or "index" in f:
                    t.expect(isinstance(r, pd.DataFrame) and list(r.columns) == list(data.columns), "labels of draws", lambda: repr(case))
        t.expect(np.array_equal(before, np.asarray(data)), "data changed", lambda: repr(case))


class ToMarginals(Model):
    """Mapping levels to order statistics."""
    name = "empirical margins"

    def cases(self):
        for n in (1, 2, 3, 4, 7):
            for a in (sorted_weak(n) if n < 5 else [[0, 1, 2, 3, 4, 5, 6], [0, 0, 1, 1, 1, 2, 3]]):
                for perm in sorted({tuple(range(n)), tuple(range(n))[::-1], tuple(range(n))[1:] + (0,)}):
                    for f in ("array", "frame", "list", "int"):
                        yield {"n": n, "w": a, "perm": list(perm), "form": f}

    def check(self, case, t):
        from copulae.empirical import EmpiricalCopula
        n, f = case["n"], case["form"]
        w = np.array(case["w"], float)
        data = np.column_stack([w[case["perm"]] * 2 - 3, -w * 5 + 1])
        lv = sorted({0.0, 1.0, np.nextafter(1, 0), np.nextafter(0, 1), *(np.arange(1, n + 1) / (n + 1)), *(np.arange(n + 1) / n), *((np.arange(n) + .5) / n), .29, .57})
        u = np.array(list(itertools.product(lv, repeat=2)))
        src = np.sort(data, 0)
        form = {"array": lambda a: a, "frame": lambda a: pd.DataFrame(a, columns=["z", "a"], index=range(4, 4 + len(a))), "list": lambda a: a.tolist(),
                "int": lambda a: a}[f]
        orig = form(data.astype(int) if f == "int" else data.copy())
        uu = form(u.copy())
        before = np.array(orig)
        for how in ("positional", "keyword", "instance"):
            if how == "positional":
                r = EmpiricalCopula.to_marginals(uu, orig)
            elif how == "keyword":
                r = EmpiricalCopula.to_marginals(u=uu, original=orig)
            else:
                r = EmpiricalCopula(data).to_marginals(uu, orig)
            v = np.asarray(r, float)
            if not t.expect(v.shape == u.shape, "shape", lambda: "%r %r" % (case, v.shape)):
                return
            for j in range(2):
                for lvl, got in zip(u[:, j], v[:, j]):
                    ex = Fraction(lvl) * n
                    ks = {min(int(ex), n - 1)}
                    if abs(ex - round(ex)) < Fraction(1, 10 ** 9):
                        ks |= {min(max(round(ex), 0), n - 1), min(max(round(ex) - 1, 0), n - 1)} if lvl not in (0, 1) and ex != round(ex) else set()
                    t.expect(got in {src[k, j] for k in ks}, "order statistic", lambda: "%r %s: level %r -> %r" % (case, how, lvl, got))
                o = np.argsort(u[:, j], kind="stable")
                t.expect((np.diff(v[o, j]) >= 0).all(), "monotone", lambda: repr(case))
            if f == "frame":
                t.expect(isinstance(r, pd.DataFrame) and list(r.columns) == ["z", "a"], "labels", lambda: repr(type(r)))
        t.expect(np.array_equal(before, np.asarray(orig)) and np.array_equal(np.asarray(uu), u), "arguments changed", lambda: repr(case))


class Sizes(Model):
    """Numbers of observations, queries and draws on both sides of every length that might be treated specially."""
    name = "sizes"
    chunk = 1

    def cases(self):
        for n in sizes.upto(10 ** 6 if self.thorough else 5001, True)[::-1]:
            for sh in (sizes.SHAPES if n < 300 else ("mixed", "few levels")):
                yield {"n": n, "shape": sh, "d": 2 if n % 2 else 3}
        for q in sizes.upto(10 ** 6 if self.thorough else 20001, True):
            yield {"n": 6, "shape": "pairs", "d": 2, "queries": q}
        for d in (5, 8, 9, 12):
            yield {"n": 20, "shape": "mixed", "d": d}

    def check(self, case, t):
        from scipy.special import betainc, betaln
        from copulae.empirical import EmpiricalCopula
        n, sh, d = case["n"], case["shape"], case["d"]
        data = np.column_stack([sizes.column(n, sh, k) for k in range(d)]) * 1.5 - 4
        nq = case.get("queries", 30 if n in (1001, 2001) else 14)
        i = np.arange(nq)
        x = np.column_stack([((i * 37 + k * 11 + (i * (k + 1)) // 3) % 101 + .37) / 102 for k in range(d)]) ** (1 if d < 4 else .2)
        small = min(n, nq, 5)
        lv = np.stack([sizes.ranks(c) for c in data.T], 1)[:small] / (n + 1)
        x[:small] = lv                # levels themselves
        if nq > 8:
            x[6], x[7] = 1.0, np.r_[np.ones(d - 1), .5]
        inner = np.clip(x, .003, .997)
        for ties in ("average", "min", "ordinal") if n < 600 else ("average",):
            r = np.stack([sizes.ranks(c, ties) for c in data.T], 1)
            for sm in SMOOTH[1:]:
                if sm == "beta" and n * nq > 10 ** 4 and (n, nq) not in ((6, 10001), (1001, 30), (2001, 30)):
                    continue
                e = EmpiricalCopula(data, smoothing=sm, ties=ties, offset=.5)
                if sm == "none":
                    want = [(r / (n + 1) <= q).all(1).sum() for q in x]
                elif sm == "beta":
                    want = [betainc(r, n + 1 - r, q).prod(1).sum() for q in x]
                else:
                    want = [np.clip(n * q - r + 1, 0, 1).prod(1).sum() for q in x]
                ctx = "%r %s %s" % (case, sm, ties)
                t.close(np.atleast_1d(e.cdf(x)), np.array(want) / (n + .5), "cdf", 1e-9, 1e-12, ctx=ctx)
                if sm == "beta":
                    want = [np.exp(((r - 1) * np.log(q) + (n - r) * np.log1p(-q) - betaln(r, n + 1 - r)).sum(1)).sum() for q in inner]
                    t.close(np.atleast_1d(e.pdf(inner)), np.array(want) / (n + .5), "pdf", 1e-7, 1e-12, ctx=ctx)
        # draws and margins of that many rows
        for k in (n, nq):
            v = np.asarray(e.random(k, 3), float)
            rows = set(map(tuple, data.tolist()))
            t.expect(v.shape == (k, d) and all(tuple(q) in rows for q in v.tolist()), "draws are rows of the data", lambda: repr(case))
        u = (np.arange(nq)[:, None] * 29 % 97 + np.arange(d) * 5 % 3 + .31) / 101
        got = np.asarray(EmpiricalCopula.to_marginals(u, data), float)
        ix = np.minimum(np.floor(u * n + 1e-9), n - 1).astype(int)
        lo = np.minimum(np.floor(u * n - 1e-9), n - 1).astype(int)
        src = np.sort(data, 0)
        t.expect(got.shape == u.shape and all(((got[:, j] == src[ix[:, j], j]) | (got[:, j] == src[lo[:, j], j])).all() for j in range(d)),
                 "order statistics", lambda: repr(case))


MODELS = [Sums, Settings, Containers, ToMarginals, Sizes]
RULE = ("states: (first column's weak order, dimension) blocks completed by every weak order of the other columns, every setting history up to the "
        "depth, every container, every level lattice; transitions: cdf/pdf batches compared with exact sums, draws and margins judged")
ASSUMPTIONS = ["offsets keep rows + offset positive", "half-integer ranks use SciPy's regularised incomplete beta function as reference"]
