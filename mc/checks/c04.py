"""Row-wise, stateless, container-independent evaluation.

Batches: every sequence of up to three rows over an alphabet of seven (interior, both tails, boundary, NaN, outside) is
evaluated as one batch and must equal the singletons.  Containers: every batch of a smaller set in every container, by
position and keyword.  Histories: every sequence of up to three operations before a probe, and every ordered pair of
objects interleaved, must leave results as a fresh process gives them."""
import copy
import itertools

import numpy as np
import pandas as pd

from .. import cops, sizes
from ..core import Model, isolated
from .c03 import noisy

NAN = float("nan")


def dim(s):
    return s.get("d") or len(s["means"][0])


def rows(s):
    d = dim(s)
    if s["f"] in ("marginal", "gmc"):
        r = [[0.5, 1.25, 2.0], [1.0, 0.0, 0.5], [-3.0, 4.0, 1.0], [2.0, 2.0, 3.0], [7.5, 0.1, 0.2], [NAN, 1.0, 1.0],
             [0.0, -1.0, 30.0]]
    else:
        r = [[0.3, 0.6, 0.45], [0.75, 0.2, 0.9], [0.005, 0.9, 0.5], [0.0, 0.5, 0.4], [1.0, 0.4, 0.7], [NAN, 0.5, 0.2],
             [1.5, 0.5, 0.3]]
    return [x[:d] for x in r]


def fns(s):
    if s["f"] != "student":
        yield "cdf"
    if not (s["f"] == "empirical" and s.get("smoothing") != "beta"):
        yield "pdf"


def tolerance(s, fn, log):
    return dict(rtol=0, atol=1e-3 if not log else 0.2) if noisy(s, fn) else dict(rtol=1e-11, atol=1e-14)


def ev(f, x, log):
    """value, or the exception's name"""
    try:
        return np.atleast_1d(np.asarray(f(x, log=log), float))
    except (ValueError, AssertionError) as e:
        return type(e).__name__


class Batches(Model):
    name = "batches"
    chunk = 1

    def cases(self):
        for s in cops.zoo():
            for fn in fns(s):
                for log in (False, True):
                    yield {"s": s, "fn": fn, "log": log}

    def check(self, case, t):
        s, fn, log = case["s"], case["fn"], case["log"]
        f = getattr(cops.make(s), fn)
        R = rows(s)
        single = [ev(f, np.array([r]), log) for r in R]
        tol = tolerance(s, fn, log)
        N = 4 if self.thorough else 3
        for k in range(1, N + 1):
            for seq in itertools.product(range(len(R)), repeat=k):
                if k == 4 and len(set(seq)) > 3:
                    continue
                got = ev(f, np.array([R[i] for i in seq]), log)
                want = [single[i] for i in seq]
                if any(isinstance(w, str) for w in want):
                    t.expect(isinstance(got, str), "rejects", lambda: "%s %s: batch %r accepted, a row alone is rejected" % (s, fn, seq))
                    continue
                if isinstance(got, str):
                    t.fail("accepts", "%s %s: batch %r raises %s, rows alone do not" % (s, fn, seq, got))
                    continue
                t.close(got, np.concatenate(want), "rowwise", ctx="%s %s log=%s rows %r" % (s, fn, log, seq), **tol)
        # no row at all
        d = dim(s)
        for x in (np.empty((0, d)), pd.DataFrame(np.empty((0, d)), columns=list("abcdef")[:d])):
            got = ev(f, x, log)
            t.expect(isinstance(single[0], str) or (not isinstance(got, str) and np.shape(got) == (0,)), "no rows",
                     lambda: "%s %s log=%s on %s without rows: %r" % (s, fn, log, type(x).__name__, got))
        # larger batches: every rotation and reversal of a tiling
        for n in (7, 16, 64, 257):
            idx = [i % len(R) for i in range(n) if not isinstance(single[i % len(R)], str)]
            got = ev(f, np.array([R[i] for i in idx]), log)
            t.close(got, np.concatenate([single[i] for i in idx]), "rowwise", ctx="%s %s log=%s n=%d" % (s, fn, log, n), **tol)
            got = ev(f, np.array([R[i] for i in idx[::-1]]), log)
            t.close(got, np.concatenate([single[i] for i in idx[::-1]]), "rowwise", ctx="%s %s log=%s n=-%d" % (s, fn, log, n), **tol)


def containers(a):
    """(name, object) for a float matrix a"""
    n, d = a.shape
    yield "list", a.tolist()
    yield "tuple", tuple(map(tuple, a.tolist()))
    yield "list of arrays", [r.copy() for r in a]
    yield "array", a.copy()
    yield "fortran", np.asfortranarray(a)
    big = np.repeat(np.repeat(a, 2, 0), 3, 1)
    yield "strided", big[::2, ::3]
    yield "reversed view", a[::-1].copy()[::-1]
    ro = a.copy()
    ro.flags.writeable = False
    yield "readonly", ro
    yield "frame", pd.DataFrame(a)
    yield "named frame", pd.DataFrame(a, columns=["c", "a", "b", "z"][:d], index=list(range(5, 5 + n)))
    if (a == np.floor(a)).all():
        i = a.astype(int)
        yield "int list", i.tolist()
        yield "int array", i
        yield "int32 array", i.astype(np.int32)
        yield "int frame", pd.DataFrame(i)
    if (a.astype(np.float32).astype(float) == a).all():
        yield "float32", a.astype(np.float32)
    if n == 1:
        yield "flat list", a[0].tolist()
        yield "flat tuple", tuple(a[0].tolist())
        yield "flat array", a[0].copy()
        yield "series", pd.Series(a[0])
        yield "named series", pd.Series(a[0], index=["c", "a", "b", "z"][:d])
        if (a == np.floor(a)).all():
            yield "flat int", a[0].astype(int).tolist()
            yield "int series", pd.Series(a[0].astype(int))


def snapshot(x):
    return copy.deepcopy(x)


def unchanged(x, y):
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return x.equals(y) and type(x) is type(y) and (list(x.index) == list(y.index))
    if isinstance(x, np.ndarray):
        return x.dtype == y.dtype and x.shape == y.shape and all(
            a == b or (a != a and b != b) for a, b in zip(x.ravel().tolist(), y.ravel().tolist()))
    if isinstance(x, (list, tuple)):
        return type(x) is type(y) and len(x) == len(y) and all(unchanged(a, b) for a, b in zip(x, y))
    return x == y or (x != x and y != y)


def state(c):
    p = c.params
    flat = []

    def walk(v):
        if isinstance(v, dict):
            for k in sorted(v):
                walk(v[k])
        elif isinstance(v, (list, tuple)):
            for w in v:
                walk(w)
        elif v is None or isinstance(v, str):
            flat.append(v)
        elif hasattr(v, "prob"):
            walk([v.prob, v.means, v.covs])
        else:
            flat.extend(np.ravel(v).tolist())
    walk(p)
    return [None if (isinstance(x, float) and x != x) else x for x in flat]


class Containers(Model):
    name = "containers"
    chunk = 1

    def cases(self):
        for s in cops.zoo():
            for fn in fns(s):
                yield {"s": s, "fn": fn}

    def check(self, case, t):
        s, fn = case["s"], case["fn"]
        R = rows(s)
        d = dim(s)
        ints = [[0.0, 1.0, 1.0][:d], [1.0, 1.0, 1.0][:d], [1.0, 0.0, 2.0 if s["f"] in ("marginal", "gmc") else 1.0][:d]]
        dyad = [[0.5, 0.25, 0.75][:d]]
        sets = [R[:1], R[1:2], R[:3], R[:5] if fn == "cdf" else R[:3], dyad, ints[:1], ints, [ints[1]]]
        c = cops.make(s)
        f = getattr(c, fn)
        arg = {"pdf": "u", "cdf": "x"}[fn]
        import inspect
        try:
            names = list(inspect.signature(f).parameters)
            arg = names[0]
        except (TypeError, ValueError):
            pass
        before = state(c)
        for rs in sets:
            a = np.array(rs, float)
            for log in (False, True):
                tol = tolerance(s, fn, log)
                want = ev(getattr(cops.make(s), fn), a.copy(), log)
                if isinstance(want, str):
                    continue
                for cname, x in containers(a):
                    keep = snapshot(x)
                    ctx = "%s %s log=%s %s %r" % (s, fn, log, cname, rs)
                    tl = dict(rtol=2e-6, atol=1e-6) if cname == "float32" and tol["rtol"] else tol
                    for how in ("positional", "keyword"):
                        try:
                            got = f(x, log=log) if how == "positional" else f(**{arg: x, "log": log})
                        except Exception as e:
                            t.fail("container", "%s %s: %s: %s" % (ctx, how, type(e).__name__, e))
                            continue
                        t.close(np.atleast_1d(np.asarray(got, float)), want, "container", ctx=ctx + " " + how, **tl)
                        if len(rs) == 1:
                            t.expect(isinstance(got, float), "scalar result", lambda: "%s: %s for one row" % (ctx, type(got)))
                    t.expect(unchanged(x, keep), "mutation", lambda: "%s: input modified" % ctx)
        t.expect(state(c) == before, "state", lambda: "%s %s: parameters changed by evaluation" % (s, fn))


class Rejects(Model):
    name = "wrong shapes"

    def cases(self):
        for s in cops.zoo():
            for fn in fns(s):
                yield {"s": s, "fn": fn}

    def check(self, case, t):
        s, fn = case["s"], case["fn"]
        d = dim(s)
        f = getattr(cops.make(s), fn)
        for n in (1, 2, d, d + 1):
            for w in (1, d - 1, d + 1, d + 2, 2 * d):
                if w < 1 or w == d:
                    continue
                a = np.full((n, w), 0.5)
                for x in (a, a.tolist(), pd.DataFrame(a)):
                    t.raises(ValueError, lambda: f(x), "width", "%s %s %dx%d %s" % (s, fn, n, w, type(x).__name__))
        for w in (1, d - 1, d + 1, 2 * d):
            if w < 1 or w == d:
                continue
            for x in ([0.5] * w, np.full(w, 0.5), pd.Series([0.5] * w)):
                t.raises(ValueError, lambda: f(x), "width", "%s %s flat %d" % (s, fn, w))
        for shape in ((1, d, 1), (d, d, d), (1, 1, d), (2, 1, d, 1)):
            a = np.full(shape, 0.5)
            for x in (a, a.tolist()):
                t.raises(ValueError, lambda: f(x), "ndim", "%s %s %r" % (s, fn, shape))
        for x in (0.5, np.float64(0.5), np.array(0.5)):
            t.raises(ValueError, lambda: f(x), "ndim", "%s %s scalar" % (s, fn))


OPS = ["cdf batch", "cdf one", "cdf log frame", "pdf batch", "pdf one", "pdf log", "random", "summary", "measures", "bad shape", "params"]


def do(c, s, op):
    R = rows(s)
    f = list(fns(s))
    try:
        if op.startswith("cdf") and "cdf" not in f or op.startswith("pdf") and "pdf" not in f:
            return
        if op == "cdf batch":
            c.cdf(np.array(R[:3]))
        elif op == "cdf one":
            c.cdf(R[1])
        elif op == "cdf log frame":
            c.cdf(pd.DataFrame(R[1:4]), log=True)
        elif op == "pdf batch":
            c.pdf(np.array(R[:6]))
        elif op == "pdf one":
            c.pdf(R[2])
        elif op == "pdf log":
            c.pdf(pd.DataFrame(R[:3]), log=True)
        elif op == "random":
            c.random(4, seed=3)
        elif op == "summary":
            str(c.summary())
        elif op == "measures":
            for a in ("tau", "rho", "lambda_", "bounds", "dim", "name"):
                try:
                    getattr(c, a)
                except Exception:
                    pass
        elif op == "bad shape":
            c.cdf([[0.1] * (dim(s) + 1)])
        elif op == "params":
            c.params
    except Exception:
        pass


def probe(c, s):
    out = {}
    R = rows(s)[:3]
    for fn in fns(s):
        for log in (False, True):
            out[fn, log] = np.atleast_1d(np.asarray(getattr(c, fn)(np.array(R), log=log), float))
    return out, state(c)


class Histories(Model):
    """Every operation sequence up to the depth, then the probe."""
    name = "histories"
    chunk = 1

    def cases(self):
        for s in cops.zoo():
            yield s

    def check(self, s, t):
        want, st0 = isolated(lambda: probe(cops.make(s), s))
        depth = 3 if self.thorough else 2
        t.step()
        for k in range(1, depth + 1):
            for seq in itertools.product(OPS, repeat=k):
                c = cops.make(s)
                for op in seq:
                    do(c, s, op)
                got, st = probe(c, s)
                t.expect(st == st0, "state", lambda: "%s after %r: parameters %r, fresh %r" % (s, seq, st, st0))
                for key in want:
                    t.close(got[key], want[key], "history", ctx="%s after %r %r" % (s, seq, key), **tolerance(s, *key))


class Interleaved(Model):
    """Two objects (also two of one class) evaluated alternately."""
    name = "interleaved objects"

    def cases(self):
        z = list(cops.zoo())
        for i in range(len(z)):
            for j in range(len(z)):
                yield [i, j]

    def check(self, ij, t):
        z = list(cops.zoo())
        a, b = z[ij[0]], z[ij[1]]
        wa, sa = isolated(lambda: probe(cops.make(a), a))
        wb, sb = isolated(lambda: probe(cops.make(b), b))
        ca, cb = cops.make(a), cops.make(b)
        for c, s, w, st in ((ca, a, wa, sa), (cb, b, wb, sb), (ca, a, wa, sa), (cb, b, wb, sb)):
            got, st2 = probe(c, s)
            t.expect(st2 == st, "state", lambda: "%s with %s: parameters changed" % (s, b))
            for key in w:
                t.close(got[key], w[key], "interleaved", ctx="%s / %s %r" % (a, b, key), **tolerance(s, *key))


class Sizes(Model):
    """Batches on both sides of every length that might be treated specially, and one row of many columns."""
    name = "sizes"
    chunk = 1

    def cases(self):
        for s in cops.zoo():
            for fn in fns(s):
                yield {"s": s, "fn": fn}
        for f, ps in (("clayton", (.5, 3.0)), ("frank", (1.0, 8.0)), ("gumbel", (1.2, 2.5))):
            for p in ps:
                for d in (5, 6, 8, 10):
                    for fn in ("cdf", "pdf"):
                        yield {"s": {"f": f, "d": d, "p": p}, "fn": fn, "wide": 1}
        for d in (5, 6, 8, 10, 12, 15):
            r = [((i * 7) % 5 + 1) / 20 for i in range(d * (d - 1) // 2)]
            for s in ({"f": "gaussian", "d": d, "p": r}, {"f": "student", "d": d, "p": [4.0] + r}, {"f": "indep", "d": d}):
                yield {"s": s, "fn": "pdf", "wide": 1}

    def check(self, case, t):
        s, fn = case["s"], case["fn"]
        c = cops.make(s)
        f = getattr(c, fn)
        if case.get("wide"):
            d = s["d"]
            R = [[((i * 13 + j * 29) % 19 + .6) / 20.5 for j in range(d)] for i in range(9)]
            top = 2049
        else:
            R = [r for r in rows(s)[:3]]
            R += [[(v * 3 + .37 * (j + 1)) % 1 for j, v in enumerate(r)] for r in R] + [R[0][::-1], R[1][::-1]]
            slow = fn == "cdf" and "gaussian" in repr(s)
            top = 65 if noisy(s, fn) else 1025 if slow or s["f"] == "empirical" and fn == "pdf" else 100001 if self.thorough else 20001
        for log in (False, True):
            tol = tolerance(s, fn, log)
            single = np.concatenate([ev(f, np.array([r]), log) for r in R])
            A = np.array(R)
            for n in sizes.upto(top, True):
                i = np.arange(n) * 5 % len(R)
                i = (i + (np.arange(n) // 11)) % len(R)
                for x in (A[i], pd.DataFrame(A[i])) if n < 600 else (A[i],):
                    b = np.array(x)
                    got = ev(f, x, log)
                    t.close(got, single[i], "rowwise", ctx="%s %s log=%s n=%d" % (s, fn, log, n), **tol)
                    t.expect(np.array_equal(b, np.asarray(x)), "argument changed")


MODELS = [Sizes, Batches, Containers, Rejects, Histories, Interleaved]
RULE = ("states: (object, function, switch) points, objects x histories and ordered object pairs; inside each: all row "
        "sequences up to length 3 (4 thorough) over 7 rows, all containers, all operation sequences up to depth 2 (3)")
ASSUMPTIONS = ["dim >= 3 normal integrals are randomised: rows compared within 1e-3",
               "a DataFrame passed to a copula without column labels is treated positionally; the kind of result object "
               "for several rows (array or Series) is not specified, only its values"]
