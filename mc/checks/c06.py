"""Edit sequences on elliptical copulas: explicit-state search over the real object against a matrix model."""
import itertools
import math

import numpy as np

from .. import cops
from ..core import Model

NAN = float("nan")


def vals(d):
    return [0.5, -0.9, 1.0, 1.5, NAN]


def matrices(d):
    if d == 2:
        return [("ok", [[1, .4], [.4, 1]]), ("int", [[1, 0], [0, 1]]), ("ones", [[1, 1], [1, 1]]), ("asym", [[1, .4], [.1, 1]]),
                ("range", [[1, 1.4], [1.4, 1]]), ("nan", [[1, NAN], [NAN, 1]]), ("shape", np.eye(3).tolist()), ("rect", [[1, 0, 0], [0, 1, 0]])]
    if d == 3:
        return [("ok", [[1, .4, -.2], [.4, 1, .3], [-.2, .3, 1]]), ("int", np.eye(3, dtype=int).tolist()),
                ("indef", [[1, .9, -.9], [.9, 1, .9], [-.9, .9, 1]]), ("asym", [[1, .4, .1], [.4, 1, .3], [.2, .3, 1]]),
                ("nan", [[1, .1, NAN], [.1, 1, .3], [NAN, .3, 1]]), ("shape", np.eye(4).tolist())]
    r = [.5, .3, .1, .4, .2, .6, -.15, .05, .25, -.05][:d * (d - 1) // 2]
    bad = [.9, -.9, .1, .9, .2, .6, 0, 0, 0, 0][:len(r)]
    return [("ok", cops.corr(d, r).tolist()), ("indef", cops.corr(d, bad).tolist()), ("shape", np.eye(3).tolist())]


def vectors(d, first):
    v = {2: [.3, .7], 3: [.3, -.6, .2], 4: [.3, -.2, .4, .1], 5: [.3, -.2, .4, .1, -.1]}[d]
    yield v
    yield v + [.1]
    yield [2.0] + v[1:] if first else v[:-1] + [NAN]


def params(d):
    n = d * (d - 1) // 2
    base = [.25, -.4, .15, .3, .05, -.1][:n]
    yield "ok", base
    yield "scalar", 0.35
    yield "int", [0] * n
    yield "long", base + [.1]
    yield "short", base[:-1]
    yield "range", [1.25] + base[1:]
    yield "nan", base[:-1] + [NAN]
    if d > 2:
        yield "indef", ([.9, -.9, .9] + [0] * 6)[:n] if d == 3 else [.9, .9, 0, -.9, 0, 0]


def ops(d, student):
    """JSON-able operations."""
    out = []
    pairs = [(i, j) for i in range(d) for j in range(d) if i != j]
    for i, j in pairs if d < 4 else [(0, 1), (3, 1), (2, 3)]:
        for v in vals(d) if (i, j) in ((0, 1), (d - 1, 0)) else [0.5, -0.9]:
            out.append(["item", i, j, v])
    for i, j in ((1, 1), (0, d), (-1, 0), (d, d)):
        out.append(["item", i, j, 0.3])
    for k in range(d * (d - 1) // 2):
        out.append(["flat", k, 0.2])
    out += [["flat", d * (d - 1) // 2, 0.2], ["flat", 0, 2.0], ["flat", 0, NAN]]
    for j in range(d):
        for w, v in enumerate(vectors(d, j == 0)):
            out.append([("row", "col")[(j + w) % 2], j, v])
        out.append([("col", "row")[j % 2], j, 0.4 if j else -0.8])
    out += [["row", d, 0.1], ["col", d, [.1] * d], ["row", 0, 1.01]]
    for tag, m in matrices(d):
        out.append(["whole" if tag != "ok" else "whole2", m])
        if tag in ("ok", "asym", "shape"):
            out.append(["whole" if tag == "ok" else "whole2", m])
    out.append(["whole", 0.3])
    for tag, p in params(d):
        out.append(["params", p, tag == "ok"])
    if student:
        out += [["df", 5.5], ["df", 0.0], ["df", -1.0], ["df", NAN]]
    out.append(["bad index", 0])
    return out


class Rejected(Exception):
    pass


def flat_pairs(d):
    return [(i, j) for i in range(d) for j in range(i + 1, d)]


def model(op, M, df, student):
    """The specification: (M', df', projected) or Rejected."""
    d = len(M)
    M = M.copy()
    kind = op[0]

    def chk(v):
        if not np.all((np.asarray(v, float) >= -1) & (np.asarray(v, float) <= 1)):
            raise Rejected
    if kind == "item":
        i, j, v = op[1:]
        chk(v)
        if min(i, j) < 0 or max(i, j) >= d or i == j:
            raise Rejected
        M[i, j] = M[j, i] = v
    elif kind == "flat":
        chk(op[2])
        if op[1] >= d * (d - 1) // 2:
            raise Rejected
        i, j = flat_pairs(d)[op[1]]
        M[i, j] = M[j, i] = op[2]
    elif kind in ("row", "col"):
        j, v = op[1:]
        chk(v)
        if j >= d:
            raise Rejected
        v = np.repeat(v, d) if np.ndim(v) == 0 else np.asarray(v, float)
        if len(v) != d:
            raise Rejected
        for i in range(d):
            if i != j:
                M[i, j] = M[j, i] = v[i]
    elif kind in ("whole", "whole2"):
        v = np.asarray(op[1], float)
        chk(v)
        if v.shape != (d, d) or not np.array_equal(v, v.T):
            raise Rejected
        M = v.copy()
    elif kind == "params":
        v = np.asarray(op[1], float)
        n = d * (d - 1) // 2
        if v.ndim == 0:
            if student:
                raise Rejected
            v = np.repeat(v, n)
        chk(v)
        if len(v) != n:
            raise Rejected
        M = cops.corr(d, v)
        if np.linalg.eigvalsh(M)[0] < -1e-6:
            raise Rejected
        if student and op[2]:
            df = 3.0
    elif kind == "df":
        if not op[1] > 0:
            raise Rejected
        df = op[1]
    else:
        raise Rejected
    return M, df, np.linalg.eigvalsh(M)[0] < 1e-10


GARBAGE = 7.0


def apply(c, op, student, owned):
    """Executes op on the real object; arrays handed over are collected in owned."""
    kind = op[0]

    def arr(v, dt=float):
        if np.ndim(v) == 0:
            return v
        a = np.array(v)
        a = a if a.dtype.kind == "i" else a.astype(float)
        owned.append(a)
        return a
    if kind == "item":
        c[op[1], op[2]] = op[3]
    elif kind == "flat":
        c[op[1]] = op[2]
    elif kind == "row":
        c[op[1], :] = arr(op[2])
    elif kind == "col":
        c[:, op[1]] = arr(op[2])
    elif kind == "whole":
        c[:] = arr(op[1])
    elif kind == "whole2":
        c[:, :] = arr(op[1])
    elif kind == "params":
        if not student:
            c.params = arr(op[1])
        elif np.ndim(op[1]) == 0:
            c.params = op[1]
        elif op[2]:
            from copulae.elliptical.student import StudentParams
            c.params = StudentParams(3.0, arr(op[1]))
        else:
            c.params = arr([c.params.df] + list(op[1]))
    elif kind == "df":
        c.params = arr([op[1]] + list(c.params.rho))
    elif kind == "bad index":
        c[0, 0, 0] = 0.1


def rho_of(c, student):
    return np.asarray(c.params.rho if student else c.params, float)


def observe(c, student, t, ctx):
    """All readers agree; returns the matrix."""
    d = c.dim
    r = rho_of(c, student)
    S = np.array(c.sigma, float)
    ok = True
    ok &= t.expect(r.shape == (d * (d - 1) // 2,), "readers", lambda: "%s: params %r" % (ctx, r))
    if ok:
        ok &= t.expect(np.array_equal(S, cops.corr(d, r)), "readers", lambda: "%s: sigma %r but params %r" % (ctx, S.tolist(), r.tolist()))
        ok &= t.expect(np.array_equal(c[:], S) and np.array_equal(c[:, :], S), "readers", ctx + ": c[:] differs from sigma")
        for i in range(d):
            ok &= np.array_equal(c[i, :], S[i]) and np.array_equal(c[:, i], S[:, i])
            for j in range(d):
                ok &= float(c[i, j]) == S[i, j]
        for k, (i, j) in enumerate(flat_pairs(d)):
            ok &= float(c[k]) == S[i, j]
        t.expect(ok, "readers", ctx + ": item readers differ from sigma")
    return S


def valid(S):
    return np.array_equal(S, S.T) and np.array_equal(np.diag(S), np.ones(len(S))) and (np.abs(S) <= 1 + 1e-9).all() \
        and np.linalg.eigvalsh(S)[0] > -2e-8


class Edits(Model):
    name = "edit sequences"
    chunk = 1

    def cases(self):
        for fam in ("gaussian", "student"):
            for d, depth in ((2, 3), (3, 2), (4, 2), (5, 1)) if not self.thorough else ((2, 3), (3, 3), (4, 3), (5, 2)):
                n = len(ops(d, fam == "student"))
                for k in range(n):
                    yield {"family": fam, "d": d, "depth": depth, "first": k}

    def make(self, fam, d):
        import copulae
        if fam == "student":
            return copulae.StudentCopula(d, df=4.0)
        return copulae.GaussianCopula(d)

    def load(self, fam, d, M, df):
        """A fresh object brought to (M, df) by the constructor and one whole-parameter assignment."""
        c = self.make(fam, d)
        r = [M[i, j] for i, j in flat_pairs(d)]
        c.params = np.array([df] + r if fam == "student" else r, float)
        return c

    def check(self, case, t):
        fam, d = case["family"], case["d"]
        student = fam == "student"
        O = ops(d, student)
        self.probe_done = set()

        def run(seq):
            c = self.make(fam, d)
            M, df = np.eye(d), 4.0
            hist = []
            for op in seq:
                hist.append(op)
                ctx = "%s(%d) after %r" % (fam, d, hist)
                owned = []
                before = rho_of(c, student).copy()
                exc = None
                try:
                    apply(c, op, student, owned)
                except Exception as e:   # noqa
                    exc = e
                try:
                    want = model(op, M, df, student)
                except Rejected:
                    want = None
                S = observe(c, student, t, ctx)
                if want is None:
                    t.expect(exc is not None, "accepts invalid", ctx + ": accepted")
                    if not t.expect(np.array_equal(S, M) and (not student or c.params.df == df), "rejected edit changes state",
                                    lambda: "%s: %r, was %r" % (ctx, S.tolist(), M.tolist())):
                        return False
                else:
                    if not t.expect(exc is None, "rejects valid", lambda: "%s: %s: %s" % (ctx, type(exc).__name__, exc)):
                        return False
                    M2, df2, proj = want
                    if not proj:
                        t.expect(np.abs(S - M2).max() <= 1e-12, "edit result", lambda: "%s: got %r, want %r" % (ctx, S.tolist(), M2.tolist()))
                    elif np.linalg.eigvalsh(M2)[0] > -1e-9:
                        t.expect(np.abs(S - M2).max() <= 1e-6, "edit result", lambda: "%s: got %r, want %r" % (ctx, S.tolist(), M2.tolist()))
                    if not t.expect(valid(S), "invariant", lambda: "%s: %r eig %r" % (ctx, S.tolist(), np.linalg.eigvalsh((S + S.T) / 2)[0])):
                        return False
                    if student:
                        t.expect(c.params.df == df2, "df", lambda: "%s: df %r want %r" % (ctx, c.params.df, df2))
                    M, df = S, df2
                # neither the caller's arrays nor anything handed out is the object's own storage
                for a in owned:
                    a[...] = GARBAGE
                for a in (c.params.rho if student else c.params, c.sigma, c[:], c[:, 0], c[0, :]):
                    if isinstance(a, np.ndarray) and a.flags.writeable:
                        a[...] = GARBAGE
                S3 = np.array(c.sigma, float)
                if not t.expect(np.array_equal(S3, S), "aliasing", lambda: "%s: writing to a passed or returned array changed the copula" % ctx):
                    return False
            # behaviour equals that of a fresh object in the same state
            if np.linalg.eigvalsh(M)[0] > 1e-6:
                spec = {"f": fam, "d": d, "p": ([df] if student else []) + [float(M[i, j]) for i, j in flat_pairs(d)]}
                u = np.array([[.2, .7, .4, .9, .35][:d], [.6, .1, .5, .3, .8][:d]])
                t.close(c.pdf(u, log=True), cops.ell_logpdf(spec, u), "behaviour", rtol=1e-6, atol=1e-6, ctx="%s(%d) after %r" % (fam, d, hist))
            return True

        first = O[case["first"]]
        for k in range(1, case["depth"] + 1):
            pool = O if k < 3 and (d < 4 or self.thorough) else O[:: (1 if d == 2 else 2 if d == 3 else 5) if self.thorough else 3]
            for rest in itertools.product(pool, repeat=k - 1):
                run([first] + list(rest))
                if len(t.fails) > 20:
                    return


MODELS = [Edits]
RULE = ("states: (family, dimension, first operation); each explores every continuation up to the depth over the whole "
        "operation alphabet (item/flat/row/column/matrix/parameter edits, valid, invalid, indefinite, NaN, wrong shapes); "
        "transitions: comparisons made after every single operation")
ASSUMPTIONS = ["slices are whole-axis slices (the documented forms)", "which indefinite matrices are projected to which "
               "valid one is not specified, only that the result is a correlation matrix"]
