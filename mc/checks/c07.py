"""Admissible parameters by every route: all assignment sequences on the real object against a state machine."""
import itertools

import numpy as np

from .. import cops
from ..core import Model

NAN, INF = float("nan"), float("inf")
# JSON-able tokens -> the object handed over
KINDS = {"float": float, "int": int, "np.float64": np.float64, "np.float32": np.float32, "np.int64": np.int64, "np.int32": np.int32,
         "array0": lambda v: np.array(v, float), "array1": lambda v: np.array([v], float), "bool": bool}


def value(tok):
    k, v = tok
    if k == "raw":
        return {"none": None, "str": "abc", "complex": 1 + 2j, "list2": [1.0, 2.0], "array2": np.array([2.0, 3.0]), "array0x": np.array([]),
                "dict": {}}[v]
    return KINDS[k](v)


def admissible(fam, d, v):
    if v != v:
        return True
    if fam == "clayton":
        return v >= (-1 if d == 2 else 0)
    if fam == "frank":
        return d == 2 or v >= 0
    return v >= 1


CLS = {"clayton": "ClaytonCopula", "frank": "FrankCopula", "gumbel": "GumbelCopula"}
EDGE = {"clayton": [-1.0, 0.0], "frank": [0.0], "gumbel": [1.0]}


def scalars(fam, d):
    vs = [2.0, 1.5, 7.25, 0.3, -0.3, -3.0, -INF, NAN, -1.0, 0.0, 1.0]
    for e in EDGE[fam]:
        vs += [float(np.nextafter(e, INF)), float(np.nextafter(e, -INF)), e - 1e-9, e - 1e-15, e + 1e-9, e - 1e-6]
    if fam == "frank" and d == 2:
        vs.remove(-INF)                      # neither admissible nor inadmissible by the statement
    return list(dict.fromkeys([repr(v) for v in vs]))


def tokens(fam, d):
    out = [["float", float(v)] for v in scalars(fam, d)]
    for k in KINDS:
        for v in (2, 1, 3) if k not in ("bool",) else (1,):
            if k != "float":
                out.append([k, v])
        if k not in ("int", "bool", "np.int64", "np.int32", "float"):
            out += [[k, -2.5], [k, 0.5]] + ([[k, NAN]] if k != "array1" else [])
    out += [["np.int64", -3], ["int", -3], ["int", 0], ["np.int32", -2]]
    out += [["raw", x] for x in ("none", "str", "complex", "list2", "array2", "array0x", "dict")]
    return out


def behaviour(c):
    """Everything a user can observe, as plain data (an exception is an observation)."""
    d = c.dim
    u = np.array([[.3, .6, .2, .8][:d], [.9, .4, .7, .5][:d], [.05, .1, .2, .15][:d]])
    out = []
    p = getattr(c, "_theta", None)
    for name, f in (("params", lambda: c.params), ("cdf", lambda: c.cdf(u)), ("pdf", lambda: c.pdf(u)), ("logpdf", lambda: c.pdf(u, log=True)),
                    ("tau", lambda: c.tau), ("lambda", lambda: c.lambda_), ("ipsi", lambda: c.ipsi(u[0])), ("psi", lambda: c.psi(u[0])),
                    ("dipsi", lambda: c.dipsi(u[0])), ("random", lambda: c.random(3, seed=5)), ("bounds", lambda: c.bounds),
                    ("summary", lambda: str(c.summary())), ("dim", lambda: c.dim)):
        if name == "random" and isinstance(p, float) and p != p:
            continue
        try:
            v = f()
        except Exception as e:   # noqa
            out.append((name, type(e).__name__))
            continue
        out.append((name, v))
    return out


def differs(a, b):
    for (n, x), (_, y) in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return "%s: %r instead of %r" % (n, x, y)
            continue
        if x is NotImplemented or y is NotImplemented:
            continue
        xs = [np.ravel(np.asarray(q, float)) for q in (x if isinstance(x, tuple) else (x,))]
        ys = [np.ravel(np.asarray(q, float)) for q in (y if isinstance(y, tuple) else (y,))]
        if not all(p.shape == q.shape and np.array_equal(p, q, equal_nan=True) for p, q in zip(xs, ys)):
            return "%s: %r instead of %r" % (n, x, y)
    return None


class Routes(Model):
    name = "every route, every token"

    def cases(self):
        for fam in CLS:
            for d in (2, 3, 4):
                for tok in tokens(fam, d):
                    yield {"family": fam, "d": d, "value": [tok[0], repr(tok[1]) if isinstance(tok[1], float) else tok[1]]}

    def check(self, case, t):
        import copulae
        fam, d = case["family"], case["d"]
        tok = case["value"]
        tok = [tok[0], float(tok[1]) if tok[0] != "raw" else tok[1]]
        v = value(tok)
        C = getattr(copulae, CLS[fam])
        good = tok[0] != "raw" and admissible(fam, d, float(v if np.ndim(v) == 0 else v[0]))
        x = float(v if np.ndim(v) == 0 else v[0]) if tok[0] != "raw" else None

        def ctor():
            return C(v, d)

        def ctor_kw():
            return C(theta=v, dim=d)

        def setter():
            c = C(2.0, d)
            c.params = v
            return c

        def from_default():
            c = C(dim=d)
            c.params = v
            return c
        want = None
        for route, f in (("constructor", ctor), ("constructor by keyword", ctor_kw), ("assignment", setter), ("assignment after default", from_default)):
            ctx = "%s(dim=%d) %s %r" % (C.__name__, d, route, v)
            try:
                c = f()
            except Exception as e:   # noqa
                t.expect(not good, "rejects admissible", "%s: %s: %s" % (ctx, type(e).__name__, e))
                continue
            if not t.expect(good, "accepts inadmissible", lambda: "%s: params %r" % (ctx, c.params)):
                continue
            t.expect(isinstance(c.params, float) and (c.params == x or x != x != c.params), "stored value", lambda: "%s: params %r" % (ctx, c.params))
            if isinstance(v, np.ndarray) and v.ndim:
                v[...] = 99.0
                t.expect(c.params != 99.0, "aliasing", ctx)
                v[...] = x
            b = behaviour(c)
            if want is None:
                want = behaviour(C(x, d))
            w = differs(b, want)
            t.expect(w is None, "behaviour", "%s: %s" % (ctx, w))
        if good:
            lo, hi = C(2.0, d).bounds
            t.expect(x != x or lo - 1e-6 <= x <= hi, "bounds", lambda: "%s: admissible %r outside bounds %r" % (C.__name__, x, (lo, hi)))


class Sequences(Model):
    name = "assignment sequences"
    chunk = 4

    def alphabet(self, fam, d):
        good = {"clayton": [2.0, 0.0, 0.4, 9.0], "frank": [2.0, 0.0, 6.0], "gumbel": [1.0, 2.0, 3.5]}[fam]
        if d == 2:
            good += {"clayton": [-0.5], "frank": [-2.0], "gumbel": []}[fam]
        bad = {"clayton": [-1.5, -INF] + ([-0.5] if d > 2 else []), "frank": ["s"] + ([-2.0] if d > 2 else []), "gumbel": [0.5, -2.0]}[fam]
        return [["set", g] for g in good] + [["set", b] for b in bad] + [["set", NAN], ["eval"], ["raw"]]

    def cases(self):
        for fam in CLS:
            for d in (2, 3):
                A = self.alphabet(fam, d)
                for i in range(len(A)):
                    for j in range(len(A)):
                        yield {"family": fam, "d": d, "depth": 4 if self.thorough else 3, "prefix": [i, j]}

    def check(self, case, t):
        import copulae
        fam, d = case["family"], case["d"]
        C = getattr(copulae, CLS[fam])
        A = self.alphabet(fam, d)
        cache = {}

        def fresh(x):
            k = repr(x)
            if k not in cache:
                cache[k] = behaviour(C(x, d))
            return cache[k]
        u = np.array([[.3, .6, .2][:d]])
        for n in range(case["depth"] - 1):
            for rest in itertools.product(range(len(A)), repeat=n):
                seq = [A[k] for k in case["prefix"] + list(rest)]
                c, cur = C(2.0, d), 2.0
                for op in seq:
                    if op[0] == "eval":
                        behaviour(c)
                    elif op[0] == "raw":
                        t.raises(Exception, lambda: setattr(c, "params", [1.0, 2.0]), "accepts inadmissible", "list")
                    else:
                        v = op[1] if op[1] != "s" else "x"
                        ok = v != "x" and admissible(fam, d, v)
                        try:
                            c.params = v
                        except Exception as e:   # noqa
                            t.expect(not ok, "rejects admissible", "%r: %r" % (seq, e))
                        else:
                            if not t.expect(ok, "accepts inadmissible", "%s(%d) %r" % (fam, d, seq)):
                                return
                            cur = v
                w = differs(behaviour(c), fresh(cur))
                if not t.expect(w is None, "behaviour", lambda: "%s(%d) after %r: %s" % (fam, d, seq, w)):
                    return


class Elliptical(Model):
    name = "elliptical sequences"
    chunk = 2

    def alphabet(self, fam, d):
        n = d * (d - 1) // 2
        r = [[.5, -.3, .2][:n], [-.9, .1, .2][:n], [0] * n]
        bad = [[1.5, 0, 0][:n], [NAN, 0, 0][:n], r[0] + [.1], r[0][:-1]] + ([[.9, -.9, .9]] if d == 3 else [])
        if fam == "gaussian":
            return [["v", x] for x in r + bad] + [["s", .25], ["s", -.4 if d == 2 else .4], ["s", 1.2], ["s", NAN], ["eval"]]
        out = [["sp", df, r[k]] for k, df in enumerate((4.0, 0.5, 12.0))] + [["v", [df] + x] for x, df in zip(r, (2.0, 7.5, 1.0))]
        out += [["v", [4.0] + x] for x in bad] + [["sp", 4.0, x] for x in bad]
        out += [["v", [df] + r[0]] for df in (0.0, -1.0, NAN)] + [["sp", df, r[1]] for df in (0, -2.5, NAN)]
        return out + [["eval"]]

    def cases(self):
        for fam in ("gaussian", "student"):
            for d in (2, 3):
                A = self.alphabet(fam, d)
                for i in range(len(A)):
                    yield {"family": fam, "d": d, "depth": 3 if self.thorough else 2, "first": i}
        for df in (1, 0.01, 2.5, 100, 1e9, 0, -1, -0.5, NAN):
            for d in (2, 3):
                yield {"family": "student", "d": d, "ctor": repr(df)}
        for fam in ("gaussian", "student", "clayton", "frank", "gumbel", "indep"):
            for d in (2, 3, 5, 1, 0, -2, 2.5):
                yield {"family": fam, "dim": d}

    def check(self, case, t):
        import copulae
        from copulae.elliptical.student import StudentParams
        fam, d = case["family"], case.get("d")
        if "dim" in case:
            C = getattr(copulae, {**CLS, "gaussian": "GaussianCopula", "student": "StudentCopula", "indep": "IndepCopula"}[fam])
            if case["dim"] in (2, 3, 5):
                t.expect(C(dim=case["dim"]).dim == case["dim"], "dimension")
            else:
                t.raises(Exception, lambda: C(dim=case["dim"]), "accepts invalid dimension", "%s(dim=%r)" % (C.__name__, case["dim"]))
            return
        if "ctor" in case:
            df = float(case["ctor"])
            if df > 0:
                c = copulae.StudentCopula(d, df=df)
                t.expect(c.params.df == df and not np.any(c.params.rho), "stored value", lambda: repr(c.params))
                ref = copulae.StudentCopula(d)
                ref.params = np.array([df] + [0.0] * (d * (d - 1) // 2))
                w = differs(self.obs(c), self.obs(ref))
                t.expect(w is None, "behaviour", "df=%r: %s" % (df, w))
            else:
                t.raises(Exception, lambda: copulae.StudentCopula(d, df=df), "accepts inadmissible", "StudentCopula(df=%r)" % df)
            return
        C = copulae.StudentCopula if fam == "student" else copulae.GaussianCopula
        A = self.alphabet(fam, d)
        n = d * (d - 1) // 2

        def okr(r):
            r = np.asarray(r, float)
            return len(r) == n and np.all(np.abs(r) <= 1) and np.linalg.eigvalsh(cops.corr(d, r))[0] > -1e-9
        for k in range(case["depth"]):
            for rest in itertools.product(A, repeat=k):
                seq = [A[case["first"]]] + list(rest)
                c = C(d)
                cur = (1.0, [0.0] * n)
                for op in seq:
                    if op[0] == "eval":
                        self.obs(c)
                        continue
                    if op[0] == "v":
                        new = (op[1][0], op[1][1:]) if fam == "student" else (None, op[1])
                        v = np.array(op[1], float)
                    elif op[0] == "sp":
                        new = (op[1], op[2])
                        v = StudentParams(op[1], np.array(op[2], float))
                    else:
                        new = (None, [op[1]] * n)
                        v = op[1]
                    ok = okr(new[1]) and (fam == "gaussian" or new[0] > 0)
                    try:
                        c.params = v
                    except Exception as e:   # noqa
                        t.expect(not ok, "rejects admissible", "%s %r: %r" % (fam, seq, e))
                    else:
                        if not t.expect(ok, "accepts inadmissible", "%s(%d) %r" % (fam, d, seq)):
                            return
                        cur = new
                ref = C(d)
                ref.params = np.array(([cur[0]] if fam == "student" else []) + list(cur[1]), float)
                p = c.params
                t.expect(np.array_equal(np.r_[p.df, p.rho] if fam == "student" else p, np.r_[([cur[0]] if fam == "student" else []) + list(cur[1])]),
                         "stored value", lambda: "%s(%d) after %r: %r" % (fam, d, seq, p))
                w = differs(self.obs(c), self.obs(ref))
                if not t.expect(w is None, "behaviour", lambda: "%s(%d) after %r: %s" % (fam, d, seq, w)):
                    return

    def obs(self, c):
        u = np.array([[.3, .6, .2][:c.dim], [.9, .4, .7][:c.dim]])
        out = []
        for name, f in (("pdf", lambda: c.pdf(u)), ("lambda", lambda: c.lambda_), ("tau", lambda: c.tau), ("sigma", lambda: c.sigma),
                        ("random", lambda: c.random(3, seed=5)), ("bounds", lambda: c.bounds)):
            try:
                out.append((name, f()))
            except Exception as e:   # noqa
                out.append((name, type(e).__name__))
        return out


MODELS = [Routes, Sequences, Elliptical]
RULE = ("states: (family, dimension, route token) and (family, dimension, sequence prefix), each extended to every continuation up to the "
        "depth; transitions: acceptance, stored-value and whole-behaviour comparisons with a fresh object built from the last accepted value")
ASSUMPTIONS = ["+infinity (and -infinity for the bivariate Frank copula) and numeric strings are neither admissible nor inadmissible by the "
               "statement and are not assigned", "any exception type counts as a rejection"]
