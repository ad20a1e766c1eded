"""Special functions: every point of a lattice that is dense around each branch boundary, in every container shape,
serial and under every thread count, against independent series (Bernoulli/zeta series, SciPy's spence)."""
import ctypes
import itertools
import math

import numpy as np
from scipy.special import bernoulli, spence, zeta

from ..core import Model

B = bernoulli(80)
DELTAS = [0.0] + [s * d for d in (1e-15, 1e-12, 1e-9, 1e-6, 1e-4, 1e-3, 1e-2, 0.05) for s in (1, -1)]


def around(points, more=()):
    out = []
    for p in points:
        for d in DELTAS:
            out.append(p * (1 + d) if p else d)
    out += list(more)
    seen, uniq = set(), []
    for x in out:
        if x not in seen:
            seen.add(x)
            uniq.append(float(x))
    return uniq


DECADES = [m * 10.0 ** -k for k in range(0, 19) for m in (1, 1.4, 2, 3, 4, 5, 7)] + [m * 10.0 ** k for k in range(1, 7) for m in (1, 2, 5)]


# ------------------------------------------------------------------ references
def ref_debye(n, x):
    if math.isnan(x) or x < 0:
        return math.nan
    if x == 0:
        return 1.0
    if math.isinf(x):
        return 0.0
    if x <= 2.5:
        s = 1.0 - n * x / (2 * (n + 1))
        for k in range(1, 39):
            s += n * B[2 * k] * x ** (2 * k) / ((2 * k + n) * math.factorial(2 * k))
        return s
    tot = math.factorial(n) * float(zeta(n + 1))
    for k in range(1, 400):
        e = math.exp(-k * x) if k * x < 745 else 0.0
        if e == 0.0:
            break
        # int_x^inf t^n e^{-kt} dt
        s = sum(math.factorial(n) / math.factorial(n - i) * x ** (n - i) / k ** (i + 1) for i in range(n + 1))
        tot -= e * s
        if e * s < 1e-18:
            break
    return n * tot / x ** n if x < 1e150 else n * tot / x / x ** (n - 1)


def ref_clausen(x):
    if x == 0:
        return 0.0
    r = math.remainder(x, 2 * math.pi)
    if r == 0:
        return 0.0
    a = abs(r)
    s = a - a * math.log(a)
    for k in range(1, 40):
        s += abs(B[2 * k]) * a ** (2 * k + 1) / (2 * k * math.factorial(2 * k + 1))
    return math.copysign(s, r)


def ref_li2(x):
    """Real part of the dilogarithm at a real point."""
    if x <= 1:
        return float(spence(1 - x)) if abs(x) > 1e-3 else sum(x ** k / k ** 2 for k in range(1, 12))
    return math.pi ** 2 / 3 - math.log(x) ** 2 / 2 - ref_li2(1 / x)


def ref_cli2(z):
    if z == 0:
        return 0j
    if z.imag == 0:
        return complex(ref_li2(z.real), -math.pi * math.log(z.real) if z.real > 1 else 0.0)
    if abs(z) <= 0.5:
        s, p = 0j, 1 + 0j
        for k in range(1, 80):
            p *= z
            s += p / k ** 2
        return s
    return complex(spence(1 - z))


SHAPES = ["scalar", "0-d", "1", "list", "vector", "matrix", "cube", "fortran", "strided", "empty"]


def shapes(xs):
    """(name, argument, flat reference order)"""
    a = np.array(xs, float)
    yield "list", list(xs), a.shape, np.arange(a.size)
    yield "vector", a.copy(), a.shape, np.arange(a.size)
    m = a[:a.size // 4 * 4].reshape(2, -1).copy()
    idx = np.arange(a.size // 4 * 4)
    yield "matrix", m, m.shape, idx
    yield "cube", m.reshape(2, 2, -1).copy(), (2, 2, m.size // 4), idx
    yield "fortran", np.asfortranarray(m), m.shape, idx
    yield "strided", np.repeat(a, 3)[::3], a.shape, np.arange(a.size)
    ro = a.copy()
    ro.flags.writeable = False
    yield "readonly", ro, a.shape, np.arange(a.size)


def threads(n):
    try:
        ctypes.CDLL("libgomp.so.1").omp_set_num_threads(n)
    except OSError:
        pass


class RealFn(Model):
    """One state per (function, block of the lattice); blocks of 16 points."""
    rtol, atol = 1e-12, 1e-12
    chunk = 1

    def fns(self):
        raise NotImplementedError

    def points(self):
        raise NotImplementedError

    def ref(self, fn, x):
        raise NotImplementedError

    def call(self, fn):
        raise NotImplementedError

    def cases(self):
        pts = self.points()
        for fn in self.fns():
            for i in range(0, len(pts), 16):
                yield [fn, pts[i:i + 16]]

    threaded = True

    def check(self, case, t):
        fn, xs = case
        f = self.call(fn)
        want = np.array([self.ref(fn, x) for x in xs])
        tol = dict(rtol=self.rtol, atol=self.atol)
        modes = [{}, {"threaded": False}, {"threaded": True}] if self.threaded else [{}]
        for nt in ((1, 3) if self.threaded else (1,)):
            threads(nt)
            for kw in modes:
                for x, w in zip(xs, want):
                    t.close(f(x, **kw), w, fn, ctx=f"x={x!r}", **tol)
                    t.close(np.ravel(f(np.array(x), **kw)), [w], fn + " 0-d", ctx=f"x={x!r}", **tol)
                    t.close(np.ravel(f(np.array([x]), **kw)), [w], fn + " one element", ctx=f"x={x!r}", **tol)
                for name, arg, shape, idx in shapes(xs):
                    before = np.array(arg, copy=True)
                    got = f(arg, **kw)
                    t.close(got, want[idx].reshape(shape), f"{fn} {name}", **tol)
                    t.expect(np.array_equal(before, np.asarray(arg), equal_nan=True), f"{fn} mutates its argument",
                             lambda: f"{name} {kw}")
        if all(float(x).is_integer() for x in xs):
            t.close(f(np.array(xs, int)), want, fn + " ints", **tol)


class Debye(RealFn):
    name = "debye"

    def fns(self):
        return ["debye_1", "debye_2"]

    def points(self):
        eps = 2.220446049250313e-16
        step = 0.05 if self.thorough else 0.25
        return around([0, 2 * eps ** .5, 2 * 2 ** .5 * eps ** .5, 4.0, 35.35050620855721, 708.3964185322641],
                      [k * step for k in range(1, int(45 / step))] + [60, 100, 300, 700, 800, 1e4, 1e10, 1e100,
                                                                       math.inf, math.nan, -1.0, -1e-300, -math.inf]
                      + list(range(0, 16)) + DECADES)

    def ref(self, fn, x):
        return ref_debye(int(fn[-1]), x)

    def call(self, fn):
        from copulae.special import debye
        return getattr(debye, fn)

    rtol, atol = 1e-12, 0


class Clausen(RealFn):
    name = "clausen"

    def fns(self):
        return ["clausen"]

    def points(self):
        pi = math.pi
        step = 0.05 if self.thorough else 0.2
        pos = around([0, pi * 2.220446049250313e-16, pi, 2 * pi, 3 * pi, 4 * pi, 5 * pi, 6 * pi],
                     [k * step for k in range(1, int(40 / step))] + [100, 101, 1000.5, 1e-300] + list(range(0, 16)) + DECADES[:133])
        return pos + [-x for x in pos if x]

    def ref(self, fn, x):
        return ref_clausen(x)

    def call(self, fn):
        from copulae.special.clausen import clausen
        return clausen


class Dilog(RealFn):
    name = "dilog"

    def fns(self):
        return ["dilog"]

    def points(self):
        step = 0.02 if self.thorough else 0.1
        pos = around([0, 0.01, 0.25, 0.5, 1.0, 1.01, 2.0, 0.1, 2 ** .5],
                     [k * step for k in range(1, int(6 / step))] + [10, 50, 1e3, 1e6, 1e-8, 1e-300, 1e12]
                     + list(range(0, 16)) + DECADES)
        return pos + [-x for x in pos if x]

    def ref(self, fn, x):
        return ref_li2(x)

    def call(self, fn):
        from copulae.special.dilog import dilog
        return dilog


class DilogComplex(Model):
    name = "complex dilog"
    chunk = 1

    def cases(self):
        radii = [0.0, 1e-20, 1e-8, 0.1, 0.2499999, 0.25, 0.2500001, 0.5, 0.7319, 0.732, 0.75, 0.9, 0.97999, 0.98, 0.9801,
                 0.999, 0.9999999, 1.0, 1.0000001, 1.001, 1.02, 1.2, 1.5, 2.0, 3.999, 4.0, 5.0, 100.0, 1e6]
        if self.thorough:
            radii += [round(0.05 * k + 0.013, 4) for k in range(60)]
        for r in radii:
            yield r

    def check(self, r, t):
        from copulae.special.dilog import dilog_complex
        n = 48 if self.thorough else 24
        th = [2 * math.pi * k / n for k in range(-n, n + 1)] + [0.01, -0.01, 3.13, -3.13, 1e-4, -1e-4, 7.0, -7.5]
        if r == 1.0:
            th = [x for x in th if abs(x) > 1e-3 or x == 0]
        want = []
        for a in th:
            z = complex(r * math.cos(a), r * math.sin(a))
            if abs(z.imag) < 1e-14 * max(1, r):
                z = complex(z.real, 0.0)
            want.append(ref_cli2(z))
        # rounding can put a point of the positive axis on either side of the cut: compare those in value and |imag|
        def close(got, w, aspect, ctx=""):
            got, w = np.asarray(got, complex), np.asarray(w, complex)
            if not t.expect(got.shape == w.shape, aspect + " shape", lambda: f"{got.shape} {w.shape}"):
                return
            t.close(got.real, w.real, aspect, rtol=1e-8, atol=1e-8, ctx=f"re {ctx}")
            cut = np.abs(np.sin(np.resize(th, w.size))) < 1e-12
            cut &= (np.cos(np.resize(th, w.size)) * r > 1) & (np.resize(th, w.size) != 0)
            cut = cut.reshape(w.shape)
            t.close(np.where(cut, np.abs(got.imag), got.imag), np.where(cut, np.abs(w.imag), w.imag), aspect,
                    rtol=1e-8, atol=1e-8, ctx=f"im {ctx}")
        rs = np.full(len(th), r)
        ths = np.array(th)
        for nt in (1, 3):
            threads(nt)
            for kw in ({}, {"threaded": False}, {"threaded": True}):
                b1, b2 = rs.copy(), ths.copy()
                close(dilog_complex(b1, b2, **kw), want, "polar vector")
                t.expect(np.array_equal(b1, rs) and np.array_equal(b2, ths), "mutates its argument")
                k = len(th) // 2 * 2
                close(dilog_complex(rs[:k].reshape(2, -1), ths[:k].reshape(2, -1), **kw),
                      np.array(want[:k]).reshape(2, -1), "polar matrix")
        for i, a in enumerate(th):
            got = dilog_complex(r, a)
            t.expect(np.ndim(got) == 0, "scalar shape")
            on_cut = abs(math.sin(a)) < 1e-12 and a != 0 and r * math.cos(a) > 1
            t.close(np.real(got), want[i].real, "polar scalar", 1e-8, 1e-8, ctx=f"theta={a}")
            t.close(abs(np.imag(got)) if on_cut else np.imag(got), abs(want[i].imag) if on_cut else want[i].imag,
                    "polar scalar", 1e-8, 1e-8, ctx=f"theta={a}")
        zs = [complex(r * math.cos(a), r * math.sin(a)) for a in th]
        keep = [i for i, z in enumerate(zs) if abs(z.imag) > 1e-13 * max(1, r)]
        if keep:
            z = np.array([zs[i] for i in keep])
            zb = z.copy()
            got = np.atleast_1d(dilog_complex(z))
            t.close(got.real, [want[i].real for i in keep], "cartesian", 1e-8, 1e-8)
            t.close(got.imag, [want[i].imag for i in keep], "cartesian", 1e-8, 1e-8)
            t.expect(np.array_equal(z, zb), "mutates its argument")


class Logs(RealFn):
    name = "log helpers"
    threaded = False
    rtol, atol = 1e-12, 1e-300

    def fns(self):
        return ["log1mexp", "log1pexp"]

    def points(self):
        pos = around([0, math.log(2), 18.0, 33.3, 37.0], [k * 0.25 for k in range(1, 40)] + [50, 100, 300, 700, 709, 745,
                     800, 1e4, 1e300, 1e-300, 1e-20, math.inf, math.nan] + list(range(0, 16)))
        return pos

    def cases(self):
        yield from super().cases()
        pts = self.points()
        neg = [-x for x in pts if x and x == x]
        for i in range(0, len(neg), 16):
            yield ["log1pexp", neg[i:i + 16]]

    def ref(self, fn, x):
        if x != x:
            return math.nan
        if fn == "log1mexp":
            if x == 0:
                return -math.inf
            if x < 0:
                return math.nan
            return math.log(-math.expm1(-x)) if x < 0.7 else math.log1p(-math.exp(-x))
        return x + math.log1p(math.exp(-x)) if x > 0 else math.log1p(math.exp(x))

    def call(self, fn):
        from copulae import special
        return getattr(special, fn)


class Trig(Model):
    name = "trigonometric"

    def cases(self):
        for fn in ("cospi", "cospi2", "sinpi", "sinpi2", "tanpi", "tanpi2"):
            for i in range(0, 64):
                yield [fn, i]

    def check(self, case, t):
        from copulae.special import trig
        fn, i = case
        f = getattr(trig, fn)
        den = 2 if fn.endswith("2") else 1
        base = {"c": math.cos, "s": math.sin, "t": math.tan}[fn[0]]
        xs = [(i * 8 + k - 256) / 48 for k in range(8)]
        if fn[0] == "t":
            xs = [x for x in xs if abs(math.cos(math.pi * x / den)) > 1e-3]
        if not xs:
            return
        want = [base(math.pi * math.remainder(x, 2 * den) / den) for x in xs]
        for x, w in zip(xs, want):
            got = f(x)
            t.expect(np.ndim(got) == 0, "scalar")
            t.close(got, w, fn, 1e-9, 1e-12)
        if len(xs) > 1:
            a = np.array(xs)
            t.close(f(a), want, fn + " vector", 1e-9, 1e-12)
            t.close(f(xs), want, fn + " list", 1e-9, 1e-12)
            t.expect(np.array_equal(a, xs), "mutates")
            if len(xs) == 8:
                t.close(f(a.reshape(2, 4)), np.reshape(want, (2, 4)), fn + " matrix", 1e-9, 1e-12)
            ints = [x for x in xs if float(x).is_integer()]
            if len(ints) > 1:
                t.close(f(np.array(ints, int)), [want[xs.index(x)] for x in ints], fn + " ints", 1e-9, 1e-12)


class Threads(Model):
    """Every split of the index range: array lengths x team sizes, for each vectorised function."""
    name = "thread teams"
    chunk = 1

    def cases(self):
        for fn in ("debye_1", "debye_2", "clausen", "dilog", "dilog_complex"):
            for n in list(range(1, 25 if self.thorough else 14)) + [31, 32, 33, 63, 64, 65, 97, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2001, 4097, 10001, 65537]:
                yield [fn, n]

    def check(self, case, t):
        from copulae.special import clausen, debye, dilog
        fn, n = case
        f = {"debye_1": debye.debye_1, "debye_2": debye.debye_2, "clausen": clausen.clausen,
             "dilog": dilog.dilog, "dilog_complex": dilog.dilog_complex}[fn]
        base = np.array([(7 * k % 23) * 0.31 + 0.05 for k in range(n)])
        args = [base] if fn != "dilog_complex" else [base, np.array([(5 * k % 19) * 0.3 - 2.7 for k in range(n)])]
        single = np.array([np.ravel(f(*[np.array([a[i]]) for a in args]))[0] for i in range(min(n, 437))])[np.arange(n) % 437]
        for nt in (1, 2, 3, 4, 5, 8):
            threads(nt)
            for _ in range(2):
                got = np.ravel(f(*[a.copy() for a in args], threaded=True))
                t.expect(got.shape == single.shape and np.array_equal(got, single), "threaded differs",
                         lambda: f"{nt} threads")
        got = np.ravel(f(*[a.copy() for a in args], threaded=False))
        t.expect(np.array_equal(got, single), "serial differs")
        for kw in ({}, {"threaded": True}, {"threaded": False}):
            for shape in [(1, n), (n, 1)] + [(n // 2, 2), (2, n // 2)] * (n % 2 == 0):
                got = np.asarray(f(*[a.reshape(shape) for a in args], **kw))
                t.expect((got.shape == shape or n == 1) and np.array_equal(got.ravel(), single), "matrices", lambda: "%r %r" % (shape, kw))
        threads(1)


MODELS = [Debye, Clausen, Dilog, DilogComplex, Logs, Trig, Threads]
RULE = ("one state per block of 16 lattice points (lattice dense around every branch boundary, both sides at 8 "
        "distances) and function, per radius (complex dilogarithm), or per (array length, function) for thread teams")
ASSUMPTIONS = ["the interleavings inside one OpenMP loop are not controlled; every static split of the index range for "
               "team sizes 1,2,3,4,5,8 is executed and compared with single-element calls"]
