"""Every integer argument up to a bound (and every rational alpha of a lattice) of every combinatorial / polynomial
kernel, every computation method, scalar and vector calls, against exact integer or rational arithmetic."""
import itertools
import math
from fractions import Fraction as F
from functools import lru_cache

import numpy as np

from ..core import Model


@lru_cache(None)
def s1(n, k):
    """signed Stirling numbers of the first kind"""
    if n == 0 or k == 0:
        return int(n == k)
    if k > n:
        return 0
    return s1(n - 1, k - 1) - (n - 1) * s1(n - 1, k)


@lru_cache(None)
def s2(n, k):
    if n == 0 or k == 0:
        return int(n == k)
    if k > n:
        return 0
    return s2(n - 1, k - 1) + k * s2(n - 1, k)


@lru_cache(None)
def euler(n, k):
    if n == 0:
        return int(k == 0)
    if k < 0 or k >= n:
        return 0
    return (n - k) * euler(n - 1, k - 1) + (k + 1) * euler(n - 1, k)


def binom(a, k):
    """generalised binomial coefficient, exact"""
    r = F(1)
    for i in range(k):
        r = r * (F(a) - i) / (i + 1)
    return r


def sibuya(x, n, a):
    return sum((-1) ** (x + j) * math.comb(n, j) * binom(a * j, x) for j in range(n + 1))


def gcoef(d, k, a):
    return (-1) ** (d - k) * sum(a ** j * s1(d, j) * s2(j, k) for j in range(k, d + 1))


ALPHAS = [F(1), F(1, 2), F(1, 4), F(3, 4), F(9, 10), F(1, 3), F(1, 10)]


class Integers(Model):
    name = "integer sequences"

    def cases(self):
        for n in range(0, 41 if self.thorough else 26):
            yield n

    def check(self, n, t):
        from copulae import special as sp
        for k in range(0, n + 1):
            t.expect(sp.stirling_first(n, k) == s1(n, k), "stirling1", lambda: (n, k))
            t.expect(sp.stirling_second(n, k) == s2(n, k), "stirling2", lambda: (n, k))
            t.expect(sp.eulerian(n, k) == euler(n, k), "eulerian", lambda: (n, k, sp.eulerian(n, k), euler(n, k)))
        t.expect(list(sp.stirling_first_all(n)) == [s1(n, k) for k in range(1, n + 1)], "stirling1 all")
        t.expect(list(sp.stirling_second_all(n)) == [s2(n, k) for k in range(1, n + 1)], "stirling2 all")
        if n > 0:
            t.expect(list(sp.eulerian_all(n)) == [euler(n, k) for k in range(n)], "eulerian all")
        for f in (sp.stirling_first, sp.stirling_second, sp.eulerian):
            t.raises((AssertionError, ValueError), lambda: f(n, n + 1), "accepted k>n")
            t.raises((AssertionError, ValueError), lambda: f(n, -1), "accepted k<0")
            t.raises((TypeError, ValueError), lambda: f("a", 0), "accepted text")


class Binomials(Model):
    name = "binomials"

    def cases(self):
        for n in range(0, 61 if self.thorough else 31):
            yield n

    def check(self, n, t):
        from copulae.special import comb, perm
        rs = list(range(0, n + 1))
        for f, g in ((comb, math.comb), (perm, math.perm)):
            want = [g(n, r) for r in rs]
            lw = [math.log(w) for w in want]
            t.close(f(n, np.array(rs)), want, f.__name__, rtol=1e-10)
            t.close(f(n, rs), want, f.__name__, rtol=1e-10)
            t.close(f(np.full(n + 1, n), np.array(rs)), want, f.__name__, rtol=1e-10)
            t.close(f(n, np.array(rs), log=True), lw, f.__name__ + " log", rtol=1e-10, atol=1e-10)
            t.close(f(n, np.array(rs), True), lw, f.__name__ + " log", rtol=1e-10, atol=1e-10)
            for r in rs:
                t.close(f(n, r), g(n, r), f.__name__, rtol=1e-10)
        # symmetry and Pascal
        if n:
            t.close(comb(n, np.array(rs)), comb(n, n - np.array(rs)), "symmetry")


class SignFF(Model):
    name = "falling factorial signs"

    def cases(self):
        for a in ALPHAS:
            for d in range(0, 13 if self.thorough else 9):
                yield [str(a), d]

    def check(self, case, t):
        from copulae.special import sign_ff
        a, d = F(case[0]), case[1]
        js = list(range(0, d + 1))

        def sgn(j):
            v = (-1) ** (d + j) * binom(a * j, d)
            return (v > 0) - (v < 0)
        if a.denominator not in (1, 2, 4):
            js = [j for j in js if (a * j).denominator != 1 or j == 0]   # alpha*j not exactly representable otherwise
        if d == 0:
            js = [j for j in js if a == 1 or (a * j).denominator != 1]
        want = [sgn(j) for j in js]
        if not js:
            return
        t.close(sign_ff(float(a), np.array(js), d), want if len(js) > 1 else want[0], "vector j", ctx=str(js))
        t.close(sign_ff(float(a), js, np.full(len(js), d)), want if len(js) > 1 else want[0], "vectors")
        t.close(sign_ff(float(a), js * 2, [d] * len(js)), want * 2, "recycle d")
        for j, w in zip(js, want):
            t.close(sign_ff(float(a), j, d), w, "scalars", ctx=f"j={j}")
            t.close(sign_ff(float(a), j, [d, d]), [w, w], "scalar j", ctx=f"j={j}")
        for bad in (0, -0.5, 1.5):
            t.raises((AssertionError, ValueError), lambda: sign_ff(bad, js, d), "alpha accepted")
        t.raises((AssertionError, ValueError), lambda: sign_ff(float(a), [-1, 1], d), "j accepted")
        t.raises((AssertionError, ValueError), lambda: sign_ff(float(a), js, -1), "d accepted")


class SignFFVectors(Model):
    """Every pair of short integer vectors: the shorter one is recycled, in the order given."""
    name = "falling factorial signs of vectors"
    chunk = 8

    def cases(self):
        for m in range(1, 4):
            for js in itertools.product((0, 1, 2, 3), repeat=m):
                yield list(js)

    def check(self, js, t):
        from copulae.special import sign_ff

        def sgn(a, j, d):
            v = (-1) ** (d + j) * binom(a * j, d)
            return (v > 0) - (v < 0)
        for a in (F(1), F(1, 2), F(3, 4)):
            for m in range(1, 5 if self.thorough else 4):
                for ds in itertools.product((3, 4, 5), repeat=m):
                    if a != 1 and any((a * j).denominator == 1 for j in js):
                        continue
                    n = max(len(js), len(ds))
                    want = [sgn(a, js[i % len(js)], ds[i % len(ds)]) for i in range(n)]
                    got = sign_ff(float(a), list(js), np.array(ds))
                    t.close(got, want if n > 1 else want[0], "recycled vectors", ctx="alpha=%s j=%r d=%r" % (a, js, ds))


class Sibuya(Model):
    name = "sibuya sums"

    def cases(self):
        for a in ALPHAS:
            for n in range(1, 9 if self.thorough else 7):
                yield [str(a), n]

    def check(self, case, t):
        from copulae.archimedean.auxiliary import dsum_sibuya
        a, n = F(case[0]), case[1]
        xs = list(range(0, n + 5))
        exact = [sibuya(x, n, a) for x in xs]
        want = [float(v) for v in exact]
        # independent sanity of the reference: first n-1 values vanish
        t.expect(all(v == 0 for v in exact[:n]), "reference")
        for m in ("log", "direct", "diff"):
            tol = dict(rtol=1e-7, atol=1e-9)
            t.close(dsum_sibuya(np.array(xs), np.full(len(xs), n), float(a), m), want, m + " vector", **tol)
            t.close(dsum_sibuya(xs, n, float(a), m), want, m + " recycle n", **tol)
            t.close(dsum_sibuya(xs, n, float(a), method=m.upper()), want, m + " case", **tol)
            for x, w in zip(xs, want):
                t.close(np.ravel(dsum_sibuya(x, n, float(a), m)), [w], m + " scalar", **tol)
            lg = np.exp(np.ravel(dsum_sibuya(xs, n, float(a), m, log=True)))
            for x, w, l in zip(xs, want, lg):
                if w > 1e-6 or (x < n and m == "log"):
                    t.close(l, w, m + " log", **tol)
        t.close(dsum_sibuya(xs, n, float(a)), want, "default")
        ns = list(range(1, n + 1))
        t.close(dsum_sibuya(n, ns, float(a), "direct"), [float(sibuya(n, k, a)) for k in ns], "recycle x", atol=1e-9)
        for bad in (0, -1, 1.01):
            t.raises((AssertionError, ValueError), lambda: dsum_sibuya(xs, n, bad), "alpha accepted")
        t.raises((AssertionError, ValueError), lambda: dsum_sibuya(xs, -1, float(a)), "n accepted")
        if a != 1:
            t.raises((AssertionError, ValueError), lambda: dsum_sibuya(xs, n, float(a), "nope"), "method accepted")


class GumbelCoef(Model):
    name = "gumbel coefficients"

    def cases(self):
        for a in ALPHAS:
            for d in range(1, 13 if self.thorough else 9):
                yield [str(a), d]

    def check(self, case, t):
        from copulae.archimedean.gumbel import gumbel_coef
        a, d = F(case[0]), case[1]
        exact = [gcoef(d, k, a) for k in range(1, d + 1)]
        want = np.array([float(v) for v in exact])
        scale = max(1.0, want.max())
        for m in ("sort", "horner", "direct", "log", "ds.direct", "diff"):
            tol = dict(rtol=1e-6, atol=1e-9 * scale)
            t.close(gumbel_coef(d, float(a), m), want, m, **tol)
            t.close(gumbel_coef(d, float(a), m.upper(), False), want, m, **tol)
            lg = gumbel_coef(d, float(a), m, log=True)
            t.expect(np.shape(lg) == (d,), m + " shape")
            for k in range(d):
                if want[k] > 1e-4 * scale:
                    t.close(lg[k], math.log(want[k]), m + " log", rtol=1e-6, atol=1e-6, ctx=f"k={k + 1}")
        t.close(gumbel_coef(d, float(a)), want, "default", rtol=1e-6, atol=1e-9 * scale)
        t.raises((AssertionError, ValueError), lambda: gumbel_coef(d, 0.0), "alpha accepted")
        t.raises((AssertionError, ValueError), lambda: gumbel_coef(d, 1.5), "alpha accepted")
        t.raises((AssertionError, ValueError), lambda: gumbel_coef(0, float(a)), "d accepted")
        t.raises((AssertionError, ValueError), lambda: gumbel_coef(d, float(a), "nope"), "method accepted")


class GumbelPoly(Model):
    name = "gumbel polynomials"

    def cases(self):
        for a in ALPHAS[1:]:
            for d in list(range(1, 13 if self.thorough else 9)) + [20, 33]:
                yield [str(a), d]
        if self.thorough:
            for a in ALPHAS[1:]:
                for d in (45, 60):   # beyond that the double precision formulas themselves lose all accuracy
                    yield [str(a), d]

    def check(self, case, t):
        from copulae.archimedean.gumbel import gumbel_poly
        a, d = F(case[0]), case[1]
        cf = [gcoef(d, k, a) for k in range(1, d + 1)]
        lxs = [-3.0, -1.0, 0.0, 0.5, 2.0]
        ex = []
        for lx in lxs:
            x = F(math.exp(lx))
            ex.append(sum(c * x ** k for k, c in enumerate(cf, 1)))
        lw = np.array([math.log(v) if v < 10 ** 300 else math.log(v.numerator) - math.log(v.denominator) for v in ex])
        methods = ["default"]
        if d <= 8:
            methods += ["pois", "direct", "log", "sort"]
        for m in methods:
            tol = dict(rtol=1e-6, atol=1e-6)
            t.close(gumbel_poly(np.array(lxs), float(a), d, m, log=True), lw, m + " log", **tol)
            if d <= 20:
                t.close(gumbel_poly(np.array(lxs), float(a), d, m), np.exp(lw), m, rtol=1e-5, atol=0)
                t.close(gumbel_poly(np.array(lxs[:4]).reshape(2, 2), float(a), d, m),
                        np.exp(lw[:4]).reshape(2, 2), m + " shape", rtol=1e-5, atol=0)
                t.close(gumbel_poly(lxs, float(a), d, m), np.exp(lw), m + " list", rtol=1e-5, atol=0)
        t.close(gumbel_poly(np.array(lxs), float(a), d, log=True), lw, "default", rtol=1e-6, atol=1e-6)
        t.raises((AssertionError, ValueError), lambda: gumbel_poly(np.array(lxs), 1.5, d), "alpha accepted")
        t.raises((AssertionError, ValueError), lambda: gumbel_poly(np.array(lxs), float(a), 0), "d accepted")


def log_gumbel_coefs(d, a):
    """log of the (positive) coefficients of the Gumbel polynomial, from exact integers"""
    p, q = a.numerator, a.denominator
    pw = [p ** j * q ** (d - j) * s1(d, j) for j in range(d + 1)]
    cf = [(-1) ** (d - k) * sum(pw[j] * s2(j, k) for j in range(k, d + 1)) for k in range(1, d + 1)]
    return np.array([math.log(c) for c in cf]) - d * math.log(q)


class HighPoly(Model):
    """High dimensions: every vector of arguments gives the values of its entries, and the default method is accurate
    where the method it has to choose there is free of cancellation."""
    name = "gumbel polynomials in high dimensions"
    chunk = 1

    LX = (-3.0, 0.0, 1.0, 2.0, 3.0, 3.8, 4.5, 6.0, 7.0)

    @staticmethod
    def accurate(d, a, lx):
        if d <= 30 or a == 1:
            return True
        if d <= 50:
            return a <= F(3, 5) or a >= F(17, 20)
        if d <= 70:
            return a <= F(9, 20) or a >= F(17, 20)
        if d <= 90:
            return a <= F(7, 20) or a >= F(17, 20) or lx <= 3.5
        if d <= 120:
            return a <= F(1, 5) or a >= F(9, 20) and lx <= 3.0
        if d <= 170:
            return a <= F(1, 5) or a >= F(7, 20) and lx <= 3.0
        return d <= 200 and a >= F(1, 5) and lx <= 2.0

    def cases(self):
        for d in (10, 20, 30, 31, 45, 50, 51, 60, 70, 71, 80, 90, 91, 100, 120, 121, 150, 170, 171, 190, 200) if self.thorough else (10, 30, 45, 60, 80, 100, 150, 190):
            for a in (F(1, 20), F(1, 5), F(7, 20), F(9, 20), F(3, 5), F(3, 4), F(17, 20), F(19, 20)):
                yield [str(a), d]

    def check(self, case, t):
        import sys
        from copulae.archimedean.gumbel import gumbel_poly
        sys.setrecursionlimit(10000)
        a, d = F(case[0]), case[1]
        lc = log_gumbel_coefs(d, a)
        ks = np.arange(1, d + 1)
        n = len(self.LX)
        ok = [i for i, lx in enumerate(self.LX) if self.accurate(d, a, lx)]
        want = []
        for lx in self.LX:
            terms = lc + ks * lx
            want.append(terms.max() + math.log(math.fsum(np.exp(terms - terms.max()))))
        want = np.array(want)
        # the methods switch between the entries: every one of these orders starts in another regime
        orders = [list(range(n)), list(range(n))[::-1]]
        if self.thorough or d <= 80:
            orders += [[i] for i in range(n)] + [list(p) for p in itertools.permutations((0, n // 2, n - 1), 2)]
        with np.errstate(all="ignore"):
            for o in orders:
                got = np.ravel(gumbel_poly(np.array([self.LX[i] for i in o]), float(a), d, log=True))
                if t.expect(got.shape == (len(o),), "shape", repr(case)):
                    k = [q for q, i in enumerate(o) if i in ok]
                    t.close(got[k], want[[o[q] for q in k]], "default log", 1e-8, 1e-6, ctx="%r lx=%r" % (case, [self.LX[i] for i in o]))
            small = [i for i in ok if want[i] < 650]
            got = np.ravel(gumbel_poly(np.array([self.LX[i] for i in small]), float(a), d))
            t.close(got, np.exp(want[small]), "default", 2e-6, 0, ctx=repr(case))


class PolyLog(Model):
    name = "polylogarithms"

    def cases(self):
        for s in range(1, -9 if self.thorough else -7, -1):
            yield s

    def check(self, s, t):
        from copulae.special import poly_log
        zs = [-5.0, -1.0, -0.5, -0.1, 0.05, 0.3, 0.5, 0.9, 0.999]
        if s == 1:
            want = [-math.log1p(-z) for z in zs]
        else:
            n = -s
            want = []
            for z in zs:
                z = F(z)
                # Li_{-n}(z) = sum_k k! S(n+1,k+1) (z/(1-z))^(k+1)
                r = z / (1 - z)
                want.append(float(sum(math.factorial(k) * s2(n + 1, k + 1) * r ** (k + 1) for k in range(n + 1))))
                if abs(z) < F(2, 5) and n <= 4:   # the defining series, as a check of the reference
                    ser = sum(F(k) ** n * z ** k for k in range(1, 90))
                    t.close(float(ser), want[-1], "reference", rtol=1e-9)
        for m in (("default",) if s == 1 else ("default", "neg-stirling", "neg-eulerian")):
            t.close(poly_log(np.array(zs), s, m), want, m, rtol=1e-7, atol=1e-9)
            t.close(poly_log(np.array(zs), float(s), m), want, m, rtol=1e-7, atol=1e-9)
            pos = [i for i, z in enumerate(zs) if z > 0]
            got = poly_log(np.array([zs[i] for i in pos]), s, m, log=True)
            t.close(got, [math.log(want[i]) for i in pos], m + " log", rtol=1e-7, atol=1e-7)
            for z, w in zip(zs, want):
                t.close(poly_log(z, s, m), w, m + " scalar", rtol=1e-7, atol=1e-9)
                t.expect(np.ndim(poly_log(z, s, m)) == 0, "scalar type")
        t.close(poly_log(np.array(zs), s), want, "default", rtol=1e-7, atol=1e-9)
        t.raises((AssertionError, ValueError), lambda: poly_log(0.5, s, "nope"), "method accepted")
        t.raises((AssertionError, ValueError), lambda: poly_log(0.5, s - 0.5), "order accepted")
        t.raises((AssertionError, ValueError), lambda: poly_log(0.5, 3), "order accepted")


class PolynEval(Model):
    name = "polynomial evaluation"

    def cases(self):
        al = [-2, 0, 1, 3]
        for m in range(1, 5 if self.thorough else 4):
            for c in itertools.product(al, repeat=m):
                yield list(c)

    def check(self, c, t):
        from copulae.special import polyn_eval
        xs = [-2.0, -0.5, 0.0, 1.0, 3.0]
        want = [sum(cc * x ** i for i, cc in enumerate(c)) for x in xs]
        for co in (c, tuple(c), np.array(c), np.array(c, float), [float(v) for v in c]):
            t.close(polyn_eval(co, xs), want, "list")
            t.close(polyn_eval(co, np.array(xs)), want, "array")
            t.close(polyn_eval(co, [0, 1, 3]), [want[2], want[3], want[4]], "ints")
            for x, w in zip(xs, want):
                t.close(polyn_eval(co, x), w, "scalar")
        if len(c) == 1:
            t.close(polyn_eval(c[0], xs), want, "scalar coef")


class LogSum(Model):
    name = "log sums"

    def cases(self):
        al = [-800.0, -1.0, 0.0, 2.5, 700.0, None]
        for m in range(1, 4):
            for c in itertools.product(al, repeat=m):
                yield list(c)

    def check(self, c, t):
        from copulae.special import log_sum
        x = np.array([-np.inf if v is None else v for v in c])
        mx = x.max()
        want = -np.inf if np.isneginf(mx) else mx + math.log(math.fsum(math.exp(v - mx) for v in x))
        keep = x.copy()
        t.close(log_sum(x), want, "vector", ctx=str(c))
        two = np.array([x, x[::-1]]).T if len(x) > 1 else np.array([x, x]).T
        t.close(log_sum(two), [want, want], "matrix", ctx=str(c))
        fin = x[np.isfinite(x)]
        if len(fin) and fin.max() < 100:
            t.close(log_sum(x, 0.0), want, "offset 0", atol=1e-6) if fin.max() > -100 else None
            t.close(log_sum(two, np.array([mx, mx])), [want, want], "offset vector")
            t.close(log_sum(two, [mx, mx]), [want, want], "offset list")
        t.expect(np.array_equal(keep, x), "mutated")
        t.raises(ValueError, lambda: log_sum(np.zeros((2, 2, 2))), "3d accepted")


MODELS = [Integers, Binomials, SignFF, SignFFVectors, Sibuya, GumbelCoef, GumbelPoly, HighPoly, PolyLog, PolynEval, LogSum]
