"""Helpers behind inversions and samplers: the root finder on every small function and bracket, and the logarithmic series
sampler on a grid of random numbers."""
import itertools
import math

import numpy as np

from .. import sweep
from ..core import Model
from .c17 import feed

RULE = ("all piecewise linear functions with values -1, 0, 1 on six nodes and shapes x locations x directions of monotone functions, x all brackets in either "
        "order x minimum expansions x numbers of expansions; logarithmic series: parameter sweep, every draw of a grid of random numbers")
ASSUMPTIONS = ["a root outside of the bracket has to be found when max_iter - 1 expansions by delta reach it; beyond that, only a root or an AssertionError is allowed"]

SHAPES = {"line": lambda z: z, "cube": lambda z: z ** 3, "steep": lambda z: math.tanh(200 * z), "flat": lambda z: z * 1e-12, "exp": lambda z: math.expm1(min(z, 700.0)),
          "tiny": lambda z: z * 1e-200, "huge": lambda z: z * 1e150, "step": lambda z: math.copysign(1.0, z) if z else 0.0, "kink": lambda z: z if z < 0 else 1e-3 * z,
          "infinite": lambda z: math.inf if z > .7 else -math.inf if z < -.7 else z}
POS = [-900.0, -40.0, -3.0, -1.0, -.25, 0.0, 1e-3, .5, 1.0, 2.0, 17.0, 1000.0]


class Monotone(Model):
    """One root, anywhere relative to the bracket."""
    name = "monotone functions"

    def cases(self):
        for sh in SHAPES:
            for sign in (1, -1):
                for r in POS + ([-1e6, .1, 1 / 3, 7e4] if self.thorough else []):
                    yield {"shape": sh, "sign": sign, "root": r}

    def check(self, c, t):
        from copulae.special.optimize import find_root
        r, sign, g = c["root"], c["sign"], SHAPES[c["shape"]]
        calls = []

        def f(x):
            calls.append(x)
            return sign * g(x - r)
        for a, b in itertools.product(POS, repeat=2):
            if a == b:
                continue
            lo, hi = min(a, b), max(a, b)
            for delta, n in ((None, None), (.5, 8), (3.0, 40), (1e-3, 3)):
                kw = {} if delta is None else {"delta": delta, "max_iter": n}
                reach = ((n or 1000) - 1) * (delta or 1e-6)
                ctx = "%r on (%r, %r) %r" % (c, a, b, kw)
                del calls[:]
                try:
                    x = find_root(f, a, b, **kw)
                except AssertionError:
                    t.expect(not lo - reach <= r <= hi + reach, "a root within reach is found", lambda: "%s: no root found" % ctx)
                    continue
                except Exception as e:  # noqa
                    t.fail("a root within reach is found", "%s: %s: %s" % (ctx, type(e).__name__, e))
                    continue
                tol = 1e-9 * max(1, abs(r))
                t.expect(np.ndim(x) == 0 and abs(x - r) <= tol, "the root", lambda: "%s: %r" % (ctx, x))
                if r in (a, b):
                    t.expect(x == r, "a bound that is the root", lambda: "%s: %r" % (ctx, x))
                if lo <= r <= hi:
                    t.expect(min(calls) >= lo and max(calls) <= hi, "no call outside a good bracket", lambda: "%s: called at %r, %r" % (ctx, min(calls), max(calls)))


class Piecewise(Model):
    """Every function with values -1, 0, 1 at six nodes, straight in between and constant outside."""
    name = "piecewise linear functions"
    chunk = 4

    def cases(self):
        for v in itertools.product((-1.0, 0.0, 1.0), repeat=6):
            yield {"v": list(v)}

    def check(self, c, t):
        from copulae.special.optimize import find_root
        v = c["v"]

        def f(x):
            return float(np.interp(x, range(6), v))
        for a, b in itertools.permutations((-1, 0, 1, 2.5, 4, 5, 6.0), 2):
            ctx = "%r (%r, %r)" % (v, a, b)
            for kw in ({}, {"delta": .3, "max_iter": 30}):
                try:
                    x = find_root(f, a, b, **kw)
                except AssertionError:
                    lo, hi = min(a, b), max(a, b)
                    same = f(a) * f(b) > 0
                    gone = same and (not kw or f(-20) * f(20) >= 0 or any(v[i] == 0 for i in (0, 5)))
                    t.expect(gone or not same and f(a) * f(b) >= 0 and 0 not in (f(a), f(b)), "a root within reach is found", lambda: "%s %r: no root found" % (ctx, kw))
                    continue
                h = 1e-7
                t.expect(math.isfinite(x) and abs(f(x)) < 1e-6 or f(x - h) * f(x + h) <= 0, "a root", lambda: "%s %r: f(%r) = %r" % (ctx, kw, x, f(x)))
                if f(a) * f(b) < 0:
                    t.expect(min(a, b) <= x <= max(a, b), "a root inside the bracket", lambda: "%s %r: %r" % (ctx, kw, x))


class None_(Model):
    """No root at all."""
    name = "no root"

    def cases(self):
        for nm in ("exp", "one", "minus", "square", "nan", "nan at the bounds", "nan outside"):
            for a, b in itertools.permutations((-10.0, -1.0, 0.0, .5, 3.0), 2):
                yield {"f": nm, "a": a, "b": b}
        for a, b in ((-math.inf, 1.0), (0.0, math.inf), (-math.inf, math.inf), (math.nan, 1.0), (0.0, math.nan)):
            yield {"f": "line", "a": repr(a), "b": repr(b)}
        for nm in ("None", "3", "'x'"):
            yield {"f": nm, "a": 0.0, "b": 1.0}

    def check(self, c, t):
        from copulae.special.optimize import find_root
        a, b = float(c["a"]), float(c["b"])
        f = {"exp": np.exp, "one": lambda x: 1.0, "minus": lambda x: -2.0, "square": lambda x: x * x + 1e-3, "nan": lambda x: math.nan,
             "nan at the bounds": lambda x: math.nan if x in (a, b) else 1.0, "nan outside": lambda x: 1.0 if min(a, b) <= x <= max(a, b) else math.nan,
             "line": lambda x: x - .5, "None": None, "3": 3, "'x'": "x"}[c["f"]]
        t.raises(AssertionError, lambda: find_root(f, a, b), "no root is an error", repr(c))
        t.raises(AssertionError, lambda: find_root(f, a, b, delta=.7, max_iter=25), "no root is an error", repr(c))


class LogSeries(Model):
    """P(X = k) = -p^k / (k log(1 - p)) with p = 1 - exp(alpha)."""
    name = "logarithmic series"
    chunk = 2

    def cases(self):
        for m in sweep.magnitudes(-6, 2, sweep.FINE if self.thorough else sweep.STEPS) + [150.0, 300.0, 700.0]:
            yield {"alpha": -m}

    def check(self, c, t):
        from copulae.stats.log import random_log_series_ln1p as draw
        al = c["alpha"]
        n = 300 ** 2
        x = feed(lambda k: draw(al, k), n)
        t.outcome = "grid" if x is not None else "generator"
        tol = .004
        if x is None:
            np.random.seed(7)
            x, tol = draw(al, 200000), .009
        t.expect(x.shape in ((n,), (200000,)) and not np.isnan(x).any() and (x >= 1).all() and (x[np.isfinite(x)] == np.floor(x[np.isfinite(x)])).all(), "positive whole numbers", repr(c))
        p = -math.expm1(al)
        tot = 0.0
        for k in (1, 2, 3, 4, 5, 6, 8, 10, 20):
            want = sum(p ** j / (j * -al) for j in range(1, k + 1))
            got = (x <= k).mean()
            t.expect(abs(got - want) <= tol, "law", lambda: "%r: P(X <= %d) = %g instead of %g" % (c, k, got, want))
        # weak dependence hangs on the rare values above one
        want = 1 - p / -al
        if want > 1e-3:
            t.expect(abs((x > 1).mean() - want) <= .1 * want + 2e-5, "law", lambda: "%r: P(X > 1) = %g instead of %g" % (c, (x > 1).mean(), want))
        for size in (1, 2, 7, (3,), (4, 2)):
            np.random.seed(3)
            a = draw(al, size)
            np.random.seed(3)
            t.expect(np.shape(a) == ((size,) if np.ndim(size) == 0 else size) and np.array_equal(a, draw(al, size)), "shape and seed", lambda: "%r size %r: %r" % (c, size, a))


MODELS = [Monotone, Piecewise, None_, LogSeries]
