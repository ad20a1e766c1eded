"""log=True versus log=False on every (function, object, row) of the alphabet."""
import itertools

import numpy as np

from .. import cops
from ..core import Model

AX = [0.0, 1e-6, 0.005, 0.0101, 0.1, 0.3, 0.5, 0.7, 0.9, 0.99, 1 - 1e-6, 1.0]
REAL = [-3.0, -1.0, 0.0, 0.25, 0.5, 1.5, 2.0, 4.0]


def noisy(s, fn):
    """dim >= 3 normal integrals are evaluated by a randomised rule."""
    base = s.get("inner", s)
    return fn == "cdf" and base["f"] in ("gaussian", "gmc") and base.get("d", 2) >= 3 or \
        (fn == "cdf" and s["f"] == "gmc" and len(s["means"][0]) >= 3)


def compare(t, plain, logv, default, ctx, tol=1e-9):
    plain, logv, default = (np.atleast_1d(np.asarray(v, float)) for v in (plain, logv, default))
    if plain.shape != logv.shape or plain.shape != default.shape:
        t.fail("shape", "%s: shapes %s %s %s" % (ctx, plain.shape, logv.shape, default.shape))
        return
    t.close(default, plain, "default", rtol=tol, atol=tol if tol > 1e-6 else 0, ctx=ctx + " omitted switch")
    m = (plain > 1e-300) & np.isfinite(plain)
    with np.errstate(all="ignore"):
        # a relative error of the plain value is an absolute one of its log
        lo = np.log(plain[m])
    if tol > 1e-6:
        m2 = plain[m] > 0.01
        t.close(logv[m][m2], lo[m2], "log", rtol=0, atol=tol * 100, ctx=ctx)
        t.expect(np.isfinite(logv[m]).all(), "log finite", ctx)
    else:
        t.close(logv[m], lo, "log", rtol=1e-9, atol=tol, ctx=ctx)
    z = plain == 0
    t.expect(not (np.isfinite(logv[z]) & (logv[z] > -650)).any(), "log of zero", lambda: "%s: plain 0 but log %r" % (ctx, logv[z][:3]))
    t.step(int(m.sum()))


class CdfPdf(Model):
    name = "cdf and pdf"
    chunk = 2

    def cases(self):
        pool = list(cops.archimedean((2, 3))) + list(cops.gaussian((2, 3))) + list(cops.student((2, 3), dfs=[1.0, 4.0, 30.0])) + list(cops.zoo())
        if self.thorough:
            pool += list(cops.archimedean((4,))) + list(cops.gaussian((4,))) + list(cops.student((4,), dfs=[1.0, 4.0, 30.0]))
        for s in pool:
            for fn in ("cdf", "pdf"):
                if fn == "cdf" and s["f"] == "student":
                    continue
                if fn == "pdf" and (s["f"] == "empirical" and s.get("smoothing") != "beta" or s["f"] == "clayton" and s["p"] == -1):
                    continue
                yield {"s": s, "fn": fn}

    def check(self, case, t):
        s, fn = case["s"], case["fn"]
        d = s.get("d") or len(s["means"][0])
        axis = REAL if s["f"] in ("marginal", "gmc") else (AX if d == 2 else AX[::2] if d == 3 else AX[1::3])
        if s["f"] in ("marginal", "gmc") and d == 3:
            axis = REAL[::2]
        G = cops.grid(axis, d)
        if s["f"] in ("clayton", "gumbel"):
            G = G[cops.representable(s, np.clip(G, 1e-300, 1))]
        if fn == "pdf" and s["f"] not in ("marginal", "gmc"):
            G = G[((G > 0) & (G < 1)).all(1)]
        f = getattr(cops.make(s), fn)
        tol = 1e-3 if noisy(s, fn) else 1e-7 if s["f"] in ("gaussian", "marginal") else 1e-9
        for chunk in (G, G[:1]):
            compare(t, f(chunk.copy(), log=False), f(chunk.copy(), log=True), f(chunk.copy()), "%s %s" % (s, fn), tol)
            compare(t, f(chunk.copy(), False), f(chunk.copy(), True), f(chunk.tolist()), "%s %s positional" % (s, fn), tol)


class Generators(Model):
    """ipsi and dipsi (magnitude) of the Archimedean families."""
    name = "generators"

    def cases(self):
        for s in cops.archimedean((2, 3)):
            yield s

    def check(self, s, t):
        c = cops.make(s)
        u = np.array([1e-6, 0.001, 0.005, 0.01, 0.0101, 0.05, 0.1, 0.3, 0.5, 0.7, 0.9, 0.99, 0.999])
        u = u[cops.representable(s, u[:, None])]
        for name, args in (("ipsi", {}), ("dipsi", {"degree": 1}), ("dipsi", {"degree": 2})):
            f = getattr(c, name)
            for x in (u, u[:1], float(u[-1])):
                p, l, d = f(x, log=False, **args), f(x, log=True, **args), f(x, **args)
                compare(t, np.abs(p), l, np.abs(d), "%s %s%r" % (s, name, args), 1e-9)
                t.close(d, p, "default sign", rtol=0, atol=0, ctx="%s %s%r" % (s, name, args))


class Kernels(Model):
    """Coefficient, polynomial and sum functions with a log switch."""
    name = "kernels"

    def cases(self):
        for a in (0.05, 0.3, 0.5, 0.75, 0.95, 1.0):
            for d in (1, 2, 3, 5, 8, 12):
                yield {"fn": "gumbel", "alpha": a, "d": d}
        for d in (2, 3, 5):
            for s in (-6, -4, -3, -2, -1, 0, 1):
                yield {"fn": "polylog", "s": s}

    def check(self, case, t):
        if case["fn"] == "gumbel":
            from copulae.archimedean.gumbel import gumbel_coef, gumbel_poly
            from copulae.archimedean.auxiliary import dsum_sibuya
            a, d = case["alpha"], case["d"]
            for m in ("sort", "horner", "direct", "log", "ds.direct", "diff"):
                f = lambda **k: gumbel_coef(d, a, m, **k)
                compare(t, f(log=False), f(log=True), f(), "gumbel_coef %r %s" % (case, m), 1e-6 if m in ("horner", "sort", "diff") else 1e-8)
            lx = np.log([0.05, 0.5, 1.0, 2.0, 10.0])
            for m in ("default", "pois", "direct", "log", "sort"):
                f = lambda **k: gumbel_poly(lx, a, d, m, **k)
                compare(t, f(log=False), f(log=True), f(), "gumbel_poly %r %s" % (case, m), 1e-7)
            for m in ("direct", "log", "diff"):
                n = np.arange(1, d + 1)
                f = lambda **k: dsum_sibuya(np.full(d, d), n, a, m, **k)
                compare(t, f(log=False), f(log=True), f(), "dsum_sibuya %r %s" % (case, m), 1e-6)
        else:
            from copulae.special.special_func import poly_log
            z = np.array([0.001, 0.1, 0.3, 0.5, 0.9, 0.99])
            s = case["s"]
            f0, f1, f = (lambda x, **k: poly_log(x, s, log=False)), (lambda x, **k: poly_log(x, s, log=True)), (lambda x: poly_log(x, s))
            for x in (z, z[:1], 0.5):
                compare(t, f0(x), f1(x), f(x), "poly_log %d" % s, 1e-9)


MODELS = [CdfPdf, Generators, Kernels]
RULE = ("states: (object, function) pairs over every family, dimension and parameter of the alphabet; transitions: rows "
        "compared on a Cartesian grid, for arrays and single rows, switch given by keyword, positionally and omitted")
ASSUMPTIONS = ["dim >= 3 normal integrals are randomised: compared within 1e-3 (plain) only where the value exceeds 0.01",
               "the log of a derivative function is the log of its magnitude",
               "plain values below 1e-300 are treated as underflow"]
