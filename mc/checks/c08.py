"""Maximum likelihood fitting against an adversarial optimizer: every probe sequence and every outcome is played."""
import contextlib
import copy
import io
import itertools

import numpy as np

from .. import cops, env, ref
from ..core import Model

NAN, INF = float("nan"), float("inf")
RAW = [[0.3, 2.0, 1.0], [1.1, 0.5, 1.0], [-0.7, -1.0, 2.5], [2.2, 3.1, 4.0], [0.9, 1.7, -1.0], [1.6, 2.4, 3.0], [0.9, 0.2, 2.0]]
UNI = [[.1, .2, .15], [.35, .6, .3], [.55, .4, .8], [.7, .9, .5], [.95, .75, .85], [.2, .3, .6]]
CLS = {"clayton": "ClaytonCopula", "frank": "FrankCopula", "gumbel": "GumbelCopula", "gaussian": "GaussianCopula", "student": "StudentCopula"}
FAMS = [(f, d) for f in CLS for d in (2, 3)]


def probes(fam, d):
    """name -> parameter vector handed to the objective by the optimizer"""
    n = d * (d - 1) // 2
    if fam == "clayton":
        return {"a": [2.0], "b": [0.4], "edge": [0.0], "bad": [-1.5], "nan": [NAN]}
    if fam == "frank":
        return {"a": [3.0], "b": [0.7], "edge": [0.0], "bad": [-2.0] if d == 3 else [NAN], "nan": [NAN]}
    if fam == "gumbel":
        return {"a": [2.0], "b": [1.3], "edge": [1.0], "bad": [0.5], "nan": [NAN]}
    r = {"a": [.5, .3, .4][:n], "b": [-.2, .1, -.3][:n], "edge": [0.] * n, "bad": [1.5, 0, 0][:n], "nan": [NAN, .1, .1][:n]}
    if d == 3:
        r["bad"] = [.9, -.9, .9]
    if fam == "student":
        df = {"a": 4.0, "b": 11.5, "edge": 1.0, "bad": 4.0, "nan": 3.0}
        r = {k: [df[k]] + v for k, v in r.items()}
        r["baddf"] = [-1.0] + r["a"][1:]
        r["zerodf"] = [0.0] + r["a"][1:]
    return r


VALID = ("a", "b", "edge")


def data(kind, d):
    x = np.array(UNI if kind == "uni" else RAW, float)[:, :d]
    return x


_ll = {}


def loglik(fam, d, p, kind, ties):
    """Reference: textbook log density summed over the (pseudo-)observations."""
    key = (fam, d, tuple(p), kind, ties)
    if key not in _ll:
        x = data(kind, d)
        u = x if kind == "uni" else ref.pobs_rows(x, ties)
        spec = {"f": fam, "d": d, "p": p if fam in ("gaussian", "student") else float(p[0])}
        if fam in ("gaussian", "student"):
            _ll[key] = float(cops.ell_logpdf(spec, u).sum())
        else:
            _ll[key] = float(sum(cops.declog(cops.dec_pdf(spec, r)) for r in u))
    return _ll[key]


def params_vec(c, fam):
    p = c.params
    return np.r_[p.df, p.rho] if fam == "student" else np.atleast_1d(np.asarray(p, float))


class Result(dict):
    __getattr__ = dict.get


def new(fam, d):
    import copulae
    return getattr(copulae, CLS[fam])(dim=d)


class Optimizer(Model):
    name = "optimizer behaviours"
    chunk = 2

    def cases(self):
        for fam, d in FAMS:
            toks = list(probes(fam, d))
            for i, first in enumerate(toks):
                for cfg in range(len(CFG)):
                    yield {"family": fam, "d": d, "first": first, "cfg": cfg, "depth": 4 if self.thorough else 3}

    def check(self, case, t):
        fam, d = case["family"], case["d"]
        P = probes(fam, d)
        cfg = CFG[case["cfg"]]
        for n in range(case["depth"]):
            for rest in itertools.product(P, repeat=n):
                seq = [case["first"]] + list(rest)
                for end in ["a", "b", "edge"] + ["fail", "fail:b"]:
                    self.play(fam, d, seq, end, cfg, t)
                    if len(t.fails) > 10:
                        return

    def play(self, fam, d, seq, end, cfg, t):
        P = probes(fam, d)
        kind, scale = cfg["data"], cfg["scale"]
        ties = cfg["ties"]
        c = new(fam, d)
        x = data(kind, d)
        arg = x.copy()
        if cfg["container"] == "df":
            import pandas as pd
            arg = pd.DataFrame(x.copy(), columns=list("pqr")[:d], index=range(5, 5 + len(x)))
        elif cfg["container"] == "list":
            arg = x.tolist()
        orig_arg = copy.deepcopy(arg)
        x0 = None
        if cfg["x0"] == "array":
            x0 = np.array(P["b"])
        elif cfg["x0"] == "scalar":
            x0 = P["b"][0] if len(P["b"]) == 1 else list(P["b"])
        keep_x0 = copy.deepcopy(x0)
        ctx = "%s(%d) probes %r end %r cfg %r" % (fam, d, seq, end, cfg)
        rec = {}

        def fake(orig, fun, start, *a, **kw):
            rec["start"], rec["kw"] = copy.deepcopy(start), copy.deepcopy(kw)
            buf = np.zeros(len(P["a"]))
            for tok in seq:
                buf[:] = P[tok]                # optimizers reuse their buffers
                got = fun(buf)
                if tok in VALID:
                    want = -scale * loglik(fam, d, P[tok], kind, ties)
                    t.close(got, want, "objective", rtol=1e-7, atol=1e-7 * abs(scale), ctx=ctx + " at " + tok)
                else:
                    t.expect(got == INF, "objective at invalid point", lambda: "%s: %r at %s" % (ctx, got, tok))
                t.expect(np.array_equal(buf, P[tok], equal_nan=True), "objective modifies its argument", ctx)
            buf[:] = 77.0
            ok = not end.startswith("fail")
            e = end if ok else (end[5:] or "a")
            xf = np.array(P[e])
            f = -scale * loglik(fam, d, P[e], kind, ties)
            rec["res"] = Result(x=xf, fun=f, success=ok, status=0 if ok else 9, message="done", nit=3, nfev=len(seq))
            from scipy.optimize import OptimizeResult
            rec["res"] = OptimizeResult(rec["res"])
            return rec["res"]
        out = io.StringIO()
        kw = {} if kind == "raw" else {"to_pobs": False}
        if cfg["ties"] != "average":
            kw["ties"] = ties
        with env.handle(minimize=fake), contextlib.redirect_stdout(out):
            r = c.fit(arg, x0=x0, scale=scale, verbose=cfg["verbose"], **kw)
        t.expect(r is c, "returns itself", ctx)
        if cfg["verbose"] == 0:
            t.expect(out.getvalue() == "", "prints at verbosity 0", lambda: "%s: %r" % (ctx, out.getvalue()[:80]))
        same = orig_arg.equals(arg) if cfg["container"] == "df" else np.array_equal(orig_arg, arg)
        t.expect(same, "data modified", ctx)
        t.expect(np.array_equal(np.asarray(keep_x0, dtype=object), np.asarray(x0, dtype=object)), "starting point modified", ctx)
        st = np.ravel(np.asarray(rec["start"], float))
        if x0 is not None:
            t.expect(np.array_equal(st, np.ravel(np.asarray(keep_x0, float))), "starting point ignored", lambda: "%s: %r" % (ctx, st))
        else:
            t.expect(st.shape == (len(P["a"]),) and np.isfinite(st).all(), "starting point", lambda: "%s: %r" % (ctx, st))
        s = c.summary("fit")
        if end in VALID:
            t.close(params_vec(c, fam), np.array(P[end], float), "left behind", ctx=ctx, rtol=0, atol=1e-12)
            t.close(np.ravel(np.asarray(s.params, float)), np.array(P[end], float), "estimate", ctx=ctx, rtol=0, atol=1e-12)
            t.close(s.log_lik, loglik(fam, d, P[end], kind, ties), "log likelihood", rtol=1e-7, atol=1e-7, ctx=ctx)
            before = params_vec(c, fam).copy()
            rec["res"]["x"][...] = 55.0
            t.expect(np.array_equal(params_vec(c, fam), before), "aliasing", ctx + ": the copula shares storage with the optimizer's result")
        else:
            sp = np.ravel(np.asarray(s.params, float))
            t.expect(np.isnan(sp).all() or np.array_equal(sp, params_vec(c, fam)), "estimate of a failed fit", lambda: "%s: %r" % (ctx, sp))
        t.expect(s.nsample == len(x), "sample size", lambda: "%s: %r" % (ctx, s.nsample))
        t.expect(setup_eq(s.setup, rec["kw"]), "setup", lambda: "%s: %r but the optimizer got %r" % (ctx, s.setup, rec["kw"]))
        t.expect(s.results is not None and bool(s.results["success"]) == (end in VALID), "result", ctx)


def setup_eq(a, b):
    try:
        return repr_deep(a) == repr_deep(b)
    except Exception:
        return False


def repr_deep(x):
    if isinstance(x, dict):
        return {k: repr_deep(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, np.ndarray)):
        return [repr_deep(v) for v in x]
    if callable(x):
        return "callable"
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.number)):
        return float(x)
    return x


CFG = [dict(data="raw", scale=1.0, container="array", x0=None, ties="average", verbose=1),
       dict(data="raw", scale=1000.0, container="df", x0="array", ties="max", verbose=0),
       dict(data="uni", scale=0.25, container="list", x0="scalar", ties="average", verbose=1),
       dict(data="uni", scale=1.0, container="df", x0=None, ties="average", verbose=0)]


def merge(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = merge(a[k], v) if isinstance(v, dict) and isinstance(a.get(k), dict) else v
    return out


METHODS = [None, "Nelder-Mead", "nelder-mead", "BFGS", "SLSQP", "slsqp", "COBYLA", "trust-constr", "Powell", "L-BFGS-B", "TNC", "CG"]
FRAGMENTS = [{}, {"options": {}}, {"options": {"maxiter": 7}}, {"options": {"disp": False, "maxiter": 3}}, {"tol": 1e-3},
             {"options": {"maxiter": 9}, "tol": 1e-5}, {"bounds": "user"}, {"bounds": "user", "options": {"maxiter": 11}}]


class Options(Model):
    name = "option dictionaries"

    def cases(self):
        for fam, d in FAMS:
            for m in METHODS:
                yield {"family": fam, "d": d, "method": m}

    def check(self, case, t):
        fam, d, m = case["family"], case["d"], case["method"]
        P = probes(fam, d)
        x = data("raw", d)

        def received(opts, verbose=0, fitted=False):
            rec = {}

            def fake(orig, fun, start, *a, **kw):
                rec["kw"] = copy.deepcopy(kw)
                rec["live"] = kw
                from scipy.optimize import OptimizeResult
                fun(np.array(P["a"]))
                return OptimizeResult(x=np.array(P["a"]), fun=1.0, success=True)
            c = new(fam, d)
            with env.handle(minimize=fake):
                c.fit(x.copy(), optim_options=opts, verbose=verbose)
            rec["c"] = c
            return rec
        base_opts = {} if m is None else {"method": m}
        base = received(copy.deepcopy(base_opts))["kw"]
        none = received(None)["kw"]
        t.expect(repr_deep(received({})["kw"]) == repr_deep(none), "None and {} differ", "%s(%d)" % (fam, d))
        if m is not None:
            t.expect(base["method"] == m, "method", lambda: "%s(%d): %r instead of %r" % (fam, d, base["method"], m))
        user_bounds = [(0.2, 0.8) if fam in ("gaussian", "student") else (1.5, 4.0)] * len(P["a"])
        shared = {}
        for frag in FRAGMENTS:
            u = copy.deepcopy(frag)
            if u.get("bounds") == "user":
                u["bounds"] = list(user_bounds)
            u.update(base_opts)
            given = copy.deepcopy(u)
            ctx = "%s(%d) optim_options=%r" % (fam, d, u)
            rec = received(given)
            want = merge(base, u)
            t.expect(repr_deep(rec["kw"]) == repr_deep(want), "merge", lambda: "%s: optimizer got %r, want %r" % (ctx, rec["kw"], want))
            t.expect(given == u, "options modified", lambda: "%s: became %r" % (ctx, given))
            # a shared dictionary keeps its meaning over fits of other families and classes
            other = new(*[f for f in FAMS if (f[0] in ("gaussian", "student")) != (fam in ("gaussian", "student"))][0])
            shared = copy.deepcopy(u)
            if not frag.get("bounds"):
                with env.handle(minimize=lambda o, fun, s, *a, **k: __import__("scipy.optimize").optimize.OptimizeResult(
                        x=np.atleast_1d(s), fun=1.0, success=True)):
                    other.fit(data("raw", other.dim), optim_options=shared, verbose=0)
                again = received(shared)
                t.expect(repr_deep(again["kw"]) == repr_deep(want), "shared options", lambda: "%s after another fit: %r, want %r" % (ctx, again["kw"], want))
            # neither the optimizer's nor the caller's later writes show up elsewhere
            setup = repr_deep(rec["c"].summary("fit").setup)
            t.expect(setup == repr_deep(want), "setup", lambda: "%s: %r" % (ctx, setup))
            if isinstance(rec["live"].get("options"), dict):
                rec["live"]["options"]["maxiter"] = -5
                t.expect(given == u, "options shared with the optimizer", ctx)


class FixDf(Model):
    name = "fixed degrees of freedom"

    def cases(self):
        for d in (2, 3):
            for df in (2.0, 4.669, 9.0):
                for opts in (None, "empty", "method", "list", "tuple", "dict", "options"):
                    yield {"d": d, "df": df, "opts": opts}

    def check(self, case, t):
        import copulae
        d, df, kind = case["d"], case["df"], case["opts"]
        usercon = {"type": "ineq", "fun": lambda x: x[1] + 0.9}
        opts = {None: None, "empty": {}, "method": {"method": "SLSQP"}, "list": {"constraints": [usercon]}, "tuple": {"constraints": (usercon,)},
                "dict": {"constraints": usercon}, "options": {"options": {"maxiter": 100}}}[kind]
        ctx = "df=%r options %s" % (df, kind)
        for repeat in range(2):     # the same dictionary used twice
            rec = {}

            def fake(orig, fun, start, *a, **kw):
                con = kw.get("constraints", [])
                con = [con] if isinstance(con, dict) else list(con)
                rec["n"] = len(con)
                pts = [[1.5, .2, .1, .3], [7.0, -.2, .1, .3], [df, .5, .1, .3]]
                for p in pts + pts[::-1]:
                    fun(np.array(p[:1 + d * (d - 1) // 2]))
                    for q in pts:
                        v = [k["fun"](np.array(q[:1 + d * (d - 1) // 2])) for k in con if k["type"] == "eq"]
                        t.expect(len(v) == 1 and abs(float(np.ravel(v[0])[0]) - (q[0] - df)) < 1e-12, "constraint",
                                 lambda: "%s: constraint %r at df %r (fixed at %r)" % (ctx, v, q[0], df))
                return orig(fun, start, *a, **kw)
            c = copulae.StudentCopula(d, df=df)
            before = None if opts is None else {k: (list(v) if isinstance(v, (list, tuple)) else v) for k, v in opts.items()}
            with env.handle(minimize=fake):
                c.fit(np.array(RAW)[:, :d], optim_options=opts, fix_df=True, verbose=0)
            after = None if opts is None else {k: (list(v) if isinstance(v, (list, tuple)) else v) for k, v in opts.items()}
            t.expect(before == after, "options modified", lambda: "%s: %r became %r" % (ctx, before, after))
            t.expect(rec["n"] == 1 + (kind in ("list", "tuple", "dict")), "constraints accumulate", lambda: "%s: %d constraints" % (ctx, rec["n"]))
            if c.summary("fit").results["success"]:
                t.close(c.params.df, df, "df moved", rtol=1e-6, atol=1e-6, ctx=ctx)


class RealFits(Model):
    name = "real optimizer"
    chunk = 4

    def cases(self):
        n = 5 if self.thorough else 4
        for fam, d in FAMS:
            for perm in itertools.permutations(range(n)):
                if d == 3 and perm[0] > 1:
                    continue
                yield {"family": fam, "d": d, "perm": list(perm)}
        for fam, d in FAMS:
            for m in METHODS:
                for scale in (1.0, 100.0):
                    yield {"family": fam, "d": d, "method": m, "scale": scale}

    def check(self, case, t):
        fam, d = case["family"], case["d"]
        if "perm" in case:
            n = len(case["perm"])
            # a small sample built from the permutation, doubled with noise-free interleaving so that it is not degenerate
            a = np.array([0.5 + i for i in range(n)] + [0.3, n + .7])
            b = np.array([case["perm"][i] + 0.5 for i in range(n)] + [n + .7, 0.3])
            cc = (np.arange(n + 2) * 5 % 7) + 0.25
            x = np.column_stack([a, b, cc])[:, :d]
            opts, scale = None, 1.0
        else:
            x, opts, scale = data("raw", d), ({"method": case["method"]} if case["method"] else None), case["scale"]
        c = new(fam, d)
        seen = []

        def spy(orig, fun, start, *a, **kw):
            def f(p):
                seen.append(np.array(p, float).copy())
                return fun(p)
            return orig(f, start, *a, **kw)
        u = ref.pobs_rows(x, "average")
        with env.handle(minimize=spy):
            try:
                c.fit(x.copy(), optim_options=opts, verbose=0, scale=scale)
            except ValueError as e:
                # no starting point: Kendall's tau is outside the family's reach in this dimension
                t.expect(d == 3 and fam in ("clayton", "frank"), "fit raises", "%s: %s" % (case, e))
                return
        s = c.summary("fit")
        t.expect(s.nsample == len(x), "sample size", repr(s.nsample))
        if not s.results["success"]:
            return
        p = params_vec(c, fam)
        t.close(np.ravel(s.params), p, "estimate", rtol=0, atol=0, ctx=str(case))
        # an optimizer may run into the singular edge of a density: compare with a fresh copula, not with exact arithmetic
        f = new(fam, d)
        f.params = p
        want = float(np.sum(f.pdf(u, log=True)))
        t.expect(s.log_lik == want or abs(s.log_lik - want) <= 1e-7 * (1 + abs(want)) or (s.log_lik != s.log_lik and want != want),
                 "log likelihood", lambda: "%s: %r instead of %r" % (case, s.log_lik, want))


MODELS = [Optimizer, Options, FixDf, RealFits]
RULE = ("states: (family, dimension, first probe, configuration), each extended by every probe sequence up to the depth over "
        "{valid A, valid B, edge, invalid, NaN, bad df} and every outcome {success at A/B/edge, failure}; plus every option dictionary x method x "
        "family, the fixed-df variants, and the real optimizer on every small permutation sample and method; transitions: comparisons")
ASSUMPTIONS = ["the optimizer is scipy.optimize.minimize as seen by the package; its answers are enumerated through that seam",
               "a result's fun is the objective at its x, as scipy guarantees", "three-dimensional Clayton and Frank fits may reject samples "
               "with negative average Kendall's tau"]
