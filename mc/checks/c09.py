"""A fit depends only on its arguments: every operation history before a fit, compared with a fresh object in a fresh process."""
import itertools
import pickle

import numpy as np
import pandas as pd

from .. import env
from ..core import Model, isolated

A = np.array([[-1.44, -1.75, -1.81], [-1.0, -0.7, -1.62], [-1.84, -0.4, -2.56], [0.06, 0.67, -0.75], [-1.34, -0.98, 0.42], [-0.02, -1.76, -0.31], [1.77, 1.74, 1.39], [0.53, -1.07, 0.94], [0.25, 0.5, 1.97]])
B = np.array([[6.67, 15.55, 8.32], [2.62, 4.84, 8.77], [9.31, 17.71, 11.68], [5.89, 8.11, 6.37], [9.73, 11.23, 13.39], [10.54, 6.58, 7.24], [1.36, 7.27, 7.99], [13.63, 13.15, 8.71]])
C = np.array([[0.23, 0.08, 0.04], [0.61, 0.17, 0.81], [0.97, 0.6, 0.95], [0.74, 0.97, 0.94], [0.03, 0.15, 0.21], [0.95, 0.97, 0.53], [0.7, 0.97, 0.6], [0.14, 0.31, 0.07], [0.49, 0.33, 0.55], [0.78, 0.92, 0.37]])
G = np.array([[-2.1, -1.5], [-1.7, -2.2], [-2.6, -1.1], [-1.2, -1.9], [1.4, 2.2], [2.3, 1.1], [1.9, 2.7], [2.8, 1.6], [.1, .3], [1.1, 1.9], [-.9, -1.4], [2.0, 2.1]])
GP = {"prob": [0.4, 0.6], "means": [[-2., -1.5], [2., 1.8]], "covs": [[[1., .2], [.2, 1.1]], [[.9, -.1], [-.1, 1.2]]]}
GP2 = {"prob": [0.7, 0.3], "means": [[-1., -1.], [1., 2.]], "covs": [[[1., .0], [.0, 1.]], [[2., .5], [.5, 1.]]]}

KINDS = [("clayton", 2), ("clayton", 3), ("frank", 2), ("frank", 3), ("gumbel", 2), ("gumbel", 3), ("gaussian", 2), ("gaussian", 3),
         ("student", 2), ("student", 3), ("indep", 2), ("marginal-gaussian", 2), ("marginal-gaussian", 3), ("marginal-clayton", 2), ("gmc", 2)]


def make(kind, d):
    import copulae as c
    if kind == "marginal-gaussian":
        inner = c.GaussianCopula(d)
        return c.MarginalCopula(inner, ["norm", "expon", "norm"][:d]), inner
    if kind == "marginal-clayton":
        inner = c.ClaytonCopula(dim=d)
        return c.MarginalCopula(inner, "norm"), inner
    if kind == "gmc":
        return c.GaussianMixtureCopula(2, d, GP), None
    o = {"clayton": c.ClaytonCopula, "frank": c.FrankCopula, "gumbel": c.GumbelCopula, "gaussian": c.GaussianCopula,
         "student": c.StudentCopula, "indep": c.IndepCopula}[kind](dim=d)
    return o, None


def frame(x, cols):
    return pd.DataFrame(x.copy(), columns=list(cols)[:x.shape[1]], index=range(3, 3 + len(x)))


def ops(kind):
    if kind == "gmc":
        return ["pem x0", "kmeans", "sgd x0", "frame pem", "bad columns", "bad columns x0", "bad ndim", "bad method", "bad criteria",
                "set dict", "set vector", "set mismatch", "eval", "draw"]
    o = ["ml A", "ml B frame", "itau A", "maxiter 1", "uniform C", "bad columns", "bad ndim", "eval", "draw", "draw unseeded", "summary"]
    if kind != "indep":
        o += ["bad method", "few rows", "ml ties scale"]
        if not kind.startswith("marginal"):
            o += ["bad range", "set p1", "set p2", "set bad"]
        else:
            o += ["inner fit frame", "inner set", "bad values"]
        if "clayton" in kind or "frank" in kind or "gumbel" in kind:
            o += ["x0 given"]
    if kind == "student":
        o += ["fix_df"]
    return o


FAILING = {"bad columns", "bad columns x0", "bad ndim", "bad method", "bad criteria", "few rows", "bad range", "set bad", "set mismatch", "bad values"}


def fit_kw(kind):
    return {} if kind == "gmc" else {"verbose": 0}


def apply(c, inner, kind, d, op):
    a, b, u = A[:, :d].copy(), B[:, :d].copy(), C[:, :d].copy()
    if kind == "gmc":
        if op == "pem x0":
            return c.fit(G.copy(), x0=c_vec(GP2), max_iter=4, verbose=0)
        if op == "kmeans":
            return c.fit(G.copy(), method="kmeans")
        if op == "sgd x0":
            return c.fit(G.copy(), x0=c_vec(GP2), method="sgd", max_iter=8)
        if op == "frame pem":
            return c.fit(frame(G[:, ::-1], "qp"), x0=c_vec(GP), max_iter=2, verbose=0)
        if op == "bad columns":
            return c.fit(A.copy(), verbose=0)
        if op == "bad columns x0":
            return c.fit(A.copy(), x0=c_vec(GP2), verbose=0)
        if op == "bad ndim":
            return c.fit(A[:, 0].copy(), x0=c_vec(GP2), verbose=0)
        if op == "bad method":
            return c.fit(G.copy(), x0=c_vec(GP2), method="nope")
        if op == "bad criteria":
            return c.fit(G.copy(), x0=c_vec(GP2), criteria="nope")
        if op == "set dict":
            c.params = GP2
            return
        if op == "set vector":
            c.params = c_vec(GP2)
            return
        if op == "set mismatch":
            c.params = {"prob": [1.0], "means": [[0., 1.]], "covs": [np.eye(2)]}
            return
    kw = {"verbose": 0}
    if op == "ml A":
        c.fit(a, **kw)
    elif op == "ml B frame":
        c.fit(frame(b, "zxy"), **kw)
    elif op == "itau A":
        c.fit(a, method="itau", **kw)
    elif op == "maxiter 1":
        c.fit(b, optim_options={"options": {"maxiter": 1}}, **kw)
    elif op == "uniform C":
        c.fit(frame(u, "abc"), to_pobs=False, **kw)
    elif op == "ml ties scale":
        c.fit(np.round(a), ties="max", scale=50.0, **kw)
    elif op == "x0 given":
        c.fit(a, x0=np.array([1.7]), **kw)
    elif op == "fix_df":
        c.fit(a, fix_df=True, **kw)
    elif op == "bad columns":
        c.fit(np.column_stack([a, a[:, 0]]), **kw)
    elif op == "bad ndim":
        c.fit(a[:, 0], **kw)
    elif op == "bad range":
        c.fit(frame(a, "uvw"), to_pobs=False, **kw)
    elif op == "bad values":
        x = frame(a, "uvw")
        x.iloc[1, 1] = np.nan
        c.fit(x, **kw)
    elif op == "few rows":
        c.fit(frame(a[:1], "uvw"), **kw)
    elif op == "bad method":
        c.fit(frame(a, "uvw"), method="nope", **kw)
    elif op == "eval":
        x = np.array([[.2, .6, .3], [.7, .1, .8]])[:, :d]
        evaluate(c, x)
    elif op == "draw":
        draws(c)
    elif op == "draw unseeded":
        draws(c, None)
    elif op == "summary":
        str(c.summary()), c.summary().as_html()
        try:
            str(c.summary("fit"))
        except Exception:   # noqa
            pass
    elif op.startswith("set"):
        n = d * (d - 1) // 2
        k = {"p1": 0, "p2": 1, "bad": 2}[op[4:]]
        c.params = {"clayton": [2.0, 0.3, -7.0], "frank": [3.0, 0.6, "x"], "gumbel": [2.0, 1.1, 0.2],
                    "gaussian": [np.full(n, .5), np.full(n, -.2), np.full(n, 1.5)],
                    "student": [np.r_[3., np.full(n, .5)], np.r_[9., np.full(n, -.2)], np.r_[-1., np.full(n, .1)]]}[kind][k]
    elif op == "inner fit frame":
        inner.fit(frame(b, "zxy"), **kw)
    elif op == "inner set":
        inner.params = 0.4
    else:
        raise KeyError(op)


def c_vec(p):
    p_ = np.array(p["prob"])
    iu = np.triu_indices(2)
    return np.r_[np.log(p_ / (1 - p_)), np.ravel(p["means"]), np.ravel([np.array(s)[iu] for s in p["covs"]])]


def stochastic_cdf(c):
    return type(c).__name__ not in ("ClaytonCopula", "FrankCopula", "GumbelCopula", "IndepCopula")


def evaluate(c, x):
    out = []
    # SciPy integrates the normal cdf beyond dimension 2 with hidden random state: those cdfs are left to the pdf here
    for f in ([c.pdf] if c.dim > 2 and stochastic_cdf(c) else [c.cdf, c.pdf]):
        try:
            out.append(np.asarray(f(x), float).tolist())
        except Exception as e:   # noqa
            out.append(type(e).__name__)
    return out


def draws(c, seed=11):
    try:
        r = c.random(3, seed)
    except Exception as e:   # noqa
        return type(e).__name__
    return [type(r).__name__, [str(k) for k in getattr(r, "columns", [])], np.asarray(r).tolist()]


def plain(p):
    """Parameters as plain data."""
    if p is None or isinstance(p, (str, int, float)):
        return p
    if isinstance(p, np.ndarray):
        return p.tolist()
    if isinstance(p, dict):
        return {str(k): plain(v) for k, v in p.items()}
    if isinstance(p, (tuple, list)):
        return [plain(v) for v in p]
    if hasattr(p, "prob"):
        return [plain(np.asarray(v)) for v in (p.prob, p.means, p.covs)]
    if isinstance(p, np.generic):
        return p.item()
    return repr(p)


def observe(c, d):
    x = np.array([[.2, .6, .3], [.7, .1, .8], [.45, .5, .9]])[:, :d]
    out = {"params": plain(c.params)}
    try:
        s = c.summary("fit")
        out["fit text"] = str(s)
        out["log_lik"] = plain(getattr(s, "log_lik", None))
        out["fit params"] = plain(getattr(s, "params", None))
        out["nsample"] = plain(getattr(s, "nsample", None))
    except Exception as e:   # noqa
        out["fit text"] = type(e).__name__
    out["summary"] = str(c.summary())
    out["array"] = evaluate(c, x)
    for cols in ("zxy", "xyz", "cab", "abc", "qpr", "pqr"):
        out["frame " + cols] = evaluate(c, pd.DataFrame(x, columns=list(cols)[:d]))
    out["series"] = evaluate(c, pd.Series(x[0], index=list("zxy")[:d]))
    out["random"] = draws(c)
    return out


FINALS = {"ml": lambda c, d: c.fit(C[:, :d].copy() ** 2, verbose=0),
          "itau": lambda c, d: c.fit(C[:, :d].copy(), method="itau", verbose=0),
          "frame": lambda c, d: c.fit(frame(C[:, :d], "xyz"), verbose=0),
          "slsqp": lambda c, d: c.fit(C[:, :d].copy(), verbose=0, optim_options={"method": "SLSQP", "options": {"maxiter": 60}})}
GFINALS = {"pem": lambda c, d: c.fit(G.copy(), x0=c_vec(GP), max_iter=5, verbose=0),
           "pem default start": lambda c, d: c.fit(G.copy(), max_iter=3, verbose=0),
           "kmeans": lambda c, d: c.fit(frame(G, "xy"), method="kmeans"),
           "sgd": lambda c, d: c.fit(frame(G, "yx"), x0=c_vec(GP), method="sgd", max_iter=10)}


def finals(kind, thorough=True):
    if kind == "gmc":
        return GFINALS
    if kind == "indep":
        return {"ml": FINALS["ml"], "frame": FINALS["frame"]}
    if kind == "student":       # correlation inversion keeps the current degrees of freedom by design
        return {k: FINALS[k] for k in (("ml", "frame", "slsqp") if thorough else ("ml", "frame"))}
    return FINALS


def diff(a, b):
    for k in a:
        if pickle.dumps(a[k]) != pickle.dumps(b[k]) and repr(a[k]) != repr(b[k]):
            return "%s: %r instead of %r" % (k, a[k], b[k])
    return None


class Histories(Model):
    name = "histories before a fit"
    chunk = 1

    def cases(self):
        for kind, d in KINDS:
            for o in ops(kind):
                for f in finals(kind, self.thorough):
                    yield {"kind": kind, "d": d, "first": o, "final": f}

    def check(self, case, t):
        kind, d = case["kind"], case["d"]
        f = finals(kind)[case["final"]]

        def fresh():
            c, _ = make(kind, d)
            np.random.seed(5)
            f(c, d)
            return observe(c, d)
        want = isolated(fresh)
        if self.thorough:
            depth = 3 if d == 2 and kind in ("clayton", "frank", "gumbel", "gaussian", "indep") else 2
        else:
            depth = 1 if d == 3 else 2
        for n in range(depth):
            for rest in itertools.product(ops(kind), repeat=n):
                seq = [case["first"]] + list(rest)
                c, inner = make(kind, d)
                for k, op in enumerate(seq):
                    np.random.seed(7)
                    if op in FAILING and k < len(seq) - 1:        # judged when it was the last call of a shorter history
                        try:
                            apply(c, inner, kind, d, op)
                        except Exception:   # noqa
                            pass
                    elif op in FAILING:
                        before = observe(c, d)
                        try:
                            apply(c, inner, kind, d, op)
                        except Exception:   # noqa
                            w = diff(observe(c, d), before)
                            t.expect(w is None, "failed call changes the copula", lambda: "%s(%d) %r then %s -> %s" % (kind, d, seq, op, w))
                        else:
                            t.expect(kind == "indep", "bad call accepted", "%s(%d) %s" % (kind, d, op))
                    else:
                        apply(c, inner, kind, d, op)
                np.random.seed(5)
                f(c, d)
                w = diff(observe(c, d), want)
                if not t.expect(w is None, "history shows", lambda: "%s(%d) after %r then fit %s: %s" % (kind, d, seq, case["final"], w)):
                    return


MODELS = [Histories]
RULE = ("states: (class, dimension, first operation, final fit), each extended by every operation history up to the depth; the reference is "
        "the same final fit on a new object in a forked, otherwise idle process; transitions: whole-state comparisons (parameters, both "
        "summaries, evaluations of arrays/frames/series under six labellings, seeded draws) after the final fit and around every failing call")
ASSUMPTIONS = ["fits that use global randomness by design (k-means starts) are compared under the same global NumPy seed",
               "fix_df and Student fits by correlation inversion, which read the current degrees of freedom by design, occur in histories but not as the final fit"]
