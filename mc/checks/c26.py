"""Summaries in every reachable state: parameter alphabets, optimizer outcomes and operation histories, text and HTML parsed back."""
import html as _html
import itertools
import re

import numpy as np
import pandas as pd

from .. import env
from ..core import Model
from .c09 import A, B, C, G, GP, GP2, c_vec

NUM = re.compile(r"(?<![\w.])[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|inf|nan)(?![\w])", re.I)


def renderings(s):
    """Every way a user sees the summary: text, repr, HTML (tags stripped)."""
    text, rep = str(s), repr(s)
    htm, nb = s.as_html(), s._repr_html_()
    assert isinstance(text, str) and isinstance(htm, str)
    assert "<" in htm and ">" in htm and htm.count("<table") == htm.count("</table"), "not HTML: %r" % htm[:80]
    strip = lambda h: _html.unescape(re.sub(r"<[^>]*>", " ", h))     # noqa
    return {"text": text, "repr": rep, "html": strip(htm), "notebook": strip(nb)}


def numbers(txt):
    return np.array([float(x) for x in NUM.findall(txt)])


def shows(txt, values, rtol=1e-5, atol=1e-4):
    """The values occur in the text, in this order, next to each other."""
    v = np.ravel(np.asarray(values, float))
    n = numbers(txt)
    if len(n) < len(v):
        return False
    w = np.lib.stride_tricks.sliding_window_view(n, len(v))
    with np.errstate(all="ignore"):
        ok = (np.abs(w - v) <= atol + rtol * np.abs(v)) | (np.isnan(w) & np.isnan(v)) | (w == v)
    return bool(ok.all(1).any())


def corr(d, r):
    m = np.eye(d)
    for i in range(d):
        for j in range(i):
            m[i, j] = m[j, i] = np.sign(r) * abs(r) ** (i - j) if r else 0
    return m


NAMES = {"clayton": "Clayton", "frank": "Frank", "gumbel": "Gumbel", "gaussian": "Gaussian", "student": "Student", "indep": "Indep",
         "empirical": "Empirical", "marginal": "Marginal", "gmc": "Mixture"}


def check_copula_summary(t, o, family, d, wants, ctx):
    for how, txt in renderings(o.summary()).items():
        t.expect(NAMES[family].lower() in txt.lower(), "family name", lambda: "%s %s: %r" % (ctx, how, txt[:200]))
        t.expect(d in numbers(txt), "dimension", lambda: "%s %s: %d not in %r" % (ctx, how, d, txt[:300]))
        for w in wants:
            if isinstance(w, str):
                t.expect(w.lower() in txt.lower(), "setting", lambda: "%s %s: %r not in %r" % (ctx, how, w, txt[:500]))
            else:
                t.expect(shows(txt, w), "parameters", lambda: "%s %s: %r not shown in %r" % (ctx, how, np.ravel(w)[:12].tolist(), txt[:600]))
    r1 = renderings(o.summary("copula"))
    r2 = renderings(o.summary(category="copula"))
    t.expect(r1 == r2 == renderings(o.summary()), "category copula", lambda: ctx)


def check_unknown(t, o, ctx):
    for bad in ("nope", "", "copulas", None, 3):
        t.raises(ValueError, lambda: o.summary(bad), "unknown category", "%s positional %r" % (ctx, bad))
        t.raises(ValueError, lambda: o.summary(category=bad), "unknown category", "%s keyword %r" % (ctx, bad))


class Parameters(Model):
    name = "copula summary over parameters"

    def cases(self):
        dims = (2, 3, 4, 5) if not self.thorough else (2, 3, 4, 5, 6, 8, 11)
        for d in dims:
            for f, ps in (("clayton", [None, 1e-6, .3, 2, 17.25]), ("frank", [None, 1e-7, .5, 3, 40.0]), ("gumbel", [None, 1, 1.0625, 3, 25])):
                for p in ps + ([-.5, -.25] if d == 2 and f == "clayton" else [-4.0] if d == 2 and f == "frank" else []):
                    yield {"f": f, "d": d, "p": p}
            for r in (0, .5, -.1, .9, 1e-9):
                yield {"f": "gaussian", "d": d, "p": r}
                for df in (.5, 1, 4.75, 200):
                    yield {"f": "student", "d": d, "p": [df, r]}
            yield {"f": "indep", "d": d, "p": None}
            for s in ("none", "beta", "checkerboard", None):
                for ties in ("average", "min", "max", "dense", "ordinal"):
                    for off in (0, .5, 2):
                        yield {"f": "empirical", "d": d, "p": [s, ties, off]}
            for n in (1, 2, 3):
                for seed in (0, 1):
                    yield {"f": "gmc", "d": d, "p": [n, seed]}
        for d in (25, 70):     # beyond pandas' display limits
            yield {"f": "gaussian", "d": d, "p": .5}
            yield {"f": "student", "d": d, "p": [4.75, .5]}
            yield {"f": "gmc", "d": d, "p": [2, 0]}
        for i in ("clayton", "gaussian", "student", "indep"):
            for m in range(len(MARGINS)):
                yield {"f": "marginal", "d": 3, "p": [i, m]}

    def check(self, case, t):
        import copulae as c
        from copulae.empirical import EmpiricalCopula
        f, d, p = case["f"], case["d"], case["p"]
        fitted = False
        if f in ("clayton", "frank", "gumbel"):
            k = {"clayton": c.ClaytonCopula, "frank": c.FrankCopula, "gumbel": c.GumbelCopula}[f]
            o = k(dim=d) if p is None else k(p, d)
            wants = [[np.nan if p is None else p]]
        elif f == "gaussian":
            o = c.GaussianCopula(d)
            m = corr(d, p)
            o[:] = m
            wants = [m]
        elif f == "student":
            o = c.StudentCopula(d)
            m = corr(d, p[1])
            o.params = np.r_[p[0], np.zeros(d * (d - 1) // 2)]
            o[:] = m
            wants = [[p[0]], m]
        elif f == "indep":
            o, wants, fitted = c.IndepCopula(d), [], True
        elif f == "empirical":
            s, ties, off = p
            data = np.arange(4. * d).reshape(4, d) % 5
            o, wants, fitted = EmpiricalCopula(data, smoothing=s, ties=ties, offset=off), [ties, [off], s or "none"], True
            t.expect(4 in numbers(str(o.summary("fit"))), "sample size", lambda: str(o.summary("fit")))
            o2 = EmpiricalCopula(data)
            o2.smoothing, o2.ties = s, ties
            check_copula_summary(t, o2, f, d, [ties, s or "none"], repr(case))
        elif f == "gmc":
            n, seed = p
            o = c.GaussianMixtureCopula(n, d)
            check_copula_summary(t, o, f, d, [[n]], repr(case) + " without parameters")
            pr = np.arange(1., n + 1) / (n * (n + 1) / 2)
            means = (np.arange(n * d).reshape(n, d) * 1.25 - 2.5) * (1 - 2 * seed)
            covs = np.array([corr(d, .25) * (1 + i) for i in range(n)])
            o.params = {"prob": pr, "means": means, "covs": covs}
            wants = [[n]]
            for r in renderings(o.summary()).values():
                for i in range(n):
                    t.expect(shows(r, [pr[i]], 1e-5, 1e-4), "weights", lambda: r[:300])
                    t.expect(shows(r, means[i], 1e-5, 1e-4), "means", lambda: "%r in %s" % (means[i], r[:900]))
                    t.expect(shows(r, covs[i], 1e-5, 1e-4), "covariances", lambda: "%r in %s" % (covs[i], r[:900]))
        elif f == "marginal":
            inner = {"clayton": c.ClaytonCopula(2.25, d), "gaussian": c.GaussianCopula(d), "student": c.StudentCopula(d), "indep": c.IndepCopula(d)}[p[0]]
            wants = [NAMES[p[0]]]
            if p[0] == "gaussian":
                inner[:] = corr(d, .5)
                wants.append(corr(d, .5))
            elif p[0] == "student":
                inner.params = np.r_[3.5, np.zeros(3)]
                inner[:] = corr(d, .5)
                wants += [corr(d, .5), [3.5]]
            elif p[0] == "clayton":
                wants.append([2.25])
            spec, w = MARGINS[p[1]]
            o = c.MarginalCopula(inner, [dict(x, parameters=dict(x["parameters"])) for x in spec])
            wants += w
            fitted = p[0] == "indep"
        check_copula_summary(t, o, f, d, wants, repr(case))
        check_unknown(t, o, repr(case))
        if fitted and f != "marginal":
            for how, txt in renderings(o.summary("fit")).items():
                t.expect(NAMES[f].lower() in txt.lower() and d in numbers(txt), "fit summary without fitting", lambda: "%r %s %r" % (case, how, txt))
        elif not fitted:
            from copulae.copula.exceptions import NotFittedError
            t.raises(NotFittedError, lambda: o.summary("fit"), "not fitted", repr(case))
            t.raises(NotFittedError, lambda: o.summary(category="fit"), "not fitted", repr(case))


MARGINS = [
    ([{"type": "norm", "parameters": {"loc": 1.5, "scale": 2.25}}, {"type": "expon", "parameters": {"scale": .625}}, {"type": "gamma", "parameters": {"a": 3.125}}],
     ["norm", "expon", "gamma", [1.5], [2.25], [.625], [3.125]]),
    ([{"type": "t", "parameters": {"df": 7.5, "loc": -1.25, "scale": .75}}, {"type": "uniform", "parameters": {"loc": -3.5, "scale": 9.75}}, {"type": "beta", "parameters": {"a": 2.5, "b": 4.125}}],
     ["uniform", "beta", [7.5], [-1.25], [.75], [-3.5], [9.75], [2.5], [4.125]]),
]


def number_kinds(v):
    yield "float", float(v)
    for k in (np.float64, np.float32, np.float16):
        yield k.__name__, k(v)
    if v == int(v):
        yield "int", int(v)
        for k in (np.int64, np.int32, np.int8, np.uint8):
            yield k.__name__, k(v)


class Numbers(Model):
    """However a parameter is written (Python and NumPy numbers, integer arrays, lists), the summary shows it."""
    name = "kinds of numbers"

    def cases(self):
        for kind in ("clayton", "frank", "gumbel", "student", "gaussian", "marginal", "gmc"):
            for v in (1.0, 3.0, 2.5, 4.125):
                for how, _ in number_kinds(v):
                    yield {"kind": kind, "v": v, "how": how}

    def check(self, case, t):
        import copulae as c
        kind, v, ctx = case["kind"], case["v"], repr(case)
        x = dict(number_kinds(v))[case["how"]]
        arr = np.array([x, x - x], dtype=type(x))
        obs = []
        if kind in ("clayton", "frank", "gumbel"):
            k = {"clayton": c.ClaytonCopula, "frank": c.FrankCopula, "gumbel": c.GumbelCopula}[kind]
            o = k(1.75, 2)
            o.params = x
            obs = [(k(x, 2), [v]), (o, [v])]
        elif kind == "student":
            obs = [(c.StudentCopula(2, df=x), [v])]
            for w in (arr, arr.tolist(), tuple(arr)):
                o = c.StudentCopula(2)
                o.params = w
                obs.append((o, [v]))
        elif kind == "gaussian":
            z = type(x)(0) if v == int(v) else type(x)(v / 8)
            for w in (z, [z], np.array([z])):
                o = c.GaussianCopula(2)
                o.params = w
                obs.append((o, corr(2, float(z))))
            o = c.GaussianCopula(2)
            o[0, 1] = z
            obs.append((o, corr(2, float(z))))
        elif kind == "marginal":
            for par in ({"loc": x, "scale": 9.5}, {"scale": 9.5, "loc": x}):
                o = c.MarginalCopula(c.ClaytonCopula(1.25), [{"type": "norm", "parameters": par}, "expon"])
                obs.append((o, [v]))
        else:
            for mu in (np.array([arr, arr]), [arr.tolist(), tuple(arr)]):
                o = c.GaussianMixtureCopula(2, 2, {"prob": [.25, .75], "means": mu, "covs": [np.eye(2) * x, np.eye(2)]})
                obs += [(o, [v, 0]), (o, np.eye(2) * v)]
        for o, want in obs:
            for how, txt in renderings(o.summary()).items():
                t.expect(shows(txt, want), "number shown", lambda: "%s %s: %r not in %r" % (ctx, how, want, txt[:600]))
            t.step()


class Result(dict):
    __getattr__ = dict.__getitem__


METHOD = {"ml": "likelihood", "itau": "kendall", "irho": "spearman", "pem": "pem", "sgd": "sgd", "kmeans": "kmeans"}


def build(kind):
    import copulae as c
    if kind == "marginal":
        return c.MarginalCopula(c.GaussianCopula(2), ["norm", "expon"])
    if kind == "gmc":
        return c.GaussianMixtureCopula(2, 2, GP)
    if kind in ("gaussian", "student"):
        return {"gaussian": c.GaussianCopula, "student": c.StudentCopula}[kind](2)
    return {"clayton": c.ClaytonCopula, "frank": c.FrankCopula, "gumbel": c.GumbelCopula}[kind](1.5, 2)


def moves(kind):
    if kind == "gmc":
        return ["pem", "sgd", "kmeans", "edit", "bad data", "bad edit", "eval"]
    m = ["ml", "ml scaled", "ml frame", "itau", "edit", "bad data", "bad edit", "eval", "optimizer fails", "optimizer fails here"]
    if kind == "gaussian":
        m.append("irho")
    if kind == "student":
        m.append("fix df")
    return m


DATA = {"A": A[:, :2], "B": B[:, :2], "C": C[:, :2]}


class Histories(Model):
    name = "summaries along histories"
    chunk = 2

    def cases(self):
        n = 3 if self.thorough else 2
        for kind in ("clayton", "frank", "gumbel", "gaussian", "student", "marginal", "gmc"):
            for k in range(0, n + 1):
                for seq in itertools.product(moves(kind), repeat=k):
                    if k == 3 and kind in ("student", "frank") and "ml" not in seq[0]:
                        continue
                    yield {"kind": kind, "moves": list(seq)}

    def check(self, case, t):
        from copulae.copula.exceptions import NotFittedError
        kind = case["kind"]
        o = build(kind)
        last = None
        for mv in case["moves"]:
            last = self.move(t, o, kind, mv, last)
        p = o.params
        if kind == "gmc":
            wants = [p.prob[:1], p.means[1], p.covs[0]]
        elif kind == "marginal":
            wants = [[1, p["copula"][0]]] + [[v] for m in p["marginals"] for v in m["parameters"].values()] + ["norm", "expon", "Gaussian"]
        elif kind == "gaussian":
            wants = [o.sigma]
        elif kind == "student":
            wants = [o.sigma, [o.params.df]]
        else:
            wants = [[o.params]]
        check_copula_summary(t, o, kind, 2, wants, repr(case))
        check_unknown(t, o, repr(case))
        if last is None:
            t.raises(NotFittedError, lambda: o.summary("fit"), "not fitted", repr(case))
            t.raises(NotFittedError, lambda: o.summary(category="fit"), "not fitted", repr(case))
            return
        method, n, ll = last
        for s in (o.summary("fit"), o.summary(category="fit")):
            for how, txt in renderings(s).items():
                low = txt.lower()
                t.expect(METHOD[method] in low, "fit method", lambda: "%r %s: %s not in %r" % (case, how, METHOD[method], txt[:400]))
                for other in set(METHOD.values()) - {METHOD[method], "likelihood"}:
                    t.expect(other not in low, "another fit method", lambda: "%r %s: %s in %r" % (case, how, other, txt[:400]))
                t.expect(n in numbers(txt), "sample size", lambda: "%r %s: %r" % (case, how, txt[:400]))
                if ll is not None:
                    t.expect(shows(txt, [ll], 1e-9, 1e-9), "log likelihood", lambda: "%r %s: %r not in %r" % (case, how, ll, txt[:500]))

    def move(self, t, o, kind, mv, last):
        if kind == "gmc":
            np.random.seed(3)
            if mv in ("pem", "sgd", "kmeans"):
                kw = {} if mv == "kmeans" else {"x0": c_vec(GP), "max_iter": 3}
                x = {"pem": G, "sgd": G[:11], "kmeans": G[:9]}[mv]
                o.fit(x, method=mv, verbose=0, **kw)
                return mv, len(x), None
            if mv == "edit":
                o.params = GP2
            elif mv == "bad data":
                t.raises(Exception, lambda: o.fit(A, verbose=0), "bad data accepted")
            elif mv == "bad edit":
                t.raises(Exception, lambda: setattr(o, "params", {"prob": [1.], "means": [[0., 0.]], "covs": [np.eye(2)]}), "bad edit accepted")
            else:
                o.pdf([[.1, .2]])
            return last
        x, kw, h = None, {}, {}
        if mv == "ml":
            x = DATA["A"]
        elif mv == "ml scaled":
            x, kw = DATA["B"], {"scale": 8.0}
        elif mv == "ml frame":
            x = pd.DataFrame(DATA["C"], columns=["p", "q"])
        elif mv in ("itau", "irho"):
            x, kw = DATA["C"] if mv == "itau" else DATA["B"], {"method": mv}
        elif mv == "fix df":
            x, kw = DATA["B"], {"fix_df": True}
        elif mv.startswith("optimizer fails"):
            x = DATA["B"] if mv.endswith("here") else DATA["A"]

            def fake(orig, f, x0, *a, **k):
                f(np.asarray(x0))
                from scipy.optimize import OptimizeResult
                return OptimizeResult(x=np.asarray(x0, float), fun=float("nan"), success=False, status=9, message="gave up", nit=1, nfev=1)
            h = {"minimize": fake}
        elif mv == "edit":
            if kind == "marginal":
                pass
            elif kind in ("gaussian", "student"):
                o[1, 0] = -.375
            else:
                o.params = 4.125
            return last
        elif mv == "bad data":
            t.raises(Exception, lambda: o.fit(np.ones((6, 3)) * np.nan, verbose=0), "bad data accepted")
            return last
        elif mv == "bad edit":
            if kind in ("gaussian", "student"):
                t.raises(Exception, lambda: o.__setitem__((0, 1), 1.5), "bad edit accepted")
            elif kind != "marginal":
                t.raises(Exception, lambda: setattr(o, "params", "x"), "bad edit accepted")
            return last
        else:
            o.pdf([[.1, .2]])
            return last
        with env.handle(**h):
            o.fit(x, verbose=0, **kw)
        ll = None if h else self.log_lik(o, kind, x)
        return kw.get("method", "ml"), len(x), ll

    @staticmethod
    def log_lik(o, kind, x):
        if kind == "marginal":
            import copulae as c
            g = c.GaussianCopula(2)
            g.params = o.params["copula"]
            return float(g.log_lik(np.asarray(x)))
        return float(o.log_lik(np.asarray(x)))


MODELS = [Parameters, Numbers, Histories]
RULE = ("states: (family, dimension, parameter) alphabets and (class, operation history incl. failing optimizers); transitions: facts "
        "(family, dimension, every parameter, method, log likelihood, sample size) looked up in the parsed text, repr, HTML and notebook renderings")
ASSUMPTIONS = ["numbers are compared to the printed precision (1e-4 absolute; log likelihoods 1e-9)",
               "the log likelihood is compared only for fits the optimizer reports as successful"]
