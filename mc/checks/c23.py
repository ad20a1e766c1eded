"""Copula with custom marginals: Sklar's theorem for every inner copula x marginal tuple x way of writing it down."""
import copy
import itertools

import numpy as np
import pandas as pd
import scipy.stats as st

from .. import cops
from ..core import Model, isolated

RULE = ("inner copulas x all tuples over an alphabet of marginals x every specification form (name, alias, dictionary, class, one for all, "
        "one per variable) x lattice of points; every continuous distribution of scipy.stats once; every invalid form; fits over small data sets")
ASSUMPTIONS = ["the inner copula is taken as it is (its own values are the subject of other properties)"]

# name in scipy.stats, parameters
DISTS = {"norm": {"loc": 1.0, "scale": 2.0}, "expon": {"scale": 3.0}, "t": {"df": 4.0, "loc": -1.0}, "gamma": {"a": 2.0, "scale": .5},
         "beta": {"a": 2.0, "b": 3.0}, "uniform": {"loc": -1.0, "scale": 4.0}, "lognorm": {"s": .7}}
POINTS = [-2.0, -.5, 0.0, .3, .9, 1.5, 4.0]
ALIASES = {"norm": ["norm", "normal", "gaussian", "Normal", " GAUSSIAN ", "NORM"], "t": ["t", "student", "Student", " T"],
           "expon": ["expon", "exp", "EXP", " Expon"], "gamma": ["gamma", "Gamma"], "uniform": ["uniform"]}


def inners():
    return [{"f": "clayton", "d": 2, "p": 1.5}, {"f": "frank", "d": 2, "p": -3.0}, {"f": "gumbel", "d": 2, "p": 2.0}, {"f": "gaussian", "d": 2, "p": [.6]},
            {"f": "student", "d": 2, "p": [3.0, -.4]}, {"f": "indep", "d": 2}, {"f": "gmc", "d": 2, "prob": [.4, .6], "means": [[0, 0], [1, 2]],
                                                                               "covs": [[[1, .3], [.3, 1]], [[2, -.5], [-.5, 1]]]},
            {"f": "clayton", "d": 3, "p": .8}, {"f": "gaussian", "d": 3, "p": [.3, -.2, .5]}, {"f": "gumbel", "d": 3, "p": 1.4}]


def quiet(fn):
    """a value, or the kind of refusal"""
    try:
        return np.asarray(fn(), float)
    except Exception as e:  # noqa
        return type(e).__name__


def agree(t, got, want, aspect, ctx, rtol=1e-12, atol=0.0):
    if isinstance(want, str) or isinstance(got, str):
        return t.expect(isinstance(want, str) and isinstance(got, str), aspect, lambda: "%s: got %s, inner gives %s" % (ctx, got, want))
    return t.close(got, want, aspect, rtol, atol, ctx)


def sklar(t, cop, inner, frozen, pts, ctx="", rnd=True):
    """cop against the composition of inner and frozen marginals at every row of pts"""
    pts = np.asarray(pts, float)
    u = np.column_stack([m.cdf(pts[:, i]) for i, m in enumerate(frozen)])
    f = np.prod([m.pdf(pts[:, i]) for i, m in enumerate(frozen)], axis=0)
    lf = np.sum([m.logpdf(pts[:, i]) for i, m in enumerate(frozen)], axis=0)
    keep = pts.copy()
    hascdf = not isinstance(quiet(lambda: inner.cdf(u[:1])), str)
    if hascdf:
        # the quasi Monte Carlo cdf of three-dimensional normals has a hidden random state
        rnd_cdf = type(inner).__name__ == "GaussianCopula" and inner.dim > 2
        tol = dict(rtol=1e-3, atol=1e-3) if rnd_cdf else {}
        agree(t, quiet(lambda: cop.cdf(pts)), quiet(lambda: inner.cdf(u)), "cdf", ctx, **tol)
        if not rnd_cdf:
            agree(t, quiet(lambda: cop.cdf(pts, log=True)), quiet(lambda: inner.cdf(u, log=True)), "log cdf", ctx)
    for k, r in enumerate(pts):
        ru = u[k]
        if hascdf and not rnd_cdf and k % 7 == 0:
            agree(t, quiet(lambda: cop.cdf(r.tolist())), quiet(lambda: inner.cdf(ru)), "cdf of one row", ctx)
        if k % 7 == 3:
            agree(t, quiet(lambda: cop.pdf(r.tolist())), quiet(lambda: inner.pdf(ru) * f[k] if f[k] else 0.0), "pdf of one row", ctx, 1e-9)
    # outside the support of a marginal the joint density is 0, whatever the inner one is at the edge of the cube
    agree(t, quiet(lambda: cop.pdf(pts)), quiet(lambda: np.where(f == 0, 0, np.asarray(inner.pdf(u)) * f)), "pdf", ctx, 1e-9)
    agree(t, quiet(lambda: cop.pdf(pts, log=True)), quiet(lambda: np.where(np.isneginf(lf), -np.inf, np.asarray(inner.pdf(u, log=True)) + lf)), "log pdf", ctx, 1e-9, 1e-12)
    t.expect(np.array_equal(pts, keep), "argument modified", ctx)
    if rnd:
        for seed in (1, 2, 77):
            for n in (1, 5):
                r = np.asarray(cop.random(n, seed), float)
                w = np.asarray(inner.random(n, seed), float).reshape(n, len(frozen))
                w = np.column_stack([m.ppf(w[:, i]) for i, m in enumerate(frozen)])
                t.close(r.reshape(w.shape), w, "random", 1e-12, 0, ctx)
                if n > 1:
                    t.expect(r.shape == w.shape, "random shape", "%s: %s" % (ctx, r.shape))


def rebuild(t, cop, inner_spec, frozen, pts, ctx):
    import copulae as c
    p = cop.params
    if not t.expect(isinstance(p, dict) and set(p) == {"copula", "marginals"} and len(p["marginals"]) == len(frozen), "params", "%s: %r" % (ctx, p)):
        return
    other = cops.make(inner_spec)
    if inner_spec["f"] != "indep":
        other.params = p["copula"]
    again = c.MarginalCopula(other, p["marginals"])
    t.expect(repr(again.params["marginals"]) == repr(cop.params["marginals"]), "params of the rebuilt copula", "%s: %r / %r" % (ctx, again.params, cop.params))
    sklar(t, again, other, frozen, pts, ctx + " rebuilt", rnd=False)
    # the report is a snapshot: editing it does not reach the copula
    before = repr(cop.params)
    for m in p["marginals"]:
        m["type"] = "edited"
        m["parameters"].clear()
    if isinstance(p["copula"], np.ndarray):
        p["copula"][...] = 0.01
    t.expect(repr(cop.params) == before, "editing the report changes the copula", ctx)


class Composition(Model):
    """All tuples of marginals x inner copulas, specified by dictionaries."""
    name = "composition"

    def cases(self):
        names = list(DISTS)
        for k, inner in enumerate(inners()):
            d = inner["d"]
            tuples = itertools.product(names, repeat=d)
            if d == 3:
                tuples = itertools.permutations(names, 3) if self.thorough else [x for x in itertools.permutations(names, 3) if x[0] < x[1]]
            for m in tuples:
                yield {"inner": inner, "margins": list(m)}

    def check(self, c, t):
        import copulae as cp
        d = c["inner"]["d"]
        frozen = [getattr(st, m)(**DISTS[m]) for m in c["margins"]]
        spec = [{"type": m, "parameters": dict(DISTS[m])} for m in c["margins"]]
        keep = copy.deepcopy(spec)
        inner, same = cops.make(c["inner"]), cops.make(c["inner"])
        cop = cp.MarginalCopula(inner, spec)
        t.expect(spec == keep, "specification modified", "%r" % spec)
        pts = cops.grid(POINTS if d == 2 else POINTS[1::2], d)
        sklar(t, cop, same, frozen, pts, "%s" % c["margins"])
        rebuild(t, cop, c["inner"], frozen, pts, "%s" % c["margins"])
        # the caller may go on using the dictionaries
        for s in spec:
            s["parameters"].clear()
            s["type"] = "cauchy"
        sklar(t, cop, same, frozen, pts[::5], "%s after the caller's edits" % c["margins"], rnd=False)


def forms(name):
    """every way of writing down one marginal -> (specification, frozen scipy distribution)"""
    dist = getattr(st, name)
    need = [s.strip() for s in dist.shapes.split(",")] if dist.shapes else []
    default = {k: .5 for k in need}
    out = []
    for a in ALIASES.get(name, [name]):
        out.append((a, dist(**default)))
        out.append(({"type": a}, dist(**default)))
    out.append(({"type": dist}, dist(**default)))
    out.append(({"type": dist, "parameters": {}}, dist(**default)))
    full = DISTS.get(name, {})
    for sub in itertools.chain.from_iterable(itertools.combinations(sorted(full), k) for k in range(1, len(full) + 1)):
        ps = {k: full[k] for k in sub}
        for ty in (name, dist):
            out.append(({"type": ty, "parameters": ps}, dist(**{**default, **ps})))
    return out


def freshspec(s):
    return s if isinstance(s, str) else {k: (dict(v) if isinstance(v, dict) else v) for k, v in s.items()}


def same_spec(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return set(a) == set(b) and all(a[k] is b[k] or a[k] == b[k] for k in a)


class Forms(Model):
    """One for all / one per variable, in every form and container; the caller's objects stay as they were."""
    name = "forms"

    def cases(self):
        for name in ("norm", "t", "expon", "gamma", "uniform", "beta", "lognorm"):
            for i in range(len(forms(name))):
                for form in ("all", "list", "tuple", "shared", "array"):
                    yield {"name": name, "i": i, "form": form}

    def check(self, c, t):
        import copulae as cp
        spec, frozen = forms(c["name"])[c["i"]]
        other, ofrozen = {"type": "norm", "parameters": {"scale": 2.0}}, st.norm(scale=2.0)
        for isp in ({"f": "clayton", "d": 2, "p": 1.5}, {"f": "gumbel", "d": 3, "p": 1.4}):
            d = isp["d"]
            mine = freshspec(spec)
            keep = freshspec(spec)
            if c["form"] == "all":
                arg, fr = mine, [frozen] * d
            elif c["form"] == "shared":
                arg, fr = [mine] * d, [frozen] * d
            elif c["form"] == "array":
                arg, fr = np.array([mine] * d, dtype=object), [frozen] * d
            else:
                arg = [freshspec(other) if k else mine for k in range(d)]
                fr = [ofrozen if k else frozen for k in range(d)]
                arg = tuple(arg) if c["form"] == "tuple" else arg
            n = len(arg) if not isinstance(arg, (str, dict)) else None
            cop = cp.MarginalCopula(cops.make(isp), arg)
            t.expect(same_spec(mine, keep), "specification modified", lambda: "%r became %r" % (keep, mine))
            t.expect(n is None or len(arg) == n, "specification modified", "length")
            pts = cops.grid([.1, .6, 2.0], d)
            sklar(t, cop, cops.make(isp), fr, pts, "%s %s" % (spec, c["form"]))
            rebuild(t, cop, isp, fr, pts, "%s %s" % (spec, c["form"]))
            ps = cop.params["marginals"]
            t.expect(all(p["type"] == f.dist.name for p, f in zip(ps, fr)), "reported type", "%r" % ps)
            for p, f in zip(ps, fr):
                want = {"loc": 0, "scale": 1, **f.kwds}
                t.expect(p["parameters"] == want, "reported parameters", "%r, want %r" % (p, want))


class EveryDistribution(Model):
    """Every continuous distribution of scipy.stats by name and by class: same marginal, and the report rebuilds it."""
    name = "every_distribution"
    SLOW = {"levy_stable", "studentized_range", "kstwo", "ksone", "norminvgauss", "genhyperbolic", "gausshyper", "geninvgauss", "vonmises", "ncx2", "ncf", "nct",
            "jf_skew_t", "rel_breitwigner", "kappa4", "crystalball", "kstwobign", "truncnorm"}

    def cases(self):
        for n in sorted(dir(st)):
            d = getattr(st, n)
            if isinstance(d, st.rv_continuous) and (self.thorough or n not in self.SLOW or n == "vonmises_line"):
                yield {"name": n}

    def check(self, c, t):
        import copulae as cp
        dist = getattr(st, c["name"])
        need = [s.strip() for s in dist.shapes.split(",")] if dist.shapes else []
        frozen = dist(**{k: .5 for k in need})
        isp = {"f": "frank", "d": 2, "p": 2.0}
        pts = np.array([[.2, .4], [.6, .9], [4.0, .5], [-1.0, 1.5]])
        for spec in (c["name"], {"type": c["name"]}, {"type": dist}):
            cop = cp.MarginalCopula(cops.make(isp), spec)
            sklar(t, cop, cops.make(isp), [frozen] * 2, pts, "%s" % spec, rnd=False)
            rebuild(t, cop, isp, [frozen] * 2, pts, "%s" % spec)


class Invalid(Model):
    """Every invalid specification is refused, and a refused construction leaves the caller's objects alone."""
    name = "invalid"

    def cases(self):
        for k in range(len(self.table())):
            for d in (2, 3):
                for wrap in ("one", "list"):
                    yield {"k": k, "d": d, "wrap": wrap}
        for n in (0, 1, 3, 4):
            yield {"count": n}

    @staticmethod
    def table():
        return ["no such law", "", "norm2", "binom", "poisson", "describe", "rv_continuous", {}, {"parameters": {"loc": 1}}, {"type": "nope"},
                {"type": None}, {"type": 3}, {"type": st.norm()}, {"type": st.norm(loc=1), "parameters": {}}, {"type": st.binom}, {"type": "poisson"},
                {"type": st.rv_continuous}, {"type": ["norm"]}, {"type": "norm", "parameters": {"bogus": 1.0}},
                {"type": "gamma", "parameters": {"b": 1.0}}, {"type": "t", "parameters": {"df": 3, "scale": 2, "shape": 1}},
                1, 2.5, None, st.norm(), True]

    def check(self, c, t):
        import copulae as cp
        good = {"type": "norm", "parameters": {"loc": 2.0}}
        if "count" in c:
            for m in ([dict(good)] * c["count"], tuple(["norm"] * c["count"]), ["norm"] * c["count"]):
                t.raises((AssertionError, ValueError, TypeError), lambda: cp.MarginalCopula(cops.make({"f": "frank", "d": 2, "p": 2.0}), m), "wrong count", "%d" % c["count"])
            return
        bad = self.table()[c["k"]]
        keep = freshspec(bad) if isinstance(bad, (str, dict)) else bad
        inner = cops.make({"f": "clayton", "d": c["d"], "p": 1.0})
        poss = [None] if c["wrap"] == "one" else range(c["d"])
        for pos in poss:
            arg = bad if pos is None else [bad if i == pos else dict(good) for i in range(c["d"])]
            t.raises((AssertionError, TypeError, ValueError, AttributeError, KeyError), lambda: cp.MarginalCopula(inner, arg), "accepted", "%r at %s" % (bad, pos))
            t.expect(bad is keep or same_spec(bad, keep) if isinstance(bad, (str, dict)) else True, "specification modified", "%r" % (bad,))
        t.expect(good == {"type": "norm", "parameters": {"loc": 2.0}}, "specification modified", "%r" % good)


def datasets():
    a = np.array([[-1.2, .4], [.3, 2.2], [1.1, 1.0], [-.4, .7], [2.0, 5.1], [.6, 1.7], [-.9, 2.9], [1.7, .2]])
    b = np.array([[k * .37 % 1.0 * 3 + .1, (k * .61 % 1.0) ** 2 * 4 + .2, (k * .23 % 1) + .05] for k in range(1, 13)])
    return {"a": a, "b2": b[:, :2], "b3": b}


class Fits(Model):
    """fit = the marginals' own maximum likelihood per column + the inner copula's fit; afterwards Sklar still holds."""
    name = "fits"

    def cases(self):
        for data in ("a", "b2", "b3"):
            d = 3 if data == "b3" else 2
            names = ["norm", "expon", "gamma", "uniform"] + (["t", "lognorm"] if self.thorough else [])
            for m in itertools.product(names, repeat=d) if d == 2 else zip(names, names[1:], names[2:]):
                for inner in (["clayton", "frank", "gaussian", "gumbel"] if d == 2 else ["gaussian", "clayton"]):
                    for method in ("ml", "itau"):
                        if method == "itau" and d == 3 and inner == "clayton":
                            continue
                        if not self.thorough and d == 2 and len(m[0]) % 2 and method == "itau":
                            continue
                        yield {"data": data, "margins": list(m), "inner": inner, "method": method, "frame": (len(m[0]) + len(m[1])) % 2 == 1}

    def check(self, c, t):
        import copulae as cp
        x = datasets()[c["data"]]
        d = x.shape[1]
        isp = {"clayton": {"f": "clayton", "d": d, "p": 1.0}, "frank": {"f": "frank", "d": d, "p": 1.0}, "gumbel": {"f": "gumbel", "d": d, "p": 1.5},
               "gaussian": {"f": "gaussian", "d": d, "p": [0.1] * (d * (d - 1) // 2)}}[c["inner"]]
        arg = pd.DataFrame(x, columns=["p", "q", "r"][:d]) if c["frame"] else x.copy()
        cop = cp.MarginalCopula(cops.make(isp), c["margins"])
        alone = cops.make(isp)
        try:
            alone.fit(x.copy(), method=c["method"], verbose=0)
        except Exception as e:
            t.raises(Exception, lambda: cop.fit(arg, method=c["method"], verbose=0), "fit refused", "inner fit raises %s" % e)
            return
        r = cop.fit(arg, method=c["method"], verbose=0)
        t.expect(r is cop, "fit returns the copula", "%r" % r)
        t.expect(np.array_equal(np.asarray(arg), x), "data modified", "")
        fitted = [getattr(st, m).fit(x[:, i]) for i, m in enumerate(c["margins"])]
        frozen = [getattr(st, m)(*p) for m, p in zip(c["margins"], fitted)]
        p = cop.params
        for i, m in enumerate(c["margins"]):
            t.expect(p["marginals"][i]["type"] == m, "type after fit", "%r" % p)
            t.close(list(p["marginals"][i]["parameters"].values()), fitted[i], "marginal estimate", 1e-9, 1e-12, m)
        flat = lambda q: np.ravel(q).astype(float)
        t.close(flat(p["copula"]), flat(alone.params), "inner estimate", 1e-9, 1e-12, c["inner"])
        sklar(t, cop, alone, frozen, x, "after fit")
        rebuild(t, cop, isp, frozen, x, "after fit")


class Estimates(Model):
    """Every combination of special values among the marginals' estimates (zero, negative, integral, tiny, NumPy scalars)."""
    name = "estimates"
    LAWS = {"genextreme": [[0.0, -.3, .4], [0.0, 1.5], [1.0, 2]], "norm": [[0.0, -1.0, 1e-300], [1.0, 2.5]], "lognorm": [[.5, 1.0], [0.0, -3.0], [1.0, 3.0]],
            "skewnorm": [[0.0, 2.0, -1.0], [0.0, .5], [1.0, .5]]}

    def cases(self):
        for name, alphabet in self.LAWS.items():
            for p in itertools.product(*alphabet):
                for num in ("float", "numpy"):
                    yield {"name": name, "p": list(p), "num": num}

    def check(self, c, t):
        import copulae as cp
        base = getattr(st, c["name"])
        vals = tuple(np.float64(v) if c["num"] == "numpy" else v for v in c["p"])

        class Law(type(base)):
            def fit(self, data, *a, **k):
                return vals
        law = Law(a=base.a, b=base.b, name=c["name"], shapes=base.shapes)
        isp = {"f": "frank", "d": 2, "p": 2.0}
        x = datasets()["a"]
        for spec in ({"type": law}, [{"type": law}, "norm"], ["norm", {"type": law}]):
            cop = cp.MarginalCopula(cops.make(isp), spec)
            cop.fit(x.copy(), method="itau", verbose=0)
            alone = cops.make(isp)
            alone.fit(x.copy(), method="itau", verbose=0)
            own, nrm = base(*c["p"]), [st.norm(*st.norm.fit(x[:, i])) for i in range(2)]
            frozen = [own, own] if isinstance(spec, dict) else [nrm[i] if m == "norm" else own for i, m in enumerate(spec)]
            names = [s.strip() for s in base.shapes.split(",")] if base.shapes else []
            want = dict(zip(names + ["loc", "scale"], c["p"]))
            for m, f in zip(cop.params["marginals"], frozen):
                if f is own:
                    t.expect(m["type"] == c["name"] and m["parameters"] == want, "reported estimates", lambda: "%r, want %r" % (m, want))
            sklar(t, cop, alone, frozen, x, repr(c))
            rebuild(t, cop, isp, frozen, x, repr(c))


LEVELS = (1e-300, 1e-16, 1e-9, 1e-5, .003, .5, .996, 1 - 1e-5, 1 - 1e-9, 1 - 2.0 ** -53)


class Draws(Model):
    """The inner copula's draws, prescribed here to be every row of a grid that reaches into the corners, all go through the marginal quantiles."""
    name = "prescribed draws"

    def cases(self):
        for names in itertools.product(DISTS, repeat=2):
            for d in (2, 3):
                yield {"margins": list(names) + list(names[:d - 2])}

    def check(self, c, t):
        import copulae as cp
        d = len(c["margins"])
        grid = np.array(list(itertools.product(LEVELS if d == 2 else LEVELS[::2], repeat=d)))
        asked = []

        class Prescribed(cp.IndepCopula):
            def random(self, n, seed=None):
                asked.append((n, seed))
                return grid[:n].copy()
        frozen = [getattr(st, m)(**DISTS[m]) for m in c["margins"]]
        cop = cp.MarginalCopula(Prescribed(d), [{"type": m, "parameters": dict(DISTS[m])} for m in c["margins"]])
        for n in (1, 7, len(grid)):
            del asked[:]
            got = np.asarray(cop.random(n, 5), float)
            want = np.column_stack([m.ppf(grid[:n, i]) for i, m in enumerate(frozen)])
            t.close(got.reshape(want.shape), want, "quantiles", 1e-12, 0, "%r n=%d" % (c["margins"], n))
            t.expect(asked == [(n, 5)], "what is asked of the inner copula", lambda: repr(asked))


MODELS = [Draws, Composition, Forms, EveryDistribution, Invalid, Fits, Estimates]
