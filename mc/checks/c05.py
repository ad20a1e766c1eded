"""Permutation of the variables: every permutation of every dimension up to 4 applied to every row of a grid."""
import itertools

import numpy as np

from .. import cops
from ..core import Model
from .c03 import noisy

AXU = {2: [0.0, 1e-4, 0.004, 0.05, 0.3, 0.5, 0.8, 0.97, 1.0], 3: [0.0, 0.008, 0.2, 0.55, 0.9, 1.0], 4: [0.01, 0.3, 0.6, 0.95]}
AXR = {2: [-2.0, -0.5, 0.0, 0.25, 1.0, 3.5], 3: [-1.0, 0.5, 1.0, 4.0]}


def permute(s, p):
    """The specification whose variable i is variable p[i] of s."""
    f, d = s["f"], len(p)
    if f in ("clayton", "frank", "gumbel", "indep"):
        return s
    if f in ("gaussian", "student"):
        k = 1 if f == "student" else 0
        R = cops.corr(d, s["p"][k:])
        Q = R[np.ix_(p, p)]
        return dict(s, p=s["p"][:k] + [float(Q[i, j]) for i in range(d) for j in range(i + 1, d)])
    if f == "empirical":
        return dict(s, data=[[r[i] for i in p] for r in s["data"]])
    if f == "marginal":
        return dict(s, inner=permute(s["inner"], p), margins=[s["margins"][i] for i in p])
    if f == "gmc":
        return dict(s, means=[[m[i] for i in p] for m in s["means"]],
                    covs=[np.array(c)[np.ix_(p, p)].tolist() for c in s["covs"]])
    raise KeyError(f)


class Permute(Model):
    name = "permutations"
    chunk = 2

    def cases(self):
        data3 = [[1.0, 5.0, 2.0], [2.0, 5.0, 1.0], [0.5, 3.0, 2.0], [4.0, 1.0, 7.0]]
        pool = list(cops.archimedean((2, 3, 4))) + list(cops.gaussian((2, 3, 4))) + list(cops.student((2, 3, 4), dfs=[1.0, 4.0, 30.0])) \
            + [s for s in cops.zoo() if s["f"] in ("empirical", "marginal", "gmc")] + [{"f": "indep", "d": d} for d in (2, 3, 4)] \
            + [{"f": "empirical", "d": 3, "data": data3, "smoothing": m, "ties": tie} for m in ("none", "beta", "checkerboard")
               for tie in ("average", "min", "max", "ordinal")]
        for s in pool:
            for fn in ("cdf", "pdf"):
                if fn == "cdf" and s["f"] == "student":
                    continue
                if fn == "pdf" and (s["f"] == "empirical" and s.get("smoothing") != "beta" or s["f"] == "clayton" and s["p"] == -1):
                    continue
                yield {"s": s, "fn": fn}

    def check(self, case, t):
        s, fn = case["s"], case["fn"]
        d = s.get("d") or len(s["means"][0])
        G = cops.grid((AXR if s["f"] in ("marginal", "gmc") else AXU)[d], d)
        if fn == "pdf" and s["f"] not in ("marginal", "gmc"):
            G = G[((G > 0) & (G < 1)).all(1)]
        if s["f"] in ("clayton", "gumbel"):
            G = G[cops.representable(s, np.clip(G, 1e-300, 1))]
        base = np.asarray(getattr(cops.make(s), fn)(G.copy()), float)
        tol = dict(rtol=0, atol=1e-3) if noisy(s, fn) or (s["f"] == "gaussian" and fn == "cdf" and d > 2) else dict(rtol=1e-7, atol=1e-10)
        for p in itertools.permutations(range(d)):
            c = cops.make(permute(s, p))
            got = np.asarray(getattr(c, fn)(G[:, list(p)].copy()), float)
            t.close(got, base, "permutation", ctx="%s %s %r" % (s, fn, p), **tol)
            t.step(len(G) - 1)


MODELS = [Permute]
RULE = ("states: (object, function); each: all d! permutations applied to the whole grid and to the object's own "
        "parameters/data/marginals; transitions: rows compared")
ASSUMPTIONS = ["dim >= 3 normal integrals are randomised: compared within 1e-3",
               "'ordinal' ties depend on row order only, so column permutation still applies"]
