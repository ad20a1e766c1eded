"""Gaussian mixture parameters: acceptance, conversions, ownership, and assignment histories of a mixture copula."""
import itertools
import math

import numpy as np

from ..core import Model
from .c22 import definiteness, exact

RULE = ("all (clusters, dimensions) up to (3, 3) and eight larger ones up to (6, 6) x alphabets of valid and invalid weights, means and covariances (every single "
        "defect at every position) x conversions; every sequence of assignments and evaluations of a mixture copula up to a depth")
ASSUMPTIONS = ["a symmetric covariance with positive variances that is not positive semi-definite is replaced by its nearest valid "
               "matrix on entry (documented in the code); it counts as accepted, and what is stored must be valid",
               "means are any numbers of the right shape"]

COV = {1: [[[1.0]], [[.25]], [[4.0]]],
       2: [[[1.0, .3], [.3, 2.0]], [[.5, -.2], [-.2, .25]], [[1.0, 1.0], [1.0, 1.0]], [[2.0, 0.0], [0.0, 3.0]]],
       3: [np.eye(3).tolist(), [[2.0, -.5, .1], [-.5, 1.0, .2], [.1, .2, 1.5]], [[1.0, .5, .25], [.5, 1.0, .5], [.25, .5, 1.0]]]}
for _d in (4, 5, 6):  # diagonally dominant, both signs
    COV[_d] = [[[2.0 + a if a == b else (-1) ** (a + b + v) * .25 / (1 + abs(a - b)) for b in range(_d)] for a in range(_d)] for v in range(2)] + [np.eye(_d).tolist()]
PROB = {1: [[1.0]], 2: [[.5, .5], [.3, .7], [1.0, 0.0], [0.0, 1.0], [.999, .001], [1e-12, 1 - 1e-12]],
        3: [[.2, .3, .5], [1 / 3, 1 / 3, 1 / 3], [0.0, .5, .5], [0.0, 1.0, 0.0], [.1, .1, .8], [.05, .9, .05]],
        4: [[.1, .2, .3, .4], [.25] * 4, [.5, 0.0, 0.0, .5]], 5: [[.1, .15, .2, .25, .3], [0.0, 0.0, 0.0, 0.0, 1.0], [.2] * 5],
        6: [[1 / 6] * 6, [.05, .1, .15, .2, .2, .3]]}
SIZES = list(itertools.product((1, 2, 3), repeat=2)) + [(1, 4), (2, 4), (4, 2), (3, 5), (5, 1), (4, 4), (1, 6), (6, 2)]


def mean(k, d, j=0):
    return [[(-1) ** (i + a) * (i + .5 * a + .25 * j) for a in range(d)] for i in range(k)]


def cov(k, d, j=0):
    al = COV[d]
    return [al[(i + j) % len(al)] for i in range(k)]


KINDS = {"list": lambda v: v, "array": lambda v: np.array(v, float), "tuple": lambda v: tuple(map(tuple, v)) if np.ndim(v) == 2 else tuple(v),
         "fortran": lambda v: np.asfortranarray(np.array(v, float)), "readonly": lambda v: _ro(np.array(v, float)),
         "ints": lambda v: np.array(v).astype(int) if np.all(np.array(v) == np.round(v)) else np.array(v, float)}


def _ro(a):
    a.flags.writeable = False
    return a


def state(p):
    return (int(p.n_clusters), int(p.n_dim), np.array(p.prob, float), np.array(p.means, float), np.array(p.covs, float))


def same_state(a, b, tol=0.0):
    return a[:2] == b[:2] and all(x.shape == y.shape and np.all(np.abs(x - y) <= tol * (1 + np.abs(y))) for x, y in zip(a[2:], b[2:]))


class Valid(Model):
    """Accepted objects hold exactly what was given, own it, and survive every conversion."""
    name = "valid"

    def cases(self):
        for k, d in SIZES:
            for i in range(len(PROB[k])):
                for j in range(3 if not self.thorough else 4):
                    for kind in KINDS:
                        yield {"k": k, "d": d, "prob": i, "j": j, "kind": kind}

    def check(self, c, t):
        from copulae.mixtures.gmc import GMCParam
        k, d = c["k"], c["d"]
        w, mu, S = PROB[k][c["prob"]], mean(k, d, c["j"]), cov(k, d, c["j"])
        conv = KINDS[c["kind"]]
        args = [conv(w), conv(mu), conv(S)]
        keep = [np.array(a, float) for a in args]
        p = GMCParam(k, d, *args)
        want = (k, d, np.array(w), np.array(mu), np.array(S))
        def ok(q, aspect, tol=0.0, w=want):
            t.expect(same_state(state(q), w, tol), aspect, lambda: "%s instead of %s" % (state(q), w))
        ok(p, "stored")
        q = GMCParam.from_dict({"prob": args[0], "means": args[1], "covs": args[2]})
        ok(q, "from_dict")
        ok(GMCParam.from_dict({"prob": p.prob, "means": p.means, "covs": p.covs}), "from_dict of its own parts")
        # vector form: layout by length, decoded without loss, 0/1 weights within 1e-5
        v = np.asarray(p.to_vector(), float)
        n = k + k * d + k * d * (d + 1) // 2
        t.expect(v.shape == (n,) and np.isfinite(v).all(), "vector", "%s" % v)
        for arg in (v.copy(), v.tolist(), tuple(v), _ro(v.copy())):
            b = GMCParam.from_vector(arg, k, d)
            st = state(b)
            t.close(st[2], want[2], "weights from vector", 0, 1.05e-5 * sum(x in (0, 1) for x in w) + 1e-9, c["kind"])
            t.close(st[3], want[3], "means from vector", 0, 0)
            t.close(st[4], want[4], "covariances from vector", 1e-12, 1e-12)
            t.expect(np.array_equal(np.asarray(arg), v), "vector modified", "")
        ok(p, "to_vector modifies")
        back = np.asarray(GMCParam.from_vector(v, k, d).to_vector(), float)
        t.close(back[k:], v[k:], "vector round trip", 1e-9, 1e-12)
        if 0 < min(w) and max(w) < 1:
            # a weight is stored to one unit of rounding, which its log odds magnify by 1 / (w (1 - w))
            for i in range(k):
                t.close(back[i], v[i], "vector round trip (weights)", 1e-9, 1e-9 + 1e-15 / (w[i] * (1 - w[i])))
        # iteration yields the components
        comps = list(p)
        t.expect(len(comps) == k, "iteration", "%d components" % len(comps))
        for i, (a, b, s) in enumerate(comps):
            t.expect(float(a) == w[i] and np.array_equal(np.ravel(b), mu[i]) and np.array_equal(s, np.array(S[i])), "iteration", "component %d" % i)
        if d > 1:
            ok(eval(repr(p), {"GMCParam": GMCParam, "nan": math.nan}), "repr is the constructor call")
        str(p)
        ok(p, "rendering modifies")
        t.expect(all(np.array_equal(np.asarray(a), b) for a, b in zip(args, keep)), "argument modified", "")
        # owned: the caller's edits do not reach it
        for a in args:
            if isinstance(a, np.ndarray) and a.flags.writeable:
                a[...] = 7
        ok(p, "caller's edits reach it")
        ok(q, "caller's edits reach it (from_dict)")


DEFECTS = ["prob sum small", "prob sum tiny", "prob negative small", "prob above one small", "covs asymmetric small", "prob long", "prob short", "prob negative", "prob sum", "prob above one", "prob nan", "prob all zero", "means long", "means narrow", "means flat",
           "means transposed", "covs few", "covs many", "covs shape", "covs flat", "covs asymmetric", "covs nan", "covs negative variance",
           "covs zero variance"]


def broken(k, d, defect, pos, w, mu, S):
    """-> (prob, means, covs) with one defect at position pos, or None where it does not apply"""
    w, mu, S = np.array(w), np.array(mu), np.array(S)
    i, a = pos % k, (pos // k) % d
    if defect == "prob long":
        w = np.append(w, 0.0)
    elif defect == "prob short":
        if k == 1:
            return None
        w = w[:-1] / w[:-1].sum() if w[:-1].sum() else None
        if w is None:
            return None
    elif defect == "prob negative":
        if k == 1:
            w[0] = -1.0
        else:
            w[i], w[(i + 1) % k] = -.25, w[(i + 1) % k] + w[i] + .25
    elif defect == "prob sum":
        w[i] += .2 if w[i] < .8 else -.2
    elif defect == "prob sum small":
        w[i] += 1e-3 if w[i] < .9 else -1e-3
    elif defect == "prob sum tiny":
        w[i] += 1e-4 if w[i] < .9 else -1e-4
    elif defect == "prob negative small":
        if k == 1:
            return None
        w[(i + 1) % k] += w[i] + 1e-6
        w[i] = -1e-6
    elif defect == "prob above one small":
        w[:] = 0
        w[i] = 1.001
    elif defect == "covs asymmetric small":
        if d == 1:
            return None
        S[i, a, (a + 1) % d] += 1e-2
    elif defect == "prob above one":
        w[i] = 1.5
    elif defect == "prob nan":
        w[i] = math.nan
    elif defect == "prob all zero":
        w[:] = 0
    elif defect == "means long":
        mu = np.vstack([mu, mu[:1]])
    elif defect == "means narrow":
        mu = np.hstack([mu, mu[:, :1]])
    elif defect == "means flat":
        mu = mu.ravel()
    elif defect == "means transposed":
        if k == d:
            return None
        mu = mu.T
    elif defect == "covs few":
        S = S[:-1]
    elif defect == "covs many":
        S = np.concatenate([S, S[:1]])
    elif defect == "covs shape":
        S = np.array([np.eye(d + 1)] * k)
    elif defect == "covs flat":
        S = S.reshape(k, -1)
    elif defect == "covs asymmetric":
        if d == 1:
            return None
        S[i, a, (a + 1) % d] += .5
    elif defect == "covs nan":
        S[i, a, a] = math.nan
    elif defect == "covs negative variance":
        S[i, a, a] = -1.0
    elif defect == "covs zero variance":
        if d == 1:
            return None
        S[i, a, a] = 0.0
        S[i, a, (a + 1) % d] = S[i, (a + 1) % d, a] = .5
    return w, mu, S


class Invalid(Model):
    """One defect at every position: construction refused, assignment refused and without effect."""
    name = "invalid"

    def cases(self):
        for k, d in SIZES:
            for defect in DEFECTS:
                for pos in range(k * d):
                    for j in range(2):
                        yield {"k": k, "d": d, "defect": defect, "pos": pos, "j": j}

    def check(self, c, t):
        from copulae.mixtures.gmc import GMCParam
        k, d = c["k"], c["d"]
        w, mu, S = PROB[k][c["j"] % len(PROB[k])], mean(k, d, c["j"]), cov(k, d, c["j"])
        bad = broken(k, d, c["defect"], c["pos"], w, mu, S)
        if bad is None:
            return
        t.raises(Exception, lambda: GMCParam(k, d, *[x.copy() for x in bad]), "accepted", "%s %s" % (c["defect"], [x.tolist() for x in bad]))
        if bad[1].ndim == 2 and not (c["defect"].startswith("means") or c["defect"] == "covs shape" and d == 9):
            t.raises(Exception, lambda: GMCParam.from_dict({"prob": bad[0].copy(), "means": bad[1].copy(), "covs": bad[2].copy()}), "accepted (from_dict)", c["defect"])
        p = GMCParam(k, d, w, mu, S)
        before = state(p)
        field = {"p": "prob", "m": "means", "c": "covs"}[c["defect"][0]]
        arg = bad[["prob", "means", "covs"].index(field)]
        keep = arg.copy()
        t.raises(Exception, lambda: setattr(p, field, arg), "assignment accepted", c["defect"])
        t.expect(same_state(state(p), before), "refused assignment changed the object", "%s: %s" % (c["defect"], state(p)))
        t.expect(np.array_equal(arg, keep, equal_nan=True), "argument modified", c["defect"])


class Covariances(Model):
    """Every symmetric 2x2 covariance over an alphabet: valid ones stored as they are, indefinite ones replaced by a valid
    matrix with the same variances, ones without positive variances refused."""
    name = "covariances"

    def cases(self):
        for a, b in itertools.product([-1.0, 0.0, .5, 1.0, 2.0], repeat=2):
            yield {"a": a, "b": b}

    def check(self, c, t):
        from copulae.mixtures.gmc import GMCParam
        for off in (-2.0, -1.0, -.5, 0.0, .25, .5, 1.0, 1.5):
            m = np.array([[c["a"], off], [off, c["b"]]])
            kind = definiteness(exact(m.tolist()))
            for pos in (0, 1):
                S = [np.eye(2), np.eye(2)]
                S[pos] = m.copy()
                make = lambda: GMCParam(2, 2, [.5, .5], [[0, 0], [1, 1]], S)
                if kind == "no" and min(c["a"], c["b"]) <= 0:
                    t.raises(Exception, make, "accepted", "%s" % m.tolist())
                    continue
                got = np.asarray(make().covs, float)
                t.expect(np.array_equal(got[1 - pos], np.eye(2)), "the other covariance", "%s" % got)
                if kind != "no":
                    t.expect(np.array_equal(got[pos], m), "valid covariance stored as it is", "%s became %s" % (m.tolist(), got[pos].tolist()))
                else:
                    t.expect(np.abs(got[pos] - got[pos].T).max() < 1e-12 and np.linalg.eigvalsh(got[pos]).min() > -1e-12
                             and np.abs(np.diag(got[pos]) - np.diag(m)).max() < 1e-9 and np.sign(got[pos][0, 1]) == np.sign(off),
                             "repaired covariance", "%s became %s" % (m.tolist(), got[pos].tolist()))


class VectorLength(Model):
    """Vectors of every wrong length are refused, by the parameter class and by the copula."""
    name = "vector_length"

    def cases(self):
        for k, d in SIZES:
            n = k + k * d + k * d * (d + 1) // 2
            for m in range(0, n + d * (d + 1) + 2):
                if m != n:
                    yield {"k": k, "d": d, "n": m}

    def check(self, c, t):
        from copulae.mixtures.gmc import GMCParam, GaussianMixtureCopula
        k, d = c["k"], c["d"]
        p = GMCParam(k, d, PROB[k][0], mean(k, d), cov(k, d))
        v = np.resize(p.to_vector(), c["n"])
        t.raises(Exception, lambda: GMCParam.from_vector(v, k, d), "accepted", "%d numbers" % c["n"])
        if d >= 2:
            cop = GaussianMixtureCopula(k, d, p)
            before = state(cop.params)
            t.raises(Exception, lambda: setattr(cop, "params", v), "assignment accepted", "%d numbers" % c["n"])
            t.expect(same_state(state(cop.params), before), "refused assignment changed the copula", "")


def log_logistic(x):
    return -math.log1p(math.exp(-x)) if x > -30 else x - math.exp(x)


class LogOdds(Model):
    """Every vector of log odds decodes to weights proportional to their logistic values, however large."""
    name = "log_odds"

    def cases(self):
        al = [-1e4, -1000.0, -745.0, -300.0, -40.0, -3.0, 0.0, .25, 7.0, 37.0, 40.0, 800.0, 1e5]
        for k in (1, 2, 3):
            for v in itertools.product(al if k < 3 or self.thorough else al[::2], repeat=k):
                yield {"v": list(v)}

    def check(self, c, t):
        from copulae.mixtures.gmc import GMCParam, GaussianMixtureCopula
        v, d = c["v"], 2
        k = len(v)
        l = [log_logistic(x) for x in v]
        m = max(l)
        w = [math.exp(x - m) for x in l]
        w = [x / math.fsum(w) for x in w]
        vec = np.r_[v, GMCParam(k, d, PROB[k][0], mean(k, d), cov(k, d)).to_vector()[k:]]
        for arg in (vec, vec.tolist()):
            p = GMCParam.from_vector(arg, k, d)
            t.close(p.prob, w, "weights of log odds", 1e-12, 1e-300)
        cop = GaussianMixtureCopula(k, d)
        cop.params = vec
        t.close(cop.params.prob, w, "weights of log odds (copula)", 1e-12, 1e-300)


OPS = ["dict", "vector", "param", "list", "same", "pdf", "cdf", "random", "convert", "render",
       "bad clusters", "bad dim", "bad string", "bad dict", "bad vector", "bad missing", "none"]


class Histories(Model):
    """Every sequence of assignments (good and bad) and evaluations of a mixture copula up to a depth."""
    name = "histories"

    def cases(self):
        depth = 3 if not self.thorough else 4
        for k, d in ((2, 2), (3, 2), (2, 3)) if not self.thorough else ((2, 2), (3, 2), (2, 3), (3, 3)):
            ops = OPS if depth == 3 else OPS
            for n in range(1, (depth if (k, d) == (2, 2) else depth - 1) + 1):
                for first in ops:
                    yield {"k": k, "d": d, "first": first, "n": n}

    def check(self, c, t):
        for rest in itertools.product(OPS, repeat=c["n"] - 1):
            self.run(c["k"], c["d"], (c["first"],) + rest, t)
            if len(t.fails) > 5:
                return

    def run(self, k, d, hist, t):
        from copulae.mixtures.gmc import GMCParam, GaussianMixtureCopula
        par = [GMCParam(k, d, PROB[k][j], mean(k, d, j), [COV[d][0]] * k if j else [COV[d][1]] * k) for j in range(2)]
        cop = GaussianMixtureCopula(k, d)
        model = None
        x = np.array(mean(3, d))
        for step, op in enumerate(hist):
            j = step % 2
            w, mu, S = np.array(PROB[k][j]), np.array(mean(k, d, j)), np.array([COV[d][0]] * k if j else [COV[d][1]] * k)
            held = []
            ctx = "%s step %d" % (list(hist), step)
            if op in ("dict", "vector", "param", "list", "same", "none"):
                if op == "dict":
                    arg = {"prob": w, "means": mu, "covs": S}
                elif op == "vector":
                    arg = par[j].to_vector()
                elif op == "list":
                    arg = par[j].to_vector().tolist()
                elif op == "param":
                    arg = par[j]
                elif op == "same":
                    arg = cop.params
                else:
                    arg = None
                snap = None if arg is None else (state(arg) if isinstance(arg, GMCParam) else (None if isinstance(arg, dict) else np.array(arg)))
                cop.params = arg
                if op == "none":
                    model = None
                elif op != "same":
                    model = state(par[j])
                if isinstance(arg, GMCParam):
                    t.expect(same_state(state(arg), snap), "argument modified", ctx)
                elif isinstance(arg, dict):
                    t.expect(np.array_equal(w, PROB[k][j]) and np.array_equal(mu, mean(k, d, j)) and sorted(arg) == ["covs", "means", "prob"],
                             "argument modified", ctx)
                    w[...], mu[...], S[...] = 9, 9, 9        # the caller's later edits stay the caller's
                elif arg is not None:
                    t.expect(np.array_equal(np.array(arg), snap), "argument modified", ctx)
            elif op in ("pdf", "cdf", "random"):
                def run_():
                    return cop.random(3, seed=5) if op == "random" else getattr(cop, op)(x)
                if model is None:
                    t.raises(Exception, run_, "evaluation without parameters", ctx)
                else:
                    t.expect(np.isfinite(np.asarray(run_(), float)).all(), "evaluation", ctx)
            elif op == "convert":
                if cop.params is not None:
                    cop.params.to_vector()
                    list(cop.params)
            elif op == "render":
                str(cop.params), repr(cop.params), str(cop.summary())
            else:
                if op == "bad clusters":
                    arg = GMCParam(k + 1, d, np.full(k + 1, 1 / (k + 1)), mean(k + 1, d), cov(k + 1, d))
                elif op == "bad dim":
                    arg = {"prob": w, "means": np.zeros((k, d + 1)), "covs": np.array([np.eye(d + 1)] * k)}
                elif op == "bad string":
                    arg = "parameters"
                elif op == "bad dict":
                    arg = {"prob": w * .5, "means": mu, "covs": S}
                elif op == "bad missing":
                    arg = {"prob": w, "means": mu}
                else:
                    arg = par[j].to_vector()[:-1]
                t.raises(Exception, lambda: setattr(cop, "params", arg), "assignment accepted", ctx)
            got = None if cop.params is None else state(cop.params)
            if (got is None) != (model is None) or got is not None and not same_state(got, model, 1e-9):
                t.fail("state", "%s: %s, expected %s" % (ctx, got, model))
                return
            t.step()


MODELS = [Valid, Invalid, Covariances, VectorLength, LogOdds, Histories]
