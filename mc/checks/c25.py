"""The Gaussian mixture copula: values against component normals, marginals, likelihoods, and fitting histories.

Expectation maximisation is followed step by step: every prefix length of the iteration on every enumerated data set,
starting point and criterion is executed through fit() and compared with an independent computation of the same
iterates from their definition."""
import itertools
import math
import warnings

import numpy as np
import scipy.stats as st
from scipy.optimize import minimize

from .. import ref
from ..core import Model

RULE = ("values: parameter lattice x lattice of points; marginals: parameter lattice x lattice of levels; expectation maximisation: data sets x starting "
        "points x criteria x tie rules x every iteration limit up to a depth; k-means: every small data set against every partition of its rows; gradient "
        "descent: data sets x optimisers x iteration limits")
ASSUMPTIONS = ["the marginal cdf is the published approximation (absolute error below 1.3e-5) and the quantile function interpolates it on a grid; the "
               "likelihood definitions are evaluated at the library's own quantiles", "the three-dimensional normal cdf is SciPy's quasi Monte Carlo one",
               "under the GMM criterion the iterate kept is the last one"]

COVS = {2: [[[1.0, .2], [.2, 1.0]], [[2.0, -.5], [-.5, .5]], [[.3, 0.0], [0.0, 4.0]], [[1.0, .9], [.9, 1.0]]],
        3: [np.eye(3).tolist(), [[2.0, -.5, .1], [-.5, 1.0, .2], [.1, .2, 1.5]], [[1.0, .5, .25], [.5, 1.0, .5], [.25, .5, 1.0]]]}
PROBS = {1: [[1.0]], 2: [[.5, .5], [.2, .8], [.95, .05], [1.0, 0.0]], 3: [[.2, .3, .5], [1 / 3, 1 / 3, 1 / 3], [0.0, .6, .4]]}


def mixtures(thorough=False):
    for d in (2, 3):
        for k in (1, 2, 3):
            for i, p in enumerate(PROBS[k]):
                for sep in (0.0, 1.5, 6.0):
                    for j in range(len(COVS[d]) if thorough else 2):
                        means = [[sep * c * (-1) ** a + .25 * a for a in range(d)] for c in range(k)]
                        yield {"d": d, "k": k, "prob": p, "means": means, "covs": [COVS[d][(c + j) % len(COVS[d])] for c in range(k)]}


def params(c):
    from copulae.mixtures.gmc.parameter import GMCParam
    return GMCParam(c["k"], c["d"], c["prob"], c["means"], c["covs"])


def cop(c, form=0):
    from copulae import GaussianMixtureCopula
    p = params(c) if form == 0 else {"prob": c["prob"], "means": c["means"], "covs": c["covs"]}
    return GaussianMixtureCopula(c["k"], c["d"], p)


def logdens(x, m, S):
    """log density of a normal, by definition; a singular matrix has no density"""
    x, m, S = np.atleast_2d(x), np.asarray(m, float), np.asarray(S, float)
    L = np.linalg.cholesky(S)
    z = np.linalg.solve(L, (x - m).T)
    return -.5 * (z * z).sum(0) - np.log(np.diag(L)).sum() - len(m) / 2 * math.log(2 * math.pi)


class Values(Model):
    name = "cdf and pdf"
    chunk = 4

    def cases(self):
        yield from mixtures(self.thorough)

    def check(self, c, t):
        g = cop(c, form=c["k"] % 2)
        d = c["d"]
        pts = np.array(list(itertools.product((-3.0, -.4, 0.0, 1.1, 7.0) if d == 2 else (-1.0, .3, 2.0), repeat=d)))
        keep = pts.copy()
        P = np.array(c["prob"])
        comp = np.array([np.exp(logdens(pts, m, S)) for m, S in zip(c["means"], c["covs"])])
        want = P @ comp
        t.close(g.pdf(pts), want, "pdf", 1e-9, 1e-300)
        fin = want > 1e-250
        t.close(np.asarray(g.pdf(pts, log=True))[fin], np.log(want[fin]), "log pdf", 1e-9, 1e-9)
        far = pts * 100 + 50                   # the density underflows, its logarithm does not
        lw = np.array([math.log(p) + logdens(far, m, S) if p else np.full(len(far), -np.inf) for p, m, S in zip(P, c["means"], c["covs"])])
        top = lw.max(0)
        t.close(g.pdf(far, log=True), top + np.log(np.exp(lw - top).sum(0)), "log pdf far away", 1e-9, 1e-9)
        tol = dict(rtol=1e-6, atol=1e-7) if d == 2 else dict(rtol=3e-4, atol=3e-4)
        cdf = sum(p * np.atleast_1d(st.multivariate_normal.cdf(pts, m, S)) for p, m, S in zip(P, c["means"], c["covs"]))
        t.close(g.cdf(pts), cdf, "cdf", **tol)
        big = cdf > (1e-3 if d == 2 else .05)
        t.close(np.asarray(g.cdf(pts, log=True))[big], np.log(cdf[big]), "log cdf", 1e-5 if d == 2 else 1e-2, 1e-5 if d == 2 else 1e-2)
        for i in (0, len(pts) // 2, len(pts) - 1):
            t.close(g.pdf(pts[i]), want[i], "pdf of one point", 1e-9, 1e-300)
            t.close(g.cdf(pts[i].tolist()), cdf[i], "cdf of one point", **tol)
        if all(np.array_equal(np.diag(np.diag(S)), S) for S in c["covs"]):
            prod = sum(p * np.prod([st.norm.cdf(pts[:, a], m[a], math.sqrt(S[a][a])) for a in range(d)], axis=0) for p, m, S in zip(P, c["means"], c["covs"]))
            t.close(g.cdf(pts), prod, "cdf of independent components", **tol)
        t.expect(np.array_equal(pts, keep), "argument modified")


def margin_cdf(x, c):
    """exact marginal cdf of every column"""
    x = np.asarray(x, float)
    return np.column_stack([sum(p * st.norm.cdf(x[:, a], m[a], math.sqrt(S[a][a])) for p, m, S in zip(c["prob"], c["means"], c["covs"]))
                            for a in range(c["d"])])


def margin_pdf(x, c):
    x = np.asarray(x, float)
    return np.column_stack([sum(p * st.norm.pdf(x[:, a], m[a], math.sqrt(S[a][a])) for p, m, S in zip(c["prob"], c["means"], c["covs"]))
                            for a in range(c["d"])])


class Marginals(Model):
    name = "marginals"
    chunk = 4

    def cases(self):
        yield from mixtures(self.thorough)

    def check(self, c, t):
        from copulae.mixtures.gmc.marginals import gmm_marginal_cdf, gmm_marginal_ppf
        p, d = params(c), c["d"]
        lo = np.min(c["means"]) - 14
        hi = np.max(c["means"]) + 14
        line = np.linspace(lo, hi, 4001 if self.thorough else 1201)
        x = np.column_stack([np.roll(line, 5 * a) for a in range(d)])
        keep = x.copy()
        F = gmm_marginal_cdf(x, p)
        t.close(F, margin_cdf(x, c), "marginal cdf", 0, 1.3e-5)
        t.expect(np.array_equal(x, keep), "argument modified")
        for a in range(d):
            f = np.roll(F[:, a], -5 * a)
            t.expect((np.diff(f) >= -1e-12).all() and f[0] >= 0 and f[-1] <= 1 + 1e-12, "marginal cdf increases", lambda: "column %d" % a)
        t.close(gmm_marginal_cdf(x[7:8], p), F[7:8], "marginal cdf of one row", 1e-12, 1e-14)
        ints = np.arange(-2 * d, 2 * d).reshape(-1, d)
        t.close(gmm_marginal_cdf(ints, p), gmm_marginal_cdf(ints.astype(float), p), "marginal cdf of integers", 1e-12, 1e-14)
        # quantiles
        lv = np.unique(np.r_[[10.0 ** -k for k in range(1, 12)], [1 - 10.0 ** -k for k in range(1, 12)], np.arange(1, 200) / 200, np.arange(1, 8) / 8])
        q = np.column_stack([np.roll(lv, 3 * a) for a in range(d)])
        keep = q.copy()
        X = gmm_marginal_ppf(q, p)
        t.expect(np.array_equal(q, keep), "argument modified")
        t.expect(X.shape == q.shape and np.isfinite(X).all(), "marginal quantile", lambda: repr(X[~np.isfinite(X)][:4]))
        for a in range(d):
            t.expect((np.diff(np.roll(X[:, a], -3 * a)) >= 0).all(), "marginal quantile increases", lambda: "column %d" % a)
        coarse = sum(w for w in c["prob"] if w < .04)
        t.close(gmm_marginal_cdf(X, p), q, "cdf of the quantile", 0, 2e-5 + .02 * coarse)
        t.close(margin_cdf(X, c), q, "exact cdf of the quantile", 0, 3e-5 + .02 * coarse)
        back = gmm_marginal_ppf(F, p)
        dens = margin_pdf(x, c)
        ok = dens > .02
        t.close(back[ok], x[ok], "quantile of the cdf", 0, 2e-3 + coarse)
        for y in (gmm_marginal_ppf(np.tile([[0.0], [1.0], [.5]], (1, d)), p), gmm_marginal_ppf(np.tile([[0], [1]], (1, d)), p), gmm_marginal_ppf(np.tile([[0.0], [1.0]], (1, d)), p, validate=True)):
            t.expect((y[0] == -np.inf).all() and (y[1] == np.inf).all() and np.isfinite(y[2:]).all(), "quantiles of 0 and 1", lambda: repr(y))
        t.close(gmm_marginal_ppf(q[3:4], p), X[3:4], "quantile of one row", 1e-12, 1e-14)
        for bad in (-.01, 1.01):
            z = q.copy()
            z[2, d - 1] = bad
            t.raises(ValueError, lambda: gmm_marginal_ppf(z, p, validate=True), "invalid level accepted", repr(bad))
        fine = gmm_marginal_ppf(q, p, resolution=8000)
        t.close(margin_cdf(fine, c), q, "finer quantile", 0, 2e-5 + .002 * coarse)


def lls(u, p):
    """(log likelihood of the latent mixture, of the copula), from the definitions at the library's quantiles"""
    from copulae.mixtures.gmc.marginals import gmm_marginal_ppf
    q = gmm_marginal_ppf(u, p)
    return gmm_ll(q, p), gmm_ll(q, p) - margin_ll(q, p).sum()


def gmm_ll(q, p):
    return float(np.log(sum(w * dens(q, m, S) for w, m, S in zip(p.prob, p.means, p.covs))).sum())


def margin_ll(q, p):
    return np.array([np.log(sum(w * st.norm.pdf(q[:, a], m[a], math.sqrt(S[a, a])) for w, m, S in zip(p.prob, p.means, p.covs))).sum() for a in range(q.shape[1])])


def dens(q, m, S):
    try:
        w, V = np.linalg.eigh(S)
        if w.min() > 1e-6 * w.max():
            return np.exp(logdens(q, m, S))
    except np.linalg.LinAlgError:
        pass
    return np.atleast_1d(st.multivariate_normal.pdf(q, m, S, allow_singular=True))


class Likelihood(Model):
    name = "log likelihoods"
    chunk = 8

    def cases(self):
        for c in mixtures(self.thorough):
            for n in (1, 2, 5, 16):
                yield {**c, "n": n}

    def check(self, c, t):
        from copulae.mixtures.gmc import loglik
        p, d, n = params(c), c["d"], c["n"]
        u = np.column_stack([((np.arange(n) * (3 + 2 * a) + a) % n + 1) / (n + 1) for a in range(d)])
        x = (u - .4) * 5
        keep = u.copy(), x.copy()
        t.close(loglik.gmm_log_likelihood(x, p), gmm_ll(x, p), "mixture log likelihood", 1e-9, 1e-9)
        t.close(loglik.gmm_log_likelihood_marginals(x, p), margin_ll(x, p), "marginal log likelihoods", 1e-9, 1e-9)
        t.close(loglik.gmcm_log_likelihood(u, p), lls(u, p)[1], "copula log likelihood", 1e-9, 1e-9)
        t.expect(np.array_equal(u, keep[0]) and np.array_equal(x, keep[1]), "argument modified")
        if c["k"] == 1:      # one component: the Gaussian copula
            s = np.sqrt(np.diag(c["covs"][0]))
            z = st.norm.ppf(u)
            R = np.array(c["covs"][0]) / np.outer(s, s)
            want = (logdens(z, np.zeros(d), R) - st.norm.logpdf(z).sum(1)).sum()
            t.close(loglik.gmcm_log_likelihood(u, p), want, "copula log likelihood of one component", 1e-3, 1e-3 * n)


def datasets():
    out = {}
    for name, n, d in (("a6", 6, 2), ("b9", 9, 2), ("c14", 14, 2), ("d12", 12, 3)):
        i = np.arange(n)
        x = np.column_stack([np.sin(2.1 * i * (a + 1) + a) + (i % 3 == 0) * (2.0 + a) * (-1) ** a + .3 * np.cos(i) for a in range(d)])
        out[name] = x
    i = np.arange(14)
    out["line"] = np.column_stack([i, i + 1.5 * (-1.0) ** (i // 2)])
    out["line"][-1, 1] = -5.0      # one row far from the others
    t = np.round(out["c14"] * 1.5)
    out["tied"] = t
    return out


STARTS = ["near", "far", "unequal", "equal", "thin"]


def start(x, k, kind):
    from copulae.mixtures.gmc.parameter import GMCParam
    n, d = x.shape
    if kind == "thin":       # so nearly singular that some rows have no density under any component
        a = np.full((d, d), .998) + np.eye(d) * .002
        return GMCParam(k, d, np.arange(k, 0, -1) / (k * (k + 1) / 2), [[2.0 * j] * d for j in range(k)], [a * (1 + .5 * j) for j in range(k)])
    if kind == "equal":
        return GMCParam(k, d, [1 / k] * k, np.tile(x.mean(0), (k, 1)), [np.cov(x.T)] * k)
    lab = np.arange(n) % 3 == 0 if kind == "near" else np.arange(n) < n // 2
    lab = lab.astype(int) if k == 2 else np.arange(n) % k
    means = np.array([x[lab == j].mean(0) for j in range(k)])
    cov = np.cov(x.T)
    prob = np.full(k, 1 / k) if kind != "unequal" else np.arange(1, k + 1) / (k * (k + 1) / 2)
    return GMCParam(k, d, prob, means * (1 if kind != "far" else 2), [cov * (1 + .3 * j) for j in range(k)])


def pobs(x, ties):
    return np.column_stack([np.array(ref.ranks(list(c), ties), float) / (len(x) + 1) for c in x.T])


class Stop(Exception):
    pass


def em(u, p, limit, criteria, eps, gaps=False):
    """[(params, latent ll, copula ll)], converged: the iterates by definition"""
    from copulae.mixtures.gmc.marginals import gmm_marginal_ppf
    from copulae.mixtures.gmc.parameter import GMCParam
    q = gmm_marginal_ppf(u, p)
    trace = [(p, gmm_ll(q, p), lls(u, p)[1])]
    gap, all_gaps = None, []
    for _ in range(limit):
        with np.errstate(all="ignore"):
            k = np.column_stack([w * dens(q, m, S) for w, m, S in zip(p.prob, p.means, p.covs)])
            k = k / k.sum(1)[:, None]
        k[np.isnan(k)] = 0
        if (k.sum(0) == 0).any():
            raise Stop
        prob = k.sum(0) / k.sum()
        means = np.array([[np.average(q[:, a], weights=w) for a in range(q.shape[1])] for w in k.T])
        covs = np.array([np.cov(q.T, aweights=w, ddof=0) for w in k.T])
        covs = (covs + covs.transpose(0, 2, 1)) / 2
        p = GMCParam(p.n_clusters, p.n_dim, prob, means, covs)
        trace.append((p, gmm_ll(q, p), lls(u, p)[1]))
        q = gmm_marginal_ppf(u, p)
        gap = {"GMCM": trace[-1][2] - trace[-2][2], "GMM": trace[-1][1] - trace[-2][1], "LI": trace[-1][1] - trace[-2][2]}[criteria.upper()]
        all_gaps.append(gap)
        if abs(gap) < eps:
            break
    return all_gaps if gaps else (trace, gap is not None and abs(gap) < eps, gap)


def flat(p):
    return np.hstack([p.prob, np.ravel(p.means), np.ravel(p.covs)])


class EM(Model):
    name = "expectation maximisation"
    chunk = 2

    def cases(self):
        for data in ("b9", "c14", "d12", "tied", "line"):
            for k in (1, 2, 3) if data != "b9" else (1, 2):
                for s in STARTS:
                    for crit in ("GMCM", "GMM", "Li", "gmcm", "li"):
                        for ties in ("average",) if data != "tied" else ("average", "min", "max", "dense"):
                            if crit in ("gmcm", "li") and (s != "near" or ties != "average"):
                                continue
                            yield {"data": data, "k": k, "start": s, "criteria": crit, "ties": ties}

    def check(self, c, t):
        from copulae import GaussianMixtureCopula
        from copulae.mixtures.gmc.estimators.exceptions import FitException
        x = datasets()[c["data"]]
        u = pobs(x, c["ties"])
        p0 = start(x, c["k"], c["start"])
        f0 = flat(p0)
        depth = 14 if self.thorough else 6
        runs = [(k, 1e-12) for k in range(depth + 1)] + [(60, 1e-2), (60, 1.0), (60, 1e6), (400, 1e-4)][:4 if self.thorough else 3]
        # tolerances on either side of the change in each iteration
        try:
            gaps = em(u, p0, depth if self.thorough else 3, c["criteria"], 0, True)
        except (Stop, np.linalg.LinAlgError, ValueError):
            gaps = []
        runs[depth + 1:depth + 1] = [(60, abs(g) * f) for g in gaps if math.isfinite(g) and abs(g) > 1e-7 for f in (.999, 1.001)]
        for limit, eps in runs:
            g = GaussianMixtureCopula(c["k"], x.shape[1])
            arg = x.copy()
            run = lambda: g.fit(arg, x0=p0, method="pem", ties=c["ties"], verbose=0, max_iter=limit, criteria=c["criteria"], eps=eps)
            ctx = "%r limit=%d eps=%g" % (c, limit, eps)
            try:
                trace, conv, gap = em(u, p0, limit, c["criteria"], eps)
            except (Stop, Exception) as e:
                if not isinstance(e, (Stop, np.linalg.LinAlgError, ValueError)) and type(e).__name__ != "GMCParamError":
                    raise
                if isinstance(e, Stop) and limit <= 14:
                    t.raises(Exception, run, "degenerate iteration", ctx)
                    t.expect(g.params is None, "a failed fit leaves no parameters", ctx)
                if limit < 60:
                    break
                continue
            if any(np.isnan(r[2]) for r in trace) or min(np.linalg.eigvalsh(S).min() / np.linalg.eigvalsh(S).max() for r in trace for S in r[0].covs) < 1e-9 \
                    or min(np.linalg.eigvalsh(S).min() for r in trace for S in r[0].covs) < 1e-10:
                if limit < 60:
                    break        # degenerate from here on: definitions lose all accuracy
                continue
            r = run()
            t.expect(r is g, "fit returns the copula", ctx)
            t.expect(np.array_equal(arg, x) and np.array_equal(flat(p0), f0), "arguments modified", ctx)
            ll = [q[2] for q in trace]
            best = int(np.argmax(ll)) if c["criteria"].upper() != "GMM" else len(trace) - 1
            got = g.params
            t.close(lls(u, got)[1], ll[best], "log likelihood of the parameters kept", 1e-6, 1e-6, ctx)
            near = [k for k in range(len(ll)) if k == best or abs(ll[k] - ll[best]) < 1e-7] if c["criteria"].upper() != "GMM" else [best]
            dist = min(float(np.abs(flat(got) - flat(trace[k][0])).max()) for k in near)
            t.expect(dist <= 1e-6 * (1 + np.abs(flat(trace[best][0])).max()), "iterate kept", lambda: "%s: %r, iterate %d is %r" % (ctx, flat(got), best, flat(trace[best][0])))
            s = g.summary("fit")
            t.expect(s.best_params is got or np.array_equal(flat(s.best_params), flat(got)), "parameters of the report", ctx)
            t.close(s.setup["Log. Likelihood"], lls(u, got)[1], "log likelihood of the report", 1e-8, 1e-8, ctx)
            if gap is None or abs(abs(gap) - eps) > 1e-6 * max(eps, abs(gap)) + 1e-10:
                t.expect(bool(s.has_converged) == conv, "convergence of the report", lambda: "%s: %r, gap %r" % (ctx, s.has_converged, gap))
            t.expect(s.nsample == len(x) and s.method == "pem" and s.setup["Criteria"] == c["criteria"], "report", lambda: "%s: %r" % (ctx, vars(s)))
        for verbose in (0, 1):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                g = GaussianMixtureCopula(c["k"], x.shape[1])
                try:
                    g.fit(x, x0=p0, method="pem", ties=c["ties"], verbose=verbose, max_iter=1, criteria=c["criteria"], eps=1e-15)
                except Exception:
                    continue
                said = any("iteration" in str(q.message).lower() for q in w)
            t.expect(said == (verbose and not g.summary("fit").has_converged), "warning about the iteration limit", lambda: "%r verbose=%d: %r" % (c, verbose, said))


class Starts(Model):
    """The start is k-means when none is given, whatever form a given start takes; refusals leave the copula alone."""
    name = "starting points"
    chunk = 2

    def cases(self):
        for data in ("c14", "d12", "tied"):
            for k in (1, 2):
                for method in ("pem", "sgd", "kmeans"):
                    for form in ("none", "param", "dict", "vector", "list"):
                        yield {"data": data, "k": k, "method": method, "form": form}
        yield {"bad": 1}

    def check(self, c, t):
        from copulae import GaussianMixtureCopula
        from copulae.mixtures.gmc.estimators.exceptions import InvalidStoppingCriteria
        from copulae.mixtures.gmc.exception import GMCFitMethodError
        if "bad" in c:
            x = datasets()["c14"]
            p0 = start(x, 2, "near")
            for kw, exc in (({"method": "nope"}, GMCFitMethodError), ({"criteria": "nope", "x0": p0}, InvalidStoppingCriteria), ({"x0": start(x, 3, "near")}, Exception),
                            ({"x0": [1.0, 2.0]}, Exception), ({"x0": "abc"}, Exception)):
                for before in (None, p0):
                    g = GaussianMixtureCopula(2, 2, before)
                    t.raises(exc, lambda: g.fit(x, verbose=0, **kw), "accepted", repr(list(kw)))
                    t.expect(g.params is None if before is None else np.array_equal(flat(g.params), flat(p0)), "a refused fit changes the parameters", repr(list(kw)))
            return
        x = datasets()[c["data"]]
        k, d = c["k"], x.shape[1]
        kw = {"max_iter": 5, "verbose": 0}
        if c["form"] == "none":
            np.random.seed(4)
            p0 = GaussianMixtureCopula(k, d).fit(x, method="kmeans").params
            a = GaussianMixtureCopula(k, d)
            np.random.seed(4)
            self.fit(a, x, c, kw)
            if c["method"] == "kmeans":
                want = p0
            else:
                b = GaussianMixtureCopula(k, d)
                self.fit(b, x, c, dict(kw, x0=p0))
                want = b.params
        else:
            p0 = start(x, k, "near")
            if min(p0.prob) == 1:
                p0.prob = [1.0]
            arg = {"param": p0, "dict": {"prob": p0.prob, "means": p0.means, "covs": p0.covs}, "vector": p0.to_vector(), "list": list(p0.to_vector())}[c["form"]]
            a, b = GaussianMixtureCopula(k, d), GaussianMixtureCopula(k, d)
            np.random.seed(4)
            self.fit(a, x, c, dict(kw, x0=arg))
            np.random.seed(4)
            self.fit(b, x, c, dict(kw, x0=p0))
            want = b.params
            t.expect(np.array_equal(flat(p0), flat(start(x, k, "near"))), "start modified", repr(c))
        if a.params is None or want is None:
            t.expect(a.params is None and want is None, "refused", repr(c))
            return
        t.close(flat(a.params), flat(want), "fit from the start", 1e-6, 1e-6, repr(c))

    @staticmethod
    def fit(g, x, c, kw):
        try:
            g.fit(x, method=c["method"], **kw)
        except Exception:  # degenerate components
            pass


def partitions(n, k):
    """all assignments of n rows to exactly k groups, canonical"""
    def go(pre, used):
        if len(pre) == n:
            if used == k:
                yield pre
            return
        for g in range(min(used + 1, k)):
            yield from go(pre + [g], max(used, g + 1))
    return go([], 0)


class KMeans(Model):
    """The result must be the moments of a partition of the rows that is stable for the clustering of their ranks."""
    name = "k-means"
    chunk = 2

    def cases(self):
        base = np.array([[0, 1], [1, 0], [1.2, 3], [5, 4], [6, 7], [7.5, 5], [3, 9], [2.2, 2.7], [8, 1.5]])
        for n in (4, 5, 6, 7, 8) + ((9,) if self.thorough else ()):
            for k in (1, 2, 3):
                for rot in range(3):
                    for ties in ("average", "min", "max", "dense"):
                        x = np.roll(base, rot, 0)[:n] * [1, 3]
                        if ties != "average":
                            x = np.round(x / 2.5)
                        for seed in range(4 if self.thorough else 2):
                            yield {"x": x.tolist(), "k": k, "ties": ties, "seed": seed}

    def check(self, c, t):
        from copulae import GaussianMixtureCopula
        x = np.array(c["x"])
        n, d, k = len(x), 2, c["k"]
        u = pobs(x, c["ties"])
        # the global optimum of the partition problem bounds the reported inertia
        stable = []
        for lab in partitions(n, k):
            lab = np.array(lab)
            cen = np.array([u[lab == g].mean(0) for g in range(k)])
            d2 = ((u[:, None] - cen[None]) ** 2).sum(2)
            if (d2[np.arange(n), lab] <= d2.min(1) + 1e-9).all():
                stable.append((lab, d2[np.arange(n), lab].sum()))
        g = GaussianMixtureCopula(k, d)
        arg = x.copy()
        np.random.seed(c["seed"])
        try:
            g.fit(arg, method="kmeans", ties=c["ties"], verbose=0)
        except Exception:
            # only where some stable partition has a component without a covariance
            t.expect(any((np.bincount(lab, minlength=k) == 1).any() or any((x[lab == j].std(0) == 0).any() for j in range(k)) for lab, _ in stable) or len(np.unique(u, axis=0)) < k,
                     "refused", repr(c))
            return
        t.expect(np.array_equal(arg, x), "data modified")
        s = g.summary("fit")
        ok = False
        for lab, inertia in stable:
            cnt = np.bincount(lab, minlength=k)
            if (cnt < 2).any() or abs(inertia - s.setup["Inertia"]) > 1e-9:
                continue
            mu = np.array([x[lab == j].mean(0) for j in range(k)])
            cv = np.array([np.cov(x[lab == j].T) for j in range(k)])
            for o in itertools.permutations(range(k)):
                o = list(o)
                if np.allclose(g.params.prob, cnt[o] / n, 1e-9) and np.allclose(g.params.means, mu[o], 1e-9, 1e-9) and np.allclose(g.params.covs, cv[o], 1e-6, 1e-6):
                    ok = True
        singular = any(np.linalg.matrix_rank(np.cov(x[lab == j].T)) < 2 for lab, _ in stable for j in range(k) if (lab == j).sum() > 1)
        t.expect(ok or singular, "moments of a stable partition", lambda: "%r: %r, stable %d" % (c, flat(g.params), len(stable)))
        t.expect(s.setup["ties"] == c["ties"] and s.method == "kmeans" and s.nsample == n and s.has_converged, "report", lambda: repr(vars(s)))


class Descent(Model):
    name = "gradient descent"
    chunk = 1
    METHODS = ["nelder-mead", "bfgs", "slsqp", "cobyla", "trust-constr", "powell", "Nelder-Mead", None]

    def cases(self):
        for data in ("b9", "c14", "tied", "d12"):
            for k in (1, 2):
                for s in ("near", "unequal", "far"):
                    for m in self.METHODS:
                        for limit in (1, 2, 5, 30) if self.thorough else (1, 12):
                            if m in ("powell",) and (limit > 1 or data != "b9") and not self.thorough:
                                continue
                            if data == "d12" and (k > 1 or m not in ("nelder-mead", "bfgs")) and not self.thorough:
                                continue
                            yield {"data": data, "k": k, "start": s, "method": m, "limit": limit, "ties": "max" if data == "tied" else "average"}

    def check(self, c, t):
        from copulae import GaussianMixtureCopula
        from copulae.mixtures.gmc.parameter import GMCParam
        x = datasets()[c["data"]]
        k, d = c["k"], x.shape[1]
        u = pobs(x, c["ties"])
        p0 = start(x, k, c["start"])
        f0 = flat(p0)
        opts = {"maxiter": c["limit"]}
        g = GaussianMixtureCopula(k, d)
        kw = {} if c["method"] is None else {"optim_options": {"method": c["method"], "options": dict(opts)}}
        keep = {"method": c["method"], "options": dict(opts)}

        def f(v):
            try:
                p = GMCParam.from_vector(v, k, d)
            except Exception:
                return np.inf
            return -lls(u, p)[1]
        try:
            own = minimize(f, p0.to_vector(), method=c["method"] or "nelder-mead", options=opts if c["method"] else {"maxiter": c["limit"], "xatol": 1e-4, "fatol": 1e-4})
            fine = np.isfinite(own.x).all() and np.isfinite(own.fun)
        except Exception:
            own, fine = None, False
        try:
            g.fit(x, x0=p0, method="sgd", ties=c["ties"], verbose=0, max_iter=c["limit"], **kw)
        except Exception as e:
            t.expect(not fine, "optimiser's answer refused", lambda: "%r: %s: %s" % (c, type(e).__name__, e))
            return
        s = g.summary("fit")
        if "optim_options" in kw:
            t.expect(kw["optim_options"] == keep, "options modified", repr(kw))
        t.expect(np.array_equal(flat(p0), f0), "start modified", repr(c))
        ll = lls(u, g.params)[1]
        t.close(-s.setup["Fn. Value"], ll, "value of the report", 1e-6, 1e-6, repr(c))
        t.expect(np.array_equal(flat(s.best_params), flat(g.params)), "parameters of the report", repr(c))
        t.expect(s.method == "sgd" and s.nsample == len(x), "report", lambda: repr(vars(s)))
        if fine and (c["method"] or "nelder-mead").lower() == "nelder-mead":
            # deterministic comparisons only: the same path up to rounding
            t.close(-s.setup["Fn. Value"], -own.fun, "optimum found", 1e-3, 1e-3, repr(c))
            t.expect(bool(s.has_converged) == bool(own.success), "convergence of the report", lambda: "%r: %r %r" % (c, s.has_converged, own.success))
        if (c["method"] or "nelder-mead").lower() == "nelder-mead":
            p1 = GMCParam.from_vector(p0.to_vector(), k, d)
            t.expect(ll >= lls(u, p1)[1] - 1e-9, "never worse than the start", lambda: "%r: %r < %r" % (c, ll, lls(u, p1)[1]))


class Draws(Model):
    """Draws of mixtures with pointlike, far apart components: each must be the marginal level of one component's mean."""
    name = "draws"

    def cases(self):
        for d in (2, 3):
            for k in (1, 2, 3):
                for p in PROBS[k]:
                    for n in (0, 1, 2, 3, 500):
                        yield {"d": d, "k": k, "prob": p, "n": n}

    def check(self, c, t):
        from copulae import GaussianMixtureCopula
        from copulae.mixtures.gmc.marginals import gmm_marginal_cdf
        d, k, n = c["d"], c["k"], c["n"]
        means = np.array([[10.0 * ((j * (a + 1)) % 3) + a for a in range(d)] for j in range(k)])
        g = GaussianMixtureCopula(k, d, {"prob": c["prob"], "means": means, "covs": [np.diag([1e-4 * (j + 1) * (a + 1) for a in range(d)]) for j in range(k)]})
        f0 = flat(g.params)
        for seed in (0, 5):
            r = np.asarray(g.random(n, seed=seed), float)
            if not t.expect(r.shape == (n, d), "shape", lambda: "%r: %s" % (c, r.shape)):
                return
            t.close(g.random(n, seed=seed), r, "same seed", 0, 0, repr(c))
            t.expect(((r >= 0) & (r <= 1)).all(), "range", repr(c))
            # which component: the level lies inside the component's own block of levels in every column
            P = np.array(c["prob"])
            count = np.zeros(k)
            owner = np.full(n, -1)
            for j in range(k):
                inside = np.ones(n, bool)
                for a in range(d):
                    below = sum(P[i] for i in range(k) if means[i, a] < means[j, a] - 1)
                    here = sum(P[i] for i in range(k) if abs(means[i, a] - means[j, a]) < 1)
                    inside &= (r[:, a] >= below - 1e-6) & (r[:, a] <= below + here + 1e-6)
                owner[inside] = j
                if P[j] == 0:
                    continue
                count[j] = inside.sum()
            t.expect((owner >= 0).all(), "every draw belongs to a component", lambda: "%r: %r" % (c, r[owner < 0][:3]))
            if n == 500:
                t.expect((np.abs(count / n - P) <= 5 * np.sqrt(P * (1 - P) / n) + 1e-9).all(), "frequency of the components", lambda: "%r: %r" % (c, count))
                for a in range(d):      # levels are uniform within the column
                    e = np.sort(r[:, a])
                    ks = np.abs(e - (np.arange(n) + .5) / n).max()
                    t.expect(ks < .12, "uniform levels", lambda: "%r column %d: %g" % (c, a, ks))
        t.expect(np.array_equal(flat(g.params), f0), "parameters changed", repr(c))


MODELS = [Values, Marginals, Likelihood, EM, Starts, KMeans, Descent, Draws]
