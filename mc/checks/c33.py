"""A maximum likelihood fit that reports success has found a maximum of the likelihood, and on well-behaved samples it does succeed."""
import itertools

import numpy as np

from ..core import Model

METHODS = (None, "SLSQP", "Nelder-Mead")
MORE = {"frank": ("BFGS", "COBYLA", "trust-constr"), "gaussian": ("BFGS", "COBYLA"), "gumbel": ("COBYLA", "trust-constr"), "clayton": ("COBYLA",)}     # bivariate only
GRID = {"frank": np.r_[-24:0:.37, .2:24:.37], "gumbel": np.r_[1:2:.05, 2:12:.25], "gaussian": np.r_[-.98:.985:.02], "clayton": np.r_[.05:12:.2]}
START = {"frank": (-4., .5, 9.), "gumbel": (1.05, 6.), "gaussian": (-.5, .1, .8), "clayton": (.1, 6.)}


def new(fam, d):
    import copulae as c
    return {"clayton": c.ClaytonCopula, "frank": c.FrankCopula, "gumbel": c.GumbelCopula, "gaussian": c.GaussianCopula, "student": c.StudentCopula}[fam](dim=d)


def sample(cols):
    return np.column_stack(cols).astype(float)


def tau(x, y):
    n = len(x)
    return sum(np.sign(x[i] - x[j]) * np.sign(y[i] - y[j]) for i in range(n) for j in range(i)) / (n * (n - 1) / 2)


def facts(x):
    d = x.shape[1]
    ts = [tau(x[:, i], x[:, j]) for i in range(d) for j in range(i)]
    rs = [np.corrcoef(x[:, i], x[:, j])[0, 1] for i in range(d) for j in range(i)]
    return ts, rs


def vector(c, fam):
    return np.r_[c.params.df, c.params.rho] if fam == "student" else np.ravel(c.params).astype(float)


def loglik(fam, d, p, x):
    c = new(fam, d)
    try:
        c.params = p if len(p) > 1 or fam == "gaussian" else float(p[0])
        return c.log_lik(x)
    except (ValueError, AssertionError):
        return np.nan


def rises(fam, d, est, ll, x, free):
    """The largest gain of likelihood one step away."""
    best, at = 0., None
    for h in (.003, .01, .03, .1):
        for i in free:
            for s in (1, -1):
                p = est.copy()
                p[i] += s * h * (1 + abs(p[i]) if fam != "gaussian" else 1)
                v = loglik(fam, d, p, x)
                if v - ll > best:
                    best, at = v - ll, p
    return best, at


TOL = 2e-3


class Local(Model):
    name = "small samples"

    def cases(self):
        for fam in GRID:
            for n in (4, 5):
                for i, p in enumerate(itertools.permutations(range(n))):
                    for m in METHODS + MORE[fam]:
                        yield {"f": fam, "cols": [list(range(n)), list(p)], "method": m}
            P = list(itertools.permutations(range(6)))
            for i, p in enumerate(P):
                if i % (1 if self.thorough else 4) == 0:
                    yield {"f": fam, "cols": [list(range(6)), list(p)], "method": METHODS[i % 3]}
            P = list(itertools.permutations(range(5)))
            for i, p in enumerate(P):
                for k in range(len(P) if self.thorough else 4):
                    q = P[(i * 7 + 3 + 31 * k) % len(P)]
                    yield {"f": fam, "cols": [list(range(5)), list(p), list(q)], "method": METHODS[(i + k) % 3]}
        for v in itertools.product(range(3), repeat=5):
            if len(set(v)) == 3 and (self.thorough or sum(v[::2]) % 3 == 0):
                for fam in GRID:
                    yield {"f": fam, "cols": [[0, 1, 1, 2, 3], list(v)], "method": None}

    def check(self, case, t):
        fam, x = case["f"], sample(case["cols"])
        self.judge(t, case, fam, x, optim_options={"method": case["method"]} if case["method"] else None)

    def judge(self, t, case, fam, x, start=None, **kw):
        d = x.shape[1]
        ts, rs = facts(x)
        if max(map(abs, ts)) > .999 or max(map(abs, rs)) > .999:
            return                    # columns that determine each other: the likelihood has no maximum
        if d > 2 and fam in ("clayton", "frank") and np.mean(ts) < .02:
            return                    # outside the family's reach
        c = new(fam, d)
        c.fit(x.copy(), verbose=0, **({} if start is None else {"x0": start}), **kw)
        s = c.summary("fit")
        sure = fam != "clayton" or min(ts) > .25
        if fam == "gaussian" and d > 2:      # near-singular matrices: the search may leave the domain for good
            sure = np.linalg.eigvalsh(np.corrcoef(x.T))[0] > .05
        if case["method"] == "COBYLA" and fam == "clayton" and not sure:
            return                    # steps of one over the edge of the support
        if not s.results["success"]:
            t.expect(not sure, "no convergence", lambda: "%s (tau %s)" % (case, ts))
            return
        est = vector(c, fam)
        ll = c.log_lik(x)
        t.expect(np.all(np.isfinite(est)) and np.isfinite(ll), "not a number", lambda: "%s: %s" % (case, est))
        if start is None and min(abs(v) for v in (rs if fam == "gaussian" else [np.mean(ts)])) < 1e-6:
            return                    # the search starts at a saddle, independence
        tol = 10 * TOL if case["method"] == "trust-constr" else TOL      # an interior point method stops short of the edge
        g, at = rises(fam, d, est, ll, x, range(len(est)))
        t.expect(g <= tol + 1e-3 * abs(ll), "not a maximum", lambda: "%s: %s gives %g, %s gives %g more" % (case, est, ll, at, g))
        if d == 2 and (fam != "clayton" or sure):
            for p in GRID[fam][::1 if self.thorough else 3]:
                v = loglik(fam, d, np.array([p]), x)
                t.expect(not v > ll + tol, "not the maximum", lambda: "%s: %s gives %g, %g gives %g" % (case, est, ll, p, v))


class Starts(Local):
    """Given starting values, scaled objectives, pseudo-observations given as such."""
    name = "starting values and scales"

    def cases(self):
        for fam in GRID:
            for n in (5,):
                for i, p in enumerate(itertools.permutations(range(n))):
                    for k, x0 in enumerate(START[fam]):
                        if self.thorough or (i + k) % 3 == 0:
                            yield {"f": fam, "cols": [list(range(n)), list(p)], "x0": x0, "scale": (1., 100.)[i % 2], "method": METHODS[i // 2 % 3]}

    def check(self, case, t):
        fam, x = case["f"], sample(case["cols"])
        x0 = case["x0"] if fam != "gaussian" else np.array([case["x0"]])
        self.judge(t, case, fam, x, start=x0, scale=case["scale"], optim_options={"method": case["method"]} if case["method"] else None)


class Student(Model):
    name = "Student"

    def cases(self):
        for n in (4, 5, 6):
            for i, p in enumerate(itertools.permutations(range(n))):
                if n < 5 or (self.thorough and n < 6) or i % (5 if n == 5 else 37) == 0:
                    for fix in (0, 3., 12.):
                        yield {"cols": [list(range(n)), list(p)], "fix": fix}

    def check(self, case, t):
        x = sample(case["cols"])
        ts, rs = facts(x)
        if max(map(abs, rs)) > .999:
            return
        c = new("student", 2)
        if case["fix"]:
            c.params = np.array([case["fix"], .2])
            c.fit(x, x0=np.array([case["fix"], .3]), verbose=0, fix_df=True)
        else:
            c.fit(x, verbose=0)
        s = c.summary("fit")
        if not s.results["success"]:
            return
        est, ll = vector(c, "student"), c.log_lik(x)
        if case["fix"]:
            t.expect(est[0] == case["fix"], "fixed degrees of freedom", lambda: "%s: %s" % (case, est))
        if abs(rs[0]) < 1e-6 or abs(est[1]) > .995:
            return                    # a saddle; the likelihood grows without bound towards the edge
        g, at = rises("student", 2, est, ll, x, [1] if case["fix"] else [0, 1])
        t.expect(g <= 2 * TOL + 1e-3 * abs(ll), "not a maximum", lambda: "%s: %s gives %g, %s gives %g more" % (case, est, ll, at, g))


MODELS = [Local, Starts, Student]
RULE = ("states: (family, sample, method, starting value, scale) - all permutation samples of four and five rows, of six by stride, three columns of five rows, five rows with ties; "
        "transitions: comparisons of the likelihood at the estimate with every neighbouring and grid parameter")
ASSUMPTIONS = ["the likelihood is the package's own (C29 judges it)", "samples of which two columns determine each other have no maximum and are left out",
               "a search started exactly at independence on a sample without correlation may stay at that saddle", "Clayton's likelihood has separate branches for negative parameters: only local maxima are required of it",
               "gains below 0.002 (0.02 for trust-constr, an interior point method) are within the optimizers' tolerance"]
