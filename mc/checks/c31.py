"""Copulas never influence one another: interleaved histories of two objects, copies, and all schedules of two threads."""
import copy
import itertools
import pickle
import sys
import threading

import numpy as np
import pandas as pd

from .. import boot, cops
from ..core import Model, isolated
from . import c09

PKG = boot.REPO.rstrip("/") + "/copulae/"

# ------------------------------------------------------------------ two objects, every interleaving of their operations
KINDS = [("clayton", 2), ("clayton", 3), ("frank", 2), ("frank", 3), ("gumbel", 2), ("gumbel", 3), ("gaussian", 2), ("gaussian", 3),
         ("student", 2), ("student", 3), ("indep", 2), ("marginal-gaussian", 2), ("marginal-clayton", 2), ("gmc", 2)]


def alphabet(kind, thorough):
    if kind == "gmc":
        o = ["pem x0", "frame pem", "set dict", "bad columns", "eval", "scribble"]
        return o + ["set vector", "kmeans", "bad method", "draw"] if thorough else o
    o = ["ml B frame", "itau A", "eval", "scribble"]
    if kind != "indep":
        if not kind.startswith("marginal"):
            o += ["set p2", "set bad"]
            if kind != "student" or thorough:
                o += ["uniform C"]
        else:
            o += ["inner set", "inner fit frame"]
        if kind in ("clayton", "frank", "gumbel", "gaussian") or thorough:
            o += ["maxiter 1"]
        if thorough:
            o += ["ml A", "few rows", "summary", "draw"]
    return o


def scribble(v):
    if isinstance(v, np.ndarray) and v.size and v.flags.writeable and v.dtype.kind == "f":
        v *= .125
    elif isinstance(v, (tuple, list)):
        for k in v:
            scribble(k)
    elif isinstance(v, dict):
        for k in list(v.values()):
            scribble(k)
        v["scribble"] = 1


def step(obj, kind, d, op):
    np.random.seed(7)
    if op == "scribble":       # a caller may do as he likes with the arrays an object hands out
        for n in ("params", "bounds", "sigma", "tau", "rho", "lambda_"):
            scribble(getattr(obj[0], n, None))
        return "done"
    try:
        c09.apply(obj[0], obj[1], kind, d, op)
    except Exception as e:   # noqa
        return type(e).__name__
    return "done"


def see(obj, d):
    np.random.seed(5)
    out = c09.observe(obj[0], d)
    c = obj[0]
    for n, a in (("html", ()), ("html copula", ("copula",)), ("html fit", ("fit",))):
        try:
            out[n] = c.summary(*a).as_html()
        except Exception as e:   # noqa
            out[n] = type(e).__name__
    for f in ("tau", "rho", "lambda_", "bounds", "name", "dim"):
        try:
            out[f] = repr(c09.plain(getattr(c, f)))
        except Exception as e:   # noqa
            out[f] = type(e).__name__
    return out


def shuffles(n, m):
    """Every interleaving of n steps of x with m steps of y, as a string."""
    for pos in itertools.combinations(range(n + m), n):
        yield "".join("x" if i in pos else "y" for i in range(n + m))


def play(order, spec, prog):
    """spec, prog: {'x': ..., 'y': ...}; the first letter of each object creates it."""
    obj, log, at = {}, {"x": [], "y": []}, {"x": 0, "y": 0}
    for o in order:
        kind, d = spec[o]
        if o not in obj:
            obj[o] = c09.make(kind, d)
        else:
            log[o].append(step(obj[o], kind, d, prog[o][at[o]]))
            at[o] += 1
    for o in obj:
        log[o].append(see(obj[o], spec[o][1]))
    return log


def logdiff(a, b):
    for i, (p, q) in enumerate(zip(a, b)):
        if isinstance(p, dict):
            w = c09.diff(p, q)
            if w:
                return w
        elif p != q:
            return "step %d: %s instead of %s" % (i, p, q)
    return None


def partners(kind, d):
    same = {"clayton": "frank", "frank": "gumbel", "gumbel": "clayton", "gaussian": "student", "student": "gaussian",
            "indep": "clayton", "marginal-gaussian": "gaussian", "marginal-clayton": "clayton", "gmc": "gaussian"}
    out = [(kind, d), (same[kind], d)]
    if kind in ("clayton", "frank", "gumbel", "gaussian", "student"):
        out.append((kind, 5 - d))
    if kind.startswith("marginal"):
        out.append(("marginal-clayton" if kind == "marginal-gaussian" else "marginal-gaussian", d))
    return out


class TwoObjects(Model):
    name = "interleaved histories of two objects"
    chunk = 1

    def cases(self):
        for x in KINDS:
            if x in (("gaussian", 3), ("student", 3)) and not self.thorough:      # there they are the partners of the bivariate ones
                continue
            for y in partners(*x):
                for op in alphabet(x[0], self.thorough):
                    yield {"x": list(x), "y": list(y), "x does": op}

    def check(self, case, t):
        spec = {"x": tuple(case["x"]), "y": tuple(case["y"])}
        ly = (2,) if self.thorough and spec["x"][0] in ("clayton", "frank", "gumbel", "gaussian") and spec["x"][1] == 2 else (1,)
        px = [case["x does"]]

        def alone(o, p):
            return play(o * (1 + len(p)), {o: spec[o]}, {o: p})[o]
        want = {"x": isolated(lambda: alone("x", px))}
        for n in ly:
            for py in itertools.product(alphabet(spec["y"][0], self.thorough), repeat=n):
                py = list(py)
                wy = isolated(lambda: alone("y", py))
                for order in shuffles(1 + len(px), 1 + n):
                    got = play(order, spec, {"x": px, "y": py})
                    for o, w in (("x", want["x"]), ("y", wy)):
                        why = logdiff(got[o], w)
                        t.expect(why is None, "objects interfere", lambda: "%s: x does %s, y does %s, order %s, %s shows %s" %
                                 (spec, px, py, order, o, why))
                    if t.fails:
                        return


# ------------------------------------------------------------------ nearly equal objects and reused arrays
def near(p, eps):
    return [v * (1 + eps) for v in p] if isinstance(p, list) else p * (1 + eps)


class Twins(Model):
    """Two objects with almost the same parameter, and one array object holding changing values: nothing may be remembered."""
    name = "nearly equal objects, reused arrays"

    def cases(self):
        for s in cops.zoo():
            if s["f"] in ("clayton", "frank", "gumbel", "gaussian", "student") and s["p"] not in (0.0, 1.0):
                for e in range(2, 15):
                    for sign in (1, -1):
                        yield {"spec": s, "eps": sign * 10. ** -e}
            else:
                yield {"spec": s, "eps": 0}

    def check(self, case, t):
        a = case["spec"]
        b = dict(a, p=near(a["p"], case["eps"])) if case["eps"] else a

        def values(spec, u):
            c = cops.make(spec)
            acts = actions(spec, 0, u)
            return {n: outcome(lambda: f(c)) for n, f in acts.items()}
        want_a, want_b = isolated(lambda: values(a, U1)), isolated(lambda: values(b, U1))
        for order in ("ab", "ba", "aba", "bab"):
            for o in order:
                w = c09.diff(values(a if o == "a" else b, U1), want_a if o == "a" else want_b)
                t.expect(w is None, "remembers another object", lambda: "%s, order %s: %s" % (case, order, w))
        # the same array object with other values in it, and other arrays with the same values
        want2 = isolated(lambda: values(a, U2r))
        c, arr = cops.make(a), U1.copy()
        acts = actions(a, 0, arr, copy_=False)
        for k in range(4):
            arr[:] = U1 if k % 2 == 0 else U2r
            for n, f in acts.items():
                got = outcome(lambda: f(c))
                ref = (want_a if k % 2 == 0 else want2)[n]
                t.expect(repr(got) == repr(ref), "remembers an array", lambda: "%s %s, visit %d: %s instead of %s" % (case, n, k, got, ref))


# ------------------------------------------------------------------ copies
class Copies(Model):
    name = "copies"
    chunk = 1

    def cases(self):
        for kind, d in KINDS:
            if (kind, d) == ("student", 3) and not self.thorough:
                continue
            for how in ("deepcopy", "pickle"):
                for op in [None] + alphabet(kind, self.thorough):
                    yield {"kind": kind, "d": d, "how": how, "before": op}

    def check(self, case, t):
        kind, d = case["kind"], case["d"]
        dup = copy.deepcopy if case["how"] == "deepcopy" else (lambda o: pickle.loads(pickle.dumps(o)))

        def state():
            o = c09.make(kind, d)
            if case["before"]:
                step(o, kind, d, case["before"])
            return o
        for op in alphabet(kind, self.thorough):
            def ref():
                o = state()
                a = see(o, d)
                r = step(o, kind, d, op)
                return a, r, see(o, d)
            before, res, after = isolated(ref)
            for who in ("copy", "original"):
                o = state()
                k = dup(o)                       # the pair (copula, its inner copula) is copied as one
                mover, still = (k, o) if who == "copy" else (o, k)
                w = c09.diff(see(k, d), before)
                t.expect(w is None, "copy differs", lambda: "%s: %s" % (case, w))
                r = step(mover, kind, d, op)
                t.expect(r == res, "copy acts differently", lambda: "%s, %s of the %s: %s instead of %s" % (case, op, who, r, res))
                w = c09.diff(see(still, d), before)
                t.expect(w is None, "shared state", lambda: "%s, %s of the %s shows in the other: %s" % (case, op, who, w))
                w = c09.diff(see(mover, d), after)
                t.expect(w is None, "copy acts differently", lambda: "%s, %s of the %s: %s" % (case, op, who, w))


# ------------------------------------------------------------------ threads: a controlled scheduler at source-line granularity
class Sched:
    """Two threads of which exactly one runs; control changes hands at the chosen source lines of the package only.

    plan: list of (thread, n): when that thread reaches its n-th line event, it hands over.  A finished thread hands
    over as well.  Every schedule with len(plan) preemptions is reached by some plan.
    """

    def __init__(self, fns, plan, first=False):
        self.first = {} if first else None
        self.fns, self.plan = fns, list(plan)
        self.n = [0] * len(fns)
        self.out = [None] * len(fns)
        self.done = [False] * len(fns)
        self.go = [threading.Semaphore(0) for _ in fns]
        self.used = 0

    def _local(self, i):
        def tr(frame, event, arg):
            if event == "line":
                if self.first is not None:        # long computations: only the first executions of each source line
                    k = (i, frame.f_code.co_filename, frame.f_lineno)
                    if self.first.get(k, 0) >= 2:
                        return tr
                    self.first[k] = self.first.get(k, 0) + 1
                self.n[i] += 1
                if self.plan and self.plan[0] == (i, self.n[i]):
                    self.plan.pop(0)
                    self._switch(i)
            return tr

        def top(frame, event, arg):
            return tr if frame.f_code.co_filename.startswith(PKG) else None
        return top

    def _switch(self, i):
        j = 1 - i
        if self.done[j]:
            return
        self.used += 1
        self.go[j].release()
        self.go[i].acquire()

    def _run(self, i):
        self.go[i].acquire()
        sys.settrace(self._local(i))
        try:
            with np.errstate(all="ignore"):
                self.out[i] = outcome(self.fns[i])
        finally:
            sys.settrace(None)
            self.done[i] = True
            self.go[1 - i].release()

    def run(self):
        ts = [threading.Thread(target=self._run, args=(i,), daemon=True) for i in range(2)]
        for x in ts:
            x.start()
        self.go[0].release()
        for x in ts:
            x.join()
        return self.out


def outcome(f):
    try:
        r = f()
    except Exception as e:   # noqa
        return [type(e).__name__, str(e)]
    if isinstance(r, pd.DataFrame):
        return [list(map(str, r.columns)), r.to_numpy().tolist()]
    if isinstance(r, tuple):
        return [outcome(lambda: v) for v in r]
    if isinstance(r, np.ndarray) and r.dtype == object:
        return [outcome(lambda: v) for v in r]
    if isinstance(r, list):
        return r
    return np.asarray(r).tolist() if isinstance(r, (np.ndarray, float, int, pd.Series, np.generic)) else str(r)


U1 = np.array([[.2, .6, .3], [.7, .1, .8], [.45, .5, .9]])
U2 = np.array([[.9, .35, .15], [.05, .5, .65]])


U2r = np.vstack([U2, U1[:1] ** 2])


def actions(spec, k, data=None, copy_=True):
    """name -> function(copula), with the k-th data set (or the given one, uncopied if asked)."""
    d = spec["d"]
    u = ((U1, U2)[k] if data is None else data)[:, :d]
    if not copy_:        # the caller's own array, every time
        return {"pdf": lambda c: c.pdf(u), "log pdf": lambda c: c.pdf(u, log=True)} if spec["f"] not in ("empirical", "marginal", "gmc") else {}
    x = u if spec["f"] not in ("marginal", "gmc") else u * 2 - .3
    out = {"pdf": lambda c: c.pdf(x.copy()), "log pdf": lambda c: c.pdf(x.copy(), log=True)}
    if spec["f"] != "student" and not (d > 2 and spec["f"] in ("gaussian", "marginal", "gmc")):
        out["cdf"] = lambda c: c.cdf(x.copy())
        out["log cdf"] = lambda c: c.cdf(x.copy(), log=True)
    if spec["f"] == "empirical":
        out["to_marginal"] = lambda c: c.to_marginal(u.copy())
        if spec.get("smoothing") != "beta":
            out.pop("pdf"), out.pop("log pdf")
        return out
    if spec["f"] == "gmc":
        return out
    out["log_lik"] = lambda c: c.log_lik(np.vstack([x, x[:1] * .5]))
    if spec["f"] != "marginal":
        out["measures"] = lambda c: tuple(outcome(lambda: getattr(c, n)) for n in ("tau", "rho", "lambda_", "params"))
    out["summary"] = lambda c: str(c.summary()) if spec["f"] != "empirical" else ""
    if spec["f"] in ("clayton", "frank", "gumbel"):
        out["generator"] = lambda c: (c.psi(u[:, 0].copy()), c.ipsi(u[:, 1].copy()), c.dipsi(u[:, 1].copy(), 1))
        out["inverse"] = lambda c: (c.itau(np.array([.2, .4])), c.dtau())
    return out


def tspecs(thorough):
    for s in cops.zoo():
        if thorough or (s["d"] == 2 and s.get("p") not in (0.0, 1.0)):
            if s["f"] == "gmc":
                s = dict(s)
            yield s


class Threads(Model):
    name = "two threads, every preemption"
    chunk = 1

    def cases(self):
        for s in tspecs(self.thorough):
            for a in actions(s, 0):
                yield {"spec": s, "first": a}

    def check(self, case, t):
        spec = case["spec"]
        A = actions(spec, 0)[case["first"]]
        for share in (True, False):
            for name, B in actions(spec, 1).items():
                def mk():
                    c = cops.make(spec)
                    if share:
                        return c, c
                    s2 = dict(spec)
                    if isinstance(s2.get("p"), float) and s2["f"] in ("clayton", "frank", "gumbel"):
                        s2["p"] = s2["p"] * 1.5 if s2["p"] > 0 else s2["p"] / 2
                    return c, cops.make(s2)

                def alone():
                    c1, _ = mk()
                    a = outcome(lambda: A(c1))
                    _, c2 = mk()
                    return a, outcome(lambda: B(c2))
                want = isolated(alone)
                c1, c2 = mk()
                fns = [lambda: A(c1), lambda: B(c2)]
                s0 = Sched(fns, [])
                got = s0.run()
                na, nb = s0.n
                plans = [[(0, i)] for i in range(1, na + 1)]
                if self.thorough:
                    m = 6000
                    if na * nb <= m:
                        plans += [[(0, i), (1, j)] for i in range(1, na + 1) for j in range(1, nb + 1)]
                t.expect(got[0] == want[0] and got[1] == want[1], "sequential", lambda: "%s then %s: %s" % (case, name, got))
                for p in plans:
                    c1, c2 = mk()
                    s = Sched([lambda: A(c1), lambda: B(c2)], p)
                    got = s.run()
                    if not t.expect(got[0] == want[0] and got[1] == want[1], "schedule shows", lambda: "%s with %s, %s object, switches %s: %s instead of %s" %
                                    (case, name, "same" if share else "another", p, got, want)):
                        return


# free functions
def free():
    from copulae import core, datasets, stats
    from copulae.special import clausen, combinatorics as cb, debye, dilog, special_func as sf, trig
    from copulae.archimedean import auxiliary as ax
    from copulae.utility import dict as ud
    g = np.array([[1., 2.], [2., 1.], [2., 5.], [4., 3.], [0., 4.]])
    h = np.array([[3., 9.], [1., 7.], [6., 7.], [2., 2.]])
    gn = g.copy()
    gn[1, 0] = np.nan
    fr = pd.DataFrame(h, columns=["a", "b"])
    return {
        "pobs": [lambda: core.pseudo_obs(g.copy(), "max"), lambda: core.pseudo_obs(fr.copy(), "min")],
        "corr": [lambda: stats.corr(gn.copy(), method="kendall", use="complete"), lambda: stats.corr(fr.copy(), method="spearman")],
        "near_psd": [lambda: core.near_psd(np.array([[1., .9, -.9], [.9, 1., .9], [-.9, .9, 1.]])), lambda: core.near_psd(np.array([[2., 1.9], [1.9, 1.]]))],
        "corr matrix": [lambda: core.create_cov_matrix([.1, .2, .3]), lambda: core.tri_indices(3, 1, "lower")],
        "covariance": [lambda: core.cov2corr(np.array([[4., 1.], [1., 9.]]), True), lambda: core.corr2cov(np.array([[1., .3], [.3, 1.]]), [2., 3.])],
        "mvt": [lambda: stats.multivariate_t.pdf(g, np.zeros(2), np.array([[1., .5], [.5, 2.]]), 4), lambda: stats.multivariate_t.logpdf(h, np.ones(2), np.eye(2), 2.5)],
        "stirling": [lambda: (sf.stirling_first(7, 3), sf.stirling_second(7, 3)), lambda: (sf.stirling_first_all(5), sf.stirling_second_all(6))],
        "eulerian": [lambda: (sf.eulerian(6, 2), sf.eulerian_all(5)), lambda: (sf.eulerian_all(7), sf.eulerian(5, 3))],
        "combinatorics": [lambda: (cb.comb(9, 4), cb.perm(5, 2, True)), lambda: (cb.comb([4, 5], [2, 2]), sf.sign_ff(.4, [1, 2, 3], [3, 3, 3]))],
        "debye": [lambda: debye.debye_1(np.array([.3, 2.])), lambda: debye.debye_2(np.array([1., 4., 7.]))],
        "dilog": [lambda: dilog.dilog(np.array([.3, .9])), lambda: clausen.clausen(np.array([.3, 2.]))],
        "complex dilog": [lambda: outcome(lambda: np.abs(dilog.dilog_complex(.5, .7))), lambda: outcome(lambda: np.angle(dilog.dilog_complex(.8, 1.7)))],
        "polylog": [lambda: sf.poly_log(np.array([.2, .5]), -3), lambda: sf.poly_log(np.array([.3]), -2, log=True)],
        "polynomial": [lambda: sf.polyn_eval([1., 2., 3.], np.array([.5, 2.])), lambda: sf.polyn_eval([2., -1.], np.array([3., 4., 5.]))],
        "logs": [lambda: (sf.log1pexp(np.array([-3., 10., 40.])), sf.log_sum(np.array([[.1, .2], [.3, 1.]]))), lambda: sf.log1mexp(np.array([.2, 3.]))],
        "sibuya": [lambda: ax.dsum_sibuya(6, 3, .4), lambda: ax.dsum_sibuya(7, 2, .7, log=True)],
        "trig": [lambda: trig.cospi(np.array([.25, 1.5])), lambda: (trig.sinpi(np.array([.5, 3.])), trig.tanpi2(np.array([.2])))],
        "merge": [lambda: sorted(ud.merge_dicts({"a": 1}, {"b": {"c": 2}}).items()), lambda: sorted(ud.merge_dicts({"a": 5}, {"a": 3, "c": 2}).items())],
        "stable": [lambda: stats.skew_stable.pdf(np.array([.3, 1.]), 1.4, .5, 1, 0, 1), lambda: stats.skew_stable.logpdf(np.array([-.2]), 1.7, 0, 2, 1, 1)],
        "data": [lambda: datasets.load_marginal_data().iloc[:3], lambda: core.rank_data(g.copy(), 1, "min")],
    }


class FreeThreads(Model):
    name = "functions in two threads, every preemption"
    chunk = 1

    def cases(self):
        for k in free():
            for i in (0, 1):
                yield {"function": k, "which": i}

    def check(self, case, t):
        fs = free()
        A = fs[case["function"]][case["which"]]
        a = isolated(lambda: outcome(A))
        for other in ([case["function"]] if not self.thorough else list(fs)):
            for j in (0, 1):
                B = fs[other][j]
                b = isolated(lambda: outcome(B))
                long = case["function"] == "stable"     # the numerical integrations call back thousands of times
                s0 = Sched([A, B], [], long)
                s0.run()
                for i in range(1, s0.n[0] + 1):
                    got = Sched([A, B], [(0, i)], long).run()
                    if not t.expect(got == [a, b], "schedule shows", lambda: "%s with %s[%d], switch at %d: %s instead of %s" % (case, other, j, i, got, [a, b])):
                        return


MODELS = [TwoObjects, Twins, Copies, Threads, FreeThreads]
RULE = ("states: (two objects and an operation of the first), (object, way of copying, operation before), (object, operation of the first thread), (function, argument set); "
        "each is extended by every operation of the other side and by every interleaving of the two histories, respectively every placement of one preemption "
        "(thorough tier: of two) at the package's source lines; the reference is each side alone in a forked, otherwise idle process; transitions: comparisons of "
        "whole observations or of the results of both threads")
ASSUMPTIONS = ["compiled kernels run atomically with respect to the controlled scheduler: it switches threads at Python source lines of the package",
               "random draws, which use NumPy's global generator by design, are interleaved between operations but not preempted inside",
               "changing parameters of an object while another thread evaluates the same object is not claimed",
               "SciPy's multivariate normal cdf beyond dimension 2 uses hidden random state; those cdfs are left to their densities here"]
