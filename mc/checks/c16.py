"""The parametric bootstrap of the goodness-of-fit test: every sequence of bootstrap samples on small data sets, and
every assignment of replicates to worker processes.

The copula handed to gof_copula is a real class whose environment is under control: random() returns the samples the
model enumerates, fit() turns the pseudo-observations it is given into a parameter by a fixed formula, cdf() is a fixed
dyadic function of it.  All sums are then exact, so replicates that equal the statistic count as such."""
import itertools
import json
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from .. import env, ref, sizes
from ..core import Model
from .c13 import sorted_weak

TIES = ("average", "min", "max", "dense")
_ctl = {}


def theta_of(pobs, opt):
    """An integer 0..15 that depends on the rows as pairs, not on their order."""
    p = np.asarray(pobs, float)
    n = len(p) + 1
    r = np.round(p * n * 2).astype(int)
    v = int((r[:, 0] * r[:, -1] * 3 + r[:, 0] ** 2 + 2 * r[:, 1]).sum()) + int(opt)
    return v % 16


def cdf_of(u, theta):
    u = np.asarray(u, float)
    return np.floor((u.prod(1) * (17 + theta) + u[:, 0] * u[:, 1] ** 2 * theta) * 8) / 256


def make(base):
    from copulae import ClaytonCopula, GumbelCopula, GaussianCopula
    base = {"Clayton": ClaytonCopula, "Gumbel": GumbelCopula, "Gaussian": GaussianCopula}[base]

    class Stub(base):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            self.history = []
            self.th = None

        def fit(self, data, x0=None, method="ml", optim_options=None, ties="average", verbose=1, to_pobs=True, scale=1.0):
            d = self.pobs(np.asarray(data), ties) if to_pobs else np.asarray(data)
            log("fit", d.tolist(), [x0, method, verbose, scale, optim_options], self.dim, len(self.history))
            self.history.append(1)
            self.th = theta_of(d, _ctl.get("opt", 0) if scale == 1.0 else scale) + 16 * (len(self.history) - 1)
            return self

        @property
        def params(self):
            return self.th

        @params.setter
        def params(self, v):
            pass

        def cdf(self, x, log=False):
            return cdf_of(x, self.th)

        def random(self, n, seed=None):
            return _ctl["random"](self, n, seed)
    Stub.__qualname__ = "Stub" + base.__name__
    Stub.__name__ = Stub.__qualname__
    globals()[Stub.__name__] = Stub          # picklable
    return Stub


def log(*rec):
    if "file" in _ctl:
        with open(_ctl["file"], "a") as f:
            f.write(json.dumps(rec, default=str) + "\n")
    else:
        _ctl.setdefault("log", []).append(rec)


# ---------------------------------------------------------------- the defining scheme
def impose(draw, data):
    """Group of the margin at each row's rank: rows stay as drawn."""
    cols = []
    for x, y in zip(zip(*draw), zip(*data)):
        o = sorted(range(len(x)), key=lambda i: x[i])
        s = sorted(y)
        c = [0] * len(x)
        for k, i in enumerate(o):
            c[i] = s[k]
        cols.append(c)
    return list(zip(*cols))


def levels(rows, ties):
    n = len(rows)
    return np.array([[float(r) / (n + 1) for r in ref.ranks(list(c), ties)] for c in zip(*rows)]).T


def statistic(rows, ties, fit_ties, opt):
    u = levels(rows, ties)
    th = theta_of(levels(rows, fit_ties), opt)
    emp = np.array([np.mean([all(a <= b for a, b in zip(i, k)) for i in u]) for k in u])
    return float(((emp - cdf_of(u, th)) ** 2).sum()), th


def tied(rows):
    return any(len(set(c)) < len(c) for c in zip(*rows))


def classic(T, s, n):
    """Bounds for the number of replicates at least as large (rounding only matters unless n is a power of two)."""
    eps = 0 if n in (1, 2, 4, 8) else 1e-12
    return sum(x >= s + eps for x in T), sum(x >= s - eps for x in T)


class Sequential(Model):
    name = "all bootstrap samples"
    chunk = 4

    def cases(self):
        for n in (2, 3, 4):
            pat = sorted_weak(n)
            for x in pat:
                for y in (ref.weak_orderings(n) if n < 4 else ref.weak_orderings(n)[:: 1 if self.thorough else 4]):
                    yield {"data": [x, y], "cls": ["Clayton", "Gumbel", "Gaussian"][(sum(y) + n) % 3]}
        for x in sorted_weak(3):
            for y in ref.weak_orderings(3)[::1 if self.thorough else 3]:
                for z in ref.weak_orderings(3)[:: 2 if self.thorough else 5]:
                    yield {"data": [x, y, z], "cls": "Clayton"}

    def check(self, case, t):
        cols = case["data"]
        n, d = len(cols[0]), len(cols)
        rows = list(zip(*cols))
        data = np.array(rows, float) * 2.5 - 1
        cls = make(case["cls"])
        # every relative order of the draws (the first column's order only relabels rows when it is not tied to the data)
        perms = list(itertools.permutations(range(n)))
        draws = [list(zip(*c)) for c in itertools.product(perms[:: 1 if n < 4 else 5] if n < 4 else perms[:1], *([perms] * (d - 1)))]
        if len(draws) > 36 and not self.thorough:
            draws = draws[::len(draws) // 36 + 1]
        rules = [(a, b) for a in TIES for b in TIES] if n < 4 and d == 2 else [("average", "average"), ("max", "average"), ("average", "dense"), ("min", "max")]
        if not tied(rows):
            rules = [("average", "average"), ("max", "dense")]
        for ties, fit_ties in rules:
            opt = len(ties) % 3
            s, th = statistic(rows, ties, fit_ties, opt)
            T = []
            for w in draws:
                b = impose(w, rows) if tied(rows) else w
                T.append(statistic(b, ties, fit_ties, opt)[0])
            self.run(t, case, cls, data, rows, draws, ties, fit_ties, opt, s, th, T)
            self.run(t, case, cls, data, rows, draws, ties, fit_ties, opt, s, th, T, to_pobs=False)
            one = sorted({v: i for i, v in reversed(list(enumerate(T)))}.values())[:8]
            for i in one:                                   # each replicate on its own
                self.run(t, case, cls, data, rows, [draws[i]], ties, fit_ties, opt, s, th, [T[i]])
            if len(t.fails) > 6:
                return

    def run(self, t, case, cls, data, rows, draws, ties, fit_ties, opt, s, th, T, **kw):
        from copulae.gof import gof_copula
        n, d = data.shape
        src = iter(draws)
        _ctl.clear()
        sizes = []

        def rnd(cop, k, seed):
            sizes.append((k, cop.dim, cop.th, len(cop.history)))
            return (np.array(next(src), float) + .5) / n
        _ctl.update(random=rnd, opt=opt)
        before = data.copy()
        r = gof_copula(cls, data, len(draws), ties=ties, fit_ties=fit_ties, **kw)
        ctx = "%r ties=%s fit_ties=%s draws=%s" % (case, ties, fit_ties, draws if len(draws) < 3 else len(draws))
        t.expect(np.array_equal(before, data), "data changed")
        t.close(r.statistic, s, "statistic", 1e-12, 1e-15, ctx=ctx)
        t.expect(r.parameter == th, "parameter", lambda: "%s: %r instead of %r" % (ctx, r.parameter, th))
        t.expect(len(sizes) == len(draws) and all(q == (n, d, th, 1) for q in sizes), "samples drawn from the copula fitted to the data",
                 lambda: "%s: %r" % (ctx, sizes[:3]))
        fits = [q for q in _ctl.get("log", []) if q[0] == "fit"]
        t.expect(len(fits) == len(draws) + 1 and all(q[3] == d and q[4] == 0 for q in fits), "a fresh copula fitted per replicate", lambda: "%s: %r" % (ctx, fits[:3]))
        lo, hi = classic(T, s, n)
        k = r.pvalue * (len(draws) + 1) - .5
        t.expect(lo - 1e-6 <= k <= hi + 1e-6 and abs(k - round(k)) < 1e-6, "p-value",
                 lambda: "%s: %g replicates at least as large, defined %d..%d (T=%r, statistic %r)" % (ctx, k, lo, hi, T[:4], s))


class Options(Model):
    """Containers, option pass-through, defaults, the report."""
    name = "arguments"

    def cases(self):
        for c in ("Clayton", "Gumbel", "Gaussian"):
            for form in ("array", "frame", "int", "fortran", "readonly"):
                for kw in ({}, {"verbose": 0}, {"verbose": 2}, {"method": "itau"}, {"x0": 3.0}, {"scale": 2.0}, {"to_pobs": True}, {"to_pobs": False},
                           {"optim_options": {"method": "SLSQP"}}, {"verbose": 0, "scale": 3.0, "method": "irho"}):
                    yield {"cls": c, "form": form, "kw": kw}

    def check(self, case, t):
        from copulae.gof import gof_copula
        cls = make(case["cls"])
        rows = [(0, 1), (1, 0), (1, 3), (2, 2)]
        X = np.array(rows, float)
        data = {"array": X, "frame": pd.DataFrame(X, columns=["b", "a"], index=[7, 3, 1, 0]), "int": X.astype(int), "fortran": np.asfortranarray(X), "readonly": X}[case["form"]]
        if case["form"] == "readonly":
            X.flags.writeable = False
        draws = [[(0, 0), (1, 1), (2, 2), (3, 3)], [(2, 0), (1, 3), (0, 1), (3, 2)], [(0, 3), (1, 2), (2, 1), (3, 0)]]
        src = iter(draws)
        _ctl.clear()
        _ctl.update(random=lambda c, n, seed: (np.array(next(src), float) + .5) / 4)
        kw = dict(case["kw"])
        if "optim_options" in kw:
            kw["optim_options"] = dict(kw["optim_options"])
        r = gof_copula(cls, data, 3, **kw)
        opt = kw.get("scale", 0)
        s, th = statistic(rows, "average", "average", opt)
        T = [statistic(impose(w, rows), "average", "average", opt)[0] for w in draws]
        t.close(r.statistic, s, "statistic", 1e-12, 1e-15, ctx=repr(case))
        t.expect(r.parameter == th, "parameter", repr(r.parameter))
        t.close(r.pvalue, (sum(x >= s for x in T) + .5) / 4, "p-value", 1e-12, ctx=repr(case))
        want = [kw.get("x0"), kw.get("method", "ml"), kw.get("verbose", 0), kw.get("scale", 1.0), kw.get("optim_options")]
        fits = _ctl["log"]
        t.expect(len(fits) == 4 and all(q[2] == want for q in fits), "fit options", lambda: "%r: %r" % (case, [q[2] for q in fits]))
        t.expect(cls(dim=2).name in r.method, "name in the report", r.method)
        t.expect(str(r) == repr(r) and all(x in str(r) for x in (r.method, str(r.parameter), repr(round(r.statistic, 9)), repr(round(r.pvalue, 9)))), "report", str(r))


class Many(Model):
    """Hundreds and thousands of replicates: the same few samples over and over."""
    name = "many replicates"
    chunk = 1

    def cases(self):
        for reps in (60, 999, 1000, 1001, 2400):
            for rows in ([(2, 3), (5, 1), (0, 9), (3, 4)], [(0, 0), (1, 1), (2, 3), (3, 2)], [(0, 0), (0, 1), (2, 1), (3, 2)]):
                yield {"reps": reps, "rows": rows}

    def check(self, case, t):
        from copulae.gof import gof_copula
        rows, reps = [tuple(r) for r in case["rows"]], case["reps"]
        cls = make("Clayton")
        draws = [[(0, 0), (1, 1), (2, 2), (3, 3)], [(2, 0), (1, 3), (0, 1), (3, 2)], [(0, 3), (1, 2), (2, 1), (3, 0)], [(0, 1), (1, 0), (2, 3), (3, 2)]]
        src = itertools.cycle(draws)
        _ctl.clear()
        _ctl.update(random=lambda c, n, seed: (np.array(next(src), float) + .5) / 4)
        r = gof_copula(cls, np.array(rows, float), reps)
        s, th = statistic(rows, "average", "average", 0)
        hit = [statistic(impose(w, rows) if tied(rows) else w, "average", "average", 0)[0] >= s for w in draws]
        want = sum(itertools.islice(itertools.cycle(hit), reps))
        t.close(r.pvalue, (want + .5) / (reps + 1), "p-value", 1e-12, ctx=repr(case))
        t.close(r.statistic, s, "statistic", 1e-12, 1e-15, ctx=repr(case))


class Real(Model):
    """Genuine copulas; the bootstrap samples are fixed, the fits are real."""
    name = "genuine fits"
    chunk = 1

    def cases(self):
        for c in ("Clayton", "Gumbel", "Frank", "Gaussian", "Independence"):
            for n, pobs in ((8, True), (15, True), (9, False)):
                for tie in (0, 1, 2):
                    for ties, fit_ties in (("average", "average"), ("max", "average"), ("average", "max"), ("dense", "min")) if tie else (("average", "average"),):
                        for method in ("ml", "itau") if c not in ("Independence",) else ("ml",):
                            yield {"cls": c, "n": n, "tie": tie, "ties": ties, "fit_ties": fit_ties, "method": method, "to_pobs": pobs}

    def check(self, case, t):
        import copulae
        from copulae.gof import gof_copula
        base = {"Clayton": copulae.ClaytonCopula, "Gumbel": copulae.GumbelCopula, "Frank": copulae.FrankCopula, "Gaussian": copulae.GaussianCopula,
                "Independence": copulae.IndepCopula}[case["cls"]]
        n = case["n"]
        rng = np.random.default_rng(n)
        z = rng.normal(size=(n, 2)) @ np.array([[1, .7], [0, .7]])
        if case["tie"]:
            z[:, 0] = np.round(z[:, 0] * case["tie"])
            z[:, 1] = np.round(z[:, 1] * 2)
        draws = []
        for k in range(5):
            w = rng.normal(size=(n, 2)) @ np.array([[1, .75], [0, .25 + k / 8]])
            draws.append((np.argsort(np.argsort(w, 0), 0) + .5) / n)
        src = iter(draws)

        class C(base):
            def random(self, k, seed=None):
                return next(src).copy()
        kw = {} if case["cls"] == "Independence" else {"method": case["method"]}
        more = {} if case["to_pobs"] else {"to_pobs": False}
        r = gof_copula(C, z, len(draws), ties=case["ties"], fit_ties=case["fit_ties"], **kw, **more)

        def T(rows):
            rows = [tuple(q) for q in rows]
            c = base(dim=2)
            c.fit(levels(rows, case["fit_ties"]), to_pobs=False, verbose=0, **kw)
            u = levels(rows, case["ties"])
            emp = np.array([np.mean([all(a <= b for a, b in zip(i, k)) for i in u]) for k in u])
            return float(((emp - c.cdf(u)) ** 2).sum()), c.params
        s, par = T(z)
        tz = tied([tuple(q) for q in z])
        reps = np.array([T(impose([tuple(q) for q in w], [tuple(q) for q in z]) if tz else w)[0] for w in draws])
        t.close(r.statistic, s, "statistic", 1e-5, 1e-7, ctx=repr(case))
        if par is None or np.ndim(par) == 0 and not isinstance(par, (int, float, np.floating)):
            t.expect(r.parameter is None or r.parameter == par, "parameter", repr(r.parameter))
        else:
            t.close(np.ravel(r.parameter), np.ravel(par), "parameter", 1e-4, 1e-5, ctx=repr(case))
        k = r.pvalue * (len(draws) + 1) - .5
        near = np.abs(reps - s) < 1e-4 * s
        t.expect((reps[~near] > s).sum() - 1e-6 <= k <= (reps[~near] > s).sum() + near.sum() + 1e-6 and abs(k - round(k)) < 1e-6, "p-value",
                 lambda: "%r: %g, T=%r statistic=%r" % (case, k, reps, s))


class SchedPool:
    """A process pool with a chosen assignment of tasks to (really forked) workers."""

    def __init__(self, workers, assign):
        self.assign, self.k = assign, 0
        self.workers = workers
        self.procs = {}

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()

    def _worker(self, w):
        if not self.procs:                     # all workers start when the first task arrives, as concurrent.futures' fork pool does
            import multiprocessing
            ctx = multiprocessing.get_context("fork")
            for i in range(self.workers):
                a, b = ctx.Pipe()
                pid = os.fork()
                if pid == 0:
                    import signal
                    signal.alarm(0)
                    try:
                        while True:
                            m = b.recv()
                            if m is None:
                                os._exit(0)
                            fn, args, kw = m
                            try:
                                b.send((True, fn(*args, **kw)))
                            except BaseException as e:  # noqa
                                b.send((False, e))
                    finally:
                        os._exit(1)
                b.close()
                self.procs[i] = (pid, a)
        return self.procs[w]

    def submit(self, fn, *a, **k):
        from concurrent.futures import Future
        w = self.assign[self.k % len(self.assign)]
        self.k += 1
        pid, c = self._worker(w)
        c.send((fn, a, k))
        f = Future()
        ok, v = c.recv()
        f.set_result(v) if ok else f.set_exception(v)
        return f

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*its)]
        return iter([f.result() for f in fs])

    def shutdown(self, wait=True, cancel_futures=False):
        for pid, c in self.procs.values():
            try:
                c.send(None)
            except OSError:
                pass
            os.waitpid(pid, 0)
            c.close()
        self.procs = {}


class Processes(Model):
    name = "assignments of replicates to processes"
    chunk = 2

    def cases(self):
        yield {"assign": None, "reps": 6, "data": 0}       # single process
        yield {"assign": None, "reps": 6, "data": 1}
        for reps in (1, 2, 3, 4):
            for assign in itertools.product(range(2 if reps > 3 else 3), repeat=reps):
                seen = []
                for a in assign:                  # canonical names
                    if a not in seen:
                        seen.append(a)
                if seen == sorted(seen) and seen[0] == 0:
                    for data in (0, 1):
                        yield {"assign": list(assign), "reps": reps, "data": data}
        for data in (0, 1):
            yield {"assign": "pool", "reps": 12, "data": data}

    def check(self, case, t):
        from copulae.gof import gof_copula
        cls = make("Clayton")
        n = 8
        rng = np.random.default_rng(3)
        rows = [tuple(q) for q in (np.round(rng.normal(size=(n, 2)) * 2) if case["data"] else rng.normal(size=(n, 2)))]
        tmp = tempfile.mkdtemp(prefix="mc16")
        try:
            _ctl.clear()
            _ctl["file"] = os.path.join(tmp, "log")

            def rnd(cop, k, seed):
                g = np.random if seed is None else np.random.RandomState(seed)
                u = g.uniform(size=(k, cop.dim))
                log("draw", u.tolist(), cop.th)
                return u
            _ctl["random"] = rnd
            np.random.seed(11)
            h = {}
            if isinstance(case["assign"], list):
                h["ProcessPoolExecutor"] = lambda orig, *a, **k: SchedPool(3, case["assign"])
            with env.handle(**h):
                r = gof_copula(cls, np.array(rows), case["reps"], multiprocess=case["assign"] is not None)
            recs = [json.loads(q) for q in open(_ctl["file"])]
        finally:
            _ctl.clear()
            shutil.rmtree(tmp)
        draws = [q[1] for q in recs if q[0] == "draw"]
        s, th = statistic(rows, "average", "average", 0)
        t.close(r.statistic, s, "statistic", 1e-12, 1e-15, ctx=repr(case))
        t.expect(r.parameter == th, "parameter", repr(r.parameter))
        t.expect(len(draws) == case["reps"], "one sample per replicate", lambda: "%r: %d samples" % (case, len(draws)))
        t.expect(len({json.dumps(q) for q in draws}) == len(draws), "replicates are independent",
                 lambda: "%r: %d different samples in %d replicates" % (case, len({json.dumps(q) for q in draws}), len(draws)))
        vals = [v for q in draws for w in q for v in w]
        t.expect(len(set(vals)) == len(vals), "replicates share no random numbers", repr(case))
        T = [statistic(impose(w, rows) if tied(rows) else [tuple(q) for q in w], "average", "average", 0)[0] for w in draws]
        k = r.pvalue * (case["reps"] + 1) - .5
        t.expect(abs(k - sum(x >= s for x in T)) < 1e-6, "p-value", lambda: "%r: %g, T=%r statistic=%r" % (case, k, T, s))
        fits = [q for q in recs if q[0] == "fit"]
        t.expect(len(fits) == case["reps"] + 1 and all(q[4] == 0 for q in fits), "a fresh copula fitted per replicate", repr(case))


def statistic_fast(X, ties):
    n = len(X)
    u = np.stack([sizes.ranks(c, ties) for c in X.T], 1) / (n + 1)
    th = theta_of(np.stack([sizes.ranks(c) for c in X.T], 1) / (n + 1), 0)
    emp = np.array([(u <= q).all(1).mean() for q in u])
    return float(((emp - cdf_of(u, th)) ** 2).sum()), th


class Sizes(Model):
    """Samples on both sides of every length that might be treated specially, in two or more dimensions."""
    name = "sizes"
    chunk = 1

    def cases(self):
        for n in sizes.upto(4097 if self.thorough else 2001, True)[::-1]:
            if n > 1:
                for d in (2, 3, 7) if n < 300 else (2,):
                    for sh in ("mixed", "pairs", "few levels"):
                        yield {"n": n, "d": d, "shape": sh}

    def check(self, case, t):
        from copulae.gof import gof_copula
        n, d, sh = case["n"], case["d"], case["shape"]
        X = np.column_stack([sizes.column(n, "up")] + [sizes.column(n, sh, k) for k in range(1, d)]) * 1.5 - 3
        ties = TIES[n % 4]
        cls = make("Gumbel" if d > 2 else "Clayton")
        W = [np.column_stack([(np.arange(n) * sizes.stride(n) * (j + 1) + j * 5 + k) % n if j else np.arange(n) for j in range(d)]) for k in range(3)]
        W = [(w + np.linspace(0, .4, n)[:, None]) / n for w in W]       # no ties in the draws
        src = iter(W)
        _ctl.clear()
        _ctl.update(random=lambda c, k, seed: next(src).copy())
        r = gof_copula(cls, X, 3, ties=ties)
        s, th = statistic_fast(X, ties)
        t.close(r.statistic, s, "statistic", 1e-10, 1e-12, ctx=repr(case))
        t.expect(r.parameter == th, "parameter", lambda: "%r: %r instead of %r" % (case, r.parameter, th))
        T = []
        has = any(len(np.unique(c)) < n for c in X.T)
        for w in W:
            if has:
                w = np.stack([np.sort(X[:, j])[np.argsort(np.argsort(w[:, j], kind="stable"), kind="stable")] for j in range(d)], 1)
            T.append(statistic_fast(w, ties)[0])
        lo, hi = sum(x > s + 1e-9 for x in T), sum(x > s - 1e-9 for x in T)
        k = r.pvalue * 4 - .5
        t.expect(lo - 1e-6 <= k <= hi + 1e-6 and abs(k - round(k)) < 1e-6, "p-value", lambda: "%r: %g, T=%r statistic %r" % (case, k, T, s))


MODELS = [Sizes, Sequential, Options, Many, Real, Processes]
RULE = ("states: data sets (weak orders of up to 4 rows in 2-3 columns) x tie rules, option sets, assignments of replicates to worker processes; transitions: "
        "bootstrap runs over every enumerated sample and the comparisons of statistic, parameter, p-value and logged calls with the defining scheme")
ASSUMPTIONS = ["the copula class given to the test is a real class with controlled fit, cdf and random (the 'genuine fits' model keeps real fits)",
               "workers are forked: they start from a copy of the parent's state"]
