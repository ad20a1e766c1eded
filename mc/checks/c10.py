"""Column labels steer evaluation: every history of fits, refits and edits, probed with every ordering of the labels."""
import itertools

import numpy as np
import pandas as pd

from ..core import Model
from .c09 import A, B, C, G, GP, GP2, c_vec

# (kind, dim)
KINDS = [("gaussian", 2), ("gaussian", 3), ("student", 2), ("clayton", 2), ("frank", 2), ("gumbel", 2), ("clayton", 3),
         ("marginal", 2), ("marginal", 3), ("gmc", 2), ("indep", 2), ("indep fields", 3), ("empirical array", 2), ("empirical frame", 3)]

# label sets: positions clash on purpose (integers that are also positions, orders that are not alphabetical)
LABELS = [["b", "a", "c"], ["a", "b", "c"], [2, 0, 1], [1, 2, 0], ["x y", 7, "a"], [("p", 1), ("p", 0), ("q", 0)], [0.5, -1.0, 2.25],
          [True, "False", 3]]
EMP = C.copy()


def make(kind, d):
    """The copula, its initial labels, and whether fits can change it."""
    import copulae as c
    from copulae.empirical import EmpiricalCopula
    if kind == "gaussian":
        o = c.GaussianCopula(d)
    elif kind == "student":
        o = c.StudentCopula(d)
    elif kind == "clayton":
        o = c.ClaytonCopula(2.0, d)
    elif kind == "frank":
        o = c.FrankCopula(2.0, d)
    elif kind == "gumbel":
        o = c.GumbelCopula(2.0, d)
    elif kind == "marginal":
        o = c.MarginalCopula(c.GaussianCopula(d), ["norm", "expon", "uniform"][:d])
    elif kind == "gmc":
        o = c.GaussianMixtureCopula(2, d, GP)
    elif kind == "indep":
        o = c.IndepCopula(d)
    elif kind == "indep fields":
        return c.IndepCopula(d, ["u", "k", "w"][:d]), ["u", "k", "w"][:d]
    elif kind == "empirical array":
        return EmpiricalCopula(EMP[:, :d], smoothing="beta"), None
    elif kind == "empirical frame":
        return EmpiricalCopula(pd.DataFrame(EMP[:, :d], columns=[2, "k", 0][:d]), smoothing="beta"), [2, "k", 0][:d]
    return o, None


def fits(kind):
    return not kind.startswith(("indep", "empirical"))


def events(kind, thorough):
    e = [("frame", i) for i in range(len(LABELS) if thorough else 5)] + [("array",), ("list",), ("bad", 0), ("edit",)]
    if kind == "marginal":
        e.append(("inner", 2))
        e.append(("inner array",))
    if not fits(kind):
        e = [("array",), ("frame", 0)]
    return e


def data_of(kind, d, which):
    x = (G if kind == "gmc" else (A, B, C)[which % 3])[:, :d]
    return np.roll(x, which, axis=0) if kind == "gmc" else x.copy()


def step(o, inner, kind, d, ev, labels):
    """Applies an event, returns the labels that count afterwards."""
    kw = {"verbose": 0}
    if kind == "gmc":
        kw.update(x0=c_vec(GP), max_iter=2)
    elif kind == "student":
        kw.update(method="itau")
    elif ev[0] == "frame" and ev[1] % 2:
        kw.update(method="itau")
    if ev[0] == "frame":
        o.fit(pd.DataFrame(data_of(kind, d, ev[1]), columns=cols(LABELS[ev[1]][:d]), index=range(5, 5 + len(data_of(kind, d, ev[1])))), **kw)
        return LABELS[ev[1]][:d] if fits(kind) else labels
    if ev[0] == "array":
        o.fit(data_of(kind, d, 1), **kw)
        return None if fits(kind) else labels
    if ev[0] == "list":
        o.fit(data_of(kind, d, 2).tolist(), **kw)
        return None
    if ev[0] == "bad":
        x = pd.DataFrame(np.column_stack([data_of(kind, d, 0)] * 2)[:, :d + 1], columns=list("efgh")[:d + 1])
        try:
            o.fit(x, **kw)
        except Exception:   # noqa
            return labels
        raise AssertionError("a frame with one column too many was fitted")
    if ev[0] == "edit":
        if kind == "gmc":
            o.params = GP2
        elif kind == "marginal":
            inner.params = .3
        elif kind in ("gaussian", "student"):
            o[0] = .35
        else:
            o.params = 2.5
        return labels
    if ev[0] == "inner":
        inner.fit(pd.DataFrame(C[:, :d], columns=list("rst")[:d]), method="itau", verbose=0)
        return labels
    if ev[0] == "inner array":
        inner.fit(C[:, :d], method="itau", verbose=0)
        return labels
    raise KeyError(ev)


def cols(labels):
    if all(isinstance(l, tuple) for l in labels):
        return pd.MultiIndex.from_tuples(labels)
    return pd.Index(labels, dtype=object) if len({type(l) for l in labels}) > 1 else labels


POINTS = np.array([[.2, .65, .4], [.8, .3, .55], [.5, .9, .15]])


class Labels(Model):
    name = "label histories"
    chunk = 2

    def cases(self):
        depth = 3 if self.thorough else 2
        for kind, d in KINDS:
            ev = events(kind, self.thorough)
            for n in range(0, depth + 1):
                if n == 3 and d == 3 and kind != "marginal":
                    continue
                for seq in itertools.product(ev, repeat=n):
                    yield {"kind": kind, "d": d, "events": [list(e) for e in seq]}
            if not self.thorough and fits(kind):
                # a third step that matters: labelled fit, unlabelled fit, then anything (and the other way round)
                for a, b in ((["frame", 0], ["array"]), (["array"], ["frame", 2]), (["frame", 0], ["bad", 0])):
                    for e in ev:
                        yield {"kind": kind, "d": d, "events": [a, b, list(e)]}

    def check(self, case, t):
        kind, d = case["kind"], case["d"]
        o, labels = make(kind, d)
        inner = None
        if kind == "marginal":
            import copulae as c
            inner = c.GaussianCopula(d)
            o = c.MarginalCopula(inner, ["norm", "expon", "uniform"][:d])
        for ev in case["events"]:
            labels = step(o, inner, kind, d, ev, labels)
        self.probe(o, kind, d, labels, t, case)

    def probe(self, o, kind, d, labels, t, case):
        x = POINTS[:, :d].copy()
        fns = [("pdf", o.pdf, 1e-9)]
        if kind != "student":
            # beyond two variables SciPy integrates the normal cdf with hidden random state
            fns.append(("cdf", o.cdf, 3e-3 if d == 3 and kind in ("gaussian", "marginal") else 1e-9))
        for name, f, tol in fns:
            want = np.asarray(f(x), float)
            one = [float(f(r)) for r in x]
            t.close(one, want, name + " of single rows", tol, tol, ctx="labels %r" % (labels,))
            names = labels if labels is not None else ["m", "l", "n"][:d]
            for perm in itertools.permutations(range(d)):
                p = list(perm)
                df = pd.DataFrame(x[:, p], columns=cols([names[i] for i in p]), index=[9, 4, 6])
                if labels is not None:
                    t.close(np.asarray(f(df), float), want, name + " of a frame", tol, tol, ctx="labels %r, frame columns %r" % (labels, list(df.columns)))
                    s = pd.Series(x[1, p], index=cols([names[i] for i in p]))
                    t.close(f(s), want[1], name + " of a series", tol, tol, ctx="labels %r, index %r" % (labels, list(s.index)))
                    t.close(f(df.iloc[:1]), want[0], name + " of a one-row frame", tol, tol, ctx="labels %r, frame columns %r" % (labels, list(df.columns)))
                else:
                    t.close(np.asarray(f(df), float), np.asarray(f(x[:, p]), float), name + " of a frame without fitted labels", tol, tol,
                            ctx="frame columns %r" % (list(df.columns),))
                    s = pd.Series(x[1, p], index=df.columns)
                    t.close(f(s), f(x[1, p]), name + " of a series without fitted labels", tol, tol)
                # plain arrays stay positional
                t.close(np.asarray(f(x[:, p].tolist()), float), np.asarray(f(x[:, p]), float), name + " of a list", tol, tol)
        if labels is not None:
            # a frame that lacks a label has no value: neither by position nor by the labels it has
            for i in range(d):
                for new in ("unknown", None):
                    k = [("u", 5) if isinstance(l, tuple) else new or "unknown" if j == i else l for j, l in enumerate(labels)]
                    k = [labels[j] if j != i else k[j] for j in range(d)]
                    bad = pd.DataFrame(x, columns=cols(k))
                    if new is None:
                        bad = bad.drop(columns=[k[i]])
                    for name, f, _ in fns:
                        t.raises(Exception, lambda: f(bad), name + " of a frame that lacks a label", "labels %r, frame columns %r" % (labels, list(bad.columns)))
        for n in (1, 2, 4):
            r = o.random(n, 5) if not kind.startswith("empirical") else o.random(n, 5)
            if labels is None:
                t.expect(isinstance(r, np.ndarray) and r.shape == (n, d), "unlabelled draws", lambda: "%s %r" % (type(r), np.shape(r)))
            else:
                t.expect(isinstance(r, pd.DataFrame) and r.shape == (n, d) and list(r.columns) == list(labels), "labelled draws",
                         lambda: "%d draws, labels %r: %s %r %r" % (n, labels, type(r), np.shape(r), list(getattr(r, "columns", []))))


class OneFit(Model):
    """The labels only steer: fitting a frame equals fitting its values."""
    name = "fit of a frame equals fit of its values"

    def cases(self):
        for kind, d in KINDS:
            if fits(kind):
                for i in range(len(LABELS)):
                    for m in (["pem", "sgd", "kmeans"] if kind == "gmc" else ["itau", "ml"]):
                        yield {"kind": kind, "d": d, "labels": i, "method": m}

    def check(self, case, t):
        kind, d, i, m = case["kind"], case["d"], case["labels"], case["method"]
        kw = {"verbose": 0, "method": m}
        if kind == "gmc":
            kw.update(max_iter=2)
            if m != "kmeans":
                kw["x0"] = c_vec(GP)
        x = data_of(kind, d, i)
        out = []
        for frame in (False, True):
            o, _ = make(kind, d)
            np.random.seed(3)
            o.fit(pd.DataFrame(x, columns=cols(LABELS[i][:d])) if frame else x, **kw)
            out.append(np.asarray(o.pdf(POINTS[:, :d])))
        t.close(out[1], out[0], "same fit", 1e-12, 0, ctx="labels %r" % (LABELS[i][:d],))


MODELS = [Labels, OneFit]
RULE = ("states: (class, dimension, sequence of labelled, relabelled, unlabelled, list, rejected and inner fits and parameter edits); "
        "transitions: evaluations of frames, one-row frames, series, lists and arrays under every permutation of the labels, and draws")
ASSUMPTIONS = ["series whose index is not the fitted labels are outside the statement",
               "copulas that need no fitting (independence, empirical) keep the labels they were built with"]
