"""Recursive merges over all small nested dictionaries and argument tuples; bundled data sets over all load/mutate histories."""
import copy
import csv
import itertools
import os
import pathlib
import tempfile

import numpy as np
import pandas as pd

from .. import boot
from ..core import Model


def enc(d):
    return {k: enc(v) for k, v in d.items()} if isinstance(d, dict) else d


def trees(keys, leaves, depth):
    """every dictionary over keys with leaves or, down to the depth, dictionaries as values"""
    sub = list(leaves) + (trees(keys, leaves, depth - 1) if depth else [])
    out = []
    for vals in itertools.product([None] + [(v,) for v in sub], repeat=len(keys)):
        out.append({k: v[0] for k, v in zip(keys, vals) if v is not None})
    return out


def paths(d, at=()):
    """{path: leaf} with empty dictionaries as leaves of their own"""
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out[at + (k,)] = "{}"
            out.update(paths(v, at + (k,)))
        else:
            out[at + (k,)] = ("leaf", v)
    return out


def want(*ds):
    """The last dictionary that says anything about a path wins; a leaf erases what was below it."""
    out = {}
    for d in ds:
        for p, v in paths(d).items():       # parents come before children
            if v != "{}":
                for q in [q for q in out if q[:len(p)] == p]:
                    del out[q]
            elif out.get(p, "{}") != "{}":
                del out[p]
            out[p] = v
    return out


def dicts_in(d, acc):
    acc.append(id(d))
    for v in d.values():
        if isinstance(v, dict):
            dicts_in(v, acc)
    return acc


def check_merge(t, fn, args, ctx):
    before = copy.deepcopy(args)
    ids = [dicts_in(a, []) for a in args]
    r = fn(*args)
    if not t.expect(type(r) is dict, "result", lambda: "%s: %r" % (ctx, r)):
        return
    t.expect(paths(r) == want(*before), "precedence", lambda: "%s: %r" % (ctx, r))
    t.expect(list(args) == list(before), "arguments unchanged", lambda: "%s: now %r" % (ctx, args))
    t.expect([dicts_in(a, []) for a in args] == ids, "arguments unchanged", lambda: "%s: inner dictionary replaced" % ctx)
    mine = set(dicts_in(r, []))
    t.expect(not mine & set(i for l in ids for i in l), "result shares no dictionary", ctx)
    stack = [r]
    while stack:        # writing into the result never reaches the arguments
        d = stack.pop()
        stack.extend(v for v in d.values() if isinstance(v, dict))
        d["written"] = 1
    t.expect(list(args) == list(before), "arguments unchanged", lambda: "%s: writing into the result reached %r" % (ctx, args))


class Pairs(Model):
    name = "merge of every pair of dictionaries"
    chunk = 4

    def cases(self):
        for i in range(len(self.space())):
            yield i

    def space(self):
        # two keys; depth 2 in the first position is complete for one key, depth 1 for two
        out = trees("ab", [1, None], 1) + [d for d in trees("a", [1, False, "x"], 3)] + [{"a": 0}, {"b": {}}, {"a": {"a": {"a": {"a": {"b": 2}}}}},
                                                                                     {"c": [1]}, {"a": {"b": [1]}, 1: {2: 3}}, {(1, 2): {"a": 5}}]
        if self.thorough:
            out += trees("abc", [1, 2], 1)[::7] + trees("ab", [1], 2)[::3]
        u = []
        for d in out:
            if d not in u:
                u.append(d)
        return u

    def check(self, case, t):
        from copulae.utility.dict import merge_dict
        sp = self.space()
        for b in sp:
            a, b = copy.deepcopy(sp[case]), copy.deepcopy(b)
            for d, s in ((b, 10),):     # tell the two sides apart
                relabel(d, s)
            check_merge(t, merge_dict, (a, b), "%r + %r" % (a, b))
        a = copy.deepcopy(sp[case])
        check_merge(t, lambda x: merge_dict(x, x), (a,), "self %r" % a)


def relabel(d, s):
    for k, v in d.items():
        if isinstance(v, dict):
            relabel(v, s)
        elif v is not None:
            d[k] = (s, v) if not isinstance(v, list) else v + [s]


class Many(Model):
    name = "merge of up to four dictionaries"
    chunk = 2

    def cases(self):
        for i in range(len(self.space())):
            yield i

    def space(self):
        s = trees("ab", [1], 1)[:] if self.thorough else trees("ab", [1], 1)
        return s + [{"a": {"a": {"b": 1}}}, {"a": {"a": {"a": 1}}}, {"a": None}, {"b": {"a": None}}]

    def check(self, case, t):
        from copulae.utility.dict import merge_dicts
        sp = self.space()
        for n in (1, 2, 3):
            for rest in itertools.product(sp, repeat=n - 1):
                args = [copy.deepcopy(d) for d in (sp[case],) + rest]
                for k, d in enumerate(args):
                    relabel(d, k)
                check_merge(t, merge_dicts, tuple(args), "merge_dicts%r" % (tuple(args),))
        for rest in itertools.product(sp[:: 1 if self.thorough else 5], repeat=3):
            args = [copy.deepcopy(d) for d in (sp[case],) + rest]
            for k, d in enumerate(args):
                relabel(d, k)
            check_merge(t, merge_dicts, tuple(args), "merge_dicts%r" % (tuple(args),))
        # the same object several times
        a, b = copy.deepcopy(sp[case]), {"a": {"z": 1}}
        check_merge(t, lambda x, y: merge_dicts(x, y, x, y), (a, b), "repeated %r" % a)


# ---------------------------------------------------------------- data sets
FILES = {"danube": "danube.csv", "marginal_data": "marginal-data.csv", "residuals": "residuals.csv", "smi": "smi.csv"}
LOADS = ["danube", "marginal_data", "residuals", "smi", "smi returns"]


def load(name):
    from copulae import datasets
    if name == "smi returns":
        return datasets.load_smi(as_returns=True)
    return getattr(datasets, "load_" + name)()


_ref = {}


def reference(name):
    """(columns, index, values) read with the csv module"""
    if name in _ref:
        return _ref[name]
    path = pathlib.Path(boot.REPO) / "copulae" / "datasets" / "data" / FILES[name.split()[0]]
    with open(path) as f:
        rows = [[x.strip() for x in r] for r in csv.reader(f, skipinitialspace=True) if r]
    head, body = rows[0], rows[1:]
    if name.startswith("smi"):
        k = head.index("DATE")
        index = [pd.Timestamp(r[k]) for r in body]
        cols = head[:k] + head[k + 1:]
        v = np.array([[float(x) for j, x in enumerate(r) if j != k] for r in body])
        if name == "smi returns":
            v, index = v[1:] / v[:-1] - 1, index[1:]
    else:
        cols, index, v = head, list(range(len(body))), np.array([[float(x) for x in r] for r in body])
    _ref[name] = (cols, index, v)
    return _ref[name]


def _cols(df):
    df.columns = ["c%d" % i for i in range(df.shape[1])]


def _attrs(df):
    df.attrs["note"] = 1
    df.index.name = "changed"
    df.columns.name = "changed"


def _values(df):
    df.to_numpy()[:] = -1.0
    df.iloc[0, 0] = 99


def _fill(df):
    df.iloc[:, :] = 7


MUT = {"nothing": lambda df: None, "overwrite": _fill, "write values": _values, "add column": lambda df: df.insert(0, "new", 1), "drop rows": lambda df: df.drop(df.index[3:], inplace=True),
       "rename": _cols, "sort": lambda df: df.sort_values(df.columns[-1], inplace=True), "index": lambda df: df.reset_index(inplace=True), "attributes": _attrs,
       "drop column": lambda df: df.drop(columns=df.columns[0], inplace=True), "scale": lambda df: df.__imul__(2.0)}


def verify(t, name, df, ctx):
    cols, index, v = reference(name)
    t.expect(isinstance(df, pd.DataFrame), "frame", lambda: "%s: %s" % (ctx, type(df)))
    t.expect(list(df.columns) == cols and list(df.index) == index and not df.attrs, "labels", lambda: "%s: %r" % (ctx, list(df.columns)[:5]))
    t.close(df.to_numpy(dtype=float), v, "content", 1e-12, 1e-15, ctx)
    t.expect(all(np.issubdtype(x, np.number) for x in df.dtypes), "numeric columns", lambda: "%s: %s" % (ctx, df.dtypes.tolist()))
    t.expect(df.index.name == ("DATE" if name.startswith("smi") else None) and df.columns.name is None, "labels", lambda: "%s: %r %r" % (ctx, df.index.name, df.columns.name))


class Data(Model):
    name = "load and mutate histories"
    chunk = 1

    def cases(self):
        for a in LOADS:
            for m in MUT:
                yield {"load": a, "then": m}
        yield {"load": "danube", "then": "change directory"}

    def check(self, case, t):
        a, m = case["load"], case["then"]
        if m == "change directory":
            here = os.getcwd()
            with tempfile.TemporaryDirectory() as d:
                try:
                    os.chdir(d)
                    for name in LOADS:
                        verify(t, name, load(name), "%s from another directory" % name)
                finally:
                    os.chdir(here)
            return
        df = load(a)
        verify(t, a, df, a)
        MUT[m](df)
        kept = df.copy(deep=True)
        verify(t, a, load(a), "%s after %s" % (a, m))
        seconds = LOADS if self.thorough else [x for x in LOADS if x.split()[0] == a.split()[0]] + [LOADS[(LOADS.index(a) + 1) % 5]]
        for b in dict.fromkeys(seconds):
            for n in MUT:
                ctx = "%s, %s, %s, %s, " % (a, m, b, n)
                x = load(b)
                verify(t, b, x, ctx + "second load")
                MUT[n](x)
                for c in dict.fromkeys((b, a)) if not self.thorough else LOADS:
                    verify(t, c, load(c), ctx + c)
                t.expect(df.equals(kept), "frames are independent", ctx)
        from copulae import datasets
        t.expect(datasets.load_smi(False).equals(load("smi")), "as_returns", "False")
        t.expect(datasets.load_smi(True).equals(load("smi returns")), "as_returns", "True")


MODELS = [Pairs, Many, Data]
RULE = ("all nested dictionaries over two keys to depth 1 and one key to depth 3, in all pairs; all tuples of up to three (a fixed sub-lattice of four) small dictionaries; "
        "all load-mutate-load-mutate-load histories of the bundled data sets over ten mutations, content against the csv module")
ASSUMPTIONS = ["merge_dicts is called with at least one dictionary"]
