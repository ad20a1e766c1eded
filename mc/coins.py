"""Stateless exploration of every outcome of the random choices a call makes.

While an execution runs, libc's rand()/random()/drand48() (through an LD_PRELOADed stand-in) and NumPy's global generator
(through the seams of env.py) take their values from one script.  explore(f) runs f once for every distinguishable
script: depth-first over the choice points the executions themselves reveal, so neither their number nor their order is
assumed.  Uniform variates are represented by their two extremes and the two neighbours of one half, equally weighted:
a fair coin built from them in either direction is fair over these four."""
import ctypes
import fcntl
import hashlib
import os
import subprocess
import sys

import numpy as np

from . import boot, env

SRC = os.path.join(os.path.dirname(__file__), "rand.c")
_lib = None


def library():
    code = open(SRC, "rb").read()
    d = os.path.join(boot.VERIF, "build")
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, "rand-%s.so" % hashlib.sha256(code).hexdigest()[:12])
    if not os.path.exists(so):
        with open(os.path.join(d, "lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(so):
                tmp = so + ".%d" % os.getpid()
                subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, SRC, "-ldl"], check=True)
                os.rename(tmp, so)
    return so


def preload():
    """Restart this process with the stand-in in place."""
    so = library()
    if so in os.environ.get("LD_PRELOAD", ""):
        return
    e = dict(os.environ)
    e["LD_PRELOAD"] = (so + " " + e.get("LD_PRELOAD", "")).strip()
    os.execve(sys.executable, [sys.executable, "-W", "ignore", "-m", "mc.run"] + sys.argv[1:], e)


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(library())
        _lib.mc_next.argtypes = [ctypes.c_int, ctypes.c_int]
        _lib.mc_used.restype = ctypes.c_long
        p = ctypes.POINTER(ctypes.c_int)
        _lib.mc_script.argtypes = [p, p, p, ctypes.c_long]
    return _lib


class Uncontrolled(Exception):
    pass


CAP = 4096


class Script:
    def __init__(self):
        self.levels = (ctypes.c_int * CAP)()
        self.widths = (ctypes.c_int * CAP)()
        self.kinds = (ctypes.c_int * CAP)()


def _np_handlers(width):
    L = lib()
    u = [0.0, 0.5 - 2 ** -53, 0.5 + 2 ** -52, 1 - 2 ** -53] if width == 4 else [0.5 - 2 ** -53, 0.5 + 2 ** -52]

    def fill(size, one):
        if size is None:
            return one()
        n = int(np.prod(size))
        return np.array([one() for _ in range(n)]).reshape(size)

    def unit():
        return u[L.mc_next(width, 1)]

    def random(orig, size=None):
        return fill(size, unit)

    def rand(orig, *shape):
        return fill(shape or None, unit)

    def uniform(orig, low=0.0, high=1.0, size=None):
        return low + (high - low) * fill(size, unit)

    def randint(orig, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return fill(size, lambda: int(low) + L.mc_next(int(high - low), 2))

    def choice(orig, a, size=None, replace=True, p=None):
        items = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        if p is not None:
            if len(set(np.round(p, 12))) > 1:
                cum = np.cumsum(p)
                return fill(size, lambda: items[np.searchsorted(cum, unit(), side="right").clip(0, len(items) - 1)])
        if not replace:
            raise Uncontrolled("choice without replacement")
        return fill(size, lambda: items[L.mc_next(len(items), 2)])

    def binomial(orig, n, p, size=None):
        return fill(size, lambda: sum(unit() < p for _ in range(int(n))))
    return {"np_random_random": random, "np_random_random_sample": random, "np_random_rand": rand, "np_random_uniform": uniform,
            "np_random_randint": randint, "np_random_choice": choice, "np_random_binomial": binomial}


def explore(f, width=4, limit=200000):
    """Yields (weight, result, choices) for every execution of f; weights sum to one."""
    L = lib()
    if "rand-" not in os.environ.get("LD_PRELOAD", ""):
        raise Uncontrolled("the libc stand-in is not loaded")
    L.mc_coin_width(width)
    s = Script()
    prefix = []
    runs = 0
    with env.handle(**_np_handlers(width)):
        while True:
            ctypes.memset(s.levels, 0, ctypes.sizeof(s.levels))
            for i, v in enumerate(prefix):
                s.levels[i] = v
            L.mc_script(s.levels, s.widths, s.kinds, CAP)
            try:
                r = f()
            finally:
                used = L.mc_used()
                L.mc_off()
            if used > CAP:
                raise Uncontrolled("%d choices" % used)
            w = list(s.widths[:used])
            lv = list(prefix) + [0] * (used - len(prefix))
            weight = 1.0
            for k in w:
                weight /= k
            yield weight, r, lv
            runs += 1
            if runs >= limit:
                raise Uncontrolled("more than %d executions" % limit)
            while lv and lv[-1] + 1 >= w[len(lv) - 1]:
                lv.pop()
            if not lv:
                return
            lv[-1] += 1
            prefix = lv


def constant(f, width=4):
    """The results of f with every choice at the same level, for each level; None where f asks for no choice."""
    L = lib()
    s = Script()
    out = []
    L.mc_coin_width(width)
    with env.handle(**_np_handlers(width)):
        for level in range(width):
            L.mc_script(s.levels, s.widths, s.kinds, CAP)
            L.mc_fixed(level)
            try:
                r = f()
            finally:
                used = L.mc_used()
                L.mc_fixed(-1)
                L.mc_off()
            out.append(r if used else None)
    return out
