"""A small bounded-exhaustive model checker for a Python library.

A *model* (class Model) describes one finite space: cases() yields every point of it (a JSON-able description of an
input, a configuration, or an operation history - simplest first), and check(case, t) drives the real code through
that point and compares every observation with a reference.  The runner enumerates all cases of all models of a
property over a pool of worker processes, counts states and transitions as it goes, and turns the first failures into
replayable artefacts.

A case is decided only by executing it, so "states" are the distinct points/histories visited, "transitions" the
individual comparisons or operations executed in them, "traces_validated_against_impl" the cases whose whole trace
was executed on the real implementation and compared with the reference.
"""
import hashlib
import importlib
import itertools
import json
import math
import os
import signal
import sys
import time
import traceback
import zlib
from concurrent.futures import wait, FIRST_COMPLETED
from concurrent.futures.process import BrokenProcessPool

from . import boot

STALL = int(os.environ.get("MC_STALL", "400"))
CASE_TIMEOUT = int(os.environ.get("MC_CASE_TIMEOUT", "180"))
EVIDENCE = os.environ.get("MC_EVIDENCE", os.path.join(boot.VERIF, "evidence"))


class Fail(Exception):
    """An observation contradicts the reference."""


class Tally:
    """Collects what happened in one case."""
    __slots__ = ("transitions", "fails", "outcome")

    def __init__(self):
        self.transitions = 0
        self.fails = []
        self.outcome = None

    def step(self, n=1):
        self.transitions += int(n)

    def fail(self, aspect, msg):
        self.fails.append((aspect, msg))

    def expect(self, ok, aspect, msg=""):
        self.transitions += 1
        if not ok:
            self.fails.append((aspect, msg() if callable(msg) else msg))
        return bool(ok)

    def close(self, got, want, aspect, rtol=1e-7, atol=1e-9, ctx=""):
        """Same shape and elementwise close (NaN equals NaN, infinities equal themselves)."""
        self.transitions += 1
        ok, why = same(got, want, rtol, atol)
        if not ok:
            self.fails.append((aspect, "%s: %s" % (ctx, why) if ctx else why))
        return ok

    def raises(self, exc, fn, aspect, ctx=""):
        self.transitions += 1
        try:
            r = fn()
        except exc:
            return True
        except Exception as e:  # noqa
            self.fails.append((aspect, "%s: expected %s, got %s: %s" % (ctx, _names(exc), type(e).__name__, e)))
            return False
        self.fails.append((aspect, "%s: expected %s, got result %s" % (ctx, _names(exc), short(r))))
        return False


def _names(e):
    return "/".join(x.__name__ for x in e) if isinstance(e, tuple) else e.__name__


def short(x, n=200):
    s = repr(x).replace("\n", " ")
    return s if len(s) <= n else s[:n] + "..."


def same(got, want, rtol=1e-7, atol=1e-9):
    import numpy as np
    try:
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
    except Exception as e:
        return False, "not numeric: got %s, want %s (%s)" % (short(got), short(want), e)
    if g.shape != w.shape:
        return False, "shape %s instead of %s (got %s, want %s)" % (g.shape, w.shape, short(got), short(want))
    eq = (g == w) | (np.isnan(g) & np.isnan(w))
    fin = np.isfinite(g) & np.isfinite(w)
    with np.errstate(all="ignore"):
        eq |= fin & (np.abs(g - w) <= atol + rtol * np.abs(w))
    if eq.all():
        return True, ""
    i = np.argwhere(~np.atleast_1d(eq))[0]
    gi, wi = np.atleast_1d(g)[tuple(i)], np.atleast_1d(w)[tuple(i)]
    return False, "got %r, want %r at index %s" % (float(gi), float(wi), tuple(int(k) for k in i))


def isolated(fn):
    """fn() evaluated in a forked child: the reference for 'whatever happened before in this process'."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            signal.alarm(0)
            out = (True, fn())
        except BaseException as e:  # noqa
            out = (False, "%s: %s" % (type(e).__name__, e))
        try:
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Fail("isolated evaluation died")
    ok, v = pickle.loads(data)
    if not ok:
        raise Fail("isolated evaluation failed: " + v)
    return v


class Model:
    name = "model"
    tiers = ("quick", "thorough")
    chunk = 0          # cases per task; 0 = automatic

    def __init__(self, tier):
        self.tier = tier
        self.thorough = tier == "thorough"

    def cases(self):
        raise NotImplementedError

    def check(self, case, t):
        raise NotImplementedError


# ------------------------------------------------------------------ worker side
_worker_models = {}


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


def _models(module, tier):
    key = (module, tier)
    if key not in _worker_models:
        m = importlib.import_module("mc.checks." + module)
        _worker_models[key] = {x.name: x for x in (cls(tier) for cls in m.MODELS)}
    return _worker_models[key]


def run_case(model, case):
    import warnings
    import numpy as np
    t = Tally()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    np.random.seed(zlib.crc32(repr(case).encode()))  # a case never depends on the cases its worker ran before
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            model.check(case, t)
    except CaseTimeout:
        t.fail("timeout", "no result within %d s" % CASE_TIMEOUT)
    except Fail as e:
        t.fail("fail", str(e))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith(boot.REPO)] or list(tb)
        last = where[-1]
        t.fail("exception:" + type(e).__name__,
               "%s: %s (at %s:%d)" % (type(e).__name__, str(e)[:300], os.path.relpath(last.filename, boot.REPO)
                                      if last.filename.startswith(boot.REPO) else last.filename, last.lineno))
    finally:
        signal.alarm(0)
    return t


def run_chunk(module, tier, name, cases):
    model = _models(module, tier)[name]
    out = []
    trans = 0
    outcomes = set()
    valid = 0
    for c in cases:
        with _quiet():
            t = run_case(model, c)
        trans += t.transitions
        if t.outcome is not None:
            outcomes.add(str(t.outcome))
        valid += bool(t.transitions and not t.fails)
        for aspect, msg in t.fails:
            out.append((name, c, aspect, msg))
            if len(out) > 50:
                break
    return len(cases), trans, out, outcomes, valid


class _quiet:
    """The package prints (fit, verbosity); keep the checks' own output readable."""

    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = open(os.devnull, "w")

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout, sys.stderr = self.o, self.e


def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


# ------------------------------------------------------------------ runner
def failure_key(name, case, aspect):
    return "%s|%s|%s" % (name, json.dumps(case, sort_keys=True), aspect)


def load_known(prop):
    p = os.path.join(boot.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {f["key"]: f for f in d.get("findings", []) if f["property"] == prop}


def run_property(prop, tier, jobs=None, budget=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    boot.build()
    boot.load()
    modname = prop.lower()
    mod = importlib.import_module("mc.checks." + modname)
    models = _models(modname, tier)
    jobs = jobs or int(os.environ.get("MC_JOBS", str(os.cpu_count() or 1)))
    known = load_known(prop)
    per_model, samples, fails, crash = {}, [], [], []
    digest = hashlib.sha256()
    import multiprocessing
    orig_pool = None
    import concurrent.futures.process as cfp
    # our own pool must be the genuine one, not the dispatcher seen by the code under test
    from . import env
    pool_cls = cfp.ProcessPoolExecutor.__mro__[1]
    ctx = multiprocessing.get_context("fork")

    tasks = []
    for m in models.values():
        cs = list(m.cases())
        seen = set()
        uniq = []
        for c in cs:
            k = json.dumps(c, sort_keys=True)
            if k not in seen:
                seen.add(k)
                uniq.append(c)
        for k in sorted(seen):
            digest.update(k.encode())
        per_model[m.name] = {"states": len(uniq), "transitions": 0, "outcomes": set(), "done": 0, "valid": 0}
        if uniq:
            samples.append({"model": m.name, "case": uniq[len(uniq) // 2]})
        n = m.chunk or max(1, min(64, len(uniq) // (jobs * 8) or 1))
        for i in range(0, len(uniq), n):
            tasks.append((m.name, uniq[i:i + n]))
    # longest-first is unknown; interleave models so that the pool stays busy
    pending_tasks = list(reversed(tasks))
    attempts = {}
    while pending_tasks:
        pool = pool_cls(max_workers=jobs, mp_context=ctx, initializer=_init_worker)
        futs = {}
        broken = False
        try:
            while (pending_tasks or futs) and not broken:
                while pending_tasks and len(futs) < jobs * 2:
                    tk = pending_tasks.pop()
                    futs[pool.submit(run_chunk, modname, tier, tk[0], tk[1])] = tk
                done, _ = wait(list(futs), return_when=FIRST_COMPLETED, timeout=STALL)
                if not done:       # compiled code that never returns cannot be interrupted from inside
                    for pr in list(pool._processes.values()):
                        pr.kill()
                    for tk in futs.values():
                        fails.append((tk[0], tk[1][0], "timeout", "no result within %d s" % STALL))
                    futs.clear()
                    pending_tasks.clear()
                    broken = True
                    break
                for f in done:
                    tk = futs.pop(f)
                    try:
                        n, trans, out, outcomes, valid = f.result()
                    except BrokenProcessPool:
                        broken = True
                        futs[f] = tk
                        break
                    pm = per_model[tk[0]]
                    pm["done"] += n
                    pm["transitions"] += trans
                    pm["valid"] += valid
                    pm["outcomes"] |= outcomes
                    fails.extend(out)
        except BrokenProcessPool:
            broken = True
        finally:
            pool.shutdown(wait=not broken, cancel_futures=True)
        if broken:
            # a worker died (crash of compiled code): isolate the culprit by rerunning the tasks alone
            for tk in futs.values():
                k = json.dumps(tk, sort_keys=True)
                attempts[k] = attempts.get(k, 0) + 1
                if len(tk[1]) > 1:
                    pending_tasks.extend((tk[0], [c]) for c in tk[1])
                elif attempts[k] <= 2:
                    pending_tasks.append(tk)
                else:
                    # decide in a fresh single process
                    if _crashes(modname, tier, tk):
                        fails.append((tk[0], tk[1][0], "crash", "the process running this case died"))
                        per_model[tk[0]]["done"] += 1
                    else:
                        attempts[k] = 0
                        pending_tasks.append(tk)
            if len(fails) > 200:
                break
    # ---------------------------------------------------------------- verdict
    viol, kn = [], []
    for name, case, aspect, msg in fails:
        k = failure_key(name, case, aspect)
        (kn if k in known else viol).append((name, case, aspect, msg, k))
    states = sum(p["done"] for p in per_model.values())
    trans = sum(p["transitions"] for p in per_model.values())
    extra = getattr(mod, "COVERAGE", {})
    cov = {"states": states, "transitions": trans, "traces_validated_against_impl": sum(p["valid"] for p in per_model.values()),
           "samples": samples[:12], "exhaustive": True,
           "rule": getattr(mod, "RULE", mod.__doc__ or ""),
           "models": {n: {"states": p["done"], "transitions": p["transitions"],
                          **({"distinct_outcomes": len(p["outcomes"])} if p["outcomes"] else {})}
                      for n, p in per_model.items()},
           "space_sha256": digest.hexdigest()[:16]}
    cov.update(extra)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(viol)}
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    done_keys = set()
    for name, case, aspect, msg, k in kn:
        if k in done_keys:
            continue
        done_keys.add(k)
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]["what"]))
    print("%s %s: %d states, %d transitions, %.1f s" % (prop, tier, states, trans, time.time() - t0))
    for n, p in per_model.items():
        print("  %-28s states=%d transitions=%d%s" % (n, p["done"], p["transitions"],
              " outcomes=%d" % len(p["outcomes"]) if p["outcomes"] else ""))
    if viol:
        viol.sort(key=lambda v: len(json.dumps(v[1])))
        rp = os.path.join(EVIDENCE, "%s.replay.json" % prop)
        with open(rp, "w") as f:
            json.dump({"property": prop, "tier": tier,
                       "how": "/verif/replay.sh %s" % rp,
                       "violations": [{"model": n, "case": c, "aspect": a, "message": m, "key": k}
                                      for n, c, a, m, k in viol[:25]]}, f, indent=1)
        shown = {}
        for n, c, a, m, k in viol:
            if shown.get((n, a), 0) < 2 and sum(shown.values()) < int(os.environ.get("MC_SHOW", "16")):
                shown[(n, a)] = shown.get((n, a), 0) + 1
                print("  VIOLATED %s [%s] case=%s: %s" % (n, a, short(json.dumps(c), 400), short(m, 400)))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0


def _crashes(modname, tier, tk):
    pid = os.fork()
    if pid == 0:
        try:
            run_chunk(modname, tier, tk[0], tk[1])
            os._exit(0)
        except BaseException:
            os._exit(0)
    _, st = os.waitpid(pid, 0)
    return os.WIFSIGNALED(st)


def replay(path):
    d = json.load(open(path))
    boot.build()
    boot.load()
    models = _models(d["property"].lower(), d["tier"])
    bad = 0
    for v in d["violations"]:
        t = run_case(models[v["model"]], v["case"])
        hit = [m for a, m in t.fails if a == v["aspect"]]
        print("%s %s case=%s -> %s" % (d["property"], v["model"], json.dumps(v["case"]),
                                       "REPRODUCED: " + hit[0] if hit else "not reproduced"))
        bad += bool(hit)
    return 1 if bad else 0
