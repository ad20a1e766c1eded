#!/usr/bin/env python3
"""seed.py SPEC.py [ID...]: confirm planted bugs in scratch copies of /repo and keep the confirmed ones in /verif/seeded.

SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].
A bug is kept when: each edit matches exactly one place, only lines of the original repository are touched, the copy
builds, the stable tests pass, and the demonstration exits 0 on /repo and nonzero on the copy. Then the property's
check is run on the copy and the outcome is written to meta-free stdout (CAUGHT / MISSED).
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

BASE = "1619490"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=kw.pop("env", ENV), **kw)


def build(repo):
    src = open("/opt/vp/py/build_ext.py").read().replace("os.chdir('/repo')", "os.chdir(%r)" % repo)
    return sh([PY, "-c", src], repo)


def tests(repo, stable):
    x = tempfile.mktemp(suffix=".xml")
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "-n", "4", "--timeout=300",
        "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + x, "tests"], repo)
    out = tempfile.mktemp(suffix=".json")
    sh(["/usr/bin/python3", "/opt/vp/results.py", out, "junit:" + x], repo)
    o = json.load(open(out))
    os.unlink(x), os.unlink(out)
    return sorted(set(stable) - set(o["passed"]))


def one(spec):
    log = []
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    repo = d + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        sh(["git", "checkout", "-q", "--", "."], repo)
        for f, old, new in spec["edits"]:
            s = open(repo + "/" + f).read()
            if s.count(old) != 1:
                return spec["id"], "REJECTED edit of %s matches %d places" % (f, s.count(old))
            open(repo + "/" + f, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], repo).stdout
        # only original lines are changed
        f = None
        line = 0
        for l in sh(["git", "diff", "-U0"], repo).stdout.splitlines():
            if l.startswith("--- a/"):
                f = l[6:]
            elif l.startswith("@@"):
                a = l.split()[1][1:].split(",")
                a, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                for ln in range(a, a + max(n, 1)):
                    b = sh(["git", "blame", "-s", "-L", "%d,%d" % (ln, ln), "HEAD", "--", f], repo).stdout
                    if not b.lstrip("^").startswith(BASE[:7]) and n:
                        log.append("not original: " + b.strip()[:90])
        if any(x.startswith("not original") for x in log) and not spec.get("mixed"):
            return spec["id"], "REJECTED " + "; ".join(log)
        b = build(repo)
        if b.returncode:
            return spec["id"], "REJECTED build " + b.stdout[-500:]
        out = "/tmp/seeds/" + spec["id"]
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.py", "w").write(spec["demo"].lstrip())
        open(out + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH=. timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        demo_good = sh(["bash", out + "/demo.sh"], "/repo")
        demo_bad = sh(["bash", out + "/demo.sh"], repo)
        if demo_good.returncode != 0:
            return spec["id"], "REJECTED demo fails on /repo: " + demo_good.stdout[-400:]
        if demo_bad.returncode == 0:
            return spec["id"], "REJECTED demo passes with the change"
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss = tests(repo, stable)
        if miss:
            return spec["id"], "REJECTED tests fail: %s" % miss[:4]
        c = sh(["bash", "/verif/run.sh", spec["property"]], "/verif", env=dict(ENV, MC_REPO=repo, MC_SHOW="2", MC_JOBS="3", MC_EVIDENCE=d))
        tail = [l for l in c.stdout.splitlines() if "VIOL" in l]
        keep = "/verif/seeded/" + spec["id"]
        shutil.rmtree(keep, ignore_errors=True)
        shutil.copytree(out, keep)
        caught = c.returncode == 1
        return spec["id"], ("CAUGHT " if caught else "MISSED (exit %d) " % c.returncode) + (tail[0][:160] if tail else c.stdout[-200:]) + " | demo: " + demo_bad.stdout.strip()[-100:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = set(sys.argv[2:])
    todo = [s for s in seeds if not only or s["id"] in only]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(one, todo):
            print(*r, flush=True)
