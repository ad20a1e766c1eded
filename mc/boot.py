"""Bring the code under test up: rebuild the compiled parts of /repo's working tree, then make it importable.

Everything the checks import from /repo goes through here, so that
  * stale byte code is never used (private, empty pycache prefix),
  * the nondeterministic entry points of the environment (optimizer, RNG, process pool, libc rand) can be
    intercepted *before* the package binds them, whatever import style it uses (see env.py).
"""
import fcntl
import os
import subprocess
import sys

REPO = os.environ.get("MC_REPO", "/repo")
PY = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def build():
    """Incrementally rebuild the extension modules of REPO in place (products are git-ignored there)."""
    if os.environ.get("MC_NO_BUILD") == "1":
        return
    lock = open("/tmp/.copulae-mc-build.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        builder = "/opt/vp/py/build_ext.py"
        if os.path.exists(builder):      # content-hash based incremental build; may serve a scratch copy too
            src = open(builder).read().replace("os.chdir('/repo')", "os.chdir(%r)" % REPO)
            cmd = [PY, "-c", src]
        else:
            cmd = [PY, "setup.py", "build_ext", "--inplace", "--force"]
        p = subprocess.run(cmd, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            sys.stdout.write(p.stdout[-4000:])
            raise SystemExit(3)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def load():
    import warnings
    warnings.simplefilter("ignore")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    from . import env
    env.install()
    import numpy as np
    np.seterr(all="ignore")
    import copulae
    assert os.path.realpath(copulae.__file__).startswith(os.path.realpath(REPO) + os.sep), copulae.__file__
    warnings.simplefilter("ignore")
    return copulae
