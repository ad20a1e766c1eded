"""The environment of the code under test, behind seams the checks decide.

install() runs before the package is imported.  Every entry point is replaced by a dispatcher that forwards to the
original unless a check has installed a handler, so the package sees the same behaviour by default and a check can
enumerate every answer of the optimizer, the global NumPy generator, the process pool and libc's rand().
"""
import contextlib
import concurrent.futures
import functools

_handlers = {}
_installed = False
calls = {}


def _dispatch(key, orig):
    @functools.wraps(orig)
    def call(*a, **k):
        h = _handlers.get(key)
        calls[key] = calls.get(key, 0) + 1
        return h(orig, *a, **k) if h is not None else orig(*a, **k)
    call.__mc_original__ = orig
    return call


NP_RANDOM = ["seed", "random", "rand", "randn", "random_sample", "uniform", "normal", "standard_normal", "randint",
             "choice", "standard_gamma", "gamma", "exponential", "standard_exponential", "chisquare",
             "multivariate_normal", "permutation", "shuffle", "beta", "standard_t", "poisson", "logseries", "binomial",
             "multinomial", "default_rng", "RandomState"]


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import numpy as np
    import scipy.optimize
    import scipy.optimize._minimize  # noqa: F401
    f = _dispatch("minimize", scipy.optimize.minimize)
    scipy.optimize.minimize = f
    import scipy.stats  # make sure SciPy has bound what it needs before the generator is wrapped
    import sklearn.cluster  # noqa: F401
    import statsmodels.api  # noqa: F401
    for name in NP_RANDOM:
        o = getattr(np.random, name)
        if isinstance(o, type):
            continue  # classes (RandomState) stay classes
        setattr(np.random, name, _dispatch("np.random." + name, o))
    orig_pool = concurrent.futures.ProcessPoolExecutor

    class Pool(orig_pool):
        def __new__(cls, *a, **k):
            h = _handlers.get("ProcessPoolExecutor")
            if h is not None:
                return h(orig_pool, *a, **k)
            return super().__new__(cls)

    concurrent.futures.ProcessPoolExecutor = Pool
    concurrent.futures.process.ProcessPoolExecutor = Pool


@contextlib.contextmanager
def handle(**kw):
    """handle(minimize=f, np_random_uniform=g, ProcessPoolExecutor=h): install handlers for the duration."""
    keys = {}
    for k, v in kw.items():
        keys[k.replace("np_random_", "np.random.")] = v
    old = {k: _handlers.get(k) for k in keys}
    _handlers.update(keys)
    try:
        yield calls
    finally:
        for k, v in old.items():
            if v is None:
                _handlers.pop(k, None)
            else:
                _handlers[k] = v
