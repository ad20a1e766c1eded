"""Numbers of observations on both sides of every length a program might treat specially, and structured samples of each
length whose ranks and dependence are known or cheap to count exactly."""
import numpy as np

SIZES = (1, 2, 3, 5, 9, 10, 11, 16, 17, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 199, 200, 201, 249, 250, 251, 255, 256, 257,
         299, 300, 301, 399, 400, 401, 499, 500, 501, 511, 512, 513, 749, 750, 751, 999, 1000, 1001, 1023, 1024, 1025, 1499, 1500, 1501, 1999, 2000, 2001,
         2047, 2048, 2049)
LONG = (2499, 2500, 2501, 2999, 3000, 3001, 4095, 4096, 4097, 4999, 5000, 5001, 8191, 8192, 8193, 9999, 10000, 10001, 16384, 20001, 32768, 50001, 65535, 65536, 65537, 100001)
SHAPES = ("up", "down", "mixed", "pairs", "runs", "few levels", "constant", "one apart")


def upto(n, long=False):
    return [k for k in SIZES + (LONG if long else ()) if k <= n]


def stride(n):
    """A step through 0..n-1 that visits everything once."""
    s = max(int(n * 0.6180339887), 1)
    while np.gcd(s, n) != 1:
        s += 1
    return s


def column(n, shape, turn=0):
    """n whole numbers; turn gives a second, differently mixed column of the same shape."""
    i = np.arange(n)
    p = (i * stride(n) + turn * 7) % n
    if turn:
        p = (p * 2 + p // 3 * 5 + turn) % n       # not a bijection: ties included
    if shape == "up":
        return i if not turn else p
    if shape == "down":
        return n - i if not turn else -p
    if shape == "mixed":
        return p if not turn else (i * stride(n) * 3 + (i % 5)) % (2 * n + 1)
    if shape == "pairs":
        return p // 2
    if shape == "runs":
        return p // 7
    if shape == "few levels":
        return p % 4
    if shape == "constant":
        return p * 0 + 3
    if shape == "one apart":
        return np.where(i == (n - 1 if not turn else n // 2), 5, 2)
    raise KeyError(shape)


def ranks(x, ties="average"):
    """Ranks by counting smaller and equal values (exact: halves at most)."""
    x = np.asarray(x)
    s = np.sort(x)
    lo, hi = np.searchsorted(s, x, "left"), np.searchsorted(s, x, "right")
    if ties == "average":
        return (lo + hi + 1) / 2
    if ties == "min":
        return lo + 1.0
    if ties == "max":
        return hi + 0.0
    if ties == "dense":
        return np.searchsorted(np.unique(s), x) + 1.0
    if ties == "ordinal":
        r = np.empty(len(x))
        r[np.argsort(x, kind="stable")] = np.arange(1, len(x) + 1)
        return r
    raise KeyError(ties)


def kendall(x, y):
    """tau-b from the signs of all pairs."""
    x, y = np.asarray(x), np.asarray(y)
    s = tx = ty = 0
    for i in range(len(x) - 1):
        a, b = np.sign(x[i + 1:] - x[i]), np.sign(y[i + 1:] - y[i])
        s += int((a * b).sum())
        tx += int(np.abs(a).sum())
        ty += int(np.abs(b).sum())
    return s / np.sqrt(float(tx)) / np.sqrt(float(ty)) if tx and ty else float("nan")


def pearson(x, y):
    """For whole or half numbers: exact sums of integers."""
    n = len(x)
    a, b = [int(v) for v in np.asarray(x) * 2], [int(v) for v in np.asarray(y) * 2]
    sa, sb = sum(a), sum(b)
    xy = n * sum(p * q for p, q in zip(a, b)) - sa * sb
    xx, yy = n * sum(p * p for p in a) - sa * sa, n * sum(q * q for q in b) - sb * sb
    return xy / (xx ** .5 * yy ** .5) if xx and yy else float("nan")


def spearman(x, y):
    return pearson(ranks(x), ranks(y))


def elementwise(t, f, points, aspect, top, rtol=1e-12, atol=1e-14, forms=True):
    """f of n values is n times f of one value, for every length and in two dimensions."""
    P = np.asarray(points)
    single = np.concatenate([np.ravel(f(np.array([p]))) for p in P])
    for n in upto(top, True):
        i = (np.arange(n) * 5 + np.arange(n) // 11) % len(P)
        x = P[i]
        b = x.copy()
        t.close(np.ravel(f(x)), single[i], aspect, rtol, atol, ctx="%d values" % n)
        t.expect(np.array_equal(x, b, equal_nan=True), "argument changed", lambda: "%s: %d values" % (aspect, n))
        if forms and n % 2 == 0:
            t.close(f(x.reshape(2, -1)), single[i].reshape(2, -1), aspect, rtol, atol, ctx="two rows of %d values" % (n // 2))
            t.close(np.ravel(f(np.repeat(x, 2)[::2])), single[i], aspect, rtol, atol, ctx="%d strided values" % n)
