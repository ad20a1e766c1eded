"""Reference definitions, written independently of the package and kept boring."""
import itertools
import math
from fractions import Fraction

import numpy as np

TIES = ["average", "min", "max", "dense", "ordinal"]


def weak_orderings(n):
    """Every weak ordering of n items as the vector of dense ranks 0..k-1 (Fubini number many), simplest first."""
    out = []
    for v in itertools.product(range(n), repeat=n):
        k = max(v) + 1
        if len(set(v)) == k:
            out.append(list(v))
    out.sort(key=lambda v: (len(set(v)) != n, v))
    return out


def ranks(x, ties="average"):
    """Ranks of a finite sequence under a tie rule, as Fractions."""
    x = list(x)
    if ties == "dense":
        lv = sorted(set(x))
        return [Fraction(lv.index(v) + 1) for v in x]
    out = []
    for i, v in enumerate(x):
        lo = sum(1 for w in x if w < v) + 1
        hi = sum(1 for w in x if w <= v)
        if ties == "average":
            out.append(Fraction(lo + hi, 2))
        elif ties == "min":
            out.append(Fraction(lo))
        elif ties == "max":
            out.append(Fraction(hi))
        elif ties == "ordinal":
            out.append(Fraction(lo + sum(1 for w in x[:i] if w == v)))
        else:
            raise ValueError(ties)
    return out


def pobs(cols, ties="average"):
    """cols: list of columns -> list of columns of Fractions rank/(n+1)."""
    n = len(cols[0])
    return [[r / (n + 1) for r in ranks(c, ties)] for c in cols]


def pearson(x, y):
    """Pearson coefficient of two sequences of Fractions/ints (float result, NaN when undefined)."""
    n = len(x)
    x = [Fraction(v) for v in x]
    y = [Fraction(v) for v in y]
    mx, my = sum(x) / n, sum(y) / n
    sxy = sum((a - mx) * (b - my) for a, b in zip(x, y))
    sxx = sum((a - mx) ** 2 for a in x)
    syy = sum((b - my) ** 2 for b in y)
    if sxx == 0 or syy == 0:
        return math.nan
    return float(sxy) / math.sqrt(float(sxx * syy))


def spearman(x, y):
    return pearson(ranks(x), ranks(y))


def kendall(x, y):
    """tau-b"""
    n = len(x)
    s = tx = ty = 0
    for i in range(n):
        for j in range(i + 1, n):
            a = (x[i] > x[j]) - (x[i] < x[j])
            b = (y[i] > y[j]) - (y[i] < y[j])
            s += a * b
            tx += a * a
            ty += b * b
    if tx == 0 or ty == 0:
        return math.nan
    return s / math.sqrt(tx * ty)


def pobs_rows(x, ties="average"):
    """Matrix of floats (rows = observations)."""
    cols = pobs([list(c) for c in np.asarray(x, float).T], ties)
    return np.array([[float(v) for v in c] for c in cols]).T
