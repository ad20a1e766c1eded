"""Parameter values on both sides of every magnitude at which a formula might switch branches."""
STEPS = (1.0, 1.3, 2.0, 3.0, 4.6, 6.5, 8.7)
FINE = tuple(round(1 + .1 * k, 1) for k in range(90))


def magnitudes(lo, hi, steps=STEPS):
    """Both neighbours of each power of ten and the steps between, from 10**lo up to 10**hi."""
    out = []
    for k in range(lo, hi):
        out += [float("%.6ge%d" % (m, k)) for m in steps] + [float("9.99e%d" % k), float("1.001e%d" % k)]
    return sorted(set(out)) + [float("1e%d" % hi)]


def around(values):
    """Each value and its near and far neighbours."""
    return sorted({float(v * f) for v in values for f in (1, 1 - 1e-12, 1 + 1e-12, 1 - 1e-4, 1 + 1e-4)})


def parameters(f, d, thorough=False):
    st = FINE if thorough else STEPS
    if f == "clayton":
        p = [0.0] + magnitudes(-12, 3, st)
        if d == 2:
            p = [-v for v in magnitudes(-12, 0, st)] + [-1 + v for v in magnitudes(-6, -1, st) if v < .3] + p
    elif f == "frank":
        p = [0.0] + magnitudes(-12, 2, st) + [float(v) for v in range(10, 100, 3)] + [36.04, 37.0, 150.0, 250.0, 350.0]
        if d == 2:
            p = [-v for v in p if 0 < v < 301] + p
    elif f == "gumbel":
        p = [1.0] + [1 + v for v in magnitudes(-12, 1, st)] + [float(v) for v in range(2, 40)] + [v for v in magnitudes(1, 2, st)]
    elif f == "rho":
        p = [0.0]
        for v in magnitudes(-12, -1, st) + [i / 40 for i in range(1, 40)]:
            p += [v, -v]
        p += [s * (1 - v) for v in magnitudes(-6, -1, st) for s in (1, -1)]
        p = [v for v in p if abs(v) < 1]
    elif f == "df":
        p = magnitudes(-2, 5, st) + [float(v) for v in range(1, 40)] + [k + .5 for k in range(12)][1:]
    else:
        raise KeyError(f)
    return sorted(set(p))
