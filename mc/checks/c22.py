"""Matrix utilities of copulae.core against exact rational linear algebra over every symmetric matrix of an alphabet."""
import itertools
from fractions import Fraction as Q

import numpy as np

from ..core import Model
from .. import ref

RULE = ("all symmetric matrices over value alphabets up to dimension 3 (and all correlation matrices of dimension 4), all triangle shapes "
        "(n, offset, side), all parameter vectors over an alphabet; eigenvalue signs decided by exact rational minors")
ASSUMPTIONS = ["the nearest-matrix projection is explored for positive variances only (no positive semi-definite matrix with the same "
               "diagonal exists for a negative one)"]


# ---------------------------------------------------------------- exact definiteness
def det(m):
    m = [list(r) for r in m]
    n, d = len(m), Q(1)
    for i in range(n):
        p = next((r for r in range(i, n) if m[r][i] != 0), None)
        if p is None:
            return Q(0)
        if p != i:
            m[i], m[p] = m[p], m[i]
            d = -d
        d *= m[i][i]
        for r in range(i + 1, n):
            k = m[r][i] / m[i][i]
            for c in range(i, n):
                m[r][c] -= k * m[i][c]
    return d


def definiteness(m):
    """'pd', 'psd' (singular) or 'no', by principal minors"""
    n = len(m)
    psd = all(det([[m[i][j] for j in s] for i in s]) >= 0 for k in range(1, n + 1) for s in itertools.combinations(range(n), k))
    if not psd:
        return "no"
    return "pd" if all(det([r[:k] for r in m[:k]]) > 0 for k in range(1, n + 1)) else "psd"


def exact(m):
    return [[Q(x).limit_denominator(10 ** 6) for x in r] for r in m]


def symmetric(n, diag, off):
    """the matrix with this diagonal and these upper off-diagonal entries (row by row)"""
    m = np.zeros((n, n))
    it = iter(off)
    for i in range(n):
        m[i, i] = diag[i]
        for j in range(i + 1, n):
            m[i, j] = m[j, i] = next(it)
    return m


class Definiteness(Model):
    name = "definiteness"

    def cases(self):
        al = [-2.0, -1.0, 0.0, .5, 1.0, 3.0]
        for x in al + [1e-3, -1e-3]:
            yield {"diag": [x], "off": [[]]}
        for d in itertools.product(al, repeat=2):
            yield {"diag": list(d), "off": [[x] for x in [-3.0, -1.0, -.5, 0.0, .25, .5, 1.0, 1.5, 2.0]]}
        dg = [0.0, .5, 1.0, 2.0] if self.thorough else [0.0, 1.0, 2.0]
        of = [-2.0, -1.0, -.5, 0.0, .5, 1.0, 2.0] if self.thorough else [-1.0, -.5, 0.0, .5, 1.0]
        for d in itertools.product(dg, repeat=3):
            yield {"diag": list(d), "off": [list(o) for o in itertools.product(of, repeat=3)]}
        cr = [-1.0, -.5, 0.0, .5, 1.0] if self.thorough else [-1.0, 0.0, .5]
        for o in itertools.product(cr, repeat=3):
            yield {"diag": [1.0] * 4, "off": [list(o) + list(q) for q in itertools.product(cr, repeat=3)]}

    def check(self, c, t):
        from copulae.core import is_psd, is_symmetric, near_psd
        n = len(c["diag"])
        for off in c["off"]:
            m = symmetric(n, c["diag"], off)
            kind = definiteness(exact(m))
            for arg, lab in ((m.copy(), "array"), (m.tolist(), "list"), (np.asfortranarray(m), "fortran")):
                t.expect(bool(is_psd(arg)) == (kind != "no"), "is_psd", lambda: "is_psd(%s)=%r for a %s matrix (%s)" % (m.tolist(), is_psd(arg), kind, lab))
                t.expect(bool(is_psd(arg, strict=True)) == (kind == "pd"), "is_psd strict",
                         lambda: "is_psd(%s, strict)=%r for a %s matrix (%s)" % (m.tolist(), is_psd(arg, True), kind, lab))
                t.expect(np.array_equal(np.asarray(arg), m), "argument modified", "is_psd")
            t.expect(bool(is_symmetric(m)), "is_symmetric", "%s" % m.tolist())
            if n == 1:
                t.expect(bool(is_psd(float(m[0, 0]))) == (kind != "no"), "is_psd scalar", "%r" % m[0, 0])
                t.expect(bool(is_psd(float(m[0, 0]), strict=True)) == (kind == "pd"), "is_psd scalar strict", "%r" % m[0, 0])
            if min(c["diag"]) <= 0:
                continue
            for method in ("clipped", "nearest"):
                if method == "nearest" and n > 3 and not self.thorough and sum(map(abs, off)) > 4:
                    continue
                a = m.copy()
                r = near_psd(a, method=method)
                t.expect(np.array_equal(a, m), "argument modified", "near_psd")
                r = np.asarray(r, float)
                if not t.expect(r.shape == m.shape and np.isfinite(r).all(), "near_psd shape", "near_psd(%s)=%s" % (m.tolist(), r)):
                    continue
                if kind != "no":
                    t.expect(np.array_equal(r, m), "near_psd of a valid matrix", "near_psd(%s)=%s" % (m.tolist(), r.tolist()))
                    continue
                s = np.abs(m).max()
                t.expect(np.abs(r - r.T).max() <= 1e-12 * s, "near_psd symmetric", "near_psd(%s)=%s" % (m.tolist(), r.tolist()))
                t.expect(np.abs(np.diag(r) - np.diag(m)).max() <= 1e-9 * s, "near_psd diagonal", "near_psd(%s)=%s" % (m.tolist(), r.tolist()))
                # the iterative method stops within its tolerance
                ev = np.linalg.eigvalsh((r + r.T) / 2).min()
                t.expect(ev >= -(1e-12 if method == "clipped" else 1e-6) * s, "near_psd psd", "near_psd(%s, %s) has eigenvalue %r" % (m.tolist(), method, ev))
                if method == "clipped":
                    t.expect(bool(is_psd(r)), "near_psd psd", "is_psd(near_psd(%s)) is false" % m.tolist())
                    t.close(near_psd(r), r, "near_psd idempotent", 1e-9, 1e-12, "%s" % m.tolist())


class Boundary(Model):
    """Matrices whose smallest eigenvalue is any power of ten on either side of zero."""
    name = "near the boundary"

    def cases(self):
        for n in (2, 3, 4):
            for sign in (-1, 0, 1):
                for e in range(1, 11) if sign else (0,):
                    yield {"n": n, "sign": sign, "e": e}

    def check(self, c, t):
        from copulae.core import is_psd, near_psd
        n, ev = c["n"], c["sign"] * 10.0 ** -c["e"]
        mats = []
        one = np.ones(n) / n ** .5
        mats.append((1 - ev) / (1 - 1 / n) * np.eye(n) * 1.0 + (ev - (1 - ev) / (1 - 1 / n)) * np.outer(one, one) if n > 2 else np.array([[1, 1 - ev], [1 - ev, 1]]))
        for k in range(n):          # the small eigenvalue in every coordinate pair, other variances differ
            m = np.eye(n)
            j = (k + 1) % n
            m[k, j] = m[j, k] = 1 - ev
            mats.append(m)
            w = np.arange(1, n + 1.)
            mats.append(np.outer(w, w) ** .5 * m)
        for m in mats:
            low = np.linalg.eigvalsh(m)[0]
            s = np.abs(m).max()
            for arg in (m.copy(), m.tolist()):
                t.expect(bool(is_psd(arg)) == (c["sign"] >= 0 or low > 0), "is_psd", lambda: "smallest eigenvalue %g of %s" % (low, m.tolist())) if abs(low) > 5e-12 or c["sign"] == 0 and abs(low) < 5e-13 else None
                t.expect(bool(is_psd(arg, strict=True)) == (low > 0), "is_psd strict", lambda: "smallest eigenvalue %g of %s" % (low, m.tolist())) if abs(low) > 5e-12 else None
            a = m.copy()
            r = np.asarray(near_psd(a), float)
            t.expect(np.array_equal(a, m), "argument modified", "near_psd")
            if low >= 0:
                t.expect(np.array_equal(r, m), "near_psd of a valid matrix", lambda: "near_psd(%s)=%s" % (m.tolist(), r.tolist()))
                continue
            got = np.linalg.eigvalsh((r + r.T) / 2)[0]
            t.expect(got >= -5e-12 * s, "near_psd psd", lambda: "near_psd(%s) has eigenvalue %r" % (m.tolist(), got))
            t.expect(np.abs(np.diag(r) - np.diag(m)).max() <= 1e-9 * s and np.abs(r - r.T).max() <= 1e-12 * s, "near_psd diagonal, symmetric", lambda: "near_psd(%s)=%s" % (m.tolist(), r.tolist()))
            t.expect(np.abs(r - m).max() <= 4 * n * s * abs(low) + 1e-9, "near_psd stays near", lambda: "near_psd(%s)=%s" % (m.tolist(), r.tolist()))


class Symmetry(Model):
    """is_symmetric, near_psd and is_psd on every matrix over an alphabet, symmetric or not, and on non-square shapes."""
    name = "symmetry"

    def cases(self):
        al = [-1.0, 0.0, .5, 1.0]
        for m in itertools.product(al, repeat=4):
            yield {"m": [list(m[:2]), list(m[2:])]}
        for m in itertools.product([0.0, 1.0], repeat=6):
            yield {"m": [[1.0, m[0], m[1]], [m[2], 1.0, m[3]], [m[4], m[5], 1.0]]}
        for s in ([2, 3], [3, 2], [1, 2], [2, 1], [4], [1], [2, 2, 2]):
            yield {"shape": s}

    def check(self, c, t):
        from copulae.core import is_psd, is_symmetric, near_psd
        from copulae.core.exceptions import NonSymmetricMatrixError as Bad
        if "shape" in c:
            m = np.ones(c["shape"])
            t.expect(not is_symmetric(m), "is_symmetric", "shape %s" % c["shape"])
            t.expect(not is_psd(m), "is_psd", "shape %s" % c["shape"])
            t.raises((Bad, ValueError), lambda: near_psd(m), "near_psd rejects", "shape %s" % c["shape"])
            return
        m = np.array(c["m"])
        sym = all(c["m"][i][j] == c["m"][j][i] for i in range(len(m)) for j in range(len(m)))
        t.expect(bool(is_symmetric(m)) == sym, "is_symmetric", "%s" % c["m"])
        if not sym:
            t.expect(not is_psd(m) and not is_psd(m, strict=True), "is_psd", "%s" % c["m"])
            t.raises((Bad, ValueError), lambda: near_psd(m), "near_psd rejects", "%s" % c["m"])
            for eps, want in ((1e-3, False), (1e-4, False)):
                a = np.array([[1.0, .5], [.5 + eps, 1.0]])
                t.expect(bool(is_symmetric(a)) == want, "is_symmetric tolerance", "asymmetry %g" % eps)
        t.expect(np.array_equal(m, np.array(c["m"])), "argument modified", "")


class Triangles(Model):
    name = "triangles"

    def cases(self):
        for n in range(1, 9 if self.thorough else 7):
            for m in range(0, n + 1):
                yield {"n": n, "m": m}

    def check(self, c, t):
        from copulae.core import tri_indices
        n, m = c["n"], c["m"]
        up = [(i, j) for i in range(n) for j in range(i + m, n)]
        got = {}
        for side in ("lower", "upper", "both", "LOWER", "Upper"):
            r = tri_indices(n, m, side)
            if not t.expect(len(r) == 2, "shape", "tri_indices returned %r" % (r,)):
                return
            got[side] = list(zip((int(x) for x in r[0]), (int(x) for x in r[1])))
            x = np.arange(n * n, dtype=float).reshape(n, n)
            t.close(x[r], [x[i, j] for i, j in got[side]], "usable as index", 0, 0)
        t.expect(sorted(got["upper"]) == sorted(up), "upper", "n=%d m=%d: %s" % (n, m, got["upper"]))
        t.expect(sorted(got["lower"]) == sorted((j, i) for i, j in up), "lower", "n=%d m=%d: %s" % (n, m, got["lower"]))
        t.expect([(j, i) for i, j in got["upper"]] == got["lower"], "matching order", "n=%d m=%d: %s / %s" % (n, m, got["upper"], got["lower"]))
        h = len(up)
        t.expect(sorted(got["both"]) == sorted(got["upper"] + got["lower"]), "both", "n=%d m=%d: %s" % (n, m, got["both"]))
        t.expect([(j, i) for i, j in got["both"][:h]] == got["both"][h:], "both halves match", "n=%d m=%d: %s" % (n, m, got["both"]))
        t.expect(got["LOWER"] == got["lower"] and got["Upper"] == got["upper"], "case of side", "")
        t.expect(list(zip(*(x.tolist() for x in tri_indices(n, m)))) == got["both"], "default side", "")
        for bad in ("left", "", "up"):
            t.raises(ValueError, lambda: tri_indices(n, m, bad), "bad side", bad)


class Vectors(Model):
    """Parameter vector -> correlation matrix -> parameter vector, for every vector over an alphabet."""
    name = "vectors"

    def cases(self):
        al = [-.9, 0.0, .25, .5]
        for c in (0, 1, 3, 6, 10, 15):
            if c <= 3:
                for v in itertools.product(al, repeat=c):
                    yield {"v": list(v)}
            else:
                for v in (itertools.product([-.5, .25], repeat=c) if c == 6 else [[k / (2 * c) for k in range(c)]]):
                    yield {"v": list(v)}
        for c in (2, 4, 5, 7, 8, 9):
            yield {"bad": c}

    def check(self, c, t):
        from copulae.core import create_cov_matrix, tri_indices
        if "bad" in c:
            t.raises(ValueError, lambda: create_cov_matrix(np.full(c["bad"], .1)), "wrong length", "%d" % c["bad"])
            return
        v = np.array(c["v"])
        for arg in (v.copy(), c["v"], tuple(c["v"])):
            s = create_cov_matrix(arg)
            d = int(round((1 + (1 + 8 * len(v)) ** .5) / 2))
            if not t.expect(s.shape == (d, d), "shape", "%s" % (s.shape,)):
                return
            t.expect(np.array_equal(s, s.T), "symmetric", "%s" % s.tolist())
            t.close(np.diag(s), np.ones(d), "unit diagonal", 0, 0)
            t.close(np.array(arg, float), v, "argument modified", 0, 0)
            for side in ("lower", "upper"):
                t.close(s[tri_indices(d, 1, side)], v, "read back " + side, 0, 0)
        want = np.eye(d)
        k = 0
        for i in range(d):
            for j in range(i + 1, d):
                want[i, j] = want[j, i] = v[k]
                k += 1
        t.close(s, want, "documented order", 0, 0)


class Conversions(Model):
    name = "conversions"

    def cases(self):
        sd = [.25, 1.0, 3.0]
        cr = [-.5, 0.0, .75]
        for n in (1, 2, 3):
            for s in itertools.product(sd, repeat=n):
                yield {"sd": list(s), "off": [list(o) for o in itertools.product(cr, repeat=n * (n - 1) // 2)]}

    def check(self, c, t):
        from copulae.core import corr2cov, cov2corr
        n = len(c["sd"])
        sd = np.array(c["sd"])
        for off in c["off"]:
            R = symmetric(n, [1.0] * n, off)
            S = np.array([[R[i, j] * sd[i] * sd[j] for j in range(n)] for i in range(n)])
            for a, b in ((R.copy(), sd.copy()), (R.tolist(), sd.tolist()), (R.copy(), sd[None, :].copy())):
                t.close(corr2cov(a, b), S, "corr2cov", 1e-14, 0)
                t.expect(np.array_equal(np.asarray(a), R) and np.array_equal(np.ravel(b), sd), "argument modified", "corr2cov")
            for a in (S.copy(), S.tolist()):
                t.close(cov2corr(a), R, "cov2corr", 1e-14, 1e-16)
                r, s = cov2corr(a, return_std=True)
                t.close(r, R, "cov2corr", 1e-14, 1e-16)
                t.close(np.ravel(s), sd, "cov2corr std", 1e-14, 0)
                t.expect(np.array_equal(np.asarray(a), S), "argument modified", "cov2corr")
                t.close(corr2cov(r, s), S, "round trip", 1e-14, 1e-16)


class Scales(Model):
    """Standard deviations of any magnitude, alone and mixed, and more variables."""
    name = "scales and dimensions"

    def cases(self):
        mag = [1e-150, 1e-12, 1e-7, 1e-4, 1.0, 1e3, 1e8, 1e150]
        for a in mag:
            for b in mag:
                yield {"sd": [a, b]}
                yield {"sd": [a, b, a]}
                yield {"sd": [a, 2.0, b, a]}
        for n in (5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 31, 33, 45, 64, 65, 90):
            yield {"n": n}
            if n < 34:
                for k in (-6, -3, 3, 6):
                    yield {"n": n, "scale": k}

    def check(self, c, t):
        from copulae.core import corr2cov, cov2corr, create_cov_matrix, is_psd, near_psd, tri_indices
        if "sd" in c:
            sd = np.array(c["sd"])
            n = len(sd)
        else:
            n = c["n"]
            sd = 1.0 + np.arange(n) % 5
        if "scale" not in c:
            for r in (.5, -.3 / n, .999, 1e-7, 1e-13):
                R = np.array([[1.0 if i == j else r * (1 if r < 0 or r == .999 else 1 - abs(i - j) / (2 * n)) for j in range(n)] for i in range(n)])
                S = np.array([[R[i, j] * (sd[i] * sd[j]) for j in range(n)] for i in range(n)])
                t.close(corr2cov(R, sd), S, "corr2cov", 1e-13, 0, ctx=repr(c))
                q, s = cov2corr(S, return_std=True)
                t.close(q, R, "cov2corr", 1e-13, 1e-18, ctx=repr(c))
                t.close(np.ravel(s), sd, "cov2corr std", 1e-13, 0, ctx=repr(c))
                t.close(cov2corr(S), q, "cov2corr", 0, 0, ctx=repr(c))
        if "sd" in c:
            return
        if "scale" not in c:
            for m in (0, 1, 2, n - 1, n):
                up = [(i, j) for i in range(n) for j in range(i + m, n)]
                lo, u, b = (list(zip(*(x.tolist() for x in tri_indices(n, m, side)))) for side in ("lower", "upper", "both"))
                t.expect(sorted(u) == up and [(j, i) for i, j in u] == lo and sorted(b) == sorted(u + lo) and [(j, i) for i, j in b[:len(up)]] == b[len(up):],
                         "triangles", "n=%d m=%d" % (n, m))
            v = np.arange(n * (n - 1) // 2) / n ** 2
            s = create_cov_matrix(v)
            want = np.eye(n)
            k = 0
            for i in range(n):
                for j in range(i + 1, n):
                    want[i, j] = want[j, i] = v[k]
                    k += 1
            t.close(s, want, "documented order", 0, 0, ctx=repr(c))
            for bad in (len(v) - 1, len(v) + 1):
                t.raises(ValueError, lambda: create_cov_matrix(np.full(bad, .1)), "wrong length", "%d" % bad)
        # projections of larger matrices: too negatively correlated, or one impossible triple among good pairs
        f = 10.0 ** c.get("scale", 0)
        w = f * np.outer(sd, sd)
        good = w * (np.eye(n) * .6 + .4)
        eq = w * (np.eye(n) * (1 + 2 / n) - 2 / n)
        tri = np.eye(n)
        tri[0, 1] = tri[1, 0] = tri[0, n - 1] = tri[n - 1, 0] = .9
        tri[1, n - 1] = tri[n - 1, 1] = -.9
        for m, psd in ((good, True), (eq, False), (w * tri, False)):
            t.expect(bool(is_psd(m)) == psd and bool(is_psd(m, strict=True)) == psd, "is_psd", repr(c))
            a = m.copy()
            r = np.asarray(near_psd(a), float)
            t.expect(np.array_equal(a, m), "argument modified", "near_psd")
            if psd:
                t.expect(np.array_equal(r, m), "near_psd of a valid matrix", repr(c))
                continue
            e = np.linalg.eigvalsh((r + r.T) / 2 / w.max())[0]
            t.expect(e > -1e-11, "near_psd psd", lambda: "%r: eigenvalue %g" % (c, e))
            t.expect(np.abs(np.diag(r) / np.diag(m) - 1).max() < 1e-9 and np.abs(r - r.T).max() <= 1e-12 * w.max(), "near_psd diagonal, symmetric", repr(c))
            # clipping moves no entry further than the clipped part of the spectrum does
            q = m / np.sqrt(np.outer(np.diag(m), np.diag(m)))
            ev, V = np.linalg.eigh(q)
            cl = (V * np.maximum(ev, 0)) @ V.T
            k = np.sqrt(np.diag(cl))
            t.close(r / np.sqrt(np.outer(np.diag(m), np.diag(m))), cl / np.outer(k, k), "near_psd clips", 1e-6, 1e-7, ctx=repr(c))


class Ranks(Model):
    """rank_data along both axes for every small array of ranks (pseudo-observations have their own property)."""
    name = "rank_data"

    def cases(self):
        for r, n in ((1, 3), (2, 2), (2, 3), (3, 2)):
            for v in itertools.product([0.0, 1.0, 2.5], repeat=r * n):
                yield {"m": [list(v[i * n:(i + 1) * n]) for i in range(r)]}

    def check(self, c, t):
        from copulae.core import rank_data
        m = np.array(c["m"])
        for ties in ref.TIES:
            for axis in (0, 1):
                a = m.copy()
                got = rank_data(a, axis, ties)
                lines = m if axis == 0 else m.T
                want = np.array([[float(x) for x in ref.ranks(row, ties)] for row in lines])
                t.close(got, want if axis == 0 else want.T, "rank_data axis %d" % axis, 0, 1e-15, ties)
                t.expect(np.array_equal(a, m), "argument modified", "rank_data")
            t.close(rank_data(m[0], ties=ties), [float(x) for x in ref.ranks(m[0], ties)], "rank_data vector", 0, 1e-15, ties)
        t.raises(ValueError, lambda: rank_data(m, 2), "bad axis", "2")


MODELS = [Definiteness, Boundary, Symmetry, Triangles, Vectors, Conversions, Scales, Ranks]
