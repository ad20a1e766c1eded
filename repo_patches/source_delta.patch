From 398b61c8ab9e97789d94609f0327fd9038f5a032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:19 +0000
Subject: [PATCH 001/112] fix: compute Eulerian numbers exactly (float
 cancellation, eulerian(0, 0))

---
 copulae/special/special_func.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index 1754d3a..5a8d852 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -1,9 +1,9 @@
+import math
 from typing import Iterable, Optional, Union
 
 import numpy as np
 from scipy.stats import logistic as logis
 
-from copulae.special.combinatorics import comb
 from copulae.special.dilog import dilog, dilog_complex
 
 __all__ = ['eulerian', 'eulerian_all', 'log1mexp', 'log1pexp', 'log_sum', 'poly_log', 'polyn_eval', 'sign_ff',
@@ -41,16 +41,14 @@ def eulerian(n, k):
     assert 0 <= k <= n, "`k` must be in the range of [0, `n`]"
 
     if k == n:
-        return 0
+        return int(n == 0)
     if k == 0:
         return 1
     if k >= (n + 1) // 2:
         k = n - k - 1
-    k1 = k + 1
-    sig = np.ones(k1)
-    sig[1::2] *= -1
 
-    return int(round(sum(sig * comb(n + 1, np.arange(k + 1)) * np.arange(k1, 0, -1, np.float64) ** n)))
+    # alternating sum of huge terms, exact integer arithmetic is required
+    return sum((-1) ** i * math.comb(n + 1, i) * (k + 1 - i) ** n for i in range(k + 1))
 
 
 def eulerian_all(n):
-- 
2.43.0


From 605b307b2bc744f70b58004f649ee016d9dea934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:19 +0000
Subject: [PATCH 002/112] fix: log_sum of only -inf terms is -inf instead of
 NaN

---
 copulae/special/special_func.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index 5a8d852..0a1c7f0 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -148,7 +148,9 @@ def log_sum(log_x: np.ndarray, offset: Optional[Union[Iterable[float], float]] =
         offset = np.asarray(offset)
         assert len(offset) == log_x.shape[1], "Offset must match data dimensions"
 
-    res = offset + np.log(np.exp(log_x - offset).sum(0))
+    # a column with only -inf (log of 0) has no finite maximum to factor out
+    shift = np.where(np.isneginf(offset), 0, offset)
+    res = shift + np.log(np.exp(log_x - shift).sum(0))
     return res if len(res) > 1 else res[0]
 
 
-- 
2.43.0


From 1fcda91d76af5f1065a6fc51f216d901d6a8d18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:20 +0000
Subject: [PATCH 003/112] fix: poly_log of order 1 and 2 honour the scalar and
 log contracts

---
 copulae/special/special_func.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index 0a1c7f0..d118a53 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -187,7 +187,8 @@ def poly_log(z, s, method='default', log=False) -> Union[float, np.ndarray]:
     method = method.lower()
     assert method in ('default', 'neg-stirling', 'neg-eulerian')
     if s == 2 and method == 'default':
-        return dilog_complex(z) if np.any(np.iscomplex(z)) else dilog(z)
+        r = dilog_complex(z) if np.any(np.iscomplex(z)) else dilog(z)
+        return np.log(r) if log else r
 
     elif method == 'default':
         method = 'neg-stirling'
@@ -196,7 +197,8 @@ def poly_log(z, s, method='default', log=False) -> Union[float, np.ndarray]:
 
     if s == 1:
         r = -np.log1p(-z)
-        return np.log(r) if log else r
+        r = np.log(r) if log else r
+        return r.item(0) if r.size == 1 else r
 
     iz = 1 - z
     n = abs(int(s))
-- 
2.43.0


From d89798176e4e8b4e6da2c7f0c4d4a0083345d976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:20 +0000
Subject: [PATCH 004/112] fix: sign_ff accepts scalars and j > d at alpha = 1

---
 copulae/special/special_func.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index d118a53..a76d842 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -293,7 +293,7 @@ def sign_ff(alpha: float, j: Union[Iterable[int], int], d: Union[Iterable[int],
     assert np.all(j >= 0), "all elements in `j` must be >= 0"
 
     if d.ndim == 0 and j.ndim == 0:
-        d, j = int(d), int(j)
+        d, j = d.reshape(1), j.reshape(1)
     elif d.ndim == 0 and j.ndim > 0:
         d = np.repeat(d, len(j))
     elif j.ndim == 0 and d.ndim > 0:
@@ -305,9 +305,9 @@ def sign_ff(alpha: float, j: Union[Iterable[int], int], d: Union[Iterable[int],
             d = np.asarray([d[i % len(d)] for i in range(len(j))])
 
     if alpha == 1:
-        res = (j > d) * (-1) ** (d - j) + (j == d)
+        res = (j > d) * (-1) ** np.abs(d - j) + (j == d)
     else:
-        res = np.where(j > d, np.nan, 0)
+        res = np.where(j > d, np.nan, 0.)
         x = alpha * j
         ind = x != np.floor(x)
         res[ind] = (-1) ** (j[ind] - np.ceil(x[ind]))
-- 
2.43.0


From df8318a27685d02d9e1787055d35e2edf061ea2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:20 +0000
Subject: [PATCH 005/112] fix: dsum_sibuya honours log at alpha = 1 and
 recycles short vectors

---
 copulae/archimedean/auxiliary.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/copulae/archimedean/auxiliary.py b/copulae/archimedean/auxiliary.py
index 1c98bc9..50d8bf6 100644
--- a/copulae/archimedean/auxiliary.py
+++ b/copulae/archimedean/auxiliary.py
@@ -53,12 +53,13 @@ def dsum_sibuya(x, n, alpha: float, method='log', log=False):
     len_long = max(len_x, len_n)
     if len_x != len_n:
         if len_x < len_long:
-            x = np.repeat(x, len_long)
+            x = np.resize(x, len_long)
         else:
-            n = np.repeat(n, len_long)
+            n = np.resize(n, len_long)
 
     if alpha == 1:
-        return (x == n).astype(float)
+        p = (x == n).astype(float)
+        return np.log(p) if log else p
 
     method = method.lower()
     assert method in ('log', 'direct', 'diff')
-- 
2.43.0


From 3b67bd7f104b5c7eac3361fc6909732a4c12ecd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:22 +0000
Subject: [PATCH 006/112] fix: dsum_sibuya and gumbel_poly evaluate signs per
 summand and for a single summand

---
 copulae/archimedean/auxiliary.py | 3 +--
 copulae/archimedean/gumbel.py    | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/copulae/archimedean/auxiliary.py b/copulae/archimedean/auxiliary.py
index 50d8bf6..0cc8bba 100644
--- a/copulae/archimedean/auxiliary.py
+++ b/copulae/archimedean/auxiliary.py
@@ -66,7 +66,6 @@ def dsum_sibuya(x, n, alpha: float, method='log', log=False):
 
     s = np.zeros(len_long)
     if method == 'log':
-        signs = sign_ff(alpha, np.arange(np.max(n)) + 1, x)
 
         for i, xx, nn in zip(range(len_long), x, n):
             if xx < nn:
@@ -76,7 +75,7 @@ def dsum_sibuya(x, n, alpha: float, method='log', log=False):
             lxabs = comb(nn, js + 1, log=True) + comb(alpha * (js + 1), xx, log=True)
 
             offset = np.max(lxabs)
-            sum_ = np.sum(signs[js] * np.exp(lxabs - offset))
+            sum_ = np.sum(sign_ff(alpha, js + 1, xx) * np.exp(lxabs - offset))
             s[i] = np.log(sum_) + offset
 
         return s if log else np.exp(s)
diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index c38cbfa..aa79546 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -415,7 +415,7 @@ def _calculate_gumbel_poly(lx: np.ndarray, alpha: float, d: int, method: str, lo
 
         lxabs = llx + lppois + np.tile(labs_poch - lfac, (n, 1)).T + np.tile(x, (d, 1))
 
-        signs = sign_ff(alpha, k, d)
+        signs = np.atleast_1d(sign_ff(alpha, k, d))
         offset = np.max(lxabs, 0)
         sum_ = np.sum(signs[:, None] * np.exp(lxabs - offset[None, :]), 0)
         res = np.log(sum_) + offset
-- 
2.43.0


From 6b59dfa1a610b2fe8a5fe3e6475724c6b0d521b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:54 +0000
Subject: [PATCH 007/112] fix: gumbel coefficients overflow for d > 20 and
 polynomial method is chosen by alpha

---
 copulae/archimedean/gumbel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index aa79546..feca0d4 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -339,7 +339,7 @@ def gumbel_coef(d: int, alpha: float, method='sort', log=False) -> np.ndarray:
     else:
         method = 'direct' if method.startswith('ds.') else method
         ds = np.arange(d) + 1
-        ck = np.array([1, *np.cumprod(np.arange(d, 1, -1))])[::-1]
+        ck = np.array([1, *np.cumprod(np.arange(d, 1, -1, dtype=float))])[::-1]  # int64 overflows for d > 20
         if log:
             ck = np.log(ck)
         p = dsum_sibuya(d, ds, alpha, method, log)
@@ -439,7 +439,7 @@ def _get_poly_method(lx: float, alpha: float, d: int):  # pragma: no cover
     elif d <= 70:
         return 'direct' if alpha <= 0.7 else 'log'
     elif d <= 90:
-        if d <= 0.5:
+        if alpha <= 0.5:
             return 'direct'
         elif lx <= 4.08:
             return 'pois'
-- 
2.43.0


From ee397cc64d155a0e198b73a3e396e96e7213b1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:55 +0000
Subject: [PATCH 008/112] fix: vectorised special functions no longer overwrite
 their argument

---
 copulae/special/_specfunc.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/copulae/special/_specfunc.pyx b/copulae/special/_specfunc.pyx
index cbdceda..1361899 100644
--- a/copulae/special/_specfunc.pyx
+++ b/copulae/special/_specfunc.pyx
@@ -82,7 +82,7 @@ cdef:
 def clausen(x, bint threaded=True):
     x = np.asarray(x, float)
     cdef:
-        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
+        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.flatten()
         int n = arr.size
 
     if n == 1:
@@ -98,7 +98,7 @@ def clausen(x, bint threaded=True):
 def debye_1(x, bint threaded=True):
     x = np.asarray(x, float)
     cdef:
-        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
+        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.flatten()
         int n = arr.size
 
     if n == 1:
@@ -114,7 +114,7 @@ def debye_1(x, bint threaded=True):
 def debye_2(x, bint threaded=True):
     x = np.asarray(x, float)
     cdef:
-        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
+        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.flatten()
         int n = arr.size
 
     if n == 1:
@@ -130,7 +130,7 @@ def debye_2(x, bint threaded=True):
 def dilog(x, bint threaded):
     x = np.asarray(x, float)
     cdef:
-        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.ravel()
+        cnp.ndarray[cnp.npy_float64, ndim=1] arr = x.flatten()
         int n = arr.size
 
     if n == 1:
@@ -149,8 +149,8 @@ def dilog_complex(r, theta, bint threaded):
 
     cdef:
         ComplexResult c
-        cnp.ndarray[cnp.npy_float64, ndim=1] r_vec = r.ravel()
-        cnp.ndarray[cnp.npy_float64, ndim=1] i_vec = theta.ravel()
+        cnp.ndarray[cnp.npy_float64, ndim=1] r_vec = r.flatten()
+        cnp.ndarray[cnp.npy_float64, ndim=1] i_vec = theta.flatten()
         int n = r_vec.size
 
     assert r.shape == theta.shape, "Radius of complex vector must have same shape as the angled part"
-- 
2.43.0


From 89ff2032aa9875a5ca73ae0fa6ff6411b5518d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:38 +0000
Subject: [PATCH 009/112] fix: clausen reduces its argument modulo 2 pi
 correctly beyond one period

---
 copulae/special/_specfunc.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copulae/special/_specfunc.pyx b/copulae/special/_specfunc.pyx
index 1361899..6ae0a82 100644
--- a/copulae/special/_specfunc.pyx
+++ b/copulae/special/_specfunc.pyx
@@ -170,7 +170,8 @@ cdef double angle_restrict_pos_err(double theta) nogil:
     cdef:
         double two_pi = 2 * PI
         double y = 2 * cm.floor(theta / two_pi)
-        double r = theta - y * 2 * two_pi
+        # y * PI, with PI split in 3 parts so that no precision is lost in the reduction
+        double r = ((theta - y * 3.14159250259399414062) - y * 1.50995788317231927067e-07) - y * 1.07806057163162381058e-14
 
     if cm.fabs(theta) > 0.0625 / DBL_EPSILON:
         return cm.NAN
-- 
2.43.0


From b995276de24772ffa6def1c520c43503f3a7a7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:38 +0000
Subject: [PATCH 010/112] fix: polar dilog_complex uses the principal angle

---
 copulae/special/_specfunc.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copulae/special/_specfunc.pyx b/copulae/special/_specfunc.pyx
index 6ae0a82..20ef524 100644
--- a/copulae/special/_specfunc.pyx
+++ b/copulae/special/_specfunc.pyx
@@ -453,6 +453,8 @@ cdef ComplexResult _dilog_complex(double r, double theta) nogil:
 
         double ln_minusz_re, ln_minusz_im, lmz2_re, lmz2_im
 
+    theta = cm.atan2(y, x)  # the formulas below need the principal angle
+
     if cm.fabs(y) < 10 * DBL_EPSILON:
         c.real = _dilog(x)
         if x >= 1:
-- 
2.43.0


From ce98a4dddf98177abde5b625d756f8fdc775692d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:38 +0000
Subject: [PATCH 011/112] fix: log1mexp and log1pexp keep precision, do not
 overflow and take array-likes

---
 copulae/special/special_func.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/copulae/special/special_func.py b/copulae/special/special_func.py
index a76d842..33efa11 100644
--- a/copulae/special/special_func.py
+++ b/copulae/special/special_func.py
@@ -86,7 +86,9 @@ def log1mexp(x):
     array_like
         Results of :math:`\log(1 - e^{-x})`
     """
-    return np.log(1 - np.exp(-x))
+    x = np.asarray(x, float)
+    with np.errstate(all='ignore'):
+        return np.where(x <= np.log(2), np.log(-np.expm1(-x)), np.log1p(-np.exp(-x)))[()]
 
 
 def log1pexp(x):
@@ -103,7 +105,7 @@ def log1pexp(x):
     array_like
         Results of :math:`\log(1 - e^{-x})`
     """
-    return np.log(1 + np.exp(x))
+    return np.logaddexp(0, x)
 
 
 def log_sum(log_x: np.ndarray, offset: Optional[Union[Iterable[float], float]] = None) -> Union[np.ndarray, float]:
-- 
2.43.0


From 3c9cf5ebaf2aea007241bb8472d1ca9766e149f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:21 +0000
Subject: [PATCH 012/112] fix: ClaytonCopula constructor accepts the same
 parameters as the setter

---
 copulae/archimedean/clayton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index 4e6d950..788156b 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -35,7 +35,7 @@ class ClaytonCopula(AbstractArchimedeanCopula):
             Dimension of the copula
         """
         super().__init__(dim, theta, 'Clayton')
-        assert not (dim != 2 and theta < 0), 'Clayton Copula parameter must be >= 0 when dimension == 2'
+        self.params = theta  # validated as when it is set later on
 
         self._bounds = (-1 + EPS) if dim == 2 else 0, np.inf
 
-- 
2.43.0


From bdf41be83fb1a47efb205127e4bdd29affc076ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:36 +0000
Subject: [PATCH 013/112] fix: Clayton generators and their derivatives for
 zero and negative theta

---
 copulae/archimedean/clayton.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index 788156b..2cdaab3 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -47,10 +47,11 @@ class ClaytonCopula(AbstractArchimedeanCopula):
         s = 1 if log or degree % 2 == 0 else -1
         t = self.params
 
+        log_t = np.log(abs(t)) if t != 0 else 0.0  # the generator is -log(u) when theta is 0
         if degree == 1:
-            a = np.log(t) - (1 + t) * np.log(u)
+            a = log_t - (1 + t) * np.log(u)
         else:
-            a = np.log(t) + np.log1p(t) - (t + 2) * np.log(u)
+            a = log_t + np.log1p(t) - (t + 2) * np.log(u)
 
         return s * (a if log else np.exp(a))
 
@@ -75,7 +76,10 @@ class ClaytonCopula(AbstractArchimedeanCopula):
     @cast_input(['u'])
     @squeeze_output
     def ipsi(self, u: Array, log=False):
-        v = np.sign(self._theta) * (u ** -self._theta - 1)
+        if self._theta == 0:
+            v = -np.log(u)
+        else:
+            v = np.sign(self._theta) * np.expm1(-self._theta * np.log(u))
         return np.log(v) if log else v
 
     @cast_input(['tau'])
@@ -139,7 +143,11 @@ class ClaytonCopula(AbstractArchimedeanCopula):
     @cast_input(['s'])
     @squeeze_output
     def psi(self, s: Array):
-        return np.maximum(1 + np.sign(self._theta) * s, np.zeros_like(s)) ** (-1 / self._theta)
+        if self._theta == 0:
+            return np.exp(-s)
+        elif self._theta > 0:
+            return np.exp(-np.log1p(s) / self._theta)
+        return np.maximum(1 - s, 0.0) ** (-1 / self._theta)
 
     @cast_output
     def random(self, n: int, seed: int = None) -> np.ndarray:
-- 
2.43.0


From f4a2000baa4a80bae4f69a14b58c3a2c9a269749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:36 +0000
Subject: [PATCH 014/112] fix: Clayton pdf is 1 at theta = 0 and never a
 density outside the unit cube

---
 copulae/archimedean/clayton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index 2cdaab3..262f122 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -124,7 +124,7 @@ class ClaytonCopula(AbstractArchimedeanCopula):
             return log_pdf
         elif theta == 0:
             log_pdf[ok] = 0
-            return log_pdf
+            return log_pdf if log else np.exp(log_pdf)
 
         lu = np.log(u).sum(1)
         t = self.ipsi(u).sum(1)
@@ -137,6 +137,7 @@ class ClaytonCopula(AbstractArchimedeanCopula):
         else:
             p = np.log1p(theta * np.arange(1, d)).sum()
             log_pdf = p - (1 + theta) * lu - (d + 1 / theta) * np.log1p(t)
+            log_pdf[~ok] = np.nan
 
         return log_pdf if log else np.exp(log_pdf)
 
-- 
2.43.0


From 28691c8227de95240346bc1a3cd5a23f09dc8737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 015/112] fix: Gumbel dependence function A accepts scalars

---
 copulae/archimedean/gumbel.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index feca0d4..367dd70 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -71,8 +71,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
         """
         bnd = (w == 0) | (w == 1)
         r = (w ** self.params + (1 - w) ** self.params) ** (1 / self.params)
-        r[bnd] = 1
-        return r
+        return np.where(bnd, 1.0, r)
 
     @cast_input(['w'])
     @squeeze_output
-- 
2.43.0


From cf87cf0be40ea5ab7c0284d8cb62c24a31efb183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 016/112] fix: Gumbel dAdu raised on every input (xor instead
 of power, tuple result)

---
 copulae/archimedean/gumbel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index 367dd70..ecee7a0 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -102,7 +102,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
         expr4 = expr3 - 1
         expr5 = expr2 ** expr4
         expr6 = alpha - 1
-        expr7 = alpha * w ** expr6 - alpha * expr1 ^ expr6
+        expr7 = alpha * w ** expr6 - alpha * expr1 ** expr6
         expr8 = expr3 * expr7
         expr9 = expr6 - 1
         # value = expr4 ** expr5
@@ -112,7 +112,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
                alpha * expr3 * expr5 * expr6 * (w ** expr9 + expr1 ** expr9)
 
         if isinstance(grad, float) and isinstance(hess, float):
-            return grad, hess
+            return np.array([grad, hess])
         else:
             res = np.zeros((len(grad), 2))
             res[:, 0] = grad
-- 
2.43.0


From e47aca64bca48201472ea219914b55b5a411303b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 017/112] fix: Gumbel pdf under- and overflow (sum of
 exponentials offset by u instead of the exponents)

---
 copulae/archimedean/gumbel.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index ecee7a0..a5db744 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -147,8 +147,8 @@ class GumbelCopula(AbstractArchimedeanCopula):
     @cast_input(['u'])
     @squeeze_output
     def ipsi(self, u: Array, log=False):
-        v = (-np.log(u)) ** self.params
-        return np.log(v) if log else v
+        nlu = -np.log(u)
+        return self.params * np.log(nlu) if log else nlu ** self.params
 
     @cast_input(['tau'])
     @squeeze_output
@@ -202,12 +202,8 @@ class GumbelCopula(AbstractArchimedeanCopula):
         lip = self.ipsi(u, log=True)  # log ipsi u
 
         # get sum of logs
-        if u.ndim == 1:
-            offset = np.max(u)
-            ln = offset + np.log(np.exp(lip - offset).sum(1))
-        else:
-            offset = np.max(u, axis=1)
-            ln = offset + np.log(np.exp(lip - offset[:, None]).sum(1))
+        offset = np.max(lip, axis=1)
+        ln = offset + np.log(np.exp(lip - offset[:, None]).sum(1))
 
         alpha = 1 / self.params
         lx = alpha * ln
-- 
2.43.0


From 2f3fbd6c962b060e325da3d6f126f4340da5a3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 018/112] fix: Gumbel itau no longer overwrites the caller's
 array

---
 copulae/archimedean/gumbel.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index a5db744..6774dbf 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -154,15 +154,9 @@ class GumbelCopula(AbstractArchimedeanCopula):
     @squeeze_output
     def itau(self, tau):
         warning_message = "For the Gumbel copula, tau must be >= 0. Replacing negative values by 0."
-        if np.size(tau) == 1:
-            tau = float(tau)
-            if tau < 0:
-                warnings.warn(warning_message)
-                return 1
-        else:
-            if np.any(tau < 0):
-                warnings.warn(warning_message)
-                tau[tau < 0] = 0
+        if np.any(tau < 0):
+            warnings.warn(warning_message)
+            tau = np.maximum(tau, 0)
         return 1 / (1 - tau)
 
     def lambda_(self):
-- 
2.43.0


From a2c43c5cb09d79805db4057a0c3e901d1a33ea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 019/112] fix: Gumbel upper tail dependence is 2 - 2^(1/theta),
 exposed as a property

---
 copulae/archimedean/gumbel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index 6774dbf..5b43c00 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -159,8 +159,9 @@ class GumbelCopula(AbstractArchimedeanCopula):
             tau = np.maximum(tau, 0)
         return 1 / (1 - tau)
 
+    @property
     def lambda_(self):
-        return TailDep(0, 2 * 2 ** (1 / self.params))
+        return TailDep(0, 2 - 2 ** (1 / self.params))
 
     @property
     def params(self):
-- 
2.43.0


From 4ff436762df33fa824eb1e028df3894c66fa8966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 020/112] fix: Gaussian lambda_ is a property like every other
 copula's

---
 copulae/elliptical/gaussian.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index 7ea67f4..f466d28 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -57,6 +57,7 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     def irho(self, rho: Array):
         return np.sin(np.array(rho) * np.pi / 6) * 2
 
+    @property
     def lambda_(self):
         res = (self._rhos == 1).astype(float)
         return TailDep(res, res)
-- 
2.43.0


From 1e66022cc4b0ef492ef3c762bc2722778f3d4440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 021/112] fix: Student tail dependence divides by 1 + rho

---
 copulae/elliptical/student.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index 2e3b846..a045463 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -127,7 +127,7 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
         if np.isinf(df):
             res = (self._rhos == 1).astype(float)
         else:
-            res = 2 * t.cdf(- np.sqrt((df + 1) * (1 - rho)), df=df + 1)
+            res = 2 * t.cdf(- np.sqrt((df + 1) * (1 - rho) / (1 + rho)), df=df + 1)
 
         return TailDep(res, res)
 
-- 
2.43.0


From ae584cd6f378cfd8e6850795cb5ba270954a527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 022/112] fix: Frank ipsi for u <= 0.01 (result was dropped),
 for scalars and for theta = 0

---
 copulae/archimedean/frank.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 83a6a02..054d0a8 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -78,8 +78,11 @@ class FrankCopula(AbstractArchimedeanCopula):
     def ipsi(self, u, log=False):
         r = np.asarray(u) * self.params
 
-        res = np.copy(r)
-        res[np.isnan(r)] = np.nan
+        if self.params == 0:
+            res = -np.log(u)
+            return np.log(res) if log else res
+
+        res = np.full(r.shape, np.nan)
         em = np.expm1(-self.params)
 
         #  for small inputs, u <= 0.01
@@ -92,10 +95,10 @@ class FrankCopula(AbstractArchimedeanCopula):
 
         m1 = big_mask & mid_mask
         m2 = big_mask & ~mid_mask
-        r[m1] = -np.log1p(e * np.expm1((self.params - r[m1])) / em)
-        r[m2] = -np.log1p((np.exp(-r[m2]) - e) / em)
+        res[m1] = -np.log1p(e * np.expm1((self.params - r[m1])) / em)
+        res[m2] = -np.log1p((np.exp(-r[m2]) - e) / em)
 
-        return np.log(r) if log else r
+        return np.log(res) if log else res
 
     def irho(self, rho: Array):  # pragma: no cover
         # TODO frank: add inverse rho
-- 
2.43.0


From 068651c93debecd894750e593677e475c598735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 023/112] fix: Frank dipsi at theta = 0

---
 copulae/archimedean/frank.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 054d0a8..5180d61 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -52,7 +52,9 @@ class FrankCopula(AbstractArchimedeanCopula):
         s = 1 if log or degree % 2 == 0 else -1
 
         ut = u * self.params
-        if degree == 1:
+        if self.params == 0:  # generator is -log(u)
+            v = u ** -float(degree)
+        elif degree == 1:
             v = self.params / np.expm1(ut)
         else:
             v = (self.params ** 2 * np.exp(ut)) / np.expm1(ut) ** 2
-- 
2.43.0


From 572eb35f5fbd7f88754710f4bb93cc64576ef6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 024/112] fix: Frank dtau and drho are the derivatives of tau
 and rho

---
 copulae/archimedean/frank.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 5180d61..fd23779 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -66,14 +66,20 @@ class FrankCopula(AbstractArchimedeanCopula):
     def drho(self, x=None):  # pragma: no cover
         if x is None:
             x = self.params
-        return 12 * (x / np.expm1(x) - 3 * debye1(x) + 2 * debye1(x)) / x ** 2
+        x = np.asarray(x, float)
+        d1, d2 = np.reshape(debye1(x), x.shape), np.reshape(debye2(x), x.shape)
+        res = 12 * (x / np.expm1(x) - 3 * d2 + 2 * d1) / x ** 2
+        return np.where(np.abs(x) < 1e-3, (1 - x ** 2 / 25) / 6, res)
 
     @cast_input(['x'], optional=True)
     @squeeze_output
     def dtau(self, x=None):  # pragma: no cover
         if x is None:
             x = self.params
-        return (x / np.expm1(x) + 1 - debye1(x) / x) * (2 / x) ** 2
+        x = np.asarray(x, float)
+        d1 = np.reshape(debye1(x), x.shape)
+        res = (x / np.expm1(x) + 1 - 2 * d1) * (2 / x) ** 2
+        return np.where(np.abs(x) < 1e-3, (1 - x ** 2 * 3 / 100) / 9, res)
 
     @cast_input(['u'], optional=True)
     @squeeze_output
-- 
2.43.0


From be3e9649c345f45eea78438d70f19fa23d941c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 025/112] fix: Frank psi no longer overwrites its argument and
 takes integers and scalars

---
 copulae/archimedean/frank.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index fd23779..0c75fdf 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -175,11 +175,7 @@ class FrankCopula(AbstractArchimedeanCopula):
             return np.exp(-s)
         else:
             const = log1mexp(self.params)
-            m = np.less(s, const, where=~np.isnan(s))
-
-            s[m] = np.nan
-            s[~m] = -log1mexp(s[~m] - log1mexp(self.params)) / self.params
-            return s
+            return np.where(s < const, np.nan, -log1mexp(s - const) / self.params)
 
     @cast_output
     def random(self, n: int, seed: int = None):
-- 
2.43.0


From 1860c61a8491aced2e2d0323fa591f7159534bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 026/112] fix: Frank pdf for theta <= 0 and for strong
 dependence (1 - z lost to rounding)

---
 copulae/archimedean/frank.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 0c75fdf..8a57a06 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -1,11 +1,12 @@
 from typing import Literal
 
 import numpy as np
+from scipy.special import logsumexp
 
 from copulae.copula import Summary, TailDep
 from copulae.special.debye import debye_1, debye_2
 from copulae.special.optimize import find_root
-from copulae.special.special_func import log1mexp, log1pexp, poly_log
+from copulae.special.special_func import log1mexp, log1pexp, stirling_second_all
 from copulae.stats import random_uniform
 from copulae.stats.log import random_log_series_ln1p
 from copulae.types import Array
@@ -149,13 +150,23 @@ class FrankCopula(AbstractArchimedeanCopula):
         res = np.repeat(np.nan, n)
 
         u_ = u[ok]
+        if theta == 0:
+            res[ok] = 0
+            return res if log else np.exp(res)
+        elif theta < 0:  # dim == 2, the density at -theta of (1 - u1, u2)
+            theta = -theta
+            u_ = np.column_stack([1 - u_[:, 0], u_[:, 1]])
+
         u_sum = u_.sum(1)
         lp = log1mexp(theta)
         lpu = log1mexp(theta * u_)
         lu = lpu.sum(1)
 
-        li_arg = np.exp(lp + (lpu - lp).sum(1))
-        li = poly_log(li_arg, 1 - d, log=True)
+        # log of the polylogarithm of order 1 - d at exp(log_z), as a polynomial in z / (1 - z)
+        log_z = lp + (lpu - lp).sum(1)
+        coef = np.log(np.cumprod([1., *range(1, d)])) + np.log(np.array(stirling_second_all(d), float))
+        terms = coef[:, None] + np.arange(1, d + 1)[:, None] * (log_z - log1mexp(-log_z))
+        li = logsumexp(terms, axis=0)
 
         res[ok] = (d - 1) * np.log(theta) + li - theta * u_sum - lu
 
-- 
2.43.0


From 1bef79381f2faf3859ac72d4bec0360a0dc301a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:04 +0000
Subject: [PATCH 027/112] fix: Frank itau failed to converge and tau, rho lost
 all precision for weak dependence

---
 copulae/archimedean/frank.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 8a57a06..e0bc534 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -116,12 +116,12 @@ class FrankCopula(AbstractArchimedeanCopula):
     @cast_input(['tau'])
     @squeeze_output
     def itau(self, tau):
+        # tau(theta) >= 1 - 4 / theta bounds theta by 4 / (1 - tau)
         res = np.array([find_root(lambda x: self._tau(x) - t,
-                                  2.2e-16 if t > 0 else -1e20,
-                                  1e20 if t > 0 else -2.2e-16) for t in tau.ravel()])
-        res = res.reshape(tau.shape)
-        res[tau == 0] = tau[tau == 0]
-        return res
+                                  0 if t > 0 else max(-4 / (1 + t), -1e20) if t > -1 else -1e20,
+                                  0 if t <= 0 else min(4 / (1 - t), 1e20) if t < 1 else 1e20)
+                        if t != 0 else 0. for t in np.ravel(tau)])
+        return res.reshape(np.shape(tau))
 
     @property
     def lambda_(self):  # pragma: no cover
@@ -225,15 +225,17 @@ class FrankCopula(AbstractArchimedeanCopula):
 
     @staticmethod
     def _rho(theta):
-        if np.isclose(theta, 0):
-            return theta / 6
+        if abs(theta) < 1e-3:  # avoid catastrophic cancellation
+            return theta / 6 - theta ** 3 / 450
         return 1 + 12 / theta * (debye2(theta) - debye1(theta))
 
     @staticmethod
     def _tau(theta):
         theta = np.asarray(theta)
         if theta.size == 1:
-            theta = float(theta)
+            theta = theta.item()
+        if np.ndim(theta) == 0 and abs(theta) < 1e-3:  # avoid catastrophic cancellation
+            return theta / 9 - theta ** 3 / 900
         return 1 + 4 * (debye1(theta) - 1) / theta
 
 
-- 
2.43.0


From 3450176b1c0726d8457b284ab3483248554d768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 028/112] fix: Frank ipsi lost all precision for strong
 negative dependence

---
 copulae/archimedean/frank.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index e0bc534..276524b 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -90,6 +90,9 @@ class FrankCopula(AbstractArchimedeanCopula):
         if self.params == 0:
             res = -np.log(u)
             return np.log(res) if log else res
+        elif self.params < 0:
+            res = r - self.params + log1mexp(-self.params) - log1mexp(-r)
+            return np.log(res) if log else res
 
         res = np.full(r.shape, np.nan)
         em = np.expm1(-self.params)
-- 
2.43.0


From 70441ae6fa4b3c5f96d293730c257076b91338b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:55 +0000
Subject: [PATCH 029/112] fix: cast_input also casts keyword arguments

---
 copulae/utility/annotations/reshape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/utility/annotations/reshape.py b/copulae/utility/annotations/reshape.py
index 7b7db12..28a02b6 100644
--- a/copulae/utility/annotations/reshape.py
+++ b/copulae/utility/annotations/reshape.py
@@ -32,7 +32,7 @@ class cast_input:
                 args[i] = self.cast(a, arg_name)
 
         for arg_name, a in kwargs.items():
-            if arg_name is self.arguments:
+            if arg_name in self.arguments:
                 kwargs[arg_name] = self.cast(a, arg_name)
 
         return method(*args, **kwargs)
-- 
2.43.0


From bcd21883bd9f6a2c37a2b802a9b0e2e41f7c9b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:55 +0000
Subject: [PATCH 030/112] fix: cdf and pdf accept their data as a keyword
 argument

---
 copulae/utility/annotations/reshape.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/copulae/utility/annotations/reshape.py b/copulae/utility/annotations/reshape.py
index 28a02b6..1028f26 100644
--- a/copulae/utility/annotations/reshape.py
+++ b/copulae/utility/annotations/reshape.py
@@ -67,8 +67,13 @@ def shape_first_input_to_cop_dim(method, instance: BaseCopula, args, kwargs):
     As a side effect, also reorders the DataFrame or Series input if the fitted data was a DataFrame.
     With a fitted DataFrame, the _column will be present to allow for ordering
     """
-    x = args[0]
     args = list(args)
+    if len(args) == 0:  # first input was given as a keyword
+        first = getfullargspec(method).args[1]
+        if first not in kwargs:
+            raise TypeError(f"missing a required argument: '{first}'")
+        args.append(kwargs.pop(first))
+    x = args[0]
 
     columns = getattr(instance, "_columns", None)
     if isinstance(x, pd.Series):
-- 
2.43.0


From 38cb7a140cd038d12e99d287e34f6646a6b90d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 031/112] fix: Gaussian cdf is 0 (not NaN) at zero coordinates
 and defined for singular correlations

---
 copulae/elliptical/gaussian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index f466d28..735dea9 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -48,9 +48,9 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     @shape_first_input_to_cop_dim
     @squeeze_output
     def cdf(self, x: np.ndarray, log=False):
-        q = norm.ppf(x)
-        sigma = self.sigma
-        return mvn.logcdf(q, cov=sigma) if log else mvn.cdf(q, cov=sigma)
+        res = np.atleast_1d(mvn.cdf(norm.ppf(x), cov=self.sigma, allow_singular=True))
+        res[np.any(np.asarray(x) == 0, axis=1)] = 0  # the bivariate routine gives NaN there
+        return np.log(res) if log else res
 
     @cast_input(['rho'])
     @squeeze_output
-- 
2.43.0


From 4d1fb4bfb96a82d2989acefcd0257669aea1a386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:14 +0000
Subject: [PATCH 032/112] fix: multivariate t log density underflowed in the
 tails and needed memory quadratic in the rows

---
 copulae/stats/_multivariate_t.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/copulae/stats/_multivariate_t.py b/copulae/stats/_multivariate_t.py
index 228e058..c6e21d4 100644
--- a/copulae/stats/_multivariate_t.py
+++ b/copulae/stats/_multivariate_t.py
@@ -3,7 +3,7 @@ from typing import Optional
 
 import numpy as np
 import numpy.linalg as la
-from scipy.special import beta, gamma
+from scipy.special import gammaln
 from scipy.stats import multivariate_normal as mvn
 
 from copulae.core import is_psd
@@ -76,7 +76,19 @@ class multivariate_t:
         pdf: ndarray or scalar
             Log of probability density function evaluated at `x`
         """
-        return np.log(cls.pdf(x, mean, cov, df))
+        dim, mean, cov, df = cls._process_parameters(None, mean, cov, df)
+        x = cls._process_input(x, dim)
+
+        if df > cls._T_LIMIT:  # beyond the limit, just assume to be normal
+            return mvn.logpdf(x, mean=mean, cov=cov)
+
+        # multivariate t distribution from https://en.wikipedia.org/wiki/Multivariate_t-distribution
+        # on the log scale throughout, large degrees of freedom or far tails would over- or underflow otherwise
+        a = gammaln((dim + df) / 2) - gammaln(df / 2) - dim / 2 * np.log(df * np.pi) - la.slogdet(cov)[1] / 2
+
+        x_us = x - mean  # difference between x and mu (mean)
+        q = np.einsum('...i,ij,...j->...', x_us, la.inv(cov), x_us)
+        return a - (dim + df) / 2 * np.log1p(q / df)
 
     @classmethod
     def pdf(cls, x: Numeric, mean: Numeric = None, cov: Numeric = 1, df: float = None):
@@ -101,21 +113,7 @@ class multivariate_t:
         pdf: ndarray or scalar
             Probability density function evaluated at `x`
         """
-        dim, mean, cov, df = cls._process_parameters(None, mean, cov, df)
-        x = cls._process_input(x, dim)
-
-        if df > cls._T_LIMIT:  # if greater than 500, just assume to be normal
-            return mvn.pdf(x, mean=mean, cov=cov)
-
-        # multivariate t distribution from https://en.wikipedia.org/wiki/Multivariate_t-distribution
-        # break into 3 portions, we use beta function to avoid some amount of numeric overflow
-        a = gamma(dim / 2)
-        b = beta(df / 2, dim / 2) * ((df * np.pi) ** (dim / 2)) * (la.det(cov) ** 0.5)
-
-        x_us = x - mean  # difference between x and mu (mean)
-        c = np.diag(1 + (x_us @ la.inv(cov) @ x_us.T) / df) ** ((dim + df) / 2)
-
-        return a / (b * c)
+        return np.exp(cls.logpdf(x, mean, cov, df))
 
     @classmethod
     def rvs(cls, mean: OptNumeric = None, cov: Numeric = 1, df: float = None, size: Numeric = 1, type_='shifted',
-- 
2.43.0


From 0486539948c3094ed81e1bd80d0f029e2887afb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:41 +0000
Subject: [PATCH 033/112] fix: Gaussian mixture log cdf and log pdf are the log
 of the mixture

---
 copulae/mixtures/gmc/gmc.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index 541b46d..c6c6ac9 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -2,6 +2,7 @@ from typing import Collection, Literal, Optional, Union
 
 import numpy as np
 import pandas as pd
+from scipy.special import logsumexp
 from scipy.stats import multivariate_normal as mvn
 
 from copulae.copula import BaseCopula
@@ -119,9 +120,12 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         if self.params is None:
             raise GMCNotFittedError
 
+        if log:
+            return self._log_mixture(mvn.logcdf, x)
+
         out = np.zeros(len(x))
         for prob, mean, cov in self.params:
-            out += prob * (mvn.logcdf(x, mean, cov) if log else mvn.cdf(x, mean, cov))
+            out += prob * mvn.cdf(x, mean, cov)
 
         return out
 
@@ -267,12 +271,20 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         if self.params is None:
             raise GMCNotFittedError
 
+        if log:
+            return self._log_mixture(mvn.logpdf, x)
+
         out = np.zeros(len(x))
         for prob, mean, cov in self.params:
-            out += prob * (mvn.logpdf(x, mean, cov) if log else mvn.pdf(x, mean, cov))
+            out += prob * mvn.pdf(x, mean, cov)
 
         return out
 
+    def _log_mixture(self, log_component, x):
+        """Log of the weighted sum of the components, given the log of each component"""
+        terms = [np.atleast_1d(log_component(x, mean, cov)) for _, mean, cov in self.params]
+        return logsumexp(terms, axis=0, b=np.reshape(self.params.prob, (-1, 1)))
+
     @cast_output
     def random(self, n: int, seed: int = None):
         """
-- 
2.43.0


From 804f8c35e9369240a3c8c6c5e5f01b41f65a5125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:52 +0000
Subject: [PATCH 034/112] fix: Frank pdf takes DataFrames for negative theta

---
 copulae/archimedean/frank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 276524b..77a84fe 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -152,7 +152,7 @@ class FrankCopula(AbstractArchimedeanCopula):
         ok = valid_rows_in_u(u)
         res = np.repeat(np.nan, n)
 
-        u_ = u[ok]
+        u_ = np.asarray(u)[ok]
         if theta == 0:
             res[ok] = 0
             return res if log else np.exp(res)
-- 
2.43.0


From a9358802d8fa78e5ced2bec56dc7af95167bae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:52 +0000
Subject: [PATCH 035/112] fix: empirical pdf evaluates the rows of a DataFrame,
 not its column labels

---
 copulae/empirical/empirical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/empirical/empirical.py b/copulae/empirical/empirical.py
index 9171d17..9541390 100644
--- a/copulae/empirical/empirical.py
+++ b/copulae/empirical/empirical.py
@@ -155,6 +155,7 @@ class EmpiricalCopula(BaseCopula[None]):
     def pdf(self, u: Array, log=False):
         assert self.smoothing == "beta", "Empirical Copula only has density (PDF) for 'beta' smoothing"
 
+        u = np.asarray(u)
         data_rank = rank_data(self.data, 1, self.ties)
         n = len(self.data)
 
-- 
2.43.0


From f546b3ec1d841aad3ecbd856827114db06e3f4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:24 +0000
Subject: [PATCH 036/112] fix: Gumbel pdf takes DataFrames in more than two
 dimensions

---
 copulae/archimedean/gumbel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index 5b43c00..ff856cb 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -197,6 +197,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
         lip = self.ipsi(u, log=True)  # log ipsi u
 
         # get sum of logs
+        lip = np.asarray(lip)
         offset = np.max(lip, axis=1)
         ln = offset + np.log(np.exp(lip - offset[:, None]).sum(1))
 
-- 
2.43.0


From 6f891c557caed42c00dffa11052fce11df3684fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:17 +0000
Subject: [PATCH 037/112] fix: empirical distribution function takes read-only
 arrays

---
 copulae/empirical/distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/empirical/distribution.py b/copulae/empirical/distribution.py
index 93515d1..73c9ec5 100644
--- a/copulae/empirical/distribution.py
+++ b/copulae/empirical/distribution.py
@@ -32,8 +32,8 @@ def emp_dist_func(x: np.ndarray, y: np.ndarray, smoothing: Optional[str] = "none
     ndarray
         Computes the CDF of the empirical copula
     """
-    x = np.asarray(x, float)
-    y = np.asarray(y, float)
+    x = np.array(x, float)  # copies, the compiled part needs writable buffers
+    y = np.array(y, float)
     smoothing = _map_smoothing(smoothing)
     offset = _validate_offset(offset)
 
-- 
2.43.0


From 718218f8b3f6781742005c3c13d8e918f4b53f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:42 +0000
Subject: [PATCH 038/112] fix: copula with marginals truncated the marginal
 levels of integer input

---
 copulae/marginal/marginal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/marginal/marginal.py b/copulae/marginal/marginal.py
index 3f71091..0f6cd93 100644
--- a/copulae/marginal/marginal.py
+++ b/copulae/marginal/marginal.py
@@ -94,7 +94,7 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
     @squeeze_output
     def cdf(self, x: Array, log=False) -> Union[np.ndarray, float]:
         x = self._check_x_input(x)
-        u = np.empty_like(x)
+        u = np.empty(x.shape)
         for i, m in enumerate(self._marginals):
             u[:, i] = m.cdf(x[:, i])
 
@@ -131,7 +131,7 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
     @squeeze_output
     def pdf(self, x: Array, log=False) -> Union[np.ndarray, float]:
         x = self._check_x_input(x)
-        u = np.empty_like(x)
+        u = np.empty(x.shape)
         density_margin = 0 if log else 1
 
         for i, m in enumerate(self._marginals):
-- 
2.43.0


From cd1c415789a420de3f5271c541c27dddd551ef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:23 +0000
Subject: [PATCH 039/112] fix: a rejected edit of an elliptical copula leaves
 it unchanged, NaN is rejected, integer matrices are not kept as integers

---
 copulae/elliptical/abstract.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/copulae/elliptical/abstract.py b/copulae/elliptical/abstract.py
index 802308f..017cbb8 100644
--- a/copulae/elliptical/abstract.py
+++ b/copulae/elliptical/abstract.py
@@ -81,10 +81,10 @@ class AbstractEllipticalCopula(BaseCopula[Param], ABC):
         d = self.dim
 
         if np.isscalar(value):
-            if value < -1 or value > 1:
+            if not -1 <= value <= 1:
                 raise ValueError("correlation value must be between -1 and 1")
         else:
-            value = np.asarray(value)
+            value = np.asarray(value, dtype=float)
             if not np.all((value >= -1 - EPS) & (value <= 1 + EPS)):
                 raise ValueError("correlation value must be between -1 and 1")
 
@@ -95,8 +95,9 @@ class AbstractEllipticalCopula(BaseCopula[Param], ABC):
             self._rhos = value[tri_indices(d, 1, 'lower')]
             return
 
+        rhos = self._rhos.copy()  # the edit only takes effect when all of it is valid
         if isinstance(index, int):
-            self._rhos[index] = value
+            rhos[index] = value
 
         else:
             index = tuple(index)
@@ -120,20 +121,20 @@ class AbstractEllipticalCopula(BaseCopula[Param], ABC):
                         continue
 
                     idx = _get_rho_index(d, idx)
-                    self._rhos[idx] = v
+                    rhos[idx] = v
             else:
                 # both are integers
                 idx = _get_rho_index(d, index)
-                self._rhos[idx] = float(value)
+                rhos[idx] = float(value)
 
-        self._force_psd()
+        self._force_psd(rhos)
 
-    def _force_psd(self):
+    def _force_psd(self, rhos: np.ndarray):
         """
         Forces covariance matrix to be positive semi-definite. This is useful when user is overwriting covariance
         parameters
         """
-        cov = near_psd(self.sigma)
+        cov = near_psd(create_cov_matrix(rhos))
         self._rhos = cov[tri_indices(self.dim, 1, 'lower')]
 
 
-- 
2.43.0


From 42be7f49a718e346723c180ed6952402e538a695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:47 +0000
Subject: [PATCH 040/112] fix: elliptical copulas validate and copy their
 parameters on every route

---
 copulae/copula/estimator/corr_inversion.py |  2 +-
 copulae/elliptical/abstract.py             | 12 ++++++++++++
 copulae/elliptical/gaussian.py             |  6 +++---
 copulae/elliptical/student.py              | 21 ++++++++++++---------
 4 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/copulae/copula/estimator/corr_inversion.py b/copulae/copula/estimator/corr_inversion.py
index 1536e65..2621b85 100644
--- a/copulae/copula/estimator/corr_inversion.py
+++ b/copulae/copula/estimator/corr_inversion.py
@@ -37,7 +37,7 @@ def estimate_corr_inverse_params(copula, data: np.ndarray, type_: Literal['itau'
             # itau and irho must fix degree of freedom
             copula.params = StudentParams(copula.params.df, estimate)
         else:
-            copula.params[:] = estimate
+            copula.params = estimate
 
     elif is_archimedean(copula):
         estimate = copula.params = np.mean(icor)
diff --git a/copulae/elliptical/abstract.py b/copulae/elliptical/abstract.py
index 017cbb8..fa4b023 100644
--- a/copulae/elliptical/abstract.py
+++ b/copulae/elliptical/abstract.py
@@ -129,6 +129,18 @@ class AbstractEllipticalCopula(BaseCopula[Param], ABC):
 
         self._force_psd(rhos)
 
+    def _validated_rhos(self, rhos) -> np.ndarray:
+        """Copy of the correlation parameters, provided that they form a correlation matrix"""
+        rhos = np.array(rhos, dtype=float).ravel()
+        n = sum(range(self.dim))
+        if len(rhos) != n:
+            raise ValueError(f'expected {n} correlation parameters for a copula of dimension {self.dim}')
+        if not np.all(np.abs(rhos) <= 1 + EPS):
+            raise ValueError('correlation value must be between -1 and 1')
+        if not is_psd(create_cov_matrix(rhos), tol=1e-8):
+            raise ValueError('correlation matrix must be positive semi-definite')
+        return rhos
+
     def _force_psd(self, rhos: np.ndarray):
         """
         Forces covariance matrix to be positive semi-definite. This is useful when user is overwriting covariance
diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index 735dea9..2362664 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -65,13 +65,13 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     @property
     def params(self):
         """The covariance parameters for the Gaussian copula"""
-        return self._rhos
+        return self._rhos.copy()
 
     @params.setter
     def params(self, params: Union[float, np.ndarray, Collection[float]]):
-        if isinstance(params, (float, int)):
+        if np.ndim(params) == 0:
             params = np.repeat(params, len(self._rhos))
-        self._rhos = np.asarray(params)
+        self._rhos = self._validated_rhos(params)
 
     @validate_data_dim({"u": [1, 2]})
     @shape_first_input_to_cop_dim
diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index a045463..9dac4ca 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -46,7 +46,7 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
         super().__init__(dim, 'Student')
 
         n = sum(range(dim))
-        self._df = df
+        self._df = self._validated_df(df)
         self._rhos = np.zeros(n)
 
         eps = 1e-6
@@ -147,24 +147,27 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
             corr: ndarray
                 Correlation parameters
         """
-        return StudentParams(self._df, self._rhos)
+        return StudentParams(self._df, self._rhos.copy())
 
     @params.setter
     def params(self, params: Union[np.ndarray, StudentParams]):
         if isinstance(params, StudentParams):
-            self._df = params.df
-            self._rhos = params.rho
+            df, rhos = params
         else:
             params = np.asarray(params)
             if len(params) != 1 + sum(range(self.dim)):
                 raise ValueError('Incompatible parameters for student copula')
 
-            df = params[0]
-            if df <= 0:
-                raise ValueError('Degrees of freedom must be greater than 0')
+            df, rhos = params[0], params[1:]
 
-            self._df = df
-            self._rhos = params[1:]
+        df, rhos = self._validated_df(df), self._validated_rhos(rhos)
+        self._df, self._rhos = df, rhos
+
+    @staticmethod
+    def _validated_df(df):
+        if not df > 0:
+            raise ValueError('Degrees of freedom must be greater than 0')
+        return df
 
     @validate_data_dim({"u": [1, 2]})
     @shape_first_input_to_cop_dim
-- 
2.43.0


From cedeb1bb4b6ac0f9b479945a1fda7cf8b81216c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:29 +0000
Subject: [PATCH 041/112] fix: Student summary omitted degrees of freedom
 assigned from an integer array

---
 copulae/elliptical/student.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index 9dac4ca..2f3fdc4 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -167,7 +167,7 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
     def _validated_df(df):
         if not df > 0:
             raise ValueError('Degrees of freedom must be greater than 0')
-        return df
+        return float(df)
 
     @validate_data_dim({"u": [1, 2]})
     @shape_first_input_to_cop_dim
-- 
2.43.0


From 81dfa0f3a9e7082ce4d9157c4bb54e23e528b834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:35 +0000
Subject: [PATCH 042/112] fix: merge_dict and merge_dicts no longer modify
 their first argument

---
 copulae/utility/dict.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/copulae/utility/dict.py b/copulae/utility/dict.py
index 5637b38..b20d67e 100644
--- a/copulae/utility/dict.py
+++ b/copulae/utility/dict.py
@@ -21,15 +21,15 @@ def merge_dict(a: dict, b: dict) -> dict:
     dict
         Merged dictionary
     """
-    for key in b:
-        if key in a:
-            if isinstance(a[key], dict) and isinstance(b[key], dict):
-                a[key] = merge_dict(a[key], b[key])
-            else:
-                a[key] = b[key]
+    # nested dictionaries are copied so that the result never shares a dictionary with its arguments
+    res = {k: merge_dict(v, {}) if isinstance(v, dict) else v for k, v in a.items()}
+    for key, value in b.items():
+        if isinstance(value, dict):
+            old = res.get(key)
+            res[key] = merge_dict(old if isinstance(old, dict) else {}, value)
         else:
-            a[key] = b[key]
-    return a
+            res[key] = value
+    return res
 
 
 def merge_dicts(*dicts: dict) -> dict:
@@ -61,9 +61,6 @@ def merge_dicts(*dicts: dict) -> dict:
     """
 
     a = dicts[0]
-    if len(dicts) == 1:
-        return dicts[0]
-
     for b in dicts:
         a = merge_dict(a, b)
     return a
-- 
2.43.0


From 57ae9253173a880b5004e8e63ec6688ba8e3d9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:35 +0000
Subject: [PATCH 043/112] fix: fitting no longer writes the chosen method into
 the caller's optim_options

---
 copulae/copula/estimator/estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/estimator.py b/copulae/copula/estimator/estimator.py
index e74545b..403bc95 100644
--- a/copulae/copula/estimator/estimator.py
+++ b/copulae/copula/estimator/estimator.py
@@ -83,7 +83,7 @@ def fit_copula(copula: Copula, data: Union[pd.DataFrame, np.ndarray],
     --------
     :code:`scipy.optimize.minimize`: the optimization function
     """
-    options = form_options(optim_options or {}, verbose, data, copula)
+    options = form_options(merge_dict(optim_options or {}, {}), verbose, data, copula)
     if not isinstance(data, np.ndarray):
         data = np.asarray(data)
 
-- 
2.43.0


From b3c7dc7dfc9f8b1a174815723c79f5ee6f8881ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:35 +0000
Subject: [PATCH 044/112] fix: log likelihood in the fit summary does not
 depend on the scale of the objective

---
 copulae/copula/estimator/max_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/max_likelihood.py b/copulae/copula/estimator/max_likelihood.py
index 9ae5d15..8bab675 100644
--- a/copulae/copula/estimator/max_likelihood.py
+++ b/copulae/copula/estimator/max_likelihood.py
@@ -65,4 +65,4 @@ def estimate_max_likelihood_params(copula, data: np.ndarray, x0: Union[np.ndarra
         estimate = res['x']
         copula.params = estimate
 
-    return FitSummary(estimate, "Maximum likelihood", -res['fun'], len(data), optim_options, res)
+    return FitSummary(estimate, "Maximum likelihood", -res['fun'] / scale, len(data), optim_options, res)
-- 
2.43.0


From a49baaa30b62ca62298cf6d09fd60b2be14bb168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:35 +0000
Subject: [PATCH 045/112] fix: summary of a fit by correlation inversion
 reports the log likelihood of the fitted data

---
 copulae/copula/estimator/corr_inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/corr_inversion.py b/copulae/copula/estimator/corr_inversion.py
index 2621b85..41e3b94 100644
--- a/copulae/copula/estimator/corr_inversion.py
+++ b/copulae/copula/estimator/corr_inversion.py
@@ -45,7 +45,7 @@ def estimate_corr_inverse_params(copula, data: np.ndarray, type_: Literal['itau'
         raise NotImplementedError(f"Have not developed for '{copula.name} copula'")
 
     method = f"Inversion of {'Spearman Rho' if type_ == 'irho' else 'Kendall Tau'} Correlation"
-    return FitSummary(estimate, method, copula.log_lik(data), len(data))
+    return FitSummary(estimate, method, copula.log_lik(data, to_pobs=False), len(data))
 
 
 def fit_cor(copula, data: np.ndarray, typ: str) -> np.ndarray:
-- 
2.43.0


From 7ffd21b102eb382fbff4ec6deb38bc9a2f27a125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:35 +0000
Subject: [PATCH 046/112] fix: fitting a DataFrame no longer prints its
 description at every verbosity

---
 copulae/copula/base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/copulae/copula/base.py b/copulae/copula/base.py
index aa5c40b..72234ab 100644
--- a/copulae/copula/base.py
+++ b/copulae/copula/base.py
@@ -135,7 +135,6 @@ class BaseCopula(ABC, Generic[Param]):
 
         if isinstance(data, pd.DataFrame):
             self._columns = list(data.columns)
-            print(data.describe())
 
         return self
 
-- 
2.43.0


From 76af9ed99c6525a1c7daa9dce2c7a57efd8e9088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:35 +0000
Subject: [PATCH 047/112] fix: Student fit with fixed df takes any
 optim_options, leaves them untouched and fixes df at its value before the fit

---
 copulae/elliptical/student.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index 2f3fdc4..beddc91 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -108,9 +108,11 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
         :code:`scipy.optimize.minimize`: the `scipy minimize <https://docs.scipy.org/doc/scipy/reference/generated/scipy.optimize.minimize.html#scipy.optimize.minimize>`_ function use for optimization
         """
         if fix_df:
-            if optim_options is None:
-                optim_options = {'constraints': []}
-            optim_options['constraints'].append({'type': 'eq', 'fun': lambda x: x[0] - self._df})  # df doesn't change
+            df = self._df  # the fit moves self._df around
+            optim_options = dict(optim_options or {})
+            constraints = optim_options.get('constraints', [])
+            constraints = list(constraints) if isinstance(constraints, (list, tuple)) else [constraints]
+            optim_options['constraints'] = [*constraints, {'type': 'eq', 'fun': lambda x: x[0] - df}]  # df doesn't change
 
         return super().fit(data, x0, method, optim_options, ties, verbose, to_pobs, scale)
 
-- 
2.43.0


From 2fa885750bbf7bf1190dd6f94ca4f7088710f3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:07 +0000
Subject: [PATCH 048/112] fix: trust-constr fits (its options were passed as
 arguments of minimize)

---
 copulae/copula/estimator/estimator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/copulae/copula/estimator/estimator.py b/copulae/copula/estimator/estimator.py
index 403bc95..ce8f228 100644
--- a/copulae/copula/estimator/estimator.py
+++ b/copulae/copula/estimator/estimator.py
@@ -202,9 +202,11 @@ def form_options(options: dict, verbose: int, data: np.ndarray, copula: Copula):
         }, options)
     elif method_is('trust-constr'):
         return merge_dict({
-            'maxiter': max_iter,
-            'disp': disp,
-            'bounds': bounds
+            'bounds': bounds,
+            'options': {
+                'maxiter': max_iter,
+                'disp': disp
+            }
         }, options)
     else:
         return options
-- 
2.43.0


From 8143e76524d7d2fb9b097deff77070a8ab4b374b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:37 +0000
Subject: [PATCH 049/112] fix: refitting on a plain array forgets the column
 labels of an earlier fit

---
 copulae/copula/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/copulae/copula/base.py b/copulae/copula/base.py
index 72234ab..14e3149 100644
--- a/copulae/copula/base.py
+++ b/copulae/copula/base.py
@@ -133,8 +133,7 @@ class BaseCopula(ABC, Generic[Param]):
         x0 = np.asarray(x0) if x0 is not None and not isinstance(x0, np.ndarray) and isinstance(x0, Collection) else x0
         self._fit_smry = fit_copula(self, data, x0, method, verbose, optim_options, scale)
 
-        if isinstance(data, pd.DataFrame):
-            self._columns = list(data.columns)
+        self._columns = list(data.columns) if isinstance(data, pd.DataFrame) else None
 
         return self
 
-- 
2.43.0


From efdf56f6be2d33466155d8131ebbd7c637f310d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:37 +0000
Subject: [PATCH 050/112] fix: a rejected fit leaves a copula with marginals
 unchanged and refitting forgets old column labels

---
 copulae/marginal/marginal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/copulae/marginal/marginal.py b/copulae/marginal/marginal.py
index 0f6cd93..9a67e08 100644
--- a/copulae/marginal/marginal.py
+++ b/copulae/marginal/marginal.py
@@ -102,8 +102,7 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
 
     def fit(self, data: Union[pd.DataFrame, np.ndarray], x0: Union[Collection[float], np.ndarray] = None, method='ml',
             verbose=1, optim_options: dict = None, ties='average', to_pobs=True, scale=1.0):
-        if isinstance(data, pd.DataFrame):
-            self._columns = list(data.columns)
+        columns = list(data.columns) if isinstance(data, pd.DataFrame) else None
 
         data = np.asarray(data)
         if data.ndim != 2:
@@ -111,12 +110,13 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
         elif self.dim != data.shape[1]:
             raise InputDataError('Dimension of data does not match copula')
 
-        for i, m in enumerate(self._marginals):
-            self._marginals[i] = m.dist(*m.dist.fit(data[:, i]))
+        marginals = [m.dist(*m.dist.fit(data[:, i])) for i, m in enumerate(self._marginals)]
 
         # writing it as such to get past the type-hints flags
         self._copula.fit(data, x0, method, optim_options, ties, verbose, to_pobs, scale)
         self._fit_smry = self._copula._fit_smry
+        self._marginals = marginals
+        self._columns = columns
         return self
 
     @property
-- 
2.43.0


From a65321482f1429ef02087e91745b60ef99e8f1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:12 +0000
Subject: [PATCH 051/112] fix: drawing from a copula with marginals whose inner
 copula was fitted to a DataFrame

---
 copulae/marginal/marginal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/marginal/marginal.py b/copulae/marginal/marginal.py
index 9a67e08..2d42580 100644
--- a/copulae/marginal/marginal.py
+++ b/copulae/marginal/marginal.py
@@ -147,7 +147,7 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
 
     @cast_output
     def random(self, n: int, seed: int = None) -> Union[np.ndarray, float]:
-        u = self._copula.random(n, seed)
+        u = np.asarray(self._copula.random(n, seed))  # a labelled inner copula draws a DataFrame
         x = np.empty_like(u)
         for i, m in enumerate(self._marginals):
             x[:, i] = m.ppf(u[:, i])
-- 
2.43.0


From 2dda7552bec25a319b48ee67a9b4f1618448ff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:12 +0000
Subject: [PATCH 052/112] fix: a rejected mixture fit leaves the copula
 unchanged, labels follow the fitted frame, dictionary parameters are checked

---
 copulae/mixtures/gmc/gmc.py | 51 +++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index c6c6ac9..be04c65 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -6,6 +6,7 @@ from scipy.special import logsumexp
 from scipy.stats import multivariate_normal as mvn
 
 from copulae.copula import BaseCopula
+from copulae.copula.exceptions import InputDataError
 from copulae.core import pseudo_obs
 from copulae.types import Array, Ties
 from copulae.utility.annotations import *
@@ -191,29 +192,33 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         :code:`scipy.optimize.minimize`: the `scipy minimize <https://docs.scipy.org/doc/scipy/reference/generated/scipy.optimize.minimize.html#scipy.optimize.minimize>`_ function use for optimization
         """
         method = method.lower()
+        if method not in ('pem', 'sgd', 'kmeans'):
+            raise GMCFitMethodError(f"Invalid method: {method}. Use one of (kmeans, pem, sgd)")
 
-        if x0 is None:
-            self._fit_smry = k_means(data, self.clusters, self.dim)
-            self.params = self._fit_smry.best_params
-        elif isinstance(x0, GMCParam):
-            self.params = x0
+        columns = list(data.columns) if isinstance(data, pd.DataFrame) else None
+        data = np.asarray(data)
+        if data.ndim != 2:
+            raise InputDataError('Data must be a matrix of dimension (n x d)')
+        elif self.dim != data.shape[1]:
+            raise InputDataError('Dimension of data does not match copula')
+
+        # the copula is only changed once the fit succeeded
+        if x0 is None or method == 'kmeans':
+            fit_smry = k_means(data, self.clusters, self.dim)
+            start = fit_smry.best_params
         else:
-            self.params = GMCParam.from_vector(x0, self.clusters, self.dim)
+            start = self._as_param(x0)
 
         if method == 'pem':
             u = pseudo_obs(data, ties)
-            self._fit_smry = expectation_maximization(u, self.params, max_iter, criteria, verbose, eps)
-
+            fit_smry = expectation_maximization(u, start, max_iter, criteria, verbose, eps)
         elif method == 'sgd':
             u = pseudo_obs(data, ties)
-            self._fit_smry = gradient_descent(u, self.params, max_iter=max_iter, **(optim_options or {}))
-        elif method == 'kmeans':
-            if x0 is not None:  # otherwise already fitted by default
-                self._fit_smry = k_means(data, self.clusters, self.dim)
-        else:
-            raise GMCFitMethodError(f"Invalid method: {method}. Use one of (kmeans, pem, sgd)")
+            fit_smry = gradient_descent(u, start, max_iter=max_iter, **(optim_options or {}))
 
-        self.params = self._fit_smry.best_params
+        self.params = fit_smry.best_params
+        self._fit_smry = fit_smry
+        self._columns = columns
         self._fit_details["method"] = method
         return self
 
@@ -231,17 +236,19 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
 
     @params.setter
     def params(self, params: Optional[Union[GMCParam, np.ndarray, Collection, GMCParamDict]]):
-        if params is None:
-            self._param = None
-        elif isinstance(params, dict):
-            self._param = GMCParam.from_dict(params)
-        elif isinstance(params, GMCParam):
+        self._param = None if params is None else self._as_param(params)
+
+    def _as_param(self, params) -> GMCParam:
+        if isinstance(params, dict):
+            params = GMCParam.from_dict(params)
+
+        if isinstance(params, GMCParam):
             if params.n_dim != self.dim or params.n_clusters != self.clusters:
                 raise GMCParamMismatchError(f"Expected {self.clusters} clusters and {self.dim} dimensions "
                                             f"but got {params.n_clusters} and {params.n_dim} respectively instead")
-            self._param = params
+            return params
         elif np.all(np.isreal(params)):
-            self._param = GMCParam.from_vector(params, self.clusters, self.dim)
+            return GMCParam.from_vector(params, self.clusters, self.dim)
         else:
             raise GMCParamMismatchError("Unsupported params type for GaussianMixtureCopula")
 
-- 
2.43.0


From efc3a3c5f65078487a511a05d9f80ad57c406359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:12 +0000
Subject: [PATCH 053/112] fix: mixture parameters own their arrays, encoding
 them does not change them and works for one cluster

---
 copulae/mixtures/gmc/parameter.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/copulae/mixtures/gmc/parameter.py b/copulae/mixtures/gmc/parameter.py
index 0db3f55..5188222 100644
--- a/copulae/mixtures/gmc/parameter.py
+++ b/copulae/mixtures/gmc/parameter.py
@@ -38,12 +38,13 @@ class GMCParam:
         Converts GMCParam to a 1-D vector representation. Vector representation enables GMCParam to be
         updated via scipy's optimize module.
         """
-        self.prob[self.prob == 0] += 1e-5
-        self.prob[self.prob == 1] -= 1e-5
-        self.prob /= self.prob.sum()
+        # from_vector scales the probabilities back to a sum of 1
+        prob = self.prob.copy()
+        prob[prob == 0] += 1e-5
+        prob[prob == 1] -= 1e-5
 
         return np.array([
-            *np.log(self.prob / (1 - self.prob)),
+            *np.log(prob / (1 - prob)),
             *self.means.ravel(),
             *np.ravel([c[np.triu_indices(self.n_dim)] for c in self.covs])
         ])
@@ -85,7 +86,7 @@ class GMCParam:
 
     @prob.setter
     def prob(self, value: Union[C[float], np.ndarray]):
-        value = np.ravel(value)
+        value = np.array(value, float).ravel()
 
         if len(value) != self.n_clusters:
             raise GMCParamError(f"probability vector should have {self.n_clusters} components")
@@ -100,7 +101,7 @@ class GMCParam:
 
     @means.setter
     def means(self, value: Union[C[float], np.ndarray]):
-        value = np.asarray(value)
+        value = np.array(value, float)
 
         shape = self.n_clusters, self.n_dim
         if value.shape != shape:
-- 
2.43.0


From 3d240e00ec99eb0ab862db33980910096653f91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:12 +0000
Subject: [PATCH 054/112] fix: mixture fit summary reports the log likelihood
 of the returned parameters

---
 copulae/mixtures/gmc/estimators/em.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/mixtures/gmc/estimators/em.py b/copulae/mixtures/gmc/estimators/em.py
index a422980..7e206af 100644
--- a/copulae/mixtures/gmc/estimators/em.py
+++ b/copulae/mixtures/gmc/estimators/em.py
@@ -153,4 +153,4 @@ class LogLik:
 
     @property
     def best_log_lik(self):
-        return self._gmcm[-1]
+        return self._gmcm[next(i for i, p in enumerate(self.params) if p is self.best_param)]
-- 
2.43.0


From 3fb485a94353c30c9c053461aa913fdc6cee1e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:12 +0000
Subject: [PATCH 055/112] fix: summaries of fits by correlation inversion
 render as HTML

---
 copulae/copula/estimator/summary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/summary.py b/copulae/copula/estimator/summary.py
index e738059..03ed579 100644
--- a/copulae/copula/estimator/summary.py
+++ b/copulae/copula/estimator/summary.py
@@ -45,7 +45,7 @@ class FitSummary(SummaryType):
 
     def _repr_html_(self):
         portions = []
-        for s, r in zip_longest(self.setup.items(), self.results.items()):
+        for s, r in zip_longest((self.setup or {}).items(), (self.results or {}).items()):
             (sk, sv) = (None, None) if s is None else s
             (rk, rv) = (None, None) if r is None else r
             portions.append('<tr>' + ''.join(f"<td>{i}</td>" for i in (sk, sv, rk, rv)) + '</tr>')
-- 
2.43.0


From a688fe3b6b06b3e8235ec6513aac5a719e932bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:41 +0000
Subject: [PATCH 056/112] fix: mixture copula summary before parameters are set

---
 copulae/mixtures/gmc/gmc.py     |  2 +-
 copulae/mixtures/gmc/summary.py | 29 ++++++++++++++++++-----------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index be04c65..ce27db6 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -318,4 +318,4 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
     @select_summary
     def summary(self, category: Literal['copula', 'fit'] = 'copula'):
         """Constructs the summary information about the copula"""
-        return Summary(self.params, self._fit_details)
+        return Summary(self.params, dict(self._fit_details), self.clusters, self.dim)
diff --git a/copulae/mixtures/gmc/summary.py b/copulae/mixtures/gmc/summary.py
index 3486e2d..c015d45 100644
--- a/copulae/mixtures/gmc/summary.py
+++ b/copulae/mixtures/gmc/summary.py
@@ -1,3 +1,5 @@
+from typing import Optional
+
 import pandas as pd
 
 from copulae.copula.summary import SummaryType
@@ -5,22 +7,26 @@ from .parameter import GMCParam
 
 
 class Summary(SummaryType):
-    def __init__(self, params: GMCParam, fit_details: dict):
+    def __init__(self, params: Optional[GMCParam], fit_details: dict, n_clusters: int, n_dim: int):
         self.name = "Gaussian Mixture Copula"
         self.params = params
         self.fit = fit_details
+        self.n_clusters = n_clusters
+        self.n_dim = n_dim
 
     def _repr_html_(self):
-        params = [f"<strong>{title}</strong>" + pd.DataFrame(values).to_html(header=False, index=False)
-                  for title, values in [("Mixture Probability", self.params.prob),
-                                        ("Means", self.params.means)]]
-        params.append(
-            f"<strong>Covariance</strong>" +
-            '<br/>'.join(
-                f"<div>Margin {i + 1}</div>{pd.DataFrame(c).to_html(header=False, index=False)}"
-                for i, c in enumerate(self.params.covs)
+        params = []
+        if self.params is not None:  # otherwise neither fitted nor given parameters yet
+            params = [f"<strong>{title}</strong>" + pd.DataFrame(values).to_html(header=False, index=False)
+                      for title, values in [("Mixture Probability", self.params.prob),
+                                            ("Means", self.params.means)]]
+            params.append(
+                f"<strong>Covariance</strong>" +
+                '<br/>'.join(
+                    f"<div>Margin {i + 1}</div>{pd.DataFrame(c).to_html(header=False, index=False)}"
+                    for i, c in enumerate(self.params.covs)
+                )
             )
-        )
 
         fit_details = ''
         if self.fit['method'] is not None:
@@ -34,7 +40,7 @@ class Summary(SummaryType):
         html = f"""
 <div>
     <h2>{self.name} Summary</h2>
-    <div>{self.name} with {self.params.n_clusters} components and {self.params.n_dim} dimensions</div>
+    <div>{self.name} with {self.n_clusters} components and {self.n_dim} dimensions</div>
     <hr/>
     <div>
         <h3>Parameters</h3>
@@ -50,5 +56,6 @@ class Summary(SummaryType):
         return '\n'.join([
             f"{self.name} Summary",
             "=" * 80,
+            f"{self.name} with {self.n_clusters} components and {self.n_dim} dimensions",
             str(self.params)
         ])
-- 
2.43.0


From e89d7ad0340496ecbdf44dbb5a7d32193de6b602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 057/112] fix: correlation inversion fits of bivariate
 elliptical copulas (the scalar estimate has no length)

---
 copulae/copula/estimator/corr_inversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/estimator/corr_inversion.py b/copulae/copula/estimator/corr_inversion.py
index 41e3b94..84735ad 100644
--- a/copulae/copula/estimator/corr_inversion.py
+++ b/copulae/copula/estimator/corr_inversion.py
@@ -79,6 +79,6 @@ def fit_cor(copula, data: np.ndarray, typ: str) -> np.ndarray:
         raise ValueError("Correlation Inversion must be either 'itau' or 'irho'")
 
     if is_elliptical(copula):
-        theta = near_psd(create_cov_matrix(theta))[indices]
+        theta = near_psd(create_cov_matrix(np.atleast_1d(theta)))[indices]
 
     return theta
-- 
2.43.0


From 3c1c1e421949b89b55489b95f1c49962e1a35482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:06 +0000
Subject: [PATCH 058/112] fix: a single draw from a Gaussian copula is a matrix
 with one row

---
 copulae/elliptical/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index 2362664..a94c031 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -85,7 +85,7 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     @cast_output
     def random(self, n: int, seed: int = None):
         r = mvn.rvs(cov=self.sigma, size=n, random_state=seed)
-        return norm.cdf(r)
+        return norm.cdf(r).reshape(n, self.dim)
 
     @select_summary
     def summary(self, category: Literal['copula', 'fit'] = 'copula'):
-- 
2.43.0


From 34a4fb4927d6d8c27b53515c5625c7bc635eb734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:06 +0000
Subject: [PATCH 059/112] fix: a single draw from a Student copula is a matrix
 with one row

---
 copulae/elliptical/student.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/elliptical/student.py b/copulae/elliptical/student.py
index beddc91..ba1516c 100644
--- a/copulae/elliptical/student.py
+++ b/copulae/elliptical/student.py
@@ -184,7 +184,7 @@ class StudentCopula(AbstractEllipticalCopula[StudentParams]):
     @cast_output
     def random(self, n: int, seed: int = None):
         r = mvt.rvs(cov=self.sigma, df=self._df, size=n, random_state=seed)
-        return t.cdf(r, self._df)
+        return t.cdf(r, self._df).reshape(n, self.dim)
 
     @select_summary
     def summary(self, category: Literal['copula', 'fit'] = 'copula'):
-- 
2.43.0


From 151aeb7d4bcf1984e9d038ced37fa3e81fd2ed2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:06 +0000
Subject: [PATCH 060/112] fix: seeded multivariate t draws use independent
 normals and chi-squares (both restarted the same stream), empty draws allowed

---
 copulae/stats/_multivariate_t.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/copulae/stats/_multivariate_t.py b/copulae/stats/_multivariate_t.py
index c6e21d4..24d3f0c 100644
--- a/copulae/stats/_multivariate_t.py
+++ b/copulae/stats/_multivariate_t.py
@@ -173,21 +173,21 @@ class multivariate_t:
             d = d.reshape(*size, -1)
             size_is_iterable = True
         else:
-            if size > 1:
-                d = d.reshape(size, -1)
+            if size != 1:
+                d = d.reshape(size, 1)
             size_is_iterable = False
 
         # size and dim used to reshape generated tensor correctly before dividing by chi-square rvs
         dim = 1 if not isinstance(cov, abc.Sized) else len(cov)
 
         if type_.casefold() == 'kshirsagar':
-            r = mvn.rvs(mean, cov, size, random_state)
+            r = mvn.rvs(mean, cov, size)
             if size_is_iterable:
                 r = r.reshape(*size, dim)
             r /= d
 
         elif type_.casefold() == 'shifted':
-            r = mvn.rvs(np.zeros(len(cov)), cov, size, random_state)
+            r = mvn.rvs(np.zeros(len(cov)), cov, size)
             if size_is_iterable:
                 r = r.reshape(*size, dim)
             r /= d
-- 
2.43.0


From 30fe6ced9ac03fae5bd037ee07111332332176d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:20 +0000
Subject: [PATCH 061/112] fix: correlation of two Series keeps falsy names such
 as 0

---
 copulae/stats/correlation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/stats/correlation.py b/copulae/stats/correlation.py
index 8fd7b71..0a11c5f 100644
--- a/copulae/stats/correlation.py
+++ b/copulae/stats/correlation.py
@@ -32,8 +32,8 @@ def format_output(f):
             return pd.DataFrame(_corr, index=x.columns, columns=x.columns)
 
         elif isinstance(x, pd.Series) and isinstance(y, pd.Series):
-            x_name = x.name or 'X'
-            y_name = y.name or 'Y'
+            x_name = 'X' if x.name is None else x.name
+            y_name = 'Y' if y.name is None else y.name
 
             if x_name == y_name:
                 x_name, y_name = f'{x_name}1', f'{y_name}2'
-- 
2.43.0


From c18af6fe83947277bfd6b7773e4156e919bcc76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:30 +0000
Subject: [PATCH 062/112] fix: EmpiricalCopula.to_marginals maps level 1 to the
 largest observation instead of raising IndexError

---
 copulae/empirical/empirical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copulae/empirical/empirical.py b/copulae/empirical/empirical.py
index 9541390..f29b1d1 100644
--- a/copulae/empirical/empirical.py
+++ b/copulae/empirical/empirical.py
@@ -257,6 +257,7 @@ class EmpiricalCopula(BaseCopula[None]):
         # because it is pseudo-observations, and already ranked within the columns, we can just
         # multiply by the number of rows in the original data set to get the position rank
         index = np.array(np.floor(u * len(original)), int)
+        index = np.minimum(index, len(original) - 1)  # level 1 is the largest observation
         data = np.array(original)
         source = np.take_along_axis(data, data.argsort(axis=0), axis=0)
 
-- 
2.43.0


From 297f2688d8d2642911fb59f37cb7acdbb84766d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:42 +0000
Subject: [PATCH 063/112] fix: exchangeability and radial symmetry statistics
 are summed exactly, replicates equal to the statistic count as such

---
 copulae/gof/_exchangeability.pyx | 7 ++++---
 copulae/gof/_radial_symmetry.pyx | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/copulae/gof/_exchangeability.pyx b/copulae/gof/_exchangeability.pyx
index be7c4b2..c688e87 100644
--- a/copulae/gof/_exchangeability.pyx
+++ b/copulae/gof/_exchangeability.pyx
@@ -1,4 +1,4 @@
-from libc.math cimport sqrt
+from libc.math cimport round, sqrt
 from libc.stdint cimport int64_t
 from libc.stdlib cimport rand, RAND_MAX
 
@@ -203,10 +203,11 @@ def exch_test_stat(double[:, :] u, double[:, :] g, int n, int m):
 
     for i in range(m):
         x, y = g[i, 0], g[i, 1]
-        diff = cn(a, b, x, y, n) - cn(a, b, y, x, n)
+        # differences of counts are exact, so that equal statistics compare equal
+        diff = round(n * (cn(a, b, x, y, n) - cn(a, b, y, x, n)))
         s += diff * diff
 
-    return s * n / m
+    return s / n / m
 
 
 def exch_replication(long[:, :] ir, double[:, :] u, double[:, :] g, int n, int m, int ng):
diff --git a/copulae/gof/_radial_symmetry.pyx b/copulae/gof/_radial_symmetry.pyx
index 35fe77f..dcf572d 100644
--- a/copulae/gof/_radial_symmetry.pyx
+++ b/copulae/gof/_radial_symmetry.pyx
@@ -34,7 +34,7 @@ def rad_sym_test_stat(const double[:] u, const int n, const int p):
         diff = diff_cn(u, n, p, i)
         s += diff * diff
 
-    return s
+    return s / n / n
 
 
 def rad_sym_replicate(double[:, :] u, long[:, :] ir, const int n, const int p, bint has_ties):
@@ -67,7 +67,7 @@ def rad_sym_replicate(double[:, :] u, long[:, :] ir, const int n, const int p, b
 
 cdef double diff_cn(const double[:] u, const int n, const int p, const int k) nogil:
     """
-    Difference between the multivariate empirical copula and the multivariate survival empirical copula
+    Difference between the counts of the multivariate empirical copula and the multivariate survival empirical copula
     for the radial symmetry test
 
     Parameters
@@ -103,4 +103,4 @@ cdef double diff_cn(const double[:] u, const int n, const int p, const int k) no
 
         sumind += <double>ind1 - <double>ind2
 
-    return sumind / n
+    return sumind
-- 
2.43.0


From 1ca764549b90fa63ea65431047210046035ec2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:42 +0000
Subject: [PATCH 064/112] fix: replicates of the exchangeability and radial
 symmetry tests use the tie rule of the statistic

---
 copulae/gof/_exchangeability.pyx | 7 +++++--
 copulae/gof/_radial_symmetry.pyx | 4 ++--
 copulae/gof/exchangeability.py   | 2 +-
 copulae/gof/radial_symmetry.py   | 2 +-
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/copulae/gof/_exchangeability.pyx b/copulae/gof/_exchangeability.pyx
index c688e87..f8e7701 100644
--- a/copulae/gof/_exchangeability.pyx
+++ b/copulae/gof/_exchangeability.pyx
@@ -210,7 +210,7 @@ def exch_test_stat(double[:, :] u, double[:, :] g, int n, int m):
     return s / n / m
 
 
-def exch_replication(long[:, :] ir, double[:, :] u, double[:, :] g, int n, int m, int ng):
+def exch_replication(long[:, :] ir, double[:, :] u, double[:, :] g, int n, int m, int ng, str ties='average'):
     """
     One instance of the bootstrap replication
 
@@ -233,6 +233,9 @@ def exch_replication(long[:, :] ir, double[:, :] u, double[:, :] g, int n, int m
     ng: int
         number of rows in g
 
+    ties: str
+        tie rule of the pseudo-observations
+
     Returns
     -------
     float
@@ -259,7 +262,7 @@ def exch_replication(long[:, :] ir, double[:, :] u, double[:, :] g, int n, int m
         for j in range(n):
             ub[j, i] = tub[ir[j, i], i]
 
-    ub = pseudo_obs(ub)
+    ub = pseudo_obs(ub, ties)
 
     if m == 0:
         g = ub
diff --git a/copulae/gof/_radial_symmetry.pyx b/copulae/gof/_radial_symmetry.pyx
index dcf572d..7f4a660 100644
--- a/copulae/gof/_radial_symmetry.pyx
+++ b/copulae/gof/_radial_symmetry.pyx
@@ -37,7 +37,7 @@ def rad_sym_test_stat(const double[:] u, const int n, const int p):
     return s / n / n
 
 
-def rad_sym_replicate(double[:, :] u, long[:, :] ir, const int n, const int p, bint has_ties):
+def rad_sym_replicate(double[:, :] u, long[:, :] ir, const int n, const int p, bint has_ties, str ties='average'):
     """One instance of bootstrap replication for radial symmetry test"""
     cdef:
         double[:, :] ub = np.copy(u), tub
@@ -61,7 +61,7 @@ def rad_sym_replicate(double[:, :] u, long[:, :] ir, const int n, const int p, b
             for j in range(n):
                 ub[j, i] = tub[ir[j, i], i]
 
-    ub = pseudo_obs(ub)
+    ub = pseudo_obs(ub, ties)
     return rad_sym_test_stat(np.ravel(ub, 'F'), n, p)
 
 
diff --git a/copulae/gof/exchangeability.py b/copulae/gof/exchangeability.py
index f1fa444..8e521c4 100644
--- a/copulae/gof/exchangeability.py
+++ b/copulae/gof/exchangeability.py
@@ -106,7 +106,7 @@ def exch_test(x, y, N=1000, m=0, ties='average'):
 
     if has_ties:
         ir = np.floor(rank_data(np.sort(u, 0), axis=1)).astype(int) - 1
-        s0 = np.asarray([exch_replication(ir, u, g, n, m, ng) for _ in range(N)])
+        s0 = np.asarray([exch_replication(ir, u, g, n, m, ng, ties) for _ in range(N)])
 
     else:
         s0 = exch_test_cn(u, g, n, ng, N)
diff --git a/copulae/gof/radial_symmetry.py b/copulae/gof/radial_symmetry.py
index f8d36d4..9286b8f 100644
--- a/copulae/gof/radial_symmetry.py
+++ b/copulae/gof/radial_symmetry.py
@@ -77,7 +77,7 @@ def rad_sym_test(x, N=1000, ties: Ties = 'average'):
             break
 
     ir = np.floor(rank_data(np.sort(u, 0), axis=1)).astype(int) - 1
-    s0 = np.array([rad_sym_replicate(u, ir, n, p, has_ties) for _ in range(N)])
+    s0 = np.array([rad_sym_replicate(u, ir, n, p, has_ties, ties) for _ in range(N)])
 
     return TestStatistic(
         s,
-- 
2.43.0


From 9b462e32fdae58d8917190efd648df4da5c41f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:42 +0000
Subject: [PATCH 065/112] fix: radial symmetry replicates recognise ties
 between reflected and original levels despite rounding

---
 copulae/gof/_radial_symmetry.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/gof/_radial_symmetry.pyx b/copulae/gof/_radial_symmetry.pyx
index 7f4a660..28b5863 100644
--- a/copulae/gof/_radial_symmetry.pyx
+++ b/copulae/gof/_radial_symmetry.pyx
@@ -61,7 +61,7 @@ def rad_sym_replicate(double[:, :] u, long[:, :] ir, const int n, const int p, b
             for j in range(n):
                 ub[j, i] = tub[ir[j, i], i]
 
-    ub = pseudo_obs(ub, ties)
+    ub = pseudo_obs(np.round(ub, 12), ties)  # 1 - k / (n + 1) is (n + 1 - k) / (n + 1) only up to rounding
     return rad_sym_test_stat(np.ravel(ub, 'F'), n, p)
 
 
-- 
2.43.0


From de90525806e1af0ae0608d02f41d933cc9eb7bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:57 +0000
Subject: [PATCH 066/112] fix: correlation of two Series labels empty names X
 and Y as before

---
 copulae/stats/correlation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/stats/correlation.py b/copulae/stats/correlation.py
index 0a11c5f..3a8b708 100644
--- a/copulae/stats/correlation.py
+++ b/copulae/stats/correlation.py
@@ -32,8 +32,8 @@ def format_output(f):
             return pd.DataFrame(_corr, index=x.columns, columns=x.columns)
 
         elif isinstance(x, pd.Series) and isinstance(y, pd.Series):
-            x_name = 'X' if x.name is None else x.name
-            y_name = 'Y' if y.name is None else y.name
+            x_name = 'X' if x.name is None or x.name == '' else x.name
+            y_name = 'Y' if y.name is None or y.name == '' else y.name
 
             if x_name == y_name:
                 x_name, y_name = f'{x_name}1', f'{y_name}2'
-- 
2.43.0


From fa4d0a13ea289ea045eb256917a26fabb31d7020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:29 +0000
Subject: [PATCH 067/112] fix: replicates of the goodness of fit test keep
 their dependence when ties are imposed

---
 copulae/gof/goodness_of_fit/goodness_of_fit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/copulae/gof/goodness_of_fit/goodness_of_fit.py b/copulae/gof/goodness_of_fit/goodness_of_fit.py
index d5b46ac..47bdd95 100644
--- a/copulae/gof/goodness_of_fit/goodness_of_fit.py
+++ b/copulae/gof/goodness_of_fit/goodness_of_fit.py
@@ -131,13 +131,13 @@ class GofParametricBootstrap:
 
     def _sort_data_by_column_inplace(self, data: np.ndarray):
         """
-        Use pre-calculated duplicate ranks array to sort random data with. This ensures that the
-        resulting data (column-by-column) is ordered from lowest to highest
+        Use pre-calculated duplicate ranks array to give each column of the random data the ties of the
+        original data. The rows (and thus the dependence) remain as they were drawn.
         """
         assert data.ndim == 2 and self.data.duplicated_ranks_array.shape == data.shape
-        data.sort(0)
         for i in range(data.shape[1]):
-            data[:, i] = data[self.data.duplicated_ranks_array[:, i], i]
+            order = np.argsort(data[:, i])
+            data[order, i] = data[order[self.data.duplicated_ranks_array[:, i]], i]
 
         return data
 
-- 
2.43.0


From 59d934377bef9982611685e5d457b0b07bbe654b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:29 +0000
Subject: [PATCH 068/112] fix: goodness of fit test accepts verbose among its
 fit options

---
 copulae/gof/goodness_of_fit/goodness_of_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/gof/goodness_of_fit/goodness_of_fit.py b/copulae/gof/goodness_of_fit/goodness_of_fit.py
index 47bdd95..99d40a2 100644
--- a/copulae/gof/goodness_of_fit/goodness_of_fit.py
+++ b/copulae/gof/goodness_of_fit/goodness_of_fit.py
@@ -84,7 +84,7 @@ def gof_copula(copula: Type[Copula], data: Union[pd.DataFrame, np.ndarray], reps
         Test statistics
     """
     data = GofData(data, ties, fit_ties)
-    return GofParametricBootstrap(copula, data, reps, multiprocess, verbose=0, **fit_options).fit()
+    return GofParametricBootstrap(copula, data, reps, multiprocess, **{"verbose": 0, **fit_options}).fit()
 
 
 class GofParametricBootstrap:
-- 
2.43.0


From 30ac5dba25ca48ed86744c7b0db9409304bbba58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:29 +0000
Subject: [PATCH 069/112] fix: goodness of fit test fits on the ranks chosen by
 fit_ties (they were ranked again by average)

---
 copulae/gof/goodness_of_fit/goodness_of_fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/gof/goodness_of_fit/goodness_of_fit.py b/copulae/gof/goodness_of_fit/goodness_of_fit.py
index 99d40a2..e451169 100644
--- a/copulae/gof/goodness_of_fit/goodness_of_fit.py
+++ b/copulae/gof/goodness_of_fit/goodness_of_fit.py
@@ -123,7 +123,7 @@ class GofParametricBootstrap:
 
     def t_stat(self, copula: Copula, data: GofData):
         """Calculates the T statistic"""
-        copula.fit(data.fitted_pobs, **self.fit_options)
+        copula.fit(data.fitted_pobs, ties=data.fit_ties, **self.fit_options)
         return gof_t_stat(copula, data.pobs)
 
     def new_copula(self) -> Copula:
-- 
2.43.0


From 0ad5a8b95bf4276e831b1b6d9fbf566314864511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:29 +0000
Subject: [PATCH 070/112] fix: goodness of fit replicates run in several
 processes are independent (workers shared one random state)

---
 copulae/gof/goodness_of_fit/goodness_of_fit.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/copulae/gof/goodness_of_fit/goodness_of_fit.py b/copulae/gof/goodness_of_fit/goodness_of_fit.py
index e451169..eb675ca 100644
--- a/copulae/gof/goodness_of_fit/goodness_of_fit.py
+++ b/copulae/gof/goodness_of_fit/goodness_of_fit.py
@@ -102,21 +102,23 @@ class GofParametricBootstrap:
 
         if self.multiprocess:
             with ProcessPoolExecutor(os.cpu_count()) as P:
-                ts = np.array([f.result() for f in (P.submit(self._process_result) for _ in range(self.reps))])
+                # samples are drawn here as the workers all start from the same state of the random number generator
+                futures = [P.submit(self._process_result, self.draw_sample()) for _ in range(self.reps)]
+                ts = np.array([f.result() for f in futures])
         else:
-            ts = np.array([self._process_result() for _ in range(self.reps)])
+            ts = np.array([self._process_result(self.draw_sample()) for _ in range(self.reps)])
 
         return GofStat(method=f"Parametric bootstrap-based goodness-of-fit of {self.copula.name} with Sn",
                        parameter=self.copula.params,
                        statistic=t,
                        pvalue=(sum(np.abs(ts) >= abs(t)) + 0.5) / (self.reps + 1))
 
-    def _process_result(self):
+    def draw_sample(self):
+        """Draws a sample of the same size and with the same ties as the data from the fitted copula"""
         u = self.copula.random(self.data.n_row)
+        return self._sort_data_by_column_inplace(u) if self.data.has_ties else u
 
-        if self.data.has_ties:
-            u = self._sort_data_by_column_inplace(u)
-
+    def _process_result(self, u):
         data = GofData(u, self.data.ties, self.data.fit_ties)
         cop = self.new_copula()
         return self.t_stat(cop, data)
-- 
2.43.0


From 5f3fd5e5702c30bfd9dc102c30170113cce3d1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:49 +0000
Subject: [PATCH 071/112] fix: Clayton draws for theta = -1 (division by zero)
 and large theta (overflow)

---
 copulae/archimedean/clayton.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index 262f122..8006ff3 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -161,7 +161,14 @@ class ClaytonCopula(AbstractArchimedeanCopula):
 
         r = random_uniform(n, self.dim, seed)
         if self.dim == 2:
-            r[:, 1] = (r[:, 0] ** (-theta) * (r[:, 1] ** (-theta / (theta + 1)) - 1) + 1) ** (-1 / theta)
+            if theta == -1:
+                r[:, 1] = 1 - r[:, 0]
+            elif theta < 0:
+                r[:, 1] = (r[:, 0] ** (-theta) * (r[:, 1] ** (-theta / (theta + 1)) - 1) + 1) ** (-1 / theta)
+            else:  # powers overflow for large theta
+                w = -theta / (theta + 1) * np.log(r[:, 1])
+                w += np.log(-np.expm1(-w)) - theta * np.log(r[:, 0])
+                r[:, 1] = np.exp(-np.logaddexp(0, w) / theta)
             return r
         else:
             gam = rng.standard_gamma(1 / theta, n)[:, None]
-- 
2.43.0


From ab8d256a2f6f0820a419ffe92546a30fd9b77cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:49 +0000
Subject: [PATCH 072/112] fix: Frank draws for very large parameters (NaN in
 two dimensions, constant 1 in more)

---
 copulae/archimedean/frank.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 77a84fe..5728607 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -199,14 +199,15 @@ class FrankCopula(AbstractArchimedeanCopula):
 
         if self.dim == 2:
             v = u[:, 1]
-            a = -abs(self.params)
-            v = -1 / a * np.log1p(-v * np.expm1(-a) / (np.exp(-a * u[:, 0]) * (v - 1) - v))
+            a = abs(self.params)
+            w0, w1 = np.log1p(-v) + a * u[:, 0], np.log(v)
+            v = (np.logaddexp(w0, w1 + a) - np.logaddexp(w0, w1)) / a
             u[:, 1] = 1 - v if self.params > 0 else v
             return u
 
         # alpha too large
         if log1mexp(self.params) == 0:
-            return np.ones((n, self.dim))
+            return np.repeat(u[:, :1], self.dim, 1)
 
         fr = random_log_series_ln1p(-self.params, n)[:, None]
         return self.psi(-np.log(u) / fr)
-- 
2.43.0


From a6dff081283c594015bda64d9f0073654f1a1f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:49 +0000
Subject: [PATCH 073/112] fix: log series variates, and with them Frank draws
 in more than two dimensions, were not log series distributed

---
 copulae/stats/log.py | 60 ++++++++++++++++----------------------------
 1 file changed, 22 insertions(+), 38 deletions(-)

diff --git a/copulae/stats/log.py b/copulae/stats/log.py
index 4d6864d..fc69741 100644
--- a/copulae/stats/log.py
+++ b/copulae/stats/log.py
@@ -5,41 +5,25 @@ from copulae.types import Numeric
 
 def random_log_series_ln1p(alpha: float, size: Numeric = 1):
     """"""
-    if alpha < -3:
-        # random variate following the logarithmic (series) distribution Log(alpha)
-        p = - alpha / np.log(1 - np.expm1(alpha))
-        u = np.random.uniform(size=size)
-
-        up = u > p
-        x = 1
-        while np.any(up):
-            u[up] -= p
-            x += 1
-            p *= alpha * (x - 1) / x
-
-            up = u > p
-        return u
-    else:
-        # random variate following the logarithmic (series) distribution Log(1 - e^h)
-        e = -np.expm1(alpha)
-        u1 = np.random.uniform(size=size)
-        u2 = np.random.uniform(size=size)
-
-        h = u2 * alpha
-        q = -np.expm1(h)
-        log_q = np.where(h > -0.69314718055994530942, np.log(-np.expm1(h)), np.log1p(-np.exp(h)))
-
-        mask1 = u1 > e
-        mask2 = u1 < q * q
-        mask3 = mask2 & (log_q == 0)
-        mask4 = mask2 & (log_q != 0)
-        mask5 = ~mask2 & (u1 > q)
-        mask6 = ~mask2 & (u1 <= q)
-
-        u1[mask6] = 2
-        with np.errstate(invalid='ignore'):
-            u1[mask4] = 1 + np.floor(np.log(u1 / log_q))[mask4]
-        u1[mask3] = np.inf
-        u1[mask1 | mask5] = 1
-
-        return u1
+    # random variate following the logarithmic (series) distribution Log(1 - e^alpha), algorithm LK of Kemp (1981)
+    e = -np.expm1(alpha)
+    u1 = np.random.uniform(size=size)
+    u2 = np.random.uniform(size=size)
+
+    h = u2 * alpha
+    q = -np.expm1(h)
+    log_q = np.where(h > -0.69314718055994530942, np.log(-np.expm1(h)), np.log1p(-np.exp(h)))
+
+    mask1 = u1 > e
+    mask2 = u1 < q * q
+    mask3 = mask2 & (log_q == 0)
+    mask4 = mask2 & (log_q != 0)
+    mask5 = ~mask2 & (u1 > q)
+    mask6 = ~mask2 & (u1 <= q)
+
+    u1[mask6] = 2
+    u1[mask4] = 1 + np.floor(np.log(u1[mask4]) / log_q[mask4])
+    u1[mask3] = np.inf
+    u1[mask1 | mask5] = 1
+
+    return u1
-- 
2.43.0


From e302a876365fc25f6c606c0c5819f7613274741f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:58 +0000
Subject: [PATCH 074/112] fix: small positive stable variates lost to
 cancellation (Gumbel draws at 0 and NaN for strong dependence)

---
 copulae/stats/stable/stable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/stats/stable/stable.py b/copulae/stats/stable/stable.py
index 25b8c5a..2844081 100644
--- a/copulae/stats/stable/stable.py
+++ b/copulae/stats/stable/stable.py
@@ -163,8 +163,8 @@ class skew_stable:
 
             z = (c * np.sin(at)
                  * (np.cos(theta) ** (-1 / alpha))
-                 * ((np.cos(theta - at) / w) ** ((1 - alpha) / alpha))
-                 - bt)
+                 * ((np.cos(theta - at) / w) ** ((1 - alpha) / alpha)))
+            delta = delta - bt * gamma  # 0 for positive variates, which would be lost in z - bt when tiny
 
         return z * gamma + delta
 
-- 
2.43.0


From 5aa6a857e8d25a0728c4e4053fdbe9e440a338da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:35 +0000
Subject: [PATCH 075/112] fix: derivative of Gumbel's Kendall tau for integer
 arrays

Integers cannot be raised to negative integer powers.
---
 copulae/archimedean/gumbel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index ff856cb..cebac9f 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -142,7 +142,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
     def dtau(self, x=None):
         if x is None:
             x = self.params
-        return x ** -2
+        return x ** -2.0
 
     @cast_input(['u'])
     @squeeze_output
-- 
2.43.0


From 65b79cb2c01ca3dbb544ea83b77ecb20388fded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:46 +0000
Subject: [PATCH 076/112] fix: Gumbel second derivatives at the boundary for
 theta = 1 were NaN

---
 copulae/archimedean/gumbel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index cebac9f..33c0da3 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -109,7 +109,7 @@ class GumbelCopula(AbstractArchimedeanCopula):
 
         grad = expr5 * expr8
         hess = expr4 * expr7 * expr8 * expr2 ** (expr4 - 1) + \
-               alpha * expr3 * expr5 * expr6 * (w ** expr9 + expr1 ** expr9)
+               alpha * expr3 * expr5 * (expr6 * (w ** expr9 + expr1 ** expr9) if alpha != 1 else 0 * w)
 
         if isinstance(grad, float) and isinstance(hess, float):
             return np.array([grad, hess])
@@ -129,7 +129,11 @@ class GumbelCopula(AbstractArchimedeanCopula):
         if degree == 1:
             v = self.params * ((-lu) ** (self.params - 1)) / u
         else:
-            v = self.params * (self.params - 1 - lu) * ((-lu) ** (self.params - 2)) / (u ** 2)
+            # written as a sum, the first term vanishes for theta = 1 (and would be 0 * inf at u = 1)
+            v = (-lu) ** (self.params - 1)
+            if self.params != 1:
+                v = v + (self.params - 1) * (-lu) ** (self.params - 2)
+            v = self.params * v / (u ** 2)
 
         return s * (np.log(v) if log else v)
 
-- 
2.43.0


From 06e7ea52b36f4a930cf0b94f4ec8c63a6895eddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:46 +0000
Subject: [PATCH 077/112] fix: Frank generator of single precision levels is
 computed in double precision

Rounding in single precision made the generator negative (log: NaN) at 1.
---
 copulae/archimedean/frank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index 5728607..de75eb5 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -85,7 +85,7 @@ class FrankCopula(AbstractArchimedeanCopula):
     @cast_input(['u'], optional=True)
     @squeeze_output
     def ipsi(self, u, log=False):
-        r = np.asarray(u) * self.params
+        r = np.asarray(u, float) * self.params
 
         if self.params == 0:
             res = -np.log(u)
-- 
2.43.0


From 1ba8ccf79f0e80d5e9cf12ea8a8afa3e0b51d194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:19 +0000
Subject: [PATCH 078/112] fix: second derivative of the Frank generator
 overflowed for large theta

The square in the denominator overflows although the quotient is representable.
---
 copulae/archimedean/frank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/archimedean/frank.py b/copulae/archimedean/frank.py
index de75eb5..9735f8b 100644
--- a/copulae/archimedean/frank.py
+++ b/copulae/archimedean/frank.py
@@ -58,7 +58,7 @@ class FrankCopula(AbstractArchimedeanCopula):
         elif degree == 1:
             v = self.params / np.expm1(ut)
         else:
-            v = (self.params ** 2 * np.exp(ut)) / np.expm1(ut) ** 2
+            v = -self.params ** 2 / (np.expm1(ut) * np.expm1(-ut))
 
         return s * (np.log(v) if log else v)
 
-- 
2.43.0


From ba111095971b915d46f5e6e03b29df4ea7dee46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:30 +0000
Subject: [PATCH 079/112] fix: strict is_psd accepted singular matrices

---
 copulae/core/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/core/linalg.py b/copulae/core/linalg.py
index 9da4833..3db5734 100644
--- a/copulae/core/linalg.py
+++ b/copulae/core/linalg.py
@@ -85,14 +85,14 @@ def is_psd(M: np.ndarray, strict=False, tol=1e-12) -> bool:
         True if matrix is positive (semi-)definite, else False
     """
     if isinstance(M, (int, float)):
-        return M > -tol if strict else M >= -tol
+        return M > tol if strict else M >= -tol
 
     M = np.asarray(M)
     if not is_symmetric(M, tol):
         return False
 
     if strict:
-        return (la.eigvalsh(M) > -tol).all()
+        return (la.eigvalsh(M) > tol).all()
     else:
         return (la.eigvalsh(M) >= -tol).all()
 
-- 
2.43.0


From 4801bbe3eb14544ac52dae5cf8af3096eb78c8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:30 +0000
Subject: [PATCH 080/112] fix: empty triangle indices are integers

A triangle without entries was returned as arrays of floats, which cannot be used as indices.
---
 copulae/core/misc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/copulae/core/misc.py b/copulae/core/misc.py
index 09df5ec..ee45709 100644
--- a/copulae/core/misc.py
+++ b/copulae/core/misc.py
@@ -192,7 +192,7 @@ def tri_indices(n: int, m=0, side: Literal['lower', 'upper', 'both'] = 'both') -
                 l_i[0].append(j)
 
         if side == 'lower':
-            return np.array(l_i[0]), np.array(l_i[1])
+            return np.array(l_i[0], int), np.array(l_i[1], int)
 
     u_i = [[], []]  # upper indices
     if side in {'upper', 'both'}:
@@ -201,6 +201,6 @@ def tri_indices(n: int, m=0, side: Literal['lower', 'upper', 'both'] = 'both') -
                 u_i[0].append(i)
                 u_i[1].append(j)
         if side == 'upper':
-            return np.array(u_i[0]), np.array(u_i[1])
+            return np.array(u_i[0], int), np.array(u_i[1], int)
 
-    return np.array([*u_i[0], *l_i[0]]), np.array([*u_i[1], *l_i[1]])
+    return np.array([*u_i[0], *l_i[0]], int), np.array([*u_i[1], *l_i[1]], int)
-- 
2.43.0


From 7ba633d6c8b669e74d49e56e85a198f9722ecb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:49 +0000
Subject: [PATCH 081/112] fix: marginal specifications are no longer modified

Default shape parameters were written into the caller's dictionary.
---
 copulae/marginal/univariate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/marginal/univariate.py b/copulae/marginal/univariate.py
index c4ada04..d44b26f 100644
--- a/copulae/marginal/univariate.py
+++ b/copulae/marginal/univariate.py
@@ -20,7 +20,7 @@ class DistDetail(TypedDict, total=False):
 
 def create_univariate(details: DistDetail) -> rv_frozen:
     dist = get_marginal_class(details)
-    parameters = details.get('parameters', {})
+    parameters = dict(details.get('parameters', {}))
     for p in signature(getattr(dist, "_parse_args")).parameters.values():
         if p.default is Parameter.empty and p.name not in parameters:
             parameters[p.name] = 0.5
-- 
2.43.0


From ebde18fb7f9ff92a572b0efc0d8fdabd09660b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:24 +0000
Subject: [PATCH 082/112] fix: marginals are reported under the name of their
 distribution

Several distributions of scipy.stats share a class: the report of a vonmises_line marginal named vonmises, which rebuilds a different copula.
---
 copulae/marginal/univariate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/marginal/univariate.py b/copulae/marginal/univariate.py
index d44b26f..eb54c31 100644
--- a/copulae/marginal/univariate.py
+++ b/copulae/marginal/univariate.py
@@ -58,7 +58,7 @@ def get_marginal_class(details: DistDetail) -> stats.rv_continuous:
 
 def get_marginal_detail(marginal: rv_frozen) -> DistDetail:
     dist = marginal.dist  # distribution class type
-    dist_type = dist.__class__.__name__.replace("_gen", "")
+    dist_type = dist.name
 
     params = signature(getattr(dist, "_parse_args")).parameters
     parameters = {}
-- 
2.43.0


From ecefc4008b323f40548c2a541fbbc6a6b6a6e83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:16 +0000
Subject: [PATCH 083/112] fix: refuse Gaussian mixture covariances that have no
 nearest valid matrix

A zero or negative variance was accepted and stored as a matrix of NaN.
---
 copulae/mixtures/gmc/parameter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/copulae/mixtures/gmc/parameter.py b/copulae/mixtures/gmc/parameter.py
index 5188222..0e0bfad 100644
--- a/copulae/mixtures/gmc/parameter.py
+++ b/copulae/mixtures/gmc/parameter.py
@@ -121,7 +121,11 @@ class GMCParam:
         if value.shape != shape:
             raise GMCParamError(f"covariance array should have shape {shape}")
 
-        self._covs = np.array([near_psd(cov) for cov in value])  # forces covariance matrix to be psd
+        covs = np.array([near_psd(cov) for cov in value])  # forces covariance matrix to be psd
+        if not np.isfinite(covs).all():
+            raise GMCParamError("covariance matrices should have positive variances")
+
+        self._covs = covs
 
     def __iter__(self) -> Iterable[Tuple[float, Union[float, np.ndarray], np.ndarray]]:
         for i in range(self.n_clusters):
-- 
2.43.0


From ea36599af823a2a65014fc278314955b058721b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:16 +0000
Subject: [PATCH 084/112] fix: refuse Gaussian mixture vectors of the wrong
 length

A last covariance given by a single number was silently spread over the whole matrix.
---
 copulae/mixtures/gmc/parameter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/copulae/mixtures/gmc/parameter.py b/copulae/mixtures/gmc/parameter.py
index 0e0bfad..91c3724 100644
--- a/copulae/mixtures/gmc/parameter.py
+++ b/copulae/mixtures/gmc/parameter.py
@@ -65,13 +65,16 @@ class GMCParam:
         """
         m, d = n_clusters, n_dim
         vector = np.array(vector)
+        step = d * (d + 1) // 2
+        if len(vector) != m * (1 + d + step):
+            raise GMCParamError(f"vector should have {m * (1 + d + step)} components")
+
         prob = np.exp(vector[:m]) / (1 + np.exp(vector[:m]))
         prob /= prob.sum()
 
         means = vector[m:(m + m * d)].reshape(m, d)
 
         covs = []
-        step = d * (d + 1) // 2
         for i in range(m * (d + 1), len(vector), step):
             cov = np.zeros((d, d))
             cov[np.triu_indices(d)] = vector[i:i + step]
-- 
2.43.0


From 27f8204c4de9a469d98ca0fe8366c5e54c18775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:16 +0000
Subject: [PATCH 085/112] fix: gradient descent for the mixture copula survives
 infeasible trial points

---
 copulae/mixtures/gmc/estimators/sgd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/copulae/mixtures/gmc/estimators/sgd.py b/copulae/mixtures/gmc/estimators/sgd.py
index eeb3644..6ed300d 100644
--- a/copulae/mixtures/gmc/estimators/sgd.py
+++ b/copulae/mixtures/gmc/estimators/sgd.py
@@ -1,6 +1,7 @@
 import numpy as np
 from scipy.optimize import OptimizeResult, minimize
 
+from copulae.mixtures.gmc.exception import GMCParamError
 from copulae.mixtures.gmc.loglik import gmcm_log_likelihood
 from copulae.mixtures.gmc.parameter import GMCParam
 from .summary import FitSummary
@@ -36,7 +37,10 @@ def gradient_descent(u: np.ndarray, param: GMCParam, **kwargs):
 
 def create_objective_function(u: np.ndarray, m: int, d: int):
     def f(param: np.ndarray):
-        p = GMCParam.from_vector(param, m, d)
+        try:
+            p = GMCParam.from_vector(param, m, d)
+        except GMCParamError:
+            return np.inf  # not the parameters of a mixture
         p.prob /= p.prob.sum()
         return -gmcm_log_likelihood(u, p)
 
-- 
2.43.0


From c5477de418050960e5ec0567d815839ef1d78975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:16 +0000
Subject: [PATCH 086/112] fix: large log odds of the mixture weights do not
 overflow

---
 copulae/mixtures/gmc/parameter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copulae/mixtures/gmc/parameter.py b/copulae/mixtures/gmc/parameter.py
index 91c3724..f9a5fc7 100644
--- a/copulae/mixtures/gmc/parameter.py
+++ b/copulae/mixtures/gmc/parameter.py
@@ -1,6 +1,7 @@
 from typing import Collection as C, Iterable, Tuple, TypedDict, Union
 
 import numpy as np
+from scipy.special import expit
 
 from copulae.core import near_psd
 from copulae.mixtures.gmc.exception import GMCParamError
@@ -69,7 +70,7 @@ class GMCParam:
         if len(vector) != m * (1 + d + step):
             raise GMCParamError(f"vector should have {m * (1 + d + step)} components")
 
-        prob = np.exp(vector[:m]) / (1 + np.exp(vector[:m]))
+        prob = expit(vector[:m])
         prob /= prob.sum()
 
         means = vector[m:(m + m * d)].reshape(m, d)
-- 
2.43.0


From 75afb32df6f0d5bb7838b96bdf98c365ef7df1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:24 +0000
Subject: [PATCH 087/112] fix: mixture quantiles outside the evaluation grid

---
 copulae/mixtures/gmc/marginals.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/copulae/mixtures/gmc/marginals.py b/copulae/mixtures/gmc/marginals.py
index 526218f..4ea6e86 100644
--- a/copulae/mixtures/gmc/marginals.py
+++ b/copulae/mixtures/gmc/marginals.py
@@ -48,15 +48,15 @@ def gmm_marginal_ppf(q: np.ndarray, param: GMCParam, resolution=2000, spread=5,
 
     dist = gmm_marginal_cdf(grid, param)
 
-    ppf = np.empty_like(q)
+    ppf = np.empty_like(q, dtype=float)
     for i in range(param.n_dim):
         # does an inverse cdf, ppf, to get the marginals
-        ppf[:, i] = interp1d(dist[:, i], grid[:, i], fill_value='interpolate')(q[:, i])
+        # and stops at the ends of the evaluation grid
+        ends = grid[:, i].min(), grid[:, i].max()
+        ppf[:, i] = interp1d(dist[:, i], grid[:, i], bounds_error=False, fill_value=ends)(q[:, i])
 
-    is_nan = np.isnan(ppf)
-    if is_nan.any():
-        ppf[is_nan & (q >= 1)] = np.inf  # infinity because marginal is greater or equal to 1
-        ppf[is_nan & (q <= 0)] = -np.inf  # infinity because marginal is less than or equal to 0
+    ppf[q >= 1] = np.inf  # infinity because marginal is greater or equal to 1
+    ppf[q <= 0] = -np.inf  # infinity because marginal is less than or equal to 0
 
     return ppf
 
-- 
2.43.0


From 14579afd475a8b7fe78b974072064d5edbe4b94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:24 +0000
Subject: [PATCH 088/112] fix: k-means of the mixture copula ranks with the
 given tie rule

---
 copulae/mixtures/gmc/gmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index ce27db6..5a58b52 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -204,7 +204,7 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
 
         # the copula is only changed once the fit succeeded
         if x0 is None or method == 'kmeans':
-            fit_smry = k_means(data, self.clusters, self.dim)
+            fit_smry = k_means(data, self.clusters, self.dim, ties)
             start = fit_smry.best_params
         else:
             start = self._as_param(x0)
-- 
2.43.0


From caf3420edadec4beb4c57ec632587a4904dabbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:24 +0000
Subject: [PATCH 089/112] fix: expectation maximisation without iterations has
 not converged

---
 copulae/mixtures/gmc/estimators/em.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copulae/mixtures/gmc/estimators/em.py b/copulae/mixtures/gmc/estimators/em.py
index 7e206af..5dd63c4 100644
--- a/copulae/mixtures/gmc/estimators/em.py
+++ b/copulae/mixtures/gmc/estimators/em.py
@@ -144,6 +144,8 @@ class LogLik:
 
     @property
     def has_converged(self):
+        if self.count < 2:
+            return False
         if self.criteria == 'GMCM':
             return abs(self._gmcm[-1] - self._gmcm[-2]) < self.eps
         elif self.criteria == 'GMM':
-- 
2.43.0


From 498702f516e7819d7e669d14de0e5a88f51cf003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:24 +0000
Subject: [PATCH 090/112] fix: large log odds of the mixture weights do not
 underflow

---
 copulae/mixtures/gmc/parameter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/copulae/mixtures/gmc/parameter.py b/copulae/mixtures/gmc/parameter.py
index f9a5fc7..9ee0689 100644
--- a/copulae/mixtures/gmc/parameter.py
+++ b/copulae/mixtures/gmc/parameter.py
@@ -1,7 +1,7 @@
 from typing import Collection as C, Iterable, Tuple, TypedDict, Union
 
 import numpy as np
-from scipy.special import expit
+from scipy.special import log_expit, softmax
 
 from copulae.core import near_psd
 from copulae.mixtures.gmc.exception import GMCParamError
@@ -70,8 +70,7 @@ class GMCParam:
         if len(vector) != m * (1 + d + step):
             raise GMCParamError(f"vector should have {m * (1 + d + step)} components")
 
-        prob = expit(vector[:m])
-        prob /= prob.sum()
+        prob = softmax(log_expit(vector[:m]))
 
         means = vector[m:(m + m * d)].reshape(m, d)
 
-- 
2.43.0


From e5b8d0802c5b6d49f74293cfd46336f3bc55b338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:51 +0000
Subject: [PATCH 091/112] fix: gradient descent for the mixture copula survives
 trial points without eigenvalues

---
 copulae/mixtures/gmc/estimators/sgd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/mixtures/gmc/estimators/sgd.py b/copulae/mixtures/gmc/estimators/sgd.py
index 6ed300d..a01c5c3 100644
--- a/copulae/mixtures/gmc/estimators/sgd.py
+++ b/copulae/mixtures/gmc/estimators/sgd.py
@@ -39,7 +39,7 @@ def create_objective_function(u: np.ndarray, m: int, d: int):
     def f(param: np.ndarray):
         try:
             p = GMCParam.from_vector(param, m, d)
-        except GMCParamError:
+        except (GMCParamError, np.linalg.LinAlgError):
             return np.inf  # not the parameters of a mixture
         p.prob /= p.prob.sum()
         return -gmcm_log_likelihood(u, p)
-- 
2.43.0


From e30efcc99011d04b1c737fc3beecd5ef96c4f160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:10 +0000
Subject: [PATCH 092/112] fix: upper end of the stable density integral lies
 next to pi / 2

---
 copulae/stats/stable/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/stats/stable/common.py b/copulae/stats/stable/common.py
index fcd85d8..43d1a76 100644
--- a/copulae/stats/stable/common.py
+++ b/copulae/stats/stable/common.py
@@ -7,7 +7,7 @@ __all__ = ['LARGE_EXP_POW', 'PI', 'PI2', 'PI2E', 'eplus', 'eminus', 'integrate',
 LARGE_EXP_POW = 708.3964
 PI = np.pi
 PI2 = np.pi / 2
-PI2E = PI2 * (1 - 1e6)
+PI2E = PI2 * (1 - 1e-6)
 
 
 def eplus(x):
-- 
2.43.0


From 03b7da5a4f3cef04bc6112335417279d9c399329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:10 +0000
Subject: [PATCH 093/112] fix: stable density at alpha 1 with negative skew

---
 copulae/stats/stable/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/stats/stable/pdf.py b/copulae/stats/stable/pdf.py
index 0e00920..e53bd5e 100644
--- a/copulae/stats/stable/pdf.py
+++ b/copulae/stats/stable/pdf.py
@@ -166,7 +166,7 @@ def aux_f2(x, beta, log=False):
         return -np.inf if log else 0
 
     def g1(u):
-        if np.isclose(abs(u + np.size(beta)), 0, atol=1e-10):
+        if np.isclose(abs(u + np.sign(beta)), 0, atol=1e-10):
             return 0
         h = p2b + u * PI2
         return h / p2b * np.exp(ea + h * tanpi2(u)) / cospi2(u)
-- 
2.43.0


From dd74948ed8f8ed77b2f519c8e0b57f67a75bf159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:11 +0000
Subject: [PATCH 094/112] fix: stable density of totally skewed distributions
 and in light tails

---
 copulae/stats/stable/pdf.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/copulae/stats/stable/pdf.py b/copulae/stats/stable/pdf.py
index e53bd5e..6e9c8d1 100644
--- a/copulae/stats/stable/pdf.py
+++ b/copulae/stats/stable/pdf.py
@@ -66,10 +66,13 @@ def aux_f1(x, alpha, beta, log=False):
         a_1 = alpha - 1
         at = alpha * theta0
 
+        att = (th + theta0) * alpha
         if np.isclose(abs(PI2 - np.sign(a_1) * th), 0, atol=1.4e-14):
-            return 0
+            if not np.isclose(np.sin(att), 0, atol=1e-10):
+                return 0
+            th = PI2E * np.sign(th)  # totally skewed: g1 has a limit other than 0 here
+            att = (th + theta0) * alpha
 
-        att = (th + theta0) * alpha
         return np.cos(att - th) * (np.cos(at) * np.cos(th) * (x_m_zeta / np.sin(att)) ** alpha) ** (1 / a_1)
 
     def g2(th):
@@ -78,12 +81,12 @@ def aux_f1(x, alpha, beta, log=False):
     g_pi = g1(PI2)
     g_t0 = g1(-theta0)
 
-    if (alpha >= 1 and ((~np.isnan(g_pi) and g_pi > LARGE_EXP_POW) or np.isclose(g_t0, 0))) or \
-            (alpha < 1 and ((~np.isnan(g_t0) and g_t0 > LARGE_EXP_POW) or np.isclose(g_pi, 0))):
+    if (alpha >= 1 and ((~np.isnan(g_pi) and g_pi > LARGE_EXP_POW) or g_t0 == 0)) or \
+            (alpha < 1 and ((~np.isnan(g_t0) and g_t0 > LARGE_EXP_POW) or g_pi == 0)):
         return -np.inf if log else 0
 
     g_ = g1(eplus(-theta0)) if alpha >= 1 else g1(PI2E)
-    if np.isnan(g_) and max(x_m_zeta, x_m_zeta / abs(x)) < 0.01:
+    if np.isnan(g_) and x_m_zeta < 0.01 * min(1, abs(x)):
         return f_zeta
 
     if (alpha >= 1 and g_pi > 1) or (alpha < 1 and g_pi < 1):
@@ -94,14 +97,14 @@ def aux_f1(x, alpha, beta, log=False):
         ll = -theta0
         uu = PI2
         if alpha < 1:
-            while np.isclose(g1((ll + PI2) / 2), 0):
+            while g1((ll + PI2) / 2) == 0:
                 ll = (ll + PI2) / 2
 
-            if np.isclose(g1((ll + PI2) / 2), 1):
-                while np.isclose(g1((ll + uu) / 2), 1):
+            if g1((ll + PI2) / 2) == 1:
+                while g1((ll + uu) / 2) == 1:
                     uu = (ll + uu) / 2
 
-            if np.isclose(uu + ll, 0, 1e-13):
+            if abs(uu - ll) < 1e-13:
                 return -np.inf if log else 0
 
         r1 = find_root(lambda t: g1(t) - 1, ll, uu)
-- 
2.43.0


From 60183d1697406d964ad154211a62e561f13c8819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:37 +0000
Subject: [PATCH 095/112] fix: root finding accepts a bound that is the root

---
 copulae/special/optimize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/copulae/special/optimize.py b/copulae/special/optimize.py
index c02eb11..dc5e6be 100644
--- a/copulae/special/optimize.py
+++ b/copulae/special/optimize.py
@@ -52,6 +52,10 @@ def find_root(f, a, b, delta=1e-06, max_iter=1000):
     if a > b:
         a, b = b, a
 
+    for bound in (a, b):
+        if f(bound) == 0:
+            return float(bound)
+
     for _ in range(max_iter):
         assert np.isfinite(a) and np.isfinite(b), 'Could not find a root between intervals specified.'
 
-- 
2.43.0


From b908a1c94aa0131a0cbb8318fbd34b344eda58a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:37 +0000
Subject: [PATCH 096/112] fix: stable density at alpha 1 away from the centre

---
 copulae/stats/stable/pdf.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/copulae/stats/stable/pdf.py b/copulae/stats/stable/pdf.py
index 6e9c8d1..a0c4ca5 100644
--- a/copulae/stats/stable/pdf.py
+++ b/copulae/stats/stable/pdf.py
@@ -179,13 +179,17 @@ def aux_f2(x, beta, log=False):
 
     root = find_root(lambda u: g1(u) - 1, -1, 1)
 
-    r1 = integrate(g2, -1, root)
-    r2 = integrate(g2, root, 1)
+    # split at the feet of the peak as well, quadrature may miss it when it is narrow
+    eps = 1e-4
+    foot1 = find_root(lambda u: g2(u) - eps, -1, root) if g2(-1) < eps else -1
+    foot2 = find_root(lambda u: g2(u) - eps, root, 1) if g2(1) < eps else 1
+    r = (integrate(g2, -1, foot1) + integrate(g2, foot1, root)
+         + integrate(g2, root, foot2) + integrate(g2, foot2, 1))
 
     if log:
-        return np.log(PI2) + np.log(abs(i2b)) + np.log(r1 + r2)
+        return np.log(PI2) + np.log(abs(i2b)) + np.log(r)
     else:
-        return PI2 * abs(i2b) * (r1 + r2)
+        return PI2 * abs(i2b) * r
 
 
 def pareto(x, alpha, beta, log=False):
-- 
2.43.0


From 4d108f73140b442ab6fe8908e598fdb2bceb31e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:37 +0000
Subject: [PATCH 097/112] fix: stable tail density for arrays of any shape

---
 copulae/stats/stable/pdf.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/copulae/stats/stable/pdf.py b/copulae/stats/stable/pdf.py
index a0c4ca5..ca51e85 100644
--- a/copulae/stats/stable/pdf.py
+++ b/copulae/stats/stable/pdf.py
@@ -198,11 +198,8 @@ def pareto(x, alpha, beta, log=False):
     if x.ndim == 0:
         x = x.ravel()
 
-    neg = x < 0
-    if np.any(neg):
-        x[neg] *= -1
-        beta = np.repeat(beta, len(x))
-        beta[neg] *= -1
+    beta = np.where(x < 0, -beta, beta)
+    x = abs(x)
 
     if log:
         return np.log(alpha) + np.log1p(beta) + stable_tail(alpha, log=True) - (1 + alpha) * np.log(x)
-- 
2.43.0


From 66fb2c684498ff012395c67478b0b78eef9b5fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:37 +0000
Subject: [PATCH 098/112] fix: the stable log density replaces vanished
 densities only

---
 copulae/stats/stable/stable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/stats/stable/stable.py b/copulae/stats/stable/stable.py
index 2844081..a355b2b 100644
--- a/copulae/stats/stable/stable.py
+++ b/copulae/stats/stable/stable.py
@@ -101,8 +101,8 @@ class skew_stable:
         if ans.size == 1:
             ans = ans.ravel()
 
-        infs = ans == 0
-        if np.any(ans):
+        infs = ans == (-np.inf if log else 0)
+        if np.any(infs):
             d = pdf.pareto(x, alpha, beta, log)[infs]
             ans[infs] = (d - np.log(gamma)) if log else (d / gamma)
 
-- 
2.43.0


From a8c661279a70ca530abd1b20f6bfb8a37d38ca5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:29 +0000
Subject: [PATCH 099/112] fix: precision of the stable density at alpha 1 in
 the tails

---
 copulae/stats/stable/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/stats/stable/pdf.py b/copulae/stats/stable/pdf.py
index ca51e85..7c28f17 100644
--- a/copulae/stats/stable/pdf.py
+++ b/copulae/stats/stable/pdf.py
@@ -180,7 +180,7 @@ def aux_f2(x, beta, log=False):
     root = find_root(lambda u: g1(u) - 1, -1, 1)
 
     # split at the feet of the peak as well, quadrature may miss it when it is narrow
-    eps = 1e-4
+    eps = 1e-10
     foot1 = find_root(lambda u: g2(u) - eps, -1, root) if g2(-1) < eps else -1
     foot2 = find_root(lambda u: g2(u) - eps, root, 1) if g2(1) < eps else 1
     r = (integrate(g2, -1, foot1) + integrate(g2, foot1, root)
-- 
2.43.0


From cb5125e3f5073f4c0868990603ed215e5043a4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:16 +0000
Subject: [PATCH 100/112] fix: stable density at alpha 1 in the light tail of a
 totally skewed distribution

---
 copulae/stats/stable/pdf.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/copulae/stats/stable/pdf.py b/copulae/stats/stable/pdf.py
index 7c28f17..b8c14e2 100644
--- a/copulae/stats/stable/pdf.py
+++ b/copulae/stats/stable/pdf.py
@@ -170,19 +170,22 @@ def aux_f2(x, beta, log=False):
 
     def g1(u):
         if np.isclose(abs(u + np.sign(beta)), 0, atol=1e-10):
-            return 0
+            if abs(beta) < 1:
+                return 0
+            u = -np.sign(beta) * (1 - 1e-6)  # totally skewed: g1 has a limit other than 0 here
         h = p2b + u * PI2
         return h / p2b * np.exp(ea + h * tanpi2(u)) / cospi2(u)
 
     def g2(u):
         return xexp(g1(u))
 
-    root = find_root(lambda u: g1(u) - 1, -1, 1)
+    low = -np.sign(beta)  # where g1 is smallest
+    root = find_root(lambda u: g1(u) - 1, -1, 1) if g1(low) < 1 else low
 
     # split at the feet of the peak as well, quadrature may miss it when it is narrow
     eps = 1e-10
-    foot1 = find_root(lambda u: g2(u) - eps, -1, root) if g2(-1) < eps else -1
-    foot2 = find_root(lambda u: g2(u) - eps, root, 1) if g2(1) < eps else 1
+    foot1 = find_root(lambda u: g2(u) - eps, -1, root) if g2(-1) < eps < g2(root) else -1
+    foot2 = find_root(lambda u: g2(u) - eps, root, 1) if g2(1) < eps < g2(root) else 1
     r = (integrate(g2, -1, foot1) + integrate(g2, foot1, root)
          + integrate(g2, root, foot2) + integrate(g2, foot2, 1))
 
-- 
2.43.0


From 3d040bd6b9cedc520f2d43a0630828cd451ab651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:16 +0000
Subject: [PATCH 101/112] fix: the mode of a stable distribution depends on its
 skew

---
 copulae/stats/stable/stable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/stats/stable/stable.py b/copulae/stats/stable/stable.py
index a355b2b..c3d7754 100644
--- a/copulae/stats/stable/stable.py
+++ b/copulae/stats/stable/stable.py
@@ -192,7 +192,7 @@ class skew_stable:
         if alpha * beta == 0:
             return 0
 
-        beta = max(beta, beta_max)
+        beta = min(max(beta, -beta_max), beta_max)
         bounds = sorted([0, np.sign(beta) * -0.7])
 
         return float(opt.minimize_scalar(lambda x: -cls.pdf(x, alpha, beta), bounds=bounds)['x'])
-- 
2.43.0


From f64de31f6b2495aaa7c0493cd262696c7acbad0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:16 +0000
Subject: [PATCH 102/112] fix: skewed stable draws at alpha 1

---
 copulae/stats/stable/stable.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/copulae/stats/stable/stable.py b/copulae/stats/stable/stable.py
index c3d7754..3e4e4a4 100644
--- a/copulae/stats/stable/stable.py
+++ b/copulae/stats/stable/stable.py
@@ -151,6 +151,12 @@ class skew_stable:
 
         if np.isclose(alpha, 1) and np.isclose(beta, 0):
             z = cauchy.rvs(size=size)
+        elif alpha == 1:
+            theta = np.pi * (np.random.uniform(size=size) - 0.5)
+            w = np.random.standard_exponential(size)
+
+            b = PI2 + beta * theta
+            z = (b * np.tan(theta) - beta * np.log(PI2 * w * np.cos(theta) / b)) / PI2
         else:
             theta = np.pi * (np.random.uniform(size=size) - 0.5)
             w = np.random.standard_exponential(size)
-- 
2.43.0


From 2654eafffa608c6bedab8bd85645ebd3c377ca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:16 +0000
Subject: [PATCH 103/112] fix: shifted multivariate t draws with a scalar shape

---
 copulae/stats/_multivariate_t.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/stats/_multivariate_t.py b/copulae/stats/_multivariate_t.py
index 24d3f0c..5a2ca9c 100644
--- a/copulae/stats/_multivariate_t.py
+++ b/copulae/stats/_multivariate_t.py
@@ -187,7 +187,7 @@ class multivariate_t:
             r /= d
 
         elif type_.casefold() == 'shifted':
-            r = mvn.rvs(np.zeros(len(cov)), cov, size)
+            r = mvn.rvs(np.zeros(dim), cov, size)
             if size_is_iterable:
                 r = r.reshape(*size, dim)
             r /= d
-- 
2.43.0


From 7e0dc9465d46b9d1d0f05a5726a94d7b39f1139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:23 +0000
Subject: [PATCH 104/112] fix: univariate draws of the multivariate t are not
 crossed with each other

---
 copulae/stats/_multivariate_t.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/stats/_multivariate_t.py b/copulae/stats/_multivariate_t.py
index 5a2ca9c..e382242 100644
--- a/copulae/stats/_multivariate_t.py
+++ b/copulae/stats/_multivariate_t.py
@@ -167,18 +167,18 @@ class multivariate_t:
 
         if random_state is not None:
             np.random.seed(random_state)
+        dim = 1 if not isinstance(cov, abc.Sized) else len(cov)
         d = np.sqrt(np.random.chisquare(df, size) / df)
 
         if isinstance(size, abc.Iterable):
             d = d.reshape(*size, -1)
             size_is_iterable = True
         else:
-            if size != 1:
+            if size != 1 and dim > 1:
                 d = d.reshape(size, 1)
             size_is_iterable = False
 
         # size and dim used to reshape generated tensor correctly before dividing by chi-square rvs
-        dim = 1 if not isinstance(cov, abc.Sized) else len(cov)
 
         if type_.casefold() == 'kshirsagar':
             r = mvn.rvs(mean, cov, size)
-- 
2.43.0


From 213089b681e3cbcba2354b807e50af405a7f9c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:23 +0000
Subject: [PATCH 105/112] fix: log likelihood of a single observation

pdf returns a plain float for one row, which has no sum().
---
 copulae/copula/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/copula/base.py b/copulae/copula/base.py
index 14e3149..91bec41 100644
--- a/copulae/copula/base.py
+++ b/copulae/copula/base.py
@@ -161,7 +161,7 @@ class BaseCopula(ABC, Generic[Param]):
             Log Likelihood
         """
         data = self.pobs(data, ties) if to_pobs else data
-        return self.pdf(data, log=True).sum()
+        return float(np.sum(self.pdf(data, log=True)))
 
     @property
     def name(self):
-- 
2.43.0


From d91b596422a83b06ec35c62baa40b3cf53397510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:50 +0000
Subject: [PATCH 106/112] fix: density of a copula with marginals outside the
 support of a marginal

The inner copula's density is undefined (NaN) on the boundary of the cube; the joint density there is 0, not NaN.
---
 copulae/marginal/marginal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/copulae/marginal/marginal.py b/copulae/marginal/marginal.py
index 2d42580..a4116ff 100644
--- a/copulae/marginal/marginal.py
+++ b/copulae/marginal/marginal.py
@@ -143,7 +143,10 @@ class MarginalCopula(BaseCopula[MarginalCopulaParam]):
                 density_margin *= m.pdf(xx)
 
         d = self._copula.pdf(u, log)
-        return (d + density_margin) if log else (d * density_margin)
+        # outside the support of a marginal the joint density is 0, even where the inner copula's density is undefined
+        if log:
+            return np.where(np.isneginf(density_margin), -np.inf, d + density_margin)
+        return np.where(density_margin == 0, 0., d * density_margin)
 
     @cast_output
     def random(self, n: int, seed: int = None) -> Union[np.ndarray, float]:
-- 
2.43.0


From a05cc179c7460a2e42e755a64bbcc62c69116737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:44 +0000
Subject: [PATCH 107/112] fix: log Gumbel polynomial of large arguments

---
 copulae/archimedean/gumbel.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index 33c0da3..58696d6 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -3,7 +3,7 @@ from collections import defaultdict
 from typing import Literal, Optional
 
 import numpy as np
-from scipy.special import gammaln
+from scipy.special import gammaln, logsumexp
 
 from copulae.copula import Summary, TailDep
 from copulae.special.special_func import polyn_eval, sign_ff, stirling_first_all, stirling_second_all
@@ -420,8 +420,7 @@ def _calculate_gumbel_poly(lx: np.ndarray, alpha: float, d: int, method: str, lo
         log_a_dk = gumbel_coef(d, alpha, method, True)
 
         log_x = log_a_dk[:, None] + k.reshape(-1, 1) @ lx.reshape(1, -1)
-        x = np.exp(log_x).sum(0)
-        return np.log(x) if log else x
+        return logsumexp(log_x, axis=0) if log else np.exp(log_x).sum(0)
 
 
 def _get_poly_method(lx: float, alpha: float, d: int):  # pragma: no cover
-- 
2.43.0


From ef6c012544c6aaacc4c2fb11b81c4a9fdcdcae3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:32 +0000
Subject: [PATCH 108/112] fix: Gaussian and mixture cdf of a batch without rows

---
 copulae/elliptical/gaussian.py | 2 ++
 copulae/mixtures/gmc/gmc.py    | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/copulae/elliptical/gaussian.py b/copulae/elliptical/gaussian.py
index a94c031..5acd2d3 100644
--- a/copulae/elliptical/gaussian.py
+++ b/copulae/elliptical/gaussian.py
@@ -48,6 +48,8 @@ class GaussianCopula(AbstractEllipticalCopula[np.ndarray]):
     @shape_first_input_to_cop_dim
     @squeeze_output
     def cdf(self, x: np.ndarray, log=False):
+        if len(x) == 0:
+            return np.empty(0)
         res = np.atleast_1d(mvn.cdf(norm.ppf(x), cov=self.sigma, allow_singular=True))
         res[np.any(np.asarray(x) == 0, axis=1)] = 0  # the bivariate routine gives NaN there
         return np.log(res) if log else res
diff --git a/copulae/mixtures/gmc/gmc.py b/copulae/mixtures/gmc/gmc.py
index 5a58b52..23b7de6 100644
--- a/copulae/mixtures/gmc/gmc.py
+++ b/copulae/mixtures/gmc/gmc.py
@@ -121,6 +121,9 @@ class GaussianMixtureCopula(BaseCopula[GMCParam]):
         if self.params is None:
             raise GMCNotFittedError
 
+        if len(x) == 0:
+            return np.empty(0)
+
         if log:
             return self._log_mixture(mvn.logcdf, x)
 
-- 
2.43.0


From 47302d98f226cc08d0ae3425def049724ba60b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:35 +0000
Subject: [PATCH 109/112] fix: Clayton generator with negative parameters next
 to 0

---
 copulae/archimedean/clayton.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/copulae/archimedean/clayton.py b/copulae/archimedean/clayton.py
index 8006ff3..e26814f 100644
--- a/copulae/archimedean/clayton.py
+++ b/copulae/archimedean/clayton.py
@@ -148,7 +148,9 @@ class ClaytonCopula(AbstractArchimedeanCopula):
             return np.exp(-s)
         elif self._theta > 0:
             return np.exp(-np.log1p(s) / self._theta)
-        return np.maximum(1 - s, 0.0) ** (-1 / self._theta)
+        # log1p keeps the accuracy when theta is close to 0
+        with np.errstate(divide='ignore'):
+            return np.exp(-np.log1p(-np.minimum(s, 1.0)) / self._theta)
 
     @cast_output
     def random(self, n: int, seed: int = None) -> np.ndarray:
-- 
2.43.0


From 8c3828c3818399fe6712a61aa2b2d646de88d66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:35 +0000
Subject: [PATCH 110/112] fix: Gumbel draws with large parameters

---
 copulae/archimedean/gumbel.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/copulae/archimedean/gumbel.py b/copulae/archimedean/gumbel.py
index 58696d6..3e8ffaf 100644
--- a/copulae/archimedean/gumbel.py
+++ b/copulae/archimedean/gumbel.py
@@ -7,8 +7,7 @@ from scipy.special import gammaln, logsumexp
 
 from copulae.copula import Summary, TailDep
 from copulae.special.special_func import polyn_eval, sign_ff, stirling_first_all, stirling_second_all
-from copulae.special.trig import cospi2
-from copulae.stats import poisson, random_uniform, skew_stable
+from copulae.stats import poisson, random_uniform
 from copulae.types import Array, Numeric
 from copulae.utility.annotations import *
 from ._shared import valid_rows_in_u
@@ -232,9 +231,14 @@ class GumbelCopula(AbstractArchimedeanCopula):
             return u
 
         alpha = 1 / self.params
-        fr = skew_stable.rvs(alpha, beta=1, gamma=cospi2(alpha) ** self.params, pm=1, size=n)
-
-        return self.psi(-np.log(u) / fr[:, None])
+        # logarithm of the positive stable frailty, which is too large or too small for a float when theta is large
+        angle = np.pi * (np.random.uniform(size=n) - 0.5)
+        w = np.random.standard_exponential(n)
+        at = alpha * (angle + np.pi / 2)
+        log_fr = np.log(np.sin(at)) - np.log(np.cos(angle)) / alpha + \
+                 (1 - alpha) / alpha * np.log(np.cos(angle - at) / w)
+
+        return np.exp(-np.exp((np.log(-np.log(u)) - log_fr[:, None]) * alpha))
 
     @property
     def rho(self):
-- 
2.43.0


From 10bbe02dc8a0aaa19dc7ea0227cbe4d3cc11ab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:35 +0000
Subject: [PATCH 111/112] fix: root finding with values whose product over- or
 underflows

---
 copulae/special/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copulae/special/optimize.py b/copulae/special/optimize.py
index dc5e6be..5f84227 100644
--- a/copulae/special/optimize.py
+++ b/copulae/special/optimize.py
@@ -59,7 +59,7 @@ def find_root(f, a, b, delta=1e-06, max_iter=1000):
     for _ in range(max_iter):
         assert np.isfinite(a) and np.isfinite(b), 'Could not find a root between intervals specified.'
 
-        if f(a) * f(b) >= 0:
+        if np.sign(f(a)) * np.sign(f(b)) >= 0:
             step = 0.01 * np.abs([a, b])
             step = np.max([step, np.full_like(step, delta)], 0)
 
@@ -68,6 +68,6 @@ def find_root(f, a, b, delta=1e-06, max_iter=1000):
         else:
             break
 
-    assert np.isfinite(a) and np.isfinite(b) and f(a) * f(b) < 0, 'Could not find a root between intervals specified.'
+    assert np.isfinite(a) and np.isfinite(b) and np.sign(f(a)) * np.sign(f(b)) < 0, 'Could not find a root between intervals specified.'
 
     return brentq(f, a, b, full_output=False)
-- 
2.43.0


From 893345dac313cdaa1608aae39b764be4fc7dd0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:35 +0000
Subject: [PATCH 112/112] fix: root finding of flat roots in wide brackets

---
 copulae/special/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copulae/special/optimize.py b/copulae/special/optimize.py
index 5f84227..0c8f3f8 100644
--- a/copulae/special/optimize.py
+++ b/copulae/special/optimize.py
@@ -70,4 +70,4 @@ def find_root(f, a, b, delta=1e-06, max_iter=1000):
 
     assert np.isfinite(a) and np.isfinite(b) and np.sign(f(a)) * np.sign(f(b)) < 0, 'Could not find a root between intervals specified.'
 
-    return brentq(f, a, b, full_output=False)
+    return brentq(f, a, b, maxiter=1000, full_output=False)
-- 
2.43.0

