From 9b9247f774d28ff8c2052a8093f5b961584264ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:28 +0000
Subject: [PATCH 01/43] fix: kbnsum reads the elements after an infinity with
 the array's stride

---
 src/kbnsum/kbnsum_gufunc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kbnsum/kbnsum_gufunc.h b/src/kbnsum/kbnsum_gufunc.h
index 83b95a2..77bd721 100644
--- a/src/kbnsum/kbnsum_gufunc.h
+++ b/src/kbnsum/kbnsum_gufunc.h
@@ -121,7 +121,7 @@ static void kbnsum_core_calc(
         }
         if (std::isinf(xk)) {
             for (npy_intp j = k + 1; j < n; ++j) {
-                T y = p_x[j];
+                T y = get(p_x, x_stride, j);
                 if (std::isnan(xk + y)) {
                     p_out[0] = std::numeric_limits<T>::quiet_NaN();
                     return;
-- 
2.43.0


From 3908e618a7a286f97dfc44d0beaf81db0646519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:28 +0000
Subject: [PATCH 02/43] fix: bincount ignores uint64 values of 2**63 and above
 instead of writing out of bounds

---
 src/bincount/bincount_gufunc.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bincount/bincount_gufunc.h b/src/bincount/bincount_gufunc.h
index 401b36d..1fd6c9d 100644
--- a/src/bincount/bincount_gufunc.h
+++ b/src/bincount/bincount_gufunc.h
@@ -36,7 +36,7 @@ bincount_core_calc(
         if (out_stride == sizeof(U)) {
             for (npy_intp i = 0; i < n; ++i) {
                 T k = p_x[i];
-                if (k >= 0 && static_cast<npy_intp>(k) < m) {
+                if (k >= 0 && static_cast<npy_uintp>(k) < static_cast<npy_uintp>(m)) {
                     p_out[k] += 1;
                 }
             }
@@ -44,7 +44,7 @@ bincount_core_calc(
         else {
             for (npy_intp i = 0; i < n; ++i) {
                 T k = p_x[i];
-                if (k >= 0 && static_cast<npy_intp>(k) < m) {
+                if (k >= 0 && static_cast<npy_uintp>(k) < static_cast<npy_uintp>(m)) {
                     set(p_out, out_stride, k, get(p_out, out_stride, k) + 1);
                 }
             }
@@ -53,7 +53,7 @@ bincount_core_calc(
     else {
         for (npy_intp i = 0; i < n; ++i) {
             T k = get(p_x, x_stride, i);
-            if (k >= 0 && static_cast<npy_intp>(k) < m) {
+            if (k >= 0 && static_cast<npy_uintp>(k) < static_cast<npy_uintp>(m)) {
                 set(p_out, out_stride, k, get(p_out, out_stride, k) + 1);
             }
         }
@@ -82,7 +82,7 @@ bincountw_core_calc(
 
     for (npy_intp i = 0; i < n; ++i) {
         T k = get(p_x, x_stride, i);
-        if (k >= 0 && static_cast<npy_intp>(k) < m) {
+        if (k >= 0 && static_cast<npy_uintp>(k) < static_cast<npy_uintp>(m)) {
             W w = get(p_w, w_stride, i);
             set<W>(p_out, static_cast<ptrdiff_t>(out_stride),
                    static_cast<ptrdiff_t>(k),
@@ -130,7 +130,7 @@ bincountw_complex_core_calc(
 
     for (npy_intp i = 0; i < n; ++i) {
         T k = get(p_x, x_stride, i);
-        if (k >= 0 && static_cast<npy_intp>(k) < m) {
+        if (k >= 0 && static_cast<npy_uintp>(k) < static_cast<npy_uintp>(m)) {
             W w = get(p_w, w_stride, i);
             W *p = (W *)((char *)p_out + k*out_stride);
             npy_complex_add_inplace(p, w);
-- 
2.43.0


From 749a11ce14146f97b6f8001bcca1d6bf3c10dbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:28 +0000
Subject: [PATCH 03/43] fix: bincount computes its default m without integer
 overflow

---
 ufunclab/_wrapped.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index 6ea4f82..3d34371 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -161,7 +161,7 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
     if x.dtype.char not in np.typecodes['AllInteger']:
         raise ValueError('x must be an integer array.')
     if m is None:
-        m = max(np.max(x) + 1, 0)
+        m = max(int(np.max(x)) + 1, 0)
     else:
         try:
             m = operator.index(m)
-- 
2.43.0


From 15e041ba6c883c2ffbb36df8235852df08470121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:28 +0000
Subject: [PATCH 04/43] fix: convert_to_base raises ValueError for base 0, and
 does not trap for base -1

---
 src/convert_to_base/convert_to_base_gufunc.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/convert_to_base/convert_to_base_gufunc.h b/src/convert_to_base/convert_to_base_gufunc.h
index 2ef4a74..a7bddb5 100644
--- a/src/convert_to_base/convert_to_base_gufunc.h
+++ b/src/convert_to_base/convert_to_base_gufunc.h
@@ -4,6 +4,8 @@
 #define PY_SSIZE_T_CLEAN
 #include "Python.h"
 
+#include <type_traits>
+
 #define NPY_NO_DEPRECATED_API NPY_API_VERSION
 #include "numpy/ndarraytypes.h"
 
@@ -20,6 +22,23 @@ static void convert_to_base_core_calc(
 {
     T k = *p_k;
     T base = *p_base;
+    if (base == 0) {
+        NPY_ALLOW_C_API_DEF
+        NPY_ALLOW_C_API
+            PyErr_SetString(PyExc_ValueError, "base must not be 0");
+        NPY_DISABLE_C_API
+        return;
+    }
+    if (base == static_cast<T>(-1)) {
+        if constexpr (std::is_signed_v<T>) {
+            // The division k / -1 overflows (and traps) for the smallest k;
+            // k % -1 is always 0.
+            for (npy_intp i = 0; i < n; ++i) {
+                set(p_out, out_stride, i, static_cast<T>(0));
+            }
+            return;
+        }
+    }
     for (npy_intp i = 0; i < n; ++i) {
         set(p_out, out_stride, i, static_cast<T>(k % base));
         k = k / base;
-- 
2.43.0


From 20d70e5592ac0613ce7c1139d31162f21e72f972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:28 +0000
Subject: [PATCH 05/43] fix: unwrap does not convert the number of periods to
 int

---
 src/unwrap/unwrap_gufunc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unwrap/unwrap_gufunc.h b/src/unwrap/unwrap_gufunc.h
index 37c59b8..d5671af 100644
--- a/src/unwrap/unwrap_gufunc.h
+++ b/src/unwrap/unwrap_gufunc.h
@@ -19,7 +19,7 @@ template<typename T>
 T unwrap1(T x0, T x1, T period)
 {
     T delta = x1 - x0;
-    int q = static_cast<int>(delta/period + std::copysign(0.5, delta));
+    T q = std::trunc(delta/period + std::copysign(static_cast<T>(0.5), delta));
     return x1 - q * period;
 }
 
-- 
2.43.0


From 82972a8691f7aeb1f5dadbb32fa17c0ddd160667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:28 +0000
Subject: [PATCH 06/43] fix: unwrap gives nan after a non-finite first element

---
 src/unwrap/unwrap_gufunc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unwrap/unwrap_gufunc.h b/src/unwrap/unwrap_gufunc.h
index d5671af..3af85b3 100644
--- a/src/unwrap/unwrap_gufunc.h
+++ b/src/unwrap/unwrap_gufunc.h
@@ -43,7 +43,7 @@ unwrap_core(
     p_out[0] = x0;
     for (npy_intp k = 1; k < n; ++k) {
         T x1 = get(p_x, x_stride, k);
-        if (!std::isfinite(x1)) {
+        if (!std::isfinite(x0) || !std::isfinite(x1)) {
             // inf or nan; output from here onwards is nan.
             for (npy_intp k1 = k; k1 < n; ++k1) {
                 set(p_out, out_stride, k1, static_cast<T>(NPY_NAN));
-- 
2.43.0


From 2c8b994f38c3742eae8e6cd1a5345be9a807a3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:28 +0000
Subject: [PATCH 07/43] fix: tri_area is not nan for degenerate triangles

---
 src/tri_area/tri_area_gufunc.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tri_area/tri_area_gufunc.h b/src/tri_area/tri_area_gufunc.h
index af58cfd..1f2ac6e 100644
--- a/src/tri_area/tri_area_gufunc.h
+++ b/src/tri_area/tri_area_gufunc.h
@@ -71,6 +71,10 @@ tri_area_common_calc(
     //
     T f1 = a + (b + c);
     T f2 = (c - (a - b));
+    if (f2 < 0) {
+        // Rounding errors in the lengths of a degenerate triangle.
+        f2 = 0;
+    }
     T f3 = (c + (a - b));
     T f4 = (a + (b - c));
     *p_out = std::sqrt(f1*f2*f3*f4)/4;
-- 
2.43.0


From 94a257c525e5e6bb1275ec721c8305a6c20696ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:28 +0000
Subject: [PATCH 08/43] fix: vnorm gives nan for nan elements and inf for
 infinite elements

---
 src/vnorm/vnorm_gufunc.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vnorm/vnorm_gufunc.h b/src/vnorm/vnorm_gufunc.h
index 659c797..4883ffa 100644
--- a/src/vnorm/vnorm_gufunc.h
+++ b/src/vnorm/vnorm_gufunc.h
@@ -78,12 +78,16 @@ static void vnorm_core_calc(
     for (int k = 0; k < n; ++k) {
         T current_x = get(p_x, x_stride, k);
         U abs_x = my_abs(current_x);
+        if (std::isnan(abs_x)) {
+            p_out[0] = abs_x;
+            return;
+        }
         if (abs_x > maxabsx) {
             maxabsx = abs_x;
         }
     }
-    if (maxabsx == 0) {
-        p_out[0] = 0;
+    if (maxabsx == 0 || std::isinf(maxabsx)) {
+        p_out[0] = maxabsx;
     }
     else {
         U sum = 0;
-- 
2.43.0


From 6738ecc2caf6edc0cb82c4d108ef29d8f92dabe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:28 +0000
Subject: [PATCH 09/43] fix: linear_interp1d does not read out of bounds for
 empty xp or nan x

---
 src/linear_interp1d/linear_interp1d_gufunc.c.src | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/linear_interp1d/linear_interp1d_gufunc.c.src b/src/linear_interp1d/linear_interp1d_gufunc.c.src
index 1462f61..df9e0e4 100644
--- a/src/linear_interp1d/linear_interp1d_gufunc.c.src
+++ b/src/linear_interp1d/linear_interp1d_gufunc.c.src
@@ -89,14 +89,14 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
     npy_intp xp_stride = steps[4];
     npy_intp fp_stride = steps[5];
 
-    if ((steps[0] == 0) && (steps[1] == 0)) {
+    if ((n > 0) && (steps[0] == 0) && (steps[1] == 0)) {
         @ctype@ x = *((@ctype@ *) px);
 
         @ctype@ left = *((@ctype@ *) pxp);
         @ctype@ right = *((@ctype@ *) (pxp + (n - 1)*xp_stride));
-        if ((x < left) || (x > right)) {
+        if (!((x >= left) && (x <= right))) {
             // No extrapolation. Output is NAN if x is outside the values
-            // given in xp.
+            // given in xp (or if x is NAN).
             for (int j = 0; j < nloops; ++j, pout += out_stride) {
                 *((@ctype@ *) pout) = NPY_NAN;
             }
@@ -133,9 +133,9 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
         @ctype@ x = *((@ctype@ *) px);
         @ctype@ left = *((@ctype@ *) pxp);
         @ctype@ right = *((@ctype@ *) (pxp + (n - 1)*xp_stride));
-        if ((x < left) || (x > right)) {
+        if (!((x >= left) && (x <= right))) {
             // No extrapolation. Output is NAN if x is outside the values
-            // given in xp.
+            // given in xp (or if x is NAN).
             *((@ctype@ *) pout) = NPY_NAN;
             continue;
         }
-- 
2.43.0


From 4f4ffe15f2210945e7bbd62e0164a1aa4b1eb96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:28 +0000
Subject: [PATCH 10/43] fix: percentileofscore gives nan for an undefined kind
 instead of leaving its output undefined

---
 src/percentileofscore/percentileofscore_gufunc.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/percentileofscore/percentileofscore_gufunc.h b/src/percentileofscore/percentileofscore_gufunc.h
index 1fab4fa..35b2520 100644
--- a/src/percentileofscore/percentileofscore_gufunc.h
+++ b/src/percentileofscore/percentileofscore_gufunc.h
@@ -81,6 +81,9 @@ percentileofscore_core_calc(
         case MEAN:
             *p_out = (2*nless + nequal)*50.0/n;
             return;
+        default:
+            *p_out = NPY_NAN;
+            return;
     }
 }
 
-- 
2.43.0


From e121d17d47271ab50fbae31cad9b655f1751b4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:28 +0000
Subject: [PATCH 11/43] fix: mad, rmad and gini of data with nan are nan

---
 src/mad/mad_gufunc.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mad/mad_gufunc.h b/src/mad/mad_gufunc.h
index 25e975b..f5b86de 100644
--- a/src/mad/mad_gufunc.h
+++ b/src/mad/mad_gufunc.h
@@ -47,6 +47,15 @@ static int unnormalized_mad(npy_intp n, T *p_x, npy_intp x_stride, T& sum, T& to
         }
     }
 
+    for (npy_intp k = 0; k < n; ++k) {
+        if (std::isnan(tmp[k])) {
+            // std::sort requires a strict weak ordering.
+            sum = tmp[k];
+            total = tmp[k];
+            return 0;
+        }
+    }
+
     try {
         std::sort(tmp.begin(), tmp.end());
     } catch (const std::bad_alloc& e) {
-- 
2.43.0


From 1714672c52d611643d90edfe907d5c094dcaa31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:28 +0000
Subject: [PATCH 12/43] fix: one_hot accepts unsigned integers

---
 ufunclab/_wrapped.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index 3d34371..d5cdbeb 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -372,7 +372,7 @@ def one_hot(k, n, *, out=None, axis=-1):
                              f'got {out.shape}.')
     else:
         out = np.empty(out_shape, dtype=k.dtype)
-    return _one_hot(k, out=out, axis=axis)
+    return _one_hot(k, out=out, axis=axis, casting='unsafe')
 
 
 one_hot.gufunc = _one_hot
-- 
2.43.0


From eaa3967ef5475693175d5e40a454e2e2b0ec3f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:28 +0000
Subject: [PATCH 13/43] fix: hypot3 gives nan for nan in any position

---
 src/hypot3/hypot3.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hypot3/hypot3.h b/src/hypot3/hypot3.h
index 5aab615..3d65c9a 100644
--- a/src/hypot3/hypot3.h
+++ b/src/hypot3/hypot3.h
@@ -21,6 +21,10 @@ T hypot3(T x, T y, T z)
     if (std::isinf(x) || std::isinf(y) || std::isinf(z)) {
         return std::numeric_limits<T>::infinity();
     }
+    // Likewise, std::hypot(0, nan, 0) might return 0.
+    if (std::isnan(x) || std::isnan(y) || std::isnan(z)) {
+        return std::numeric_limits<T>::quiet_NaN();
+    }
     return std::hypot(x, y, z);
 }
 
-- 
2.43.0


From 699932bf74c8de428b8b7495e5f45de9c59c3e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:28 +0000
Subject: [PATCH 14/43] fix: hyperbolic_ramp and exponential_ramp do not
 overflow when x/a does

---
 src/ramp/ramp.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ramp/ramp.h b/src/ramp/ramp.h
index f23a5db..3dd6f1a 100644
--- a/src/ramp/ramp.h
+++ b/src/ramp/ramp.h
@@ -63,6 +63,8 @@ T hyperbolic_ramp(T x, T a)
         return (x < 0) ? 0.0 : x;
     } else if (a < 0) {
         return std::numeric_limits<T>::quiet_NaN();
+    } else if (std::isinf(x/a)) {
+        return (x < 0) ? 0.0 : x;
     } else {
         return a*std_hyperbolic_ramp(x/a);
     }
@@ -98,6 +100,8 @@ T exponential_ramp(T x, T a)
         return (x < 0) ? 0.0 : x;
     } else if (a < 0) {
         return std::numeric_limits<T>::quiet_NaN();
+    } else if (std::isinf(x/a)) {
+        return (x < 0) ? 0.0 : x;
     } else {
         return a*std_exponential_ramp(x/a);
     }
-- 
2.43.0


From 260904cf1e2312045a85d66be1afc85eab36fc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:28 +0000
Subject: [PATCH 15/43] fix: swish gives its limit 0 at infinite x

---
 src/logistic/logistic.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/logistic/logistic.h b/src/logistic/logistic.h
index f208d66..d9e9497 100644
--- a/src/logistic/logistic.h
+++ b/src/logistic/logistic.h
@@ -33,7 +33,11 @@ T log_logistic(T x)
 template<typename T>
 T swish(T x, T beta)
 {
-    return x * logistic(beta * x);
+    T s = logistic(beta * x);
+    if (s == 0 && std::isinf(x)) {
+        return 0;
+    }
+    return x * s;
 }
 
 #endif  // UFUNCLAB_LOGISTIC_H
-- 
2.43.0


From ceebbb9b1ac5fb83c396b94003b4342ecdfe32bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:28 +0000
Subject: [PATCH 16/43] fix: ordered compares adjacent objects, not each with
 the first

---
 src/ordered/ordered_gufunc.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ordered/ordered_gufunc.h b/src/ordered/ordered_gufunc.h
index 5dc8515..d42ee98 100644
--- a/src/ordered/ordered_gufunc.h
+++ b/src/ordered/ordered_gufunc.h
@@ -143,6 +143,7 @@ static void ordered_core_object(
                 *p_out = false;
                 break;
             }
+            x1 = x2;
         }
     }
 }
-- 
2.43.0


From 4b2b2c26d84e161a599d8157dce706c09f55999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:28 +0000
Subject: [PATCH 17/43] fix: ordered is False when an ordering comparison
 involves nan

---
 src/ordered/ordered_gufunc.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ordered/ordered_gufunc.h b/src/ordered/ordered_gufunc.h
index d42ee98..15f6764 100644
--- a/src/ordered/ordered_gufunc.h
+++ b/src/ordered/ordered_gufunc.h
@@ -29,7 +29,7 @@ check_ordered(npy_intp n, const T *p_x, const npy_intp x_stride)
         T x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             T x2 = get(p_x, x_stride, k);
-            if (x1 >= x2) {
+            if (!(x1 < x2)) {
                 return false;
             }
             x1 = x2;
@@ -39,7 +39,7 @@ check_ordered(npy_intp n, const T *p_x, const npy_intp x_stride)
         T x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             T x2 = get(p_x, x_stride, k);
-            if (x1 > x2) {
+            if (!(x1 <= x2)) {
                 return false;
             }
             x1 = x2;
@@ -69,7 +69,7 @@ check_ordered(npy_intp n, const T *p_x, const npy_intp x_stride)
         T x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             T x2 = get(p_x, x_stride, k);
-            if (x1 <= x2) {
+            if (!(x1 > x2)) {
                 return false;
             }
             x1 = x2;
@@ -80,7 +80,7 @@ check_ordered(npy_intp n, const T *p_x, const npy_intp x_stride)
         T x1 = *p_x;
         for (npy_intp k = 1; k < n; ++k) {
             T x2 = get(p_x, x_stride, k);
-            if (x1 < x2) {
+            if (!(x1 >= x2)) {
                 return false;
             }
             x1 = x2;
-- 
2.43.0


From a2d146a306e11f3d02986e16ad73cfd354023633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:44 +0000
Subject: [PATCH 18/43] fix: searchsortedl and searchsortedr sort nan last,
 like numpy.searchsorted

---
 src/searchsorted/searchsorted_gufunc.c.src | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/searchsorted/searchsorted_gufunc.c.src b/src/searchsorted/searchsorted_gufunc.c.src
index c0f0a7b..eebd3db 100644
--- a/src/searchsorted/searchsorted_gufunc.c.src
+++ b/src/searchsorted/searchsorted_gufunc.c.src
@@ -203,9 +203,14 @@ SearchSortedTypeResolver(PyUFuncObject *ufunc,
 // ufunc inner loops for integer and floating point types.
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+#define INT_LT(a, b) ((a) < (b))
+// nan is sorted to the end.
+#define FLOAT_LT(a, b) ((a) < (b) || (isnan(b) && !isnan(a)))
+
 /**begin repeat
  * #typename  = int8,   int16,   int32,   int64,   uint8,   uint16,   uint32,   uint64,   float, double, longdouble#
  * #ctype     = int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint64_t, float, double, long double#
+ * #LT        = INT_LT*8, FLOAT_LT*3#
  */
 
 static npy_intp
@@ -215,7 +220,7 @@ _searchsortedl_@typename@(char *a, npy_intp len_a, npy_intp step, @ctype@ v)
     npy_intp hi = len_a;
     while (lo < hi) {
         npy_intp mid = (lo + hi)/2;
-        if (*(@ctype@ *)(a + mid*step) < v) {
+        if (@LT@(*(@ctype@ *)(a + mid*step), v)) {
             lo = mid + 1;
         }
         else {
@@ -232,7 +237,7 @@ _searchsortedr_@typename@(char *a, npy_intp len_a, npy_intp step, @ctype@ v)
     npy_intp hi = len_a;
     while (lo < hi) {
         npy_intp mid = (lo + hi)/2;
-        if (v < *(@ctype@ *)(a + mid*step)) {
+        if (@LT@(v, *(@ctype@ *)(a + mid*step))) {
             hi = mid;
         }
         else {
@@ -370,7 +375,7 @@ _searchsortedl_half(char *a, npy_intp len_a, npy_intp step, float v)
         npy_intp mid = (lo + hi)/2;
         npy_half m = *(npy_half *)(a + mid*step);
         float mf = npy_half_to_float(m);
-        if (mf < v) {
+        if (FLOAT_LT(mf, v)) {
             lo = mid + 1;
         }
         else {
@@ -389,7 +394,7 @@ _searchsortedr_half(char *a, npy_intp len_a, npy_intp step, float v)
         npy_intp mid = (lo + hi)/2;
         npy_half m = *(npy_half *)(a + mid*step);
         float mf = npy_half_to_float(m);
-        if (v < mf) {
+        if (FLOAT_LT(v, mf)) {
             hi = mid;
         }
         else {
-- 
2.43.0


From 6b0821c1d2ac65f85dee7a0cbe68bb37fff8fbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:12 +0000
Subject: [PATCH 19/43] fix: pmean and pmeanw keep long double precision

---
 src/means/means_gufunc.c.src | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index 149457a..a4ddad1 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -35,6 +35,7 @@
  * #ctype_in      = float, double, long double#
  * #ctype_out     = float, double, long double#
  * #funcsuffix    = f, , l#
+ * #pow           = pow, pow, powl#
  */
 
 @ctype_out@ gmean_@typename@_1d(char *arg, const npy_intp n, const npy_intp step)
@@ -413,9 +414,9 @@ static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
         @ctype_out@ scale = (p > 0) ? xmax : xmin;
         for (npy_intp k = 0; k < dimensions[1]; ++k, inner += inner_step) {
             @ctype_in@ x = *(@ctype_in@ *)inner;
-            sum += pow(x/scale, p);
+            sum += @pow@(x/scale, p);
         }
-        *(@ctype_out@ *) out = scale*pow(sum/dimensions[1], 1/p);
+        *(@ctype_out@ *) out = scale*@pow@(sum/dimensions[1], 1/p);
     }
 }
 
@@ -562,9 +563,9 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
             @ctype_in@ x = *(@ctype_in@ *) inner0;
             @ctype_in@ w = *(@ctype_in@ *) inner1;
             sumw += w;
-            sum += w*pow(x/scale, p);
+            sum += w*@pow@(x/scale, p);
         }
-        *(@ctype_out@ *) out = scale*pow(sum/sumw, 1/p);
+        *(@ctype_out@ *) out = scale*@pow@(sum/sumw, 1/p);
     }
 }
 
-- 
2.43.0


From 41a06a98d9ea31ead269a2d747d3aa7e9d1190a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:12 +0000
Subject: [PATCH 20/43] fix: pmean and pmeanw give nan for negative x also when
 p is -1

---
 src/means/means_gufunc.c.src | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index a4ddad1..c399b1f 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -350,14 +350,6 @@ static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
             *(@ctype_out@ *) out = gm;
             continue;
         }
-        else if (p == -1) {
-            // p == -1 is the harmonic mean.
-            char *args2[2] = {in0, out};
-            npy_intp dims2[2] = {1, dimensions[1]};
-            npy_intp steps2[3] = {in0_step, out_step, inner_step};
-            hmean_@typename@_loop(args2, dims2, steps2, NULL);
-            continue;
-        }
         // Get the min and max, and check for nan, inf and negative values.
         for (npy_intp k = 0; k < dimensions[1]; ++k, inner += inner_step) {
             @ctype_in@ x = *(@ctype_in@ *)inner;
@@ -386,6 +378,14 @@ static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
             *(@ctype_out@ *) out = NPY_NAN;
             continue;
         }
+        if (p == -1) {
+            // p == -1 is the harmonic mean.
+            char *args2[2] = {in0, out};
+            npy_intp dims2[2] = {1, dimensions[1]};
+            npy_intp steps2[3] = {in0_step, out_step, inner_step};
+            hmean_@typename@_loop(args2, dims2, steps2, NULL);
+            continue;
+        }
         if (xmax == xmin) {
             // All the values in x are the same.
             *(@ctype_out@ *) out = xmax;
@@ -494,12 +494,6 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
             *(@ctype_out@ *) out = gm;
             continue;
         }
-        else if (p == -1) {
-            // p == -1 is the harmonic mean.
-            *(@ctype_out@ *) out = hmeanw_@typename@_1d(in0, in1, dimensions[1],
-                                                        inner0_step, inner1_step);
-            continue;
-        }
         // Get the min and max, and check for nan, inf and negative values.
         for (npy_intp k = 0; k < dimensions[1]; ++k, inner0 += inner0_step,
                                                      inner1 += inner1_step) {
@@ -529,6 +523,12 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
             *(@ctype_out@ *) out = NPY_NAN;
             continue;
         }
+        if (p == -1) {
+            // p == -1 is the harmonic mean.
+            *(@ctype_out@ *) out = hmeanw_@typename@_1d(in0, in1, dimensions[1],
+                                                        inner0_step, inner1_step);
+            continue;
+        }
         if (xmax == xmin) {
             // All the values in x are the same.
             *(@ctype_out@ *) out = xmax;
-- 
2.43.0


From caa7a0957a600d13402fde52a245c48e6c1ab980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:12 +0000
Subject: [PATCH 21/43] fix: pmean and pmeanw of x with zeros or infinities are
 not nan for small p

---
 src/means/means_gufunc.c.src | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index c399b1f..3ea6434 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -333,7 +333,7 @@ static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
         if (fabs@funcsuffix@(p) < 2e-6) {
             // In the limit p == 0, the power mean becomes the geometric mean.
             @ctype_out@ gm = gmean_@typename@_1d(in0, dimensions[1], inner_step);
-            if (p != 0) {
+            if (p != 0 && gm > 0 && !isinf(gm)) {
                 npy_intp n = dimensions[1];
                 @ctype_out@ sumlnx = 0;
                 @ctype_out@ sumlnx_sq = 0;
@@ -472,7 +472,7 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
             // In the limit p == 0, the power mean becomes the geometric mean.
             @ctype_out@ gm = gmeanw_@typename@_1d(in0, in1, dimensions[1],
                                                   inner0_step, inner1_step);
-            if (p != 0) {
+            if (p != 0 && gm > 0 && !isinf(gm)) {
                 npy_intp n = dimensions[1];
                 @ctype_out@ sumlnx = 0;
                 @ctype_out@ sumlnx_sq = 0;
-- 
2.43.0


From 4e5cbcd1045ed3de412b27bf2e01e036899fefd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:41 +0000
Subject: [PATCH 22/43] fix: gendot stores the products with the item size of
 their own type

---
 src/gendot/gendotmodule.c | 17 ++++++++++++-----
 ufunclab/_gendot_wrap.py  |  4 ++++
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/gendot/gendotmodule.c b/src/gendot/gendotmodule.c
index 9edbc43..b009100 100644
--- a/src/gendot/gendotmodule.c
+++ b/src/gendot/gendotmodule.c
@@ -17,6 +17,7 @@ typedef struct gendot_data_t {
     void *prodfunc_loop_data;
     PyUFuncGenericFunction *sumfunc_loop;
     void *sumfunc_loop_data;
+    npy_intp prodfunc_loop_itemsize;
     npy_intp sumfunc_loop_itemsize;
     npy_intp sumfunc_nin;
     npy_intp sumfunc_has_identity; // actual values are only 0 or 1.
@@ -27,6 +28,7 @@ typedef struct gendot_data_t {
 
 #define PRODFUNC_LOOP(p)            (((gendot_data_t *)(p))->prodfunc_loop)
 #define PRODFUNC_LOOP_DATA(p)       (((gendot_data_t *)(p))->prodfunc_loop_data)
+#define PRODFUNC_LOOP_ITEMSIZE(p)   (((gendot_data_t *)(p))->prodfunc_loop_itemsize)
 #define SUMFUNC_LOOP(p)             (((gendot_data_t *)(p))->sumfunc_loop)
 #define SUMFUNC_LOOP_DATA(p)        (((gendot_data_t *)(p))->sumfunc_loop_data)
 #define SUMFUNC_LOOP_ITEMSIZE(p)    (((gendot_data_t *)(p))->sumfunc_loop_itemsize)
@@ -122,14 +124,16 @@ gendot_loop(char **args, const npy_intp *dimensions,
         }
     }
 
-    char *tmp = malloc(dimensions[1] * itemsize);
+    // tmp holds the output of prodfunc.
+    size_t tmp_itemsize = PRODFUNC_LOOP_ITEMSIZE(data);
+    char *tmp = malloc(dimensions[1] * tmp_itemsize);
     if (tmp == NULL) {
         NPY_ALLOW_C_API_DEF
         NPY_ALLOW_C_API
             PyErr_Format(PyExc_MemoryError,
                 "Unable to allocate %ld bytes (%ld items, each with size %ld) "
                 "for intermediate calculation",
-                dimensions[1] * itemsize, dimensions[1], itemsize);
+                dimensions[1] * tmp_itemsize, dimensions[1], tmp_itemsize);
         NPY_DISABLE_C_API
         return;
     }
@@ -145,7 +149,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
     }
     prodfunc_steps[0] = steps[3];
     prodfunc_steps[1] = steps[4];
-    prodfunc_steps[2] = itemsize;
+    prodfunc_steps[2] = tmp_itemsize;
 
     PyUFuncGenericFunction * sumfunc_loop = SUMFUNC_LOOP(data);
     void *sumfunc_loop_data = SUMFUNC_LOOP_DATA(data);
@@ -161,7 +165,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
             ((PyUFuncGenericFunction)prodfunc_loop)(prodfunc_args, prodfunc_dimensions,
                                                     prodfunc_steps, prodfunc_data);
             reduce(sumfunc_loop, sumfunc_loop_data,
-                   tmp, dimensions[1], itemsize, itemsize, pout);
+                   tmp, dimensions[1], tmp_itemsize, itemsize, pout);
         }
     }
     else {
@@ -171,7 +175,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
         // sumfunc_args[1] is updated in each iteration of the loop below.
         char *sumfunc_args[2] = {tmp, NULL};
         npy_intp sumfunc_dimensions[2] = {1, dimensions[1]};
-        npy_intp sumfunc_steps[3] = {0, 0, itemsize};
+        npy_intp sumfunc_steps[3] = {0, 0, tmp_itemsize};
         // Note that sumfunc_steps[0] and sumfunc_steps[1] will not actually be
         // used in sumfunc_loop, because sumfunc_dimensions[0] is 1.
 
@@ -315,6 +319,9 @@ gendot(PyObject *self, PyObject *args, PyObject *kwargs)
         gendot_data[i].sumfunc_loop = (PyUFuncGenericFunction *) sumfunc->functions[sum_index];
         gendot_data[i].sumfunc_loop_data = sumfunc->data[sum_index];
         gendot_data[i].sumfunc_nin = (npy_intp) sumfunc->nin;
+        PyArray_Descr *prod_descr = PyArray_DescrFromType(prodfunc->types[3*prod_index + 2]);
+        gendot_data[i].prodfunc_loop_itemsize = PyDataType_ELSIZE(prod_descr);
+        Py_DECREF(prod_descr);
         gendot_data[i].sumfunc_loop_itemsize = gendot_itemsizes[i];
         gendot_data[i].sumfunc_has_identity = (npy_intp) sumfunc_has_identity;
         memcpy(gendot_data[i].sumfunc_identity_buffer,
diff --git a/ufunclab/_gendot_wrap.py b/ufunclab/_gendot_wrap.py
index 93db795..bb6b00c 100644
--- a/ufunclab/_gendot_wrap.py
+++ b/ufunclab/_gendot_wrap.py
@@ -168,6 +168,10 @@ def gendot(prodfunc, sumfunc, name=None, doc=None):
         prod_outtype = prod_type.replace(' ', '')[-1]
         for j, sum_type in enumerate(sumfunc.types):
             sum_intype = sum_type.replace(' ', '').split('->')[0]
+            if sumfunc.nin == 2 and sum_type[-1] != prod_outtype:
+                # The output of sumfunc is also its first input in the
+                # reduction, so these must have the same type.
+                continue
             if sum_intype == sumfunc.nin*prod_outtype:
                 loop_indices.append((i, j))
                 dot_types.append((prod_type, sum_type))
-- 
2.43.0


From 4ebc9ac9b099746bcee1912bbdbbe7265476c196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:41 +0000
Subject: [PATCH 23/43] fix: gendot converts the identity -1 of bitwise_and to
 unsigned types

---
 ufunclab/_gendot_wrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ufunclab/_gendot_wrap.py b/ufunclab/_gendot_wrap.py
index bb6b00c..4037697 100644
--- a/ufunclab/_gendot_wrap.py
+++ b/ufunclab/_gendot_wrap.py
@@ -192,7 +192,7 @@ def gendot(prodfunc, sumfunc, name=None, doc=None):
     if sumfunc.identity is not None:
         sumfunc_has_identity = True
         for k, tc in enumerate(typechars):
-            identity = np.dtype(tc[-1]).type(sumfunc.identity)
+            identity = np.array(sumfunc.identity).astype(tc[-1])[()]
             size = identity.itemsize
             identity_bytes = identity.view(np.dtype(('B', (size,))))
             sumfunc_identity_array[k, :size] = identity_bytes
-- 
2.43.0


From bf7f538dd58eb44133d34892896aa19c238a53a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:41 +0000
Subject: [PATCH 24/43] fix: convert_to_base accepts uint64

---
 ufunclab/_wrapped.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index d5cdbeb..3c8cd88 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -252,6 +252,8 @@ def convert_to_base(k, base, ndigits, *, out=None, axis=-1):
 
     """
     k = np.asarray(k)
+    if k.dtype == np.uint64 and isinstance(base, int) and base >= 0:
+        base = np.uint64(base)
     base = np.asarray(base)
     try:
         ndigits = operator.index(ndigits)
@@ -270,7 +272,8 @@ def convert_to_base(k, base, ndigits, *, out=None, axis=-1):
             raise ValueError(f'out.shape must be {out_shape}; '
                              f'got {out.shape}.')
     else:
-        out = np.empty(out_shape, dtype=int)
+        dtype = np.uint64 if np.result_type(k, base) == np.uint64 else int
+        out = np.empty(out_shape, dtype=dtype)
     return _convert_to_base(k, base, out=out, axis=axis)
 
 
-- 
2.43.0


From dfe89134a5938a49be05a1a7ce6cf3e749e86ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:45 +0000
Subject: [PATCH 25/43] fix: percentileofscore truncates kind to int

A kind such as 2**32 + 1 was taken for an existing kind.
---
 src/percentileofscore/percentileofscore_gufunc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/percentileofscore/percentileofscore_gufunc.h b/src/percentileofscore/percentileofscore_gufunc.h
index 35b2520..8e77201 100644
--- a/src/percentileofscore/percentileofscore_gufunc.h
+++ b/src/percentileofscore/percentileofscore_gufunc.h
@@ -64,7 +64,7 @@ percentileofscore_core_calc(
 
     count(n, p_x, x_stride, *p_score, &nless, &nequal, &ngreater);
 
-    switch (static_cast<int>(*p_kind)) {
+    switch (*p_kind) {
         case RANK:
             sum = 2*nless + nequal;
             if (nequal > 0) {
-- 
2.43.0


From 6f2fb6d217fde17a2920e0ed8f6aa59ecdb576df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:53 +0000
Subject: [PATCH 26/43] fix: gmean and gmeanw of data with -inf give inf
 instead of nan

---
 src/means/means_gufunc.c.src | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index 3ea6434..7ec5bbd 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -58,16 +58,16 @@
             has_nan = true;
             break;
         }
+        else if (x < 0.0) {
+            has_neg = true;
+            break;
+        }
         else if (isinf(x)) {
             has_inf = true;
         }
         else if (x == 0) {
             has_zero = true;
         }
-        else if (x < 0.0) {
-            has_neg = true;
-            break;
-        }
         else {
             @ctype_out@ logx = log@funcsuffix@(x);
             sumlog += logx;
@@ -138,16 +138,16 @@ static void gmean_@typename@_loop(char **args, const npy_intp *dimensions,
             has_nan = true;
             break;
         }
+        else if (x < 0.0) {
+            has_neg = true;
+            break;
+        }
         else if (isinf(x)) {
             has_inf = true;
         }
         else if (x == 0) {
             has_zero = true;
         }
-        else if (x < 0.0) {
-            has_neg = true;
-            break;
-        }
         else {
             @ctype_out@ logx = log@funcsuffix@(x);
             sumlog += w*logx;
-- 
2.43.0


From 06032aaf8a10d5f0aafda1a420d38b5a6fb4e97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:15 +0000
Subject: [PATCH 27/43] fix: sosfilter functions leave the output undefined
 when there are no sections

---
 src/sosfilter/sosfilter_gufunc.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sosfilter/sosfilter_gufunc.h b/src/sosfilter/sosfilter_gufunc.h
index 69877cc..f73663c 100644
--- a/src/sosfilter/sosfilter_gufunc.h
+++ b/src/sosfilter/sosfilter_gufunc.h
@@ -40,6 +40,7 @@ static void sosfilter_ic_core(
         // Slight optimization when x and y are both contiguous arrays.
         for (npy_intp i = 0; i < n; ++i) {
             T xi = p_x[i];
+            p_y[i] = xi;  // y is x if there are no sections.
             for (npy_intp k = 0; k < m; ++k) {
 
                 // y[i] = sos[k, 0]*xi + zf[k, 0];
@@ -62,6 +63,7 @@ static void sosfilter_ic_core(
     else {
         for (npy_intp i = 0; i < n; ++i) {
             T xi = get(p_x, x_stride, i);
+            set(p_y, y_stride, i, xi);  // y is x if there are no sections.
             for (npy_intp k = 0; k < m; ++k) {
 
                 // y[i] = sos[k, 0]*xi + zf[k, 0];
@@ -110,6 +112,7 @@ static void sosfilter_ic_contig_core(
     for (npy_intp i = 0; i < n; ++i) {
         // T xi = get(p_x, x_stride, i);
         T xi = p_x[i];
+        p_y[i] = xi;  // y is x if there are no sections.
         for (npy_intp k = 0; k < m; ++k) {
 
             // y[i] = sos[k, 0]*xi + zf[k, 0];
-- 
2.43.0


From 0e69f41df16bf8067d9177732fcb39483f61b466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:07 +0000
Subject: [PATCH 28/43] fix: one_hot accepts uint64

---
 ufunclab/_wrapped.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index 3c8cd88..5af3412 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -375,7 +375,8 @@ def one_hot(k, n, *, out=None, axis=-1):
                              f'got {out.shape}.')
     else:
         out = np.empty(out_shape, dtype=k.dtype)
-    return _one_hot(k, out=out, axis=axis, casting='unsafe')
+    return _one_hot(k, out=out, axis=axis, casting='unsafe',
+                    signature=(np.intp, np.intp))
 
 
 one_hot.gufunc = _one_hot
-- 
2.43.0


From bf65fd05c81229ab853e67fbf80f124b682ecd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:58 +0000
Subject: [PATCH 29/43] fix: bincount accumulates into uninitialized memory
 when out needs a cast

---
 ufunclab/_wrapped.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index 5af3412..4f26717 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -44,6 +44,19 @@ def bad_integer_error(name, value):
     return ValueError(f"{name} must be an integer; got {value!r}")
 
 
+def _accumulate(gufunc, args, dtype, out, axes):
+    # Add the result of gufunc(*args), computed with type dtype, to out.
+    # gufunc itself adds to its output array, so an output for which NumPy
+    # would substitute an uninitialized temporary array (because it requires
+    # a cast, is not aligned, or overlaps the inputs) is not passed to it.
+    if (out.dtype == dtype and out.flags.aligned
+            and not any(np.may_share_memory(out, arg) for arg in args)):
+        return gufunc(*args, out=out, axes=axes)
+    total = np.zeros(out.shape, dtype=dtype)
+    gufunc(*args, out=total, axes=axes)
+    return np.add(out, total.astype(out.dtype, casting='same_kind'), out=out)
+
+
 def bincount(x, m=None, weights=None, *, out=None, axis=-1):
     """
     Count the number of occurrences of the positive integers in the 1-d
@@ -185,7 +198,11 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
         else:
             out = np.zeros(out_shape, dtype=weights.dtype)
 
-        return _bincountw(x, weights, out=out, axes=[axis, axis, axis])
+        dtype = weights.dtype.newbyteorder('=')
+        if dtype == np.float16:
+            dtype = np.dtype(np.float32)
+        return _accumulate(_bincountw, (x, weights), dtype, out,
+                           [axis, axis, axis])
     else:
         x_shape = x.shape
         adjusted_axis = _normalize_axis(x.ndim, axis)
@@ -199,7 +216,7 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
         else:
             out = np.zeros(out_shape, dtype=np.intp)
 
-        return _bincount(x, out=out, axes=[axis, axis])
+        return _accumulate(_bincount, (x,), np.intp, out, [axis, axis])
 
 
 bincount._bincount = _bincount
-- 
2.43.0


From 4ef1b5d286fe344d8d98fa3ffb3d8837c1a065ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:35 +0000
Subject: [PATCH 30/43] fix: ordered with an undefined op does not crash for
 object arrays

---
 src/ordered/ordered_gufunc.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ordered/ordered_gufunc.h b/src/ordered/ordered_gufunc.h
index 15f6764..6a53f07 100644
--- a/src/ordered/ordered_gufunc.h
+++ b/src/ordered/ordered_gufunc.h
@@ -130,6 +130,10 @@ static void ordered_core_object(
         npy_bool *p_out     // pointer to out
 ) {
     int op = *p_op;
+    if (op < Py_LT || op > Py_GE) {
+        // Like ordered_core(), treat any other value as GE.
+        op = Py_GE;
+    }
     *p_out = true;
     if (n > 1) {
         PyObject *x1 = *p_x;
-- 
2.43.0


From a4c5ed8038c754ec8ddeb27f17f439f36aed644d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:20 +0000
Subject: [PATCH 31/43] fix: object loops release the previous content of out

---
 src/cross/cross_gufunc.h               | 8 ++++----
 src/first/first_gufunc.h               | 5 ++---
 src/minmax/minmax_gufunc.h             | 8 ++++----
 src/peaktopeak/peaktopeak_gufunc.c.src | 2 +-
 4 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/cross/cross_gufunc.h b/src/cross/cross_gufunc.h
index 77eb24f..6b6a2be 100644
--- a/src/cross/cross_gufunc.h
+++ b/src/cross/cross_gufunc.h
@@ -106,9 +106,9 @@ cross3_core_calc_object(
         return;
     }
 
-    set(p_out, out_stride, 0, out0);
-    set(p_out, out_stride, 1, out1);
-    set(p_out, out_stride, 2, out2);
+    Py_XSETREF(*p_out, out0);
+    Py_XSETREF(*(PyObject **) ((char *) p_out + out_stride), out1);
+    Py_XSETREF(*(PyObject **) ((char *) p_out + 2*out_stride), out2);
 }
 
 //
@@ -156,7 +156,7 @@ cross2_core_calc_object(
     if (out == NULL) {
         return;
     }
-    p_out[0] = out;
+    Py_XSETREF(p_out[0], out);
 }
 
 #endif  // UFUNCLAB_CROSS_GUFUNC_H
diff --git a/src/first/first_gufunc.h b/src/first/first_gufunc.h
index d4e9ac5..a9f03b1 100644
--- a/src/first/first_gufunc.h
+++ b/src/first/first_gufunc.h
@@ -162,8 +162,7 @@ first_core_calc_object(
             int cmp = PyObject_RichCompareBool(x, target, py_op);
             if (cmp == -1) {
                 // Error occurred in PyObject_RichCompareBool().
-                result = NULL;
-                break;
+                return;
             }
             if (cmp == 1) {
                 result = x;
@@ -172,7 +171,7 @@ first_core_calc_object(
         }
     }
     Py_XINCREF(result);
-    *p_out = result;
+    Py_XSETREF(*p_out, result);
 }
 
 
diff --git a/src/minmax/minmax_gufunc.h b/src/minmax/minmax_gufunc.h
index 48e6815..5a2df0d 100644
--- a/src/minmax/minmax_gufunc.h
+++ b/src/minmax/minmax_gufunc.h
@@ -68,8 +68,8 @@ static void minmax_object_core(
     }
     Py_INCREF(xmin);
     Py_INCREF(xmax);
-    *p_out = xmin;
-    set(p_out, out_stride, 1, xmax);
+    Py_XSETREF(*p_out, xmin);
+    Py_XSETREF(*(PyObject **) ((char *) p_out + out_stride), xmax);
 }
 
 
@@ -283,7 +283,7 @@ static void min_argmin_object_core(
         }
     }
     Py_INCREF(xmin);
-    *p_out1 = xmin;
+    Py_XSETREF(*p_out1, xmin);
     *p_out2 = xmin_index;
 }
 
@@ -334,7 +334,7 @@ static void max_argmax_object_core(
         }
     }
     Py_INCREF(xmax);
-    *p_out1 = xmax;
+    Py_XSETREF(*p_out1, xmax);
     *p_out2 = xmax_index;
 }
 
diff --git a/src/peaktopeak/peaktopeak_gufunc.c.src b/src/peaktopeak/peaktopeak_gufunc.c.src
index 31ddbfa..2bb6bc3 100644
--- a/src/peaktopeak/peaktopeak_gufunc.c.src
+++ b/src/peaktopeak/peaktopeak_gufunc.c.src
@@ -227,7 +227,7 @@ static void peaktopeak_object_loop(char **args, const npy_intp *dimensions,
         if (diff == NULL) {
             return;
         }
-        *((PyObject **) out) = diff;
+        Py_XSETREF(*((PyObject **) out), diff);
     }
 }
 
-- 
2.43.0


From 739f07709972b9c85a053612a6759e612dea44c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:07 +0000
Subject: [PATCH 32/43] fix: object loops stop at the first exception

---
 tools/cxxgen/gufuncgen.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/cxxgen/gufuncgen.py b/tools/cxxgen/gufuncgen.py
index eda6fe3..dd1a87e 100644
--- a/tools/cxxgen/gufuncgen.py
+++ b/tools/cxxgen/gufuncgen.py
@@ -356,6 +356,12 @@ def generate_concrete_loop(name, corename, varnames,
             line.append(', ')
         text.append(''.join(line))
 
+    if 'PyObject *' in var_ctypes:
+        # Python code might have raised an exception.
+        text.append('        if (PyErr_Occurred()) {')
+        text.append('            return;')
+        text.append('        }')
+
     text.append('    }')
 
     text.append('}')
-- 
2.43.0


From f44eaf18dc0ecf8f0939ee6d2d8edee28ca64c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:19 +0000
Subject: [PATCH 33/43] fix: sosfilter: raise MemoryError when the internal
 state cannot be allocated

---
 src/sosfilter/sosfilter_gufunc.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sosfilter/sosfilter_gufunc.h b/src/sosfilter/sosfilter_gufunc.h
index f73663c..2f0bfb0 100644
--- a/src/sosfilter/sosfilter_gufunc.h
+++ b/src/sosfilter/sosfilter_gufunc.h
@@ -144,9 +144,16 @@ static void sosfilter_core(
 {
     npy_intp zi_strides[2];
 
-    // XXX FIXME: Check the return value of calloc for NULL.
-    // What to do if calloc() fails?
     T *zi = (T *) calloc(m*2, sizeof(T));
+    if (zi == NULL && m > 0) {
+        NPY_ALLOW_C_API_DEF
+        NPY_ALLOW_C_API
+            PyErr_Format(PyExc_MemoryError,
+                "Unable to allocate internal array for the state of %zd sections",
+                (Py_ssize_t) m);
+        NPY_DISABLE_C_API
+        return;
+    }
     zi_strides[0] = 2*sizeof(T);
     zi_strides[1] = sizeof(T);
     if (sos_strides[0] == 6*sizeof(T) && sos_strides[1] == sizeof(T)
-- 
2.43.0


From ab26b0238edb55d8243ac0a92e6b454feb6d628a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:47 +0000
Subject: [PATCH 34/43] fix: use npy_intp for the loop counters over array
 dimensions

---
 src/gendot/gendotmodule.c                        | 8 ++++----
 src/issnan/issnan_ufunc.c.src                    | 2 +-
 src/linear_interp1d/linear_interp1d_gufunc.c.src | 6 +++---
 src/tri_area/tri_area_gufunc.h                   | 2 +-
 src/vnorm/vnorm_gufunc.h                         | 8 ++++----
 tools/cxxgen/generate_ufunc_extmod.py            | 2 +-
 tools/cxxgen/gufuncgen.py                        | 2 +-
 7 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/gendot/gendotmodule.c b/src/gendot/gendotmodule.c
index b009100..1414508 100644
--- a/src/gendot/gendotmodule.c
+++ b/src/gendot/gendotmodule.c
@@ -73,7 +73,7 @@ reduce(PyUFuncGenericFunction *loop_function, void *loop_data,
     loop_steps[0] = stride;
     loop_steps[1] = stride;
     loop_steps[2] = stride;
-    for (int k = 1; k < n; ++k, data += stride) {
+    for (npy_intp k = 1; k < n; ++k, data += stride) {
         loop_args[1] = data;
         ((PyUFuncGenericFunction)loop_function)(loop_args, loop_dimensions, loop_steps, loop_data);
     }
@@ -107,7 +107,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
         if (SUMFUNC_HAS_IDENTITY(data)) {
             // Attempting to apply the reduction to empty sequences.
             // Return the identity element.
-            for (int j = 0; j < nloops; ++j, pout += steps[2]) {
+            for (npy_intp j = 0; j < nloops; ++j, pout += steps[2]) {
                 memcpy(pout, SUMFUNC_IDENTITY_BUFFER(data), itemsize);
             }
             return;
@@ -157,7 +157,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
     if (SUMFUNC_NIN(data) == 2) {
         // sumfunc is an element-wise ufunc with 2 inputs and 1 output.
 
-        for (int j = 0; j < nloops; ++j, px += steps[0],
+        for (npy_intp j = 0; j < nloops; ++j, px += steps[0],
                                          py += steps[1],
                                          pout += steps[2]) {
             prodfunc_args[0] = px;
@@ -179,7 +179,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
         // Note that sumfunc_steps[0] and sumfunc_steps[1] will not actually be
         // used in sumfunc_loop, because sumfunc_dimensions[0] is 1.
 
-        for (int j = 0; j < nloops; ++j, px += steps[0],
+        for (npy_intp j = 0; j < nloops; ++j, px += steps[0],
                                          py += steps[1],
                                          pout += steps[2]) {
             prodfunc_args[0] = px;
diff --git a/src/issnan/issnan_ufunc.c.src b/src/issnan/issnan_ufunc.c.src
index ca75ae8..5c42b6d 100644
--- a/src/issnan/issnan_ufunc.c.src
+++ b/src/issnan/issnan_ufunc.c.src
@@ -87,7 +87,7 @@ static void issnan_@typename@_loop(char **args, const npy_intp *dimensions,
     char *pout = args[1];
     npy_intp n = dimensions[0];
 
-    for (int j = 0; j < n; ++j, px += steps[0], pout += steps[1]) {
+    for (npy_intp j = 0; j < n; ++j, px += steps[0], pout += steps[1]) {
         @ctype@ x = *((@ctype@ *) px);
         *((npy_bool *) pout) = issnan@suffix@(x);
     }
diff --git a/src/linear_interp1d/linear_interp1d_gufunc.c.src b/src/linear_interp1d/linear_interp1d_gufunc.c.src
index df9e0e4..8f8634d 100644
--- a/src/linear_interp1d/linear_interp1d_gufunc.c.src
+++ b/src/linear_interp1d/linear_interp1d_gufunc.c.src
@@ -97,7 +97,7 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
         if (!((x >= left) && (x <= right))) {
             // No extrapolation. Output is NAN if x is outside the values
             // given in xp (or if x is NAN).
-            for (int j = 0; j < nloops; ++j, pout += out_stride) {
+            for (npy_intp j = 0; j < nloops; ++j, pout += out_stride) {
                 *((@ctype@ *) pout) = NPY_NAN;
             }
             return;
@@ -111,7 +111,7 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
             r = (x - xpk) / (xpk_next - xpk);
         }
 
-        for (int j = 0; j < nloops; ++j, pfp += steps[2], pout += steps[3]) {
+        for (npy_intp j = 0; j < nloops; ++j, pfp += steps[2], pout += steps[3]) {
             @ctype@ fpk = *((@ctype@ *) (pfp + k*fp_stride));
             if (x == xpk) {
                 *((@ctype@ *) pout) = fpk;
@@ -124,7 +124,7 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
         return;
     }
 
-    for (int j = 0; j < nloops; ++j, px += steps[0], pxp += steps[1], pfp += steps[2],
+    for (npy_intp j = 0; j < nloops; ++j, px += steps[0], pxp += steps[1], pfp += steps[2],
                                      pout += out_stride) {
         if (n < 1) {
             *((@ctype@ *) pout) = NPY_NAN;
diff --git a/src/tri_area/tri_area_gufunc.h b/src/tri_area/tri_area_gufunc.h
index 1f2ac6e..f83d01e 100644
--- a/src/tri_area/tri_area_gufunc.h
+++ b/src/tri_area/tri_area_gufunc.h
@@ -17,7 +17,7 @@ template<typename T>
 static T norm_diff(npy_intp n, T *p_p, const npy_intp p_strides[2], npy_intp i1, npy_intp i2)
 {
     T sumsq = 0.0;
-    for (int k = 0; k < n; ++k) {
+    for (npy_intp k = 0; k < n; ++k) {
         T x1 = get2d(p_p, p_strides, i1, k);
         T x2 = get2d(p_p, p_strides, i2, k);
         T dx = x2 - x1;
diff --git a/src/vnorm/vnorm_gufunc.h b/src/vnorm/vnorm_gufunc.h
index 4883ffa..1bdd235 100644
--- a/src/vnorm/vnorm_gufunc.h
+++ b/src/vnorm/vnorm_gufunc.h
@@ -75,7 +75,7 @@ static void vnorm_core_calc(
         return;
     }
 
-    for (int k = 0; k < n; ++k) {
+    for (npy_intp k = 0; k < n; ++k) {
         T current_x = get(p_x, x_stride, k);
         U abs_x = my_abs(current_x);
         if (std::isnan(abs_x)) {
@@ -91,7 +91,7 @@ static void vnorm_core_calc(
     }
     else {
         U sum = 0;
-        for (int k = 0; k < n; ++k) {
+        for (npy_intp k = 0; k < n; ++k) {
             T current_x = get(p_x, x_stride, k);
             U abs_x = my_abs(current_x);
             if (isinf(order)) {
@@ -212,12 +212,12 @@ static void vdot_core_calc(
     T sum = 0;
     if (x_stride == sizeof(T) && y_stride == sizeof(T)) {
         // Give the compiler a chance to optimize the contiguous case.
-        for (int k = 0; k < n; ++k) {
+        for (npy_intp k = 0; k < n; ++k) {
             sum += p_x[k] * p_y[k];
         }
     }
     else {
-        for (int k = 0; k < n; ++k) {
+        for (npy_intp k = 0; k < n; ++k) {
             T xk = get(p_x, x_stride, k);
             T yk = get(p_y, y_stride, k);
             sum += xk * yk;
diff --git a/tools/cxxgen/generate_ufunc_extmod.py b/tools/cxxgen/generate_ufunc_extmod.py
index 83df409..3e86360 100644
--- a/tools/cxxgen/generate_ufunc_extmod.py
+++ b/tools/cxxgen/generate_ufunc_extmod.py
@@ -222,7 +222,7 @@ def generate_ufunc_extmod(cxxgenpath, extmod, destdir):
                         print(f'    char *px{k} = args[{k}];', file=f)
                     print(f'    char *pout = args[{k+1}];', file=f)
                     print('    npy_intp n = dimensions[0];', file=f)
-                    print('    for (int j = 0; j < n; ++j,', file=f)
+                    print('    for (npy_intp j = 0; j < n; ++j,', file=f)
                     for k in range(nin):
                         print(' '*26, f'px{k} += steps[{k}],', file=f)
                     print(' '*26, f'pout += steps[{k+1}]) {{', file=f)
diff --git a/tools/cxxgen/gufuncgen.py b/tools/cxxgen/gufuncgen.py
index dd1a87e..87ee8a4 100644
--- a/tools/cxxgen/gufuncgen.py
+++ b/tools/cxxgen/gufuncgen.py
@@ -312,7 +312,7 @@ def generate_concrete_loop(name, corename, varnames,
         text.append('\n'.join(dim_asserts))
 
     text.append('')
-    text.append('    for (int j = 0; j < nloops; ++j, ')
+    text.append('    for (npy_intp j = 0; j < nloops; ++j, ')
     for k, varname in enumerate(varnames):
         line = []
         line.append(' '*32)
-- 
2.43.0


From 118481d0b92b4acf39a7fb47b32ab0290bd3ce77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:56 +0000
Subject: [PATCH 35/43] fix: mad does not overflow npy_intp in n*n for more
 than 3037000499 elements

---
 src/mad/mad_gufunc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mad/mad_gufunc.h b/src/mad/mad_gufunc.h
index f5b86de..dc5c2f9 100644
--- a/src/mad/mad_gufunc.h
+++ b/src/mad/mad_gufunc.h
@@ -100,7 +100,7 @@ static void mad_core(
         *p_out = 2*sum/n/(n-1);
     }
     else {
-        *p_out = 2*sum/(n*n);
+        *p_out = 2*sum/n/n;
     }
 }
 
-- 
2.43.0


From 08f38c502027f072170b74fb7705b80b552d139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:29 +0000
Subject: [PATCH 36/43] fix: docstrings of searchsortedr, pmeanw,
 multivariate_logbeta, pearson_corr and wjaccard name the function and its
 parameters

---
 src/corr/define_cxx_gufunc_extmod.py                 | 2 +-
 src/means/means_gufunc.c.src                         | 4 ++--
 src/multivariate_logbeta/define_cxx_gufunc_extmod.py | 2 +-
 src/searchsorted/searchsorted_gufunc.c.src           | 2 +-
 src/wjaccard/define_cxx_gufunc_extmod.py             | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/corr/define_cxx_gufunc_extmod.py b/src/corr/define_cxx_gufunc_extmod.py
index d7b402f..c0830f6 100644
--- a/src/corr/define_cxx_gufunc_extmod.py
+++ b/src/corr/define_cxx_gufunc_extmod.py
@@ -2,7 +2,7 @@ from ufunc_config_types import UFuncExtMod, UFunc, UFuncSource
 
 
 PEARSON_CORR_DOCSTRING = """\
-pearson_corr(x, y, /, *)
+pearson_corr(x, y, /, ...)
 
 Pearson's product-moment correlation coefficient.
 
diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index 7ec5bbd..b5f5927 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -733,7 +733,7 @@ static struct PyModuleDef moduledef = {
 "If any value in x is negative, nan is returned.\n"
 
 #define PMEANW_DOCSTRING \
-"pmean(x, weights, p, /, ...)\n"                                           \
+"pmeanw(x, weights, p, /, ...)\n"                                          \
 "\n"                                                                       \
 "Weighted power mean (aka weighted generalized mean) of x.\n"              \
 "\n"
@@ -793,7 +793,7 @@ PyMODINIT_FUNC PyInit__means(void)
     }
 
     // Create the pmeanw ufunc.
-    if (ul_define_gufunc(module, "pmeanw", PMEAN_DOCSTRING, "(n),(n),()->()",
+    if (ul_define_gufunc(module, "pmeanw", PMEANW_DOCSTRING, "(n),(n),()->()",
                          PMEANW_NTYPES,
                          pmeanw_funcs, pmeanw_data, pmeanw_typecodes) == NULL) {
         Py_DECREF(module);
diff --git a/src/multivariate_logbeta/define_cxx_gufunc_extmod.py b/src/multivariate_logbeta/define_cxx_gufunc_extmod.py
index 072044f..fc4ca06 100644
--- a/src/multivariate_logbeta/define_cxx_gufunc_extmod.py
+++ b/src/multivariate_logbeta/define_cxx_gufunc_extmod.py
@@ -1,7 +1,7 @@
 from ufunc_config_types import UFuncExtMod, UFunc, UFuncSource
 
 MULTIVARIATE_LOGBETA_DOCSTRING = """\
-multivariate_logebta(x, /, ...)
+multivariate_logbeta(x, /, ...)
 
 Compute the logarithm of the multivariate beta function B(x).
 
diff --git a/src/searchsorted/searchsorted_gufunc.c.src b/src/searchsorted/searchsorted_gufunc.c.src
index eebd3db..4f09c37 100644
--- a/src/searchsorted/searchsorted_gufunc.c.src
+++ b/src/searchsorted/searchsorted_gufunc.c.src
@@ -513,7 +513,7 @@ static struct PyModuleDef moduledef = {
 "\n"
 
 #define SEARCHSORTEDR_DOCSTRING                                 \
-"searchsortedl(sortedarr, elements, /, ...)\n"                  \
+"searchsortedr(sortedarr, elements, /, ...)\n"                  \
 "\n"                                                            \
 "TODO...\n"                                                     \
 "\n"
diff --git a/src/wjaccard/define_cxx_gufunc_extmod.py b/src/wjaccard/define_cxx_gufunc_extmod.py
index 7392687..c29671d 100644
--- a/src/wjaccard/define_cxx_gufunc_extmod.py
+++ b/src/wjaccard/define_cxx_gufunc_extmod.py
@@ -2,7 +2,7 @@ from ufunc_config_types import UFuncExtMod, UFunc, UFuncSource
 
 
 WJACCARD_DOCSTRING = """\
-wjaccard(x, y, /, *)
+wjaccard(x, y, /, ...)
 
 Weighted Jaccard index Jw(x, y):
 
-- 
2.43.0


From 303a291025820126c8ef4b4d07c81139a4cc21d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:40 +0000
Subject: [PATCH 37/43] fix: wrappers of the set reductions accept array-like
 arguments with axis=None

---
 tools/uwrap/uwrap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/uwrap/uwrap.py b/tools/uwrap/uwrap.py
index f0de3c3..55a9032 100644
--- a/tools/uwrap/uwrap.py
+++ b/tools/uwrap/uwrap.py
@@ -226,9 +226,10 @@ def _process_axis_for_set_reduction_func(x, axis):
     with the input can be considered to be an unordered set.
     """
     if axis is None:
-        x = x.ravel()
+        x = np.ravel(x)
         axis = -1
     elif isinstance(axis, tuple):
+        x = np.asanyarray(x)
         # Move the dimensions in axis to the end.
         x = np.moveaxis(x, axis, tuple(range(-1, -1-len(axis), -1)))
         # Flatten those final dimensions into a single dimension.
-- 
2.43.0


From b0dc1bc17ef83ee25050748a3ca4bcf524ba912f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:40 +0000
Subject: [PATCH 38/43] fix: wrappers of the set reductions accept a tuple of
 axes of an array of size 0

---
 tools/uwrap/uwrap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/uwrap/uwrap.py b/tools/uwrap/uwrap.py
index 55a9032..27525e8 100644
--- a/tools/uwrap/uwrap.py
+++ b/tools/uwrap/uwrap.py
@@ -233,7 +233,9 @@ def _process_axis_for_set_reduction_func(x, axis):
         # Move the dimensions in axis to the end.
         x = np.moveaxis(x, axis, tuple(range(-1, -1-len(axis), -1)))
         # Flatten those final dimensions into a single dimension.
-        x = x.reshape(x.shape[:x.ndim - len(axis)] + (-1,))
+        # (The length is given, not -1, because x might have size 0.)
+        k = x.ndim - len(axis)
+        x = x.reshape(x.shape[:k] + (np.prod(x.shape[k:], dtype=int),))
         axis = -1
     return x, axis
 '''
-- 
2.43.0


From d9db0686145aa64ccc7ab7fcb2d8704264a2d656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:19 +0000
Subject: [PATCH 39/43] fix: erfcx, normal and semivar are in ufunclab.__all__

---
 ufunclab/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ufunclab/__init__.py b/ufunclab/__init__.py
index 80654ad..94af9f6 100644
--- a/ufunclab/__init__.py
+++ b/ufunclab/__init__.py
@@ -140,7 +140,8 @@ class op:
 del _np, _LT, _LE, _EQ, _NE, _GT, _GE, _RANK, _WEAK, _STRICT, _MEAN
 
 __all__ = sorted(list(_name_to_module.keys()) +
-                 ['first', 'argfirst', 'op', 'percentileofscore'])
+                 ['first', 'argfirst', 'op', 'percentileofscore',
+                  'erfcx', 'normal', 'semivar'])
 
 
 def __dir__():
-- 
2.43.0


From 0c3bb8276a7bd007d72aa02a0f1c94ed30cccbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:27 +0000
Subject: [PATCH 40/43] fix: to_lines of uwrap.py does not loop forever when a
 part is longer than a line

---
 tools/uwrap/uwrap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/uwrap/uwrap.py b/tools/uwrap/uwrap.py
index 27525e8..29ef2ad 100644
--- a/tools/uwrap/uwrap.py
+++ b/tools/uwrap/uwrap.py
@@ -85,7 +85,9 @@ def to_lines(line, offset):
     while len(parts) > 0:
         k = 0
         n = 0
-        while k != len(parts) and n + pad + len(parts[k]) + 2 < 80:
+        # There is at least one part in each line, even if it doesn't fit.
+        while k != len(parts) and (k == 0
+                                   or n + pad + len(parts[k]) + 2 < 80):
             n += len(parts[k]) + 2
             k += 1
         if k == len(parts):
-- 
2.43.0


From ee6bafa2d0f0f46b5ec30e2ba637751c158e1cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:28 +0000
Subject: [PATCH 41/43] fix: gufunc generator: a core dimension named j (or
 args, steps, ...) does not clash with the variables of the loop function

---
 tools/cxxgen/gufuncgen.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/cxxgen/gufuncgen.py b/tools/cxxgen/gufuncgen.py
index 87ee8a4..eb9d052 100644
--- a/tools/cxxgen/gufuncgen.py
+++ b/tools/cxxgen/gufuncgen.py
@@ -304,7 +304,7 @@ def generate_concrete_loop(name, corename, varnames,
                                f'assert(dimensions[{k+1}] == {core_dim});')
         else:
             text.append('    '
-                        f'npy_intp {core_dim} = dimensions[{k+1}];'
+                        f'npy_intp dim_{core_dim} = dimensions[{k+1}];'
                         '  // core dimension')
 
     if len(dim_asserts) > 0:
@@ -327,7 +327,8 @@ def generate_concrete_loop(name, corename, varnames,
     else:
         template_params = ''
     text.append(f'        {corename}{template_params}(')
-    core_dim_symbols = [dim for dim in core_dims if not isinstance(dim, int)]
+    core_dim_symbols = [f'dim_{dim}' for dim in core_dims
+                        if not isinstance(dim, int)]
     if len(core_dim_symbols) > 0:
         sp = ' '*16
         text.append(sp + f'{", ".join(core_dim_symbols)},  '
-- 
2.43.0


From 91c17e7d9e11d3e8ec563da74b8a74e7ab7bf708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:28 +0000
Subject: [PATCH 42/43] fix: gufunc generator: object type among several types
 of a templated core function

---
 tools/cxxgen/gufuncgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/cxxgen/gufuncgen.py b/tools/cxxgen/gufuncgen.py
index eb9d052..e7e4473 100644
--- a/tools/cxxgen/gufuncgen.py
+++ b/tools/cxxgen/gufuncgen.py
@@ -265,7 +265,7 @@ def generate_declaration(name, signature,
 
 def concrete_loop_function_name(corename, typecodes):
     ctypes = [typechar_to_npy_ctype(c) for c in typecodes]
-    ctypes_id = [r.replace(' ', '').replace('npy_', '')
+    ctypes_id = [r.replace(' *', '').replace('npy_', '')
                  for r in ctypes]
     loop_func_name = '_'.join(['loop', corename] + ctypes_id)
     return loop_func_name
-- 
2.43.0


From b19cb85caf37c04091431c34960357c119ef0b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:55 +0000
Subject: [PATCH 43/43] fix: conv_template: apply the documented :exclude: of
 nested loops

---
 tools/conv_template.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/tools/conv_template.py b/tools/conv_template.py
index 7e1fe82..ae0629f 100644
--- a/tools/conv_template.py
+++ b/tools/conv_template.py
@@ -201,11 +201,12 @@ def parse_loop_header(loophead):
 
     for obj in exclude_re.finditer(loophead):
         span = obj.span()
-        # find next newline
-        endline = loophead.find('\n', span[1])
-        substr = loophead[span[1]:endline]
+        # The newlines are gone, so the exclusion ends where the next
+        # replacement or the next exclusion starts.
+        substr = re.split('[#:]', loophead[span[1]:], maxsplit=1)[0]
         ex_names = exclude_vars_re.findall(substr)
-        excludes.append(dict(ex_names))
+        if ex_names:
+            excludes.append(dict(ex_names))
 
     # generate list of dictionaries, one for each template iteration
     dlist = []
@@ -214,7 +215,7 @@ def parse_loop_header(loophead):
     for i in range(nsub):
         tmp = {name: vals[i] for name, vals in names}
         dlist.append(tmp)
-    return dlist
+    return dlist, excludes
 
 
 replace_re = re.compile(r"@(\w+)@")
@@ -247,12 +248,16 @@ def parse_string(astr, env, level, line):
             newline = line + sub[4]
             code.append(replace_re.sub(replace, pref))
             try:
-                envlist = parse_loop_header(head)
+                envlist, excludes = parse_loop_header(head)
             except ValueError as e:
                 msg = "line %d: %s" % (newline, e)
                 raise ValueError(msg)
             for newenv in envlist:
                 newenv.update(env)
+                if any(all(newenv.get(name) == value
+                           for name, value in exclude.items())
+                       for exclude in excludes):
+                    continue
                 newcode = parse_string(text, newenv, newlevel, newline)
                 code.extend(newcode)
         suff = astr[oldend:]
-- 
2.43.0

