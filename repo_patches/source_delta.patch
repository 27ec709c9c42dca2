From a313720732ce13e9bf4b1f1327d1ea0a8ecde68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:57 +0000
Subject: [PATCH 01/15] fix: pairwise_distances(x, y) returned the transposed
 matrix

The generic implementation (the one used for every array, see
_can_be_numpy_double) put the points of y in the rows, so that the result
was l x n with entry (i, j) the distance between y[i] and x[j].
---
 dcor/distances.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcor/distances.py b/dcor/distances.py
index 5a5c579..3e72cd9 100644
--- a/dcor/distances.py
+++ b/dcor/distances.py
@@ -27,8 +27,8 @@ def _cdist_naive(x: Array, y: Array, exponent: float = 1) -> Array:
     x = xp.asarray(x)
     y = xp.asarray(y)
 
-    x = xp.expand_dims(x, axis=0)
-    y = xp.expand_dims(y, axis=1)
+    x = xp.expand_dims(x, axis=1)
+    y = xp.expand_dims(y, axis=0)
 
     squared_norms = xp.sum(((x - y) ** 2), axis=-1)
 
-- 
2.43.0


From 2a5d467aabb0c25d10e27658f69aa8b5703f2b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:15 +0000
Subject: [PATCH 02/15] fix: integer and boolean samples overflowed silently

Narrow, unsigned or large integers wrapped around in the differences and
products computed by every method (for example, uint8 samples in the naive
method gave wrong distances), and the compiled and uncompiled methods
disagreed. Convert them to floating point first.
---
 dcor/_utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dcor/_utils.py b/dcor/_utils.py
index 4d41b8c..6498d4e 100644
--- a/dcor/_utils.py
+++ b/dcor/_utils.py
@@ -111,12 +111,20 @@ def _sqrt(x: T) -> T:
         return x_copy**0.5
 
 
+def _integers_to_float(xp: Any, array: T) -> T:
+    """Convert integers and booleans to float, as they may overflow."""
+    if xp.isdtype(array.dtype, ("bool", "integral")):
+        return xp.astype(array, xp.float64)
+
+    return array
+
+
 def _transform_to_1d(*args: T) -> Iterable[T]:
     """Convert column matrices to vectors, to always have a 1d shape."""
     xp = array_namespace(*args)
 
     for array in args:
-        array = xp.asarray(array)
+        array = _integers_to_float(xp, xp.asarray(array))
 
         dim = len(array.shape)
         assert dim <= 2
@@ -133,7 +141,7 @@ def _transform_to_2d(*args: T) -> Iterable[T]:
     xp = array_namespace(*args)
 
     for array in args:
-        array = xp.asarray(array)
+        array = _integers_to_float(xp, xp.asarray(array))
 
         dim = len(array.shape)
         assert dim <= 2
-- 
2.43.0


From 8f271d96cf5f8ccf03da9c98c8e729ea34a72aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:15 +0000
Subject: [PATCH 03/15] fix: mergesort method accepted samples of different
 sizes

The compiled kernel does no bounds checking, so with x longer than y it read
past the end of y, and with x shorter it ignored part of y.
---
 dcor/_fast_dcov_mergesort.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dcor/_fast_dcov_mergesort.py b/dcor/_fast_dcov_mergesort.py
index 74aa299..5ad866a 100644
--- a/dcor/_fast_dcov_mergesort.py
+++ b/dcor/_fast_dcov_mergesort.py
@@ -19,6 +19,7 @@ import numpy as np
 from numba import boolean, float64
 from numba.types import Tuple as NumbaTuple
 
+from ._dcor_internals import _check_same_n_elements
 from ._dcor_internals_numba import (
     NumbaMatrix,
     NumbaMatrixReadOnly,
@@ -394,6 +395,8 @@ def _distance_covariance_sqr_terms_mergesort(
     if not isinstance(x, np.ndarray):
         raise ValueError("AVL method is only implemented for NumPy arrays.")
 
+    _check_same_n_elements(x, y)
+
     if compile_mode not in impls_dict:
         raise NotImplementedError(
             f"Compile mode {compile_mode} not implemented.",
-- 
2.43.0


From eb8e968425ef98791778b64d9c8f2fb9d5ad780e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:50 +0000
Subject: [PATCH 04/15] fix: fast methods lost all precision for samples with
 an offset

The AVL and mergesort methods multiply the raw values, so the distance
correlation of a constant sample such as 0.1 could be 3.7, and adding 1e8 to
the samples changed their correlation from 0.34 to 0.47 or 0.21.
---
 dcor/_fast_dcov_avl.py       | 5 +++++
 dcor/_fast_dcov_mergesort.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/dcor/_fast_dcov_avl.py b/dcor/_fast_dcov_avl.py
index eb58932..6b23121 100644
--- a/dcor/_fast_dcov_avl.py
+++ b/dcor/_fast_dcov_avl.py
@@ -212,6 +212,11 @@ def _get_impl_args(
     assert n == y.shape[0]
     temp = np.arange(n)
 
+    # Distances are not affected by translations, but removing the offset
+    # prevents catastrophic cancellation.
+    x = x - np.min(x)
+    y = y - np.min(y)
+
     argsort_x = np.argsort(x)
     vx = x[argsort_x]
 
diff --git a/dcor/_fast_dcov_mergesort.py b/dcor/_fast_dcov_mergesort.py
index 5ad866a..0968f5f 100644
--- a/dcor/_fast_dcov_mergesort.py
+++ b/dcor/_fast_dcov_mergesort.py
@@ -233,6 +233,11 @@ def _generate_distance_covariance_sqr_terms_mergesort_impl(
             else _compute_row_sums
         )
 
+        # Distances are not affected by translations, but removing the offset
+        # prevents catastrophic cancellation.
+        x = x - np.min(x)
+        y = y - np.min(y)
+
         n = x.shape[0]
 
         # Sort x in ascending order
-- 
2.43.0


From 51e0cbdf5105d08e07827795e5102cee6d5cc43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:10 +0000
Subject: [PATCH 05/15] fix: mergesort method failed with exact numeric types

The uncompiled version called item() over the elements of the array, which
Fraction, Decimal and int objects do not have.
---
 dcor/_fast_dcov_mergesort.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcor/_fast_dcov_mergesort.py b/dcor/_fast_dcov_mergesort.py
index 0968f5f..b2db0c9 100644
--- a/dcor/_fast_dcov_mergesort.py
+++ b/dcor/_fast_dcov_mergesort.py
@@ -94,7 +94,7 @@ def _compute_weight_sums(
                 previous_index_1 = previous_indexes[subarray_1_idx]
                 previous_index_2 = previous_indexes[subarray_2_idx]
 
-                if y[previous_index_1].item() >= y[previous_index_2].item():
+                if y[previous_index_1] >= y[previous_index_2]:
                     current_indexes[indexes_idx] = previous_index_1
                     subarray_1_idx += 1
                 else:
@@ -172,7 +172,7 @@ def _generate_compute_aijbij_term(
 
         d = 4 * sums_term - 2 * cov_term
 
-        return d.item()
+        return d
 
     return _compute_aijbij_term
 
-- 
2.43.0


From 936719f6470da187ff9b7ecee7bf0ca2a09433af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:10 +0000
Subject: [PATCH 06/15] fix: U-statistic energy distance failed with Array API
 arrays

The shape argument of reshape has to be a tuple in the Array API standard.
---
 dcor/_energy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcor/_energy.py b/dcor/_energy.py
index dc4eee7..227220a 100644
--- a/dcor/_energy.py
+++ b/dcor/_energy.py
@@ -79,8 +79,8 @@ def _get_flat_upper_matrix(x: Array, k: int) -> Array:
     """Get flat upper matrix from diagonal k."""
     xp = array_namespace(x)
     x_mask = xp.triu(xp.ones_like(x, dtype=xp.bool), k=k)
-    x_mask_flat = xp.reshape(x_mask, -1)
-    x_flat = xp.reshape(x, -1)
+    x_mask_flat = xp.reshape(x_mask, (-1,))
+    x_flat = xp.reshape(x, (-1,))
 
     return x_flat[x_mask_flat]
 
-- 
2.43.0


From b537b47e33596387ac00999e25e6de8e8ef63ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:34 +0000
Subject: [PATCH 07/15] fix: distances between points with different number of
 components were accepted

---
 dcor/distances.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dcor/distances.py b/dcor/distances.py
index 3e72cd9..78703d6 100644
--- a/dcor/distances.py
+++ b/dcor/distances.py
@@ -158,4 +158,12 @@ def pairwise_distances(
         return _pdist(x, exponent=exponent)
 
     x, y = _transform_to_2d(x, y)
+
+    if x.shape[1] != y.shape[1]:
+        raise ValueError(
+            f"x and y must have the same number of components. The "
+            f"number of components of x is {x.shape[1]} while the "
+            f"number of components of y is {y.shape[1]}.",
+        )
+
     return _cdist(x, y, exponent=exponent)
-- 
2.43.0


From aa6c2276121ce63f5a8935fdc3ebb838f391a972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:03 +0000
Subject: [PATCH 08/15] fix: partial distance correlation and t statistic lost
 the array type

---
 dcor/_partial_dcor.py | 12 ++++++------
 dcor/independence.py  |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/dcor/_partial_dcor.py b/dcor/_partial_dcor.py
index e9b58f4..d5285dc 100644
--- a/dcor/_partial_dcor.py
+++ b/dcor/_partial_dcor.py
@@ -3,14 +3,12 @@ from __future__ import annotations
 
 from typing import TypeVar
 
-import numpy as np
-
 from ._dcor_internals import (
     _u_distance_matrix,
     u_complementary_projection,
     u_product,
 )
-from ._utils import ArrayType, _sqrt
+from ._utils import ArrayType, _sqrt, array_namespace
 
 Array = TypeVar("Array", bound=ArrayType)
 
@@ -157,17 +155,19 @@ def partial_distance_correlation(
     ac = u_product(a, c)
     bc = u_product(b, c)
 
+    xp = array_namespace(a, b, c)
+
     denom_sqr = aa * bb
     r_xy = ab / _sqrt(denom_sqr) if denom_sqr != 0 else denom_sqr
-    r_xy = np.clip(r_xy, -1, 1)
+    r_xy = xp.clip(r_xy, -1, 1)
 
     denom_sqr = aa * cc
     r_xz = ac / _sqrt(denom_sqr) if denom_sqr != 0 else denom_sqr
-    r_xz = np.clip(r_xz, -1, 1)
+    r_xz = xp.clip(r_xz, -1, 1)
 
     denom_sqr = bb * cc
     r_yz = bc / _sqrt(denom_sqr) if denom_sqr != 0 else denom_sqr
-    r_yz = np.clip(r_yz, -1, 1)
+    r_yz = xp.clip(r_yz, -1, 1)
 
     denom = _sqrt(1 - r_xz ** 2) * _sqrt(1 - r_yz ** 2)
 
diff --git a/dcor/independence.py b/dcor/independence.py
index 36fb521..21deca3 100644
--- a/dcor/independence.py
+++ b/dcor/independence.py
@@ -286,7 +286,7 @@ def distance_correlation_t_statistic(
     n = x.shape[0]
     v = n * (n - 3) / 2
 
-    return np.sqrt(v - 1) * bcdcor / _sqrt(1 - bcdcor**2)
+    return float(np.sqrt(v - 1)) * bcdcor / _sqrt(1 - bcdcor**2)
 
 
 def distance_correlation_t_test(
-- 
2.43.0


From 0c9b248714c74bf3e05009b56f8d047e02c0102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:03 +0000
Subject: [PATCH 09/15] fix: optimized rowwise failed for rows of integers or
 that cannot be stacked

---
 dcor/_fast_dcov_avl.py | 41 ++++++++++++++++++++++++++++-------------
 dcor/_rowwise.py       |  8 ++++++--
 2 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/dcor/_fast_dcov_avl.py b/dcor/_fast_dcov_avl.py
index 6b23121..d61f9ee 100644
--- a/dcor/_fast_dcov_avl.py
+++ b/dcor/_fast_dcov_avl.py
@@ -29,7 +29,12 @@ from ._dcor_internals_numba import (
     NumbaVectorReadOnlyNonContiguous,
     _generate_distance_covariance_sqr_from_terms_impl,
 )
-from ._utils import CompileMode, _transform_to_1d
+from ._utils import (
+    CompileMode,
+    _integers_to_float,
+    _transform_to_1d,
+    array_namespace,
+)
 
 if TYPE_CHECKING:
     NumpyArrayType = np.typing.NDArray[np.number[Any]]
@@ -609,6 +614,23 @@ rowwise_impls_dict = {
 }
 
 
+def _stack_rows(rows: Array) -> Array | None:
+    """Stack the rows in a matrix of floats, or None if it is not possible."""
+    try:
+        rows = np.asarray(rows)
+    except ValueError:
+        # Each row has a different shape
+        return None
+
+    if rows.ndim == 3 and rows.shape[2] == 1:
+        rows = rows[..., 0]
+
+    if rows.ndim != 2 or not np.can_cast(rows.dtype, np.float64):
+        return None
+
+    return _integers_to_float(array_namespace(rows), rows)
+
+
 def _rowwise_distance_covariance_sqr_avl_generic(
     x: Array,
     y: Array,
@@ -620,20 +642,13 @@ def _rowwise_distance_covariance_sqr_avl_generic(
     if exponent != 1:
         raise ValueError(f"Exponent should be 1 but is {exponent} instead.")
 
-    x = np.asarray(x)
-    y = np.asarray(y)
+    x = _stack_rows(x)
+    y = _stack_rows(y)
 
-    assert 2 <= x.ndim <= 3
-    if x.ndim == 3:
-        assert x.shape[2] == 1
-        x = x[..., 0]
-
-    assert 2 <= y.ndim <= 3
-    if y.ndim == 3:
-        assert y.shape[2] == 1
-        y = y[..., 0]
+    if x is None or y is None or x.shape != y.shape:
+        return NotImplemented
 
-    res = np.zeros(x.shape[0], dtype=x.dtype)
+    res = np.zeros(x.shape[0], dtype=np.result_type(x, y))
 
     if compile_mode not in rowwise_impls_dict:
         return NotImplemented
diff --git a/dcor/_rowwise.py b/dcor/_rowwise.py
index ff5bbb3..1192398 100644
--- a/dcor/_rowwise.py
+++ b/dcor/_rowwise.py
@@ -61,8 +61,12 @@ def _generate_rowwise_distance_correlation_sqr(unbiased):
 
         n_comps = len(x)
 
-        concat_x = np.concatenate((x, x, y))
-        concat_y = np.concatenate((y, x, y))
+        try:
+            concat_x = np.concatenate((x, x, y))
+            concat_y = np.concatenate((y, x, y))
+        except ValueError:
+            # Each row has a different shape
+            return NotImplemented
 
         res_covs = cov_fun.rowwise_function(concat_x, concat_y, **kwargs)
         if res_covs is NotImplemented:
-- 
2.43.0


From 2ed724fb16d7839d9096a5c8891767cb51697b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:03 +0000
Subject: [PATCH 10/15] fix: rowwise ignored the optimized implementation if
 the method was a string

---
 dcor/_rowwise.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcor/_rowwise.py b/dcor/_rowwise.py
index 1192398..f5f4673 100644
--- a/dcor/_rowwise.py
+++ b/dcor/_rowwise.py
@@ -20,6 +20,8 @@ def _generate_rowwise_distance_covariance_sqr(unbiased):
             method=_dcor.DistanceCovarianceMethod.AUTO,
             **kwargs):
 
+        method = _dcor._to_algorithm(method)
+
         if not _dcor._can_use_fast_algorithm(x[0], y[0],
                                              exponent=exponent):
             return NotImplemented
-- 
2.43.0


From a834924d1d9663ec6966b0e6c3eaac99cbbe869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:24 +0000
Subject: [PATCH 11/15] fix: rowwise unbiased correlation was infinite for null
 variances

---
 dcor/_rowwise.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dcor/_rowwise.py b/dcor/_rowwise.py
index f5f4673..7911c24 100644
--- a/dcor/_rowwise.py
+++ b/dcor/_rowwise.py
@@ -75,13 +75,14 @@ def _generate_rowwise_distance_correlation_sqr(unbiased):
             return NotImplemented
 
         cov = res_covs[:n_comps]
-        x_std = _sqrt(res_covs[n_comps:2 * n_comps])
-        y_std = _sqrt(res_covs[2 * n_comps:])
+        x_var = res_covs[n_comps:2 * n_comps]
+        y_var = res_covs[2 * n_comps:]
+        denominator = _sqrt(np.abs(x_var * y_var))
 
         with np.errstate(divide='ignore', invalid='ignore'):
-            corr_sqr = cov / x_std / y_std
+            corr_sqr = cov / denominator
 
-        corr_sqr[np.isnan(corr_sqr)] = 0
+        corr_sqr[denominator == 0] = 0
 
         return corr_sqr
 
-- 
2.43.0


From d4415b9ed0e958fa2de3afa7d772c18dbf0cc1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:12 +0000
Subject: [PATCH 12/15] fix: products of integer matrices overflowed silently

---
 dcor/_dcor_internals.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/dcor/_dcor_internals.py b/dcor/_dcor_internals.py
index d8f5fd7..c77b610 100644
--- a/dcor/_dcor_internals.py
+++ b/dcor/_dcor_internals.py
@@ -10,7 +10,13 @@ import warnings
 from typing import Callable, Literal, Protocol, Tuple, TypeVar, overload
 
 from . import distances
-from ._utils import ArrayType, CompileMode, _transform_to_2d, array_namespace
+from ._utils import (
+    ArrayType,
+    CompileMode,
+    _integers_to_float,
+    _transform_to_2d,
+    array_namespace,
+)
 
 Array = TypeVar("Array", bound=ArrayType)
 
@@ -386,6 +392,10 @@ def mean_product(a: Array, b: Array) -> Array:
 
     """
     xp = array_namespace(a, b)
+
+    a = _integers_to_float(xp, xp.asarray(a))
+    b = _integers_to_float(xp, xp.asarray(b))
+
     return xp.mean(a * b)
 
 
@@ -457,6 +467,9 @@ def u_product(a: Array, b: Array) -> Array:
 
     xp = array_namespace(a, b)
 
+    a = _integers_to_float(xp, xp.asarray(a))
+    b = _integers_to_float(xp, xp.asarray(b))
+
     return xp.sum(a * b) / (n * (n - 3))
 
 
-- 
2.43.0


From 0f4327d54cb611c42322d425761a3f5c68d2c273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:38 +0000
Subject: [PATCH 13/15] fix: partial distance functions accepted samples of
 different sizes

---
 dcor/_partial_dcor.py | 7 +++++++
 dcor/independence.py  | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/dcor/_partial_dcor.py b/dcor/_partial_dcor.py
index d5285dc..7661bdd 100644
--- a/dcor/_partial_dcor.py
+++ b/dcor/_partial_dcor.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 from typing import TypeVar
 
 from ._dcor_internals import (
+    _check_same_n_elements,
     _u_distance_matrix,
     u_complementary_projection,
     u_product,
@@ -76,6 +77,9 @@ def partial_distance_covariance(
         .. footbibliography::
 
     """
+    _check_same_n_elements(x, y)
+    _check_same_n_elements(x, z)
+
     a = _u_distance_matrix(x)
     b = _u_distance_matrix(y)
     c = _u_distance_matrix(z)
@@ -144,6 +148,9 @@ def partial_distance_correlation(
         .. footbibliography::
 
     """
+    _check_same_n_elements(x, y)
+    _check_same_n_elements(x, z)
+
     a = _u_distance_matrix(x)
     b = _u_distance_matrix(y)
     c = _u_distance_matrix(z)
diff --git a/dcor/independence.py b/dcor/independence.py
index 21deca3..392e340 100644
--- a/dcor/independence.py
+++ b/dcor/independence.py
@@ -209,6 +209,9 @@ def partial_distance_covariance_test(
         True
 
     """
+    _check_same_n_elements(x, y)
+    _check_same_n_elements(x, z)
+
     random_state = _random_state_init(random_state)
 
     # Compute U-centered matrices
-- 
2.43.0


From 57d6666913b3e063257b9500255941ba5f555929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:11 +0000
Subject: [PATCH 14/15] fix: do not overflow integers in compiled distance
 covariance of very large samples

---
 dcor/_dcor_internals.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dcor/_dcor_internals.py b/dcor/_dcor_internals.py
index c77b610..157244f 100644
--- a/dcor/_dcor_internals.py
+++ b/dcor/_dcor_internals.py
@@ -193,14 +193,18 @@ def _dcov_from_terms(
     second_term = a_axis_sum / n_samples @ b_axis_sum
     third_term = a_total_sum / n_samples * b_total_sum
 
+    # The cube of the number of samples does not fit in the integers used in
+    # the compiled version if it is large, so it should not be computed.
     if bias_corrected:
         first_term /= (n_samples - 3)
         second_term /= (n_samples - 2) * (n_samples - 3)
-        third_term /= (n_samples - 1) * (n_samples - 2) * (n_samples - 3)
+        third_term /= (n_samples - 1) * (n_samples - 2)
+        third_term /= (n_samples - 3)
     else:
         first_term /= n_samples
         second_term /= n_samples**2
-        third_term /= n_samples**3
+        third_term /= n_samples**2
+        third_term /= n_samples
 
     return first_term - 2 * second_term + third_term
 
-- 
2.43.0


From 3ca7b563276ab91ae681e0f4ebc6f0a992518c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:10 +0000
Subject: [PATCH 15/15] fix: compiled methods could read byte swapped arrays as
 native ones

---
 dcor/_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dcor/_utils.py b/dcor/_utils.py
index 6498d4e..f168777 100644
--- a/dcor/_utils.py
+++ b/dcor/_utils.py
@@ -133,6 +133,10 @@ def _transform_to_1d(*args: T) -> Iterable[T]:
             assert array.shape[1] == 1
             array = xp.reshape(array, -1)
 
+        if isinstance(array, np.ndarray):
+            # Numba may read byte swapped arrays as if they were native.
+            array = np.require(array, array.dtype.newbyteorder("="), "A")
+
         yield array
 
 
-- 
2.43.0

