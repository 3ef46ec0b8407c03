From 89fc6a1fb877ad3e1bdda6b6c3b61336f041c181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 01/89] fix: control affine systems were solved without their
 control input

The branch for controlled differential systems shadowed the control affine
strategy, so that the control input had no effect.
---
 datafold/dynfold/dynsystem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/dynsystem.py b/datafold/dynfold/dynsystem.py
index b0f6335..95a7cfc 100644
--- a/datafold/dynfold/dynsystem.py
+++ b/datafold/dynfold/dynsystem.py
@@ -350,7 +350,10 @@ class SystemSolveStrategy:
         ):
             return SystemSolveStrategy.differential_matrix
         elif (
-            system_type == "differential" and system_mode == "matrix" and is_controlled
+            system_type == "differential"
+            and system_mode == "matrix"
+            and is_controlled
+            and not is_control_affine
         ):
             return SystemSolveStrategy.differential_matrix
         elif (
-- 
2.43.0


From 120f6f6479e774feddbb3bd35a21d6ba487df743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 02/89] fix: controlled differential systems ignored the
 control input

Select the controlled strategy and repair it (zero-order hold with the matrix
exponential of the block matrix, states stored as rows).
---
 datafold/dynfold/dynsystem.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/datafold/dynfold/dynsystem.py b/datafold/dynfold/dynsystem.py
index 95a7cfc..d3df510 100644
--- a/datafold/dynfold/dynsystem.py
+++ b/datafold/dynfold/dynsystem.py
@@ -56,7 +56,7 @@ class SystemSolveStrategy:
         r"""Solves system:
         \dot{x} = A x + B u.
         """
-        time_series_tensor[:, 0, :] = initial_conditions
+        time_series_tensor[:, 0, :] = initial_conditions.T
         time_diff = np.diff(time_values)
 
         n_states = sys_matrix.shape[0]
@@ -64,16 +64,19 @@ class SystemSolveStrategy:
 
         for idx, tdiff in enumerate(time_diff):
             M = np.vstack(
-                [np.hstack([sys_matrix * tdiff]), control_matrix * tdiff],
-                np.zeros([n_inputs, n_states + n_inputs]),
+                [
+                    np.hstack([sys_matrix * tdiff, control_matrix * tdiff]),
+                    np.zeros([n_inputs, n_states + n_inputs]),
+                ]
             )
-            expM = np.linalg.expm(M)
+            expM = scipy.linalg.expm(M)
             Ad = expM[:n_states, :n_states]
-            Bd = expM[n_states:, :n_states]
+            Bd = expM[:n_states, n_states:]
 
-            time_series_tensor[:, idx + 1, :] = (
-                Ad @ time_series_tensor[:, idx, :] + Bd @ control_input[:, idx, :]
+            next_state = (
+                Ad @ time_series_tensor[:, idx, :].T + Bd @ control_input[:, idx, :].T
             )
+            time_series_tensor[:, idx + 1, :] = next_state.real.T
 
         return time_series_tensor
 
@@ -355,7 +358,7 @@ class SystemSolveStrategy:
             and is_controlled
             and not is_control_affine
         ):
-            return SystemSolveStrategy.differential_matrix
+            return SystemSolveStrategy.differential_matrix_controlled
         elif (
             system_type == "flowmap" and system_mode == "spectral" and not is_controlled
         ):
-- 
2.43.0


From 8179660442fd0e9944968a79e2856f4029269f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 03/89] fix: projection matrix ignored the order of the
 selected features

---
 datafold/utils/general.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datafold/utils/general.py b/datafold/utils/general.py
index a94b387..9821d38 100644
--- a/datafold/utils/general.py
+++ b/datafold/utils/general.py
@@ -237,9 +237,10 @@ def projection_matrix_from_feature_names(
     scipy.sparse.csr_matrix
         projection matrix
     """
-    project_indices = np.where(np.isin(features_all, features_select))[0]
+    # positions in the order of 'features_select' (-1 if not contained)
+    project_indices = pd.Index(features_all).get_indexer(pd.Index(features_select))
 
-    if len(project_indices) != len(features_select):
+    if np.any(project_indices == -1):
         raise ValueError(
             "Not all features from 'feature_select' are contained in 'features_all'."
         )
-- 
2.43.0


From a5238b4d5b693aa8f0425ec02ca2db866600a23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 04/89] fix: is_integer raised ZeroDivisionError for floats
 smaller than one

---
 datafold/utils/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/utils/general.py b/datafold/utils/general.py
index 9821d38..3204cdf 100644
--- a/datafold/utils/general.py
+++ b/datafold/utils/general.py
@@ -98,7 +98,7 @@ def is_integer(n: object) -> bool:
 
     """
     return isinstance(n, (int, np.integer)) or (
-        isinstance(n, (float, np.floating)) and n / int(n) == 1.0
+        isinstance(n, (float, np.floating)) and float(n).is_integer()
     )
 
 
-- 
2.43.0


From 8501bc97b3693295c0685d007808b1ccac810256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 05/89] fix: removing numeric noise left nan in the sparse
 matrix of the caller

---
 datafold/utils/general.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datafold/utils/general.py b/datafold/utils/general.py
index 3204cdf..a648ba7 100644
--- a/datafold/utils/general.py
+++ b/datafold/utils/general.py
@@ -569,6 +569,7 @@ def remove_numeric_noise_symmetric_matrix(
         # need to preserve stored zeros (e.g. in case of distance matrices)
         # NOTE: there is no check that the sparse structure is symmetric, this leads to
         # wrong results if the symmetric value of a (non-negative) value is not there.
+        matrix = matrix.copy()  # the stored zeros are marked with nan temporarily
         matrix.data[matrix.data == 0] = np.nan
         matrix = (matrix + matrix.T) / 2.0
         matrix.data[np.isnan(matrix.data)] = 0
-- 
2.43.0


From 4bae084b7b63133b331ee79477b81ea5f9e3bc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 06/89] fix: cone kernel applied the cosine to the cosine of
 the angle

---
 datafold/pcfold/kernels.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index 55aed25..dfbd093 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -2175,12 +2175,11 @@ class ConeKernel(TSCManifoldKernel):
 
             # special handling of (almost) duplicates -> denominator by zero leads to nan
             zero_mask = np.less_equal(denominator, 1e-14, out=zero_mask)
-            cos_matrix[row_idx, zero_mask] = 0.0  # -> np.cos(0) = 1 later
+            cos_matrix[row_idx, zero_mask] = 1.0
             cos_matrix[row_idx, ~zero_mask] /= denominator[~zero_mask]
 
         # memory and cache efficient solving with no intermediate memory allocations:
-        # cos_matrix = 1 - self.zeta * np.square(np.cos(cos_matrix))
-        cos_matrix = np.cos(cos_matrix, out=cos_matrix)
+        # cos_matrix = 1 - self.zeta * np.square(cos_matrix)
         cos_matrix = np.square(cos_matrix, out=cos_matrix)
         cos_matrix = np.multiply(self.zeta, cos_matrix, out=cos_matrix)
         cos_matrix = np.subtract(1.0, cos_matrix, out=cos_matrix)
-- 
2.43.0


From c0834f41697941f09fb5d4a02942e3dc3f010cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 07/89] fix: Roseland kernel with density normalisation always
 raised TypeError

---
 datafold/pcfold/kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index dfbd093..50499f6 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -1777,7 +1777,7 @@ class RoselandKernel(PCManifoldKernel):
         return obj.A1 if is_sparse else obj
 
     def _normalize_density(self, kernel_matrix, is_fit):
-        is_sparse = scipy.sparse.spmatrix(kernel_matrix)
+        is_sparse = scipy.sparse.issparse(kernel_matrix)
 
         if is_fit:
             landmark_density = self._cast_array(kernel_matrix.sum(axis=0), is_sparse)
-- 
2.43.0


From c0193331591a7170826f56106ac5048e98a2601f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:44 +0000
Subject: [PATCH 08/89] fix: kernel evaluation overwrote the distance matrix of
 the caller

---
 datafold/pcfold/kernels.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index 50499f6..212d988 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -1228,7 +1228,7 @@ class ContinuousNNKernel(PCManifoldKernel):
         dist_knn = _kth_nearest_neighbor_dist(distance_matrix, self.k_neighbor)
 
         distance_factors = _symmetric_matrix_division(
-            distance_matrix,
+            distance_matrix.copy(),
             vec=np.sqrt(dist_knn),
             is_symmetric=self.distance.is_symmetric,
             vec_right=np.sqrt(self.reference_dist_knn_) if not is_pdist else None,
@@ -2492,7 +2492,10 @@ class DmapKernelVariable(BaseManifoldKernel):  # pragma: no cover
 
     def _compute_kernel_eps_s(self, distance_matrix, rho):
         expon_matrix = _symmetric_matrix_division(
-            matrix=distance_matrix, vec=rho, is_symmetric=True, scalar=-4 * self.epsilon
+            matrix=distance_matrix.copy(),
+            vec=rho,
+            is_symmetric=True,
+            scalar=-4 * self.epsilon,
         )
         kernel_eps_s = np.exp(expon_matrix, out=expon_matrix)
         return kernel_eps_s
-- 
2.43.0


From 2fbed337b288f83f9747266ec6e607597378293b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:44 +0000
Subject: [PATCH 09/89] fix: thin plate kernel raised TypeError for sparse
 distance matrices

---
 datafold/pcfold/kernels.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index 212d988..6c5d952 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -981,7 +981,10 @@ class ThinplateKernel(RadialBasisKernel):
         kernel_matrix = _apply_kernel_function_numexpr(
             distance_matrix, expr="D**2 * log(D)"
         )
-        kernel_matrix[np.isnan(kernel_matrix)] = 0
+        if scipy.sparse.issparse(kernel_matrix):
+            kernel_matrix.data[np.isnan(kernel_matrix.data)] = 0
+        else:
+            kernel_matrix[np.isnan(kernel_matrix)] = 0
         return kernel_matrix
 
 
-- 
2.43.0


From 771e2d2b9160c095ea231e4c5cb93f43a2b9a795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 10/89] fix: Roseland kernel ignored the value of the density
 exponent

---
 datafold/pcfold/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index 6c5d952..2474cce 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -1791,9 +1791,9 @@ class RoselandKernel(PCManifoldKernel):
 
         normalized_kernel_matrix = _symmetric_matrix_division(
             kernel_matrix,
-            vec=data_density,
+            vec=np.power(data_density, self.alpha),
             is_symmetric=False,
-            vec_right=landmark_density,
+            vec_right=np.power(landmark_density, self.alpha),
         )
 
         return normalized_kernel_matrix, landmark_density
-- 
2.43.0


From a7698c7b00c4429d2cf52e54740734d6006f0b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:38 +0000
Subject: [PATCH 11/89] fix: brute force distance dropped pairs exactly at the
 cut-off

---
 datafold/pcfold/distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/distance.py b/datafold/pcfold/distance.py
index 22ad4ba..d09afb8 100644
--- a/datafold/pcfold/distance.py
+++ b/datafold/pcfold/distance.py
@@ -241,7 +241,7 @@ class DistanceAlgorithm(metaclass=abc.ABCMeta):
         # csr_matrix(distance_matrix) removes internally all zeros.
 
         distance_matrix[distance_matrix == 0] = self._invalid_dist_value
-        distance_matrix[distance_matrix >= cut_off] = 0
+        distance_matrix[distance_matrix > cut_off] = 0
         distance_matrix = scipy.sparse.csr_matrix(distance_matrix)
         distance_matrix.data[distance_matrix.data == self._invalid_dist_value] = 0
 
-- 
2.43.0


From 511e092a0529d269a0cd68d92840c305d1b6f167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:38 +0000
Subject: [PATCH 12/89] fix: minimum neighbours inserted Euclidean distances
 into squared distance matrices

---
 datafold/pcfold/distance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datafold/pcfold/distance.py b/datafold/pcfold/distance.py
index d09afb8..9c01186 100644
--- a/datafold/pcfold/distance.py
+++ b/datafold/pcfold/distance.py
@@ -318,6 +318,9 @@ class DistanceAlgorithm(metaclass=abc.ABCMeta):
                 distances, newshape=np.prod(distances.shape), order="C"
             )
 
+            if metric == "sqeuclidean":
+                distances = np.square(distances, out=distances)
+
             # Note: duplicates and trivial self-distances in the pdist are assumed to already
             # covered by the DistanceAlgorithm (always contained in the radius!)
             nnz_distance_mask = (distances != 0).astype(bool)
-- 
2.43.0


From d067a92650539c0587a1736ce14ff5023c1a6d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:38 +0000
Subject: [PATCH 13/89] fix: minimum neighbours raised AttributeError for dense
 distance matrices

---
 datafold/pcfold/distance.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/distance.py b/datafold/pcfold/distance.py
index 9c01186..8d152d0 100644
--- a/datafold/pcfold/distance.py
+++ b/datafold/pcfold/distance.py
@@ -373,8 +373,10 @@ class DistanceAlgorithm(metaclass=abc.ABCMeta):
         )
 
         # only for the sparse case we care about kmin:
-        apply_kmin_procedure = self.kmin is not None and (
-            (self.kmin > 0 and not is_pdist) or (self.kmin > 1 and is_pdist)
+        apply_kmin_procedure = (
+            scipy.sparse.issparse(distance_matrix)
+            and self.kmin is not None
+            and ((self.kmin > 0 and not is_pdist) or (self.kmin > 1 and is_pdist))
         )
 
         if apply_kmin_procedure:
-- 
2.43.0


From c9c36ba6cf18a3202aa3875e8208b650fbc4cecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:38 +0000
Subject: [PATCH 14/89] fix: number of neighbours never reached the distance
 backend

---
 datafold/pcfold/distance.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/datafold/pcfold/distance.py b/datafold/pcfold/distance.py
index 8d152d0..e93a35b 100644
--- a/datafold/pcfold/distance.py
+++ b/datafold/pcfold/distance.py
@@ -1,7 +1,6 @@
 #!/usr/bin/env python3
 import abc
 import inspect
-from copy import deepcopy
 from typing import Optional, Union
 
 import numpy as np
@@ -75,8 +74,7 @@ class DistanceAlgorithm(metaclass=abc.ABCMeta):
 
         if cut_off is not None:
             self._set_attrs_range(cut_off=cut_off, kmin=k)
-
-        if k is not None:
+        elif k is not None:
             self._set_attrs_knn(k)
 
     def _set_attrs_range(self, cut_off, kmin):
@@ -1055,20 +1053,16 @@ def init_distance_algorithm(
 
     backend_init_args = inspect.signature(backend_class).parameters.keys()
 
-    kwargs = {
-        "metric": metric,
-        "cut_off": cut_off,
-        "kmin": k,
-        "backend_options": backend_options,
-    }
-    keys = deepcopy(list(kwargs.keys()))
+    # range based backends have the parameter 'kmin' and nearest neighbor backends 'k'
+    kwargs = {"metric": metric, "cut_off": cut_off, "kmin": k, "k": k}
+    kwargs = {key: val for key, val in kwargs.items() if key in backend_init_args}
 
-    for a in keys:
-        if a not in backend_init_args:
-            kwargs.pop(a)
+    if "backend_options" not in backend_init_args:
+        backend_options = {
+            key: val for key, val in backend_options.items() if key in backend_init_args
+        }
 
-    backend_options = kwargs.pop("backend_options", {})
-    return backend_class(**kwargs, **backend_options)
+    return backend_class(**{**kwargs, **backend_options})
 
 
 def compute_distance_matrix(
-- 
2.43.0


From bc170c7981a0c664001c88baa860b2515d5ef641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:38 +0000
Subject: [PATCH 15/89] fix: distance to other reference points reused the tree
 of the previous ones

---
 datafold/pcfold/distance.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/datafold/pcfold/distance.py b/datafold/pcfold/distance.py
index e93a35b..e316a9c 100644
--- a/datafold/pcfold/distance.py
+++ b/datafold/pcfold/distance.py
@@ -720,7 +720,11 @@ class ScipyKdTreeDist(DistanceAlgorithm):
         """
         X, Y, is_pdist = self._validate_X_Y(X, Y)
 
-        if is_pdist or not hasattr(self, "kdtree_x_"):
+        if (
+            is_pdist
+            or not hasattr(self, "kdtree_x_")
+            or not np.array_equal(self.kdtree_x_.data, X)
+        ):
             self.kdtree_x_ = scipy.spatial.cKDTree(X, **self.backend_options)
 
         if is_pdist:
@@ -730,10 +734,6 @@ class ScipyKdTreeDist(DistanceAlgorithm):
                 output_type="coo_matrix",
             )
         else:
-            if not hasattr(self, "kdtree_x_"):
-                # else reuse from pdist call
-                self.kdtree_x_ = scipy.spatial.cKDTree(X, **self.backend_options)
-
             kdtree_y = scipy.spatial.cKDTree(Y, **self.backend_options)
 
             distance_matrix = kdtree_y.sparse_distance_matrix(
@@ -829,7 +829,11 @@ class SklearnBalltreeDist(DistanceAlgorithm):
         """
         X, Y, is_pdist = self._validate_X_Y(X, Y)
 
-        if is_pdist or not hasattr(self, "nn_"):
+        if (
+            is_pdist
+            or not hasattr(self, "nn_")
+            or not np.array_equal(self.nn_._fit_X, X)
+        ):
             self.nn_ = self._fit_nearest_neighbor(X)
 
         if is_pdist:
@@ -862,7 +866,11 @@ class SklearnKNN(DistanceAlgorithm):
     def __call__(self, X, Y=None):
         X, Y, is_pdist = self._validate_X_Y(X, Y=Y)
 
-        if is_pdist or not hasattr(self, "nn_"):
+        if (
+            is_pdist
+            or not hasattr(self, "nn_")
+            or not np.array_equal(self.nn_._fit_X, X)
+        ):
             self.nn_ = KNeighborsTransformer(
                 mode="distance",
                 n_neighbors=self.k,
-- 
2.43.0


From 414d4b870cae59c97dc4efeb7d561cda61ae27f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:38 +0000
Subject: [PATCH 16/89] fix: PCManifold ignored its distance settings

---
 datafold/pcfold/pointcloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/pointcloud.py b/datafold/pcfold/pointcloud.py
index 6fa1c2a..35c0eda 100644
--- a/datafold/pcfold/pointcloud.py
+++ b/datafold/pcfold/pointcloud.py
@@ -79,7 +79,7 @@ class PCManifold(np.ndarray):
 
         # Set the kernel according to user input
         obj.kernel = kernel
-        obj.distance = dist_kwargs or {}
+        obj.dist_kwargs = {**obj.dist_kwargs, **(dist_kwargs or {})}
 
         return obj
 
-- 
2.43.0


From 34ae014b710eae6db6bb83643944941a82ba68b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:38 +0000
Subject: [PATCH 17/89] fix: kernels changed the distance settings of the
 caller

---
 datafold/pcfold/kernels.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/kernels.py b/datafold/pcfold/kernels.py
index 2474cce..b4fbdaf 100644
--- a/datafold/pcfold/kernels.py
+++ b/datafold/pcfold/kernels.py
@@ -702,6 +702,7 @@ class RadialBasisKernel(PCManifoldKernel, metaclass=abc.ABCMeta):
             if distance.metric != required_metric:
                 raise _metric_mismatch
         elif isinstance(distance, dict):
+            distance = distance.copy()  # do not change the dictionary of the caller
             _exist_metric = distance.pop("metric", None)
 
             if _exist_metric is None or _exist_metric == required_metric:
@@ -1108,7 +1109,7 @@ class ContinuousNNKernel(PCManifoldKernel):
             self.k_neighbor = int(k_neighbor)
 
         if distance is None or isinstance(distance, dict):
-            distance = distance or {}
+            distance = dict(distance or {})
             distance.setdefault("kmin", self.k_neighbor)
             distance.setdefault("metric", "euclidean")
             distance = init_distance_algorithm(backend="guess_optimal", **distance)
@@ -2062,7 +2063,7 @@ class ConeKernel(TSCManifoldKernel):
         self.epsilon = epsilon
         self.fd_accuracy = fd_accuracy
 
-        distance = distance or {}
+        distance = dict(distance or {})
 
         distance.setdefault("metric", "sqeuclidean")
 
-- 
2.43.0


From af544b6bbb099dd937336a6f8ffde6c9c4ed4b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 18/89] fix: computing all eigenpairs of a sparse kernel matrix
 raised ValueError

---
 datafold/pcfold/eigsolver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datafold/pcfold/eigsolver.py b/datafold/pcfold/eigsolver.py
index b568c81..9c7a6bd 100644
--- a/datafold/pcfold/eigsolver.py
+++ b/datafold/pcfold/eigsolver.py
@@ -73,6 +73,10 @@ def scipy_eigsolver(
     # check only for n_eigenpairs == n_features and n_eigenpairs < n_features
     # wrong parametrized n_eigenpairs are catched in scipy functions
     if n_eigenpairs == n_features:
+        if scipy.sparse.issparse(kernel_matrix):
+            # the dense solvers cannot handle sparse matrices
+            kernel_matrix = kernel_matrix.toarray()
+
         if kernel._is_symmetric_kernel:
             scipy_eigvec_solver = scipy.linalg.eigh
         else:
-- 
2.43.0


From 2ddff965f1dd959abda46f60d482053b5c575e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 19/89] fix: symmetric eigensolver used for a non-symmetric
 kernel matrix

---
 datafold/pcfold/eigsolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/eigsolver.py b/datafold/pcfold/eigsolver.py
index 9c7a6bd..bcf71e0 100644
--- a/datafold/pcfold/eigsolver.py
+++ b/datafold/pcfold/eigsolver.py
@@ -77,7 +77,7 @@ def scipy_eigsolver(
             # the dense solvers cannot handle sparse matrices
             kernel_matrix = kernel_matrix.toarray()
 
-        if kernel._is_symmetric_kernel:
+        if kernel.is_symmetric:
             scipy_eigvec_solver = scipy.linalg.eigh
         else:
             scipy_eigvec_solver = scipy.linalg.eig
-- 
2.43.0


From 4c012f9eabccf02cb36975f369183cc23ac25598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 20/89] fix: eigensolver returned more eigenpairs than
 requested

---
 datafold/pcfold/eigsolver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datafold/pcfold/eigsolver.py b/datafold/pcfold/eigsolver.py
index bcf71e0..86a7a94 100644
--- a/datafold/pcfold/eigsolver.py
+++ b/datafold/pcfold/eigsolver.py
@@ -121,6 +121,11 @@ def scipy_eigsolver(
 
     eigvals, eigvects = scipy_eigvec_solver(kernel_matrix, **solver_kwargs)
 
+    if eigvals.shape[0] > n_eigenpairs:
+        # scipy computes all pairs of a non-symmetric matrix if k >= n_samples - 1
+        idx_largest = np.argsort(-np.abs(eigvals), kind="stable")[:n_eigenpairs]
+        eigvals, eigvects = eigvals[idx_largest], eigvects[:, idx_largest]
+
     return eigvals, eigvects
 
 
-- 
2.43.0


From f884c94d68dd762a8f9e31e4511a0465d54b6261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 21/89] fix: diffusion map scaled target coordinates with the
 eigenvalues of all coordinates

---
 datafold/dynfold/dmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 38265ec..a50821f 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -392,7 +392,8 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
         if self.time_exponent == 0:
             dmap_embedding = eigenvectors
         else:
-            eigvals_time = np.power(self.eigenvalues_, self.time_exponent)
+            _, eigvals = self._select_eigenpairs_target_coords()
+            eigvals_time = np.power(eigvals, self.time_exponent)
             dmap_embedding = mat_dot_diagmat(np.asarray(eigenvectors), eigvals_time)
 
         if isinstance(eigenvectors, pd.DataFrame):
-- 
2.43.0


From e383e6e9b86f5538ce92a0bf54b2d46c7eb13979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 22/89] fix: inverse diffusion map ignored the time exponent

---
 datafold/dynfold/dmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index a50821f..e598227 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -681,7 +681,7 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
             eigvec, _ = self._select_eigenpairs_target_coords()
 
             self.inv_coeff_matrix_ = scipy.linalg.lstsq(
-                np.asarray(eigvec), _X, cond=None
+                np.asarray(self._perform_dmap_embedding(eigvec)), _X, cond=None
             )[0]
 
         X_orig_space = np.asarray(X) @ self.inv_coeff_matrix_
-- 
2.43.0


From 474e7a9120e6f90fbffbe5692e23dcd871b3f88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 23/89] fix: inverse diffusion map used the map of the previous
 fit or target coordinates

---
 datafold/dynfold/dmap.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index e598227..9d0aa33 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -405,6 +405,11 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
 
         return dmap_embedding
 
+    def _reset_inverse_map(self):
+        """The stored inverse map is only valid for the fitted data and target coordinates."""
+        if hasattr(self, "inv_coeff_matrix_"):
+            del self.inv_coeff_matrix_
+
     def _select_eigenpairs_target_coords(self):
         """Returns either
         * all eigenpairs, or
@@ -454,6 +459,7 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
         self.target_coords_ = indices
 
         self.n_features_out_ = len(self.target_coords_)
+        self._reset_inverse_map()
 
         return self
 
@@ -522,6 +528,7 @@ class DiffusionMaps(BaseEstimator, TSCTransformerMixin):
             symmetrize_kernel=self.symmetrize_kernel,
         )
 
+        self._reset_inverse_map()
         self.X_fit_ = X
         kernel_matrix_ = self._dmap_kernel(X=X, **kernel_kwargs)
 
-- 
2.43.0


From 74d63e4f3d1533027577d71f3feacbc045ce28cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 24/89] fix: Roseland embedding of the training data ignored
 the time exponent

---
 datafold/dynfold/dmap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 9d0aa33..9177c0e 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -1252,6 +1252,7 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
         """
         self.fit(X=X, **fit_params)
         svdvec_left, svdvals, _ = self._select_svdpairs_target_coords()
+        svdvec_left = self._perform_roseland_embedding(np.asarray(svdvec_left), svdvals)
 
         if isinstance(X, TSCDataFrame):
             svdvec_left = TSCDataFrame.from_same_indices_as(
-- 
2.43.0


From 86c32ea09315e6288d286448a6cd6ab4a623987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 25/89] fix: Roseland target coordinates raised an error for
 time series

---
 datafold/dynfold/dmap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 9177c0e..666a6c4 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -1016,7 +1016,10 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
         It is assumed that the model is already fit.
         """
         if hasattr(self, "target_coords_"):
-            svdvec_left = self.svdvec_left_[:, self.target_coords_]
+            if isinstance(self.svdvec_left_, pd.DataFrame):
+                svdvec_left = self.svdvec_left_.iloc[:, self.target_coords_]
+            else:
+                svdvec_left = self.svdvec_left_[:, self.target_coords_]
             svdvec_right = self.svdvec_right_[:, self.target_coords_]
             svdvals = self.svdvalues_[self.target_coords_]
         else:
-- 
2.43.0


From 14be63a31c2078dee77a11e4f34a98de0c808126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 26/89] fix: LQR control sequence failed for more than one
 control input

---
 datafold/appfold/mpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/appfold/mpc.py b/datafold/appfold/mpc.py
index 27547b6..5fac9c8 100644
--- a/datafold/appfold/mpc.py
+++ b/datafold/appfold/mpc.py
@@ -646,7 +646,7 @@ class LQR:
         if target_state is not None:
             target_state_dict = self.edmd.transform(target_state).to_numpy()
         elif hasattr(self, "_preset_target_state"):
-            target_state_dict = self._preset_target_state
+            target_state_dict = self._preset_target_state.to_numpy()
         else:
             raise ValueError(
                 "Target state must be provided either as a parameter or set with "
@@ -655,7 +655,7 @@ class LQR:
 
         u = -self.Flqr @ (self.edmd.transform(X).to_numpy() - target_state_dict).T
         u = TSCDataFrame.from_array(
-            u,
+            u.T,
             time_values=X.time_values()[-1],
             feature_names=self.edmd.control_names_in_,
             ts_id=X.ids[0],
-- 
2.43.0


From e063b2be64790a2485c111add753762a48ddabf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 27/89] fix: KMPC closed loop appended the initial state of the
 system twice

---
 datafold/appfold/mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/appfold/mpc.py b/datafold/appfold/mpc.py
index 5fac9c8..2db5357 100644
--- a/datafold/appfold/mpc.py
+++ b/datafold/appfold/mpc.py
@@ -558,7 +558,7 @@ class KMPC:
                 edmd_state = state.tsc.augment_control_input(U_next).iloc[[-1], :]
                 edmd_state = edmd_state.loc[:, self.edmd.feature_names_in_]
             else:
-                edmd_state = state.loc[:, self.edmd.feature_names_in_]
+                edmd_state = state.iloc[[-1], :].loc[:, self.edmd.feature_names_in_]
 
             # TODO: preallocating memory and writing in is more efficient than concat
             # store control input and state the sequence, which is used later for plotting
-- 
2.43.0


From 227697a3dc4af3c6c57842ebcd5585f2d647e057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 28/89] fix: KMPC documented the bounds in the opposite order
 of the one it uses

---
 datafold/appfold/mpc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/datafold/appfold/mpc.py b/datafold/appfold/mpc.py
index 2db5357..86bc8a1 100644
--- a/datafold/appfold/mpc.py
+++ b/datafold/appfold/mpc.py
@@ -84,18 +84,18 @@ class KMPC:
 
         .. code::
 
-            [[x1max, x1min],
+            [[x1min, x1max],
              ...
-             [xnmax, xnmin]]
+             [xnmin, xnmax]]
 
     input_bounds : np.ndarray(shape=(m,2))
         The min/max bounds of the control states:
 
         .. code::
 
-            [[u1max, u1min],
+            [[u1min, u1max],
              ...
-             [ummax, ummin]]
+             [ummin, ummax]]
 
     qois : List[str] | List[int], optional
         Quantities of interest - the state to be controlled via the reference. It is used to
-- 
2.43.0


From aea84c571f0f4f7fa2d64bb45a7b948c14b43e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 29/89] fix: DMD prediction failed for control input given as
 an array

---
 datafold/dynfold/dmd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index dcd9ce4..cb998eb 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -379,7 +379,11 @@ class DMDBase(
                     U,
                     control_names=self.control_names_in_,
                     dt=self.dt_,
-                    time_values=time_values,
+                    time_values=(
+                        time_values
+                        if getattr(self, "_requires_last_control_state", False)
+                        else time_values[:-1]
+                    ),
                     ts_id=int(X.ids[0]) if isinstance(X, TSCDataFrame) else None,
                 )
                 # TODO: include pd.DataFrame type (turn to TSCDataFrame)
-- 
2.43.0


From 06f3de0a5835c3d6668996131a9c2b20e8b39c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 30/89] fix: StreamingDMD kept the directions of smallest
 energy on compression

---
 datafold/dynfold/dmd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index cb998eb..0838940 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -2168,7 +2168,7 @@ class StreamingDMD(DMDBase):
                 idx = np.argsort(evals)
 
                 # indices of largest eigenvalues
-                idx = idx[: self.max_rank]
+                idx = idx[::-1][: self.max_rank]
 
                 self._Qx = self._Qx @ evecs[:, idx]
                 self.A = self.A @ evecs[:, idx]
@@ -2178,7 +2178,7 @@ class StreamingDMD(DMDBase):
                 idx = np.argsort(evals)
 
                 # indices of largest eigenvalues
-                idx = idx[: self.max_rank]
+                idx = idx[::-1][: self.max_rank]
 
                 self._Qy = self._Qy @ evecs[:, idx]
                 self.A = evecs[:, idx].T @ self.A
-- 
2.43.0


From 783e991ae5dcc7ed31bd758a3966b5c97d3dd5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 31/89] fix: StreamingDMD could not predict after its first
 snapshot pair

---
 datafold/dynfold/dmd.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 0838940..1271c54 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -2231,6 +2231,11 @@ class StreamingDMD(DMDBase):
         self._Gy = np.atleast_2d(np.square(norm_s2)).copy()
         self.A = np.atleast_2d(norm_s1 * norm_s2).copy()
 
+        eigenvectors_right, eigenvalues = self._compute_spectral_components()
+        self.setup_spectral_system(
+            eigenvectors_right=eigenvectors_right, eigenvalues=eigenvalues
+        )
+
         return self
 
     def _separate_init_pairs(self, X: TSCDataFrame):
-- 
2.43.0


From d45a04061bedd8d3fd6e841e3ecaf251e670d919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 32/89] fix: StreamingDMD predict rejected arrays and missing
 time values

---
 datafold/dynfold/dmd.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 1271c54..5af2da8 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -2353,6 +2353,17 @@ class StreamingDMD(DMDBase):
             `(n_time_values, n_features)`.
         """
         check_is_fitted(self)
+        time_values = self._validate_and_set_time_values_predict(
+            time_values=time_values, X=X, U=None
+        )
+
+        if isinstance(X, np.ndarray):
+            X = InitialCondition.from_array(
+                X, time_value=time_values[0], feature_names=self.feature_names_in_
+            )
+        else:
+            InitialCondition.validate(X, n_samples_ic=1)
+
         X, _, time_values = self._validate_features_and_time_values(
             X, U=None, time_values=time_values
         )
-- 
2.43.0


From 7c736c032fe3b4b8247ab14f8123151f633ae7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 33/89] fix: OnlineDMD lost most digits in the first updates

---
 datafold/dynfold/dmd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 5af2da8..43279be 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -2489,12 +2489,14 @@ class OnlineDMD(DMDBase):
             return evals, right_evec, None
 
     def _basic_initialize(self, X) -> None:
-        """Initialize online DMD with epsilon small (1e-15) ghost snapshot pairs before t=0."""
+        """Initialize online DMD with epsilon small ghost snapshot pairs before t=0."""
         self._validate_parameters()
         self._validate_and_setup_fit_attrs(X)
         n_states = X.shape[1]
 
-        epsilon = 1e-15
+        # relative to the energy of the samples, so that the influence of the ghost pairs and
+        # the loss of digits in the first updates are both small
+        epsilon = 1e-8 * (np.max(np.square(X.to_numpy())) or 1.0)
         alpha = 1.0 / epsilon
 
         # TODO: maybe provide random_state in __init__?
-- 
2.43.0


From 0e16b72868992bf67b9765ddf0fd493d0066f96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 34/89] fix: OnlineDMD with is_diagonalize=True called a method
 that does not exist

---
 datafold/dynfold/dmd.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 43279be..2293333 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -2476,11 +2476,7 @@ class OnlineDMD(DMDBase):
         evals, right_evec = np.linalg.eig(self.A)
 
         if self.is_diagonalize:
-            left_evec = self._compute_left_eigenvectors(
-                system_matrix=self.A,
-                eigenvalues=evals,
-                eigenvectors_right=right_evec,
-            )
+            left_evec = np.linalg.solve(mat_dot_diagmat(right_evec, evals), self.A)
             return sort_eigenpairs(
                 evals, right_eigenvectors=right_evec, left_eigenvectors=left_evec
             )
-- 
2.43.0


From 5be12a9d27f9d41fc2e8fd11177a359875db7c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 35/89] fix: empty selection of a time series collection raised
 an IndexError

---
 datafold/pcfold/timeseries/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index a410e66..2cb75d7 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -900,7 +900,7 @@ class TSCDataFrame(pd.DataFrame):
             )
 
         # bool index to the start of new IDs
-        bool_new_id = np.append(1, np.diff(index.codes[0])).astype(bool)
+        bool_new_id = np.append(1, np.diff(index.codes[0])).astype(bool)[: len(index)]
         _ids = ids_index[bool_new_id]
 
         if len(np.unique(_ids)) != len(_ids):
-- 
2.43.0


From 4ee0c570cd466cbf5ac4702fe28f54c96bebfa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 36/89] fix: delta time ignored an irregular first time step

---
 datafold/pcfold/timeseries/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 2cb75d7..b8e6842 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1067,7 +1067,7 @@ class TSCDataFrame(pd.DataFrame):
                     # need to check if all values are the same
                     if diff_times.dtype == float:
                         result = np.min(diff_times, axis=1)[:, np.newaxis]
-                        abs_diff = np.abs(diff_times[:, 1:] - result)
+                        abs_diff = np.abs(diff_times - result)
 
                         within_atol = np.all(abs_diff < atol, axis=1)
                         within_rtol = np.all(
-- 
2.43.0


From 5afed42f862c4c23d6812073133b5e50ef243c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 37/89] fix: delta time was assigned to the wrong series if the
 IDs are not in order

---
 datafold/pcfold/timeseries/collection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index b8e6842..0f8ec74 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1060,9 +1060,12 @@ class TSCDataFrame(pd.DataFrame):
                 diff_times = diff_times[np.tile(idx_mask, n_timeseries)[:-1]]
                 diff_times = np.reshape(diff_times, (n_timeseries, n_timesteps - 1))
 
+                # the IDs in the order of the rows
+                row_ids = id_indexer[::n_timesteps]
+
                 if diff_times.shape[1] == 1:
                     # special case when n_timesteps==2
-                    dt_result_series[:] = diff_times.flatten()
+                    dt_result_series.loc[row_ids] = diff_times.flatten()
                 else:
                     # need to check if all values are the same
                     if diff_times.dtype == float:
@@ -1086,7 +1089,7 @@ class TSCDataFrame(pd.DataFrame):
                             else:
                                 result[~equal_dt] = np.timedelta64("NaT")
 
-                    dt_result_series[:] = result.flatten()
+                    dt_result_series.loc[row_ids] = result.flatten()
         else:
             for timeseries_id in self.ids:
                 # TODO: this can be potentially faster by using views on the diff_times
-- 
2.43.0


From f33b674baa7fd36210c611d277cb5065959703d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 38/89] fix: delta time failed for a degenerate series with
 float time values

---
 datafold/pcfold/timeseries/collection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 0f8ec74..4f81c84 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1096,6 +1096,9 @@ class TSCDataFrame(pd.DataFrame):
                 #  instead of using get indexer for
                 _id_dt = diff_times[id_indexer.get_indexer_for([timeseries_id])[:-1]]
 
+                if len(_id_dt) == 0:  # degenerate time series
+                    continue
+
                 if is_timedelta64_dtype(_id_dt) or _id_dt.dtype == int:
                     _is_unique_dt = len(np.unique(np.asarray(_id_dt))) == 1
                 else:
-- 
2.43.0


From bddf04afff9f91944d3ace77a9740c42559f0b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 39/89] fix: delta time of datetime series with different
 sampling was reported as equal

---
 datafold/pcfold/timeseries/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 4f81c84..22e4419 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1111,7 +1111,7 @@ class TSCDataFrame(pd.DataFrame):
 
         if not np.isnan(dt_result_series).all():
             if is_timedelta64_dtype(dt_result_series) or dt_result_series.dtype == int:
-                is_global_unique = len(np.unique(dt_result_series))
+                is_global_unique = len(np.unique(dt_result_series)) == 1
             else:
                 is_global_unique = np.allclose(
                     np.min(dt_result_series), dt_result_series, atol=atol, rtol=rtol
-- 
2.43.0


From e3fd2856f7ea898e69fb08a0aceb250be02aaade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 40/89] fix: time values of selected series were not sorted

---
 datafold/pcfold/timeseries/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 22e4419..002614d 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1510,7 +1510,7 @@ class TSCDataFrame(pd.DataFrame):
             all time values that appear in the collection
         """
         self.index = self.index.remove_unused_levels()
-        ret_idx = np.asarray(self.index.levels[1])
+        ret_idx = np.sort(np.asarray(self.index.levels[1]))
         if self.fixed_delta is not None and with_fixed_delta:
             ret_idx = ret_idx.astype(float)
             ret_idx *= self.fixed_delta
-- 
2.43.0


From 30fb122a07ecf30325ab876877fde3804c010356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 41/89] fix: reject missing and infinite time values in
 TSCDataFrame

---
 datafold/pcfold/timeseries/collection.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 002614d..130108f 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -893,6 +893,11 @@ class TSCDataFrame(pd.DataFrame):
         # u - unsigned integer | i - signed integer | f - floating point
         # do not perform this check for:
         # M - datetime (bc. the second condition raises an error)
+        if time_index.isna().any() or (
+            time_index.dtype.kind == "f" and np.isinf(time_index).any()
+        ):
+            raise AttributeError("Time values have to be finite (no NaN, NaT or inf).")
+
         if time_index.dtype.kind in "uif" and (time_index < 0).any():
             raise AttributeError(
                 "Time values have to be non-negative. "
-- 
2.43.0


From 58a8a68a86e5f971585d4cc2a1e5c05ca50cf26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 42/89] fix: from_single_timeseries lost a feature named "ID"

---
 datafold/pcfold/timeseries/collection.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 130108f..68af571 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -616,9 +616,7 @@ class TSCDataFrame(pd.DataFrame):
         # The time values must be sorted.
         df = df.sort_index(axis=0)
 
-        df[cls.tsc_id_idx_name] = ts_id
-        df = df.set_index(cls.tsc_id_idx_name, append=True)
-        df = df.reorder_levels([cls.tsc_id_idx_name, df.index.names[0]])
+        df.index = pd.MultiIndex.from_arrays([np.repeat(ts_id, len(df)), df.index])
 
         return cls(df)
 
-- 
2.43.0


From 362b7b8e48a82293e3323095b2829dee53a1d650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 43/89] fix: insert_ts must not change the index of the
 inserted data

---
 datafold/pcfold/timeseries/collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 68af571..2c0dd02 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1474,13 +1474,14 @@ class TSCDataFrame(pd.DataFrame):
             )
 
         # Add the ID to the first level of the MultiIndex
+        df = df.copy(deep=True)  # do not change the index of the input
         df.index = pd.MultiIndex.from_arrays(
             [np.ones(df.shape[0], dtype=int) * ts_id, _index],
             names=[self.tsc_id_idx_name, self.tsc_time_idx_name],
         )
 
         # 'self' has to appear first to keep TSCDataFrame type.
-        return pd.concat([self, df.copy(deep=True)], sort=False, axis=0)
+        return pd.concat([self, df], sort=False, axis=0)
 
     def time_interval(
         self, ts_id: Optional[int] = None
-- 
2.43.0


From 21a5066c7b0e743dc16aab7c3077300247f1f893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 44/89] fix: feature_to_array and select_time_values for
 unsorted time series IDs

---
 datafold/pcfold/timeseries/collection.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 2c0dd02..df82917 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1593,7 +1593,9 @@ class TSCDataFrame(pd.DataFrame):
         )
 
         if as_frame:
-            array = pd.DataFrame(array, index=self.ids, columns=self.time_values())
+            # the IDs are not necessarily sorted in the rows
+            row_ids = self.index.get_level_values(self.tsc_id_idx_name).unique()
+            array = pd.DataFrame(array, index=row_ids, columns=self.time_values())
 
         return array
 
@@ -1614,8 +1616,8 @@ class TSCDataFrame(pd.DataFrame):
             a ``pandas.DataFrame``.
 
         """
-        idx = pd.IndexSlice
-        return self.loc[idx[:, time_values], :]
+        locs = self.index.get_locs([slice(None), time_values])
+        return self.iloc[np.sort(locs), :]  # maintain the order of the rows
 
     def initial_states(self, n_samples: int = 1) -> "TSCDataFrame":
         """Get initial state of each time series in the collection.
-- 
2.43.0


From 06029a52b2f3559fb7f4ff751069aa10c33486b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 45/89] fix: const_sampled_time_values missed the last time
 value, fixed_delta ignored

---
 datafold/pcfold/timeseries/collection.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index df82917..5f57183 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1497,6 +1497,8 @@ class TSCDataFrame(pd.DataFrame):
             time_values = self.time_values()
         else:
             time_values = self.loc[ts_id, :].index
+            if self.fixed_delta is not None:
+                time_values = time_values * self.fixed_delta
 
         return np.min(time_values), np.max(time_values)
 
@@ -1548,9 +1550,13 @@ class TSCDataFrame(pd.DataFrame):
             # maintain actual time dtype
             _dtype = self.index.get_level_values(self.tsc_time_idx_name).dtype
 
-            return np.arange(
-                start, np.nextafter(end, np.finfo(float).max), self.delta_time
-            ).astype(_dtype)
+            if self.fixed_delta is not None:
+                _dtype = float
+
+            # the tolerance ensures that `end` is included despite of numerical noise
+            delta_time = self.delta_time
+            n_steps = int(np.floor((end - start) / delta_time + 1e-6))
+            return (start + delta_time * np.arange(n_steps + 1)).astype(_dtype)
 
     def feature_to_array(
         self, feature: Optional[str] = None, as_frame: bool = False
-- 
2.43.0


From fb930b38739446d87e527df171e72579e3c8f3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 46/89] fix: checks of the sampling interval for datetimes and
 per time series intervals

---
 datafold/pcfold/timeseries/accessor.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 62c3862..44b16e0 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -235,7 +235,7 @@ class TSCAccessor:
 
             if self._tsc_df.is_datetime_index():
                 if (delta_times != required_time_delta).any():
-                    raise AttributeError
+                    raise AssertionError
             else:
                 # this is a better variant than
                 # np.asarray(self._tsc_df.delta_time) == np.asarray(required_time_delta)
@@ -345,18 +345,17 @@ class TSCAccessor:
         Y_dt = Y.delta_time
 
         equal = True
-        if isinstance(X_dt, pd.Series) and not require_const:
-            if not isinstance(Y_dt, pd.Series):
+        any_series = isinstance(X_dt, pd.Series) or isinstance(Y_dt, pd.Series)
+        if any_series and not require_const:
+            if not (isinstance(X_dt, pd.Series) and isinstance(Y_dt, pd.Series)):
                 equal = False
             else:
                 try:
-                    pdtest.assert_series_equal(X_dt, Y_dt, atol=atol)
+                    pdtest.assert_series_equal(X_dt, Y_dt, rtol=0.0, atol=atol)
                 except AssertionError:
                     equal = False
 
-        elif (
-            isinstance(X_dt, pd.Series) or isinstance(Y_dt, pd.Series)
-        ) and require_const:
+        elif any_series:
             raise TSCException.not_const_delta_time()
         else:
             if not cls.equal_const_delta_time(X_dt, Y_dt, atol=atol):
@@ -388,6 +387,8 @@ class TSCAccessor:
         -------
         bool
         """
+        if isinstance(dt1, np.timedelta64) or isinstance(dt2, np.timedelta64):
+            return dt1 == dt2
         return np.abs(dt1 - dt2) <= atol
 
     def iter_timevalue_window(
-- 
2.43.0


From a1f2971e73b8eadf9c41c402723a7630907bcbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 47/89] fix: shift_matrices mixed time series if the IDs are
 not sorted

---
 datafold/pcfold/timeseries/accessor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 44b16e0..40e2726 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -1243,6 +1243,9 @@ class TSCAccessor:
                     right = np.delete(values.copy(), idx_del_right, axis=0)
 
             elif isinstance(ts_counts, pd.Series):
+                # the IDs are not necessarily sorted in the rows
+                row_ids = self._tsc_df.index.get_level_values(TSCDataFrame.tsc_id_idx_name)
+                ts_counts = ts_counts.loc[row_ids.unique()]
                 idx = np.append(0, ts_counts.to_numpy()).cumsum()
                 idx_del_left = (idx - 1)[1:]
                 idx_del_right = idx[:-1]
-- 
2.43.0


From 1e580069c3d39cdb291173e060b75965e7d2011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 48/89] fix: shift_time_per_time_series and expand_time_values
 for unsorted time series IDs

---
 datafold/pcfold/timeseries/accessor.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 40e2726..a0826a9 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -551,7 +551,10 @@ class TSCAccessor:
             )
             return TSCDataFrame.from_tensor(
                 tensor=tensor_data,
-                time_series_ids=self._tsc_df.ids,
+                # the IDs are not necessarily sorted in the rows
+                time_series_ids=self._tsc_df.index.get_level_values(
+                    TSCDataFrame.tsc_id_idx_name
+                ).unique(),
                 time_values=new_time_values,
                 feature_names=self._tsc_df.columns,
             )
@@ -589,10 +592,6 @@ class TSCAccessor:
            shifted time series collection and shift_values (optional)
 
         """
-        n_timesteps = self._tsc_df.n_timesteps
-        if isinstance(n_timesteps, pd.Series):
-            n_timesteps = n_timesteps.to_numpy()
-
         if shift_values is None:
             shift_values = self._tsc_df.initial_states(1).index
             shift_values = pd.Series(
@@ -612,7 +611,9 @@ class TSCAccessor:
                 )
 
         if np.any(shift_values != 0):
-            time_shift_expanded = np.repeat(shift_values.to_numpy(), n_timesteps)
+            time_shift_expanded = shift_values.loc[
+                self._tsc_df.index.get_level_values(TSCDataFrame.tsc_id_idx_name)
+            ].to_numpy()
 
             normalized_time_values = (
                 self._tsc_df.index.get_level_values("time") + time_shift_expanded
-- 
2.43.0


From 30c63d358e89122ba0f328891ffec1eac5bee94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 49/89] fix: fill_timeseries_with_last_state attached the
 states to series 0

---
 datafold/pcfold/timeseries/accessor.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index a0826a9..2ca351d 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -1150,12 +1150,15 @@ class TSCAccessor:
         n_attach = n_timesteps - self._tsc_df.shape[0]
 
         last_state = self._tsc_df.iloc[[-1], :].to_numpy()
-        first_time = self._tsc_df.time_values()[-1] + dt
+        last_time = self._tsc_df.time_values()[-1]
 
         attach_states = np.tile(last_state, (n_attach, 1))
-        attach_time = np.arange(first_time, first_time + n_attach * dt - 1e-15, dt)
+        attach_time = last_time + dt * np.arange(1, n_attach + 1)
         tsc_attach = TSCDataFrame.from_array(
-            attach_states, time_values=attach_time, feature_names=self._tsc_df.columns
+            attach_states,
+            time_values=attach_time,
+            feature_names=self._tsc_df.columns,
+            ts_id=self._tsc_df.ids[0],
         )
         return pd.concat([self._tsc_df, tsc_attach], axis=0)
 
-- 
2.43.0


From fc486d51e0cd255ac97c77677b12f7d3c8b8c118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 50/89] fix: augment_control_input failed if the first time
 series has ID 1

---
 datafold/pcfold/timeseries/accessor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index 2ca351d..e028208 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -1169,8 +1169,9 @@ class TSCAccessor:
         #   same ID axis
 
         X_ids = self._tsc_df.index.get_level_values(TSCDataFrame.tsc_id_idx_name)
+        # prepend -1, which is no valid ID
         mask_all_except_first = np.logical_not(
-            np.diff(X_ids, prepend=True).astype(bool)
+            np.diff(X_ids, prepend=-1).astype(bool)
         )
         mask_all_except_last = np.append(
             np.logical_not((X_ids[:-1] - X_ids[1:]).astype(bool)), False
-- 
2.43.0


From ed9c443f3efc8fb18ad0fccb5d1b9d6b1868e1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 51/89] fix: normalize_time truncated time values because of
 numerical noise

---
 datafold/pcfold/timeseries/accessor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/accessor.py b/datafold/pcfold/timeseries/accessor.py
index e028208..9b737e3 100644
--- a/datafold/pcfold/timeseries/accessor.py
+++ b/datafold/pcfold/timeseries/accessor.py
@@ -672,7 +672,8 @@ class TSCAccessor:
             min_time = min_time.astype(int)
             delta_time = delta_time.astype(int)
 
-        convert_times = np.array((convert_times - min_time) / delta_time, dtype=int)
+        convert_times = np.rint((convert_times - min_time) / delta_time)
+        convert_times = np.array(convert_times, dtype=int)
         convert_times = pd.Index(convert_times, name=TSCDataFrame.tsc_time_idx_name)
 
         new_tsc_index = pd.MultiIndex.from_arrays(
-- 
2.43.0


From 7965c4abc14ae94f0200f864bee1c18b3bd3fcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 52/89] fix: integer kappa in TSCTakensEmbedding failed for
 integer data

---
 datafold/dynfold/transform.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index de37184..6bee294 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -814,8 +814,7 @@ class TSCTakensEmbedding(BaseEstimator, TSCTransformerMixin):
             )
 
             if self.kappa > 0:
-                if isinstance(self.kappa, float):
-                    delayed_data = delayed_data.astype(float)
+                delayed_data = delayed_data.astype(float)
                 delayed_data *= kappa_vec
 
             # cast back to DataFrame, and adapt the index by excluding removed indices
-- 
2.43.0


From 277b42feef486b0337c78855f78362e8230f891a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 53/89] fix: TSCWindowFoldTime tore time series if the IDs are
 not sorted

---
 datafold/pcfold/timeseries/metric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/metric.py b/datafold/pcfold/timeseries/metric.py
index a21ae5c..067fb14 100644
--- a/datafold/pcfold/timeseries/metric.py
+++ b/datafold/pcfold/timeseries/metric.py
@@ -866,7 +866,8 @@ class TSCWindowFoldTime(TSCCrossValidationSplit):
             X.index.get_level_values(TSCDataFrame.tsc_id_idx_name) - max_id
         )
         idx = pd.MultiIndex.from_arrays(
-            [np.sort(time_series_ids), np.arange(X.shape[0])]
+            # reversed rows (the IDs are not necessarily sorted)
+            [time_series_ids[::-1], np.arange(X.shape[0])]
         )
         indices_tsc = TSCDataFrame(index=idx)
         indices_tsc.loc[:, "indices"] = np.arange(X.shape[0])[::-1]
-- 
2.43.0


From 5057540c497659f761207dde3bb874451c028532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 54/89] fix: feature weights failed for metrics rrmse, l2 and
 linf

---
 datafold/pcfold/timeseries/metric.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/timeseries/metric.py b/datafold/pcfold/timeseries/metric.py
index 067fb14..039643a 100644
--- a/datafold/pcfold/timeseries/metric.py
+++ b/datafold/pcfold/timeseries/metric.py
@@ -130,8 +130,10 @@ class TSCMetric:
 
         norm = np.linalg.norm(diff, ord=order, axis=0)
 
-        if multioutput == "uniform_average":
+        if isinstance(multioutput, str) and multioutput == "uniform_average":
             norm = np.mean(norm)
+        elif isinstance(multioutput, np.ndarray):
+            norm = np.average(norm, weights=multioutput)
 
         return norm
 
@@ -181,7 +183,7 @@ class TSCMetric:
         self, y_true, y_pred, sample_weight=None, multioutput="uniform_average"
     ):
         """Metric from :cite:`le_clainche_higher_2017`."""
-        if multioutput == "uniform_average":
+        if self._is_scalar_multioutput(multioutput):
             norm_ = np.sum(np.square(np.linalg.norm(y_true, axis=1)))
         else:  # multioutput == "raw_values":
             norm_ = np.sum(np.square(y_true), axis=0)
-- 
2.43.0


From 15fc26a24ff8dc35a758a381e183ac0d0ff1dcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 55/89] fix: scaling "l2_normalize" scaled true and predicted
 samples differently

---
 datafold/pcfold/timeseries/metric.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/datafold/pcfold/timeseries/metric.py b/datafold/pcfold/timeseries/metric.py
index 039643a..7312829 100644
--- a/datafold/pcfold/timeseries/metric.py
+++ b/datafold/pcfold/timeseries/metric.py
@@ -8,12 +8,24 @@ import numpy as np
 import pandas as pd
 from sklearn import metrics
 from sklearn.model_selection import KFold
-from sklearn.preprocessing import MinMaxScaler, Normalizer, StandardScaler
+from sklearn.preprocessing import MinMaxScaler, StandardScaler
 
 from datafold.pcfold import TSCDataFrame
 from datafold.utils.general import is_df_same_index, is_integer, series_if_applicable
 
 
+class _FeatureL2Scaler:
+    """Divide each feature by its Euclidean norm in the data passed to fit."""
+
+    def fit_transform(self, X):
+        norm = np.linalg.norm(np.asarray(X), axis=0)
+        self.norm_ = np.where(norm == 0, 1.0, norm)
+        return self.transform(X)
+
+    def transform(self, X):
+        return np.asarray(X) / self.norm_
+
+
 class TSCMetric:
     """Compute metrics for time series collection data.
 
@@ -95,7 +107,7 @@ class TSCMetric:
         elif name == "standard":
             return StandardScaler()
         elif name == "l2_normalize":
-            return Normalizer(norm="l2")
+            return _FeatureL2Scaler()
         else:
             raise ValueError(
                 f"scaling={name} is not known. Choose from {self._cls_valid_scaling}"
-- 
2.43.0


From e350afa666c33683364a77acd9e5178e0a09a2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:08 +0000
Subject: [PATCH 56/89] fix: a transformer fitted again kept the features of
 the first fit

---
 datafold/dynfold/base.py | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index bcc869e..cc3c01f 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -253,30 +253,29 @@ class TSCTransformerMixin(TSCBase, TransformerMixin):
         X,
         n_features_out: Optional[int] = None,
     ) -> None:
-        if not hasattr(self, "n_features_in_"):
-            # sklearn function to set n_features_in_
-            self._check_n_features(X, reset=True)
-
-        if not hasattr(self, "feature_names_in_"):
-            if isinstance(X, TSCDataFrame) and not isinstance(X.columns[0], str):
-                # workaround for datafold to support non-str feature names
-                # sklearn does only support feature names of type str
-                # Note that there is a guarantee for TSCDataFrame that the feature names have
-                # same type
-                self.feature_names_in_ = X.columns.to_numpy()
-            else:
-                # sklearn function to set feature_names_in_
-                self._check_feature_names(X, reset=True)
+        # every fit replaces the attributes of a previous fit
+
+        # sklearn function to set n_features_in_
+        self._check_n_features(X, reset=True)
+
+        if isinstance(X, TSCDataFrame) and not isinstance(X.columns[0], str):
+            # workaround for datafold to support non-str feature names
+            # sklearn does only support feature names of type str
+            # Note that there is a guarantee for TSCDataFrame that the feature names have
+            # same type
+            self.feature_names_in_ = X.columns.to_numpy()
+        else:
+            # sklearn function to set feature_names_in_
+            self._check_feature_names(X, reset=True)
 
         # TODO: set features out implemented in alignment to SLEO013, but this proposal was
         #  rejected -- think of removing n_features_out (check how often and where it is used)
         # https://scikit-learn-enhancement-proposals.readthedocs.io/en/latest/slep013/proposal.html  # noqa
-        if not hasattr(self, "n_features_out_"):
-            if n_features_out is None:
-                feature_out = self.get_feature_names_out()
-                self.n_features_out_: int = len(feature_out)
-            else:
-                self.n_features_out_ = n_features_out
+        if n_features_out is None:
+            feature_out = self.get_feature_names_out()
+            self.n_features_out_: int = len(feature_out)
+        else:
+            self.n_features_out_ = n_features_out
 
     def _validate_feature_input(
         self: Union[BaseEstimator, "TSCTransformerMixin"], X: TransformType, direction
-- 
2.43.0


From 589bc1b93917478c3ffa8fb4ddc3a7c7fc6f2490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:08 +0000
Subject: [PATCH 57/89] fix: TSCFeatureSelect did not accept feature names

---
 datafold/dynfold/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 6bee294..a942ef0 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -192,9 +192,9 @@ class TSCFeatureSelect(BaseEstimator, TSCTransformerMixin):
         self.features = features
 
     def get_feature_names_out(self, input_features=None):
-        if self.features.dtype == np.str_:
+        if self.features.dtype.kind == "U":
             return self.features
-        elif self.features.dtype == np.int_:
+        elif self.features.dtype.kind in "iu":
             return self.feature_names_in_[self.features]
         else:
             raise ValueError(f"{self.features.dtype=} is not supported")
-- 
2.43.0


From c4faf40829b1fb707b0ce6a6d1fd81b2bef5e708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:08 +0000
Subject: [PATCH 58/89] fix: TSCIncrementalPCA overwrote the data of the user

---
 datafold/dynfold/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index a942ef0..4ca32a1 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -376,7 +376,7 @@ class TSCIdentity(BaseEstimator, TSCTransformerMixin):
 class TSCIncrementalPCA(IncrementalPCA, TSCTransformerMixin):  # pragma: no cover
     # TODO: docu, tests
 
-    def __init__(self, n_components, *, whiten=False, copy=False, batch_size=None):
+    def __init__(self, n_components, *, whiten=False, copy=True, batch_size=None):
         super().__init__(
             n_components=n_components, whiten=whiten, copy=copy, batch_size=batch_size
         )
-- 
2.43.0


From 5e16a391c47e5de517bb1f25444afdf0d75a836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:08 +0000
Subject: [PATCH 59/89] fix: inverse of TSCIdentity kept the new feature names

---
 datafold/dynfold/transform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 4ca32a1..432d931 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -370,6 +370,10 @@ class TSCIdentity(BaseEstimator, TSCTransformerMixin):
             else:
                 X = X[:, :-1]
 
+        if self.rename_features and self._has_feature_names(X):
+            X = X.copy(deep=True)
+            X.columns = pd.Index(self.feature_names_in_, name=X.columns.name)
+
         return X
 
 
-- 
2.43.0


From 20a07f3843e443bd562bb32e5538b279ddcdc17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 60/89] fix: TSCTakensEmbedding renamed the columns of the data
 passed in

---
 datafold/dynfold/transform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 432d931..39f23ed 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -621,6 +621,9 @@ class TSCTakensEmbedding(BaseEstimator, TSCTransformerMixin):
         )
 
     def _columns_to_type_str(self, X):
+        # copy (without the data) to not rename the columns of the user's data
+        X = X.copy(deep=False)
+
         # in case the column in not string it is important to transform it here to
         # string. Otherwise, There are mixed types (e.g. int and str), because the
         # delayed columns are all strings to indicate the delay number.
-- 
2.43.0


From 2831506b867d3c2e52ad813fc4cc2bbe744386f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 61/89] fix: FourierRBF could not be fitted

---
 datafold/dynfold/transform.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 39f23ed..4d64005 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -956,10 +956,10 @@ class FourierRBF(BaseEstimator, TSCTransformerMixin):  # pragma: no cover
         return pd.Index(sin + cos)
 
     def fit(self, X, y=None, **fit_params):
+        X = self._validate_datafold_data(X, ensure_tsc=True)
+        self._read_fit_params(attrs=None, fit_params=fit_params)
         self._setup_feature_attrs_fit(X, n_features_out=2 * self.n_features)
 
-        self._read_fit_params(None, **fit_params)
-
         # sample features components
         self.fourier_components_ = np.zeros([X.shape[1], self.n_features])
 
@@ -980,6 +980,10 @@ class FourierRBF(BaseEstimator, TSCTransformerMixin):  # pragma: no cover
             return self
 
     def transform(self, X):
+        check_is_fitted(self, "fourier_components_")
+        X = self._validate_datafold_data(X, ensure_tsc=True)
+        self._validate_feature_input(X, direction="transform")
+
         mc_samples = np.dot(X.to_numpy(), self.fourier_components_)
         all_samples = np.zeros([X.shape[0], 2 * self.n_features])
         all_samples[:, : self.n_features] = np.sin(mc_samples)
-- 
2.43.0


From bca0509fbee58837778943d9434586c7cb5b1097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 62/89] fix: TSCApplyLambdas returned the feature names in a
 different order than the features

---
 datafold/dynfold/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 4d64005..b480c1a 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -1476,11 +1476,12 @@ class TSCApplyLambdas(BaseEstimator, TSCTransformerMixin):
         if feature_names_in is None:
             feature_names_in = self.feature_names_in_
 
+        # same order as in transform
         return np.array(
             [
                 f"{feature_name}_lambda{i}"
-                for feature_name in feature_names_in
                 for i in range(len(self.lambdas))
+                for feature_name in feature_names_in
             ]
         )
 
-- 
2.43.0


From 6fac2232383cac7eb2bdb0d76d73a59c32816139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 63/89] fix: TSCFiniteDifference returned other feature names
 than the ones of its output

---
 datafold/dynfold/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index b480c1a..487e08a 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -1600,7 +1600,7 @@ class TSCFiniteDifference(BaseEstimator, TSCTransformerMixin):
     def get_feature_names_out(self, input_features=None):
         if input_features is None:
             input_features = self.feature_names_in_
-        return [f"{col}_dot" for col in input_features]
+        return [f"{col}_dot{self.diff_order}" for col in input_features]
 
     def fit(self, X: TransformType, y=None, **fit_params) -> "TSCFiniteDifference":
         """Set and validate time spacing between samples.
-- 
2.43.0


From a28ff497929027df8c4abe663af4a7319ac6d8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 64/89] fix: inverse of TSCRadialBasis used the centers of a
 previous fit

---
 datafold/dynfold/transform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 487e08a..3ea6edd 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -1224,6 +1224,10 @@ class TSCRadialBasis(BaseEstimator, TSCTransformerMixin):
 
         self._setup_feature_attrs_fit(X)
 
+        # computed in the first inverse_transform, drop the one of a previous fit
+        if hasattr(self, "inv_coeff_matrix_"):
+            del self.inv_coeff_matrix_
+
         return self
 
     def transform(self, X: TransformType) -> TransformType:
-- 
2.43.0


From 299486e56e82a7f7065b4ed351086a3e901485ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:47 +0000
Subject: [PATCH 65/89] fix: transform and inverse of transformers fitted with
 arrays raised an error

---
 datafold/dynfold/transform.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 3ea6edd..d107bc9 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -174,7 +174,9 @@ class TSCFeaturePreprocess(BaseEstimator, TSCTransformerMixin):
 
         values = self.sklearn_transformer_fit_.inverse_transform(X)
         return self._same_type_X(
-            X=X, values=values, feature_names=self.feature_names_in_
+            X=X,
+            values=values,
+            feature_names=getattr(self, "feature_names_in_", None),
         )
 
 
@@ -515,7 +517,9 @@ class TSCPrincipalComponent(PCA, TSCTransformerMixin):
         data_orig_space = super().inverse_transform(X)
 
         return self._same_type_X(
-            X, values=data_orig_space, feature_names=self.feature_names_in_
+            X,
+            values=data_orig_space,
+            feature_names=getattr(self, "feature_names_in_", None),
         )
 
 
@@ -1316,7 +1320,9 @@ class TSCRadialBasis(BaseEstimator, TSCTransformerMixin):
 
         X_inverse = rbf_coeff @ self.inv_coeff_matrix_
         return self._same_type_X(
-            X, values=X_inverse, feature_names=self.feature_names_in_
+            X,
+            values=X_inverse,
+            feature_names=getattr(self, "feature_names_in_", None),
         )
 
 
@@ -1436,7 +1442,7 @@ class TSCPolynomialFeatures(PolynomialFeatures, TSCTransformerMixin):
             X,
             values=poly_data,
             feature_names=self.get_feature_names_out(
-                input_features=self.feature_names_in_
+                input_features=getattr(self, "feature_names_in_", None)
             ),
         )
 
-- 
2.43.0


From eac80b38e48b9afcb1be7896320421766499f016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:47 +0000
Subject: [PATCH 66/89] fix: inverse of TSCFeaturePreprocess accepted data with
 other features

---
 datafold/dynfold/transform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index d107bc9..f9bc63b 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -172,6 +172,9 @@ class TSCFeaturePreprocess(BaseEstimator, TSCTransformerMixin):
         if not hasattr(self.sklearn_transformer, "inverse_transform"):
             raise AttributeError("sklearn object has no 'inverse_transform' attribute")
 
+        check_is_fitted(self, "sklearn_transformer_fit_")
+        self._validate_feature_input(X, direction="inverse_transform")
+
         values = self.sklearn_transformer_fit_.inverse_transform(X)
         return self._same_type_X(
             X=X,
-- 
2.43.0


From b2fdd129d4ed23dcbb16a7774116cd25d113b6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:15 +0000
Subject: [PATCH 67/89] fix: TSCIncrementalPCA lost feature names in fit and
 the series in its inverse

---
 datafold/dynfold/transform.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index f9bc63b..0eb2fde 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -393,10 +393,16 @@ class TSCIncrementalPCA(IncrementalPCA, TSCTransformerMixin):  # pragma: no cove
     def get_feature_names_out(self, input_features=None):
         return np.array([f"pca{i}" for i in range(self.n_components_)], dtype=object)
 
+    def fit(self, X, y=None):
+        super().fit(X, y=y)
+        self._setup_feature_attrs_fit(X)
+        return self
+
     def partial_fit(self, X, y=None, check_input=True):
-        super().partial_fit(X, y=y)
+        super().partial_fit(X, y=y, check_input=check_input)
 
-        if self.n_samples_seen_ == X.shape[0]:
+        # with check_input=False the method is called from fit, where X is an array
+        if check_input and self.n_samples_seen_ == X.shape[0]:
             self._setup_feature_attrs_fit(X)
         return self
 
@@ -410,6 +416,15 @@ class TSCIncrementalPCA(IncrementalPCA, TSCTransformerMixin):  # pragma: no cove
             X, values=pca_data, feature_names=self.get_feature_names_out()
         )
 
+    def inverse_transform(self, X):
+        self._validate_feature_input(X, direction="inverse_transform")
+
+        return self._same_type_X(
+            X,
+            values=super().inverse_transform(X),
+            feature_names=getattr(self, "feature_names_in_", None),
+        )
+
 
 class TSCPrincipalComponent(PCA, TSCTransformerMixin):
     """Compute principal components from data.
-- 
2.43.0


From efc04578c427cb2ee47955f958e8ff46961c7561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:46 +0000
Subject: [PATCH 68/89] fix: inverse of TSCIdentity failed for arrays

---
 datafold/dynfold/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 0eb2fde..57068ca 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -369,7 +369,7 @@ class TSCIdentity(BaseEstimator, TSCTransformerMixin):
         self._validate_feature_input(X, direction="inverse_transform")
 
         if self.include_const:
-            X = X.copy(deep=True)
+            X = X.copy()
             if self._has_feature_names(X):
                 X = X.drop("const", axis=1)
             else:
-- 
2.43.0


From 99ef7e960a0a6bd30016873e4d39d3896374c770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 69/89] fix: TSCFiniteDifference failed for a given spacing

---
 datafold/dynfold/transform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index 57068ca..c23a58a 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -1682,10 +1682,11 @@ class TSCFiniteDifference(BaseEstimator, TSCTransformerMixin):
                 raise TSCException.not_const_delta_time(actual_delta_time=self.spacing_)
         else:
             check_scalar(
-                x=self.spacing,
+                self.spacing,
+                name="spacing",
                 target_type=(float, int),
                 min_val=0,
-                include_boundaries="right",
+                include_boundaries="neither",
             )
             self.spacing_ = self.spacing
 
-- 
2.43.0


From a65ef2a7e147b4a748addef4625a86556f72b838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:53 +0000
Subject: [PATCH 70/89] fix: GeometricHarmonicsInterpolator.score ignored the
 sample weights

---
 datafold/dynfold/outofsample.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datafold/dynfold/outofsample.py b/datafold/dynfold/outofsample.py
index 3ef7a72..74128d0 100644
--- a/datafold/dynfold/outofsample.py
+++ b/datafold/dynfold/outofsample.py
@@ -321,10 +321,10 @@ class GeometricHarmonicsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstim
         sample_weight: Optional[np.ndarray] = None,
         multioutput: str = "raw_values",
     ) -> float:
-        """Score interpolation model with negative mean squared error metric.
+        """Score interpolation model with negative root mean squared error metric.
 
         .. note::
-            The mean squared error is negated to comply with "higher score is better"
+            The root mean squared error is negated to comply with "higher score is better"
             from scikit-learn.
 
         Parameters
@@ -367,7 +367,7 @@ class GeometricHarmonicsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstim
         y_pred = self.predict(X)
 
         score = mean_squared_error(
-            y, y_pred, sample_weight=None, multioutput=multioutput
+            y, y_pred, sample_weight=sample_weight, multioutput=multioutput
         )
 
         if multioutput == "raw_values" and len(score) == 1:
-- 
2.43.0


From 89cc0c09878a138f864bc2834271b5369b4a58fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:53 +0000
Subject: [PATCH 71/89] fix: GeometricHarmonicsInterpolator.predict lost the
 sample axis of single samples

---
 datafold/dynfold/outofsample.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/outofsample.py b/datafold/dynfold/outofsample.py
index 74128d0..abaa41b 100644
--- a/datafold/dynfold/outofsample.py
+++ b/datafold/dynfold/outofsample.py
@@ -243,7 +243,10 @@ class GeometricHarmonicsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstim
         )
 
         kernel_matrix_ = self._dmap_kernel(self.X_fit_, X)
-        return np.squeeze(kernel_matrix_ @ self._aux)
+        y_hat = kernel_matrix_ @ self._aux
+
+        # only remove the axis of the targets (there may be a single query sample)
+        return np.squeeze(y_hat, axis=1) if y_hat.shape[1] == 1 else y_hat
 
     @warn_known_bug(gitlab_issue=16)
     def gradient(self, X: np.ndarray, vcol: Optional[int] = None) -> np.ndarray:
-- 
2.43.0


From da514a4f25d16517f286d8c32b15ac21546773e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:53 +0000
Subject: [PATCH 72/89] fix: LaplacianPyramidsInterpolator did not terminate
 for mu=1

---
 datafold/dynfold/outofsample.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datafold/dynfold/outofsample.py b/datafold/dynfold/outofsample.py
index abaa41b..996ad03 100644
--- a/datafold/dynfold/outofsample.py
+++ b/datafold/dynfold/outofsample.py
@@ -590,6 +590,7 @@ class LaplacianPyramidsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstima
             "mu",
             target_type=(int, np.integer, float, np.floating),
             min_val=1,
+            include_boundaries="neither",
         )
 
         if isinstance(X, np.memmap):
-- 
2.43.0


From 40d4878c0bacc688dc7e31c97d33c37d7513d21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:11 +0000
Subject: [PATCH 73/89] fix: JointlySmoothFunctions failed if there are fewer
 functions than requested

---
 datafold/dynfold/jsf.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/datafold/dynfold/jsf.py b/datafold/dynfold/jsf.py
index e7e616e..9f3e382 100644
--- a/datafold/dynfold/jsf.py
+++ b/datafold/dynfold/jsf.py
@@ -238,7 +238,9 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
             jointly_smooth_functions = TSCDataFrame.from_same_indices_as(
                 X,
                 jointly_smooth_functions,
-                except_columns=self.get_feature_names_out(),
+                except_columns=[
+                    f"jsf{i}" for i in range(jointly_smooth_functions.shape[1])
+                ],
             )
 
         return singular_vals, jointly_smooth_functions
@@ -280,7 +282,7 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
 
         _dtype_probe = list(alphas.values())[0].dtype
         f_m_star = np.zeros(
-            [X.shape[0], self.n_jointly_smooth_functions], dtype=_dtype_probe
+            [X.shape[0], self.jointly_smooth_vectors_.shape[1]], dtype=_dtype_probe
         )
         tmp = np.zeros_like(f_m_star)
 
@@ -339,7 +341,13 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
         return return_content
 
     def get_feature_names_out(self, input_features=None):
-        return np.array([f"jsf{i}" for i in range(self.n_jointly_smooth_functions)])
+        if hasattr(self, "jointly_smooth_vectors_"):
+            # there can be fewer functions than requested
+            n_functions = self.jointly_smooth_vectors_.shape[1]
+        else:
+            n_functions = self.n_jointly_smooth_functions
+
+        return np.array([f"jsf{i}" for i in range(n_functions)])
 
     def fit(self, X: TransformType, y=None, **fit_params) -> "JointlySmoothFunctions":
         """Compute the jointly smooth functions on training data `X`.
@@ -388,6 +396,9 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
             self.jointly_smooth_vectors_,
         ) = self._compute_jointly_smooth_vectors(X, self.kernel_eigenvectors_)
 
+        # there can be fewer functions than requested
+        self.n_features_out_ = self.jointly_smooth_vectors_.shape[1]
+
         return self
 
     def transform(self, X: TransformType) -> TransformType:
-- 
2.43.0


From 85b8fc9c9403b0bf18c513df6a7af4a43c42fb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:11 +0000
Subject: [PATCH 74/89] fix: JointlySmoothFunctions failed for data frames

---
 datafold/dynfold/jsf.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/datafold/dynfold/jsf.py b/datafold/dynfold/jsf.py
index 9f3e382..005a03c 100644
--- a/datafold/dynfold/jsf.py
+++ b/datafold/dynfold/jsf.py
@@ -165,7 +165,7 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
                 n_eigenpairs=self.n_kernel_eigenvectors,
             )
 
-            if isinstance(X, pd.DataFrame) and kernel_matrix.shape[0] == X.shape[0]:
+            if isinstance(X, TSCDataFrame) and kernel_matrix.shape[0] == X.shape[0]:
                 kernel_eigenvectors = TSCDataFrame.from_same_indices_as(
                     indices_from=X,
                     values=kernel_eigenvectors,
@@ -291,12 +291,9 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
 
         f_m_star /= len(self.data_splits)  # divide by number of splits
 
-        if isinstance(X, TSCDataFrame) and hasattr(self, "feature_names_in_"):
-            f_m_star = TSCDataFrame.from_same_indices_as(
-                X, f_m_star, except_columns=self.get_feature_names_out()
-            )
-
-        return f_m_star
+        return self._same_type_X(
+            X, values=f_m_star, feature_names=self.get_feature_names_out()
+        )
 
     def _kernel_content_fit(self, X: TransformType):
         return_content: dict[str, dict] = dict()
-- 
2.43.0


From 62a72b951ee780a5c6a8edd5b5ff7abc77dfc7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:11 +0000
Subject: [PATCH 75/89] fix: JointlySmoothFunctions.score_ did not return a
 number

---
 datafold/dynfold/jsf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/jsf.py b/datafold/dynfold/jsf.py
index 005a03c..fadfa9c 100644
--- a/datafold/dynfold/jsf.py
+++ b/datafold/dynfold/jsf.py
@@ -477,12 +477,12 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
         for name in self.kernel_eigenvectors_:
             truncated_energy = np.linalg.norm(
                 np.asarray(self.kernel_eigenvectors_[name]).T
-                @ self.jointly_smooth_vectors_,
+                @ np.asarray(self.jointly_smooth_vectors_),
                 axis=0,
             )
             truncated_energies[name] = truncated_energy**2
 
-        return np.array(truncated_energies.values())
+        return np.array(list(truncated_energies.values()))
 
     def compute_E0(self) -> float:
         """Compute a threshold for the eigenvalues of the jointly smooth functions.
-- 
2.43.0


From 06074ac7bf1b01e601b168ae807ae8473f48814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:34 +0000
Subject: [PATCH 76/89] fix: JointlySmoothFunctions.compute_E0 ignored the
 noise for more than two splits

---
 datafold/dynfold/jsf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/datafold/dynfold/jsf.py b/datafold/dynfold/jsf.py
index fadfa9c..d6ae70e 100644
--- a/datafold/dynfold/jsf.py
+++ b/datafold/dynfold/jsf.py
@@ -494,7 +494,7 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
         """
         kernel_evecs = list(self.kernel_eigenvectors_.values())
 
-        noisy = kernel_evecs[-1].copy()
+        noisy = np.array(kernel_evecs[-1])
 
         rng = np.random.default_rng(1)  # expose seed to user if required
         rng.shuffle(noisy)
@@ -502,11 +502,11 @@ class JointlySmoothFunctions(BaseEstimator, TSCTransformerMixin):
         kernel_eigenvectors = kernel_evecs[:-1]
         kernel_eigenvectors.append(noisy)
 
-        eigenvectors_matrix = np.column_stack(kernel_evecs)
+        eigenvectors_matrix = np.column_stack(kernel_eigenvectors)
 
         if len(kernel_eigenvectors) == 2:
-            ev0 = kernel_eigenvectors[0]
-            ev1 = kernel_eigenvectors[1]
+            ev0 = np.asarray(kernel_eigenvectors[0])
+            ev1 = np.asarray(kernel_eigenvectors[1])
 
             gamma = scipy.sparse.linalg.svds(
                 ev0.T @ ev1,
-- 
2.43.0


From 5ec6f895b361c3da38a4861e1df398b50dff2d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:32 +0000
Subject: [PATCH 77/89] fix: LaplacianPyramidsInterpolator did not terminate if
 the LOOCV error stays constant

---
 datafold/dynfold/outofsample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/dynfold/outofsample.py b/datafold/dynfold/outofsample.py
index 996ad03..8f9b119 100644
--- a/datafold/dynfold/outofsample.py
+++ b/datafold/dynfold/outofsample.py
@@ -637,7 +637,7 @@ class LaplacianPyramidsInterpolator(RegressorMixin, MultiOutputMixin, BaseEstima
             if (
                 not np.isnan(last_residual_norm)  # nan if self.level_ <= 1
                 # stop if residual is  increasing
-                and current_residual_norm > last_residual_norm
+                and current_residual_norm >= last_residual_norm
             ):
                 signal = self._LoopCond.LOOCV_INCREASES
 
-- 
2.43.0


From 1d56f9b4ada20431bdb574bcc9467f9898b0859c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:59 +0000
Subject: [PATCH 78/89] fix: EDMD.reconstruct assigned states to wrong time
 series

---
 datafold/appfold/edmd.py | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index a9865b5..b4a75d4 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -714,7 +714,9 @@ class EDMD(
 
         if self.dmd_model.is_time_invariant and not X.is_datetime_index():
             # TODO: support for datetime_index requires implementation.
-            orig_index = X.index.copy(deep=True)
+            orig_index = X.index
+            # copy, because the time values are changed
+            X = X.copy()
             X = X.tsc.shift_time_per_time_series(ensure_identical_values=True)
             normalized_time = True
         else:
@@ -745,25 +747,20 @@ class EDMD(
         X_reconstruct = pd.concat(X_reconstruct, axis=0)
 
         if normalized_time:
-            # TODO: this can maybe be done better if it becomes in some scenario too
-            #  expensive
-            X.index = orig_index
-
-            if self.n_samples_ic_ > 1:
-
-                def _apply(df):
-                    # drop n instances of index and reset for X_reconstruct
-                    return (
-                        df.index[self.n_samples_ic_ - 1 :]
-                        .to_frame()
-                        .reset_index(drop=True)
-                    )
+            # The reconstruction iterates over groups of time series with equal time
+            # values, i.e. the series must be brought back to the original order
+            def _series_order(index):
+                ids = index.get_level_values(TSCDataFrame.tsc_id_idx_name)
+                return np.argsort(orig_ids.get_indexer(ids), kind="stable")
 
-                recovered_index = X.groupby(TSCDataFrame.tsc_id_idx_name).apply(_apply)
-                recovered_index = pd.MultiIndex.from_frame(recovered_index)
-            else:
-                recovered_index = orig_index
+            orig_ids = orig_index.get_level_values(TSCDataFrame.tsc_id_idx_name).unique()
+
+            # drop the samples that are only used for the initial condition
+            n_sample = X.groupby(TSCDataFrame.tsc_id_idx_name).cumcount().to_numpy()
+            recovered_index = orig_index[n_sample >= self.n_samples_ic_ - 1]
+            recovered_index = recovered_index[_series_order(recovered_index)]
 
+            X_reconstruct = X_reconstruct.iloc[_series_order(X_reconstruct.index), :]
             X_reconstruct = X_reconstruct.set_index(recovered_index)
 
         # NOTE: time series contained in X_reconstruct can be shorter than
-- 
2.43.0


From bf8bf10c0e1e0f4ac21f5abc8e908b542c138f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:29 +0000
Subject: [PATCH 79/89] fix: EDMD.reconstruct with control failed unless all
 time series share time values from zero

---
 datafold/appfold/edmd.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index b4a75d4..a2cb46b 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -709,6 +709,24 @@ class EDMD(
             self.steps[step_idx] = (name, fitted_transformer)
         return X
 
+    def _select_control(self, X_ic: TSCDataFrame, U: TSCDataFrame, time_values):
+        """Select the control input from the initial condition on."""
+        U = U.loc[pd.IndexSlice[X_ic.ids, :], :].copy()
+        ids = U.index.get_level_values(TSCDataFrame.tsc_id_idx_name)
+        control_times = U.index.get_level_values(TSCDataFrame.tsc_time_idx_name).to_numpy()
+
+        if not X_ic.is_datetime_index():
+            # there can be numerical noise between the time values
+            idx = np.searchsorted(time_values, control_times - self.dt_ / 2)
+            nearest = time_values[np.minimum(idx, len(time_values) - 1)]
+            is_equal = np.abs(nearest - control_times) <= 1e-6 * self.dt_
+            control_times = np.where(is_equal, nearest, control_times)
+            U.index = pd.MultiIndex.from_arrays(
+                [ids, control_times], names=U.index.names
+            )
+
+        return U.loc[control_times >= time_values[0], :]
+
     def _reconstruct(self, X: TSCDataFrame, U: Optional[TSCDataFrame], qois):
         X_reconstruct = []
 
@@ -716,8 +734,15 @@ class EDMD(
             # TODO: support for datetime_index requires implementation.
             orig_index = X.index
             # copy, because the time values are changed
-            X = X.copy()
-            X = X.tsc.shift_time_per_time_series(ensure_identical_values=True)
+            X, shift_values = X.copy().tsc.shift_time_per_time_series(
+                ensure_identical_values=True, return_shift_values=True
+            )
+
+            if U is not None:
+                # shift control input with its states
+                U = U.copy().tsc.shift_time_per_time_series(
+                    shift_values=shift_values.loc[U.ids]
+                )
             normalized_time = True
         else:
             normalized_time = False
@@ -726,8 +751,8 @@ class EDMD(
             X, n_samples_ic=self.n_samples_ic_
         ):
             if U is not None:
-                U_select = U.loc[pd.IndexSlice[X_ic.ids, :], :]
-                InitialCondition.validate_control(X_ic, U)
+                U_select = self._select_control(X_ic, U=U, time_values=time_values)
+                InitialCondition.validate_control(X_ic, U_select)
             else:
                 U_select = None
 
-- 
2.43.0


From ea903baab2cb1898c4f3911cd45db47d04379e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:44 +0000
Subject: [PATCH 80/89] fix: EDMD.partial_fit ignored whether the dictionary
 contains the states

---
 datafold/appfold/edmd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index a2cb46b..d83b5e2 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -1398,14 +1398,15 @@ class EDMD(
         X_dict = self._partial_fit(X, y, **fit_params)
 
         if initial_fit:
-            self.dict_preserves_id_state_ = self._validate_dictionary()
+            self._validate_dictionary()
+            self.dict_preserves_id_state_ = self._set_dict_preserves_id_state(X_dict)
 
         if initial_fit:
             self.n_samples_ic_ = self._compute_n_samples_ic(X, X_dict)
 
         if self.include_id_state and not self.dict_preserves_id_state_:
             X_dict = self._attach_id_state(X=X, X_dict=X_dict)
-        elif not self.include_id_state and not not self.dict_preserves_id_state_:
+        elif not self.include_id_state and not self.dict_preserves_id_state_:
             raise NotImplementedError(
                 "Currently, there is no implementation to partial_fit non-trivial update of "
                 "the modes. Either the dictionary must preserve the id states or "
-- 
2.43.0


From ad5dea4f7160b5990204de53a1ec3a894c9e1548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:49 +0000
Subject: [PATCH 81/89] fix: online models rejected continued streams because
 of noise in the sampling interval

---
 datafold/dynfold/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index cc3c01f..c9be739 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -683,10 +683,15 @@ class TSCPredictMixin(TSCBase):
                 "Currently, all methods require that dt_ is constant. "
             )
 
-        if np.abs(delta_time - self.dt_) > 1e-14:
+        if isinstance(self.dt_, np.timedelta64) or isinstance(delta_time, np.timedelta64):
+            is_equal = delta_time == self.dt_
+        else:
+            # same tolerance as in TSCDataFrame.delta_time
+            is_equal = np.isclose(delta_time, self.dt_, rtol=3e-12, atol=1e-15)
+
+        if not is_equal:
             raise TSCException(
-                f"delta_time during fit was {self.dt_=}, now it is {delta_time=} "
-                f"({np.abs(delta_time - self.dt_)=} with set tolerance 1e-14) "
+                f"delta_time during fit was {self.dt_=}, now it is {delta_time=}"
             )
 
     def _validate_feature_names(
-- 
2.43.0


From 1f0c6d4f4e19d79d8ed93ecdcc3ec7d202c189b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:49 +0000
Subject: [PATCH 82/89] fix: prediction accepted control input with another
 sampling interval

---
 datafold/dynfold/dmd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datafold/dynfold/dmd.py b/datafold/dynfold/dmd.py
index 2293333..ee787ac 100644
--- a/datafold/dynfold/dmd.py
+++ b/datafold/dynfold/dmd.py
@@ -394,6 +394,10 @@ class DMDBase(
 
             InitialCondition.validate_control(X_ic=X, U=U)
 
+            if self.is_flowmap_system and len(U.time_values()) > 1:
+                # each control input acts for a single step of the system
+                self._validate_delta_time(U.delta_time)
+
         X, U, time_values = self._validate_features_and_time_values(
             X=X, U=U, time_values=time_values
         )
-- 
2.43.0


From a6c2afa88738fd72931c4ddd24a9a3349ef26173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:49 +0000
Subject: [PATCH 83/89] fix: Roseland failed for data frames

---
 datafold/dynfold/dmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datafold/dynfold/dmap.py b/datafold/dynfold/dmap.py
index 666a6c4..a812169 100644
--- a/datafold/dynfold/dmap.py
+++ b/datafold/dynfold/dmap.py
@@ -972,10 +972,10 @@ class Roseland(BaseEstimator, TSCTransformerMixin):
             )
 
         if n_landmarks == X.shape[0]:
-            landmarks = X.to_numpy() if isinstance(X, TSCDataFrame) else X
+            landmarks = self._X_to_numpy(X)
         else:
             landmarks, _ = random_subsample(
-                X.to_numpy() if isinstance(X, TSCDataFrame) else X,
+                self._X_to_numpy(X),
                 n_landmarks,
                 random_state=self.random_state,
             )
-- 
2.43.0


From 4a9f81acdfd4ad3550c490f0f7db7cd236ed957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:54 +0000
Subject: [PATCH 84/89] fix: transformers accepted other features than in fit
 if the feature names are numbers

---
 datafold/dynfold/base.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index c9be739..1f985fb 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -284,7 +284,20 @@ class TSCTransformerMixin(TSCBase, TransformerMixin):
 
         if direction == "transform":
             self._check_n_features(X, reset=False)
-            self._check_feature_names(X, reset=False)
+
+            if (
+                isinstance(X, TSCDataFrame)
+                and hasattr(self, "feature_names_in_")
+                and not isinstance(X.columns[0], str)
+            ):
+                # sklearn does only check feature names of type str
+                if not np.array_equal(self.feature_names_in_, X.columns.to_numpy()):
+                    raise ValueError(
+                        f"The features names do not match. "
+                        f"Required: {self.feature_names_in_}."
+                    )
+            else:
+                self._check_feature_names(X, reset=False)
         else:  # direction == inverse_transform
             should_n_features = self.n_features_out_
 
-- 
2.43.0


From 2c9824bcc93ec5c7177fb5614ae0f4d7fcf18575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:40 +0000
Subject: [PATCH 85/89] fix: partial_fit of fitted transformers accepted other
 features than in fit

---
 datafold/dynfold/transform.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/datafold/dynfold/transform.py b/datafold/dynfold/transform.py
index c23a58a..4a56931 100644
--- a/datafold/dynfold/transform.py
+++ b/datafold/dynfold/transform.py
@@ -314,9 +314,10 @@ class TSCIdentity(BaseEstimator, TSCTransformerMixin):
         return self
 
     def partial_fit(self, X, y=None, **fit_transform):
-        if not hasattr(self, "feature_names_in_"):
+        if not hasattr(self, "n_features_in_"):
             return self.fit(X, y, **fit_transform)
         else:
+            self._validate_feature_input(X, direction="transform")
             return self
 
     def transform(self, X: TransformType) -> TransformType:
@@ -742,16 +743,20 @@ class TSCTakensEmbedding(BaseEstimator, TSCTransformerMixin):
         """
         try:
             check_is_fitted(self)
+        except NotFittedError:
+            # fit the model
+            self.fit(X, y, **fit_params)
+        else:
             # there is no real model update needed, just check if the data still complies with
             # the data used during the initial fit
-            self._validate_datafold_data(
+            X = self._validate_datafold_data(
                 X,
                 ensure_tsc=True,
                 tsc_kwargs=dict(ensure_delta_time=self.delta_time_fit_),
             )
-        except NotFittedError:
-            # fit the model
-            self.fit(X, y, **fit_params)
+            self._validate_feature_input(
+                self._columns_to_type_str(X), direction="transform"
+            )
 
         return self
 
@@ -1427,10 +1432,11 @@ class TSCPolynomialFeatures(PolynomialFeatures, TSCTransformerMixin):
         return self
 
     def partial_fit(self, X: TransformType, y=None, **fit_params):
-        if not hasattr(self, "feature_names_in_"):
+        if not hasattr(self, "n_features_in_"):
             # is fit already
             return self.fit(X, y=None, **fit_params)
         else:
+            self._validate_feature_input(X, direction="transform")
             return self
 
     def transform(self, X: TransformType) -> TransformType:
@@ -1716,9 +1722,10 @@ class TSCFiniteDifference(BaseEstimator, TSCTransformerMixin):
         return self
 
     def partial_fit(self, X: TransformType, y=None, **fit_params) -> TransformType:
-        if not hasattr(self, "feature_names_in_"):
+        if not hasattr(self, "n_features_in_"):
             return self.fit(X, y, **fit_params)
         else:
+            self._validate_feature_input(X, direction="transform")
             return self
 
     def transform(self, X: TransformType) -> TransformType:
-- 
2.43.0


From 5545deb633a78da4f9de8c77b41e63e8e01b7a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:03 +0000
Subject: [PATCH 86/89] fix: prediction with control input in an array failed
 for initial conditions with floating point time

---
 datafold/dynfold/base.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/datafold/dynfold/base.py b/datafold/dynfold/base.py
index 1f985fb..ea88c79 100644
--- a/datafold/dynfold/base.py
+++ b/datafold/dynfold/base.py
@@ -578,14 +578,8 @@ class TSCPredictMixin(TSCBase):
                         )
 
                 else:
-                    time_values = np.arange(
-                        reference,
-                        reference
-                        + _numerical_tol
-                        + (U.shape[0] + int(not req_last_control_state))  # type: ignore
-                        * dt,
-                        dt,
-                    )
+                    n_time_values = U.shape[0] + int(not req_last_control_state)  # type: ignore  # noqa
+                    time_values = reference + np.arange(n_time_values) * dt
             else:
                 time_values = np.array([reference, reference + dt])
         else:
-- 
2.43.0


From 24d63f6b44b2f55965be2b77e6b97f0506d346f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:03 +0000
Subject: [PATCH 87/89] fix: InitialCondition.from_array_control failed for
 some lengths because of noise in the time values

---
 datafold/pcfold/timeseries/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index 5f57183..eff3def 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -1830,7 +1830,7 @@ class InitialCondition:
             raise ValueError("")
 
         if time_values is None:
-            time_values = np.arange(0, U.shape[0] * dt, dt)
+            time_values = np.arange(U.shape[0]) * dt
 
         U = TSCDataFrame.from_array(
             U, time_values=time_values, feature_names=control_names, ts_id=ts_id
-- 
2.43.0


From 73da393943d963f6e8015db23089409a7baf7bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:42 +0000
Subject: [PATCH 88/89] fix: EDMD.transform of an array failed for some lengths
 because of noise in the time values

---
 datafold/appfold/edmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datafold/appfold/edmd.py b/datafold/appfold/edmd.py
index d83b5e2..5d1e47d 100644
--- a/datafold/appfold/edmd.py
+++ b/datafold/appfold/edmd.py
@@ -1461,7 +1461,7 @@ class EDMD(
             X = TSCDataFrame.from_array(
                 X,
                 feature_names=self.feature_names_in_,
-                time_values=np.arange(0, self.dt_ * X.shape[0], self.dt_),
+                time_values=np.arange(X.shape[0]) * self.dt_,
             )
 
         if self.include_id_state:
-- 
2.43.0


From 017ce7d0bcf4de85b1a093a1b763ef08b98aaa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:03 +0000
Subject: [PATCH 89/89] fix: ids were not sorted in parts of a collection,
 which mixed up time series in derivatives

---
 datafold/pcfold/timeseries/collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datafold/pcfold/timeseries/collection.py b/datafold/pcfold/timeseries/collection.py
index eff3def..9b3aac0 100644
--- a/datafold/pcfold/timeseries/collection.py
+++ b/datafold/pcfold/timeseries/collection.py
@@ -982,7 +982,8 @@ class TSCDataFrame(pd.DataFrame):
         """The time series IDs in the collection."""
         # update index by removing potentially unused levels
         self.index = self.index.remove_unused_levels()
-        return self.index.levels[0]
+        # the levels are not necessarily sorted (e.g. in the rest of a larger collection)
+        return self.index.levels[0].sort_values()
 
     @property
     def delta_time(self) -> Union[pd.Series, int, float, np.timedelta64]:
-- 
2.43.0

