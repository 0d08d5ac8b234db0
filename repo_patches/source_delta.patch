From b8a2e9b690685defaa02d6d700b81bf2478161ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 001/112] fix: transposing a transposed operator gives back the
 direct operator

---
 src/corrct/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/operators.py b/src/corrct/operators.py
index 9470ff2..0fa01f2 100755
--- a/src/corrct/operators.py
+++ b/src/corrct/operators.py
@@ -114,7 +114,7 @@ class BaseTransform(LinearOperator, ABC):
         """
         Op_t = cp.copy(self)
         Op_t.shape = [Op_t.shape[1], Op_t.shape[0]]
-        Op_t.is_dir_operator = False
+        Op_t.is_dir_operator = not self.is_dir_operator
         return Op_t
 
     def _adjoint(self) -> "BaseTransform":
-- 
2.43.0


From 18653d27267c4cb0ddd52ff9b6364865148f3df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 002/112] fix: the identity transforms return a new array,
 instead of an alias of their input

---
 src/corrct/operators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/corrct/operators.py b/src/corrct/operators.py
index 0fa01f2..a74dab1 100755
--- a/src/corrct/operators.py
+++ b/src/corrct/operators.py
@@ -378,10 +378,10 @@ class TransformIdentity(BaseTransform):
         super().__init__()
 
     def _op_direct(self, x: NDArray) -> NDArray:
-        return x
+        return x.copy()
 
     def _op_adjoint(self, x: NDArray) -> NDArray:
-        return x
+        return x.copy()
 
 
 class TransformDiagonalScaling(BaseTransform):
@@ -493,7 +493,7 @@ class TransformConvolution(BaseTransform):
             x = spsig.convolve(x, adj_kernel, mode="same")
             return self._crop_valid(x, pw)
         else:
-            return x
+            return x.copy()
 
 
 class BaseWaveletTransform(BaseTransform, ABC):
-- 
2.43.0


From ba6e2dd54d4d17cf7c841197c54fc50257605736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 003/112] fix: the absolute value of convolutions and scalings
 keeps padding, symmetry, and direction

---
 src/corrct/operators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/corrct/operators.py b/src/corrct/operators.py
index a74dab1..c33b64a 100755
--- a/src/corrct/operators.py
+++ b/src/corrct/operators.py
@@ -412,7 +412,9 @@ class TransformDiagonalScaling(BaseTransform):
         TransformDiagonalScaling
             The absolute value operator
         """
-        return TransformDiagonalScaling(self.dir_shape, np.abs(self.scale))
+        Op_a = cp.copy(self)
+        Op_a.scale = np.abs(self.scale)
+        return Op_a
 
     def _op_direct(self, x: NDArray) -> NDArray:
         return self.scale * x
@@ -468,7 +470,9 @@ class TransformConvolution(BaseTransform):
         TransformConvolution
             The absolute value of the convolution operator.
         """
-        return TransformConvolution(self.dir_shape, np.abs(self.kernel))
+        Op_a = cp.copy(self)
+        Op_a.kernel = np.abs(self.kernel)
+        return Op_a
 
     def _pad_valid(self, x: NDArray) -> tuple[NDArray, NDArray]:
         pad_width = (np.array(self.kernel.shape) - 1) // 2
-- 
2.43.0


From 4c6674e22e074519dbced0baababae9dc2289b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 004/112] fix: the divergence is the transpose of the gradient
 also for edge padding

---
 src/corrct/operators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/corrct/operators.py b/src/corrct/operators.py
index c33b64a..7941998 100755
--- a/src/corrct/operators.py
+++ b/src/corrct/operators.py
@@ -837,7 +837,11 @@ class TransformGradient(BaseTransform):
         for ii, ax in enumerate(self.axes):
             padding = np.zeros((self.ndims, 2), dtype=int)
             padding[ax, 0] = 1
-            temp_x = np.pad(x[ii, ...], padding, mode=self.pad_mode)  # type: ignore
+            if self.pad_mode in ("edge", "symmetric"):
+                # The last forward difference is always zero, so its transpose does not contribute
+                temp_x = np.pad(np.delete(x[ii, ...], -1, axis=ax), padding + padding[:, ::-1])
+            else:
+                temp_x = np.pad(x[ii, ...], padding, mode=self.pad_mode)  # type: ignore
             d[ii] = np.diff(temp_x, n=1, axis=ax)
         return np.sum(np.stack(d, axis=0), axis=0)
 
-- 
2.43.0


From b579ad8abd91de671d12abbecd367ef6cb351f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 005/112] fix: SART residuals stack the projections along the
 angles axis of the data

---
 src/corrct/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index ad902a1..3c8b359 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -501,7 +501,7 @@ class SART(Solver):
         NDArrayFloat
             The residual.
         """
-        fp = np.stack([A(x, ii) for ii in range(A_num_rows)], axis=-1)
+        fp = np.stack([A(x, ii) for ii in range(A_num_rows)], axis=-2)
         fp = np.ascontiguousarray(fp, dtype=b.dtype)
         res = fp - b
         if b_mask is not None:
-- 
2.43.0


From 54756fe2f416d75dfb5f765ca0c61cd146bcaa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 006/112] fix: MLEM does not use the masked data in the update

---
 src/corrct/solvers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index 3c8b359..1a095f3 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -794,7 +794,10 @@ class MLEM(Solver):
                 Ax = Ax + self.data_term.background
             Ax = Ax.clip(eps, None)
 
-            upd = A.T(b / Ax)
+            ratio = b / Ax
+            if b_mask is not None:
+                ratio *= b_mask
+            upd = A.T(ratio)
             x *= upd / tau
 
             if lower_limit is not None or upper_limit is not None:
-- 
2.43.0


From 621761982aebf13b951d192de2a5b4a17a4d4509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 007/112] fix: MLEM does not produce NaNs in the voxels that
 are not seen by the data

---
 src/corrct/solvers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index 1a095f3..4001205 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -735,6 +735,7 @@ class MLEM(Solver):
         if b_mask is not None:
             b_ones *= b_mask
         tau = A.T(b_ones)
+        tau[(tau / np.max(tau)) < 1e-5] = 1
 
         # Forward-projection diagonal re-scaling
         x_ones = np.ones_like(tau)
-- 
2.43.0


From 7a66f622a81afce3cda2fe63ec11a4c64ca4fc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 008/112] fix: MLEM accepts array backgrounds, and keeps its
 name without background

---
 src/corrct/solvers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index 4001205..f1507ee 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -683,7 +683,10 @@ class MLEM(Solver):
         str
             info string.
         """
-        return Solver.info(self) + f"(B:{self.data_term.background:g})" if self.data_term.background is not None else ""
+        bckgrnd = self.data_term.background
+        if bckgrnd is None:
+            return Solver.info(self)
+        return Solver.info(self) + (f"(B:{bckgrnd.item():g})" if bckgrnd.size == 1 else "(B:<array>)")
 
     def __call__(  # noqa: C901
         self,
-- 
2.43.0


From ab901a12b34162c6e242563713d7163cbb00ad0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 009/112] fix: restarting FISTA resets the momentum, instead of
 amplifying it

---
 src/corrct/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index f1507ee..7b46746 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -1494,7 +1494,7 @@ class FISTA(Solver):
 
             # Optional fixed-period restart: reset momentum sequence
             if self.restart_period is not None and (ii + 1) % self.restart_period == 0:
-                t_new = 1.0
+                t = t_new = 1.0
 
             momentum = (t - 1.0) / t_new
             y = x_new + momentum * (x_new - x)
-- 
2.43.0


From aada23133b64560e44088def8bb643ebc549bb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 010/112] fix: cross-validation uses the residual of the last
 performed iteration

---
 src/corrct/param_tuning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/param_tuning.py b/src/corrct/param_tuning.py
index 8768981..ea1469d 100644
--- a/src/corrct/param_tuning.py
+++ b/src/corrct/param_tuning.py
@@ -1230,7 +1230,7 @@ class CrossValidation(BaseParameterTuning):
             recs_ii, recs_info_ii, perf_batch_ii = self.process_hp_vals(
                 hp_vals, init_fun_kwds=init_fun_kwds, exec_fun_kwds=exec_fun_kwds
             )
-            f_vals[ii_avg] = np.array([info.residuals_cv_rel[-1] for info in recs_info_ii])
+            f_vals[ii_avg] = np.array([info.residuals_cv_rel[info.iterations - 1] for info in recs_info_ii])
 
             if return_all:
                 results.append((recs_ii, recs_info_ii, perf_batch_ii))
-- 
2.43.0


From c9a4e6e064a239f3b988ec31101a2c78871a1eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 011/112] fix: k-fold masks have the data type requested for
 the cross-validation

---
 src/corrct/param_tuning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/param_tuning.py b/src/corrct/param_tuning.py
index ea1469d..9b74072 100644
--- a/src/corrct/param_tuning.py
+++ b/src/corrct/param_tuning.py
@@ -1127,7 +1127,7 @@ class CrossValidation(BaseParameterTuning):
                 create_random_test_mask(self.data_shape, self.cv_fraction, self.dtype) for _ in range(self.num_averages)
             ]
         else:
-            self.data_cv_masks = create_k_fold_test_masks(self.data_shape, self.num_averages)
+            self.data_cv_masks = create_k_fold_test_masks(self.data_shape, self.num_averages, self.dtype)
 
     @overload
     def compute_loss_values(
-- 
2.43.0


From a8b90406ac0755dd316645b64db7d8f661512a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 012/112] fix: integer data do not truncate the background of
 the data terms

---
 src/corrct/data_terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index 9e5eb06..10e6e91 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -130,7 +130,7 @@ class DataFidelityBase(ABC):
         self.data = np.array(data) if data is not None else None
         self.sigma = sigma
         self.sigma_data = self._compute_sigma_data()
-        if self.background is not None and self.data is not None:
+        if self.background is not None and self.data is not None and np.issubdtype(self.data.dtype, np.floating):
             self.background = self.background.astype(self.data.dtype)
 
     def compute_residual(self, proj_primal: NDArrayFloat, mask: NDArrayFloat | None = None) -> NDArrayFloat:
-- 
2.43.0


From 13674abc9128945b3d9f06e30011f04a232c37c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 013/112] fix: Huber residual norms separate the l2 and l1
 points by their absolute value

---
 src/corrct/data_terms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index 10e6e91..b399a4a 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -484,8 +484,9 @@ class DataFidelity_Huber(DataFidelityBase):
         super().assign_data(data=data, sigma=sigma)
 
     def compute_residual_norm(self, dual: NDArrayFloat) -> float:
+        dual = np.abs(dual)
         l2_points = dual <= self.local_error
-        l1_points = 1 - l2_points
+        l1_points = np.logical_not(l2_points)
         return float(np.linalg.norm(dual[l2_points].flatten(), ord=2) ** 2 + np.linalg.norm(dual[l1_points].flatten(), ord=1))
 
     def apply_proximal_dual(self, dual: NDArrayFloat) -> None:
-- 
2.43.0


From e3f49d08ab9d93e429e62d0051c6c9ef39c5ef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 014/112] fix: l1-type proximals with zero weights do not
 produce NaNs

---
 src/corrct/data_terms.py   | 4 ++--
 src/corrct/regularizers.py | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index b399a4a..98a5301 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -551,8 +551,8 @@ class DataFidelity_l1(DataFidelityBase):
         if self.data is not None and self.sigma_data is not None:
             dual -= self.sigma_data
         self._apply_threshold(dual)
-        dual_inner_norm = self._get_inner_norm(dual)
-        dual /= np.fmax(dual_inner_norm, weight)
+        dual_inner_norm = np.fmax(self._get_inner_norm(dual), weight)
+        dual /= dual_inner_norm + (dual_inner_norm == 0)
         dual *= weight
 
     def apply_proximal_primal(self, primal: NDArrayFloat, tau: float | NDArrayFloat) -> None:
diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index f7dfd54..7fb7a83 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -1428,7 +1428,8 @@ class Regularizer_VTV(Regularizer_Grad):
         else:
             self._raise_pwise_norm_error()
 
-        dual_tmp /= np.fmax(dual_norm, self.weight)
+        dual_norm = np.fmax(dual_norm, self.weight)
+        dual_tmp /= dual_norm + (dual_norm == 0)
         dual_tmp *= self.weight
 
         if self.q_ref is not None:
@@ -1574,7 +1575,8 @@ class Regularizer_vl1wl(Regularizer_l1swl):
         else:
             self._raise_pwise_norm_error()
 
-        dual_tmp /= np.fmax(dual_norm, self.weight)
+        dual_norm = np.fmax(dual_norm, self.weight)
+        dual_tmp /= dual_norm + (dual_norm == 0)
         dual_tmp *= self.weight
 
         if self.q_ref is not None:
-- 
2.43.0


From 059795ec3f5922ff90cd42cbb3d548bd623df79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 015/112] fix: the limit constraints do not subtract the limit
 twice

---
 src/corrct/regularizers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 7fb7a83..c2e600a 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -1679,7 +1679,7 @@ class Constraint_LowerLimit(BaseRegularizer):
 
         self.op = operators.TransformIdentity(primal.shape)
 
-        self.norm.assign_data(self.limit, sigma=1)
+        self.norm.assign_data(None, sigma=1)
 
         if not isinstance(self.norm, dt.DataFidelity_l1):
             tau = self.weight
@@ -1746,7 +1746,7 @@ class Constraint_UpperLimit(BaseRegularizer):
 
         self.op = operators.TransformIdentity(primal.shape)
 
-        self.norm.assign_data(self.limit, sigma=1)
+        self.norm.assign_data(None, sigma=1)
 
         if not isinstance(self.norm, dt.DataFidelity_l1):
             tau = self.weight
-- 
2.43.0


From 55d43f6c28767e8ad1e81d91b3313cf82d4efe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 016/112] fix: the dual proximal of the l1-ball scales the
 threshold with the dual step

---
 src/corrct/data_terms.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index 98a5301..3a6c1ad 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -547,10 +547,13 @@ class DataFidelity_l1(DataFidelityBase):
     def _apply_threshold(self, dual: NDArrayFloat):
         pass
 
+    def _apply_threshold_dual(self, dual: NDArrayFloat):
+        pass
+
     def apply_proximal_dual(self, dual: NDArrayFloat, weight: float | NDArrayFloat = 1.0):
         if self.data is not None and self.sigma_data is not None:
             dual -= self.sigma_data
-        self._apply_threshold(dual)
+        self._apply_threshold_dual(dual)
         dual_inner_norm = np.fmax(self._get_inner_norm(dual), weight)
         dual /= dual_inner_norm + (dual_inner_norm == 0)
         dual *= weight
@@ -645,6 +648,9 @@ class DataFidelity_l1b(DataFidelity_l1):
     def _apply_threshold(self, dual: NDArrayFloat) -> None:
         _soft_threshold(dual, self.local_error)
 
+    def _apply_threshold_dual(self, dual: NDArrayFloat) -> None:
+        _soft_threshold(dual, self.sigma_error)
+
     def apply_proximal_primal(self, primal: NDArrayFloat, tau: float | NDArrayFloat) -> None:
         """Apply prox_{tau * f_{l1b}} in-place.
 
-- 
2.43.0


From a4a25e0b814272766212ec69cd90302edcf0d3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 017/112] fix: the primal proximals of the l1- and l2-balls
 satisfy Moreau's identity with the dual ones

---
 src/corrct/data_terms.py | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index 3a6c1ad..c3ed9c4 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -432,13 +432,11 @@ class DataFidelity_l2b(DataFidelity_l2):
         """Apply prox_{tau * f_{l2b}} in-place.
 
         The l2-ball data fidelity is:
-            f(x) = max(||x - b|| - sqrt(epsilon), 0)^2 / 2
+            f(x) = max(||x - b|| - sqrt(epsilon), 0)^2 / (2 * epsilon)
 
-        whose proximal is a soft-thresholded then scaled l2 proximal.
-        Specifically:
+        whose proximal follows from Moreau's identity, applied to `apply_proximal_dual`:
             v = x - b
-            soft-threshold v by sqrt(epsilon) * tau / (1 + tau * epsilon)
-            prox(x) = b + v_thresholded / (1 + tau * epsilon)
+            prox(x) = x - soft-threshold(v, sqrt(epsilon)) * tau / (tau + epsilon)
 
         Parameters
         ----------
@@ -447,13 +445,9 @@ class DataFidelity_l2b(DataFidelity_l2):
         tau : float | NDArrayFloat
             The proximal step size.
         """
-        if self.data is not None:
-            primal -= self.data
-        tau_eps = tau * self.local_error
-        _soft_threshold(primal, np.sqrt(self.local_error) * tau / (1.0 + tau_eps))
-        primal /= 1.0 + tau_eps
-        if self.data is not None:
-            primal += self.data
+        excess = primal - self.data if self.data is not None else primal.copy()
+        _soft_threshold(excess, np.sqrt(self.local_error))
+        primal -= excess * tau / (tau + self.local_error)
 
     def compute_primal_dual_gap(
         self, proj_primal: NDArrayFloat, dual: NDArrayFloat, mask: NDArrayFloat | None = None
@@ -657,13 +651,11 @@ class DataFidelity_l1b(DataFidelity_l1):
         The l1-ball data fidelity is:
             f(x) = max(||x - b||_1 - epsilon, 0)
 
-        Its proximal is a two-stage soft-threshold:
+        Its proximal moves the elements outside of the ball towards it, by at most tau:
             v = x - b
-            soft-threshold v by (tau / (1 + tau)) elementwise, with level epsilon
-            prox(x) = b + v_thresholded
+            prox(x) = x - sign(v) * min(max(|v| - epsilon, 0), tau)
 
-        This is obtained via Moreau's identity applied to the indicator of the
-        l1-ball of radius epsilon.
+        This is obtained via Moreau's identity applied to `apply_proximal_dual`.
 
         Parameters
         ----------
@@ -672,13 +664,9 @@ class DataFidelity_l1b(DataFidelity_l1):
         tau : float | NDArrayFloat
             The proximal step size.
         """
-        if self.data is not None:
-            primal -= self.data
-        # Two-level soft threshold: first remove the ball radius, then scale
-        _soft_threshold(primal, self.local_error)
-        primal *= tau / (1.0 + tau)
-        if self.data is not None:
-            primal += self.data
+        excess = primal - self.data if self.data is not None else primal.copy()
+        _soft_threshold(excess, self.local_error)
+        primal -= np.clip(excess, -tau, tau)
 
 
 class DataFidelity_KL(DataFidelityBase):
-- 
2.43.0


From 1bd1582c0733aafc7ce8ce577ec5311e89dc80c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 018/112] fix: solvers compare array backgrounds of the
 training and test data terms

---
 src/corrct/solvers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index 7b46746..8cc4501 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -763,7 +763,7 @@ class MLEM(Solver):
             Ax = A(x)
 
             if b_test_mask is not None:
-                if self.data_term_test.background != self.data_term.background:
+                if not np.array_equal(self.data_term_test.background, self.data_term.background):
                     print("WARNING - the data_term and and data_term_test should have the same background. Making them equal.")
                     self.data_term_test.background = self.data_term.background
                 self.data_term_test.assign_data(b)
@@ -944,7 +944,7 @@ class SIRT(Solver):
             info.residual0 = self.data_term.compute_residual_norm(res_0)
 
             if b_test_mask is not None:
-                if self.data_term_test.background != self.data_term.background:
+                if not np.array_equal(self.data_term_test.background, self.data_term.background):
                     print("WARNING - the data_term and and data_term_test should have the same background. Making them equal.")
                     self.data_term_test.background = self.data_term.background
                 self.data_term_test.assign_data(b, sigma)
@@ -1158,7 +1158,7 @@ class PDHG(Solver):
             info.residual0 = self.data_term.compute_residual_norm(res_0)
 
             if b_test_mask is not None:
-                if self.data_term_test.background != self.data_term.background:
+                if not np.array_equal(self.data_term_test.background, self.data_term.background):
                     print("WARNING - the data_term and and data_term_test should have the same background. Making them equal.")
                     self.data_term_test.background = self.data_term.background
                 self.data_term_test.assign_data(b, sigma)
@@ -1438,7 +1438,7 @@ class FISTA(Solver):
         # gradient step here; the gradient is computed analytically from compute_residual).
         self.data_term.assign_data(b)
         if b_test_mask is not None:
-            if self.data_term_test.background != self.data_term.background:
+            if not np.array_equal(self.data_term_test.background, self.data_term.background):
                 print("WARNING - the data_term and data_term_test should have the same background. Making them equal.")
                 self.data_term_test.background = self.data_term.background
             self.data_term_test.assign_data(b)
-- 
2.43.0


From a0ac8e4ee0647ab0127a5f0ccce6872c94b14cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 019/112] fix: the info of the limit constraints supports array
 limits

---
 src/corrct/regularizers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index c2e600a..df01451 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -1663,7 +1663,8 @@ class Constraint_LowerLimit(BaseRegularizer):
         str
             Regularizer info string.
         """
-        return self.__reg_name__ + "(l:%g" % self.limit + ")"
+        limit_str = "<array>" if np.array(self.limit).size > 1 else ("%g" % self.limit)
+        return self.__reg_name__ + "(l:" + limit_str + ")"
 
     def __init__(
         self,
@@ -1730,7 +1731,8 @@ class Constraint_UpperLimit(BaseRegularizer):
         str
             Regularizer info string.
         """
-        return self.__reg_name__ + "(l:%g" % self.limit + ")"
+        limit_str = "<array>" if np.array(self.limit).size > 1 else ("%g" % self.limit)
+        return self.__reg_name__ + "(l:" + limit_str + ")"
 
     def __init__(
         self,
-- 
2.43.0


From 18bc03178d6cc4f65ec9e876d99811db7cc2cbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 020/112] fix: the l1 residual norm is the vector norm also for
 multi-dimensional data

---
 src/corrct/data_terms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index c3ed9c4..422e450 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -579,7 +579,7 @@ class DataFidelity_l1(DataFidelityBase):
         dual = dual.copy()
         self._apply_threshold(dual)
         dual_inner_norm = self._get_inner_norm(dual)
-        return float(np.linalg.norm(dual_inner_norm, ord=1))
+        return float(np.linalg.norm(dual_inner_norm.flatten(), ord=1))
 
     def compute_primal_dual_gap(
         self, proj_primal: NDArrayFloat, dual: NDArrayFloat, mask: NDArrayFloat | None = None
@@ -590,7 +590,7 @@ class DataFidelity_l1(DataFidelityBase):
         residual = self.compute_residual(proj_primal, mask)
         self._apply_threshold(residual)
         residual_inner_norm = self._get_inner_norm(residual)
-        return float(np.linalg.norm(residual_inner_norm, ord=1) + self.compute_data_dual_dot(dual))
+        return float(np.linalg.norm(residual_inner_norm.flatten(), ord=1) + self.compute_data_dual_dot(dual))
 
 
 class DataFidelity_l12(DataFidelity_l1):
-- 
2.43.0


From beee0304d744234c6f003e5b172138c7771f5284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 021/112] fix: the nuclear residual norm sums the singular
 values of all the matrices

---
 src/corrct/data_terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/data_terms.py b/src/corrct/data_terms.py
index 422e450..c290c26 100644
--- a/src/corrct/data_terms.py
+++ b/src/corrct/data_terms.py
@@ -826,7 +826,7 @@ class DataFidelity_ln(DataFidelityBase):
     def compute_residual_norm(self, dual: NDArrayFloat) -> float:
         op_svd = operators.TransformSVD(dual.shape, axes_rows=self.ln_axes[0], axes_cols=self.ln_axes[1])
         s_p = op_svd(dual)
-        return float(np.linalg.norm(s_p, ord=1))
+        return float(np.linalg.norm(s_p.flatten(), ord=1))
 
     def compute_primal_dual_gap(self, proj_primal: NDArrayFloat, dual: NDArrayFloat, mask: NDArrayFloat | None = None):
         if self.background is not None:
-- 
2.43.0


From b471630452fcecd8a4fcaef3e50d9b16bc32aea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 022/112] fix: the primal proximal of the normalized stationary
 wavelet regularizers uses the wavelet coefficients lists

---
 src/corrct/regularizers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index df01451..8dc856e 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -744,7 +744,8 @@ class Regularizer_swl(BaseRegularizer):
             )
 
         # Forward stationary wavelet transform -> list of dicts (pywt swtn format)
-        coeffs_list = self.op(primal)
+        op_wl: operators.TransformStationaryWavelet = self.op  # type: ignore
+        coeffs_list = op_wl.direct_swt(primal)
         # coeffs_list[0] is the approximation array; coeffs_list[1..level] are
         # dicts of detail sub-bands keyed by orientation label.
 
@@ -765,7 +766,7 @@ class Regularizer_swl(BaseRegularizer):
             coeffs_list[0] = approx
 
         # Inverse stationary wavelet transform back to primal domain
-        primal[:] = self.op.T(coeffs_list)
+        primal[:] = op_wl.inverse_swt(coeffs_list)
 
 
 class Regularizer_l1swl(Regularizer_swl):
-- 
2.43.0


From 40640668c9b1a1eceebd9f165ffd2571faf7610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 023/112] fix: accept the default padding mode in the decimated
 wavelet transform

---
 src/corrct/operators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/corrct/operators.py b/src/corrct/operators.py
index 7941998..3271094 100755
--- a/src/corrct/operators.py
+++ b/src/corrct/operators.py
@@ -569,7 +569,8 @@ class TransformDecimatedWavelet(BaseWaveletTransform):
             axes = np.arange(-len(x_shape), 0, dtype=int)
         self.axes = np.array(axes, ndmin=1, dtype=int)
 
-        self.pad_on_demand = pad_on_demand
+        # The replication of the edge values is called "constant" in pywavelets
+        self.pad_on_demand = "constant" if pad_on_demand == "edge" else pad_on_demand
 
         self._initialize_filter_bank()
 
-- 
2.43.0


From f1c2f574e78657877c5cedd7cf612657545a7b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:58 +0000
Subject: [PATCH 024/112] fix: projection intensities are accepted by the
 projectors

---
 src/corrct/projectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/projectors.py b/src/corrct/projectors.py
index efeda17..fcf86e5 100755
--- a/src/corrct/projectors.py
+++ b/src/corrct/projectors.py
@@ -197,7 +197,7 @@ class ProjectorUncorrected(operators.ProjectorOperator):
         )
 
         if prj_intensities is not None:
-            prj_intensities = np.array(prj_intensities, dtype=np.floating)
+            prj_intensities = np.array(prj_intensities, dtype=float)
         self.prj_intensities = prj_intensities
 
         self._set_psf(psf)
-- 
2.43.0


From 392058aad27431cd425910c6e73065006fa90ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:21 +0000
Subject: [PATCH 025/112] fix: the attenuation of the last voxels of a line
 does not leak to the beginning of the line

---
 src/corrct/_projector_backends.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/_projector_backends.py b/src/corrct/_projector_backends.py
index 78aa7d1..e631537 100644
--- a/src/corrct/_projector_backends.py
+++ b/src/corrct/_projector_backends.py
@@ -67,7 +67,7 @@ def compute_attenuation(vol: NDArray, angle_rad: float, invert: bool = False) ->
     def compute_cumsum(vol: NDArray, rot_angle_deg: float):
         vol = skt.rotate(vol, -rot_angle_deg, order=1, clip=False)
 
-        vol += np.roll(vol, 1, axis=-2)
+        vol[..., 1:, :] += vol[..., :-1, :].copy()
         vol = np.cumsum(vol / 2, axis=-2)
 
         return skt.rotate(vol, rot_angle_deg, order=1, clip=False)
-- 
2.43.0


From ededec10912a271d7eb69c9df7c9e0a37b0fa05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:21 +0000
Subject: [PATCH 026/112] fix: integer volumes and projections are not rescaled
 by the scikit-image backend

---
 src/corrct/_projector_backends.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/corrct/_projector_backends.py b/src/corrct/_projector_backends.py
index e631537..e8dc783 100644
--- a/src/corrct/_projector_backends.py
+++ b/src/corrct/_projector_backends.py
@@ -309,6 +309,11 @@ class ProjectorBackendSKimage(ProjectorBackend):
     def _set_bpj_size(output_size):
         return dict(circle=False, output_size=output_size)
 
+    @staticmethod
+    def _as_floating(data: NDArray) -> NDArray:
+        # scikit-image would otherwise rescale integer data as if they were pictures
+        return data if np.issubdtype(data.dtype, np.floating) else data.astype(np.float32)
+
     def fp(self, vol: NDArray, angle_ind: int | None = None) -> NDArray:
         """Forward-projection of the volume to the sinogram or a single sinogram line.
 
@@ -324,6 +329,7 @@ class ProjectorBackendSKimage(ProjectorBackend):
         NDArray
             The forward-projected sinogram or sinogram line.
         """
+        vol = self._as_floating(vol)
         if angle_ind is None:
             prj = np.empty(self.prj_shape_vwu, dtype=vol.dtype)
             for ii_a, a in enumerate(self.angles_w_deg):
@@ -347,6 +353,7 @@ class ProjectorBackendSKimage(ProjectorBackend):
         NDArray
             The back-projected volume.
         """
+        prj = self._as_floating(prj)
         filter_name = self._set_filter_name(None)
         bpj_size = self._set_bpj_size(self.vol_shape_zxy[-1])
         if angle_ind is None:
-- 
2.43.0


From e5c438d88adfcb58ab7767d218fb60f2383391bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:21 +0000
Subject: [PATCH 027/112] fix: the attenuated projection of a single angle
 keeps its angle axis

---
 src/corrct/projectors.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/corrct/projectors.py b/src/corrct/projectors.py
index fcf86e5..0d9ca7a 100755
--- a/src/corrct/projectors.py
+++ b/src/corrct/projectors.py
@@ -588,12 +588,7 @@ class ProjectorAttenuationXRF(ProjectorUncorrected):
         else:
             sino_lines = [self.fp_angle(vol, ii) for ii in range(len(self.angles_rot_rad))]
 
-        sino_lines = np.ascontiguousarray(np.stack(sino_lines, axis=-2))
-
-        if sino_lines.shape[0] == 1:
-            sino_lines = np.squeeze(sino_lines, axis=0)
-
-        return sino_lines
+        return np.ascontiguousarray(np.stack(sino_lines, axis=-2))
 
     def bp(self, sino: NDArray) -> NDArray:
         """Back-projection of the sinogram to the volume.
-- 
2.43.0


From 44ece1b4fb14e9ed9542801edf06cd707e5d5e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:21 +0000
Subject: [PATCH 028/112] fix: attenuated projectors can be used outside of a
 with statement

---
 src/corrct/projectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/projectors.py b/src/corrct/projectors.py
index 0d9ca7a..31f721a 100755
--- a/src/corrct/projectors.py
+++ b/src/corrct/projectors.py
@@ -582,7 +582,7 @@ class ProjectorAttenuationXRF(ProjectorUncorrected):
         NDArray
             The forward-projected sinogram.
         """
-        if self.use_multithreading and isinstance(self.projector_backend, prj_backends.ProjectorBackendSKimage):
+        if self.executor is not None:
             sino_lines = self.executor.map(lambda x: self.fp_angle(vol, x), range(len(self.angles_rot_rad)))
             sino_lines = [*sino_lines]
         else:
@@ -604,7 +604,7 @@ class ProjectorAttenuationXRF(ProjectorUncorrected):
             The back-projected volume.
         """
         if self.is_symmetric:
-            if self.use_multithreading and isinstance(self.projector_backend, prj_backends.ProjectorBackendSKimage):
+            if self.executor is not None:
                 vols = self.executor.map(lambda x: self.bp_angle(sino, x), range(len(self.angles_rot_rad)))
                 vols = [*vols]
             else:
-- 
2.43.0


From bf4c2b2cbc3d527ae761f8ac157ad3c571df6a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:21 +0000
Subject: [PATCH 029/112] fix: collapsing the detectors keeps the detector axis
 of the attenuation maps

---
 src/corrct/projectors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/corrct/projectors.py b/src/corrct/projectors.py
index 31f721a..6b1b046 100755
--- a/src/corrct/projectors.py
+++ b/src/corrct/projectors.py
@@ -491,10 +491,10 @@ class ProjectorAttenuationXRF(ProjectorUncorrected):
 
     def collapse_detectors(self) -> None:
         """Convert multi-detector configurations into single-detector."""
-        weights = np.reshape(self.weights_det, [1, -1, 1, 1]) / np.sum(self.weights_det)
-        self.att_vol_angles = np.sum(self.att_vol_angles * weights, axis=1)
+        weights = self.weights_det / np.sum(self.weights_det)
+        weights_maps = np.reshape(weights, [-1, *([1] * len(self.vol_shape))])
+        self.att_vol_angles = np.sum(self.att_vol_angles * weights_maps, axis=1, keepdims=True)
 
-        weights = np.squeeze(weights)
         self.angles_det_rad = np.sum(self.angles_det_rad * weights, keepdims=True)
         self.weights_angles = np.sum(self.weights_angles * weights, axis=1, keepdims=True)
         self.weights_det = np.sum(self.weights_det, keepdims=True)
-- 
2.43.0


From ae0e2b8afb31280dfbc34db34436a5acf0d20986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:42 +0000
Subject: [PATCH 030/112] fix: the full back-projection of attenuated
 projectors applies the detector and angle weights like the per-angle one

---
 src/corrct/projectors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/corrct/projectors.py b/src/corrct/projectors.py
index 6b1b046..98fd614 100755
--- a/src/corrct/projectors.py
+++ b/src/corrct/projectors.py
@@ -613,5 +613,8 @@ class ProjectorAttenuationXRF(ProjectorUncorrected):
             return np.sum(vols, axis=0)
         else:
             sino = np.reshape(sino, [len(self.weights_det), *self.prj_shape])
-            vol = [ProjectorUncorrected.bp(self, sino[ii, ...]) for ii in range(len(self.angles_det_rad))]
+            weights = self.weights_det * self.weights_angles
+            vol = [
+                ProjectorUncorrected.bp(self, sino[ii, ...] * weights[:, ii, None]) for ii in range(len(self.angles_det_rad))
+            ]
             return np.sum(np.stack(vol, axis=0), axis=0)
-- 
2.43.0


From 63a8ef7ae309d1c4a334d17821b82d12b4e2e760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:42 +0000
Subject: [PATCH 031/112] fix: attenuation volumes accept detector angles of
 any numeric type

---
 src/corrct/physics/attenuation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/corrct/physics/attenuation.py b/src/corrct/physics/attenuation.py
index ecc747f..bbb15b7 100644
--- a/src/corrct/physics/attenuation.py
+++ b/src/corrct/physics/attenuation.py
@@ -64,13 +64,13 @@ class AttenuationVolume:
         self.emitted_local = emitted_local
         self.angles_rot_rad = np.array(angles_rot_rad, ndmin=1)
         self.detectors = []
-        if isinstance(angles_det_rad, (int, float, DetectorXRF)):
+        if isinstance(angles_det_rad, (int, float, np.number, DetectorXRF)):
             angles_det_rad = [angles_det_rad]
         for a in angles_det_rad:
             if isinstance(a, DetectorXRF):
                 self.detectors.append(a)
-            elif isinstance(a, float):
-                self.detectors.append(DetectorXRF(surface_mm2=0, distance_mm=1, angle_rad=a))
+            elif isinstance(a, (int, float, np.number)):
+                self.detectors.append(DetectorXRF(surface_mm2=0, distance_mm=1, angle_rad=float(a)))
             else:
                 raise ValueError(
                     f"Input parameter {angles_det_rad = } should be one of: float | NDArray | Sequence[float | DetectorXRF]"
-- 
2.43.0


From 88719f2defa0860537845a786e06bfce6ba65301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:42 +0000
Subject: [PATCH 032/112] fix: attenuation maps and detector angles can be
 selected with negative indices, slices, and sequences

---
 src/corrct/physics/attenuation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/corrct/physics/attenuation.py b/src/corrct/physics/attenuation.py
index bbb15b7..a5b0db4 100644
--- a/src/corrct/physics/attenuation.py
+++ b/src/corrct/physics/attenuation.py
@@ -279,13 +279,13 @@ class AttenuationVolume:
         maps = self.maps
 
         if rot_ind is not None:
-            if isinstance(rot_ind, int):
-                rot_ind = slice(rot_ind, rot_ind + 1, 1)
+            if isinstance(rot_ind, (int, np.integer)):
+                rot_ind = [rot_ind]
             maps = maps[rot_ind, ...]
 
         if det_ind is not None:
-            if isinstance(det_ind, int):
-                det_ind = slice(det_ind, det_ind + 1, 1)
+            if isinstance(det_ind, (int, np.integer)):
+                det_ind = [det_ind]
             maps = maps[:, det_ind, ...]
 
         if roi is not None:
@@ -325,7 +325,7 @@ class AttenuationVolume:
         if det_ind is None:
             det_angles = self._get_detector_angles()
         else:
-            det_angles = self.detectors[det_ind].angle_rad
+            det_angles = self._get_detector_angles()[list(det_ind) if isinstance(det_ind, Sequence) else det_ind]
         return dict(
             att_maps=self.get_maps(roi=roi, rot_ind=rot_ind, det_ind=det_ind, binning=binning), angles_detectors_rad=det_angles
         )
-- 
2.43.0


From a8083e93f42ba779e8d34cc765a26bb12d48bebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:45 +0000
Subject: [PATCH 033/112] fix: detector shifts and distances can be set on
 geometries with several angles

---
 src/corrct/models.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/corrct/models.py b/src/corrct/models.py
index 377cca1..2cf4e1d 100644
--- a/src/corrct/models.py
+++ b/src/corrct/models.py
@@ -207,12 +207,11 @@ class ProjectionGeometry(Geometry):
                 f"angles ({det_pos_vu.shape[-1]}) differ!"
             )
 
-        self.det_pos_xyz = np.zeros((det_pos_vu.shape[-1], 3), dtype=np.float64)
-        self.det_pos_xyz += self.det_u_xyz * det_pos_vu[-1, :].reshape([-1, 1])
+        det_pos_xyz = self.det_u_xyz * det_pos_vu[-1, :].reshape([-1, 1])
         if self.ndim == 3 and det_pos_vu.shape[0] == 2:
-            self.det_pos_xyz += self.det_v_xyz * det_pos_vu[-2, :].reshape([-1, 1])
+            det_pos_xyz = det_pos_xyz + self.det_v_xyz * det_pos_vu[-2, :].reshape([-1, 1])
 
-        self.det_pos_xyz[:, 1] += det_dist_y
+        self.det_pos_xyz = det_pos_xyz + det_dist_y.reshape([-1, 1]) * np.array([0.0, 1.0, 0.0])
 
     def set_source_shifts_vu(self, src_pos_vu: ArrayLike | NDArray | None = None) -> None:
         """
-- 
2.43.0


From 09898dd37ce6421b5701d5b0a96d29be75afb39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:45 +0000
Subject: [PATCH 034/112] fix: a single source shift can be set on geometries
 with several angles

---
 src/corrct/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/models.py b/src/corrct/models.py
index 2cf4e1d..598c10a 100644
--- a/src/corrct/models.py
+++ b/src/corrct/models.py
@@ -232,7 +232,7 @@ class ProjectionGeometry(Geometry):
                 f"Current number of angles ({self.src_pos_xyz.shape[-2]}) and new number of angles ({src_pos_vu.shape[-1]}) differ!"
             )
         src_pos_y = self.src_pos_xyz[:, 1].copy()
-        self.src_pos_xyz = np.zeros((src_pos_vu.shape[-1], 3))
+        self.src_pos_xyz = np.zeros((max(src_pos_vu.shape[-1], len(src_pos_y)), 3))
         self.src_pos_xyz[:, 0] = src_pos_vu[-1, :]
         self.src_pos_xyz[:, 1] = src_pos_y
         if self.ndim == 3 and src_pos_vu.shape[0] == 2:
-- 
2.43.0


From a579af98a3228428c07e1cf357926bb88e2d1b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:45 +0000
Subject: [PATCH 035/112] fix: no detector tilt is silently ignored when the
 numbers of angles and axes differ

---
 src/corrct/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/models.py b/src/corrct/models.py
index 598c10a..145ceab 100644
--- a/src/corrct/models.py
+++ b/src/corrct/models.py
@@ -273,13 +273,13 @@ class ProjectionGeometry(Geometry):
             raise ValueError(
                 f"Tilt axis/axes should be three-dimensional, along the last dimension. Current shape: {tilt_axis.shape}"
             )
-        elif angles.size > 1 and tilt_axis.shape[0] != angles.shape[0]:
+        if angles.size > 1 and tilt_axis.shape[0] != angles.shape[0]:
             raise ValueError(
                 "Tilt axes and tilt angles multiplicity should match. "
                 f"Current shapes: {tilt_axis.shape = }, {angles.shape = }"
             )
 
-        for angle, axis in zip(angles, tilt_axis):
+        for angle, axis in zip(np.broadcast_to(angles, (len(tilt_axis), 1)), tilt_axis):
             rotations = spt.Rotation.from_rotvec(angle * axis)  # type: ignore
 
             if tilt_source:
-- 
2.43.0


From 63a3a6027c381ba29b0842dbdd3719651b67d864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:45 +0000
Subject: [PATCH 036/112] fix: rotation axis shifts can be given as arrays of
 one element

---
 src/corrct/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/models.py b/src/corrct/models.py
index 145ceab..692176d 100644
--- a/src/corrct/models.py
+++ b/src/corrct/models.py
@@ -650,7 +650,7 @@ def get_prj_geom_parallel(
     if rot_axis_shift_pix is not None:
         rot_axis_shift_pix = np.array(rot_axis_shift_pix)
         if rot_axis_shift_pix.size == 1:
-            prj_geom.set_detector_shifts_vu(cor_pos_u=float(rot_axis_shift_pix))
+            prj_geom.set_detector_shifts_vu(cor_pos_u=rot_axis_shift_pix.item())
         else:
             prj_geom.set_detector_shifts_vu(det_pos_vu=rot_axis_shift_pix)
 
@@ -711,7 +711,7 @@ def get_prj_geom_cone(
     if rot_axis_shift_pix is not None:
         rot_axis_shift_pix = np.array(rot_axis_shift_pix)
         if rot_axis_shift_pix.size == 1:
-            prj_geom.set_detector_shifts_vu(cor_pos_u=float(rot_axis_shift_pix))
+            prj_geom.set_detector_shifts_vu(cor_pos_u=rot_axis_shift_pix.item())
         else:
             prj_geom.set_detector_shifts_vu(det_pos_vu=rot_axis_shift_pix)
 
-- 
2.43.0


From 382e83bbef20428a9a65efb4347400be13462465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:45 +0000
Subject: [PATCH 037/112] fix: the cone-beam pre-weights use the distances from
 the source to the centers of the pixels

---
 src/corrct/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/models.py b/src/corrct/models.py
index 692176d..7c1be65 100644
--- a/src/corrct/models.py
+++ b/src/corrct/models.py
@@ -399,9 +399,9 @@ class ProjectionGeometry(Geometry):
             if self.det_shape_vu is not None and np.any(det_shape_vu != self.det_shape_vu):
                 print("WARNING: overriding the detector shape in the computation of the pre-weights.")
 
-            src2det_xyz = self.det_pos_xyz + self.src_pos_xyz
+            src2det_xyz = self.det_pos_xyz - self.src_pos_xyz
 
-            pixel_coords_vu = [np.linspace(-s / 2, s / 2, int(s)) for s in det_shape_vu]
+            pixel_coords_vu = [np.arange(s) - (s - 1) / 2 for s in det_shape_vu]
             pixel_coords_vu = np.meshgrid(*pixel_coords_vu, indexing="ij")
             pixel_coords_vu = [coords[..., None, None] for coords in pixel_coords_vu]
 
-- 
2.43.0


From e91f5018d652ad1f7928c58c95ba5da83cd0cbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 038/112] fix: the shifts of a single projection can be
 combined

---
 src/corrct/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/models.py b/src/corrct/models.py
index 7c1be65..e0212f8 100644
--- a/src/corrct/models.py
+++ b/src/corrct/models.py
@@ -571,7 +571,7 @@ def combine_shifts_vu(shifts_v: NDArray, shifts_u: NDArray) -> NDArray:
     if shifts_v.size != shifts_u.size:
         raise ValueError(f"Number of vertical shifts ({shifts_v.size}) and horizontal shifts ({shifts_u.size}) should match")
 
-    return np.stack([np.squeeze(shifts_v), np.squeeze(shifts_u)], axis=-2)
+    return np.stack([np.ravel(shifts_v), np.ravel(shifts_u)], axis=-2)
 
 
 def get_rot_axis_dir(rot_axis_dir: str | ArrayLike | NDArray = "clockwise") -> NDArray:
-- 
2.43.0


From b825de40f84964dda330cc23caa598cbf0be1c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 039/112] fix: fields of fan-beam geometries can be scaled

---
 src/corrct/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/models.py b/src/corrct/models.py
index e0212f8..a61cbc4 100644
--- a/src/corrct/models.py
+++ b/src/corrct/models.py
@@ -335,7 +335,7 @@ class ProjectionGeometry(Geometry):
             The scaled field.
         """
         field_value = getattr(self, field_name) / self.pix2vox_ratio
-        if self.geom_type.lower() != "cone" and int(self.geom_type[-2]) == 2:
+        if self.ndim == 2:
             return field_value[:, :-1]
         else:
             return field_value
-- 
2.43.0


From 7284720f2532458530fe2747ac0e8b7d8d6e491a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:22 +0000
Subject: [PATCH 040/112] fix: masks are reordered and decomposed with their
 buckets, whatever the number of images and the dimensions of the masks

---
 src/corrct/struct_illum.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index ad2f37c..12f4842 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -34,7 +34,7 @@ except ImportError:
 NDArrayInt = NDArray[np.integer]
 
 
-def reorder_masks(masks: NDArray, buckets: NDArray, shift: int) -> tuple[NDArray, NDArray]:
+def reorder_masks(masks: NDArray, buckets: NDArray, shift: int, mask_dims: int = 2) -> tuple[NDArray, NDArray]:
     """Reorder masks, with a simple rot-n algorithm.
 
     Parameters
@@ -45,6 +45,8 @@ def reorder_masks(masks: NDArray, buckets: NDArray, shift: int) -> tuple[NDArray
         The corresponding buckets.
     shift : int
         The length of the shift.
+    mask_dims : int, optional
+        The dimensions of a single mask. The default is 2.
 
     Returns
     -------
@@ -52,15 +54,15 @@ def reorder_masks(masks: NDArray, buckets: NDArray, shift: int) -> tuple[NDArray
         The reordered masks and buckets.
     """
     masks_shape = masks.shape
-    masks = masks.reshape([-1, *masks_shape[-2:]])
+    masks = masks.reshape([-1, *masks_shape[-mask_dims:]])
 
     masks = np.roll(masks, -shift, axis=0)
-    buckets = np.roll(buckets, -shift)
+    buckets = np.roll(buckets, -shift, axis=-1)
 
     return masks.reshape(masks_shape), buckets
 
 
-def decompose_qr_masks(masks: NDArray, verbose: bool = False) -> tuple[NDArray, NDArray]:
+def decompose_qr_masks(masks: NDArray, verbose: bool = False, mask_dims: int = 2) -> tuple[NDArray, NDArray]:
     """Compute QR decomposition of the given masks.
 
     Parameters
@@ -69,6 +71,8 @@ def decompose_qr_masks(masks: NDArray, verbose: bool = False) -> tuple[NDArray,
         The masks to decompose
     verbose : bool, optional
         Whether to emit verbose output, by default False
+    mask_dims : int, optional
+        The dimensions of a single mask. The default is 2.
 
     Returns
     -------
@@ -76,7 +80,7 @@ def decompose_qr_masks(masks: NDArray, verbose: bool = False) -> tuple[NDArray,
         The Q and R components.
     """
     masks_shape = masks.shape
-    masks = masks.reshape([-1, np.prod(masks_shape[-2:])])
+    masks = masks.reshape([-1, np.prod(masks_shape[-mask_dims:])])
 
     if verbose:
         print("Computing QR decomposition")
@@ -320,9 +324,11 @@ class MaskCollection:
         new_masks = cp.deepcopy(self)
         new_buckets = cp.deepcopy(buckets)
         if shift != 0:
-            new_masks.masks_enc, new_buckets = reorder_masks(new_masks.masks_enc, new_buckets, shift=shift)
+            new_masks.masks_enc, new_buckets = reorder_masks(
+                new_masks.masks_enc, new_buckets, shift=shift, mask_dims=self.mask_dims
+            )
 
-        new_masks.masks_enc, R1t = decompose_qr_masks(new_masks.masks_enc)
+        new_masks.masks_enc, R1t = decompose_qr_masks(new_masks.masks_enc, mask_dims=self.mask_dims)
         new_masks.masks_dec = new_masks.masks_enc
         new_buckets: NDArray = R1t.dot(new_buckets.T)
 
-- 
2.43.0


From 7b03e9f7fe114bc6d0e2bd2bc9962c1e2fb1f4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:22 +0000
Subject: [PATCH 041/112] fix: binning one-dimensional masks does not bin the
 buckets

---
 src/corrct/struct_illum.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index 12f4842..4444d97 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -349,8 +349,9 @@ class MaskCollection:
         """
         new_masks = cp.deepcopy(self)
 
-        new_masks.masks_enc = bin_imgs(new_masks.masks_enc, binning=binning)
-        new_masks.masks_dec = bin_imgs(new_masks.masks_dec, binning=binning)
+        axes_fov = tuple(range(-self.mask_dims, 0))
+        new_masks.masks_enc = bin_imgs(new_masks.masks_enc, binning=binning, axes=axes_fov)
+        new_masks.masks_dec = bin_imgs(new_masks.masks_dec, binning=binning, axes=axes_fov)
 
         return new_masks
 
-- 
2.43.0


From 9a283f585effa0b82ab5a90d7e977dcc8a583a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:22 +0000
Subject: [PATCH 042/112] fix: the possible sizes of the MURA masks include the
 size of the field-of-view

---
 src/corrct/struct_illum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index 4444d97..b7593ce 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -847,8 +847,8 @@ class MaskGeneratorMURA(MaskGenerator):
             return not np.any(div_val == 0)
 
         max_possible_val = (fov_size - 1) // 4
-        test_values = np.arange(1, max_possible_val) * 4 + 1
-        primes = np.array([test_prime(x) for x in test_values])
+        test_values = np.arange(1, max_possible_val + 1) * 4 + 1
+        primes = np.array([test_prime(x) for x in test_values], dtype=bool)
         return test_values[primes]
 
 
-- 
2.43.0


From 7bd97cf9a2057691548ab90e0fd1e0ca81299aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:22 +0000
Subject: [PATCH 043/112] fix: ghost imaging projectors support one-dimensional
 masks

---
 src/corrct/struct_illum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index b7593ce..9c9ab08 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -875,7 +875,7 @@ class ProjectorGhostImaging(ProjectorOperator):
         self._axes_fov = np.arange(-len(self.mc.shape_fov), 0)
         self.row_sum = np.sqrt(np.abs(self.mc.masks_enc * self.mc.masks_dec)).sum(axis=tuple(self._axes_fov))
 
-        self.vol_shape = self.mc.masks_enc.shape[-2:]
+        self.vol_shape = self.mc.shape_fov
         self.prj_shape = np.array(self.mc.num_buckets, ndmin=1)
         super().__init__()
 
@@ -985,7 +985,7 @@ class ProjectorGhostImaging(ProjectorOperator):
         rec_f_shape = np.array(image_f.shape)[list(self._axes_fov)]
 
         sampling_filter = np.ones(rec_f_shape, dtype=image.dtype) / sampling_ratio
-        sampling_filter[0, 0] = 1
+        sampling_filter[(0,) * sampling_filter.ndim] = 1
         image_f *= sampling_filter
 
         return np.fft.irfftn(image_f, s=self.mc.shape_fov, axes=tuple(self._axes_fov), norm="ortho")
-- 
2.43.0


From 42625a8fdd91f971872b3686814a3db87d23db12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:22 +0000
Subject: [PATCH 044/112] fix: ghost tomography projectors have the shape of
 the projections and of the buckets, and reconstruct volumes

---
 src/corrct/struct_illum.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index 9c9ab08..8df8c71 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -1044,15 +1044,18 @@ class ProjectorGhostTomography(ProjectorGhostImaging):
     def __init__(self, mask_collection: MaskCollection | NDArray, tomo_proj: ProjectorOperator, backend: str = "torch"):
         super().__init__(mask_collection, backend)
 
-        tomo_prj_shape = np.array([*tomo_proj.dir_shape[:-2], tomo_proj.dir_shape[-1]])
+        tomo_prj_shape = np.array([*tomo_proj.prj_shape[:-2], tomo_proj.prj_shape[-1]])
         # Special care should be given to support when implemented
         if len(tomo_prj_shape) != self.mc.mask_dims or any(tomo_prj_shape != self.mc.shape_fov):
             raise ValueError(
-                f"Tomographic projection shape {tomo_prj_shape} ([V]U, from: {self.tomo_proj.dir_shape} [V]WU)"
+                f"Tomographic projection shape {tomo_prj_shape} ([V]U, from: {tomo_proj.prj_shape} [V]WU)"
                 f" does not match ghost imaging projector shape {self.mc.shape_fov} ([V]U, from: {self.masks_enc.shape} M[V]U)"
             )
 
         self.tomo_proj = tomo_proj
+        self.vol_shape = tomo_proj.vol_shape
+        self.prj_shape = np.array([tomo_proj.prj_shape[-2], self.mc.num_buckets])
+        super(ProjectorGhostImaging, self).__init__()
 
     def fp(self, vol_zyx: NDArray) -> NDArray:
         """Compute forward-projection (prediction) of the bucket values.
@@ -1108,4 +1111,4 @@ class ProjectorGhostTomography(ProjectorGhostImaging):
         imgs_wvu = [super().fbp(bs, use_lstsq, adjust_scaling) for bs in bucket_vals]
         imgs_vwu = np.squeeze(np.array(imgs_wvu, ndmin=3).swapaxes(-3, -2))
         solver_fbp = FBP()
-        return solver_fbp(self.tomo_proj, imgs_vwu)
+        return solver_fbp(self.tomo_proj, imgs_vwu)[0]
-- 
2.43.0


From bb58f67a5105135be996fc6069d4f71a226e31c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:18 +0000
Subject: [PATCH 045/112] fix: integer images keep their range when rotated or
 binned by a non-integer factor

---
 src/corrct/processing/pre.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index d2d7e6b..749431d 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -143,7 +143,7 @@ def rotate_proj_stack(data_vwu: NDArray, rot_angle_deg: float) -> NDArray:
     """
     data_vwu_r = np.empty_like(data_vwu)
     for ii in range(data_vwu.shape[-2]):
-        data_vwu_r[:, ii, :] = skt.rotate(data_vwu[:, ii, :], -rot_angle_deg, clip=False)
+        data_vwu_r[:, ii, :] = skt.rotate(data_vwu[:, ii, :], -rot_angle_deg, clip=False, preserve_range=True)
     return data_vwu_r
 
 
@@ -221,7 +221,7 @@ def bin_imgs(
         binned_shape = imgs.shape
     else:
         imgs = imgs.reshape([-1, *imgs_shape[-2:]])
-        imgs = skt.rescale(imgs, 1 / binning, channel_axis=0 if len(imgs_shape) > 2 else None)
+        imgs = skt.rescale(imgs, 1 / binning, channel_axis=0 if len(imgs_shape) > 2 else None, preserve_range=True)
         binned_shape = [*imgs_shape[:-2], *imgs.shape[-2:]]
         imgs = imgs.reshape(binned_shape)
 
-- 
2.43.0


From 2661fbd285ec5fe6b21fc5aa249df3fd9382d4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:18 +0000
Subject: [PATCH 046/112] fix: projections of odd width can be shifted in
 Fourier space

---
 src/corrct/processing/pre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index 749431d..bc9449e 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -170,7 +170,7 @@ def shift_proj_stack(data_vwu: NDArray, shifts: NDArray, use_fft: bool = False)
             img = data_vwu[..., ii, :]
             img_f = np.fft.rfftn(img)
             img_f = fourier_shift(img_f, shifts[..., ii], n=img.shape[-1])
-            new_data[..., ii, :] = np.fft.irfftn(img_f)
+            new_data[..., ii, :] = np.fft.irfftn(img_f, s=img.shape, axes=range(img.ndim))
         else:
             new_data[..., ii, :] = shift(data_vwu[..., ii, :], shifts[..., ii], order=1, mode="nearest")
 
-- 
2.43.0


From d34f0468165f28d7a21ea2c2a25c467f7f30debb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:18 +0000
Subject: [PATCH 047/112] fix: a margin of size zero is not taken as the whole
 line in the background computation

---
 src/corrct/processing/pre.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index bc9449e..d9ddf77 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -271,7 +271,7 @@ def background_from_margin(
         poly_order = 0
 
     if poly_order > 0:
-        ydata = np.concatenate([data_vwu[..., : margin[0]], data_vwu[..., -margin[1] :]], axis=-1)
+        ydata = np.concatenate([data_vwu[..., : margin[0]], data_vwu[..., data_shape_u - margin[1] :]], axis=-1)
         xdata = np.concatenate([np.arange(0, margin[0]), np.arange(data_shape_u - margin[1], data_shape_u)])
 
         if data_vwu.ndim > 2:
@@ -295,7 +295,7 @@ def background_from_margin(
             background = np.tile(background[None, ...], [data_vwu.shape[-3], 1, 1])
         return background
     else:
-        sum_vals = data_vwu[..., : margin[0]].sum(axis=-1) + data_vwu[..., -margin[1] :].sum(axis=-1)
+        sum_vals = data_vwu[..., : margin[0]].sum(axis=-1) + data_vwu[..., data_shape_u - margin[1] :].sum(axis=-1)
         background: NDArray = sum_vals / margin.sum(axis=-1)
 
         if data_vwu.ndim > 2:
-- 
2.43.0


From eb84672c0fdbdf066acbf14895dc3191438db86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:18 +0000
Subject: [PATCH 048/112] fix: a taper of zero width gives a sharp mask

---
 src/corrct/processing/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/misc.py b/src/corrct/processing/misc.py
index 681e980..ca31c00 100644
--- a/src/corrct/processing/misc.py
+++ b/src/corrct/processing/misc.py
@@ -111,7 +111,7 @@ def circular_mask(
 
         if taper_func.lower() == "cos":
             cut_off_radius = np.min(vol_shape_zxy_s[coords_ball]) / (cut_off_denom * super_sampling) + cut_off_offset
-            cut_off_size = cut_off_radius - max_radius
+            cut_off_size = np.fmax(cut_off_radius - max_radius, eps)
             outter_vals = np.cos(np.fmax(dists - max_radius, 0) / cut_off_size * np.pi) / 2 + 0.5
             mask = (outter_vals * (dists < cut_off_radius)).astype(dtype)
         else:
-- 
2.43.0


From ce06f5098f5eb3f20d523a83d8b14cf7f03f5638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:18 +0000
Subject: [PATCH 049/112] fix: the cross-correlation of image stacks keeps the
 order of the images

---
 src/corrct/processing/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/misc.py b/src/corrct/processing/misc.py
index ca31c00..5d717a3 100644
--- a/src/corrct/processing/misc.py
+++ b/src/corrct/processing/misc.py
@@ -429,7 +429,7 @@ def norm_cross_corr(
     else:
         cc_n = cc / (np.linalg.norm(img1) * np.linalg.norm(img2))
 
-    cc_n = np.fft.ifftshift(cc_n)
+    cc_n = np.fft.ifftshift(cc_n, axes=axes)
 
     if compute_profile:
         cc_l = azimuthal_integration(cc_n, axes=axes, domain="fourier")
-- 
2.43.0


From b44cf89427aefbe8ac8cbf6c19e85b29130bff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:09 +0000
Subject: [PATCH 050/112] fix: curves can be crossed with a horizontal line

---
 src/corrct/processing/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/processing/misc.py b/src/corrct/processing/misc.py
index 5d717a3..523dec8 100644
--- a/src/corrct/processing/misc.py
+++ b/src/corrct/processing/misc.py
@@ -324,8 +324,8 @@ def lines_intersection(
     x3 = 0.0
     x4 = 1.0
     if line_2.size == 1:
-        y3 = line_2
-        y4 = line_2
+        y3 = line_2[0]
+        y4 = line_2[0]
     else:
         y3 = line_2[point_l]
         y4 = line_2[point_l + 1]
-- 
2.43.0


From 6ba92a632702e7936d5e7bb15ede52a9de7f8c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:09 +0000
Subject: [PATCH 051/112] fix: template matching works for images that are not
 square

---
 src/corrct/processing/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/misc.py b/src/corrct/processing/misc.py
index 523dec8..f76e83e 100644
--- a/src/corrct/processing/misc.py
+++ b/src/corrct/processing/misc.py
@@ -381,7 +381,7 @@ def norm_cross_corr(
         padding = np.zeros(len(x.shape), dtype=int)
         for a in axes:
             padding[a] = x.shape[a]
-        y: NDArray[np.floating] = np.pad(x, padding)
+        y: NDArray[np.floating] = np.pad(x, [(p, p) for p in padding])
         for a in axes:
             y = np.cumsum(y, axis=a)
             slicing1 = [slice(None)] * len(x.shape)
-- 
2.43.0


From 33ddfe2fc90386d5686c1759b8b4dcbcf2d717d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:35 +0000
Subject: [PATCH 052/112] fix: rings without pixels do not spoil the smoothed
 power spectrum

---
 src/corrct/processing/post.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/post.py b/src/corrct/processing/post.py
index bddb943..65f13ae 100644
--- a/src/corrct/processing/post.py
+++ b/src/corrct/processing/post.py
@@ -107,7 +107,7 @@ def power_spectrum(
     f1_int = azimuthal_integration(f1, axes=axes, domain="fourier")
 
     rings_size = azimuthal_integration(np.ones_like(img), axes=axes, domain="fourier")
-    ps = f1_int / rings_size
+    ps = f1_int / (rings_size + (rings_size == 0))
     dc_val = np.sqrt(np.min(axes_shape) ** len(axes_shape)) ** power
     ps /= dc_val
 
-- 
2.43.0


From a1624018286e697ec23267eff6fd8428fd7730c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:02 +0000
Subject: [PATCH 053/112] fix: stacks of dark images are averaged in the
 flat-field correction

---
 src/corrct/processing/pre.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index d9ddf77..aa9c6fb 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -94,6 +94,8 @@ def apply_flat_field(
 
     if darks_wvu is not None:
         darks_wvu = np.ascontiguousarray(darks_wvu, dtype=dtype)
+        if darks_wvu.ndim == 3:
+            darks_wvu = np.mean(darks_wvu, axis=0)
         projs_wvu = projs_wvu - darks_wvu
         flats_wvu = flats_wvu - darks_wvu
 
-- 
2.43.0


From 660779582cab2938cf0cf3cb937da69b95e320a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:02 +0000
Subject: [PATCH 054/112] fix: variance weights accept masks that are not
 boolean

---
 src/corrct/processing/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/noise.py b/src/corrct/processing/noise.py
index 4d75ccb..09c964d 100644
--- a/src/corrct/processing/noise.py
+++ b/src/corrct/processing/noise.py
@@ -128,7 +128,7 @@ def compute_variance_weight(
 
     vals = variance.flatten()
     if mask is not None:
-        vals = vals[mask.flatten()]
+        vals = vals[mask.flatten().astype(bool)]
 
     sorted_variances = np.sort(vals)
     percentiles_variances = np.cumsum(sorted_variances) / np.sum(sorted_variances)
-- 
2.43.0


From 3118fbf98f73c68a5f9e42c719c6d381b4f398a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:46 +0000
Subject: [PATCH 055/112] fix: polynomial backgrounds of integer data are not
 truncated

---
 src/corrct/processing/pre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index aa9c6fb..7ac72fd 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -279,7 +279,7 @@ def background_from_margin(
         if data_vwu.ndim > 2:
             ydata = ydata.mean(axis=-3)
 
-        background = np.empty([data_shape_w, data_shape_u], dtype=data_vwu.dtype)
+        background = np.empty([data_shape_w, data_shape_u], dtype=np.result_type(data_vwu.dtype, np.float32))
         for ii_w in range(data_shape_w):
             poly = Polynomial.fit(xdata, ydata[ii_w], deg=poly_order)
             background[ii_w, :] = poly(np.arange(data_shape_u))
-- 
2.43.0


From fb8bbe09182ace28da8398621964374dca7c347d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 056/112] fix: cross-correlations of images with an odd size
 are computed on their own grid

---
 src/corrct/alignment/fitting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 15d500e..919f2b0 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -162,7 +162,7 @@ def fit_shifts_vu_xc(
             cc_f = data_vwu_f * proj_vwu_f.conj()
             if normalize_fourier:
                 cc_f /= np.fmax(np.abs(cc_f), eps)
-            cc_r: NDArrayFloat = local_ifftn(cc_f).real
+            cc_r: NDArrayFloat = local_ifftn(cc_f, s=list(new_fft_shapes), axes=fft_axes).real
 
             f_vals, f_coords = extract_peak_region_nd(cc_r, cc_coords=cc_coords)
             shifts_vu[..., ii_a] = np.array([f_coords[0][1], f_coords[1][1]])
@@ -182,7 +182,7 @@ def fit_shifts_vu_xc(
         ccs_f = data_vwu_f * proj_vwu_f.conj()
         if normalize_fourier:
             ccs_f /= np.fmax(np.abs(ccs_f).max(axis=u_axis, keepdims=True), eps)
-        ccs = local_ifftn(ccs_f, axes=fft_dims).real
+        ccs = local_ifftn(ccs_f, s=list(new_fft_shapes), axes=list(fft_dims)).real
 
         f_vals, f_h = extract_peak_regions_1d(ccs, axis=u_axis, cc_coords=cc_coords[u_axis])
         shifts_vu = f_h[1, :]
@@ -252,7 +252,7 @@ def fit_shifts_zyx_xc(
     cc_f = ref_vol_zyx_f * rec_vol_zyx_f.conj()
     if normalize_fourier:
         cc_f /= np.fmax(np.abs(cc_f), eps)
-    cc: NDArrayFloat = local_ifftn(cc_f).real
+    cc: NDArrayFloat = local_ifftn(cc_f, s=list(new_fft_shapes), axes=fft_dims).real
 
     f_vals, f_coords = extract_peak_region_nd(cc, cc_coords=cc_coords)
     shifts_zyx = np.array([coords[1] for coords in f_coords])
-- 
2.43.0


From 3811170270d7f3651cddaacfd0dabf542e1d8d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 057/112] fix: vertical pre-alignment shifts are not scaled
 when the padded size is odd

---
 src/corrct/alignment/shifts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/shifts.py b/src/corrct/alignment/shifts.py
index 2c19730..118f740 100644
--- a/src/corrct/alignment/shifts.py
+++ b/src/corrct/alignment/shifts.py
@@ -188,7 +188,7 @@ class DetectorShiftsPRE(DetectorShiftsBase):
         if normalize_fourier:
             ccs_f /= np.fmax(np.abs(ccs_f).max(axis=-2, keepdims=True), eps)
 
-        cross_corr = local_ifft(ccs_f, axis=-2).real
+        cross_corr = local_ifft(ccs_f, n=data_vw_p.shape[-2], axis=-2).real
 
         cc_coords = np.fft.fftfreq(cross_corr.shape[-2], 1 / cross_corr.shape[-2])
         f_vals, fc_ax = fitting.extract_peak_regions_1d(cross_corr, axis=-2, cc_coords=cc_coords)
-- 
2.43.0


From a8ee9c6e420eabae4d70852fdeb0849d880b80e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 058/112] fix: sum-of-absolute-difference shifts work without
 padding

---
 src/corrct/alignment/fitting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 919f2b0..4d998a6 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -62,6 +62,9 @@ def fit_shifts_u_sad(
         padding[-1, :] = (search_range, search_range)
         pad_data_wu = np.pad(data_wu, pad_width=padding, mode="edge")
         pad_proj_wu = np.pad(proj_wu, pad_width=padding, mode="constant")
+    else:
+        pad_data_wu = data_wu
+        pad_proj_wu = proj_wu
 
     fft_proj_wu = np.fft.fft2(pad_proj_wu)
 
-- 
2.43.0


From 645b868f00aa6e29485483f3ce09374e76408359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 059/112] fix: cross-correlation shifts follow the order of the
 angles

---
 src/corrct/alignment/shifts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/shifts.py b/src/corrct/alignment/shifts.py
index 118f740..704cbdb 100644
--- a/src/corrct/alignment/shifts.py
+++ b/src/corrct/alignment/shifts.py
@@ -410,7 +410,7 @@ class DetectorShiftsXC(DetectorShiftsBase):
 
         shifts_vu[-1] = shifts_u
 
-        return shifts_vu[:, list(angles_order)]
+        return shifts_vu[:, list(np.argsort(angles_order))]
 
     def fit_u_180(self) -> float:
         """Find the center-of-rotation, using the 0 and 180 degrees projections.
-- 
2.43.0


From 2c41add30a2fe4f8aacc6d65d2a2ee9b05fc574d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 060/112] fix: large shifts of 2D data are filtered instead of
 failing

---
 src/corrct/alignment/shifts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/shifts.py b/src/corrct/alignment/shifts.py
index 704cbdb..ee0bf2d 100644
--- a/src/corrct/alignment/shifts.py
+++ b/src/corrct/alignment/shifts.py
@@ -21,7 +21,7 @@ NDArrayFloat = NDArray[np.floating]
 
 
 def _filter_shifts(shifts_vu: NDArrayFloat, max_shifts: NDArrayFloat) -> NDArrayFloat:
-    invalid_shifts = np.abs(shifts_vu) > max_shifts
+    invalid_shifts = (np.abs(shifts_vu) > max_shifts).reshape(shifts_vu.shape)
 
     shifts_vu_filt = shifts_vu.copy()
     if np.any(invalid_shifts):
-- 
2.43.0


From 8a21eaf1dfe3f8ef7ed800724eb5d1bdc6277b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 061/112] fix: camera tilt is not halved twice

---
 src/corrct/alignment/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 4d998a6..9de2eda 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -390,7 +390,7 @@ def fit_camera_tilt_angle(img_1: NDArray, img_2: NDArray, pad_u: bool = False, f
         coeffs_opt = minimize(f, np.array([b, a]))
         b, a = coeffs_opt.x
 
-    tilt_deg = np.rad2deg(-a / 2)
+    tilt_deg = np.rad2deg(-a)
     cor_offset_pix = b
 
     if verbose:
-- 
2.43.0


From 652cafb9b3fb7bc6eac3e96154fd771979b3fb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 062/112] fix: margins of the cross-correlation follow the
 stacking axis

---
 src/corrct/alignment/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 9de2eda..4037c3d 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -144,7 +144,7 @@ def fit_shifts_vu_xc(
         mask = np.zeros([proj_vwu.shape[d] for d in fft_dims], dtype=proj_vwu.dtype)
         slices = [slice(margin, proj_vwu.shape[d] - margin) for d in fft_dims]
         mask[tuple(slices)] = 1.0
-        proj_vwu = proj_vwu * mask[..., None, :]
+        proj_vwu = proj_vwu * np.expand_dims(mask, stack_axis)
 
     if len(fft_dims) == 2:
         shifts_vu = np.empty((len(data_vwu.shape) - 1, num_angles))
-- 
2.43.0


From 0cbd63311a665ce0641b01d452addd9c98c6b4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 063/112] fix: 2D peak positions are in pixels for any size of
 the region

---
 src/corrct/alignment/fitting.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 4037c3d..82b9856 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -677,11 +677,10 @@ def refine_max_position_2d(
     if not (len(f_vals.shape) == 2):
         raise ValueError(f"The fitted values should form a 2-dimensional array. Array of shape: {f_vals.shape} was given.")
     if fy is None:
-        fy = np.linspace(-1, 1, f_vals.shape[0])
-        y_scaling = (f_vals.shape[0] - 1) / 2
+        fy_half_size = (f_vals.shape[0] - 1) / 2
+        fy = np.linspace(-fy_half_size, fy_half_size, f_vals.shape[0])
     else:
         fy = np.array(fy, ndmin=1)
-        y_scaling = 1.0
         if not (len(fy.shape) == 1 and np.all(fy.size == f_vals.shape[0])):
             raise ValueError(
                 f"Vertical coordinates should have the same length as values matrix."
@@ -689,11 +688,10 @@ def refine_max_position_2d(
             )
 
     if fx is None:
-        fx = np.linspace(-1, 1, f_vals.shape[1])
-        x_scaling = (f_vals.shape[1] - 1) / 2
+        fx_half_size = (f_vals.shape[1] - 1) / 2
+        fx = np.linspace(-fx_half_size, fx_half_size, f_vals.shape[1])
     else:
         fx = np.array(fx, ndmin=1)
-        x_scaling = 1.0
     if not (len(fx.shape) == 1 and np.all(fx.size == f_vals.shape[1])):
         raise ValueError(
             f"Horizontal coordinates should have the same length as values matrix."
@@ -706,7 +704,6 @@ def refine_max_position_2d(
 
     coords = np.array([np.ones(f_vals.size), fy, fx, fy * fx, fy**2, fx**2])
     coeffs = np.linalg.lstsq(coords.T, f_vals.flatten(), rcond=None)[0]
-    coeffs *= [1, y_scaling, x_scaling, y_scaling * x_scaling, y_scaling**2, x_scaling**2]
 
     # For a 1D parabola `f(x) = ax^2 + bx + c`, the vertex position is:
     # x_v = -b / 2a. For a 2D parabola, the vertex position is:
-- 
2.43.0


From 9289143eefd21fff299afdafcb99f6cdf7640077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 064/112] fix: vertical centers of fitted ellipses

---
 src/corrct/alignment/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 82b9856..fc375be 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -946,7 +946,7 @@ def fit_ellipse_parameters(
         coeffs[4] *= p_v_scaling**2
 
     u = (coeffs[1] - coeffs[2] * coeffs[3]) / (coeffs[0] - coeffs[3] ** 2)
-    v = (coeffs[0] * coeffs[2] - coeffs[1] * coeffs[3]) / (coeffs[0] - coeffs[2] * coeffs[3])
+    v = (coeffs[0] * coeffs[2] - coeffs[1] * coeffs[3]) / (coeffs[0] - coeffs[3] ** 2)
 
     a = coeffs[0] / (coeffs[0] * u**2 + v**2 + 2 * coeffs[3] * u * v - coeffs[4])
     b = a / coeffs[0]
-- 
2.43.0


From babe65b02f5a018d653a8431799ad24472b966dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 065/112] fix: extremes of tilted ellipses

---
 src/corrct/alignment/fitting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index fc375be..c19bed1 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -1030,8 +1030,9 @@ class Ellipse(Trajectory):
             A tuple containing the most extreme U coordinates (u_min, u_max).
         """
         # Calculate the extreme U coordinates
-        u_min = self.u - np.sqrt(1 / self.a)
-        u_max = self.u + np.sqrt(1 / self.a)
+        half_width = np.sqrt(self.b / (self.a * self.b - self.c**2))
+        u_min = self.u - half_width
+        u_max = self.u + half_width
 
         return u_min, u_max
 
-- 
2.43.0


From a727940e6305f4ef4d995f92da70d1b200fe39fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 066/112] fix: parabolic fits of constant functions return the
 measured minimum

---
 src/corrct/alignment/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index c19bed1..100420c 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -791,7 +791,7 @@ def fit_parabola_min(
     # stable than previous solutions (according to numpy).
     poly = Polynomial.fit(fx_fit, f_vals_fit, deg=2)
     coeffs = poly.convert().coef
-    if coeffs[2] <= 0:
+    if len(coeffs) < 3 or coeffs[2] <= 0:
         print("WARNING: fitted curve is concave. Returning minimum measured point.")
         return fun_x[min_pos], fun_vals[min_pos], None
 
-- 
2.43.0


From 74737a9888f9893c79a076d646d67a551e3e9105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:13 +0000
Subject: [PATCH 067/112] fix: loading another class from JSON raises the
 documented error

---
 src/corrct/alignment/cone_beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/cone_beam.py b/src/corrct/alignment/cone_beam.py
index 7ebbded..9de2268 100644
--- a/src/corrct/alignment/cone_beam.py
+++ b/src/corrct/alignment/cone_beam.py
@@ -243,7 +243,7 @@ class ConeBeamGeometry:
         if list(data_tree.keys())[0] != self.__class__.__name__:
             raise ValueError(
                 f"Initialization from JSON: expecting {self.__class__.__name__} class instance,"
-                f" but {data_tree.keys()[0]} passed."
+                f" but {class_name} passed."
             )
 
         data_dict = data_tree[class_name]
-- 
2.43.0


From e2f86e22cd15b178d5b61b966e8833aa6507e3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 068/112] fix: the last angle of the first half turn does not
 depend on rounding

---
 src/corrct/alignment/shifts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/corrct/alignment/shifts.py b/src/corrct/alignment/shifts.py
index ee0bf2d..c59fbb4 100644
--- a/src/corrct/alignment/shifts.py
+++ b/src/corrct/alignment/shifts.py
@@ -448,7 +448,9 @@ class DetectorShiftsXC(DetectorShiftsBase):
         # We should be checking whether the scan is really 360 or not.
 
         angles_boundary = self.angles_rad[0] + np.pi
-        num_angles = np.sum(self.angles_rad < angles_boundary)
+        is_first_half = self.angles_rad < angles_boundary
+        is_first_half &= ~np.isclose(self.angles_rad, angles_boundary, atol=1e-5)
+        num_angles = np.sum(is_first_half)
 
         a1s = self.angles_rad[:num_angles]
         a2s = a1s + np.pi
-- 
2.43.0


From 030be29bc1f9fc6f184d8940e39bacab585bd009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:24 +0000
Subject: [PATCH 069/112] fix: images stacked along the last axis are padded
 along their horizontal axis

---
 src/corrct/alignment/fitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 100420c..e67db69 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -137,7 +137,7 @@ def fit_shifts_vu_xc(
     old_fft_shapes = np.array(np.array(data_vwu.shape)[fft_dims], ndmin=1, dtype=int)
     new_fft_shapes = old_fft_shapes.copy()
     if pad_u:
-        new_fft_shapes[u_axis] *= 2
+        new_fft_shapes[-1] *= 2
     cc_coords = [np.fft.fftfreq(s, 1 / s) for s in new_fft_shapes]
 
     if margin > 0:
@@ -187,7 +187,7 @@ def fit_shifts_vu_xc(
             ccs_f /= np.fmax(np.abs(ccs_f).max(axis=u_axis, keepdims=True), eps)
         ccs = local_ifftn(ccs_f, s=list(new_fft_shapes), axes=list(fft_dims)).real
 
-        f_vals, f_h = extract_peak_regions_1d(ccs, axis=u_axis, cc_coords=cc_coords[u_axis])
+        f_vals, f_h = extract_peak_regions_1d(ccs, axis=u_axis, cc_coords=cc_coords[-1])
         shifts_vu = f_h[1, :]
 
         if decimals > 0:
-- 
2.43.0


From 05022c224790a8f30b11df3bdc4e280baa278529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 070/112] fix: updated cone-beam geometries can be saved to
 JSON

---
 src/corrct/alignment/cone_beam.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/corrct/alignment/cone_beam.py b/src/corrct/alignment/cone_beam.py
index 9de2268..b50d9fd 100644
--- a/src/corrct/alignment/cone_beam.py
+++ b/src/corrct/alignment/cone_beam.py
@@ -23,7 +23,10 @@ from corrct.alignment.fitting import Ellipse, fit_parabola_min, fit_ellipse, fit
 
 
 def _class_to_json(obj: object) -> str:
-    return json.dumps(obj, default=lambda o: {o.__class__.__name__: o.__dict__}, sort_keys=True, indent=4)
+    def _to_jsonable(o: object) -> object:
+        return o.item() if isinstance(o, np.generic) else {o.__class__.__name__: o.__dict__}
+
+    return json.dumps(obj, default=_to_jsonable, sort_keys=True, indent=4)
 
 
 def _get_rot_axis_angle_deg(
-- 
2.43.0


From 8ac8e1503d2cc515ef505734823998ddd41ab357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:40 +0000
Subject: [PATCH 071/112] fix: minimum of constant losses is the measured one

---
 src/corrct/param_tuning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/param_tuning.py b/src/corrct/param_tuning.py
index 9b74072..c0b4533 100644
--- a/src/corrct/param_tuning.py
+++ b/src/corrct/param_tuning.py
@@ -320,7 +320,7 @@ def fit_func_min(
     # stable than previous solutions (according to numpy).
     poly = Polynomial.fit(lams_reg_fit, f_vals_fit, deg=2)
     coeffs = poly.convert().coef
-    if coeffs[2] <= 0:
+    if len(coeffs) < 3 or coeffs[2] <= 0:
         warn("Fitted curve is concave. Returning minimum measured point.")
         return hp_vals[min_pos], f_vals[min_pos]
 
-- 
2.43.0


From 4c2bd2f323ebbdf508ed88bbdd29869f98f93be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:42 +0000
Subject: [PATCH 072/112] fix: real-space FBP filters are centered when set, as
 when read

---
 src/corrct/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/filters.py b/src/corrct/filters.py
index 3973c7c..20c5e8b 100644
--- a/src/corrct/filters.py
+++ b/src/corrct/filters.py
@@ -333,7 +333,7 @@ class Filter(ABC):
 
     @filter_real.setter
     def filter_real(self, fbp_filter_r: NDArray[np.floating]) -> None:
-        self.fbp_filter = self.to_fourier(fbp_filter_r)
+        self.fbp_filter = self.to_fourier(np.fft.ifftshift(fbp_filter_r, axes=(-1,)))
 
     @filter_fourier.setter
     def filter_fourier(self, fbp_filter_f: NDArray[np.floating]) -> None:
-- 
2.43.0


From 5fcb5a8192f373dc0171914185ec425d3776273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:42 +0000
Subject: [PATCH 073/112] fix: windowed FBP filters do not depend on the type
 of Fourier transform

---
 src/corrct/filters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/corrct/filters.py b/src/corrct/filters.py
index 20c5e8b..0a4a2ab 100644
--- a/src/corrct/filters.py
+++ b/src/corrct/filters.py
@@ -513,6 +513,9 @@ class FilterFBP(Filter):
         self.fbp_filter = _get_fourier_filter(prj_size_pad, self.filter_name)
         self.fbp_filter = np.squeeze(self.fbp_filter) * np.pi / (2 * data_wu.shape[-2])
 
+        # The windows are not exactly symmetric, but only their symmetric part acts on real data
+        self.fbp_filter = (self.fbp_filter + np.roll(self.fbp_filter[::-1], 1)) / 2
+
         if self.use_rfft:
             self.fbp_filter = self.fbp_filter[: (self.fbp_filter.shape[-1]) // 2 + 1]
 
-- 
2.43.0


From a75be6562ea2b89c3e09b352ad3c525695beb74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:42 +0000
Subject: [PATCH 074/112] fix: data-driven filters adapt to the size of the
 data

---
 src/corrct/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/filters.py b/src/corrct/filters.py
index 0a4a2ab..c857cc0 100644
--- a/src/corrct/filters.py
+++ b/src/corrct/filters.py
@@ -614,7 +614,7 @@ class FilterMR(Filter):
         projector : ProjectorOperator
             The projector used in the FBP.
         """
-        if not self.is_initialized:
+        if not self.is_initialized or self.basis_r.shape[-1] != self.get_padding_size(data_wu.shape):
             self.initialize(data_wu.shape)
 
         num_sino_pixels = data_wu.shape[-1]
-- 
2.43.0


From 0a4e78d8051042d612ed2ad6409244977286869a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:04 +0000
Subject: [PATCH 075/112] fix: integer material fractions are not truncated

---
 src/corrct/physics/materials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/physics/materials.py b/src/corrct/physics/materials.py
index a87974f..510b58d 100644
--- a/src/corrct/physics/materials.py
+++ b/src/corrct/physics/materials.py
@@ -61,7 +61,7 @@ class VolumeMaterial:
                 raise ValueError("All material fraction volumes should have the same number of dimensions")
             if not np.all(self.shape == ph.shape):
                 raise ValueError("Materials fraction volumes should all have the same shape")
-            if ph.dtype == bool:
+            if not np.issubdtype(ph.dtype, np.floating):
                 self.materials_fractions[ii] = ph.astype(np.float32)
 
         if dtype is None:
-- 
2.43.0


From 793b21eed7b25b888d8fd28548dc1236d6ab4590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:04 +0000
Subject: [PATCH 076/112] fix: arrays of distances of XRF detectors

---
 src/corrct/physics/xrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/physics/xrf.py b/src/corrct/physics/xrf.py
index 3504470..4cccdab 100644
--- a/src/corrct/physics/xrf.py
+++ b/src/corrct/physics/xrf.py
@@ -225,7 +225,7 @@ class DetectorXRF:
     def __post_init__(self):
         if self.surface_mm2 < 0.0:
             raise ValueError(f"Surface cannot be negative, but {self.surface_mm2} was passed")
-        if self.distance_mm <= 0.0:
+        if np.any(np.asarray(self.distance_mm) <= 0.0):
             raise ValueError(f"The distance needs to be positive, but {self.distance_mm} was passed")
 
     @property
-- 
2.43.0


From fddaf84adae824a4d3fcbbab602db6c0fe9d2b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:04 +0000
Subject: [PATCH 077/112] fix: parallax of XRF detectors is computed in the
 same units, for any type of distance

---
 src/corrct/physics/materials.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/corrct/physics/materials.py b/src/corrct/physics/materials.py
index 510b58d..8a69f31 100644
--- a/src/corrct/physics/materials.py
+++ b/src/corrct/physics/materials.py
@@ -148,13 +148,11 @@ class VolumeMaterial:
         return mass_fraction
 
     def _check_parallax_detector(self, detector: xrf.DetectorXRF, tolerance: float = 1e-2) -> bool:
-        half_sample_size = np.max(self.voxel_size_cm * self.shape) / 2
+        half_sample_size_mm = np.max(self.voxel_size_cm * 10 * self.shape) / 2
 
-        if isinstance(detector.distance_mm, float) or (
-            isinstance(detector.distance_mm, np.ndarray) and detector.distance_mm.size == 1
-        ):
+        if np.size(detector.distance_mm) == 1:
             dets = cp.deepcopy(detector)
-            dets.distance_mm = dets.distance_mm + np.array([-half_sample_size, half_sample_size])
+            dets.distance_mm = dets.distance_mm + np.array([-half_sample_size_mm, half_sample_size_mm])
         else:
             dets = detector
 
-- 
2.43.0


From 0df999facc009dcacc4c8f232ef637df317ed185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:04 +0000
Subject: [PATCH 078/112] fix: points between two pixels are not counted twice
 in the profiles of pencil beams

---
 src/corrct/physics/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/corrct/physics/__init__.py b/src/corrct/physics/__init__.py
index cd6ef85..84798b5 100644
--- a/src/corrct/physics/__init__.py
+++ b/src/corrct/physics/__init__.py
@@ -58,7 +58,7 @@ def pencil_beam_profile(
     xc = np.linspace(-extent_um / 2, extent_um / 2, num_points)
 
     # Box beam shape
-    yb = np.abs(xc) < half_voxel_size_um
+    yb = (np.abs(xc) < half_voxel_size_um).astype(float)
     yb[np.abs(np.abs(xc) - half_voxel_size_um) <= eps] = 0.5
 
     # Gaussian beam shape
@@ -81,8 +81,8 @@ def pencil_beam_profile(
     for ii_p in range(y_points):
         # Finding the region that overlaps with the given adjacent voxel
         voxel_center_um = (ii_p - profile_size) * voxel_size_um
-        yp = np.abs(xc - voxel_center_um) < half_voxel_size_um
-        yp[(np.abs(xc - voxel_center_um) - half_voxel_size_um) < eps] = 0.5
+        yp = (np.abs(xc - voxel_center_um) < half_voxel_size_um).astype(float)
+        yp[np.abs(np.abs(xc - voxel_center_um) - half_voxel_size_um) <= eps] = 0.5
 
         y[ii_p] = np.sum(yc * yp)
 
-- 
2.43.0


From 971f00ddcb0f40d4d029dadc15363b5d4ee86072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:55 +0000
Subject: [PATCH 079/112] fix: simulated sinograms without attenuation use the
 PSF

---
 src/corrct/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/testing.py b/src/corrct/testing.py
index 100ce15..6128e6f 100644
--- a/src/corrct/testing.py
+++ b/src/corrct/testing.py
@@ -386,7 +386,7 @@ def create_sino(
     detector_solidangle_sr = (2.4 / 2 / 16 / 2) ** 2
 
     if vol_att_in is None and vol_att_out is None:
-        with projectors.ProjectorUncorrected(ph.shape, angles_rad) as p:
+        with projectors.ProjectorUncorrected(ph.shape, angles_rad, psf=psf) as p:
             sino = p.fp(ph)
     else:
         with projectors.ProjectorAttenuationXRF(
-- 
2.43.0


From b66bda6be1608066a5b9820a9fe9492fcc77f69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:55 +0000
Subject: [PATCH 080/112] fix: a detector at angle zero is not taken for no
 detector by the phantoms of materials

---
 src/corrct/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/testing.py b/src/corrct/testing.py
index 6128e6f..f0314fd 100644
--- a/src/corrct/testing.py
+++ b/src/corrct/testing.py
@@ -256,7 +256,7 @@ def phantom_assign_concentration_multi(
         out_energy_keV, vol_yield[ii] = phantom.get_fluo_production(el, in_energy_keV, line)
         vol_lin_att_out[ii] = phantom.get_attenuation(out_energy_keV)
 
-    if detectors_pos_rad:
+    if detectors_pos_rad is not None:
         out_energy_keV, vol_yield[-1] = phantom.get_compton_scattering(in_energy_keV, angle_rad=detectors_pos_rad)
         vol_lin_att_out[-1] = phantom.get_attenuation(out_energy_keV)
 
-- 
2.43.0


From 11372707ffae2843e980ee6c24cead2cd601d25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:55 +0000
Subject: [PATCH 081/112] fix: denoising with asymmetric PSFs uses the adjoint
 of the convolution

---
 src/corrct/denoisers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/denoisers.py b/src/corrct/denoisers.py
index 4d115b4..8fb223c 100644
--- a/src/corrct/denoisers.py
+++ b/src/corrct/denoisers.py
@@ -92,7 +92,7 @@ def denoise_image(
     if psf is None:
         op = operators.TransformIdentity(img.shape)
     else:
-        op = operators.TransformConvolution(img.shape, psf)
+        op = operators.TransformConvolution(img.shape, psf, flip_adjoint=True)
 
     if pix_weights is None:
         data_term = data_terms.DataFidelity_l2()
-- 
2.43.0


From f230b0f4693444fe3db3208dfbc12c3bda589577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:37 +0000
Subject: [PATCH 082/112] fix: the ASTRA backend does not account twice for the
 voxel size

---
 src/corrct/_projector_backends.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/corrct/_projector_backends.py b/src/corrct/_projector_backends.py
index e8dc783..4301901 100644
--- a/src/corrct/_projector_backends.py
+++ b/src/corrct/_projector_backends.py
@@ -479,8 +479,6 @@ class ProjectorBackendASTRA(ProjectorBackend):
 
             geom_type_str = prj_geom.geom_type[:-2]
 
-        vectors /= vol_geom.vox_size
-
         if self.has_individual_projs:
             self.proj_geom_ind = [
                 astra.create_proj_geom(geom_type_str + "_vec", *prj_geom.det_shape_vu, vectors[ii : ii + 1 :, :])
-- 
2.43.0


From b41ff781059c9b69787d43bfdde22690d97332fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:37 +0000
Subject: [PATCH 083/112] fix: the ASTRA backend does not change the projection
 geometry of the caller

---
 src/corrct/_projector_backends.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/corrct/_projector_backends.py b/src/corrct/_projector_backends.py
index 4301901..dde7416 100644
--- a/src/corrct/_projector_backends.py
+++ b/src/corrct/_projector_backends.py
@@ -434,6 +434,8 @@ class ProjectorBackendASTRA(ProjectorBackend):
             self.astra_vol_geom = astra.create_vol_geom(*vol_geom.shape_xyz[list([1, 0, 2])], *self.vol_geom.extent)
             if prj_geom is None:
                 prj_geom = ProjectionGeometry.get_default_parallel(geom_type="3d", rot_axis_shift_pix=rot_axis_shift_pix)
+            else:
+                prj_geom = prj_geom.copy()
 
             if prj_geom.det_shape_vu is None:
                 prj_geom.det_shape_vu = np.array(self.prj_shape_vwu[list([-3, -1])], dtype=int)
@@ -459,6 +461,8 @@ class ProjectorBackendASTRA(ProjectorBackend):
             self.astra_vol_geom = astra.create_vol_geom(*vol_geom.shape_xyz[list([1, 0])], *self.vol_geom.extent)
             if prj_geom is None:
                 prj_geom = ProjectionGeometry.get_default_parallel(geom_type="2d", rot_axis_shift_pix=rot_axis_shift_pix)
+            else:
+                prj_geom = prj_geom.copy()
 
             if prj_geom.det_shape_vu is None:
                 prj_geom.det_shape_vu = np.array(self.prj_shape_vwu[list([-1])], dtype=int)
-- 
2.43.0


From 1fe0f552081fd1cefa82ed2c0247af93ed6d6b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:37 +0000
Subject: [PATCH 084/112] fix: the ASTRA backends back-project single
 projections in 3D

---
 src/corrct/_projector_backends.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/corrct/_projector_backends.py b/src/corrct/_projector_backends.py
index dde7416..e9c1657 100644
--- a/src/corrct/_projector_backends.py
+++ b/src/corrct/_projector_backends.py
@@ -554,7 +554,11 @@ class ProjectorBackendASTRA(ProjectorBackend):
     def _check_prj_shape(self, prj: NDArray) -> None:
         inds_vu = [ind for ind in range(-len(self.prj_shape_vu), 0) if self.prj_shape_vu[ind] > 1]
         expected_prj_shape_vu = self.prj_shape_vu[inds_vu]
-        given_prj_shape_vu = np.array(prj.shape)[inds_vu]
+        given_prj_shape_vwu = np.array(prj.shape)
+        if len(given_prj_shape_vwu) < len(self.prj_shape_vu):
+            # Single projections come without the angle axis
+            given_prj_shape_vwu = np.insert(given_prj_shape_vwu, -1, 1)
+        given_prj_shape_vu = given_prj_shape_vwu[inds_vu]
         if np.any(given_prj_shape_vu != expected_prj_shape_vu):
             raise ValueError(
                 f"Expected prj shape (VU: {expected_prj_shape_vu} - likely inferred from `vol_geom`),"
-- 
2.43.0


From 9fcb5f8e42c698e249266f597535498b5ae3d987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:47 +0000
Subject: [PATCH 085/112] fix: projections of the ASTRA backend have the
 announced shape, also with one angle or one row

---
 src/corrct/_projector_backends.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/_projector_backends.py b/src/corrct/_projector_backends.py
index e9c1657..4476b5c 100644
--- a/src/corrct/_projector_backends.py
+++ b/src/corrct/_projector_backends.py
@@ -625,7 +625,7 @@ class ProjectorBackendASTRA(ProjectorBackend):
         finally:
             self.data_mod.delete([vid])
 
-        return np.squeeze(prj)
+        return prj if angle_ind is None else np.squeeze(prj, axis=-2)
 
     def bp(self, prj: NDArray, angle_ind: int | None = None) -> NDArray:
         """Apply back-projection of a single sinogram line to the volume.
-- 
2.43.0


From 14d2306bff9cc9649573ce6fd2649e1f7b3e85f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:47 +0000
Subject: [PATCH 086/112] fix: single projections of the direct ASTRA backend
 are lines in 2D

---
 src/corrct/_projector_backends.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/_projector_backends.py b/src/corrct/_projector_backends.py
index 4476b5c..4a0371f 100644
--- a/src/corrct/_projector_backends.py
+++ b/src/corrct/_projector_backends.py
@@ -779,7 +779,7 @@ class ProjectorBackendDirectASTRA(ProjectorBackendASTRA):
         self.astra_vol_shape = tuple(vol_geom_tmp3d.shape_zxy)
         self.astra_prj_shape = (prj_geom.det_shape_vu[-2], num_angles, prj_geom.det_shape_vu[-1])
         self.astra_angle_prj_shape = (prj_geom.det_shape_vu[-2], 1, prj_geom.det_shape_vu[-1])
-        self.angle_prj_shape = (prj_geom.det_shape_vu[-2], prj_geom.det_shape_vu[-1])
+        self.angle_prj_shape = (*self.prj_shape_vwu[:-2], self.prj_shape_vwu[-1])
 
     def make_ready(self):
         """Initialize the ASTRA projectors."""
-- 
2.43.0


From d60fb59a14ca082ee01fe7435b45bae0f2d986c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:47 +0000
Subject: [PATCH 087/112] fix: ASTRA projectors are released when their
 geometry is initialized again

---
 src/corrct/_projector_backends.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/corrct/_projector_backends.py b/src/corrct/_projector_backends.py
index 4a0371f..cdca38d 100644
--- a/src/corrct/_projector_backends.py
+++ b/src/corrct/_projector_backends.py
@@ -385,6 +385,7 @@ class ProjectorBackendASTRA(ProjectorBackend):
         """
         super().__init__()
         self.super_sampling = super_sampling
+        self.proj_id = []
 
     def initialize_geometry(
         self,
@@ -425,7 +426,6 @@ class ProjectorBackendASTRA(ProjectorBackend):
 
         super().initialize_geometry(vol_geom, angles_rot_rad, create_single_projs=create_single_projs)
 
-        self.proj_id = []
         self.dispose()
 
         num_angles = self.angles_w_rad.size
@@ -730,7 +730,6 @@ class ProjectorBackendDirectASTRA(ProjectorBackendASTRA):
 
         ProjectorBackend.initialize_geometry(self, vol_geom, angles_rot_rad, create_single_projs=create_single_projs)
 
-        self.proj_id = []
         self.dispose()
 
         num_angles = self.angles_w_rad.size
-- 
2.43.0


From c0664f91da111a8130ccfb7192162b21099101b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:47 +0000
Subject: [PATCH 088/112] fix: ASTRA projectors are released when the creation
 of one of them fails

---
 src/corrct/_projector_backends.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/corrct/_projector_backends.py b/src/corrct/_projector_backends.py
index cdca38d..36b3e5d 100644
--- a/src/corrct/_projector_backends.py
+++ b/src/corrct/_projector_backends.py
@@ -531,15 +531,19 @@ class ProjectorBackendASTRA(ProjectorBackend):
             pixel_sampling = int(self.super_sampling / np.fmin(1, self.vol_geom.vox_size))
             opts = {"VoxelSuperSampling": voxel_sampling, "DetectorSuperSampling": pixel_sampling}
 
-            if self.has_individual_projs:
-                self.proj_id = [
-                    astra.create_projector(projector_type, pg, self.astra_vol_geom, opts) for pg in self.proj_geom_ind
-                ]
-
-            self.proj_id.append(astra.create_projector(projector_type, self.proj_geom_all, self.astra_vol_geom, opts))
+            self._create_projectors(projector_type, opts)
 
         super().make_ready()
 
+    def _create_projectors(self, projector_type: str, opts: Mapping) -> None:
+        prj_geoms = [*self.proj_geom_ind, self.proj_geom_all] if self.has_individual_projs else [self.proj_geom_all]
+        try:
+            for prj_geom in prj_geoms:
+                self.proj_id.append(astra.create_projector(projector_type, prj_geom, self.astra_vol_geom, opts))
+        except Exception:
+            self.dispose()
+            raise
+
     def _check_data(self, x: NDArray, expected_shape: Sequence[int] | NDArray[np.integer]) -> NDArray:
         if x.dtype != np.float32:
             x = x.astype(np.float32)
@@ -787,10 +791,7 @@ class ProjectorBackendDirectASTRA(ProjectorBackendASTRA):
             pixel_sampling = int(self.super_sampling / np.fmin(1, self.vol_geom.vox_size))
             opts = {"VoxelSuperSampling": voxel_sampling, "DetectorSuperSampling": pixel_sampling}
 
-            if self.has_individual_projs:
-                self.proj_id = [astra.create_projector("cuda3d", pg, self.astra_vol_geom, opts) for pg in self.proj_geom_ind]
-
-            self.proj_id.append(astra.create_projector("cuda3d", self.proj_geom_all, self.astra_vol_geom, opts))
+            self._create_projectors("cuda3d", opts)
 
         ProjectorBackend.make_ready(self)
 
-- 
2.43.0


From 2175b9c8e6714eefc58938249eaa70d5144f48ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:19 +0000
Subject: [PATCH 089/112] fix: cone-beam geometries fitted earlier are not
 changed by later fits

---
 src/corrct/alignment/cone_beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/cone_beam.py b/src/corrct/alignment/cone_beam.py
index b50d9fd..5575cbc 100644
--- a/src/corrct/alignment/cone_beam.py
+++ b/src/corrct/alignment/cone_beam.py
@@ -551,7 +551,7 @@ class FitConeBeamGeometry:
             print(f"- Polar angle of the detector (phi deg): {self.acq_geom.phi_deg}")
             print(f"- Azimuthal angle of the detector (theta deg): {self.acq_geom.theta_deg}")
 
-        return self.acq_geom
+        return dc_replace(self.acq_geom)
 
     @staticmethod
     def _fit_distance_det2src(ellipse_1: Ellipse, ellipse_2: Ellipse, e: float = 1) -> float:
-- 
2.43.0


From 43d48f926d804bd35fe2bf6cf42df5fdde4fb4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:19 +0000
Subject: [PATCH 090/112] fix: the projected origin belongs to the last fitted
 cone-beam geometry

---
 src/corrct/alignment/cone_beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/cone_beam.py b/src/corrct/alignment/cone_beam.py
index 5575cbc..5cf6b65 100644
--- a/src/corrct/alignment/cone_beam.py
+++ b/src/corrct/alignment/cone_beam.py
@@ -527,7 +527,7 @@ class FitConeBeamGeometry:
         if np.isnan(self.acq_geom.R_pix) or np.isclose(self.acq_geom.R_pix, 0.0):
             raise ValueError(f"The computed source-origin distance is invalid ({self.acq_geom.R_pix})")
 
-        if self.prj_origin_vu is None:
+        if self.points_axis is None:
             self.prj_origin_vu = (-z2 * self.ell1_prj_c_vu + z1 * self.ell2_prj_c_vu) / z_full
             if self.verbose:
                 print(f"- Projected origin on the detector: {self.prj_origin_vu} [pix]")
-- 
2.43.0


From 4cd84f0caf41c4703975074af346d4c531e1c0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:44 +0000
Subject: [PATCH 091/112] fix: solvers give numbers when the masks leave
 nothing of the data or of the volume

---
 src/corrct/solvers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/corrct/solvers.py b/src/corrct/solvers.py
index 8cc4501..9656ea1 100644
--- a/src/corrct/solvers.py
+++ b/src/corrct/solvers.py
@@ -102,7 +102,7 @@ def compute_diagonal_scaling(
     tau = np.abs(At_abs(b_ones))
     for reg in regs:
         tau += reg.initialize_sigma_tau(tau)
-    tau[(tau / np.max(tau)) < 1e-5] = 1
+    tau[tau <= np.max(tau) * 1e-5] = 1
     tau = relaxation_tau / tau
 
     # Forward-projection diagonal re-scaling
@@ -111,7 +111,7 @@ def compute_diagonal_scaling(
     if x_mask is not None:
         x_ones *= x_mask
     sigma = np.abs(A_abs(x_ones))
-    sigma[(sigma / np.max(sigma)) < 1e-5] = 1.0
+    sigma[sigma <= np.max(sigma) * 1e-5] = 1.0
     sigma = relaxation_sigma / sigma
 
     return sigma, tau, tau.shape, tau.dtype
@@ -576,7 +576,7 @@ class SART(Solver):
             b_ones *= b_mask
         tau = [At(b_ones[..., ii, :], ii) for ii in range(A_num_rows)]
         tau = np.abs(np.stack(tau, axis=-2))
-        tau[(tau / np.max(tau)) < 1e-5] = 1
+        tau[tau <= np.max(tau) * 1e-5] = 1
         tau = self.relaxation / tau
 
         # Forward-projection diagonal re-scaling
@@ -585,7 +585,7 @@ class SART(Solver):
             x_ones *= x_mask
         sigma = [A(x_ones, ii) for ii in range(A_num_rows)]
         sigma = np.abs(np.stack(sigma, axis=-2))
-        sigma[(sigma / np.max(sigma)) < 1e-5] = 1
+        sigma[sigma <= np.max(sigma) * 1e-5] = 1
         sigma = 1 / sigma
 
         if x0 is None:
@@ -738,14 +738,14 @@ class MLEM(Solver):
         if b_mask is not None:
             b_ones *= b_mask
         tau = A.T(b_ones)
-        tau[(tau / np.max(tau)) < 1e-5] = 1
+        tau[tau <= np.max(tau) * 1e-5] = 1
 
         # Forward-projection diagonal re-scaling
         x_ones = np.ones_like(tau)
         if x_mask is not None:
             x_ones *= x_mask
         sigma = np.abs(A(x_ones))
-        sigma[(sigma / np.max(sigma)) < 1e-5] = 1
+        sigma[sigma <= np.max(sigma) * 1e-5] = 1
         sigma = 1 / sigma
 
         if x0 is None:
-- 
2.43.0


From 57a583d3ea4d3a4edbf3c4be3e81ac597bc2c263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:04 +0000
Subject: [PATCH 092/112] fix: l12 wavelet regularizers do not group the
 approximation coefficients along an axis of the volume

---
 src/corrct/regularizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 8dc856e..c5f36dc 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -988,7 +988,8 @@ class Regularizer_dwl(BaseRegularizer):
                 for ii, lab in enumerate(labels):
                     c_l[lab] = c_ll[ii]
                 coeffs[ii_l] = c_l
-            self.norm.apply_proximal_dual(coeffs[0], self.weight)
+            # Each approximation coefficient is on its own
+            self.norm.apply_proximal_dual(coeffs[0][None, ...], self.weight)
             dual[:] = pywt.coeffs_to_array(coeffs)[0]
         else:
             super().apply_proximal_dual(dual)
-- 
2.43.0


From 7118e4f2778cf64bec92e3016b8361f540bdf78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:04 +0000
Subject: [PATCH 093/112] fix: reference channels of the nuclear-norm and
 vectorial wavelet regularizers count

---
 src/corrct/regularizers.py | 73 ++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 35 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index c5f36dc..5f75212 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -1346,18 +1346,22 @@ class Regularizer_TNV(Regularizer_Grad):
         # Here we assume that the channels will be the rows and the derivatives the columns
         self.norm = dt.DataFidelity_ln(ln_axes=(1, 0), spectral_norm=spectral_norm)
         self.x_ref = x_ref
+        if x_ref is not None:
+            self.initialize_sigma_tau(x_ref)
+            q_ref = self.initialize_dual()
+            self.update_dual(q_ref, x_ref)
+            self.q_ref = np.expand_dims(q_ref, axis=1) if x_ref.ndim == self.ndims else q_ref
+        else:
+            self.q_ref = None
 
-    def initialize_sigma_tau(self, primal: NDArray) -> float | NDArray:
-        tau = super().initialize_sigma_tau(primal)
-
-        if self.x_ref is not None:
-            if self.op is None:
-                raise ValueError("Regularizer should have been initialized... this is a bug!")
-
-            self.q_ref = self.op(self.x_ref)
-            self.q_ref = np.expand_dims(self.q_ref, axis=1)
-
-        return tau
+    def apply_proximal_dual(self, dual: NDArray) -> None:
+        if self.q_ref is None:
+            super().apply_proximal_dual(dual)
+        else:
+            # The reference is an additional channel
+            dual_tmp = np.concatenate((dual, self.q_ref), axis=1)
+            super().apply_proximal_dual(dual_tmp)
+            dual[:] = dual_tmp[:, : dual.shape[1]]
 
 
 class Regularizer_VTV(Regularizer_Grad):
@@ -1479,18 +1483,22 @@ class Regularizer_lnswl(Regularizer_l1swl):
 
         self.norm = dt.DataFidelity_ln(ln_axes=(1, 0), spectral_norm=spectral_norm)
         self.x_ref = x_ref
+        if x_ref is not None:
+            self.initialize_sigma_tau(x_ref)
+            q_ref = self.initialize_dual()
+            self.update_dual(q_ref, x_ref)
+            self.q_ref = np.expand_dims(q_ref, axis=1) if x_ref.ndim == self.ndims else q_ref
+        else:
+            self.q_ref = None
 
-    def initialize_sigma_tau(self, primal: NDArray) -> float | NDArray:
-        tau = super().initialize_sigma_tau(primal)
-
-        if self.x_ref is not None:
-            if self.op is None:
-                raise ValueError("Regularizer should have been initialized... this is a bug!")
-
-            self.q_ref = self.op(self.x_ref)
-            self.q_ref = np.expand_dims(self.q_ref, axis=1)
-
-        return tau
+    def apply_proximal_dual(self, dual: NDArray) -> None:
+        if self.q_ref is None:
+            super().apply_proximal_dual(dual)
+        else:
+            # The reference is an additional channel
+            dual_tmp = np.concatenate((dual, self.q_ref), axis=1)
+            super().apply_proximal_dual(dual_tmp)
+            dual[:] = dual_tmp[:, : dual.shape[1]]
 
 
 class Regularizer_vl1wl(Regularizer_l1swl):
@@ -1534,7 +1542,13 @@ class Regularizer_vl1wl(Regularizer_l1swl):
             self._raise_pwise_norm_error()
 
         self.x_ref = x_ref
-        self.q_ref = None
+        if x_ref is not None:
+            self.initialize_sigma_tau(x_ref)
+            q_ref = self.initialize_dual()
+            self.update_dual(q_ref, x_ref)
+            self.q_ref = np.expand_dims(q_ref, axis=1) if x_ref.ndim == self.ndims else q_ref
+        else:
+            self.q_ref = None
 
     def _raise_pwise_norm_error(self):
         raise ValueError(
@@ -1542,17 +1556,6 @@ class Regularizer_vl1wl(Regularizer_l1swl):
             + f" Provided the following instead: level={self.pwise_lvl_norm}, channel={self.pwise_chan_norm}"
         )
 
-    def initialize_sigma_tau(self, primal: NDArray) -> float | NDArray:
-        tau = super().initialize_sigma_tau(primal)
-
-        if self.x_ref is not None:
-            if self.op is None:
-                raise ValueError("Regularizer should have been initialized... this is a bug!")
-
-            self.q_ref = self.op(self.x_ref)
-
-        return tau
-
     def apply_proximal_dual(self, dual: NDArray) -> None:
         dual_tmp = dual.copy()
 
@@ -1582,7 +1585,7 @@ class Regularizer_vl1wl(Regularizer_l1swl):
         dual_tmp *= self.weight
 
         if self.q_ref is not None:
-            dual_tmp = dual_tmp[:, : dual_tmp.shape[0] - 1 :, ...]
+            dual_tmp = dual_tmp[:, : dual.shape[1], ...]
 
         dual[:] = dual_tmp[:]
 
-- 
2.43.0


From 721ad7cc8444f32814787a89866de8c20e47f934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:21 +0000
Subject: [PATCH 094/112] fix: l12 decimated wavelet regularizers work over
 some of the axes

---
 src/corrct/regularizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 5f75212..93490e5 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -990,7 +990,7 @@ class Regularizer_dwl(BaseRegularizer):
                 coeffs[ii_l] = c_l
             # Each approximation coefficient is on its own
             self.norm.apply_proximal_dual(coeffs[0][None, ...], self.weight)
-            dual[:] = pywt.coeffs_to_array(coeffs)[0]
+            dual[:] = pywt.coeffs_to_array(coeffs, axes=op_wl.axes)[0]
         else:
             super().apply_proximal_dual(dual)
 
-- 
2.43.0


From 837503595482ae05577610b33d20f30a3f8bf04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:03 +0000
Subject: [PATCH 095/112] fix: destripe_wlf_vwu filters along any angle axis,
 and not only along the last but one

---
 src/corrct/processing/pre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index 7ac72fd..f41ec83 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -443,7 +443,7 @@ def destripe_wlf_vwu(
                 continue
             coeff_f = np.fft.rfft(coeffs_l_wl, axis=angle_axis)
             filt_f = 1 - np.exp(-(np.fft.rfftfreq(coeffs_l_wl.shape[angle_axis]) ** 2) / (2 * sigma**2))
-            coeff_f *= filt_f[:, None]
+            coeff_f *= filt_f.reshape([-1, *np.ones(coeff_f.ndim - 1 - angle_axis % coeff_f.ndim, dtype=int)])
             coeffs[ii_l][wl_label] = np.fft.irfft(coeff_f, axis=angle_axis, n=coeffs_l_wl.shape[angle_axis])
 
     data = pywt.iswtn(coeffs, wavelet=wavelet, axes=other_axes)
-- 
2.43.0


From 71ed8b6be0cac5146a7d89270dbaefe6fd31db50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:03 +0000
Subject: [PATCH 096/112] fix: destripe_wlf_vwu leaves the angle axis out of
 the axes of the wavelet decomposition

---
 src/corrct/processing/pre.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index f41ec83..e9a4d1e 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -422,10 +422,10 @@ def destripe_wlf_vwu(
     if other_axes is None:
         other_axes = np.arange(-data.ndim, 0)
     else:
-        other_axes = np.array(other_axes)
+        other_axes = np.array(other_axes, ndmin=1)
 
-    if angle_axis is other_axes:
-        other_axes = np.delete(other_axes, angle_axis)
+    # The wavelet decomposition should not involve the angles, which are filtered in Fourier space
+    other_axes = other_axes[other_axes % data.ndim != angle_axis % data.ndim]
 
     level_power = 2**level
 
-- 
2.43.0


From f63472dd6c6c2261401587996dfb234f80553b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:40 +0000
Subject: [PATCH 097/112] fix: compute_frc supersamples stacks along the axes
 of the images only

---
 src/corrct/processing/post.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/corrct/processing/post.py b/src/corrct/processing/post.py
index 65f13ae..3eada4b 100644
--- a/src/corrct/processing/post.py
+++ b/src/corrct/processing/post.py
@@ -196,8 +196,10 @@ def compute_frc(
         img2 = img2.astype(img1.dtype)
 
     if supersampling > 1:
-        img1 = zoom(img1, zoom=supersampling, order=5)
-        img2 = zoom(img2, zoom=supersampling, order=5)
+        zoom_factors = np.ones(len(img1_shape))
+        zoom_factors[list(axes)] = supersampling
+        img1 = zoom(img1, zoom=zoom_factors, order=5)
+        img2 = zoom(img2, zoom=zoom_factors, order=5)
 
         img1_shape = np.array(img1.shape)
 
-- 
2.43.0


From 72bbe0d846ec8a4fa36406a92d530c5b79347712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:35 +0000
Subject: [PATCH 098/112] fix: get_linear_attenuation_coefficient does not
 change the density of the given compound

---
 src/corrct/physics/attenuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/physics/attenuation.py b/src/corrct/physics/attenuation.py
index a5b0db4..0f700b8 100644
--- a/src/corrct/physics/attenuation.py
+++ b/src/corrct/physics/attenuation.py
@@ -356,7 +356,7 @@ def get_linear_attenuation_coefficient(
         compound = get_compound(compound)
 
     if density is not None:
-        compound["density"] = density
+        compound = {**compound, "density": density}
 
     cmp_cs = get_compound_cross_section(compound, energy_keV)
     return pixel_size_um * CONVERT_UM_TO_CM * compound["density"] * cmp_cs
-- 
2.43.0


From 843bd97ca52e5401aa318d51155e0da8e35a8472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:00 +0000
Subject: [PATCH 099/112] fix: fit_image_rotation_and_scale takes the polar
 coordinates about the zero frequency, also for odd sizes

---
 src/corrct/alignment/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index e67db69..6e0d840 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -325,7 +325,7 @@ def fit_image_rotation_and_scale(
     img_fft_2 = np.abs(np.fft.fftshift(img_fft_2, axes=axes))
 
     # transform to polar coordinates
-    img_center = [s - s // 2 for s in img_shape]
+    img_center = [s // 2 for s in img_shape]
     radius = min([s // 2 for s in img_shape])
     img_fft_1_p = warp_polar(img_fft_1, center=img_center, scaling="log", radius=radius)
     img_fft_2_p = warp_polar(img_fft_2, center=img_center, scaling="log", radius=radius)
-- 
2.43.0


From 74c7446ff8f79f9cc0eed0977093da7f83263f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:00 +0000
Subject: [PATCH 100/112] fix: fit_image_rotation_and_scale finds the rotation
 of images that are not square

---
 src/corrct/alignment/fitting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/corrct/alignment/fitting.py b/src/corrct/alignment/fitting.py
index 6e0d840..9362642 100644
--- a/src/corrct/alignment/fitting.py
+++ b/src/corrct/alignment/fitting.py
@@ -317,8 +317,10 @@ def fit_image_rotation_and_scale(
 
     img_win = window(window_type=window_type, shape=img_shape)
 
-    img_fft_1 = np.fft.fft2(img_1_vu * img_win, axes=axes)
-    img_fft_2 = np.fft.fft2(img_2_vu * img_win, axes=axes)
+    # polar coordinates need the same frequency spacing along both axes
+    img_shape = (max(img_shape),) * len(axes)
+    img_fft_1 = np.fft.fft2(img_1_vu * img_win, s=img_shape, axes=axes)
+    img_fft_2 = np.fft.fft2(img_2_vu * img_win, s=img_shape, axes=axes)
 
     # abs removes the translation component
     img_fft_1 = np.abs(np.fft.fftshift(img_fft_1, axes=axes))
-- 
2.43.0


From 80dce1f2915a3ea8acd2aef98e35a448f23b330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:57 +0000
Subject: [PATCH 101/112] fix: fit_func_min can plot a fit on a linear scale

---
 src/corrct/param_tuning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/corrct/param_tuning.py b/src/corrct/param_tuning.py
index c0b4533..adb0f92 100644
--- a/src/corrct/param_tuning.py
+++ b/src/corrct/param_tuning.py
@@ -344,7 +344,8 @@ def fit_func_min(
 
     if plot_result:
         fig, axs = plt.subplots()
-        axs.set_xscale(scale, nonpositive="clip")
+        if scale.lower() == "log":
+            axs.set_xscale("log", nonpositive="clip")
         if f_stds is None:
             axs.plot(hp_vals, f_vals)
         else:
-- 
2.43.0


From 458b013da3813c34fb58f92e1cc4acb9782a6cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:57 +0000
Subject: [PATCH 102/112] fix: compute_reconstruction_error can plot the errors

---
 src/corrct/param_tuning.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/corrct/param_tuning.py b/src/corrct/param_tuning.py
index adb0f92..12c677d 100644
--- a/src/corrct/param_tuning.py
+++ b/src/corrct/param_tuning.py
@@ -861,12 +861,13 @@ class BaseParameterTuning(ABC):
             axs[1].set_xscale("log", nonpositive="clip")  # type: ignore
             axs[1].plot(hp_vals, err_l2, label="Error - l2-norm ^ 2")  # type: ignore
             axs[1].legend()  # type: ignore
-            for tl in axs.get_xticklabels():
-                tl.set_fontsize(13)
-            for tl in axs.get_yticklabels():
-                tl.set_fontsize(13)
-            axs.set_xlabel(r"$\lambda$ values", fontsize=16)
-            axs.yaxis.set_major_formatter(StrMethodFormatter("{x:.1e}"))
+            for ax in axs:  # type: ignore
+                for tl in ax.get_xticklabels():
+                    tl.set_fontsize(13)
+                for tl in ax.get_yticklabels():
+                    tl.set_fontsize(13)
+                ax.yaxis.set_major_formatter(StrMethodFormatter("{x:.1e}"))
+            axs[-1].set_xlabel(r"$\lambda$ values", fontsize=16)  # type: ignore
             fig.tight_layout()
             plt.show(block=False)
 
-- 
2.43.0


From 651f3c3fdc781f7424438678e9fb74e57237b084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:57 +0000
Subject: [PATCH 103/112] fix: plot_filter_responses plots filters of odd
 length in direct space

---
 src/corrct/physics/phase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/physics/phase.py b/src/corrct/physics/phase.py
index 5a3ae8f..da029f7 100644
--- a/src/corrct/physics/phase.py
+++ b/src/corrct/physics/phase.py
@@ -125,8 +125,8 @@ def plot_filter_responses(
     if domain.lower() == "fourier":
         step = k
     elif domain.lower() == "direct":
-        tie_resp = np.fft.fftshift(np.fft.irfft(tie_resp))
-        ctf_resp = np.fft.fftshift(np.fft.irfft(ctf_resp))
+        tie_resp = np.fft.fftshift(np.fft.irfft(tie_resp, n=filter_length))
+        ctf_resp = np.fft.fftshift(np.fft.irfft(ctf_resp, n=filter_length))
         p = np.fft.fftfreq(filter_length, d=1.0 / (pix_size_um * filter_length))
         p = np.fft.fftshift(p)
         step = p
-- 
2.43.0


From e6d197ff305f01f86aa4091f7ec79a58fbca1c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:17 +0000
Subject: [PATCH 104/112] fix: fit_scale_bias fits data of any magnitude, not
 only until an absolute gradient tolerance

---
 src/corrct/processing/post.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/corrct/processing/post.py b/src/corrct/processing/post.py
index 3eada4b..9c35d9e 100644
--- a/src/corrct/processing/post.py
+++ b/src/corrct/processing/post.py
@@ -16,7 +16,6 @@ from matplotlib.axes._axes import Axes
 from matplotlib.figure import Figure
 from numpy.typing import ArrayLike, NDArray
 from scipy.ndimage import convolve, zoom
-from scipy.optimize import minimize
 from scipy.signal.windows import hann
 from scipy.special import gamma
 from tqdm.auto import tqdm
@@ -447,19 +446,12 @@ def fit_scale_bias(img_data: NDArray, prj_data: NDArray, prj: BaseTransform | No
 
     prj_x = prj(img_data)
     prj_1 = prj(np.ones_like(img_data))
-    m_y_dot_prj_x = -float(np.sum(prj_data * prj_x))
-    m_y_dot_prj_1 = -float(np.sum(prj_data * prj_1))
-    prj_x_2 = float(np.sum(prj_x**2))
-    prj_1_2 = float(np.sum(prj_1**2))
-    prj_1_dot_prj_x = float(np.sum(prj_1 * prj_x))
-
-    def obj_func(ab: NDArray) -> tuple[float, NDArray]:
-        a = float(ab[0])
-        b = float(ab[1])
-        residual = prj(img_data * a + b) - prj_data
-        grad_a = m_y_dot_prj_x + prj_x_2 * a + prj_1_dot_prj_x * b
-        grad_b = m_y_dot_prj_1 + prj_1_2 * b + prj_1_dot_prj_x * a
-        return float(np.linalg.norm(residual, ord=2) ** 2) / 2, np.array((grad_a, grad_b))
-
-    opt_res = minimize(obj_func, [1.0, 0.0], jac=True)
-    return float(opt_res.x[0]), float(opt_res.x[1])
+
+    # Normalized columns: the fit does not depend on the units of the image and of the data
+    basis = np.stack((np.ravel(prj_x), np.ravel(prj_1)), axis=-1).astype(float)
+    norms = np.linalg.norm(basis, axis=0)
+    norms[norms == 0] = 1
+
+    residual = np.ravel(prj_data).astype(float) - basis[:, 0]
+    delta = np.linalg.lstsq(basis / norms, residual, rcond=None)[0] / norms
+    return 1.0 + float(delta[0]), float(delta[1])
-- 
2.43.0


From 8dc74312606377c588ebc054ff92820a2abfc7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:39 +0000
Subject: [PATCH 105/112] fix: Regularizer_l12swl groups the details of each
 level, instead of mixing levels

---
 src/corrct/regularizers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 93490e5..2c56538 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -695,9 +695,10 @@ class Regularizer_swl(BaseRegularizer):
 
     def apply_proximal_dual(self, dual: NDArray) -> None:
         if isinstance(self.norm, dt.DataFidelity_l12):
+            # The details are stored level by level: each level is a separate group
             tmp_dual = dual[1:]
-            tmp_dual = tmp_dual.reshape([-1, self.level, *dual.shape[1:]])
-            self.norm.apply_proximal_dual(tmp_dual, self.weight)
+            for dual_lvl in tmp_dual.reshape([self.level, -1, *dual.shape[1:]]):
+                self.norm.apply_proximal_dual(dual_lvl, self.weight)
             tmp_dual = dual[0:1:]
             self.norm.apply_proximal_dual(tmp_dual, self.weight)
         else:
-- 
2.43.0


From cbf5066d9e1be00a52c1410c178f973e9a8745d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:38 +0000
Subject: [PATCH 106/112] fix: Regularizer_dwl scales each detail band with its
 own multiplier, not with the one of the previous band

---
 src/corrct/regularizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 2c56538..16d2742 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -934,7 +934,7 @@ class Regularizer_dwl(BaseRegularizer):
         # self.rec_func_mult = self.dec_func_mult
 
         tmp_sigma = [np.ones(self.op.sub_band_shapes[0], self.dtype) * self.dec_func_mult[0]]
-        count = 0
+        count = 1  # The first multiplier is the one of the approximation
         for ii_l in range(self.level):
             d = {}
             for label in self.op.sub_band_shapes[ii_l + 1].keys():
-- 
2.43.0


From e42b4a596f823ee583d0146c7f3148447c61ed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:01 +0000
Subject: [PATCH 107/112] fix: ProjectorAttenuationXRF refuses more detector
 weights than detectors, also for one detector

---
 src/corrct/projectors.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/corrct/projectors.py b/src/corrct/projectors.py
index 98fd614..e5543cf 100755
--- a/src/corrct/projectors.py
+++ b/src/corrct/projectors.py
@@ -443,14 +443,13 @@ class ProjectorAttenuationXRF(ProjectorUncorrected):
         self.weights_det = np.array(weights_detectors, ndmin=1)
 
         num_det_weights = len(self.weights_det)
-        if num_det_angles > 1:
-            if num_det_weights == 1:
-                self.weights_det = np.tile(self.weights_det, [num_det_angles])
-            elif num_det_weights > 1 and not num_det_weights == num_det_angles:
-                raise ValueError(
-                    "Number of detector weights differs from number of"
-                    f" detector angles: {num_det_weights} vs {num_det_angles}"
-                )
+        if num_det_weights == 1:
+            self.weights_det = np.tile(self.weights_det, [num_det_angles])
+        elif num_det_weights != num_det_angles:
+            raise ValueError(
+                "Number of detector weights differs from number of"
+                f" detector angles: {num_det_weights} vs {num_det_angles}"
+            )
 
         if weights_angles is None:
             weights_angles = np.ones((len(self.angles_rot_rad), num_det_angles))
-- 
2.43.0


From 2991248f8df0669a54b6bd07f5849f2746e77260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:01 +0000
Subject: [PATCH 108/112] fix: Regularizer_vl1wl refuses the primal proximal of
 norms that couple levels or channels, instead of applying another norm's

---
 src/corrct/regularizers.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 16d2742..3d4117c 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -1557,6 +1557,28 @@ class Regularizer_vl1wl(Regularizer_l1swl):
             + f" Provided the following instead: level={self.pwise_lvl_norm}, channel={self.pwise_chan_norm}"
         )
 
+    def apply_proximal_primal(self, primal: NDArray, tau: float | NDArray) -> None:
+        """Apply the primal proximal, when the coefficients are independent of each other.
+
+        Parameters
+        ----------
+        primal : NDArray
+            The primal variable to update in-place.
+        tau : float | NDArray
+            The proximal step size.
+
+        Raises
+        ------
+        NotImplementedError
+            When the point-wise norms couple the levels or the channels.
+        """
+        if self.pwise_lvl_norm != 1 or self.pwise_chan_norm != 1:
+            raise NotImplementedError(
+                f"{self.__class__.__name__}.apply_proximal_primal: the primal proximal is only available for "
+                "point-wise norm exponents equal to 1. Use PDHG for other exponents."
+            )
+        super().apply_proximal_primal(primal, tau)
+
     def apply_proximal_dual(self, dual: NDArray) -> None:
         dual_tmp = dual.copy()
 
-- 
2.43.0


From 6d0e88a6e4ed838b7573d2fa98782589e0d5f2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:36 +0000
Subject: [PATCH 109/112] fix: AttenuationVolume refuses volumes of different
 numbers of dimensions, also when the smaller shape broadcasts

---
 src/corrct/physics/attenuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/physics/attenuation.py b/src/corrct/physics/attenuation.py
index 0f700b8..9494849 100644
--- a/src/corrct/physics/attenuation.py
+++ b/src/corrct/physics/attenuation.py
@@ -81,7 +81,7 @@ class AttenuationVolume:
         if self.incident_local is not None:
             self.vol_shape_zyx = np.array(self.incident_local.shape)
 
-            if self.emitted_local is not None and np.any(self.vol_shape_zyx != self.emitted_local.shape):
+            if self.emitted_local is not None and tuple(self.incident_local.shape) != tuple(self.emitted_local.shape):
                 raise ValueError(
                     f"Incident volume shape ({self.incident_local.shape}) does not"
                     + f" match the emitted volume shape ({self.emitted_local.shape})"
-- 
2.43.0


From c43c46ef254ead566f7ea6a243b09efd3f224003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:36 +0000
Subject: [PATCH 110/112] fix: Regularizer_VTV and Regularizer_vl1wl name the
 unsupported exponents, instead of failing on an attribute that is not set yet

---
 src/corrct/regularizers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/regularizers.py b/src/corrct/regularizers.py
index 3d4117c..7362904 100644
--- a/src/corrct/regularizers.py
+++ b/src/corrct/regularizers.py
@@ -1385,10 +1385,10 @@ class Regularizer_VTV(Regularizer_Grad):
         super().__init__(weight=weight, ndims=ndims, upd_mask=upd_mask)
 
         self.pwise_der_norm = pwise_der_norm
+        self.pwise_chan_norm = pwise_chan_norm
         if self.pwise_der_norm not in [1, 2, np.inf]:
             self._raise_pwise_norm_error()
 
-        self.pwise_chan_norm = pwise_chan_norm
         if self.pwise_chan_norm not in [1, 2, np.inf]:
             self._raise_pwise_norm_error()
 
@@ -1535,10 +1535,10 @@ class Regularizer_vl1wl(Regularizer_l1swl):
         )
 
         self.pwise_lvl_norm = pwise_lvl_norm
+        self.pwise_chan_norm = pwise_chan_norm
         if self.pwise_lvl_norm not in [1, 2, np.inf]:
             self._raise_pwise_norm_error()
 
-        self.pwise_chan_norm = pwise_chan_norm
         if self.pwise_chan_norm not in [1, 2, np.inf]:
             self._raise_pwise_norm_error()
 
-- 
2.43.0


From c49caa1dd1a898e6d5f374c193ffae4acf2ba581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:29 +0000
Subject: [PATCH 111/112] fix: correlation reconstructions of ghost tomography
 back-project the masks of each angle

---
 src/corrct/struct_illum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/corrct/struct_illum.py b/src/corrct/struct_illum.py
index 8df8c71..75cee6f 100644
--- a/src/corrct/struct_illum.py
+++ b/src/corrct/struct_illum.py
@@ -1009,7 +1009,7 @@ class ProjectorGhostImaging(ProjectorOperator):
         """
         # return self.bp(bucket_vals - np.mean(bucket_vals)) + np.mean(bucket_vals) * np.mean(self.col_sum)
         if np.any(self.mc.masks_enc != self.mc.masks_dec) and not use_lstsq:
-            img = self.bp(bucket_vals)
+            img = ProjectorGhostImaging.bp(self, bucket_vals)
         else:
             masks = self.mc.masks_enc.reshape([-1, np.prod(self.mc.shape_fov)])
             result = spalg.lstsq(masks, bucket_vals)
-- 
2.43.0


From 8d1c6f7e77640b26902b12444ea721570a5b1720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:25 +0000
Subject: [PATCH 112/112] fix: the darks of compute_eigen_flats are averaged
 into an image of as many dimensions as the others

---
 src/corrct/processing/pre.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/corrct/processing/pre.py b/src/corrct/processing/pre.py
index e9a4d1e..faaffae 100644
--- a/src/corrct/processing/pre.py
+++ b/src/corrct/processing/pre.py
@@ -491,8 +491,8 @@ def compute_eigen_flats(
     stack_imgs = np.concatenate(stack_imgs)
 
     if darks_wvu is not None:
-        if darks_wvu.ndim > 2:
-            darks_wvu = darks_wvu.mean(axis=tuple(np.arange(darks_wvu.ndim - 2)))
+        if darks_wvu.ndim > ndim:
+            darks_wvu = darks_wvu.mean(axis=tuple(np.arange(darks_wvu.ndim - ndim)))
         stack_imgs = np.fmax(stack_imgs - darks_wvu, np.finfo(np.float32).eps)
 
     stack_imgs = stack_imgs.reshape([-1, np.prod(img_shape)]).transpose()
-- 
2.43.0

