From 0213ded774abcdfbe8c855629dbd3a85b3496603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 01/52] fix: pick a major axis when the two largest diagonal
 entries tie near a half turn

SO3 log (torchlie) and SO3.to_quaternion selected column 0 when the second
and third diagonal entries are equal and largest, which gives NaN or a wrong
rotation for half turns about axes such as (0, 1, 1).
---
 theseus/geometry/so3.py                  | 2 +-
 torchlie/torchlie/functional/so3_impl.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/theseus/geometry/so3.py b/theseus/geometry/so3.py
index a9abfe8..f3ff8b0 100644
--- a/theseus/geometry/so3.py
+++ b/theseus/geometry/so3.py
@@ -210,7 +210,7 @@ class SO3(LieGroup):
         ddiag = torch.diagonal(self.tensor, dim1=1, dim2=2)
         # Find the index of major coloumns and diagonals
         major = torch.logical_and(
-            ddiag[:, 1] > ddiag[:, 0], ddiag[:, 1] > ddiag[:, 2]
+            ddiag[:, 1] > ddiag[:, 0], ddiag[:, 1] >= ddiag[:, 2]
         ) + 2 * torch.logical_and(ddiag[:, 2] > ddiag[:, 0], ddiag[:, 2] > ddiag[:, 1])
         aux = torch.ones(self.shape[0], dtype=torch.bool)
         sel_rows = 0.5 * (self[aux, major] + self[aux, :, major])
diff --git a/torchlie/torchlie/functional/so3_impl.py b/torchlie/torchlie/functional/so3_impl.py
index 538af86..64d3cf0 100644
--- a/torchlie/torchlie/functional/so3_impl.py
+++ b/torchlie/torchlie/functional/so3_impl.py
@@ -411,7 +411,7 @@ def _log_impl_helper(group: torch.Tensor):
     ddiag = torch.diagonal(group, dim1=-1, dim2=-2)
     # Find the index of major columns and diagonals
     major = torch.logical_and(
-        ddiag[..., 1] > ddiag[..., 0], ddiag[..., 1] > ddiag[..., 2]
+        ddiag[..., 1] > ddiag[..., 0], ddiag[..., 1] >= ddiag[..., 2]
     ) + 2 * torch.logical_and(
         ddiag[..., 2] > ddiag[..., 0], ddiag[..., 2] > ddiag[..., 1]
     )
-- 
2.43.0


From 2b063febb43b592e69beaac51c6a4b6ea0432b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 02/52] fix: SE2 log of an exact half turn is finite

theta / sine is 0 / 0 * 0 = NaN when the rotation is exactly (-1, 0).
---
 theseus/geometry/se2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/theseus/geometry/se2.py b/theseus/geometry/se2.py
index 8b26a85..7482a65 100644
--- a/theseus/geometry/se2.py
+++ b/theseus/geometry/se2.py
@@ -174,7 +174,9 @@ class SE2(LieGroup):
             "se2", "near_zero", theta.dtype
         )
         non_zero = torch.ones(1, dtype=self.dtype, device=self.device)
-        sine_nz = torch.where(small_theta, non_zero, sine)
+        sine_nz = torch.where(
+            torch.logical_or(small_theta, sine == 0), non_zero, sine
+        )
         half_theta_by_tan_half_theta = (
             0.5
             * (1 + cosine)
-- 
2.43.0


From bfcc50a4b9fbb3fd1a5cfd812aabecb706f8273b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 03/52] fix: SE2 exp_map jacobian uses theta / 6 for small
 angles

---
 theseus/geometry/se2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/geometry/se2.py b/theseus/geometry/se2.py
index 7482a65..ef4e965 100644
--- a/theseus/geometry/se2.py
+++ b/theseus/geometry/se2.py
@@ -274,7 +274,7 @@ class SE2(LieGroup):
             SE2._check_jacobians_list(jacobians)
             theta2_nz = torch.where(small_theta, non_zero, theta2)
             theta_minus_sine_by_theta2 = torch.where(
-                small_theta, theta - theta3 / 120, (theta - sine) / theta2_nz
+                small_theta, theta / 6 - theta3 / 120, (theta - sine) / theta2_nz
             )
             cosine_minus_one_by_theta2 = torch.where(
                 small_theta, -0.5 + theta2 / 24, (cosine - 1) / theta2_nz
-- 
2.43.0


From d15b6fcccad560e901de1dfd8e5c338d960d2fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 04/52] fix: functional jacobian operators read the module's
 NAME

---
 torchlie/torchlie/functional/lie_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchlie/torchlie/functional/lie_group.py b/torchlie/torchlie/functional/lie_group.py
index 0ed28d4..e544f4e 100644
--- a/torchlie/torchlie/functional/lie_group.py
+++ b/torchlie/torchlie/functional/lie_group.py
@@ -156,7 +156,7 @@ def UnaryOperatorFactory(
 
     def jop(input: torch.Tensor) -> Tuple[List[torch.Tensor], torch.Tensor]:
         _check_jacobians_supported(
-            jop_autograd_fn, module.name, op_name, is_kwarg=False
+            jop_autograd_fn, module.NAME, op_name, is_kwarg=False
         )
         return jop_autograd_fn(input)
 
-- 
2.43.0


From dfecc7225d919142da5c7fb807f3f51b01bce5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 05/52] fix: SE3 untransform backward broadcasts a single point
 over a batch of poses

---
 torchlie/torchlie/functional/se3_impl.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/torchlie/torchlie/functional/se3_impl.py b/torchlie/torchlie/functional/se3_impl.py
index 7c51ac8..91866e4 100644
--- a/torchlie/torchlie/functional/se3_impl.py
+++ b/torchlie/torchlie/functional/se3_impl.py
@@ -854,11 +854,10 @@ class Untransform(lie_group.BinaryOperator):
         tensor: torch.Tensor = ctx.saved_tensors[1]
         tmp_tensor = tensor.unsqueeze(-1) - group[..., -1:]
         grad_output: torch.Tensor = grad_output.unsqueeze(-1)
-        tensor_size = get_transform_tensor_size(tensor)
         grad_input1 = group[..., :3] @ grad_output
         grad_input0 = torch.cat(
             (
-                tmp_tensor.view(*tensor_size, 3, 1) @ grad_output.transpose(-1, -2),
+                tmp_tensor @ grad_output.transpose(-1, -2),
                 -grad_input1,
             ),
             dim=-1,
-- 
2.43.0


From d00367f1dd5800231413b767054a3802bf74539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:42 +0000
Subject: [PATCH 06/52] fix: dense and loop_batch autodiff modes support
 broadcast batch sizes

---
 theseus/core/cost_function.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index 29482aa..4e90426 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -359,12 +359,16 @@ class AutoDiffCostFunction(CostFunction):
                 )
         elif self._autograd_mode == AutogradMode.LOOP_BATCH:
             jacobians_raw_loop: List[Tuple[torch.Tensor, ...]] = []
-            for n in range(optim_vars[0].shape[0]):
+            # variables with batch size 1 are broadcast to all batch elements
+            def _batch_element(var: Variable, n: int) -> torch.Tensor:
+                return var.tensor[n : n + 1] if var.shape[0] > 1 else var.tensor
+
+            for n in range(err.shape[0]):
                 for i, aux_var in enumerate(aux_vars):
-                    self._tmp_aux_vars_for_loop[i].update(aux_var.tensor[n : n + 1])
+                    self._tmp_aux_vars_for_loop[i].update(_batch_element(aux_var, n))
 
                 jacobians_n = self._compute_autograd_jacobian(
-                    tuple(v.tensor[n : n + 1] for v in optim_vars),
+                    tuple(_batch_element(v, n) for v in optim_vars),
                     self._make_jac_fn(
                         self._tmp_optim_vars_for_loop, self._tmp_aux_vars_for_loop
                     ),
@@ -380,7 +384,7 @@ class AutoDiffCostFunction(CostFunction):
             )
         else:
             jacobians_raw = self._compute_autograd_jacobian(
-                tuple(v.tensor for v in optim_vars),
+                tuple(v.tensor.expand(err.shape[0], *v.shape[1:]) for v in optim_vars),
                 self._make_jac_fn(self._tmp_optim_vars, aux_vars),
             )
             aux_idx = torch.arange(err.shape[0])  # batch_size
-- 
2.43.0


From f3ae56fc7259be75b59014b1719951b9f3cd51ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 07/52] fix: GPCostWeight broadcasts a single Qc_inv over a
 batch of dt

---
 theseus/embodied/motionmodel/double_integrator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/theseus/embodied/motionmodel/double_integrator.py b/theseus/embodied/motionmodel/double_integrator.py
index cbd93a5..e1f2715 100644
--- a/theseus/embodied/motionmodel/double_integrator.py
+++ b/theseus/embodied/motionmodel/double_integrator.py
@@ -129,7 +129,9 @@ class GPCostWeight(CostWeight):
         return torch.zeros(self.Qc_inv.shape[0]).bool()
 
     def _compute_cost_weight(self) -> torch.Tensor:
-        batch_size, dof, _ = self.Qc_inv.shape
+        dof = self.Qc_inv.shape[1]
+        # either Qc_inv or dt can be broadcast
+        batch_size = max(self.Qc_inv.shape[0], self.dt.shape[0])
         cost_weight = torch.empty(
             batch_size,
             2 * dof,
-- 
2.43.0


From 823029e049ab056d492b873657823c33ee661bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 08/52] fix: flattened robust costs support batched radius and
 any jacobian layout

---
 theseus/core/robust_cost_function.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/theseus/core/robust_cost_function.py b/theseus/core/robust_cost_function.py
index 8198fcb..41bb450 100644
--- a/theseus/core/robust_cost_function.py
+++ b/theseus/core/robust_cost_function.py
@@ -77,6 +77,13 @@ class RobustCostFunction(CostFunction):
         self.loss = loss_cls()
         self.flatten_dims = flatten_dims
 
+    # The argument of the loss: (batch_size, dim) if dimensions are separate error
+    # terms, otherwise (batch_size, 1). The radius broadcasts with both.
+    def _squared_norm(self, weighted_error: torch.Tensor) -> torch.Tensor:
+        if self.flatten_dims:
+            return weighted_error**2
+        return torch.sum(weighted_error**2, dim=1, keepdim=True)
+
     def error(self) -> torch.Tensor:
         warnings.warn(
             "Computing the robust cost error requires weighting first, so "
@@ -86,13 +93,11 @@ class RobustCostFunction(CostFunction):
 
     def weighted_error(self) -> torch.Tensor:
         weighted_error = self.cost_function.weighted_error()
-        if self.flatten_dims:
-            weighted_error = weighted_error.reshape(-1, 1)
-        squared_norm = torch.sum(weighted_error**2, dim=1, keepdim=True)
+        squared_norm = self._squared_norm(weighted_error)
         error_loss = self._evaluate_loss(squared_norm)
 
         if self.flatten_dims:
-            return (error_loss.reshape(-1, self.dim()) + RobustCostFunction._EPS).sqrt()
+            return (error_loss + RobustCostFunction._EPS).sqrt()
         # The return value is a hacky way to make it so that
         # ||weighted_error||^2 = error_loss
         # By doing this we avoid having to change the objective's error computation
@@ -117,21 +122,13 @@ class RobustCostFunction(CostFunction):
             weighted_jacobians,
             weighted_error,
         ) = self.cost_function.weighted_jacobians_error()
-        if self.flatten_dims:
-            weighted_error = weighted_error.reshape(-1, 1)
-            for i, wj in enumerate(weighted_jacobians):
-                weighted_jacobians[i] = wj.view(-1, 1, wj.shape[2])
-        squared_norm = torch.sum(weighted_error**2, dim=1, keepdim=True)
+        squared_norm = self._squared_norm(weighted_error)
         rescale = (self._linearize(squared_norm) + RobustCostFunction._EPS).sqrt()
 
         rescaled_jacobians = [
-            rescale.view(-1, 1, 1) * jacobian for jacobian in weighted_jacobians
+            rescale.unsqueeze(2) * jacobian for jacobian in weighted_jacobians
         ]
         rescaled_error = rescale * weighted_error
-        if self.flatten_dims:
-            return [
-                rj.reshape(-1, self.dim(), rj.shape[2]) for rj in rescaled_jacobians
-            ], rescaled_error.reshape(-1, self.dim())
         return rescaled_jacobians, rescaled_error
 
     def dim(self) -> int:
-- 
2.43.0


From 4e4a0ebcc6ff687cca644d7affc6b84f647729b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:18 +0000
Subject: [PATCH 09/52] fix: VariableOrdering.remove leaves the indices of
 later variables stale

---
 theseus/optimizer/variable_ordering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theseus/optimizer/variable_ordering.py b/theseus/optimizer/variable_ordering.py
index 5156dcd..c481d6e 100644
--- a/theseus/optimizer/variable_ordering.py
+++ b/theseus/optimizer/variable_ordering.py
@@ -50,6 +50,9 @@ class VariableOrdering:
     def remove(self, var: Variable):
         self._var_order.remove(var)
         del self._var_name_to_index[var.name]
+        # variables after the removed one have moved by one position
+        for idx, other in enumerate(self._var_order):
+            self._var_name_to_index[other.name] = idx
 
     def extend(self, variables: Sequence[Variable]):
         for var in variables:
-- 
2.43.0


From ffb02ad546bee06ecc3ba8d190dd44de10210620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:20 +0000
Subject: [PATCH 10/52] fix: SparseLinearization.diagonal_scaling accumulates
 in the default dtype

---
 theseus/optimizer/sparse_linearization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/optimizer/sparse_linearization.py b/theseus/optimizer/sparse_linearization.py
index 021d434..6bebff2 100644
--- a/theseus/optimizer/sparse_linearization.py
+++ b/theseus/optimizer/sparse_linearization.py
@@ -189,7 +189,7 @@ class SparseLinearization(Linearization):
         assert v.shape[1] == self.num_cols
         if self._AtA_diag is None:
             A_val = self.A_val
-            self._AtA_diag = torch.zeros(A_val.shape[0], self.num_cols)
+            self._AtA_diag = A_val.new_zeros(A_val.shape[0], self.num_cols)
             for row in range(self.num_rows):
                 start = self.A_row_ptr[row]
                 end = self.A_row_ptr[row + 1]
-- 
2.43.0


From f023fcf8c65942ff2d285b430eba53871350faba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:59 +0000
Subject: [PATCH 11/52] fix: DenseSolver with check_singular fails for double
 precision systems

---
 theseus/optimizer/linear/dense_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/optimizer/linear/dense_solver.py b/theseus/optimizer/linear/dense_solver.py
index e5e58e5..e13c39c 100644
--- a/theseus/optimizer/linear/dense_solver.py
+++ b/theseus/optimizer/linear/dense_solver.py
@@ -92,7 +92,7 @@ class DenseSolver(LinearSolver, abc.ABC):
             AtA = self.linearization.AtA
             Atb = self.linearization.Atb
             with torch.no_grad():
-                output = torch.zeros(AtA.shape[0], AtA.shape[1]).to(AtA.device)
+                output = AtA.new_zeros(AtA.shape[0], AtA.shape[1])
                 _, _, infos = torch.lu(AtA, get_infos=True)
                 good_idx = infos.bool().logical_not()
                 if not good_idx.all():
-- 
2.43.0


From 188ea198ce88843522918713ea1e421026f32f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:59 +0000
Subject: [PATCH 12/52] fix: DenseSolver with check_singular misaligns
 per-batch damping when a matrix is singular

---
 theseus/optimizer/linear/dense_solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theseus/optimizer/linear/dense_solver.py b/theseus/optimizer/linear/dense_solver.py
index e13c39c..b30a527 100644
--- a/theseus/optimizer/linear/dense_solver.py
+++ b/theseus/optimizer/linear/dense_solver.py
@@ -103,6 +103,8 @@ class DenseSolver(LinearSolver, abc.ABC):
                     )
             AtA = AtA[good_idx]
             Atb = Atb[good_idx]
+            if isinstance(damping, torch.Tensor) and damping.numel() > 1:
+                damping = damping[good_idx]  # one value per batch element
             solution = self._apply_damping_and_solve(
                 Atb,
                 AtA,
-- 
2.43.0


From cfc91b1825e552934b4b7728677df27c8cb7707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:03 +0000
Subject: [PATCH 13/52] fix: CholmodSolveFunction rounds double precision
 solutions and gradients to float32

---
 theseus/optimizer/autograd/cholmod_sparse_autograd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/theseus/optimizer/autograd/cholmod_sparse_autograd.py b/theseus/optimizer/autograd/cholmod_sparse_autograd.py
index 9c575df..0969379 100644
--- a/theseus/optimizer/autograd/cholmod_sparse_autograd.py
+++ b/theseus/optimizer/autograd/cholmod_sparse_autograd.py
@@ -48,7 +48,7 @@ class CholmodSolveFunction(torch.autograd.Function):
 
             # solve
             Atb_i = At_i @ b_cpu[i, :]
-            x_cpu[i, :] = torch.Tensor(cholesky_decomposition(Atb_i))
+            x_cpu[i, :] = torch.as_tensor(cholesky_decomposition(Atb_i))
             cholesky_decompositions.append(cholesky_decomposition)
 
         ctx.b_cpu = b_cpu
@@ -118,13 +118,13 @@ class CholmodSolveFunction(torch.autograd.Function):
         grad_output_cpu = grad_output.cpu()
 
         for i in range(batch_size):
-            H[i, :] = torch.Tensor(
+            H[i, :] = torch.as_tensor(
                 ctx.cholesky_decompositions[i](grad_output_cpu[i, :])
             )
 
             A_i = ctx.sparse_structure.csr_straight(ctx.At_val_cpu[i, :])
-            AH[i, :] = torch.Tensor(A_i @ H[i, :])
-            b_Ax[i, :] -= torch.Tensor(A_i @ ctx.x_cpu[i, :])
+            AH[i, :] = torch.as_tensor(A_i @ H[i, :])
+            b_Ax[i, :] -= torch.as_tensor(A_i @ ctx.x_cpu[i, :])
 
         # now we fill values of a matrix with structure identical to A with
         # selected entries from the difference of tensor products:
-- 
2.43.0


From 17d2e212f9fbf242fff9adf126f60dff715e5e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:03 +0000
Subject: [PATCH 14/52] fix: compute_A_grad accumulates the gradient in the
 default dtype

---
 theseus/optimizer/autograd/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/optimizer/autograd/common.py b/theseus/optimizer/autograd/common.py
index c75b203..3a4d0bf 100644
--- a/theseus/optimizer/autograd/common.py
+++ b/theseus/optimizer/autograd/common.py
@@ -23,7 +23,7 @@ def compute_A_grad(
     detach_hessian: bool,
 ):
     A_grad = torch.empty(
-        size=(batch_size, len(A_col_ind)), device=x.device
+        size=(batch_size, len(A_col_ind)), dtype=H.dtype, device=x.device
     )  # return value, A's grad
     for r in range(len(A_row_ptr) - 1):
         start, end = A_row_ptr[r], A_row_ptr[r + 1]
-- 
2.43.0


From 0d643108808956b4ab33078ef9e64d1491beaf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:56 +0000
Subject: [PATCH 15/52] fix: adaptive ellipsoidal damping crashes with sparse
 linearizations

---
 theseus/optimizer/nonlinear/levenberg_marquardt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/optimizer/nonlinear/levenberg_marquardt.py b/theseus/optimizer/nonlinear/levenberg_marquardt.py
index ce1902a..226406c 100644
--- a/theseus/optimizer/nonlinear/levenberg_marquardt.py
+++ b/theseus/optimizer/nonlinear/levenberg_marquardt.py
@@ -184,7 +184,7 @@ class LevenbergMarquardt(NonlinearLeastSquares):
         assert isinstance(self._damping, torch.Tensor)
         damping = self._damping.view(-1, 1)
         if ellipsoidal_damping:
-            damping = linearization.diagonal_scaling(damping)
+            damping = linearization.diagonal_scaling(damping.expand_as(delta))
         # Deliberately using Atb before updating the variables, according to
         # the LM reference above
         den = (delta * (damping * delta + linearization.Atb.squeeze(2))).sum(dim=1) / 2
-- 
2.43.0


From 5df03ef4ace191b7ab46d022003f030a7e264388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:55 +0000
Subject: [PATCH 16/52] fix: Dogleg steps leave small trust regions

---
 theseus/optimizer/nonlinear/dogleg.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/theseus/optimizer/nonlinear/dogleg.py b/theseus/optimizer/nonlinear/dogleg.py
index 2b47fc2..a0134ce 100644
--- a/theseus/optimizer/nonlinear/dogleg.py
+++ b/theseus/optimizer/nonlinear/dogleg.py
@@ -75,7 +75,7 @@ class Dogleg(TrustRegion):
             delta_dogleg = torch.where(
                 delta_c_within_region_idx,
                 delta_c,
-                delta_c * self._trust_region / (delta_c_norm_2 + Dogleg.EPS).sqrt(),
+                delta_c / (delta_c_norm_2 / trust_region_2 + Dogleg.EPS).sqrt(),
             )
         else:
             delta_dogleg = delta_c
@@ -85,11 +85,12 @@ class Dogleg(TrustRegion):
             # so need to extend towards boundary with Gauss-Newton step
             # Need to solve a quadratic || sd + tau * (gn - sd)|| == tr**2
             # This can be written as
-            # a * tau^2 + b * tau + c, with a, b, c given below
+            # a * tau^2 + b * tau + c, with a, b, c given below, in units
+            # of the trust region so that EPS is small at any scale
             diff = delta_gn - delta_c
-            a = TrustRegion._squared_norm(diff)
-            b = (2 * delta_c * diff).sum(dim=1, keepdim=True)
-            c = delta_c_norm_2 - trust_region_2
+            a = TrustRegion._squared_norm(diff) / trust_region_2
+            b = (2 * delta_c * diff).sum(dim=1, keepdim=True) / trust_region_2
+            c = delta_c_norm_2 / trust_region_2 - 1.0
             disc = ((b**2) - 4 * a * c).clamp(Dogleg.EPS)
             # By taking min(tau, 1), this also covers the case when ||d_gn|| < TR
             tau = ((-b + disc.sqrt()) / (2 * a + Dogleg.EPS)).clamp(max=1.0)
-- 
2.43.0


From 64993d7f49f4d09ee536c03a9523ca306a24e17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:55 +0000
Subject: [PATCH 17/52] fix: the iteration that converges is missing from
 merged histories

---
 theseus/optimizer/nonlinear/nonlinear_least_squares.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theseus/optimizer/nonlinear/nonlinear_least_squares.py b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
index a823f4a..3afd731 100644
--- a/theseus/optimizer/nonlinear/nonlinear_least_squares.py
+++ b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
@@ -199,9 +199,10 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
                 info.status[
                     converged_indices.cpu().numpy()
                 ] = NonlinearOptimizerStatus.CONVERGED
+                info.last_err = err
                 if converged_indices.all():
+                    iters_done += 1
                     break  # nothing else will happen at this point
-                info.last_err = err
 
                 if end_iter_callback is not None:
                     end_iter_callback(self, info, delta, it_)
-- 
2.43.0


From 4ad6dcc8b05b80661ac63f04f5c8971361bdfecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:55 +0000
Subject: [PATCH 18/52] fix: best_iter ignores the iterations of the backward
 loop

---
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index 755421f..75aefad 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -254,6 +254,11 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
                 )
             info.best_solution = best_solution
             info.best_err = best_err
+            info.best_iter = torch.where(
+                best_err_grad < best_err_no_grad,
+                grad_loop_info.best_iter + num_no_grad_iters,
+                info.best_iter,
+            )
 
         # Merge the converged status into the info from the detached loop,
         M = info.status == NonlinearOptimizerStatus.MAX_ITERATIONS
-- 
2.43.0


From 00b5b1ff10f70387043a4fabb5dacc831d9a2e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:55 +0000
Subject: [PATCH 19/52] fix: a solver failure in the backward loop under
 no_grad raises an AssertionError

---
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index 75aefad..6fdb521 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -265,6 +265,7 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
         assert np.all(
             (grad_loop_info.status[M] == NonlinearOptimizerStatus.MAX_ITERATIONS)
             | (grad_loop_info.status[M] == NonlinearOptimizerStatus.CONVERGED)
+            | (grad_loop_info.status[M] == NonlinearOptimizerStatus.FAIL)
         )
         info.status[M] = grad_loop_info.status[M]
         info.converged_iter[M] = (
-- 
2.43.0


From 25452f4af28fb7de7b98a18589e1bd8c009c1cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:27 +0000
Subject: [PATCH 20/52] fix: batch elements whose step is rejected are marked
 as converged when another one is accepted

---
 .../nonlinear/nonlinear_least_squares.py      | 55 ++++++++++++-------
 .../nonlinear/nonlinear_optimizer.py          |  5 --
 2 files changed, 35 insertions(+), 25 deletions(-)

diff --git a/theseus/optimizer/nonlinear/nonlinear_least_squares.py b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
index 3afd731..25dc2bd 100644
--- a/theseus/optimizer/nonlinear/nonlinear_least_squares.py
+++ b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
@@ -110,7 +110,7 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
         converged_indices = torch.zeros_like(info.last_err).bool()
         iters_done = 0
         it_ = 0
-        all_reject_attempts = 0
+        reject_attempts = torch.zeros_like(info.last_err, dtype=torch.long)
         while it_ < num_iter:
             # do optimizer step
             # See comment inside `if _last_implicit_diff_step` case below
@@ -170,7 +170,7 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
 
             # For now, step size is combined with delta. If we add more sophisticated
             # line search, will probably need to pass it separately, or compute inside.
-            err, all_rejected = self._step(
+            err, reject_indices = self._step(
                 delta * steps_tensor,
                 info.last_err,
                 converged_indices,
@@ -178,14 +178,20 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
                 delta_forced_to_gn=_last_implicit_diff_step,
                 **kwargs,
             )  # err is shape (batch_size,)
-            if all_rejected:
-                # The optimizer rejected all steps so just continue, otherwise convergence
-                # check will stop prematurely. However, we put a max on this to guarantee
-                # this terminates
-                all_reject_attempts += 1
-                if all_reject_attempts < NonlinearOptimizer._MAX_ALL_REJECT_ATTEMPTS:
-                    continue
-            all_reject_attempts = 0
+            # If the step of a batch element is rejected its error doesn't change, and the
+            # convergence check would stop it prematurely, so it has to try again. However,
+            # we put a max on this to guarantee this terminates
+            reject_attempts = torch.where(reject_indices, reject_attempts + 1, 0)
+            out_of_attempts = (
+                reject_attempts >= NonlinearOptimizer._MAX_ALL_REJECT_ATTEMPTS
+            )
+            if (
+                reject_indices.logical_or(converged_indices).all()
+                and not out_of_attempts.any()
+            ):
+                continue
+            retry_indices = reject_indices.logical_and(~out_of_attempts)
+            reject_attempts[out_of_attempts] = 0
 
             # check for convergence if at least one step was accepted
             with torch.no_grad():
@@ -195,7 +201,9 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
                         f"Nonlinear optimizer. Iteration: {it_+1}. "
                         f"Error: {err.mean().item()}"
                     )
-                converged_indices = self._check_convergence(err, info.last_err)
+                converged_indices = self._check_convergence(
+                    err, info.last_err
+                ).logical_and(~retry_indices)
                 info.status[
                     converged_indices.cpu().numpy()
                 ] = NonlinearOptimizerStatus.CONVERGED
@@ -329,8 +337,8 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
     # variables.
     # Batch indices indicated by `converged_indices` mask are ignored
     # unless `force_update = True`.
-    # Returns the total error tensor after the update and a boolean indicating
-    # if all steps were rejected.
+    # Returns the total error tensor after the update and a boolean mask indicating
+    # the batch elements (other than converged ones) whose steps were rejected.
     #
     # `previous_err` refes to the squared norm of the
     # error vector, as returned by self.objective.error_metric()
@@ -344,7 +352,7 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
         force_update: bool,
         delta_forced_to_gn: bool,
         **kwargs,
-    ) -> Tuple[torch.Tensor, bool]:
+    ) -> Tuple[torch.Tensor, torch.Tensor]:
         tensor_dict, err = self._compute_retracted_tensors_and_error(
             delta, converged_indices, force_update
         )
@@ -356,14 +364,21 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
         else:
             reject_indices = self._complete_step(delta, err, previous_err, **kwargs)
 
-        if reject_indices is not None and reject_indices.all():
-            return previous_err, True
+        if reject_indices is None:
+            reject_indices = torch.zeros_like(converged_indices)
+        # Converged elements don't move, so their steps are never rejected
+        reject_indices = reject_indices.logical_and(~converged_indices)
+        if reject_indices.logical_or(converged_indices).all() and reject_indices.any():
+            return previous_err, reject_indices
+
+        if not reject_indices.any():
+            self.objective.update(tensor_dict)
+            return err, reject_indices
 
         self.objective.update(tensor_dict, batch_ignore_mask=reject_indices)
-        if reject_indices is not None and reject_indices.any():
-            # Some steps were rejected so the error computed above is not accurate
-            err = self.objective.error_metric()
-        return err, False
+        # Some steps were rejected so the error computed above is not accurate
+        err = self.objective.error_metric()
+        return err, reject_indices
 
     # Resets any internal state needed by the optimizer for a new optimization
     # problem. Optimizer loop will pass all optimizer kwargs to this method.
diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index 6fdb521..cb9ec63 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -207,11 +207,6 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
 
             info.best_err = torch.minimum(info.best_err, err)
 
-        converged_indices = self._check_convergence(err, info.last_err)
-        info.status[
-            np.array(converged_indices.detach().cpu())
-        ] = NonlinearOptimizerStatus.CONVERGED
-
     @abc.abstractmethod
     def _optimize_impl(self, **kwargs) -> OptimizerInfo:
         pass
-- 
2.43.0


From 5eee2377fcb8ec70c2afc8410128400e3dcb5f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:07 +0000
Subject: [PATCH 21/52] fix: last_err ignores the iterations of the backward
 loop

---
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index cb9ec63..b4aabd3 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -219,6 +219,7 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
         num_grad_iters: int,
         info: NonlinearOptimizerInfo,
     ):
+        info.last_err = grad_loop_info.last_err
         total_iters = num_no_grad_iters + num_grad_iters
         # we add + 1 to all indices to account for the initial values
         info_idx = slice(num_no_grad_iters + 1, total_iters + 1)
-- 
2.43.0


From 88bc60546eb5d2ed5e58aeb7f17fd842055b4041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:07 +0000
Subject: [PATCH 22/52] fix: error and state histories are rounded to the
 default dtype

---
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index b4aabd3..ea2d4dd 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -139,7 +139,11 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
         best_err = last_err.clone() if track_best_solution else None
         if track_err_history:
             err_history = (
-                torch.ones(self.objective.batch_size, self.params.max_iterations + 1)
+                torch.ones(
+                    self.objective.batch_size,
+                    self.params.max_iterations + 1,
+                    dtype=last_err.dtype,
+                )
                 * math.inf
             )
             assert last_err.grad_fn is None
@@ -155,6 +159,7 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
                         self.objective.batch_size,
                         *var.shape[1:],
                         self.params.max_iterations + 1,
+                        dtype=var.dtype,
                     )
                     * math.inf
                 )
-- 
2.43.0


From 8103346441b5040c57b6f9d210577bd2c81eda1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:04 +0000
Subject: [PATCH 23/52] fix: refuse conflicting and repeated cost functions
 without altering the objective

---
 theseus/core/objective.py | 97 ++++++++++++++++++++-------------------
 1 file changed, 51 insertions(+), 46 deletions(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 6b8121f..5d6fe0a 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -155,6 +155,50 @@ class Objective:
 
         self.__tensor_ref = torch.empty(1, device=self.device, dtype=self.dtype)
 
+    # Checks that all variables of a cost function, and of its weight, can be added
+    # to the objective
+    def _check_function_variables(self, cost_function: CostFunction):
+        weight = cost_function.weight
+        new_variables: Dict[str, Variable] = {}
+        for function in [cost_function, weight]:
+            for variable in itertools.chain(function.optim_vars, function.aux_vars):
+                # Check that variables have name and correct dtype
+                if variable.name is None:
+                    raise ValueError(
+                        f"Variables added to an objective must be named, but "
+                        f"{function.name} has an unnamed variable."
+                    )
+                if variable.dtype != self.dtype:
+                    raise ValueError(
+                        f"Tried to add variable {variable.name} with dtype "
+                        f"{variable.dtype} but objective's dtype is {self.dtype}."
+                    )
+                # Check that names are unique
+                known_variable = self._all_variables.get(
+                    variable.name, new_variables.setdefault(variable.name, variable)
+                )
+                if variable is not known_variable:
+                    raise ValueError(
+                        f"Two different variable objects with the "
+                        f"same name ({variable.name}) are not allowed "
+                        "in the same objective."
+                    )
+
+        if not self._allow_mixed_optim_aux_vars:
+            fn_optim_names = {var.name for var in cost_function.optim_vars}
+            weight_optim_names = {var.name for var in weight.optim_vars}
+            aux_names = {
+                var.name for var in itertools.chain(cost_function.aux_vars, weight.aux_vars)
+            }
+            if any(
+                self.has_aux_var(name) or name in aux_names
+                for name in fn_optim_names | weight_optim_names
+            ) or any(self.has_optim_var(name) for name in aux_names):
+                raise ValueError(
+                    "Objective does not support a variable being both "
+                    + "an optimization variable and an auxiliary variable."
+                )
+
     def _add_function_variables(
         self,
         function: TheseusFunction,
@@ -173,26 +217,7 @@ class Objective:
             self_vars_of_this_type = self.aux_vars  # type: ignore
 
         for variable in function_vars:
-            # Check that variables have name and correct dtype
-            if variable.name is None:
-                raise ValueError(
-                    f"Variables added to an objective must be named, but "
-                    f"{function.name} has an unnamed variable."
-                )
-            if variable.dtype != self.dtype:
-                raise ValueError(
-                    f"Tried to add variable {variable.name} with dtype "
-                    f"{variable.dtype} but objective's dtype is {self.dtype}."
-                )
-            # Check that names are unique
-            if variable.name in self._all_variables:
-                if variable is not self._all_variables[variable.name]:
-                    raise ValueError(
-                        f"Two different variable objects with the "
-                        f"same name ({variable.name}) are not allowed "
-                        "in the same objective."
-                    )
-            else:
+            if variable.name not in self._all_variables:
                 self._all_variables[variable.name] = variable
                 assert variable not in self_var_to_fn_map
                 self_var_to_fn_map[variable] = []
@@ -248,8 +273,12 @@ class Objective:
                     "This cost function has already been added to the objective, "
                     "nothing to be done."
                 )
-        else:
-            self.cost_functions[cost_function.name] = cost_function
+                return
+
+        # a refused cost function must leave the objective as it was
+        self._check_function_variables(cost_function)
+
+        self.cost_functions[cost_function.name] = cost_function
 
         self.current_version += 1
         # ----- Book-keeping for the cost function ------- #
@@ -285,30 +314,6 @@ class Objective:
 
         self.cost_functions_for_weights[cost_function.weight].append(cost_function)
 
-        optim_vars_names = [
-            var.name
-            for var in itertools.chain(
-                cost_function.optim_vars, cost_function.weight.optim_vars
-            )
-        ]
-        aux_vars_names = [
-            var.name
-            for var in itertools.chain(
-                cost_function.aux_vars, cost_function.weight.aux_vars
-            )
-        ]
-        if not self._allow_mixed_optim_aux_vars:
-            dual_var_err_msg = (
-                "Objective does not support a variable being both "
-                + "an optimization variable and an auxiliary variable."
-            )
-            for optim_name in optim_vars_names:
-                if self.has_aux_var(optim_name):
-                    raise ValueError(dual_var_err_msg)
-            for aux_name in aux_vars_names:
-                if self.has_optim_var(aux_name):
-                    raise ValueError(dual_var_err_msg)
-
     def get_cost_function(self, name: str) -> CostFunction:
         """Returns a reference to the cost function with the given name.
 
-- 
2.43.0


From 425a1a347c09b44c55d0b531447b601a08211dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:04 +0000
Subject: [PATCH 24/52] fix: replacing a variable of a robust cost function
 reaches the underlying cost function

---
 theseus/core/robust_cost_function.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/theseus/core/robust_cost_function.py b/theseus/core/robust_cost_function.py
index 41bb450..0c535eb 100644
--- a/theseus/core/robust_cost_function.py
+++ b/theseus/core/robust_cost_function.py
@@ -7,6 +7,8 @@ from typing import List, Optional, Tuple, Type
 
 import torch
 
+from theseus.geometry.manifold import Manifold
+
 from .cost_function import CostFunction
 from .cost_weight import CostWeight
 from .robust_loss import GNCRobustLoss, RobustLoss
@@ -143,6 +145,17 @@ class RobustCostFunction(CostFunction):
             flatten_dims=self.flatten_dims,
         )
 
+    # The variables of the underlying cost function come first, in the same order, and
+    # must also be replaced there
+    def set_optim_var_at(self, index: int, variable: Manifold):
+        super().set_optim_var_at(index, variable)
+        self.cost_function.set_optim_var_at(index, variable)
+
+    def set_aux_var_at(self, index: int, variable: Variable):
+        super().set_aux_var_at(index, variable)
+        if index < self.cost_function.num_aux_vars():
+            self.cost_function.set_aux_var_at(index, variable)
+
     def _evaluate_loss(self, squared_norm: torch.Tensor) -> torch.Tensor:
         return self.loss.evaluate(squared_norm, self.log_loss_radius.tensor)
 
-- 
2.43.0


From 4b0517a0d57a2e5c430d40e7903063d736842498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:04 +0000
Subject: [PATCH 25/52] fix: copy objectives whose cost functions and weights
 share variables

---
 theseus/core/objective.py | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 5d6fe0a..92c834b 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -654,7 +654,9 @@ class Objective:
                 connectivity structure, and error metric.
         """
         new_objective = Objective(
-            dtype=self.dtype, error_metric_fn=self._error_metric_fn
+            dtype=self.dtype,
+            error_metric_fn=self._error_metric_fn,
+            __allow_mixed_optim_aux_vars__=self._allow_mixed_optim_aux_vars,
         )
 
         # First copy all individual cost weights
@@ -677,29 +679,15 @@ class Objective:
 
         # Handle case where a variable is copied in 2+ cost functions or cost weights,
         # since only a single copy should be maintained by objective
+        new_variables: Dict[str, Variable] = {}
         for cost_function in new_cost_functions:
-            # CostFunction
-            for i, var in enumerate(cost_function.optim_vars):
-                if new_objective.has_optim_var(var.name):
-                    cost_function.set_optim_var_at(
-                        i, new_objective.optim_vars[var.name]
-                    )
-            for i, aux_var in enumerate(cost_function.aux_vars):
-                if new_objective.has_aux_var(aux_var.name):
-                    cost_function.set_aux_var_at(
-                        i, new_objective.aux_vars[aux_var.name]
-                    )
-            # CostWeight
-            for i, var in enumerate(cost_function.weight.optim_vars):
-                if var.name in new_objective.cost_weight_optim_vars:
-                    cost_function.weight.set_optim_var_at(
-                        i, new_objective.cost_weight_optim_vars[var.name]
-                    )
-            for i, aux_var in enumerate(cost_function.weight.aux_vars):
-                if new_objective.has_aux_var(aux_var.name):
-                    cost_function.weight.set_aux_var_at(
-                        i, new_objective.aux_vars[aux_var.name]
-                    )
+            for function in [cost_function, cost_function.weight]:
+                for i, var in enumerate(list(function.optim_vars)):
+                    new_var = new_variables.setdefault(var.name, var)
+                    function.set_optim_var_at(i, new_var)  # type: ignore
+                for i, aux_var in enumerate(list(function.aux_vars)):
+                    new_aux_var = new_variables.setdefault(aux_var.name, aux_var)
+                    function.set_aux_var_at(i, new_aux_var)
             new_objective.add(cost_function)
         return new_objective
 
-- 
2.43.0


From 9e61365a2538a2586a9bb5e82329e8421c3723b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:45 +0000
Subject: [PATCH 26/52] fix: the copy of a GPMotionModel is a GPMotionModel

---
 theseus/embodied/motionmodel/double_integrator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/theseus/embodied/motionmodel/double_integrator.py b/theseus/embodied/motionmodel/double_integrator.py
index e1f2715..99b6ae7 100644
--- a/theseus/embodied/motionmodel/double_integrator.py
+++ b/theseus/embodied/motionmodel/double_integrator.py
@@ -201,4 +201,12 @@ class GPMotionModel(DoubleIntegrator):
         super().__init__(pose1, vel1, pose2, vel2, dt, cost_weight, name=name)
 
     def _copy_impl(self, new_name: Optional[str] = None) -> "GPMotionModel":
-        return cast(GPMotionModel, super()._copy_impl(new_name=new_name))
+        return GPMotionModel(
+            self.pose1.copy(),
+            self.vel1.copy(),
+            self.pose2.copy(),
+            self.vel2.copy(),
+            self.dt.copy(),
+            cast(GPCostWeight, self.weight.copy()),
+            name=new_name,
+        )
-- 
2.43.0


From c552f5e16d7ce45ab079c53050357021d8223508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:17 +0000
Subject: [PATCH 27/52] fix: evaluate objectives in which some cost functions
 have no batched variable

---
 theseus/core/objective.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 92c834b..844f259 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -605,8 +605,11 @@ class Objective:
         # so we are currently avoiding this optimization. Optimizers also compute error
         # by passing `input_tensors`, so for optimizers the current version should be
         # good enough.
+        errors = [cf.weighted_error() for cf in self._get_error_iter()]
+        # Cost functions whose variables all have batch size 1 are shared by the batch
+        batch_size = max(error.shape[0] for error in errors)
         error_vector = torch.cat(
-            [cf.weighted_error() for cf in self._get_error_iter()], dim=1
+            [error.expand(batch_size, error.shape[1]) for error in errors], dim=1
         )
 
         if input_tensors is not None and not also_update:
-- 
2.43.0


From 286dcd8d5eb024ea53c8958ded41e7a91126be8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:17 +0000
Subject: [PATCH 28/52] fix: evaluating with temporary tensors restores all the
 variables

---
 theseus/core/objective.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 844f259..b3f627c 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -2,6 +2,7 @@
 #
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
+import contextlib
 import itertools
 import warnings
 from collections import OrderedDict
@@ -564,6 +565,23 @@ class Objective:
         """
         return len(self.aux_vars)
 
+    # Updates the variables with the given tensors and reverts all of them back to
+    # the old tensors at exit. Vectorization is not updated in any of the two steps.
+    @contextlib.contextmanager
+    def _temporary_tensors(self, input_tensors: Dict[str, torch.Tensor]):
+        old_tensors = {
+            name: self._all_variables[name].tensor
+            for name in input_tensors
+            if name in self._all_variables
+        }
+        try:
+            self.update(input_tensors=input_tensors, _update_vectorization=False)
+            yield
+        finally:
+            for name, tensor in old_tensors.items():
+                self._all_variables[name].update(tensor)
+            self._resolve_batch_size()
+
     def error(
         self,
         input_tensors: Optional[Dict[str, torch.Tensor]] = None,
@@ -589,14 +607,11 @@ class Objective:
                 concatenation of all cost functions error vectors. The order corresponds
                 to the order in which cost functions were added to the objective.
         """
-        old_tensors = {}
         if input_tensors is not None:
             if not also_update:
-                for var in self.optim_vars:
-                    old_tensors[var] = self.optim_vars[var].tensor
-            # Update vectorization only if the input tensors will be used for a
-            # persistent update.
-            self.update(input_tensors=input_tensors, _update_vectorization=also_update)
+                with self._temporary_tensors(input_tensors):
+                    return self.error()
+            self.update(input_tensors=input_tensors)
 
         # Current behavior when vectorization is on, is to always compute the error.
         # One could potentially optimize by only recompute when `input_tensors`` is
@@ -611,13 +626,6 @@ class Objective:
         error_vector = torch.cat(
             [error.expand(batch_size, error.shape[1]) for error in errors], dim=1
         )
-
-        if input_tensors is not None and not also_update:
-            # This line reverts back to the old tensors if a persistent update wasn't
-            # required (i.e., `also_update is False`).
-            # In this case, we pass _update_vectorization=False because
-            # vectorization wasn't updated in the first call to `update()`.
-            self.update(old_tensors, _update_vectorization=False)
         return error_vector
 
     def error_metric(
-- 
2.43.0


From c060f9e0d30f865961f5f7d78945740f217ba122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:17 +0000
Subject: [PATCH 29/52] fix: the vectorized error follows the order of the cost
 functions

---
 theseus/core/vectorizer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/theseus/core/vectorizer.py b/theseus/core/vectorizer.py
index 880732e..64b672f 100644
--- a/theseus/core/vectorizer.py
+++ b/theseus/core/vectorizer.py
@@ -391,11 +391,15 @@ class Vectorize:
         else:
             # If not full vectorization, just copy the containers so that we don't override the
             # permanent cache. The results will be returned in these temp containers.
+            # They are returned in the order of the objective's cost functions.
+            temp_wrappers = {
+                cf: _CostFunctionWrapper(cf.cost_fn) for cf in self._cost_fn_wrappers
+            }
             schema_dict = {
-                schema: [_CostFunctionWrapper(cf.cost_fn) for cf in cf_list]
+                schema: [temp_wrappers[cf] for cf in cf_list]
                 for schema, cf_list in self._schema_dict.items()
             }
-            ret = [cf for cf_list in schema_dict.values() for cf in cf_list]
+            ret = list(temp_wrappers.values())
         for schema, cost_fn_wrappers in schema_dict.items():
             if len(cost_fn_wrappers) == 1:
                 self._handle_singleton_wrapper(schema, cost_fn_wrappers, mode)
-- 
2.43.0


From 9d313f5ceccaf0b21bb3cffe23b377704257c546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:17 +0000
Subject: [PATCH 30/52] fix: masked jacobians when all the batch is masked out

---
 theseus/core/cost_function.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index 4e90426..0ce9c8d 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -48,6 +48,8 @@ def masked_jacobians(
         for v in cost_fn.optim_vars
     ]
     err = aux_tensor.new_zeros(batch_size, cost_fn.dim())
+    if not mask.any():
+        return jacobians, err
     with masked_variables(cost_fn_vars, mask):
         masked_jacobians_, err[mask] = cost_fn.jacobians()
         for masked_jac, jac in zip(masked_jacobians_, jacobians):
-- 
2.43.0


From 0e3128e4ecfc35f38b27cda221d1ef05d50debb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:08 +0000
Subject: [PATCH 31/52] fix: vectorized retraction of variables with batch size
 1

---
 theseus/core/vectorizer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/theseus/core/vectorizer.py b/theseus/core/vectorizer.py
index 64b672f..fa0b546 100644
--- a/theseus/core/vectorizer.py
+++ b/theseus/core/vectorizer.py
@@ -427,15 +427,13 @@ class Vectorize:
         ] = {}
 
         start_idx = 0
-        batch_size = -1
+        ordering = list(ordering)
+        # Variables (and delta) with batch size 1 are expanded to the full batch
+        batch_size = max([delta.shape[0]] + [var.shape[0] for var in ordering])
+        delta = Vectorize._expand(delta, batch_size)
         # Create var info by looping variables in the given order
         # All variables of the same type get grouped together, and their deltas saved
         for var in ordering:
-            if batch_size == -1:
-                batch_size = var.shape[0]
-            else:
-                assert batch_size == var.shape[0]
-
             delta_slice = delta[:, start_idx : start_idx + var.dof()]
             start_idx += var.dof()
             var_type = (var.__class__, var.dof())
@@ -450,7 +448,9 @@ class Vectorize:
             # Get the vectorized tensor that holds all the current variable tensors.
             # The resulting shape is (N * b, M), b is batch size, N is the number of
             # variables in the group, and M is the data shape for this class
-            vectorized_tensor = torch.cat([v.tensor for v in var_list], dim=0)
+            vectorized_tensor = torch.cat(
+                [Vectorize._expand(v.tensor, batch_size) for v in var_list], dim=0
+            )
             assert (
                 vectorized_tensor.shape
                 == (n_vars * batch_size,) + vectorized_tensor.shape[1:]
-- 
2.43.0


From 43a4ce0fbbdfb6b6372ea66f05e5d88fe4b9cb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:20 +0000
Subject: [PATCH 32/52] fix: costs with different optim/aux variables are not
 vectorized together

---
 theseus/core/vectorizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theseus/core/vectorizer.py b/theseus/core/vectorizer.py
index fa0b546..8aa42c2 100644
--- a/theseus/core/vectorizer.py
+++ b/theseus/core/vectorizer.py
@@ -35,7 +35,8 @@ def _get_cost_function_schema(cost_function: CostFunction) -> _CostFunctionSchem
         return f"{_fullname(var)}{tuple(var.shape[1:])}"
 
     return (
-        (_fullname(cost_function),)
+        # Costs with the same variables but a different optim/aux split don't match
+        (f"{_fullname(cost_function)}__{cost_function.num_optim_vars()}",)
         + tuple(_varinfo(v) for v in cost_function.optim_vars)
         + tuple(_varinfo(v) for v in cost_function.aux_vars)
         + (_fullname(cost_function.weight),)
-- 
2.43.0


From fd25158d8eb4e46b064a6f71b1175a8aecb62686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:20 +0000
Subject: [PATCH 33/52] fix: best solution tracking for variables with batch
 size 1

---
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index ea2d4dd..535a686 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -125,7 +125,11 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
             return None
         solution_dict = {}
         for var in self.objective.optim_vars.values():
-            solution_dict[var.name] = var.tensor.detach().clone().cpu()
+            # Variables with batch size 1 get a solution for every batch element
+            tensor = var.tensor.detach()
+            if tensor.shape[0] == 1:
+                tensor = tensor.expand(self.objective.batch_size, *tensor.shape[1:])
+            solution_dict[var.name] = tensor.clone().cpu()
         return solution_dict
 
     def _init_info(
-- 
2.43.0


From 372463d1f2dcb24183c49913908bd59b32f63162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:45 +0000
Subject: [PATCH 34/52] fix: hinge jacobians of a vector with batch size 1

---
 theseus/embodied/motionmodel/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/embodied/motionmodel/misc.py b/theseus/embodied/motionmodel/misc.py
index 925815e..5f8419f 100644
--- a/theseus/embodied/motionmodel/misc.py
+++ b/theseus/embodied/motionmodel/misc.py
@@ -77,7 +77,7 @@ class HingeCost(CostFunction):
     def jacobians(self) -> Tuple[List[torch.Tensor], torch.Tensor]:
         error, below_idx, above_idx = self._compute_error()
         J = self.vector.tensor.new_zeros(
-            self.vector.shape[0], self.vector.dof(), self.vector.dof()
+            error.shape[0], self.vector.dof(), self.vector.dof()
         )
         J[below_idx.diag_embed()] = -1.0
         J[above_idx.diag_embed()] = 1.0
-- 
2.43.0


From 7e9d531522627560d97dd3dca40c3769ceed20ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:28 +0000
Subject: [PATCH 35/52] fix: double integrator with variables of different
 batch sizes

---
 theseus/embodied/motionmodel/double_integrator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/theseus/embodied/motionmodel/double_integrator.py b/theseus/embodied/motionmodel/double_integrator.py
index 99b6ae7..877faf0 100644
--- a/theseus/embodied/motionmodel/double_integrator.py
+++ b/theseus/embodied/motionmodel/double_integrator.py
@@ -53,14 +53,16 @@ class DoubleIntegrator(CostFunction):
     def _error_from_pose_diff(self, pose_diff: torch.Tensor) -> torch.Tensor:
         pose_diff_err = pose_diff - self.dt.tensor.view(-1, 1) * self.vel1.tensor
         vel_diff = self.vel2.tensor - self.vel1.tensor
-        return torch.cat([pose_diff_err, vel_diff], dim=1)
+        return torch.cat(torch.broadcast_tensors(pose_diff_err, vel_diff), dim=1)
 
     def error(self) -> torch.Tensor:
         return self._error_from_pose_diff(self._new_pose_diff())
 
     def jacobians(self) -> Tuple[List[torch.Tensor], torch.Tensor]:
         # Pre-allocate jacobian tensors
-        batch_size = self.pose1.shape[0]
+        Jlocal: List[torch.Tensor] = []
+        error = self._error_from_pose_diff(self._new_pose_diff(Jlocal))
+        batch_size = error.shape[0]
         dof = self.pose1.dof()
         dtype = self.pose1.dtype
         device = self.pose1.device
@@ -69,8 +71,6 @@ class DoubleIntegrator(CostFunction):
         Jerr_pose2 = torch.zeros_like(Jerr_pose1)
         Jerr_vel2 = torch.zeros_like(Jerr_pose1)
 
-        Jlocal: List[torch.Tensor] = []
-        error = self._error_from_pose_diff(self._new_pose_diff(Jlocal))
         Jerr_pose1[:, :dof, :] = Jlocal[0]
         identity = torch.eye(dof, dtype=dtype, device=device).repeat(batch_size, 1, 1)
         Jerr_vel1[:, :dof, :] = -self.dt.tensor.view(-1, 1, 1) * identity
-- 
2.43.0


From 80030df875d622039819fd8a1139ae8cb9725952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:28 +0000
Subject: [PATCH 36/52] fix: nonholonomic jacobians of a velocity with batch
 size 1

---
 theseus/embodied/motionmodel/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theseus/embodied/motionmodel/misc.py b/theseus/embodied/motionmodel/misc.py
index 5f8419f..ce2fa6e 100644
--- a/theseus/embodied/motionmodel/misc.py
+++ b/theseus/embodied/motionmodel/misc.py
@@ -162,8 +162,8 @@ class Nonholonomic(CostFunction):
         cos: torch.Tensor,
         sin: torch.Tensor,
     ) -> Tuple[torch.Tensor, torch.Tensor]:
-        Jpose = self.vel.tensor.new_zeros(self.vel.shape[0], 1, 3)
-        Jvel = self.vel.tensor.new_zeros(self.vel.shape[0], 1, 3)
+        Jpose = error.new_zeros(error.shape[0], 1, 3)
+        Jvel = error.new_zeros(error.shape[0], 1, 3)
         Jpose[:, 0, 2] = -(self.vel[:, 1] * sin + self.vel[:, 0] * cos)
         Jvel[:, 0, 0] = -sin
         Jvel[:, 0, 1] = cos
-- 
2.43.0


From 26b32e1ce6df152da1552724cbe19bb45e612570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:28 +0000
Subject: [PATCH 37/52] fix: quasi-static pushing with variables of different
 batch sizes

---
 theseus/embodied/motionmodel/quasi_static_pushing_planar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/theseus/embodied/motionmodel/quasi_static_pushing_planar.py b/theseus/embodied/motionmodel/quasi_static_pushing_planar.py
index 2b9e822..a0f52fd 100644
--- a/theseus/embodied/motionmodel/quasi_static_pushing_planar.py
+++ b/theseus/embodied/motionmodel/quasi_static_pushing_planar.py
@@ -41,7 +41,9 @@ class QuasiStaticPushingPlanar(CostFunction):
         self.register_aux_vars(["c_square"])
 
     def _get_tensor_info(self) -> Tuple[int, torch.device, torch.dtype]:
-        return self.obj1.shape[0], self.obj1.device, self.obj1.dtype
+        all_vars = [self.obj1, self.obj2, self.eff1, self.eff2, self.c_square]
+        batch_size = max(v.shape[0] for v in all_vars)
+        return batch_size, self.obj1.device, self.obj1.dtype
 
     # See Eqs. 3-7 in Zhou et al.
     def _compute_D(
@@ -235,7 +237,7 @@ class QuasiStaticPushingPlanar(CostFunction):
             get_jacobians=get_jacobians,
         )
 
-        error = torch.bmm(D, V.unsqueeze(2)).squeeze(2) - Vp
+        error = torch.matmul(D, V.unsqueeze(2)).squeeze(2) - Vp
 
         if not get_jacobians:
             return error, None
-- 
2.43.0


From 2791408f6fc720aaae5aaf43e4aed4c9ce1fe2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:48 +0000
Subject: [PATCH 38/52] fix: hinge jacobians with a single batched limit

---
 theseus/embodied/motionmodel/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theseus/embodied/motionmodel/misc.py b/theseus/embodied/motionmodel/misc.py
index ce2fa6e..0038a14 100644
--- a/theseus/embodied/motionmodel/misc.py
+++ b/theseus/embodied/motionmodel/misc.py
@@ -79,8 +79,8 @@ class HingeCost(CostFunction):
         J = self.vector.tensor.new_zeros(
             error.shape[0], self.vector.dof(), self.vector.dof()
         )
-        J[below_idx.diag_embed()] = -1.0
-        J[above_idx.diag_embed()] = 1.0
+        J[below_idx.expand_as(error).diag_embed()] = -1.0
+        J[above_idx.expand_as(error).diag_embed()] = 1.0
         return [J], error
 
     def _copy_impl(self, new_name: Optional[str] = None) -> "HingeCost":
-- 
2.43.0


From 7214056f507ce952100a6d1f9357d0b9e2469657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:48 +0000
Subject: [PATCH 39/52] fix: collision costs of a pose with batch size 1 and
 batched aux variables

---
 theseus/embodied/collision/collision.py             | 2 +-
 theseus/embodied/collision/eff_obj_contact.py       | 5 ++---
 theseus/embodied/collision/signed_distance_field.py | 4 ++++
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/theseus/embodied/collision/collision.py b/theseus/embodied/collision/collision.py
index dd2c923..a8ae42c 100644
--- a/theseus/embodied/collision/collision.py
+++ b/theseus/embodied/collision/collision.py
@@ -69,7 +69,7 @@ class Collision2D(CostFunction):
         distances, jacobian = self._compute_distances_and_jacobians()
         error = self._error_from_distances(distances)
         faraway_idx = distances > self.cost_eps.tensor
-        jacobian[faraway_idx] = 0.0
+        jacobian = jacobian.masked_fill(faraway_idx.unsqueeze(2), 0.0)
         return [-jacobian], error
 
     def _copy_impl(self, new_name: Optional[str] = None) -> "Collision2D":
diff --git a/theseus/embodied/collision/eff_obj_contact.py b/theseus/embodied/collision/eff_obj_contact.py
index e1f7b98..545e060 100644
--- a/theseus/embodied/collision/eff_obj_contact.py
+++ b/theseus/embodied/collision/eff_obj_contact.py
@@ -98,9 +98,8 @@ class EffectorObjectContactPlanar(CostFunction):
                 "Jacobians for huber loss are not yet implemented."
             )
         else:
-            lt_idx = distances < self.eff_radius.tensor
-            jacobians[0][lt_idx] *= -1.0
-            jacobians[1][lt_idx] *= -1.0
+            lt_idx = (distances < self.eff_radius.tensor).unsqueeze(2)
+            jacobians = tuple(torch.where(lt_idx, -jac, jac) for jac in jacobians)
         return [jacobians[0], jacobians[1]], error
 
     def _copy_impl(
diff --git a/theseus/embodied/collision/signed_distance_field.py b/theseus/embodied/collision/signed_distance_field.py
index b49c8a0..4d37bd2 100644
--- a/theseus/embodied/collision/signed_distance_field.py
+++ b/theseus/embodied/collision/signed_distance_field.py
@@ -194,6 +194,10 @@ class SignedDistanceField2D:
         self, points: torch.Tensor
     ) -> Tuple[torch.Tensor, torch.Tensor]:
         rows, cols, out_of_bounds_idx = self.convert_points_to_cell(points)
+        if rows.shape[0] == 1:  # the same points for every field
+            batch_size = self.sdf_data.shape[0]
+            rows, cols = rows.expand(batch_size, -1), cols.expand(batch_size, -1)
+            out_of_bounds_idx = out_of_bounds_idx.expand(batch_size, -1)
 
         lr = torch.floor(rows)
         lc = torch.floor(cols)
-- 
2.43.0


From 2d7f2f7bacde164629d400bea0707256d2e3f675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:53 +0000
Subject: [PATCH 40/52] fix: RevoluteJointX/Y/Z and PrismaticJointX/Y/Z swapped
 the axis and the joint id

---
 torchkin/torchkin/joint.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/torchkin/torchkin/joint.py b/torchkin/torchkin/joint.py
index 868bc55..191797f 100644
--- a/torchkin/torchkin/joint.py
+++ b/torchkin/torchkin/joint.py
@@ -306,7 +306,7 @@ class RevoluteJointX(_RevoluteJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 0, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 0, id, parent_link, child_link, origin, dtype, device)
 
 
 class RevoluteJointY(_RevoluteJointXYZImpl):
@@ -320,7 +320,7 @@ class RevoluteJointY(_RevoluteJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 1, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 1, id, parent_link, child_link, origin, dtype, device)
 
 
 class RevoluteJointZ(_RevoluteJointXYZImpl):
@@ -334,7 +334,7 @@ class RevoluteJointZ(_RevoluteJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 2, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 2, id, parent_link, child_link, origin, dtype, device)
 
 
 class _PrismaticJointImpl(Joint):
@@ -457,7 +457,7 @@ class PrismaticJointX(_PrismaticJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 0, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 0, id, parent_link, child_link, origin, dtype, device)
 
 
 class PrismaticJointY(_PrismaticJointXYZImpl):
@@ -471,7 +471,7 @@ class PrismaticJointY(_PrismaticJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 1, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 1, id, parent_link, child_link, origin, dtype, device)
 
 
 class PrismaticJointZ(_PrismaticJointXYZImpl):
@@ -485,4 +485,4 @@ class PrismaticJointZ(_PrismaticJointXYZImpl):
         dtype: Optional[torch.dtype] = None,
         device: DeviceType = None,
     ):
-        super().__init__(name, id, 2, parent_link, child_link, origin, dtype, device)
+        super().__init__(name, 2, id, parent_link, child_link, origin, dtype, device)
-- 
2.43.0


From 9a01764f8141068a8bb9b4a88f7f58f89823225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:53 +0000
Subject: [PATCH 41/52] fix: axis-aligned joints raised for batches of more
 than one angle

---
 torchkin/torchkin/joint.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/torchkin/torchkin/joint.py b/torchkin/torchkin/joint.py
index 191797f..0e5afa1 100644
--- a/torchkin/torchkin/joint.py
+++ b/torchkin/torchkin/joint.py
@@ -287,9 +287,9 @@ class _RevoluteJointXYZImpl(_RevoluteJointImpl):
         info = _RevoluteJointXYZImpl.axis_info[self.axis_id]
         rot = angle.new_zeros(angle.shape[0], 3, 3)
         rot[:, info[0], info[0]] = 1
-        rot[:, info[1], info[1]] = angle.cos()
+        rot[:, info[1], info[1]] = angle[:, 0].cos()
         rot[:, info[2], info[2]] = rot[:, info[1], info[1]]
-        rot[:, info[2], info[1]] = angle.sin()
+        rot[:, info[2], info[1]] = angle[:, 0].sin()
         rot[:, info[1], info[2]] = -rot[:, info[2], info[1]]
 
         return rot
@@ -434,7 +434,7 @@ class _PrismaticJointXYZImpl(_PrismaticJointImpl):
 
     def _translation_impl(self, angle: torch.Tensor) -> torch.Tensor:
         trans = angle.new_zeros(angle.shape[0], 3)
-        trans[:, self.axis_id] = angle
+        trans[:, self.axis_id] = angle[:, 0]
         return trans
 
     def _relative_pose_impl(self, angle: torch.Tensor) -> torch.Tensor:
-- 
2.43.0


From 11fc3c495c2e1a28c04e90c3227e469ce861796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:53 +0000
Subject: [PATCH 42/52] fix: URDF joints without an axis element raised instead
 of using the default x axis

---
 torchkin/torchkin/robot.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/torchkin/torchkin/robot.py b/torchkin/torchkin/robot.py
index a355930..9a6edc3 100644
--- a/torchkin/torchkin/robot.py
+++ b/torchkin/torchkin/robot.py
@@ -101,7 +101,12 @@ class Robot(abc.ABC):
                         origin=origin,
                     )
                 else:
-                    axis = origin.new_tensor(urdf_joint.axis)
+                    # URDF's default joint axis is the x-axis
+                    axis = origin.new_tensor(
+                        urdf_joint.axis
+                        if urdf_joint.axis is not None
+                        else [1.0, 0.0, 0.0]
+                    )
                     joint = joint_type(
                         urdf_joint.name,
                         axis,
-- 
2.43.0


From e4b4350d31e571d067eecf0a19cfa112d64a4976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:53 +0000
Subject: [PATCH 43/52] fix: lie group check contexts were not restored when
 their body raised

---
 theseus/geometry/lie_group_check.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/theseus/geometry/lie_group_check.py b/theseus/geometry/lie_group_check.py
index 1305378..7f78fa8 100644
--- a/theseus/geometry/lie_group_check.py
+++ b/theseus/geometry/lie_group_check.py
@@ -50,8 +50,10 @@ def set_lie_group_check_enabled(
     """
     prev = _LieGroupCheckContext.get_context()
     _LieGroupCheckContext.set_context(mode, silent, silence_internal_warnings)
-    yield
-    _LieGroupCheckContext.set_context(*prev)
+    try:
+        yield
+    finally:
+        _LieGroupCheckContext.set_context(*prev)
 
 
 @contextmanager
@@ -94,5 +96,7 @@ def silence_internal_warnings():
     """
     mode, silent, prev_silence_internal_warnings = _LieGroupCheckContext.get_context()
     _LieGroupCheckContext.set_context(mode, silent, silence_internal_warnings=True)
-    yield
-    _LieGroupCheckContext.set_context(mode, silent, prev_silence_internal_warnings)
+    try:
+        yield
+    finally:
+        _LieGroupCheckContext.set_context(mode, silent, prev_silence_internal_warnings)
-- 
2.43.0


From 057387d167f725b24c0b5b9bd031e7055d7fda36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:53 +0000
Subject: [PATCH 44/52] fix: LieGroupTensor.add_ recursed forever outside the
 tangent context

---
 theseus/geometry/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/geometry/utils.py b/theseus/geometry/utils.py
index c9504de..fec1a9d 100644
--- a/theseus/geometry/utils.py
+++ b/theseus/geometry/utils.py
@@ -73,7 +73,7 @@ class LieGroupTensor(torch.Tensor):
             grad = group.project(update)
             self.set_(group.retract(alpha * grad).tensor)
         else:
-            self.add_(update, alpha=alpha)
+            super().add_(update, alpha=alpha)
 
         return self
 
-- 
2.43.0


From c97fca78aaa101b83a5958a45c054dc7ca2d70ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:53 +0000
Subject: [PATCH 45/52] fix: SO2.normalize of a zero vector gave nan in float64
 (so2_norm_eps_float64 was missing)

---
 theseus/global_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/global_params.py b/theseus/global_params.py
index 1d05ae3..dba8c8f 100644
--- a/theseus/global_params.py
+++ b/theseus/global_params.py
@@ -49,7 +49,7 @@ class _TheseusGlobalParams:
         self.se2_near_zero_eps_float32 = 3e-2
         self.se2_d_near_zero_eps_float32 = 1e-1
         self.so3_to_quaternion_sqrt_eps_float32 = 1e-6
-        self.so2_norm_eps_float32 = 1e-12
+        self.so2_norm_eps_float64 = 1e-12
 
         self.so2_matrix_eps_float64 = 4e-7
         self.se2_near_zero_eps_float64 = 1e-6
-- 
2.43.0


From f80aa93fb1e93a5ab856361394d2538648f38e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:53 +0000
Subject: [PATCH 46/52] fix: SE3.check_hat_tensor checked the last column
 instead of the last row

---
 torchlie/torchlie/functional/se3_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchlie/torchlie/functional/se3_impl.py b/torchlie/torchlie/functional/se3_impl.py
index 91866e4..6ed628c 100644
--- a/torchlie/torchlie/functional/se3_impl.py
+++ b/torchlie/torchlie/functional/se3_impl.py
@@ -50,7 +50,7 @@ def check_tangent_vector(tangent_vector: torch.Tensor):
 
 def check_hat_tensor(tensor: torch.Tensor):
     def _impl(t_: torch.Tensor):
-        if t_[..., -1].abs().max() > LIE_PARAMS.get_eps("se3", "hat", t_.dtype):
+        if t_[..., -1, :].abs().max() > LIE_PARAMS.get_eps("se3", "hat", t_.dtype):
             raise ValueError("The last row for hat tensors of SE3 must be zero")
 
         SO3.check_hat_tensor(t_[..., :3, :3])
-- 
2.43.0


From 3da8d42323fc0d6eb350d2ad6e644975ee57011d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:53 +0000
Subject: [PATCH 47/52] fix: SE2.rand and SE2.randn raised with
 requires_grad=True

---
 theseus/geometry/se2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theseus/geometry/se2.py b/theseus/geometry/se2.py
index ef4e965..b6d6431 100644
--- a/theseus/geometry/se2.py
+++ b/theseus/geometry/se2.py
@@ -58,9 +58,9 @@ class SE2(LieGroup):
             generator=generator,
             dtype=dtype,
             device=device,
-            requires_grad=requires_grad,
         )
         x_y_theta[:, 2] = 2 * theseus.constants.PI * (x_y_theta[:, 2] - 0.5)
+        x_y_theta.requires_grad_(requires_grad)
 
         return SE2(x_y_theta=x_y_theta)
 
@@ -80,9 +80,9 @@ class SE2(LieGroup):
             generator=generator,
             dtype=dtype,
             device=device,
-            requires_grad=requires_grad,
         )
         x_y_theta[:, 2] *= theseus.constants.PI
+        x_y_theta.requires_grad_(requires_grad)
 
         return SE2(x_y_theta=x_y_theta)
 
-- 
2.43.0


From a696aa885111ce9436e7c98e4e5e2765ce743f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:53 +0000
Subject: [PATCH 48/52] fix: SO3 and SE3 never validated their data, since
 torchlie checks are disabled by default

---
 theseus/geometry/se3.py | 5 +++--
 theseus/geometry/so3.py | 8 +++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/theseus/geometry/se3.py b/theseus/geometry/se3.py
index a212b13..18e1e84 100644
--- a/theseus/geometry/se3.py
+++ b/theseus/geometry/se3.py
@@ -9,7 +9,7 @@ from typing import List, Optional, Union, cast
 import torch
 
 import theseus.constants
-from torchlie.functional import SE3 as SE3_base
+from torchlie.functional import SE3 as SE3_base, enable_checks
 
 from .lie_group import LieGroup
 from .lie_group_check import _LieGroupCheckContext, no_lie_group_check
@@ -119,7 +119,8 @@ class SE3(LieGroup):
         if tensor.ndim != 3 or tensor.shape[1:] != (3, 4):
             raise ValueError("SE3 data tensors can only be 3x4 matrices.")
         try:
-            SE3_base.check_group_tensor(tensor)
+            with enable_checks():
+                SE3_base.check_group_tensor(tensor)
         except ValueError:
             return False
         return True
diff --git a/theseus/geometry/so3.py b/theseus/geometry/so3.py
index f3ff8b0..ba66853 100644
--- a/theseus/geometry/so3.py
+++ b/theseus/geometry/so3.py
@@ -10,7 +10,7 @@ import torch
 
 import theseus.constants
 from theseus.global_params import _THESEUS_GLOBAL_PARAMS
-from torchlie.functional import SO3 as SO3_base
+from torchlie.functional import SO3 as SO3_base, enable_checks
 
 from .lie_group import LieGroup
 from .lie_group_check import _LieGroupCheckContext
@@ -119,7 +119,8 @@ class SO3(LieGroup):
             if tensor.ndim != 3 or tensor.shape[1:] != (3, 3):
                 raise ValueError("SO3 data tensors can only be 3x3 matrices.")
             try:
-                SO3_base.check_group_tensor(tensor)
+                with enable_checks():
+                    SO3_base.check_group_tensor(tensor)
             except ValueError:
                 return False
         return True
@@ -146,7 +147,8 @@ class SO3(LieGroup):
 
         checks_enabled, silent_unchecks, _ = _LieGroupCheckContext.get_context()
         if checks_enabled:
-            SO3_base.check_hat_tensor(matrix)
+            with enable_checks():
+                SO3_base.check_hat_tensor(matrix)
         elif not silent_unchecks:
             warnings.warn(
                 "Lie group checks are disabled, so the skew-symmetry of hat matrices is "
-- 
2.43.0


From 46a64ac7d3db99d329fc33dd37ac5b7a9a6b7623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:53 +0000
Subject: [PATCH 49/52] fix: LieTensor * composed its operands in the reverse
 order

---
 torchlie/torchlie/lie_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchlie/torchlie/lie_tensor.py b/torchlie/torchlie/lie_tensor.py
index edf45d4..5e518ce 100644
--- a/torchlie/torchlie/lie_tensor.py
+++ b/torchlie/torchlie/lie_tensor.py
@@ -374,7 +374,7 @@ class LieTensor(_LieTensorBase):
                 f"Incorrect argument for '*' operator. "
                 f"Expected LieTensor, but got {type(other)}"
             )
-        return type_cast(LieTensor, other).compose(self)
+        return self.compose(type_cast(LieTensor, other))
 
     def __matmul__(self, point: TensorType) -> torch.Tensor:
         if isinstance(point, LieTensor):
-- 
2.43.0


From fc3931271c52291a42a90c07170fe14fe44e1876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:53 +0000
Subject: [PATCH 50/52] fix: TheseusLayer.compute_samples raised for objectives
 that are not float32

---
 theseus/theseus_layer.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index 814f0a2..c9a1856 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -115,14 +115,20 @@ class TheseusLayer(nn.Module):
 
         batch_size, n_vars = delta.shape
         y = torch.normal(
-            mean=torch.zeros((n_vars, n_samples), device=delta.device),
-            std=torch.ones((n_vars, n_samples), device=delta.device),
+            mean=torch.zeros(
+                (n_vars, n_samples), device=delta.device, dtype=delta.dtype
+            ),
+            std=torch.ones(
+                (n_vars, n_samples), device=delta.device, dtype=delta.dtype
+            ),
         )
         delta_samples = (torch.linalg.solve_triangular(sqrt_AtA, y, upper=True)) + (
             delta.unsqueeze(-1)
         ).repeat(1, 1, n_samples)
 
-        x_samples = torch.zeros((batch_size, n_vars, n_samples), device=delta.device)
+        x_samples = torch.zeros(
+            (batch_size, n_vars, n_samples), device=delta.device, dtype=delta.dtype
+        )
         for sidx in range(0, n_samples):
             var_idx = 0
             for var in linear_solver.linearization.ordering:
-- 
2.43.0


From e4131963f75b23b852b4950c52ad2c151e9973a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:53 +0000
Subject: [PATCH 51/52] fix: temporary tensors of AutoDiffCostFunction were not
 restored when the error function raised

---
 theseus/core/cost_function.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index 0ce9c8d..feddde9 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -185,9 +185,11 @@ class AutogradMode(Enum):
 @contextlib.contextmanager
 def _tmp_tensors(vars: Sequence[Variable]):
     tensors = [v.tensor for v in vars]
-    yield
-    for v, tensor in zip(vars, tensors):
-        v.update(tensor)
+    try:
+        yield
+    finally:
+        for v, tensor in zip(vars, tensors):
+            v.update(tensor)
 
 
 # The error function is assumed to receive variables in the format
-- 
2.43.0


From 4715a7802430afa941f1f89dd8cb50dc7879a573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:53 +0000
Subject: [PATCH 52/52] fix: copies of AutoDiffCostFunction dropped their
 autograd settings

---
 theseus/core/cost_function.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index feddde9..37cbb69 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -411,6 +411,10 @@ class AutoDiffCostFunction(CostFunction):
             aux_vars=[v.copy() for v in self.aux_vars],
             cost_weight=self.weight.copy(),
             name=new_name,
+            autograd_create_graph=self._autograd_create_graph,
+            autograd_strict=self._autograd_strict,
+            autograd_vectorize=self._autograd_vectorize,
+            autograd_strategy=self._autograd_strategy,
             autograd_mode=self._autograd_mode,
         )
 
-- 
2.43.0

