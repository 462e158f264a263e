From b2313a5802fe42a9251bb69c84b564f9d5a6ebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 01/69] fix: robust cost with flatten_dims accepts batched loss
 parameters and vectorization

---
 theseus/core/robust_cost_function.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/theseus/core/robust_cost_function.py b/theseus/core/robust_cost_function.py
index 8198fcb..22275cd 100644
--- a/theseus/core/robust_cost_function.py
+++ b/theseus/core/robust_cost_function.py
@@ -87,12 +87,13 @@ class RobustCostFunction(CostFunction):
     def weighted_error(self) -> torch.Tensor:
         weighted_error = self.cost_function.weighted_error()
         if self.flatten_dims:
-            weighted_error = weighted_error.reshape(-1, 1)
+            # Each dimension is its own error term, so the loss is evaluated elementwise
+            # (the loss parameters are broadcast over dimensions).
+            error_loss = self._evaluate_loss(weighted_error**2)
+            return (error_loss + RobustCostFunction._EPS).sqrt()
         squared_norm = torch.sum(weighted_error**2, dim=1, keepdim=True)
         error_loss = self._evaluate_loss(squared_norm)
 
-        if self.flatten_dims:
-            return (error_loss.reshape(-1, self.dim()) + RobustCostFunction._EPS).sqrt()
         # The return value is a hacky way to make it so that
         # ||weighted_error||^2 = error_loss
         # By doing this we avoid having to change the objective's error computation
@@ -118,20 +119,16 @@ class RobustCostFunction(CostFunction):
             weighted_error,
         ) = self.cost_function.weighted_jacobians_error()
         if self.flatten_dims:
-            weighted_error = weighted_error.reshape(-1, 1)
-            for i, wj in enumerate(weighted_jacobians):
-                weighted_jacobians[i] = wj.view(-1, 1, wj.shape[2])
-        squared_norm = torch.sum(weighted_error**2, dim=1, keepdim=True)
+            # One scale per error dimension
+            squared_norm = weighted_error**2
+        else:
+            squared_norm = torch.sum(weighted_error**2, dim=1, keepdim=True)
         rescale = (self._linearize(squared_norm) + RobustCostFunction._EPS).sqrt()
 
         rescaled_jacobians = [
-            rescale.view(-1, 1, 1) * jacobian for jacobian in weighted_jacobians
+            rescale.unsqueeze(2) * jacobian for jacobian in weighted_jacobians
         ]
         rescaled_error = rescale * weighted_error
-        if self.flatten_dims:
-            return [
-                rj.reshape(-1, self.dim(), rj.shape[2]) for rj in rescaled_jacobians
-            ], rescaled_error.reshape(-1, self.dim())
         return rescaled_jacobians, rescaled_error
 
     def dim(self) -> int:
-- 
2.43.0


From c363a093a7598a4d4cf6f0067b13848e3d883109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 02/69] fix: vectorized Objective.error() follows cost function
 order, as documented

---
 theseus/core/vectorizer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/theseus/core/vectorizer.py b/theseus/core/vectorizer.py
index 880732e..270e917 100644
--- a/theseus/core/vectorizer.py
+++ b/theseus/core/vectorizer.py
@@ -391,11 +391,16 @@ class Vectorize:
         else:
             # If not full vectorization, just copy the containers so that we don't override the
             # permanent cache. The results will be returned in these temp containers.
+            tmp_wrappers = {
+                wrapper: _CostFunctionWrapper(wrapper.cost_fn)
+                for wrapper in self._cost_fn_wrappers
+            }
             schema_dict = {
-                schema: [_CostFunctionWrapper(cf.cost_fn) for cf in cf_list]
-                for schema, cf_list in self._schema_dict.items()
+                schema: [tmp_wrappers[wrapper] for wrapper in wrappers]
+                for schema, wrappers in self._schema_dict.items()
             }
-            ret = [cf for cf_list in schema_dict.values() for cf in cf_list]
+            # Must follow the order in which cost functions were added
+            ret = list(tmp_wrappers.values())
         for schema, cost_fn_wrappers in schema_dict.items():
             if len(cost_fn_wrappers) == 1:
                 self._handle_singleton_wrapper(schema, cost_fn_wrappers, mode)
-- 
2.43.0


From 85d5fca6084e1aef70c615ea9af073efcce8c6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 03/69] fix: Objective.error(also_update=False) restores aux
 variables too, and restores on failure

---
 theseus/core/objective.py | 64 ++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 6b8121f..99ddb79 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -584,32 +584,46 @@ class Objective:
                 concatenation of all cost functions error vectors. The order corresponds
                 to the order in which cost functions were added to the objective.
         """
-        old_tensors = {}
-        if input_tensors is not None:
-            if not also_update:
-                for var in self.optim_vars:
-                    old_tensors[var] = self.optim_vars[var].tensor
-            # Update vectorization only if the input tensors will be used for a
-            # persistent update.
-            self.update(input_tensors=input_tensors, _update_vectorization=also_update)
-
-        # Current behavior when vectorization is on, is to always compute the error.
-        # One could potentially optimize by only recompute when `input_tensors`` is
-        # not None, and serving from the jacobians cache. However, when robust cost
-        # functions are present this results in incorrect rescaling of error terms
-        # so we are currently avoiding this optimization. Optimizers also compute error
-        # by passing `input_tensors`, so for optimizers the current version should be
-        # good enough.
-        error_vector = torch.cat(
-            [cf.weighted_error() for cf in self._get_error_iter()], dim=1
-        )
+        temporary = input_tensors is not None and not also_update
+        old_tensors: Dict[str, torch.Tensor] = {}
+        old_batch_size = self._batch_size
+        if temporary:
+            # Any variable in the objective can be updated by `input_tensors`
+            old_tensors = {
+                name: self._all_variables[name].tensor
+                for name in input_tensors
+                if name in self._all_variables
+            }
+        success = False
+        try:
+            if input_tensors is not None:
+                # Update vectorization only if the input tensors will be used for a
+                # persistent update.
+                self.update(
+                    input_tensors=input_tensors, _update_vectorization=also_update
+                )
 
-        if input_tensors is not None and not also_update:
-            # This line reverts back to the old tensors if a persistent update wasn't
-            # required (i.e., `also_update is False`).
-            # In this case, we pass _update_vectorization=False because
-            # vectorization wasn't updated in the first call to `update()`.
-            self.update(old_tensors, _update_vectorization=False)
+            # Current behavior when vectorization is on, is to always compute the error.
+            # One could potentially optimize by only recompute when `input_tensors`` is
+            # not None, and serving from the jacobians cache. However, when robust cost
+            # functions are present this results in incorrect rescaling of error terms
+            # so we are currently avoiding this optimization. Optimizers also compute
+            # error by passing `input_tensors`, so for optimizers the current version
+            # should be good enough.
+            error_vector = torch.cat(
+                [cf.weighted_error() for cf in self._get_error_iter()], dim=1
+            )
+            success = True
+        finally:
+            if temporary:
+                # Reverts back to the old tensors if a persistent update wasn't
+                # required (i.e., `also_update is False`), even if the evaluation fails.
+                for name, tensor in old_tensors.items():
+                    self._all_variables[name].update(tensor)
+                if success:
+                    self._resolve_batch_size()
+                else:
+                    self._batch_size = old_batch_size
         return error_vector
 
     def error_metric(
-- 
2.43.0


From c3b5327ae521103caf0ace6320e54bc5d904fc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 04/69] fix: vectorization results of a failed run are never
 served as current

---
 theseus/core/objective.py  | 6 +++++-
 theseus/core/vectorizer.py | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 99ddb79..cd8f7a8 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -828,7 +828,6 @@ class Objective:
         num_updates = {name: v._num_updates for name, v in self._all_variables.items()}
         needs = False
         if num_updates != self._num_updates_variables:
-            self._num_updates_variables = num_updates
             needs = True
 
         if torch.is_grad_enabled():
@@ -840,7 +839,11 @@ class Objective:
         if self.vectorized and self._vectorization_needs_update():
             if self._batch_size is None:
                 self._resolve_batch_size()
+            num_updates = {n: v._num_updates for n, v in self._all_variables.items()}
+            # If the run below fails, the vectorized results must not be used
+            self._num_updates_variables = {}
             self._vectorization_run()
+            self._num_updates_variables = num_updates
             self._last_vectorization_has_grad = torch.is_grad_enabled()
 
     # iterates over cost functions
@@ -946,6 +949,7 @@ class Objective:
         self._vectorization_to = vectorized_to
         self._retract_method = vectorized_retract_fn
         self._get_error_iter = error_iter_fn
+        self._num_updates_variables = {}  # nothing has been vectorized yet
         self._vectorized = True
 
     # Making public, since this should be a safe operation
diff --git a/theseus/core/vectorizer.py b/theseus/core/vectorizer.py
index 270e917..1049401 100644
--- a/theseus/core/vectorizer.py
+++ b/theseus/core/vectorizer.py
@@ -83,14 +83,14 @@ class _CostFunctionWrapper(CostFunction):
 
     def weighted_error(self) -> torch.Tensor:
         if self._cached_error is None:
-            return super().weighted_error()
+            return self.cost_fn.weighted_error()
         return self._cached_error
 
     def weighted_jacobians_error(
         self,
     ) -> Tuple[List[torch.Tensor], torch.Tensor]:
         if self._cached_jacobians is None:
-            return super().weighted_jacobians_error()
+            return self.cost_fn.weighted_jacobians_error()
         assert self._cached_error is not None
         return self._cached_jacobians, self._cached_error
 
-- 
2.43.0


From 71f24a8063071fda2e419c07023899e2effa5b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 05/69] fix: converting a variable invalidates vectorized
 results computed before it

---
 theseus/core/variable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theseus/core/variable.py b/theseus/core/variable.py
index 40e64f1..b9fd5af 100644
--- a/theseus/core/variable.py
+++ b/theseus/core/variable.py
@@ -80,6 +80,7 @@ class Variable:
     # calls to() on the internal tensors
     def to(self, *args, **kwargs):
         self.tensor = self.tensor.to(*args, **kwargs)
+        self._num_updates += 1  # anything computed with the old tensor is stale
 
     @property
     def shape(self) -> torch.Size:
-- 
2.43.0


From f3eec81ba9991b3da607080d1e2479a64b9f09c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 06/69] fix: Lie group check scopes restore the previous mode
 when left by an exception

---
 theseus/geometry/lie_group_check.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/theseus/geometry/lie_group_check.py b/theseus/geometry/lie_group_check.py
index 1305378..7f78fa8 100644
--- a/theseus/geometry/lie_group_check.py
+++ b/theseus/geometry/lie_group_check.py
@@ -50,8 +50,10 @@ def set_lie_group_check_enabled(
     """
     prev = _LieGroupCheckContext.get_context()
     _LieGroupCheckContext.set_context(mode, silent, silence_internal_warnings)
-    yield
-    _LieGroupCheckContext.set_context(*prev)
+    try:
+        yield
+    finally:
+        _LieGroupCheckContext.set_context(*prev)
 
 
 @contextmanager
@@ -94,5 +96,7 @@ def silence_internal_warnings():
     """
     mode, silent, prev_silence_internal_warnings = _LieGroupCheckContext.get_context()
     _LieGroupCheckContext.set_context(mode, silent, silence_internal_warnings=True)
-    yield
-    _LieGroupCheckContext.set_context(mode, silent, prev_silence_internal_warnings)
+    try:
+        yield
+    finally:
+        _LieGroupCheckContext.set_context(mode, silent, prev_silence_internal_warnings)
-- 
2.43.0


From d277e48c899f58e7f1deeef90d58459f6e0f0a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 07/69] fix: autodiff cost functions stay usable after a failed
 jacobian computation

---
 theseus/core/cost_function.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index 29482aa..b22df4f 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -183,9 +183,11 @@ class AutogradMode(Enum):
 @contextlib.contextmanager
 def _tmp_tensors(vars: Sequence[Variable]):
     tensors = [v.tensor for v in vars]
-    yield
-    for v, tensor in zip(vars, tensors):
-        v.update(tensor)
+    try:
+        yield
+    finally:
+        for v, tensor in zip(vars, tensors):
+            v.update(tensor)
 
 
 # The error function is assumed to receive variables in the format
-- 
2.43.0


From 4dbfdd21ffaee359babec6f7a3dff084258cd0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 08/69] fix: lie.as_euclidean() starts its mode on entering the
 scope, not on construction

---
 torchlie/torchlie/lie_tensor.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/torchlie/torchlie/lie_tensor.py b/torchlie/torchlie/lie_tensor.py
index edf45d4..5ed9494 100644
--- a/torchlie/torchlie/lie_tensor.py
+++ b/torchlie/torchlie/lie_tensor.py
@@ -40,13 +40,10 @@ class _LieAsEuclideanContext:
 
 
 class as_euclidean:
-    def __init__(self) -> None:
+    def __enter__(self) -> None:
         self.prev = _LieAsEuclideanContext.get_context()
         _LieAsEuclideanContext.set_context(True)
 
-    def __enter__(self) -> None:
-        pass
-
     def __exit__(self, exc_type: Any, exc_value: Any, traceback: Any) -> None:
         _LieAsEuclideanContext.set_context(self.prev)
 
-- 
2.43.0


From b7b5886d34728f090c15ea0dc37f5440ff9b0e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 09/69] fix: sparse CHOLMOD solve and its gradient keep double
 precision

---
 theseus/optimizer/autograd/cholmod_sparse_autograd.py | 8 ++++----
 theseus/optimizer/autograd/common.py                  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/theseus/optimizer/autograd/cholmod_sparse_autograd.py b/theseus/optimizer/autograd/cholmod_sparse_autograd.py
index 9c575df..0969379 100644
--- a/theseus/optimizer/autograd/cholmod_sparse_autograd.py
+++ b/theseus/optimizer/autograd/cholmod_sparse_autograd.py
@@ -48,7 +48,7 @@ class CholmodSolveFunction(torch.autograd.Function):
 
             # solve
             Atb_i = At_i @ b_cpu[i, :]
-            x_cpu[i, :] = torch.Tensor(cholesky_decomposition(Atb_i))
+            x_cpu[i, :] = torch.as_tensor(cholesky_decomposition(Atb_i))
             cholesky_decompositions.append(cholesky_decomposition)
 
         ctx.b_cpu = b_cpu
@@ -118,13 +118,13 @@ class CholmodSolveFunction(torch.autograd.Function):
         grad_output_cpu = grad_output.cpu()
 
         for i in range(batch_size):
-            H[i, :] = torch.Tensor(
+            H[i, :] = torch.as_tensor(
                 ctx.cholesky_decompositions[i](grad_output_cpu[i, :])
             )
 
             A_i = ctx.sparse_structure.csr_straight(ctx.At_val_cpu[i, :])
-            AH[i, :] = torch.Tensor(A_i @ H[i, :])
-            b_Ax[i, :] -= torch.Tensor(A_i @ ctx.x_cpu[i, :])
+            AH[i, :] = torch.as_tensor(A_i @ H[i, :])
+            b_Ax[i, :] -= torch.as_tensor(A_i @ ctx.x_cpu[i, :])
 
         # now we fill values of a matrix with structure identical to A with
         # selected entries from the difference of tensor products:
diff --git a/theseus/optimizer/autograd/common.py b/theseus/optimizer/autograd/common.py
index c75b203..3d53ebc 100644
--- a/theseus/optimizer/autograd/common.py
+++ b/theseus/optimizer/autograd/common.py
@@ -23,7 +23,7 @@ def compute_A_grad(
     detach_hessian: bool,
 ):
     A_grad = torch.empty(
-        size=(batch_size, len(A_col_ind)), device=x.device
+        size=(batch_size, len(A_col_ind)), dtype=x.dtype, device=x.device
     )  # return value, A's grad
     for r in range(len(A_row_ptr) - 1):
         start, end = A_row_ptr[r], A_row_ptr[r + 1]
-- 
2.43.0


From 19b6063720320b6a1b12894cf65bffcd1b83e3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 10/69] fix: dense solvers with check_singular keep dtype and
 per-element damping

---
 theseus/optimizer/linear/dense_solver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/theseus/optimizer/linear/dense_solver.py b/theseus/optimizer/linear/dense_solver.py
index e5e58e5..f140987 100644
--- a/theseus/optimizer/linear/dense_solver.py
+++ b/theseus/optimizer/linear/dense_solver.py
@@ -92,7 +92,7 @@ class DenseSolver(LinearSolver, abc.ABC):
             AtA = self.linearization.AtA
             Atb = self.linearization.Atb
             with torch.no_grad():
-                output = torch.zeros(AtA.shape[0], AtA.shape[1]).to(AtA.device)
+                output = torch.zeros_like(Atb.squeeze(2))
                 _, _, infos = torch.lu(AtA, get_infos=True)
                 good_idx = infos.bool().logical_not()
                 if not good_idx.all():
@@ -103,6 +103,8 @@ class DenseSolver(LinearSolver, abc.ABC):
                     )
             AtA = AtA[good_idx]
             Atb = Atb[good_idx]
+            if isinstance(damping, torch.Tensor) and damping.numel() > 1:
+                damping = damping.view(-1)[good_idx]
             solution = self._apply_damping_and_solve(
                 Atb,
                 AtA,
-- 
2.43.0


From d8ba66c42dffe7176e9cfae7c78f7598a8586853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 11/69] fix: vectorized cost functions whose weights are all
 zero are not evaluated on empty batches

---
 theseus/core/cost_function.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index b22df4f..5609bcd 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -48,6 +48,8 @@ def masked_jacobians(
         for v in cost_fn.optim_vars
     ]
     err = aux_tensor.new_zeros(batch_size, cost_fn.dim())
+    if not mask.any():
+        return jacobians, err  # cost functions need not support empty batches
     with masked_variables(cost_fn_vars, mask):
         masked_jacobians_, err[mask] = cost_fn.jacobians()
         for masked_jac, jac in zip(masked_jacobians_, jacobians):
-- 
2.43.0


From d9cae5e1afa222d3553ef378545b66346bbec601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 12/69] fix: best iteration and last error include the backward
 iterations of truncated/implicit modes

---
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index 755421f..824793b 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -242,7 +242,13 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
             best_solution = {}
             best_err_no_grad = info.best_err
             best_err_grad = grad_loop_info.best_err
-            idx_no_grad = (best_err_no_grad < best_err_grad).cpu()
+            # On ties, the best solution was already seen in the no grad loop
+            idx_no_grad = (best_err_no_grad <= best_err_grad).cpu()
+            info.best_iter = torch.where(
+                best_err_no_grad <= best_err_grad,
+                info.best_iter,
+                num_no_grad_iters + grad_loop_info.best_iter,
+            )
             best_err = torch.minimum(best_err_no_grad, best_err_grad)
             for var_name in info.best_solution:
                 sol_no_grad = info.best_solution[var_name]
@@ -255,6 +261,8 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
             info.best_solution = best_solution
             info.best_err = best_err
 
+        info.last_err = grad_loop_info.last_err
+
         # Merge the converged status into the info from the detached loop,
         M = info.status == NonlinearOptimizerStatus.MAX_ITERATIONS
         assert np.all(
-- 
2.43.0


From 35965f49ad70ebe777ccbd052bc2d8cfa5fc1754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 13/69] fix: a solver failure in the backward iterations
 without autograd is reported as FAIL, not an assertion

---
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index 824793b..07db37b 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -268,8 +268,13 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
         assert np.all(
             (grad_loop_info.status[M] == NonlinearOptimizerStatus.MAX_ITERATIONS)
             | (grad_loop_info.status[M] == NonlinearOptimizerStatus.CONVERGED)
+            | (grad_loop_info.status[M] == NonlinearOptimizerStatus.FAIL)
         )
         info.status[M] = grad_loop_info.status[M]
+        # A failure is reported for the whole batch, as done inside the loop
+        info.status[
+            grad_loop_info.status == NonlinearOptimizerStatus.FAIL
+        ] = NonlinearOptimizerStatus.FAIL
         info.converged_iter[M] = (
             info.converged_iter[M] + grad_loop_info.converged_iter[M]
         )
-- 
2.43.0


From 1a692cadb1af08b46542f4bb69907e8cc64526f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 14/69] fix: the iteration at which all elements converge is
 counted, and its error is the last error

---
 theseus/optimizer/nonlinear/dcem.py                    | 2 +-
 theseus/optimizer/nonlinear/nonlinear_least_squares.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/theseus/optimizer/nonlinear/dcem.py b/theseus/optimizer/nonlinear/dcem.py
index abce1e6..dbf66ae 100644
--- a/theseus/optimizer/nonlinear/dcem.py
+++ b/theseus/optimizer/nonlinear/dcem.py
@@ -190,9 +190,9 @@ class DCEM(NonlinearOptimizer):
                     np.array(converged_indices.cpu().numpy())
                 ] = NonlinearOptimizerStatus.CONVERGED
 
+                info.last_err = err
                 if converged_indices.all():
                     break  # nothing else will happen at this point
-                info.last_err = err
 
                 if end_iter_callback is not None:
                     end_iter_callback(self, info, mu, it_)
diff --git a/theseus/optimizer/nonlinear/nonlinear_least_squares.py b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
index a823f4a..3afd731 100644
--- a/theseus/optimizer/nonlinear/nonlinear_least_squares.py
+++ b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
@@ -199,9 +199,10 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
                 info.status[
                     converged_indices.cpu().numpy()
                 ] = NonlinearOptimizerStatus.CONVERGED
+                info.last_err = err
                 if converged_indices.all():
+                    iters_done += 1
                     break  # nothing else will happen at this point
-                info.last_err = err
 
                 if end_iter_callback is not None:
                     end_iter_callback(self, info, delta, it_)
-- 
2.43.0


From 38fd37cbfc4f409eef96eaff0bf2cd14c4dec84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 15/69] fix: an iterate with NaN error does not poison the best
 solution tracking

---
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index 07db37b..52705e3 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -198,14 +198,17 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
         if info.best_solution is not None:
             # Only copy best solution if needed (None means track_best_solution=False)
             assert info.best_err is not None
-            good_indices = err < info.best_err
+            good_indices = (err < info.best_err) | (
+                info.best_err.isnan() & ~err.isnan()
+            )
             info.best_iter[good_indices] = current_iter
             for var in self.objective.optim_vars.values():
                 info.best_solution[var.name][good_indices] = (
                     var.tensor.detach().clone()[good_indices].cpu()
                 )
 
-            info.best_err = torch.minimum(info.best_err, err)
+            # not torch.minimum(), which would propagate a NaN error
+            info.best_err = torch.where(good_indices, err, info.best_err)
 
         converged_indices = self._check_convergence(err, info.last_err)
         info.status[
@@ -243,13 +246,14 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
             best_err_no_grad = info.best_err
             best_err_grad = grad_loop_info.best_err
             # On ties, the best solution was already seen in the no grad loop
-            idx_no_grad = (best_err_no_grad <= best_err_grad).cpu()
+            keep_no_grad = (best_err_no_grad <= best_err_grad) | best_err_grad.isnan()
+            idx_no_grad = keep_no_grad.cpu()
             info.best_iter = torch.where(
-                best_err_no_grad <= best_err_grad,
+                keep_no_grad,
                 info.best_iter,
                 num_no_grad_iters + grad_loop_info.best_iter,
             )
-            best_err = torch.minimum(best_err_no_grad, best_err_grad)
+            best_err = torch.where(keep_no_grad, best_err_no_grad, best_err_grad)
             for var_name in info.best_solution:
                 sol_no_grad = info.best_solution[var_name]
                 sol_grad = grad_loop_info.best_solution[var_name]
-- 
2.43.0


From b79586c1da922276f143e3580b9b0af82536d810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 16/69] fix: variables shared in a copied objective are shared
 by robust cost functions too

---
 theseus/core/robust_cost_function.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/theseus/core/robust_cost_function.py b/theseus/core/robust_cost_function.py
index 22275cd..6755a47 100644
--- a/theseus/core/robust_cost_function.py
+++ b/theseus/core/robust_cost_function.py
@@ -134,6 +134,26 @@ class RobustCostFunction(CostFunction):
     def dim(self) -> int:
         return self.cost_function.dim()
 
+    # The underlying cost function must use the same variables as this wrapper
+    def _set_variable_at(
+        self,
+        index: int,
+        variable: Variable,
+        variable_attrs_array: List,
+        variable_type: str,
+    ):
+        super()._set_variable_at(index, variable, variable_attrs_array, variable_type)
+        attr = variable_attrs_array[index]
+        inner_fn = self.cost_function
+        if attr in inner_fn._optim_vars_attr_names:
+            inner_fn.set_optim_var_at(
+                inner_fn._optim_vars_attr_names.index(attr), variable
+            )
+        elif attr in inner_fn._aux_vars_attr_names:
+            inner_fn.set_aux_var_at(
+                inner_fn._aux_vars_attr_names.index(attr), variable
+            )
+
     def _copy_impl(self, new_name: Optional[str] = None) -> "RobustCostFunction":
         return RobustCostFunction(
             self.cost_function.copy(),
-- 
2.43.0


From 0dc2c72aeee68fdb5b51fbb7bab45fab429a9764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 17/69] fix: objectives with cost functions that share a
 variable with their weight can be copied

---
 theseus/core/objective.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index cd8f7a8..cada62c 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -709,6 +709,11 @@ class Objective:
                     cost_function.weight.set_aux_var_at(
                         i, new_objective.aux_vars[aux_var.name]
                     )
+                else:
+                    # The weight can share variables with its own cost function
+                    for cf_aux_var in cost_function.aux_vars:
+                        if cf_aux_var.name == aux_var.name:
+                            cost_function.weight.set_aux_var_at(i, cf_aux_var)
             new_objective.add(cost_function)
         return new_objective
 
-- 
2.43.0


From 623588ca2363d96a2103eb3fe2fccf85d317ff38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 18/69] fix: copies of autodiff cost functions keep their
 autograd options

---
 theseus/core/cost_function.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index 5609bcd..c0e7cd7 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -407,6 +407,10 @@ class AutoDiffCostFunction(CostFunction):
             aux_vars=[v.copy() for v in self.aux_vars],
             cost_weight=self.weight.copy(),
             name=new_name,
+            autograd_create_graph=self._autograd_create_graph,
+            autograd_strict=self._autograd_strict,
+            autograd_vectorize=self._autograd_vectorize,
+            autograd_strategy=self._autograd_strategy,
             autograd_mode=self._autograd_mode,
         )
 
-- 
2.43.0


From 32d3fea3c102fb9d2368199c99f0318b45b1b02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 19/69] fix: the copy of a GPMotionModel is a GPMotionModel

---
 theseus/embodied/motionmodel/double_integrator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/theseus/embodied/motionmodel/double_integrator.py b/theseus/embodied/motionmodel/double_integrator.py
index cbd93a5..793a5eb 100644
--- a/theseus/embodied/motionmodel/double_integrator.py
+++ b/theseus/embodied/motionmodel/double_integrator.py
@@ -199,4 +199,12 @@ class GPMotionModel(DoubleIntegrator):
         super().__init__(pose1, vel1, pose2, vel2, dt, cost_weight, name=name)
 
     def _copy_impl(self, new_name: Optional[str] = None) -> "GPMotionModel":
-        return cast(GPMotionModel, super()._copy_impl(new_name=new_name))
+        return GPMotionModel(
+            self.pose1.copy(),
+            self.vel1.copy(),
+            self.pose2.copy(),
+            self.vel2.copy(),
+            self.dt.copy(),
+            cast(GPCostWeight, self.weight.copy()),
+            name=new_name,
+        )
-- 
2.43.0


From 8df7c0c6b26ee50844f80a4eda3c922c65eb89e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 20/69] fix: the copy of an objective allowing mixed optim/aux
 variables allows them too

---
 theseus/core/objective.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index cada62c..5ed4edf 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -663,7 +663,9 @@ class Objective:
                 connectivity structure, and error metric.
         """
         new_objective = Objective(
-            dtype=self.dtype, error_metric_fn=self._error_metric_fn
+            dtype=self.dtype,
+            error_metric_fn=self._error_metric_fn,
+            __allow_mixed_optim_aux_vars__=self._allow_mixed_optim_aux_vars,
         )
 
         # First copy all individual cost weights
-- 
2.43.0


From 2e336e0e0a6bd7d0de3a14cc7b29ebe4139d8dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:07 +0000
Subject: [PATCH 21/69] fix: a refused or repeated Objective.add() leaves the
 objective unchanged

---
 theseus/core/objective.py | 99 ++++++++++++++++++++-------------------
 1 file changed, 52 insertions(+), 47 deletions(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 5ed4edf..f3e7e4b 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -2,7 +2,6 @@
 #
 # This source code is licensed under the MIT license found in the
 # LICENSE file in the root directory of this source tree.
-import itertools
 import warnings
 from collections import OrderedDict
 from typing import (
@@ -173,26 +172,7 @@ class Objective:
             self_vars_of_this_type = self.aux_vars  # type: ignore
 
         for variable in function_vars:
-            # Check that variables have name and correct dtype
-            if variable.name is None:
-                raise ValueError(
-                    f"Variables added to an objective must be named, but "
-                    f"{function.name} has an unnamed variable."
-                )
-            if variable.dtype != self.dtype:
-                raise ValueError(
-                    f"Tried to add variable {variable.name} with dtype "
-                    f"{variable.dtype} but objective's dtype is {self.dtype}."
-                )
-            # Check that names are unique
-            if variable.name in self._all_variables:
-                if variable is not self._all_variables[variable.name]:
-                    raise ValueError(
-                        f"Two different variable objects with the "
-                        f"same name ({variable.name}) are not allowed "
-                        "in the same objective."
-                    )
-            else:
+            if variable.name not in self._all_variables:
                 self._all_variables[variable.name] = variable
                 assert variable not in self_var_to_fn_map
                 self_var_to_fn_map[variable] = []
@@ -207,6 +187,53 @@ class Objective:
             # add to list of functions connected to this variable
             self_var_to_fn_map[variable].append(function)
 
+    # Raises an error if any of the variables of the cost function (or of its weight)
+    # cannot be added. Called before making any changes to the objective.
+    def _check_new_variables(self, cost_function: CostFunction):
+        new_vars: Dict[str, Variable] = {}
+        optim_vars_names: List[str] = []
+        aux_vars_names: List[str] = []
+        for function in (cost_function, cost_function.weight):
+            for function_vars, names in (
+                (function.optim_vars, optim_vars_names),
+                (function.aux_vars, aux_vars_names),
+            ):
+                for variable in function_vars:
+                    # Check that variables have name and correct dtype
+                    if variable.name is None:
+                        raise ValueError(
+                            f"Variables added to an objective must be named, but "
+                            f"{function.name} has an unnamed variable."
+                        )
+                    if variable.dtype != self.dtype:
+                        raise ValueError(
+                            f"Tried to add variable {variable.name} with dtype "
+                            f"{variable.dtype} but objective's dtype is {self.dtype}."
+                        )
+                    # Check that names are unique
+                    known_var = new_vars.setdefault(
+                        variable.name, self._all_variables.get(variable.name, variable)
+                    )
+                    if variable is not known_var:
+                        raise ValueError(
+                            f"Two different variable objects with the "
+                            f"same name ({variable.name}) are not allowed "
+                            "in the same objective."
+                        )
+                    names.append(variable.name)
+
+        if not self._allow_mixed_optim_aux_vars:
+            dual_var_err_msg = (
+                "Objective does not support a variable being both "
+                + "an optimization variable and an auxiliary variable."
+            )
+            for optim_name in optim_vars_names:
+                if optim_name in aux_vars_names or self.has_aux_var(optim_name):
+                    raise ValueError(dual_var_err_msg)
+            for aux_name in aux_vars_names:
+                if self.has_optim_var(aux_name):
+                    raise ValueError(dual_var_err_msg)
+
     def add(self, cost_function: CostFunction):
         """Adds a cost function to the objective.
 
@@ -248,8 +275,10 @@ class Objective:
                     "This cost function has already been added to the objective, "
                     "nothing to be done."
                 )
-        else:
-            self.cost_functions[cost_function.name] = cost_function
+                return
+
+        self._check_new_variables(cost_function)
+        self.cost_functions[cost_function.name] = cost_function
 
         self.current_version += 1
         # ----- Book-keeping for the cost function ------- #
@@ -285,30 +314,6 @@ class Objective:
 
         self.cost_functions_for_weights[cost_function.weight].append(cost_function)
 
-        optim_vars_names = [
-            var.name
-            for var in itertools.chain(
-                cost_function.optim_vars, cost_function.weight.optim_vars
-            )
-        ]
-        aux_vars_names = [
-            var.name
-            for var in itertools.chain(
-                cost_function.aux_vars, cost_function.weight.aux_vars
-            )
-        ]
-        if not self._allow_mixed_optim_aux_vars:
-            dual_var_err_msg = (
-                "Objective does not support a variable being both "
-                + "an optimization variable and an auxiliary variable."
-            )
-            for optim_name in optim_vars_names:
-                if self.has_aux_var(optim_name):
-                    raise ValueError(dual_var_err_msg)
-            for aux_name in aux_vars_names:
-                if self.has_optim_var(aux_name):
-                    raise ValueError(dual_var_err_msg)
-
     def get_cost_function(self, name: str) -> CostFunction:
         """Returns a reference to the cost function with the given name.
 
-- 
2.43.0


From e74f68fe445ae696b5fb9e9acd829aa79f4e7c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 22/69] fix: adding or erasing cost functions drops the
 vectorization built without them

---
 theseus/core/objective.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index f3e7e4b..f4dc4fb 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -281,6 +281,9 @@ class Objective:
         self.cost_functions[cost_function.name] = cost_function
 
         self.current_version += 1
+        if self._vectorized:
+            # vectorization only knows the cost functions present when it was enabled
+            self.disable_vectorization()
         # ----- Book-keeping for the cost function ------- #
         # adds information about the optimization variables in this cost function
         self._add_function_variables(cost_function, optim_vars=True)
@@ -457,6 +460,8 @@ class Objective:
 
             # finally, delete the cost function
             del self.cost_functions[name]
+            if self._vectorized:
+                self.disable_vectorization()
         else:
             warnings.warn(
                 "This cost function is not in the objective, nothing to be done."
-- 
2.43.0


From a240b72a545189fe833492270f201270b991a52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 23/69] fix: error and state histories keep the precision of
 the objective

---
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index 52705e3..c2b3095 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -139,7 +139,11 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
         best_err = last_err.clone() if track_best_solution else None
         if track_err_history:
             err_history = (
-                torch.ones(self.objective.batch_size, self.params.max_iterations + 1)
+                torch.ones(
+                    self.objective.batch_size,
+                    self.params.max_iterations + 1,
+                    dtype=last_err.dtype,
+                )
                 * math.inf
             )
             assert last_err.grad_fn is None
@@ -155,6 +159,7 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
                         self.objective.batch_size,
                         *var.shape[1:],
                         self.params.max_iterations + 1,
+                        dtype=var.dtype,
                     )
                     * math.inf
                 )
-- 
2.43.0


From 5faae6dcf4794147c8563384426493bb9d3eb383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 24/69] fix: DLM forward works when no differentiable input
 affects the error

---
 theseus/theseus_layer.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index 814f0a2..7778c85 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -214,10 +214,15 @@ class TheseusLayerDLMForward(torch.autograd.Function):
 
             # Precompute and cache this.
             with torch.enable_grad():
-                grad_sol = torch.autograd.grad(
-                    objective.error_metric().sum(),
-                    differentiable_tensors,
-                    allow_unused=True,
+                err_sol = objective.error_metric().sum()
+                # The error might not depend on any of the differentiable inputs,
+                # e.g., if they are only initial values for optimization variables.
+                grad_sol = (
+                    torch.autograd.grad(
+                        err_sol, differentiable_tensors, allow_unused=True
+                    )
+                    if err_sol.requires_grad
+                    else (None,) * ctx.k
                 )
             ctx.save_for_backward(
                 *input_vals, *grad_sol, *differentiable_tensors, *optim_tensors
@@ -234,6 +239,8 @@ class TheseusLayerDLMForward(torch.autograd.Function):
         differentiable_tensors = saved_tensors[n + k : n + k + k]
         optim_tensors = saved_tensors[n + k + k :]
         grad_outputs = grad_outputs[:-1]
+        if all(gs is None for gs in grad_sol):
+            return (None,) * (7 + 2 * n + k)
 
         bwd_objective: Objective = ctx.bwd_objective
         bwd_optimizer: Optimizer = ctx.bwd_optimizer
-- 
2.43.0


From 283d752e8f033ae3a3a18cb374643318d18859a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:16 +0000
Subject: [PATCH 25/69] fix: CHOLMOD factorization failures follow the linear
 solver failure contract

---
 theseus/optimizer/autograd/cholmod_sparse_autograd.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/theseus/optimizer/autograd/cholmod_sparse_autograd.py b/theseus/optimizer/autograd/cholmod_sparse_autograd.py
index 0969379..2321602 100644
--- a/theseus/optimizer/autograd/cholmod_sparse_autograd.py
+++ b/theseus/optimizer/autograd/cholmod_sparse_autograd.py
@@ -7,7 +7,7 @@ from typing import Any, Tuple
 import torch
 
 try:
-    from sksparse.cholmod import Factor as CholeskyDecomposition
+    from sksparse.cholmod import CholmodError, Factor as CholeskyDecomposition
 except ModuleNotFoundError:
     import warnings
 
@@ -44,7 +44,14 @@ class CholmodSolveFunction(torch.autograd.Function):
         for i in range(batch_size):
             # compute decomposition from symbolic decomposition
             At_i = sparse_structure.csc_transpose(At_val_cpu[i, :])
-            cholesky_decomposition = symbolic_decomposition.cholesky_AAt(At_i, damping)
+            try:
+                cholesky_decomposition = symbolic_decomposition.cholesky_AAt(
+                    At_i, damping
+                )
+            except CholmodError as e:
+                # CholmodError is not a RuntimeError, which is what the rest of the
+                # linear solvers raise, and nonlinear optimizers handle, on failure.
+                raise RuntimeError(f"CHOLMOD factorization failed: {e}") from e
 
             # solve
             Atb_i = At_i @ b_cpu[i, :]
-- 
2.43.0


From 6a34d99de0588ad749c5f74718262e724b861864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:52 +0000
Subject: [PATCH 26/69] fix: adaptive methods never accept a step to a
 non-finite error

---
 theseus/optimizer/nonlinear/levenberg_marquardt.py | 3 ++-
 theseus/optimizer/nonlinear/trust_region.py        | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/theseus/optimizer/nonlinear/levenberg_marquardt.py b/theseus/optimizer/nonlinear/levenberg_marquardt.py
index ce1902a..abb0e8a 100644
--- a/theseus/optimizer/nonlinear/levenberg_marquardt.py
+++ b/theseus/optimizer/nonlinear/levenberg_marquardt.py
@@ -189,7 +189,8 @@ class LevenbergMarquardt(NonlinearLeastSquares):
         # the LM reference above
         den = (delta * (damping * delta + linearization.Atb.squeeze(2))).sum(dim=1) / 2
         rho = (previous_err - err) / den
-        reject_indices = rho <= damping_accept
+        # Non-finite errors result in NaN rho, for which this comparison is False
+        reject_indices = (rho <= damping_accept) | ~err.isfinite()
         self._damping = torch.where(
             reject_indices,
             self._damping * up_damping_ratio,
diff --git a/theseus/optimizer/nonlinear/trust_region.py b/theseus/optimizer/nonlinear/trust_region.py
index 01f256f..0d6b8c8 100644
--- a/theseus/optimizer/nonlinear/trust_region.py
+++ b/theseus/optimizer/nonlinear/trust_region.py
@@ -137,7 +137,9 @@ class TrustRegion(NonlinearLeastSquares, abc.ABC):
                 "shrink_ratio in (0, 1], and expand_ratio > 1.0."
             )
         rho = self._compute_rho(delta, previous_err, new_err)
-        shrink_idx = rho < shrink_threshold
+        # Non-finite errors can result in NaN rho, for which all comparisons are False
+        bad_idx = ~new_err.isfinite().view(-1, 1)
+        shrink_idx = (rho < shrink_threshold) | bad_idx
         self._trust_region = torch.where(
             shrink_idx, self._trust_region * shrink_ratio, self._trust_region
         )
@@ -148,4 +150,4 @@ class TrustRegion(NonlinearLeastSquares, abc.ABC):
         self._trust_region = self._trust_region.clamp(
             min_trust_region, max_trust_region
         )
-        return (rho < accept_threshold).view(-1)
+        return ((rho < accept_threshold) | bad_idx).view(-1)
-- 
2.43.0


From 317c5983834942a7fcc0f25187eca531e9f83661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 27/69] fix: DLM backward when initial values require grad and
 are returned as solution

---
 theseus/theseus_layer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index 7778c85..c182e17 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -75,7 +75,13 @@ class TheseusLayer(nn.Module):
 
             # Tensors cannot be passed inside containers, else we run into memory leaks.
             input_keys, input_vals = zip(*input_tensors.items())
-            differentiable_tensors = [t for t in input_vals if t.requires_grad]
+            # Optimization variable inputs are only initial values, so DLM doesn't
+            # compute gradients for them.
+            differentiable_tensors = [
+                t
+                for k, t in input_tensors.items()
+                if t.requires_grad and k not in self.objective.optim_vars
+            ]
 
             *vars, info = TheseusLayerDLMForward.apply(
                 self.objective,
-- 
2.43.0


From 45be7060edcabee3f5cfd66eb2d1f99af74dde2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 28/69] fix: erasing a missing cost function leaves the
 objective unchanged

---
 theseus/core/objective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index f4dc4fb..fcfc4af 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -433,8 +433,8 @@ class Objective:
         Args:
             name (str): the name of the cost function to erase.
         """
-        self.current_version += 1
         if name in self.cost_functions:
+            self.current_version += 1
             cost_function = self.cost_functions[name]
             # erase variables associated to this cost function (if needed)
             self._erase_function_variables(cost_function, optim_vars=True)
-- 
2.43.0


From d4303bc65bac5d7d987efb16b25b27eb1d4d9f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 29/69] fix: vectorized retract broadcasts variables with batch
 size 1

---
 theseus/core/vectorizer.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/theseus/core/vectorizer.py b/theseus/core/vectorizer.py
index 1049401..ed7e75c 100644
--- a/theseus/core/vectorizer.py
+++ b/theseus/core/vectorizer.py
@@ -428,16 +428,16 @@ class Vectorize:
         ] = {}
 
         start_idx = 0
-        batch_size = -1
+        ordering = list(ordering)
+        # Variables (and delta) with batch size 1 are broadcasted, as done when
+        # retracting them one by one
+        batch_size = max([delta.shape[0]] + [var.shape[0] for var in ordering])
         # Create var info by looping variables in the given order
         # All variables of the same type get grouped together, and their deltas saved
         for var in ordering:
-            if batch_size == -1:
-                batch_size = var.shape[0]
-            else:
-                assert batch_size == var.shape[0]
-
-            delta_slice = delta[:, start_idx : start_idx + var.dof()]
+            delta_slice = delta[:, start_idx : start_idx + var.dof()].expand(
+                batch_size, -1
+            )
             start_idx += var.dof()
             var_type = (var.__class__, var.dof())
             if var_type not in var_info:
@@ -451,7 +451,9 @@ class Vectorize:
             # Get the vectorized tensor that holds all the current variable tensors.
             # The resulting shape is (N * b, M), b is batch size, N is the number of
             # variables in the group, and M is the data shape for this class
-            vectorized_tensor = torch.cat([v.tensor for v in var_list], dim=0)
+            vectorized_tensor = torch.cat(
+                [v.tensor.expand((batch_size,) + v.shape[1:]) for v in var_list], dim=0
+            )
             assert (
                 vectorized_tensor.shape
                 == (n_vars * batch_size,) + vectorized_tensor.shape[1:]
-- 
2.43.0


From 8678548b0b607c451947decf3384ab0e10d5bfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:42 +0000
Subject: [PATCH 30/69] fix: Objective.error broadcasts cost functions with
 batch size 1

---
 theseus/core/objective.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index fcfc4af..9a6f051 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -620,8 +620,15 @@ class Objective:
             # so we are currently avoiding this optimization. Optimizers also compute
             # error by passing `input_tensors`, so for optimizers the current version
             # should be good enough.
+            errors = [cf.weighted_error() for cf in self._get_error_iter()]
+            # Cost functions whose variables all have batch size 1 are broadcasted
+            batch_size = max([e.shape[0] for e in errors], default=1)
             error_vector = torch.cat(
-                [cf.weighted_error() for cf in self._get_error_iter()], dim=1
+                [
+                    e if e.shape[0] == batch_size else e.expand(batch_size, -1)
+                    for e in errors
+                ],
+                dim=1,
             )
             success = True
         finally:
-- 
2.43.0


From fe1e6950a46220316da114852f25540bb611b26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 31/69] fix: autodiff jacobians broadcast variables with batch
 size 1

---
 theseus/core/cost_function.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/theseus/core/cost_function.py b/theseus/core/cost_function.py
index c0e7cd7..b330875 100644
--- a/theseus/core/cost_function.py
+++ b/theseus/core/cost_function.py
@@ -363,12 +363,19 @@ class AutoDiffCostFunction(CostFunction):
                 )
         elif self._autograd_mode == AutogradMode.LOOP_BATCH:
             jacobians_raw_loop: List[Tuple[torch.Tensor, ...]] = []
-            for n in range(optim_vars[0].shape[0]):
+
+            def _batch_item(tensor: torch.Tensor, n: int) -> torch.Tensor:
+                # tensors with batch size 1 are broadcasted
+                return tensor if tensor.shape[0] == 1 else tensor[n : n + 1]
+
+            for n in range(err.shape[0]):
                 for i, aux_var in enumerate(aux_vars):
-                    self._tmp_aux_vars_for_loop[i].update(aux_var.tensor[n : n + 1])
+                    self._tmp_aux_vars_for_loop[i].update(
+                        _batch_item(aux_var.tensor, n)
+                    )
 
                 jacobians_n = self._compute_autograd_jacobian(
-                    tuple(v.tensor[n : n + 1] for v in optim_vars),
+                    tuple(_batch_item(v.tensor, n) for v in optim_vars),
                     self._make_jac_fn(
                         self._tmp_optim_vars_for_loop, self._tmp_aux_vars_for_loop
                     ),
@@ -384,7 +391,7 @@ class AutoDiffCostFunction(CostFunction):
             )
         else:
             jacobians_raw = self._compute_autograd_jacobian(
-                tuple(v.tensor for v in optim_vars),
+                tuple(v.tensor.expand(err.shape[0], *v.shape[1:]) for v in optim_vars),
                 self._make_jac_fn(self._tmp_optim_vars, aux_vars),
             )
             aux_idx = torch.arange(err.shape[0])  # batch_size
-- 
2.43.0


From 69d0c615539e58d635e6a958cad24c5db80447d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:18 +0000
Subject: [PATCH 32/69] fix: RobustCostFunction.to converts the underlying cost
 function

---
 theseus/core/robust_cost_function.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/theseus/core/robust_cost_function.py b/theseus/core/robust_cost_function.py
index 6755a47..41dfd22 100644
--- a/theseus/core/robust_cost_function.py
+++ b/theseus/core/robust_cost_function.py
@@ -134,6 +134,11 @@ class RobustCostFunction(CostFunction):
     def dim(self) -> int:
         return self.cost_function.dim()
 
+    # The underlying cost function can have internal tensors of its own
+    def to(self, *args, **kwargs):
+        super().to(*args, **kwargs)
+        self.cost_function.to(*args, **kwargs)
+
     # The underlying cost function must use the same variables as this wrapper
     def _set_variable_at(
         self,
-- 
2.43.0


From 06b125983a1370067ce5d1738b46ed79099d5956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 33/69] fix: SE2/SE3 update_from_rot_and_trans is
 all-or-nothing and counts as an update

---
 theseus/geometry/se2.py | 14 ++++++++++----
 theseus/geometry/se3.py |  4 ++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/theseus/geometry/se2.py b/theseus/geometry/se2.py
index 8b26a85..026d1c0 100644
--- a/theseus/geometry/se2.py
+++ b/theseus/geometry/se2.py
@@ -156,11 +156,17 @@ class SE2(LieGroup):
 
     def update_from_rot_and_trans(self, rotation: SO2, translation: Point2):
         batch_size = rotation.shape[0]
-        self.tensor = rotation.tensor.new_empty(batch_size, 4)
-        self[:, :2] = translation.tensor
         cosine, sine = rotation.to_cos_sin()
-        self[:, 2] = cosine
-        self[:, 3] = sine
+        self.update(
+            torch.cat(
+                [
+                    translation.tensor.expand(batch_size, -1),
+                    cosine.view(-1, 1),
+                    sine.view(-1, 1),
+                ],
+                dim=1,
+            )
+        )
 
     def _log_map_impl(
         self, jacobians: Optional[List[torch.Tensor]] = None
diff --git a/theseus/geometry/se3.py b/theseus/geometry/se3.py
index a212b13..c528938 100644
--- a/theseus/geometry/se3.py
+++ b/theseus/geometry/se3.py
@@ -208,8 +208,8 @@ class SE3(LieGroup):
         if rotation.device != translation.device:
             raise ValueError("rotation and translation must be on the same device.")
 
-        self.tensor = torch.cat(
-            (rotation.tensor, translation.tensor.unsqueeze(2)), dim=2
+        self.update(
+            torch.cat((rotation.tensor, translation.tensor.unsqueeze(2)), dim=2)
         )
 
     @staticmethod
-- 
2.43.0


From 6f39e4fabfc1cea75062b7bdef62bd98fb4231d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:57 +0000
Subject: [PATCH 34/69] fix: in-place item assignment of a variable counts as
 an update

---
 theseus/core/variable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/theseus/core/variable.py b/theseus/core/variable.py
index b9fd5af..a535718 100644
--- a/theseus/core/variable.py
+++ b/theseus/core/variable.py
@@ -103,6 +103,7 @@ class Variable:
 
     def __setitem__(self, item, value):
         self.tensor[item] = value
+        self._num_updates += 1  # anything computed with the old values is stale
 
 
 # If value is a variable, this returns the same variable
-- 
2.43.0


From 06f53c7f0707e3a7d8300ba245afe09e19f3fd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 35/69] fix: GP weight and double integrator broadcast batch
 size 1 variables

---
 theseus/embodied/motionmodel/double_integrator.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/theseus/embodied/motionmodel/double_integrator.py b/theseus/embodied/motionmodel/double_integrator.py
index 793a5eb..1c0853c 100644
--- a/theseus/embodied/motionmodel/double_integrator.py
+++ b/theseus/embodied/motionmodel/double_integrator.py
@@ -53,14 +53,17 @@ class DoubleIntegrator(CostFunction):
     def _error_from_pose_diff(self, pose_diff: torch.Tensor) -> torch.Tensor:
         pose_diff_err = pose_diff - self.dt.tensor.view(-1, 1) * self.vel1.tensor
         vel_diff = self.vel2.tensor - self.vel1.tensor
-        return torch.cat([pose_diff_err, vel_diff], dim=1)
+        return torch.cat(torch.broadcast_tensors(pose_diff_err, vel_diff), dim=1)
 
     def error(self) -> torch.Tensor:
         return self._error_from_pose_diff(self._new_pose_diff())
 
     def jacobians(self) -> Tuple[List[torch.Tensor], torch.Tensor]:
+        Jlocal: List[torch.Tensor] = []
+        error = self._error_from_pose_diff(self._new_pose_diff(Jlocal))
+
         # Pre-allocate jacobian tensors
-        batch_size = self.pose1.shape[0]
+        batch_size = error.shape[0]
         dof = self.pose1.dof()
         dtype = self.pose1.dtype
         device = self.pose1.device
@@ -69,8 +72,6 @@ class DoubleIntegrator(CostFunction):
         Jerr_pose2 = torch.zeros_like(Jerr_pose1)
         Jerr_vel2 = torch.zeros_like(Jerr_pose1)
 
-        Jlocal: List[torch.Tensor] = []
-        error = self._error_from_pose_diff(self._new_pose_diff(Jlocal))
         Jerr_pose1[:, :dof, :] = Jlocal[0]
         identity = torch.eye(dof, dtype=dtype, device=device).repeat(batch_size, 1, 1)
         Jerr_vel1[:, :dof, :] = -self.dt.tensor.view(-1, 1, 1) * identity
@@ -130,6 +131,7 @@ class GPCostWeight(CostWeight):
 
     def _compute_cost_weight(self) -> torch.Tensor:
         batch_size, dof, _ = self.Qc_inv.shape
+        batch_size = max(batch_size, self.dt.shape[0])
         cost_weight = torch.empty(
             batch_size,
             2 * dof,
-- 
2.43.0


From dff936d7716ba9e297d858408bbdd783cb76697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 36/69] fix: HingeCost jacobians broadcast a vector with batch
 size 1

---
 theseus/embodied/motionmodel/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/embodied/motionmodel/misc.py b/theseus/embodied/motionmodel/misc.py
index 925815e..5f8419f 100644
--- a/theseus/embodied/motionmodel/misc.py
+++ b/theseus/embodied/motionmodel/misc.py
@@ -77,7 +77,7 @@ class HingeCost(CostFunction):
     def jacobians(self) -> Tuple[List[torch.Tensor], torch.Tensor]:
         error, below_idx, above_idx = self._compute_error()
         J = self.vector.tensor.new_zeros(
-            self.vector.shape[0], self.vector.dof(), self.vector.dof()
+            error.shape[0], self.vector.dof(), self.vector.dof()
         )
         J[below_idx.diag_embed()] = -1.0
         J[above_idx.diag_embed()] = 1.0
-- 
2.43.0


From 5ed5e04ff9f701a08e83cd9df86979db65fa416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:02 +0000
Subject: [PATCH 37/69] fix: Lie group checks of SO3/SE3 variables take effect
 again

---
 theseus/geometry/se3.py |  9 ++++++---
 theseus/geometry/so3.py | 12 ++++++++----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/theseus/geometry/se3.py b/theseus/geometry/se3.py
index c528938..75eb29c 100644
--- a/theseus/geometry/se3.py
+++ b/theseus/geometry/se3.py
@@ -10,6 +10,7 @@ import torch
 
 import theseus.constants
 from torchlie.functional import SE3 as SE3_base
+from torchlie.functional import enable_checks as enable_base_checks
 
 from .lie_group import LieGroup
 from .lie_group_check import _LieGroupCheckContext, no_lie_group_check
@@ -119,7 +120,8 @@ class SE3(LieGroup):
         if tensor.ndim != 3 or tensor.shape[1:] != (3, 4):
             raise ValueError("SE3 data tensors can only be 3x4 matrices.")
         try:
-            SE3_base.check_group_tensor(tensor)
+            with enable_base_checks():
+                SE3_base.check_group_tensor(tensor)
         except ValueError:
             return False
         return True
@@ -150,7 +152,8 @@ class SE3(LieGroup):
 
         checks_enabled, silent_unchecks, _ = _LieGroupCheckContext.get_context()
         if checks_enabled:
-            return SE3_base.check_hat_tensor(matrix)
+            with enable_base_checks():
+                SE3_base.check_hat_tensor(matrix)
         elif not silent_unchecks:
             warnings.warn(
                 "Lie group checks are disabled, so the skew-symmetry of hat matrices is "
@@ -182,7 +185,7 @@ class SE3(LieGroup):
 
     def _compose_impl(self, se3_2: LieGroup) -> "SE3":
         return SE3(
-            tensor=SE3_base.compose(self.tensor, se3_2.tensor), strict_checks=False
+            tensor=SE3_base.compose(self.tensor, se3_2.tensor), disable_checks=True
         )
 
     def _inverse_impl(self, get_jacobian: bool = False) -> "SE3":
diff --git a/theseus/geometry/so3.py b/theseus/geometry/so3.py
index a9abfe8..dbbb667 100644
--- a/theseus/geometry/so3.py
+++ b/theseus/geometry/so3.py
@@ -11,6 +11,7 @@ import torch
 import theseus.constants
 from theseus.global_params import _THESEUS_GLOBAL_PARAMS
 from torchlie.functional import SO3 as SO3_base
+from torchlie.functional import enable_checks as enable_base_checks
 
 from .lie_group import LieGroup
 from .lie_group_check import _LieGroupCheckContext
@@ -119,7 +120,8 @@ class SO3(LieGroup):
             if tensor.ndim != 3 or tensor.shape[1:] != (3, 3):
                 raise ValueError("SO3 data tensors can only be 3x3 matrices.")
             try:
-                SO3_base.check_group_tensor(tensor)
+                with enable_base_checks():
+                    SO3_base.check_group_tensor(tensor)
             except ValueError:
                 return False
         return True
@@ -131,7 +133,8 @@ class SO3(LieGroup):
 
         checks_enabled, silent_unchecks, _ = _LieGroupCheckContext.get_context()
         if checks_enabled:
-            SO3_base.check_unit_quaternion(quaternion)
+            with enable_base_checks():
+                SO3_base.check_unit_quaternion(quaternion)
         elif not silent_unchecks:
             warnings.warn(
                 "Lie group checks are disabled, so the validness of unit quaternions is not "
@@ -146,7 +149,8 @@ class SO3(LieGroup):
 
         checks_enabled, silent_unchecks, _ = _LieGroupCheckContext.get_context()
         if checks_enabled:
-            SO3_base.check_hat_tensor(matrix)
+            with enable_base_checks():
+                SO3_base.check_hat_tensor(matrix)
         elif not silent_unchecks:
             warnings.warn(
                 "Lie group checks are disabled, so the skew-symmetry of hat matrices is "
@@ -178,7 +182,7 @@ class SO3(LieGroup):
 
     def _compose_impl(self, so3_2: LieGroup) -> "SO3":
         return SO3(
-            tensor=SO3_base.compose(self.tensor, so3_2.tensor), strict_checks=False
+            tensor=SO3_base.compose(self.tensor, so3_2.tensor), disable_checks=True
         )
 
     def _inverse_impl(self, get_jacobian: bool = False) -> "SO3":
-- 
2.43.0


From 6eda91323091d6e8f1c0c3c88d72771210643a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:18 +0000
Subject: [PATCH 38/69] fix: LieGroupTensor.add_ without tangent mode is a
 plain tensor addition

---
 theseus/geometry/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/geometry/utils.py b/theseus/geometry/utils.py
index c9504de..fec1a9d 100644
--- a/theseus/geometry/utils.py
+++ b/theseus/geometry/utils.py
@@ -73,7 +73,7 @@ class LieGroupTensor(torch.Tensor):
             grad = group.project(update)
             self.set_(group.retract(alpha * grad).tensor)
         else:
-            self.add_(update, alpha=alpha)
+            super().add_(update, alpha=alpha)
 
         return self
 
-- 
2.43.0


From c7dc41a39f050d462bd24ff40977688637051179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:18 +0000
Subject: [PATCH 39/69] fix: SE2.rand and SE2.randn accept requires_grad=True

---
 theseus/geometry/se2.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/theseus/geometry/se2.py b/theseus/geometry/se2.py
index 026d1c0..83988bb 100644
--- a/theseus/geometry/se2.py
+++ b/theseus/geometry/se2.py
@@ -53,14 +53,10 @@ class SE2(LieGroup):
         if len(size) != 1:
             raise ValueError("The size should be 1D.")
         x_y_theta = torch.rand(
-            size[0],
-            3,
-            generator=generator,
-            dtype=dtype,
-            device=device,
-            requires_grad=requires_grad,
+            size[0], 3, generator=generator, dtype=dtype, device=device
         )
         x_y_theta[:, 2] = 2 * theseus.constants.PI * (x_y_theta[:, 2] - 0.5)
+        x_y_theta.requires_grad_(requires_grad)
 
         return SE2(x_y_theta=x_y_theta)
 
@@ -75,14 +71,10 @@ class SE2(LieGroup):
         if len(size) != 1:
             raise ValueError("The size should be 1D.")
         x_y_theta = torch.randn(
-            size[0],
-            3,
-            generator=generator,
-            dtype=dtype,
-            device=device,
-            requires_grad=requires_grad,
+            size[0], 3, generator=generator, dtype=dtype, device=device
         )
         x_y_theta[:, 2] *= theseus.constants.PI
+        x_y_theta.requires_grad_(requires_grad)
 
         return SE2(x_y_theta=x_y_theta)
 
-- 
2.43.0


From b36c308ae677d19adf0761da7c5a4a04ed31e21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:34 +0000
Subject: [PATCH 40/69] fix: generate_synthetic_3D draws all random values from
 the given generator

---
 theseus/utils/examples/pose_graph/dataset.py | 38 +++++++++++++-------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/theseus/utils/examples/pose_graph/dataset.py b/theseus/utils/examples/pose_graph/dataset.py
index 61272a4..64b8bbc 100644
--- a/theseus/utils/examples/pose_graph/dataset.py
+++ b/theseus/utils/examples/pose_graph/dataset.py
@@ -247,6 +247,20 @@ class PoseGraphDataset:
         generator: Optional[torch.Generator] = None,
         dtype: Optional[torch.dtype] = None,
     ) -> Tuple["PoseGraphDataset", List[bool]]:
+        # If a generator is given, all random values are drawn from it.
+        def _rand(*size: int) -> torch.Tensor:
+            return torch.rand(*size, generator=generator, dtype=dtype)
+
+        def _uniform() -> float:
+            if generator is None:
+                return np.random.rand()
+            return torch.rand(1, generator=generator).item()
+
+        def _randint(high: int, size: int) -> List[int]:
+            if generator is None:
+                return np.random.randint(high, size=size).tolist()
+            return torch.randint(high, (size,), generator=generator).tolist()
+
         poses: List[th.SE3] = list()
         gt_poses: List[th.SE3] = list()
         edges = list()
@@ -273,8 +287,8 @@ class PoseGraphDataset:
             gt_relative_pose = th.SE3.exp_map(
                 torch.cat(
                     [
-                        torch.rand(dataset_size, 3, dtype=dtype) - 0.5,
-                        2.0 * torch.rand(dataset_size, 3, dtype=dtype) - 1,
+                        _rand(dataset_size, 3) - 0.5,
+                        2.0 * _rand(dataset_size, 3) - 1,
                     ],
                     dim=1,
                 )
@@ -283,9 +297,9 @@ class PoseGraphDataset:
                 torch.cat(
                     [
                         translation_noise
-                        * (2.0 * torch.rand(dataset_size, 3, dtype=dtype) - 1),
+                        * (2.0 * _rand(dataset_size, 3) - 1),
                         rotation_noise
-                        * (2.0 * torch.rand(dataset_size, 3, dtype=dtype) - 1),
+                        * (2.0 * _rand(dataset_size, 3) - 1),
                     ],
                     dim=1,
                 )
@@ -309,23 +323,23 @@ class PoseGraphDataset:
             )
             inliers.append(True)
 
-            if np.random.rand(1) <= loop_closure_ratio and n - 1 > 0:
-                num_loop_closures = np.random.randint(max_num_loop_closures) + 1
-                indices = set(np.random.randint(0, n - 1, num_loop_closures))
+            if _uniform() <= loop_closure_ratio and n - 1 > 0:
+                num_loop_closures = _randint(max_num_loop_closures, 1)[0] + 1
+                indices = set(_randint(n - 1, num_loop_closures))
                 j = n
 
                 for i in indices:
                     gt_relative_pose = cast(
                         th.SE3, gt_poses[i].inverse().compose(gt_poses[j])
                     )
-                    if np.random.rand(1) > loop_closure_outlier_ratio:
+                    if _uniform() > loop_closure_outlier_ratio:
                         noise_relative_pose = th.SE3.exp_map(
                             torch.cat(
                                 [
                                     translation_noise
-                                    * (2.0 * torch.rand(1, 3, dtype=dtype) - 1),
+                                    * (2.0 * _rand(1, 3) - 1),
                                     rotation_noise
-                                    * (2.0 * torch.rand(1, 3, dtype=dtype) - 1),
+                                    * (2.0 * _rand(1, 3) - 1),
                                 ],
                                 dim=1,
                             )
@@ -354,8 +368,8 @@ class PoseGraphDataset:
             noise_pose = th.SE3.exp_map(
                 torch.cat(
                     [
-                        translation_noise * (2.0 * torch.rand(1, 3, dtype=dtype) - 1),
-                        rotation_noise * (2.0 * torch.rand(1, 3, dtype=dtype) - 1),
+                        translation_noise * (2.0 * _rand(1, 3) - 1),
+                        rotation_noise * (2.0 * _rand(1, 3) - 1),
                     ],
                     dim=1,
                 )
-- 
2.43.0


From 9f7991cf404c6d6c597c88ac18247b725b31707e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:34 +0000
Subject: [PATCH 41/69] fix: compute_samples uses the dtype of the objective

---
 theseus/theseus_layer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index c182e17..fed57d0 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -121,14 +121,18 @@ class TheseusLayer(nn.Module):
 
         batch_size, n_vars = delta.shape
         y = torch.normal(
-            mean=torch.zeros((n_vars, n_samples), device=delta.device),
-            std=torch.ones((n_vars, n_samples), device=delta.device),
+            mean=torch.zeros(
+                (n_vars, n_samples), device=delta.device, dtype=delta.dtype
+            ),
+            std=torch.ones((n_vars, n_samples), device=delta.device, dtype=delta.dtype),
         )
         delta_samples = (torch.linalg.solve_triangular(sqrt_AtA, y, upper=True)) + (
             delta.unsqueeze(-1)
         ).repeat(1, 1, n_samples)
 
-        x_samples = torch.zeros((batch_size, n_vars, n_samples), device=delta.device)
+        x_samples = torch.zeros(
+            (batch_size, n_vars, n_samples), device=delta.device, dtype=delta.dtype
+        )
         for sidx in range(0, n_samples):
             var_idx = 0
             for var in linear_solver.linearization.ordering:
-- 
2.43.0


From 389fa5f019478678c532b6214a4d565fb4411879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:21 +0000
Subject: [PATCH 42/69] fix: DLM backward uses the values variables had in its
 own forward call

---
 theseus/theseus_layer.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index fed57d0..3935430 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -234,8 +234,20 @@ class TheseusLayerDLMForward(torch.autograd.Function):
                     if err_sol.requires_grad
                     else (None,) * ctx.k
                 )
+            # Variables not in the inputs kept the values they had before this call, and
+            # the backward objective must be evaluated at these values too.
+            other_vars = {
+                name: var.tensor.detach()
+                for name, var in objective._all_variables.items()
+                if name not in inputs and name not in objective.optim_vars
+            }
+            ctx.other_keys = tuple(other_vars.keys())
             ctx.save_for_backward(
-                *input_vals, *grad_sol, *differentiable_tensors, *optim_tensors
+                *input_vals,
+                *grad_sol,
+                *differentiable_tensors,
+                *optim_tensors,
+                *other_vars.values(),
             )
         return (*optim_tensors, info)
 
@@ -247,8 +259,10 @@ class TheseusLayerDLMForward(torch.autograd.Function):
         input_vals = saved_tensors[:n]
         grad_sol = saved_tensors[n : n + k]
         differentiable_tensors = saved_tensors[n + k : n + k + k]
-        optim_tensors = saved_tensors[n + k + k :]
         grad_outputs = grad_outputs[:-1]
+        num_optim = len(grad_outputs)
+        optim_tensors = saved_tensors[n + k + k : n + k + k + num_optim]
+        other_tensors = saved_tensors[n + k + k + num_optim :]
         if all(gs is None for gs in grad_sol):
             return (None,) * (7 + 2 * n + k)
 
@@ -259,6 +273,7 @@ class TheseusLayerDLMForward(torch.autograd.Function):
 
         # Update the optim vars to their solutions.
         bwd_data = dict(zip(input_keys, input_vals))
+        bwd_data.update(zip(ctx.other_keys, other_tensors))
         for k, v in zip(bwd_objective.optim_vars.keys(), optim_tensors):
             bwd_data[k] = v.detach()
 
-- 
2.43.0


From 0f043e032cd78fcede8c360c6299270f5583d6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 43/69] fix: HingeCost jacobians broadcast limits with batch
 size 1

---
 theseus/embodied/motionmodel/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theseus/embodied/motionmodel/misc.py b/theseus/embodied/motionmodel/misc.py
index 5f8419f..f7cc268 100644
--- a/theseus/embodied/motionmodel/misc.py
+++ b/theseus/embodied/motionmodel/misc.py
@@ -79,8 +79,8 @@ class HingeCost(CostFunction):
         J = self.vector.tensor.new_zeros(
             error.shape[0], self.vector.dof(), self.vector.dof()
         )
-        J[below_idx.diag_embed()] = -1.0
-        J[above_idx.diag_embed()] = 1.0
+        J[below_idx.expand_as(error).diag_embed()] = -1.0
+        J[above_idx.expand_as(error).diag_embed()] = 1.0
         return [J], error
 
     def _copy_impl(self, new_name: Optional[str] = None) -> "HingeCost":
-- 
2.43.0


From 854083045f7b1276eb16142309bceade5f699ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 44/69] fix: best solution tracking with optimization variables
 of batch size 1

---
 theseus/optimizer/nonlinear/nonlinear_optimizer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/theseus/optimizer/nonlinear/nonlinear_optimizer.py b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
index c2b3095..8f0abe2 100644
--- a/theseus/optimizer/nonlinear/nonlinear_optimizer.py
+++ b/theseus/optimizer/nonlinear/nonlinear_optimizer.py
@@ -208,8 +208,12 @@ class NonlinearOptimizer(Optimizer, abc.ABC):
             )
             info.best_iter[good_indices] = current_iter
             for var in self.objective.optim_vars.values():
-                info.best_solution[var.name][good_indices] = (
-                    var.tensor.detach().clone()[good_indices].cpu()
+                # The variable's batch size can still be 1 here, in which case it is
+                # broadcast to the objective's batch size
+                info.best_solution[var.name] = torch.where(
+                    good_indices.view((-1,) + (1,) * (var.ndim - 1)).cpu(),
+                    var.tensor.detach().cpu(),
+                    info.best_solution[var.name],
                 )
 
             # not torch.minimum(), which would propagate a NaN error
-- 
2.43.0


From 175dcf0b34ef0edaf3b64961be5679d7938e43b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:31 +0000
Subject: [PATCH 45/69] Revert "fix: generate_synthetic_3D draws all random
 values from the given generator"

This reverts commit b36c308ae677d19adf0761da7c5a4a04ed31e21e.
---
 theseus/utils/examples/pose_graph/dataset.py | 38 +++++++-------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/theseus/utils/examples/pose_graph/dataset.py b/theseus/utils/examples/pose_graph/dataset.py
index 64b8bbc..61272a4 100644
--- a/theseus/utils/examples/pose_graph/dataset.py
+++ b/theseus/utils/examples/pose_graph/dataset.py
@@ -247,20 +247,6 @@ class PoseGraphDataset:
         generator: Optional[torch.Generator] = None,
         dtype: Optional[torch.dtype] = None,
     ) -> Tuple["PoseGraphDataset", List[bool]]:
-        # If a generator is given, all random values are drawn from it.
-        def _rand(*size: int) -> torch.Tensor:
-            return torch.rand(*size, generator=generator, dtype=dtype)
-
-        def _uniform() -> float:
-            if generator is None:
-                return np.random.rand()
-            return torch.rand(1, generator=generator).item()
-
-        def _randint(high: int, size: int) -> List[int]:
-            if generator is None:
-                return np.random.randint(high, size=size).tolist()
-            return torch.randint(high, (size,), generator=generator).tolist()
-
         poses: List[th.SE3] = list()
         gt_poses: List[th.SE3] = list()
         edges = list()
@@ -287,8 +273,8 @@ class PoseGraphDataset:
             gt_relative_pose = th.SE3.exp_map(
                 torch.cat(
                     [
-                        _rand(dataset_size, 3) - 0.5,
-                        2.0 * _rand(dataset_size, 3) - 1,
+                        torch.rand(dataset_size, 3, dtype=dtype) - 0.5,
+                        2.0 * torch.rand(dataset_size, 3, dtype=dtype) - 1,
                     ],
                     dim=1,
                 )
@@ -297,9 +283,9 @@ class PoseGraphDataset:
                 torch.cat(
                     [
                         translation_noise
-                        * (2.0 * _rand(dataset_size, 3) - 1),
+                        * (2.0 * torch.rand(dataset_size, 3, dtype=dtype) - 1),
                         rotation_noise
-                        * (2.0 * _rand(dataset_size, 3) - 1),
+                        * (2.0 * torch.rand(dataset_size, 3, dtype=dtype) - 1),
                     ],
                     dim=1,
                 )
@@ -323,23 +309,23 @@ class PoseGraphDataset:
             )
             inliers.append(True)
 
-            if _uniform() <= loop_closure_ratio and n - 1 > 0:
-                num_loop_closures = _randint(max_num_loop_closures, 1)[0] + 1
-                indices = set(_randint(n - 1, num_loop_closures))
+            if np.random.rand(1) <= loop_closure_ratio and n - 1 > 0:
+                num_loop_closures = np.random.randint(max_num_loop_closures) + 1
+                indices = set(np.random.randint(0, n - 1, num_loop_closures))
                 j = n
 
                 for i in indices:
                     gt_relative_pose = cast(
                         th.SE3, gt_poses[i].inverse().compose(gt_poses[j])
                     )
-                    if _uniform() > loop_closure_outlier_ratio:
+                    if np.random.rand(1) > loop_closure_outlier_ratio:
                         noise_relative_pose = th.SE3.exp_map(
                             torch.cat(
                                 [
                                     translation_noise
-                                    * (2.0 * _rand(1, 3) - 1),
+                                    * (2.0 * torch.rand(1, 3, dtype=dtype) - 1),
                                     rotation_noise
-                                    * (2.0 * _rand(1, 3) - 1),
+                                    * (2.0 * torch.rand(1, 3, dtype=dtype) - 1),
                                 ],
                                 dim=1,
                             )
@@ -368,8 +354,8 @@ class PoseGraphDataset:
             noise_pose = th.SE3.exp_map(
                 torch.cat(
                     [
-                        translation_noise * (2.0 * _rand(1, 3) - 1),
-                        rotation_noise * (2.0 * _rand(1, 3) - 1),
+                        translation_noise * (2.0 * torch.rand(1, 3, dtype=dtype) - 1),
+                        rotation_noise * (2.0 * torch.rand(1, 3, dtype=dtype) - 1),
                     ],
                     dim=1,
                 )
-- 
2.43.0


From c886432be2ab5fb3116028bb6ae5f86b7cd5a3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:51 +0000
Subject: [PATCH 46/69] fix: second derivatives of forward kinematics are those
 of the poses

---
 torchkin/torchkin/forward_kinematics.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/torchkin/torchkin/forward_kinematics.py b/torchkin/torchkin/forward_kinematics.py
index 5c226d1..05ffc9d 100644
--- a/torchkin/torchkin/forward_kinematics.py
+++ b/torchkin/torchkin/forward_kinematics.py
@@ -80,16 +80,24 @@ def ForwardKinematicsFactory(robot: Robot, link_names: Optional[List[str]] = Non
 
         @staticmethod
         def setup_context(ctx, inputs, output):
-            ctx.save_for_backward(*output[:-1])
+            ctx.save_for_backward(*inputs, *output[:-1])
             ctx.poses = output[-1]
 
         @staticmethod
         def backward(ctx, *grad_outputs):
-            rets: tuple(torch.Tensor) = ctx.saved_tensors
-            if not hasattr(ctx, "jposes"):
-                ctx.jposes: torch.Tensor = _forward_kinematics_backward_helper(
-                    ctx.poses
-                )
+            angles, *rets = ctx.saved_tensors
+            if torch.is_grad_enabled():
+                # The gradient may be differentiated again, so that everything
+                # used below must be a differentiable function of the angles.
+                poses = _forward_kinematics_helper(angles)
+                rets = [poses[id] for id in link_ids]
+                jposes = _forward_kinematics_backward_helper(poses)
+            else:
+                if not hasattr(ctx, "jposes"):
+                    ctx.jposes: torch.Tensor = _forward_kinematics_backward_helper(
+                        ctx.poses
+                    )
+                jposes = ctx.jposes
             grad_pose = grad_outputs[-2].new_zeros(
                 grad_outputs[-2].shape[0], 6, robot.dof
             )
@@ -109,7 +117,7 @@ def ForwardKinematicsFactory(robot: Robot, link_names: Optional[List[str]] = Non
                 ).unsqueeze(-1)
                 grad_pose[:, :, ancestor_non_fixed_joint_ids] += temp
             grad_input[:, joint_ids] = (
-                ctx.jposes[:, :, joint_ids] * grad_pose[:, :, joint_ids]
+                jposes[:, :, joint_ids] * grad_pose[:, :, joint_ids]
             ).sum(-2)
 
             return grad_input
-- 
2.43.0


From 09a766fc279b673f04508049ef2c5fae51268395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:51 +0000
Subject: [PATCH 47/69] fix: UrdfRobotModel without link names uses all links

---
 theseus/embodied/kinematics/kinematics_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/embodied/kinematics/kinematics_model.py b/theseus/embodied/kinematics/kinematics_model.py
index ab08077..f5309e0 100644
--- a/theseus/embodied/kinematics/kinematics_model.py
+++ b/theseus/embodied/kinematics/kinematics_model.py
@@ -60,7 +60,7 @@ class UrdfRobotModel(KinematicsModel):
         self.fk, self.jfk_b, self.jfk_s = get_forward_kinematics_fns(
             self.robot, link_names
         )
-        self.link_names = link_names
+        self.link_names = [link.name for link in self.robot.get_links(link_names)]
 
     def forward_kinematics(  # type: ignore
         self,
-- 
2.43.0


From f3199334e48a2fecc59a9f296c3751ecceeaa51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:27 +0000
Subject: [PATCH 48/69] fix: nonlinear least squares optimizers follow the
 dtype and device of the objective

---
 theseus/optimizer/nonlinear/nonlinear_least_squares.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theseus/optimizer/nonlinear/nonlinear_least_squares.py b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
index 3afd731..f85c15c 100644
--- a/theseus/optimizer/nonlinear/nonlinear_least_squares.py
+++ b/theseus/optimizer/nonlinear/nonlinear_least_squares.py
@@ -304,6 +304,8 @@ class NonlinearLeastSquares(NonlinearOptimizer, abc.ABC):
     # in the objective.
     def _update_tmp_optim_vars(self):
         for v_tmp, v_order in zip(self._tmp_optim_vars, self.ordering):
+            # the objective might have been moved since the containers were created
+            v_tmp.to(device=v_order.device, dtype=v_order.dtype)
             v_tmp.update(v_order.tensor)
 
     def _compute_retracted_tensors_and_error(
-- 
2.43.0


From 64c52b21463b2349cc92697fe74ffa9218596728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:33 +0000
Subject: [PATCH 49/69] fix: DLM backward objective follows the dtype and
 device of the layer

---
 theseus/theseus_layer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/theseus/theseus_layer.py b/theseus/theseus_layer.py
index 3935430..ca06065 100644
--- a/theseus/theseus_layer.py
+++ b/theseus/theseus_layer.py
@@ -67,7 +67,11 @@ class TheseusLayer(nn.Module):
                     f"but {type(dlm_epsilon)} was given."
                 )
 
-            if self._dlm_bwd_objective is None:
+            if (
+                self._dlm_bwd_objective is None
+                or self._dlm_bwd_objective.dtype != self.dtype
+                or self._dlm_bwd_objective.device != self.device
+            ):
                 _obj, _opt = _instantiate_dlm_bwd_objective(self.objective)
                 _obj.to(self.device)
                 self._dlm_bwd_objective = _obj
-- 
2.43.0


From ab80227bae448904ef7e23b0f2371c807ace4559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:33 +0000
Subject: [PATCH 50/69] fix: DCEM samples in the dtype of the objective

---
 theseus/optimizer/nonlinear/dcem.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/theseus/optimizer/nonlinear/dcem.py b/theseus/optimizer/nonlinear/dcem.py
index dbf66ae..0af2e1e 100644
--- a/theseus/optimizer/nonlinear/dcem.py
+++ b/theseus/optimizer/nonlinear/dcem.py
@@ -86,7 +86,9 @@ class DCEM(NonlinearOptimizer):
     def reset_sigma(self, init_sigma: Union[float, torch.Tensor]) -> None:
         self.sigma = (
             torch.ones(
-                (self.objective.batch_size, self._tot_dof), device=self.objective.device
+                (self.objective.batch_size, self._tot_dof),
+                device=self.objective.device,
+                dtype=self.objective.dtype,
             )
             * init_sigma
         )
@@ -135,9 +137,9 @@ class DCEM(NonlinearOptimizer):
         else:
             indexes_vals = fX.argsort(dim=1)[:, : self.n_elite]
             # Scatter 1.0 to the indexes using indexes_vals
-            indexes = torch.zeros(n_batch, self.n_samples, device=device).scatter_(
-                1, indexes_vals, 1.0
-            )
+            indexes = torch.zeros(
+                n_batch, self.n_samples, device=device, dtype=self.objective.dtype
+            ).scatter_(1, indexes_vals, 1.0)
             indexes = indexes.unsqueeze(2)
             eps = 1e-10
         # indexes.shape should be (n_batch, n_sample, 1)
-- 
2.43.0


From 4a531eabd555dda044111e1d91624bdf23f00c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:12 +0000
Subject: [PATCH 51/69] fix: sparse linearization diagonal scaling keeps the
 precision of the objective

---
 theseus/optimizer/sparse_linearization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/optimizer/sparse_linearization.py b/theseus/optimizer/sparse_linearization.py
index 021d434..6bebff2 100644
--- a/theseus/optimizer/sparse_linearization.py
+++ b/theseus/optimizer/sparse_linearization.py
@@ -189,7 +189,7 @@ class SparseLinearization(Linearization):
         assert v.shape[1] == self.num_cols
         if self._AtA_diag is None:
             A_val = self.A_val
-            self._AtA_diag = torch.zeros(A_val.shape[0], self.num_cols)
+            self._AtA_diag = A_val.new_zeros(A_val.shape[0], self.num_cols)
             for row in range(self.num_rows):
                 start = self.A_row_ptr[row]
                 end = self.A_row_ptr[row + 1]
-- 
2.43.0


From e6ee016b67fe31c0d8182eb5c68a543fc7707dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:12 +0000
Subject: [PATCH 52/69] fix: second derivatives of SO3 and SE3 log are right
 under vectorized jacobians

---
 torchlie/torchlie/functional/se3_impl.py | 2 +-
 torchlie/torchlie/functional/so3_impl.py | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/torchlie/torchlie/functional/se3_impl.py b/torchlie/torchlie/functional/se3_impl.py
index 7c51ac8..e80cd35 100644
--- a/torchlie/torchlie/functional/se3_impl.py
+++ b/torchlie/torchlie/functional/se3_impl.py
@@ -489,7 +489,7 @@ def _log_backward(
 ) -> torch.Tensor:
     jac_by_g = (jacobian.transpose(-1, -2) @ grad_output.unsqueeze(-1)).squeeze(-1)
     jac_by_g[..., 3:] *= 0.5
-    temp2: torch.Tensor = lift(jac_by_g)
+    temp2 = _lift_impl(jac_by_g)
     return group[..., :3] @ temp2
 
 
diff --git a/torchlie/torchlie/functional/so3_impl.py b/torchlie/torchlie/functional/so3_impl.py
index 538af86..df8a99e 100644
--- a/torchlie/torchlie/functional/so3_impl.py
+++ b/torchlie/torchlie/functional/so3_impl.py
@@ -490,9 +490,7 @@ def _log_backward(
     group: torch.Tensor, jacobian: torch.Tensor, grad_output: torch.Tensor
 ) -> torch.Tensor:
     jacobian = 0.5 * jacobian
-    temp = _lift_autograd_fn(
-        (jacobian.transpose(-2, -1) @ grad_output.unsqueeze(-1)).squeeze(-1)
-    )
+    temp = _lift_impl((jacobian.transpose(-2, -1) @ grad_output.unsqueeze(-1)).squeeze(-1))
     return group @ temp
 
 
-- 
2.43.0


From 654d4007f75cfbc0ee8c1d3429a42e4f9939e43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:17 +0000
Subject: [PATCH 53/69] fix: a Timer section that never ended does not
 deactivate the next one

---
 theseus/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/utils/utils.py b/theseus/utils/utils.py
index af74c49..7320c13 100644
--- a/theseus/utils/utils.py
+++ b/theseus/utils/utils.py
@@ -232,8 +232,8 @@ class Timer:
         self._tmp_deactivated = False
 
     def start(self, caller: Optional[str] = None, deactivate: bool = False) -> "Timer":
+        self._tmp_deactivated = deactivate
         if not self.active or deactivate:
-            self._tmp_deactivated = deactivate
             return self
         if self.device.type == "cuda":
             self._start_event = torch.cuda.Event(enable_timing=True)
-- 
2.43.0


From b3cda80037d0f47b360c1ee5cda8408bf0bad93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:57 +0000
Subject: [PATCH 54/69] fix: unit quaternion check refuses NaN

---
 torchlie/torchlie/functional/so3_impl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/torchlie/torchlie/functional/so3_impl.py b/torchlie/torchlie/functional/so3_impl.py
index df8a99e..c467fa5 100644
--- a/torchlie/torchlie/functional/so3_impl.py
+++ b/torchlie/torchlie/functional/so3_impl.py
@@ -112,7 +112,10 @@ def check_unit_quaternion(quaternion: torch.Tensor):
         if t_.dtype != torch.float64:
             t_ = t_.double()
 
-        if (torch.linalg.norm(t_, dim=-1) - 1).abs().max().item() >= QUANTERNION_EPS:
+        # written so that NaNs are refused too
+        if not (
+            (torch.linalg.norm(t_, dim=-1) - 1).abs().max().item() < QUANTERNION_EPS
+        ):
             raise ValueError("Not unit quaternions.")
 
     if quaternion.shape[-1] != 4:
-- 
2.43.0


From 923247113d1e854099e0b2e4287a24ac1ea7efd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:36 +0000
Subject: [PATCH 55/69] fix: SE3 hat check looks at the last row, not at the
 translation column

---
 torchlie/torchlie/functional/se3_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchlie/torchlie/functional/se3_impl.py b/torchlie/torchlie/functional/se3_impl.py
index e80cd35..fdc8618 100644
--- a/torchlie/torchlie/functional/se3_impl.py
+++ b/torchlie/torchlie/functional/se3_impl.py
@@ -50,7 +50,7 @@ def check_tangent_vector(tangent_vector: torch.Tensor):
 
 def check_hat_tensor(tensor: torch.Tensor):
     def _impl(t_: torch.Tensor):
-        if t_[..., -1].abs().max() > LIE_PARAMS.get_eps("se3", "hat", t_.dtype):
+        if t_[..., -1, :].abs().max() > LIE_PARAMS.get_eps("se3", "hat", t_.dtype):
             raise ValueError("The last row for hat tensors of SE3 must be zero")
 
         SO3.check_hat_tensor(t_[..., :3, :3])
-- 
2.43.0


From 747e4d0af097af196f33c76d8efdc6123ed93f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:36 +0000
Subject: [PATCH 56/69] fix: hat tensor checks refuse NaN

---
 torchlie/torchlie/functional/se3_impl.py | 3 ++-
 torchlie/torchlie/functional/so3_impl.py | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/torchlie/torchlie/functional/se3_impl.py b/torchlie/torchlie/functional/se3_impl.py
index fdc8618..c5ba769 100644
--- a/torchlie/torchlie/functional/se3_impl.py
+++ b/torchlie/torchlie/functional/se3_impl.py
@@ -50,7 +50,8 @@ def check_tangent_vector(tangent_vector: torch.Tensor):
 
 def check_hat_tensor(tensor: torch.Tensor):
     def _impl(t_: torch.Tensor):
-        if t_[..., -1, :].abs().max() > LIE_PARAMS.get_eps("se3", "hat", t_.dtype):
+        HAT_EPS = LIE_PARAMS.get_eps("se3", "hat", t_.dtype)
+        if not t_[..., -1, :].abs().max() <= HAT_EPS:  # also refuses NaNs
             raise ValueError("The last row for hat tensors of SE3 must be zero")
 
         SO3.check_hat_tensor(t_[..., :3, :3])
diff --git a/torchlie/torchlie/functional/so3_impl.py b/torchlie/torchlie/functional/so3_impl.py
index c467fa5..bf67c06 100644
--- a/torchlie/torchlie/functional/so3_impl.py
+++ b/torchlie/torchlie/functional/so3_impl.py
@@ -67,9 +67,9 @@ def check_tangent_vector(tangent_vector: torch.Tensor):
 
 def check_hat_tensor(tensor: torch.Tensor):
     def _impl(t_: torch.Tensor):
-        if (t_.transpose(-1, -2) + t_).abs().max().item() > LIE_PARAMS.get_eps(
-            "so3", "hat", t_.dtype
-        ):
+        HAT_EPS = LIE_PARAMS.get_eps("so3", "hat", t_.dtype)
+        # written so that NaNs are refused too
+        if not (t_.transpose(-1, -2) + t_).abs().max().item() <= HAT_EPS:
             raise ValueError("Hat tensors of SO3 can only be skew-symmetric.")
 
     if tensor.shape[-2:] != (3, 3):
-- 
2.43.0


From ef55ff7ef12985c3af38ba217e235c35784af5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:13 +0000
Subject: [PATCH 57/69] fix: SE2 log map is accurate for rotations close to
 half a turn

---
 theseus/geometry/se2.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/theseus/geometry/se2.py b/theseus/geometry/se2.py
index 83988bb..984131f 100644
--- a/theseus/geometry/se2.py
+++ b/theseus/geometry/se2.py
@@ -172,13 +172,18 @@ class SE2(LieGroup):
             "se2", "near_zero", theta.dtype
         )
         non_zero = torch.ones(1, dtype=self.dtype, device=self.device)
-        sine_nz = torch.where(small_theta, non_zero, sine)
-        half_theta_by_tan_half_theta = (
+        half_theta = 0.5 * theta
+        # (1 + cosine) / sine loses all accuracy when theta is near to pi, so the
+        # equivalent sine / (1 - cosine) is used for obtuse angles
+        obtuse = cosine < 0
+        sine_nz = torch.where(torch.logical_or(small_theta, obtuse), non_zero, sine)
+        half_theta_by_tan_half_theta = torch.where(
+            obtuse,
+            half_theta * sine / torch.where(obtuse, 1 - cosine, non_zero),
             0.5
             * (1 + cosine)
-            * torch.where(small_theta, 1 + sine**2 / 6, theta / sine_nz)
+            * torch.where(small_theta, 1 + sine**2 / 6, theta / sine_nz),
         )
-        half_theta = 0.5 * theta
 
         # Compute the translation
         ux = half_theta_by_tan_half_theta * self[:, 0] + half_theta * self[:, 1]
-- 
2.43.0


From 7b291eaac96b341ff5425f0dc14e770bb5b8cc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:53 +0000
Subject: [PATCH 58/69] fix: so2_norm_eps_float64 has a default and is reset

---
 theseus/global_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/global_params.py b/theseus/global_params.py
index 1d05ae3..0ee0260 100644
--- a/theseus/global_params.py
+++ b/theseus/global_params.py
@@ -49,8 +49,8 @@ class _TheseusGlobalParams:
         self.se2_near_zero_eps_float32 = 3e-2
         self.se2_d_near_zero_eps_float32 = 1e-1
         self.so3_to_quaternion_sqrt_eps_float32 = 1e-6
-        self.so2_norm_eps_float32 = 1e-12
 
+        self.so2_norm_eps_float64 = 1e-12
         self.so2_matrix_eps_float64 = 4e-7
         self.se2_near_zero_eps_float64 = 1e-6
         self.se2_d_near_zero_eps_float64 = 1e-3
-- 
2.43.0


From c5d01e379c5142c78c06adc07811a9478af9714c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:53 +0000
Subject: [PATCH 59/69] fix: refused global options leave all options unchanged

---
 theseus/global_params.py           | 3 ++-
 torchlie/torchlie/global_params.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/theseus/global_params.py b/theseus/global_params.py
index 0ee0260..af8b157 100644
--- a/theseus/global_params.py
+++ b/theseus/global_params.py
@@ -74,7 +74,8 @@ def set_global_params(options: Dict[str, Any]) -> None:
             f"following ones:\n    {torchlie_params_found}.\n"
             f"Please use torchlie.set_global_params() to set these tolerances."
         )
-    for k, v in options.items():
+    for k in options:
         if not hasattr(_THESEUS_GLOBAL_PARAMS, k):
             raise ValueError(f"{k} is not a valid global option for theseus.")
+    for k, v in options.items():
         setattr(_THESEUS_GLOBAL_PARAMS, k, v)
diff --git a/torchlie/torchlie/global_params.py b/torchlie/torchlie/global_params.py
index 00e7e8e..340a867 100644
--- a/torchlie/torchlie/global_params.py
+++ b/torchlie/torchlie/global_params.py
@@ -62,9 +62,10 @@ _TORCHLIE_GLOBAL_PARAMS = _TorchLieGlobalParams()
 
 
 def set_global_params(options: Dict[str, Any]) -> None:
-    for k, v in options.items():
+    for k in options:
         if not hasattr(_TORCHLIE_GLOBAL_PARAMS, k):
             raise ValueError(f"{k} is not a valid global option for torchlie.")
+    for k, v in options.items():
         setattr(_TORCHLIE_GLOBAL_PARAMS, k, v)
 
 
-- 
2.43.0


From 9fd85998024c175c0aa7c52a03506c8edc1ffea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:53 +0000
Subject: [PATCH 60/69] fix: reset_global_params of torchlie resets every
 option

---
 torchlie/torchlie/global_params.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchlie/torchlie/global_params.py b/torchlie/torchlie/global_params.py
index 340a867..1108a78 100644
--- a/torchlie/torchlie/global_params.py
+++ b/torchlie/torchlie/global_params.py
@@ -56,6 +56,8 @@ class _TorchLieGlobalParams:
         self.so3_quat_eps_float64 = 5e-7
         self.so3_hat_eps_float64 = 5e-7
         self.se3_hat_eps_float64 = 5e-7
+        self._allow_passthrough_ops = False
+        self._faster_log_maps = False
 
 
 _TORCHLIE_GLOBAL_PARAMS = _TorchLieGlobalParams()
-- 
2.43.0


From 258e207c50e93c65ec00516b29ba557edc7e1b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:53 +0000
Subject: [PATCH 61/69] fix: approximate Local jacobians follow dtype and
 device changes

---
 theseus/embodied/misc/local_cost_fn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/theseus/embodied/misc/local_cost_fn.py b/theseus/embodied/misc/local_cost_fn.py
index c64666a..ff53e8c 100644
--- a/theseus/embodied/misc/local_cost_fn.py
+++ b/theseus/embodied/misc/local_cost_fn.py
@@ -44,6 +44,8 @@ class Local(CostFunction):
             if (
                 self._jac_cache is not None
                 and self._jac_cache.shape[0] == self.var.shape[0]
+                and self._jac_cache.dtype == self.var.dtype
+                and self._jac_cache.device == self.var.device
             ):
                 jacobian = self._jac_cache
             else:
-- 
2.43.0


From 9c1b484be21dabee1a027def4ec191c9386d4e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:15 +0000
Subject: [PATCH 62/69] fix: variable orderings re-index the variables behind a
 removed one

---
 theseus/optimizer/variable_ordering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theseus/optimizer/variable_ordering.py b/theseus/optimizer/variable_ordering.py
index 5156dcd..4b2dd45 100644
--- a/theseus/optimizer/variable_ordering.py
+++ b/theseus/optimizer/variable_ordering.py
@@ -49,7 +49,7 @@ class VariableOrdering:
 
     def remove(self, var: Variable):
         self._var_order.remove(var)
-        del self._var_name_to_index[var.name]
+        self._var_name_to_index = {v.name: i for i, v in enumerate(self._var_order)}
 
     def extend(self, variables: Sequence[Variable]):
         for var in variables:
-- 
2.43.0


From 2e51905ab6da985f16d77a7f66264927e64d3e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:15 +0000
Subject: [PATCH 63/69] fix: refused Gaussian updates leave the means unchanged

---
 theseus/optimizer/manifold_gaussian.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/theseus/optimizer/manifold_gaussian.py b/theseus/optimizer/manifold_gaussian.py
index 8cf1d98..048a1f9 100644
--- a/theseus/optimizer/manifold_gaussian.py
+++ b/theseus/optimizer/manifold_gaussian.py
@@ -81,9 +81,6 @@ class ManifoldGaussian:
                 f"length to original mean sequence. Given: {len(mean)}. "
                 f"Expected: {len(self.mean)}"
             )
-        for i in range(len(self.mean)):
-            self.mean[i].update(mean[i])
-
         expected_shape = torch.Size([mean[0].shape[0], self.dof, self.dof])
         if precision.shape != expected_shape:
             raise ValueError(
@@ -104,7 +101,15 @@ class ManifoldGaussian:
         if not torch.allclose(precision, precision.transpose(1, 2)):
             raise ValueError("Tried to update precision with non-symmetric matrix.")
 
-        self.precision = precision
+        old_tensors = [var.tensor for var in self.mean]
+        try:
+            for i in range(len(self.mean)):
+                self.mean[i].update(mean[i])
+            self.precision = precision
+        except BaseException:  # an update refused half way changes nothing
+            for var, tensor in zip(self.mean, old_tensors):
+                var.tensor = tensor
+            raise
 
 
 # Projects the gaussian (ManifoldGaussian object) into the tangent plane at
-- 
2.43.0


From d1d93792f7a9a5ebcfaa05c097d28680fabe7ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:15 +0000
Subject: [PATCH 64/69] fix: signed distance fields take new data all or
 nothing, and its size

---
 .../collision/signed_distance_field.py        | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/theseus/embodied/collision/signed_distance_field.py b/theseus/embodied/collision/signed_distance_field.py
index b49c8a0..e737c51 100644
--- a/theseus/embodied/collision/signed_distance_field.py
+++ b/theseus/embodied/collision/signed_distance_field.py
@@ -44,8 +44,6 @@ class SignedDistanceField2D:
         self.cell_size: Variable
         self.sdf_data: Variable
         self.update_data(origin, sdf_data, cell_size)
-        self._num_rows = sdf_data.shape[1]
-        self._num_cols = sdf_data.shape[2]
         self.sdf_boundary_value = sdf_boundary_value
 
     def _compute_sdf_data_from_map(
@@ -151,14 +149,16 @@ class SignedDistanceField2D:
         sdf_data: Union[torch.Tensor, Variable],
         cell_size: Union[float, torch.Tensor, Variable],
     ):
-        # Update origin
-        self.origin = SignedDistanceField2D.convert_origin(origin)
-
-        # Update cell size
-        self.cell_size = SignedDistanceField2D.convert_cell_size(cell_size)
-
-        # Update sdf_data
-        self.sdf_data = SignedDistanceField2D.convert_sdf_data(sdf_data)
+        # Converted before updating, so that refused data changes nothing
+        new_origin = SignedDistanceField2D.convert_origin(origin)
+        new_cell_size = SignedDistanceField2D.convert_cell_size(cell_size)
+        new_sdf_data = SignedDistanceField2D.convert_sdf_data(sdf_data)
+
+        self.origin = new_origin
+        self.cell_size = new_cell_size
+        self.sdf_data = new_sdf_data
+        self._num_rows = new_sdf_data.shape[1]
+        self._num_cols = new_sdf_data.shape[2]
 
     def convert_points_to_cell(
         self, points: torch.Tensor
-- 
2.43.0


From e02b0d806b23be2a3c256d45de2dda059bb7f824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:15 +0000
Subject: [PATCH 65/69] fix: erasing a mixed variable in one role keeps it in
 the other

---
 theseus/core/objective.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 9a6f051..8534bbf 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -418,9 +418,14 @@ class Objective:
             del self_var_to_fn_map[variable][cost_fn_idx]
             # if the variable has no other functions, remove it also
             if not self_var_to_fn_map[variable]:
-                del self._all_variables[variable.name]
                 del self_var_to_fn_map[variable]
                 del self_vars_of_this_type[variable.name]
+                # with mixed variables allowed, it could still be used in another role
+                if (
+                    variable not in self.functions_for_optim_vars
+                    and variable not in self.functions_for_aux_vars
+                ):
+                    del self._all_variables[variable.name]
 
     def erase(self, name: str):
         """Removes a cost function from the objective given its name
-- 
2.43.0


From e647b65204d00842f45fa145210fbd7b960e8e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:15 +0000
Subject: [PATCH 66/69] fix: copied objectives share mixed optimization and
 auxiliary variables

---
 theseus/core/objective.py | 39 ++++++++++++---------------------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/theseus/core/objective.py b/theseus/core/objective.py
index 8534bbf..0cc6c42 100644
--- a/theseus/core/objective.py
+++ b/theseus/core/objective.py
@@ -711,33 +711,18 @@ class Objective:
         # Handle case where a variable is copied in 2+ cost functions or cost weights,
         # since only a single copy should be maintained by objective
         for cost_function in new_cost_functions:
-            # CostFunction
-            for i, var in enumerate(cost_function.optim_vars):
-                if new_objective.has_optim_var(var.name):
-                    cost_function.set_optim_var_at(
-                        i, new_objective.optim_vars[var.name]
-                    )
-            for i, aux_var in enumerate(cost_function.aux_vars):
-                if new_objective.has_aux_var(aux_var.name):
-                    cost_function.set_aux_var_at(
-                        i, new_objective.aux_vars[aux_var.name]
-                    )
-            # CostWeight
-            for i, var in enumerate(cost_function.weight.optim_vars):
-                if var.name in new_objective.cost_weight_optim_vars:
-                    cost_function.weight.set_optim_var_at(
-                        i, new_objective.cost_weight_optim_vars[var.name]
-                    )
-            for i, aux_var in enumerate(cost_function.weight.aux_vars):
-                if new_objective.has_aux_var(aux_var.name):
-                    cost_function.weight.set_aux_var_at(
-                        i, new_objective.aux_vars[aux_var.name]
-                    )
-                else:
-                    # The weight can share variables with its own cost function
-                    for cf_aux_var in cost_function.aux_vars:
-                        if cf_aux_var.name == aux_var.name:
-                            cost_function.weight.set_aux_var_at(i, cf_aux_var)
+            # Variables can also be shared by a cost function and its weight, or, with
+            # mixed variables allowed, be both optimization and auxiliary variables
+            known_vars = dict(new_objective._all_variables)
+            for function in (cost_function, cost_function.weight):
+                for i, var in enumerate(function.optim_vars):
+                    known_var = known_vars.setdefault(var.name, var)
+                    if known_var is not var:
+                        function.set_optim_var_at(i, known_var)
+                for i, aux_var in enumerate(function.aux_vars):
+                    known_var = known_vars.setdefault(aux_var.name, aux_var)
+                    if known_var is not aux_var:
+                        function.set_aux_var_at(i, known_var)
             new_objective.add(cost_function)
         return new_objective
 
-- 
2.43.0


From c659c8188dd18b6ce5757484244156a183eb3ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:15 +0000
Subject: [PATCH 67/69] fix: masked_variables masks all variables or none

---
 theseus/core/variable.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/theseus/core/variable.py b/theseus/core/variable.py
index a535718..c9a70aa 100644
--- a/theseus/core/variable.py
+++ b/theseus/core/variable.py
@@ -141,9 +141,12 @@ class masked_variables:
         self._mask = mask
 
     def __enter__(self) -> None:
+        # No variable is masked unless all of them can be
         for v in self._vars:
             assert v.shape[0] == self._mask.shape[0]
-            v.update(v.tensor[self._mask])
+        masked_tensors = [v.tensor[self._mask] for v in self._vars]
+        for v, tensor in zip(self._vars, masked_tensors):
+            v.update(tensor)
 
     def __exit__(self, exc_type: Any, exc_value: Any, traceback: Any) -> None:
         for i, v in enumerate(self._vars):
-- 
2.43.0


From a337e2f5379ef335340c6457d6dc4a0ae85eb670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:55 +0000
Subject: [PATCH 68/69] fix: SE3 untransform backward broadcasts points with
 batch size 1

---
 torchlie/torchlie/functional/se3_impl.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/torchlie/torchlie/functional/se3_impl.py b/torchlie/torchlie/functional/se3_impl.py
index c5ba769..94a5502 100644
--- a/torchlie/torchlie/functional/se3_impl.py
+++ b/torchlie/torchlie/functional/se3_impl.py
@@ -855,11 +855,10 @@ class Untransform(lie_group.BinaryOperator):
         tensor: torch.Tensor = ctx.saved_tensors[1]
         tmp_tensor = tensor.unsqueeze(-1) - group[..., -1:]
         grad_output: torch.Tensor = grad_output.unsqueeze(-1)
-        tensor_size = get_transform_tensor_size(tensor)
         grad_input1 = group[..., :3] @ grad_output
         grad_input0 = torch.cat(
             (
-                tmp_tensor.view(*tensor_size, 3, 1) @ grad_output.transpose(-1, -2),
+                tmp_tensor @ grad_output.transpose(-1, -2),
                 -grad_input1,
             ),
             dim=-1,
-- 
2.43.0


From e5aa45852e5adfc0f19f3d716606cbc07ed9ea37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:21 +0000
Subject: [PATCH 69/69] fix: vectorization only merges autodiff cost functions
 with the same autograd options

---
 theseus/core/vectorizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/theseus/core/vectorizer.py b/theseus/core/vectorizer.py
index ed7e75c..585e02c 100644
--- a/theseus/core/vectorizer.py
+++ b/theseus/core/vectorizer.py
@@ -23,7 +23,11 @@ def _get_cost_function_schema(cost_function: CostFunction) -> _CostFunctionSchem
     def _fullname(obj) -> str:
         _name = f"{obj.__module__}.{obj.__class__.__name__}"
         if isinstance(obj, AutoDiffCostFunction):
-            _name += f"__{id(obj._err_fn)}"
+            _name += (
+                f"__{id(obj._err_fn)}__{obj._autograd_mode}__"
+                f"{obj._autograd_create_graph}__{obj._autograd_strict}__"
+                f"{obj._autograd_vectorize}__{obj._autograd_strategy}"
+            )
         if isinstance(obj, RobustCostFunction):
             _name += (
                 f"__{_fullname(obj.cost_function)}__"
-- 
2.43.0

