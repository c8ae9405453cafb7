From 2a08c9356cd319afa5fee3431c10e2f6737c01b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 01/48] fix: propagate sparse Jacobians through functions with
 several outputs

---
 folx/jvp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 6b638ab..a69886e 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -180,10 +180,10 @@ def sparse_jvp(
     grad_y = tree_take(y_tangent, slice(None, -1), axis=JAC_DIM)
     lapl_y = tree_take(y_tangent, -1, axis=JAC_DIM)
 
-    new_masks = broadcast_mask_to_jacobian(out_mask, grad_y)
-    assert grad_y.shape == new_masks.shape, f'{grad_y.shape} != {new_masks.shape}'
-
-    grad_y = jtu.tree_map(FwdJacobian, grad_y, new_masks)
+    # fwd may return several outputs, they all share the same mask.
+    grad_y = jtu.tree_map(
+        lambda g: FwdJacobian(g, broadcast_mask_to_jacobian(out_mask, g)), grad_y
+    )
     return y, grad_y, lapl_y
 
 
-- 
2.43.0


From 27e43665f6358e7938006837829567a285b47bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 02/48] fix: add sparse Jacobians that store different numbers
 of entries

---
 folx/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/folx/api.py b/folx/api.py
index fd677d2..229c243 100644
--- a/folx/api.py
+++ b/folx/api.py
@@ -213,7 +213,10 @@ class FwdJacobian(NamedTuple):
 
             return FwdJacobian(add_jacobians(self.as_dense.data, other.as_dense.data))
         # If both are weak, we can keep them sparse
-        if (other.x0_idx == self.x0_idx).all():
+        if (
+            other.x0_idx.shape[JAC_DIM] == self.x0_idx.shape[JAC_DIM]  # type: ignore
+            and (other.x0_idx == self.x0_idx).all()
+        ):
             return FwdJacobian(
                 self.data + other.data,
                 np.broadcast_arrays(self.x0_idx, other.x0_idx)[0],
-- 
2.43.0


From ec5abc415a34f243136a8e0385ecf09fa7911320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 03/48] fix: do not compare the concrete array types of scan
 carries

---
 folx/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 6678e4a..9e75e70 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -109,7 +109,7 @@ def eval_jaxpr_with_forward_laplacian(
         first_carry, first_y = wrapped(in_carry, jtu.tree_map(lambda x: x[0], in_inp))
         # Check whether jacobian sparsity matches
         for a, b in zip(in_carry, first_carry):
-            if not isinstance(a, type(b)):
+            if isinstance(a, FwdLaplArray) != isinstance(b, FwdLaplArray):
                 raise TypeError(f'Type mismatch in scan: {type(a)} != {type(b)}')
             if isinstance(a, FwdLaplArray):
                 if not np.all(a.jacobian.x0_idx == b.jacobian.x0_idx):  # type: ignore
-- 
2.43.0


From 5a44c91fa285b01dbd96e0b349eb0b8b06e82b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 04/48] fix: evaluate operations with Python scalar literals as
 operands

---
 folx/interpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 9e75e70..7da45e6 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -58,7 +58,8 @@ class JaxExprEnvironment:
 
     def read(self, var: core.Atom) -> ArrayOrFwdLaplArray:
         if isinstance(var, core.Literal):
-            return var.val
+            # Python scalars have neither a shape nor the dtype of the literal.
+            return np.asarray(var.val, dtype=var.aval.dtype)  # type: ignore
         self.reference_counter[var] -= 1
         result = self.env[var]
         if self.reference_counter[var] == 0:
-- 
2.43.0


From 925800cca440abe8c4210bff01af8ee83aac7555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 05/48] fix: pass keyword arguments on to the wrapped function

---
 folx/interpreter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 7da45e6..d5de96d 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -297,6 +297,8 @@ def forward_laplacian(
             closed_jaxpr.jaxpr,
             closed_jaxpr.literals,
             *lapl_args,
+            # keyword arguments are constants but still inputs of the jaxpr.
+            *jtu.tree_leaves(kwargs),
             sparsity_threshold=threshold,
         )
         out_structure = jtu.tree_structure(jax.eval_shape(fn, *args_arr, **kwargs))
-- 
2.43.0


From d3be846a046547b995f5438e6b72f442d87b8c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 06/48] fix: keep the dtype of each argument in dense initial
 Jacobians

---
 folx/interpreter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index d5de96d..fdfcc75 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -249,7 +249,10 @@ def init_forward_laplacian_state(
         jacobian = jtu.tree_map(lambda x: x[None], jacobian)
     else:
         jacobian = jax.vmap(unravel)(jnp.diag(ravel(jac)[0]))
-        jacobian = jtu.tree_map(FwdJacobian.from_dense, jacobian)
+        # ravel promotes all arguments to a common dtype.
+        jacobian = jtu.tree_map(
+            lambda j, a: FwdJacobian.from_dense(j.astype(a.dtype)), jacobian, x
+        )
     lapl_x = jtu.tree_map(jnp.zeros_like, x)
     return jtu.tree_map(FwdLaplArray, x, jacobian, lapl_x)
 
-- 
2.43.0


From e4d2718bd6050433e2e2d10b83ed15377def0276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 07/48] fix: return the Jacobians of stacked scan outputs in
 the right layout

---
 folx/interpreter.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index fdfcc75..833237d 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -15,6 +15,7 @@ from jax.util import safe_map
 from .api import (
     IS_LEAF,
     IS_LPL_ARR,
+    JAC_DIM,
     Array,
     ArrayOrFwdLaplArray,
     FwdJacobian,
@@ -107,7 +108,7 @@ def eval_jaxpr_with_forward_laplacian(
             )
             return result[:n_carry], result[n_carry:]
 
-        first_carry, first_y = wrapped(in_carry, jtu.tree_map(lambda x: x[0], in_inp))
+        first_carry, _ = wrapped(in_carry, jtu.tree_map(lambda x: x[0], in_inp))
         # Check whether jacobian sparsity matches
         for a, b in zip(in_carry, first_carry):
             if isinstance(a, FwdLaplArray) != isinstance(b, FwdLaplArray):
@@ -115,8 +116,17 @@ def eval_jaxpr_with_forward_laplacian(
             if isinstance(a, FwdLaplArray):
                 if not np.all(a.jacobian.x0_idx == b.jacobian.x0_idx):  # type: ignore
                     raise ValueError('Jacobian sparsity mismatch in scan.')
+        y_masks = []
+
+        def scan_fn(carry, x):
+            carry, y = wrapped(carry, x)
+            y_masks[:] = [
+                a.jacobian.x0_idx if isinstance(a, FwdLaplArray) else None for a in y
+            ]
+            return carry, y
+
         carry, y = jax.lax.scan(
-            wrapped,  # type: ignore
+            scan_fn,  # type: ignore
             in_carry,
             in_inp,
             length=eqn.params['length'],
@@ -129,11 +139,19 @@ def eval_jaxpr_with_forward_laplacian(
             else a
             for a, b in zip(carry, first_carry)
         ]
+
+        def unstack_jacobian(jacobian: FwdJacobian, mask):
+            # scan stacks its outputs along the first axis, i.e., before JAC_DIM.
+            data = jnp.moveaxis(jacobian.data, JAC_DIM + 1, JAC_DIM)
+            if mask is not None:
+                mask = np.broadcast_to(np.expand_dims(mask, JAC_DIM + 1), data.shape)
+            return FwdJacobian(data, mask)
+
         y = [
-            a._replace(jacobian=a.jacobian._replace(x0_idx=b.jacobian.x0_idx))  # type: ignore
+            a._replace(jacobian=unstack_jacobian(a.jacobian, mask))
             if isinstance(a, FwdLaplArray)
             else a
-            for a, b in zip(y, first_y)
+            for a, mask in zip(y, y_masks)
         ]
         return *carry, *y
 
-- 
2.43.0


From 4f5a255fba4260da6416d9e8b1e558b1b10d3574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 08/48] fix: do not keep derivatives of overwritten entries in
 scatter

---
 folx/jvp.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index a69886e..05c36d8 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -344,7 +344,11 @@ def sparse_scatter_jvp(
     operand, scatter_indices, updates = merge(laplace_args.arrays, extra_args)  # type: ignore
     if isinstance(scatter_indices, FwdLaplArray):
         return dense_jvp(fwd, laplace_args, flags=flags, in_axes=in_axes)
-    if not isinstance(updates, FwdLaplArray) and FunctionFlags.LINEAR in flags:
+    if (
+        not isinstance(updates, FwdLaplArray)
+        and FunctionFlags.LINEAR in flags
+        and FunctionFlags.INDEXING not in flags  # overwrites parts of the operand
+    ):
         # operand must be a fwdlapl array by exclusion since at least one has to be.
         y: Array = fwd(*laplace_args.x)  # type: ignore
         grad_y: FwdJacobian = operand.jacobian  # type: ignore
@@ -372,7 +376,11 @@ def sparse_scatter_jvp(
         one_hot_mask = jax.nn.one_hot(
             updates.jacobian.x0_idx, n, axis=-1, dtype=jnp.int32
         ).sum(0)
-        out_mask = np.array(jax.ops.segment_sum(one_hot_mask, scatter_indices[:, 0]))
+        out_mask = np.array(
+            jax.ops.segment_sum(
+                one_hot_mask, scatter_indices[:, 0], num_segments=operand.shape[0]
+            )
+        )
         max_out = np.sum(out_mask.astype(bool), axis=-1).max()
         out_mask = np.where(
             out_mask > 0, out_mask * jnp.arange(n), np.iinfo(np.int32).max
-- 
2.43.0


From 70ea15cd1ef9d991215aa56a7884094fdf36ca93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 09/48] fix: call the function with the original shape in
 ParallelLaplacianOperator

---
 folx/operators.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/folx/operators.py b/folx/operators.py
index 290033b..e16c7bd 100644
--- a/folx/operators.py
+++ b/folx/operators.py
@@ -67,10 +67,15 @@ class ParallelLaplacianOperator(LaplacianOperator):
     def __call__(f):
         @jax.jit
         def laplacian(x: jax.Array):
+            x_shape = x.shape
             x = x.reshape(-1)
             n = x.shape[0]
             eye = jnp.eye(n, dtype=x.dtype)
-            grad_f = jax.grad(f)
+
+            def f_(x):
+                return f(x.reshape(x_shape))
+
+            grad_f = jax.grad(f_)
             jacobian, dgrad_f = jax.linearize(grad_f, x)
 
             laplacian = jnp.diagonal(jax.vmap(dgrad_f)(eye))
-- 
2.43.0


From 44ffa51c2cf6bfcb787c85cd23a375868669b785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 10/48] fix: support argmax and argmin of input dependent
 arrays

---
 folx/wrapped_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index 3cb7902..be3d12c 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -430,6 +430,8 @@ _LAPLACE_FN_REGISTRY: dict[Primitive | str, ForwardLaplacian] = {
     jax.lax.not_p: warp_without_fwd_laplacian(jax.lax.bitwise_not),
     jax.lax.and_p: warp_without_fwd_laplacian(jax.lax.bitwise_and),
     jax.lax.or_p: warp_without_fwd_laplacian(jax.lax.bitwise_or),
+    jax.lax.argmax_p: warp_without_fwd_laplacian(jax.lax.argmax_p.bind),
+    jax.lax.argmin_p: warp_without_fwd_laplacian(jax.lax.argmin_p.bind),
     jax.lax.is_finite_p: warp_without_fwd_laplacian(jax.lax.is_finite),
     jax.lax.convert_element_type_p: dtype_conversion,
     'sign': warp_without_fwd_laplacian(jax.lax.sign),
-- 
2.43.0


From 4825e7a31077403f5db7628c956377e78cfdc8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 11/48] fix: return full Jacobians from
 ForwardLaplacianOperator in sparse mode

---
 folx/operators.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/folx/operators.py b/folx/operators.py
index e16c7bd..614b861 100644
--- a/folx/operators.py
+++ b/folx/operators.py
@@ -4,7 +4,7 @@ from typing import Callable, Protocol
 import jax
 import jax.numpy as jnp
 
-from .api import Array
+from .api import JAC_DIM, Array
 from .interpreter import forward_laplacian
 
 __all__ = [
@@ -29,11 +29,17 @@ class ForwardLaplacianOperator(LaplacianOperator):
     sparsity_threshold: float | int
 
     def __call__(self, f):
-        fwd_lapl = forward_laplacian(f, self.sparsity_threshold)
+        # We jit below since masks of sparse Jacobians are only static within one trace.
+        fwd_lapl = forward_laplacian(f, self.sparsity_threshold, disable_jit=True)
 
+        @jax.jit
         def lap(x: Array):
             result = fwd_lapl(x)
-            return result.laplacian, result.jacobian.dense_array
+            jacobian = result.jacobian.dense_array
+            # Sparse Jacobians end at the last input the output depends on.
+            missing = x.size - jacobian.shape[JAC_DIM]
+            padding = ((0, missing), *((0, 0),) * (jacobian.ndim - 1))
+            return result.laplacian, jnp.pad(jacobian, padding)
 
         return lap
 
-- 
2.43.0


From d339f4936532cbc5a75dc5f948433285643f83ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 12/48] fix: serialise the temporary replacement of the logging
 handlers across threads

---
 folx/utils.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/folx/utils.py b/folx/utils.py
index aece6c0..13b0bc3 100644
--- a/folx/utils.py
+++ b/folx/utils.py
@@ -1,5 +1,6 @@
 import functools
 import logging
+import threading
 from typing import Sequence, Type, TypeVar
 
 import jax
@@ -567,6 +568,8 @@ def broadcast_mask_to_jacobian(mask: PyTree[np.ndarray], jacobian: PyTree[Array]
 class LoggingPrefix(logging.Formatter):
     prefix: str
     _old_handlers = None
+    # The handlers are global, swapping them from several threads must not interleave.
+    _lock = threading.RLock()
 
     def __init__(self, prefix: str):
         self.prefix = prefix
@@ -577,6 +580,7 @@ class LoggingPrefix(logging.Formatter):
         return super().format(record)
 
     def __enter__(self):
+        self._lock.acquire()
         logger = logging.getLogger()
         self._old_handlers = logger.handlers
         myHandler = logging.StreamHandler()
@@ -584,9 +588,12 @@ class LoggingPrefix(logging.Formatter):
         logger.handlers = [myHandler]
 
     def __exit__(self, exc_type, exc_value, traceback):
-        if exc_type is not None:
-            logging.error(
-                'Exception occurred', exc_info=(exc_type, exc_value, traceback)
-            )
-        logger = logging.getLogger()
-        logger.handlers = self._old_handlers
+        try:
+            if exc_type is not None:
+                logging.error(
+                    'Exception occurred', exc_info=(exc_type, exc_value, traceback)
+                )
+        finally:
+            logger = logging.getLogger()
+            logger.handlers = self._old_handlers
+            self._lock.release()
-- 
2.43.0


From 25187479138b03519e3a8eb00ce7c1202a3d8518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 13/48] fix: aggregate repeated entries of sparse Jacobians in
 the Hessian of complex abs

---
 folx/custom_hessian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/custom_hessian.py b/folx/custom_hessian.py
index f1d0db6..8b016b6 100644
--- a/folx/custom_hessian.py
+++ b/folx/custom_hessian.py
@@ -70,7 +70,8 @@ def complex_abs_jac_hessian_jac(
     if not is_tree_complex(args.x):
         return jnp.zeros(())
 
-    x, J = args.x[0], args.jacobian[0].data
+    # Sparse Jacobians may store several entries for the same input.
+    x, J = args.x[0], args.jacobian[0].construct_jac_for(materialize_idx)
     y, J_abs = jnp.abs(x), jnp.abs(J)
 
     x_J = x.real * J.real + x.imag * J.imag
-- 
2.43.0


From 970c460512b01b0306ef13150954fdff74aae537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 14/48] fix: broadcast the sparsity pattern over output axes a
 function keeps

---
 folx/jvp.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 05c36d8..834be85 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -181,9 +181,13 @@ def sparse_jvp(
     lapl_y = tree_take(y_tangent, -1, axis=JAC_DIM)
 
     # fwd may return several outputs, they all share the same mask.
-    grad_y = jtu.tree_map(
-        lambda g: FwdJacobian(g, broadcast_mask_to_jacobian(out_mask, g)), grad_y
-    )
+    def add_mask(g: Array):
+        # fwd may keep the axes it acts on, e.g., softmax. They share the mask as well.
+        kept_axes = (1,) * (g.ndim - out_mask.ndim)
+        mask = out_mask.reshape(*out_mask.shape, *kept_axes)
+        return FwdJacobian(g, broadcast_mask_to_jacobian(mask, g))
+
+    grad_y = jtu.tree_map(add_mask, grad_y)
     return y, grad_y, lapl_y
 
 
-- 
2.43.0


From c3b586bc2b355b3571f36e5f08ea73469fb81910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 15/48] fix: broadcast weights to pytree arguments as
 documented

---
 folx/interpreter.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 833237d..63a212c 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -307,6 +307,16 @@ def forward_laplacian(
         )
         closed_jaxpr = jax.make_jaxpr(fn)(*args_arr, **kwargs)
         flat_args = jtu.tree_leaves(args, is_leaf=IS_LEAF)
+        try:
+            # Broadcast the weights like vmap's in_axes to one weight per leaf.
+            weights = jtu.tree_map(
+                lambda w, arg: [w] * len(jtu.tree_leaves(arg, is_leaf=IS_LEAF)),
+                weights,
+                args,
+            )
+            weights = tuple(jtu.tree_leaves(weights))
+        except ValueError:
+            pass  # The weights are not a prefix but match the flattened arguments.
         if 0 < sparsity_threshold < 1:
             threshold = int(sparsity_threshold * sum(x.size for x in flat_args))
         else:
-- 
2.43.0


From 7583c492ccd02bc7c529deb48ceea8d5155f29b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 16/48] fix: return zeros from ForwardLaplacianOperator for
 constant functions

---
 folx/operators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/folx/operators.py b/folx/operators.py
index 614b861..ede5a49 100644
--- a/folx/operators.py
+++ b/folx/operators.py
@@ -4,7 +4,7 @@ from typing import Callable, Protocol
 import jax
 import jax.numpy as jnp
 
-from .api import JAC_DIM, Array
+from .api import JAC_DIM, Array, FwdLaplArray
 from .interpreter import forward_laplacian
 
 __all__ = [
@@ -35,6 +35,10 @@ class ForwardLaplacianOperator(LaplacianOperator):
         @jax.jit
         def lap(x: Array):
             result = fwd_lapl(x)
+            if not isinstance(result, FwdLaplArray):
+                # f does not depend on x.
+                jacobian = jnp.zeros((x.size, *result.shape), result.dtype)
+                return jnp.zeros_like(result), jacobian
             jacobian = result.jacobian.dense_array
             # Sparse Jacobians end at the last input the output depends on.
             missing = x.size - jacobian.shape[JAC_DIM]
-- 
2.43.0


From 324d5b6024148b5c93e44498cf112bbfc67d31ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 17/48] fix: return the Laplacian rather than its summands from
 the loop and parallel operators

---
 folx/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/folx/operators.py b/folx/operators.py
index ede5a49..55566c4 100644
--- a/folx/operators.py
+++ b/folx/operators.py
@@ -67,7 +67,7 @@ class LoopLaplacianOperator(LaplacianOperator):
             _, laplacian = jax.lax.scan(
                 lambda i, _: (i + 1, dgrad_f(eye[i])[i]), 0, None, length=n
             )
-            return laplacian, jacobian
+            return jnp.sum(laplacian), jacobian
 
         return laplacian
 
@@ -88,7 +88,7 @@ class ParallelLaplacianOperator(LaplacianOperator):
             grad_f = jax.grad(f_)
             jacobian, dgrad_f = jax.linearize(grad_f, x)
 
-            laplacian = jnp.diagonal(jax.vmap(dgrad_f)(eye))
+            laplacian = jnp.trace(jax.vmap(dgrad_f)(eye))
             return laplacian, jacobian
 
         return laplacian
-- 
2.43.0


From 80eea958def1e900d4aa26d1a1d72fab08219d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 18/48] fix: propagate scalars and several sparse arguments
 through functions with several outputs

---
 folx/jvp.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 834be85..3798146 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -21,7 +21,7 @@ from .api import (
     MergeFn,
     PyTree,
 )
-from .tree_utils import tree_concat, tree_expand, tree_take
+from .tree_utils import tree_add, tree_concat, tree_expand, tree_take
 from .utils import (
     broadcast_dim,
     broadcast_except,
@@ -243,16 +243,19 @@ def sparse_diag_jvp(
         # Aggergate the corresponding jacobian results. Unfortunately,
         # segment_sum can only be applied over the leading axis. So, we have to
         # do some rearranging here.
-        grad_y = jax.ops.segment_sum(
-            grad_y, inv, num_segments=result_mask.shape[JAC_DIM]
+        grad_y = jtu.tree_map(
+            lambda g: jax.ops.segment_sum(
+                g, inv, num_segments=result_mask.shape[JAC_DIM]
+            ),
+            grad_y,
         )
 
     # We need to broadcast the output mask to the shape of the gradient in case the operation
     # included some broadcasting, e.g., (10, 1) * (5,) -> (10, 5)
-    result_mask = broadcast_mask_to_jacobian(result_mask, grad_y)
-    assert grad_y.shape == result_mask.shape, f'{grad_y.shape} != {result_mask.shape}'
-
-    grad_y = jtu.tree_map(FwdJacobian, grad_y, result_mask)
+    # fwd may return several outputs, they all share the same mask.
+    grad_y = jtu.tree_map(
+        lambda g: FwdJacobian(g, broadcast_mask_to_jacobian(result_mask, g)), grad_y
+    )
     return y, grad_y, lapl_y
 
 
@@ -572,8 +575,14 @@ def get_jvp_function(
             if y is None:
                 y, grad, lapl = y_, grad_, lapl_
             else:
-                grad += grad_  # type: ignore
-                lapl += lapl_
+                # fwd may return several outputs.
+                grad = jtu.tree_map(
+                    lambda a, b: a + b,
+                    grad,
+                    grad_,
+                    is_leaf=lambda g: isinstance(g, FwdJacobian),
+                )
+                lapl = tree_add(lapl, lapl_)
         return y, grad, lapl  # type: ignore
 
     def jvp(args: FwdLaplArgs, kwargs) -> tuple[Array, FwdJacobian, Array]:
-- 
2.43.0


From 3be172cbd7cb5769b8387d4b5a97bb3f8bf4cd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 19/48] fix: contract dot products along the right axes for
 differently shaped operands

---
 folx/wrapped_functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index be3d12c..f7db81d 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -147,14 +147,17 @@ def dot_general(
             and rh_brdcast_dims == tuple(range(len(rh_brdcast_dims)))
             and lh_batch_dims == tuple(sorted(lh_batch_dims))
             and rh_batch_dims == tuple(sorted(rh_batch_dims))
+            and (lh_brdcast_dims == () or rh_brdcast_dims == ())
+            and (lh_batch_dims == () or lh_brdcast_dims == rh_brdcast_dims == ())
         ):
             # The checks above do the following:
             # * check that batch dims are identical in both
             # * check that contract dim are identical in both
             # * check that all brdcast dims are at the beginning
             # * check that no transpositions are needed
+            # * check that the output dims are in the order batch, lhs, rhs
             # Special case where we can skip the transpositions
-            return fwd_lapl_mul_sum(lhs, rhs, lh_contract)  # type: ignore
+            return fwd_lapl_mul_sum(lhs, rhs, neg_lh_contract)  # type: ignore
         return fwd_lapl_mul_sum(left_inp, right_inp, -1)
 
     # ====================================================================================
-- 
2.43.0


From 044207b9e222a53cfc6ae4d078a4e4fa710722f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 20/48] fix: fill static operands of index operations with the
 dtype of the sparsity pattern

---
 folx/jvp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 3798146..fe5e379 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -282,7 +282,7 @@ def sparse_index_jvp(
         # https://github.com/google/jax/pull/3370
         with jax.ensure_compile_time_eval():
             extra_filled = jtu.tree_map(
-                lambda x: jnp.full(x.shape, -1, dtype=jnp.int32), extra_args
+                lambda x: jnp.full(x.shape, -1, dtype=int), extra_args
             )
 
             def _merged_fwd(*args):
-- 
2.43.0


From c0300ea98fba02bcb4e21b7cd5e58ef903f1cc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 21/48] fix: compute Hessian traces of products with axes of
 size one

---
 folx/api.py     |  2 +-
 folx/hessian.py | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/folx/api.py b/folx/api.py
index 229c243..de5f0ea 100644
--- a/folx/api.py
+++ b/folx/api.py
@@ -129,7 +129,7 @@ class FwdJacobian(NamedTuple):
             indices = jnp.where(jnp.any(matching, axis=-1), indices, -1)
             return indices
 
-        if isinstance(outputs, np.ndarray):
+        if isinstance(outputs, np.ndarray) and isinstance(mask, np.ndarray):
             with jax.ensure_compile_time_eval():
                 result = np.asarray(get_indices(flat_mask, flat_outputs), dtype=int).T
         else:
diff --git a/folx/hessian.py b/folx/hessian.py
index 02cbd45..ec6d894 100644
--- a/folx/hessian.py
+++ b/folx/hessian.py
@@ -259,14 +259,17 @@ def remove_zero_entries(
     if dense_out:
         return lapl_args, out_idx, None
 
-    mask = (out_idx != -1).any(0)
+    # find_out_idx drops axes of size one, restore them to match the arguments.
+    out_shape = np.broadcast_shapes(*[x.shape[:-1] for x in lapl_args.x])
+    full_out_idx = out_idx.reshape(-1, *out_shape)
+    mask = (full_out_idx != -1).any(0)
     if mask.sum() > 0.5 * mask.size:
         # this is a heuristic to avoid having unnecessary indexing overhead for
         # insufficiently sparse masks.
         return lapl_args, out_idx, None
 
     indices = np.where(mask)
-    new_mat_idx = out_idx[(slice(None), *indices)]
+    new_mat_idx = full_out_idx[(slice(None), *indices)]
     new_arrs = []
     for arg in lapl_args.arrays:
         brdcast_dims = np.where(np.array(arg.x.shape) == 1)[0]
@@ -355,7 +358,8 @@ def vmapped_jac_hessian_jac(
         out_idx, compressed_axes = compact_repeated_dims_except(out_idx, JAC_DIM)
         out_idx_seq: list[int | None] = [1] * len(vmap_seq)
         for c in compressed_axes[::-1]:
-            out_idx_seq[c - 1] = None
+            if c <= len(out_idx_seq):  # axes of size one are not vmapped
+                out_idx_seq[c - 1] = None
             out_idx = jnp.take(out_idx, 0, axis=c)
     else:
         out_idx_seq = [None] * len(vmap_seq)
-- 
2.43.0


From 9a81d31e1296ee1e0c4b99a841cee0881435f631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 22/48] fix: scan over numpy constants

---
 folx/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 63a212c..ada5d6a 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -94,7 +94,7 @@ def eval_jaxpr_with_forward_laplacian(
         )
         carry_merge = extract_jacobian_mask(in_carry)
         assert all(
-            isinstance(x, Array) for x in in_inp
+            not isinstance(x, FwdLaplArray) for x in in_inp
         ), 'Scan does not support scanning over input depenedent tensors.\nPlease unroll the loop.'
 
         def wrapped(carry, x):
-- 
2.43.0


From 1e1d8415f8cf9dccc1702390240370e0fee5eaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 23/48] fix: reduce arrays no entry of which depends on the
 inputs

---
 folx/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/utils.py b/folx/utils.py
index 13b0bc3..4af3d5a 100644
--- a/folx/utils.py
+++ b/folx/utils.py
@@ -486,7 +486,8 @@ def get_jacobian_for_reduction(jacs: Sequence[FwdJacobian], axes):
     mask = np.concatenate(masks, axis=-1)
     out_mask_list = [np.unique(m) for m in mask]
     out_mask_list = [m[m != -1] for m in out_mask_list]
-    max_unique = max([m.size for m in out_mask_list])
+    # We need at least one entry even if nothing depends on the inputs.
+    max_unique = max([m.size for m in out_mask_list] + [1])
 
     # Here we extend each mask to the same size by appending -1.
     out_mask = np.stack(
-- 
2.43.0


From 8c59f49ad207612b7ef8dac0167de4081c89296f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 24/48] fix: compute Hessian traces when other operands
 broadcast or have axes of size one

---
 folx/hessian.py | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/folx/hessian.py b/folx/hessian.py
index ec6d894..483543d 100644
--- a/folx/hessian.py
+++ b/folx/hessian.py
@@ -251,6 +251,17 @@ def find_out_idx(lapl_args: FwdLaplArgs, in_axes, flags: FunctionFlags, threshol
     return idx, False
 
 
+def vmapped_shape(arrs: Sequence[Array], in_axes: Axes) -> tuple[int, ...]:
+    """
+    The shape the given arrays broadcast to without the given axes.
+    """
+    shapes = [
+        np.delete(np.array(np.shape(a), dtype=int), np.array(ax, dtype=int))
+        for a, ax in zip(arrs, in_axes)
+    ]
+    return np.broadcast_shapes(*map(tuple, shapes))
+
+
 def remove_zero_entries(
     lapl_args: FwdLaplArgs,
     out_idx: np.ndarray,
@@ -259,17 +270,14 @@ def remove_zero_entries(
     if dense_out:
         return lapl_args, out_idx, None
 
-    # find_out_idx drops axes of size one, restore them to match the arguments.
-    out_shape = np.broadcast_shapes(*[x.shape[:-1] for x in lapl_args.x])
-    full_out_idx = out_idx.reshape(-1, *out_shape)
-    mask = (full_out_idx != -1).any(0)
+    mask = (out_idx != -1).any(0)
     if mask.sum() > 0.5 * mask.size:
         # this is a heuristic to avoid having unnecessary indexing overhead for
         # insufficiently sparse masks.
         return lapl_args, out_idx, None
 
     indices = np.where(mask)
-    new_mat_idx = full_out_idx[(slice(None), *indices)]
+    new_mat_idx = out_idx[(slice(None), *indices)]
     new_arrs = []
     for arg in lapl_args.arrays:
         brdcast_dims = np.where(np.array(arg.x.shape) == 1)[0]
@@ -319,6 +327,14 @@ def vmapped_jac_hessian_jac(
     if out_idx is not None and out_idx.shape[JAC_DIM] == 0:
         return jnp.zeros(())
 
+    # find_out_idx drops axes of size one and does not know about the extra arguments
+    if out_idx is not None:
+        shape = vmapped_shape(lapl_args.x, in_axes)
+        extra_ndim = len(vmapped_shape(extra_args, extra_in_axes))
+        out_idx = out_idx.reshape(
+            out_idx.shape[JAC_DIM], *[1] * (extra_ndim - len(shape)), *shape
+        )
+
     # If we do a dot product (not a hadamard product) we can check for empty hessian entries
     if FunctionFlags.DOT_PRODUCT in flags and all(len(a) == 1 for a in in_axes):
         lapl_args, out_idx, mask = remove_zero_entries(lapl_args, out_idx, dense_out)
@@ -327,7 +343,7 @@ def vmapped_jac_hessian_jac(
         mask = None
 
     # Broadcast and flatten all arguments
-    vmap_seq, (lapl_args, extra_args) = vmap_sequences_and_squeeze(
+    vmap_seq, (sq_lapl_args, sq_extra_args) = vmap_sequences_and_squeeze(
         (lapl_args, extra_args),
         (add_vmap_jacobian_dim(lapl_args, FwdLaplArgs(in_axes)), extra_in_axes),
     )
@@ -356,11 +372,15 @@ def vmapped_jac_hessian_jac(
     if out_idx is not None:
         # By compressing out_idx we can reduce the number of non-coalesced memory accesses.
         out_idx, compressed_axes = compact_repeated_dims_except(out_idx, JAC_DIM)
-        out_idx_seq: list[int | None] = [1] * len(vmap_seq)
+        out_idx_seq: list[int | None] = [1] * (out_idx.ndim - 1)
         for c in compressed_axes[::-1]:
-            if c <= len(out_idx_seq):  # axes of size one are not vmapped
-                out_idx_seq[c - 1] = None
+            out_idx_seq[c - 1] = None
             out_idx = jnp.take(out_idx, 0, axis=c)
+        # Like in vmap_seq we drop axes of size one.
+        shape = vmapped_shape(
+            (*lapl_args.x, *extra_args), (*in_axes, *extra_in_axes)
+        )
+        out_idx_seq = [s for s, size in zip(out_idx_seq, shape) if size != 1]
     else:
         out_idx_seq = [None] * len(vmap_seq)
 
@@ -369,7 +389,7 @@ def vmapped_jac_hessian_jac(
         hess_transform = jax.vmap(hess_transform, in_axes=(*axes, oia))
 
     # flatten to 1D and then unravel to the original structure
-    result = hess_transform(lapl_args, extra_args, out_idx)
+    result = hess_transform(sq_lapl_args, sq_extra_args, out_idx)
     if mask is not None:
         result = jnp.zeros_like(out).at[mask].set(result)  # type: ignore
     return unravel(jfu.ravel_pytree(result)[0])
-- 
2.43.0


From 549320f1c4ab906f66192886e28df9071a54b91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 25/48] fix: materialize empty sparse Jacobians

---
 folx/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/api.py b/folx/api.py
index de5f0ea..3ce0805 100644
--- a/folx/api.py
+++ b/folx/api.py
@@ -170,7 +170,7 @@ class FwdJacobian(NamedTuple):
     @property
     def max_n(self) -> int:
         if self.x0_idx is not None:
-            return int(np.max(self.x0_idx))
+            return int(np.max(self.x0_idx, initial=-1))
         return self.data.shape[JAC_DIM]
 
     @property
-- 
2.43.0


From 12f04ede43c2cffdbfdc2d341ffe06812ee6a514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:19 +0000
Subject: [PATCH 26/48] fix: propagate dense arrays through elementwise
 functions with several outputs

---
 folx/jvp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index fe5e379..d907ce9 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -469,7 +469,7 @@ def dense_elementwise_jvp(
     fwd: ForwardFn, laplace_args: FwdLaplArgs
 ) -> tuple[Array, FwdJacobian, Array]:
     y: Array = fwd(laplace_args.x[0])  # type: ignore
-    if y.shape != laplace_args.x[0].shape:
+    if not isinstance(y, Array) or y.shape != laplace_args.x[0].shape:
         return dense_split_jvp(fwd, laplace_args)
 
     jac = vjp(fwd, laplace_args.x[0])(jnp.ones_like(y))[0]
-- 
2.43.0


From dd0ca8f629e411d245a7903dc8898a08ccac654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:19 +0000
Subject: [PATCH 27/48] fix: pass the arguments of named functions as a tuple

---
 folx/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index ada5d6a..e5a0acd 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -159,7 +159,7 @@ def eval_jaxpr_with_forward_laplacian(
         name = eqn.params['name']
         if fn := get_laplacian(name):
             # TODO: this is a bit incomplete, e.g., kwargs?
-            outvals = fn(invals, {}, sparsity_threshold=sparsity_threshold)
+            outvals = fn(tuple(invals), {}, sparsity_threshold=sparsity_threshold)
             if isinstance(outvals, (FwdLaplArray, Array)):
                 outvals = [outvals]  # TODO: Figure out how to properly handle outvals
             return outvals
-- 
2.43.0


From 849ba00c83058e9b4f4948de86548271c5f003e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:47 +0000
Subject: [PATCH 28/48] fix: estimate the memory of functions with keyword
 arguments

---
 folx/experimental/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 0f00a3b..8418256 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -209,7 +209,7 @@ def compute_memory(
     # Here we abuse the eval_shape function to avoid actually computing something.
     # Instead the function prints to correct usage
     with Capturing() as output:
-        jax.eval_shape(fn, *jtu.tree_leaves(args))
+        jax.eval_shape(fn, *jtu.tree_leaves((args, kwargs)))
 
     # Print everything except the last line
     if len(output) > 1:
-- 
2.43.0


From 99030e60886be0d8a4ffe56e4611030faa9c3dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:47 +0000
Subject: [PATCH 29/48] fix: estimate the memory of scans without scanned
 inputs

---
 folx/experimental/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 8418256..827169d 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -119,7 +119,7 @@ def _compute_jaxpr_memory(
             )
             # populate the results by the loop size
             ans[n_carry:] = jtu.tree_map(
-                lambda x: jnp.repeat(x[None], in_inp[0].shape[0], axis=0),
+                lambda x: jnp.repeat(x[None], eqn.params['length'], axis=0),
                 ans[n_carry:],
             )
             all_tensors += sub_tensors
-- 
2.43.0


From f7c8ca01b0674a8f8c7931d4b3808e7ea392041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:11 +0000
Subject: [PATCH 30/48] fix: estimate the memory of functions that use random
 keys

---
 folx/experimental/memory.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 827169d..e5abc0b 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -14,11 +14,7 @@ from jax.util import safe_map
 
 
 def _bytes_from_dtype(dtype):
-    import re
-
-    if str(dtype) == 'bool':
-        return 1
-    return int(re.findall(r'\d+', str(dtype))[0]) // 8
+    return dtype.itemsize
 
 
 class MemoryExprEnvironment:
-- 
2.43.0


From 3bfe6b976b68993c36b55e6cfc8c0935826c99ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:11 +0000
Subject: [PATCH 31/48] fix: free operands that occur several times in an
 operation once in memory estimates

---
 folx/experimental/memory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index e5abc0b..8c5afd3 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -74,7 +74,10 @@ class MemoryExprEnvironment:
             self.memory -= v.size * _bytes_from_dtype(v.dtype)
 
     def free_memory(self, vars: Sequence[core.Atom], vals: Sequence[Array]):
-        safe_map(self._free_memory, vars, vals)
+        # An operand may occur several times in one equation but is freed only once.
+        operands = {id(var): (var, val) for var, val in zip(vars, vals)}
+        for var, val in operands.values():
+            self._free_memory(var, val)
 
 
 def _compute_jaxpr_memory(
-- 
2.43.0


From bfc2ec40dab5ff2a68bdc54ed630f6bf9419659e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:33 +0000
Subject: [PATCH 32/48] fix: estimate memory without capturing the standard
 output

---
 folx/experimental/memory.py | 50 +++++++++++++------------------------
 1 file changed, 17 insertions(+), 33 deletions(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 8c5afd3..f98e7ac 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -1,7 +1,4 @@
-import functools
-import sys
 from collections import defaultdict
-from io import StringIO
 from typing import Sequence
 
 import jax
@@ -155,20 +152,7 @@ def _compute_jaxpr_memory(
 
     if return_result:
         return env.read_many(jaxpr.outvars), peak_memory, all_tensors
-    print(peak_memory)
-    return None
-
-
-class Capturing(list):  # Utility that captured the stdout of a function
-    def __enter__(self):
-        self._stdout = sys.stdout
-        sys.stdout = self._stringio = StringIO()
-        return self
-
-    def __exit__(self, *args):
-        self.extend(self._stringio.getvalue().splitlines())
-        del self._stringio  # free up some memory
-        sys.stdout = self._stdout
+    return peak_memory
 
 
 def compute_memory(
@@ -196,23 +180,23 @@ def compute_memory(
     if isinstance(static_argnums, int):
         static_argnums = (static_argnums,)
     closed_jaxpr = jax.make_jaxpr(f, static_argnums=static_argnums)(*args, **kwargs)
+    peak_memory: list[int] = []
+
     # enclose function
-    fn = functools.partial(
-        _compute_jaxpr_memory,
-        closed_jaxpr.jaxpr,
-        closed_jaxpr.literals,
-        print_top_tensors=print_top_tensors,
-    )
+    def fn(*args):
+        peak_memory.append(
+            _compute_jaxpr_memory(
+                closed_jaxpr.jaxpr,
+                closed_jaxpr.literals,
+                *args,
+                print_top_tensors=print_top_tensors,
+            )
+        )
+
     # remove statics
     args = tuple(args[i] for i in range(len(args)) if i not in static_argnums)
     # Here we abuse the eval_shape function to avoid actually computing something.
-    # Instead the function prints to correct usage
-    with Capturing() as output:
-        jax.eval_shape(fn, *jtu.tree_leaves((args, kwargs)))
-
-    # Print everything except the last line
-    if len(output) > 1:
-        print('\n'.join(output[:-1]))
-
-    # Return the last line
-    return int(output[-1])
+    # Instead the function stores the correct usage. Capturing it from the standard
+    # output, which is global, would mix up the estimates of several threads.
+    jax.eval_shape(fn, *jtu.tree_leaves((args, kwargs)))
+    return peak_memory[-1]
-- 
2.43.0


From 112dbf94d2354c5d0b6dd94e9d547757c939d0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:01 +0000
Subject: [PATCH 33/48] fix: contract Jacobians over the inputs in Hessians of
 functions linear in one argument

---
 folx/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/utils.py b/folx/utils.py
index 4af3d5a..f995cd0 100644
--- a/folx/utils.py
+++ b/folx/utils.py
@@ -84,7 +84,7 @@ def jac_jacT(first: FwdJacobian, other: FwdJacobian, idx: Array | np.ndarray | N
     Computes outer product of the given jacobians.
     """
     x, y = get_reduced_jacobians(first, other, idx=idx)
-    return x @ y.T
+    return x.T @ y
 
 
 def flat_wrap(fn: ForwardFn, *x: Array):
-- 
2.43.0


From c2fdec87697c0cd74eba767484516833ec35069e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:01 +0000
Subject: [PATCH 34/48] fix: keep the preferred element type of dot products of
 sparse operands

---
 folx/wrapped_functions.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index f7db81d..d8a8929 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -129,8 +129,16 @@ def dot_general(
         # lazy import to avoid circular imports
         from .interpreter import forward_laplacian
 
+        def mul_sum(x: Array, y: Array) -> Array:
+            if preferred_element_type is None:
+                return (x * y).sum(dims)
+            # Accumulate in the requested type like the dot product does.
+            dtype = jnp.promote_types(x.dtype, preferred_element_type)
+            result = (x.astype(dtype) * y.astype(dtype)).sum(dims)
+            return result.astype(preferred_element_type)
+
         return forward_laplacian(
-            lambda x, y: (x * y).sum(dims),
+            mul_sum,
             disable_jit=True,
             sparsity_threshold=sparsity_threshold,
         )(lhs, rhs)
-- 
2.43.0


From 3246ee20aa12708e8eab42c720fcfc293f3d6731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:01 +0000
Subject: [PATCH 35/48] fix: entries gathered from outside of the operand
 depend on no input

---
 folx/wrapped_functions.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index d8a8929..1283280 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -194,6 +194,26 @@ def dot_general(
     return result
 
 
+def gather(
+    args: tuple[ArrayOrFwdLaplArray, ArrayOrFwdLaplArray],
+    kwargs: dict[str, Any],
+    sparsity_threshold: int = 0,
+) -> ArrayOrFwdLaplArray:
+    dtype = args[0].dtype
+
+    def gather_fn(operand: Array, indices: Array) -> Array:
+        # The sparsity pattern is gathered, too. Entries filled from outside of the
+        # operand do not depend on any input.
+        fill_value = kwargs['fill_value'] if operand.dtype == dtype else -1
+        return jax.lax.gather_p.bind(
+            operand, indices, **{**kwargs, 'fill_value': fill_value}
+        )
+
+    return wrap_forward_laplacian(
+        gather_fn, flags=FunctionFlags.INDEXING, name='gather'
+    )(args, {}, sparsity_threshold=sparsity_threshold)
+
+
 def dtype_conversion(
     args: tuple[ArrayOrFwdLaplArray],
     kwargs: dict[str, Any],
@@ -392,9 +412,7 @@ _LAPLACE_FN_REGISTRY: dict[Primitive | str, ForwardLaplacian] = {
     jax.lax.select_n_p: wrap_forward_laplacian(
         jax.lax.select_n, flags=FunctionFlags.INDEXING, index_static_args=(0,)
     ),
-    jax.lax.gather_p: wrap_forward_laplacian(
-        jax.lax.gather_p.bind, flags=FunctionFlags.INDEXING, name='gather'
-    ),
+    jax.lax.gather_p: gather,
     jax.lax.transpose_p: wrap_forward_laplacian(
         jax.lax.transpose, flags=FunctionFlags.INDEXING
     ),
-- 
2.43.0


From 866845f78f674d4a548d9c4bb44f75ec99138bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:16 +0000
Subject: [PATCH 36/48] fix: Hessians of functions of complex numbers that are
 not holomorphic

---
 folx/hessian.py | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/folx/hessian.py b/folx/hessian.py
index 483543d..6169429 100644
--- a/folx/hessian.py
+++ b/folx/hessian.py
@@ -9,7 +9,7 @@ import jax.tree_util as jtu
 import jaxlib.xla_extension
 import numpy as np
 
-from .ad import hessian, jacrev
+from .ad import hessian
 from .api import (
     JAC_DIM,
     Array,
@@ -59,17 +59,6 @@ def JHJ_via_trace(flat_fn: Callable, flat_x: Array, grad_2d: Array):
     return jnp.trace(vhvp(grad_2d), axis1=-2, axis2=-1)
 
 
-def JHJ_via_hvp(flat_fn: Callable, flat_x: Array, grad_2d: Array):
-    # Implementation where we compute HJ and then the trace via
-    # the sum of hadamard product
-    @functools.partial(jax.vmap, in_axes=-1, out_axes=-1)
-    def hvp(tangent):
-        return jax.jvp(jacrev(flat_fn), (flat_x,), (tangent,))[1]
-
-    HJ = hvp(grad_2d)  # N x D x K
-    return trace_of_product(HJ, grad_2d)
-
-
 def general_jac_hessian_jac(
     fn: ForwardFn, args: FwdLaplArgs, materialize_idx: Array | None
 ):
@@ -77,7 +66,7 @@ def general_jac_hessian_jac(
     # Hessian, since we can then use einsum to compute the trace.
     flat_fn = flat_wrap(fn, *args.x)
     flat_x = jfu.ravel_pytree(args.x)[0]
-    out, unravel = jfu.ravel_pytree(fn(*args.x))
+    _, unravel = jfu.ravel_pytree(fn(*args.x))
     # We have to decide on an order in which we execute tr(HJJ^T).
     # H will be of shape NxDxD, J is DxK where N could potentially be D.
     # We will do the following:
@@ -89,15 +78,19 @@ def general_jac_hessian_jac(
     grads_2d = get_reduced_jacobians(*args.jacobian, idx=materialize_idx)
     grad_2d = jnp.concatenate([x.T for x in grads_2d], axis=0)
     jac_dim, inp_dim = grad_2d.shape
-    is_complex_to_real = jnp.iscomplexobj(flat_x) and not jnp.iscomplexobj(out)
 
     if inp_dim > jac_dim:
-        if is_complex_to_real:
-            # Materializing the Hessian for a complex to real function is not supported.
-            # We avoid this by only performing HvJ products.
-            flat_out = JHJ_via_hvp(flat_fn, flat_x, grad_2d).real
-        else:
-            flat_out = JHJ_via_hessian(flat_fn, flat_x, grad_2d)
+        if jnp.iscomplexobj(flat_x):
+            # Functions of complex numbers are in general not holomorphic, i.e., they do
+            # not have a complex Hessian. So, we treat them as functions of real numbers.
+            complex_fn = flat_fn
+
+            def flat_fn(x: Array) -> Array:
+                return complex_fn(jax.lax.complex(*jnp.split(x, 2)))
+
+            flat_x = jnp.concatenate([flat_x.real, flat_x.imag])
+            grad_2d = jnp.concatenate([grad_2d.real, grad_2d.imag])
+        flat_out = JHJ_via_hessian(flat_fn, flat_x, grad_2d)
     else:
         # Here we contract the Jacobian dimensions directly without computing the full Hessian.
         # This might be more efficient if the Jacobian is large and the Hessian is small.
-- 
2.43.0


From d97abbe1e916288de59a365342f521b18084a980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:44 +0000
Subject: [PATCH 37/48] fix: linear solves with sparse operands

---
 folx/wrapped_functions.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index 1283280..6987263 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -214,6 +214,19 @@ def gather(
     )(args, {}, sparsity_threshold=sparsity_threshold)
 
 
+def linear_solve(
+    args: tuple[ArrayOrFwdLaplArray, ...],
+    kwargs: dict[str, Any],
+    sparsity_threshold: int = 0,
+) -> PyTree[ArrayOrFwdLaplArray]:
+    # JAX cannot differentiate linear solves by the factorization alone, so, we must not
+    # go through the arguments one by one.
+    args = tuple(a.dense if isinstance(a, FwdLaplArray) else a for a in args)
+    return wrap_forward_laplacian(
+        jax.lax.linear_solve_p.bind, name='custom_linear_solve'
+    )(args, kwargs, sparsity_threshold)
+
+
 def dtype_conversion(
     args: tuple[ArrayOrFwdLaplArray],
     kwargs: dict[str, Any],
@@ -463,6 +476,7 @@ _LAPLACE_FN_REGISTRY: dict[Primitive | str, ForwardLaplacian] = {
     jax.lax.argmin_p: warp_without_fwd_laplacian(jax.lax.argmin_p.bind),
     jax.lax.is_finite_p: warp_without_fwd_laplacian(jax.lax.is_finite),
     jax.lax.convert_element_type_p: dtype_conversion,
+    jax.lax.linear_solve_p: linear_solve,
     'sign': warp_without_fwd_laplacian(jax.lax.sign),
     'logaddexp': wrap_forward_laplacian(jnp.logaddexp, in_axes=()),
     'sigmoid': wrap_forward_laplacian(jax.nn.sigmoid, in_axes=()),
-- 
2.43.0


From 91dfd0fd32350fd3a8d47504ae25e77e2aa087dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:52 +0000
Subject: [PATCH 38/48] fix: scatter rule with overlapping updates named wrong
 inputs

With the SCATTER flag the index of an input was multiplied by the number of
updates of one entry that depend on it. Traced indices, clipped indices and
indices of more than one axis now take the dense path instead of an error or
a pattern of the wrong entries.
---
 folx/jvp.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index d907ce9..b2be443 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -349,7 +349,8 @@ def sparse_scatter_jvp(
 ) -> tuple[Array, FwdJacobian, Array]:
     updates: FwdLaplArray
     operand, scatter_indices, updates = merge(laplace_args.arrays, extra_args)  # type: ignore
-    if isinstance(scatter_indices, FwdLaplArray):
+    if isinstance(scatter_indices, (FwdLaplArray, jax.core.Tracer)):
+        # the sparsity pattern must not depend on data.
         return dense_jvp(fwd, laplace_args, flags=flags, in_axes=in_axes)
     if (
         not isinstance(updates, FwdLaplArray)
@@ -372,6 +373,8 @@ def sparse_scatter_jvp(
         dimension_numbers.inserted_window_dims != (0,)
         or dimension_numbers.scatter_dims_to_operand_dims != (0,)
         or dimension_numbers.update_window_dims != ()
+        or scatter_indices.ndim != 2
+        or kwargs.get('mode') == jax.lax.GatherScatterMode.CLIP
     ):
         logging.info(
             'Scatter: dimension numbers not supported. At the moment only segment sums are supported.'
@@ -389,9 +392,7 @@ def sparse_scatter_jvp(
             )
         )
         max_out = np.sum(out_mask.astype(bool), axis=-1).max()
-        out_mask = np.where(
-            out_mask > 0, out_mask * jnp.arange(n), np.iinfo(np.int32).max
-        )
+        out_mask = np.where(out_mask > 0, np.arange(n), np.iinfo(np.int32).max)
         unique_fn = jax.vmap(functools.partial(jnp.unique, size=max_out, fill_value=-1))
         out_mask = unique_fn(out_mask.reshape(-1, n)).T.reshape(
             max_out, *out_mask.shape[:-1]
-- 
2.43.0


From 88aa49195b1ec4b78b10cc871e8810007c5ae651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:27 +0000
Subject: [PATCH 39/48] fix: sparse summation over negative axes

Rules with the SUMMATION flag and negative axes raised in sparse mode.
---
 folx/jvp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/folx/jvp.py b/folx/jvp.py
index b2be443..cc33f72 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -49,6 +49,7 @@ def sparse_sum_jvp(
         axes = kwargs.get('axes')
     if axes is None:
         axes = tuple(range(x.ndim))
+    axes = tuple(i % x.ndim for i in axes)
 
     # these are fairly easy to compute
     y = x.sum(axes)
-- 
2.43.0


From 8d380f27a2d76b8593ad17914048c8cca706c6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:03 +0000
Subject: [PATCH 40/48] fix: operations on arrays without entries

Such operands raised, e.g. in products of matrices with an empty inner axis.
---
 folx/wrapper.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/folx/wrapper.py b/folx/wrapper.py
index 0bf9490..689e831 100644
--- a/folx/wrapper.py
+++ b/folx/wrapper.py
@@ -95,6 +95,12 @@ def wrap_forward_laplacian(
         kwargs: dict[str, Any],
         sparsity_threshold: int,
     ) -> PyTree[ArrayOrFwdLaplArray]:
+        # Arrays without entries do not depend on the inputs.
+        args = jax.tree_util.tree_map(
+            lambda a: a.x if IS_LPL_ARR(a) and a.x.size == 0 else a,
+            args,
+            is_leaf=IS_LPL_ARR,
+        )
         # split arguments into ForwardLaplacianArrays and other arrays
         lapl_args, lapl_axes, extra, extra_axes, merge = split_args(args, in_axes)
 
@@ -120,9 +126,10 @@ def wrap_forward_laplacian(
         # Actually update Laplacian state
         laplace_args = FwdLaplArgs(lapl_args)
         y, grad_y, lapl_y = lapl_fns.jvp(laplace_args, kwargs)
-        lapl_y = tree_add(
-            lapl_y, lapl_fns.jac_hessian_jac_trace(laplace_args, sparsity_threshold)
-        )
+        if any(y_.size > 0 for y_ in jax.tree_util.tree_leaves(y)):
+            lapl_y = tree_add(
+                lapl_y, lapl_fns.jac_hessian_jac_trace(laplace_args, sparsity_threshold)
+            )
         # TODO: The type casting is a temporary fix. For functions mapping from complex
         # to reals, this might be wrong. It is guaranteed to be correct if complex numbers
         # only occur in intermediate steps.
-- 
2.43.0


From f1dccbdfefe3cc52cffc3bb1f25f6986ddf1f779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:14 +0000
Subject: [PATCH 41/48] fix: memory estimates of scans that stack literal
 carries

---
 folx/experimental/memory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index f98e7ac..a74b8cf 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -115,7 +115,9 @@ def _compute_jaxpr_memory(
             )
             # populate the results by the loop size
             ans[n_carry:] = jtu.tree_map(
-                lambda x: jnp.repeat(x[None], eqn.params['length'], axis=0),
+                lambda x: jnp.repeat(
+                    jnp.asarray(x)[None], eqn.params['length'], axis=0
+                ),
                 ans[n_carry:],
             )
             all_tensors += sub_tensors
-- 
2.43.0


From 13200380257b34338457e176d7641eb89bee2880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:39 +0000
Subject: [PATCH 42/48] fix: arrays without entries are constants everywhere,
 also in loops

---
 folx/interpreter.py | 3 +++
 folx/wrapper.py     | 6 ------
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index e5a0acd..8be526b 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -69,6 +69,9 @@ class JaxExprEnvironment:
         return result
 
     def write(self, var: core.Var, val: ArrayOrFwdLaplArray):
+        if isinstance(val, FwdLaplArray) and val.x.size == 0:
+            # Arrays without entries do not depend on the inputs.
+            val = val.x
         if self.reference_counter[var] > 0:
             self.env[var] = val
 
diff --git a/folx/wrapper.py b/folx/wrapper.py
index 689e831..5fa5345 100644
--- a/folx/wrapper.py
+++ b/folx/wrapper.py
@@ -95,12 +95,6 @@ def wrap_forward_laplacian(
         kwargs: dict[str, Any],
         sparsity_threshold: int,
     ) -> PyTree[ArrayOrFwdLaplArray]:
-        # Arrays without entries do not depend on the inputs.
-        args = jax.tree_util.tree_map(
-            lambda a: a.x if IS_LPL_ARR(a) and a.x.size == 0 else a,
-            args,
-            is_leaf=IS_LPL_ARR,
-        )
         # split arguments into ForwardLaplacianArrays and other arrays
         lapl_args, lapl_axes, extra, extra_axes, merge = split_args(args, in_axes)
 
-- 
2.43.0


From 05ba4cc2a5a061875b21ac8face9d8beff03ba8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:46 +0000
Subject: [PATCH 43/48] fix: Python scalars promoted the types of functions
 with own rules

---
 folx/interpreter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 8be526b..08092bf 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -60,6 +60,12 @@ class JaxExprEnvironment:
     def read(self, var: core.Atom) -> ArrayOrFwdLaplArray:
         if isinstance(var, core.Literal):
             # Python scalars have neither a shape nor the dtype of the literal.
+            if var.aval.weak_type:  # type: ignore
+                # They do not take part in type promotion, arrays of NumPy would.
+                with jax.ensure_compile_time_eval():
+                    val = jnp.asarray(var.val)
+                if val.dtype == var.aval.dtype:  # type: ignore
+                    return val
             return np.asarray(var.val, dtype=var.aval.dtype)  # type: ignore
         self.reference_counter[var] -= 1
         result = self.env[var]
-- 
2.43.0


From 2b93a31d7e7d1ab894899ea9cc064a4cd97387c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:52:31 +0000
Subject: [PATCH 44/48] fix: batched_vmap with a first argument that holds no
 arrays

---
 folx/vmap.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/folx/vmap.py b/folx/vmap.py
index 74a45a3..48e6ac2 100644
--- a/folx/vmap.py
+++ b/folx/vmap.py
@@ -36,7 +36,12 @@ def batched_vmap(
             y_iter = iter(static_args)
             return tuple(next(x_iter) if m else next(y_iter) for m in mask)
 
-        batch_size = jtu.tree_leaves(mapped_args[0])[0].shape[mapped_axes[0]]
+        # Arguments may hold no arrays at all.
+        batch_size = next(
+            x.shape[ax]
+            for arg, ax in zip(mapped_args, mapped_axes)
+            for x in jtu.tree_leaves(arg)
+        )
         assert (
             batch_size == x.shape[ax]
             for arg, ax in zip(mapped_args, mapped_axes)
-- 
2.43.0


From 03d032a91bdd6647e49de3f64f4d5399edfca984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:52:31 +0000
Subject: [PATCH 45/48] fix: batched_vmap of functions with empty results

---
 folx/vmap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/folx/vmap.py b/folx/vmap.py
index 48e6ac2..7819dd0 100644
--- a/folx/vmap.py
+++ b/folx/vmap.py
@@ -70,7 +70,9 @@ def batched_vmap(
             return carry, vmapped_fn(x)
 
         result = jax.lax.scan(inner, None, loop_args, length=num_batches)[1]
-        result = jtu.tree_map(lambda x: x.reshape(-1, *x.shape[2:]), result)
+        result = jtu.tree_map(
+            lambda x: x.reshape(num_batches * max_batch_size, *x.shape[2:]), result
+        )
         if remainder > 0:
             remainder_args = jtu.tree_map(lambda x: x[:remainder], leading_args)
             remainder_result = vmapped_fn(remainder_args)
-- 
2.43.0


From f216fcd667b8fc03bae1a8c8e3143d8e4df63048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:53:09 +0000
Subject: [PATCH 46/48] fix: batched_vmap with output axes of None

---
 folx/vmap.py | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/folx/vmap.py b/folx/vmap.py
index 7819dd0..f1c962d 100644
--- a/folx/vmap.py
+++ b/folx/vmap.py
@@ -62,29 +62,41 @@ def batched_vmap(
             leading_args,
         )
 
+        # Results with axis None are the same for the whole batch.
+        out_axes_flat, out_tree = jtu.tree_flatten(out_axes, lambda x: x is None)
         vmapped_fn = jax.vmap(
-            lambda x: wrapped_fn(*in_tree.unflatten(merge(x))), in_axes=0, out_axes=0
+            lambda x: wrapped_fn(*in_tree.unflatten(merge(x))),
+            in_axes=0,
+            out_axes=out_tree.unflatten([a if a is None else 0 for a in out_axes_flat]),
         )
 
         def inner(carry, x):
             return carry, vmapped_fn(x)
 
         result = jax.lax.scan(inner, None, loop_args, length=num_batches)[1]
-        result = jtu.tree_map(
-            lambda x: x.reshape(num_batches * max_batch_size, *x.shape[2:]), result
-        )
+        result = out_tree.flatten_up_to(result)
+        result = [
+            jtu.tree_map(
+                lambda x: x[0]
+                if ax is None
+                else x.reshape(num_batches * max_batch_size, *x.shape[2:]),
+                r,
+            )
+            for r, ax in zip(result, out_axes_flat)
+        ]
         if remainder > 0:
             remainder_args = jtu.tree_map(lambda x: x[:remainder], leading_args)
-            remainder_result = vmapped_fn(remainder_args)
-            result = jtu.tree_map(
-                lambda x, r: jnp.concatenate([r, x], axis=0), result, remainder_result
-            )
-
-        out_axes_flat, out_tree = jtu.tree_flatten(out_axes)
-        result = tuple(
-            jtu.tree_map(lambda x: jnp.moveaxis(x, 0, ax), r)
-            for r, ax in zip(out_tree.flatten_up_to(result), out_axes_flat)
-        )
+            remainder_result = out_tree.flatten_up_to(vmapped_fn(remainder_args))
+            result = [
+                r
+                if ax is None
+                else jtu.tree_map(lambda x, y: jnp.concatenate([y, x], axis=0), r, rem)
+                for r, rem, ax in zip(result, remainder_result, out_axes_flat)
+            ]
+        result = [
+            r if ax is None else jtu.tree_map(lambda x: jnp.moveaxis(x, 0, ax), r)
+            for r, ax in zip(result, out_axes_flat)
+        ]
         return out_tree.unflatten(result)
 
     return result
-- 
2.43.0


From dc8dd31e156c500baa1a1e2b01209cbe1db83adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:56:49 +0000
Subject: [PATCH 47/48] fix: memory estimates of loops that run zero times

---
 folx/experimental/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index a74b8cf..7c4ef84 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -98,7 +98,7 @@ def _compute_jaxpr_memory(
                 sub_expr.jaxpr, sub_expr.literals, *invals, return_result=True
             )
             all_tensors += sub_tensors
-        elif eqn.primitive.name == 'scan':
+        elif eqn.primitive.name == 'scan' and eqn.params['length'] > 0:
             n_carry, n_const = eqn.params['num_carry'], eqn.params['num_consts']
             in_const, in_carry, in_inp = (
                 invals[:n_const],
-- 
2.43.0


From 4e97e5122b628f67642f752ff12d10c895e2c9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:56:49 +0000
Subject: [PATCH 48/48] fix: memory estimates with negative static argument
 numbers

---
 folx/experimental/memory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 7c4ef84..f48706e 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -195,8 +195,9 @@ def compute_memory(
             )
         )
 
-    # remove statics
-    args = tuple(args[i] for i in range(len(args)) if i not in static_argnums)
+    # remove statics, which may be counted from the end
+    statics = {i % len(args) for i in static_argnums}
+    args = tuple(args[i] for i in range(len(args)) if i not in statics)
     # Here we abuse the eval_shape function to avoid actually computing something.
     # Instead the function stores the correct usage. Capturing it from the standard
     # output, which is global, would mix up the estimates of several threads.
-- 
2.43.0

