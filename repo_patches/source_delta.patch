From b4be511370912ed4562e2a94978685f1f0d0d571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 01/21] fix: transpose blocks in
 BlockDiagonalMatrixTemplate.rmatmat and from_inner(None)

---
 singd/structures/blockdiagonal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/singd/structures/blockdiagonal.py b/singd/structures/blockdiagonal.py
index d2f22f0..48c667e 100644
--- a/singd/structures/blockdiagonal.py
+++ b/singd/structures/blockdiagonal.py
@@ -246,7 +246,8 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
         Returns:
             The result of the multiplication with the represented matrix's transpose.
         """
-        return self @ mat
+        # NOTE The blocks are in general not symmetric, e.g. products of symmetric blocks
+        return self.__class__(self._blocks.transpose(1, 2), self._last.T) @ mat
 
     ###############################################################################
     #                        Special operations for IF-KFAC                       #
@@ -273,8 +274,8 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
             `self.T @ X @ X^T @ self`.
         """
         if X is None:
-            out_blocks = einsum("nij,nkj->nik", self._blocks, self._blocks)
-            out_last = self._last @ self._last.T
+            out_blocks = einsum("nji,njk->nik", self._blocks, self._blocks)
+            out_last = self._last.T @ self._last
             return self.__class__(out_blocks, out_last)
         else:
             S = self.rmatmat(X)
-- 
2.43.0


From 062365e37513a3f8b0c6c0edd3dc3ccb096e4a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 02/21] fix: respect padding_mode of convolutions when
 extracting patches

---
 singd/optim/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/singd/optim/utils.py b/singd/optim/utils.py
index 79fa649..c8dda6c 100644
--- a/singd/optim/utils.py
+++ b/singd/optim/utils.py
@@ -162,8 +162,13 @@ def conv2d_process_input(x: Tensor, layer: Conv2d, kfac_approx: str) -> Tensor:
     patch_extractor_fn = (
         _extract_patches if kfac_approx == "expand" else _extract_averaged_patches
     )
+    padding = layer.padding
+    if layer.padding_mode != "zeros":
+        # pad explicitly (like the layer's forward pass) as `unfold` only pads zeros
+        x = F.pad(x, layer._reversed_padding_repeated_twice, mode=layer.padding_mode)
+        padding = 0
     x = patch_extractor_fn(
-        x, layer.kernel_size, layer.stride, layer.padding, layer.dilation, layer.groups
+        x, layer.kernel_size, layer.stride, padding, layer.dilation, layer.groups
     )
 
     if kfac_approx == "expand":
-- 
2.43.0


From 1b5131223fcc40086637c3236822355146df4475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:29 +0000
Subject: [PATCH 03/21] fix: reject negative integer hyper-parameters

---
 singd/optim/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 7cad745..b04d8f8 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -210,7 +210,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             (momentum, "momentum"),
             (weight_decay, "weight_decay"),
         ]:
-            if isinstance(x, float) and x < 0.0:
+            if not isinstance(x, Callable) and x < 0.0:
                 raise ValueError(f"{name} must be positive. Got {x}")
 
         defaults = dict(
-- 
2.43.0


From 73a30a82d5cd703a7024ebca6f5ae42cb4ec2a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:29 +0000
Subject: [PATCH 04/21] fix: do not modify the state dict passed to
 load_state_dict

---
 singd/optim/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index b04d8f8..95d620e 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -1,5 +1,6 @@
 """Implements structured inverse-free KFAC."""
 
+from copy import deepcopy
 from functools import partial
 from math import sqrt
 from typing import Any, Callable, Dict, Iterable, List, Tuple, Type, Union
@@ -885,6 +886,8 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             state_dict: A dictionary containing a valid state obtained from this
                 class's `.state_dict()` method.
         """
+        # NOTE Copy so the supplied state is neither modified now nor by later steps
+        state_dict = deepcopy(state_dict)
         attributes = {name: state_dict.pop(name) for name in self.STATE_ATTRIBUTES}
         super().load_state_dict(state_dict)
 
-- 
2.43.0


From d9cb95f7f4dd3b9af458ef522ea2f4dfe16982a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:29 +0000
Subject: [PATCH 05/21] fix: do not lose the result of all_reduce for
 non-contiguous tensors

---
 singd/structures/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/singd/structures/base.py b/singd/structures/base.py
index e541c57..fb253f8 100644
--- a/singd/structures/base.py
+++ b/singd/structures/base.py
@@ -253,7 +253,9 @@ class StructuredMatrix(ABC):
         """
         handles = []
         for _, tensor in self.named_tensors():
-            tensor = tensor.contiguous()
+            # NOTE The reduction is in-place, so the stored tensor must be contiguous
+            if not tensor.is_contiguous():
+                tensor.data = tensor.contiguous()
             if async_op:
                 handles.append(
                     dist.all_reduce(tensor, op=op, group=group, async_op=True)
-- 
2.43.0


From bd5f1e906ac231152817547564380e417df82b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:21 +0000
Subject: [PATCH 06/21] fix: train layers of which only some parameters are
 trainable

---
 singd/optim/optimizer.py | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 95d620e..1d13323 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -277,9 +277,25 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             The entry of the parameter group that contains the layer's parameters.
         """
         assert isinstance(module, self.SUPPORTED_MODULES)
-        group_idx = self.param_to_group_idx[module.weight.data_ptr()]
+        # NOTE Some of the layer's parameters may not be trained
+        group_idx = next(
+            self.param_to_group_idx[p.data_ptr()]
+            for p in module.parameters()
+            if p.data_ptr() in self.param_to_group_idx
+        )
         return self.param_groups[group_idx][entry]
 
+    def _is_trained(self, param: Parameter) -> bool:
+        """Determine whether a layer's parameter is trained by the optimizer.
+
+        Args:
+            param: A parameter of a supported layer.
+
+        Returns:
+            Whether the parameter was passed to the optimizer and has a gradient.
+        """
+        return param.data_ptr() in self.param_to_group_idx and param.grad is not None
+
     def _check_param_groups(self, model: Module) -> Dict[int, int]:
         """Check parameter groups for conflicts.
 
@@ -680,15 +696,23 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             NotImplementedError: If the layer is not supported.
         """
         # 1) CONCATENATE GRADIENTS OF WEIGHT AND BIAS AND RESHAPE INTO MATRIX
+        # NOTE Parameters that are not trained contribute a zero gradient
+        weight_grad, bias_grad = (
+            None
+            if p is None
+            else (p.grad.data if self._is_trained(p) else zeros_like(p.data))
+            for p in (module.weight, module.bias)
+        )
+
         if isinstance(module, Conv2d):
-            grad_mat = module.weight.grad.data.flatten(start_dim=1)
+            grad_mat = weight_grad.flatten(start_dim=1)
         elif isinstance(module, Linear):
-            grad_mat = module.weight.grad.data
+            grad_mat = weight_grad
         else:
             raise NotImplementedError(f"Can't get matrix gradient of {module}")
 
-        if module.bias is not None:
-            grad_mat = cat([grad_mat, module.bias.grad.data.unsqueeze(1)], dim=1)
+        if bias_grad is not None:
+            grad_mat = cat([grad_mat, bias_grad.unsqueeze(1)], dim=1)
 
         # un-scale gradients
         grad_scale = self._get_grad_scale(self.steps)
@@ -796,6 +820,8 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             lr = self._get_param_group_entry(module, "lr")
 
             for p, p_nat_grad in zip(parameters, natural_gradients):
+                if not self._is_trained(p):
+                    continue
                 p_step = p_nat_grad
 
                 # add weight decay
-- 
2.43.0


From 539dfcae8b159c8f421519cbcf81e1e4f814fa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 07/21] fix: do not un-scale gradients twice after
 GradScaler.unscale_

---
 singd/optim/optimizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 1d13323..9ee360a 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -714,9 +714,11 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         if bias_grad is not None:
             grad_mat = cat([grad_mat, bias_grad.unsqueeze(1)], dim=1)
 
-        # un-scale gradients
+        # un-scale gradients, unless `GradScaler.unscale_` already did (in that case,
+        # the gradient scaler sets the optimizer's `grad_scale` attribute to `None`)
         grad_scale = self._get_grad_scale(self.steps)
-        if grad_scale != 1.0:
+        already_unscaled = getattr(self, "grad_scale", grad_scale) is None
+        if grad_scale != 1.0 and not already_unscaled:
             grad_mat = grad_mat / grad_scale
 
         # 2) COMPUTE THE NATURAL GRADIENT IN CONCATENATED MATRIX FORM
-- 
2.43.0


From a82c103675a4e891e7fbb396872ed98b2cb46643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:37 +0000
Subject: [PATCH 08/21] fix: allow turning on Riemannian momentum during
 training

---
 singd/optim/optimizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 9ee360a..d795b4c 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -538,8 +538,10 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
 
         # 2) APPLY UPDATE
         if alpha1 != 0.0:
-            new_m_C.add_(self.m_Cs[module_name], alpha=alpha1)
-            new_m_K.add_(self.m_Ks[module_name], alpha=alpha1)
+            # NOTE No momenta (i.e. zero) if `alpha1` was zero so far, then changed
+            if module_name in self.m_Ks:
+                new_m_C.add_(self.m_Cs[module_name], alpha=alpha1)
+                new_m_K.add_(self.m_Ks[module_name], alpha=alpha1)
             self.m_Cs[module_name] = new_m_C
             self.m_Ks[module_name] = new_m_K
 
-- 
2.43.0


From cd70b6286b04a43834ca216b346917726d2df80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:16 +0000
Subject: [PATCH 09/21] fix: skip layers without gradients instead of crashing

---
 singd/optim/optimizer.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index d795b4c..8562d88 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -485,6 +485,10 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             return
 
         module_name = self.module_names[module]
+        # layers that did not take part in the backpropagation have no statistics
+        if module_name not in self.H_Ks:
+            return
+
         K, C = self.Ks[module_name], self.Cs[module_name]
         # NOTE: Pop such that they will be freed after
         H_K: StructuredMatrix = self.H_Ks.pop(module_name)
@@ -590,7 +594,8 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             output: The layer's output tensor.
         """
         T = self._get_param_group_entry(module, "T")
-        if is_grad_enabled() and self.steps % T == 0:
+        # NOTE Outputs of frozen layers may not require gradients
+        if is_grad_enabled() and output.requires_grad and self.steps % T == 0:
             tensor_hook = partial(self._accumulate_H_terms, module, inputs)
             output.register_hook(tensor_hook)
 
@@ -811,7 +816,13 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
 
     def _step(self):
         """Compute natural gradients and update parameters."""
-        for module in self.module_names:
+        for module, module_name in self.module_names.items():
+            # skip layers without gradients, like other PyTorch optimizers
+            if not any(self._is_trained(p) for p in module.parameters()):
+                self.H_Ks.pop(module_name, None)
+                self.H_Cs.pop(module_name, None)
+                continue
+
             self._update_preconditioner(module)
             natural_gradients = self._compute_natural_gradient(module)
             parameters = (
-- 
2.43.0


From ce4b86e6194f30abb0874279d7102858e3a9e7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:05 +0000
Subject: [PATCH 10/21] fix: support layers called with keyword arguments

---
 singd/optim/optimizer.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 8562d88..ce23e0f 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -569,11 +569,15 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         self.Cs[module_name].add_(C @ new_m_C, alpha=-beta1_C)
 
     def _register_tensor_hook_on_output_to_accumulate_H_terms(
-        self, module: Module, inputs: Tuple[Tensor], output: Tensor
+        self,
+        module: Module,
+        inputs: Tuple[Tensor, ...],
+        kwargs: Dict[str, Any],
+        output: Tensor,
     ):
         """Register a tensor hook on the module's output that accumulates the H terms.
 
-        This function can be used as a `forward_hook`.
+        This function can be used as a `forward_hook` with `with_kwargs=True`.
 
         Only installs the hook for steps matching the specified update frequency.
 
@@ -590,9 +594,12 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         Args:
             module: Layer onto whose output a tensor hook to compute `H_K` and `H_C`
                 will be installed.
-            inputs: The layer's input tensors.
+            inputs: The layer's input tensors supplied as positional arguments.
+            kwargs: The layer's input tensors supplied as keyword arguments.
             output: The layer's output tensor.
         """
+        # NOTE The layer may have been called with `layer(input=...)`
+        inputs = inputs or (kwargs["input"],)
         T = self._get_param_group_entry(module, "T")
         # NOTE Outputs of frozen layers may not require gradients
         if is_grad_enabled() and output.requires_grad and self.steps % T == 0:
@@ -681,7 +688,8 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         }
         handles = [
             module.register_forward_hook(
-                self._register_tensor_hook_on_output_to_accumulate_H_terms
+                self._register_tensor_hook_on_output_to_accumulate_H_terms,
+                with_kwargs=True,
             )
             for module in module_names
         ]
-- 
2.43.0


From 2ae7565e5b8c78dd8471ec25fc0d1419b5f6212b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 11/21] fix: resolve None in preconditioner_dtype when
 computing the natural gradient

---
 singd/optim/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index ce23e0f..1988523 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -740,7 +740,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         module_name = self.module_names[module]
 
         # load the gradient to the pre-conditioner precision while multiplying
-        dtype_K, dtype_C = self._get_param_group_entry(module, "preconditioner_dtype")
+        (dtype_K, dtype_C), _ = self._get_preconditioner_dtypes_and_device(module)
 
         # We need to compute `W @ K @ K^T` where `W` is the weight gradient
         # `K` supports `K @ ...` and `K^T @ ...`. Hence, we rewrite into
-- 
2.43.0


From 68ab26a49946d50e841b43c4462f0a23c1f04d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:52 +0000
Subject: [PATCH 12/21] fix: warn about un-supported parameters owned by
 containers

---
 singd/optim/optimizer.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 1988523..16c0b62 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -378,17 +378,14 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         Returns:
             A list of parameters that can be trained.
         """
-        # all layers that are not containers
-        named_modules = [
-            (name, mod)
-            for name, mod in model.named_modules()
-            if len(list(mod.modules())) == 1
-        ]
-
         trainable = []
-        for name, mod in named_modules:
-            mod_trainable = [param for param in mod.parameters() if param.requires_grad]
-            if isinstance(mod, self.SUPPORTED_MODULES):
+        for name, mod in model.named_modules():
+            # NOTE Containers can have parameters in addition to those of their children
+            is_container = len(list(mod.modules())) > 1
+            mod_trainable = [
+                param for param in mod.parameters(recurse=False) if param.requires_grad
+            ]
+            if isinstance(mod, self.SUPPORTED_MODULES) and not is_container:
                 trainable.extend(mod_trainable)
             elif mod_trainable and warn_unsupported:
                 warn(
-- 
2.43.0


From 4f0d426c0a6e008a1a40016b5eff11debe71c886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:05 +0000
Subject: [PATCH 13/21] fix: name the methods correctly when warning about
 naive implementations

---
 singd/structures/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/singd/structures/base.py b/singd/structures/base.py
index fb253f8..f4da288 100644
--- a/singd/structures/base.py
+++ b/singd/structures/base.py
@@ -321,7 +321,7 @@ class StructuredMatrix(ABC):
         Returns:
             The average trace of the represented matrix.
         """
-        self._warn_naive_implementation("trace")
+        self._warn_naive_implementation("average_trace")
         return self.to_dense().diag().mean()
 
     def diag_add_(self, value: float) -> StructuredMatrix:
@@ -390,7 +390,7 @@ class StructuredMatrix(ABC):
         Returns:
             A structured matrix representing the zero matrix.
         """
-        cls._warn_naive_implementation("zero")
+        cls._warn_naive_implementation("zeros")
         return cls.from_dense(zeros((dim, dim), dtype=dtype, device=device))
 
     @classmethod
-- 
2.43.0


From af6101752587e26e7a0117d8d453c313debd669d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:05 +0000
Subject: [PATCH 14/21] fix: support empty triangular Toeplitz matrices as
 members of recursive matrices

---
 singd/structures/triltoeplitz.py | 2 +-
 singd/structures/triutoeplitz.py | 2 +-
 singd/structures/utils.py        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/singd/structures/triltoeplitz.py b/singd/structures/triltoeplitz.py
index dd29863..1fbcdb3 100644
--- a/singd/structures/triltoeplitz.py
+++ b/singd/structures/triltoeplitz.py
@@ -73,7 +73,7 @@ class TrilToeplitzMatrix(StructuredMatrix):
         dim = mat.shape[0]
         col = zeros(dim, dtype=mat.dtype, device=mat.device)
         idx_main = dim - 1
-        col[0] += traces[idx_main]
+        col[:1] += traces[idx_main : idx_main + 1]
         col[1:] += traces[idx_main + 1 :]
         col[1:] += traces[:idx_main].flip(0)
 
diff --git a/singd/structures/triutoeplitz.py b/singd/structures/triutoeplitz.py
index 1a6205d..cbcef48 100644
--- a/singd/structures/triutoeplitz.py
+++ b/singd/structures/triutoeplitz.py
@@ -73,7 +73,7 @@ class TriuToeplitzMatrix(StructuredMatrix):
         dim = mat.shape[0]
         row = zeros(dim, dtype=mat.dtype, device=mat.device)
         idx_main = dim - 1
-        row[0] += traces[idx_main]
+        row[:1] += traces[idx_main : idx_main + 1]
         row[1:] += traces[idx_main + 1 :]
         row[1:] += traces[:idx_main].flip(0)
 
diff --git a/singd/structures/utils.py b/singd/structures/utils.py
index 2ed041b..14858d4 100644
--- a/singd/structures/utils.py
+++ b/singd/structures/utils.py
@@ -66,7 +66,7 @@ def all_traces(mat: Tensor) -> Tensor:
         traces of the positive off-diagonals.
     """
     num_rows, num_cols = mat.shape
-    num_diags = 1 + (num_rows - 1) + (num_cols - 1)
+    num_diags = max(0, num_rows + num_cols - 1)
 
     row_idxs = arange(num_rows, device=mat.device).unsqueeze(-1).expand(-1, num_cols)
     col_idxs = arange(num_cols, device=mat.device).unsqueeze(0).expand(num_rows, -1)
-- 
2.43.0


From 99897930cce731bb756fe536fd491c51d2bb0fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:05 +0000
Subject: [PATCH 15/21] fix: identify parameters by object instead of memory
 address

---
 singd/optim/optimizer.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 16c0b62..1727e1e 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -279,9 +279,9 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         assert isinstance(module, self.SUPPORTED_MODULES)
         # NOTE Some of the layer's parameters may not be trained
         group_idx = next(
-            self.param_to_group_idx[p.data_ptr()]
+            self.param_to_group_idx[id(p)]
             for p in module.parameters()
-            if p.data_ptr() in self.param_to_group_idx
+            if id(p) in self.param_to_group_idx
         )
         return self.param_groups[group_idx][entry]
 
@@ -294,7 +294,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         Returns:
             Whether the parameter was passed to the optimizer and has a gradient.
         """
-        return param.data_ptr() in self.param_to_group_idx and param.grad is not None
+        return id(param) in self.param_to_group_idx and param.grad is not None
 
     def _check_param_groups(self, model: Module) -> Dict[int, int]:
         """Check parameter groups for conflicts.
@@ -313,7 +313,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
                 self.SUPPORTED_LOSS_AVERAGE.
 
         Returns:
-            A dictionary mapping parameter IDs (`.data_ptr()`) to group indices.
+            A dictionary mapping parameter IDs (`id()`) to group indices.
         """
         for idx, group in enumerate(self.param_groups):
             # if KFAC-like update is employed, alpha1 will be ignored
@@ -337,14 +337,13 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
                 )
 
         # Find out which parameter is in which group
+        # NOTE Don't identify parameters by memory address, as `.data` may be replaced
         param_to_group_idx = {}
         for group_idx, group in enumerate(self.param_groups):
             for param in group["params"]:
-                param_to_group_idx[param.data_ptr()] = group_idx
+                param_to_group_idx[id(param)] = group_idx
 
-        param_ids = [
-            param.data_ptr() for group in self.param_groups for param in group["params"]
-        ]
+        param_ids = [id(p) for group in self.param_groups for p in group["params"]]
         # check that parameters in a supported module are in the same group
         # all layers that are not containers
         modules = [
@@ -353,9 +352,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             if len(list(m.modules())) == 1 and isinstance(m, self.SUPPORTED_MODULES)
         ]
         for m in modules:
-            m_param_ids = [
-                p.data_ptr() for p in m.parameters() if p.data_ptr() in param_ids
-            ]
+            m_param_ids = [id(p) for p in m.parameters() if id(p) in param_ids]
             m_groups = [param_to_group_idx[p_id] for p_id in m_param_ids]
             if len(set(m_groups)) not in [0, 1]:
                 raise ValueError(
@@ -674,14 +671,12 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             Mapping from hooked modules to their names and list of the installed hooks'
             handles.
         """
-        param_ids = [
-            p.data_ptr() for group in self.param_groups for p in group["params"]
-        ]
+        param_ids = [id(p) for group in self.param_groups for p in group["params"]]
         module_names = {
             mod: name
             for (name, mod) in model.named_modules()
             if isinstance(mod, self.SUPPORTED_MODULES)
-            and any(p.data_ptr() in param_ids for p in mod.parameters())
+            and any(id(p) in param_ids for p in mod.parameters())
         }
         handles = [
             module.register_forward_hook(
-- 
2.43.0


From c07d6edec2ba57e0e8efc0cedc9a9865f0d90b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:05 +0000
Subject: [PATCH 16/21] fix: add mirrored entries when extracting hierarchical
 matrices

---
 singd/structures/hierarchical.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/singd/structures/hierarchical.py b/singd/structures/hierarchical.py
index 5cb8489..cbbbcf6 100644
--- a/singd/structures/hierarchical.py
+++ b/singd/structures/hierarchical.py
@@ -158,9 +158,12 @@ class HierarchicalMatrixTemplate(StructuredMatrix):
         K1, diag_dim, _ = cls._compute_block_dims(dim)
 
         A = sym_mat[:K1, :K1]
-        B = 2 * sym_mat[:K1, K1:]
+        B = sym_mat[:K1, K1:] + sym_mat[K1:, :K1].T
         C = sym_mat.diag()[K1 : K1 + diag_dim]
-        D = 2 * sym_mat[K1 + diag_dim :, K1 : K1 + diag_dim]
+        D = (
+            sym_mat[K1 + diag_dim :, K1 : K1 + diag_dim]
+            + sym_mat[K1 : K1 + diag_dim, K1 + diag_dim :].T
+        )
         E = sym_mat[K1 + diag_dim :, K1 + diag_dim :]
 
         return cls(A, B, C, D, E)
-- 
2.43.0


From efd4b5371ff352e6aeeb4704c8a985717f009291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:05 +0000
Subject: [PATCH 17/21] fix: refuse diagonal blocks of the wrong dimension

---
 singd/structures/blockdiagonal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singd/structures/blockdiagonal.py b/singd/structures/blockdiagonal.py
index 48c667e..4384a8f 100644
--- a/singd/structures/blockdiagonal.py
+++ b/singd/structures/blockdiagonal.py
@@ -90,7 +90,7 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
             raise ValueError(
                 f"Diagonal blocks must be 3-dimensional, got {blocks.ndim}."
             )
-        if blocks.shape[1] != blocks.shape[2] != self.BLOCK_DIM:
+        if not blocks.shape[1] == blocks.shape[2] == self.BLOCK_DIM:
             raise ValueError(
                 f"Diagonal blocks must be square with dimension {self.BLOCK_DIM},"
                 f" got {blocks.shape[1:]} instead."
-- 
2.43.0


From 039513a9b6f19ca3cec27aa29aa9195bffc0547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:05 +0000
Subject: [PATCH 18/21] fix: support empty block-diagonal and hierarchical
 matrices in Frobenius norm

---
 singd/structures/blockdiagonal.py | 4 +---
 singd/structures/hierarchical.py  | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/singd/structures/blockdiagonal.py b/singd/structures/blockdiagonal.py
index 4384a8f..fb12ee1 100644
--- a/singd/structures/blockdiagonal.py
+++ b/singd/structures/blockdiagonal.py
@@ -336,9 +336,7 @@ class BlockDiagonalMatrixTemplate(StructuredMatrix):
         Returns:
             The Frobenius norm of the represented matrix.
         """
-        return vector_norm(
-            cat([t.flatten() for _, t in self.named_tensors() if t.numel() > 0])
-        )
+        return vector_norm(cat([t.flatten() for _, t in self.named_tensors()]))
 
     ###############################################################################
     #                      Special initialization operations                      #
diff --git a/singd/structures/hierarchical.py b/singd/structures/hierarchical.py
index cbbbcf6..f3ebd46 100644
--- a/singd/structures/hierarchical.py
+++ b/singd/structures/hierarchical.py
@@ -363,9 +363,7 @@ class HierarchicalMatrixTemplate(StructuredMatrix):
         Returns:
             The Frobenius norm of the represented matrix.
         """
-        return vector_norm(
-            cat([t.flatten() for _, t in self.named_tensors() if t.numel() > 0])
-        )
+        return vector_norm(cat([t.flatten() for _, t in self.named_tensors()]))
 
     ###############################################################################
     #                      Special initialization operations                      #
-- 
2.43.0


From ad0c46832c05243735816df14e295a6093408deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:41 +0000
Subject: [PATCH 19/21] fix: ignore copies of hooked layers

---
 singd/optim/optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 1727e1e..82b608c 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -592,6 +592,10 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             kwargs: The layer's input tensors supplied as keyword arguments.
             output: The layer's output tensor.
         """
+        # NOTE Copies of a layer share its hooks, but are not trained
+        if module not in getattr(self, "module_names", {}):
+            return
+
         # NOTE The layer may have been called with `layer(input=...)`
         inputs = inputs or (kwargs["input"],)
         T = self._get_param_group_entry(module, "T")
-- 
2.43.0


From 4e4bfe07385cc28bf9f27382d6faf45a2cc9d3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:03 +0000
Subject: [PATCH 20/21] fix: support forward passes with temporarily replaced
 parameters

---
 singd/optim/optimizer.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index 82b608c..f36fdcb 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -240,6 +240,17 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         self.param_to_group_idx = self._check_param_groups(model)
         # layers whose parameters will be updated
         self.module_names, self.hook_handles = self._install_hooks(model)
+        # NOTE Don't look up the group through the layer's parameters when needed, as
+        # they may temporarily be replaced (e.g. by `torch.func.functional_call`). Some
+        # of the layer's parameters may not be trained.
+        self.module_to_group_idx: Dict[Module, int] = {
+            module: next(
+                self.param_to_group_idx[id(p)]
+                for p in module.parameters()
+                if id(p) in self.param_to_group_idx
+            )
+            for module in self.module_names
+        }
 
         # NOTE We use the module names (strings) as keys as they don't change when a
         # model is loaded from a checkpoint (unlike the module objects themselves).
@@ -277,13 +288,7 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
             The entry of the parameter group that contains the layer's parameters.
         """
         assert isinstance(module, self.SUPPORTED_MODULES)
-        # NOTE Some of the layer's parameters may not be trained
-        group_idx = next(
-            self.param_to_group_idx[id(p)]
-            for p in module.parameters()
-            if id(p) in self.param_to_group_idx
-        )
-        return self.param_groups[group_idx][entry]
+        return self.param_groups[self.module_to_group_idx[module]][entry]
 
     def _is_trained(self, param: Parameter) -> bool:
         """Determine whether a layer's parameter is trained by the optimizer.
-- 
2.43.0


From f4efcb73457e9ee2dfd1348b62262322762e83f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:39 +0000
Subject: [PATCH 21/21] fix: ignore forward passes inside functional transforms

---
 singd/optim/optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/singd/optim/optimizer.py b/singd/optim/optimizer.py
index f36fdcb..6581206 100644
--- a/singd/optim/optimizer.py
+++ b/singd/optim/optimizer.py
@@ -8,6 +8,7 @@ from warnings import simplefilter, warn
 
 import torch.distributed as dist
 from torch import Tensor, cat, device, dtype, is_grad_enabled, zeros_like
+from torch._C._functorch import is_functorch_wrapped_tensor
 from torch.nn import Conv2d, Linear, Module, Parameter
 from torch.nn.parallel import DataParallel as DP
 from torch.nn.parallel import DistributedDataParallel as DDP
@@ -604,6 +605,9 @@ https://arxiv.org/abs/1711.05224) to update the pre-conditioner factors. Enablin
         # NOTE The layer may have been called with `layer(input=...)`
         inputs = inputs or (kwargs["input"],)
         T = self._get_param_group_entry(module, "T")
+        # NOTE Functional transforms (e.g. `torch.func.grad`) don't train the layers
+        if is_functorch_wrapped_tensor(output):
+            return
         # NOTE Outputs of frozen layers may not require gradients
         if is_grad_enabled() and output.requires_grad and self.steps % T == 0:
             tensor_hook = partial(self._accumulate_H_terms, module, inputs)
-- 
2.43.0

