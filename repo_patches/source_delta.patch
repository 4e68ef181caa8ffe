From 123cae0f9412510b9cc1b7024c17b6cb691d9f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 01/34] fix: detach the sampled would-be gradients in the MC
 Fisher

The pseudo-loss whose GGN is the MC Fisher must treat the would-be gradients
as constants. For CrossEntropyLoss and BCEWithLogitsLoss they depended on the
prediction, so the matrix was biased and not positive semi-definite.
---
 curvlinops/fisher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/fisher.py b/curvlinops/fisher.py
index d4a1e5e..0997409 100644
--- a/curvlinops/fisher.py
+++ b/curvlinops/fisher.py
@@ -227,7 +227,7 @@ class FisherMCLinearOperator(CurvatureLinearOperator):
             output = rearrange(output, "batch ... c -> (batch ...) c")
             y = rearrange(y, "batch ... c -> (batch ...) c")
 
-        grad_output = self.sample_grad_output(output, self._mc_samples, y)
+        grad_output = self.sample_grad_output(output.detach(), self._mc_samples, y)
 
         # Adjust the scale depending on the loss function and reduction used
         num_loss_terms, C = output.shape
-- 
2.43.0


From 125600de88480fe9a83800e29769055383b55829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 02/34] fix: support a single class in the cross-entropy
 Hessian square root

---
 curvlinops/kfac_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/kfac_utils.py b/curvlinops/kfac_utils.py
index d706173..a7397fb 100644
--- a/curvlinops/kfac_utils.py
+++ b/curvlinops/kfac_utils.py
@@ -121,7 +121,7 @@ def loss_hessian_matrix_sqrt(
 
     elif isinstance(loss_func, CrossEntropyLoss):
         c = 1.0
-        p = output_one_datum.softmax(dim=1).squeeze()
+        p = output_one_datum.softmax(dim=1).squeeze(0)
         p_sqrt = p.sqrt()
         return (diag(p_sqrt) - einsum(p, p_sqrt, "i, j -> i j")).mul_(sqrt(c))
 
-- 
2.43.0


From 06a0d71d2eb47259947c90f510c896ebacb65251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 03/34] fix: respect a convolution's padding mode in KFAC's
 input covariance

---
 curvlinops/kfac.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index 281ff17..8e0f791 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -36,6 +36,7 @@ from torch.nn import (
     MSELoss,
     Parameter,
 )
+from torch.nn.functional import pad
 from torch.utils.hooks import RemovableHandle
 
 from curvlinops._torch_base import CurvatureLinearOperator
@@ -688,11 +689,17 @@ class KFACLinearOperator(CurvatureLinearOperator):
                 KFACType.EXPAND: extract_patches,
                 KFACType.REDUCE: extract_averaged_patches,
             }[self._kfac_approx]
+            padding = module.padding
+            if module.padding_mode != "zeros":
+                # apply the layer's own padding, patch extraction only zero-pads
+                pads = module._reversed_padding_repeated_twice
+                x = pad(x, pads, mode=module.padding_mode)
+                padding = 0
             x = patch_extractor_fn(
                 x,
                 module.kernel_size,
                 module.stride,
-                module.padding,
+                padding,
                 module.dilation,
                 module.groups,
             )
-- 
2.43.0


From a46855b0eb134c3e71e4407e32e7b435cb7f763f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 04/34] fix: do not leak hooks or partial factors if computing
 KFAC fails

---
 curvlinops/kfac.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index 8e0f791..a0f99d7 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -400,6 +400,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
     def _compute_kfac(self):
         """Compute and cache KFAC's Kronecker factors for future ``matmat``s."""
         self._reset_matrix_properties()
+        self._input_covariances, self._gradient_covariances = {}, {}
 
         # install forward and backward hooks
         hook_handles: List[RemovableHandle] = []
@@ -432,13 +433,18 @@ class KFACLinearOperator(CurvatureLinearOperator):
             self._generator = Generator(device=self._device)
         self._generator.manual_seed(self._seed)
 
-        for X, y in self._loop_over_data(desc="KFAC matrices"):
-            output = self._model_func(X)
-            self._compute_loss_and_backward(output, y)
-
-        # clean up
-        for handle in hook_handles:
-            handle.remove()
+        try:
+            for X, y in self._loop_over_data(desc="KFAC matrices"):
+                output = self._model_func(X)
+                self._compute_loss_and_backward(output, y)
+        except BaseException:
+            # do not keep factors that cover only a part of the data
+            self._input_covariances, self._gradient_covariances = {}, {}
+            raise
+        finally:
+            # clean up
+            for handle in hook_handles:
+                handle.remove()
 
     def _maybe_adjust_loss_scale(self, loss: Tensor, output: Tensor) -> Tensor:
         """Adjust the scale of the loss tensor if necessary.
-- 
2.43.0


From f7d465d347de616401380837cf30ff6317dad076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 05/34] fix: validate and copy the Kronecker factors when
 (re)storing KFAC

Loading checked the layer names of the operator's current factors rather than
those in the state dict: states of other parameter sets were accepted, states
of operators with bias-only layers rejected, and a rejected state had already
overwritten the model. The factor dictionaries were shared between operator,
state dict, and all operators restored from it.
---
 curvlinops/kfac.py | 56 +++++++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index a0f99d7..d2292b6 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -19,6 +19,7 @@ and generalized to all linear layers with weight sharing in
 from __future__ import annotations
 
 from collections.abc import MutableMapping
+from copy import deepcopy
 from enum import Enum, EnumMeta
 from functools import partial
 from math import sqrt
@@ -966,8 +967,8 @@ class KFACLinearOperator(CurvatureLinearOperator):
             "separate_weight_and_bias": self._separate_weight_and_bias,
             "num_data": self._N_data,
             # Kronecker factors (if computed)
-            "input_covariances": self._input_covariances,
-            "gradient_covariances": self._gradient_covariances,
+            "input_covariances": self._input_covariances.copy(),
+            "gradient_covariances": self._gradient_covariances.copy(),
             # Properties (not necessarily computed)
             "trace": self._trace,
             "det": self._det,
@@ -984,8 +985,9 @@ class KFACLinearOperator(CurvatureLinearOperator):
         Raises:
             ValueError: If the loss function does not match the state dict.
             ValueError: If the loss function reduction does not match the state dict.
+            RuntimeError: If the model does not match the state dict.
+            ValueError: If the shape or the layers do not match the state dict.
         """
-        self._model_func.load_state_dict(state_dict["model_func_state_dict"])
         # Verify that the loss function and its reduction match the state dict
         loss_func_type = {
             "MSELoss": MSELoss,
@@ -1002,6 +1004,34 @@ class KFACLinearOperator(CurvatureLinearOperator):
                 f"{state_dict['loss_reduction']} != {self._loss_func.reduction}."
             )
 
+        # Verify that the model matches the state dict (without modifying it)
+        model_func_state_dict = state_dict["model_func_state_dict"]
+        deepcopy(self._model_func).load_state_dict(model_func_state_dict)
+
+        # Verify that the Kronecker factors (if computed) belong to this operator
+        if tuple(state_dict["shape"]) != tuple(self.shape):
+            raise ValueError(f"Shape mismatch: {state_dict['shape']} != {self.shape}.")
+        input_covariances = state_dict["input_covariances"]
+        gradient_covariances = state_dict["gradient_covariances"]
+        if input_covariances or gradient_covariances:
+            gradient_keys = set(self._mapping.keys())
+            # input covariances are only required for weights
+            input_keys = {k for k, pos in self._mapping.items() if "weight" in pos}
+            if (
+                set(input_covariances.keys()) != input_keys
+                or set(gradient_covariances.keys()) != gradient_keys
+            ):
+                raise ValueError(
+                    "Input or gradient covariance keys in state dict do not match "
+                    "mapping keys of linear operator. "
+                    "Difference between input covariance and mapping keys: "
+                    f"{set(input_covariances.keys()) ^ input_keys}. "
+                    "Difference between gradient covariance and mapping keys: "
+                    f"{set(gradient_covariances.keys()) ^ gradient_keys}."
+                )
+
+        self._model_func.load_state_dict(model_func_state_dict)
+
         # Set attributes
         self._progressbar = state_dict["progressbar"]
         self.shape = state_dict["shape"]
@@ -1014,24 +1044,8 @@ class KFACLinearOperator(CurvatureLinearOperator):
         self._N_data = state_dict["num_data"]
 
         # Set Kronecker factors (if computed)
-        if self._input_covariances or self._gradient_covariances:
-            # If computed, check if the keys match the mapping keys
-            input_covariances_keys = set(self._input_covariances.keys())
-            gradient_covariances_keys = set(self._gradient_covariances.keys())
-            mapping_keys = set(self._mapping.keys())
-            if (input_covariances_keys and input_covariances_keys != mapping_keys) or (
-                gradient_covariances_keys and gradient_covariances_keys != mapping_keys
-            ):
-                raise ValueError(
-                    "Input or gradient covariance keys in state dict do not match "
-                    "mapping keys of linear operator. "
-                    "Difference between input covariance and mapping keys: "
-                    f"{input_covariances_keys - mapping_keys}. "
-                    "Difference between gradient covariance and mapping keys: "
-                    f"{gradient_covariances_keys - mapping_keys}."
-                )
-        self._input_covariances = state_dict["input_covariances"]
-        self._gradient_covariances = state_dict["gradient_covariances"]
+        self._input_covariances = input_covariances.copy()
+        self._gradient_covariances = gradient_covariances.copy()
 
         # Set properties (not necessarily computed)
         self._trace = state_dict["trace"]
-- 
2.43.0


From b0efedc4b1021204d0429e9009bacc1f32fe6985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 06/34] fix: use SciPy's default condition limit in the LSMR
 inverse

With 1e-8, LSMR always stopped after its first iteration.
---
 curvlinops/inverse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index 0a35f57..d6db858 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -112,7 +112,7 @@ class LSMRInverseLinearOperator(_InverseLinearOperator):
         damp: float = 0.0,
         atol: Optional[float] = 1e-6,
         btol: Optional[float] = 1e-6,
-        conlim: Optional[float] = 1e-8,
+        conlim: Optional[float] = 1e8,
         maxiter: Optional[int] = None,
         show: Optional[bool] = False,
         x0: Optional[ndarray] = None,
-- 
2.43.0


From 1f49a2ef5996cc964d24cfe659837fd7cb0017bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 07/34] fix: do not modify the operand of the KFAC inverse

---
 curvlinops/inverse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index d6db858..85e4793 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -631,6 +631,8 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
         if not self._A._input_covariances and not self._A._gradient_covariances:
             self._A._compute_kfac()
 
+        X = list(X)  # do not overwrite the entries of the user's list
+
         for mod_name, param_pos in self._A._mapping.items():
             # retrieve the inverses of the Kronecker factors from cache or invert them
             aaT_inv, ggT_inv = self._compute_or_get_cached_inverse(mod_name)
-- 
2.43.0


From 3395b23325e6bac20c84384dbcadd35ca7a5b999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 08/34] fix: no infinite heuristic damping for layers with
 vanishing inputs

---
 curvlinops/inverse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index 85e4793..2cfa876 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -392,7 +392,7 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
             # Martens and Grosse, 2015 (https://arxiv.org/abs/1503.05671) (Section 6.3)
             aaT_eig_mean = aaT.trace() / aaT.shape[0]
             ggT_eig_mean = ggT.trace() / ggT.shape[0]
-            if aaT_eig_mean >= 0.0 and ggT_eig_mean > 0.0:
+            if aaT_eig_mean > 0.0 and ggT_eig_mean > 0.0:
                 sqrt_eig_mean_ratio = (aaT_eig_mean / ggT_eig_mean).sqrt()
                 sqrt_damping = sqrt(self._damping)
                 damping_aaT = max(sqrt_damping * sqrt_eig_mean_ratio, self._min_damping)
-- 
2.43.0


From e4925043dfa1e4a07a655fd19472df6418ed140c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 09/34] fix: do not share the inverse Kronecker factors between
 KFAC inverses

---
 curvlinops/inverse.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index 2cfa876..3beb367 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -680,8 +680,8 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
             "cache": self._cache,
             "retry_double_precision": self._retry_double_precision,
             # Inverse Kronecker factors (if computed and cached)
-            "inverse_input_covariances": self._inverse_input_covariances,
-            "inverse_gradient_covariances": self._inverse_gradient_covariances,
+            "inverse_input_covariances": self._inverse_input_covariances.copy(),
+            "inverse_gradient_covariances": self._inverse_gradient_covariances.copy(),
         }
 
     def load_state_dict(self, state_dict: Dict[str, Any]):
@@ -701,8 +701,10 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
         self._retry_double_precision = state_dict["retry_double_precision"]
 
         # Set inverse Kronecker factors (if computed and cached)
-        self._inverse_input_covariances = state_dict["inverse_input_covariances"]
-        self._inverse_gradient_covariances = state_dict["inverse_gradient_covariances"]
+        self._inverse_input_covariances = state_dict["inverse_input_covariances"].copy()
+        self._inverse_gradient_covariances = state_dict[
+            "inverse_gradient_covariances"
+        ].copy()
 
     @classmethod
     def from_state_dict(
-- 
2.43.0


From d8e6009902e2b4120a39d877069b96b3367accf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 10/34] fix: raise ValueError when multiplying onto a scalar
 tensor

---
 curvlinops/_torch_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 76217a5..b2154e9 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -191,7 +191,7 @@ class PyTorchLinearOperator:
         Raises:
             ValueError: If the input tensor has an invalid shape.
         """
-        if X.ndim > 2 or X.shape[0] != self.shape[1]:
+        if X.ndim not in {1, 2} or X.shape[0] != self.shape[1]:
             raise ValueError(
                 f"Input tensor must have shape ({self.shape[1]},) or "
                 + f"({self.shape[1]}, K), with K arbitrary. Got {X.shape}."
-- 
2.43.0


From b6106c4c0d78bdb19bb2dc158d7350ae2ee34165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 11/34] fix: multiply SciPy exports onto integer- and
 complex-valued arrays

---
 curvlinops/_torch_base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index b2154e9..7bb0362 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -371,13 +371,19 @@ class PyTorchLinearOperator:
             Returns:
                 The output matrix in NumPy format.
             """
+            # linear operators are real-valued
+            if numpy.iscomplexobj(X):
+                return (f_scipy(X.real) + 1j * f_scipy(X.imag)).astype(X.dtype)
+
             X_torch = as_tensor(X, dtype=dtype, device=device)
             AX_torch = f(X_torch)
             # calling .numpy() on a BF-16 tensor is not supported, see
             # (https://github.com/pytorch/pytorch/issues/90574)
             if AX_torch.dtype == bfloat16:
                 AX_torch = AX_torch.float()
-            return AX_torch.detach().cpu().numpy().astype(X.dtype)
+            AX = AX_torch.detach().cpu().numpy()
+            # do not round the result for integer-valued inputs
+            return AX.astype(X.dtype) if numpy.issubdtype(X.dtype, numpy.floating) else AX
 
         return f_scipy
 
-- 
2.43.0


From 40aa49d2e4df78ddf8d79865a3e6605a6bec9cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:25 +0000
Subject: [PATCH 12/34] fix: do not cache an incomplete subspace trace in
 Hutch++

---
 curvlinops/trace/meyer2020hutch.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/curvlinops/trace/meyer2020hutch.py b/curvlinops/trace/meyer2020hutch.py
index e37f32e..1a1d50f 100644
--- a/curvlinops/trace/meyer2020hutch.py
+++ b/curvlinops/trace/meyer2020hutch.py
@@ -143,10 +143,13 @@ class HutchPPTraceEstimator:
                 for _ in range(self._basis_dim)
             ]
         )
-        self._Q, _ = qr(AS)
+        Q, _ = qr(AS)
 
-        self._tr_QT_A_Q = 0.0
+        tr_QT_A_Q = 0.0
         for i in range(self._basis_dim):
-            v = self._Q[:, i]
+            v = Q[:, i]
             Av = self._A @ v
-            self._tr_QT_A_Q += dot(v, Av)
+            tr_QT_A_Q += dot(v, Av)
+
+        # only cache complete results
+        self._Q, self._tr_QT_A_Q = Q, tr_QT_A_Q
-- 
2.43.0


From 7bd2725a031949ad9c2353a37ad44083eacea1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:25 +0000
Subject: [PATCH 13/34] fix: multiply sub-matrices onto single columns and keep
 the operand's type

---
 curvlinops/submatrix.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curvlinops/submatrix.py b/curvlinops/submatrix.py
index 3fda4a8..95df8f6 100644
--- a/curvlinops/submatrix.py
+++ b/curvlinops/submatrix.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 from typing import List
 
-from numpy import column_stack, ndarray, zeros
+from numpy import column_stack, ndarray, result_type, zeros
 from scipy.sparse.linalg import LinearOperator
 
 
@@ -62,8 +62,8 @@ class SubmatrixLinearOperator(LinearOperator):
              Result of the (sub-matrix)-vector-multiplication,
              ``A[row_idxs, :][:, col_idxs] @ x``. Has shape ``[len(row_idxs)]``.
         """
-        v = zeros((self._A.shape[1],), dtype=self._A.dtype)
-        v[self._col_idxs] = x
+        v = zeros((self._A.shape[1],), dtype=result_type(self._A.dtype, x.dtype))
+        v[self._col_idxs] = x.flatten()
         Av = self._A @ v
 
         return Av[self._row_idxs]
-- 
2.43.0


From 604645c455a89c88aa635124bb707c2449574df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:25 +0000
Subject: [PATCH 14/34] fix: multiply outer products onto matrices

---
 curvlinops/outer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/outer.py b/curvlinops/outer.py
index a87c676..840c463 100644
--- a/curvlinops/outer.py
+++ b/curvlinops/outer.py
@@ -42,7 +42,7 @@ class OuterProductLinearOperator(LinearOperator):
         Returns:
             Result of linear operator applied to the vector.
         """
-        return einsum(self._equation, *self._operands, x, optimize=self._path)
+        return einsum(self._equation, *self._operands, x.flatten(), optimize=self._path)
 
     def _adjoint(self) -> OuterProductLinearOperator:
         """Return the linear operator representing the adjoint.
-- 
2.43.0


From 7b4ee56b002bdd1e7274ed0345b8000846e9be92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:25 +0000
Subject: [PATCH 15/34] fix: compare the total rather than the last batch's
 loss in the safeguard

---
 curvlinops/_torch_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 7bb0362..fac877c 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -756,7 +756,9 @@ class CurvatureLinearOperator(PyTorchLinearOperator):
                     total_g2.add_(g2)
 
         if self._loss_func is not None:
-            if not allclose_report(loss1, loss2, rtol=rtol, atol=atol):
+            if not allclose_report(
+                total_loss1, total_loss2, rtol=rtol, atol=atol
+            ):
                 raise RuntimeError("Check for deterministic total loss failed.")
 
             if any(
-- 
2.43.0


From 08d0a36d902ff13b6fe6dec4c8a7b916487e04d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:14 +0000
Subject: [PATCH 16/34] fix: detect a varying number of mini-batches in the
 determinism safeguard

---
 curvlinops/_torch_base.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index fac877c..a32f78c 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+from itertools import zip_longest
 from typing import (
     Callable,
     Iterable,
@@ -732,10 +733,16 @@ class CurvatureLinearOperator(PyTorchLinearOperator):
 
         # loop twice over the data loader, accumulate total quantities and compare
         # batch quantities if the linear operator demands fixed data order
-        for ((X1, y1), pred1, loss1, grad1), ((X2, y2), pred2, loss2, grad2) in zip(
+        # (the loops may have a different number of mini-batches)
+        for batch1, batch2 in zip_longest(
             self.data_prediction_loss_gradient(), self.data_prediction_loss_gradient()
         ):
             if self.FIXED_DATA_ORDER:
+                if batch1 is None or batch2 is None:
+                    raise RuntimeError("Check for deterministic batch number failed.")
+
+                ((X1, y1), pred1, loss1, grad1) = batch1
+                ((X2, y2), pred2, loss2, grad2) = batch2
                 self.__check_deterministic_batch(
                     (X1, X2),
                     (y1, y2),
@@ -748,12 +755,16 @@ class CurvatureLinearOperator(PyTorchLinearOperator):
 
             # accumulate total quantities
             if self._loss_func is not None:
-                total_loss1.add_(loss1)
-                total_loss2.add_(loss2)
-                for total_g1, g1 in zip(total_grad1, grad1):
-                    total_g1.add_(g1)
-                for total_g2, g2 in zip(total_grad2, grad2):
-                    total_g2.add_(g2)
+                if batch1 is not None:
+                    _, _, loss1, grad1 = batch1
+                    total_loss1.add_(loss1)
+                    for total_g1, g1 in zip(total_grad1, grad1):
+                        total_g1.add_(g1)
+                if batch2 is not None:
+                    _, _, loss2, grad2 = batch2
+                    total_loss2.add_(loss2)
+                    for total_g2, g2 in zip(total_grad2, grad2):
+                        total_g2.add_(g2)
 
         if self._loss_func is not None:
             if not allclose_report(
-- 
2.43.0


From 76c6bf8b311992eb0add737b9815d04a7f36b039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:11 +0000
Subject: [PATCH 17/34] fix: support losses that are linear in some parameters
 in the Hessian

---
 curvlinops/hessian.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/curvlinops/hessian.py b/curvlinops/hessian.py
index 0f93533..0874de0 100644
--- a/curvlinops/hessian.py
+++ b/curvlinops/hessian.py
@@ -3,7 +3,6 @@
 from collections.abc import MutableMapping
 from typing import List, Union
 
-from backpack.hessianfree.hvp import hessian_vector_product
 from torch import Tensor, zeros_like
 from torch.autograd import grad
 
@@ -74,9 +73,19 @@ class HessianLinearOperator(CurvatureLinearOperator):
             split_list(grad_params, self._block_sizes),
             split_list(HM, self._block_sizes),
         ):
+            # gradients that do not depend on any parameter have zero curvature
+            idxs = [p for p, g in enumerate(g_block) if g.requires_grad]
+            if not idxs:
+                continue
+
             for n in range(num_vecs):
-                col_n = hessian_vector_product(
-                    loss, p_block, [M[..., n] for M in M_block], grad_params=g_block
+                # the Hessian is symmetric: ``H @ v = vᵀ @ H = ∇(gᵀ v)``
+                col_n = grad(
+                    [g_block[p] for p in idxs],
+                    p_block,
+                    grad_outputs=[M_block[p][..., n] for p in idxs],
+                    retain_graph=True,
+                    materialize_grads=True,
                 )
                 for p, col in enumerate(col_n):
                     HM_block[p][..., n].add_(col)
-- 
2.43.0


From 5c4ae852e89976d9b9f02febf5c3dbcb4f1540b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:34 +0000
Subject: [PATCH 18/34] fix: activation Hessian of features that are modified
 in-place

---
 curvlinops/experimental/activation_hessian.py | 57 +++++++++++++------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/curvlinops/experimental/activation_hessian.py b/curvlinops/experimental/activation_hessian.py
index 33f6c6b..bf6599c 100644
--- a/curvlinops/experimental/activation_hessian.py
+++ b/curvlinops/experimental/activation_hessian.py
@@ -263,7 +263,11 @@ class store_activation:
     def __enter__(self) -> None:
         """Install hook that appends the requested activation to the destination."""
         mod = self._model.get_submodule(self._module_name)
-        self._hook_handles.append(mod.register_forward_hook(self.hook))
+        if self._io_type == "input":
+            handle = mod.register_forward_pre_hook(self.pre_hook)
+        else:
+            handle = mod.register_forward_hook(self.hook)
+        self._hook_handles.append(handle)
 
     def __exit__(
         self,
@@ -281,13 +285,31 @@ class store_activation:
         for handle in self._hook_handles:
             handle.remove()
 
+    def pre_hook(self, module: Module, inputs: Tuple[Tensor]) -> Tuple[Tensor]:
+        """Forward pre-hook that appends the requested input to the destination.
+
+        Modifies ``self._destination`` in-place.
+
+        Args:
+            module: Layer onto which the hook is installed.
+            inputs: Layer inputs.
+
+        Returns:
+            The layer inputs, with the requested one replaced by a copy. This ensures
+            that the stored tensor will not be modified by in-place operations.
+        """
+        store = inputs[self._io_idx]
+        self._destination.append(store)
+
+        return tuple(x.clone() if x is store else x for x in inputs)
+
     def hook(
         self,
         module: Module,
         inputs: Tuple[Tensor],
         output: Union[Tensor, Tuple[Tensor]],
-    ):
-        """Forward hook that appends the requested activation to the destination.
+    ) -> Union[Tensor, Tuple[Tensor]]:
+        """Forward hook that appends the requested output to the destination.
 
         Modifies ``self._destination`` in-place.
 
@@ -296,19 +318,22 @@ class store_activation:
             inputs: Layer inputs.
             output: Layer outputs.
 
+        Returns:
+            The layer outputs. A single tensor is replaced by a copy. This ensures
+            that the stored tensor will not be modified by in-place operations.
+
         Raises:
             ValueError: If the requested in/output index does not exist.
         """
-        idx, io_type = self._io_idx, self._io_type
-
-        if io_type == "output" and isinstance(output, Tensor) and idx != 0:
-            raise ValueError(
-                f"Output is a single tensor, but specified index is {idx}."
-            )
-
-        if io_type == "input":
-            store = inputs[idx]
-        else:
-            store = output if isinstance(output, Tensor) else output[idx]
-
-        self._destination.append(store)
+        idx = self._io_idx
+
+        if isinstance(output, Tensor):
+            if idx != 0:
+                raise ValueError(
+                    f"Output is a single tensor, but specified index is {idx}."
+                )
+            self._destination.append(output)
+            return output.clone()
+
+        self._destination.append(output[idx])
+        return output
-- 
2.43.0


From 6c9ec0c3c06e02e9630e8e9255f95023f365b5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:48 +0000
Subject: [PATCH 19/34] fix: multiply SciPy exports onto arrays with negative
 strides

---
 curvlinops/_torch_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index a32f78c..939b76c 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -376,7 +376,9 @@ class PyTorchLinearOperator:
             if numpy.iscomplexobj(X):
                 return (f_scipy(X.real) + 1j * f_scipy(X.imag)).astype(X.dtype)
 
-            X_torch = as_tensor(X, dtype=dtype, device=device)
+            # PyTorch does not support negative strides
+            X_contiguous = numpy.ascontiguousarray(X)
+            X_torch = as_tensor(X_contiguous, dtype=dtype, device=device)
             AX_torch = f(X_torch)
             # calling .numpy() on a BF-16 tensor is not supported, see
             # (https://github.com/pytorch/pytorch/issues/90574)
-- 
2.43.0


From 2de5c466960d3d376a81b5fd08c114591e890398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:08 +0000
Subject: [PATCH 20/34] fix: report non-determinism of mini-batches with
 different shapes as RuntimeError

---
 curvlinops/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/curvlinops/utils.py b/curvlinops/utils.py
index 5b0395b..dad00a9 100644
--- a/curvlinops/utils.py
+++ b/curvlinops/utils.py
@@ -40,8 +40,12 @@ def allclose_report(
         atol: Absolute tolerance. Default is ``1e-8``.
 
     Returns:
-        ``True`` if the tensors are close, ``False`` otherwise.
+        ``True`` if the tensors have the same shape and are close, ``False`` otherwise.
     """
+    if tensor1.shape != tensor2.shape:
+        print(f"Shapes differ: {tuple(tensor1.shape)} vs. {tuple(tensor2.shape)}.")
+        return False
+
     close = tensor1.allclose(tensor2, rtol=rtol, atol=atol)
     if not close:
         # print non-close values
-- 
2.43.0


From 795b4b8e440358876453a05d9cd2e6ade2582bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:43 +0000
Subject: [PATCH 21/34] fix: no absolute tolerance by default in the CG inverse

---
 curvlinops/inverse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index 3beb367..5eae9ac 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -55,7 +55,7 @@ class CGInverseLinearOperator(_InverseLinearOperator):
         maxiter: Optional[int] = None,
         M: Optional[Union[ndarray, LinearOperator]] = None,
         callback: Optional[Callable] = None,
-        atol: Optional[float] = None,
+        atol: Optional[float] = 0.0,
         tol: Optional[float] = 1e-5,
     ):
         """Store hyperparameters for CG.
-- 
2.43.0


From 69401c036c5c413a7bb96710725a62869b6ca3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:26 +0000
Subject: [PATCH 22/34] fix: Lanczos iterations that reach an invariant
 subspace

---
 curvlinops/papyan2020traces/spectrum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/curvlinops/papyan2020traces/spectrum.py b/curvlinops/papyan2020traces/spectrum.py
index 3cec9a9..fed47da 100644
--- a/curvlinops/papyan2020traces/spectrum.py
+++ b/curvlinops/papyan2020traces/spectrum.py
@@ -409,7 +409,9 @@ def fast_lanczos(
         last = m == ncv - 1
         if not last:
             betas[m] = norm(v_next)
-            v_next /= betas[m]
+            # zero if the Lanczos vectors span an invariant subspace: nothing to scale
+            if betas[m] > 0:
+                v_next /= betas[m]
             v_prev = v
             v = v_next
 
-- 
2.43.0


From 5c6c62a5835b088b0c823f49b16a31ac721c1a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:46 +0000
Subject: [PATCH 23/34] fix: support losses that are linear in the activation
 in the activation Hessian

---
 curvlinops/experimental/activation_hessian.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/curvlinops/experimental/activation_hessian.py b/curvlinops/experimental/activation_hessian.py
index bf6599c..c415fae 100644
--- a/curvlinops/experimental/activation_hessian.py
+++ b/curvlinops/experimental/activation_hessian.py
@@ -14,7 +14,6 @@ from typing import (
     Union,
 )
 
-from backpack.hessianfree.hvp import hessian_vector_product
 from torch import Tensor, zeros_like
 from torch.autograd import grad
 from torch.nn import Module
@@ -190,10 +189,19 @@ class ActivationHessianLinearOperator(CurvatureLinearOperator):
 
         # collect
         HM = [zeros_like(m) for m in M]
+        # the curvature is zero if the loss is linear in the activation
+        if not any(g.requires_grad for g in grad_activation):
+            return HM
+
         (num_vectors,) = {m.shape[-1] for m in M}
         for n in range(num_vectors):
-            HM_col = hessian_vector_product(
-                loss, [activation], [m[..., n] for m in M], grad_params=grad_activation
+            # the Hessian is symmetric: ``H @ v = vᵀ @ H = ∇(gᵀ v)``
+            HM_col = grad(
+                grad_activation,
+                [activation],
+                grad_outputs=[m[..., n] for m in M],
+                retain_graph=True,
+                materialize_grads=True,
             )
             for HM_p, HM_col_p in zip(HM, HM_col):
                 HM_p[..., n].add_(HM_col_p)
-- 
2.43.0


From 433515427a84807bf96d3ac2c07beef46eacd8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:46 +0000
Subject: [PATCH 24/34] fix: activation Hessian of one of several outputs that
 is modified in-place

---
 curvlinops/experimental/activation_hessian.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/curvlinops/experimental/activation_hessian.py b/curvlinops/experimental/activation_hessian.py
index c415fae..5268fa3 100644
--- a/curvlinops/experimental/activation_hessian.py
+++ b/curvlinops/experimental/activation_hessian.py
@@ -327,7 +327,7 @@ class store_activation:
             output: Layer outputs.
 
         Returns:
-            The layer outputs. A single tensor is replaced by a copy. This ensures
+            The layer outputs, with the requested one replaced by a copy. This ensures
             that the stored tensor will not be modified by in-place operations.
 
         Raises:
@@ -343,5 +343,10 @@ class store_activation:
             self._destination.append(output)
             return output.clone()
 
-        self._destination.append(output[idx])
+        store = output[idx]
+        self._destination.append(store)
+
+        if type(output) in {tuple, list}:
+            return type(output)(x.clone() if x is store else x for x in output)
+
         return output
-- 
2.43.0


From 5b6597fda63a560c61753e5cd4d171e024af5349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:00 +0000
Subject: [PATCH 25/34] fix: error message for unknown distributions

---
 curvlinops/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/sampling.py b/curvlinops/sampling.py
index 6001096..45c329e 100644
--- a/curvlinops/sampling.py
+++ b/curvlinops/sampling.py
@@ -48,4 +48,4 @@ def random_vector(dim: int, distribution: str) -> ndarray:
     elif distribution == "normal":
         return normal(dim)
     else:
-        raise ValueError(f"Unknown distribution {distribution:!r}.")
+        raise ValueError(f"Unknown distribution {distribution!r}.")
-- 
2.43.0


From 1440dd87f18f1a7344d8a371c6d20120c9bad0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 26/34] fix: activation Hessian of a named tuple's entry that
 is modified in-place

---
 curvlinops/experimental/activation_hessian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvlinops/experimental/activation_hessian.py b/curvlinops/experimental/activation_hessian.py
index 5268fa3..74de6df 100644
--- a/curvlinops/experimental/activation_hessian.py
+++ b/curvlinops/experimental/activation_hessian.py
@@ -348,5 +348,7 @@ class store_activation:
 
         if type(output) in {tuple, list}:
             return type(output)(x.clone() if x is store else x for x in output)
+        if hasattr(output, "_make"):  # named tuple
+            return output._make(x.clone() if x is store else x for x in output)
 
         return output
-- 
2.43.0


From f3b63611fa8e93a167456afae6afa2ede8c9c0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 27/34] fix: keep the loss function's options when saving and
 restoring KFAC

---
 curvlinops/kfac.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index d2292b6..761242d 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -940,6 +940,19 @@ class KFACLinearOperator(CurvatureLinearOperator):
         self._frobenius_norm.sqrt_()
         return self._frobenius_norm
 
+    def _loss_options(self) -> Dict[str, Any]:
+        """Return the loss function's options other than its reduction.
+
+        Returns:
+            Dictionary with the options, which are keyword arguments of the loss class.
+        """
+        names = ("weight", "pos_weight", "ignore_index", "label_smoothing")
+        return {
+            name: getattr(self._loss_func, name)
+            for name in names
+            if hasattr(self._loss_func, name)
+        }
+
     def state_dict(self) -> Dict[str, Any]:
         """Return the state of the KFAC linear operator.
 
@@ -956,6 +969,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
             "model_func_state_dict": self._model_func.state_dict(),
             "loss_type": loss_type,
             "loss_reduction": self._loss_func.reduction,
+            "loss_options": self._loss_options(),
             # Attributes
             "progressbar": self._progressbar,
             "shape": self.shape,
@@ -985,6 +999,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
         Raises:
             ValueError: If the loss function does not match the state dict.
             ValueError: If the loss function reduction does not match the state dict.
+            ValueError: If the loss function options do not match the state dict.
             RuntimeError: If the model does not match the state dict.
             ValueError: If the shape or the layers do not match the state dict.
         """
@@ -1003,6 +1018,17 @@ class KFACLinearOperator(CurvatureLinearOperator):
                 "Loss function reduction mismatch: "
                 f"{state_dict['loss_reduction']} != {self._loss_func.reduction}."
             )
+        # (states saved by older versions do not contain the loss function options)
+        loss_options = self._loss_options()
+        for name, option in state_dict.get("loss_options", loss_options).items():
+            own = loss_options[name]
+            if isinstance(option, Tensor) and isinstance(own, Tensor):
+                option, own = option.tolist(), own.tolist()
+            if option != own:
+                raise ValueError(
+                    f"Loss function option mismatch for {name!r}: "
+                    f"{option} != {own}."
+                )
 
         # Verify that the model matches the state dict (without modifying it)
         model_func_state_dict = state_dict["model_func_state_dict"]
@@ -1086,7 +1112,10 @@ class KFACLinearOperator(CurvatureLinearOperator):
             "MSELoss": MSELoss,
             "CrossEntropyLoss": CrossEntropyLoss,
             "BCEWithLogitsLoss": BCEWithLogitsLoss,
-        }[state_dict["loss_type"]](reduction=state_dict["loss_reduction"])
+        }[state_dict["loss_type"]](
+            reduction=state_dict["loss_reduction"],
+            **state_dict.get("loss_options", {}),
+        )
         kfac = cls(
             model_func,
             loss_func,
-- 
2.43.0


From bea5597adc66bf82300bc1c5b0bee6896e0402aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 28/34] fix: multiply SciPy exports onto extended-precision and
 byte-swapped arrays

---
 curvlinops/_torch_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 939b76c..6bc40fa 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -378,6 +378,9 @@ class PyTorchLinearOperator:
 
             # PyTorch does not support negative strides
             X_contiguous = numpy.ascontiguousarray(X)
+            # neither does it support extended precision or non-native byte orders
+            if X.dtype == numpy.longdouble or not X.dtype.isnative:
+                X_contiguous = X_contiguous.astype(numpy.float64)
             X_torch = as_tensor(X_contiguous, dtype=dtype, device=device)
             AX_torch = f(X_torch)
             # calling .numpy() on a BF-16 tensor is not supported, see
-- 
2.43.0


From c6c522a1cd92451911063113ca2c945377c790a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 29/34] fix: draw would-be gradients of square loss in the
 prediction's data type

The standard deviation was rounded to the default data type, so that the
Monte-Carlo Fisher of a double precision model was biased and depended on
torch.set_default_dtype.
---
 curvlinops/fisher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/fisher.py b/curvlinops/fisher.py
index 0997409..d1c4dac 100644
--- a/curvlinops/fisher.py
+++ b/curvlinops/fisher.py
@@ -298,7 +298,7 @@ class FisherMCLinearOperator(CurvatureLinearOperator):
         C = output.shape[1]
 
         if isinstance(self._loss_func, MSELoss):
-            std = as_tensor(sqrt(0.5), device=output.device)
+            std = as_tensor(sqrt(0.5), device=output.device, dtype=output.dtype)
             mean = zeros(
                 num_samples, *output.shape, device=output.device, dtype=output.dtype
             )
-- 
2.43.0


From 38770c093c3896d3baa068ec0835eae501b4404c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:01 +0000
Subject: [PATCH 30/34] fix: Hessian, gradient and loss for parameters that a
 mini-batch does not use

---
 curvlinops/_torch_base.py | 6 +++++-
 curvlinops/hessian.py     | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 6bc40fa..5e6b805 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -654,7 +654,11 @@ class CurvatureLinearOperator(PyTorchLinearOperator):
             else:
                 normalization_factor = self._get_normalization_factor(X, y)
                 loss = self._loss_func(prediction, y).mul_(normalization_factor)
-                grad_params = [g.detach() for g in grad(loss, self._params)]
+                # (parameters may not be used by this mini-batch)
+                grad_params = [
+                    g.detach()
+                    for g in grad(loss, self._params, materialize_grads=True)
+                ]
                 loss.detach_()
 
             yield (X, y), prediction, loss, grad_params
diff --git a/curvlinops/hessian.py b/curvlinops/hessian.py
index 0874de0..95c5498 100644
--- a/curvlinops/hessian.py
+++ b/curvlinops/hessian.py
@@ -61,7 +61,10 @@ class HessianLinearOperator(CurvatureLinearOperator):
         loss = self._loss_func(self._model_func(X), y)
 
         # Re-cycle first backward pass from the HVP's double-backward
-        grad_params = grad(loss, self._params, create_graph=True)
+        # (parameters may not be used by this mini-batch)
+        grad_params = grad(
+            loss, self._params, create_graph=True, materialize_grads=True
+        )
 
         (num_vecs,) = {m.shape[-1] for m in M}
         HM = [zeros_like(m) for m in M]
-- 
2.43.0


From b94b87929614963be7dba5cde961a95b263c2830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 31/34] fix: KFAC with joint weight and bias on operands that
 require gradients

The bias block of the product is a view created by split, which autograd does
not allow to modify in-place. KFAC @ list(model.parameters()) raised a
RuntimeError for separate_weight_and_bias=False.
---
 curvlinops/kfac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index 761242d..4e07183 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -376,7 +376,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
 
                 w_cols = M_w.shape[1]
                 KM[w_pos], KM[b_pos] = M_joint.split([w_cols, 1], dim=-2)
-                KM[b_pos].squeeze_(1)
+                KM[b_pos] = KM[b_pos].squeeze(1)
 
             # for weights we need to multiply from the right with aaT
             # for weights and biases we need to multiply from the left with ggT
-- 
2.43.0


From e4db43c2c51e2deaf585921ab0736f73ba180119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:05 +0000
Subject: [PATCH 32/34] fix: gradient and loss for losses that are views or
 needed by their own backward pass

---
 curvlinops/_torch_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 5e6b805..c53333c 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -653,7 +653,7 @@ class CurvatureLinearOperator(PyTorchLinearOperator):
                 loss, grad_params = None, None
             else:
                 normalization_factor = self._get_normalization_factor(X, y)
-                loss = self._loss_func(prediction, y).mul_(normalization_factor)
+                loss = self._loss_func(prediction, y) * normalization_factor
                 # (parameters may not be used by this mini-batch)
                 grad_params = [
                     g.detach()
-- 
2.43.0


From ed483b1c1986264eea876c957b585cb8ca4f21cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:40 +0000
Subject: [PATCH 33/34] fix: mini-batches that do not use some, or any, of the
 parameters

---
 curvlinops/_torch_base.py      | 32 ++++++++++++++++++++++++++++----
 curvlinops/fisher.py           |  4 ++++
 curvlinops/ggn.py              |  4 ++++
 curvlinops/gradient_moments.py |  4 ++++
 curvlinops/hessian.py          |  4 ++++
 curvlinops/jacobian.py         |  8 +++++++-
 curvlinops/kfac.py             | 15 ++++++++++++---
 7 files changed, 63 insertions(+), 8 deletions(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index c53333c..f1fb1b3 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -24,6 +24,7 @@ from torch import (
     cat,
     device,
     dtype,
+    is_grad_enabled,
     rand,
     tensor,
     zeros_like,
@@ -607,6 +608,25 @@ class CurvatureLinearOperator(PyTorchLinearOperator):
             y = y.to(self._device)
             yield (X, y)
 
+    def _is_differentiable(self, result: Tensor) -> bool:
+        """Return whether a mini-batch's result has to be differentiated.
+
+        This is not necessary if the mini-batch does not use any of the parameters. If
+        differentiation is switched off, or a parameter does not require gradients, the
+        result is considered differentiable to leave reporting this to autograd.
+
+        Args:
+            result: Prediction or loss of a mini-batch.
+
+        Returns:
+            ``False`` if the result does not depend on the parameters.
+        """
+        return (
+            result.requires_grad
+            or not is_grad_enabled()
+            or any(not p.requires_grad for p in self._params)
+        )
+
     def _get_normalization_factor(
         self, X: Union[MutableMapping, Tensor], y: Tensor
     ) -> float:
@@ -655,10 +675,14 @@ class CurvatureLinearOperator(PyTorchLinearOperator):
                 normalization_factor = self._get_normalization_factor(X, y)
                 loss = self._loss_func(prediction, y) * normalization_factor
                 # (parameters may not be used by this mini-batch)
-                grad_params = [
-                    g.detach()
-                    for g in grad(loss, self._params, materialize_grads=True)
-                ]
+                grad_params = (
+                    [
+                        g.detach()
+                        for g in grad(loss, self._params, materialize_grads=True)
+                    ]
+                    if self._is_differentiable(loss)
+                    else [zeros_like(p) for p in self._params]
+                )
                 loss.detach_()
 
             yield (X, y), prediction, loss, grad_params
diff --git a/curvlinops/fisher.py b/curvlinops/fisher.py
index d1c4dac..2fbddb6 100644
--- a/curvlinops/fisher.py
+++ b/curvlinops/fisher.py
@@ -229,6 +229,10 @@ class FisherMCLinearOperator(CurvatureLinearOperator):
 
         grad_output = self.sample_grad_output(output.detach(), self._mc_samples, y)
 
+        # the mini-batch may not use any trainable parameter
+        if not self._is_differentiable(output):
+            return [zeros_like(m) for m in M]
+
         # Adjust the scale depending on the loss function and reduction used
         num_loss_terms, C = output.shape
         reduction_factor = {
diff --git a/curvlinops/ggn.py b/curvlinops/ggn.py
index e7699db..0115df7 100644
--- a/curvlinops/ggn.py
+++ b/curvlinops/ggn.py
@@ -68,6 +68,10 @@ class GGNLinearOperator(CurvatureLinearOperator):
         (num_vecs,) = {m.shape[-1] for m in M}
         GM = [zeros_like(m) for m in M]
 
+        # the mini-batch may not use any trainable parameter
+        if not self._is_differentiable(output):
+            return GM
+
         for n in range(num_vecs):
             col_n = ggn_vector_product_from_plist(
                 loss, output, self._params, [m[..., n] for m in M]
diff --git a/curvlinops/gradient_moments.py b/curvlinops/gradient_moments.py
index a670d5c..21f8f9c 100644
--- a/curvlinops/gradient_moments.py
+++ b/curvlinops/gradient_moments.py
@@ -129,6 +129,10 @@ class EFLinearOperator(CurvatureLinearOperator):
             trailing dimension of matrix columns.
         """
         output = self._model_func(X)
+        # the mini-batch may not use any trainable parameter
+        if not self._is_differentiable(output):
+            return [zeros_like(m) for m in M]
+
         # If >2d output we convert to an equivalent 2d output
         if isinstance(self._loss_func, CrossEntropyLoss):
             output = rearrange(output, "batch c ... -> (batch ...) c")
diff --git a/curvlinops/hessian.py b/curvlinops/hessian.py
index 95c5498..3236680 100644
--- a/curvlinops/hessian.py
+++ b/curvlinops/hessian.py
@@ -60,6 +60,10 @@ class HessianLinearOperator(CurvatureLinearOperator):
         """
         loss = self._loss_func(self._model_func(X), y)
 
+        # the mini-batch may not use any trainable parameter
+        if not self._is_differentiable(loss):
+            return [zeros_like(m) for m in M]
+
         # Re-cycle first backward pass from the HVP's double-backward
         # (parameters may not be used by this mini-batch)
         grad_params = grad(
diff --git a/curvlinops/jacobian.py b/curvlinops/jacobian.py
index ff7f938..b850122 100644
--- a/curvlinops/jacobian.py
+++ b/curvlinops/jacobian.py
@@ -103,6 +103,11 @@ class JacobianLinearOperator(CurvatureLinearOperator):
         for X, _ in self._loop_over_data(desc="_matmat"):
             output = self._model_func(X)
 
+            # the mini-batch may not use any trainable parameter
+            if not self._is_differentiable(output):
+                JM.append(output.new_zeros(*output.shape, num_vecs))
+                continue
+
             # multiply the mini-batch Jacobian onto all vectors
             JM_col = [
                 jvp(output, self._params, [m[..., n] for m in M])[0]
@@ -227,7 +232,8 @@ class TransposedJacobianLinearOperator(CurvatureLinearOperator):
             pred = self._model_func(X)
             start, end = processed, processed + pred.shape[0]
 
-            for n in range(num_vectors):
+            # (the mini-batch may not use any trainable parameter)
+            for n in range(num_vectors if self._is_differentiable(pred) else 0):
                 (v,) = [m[start:end, ..., n] for m in M]
                 JTv = vjp(pred, self._params, v)
 
diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index 4e07183..fb3a5e0 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -437,7 +437,10 @@ class KFACLinearOperator(CurvatureLinearOperator):
         try:
             for X, y in self._loop_over_data(desc="KFAC matrices"):
                 output = self._model_func(X)
-                self._compute_loss_and_backward(output, y)
+                # (the mini-batch may not use any trainable parameter)
+                forward_only = self._fisher_type == FisherType.FORWARD_ONLY
+                if forward_only or self._is_differentiable(output):
+                    self._compute_loss_and_backward(output, y)
         except BaseException:
             # do not keep factors that cover only a part of the data
             self._input_covariances, self._gradient_covariances = {}, {}
@@ -517,6 +520,7 @@ class KFACLinearOperator(CurvatureLinearOperator):
                     (output * batched_column).sum(),
                     self._params,
                     retain_graph=c < num_cols - 1,
+                    allow_unused=True,
                 )
 
         elif self._fisher_type == FisherType.MC:
@@ -524,12 +528,17 @@ class KFACLinearOperator(CurvatureLinearOperator):
                 y_sampled = self.draw_label(output)
                 loss = self._loss_func(output, y_sampled)
                 loss = self._maybe_adjust_loss_scale(loss, output)
-                grad(loss, self._params, retain_graph=mc != self._mc_samples - 1)
+                grad(
+                    loss,
+                    self._params,
+                    retain_graph=mc != self._mc_samples - 1,
+                    allow_unused=True,
+                )
 
         elif self._fisher_type == FisherType.EMPIRICAL:
             loss = self._loss_func(output, y)
             loss = self._maybe_adjust_loss_scale(loss, output)
-            grad(loss, self._params)
+            grad(loss, self._params, allow_unused=True)
 
         elif self._fisher_type == FisherType.FORWARD_ONLY:
             # Since FOOF sets the gradient covariance Kronecker factors to the identity,
-- 
2.43.0


From 3ebb54ca8a852bc68c8d6144ea84a904ff125800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:40 +0000
Subject: [PATCH 34/34] fix: KFAC rejects re-parameterized weights instead of
 treating them like biases

---
 curvlinops/kfac.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index fb3a5e0..8823852 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -773,7 +773,8 @@ class KFACLinearOperator(CurvatureLinearOperator):
                 param_positions = {}
                 for p_name, p in mod.named_parameters():
                     p_id = p.data_ptr()
-                    if p_id in param_ids:
+                    # (other names belong to re-parameterized weights)
+                    if p_id in param_ids and p_name in {"weight", "bias"}:
                         pos = param_ids.index(p_id)
                         param_positions[p_name] = pos
                         processed.add(p_id)
-- 
2.43.0

