From f91463b6c127981ffa51ce121409a5974891e374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:08 +0000
Subject: [PATCH 01/10] fix: make all the public functions usable without
 pytorch

---
 fast_bss_eval/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fast_bss_eval/__init__.py b/fast_bss_eval/__init__.py
index 5a62d0d..32f2859 100644
--- a/fast_bss_eval/__init__.py
+++ b/fast_bss_eval/__init__.py
@@ -292,6 +292,11 @@ except ImportError:
         bss_eval_sources = None
         sdr = None
         sdr_loss = None
+        sdr_pit_loss = None
+        si_bss_eval_sources = None
+        si_sdr = None
+        si_sdr_loss = None
+        si_sdr_pit_loss = None
 
 
 from . import numpy as numpy
-- 
2.43.0


From 79f5d4f57e60619950bafebcb6ef684f9138445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:08 +0000
Subject: [PATCH 02/10] fix: catch the ImportError when packaging is not
 installed

---
 fast_bss_eval/torch/compatibility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_bss_eval/torch/compatibility.py b/fast_bss_eval/torch/compatibility.py
index b3f2764..cc6c819 100644
--- a/fast_bss_eval/torch/compatibility.py
+++ b/fast_bss_eval/torch/compatibility.py
@@ -29,7 +29,7 @@ For torch<=1.5 the torch_complex library is used.
 """
 try:
     from packaging.version import Version
-except [ImportError, ModuleNotFoundError]:
+except ImportError:
     from distutils.version import LooseVersion as Version
 
 import torch
-- 
2.43.0


From 8b62e067a8f74198c9bb3b3946944fbecfb5ae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:08 +0000
Subject: [PATCH 03/10] fix: create the loaded diagonal on the device and with
 the dtype of the signals

---
 fast_bss_eval/torch/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fast_bss_eval/torch/metrics.py b/fast_bss_eval/torch/metrics.py
index 003e274..b0db775 100644
--- a/fast_bss_eval/torch/metrics.py
+++ b/fast_bss_eval/torch/metrics.py
@@ -60,7 +60,8 @@ def square_cosine_metrics_length_one_filter(
     if with_coh_sar:
         acm = torch.einsum("...cn,...dn->...cd", ref, ref)
         if load_diag is not None:
-            acm = acm + torch.eye(acm.shape[-1]) * load_diag
+            eye = torch.eye(acm.shape[-1], dtype=acm.dtype, device=acm.device)
+            acm = acm + eye * load_diag
         sol = solve(acm, xcorr)
         coh_sar = torch.einsum("...lc,...lc->...c", xcorr, sol)
 
-- 
2.43.0


From 4fa0db5f7fe02a3117f09da6a9697d0af2eca91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:08 +0000
Subject: [PATCH 04/10] fix: keep float32 when loading the diagonal with filter
 length one (numpy)

---
 fast_bss_eval/numpy/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index ac9dcd5..d46e50d 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -65,7 +65,7 @@ def square_cosine_metrics_length_one_filter(
     if with_coh_sar:
         acm = np.einsum("...cn,...dn->...cd", ref, ref)
         if load_diag is not None:
-            acm = acm + np.eye(acm.shape[-1]) * load_diag
+            acm = acm + np.eye(acm.shape[-1], dtype=acm.dtype) * load_diag
         sol = np.linalg.solve(acm, xcorr)
         coh_sar = np.einsum("...lc,...lc->...c", xcorr, sol)
 
-- 
2.43.0


From f2db7b161030502c11594e891c60341a54738ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:08 +0000
Subject: [PATCH 05/10] fix: keep float32 with the iterative solver (numpy)

---
 fast_bss_eval/numpy/cgd.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/fast_bss_eval/numpy/cgd.py b/fast_bss_eval/numpy/cgd.py
index c0df900..305bab5 100644
--- a/fast_bss_eval/numpy/cgd.py
+++ b/fast_bss_eval/numpy/cgd.py
@@ -22,6 +22,8 @@ import math
 from typing import Optional, Tuple, Union
 
 import numpy as np
+from scipy import fft
+
 from .helpers import clamp
 
 
@@ -34,7 +36,7 @@ def optimal_symmetric_circulant_precond_column(
     Froebenius norm
     """
     n = col_toeplitz.shape[-1]
-    b = np.arange(1, n) / n
+    b = np.arange(1, n, dtype=col_toeplitz.dtype) / n
     w = col_toeplitz[..., 1:] * b[..., ::-1]
     col_circ = np.concatenate((col_toeplitz[..., :1], w + w[..., ::-1]), axis=-1)
     return col_circ
@@ -62,7 +64,7 @@ def optimal_nonsymmetric_circulant_precond_column(
     if n is None:
         n = (r.shape[-1] + 1) // 2
 
-    b = np.arange(1, n) / n
+    b = np.arange(1, n, dtype=r.dtype) / n
 
     s1 = r[..., n - 1 : 0 : -1]
     s2 = r[..., :-n:-1]
@@ -84,7 +86,7 @@ class CirculantPreconditionerOperator:
 
     def __init__(self, toeplitz_col: np.ndarray):
         col_precond = optimal_symmetric_circulant_precond_column(toeplitz_col)
-        C = np.fft.rfft(col_precond, axis=-1)
+        C = fft.rfft(col_precond, axis=-1)
         # complex pointwise inverse
         self.C = C.conj() / clamp(C.real**2 + C.imag**2, min=1e-6)
         self.n = col_precond.shape[-1]
@@ -103,8 +105,8 @@ class CirculantPreconditionerOperator:
 
         if lhs.ndim == self.ndim:
             assert lhs.shape[-2] == self.shape[-1]
-            return np.fft.irfft(
-                self.C[..., None] * np.fft.rfft(lhs, n=self.n, axis=-2),
+            return fft.irfft(
+                self.C[..., None] * fft.rfft(lhs, n=self.n, axis=-2),
                 n=self.n,
                 axis=-2,
             )
@@ -129,7 +131,7 @@ class SymmetricToeplitzOperator:
         circ_col = np.concatenate(
             (col, np.zeros_like(col, shape=pad_shape), col[..., :0:-1]), axis=-1
         )
-        self.Cforward = np.fft.rfft(circ_col, axis=-1)
+        self.Cforward = fft.rfft(circ_col, axis=-1)
 
         self._shape = col.shape + (col.shape[-1],)
         self.n_col = n_col
@@ -146,8 +148,8 @@ class SymmetricToeplitzOperator:
     def __matmul__(self, lhs: np.ndarray) -> np.ndarray:
         if lhs.ndim == self.ndim:
             assert lhs.shape[-2] == self.shape[-1]
-            Y = np.fft.rfft(lhs, n=self.n_fft, axis=-2)
-            y = np.fft.irfft(Y * self.Cforward[..., None], n=self.n_fft, axis=-2)
+            Y = fft.rfft(lhs, n=self.n_fft, axis=-2)
+            y = fft.irfft(Y * self.Cforward[..., None], n=self.n_fft, axis=-2)
             return y[..., : self.n_col, :]
 
         else:
@@ -170,7 +172,7 @@ class BlockCirculantPreconditionerOperator:
         col_precond = optimal_nonsymmetric_circulant_precond_column(
             toeplitz_col, axis=-3
         )
-        C = np.fft.rfft(col_precond, axis=-3)
+        C = fft.rfft(col_precond, axis=-3)
 
         # complex pointwise inverse
         self.C = np.linalg.inv(C)
@@ -197,9 +199,9 @@ class BlockCirculantPreconditionerOperator:
         )
 
         lhs = lhs.reshape(lhs.shape[:-2] + (-1, self.C.shape[-1]) + lhs.shape[-1:])
-        lhs = np.fft.rfft(lhs, n=self.n, axis=-3)
+        lhs = fft.rfft(lhs, n=self.n, axis=-3)
         prod = np.einsum("...rc,...cm->...rm", self.C, lhs)
-        y = np.fft.irfft(prod, n=self.n, axis=-3)
+        y = fft.irfft(prod, n=self.n, axis=-3)
         y = y.reshape(lhs.shape[:-3] + (-1,) + lhs.shape[-1:])
 
         return y
@@ -237,7 +239,7 @@ class BlockToeplitzOperator:
             ),
             axis=-3,
         )
-        self.Cforward = np.fft.rfft(circ_col, axis=-3)
+        self.Cforward = fft.rfft(circ_col, axis=-3)
 
         self._n_block_rows = col.shape[-2]
         self._n_block_cols = col.shape[-1]
@@ -266,9 +268,9 @@ class BlockToeplitzOperator:
         )
         # lhs.shape = (..., n_toeplitz, n_block_cols, n_lhs)
         lhs = lhs.reshape(lhs.shape[:-2] + (-1, self._n_block_cols) + lhs.shape[-1:])
-        Y = np.fft.rfft(lhs, n=self.n_fft, axis=-3)
+        Y = fft.rfft(lhs, n=self.n_fft, axis=-3)
         prod = np.einsum("...rc,...cm->...rm", self.Cforward, Y)
-        y = np.fft.irfft(prod, n=self.n_fft, axis=-3)
+        y = fft.irfft(prod, n=self.n_fft, axis=-3)
 
         # truncate output
         y = y[..., : self._n_toeplitz, :, :]
-- 
2.43.0


From 9c5003afafa16a7700c7c380599646086e50e413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:08 +0000
Subject: [PATCH 06/10] fix: make the preconditioner independent of the default
 dtype (torch)

---
 fast_bss_eval/torch/cgd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fast_bss_eval/torch/cgd.py b/fast_bss_eval/torch/cgd.py
index 80e10d1..d0b0417 100644
--- a/fast_bss_eval/torch/cgd.py
+++ b/fast_bss_eval/torch/cgd.py
@@ -35,7 +35,8 @@ def optimal_symmetric_circulant_precond_column(
     Froebenius norm
     """
     n = col_toeplitz.shape[-1]
-    b = torch.arange(1, n, device=col_toeplitz.device) / float(n)
+    b = torch.arange(1, n, dtype=col_toeplitz.dtype, device=col_toeplitz.device)
+    b = b / float(n)
     w = col_toeplitz[..., 1:] * b.flip(dims=(-1,))
     col_circ = torch.cat((col_toeplitz[..., :1], w + w.flip(dims=(-1,))), dim=-1)
     return col_circ
@@ -63,7 +64,7 @@ def optimal_nonsymmetric_circulant_precond_column(
     if n is None:
         n = (r.shape[-1] + 1) // 2
 
-    b = torch.arange(1, n, device=r.device) / float(n)
+    b = torch.arange(1, n, dtype=r.dtype, device=r.device) / float(n)
 
     # s2 = r[..., 1:n]
     # s1 = r[..., -n + 1 :]
-- 
2.43.0


From 97cc09a06debff784cb85e8c8975c17209fd8ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:08 +0000
Subject: [PATCH 07/10] fix: avoid circular aliasing when the filter is longer
 than the signals

---
 fast_bss_eval/numpy/metrics.py | 6 ++++--
 fast_bss_eval/torch/metrics.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/fast_bss_eval/numpy/metrics.py b/fast_bss_eval/numpy/metrics.py
index d46e50d..1dcd8e2 100644
--- a/fast_bss_eval/numpy/metrics.py
+++ b/fast_bss_eval/numpy/metrics.py
@@ -113,7 +113,8 @@ def compute_stats(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    # the longest of the signals and of the lags needed, to avoid circular aliasing
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = fft.rfft(x, n=n_fft, axis=-1)
@@ -163,7 +164,8 @@ def compute_stats_2(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    # the longest of the signals and of the lags needed, to avoid circular aliasing
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = fft.rfft(x, n=n_fft, axis=-1)
diff --git a/fast_bss_eval/torch/metrics.py b/fast_bss_eval/torch/metrics.py
index b0db775..daa25e1 100644
--- a/fast_bss_eval/torch/metrics.py
+++ b/fast_bss_eval/torch/metrics.py
@@ -109,7 +109,8 @@ def compute_stats(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    # the longest of the signals and of the lags needed, to avoid circular aliasing
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = rfft(x, n=n_fft, dim=-1)
@@ -160,7 +161,8 @@ def compute_stats_2(
     if length is None:
         length = x.shape[-1]
 
-    max_len = max(x.shape[-1], y.shape[-1])
+    # the longest of the signals and of the lags needed, to avoid circular aliasing
+    max_len = max(x.shape[-1], y.shape[-1], length)
     n_fft = 2 ** math.ceil(math.log2(x.shape[-1] + max_len - 1))
 
     X = rfft(x, n=n_fft, dim=-1)
-- 
2.43.0


From a0cc4e605d3cdfa8f60eabe65cb1445a3069ae8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:08 +0000
Subject: [PATCH 08/10] fix: solve the permutation when all the entries of the
 cost matrix are infinite

---
 fast_bss_eval/numpy/helpers.py | 3 +++
 fast_bss_eval/torch/helpers.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/fast_bss_eval/numpy/helpers.py b/fast_bss_eval/numpy/helpers.py
index 0519398..13e9aa0 100644
--- a/fast_bss_eval/numpy/helpers.py
+++ b/fast_bss_eval/numpy/helpers.py
@@ -133,6 +133,9 @@ def _linear_sum_assignment_with_inf(
     if min_inf or max_inf:
         cost_matrix = cost_matrix.copy()
         values = cost_matrix[~np.isinf(cost_matrix)]
+        if values.size == 0:
+            # all the entries are equal, any assignment is optimal
+            values = np.zeros_like(cost_matrix)
         m = values.min()
         M = values.max()
         n = min(cost_matrix.shape)
diff --git a/fast_bss_eval/torch/helpers.py b/fast_bss_eval/torch/helpers.py
index 6e32e05..cf5f267 100644
--- a/fast_bss_eval/torch/helpers.py
+++ b/fast_bss_eval/torch/helpers.py
@@ -139,6 +139,9 @@ def _linear_sum_assignment_with_inf(
         if min_inf or max_inf:
             cost_matrix = cost_matrix.clone()
             values = cost_matrix[~torch.isinf(cost_matrix)]
+            if values.numel() == 0:
+                # all the entries are equal, any assignment is optimal
+                values = torch.zeros_like(cost_matrix)
             m = values.min()
             M = values.max()
             n = min(cost_matrix.shape)
-- 
2.43.0


From 1a86bae76890c00a3dc2bacf4247dae4c616d8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:08 +0000
Subject: [PATCH 09/10] fix: remove a stray print when the cost matrix is
 rejected

---
 fast_bss_eval/torch/helpers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fast_bss_eval/torch/helpers.py b/fast_bss_eval/torch/helpers.py
index cf5f267..e42d7a5 100644
--- a/fast_bss_eval/torch/helpers.py
+++ b/fast_bss_eval/torch/helpers.py
@@ -133,7 +133,6 @@ def _linear_sum_assignment_with_inf(
             max_inf = torch.isinf(torch.clamp(cost_matrix, min=0.0)).any()
 
         if min_inf and max_inf:
-            print(cost_matrix)
             raise ValueError("matrix contains both inf and -inf")
 
         if min_inf or max_inf:
-- 
2.43.0


From b78e2e93d91915b40d195b25a0c040f7c42ff989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:08 +0000
Subject: [PATCH 10/10] fix: recompute the residual every 5th iteration of the
 conjugate gradient

---
 fast_bss_eval/numpy/cgd.py | 2 +-
 fast_bss_eval/torch/cgd.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fast_bss_eval/numpy/cgd.py b/fast_bss_eval/numpy/cgd.py
index 305bab5..460957e 100644
--- a/fast_bss_eval/numpy/cgd.py
+++ b/fast_bss_eval/numpy/cgd.py
@@ -339,7 +339,7 @@ def conjugate_gradient(
         pAp = inner_prod(p, Ap)
         alpha = rsold / clamp(pAp, min=1e-6)
         x = x + alpha[..., None, :] * p
-        if epoch + 1 % 5 == 0:
+        if (epoch + 1) % 5 == 0:
             r = b - A @ x
         else:
             r = r - alpha[..., None, :] * Ap
diff --git a/fast_bss_eval/torch/cgd.py b/fast_bss_eval/torch/cgd.py
index d0b0417..5abe1c2 100644
--- a/fast_bss_eval/torch/cgd.py
+++ b/fast_bss_eval/torch/cgd.py
@@ -346,7 +346,7 @@ def conjugate_gradient(
         pAp = inner_prod(p, Ap)
         alpha = rsold / torch.clamp(pAp, min=1e-6)
         x = x + alpha[..., None, :] * p
-        if epoch + 1 % 5 == 0:
+        if (epoch + 1) % 5 == 0:
             r = b - A @ x
         else:
             r = r - alpha[..., None, :] * Ap
-- 
2.43.0

