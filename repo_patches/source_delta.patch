From 80a7a526517895db2d341465d7a9a1c9e8aa8344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 01/45] fix: add with zero alpha passed scal_inplace arguments
 in wrong order

---
 src/starpu/add.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/starpu/add.cc b/src/starpu/add.cc
index 7e11b66..67326ed 100644
--- a/src/starpu/add.cc
+++ b/src/starpu/add.cc
@@ -130,7 +130,7 @@ void submit(Index nelems, T alpha, Handle src, T beta, Handle dst)
     // If beta is non-zero and alpha is zero then reduce to scal_inplace
     if(alpha == zero)
     {
-        scal_inplace::submit<T>(nelems, beta, dst);
+        scal_inplace::submit<T>(beta, nelems, dst);
         return;
     }
     // Access mode for the dst handle
-- 
2.43.0


From 0647768fad422888423577054619d8aa72474339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 02/45] fix: add_fiber with zero alpha ignored beta

---
 src/tensor/add_fiber.cc | 4 ++--
 src/tile/add_fiber.cc   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tensor/add_fiber.cc b/src/tensor/add_fiber.cc
index 1a69f7f..2cc42a3 100644
--- a/src/tensor/add_fiber.cc
+++ b/src/tensor/add_fiber.cc
@@ -71,8 +71,8 @@ void add_fiber_async(T alpha, const Tensor<T> &src, T beta,
                     "dst.basetile_shape[dst.ndim-batch_ndim+i]");
         }
     }
-    // Do nothing if alpha is zero
-    if(alpha == 0.0)
+    // Do nothing if alpha is zero and beta is one
+    if(alpha == 0.0 && beta == 1.0)
     {
         return;
     }
diff --git a/src/tile/add_fiber.cc b/src/tile/add_fiber.cc
index a943179..22fe557 100644
--- a/src/tile/add_fiber.cc
+++ b/src/tile/add_fiber.cc
@@ -61,8 +61,8 @@ void add_fiber_async(T alpha, const Tile<T> &src, T beta, const Tile<T> &dst,
                     "dst.shape[dst.ndim-batch_ndim+i]");
         }
     }
-    // Do nothing if alpha is zero
-    if(alpha == 0.0)
+    // Do nothing if alpha is zero and beta is one
+    if(alpha == 0.0 && beta == 1.0)
     {
         return;
     }
-- 
2.43.0


From 686961b976270d74f2207215a82d492651ed4f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 03/45] fix: hypot with alpha=0 and beta=1 left negative output
 values

---
 src/tensor/hypot.cc | 5 -----
 src/tile/hypot.cc   | 5 -----
 2 files changed, 10 deletions(-)

diff --git a/src/tensor/hypot.cc b/src/tensor/hypot.cc
index 4b656d9..56b5f74 100644
--- a/src/tensor/hypot.cc
+++ b/src/tensor/hypot.cc
@@ -42,11 +42,6 @@ void hypot_async(T alpha, const Tensor<T> &src, T beta, const Tensor<T> &dst)
                     "src.basetile_shape[i]");
         }
     }
-    // Do nothing if alpha is zero
-    if(alpha == 0.0 && beta == 1.)
-    {
-        return;
-    }
     // Apply per-tile hypot asynchronously as needed
     int mpi_rank = starpu_mpi_world_rank();
     for(Index i = 0; i < src.grid.nelems; ++i)
diff --git a/src/tile/hypot.cc b/src/tile/hypot.cc
index 5f0f237..e9340f5 100644
--- a/src/tile/hypot.cc
+++ b/src/tile/hypot.cc
@@ -37,11 +37,6 @@ void hypot_async(T alpha, const Tile<T> &src, T beta, const Tile<T> &dst)
             throw std::runtime_error("dst.shape[i] != src.shape[i]");
         }
     }
-    // Do nothing if alpha is zero and beta is one
-    if(alpha == 0.0 && beta == 1.0)
-    {
-        return;
-    }
     // Insert corresponding task
     starpu::hypot::submit<T>(src.nelems, alpha, src, beta, dst);
 }
-- 
2.43.0


From da90f94f902699fb86a50f6d3ccc8a99d1e3b41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 04/45] fix: normalize produced NaN for slices with all values
 equal to zero

---
 src/kernel/normalize/cpu.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kernel/normalize/cpu.cc b/src/kernel/normalize/cpu.cc
index ba64069..69e82e7 100644
--- a/src/kernel/normalize/cpu.cc
+++ b/src/kernel/normalize/cpu.cc
@@ -72,7 +72,8 @@ void cpu(Index m, Index n, Index k, Index l, T eps, const T *gamma,
                 T dev;
                 // Although in theory tmp<=1 it is not always true in practice
                 // due presence of rounding errors
-                T tmp = std::fabs(mean) / rms;
+                // All-zero slice has zero deviation, avoid 0/0 in such a case
+                T tmp = rms > T{0} ? std::fabs(mean)/rms : one;
                 // Check if rounding errors broke theoretical invariant
                 if(tmp >= one)
                 {
-- 
2.43.0


From 795e2b624ecd2981ef2416c720ec918066a11af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 05/45] fix: subcopy of fp16 tensors used fp32 kernel and went
 out of bounds

---
 src/starpu/subcopy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/starpu/subcopy.cc b/src/starpu/subcopy.cc
index 3041954..c79fd0c 100644
--- a/src/starpu/subcopy.cc
+++ b/src/starpu/subcopy.cc
@@ -64,7 +64,7 @@ void init()
 {
     codelet_fp16.init("nntile_subcopy_fp16",
             footprint,
-            {cpu<fp32_t>},
+            {cpu<fp16_t>},
             {}
             );
     codelet_fp32.init("nntile_subcopy_fp32",
-- 
2.43.0


From 490e48bace48c1350acf16f99b04f9e2e4f0478c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 06/45] fix: scatter_async wrapper rejected fp64 tensors

---
 wrappers/python/nntile/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/tensor.py b/wrappers/python/nntile/tensor.py
index 7dbdb43..bff1a76 100644
--- a/wrappers/python/nntile/tensor.py
+++ b/wrappers/python/nntile/tensor.py
@@ -337,7 +337,7 @@ def scatter_async(x: TensorFloatOrInt, y: TensorFloatOrInt) -> None:
         raise TypeError
     if type(x) is core_tensor.Tensor_fp32:
         core_tensor.scatter_async_fp32(x, y)
-    elif type(x) is core_tensor.Tensor_fp32:
+    elif type(x) is core_tensor.Tensor_fp64:
         core_tensor.scatter_async_fp64(x, y)
     elif type(x) is core_tensor.Tensor_int64:
         core_tensor.scatter_async_int64(x, y)
-- 
2.43.0


From 7f301ff104230c915916fbd8bb7c29f3667d5bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 07/45] fix: layers updated gradients that were not required

---
 wrappers/python/nntile/layer/add.py        | 10 ++++++----
 wrappers/python/nntile/layer/add_slice.py  | 15 +++++++++------
 wrappers/python/nntile/layer/layer_norm.py |  6 ++++--
 wrappers/python/nntile/layer/mixer.py      |  8 +++++---
 4 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/wrappers/python/nntile/layer/add.py b/wrappers/python/nntile/layer/add.py
index cb5a01c..c480203 100644
--- a/wrappers/python/nntile/layer/add.py
+++ b/wrappers/python/nntile/layer/add.py
@@ -45,10 +45,12 @@ class Add(BaseLayer):
         self.res.value.wont_use()
     
     def backward_async(self):
-        add_async(1, self.res.grad, 1, self.x.grad)
-        add_async(1, self.res.grad, 1, self.y.grad)
-        self.x.grad.wont_use()
-        self.y.grad.wont_use()
+        if self.x.grad_required:
+            add_async(1, self.res.grad, 1, self.x.grad)
+            self.x.grad.wont_use()
+        if self.y.grad_required:
+            add_async(1, self.res.grad, 1, self.y.grad)
+            self.y.grad.wont_use()
         self.res.grad.wont_use()
 
     def unregister(self):
diff --git a/wrappers/python/nntile/layer/add_slice.py b/wrappers/python/nntile/layer/add_slice.py
index 1b28202..f909f3f 100644
--- a/wrappers/python/nntile/layer/add_slice.py
+++ b/wrappers/python/nntile/layer/add_slice.py
@@ -24,7 +24,8 @@ class AddSlice(BaseLayer):
         # Set up local named parameters
         self.x = x
         self.y = y
-        self.y.grad.set_reduction_add()
+        if self.y.grad is not None:
+            self.y.grad.set_reduction_add()
         self.u = u
         self.axis = axis
         if redux:
@@ -43,11 +44,13 @@ class AddSlice(BaseLayer):
         self.u.value.wont_use()
 
     def backward_async(self):
-        add_async(1, self.u.grad, 1, self.x.grad)
-        sum_slice_async(1, self.u.grad, 1, self.y.grad, self.axis, \
-                redux=self.redux)
-        self.x.grad.wont_use()
-        self.y.grad.wont_use()
+        if self.x.grad_required:
+            add_async(1, self.u.grad, 1, self.x.grad)
+            self.x.grad.wont_use()
+        if self.y.grad_required:
+            sum_slice_async(1, self.u.grad, 1, self.y.grad, self.axis, \
+                    redux=self.redux)
+            self.y.grad.wont_use()
         self.u.grad.wont_use()
         
     # Simple generator for the add_slice layer
diff --git a/wrappers/python/nntile/layer/layer_norm.py b/wrappers/python/nntile/layer/layer_norm.py
index bc811fc..d51d6f8 100644
--- a/wrappers/python/nntile/layer/layer_norm.py
+++ b/wrappers/python/nntile/layer/layer_norm.py
@@ -209,10 +209,12 @@ class LayerNorm(BaseLayer):
         #self.inv_stddev.wont_use()
         self.inv_stddev.invalidate_submit()
         # Accumulate gradient from tmp_Y_value
-        axpy_async(1.0, self.tmp_y_value, self.x.grad)
+        if self.x.grad_required:
+            axpy_async(1.0, self.tmp_y_value, self.x.grad)
         # tmp_Y_value can be deleted
         #self.tmp_y_value.wont_use()
         self.tmp_y_value.invalidate_submit()
         # dX can offloade from GPU
-        self.x.grad.wont_use()
+        if self.x.grad_required:
+            self.x.grad.wont_use()
 
diff --git a/wrappers/python/nntile/layer/mixer.py b/wrappers/python/nntile/layer/mixer.py
index 99d76a9..9a30af1 100644
--- a/wrappers/python/nntile/layer/mixer.py
+++ b/wrappers/python/nntile/layer/mixer.py
@@ -66,8 +66,9 @@ class GAP(BaseLayer):
 
     def backward_async(self):
         alpha = 1 / (self.x.value.shape[0])
-        transpose_async(1.0, self.y.grad, self.yT.grad, 1)
-        add_slice_async(alpha, self.yT.grad, 0.0, self.x.grad, 0)
+        if self.x.grad_required:
+            transpose_async(1.0, self.y.grad, self.yT.grad, 1)
+            add_slice_async(alpha, self.yT.grad, 0.0, self.x.grad, 0)
 
 
 class MixerMlp(BaseLayer):
@@ -224,4 +225,5 @@ class Mixer(BaseLayer):
         add_async(1.0, self.mlp_2.linear_2.y.grad, 1.0, self.mlp_1.y.grad)
         self.mlp_1.backward_async()
         self.norm_1.backward_async()
-        add_async(1.0, self.mlp_1.linear_2.y.grad, 1.0, self.x.grad)
\ No newline at end of file
+        if self.x.grad_required:
+            add_async(1.0, self.mlp_1.linear_2.y.grad, 1.0, self.x.grad)
\ No newline at end of file
-- 
2.43.0


From 378b45024b90b9a7e54cb65ed452a2b02d4e67f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 08/45] fix: pooling layer overwrote the gradient of its input

---
 wrappers/python/nntile/layer/mixer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/layer/mixer.py b/wrappers/python/nntile/layer/mixer.py
index 9a30af1..920164f 100644
--- a/wrappers/python/nntile/layer/mixer.py
+++ b/wrappers/python/nntile/layer/mixer.py
@@ -68,7 +68,7 @@ class GAP(BaseLayer):
         alpha = 1 / (self.x.value.shape[0])
         if self.x.grad_required:
             transpose_async(1.0, self.y.grad, self.yT.grad, 1)
-            add_slice_async(alpha, self.yT.grad, 0.0, self.x.grad, 0)
+            add_slice_async(alpha, self.yT.grad, 1.0, self.x.grad, 0)
 
 
 class MixerMlp(BaseLayer):
-- 
2.43.0


From 4568d4c854f7a60cd5da6e11932a16036167bd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:43 +0000
Subject: [PATCH 09/45] fix: blocking forward and backward of layers failed or
 ran the wrong pass

---
 wrappers/python/nntile/layer/base_layer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/layer/base_layer.py b/wrappers/python/nntile/layer/base_layer.py
index b5c0ae8..dc59efd 100644
--- a/wrappers/python/nntile/layer/base_layer.py
+++ b/wrappers/python/nntile/layer/base_layer.py
@@ -11,6 +11,7 @@
 # @author Aleksandr Mikhalev
 # @date 2023-05-06
 
+from nntile.nntile_core import starpu
 from nntile.tensor import Tensor, TensorMoments, randn_async
 import numpy as np
 from typing import List, Union
@@ -54,7 +55,7 @@ class BaseLayer(object):
         raise NotImplementedError
 
     def backward(self):
-        self.forward_async()
+        self.backward_async()
         starpu.wait_for_all()
 
     # Unregister layer weights and temporary tensors
-- 
2.43.0


From f248dcf56a0b2fd84c116dfc9226797959021dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 10/45] fix: attention layers failed for inputs without
 gradients

---
 wrappers/python/nntile/layer/attention.py      | 18 ++++++++++++------
 .../python/nntile/layer/flash_attention.py     | 18 ++++++++++++------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/wrappers/python/nntile/layer/attention.py b/wrappers/python/nntile/layer/attention.py
index c6662f4..b35d2c4 100644
--- a/wrappers/python/nntile/layer/attention.py
+++ b/wrappers/python/nntile/layer/attention.py
@@ -86,11 +86,14 @@ class Attention(BaseLayer):
                 [q_transposed, q, k_transposed, k, v_transposed, v, a, \
                 a_maxsumexp, a_sumprod_slice, b, b_transposed])
         self.x_q = x_q
-        self.x_q.grad.set_reduction_add()
+        if self.x_q.grad is not None:
+            self.x_q.grad.set_reduction_add()
         self.x_k = x_k
-        self.x_k.grad.set_reduction_add()
+        if self.x_k.grad is not None:
+            self.x_k.grad.set_reduction_add()
         self.x_v = x_v
-        self.x_v.grad.set_reduction_add()
+        if self.x_v.grad is not None:
+            self.x_v.grad.set_reduction_add()
         self.y = y
         self.y.value.set_reduction_add()
         self.w_q = w_q
@@ -689,7 +692,8 @@ class Attention(BaseLayer):
         # W_V can be offloaded from GPU
         self.w_v.value.wont_use()
         # dX_V can be offloaded from GPU
-        self.x_v.grad.wont_use()
+        if self.x_v.grad is not None:
+            self.x_v.grad.wont_use()
         if self.w_v.grad_required:
             # dW_V += einsum('jkmn,lmn->jkl', dV_transposed, X_V)
             if self.fp32_fast_tf32:
@@ -735,7 +739,8 @@ class Attention(BaseLayer):
         # W_K can be offloaded from GPU
         self.w_k.value.wont_use()
         # dX_K can be offloaded from GPU
-        self.x_k.grad.wont_use()
+        if self.x_k.grad is not None:
+            self.x_k.grad.wont_use()
         if self.w_k.grad_required:
             # dW_K += einsum('jkmn,lmn->jkl', dK_transposed, X_K)
             if self.fp32_fast_tf32:
@@ -782,7 +787,8 @@ class Attention(BaseLayer):
         # W_Q can be offloaded from GPU
         self.w_q.value.wont_use()
         # dX_Q can be offloaded from GPU
-        self.x_q.grad.wont_use()
+        if self.x_q.grad is not None:
+            self.x_q.grad.wont_use()
         if self.w_q.grad_required:
             # dW_Q += einsum('jkmn,lmn->jkl', dQ_transposed, X_Q)
             if self.fp32_fast_tf32:
diff --git a/wrappers/python/nntile/layer/flash_attention.py b/wrappers/python/nntile/layer/flash_attention.py
index 2f1ac31..0cb5c82 100644
--- a/wrappers/python/nntile/layer/flash_attention.py
+++ b/wrappers/python/nntile/layer/flash_attention.py
@@ -89,11 +89,14 @@ class FlashAttention(BaseLayer):
                 [q_transposed, q, k_transposed, k, v_transposed, v, a, \
                 a_maxsumexp, a_sumprod_slice, b, b_transposed])
         self.x_q = x_q
-        self.x_q.grad.set_reduction_add()
+        if self.x_q.grad is not None:
+            self.x_q.grad.set_reduction_add()
         self.x_k = x_k
-        self.x_k.grad.set_reduction_add()
+        if self.x_k.grad is not None:
+            self.x_k.grad.set_reduction_add()
         self.x_v = x_v
-        self.x_v.grad.set_reduction_add()
+        if self.x_v.grad is not None:
+            self.x_v.grad.set_reduction_add()
         self.y = y
         self.y.value.set_reduction_add()
         self.w_q = w_q
@@ -680,7 +683,8 @@ class FlashAttention(BaseLayer):
         # W_V can be offloaded from GPU
         self.w_v.value.wont_use()
         # dX_V can be offloaded from GPU
-        self.x_v.grad.wont_use()
+        if self.x_v.grad is not None:
+            self.x_v.grad.wont_use()
         if self.w_v.grad_required:
             # dW_V += einsum('jkmn,lmn->jkl', dV_transposed, X_V)
             if self.fp32_fast_tf32:
@@ -726,7 +730,8 @@ class FlashAttention(BaseLayer):
         # W_K can be offloaded from GPU
         self.w_k.value.wont_use()
         # dX_K can be offloaded from GPU
-        self.x_k.grad.wont_use()
+        if self.x_k.grad is not None:
+            self.x_k.grad.wont_use()
         if self.w_k.grad_required:
             # dW_K += einsum('jkmn,lmn->jkl', dK_transposed, X_K)
             if self.fp32_fast_tf32:
@@ -773,7 +778,8 @@ class FlashAttention(BaseLayer):
         # W_Q can be offloaded from GPU
         self.w_q.value.wont_use()
         # dX_Q can be offloaded from GPU
-        self.x_q.grad.wont_use()
+        if self.x_q.grad is not None:
+            self.x_q.grad.wont_use()
         if self.w_q.grad_required:
             # dW_Q += einsum('jkmn,lmn->jkl', dQ_transposed, X_Q)
             if self.fp32_fast_tf32:
-- 
2.43.0


From 6829b3b8fe2630fb8a2b66dd2d81f277d086ad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 11/45] fix: cross-entropy failed for model outputs without
 gradient

---
 wrappers/python/nntile/loss/crossentropy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/loss/crossentropy.py b/wrappers/python/nntile/loss/crossentropy.py
index 855e718..f3167d9 100644
--- a/wrappers/python/nntile/loss/crossentropy.py
+++ b/wrappers/python/nntile/loss/crossentropy.py
@@ -93,7 +93,8 @@ class CrossEntropy:
             subtract_indexed_outputs_async(self.scale, self.y, \
                     self.model_output.grad)
         self.model_output.value.wont_use()
-        self.model_output.grad.wont_use()
+        if self.model_output.grad is not None:
+            self.model_output.grad.wont_use()
         self.maxsumexp.wont_use()
         self.logsumexp.wont_use()
         self.val.wont_use()
-- 
2.43.0


From d858961920c81688050707858b8935ad79301eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 12/45] fix: amsgrad variant of Adam divided by bias correction
 of second moment

---
 wrappers/python/nntile/optimizer/adam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/optimizer/adam.py b/wrappers/python/nntile/optimizer/adam.py
index d1a0937..6e5e4c6 100644
--- a/wrappers/python/nntile/optimizer/adam.py
+++ b/wrappers/python/nntile/optimizer/adam.py
@@ -84,7 +84,7 @@ class Adam:
             if self.amsgrad:
                 nntile.tensor.maximum_async(self.second_moments[i], \
                         self.max_second_moments[i])
-                nntile.tensor.addcdiv_async(step_size/scale_factor, \
+                nntile.tensor.addcdiv_async(step_size*scale_factor, \
                         self.eps*scale_factor, self.first_moments[i], \
                         self.max_second_moments[i], p.value)
                 self.max_second_moments[i].wont_use()
-- 
2.43.0


From cf0094234cc1c5a8ea0a0b9113a34c3c75123473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 13/45] fix: Adam saved maximal second moment of the last
 parameter for all parameters

---
 wrappers/python/nntile/optimizer/adam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/optimizer/adam.py b/wrappers/python/nntile/optimizer/adam.py
index 6e5e4c6..7e70690 100644
--- a/wrappers/python/nntile/optimizer/adam.py
+++ b/wrappers/python/nntile/optimizer/adam.py
@@ -111,7 +111,7 @@ class Adam:
             self.second_moments[i].to_array(s_m)
             second_moments.append(s_m.copy())
         
-        for m_s_m_nntile in self.max_second_moments:
+        for i in range(len(self.max_second_moments)):
             m_s_m = np.array(np.zeros(self.max_second_moments[i].shape, dtype=self.dtype), order="F")
             self.max_second_moments[i].to_array(m_s_m)
             max_second_moments.append(m_s_m.copy())
-- 
2.43.0


From 871be20a958df10b46b879c37684682ec3c5717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 14/45] fix: FusedAdam could not load state saved in fp32

---
 wrappers/python/nntile/optimizer/adam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/optimizer/adam.py b/wrappers/python/nntile/optimizer/adam.py
index 7e70690..7360046 100644
--- a/wrappers/python/nntile/optimizer/adam.py
+++ b/wrappers/python/nntile/optimizer/adam.py
@@ -215,8 +215,8 @@ class FusedAdam:
             s_m = np.array(np.zeros(self.second_moments[i].shape, dtype=self.dtype), order="F")
             self.second_moments[i].to_array(s_m)
             if dtype == "fp32":
-                first_moments.append(f_m.copy())
-                second_moments.append(s_m.copy())
+                first_moments.append(torch.tensor(f_m))
+                second_moments.append(torch.tensor(s_m))
             elif dtype == "fp16":
                 first_moments.append(torch.tensor(f_m, dtype=torch.float16))
                 second_moments.append(torch.tensor(s_m, dtype=torch.float16))
-- 
2.43.0


From 24d116ba2927229dc440da93da64ca1ec0198fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:27 +0000
Subject: [PATCH 15/45] fix: Frobenius loss had no get_val that pipeline needs

---
 wrappers/python/nntile/loss/frob.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wrappers/python/nntile/loss/frob.py b/wrappers/python/nntile/loss/frob.py
index b3e1f8b..253f984 100644
--- a/wrappers/python/nntile/loss/frob.py
+++ b/wrappers/python/nntile/loss/frob.py
@@ -54,6 +54,12 @@ class Frob:
         loss = Frob(x, y, val, val2, tmp)
         return loss, next_tag
 
+    def get_val(self, val_np):
+        self.val.to_array(val_np)
+
+    def get_grad(self, grad_np):
+        self.x.grad.to_array(grad_np)
+
     # Get value and gradient if needed
     def calc_async(self):
         # Put X into gradient grad X
-- 
2.43.0


From f30568ecee7f1b38779253b82e103783808dccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 16/45] fix: pipeline reported zero loss for double precision
 models

---
 wrappers/python/nntile/pipeline.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/pipeline.py b/wrappers/python/nntile/pipeline.py
index 59d98fd..4bc900e 100644
--- a/wrappers/python/nntile/pipeline.py
+++ b/wrappers/python/nntile/pipeline.py
@@ -13,7 +13,7 @@
 # @date 2023-09-20
 
 from nntile.tensor import TensorTraits, Tensor, TensorOrNone, TensorMoments, \
-        copy_async, axpy_async, clear_async
+        copy_async, axpy_async, clear_async, Tensor_fp64
 from nntile.layer.base_layer import BaseLayer
 from nntile.model.base_model import BaseModel
 import numpy as np
@@ -80,7 +80,11 @@ class Pipeline(object):
                     if t.grad_required:
                         t.grad.wont_use()
                 # Limit parallelism through value of loss
-                loss_np = np.zeros((1,), dtype=np.float32, order="F")
+                if type(self.loss.val) is Tensor_fp64:
+                    loss_dtype = np.float64
+                else:
+                    loss_dtype = np.float32
+                loss_np = np.zeros((1,), dtype=loss_dtype, order="F")
                 self.loss.get_val(loss_np)
                 self.loss_hist.append(loss_np[0])
                 # print("Loss in {} epoch = {}".format(i_epoch, loss_np[0]))
-- 
2.43.0


From 9ccb4cf64631464e3f5e98eea37a14fca6d3e2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 17/45] fix: layer appended to a model broke its lists of
 activations and parameters

---
 wrappers/python/nntile/model/base_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/model/base_model.py b/wrappers/python/nntile/model/base_model.py
index ed1a911..7aff4bc 100644
--- a/wrappers/python/nntile/model/base_model.py
+++ b/wrappers/python/nntile/model/base_model.py
@@ -33,9 +33,9 @@ class BaseModel:
 
     # Add a new layer with corresponding new activations
     def append(self, layer: BaseLayer):
-        self.activations.append(layer.activations_output)
+        self.activations.extend(layer.activations_output)
         self.layers.append(layer)
-        self.parameters.append(layer.parameters)
+        self.parameters.extend(layer.parameters)
 
     # Forward propagation
     def forward_async(self):
-- 
2.43.0


From 070f66016ab8a9a71472c0a17ffea64a4080c3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:33 +0000
Subject: [PATCH 18/45] fix: MLP mixer converted from PyTorch used untransposed
 square first weight

---
 wrappers/python/nntile/model/mlp_mixer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/wrappers/python/nntile/model/mlp_mixer.py b/wrappers/python/nntile/model/mlp_mixer.py
index 79c24fa..9e7b808 100644
--- a/wrappers/python/nntile/model/mlp_mixer.py
+++ b/wrappers/python/nntile/model/mlp_mixer.py
@@ -118,8 +118,9 @@ class MlpMixer(BaseModel):
         x_moments = TensorMoments(x, x_grad, x_grad_required)
   
         mlp_mixer_nntile = MlpMixer(x_moments, hidden_layer_dim, n_mixer_layers, n_classes, next_tag)
-        for p, p_torch in zip(mlp_mixer_nntile.parameters, torch_mlp_mixer.parameters()):
-            if p.value.shape[0] != p_torch.shape[0]:
+        for i, (p, p_torch) in enumerate(zip(mlp_mixer_nntile.parameters, torch_mlp_mixer.parameters())):
+            # The first weight is transposed even if it is square
+            if i == 0 or p.value.shape[0] != p_torch.shape[0]:
                 p.value.from_array(p_torch.detach().numpy().T)
             else:
                 p.value.from_array(p_torch.detach().numpy())
@@ -128,8 +129,8 @@ class MlpMixer(BaseModel):
 
     def to_torch(self, torch_mlp_mixer):
         with torch.no_grad():
-            for (p, p_torch) in zip(self.parameters, torch_mlp_mixer.parameters()):
-                if p.value.shape[0] != p_torch.shape[0]:
+            for i, (p, p_torch) in enumerate(zip(self.parameters, torch_mlp_mixer.parameters())):
+                if i == 0 or p.value.shape[0] != p_torch.shape[0]:
                     nntile_np = np.zeros(p.value.shape, dtype=np.float32, order="F")
                     p.value.to_array(nntile_np)
                     p_torch.copy_(torch.from_numpy(nntile_np.T))
-- 
2.43.0


From 47a29fb41275e16f5824cfbbfd30eb924aba4996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:17 +0000
Subject: [PATCH 19/45] fix: randn produced an infinite value for seed 0

---
 src/kernel/randn/cpu.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kernel/randn/cpu.cc b/src/kernel/randn/cpu.cc
index 06954b6..b7a55ad 100644
--- a/src/kernel/randn/cpu.cc
+++ b/src/kernel/randn/cpu.cc
@@ -13,6 +13,7 @@
  * */
 
 #include "nntile/kernel/randn/cpu.hh"
+#include <algorithm>
 #include <cmath>
 #include <iostream>
 #include "../external/random.h" // from external
@@ -28,7 +29,8 @@ static inline fp32_t chameleon_randn(unsigned long long &seed, fp32_t mean,
         fp32_t stddev)
 {
     constexpr fp32_t two=2.0, twopi=6.2831853071795864769252867663;
-    fp32_t t1 = CORE_slaran(&seed);
+    // Logarithm of zero is infinite, use the least nonzero uniform value instead
+    fp32_t t1 = std::max(CORE_slaran(&seed), fp32_t(RndF_Mul));
     fp32_t t2 = CORE_slaran(&seed) * twopi;
     fp32_t t3 = std::sqrt(-two*std::log(t1)) * std::cos(t2);
     return stddev*t3 + mean;
@@ -38,7 +40,8 @@ static inline fp64_t chameleon_randn(unsigned long long &seed, fp64_t mean,
         fp64_t stddev)
 {
     constexpr fp64_t two=2.0, twopi=6.2831853071795864769252867663;
-    fp64_t t1 = CORE_dlaran(&seed);
+    // Logarithm of zero is infinite, use the least nonzero uniform value instead
+    fp64_t t1 = std::max(CORE_dlaran(&seed), fp64_t(RndD_Mul));
     fp64_t t2 = CORE_dlaran(&seed) * twopi;
     fp64_t t3 = std::sqrt(-two*std::log(t1)) * std::cos(t2);
     return stddev*t3 + mean;
-- 
2.43.0


From 9832b595ab153887b729e44bc3400d993d09d231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 20/45] fix: flash attention operations accepted operands of
 wrong shapes and went out of bounds

---
 src/tensor/flash_maxsumexp.cc             | 168 +++++++++++-----
 src/tensor/flash_softmax_gemm.cc          | 185 +++++++++++++-----
 src/tensor/flash_softmax_gemm_backward.cc | 226 +++++++++++++++++-----
 3 files changed, 423 insertions(+), 156 deletions(-)

diff --git a/src/tensor/flash_maxsumexp.cc b/src/tensor/flash_maxsumexp.cc
index 152d17d..27c7805 100644
--- a/src/tensor/flash_maxsumexp.cc
+++ b/src/tensor/flash_maxsumexp.cc
@@ -28,58 +28,122 @@ void flash_maxsumexp_async(const Tensor<T> &Q, const Tensor<T> &K,
         const Tensor<bool_t> &mask, const Tensor<T> &maxsumexp,
         const Tensor<T> &tmp, int redux, int fp32_fast_tf32)
 {
-//    // Check dimensions
-//    if(src.ndim != dst.ndim)
-//    {
-//        throw std::runtime_error("src.ndim != dst.ndim");
-//    }
-//    // Treat special case of src.ndim=0
-//    if(src.ndim == 0)
-//    {
-//        throw std::runtime_error("Scalar input makes no sense");
-//    }
-//    // Check axis
-//    if(axis < 0)
-//    {
-//        throw std::runtime_error("axis < 0");
-//    }
-//    if(axis >= src.ndim)
-//    {
-//        throw std::runtime_error("axis >= src.ndim");
-//    }
-//    // Check shapes of src and dst
-//    if(dst.shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.shape[0] != 2");
-//    }
-//    if(dst.basetile_shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.basetile_shape[0] != 2");
-//    }
-//    for(Index i = 0; i < axis; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i+1])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i+1]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i+1])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i+1]");
-//        }
-//    }
-//    for(Index i = axis+1; i < src.ndim; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i]");
-//        }
-//    }
+    // Check dimensions
+    if(Q.ndim != 4)
+    {
+        throw std::runtime_error("Q.ndim != 4");
+    }
+    if(K.ndim != 4)
+    {
+        throw std::runtime_error("K.ndim != 4");
+    }
+    if(mask.ndim != 2)
+    {
+        throw std::runtime_error("mask.ndim != 2");
+    }
+    if(maxsumexp.ndim != 4)
+    {
+        throw std::runtime_error("maxsumexp.ndim != 4");
+    }
+    if(tmp.ndim != 4)
+    {
+        throw std::runtime_error("tmp.ndim != 4");
+    }
+    // Check shapes of Q and K. Head is not tiled and sequences of Q and K are
+    // split into tiles of the same size
+    if(Q.basetile_shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("Q.basetile_shape[0] != Q.shape[0]");
+    }
+    if(K.shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("K.shape[0] != Q.shape[0]");
+    }
+    if(K.basetile_shape != Q.basetile_shape)
+    {
+        throw std::runtime_error("K.basetile_shape != Q.basetile_shape");
+    }
+    for(Index i = 2; i < 4; ++i)
+    {
+        if(K.shape[i] != Q.shape[i])
+        {
+            throw std::runtime_error("K.shape[i] != Q.shape[i]");
+        }
+    }
+    // All tiles must be of the same size
+    for(Index i = 1; i < 4; ++i)
+    {
+        if(Q.shape[i] % Q.basetile_shape[i] != 0)
+        {
+            throw std::runtime_error("Q.shape[i] % Q.basetile_shape[i] != 0");
+        }
+    }
+    if(K.shape[1] % K.basetile_shape[1] != 0)
+    {
+        throw std::runtime_error("K.shape[1] % K.basetile_shape[1] != 0");
+    }
+    // Check shapes of mask
+    if(mask.shape[0] != K.shape[1])
+    {
+        throw std::runtime_error("mask.shape[0] != K.shape[1]");
+    }
+    if(mask.basetile_shape[0] != K.basetile_shape[1])
+    {
+        throw std::runtime_error("mask.basetile_shape[0] != "
+                "K.basetile_shape[1]");
+    }
+    if(mask.shape[1] != Q.shape[1])
+    {
+        throw std::runtime_error("mask.shape[1] != Q.shape[1]");
+    }
+    if(mask.basetile_shape[1] != Q.basetile_shape[1])
+    {
+        throw std::runtime_error("mask.basetile_shape[1] != "
+                "Q.basetile_shape[1]");
+    }
+    // Check shapes of maxsumexp
+    if(maxsumexp.shape[0] != 2)
+    {
+        throw std::runtime_error("maxsumexp.shape[0] != 2");
+    }
+    if(maxsumexp.basetile_shape[0] != 2)
+    {
+        throw std::runtime_error("maxsumexp.basetile_shape[0] != 2");
+    }
+    for(Index i = 1; i < 4; ++i)
+    {
+        if(maxsumexp.shape[i] != Q.shape[i])
+        {
+            throw std::runtime_error("maxsumexp.shape[i] != Q.shape[i]");
+        }
+        if(maxsumexp.basetile_shape[i] != Q.basetile_shape[i])
+        {
+            throw std::runtime_error("maxsumexp.basetile_shape[i] != "
+                    "Q.basetile_shape[i]");
+        }
+    }
+    // Check shapes of tmp
+    if(tmp.shape[0] != K.shape[1])
+    {
+        throw std::runtime_error("tmp.shape[0] != K.shape[1]");
+    }
+    if(tmp.basetile_shape[0] != K.basetile_shape[1])
+    {
+        throw std::runtime_error("tmp.basetile_shape[0] != "
+                "K.basetile_shape[1]");
+    }
+    for(Index i = 1; i < 4; ++i)
+    {
+        if(tmp.shape[i] != Q.shape[i])
+        {
+            throw std::runtime_error("tmp.shape[i] != Q.shape[i]");
+        }
+        if(tmp.basetile_shape[i] != Q.basetile_shape[i])
+        {
+            throw std::runtime_error("tmp.basetile_shape[i] != "
+                    "Q.basetile_shape[i]");
+        }
+    }
     // Do actual calculations
     int ret;
     Index head_size = Q.shape[0];
diff --git a/src/tensor/flash_softmax_gemm.cc b/src/tensor/flash_softmax_gemm.cc
index 2dd4782..9926ecd 100644
--- a/src/tensor/flash_softmax_gemm.cc
+++ b/src/tensor/flash_softmax_gemm.cc
@@ -31,58 +31,139 @@ void flash_softmax_gemm_async(const Tensor<T> &Q, const Tensor<T> &K,
         const Tensor<T> &maxsumexp, const Tensor<T> &dst,
         const Tensor<T> &tmp, int redux, int fp32_fast_tf32)
 {
-//    // Check dimensions
-//    if(src.ndim != dst.ndim)
-//    {
-//        throw std::runtime_error("src.ndim != dst.ndim");
-//    }
-//    // Treat special case of src.ndim=0
-//    if(src.ndim == 0)
-//    {
-//        throw std::runtime_error("Scalar input makes no sense");
-//    }
-//    // Check axis
-//    if(axis < 0)
-//    {
-//        throw std::runtime_error("axis < 0");
-//    }
-//    if(axis >= src.ndim)
-//    {
-//        throw std::runtime_error("axis >= src.ndim");
-//    }
-//    // Check shapes of src and dst
-//    if(dst.shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.shape[0] != 2");
-//    }
-//    if(dst.basetile_shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.basetile_shape[0] != 2");
-//    }
-//    for(Index i = 0; i < axis; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i+1])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i+1]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i+1])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i+1]");
-//        }
-//    }
-//    for(Index i = axis+1; i < src.ndim; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i]");
-//        }
-//    }
+    // Check dimensions
+    if(Q.ndim != 4)
+    {
+        throw std::runtime_error("Q.ndim != 4");
+    }
+    if(K.ndim != 4)
+    {
+        throw std::runtime_error("K.ndim != 4");
+    }
+    if(mask.ndim != 2)
+    {
+        throw std::runtime_error("mask.ndim != 2");
+    }
+    if(maxsumexp.ndim != 4)
+    {
+        throw std::runtime_error("maxsumexp.ndim != 4");
+    }
+    if(tmp.ndim != 4)
+    {
+        throw std::runtime_error("tmp.ndim != 4");
+    }
+    // Check shapes of Q and K. Head is not tiled and sequences of Q and K are
+    // split into tiles of the same size
+    if(Q.basetile_shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("Q.basetile_shape[0] != Q.shape[0]");
+    }
+    if(K.shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("K.shape[0] != Q.shape[0]");
+    }
+    if(K.basetile_shape != Q.basetile_shape)
+    {
+        throw std::runtime_error("K.basetile_shape != Q.basetile_shape");
+    }
+    for(Index i = 2; i < 4; ++i)
+    {
+        if(K.shape[i] != Q.shape[i])
+        {
+            throw std::runtime_error("K.shape[i] != Q.shape[i]");
+        }
+    }
+    // All tiles must be of the same size
+    for(Index i = 1; i < 4; ++i)
+    {
+        if(Q.shape[i] % Q.basetile_shape[i] != 0)
+        {
+            throw std::runtime_error("Q.shape[i] % Q.basetile_shape[i] != 0");
+        }
+    }
+    if(K.shape[1] % K.basetile_shape[1] != 0)
+    {
+        throw std::runtime_error("K.shape[1] % K.basetile_shape[1] != 0");
+    }
+    // Check shapes of mask
+    if(mask.shape[0] != K.shape[1])
+    {
+        throw std::runtime_error("mask.shape[0] != K.shape[1]");
+    }
+    if(mask.basetile_shape[0] != K.basetile_shape[1])
+    {
+        throw std::runtime_error("mask.basetile_shape[0] != "
+                "K.basetile_shape[1]");
+    }
+    if(mask.shape[1] != Q.shape[1])
+    {
+        throw std::runtime_error("mask.shape[1] != Q.shape[1]");
+    }
+    if(mask.basetile_shape[1] != Q.basetile_shape[1])
+    {
+        throw std::runtime_error("mask.basetile_shape[1] != "
+                "Q.basetile_shape[1]");
+    }
+    // Check shapes of maxsumexp
+    if(maxsumexp.shape[0] != 2)
+    {
+        throw std::runtime_error("maxsumexp.shape[0] != 2");
+    }
+    if(maxsumexp.basetile_shape[0] != 2)
+    {
+        throw std::runtime_error("maxsumexp.basetile_shape[0] != 2");
+    }
+    for(Index i = 1; i < 4; ++i)
+    {
+        if(maxsumexp.shape[i] != Q.shape[i])
+        {
+            throw std::runtime_error("maxsumexp.shape[i] != Q.shape[i]");
+        }
+        if(maxsumexp.basetile_shape[i] != Q.basetile_shape[i])
+        {
+            throw std::runtime_error("maxsumexp.basetile_shape[i] != "
+                    "Q.basetile_shape[i]");
+        }
+    }
+    // Check shapes of tmp
+    if(tmp.shape[0] != K.shape[1])
+    {
+        throw std::runtime_error("tmp.shape[0] != K.shape[1]");
+    }
+    if(tmp.basetile_shape[0] != K.basetile_shape[1])
+    {
+        throw std::runtime_error("tmp.basetile_shape[0] != "
+                "K.basetile_shape[1]");
+    }
+    for(Index i = 1; i < 4; ++i)
+    {
+        if(tmp.shape[i] != Q.shape[i])
+        {
+            throw std::runtime_error("tmp.shape[i] != Q.shape[i]");
+        }
+        if(tmp.basetile_shape[i] != Q.basetile_shape[i])
+        {
+            throw std::runtime_error("tmp.basetile_shape[i] != "
+                    "Q.basetile_shape[i]");
+        }
+    }
+    // Check shapes of V and dst
+    if(V.shape != K.shape)
+    {
+        throw std::runtime_error("V.shape != K.shape");
+    }
+    if(V.basetile_shape != K.basetile_shape)
+    {
+        throw std::runtime_error("V.basetile_shape != K.basetile_shape");
+    }
+    if(dst.shape != Q.shape)
+    {
+        throw std::runtime_error("dst.shape != Q.shape");
+    }
+    if(dst.basetile_shape != Q.basetile_shape)
+    {
+        throw std::runtime_error("dst.basetile_shape != Q.basetile_shape");
+    }
     // Do actual calculations
     int ret;
     Index head_size = Q.shape[0];
diff --git a/src/tensor/flash_softmax_gemm_backward.cc b/src/tensor/flash_softmax_gemm_backward.cc
index b478d6e..be0cb99 100644
--- a/src/tensor/flash_softmax_gemm_backward.cc
+++ b/src/tensor/flash_softmax_gemm_backward.cc
@@ -31,58 +31,180 @@ void flash_softmax_gemm_backward_async(const Tensor<T> &Q, const Tensor<T> &dQ,
         const Tensor<T> &tmp, const Tensor<T> &tmp_grad,
         const Tensor<T> &tmp_sumprod_slice, int redux, int fp32_fast_tf32)
 {
-//    // Check dimensions
-//    if(src.ndim != dst.ndim)
-//    {
-//        throw std::runtime_error("src.ndim != dst.ndim");
-//    }
-//    // Treat special case of src.ndim=0
-//    if(src.ndim == 0)
-//    {
-//        throw std::runtime_error("Scalar input makes no sense");
-//    }
-//    // Check axis
-//    if(axis < 0)
-//    {
-//        throw std::runtime_error("axis < 0");
-//    }
-//    if(axis >= src.ndim)
-//    {
-//        throw std::runtime_error("axis >= src.ndim");
-//    }
-//    // Check shapes of src and dst
-//    if(dst.shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.shape[0] != 2");
-//    }
-//    if(dst.basetile_shape[0] != 2)
-//    {
-//        throw std::runtime_error("dst.basetile_shape[0] != 2");
-//    }
-//    for(Index i = 0; i < axis; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i+1])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i+1]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i+1])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i+1]");
-//        }
-//    }
-//    for(Index i = axis+1; i < src.ndim; ++i)
-//    {
-//        if(src.shape[i] != dst.shape[i])
-//        {
-//            throw std::runtime_error("src.shape[i] != dst.shape[i]");
-//        }
-//        if(src.basetile_shape[i] != dst.basetile_shape[i])
-//        {
-//            throw std::runtime_error("src.basetile_shape[i] != "
-//                    "dst.basetile_shape[i]");
-//        }
-//    }
+    // Check dimensions
+    if(Q.ndim != 4)
+    {
+        throw std::runtime_error("Q.ndim != 4");
+    }
+    if(K.ndim != 4)
+    {
+        throw std::runtime_error("K.ndim != 4");
+    }
+    if(mask.ndim != 2)
+    {
+        throw std::runtime_error("mask.ndim != 2");
+    }
+    if(maxsumexp.ndim != 4)
+    {
+        throw std::runtime_error("maxsumexp.ndim != 4");
+    }
+    if(tmp.ndim != 4)
+    {
+        throw std::runtime_error("tmp.ndim != 4");
+    }
+    if(tmp_sumprod_slice.ndim != 3)
+    {
+        throw std::runtime_error("tmp_sumprod_slice.ndim != 3");
+    }
+    // Check shapes of Q and K. Head is not tiled and sequences of Q and K are
+    // split into tiles of the same size
+    if(Q.basetile_shape[0] != Q.shape[0])
+    {
+        throw std::runtime_error("Q.basetile_shape[0] != Q.shape[0]");
+    }
+    if(K.shape != Q.shape)
+    {
+        throw std::runtime_error("K.shape != Q.shape");
+    }
+    if(K.basetile_shape != Q.basetile_shape)
+    {
+        throw std::runtime_error("K.basetile_shape != Q.basetile_shape");
+    }
+    // All tiles must be of the same size
+    for(Index i = 1; i < 4; ++i)
+    {
+        if(Q.shape[i] % Q.basetile_shape[i] != 0)
+        {
+            throw std::runtime_error("Q.shape[i] % Q.basetile_shape[i] != 0");
+        }
+    }
+    // Check shapes of mask
+    if(mask.shape[0] != K.shape[1])
+    {
+        throw std::runtime_error("mask.shape[0] != K.shape[1]");
+    }
+    if(mask.basetile_shape[0] != K.basetile_shape[1])
+    {
+        throw std::runtime_error("mask.basetile_shape[0] != "
+                "K.basetile_shape[1]");
+    }
+    if(mask.shape[1] != Q.shape[1])
+    {
+        throw std::runtime_error("mask.shape[1] != Q.shape[1]");
+    }
+    if(mask.basetile_shape[1] != Q.basetile_shape[1])
+    {
+        throw std::runtime_error("mask.basetile_shape[1] != "
+                "Q.basetile_shape[1]");
+    }
+    // Check shapes of maxsumexp
+    if(maxsumexp.shape[0] != 2)
+    {
+        throw std::runtime_error("maxsumexp.shape[0] != 2");
+    }
+    if(maxsumexp.basetile_shape[0] != 2)
+    {
+        throw std::runtime_error("maxsumexp.basetile_shape[0] != 2");
+    }
+    for(Index i = 1; i < 4; ++i)
+    {
+        if(maxsumexp.shape[i] != Q.shape[i])
+        {
+            throw std::runtime_error("maxsumexp.shape[i] != Q.shape[i]");
+        }
+        if(maxsumexp.basetile_shape[i] != Q.basetile_shape[i])
+        {
+            throw std::runtime_error("maxsumexp.basetile_shape[i] != "
+                    "Q.basetile_shape[i]");
+        }
+    }
+    // Check shapes of tmp
+    if(tmp.shape[0] != K.shape[1])
+    {
+        throw std::runtime_error("tmp.shape[0] != K.shape[1]");
+    }
+    if(tmp.basetile_shape[0] != K.basetile_shape[1])
+    {
+        throw std::runtime_error("tmp.basetile_shape[0] != "
+                "K.basetile_shape[1]");
+    }
+    for(Index i = 1; i < 4; ++i)
+    {
+        if(tmp.shape[i] != Q.shape[i])
+        {
+            throw std::runtime_error("tmp.shape[i] != Q.shape[i]");
+        }
+        if(tmp.basetile_shape[i] != Q.basetile_shape[i])
+        {
+            throw std::runtime_error("tmp.basetile_shape[i] != "
+                    "Q.basetile_shape[i]");
+        }
+    }
+    // Check shapes of V and gradients
+    if(V.shape != K.shape)
+    {
+        throw std::runtime_error("V.shape != K.shape");
+    }
+    if(V.basetile_shape != K.basetile_shape)
+    {
+        throw std::runtime_error("V.basetile_shape != K.basetile_shape");
+    }
+    if(dQ.shape != Q.shape)
+    {
+        throw std::runtime_error("dQ.shape != Q.shape");
+    }
+    if(dQ.basetile_shape != Q.basetile_shape)
+    {
+        throw std::runtime_error("dQ.basetile_shape != Q.basetile_shape");
+    }
+    if(dK.shape != K.shape)
+    {
+        throw std::runtime_error("dK.shape != K.shape");
+    }
+    if(dK.basetile_shape != K.basetile_shape)
+    {
+        throw std::runtime_error("dK.basetile_shape != K.basetile_shape");
+    }
+    if(dV.shape != V.shape)
+    {
+        throw std::runtime_error("dV.shape != V.shape");
+    }
+    if(dV.basetile_shape != V.basetile_shape)
+    {
+        throw std::runtime_error("dV.basetile_shape != V.basetile_shape");
+    }
+    if(dst_grad.shape != Q.shape)
+    {
+        throw std::runtime_error("dst_grad.shape != Q.shape");
+    }
+    if(dst_grad.basetile_shape != Q.basetile_shape)
+    {
+        throw std::runtime_error("dst_grad.basetile_shape != "
+                "Q.basetile_shape");
+    }
+    // Check shapes of other temporaries
+    if(tmp_grad.shape != tmp.shape)
+    {
+        throw std::runtime_error("tmp_grad.shape != tmp.shape");
+    }
+    if(tmp_grad.basetile_shape != tmp.basetile_shape)
+    {
+        throw std::runtime_error("tmp_grad.basetile_shape != "
+                "tmp.basetile_shape");
+    }
+    for(Index i = 0; i < 3; ++i)
+    {
+        if(tmp_sumprod_slice.shape[i] != Q.shape[i+1])
+        {
+            throw std::runtime_error("tmp_sumprod_slice.shape[i] != "
+                    "Q.shape[i+1]");
+        }
+        if(tmp_sumprod_slice.basetile_shape[i] != Q.basetile_shape[i+1])
+        {
+            throw std::runtime_error("tmp_sumprod_slice.basetile_shape[i] != "
+                    "Q.basetile_shape[i+1]");
+        }
+    }
     // Do actual calculations
     int ret;
     Index head_size = Q.shape[0];
-- 
2.43.0


From 4cb74961afce0aae97bd2231dbbf21bff79aa15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 21/45] fix: addcdiv and Adam steps accepted operands with
 different tiles

---
 src/tensor/adam_step.cc  | 15 +++++++++++++++
 src/tensor/adamw_step.cc | 15 +++++++++++++++
 src/tensor/addcdiv.cc    |  8 ++++++++
 3 files changed, 38 insertions(+)

diff --git a/src/tensor/adam_step.cc b/src/tensor/adam_step.cc
index d1d3e7b..e9a6deb 100644
--- a/src/tensor/adam_step.cc
+++ b/src/tensor/adam_step.cc
@@ -41,6 +41,21 @@ void adam_step_async(Index num_iter, T beta_1, T beta_2, T eps, T lr, T weight_d
         throw std::runtime_error("Parameter shape is not equal to second_moment shape");
     }
 
+    if (p.basetile_shape != grad.basetile_shape)
+    {
+        throw std::runtime_error("Parameter tile shape is not equal to gradient tile shape");
+    }
+
+    if (p.basetile_shape != first_moment.basetile_shape)
+    {
+        throw std::runtime_error("Parameter tile shape is not equal to first_moment tile shape");
+    }
+
+    if (p.basetile_shape != second_moment.basetile_shape)
+    {
+        throw std::runtime_error("Parameter tile shape is not equal to second_moment tile shape");
+    }
+
     int mpi_size = starpu_mpi_world_size();
     int mpi_rank = starpu_mpi_world_rank();
 
diff --git a/src/tensor/adamw_step.cc b/src/tensor/adamw_step.cc
index 1f51b84..e67cd81 100644
--- a/src/tensor/adamw_step.cc
+++ b/src/tensor/adamw_step.cc
@@ -42,6 +42,21 @@ void adamw_step_async(Index num_iter, T beta_1, T beta_2, T eps, T lr, T weight_
         throw std::runtime_error("Parameter shape is not equal to second_moment shape");
     }
 
+    if (p.basetile_shape != grad.basetile_shape)
+    {
+        throw std::runtime_error("Parameter tile shape is not equal to gradient tile shape");
+    }
+
+    if (p.basetile_shape != first_moment.basetile_shape)
+    {
+        throw std::runtime_error("Parameter tile shape is not equal to first_moment tile shape");
+    }
+
+    if (p.basetile_shape != second_moment.basetile_shape)
+    {
+        throw std::runtime_error("Parameter tile shape is not equal to second_moment tile shape");
+    }
+
     int mpi_size = starpu_mpi_world_size();
     int mpi_rank = starpu_mpi_world_rank();
 
diff --git a/src/tensor/addcdiv.cc b/src/tensor/addcdiv.cc
index 6256e7d..e37a067 100644
--- a/src/tensor/addcdiv.cc
+++ b/src/tensor/addcdiv.cc
@@ -33,6 +33,14 @@ void addcdiv_async(T val, T eps, const Tensor<T> &nom, const Tensor<T> &denom,
         throw std::runtime_error("Nominator shape is not equal to source shape");
     }
 
+    if (nom.basetile_shape != denom.basetile_shape) {
+        throw std::runtime_error("Nominator tile shape is not equal to denominator tile shape");
+    }
+
+    if (src.basetile_shape != nom.basetile_shape) {
+        throw std::runtime_error("Nominator tile shape is not equal to source tile shape");
+    }
+
     int mpi_size = starpu_mpi_world_size();
     int mpi_rank = starpu_mpi_world_rank();
 
-- 
2.43.0


From d9f08abfc7cefaac9ab1eceb973e8bc60254cd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 22/45] fix: sumprod_fiber and sumprod_slice accepted sources
 with different tiles

---
 src/tensor/sumprod_fiber.cc | 4 ++++
 src/tensor/sumprod_slice.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/tensor/sumprod_fiber.cc b/src/tensor/sumprod_fiber.cc
index eab79bf..0fb6f3b 100644
--- a/src/tensor/sumprod_fiber.cc
+++ b/src/tensor/sumprod_fiber.cc
@@ -30,6 +30,10 @@ void sumprod_fiber_async(T alpha, const Tensor<T> &src1,
     {
         throw std::runtime_error("src1.shape != src2.shape");
     }
+    if(src1.basetile_shape != src2.basetile_shape)
+    {
+        throw std::runtime_error("src1.basetile_shape != src2.basetile_shape");
+    }
     // Check dimensions
     if(dst.ndim != 1)
     {
diff --git a/src/tensor/sumprod_slice.cc b/src/tensor/sumprod_slice.cc
index e1fa193..1d55096 100644
--- a/src/tensor/sumprod_slice.cc
+++ b/src/tensor/sumprod_slice.cc
@@ -30,6 +30,10 @@ void sumprod_slice_async(T alpha, const Tensor<T> &src1, const Tensor<T> &src2,
     {
         throw std::runtime_error("src1.shape != src2.shape");
     }
+    if(src1.basetile_shape != src2.basetile_shape)
+    {
+        throw std::runtime_error("src1.basetile_shape != src2.basetile_shape");
+    }
     // Check dimensions
     if(src1.ndim != dst.ndim+1)
     {
-- 
2.43.0


From bcdf56711394485cc6d556d8e81d982d53bb1ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 23/45] fix: embedding accepted wrong axis and ignored a
 dimension of index

---
 src/tensor/embedding.cc          | 11 ++++++++++-
 src/tensor/embedding_backward.cc | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/tensor/embedding.cc b/src/tensor/embedding.cc
index 68b1d72..7dea561 100644
--- a/src/tensor/embedding.cc
+++ b/src/tensor/embedding.cc
@@ -34,8 +34,17 @@ void embedding_async(const Tensor<Index> &index, const Tensor<T> &vocab,
     {
         throw std::runtime_error("vocab.ndim != 2");
     }
+    // Check axis
+    if(axis < 0)
+    {
+        throw std::runtime_error("axis < 0");
+    }
+    if(axis >= embed.ndim)
+    {
+        throw std::runtime_error("axis >= embed.ndim");
+    }
     // Check shapes
-    for(Index i = 0; i < axis-1; ++i)
+    for(Index i = 0; i < axis; ++i)
     {
         if(index.shape[i] != embed.shape[i])
         {
diff --git a/src/tensor/embedding_backward.cc b/src/tensor/embedding_backward.cc
index 16bf469..a00228f 100644
--- a/src/tensor/embedding_backward.cc
+++ b/src/tensor/embedding_backward.cc
@@ -33,8 +33,17 @@ void embedding_backward_async(const Tensor<Index> &index,
     {
         throw std::runtime_error("vocab.ndim != 2");
     }
+    // Check axis
+    if(axis < 0)
+    {
+        throw std::runtime_error("axis < 0");
+    }
+    if(axis >= embed.ndim)
+    {
+        throw std::runtime_error("axis >= embed.ndim");
+    }
     // Check shapes
-    for(Index i = 0; i < axis-1; ++i)
+    for(Index i = 0; i < axis; ++i)
     {
         if(index.shape[i] != embed.shape[i])
         {
-- 
2.43.0


From 2fa20e9dd229d79fc8b7722ecb6ab9524a026239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:32 +0000
Subject: [PATCH 24/45] fix: host memory allocation for task arguments was not
 checked

---
 include/nntile/tensor/tensor.hh                          | 5 +++++
 src/starpu/adam_step.cc                                  | 5 +++++
 src/starpu/adamw_step.cc                                 | 5 +++++
 src/starpu/add.cc                                        | 5 +++++
 src/starpu/add_fiber.cc                                  | 5 +++++
 src/starpu/add_scalar.cc                                 | 5 +++++
 src/starpu/add_slice.cc                                  | 5 +++++
 src/starpu/add_slice3.cc                                 | 5 +++++
 src/starpu/addcdiv.cc                                    | 5 +++++
 src/starpu/embedding.cc                                  | 5 +++++
 src/starpu/embedding_backward.cc                         | 5 +++++
 src/starpu/fill.cc                                       | 5 +++++
 src/starpu/flash_maxsumexp.cc.in                         | 5 +++++
 src/starpu/flash_softmax_gemm.cc.in                      | 5 +++++
 src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in       | 5 +++++
 .../flash_softmax_gemm_backward_sumprod_slice.cc.in      | 5 +++++
 src/starpu/gelu_backward.cc                              | 9 +++++++++
 src/starpu/gelutanh.cc                                   | 5 +++++
 src/starpu/gelutanh_backward.cc                          | 9 +++++++++
 src/starpu/hypot.cc                                      | 5 +++++
 src/starpu/hypot_scalar_inverse.cc                       | 5 +++++
 src/starpu/logsumexp.cc                                  | 5 +++++
 src/starpu/mask_scalar.cc                                | 5 +++++
 src/starpu/maxsumexp.cc                                  | 5 +++++
 src/starpu/norm_slice.cc                                 | 5 +++++
 src/starpu/pow.cc                                        | 5 +++++
 src/starpu/prod_fiber.cc                                 | 5 +++++
 src/starpu/prod_fiber3.cc                                | 5 +++++
 src/starpu/prod_slice.cc                                 | 5 +++++
 src/starpu/relu_backward.cc                              | 9 +++++++++
 src/starpu/scal.cc                                       | 5 +++++
 src/starpu/scal_inplace.cc.in                            | 5 +++++
 src/starpu/softmax.cc                                    | 5 +++++
 src/starpu/softmax_inplace.cc                            | 5 +++++
 src/starpu/sqrt.cc                                       | 5 +++++
 src/starpu/sqrt_inplace.cc                               | 5 +++++
 src/starpu/subtract_indexed_outputs.cc                   | 5 +++++
 src/starpu/sum_fiber.cc                                  | 5 +++++
 src/starpu/sum_slice.cc                                  | 5 +++++
 src/starpu/sumprod_fiber.cc                              | 5 +++++
 src/starpu/sumprod_slice.cc                              | 5 +++++
 src/starpu/total_sum_accum.cc                            | 5 +++++
 src/starpu/transpose.cc                                  | 5 +++++
 43 files changed, 227 insertions(+)

diff --git a/include/nntile/tensor/tensor.hh b/include/nntile/tensor/tensor.hh
index 94d369d..1865e48 100644
--- a/include/nntile/tensor/tensor.hh
+++ b/include/nntile/tensor/tensor.hh
@@ -15,6 +15,7 @@
 #pragma once
 
 #include <cstdlib>
+#include <new>
 #include <nntile/tensor/traits.hh>
 #include <nntile/tile/tile.hh>
 //#include <starpu_mpi.h>
@@ -203,6 +204,10 @@ public:
         }
         auto handle = static_cast<starpu_data_handle_t>(get_tile_handle(0));
         void **args = reinterpret_cast<void **>(std::malloc(sizeof(*args)));
+        if(args == nullptr)
+        {
+            throw std::bad_alloc();
+        }
         *args = reinterpret_cast<void *>(handle);
         int ret = starpu_data_acquire_cb(handle, STARPU_R,
                 reinterpret_cast<void (*)(void *)>(&_print_scalar_async_helper),
diff --git a/src/starpu/adam_step.cc b/src/starpu/adam_step.cc
index b5b853d..b373094 100644
--- a/src/starpu/adam_step.cc
+++ b/src/starpu/adam_step.cc
@@ -16,6 +16,7 @@
 #include "nntile/starpu/adam_step.hh"
 #include "nntile/kernel/adam_step.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -107,6 +108,10 @@ void submit(Index num_iter, Index num_elems, T beta_1, T beta_2, T eps, T lr, T
 {
     // Codelet arguments
     args_t<T>* args = (args_t<T>*)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->num_iter = num_iter;
     args->num_elems = num_elems;
     args->beta_1 = beta_1;
diff --git a/src/starpu/adamw_step.cc b/src/starpu/adamw_step.cc
index d9335d5..78374fc 100644
--- a/src/starpu/adamw_step.cc
+++ b/src/starpu/adamw_step.cc
@@ -16,6 +16,7 @@
 #include "nntile/starpu/adamw_step.hh"
 #include "nntile/kernel/adamw_step.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -109,6 +110,10 @@ void submit(Index num_iter, Index num_elems, T beta_1, T beta_2, T eps, T lr, T
 {
     // Codelet arguments
     args_t<T>* args = (args_t<T>*)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->num_iter = num_iter;
     args->num_elems = num_elems;
     args->beta_1 = beta_1;
diff --git a/src/starpu/add.cc b/src/starpu/add.cc
index 67326ed..4a5cc21 100644
--- a/src/starpu/add.cc
+++ b/src/starpu/add.cc
@@ -19,6 +19,7 @@
 #include "nntile/starpu/clear.hh"
 #include "nntile/starpu/scal_inplace.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -145,6 +146,10 @@ void submit(Index nelems, T alpha, Handle src, T beta, Handle dst)
     }
     // Codelet arguments
     args_t<T> *args = (args_t<T> *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->nelems = nelems;
     args->alpha = alpha;
     args->beta = beta;
diff --git a/src/starpu/add_fiber.cc b/src/starpu/add_fiber.cc
index b715286..a5af4db 100644
--- a/src/starpu/add_fiber.cc
+++ b/src/starpu/add_fiber.cc
@@ -15,6 +15,7 @@
 #include "nntile/starpu/add_fiber.hh"
 #include "nntile/kernel/add_fiber.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -138,6 +139,10 @@ void submit(Index m, Index n, Index k, Index batch, T alpha, Handle src,
     }
     // Codelet arguments
     args_t<T> *args = (args_t<T> *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->m = m;
     args->n = n;
     args->k = k;
diff --git a/src/starpu/add_scalar.cc b/src/starpu/add_scalar.cc
index 75972ba..63aa14c 100644
--- a/src/starpu/add_scalar.cc
+++ b/src/starpu/add_scalar.cc
@@ -16,6 +16,7 @@
 #include "nntile/starpu/add_scalar.hh"
 #include "nntile/kernel/add_scalar.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -117,6 +118,10 @@ void submit(Index num_elements, T alpha, T beta, Handle dst)
 {
     // Codelet arguments
     args_t<T> *args = (args_t<T> *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->num_elements = num_elements;
     args->alpha = alpha;
     args->beta = beta;
diff --git a/src/starpu/add_slice.cc b/src/starpu/add_slice.cc
index a145fdc..e44c257 100644
--- a/src/starpu/add_slice.cc
+++ b/src/starpu/add_slice.cc
@@ -15,6 +15,7 @@
 #include "nntile/starpu/add_slice.hh"
 #include "nntile/kernel/add_slice.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -136,6 +137,10 @@ void submit(Index m, Index n, Index k, T alpha, Handle src, T beta, Handle dst)
     }
     // Codelet arguments
     args_t<T> *args = (args_t<T> *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->m = m;
     args->n = n;
     args->k = k;
diff --git a/src/starpu/add_slice3.cc b/src/starpu/add_slice3.cc
index c400da1..5b9b726 100644
--- a/src/starpu/add_slice3.cc
+++ b/src/starpu/add_slice3.cc
@@ -15,6 +15,7 @@
 #include "nntile/starpu/add_slice3.hh"
 #include "nntile/kernel/add_slice3.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -124,6 +125,10 @@ void submit(Index m, Index n, Index k, T alpha, Handle src1, T beta,
 {
     // Codelet arguments
     args_t<T> *args = (args_t<T> *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->m = m;
     args->n = n;
     args->k = k;
diff --git a/src/starpu/addcdiv.cc b/src/starpu/addcdiv.cc
index 9ff8341..23aed35 100644
--- a/src/starpu/addcdiv.cc
+++ b/src/starpu/addcdiv.cc
@@ -16,6 +16,7 @@
 #include "nntile/starpu/addcdiv.hh"
 #include "nntile/kernel/addcdiv.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -104,6 +105,10 @@ void submit(T val, T eps, Index nelems, Handle nom, Handle denom, Handle src)
 {
     // Codelet arguments
     args_t<T>* args = (args_t<T>*)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->val = val;
     args->eps = eps;
     args->nelems = nelems;
diff --git a/src/starpu/embedding.cc b/src/starpu/embedding.cc
index de338df..35c2fee 100644
--- a/src/starpu/embedding.cc
+++ b/src/starpu/embedding.cc
@@ -14,6 +14,7 @@
 
 #include "nntile/starpu/embedding.hh"
 #include "nntile/kernel/embedding.hh"
+#include <new>
 
 namespace nntile
 {
@@ -122,6 +123,10 @@ void submit(Index m, Index n, Index k, Index k_start, Index k_size,
 {
     // Codelet arguments
     args_t *args = (args_t *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->m = m;
     args->n = n;
     args->k = k;
diff --git a/src/starpu/embedding_backward.cc b/src/starpu/embedding_backward.cc
index 1338655..ffb5277 100644
--- a/src/starpu/embedding_backward.cc
+++ b/src/starpu/embedding_backward.cc
@@ -14,6 +14,7 @@
 
 #include "nntile/starpu/embedding_backward.hh"
 #include "nntile/kernel/embedding_backward.hh"
+#include <new>
 
 namespace nntile
 {
@@ -122,6 +123,10 @@ void submit(Index m, Index n, Index k, Index k_start, Index k_size,
 {
     // Codelet arguments
     args_t *args = (args_t *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->m = m;
     args->n = n;
     args->k = k;
diff --git a/src/starpu/fill.cc b/src/starpu/fill.cc
index 0682317..f4984b0 100644
--- a/src/starpu/fill.cc
+++ b/src/starpu/fill.cc
@@ -14,6 +14,7 @@
 
 #include "nntile/starpu/fill.hh"
 #include "nntile/kernel/fill.hh"
+#include <new>
 
 namespace nntile
 {
@@ -100,6 +101,10 @@ void submit(Index nelems, T val, Handle data)
 {
     // Codelet arguments
     args_t<T> *args = (args_t<T> *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->nelems = nelems;
     args->val = val;
     // Submit task
diff --git a/src/starpu/flash_maxsumexp.cc.in b/src/starpu/flash_maxsumexp.cc.in
index 15d89f2..d88692a 100644
--- a/src/starpu/flash_maxsumexp.cc.in
+++ b/src/starpu/flash_maxsumexp.cc.in
@@ -16,6 +16,7 @@
 #include "nntile/kernel/maxsumexp.hh"
 #include "nntile/kernel/mask_scalar.hh"
 #include <cstdlib>
+#include <new>
 #include <cmath>
 #include <limits>
 
@@ -292,6 +293,10 @@ void submit(Index seq, Index head, Index batch, Handle K, Handle Q,
 {
     // Codelet arguments
     args_t *args = (args_t *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->seq = seq;
     args->head = head;
     args->batch = batch;
diff --git a/src/starpu/flash_softmax_gemm.cc.in b/src/starpu/flash_softmax_gemm.cc.in
index d1bf461..849aa83 100644
--- a/src/starpu/flash_softmax_gemm.cc.in
+++ b/src/starpu/flash_softmax_gemm.cc.in
@@ -16,6 +16,7 @@
 #include "nntile/kernel/mask_scalar.hh"
 #include "nntile/kernel/softmax_inplace.hh"
 #include <cstdlib>
+#include <new>
 #include <cmath>
 #include <limits>
 
@@ -324,6 +325,10 @@ void submit(Index seq, Index head, Index batch, Handle K, Handle Q,
 {
     // Codelet arguments
     args_t *args = (args_t *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->seq = seq;
     args->head = head;
     args->batch = batch;
diff --git a/src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in b/src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in
index 33765bd..50fb1f9 100644
--- a/src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in
+++ b/src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in
@@ -18,6 +18,7 @@
 #include "nntile/kernel/add_slice.hh"
 #include "nntile/kernel/prod.hh"
 #include <cstdlib>
+#include <new>
 #include <cmath>
 #include <limits>
 
@@ -396,6 +397,10 @@ void submit(Index seq, Index head, Index batch, Handle K, Handle Q,
 {
     // Codelet arguments
     args_t *args = (args_t *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->seq = seq;
     args->head = head;
     args->batch = batch;
diff --git a/src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in b/src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in
index e206436..9c370e1 100644
--- a/src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in
+++ b/src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in
@@ -17,6 +17,7 @@
 #include "nntile/kernel/softmax_inplace.hh"
 #include "nntile/kernel/sumprod_slice.hh"
 #include <cstdlib>
+#include <new>
 #include <cmath>
 #include <limits>
 
@@ -367,6 +368,10 @@ void submit(Index seq, Index head, Index batch, Handle K, Handle Q,
 {
     // Codelet arguments
     args_t *args = (args_t *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->seq = seq;
     args->head = head;
     args->batch = batch;
diff --git a/src/starpu/gelu_backward.cc b/src/starpu/gelu_backward.cc
index 36cfb1b..09d0a9e 100644
--- a/src/starpu/gelu_backward.cc
+++ b/src/starpu/gelu_backward.cc
@@ -16,6 +16,7 @@
 #include "nntile/starpu/gelu_backward.hh"
 #include "nntile/kernel/gelu_backward.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -100,6 +101,10 @@ template<typename T>
 void submit(Index nelems, Handle x, Handle dy, Handle dx)
 {
     Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
+    if(nelems_ == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     *nelems_ = nelems;
     int ret = starpu_task_insert(codelet<T>(),
             STARPU_R, static_cast<starpu_data_handle_t>(x),
@@ -136,6 +141,10 @@ void submit_mpi(Index nelems, Handle x, Handle dy, Handle dx, int exec_rank)
     {
         // Define codelet arguments
         Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
+        if(nelems_ == nullptr)
+        {
+            throw std::bad_alloc();
+        }
         task->cl_arg = nelems_;
         task->cl_arg_size = sizeof(*nelems_);
         task->cl_arg_free = 1;
diff --git a/src/starpu/gelutanh.cc b/src/starpu/gelutanh.cc
index 323ef86..f18cb2a 100644
--- a/src/starpu/gelutanh.cc
+++ b/src/starpu/gelutanh.cc
@@ -15,6 +15,7 @@
 #include "nntile/starpu/gelutanh.hh"
 #include "nntile/kernel/gelutanh.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -98,6 +99,10 @@ void submit(Index nelems, Handle src, Handle dst)
 {
     // Codelet arguments
     Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
+    if(nelems_ == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     *nelems_ = nelems;
     //fp64_t nflops = 5 * nelems;
     int ret = starpu_task_insert(codelet<T>(),
diff --git a/src/starpu/gelutanh_backward.cc b/src/starpu/gelutanh_backward.cc
index a2894ad..2e9f577 100644
--- a/src/starpu/gelutanh_backward.cc
+++ b/src/starpu/gelutanh_backward.cc
@@ -16,6 +16,7 @@
 #include "nntile/starpu/gelutanh_backward.hh"
 #include "nntile/kernel/gelutanh_backward.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -100,6 +101,10 @@ template<typename T>
 void submit(Index nelems, Handle x, Handle dy, Handle dx)
 {
     Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
+    if(nelems_ == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     *nelems_ = nelems;
     int ret = starpu_task_insert(codelet<T>(),
             STARPU_R, static_cast<starpu_data_handle_t>(x),
@@ -136,6 +141,10 @@ void submit_mpi(Index nelems, Handle x, Handle dy, Handle dx, int exec_rank)
     {
         // Define codelet arguments
         Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
+        if(nelems_ == nullptr)
+        {
+            throw std::bad_alloc();
+        }
         task->cl_arg = nelems_;
         task->cl_arg_size = sizeof(*nelems_);
         task->cl_arg_free = 1;
diff --git a/src/starpu/hypot.cc b/src/starpu/hypot.cc
index e6341cf..fcda160 100644
--- a/src/starpu/hypot.cc
+++ b/src/starpu/hypot.cc
@@ -18,6 +18,7 @@
 #include "nntile/starpu/clear.hh"
 #include "nntile/starpu/scal_inplace.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -138,6 +139,10 @@ void submit(Index nelems, T alpha, Handle src, T beta, Handle dst)
     }
     // Codelet arguments
     args_t<T> *args = (args_t<T> *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->nelems = nelems;
     args->alpha = alpha;
     args->beta = beta;
diff --git a/src/starpu/hypot_scalar_inverse.cc b/src/starpu/hypot_scalar_inverse.cc
index 62f153d..5d6daaa 100644
--- a/src/starpu/hypot_scalar_inverse.cc
+++ b/src/starpu/hypot_scalar_inverse.cc
@@ -15,6 +15,7 @@
 #include "nntile/starpu/hypot_scalar_inverse.hh"
 #include "nntile/kernel/hypot_scalar_inverse.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -104,6 +105,10 @@ void submit(Index nelems, T eps, T alpha, Handle dst)
 {
     // Codelet arguments
     args_t<T> *args = (args_t<T> *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->nelems = nelems;
     args->eps = eps;
     args->alpha = alpha;
diff --git a/src/starpu/logsumexp.cc b/src/starpu/logsumexp.cc
index b59dcba..5d4a74e 100644
--- a/src/starpu/logsumexp.cc
+++ b/src/starpu/logsumexp.cc
@@ -16,6 +16,7 @@
 #include "nntile/starpu/logsumexp.hh"
 #include "nntile/kernel/logsumexp.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -102,6 +103,10 @@ void submit(Index nelems, Handle maxsumexp, Handle logsumexp)
 {
     // Codelet arguments
     Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
+    if(nelems_ == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     *nelems_ = nelems;
     // Submit task
     int ret = starpu_task_insert(codelet<T>(),
diff --git a/src/starpu/mask_scalar.cc b/src/starpu/mask_scalar.cc
index 880b2df..ec02121 100644
--- a/src/starpu/mask_scalar.cc
+++ b/src/starpu/mask_scalar.cc
@@ -15,6 +15,7 @@
 
 #include "nntile/starpu/mask_scalar.hh"
 #include "nntile/kernel/mask_scalar.hh"
+#include <new>
 
 namespace nntile
 {
@@ -119,6 +120,10 @@ void submit(Index nrows, Index ncols, Handle mask, T val, Handle data)
 {
     // Codelet arguments
     args_t<T> *args = (args_t<T> *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->nrows = nrows;
     args->ncols = ncols;
     args->val = val;
diff --git a/src/starpu/maxsumexp.cc b/src/starpu/maxsumexp.cc
index 52f281f..d6f9e7f 100644
--- a/src/starpu/maxsumexp.cc
+++ b/src/starpu/maxsumexp.cc
@@ -15,6 +15,7 @@
 #include "nntile/starpu/maxsumexp.hh"
 #include "nntile/kernel/maxsumexp.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -119,6 +120,10 @@ void submit(Index m, Index n, Index k, Handle src, Handle dst, int redux)
 {
     // Codelet arguments
     args_t *args = (args_t *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->m = m;
     args->n = n;
     args->k = k;
diff --git a/src/starpu/norm_slice.cc b/src/starpu/norm_slice.cc
index 53dc18f..08dfb18 100644
--- a/src/starpu/norm_slice.cc
+++ b/src/starpu/norm_slice.cc
@@ -15,6 +15,7 @@
 #include "nntile/starpu/norm_slice.hh"
 #include "nntile/kernel/norm_slice.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -145,6 +146,10 @@ void submit(Index m, Index n, Index k, T alpha, Handle src, T beta,
     }
     // Codelet arguments
     args_t<T> *args = (args_t<T> *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->m = m;
     args->n = n;
     args->k = k;
diff --git a/src/starpu/pow.cc b/src/starpu/pow.cc
index c505554..2aa3b43 100644
--- a/src/starpu/pow.cc
+++ b/src/starpu/pow.cc
@@ -15,6 +15,7 @@
 #include "nntile/starpu/pow.hh"
 #include "nntile/kernel/pow.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -101,6 +102,10 @@ void submit(Index nelems, T alpha, T exp, Handle data)
 {
     // Codelet arguments
     args_t<T> *args = (args_t<T> *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->nelems = nelems;
     args->alpha = alpha;
     args->exp = exp;
diff --git a/src/starpu/prod_fiber.cc b/src/starpu/prod_fiber.cc
index 66f1603..68ed1bf 100644
--- a/src/starpu/prod_fiber.cc
+++ b/src/starpu/prod_fiber.cc
@@ -15,6 +15,7 @@
 #include "nntile/starpu/prod_fiber.hh"
 #include "nntile/kernel/prod_fiber.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -121,6 +122,10 @@ void submit(Index m, Index n, Index k, T alpha, Handle src, Handle dst)
 {
     // Codelet arguments
     args_t<T> *args = (args_t<T> *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->m = m;
     args->n = n;
     args->k = k;
diff --git a/src/starpu/prod_fiber3.cc b/src/starpu/prod_fiber3.cc
index d87a29a..4bdc93b 100644
--- a/src/starpu/prod_fiber3.cc
+++ b/src/starpu/prod_fiber3.cc
@@ -15,6 +15,7 @@
 #include "nntile/starpu/prod_fiber3.hh"
 #include "nntile/kernel/prod_fiber3.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -124,6 +125,10 @@ void submit(Index m, Index n, Index k, T alpha, Handle src1, Handle src2,
 {
     // Codelet arguments
     args_t<T> *args = (args_t<T> *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->m = m;
     args->n = n;
     args->k = k;
diff --git a/src/starpu/prod_slice.cc b/src/starpu/prod_slice.cc
index 01723f0..aa3b599 100644
--- a/src/starpu/prod_slice.cc
+++ b/src/starpu/prod_slice.cc
@@ -15,6 +15,7 @@
 #include "nntile/starpu/prod_slice.hh"
 #include "nntile/kernel/prod_slice.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -121,6 +122,10 @@ void submit(Index m, Index n, Index k, T alpha, Handle src, Handle dst)
 {
     // Codelet arguments
     args_t<T> *args = (args_t<T> *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->m = m;
     args->n = n;
     args->k = k;
diff --git a/src/starpu/relu_backward.cc b/src/starpu/relu_backward.cc
index a73909b..97c38f6 100644
--- a/src/starpu/relu_backward.cc
+++ b/src/starpu/relu_backward.cc
@@ -15,6 +15,7 @@
 #include "nntile/starpu/relu_backward.hh"
 #include "nntile/kernel/relu_backward.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -99,6 +100,10 @@ template<typename T>
 void submit(Index nelems, Handle x, Handle dy, Handle dx)
 {
     Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
+    if(nelems_ == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     *nelems_ = nelems;
     int ret = starpu_task_insert(codelet<T>(),
             STARPU_R, static_cast<starpu_data_handle_t>(x),
@@ -142,6 +147,10 @@ void submit_mpi(Index nelems, Handle x, Handle dy, Handle dx, int exec_rank)
     {
         // Define codelet arguments
         Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
+        if(nelems_ == nullptr)
+        {
+            throw std::bad_alloc();
+        }
         task->cl_arg = nelems_;
         task->cl_arg_size = sizeof(*nelems_);
         task->cl_arg_free = 1;
diff --git a/src/starpu/scal.cc b/src/starpu/scal.cc
index 2890ecc..132dae7 100644
--- a/src/starpu/scal.cc
+++ b/src/starpu/scal.cc
@@ -16,6 +16,7 @@
 #include "nntile/kernel/scal.hh"
 #include "nntile/starpu/clear.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -112,6 +113,10 @@ void submit(Index nelems, T alpha, Handle src, Handle dst)
     }
     // Codelet arguments
     args_t<T> *args = (args_t<T> *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->nelems = nelems;
     args->alpha = alpha;
     // Submit task
diff --git a/src/starpu/scal_inplace.cc.in b/src/starpu/scal_inplace.cc.in
index 67e6133..b658cbc 100644
--- a/src/starpu/scal_inplace.cc.in
+++ b/src/starpu/scal_inplace.cc.in
@@ -14,6 +14,7 @@
 
 #include "nntile/starpu/scal_inplace.hh"
 #include <cstdlib>
+#include <new>
 
 #ifdef NNTILE_USE_CBLAS
 #   include <@CBLAS_H_NAME@>
@@ -167,6 +168,10 @@ void submit(T alpha, Index nelems, Handle data)
 #endif // NNTILE_USE_CUDA
     // Codelet arguments
     args_t<T> *cl_args = (args_t<T> *)malloc(sizeof(*cl_args));
+    if(cl_args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     cl_args->nelems = nelems;
     cl_args->alpha = alpha;
     // Submit task
diff --git a/src/starpu/softmax.cc b/src/starpu/softmax.cc
index 815069a..ca6990a 100644
--- a/src/starpu/softmax.cc
+++ b/src/starpu/softmax.cc
@@ -15,6 +15,7 @@
 #include "nntile/starpu/softmax.hh"
 #include "nntile/kernel/softmax.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -125,6 +126,10 @@ void submit(Index m, Index n, Index k, Handle maxsumexp, Handle src, T alpha,
 {
     // Codelet arguments
     args_t<T> *args = (args_t<T> *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->m = m;
     args->n = n;
     args->k = k;
diff --git a/src/starpu/softmax_inplace.cc b/src/starpu/softmax_inplace.cc
index 7d0e740..7702019 100644
--- a/src/starpu/softmax_inplace.cc
+++ b/src/starpu/softmax_inplace.cc
@@ -14,6 +14,7 @@
 
 #include "nntile/starpu/softmax_inplace.hh"
 #include "nntile/kernel/softmax_inplace.hh"
+#include <new>
 
 namespace nntile
 {
@@ -121,6 +122,10 @@ void submit(Index m, Index n, Index k, Handle maxsumexp, T alpha, Handle dst)
 {
     // Codelet arguments
     args_t<T> *args = (args_t<T> *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->m = m;
     args->n = n;
     args->k = k;
diff --git a/src/starpu/sqrt.cc b/src/starpu/sqrt.cc
index 470dda3..39976c8 100644
--- a/src/starpu/sqrt.cc
+++ b/src/starpu/sqrt.cc
@@ -16,6 +16,7 @@
 #include "nntile/starpu/sqrt.hh"
 #include "nntile/kernel/sqrt.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -99,6 +100,10 @@ void submit(Index nelems, Handle src, Handle dst)
 {
     // Codelet arguments
     Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
+    if(nelems_ == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     *nelems_ = nelems;
     //fp64_t nflops = 5 * nelems;
     // Submit task
diff --git a/src/starpu/sqrt_inplace.cc b/src/starpu/sqrt_inplace.cc
index f3d45a8..e8b8311 100644
--- a/src/starpu/sqrt_inplace.cc
+++ b/src/starpu/sqrt_inplace.cc
@@ -16,6 +16,7 @@
 #include "nntile/starpu/sqrt_inplace.hh"
 #include "nntile/kernel/sqrt_inplace.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -97,6 +98,10 @@ void submit(Index nelems, Handle data)
 {
     // Codelet arguments
     Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
+    if(nelems_ == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     *nelems_ = nelems;
     //fp64_t nflops = 5 * nelems;
     // Submit task
diff --git a/src/starpu/subtract_indexed_outputs.cc b/src/starpu/subtract_indexed_outputs.cc
index f7402e7..72c6828 100644
--- a/src/starpu/subtract_indexed_outputs.cc
+++ b/src/starpu/subtract_indexed_outputs.cc
@@ -15,6 +15,7 @@
 
 #include "nntile/starpu/subtract_indexed_outputs.hh"
 #include "nntile/kernel/subtract_indexed_outputs.hh"
+#include <new>
 
 namespace nntile
 {
@@ -121,6 +122,10 @@ void submit(Index n_labels, Index n_outputs, T val, Handle labels, Handle dst)
 {
     // Codelet arguments
     args_t<T>* args = (args_t<T>*)malloc(sizeof(args_t<T>));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->n_labels = n_labels;
     args->n_outputs = n_outputs;
     args->value = val;
diff --git a/src/starpu/sum_fiber.cc b/src/starpu/sum_fiber.cc
index 0a23f4c..b8344c0 100644
--- a/src/starpu/sum_fiber.cc
+++ b/src/starpu/sum_fiber.cc
@@ -15,6 +15,7 @@
 #include "nntile/starpu/sum_fiber.hh"
 #include "nntile/kernel/sum_fiber.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -145,6 +146,10 @@ void submit(Index m, Index n, Index k, Index batch, T alpha, Handle src,
     }
     // Codelet arguments
     args_t<T> *args = (args_t<T> *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->m = m;
     args->n = n;
     args->k = k;
diff --git a/src/starpu/sum_slice.cc b/src/starpu/sum_slice.cc
index f143dfc..a4eab72 100644
--- a/src/starpu/sum_slice.cc
+++ b/src/starpu/sum_slice.cc
@@ -16,6 +16,7 @@
 #include "nntile/starpu/sum_slice.hh"
 #include "nntile/kernel/sum_slice.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -145,6 +146,10 @@ void submit(Index m, Index n, Index k, T alpha, Handle src, T beta,
     }
     // Codelet arguments
     args_t<T> *args = (args_t<T> *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->m = m;
     args->n = n;
     args->k = k;
diff --git a/src/starpu/sumprod_fiber.cc b/src/starpu/sumprod_fiber.cc
index 46d5dbc..2e2ada2 100644
--- a/src/starpu/sumprod_fiber.cc
+++ b/src/starpu/sumprod_fiber.cc
@@ -15,6 +15,7 @@
 #include "nntile/starpu/sumprod_fiber.hh"
 #include "nntile/kernel/sumprod_fiber.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -147,6 +148,10 @@ void submit(Index m, Index n, Index k, T alpha, Handle src1, Handle src2,
     }
     // Codelet arguments
     args_t<T> *args = (args_t<T> *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->m = m;
     args->n = n;
     args->k = k;
diff --git a/src/starpu/sumprod_slice.cc b/src/starpu/sumprod_slice.cc
index e7cd039..bdb0235 100644
--- a/src/starpu/sumprod_slice.cc
+++ b/src/starpu/sumprod_slice.cc
@@ -15,6 +15,7 @@
 #include "nntile/starpu/sumprod_slice.hh"
 #include "nntile/kernel/sumprod_slice.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -146,6 +147,10 @@ void submit(Index m, Index n, Index k, T alpha, Handle src1, Handle src2,
     }
     // Codelet arguments
     args_t<T> *args = (args_t<T> *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->m = m;
     args->n = n;
     args->k = k;
diff --git a/src/starpu/total_sum_accum.cc b/src/starpu/total_sum_accum.cc
index 24d6e0d..f94ad2c 100644
--- a/src/starpu/total_sum_accum.cc
+++ b/src/starpu/total_sum_accum.cc
@@ -15,6 +15,7 @@
 
 #include "nntile/starpu/total_sum_accum.hh"
 #include "nntile/kernel/total_sum_accum.hh"
+#include <new>
 
 namespace nntile
 {
@@ -126,6 +127,10 @@ void submit(T alpha, Index n_labels, Index n_outputs, Handle logsumexp, Handle s
 {
     // Codelet arguments
     args_t<T> *args = (args_t<T> *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->alpha = alpha;
     args->n_labels = n_labels;
     args->n_outputs = n_outputs;
diff --git a/src/starpu/transpose.cc b/src/starpu/transpose.cc
index ba7c288..2fc5326 100644
--- a/src/starpu/transpose.cc
+++ b/src/starpu/transpose.cc
@@ -15,6 +15,7 @@
 #include "nntile/starpu/transpose.hh"
 #include "nntile/kernel/transpose.hh"
 #include <cstdlib>
+#include <new>
 
 namespace nntile
 {
@@ -118,6 +119,10 @@ void submit(Index m, Index n, T alpha, Handle src, Handle dst)
 {
     // Codelet arguments
     args_t<T> *args = (args_t<T> *)std::malloc(sizeof(*args));
+    if(args == nullptr)
+    {
+        throw std::bad_alloc();
+    }
     args->m = m;
     args->n = n;
     args->alpha = alpha;
-- 
2.43.0


From 7ce91c38c04d17378556d5aaeb498835173bca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 25/45] fix: asynchronous tile randn waited for its own task

---
 src/tile/randn.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tile/randn.cc b/src/tile/randn.cc
index 1a00eb3..0696def 100644
--- a/src/tile/randn.cc
+++ b/src/tile/randn.cc
@@ -64,8 +64,8 @@ void randn_async(const Tile<T> &dst, const std::vector<Index> &start,
     }
     if(ndim != 0)
     {
-        // Temporary index
-        starpu::VariableHandle tmp_index(sizeof(Index)*2*ndim, STARPU_R);
+        // Temporary index, released once the task is done
+        starpu::VariableHandle tmp_index(sizeof(Index)*2*ndim, STARPU_SCRATCH);
         // Insert task
         starpu::randn::submit<T>(ndim, dst.nelems, seed, mean, stddev, start,
                 dst.shape, dst.stride, underlying_shape, dst, tmp_index);
-- 
2.43.0


From a03a14b5fb959e2c6582e447906e7853822ad8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 26/45] fix: tile sqrt, gelutanh and mask_scalar did not check
 shapes

---
 src/tile/gelutanh.cc    |  7 ++++++-
 src/tile/mask_scalar.cc | 19 ++++++++++++++++++-
 src/tile/sqrt.cc        |  7 ++++++-
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/tile/gelutanh.cc b/src/tile/gelutanh.cc
index cb64aaa..20ae339 100644
--- a/src/tile/gelutanh.cc
+++ b/src/tile/gelutanh.cc
@@ -26,7 +26,12 @@ namespace tile
 template<typename T>
 void gelutanh_async(const Tile<T> &src, const Tile<T> &dst)
 {
-    // Submit task without any arguments checked
+    // Check shapes
+    if(src.shape != dst.shape)
+    {
+        throw std::runtime_error("src.shape != dst.shape");
+    }
+    // Submit task
     starpu::gelutanh::submit<T>(src.nelems, src, dst);
 }
 
diff --git a/src/tile/mask_scalar.cc b/src/tile/mask_scalar.cc
index a67a41f..86168ee 100644
--- a/src/tile/mask_scalar.cc
+++ b/src/tile/mask_scalar.cc
@@ -27,7 +27,24 @@ namespace tile
 template<typename T>
 void mask_scalar_async(const Tile<bool_t> &mask, T val, const Tile<T> &A)
 {
-    // Submit task without any arguments checked
+    // Check dimensions
+    if(A.ndim == 0)
+    {
+        throw std::runtime_error("A.ndim == 0");
+    }
+    if(mask.ndim != A.ndim-1)
+    {
+        throw std::runtime_error("mask.ndim != A.ndim-1");
+    }
+    // Check shapes
+    for(Index i = 0; i < mask.ndim; ++i)
+    {
+        if(mask.shape[i] != A.shape[i])
+        {
+            throw std::runtime_error("mask.shape[i] != A.shape[i]");
+        }
+    }
+    // Submit task
     starpu::mask_scalar::submit<T>(A.matrix_shape[A.ndim-1][0],
             A.shape[A.ndim-1], mask, val, A);
 }
diff --git a/src/tile/sqrt.cc b/src/tile/sqrt.cc
index ee2713e..b8a5a6a 100644
--- a/src/tile/sqrt.cc
+++ b/src/tile/sqrt.cc
@@ -27,7 +27,12 @@ namespace tile
 template<typename T>
 void sqrt_async(const Tile<T> &src, const Tile<T> &dst)
 {
-    // Submit task without any arguments checked
+    // Check shapes
+    if(src.shape != dst.shape)
+    {
+        throw std::runtime_error("src.shape != dst.shape");
+    }
+    // Submit task
     starpu::sqrt::submit<T>(src.nelems, src, dst);
 }
 
-- 
2.43.0


From 34bd476d009c8fd33f28fc836ab4033a0dfc99e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:06 +0000
Subject: [PATCH 27/45] fix: layer norm and embedding accumulated gradients of
 parameters that do not require them

---
 wrappers/python/nntile/layer/embedding.py  | 12 +++++++-----
 wrappers/python/nntile/layer/layer_norm.py | 18 ++++++++++--------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/wrappers/python/nntile/layer/embedding.py b/wrappers/python/nntile/layer/embedding.py
index f53eead..dc46791 100644
--- a/wrappers/python/nntile/layer/embedding.py
+++ b/wrappers/python/nntile/layer/embedding.py
@@ -79,11 +79,13 @@ class Embedding(BaseLayer):
 
     # Backward propagation of the embedding layer
     def backward_async(self):
-        # redux=1 leads to performance loss, as each embedding_backward is a
-        # sparse operation, but reduction plays with a full dense vocabulary
-        embedding_backward_async(self.x, self.y.grad, self.w.grad, self.axis, \
-                redux=0)
+        if self.w.grad_required:
+            # redux=1 leads to performance loss, as each embedding_backward is
+            # a sparse operation, but reduction plays with a full dense
+            # vocabulary
+            embedding_backward_async(self.x, self.y.grad, self.w.grad, \
+                    self.axis, redux=0)
+            self.w.grad.wont_use()
         self.x.wont_use()
         self.y.grad.wont_use()
-        self.w.grad.wont_use()
 
diff --git a/wrappers/python/nntile/layer/layer_norm.py b/wrappers/python/nntile/layer/layer_norm.py
index d51d6f8..a729a39 100644
--- a/wrappers/python/nntile/layer/layer_norm.py
+++ b/wrappers/python/nntile/layer/layer_norm.py
@@ -169,15 +169,17 @@ class LayerNorm(BaseLayer):
     # Backward propagation of the normalization layer
     def backward_async(self):
         # Accumulate gradient over beta
-        sum_fiber_async(1.0, self.y.grad, 1.0, self.beta.grad, self.axis, 0,
-                redux=self.redux)
-        # d_beta can be offloaded from GPU
-        self.beta.grad.wont_use()
+        if self.beta.grad_required:
+            sum_fiber_async(1.0, self.y.grad, 1.0, self.beta.grad, \
+                    self.axis, 0, redux=self.redux)
+            # d_beta can be offloaded from GPU
+            self.beta.grad.wont_use()
         # Accumulate gradient over gamma
-        sumprod_fiber_async(1.0, self.y.grad, self.tmp_y_value, 1.0, \
-                self.gamma.grad, self.axis, redux=self.redux)
-        # d_gamma can be offloaded from GPU
-        self.gamma.grad.wont_use()
+        if self.gamma.grad_required:
+            sumprod_fiber_async(1.0, self.y.grad, self.tmp_y_value, 1.0, \
+                    self.gamma.grad, self.axis, redux=self.redux)
+            # d_gamma can be offloaded from GPU
+            self.gamma.grad.wont_use()
         # Define gradient over normalized input
         prod_fiber3_async(self.gamma.value, 1.0, self.y.grad, \
                 self.tmp_y_grad, self.axis)
-- 
2.43.0


From 5a1020809392696147b37fd0a571960a2559049a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:44 +0000
Subject: [PATCH 28/45] fix: Config::shutdown followed by destruction shut
 StarPU down twice and aborted

---
 include/nntile/starpu/config.hh | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/nntile/starpu/config.hh b/include/nntile/starpu/config.hh
index 3d7b619..750fc7b 100644
--- a/include/nntile/starpu/config.hh
+++ b/include/nntile/starpu/config.hh
@@ -57,6 +57,8 @@ namespace starpu
 class Config: public starpu_conf
 {
     int cublas;
+    //! Whether StarPU, started by this object, is yet to be shut down
+    bool is_running = false;
 public:
     explicit Config(int ncpus_=-1, int ncuda_=-1, int cublas_=-1)
     {
@@ -86,6 +88,7 @@ public:
         }
         else
         {
+            is_running = true;
             int ncpus_ = starpu_worker_get_count_by_type(STARPU_CPU_WORKER);
             int ncuda_ = starpu_worker_get_count_by_type(STARPU_CUDA_WORKER);
             std::cout << "Initialized NCPU=" << ncpus_ << " NCUDA=" << ncuda_
@@ -105,6 +108,12 @@ public:
     }
     void shutdown()
     {
+        // Do nothing if it is already shut down
+        if(!is_running)
+        {
+            return;
+        }
+        is_running = false;
 #ifdef NNTILE_USE_CUDA
         if(cublas != 0)
         {
-- 
2.43.0


From 576c5cad99e36ddd411b8b916035146fe3e7de08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:34 +0000
Subject: [PATCH 29/45] fix: data dropped after StarPU was shut down aborted
 the process

---
 include/nntile/starpu/config.hh | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/nntile/starpu/config.hh b/include/nntile/starpu/config.hh
index 750fc7b..d9917d1 100644
--- a/include/nntile/starpu/config.hh
+++ b/include/nntile/starpu/config.hh
@@ -186,7 +186,11 @@ class Handle
         // All the tasks using given starpu data handle shall be finished
         // before unregistering the handle
         //std::cerr << "[nntile] unregister\n";
-        starpu_data_unregister(ptr);
+        // Nothing is left to unregister from, if StarPU is already shut down
+        if(starpu_is_initialized())
+        {
+            starpu_data_unregister(ptr);
+        }
     }
     static void _deleter_no_coherency(starpu_data_handle_t ptr)
     {
@@ -194,7 +198,11 @@ class Handle
         // All the tasks using given starpu data handle shall be finished
         // before unregistering the handle
         //std::cerr << "[nntile] unregister_no_coherency\n";
-        starpu_data_unregister_no_coherency(ptr);
+        // Nothing is left to unregister from, if StarPU is already shut down
+        if(starpu_is_initialized())
+        {
+            starpu_data_unregister_no_coherency(ptr);
+        }
     }
     static void _deleter_temporary(starpu_data_handle_t ptr)
     {
@@ -203,7 +211,11 @@ class Handle
         // starpu as it will be deallocated during actual unregistering and at
         // the time of submission.
         //std::cerr << "[nntile] unregister_submit\n";
-        starpu_data_unregister_submit(ptr);
+        // Nothing is left to unregister from, if StarPU is already shut down
+        if(starpu_is_initialized())
+        {
+            starpu_data_unregister_submit(ptr);
+        }
     }
     static std::shared_ptr<_starpu_data_state> _get_shared_ptr(
             starpu_data_handle_t ptr, starpu_data_access_mode mode)
-- 
2.43.0


From 4546cad5fdc37c64988f156b966fa443756ce461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:24 +0000
Subject: [PATCH 30/45] fix: to_array into an array of other layout succeeded
 but left the array unchanged

---
 wrappers/python/nntile/nntile_core.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wrappers/python/nntile/nntile_core.cc b/wrappers/python/nntile/nntile_core.cc
index 34c5098..fdfc0f7 100644
--- a/wrappers/python/nntile/nntile_core.cc
+++ b/wrappers/python/nntile/nntile_core.cc
@@ -167,9 +167,11 @@ void def_class_tile(py::module_ &m, const char *name)
         def(py::init<const TileTraits &>()).
         def("unregister", &Tile<T>::unregister).
         def("from_array", tile_from_array<T>).
-        def("to_array", tile_to_array<T>);
+        // No conversion: data would be written to a temporary array
+        def("to_array", tile_to_array<T>, py::arg("array").noconvert());
     m.def("tile_from_array", tile_from_array<T>);
-    m.def("tile_to_array", tile_to_array<T>);
+    m.def("tile_to_array", tile_to_array<T>, py::arg("tile"),
+            py::arg("array").noconvert());
 }
 
 // Extend (sub)module with nntile::tile functionality
@@ -344,7 +346,8 @@ void def_class_tensor(py::module_ &m, const char *name)
         def("invalidate_submit", &Tensor<T>::wont_use).
         def("wont_use", &Tensor<T>::wont_use).
         def("from_array", tensor_from_array<T>).
-        def("to_array", tensor_to_array<T>).
+        // No conversion: data would be written to a temporary array
+        def("to_array", tensor_to_array<T>, py::arg("array").noconvert()).
         def("set_reduction_add", &Tensor<T>::set_reduction_add).
         def("set_reduction_hypot", &Tensor<T>::set_reduction_hypot).
         def("set_reduction_maxsumexp", &Tensor<T>::set_reduction_maxsumexp).
@@ -353,7 +356,8 @@ void def_class_tensor(py::module_ &m, const char *name)
         def("get_tile", static_cast<tile::Tile<T>(Tensor<T>::*)(Index) const>(
                     &Tensor<T>::get_tile)).
         def_readonly("distribution", &Tensor<T>::tile_distr);
-    m.def("tensor_to_array", tensor_to_array<T>);
+    m.def("tensor_to_array", tensor_to_array<T>, py::arg("tensor"),
+            py::arg("array").noconvert());
     m.def("tensor_from_array", tensor_from_array<T>);
 }
 
-- 
2.43.0


From 15f261f19b45d9370be31f03f70b20a098689907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:50 +0000
Subject: [PATCH 31/45] fix: refused backward tasks of activations were never
 released

---
 src/starpu/gelu_backward.cc     | 5 +++++
 src/starpu/gelutanh_backward.cc | 5 +++++
 src/starpu/relu_backward.cc     | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/src/starpu/gelu_backward.cc b/src/starpu/gelu_backward.cc
index 09d0a9e..e7e7913 100644
--- a/src/starpu/gelu_backward.cc
+++ b/src/starpu/gelu_backward.cc
@@ -143,6 +143,8 @@ void submit_mpi(Index nelems, Handle x, Handle dy, Handle dx, int exec_rank)
         Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
         if(nelems_ == nullptr)
         {
+            task->destroy = 0;
+            starpu_task_destroy(task);
             throw std::bad_alloc();
         }
         task->cl_arg = nelems_;
@@ -155,6 +157,9 @@ void submit_mpi(Index nelems, Handle x, Handle dy, Handle dx, int exec_rank)
         // Check submission
         if(ret != 0)
         {
+            // Refused task and its arguments are not released by StarPU
+            task->destroy = 0;
+            starpu_task_destroy(task);
             throw std::runtime_error("Error in gelu_backward MPI task "
                     "submission");
         }
diff --git a/src/starpu/gelutanh_backward.cc b/src/starpu/gelutanh_backward.cc
index 2e9f577..73213e8 100644
--- a/src/starpu/gelutanh_backward.cc
+++ b/src/starpu/gelutanh_backward.cc
@@ -143,6 +143,8 @@ void submit_mpi(Index nelems, Handle x, Handle dy, Handle dx, int exec_rank)
         Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
         if(nelems_ == nullptr)
         {
+            task->destroy = 0;
+            starpu_task_destroy(task);
             throw std::bad_alloc();
         }
         task->cl_arg = nelems_;
@@ -155,6 +157,9 @@ void submit_mpi(Index nelems, Handle x, Handle dy, Handle dx, int exec_rank)
         // Check submission
         if(ret != 0)
         {
+            // Refused task and its arguments are not released by StarPU
+            task->destroy = 0;
+            starpu_task_destroy(task);
             throw std::runtime_error("Error in gelutanh_backward MPI task "
                     "submission");
         }
diff --git a/src/starpu/relu_backward.cc b/src/starpu/relu_backward.cc
index 97c38f6..621fbb1 100644
--- a/src/starpu/relu_backward.cc
+++ b/src/starpu/relu_backward.cc
@@ -149,6 +149,8 @@ void submit_mpi(Index nelems, Handle x, Handle dy, Handle dx, int exec_rank)
         Index *nelems_ = (Index *)std::malloc(sizeof(*nelems_));
         if(nelems_ == nullptr)
         {
+            task->destroy = 0;
+            starpu_task_destroy(task);
             throw std::bad_alloc();
         }
         task->cl_arg = nelems_;
@@ -161,6 +163,9 @@ void submit_mpi(Index nelems, Handle x, Handle dy, Handle dx, int exec_rank)
         // Check submission
         if(ret != 0)
         {
+            // Refused task and its arguments are not released by StarPU
+            task->destroy = 0;
+            starpu_task_destroy(task);
             throw std::runtime_error("Error in relu_backward MPI task "
                     "submission");
         }
-- 
2.43.0


From c3073695d9c86aa2e8ed502092c8fea1c6e01550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:09 +0000
Subject: [PATCH 32/45] fix: print_scalar_async never released its argument

---
 include/nntile/tensor/tensor.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nntile/tensor/tensor.hh b/include/nntile/tensor/tensor.hh
index 1865e48..a365235 100644
--- a/include/nntile/tensor/tensor.hh
+++ b/include/nntile/tensor/tensor.hh
@@ -214,6 +214,7 @@ public:
                 reinterpret_cast<void *>(args));
         if(ret != 0)
         {
+            std::free(args);
             throw std::runtime_error("Error in starpu_data_acquire_cb()");
         }
     }
@@ -226,6 +227,7 @@ public:
         T *data = reinterpret_cast<T *>(starpu_data_get_local_ptr(handle));
         std::cout << "Value: " << *data << "\n";
         starpu_data_release(handle);
+        std::free(args);
     }
 };
 
-- 
2.43.0


From 6c1e318d76b7b6e06c7d90d672bb97f6f9c3400f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:22 +0000
Subject: [PATCH 33/45] fix: approximate GeLU and its derivatives gave NaN for
 huge arguments

---
 src/kernel/dgelutanh/cpu.cc         | 5 +++++
 src/kernel/gelutanh/cpu.cc          | 3 ++-
 src/kernel/gelutanh_backward/cpu.cc | 7 ++++++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/kernel/dgelutanh/cpu.cc b/src/kernel/dgelutanh/cpu.cc
index 53e48d0..8e5f7bc 100644
--- a/src/kernel/dgelutanh/cpu.cc
+++ b/src/kernel/dgelutanh/cpu.cc
@@ -55,6 +55,11 @@ void cpu(Index nelems, T *data)
         {
             data[i] = zero;
         }
+        // Derivative is exactly one for large values, when y2 may be infinite
+        else if(expy1 == zero)
+        {
+            data[i] = one;
+        }
         else
         {
             T inv_expy1p1 = one / (expy1 + one);
diff --git a/src/kernel/gelutanh/cpu.cc b/src/kernel/gelutanh/cpu.cc
index 3b3aa90..e883a96 100644
--- a/src/kernel/gelutanh/cpu.cc
+++ b/src/kernel/gelutanh/cpu.cc
@@ -51,7 +51,8 @@ void cpu(Index nelems, const T *src, T *dst)
         //dst[i] = z / (one+std::exp(y));
         T y1 = f4 * z * z;
         T y2 = f3 + y1;
-        T c = y1 - (y2-f3);
+        // No correction in case of overflow
+        T c = std::isinf(y1) ? T{0} : y1 - (y2-f3);
         y2 *= z;
         c *= z;
         T y3 = one + std::exp(c)*std::exp(y2);
diff --git a/src/kernel/gelutanh_backward/cpu.cc b/src/kernel/gelutanh_backward/cpu.cc
index 411cdac..f43b826 100644
--- a/src/kernel/gelutanh_backward/cpu.cc
+++ b/src/kernel/gelutanh_backward/cpu.cc
@@ -50,7 +50,12 @@ void cpu(Index nelems, const T *x, const T *dy, T *dx)
         T y1 = x[i] * (f3 + f4*z2);
         T y2 = x[i] * (f3 + f5*z2);
         T expy1 = std::exp(y1);
-        if(not std::isinf(expy1))
+        // Derivative is exactly one for large values, when y2 may be infinite
+        if(expy1 == zero)
+        {
+            dx[i] += dy[i];
+        }
+        else if(not std::isinf(expy1))
         {
             T inv_expy1p1 = one / (expy1 + one);
             dx[i] += (one-y2*(one-inv_expy1p1)) * inv_expy1p1 * dy[i];
-- 
2.43.0


From 63524d33f578de167b17a7a39e2b2d3097fc13ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:22 +0000
Subject: [PATCH 34/45] fix: FP16_to_FP32 layer could not be generated (output
 was of the input type)

---
 wrappers/python/nntile/layer/fp16_to_fp32.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/layer/fp16_to_fp32.py b/wrappers/python/nntile/layer/fp16_to_fp32.py
index 3ecf37d..a65c1e9 100644
--- a/wrappers/python/nntile/layer/fp16_to_fp32.py
+++ b/wrappers/python/nntile/layer/fp16_to_fp32.py
@@ -36,9 +36,9 @@ class FP16_to_FP32(BaseLayer):
         # Get traits of X
         x_traits = TensorTraits(x.value.shape, x.value.basetile_shape)
         # Create Y with the same traits and distribution as X
-        y_value = Tensor_fp16(x_traits, x.value.distribution, next_tag)
+        y_value = Tensor_fp32(x_traits, x.value.distribution, next_tag)
         next_tag = y_value.next_tag
-        y_grad = Tensor_fp16(x_traits, x.value.distribution, next_tag)
+        y_grad = Tensor_fp32(x_traits, x.value.distribution, next_tag)
         next_tag = y_grad.next_tag
         y = TensorMoments(y_value, y_grad, True)
         # Create activation layer with all the provided tensors
-- 
2.43.0


From 91b5805675e0855a60d61078eb862b6a160d1b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:09 +0000
Subject: [PATCH 35/45] fix: Linear layer in fp16 mode used names that were not
 imported

---
 wrappers/python/nntile/layer/linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wrappers/python/nntile/layer/linear.py b/wrappers/python/nntile/layer/linear.py
index 74e8eff..9f89728 100644
--- a/wrappers/python/nntile/layer/linear.py
+++ b/wrappers/python/nntile/layer/linear.py
@@ -16,7 +16,8 @@ import nntile
 from nntile.tensor import TensorTraits, Tensor, TensorOrNone, TensorMoments, \
         TransOp, trans, notrans, copy_async, gemm_async, randn_async, \
         add_slice_async, add_fiber_async, sum_slice_async, sum_fiber_async, \
-        gemm_ex_async
+        gemm_ex_async, Tensor_fp16
+from nntile.nntile_core.tensor import fp32_to_fp16_async, fp16_to_fp32_async
 from nntile.layer.base_layer import BaseLayer
 import numpy as np
 from typing import List, Union, Optional
-- 
2.43.0


From 5910135eca1f57eb52491abba385ae23d7db3d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:09 +0000
Subject: [PATCH 36/45] fix: precision conversion layers wrote gradients of
 inputs that do not require them

---
 wrappers/python/nntile/layer/fp16_to_fp32.py | 3 ++-
 wrappers/python/nntile/layer/fp32_to_fp16.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/wrappers/python/nntile/layer/fp16_to_fp32.py b/wrappers/python/nntile/layer/fp16_to_fp32.py
index a65c1e9..04d48fc 100644
--- a/wrappers/python/nntile/layer/fp16_to_fp32.py
+++ b/wrappers/python/nntile/layer/fp16_to_fp32.py
@@ -52,5 +52,6 @@ class FP16_to_FP32(BaseLayer):
 
     # Backward propagation of the activation layer
     def backward_async(self):
-        fp32_to_fp16_async(self.y.grad, self.x.grad)
+        if self.x.grad_required:
+            fp32_to_fp16_async(self.y.grad, self.x.grad)
 
diff --git a/wrappers/python/nntile/layer/fp32_to_fp16.py b/wrappers/python/nntile/layer/fp32_to_fp16.py
index ce28dce..5724350 100644
--- a/wrappers/python/nntile/layer/fp32_to_fp16.py
+++ b/wrappers/python/nntile/layer/fp32_to_fp16.py
@@ -52,5 +52,6 @@ class FP32_to_FP16(BaseLayer):
 
     # Backward propagation of the activation layer
     def backward_async(self):
-        fp16_to_fp32_async(self.y.grad, self.x.grad)
+        if self.x.grad_required:
+            fp16_to_fp32_async(self.y.grad, self.x.grad)
 
-- 
2.43.0


From 0b95a9a10a835b0b54cefcb312fcbc5444fbf0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:09 +0000
Subject: [PATCH 37/45] fix: clear_async refused fp16 tensors, so gradients of
 fp16 activations could not be cleared

---
 wrappers/python/nntile/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wrappers/python/nntile/tensor.py b/wrappers/python/nntile/tensor.py
index bff1a76..328590f 100644
--- a/wrappers/python/nntile/tensor.py
+++ b/wrappers/python/nntile/tensor.py
@@ -568,6 +568,8 @@ def clear_async(x: Tensor) -> None:
         core_tensor.clear_async_fp32(x)
     elif type(x) is core_tensor.Tensor_fp64:
         core_tensor.clear_async_fp64(x)
+    elif type(x) is core_tensor.Tensor_fp16:
+        core_tensor.clear_async_fp16(x)
     else:
         raise TypeError
 
-- 
2.43.0


From 9e1ee8cddc7f4bc48c3b7f87fbcba79748743504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:47 +0000
Subject: [PATCH 38/45] fix: CUDA kernel of add_fiber read undefined output
 when beta is zero

---
 src/kernel/add_fiber/cuda.cu | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/kernel/add_fiber/cuda.cu b/src/kernel/add_fiber/cuda.cu
index b3a04b9..e42aa0b 100644
--- a/src/kernel/add_fiber/cuda.cu
+++ b/src/kernel/add_fiber/cuda.cu
@@ -55,8 +55,15 @@ void cuda_kernel(Index m, Index n, Index k, Index batch, T alpha, const T *src,
             T *dst_fiber = dst + ((i1+b*n)*k+i2)*m;
             // Read value from the output
             T &dst_val = dst_fiber[i0];
-            // And update it
-            dst_val = beta*dst_val + src_val;
+            // And update it, output is not read if beta is zero
+            if(beta == zero)
+            {
+                dst_val = src_val;
+            }
+            else
+            {
+                dst_val = beta*dst_val + src_val;
+            }
         }
     }
 }
-- 
2.43.0


From 2560934f7b7fa03964eb0250cdfa18488cd442d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:47 +0000
Subject: [PATCH 39/45] fix: CUDA kernels of add_fiber, mask_scalar and
 embedding_backward were not launched for modes longer than a grid

---
 src/kernel/add_fiber/cuda.cu          | 42 +++++++++++++++++----------
 src/kernel/embedding_backward/cuda.cu | 22 ++++++++++----
 src/kernel/mask_scalar/cuda.cu        | 12 +++++---
 3 files changed, 50 insertions(+), 26 deletions(-)

diff --git a/src/kernel/add_fiber/cuda.cu b/src/kernel/add_fiber/cuda.cu
index e42aa0b..b09dea7 100644
--- a/src/kernel/add_fiber/cuda.cu
+++ b/src/kernel/add_fiber/cuda.cu
@@ -42,27 +42,35 @@ void cuda_kernel(Index m, Index n, Index k, Index batch, T alpha, const T *src,
  * */
 {
     Index i2 = threadIdx.x + blockIdx.x*blockDim.x,
-          i0 = threadIdx.y + blockIdx.y*blockDim.y,
-          i1 = threadIdx.z + blockIdx.z*blockDim.z;
+          i0_start = threadIdx.y + blockIdx.y*blockDim.y,
+          i1_start = threadIdx.z + blockIdx.z*blockDim.z,
+          i0_step = blockDim.y * gridDim.y,
+          i1_step = blockDim.z * gridDim.z;
     constexpr T zero = 0;
-    if(i2 < k and i1 < n and i0 < m)
+    if(i2 < k)
     {
         for(Index b = 0; b < batch; ++b)
         {
             // Value to add to the output slice
             const T src_val = alpha * src[i2+b*k];
-            // Output fiber to be updated
-            T *dst_fiber = dst + ((i1+b*n)*k+i2)*m;
-            // Read value from the output
-            T &dst_val = dst_fiber[i0];
-            // And update it, output is not read if beta is zero
-            if(beta == zero)
+            for(Index i1 = i1_start; i1 < n; i1 += i1_step)
             {
-                dst_val = src_val;
-            }
-            else
-            {
-                dst_val = beta*dst_val + src_val;
+                // Output fiber to be updated
+                T *dst_fiber = dst + ((i1+b*n)*k+i2)*m;
+                for(Index i0 = i0_start; i0 < m; i0 += i0_step)
+                {
+                    // Read value from the output
+                    T &dst_val = dst_fiber[i0];
+                    // And update it, output is not read if beta is zero
+                    if(beta == zero)
+                    {
+                        dst_val = src_val;
+                    }
+                    else
+                    {
+                        dst_val = beta*dst_val + src_val;
+                    }
+                }
             }
         }
     }
@@ -90,8 +98,10 @@ void cuda(cudaStream_t stream, Index m, Index n, Index k, Index batch, T alpha,
     // Both source and destination are Fortran-contiguous
     dim3 threads(std::min(int(k), 1024), std::min(int(m), 1),
             std::min(int(n), 1));
-    dim3 blocks((k+threads.x-1)/threads.x, (m+threads.y-1)/threads.y,
-            (n+threads.z-1)/threads.z);
+    // The second and the third dimensions of a grid are limited
+    dim3 blocks((k+threads.x-1)/threads.x,
+            std::min((m+threads.y-1)/threads.y, Index{65535}),
+            std::min((n+threads.z-1)/threads.z, Index{65535}));
     (cuda_kernel<T>)<<<blocks, threads, 0, stream>>>(m, n, k, batch, alpha,
             src, beta, dst);
 }
diff --git a/src/kernel/embedding_backward/cuda.cu b/src/kernel/embedding_backward/cuda.cu
index 338ba97..be14fda 100644
--- a/src/kernel/embedding_backward/cuda.cu
+++ b/src/kernel/embedding_backward/cuda.cu
@@ -13,6 +13,7 @@
  * */
 
 #include "nntile/kernel/embedding_backward/cuda.hh"
+#include <algorithm>
 
 namespace nntile
 {
@@ -41,13 +42,20 @@ void cuda_kernel(Index m, Index n, Index k, Index k_start, Index k_size,
  * */
 {
     Index i2 = threadIdx.x + blockIdx.x*blockDim.x;
-    Index i0 = blockIdx.y, i1 = blockIdx.z;
+    Index i0_start = blockIdx.y, i1_start = blockIdx.z;
     if(i2 < k_size)
     {
-        // Output slice of vocabulary
-        T *vocab_slice = vocab + k_size*index[i1*m+i0];
-        // Update value of embedding
-        atomicAdd(&vocab_slice[i2], embed[(i1*k+k_start+i2)*m + i0]);
+        for(Index i1 = i1_start; i1 < n; i1 += gridDim.z)
+        {
+            for(Index i0 = i0_start; i0 < m; i0 += gridDim.y)
+            {
+                // Output slice of vocabulary
+                T *vocab_slice = vocab + k_size*index[i1*m+i0];
+                // Update value of embedding
+                atomicAdd(&vocab_slice[i2],
+                        embed[(i1*k+k_start+i2)*m + i0]);
+            }
+        }
     }
 }
 
@@ -72,7 +80,9 @@ void cuda(cudaStream_t stream, Index m, Index n, Index k, Index k_start,
 {
     // Both source and destination are Fortran-contiguous
     dim3 threads(256, 1, 1);
-    dim3 blocks((k_size+255)/256, m, n);
+    // The second and the third dimensions of a grid are limited
+    dim3 blocks((k_size+255)/256, std::min(m, Index{65535}),
+            std::min(n, Index{65535}));
     (cuda_kernel<T>)<<<blocks, threads, 0, stream>>>(m, n, k, k_start, k_size,
             index, embed, vocab);
 }
diff --git a/src/kernel/mask_scalar/cuda.cu b/src/kernel/mask_scalar/cuda.cu
index 5a5f354..7538402 100644
--- a/src/kernel/mask_scalar/cuda.cu
+++ b/src/kernel/mask_scalar/cuda.cu
@@ -13,6 +13,7 @@
  * */
 
 #include "nntile/kernel/mask_scalar/cuda.hh"
+#include <algorithm>
 
 namespace nntile
 {
@@ -26,10 +27,11 @@ static __global__
 void cuda_kernel(Index nrows, Index ncols, const bool_t *mask, T val, T *data)
 {
     int i = threadIdx.x + blockIdx.x*blockDim.x,
-        j = threadIdx.y + blockIdx.y*blockDim.y;
-    if(i < nrows and j < ncols)
+        j_start = threadIdx.y + blockIdx.y*blockDim.y,
+        j_step = blockDim.y * gridDim.y;
+    if(i < nrows and !mask[i])
     {
-        if(!mask[i])
+        for(Index j = j_start; j < ncols; j += j_step)
         {
             data[j*nrows+i] = val;
         }
@@ -51,7 +53,9 @@ void cuda(cudaStream_t stream, Index nrows, Index ncols, const bool_t *mask,
  * @params[in,out] data: nrows by ncols matrix, whose elements are updated
  * */
 {
-    dim3 blocks((nrows+255)/256, ncols), threads(256, 1);
+    // The second dimension of a grid is limited
+    dim3 blocks((nrows+255)/256, std::min(ncols, Index{65535})),
+            threads(256, 1);
     (cuda_kernel<T>)<<<blocks, threads, 0, stream>>>(nrows, ncols, mask, val,
             data);
 }
-- 
2.43.0


From ca19f904141d29881e6585e8528b366c109a6e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:47 +0000
Subject: [PATCH 40/45] fix: CUDA softmax kernels overwrote shared values that
 other threads still needed

---
 src/kernel/softmax/cuda.cu         | 2 ++
 src/kernel/softmax_inplace/cuda.cu | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/kernel/softmax/cuda.cu b/src/kernel/softmax/cuda.cu
index ca9c9c0..de6b257 100644
--- a/src/kernel/softmax/cuda.cu
+++ b/src/kernel/softmax/cuda.cu
@@ -64,6 +64,8 @@ void cuda_kernel(Index m, Index m_per_block, Index n, Index n_per_block,
                     dst_slice[i2*m] = zero;
                 }
             }
+            // Shared max and sum are overwritten for the next slice
+            __syncthreads();
         }
     }
 }
diff --git a/src/kernel/softmax_inplace/cuda.cu b/src/kernel/softmax_inplace/cuda.cu
index 612e259..7e007c3 100644
--- a/src/kernel/softmax_inplace/cuda.cu
+++ b/src/kernel/softmax_inplace/cuda.cu
@@ -61,6 +61,8 @@ void cuda_kernel(Index m, Index m_per_block, Index n, Index n_per_block,
                     val = zero;
                 }
             }
+            // Shared max and sum are overwritten for the next slice
+            __syncthreads();
         }
     }
 }
-- 
2.43.0


From 943290d5444f6d796e0811f48cb1c16925d81741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:47 +0000
Subject: [PATCH 41/45] fix: derivative of approximate GeLU was NaN for large
 values on CUDA

---
 src/kernel/dgelutanh/cuda.cu         | 5 +++++
 src/kernel/gelutanh_backward/cuda.cu | 9 +++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/kernel/dgelutanh/cuda.cu b/src/kernel/dgelutanh/cuda.cu
index be848b3..f23d0d1 100644
--- a/src/kernel/dgelutanh/cuda.cu
+++ b/src/kernel/dgelutanh/cuda.cu
@@ -43,6 +43,11 @@ void cuda_kernel(Index nelems, T *data)
         {
             data[i] = zero;
         }
+        // Derivative is exactly one for large values, when y2 may be infinite
+        else if(expy1 == zero)
+        {
+            data[i] = one;
+        }
         else
         {
             T inv_expy1p1 = one / (expy1 + one);
diff --git a/src/kernel/gelutanh_backward/cuda.cu b/src/kernel/gelutanh_backward/cuda.cu
index 7a1e428..3456398 100644
--- a/src/kernel/gelutanh_backward/cuda.cu
+++ b/src/kernel/gelutanh_backward/cuda.cu
@@ -29,7 +29,7 @@ void cuda_kernel(Index nelems, const T *x, const T *dy, T *dx)
     int i = threadIdx.x + blockIdx.x*blockDim.x;
     // Constants
     constexpr T pi = 3.141592653589793238462643383279502884L,
-        one = 1, f1 = T{0.044715};
+        zero = 0, one = 1, f1 = T{0.044715};
     // Square root is not constexpr by standard, proceed with a static const
     const T sqrt_pi = sqrt(pi), sqrt_2 = sqrt(T{2.0}),
         f2 = sqrt_2/sqrt_pi, f3 = -T{2}*f2, f4 = f3*f1, f5 = T{3}*f4;
@@ -40,7 +40,12 @@ void cuda_kernel(Index nelems, const T *x, const T *dy, T *dx)
         T y1 = z * (f3 + f4*z2);
         T y2 = z * (f3 + f5*z2);
         T expy1 = exp(y1);
-        if(not isinf(expy1))
+        // Derivative is exactly one for large values, when y2 may be infinite
+        if(expy1 == zero)
+        {
+            dx[i] += dy[i];
+        }
+        else if(not isinf(expy1))
         {
             T inv_expy1p1 = one / (expy1 + one);
             dx[i] += (one-y2*(one-inv_expy1p1)) * inv_expy1p1 * dy[i];
-- 
2.43.0


From 5298a911903d57eb598eeddc4f2e41770cd47b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:47 +0000
Subject: [PATCH 42/45] fix: CUDA normalize kernel divided zero by zero for
 all-zero slices

---
 src/kernel/normalize/cuda.cu | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kernel/normalize/cuda.cu b/src/kernel/normalize/cuda.cu
index 786fdb7..c522bf2 100644
--- a/src/kernel/normalize/cuda.cu
+++ b/src/kernel/normalize/cuda.cu
@@ -56,7 +56,8 @@ void cuda_kernel(Index m, Index n, Index k, Index l, T eps,
                 T dev;
                 // Although in theory tmp<=1 it is not always true in practice
                 // due presence of rounding errors
-                T tmp = ::fabs(mean) / rms;
+                // All-zero slice has zero deviation, avoid 0/0 in such a case
+                T tmp = rms > T{0} ? ::fabs(mean)/rms : one;
                 // Check if rounding errors broke theoretical invariant
                 if(tmp >= one)
                 {
-- 
2.43.0


From 9a33ecd3d62dbb582dea6f6f466498ce77c6db3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:48 +0000
Subject: [PATCH 43/45] fix: CUDA norm_slice kernel ignored fibers of zeros

---
 src/kernel/norm_slice/cuda.cu | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/kernel/norm_slice/cuda.cu b/src/kernel/norm_slice/cuda.cu
index 3a7e011..c52b9d2 100644
--- a/src/kernel/norm_slice/cuda.cu
+++ b/src/kernel/norm_slice/cuda.cu
@@ -55,7 +55,23 @@ void cuda_kernel(Index m, Index n, Index k, Index mk, T alpha, const T *src,
             block_max[threadIdx.x+blockDim.x*threadIdx.y] = sum;
         }
         __syncthreads();
-        if(block_max[threadIdx.x+blockDim.x*threadIdx.y] > 0)
+        // Norm of an all-zero fiber is zero
+        if(not (block_max[threadIdx.x+blockDim.x*threadIdx.y] > 0))
+        {
+            if(i2_start == 0)
+            {
+                T &result = dst[i1*m+i0];
+                if(beta == zero)
+                {
+                    result = zero;
+                }
+                else
+                {
+                    result = ::fabs(beta*result);
+                }
+            }
+        }
+        else
         {
             sum /= block_max[threadIdx.x+blockDim.x*threadIdx.y];
             atomicAdd(&block_sum[threadIdx.x+blockDim.x*threadIdx.y], sum*sum);
-- 
2.43.0


From 4bb9b53c30c994053fd3f87f803fb46bdad28f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:48 +0000
Subject: [PATCH 44/45] fix: flash attention used cuBLAS in whatever pointer
 mode previous tasks left it

---
 src/starpu/flash_maxsumexp.cc.in                           | 4 ++++
 src/starpu/flash_softmax_gemm.cc.in                        | 4 ++++
 src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in         | 4 ++++
 src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/src/starpu/flash_maxsumexp.cc.in b/src/starpu/flash_maxsumexp.cc.in
index d88692a..70d8ca6 100644
--- a/src/starpu/flash_maxsumexp.cc.in
+++ b/src/starpu/flash_maxsumexp.cc.in
@@ -146,6 +146,8 @@ void cuda(void *buffers[], void *cl_args)
     cublasHandle_t handle = starpu_cublas_get_local_handle();
     cudaStream_t stream = starpu_cuda_get_local_stream();
     cublasSetStream(handle, stream);
+    // Scalars are on the host, while other codelets may have switched the mode
+    cublasSetPointerMode(handle, CUBLAS_POINTER_MODE_HOST);
     // Launch kernel
     Index K_offset = args->head * args->seq;
     Index Q_offset = K_offset;
@@ -191,6 +193,8 @@ void cuda_fp32_fast_tf32(void *buffers[], void *cl_args)
     cublasHandle_t handle = starpu_cublas_get_local_handle();
     cudaStream_t stream = starpu_cuda_get_local_stream();
     cublasSetStream(handle, stream);
+    // Scalars are on the host, while other codelets may have switched the mode
+    cublasSetPointerMode(handle, CUBLAS_POINTER_MODE_HOST);
     // Launch kernel
     Index K_offset = args->head * args->seq;
     Index Q_offset = K_offset;
diff --git a/src/starpu/flash_softmax_gemm.cc.in b/src/starpu/flash_softmax_gemm.cc.in
index 849aa83..99b133c 100644
--- a/src/starpu/flash_softmax_gemm.cc.in
+++ b/src/starpu/flash_softmax_gemm.cc.in
@@ -164,6 +164,8 @@ void cuda(void *buffers[], void *cl_args)
     cublasHandle_t handle = starpu_cublas_get_local_handle();
     cudaStream_t stream = starpu_cuda_get_local_stream();
     cublasSetStream(handle, stream);
+    // Scalars are on the host, while other codelets may have switched the mode
+    cublasSetPointerMode(handle, CUBLAS_POINTER_MODE_HOST);
     // Launch kernels
     Index K_offset = args->head * args->seq;
     Index Q_offset = K_offset;
@@ -217,6 +219,8 @@ void cuda_fp32_fast_tf32(void *buffers[], void *cl_args)
     cublasHandle_t handle = starpu_cublas_get_local_handle();
     cudaStream_t stream = starpu_cuda_get_local_stream();
     cublasSetStream(handle, stream);
+    // Scalars are on the host, while other codelets may have switched the mode
+    cublasSetPointerMode(handle, CUBLAS_POINTER_MODE_HOST);
     // Launch kernels
     Index K_offset = args->head * args->seq;
     Index Q_offset = K_offset;
diff --git a/src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in b/src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in
index 50fb1f9..d5bf79d 100644
--- a/src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in
+++ b/src/starpu/flash_softmax_gemm_backward_dq_dk.cc.in
@@ -199,6 +199,8 @@ void cuda(void *buffers[], void *cl_args)
     cublasHandle_t handle = starpu_cublas_get_local_handle();
     cudaStream_t stream = starpu_cuda_get_local_stream();
     cublasSetStream(handle, stream);
+    // Scalars are on the host, while other codelets may have switched the mode
+    cublasSetPointerMode(handle, CUBLAS_POINTER_MODE_HOST);
     // Launch kernels
     Index K_offset = args->head * args->seq;
     Index Q_offset = K_offset;
@@ -272,6 +274,8 @@ void cuda_fp32_fast_tf32(void *buffers[], void *cl_args)
     cublasHandle_t handle = starpu_cublas_get_local_handle();
     cudaStream_t stream = starpu_cuda_get_local_stream();
     cublasSetStream(handle, stream);
+    // Scalars are on the host, while other codelets may have switched the mode
+    cublasSetPointerMode(handle, CUBLAS_POINTER_MODE_HOST);
     // Launch kernels
     Index K_offset = args->head * args->seq;
     Index Q_offset = K_offset;
diff --git a/src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in b/src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in
index 9c370e1..c50db47 100644
--- a/src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in
+++ b/src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in
@@ -187,6 +187,8 @@ void cuda(void *buffers[], void *cl_args)
     cublasHandle_t handle = starpu_cublas_get_local_handle();
     cudaStream_t stream = starpu_cuda_get_local_stream();
     cublasSetStream(handle, stream);
+    // Scalars are on the host, while other codelets may have switched the mode
+    cublasSetPointerMode(handle, CUBLAS_POINTER_MODE_HOST);
     // Launch kernels
     Index K_offset = args->head * args->seq;
     Index Q_offset = K_offset;
@@ -251,6 +253,8 @@ void cuda_fp32_fast_tf32(void *buffers[], void *cl_args)
     cublasHandle_t handle = starpu_cublas_get_local_handle();
     cudaStream_t stream = starpu_cuda_get_local_stream();
     cublasSetStream(handle, stream);
+    // Scalars are on the host, while other codelets may have switched the mode
+    cublasSetPointerMode(handle, CUBLAS_POINTER_MODE_HOST);
     // Launch kernels
     Index K_offset = args->head * args->seq;
     Index Q_offset = K_offset;
-- 
2.43.0


From c236138203f70f66e97e1d84d8afe1c33ee4b3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:48 +0000
Subject: [PATCH 45/45] fix: backward of flash attention scaled scores
 differently in its two steps

---
 src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in b/src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in
index c50db47..738efb4 100644
--- a/src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in
+++ b/src/starpu/flash_softmax_gemm_backward_sumprod_slice.cc.in
@@ -94,7 +94,7 @@ void cpu(void *buffers[], void *cl_args)
     for(Index i = 0; i < args->batch; ++i)
     {
         cblas(CblasTrans, CblasNoTrans, args->seq, args->seq, args->head,
-                1.0/std::sqrt(args->head), K_local, args->head, Q_local,
+                1.0/std::sqrt(T(args->head)), K_local, args->head, Q_local,
                 args->head, 0.0, tmp_local, args->seq);
         K_local += K_offset;
         Q_local += Q_offset;
-- 
2.43.0

