From a16bc9965d7ae7be986ef10d16c465a4c2128532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:13 +0000
Subject: [PATCH 01/16] fix: accept supervised data in KernelHerding,
 SteinThinning and KernelThinning

---
 coreax/solvers/coresubset.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index bc1198b..03418a1 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -24,7 +24,6 @@ import jax
 import jax.numpy as jnp
 import jax.random as jr
 import jax.scipy as jsp
-import jax.tree_util as jtu
 from jaxtyping import Array, ArrayLike, Bool, Float, Scalar, Shaped
 from typing_extensions import override
 
@@ -161,7 +160,8 @@ def _greedy_kernel_selection(
     # The kernel similarity penalty must be computed for the initial coreset. If we did
     # not support refinement, the penalty could be initialised to the zeroes vector, and
     # the result would be invariant to the initial coresubset.
-    data, data_weights = jtu.tree_leaves(coresubset.pre_coreset_data)
+    data = coresubset.pre_coreset_data.data
+    data_weights = coresubset.pre_coreset_data.weights
     init_kernel_similarity_penalty = init_coreset_size * kernel.compute_mean(
         data,
         padded_coresubset.points,
@@ -502,7 +502,8 @@ class SteinThinning(
         :return: A refined coresubset and relevant intermediate solver state
             information.
         """
-        x, w_x = jtu.tree_leaves(coresubset.pre_coreset_data)
+        x = coresubset.pre_coreset_data.data
+        w_x = coresubset.pre_coreset_data.weights
         kernel = convert_stein_kernel(x, self.kernel, self.score_matching)
         stein_kernel_diagonal = jax.vmap(self.kernel.compute_elementwise)(x, x)
         if self.regularise:
-- 
2.43.0


From 791b53c7d6dfeaa1e643f76ec671f1ae95cc8d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:13 +0000
Subject: [PATCH 02/16] fix: ignore zero-weighted data in probabilistic
 KernelHerding

---
 coreax/solvers/coresubset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index 03418a1..c2c968f 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -342,6 +342,10 @@ class KernelHerding(
 
             # Apply softmax to the metric for probabilistic selection
             if self.probabilistic:
+                # Zero-weighted data (marked NaN) must have zero selection probability
+                valid_residuals = jnp.where(
+                    jnp.isnan(valid_residuals), -jnp.inf, valid_residuals
+                )
                 probs = jax.nn.softmax(valid_residuals / self.temperature)
                 key = jr.fold_in(self.random_key, i)
                 return jr.choice(
-- 
2.43.0


From 578f74a10660e27a81c21cfa4d33d4ee194e2693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:49 +0000
Subject: [PATCH 03/16] fix: exclude current members even when padding repeats
 their index in greedy refinement

---
 coreax/solvers/coresubset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index c2c968f..e03bbcb 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -193,13 +193,14 @@ def _greedy_kernel_selection(
             data_weights > 0, kernel_similarity_penalty, jnp.nan
         )
         if unique:  # Temporarily exclude other coreset members from being selected
+            # Use 'max' as zero-weighted padding may repeat the index of a member.
             valid_kernel_similarity_penalty = valid_kernel_similarity_penalty.at[
                 coreset_indices
-            ].set(
+            ].max(
                 jnp.where(
                     (coreset_indices != coreset_indices[i]) & (coreset_weights > 0),
                     jnp.inf,
-                    valid_kernel_similarity_penalty[coreset_indices],
+                    -jnp.inf,
                 )
             )
         updated_coreset_index = selection_function(
-- 
2.43.0


From 262387b21059452d257080f99759f698fc0f1e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:49 +0000
Subject: [PATCH 04/16] fix: never select the padding index in
 GreedyKernelPoints

---
 coreax/solvers/coresubset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index e03bbcb..f189611 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -1015,6 +1015,9 @@ def _update_candidate_coresets_and_coreset_indices(
             coreset_indices.at[i].set(-1),
         )
         loss += jnp.where(already_chosen_indices_mask, jnp.inf, 0)
+    # An index of -1 denotes padding (only offered while reducing with a candidate batch)
+    # and is never a valid member of the coreset.
+    loss = jnp.where(candidate_coresets[:, i] < 0, jnp.inf, loss)
     index_to_include_in_coreset = candidate_coresets[loss.argmin(), i]
 
     # Repeat the chosen coreset index into the ith column of the array of
-- 
2.43.0


From c964dea32d4cc803d2ffa58d6c18d6eb267746b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:49 +0000
Subject: [PATCH 05/16] fix: keep kernel halving well defined when a pair of
 points coincide

---
 coreax/solvers/coresubset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index f189611..b1d6cc9 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -1476,12 +1476,16 @@ class KernelThinning(CoresubsetSolver[_Data, None], ExplicitSizeSolver):
             :param x2: The second data point.
             :return: The kernel distance between `x1` and `x2`.
             """
-            return jnp.sqrt(k(x1, x1) + k(x2, x2) - 2 * k(x1, x2))
+            squared_distance = k(x1, x1) + k(x2, x2) - 2 * k(x1, x2)
+            return jnp.sqrt(jnp.maximum(squared_distance, 0))
 
         def get_a_and_sigma(b, sigma):
             """Compute 'a' and new sigma parameter."""
             a = jnp.maximum(b * sigma * jnp.sqrt(2 * jnp.log(2 / self.delta)), b**2)
 
+            # Coincident points have b = 0, for which any positive 'a' is equivalent
+            a = jnp.where(b > 0, a, 1.0)
+
             # Update sigma
             new_sigma = jnp.sqrt(
                 sigma**2 + jnp.maximum(b**2 * (1 + (b**2 - 2 * a) * sigma**2 / a**2), 0)
-- 
2.43.0


From 2279c3f7dc69da5179271028673554f0fab88c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:49 +0000
Subject: [PATCH 06/16] fix: compute the number of kernel thinning halvings
 exactly

---
 coreax/solvers/coresubset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index b1d6cc9..eb09613 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -1383,7 +1383,7 @@ class KernelThinning(CoresubsetSolver[_Data, None], ExplicitSizeSolver):
         if self.coreset_size > len(dataset):
             raise ValueError(MSG)
         n = len(dataset)
-        m = math.floor(math.log2(n) - math.log2(self.coreset_size))
+        m = (n // self.coreset_size).bit_length() - 1
         clipped_original_dataset = dataset[: self.coreset_size * 2**m]
 
         partition = self.kt_half_recursive(clipped_original_dataset, m, dataset)
-- 
2.43.0


From 7b567fdd2f831165f473a931e2ddd508522b107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:49 +0000
Subject: [PATCH 07/16] fix: keep TreeRecombination's padding indices within
 the dataset

---
 coreax/solvers/recombination.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coreax/solvers/recombination.py b/coreax/solvers/recombination.py
index a89579d..b208660 100644
--- a/coreax/solvers/recombination.py
+++ b/coreax/solvers/recombination.py
@@ -559,7 +559,9 @@ class TreeRecombination(RecombinationSolver[Data, None]):
             updated_indices = _indices[weight_update_indices.reshape(-1, order="F")]
             return updated_weights.reshape(-1, order="F"), updated_indices
 
-        in_state = (jnp.pad(weights, (0, padding)), jnp.arange(n + padding))
+        # Zero-weighted padding must still refer to a node of the original dataset.
+        padded_indices = jnp.minimum(jnp.arange(n + padding), n - 1)
+        in_state = (jnp.pad(weights, (0, padding)), padded_indices)
         out_weights, indices = jax.lax.fori_loop(0, depth, _tree_reduce, in_state)
         coresubset_nodes = _coresubset_nodes(
             push_forward_nodes, out_weights, indices, self.mode
-- 
2.43.0


From f591356cd322040a8c81143a28ecaa1783a73fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:19 +0000
Subject: [PATCH 08/16] fix: share MapReduce padding evenly so that no
 partition is starved of data

---
 coreax/solvers/composite.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/coreax/solvers/composite.py b/coreax/solvers/composite.py
index b66a4d6..edd505a 100644
--- a/coreax/solvers/composite.py
+++ b/coreax/solvers/composite.py
@@ -207,9 +207,9 @@ def _jit_tree(
     # leaf_size <= n_points <= 2 * leaf_size
     # It is not obvious in this case if 'n_points' can be determined a priori.
     #
-    # A simple solution is to pad the dataset with zero valued and weighted points, up
-    # to the smallest integer power of two. An additional benefit of this padding is
-    # that all partitions will be perfectly balanced (of identical size).
+    # However, the sizes of the leaves differ by no more than one point. A simple solution
+    # is to pad the smaller leaves with a zero valued and weighted point, such that all
+    # partitions will be perfectly balanced (of identical size).
     #
     # IMPORTANT: the base solver should ignore/be invariant to these padding values;
     # ignorance is weaker condition than invariance. For example, due to implementation
@@ -221,16 +221,25 @@ def _jit_tree(
     # Divide by two so the leaf_size is the partition size.
     _leaf_size = max(1, leaf_size // 2)
     n_leaves = 2 ** max(0, math.floor(math.log2((len(dataset) - 1) / _leaf_size)))
-    padding = math.ceil(len(dataset) / n_leaves) * n_leaves - len(dataset)
-    padded_dataset = tree_zero_pad_leading_axis(dataset, padding)
-    shape = (n_leaves, len(padded_dataset) // n_leaves)
-    result_shape = jax.ShapeDtypeStruct(shape, jnp.int32)
+    n, partition_size = len(dataset), math.ceil(len(dataset) / n_leaves)
+    # Each tree node is split in half, with the right child taking any odd point.
+    sizes = np.array([n])
+    while len(sizes) < n_leaves:
+        sizes = np.column_stack((sizes // 2, sizes - sizes // 2)).ravel()
+    # The tree is built on the unpadded data so that padding (at most one point) is
+    # shared evenly between the partitions. If padding were itself partitioned, then it
+    # would cluster around the origin and starve some partitions of data.
+    position = np.arange(partition_size)
+    start = np.cumsum(sizes) - sizes
+    slots = np.where(position < sizes[:, None], start[:, None] + position, n)
+    padded_dataset = tree_zero_pad_leading_axis(dataset, 1)
+    result_shape = jax.ShapeDtypeStruct(slots.shape, jnp.int32)
 
     def _binary_tree(_input_data: Data) -> np.ndarray:
         _, node_indices, _, _ = tree_type(
             _input_data.data, leaf_size=_leaf_size, sample_weight=_input_data.weights
         ).get_arrays()
-        return node_indices.reshape(n_leaves, -1).astype(np.int32)
+        return np.append(node_indices, n)[slots].astype(np.int32)
 
-    indices = jax.pure_callback(_binary_tree, result_shape, padded_dataset)
-    return padded_dataset[indices], jnp.arange(len(dataset))[indices]
+    indices = jax.pure_callback(_binary_tree, result_shape, dataset)
+    return padded_dataset[indices], jnp.arange(n)[indices]
-- 
2.43.0


From ab5ebe03a251199299c12520afd3042871a9b2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:13 +0000
Subject: [PATCH 09/16] fix: keep SteinThinning's selection valid when the
 density estimate is undefined

---
 coreax/solvers/coresubset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/coreax/solvers/coresubset.py b/coreax/solvers/coresubset.py
index eb09613..45e6b6f 100644
--- a/coreax/solvers/coresubset.py
+++ b/coreax/solvers/coresubset.py
@@ -520,7 +520,11 @@ class SteinThinning(
             else:
                 regulariser_lambda = self.regulariser_lambda
 
-            regularised_log_pdf = regulariser_lambda * kde.logpdf(x.T)
+            # The density is undefined (NaN) if the covariance of the data is singular, in
+            # which case the entropic regularisation has no effect on the selection.
+            log_pdf = kde.logpdf(x.T)
+            log_pdf = jnp.where(jnp.isnan(log_pdf), 0.0, log_pdf)
+            regularised_log_pdf = regulariser_lambda * log_pdf
 
             @jax.vmap
             def _laplace_positive(x_):
-- 
2.43.0


From e490bc488e837558a00c4cde9aa7791e59d3890d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:28 +0000
Subject: [PATCH 10/16] fix: accept supervised reference data in KSD

---
 coreax/metrics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/coreax/metrics.py b/coreax/metrics.py
index 7848bc5..cfde3b5 100644
--- a/coreax/metrics.py
+++ b/coreax/metrics.py
@@ -30,7 +30,6 @@ import equinox as eqx
 import jax
 import jax.numpy as jnp
 import jax.scipy as jsp
-import jax.tree_util as jtu
 from jaxtyping import Array, Shaped
 
 import coreax.util
@@ -246,7 +245,7 @@ class KSD(Metric[Data]):
         """
         del kwargs
         # Train Stein kernel with data from P
-        x, w_x = jtu.tree_leaves(reference_data)
+        x, w_x = reference_data.data, reference_data.weights
         kernel = convert_stein_kernel(x, self.kernel, self.score_matching)
 
         # Variable rename allows for nicer automatic formatting.
-- 
2.43.0


From ea03cf859ee08ddb2c3ad2ddca407ed10523837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:11 +0000
Subject: [PATCH 11/16] fix: use the requested number of kernel points in the
 Monte Carlo approximation

---
 coreax/approximation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coreax/approximation.py b/coreax/approximation.py
index dd78e7d..cecef79 100644
--- a/coreax/approximation.py
+++ b/coreax/approximation.py
@@ -202,7 +202,7 @@ class MonteCarloApproximateKernel(RandomRegressionKernel):
 
         num_data_points = len(x)
         key = self.random_key
-        features_idx = _random_indices(key, num_data_points, self.num_kernel_points - 1)
+        features_idx = _random_indices(key, num_data_points, self.num_kernel_points)
         features = self.base_kernel.compute(x, x[features_idx])
         return _random_least_squares(
             key,
-- 
2.43.0


From 575babd2ff571e252e3af37e61246e2961960991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:09 +0000
Subject: [PATCH 12/16] fix: give constant kernels gradients with the shape of
 their argument

---
 coreax/kernels/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coreax/kernels/base.py b/coreax/kernels/base.py
index 0e4b74d..00f9ac5 100644
--- a/coreax/kernels/base.py
+++ b/coreax/kernels/base.py
@@ -608,11 +608,11 @@ class _Constant(ScalarValuedKernel):
 
     @override
     def grad_x_elementwise(self, x, y):
-        return jnp.asarray(0)
+        return jnp.zeros(jnp.shape(x))
 
     @override
     def grad_y_elementwise(self, x, y):
-        return jnp.asarray(0)
+        return jnp.zeros(jnp.shape(y))
 
     @override
     def divergence_x_grad_y_elementwise(self, x, y):
-- 
2.43.0


From 5a7e2857e9933988cc66433f0750c68f43fb32a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:09 +0000
Subject: [PATCH 13/16] fix: keep the divergence of a kernel to the power one
 finite where the kernel is zero

---
 coreax/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coreax/kernels/base.py b/coreax/kernels/base.py
index 00f9ac5..9d80482 100644
--- a/coreax/kernels/base.py
+++ b/coreax/kernels/base.py
@@ -690,7 +690,7 @@ class PowerKernel(UniCompositeKernel, ScalarValuedKernel):
                 * self.base_kernel.divergence_x_grad_y_elementwise(x, y)
             )
             + (n - 1)
-            * compute ** (n - 2)
+            * compute ** max(n - 2, 0)
             * (
                 self.base_kernel.grad_x_elementwise(x, y).dot(
                     self.base_kernel.grad_y_elementwise(x, y)
-- 
2.43.0


From e3fd530b9a222e8316f4522464b22e2c0c8edb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:09 +0000
Subject: [PATCH 14/16] fix: accept scalar points in the elementwise kernel
 methods

---
 coreax/kernels/base.py          |  2 +-
 coreax/kernels/scalar_valued.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/coreax/kernels/base.py b/coreax/kernels/base.py
index 9d80482..0f8f361 100644
--- a/coreax/kernels/base.py
+++ b/coreax/kernels/base.py
@@ -387,7 +387,7 @@ class ScalarValuedKernel(eqx.Module):  # noqa: PLR0904
         :return: Trace of the Laplace-style operator; a real number
         """
         pseudo_hessian = jax.jacrev(self.grad_y_elementwise, 0)(x, y)
-        return pseudo_hessian.trace()
+        return jnp.atleast_2d(pseudo_hessian).trace()
 
     def gramian_row_mean(
         self,
diff --git a/coreax/kernels/scalar_valued.py b/coreax/kernels/scalar_valued.py
index 2488e5e..1c87c43 100644
--- a/coreax/kernels/scalar_valued.py
+++ b/coreax/kernels/scalar_valued.py
@@ -121,7 +121,7 @@ class PolynomialKernel(ScalarValuedKernel):
     def divergence_x_grad_y_elementwise(self, x, y):
         dot = jnp.dot(x, y)
         body = dot + self.constant
-        d = len(jnp.asarray(x))
+        d = len(jnp.atleast_1d(x))
 
         return (
             self.output_scale
@@ -223,7 +223,7 @@ class LaplacianKernel(ScalarValuedKernel):
     @override
     def compute_elementwise(self, x, y):
         return self.output_scale * jnp.exp(
-            -jnp.linalg.norm(jnp.subtract(x, y), ord=1) / (2 * self.length_scale**2)
+            -jnp.sum(jnp.abs(jnp.subtract(x, y))) / (2 * self.length_scale**2)
         )
 
     @override
@@ -241,7 +241,7 @@ class LaplacianKernel(ScalarValuedKernel):
     @override
     def divergence_x_grad_y_elementwise(self, x, y):
         k = self.compute_elementwise(x, y)
-        d = len(jnp.asarray(x))
+        d = len(jnp.atleast_1d(x))
         return -d * k / (4 * self.length_scale**4)
 
 
@@ -290,7 +290,7 @@ class SquaredExponentialKernel(ScalarValuedKernel):
     def divergence_x_grad_y_elementwise(self, x, y):
         k = self.compute_elementwise(x, y)
         scale = 1 / self.length_scale**2
-        d = len(jnp.asarray(x))
+        d = len(jnp.atleast_1d(x))
         return scale * k * (d - scale * squared_distance(x, y))
 
     def get_sqrt_kernel(self, dim: int) -> "SquaredExponentialKernel":
@@ -363,7 +363,7 @@ class PCIMQKernel(ScalarValuedKernel):
     def divergence_x_grad_y_elementwise(self, x, y):
         k = self.compute_elementwise(x, y) / self.output_scale
         scale = 2 * self.length_scale**2
-        d = len(jnp.asarray(x))
+        d = len(jnp.atleast_1d(x))
         return (
             self.output_scale
             / scale
-- 
2.43.0


From 075fdd96b87144645a4b1fb7c2e9032458dba068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:07 +0000
Subject: [PATCH 15/16] fix: keep the derivatives of MaternKernel finite at
 coincident points

---
 coreax/kernels/scalar_valued.py | 56 +++++++++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/coreax/kernels/scalar_valued.py b/coreax/kernels/scalar_valued.py
index 1c87c43..d06d822 100644
--- a/coreax/kernels/scalar_valued.py
+++ b/coreax/kernels/scalar_valued.py
@@ -14,6 +14,7 @@
 
 """Scalar-valued kernel functions."""
 
+import math
 from collections.abc import Callable
 
 import equinox as eqx
@@ -521,6 +522,61 @@ class MaternKernel(ScalarValuedKernel):
             summation = mapped_function(body, jnp.arange(self.degree + 1)).sum()
         return factor * summation
 
+    # Automatic differentiation of the norm is undefined at x = y, whereas the kernel is
+    # differentiable there if its degree is positive, so use the recurrence that relates
+    # the derivative of a Matérn kernel to the Matérn kernel of the preceding degree.
+    def _scaled_distance(self, x, y):
+        r"""Compute :math:`\frac{\sqrt{2p+1}||x-y||}{\lambda}`."""
+        norm = jnp.linalg.norm(jnp.subtract(x, y))
+        return jnp.sqrt(2 * self.degree + 1) * norm / self.length_scale
+
+    @staticmethod
+    def _unit_matern(degree: int, body: Shaped[Array, ""]) -> Shaped[Array, ""]:
+        """Evaluate the unit Matérn kernel with ``degree`` at a scaled distance."""
+        summation = sum(
+            math.factorial(degree + i)
+            / (math.factorial(i) * math.factorial(degree - i))
+            * (2 * body) ** (degree - i)
+            for i in range(degree + 1)
+        )
+        factor = math.factorial(degree) / math.factorial(2 * degree)
+        return factor * jnp.exp(-body) * summation
+
+    @override
+    def grad_x_elementwise(self, x, y):
+        return -self.grad_y_elementwise(x, y)
+
+    @override
+    def grad_y_elementwise(self, x, y):
+        if self.degree == 0:
+            return super().grad_y_elementwise(x, y)
+        body = self._scaled_distance(x, y)
+        factor = (2 * self.degree + 1) / ((2 * self.degree - 1) * self.length_scale**2)
+        return (
+            self.output_scale**2
+            * factor
+            * jnp.subtract(x, y)
+            * self._unit_matern(self.degree - 1, body)
+        )
+
+    @override
+    def divergence_x_grad_y_elementwise(self, x, y):
+        if self.degree == 0:
+            return super().divergence_x_grad_y_elementwise(x, y)
+        d = len(jnp.atleast_1d(x))
+        body = self._scaled_distance(x, y)
+        factor = (2 * self.degree + 1) / ((2 * self.degree - 1) * self.length_scale**2)
+        if self.degree == 1:
+            radial_term = -body * jnp.exp(-body)
+        else:
+            radial_term = -(body**2) / (2 * self.degree - 3)
+            radial_term *= self._unit_matern(self.degree - 2, body)
+        return (
+            self.output_scale**2
+            * factor
+            * (d * self._unit_matern(self.degree - 1, body) + radial_term)
+        )
+
 
 class PeriodicKernel(ScalarValuedKernel):
     r"""
-- 
2.43.0


From 2a80536580a1568991f9c522f62963ef8165c27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:27 +0000
Subject: [PATCH 16/16] fix: return the minimum-norm solution of zero systems
 in RandomisedEigendecompositionSolver

---
 coreax/least_squares.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coreax/least_squares.py b/coreax/least_squares.py
index 6d90dcc..65ab484 100644
--- a/coreax/least_squares.py
+++ b/coreax/least_squares.py
@@ -223,6 +223,8 @@ def _eigendecomposition_invert(
     # Mask the eigenvalues that are zero or almost zero according to value of rcond
     # for safe inversion.
     mask = eigenvalues >= jnp.array(rcond) * jnp.max(eigenvalues)
+    # If all eigenvalues are zero then the cut-off is zero too
+    mask = mask & (eigenvalues != 0)
     safe_eigenvalues = jnp.where(mask, eigenvalues, 1)
 
     # Invert the eigenvalues safely and extend array for broadcasting
-- 
2.43.0

