From 884a11eef513a26d7c0371a8935aca2af04aec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:42 +0000
Subject: [PATCH 01/47] fix: MatMul keeps its separator when hyperparameters
 are restored

---
 parametricmatrixmodels/modules/matmul.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parametricmatrixmodels/modules/matmul.py b/parametricmatrixmodels/modules/matmul.py
index e293d40..c060f20 100644
--- a/parametricmatrixmodels/modules/matmul.py
+++ b/parametricmatrixmodels/modules/matmul.py
@@ -421,6 +421,7 @@ class MatMul(Einsum):
             trainable=self.trainable,
             init_magnitude=self.init_magnitude,
             real=self.real,
+            separator=self.separator,
         )
 
         super().set_hyperparameters(hyperparams)
-- 
2.43.0


From d651c49fc680a967a64ac16edfad129dadef239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:42 +0000
Subject: [PATCH 02/47] fix: ConcatenateLeaves exports path_order and separator

---
 parametricmatrixmodels/modules/concatenateleaves.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parametricmatrixmodels/modules/concatenateleaves.py b/parametricmatrixmodels/modules/concatenateleaves.py
index 5832d28..4448856 100644
--- a/parametricmatrixmodels/modules/concatenateleaves.py
+++ b/parametricmatrixmodels/modules/concatenateleaves.py
@@ -176,6 +176,8 @@ class ConcatenateLeaves(BaseModule):
     def get_hyperparameters(self) -> HyperParams:
         return {
             "axis": self.axis,
+            "path_order": self.path_order,
+            "separator": self.separator,
         }
 
     def get_params(self) -> Params:
-- 
2.43.0


From 554e99151721f114f5bb61d75788a6c876cf880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:42 +0000
Subject: [PATCH 03/47] fix: LowRankAffineHermitianMatrix exports matrix_rank

---
 parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py b/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
index 254d9ad..68549b8 100644
--- a/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
+++ b/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
@@ -276,6 +276,7 @@ class LowRankAffineHermitianMatrix(BaseModule):
     def get_hyperparameters(self) -> HyperParams:
         return {
             "matrix_size": self.matrix_size,
+            "matrix_rank": self.matrix_rank,
             "smoothing": self.smoothing,
             "init_magnitude": self.init_magnitude,
             "bias_term": self.bias_term,
-- 
2.43.0


From 812311c36074c41b5f4e7a95bce65bb7cfb662d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:22 +0000
Subject: [PATCH 04/47] fix: AffineEigenvaluePMM keeps user supplied matrices
 when saved or copied

---
 parametricmatrixmodels/modules/affineeigenvaluepmm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parametricmatrixmodels/modules/affineeigenvaluepmm.py b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
index 5b3c474..9fa90e3 100644
--- a/parametricmatrixmodels/modules/affineeigenvaluepmm.py
+++ b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
@@ -201,6 +201,7 @@ class AffineEigenvaluePMM(SequentialModel):
             "num_eig": self.num_eig,
             "which": self.which,
             "smoothing": self.smoothing,
+            "Ms": self.Ms,
             "init_magnitude": self.init_magnitude,
             "bias_term": self.bias_term,
             **super().get_hyperparameters(),
@@ -211,6 +212,7 @@ class AffineEigenvaluePMM(SequentialModel):
         self.num_eig = hyperparams["num_eig"]
         self.which = hyperparams["which"]
         self.smoothing = hyperparams["smoothing"]
+        self.Ms = hyperparams.get("Ms", self.Ms)
         self.init_magnitude = hyperparams["init_magnitude"]
         self.bias_term = hyperparams["bias_term"]
         super().set_hyperparameters(hyperparams)
-- 
2.43.0


From fd0c336bae3c10d804344fea1d9768cb624987bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:22 +0000
Subject: [PATCH 05/47] fix: AffineObservablePMM keeps user supplied matrices
 when saved or copied

---
 parametricmatrixmodels/modules/affineobservablepmm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parametricmatrixmodels/modules/affineobservablepmm.py b/parametricmatrixmodels/modules/affineobservablepmm.py
index 94f2317..744eb66 100644
--- a/parametricmatrixmodels/modules/affineobservablepmm.py
+++ b/parametricmatrixmodels/modules/affineobservablepmm.py
@@ -328,6 +328,9 @@ class AffineObservablePMM(SequentialModel):
             "centered": self.centered,
             "bias_term": self.bias_term,
             "use_expectation_values": self.use_expectation_values,
+            "Ms": self.Ms,
+            "Ds": self.Ds,
+            "b": self.b,
             **super().get_hyperparameters(),
         }
 
@@ -343,4 +346,7 @@ class AffineObservablePMM(SequentialModel):
         self.output_size = hyperparams["output_size"]
         self.centered = hyperparams["centered"]
         self.use_expectation_values = hyperparams["use_expectation_values"]
+        self.Ms = hyperparams.get("Ms", self.Ms)
+        self.Ds = hyperparams.get("Ds", self.Ds)
+        self.b = hyperparams.get("b", self.b)
         super().set_hyperparameters(hyperparams)
-- 
2.43.0


From 5f4e854c17e863011ff268398cc99c565b4ff615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:55 +0000
Subject: [PATCH 06/47] fix: recalibration discards quantiles cached from the
 previous calibration

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index e7aa48d..7c6ce3d 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -812,6 +812,8 @@ class ConformalizedModel(object):
         # s = |Y - Y_pred| / u
 
         self.scores = tree_util.div(tree_util.abs(Y_cal_residuals), u_cal)
+        # quantiles cached for a previous calibration are no longer valid
+        self.qhats = {}
 
     def parameter_sensitivity(
         self,
-- 
2.43.0


From c1805b21eefd8d07f25b64049ab90976b642f927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:55 +0000
Subject: [PATCH 07/47] fix: ConformalizedModel.deserialize enforces
 strict_package_version on the wrapped model

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 7c6ce3d..58699f1 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1637,7 +1637,9 @@ class ConformalizedModel(object):
         model_module = data["model_module"]
         model_typename = data["model_typename"]
         model = getattr(sys.modules[model_module], model_typename)()
-        model.deserialize(data["model"])
+        model.deserialize(
+            data["model"], strict_package_version=strict_package_version
+        )
 
         # deserialize the conformalization state
         conf_state = data["conformalization_state"]
-- 
2.43.0


From 1c6995e05af6ffc0eb7d46aacd70203ab1bbd475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:55 +0000
Subject: [PATCH 08/47] fix: ConformalizedModel.from_file accepts the file name
 given to save

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 58699f1..d4e3190 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1753,6 +1753,8 @@ class ConformalizedModel(object):
         A ``ConformalizedModel`` instance.
         """
 
+        if isinstance(file, str):
+            file = file if file.endswith(".npz") else file + ".npz"
         data = np.load(file, allow_pickle=True)
 
         # convert npz object to dict
-- 
2.43.0


From 3c4e8fdfce0dc5f02a4cc0d46745bcbb05624f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:55 +0000
Subject: [PATCH 09/47] fix: ConformalizedModel.from_file restores the name as
 a string

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index d4e3190..2c72398 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1769,6 +1769,8 @@ class ConformalizedModel(object):
             data["model_fulltypename"] = data["model_fulltypename"].item()
         if isinstance(data["model_module"], (onp.ndarray, np.ndarray)):
             data["model_module"] = data["model_module"].item()
+        if isinstance(data.get("conformal_name"), (onp.ndarray, np.ndarray)):
+            data["conformal_name"] = data["conformal_name"].item()
         if isinstance(
             data["conformalization_state"], (onp.ndarray, np.ndarray)
         ):
-- 
2.43.0


From e06faa624e074851a32e92dcd7d584b57aef1d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:56 +0000
Subject: [PATCH 10/47] fix: RobustScaler handles data with more than one
 feature

---
 .../preprocessing/robust_scaler.py                   | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index ad83e81..71fc5dc 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -190,11 +190,8 @@ class RobustScaler(Scaler):
                 "appropriate data before using 'transform'."
             )
         return jax.tree.map(
-            lambda x, median, scale: (
-                (x - median) / scale
-                if np.abs(scale) > self.eps
-                else x - median
-            ),
+            lambda x, median, scale: (x - median)
+            / np.where(np.abs(scale) > self.eps, scale, 1.0),
             X,
             self.median_,
             self.scale_,
@@ -225,9 +222,8 @@ class RobustScaler(Scaler):
             )
         return jax.tree.map(
             lambda x_scaled, median, scale: (
-                x_scaled * scale + median
-                if np.abs(scale) > self.eps
-                else x_scaled + median
+                x_scaled * np.where(np.abs(scale) > self.eps, scale, 1.0)
+                + median
             ),
             X_scaled,
             self.median_,
-- 
2.43.0


From f5f442d3278e8e98bdb647da1de83ec16314ad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:56 +0000
Subject: [PATCH 11/47] fix: OneHot keeps multi-column categories intact

---
 parametricmatrixmodels/preprocessing/onehot.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/onehot.py b/parametricmatrixmodels/preprocessing/onehot.py
index 8401c7d..5fcc61b 100644
--- a/parametricmatrixmodels/preprocessing/onehot.py
+++ b/parametricmatrixmodels/preprocessing/onehot.py
@@ -48,12 +48,10 @@ class OneHot(Scaler):
         """
 
         # flatten all feature axes and compute unique values for each leaf
-        # sort the unique values to ensure consistent ordering across runs and
-        # platforms
+        # (np.unique returns the rows in sorted order, which ensures consistent
+        # ordering across runs and platforms)
         self.unique_vals_ = jax.tree.map(
-            lambda x: np.sort(
-                np.unique(x.reshape(x.shape[0], -1), axis=0), axis=0
-            ),
+            lambda x: np.unique(x.reshape(x.shape[0], -1), axis=0),
             X,
         )
         self.original_shapes_ = jax.tree.map(lambda x: x.shape[1:], X)
-- 
2.43.0


From ea21f064eeb6e01cf61c9f5c4d2c2903171edd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:48 +0000
Subject: [PATCH 12/47] fix: modules inside a nested model keep their own
 trainable flags

---
 parametricmatrixmodels/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 9fc23cc..e40894b 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1256,7 +1256,10 @@ class Model(BaseModule):
         None/())
         """
 
-        def is_trainable(mod: BaseModule) -> bool:
+        def is_trainable(mod: BaseModule) -> bool | PyTree[bool]:
+            if isinstance(mod, Model):
+                # modules inside a nested model keep their own flags
+                return mod.get_trainable_modules()
             p = mod.get_params()
             has_params = (p is not None) and len(jax.tree.leaves(p)) > 0
             return mod.trainable and has_params
-- 
2.43.0


From ddcedaf1a67451e15cf64603e98b968c6bb1b5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:23 +0000
Subject: [PATCH 13/47] fix: validation loss callable without validation data
 gets the training targets

---
 parametricmatrixmodels/model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index e40894b..c50236f 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1175,8 +1175,13 @@ class Model(BaseModule):
         loss_fn_ = clean_loss_fn(loss_fn, Y_prov, Y_unc_prov)
 
         # repeat for validation
-        Y_val_prov = Y_val is not None
-        Y_val_unc_prov = Y_val_unc is not None
+        # without validation data, the training data is used for validation
+        if X_val is None:
+            Y_val_prov = Y_prov
+            Y_val_unc_prov = Y_unc_prov
+        else:
+            Y_val_prov = Y_val is not None
+            Y_val_unc_prov = Y_val_unc is not None
         val_loss_fn_ = (
             clean_loss_fn(val_loss_fn, Y_val_prov, Y_val_unc_prov)
             if val_loss_fn is not None
-- 
2.43.0


From f5a37cf201b2322f91bab86fc3eeb42136da6f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:30 +0000
Subject: [PATCH 14/47] fix: autobatch without recompilation handles inputs
 with one axis

---
 parametricmatrixmodels/model_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model_util.py b/parametricmatrixmodels/model_util.py
index 83938d8..9c2cf17 100644
--- a/parametricmatrixmodels/model_util.py
+++ b/parametricmatrixmodels/model_util.py
@@ -213,7 +213,7 @@ def autobatch(
                     out_remainders = []
                     for j in range(remainder):
                         X_rem = jax.tree.map(
-                            lambda x: x[j][None, :], X_remainder
+                            lambda x: x[j : j + 1], X_remainder
                         )
                         out_remainder, new_state = jfn(
                             params,
-- 
2.43.0


From 322ad2d5cd7c03bbc0ee8a8c4dbd9a4574dce0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:52 +0000
Subject: [PATCH 15/47] fix: pseudo-Huber loss works on PyTree targets

---
 parametricmatrixmodels/training.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index 6907369..a83de3d 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -1787,14 +1787,10 @@ def make_loss_fn(fn_name: str, model_fn: Callable):
 
             error = pmm_tree_util.sub(Y_pred, Y)
 
-            pseudo_huber_loss = delta**2 * (
-                pmm_tree_util.sqrt(
-                    1
-                    + pmm_tree_util.abs_sqr(
-                        jax.tree.map(lambda x: x / delta, error)
-                    )
-                )
-                - 1
+            pseudo_huber_loss = jax.tree.map(
+                lambda e: delta**2
+                * (np.sqrt(1 + np.abs(e / delta) ** 2) - 1),
+                error,
             )
 
             return (pmm_tree_util.mean(pseudo_huber_loss), new_state)
-- 
2.43.0


From face903b2c4c9abced2ca69304044809e129b152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:52 +0000
Subject: [PATCH 16/47] fix: tree mean, scalar_add and scalar_mul accept leaves
 of different shapes

---
 parametricmatrixmodels/tree_util.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parametricmatrixmodels/tree_util.py b/parametricmatrixmodels/tree_util.py
index a42d94b..78b8731 100644
--- a/parametricmatrixmodels/tree_util.py
+++ b/parametricmatrixmodels/tree_util.py
@@ -578,7 +578,7 @@ def extend_structure_from_strpaths(
 
 @jaxtyped(typechecker=beartype)
 def mean(
-    pytree: PyTree[Num[Array, " *d"], " T"],
+    pytree: PyTree[Num[Array, "?*d"], " T"],
 ) -> Num[Array, ""]:
     r"""
     Computes the mean of all elements in all leaves of a PyTree of arrays.
@@ -823,9 +823,9 @@ def pow(
 
 @jaxtyped(typechecker=beartype)
 def scalar_add(
-    pytree: PyTree[Num[Array, " *d"], " T"],
+    pytree: PyTree[Num[Array, "?*d"], " T"],
     scalar: complex | float | int | Num[Array, ""],
-) -> PyTree[Num[Array, " *d"], " T"]:
+) -> PyTree[Num[Array, "?*d"], " T"]:
     r"""
     Adds a scalar value to all leaves of a PyTree of arrays.
 
@@ -847,9 +847,9 @@ def scalar_add(
 
 @jaxtyped(typechecker=beartype)
 def scalar_mul(
-    pytree: PyTree[Num[Array, " *d"], " T"],
+    pytree: PyTree[Num[Array, "?*d"], " T"],
     scalar: complex | float | int | Num[Array, ""],
-) -> PyTree[Num[Array, " *d"], " T"]:
+) -> PyTree[Num[Array, "?*d"], " T"]:
     r"""
     Multiplies all leaves of a PyTree of arrays by a scalar value.
 
-- 
2.43.0


From efea8ddb28d5205d4266ad818188ae904e741f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:42 +0000
Subject: [PATCH 17/47] fix: weighted quantiles sort by the data and work for
 any number of axes

---
 .../conformal/conformalizedmodel.py              | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 2c72398..0741322 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1800,10 +1800,18 @@ def weighted_quantile(
     axis: int = 0,
     quantiles: Real[Array, " q"] | float = 0.5,
 ) -> Inexact[Array, "..."]:
-    idxs = np.argsort(weights, axis=axis)
-    cum_weights = np.cumsum(weights[idxs], axis=axis)
-    w_qs = np.interp(quantiles * cum_weights[~0], cum_weights, data[idxs])
-    return w_qs
+    idxs = np.argsort(data, axis=axis)
+    data = np.take_along_axis(data, idxs, axis=axis)
+    cum_weights = np.cumsum(
+        np.take_along_axis(weights, idxs, axis=axis), axis=axis
+    )
+    quantiles = np.asarray(quantiles)
+    # all axes but the reduced one are independent, quantiles lead the result
+    w_qs = np.vectorize(
+        lambda c, d: np.interp(quantiles * c[-1], c, d),
+        signature="(n),(n)->" + ("(q)" if quantiles.ndim else "()"),
+    )(np.moveaxis(cum_weights, axis, -1), np.moveaxis(data, axis, -1))
+    return np.moveaxis(w_qs, -1, 0) if quantiles.ndim else w_qs
 
 
 def mad(
-- 
2.43.0


From 1e594178597147bfd37ebaaf31fca227328b65f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:36 +0000
Subject: [PATCH 18/47] fix: input uncertainties scale each sample's own
 sensitivity

---
 .../conformal/conformalizedmodel.py              | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 0741322..4fea831 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -3,7 +3,6 @@ from __future__ import annotations
 import operator
 import sys
 import warnings
-from functools import partial
 from pathlib import Path
 from typing import IO
 
@@ -980,7 +979,7 @@ class ConformalizedModel(object):
             X_unc = handle_naninf(X_unc)
             dy_input_unc = tree_util.scalar_mul(
                 jax.tree.map(
-                    lambda _, df: accumulate_sum_sq_over_output_leaves(
+                    lambda _, df: accumulate_sum_sq_per_sample_scale(
                         u_dtype, df, X_unc
                     ),
                     self.model.output_shape,
@@ -1905,9 +1904,8 @@ def pytree_robust_normalization(
         return jax.tree.map(lambda d: robust_normalization(d, None, eps), data)
 
 
-@partial(jax.vmap, in_axes=(None, 0, None))
 @jaxtyped(typechecker=beartype)
-def accumulate_sum_sq_over_output_leaves(
+def sum_sq_over_output_leaves(
     u_dtype: jax.typing.DTypeLike,
     df_leaf_dxs: PyTree[Inexact[Array, "..."], " In"],
     x_scales: PyTree[Inexact[Array, "..."], " In"],
@@ -1942,3 +1940,13 @@ def accumulate_sum_sq_over_output_leaves(
             x_scales,
         ),
     )
+
+
+# one scale for all samples
+accumulate_sum_sq_over_output_leaves = jax.vmap(
+    sum_sq_over_output_leaves, in_axes=(None, 0, None)
+)
+# every sample has its own scale
+accumulate_sum_sq_per_sample_scale = jax.vmap(
+    sum_sq_over_output_leaves, in_axes=(None, 0, 0)
+)
-- 
2.43.0


From d8529a37843f3f58cd5ebeb394dde04470e670e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:50 +0000
Subject: [PATCH 19/47] fix: input gradients accept trees of inputs with
 different feature sizes

---
 parametricmatrixmodels/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index c50236f..fd3c9fd 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -737,11 +737,11 @@ class Model(BaseModule):
             @jaxtyped(typechecker=beartype)
             def callable_single(
                 params: ModelParams,
-                x: Data,
+                x: PyTree[Inexact[Array, "..."]],  # no batch dim
                 training: bool,
                 state: ModelState,
                 rng: Any,
-            ) -> PyTree[Inexact[Array, "..."]]:  # no batch dim
+            ) -> Tuple[PyTree[Inexact[Array, "..."]], ModelState]:
                 y, new_state = raw_callable(
                     params,
                     jax.tree.map(lambda u: u[None, ...], x),
-- 
2.43.0


From c9d9f66036e001f94cbe113d3398c32c6fd254ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:50 +0000
Subject: [PATCH 20/47] fix: distance sensitivity is added per sample for
 outputs of any rank

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 4fea831..1bfc0d1 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1519,7 +1519,12 @@ class ConformalizedModel(object):
                     clearline=clearline,
                 )
 
-                u = jax.tree.map(lambda x: x + u_dist, u)
+                # one distance per sample, for outputs of any rank
+                u = jax.tree.map(
+                    lambda x: x
+                    + u_dist.reshape((-1,) + (1,) * (x.ndim - 1)),
+                    u,
+                )
 
         return u
 
-- 
2.43.0


From 87152399fd045d8abceddc09230d8a2013187e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:50 +0000
Subject: [PATCH 21/47] fix: stratified bias correction works for more than one
 output

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 1bfc0d1..58fbeb5 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -536,7 +536,7 @@ class ConformalizedModel(object):
                         for i in range(self._strata_unique_values.shape[0])
                     ]
                     # bias of 0.0 for points that don't match any strata
-                    + [[0.0]],
+                    + [np.zeros(y.shape[1:], dtype=y.dtype)],
                     dtype=y.dtype,
                 ),
                 Y_cal_residuals,
-- 
2.43.0


From 183e211e2dec8b3866114f5112665388c0b141d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:23 +0000
Subject: [PATCH 22/47] fix: calibration without distance sensitivity does not
 index empty points

---
 .../conformal/conformalizedmodel.py           | 50 ++++++++++---------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 58fbeb5..9bfc53a 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -674,31 +674,33 @@ class ConformalizedModel(object):
             )
             self._onehot_training_enc.fit(self._training_data)
 
-            flat_data = self._prepare_data_for_kdtree(self._training_data)
+            # without any distance sensitivity there are no points to index
+            if tree_util.any(self._distance_sensitivity):
+                flat_data = self._prepare_data_for_kdtree(self._training_data)
 
-            # before building the KDTree, remove any duplicate points in the
-            # processed training data
-            flat_data_unique = np.unique(flat_data, axis=0)
+                # before building the KDTree, remove any duplicate points in
+                # the processed training data
+                flat_data_unique = np.unique(flat_data, axis=0)
 
-            # build KDTree
-            self._kdtree = KDTree(flat_data_unique)
+                # build KDTree
+                self._kdtree = KDTree(flat_data_unique)
 
-            # query the tree with the training data to get the distance cutoff
-            # for the distance sensitivity
-            distances, _ = self._kdtree.query(
-                flat_data_unique, k=2, p=1.0, workers=-1
-            )
-            # if the nearest neighbor distance is zero (the tree correctly
-            # identified the point itself as the nearest neighbor), we take the
-            # second nearest neighbor distance as the distance to the nearest
-            # neighbor, otherwise (due to numerical error in KDTree) we take
-            # the first nearest neighbor distance
-            nn_distances = np.where(
-                distances[:, 0] == 0, distances[:, 1], distances[:, 0]
-            )
-            self._distance_cutoff = np.quantile(
-                nn_distances, self.nn_dist_quantile
-            )
+                # query the tree with the training data to get the distance
+                # cutoff for the distance sensitivity
+                distances, _ = self._kdtree.query(
+                    flat_data_unique, k=2, p=1.0, workers=-1
+                )
+                # if the nearest neighbor distance is zero (the tree correctly
+                # identified the point itself as the nearest neighbor), we take
+                # the second nearest neighbor distance as the distance to the
+                # nearest neighbor, otherwise (due to numerical error in
+                # KDTree) we take the first nearest neighbor distance
+                nn_distances = np.where(
+                    distances[:, 0] == 0, distances[:, 1], distances[:, 0]
+                )
+                self._distance_cutoff = np.quantile(
+                    nn_distances, self.nn_dist_quantile
+                )
 
         weights = (
             jax.tree.map(lambda x: 1 / x, Y_cal_unc)
@@ -1694,7 +1696,9 @@ class ConformalizedModel(object):
         conf_model._distance_sensitivity = conf_state["_distance_sensitivity"]
 
         # if the training data is not None, rebuild the KDTree
-        if conf_model._training_data is not None:
+        if conf_model._training_data is not None and tree_util.any(
+            conf_model._distance_sensitivity
+        ):
             flat_data = conf_model._prepare_data_for_kdtree(
                 conf_model._training_data
             )
-- 
2.43.0


From 536cda1dcf3495eb985a39a61ecc827918f11893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:25 +0000
Subject: [PATCH 23/47] fix: calibrate a conformalized model whose features are
 all categorical

The input sensitivity is defined over continuous features only; with none
enabled the number of features it divides by is zero.
---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 9bfc53a..31441cc 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -451,6 +451,13 @@ class ConformalizedModel(object):
                 )
             self._input_sensitivity = input_sensitivity
 
+        # the input sensitivity is only defined for continuous features
+        self._input_sensitivity = jax.tree.map(
+            lambda s, cont: s and cont,
+            self._input_sensitivity,
+            self._continuous_features,
+        )
+
         if isinstance(distance_sensitivity, bool):
             self._distance_sensitivity = jax.tree.map(
                 lambda _: distance_sensitivity,
-- 
2.43.0


From ca468fdb5672c6bd36c056bfcb029656fd38250e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:55 +0000
Subject: [PATCH 24/47] fix: module names beginning with 'input' or 'output' in
 connections

Modules such as 'output_head' or a block 'inputs' were mistaken for the
reserved model input/output nodes: the model output gained the module's
input, or the connections could not be resolved.
---
 parametricmatrixmodels/graph_util.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/parametricmatrixmodels/graph_util.py b/parametricmatrixmodels/graph_util.py
index f1566f5..748abda 100644
--- a/parametricmatrixmodels/graph_util.py
+++ b/parametricmatrixmodels/graph_util.py
@@ -359,12 +359,7 @@ def get_outer_connections_by_tree(
     # we use OrderedSet to preserve order
     conn_stripped: Dict[str, OrderedSet[str]] = {}
     for key, value in conn_separated.items():
-        # special case for 'input' and 'output'
-        if key.startswith("input") or key.startswith("output"):
-            # remove all IO paths here too
-            stripped_key = key.split(separator)[0]
-        else:
-            stripped_key, _ = key.split(double_sep)
+        stripped_key, _ = key.split(double_sep)
         if stripped_key not in conn_stripped:
             conn_stripped[stripped_key] = OrderedSet()
         for v in value:
@@ -644,7 +639,11 @@ def place_connections_in_tree(
 
     # infer the remainder structure
     # search through the reversed_part_conn for all keys starting with out_key
-    output_keys = [k for k in reversed_conn if k.startswith(out_key)]
+    output_keys = [
+        k
+        for k in reversed_conn
+        if k == out_key or k.startswith(out_key + separator)
+    ]
 
     # if theres only a single output key, and that key is exactly out_key,
     # then the remainder is just that value
-- 
2.43.0


From 0653b5a89a32434395b9e648737365ff32106bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:55 +0000
Subject: [PATCH 25/47] fix: modules of a NonSequentialModel all drew from the
 same random key

---
 parametricmatrixmodels/nonsequentialmodel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/nonsequentialmodel.py b/parametricmatrixmodels/nonsequentialmodel.py
index 94d8168..160329a 100644
--- a/parametricmatrixmodels/nonsequentialmodel.py
+++ b/parametricmatrixmodels/nonsequentialmodel.py
@@ -885,13 +885,16 @@ class NonSequentialModel(Model):
                     return_remainder=False,
                 )
 
+                # every module gets its own key
+                rng, module_rng = jax.random.split(rng)
+
                 # call the module
                 out_data, new_module_state = module_callable(
                     module_params,
                     in_data,
                     training,
                     module_state,
-                    rng,
+                    module_rng,
                 )
 
                 # store the output
-- 
2.43.0


From e5a9b438eb32afe46539a847babf427e50d893d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:10 +0000
Subject: [PATCH 26/47] fix: NonSequentialModel callable overwrote the caller's
 state in place

---
 parametricmatrixmodels/nonsequentialmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/nonsequentialmodel.py b/parametricmatrixmodels/nonsequentialmodel.py
index 160329a..1558ea7 100644
--- a/parametricmatrixmodels/nonsequentialmodel.py
+++ b/parametricmatrixmodels/nonsequentialmodel.py
@@ -846,7 +846,8 @@ class NonSequentialModel(Model):
                 data,
                 separator=self.separator,
             )
-            new_state = state
+            # copy the containers: the caller's state must not be modified
+            new_state = jax.tree.map(lambda s: s, state)
             # now execute each module in the execution order, assembling the
             # inputs from the intermediate outputs
             for mod_path, module_callable, req_in_paths in zip(
-- 
2.43.0


From 6a08ec105fa889988220ae1e676f4a7c3c6cf1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:12 +0000
Subject: [PATCH 27/47] fix: Eigenvalues declared a wrong output shape for
 PyTree input when all eigenvalues are kept

---
 parametricmatrixmodels/modules/eigenvalues.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/eigenvalues.py b/parametricmatrixmodels/modules/eigenvalues.py
index fbcdf0f..075ea72 100644
--- a/parametricmatrixmodels/modules/eigenvalues.py
+++ b/parametricmatrixmodels/modules/eigenvalues.py
@@ -151,7 +151,7 @@ class Eigenvalues(BaseModule):
         validate_eigensystem_input_shape(input_shape, self.num_eig)
         return jax.tree.map(
             lambda s: (
-                self.num_eig if self.num_eig is not None else input_shape[0],
+                self.num_eig if self.num_eig is not None else s[0],
             ),
             input_shape,
             is_leaf=is_shape_leaf,
-- 
2.43.0


From c65f6c82fac21abdedb35ffc6d17fa1daf1d7101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:12 +0000
Subject: [PATCH 28/47] fix: AffineObservablePMM ignored the user-supplied bias
 vector b

---
 parametricmatrixmodels/modules/affineobservablepmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parametricmatrixmodels/modules/affineobservablepmm.py b/parametricmatrixmodels/modules/affineobservablepmm.py
index 744eb66..55a6feb 100644
--- a/parametricmatrixmodels/modules/affineobservablepmm.py
+++ b/parametricmatrixmodels/modules/affineobservablepmm.py
@@ -289,6 +289,7 @@ class AffineObservablePMM(SequentialModel):
             if self.bias_term:
                 self.modules.append(
                     Bias(
+                        bias=self.b,
                         init_magnitude=self.init_magnitude,
                         real=True,
                         scalar=False,
-- 
2.43.0


From d85e8be905635316fd94bfaf3eee24214e916602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:12 +0000
Subject: [PATCH 29/47] fix: Einsum with several leading arrays compared einsum
 indices to arrays instead of shapes

---
 parametricmatrixmodels/modules/einsum.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parametricmatrixmodels/modules/einsum.py b/parametricmatrixmodels/modules/einsum.py
index 580a87b..12378b6 100644
--- a/parametricmatrixmodels/modules/einsum.py
+++ b/parametricmatrixmodels/modules/einsum.py
@@ -246,9 +246,13 @@ class Einsum(BaseModule):
             param_shapes_list = (
                 [self.params.shape]
                 if isinstance(self.params, np.ndarray)
-                else jax.tree.leaves(
-                    self.params, is_leaf=lambda x: isinstance(x, np.ndarray)
-                )
+                else [
+                    p.shape
+                    for p in jax.tree.leaves(
+                        self.params,
+                        is_leaf=lambda x: isinstance(x, np.ndarray),
+                    )
+                ]
             )
             if len(leading_strs) != len(param_shapes_list):
                 raise ValueError(
-- 
2.43.0


From 7ec0191a3fd34dcba88fa4a352eb10f5353901b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:12 +0000
Subject: [PATCH 30/47] fix: Reshape declared None as the output shape of
 leaves it leaves unchanged

---
 parametricmatrixmodels/modules/reshape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/reshape.py b/parametricmatrixmodels/modules/reshape.py
index 60a74c3..ba7f5a6 100644
--- a/parametricmatrixmodels/modules/reshape.py
+++ b/parametricmatrixmodels/modules/reshape.py
@@ -174,7 +174,7 @@ class Reshape(BaseModule):
             target_shape: ArrayDataShape | None,
         ) -> ArrayDataShape:
             if target_shape is None:
-                return
+                return in_shape
 
             in_size = np.prod(np.array(in_shape)).item()
             if -1 in target_shape:
-- 
2.43.0


From ebba4b5600e77c93709d88f13732f3cdaef05711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:25 +0000
Subject: [PATCH 31/47] fix: modules.__all__ listed a name that does not exist,
 breaking star imports

---
 parametricmatrixmodels/modules/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/__init__.py b/parametricmatrixmodels/modules/__init__.py
index 5ce432b..f6a47e7 100644
--- a/parametricmatrixmodels/modules/__init__.py
+++ b/parametricmatrixmodels/modules/__init__.py
@@ -136,7 +136,6 @@ __all__ = [  # noqa: F405
     "Exp2",
     "Expm1",
     "FAbs",
-    "Fix",
     "FloatPower",
     "Floor",
     "FloorDivide",
-- 
2.43.0


From e9d3df2eb997c3aca8d8532299234c7a5e2618a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:52 +0000
Subject: [PATCH 32/47] fix: ConcatenateLeaves with a negative axis joined
 along the batch dimension

---
 parametricmatrixmodels/modules/concatenateleaves.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/modules/concatenateleaves.py b/parametricmatrixmodels/modules/concatenateleaves.py
index 4448856..bba8ae1 100644
--- a/parametricmatrixmodels/modules/concatenateleaves.py
+++ b/parametricmatrixmodels/modules/concatenateleaves.py
@@ -112,7 +112,9 @@ class ConcatenateLeaves(BaseModule):
                     state,
                 )
             else:
-                return np.concatenate(leaves, axis=self.axis + 1), state
+                # negative axes count from the end and need no shift
+                axis = self.axis + 1 if self.axis >= 0 else self.axis
+                return np.concatenate(leaves, axis=axis), state
 
         return concatenate_leaves_callable
 
@@ -165,7 +167,8 @@ class ConcatenateLeaves(BaseModule):
                     axis=-1,
                 )
             else:
-                concatenated = np.concatenate(leaves, axis=self.axis + 1)
+                axis = self.axis + 1 if self.axis >= 0 else self.axis
+                concatenated = np.concatenate(leaves, axis=axis)
         except Exception as e:
             raise ValueError(
                 "Could not concatenate leaves with shapes "
-- 
2.43.0


From c52ad5c02a6ed0e5aa2fd7553879f896e0678a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:52 +0000
Subject: [PATCH 33/47] fix: MatMul with a trailing parameter rejected
 output_shape (None, n) and (n,)

---
 parametricmatrixmodels/modules/matmul.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/modules/matmul.py b/parametricmatrixmodels/modules/matmul.py
index c060f20..2087ff1 100644
--- a/parametricmatrixmodels/modules/matmul.py
+++ b/parametricmatrixmodels/modules/matmul.py
@@ -261,7 +261,10 @@ class MatMul(Einsum):
                         )
                     param_shape = (shape_list[~1][1],)
                 else:
-                    if self.output_shape[0] != shape_list[0][0]:
+                    if (
+                        self.output_shape[0] is not None
+                        and self.output_shape[0] != shape_list[0][0]
+                    ):
                         raise ValueError(
                             "If output_shape is a tuple and the parameter"
                             " matrix is the last operand, then the first"
@@ -270,7 +273,10 @@ class MatMul(Einsum):
                             " case, the first dimension of output_shape may be"
                             " None to infer this automatically."
                         )
-                    param_shape = (shape_list[~1][1], self.output_shape[1])
+                    param_shape = (
+                        shape_list[~1][1],
+                        *self.output_shape[1:],
+                    )
             else:
                 # in the middle somewhere
                 param_shape = (
-- 
2.43.0


From 481a204e51c53ef2b3620a5b58452fa75763b13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:52 +0000
Subject: [PATCH 34/47] fix: Constant declared no output shape when its value
 is set after construction

---
 parametricmatrixmodels/modules/constant.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parametricmatrixmodels/modules/constant.py b/parametricmatrixmodels/modules/constant.py
index d06cfe1..537ec7c 100644
--- a/parametricmatrixmodels/modules/constant.py
+++ b/parametricmatrixmodels/modules/constant.py
@@ -224,6 +224,8 @@ class Constant(BaseModule):
             )
 
     def get_output_shape(self, input_shape: DataShape) -> DataShape:
+        if self.constant is not None:
+            return jax.tree.map(lambda x: x.shape, self.constant)
         return self.shape
 
     def get_hyperparameters(self) -> HyperParams:
-- 
2.43.0


From 5dd113d0f80ff94502464db23d48553602dcb030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:46 +0000
Subject: [PATCH 35/47] fix: Reshape and Flatten computed a float size for
 leaves without feature dimensions

---
 parametricmatrixmodels/modules/reshape.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/modules/reshape.py b/parametricmatrixmodels/modules/reshape.py
index ba7f5a6..05e5455 100644
--- a/parametricmatrixmodels/modules/reshape.py
+++ b/parametricmatrixmodels/modules/reshape.py
@@ -1,3 +1,5 @@
+import math
+
 import jax
 import jax.numpy as np
 from beartype import beartype
@@ -176,7 +178,7 @@ class Reshape(BaseModule):
             if target_shape is None:
                 return in_shape
 
-            in_size = np.prod(np.array(in_shape)).item()
+            in_size = math.prod(in_shape)
             if -1 in target_shape:
                 # make sure there is only one -1
                 assert (
@@ -190,7 +192,7 @@ class Reshape(BaseModule):
                 inferred_dim = in_size // known_size
                 target_size = known_size * inferred_dim
             else:
-                target_size = np.prod(np.array(target_shape)).item()
+                target_size = math.prod(target_shape)
 
             assert in_size == target_size, (
                 f"Input shape {in_shape} is not compatible with target shape"
-- 
2.43.0


From 58f5e3295fbc2ada9a8c7f37bf1ccc7675b42a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:01 +0000
Subject: [PATCH 36/47] fix: SequentialModel failed on modules whose parameters
 are None (Einsum and MatMul without parameters)

---
 parametricmatrixmodels/sequentialmodel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/sequentialmodel.py b/parametricmatrixmodels/sequentialmodel.py
index caa7419..c94a1a8 100644
--- a/parametricmatrixmodels/sequentialmodel.py
+++ b/parametricmatrixmodels/sequentialmodel.py
@@ -323,7 +323,10 @@ class SequentialModel(Model):
                 is_leaf=lambda x: isinstance(x, tuple)
                 and len(x) == 4
                 and callable(x[0])
-                and isinstance(x[1], (jax.numpy.ndarray, list, tuple, dict)),
+                and (
+                    x[1] is None
+                    or isinstance(x[1], (jax.numpy.ndarray, list, tuple, dict))
+                ),
             )
 
             # reconstruct new state PyTree
-- 
2.43.0


From c3578bbcbb07f2534668b6d7165076c253dd0936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:19 +0000
Subject: [PATCH 37/47] fix: a LowRankAffineHermitianMatrix that is not
 compiled could be serialized but not deserialized or copied

---
 parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py b/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
index 68549b8..eaeb7e0 100644
--- a/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
+++ b/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
@@ -291,6 +291,8 @@ class LowRankAffineHermitianMatrix(BaseModule):
         super().set_hyperparameters(hyperparams)
 
     def get_params(self) -> Params:
+        if self.ls is None and self.us is None:
+            return None
         return (self.ls, self.us)
 
     def set_params(self, params: Params) -> None:
-- 
2.43.0


From b602ef7c35a0b3fa2240459ba40367e1f44fe953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:19 +0000
Subject: [PATCH 38/47] fix: a LinearNN that is not compiled lost its
 activation when saved, serialized or copied

---
 parametricmatrixmodels/modules/linearnn.py | 33 ++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/parametricmatrixmodels/modules/linearnn.py b/parametricmatrixmodels/modules/linearnn.py
index 461544e..ab33048 100644
--- a/parametricmatrixmodels/modules/linearnn.py
+++ b/parametricmatrixmodels/modules/linearnn.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import sys
+
 import jax
 
 from ..sequentialmodel import SequentialModel
@@ -177,6 +179,26 @@ class LinearNN(SequentialModel):
         self.real = hyperparams.get("real", self.real)
         super().set_hyperparameters(hyperparams)
 
+    def serialize(self) -> Dict[str, Serializable]:
+        r"""
+        Serialize the LinearNN module to a dictionary.
+
+        Returns
+        -------
+            A dictionary containing the serialized data of the module,
+            including its activation module.
+        """
+
+        data = super().serialize()
+        # the activation is only part of .modules once compiled
+        if self.activation is not None:
+            data["activation"] = {
+                "typename": self.activation.__class__.__name__,
+                "module": self.activation.__module__,
+                "data": self.activation.serialize(),
+            }
+        return data
+
     def deserialize(
         self,
         data: Dict[str, Serializable],
@@ -210,3 +232,14 @@ class LinearNN(SequentialModel):
                 self.activation = self.modules[3]
             else:
                 self.activation = None
+
+        # not compiled when saved, so the activation isn't in .modules
+        activation = data.get("activation", None)
+        if not self.modules and activation is not None:
+            self.activation = getattr(
+                sys.modules[activation["module"]], activation["typename"]
+            )()
+            self.activation.deserialize(
+                activation["data"],
+                strict_package_version=strict_package_version,
+            )
-- 
2.43.0


From bcde6ad9c5339b9ecfd937ffe50b4463be22612c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:19 +0000
Subject: [PATCH 39/47] fix: editing a model's modules (append, insert, pop,
 item assignment, +) also changed every model sharing the container

---
 parametricmatrixmodels/model.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index fd3c9fd..9ccf9c1 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1333,7 +1333,10 @@ class Model(BaseModule):
                     "modules are not stored in a "
                     "dictionary."
                 )
-            self.modules[key] = module
+            # edit a copy, the dictionary may be shared with another model
+            modules = Dict(self.modules)
+            modules[key] = module
+            self.modules = modules
         elif isinstance(key, (int, slice)):
             if not isinstance(self.modules, (List, Tuple)):
                 raise KeyError(
@@ -1341,7 +1344,10 @@ class Model(BaseModule):
                     "modules are not stored in a "
                     "list or tuple."
                 )
-            self.modules[key] = module
+            # edit a copy, the list may be shared with another model
+            modules = list(self.modules)
+            modules[key] = module
+            self.modules = type(self.modules)(modules)
         else:
             raise TypeError(f"Invalid key type {type(key)} for module access.")
 
@@ -1376,7 +1382,10 @@ class Model(BaseModule):
             items.insert(index, (key, module))
             self.modules = Dict(items)
         elif isinstance(self.modules, List):
-            self.modules.insert(index, module)
+            # edit a copy, the list may be shared with another model
+            modules = list(self.modules)
+            modules.insert(index, module)
+            self.modules = modules
         elif isinstance(self.modules, Tuple):
             self.modules = (
                 self.modules[:index] + (module,) + self.modules[index:]
@@ -1461,7 +1470,11 @@ class Model(BaseModule):
             self.modules = Dict(items)
             return module
         elif isinstance(self.modules, List):
-            return self.modules.pop(index)
+            # edit a copy, the list may be shared with another model
+            modules = list(self.modules)
+            module = modules.pop(index)
+            self.modules = modules
+            return module
         elif isinstance(self.modules, Tuple):
             module = self.modules[index]
             self.modules = self.modules[:index] + self.modules[index + 1 :]
@@ -1496,7 +1509,11 @@ class Model(BaseModule):
                     "modules are not stored in a "
                     "dictionary."
                 )
-            return self.modules.pop(key)
+            # edit a copy, the dictionary may be shared with another model
+            modules = Dict(self.modules)
+            module = modules.pop(key)
+            self.modules = modules
+            return module
         elif isinstance(key, int):
             if not isinstance(self.modules, (List, Tuple)):
                 raise KeyError(
-- 
2.43.0


From 699f71cfcad7a6f291785093c32eff88ae88ee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:19 +0000
Subject: [PATCH 40/47] fix: a model with modules that are not compiled could
 be saved but not loaded

---
 parametricmatrixmodels/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 9ccf9c1..154d22d 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1759,6 +1759,11 @@ class Model(BaseModule):
         # attribute
         data["self_serialized"].pop("trainable", None)
 
+        # remove params from data["self_serialized"] since every module already
+        # deserialized its own above, and modules without parameters (not yet
+        # compiled) don't accept None
+        data["self_serialized"].pop("params", None)
+
         # let default deserialization handle the rest of the attributes
         super().deserialize(
             data["self_serialized"],
-- 
2.43.0


From b11a1a9a2430a98a8e4fff1bd03f66dd8f46fb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:45 +0000
Subject: [PATCH 41/47] fix: PReLU.compile discarded parameters set before
 compilation

---
 parametricmatrixmodels/modules/prelu.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parametricmatrixmodels/modules/prelu.py b/parametricmatrixmodels/modules/prelu.py
index c9c2f3f..9e5e093 100644
--- a/parametricmatrixmodels/modules/prelu.py
+++ b/parametricmatrixmodels/modules/prelu.py
@@ -146,6 +146,11 @@ class PReLU(BaseModule):
 
         self.input_shape = input_shape
 
+        if self.a is not None:
+            # keep the parameters set before compilation, check their shape
+            self.set_params(self.a)
+            return
+
         if self.single_parameter:
             a_shape = (1,)
         else:
-- 
2.43.0


From 3c6cbdd12b3598f0b0b3a716a5943938f28cd94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:58 +0000
Subject: [PATCH 42/47] fix: freezing a LinearNN, AffineEigenvaluePMM or
 AffineObservablePMM before it is compiled had no effect

---
 parametricmatrixmodels/model.py                   | 15 ++++++++++++---
 .../modules/affineeigenvaluepmm.py                |  8 +++++++-
 .../modules/affineobservablepmm.py                |  8 +++++++-
 parametricmatrixmodels/modules/linearnn.py        |  8 +++++++-
 4 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 154d22d..ef3d4c1 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -85,12 +85,15 @@ class Model(BaseModule):
     # override the trainable property
     @property
     def trainable(self) -> bool:
-        return any(
-            module.trainable for module in jax.tree.leaves(self.modules)
-        )
+        modules = jax.tree.leaves(self.modules)
+        if not modules:
+            # modules may only be created when compiling
+            return super().trainable
+        return any(module.trainable for module in modules)
 
     @trainable.setter
     def trainable(self, value: bool) -> None:
+        BaseModule.trainable.fset(self, value)
         for module in jax.tree.leaves(self.modules):
             module.trainable = value
 
@@ -1647,6 +1650,7 @@ class Model(BaseModule):
 
         return {
             "model_name": self._name,
+            "model_trainable": BaseModule.trainable.fget(self),
             "module_typenames": module_typenames,
             "module_modules": module_modules,
             "module_fulltypenames": module_fulltypenames,
@@ -1731,6 +1735,11 @@ class Model(BaseModule):
         # deserialize the model name
         self._name = data.get("model_name", None)
 
+        # deserialize the flag for modules that are only created by compile
+        BaseModule.trainable.fset(
+            self, bool(data.get("model_trainable", True))
+        )
+
         # deserialize the rng key
         key = jax.random.wrap_key_data(data["key_data"])
         self.set_rng(key)
diff --git a/parametricmatrixmodels/modules/affineeigenvaluepmm.py b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
index 9fa90e3..9855b7b 100644
--- a/parametricmatrixmodels/modules/affineeigenvaluepmm.py
+++ b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
@@ -163,7 +163,9 @@ class AffineEigenvaluePMM(SequentialModel):
                 UserWarning,
             )
 
-        if self.input_shape != input_shape or self.modules is None:
+        trainable = self.trainable
+        created = self.input_shape != input_shape or self.modules is None
+        if created:
             # Create the AffineHermitianMatrix module
             affine_module = AffineHermitianMatrix(
                 matrix_size=self.matrix_size,
@@ -185,6 +187,10 @@ class AffineEigenvaluePMM(SequentialModel):
         # Call the parent compile method
         super().compile(rng, input_shape, verbose=verbose)
 
+        # a model frozen before its modules existed stays frozen
+        if created and not trainable:
+            self.trainable = False
+
     def get_output_shape(self, input_shape: DataShape) -> DataShape:
         valid, _ = is_single_leaf(input_shape, is_leaf=is_shape_leaf)
         if not valid:
diff --git a/parametricmatrixmodels/modules/affineobservablepmm.py b/parametricmatrixmodels/modules/affineobservablepmm.py
index 55a6feb..32fa50b 100644
--- a/parametricmatrixmodels/modules/affineobservablepmm.py
+++ b/parametricmatrixmodels/modules/affineobservablepmm.py
@@ -250,7 +250,9 @@ class AffineObservablePMM(SequentialModel):
             )
 
         # don't override existing modules if input shape hasn't changed
-        if input_shape != self.input_shape or self.modules is None:
+        trainable = self.trainable
+        created = input_shape != self.input_shape or self.modules is None
+        if created:
 
             self.modules = [
                 AffineHermitianMatrix(
@@ -301,6 +303,10 @@ class AffineObservablePMM(SequentialModel):
 
         super().compile(rng, input_shape, verbose=verbose)
 
+        # a model frozen before its modules existed stays frozen
+        if created and not trainable:
+            self.trainable = False
+
     def get_output_shape(self, input_shape: DataShape) -> DataShape:
         if self.output_size is None:
             raise ValueError(
diff --git a/parametricmatrixmodels/modules/linearnn.py b/parametricmatrixmodels/modules/linearnn.py
index ab33048..4e00c7e 100644
--- a/parametricmatrixmodels/modules/linearnn.py
+++ b/parametricmatrixmodels/modules/linearnn.py
@@ -90,7 +90,9 @@ class LinearNN(SequentialModel):
                 "LinearNN only supports input shapes with a single leaf array."
             )
 
-        if input_shape != self.input_shape or self.modules is None:
+        trainable = self.trainable
+        created = input_shape != self.input_shape or self.modules is None
+        if created:
             # don't overwrite modules if input shape hasn't changed
             modules: List[BaseModule] = [
                 Flatten(),
@@ -119,6 +121,10 @@ class LinearNN(SequentialModel):
 
         super().compile(rng, input_shape, verbose=verbose)
 
+        # a model frozen before its modules existed stays frozen
+        if created and not trainable:
+            self.trainable = False
+
     def get_output_shape(self, input_shape: DataShape) -> DataShape:
         r"""
         Get the output shape of the LinearNN module given the input shape.
-- 
2.43.0


From d21ab07de688bce3b84ddd914e249599e3e0953d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:40 +0000
Subject: [PATCH 43/47] fix: set_hyperparameters of a model kept evaluating the
 previous modules

---
 parametricmatrixmodels/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index ef3d4c1..4783323 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1580,7 +1580,11 @@ class Model(BaseModule):
             hyperparams : Dict[str, Any]
                 Dictionary containing the hyperparameters of the model.
         """
-        # reset input_shape and output_shape to force re-compilation
+        # discard everything that was prepared with the previous settings
+        optimizer_state_ = hyperparams.get(
+            "_optimizer_state", self._optimizer_state
+        )
+        Model.reset(self)
         modules_ = hyperparams.get("modules", None)
         if modules_ is not None:
             self.modules = modules_
@@ -1589,7 +1593,6 @@ class Model(BaseModule):
             self.set_rng(rng_)
         self.input_shape = hyperparams["input_shape"]
         self.output_shape = hyperparams["output_shape"]
-        optimizer_state_ = hyperparams.get("_optimizer_state", None)
         if optimizer_state_ is not None:
             # ensure the structure of the optimizer state matches the model
             # parameters struct
-- 
2.43.0


From 3646628138b55de302897f96b5107adec43151f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:40 +0000
Subject: [PATCH 44/47] fix: LinearNN.set_hyperparameters required the shapes
 of a compiled model

---
 parametricmatrixmodels/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 4783323..d4b3e68 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1591,8 +1591,8 @@ class Model(BaseModule):
         rng_ = hyperparams.get("rng", None)
         if rng_ is not None:
             self.set_rng(rng_)
-        self.input_shape = hyperparams["input_shape"]
-        self.output_shape = hyperparams["output_shape"]
+        self.input_shape = hyperparams.get("input_shape", None)
+        self.output_shape = hyperparams.get("output_shape", None)
         if optimizer_state_ is not None:
             # ensure the structure of the optimizer state matches the model
             # parameters struct
-- 
2.43.0


From 78a5f914d3482eb061af20e4aad4003280ee7b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:44 +0000
Subject: [PATCH 45/47] fix: BaseModule.astype refused the documented
 precisions 32 and 64

---
 parametricmatrixmodels/modules/basemodule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/basemodule.py b/parametricmatrixmodels/modules/basemodule.py
index 5a7099e..93c45a1 100644
--- a/parametricmatrixmodels/modules/basemodule.py
+++ b/parametricmatrixmodels/modules/basemodule.py
@@ -694,7 +694,7 @@ class BaseModule(ABC):
         self.set_state(jax.tree.map(set_param_prec, self.get_state()))
 
     @jaxtyped(typechecker=beartype)
-    def astype(self, dtype: jax.typing.DTypeLike, /) -> "BaseModule":
+    def astype(self, dtype: jax.typing.DTypeLike | int, /) -> "BaseModule":
         """
         Convenience wrapper to set_precision using the dtype argument, returns
         self.
-- 
2.43.0


From 0e133d681d9aea7f53a068114c762bb9bd843a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:44 +0000
Subject: [PATCH 46/47] fix: a NonSequentialModel with an unused module could
 not change precision

---
 parametricmatrixmodels/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index d4b3e68..91f2976 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1020,7 +1020,11 @@ class Model(BaseModule):
                 "complex128 data types."
             )
 
-        jax.tree.map(lambda m: m.set_precision(prec), self.modules)
+        # modules that are not executed need not be ready
+        jax.tree.map(
+            lambda m: m.set_precision(prec) if m.is_ready() else None,
+            self.modules,
+        )
 
     # alias for set_precision method that returns self
     def astype(self, dtype: jax.typing.DTypeLike | int, /) -> "Model":
-- 
2.43.0


From 9cbb413a57ab484a7a3d0bb2354e5f8c7182cd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:56 +0000
Subject: [PATCH 47/47] fix: replacing a module by its path also changed every
 model sharing the containers

---
 parametricmatrixmodels/model.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 91f2976..1ad3733 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1328,10 +1328,24 @@ class Model(BaseModule):
 
         elif isinstance(key, tuple):
             # KeyPath is just Tuple[Any, ...]
-            curr = self.modules
-            for k in key[:~0]:
-                curr = curr[k]
-            curr[key[~0]] = module
+            # edit copies, the containers may be shared with another model
+            def replaced(curr: Any, path: Tuple) -> Any:
+                if isinstance(curr, Dict):
+                    new = Dict(curr)
+                elif isinstance(curr, (List, Tuple)):
+                    new = list(curr)
+                else:
+                    # a nested model replaces its own module
+                    curr[path if len(path) > 1 else path[0]] = module
+                    return curr
+                new[path[0]] = (
+                    replaced(curr[path[0]], path[1:])
+                    if len(path) > 1
+                    else module
+                )
+                return new if isinstance(curr, Dict) else type(curr)(new)
+
+            self.modules = replaced(self.modules, key)
 
         elif isinstance(key, str):
             if not isinstance(self.modules, Dict):
-- 
2.43.0

