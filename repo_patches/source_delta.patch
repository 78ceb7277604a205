From 5d93b4d18b05cda5c4c155b111cbfa5badfe7828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:02 +0000
Subject: [PATCH 01/77] fix: grad_input rejected tree inputs whose leaves
 differ in their first feature dimension

---
 parametricmatrixmodels/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 9fc23cc..aea6461 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -737,7 +737,7 @@ class Model(BaseModule):
             @jaxtyped(typechecker=beartype)
             def callable_single(
                 params: ModelParams,
-                x: Data,
+                x: PyTree[Inexact[Array, "..."]],  # no batch dim
                 training: bool,
                 state: ModelState,
                 rng: Any,
-- 
2.43.0


From f205a00465471759ed79d39bdc5c3c3d1615a309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:27 +0000
Subject: [PATCH 02/77] fix: adding a module to a model with '+' appended it to
 the original model as well

---
 parametricmatrixmodels/model.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index aea6461..bc194d3 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1514,7 +1514,16 @@ class Model(BaseModule):
         -------
             New model with the other module or model appended.
         """
-        new_model = self.__class__(self.modules)
+        # the new model gets its own containers, so that appending to it does
+        # not modify this model
+        def copy_containers(tree: ModelModules) -> ModelModules:
+            if isinstance(tree, Dict):
+                return {k: copy_containers(v) for k, v in tree.items()}
+            elif isinstance(tree, List):
+                return [copy_containers(v) for v in tree]
+            return tree
+
+        new_model = self.__class__(copy_containers(self.modules))
         new_model.append_module(other)
         return new_model
 
-- 
2.43.0


From e8c027273966deb8a5dd8ec2b7c79dd3d1fe0c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:27 +0000
Subject: [PATCH 03/77] fix: popping the last module of a tuple model by index
 -1 left the model's modules duplicated

---
 parametricmatrixmodels/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index bc194d3..6e4f09a 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1455,8 +1455,9 @@ class Model(BaseModule):
         elif isinstance(self.modules, List):
             return self.modules.pop(index)
         elif isinstance(self.modules, Tuple):
-            module = self.modules[index]
-            self.modules = self.modules[:index] + self.modules[index + 1 :]
+            modules = list(self.modules)
+            module = modules.pop(index)
+            self.modules = tuple(modules)
             return module
         else:
             raise TypeError(
-- 
2.43.0


From 841960e88c1b10eb0d1ee06d24b35afab9e36a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:27 +0000
Subject: [PATCH 04/77] fix: replacing a module of a tuple model by index
 raised TypeError

---
 parametricmatrixmodels/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 6e4f09a..a0b8874 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1333,7 +1333,12 @@ class Model(BaseModule):
                     "modules are not stored in a "
                     "list or tuple."
                 )
-            self.modules[key] = module
+            if isinstance(self.modules, Tuple):
+                modules = list(self.modules)
+                modules[key] = module
+                self.modules = tuple(modules)
+            else:
+                self.modules[key] = module
         else:
             raise TypeError(f"Invalid key type {type(key)} for module access.")
 
-- 
2.43.0


From ae823b4851c439ba7e5bd7271e9d6ab94b9f009c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:27 +0000
Subject: [PATCH 05/77] fix: recompiling a model after editing a nested model
 evaluated the stale callable

---
 parametricmatrixmodels/model.py              | 5 ++++-
 parametricmatrixmodels/nonsequentialmodel.py | 4 ++++
 parametricmatrixmodels/sequentialmodel.py    | 4 ++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index a0b8874..016a593 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -192,8 +192,11 @@ class Model(BaseModule):
     def reset(self) -> None:
         self.input_shape: DataShape | None = None
         self.output_shape: DataShape | None = None
-        self.callable: ModelCallable | None = None
         self._optimizer_state = None
+        self._reset_callables()
+
+    def _reset_callables(self) -> None:
+        self.callable: ModelCallable | None = None
         self.grad_callable_params = None
         self.grad_callable_params_options = None
         self.grad_callable_inputs = None
diff --git a/parametricmatrixmodels/nonsequentialmodel.py b/parametricmatrixmodels/nonsequentialmodel.py
index 94d8168..86a0f8e 100644
--- a/parametricmatrixmodels/nonsequentialmodel.py
+++ b/parametricmatrixmodels/nonsequentialmodel.py
@@ -429,6 +429,10 @@ class NonSequentialModel(Model):
             )
             return
 
+        # callables of an earlier compilation may be stale, e.g. if a nested
+        # model was modified
+        self._reset_callables()
+
         # resolve the execution order
         self.execution_order = self.get_execution_order()
 
diff --git a/parametricmatrixmodels/sequentialmodel.py b/parametricmatrixmodels/sequentialmodel.py
index caa7419..307cada 100644
--- a/parametricmatrixmodels/sequentialmodel.py
+++ b/parametricmatrixmodels/sequentialmodel.py
@@ -129,6 +129,10 @@ class SequentialModel(Model):
         if verbose:
             print(f"Compiling {self.name} for input shape {input_shape}.")
 
+        # callables of an earlier compilation may be stale, e.g. if a nested
+        # model was modified
+        self._reset_callables()
+
         self.input_shape = input_shape
 
         for i, module in enumerate(jax.tree.leaves(self.modules)):
-- 
2.43.0


From 425ef9251cab05db40296a3b17b67a8a61a7628a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:38 +0000
Subject: [PATCH 06/77] fix: Eigenvalues(None) announced a wrong output shape
 for trees of matrices

---
 parametricmatrixmodels/modules/eigenvalues.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/eigenvalues.py b/parametricmatrixmodels/modules/eigenvalues.py
index fbcdf0f..075ea72 100644
--- a/parametricmatrixmodels/modules/eigenvalues.py
+++ b/parametricmatrixmodels/modules/eigenvalues.py
@@ -151,7 +151,7 @@ class Eigenvalues(BaseModule):
         validate_eigensystem_input_shape(input_shape, self.num_eig)
         return jax.tree.map(
             lambda s: (
-                self.num_eig if self.num_eig is not None else input_shape[0],
+                self.num_eig if self.num_eig is not None else s[0],
             ),
             input_shape,
             is_leaf=is_shape_leaf,
-- 
2.43.0


From ea0bd01585c8cd7713611cd019dbc0f0d039452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:38 +0000
Subject: [PATCH 07/77] fix: Reshape announced None as the output shape of
 leaves it leaves unchanged

---
 parametricmatrixmodels/modules/reshape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/reshape.py b/parametricmatrixmodels/modules/reshape.py
index 60a74c3..ba7f5a6 100644
--- a/parametricmatrixmodels/modules/reshape.py
+++ b/parametricmatrixmodels/modules/reshape.py
@@ -174,7 +174,7 @@ class Reshape(BaseModule):
             target_shape: ArrayDataShape | None,
         ) -> ArrayDataShape:
             if target_shape is None:
-                return
+                return in_shape
 
             in_size = np.prod(np.array(in_shape)).item()
             if -1 in target_shape:
-- 
2.43.0


From 702c74be0c5d18c4d230cf227c38e5c340c590fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:38 +0000
Subject: [PATCH 08/77] fix: ConcatenateLeaves with a negative axis
 concatenated along the batch dimension

---
 parametricmatrixmodels/modules/concatenateleaves.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/modules/concatenateleaves.py b/parametricmatrixmodels/modules/concatenateleaves.py
index 5832d28..ab2fcbc 100644
--- a/parametricmatrixmodels/modules/concatenateleaves.py
+++ b/parametricmatrixmodels/modules/concatenateleaves.py
@@ -112,7 +112,8 @@ class ConcatenateLeaves(BaseModule):
                     state,
                 )
             else:
-                return np.concatenate(leaves, axis=self.axis + 1), state
+                axis = self.axis + 1 if self.axis >= 0 else self.axis
+                return np.concatenate(leaves, axis=axis), state
 
         return concatenate_leaves_callable
 
@@ -165,7 +166,8 @@ class ConcatenateLeaves(BaseModule):
                     axis=-1,
                 )
             else:
-                concatenated = np.concatenate(leaves, axis=self.axis + 1)
+                axis = self.axis + 1 if self.axis >= 0 else self.axis
+                concatenated = np.concatenate(leaves, axis=axis)
         except Exception as e:
             raise ValueError(
                 "Could not concatenate leaves with shapes "
-- 
2.43.0


From fa11db657e2065067372be2fbe7a9a54d3a205ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:38 +0000
Subject: [PATCH 09/77] fix: copied and reloaded ConcatenateLeaves modules lost
 their path order and separator

---
 parametricmatrixmodels/modules/concatenateleaves.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parametricmatrixmodels/modules/concatenateleaves.py b/parametricmatrixmodels/modules/concatenateleaves.py
index ab2fcbc..07fdf50 100644
--- a/parametricmatrixmodels/modules/concatenateleaves.py
+++ b/parametricmatrixmodels/modules/concatenateleaves.py
@@ -178,6 +178,8 @@ class ConcatenateLeaves(BaseModule):
     def get_hyperparameters(self) -> HyperParams:
         return {
             "axis": self.axis,
+            "path_order": self.path_order,
+            "separator": self.separator,
         }
 
     def get_params(self) -> Params:
-- 
2.43.0


From d643173c75804ae76dcdbef149449046da94c4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:38 +0000
Subject: [PATCH 10/77] fix: Einsum compared index strings with parameter
 arrays instead of their shapes when it has several parameters

---
 parametricmatrixmodels/modules/einsum.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/parametricmatrixmodels/modules/einsum.py b/parametricmatrixmodels/modules/einsum.py
index 580a87b..7f60123 100644
--- a/parametricmatrixmodels/modules/einsum.py
+++ b/parametricmatrixmodels/modules/einsum.py
@@ -246,9 +246,7 @@ class Einsum(BaseModule):
             param_shapes_list = (
                 [self.params.shape]
                 if isinstance(self.params, np.ndarray)
-                else jax.tree.leaves(
-                    self.params, is_leaf=lambda x: isinstance(x, np.ndarray)
-                )
+                else [p.shape for p in jax.tree.leaves(self.params)]
             )
             if len(leading_strs) != len(param_shapes_list):
                 raise ValueError(
-- 
2.43.0


From 4bc0c1461c3de830b1e002c829aca8e72726de2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:38 +0000
Subject: [PATCH 11/77] fix: LowRankAffineHermitianMatrix could not be copied
 or loaded because its rank was not saved

---
 parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py b/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
index 254d9ad..68549b8 100644
--- a/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
+++ b/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
@@ -276,6 +276,7 @@ class LowRankAffineHermitianMatrix(BaseModule):
     def get_hyperparameters(self) -> HyperParams:
         return {
             "matrix_size": self.matrix_size,
+            "matrix_rank": self.matrix_rank,
             "smoothing": self.smoothing,
             "init_magnitude": self.init_magnitude,
             "bias_term": self.bias_term,
-- 
2.43.0


From c96708973ced7a942412d12b4bc24bc44bbacaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:38 +0000
Subject: [PATCH 12/77] fix: copied and reloaded MatMul modules lost their
 separator

---
 parametricmatrixmodels/modules/matmul.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parametricmatrixmodels/modules/matmul.py b/parametricmatrixmodels/modules/matmul.py
index e293d40..c060f20 100644
--- a/parametricmatrixmodels/modules/matmul.py
+++ b/parametricmatrixmodels/modules/matmul.py
@@ -421,6 +421,7 @@ class MatMul(Einsum):
             trainable=self.trainable,
             init_magnitude=self.init_magnitude,
             real=self.real,
+            separator=self.separator,
         )
 
         super().set_hyperparameters(hyperparams)
-- 
2.43.0


From a3bc96e5d0c6634aa21b4d4840f4b4320f2b9162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:56 +0000
Subject: [PATCH 13/77] fix: frozen or fixed Einsum and MatMul modules ignored
 parameters set after the first evaluation

---
 parametricmatrixmodels/modules/einsum.py | 32 +++++++-----------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/parametricmatrixmodels/modules/einsum.py b/parametricmatrixmodels/modules/einsum.py
index 7f60123..f467dc7 100644
--- a/parametricmatrixmodels/modules/einsum.py
+++ b/parametricmatrixmodels/modules/einsum.py
@@ -635,30 +635,16 @@ class Einsum(BaseModule):
             # most of this will be traced out by jax
             arrays = []
 
-            # if trainable, params will be the leading arrays, if there are
-            # any, otherwise it will be an empty tuple
-            if self.trainable:
-                if isinstance(params, np.ndarray):
-                    arrays.append(params)
-                else:
-                    arrays.extend(
-                        jax.tree.leaves(
-                            params,
-                            is_leaf=lambda x: isinstance(x, np.ndarray),
-                        )
-                    )
-            elif not self.trainable and self.params is not None:
-                # if not trainable, params are fixed leading arrays, if any,
-                # and they are stored in self.params
-                if isinstance(self.params, np.ndarray):
-                    arrays.append(self.params)
-                else:
-                    arrays.extend(
-                        jax.tree.leaves(
-                            self.params,
-                            is_leaf=lambda x: isinstance(x, np.ndarray),
-                        )
+            # params are the trainable or fixed leading arrays, if there are any
+            if isinstance(params, np.ndarray):
+                arrays.append(params)
+            else:
+                arrays.extend(
+                    jax.tree.leaves(
+                        params,
+                        is_leaf=lambda x: isinstance(x, np.ndarray),
                     )
+                )
             # add the input data arrays
             arrays.extend(
                 jax.tree.leaves(
-- 
2.43.0


From 386c065770e47b72b6675ca6bee1137443175612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:23 +0000
Subject: [PATCH 14/77] fix: Einsum and MatMul modules without parameters could
 not be used in a sequential model

---
 parametricmatrixmodels/modules/einsum.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/modules/einsum.py b/parametricmatrixmodels/modules/einsum.py
index f467dc7..2bceabe 100644
--- a/parametricmatrixmodels/modules/einsum.py
+++ b/parametricmatrixmodels/modules/einsum.py
@@ -798,7 +798,9 @@ class Einsum(BaseModule):
             self.real = hyperparams["real"]
 
     def get_params(self) -> Params:
-        return self.params
+        return () if self.params is None else self.params
 
     def set_params(self, params: Params) -> None:
-        self.params = params
+        # an empty tuple means that there are no leading arrays (yet)
+        no_params = isinstance(params, tuple) and len(params) == 0
+        self.params = None if no_params else params
-- 
2.43.0


From ff2c8a386a227c15f1f4bfba56e1a7fb0f70479f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:41 +0000
Subject: [PATCH 15/77] fix: compiled models announced the output shape of the
 shape they were compiled for when asked about another one

---
 parametricmatrixmodels/nonsequentialmodel.py | 2 +-
 parametricmatrixmodels/sequentialmodel.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/nonsequentialmodel.py b/parametricmatrixmodels/nonsequentialmodel.py
index 86a0f8e..af23b48 100644
--- a/parametricmatrixmodels/nonsequentialmodel.py
+++ b/parametricmatrixmodels/nonsequentialmodel.py
@@ -725,7 +725,7 @@ class NonSequentialModel(Model):
             output_shape
                 Shape of the output after passing through the model.
         """
-        if self.is_ready():
+        if self.is_ready() and input_shape == self.input_shape:
             return self.output_shape
 
         _, _, output_shape = self._get_shape_progression(input_shape)
diff --git a/parametricmatrixmodels/sequentialmodel.py b/parametricmatrixmodels/sequentialmodel.py
index 307cada..fcb0154 100644
--- a/parametricmatrixmodels/sequentialmodel.py
+++ b/parametricmatrixmodels/sequentialmodel.py
@@ -177,7 +177,7 @@ class SequentialModel(Model):
             output_shape
                 Shape of the output after passing through the model.
         """
-        if self.is_ready():
+        if self.is_ready() and input_shape == self.input_shape:
             return self.output_shape
         else:
             shape = input_shape
-- 
2.43.0


From 382c801aba587509f810ab08d9f0c2370a82f7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:38 +0000
Subject: [PATCH 16/77] fix: frozen modules inside a partly frozen nested model
 were trained

---
 parametricmatrixmodels/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 016a593..667ccbb 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1259,7 +1259,11 @@ class Model(BaseModule):
         None/())
         """
 
-        def is_trainable(mod: BaseModule) -> bool:
+        def is_trainable(mod: BaseModule) -> bool | PyTree[bool]:
+            if isinstance(mod, Model):
+                # nested models may contain a mix of frozen and unfrozen
+                # modules
+                return mod.get_trainable_modules()
             p = mod.get_params()
             has_params = (p is not None) and len(jax.tree.leaves(p)) > 0
             return mod.trainable and has_params
-- 
2.43.0


From 5f83772d6904a5f572798094c7ba623c7bc43b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:29 +0000
Subject: [PATCH 17/77] fix: complex Adam advanced its epoch counter on every
 batch in addition to every epoch

---
 parametricmatrixmodels/training.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index 6907369..2ae9b06 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -265,7 +265,7 @@ def complex_adam(
         v_hat = v / np.float32(1 - b2 ** (i + 1))
         x = x - (step_size(i) * m_hat / (np.sqrt(v_hat) + eps))
 
-        return OptimizerState(x, m, v, i + 1)
+        return OptimizerState(x, m, v, i)
 
     @jaxtyped(typechecker=beartype)
     def get_params(state: OptimizerState) -> ParamArray:
-- 
2.43.0


From ff4879b64b72276d5f99edd3ccbe8c7eb9651954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:29 +0000
Subject: [PATCH 18/77] fix: resuming repeated the epoch count of the best
 epoch in the Adam bias correction and the learning-rate schedule

---
 parametricmatrixmodels/training.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index 2ae9b06..dc33e61 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -1002,6 +1002,12 @@ def _train(
             (patience - 1) * (1 - improved)
         )
 
+        # the epoch's updates are done
+        adam_state = [
+            increment_epoch(int(trainable), state)
+            for trainable, state in zip(trainable_flags_flat, adam_state)
+        ]
+
         (
             best_val_loss,
             best_epoch,
@@ -1043,10 +1049,6 @@ def _train(
             adam_state,
             is_leaf=lambda x: isinstance(x, OptimizerState),
         )
-        adam_state = [
-            increment_epoch(int(trainable), state)
-            for trainable, state in zip(trainable_flags_flat, adam_state)
-        ]
 
         # Return the updated state for the next epoch
         return (
-- 
2.43.0


From 6e69e918b06427c8165bb5efc7b41255f47772d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:59 +0000
Subject: [PATCH 19/77] fix: SIGINT and SIGTERM were still swallowed after
 verbose training had ended

---
 parametricmatrixmodels/training.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index dc33e61..9a5e0cc 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -2,7 +2,7 @@ import random
 import signal
 import warnings
 from dataclasses import dataclass
-from functools import partial
+from functools import partial, wraps
 
 import jax
 import jax.numpy as np
@@ -1130,6 +1130,28 @@ def _train(
     )
 
 
+def _restore_signal_handlers(fn: Callable) -> Callable:
+    """
+    Put the signal handlers back that were installed before ``fn`` was called,
+    since verbose training installs its own.
+    """
+
+    @wraps(fn)
+    def wrapped(*args, **kwargs):
+        handlers = {
+            s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM)
+        }
+        try:
+            return jax.block_until_ready(fn(*args, **kwargs))
+        finally:
+            for s, handler in handlers.items():
+                if handler is not None and signal.getsignal(s) is not handler:
+                    signal.signal(s, handler)
+
+    return wrapped
+
+
+@_restore_signal_handlers
 @jaxtyped(typechecker=beartype)
 def train(
     resume: bool,  # whether to resume training from a previous state
-- 
2.43.0


From 85ec8063257e9eec36deb4a0a4bc621da21d9eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:54 +0000
Subject: [PATCH 20/77] fix: verbose batched Jacobians of linear models raised
 because the progress bar had not been started

---
 parametricmatrixmodels/model_util.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model_util.py b/parametricmatrixmodels/model_util.py
index 83938d8..d694084 100644
--- a/parametricmatrixmodels/model_util.py
+++ b/parametricmatrixmodels/model_util.py
@@ -145,11 +145,16 @@ def autobatch(
                 X = jax.pure_callback(start_pb, X, X)
 
             def update_pb(out: Data, i: int) -> Data:
-                ProgressBar.Instance.update(i)
+                # start_pb is elided when the output doesn't depend on X
+                if ProgressBar.Instance is not None:
+                    ProgressBar.Instance.update(i)
                 return out
 
             def end_pb(out: Data) -> Data:
-                ProgressBar.Instance.end(newline=newline, clearline=clearline)
+                if ProgressBar.Instance is not None:
+                    ProgressBar.Instance.end(
+                        newline=newline, clearline=clearline
+                    )
                 return out
 
             def body_fn(i_new_state, X_batch):
-- 
2.43.0


From 2bffaa162b0755dcb87ffaf5d4b623989e2675ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:20 +0000
Subject: [PATCH 21/77] fix: AffineObservablePMM ignored the bias values it was
 given

---
 parametricmatrixmodels/modules/affineobservablepmm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parametricmatrixmodels/modules/affineobservablepmm.py b/parametricmatrixmodels/modules/affineobservablepmm.py
index 94f2317..4abfb02 100644
--- a/parametricmatrixmodels/modules/affineobservablepmm.py
+++ b/parametricmatrixmodels/modules/affineobservablepmm.py
@@ -289,6 +289,7 @@ class AffineObservablePMM(SequentialModel):
             if self.bias_term:
                 self.modules.append(
                     Bias(
+                        bias=self.b,
                         init_magnitude=self.init_magnitude,
                         real=True,
                         scalar=False,
-- 
2.43.0


From 8eb004790ac0b8c347f39402f099f1d3e051ae94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:42 +0000
Subject: [PATCH 22/77] fix: AffineEigenvaluePMM and AffineObservablePMM
 rejected None where it is documented

---
 parametricmatrixmodels/modules/affineeigenvaluepmm.py |  4 ++--
 parametricmatrixmodels/modules/affineobservablepmm.py | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/parametricmatrixmodels/modules/affineeigenvaluepmm.py b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
index 5b3c474..39181d2 100644
--- a/parametricmatrixmodels/modules/affineeigenvaluepmm.py
+++ b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
@@ -67,8 +67,8 @@ class AffineEigenvaluePMM(SequentialModel):
         matrix_size: int = None,
         num_eig: int = 1,
         which: str = "SA",
-        smoothing: float = None,
-        Ms: np.ndarray = None,
+        smoothing: float | None = None,
+        Ms: np.ndarray | None = None,
         init_magnitude: float = 0.01,
         bias_term: bool = True,
     ):
diff --git a/parametricmatrixmodels/modules/affineobservablepmm.py b/parametricmatrixmodels/modules/affineobservablepmm.py
index 4abfb02..5615c41 100644
--- a/parametricmatrixmodels/modules/affineobservablepmm.py
+++ b/parametricmatrixmodels/modules/affineobservablepmm.py
@@ -115,17 +115,17 @@ class AffineObservablePMM(SequentialModel):
         self,
         matrix_size: int = None,
         num_eig: int = None,
-        which: str = None,
-        smoothing: float = None,
+        which: str | None = None,
+        smoothing: float | None = None,
         affine_bias_matrix: bool = True,
         num_secondaries: int = 1,
         output_size: int = None,
         centered: bool = True,
         bias_term: bool = True,
         use_expectation_values: bool = False,
-        Ms: np.ndarray = None,
-        Ds: np.ndarray = None,
-        b: np.ndarray = None,
+        Ms: np.ndarray | None = None,
+        Ds: np.ndarray | None = None,
+        b: np.ndarray | None = None,
         init_magnitude: float = 0.01,
     ):
         r"""
-- 
2.43.0


From cfbab08f387b3dc24813b34fa57d70e8a49d942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:49 +0000
Subject: [PATCH 23/77] fix: mean, scalar_add and scalar_mul rejected trees
 whose arrays differ in shape

---
 parametricmatrixmodels/tree_util.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parametricmatrixmodels/tree_util.py b/parametricmatrixmodels/tree_util.py
index a42d94b..78b8731 100644
--- a/parametricmatrixmodels/tree_util.py
+++ b/parametricmatrixmodels/tree_util.py
@@ -578,7 +578,7 @@ def extend_structure_from_strpaths(
 
 @jaxtyped(typechecker=beartype)
 def mean(
-    pytree: PyTree[Num[Array, " *d"], " T"],
+    pytree: PyTree[Num[Array, "?*d"], " T"],
 ) -> Num[Array, ""]:
     r"""
     Computes the mean of all elements in all leaves of a PyTree of arrays.
@@ -823,9 +823,9 @@ def pow(
 
 @jaxtyped(typechecker=beartype)
 def scalar_add(
-    pytree: PyTree[Num[Array, " *d"], " T"],
+    pytree: PyTree[Num[Array, "?*d"], " T"],
     scalar: complex | float | int | Num[Array, ""],
-) -> PyTree[Num[Array, " *d"], " T"]:
+) -> PyTree[Num[Array, "?*d"], " T"]:
     r"""
     Adds a scalar value to all leaves of a PyTree of arrays.
 
@@ -847,9 +847,9 @@ def scalar_add(
 
 @jaxtyped(typechecker=beartype)
 def scalar_mul(
-    pytree: PyTree[Num[Array, " *d"], " T"],
+    pytree: PyTree[Num[Array, "?*d"], " T"],
     scalar: complex | float | int | Num[Array, ""],
-) -> PyTree[Num[Array, " *d"], " T"]:
+) -> PyTree[Num[Array, "?*d"], " T"]:
     r"""
     Multiplies all leaves of a PyTree of arrays by a scalar value.
 
-- 
2.43.0


From a1b889c34968b65a66e67f4669731480e7d82a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:49 +0000
Subject: [PATCH 24/77] fix: extending a tuple nested in a tuple raised
 TypeError

---
 parametricmatrixmodels/tree_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/tree_util.py b/parametricmatrixmodels/tree_util.py
index 78b8731..9c7cd06 100644
--- a/parametricmatrixmodels/tree_util.py
+++ b/parametricmatrixmodels/tree_util.py
@@ -553,7 +553,7 @@ def extend_structure_from_strpaths(
 
     # convert any list nodes that correspond to tuple nodes in the
     # original base_pytree back to tuples
-    for path in tuple_node_paths:
+    for path in reversed(tuple_node_paths):
         node = getitem_by_strpath(
             base_pytree, path, separator, allow_early_return=False
         )
-- 
2.43.0


From 6ed5502acd6ff3aa59f4ffbc4658e06f80761f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:58 +0000
Subject: [PATCH 25/77] fix: the pseudo-Huber loss raised TypeError for models
 with tree outputs

---
 parametricmatrixmodels/training.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index 9a5e0cc..4db7a8b 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -1811,14 +1811,10 @@ def make_loss_fn(fn_name: str, model_fn: Callable):
 
             error = pmm_tree_util.sub(Y_pred, Y)
 
-            pseudo_huber_loss = delta**2 * (
-                pmm_tree_util.sqrt(
-                    1
-                    + pmm_tree_util.abs_sqr(
-                        jax.tree.map(lambda x: x / delta, error)
-                    )
-                )
-                - 1
+            pseudo_huber_loss = jax.tree.map(
+                lambda x: delta**2
+                * (np.sqrt(1 + np.abs(x / delta) ** 2) - 1),
+                error,
             )
 
             return (pmm_tree_util.mean(pseudo_huber_loss), new_state)
-- 
2.43.0


From 4fd8d55505dcbd653732dac026395ae417f18674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:58 +0000
Subject: [PATCH 26/77] fix: unknown loss names starting with pseudo_huber were
 accepted

---
 parametricmatrixmodels/training.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/training.py b/parametricmatrixmodels/training.py
index 4db7a8b..38d104a 100644
--- a/parametricmatrixmodels/training.py
+++ b/parametricmatrixmodels/training.py
@@ -1796,7 +1796,7 @@ def make_loss_fn(fn_name: str, model_fn: Callable):
                 new_state,
             )
 
-    elif fn_name.startswith("pseudo_huber"):
+    elif fn_name.split(":")[0] == "pseudo_huber":
         if ":" in fn_name:
             _, delta_str = fn_name.split(":")
             delta = float(delta_str)
-- 
2.43.0


From b08e8d5a0fea5eea4b381c3738615bf43f517407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:19 +0000
Subject: [PATCH 27/77] fix: MatMul rejected a documented None as first output
 dimension and one-element output shapes when its trainable matrix comes last

---
 parametricmatrixmodels/modules/matmul.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/modules/matmul.py b/parametricmatrixmodels/modules/matmul.py
index c060f20..35e16b2 100644
--- a/parametricmatrixmodels/modules/matmul.py
+++ b/parametricmatrixmodels/modules/matmul.py
@@ -261,7 +261,7 @@ class MatMul(Einsum):
                         )
                     param_shape = (shape_list[~1][1],)
                 else:
-                    if self.output_shape[0] != shape_list[0][0]:
+                    if self.output_shape[0] not in (None, shape_list[0][0]):
                         raise ValueError(
                             "If output_shape is a tuple and the parameter"
                             " matrix is the last operand, then the first"
@@ -270,7 +270,7 @@ class MatMul(Einsum):
                             " case, the first dimension of output_shape may be"
                             " None to infer this automatically."
                         )
-                    param_shape = (shape_list[~1][1], self.output_shape[1])
+                    param_shape = (shape_list[~1][1], *self.output_shape[1:])
             else:
                 # in the middle somewhere
                 param_shape = (
-- 
2.43.0


From 4d44903c54db3212de49fdb710f3d2845fad5838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:41 +0000
Subject: [PATCH 28/77] fix: Einsum lost the first operand's place when that
 operand is a scalar per sample

---
 parametricmatrixmodels/modules/einsum.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/parametricmatrixmodels/modules/einsum.py b/parametricmatrixmodels/modules/einsum.py
index 2bceabe..5cda32d 100644
--- a/parametricmatrixmodels/modules/einsum.py
+++ b/parametricmatrixmodels/modules/einsum.py
@@ -525,17 +525,7 @@ class Einsum(BaseModule):
             )
 
         # reduce over input_strs to single string
-        def reduce_input_strs(carry: str, s: str) -> str:
-            if carry == "":
-                return s
-            else:
-                return carry + "," + s
-
-        input_str = jax.tree.reduce(
-            reduce_input_strs,
-            input_strs,
-            initializer="",
-        )
+        input_str = ",".join(jax.tree.leaves(input_strs))
 
         # infer output_str if None
         # it should be all the indices that appear only once in
-- 
2.43.0


From 581d9b8a8232701aa62912e4dd84b6ea7c5beb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:39 +0000
Subject: [PATCH 29/77] fix: StandardScaler turned constant features into NaN

---
 .../preprocessing/standard_scaler.py                  | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/preprocessing/standard_scaler.py b/parametricmatrixmodels/preprocessing/standard_scaler.py
index a8a1075..52888af 100644
--- a/parametricmatrixmodels/preprocessing/standard_scaler.py
+++ b/parametricmatrixmodels/preprocessing/standard_scaler.py
@@ -42,7 +42,16 @@ class StandardScaler(Scaler):
                 The fitted scaler instance.
         """
         self.mean_ = jax.tree.map(lambda x: np.mean(x, axis=0), X)
-        self.scale_ = jax.tree.map(lambda x: np.std(x, axis=0), X)
+        # constant features have no spread to scale by
+        self.scale_ = jax.tree.map(
+            lambda x, std: np.where(
+                (np.max(x, axis=0) == np.min(x, axis=0)) | (std == 0),
+                np.ones_like(std),
+                std,
+            ),
+            X,
+            jax.tree.map(lambda x: np.std(x, axis=0), X),
+        )
 
         return self
 
-- 
2.43.0


From e4c0be8b82189ece285427163d2b75394970cf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:39 +0000
Subject: [PATCH 30/77] fix: MinMaxScaler turned constant features into NaN

---
 parametricmatrixmodels/preprocessing/minmax_scaler.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/minmax_scaler.py b/parametricmatrixmodels/preprocessing/minmax_scaler.py
index 9526d2a..545ea8b 100644
--- a/parametricmatrixmodels/preprocessing/minmax_scaler.py
+++ b/parametricmatrixmodels/preprocessing/minmax_scaler.py
@@ -15,6 +15,11 @@ from ..typing import (
 from .scaler import Scaler
 
 
+def _data_range(data_min: Array, data_max: Array) -> Array:
+    # constant features have no range to scale by
+    return np.where(data_max == data_min, 1, data_max - data_min)
+
+
 class MinMaxScaler(Scaler):
     r"""
     Scales data to a specified range [min_val, max_val] using min-max
@@ -121,7 +126,9 @@ class MinMaxScaler(Scaler):
         return jax.tree.map(
             lambda x, data_min, data_max, min_v, max_v: (
                 (
-                    (x - data_min) / (data_max - data_min) * (max_v - min_v)
+                    (x - data_min)
+                    / _data_range(data_min, data_max)
+                    * (max_v - min_v)
                     + min_v
                 )
                 if (min_v is not None and max_v is not None)
@@ -171,7 +178,7 @@ class MinMaxScaler(Scaler):
                 (
                     (x_scaled - min_v)
                     / (max_v - min_v)
-                    * (data_max - data_min)
+                    * _data_range(data_min, data_max)
                     + data_min
                 )
                 if (min_v is not None and max_v is not None)
-- 
2.43.0


From e93e9b99f9c4597ecf58213ed09cef15644790f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:39 +0000
Subject: [PATCH 31/77] fix: MinMaxScaler failed for trees when a bound of the
 feature range is None

---
 parametricmatrixmodels/preprocessing/minmax_scaler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/minmax_scaler.py b/parametricmatrixmodels/preprocessing/minmax_scaler.py
index 545ea8b..0e7f5d9 100644
--- a/parametricmatrixmodels/preprocessing/minmax_scaler.py
+++ b/parametricmatrixmodels/preprocessing/minmax_scaler.py
@@ -114,11 +114,11 @@ class MinMaxScaler(Scaler):
                 "MinMaxScaler instance is not fitted yet. Call 'fit' with "
                 "appropriate data before using 'transform'."
             )
-        if np.isscalar(self.min_val):
+        if self.min_val is None or np.isscalar(self.min_val):
             min_val = jax.tree.map(lambda x: self.min_val, self.data_min_)
         else:
             min_val = self.min_val
-        if np.isscalar(self.max_val):
+        if self.max_val is None or np.isscalar(self.max_val):
             max_val = jax.tree.map(lambda x: self.max_val, self.data_max_)
         else:
             max_val = self.max_val
@@ -164,11 +164,11 @@ class MinMaxScaler(Scaler):
                 "MinMaxScaler instance is not fitted yet. Call 'fit' with "
                 "appropriate data before using 'inverse_transform'."
             )
-        if np.isscalar(self.min_val):
+        if self.min_val is None or np.isscalar(self.min_val):
             min_val = jax.tree.map(lambda x: self.min_val, self.data_min_)
         else:
             min_val = self.min_val
-        if np.isscalar(self.max_val):
+        if self.max_val is None or np.isscalar(self.max_val):
             max_val = jax.tree.map(lambda x: self.max_val, self.data_max_)
         else:
             max_val = self.max_val
-- 
2.43.0


From 1deeeaf86db47449c506864ac6aaf370e2f26389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:39 +0000
Subject: [PATCH 32/77] fix: scalers fitted to lists or tuples of arrays could
 not be saved and loaded

---
 parametricmatrixmodels/preprocessing/scaler.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/scaler.py b/parametricmatrixmodels/preprocessing/scaler.py
index 5cb0bd0..dba6e1e 100644
--- a/parametricmatrixmodels/preprocessing/scaler.py
+++ b/parametricmatrixmodels/preprocessing/scaler.py
@@ -13,6 +13,19 @@ from jaxtyping import jaxtyped
 from ..typing import Any, DataFixed, Dict, Tuple
 
 
+def _pack(data: Dict[str, Any]) -> Dict[str, Any]:
+    # store everything that isn't an array as a single object, otherwise
+    # numpy would convert trees such as lists and tuples to arrays
+    packed = {}
+    for key, value in data.items():
+        if not isinstance(value, (onp.ndarray, jax.Array)):
+            obj = onp.empty((), dtype=object)
+            obj[()] = value
+            value = obj
+        packed[key] = value
+    return packed
+
+
 @jaxtyped(typechecker=beartype)
 class Scaler(ABC):
     """Abstract base class for data scalers."""
@@ -152,7 +165,7 @@ class Scaler(ABC):
         filepath
             Path to the file where the scaler will be saved.
         """
-        data = self.serialize()
+        data = _pack(self.serialize())
         if isinstance(filepath, str) and not filepath.endswith(".npz"):
             filepath += ".npz"
         onp.savez(filepath, **data)
@@ -167,7 +180,7 @@ class Scaler(ABC):
         filepath
             Path to the file where the scaler will be saved.
         """
-        data = self.serialize()
+        data = _pack(self.serialize())
         if isinstance(filepath, str) and not filepath.endswith(".npz"):
             filepath += ".npz"
         onp.savez_compressed(filepath, **data)
-- 
2.43.0


From 44df982d8f415fa68213cd8502b57a72b20e1bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:39 +0000
Subject: [PATCH 33/77] fix: OneHot mixed up the columns of multi-column
 features

---
 parametricmatrixmodels/preprocessing/onehot.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/onehot.py b/parametricmatrixmodels/preprocessing/onehot.py
index 8401c7d..10c5b82 100644
--- a/parametricmatrixmodels/preprocessing/onehot.py
+++ b/parametricmatrixmodels/preprocessing/onehot.py
@@ -48,12 +48,10 @@ class OneHot(Scaler):
         """
 
         # flatten all feature axes and compute unique values for each leaf
-        # sort the unique values to ensure consistent ordering across runs and
-        # platforms
+        # the unique values are returned in sorted order, which ensures a
+        # consistent ordering across runs and platforms
         self.unique_vals_ = jax.tree.map(
-            lambda x: np.sort(
-                np.unique(x.reshape(x.shape[0], -1), axis=0), axis=0
-            ),
+            lambda x: np.unique(x.reshape(x.shape[0], -1), axis=0),
             X,
         )
         self.original_shapes_ = jax.tree.map(lambda x: x.shape[1:], X)
-- 
2.43.0


From d26ee5c2303201370694c86bce0062ca6f0ceb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:39 +0000
Subject: [PATCH 34/77] fix: OneHot refused trees whose arrays have different
 numbers of categories

---
 parametricmatrixmodels/preprocessing/onehot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/onehot.py b/parametricmatrixmodels/preprocessing/onehot.py
index 10c5b82..9dd0ace 100644
--- a/parametricmatrixmodels/preprocessing/onehot.py
+++ b/parametricmatrixmodels/preprocessing/onehot.py
@@ -62,7 +62,7 @@ class OneHot(Scaler):
         self,
         X: PyTree[Inexact[Array, "n ?f0 ?*f"], " Data"],
         y: Any | None = None,
-    ) -> PyTree[Inexact[Array, "n num_unique"], " Data"]:
+    ) -> PyTree[Inexact[Array, "n ?num_unique"], " Data"]:
         """
         Encodes the input data as one-hot based on the unique values found
         during fitting. Values not found during fitting are encoded as all
@@ -97,7 +97,7 @@ class OneHot(Scaler):
 
     def inverse_transform(
         self,
-        X_encoded: PyTree[Inexact[Array, "n num_unique"], " Data"],
+        X_encoded: PyTree[Inexact[Array, "n ?num_unique"], " Data"],
         y_encoded: Any | None = None,
     ) -> PyTree[Inexact[Array, "n ?f0 ?*f"], " Data"]:
         """
-- 
2.43.0


From 4efc9f650d0e3e11bf843d29a798963cc8b12059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:39 +0000
Subject: [PATCH 35/77] fix: RobustScaler's defaults failed for trees of arrays

---
 .../preprocessing/robust_scaler.py            | 28 +++++++++++++++----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index ad83e81..0b57985 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -15,6 +15,12 @@ from ..typing import (
 from .scaler import Scaler
 
 
+def _per_leaf(value: Any, X: RealDataFixed) -> Any:
+    if value is None or np.isscalar(value):
+        return jax.tree.map(lambda x: value, X)
+    return value
+
+
 class RobustScaler(Scaler):
     r"""
     Scale features using statistics that are robust to outliers.
@@ -125,6 +131,16 @@ class RobustScaler(Scaler):
             self
                 The fitted scaler instance.
         """
+        # options which are not given per feature apply to all of them
+        q_low, q_high, with_centering, with_scaling = (
+            _per_leaf(value, X)
+            for value in (
+                self.q_low,
+                self.q_high,
+                self.with_centering,
+                self.with_scaling,
+            )
+        )
         data_qlow_ = jax.tree.map(
             lambda x, q_low, scale: (
                 np.quantile(x, q_low, axis=0)
@@ -132,8 +148,8 @@ class RobustScaler(Scaler):
                 else None
             ),
             X,
-            self.q_low,
-            self.with_scaling,
+            q_low,
+            with_scaling,
             is_leaf=lambda x: x is None,
         )
         data_qhigh_ = jax.tree.map(
@@ -143,8 +159,8 @@ class RobustScaler(Scaler):
                 else None
             ),
             X,
-            self.q_high,
-            self.with_scaling,
+            q_high,
+            with_scaling,
             is_leaf=lambda x: x is None,
         )
         self.scale_ = jax.tree.map(
@@ -155,14 +171,14 @@ class RobustScaler(Scaler):
             ),
             data_qhigh_,
             data_qlow_,
-            self.with_scaling,
+            with_scaling,
             is_leaf=lambda x: x is None,
         )
 
         self.median_ = jax.tree.map(
             lambda x, center: np.median(x, axis=0) if center else 0.0,
             X,
-            self.with_centering,
+            with_centering,
         )
 
         return self
-- 
2.43.0


From 5004dbe9ab126cdf122ef223f6aed214d0d33fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:39 +0000
Subject: [PATCH 36/77] fix: RobustScaler mixed up features when given
 quantiles per feature

---
 .../preprocessing/robust_scaler.py                 | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index 0b57985..83e8d68 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -21,6 +21,16 @@ def _per_leaf(value: Any, X: RealDataFixed) -> Any:
     return value
 
 
+def _feature_quantile(x: Array, q: float | Array) -> Array:
+    if np.ndim(q) == 0:
+        return np.quantile(x, q, axis=0)
+    # one quantile for each feature
+    q = np.broadcast_to(q, x.shape[1:])
+    return jax.vmap(np.quantile, in_axes=(1, 0))(
+        x.reshape(x.shape[0], -1), q.ravel()
+    ).reshape(q.shape)
+
+
 class RobustScaler(Scaler):
     r"""
     Scale features using statistics that are robust to outliers.
@@ -143,7 +153,7 @@ class RobustScaler(Scaler):
         )
         data_qlow_ = jax.tree.map(
             lambda x, q_low, scale: (
-                np.quantile(x, q_low, axis=0)
+                _feature_quantile(x, q_low)
                 if q_low is not None and scale
                 else None
             ),
@@ -154,7 +164,7 @@ class RobustScaler(Scaler):
         )
         data_qhigh_ = jax.tree.map(
             lambda x, q_high, scale: (
-                np.quantile(x, q_high, axis=0)
+                _feature_quantile(x, q_high)
                 if q_high is not None and scale
                 else None
             ),
-- 
2.43.0


From 28956c50af9ae08c465f6de0da650faf53837c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:39 +0000
Subject: [PATCH 37/77] fix: RobustScaler failed for more than one feature

---
 parametricmatrixmodels/preprocessing/robust_scaler.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index 83e8d68..5665a77 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -217,9 +217,8 @@ class RobustScaler(Scaler):
             )
         return jax.tree.map(
             lambda x, median, scale: (
-                (x - median) / scale
-                if np.abs(scale) > self.eps
-                else x - median
+                (x - median)
+                / np.where(np.abs(scale) > self.eps, scale, 1.0)
             ),
             X,
             self.median_,
@@ -251,9 +250,8 @@ class RobustScaler(Scaler):
             )
         return jax.tree.map(
             lambda x_scaled, median, scale: (
-                x_scaled * scale + median
-                if np.abs(scale) > self.eps
-                else x_scaled + median
+                x_scaled * np.where(np.abs(scale) > self.eps, scale, 1.0)
+                + median
             ),
             X_scaled,
             self.median_,
-- 
2.43.0


From 4385b78a0cd48a3063e44ed186a197dec1e344d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:53 +0000
Subject: [PATCH 38/77] fix: a scaler saved to a Path without the .npz suffix
 could not be loaded from it

---
 parametricmatrixmodels/preprocessing/scaler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/preprocessing/scaler.py b/parametricmatrixmodels/preprocessing/scaler.py
index dba6e1e..260bd5c 100644
--- a/parametricmatrixmodels/preprocessing/scaler.py
+++ b/parametricmatrixmodels/preprocessing/scaler.py
@@ -200,8 +200,10 @@ class Scaler(ABC):
         Scaler
             Loaded scaler.
         """
-        if isinstance(filepath, str) and not filepath.endswith(".npz"):
-            filepath += ".npz"
+        if isinstance(filepath, (str, Path)) and not str(filepath).endswith(
+            ".npz"
+        ):
+            filepath = str(filepath) + ".npz"
         data = onp.load(filepath, allow_pickle=True)
 
         # convert all arrays to jax.numpy arrays, including tree leaves
-- 
2.43.0


From a81ad4491c5ef85a31058940fb98db29d3741885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:09 +0000
Subject: [PATCH 39/77] fix: scalers given their range as an array could not be
 deserialized

---
 parametricmatrixmodels/preprocessing/minmax_scaler.py | 2 ++
 parametricmatrixmodels/preprocessing/robust_scaler.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/parametricmatrixmodels/preprocessing/minmax_scaler.py b/parametricmatrixmodels/preprocessing/minmax_scaler.py
index 0e7f5d9..4c722c9 100644
--- a/parametricmatrixmodels/preprocessing/minmax_scaler.py
+++ b/parametricmatrixmodels/preprocessing/minmax_scaler.py
@@ -66,6 +66,8 @@ class MinMaxScaler(Scaler):
                 both will be treated as None for that feature.
                 Default is (0.0, 1.0).
         """
+        if isinstance(feature_range, jax.Array):
+            feature_range = feature_range.tolist()
         self.min_val, self.max_val = feature_range
         self.data_min_: BatchlessRealDataFixed | None = None
         self.data_max_: BatchlessRealDataFixed | None = None
diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index 5665a77..442d2a8 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -116,6 +116,8 @@ class RobustScaler(Scaler):
                 Minimum scale value to avoid division by zero when scaling.
                 Default is 1e-12.
         """
+        if isinstance(quantile_range, jax.Array):
+            quantile_range = quantile_range.tolist()
         self.q_low, self.q_high = quantile_range
         self.with_centering = with_centering
         self.with_scaling = with_scaling
-- 
2.43.0


From e50ab394345647708fbade83652c40c29666cf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:54 +0000
Subject: [PATCH 40/77] fix: RobustScaler failed for the quantiles 0 and 1
 given as integers

---
 parametricmatrixmodels/preprocessing/robust_scaler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parametricmatrixmodels/preprocessing/robust_scaler.py b/parametricmatrixmodels/preprocessing/robust_scaler.py
index 442d2a8..990a7a4 100644
--- a/parametricmatrixmodels/preprocessing/robust_scaler.py
+++ b/parametricmatrixmodels/preprocessing/robust_scaler.py
@@ -22,6 +22,7 @@ def _per_leaf(value: Any, X: RealDataFixed) -> Any:
 
 
 def _feature_quantile(x: Array, q: float | Array) -> Array:
+    q = np.asarray(q, dtype=float)
     if np.ndim(q) == 0:
         return np.quantile(x, q, axis=0)
     # one quantile for each feature
-- 
2.43.0


From 8d5c06167325f835983a9c272ccc24baef939cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:23 +0000
Subject: [PATCH 41/77] fix: models with modules that are not compiled yet
 could not be copied or loaded

---
 parametricmatrixmodels/model.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 667ccbb..27e4239 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1745,20 +1745,20 @@ class Model(BaseModule):
                 data["optimizer_struct"], optimizer_state
             )
 
-        # remove rng from data["self_serialized"] since it's already
-        # deserialized above
-        data["self_serialized"].pop("rng", None)
-        # remove _optimizer_state from data["self_serialized"] since it's
-        # already deserialized above
-        data["self_serialized"].pop("_optimizer_state", None)
-        # remove "trainable" from data["self_serialized"] since it's not needed
-        # and will cause issues overwriting the module's own trainable
-        # attribute
-        data["self_serialized"].pop("trainable", None)
+        # leave out rng and _optimizer_state since they're already deserialized
+        # above, params and state since they were deserialized with the modules
+        # (which may have none yet), and trainable since it would overwrite the
+        # modules' own trainable attribute
+        self_serialized = {
+            key: value
+            for key, value in data["self_serialized"].items()
+            if key
+            not in ("rng", "_optimizer_state", "params", "state", "trainable")
+        }
 
         # let default deserialization handle the rest of the attributes
         super().deserialize(
-            data["self_serialized"],
+            self_serialized,
             strict_package_version=strict_package_version,
         )
 
-- 
2.43.0


From e011ff33b8157fe6c52a2f51615eae284527120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:23 +0000
Subject: [PATCH 42/77] fix: models whose modules are in tuples could not be
 loaded

---
 parametricmatrixmodels/model.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 27e4239..a4e4138 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -45,6 +45,19 @@ from .typing import (
 )
 
 
+def _pack(data: Dict[str, Serializable]) -> Dict[str, Any]:
+    # store everything that isn't an array as a single object, otherwise numpy
+    # would convert trees such as lists and tuples to arrays
+    packed = {}
+    for key, value in data.items():
+        if not isinstance(value, (onp.ndarray, np.ndarray)):
+            obj = onp.empty((), dtype=object)
+            obj[()] = value
+            value = obj
+        packed[key] = value
+    return packed
+
+
 class Model(BaseModule):
     r"""
 
@@ -1779,7 +1792,7 @@ class Model(BaseModule):
 
         if isinstance(file, str):
             file = file if file.endswith(".npz") else file + ".npz"
-        np.savez(file, **data)
+        np.savez(file, **_pack(data))
 
     @jaxtyped(typechecker=beartype)
     def save_compressed(self, file: str | IO | Path, /) -> None:
@@ -1799,7 +1812,7 @@ class Model(BaseModule):
             file = file if file.endswith(".npz") else file + ".npz"
 
         # jax.numpy doesn't have savez_compressed, so we use numpy
-        onp.savez_compressed(file, **data)
+        onp.savez_compressed(file, **_pack(data))
 
     def load(
         self, file: str | IO | Path, /, *, strict_package_version=False
-- 
2.43.0


From 6004f983931cf763a33f0d8c63305f295f63f55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:36 +0000
Subject: [PATCH 43/77] fix: a NonSequentialModel could not be copied or saved
 before it was compiled

---
 parametricmatrixmodels/nonsequentialmodel.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/parametricmatrixmodels/nonsequentialmodel.py b/parametricmatrixmodels/nonsequentialmodel.py
index af23b48..3fa6e4c 100644
--- a/parametricmatrixmodels/nonsequentialmodel.py
+++ b/parametricmatrixmodels/nonsequentialmodel.py
@@ -941,13 +941,9 @@ class NonSequentialModel(Model):
             structure as the modules PyTree. Modules that are not in the
             execution order will have state None.
         """
-        if not self.is_ready():
-            raise RuntimeError(
-                f"{self.name} is not ready. Call compile() first."
-            )
-
         # if the model is ready, then all the modules in the execution order
-        # are ready, and otherwise we can ignore them
+        # are ready, and otherwise we can ignore them. If it isn't, modules
+        # that are not ready have no state yet
 
         def get_state_or_none(module: BaseModule) -> State:
             if module.is_ready():
-- 
2.43.0


From 5ff68c17d9044a48a816459a3ace0746719788bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:46 +0000
Subject: [PATCH 44/77] fix: a model saved to a Path without the .npz suffix
 could not be loaded from it

---
 parametricmatrixmodels/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index a4e4138..e86ac8d 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1830,8 +1830,8 @@ class Model(BaseModule):
                 serialize the model does not match the current package version.
                 Default is False.
         """
-        if isinstance(file, str):
-            file = file if file.endswith(".npz") else file + ".npz"
+        if isinstance(file, (str, Path)) and not str(file).endswith(".npz"):
+            file = str(file) + ".npz"
         # jax numpy load supports both compressed and uncompressed npz files
         data = np.load(file, allow_pickle=True)
 
-- 
2.43.0


From b0ba92951c858d3706f5d35b6c9cc5f90f6d4896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:20 +0000
Subject: [PATCH 45/77] fix: evaluating a NonSequentialModel modified the given
 state in place, so stateful modules in it could not be trained

---
 parametricmatrixmodels/nonsequentialmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/nonsequentialmodel.py b/parametricmatrixmodels/nonsequentialmodel.py
index 3fa6e4c..e71562f 100644
--- a/parametricmatrixmodels/nonsequentialmodel.py
+++ b/parametricmatrixmodels/nonsequentialmodel.py
@@ -850,7 +850,8 @@ class NonSequentialModel(Model):
                 data,
                 separator=self.separator,
             )
-            new_state = state
+            # new containers, such that the given state isn't modified
+            new_state = jax.tree.map(lambda s: s, state)
             # now execute each module in the execution order, assembling the
             # inputs from the intermediate outputs
             for mod_path, module_callable, req_in_paths in zip(
-- 
2.43.0


From 2b1ef397087f69e829d6b14759fe09f9996bc2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:20 +0000
Subject: [PATCH 46/77] fix: matrices given to AffineEigenvaluePMM and
 AffineObservablePMM were lost when copying or saving before compiling

---
 parametricmatrixmodels/modules/affineeigenvaluepmm.py | 2 ++
 parametricmatrixmodels/modules/affineobservablepmm.py | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/parametricmatrixmodels/modules/affineeigenvaluepmm.py b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
index 39181d2..53d6506 100644
--- a/parametricmatrixmodels/modules/affineeigenvaluepmm.py
+++ b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
@@ -201,6 +201,7 @@ class AffineEigenvaluePMM(SequentialModel):
             "num_eig": self.num_eig,
             "which": self.which,
             "smoothing": self.smoothing,
+            "Ms": self.Ms,
             "init_magnitude": self.init_magnitude,
             "bias_term": self.bias_term,
             **super().get_hyperparameters(),
@@ -211,6 +212,7 @@ class AffineEigenvaluePMM(SequentialModel):
         self.num_eig = hyperparams["num_eig"]
         self.which = hyperparams["which"]
         self.smoothing = hyperparams["smoothing"]
+        self.Ms = hyperparams.get("Ms", self.Ms)
         self.init_magnitude = hyperparams["init_magnitude"]
         self.bias_term = hyperparams["bias_term"]
         super().set_hyperparameters(hyperparams)
diff --git a/parametricmatrixmodels/modules/affineobservablepmm.py b/parametricmatrixmodels/modules/affineobservablepmm.py
index 5615c41..7ab3a5e 100644
--- a/parametricmatrixmodels/modules/affineobservablepmm.py
+++ b/parametricmatrixmodels/modules/affineobservablepmm.py
@@ -322,6 +322,9 @@ class AffineObservablePMM(SequentialModel):
             "num_eig": self.num_eig,
             "which": self.which,
             "smoothing": self.smoothing,
+            "Ms": self.Ms,
+            "Ds": self.Ds,
+            "b": self.b,
             "init_magnitude": self.init_magnitude,
             "affine_bias_matrix": self.affine_bias_matrix,
             "num_secondaries": self.num_secondaries,
@@ -337,6 +340,9 @@ class AffineObservablePMM(SequentialModel):
         self.num_eig = hyperparams["num_eig"]
         self.which = hyperparams["which"]
         self.smoothing = hyperparams["smoothing"]
+        self.Ms = hyperparams.get("Ms", self.Ms)
+        self.Ds = hyperparams.get("Ds", self.Ds)
+        self.b = hyperparams.get("b", self.b)
         self.init_magnitude = hyperparams["init_magnitude"]
         self.bias_term = hyperparams["bias_term"]
         self.affine_bias_matrix = hyperparams["affine_bias_matrix"]
-- 
2.43.0


From 2c2b16683324abd8ac0dac60863eac255df8612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:20 +0000
Subject: [PATCH 47/77] fix: the activation of a LinearNN was lost when copying
 or saving it before compiling

---
 parametricmatrixmodels/model.py            | 10 +++++++
 parametricmatrixmodels/modules/linearnn.py | 33 +++++++++++++++++++++-
 2 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index e86ac8d..6e1d000 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1838,6 +1838,16 @@ class Model(BaseModule):
         # first convert data to a dictionary
         data = {key: data[key] for key in data.files}
 
+        # objects are stored in arrays without dimensions
+        data = {
+            key: (
+                value.item()
+                if value.dtype == object and value.shape == ()
+                else value
+            )
+            for key, value in data.items()
+        }
+
         # then convert certain items back to lists or bare values
         if isinstance(data["module_typenames"], (onp.ndarray, np.ndarray)):
             data["module_typenames"] = data["module_typenames"].tolist()
diff --git a/parametricmatrixmodels/modules/linearnn.py b/parametricmatrixmodels/modules/linearnn.py
index 461544e..4eef594 100644
--- a/parametricmatrixmodels/modules/linearnn.py
+++ b/parametricmatrixmodels/modules/linearnn.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import sys
+
 import jax
 
 from ..sequentialmodel import SequentialModel
@@ -177,6 +179,26 @@ class LinearNN(SequentialModel):
         self.real = hyperparams.get("real", self.real)
         super().set_hyperparameters(hyperparams)
 
+    def serialize(self) -> Dict[str, Serializable]:
+        r"""
+        Serialize the LinearNN module to a dictionary.
+
+        Returns
+        -------
+        Dict[str, Serializable]
+            A dictionary containing the serialized data of the module.
+        """
+
+        data = super().serialize()
+        # before compilation the activation is not part of .modules
+        if not self.modules and self.activation is not None:
+            data["activation"] = {
+                "typename": self.activation.__class__.__name__,
+                "module": self.activation.__module__,
+                "serialized": self.activation.serialize(),
+            }
+        return data
+
     def deserialize(
         self,
         data: Dict[str, Serializable],
@@ -199,7 +221,7 @@ class LinearNN(SequentialModel):
         )
         # just need to read .modules to make sure .activation matches the
         # modules
-        if self.modules is not None:
+        if self.modules:
             # figure out if modules contains an activation function
             # by checking the number of modules
             if len(self.modules) == 2:
@@ -210,3 +232,12 @@ class LinearNN(SequentialModel):
                 self.activation = self.modules[3]
             else:
                 self.activation = None
+        elif data.get("activation", None) is not None:
+            activation = data["activation"]
+            self.activation = getattr(
+                sys.modules[activation["module"]], activation["typename"]
+            )()
+            self.activation.deserialize(
+                activation["serialized"],
+                strict_package_version=strict_package_version,
+            )
-- 
2.43.0


From a9f8f72b309f105f4531148d7a00004ea55c1f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:28 +0000
Subject: [PATCH 48/77] fix: LowRankAffineHermitianMatrix could not be copied
 or saved before it was compiled

---
 parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py b/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
index 68549b8..6d14e14 100644
--- a/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
+++ b/parametricmatrixmodels/modules/lowrankaffinehermitianmatrix.py
@@ -291,6 +291,9 @@ class LowRankAffineHermitianMatrix(BaseModule):
         super().set_hyperparameters(hyperparams)
 
     def get_params(self) -> Params:
+        # no parameters before compilation
+        if self.ls is None or self.us is None:
+            return None
         return (self.ls, self.us)
 
     def set_params(self, params: Params) -> None:
-- 
2.43.0


From 0576c4894abe02db977959dbad2486970513618b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:28 +0000
Subject: [PATCH 49/77] fix: asking Flatten for the output shape of another
 input broke the compiled module

---
 parametricmatrixmodels/modules/flatten.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parametricmatrixmodels/modules/flatten.py b/parametricmatrixmodels/modules/flatten.py
index 1287a8a..5e15117 100644
--- a/parametricmatrixmodels/modules/flatten.py
+++ b/parametricmatrixmodels/modules/flatten.py
@@ -52,15 +52,14 @@ class Flatten(Reshape):
         # if input_shape is an iterable of ints, then the input is a single
         # array
         if all(isinstance(dim, int) for dim in input_shape):
-            self.shape = (-1,)
-            return super().get_output_shape(input_shape)
+            return Reshape((-1,)).get_output_shape(input_shape)
 
         # construct the tree of output shapes (all (-1,))
         input_shapes, input_struct = jax.tree.flatten(
             input_shape, is_leaf=is_shape_leaf
         )
-        self.shape = jax.tree.unflatten(
+        shape = jax.tree.unflatten(
             input_struct,
             [(-1,) for _ in input_shapes],
         )
-        return super().get_output_shape(input_shape)
+        return Reshape(shape).get_output_shape(input_shape)
-- 
2.43.0


From f69611032d31f807eee81f3ef1d0f8a7aeaabab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:51 +0000
Subject: [PATCH 50/77] fix: modules whose names start with 'input' or 'output'
 were confused with the model input and output

---
 parametricmatrixmodels/graph_util.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/parametricmatrixmodels/graph_util.py b/parametricmatrixmodels/graph_util.py
index f1566f5..748abda 100644
--- a/parametricmatrixmodels/graph_util.py
+++ b/parametricmatrixmodels/graph_util.py
@@ -359,12 +359,7 @@ def get_outer_connections_by_tree(
     # we use OrderedSet to preserve order
     conn_stripped: Dict[str, OrderedSet[str]] = {}
     for key, value in conn_separated.items():
-        # special case for 'input' and 'output'
-        if key.startswith("input") or key.startswith("output"):
-            # remove all IO paths here too
-            stripped_key = key.split(separator)[0]
-        else:
-            stripped_key, _ = key.split(double_sep)
+        stripped_key, _ = key.split(double_sep)
         if stripped_key not in conn_stripped:
             conn_stripped[stripped_key] = OrderedSet()
         for v in value:
@@ -644,7 +639,11 @@ def place_connections_in_tree(
 
     # infer the remainder structure
     # search through the reversed_part_conn for all keys starting with out_key
-    output_keys = [k for k in reversed_conn if k.startswith(out_key)]
+    output_keys = [
+        k
+        for k in reversed_conn
+        if k == out_key or k.startswith(out_key + separator)
+    ]
 
     # if theres only a single output key, and that key is exactly out_key,
     # then the remainder is just that value
-- 
2.43.0


From ee80b617b704148236894a52283b6e41248bedd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:51 +0000
Subject: [PATCH 51/77] fix: extending a structure by integer and string keys
 at one level failed or not depending on their order

---
 parametricmatrixmodels/tree_util.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/parametricmatrixmodels/tree_util.py b/parametricmatrixmodels/tree_util.py
index 9c7cd06..ff70ecf 100644
--- a/parametricmatrixmodels/tree_util.py
+++ b/parametricmatrixmodels/tree_util.py
@@ -466,6 +466,17 @@ def extend_structure_from_strpaths(
     # we need lists for mutability during construction
     tuple_node_paths = []
 
+    # a new branch is a list only if all of its keys are integers, no matter
+    # which of its paths comes first
+    is_list_branch = {}
+    for strpath in strpaths:
+        path_parts = strpath.split(separator)
+        for i, key in enumerate(path_parts):
+            branch = tuple(path_parts[:i])
+            is_list_branch[branch] = (
+                is_list_branch.get(branch, True) and key.isdigit()
+            )
+
     for strpath, fill_value in zip(strpaths, fill_values):
         current_node = base_pytree
         current_path = ""
@@ -512,8 +523,7 @@ def extend_structure_from_strpaths(
                         current_node[key] = fill_value
                     else:
                         # look ahead to determine next node type
-                        next_key = path_parts[i + 1]
-                        if next_key.isdigit():
+                        if is_list_branch[tuple(path_parts[: i + 1])]:
                             current_node[key] = []
                         else:
                             current_node[key] = {}
@@ -534,8 +544,7 @@ def extend_structure_from_strpaths(
                         current_node[key] = fill_value
                     else:
                         # look ahead to determine next node type
-                        next_key = path_parts[i + 1]
-                        if next_key.isdigit():
+                        if is_list_branch[tuple(path_parts[: i + 1])]:
                             current_node[key] = []
                         else:
                             current_node[key] = {}
-- 
2.43.0


From d1e9ebbd4e626eb55730bb47c8dd09cbac8f6920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:51 +0000
Subject: [PATCH 52/77] fix: the made-up keys of unnamed connections changed
 every time they were resolved, so the output structure of a
 NonSequentialModel differed from the announced one

---
 parametricmatrixmodels/graph_util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/graph_util.py b/parametricmatrixmodels/graph_util.py
index 748abda..f665fe7 100644
--- a/parametricmatrixmodels/graph_util.py
+++ b/parametricmatrixmodels/graph_util.py
@@ -76,7 +76,11 @@ def concretize_paths(paths: List[str], separator: str = ".") -> List[str]:
                 # use uuid to avoid collisions
                 for p, i in group_paths:
                     if p == []:
-                        new_key = str(uuid.uuid4().hex)
+                        # reproducible, such that the structure is the
+                        # same every time it is resolved
+                        new_key = uuid.uuid5(
+                            uuid.NAMESPACE_OID, f"{prefix}{separator}{i}"
+                        ).hex
                         paths[i] = paths[i] + [new_key]
             else:
                 # get an iterable of available indices
-- 
2.43.0


From 332a0c0d371721272c9f6c9d3df7aeeae32c72e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:48 +0000
Subject: [PATCH 53/77] fix: ConformalizedModel kept using cached quantiles of
 an earlier calibration

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index e7aa48d..6b88a2f 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -813,6 +813,9 @@ class ConformalizedModel(object):
 
         self.scores = tree_util.div(tree_util.abs(Y_cal_residuals), u_cal)
 
+        # quantiles of an earlier calibration are no longer valid
+        self.qhats = {}
+
     def parameter_sensitivity(
         self,
         X: Data,
-- 
2.43.0


From 80ff48db5956ba73ab508088f26bdd728e85162e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:48 +0000
Subject: [PATCH 54/77] fix: ConformalizedModel could not be calibrated with
 target uncertainties

---
 .../conformal/conformalizedmodel.py           | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 6b88a2f..9991095 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1795,10 +1795,21 @@ def weighted_quantile(
     axis: int = 0,
     quantiles: Real[Array, " q"] | float = 0.5,
 ) -> Inexact[Array, "..."]:
-    idxs = np.argsort(weights, axis=axis)
-    cum_weights = np.cumsum(weights[idxs], axis=axis)
-    w_qs = np.interp(quantiles * cum_weights[~0], cum_weights, data[idxs])
-    return w_qs
+    # quantiles along the given axis, one for each of the remaining entries
+    data = np.moveaxis(data, axis, 0)
+    weights = np.moveaxis(weights, axis, 0)
+    idxs = np.argsort(data, axis=0)
+    sorted_data = np.take_along_axis(data, idxs, axis=0)
+    cum_weights = np.cumsum(np.take_along_axis(weights, idxs, axis=0), axis=0)
+    w_qs = jax.vmap(
+        lambda c, d: np.interp(quantiles * c[-1], c, d),
+        in_axes=1,
+        out_axes=-1,
+    )(
+        cum_weights.reshape(data.shape[0], -1),
+        sorted_data.reshape(data.shape[0], -1),
+    )
+    return w_qs.reshape(np.shape(quantiles) + data.shape[1:])
 
 
 def mad(
-- 
2.43.0


From 85f11d3234548317122ce4608d6dc4ac8a52fd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:48 +0000
Subject: [PATCH 55/77] fix: ConformalizedModel could not be calibrated with
 training data that have a constant feature

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 9991095..610d05e 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -647,7 +647,13 @@ class ConformalizedModel(object):
                 # of 2 (L1 distance)
                 if not is_continuous:
                     return np.full(feature.shape[1:], 2.0, dtype=feature.dtype)
-                return np.ptp(feature, axis=0)
+                feature_range = np.ptp(feature, axis=0)
+                # constant features don't need to be scaled
+                return np.where(
+                    feature_range == 0,
+                    np.ones_like(feature_range),
+                    feature_range,
+                )
 
             self._iqr_X_train = jax.tree.map(
                 compute_iqr,
-- 
2.43.0


From d18883bfed91970d9d64821fa4e1080f2d8bcb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:48 +0000
Subject: [PATCH 56/77] fix: ConformalizedModel could not be calibrated with
 categorical features of several components

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 610d05e..be0209d 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -646,7 +646,8 @@ class ConformalizedModel(object):
                 # encoding which has a range of 1 and a max grower distance
                 # of 2 (L1 distance)
                 if not is_continuous:
-                    return np.full(feature.shape[1:], 2.0, dtype=feature.dtype)
+                    # same for all columns of the one-hot encoding
+                    return np.full((1,), 2.0, dtype=feature.dtype)
                 feature_range = np.ptp(feature, axis=0)
                 # constant features don't need to be scaled
                 return np.where(
-- 
2.43.0


From 561e8d78800b4b2b62871ee98d135f0e13ee5ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:48 +0000
Subject: [PATCH 57/77] fix: the distance sensitivity of ConformalizedModel
 failed for outputs with more than one dimension

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index be0209d..ae16365 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1528,7 +1528,11 @@ class ConformalizedModel(object):
                     clearline=clearline,
                 )
 
-                u = jax.tree.map(lambda x: x + u_dist, u)
+                u = jax.tree.map(
+                    lambda x: x
+                    + u_dist.reshape((n_samples,) + (1,) * (x.ndim - 1)),
+                    u,
+                )
 
         return u
 
-- 
2.43.0


From 5ddfb273d5ad5f68f374381a652a094fbfe8dd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:48 +0000
Subject: [PATCH 58/77] fix: stratified bias corrections of ConformalizedModel
 failed for outputs with more than one component

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index ae16365..0b1cd70 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -537,7 +537,7 @@ class ConformalizedModel(object):
                         for i in range(self._strata_unique_values.shape[0])
                     ]
                     # bias of 0.0 for points that don't match any strata
-                    + [[0.0]],
+                    + [np.zeros(y.shape[1:], dtype=y.dtype)],
                     dtype=y.dtype,
                 ),
                 Y_cal_residuals,
-- 
2.43.0


From d342cf8f1a9512baa75d5f1a73f5cec7b6181b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:53 +0000
Subject: [PATCH 59/77] fix: ConformalizedModel could not be calibrated with
 training data but without distance sensitivity

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 0b1cd70..25f25b9 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -682,6 +682,9 @@ class ConformalizedModel(object):
             )
             self._onehot_training_enc.fit(self._training_data)
 
+        if self._training_data is not None and tree_util.any(
+            self._distance_sensitivity
+        ):
             flat_data = self._prepare_data_for_kdtree(self._training_data)
 
             # before building the KDTree, remove any duplicate points in the
@@ -1700,7 +1703,9 @@ class ConformalizedModel(object):
         conf_model._distance_sensitivity = conf_state["_distance_sensitivity"]
 
         # if the training data is not None, rebuild the KDTree
-        if conf_model._training_data is not None:
+        if conf_model._training_data is not None and tree_util.any(
+            conf_model._distance_sensitivity
+        ):
             flat_data = conf_model._prepare_data_for_kdtree(
                 conf_model._training_data
             )
-- 
2.43.0


From a7a73da76ec3a44c2a8abc51aae32c8796bd42ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:53 +0000
Subject: [PATCH 60/77] fix: ConformalizedModel could not be calibrated with
 training data that have no continuous features

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 25f25b9..aa3d9b6 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -452,6 +452,13 @@ class ConformalizedModel(object):
                 )
             self._input_sensitivity = input_sensitivity
 
+        # only continuous features contribute to the input sensitivity
+        self._input_sensitivity = jax.tree.map(
+            lambda s, cont: s and cont,
+            self._input_sensitivity,
+            self._continuous_features,
+        )
+
         if isinstance(distance_sensitivity, bool):
             self._distance_sensitivity = jax.tree.map(
                 lambda _: distance_sensitivity,
-- 
2.43.0


From 62ef27eec7e6844e6952552f36db2c38bc21c5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:19 +0000
Subject: [PATCH 61/77] fix: prediction intervals were NaN if the uncertainty
 heuristic vanishes somewhere in the calibration data

---
 .../conformal/conformalizedmodel.py           | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index aa3d9b6..823e0b1 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -828,7 +828,12 @@ class ConformalizedModel(object):
 
         # s = |Y - Y_pred| / u
 
-        self.scores = tree_util.div(tree_util.abs(Y_cal_residuals), u_cal)
+        # a residual of zero has score zero, even if u is zero there
+        self.scores = jax.tree.map(
+            lambda r, u: np.where(r == 0, np.zeros_like(r), r / u),
+            tree_util.abs(Y_cal_residuals),
+            u_cal,
+        )
 
         # quantiles of an earlier calibration are no longer valid
         self.qhats = {}
@@ -1196,6 +1201,10 @@ class ConformalizedModel(object):
                 ),
                 self.scores,
             )
+            # interpolation next to an infinite score results in NaN
+            new_qhats = jax.tree.map(
+                lambda q: np.where(np.isnan(q), np.inf, q), new_qhats
+            )
             # new_qhats is a PyTree where the leading dimension of each leaf is
             # the number of new alphas, so we need to split it into a list of
             # PyTrees, one for each new alpha
@@ -1372,9 +1381,15 @@ class ConformalizedModel(object):
         # lower = Y_pred - qhat * u_x
         # upper = Y_pred + qhat * u_x
 
+        def half_width(q: Data) -> Data:
+            # unbounded if qhat is infinite, even if u is zero
+            return jax.tree.map(
+                lambda q_, u: np.where(np.isinf(q_), np.inf, q_ * u), q, u_x
+            )
+
         if alpha.size == 1:
-            lower = tree_util.sub(Y_pred, tree_util.mul(qhat, u_x))
-            upper = tree_util.add(Y_pred, tree_util.mul(qhat, u_x))
+            lower = tree_util.sub(Y_pred, half_width(qhat))
+            upper = tree_util.add(Y_pred, half_width(qhat))
 
             if return_state:
                 return Y_pred, (lower, upper), state
@@ -1385,8 +1400,8 @@ class ConformalizedModel(object):
             lowers = []
             uppers = []
             for q in qhat:
-                lowers.append(tree_util.sub(Y_pred, tree_util.mul(q, u_x)))
-                uppers.append(tree_util.add(Y_pred, tree_util.mul(q, u_x)))
+                lowers.append(tree_util.sub(Y_pred, half_width(q)))
+                uppers.append(tree_util.add(Y_pred, half_width(q)))
 
             if return_state:
                 return Y_pred, list(zip(lowers, uppers)), state
-- 
2.43.0


From 823f5b64cc0e84a0768b60b26b5b624b736a1426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:22 +0000
Subject: [PATCH 62/77] fix: input uncertainties were broadcast instead of
 being used sample by sample in the input sensitivity of ConformalizedModel

---
 .../conformal/conformalizedmodel.py           | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 823e0b1..f7be270 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -3,7 +3,6 @@ from __future__ import annotations
 import operator
 import sys
 import warnings
-from functools import partial
 from pathlib import Path
 from typing import IO
 
@@ -1003,8 +1002,10 @@ class ConformalizedModel(object):
             X_unc = handle_naninf(X_unc)
             dy_input_unc = tree_util.scalar_mul(
                 jax.tree.map(
-                    lambda _, df: accumulate_sum_sq_over_output_leaves(
-                        u_dtype, df, X_unc
+                    lambda _, df: (
+                        accumulate_sum_sq_over_output_leaves_per_sample(
+                            u_dtype, df, X_unc
+                        )
                     ),
                     self.model.output_shape,
                     df_dx,
@@ -1941,9 +1942,8 @@ def pytree_robust_normalization(
         return jax.tree.map(lambda d: robust_normalization(d, None, eps), data)
 
 
-@partial(jax.vmap, in_axes=(None, 0, None))
 @jaxtyped(typechecker=beartype)
-def accumulate_sum_sq_over_output_leaves(
+def _accumulate_sum_sq_over_output_leaves(
     u_dtype: jax.typing.DTypeLike,
     df_leaf_dxs: PyTree[Inexact[Array, "..."], " In"],
     x_scales: PyTree[Inexact[Array, "..."], " In"],
@@ -1978,3 +1978,13 @@ def accumulate_sum_sq_over_output_leaves(
             x_scales,
         ),
     )
+
+
+# same scales for all samples
+accumulate_sum_sq_over_output_leaves = jax.vmap(
+    _accumulate_sum_sq_over_output_leaves, in_axes=(None, 0, None)
+)
+# different scales for each sample
+accumulate_sum_sq_over_output_leaves_per_sample = jax.vmap(
+    _accumulate_sum_sq_over_output_leaves, in_axes=(None, 0, 0)
+)
-- 
2.43.0


From c6a6ac9fad2eb6e35f7be9976a24ac2d3662cca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:01 +0000
Subject: [PATCH 63/77] fix: a refused calibration changed the options of the
 previous calibration of a ConformalizedModel

---
 .../conformal/conformalizedmodel.py           | 32 +++++++++++--------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index f7be270..967134b 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -318,8 +318,6 @@ class ConformalizedModel(object):
             # if not provided, assume all features are continuous
             continuous_features = jax.tree.map(lambda _: True, X_cal)
 
-        self._continuous_features = continuous_features
-
         if stratified_bias_corrections is not None:
             # stratified bias correction should be a bool or PyTree with the
             # same structure as the input features, and each True must be False
@@ -355,8 +353,6 @@ class ConformalizedModel(object):
             # if not provided, assume no stratified bias correction
             stratified_bias_corrections = False
 
-        self._stratified_bias_corrections = stratified_bias_corrections
-
         if not skip_sanity_checks:
             # check each feature marked as continuous has n_unique greater than
             # some absolute threshold and n_unique/n_total greater than some
@@ -394,7 +390,7 @@ class ConformalizedModel(object):
                 return looks_continuous == is_continuous
 
             sanity_checks = jax.tree.map(
-                sanity_check, data_for_sanity_check, self._continuous_features
+                sanity_check, data_for_sanity_check, continuous_features
             )
 
             if not jax.tree.all(sanity_checks):
@@ -418,7 +414,7 @@ class ConformalizedModel(object):
         # make PyTrees of booleans for which sensitivities to compute, or check
         # their structure if already provided as PyTrees
         if isinstance(parameter_sensitivity, bool):
-            self._parameter_sensitivity = jax.tree.map(
+            new_parameter_sensitivity = jax.tree.map(
                 lambda _: parameter_sensitivity, self.model.get_params()
             )
         else:
@@ -431,10 +427,10 @@ class ConformalizedModel(object):
                     f"{jax.tree.structure(parameter_sensitivity)} and "
                     f"{jax.tree.structure(self.model.get_params())}."
                 )
-            self._parameter_sensitivity = parameter_sensitivity
+            new_parameter_sensitivity = parameter_sensitivity
 
         if isinstance(input_sensitivity, bool):
-            self._input_sensitivity = jax.tree.map(
+            new_input_sensitivity = jax.tree.map(
                 lambda _: input_sensitivity,
                 self.model.input_shape,
                 is_leaf=tree_util.is_shape_leaf,
@@ -449,17 +445,17 @@ class ConformalizedModel(object):
                     f"{jax.tree.structure(input_sensitivity)} and "
                     f"{jax.tree.structure(self.model.input_shape)}."
                 )
-            self._input_sensitivity = input_sensitivity
+            new_input_sensitivity = input_sensitivity
 
         # only continuous features contribute to the input sensitivity
-        self._input_sensitivity = jax.tree.map(
+        new_input_sensitivity = jax.tree.map(
             lambda s, cont: s and cont,
-            self._input_sensitivity,
-            self._continuous_features,
+            new_input_sensitivity,
+            continuous_features,
         )
 
         if isinstance(distance_sensitivity, bool):
-            self._distance_sensitivity = jax.tree.map(
+            new_distance_sensitivity = jax.tree.map(
                 lambda _: distance_sensitivity,
                 self.model.input_shape,
                 is_leaf=tree_util.is_shape_leaf,
@@ -474,7 +470,15 @@ class ConformalizedModel(object):
                     f"{jax.tree.structure(distance_sensitivity)} and "
                     f"{jax.tree.structure(self.model.input_shape)}."
                 )
-            self._distance_sensitivity = distance_sensitivity
+            new_distance_sensitivity = distance_sensitivity
+
+        # the arguments are valid, from here on the previous calibration is
+        # replaced
+        self._continuous_features = continuous_features
+        self._stratified_bias_corrections = stratified_bias_corrections
+        self._parameter_sensitivity = new_parameter_sensitivity
+        self._input_sensitivity = new_input_sensitivity
+        self._distance_sensitivity = new_distance_sensitivity
 
         # precompute and store relevant fields
 
-- 
2.43.0


From 2d2e1ddac065e3d35be6da6044a40ca0a706ac18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:01 +0000
Subject: [PATCH 64/77] fix: ConformalizedModel.from_file did not find what
 save wrote under a name without .npz

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 967134b..640e6ee 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1795,6 +1795,11 @@ class ConformalizedModel(object):
         A ``ConformalizedModel`` instance.
         """
 
+        # same name as used by save and save_compressed
+        if isinstance(file, (str, Path)):
+            file = str(file)
+            file = file if file.endswith(".npz") else file + ".npz"
+
         data = np.load(file, allow_pickle=True)
 
         # convert npz object to dict
-- 
2.43.0


From 84cbfb395ebf7bb99a9e67e9d9ad6d5e63deea06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:01 +0000
Subject: [PATCH 65/77] fix: the name of a ConformalizedModel loaded from a
 file was an array

---
 parametricmatrixmodels/conformal/conformalizedmodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parametricmatrixmodels/conformal/conformalizedmodel.py b/parametricmatrixmodels/conformal/conformalizedmodel.py
index 640e6ee..9219823 100644
--- a/parametricmatrixmodels/conformal/conformalizedmodel.py
+++ b/parametricmatrixmodels/conformal/conformalizedmodel.py
@@ -1814,6 +1814,8 @@ class ConformalizedModel(object):
             data["model_fulltypename"] = data["model_fulltypename"].item()
         if isinstance(data["model_module"], (onp.ndarray, np.ndarray)):
             data["model_module"] = data["model_module"].item()
+        if isinstance(data.get("conformal_name"), (onp.ndarray, np.ndarray)):
+            data["conformal_name"] = data["conformal_name"].item()
         if isinstance(
             data["conformalization_state"], (onp.ndarray, np.ndarray)
         ):
-- 
2.43.0


From e2398f9c9d75a54537fcc5fefbd9bd1e89510607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:37 +0000
Subject: [PATCH 66/77] fix: a differentiation mode requested once stayed in
 use, or was ignored, in later calls of grad_input and grad_params

---
 parametricmatrixmodels/model.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 6e1d000..9035ffd 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -716,7 +716,7 @@ class Model(BaseModule):
         def get_num_elems(count: int, shape: Tuple[int, ...]) -> int:
             return count + onp.prod(shape)
 
-        if self.grad_callable_inputs is None and fwd is None:
+        if fwd is None:
             num_input_elems = jax.tree.reduce(
                 get_num_elems, self.input_shape, initializer=0
             )
@@ -731,15 +731,14 @@ class Model(BaseModule):
 
         # prepare the grad callable if not already done
         if (self.grad_callable_inputs is None) or (
-            fwd is not None
-            and (
-                self.grad_callable_inputs_options
-                != {
-                    "fwd": fwd,
-                }
-            )
+            self.grad_callable_inputs_options
+            != {
+                "fwd": fwd,
+            }
         ):
             raw_callable = self._get_callable()
+            # the autobatched version wraps the previous grad callable
+            self.autobatched_grad_callable_inputs = None
 
             self.grad_callable_inputs_options = {
                 "fwd": fwd,
@@ -894,7 +893,7 @@ class Model(BaseModule):
         def get_num_elems(count: int, shape: Tuple[int, ...]) -> int:
             return count + onp.prod(shape)
 
-        if self.grad_callable_params is None and fwd is None:
+        if fwd is None:
             num_input_elems = jax.tree.reduce(
                 get_num_elems, self.input_shape, initializer=0
             )
@@ -908,9 +907,11 @@ class Model(BaseModule):
             fwd = num_input_elems < num_output_elems
 
         if self.grad_callable_params is None or (
-            fwd is not None and (self.grad_callable_params_options != fwd)
+            self.grad_callable_params_options != fwd
         ):
             raw_callable = self._get_callable()
+            # the autobatched version wraps the previous grad callable
+            self.autobatched_grad_callable_params = None
             self.grad_callable_params_options = fwd
             if fwd:
                 self.grad_callable_params = jax.jacfwd(
-- 
2.43.0


From 8a5b7a284bc1150c5a87b939dca1339a8931ecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:37 +0000
Subject: [PATCH 67/77] fix: grad_input and grad_params chose a mode that JAX
 refuses for complex parameters, inputs or outputs

---
 parametricmatrixmodels/model.py | 65 +++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 16 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 9035ffd..6a3a11a 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -646,6 +646,29 @@ class Model(BaseModule):
     # alias for __call__ method
     predict = __call__
 
+    def _mode_supported(
+        self, fwd: bool, wrt: Any, X: Data, rng: Any
+    ) -> bool:
+        r"""
+        Whether ``jax.jacfwd`` (``fwd=True``) or ``jax.jacrev``
+        (``fwd=False``) is applicable to the derivative with respect to
+        ``wrt``. The former requires real inputs, the latter real outputs.
+        """
+        if not fwd:
+            wrt, _ = jax.eval_shape(
+                lambda params, x, state, key: self._get_callable()(
+                    params, x, False, state, key
+                ),
+                self.get_params(),
+                X,
+                self.get_state(),
+                rng,
+            )
+        return not any(
+            np.issubdtype(leaf.dtype, np.complexfloating)
+            for leaf in jax.tree.leaves(wrt)
+        )
+
     def grad_input(
         self,
         X: PyTree[Inexact[Array, "num_samples ..."], " DataStruct"],
@@ -713,6 +736,14 @@ class Model(BaseModule):
             )
         self._verify_input(X)
 
+        # safecast input to requested dtype
+        X_ = safecast(X, dtype)
+
+        if rng is None:
+            rng = self.get_rng()
+        elif isinstance(rng, int):
+            rng = jax.random.key(rng)
+
         def get_num_elems(count: int, shape: Tuple[int, ...]) -> int:
             return count + onp.prod(shape)
 
@@ -728,6 +759,11 @@ class Model(BaseModule):
             # fwd is more efficient when the number of input elements is less
             # than the number of output elements in general
             fwd = num_input_elems < num_output_elems
+            # unless this mode is not applicable
+            if not self._mode_supported(
+                fwd, X_, X_, rng
+            ) and self._mode_supported(not fwd, X_, X_, rng):
+                fwd = not fwd
 
         # prepare the grad callable if not already done
         if (self.grad_callable_inputs is None) or (
@@ -778,14 +814,6 @@ class Model(BaseModule):
                 grad_single, in_axes=(None, 0, None, None, None)
             )
 
-        # safecast input to requested dtype
-        X_ = safecast(X, dtype)
-
-        if rng is None:
-            rng = self.get_rng()
-        elif isinstance(rng, int):
-            rng = jax.random.key(rng)
-
         if self.autobatched_grad_callable_inputs is None or (
             self.autobatched_grad_callable_inputs_options
             != {
@@ -890,6 +918,14 @@ class Model(BaseModule):
             )
         self._verify_input(X)
 
+        # safecast input to requested dtype
+        X_ = safecast(X, dtype)
+
+        if rng is None:
+            rng = self.get_rng()
+        elif isinstance(rng, int):
+            rng = jax.random.key(rng)
+
         def get_num_elems(count: int, shape: Tuple[int, ...]) -> int:
             return count + onp.prod(shape)
 
@@ -905,6 +941,11 @@ class Model(BaseModule):
             # fwd is more efficient when the number of input elements is less
             # than the number of output elements in general
             fwd = num_input_elems < num_output_elems
+            # unless this mode is not applicable
+            if not self._mode_supported(
+                fwd, self.get_params(), X_, rng
+            ) and self._mode_supported(not fwd, self.get_params(), X_, rng):
+                fwd = not fwd
 
         if self.grad_callable_params is None or (
             self.grad_callable_params_options != fwd
@@ -922,14 +963,6 @@ class Model(BaseModule):
                     raw_callable, argnums=0, has_aux=True
                 )
 
-        # safecast input to requested dtype
-        X_ = safecast(X, dtype)
-
-        if rng is None:
-            rng = self.get_rng()
-        elif isinstance(rng, int):
-            rng = jax.random.key(rng)
-
         if self.autobatched_grad_callable_params is None or (
             self.autobatched_grad_callable_params_options
             != {
-- 
2.43.0


From 980c16b2812f2e10e0a2e4ccbbac6b413d96b98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:37 +0000
Subject: [PATCH 68/77] fix: grad_input returned and stored one state per
 sample, and failed for stateful models with max_batch_size

---
 parametricmatrixmodels/model.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 6a3a11a..46e1460 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -810,10 +810,25 @@ class Model(BaseModule):
                 grad_single = jax.jacrev(
                     callable_single, argnums=1, has_aux=True
                 )
-            self.grad_callable_inputs = jax.vmap(
+            grad_samples = jax.vmap(
                 grad_single, in_axes=(None, 0, None, None, None)
             )
 
+            def grad_callable_inputs(
+                params: ModelParams,
+                X: Data,
+                training: bool,
+                state: ModelState,
+                rng: Any,
+            ) -> Tuple[Data, ModelState]:
+                grads, _ = grad_samples(params, X, training, state, rng)
+                # the states of the individual samples are not the state of
+                # the model after evaluating the batch
+                _, new_state = raw_callable(params, X, training, state, rng)
+                return grads, new_state
+
+            self.grad_callable_inputs = grad_callable_inputs
+
         if self.autobatched_grad_callable_inputs is None or (
             self.autobatched_grad_callable_inputs_options
             != {
-- 
2.43.0


From 978c46399502394537fab989892f23761a7d72db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:37 +0000
Subject: [PATCH 69/77] fix: avoid_recompilation failed for inputs with one
 number per sample

---
 parametricmatrixmodels/model_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model_util.py b/parametricmatrixmodels/model_util.py
index d694084..1ee1d52 100644
--- a/parametricmatrixmodels/model_util.py
+++ b/parametricmatrixmodels/model_util.py
@@ -218,7 +218,7 @@ def autobatch(
                     out_remainders = []
                     for j in range(remainder):
                         X_rem = jax.tree.map(
-                            lambda x: x[j][None, :], X_remainder
+                            lambda x: x[j][None, ...], X_remainder
                         )
                         out_remainder, new_state = jfn(
                             params,
-- 
2.43.0


From 9d9430fa592a4eabf3a26381fdc08f981993c52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:36 +0000
Subject: [PATCH 70/77] fix: grad_params failed for models without parameters

---
 parametricmatrixmodels/model.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 46e1460..4e76cd7 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -969,7 +969,22 @@ class Model(BaseModule):
             # the autobatched version wraps the previous grad callable
             self.autobatched_grad_callable_params = None
             self.grad_callable_params_options = fwd
-            if fwd:
+            if not jax.tree.leaves(self.get_params()):
+                # no parameters, nothing to differentiate
+                def grad_callable_params(
+                    params: ModelParams,
+                    X: Data,
+                    training: bool,
+                    state: ModelState,
+                    rng: Any,
+                ) -> Tuple[Any, ModelState]:
+                    y, new_state = raw_callable(
+                        params, X, training, state, rng
+                    )
+                    return jax.tree.map(lambda _: params, y), new_state
+
+                self.grad_callable_params = grad_callable_params
+            elif fwd:
                 self.grad_callable_params = jax.jacfwd(
                     raw_callable, argnums=0, has_aux=True
                 )
-- 
2.43.0


From c00f0d62b7633f7147eef673e576f14be59444c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:09 +0000
Subject: [PATCH 71/77] fix: set_precision converted integer states to floating
 point numbers

---
 parametricmatrixmodels/modules/basemodule.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parametricmatrixmodels/modules/basemodule.py b/parametricmatrixmodels/modules/basemodule.py
index 5a7099e..d464b46 100644
--- a/parametricmatrixmodels/modules/basemodule.py
+++ b/parametricmatrixmodels/modules/basemodule.py
@@ -687,6 +687,9 @@ class BaseModule(ABC):
             """
             if np.iscomplexobj(p):
                 return p.astype(np.complex64 if prec == 32 else np.complex128)
+            elif np.issubdtype(p.dtype, np.integer):
+                # integers (e.g. counters in the state) have no precision
+                return p
             else:
                 return p.astype(np.float32 if prec == 32 else np.float64)
 
-- 
2.43.0


From 508329c57b716d8da14c45af5cd31d698a08f3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:09 +0000
Subject: [PATCH 72/77] fix: all modules of a NonSequentialModel used the same
 random numbers

---
 parametricmatrixmodels/nonsequentialmodel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/nonsequentialmodel.py b/parametricmatrixmodels/nonsequentialmodel.py
index e71562f..60f21c7 100644
--- a/parametricmatrixmodels/nonsequentialmodel.py
+++ b/parametricmatrixmodels/nonsequentialmodel.py
@@ -854,10 +854,11 @@ class NonSequentialModel(Model):
             new_state = jax.tree.map(lambda s: s, state)
             # now execute each module in the execution order, assembling the
             # inputs from the intermediate outputs
-            for mod_path, module_callable, req_in_paths in zip(
+            for mod_path, module_callable, req_in_paths, key in zip(
                 self.execution_order,
                 module_callables,
                 module_input_deps,
+                jax.random.split(rng, len(self.execution_order)),
             ):
                 if mod_path == "input" or mod_path == "output":
                     continue
@@ -896,7 +897,7 @@ class NonSequentialModel(Model):
                     in_data,
                     training,
                     module_state,
-                    rng,
+                    key,
                 )
 
                 # store the output
-- 
2.43.0


From 37119cb6e64706154813186b53b8f4a341d511e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:41 +0000
Subject: [PATCH 73/77] fix: grad_input failed for models with integer states

---
 parametricmatrixmodels/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 4e76cd7..95aa4c2 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -792,7 +792,9 @@ class Model(BaseModule):
                 training: bool,
                 state: ModelState,
                 rng: Any,
-            ) -> PyTree[Inexact[Array, "..."]]:  # no batch dim
+            ) -> Tuple[
+                PyTree[Inexact[Array, "..."]], ModelState
+            ]:  # no batch dim
                 y, new_state = raw_callable(
                     params,
                     jax.tree.map(lambda u: u[None, ...], x),
-- 
2.43.0


From e9a093d11c7f81eab2e601ab7eda3bfd4a5c17b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:41 +0000
Subject: [PATCH 74/77] fix: BaseModule.astype rejected 32 and 64

---
 parametricmatrixmodels/modules/basemodule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/modules/basemodule.py b/parametricmatrixmodels/modules/basemodule.py
index d464b46..0befbde 100644
--- a/parametricmatrixmodels/modules/basemodule.py
+++ b/parametricmatrixmodels/modules/basemodule.py
@@ -697,7 +697,9 @@ class BaseModule(ABC):
         self.set_state(jax.tree.map(set_param_prec, self.get_state()))
 
     @jaxtyped(typechecker=beartype)
-    def astype(self, dtype: jax.typing.DTypeLike, /) -> "BaseModule":
+    def astype(
+        self, dtype: jax.typing.DTypeLike | str | int, /
+    ) -> "BaseModule":
         """
         Convenience wrapper to set_precision using the dtype argument, returns
         self.
-- 
2.43.0


From ebc33c769ee5bbde3dab1d85f8fa220b6c777b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:41 +0000
Subject: [PATCH 75/77] fix: set_precision failed for NonSequentialModels with
 unconnected modules

---
 parametricmatrixmodels/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 95aa4c2..97deef8 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -1099,7 +1099,12 @@ class Model(BaseModule):
                 "complex128 data types."
             )
 
-        jax.tree.map(lambda m: m.set_precision(prec), self.modules)
+        # modules that aren't part of the graph of a NonSequentialModel are
+        # never compiled
+        jax.tree.map(
+            lambda m: m.set_precision(prec) if m.is_ready() else None,
+            self.modules,
+        )
 
     # alias for set_precision method that returns self
     def astype(self, dtype: jax.typing.DTypeLike | int, /) -> "Model":
-- 
2.43.0


From 63c189702e80e7a6ce446cee6f5705a21d48858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:35 +0000
Subject: [PATCH 76/77] fix: freezing a composite module before it is compiled
 was lost

---
 parametricmatrixmodels/model.py                    | 14 +++++++++++---
 .../modules/affineeigenvaluepmm.py                 |  4 ++++
 .../modules/affineobservablepmm.py                 |  4 ++++
 parametricmatrixmodels/modules/linearnn.py         |  4 ++++
 4 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/parametricmatrixmodels/model.py b/parametricmatrixmodels/model.py
index 97deef8..ee573a2 100644
--- a/parametricmatrixmodels/model.py
+++ b/parametricmatrixmodels/model.py
@@ -98,12 +98,15 @@ class Model(BaseModule):
     # override the trainable property
     @property
     def trainable(self) -> bool:
-        return any(
-            module.trainable for module in jax.tree.leaves(self.modules)
-        )
+        modules = jax.tree.leaves(self.modules)
+        if not modules:
+            # e.g. a composite module that is yet to be compiled
+            return BaseModule.trainable.fget(self)
+        return any(module.trainable for module in modules)
 
     @trainable.setter
     def trainable(self, value: bool) -> None:
+        BaseModule.trainable.fset(self, value)
         for module in jax.tree.leaves(self.modules):
             module.trainable = value
 
@@ -1839,6 +1842,11 @@ class Model(BaseModule):
             if key
             not in ("rng", "_optimizer_state", "params", "state", "trainable")
         }
+        if (
+            not jax.tree.leaves(self.modules)
+            and data["self_serialized"].get("trainable") is not None
+        ):
+            self.trainable = data["self_serialized"]["trainable"]
 
         # let default deserialization handle the rest of the attributes
         super().deserialize(
diff --git a/parametricmatrixmodels/modules/affineeigenvaluepmm.py b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
index 53d6506..e90c176 100644
--- a/parametricmatrixmodels/modules/affineeigenvaluepmm.py
+++ b/parametricmatrixmodels/modules/affineeigenvaluepmm.py
@@ -163,6 +163,8 @@ class AffineEigenvaluePMM(SequentialModel):
                 UserWarning,
             )
 
+        # modules built here are frozen if the whole module is
+        frozen = not self.trainable
         if self.input_shape != input_shape or self.modules is None:
             # Create the AffineHermitianMatrix module
             affine_module = AffineHermitianMatrix(
@@ -184,6 +186,8 @@ class AffineEigenvaluePMM(SequentialModel):
 
         # Call the parent compile method
         super().compile(rng, input_shape, verbose=verbose)
+        if frozen:
+            self.freeze()
 
     def get_output_shape(self, input_shape: DataShape) -> DataShape:
         valid, _ = is_single_leaf(input_shape, is_leaf=is_shape_leaf)
diff --git a/parametricmatrixmodels/modules/affineobservablepmm.py b/parametricmatrixmodels/modules/affineobservablepmm.py
index 7ab3a5e..b73d11f 100644
--- a/parametricmatrixmodels/modules/affineobservablepmm.py
+++ b/parametricmatrixmodels/modules/affineobservablepmm.py
@@ -249,6 +249,8 @@ class AffineObservablePMM(SequentialModel):
                 UserWarning,
             )
 
+        # modules built here are frozen if the whole module is
+        frozen = not self.trainable
         # don't override existing modules if input shape hasn't changed
         if input_shape != self.input_shape or self.modules is None:
 
@@ -300,6 +302,8 @@ class AffineObservablePMM(SequentialModel):
             self.modules = tuple(self.modules)
 
         super().compile(rng, input_shape, verbose=verbose)
+        if frozen:
+            self.freeze()
 
     def get_output_shape(self, input_shape: DataShape) -> DataShape:
         if self.output_size is None:
diff --git a/parametricmatrixmodels/modules/linearnn.py b/parametricmatrixmodels/modules/linearnn.py
index 4eef594..abc12d2 100644
--- a/parametricmatrixmodels/modules/linearnn.py
+++ b/parametricmatrixmodels/modules/linearnn.py
@@ -90,6 +90,8 @@ class LinearNN(SequentialModel):
                 "LinearNN only supports input shapes with a single leaf array."
             )
 
+        # modules built here are frozen if the whole module is
+        frozen = not self.trainable
         if input_shape != self.input_shape or self.modules is None:
             # don't overwrite modules if input shape hasn't changed
             modules: List[BaseModule] = [
@@ -118,6 +120,8 @@ class LinearNN(SequentialModel):
             self.modules = modules
 
         super().compile(rng, input_shape, verbose=verbose)
+        if frozen:
+            self.freeze()
 
     def get_output_shape(self, input_shape: DataShape) -> DataShape:
         r"""
-- 
2.43.0


From 011e55b08519dbcf9f84d2de00bada2641f6246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:48 +0000
Subject: [PATCH 77/77] fix: asking a compiled MatMul for the output shape of
 another input broke it

---
 parametricmatrixmodels/modules/matmul.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/parametricmatrixmodels/modules/matmul.py b/parametricmatrixmodels/modules/matmul.py
index 35e16b2..0ff54b2 100644
--- a/parametricmatrixmodels/modules/matmul.py
+++ b/parametricmatrixmodels/modules/matmul.py
@@ -142,17 +142,27 @@ class MatMul(Einsum):
         return f"MatMul({type_str})"
 
     def get_output_shape(self, input_shape: DataShape) -> DataShape:
+        # asking for the output shape must not affect a compiled module
+        previous = (self.einsum_str, self.dim_map)
         self.einsum_str, self.dim_map = self._get_einsum_str_and_dim_map(
             input_shape
         )
 
-        return super().get_output_shape(input_shape)
+        try:
+            return super().get_output_shape(input_shape)
+        finally:
+            self.einsum_str, self.dim_map = previous
 
     def compile(self, rng: Any, input_shape: DataShape) -> None:
+        previous = (self.einsum_str, self.dim_map)
         self.einsum_str, self.dim_map = self._get_einsum_str_and_dim_map(
             input_shape
         )
-        super().compile(rng, input_shape)
+        try:
+            super().compile(rng, input_shape)
+        except Exception:
+            self.einsum_str, self.dim_map = previous
+            raise
 
     # both compile and get_output_shape need to set einsum_str and dim_map
     # before calling super().compile or super().get_output_shape
-- 
2.43.0

