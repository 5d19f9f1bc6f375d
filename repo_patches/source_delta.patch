From ae8f9c945e32b0c480a05327a56f97546548dbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 01/47] fix: product and quotient of tensors sharing a group
 but not its mapping

---
 maxlike/tensor/tensor.py | 57 +++++++---------------------------------
 1 file changed, 9 insertions(+), 48 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index c373ea9..82796a8 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -43,16 +43,6 @@ def arr_swapaxes(arr, q, p, mapping):
     return arr
 
 
-def arr_take_diag(arr, q, p, mapping):
-    for k, f in enumerate(mapping):
-        if f < 0:
-            continue
-        arr = np.diagonal(arr, 0, q + k, p + f)  # np.diagonal
-        arr = arr.swapaxes(-1, p + f - 1)
-        arr = np.expand_dims(arr, k)
-    return arr
-
-
 def arr_expand_diag(arr, q, p, mapping):
     idx = np.ones(arr.ndim, dtype=np.int32)
     for k, f in enumerate(mapping):
@@ -67,20 +57,6 @@ def arr_expand_diag(arr, q, p, mapping):
     return arr
 
 
-def arr_expand_cross_diag(arr, p, map1, map2):
-    idx = np.ones(arr.ndim, dtype=np.int32)
-    for i, j in zip(map1, map2):
-        if i == j:
-            continue
-        n = arr.shape[p + i]
-        idx[p + i] = n
-        idx[p + j] = n
-        arr = arr * np.broadcast_to(np.eye(n), idx)
-        idx[p + i] = 1
-        idx[p + j] = 1
-    return arr
-
-
 def arr_swapaxes_cross(arr, p, map1, map2):
     idx = np.ones(arr.ndim, dtype=np.int32)
     for k, f in enumerate(map2):
@@ -891,31 +867,16 @@ class Tensor(BaseTensor):
         # --------------------------------------------------------------------
         # Multiplication and Division
         # --------------------------------------------------------------------
-        p = self.x_dim + self.y_dim
-
-        if self.x_map:
-            x_map = self.x_map
-            l_values = arr_expand_cross_diag(
-                l_values, p, self.x_map, other.x_map)
-            if not other.x_map and other.x_dim:
-                r_values = arr_take_diag(r_values, 0, other.x_dim + other.y_dim,
-                                         self.x_map)
-        else:
-            x_map = other.x_map
-            if x_map and self.x_dim:
-                l_values = arr_take_diag(l_values, 0, p, other.x_map)
-
-        if self.y_map:
-            y_map = self.y_map
-            l_values = arr_expand_cross_diag(
-                l_values, p, self.y_map, other.y_map)
-            if not other.y_map and other.y_dim:
-                r_values = arr_take_diag(r_values, other.x_dim, other.x_dim + other.y_dim,
-                                         self.y_map)
+        # operands that share a group but not its mapping have no common
+        # sparse representation
+        if (self.x_dim and other.x_dim and self.x_map != other.x_map) or \
+                (self.y_dim and other.y_dim and self.y_map != other.y_map):
+            l_values = self.toarray()
+            r_values = other.toarray()
+            x_map = y_map = None
         else:
-            y_map = other.y_map
-            if self.y_dim:
-                l_values = arr_take_diag(l_values, self.x_dim, p, other.y_map)
+            x_map = self.x_map or other.x_map
+            y_map = self.y_map or other.y_map
 
         return Tensor(
             op_type.value(l_values[l_idx], r_values[r_idx]),
-- 
2.43.0


From 98600ba5131657644a5d1c313fd1d0ddb40aa677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 02/47] fix: adding a scalar tensor to a mapped tensor

---
 maxlike/tensor/tensor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 82796a8..a6375a0 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -810,6 +810,12 @@ class Tensor(BaseTensor):
                 raise InvalidOperation
 
         if self.values.ndim == 0:
+            if self.values != 0 and op_type in [
+                    TensorOp.ADD, TensorOp.SUB, TensorOp.RSUB]:
+                # the scalar also adds to the entries that are off the diagonal
+                return Tensor(
+                    op_type.value(self.values, other.toarray()),
+                    other.x_dim, other.y_dim, other.dim)
             return Tensor(
                 op_type.value(self.values, other.values),
                 other.x_dim, other.y_dim, other.dim, other.x_map, other.y_map)
-- 
2.43.0


From 8a1297d224382425fdbe25edc9dfb55aad345d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 03/47] fix: Tensor.transpose with groups of different number
 of axes

---
 maxlike/tensor/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index a6375a0..4f1777c 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -593,8 +593,8 @@ class Tensor(BaseTensor):
     def transpose(self):
         val = self.values
         if (self.x_dim > 0) & (self.y_dim > 0):
-            for k in range(0, self.x_dim):
-                val = np.moveaxis(val, self.x_dim, k)
+            for k in range(self.y_dim):
+                val = np.moveaxis(val, self.x_dim + k, k)
         return Tensor(val, self.y_dim,  self.x_dim, self.dim,
                       self.y_map, self.x_map)
 
-- 
2.43.0


From afedd8d4d189d2564cfa3f65eb61c3743aa8820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 04/47] fix: Tensor.sum(False, False) keeps the extra
 dimensions

---
 maxlike/tensor/tensor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 4f1777c..3b70c7b 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -462,8 +462,9 @@ class Tensor(BaseTensor):
         p = self.x_dim + self.y_dim
 
         if sum_val is False:
-            if sum_dim is True:
-                val = val.sum(tuple(p + self.n + np.arange(self.dim)))
+            if sum_dim is not True:
+                return self
+            val = val.sum(tuple(p + self.n + np.arange(self.dim)))
             return Tensor(val, self.x_dim, self.y_dim, 0,
                           self.x_map, self.y_map)
 
-- 
2.43.0


From 58052a707e399a6699715bc2a566699e847d1b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 05/47] fix: partial Tensor.sum keeps the mappings of the
 remaining axes

---
 maxlike/tensor/tensor.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 3b70c7b..bcc0d80 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -508,7 +508,14 @@ class Tensor(BaseTensor):
             idx[self.x_dim + f] = slice(None)
             val = val * np.eye(val.shape[k])[tuple(idx)]
 
-        return Tensor(val, self.x_dim, self.y_dim, dim)
+        # mappings to the axes that are kept
+        x_map, y_map = [
+            array('b', [-1 if f < 0 or f in sum_val else
+                        f - sum(g < f for g in sum_val) for f in mapping])
+            if any(f >= 0 and f not in sum_val for f in mapping) else None
+            for mapping in (self.x_map, self.y_map)]
+
+        return Tensor(val, self.x_dim, self.y_dim, dim, x_map, y_map)
 
     def expand(self, where, newsize, dim=False):
         """
-- 
2.43.0


From 0ac1be45f32afc344d797be14cc9d4d63f04eee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 06/47] fix: Tensor.dot_left with a partial mapping

---
 maxlike/tensor/tensor.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index bcc0d80..0a4d36b 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -30,10 +30,21 @@ def set_dtype(s):  # pragma: no cover
 
 
 def compose_mappings(map1, map2):
-    return array('b', [
-        -1 if f < 0 else map1[f]
+    res = array('b', [
+        -1 if f < 0 or not map1 else map1[f]
         for k, f in enumerate(map2)
     ])
+    return res if any(f >= 0 for f in res) else array('b')
+
+
+def unmapped_mappings(map1, map2):
+    """
+    Part of map2 that can't be composed with map1
+    """
+    return array('b', [
+        -1 if f < 0 or (map1 and map1[f] >= 0) else f
+        for f in map2
+    ])
 
 
 def arr_swapaxes(arr, q, p, mapping):
@@ -684,11 +695,10 @@ class Tensor(BaseTensor):
         val = arr_swapaxes(val, 0, p, self.x_map)
         val = np.multiply(other.values[tuple(l_idx)], val[tuple(r_idx)])
         val = arr_swapaxes(val, other.x_dim, other.x_dim + p, self.x_map)
-        if self.x_map:
-            x_map = compose_mappings(self.x_map, other.x_map)
-        else:
-            x_map = array('b')
-            val = arr_swapaxes(val, 0, other.x_dim, other.x_map)
+        val = arr_swapaxes(val, 0, other.x_dim,
+                           unmapped_mappings(self.x_map, other.x_map))
+
+        x_map = compose_mappings(self.x_map, other.x_map)
 
         val = val.sum(tuple(other.x_dim + np.arange(other.n)))
         return Tensor(val, x_dim=other.x_dim, y_dim=self.y_dim, dim=dim,
-- 
2.43.0


From 87b3ececb6d5153a675e101a8f5fedd21fa03eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 07/47] fix: Tensor.dot_right without a full mapping

---
 maxlike/tensor/tensor.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 0a4d36b..8a1b5e7 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -68,20 +68,22 @@ def arr_expand_diag(arr, q, p, mapping):
     return arr
 
 
-def arr_swapaxes_cross(arr, p, map1, map2):
-    idx = np.ones(arr.ndim, dtype=np.int32)
+def arr_swapaxes_cross(arr, q, p, map1, map2):
+    """
+    Same as arr_swapaxes(arr, q, p, map2), after arr_swapaxes(arr, 0, p, map1)
+    """
     for k, f in enumerate(map2):
-        for l, g in enumerate(map1):
-            if g == f:
-                n = arr.shape[k]
-                idx[l] = n
-                idx[p + k] = n
-                arr = arr * np.broadcast_to(np.eye(n), idx)
-                idx[l] = 1
-                idx[p + k] = 1
-                break
+        if f < 0:
+            continue
+        if f in map1:
+            l = map1.index(f)
+            n = arr.shape[l]
+            idx = np.ones(arr.ndim, dtype=np.int32)
+            idx[l] = n
+            idx[q + k] = n
+            arr = arr * np.eye(n).reshape(idx)
         else:
-            arr = arr.swapaxes(p + k, p + f)
+            arr = arr.swapaxes(q + k, p + f)
     return arr
 
 
@@ -745,10 +747,10 @@ class Tensor(BaseTensor):
         val = arr_swapaxes(val, 0, self.x_dim, self.x_map)
         val = other.values[tuple(l_idx)] * val[tuple(r_idx)]
         val = arr_swapaxes(val, p, p + self.x_dim, self.x_map)
-        if not self.x_map:
-            val = arr_swapaxes(val, 0, p, other.x_map)
-            val = arr_swapaxes_cross(val, other.x_dim,                      # NOT COVERED
-                                     other.x_map, other.y_map)
+        x_rest = unmapped_mappings(self.x_map, other.x_map)
+        y_rest = unmapped_mappings(self.x_map, other.y_map)
+        val = arr_swapaxes(val, 0, p, x_rest)
+        val = arr_swapaxes_cross(val, other.x_dim, p, x_rest, y_rest)
 
         x_map = compose_mappings(self.x_map, other.x_map)
         y_map = compose_mappings(self.x_map, other.y_map)
-- 
2.43.0


From d08691f328f09e091a03928ee09ed63cd7d3e22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 08/47] fix: elements of a GenericTensor are stored with all of
 its groups

---
 maxlike/tensor/tensor.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 8a1b5e7..04e6ade 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -213,7 +213,22 @@ class GenericTensor(BaseTensor):
         if elements is None:
             elements = ()
 
-        object.__setattr__(self, 'elements', tuple(elements))
+        object.__setattr__(self, 'elements', tuple(
+            self.__fill_groups(el) for el in elements))
+
+    def __fill_groups(self, el):
+        if not isinstance(el, Tensor):
+            el = Tensor(el)
+        shape = ()
+        k = 0
+        for el_dim, dim in ((el.x_dim, self.x_dim), (el.y_dim, self.y_dim),
+                            (el.n, self.n), (el.dim, self.dim)):
+            assert el_dim in (0, dim)
+            shape += el.values.shape[k:k + el_dim] or (1, ) * dim
+            k += el_dim
+        return Tensor(el.values.reshape(shape),
+                      x_dim=self.x_dim, y_dim=self.y_dim, dim=self.dim,
+                      x_map=el.x_map, y_map=el.y_map)
 
     def toarray(self):
         return sum([el.toarray() if isinstance(el, Tensor) else el
-- 
2.43.0


From 9b3077e78a2ef48f3d726cfe768d4d4267131f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 09/47] fix: partial GenericTensor.sum

---
 maxlike/tensor/tensor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 04e6ade..6fa35f6 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -251,6 +251,7 @@ class GenericTensor(BaseTensor):
             else:
                 raise ValueError
 
+            sum_val = list(idx)
             if len(idx) == self.n:
                 sum_val = True
 
@@ -281,9 +282,12 @@ class GenericTensor(BaseTensor):
             return Tensor(values, x_dim=self.x_dim, y_dim=self.y_dim, dim=dim)
 
         # else:
-        new_elements = [el.sum(False, sum_dim) * (size / el_size)
+        new_elements = [el.sum(sum_val, sum_dim) * (size / el_size)
                         for el, el_size in zip(self.elements, el_sizes)]
-        return GenericTensor(self.x_dim, self.y_dim, self.n, 0, new_elements)
+        return GenericTensor(
+            self.x_dim, self.y_dim,
+            self.n if sum_val is False else self.n - len(sum_val),
+            0 if sum_dim is True else self.dim, new_elements)
 
     def expand(self, where, newsize, dim=False):
         new_n = self.n if dim else newsize
-- 
2.43.0


From b613f779aa110a2a2b48f2dc36656faa175e4635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 10/47] fix: derivatives of Linear have the shape of the value
 of the function

---
 maxlike/func/func.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index 0848e93..bb18c64 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -18,12 +18,12 @@ class Linear(Func):
 
     def grad(self, params, i):
         return grad_tensor(self.weights[i] * np.ones((1, ) *
-                           np.asarray(params[i]).ndim), params, i, True)
+                           np.asarray(params[i]).ndim), params, i, True).sum()
 
     def hess(self, params, i, j):
         return hess_tensor(np.zeros((1, ) *
             (np.asarray(params[j]).ndim + np.asarray(params[i]).ndim)),
-            params, i, j, True, True)
+            params, i, j)
 
 
 class Quadratic(Func):  # TODO : expand this class to allow more generic stuff
-- 
2.43.0


From a4a193891a3814c35ebed6533eb4435be1b84002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 11/47] fix: Log.grad of a Param

---
 maxlike/func/func.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index bb18c64..dc7b4c5 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -125,7 +125,7 @@ class Log(Func):
         return Tensor(np.log(params[0]))
 
     def grad(self, params, i):
-        f = Tensor(1 / params[0])
+        f = Tensor(np.divide(1, params[0]))
         return grad_tensor(f, params, i, True, dim=f.dim)
 
     def hess(self, params, i, j):
-- 
2.43.0


From 9ca91e606a5627eb3af676ebb4970d2f7c5e74b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 12/47] fix: ArcTan derivatives of a Param and of a Tensor with
 dim

---
 maxlike/func/sigmoid.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/maxlike/func/sigmoid.py b/maxlike/func/sigmoid.py
index c295680..d7c7449 100644
--- a/maxlike/func/sigmoid.py
+++ b/maxlike/func/sigmoid.py
@@ -42,10 +42,12 @@ class ArcTan(Func):
         return Tensor(np.arctan(x))
 
     def grad(self, params, i):
-        x = params[0]
-        return grad_tensor(1 / (1 + x * x), params, i, True)
+        x = np.asarray(params[0])
+        return grad_tensor(1 / (1 + x * x), params, i, True,
+                           dim=getattr(params[0], 'dim', 0))
 
     def hess(self, params, i, j):
-        x = params[0]
+        x = np.asarray(params[0])
         return hess_tensor(-2 * x / (1 + x * x) ** 2,
-                           params, i, j, True, True)
+                           params, i, j, True, True,
+                           dim=getattr(params[0], 'dim', 0))
-- 
2.43.0


From da3db4b8eca4bf1743797cadbdf6ffa04f6f2df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 13/47] fix: Logistic derivatives of a Tensor with dim

---
 maxlike/func/sigmoid.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/maxlike/func/sigmoid.py b/maxlike/func/sigmoid.py
index d7c7449..96ffcd3 100644
--- a/maxlike/func/sigmoid.py
+++ b/maxlike/func/sigmoid.py
@@ -20,19 +20,22 @@ class Logistic(Func):
 
     def grad(self, params, i):
         f = expit(params[0])
-        return grad_tensor(f * (1 - f), params, i, True)
+        return grad_tensor(f * (1 - f), params, i, True,
+                           dim=getattr(f, 'dim', 0))
 
     def hess(self, params, i, j):
         f = expit(params[0])
         return hess_tensor(f * (1 - f) * (1 - 2 * f),
-                           params, i, j, True, True)
+                           params, i, j, True, True,
+                           dim=getattr(f, 'dim', 0))
 
     def eval(self, params):
         f = expit(params[0])
+        dim = getattr(f, 'dim', 0)
         return Tensor(f), \
-               [grad_tensor(f * (1 - f), params, 0, True)], \
+               [grad_tensor(f * (1 - f), params, 0, True, dim=dim)], \
                [[hess_tensor(f * (1 - f) * (1 - 2 * f),
-                             params, 0, 0, True, True)]]
+                             params, 0, 0, True, True, dim=dim)]]
 
 
 class ArcTan(Func):
-- 
2.43.0


From 43bc40e2c5a4975dcb447d7fc1adc8a511f16b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 14/47] fix: dot_left of a null Tensor

---
 maxlike/tensor/tensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 6fa35f6..9b143ec 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -694,6 +694,10 @@ class Tensor(BaseTensor):
         - N Y M E
           *
         """
+        if isinstance(other, Tensor) and other.values.ndim == 0:
+            if other.values == 0:
+                return Tensor(0)
+
         dim = max(self.dim, other.dim)
 
         if (self.x_dim != other.n) & (self.y_dim == other.n):
-- 
2.43.0


From 6171a8241c614b2ee458829f496fa3773155469a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 15/47] fix: Sum.eval includes the constant of the affine terms

---
 maxlike/func/func_op.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 3414967..03f7975 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -217,7 +217,7 @@ class Sum(Func):
                 grad[i] += w * atom_grad[i]
                 for j in range(i + 1):
                     hess[i][j] += w * atom_hess[i][j]
-        return val, grad, hess
+        return val + self.b, grad, hess
 
 
 class Product(Func):
-- 
2.43.0


From 796a71fbc361a8bb024ca6b44979a9d35cc4527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 16/47] fix: Sum.add weights the constant of the affine terms

---
 maxlike/func/func_op.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 03f7975..f95a620 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -177,10 +177,10 @@ class Sum(Func):
             dim_map = [dim_map]
 
         if isinstance(foo, Affine):
-            self.b += foo.b
+            self.b += weight * foo.b
             self.add(foo.base, param_map, feat_map, dim_map, weight * foo.a)
         elif isinstance(foo, Sum):
-            self.b += foo.b
+            self.b += weight * foo.b
             for w, atom in foo.atoms:
                 self.add(
                     atom.foo,
-- 
2.43.0


From 4c80b97f62489feb30f5670ac51d986db0f4145b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 17/47] fix: FuncWrap with a param_map that isn't increasing

---
 maxlike/func/func_op.py | 54 +++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 34 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index f95a620..5ed674b 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -52,10 +52,8 @@ class FuncWrap(Func):
                 grad = []
                 hess = [[Tensor(0)] * (i + 1) for i in range(n)]
                 for i in range(n):
-                    try:
-                        grad.append(obj._expand(foo_grad[obj.param_map.index(i)]))
-                    except ValueError:
-                        grad.append(Tensor(0))
+                    grad.append(sum((obj._expand(foo_grad[k])
+                                     for k in obj._find(i)), Tensor(0)))
                 return val, grad, hess
 
             self.hess = null_method(self)
@@ -68,45 +66,33 @@ class FuncWrap(Func):
     def __call__(self, params):
         return self._expand(self.foo(self.param_map(params)))
 
+    def _find(self, i):
+        # positions of a parameter in the param_map
+        return [k for k, p in enumerate(self.param_map) if p == i]
+
     def grad(self, params, i):
-        try:
-            return self._expand(
-                self.foo.grad(self.param_map(params),
-                              self.param_map.index(i)))
-        except ValueError:
-            return Tensor(0)
+        params = self.param_map(params)
+        return sum((self._expand(self.foo.grad(params, k))
+                    for k in self._find(i)), Tensor(0))
 
     def hess(self, params, i, j):
-        try:
-            return self._expand(
-                self.foo.hess(self.param_map(params),
-                              self.param_map.index(i),
-                              self.param_map.index(j)))
-        except ValueError:
-            return Tensor(0)
+        params = self.param_map(params)
+        return sum((self._expand(
+            self.foo.hess(params, k, l) if k >= l else
+            self.foo.hess(params, l, k).transpose())
+            for k in self._find(i) for l in self._find(j)), Tensor(0))
 
     def eval(self, params):
         foo_val, foo_grad, foo_hess = self.foo.eval(self.param_map(params))
         val = self._expand(foo_val)
         grad, hess = [], []
-        idx_list = []
         for i in range(len(params)):
-            try:
-                idx = self.param_map.index(i)
-                grad.append(self._expand(foo_grad[idx]))
-                hess_line = []
-                for j in range(i):
-                    jdx = idx_list[j]
-                    hess_line.append(
-                        Tensor(0) if jdx is None else
-                        self._expand(foo_hess[idx][jdx]))
-                hess_line.append(self._expand(foo_hess[idx][idx]))  # for diag
-                hess.append(hess_line)
-            except ValueError:
-                idx = None
-                grad.append(Tensor(0))
-                hess.append([Tensor(0)] * (i + 1))
-            idx_list.append(idx)
+            grad.append(sum((self._expand(foo_grad[k])
+                             for k in self._find(i)), Tensor(0)))
+            hess.append([sum((self._expand(
+                foo_hess[k][l] if k >= l else foo_hess[l][k].transpose())
+                for k in self._find(i) for l in self._find(j)), Tensor(0))
+                for j in range(i + 1)])
         return val, grad, hess
 
 
-- 
2.43.0


From 145fce39e9a3ee53e3e4f27441f7eb6248adf272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 18/47] fix: null derivatives accept the same arguments as the
 others

---
 maxlike/func/func_base.py | 12 ++++++------
 maxlike/func/func_op.py   |  7 ++++---
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index d32dcd1..a25dd9e 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -9,8 +9,8 @@ from ..tensor import Tensor
 def null_func(obj, *args, **kwargs):
     return Tensor(0)
 
-def null_method(obj):
-    return MethodType(null_func, obj)
+def null_method(obj, wrap):
+    return MethodType(wrap(null_func), obj)
 
 def isnull(foo):
     return getattr(foo, 'null', False)
@@ -208,10 +208,10 @@ class Affine(Func):
     def __init__(self, base, a=1, b=0):
 
         if isnull(base.grad):
-            self.grad = null_method(self)
+            self.grad = null_method(self, vector_wrap)
 
         if isnull(base.hess):
-            self.hess = null_method(self)
+            self.hess = null_method(self, matrix_wrap)
 
         if isinstance(base, Affine):
             self.base = base.base
@@ -255,8 +255,8 @@ class Compose(Func):
         self.f = f
 
         if isnull(f.grad):
-            self.grad = null_method(self)
-            self.hess = null_method(self)
+            self.grad = null_method(self, vector_wrap)
+            self.hess = null_method(self, matrix_wrap)
 
         elif isnull(f.hess):
             def hess(obj, params, i, j):
diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 5ed674b..458a501 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -1,5 +1,6 @@
 from ..tensor import Tensor
-from .func_base import Func, Affine, null_method, isnull
+from .func_base import Func, Affine, null_method, isnull, \
+    vector_wrap, matrix_wrap
 from six.moves import reduce
 from types import MethodType
 
@@ -42,7 +43,7 @@ class FuncWrap(Func):
             self.dim_map = IndexMap(dim_map)
 
         if isnull(foo.grad):
-            self.grad = null_method(self)
+            self.grad = null_method(self, vector_wrap)
 
         if isnull(foo.hess):
             def eval(obj, params):
@@ -56,7 +57,7 @@ class FuncWrap(Func):
                                      for k in obj._find(i)), Tensor(0)))
                 return val, grad, hess
 
-            self.hess = null_method(self)
+            self.hess = null_method(self, matrix_wrap)
             self.eval = MethodType(eval, self)
 
     def _expand(self, x):
-- 
2.43.0


From 541d94b0fd3e9aef34acf4f73bf080c7ad3ed9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 19/47] fix: eval of a single param

---
 maxlike/func/func_base.py | 2 +-
 maxlike/func/func_op.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index a25dd9e..dca9447 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -280,7 +280,7 @@ class Compose(Func):
                 return val, grad, hess
             
             self.hess = MethodType(matrix_wrap(hess), self)
-            self.eval = MethodType(eval, self)
+            self.eval = MethodType(eval_wrap(eval), self)
 
     def __call__(self, params):
         g_val = [g(params) for g in self.g_list]
diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index 458a501..d07c938 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -1,6 +1,6 @@
 from ..tensor import Tensor
 from .func_base import Func, Affine, null_method, isnull, \
-    vector_wrap, matrix_wrap
+    vector_wrap, matrix_wrap, eval_wrap
 from six.moves import reduce
 from types import MethodType
 
@@ -58,7 +58,7 @@ class FuncWrap(Func):
                 return val, grad, hess
 
             self.hess = null_method(self, matrix_wrap)
-            self.eval = MethodType(eval, self)
+            self.eval = MethodType(eval_wrap(eval), self)
 
     def _expand(self, x):
         return x.expand(self.feat_map, self.n_feat).flip(self.feat_flip).\
-- 
2.43.0


From 2b58bdff4d5b9d148160ce42c03c938b1913331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 20/47] fix: CollapseMatrix ignored its conditions

---
 maxlike/func/matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index 253365a..0ebde77 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -14,11 +14,12 @@ class CollapseMatrix(Func):
         sgn(A*x + B*y + C) == s
         """
         if conditions is None:
-            self.conditions = [
+            conditions = [
                 (1, -1, 0, 1),
                 (1, -1, 0, 0),
                 (1, -1, 0, -1),
             ]
+        self.conditions = conditions
 
     def __call__(self, params):
         """
-- 
2.43.0


From 941b1786b7e8956b683814c54b7a3b8226a44439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 21/47] fix: Markov functions of a Param

---
 maxlike/func/matrix.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index 0ebde77..3a47b9c 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -67,8 +67,8 @@ class MarkovMatrix(Func):
         self.skew = skew
 
     def __call__(self, params):
-        s1 = np.asarray(params[0] / self.steps)
-        s2 = np.asarray(params[1] / self.steps)
+        s1 = np.asarray(params[0]) / self.steps
+        s2 = np.asarray(params[1]) / self.steps
         assert s1.shape == s2.shape
         assert np.all(s1 > 0)
         assert np.all(s2 > 0)
@@ -100,8 +100,8 @@ class MarkovMatrix(Func):
         return self.eval(params)[2][i][j]
 
     def eval(self, params):
-        s1 = np.asarray(params[0] / self.steps)
-        s2 = np.asarray(params[1] / self.steps)
+        s1 = np.asarray(params[0]) / self.steps
+        s2 = np.asarray(params[1]) / self.steps
         assert s1.shape == s2.shape
         assert np.all(s1 > 0)
         assert np.all(s2 > 0)
@@ -181,8 +181,8 @@ class MarkovVector(Func):
         self.skew = skew
 
     def __call__(self, params):
-        s1 = np.asarray(params[0] / self.steps)
-        s2 = np.asarray(params[1] / self.steps)
+        s1 = np.asarray(params[0]) / self.steps
+        s2 = np.asarray(params[1]) / self.steps
         assert s1.shape == s2.shape
         assert np.all(s1 > 0)
         assert np.all(s2 > 0)
@@ -211,8 +211,8 @@ class MarkovVector(Func):
         return self.eval(params)[2][i][j]
 
     def eval(self, params):
-        s1 = np.asarray(params[0] / self.steps)
-        s2 = np.asarray(params[1] / self.steps)
+        s1 = np.asarray(params[0]) / self.steps
+        s2 = np.asarray(params[1]) / self.steps
         assert s1.shape == s2.shape
         assert np.all(s1 > 0)
         assert np.all(s2 > 0)
-- 
2.43.0


From 9075dca0d43ed237ac72d880a36417001ef2c5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 22/47] fix: Set derivatives of a Param

---
 maxlike/func/tennis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/func/tennis.py b/maxlike/func/tennis.py
index b7175ad..31bdbbc 100644
--- a/maxlike/func/tennis.py
+++ b/maxlike/func/tennis.py
@@ -118,7 +118,7 @@ class Set(Func):
         return Tensor(np.stack(s).swapaxes(0, -1), dim=1)
     
     def grad(self, params, i):
-        p, t = params
+        p, t = map(np.asarray, params)
         q = 1 - p
 
         d = []
@@ -141,7 +141,7 @@ class Set(Func):
                            params, i, True, dim=1)
     
     def hess(self, params, i, j):
-        p, t = params
+        p, t = map(np.asarray, params)
         q = 1 - p
 
         h = []
-- 
2.43.0


From b08f8fb21d7c857e7a4415d05d96eaad3f62cbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 23/47] fix: division of a Func by a scalar

---
 maxlike/func/func_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/func/func_base.py b/maxlike/func/func_base.py
index dca9447..25b3ae2 100644
--- a/maxlike/func/func_base.py
+++ b/maxlike/func/func_base.py
@@ -193,7 +193,7 @@ class Func(with_metaclass(FuncMeta, object)):
     def __rmul__(self, a):
         return Affine(self, a, 0)
 
-    def __div__(self, a):
+    def __truediv__(self, a):
         return Affine(self, 1.0 / a, 0)
 
     def __matmul__(self, other):
-- 
2.43.0


From 3831dd2490d1a30cda0db05dd11306b9779eb6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 24/47] fix: poisson_cdf_root raises its errors instead of
 returning them

---
 maxlike/skellam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 83fc31c..4d1c53e 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -72,7 +72,7 @@ def poisson_cdf_root(target, n=2, tol=1e-8):
     """
     # if not (isinstance(target, float) and target < 1 or target > 0):
     if target >= 1 or target <= 0:
-        return ValueError
+        raise ValueError
     phi = ndtri(target)
     min_a = 1e-3
     a = max(((phi * phi + 4 * n + 2) ** .5 - phi) ** 2 / 4, min_a)
@@ -98,7 +98,7 @@ def poisson_cdf_root(target, n=2, tol=1e-8):
                 scale_factor *= .5
         count += 1
         if count > max_steps:
-            return ConvergenceError
+            raise ConvergenceError("poisson_cdf_root")
     return a
 
 
-- 
2.43.0


From 2dd24514fef04cfc78515e85c8f397af0a82f01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 25/47] fix: conditional_skellam_cdf_root gives up after
 max_steps

---
 maxlike/skellam.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 4d1c53e..7eb8563 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -156,7 +156,7 @@ def skellam_cdf_root(target1, target2, n=0, tol=1e-8):
                 new_e = np.linalg.norm(new_s - target)
         count += 1
         if count > max_steps:
-            raise ConvergenceError
+            raise ConvergenceError("skellam_cdf_root")
     return a, b
 
 
@@ -203,6 +203,7 @@ def conditional_skellam_cdf_root(b, target, tol=1e-8):
                 frame = Poi_a[:, None] * Poi_b[None, :]
                 new_s = frame[xy < 0].sum() + 0.5 * frame[xy == 0].sum()
                 new_e = abs(target - new_s)
+        count += 1
         if count > max_steps:
-            raise ConvergenceError
+            raise ConvergenceError("conditional_skellam_cdf_root")
     return a
-- 
2.43.0


From 04d8674ed6fecc9a3097c975b76a954832f11d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 26/47] fix: copulas of integer marginals

---
 maxlike/func/copula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/func/copula.py b/maxlike/func/copula.py
index cb67977..752b048 100644
--- a/maxlike/func/copula.py
+++ b/maxlike/func/copula.py
@@ -34,8 +34,8 @@ def copulaWrap(C):
     def wrap(obj, params, *args, **kwargs):
         x = np.asarray(params[0]).cumsum(-1)
         y = np.asarray(params[1]).cumsum(-1)
-        x /= x[..., -1][..., None]
-        y /= y[..., -1][..., None]
+        x = x / x[..., -1][..., None]
+        y = y / y[..., -1][..., None]
         # exclude last element
         F_xy = C(obj, x[..., None], y[..., None, :], *args, **kwargs)
         F_xy = np.insert(F_xy, 0, 0, -1)
-- 
2.43.0


From 490eb4195ea5d9612b0b20a81ba3a668963b17c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 27/47] fix: std_error without constraints

---
 maxlike/maxlike_base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 75c53bc..114205d 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -310,12 +310,10 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         """
         Standard Deviation Array.
         """
-        cut = len(self.constraint)
-        if cut == 0:
-            cut = None
+        cut = sum(p.count() for p in self.params)
         return [p.as_masked() for p in
             self._reshape_array(np.sqrt(np.diag(-np.linalg.inv(
-            self.flat_hess_))[:-cut]))
+            self.flat_hess_))[:cut]))
         ]
 
     def flat_grad(self, params, *args, **kwargs):
-- 
2.43.0


From 80bfa733407b0c4b7fd1fbd70d4232dbf259fa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 28/47] fix: verbose Broyden

---
 maxlike/maxlike_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 114205d..bb20e38 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -534,7 +534,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                     g = self.g(params)
 
                     if verbose > 0:
-                        print(k + 1, new_g)
+                        print(k + 1, g)
 
                     if abs(prev_g / g - 1) < tol:
                         self.params = params
-- 
2.43.0


From 130a2f46537503a7e53f7881ffd3b40eca226ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 29/47] fix: a successful Newton fit is flagged as converged

---
 maxlike/maxlike_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index bb20e38..3e69346 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -501,6 +501,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                 if abs(prev_g / g - 1) < tol:
                     self.params = params
                     self.flat_hess_ = hess
+                    self.converged = True
                     return True
 
         elif method == "broyden":
-- 
2.43.0


From 5c533960180c0a8f125b1a55b5c8835cdc2dd659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 30/47] fix: params and masks given as lists

---
 maxlike/maxlike_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 3e69346..71abb19 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -18,9 +18,11 @@ class Param(object):
 
     def __init__(self, values, mask=None):
         
+        values = np.asarray(values)
         if mask is None or mask is False:
-            mask = np.zeros_like(values, dtype=np.bool)
+            mask = np.zeros_like(values, dtype=bool)
         else:
+            mask = np.asarray(mask, dtype=bool)
             assert mask.shape == values.shape
 
         object.__setattr__(self, 'values', np.asarray(values))
-- 
2.43.0


From ac47cb2b5c002725cb75d884bd8d7dcdfd112604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 31/47] fix: fit of params with an integer initial guess

---
 maxlike/maxlike_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 71abb19..58f532c 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -353,7 +353,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
 
         # Add blocks corresponding to constraint variables:
         # Hess_lambda_params = grad_g
-        hess_c = [[np.zeros_like(p) for p in params] for _ in range(c_len)]
+        hess_c = [[np.zeros(p.shape) for p in params] for _ in range(c_len)]
 
         # --------------------------------------------------------------------
         # 2nd phase: Add constraints / regularization to grad and hess
@@ -532,7 +532,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                     grad_prev = grad
 
                     step = -np.dot(J, grad)
-                    flat_params += step[:i1]
+                    flat_params = flat_params + step[:i1]
                     params = self._reshape_params(flat_params)
                     g = self.g(params)
 
-- 
2.43.0


From a99bd41a4211ba11c61e85a890a6c40de4de79c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 32/47] fix: constraints and regularizations with a param_map
 that isn't increasing

---
 maxlike/maxlike_base.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 58f532c..deea419 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -342,6 +342,22 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
 
         return grad
 
+    @staticmethod
+    def _add_hess(hess, param_map, hess_f, weight):
+        """
+        Adds to the blocks of hess the hessian of a function of the params
+        in param_map, that can be in any order and repeated.
+        """
+        for i, idx in enumerate(param_map):
+            for j in range(i + 1):
+                jdx, h = param_map[j], weight * hess_f[i][j]
+                if idx < jdx:
+                    hess[jdx][idx] += h.transpose()
+                else:
+                    hess[idx][jdx] += h
+                    if idx == jdx and i != j:
+                        hess[idx][jdx] += h.transpose()
+
     def flat_hess(self, params, *args, **kwargs):
         n = len(params)
         c_len = len(self.constraint)
@@ -364,15 +380,11 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
             hess_g = g.hess(args)
             for i, idx in enumerate(param_map):
                 hess_c[k][idx] += grad_g[i].sum().values
-                for j in range(i + 1):
-                    hess[idx][param_map[j]] += gamma * hess_g[i][j]
+            self._add_hess(hess, param_map, hess_g, gamma)
 
         for param_map, h in self.reg:
             args = [params[k] for k in param_map]
-            hess_h = h.hess(args)
-            for i, idx in enumerate(param_map):
-                for j in range(i + 1):
-                    hess[idx][param_map[j]] -= hess_h[i][j]
+            self._add_hess(hess, param_map, h.hess(args), -1)
 
         # --------------------------------------------------------------------
         # 3rd phase: Reshape and flatten
-- 
2.43.0


From 6e87c692b196b08ca7b4eb1c20ab655717e4860b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 33/47] fix: params that the model does not depend on

---
 maxlike/maxlike_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index deea419..73bc0d5 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -337,7 +337,8 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
             for i, idx in enumerate(param_map):
                 grad[idx] -= grad_h[i]
 
-        grad = [d.values[~p.mask] for d, p in zip(grad, params)] + grad[n:]
+        grad = [np.broadcast_to(d.values, p.shape)[~p.mask]
+                for d, p in zip(grad, params)] + grad[n:]
         grad = np.concatenate(grad)
 
         return grad
@@ -400,7 +401,8 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         #
         # then hess[i][j].shape = shape[j] x shape[i]
 
-        hess = [[hess[i][j].values[
+        hess = [[np.broadcast_to(
+                     hess[i][j].values, p_i.shape + params[j].shape)[
                      np.multiply.outer(~p_i.mask, ~params[j].mask)].
                      reshape((p_i.count(), params[j].count()))
                  for j in range(i + 1)]
-- 
2.43.0


From 4f1b3eba6e06826d7f6663c9d9875fcfafa36dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 34/47] fix: Linear gradient of an array parameter has the size
 of the parameter

---
 maxlike/func/func.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index dc7b4c5..d407862 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -17,8 +17,8 @@ class Linear(Func):
                     for w, p in zip(params, self.weights)))
 
     def grad(self, params, i):
-        return grad_tensor(self.weights[i] * np.ones((1, ) *
-                           np.asarray(params[i]).ndim), params, i, True).sum()
+        return grad_tensor(self.weights[i] * np.ones(
+            np.asarray(params[i]).shape), params, i, True).sum()
 
     def hess(self, params, i, j):
         return hess_tensor(np.zeros((1, ) *
-- 
2.43.0


From 67e22e1fe21befc2b6a5f5d18699db442e8dc22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 35/47] fix: Collapse of derivatives broadcasted along the
 summed axes

---
 maxlike/func/func_op.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/maxlike/func/func_op.py b/maxlike/func/func_op.py
index d07c938..4726ec8 100644
--- a/maxlike/func/func_op.py
+++ b/maxlike/func/func_op.py
@@ -1,3 +1,4 @@
+import numpy as np
 from ..tensor import Tensor
 from .func_base import Func, Affine, null_method, isnull, \
     vector_wrap, matrix_wrap, eval_wrap
@@ -104,26 +105,28 @@ class Collapse(Func):
         self.sum_val = sum_val
         self.sum_dim = sum_dim
 
+    def _collapse(self, x, val):
+        # derivatives may be broadcasted along the axes that are summed
+        x = x * Tensor(np.ones(val.values.shape), dim=val.dim)
+        return x.sum(sum_val=self.sum_val,
+                     sum_dim=self.sum_dim)
+
     def __call__(self, params):
         return self.foo(params).\
             sum(sum_val=self.sum_val,
                 sum_dim=self.sum_dim)
 
     def grad(self, params, i):
-        return self.foo.grad(params, i).\
-            sum(sum_val=self.sum_val,
-                sum_dim=self.sum_dim)
+        return self._collapse(self.foo.grad(params, i), self.foo(params))
 
     def hess(self, params, i, j):
-        return self.foo.hess(params, i, j).\
-            sum(sum_val=self.sum_val,
-                sum_dim=self.sum_dim)
+        return self._collapse(self.foo.hess(params, i, j), self.foo(params))
 
     def eval(self, params):
         val, grad, hess = self.foo.eval(params)
         return val.sum(self.sum_val, self.sum_dim), \
-               [d.sum(self.sum_val, self.sum_dim) for d in grad], \
-               [[h.sum(self.sum_val, self.sum_dim)
+               [self._collapse(d, val) for d in grad], \
+               [[self._collapse(h, val)
                  for h in h_line] for h_line in hess]
 
 
-- 
2.43.0


From 10775e69022fb5b851527a12bc785608a0461e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 36/47] fix: value scaled by zero keeps its axes

---
 maxlike/tensor/tensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 9b143ec..cd8e319 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -828,7 +828,9 @@ class Tensor(BaseTensor):
                 elif op_type in [TensorOp.RSUB]:
                     return -self
                 elif op_type in [TensorOp.MUL, TensorOp.RDIV]:
-                    return Tensor(0)
+                    # the null derivative has no axes, but a value keeps them
+                    if self.x_dim > 0 or self.y_dim > 0:
+                        return Tensor(0)
                 elif op_type == TensorOp.DIV:
                     raise ZeroDivisionError
                 else:
-- 
2.43.0


From 15ef56010f6265dabd937f403a0cb4682fc32d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 37/47] fix: contractions of a null derivative

---
 maxlike/tensor/tensor.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index cd8e319..762699b 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -698,6 +698,9 @@ class Tensor(BaseTensor):
             if other.values == 0:
                 return Tensor(0)
 
+        if self.values.ndim == 0 and self.values == 0:
+            return self
+
         dim = max(self.dim, other.dim)
 
         if (self.x_dim != other.n) & (self.y_dim == other.n):
@@ -748,6 +751,9 @@ class Tensor(BaseTensor):
         except:
             pass
 
+        if self.values.ndim == 0 and self.values == 0:
+            return self
+
         dim = max(self.dim, other.dim)
 
         assert self.y_dim == 0
-- 
2.43.0


From 289eb06cdd2a2960fee7c80a613c5b804c0c3a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:17 +0000
Subject: [PATCH 38/47] fix: flip of a null derivative

---
 maxlike/tensor/tensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 762699b..858f833 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -600,6 +600,9 @@ class Tensor(BaseTensor):
         if where is None or where == []:
             return self
 
+        if self.values.ndim == 0 and self.values == 0:
+            return self
+
         if isinstance(where, int):
             where = [where]
 
-- 
2.43.0


From 8b180bee8878df6ca04313a384ee5e366871eeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 39/47] fix: gradient of X keeps the extra axes of its argument

---
 maxlike/func/func.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index d407862..09bd553 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -57,7 +57,8 @@ class X(Func):
         return Tensor(params[0])
 
     def grad(self, params, i):
-        return grad_tensor(np.ones_like(params[0]), params, i, True)
+        f = Tensor(np.ones_like(params[0]), dim=Tensor(params[0]).dim)
+        return grad_tensor(f, params, i, True, dim=f.dim)
 
     hess = null_func
 
-- 
2.43.0


From 3c4ad0e05c4100d68cc7a35dbb05e57825f119b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:04 +0000
Subject: [PATCH 40/47] fix: cross derivative of MarkovMatrix with an
 asymmetric skew

---
 maxlike/func/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/func/matrix.py b/maxlike/func/matrix.py
index 3a47b9c..06d002f 100644
--- a/maxlike/func/matrix.py
+++ b/maxlike/func/matrix.py
@@ -138,7 +138,7 @@ class MarkovMatrix(Func):
 
                     H12[..., x_, y] += s1 * f1 * hm12 + f1 * dm2
                     H12[..., x, y_] += s2 * f2 * hm12 + f2 * dm1
-                    H12[..., x, y]  -= f1 * dm1 + f2 * dm2 + (s1 * f1 + s2 * f2) * hm12
+                    H12[..., x, y]  -= f1 * dm2 + f2 * dm1 + (s1 * f1 + s2 * f2) * hm12
 
                     H22[..., x_, y] += s1 * f1 * hm22
                     H22[..., x, y_] += s2 * f2 * hm22 + 2 * f2 * dm2
-- 
2.43.0


From 707fdf4e520ce2b28ae301c8330d413ffda0bdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:26 +0000
Subject: [PATCH 41/47] fix: array filler of the fixed rows of a matrix over
 the parameters

---
 maxlike/maxlike_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 73bc0d5..9f15321 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -288,7 +288,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
         else:
             return [[np.insert(np.insert(
                 matrix[s_[i]:s_[i + 1], s_[j]:s_[j + 1]],
-                val_map[i], val[f_[i]:f_[i + 1]], 0),
+                val_map[i], val[f_[i]:f_[i + 1], np.newaxis], 0),
                 val_map[j], val[f_[j]:f_[j + 1]], 1).reshape(
                 p_i.shape + p_j.shape)
                 for j, p_j in enumerate(self.params)]
-- 
2.43.0


From 0691874b4bd31870e6055a3a3bb2e4e02c6c74f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:17 +0000
Subject: [PATCH 42/47] fix: a fit that ends with any error flags no
 convergence

---
 maxlike/maxlike_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 9f15321..4bef037 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -479,6 +479,9 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
 
         method = method.lower()
 
+        # stays False unless this fit succeeds, however it ends
+        converged, self.converged = self.converged, False
+
         # --------------------------------------------------------------------
         # Flattening Params
         # --------------------------------------------------------------------
@@ -531,7 +534,7 @@ class MaxLike(with_metaclass(abc.ABCMeta)):
                 y, der, hess = self.model.eval(params)
                 grad = self.flat_grad(params, y, der)
 
-                if not (self.converged and
+                if not (converged and
                         hasattr(self, 'flat_hess_') and
                         self.flat_hess_.shape[0] == grad.shape[0]):
                     self.flat_hess_ = self.flat_hess(params, y, der, hess).data
-- 
2.43.0


From 400b478970154701d942b230781fea2b5bbe675b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:16 +0000
Subject: [PATCH 43/47] fix: the inverses of the tail probabilities refuse
 targets that are not numbers

---
 maxlike/skellam.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 7eb8563..1c66de0 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -71,7 +71,7 @@ def poisson_cdf_root(target, n=2, tol=1e-8):
         a = ((sqrt(phi ** 2 + 4 * n + 2) - phi) / 2) ** 2
     """
     # if not (isinstance(target, float) and target < 1 or target > 0):
-    if target >= 1 or target <= 0:
+    if not 0 < target < 1:
         raise ValueError
     phi = ndtri(target)
     min_a = 1e-3
@@ -123,7 +123,7 @@ def skellam_cdf_root(target1, target2, n=0, tol=1e-8):
     """
     # if not (isinstance(target1, float) and isinstance(target2, float) and
     #        target1 > 0 and target2 > 0 and target1 + target2 < 1):
-    if target1 + target2 >= 1 or min(target1, target2) <= 0:
+    if not (target1 > 0 and target2 > 0 and target1 + target2 < 1):
         raise ValueError
     phi_d = ndtri(target1)
     phi_u = ndtri(1 - target2)
@@ -167,7 +167,7 @@ def conditional_skellam_cdf_root(b, target, tol=1e-8):
 
     TODO: smart guess
     """
-    if target <= 0 or target >= 1:
+    if not 0 < target < 1:
         raise ValueError
     a = b
     e = 1
-- 
2.43.0


From cb8568ee8c4601871187c3df2d281461dcece048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:16 +0000
Subject: [PATCH 44/47] fix: the inverses of the tail probabilities do not
 return rates whose probability is not a number

---
 maxlike/skellam.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/maxlike/skellam.py b/maxlike/skellam.py
index 1c66de0..9e2a816 100644
--- a/maxlike/skellam.py
+++ b/maxlike/skellam.py
@@ -79,7 +79,7 @@ def poisson_cdf_root(target, n=2, tol=1e-8):
     e = 1
     count = 0
     max_steps = 50
-    while abs(e) > abs(tol):
+    while not abs(e) <= abs(tol):
         f, df = poisson_cdf(a, n)
         e = target - f
         step = e / df
@@ -136,7 +136,7 @@ def skellam_cdf_root(target1, target2, n=0, tol=1e-8):
     e = 1
     count = 0
     max_steps = 50
-    while e > abs(tol):
+    while not e <= abs(tol):
         skellam = skellam_cdf_pair(a, b, n, tol)
         s, ds = skellam[:, 0], skellam[:, [1, 2]]
         e = np.linalg.norm(target - s)
@@ -177,7 +177,7 @@ def conditional_skellam_cdf_root(b, target, tol=1e-8):
     size = tol2size(.5 * tol, b)
     Poi_b, dPoi_b = poisson_vector(b, size)
     rng_b = np.arange(size)
-    while e > abs(tol):
+    while not e <= abs(tol):
         size = tol2size(tol, a, b)
         rng_a = np.arange(size)
         xy = rng_b[None, :] - rng_a[:, None]
-- 
2.43.0


From 321c9dc2f47a6ada5d3e0d45b4f7dd1f69dc8cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:21 +0000
Subject: [PATCH 45/47] fix: Param: entries of the mask could be assigned, and
 followed the array of the caller

---
 maxlike/maxlike_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/maxlike/maxlike_base.py b/maxlike/maxlike_base.py
index 4bef037..3dcd02d 100644
--- a/maxlike/maxlike_base.py
+++ b/maxlike/maxlike_base.py
@@ -22,14 +22,15 @@ class Param(object):
         if mask is None or mask is False:
             mask = np.zeros_like(values, dtype=bool)
         else:
-            mask = np.asarray(mask, dtype=bool)
+            mask = np.array(mask, dtype=bool)
             assert mask.shape == values.shape
 
         object.__setattr__(self, 'values', np.asarray(values))
-        object.__setattr__(self, 'mask',   np.asarray(mask))
+        object.__setattr__(self, 'mask',   mask)
         object.__setattr__(self, 'shape',  self.values.shape)
         object.__setattr__(self, 'hash',   getrandbits(128))
         self.values.flags["WRITEABLE"] = False
+        self.mask.flags["WRITEABLE"] = False
 
     def compressed(self):
         return self.values[~self.mask]
-- 
2.43.0


From ad7596978c040bca50a36437040038a659ad2092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:38 +0000
Subject: [PATCH 46/47] fix: dot_right of a zero is a tensor, so that a
 composition without Hessian can be a part

---
 maxlike/tensor/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxlike/tensor/tensor.py b/maxlike/tensor/tensor.py
index 858f833..adf959c 100644
--- a/maxlike/tensor/tensor.py
+++ b/maxlike/tensor/tensor.py
@@ -750,7 +750,7 @@ class Tensor(BaseTensor):
 
         try:
             if other.values.ndim == 0 and other.values == 0:
-                return 0
+                return Tensor(0)
         except:
             pass
 
-- 
2.43.0


From b768c97a7ad39f31b73d2777fb59db7d8c1579b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:38 +0000
Subject: [PATCH 47/47] fix: Linear returns a tensor, so that it can be a part
 of other functions

---
 maxlike/func/func.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maxlike/func/func.py b/maxlike/func/func.py
index 09bd553..aca5cb8 100644
--- a/maxlike/func/func.py
+++ b/maxlike/func/func.py
@@ -13,8 +13,8 @@ class Linear(Func):
         self.weights = weight_list
 
     def __call__(self, params):
-        return sum(((w * np.asarray(p)).sum()
-                    for w, p in zip(params, self.weights)))
+        return Tensor(sum(((w * np.asarray(p)).sum()
+                           for w, p in zip(params, self.weights))))
 
     def grad(self, params, i):
         return grad_tensor(self.weights[i] * np.ones(
-- 
2.43.0

