From 51d4ea03f5837574e770faca6cee64f1cd102c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:37 +0000
Subject: [PATCH 01/55] fix: raising a scalar to the power 0 no longer recurses
 forever

---
 ein/frontend/ndarray.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ein/frontend/ndarray.py b/ein/frontend/ndarray.py
index 4766c08..7acc88c 100644
--- a/ein/frontend/ndarray.py
+++ b/ein/frontend/ndarray.py
@@ -303,6 +303,10 @@ class Scalar(_Array):
             if power < 0:
                 return (1.0 / self) ** (-power)
 
+            if power == 0:
+                one = 1 if self.expr.type == ScalarType(int) else 1.0
+                return cast(Scalar, wrap(one))
+
             def go(k: int) -> Scalar:
                 if k == 1:
                     return self
-- 
2.43.0


From 2d940c5f1f1aa950b2ed0aaf84aee04a169d0518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:37 +0000
Subject: [PATCH 02/55] fix: tanh of large arguments is finite rather than nan

---
 ein/frontend/ndarray.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ein/frontend/ndarray.py b/ein/frontend/ndarray.py
index 7acc88c..366b8aa 100644
--- a/ein/frontend/ndarray.py
+++ b/ein/frontend/ndarray.py
@@ -371,8 +371,10 @@ class Scalar(_Array):
         return Scalar(phi.Cos((self.expr,)))
 
     def tanh(self) -> "Scalar":
-        a, b = self.exp(), (-self).exp()
-        return (a - b) / (a + b)
+        # Only exponentiate non-positive numbers, so large arguments do not overflow
+        e = (-2.0 * self.abs()).exp()
+        t = (1.0 - e) / (1.0 + e)
+        return (self > 0.0).where(t, -t)
 
 
 def ext(
-- 
2.43.0


From 8d04ad08df5f23574f842ccd8e7ff2c58b61ce62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:37 +0000
Subject: [PATCH 03/55] fix: fold compares the layout of its body (not its
 initialiser twice)

---
 ein/frontend/comprehension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/frontend/comprehension.py b/ein/frontend/comprehension.py
index ebce77c..cb541e5 100644
--- a/ein/frontend/comprehension.py
+++ b/ein/frontend/comprehension.py
@@ -161,7 +161,7 @@ def fold(init: T, step: _WithIndex[T], count: Size | None = None) -> T:
     acc = phi.variable(Variable(), init_expr.type)
     arg_acc = _to_array(acc, layout)
     body = step(arg_index, arg_acc)
-    layout_ = build_layout(init, lambda a: wrap(a).layout)
+    layout_ = build_layout(body, lambda a: wrap(a).layout)
     if layout != layout_:
         raise ValueError(
             f"Expected initialiser and fold body layouts to match, "
-- 
2.43.0


From ba0d1721e04f1507e5bcd104a85222a7de2def69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:37 +0000
Subject: [PATCH 04/55] fix: dict records may use keys that are names of dict
 methods

---
 ein/frontend/layout.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ein/frontend/layout.py b/ein/frontend/layout.py
index bdf520b..f32e7a1 100644
--- a/ein/frontend/layout.py
+++ b/ein/frontend/layout.py
@@ -92,11 +92,7 @@ def build_layout(obj, f) -> Layout:
 def fold_layout(layout, args, atom, vec, merge):
     def get(name):
         def do(x):
-            return (
-                getattr(x, name)
-                if isinstance(name, str) and hasattr(x, name)
-                else x[name]
-            )
+            return x[name] if isinstance(x, dict) else getattr(x, name)
 
         return do
 
@@ -129,7 +125,7 @@ def fold_layout(layout, args, atom, vec, merge):
 def map_layout(layout, args, atom, vec):
     def get(name):
         def do(x):
-            return getattr(x, name) if hasattr(x, name) else x[name]
+            return x[name] if isinstance(x, dict) else getattr(x, name)
 
         return do
 
-- 
2.43.0


From 8d95bfde91160a23e82efdefed7820785a2e775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:33 +0000
Subject: [PATCH 05/55] fix: size inference visits a shared subexpression once,
 not exponentially often

---
 ein/frontend/comprehension.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ein/frontend/comprehension.py b/ein/frontend/comprehension.py
index cb541e5..eda55c1 100644
--- a/ein/frontend/comprehension.py
+++ b/ein/frontend/comprehension.py
@@ -59,11 +59,12 @@ def _infer_sizes(
         }
     size_of: dict[Symbol, Expr] = {}
     direct_indices: dict[Symbol, dict[Expr, set[Symbol]]] = {}
-    visited: set[Expr] = set()
+    visited: set[tuple[Expr, frozenset[Symbol]]] = set()
 
     def go(sub: Expr, captured: set[Symbol]) -> Expr:
-        if sub in visited:
+        if (sub, frozenset(captured)) in visited:
             return sub
+        visited.add((sub, frozenset(captured)))
         match sub:
             case phi.Get(target, phi.Store(symbol)):
                 direct_indices.setdefault(symbol, {})[target] = captured
-- 
2.43.0


From 51cc5a42cabfed50e80410147f0fb490d7421378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:33 +0000
Subject: [PATCH 06/55] fix: NumPy edge padding preserves the dtype, and the
 shape of empty arrays

---
 ein/backend/numpy_backend.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index 00ae828..9ea6089 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -91,11 +91,15 @@ def fast_edge_pad(
     target: numpy.ndarray, pads: tuple[tuple[int, int], ...]
 ) -> numpy.ndarray:
     if not target.size:
-        return numpy.empty(tuple(lt + rt for lt, rt in pads))
+        shape = tuple(d + lt + rt for d, (lt, rt) in zip(target.shape, pads))
+        return numpy.zeros(shape, dtype=target.dtype)
     if sum(lt + rt for lt, rt in pads) == 0:
         return target.copy()
     if all(not (lt and rt) for lt, rt in pads):
-        res = numpy.empty([d + lt + rt for d, (lt, rt) in zip(target.shape, pads)])
+        res = numpy.empty(
+            [d + lt + rt for d, (lt, rt) in zip(target.shape, pads)],
+            dtype=target.dtype,
+        )
         edge_index: list[int | numpy.ndarray | slice] = []
         edge_unsqueeze: list[None | slice] = []
         dest: list[slice] = []
-- 
2.43.0


From dd4b68f53ba28525a6783b5727f78d45bb76b55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:33 +0000
Subject: [PATCH 07/55] fix: NumPy backend accepts arrays whose memory is owned
 by a non-array

---
 ein/backend/numpy_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index 9ea6089..53dcae4 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -19,7 +19,7 @@ class NumpyBackend(AbstractArrayBackend[numpy.ndarray]):
         return value.array
 
     def preprocess_bound(self, target: numpy.ndarray) -> numpy.ndarray:
-        if target.base is not None:
+        if isinstance(target.base, numpy.ndarray):
             base = target.base.strides
             # Memory order non-monotonic
             if any(x < y for x, y in zip(base, base[1:])):
-- 
2.43.0


From fb782be88c4b97441f33ad8cd2b8f0a0fc3dc87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:33 +0000
Subject: [PATCH 08/55] fix: indexing an empty axis yields some value instead
 of failing

---
 ein/backend/jax_backend.py   | 12 ++++++++++++
 ein/backend/naive.py         |  2 +-
 ein/backend/numpy_backend.py | 12 ++++++++++++
 ein/backend/torch_backend.py | 12 ++++++++++++
 4 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 3e43e96..2d25fd3 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -68,6 +68,7 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         return jnp.expand_dims(target, axes)
 
     def gather(self, target: jnp.ndarray, item: jnp.ndarray, axis: int) -> jnp.ndarray:
+        target = non_empty_at(target, (axis,))
         return jnp.take_along_axis(
             target, jnp.clip(item, 0, target.shape[axis] - 1), axis
         )
@@ -76,6 +77,9 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         self, target: jnp.ndarray, items: Sequence[Optional[jnp.ndarray]]
     ) -> jnp.ndarray:
         SLICE_NONE = slice(None)
+        target = non_empty_at(
+            target, [axis for axis, item in enumerate(items) if item is not None]
+        )
         it: Any = (
             jnp.clip(item, 0, dim - 1) if item is not None else SLICE_NONE
             for dim, item in zip(target.shape, items)
@@ -161,6 +165,14 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
 INSTANCE = JaxBackend()
 
 
+def non_empty_at(target: jnp.ndarray, axes: Sequence[int]) -> jnp.ndarray:
+    # An element of an empty axis may be anything, but accessing it is not an error
+    if all(target.shape[axis] for axis in axes):
+        return target
+    shape = [max(d, 1) if i in axes else d for i, d in enumerate(target.shape)]
+    return jnp.zeros(shape, dtype=target.dtype)
+
+
 def stage_in_array(
     program: yarr.Expr,
 ) -> Callable[[Env], jnp.ndarray | tuple[jnp.ndarray, ...]]:
diff --git a/ein/backend/naive.py b/ein/backend/naive.py
index ea5150f..1f3123d 100644
--- a/ein/backend/naive.py
+++ b/ein/backend/naive.py
@@ -50,7 +50,7 @@ def _interpret(expr: Expr, env: dict[Symbol, Value]) -> Value:
             tt = _interpret(target, env).array
             it = _interpret(item, env).array
             if not tt.size:
-                return Value(numpy.empty(tt.shape[1:], tt.dtype))
+                return Value(numpy.zeros(tt.shape[1:], tt.dtype))
             return Value(numpy.take(tt, it, axis=0, mode="clip"))
         case phi.Concat(first, second):
             return Value(
diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index 53dcae4..72f0b94 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -49,6 +49,7 @@ class NumpyBackend(AbstractArrayBackend[numpy.ndarray]):
     def gather(
         self, target: numpy.ndarray, item: numpy.ndarray, axis: int
     ) -> numpy.ndarray:
+        target = non_empty_at(target, (axis,))
         return numpy.take_along_axis(
             target, numpy.clip(item, 0, target.shape[axis] - 1), axis
         )
@@ -57,6 +58,9 @@ class NumpyBackend(AbstractArrayBackend[numpy.ndarray]):
         self, target: numpy.ndarray, items: Sequence[numpy.ndarray | None]
     ) -> numpy.ndarray:
         SLICE_NONE = slice(None)
+        target = non_empty_at(
+            target, [axis for axis, item in enumerate(items) if item is not None]
+        )
         it: Any = (
             numpy.clip(item, 0, dim - 1) if item is not None else SLICE_NONE
             for dim, item in zip(target.shape, items)
@@ -87,6 +91,14 @@ class NumpyBackend(AbstractArrayBackend[numpy.ndarray]):
 INSTANCE = NumpyBackend()
 
 
+def non_empty_at(target: numpy.ndarray, axes: Sequence[int]) -> numpy.ndarray:
+    # An element of an empty axis may be anything, but accessing it is not an error
+    if all(target.shape[axis] for axis in axes):
+        return target
+    shape = [max(d, 1) if i in axes else d for i, d in enumerate(target.shape)]
+    return numpy.zeros(shape, dtype=target.dtype)
+
+
 def fast_edge_pad(
     target: numpy.ndarray, pads: tuple[tuple[int, int], ...]
 ) -> numpy.ndarray:
diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 7141a88..7bbc12e 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -66,12 +66,16 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     def gather(
         self, target: torch.Tensor, item: torch.Tensor, axis: int
     ) -> torch.Tensor:
+        target = non_empty_at(target, (axis,))
         return torch.gather(target, axis, torch.clip(item, 0, target.shape[axis] - 1))
 
     def take(
         self, target: torch.Tensor, items: Sequence[Optional[torch.Tensor]]
     ) -> torch.Tensor:
         SLICE_NONE = slice(None)
+        target = non_empty_at(
+            target, [axis for axis, item in enumerate(items) if item is not None]
+        )
         it = (
             torch.clip(item, 0, dim - 1) if item is not None else SLICE_NONE
             for dim, item in zip(target.shape, items)
@@ -106,6 +110,14 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
 INSTANCE = TorchBackend()
 
 
+def non_empty_at(target: torch.Tensor, axes: Sequence[int]) -> torch.Tensor:
+    # An element of an empty axis may be anything, but accessing it is not an error
+    if all(target.shape[axis] for axis in axes):
+        return target
+    shape = [max(d, 1) if i in axes else d for i, d in enumerate(target.shape)]
+    return target.new_zeros(shape)
+
+
 def squeeze_axes(tensor, axes):
     for axis in axes:
         tensor = tensor.squeeze(axis)
-- 
2.43.0


From 0cf895f6f68d28366fbb95c3050ef052c38e2f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:33 +0000
Subject: [PATCH 09/55] fix: Torch edge padding pads the right axes, for any
 rank and dtype

---
 ein/backend/torch_backend.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 7bbc12e..1f15253 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -1,4 +1,3 @@
-import itertools
 from functools import cache
 from typing import Any, Callable, Optional, Sequence, TypeAlias, cast
 
@@ -88,15 +87,20 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     def pad(
         self, target: torch.Tensor, pads: Sequence[tuple[int, int]]
     ) -> torch.Tensor:
-        return (
-            torch.nn.functional.pad(
-                target.unsqueeze(0).unsqueeze(0),
-                tuple(itertools.chain(*pads)),
-                mode="replicate",
-            )
-            .squeeze(0)
-            .squeeze(0)
-        )
+        for axis, (left, right) in enumerate(pads):
+            left, right = int(left), int(right)
+            if left or right:
+                dim = target.shape[axis]
+                if not dim:
+                    shape = list(target.shape)
+                    shape[axis] = left + right
+                    target = target.new_zeros(shape)
+                else:
+                    edge = torch.arange(
+                        -left, dim + right, device=target.device
+                    ).clip(0, dim - 1)
+                    target = target.index_select(axis, edge)
+        return target
 
     def repeat(
         self, target: torch.Tensor, count: torch.Tensor, axis: int
-- 
2.43.0


From 5abca31a38d7fcd43c20cd1650bc8368ee83d49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:33 +0000
Subject: [PATCH 10/55] fix: Torch gathers broadcast the gathered array and the
 indices

---
 ein/backend/torch_backend.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 1f15253..6a290bb 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -66,7 +66,16 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
         self, target: torch.Tensor, item: torch.Tensor, axis: int
     ) -> torch.Tensor:
         target = non_empty_at(target, (axis,))
-        return torch.gather(target, axis, torch.clip(item, 0, target.shape[axis] - 1))
+        item = torch.clip(item, 0, target.shape[axis] - 1)
+        # torch.gather does not broadcast
+        shape = list(
+            torch.broadcast_shapes(
+                target.select(axis, 0).shape, item.select(axis, 0).shape
+            )
+        )
+        target = target.expand(*shape[:axis], target.shape[axis], *shape[axis:])
+        item = item.expand(*shape[:axis], item.shape[axis], *shape[axis:])
+        return torch.gather(target, axis, item)
 
     def take(
         self, target: torch.Tensor, items: Sequence[Optional[torch.Tensor]]
-- 
2.43.0


From f4a15999a74c095e9b40b39b09a298bbf7827b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:18 +0000
Subject: [PATCH 11/55] fix: naive folds accept a negative count

---
 ein/backend/naive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/backend/naive.py b/ein/backend/naive.py
index 1f3123d..4ef962c 100644
--- a/ein/backend/naive.py
+++ b/ein/backend/naive.py
@@ -30,7 +30,7 @@ def _interpret(expr: Expr, env: dict[Symbol, Value]) -> Value:
             for i in range(n):
                 env[counter] = Value(numpy.array(i))
                 env[acc_v] = _interpret(body, env)
-            if n:
+            if n > 0:
                 del env[counter]
             return env.pop(acc_v)
         case phi.Reduce(init, x, y, xy, vecs_):
-- 
2.43.0


From 89122d07d7f41d2c2fbb0c1ed78dee46a30ee586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:18 +0000
Subject: [PATCH 12/55] fix: naive empty comprehensions keep the shape and
 datatype of their elements

---
 ein/backend/naive.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ein/backend/naive.py b/ein/backend/naive.py
index 4ef962c..24ca6f8 100644
--- a/ein/backend/naive.py
+++ b/ein/backend/naive.py
@@ -16,6 +16,10 @@ def _interpret(expr: Expr, env: dict[Symbol, Value]) -> Value:
     match expr:
         case phi.Vec(index, size, body):
             evaluated_size = int(_interpret(size, env).array)
+            if evaluated_size <= 0:
+                # The elements' shape and datatype are needed even if there are none
+                elem = _interpret(body, env | {index: Value(numpy.array(0))}).array
+                return Value(numpy.zeros((0, *elem.shape), elem.dtype))
             return Value(
                 numpy.array(
                     [
-- 
2.43.0


From c8de6abeefae495c3536ed3d94121ab45447549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:18 +0000
Subject: [PATCH 13/55] fix: minimum and maximum folds over nothing give their
 initial value

---
 ein/backend/jax_backend.py   |  7 ++++---
 ein/backend/numpy_backend.py | 10 ++++++++--
 ein/backend/torch_backend.py | 16 ++++++++++++++--
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 2d25fd3..ee18cbe 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -1,4 +1,4 @@
-from functools import cache
+from functools import cache, partial
 from typing import Any, Callable, Optional, Sequence, TypeAlias, cast
 
 import numpy
@@ -242,8 +242,9 @@ def interpret(
 
 REDUCE: Any = {
     ReduceAxis.Kind.add: jnp.sum,
-    ReduceAxis.Kind.minimum: jnp.amin,
-    ReduceAxis.Kind.maximum: jnp.amax,
+    # These reductions may be over empty axes
+    ReduceAxis.Kind.minimum: partial(jnp.amin, initial=float("inf")),
+    ReduceAxis.Kind.maximum: partial(jnp.amax, initial=float("-inf")),
 }
 ELEMENTWISE: Any = {
     UnaryElementwise.Kind.negative: jnp.negative,
diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index 72f0b94..036c3de 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -1,4 +1,4 @@
-from functools import cache
+from functools import cache, partial
 from typing import Any, Callable, Sequence, TypeAlias, cast
 
 import numpy
@@ -89,6 +89,12 @@ class NumpyBackend(AbstractArrayBackend[numpy.ndarray]):
 
 
 INSTANCE = NumpyBackend()
+# Reductions are only formed over floats, and they may be over empty axes
+REDUCE_INITIAL: dict[yarr.ReduceAxis.Kind, dict[str, float]] = {
+    yarr.ReduceAxis.Kind.add: {},
+    yarr.ReduceAxis.Kind.minimum: {"initial": float("inf")},
+    yarr.ReduceAxis.Kind.maximum: {"initial": float("-inf")},
+}
 
 
 def non_empty_at(target: numpy.ndarray, axes: Sequence[int]) -> numpy.ndarray:
@@ -152,7 +158,7 @@ def stage_in_array(
         match expr:
             case yarr.ReduceAxis(kind, axis, target_):
                 target = go(target_)
-                call = yarr.REDUCE_KINDS[kind].reduce
+                call = partial(yarr.REDUCE_KINDS[kind].reduce, **REDUCE_INITIAL[kind])
                 return lambda env: call(target(env), axis=axis)
             case yarr.Cast(dtype, target_):
                 target = go(target_)
diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 6a290bb..63f80f0 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -202,10 +202,22 @@ def interpret(
     )
 
 
+def reduce_with_initial(reduce: Callable, initial: float) -> Callable:
+    # Torch has no identity for these reductions, but they may be over empty axes
+    def call(target: torch.Tensor, axis: int) -> torch.Tensor:
+        if target.shape[axis]:
+            return reduce(target, axis)
+        return target.new_full(
+            [*target.shape[:axis], *target.shape[axis + 1 :]], initial
+        )
+
+    return call
+
+
 REDUCE: Any = {
     ReduceAxis.Kind.add: torch.sum,
-    ReduceAxis.Kind.minimum: torch.amin,
-    ReduceAxis.Kind.maximum: torch.amax,
+    ReduceAxis.Kind.minimum: reduce_with_initial(torch.amin, float("inf")),
+    ReduceAxis.Kind.maximum: reduce_with_initial(torch.amax, float("-inf")),
 }
 ELEMENTWISE: Any = {
     UnaryElementwise.Kind.negative: torch.negative,
-- 
2.43.0


From 147347b703ab1f69cec9e7bb3d2c0c8a0ff47b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:18 +0000
Subject: [PATCH 14/55] fix: JAX backend no longer prints slices

---
 ein/backend/jax_backend.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index ee18cbe..7a3197f 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -87,7 +87,6 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         return target[*it]
 
     def slice(self, target: jnp.ndarray, slices: Sequence[slice]) -> jnp.ndarray:
-        print(slices)
         return target[*slices]
 
     def pad(self, target: jnp.ndarray, pads: Sequence[tuple[int, int]]) -> jnp.ndarray:
-- 
2.43.0


From 3fb0c27c636372f43151a893e762d82583d5fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:34 +0000
Subject: [PATCH 15/55] fix: sums of terms independent of the counter are not
 contracted as einsums

---
 ein/codegen/phi_to_yarr.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 63d372e..6aeea83 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -117,6 +117,11 @@ def transform(
                                 for operand in with_realised
                             ]
                             operand_axes = [operand._axes for operand in axial_operands]
+                            for counter, index in realised_counter.items():
+                                if any(
+                                    counter in operand.free_symbols for operand in args
+                                ) and not any(index in axes for axes in operand_axes):
+                                    return None
                             result_axes = tuple(
                                 index
                                 for index in axial._alignment(*operand_axes)
@@ -492,7 +497,13 @@ class Dot:
         match expr:
             case phi.Fold() if (summation := match_summation(expr)) is not None:
                 counter, body = summation
-                return cls.lift(body).sum(counter, expr.size)
+                dot = cls.lift(body)
+                # A product independent of the counter would not be repeatedly summed
+                if all(
+                    any(counter in factor.free_symbols for factor in product)
+                    for product in dot.products
+                ):
+                    return dot.sum(counter, expr.size)
             case phi.Add((first, second)):
                 return cls.lift(first) + cls.lift(second)
             case phi.Negate((target,)):
-- 
2.43.0


From 0b22fae93440a9272d7a49fa0b1d2d0e612c9cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:34 +0000
Subject: [PATCH 16/55] fix: NumPy temporaries are only reused for results of
 the same datatype

---
 ein/backend/numpy_backend.py | 15 +++++++++++----
 ein/codegen/phi_to_yarr.py   |  3 ++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index 036c3de..05f32dd 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -145,6 +145,15 @@ def fast_edge_pad(
     return numpy.pad(target, pads, mode="edge")  # type: ignore
 
 
+def call_inplace(
+    call: Callable, first: numpy.ndarray, second: numpy.ndarray, out: numpy.ndarray
+) -> numpy.ndarray:
+    # Narrow datatypes of the operands may be promoted
+    if out.dtype == numpy.result_type(first, second):
+        return call(first, second, out=out)
+    return call(first, second)
+
+
 def stage_in_array(
     program: yarr.Expr,
 ) -> Callable[[Env], numpy.ndarray | tuple[numpy.ndarray, ...]]:
@@ -173,15 +182,13 @@ def stage_in_array(
                 if inplace == 0:
 
                     def call_to_first(env: Env) -> numpy.ndarray:
-                        out = first(env)
-                        return call(out, second(env), out=out)
+                        return call_inplace(call, (x := first(env)), second(env), x)
 
                     return call_to_first
                 elif inplace == 1:
 
                     def call_to_second(env: Env) -> numpy.ndarray:
-                        out = second(env)
-                        return call(first(env), out, out=out)
+                        return call_inplace(call, first(env), (y := second(env)), y)
 
                     return call_to_second
                 return lambda env: call(first(env), second(env))
diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 6aeea83..8a9d051 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -559,7 +559,8 @@ def apply_inplace_on_temporaries(program: yarr.Expr) -> yarr.Expr:
                 # Should have more in-depth analysis on what broadcasting might occur
                 rank = expr.type.single.rank
                 rank1, rank2 = first.type.single.rank, second.type.single.rank
-                if rank:
+                scalar = expr.type.single.kind
+                if rank and first.type.single.kind == second.type.single.kind == scalar:
                     if rank == rank1 and isinstance(first, TEMPORARIES):
                         return yarr.BinaryElementwise(kind, first, second, 0)
                     if rank == rank2 and isinstance(second, TEMPORARIES):
-- 
2.43.0


From 914b479e036ee336970cb05693112420b2ed1531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:33 +0000
Subject: [PATCH 17/55] fix: shifted and clipped indexing respects array
 bounds, and empty arrays

---
 ein/backend/jax_backend.py    |  3 +++
 ein/codegen/array_indexing.py | 18 ++++++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 7a3197f..4338225 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -90,6 +90,9 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         return target[*slices]
 
     def pad(self, target: jnp.ndarray, pads: Sequence[tuple[int, int]]) -> jnp.ndarray:
+        if not target.size:
+            shape = [d + left + right for d, (left, right) in zip(target.shape, pads)]
+            return jnp.zeros(shape, dtype=target.dtype)
         return jnp.pad(target, pads, mode="edge")  # type: ignore
 
     def repeat(self, target: jnp.ndarray, count: jnp.ndarray, axis: int) -> jnp.ndarray:
diff --git a/ein/codegen/array_indexing.py b/ein/codegen/array_indexing.py
index 8eab888..b7d85ee 100644
--- a/ein/codegen/array_indexing.py
+++ b/ein/codegen/array_indexing.py
@@ -89,14 +89,20 @@ def transform_get(
                 zero = Builder.const(0).expr
                 size = index_sizes[index]
                 dim1 = (Builder(go(dim).normal) - Builder.const(1)).expr
+
+                def go_bound(bound: phi.Expr) -> yarr.Expr:
+                    # Explicit bounds might still be outside of the array
+                    in_array = Builder(go(bound).normal)
+                    return in_array.max(Builder(zero)).min(Builder(dim1)).expr
+
                 return Axial(
                     axes,
                     pad_slice_get(
                         target.expr,
                         target.positional_axis(0),
                         go(shift).normal if shift is not None else zero,
-                        go(low).normal if low is not None else zero,
-                        go(high).normal if high is not None else dim1,
+                        go_bound(low) if low is not None else zero,
+                        go_bound(high) if high is not None else dim1,
                         size,
                     ),
                 )
@@ -138,10 +144,10 @@ def pad_slice_get(
     #  b[i] = a[min(max(i + shift, low), high)]
     # using the operation
     #  b = pad(a[start:stop], (left, right))
-    # (where indexing is along the selected axis)
-    start = shift.max(low).min(high)
-    stop = (shift + size - one).max(low).min(high) + one
-    left = (low - shift).max(zero).min(size - one)
+    # (where indexing is along the selected axis, and either of a, b might be empty)
+    start = shift.max(low).min(high).max(zero)
+    stop = ((shift + size - one).max(low).min(high) + one).min(start + size)
+    left = (low - shift).min(size - one).max(zero)
     right = size - (stop - start) - left
 
     return yarr.Pad(
-- 
2.43.0


From 362836fc6f6bfaa3af5e84ee1ee5de13659dd024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:30 +0000
Subject: [PATCH 18/55] fix: fold accumulators depend on the indices of both
 the initialiser and the body

---
 ein/codegen/phi_to_yarr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 8a9d051..7d91dfb 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -172,11 +172,12 @@ def transform(
                 #  Doing this by constructing the body twice is a really bad idea.
                 #  But just using body.free_indices isn't deterministic enough.
                 pre_transformed = transformed.copy()
-                acc_axes = go(
+                body_axes = go(
                     body_,
                     index_sizes,
                     var_axes | {acc: init._axes},
                 )._axes
+                acc_axes = axial._alignment(body_axes, init._axes)
                 transformed.clear()
                 transformed.update(pre_transformed)
                 body = go(
@@ -191,7 +192,7 @@ def transform(
                         size.normal,
                         acc,
                         init.aligned(acc_axes, repeats=index_sizes),
-                        body.aligned(acc_axes),
+                        body.aligned(acc_axes, repeats=index_sizes),
                     ),
                 )
             case phi.Reduce(init_, x, y, xy_, vecs_):
-- 
2.43.0


From ff3a1f9d2c4af235f68bb0dab7651c023446cb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:30 +0000
Subject: [PATCH 19/55] fix: record components are repeated along indices only
 other components depend on

---
 ein/codegen/axial.py       | 8 +++++---
 ein/codegen/phi_to_yarr.py | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ein/codegen/axial.py b/ein/codegen/axial.py
index d416cb9..2776c56 100644
--- a/ein/codegen/axial.py
+++ b/ein/codegen/axial.py
@@ -82,12 +82,14 @@ class Axial:
         *rest, (var, bind) = args
         return Axial(self._axes, yarr.Let(var, bind, self.expr)).within(*rest)
 
-    def cons(self, other: "Axial") -> "Axial":
+    def cons(
+        self, other: "Axial", *, repeats: dict[Axis, yarr.Expr] | None = None
+    ) -> "Axial":
         n = len(self.expr.type.elems)
         m = len(other.expr.type.elems)
         axes = _alignment(self._axes, other._axes)
-        self_expr = self.aligned(axes)
-        other_expr = other.aligned(axes)
+        self_expr = self.aligned(axes, repeats=repeats)
+        other_expr = other.aligned(axes, repeats=repeats)
         return Axial(
             axes,
             tuple_maybe_singleton(
diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 7d91dfb..8e1ca50 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -280,7 +280,7 @@ def transform(
             case phi.Cons(first_, second_):
                 first = go(first_, index_sizes, var_axes)
                 second = go(second_, index_sizes, var_axes)
-                return first.cons(second)
+                return first.cons(second, repeats=index_sizes)
             case phi.First(target_):
                 assert isinstance(target_.type, Pair)
                 k = len(target_.type.first.primitive_type.elems)
-- 
2.43.0


From 861850f5c744234af1a9b59490a639be84c21c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:30 +0000
Subject: [PATCH 20/55] fix: indices reaching an array through an accumulator
 are not mistaken for slices

---
 ein/codegen/array_indexing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ein/codegen/array_indexing.py b/ein/codegen/array_indexing.py
index b7d85ee..0c8f966 100644
--- a/ein/codegen/array_indexing.py
+++ b/ein/codegen/array_indexing.py
@@ -80,7 +80,9 @@ def transform_get(
     if use_slice_pads and ts is not None:
         index, (shift, low, high) = ts
         axes = target._axes + (index,)
-        if index not in target_.free_indices:
+        # The shift and bounds may be index-dependent through an accumulator
+        bounds = [go(bound) for bound in (shift, low, high) if bound is not None]
+        if index not in target._axes and not any(bound._axes for bound in bounds):
             is_trivial = {shift, low, high} == {None}
             dim = _dim_of(target_, 0)
             if use_slice_elision and is_trivial and size_class.equiv(index, dim):
-- 
2.43.0


From 6a747a84ee6a46953a3c26c5d52d8a1c393224ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:30 +0000
Subject: [PATCH 21/55] fix: reductions may be initialised by an accumulator

---
 ein/codegen/phi_to_yarr.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 8e1ca50..47734e2 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -427,11 +427,17 @@ def match_reduction(
         size_class,
     )
     vec = go(vec_expr)
-    reduced = yarr.ReduceAxis(kind, vec.positional_axis(0), vec.expr)
+    reduced = Axial(
+        vec._axes, yarr.ReduceAxis(kind, vec.positional_axis(0), vec.expr)
+    )
+    # The initialiser may be index-dependent through an accumulator
+    in_axial = (go(init), reduced)
+    used_axes = axial._alignment(*(op._axes for op in in_axial))
     reduced_with_init = yarr.BinaryElementwise(
-        yarr.REDUCE_UNDERLYING[kind], go(init).normal, reduced
+        yarr.REDUCE_UNDERLYING[kind],
+        *(op.aligned(used_axes, leftpad=False) for op in in_axial),
     )
-    return Axial(vec._axes, reduced_with_init)
+    return Axial(used_axes, reduced_with_init)
 
 
 def match_summation(expr: phi.Fold) -> tuple[Variable, phi.Expr] | None:
-- 
2.43.0


From e887e9abd166465f9691945c0482801bdafb9983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:13 +0000
Subject: [PATCH 22/55] fix: reductions align the axes of the combined elements

---
 ein/codegen/phi_to_yarr.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 47734e2..b463abd 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -202,17 +202,25 @@ def transform(
                 # FIXME: Like for Fold, we trace the body twice to get a deterministic choice of axes.
                 some_axes = axial._alignment(init._axes, *(vec._axes for vec in vecs))
                 pre_transformed = transformed.copy()
-                axes = go(
+                body_axes = go(
                     xy_, index_sizes, var_axes | {x: some_axes, y: some_axes}
                 )._axes
+                axes = axial._alignment(body_axes, some_axes)
                 transformed.clear()
                 transformed.update(pre_transformed)
 
                 # Insert the batch axis to be the first one before ones reduced
                 #   this is a convenient choice, as [vecs] also follow it
                 #   (their outermost axis is reduced, so this inserted axis corresponds to it)
-                xy_axes = (*axes, Index())
-                xy = go(xy_, index_sizes, var_axes | {x: xy_axes, y: xy_axes})
+                batch = Index()
+                xy_axes = (*axes, batch)
+                x_type = xy_.type.primitive_type.with_rank_delta(+len(xy_axes))
+                batch_sizes = index_sizes | {
+                    batch: yarr.Dim(
+                        len(axes), axial.untuple_maybe_singleton(yarr.Var(x, x_type), 0)
+                    )
+                }
+                xy = go(xy_, batch_sizes, var_axes | {x: xy_axes, y: xy_axes})
 
                 # FIXME: There's probably something wrong here.
                 init_expr = init.aligned(axes, repeats=index_sizes)
@@ -223,9 +231,10 @@ def transform(
                     if len(vecs) > 1
                     else vecs[0].aligned(axes, repeats=index_sizes)
                 )
+                xy_expr = xy.aligned(xy_axes, repeats=batch_sizes)
                 return Axial(
                     axes,
-                    yarr.Reduce(init_expr, x, y, xy.expr, vecs_expr, len(axes)),
+                    yarr.Reduce(init_expr, x, y, xy_expr, vecs_expr, len(axes)),
                 )
 
             case phi.Get(target_, item_):
-- 
2.43.0


From 1e5b8ab167f0b1f3287783432276192632810c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:13 +0000
Subject: [PATCH 23/55] fix: abandoned einsum contractions leave no trace

---
 ein/codegen/phi_to_yarr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index b463abd..790367c 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -136,10 +136,13 @@ def transform(
                                 ),
                             )
 
+                        pre_transformed = transformed.copy()
                         summands: list[Axial] = []
                         for curr in dot.products:
                             in_array = go_product(*curr)
                             if in_array is None:
+                                transformed.clear()
+                                transformed.update(pre_transformed)
                                 break
                             summands.append(in_array)
                         else:
-- 
2.43.0


From 61181a81fe9334db4f36d08f2dd00a75d1570f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:07 +0000
Subject: [PATCH 24/55] fix: symbols bound by copies of a term are kept
 distinct

---
 ein/backend/naive.py       |  4 +++-
 ein/codegen/phi_to_yarr.py |  4 ++--
 ein/midend/substitution.py | 37 ++++++++++++++++++++++++++++++++++++-
 3 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/ein/backend/naive.py b/ein/backend/naive.py
index 24ca6f8..6a50470 100644
--- a/ein/backend/naive.py
+++ b/ein/backend/naive.py
@@ -5,6 +5,7 @@ import numpy
 
 from ein.midend.lining import outline
 from ein.midend.structs import struct_of_arrays_transform
+from ein.midend.substitution import with_unique_binders
 from ein.phi import phi
 from ein.phi.phi import Expr
 from ein.symbols import Symbol, Variable
@@ -93,7 +94,8 @@ def interpret(
     program: Expr,
     env: dict[Variable, numpy.ndarray],
 ) -> numpy.ndarray:
-    program = cast(Expr, outline(struct_of_arrays_transform(program)))
+    program = with_unique_binders(struct_of_arrays_transform(program))
+    program = cast(Expr, outline(program))
     return _interpret(program, {var: Value(array) for var, array in env.items()}).array
 
 
diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 790367c..120c0d4 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -12,7 +12,7 @@ from ein.midend.size_classes import (
     update_size_classes,
 )
 from ein.midend.structs import struct_of_arrays_transform
-from ein.midend.substitution import substitute
+from ein.midend.substitution import substitute, with_unique_binders
 from ein.phi import phi
 from ein.phi.type_system import Pair, Scalar, to_float
 from ein.symbols import Index, Symbol, Variable
@@ -35,7 +35,7 @@ def transform(
 ) -> yarr.Expr:
     transformed: dict[phi.Expr, Axial] = {}
 
-    program = struct_of_arrays_transform(program)
+    program = with_unique_binders(struct_of_arrays_transform(program))
     size_class = find_size_classes(program)
 
     def _go(
diff --git a/ein/midend/substitution.py b/ein/midend/substitution.py
index c2a19c0..2efcf65 100644
--- a/ein/midend/substitution.py
+++ b/ein/midend/substitution.py
@@ -1,6 +1,8 @@
+import dataclasses
 from functools import cache
-from typing import Mapping
+from typing import Mapping, cast
 
+from ein.phi import phi
 from ein.symbols import Symbol
 from ein.term import Term
 
@@ -18,3 +20,36 @@ def substitute(term: Term, subs: Mapping[Symbol, Term]) -> Term:
         return t.map(go)
 
     return go(term)
+
+
+def with_unique_binders(program: phi.Expr) -> phi.Expr:
+    """Rename symbols bound by more than one term, e.g. after a term is copied by a substitution."""
+    binders: dict[Symbol, phi.Expr] = {}
+
+    def refresh(expr: phi.Expr) -> phi.Expr:
+        fresh = {symbol: type(symbol)() for symbol in expr.captured_symbols}
+
+        @cache
+        def rename(sub: phi.Expr) -> phi.Expr:
+            if not sub.free_symbols & set(fresh):
+                return sub
+            match sub:
+                case phi.Store(symbol, inner_type):
+                    return phi.Store(fresh[symbol], inner_type)
+            return sub.map(rename)
+
+        fields = {
+            name: fresh[value]
+            for name, value in expr._fields
+            if isinstance(value, Symbol) and value in fresh
+        }
+        return cast(phi.Expr, dataclasses.replace(expr.map(rename), **fields))
+
+    @cache
+    def go(expr: phi.Expr) -> phi.Expr:
+        if any(binders.get(symbol, expr) != expr for symbol in expr.captured_symbols):
+            expr = refresh(expr)
+        binders.update({symbol: expr for symbol in expr.captured_symbols})
+        return expr.map(go)
+
+    return go(program)
-- 
2.43.0


From 739e8b15cd3114b1ab254cef820a6c06548ee1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:27 +0000
Subject: [PATCH 25/55] fix: folds using the accumulator many times are not
 reductions

---
 ein/codegen/phi_to_yarr.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 120c0d4..f402a48 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -407,10 +407,13 @@ def match_reduction_by_body(
     for typ, kind in red.items():
         if isinstance(body, typ):
             first, second = body.operands
-            if isinstance(first, phi.Store) and first.symbol == acc:
-                return second, kind
-            elif isinstance(second, phi.Store) and second.symbol == acc:
-                return first, kind
+            for this, other in ((first, second), (second, first)):
+                if (
+                    isinstance(this, phi.Store)
+                    and this.symbol == acc
+                    and acc not in other.free_symbols
+                ):
+                    return other, kind
     return None
 
 
-- 
2.43.0


From 1e978719b26f413a95414c1d74e3a13a51705354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:44 +0000
Subject: [PATCH 26/55] fix: comprehensions and reductions of a negative size
 are empty

---
 ein/codegen/phi_to_yarr.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index f402a48..2fd2860 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -270,8 +270,9 @@ def transform(
                 assert (
                     not size.type.free_indices
                 ), "Cannot compile index comprehension with index-dependent size"
-                return go(target_, index_sizes | {index: size.normal}, var_axes).along(
-                    index, size.expr
+                length = non_negative(size.normal)
+                return go(target_, index_sizes | {index: length}, var_axes).along(
+                    index, length
                 )
             case phi.AbstractScalarOperator(operands_):
                 ops = [go(op, index_sizes, var_axes) for op in operands_]
@@ -333,6 +334,17 @@ def transform(
     return array_program
 
 
+def non_negative(size: yarr.Expr) -> yarr.Expr:
+    # Comprehensions (and reductions realised as such) of a negative size are empty
+    match size:
+        case yarr.Dim():
+            return size
+        case yarr.Const(value) if value.array >= 0:
+            return size
+    zero = yarr.Const(phi.Value(0))
+    return yarr.BinaryElementwise(yarr.BinaryElementwise.Kind.maximum, size, zero)
+
+
 def cancel_shape_ops(program: yarr.Expr) -> yarr.Expr:
     @cache
     def go(expr: yarr.Expr) -> yarr.Expr:
-- 
2.43.0


From a77b9560a26b9c5414fb3039d96a35df8cf9e07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:28 +0000
Subject: [PATCH 27/55] fix: JAX gathers may have no elements

---
 ein/backend/jax_backend.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 4338225..7c9e85c 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -69,6 +69,13 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
 
     def gather(self, target: jnp.ndarray, item: jnp.ndarray, axis: int) -> jnp.ndarray:
         target = non_empty_at(target, (axis,))
+        shape = list(jnp.broadcast_shapes(
+            target.shape[:axis] + (1,) + target.shape[axis + 1 :],
+            item.shape[:axis] + (1,) + item.shape[axis + 1 :],
+        ))
+        shape[axis] = item.shape[axis]
+        if not all(shape):
+            return jnp.zeros(shape, dtype=target.dtype)
         return jnp.take_along_axis(
             target, jnp.clip(item, 0, target.shape[axis] - 1), axis
         )
-- 
2.43.0


From e83104ee1e59a09336daae74a3cbfe5767f8b0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:28 +0000
Subject: [PATCH 28/55] fix: JAX sizes may be cast to floats

---
 ein/backend/jax_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 7c9e85c..27b7250 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -200,7 +200,7 @@ def stage_in_array(
                 return lambda env: call(target(env), axis=axis)
             case yarr.Cast(dtype, target_):
                 target = go(target_)
-                return lambda env: target(env).astype(dtype)
+                return lambda env: jnp.asarray(target(env)).astype(dtype)
             case yarr.UnaryElementwise(kind, target_):
                 target = go(target_)
                 call = ELEMENTWISE[kind]
-- 
2.43.0


From 604797b4dd694d29588144b1d0f6dac66e3a0291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:28 +0000
Subject: [PATCH 29/55] fix: JAX sizes are known at compile-time inside of
 folds

---
 ein/backend/jax_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 27b7250..3c184bf 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -120,7 +120,9 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
             def jax_body(i, acc):
                 env[acc_var] = acc
                 env[index_var] = i
-                ret = body(env)
+                # As outside of the loop, sizes must be known when it is compiled
+                with jax.ensure_compile_time_eval():
+                    ret = body(env)
                 del env[acc_var], env[index_var]
                 return ret
 
-- 
2.43.0


From 946adff4052d8f2b6116c30f5badce9641c39230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:28 +0000
Subject: [PATCH 30/55] fix: JAX slices and reductions only have bounds known
 at compile-time

---
 ein/backend/jax_backend.py    |  2 +-
 ein/codegen/array_indexing.py | 19 +++++++++++++++++--
 ein/codegen/phi_to_yarr.py    |  6 +++++-
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 3c184bf..5ec6efe 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -227,7 +227,7 @@ def stage_in_array(
 def stage(
     program: phi.Expr,
 ) -> Callable[[dict[Variable, jnp.ndarray]], jnp.ndarray | tuple[jnp.ndarray, ...]]:
-    array_program = phi_to_yarr.transform(program)
+    array_program = phi_to_yarr.transform(program, allow_dynamic_shapes=False)
     with jax.ensure_compile_time_eval():
         staged = stage_in_array(array_program)
     free_vars = list(array_program.free_variables)
diff --git a/ein/codegen/array_indexing.py b/ein/codegen/array_indexing.py
index 0c8f966..3a165f4 100644
--- a/ein/codegen/array_indexing.py
+++ b/ein/codegen/array_indexing.py
@@ -72,6 +72,7 @@ def transform_get(
     *,
     use_takes: bool,
     use_slice_pads: bool,
+    allow_dynamic_shapes: bool,
     use_slice_elision: bool,
 ) -> Axial:
     target = go(target_)
@@ -81,8 +82,12 @@ def transform_get(
         index, (shift, low, high) = ts
         axes = target._axes + (index,)
         # The shift and bounds may be index-dependent through an accumulator
-        bounds = [go(bound) for bound in (shift, low, high) if bound is not None]
-        if index not in target._axes and not any(bound._axes for bound in bounds):
+        bounds_ = [bound for bound in (shift, low, high) if bound is not None]
+        if (
+            index not in target._axes
+            and not any(go(bound)._axes for bound in bounds_)
+            and (allow_dynamic_shapes or all(map(is_static, bounds_)))
+        ):
             is_trivial = {shift, low, high} == {None}
             dim = _dim_of(target_, 0)
             if use_slice_elision and is_trivial and size_class.equiv(index, dim):
@@ -117,6 +122,16 @@ def transform_get(
     return general_get(target, item)
 
 
+def is_static(expr: phi.Expr) -> bool:
+    # Value is known once shapes of inputs are known
+    match expr:
+        case phi.Const() | phi.Dim():
+            return True
+        case phi.AbstractScalarOperator(operands):
+            return all(map(is_static, operands))
+    return False
+
+
 def _put_at(n: int, p: int, x: T) -> tuple[T | None, ...]:
     return p * (None,) + (x,) + (n - p - 1) * (None,)
 
diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 2fd2860..38aa6ba 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -27,6 +27,7 @@ def transform(
     *,
     use_takes: bool = True,
     use_slice_pads: bool = True,
+    allow_dynamic_shapes: bool = True,
     use_slice_elision: bool = True,
     use_reductions: bool = True,
     use_einsum: bool = True,
@@ -159,7 +160,9 @@ def transform(
                                     ),
                                 ),
                             )
-                if use_reductions:
+                if use_reductions and (
+                    allow_dynamic_shapes or array_indexing.is_static(size_)
+                ):
                     reduced = match_reduction(
                         *(counter, size_, acc, init_, body_, size_class),  #
                         lambda sub: go(sub, index_sizes, var_axes),
@@ -249,6 +252,7 @@ def transform(
                     index_sizes,
                     use_takes=use_takes,
                     use_slice_pads=use_slice_pads,
+                    allow_dynamic_shapes=allow_dynamic_shapes,
                     use_slice_elision=use_slice_elision,
                 )
             case phi.Concat(first_, second_):
-- 
2.43.0


From b95586378949edf0b45bb10353ee6c44ea98d3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:04 +0000
Subject: [PATCH 31/55] fix: NumPy interpretation does not modify the given
 environment

---
 ein/backend/numpy_backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ein/backend/numpy_backend.py b/ein/backend/numpy_backend.py
index 05f32dd..fd6a679 100644
--- a/ein/backend/numpy_backend.py
+++ b/ein/backend/numpy_backend.py
@@ -215,4 +215,5 @@ def stage(
 
 
 def interpret(program: phi.Expr, env: dict[Variable, numpy.ndarray]) -> numpy.ndarray:
-    return stage(program)(env)
+    # Execution binds variables in the environment, which should not affect the given one
+    return stage(program)(dict(env))
-- 
2.43.0


From de058abddd6a948628061b3c2f53fe94e71715dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:04 +0000
Subject: [PATCH 32/55] fix: pretty-printing keeps symbols bound by copies of a
 term distinct

---
 ein/debug/pprint.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ein/debug/pprint.py b/ein/debug/pprint.py
index 47ede5c..75dfc03 100644
--- a/ein/debug/pprint.py
+++ b/ein/debug/pprint.py
@@ -6,6 +6,7 @@ import numpy
 from ein.codegen import phi_to_yarr, yarr
 from ein.midend.lining import outline
 from ein.midend.structs import struct_of_arrays_transform
+from ein.midend.substitution import with_unique_binders
 from ein.phi import phi
 
 
@@ -365,9 +366,8 @@ def _pretty_yarr(expr: yarr.Expr, par: bool) -> Repr:
 
 
 def pretty_phi(expr: phi.Expr, width: int = 80, indent: int = 2) -> str:
-    return _pretty_phi(outline(struct_of_arrays_transform(expr)), False).repr(
-        width, indent, 0
-    )
+    expr = with_unique_binders(struct_of_arrays_transform(expr))
+    return _pretty_phi(outline(expr), False).repr(width, indent, 0)
 
 
 def pretty_yarr(expr: yarr.Expr, width: int = 60, indent: int = 2) -> str:
-- 
2.43.0


From 36bdd7029bf901288329fa7243db03ab71630aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:24 +0000
Subject: [PATCH 33/55] fix: Torch contractions of operands of differing widths

---
 ein/backend/torch_backend.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 63f80f0..23aca31 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -1,4 +1,4 @@
-from functools import cache
+from functools import cache, reduce
 from typing import Any, Callable, Optional, Sequence, TypeAlias, cast
 
 import numpy
@@ -117,7 +117,12 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
         return torch.repeat_interleave(target, int(count), axis)
 
     def prepare_einsum(self, subs: str) -> Callable[..., torch.Tensor]:
-        return lambda *args: torch.einsum(subs, *args)
+        def call(*args: torch.Tensor) -> torch.Tensor:
+            # Unlike for elementwise operations, operand widths are not promoted
+            dtype = reduce(torch.promote_types, (arg.dtype for arg in args))
+            return torch.einsum(subs, *(arg.to(dtype) for arg in args))
+
+        return call
 
 
 INSTANCE = TorchBackend()
-- 
2.43.0


From 4b6e3980e3c9c589148e174964c357331516fefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:21 +0000
Subject: [PATCH 34/55] fix: comparing copies of programs with shared
 subexpressions is not exponential

---
 ein/term.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/ein/term.py b/ein/term.py
index 8bbe78e..ded03ed 100644
--- a/ein/term.py
+++ b/ein/term.py
@@ -32,7 +32,24 @@ class Term(abc.ABC):
             return False
         if self is other:
             return True
-        return self._fields == other._fields
+        first, second = self._representative, other._representative
+        if first is second:
+            return True
+        if self._fields != other._fields:
+            return False
+        # Terms found equal are linked, as comparing copies of a term with shared subterms
+        # would otherwise be exponential. Links are ordered, so there are no cycles.
+        if id(first) < id(second):
+            first, second = second, first
+        first.__dict__["_equal_to"] = second
+        return True
+
+    @property
+    def _representative(self) -> "Term":
+        term = self
+        while "_equal_to" in term.__dict__:
+            term = term.__dict__["_equal_to"]
+        return term
 
     def __hash__(self) -> int:
         return self.hash
-- 
2.43.0


From 239fce4c596ed0609160b3324b2af98e9e47a20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:21 +0000
Subject: [PATCH 35/55] fix: Torch evaluation accepts arrays with negative
 strides

---
 ein/backend/torch_backend.py | 13 +++++++++----
 ein/frontend/functions.py    |  5 ++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 23aca31..4c03692 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -35,9 +35,7 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     def constant(self, value: Value) -> torch.Tensor:
         if isinstance(value.value, torch.Tensor):
             return value.value
-        array = value.array
-        ret = torch.from_numpy(array)
-        return ret
+        return to_tensor(value.array)
 
     def preprocess_bound(self, target: torch.Tensor) -> torch.Tensor:
         return target
@@ -128,6 +126,13 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
 INSTANCE = TorchBackend()
 
 
+def to_tensor(array: numpy.ndarray) -> torch.Tensor:
+    # Negative strides are not supported by tensors
+    if any(stride < 0 for stride in array.strides):
+        array = array.copy()
+    return torch.from_numpy(array)
+
+
 def non_empty_at(target: torch.Tensor, axes: Sequence[int]) -> torch.Tensor:
     # An element of an empty axis may be anything, but accessing it is not an error
     if all(target.shape[axis] for axis in axes):
@@ -199,7 +204,7 @@ def interpret(
 ) -> torch.Tensor | tuple[torch.Tensor, ...]:
     return stage(program)(
         {
-            var: torch.from_numpy(numpy.asarray(arr))
+            var: to_tensor(numpy.asarray(arr))
             if not isinstance(arr, torch.Tensor)
             else arr
             for var, arr in env.items()
diff --git a/ein/frontend/functions.py b/ein/frontend/functions.py
index 1e3c5ee..1090482 100644
--- a/ein/frontend/functions.py
+++ b/ein/frontend/functions.py
@@ -56,11 +56,10 @@ class Function:
         return self._interpret(args, backend="numpy")
 
     def torch(self, *args: ndarray | _TorchTensor) -> _TorchTensor:
-        import torch
+        from ein.backend.torch_backend import to_tensor
 
         args = tuple(
-            arg if isinstance(arg, _TorchTensor) else torch.from_numpy(arg)
-            for arg in args
+            arg if isinstance(arg, _TorchTensor) else to_tensor(arg) for arg in args
         )
         return self._interpret(args, backend="torch")
 
-- 
2.43.0


From cff0877a8ea18728246c9d2e7b06789dc7c97890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:17 +0000
Subject: [PATCH 36/55] fix: Torch contractions of empty operands

---
 ein/backend/torch_backend.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 4c03692..f902cbd 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -115,7 +115,19 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
         return torch.repeat_interleave(target, int(count), axis)
 
     def prepare_einsum(self, subs: str) -> Callable[..., torch.Tensor]:
+        op_subs, res_subs = subs.split("->")
+        ops_subs = op_subs.split(",")
+
         def call(*args: torch.Tensor) -> torch.Tensor:
+            if not all(arg.numel() for arg in args):
+                # Contraction order cannot be optimised for empty operands, but there are no summands
+                dims = {
+                    axis: dim
+                    for curr_subs, arg in zip(ops_subs, args)
+                    for axis, dim in zip(curr_subs, arg.shape)
+                }
+                zero = sum(arg.flatten()[:0].sum() for arg in args)
+                return cast(torch.Tensor, zero).expand([dims[a] for a in res_subs])
             # Unlike for elementwise operations, operand widths are not promoted
             dtype = reduce(torch.promote_types, (arg.dtype for arg in args))
             return torch.einsum(subs, *(arg.to(dtype) for arg in args))
-- 
2.43.0


From cb68a6e2f40bd12a10e16e7ab8e6010cb4ff6d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:16 +0000
Subject: [PATCH 37/55] fix: programs with tensors as constants can be printed

---
 ein/debug/pprint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ein/debug/pprint.py b/ein/debug/pprint.py
index 75dfc03..b4e04b2 100644
--- a/ein/debug/pprint.py
+++ b/ein/debug/pprint.py
@@ -151,7 +151,7 @@ def _pretty_reduce(
 def _pretty_phi(expr: phi.Expr, par: bool) -> Repr:
     match expr:
         case phi.Const(value):
-            value = numpy.array(value.array).tolist()
+            value = value.any_array.tolist()
             return Line(str(value))
         case phi.Store(symbol, _):
             return Line(str(symbol))
@@ -252,7 +252,7 @@ def _pretty_phi(expr: phi.Expr, par: bool) -> Repr:
 def _pretty_yarr(expr: yarr.Expr, par: bool) -> Repr:
     match expr:
         case yarr.Const(value):
-            value = numpy.array(value.array).tolist()
+            value = value.any_array.tolist()
             return Line(str(value))
         case yarr.Var(var, _):
             return Line(str(var))
-- 
2.43.0


From 39636f701a21584d291373ac2f9a51117ed76d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:16 +0000
Subject: [PATCH 38/55] fix: sizes given as tensors

---
 ein/codegen/phi_to_yarr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index 38aa6ba..dc394da 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -343,7 +343,7 @@ def non_negative(size: yarr.Expr) -> yarr.Expr:
     match size:
         case yarr.Dim():
             return size
-        case yarr.Const(value) if value.array >= 0:
+        case yarr.Const(value) if value.any_array >= 0:
             return size
     zero = yarr.Const(phi.Value(0))
     return yarr.BinaryElementwise(yarr.BinaryElementwise.Kind.maximum, size, zero)
-- 
2.43.0


From ff59df296b25ac771d130ab3a42688beed3dbc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:10 +0000
Subject: [PATCH 39/55] fix: tensors of 8-bit integers are accepted

---
 ein/phi/type_system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ein/phi/type_system.py b/ein/phi/type_system.py
index ab670dc..c34310d 100644
--- a/ein/phi/type_system.py
+++ b/ein/phi/type_system.py
@@ -9,6 +9,8 @@ try:
     import torch
 
     _TORCH_DTYPE_MAP = {
+        torch.uint8: numpy.uint8,
+        torch.int8: numpy.int8,
         torch.int16: numpy.int16,
         torch.int32: numpy.int32,
         torch.int64: numpy.int64,
-- 
2.43.0


From e0945401e5f80e481bd0c91f1ec28fbdb3d7c9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:10 +0000
Subject: [PATCH 40/55] fix: Torch indexing accepts indices of any integer
 width

---
 ein/backend/torch_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index f902cbd..6205e82 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -64,7 +64,7 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
         self, target: torch.Tensor, item: torch.Tensor, axis: int
     ) -> torch.Tensor:
         target = non_empty_at(target, (axis,))
-        item = torch.clip(item, 0, target.shape[axis] - 1)
+        item = torch.clip(item.long(), 0, target.shape[axis] - 1)
         # torch.gather does not broadcast
         shape = list(
             torch.broadcast_shapes(
@@ -83,7 +83,7 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
             target, [axis for axis, item in enumerate(items) if item is not None]
         )
         it = (
-            torch.clip(item, 0, dim - 1) if item is not None else SLICE_NONE
+            torch.clip(item.long(), 0, dim - 1) if item is not None else SLICE_NONE
             for dim, item in zip(target.shape, items)
         )
         return target[*it]
-- 
2.43.0


From 981e3cad5954ed761a6d4f4647439af09ace0736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:21 +0000
Subject: [PATCH 41/55] fix: JAX folds whose initialiser is narrower than their
 body

---
 ein/backend/jax_backend.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 5ec6efe..2594067 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -117,7 +117,7 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         body: Callable,
     ) -> Callable:
         def jax_fold_impl(env):
-            def jax_body(i, acc):
+            def jax_step(i, acc):
                 env[acc_var] = acc
                 env[index_var] = i
                 # As outside of the loop, sizes must be known when it is compiled
@@ -126,7 +126,23 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
                 del env[acc_var], env[index_var]
                 return ret
 
-            return jax.lax.fori_loop(0, jnp.maximum(count(env), 0), jax_body, init(env))
+            def jax_body(i, acc):
+                return jax.tree.map(
+                    lambda r, a: jnp.asarray(r, a.dtype), jax_step(i, acc), acc
+                )
+
+            acc = jax.tree.map(jnp.asarray, init(env))
+            # The datatype of the accumulator may not change between iterations
+            while any(a.dtype not in WIDEST for a in jax.tree.leaves(acc)):
+                ret = jax.eval_shape(jax_step, 0, acc)
+                old = acc
+                acc = jax.tree.map(
+                    lambda a, r: a.astype(jnp.promote_types(a.dtype, r.dtype)), old, ret
+                )
+                if all(a.dtype == b.dtype for a, b in zip(*map(jax.tree.leaves, (acc, old)))):
+                    break
+
+            return jax.lax.fori_loop(0, jnp.maximum(count(env), 0), jax_body, acc)
 
         return jax_fold_impl
 
@@ -174,6 +190,7 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
 
 
 INSTANCE = JaxBackend()
+WIDEST = (numpy.bool_, numpy.int64, numpy.float64)
 
 
 def non_empty_at(target: jnp.ndarray, axes: Sequence[int]) -> jnp.ndarray:
-- 
2.43.0


From a786d13971b4314f85ec26fade1ced2be64cb2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:02 +0000
Subject: [PATCH 42/55] fix: matrices (and further nestings) of records

---
 ein/midend/structs.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ein/midend/structs.py b/ein/midend/structs.py
index ee0052f..5d87efc 100644
--- a/ein/midend/structs.py
+++ b/ein/midend/structs.py
@@ -27,12 +27,15 @@ F = TypeVar("F")
 
 def _soa_transform_type(type_: Type) -> Type:
     match type_:
-        case Vector(Pair(first, second)):
-            return Pair(
-                _soa_transform_type(Vector(first)), _soa_transform_type(Vector(second))
-            )
         case Vector(elem):
-            return Vector(_soa_transform_type(elem))
+            match _soa_transform_type(elem):
+                case Pair(first, second):
+                    return Pair(
+                        _soa_transform_type(Vector(first)),
+                        _soa_transform_type(Vector(second)),
+                    )
+                case elem_:
+                    return Vector(elem_)
         case Pair(first, second):
             return Pair(_soa_transform_type(first), _soa_transform_type(second))
         case Scalar():
-- 
2.43.0


From 884936d31f6f78fbc179aaf721f7e081ed4edfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:14 +0000
Subject: [PATCH 43/55] fix: size inference is not exponential in layers of
 shared comprehensions

---
 ein/frontend/comprehension.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ein/frontend/comprehension.py b/ein/frontend/comprehension.py
index eda55c1..705227d 100644
--- a/ein/frontend/comprehension.py
+++ b/ein/frontend/comprehension.py
@@ -62,6 +62,8 @@ def _infer_sizes(
     visited: set[tuple[Expr, frozenset[Symbol]]] = set()
 
     def go(sub: Expr, captured: set[Symbol]) -> Expr:
+        # Only captures of symbols occurring in the subexpression may matter
+        captured = captured & sub.free_symbols
         if (sub, frozenset(captured)) in visited:
             return sub
         visited.add((sub, frozenset(captured)))
-- 
2.43.0


From ffd2949dfe50dbd69ba5c27153b08a49c210e888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:22 +0000
Subject: [PATCH 44/55] fix: Torch transposes scalars

---
 ein/backend/torch_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/backend/torch_backend.py b/ein/backend/torch_backend.py
index 6205e82..443ac32 100644
--- a/ein/backend/torch_backend.py
+++ b/ein/backend/torch_backend.py
@@ -52,7 +52,7 @@ class TorchBackend(AbstractArrayBackend[torch.Tensor]):
     def transpose(
         self, target: torch.Tensor, permutation: tuple[int, ...]
     ) -> torch.Tensor:
-        return target.permute(*permutation)
+        return target.permute(permutation)
 
     def squeeze(self, target: torch.Tensor, axes: tuple[int, ...]) -> torch.Tensor:
         return squeeze_axes(target, axes)
-- 
2.43.0


From 7dc3c7ab86aa0e474698ba78534a898c67e680fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:02 +0000
Subject: [PATCH 45/55] fix: outlining programs with unused bindings

---
 ein/midend/lining.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ein/midend/lining.py b/ein/midend/lining.py
index 8930878..c4efff7 100644
--- a/ein/midend/lining.py
+++ b/ein/midend/lining.py
@@ -111,6 +111,8 @@ def outline(program: Term) -> Term:
 
 
 def outline(program: Term) -> Term:
+    # Get rid of any existing let-bindings (possibly ones that are not used)
+    program = inline(program)
     free_symbols = program.free_symbols
 
     def check(prog: Term, tree: bool) -> None:
@@ -129,9 +131,6 @@ def outline(program: Term) -> Term:
             free_symbols == prog.free_symbols
         ), f"Internal error: free symbol set changed from {free_symbols} to {prog.free_symbols}"
 
-    # Get rid of any existing let-bindings
-    program = inline(program)
-    check(program, tree=False)
     # Bind subexpressions so they occur at most once, creating a syntax tree
     program = _apply_insertions(program, _bind_common_subexpressions(program))
     check(program, tree=True)
-- 
2.43.0


From 592143b473bfc6a16bd8d6e455ae911ad4e57ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:22 +0000
Subject: [PATCH 46/55] fix: only integers are accepted as indices

---
 ein/phi/phi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/phi/phi.py b/ein/phi/phi.py
index 378ae77..b25d292 100644
--- a/ein/phi/phi.py
+++ b/ein/phi/phi.py
@@ -242,7 +242,7 @@ class Get(AbstractExpr):
             raise TypeError(f"Cannot index a non-array type {self.operand.type}")
         if not isinstance(self.item.type, Scalar):
             raise TypeError(f"Cannot index with a non-scalar type {self.item.type}")
-        if not isinstance(self.item.type, Scalar):
+        if self.item.type.kind != int:
             raise TypeError(f"Cannot index with a non-integer type {self.item.type}")
         return self.operand.type.elem
 
-- 
2.43.0


From 36491dd18d722db0fa5d4ad1c059c89db3e914cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:42 +0000
Subject: [PATCH 47/55] fix: pretty-printing takes time exponential in the
 nesting of a program

---
 ein/debug/pprint.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ein/debug/pprint.py b/ein/debug/pprint.py
index b4e04b2..0d02ffa 100644
--- a/ein/debug/pprint.py
+++ b/ein/debug/pprint.py
@@ -1,5 +1,5 @@
 import abc
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 
 import numpy
 
@@ -44,8 +44,19 @@ class Concat(Repr):
 @dataclass(frozen=True)
 class Nest(Repr):
     blocks: tuple[tuple[str, Repr, str], ...]
+    _cache: dict[tuple[int, int, int], str] = field(
+        default_factory=dict, init=False, repr=False, compare=False
+    )
 
     def repr(self, width: int, indent: int, after: int) -> str:
+        # Blocks that do not fit on a line are laid out twice by the enclosing block,
+        # so without remembering the layout this takes time exponential in the nesting
+        key = (width, indent, after)
+        if key not in self._cache:
+            self._cache[key] = self._repr(width, indent, after)
+        return self._cache[key]
+
+    def _repr(self, width: int, indent: int, after: int) -> str:
         result: list[str] = []
         for prefix, block, suffix in self.blocks:
             curr_line = (("".join(result) + prefix).splitlines() or ["?" * after])[-1]
-- 
2.43.0


From dad80a6379a324eddb2a9d6ce72488d97b253cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:59 +0000
Subject: [PATCH 48/55] fix: saving a graph to a path with an extension

---
 ein/debug/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ein/debug/graph.py b/ein/debug/graph.py
index bb1560e..2af5461 100644
--- a/ein/debug/graph.py
+++ b/ein/debug/graph.py
@@ -91,7 +91,7 @@ def save_graph(dot: pydot.Dot, path: str, fmt: str | None = None) -> None:
     if fmt is None:
         path_no_ext, ext = os.path.splitext(path)
         if ext:
-            fmt = ext
+            fmt = ext.removeprefix(".")
             path = path_no_ext
         else:
             fmt = "png"
-- 
2.43.0


From 767eb3d710224a364ecaee9c345c862ef86f1d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:14 +0000
Subject: [PATCH 49/55] fix: pretty-printing concatenations, gathers,
 contractions and external calls

---
 ein/debug/pprint.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/ein/debug/pprint.py b/ein/debug/pprint.py
index 0d02ffa..ecba2eb 100644
--- a/ein/debug/pprint.py
+++ b/ein/debug/pprint.py
@@ -1,5 +1,6 @@
 import abc
 from dataclasses import dataclass, field
+from typing import Callable
 
 import numpy
 
@@ -159,6 +160,10 @@ def _pretty_reduce(
     )
 
 
+def _pretty_extrinsic(fun: Callable, *args: Repr) -> Repr:
+    return _pretty_call(f"ext[{getattr(fun, '__name__', repr(fun))}]", *args)
+
+
 def _pretty_phi(expr: phi.Expr, par: bool) -> Repr:
     match expr:
         case phi.Const(value):
@@ -257,6 +262,12 @@ def _pretty_phi(expr: phi.Expr, par: bool) -> Repr:
                     case (op1, op2):
                         return pars(Concat((op1, Line(f" {sign} "), op2)), par)
             return _pretty_call(type(expr).__name__.lower(), *ops)
+        case phi.Concat(first, second):
+            return _pretty_call(
+                "concat", _pretty_phi(first, False), _pretty_phi(second, False)
+            )
+        case phi.Extrinsic(_, fun, ops_):
+            return _pretty_extrinsic(fun, *(_pretty_phi(op, False) for op in ops_))
     return Line(str(expr))
 
 
@@ -372,6 +383,20 @@ def _pretty_yarr(expr: yarr.Expr, par: bool) -> Repr:
             return _pretty_call(
                 f"reduce[{kind.name}, axis={axis}]", _pretty_yarr(target_, False)
             )
+        case yarr.Concat(operands_, axis):
+            operands = [_pretty_yarr(o_, False) for o_ in operands_]
+            return _pretty_call(f"concat[axis={axis}]", *operands)
+        case yarr.Gather(axis, target_, item):
+            return _pretty_call(
+                f"gather[axis={axis}]",
+                _pretty_yarr(target_, False),
+                _pretty_yarr(item, False),
+            )
+        case yarr.Einsum(subs, operands_):
+            operands = [_pretty_yarr(o_, False) for o_ in operands_]
+            return _pretty_call(f"einsum[{subs}]", *operands)
+        case yarr.Extrinsic(_, fun, operands_):
+            return _pretty_extrinsic(fun, *(_pretty_yarr(o_, False) for o_ in operands_))
 
     return Line(str(expr))
 
@@ -390,8 +415,6 @@ def pretty_yarr_of_phi(expr: phi.Expr, width: int = 60, indent: int = 2) -> str:
 
 
 if __name__ == "__main__":
-    from typing import Callable
-
     import numpy
 
     from ein import Float, Int, Vec, array, fold, function, ndarray_type, wrap
-- 
2.43.0


From 0f0a4963dea8ae8574b35eba28ba27d9fa06bbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:36 +0000
Subject: [PATCH 50/55] fix: graphs of programs with external functions

---
 ein/debug/graph.py | 17 ++++++++++-------
 ein/phi/phi.py     |  2 +-
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/ein/debug/graph.py b/ein/debug/graph.py
index 2af5461..d696354 100644
--- a/ein/debug/graph.py
+++ b/ein/debug/graph.py
@@ -18,13 +18,16 @@ def _snip_limit(s: str, n: int) -> str:
 
 
 def _meta_value_repr(value: Any) -> str:
-    return _snip_limit(
-        str(
-            html.escape(repr(value))
-            if not hasattr(value, "__call__") or not hasattr(value, "__name__")
-            else value.__name__
-        ),
-        30,
+    # Escape only after shortening, which might cut in the middle of an escape sequence
+    return html.escape(
+        _snip_limit(
+            str(
+                repr(value)
+                if not hasattr(value, "__call__") or not hasattr(value, "__name__")
+                else value.__name__
+            ),
+            30,
+        )
     )
 
 
diff --git a/ein/phi/phi.py b/ein/phi/phi.py
index b25d292..a215358 100644
--- a/ein/phi/phi.py
+++ b/ein/phi/phi.py
@@ -626,7 +626,7 @@ class Extrinsic(AbstractExpr):
 
     @property
     def debug(self) -> tuple[dict[str, Any], set[Expr]]:
-        return {"fun": self.fun.__name__}, {*self.operands}
+        return {"fun": getattr(self.fun, "__name__", repr(self.fun))}, {*self.operands}
 
     @cached_property
     def type(self) -> Type:
-- 
2.43.0


From 0055d4abd5be745346fa64e0a87b261e50c4b32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 51/55] fix: absolute value of zero is not a negative zero

---
 ein/frontend/ndarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ein/frontend/ndarray.py b/ein/frontend/ndarray.py
index 366b8aa..a22ae3e 100644
--- a/ein/frontend/ndarray.py
+++ b/ein/frontend/ndarray.py
@@ -357,7 +357,8 @@ class Scalar(_Array):
 
     def abs(self) -> "Scalar":
         zero = 0 if self.expr.type == ScalarType(int) else 0.0
-        return (self > zero).where(self, -self)
+        # Subtract, as negating a positive zero would give a negative one
+        return (self > zero).where(self, wrap(zero) - self)
 
     __abs__ = abs
 
-- 
2.43.0


From a48032eeb0b9ec4997f1350e1cd384c8bf37778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:07 +0000
Subject: [PATCH 52/55] fix: loop-invariant code motion of expressions with
 let-bound variables

---
 ein/midend/lining.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ein/midend/lining.py b/ein/midend/lining.py
index c4efff7..b5df682 100644
--- a/ein/midend/lining.py
+++ b/ein/midend/lining.py
@@ -134,11 +134,14 @@ def outline(program: Term) -> Term:
     # Bind subexpressions so they occur at most once, creating a syntax tree
     program = _apply_insertions(program, _bind_common_subexpressions(program))
     check(program, tree=True)
-    # Extract loop-independent expressions out of containing loops into a wrapping binding
-    program = _apply_insertions(program, _loop_invariant_code_motion(program))
-    check(program, tree=True)
     program = inline(program, only_renames=True)
-    check(program, tree=True)
+    # Extract loop-independent expressions out of containing loops into a wrapping binding
+    # Moving a binding out of a loop might make expressions with its variable loop-independent
+    while insertions := _loop_invariant_code_motion(program):
+        program = _apply_insertions(program, insertions)
+        check(program, tree=True)
+        program = inline(program, only_renames=True)
+        check(program, tree=True)
     return program
 
 
-- 
2.43.0


From daa3d5743315f641e7bee6016fc50ee55fde710a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:03 +0000
Subject: [PATCH 53/55] fix: sums of contractions over different axes

---
 ein/codegen/phi_to_yarr.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/ein/codegen/phi_to_yarr.py b/ein/codegen/phi_to_yarr.py
index dc394da..6726ce5 100644
--- a/ein/codegen/phi_to_yarr.py
+++ b/ein/codegen/phi_to_yarr.py
@@ -147,19 +147,8 @@ def transform(
                                 break
                             summands.append(in_array)
                         else:
-                            used_axes = axial._alignment(*(op._axes for op in summands))
-                            return Axial(
-                                used_axes,
-                                functools.reduce(
-                                    lambda a, b: yarr.BinaryElementwise(
-                                        yarr.BinaryElementwise.Kind.add, a, b
-                                    ),
-                                    (
-                                        op.aligned(used_axes, leftpad=False)
-                                        for op in summands
-                                    ),
-                                ),
-                            )
+                            # Partial sums are aligned, so that they are not broadcast later
+                            return functools.reduce(add_in_axial, summands)
                 if use_reductions and (
                     allow_dynamic_shapes or array_indexing.is_static(size_)
                 ):
@@ -338,6 +327,17 @@ def transform(
     return array_program
 
 
+def add_in_axial(first: Axial, second: Axial) -> Axial:
+    used_axes = axial._alignment(first._axes, second._axes)
+    return Axial(
+        used_axes,
+        yarr.BinaryElementwise(
+            yarr.BinaryElementwise.Kind.add,
+            *(op.aligned(used_axes, leftpad=False) for op in (first, second)),
+        ),
+    )
+
+
 def non_negative(size: yarr.Expr) -> yarr.Expr:
     # Comprehensions (and reductions realised as such) of a negative size are empty
     match size:
-- 
2.43.0


From b7e88f5b4a83cebf66849ca27f9f6815f9b7ce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:51 +0000
Subject: [PATCH 54/55] fix: JAX lookups by indices of narrow integer types

---
 ein/backend/jax_backend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ein/backend/jax_backend.py b/ein/backend/jax_backend.py
index 2594067..e13e6e7 100644
--- a/ein/backend/jax_backend.py
+++ b/ein/backend/jax_backend.py
@@ -77,7 +77,7 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
         if not all(shape):
             return jnp.zeros(shape, dtype=target.dtype)
         return jnp.take_along_axis(
-            target, jnp.clip(item, 0, target.shape[axis] - 1), axis
+            target, jnp.clip(item.astype(int), 0, target.shape[axis] - 1), axis
         )
 
     def take(
@@ -88,7 +88,9 @@ class JaxBackend(AbstractArrayBackend[jnp.ndarray]):
             target, [axis for axis, item in enumerate(items) if item is not None]
         )
         it: Any = (
-            jnp.clip(item, 0, dim - 1) if item is not None else SLICE_NONE
+            jnp.clip(jnp.asarray(item, dtype=int), 0, dim - 1)
+            if item is not None
+            else SLICE_NONE
             for dim, item in zip(target.shape, items)
         )
         return target[*it]
-- 
2.43.0


From 05606ba14e5b151b41ec3d9317a8e4718bf7e605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:51 +0000
Subject: [PATCH 55/55] fix: constants refilled after being equal are told
 apart

---
 ein/term.py | 43 ++++++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/ein/term.py b/ein/term.py
index ded03ed..5b0ffa4 100644
--- a/ein/term.py
+++ b/ein/term.py
@@ -26,31 +26,28 @@ class Term(abc.ABC):
         return hash((type(self), self._fields))
 
     def __eq__(self, other) -> bool:
-        if type(self) != type(other):
-            return False
-        if self.hash != other.hash:
-            return False
-        if self is other:
-            return True
-        first, second = self._representative, other._representative
-        if first is second:
-            return True
-        if self._fields != other._fields:
-            return False
-        # Terms found equal are linked, as comparing copies of a term with shared subterms
-        # would otherwise be exponential. Links are ordered, so there are no cycles.
-        if id(first) < id(second):
-            first, second = second, first
-        first.__dict__["_equal_to"] = second
+        # Pairs of terms are compared once, as comparing copies of a term
+        # with shared subterms would otherwise be exponential
+        compared: set[tuple[int, int]] = set()
+        pairs: list[tuple[Any, Any]] = [(self, other)]
+        while pairs:
+            first, second = pairs.pop()
+            if first is second:
+                continue
+            if isinstance(first, tuple) and isinstance(second, tuple):
+                if len(first) != len(second):
+                    return False
+                pairs.extend(zip(first, second))
+            elif isinstance(first, Term):
+                if type(first) != type(second) or first.hash != second.hash:
+                    return False
+                if (id(first), id(second)) not in compared:
+                    compared.add((id(first), id(second)))
+                    pairs.append((first._fields, second._fields))
+            elif first != second:
+                return False
         return True
 
-    @property
-    def _representative(self) -> "Term":
-        term = self
-        while "_equal_to" in term.__dict__:
-            term = term.__dict__["_equal_to"]
-        return term
-
     def __hash__(self) -> int:
         return self.hash
 
-- 
2.43.0

