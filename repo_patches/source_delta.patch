From ee02c11be9aff8c9fe716c482560b09dc7fee7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 01/29] fix: register the SQRTSWAP, ISWAP and ISQRTSWAP
 matrices

The gate constructors exist but applying them raised KeyError.
---
 horqrux/matrices.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/horqrux/matrices.py b/horqrux/matrices.py
index 19128df..dab8f7a 100644
--- a/horqrux/matrices.py
+++ b/horqrux/matrices.py
@@ -53,6 +53,9 @@ OPERATIONS_DICT = {
     "T": _T,
     "I": _I,
     "SWAP": _SWAP,
+    "SQSWAP": _SQSWAP,
+    "ISWAP": _ISWAP,
+    "ISQSWAP": _ISQSWAP,
 }
 
 SPARSE_OPERATIONS_DICT = {k: BCOO.fromdense(mat) for k, mat in OPERATIONS_DICT.items()}
-- 
2.43.0


From cc273fcda5a0b9d502a397b2540ec120e8b5940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 02/29] fix: honour numpy integer control qubits

is_controlled only recognised python ints, so X(1, np.int64(0)) silently
acted as an uncontrolled gate.
---
 horqrux/primitives/primitive.py | 4 ++--
 horqrux/utils/operator_utils.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/horqrux/primitives/primitive.py b/horqrux/primitives/primitive.py
index 0e8fa6a..5f261f2 100644
--- a/horqrux/primitives/primitive.py
+++ b/horqrux/primitives/primitive.py
@@ -39,8 +39,8 @@ class Primitive:
     def parse_idx(
         idx: tuple,
     ) -> tuple:
-        if isinstance(idx, (int, np.int64)):
-            return ((idx,),)
+        if isinstance(idx, (int, np.integer)):
+            return ((int(idx),),)
         elif isinstance(idx, tuple):
             return (idx,)
         else:
diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index e439caf..1de7e77 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -461,7 +461,7 @@ def uniform_state(n_qubits: int, sparse: bool = False) -> ArrayLike:
 
 
 def is_controlled(qubit_support: Union[tuple[Union[int, None], ...], int, None]) -> bool:
-    if isinstance(qubit_support, int):
+    if isinstance(qubit_support, (int, np.integer)):
         return True
     elif isinstance(qubit_support, tuple):
         return any(is_controlled(q) for q in qubit_support)
-- 
2.43.0


From a48caf6d7f2ba2343632fc8ba3a85fbedf277a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 03/29] fix: derivative of the rotation gates

d/dt exp(-i t G / 2) is -1/2 (sin(t/2) I + i cos(t/2) G); the product with
the generator was applied elementwise to the whole expression.
---
 horqrux/utils/operator_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index 1de7e77..139cf1d 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -169,8 +169,10 @@ def _(generator: Array, theta: float) -> Array:
     return (
         -1
         / 2
-        * (jnp.sin(theta / 2) * jnp.eye(2, dtype=default_dtype) + 1j * jnp.cos(theta / 2))
-        * generator
+        * (
+            jnp.sin(theta / 2) * jnp.eye(2, dtype=default_dtype)
+            + 1j * jnp.cos(theta / 2) * generator
+        )
     )
 
 
@@ -181,9 +183,8 @@ def _(generator: BCOO, theta: float) -> BCOO:
         / 2
         * (
             jnp.sin(theta / 2) * jax.experimental.sparse.eye(2, dtype=default_dtype)
-            + 1j * jnp.cos(theta / 2)
+            + 1j * jnp.cos(theta / 2) * generator
         )
-        * generator
     )
 
 
-- 
2.43.0


From e20fb063340b60d21b5bd81344ac07eae3b9a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 04/29] fix: derivative of controlled gates is zero outside the
 controlled block

Applying a controlled gate in Jacobian mode kept the components with a control
qubit at 0 unchanged instead of removing them.
---
 horqrux/apply.py | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/horqrux/apply.py b/horqrux/apply.py
index 186eb5f..5bba48a 100644
--- a/horqrux/apply.py
+++ b/horqrux/apply.py
@@ -342,6 +342,30 @@ def apply_gates(
     raise NotImplementedError("apply_gate is not implemented")
 
 
+def prepare_operator(
+    gate: Primitive, values: dict[str, float], op_type: OperationType
+) -> tuple[Array, tuple, tuple]:
+    """Operator of a gate, with the target and control qubits to apply it on.
+
+    The derivative of a controlled gate vanishes wherever a control qubit is 0,
+    so that it is embedded here in a zero (and not in an identity) matrix.
+
+    Args:
+        gate (Primitive): Gate to apply.
+        values (dict[str, float]): A dictionary with parameter values.
+        op_type (OperationType): The type of operation to perform.
+
+    Returns:
+        tuple[Array, tuple, tuple]: Operator, target and control.
+    """
+    operator = getattr(gate, op_type)(values)
+    if op_type == OperationType.JACOBIAN and is_controlled(gate.control):
+        n_control = len(gate.control[0])
+        operator = _controlled(operator, n_control) - _controlled(0.0 * operator, n_control)
+        return operator, (gate.control[0] + gate.target[0],), ((None,),)
+    return operator, gate.target, gate.control
+
+
 def prepare_sequence_reduce(
     gate: Union[Primitive, Iterable[Primitive]],
     values: dict[str, float] = dict(),
@@ -367,15 +391,16 @@ def prepare_sequence_reduce(
     operator: tuple[Array, ...]
     noise = list()
     if isinstance(gate, Primitive):
-        operator_fn = getattr(gate, op_type)
-        operator, target, control = (operator_fn(values),), gate.target, gate.control
+        op, target, control = prepare_operator(gate, values, op_type)
+        operator = (op,)
         noise += [gate.noise]
     else:
         if group_gates:
             gate = group_by_index(gate)
-        operator = tuple(getattr(g, op_type)(values) for g in gate)
-        target = reduce(add, [g.target for g in gate])
-        control = reduce(add, [g.control for g in gate])
+        prepared = [prepare_operator(g, values, op_type) for g in gate]
+        operator = tuple(op for op, _, _ in prepared)
+        target = reduce(add, [t for _, t, _ in prepared])
+        control = reduce(add, [c for _, _, c in prepared])
         noise = [g.noise for g in gate]
         # merge when no noise is present
         if (noise == [None] * len(noise)) and merge_ops:
-- 
2.43.0


From be0d919f709014d6f14972de020d335a72f76dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 05/29] fix: applying an empty list of gates leaves the state
 unchanged

It raised TypeError, so expectation() failed for circuits without gates.
---
 horqrux/apply.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/horqrux/apply.py b/horqrux/apply.py
index 5bba48a..c1ea9a1 100644
--- a/horqrux/apply.py
+++ b/horqrux/apply.py
@@ -399,8 +399,8 @@ def prepare_sequence_reduce(
             gate = group_by_index(gate)
         prepared = [prepare_operator(g, values, op_type) for g in gate]
         operator = tuple(op for op, _, _ in prepared)
-        target = reduce(add, [t for _, t, _ in prepared])
-        control = reduce(add, [c for _, _, c in prepared])
+        target = reduce(add, [t for _, t, _ in prepared], ())
+        control = reduce(add, [c for _, _, c in prepared], ())
         noise = [g.noise for g in gate]
         # merge when no noise is present
         if (noise == [None] * len(noise)) and merge_ops:
-- 
2.43.0


From a777166b3af75848f60d7743aeda70f2b7aff65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 06/29] fix: OpSequence.tensor multiplies in application order,
 sparse included

The operations are applied first to last, so that the matrix is the product
last @ ... @ first. jnp.matmul also rejected sparse operations.
---
 horqrux/composite/sequence.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index ad31e8f..879429a 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -4,7 +4,6 @@ from dataclasses import dataclass, field
 from functools import reduce
 from typing import Any, Iterable
 
-import jax.numpy as jnp
 from jax import Array
 from jax.tree_util import register_pytree_node_class
 
@@ -53,7 +52,11 @@ class OpSequence:
                 "Expanding tensor operation requires a `full_support` argument "
                 "larger than or equal to the `qubit_support`."
             )
-        return reduce(jnp.matmul, map(lambda x: x.tensor(values, full_support), self.operations))
+        # the first operation acts first: it is the rightmost factor
+        return reduce(
+            lambda product, op: op @ product,
+            map(lambda x: x.tensor(values, full_support), self.operations),
+        )
 
     def __iter__(self) -> Iterable:
         def flatten(item: Any) -> Iterable:
-- 
2.43.0


From 1b3e6eaf6ecef642f50d452d9247901ed90c95ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 07/29] fix: OpSequence.qubit_support is in ascending order

The iteration order of the set is arbitrary (e.g. (8, 1)), while tensor() orders
the qubits: expectation values of density matrices were wrong.
---
 horqrux/composite/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index 879429a..606b90f 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -26,7 +26,7 @@ class OpSequence:
 
     @property
     def qubit_support(self) -> tuple:
-        return tuple(set().union(*(op.qubit_support for op in self.operations)))
+        return tuple(sorted(set().union(*(op.qubit_support for op in self.operations))))
 
     def __call__(self, state: State | None = None, values: dict[str, Array] = dict()) -> State:
         return reduce(lambda state, gate: gate.__call__(state, values), self.operations, state)
-- 
2.43.0


From 19e6ca7bc3ab8eb30e49e236838f3b448e9cbf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 08/29] fix: QuantumCircuit is rebuilt faithfully by jax tree
 operations

Children and auxiliary data were swapped, so that a rebuilt circuit had its
attributes mixed up and a circuit could not be passed to a jitted function.
---
 horqrux/circuit.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/horqrux/circuit.py b/horqrux/circuit.py
index 0a3cccd..e5d7dba 100644
--- a/horqrux/circuit.py
+++ b/horqrux/circuit.py
@@ -50,16 +50,14 @@ class QuantumCircuit(OpSequence):
         return len(self.vparams)
 
     def tree_flatten(self) -> tuple:
-        children = (
-            self.operations,
-            self.fparams,
-        )
-        aux_data = (self.n_qubits,)
-        return (aux_data, children)
+        children = (self.operations,)
+        aux_data = (self.n_qubits, tuple(self.fparams))
+        return (children, aux_data)
 
     @classmethod
     def tree_unflatten(cls, aux_data: Any, children: Any) -> Any:
-        return cls(*aux_data, *children)
+        n_qubits, fparams = aux_data
+        return cls(n_qubits, *children, list(fparams))
 
 
 def hea(
-- 
2.43.0


From 18f72263082fe05ce2e6faac395d20ecd9cbd0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 09/29] fix: the array of a DensityMatrix is a pytree leaf

As auxiliary data it was compared for equality by jit (ValueError on a second
call), leaked tracers when returned from jit, and could not be vmapped.
---
 horqrux/utils/operator_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index 139cf1d..1091216 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -36,9 +36,9 @@ class DensityMatrix:
 
     array: Array
 
-    def tree_flatten(self) -> tuple[tuple, tuple[Array]]:
-        children = ()
-        aux_data = (self.array,)
+    def tree_flatten(self) -> tuple[tuple[Array], tuple]:
+        children = (self.array,)
+        aux_data = ()
         return (children, aux_data)
 
     @classmethod
-- 
2.43.0


From 663afe48d7e22a9f3c9971444e096bfc5ea138c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 10/29] fix: PHASE gates keep their type in tree operations and
 in GPSR

_PHASE was not registered as a pytree and GPSR rebuilt it as a Parametric with
generator I; its spectral gap was computed from that generator as well.
---
 horqrux/differentiation/gpsr/gpsr_utils.py |  4 ++--
 horqrux/primitives/parametric.py           | 11 +++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/horqrux/differentiation/gpsr/gpsr_utils.py b/horqrux/differentiation/gpsr/gpsr_utils.py
index 0362ca3..f0f9ade 100644
--- a/horqrux/differentiation/gpsr/gpsr_utils.py
+++ b/horqrux/differentiation/gpsr/gpsr_utils.py
@@ -22,7 +22,7 @@ def to_shift(gate: Parametric, shift_value: float) -> Any:
         Any: A new Parametric (Any type due to clsmethod)
     """
     children, aux_data = gate.tree_flatten()
-    return Parametric.tree_unflatten(aux_data[:-1] + (aux_data[-1] + shift_value,), children)
+    return type(gate).tree_unflatten(aux_data[:-1] + (aux_data[-1] + shift_value,), children)
 
 
 def prepare_param_gates_seq(
@@ -127,7 +127,7 @@ def new_named_parametric(gate: Primitive) -> Parametric:
     """
     children, aux_data = gate.tree_flatten()
     new_name = str(uuid4())
-    new_gate: Parametric = Parametric.tree_unflatten(
+    new_gate: Parametric = type(gate).tree_unflatten(  # type: ignore[assignment]
         aux_data[:-2]
         + (
             new_name,
diff --git a/horqrux/primitives/parametric.py b/horqrux/primitives/parametric.py
index 6c13384..0cdbd57 100644
--- a/horqrux/primitives/parametric.py
+++ b/horqrux/primitives/parametric.py
@@ -198,6 +198,7 @@ def RZ(
     return Parametric("Z", target, control, noise, param=param, sparse=sparse)
 
 
+@register_pytree_node_class
 class _PHASE(Parametric):
     def _unitary(self, values: dict[str, float] = dict()) -> Array:
         u = jnp.eye(2, 2, dtype=default_dtype)
@@ -218,6 +219,16 @@ class _PHASE(Parametric):
         base_name = "PHASE"
         return "C" + base_name if is_controlled(self.control) else base_name
 
+    @cached_property
+    def eigenvals_generator(self) -> Array:
+        """Eigenvalues of G in the form exp(-i x G / 2) of the gate.
+
+        Returns:
+            Array: Eigenvalues of the operation.
+        """
+        n_control = len(self.control[0]) if is_controlled(self.control) else 0
+        return jnp.zeros(2 ** (n_control + 1)).at[-1].set(-2.0)
+
 
 def PHASE(
     param: float,
-- 
2.43.0


From 22fbe0777e0003f75017cec284331d76929aaeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 11/29] fix: group_by_index does not reorder gates across
 multi-target gates

Uncontrolled SWAP-like gates and Hamiltonian evolutions were sorted by target
among single-qubit gates they do not commute with.
---
 horqrux/apply.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/horqrux/apply.py b/horqrux/apply.py
index c1ea9a1..91778db 100644
--- a/horqrux/apply.py
+++ b/horqrux/apply.py
@@ -281,7 +281,8 @@ def group_by_index(gates: Iterable[Primitive]) -> Iterable[Primitive]:
     sorted_gates = []
     gate_batch = []
     for gate in gates:
-        if not is_controlled(gate.control):
+        # only gates on a single qubit commute past gates on other qubits
+        if not is_controlled(gate.control) and len(gate.target[0]) == 1:
             gate_batch.append(gate)
         else:
             if len(gate_batch) > 0:
-- 
2.43.0


From b964db2900b0ed9df09aa108fd3a08f01e82c773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 12/29] fix: Scale keeps the composite it scales

Scale(Add([a, b]), c) was flattened into the product of a and b instead of
scaling their sum.
---
 horqrux/composite/compose.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/horqrux/composite/compose.py b/horqrux/composite/compose.py
index 4e0ff5b..a6b6146 100644
--- a/horqrux/composite/compose.py
+++ b/horqrux/composite/compose.py
@@ -27,7 +27,9 @@ class Scale(OpSequence):
     def __init__(
         self, operations: Primitive | OpSequence | list, parameter_name: str | float
     ) -> None:
-        super().__init__(list(operations))  # type:ignore[arg-type]
+        # keep a composite as a single operation: iterating over it would lose its meaning (e.g. Add)
+        operations = [operations] if isinstance(operations, OpSequence) else list(operations)  # type: ignore[arg-type]
+        super().__init__(operations)
         self.parameter: str | float = parameter_name
 
     def __call__(self, state: State | None = None, values: dict[str, Array] = dict()) -> Array:
-- 
2.43.0


From d26e34cbbff89982ebaf6e2fd94c4f03c6827860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 13/29] fix: to_sparse and to_dense convert all operations of a
 Scale

Only the first operation was kept.
---
 horqrux/utils/conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/horqrux/utils/conversion.py b/horqrux/utils/conversion.py
index d29f823..e8bd89c 100644
--- a/horqrux/utils/conversion.py
+++ b/horqrux/utils/conversion.py
@@ -73,12 +73,12 @@ def _(operations: OpSequence) -> OpSequence:
 
 @to_sparse.register
 def _(operations: Scale) -> Scale:
-    return Scale(to_sparse(operations.operations[0]), operations.parameter)
+    return Scale([to_sparse(op) for op in operations.operations], operations.parameter)
 
 
 @to_dense.register
 def _(operations: Scale) -> Scale:
-    return Scale(to_dense(operations.operations[0]), operations.parameter)
+    return Scale([to_dense(op) for op in operations.operations], operations.parameter)
 
 
 @to_sparse.register
-- 
2.43.0


From bca7f69de8938d44ebd685980ac22d6dc68b0663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 14/29] fix: to_sparse and to_dense keep the feature parameters
 of a circuit

---
 horqrux/utils/conversion.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/horqrux/utils/conversion.py b/horqrux/utils/conversion.py
index e8bd89c..385ef9a 100644
--- a/horqrux/utils/conversion.py
+++ b/horqrux/utils/conversion.py
@@ -83,9 +83,17 @@ def _(operations: Scale) -> Scale:
 
 @to_sparse.register
 def _(operations: QuantumCircuit) -> QuantumCircuit:
-    return QuantumCircuit(operations.n_qubits, [to_sparse(op) for op in operations.operations])
+    return QuantumCircuit(
+        operations.n_qubits,
+        [to_sparse(op) for op in operations.operations],
+        list(operations.fparams),
+    )
 
 
 @to_dense.register
 def _(operations: QuantumCircuit) -> QuantumCircuit:
-    return QuantumCircuit(operations.n_qubits, [to_dense(op) for op in operations.operations])
+    return QuantumCircuit(
+        operations.n_qubits,
+        [to_dense(op) for op in operations.operations],
+        list(operations.fparams),
+    )
-- 
2.43.0


From cfc6cd2ed6b3c4ff11dbed6181eb0d2ccdf9f05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 15/29] fix: Primitive.n_qubits counts the qubits of the gate

It counted the length-one outer tuples: X(0) reported 2 qubits.
---
 horqrux/primitives/primitive.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/horqrux/primitives/primitive.py b/horqrux/primitives/primitive.py
index 5f261f2..106723b 100644
--- a/horqrux/primitives/primitive.py
+++ b/horqrux/primitives/primitive.py
@@ -132,10 +132,7 @@ class Primitive:
 
     @property
     def n_qubits(self) -> int:
-        n_qubits = len(self.target)
-        if self.control[0] is not None:
-            n_qubits += len(self.control)
-        return n_qubits
+        return len(self.qubit_support)
 
     @property
     def qubit_support(self) -> tuple:
-- 
2.43.0


From 76998ac72170129c8d1a440a02ceec553d5bd686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 16/29] fix: fixed angles are not parameters of a circuit

Gates with a numeric angle were listed in param_names and counted in n_vparams.
---
 horqrux/composite/sequence.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index 606b90f..b4daf74 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -82,7 +82,11 @@ class OpSequence:
         """
         from horqrux.primitives import Parametric
 
-        return set([str(op.param) for op in list(iter(self)) if isinstance(op, Parametric)])  # type: ignore[type-var]
+        return set(
+            op.param
+            for op in list(iter(self))  # type: ignore[type-var]
+            if isinstance(op, Parametric) and op.is_parametric
+        )
 
     @property
     def n_vparams(self) -> int:
-- 
2.43.0


From 22803c8d631e2587f97f56de84f8afbae6c434b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 17/29] fix: sampling does not reshape the density matrix
 passed in

With a circuit returning its input object, the array of the caller was replaced.
---
 horqrux/api.py   | 2 +-
 horqrux/shots.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/horqrux/api.py b/horqrux/api.py
index 6d5ce14..b905d78 100644
--- a/horqrux/api.py
+++ b/horqrux/api.py
@@ -56,7 +56,7 @@ def sample(
     n_qubits = num_qubits(output_circuit)
     if isinstance(output_circuit, DensityMatrix):
         d = 2**n_qubits
-        output_circuit.array = output_circuit.array.reshape((d, d))
+        output_circuit = DensityMatrix(output_circuit.array.reshape((d, d)))
 
     probs = probabilities(output_circuit)
     return sample_from_probs(probs, n_qubits, n_shots)
diff --git a/horqrux/shots.py b/horqrux/shots.py
index 44c015a..0819a5b 100644
--- a/horqrux/shots.py
+++ b/horqrux/shots.py
@@ -180,5 +180,5 @@ def finite_shots(
     n_qubits = num_qubits(output_gates)
     if isinstance(output_gates, DensityMatrix):
         d = 2**n_qubits
-        output_gates.array = output_gates.array.reshape((d, d))
+        output_gates = DensityMatrix(output_gates.array.reshape((d, d)))
     return eigen_sample(output_gates, observables, values, n_qubits, n_shots, key)
-- 
2.43.0


From 15e1188b2564e0801578d97c4a6d1c4c62900176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 18/29] fix: probabilities of density matrices with one axis
 per qubit

The diagonal was taken along the first two axes only.
---
 horqrux/utils/operator_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index 1091216..e4a8d0d 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -531,7 +531,8 @@ def _(state: Array) -> Array:
 
 @probabilities.register
 def _(state: DensityMatrix) -> Array:
-    return jnp.diagonal(state.array).real
+    d = int(np.sqrt(state.array.size))
+    return jnp.diagonal(state.array.reshape((d, d))).real
 
 
 @singledispatch
-- 
2.43.0


From 0a1120ddb6280aec006a235f4a87c6303762fbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 19/29] fix: adjoint mode accepts separate circuit and
 observable values

The documented layout {"circuit": ..., "observables": ...} raised KeyError.
---
 horqrux/differentiation/adjoint.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/horqrux/differentiation/adjoint.py b/horqrux/differentiation/adjoint.py
index a5b4b17..b4614ee 100644
--- a/horqrux/differentiation/adjoint.py
+++ b/horqrux/differentiation/adjoint.py
@@ -8,6 +8,7 @@ from horqrux.composite import Observable, OpSequence
 from horqrux.primitives.primitive import Primitive
 from horqrux.utils.operator_utils import OperationType, inner
 from horqrux.utils.sparse_utils import real_sp
+from horqrux.utils.values_utils import _values_processing
 
 
 def ad_expectation(
@@ -35,7 +36,10 @@ def adjoint_expectation(
     observable: Observable,
     values: dict[str, float] | dict[str, dict[str, float]],
 ) -> Array:
-    return ad_expectation(state, circuit, observable, values)  # type: ignore[arg-type]
+    values_circuit, values_observables = _values_processing(values)
+    out_state = apply_gates(state, list(iter(circuit)), values_circuit, OperationType.UNITARY)  # type: ignore[type-var]
+    projected_state = observable.forward(out_state, values_observables)
+    return real_sp(inner(out_state, projected_state))
 
 
 def adjoint_expectation_single_observable_fwd(
-- 
2.43.0


From 7ea2760eac014d4632d19e8c9ef434da0e548c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 20/29] fix: finite shots accept separate circuit and
 observable values

The documented layout {"circuit": ..., "observables": ...} raised KeyError.
---
 horqrux/shots.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/horqrux/shots.py b/horqrux/shots.py
index 0819a5b..979b7e9 100644
--- a/horqrux/shots.py
+++ b/horqrux/shots.py
@@ -12,6 +12,7 @@ from horqrux.apply import apply_gates
 from horqrux.composite import Observable
 from horqrux.primitives import Primitive
 from horqrux.utils.operator_utils import DensityMatrix, State, expand_operator, num_qubits
+from horqrux.utils.values_utils import _values_processing
 
 
 @singledispatch
@@ -158,7 +159,7 @@ def finite_shots(
     state: State,
     gates: Union[Primitive, Iterable[Primitive]],
     observables: list[Observable],
-    values: dict[str, float],
+    values: dict[str, float] | dict[str, dict[str, float]],
     n_shots: int = 100,
     key: Any = jax.random.PRNGKey(0),
 ) -> Array:
@@ -176,9 +177,10 @@ def finite_shots(
     Returns:
         Array: Expectation values.
     """
-    output_gates = apply_gates(state, gates, values)
+    values_circuit, values_observables = _values_processing(values)
+    output_gates = apply_gates(state, gates, values_circuit)
     n_qubits = num_qubits(output_gates)
     if isinstance(output_gates, DensityMatrix):
         d = 2**n_qubits
         output_gates = DensityMatrix(output_gates.array.reshape((d, d)))
-    return eigen_sample(output_gates, observables, values, n_qubits, n_shots, key)
+    return eigen_sample(output_gates, observables, values_observables, n_qubits, n_shots, key)
-- 
2.43.0


From 86414de7cb99983ec76a465e92cff4aac9612f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 21/29] fix: overlap is the squared modulus of the inner
 product

The real part of the square depends on the global phase and can be negative.
---
 horqrux/utils/operator_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index e4a8d0d..4dcffc5 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -450,7 +450,7 @@ def inner(state: Array, projection: Array) -> Array:
 
 
 def overlap(state: Array, projection: Array) -> Array:
-    return jnp.power(inner(state, projection), 2).real
+    return jnp.abs(inner(state, projection)) ** 2
 
 
 def uniform_state(n_qubits: int, sparse: bool = False) -> ArrayLike:
-- 
2.43.0


From 6a45dc77b0b2484da0d43d30f3018c1939be8563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 22/29] fix: Primitive.tensor with targets in descending order

The unitary is given in the order of the targets while the matrix is ordered by
qubit index, which matters for Hamiltonian evolutions.
---
 horqrux/primitives/primitive.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/horqrux/primitives/primitive.py b/horqrux/primitives/primitive.py
index 106723b..87ff8d0 100644
--- a/horqrux/primitives/primitive.py
+++ b/horqrux/primitives/primitive.py
@@ -17,8 +17,10 @@ from horqrux.utils.operator_utils import (
     _dagger,
     controlled,
     expand_operator,
+    hilbert_reshape,
     is_controlled,
     none_like,
+    permute_basis,
     zero_state,
 )
 
@@ -119,6 +121,11 @@ class Primitive:
             Array: Unitary representation taking into account the qubit support.
         """
         base_unitary = self._unitary(values)
+        target = self.target[0]
+        if tuple(sorted(target)) != target:
+            # the rows and columns are given in the order of the targets
+            shape = base_unitary.shape
+            base_unitary = permute_basis(hilbert_reshape(base_unitary), target, True).reshape(shape)
         if is_controlled(self.control):
             base_unitary = controlled(base_unitary, self.target, self.control)
         if full_support is None:
-- 
2.43.0


From 105d9123c90fa31b3724b690b4f2ae98af52430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 23/29] fix: finite-shot estimates of observables without a
 common eigenbasis

Every observable was sampled in the eigenbasis of the first one, also when its
own eigenvectors are not a permutation of it (the failed check was discarded), so
that e.g. the estimates of [Z(0), X(0)] were wrong.
---
 horqrux/shots.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/horqrux/shots.py b/horqrux/shots.py
index 979b7e9..4ba2863 100644
--- a/horqrux/shots.py
+++ b/horqrux/shots.py
@@ -6,7 +6,6 @@ from typing import Any, Iterable, Union
 import jax
 import jax.numpy as jnp
 from jax import Array
-from jax.experimental import checkify
 
 from horqrux.apply import apply_gates
 from horqrux.composite import Observable
@@ -100,8 +99,12 @@ def eigen_sample(
     )
     eigs = jax.vmap(jnp.linalg.eigh)(jnp.stack(mat_obs))
     eigvecs, eigvals = align_eigenvectors(eigs.eigenvalues, eigs.eigenvectors)
-    probs = eigen_probabilities(state, eigvecs)
-    return jax.random.choice(key=key, a=eigvals, p=probs, shape=(n_shots,)).mean(axis=0)
+
+    def sample_mean(eigvals: Array, eigvecs: Array) -> Array:
+        probs = eigen_probabilities(state, eigvecs)
+        return jax.random.choice(key=key, a=eigvals, p=probs, shape=(n_shots,)).mean(axis=0)
+
+    return jnp.stack([sample_mean(vals, vecs) for vals, vecs in zip(eigvals, eigvecs)])
 
 
 @jax.vmap
@@ -112,19 +115,13 @@ def validate_permutation_matrix(P: Array) -> Array:
     return ((ones == rows) & (ones == columns)).min()
 
 
-def checkify_valid_permutation(P: Array) -> None:
-    checkify.check(
-        jnp.all(validate_permutation_matrix(P)),
-        "Did not calculate valid permutation matrix",
-    )
-
-
 def align_eigenvectors(eigenvalues: Array, eigenvectors: Array) -> tuple[Array, Array]:
     """
     Given a list of eigenvalue eigenvector matrix tuples in the form of
-    [(eigenvalue, eigenvector)...], this function aligns all the eigenvector
-    matrices so that they are identical, and also rearranges the corresponding
-    eigenvalues.
+    [(eigenvalue, eigenvector)...], this function aligns the eigenvector
+    matrices with the first one wherever they are a permutation of it, and also
+    rearranges the corresponding eigenvalues. Any other eigenvector matrix
+    (e.g. of a non-commuting observable) is kept with its own eigenvalues.
 
     This is primarily used as a utility function to help sample multiple
     correlated observables when using finite shots.
@@ -132,9 +129,14 @@ def align_eigenvectors(eigenvalues: Array, eigenvectors: Array) -> tuple[Array,
     eigenvector = eigenvectors[0]
 
     P = jax.vmap(lambda mat: permutation_matrix(mat, eigenvector))(eigenvectors)
-    checkify.checkify(checkify_valid_permutation)(P)
-    aligned_eigenvalues = jax.vmap(jnp.dot)(eigenvalues, P).T
-    return eigenvector, aligned_eigenvalues
+    is_aligned = validate_permutation_matrix(P) & jax.vmap(
+        lambda mat, perm: jnp.allclose(mat @ perm, eigenvector)
+    )(eigenvectors, P)
+    aligned_eigenvalues = jnp.where(
+        is_aligned[:, None], jax.vmap(jnp.dot)(eigenvalues, P), eigenvalues
+    )
+    aligned_eigenvectors = jnp.where(is_aligned[:, None, None], eigenvector, eigenvectors)
+    return aligned_eigenvectors, aligned_eigenvalues
 
 
 def permutation_matrix(mat: Array, eigenvector_matrix: Array) -> Array:
-- 
2.43.0


From e6f27678ecc01368b59d0c634c09378c8568db0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 24/29] fix: GPSR with repeated parameters and values that no
 gate uses

Repeated parameters were detected by comparing the number of parametric gates
with the number of values, so that an unrelated value hid the repetition and the
wrong shift rule was applied. With repeated parameters the values of other names
(e.g. of observables) were dropped, and the backward functions failed for them.
---
 horqrux/differentiation/gpsr/analytical.py | 19 +++++++++----------
 horqrux/differentiation/gpsr/shots.py      | 21 ++++++++++-----------
 2 files changed, 19 insertions(+), 21 deletions(-)

diff --git a/horqrux/differentiation/gpsr/analytical.py b/horqrux/differentiation/gpsr/analytical.py
index f2134da..692e27f 100644
--- a/horqrux/differentiation/gpsr/analytical.py
+++ b/horqrux/differentiation/gpsr/analytical.py
@@ -100,13 +100,15 @@ def analytical_gpsr_bwd(
     jvp_caller = jvp_component
     if not isinstance(gates, Primitive):
         gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(val_keys):
+        if len(gate_names) > len(set(gate_names)):
             param_to_gates_indices = prepare_param_gates_seq(val_keys, gates)
             # repeated case
             if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
 
                 def jvp_component_repeated_param(param_name: str) -> Array:
                     shift_gates = param_to_gates_indices[param_name]
+                    if len(shift_gates) == 0:
+                        return jvp_component(param_name)
 
                     def shift_jvp(ind: int) -> Array:
                         spectral_gap = gates[ind].spectral_gap  # type: ignore[index]
@@ -189,25 +191,22 @@ def analytical_gpsr_jvp(
 
     if not isinstance(gates, Primitive):
         gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(legit_val_keys):
+        if len(gate_names) > len(set(gate_names)):
             param_to_gates_indices = prepare_param_gates_seq(legit_val_keys, gates)
             # repeated case
             if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
                 # use temporary gates and values to make use of scan
                 gates = create_renamed_operators(gates, legit_val_keys)  # type: ignore[index]
+                # names without a gate (e.g. of observables) are kept as they are
                 values_map = {
-                    gates[ind].param: pname  # type: ignore[index]
-                    for pname in legit_val_keys
-                    for ind in param_to_gates_indices[pname]
+                    temp_name: pname
+                    for pname, inds in param_to_gates_indices.items()
+                    for temp_name in ([gates[ind].param for ind in inds] or [pname])  # type: ignore[index]
                 }
                 values = {
                     temp_name: values[values_map[temp_name]] for temp_name in values_map.keys()
                 }
-                spectral_gap = {
-                    temp_name: gates[ind].spectral_gap  # type: ignore[index]
-                    for temp_name in values_map.keys()
-                    for ind in param_to_gates_indices[values_map[temp_name]]
-                }
+                spectral_gap = dict.fromkeys(values_map, 2.0)
             else:
                 spectral_gap = spectral_gap_from_gates(param_to_gates_indices, legit_val_keys)
 
diff --git a/horqrux/differentiation/gpsr/shots.py b/horqrux/differentiation/gpsr/shots.py
index d2ced52..d87e8da 100644
--- a/horqrux/differentiation/gpsr/shots.py
+++ b/horqrux/differentiation/gpsr/shots.py
@@ -72,13 +72,15 @@ def finite_shots_gpsr_backward(
     jvp_caller = jvp_component
     if not isinstance(gates, Primitive):
         gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(val_keys):
+        if len(gate_names) > len(set(gate_names)):
             param_to_gates_indices = prepare_param_gates_seq(val_keys, gates)
             # repeated case
             if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
 
                 def jvp_component_repeated_param(param_name: str, key: Array) -> Array:
                     shift_gates = param_to_gates_indices[param_name]
+                    if len(shift_gates) == 0:
+                        return jvp_component(param_name, key)
                     shift_keys = random.split(key, len(shift_gates))
 
                     def shift_jvp(ind: int, key: Array) -> Array:
@@ -102,10 +104,10 @@ def finite_shots_gpsr_backward(
                         shift_jvp(shift_ind, key) for shift_ind, key in zip(shift_gates, shift_keys)
                     )
 
+                jvp_caller = jvp_component_repeated_param
             else:
                 spectral_gap = spectral_gap_from_gates(param_to_gates_indices, val_keys)
 
-            jvp_caller = jvp_component_repeated_param
     jvp = jnp.stack([jvp_caller(param, key) for param, key in params_with_keys]).sum(axis=-1)
     return jvp
 
@@ -177,25 +179,22 @@ def finite_shots_jvp(
 
     if not isinstance(gates, Primitive):
         gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(legit_val_keys):
+        if len(gate_names) > len(set(gate_names)):
             param_to_gates_indices = prepare_param_gates_seq(legit_val_keys, gates)
             # repeated case
             if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
                 # use temporary gates and values to make use of scan
                 gates = create_renamed_operators(gates, legit_val_keys)  # type: ignore[index]
+                # names without a gate (e.g. of observables) are kept as they are
                 values_map = {
-                    gates[ind].param: pname  # type: ignore[index]
-                    for pname in legit_val_keys
-                    for ind in param_to_gates_indices[pname]
+                    temp_name: pname
+                    for pname, inds in param_to_gates_indices.items()
+                    for temp_name in ([gates[ind].param for ind in inds] or [pname])  # type: ignore[index]
                 }
                 values = {
                     temp_name: values[values_map[temp_name]] for temp_name in values_map.keys()
                 }
-                spectral_gap = {
-                    temp_name: gates[ind].spectral_gap  # type: ignore[index]
-                    for temp_name in values_map.keys()
-                    for ind in param_to_gates_indices[values_map[temp_name]]
-                }
+                spectral_gap = dict.fromkeys(values_map, 2.0)
 
             else:
                 spectral_gap = spectral_gap_from_gates(param_to_gates_indices, legit_val_keys)
-- 
2.43.0


From dd39052105b45e4697c5ed0d6acbce05eb94be96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 25/29] fix: shift rule of GPSR for controlled rotations

Controlled rotations have the spectral gaps 1 and 2, but the rule for the single
gap 2 was used, so that their gradients were wrong. The documented system of
equations is now solved for all spectral gaps of the circuit.
---
 horqrux/differentiation/gpsr/analytical.py | 72 ++++++++----------
 horqrux/differentiation/gpsr/gpsr_utils.py | 42 ++++-------
 horqrux/differentiation/gpsr/shots.py      | 87 ++++++++++------------
 horqrux/primitives/parametric.py           | 13 ++++
 4 files changed, 97 insertions(+), 117 deletions(-)

diff --git a/horqrux/differentiation/gpsr/analytical.py b/horqrux/differentiation/gpsr/analytical.py
index 692e27f..36900fb 100644
--- a/horqrux/differentiation/gpsr/analytical.py
+++ b/horqrux/differentiation/gpsr/analytical.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
-from functools import partial
+from functools import partial, reduce
+from operator import add
 from typing import Iterable, Union
 
 import jax
@@ -16,7 +17,6 @@ from horqrux.differentiation.gpsr.gpsr_utils import (
     extract_gate_names,
     initialize_gpsr_ingredients,
     prepare_param_gates_seq,
-    spectral_gap_from_gates,
 )
 from horqrux.primitives import Primitive
 from horqrux.utils.operator_utils import State
@@ -81,20 +81,18 @@ def analytical_gpsr_bwd(
     Returns:
         Array: Gradients via the GPSR algorithm.
     """
-    val_keys, spectral_gap, shift = initialize_gpsr_ingredients(values)
+    val_keys, shift_rule = initialize_gpsr_ingredients(values, gates)
 
     def jvp_component(param_name: str) -> Array:
-        up_val = values.copy()
-        up_val[param_name] = up_val[param_name] + shift
-        f_up = jitted_analytical_exp(state, gates, observables, up_val)
-        down_val = values.copy()
-        down_val[param_name] = down_val[param_name] - shift
-        f_down = jitted_analytical_exp(state, gates, observables, down_val)
-        grad = (
-            spectral_gap[param_name]
-            * (f_up - f_down)
-            / (4.0 * jnp.sin(spectral_gap[param_name] * shift / 2.0))
-        )
+        grad = 0.0
+        for shift, coefficient in shift_rule:
+            up_val = values.copy()
+            up_val[param_name] = up_val[param_name] + shift
+            f_up = jitted_analytical_exp(state, gates, observables, up_val)
+            down_val = values.copy()
+            down_val[param_name] = down_val[param_name] - shift
+            f_down = jitted_analytical_exp(state, gates, observables, down_val)
+            grad += coefficient * (f_up - f_down)
         return grad
 
     jvp_caller = jvp_component
@@ -111,22 +109,18 @@ def analytical_gpsr_bwd(
                         return jvp_component(param_name)
 
                     def shift_jvp(ind: int) -> Array:
-                        spectral_gap = gates[ind].spectral_gap  # type: ignore[index]
-                        gates_up = alter_gate_sequence(gates, ind, shift)
-                        f_up = jitted_analytical_exp(state, gates_up, observables, values)
-                        gates_down = alter_gate_sequence(gates, ind, -shift)
-                        f_down = jitted_analytical_exp(state, gates_down, observables, values)
-                        return (
-                            spectral_gap
-                            * (f_up - f_down)
-                            / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
-                        )
+                        grad = 0.0
+                        for shift, coefficient in shift_rule:
+                            gates_up = alter_gate_sequence(gates, ind, shift)
+                            f_up = jitted_analytical_exp(state, gates_up, observables, values)
+                            gates_down = alter_gate_sequence(gates, ind, -shift)
+                            f_down = jitted_analytical_exp(state, gates_down, observables, values)
+                            grad += coefficient * (f_up - f_down)
+                        return grad
 
                     return sum(shift_jvp(shift_ind) for shift_ind in shift_gates)
 
                 jvp_caller = jvp_component_repeated_param
-            else:
-                spectral_gap = spectral_gap_from_gates(param_to_gates_indices, val_keys)
 
     jvp = jnp.stack([jvp_caller(param) for param in val_keys]).sum(axis=-1)
     return jvp
@@ -186,7 +180,7 @@ def analytical_gpsr_jvp(
     tangent_dict = tangents[0]
     fwd = analytical_gpsr_fwd(state, gates, observable, values)
 
-    legit_val_keys, spectral_gap, shift = initialize_gpsr_ingredients(values)
+    legit_val_keys, shift_rule = initialize_gpsr_ingredients(values, gates)
     values_map = None
 
     if not isinstance(gates, Primitive):
@@ -206,10 +200,6 @@ def analytical_gpsr_jvp(
                 values = {
                     temp_name: values[values_map[temp_name]] for temp_name in values_map.keys()
                 }
-                spectral_gap = dict.fromkeys(values_map, 2.0)
-            else:
-                spectral_gap = spectral_gap_from_gates(param_to_gates_indices, legit_val_keys)
-
     values_array = stack_sp(list(values.values()))
     if values_array.shape[-1] == 1:
         values_array = values_array.squeeze(-1)
@@ -219,20 +209,20 @@ def analytical_gpsr_jvp(
         return dict(zip(vals_to_dict, x))
 
     def jvp_caller(carry_grad: Array, pytree_ind_param: dict[str, Array]) -> tuple[Array, Array]:
-        shift_vector = pytree_ind_param["shift"]
-        spectral_gap = pytree_ind_param["spectral_gap"]
-        up_val = values_to_dict(values_array + shift_vector)
-        f_up = analytical_gpsr_fwd(state, gates, observable, up_val)
-        down_val = values_to_dict(values_array - shift_vector)
-        f_down = analytical_gpsr_fwd(state, gates, observable, down_val)
-        grad = spectral_gap * (f_up - f_down) / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
+        differences = []
+        for shift, coefficient in shift_rule:
+            shift_vector = shift * pytree_ind_param["direction"]
+            up_val = values_to_dict(values_array + shift_vector)
+            f_up = analytical_gpsr_fwd(state, gates, observable, up_val)
+            down_val = values_to_dict(values_array - shift_vector)
+            f_down = analytical_gpsr_fwd(state, gates, observable, down_val)
+            differences.append(coefficient * (f_up - f_down))
+        grad = reduce(add, differences)
         return carry_grad + grad, grad
 
-    spectral_gap_array = stack_sp(list(spectral_gap.values()))
     tangent_array = stack_sp(list(tangent_dict.values())).reshape((-1, 1))
     pytree_scan = {
-        "shift": shift * jnp.eye(len(vals_to_dict), dtype=values_array.dtype),
-        "spectral_gap": spectral_gap_array,
+        "direction": jnp.eye(len(vals_to_dict), dtype=values_array.dtype),
     }
 
     _, grads = jax.lax.scan(jvp_caller, jnp.zeros(fwd.shape), pytree_scan)
diff --git a/horqrux/differentiation/gpsr/gpsr_utils.py b/horqrux/differentiation/gpsr/gpsr_utils.py
index f0f9ade..42430f2 100644
--- a/horqrux/differentiation/gpsr/gpsr_utils.py
+++ b/horqrux/differentiation/gpsr/gpsr_utils.py
@@ -5,8 +5,7 @@ from operator import is_not
 from typing import Any, Iterable
 from uuid import uuid4
 
-import jax.numpy as jnp
-from jax import Array
+import numpy as np
 
 from horqrux.primitives import Parametric, Primitive
 
@@ -63,20 +62,27 @@ def alter_gate_sequence(gates: Iterable[Any], ind_alter: int, shift_val: float)
 
 
 def initialize_gpsr_ingredients(
-    values: dict[str, float]
-) -> tuple[tuple[str, ...], dict[str, float], Array]:
-    """Initialize the parameter names, spectral_gap, and shift value for GPSR.
+    values: dict[str, float], gates: Iterable[Primitive]
+) -> tuple[tuple[str, ...], tuple[tuple[float, float], ...]]:
+    """Initialize the parameter names, and the shift rule for GPSR.
+
+    The rule is a list of shifts and coefficients such that the derivative of f at x is the sum of
+    coefficient * (f(x + shift) - f(x - shift)), given all spectral gaps of the parametric gates.
 
     Args:
         values (dict[str, float]): Parameter values.
+        gates (Iterable[Primitive]): Sequence of gates.
 
     Returns:
-        tuple[tuple[str, ...], dict[str, float], Array]: parameter names, spectral_gap, and shift value.
+        tuple[tuple[str, ...], tuple[tuple[float, float], ...]]: parameter names, and shift rule.
     """
     val_keys = tuple(values.keys())
-    spectral_gap = dict.fromkeys(val_keys, 2.0)
-    shift = jnp.pi / 2
-    return val_keys, spectral_gap, shift
+    gaps = {gap for gate in gates if gate.is_parametric for gap in gate.spectral_gaps}  # type: ignore[attr-defined]
+    spectral_gaps = np.array(sorted(gaps) or [2.0])
+    shifts = np.pi / 2 * np.arange(1, 2 * len(spectral_gaps), 2)
+    system = 4.0 * np.sin(np.outer(shifts, spectral_gaps) / 2.0)
+    coefficients = np.linalg.solve(system.T, spectral_gaps)
+    return val_keys, tuple(zip(shifts.tolist(), coefficients.tolist()))
 
 
 def extract_gate_names(gates: Iterable[Primitive]) -> list:
@@ -98,24 +104,6 @@ def extract_gate_names(gates: Iterable[Primitive]) -> list:
     return gate_names
 
 
-def spectral_gap_from_gates(
-    param_to_gates_indices: dict[str, tuple], param_names: Iterable[str]
-) -> dict[str, Array]:
-    """Extract spectral gap from each gate.
-
-    Only works when a parameter name is used by only one gate.
-
-    Args:
-        param_to_gates_indices (dict[str, tuple]): dictionary mapping
-            parameter name to indices of gates.
-        param_names (Iterable[str]): Name of parameters.
-
-    Returns:
-        dict[str, Array]: Parameter names mapped with the spectral gap.
-    """
-    return {param: param_to_gates_indices[param][0].spectral_gap for param in param_names}
-
-
 def new_named_parametric(gate: Primitive) -> Parametric:
     """Create a new Parametric with a different name for GPSR with repeated parameters.
 
diff --git a/horqrux/differentiation/gpsr/shots.py b/horqrux/differentiation/gpsr/shots.py
index d87e8da..4d898da 100644
--- a/horqrux/differentiation/gpsr/shots.py
+++ b/horqrux/differentiation/gpsr/shots.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
-from functools import partial
+from functools import partial, reduce
+from operator import add
 from typing import Any, Iterable, Union
 
 import jax
@@ -14,7 +15,6 @@ from horqrux.differentiation.gpsr.gpsr_utils import (
     extract_gate_names,
     initialize_gpsr_ingredients,
     prepare_param_gates_seq,
-    spectral_gap_from_gates,
 )
 from horqrux.primitives import Primitive
 from horqrux.shots import finite_shots
@@ -51,21 +51,19 @@ def finite_shots_gpsr_backward(
     Returns:
         Array: Gradients.
     """
-    val_keys, spectral_gap, shift = initialize_gpsr_ingredients(values)
+    val_keys, shift_rule = initialize_gpsr_ingredients(values, gates)
 
     def jvp_component(param_name: str, key: Array) -> Array:
-        up_key, down_key = random.split(key)
-        up_val = values.copy()
-        up_val[param_name] = up_val[param_name] + shift
-        f_up = jitted_finite_shots(state, gates, observables, up_val, n_shots, up_key)
-        down_val = values.copy()
-        down_val[param_name] = down_val[param_name] - shift
-        f_down = jitted_finite_shots(state, gates, observables, down_val, n_shots, down_key)
-        grad = (
-            spectral_gap[param_name]
-            * (f_up - f_down)
-            / (4.0 * jnp.sin(spectral_gap[param_name] * shift / 2.0))
-        )
+        grad = 0.0
+        keys = random.split(key, (len(shift_rule), 2))
+        for (shift, coefficient), (up_key, down_key) in zip(shift_rule, keys):
+            up_val = values.copy()
+            up_val[param_name] = up_val[param_name] + shift
+            f_up = jitted_finite_shots(state, gates, observables, up_val, n_shots, up_key)
+            down_val = values.copy()
+            down_val[param_name] = down_val[param_name] - shift
+            f_down = jitted_finite_shots(state, gates, observables, down_val, n_shots, down_key)
+            grad += coefficient * (f_up - f_down)
         return grad
 
     params_with_keys = zip(values.keys(), random.split(key, len(values)))
@@ -84,29 +82,25 @@ def finite_shots_gpsr_backward(
                     shift_keys = random.split(key, len(shift_gates))
 
                     def shift_jvp(ind: int, key: Array) -> Array:
-                        up_key, down_key = random.split(key)
-                        spectral_gap = gates[ind].spectral_gap  # type: ignore[index]
-                        gates_up = alter_gate_sequence(gates, ind, shift)  # type: ignore[arg-type]
-                        f_up = jitted_finite_shots(
-                            state, gates_up, observables, values, n_shots, up_key
-                        )
-                        gates_down = alter_gate_sequence(gates, ind, -shift)  # type: ignore[arg-type]
-                        f_down = jitted_finite_shots(
-                            state, gates_down, observables, values, n_shots, down_key
-                        )
-                        return (
-                            spectral_gap
-                            * (f_up - f_down)
-                            / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
-                        )
+                        grad = 0.0
+                        keys = random.split(key, (len(shift_rule), 2))
+                        for (shift, coefficient), (up_key, down_key) in zip(shift_rule, keys):
+                            gates_up = alter_gate_sequence(gates, ind, shift)  # type: ignore[arg-type]
+                            f_up = jitted_finite_shots(
+                                state, gates_up, observables, values, n_shots, up_key
+                            )
+                            gates_down = alter_gate_sequence(gates, ind, -shift)  # type: ignore[arg-type]
+                            f_down = jitted_finite_shots(
+                                state, gates_down, observables, values, n_shots, down_key
+                            )
+                            grad += coefficient * (f_up - f_down)
+                        return grad
 
                     return sum(
                         shift_jvp(shift_ind, key) for shift_ind, key in zip(shift_gates, shift_keys)
                     )
 
                 jvp_caller = jvp_component_repeated_param
-            else:
-                spectral_gap = spectral_gap_from_gates(param_to_gates_indices, val_keys)
 
     jvp = jnp.stack([jvp_caller(param, key) for param, key in params_with_keys]).sum(axis=-1)
     return jvp
@@ -174,7 +168,7 @@ def finite_shots_jvp(
     tangent_dict = tangents[0]
     fwd = finite_shots_fwd(state, gates, observable, values, n_shots, key)
 
-    legit_val_keys, spectral_gap, shift = initialize_gpsr_ingredients(values)
+    legit_val_keys, shift_rule = initialize_gpsr_ingredients(values, gates)
     values_map = None
 
     if not isinstance(gates, Primitive):
@@ -194,10 +188,6 @@ def finite_shots_jvp(
                 values = {
                     temp_name: values[values_map[temp_name]] for temp_name in values_map.keys()
                 }
-                spectral_gap = dict.fromkeys(values_map, 2.0)
-
-            else:
-                spectral_gap = spectral_gap_from_gates(param_to_gates_indices, legit_val_keys)
 
     values_array = stack_sp(list(values.values()))
     if values_array.shape[-1] == 1:
@@ -208,23 +198,22 @@ def finite_shots_jvp(
         return dict(zip(vals_to_dict, x))
 
     def jvp_caller(carry_grad: Array, pytree_ind_param: dict[str, Array]) -> Array:
-        key = pytree_ind_param["key"]
-        up_key, down_key = random.split(key)
-        shift_vector = pytree_ind_param["shift"]
-        spectral_gap = pytree_ind_param["spectral_gap"]
-        up_val = values_to_dict(values_array + shift_vector)
-        f_up = finite_shots_fwd(state, gates, observable, up_val, n_shots, up_key)
-        down_val = values_to_dict(values_array - shift_vector)
-        f_down = finite_shots_fwd(state, gates, observable, down_val, n_shots, down_key)
-        grad = spectral_gap * (f_up - f_down) / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
+        differences = []
+        keys = random.split(pytree_ind_param["key"], (len(shift_rule), 2))
+        for (shift, coefficient), (up_key, down_key) in zip(shift_rule, keys):
+            shift_vector = shift * pytree_ind_param["direction"]
+            up_val = values_to_dict(values_array + shift_vector)
+            f_up = finite_shots_fwd(state, gates, observable, up_val, n_shots, up_key)
+            down_val = values_to_dict(values_array - shift_vector)
+            f_down = finite_shots_fwd(state, gates, observable, down_val, n_shots, down_key)
+            differences.append(coefficient * (f_up - f_down))
+        grad = reduce(add, differences)
         return carry_grad + grad, grad
 
-    spectral_gap_array = stack_sp(list(spectral_gap.values()))
     tangent_array = stack_sp(list(tangent_dict.values())).reshape((-1, 1))
     keys = random.split(key, len(vals_to_dict))
     pytree_scan = {
-        "shift": shift * jnp.eye(len(vals_to_dict), dtype=values_array.dtype),
-        "spectral_gap": spectral_gap_array,
+        "direction": jnp.eye(len(vals_to_dict), dtype=values_array.dtype),
         "key": keys,
     }
 
diff --git a/horqrux/primitives/parametric.py b/horqrux/primitives/parametric.py
index 0cdbd57..2df96e0 100644
--- a/horqrux/primitives/parametric.py
+++ b/horqrux/primitives/parametric.py
@@ -130,6 +130,15 @@ class Parametric(Primitive):
         spectral_gap = unique_jit(jnp.abs(jnp.tril(diffs)), size=2)
         return spectral_gap[nonzero_jit(spectral_gap, size=1)]
 
+    @property
+    def spectral_gaps(self) -> tuple[float, ...]:
+        """All non-zero differences between eigenvalues of the generator.
+
+        Returns:
+            tuple[float, ...]: Spectral gaps.
+        """
+        return (1.0, 2.0) if is_controlled(self.control) else (2.0,)
+
     @property
     def is_parametric(self) -> bool:
         return isinstance(self.param, str)
@@ -229,6 +238,10 @@ class _PHASE(Parametric):
         n_control = len(self.control[0]) if is_controlled(self.control) else 0
         return jnp.zeros(2 ** (n_control + 1)).at[-1].set(-2.0)
 
+    @property
+    def spectral_gaps(self) -> tuple[float, ...]:
+        return (2.0,)
+
 
 def PHASE(
     param: float,
-- 
2.43.0


From 4751320640e1a746ad71e9b92dc203161ccb671f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 26/29] fix: adjoint mode refuses shots instead of ignoring
 them

---
 horqrux/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/horqrux/api.py b/horqrux/api.py
index b905d78..d8c466b 100644
--- a/horqrux/api.py
+++ b/horqrux/api.py
@@ -136,6 +136,8 @@ def expectation(
     elif diff_mode == DiffMode.ADJOINT:
         if isinstance(state, DensityMatrix):
             raise TypeError("Adjoint does not support density matrices.")
+        if n_shots != 0:
+            raise ValueError("Adjoint does not support shots.")
 
         return adjoint_expectation(state, circuit, observables, values)
 
-- 
2.43.0


From e02854d56717c13f868ff2268dad6889a60bcfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:02 +0000
Subject: [PATCH 27/29] fix: flattening a circuit keeps sums and scaled
 operations

---
 horqrux/composite/sequence.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index b4daf74..5037854 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -60,11 +60,11 @@ class OpSequence:
 
     def __iter__(self) -> Iterable:
         def flatten(item: Any) -> Iterable:
-            # If the item is a OpSequence, iterate through its operations
-            if isinstance(item, OpSequence):
+            # If the item applies its operations one after the other, iterate through them
+            if isinstance(item, OpSequence) and type(item).__call__ is OpSequence.__call__:
                 for sub_item in item.operations:
                     yield from flatten(sub_item)
-            # If the item is not a OpSequence, yield it directly
+            # Otherwise (gates, but also sums and scaled operations), yield it directly
             else:
                 yield item
 
@@ -82,11 +82,13 @@ class OpSequence:
         """
         from horqrux.primitives import Parametric
 
-        return set(
-            op.param
-            for op in list(iter(self))  # type: ignore[type-var]
-            if isinstance(op, Parametric) and op.is_parametric
-        )
+        names: set[str] = set()
+        for op in self.operations:
+            if isinstance(op, OpSequence):
+                names |= op.param_names
+            elif isinstance(op, Parametric) and op.is_parametric:
+                names.add(op.param)
+        return names
 
     @property
     def n_vparams(self) -> int:
-- 
2.43.0


From 4d3b80603956cacbd7923356ed05c904f1b8a640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:05 +0000
Subject: [PATCH 28/29] fix: observables outside the register of a density
 matrix are refused

---
 horqrux/differentiation/ad.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/horqrux/differentiation/ad.py b/horqrux/differentiation/ad.py
index 608bbde..78c5e09 100644
--- a/horqrux/differentiation/ad.py
+++ b/horqrux/differentiation/ad.py
@@ -62,6 +62,8 @@ def _(
     values: dict[str, float],
 ) -> Array:
     n_qubits = num_qubits(state)
+    if not set(observable.qubit_support).issubset(range(n_qubits)):
+        raise ValueError(f"The observable acts on qubits outside of the {n_qubits} qubits.")
     mat_obs = observable.tensor(values)
     d = 2**n_qubits
     prod = apply_operator(state.array, mat_obs, observable.qubit_support, (None,)).reshape((d, d))
-- 
2.43.0


From 4b7711e878fce3af40a9142d39562be178116656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 29/29] fix: matrices of controlled gates can be computed under
 jit

---
 horqrux/utils/operator_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index 4dcffc5..4ad4043 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -268,14 +268,14 @@ def prepare_controlled(
     full_dim = 2**ntotal_qubits
 
     # Compute the control mask using bit manipulation
-    control_mask = jnp.sum(
-        jnp.array(
+    control_mask = np.sum(
+        np.array(
             [1 << (ntotal_qubits - control_qubit - 1) for control_qubit in control_ind_support]
         )
     )
 
     # Create indices for the controlled subspace
-    indices = jnp.arange(full_dim)
+    indices = np.arange(full_dim)
     controlled_indices = indices[(indices & control_mask) == control_mask]
     return full_dim, controlled_indices
 
-- 
2.43.0

