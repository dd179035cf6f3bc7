From d6f1827a3fee37b2c143ab4621f3ae4daf3b25f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:43 +0000
Subject: [PATCH 01/66] fix: raise the intended ValueError for unknown
 multi-qubit operations

'Operation' has no attribute 'label', so simulating an unsupported multi-qubit
operation failed with an AttributeError while formatting the error message.
---
 dwave/gate/simulator/simulator.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 9dd3f66..a37d5fa 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -120,7 +120,7 @@ def apply_instruction(
         # apply single qubit gate
         if op.num_qubits != 1:
             raise ValueError(
-                f"simulator encountered unknown multi-qubit operation: {op.label}"
+                f"simulator encountered unknown multi-qubit operation: {op.name}"
             )
         gate = op.matrix
         if conjugate_gate:
-- 
2.43.0


From 843da1c10757b9574027be1098ec9fd294fe13ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:43 +0000
Subject: [PATCH 02/66] fix: refuse to simulate operations with more than two
 controls

They were silently skipped, leaving a wrong state in the circuit.
---
 dwave/gate/simulator/simulator.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index a37d5fa..9539686 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -116,6 +116,11 @@ def apply_instruction(
                 num_qubits, state, gate, target, control0, control1,
                 little_endian=little_endian,
             )
+
+        else:
+            raise ValueError(
+                f"simulator does not support operations with {op.num_control} controls: {op.name}"
+            )
     else:
         # apply single qubit gate
         if op.num_qubits != 1:
-- 
2.43.0


From a9caa26cf24d531b7572780e69ba6a8611e6c824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:43 +0000
Subject: [PATCH 03/66] fix: simulate gates whose matrix is not a C-contiguous
 complex array

The kernels read the raw buffer in row-major order, so that Fortran-ordered,
transposed or sliced matrices were silently simulated as a different gate, and
real or integer matrices raised. Matrices of another shape are refused.
---
 dwave/gate/simulator/simulator.pyx | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 9539686..0d21465 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -41,6 +41,14 @@ from dwave.gate.simulator.ops cimport (
 )
 
 
+def _single_qubit_matrix(op, matrix, conjugate: bool = False) -> np.ndarray:
+    """Return the matrix in the memory layout and with the type that the kernels read."""
+    gate = np.ascontiguousarray(matrix, dtype=np.complex128)
+    if gate.shape != (2, 2):
+        raise ValueError(f"expected a 2x2 matrix for operation {op.name}, got shape {gate.shape}")
+    return gate.conjugate() if conjugate else gate
+
+
 def apply_instruction(
     num_qubits: int,
     state: np.ndarray,
@@ -95,9 +103,7 @@ def apply_instruction(
             gate = op.target_operation(op.parameters).matrix
         else:
             gate = op.target_operation.matrix
-        assert gate.shape == (2, 2), (op, gate)
-        if conjugate_gate:
-            gate = np.ascontiguousarray(gate.conjugate())
+        gate = _single_qubit_matrix(op, gate, conjugate_gate)
 
         if op.num_control == 1:
             target = targets[1]
@@ -127,9 +133,7 @@ def apply_instruction(
             raise ValueError(
                 f"simulator encountered unknown multi-qubit operation: {op.name}"
             )
-        gate = op.matrix
-        if conjugate_gate:
-            gate = np.ascontiguousarray(gate.conjugate())
+        gate = _single_qubit_matrix(op, op.matrix, conjugate_gate)
 
         target = targets[0]
         single_qubit(num_qubits, state, gate, target, little_endian=little_endian)
-- 
2.43.0


From 658bc8d966cd6e9490963e7bd9967ca422022083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:43 +0000
Subject: [PATCH 04/66] fix: refuse to simulate a gate on repeated qubits

The kernels assume distinct targets and controls; for e.g. CX(q, q) they left a
state that is not the result of any quantum operation.
---
 dwave/gate/simulator/simulator.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 0d21465..1410322 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -66,6 +66,9 @@ def apply_instruction(
             raise CircuitError("Measurements only supports big-endian qubit indexing.")
         _measure(op, state, targets, rng)
 
+    elif len(set(targets)) != len(targets):
+        raise ValueError(f"operation {op.name} is applied to the same qubit more than once")
+
     elif isinstance(op, ops.SWAP):
         gate = op.matrix
         target0 = targets[1]
-- 
2.43.0


From b58e44908196eb8eed76305d3a8279ef6fb94e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 05/66] fix: conjugate the bra when forming a density matrix
 from a pure state

'Circuit.density_matrix' returned |psi><psi*|, which is not Hermitian for
complex amplitudes.
---
 dwave/gate/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 17353f2..3408b86 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -251,7 +251,7 @@ class Circuit:
     def density_matrix(self) -> Optional[NDArray]:
         """The density matrix representation of the state."""
         if self._state is not None and self._density_matrix is None:
-            self._density_matrix = self._state.reshape(-1, 1) @ self._state.reshape(1, -1)
+            self._density_matrix = self._state.reshape(-1, 1) @ self._state.conj().reshape(1, -1)
         return self._density_matrix
 
     def set_state(self, state: NDArray, force: bool = False, normalize: bool = False) -> None:
-- 
2.43.0


From 6ae39c526420061fb31e2879b47f0f1dc144e67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 06/66] fix: honour little_endian in density matrix simulations

The argument was not passed on, so that 'simulate(circuit, mixed_state=True,
little_endian=True)' returned the big-endian result.
---
 dwave/gate/simulator/simulator.pyx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 1410322..14908c7 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -173,7 +173,7 @@ def simulate(
     rng = np.random.default_rng(rng_seed)
 
     if mixed_state:
-        state = _simulate_circuit_density_matrix(circuit, rng)
+        state = _simulate_circuit_density_matrix(circuit, rng, little_endian)
     else:
         state = np.zeros(1 << num_qubits, dtype=np.complex128)
         state[0] = 1
@@ -242,17 +242,22 @@ def _simulate_circuit_density_matrix(
     state = np.zeros(1 << num_virtual_qubits, dtype=np.complex128)
     state[0] = 1
 
+    # the row index makes up the upper half of the bits of the state index, which
+    # belongs to the last qubits when using little-endian indexing
+    row_offset, col_offset = (num_qubits, 0) if little_endian else (0, num_qubits)
+
     for op in circuit.circuit:
         if isinstance(op, ops.Measurement):
             _measure(op, state, circuit, rng)
         else:
             # first apply the gate normally
-            targets = [circuit.qubits.index(qb) for qb in op.qubits]
+            qubit_idx = [circuit.qubits.index(qb) for qb in op.qubits]
+            targets = [idx + row_offset for idx in qubit_idx]
             apply_instruction(
                 num_virtual_qubits, state, op, targets, little_endian, rng
             )
             # then apply conjugate transpose to corresponding virtual qubit
-            virtual_targets = [t + num_qubits for t in targets]
+            virtual_targets = [idx + col_offset for idx in qubit_idx]
             apply_instruction(
                 num_virtual_qubits, state, op, virtual_targets, little_endian, rng,
                 conjugate_gate=True,
-- 
2.43.0


From 5d3058c8d9dabd9f974983349c66e859ab2ee49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 07/66] fix: discard measurement records of earlier simulations

The measured qubit indices were accumulated over simulations, so that samples
of a circuit that was simulated twice listed every measured qubit twice, and a
measurement that was blocked in the latest simulation kept an old state.
---
 dwave/gate/simulator/simulator.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 14908c7..5ea027a 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -172,6 +172,12 @@ def simulate(
 
     rng = np.random.default_rng(rng_seed)
 
+    # discard the measurement records of any previous simulation
+    for op in circuit.circuit:
+        if isinstance(op, ops.Measurement):
+            op._measured_state = None
+            op._measured_qubit_indices = []
+
     if mixed_state:
         state = _simulate_circuit_density_matrix(circuit, rng, little_endian)
     else:
-- 
2.43.0


From 0d1aba8e83127e0bda24174bee033b71c8671b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 08/66] fix: keep evaluated operations tied to their qubits and
 condition bits

'ParametricOperation.eval' made a deep copy, so that an evaluated operation was
conditioned on copies of its bits which no measurement ever sets, and was
always executed.
---
 dwave/gate/operations/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index d2dd45b..993b8a3 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -395,7 +395,13 @@ class ParametricOperation(Operation):
         Raises:
             ValueError: If no parameters are passed and if variable has no set value.
         """
-        op = self if inplace else copy.deepcopy(self)
+        if inplace:
+            op = self
+        else:
+            # the copy must refer to the same qubits and bits as the original; only its
+            # parameters are its own
+            op = copy.copy(self)
+            op._parameters = list(self._parameters)
 
         for i, p in enumerate(op.parameters):
             if isinstance(p, Variable):
-- 
2.43.0


From 32e883fc60a37d0149ba79af6ab9b78bf73c0aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 09/66] fix: refuse qubits outside of the state before calling
 the generated kernels

---
 dwave/gate/simulator/simulator.pyx | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 5ea027a..66bc20d 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -61,6 +61,10 @@ def apply_instruction(
     if op.is_blocked:
         return
 
+    # the generated functions access the state without any bounds checking
+    if not all(0 <= target < num_qubits for target in targets):
+        raise ValueError(f"operation {op.name} is applied to a qubit outside of the state")
+
     if isinstance(op, ops.Measurement):
         if little_endian:
             raise CircuitError("Measurements only supports big-endian qubit indexing.")
@@ -210,13 +214,28 @@ def sample_qubit(
 
     Returns:
         int: The measurement sample (0 or 1).
+
+    Raises:
+        ValueError: If the length of the state is not a power of 2 or if the state does not
+            contain the qubit.
     """
-    cdef int num_qubits = round(np.log2(state.shape[0]))
+    cdef complex[::1] amplitudes = state
+    cdef Py_ssize_t num_states = amplitudes.shape[0]
+    cdef Py_ssize_t target = qubit
+    cdef int num_qubits = int(num_states).bit_length() - 1
+
+    # the generated functions access the state without any bounds checking
+    if num_states < 1 or num_states & (num_states - 1):
+        raise ValueError(f"State of length {num_states} is not a state of a number of qubits.")
+    if not 0 <= target < num_qubits:
+        raise ValueError(
+            f"Cannot sample qubit {target} (count. from 0). State has only {num_qubits} qubits."
+        )
 
     return measurement_computational_basis(
         num_qubits,
-        state,
-        qubit,
+        amplitudes,
+        target,
         rng,
         little_endian=little_endian,
         apply_operator=collapse_state,
-- 
2.43.0


From 54e0fbc855b142d7462b8b8f88809fc034d83356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 10/66] fix: use 64-bit shifts in the generated kernels

---
 dwave/gate/simulator/operation_generation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/simulator/operation_generation.py b/dwave/gate/simulator/operation_generation.py
index 5449852..5e18a65 100644
--- a/dwave/gate/simulator/operation_generation.py
+++ b/dwave/gate/simulator/operation_generation.py
@@ -191,7 +191,8 @@ def generate_op_c_code(
         return qubit
 
     def shift(value, idx):
-        return f"({value} << {idx})"
+        # the literal must be 64 bits wide, or the shift overflows for 31 qubits or more
+        return f"((uint64_t) {value} << {idx})"
 
     output_sub_states: set[int] = set()
     dependent_sub_states: set[int] = set()
@@ -302,7 +303,7 @@ def generate_op_c_code(
     body = c.Block(
         [
             # number of total states
-            c.Initializer(num_states, f"1 << {num_qubits.name}"),
+            c.Initializer(num_states, shift(1, num_qubits.name)),
             # this array will hold every "position" of the qubits affected by the gate in
             # sorted order
             c.Initializer(
@@ -317,7 +318,7 @@ def generate_op_c_code(
             # initialize all of the "masks". these will be used to generate the correct
             # state index
             *[
-                c.Initializer(mask, f"(1 << {positions.name}[{i}]) - 1")
+                c.Initializer(mask, f"{shift(1, f'{positions.name}[{i}]')} - 1")
                 for i, mask in enumerate(masks)
             ],
             c.Initializer(control_mask, control_mask_init),
-- 
2.43.0


From ea323e8f51c3dfe1f53cc0d1d0d37a077d0918bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 11/66] fix: slice registers with any bounds and steps

---
 dwave/gate/registers/cyregister.pyx | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/dwave/gate/registers/cyregister.pyx b/dwave/gate/registers/cyregister.pyx
index c737823..119b57b 100644
--- a/dwave/gate/registers/cyregister.pyx
+++ b/dwave/gate/registers/cyregister.pyx
@@ -59,17 +59,15 @@ cdef class cyRegister:
             return self.at(idx)
         except TypeError:
             pass
+        except OverflowError as e:
+            raise IndexError('index out of range') from e
 
         if not isinstance(idx, slice):
             raise TypeError(f"indices must be integers or slices, not {type(idx)}")
 
-        cdef Py_ssize_t start = 0 if idx.start is None else idx.start
-        cdef Py_ssize_t stop = self.size() if idx.stop is None else idx.stop
-        cdef Py_ssize_t step = 1 if idx.step is None else idx.step
-
         cdef Py_ssize_t i
         cdef cyRegister new = type(self)()
-        for i in range(start, stop, step):
+        for i in range(*idx.indices(self.size())):
             new._append(self.at(i), permissive=False)
         return new
 
-- 
2.43.0


From d3a2fedd5dce71f62caf9fd0b2cd1a2f599de01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 12/66] fix: make copies and sums of registers usable

---
 dwave/gate/registers/registers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/registers/registers.py b/dwave/gate/registers/registers.py
index 431a100..d4f8d57 100644
--- a/dwave/gate/registers/registers.py
+++ b/dwave/gate/registers/registers.py
@@ -45,6 +45,9 @@ class Register(cyRegister, AbstractSet[Data], Sequence[Data]):
         data: Sequence of hashable data items (defaults to empty).
     """
 
+    # default for registers created by copying, which doesn't call '__init__'
+    _frozen: bool = False
+
     def __init__(self, data: Optional[Sequence[Data]] = None) -> None:
         self._frozen = False
         super().__init__(data or [])
-- 
2.43.0


From 36c544790bc77b6878fedffe874ff212f870dead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 13/66] fix: keep register items that compare equal to their
 index

---
 dwave/gate/registers/cyregister.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/registers/cyregister.pyx b/dwave/gate/registers/cyregister.pyx
index 119b57b..4e0276b 100644
--- a/dwave/gate/registers/cyregister.pyx
+++ b/dwave/gate/registers/cyregister.pyx
@@ -117,7 +117,8 @@ cdef class cyRegister:
 
         idx = self._stop
 
-        if idx != v:
+        # only numbers may be implied by their index; other items may happen to be equal to it
+        if not isinstance(v, Number) or idx != v:
             self._label_to_index[v] = idx
             self._index_to_label[idx] = v
 
@@ -185,7 +186,7 @@ cdef class cyRegister:
 
                 idx = self._label_to_index.pop(old, old)
 
-                if new != idx:
+                if not isinstance(new, Number) or new != idx:
                     self._label_to_index[new] = idx
                     self._index_to_label[idx] = new  # overwrites old idx
                 else:
-- 
2.43.0


From be9b5ded9a73438f15e8f1967c73f6e449d10b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:36 +0000
Subject: [PATCH 14/66] fix: look up numbers that are not representable as an
 index

---
 dwave/gate/registers/cyregister.pyx | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/dwave/gate/registers/cyregister.pyx b/dwave/gate/registers/cyregister.pyx
index 4e0276b..015b20a 100644
--- a/dwave/gate/registers/cyregister.pyx
+++ b/dwave/gate/registers/cyregister.pyx
@@ -270,7 +270,12 @@ cdef class cyRegister:
 
     cdef Py_ssize_t _count_int(self, object v) except -1:
         # only works when v is an int
-        cdef Py_ssize_t vi = v
+        cdef Py_ssize_t vi
+        try:
+            vi = v
+        except OverflowError:
+            # cannot be an index, only a label
+            return v in self._label_to_index
 
         if self._is_range():
             return 0 <= vi < self._stop
@@ -290,9 +295,13 @@ cdef class cyRegister:
 
         # handle other numeric types
         if isinstance(v, Number):
-            v_int = int(v)  # assume this is safe because it's a number
-            if v_int == v:
-                return self._count_int(v_int)  # it's an integer afterall!
+            try:
+                v_int = int(v.real)
+            except (AttributeError, OverflowError, TypeError, ValueError):
+                pass  # not finite or not convertible, so not an integer
+            else:
+                if v_int == v:
+                    return self._count_int(v_int)  # it's an integer afterall!
 
         try:
             return v in self._label_to_index
@@ -322,7 +331,7 @@ cdef class cyRegister:
             raise ValueError('unknown register item {!r}'.format(v))
 
         if self._is_range():
-            return v if PyLong_Check(v) else int(v)
+            return v if PyLong_Check(v) else int(v.real)
 
         # faster than self._label_to_index.get
         cdef PyObject* obj = PyDict_GetItemWithError(self._label_to_index, v)
@@ -331,7 +340,7 @@ cdef class cyRegister:
         else:
             pyobj = <object>obj  # correctly updates ref count
 
-        return pyobj if PyLong_Check(pyobj) else int(pyobj)
+        return pyobj if PyLong_Check(pyobj) else int(pyobj.real)
 
     cdef Py_ssize_t size(self):
         """The number of register items.
-- 
2.43.0


From 7951dd5f6c96cf53649fd74903554c6490be729d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:42 +0000
Subject: [PATCH 15/66] fix: allow slicing parameter registers

---
 dwave/gate/registers/registers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/registers/registers.py b/dwave/gate/registers/registers.py
index d4f8d57..70a839d 100644
--- a/dwave/gate/registers/registers.py
+++ b/dwave/gate/registers/registers.py
@@ -208,6 +208,6 @@ class SelfIncrementingRegister(Register):
         Returns:
             Hashable: The parameter at the specified index.
         """
-        if index >= len(self.data) and not self.frozen:
+        if not isinstance(index, slice) and index >= len(self.data) and not self.frozen:
             self.add([Variable(str(i)) for i in range(len(self.data), index + 1)])
         return super().__getitem__(index)  # type: ignore
-- 
2.43.0


From 9541987b188ce749102517909b99ea1e5f95f9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:49 +0000
Subject: [PATCH 16/66] fix: refuse adding items to frozen registers by
 permissive lookup

---
 dwave/gate/registers/registers.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dwave/gate/registers/registers.py b/dwave/gate/registers/registers.py
index 70a839d..488282e 100644
--- a/dwave/gate/registers/registers.py
+++ b/dwave/gate/registers/registers.py
@@ -111,6 +111,20 @@ class Register(cyRegister, AbstractSet[Data], Sequence[Data]):
 
         self._extend(data)
 
+    def index(self, v: Hashable, permissive: bool = False) -> int:
+        """Return the index of an item.
+
+        Args:
+            v: A register item.
+            permissive: If ``True``, the item will be added if it is not in the register.
+
+        Returns:
+            int: The index of the given item.
+        """
+        if permissive and v not in self:
+            self.add([v])
+        return super().index(v)
+
 
 class QuantumRegister(Register[Qubit]):
     """Quantum register to store qubits.
-- 
2.43.0


From 9b8f0eb80c8bd669e7c47da7db84d584b127238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:29 +0000
Subject: [PATCH 17/66] fix: never pass misaligned arrays to the generated
 kernels

---
 dwave/gate/simulator/simulator.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/simulator/simulator.pyx b/dwave/gate/simulator/simulator.pyx
index 66bc20d..8d9db31 100644
--- a/dwave/gate/simulator/simulator.pyx
+++ b/dwave/gate/simulator/simulator.pyx
@@ -27,6 +27,7 @@ from typing import List, Optional
 
 import numpy as np
 cimport numpy as np
+from libc.stdint cimport uintptr_t
 
 import dwave.gate.operations as ops
 from dwave.gate.circuit import Circuit, CircuitError
@@ -43,7 +44,7 @@ from dwave.gate.simulator.ops cimport (
 
 def _single_qubit_matrix(op, matrix, conjugate: bool = False) -> np.ndarray:
     """Return the matrix in the memory layout and with the type that the kernels read."""
-    gate = np.ascontiguousarray(matrix, dtype=np.complex128)
+    gate = np.require(matrix, dtype=np.complex128, requirements=["C", "A"])
     if gate.shape != (2, 2):
         raise ValueError(f"expected a 2x2 matrix for operation {op.name}, got shape {gate.shape}")
     return gate.conjugate() if conjugate else gate
@@ -227,6 +228,8 @@ def sample_qubit(
     # the generated functions access the state without any bounds checking
     if num_states < 1 or num_states & (num_states - 1):
         raise ValueError(f"State of length {num_states} is not a state of a number of qubits.")
+    if <uintptr_t>&amplitudes[0] % sizeof(double):
+        raise ValueError("State must be aligned in memory.")
     if not 0 <= target < num_qubits:
         raise ValueError(
             f"Cannot sample qubit {target} (count. from 0). State has only {num_qubits} qubits."
-- 
2.43.0


From 1e176fdc6ab91dec919b2f3a57eabf24614bafb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 18/66] fix: keep a register's mappings alive while they are
 used

---
 dwave/gate/registers/cyregister.pyx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/registers/cyregister.pyx b/dwave/gate/registers/cyregister.pyx
index 015b20a..7466828 100644
--- a/dwave/gate/registers/cyregister.pyx
+++ b/dwave/gate/registers/cyregister.pyx
@@ -28,8 +28,13 @@ cdef extern from "Python.h":
 
 cdef class cyRegister:
     def __init__(self, object iterable=None):
-        self._index_to_label = dict()
-        self._label_to_index = dict()
+        if self._index_to_label is None:
+            self._index_to_label = dict()
+            self._label_to_index = dict()
+        else:
+            # not replaced, since they may be in use when this is called again
+            iterable = list(iterable) if iterable is self else iterable
+            self._clear()
         self._stop = 0
 
         if iterable is not None:
-- 
2.43.0


From f8baa27d3b365cc0ea1a103794778c27f58ed376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 19/66] fix: matrices of controlled operations inside a circuit
 context

---
 dwave/gate/operations/base.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 993b8a3..22a36b7 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -557,16 +557,18 @@ class ControlledOperation(Operation):
         num_qubits = getattr(cls, "num_qubits", 2)
         num_control = getattr(cls, "num_control", 1)
 
-        if CircuitContext.active_context and self.control and self.target:
-            control_idx = [
-                CircuitContext.active_context.circuit.qubits.index(c) for c in self.control
-            ]
-            target_idx = [
-                CircuitContext.active_context.circuit.qubits.index(t) for t in self.target
-            ]
-        else:
-            control_idx = list(range(num_control))
-            target_idx = list(range(num_control, num_qubits))
+        control_idx = list(range(num_control))
+        target_idx = list(range(num_control, num_qubits))
+
+        if CircuitContext.active_context and self is not None and self.control and self.target:
+            circuit_qubits = CircuitContext.active_context.circuit.qubits
+            qubits = [*self.control, *self.target]
+
+            if all(qb in circuit_qubits for qb in qubits):
+                # the matrix is for the operation's qubits only, in the order of the circuit
+                order = sorted(qubits, key=circuit_qubits.index)
+                control_idx = [order.index(c) for c in self.control]
+                target_idx = [order.index(t) for t in self.target]
 
         matrix = build_controlled_unitary(
             control_idx, target_idx, target_unitary, num_qubits=num_qubits
@@ -649,7 +651,14 @@ class ParametricControlledOperation(ControlledOperation, ParametricOperation):
     @mixedproperty(self_required=True)
     def matrix(cls, self) -> NDArray:
         """The matrix representation of the parametric controlled operation."""
-        self._target_matrix = cls.target_operation(self.parameters).matrix
+        # the target operation is only needed for its matrix; it's created outside of any active
+        # context, in which it would require qubits and be appended to the circuit
+        active_context = CircuitContext._active_context
+        CircuitContext._active_context = None
+        try:
+            self._target_matrix = cls.target_operation(self.parameters).matrix
+        finally:
+            CircuitContext._active_context = active_context
 
         # signature of super required for correct self to be passed along (do not remove)
         # if removed, 'matrix' attribute will crash due to '_target_matrix' not found
-- 
2.43.0


From 9eac3e34eac0690349b93d20418a49b84c4b9c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 20/66] fix: build the unitary of a circuit's present content

---
 dwave/gate/tools/unitary.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index 183b8f7..6ea1481 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -21,7 +21,6 @@ __all__ = [
 
 import itertools
 from collections.abc import Sequence
-from functools import lru_cache
 from typing import TYPE_CHECKING, Optional, Union
 
 import numpy as np
@@ -40,7 +39,6 @@ if TYPE_CHECKING:
 # TODO: exchange for something better; only here for testing matrix creation
 # for custom operations; controlled operations only works with single
 # control and target; no support for any other multi-qubit gates
-@lru_cache(maxsize=128)
 def build_unitary(circuit) -> NDArray:
     """Builds the circuit unitary by multiplying together the operation matrices.
 
-- 
2.43.0


From 21ce753ca258d2c000c70572366b73c426355827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 21/66] fix: build unitaries of circuits with parametric
 controlled operations

---
 dwave/gate/operations/base.py | 11 +++++++----
 dwave/gate/tools/unitary.py   |  8 +++++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 22a36b7..c3772c6 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -648,18 +648,21 @@ class ParametricControlledOperation(ControlledOperation, ParametricOperation):
 
         return self.__class__(self.parameters, control, target)  # type: ignore
 
-    @mixedproperty(self_required=True)
-    def matrix(cls, self) -> NDArray:
-        """The matrix representation of the parametric controlled operation."""
+    @property
+    def _target_matrix(self) -> NDArray:
+        """The matrix representation of the target operation with the current parameters."""
         # the target operation is only needed for its matrix; it's created outside of any active
         # context, in which it would require qubits and be appended to the circuit
         active_context = CircuitContext._active_context
         CircuitContext._active_context = None
         try:
-            self._target_matrix = cls.target_operation(self.parameters).matrix
+            return self.target_operation(self.parameters).matrix
         finally:
             CircuitContext._active_context = active_context
 
+    @mixedproperty(self_required=True)
+    def matrix(cls, self) -> NDArray:
+        """The matrix representation of the parametric controlled operation."""
         # signature of super required for correct self to be passed along (do not remove)
         # if removed, 'matrix' attribute will crash due to '_target_matrix' not found
         return super(ParametricControlledOperation, self).matrix
diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index 6ea1481..0bed860 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -100,8 +100,14 @@ def _apply_controlled_gate(state: NDArray, op: ControlledOperation, qubits) -> N
     """
     control_idx = [qubits.index(c) for c in op.control or []]
     target_idx = [qubits.index(t) for t in op.target or []]
+    if hasattr(op, "parameters"):
+        # the matrix of the target operation depends on the parameters of the operation
+        target_unitary = op._target_matrix
+    else:
+        target_unitary = op.target_operation.matrix
+
     controlled_unitary = build_controlled_unitary(
-        control_idx, target_idx, op.target_operation.matrix, len(qubits)
+        control_idx, target_idx, target_unitary, len(qubits)
     )
     return controlled_unitary @ state
 
-- 
2.43.0


From 885b203fc2dea8d2bbed07544f4deb2a56962192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 22/66] fix: refuse repeated and negative indices in controlled
 unitaries

---
 dwave/gate/tools/unitary.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/tools/unitary.py b/dwave/gate/tools/unitary.py
index 0bed860..ce369d9 100644
--- a/dwave/gate/tools/unitary.py
+++ b/dwave/gate/tools/unitary.py
@@ -142,8 +142,14 @@ def build_controlled_unitary(
     if not set(control).isdisjoint(target):
         raise ValueError("Control qubits and target qubit cannot be the same.")
 
+    if len(set(control)) != len(control):
+        raise ValueError("Control qubits must be unique.")
+
+    if min(itertools.chain.from_iterable((control, target))) < 0:
+        raise ValueError("Qubit indices cannot be negative.")
+
     max_ = max(itertools.chain.from_iterable((control, target)))
-    if isinstance(num_qubits, int) and num_qubits <= max_:
+    if num_qubits is not None and num_qubits <= max_:
         raise ValueError(
             f"Total number of qubits {num_qubits} must be larger or equal "
             f"to the largest qubit index {max_}."
@@ -154,7 +160,8 @@ def build_controlled_unitary(
         raise NotImplementedError("Multiple target not currently supported.")
 
     # if None, set number of qubits to the max control/target value + 1
-    num_qubits = num_qubits or max_ + 1
+    if num_qubits is None:
+        num_qubits = max_ + 1
 
     state = np.eye(2**num_qubits, dtype=dtype)
 
-- 
2.43.0


From 7adbdafeffea94a75c62814a6a8e24f209f7e19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 23/66] fix: bind parameters of created operations by the
 position of the variable

---
 dwave/gate/operations/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index c3772c6..4fdcb9b 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -133,14 +133,14 @@ def create_operation(circuit, name: Optional[str] = None) -> Type[CustomOperatio
             """
             circuit_copy = copy.deepcopy(circuit)
             if circuit.parametric:
-                parameters = self.parameters.copy()
+                # each parameter replaces the variable at the same position in the circuit
+                variables = circuit_copy._parameter_register
 
-                for i, op in enumerate(circuit_copy.circuit):
+                for op in circuit_copy.circuit:
                     if isinstance(op, ParametricOperation):
                         for j, param in enumerate(op.parameters):
                             if isinstance(param, Variable):
-                                circuit_copy.circuit[i].parameters[j] = parameters.pop(0)  # type: ignore
-                            self._matrix
+                                op.parameters[j] = self.parameters[variables.index(param)]
 
             return build_unitary(circuit_copy)
 
-- 
2.43.0


From 27821a8c4f8cce09b99a81f857484ef11dbab0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 24/66] fix: evaluate variables with the value zero

---
 dwave/gate/operations/base.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 4fdcb9b..338244e 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -403,15 +403,18 @@ class ParametricOperation(Operation):
             op = copy.copy(self)
             op._parameters = list(self._parameters)
 
-        for i, p in enumerate(op.parameters):
+        # evaluate all parameters before replacing any, in case one is not available
+        evaluated = list(op.parameters)
+        for i, p in enumerate(evaluated):
             if isinstance(p, Variable):
-                if parameters:
-                    op.parameters[i] = parameters[i]
-                elif p.value:
-                    op.parameters[i] = p.value
+                if parameters is not None and len(parameters) > 0:
+                    evaluated[i] = parameters[i]
+                elif p.value is not None:
+                    evaluated[i] = p.value
                 else:
                     raise ValueError("No available parameter to evaluate with.")
 
+        op._parameters[:] = evaluated
         return op
 
     @mixedproperty
-- 
2.43.0


From 23465a8ed787ba6b764dabfdde86c59dafb3008f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:16 +0000
Subject: [PATCH 25/66] fix: keep evaluated parameters of parametric controlled
 operations

---
 dwave/gate/operations/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 338244e..4d0ecf3 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -629,9 +629,9 @@ class ParametricControlledOperation(ControlledOperation, ParametricOperation):
         target: Optional[Qubits] = None,
         **kwargs,
     ):
-        # ControlledOperation.__init__(self, control, target, **kwargs)
+        # parameters are set by 'ParametricOperation.__init__'; they must not be set again here since
+        # they might have been evaluated when appending the operation to the active circuit
         super().__init__(control, target, parameters=parameters, **kwargs)
-        self._parameters = self._check_parameters(parameters)
 
     def __call__(
         self, control: Optional[Sequence[Qubit]] = None, target: Optional[Sequence[Qubit]] = None
-- 
2.43.0


From 0bdd84543d6ea4f00419c95acc8302d18d90bb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 26/66] fix: keep conditions, bits and controls of operations
 when applying circuits

---
 dwave/gate/circuit.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 3408b86..961de4f 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -115,7 +115,9 @@ class Circuit:
         if len(qubits) != len(self.qubits):
             raise ValueError(f"Circuit requires {len(self.qubits)} qubits, got {len(qubits)}.")
 
-        if bits:
+        # bits that are not mapped to another bit are used as they are
+        bit_map = {}
+        if bits is not None:
             if isinstance(bits, Bit):
                 bits = [bits]
 
@@ -136,23 +138,29 @@ class Circuit:
                 ParametricOperation,
             )
 
-            if isinstance(op, Measurement):
-                if bits:
-                    mapped_bits = [bit_map[qb] for qb in op.bits or []]
-                    op.__class__(qubits=mapped_qubits) | mapped_bits
-                    continue
-                else:
-                    warnings.warn(
-                        "Measurements not stored in circuit bits. "
-                        "Must pass bits to circuit call."
-                    )
+            if isinstance(op, Measurement) and bits is None:
+                warnings.warn(
+                    "Measurements not stored in circuit bits. Must pass bits to circuit call."
+                )
+
+            if isinstance(op, ControlledOperation):
+                qubit_args = {
+                    "control": [qubit_map[qb] for qb in op.control or []],
+                    "target": [qubit_map[qb] for qb in op.target or []],
+                }
+            else:
+                qubit_args = {"qubits": mapped_qubits}
 
             if isinstance(op, ParametricOperation):
-                op.__class__(op.parameters, qubits=mapped_qubits)
-            elif isinstance(op, ControlledOperation):
-                op.__class__(*mapped_qubits)
+                applied_op = op.__class__(op.parameters, **qubit_args)
             else:
-                op.__class__(qubits=mapped_qubits)
+                applied_op = op.__class__(**qubit_args)
+
+            if isinstance(op, Measurement) and bits is not None and op.bits is not None:
+                applied_op | [bit_map.get(bit, bit) for bit in op.bits]
+
+            if op._cond:
+                applied_op.conditional([bit_map.get(bit, bit) for bit in op._cond])
 
     @property
     def qregisters(self) -> Mapping[Hashable, QuantumRegister]:
-- 
2.43.0


From a32fac3d036d962f968cacdcd793553089443cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:32 +0000
Subject: [PATCH 27/66] fix: apply parametric circuits with the passed
 parameters in any circuit

---
 dwave/gate/circuit.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 961de4f..8f4e1ef 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -40,7 +40,7 @@ from typing import TYPE_CHECKING, Callable, ContextManager, NamedTuple, Optional
 import numpy as np
 
 from dwave.gate.mixedproperty import mixedproperty
-from dwave.gate.primitives import Bit, Qubit
+from dwave.gate.primitives import Bit, Qubit, Variable
 from dwave.gate.registers.registers import (
     ClassicalRegister,
     QuantumRegister,
@@ -152,7 +152,12 @@ class Circuit:
                 qubit_args = {"qubits": mapped_qubits}
 
             if isinstance(op, ParametricOperation):
-                applied_op = op.__class__(op.parameters, **qubit_args)
+                # variables only keep their values until the context is left
+                parameters = [
+                    p.value if isinstance(p, Variable) and p.value is not None else p
+                    for p in op.parameters
+                ]
+                applied_op = op.__class__(parameters, **qubit_args)
             else:
                 applied_op = op.__class__(**qubit_args)
 
@@ -717,13 +722,19 @@ class ParametricCircuit(Circuit):
             ValueError: If an invalid number of qubits are passed.
             CircuitError: If called outside of an active context.
         """
-        if CircuitContext.active_context:
+        active_context = CircuitContext.active_context
+        if active_context is not None and active_context.circuit is not self:
+            if len(parameters) != self.num_parameters:
+                raise ValueError(
+                    f"Circuit requires {self.num_parameters} parameters, got {len(parameters)}."
+                )
+
+            # delay reset variables function call to on context exit
+            CircuitContext.on_exit_functions.append(self.reset_variables)
+
             for i, var in enumerate(self._parameter_register):
                 var.set(parameters[i])
 
-        # delay reset variables function call to on context exit
-        CircuitContext.on_exit_functions.append(self.reset_variables)
-
         return super().__call__(qubits=qubits, bits=bits)
 
     def unlock(self) -> None:
-- 
2.43.0


From 58dd3219d7e2d855375326c3bd5ed2d608504257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 28/66] fix: compare and print variables with the value zero

---
 dwave/gate/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/primitives.py b/dwave/gate/primitives.py
index 38c6721..559cda0 100644
--- a/dwave/gate/primitives.py
+++ b/dwave/gate/primitives.py
@@ -175,13 +175,13 @@ class Variable:
         """Two variables are equal if they share the same label."""
         if isinstance(object, Variable):
             return self.name == object.name
-        if self._value and self._value == object:
+        if self._value is not None and self._value == object:
             return True
         return False
 
     def __repr__(self) -> str:
         """The representation of the variable is its label."""
-        if self._value:
+        if self._value is not None:
             return str(self.value)
         return f"{{{self.name}}}"
 
-- 
2.43.0


From 149580187e5451ec72a74355d046f6984dd0c446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:19 +0000
Subject: [PATCH 29/66] fix: update control and target when changing the qubits
 of an operation

---
 dwave/gate/operations/base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index 4d0ecf3..c5733d3 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -578,6 +578,17 @@ class ControlledOperation(Operation):
         )
         return matrix
 
+    @Operation.qubits.setter
+    def qubits(self, qubits: Sequence[Qubit]) -> None:
+        """Set the qubits that the operation should be applied to."""
+        Operation.qubits.fset(self, qubits)  # type: ignore
+
+        # keep the control and target qubits consistent with the qubits
+        num_control = self._num_control or self.num_control
+        self._control = self._qubits[:num_control]
+        self._target = self._qubits[num_control:]
+        self._num_control, self._num_target = len(self._control), len(self._target)
+
     @property
     def control(self) -> Optional[tuple[Qubit]]:
         """Control qubit(s)."""
-- 
2.43.0


From 1a1f0e7d1d4695eb3ff9f94eca6d232ae2b147c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 30/66] fix: restore the previous state when leaving a frozen
 context

---
 dwave/gate/circuit.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 8f4e1ef..a872497 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -864,13 +864,19 @@ class CircuitContext:
         """
 
         class FrozenContext:
+            def __init__(self) -> None:
+                # frozen contexts and whether they were frozen already, most recent one last
+                self._entered: list[tuple[CircuitContext, bool]] = []
+
             def __enter__(self) -> None:
                 if cls.active_context is None:
                     raise CircuitError("Can only freeze active context. No active context found.")
+                self._entered.append((cls.active_context, cls.active_context._frozen))
                 cls.active_context._frozen = True
 
             def __exit__(self, _, __, ___) -> None:
-                cls.active_context._frozen = False
+                context, was_frozen = self._entered.pop()
+                context._frozen = was_frozen
 
         return FrozenContext()
 
-- 
2.43.0


From a1eb93a0d3e36c3ae6601aac0211d21c25fbfe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 31/66] fix: leave registers untouched when refusing to add a
 qubit or bit

---
 dwave/gate/circuit.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index a872497..942bf07 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -385,6 +385,10 @@ class Circuit:
         if qubit is not None and not isinstance(qubit, Qubit):
             raise TypeError(f"Can only add qubits to circuit. Got '{type(qubit).__name__}'.")
 
+        # NOTE: same qubit in different registers NOT allowed
+        if qubit in self.qubits:
+            raise ValueError(f"Qubit '{qubit}' already in use in the circuit.")
+
         if qreg_label is not None:
             if qreg_label not in self.qregisters:
                 self.add_qregister(label=qreg_label)
@@ -393,14 +397,9 @@ class Circuit:
                 self.add_qregister()
             qreg_label = list(self.qregisters)[0]
 
-        # NOTE: same qubit in different registers NOT allowed
-        if qubit in self.qubits:
-            raise ValueError(f"Qubit '{qubit}' already in use in quantum register '{qreg_label}'.")
-
         self.qregisters[qreg_label].add(qubit or Qubit(str(self.num_qubits)))
 
-        # remove cached 'qubits' attribute when updating 'qregisters';
-        # will always be in 'self.__dict__' since 'self.qubits' is called above
+        # remove cached 'qubits' attribute when updating 'qregisters'
         if "qubits" in self.__dict__:  # pragma: no cover
             del self.qubits
 
@@ -415,6 +414,10 @@ class Circuit:
         if bit is not None and not isinstance(bit, Bit):
             raise TypeError(f"Can only add bits to circuit. Got '{type(bit).__name__}'.")
 
+        # NOTE: same bit in different registers NOT allowed
+        if bit in self.bits:
+            raise ValueError(f"Bit '{bit}' already in use in the circuit.")
+
         if creg_label is not None:
             if creg_label not in self.cregisters:
                 self.add_cregister(label=creg_label)
@@ -423,10 +426,6 @@ class Circuit:
                 self.add_cregister()
             creg_label = list(self.cregisters)[0]
 
-        # NOTE: same bit in different registers NOT allowed
-        if self.bits and bit in self.bits:
-            raise ValueError(f"Bit '{bit}' already in use in classical register '{creg_label}'.")
-
         self.cregisters[creg_label].add(bit or Bit(str(self.num_bits)))
 
         # remove cached 'bits' attribute when updating 'cregisters'
-- 
2.43.0


From e81539e4ffb1b265302a7b3b77e56052d5e61e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 32/66] fix: add bits that are set to zero to circuits

---
 dwave/gate/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 942bf07..469f8bd 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -426,7 +426,7 @@ class Circuit:
                 self.add_cregister()
             creg_label = list(self.cregisters)[0]
 
-        self.cregisters[creg_label].add(bit or Bit(str(self.num_bits)))
+        self.cregisters[creg_label].add(Bit(str(self.num_bits)) if bit is None else bit)
 
         # remove cached 'bits' attribute when updating 'cregisters'
         # will always be in 'self.__dict__' since 'self.bits' is called above
-- 
2.43.0


From 28f88332d691a885785c8cb5f6918c816d67c1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 33/66] fix: choose default register labels that are not in use

---
 dwave/gate/circuit.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 469f8bd..b489b5e 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -442,7 +442,10 @@ class Circuit:
                 integer starting at 0).
         """
         if label is None:
-            label = f"qreg{len(self.qregisters)}"
+            idx = len(self.qregisters)
+            while f"qreg{idx}" in self.qregisters:
+                idx += 1
+            label = f"qreg{idx}"
 
         if label in self._qregisters:
             raise ValueError(f"Quantum register {label} already present in the circuit.")
@@ -464,7 +467,10 @@ class Circuit:
                 integer starting at 0).
         """
         if label is None:
-            label = f"creg{len(self.cregisters)}"
+            idx = len(self.cregisters)
+            while f"creg{idx}" in self.cregisters:
+                idx += 1
+            label = f"creg{idx}"
 
         if label in self._cregisters:
             raise ValueError(f"Classical register {label} already present in the circuit")
-- 
2.43.0


From 029577d3f7dd0510e117ebfed07df4b895f9c09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 34/66] fix: look up qubits and bits in registers with falsy
 labels

---
 dwave/gate/circuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index b489b5e..c6c552a 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -504,7 +504,7 @@ class Circuit:
             Qubit: Qubit with the specified label. If there are several with the same name,
             only the first occuring qubit will be returned unless ``return_all`` is ``True``.
         """
-        if qreg_label:
+        if qreg_label is not None:
             qregisters = self.qregisters[qreg_label]
         else:
             qregisters = itertools.chain.from_iterable(self.qregisters.values())
@@ -560,7 +560,7 @@ class Circuit:
             Bit: Bit with the specified label. If there are several with the same name,
             only the first occuring bit will be returned unless ``return_all`` is ``True``.
         """
-        if creg_label:
+        if creg_label is not None:
             cregisters = self.cregisters[creg_label]
         else:
             cregisters = itertools.chain.from_iterable(self.cregisters.values())
-- 
2.43.0


From bf1728dfe8e9a614899614d3e6ebd48c6b3c8e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:28 +0000
Subject: [PATCH 35/66] fix: remove all traces of the previous circuit when
 resetting

---
 dwave/gate/circuit.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index c6c552a..facecb3 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -363,9 +363,18 @@ class Circuit:
         """
         self._circuit.clear()
         self._circuit_context = None
+
+        # the state belongs to the operations (and registers) that are removed
+        self._state = None
+        self._density_matrix = None
+
         if not keep_registers:
             self._qregisters.clear()
             self._cregisters.clear()
+
+            # remove cached attributes when updating the registers
+            self.__dict__.pop("qubits", None)
+            self.__dict__.pop("bits", None)
         else:
             for bit in self.bits:
                 bit.reset()
@@ -747,6 +756,20 @@ class ParametricCircuit(Circuit):
         self._parameter_register._frozen = False
         return super().unlock()
 
+    def reset(self, keep_registers: bool = True) -> None:
+        """Resets the circuit so that it can be reused.
+
+        Args:
+            keep_registers: If ``False``, deletes the quantum, classical and
+                parameter registers, removing all the current qubits in the
+                circuit, including those created at initialization (defaults
+                to ``True``).
+        """
+        if not keep_registers:
+            self._parameter_register = SelfIncrementingRegister()
+
+        super().reset(keep_registers)
+
     def eval(
         self, parameters: Optional[Sequence[Sequence[complex]]] = None, inplace: bool = False
     ) -> ParametricCircuit:
-- 
2.43.0


From f21748891cdbdd4b18f5dff1539a43ab869e1edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 36/66] fix: compare operations of any kinds without raising

---
 dwave/gate/operations/base.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index c5733d3..ad56f68 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -252,8 +252,9 @@ class Operation(metaclass=ABCLockedAttr):
 
     def __eq__(self, op: Operation) -> bool:
         """Returns whether two operations are considered equal."""
-        name_eq = op.__class__.__name__ == self.__class__.__name__
-        return name_eq and op.qubits == self.qubits
+        if not isinstance(op, Operation):
+            return NotImplemented
+        return type(op) is type(self) and op.qubits == self.qubits
 
     def __str__(self) -> str:
         """Returns the operation representation."""
@@ -371,8 +372,11 @@ class ParametricOperation(Operation):
 
     def __eq__(self, op: ParametricOperation) -> bool:
         """Returns whether two operations are considered equal."""
-        param_eq = op.parameters == self.parameters
-        return param_eq and super().__eq__(op)
+        operation_eq = super().__eq__(op)
+        if operation_eq is True:
+            # operations of the same type, thus both have parameters
+            return op.parameters == self.parameters
+        return operation_eq
 
     @property
     def parameters(self):
-- 
2.43.0


From 40da5ad78fb337f8b33c7730218fe854b7e649b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 37/66] fix: normalize density matrices by their trace

---
 dwave/gate/circuit.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index facecb3..f348326 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -283,7 +283,7 @@ class Circuit:
             raise CircuitError("State already set. Use 'force=True' to force set new state.")
 
         if normalize:
-            state = state / np.linalg.norm(state)
+            state = state / self._state_norm(state)
 
         self._assert_state(state)
 
@@ -297,13 +297,20 @@ class Circuit:
 
     def _assert_state(self, state: NDArray) -> None:
         """Check whether a state is the correct shape and is normalized."""
-        size = 2 << (self.num_qubits - 1)
+        size = 1 << self.num_qubits
         if state.shape != (size,) and state.shape != (size, size):
             raise ValueError(f"State has incorrect shape. Should have size {size}.")
 
-        if not np.isclose(np.linalg.norm(state), 1):
+        if not np.isclose(self._state_norm(state), 1):
             raise ValueError("State is not normalized.")
 
+    @staticmethod
+    def _state_norm(state: NDArray) -> complex:
+        """The norm of a state vector, or the trace of a density matrix."""
+        if state.ndim == 2:
+            return np.trace(state)
+        return np.linalg.norm(state)
+
     @property
     def num_qubits(self) -> int:
         """Number of qubits in the circuit."""
-- 
2.43.0


From fd2e268eff1aefc096e890d1f078b0778a1932d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:53 +0000
Subject: [PATCH 38/66] fix: number of qubits of controlled operations
 independent of earlier use

---
 dwave/gate/operations/base.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index ad56f68..f021296 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -212,9 +212,10 @@ class Operation(metaclass=ABCLockedAttr):
         if isinstance(qubits, Qubit):
             qubits = [qubits]
 
-        if cls._num_qubits is not None and len(qubits) != cls.num_qubits:
+        num_qubits = getattr(cls, "num_qubits", None)
+        if num_qubits is not None and len(qubits) != num_qubits:
             raise ValueError(
-                f"Operation '{cls.name}' requires " f"{cls.num_qubits} qubits, got {len(qubits)}."
+                f"Operation '{cls.name}' requires " f"{num_qubits} qubits, got {len(qubits)}."
             )
 
         # cast to tuple for convention
@@ -538,11 +539,14 @@ class ControlledOperation(Operation):
     @mixedproperty
     def num_qubits(cls, self) -> int:
         """Number of qubits that the operation supports."""
-        if not cls._num_qubits and cls.num_control and cls.num_target:
-            cls._num_qubits = cls.num_control + cls.num_target
-
-        if self is not None:
-            return super(ControlledOperation, self).num_qubits
+        # must not be stored on the class, from which it would be inherited by subclasses that have
+        # other numbers of control or target qubits
+        num_qubits = cls._num_qubits if self is None else self._num_qubits
+        if not num_qubits and cls.num_control and cls.num_target:
+            num_qubits = cls.num_control + cls.num_target
+
+        if num_qubits or self is not None:
+            return num_qubits
 
         # if called directly on class and 'num_qubits' is 'None', change the error message to
         # reflect that 'num_control' or 'num_target' is 'None' or both are 'None'
-- 
2.43.0


From 0bafd0b5b5945f7888e2c47dbbe2e020b7bca71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 39/66] fix: keep documentation and name of mixed properties

---
 dwave/gate/mixedproperty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/mixedproperty.py b/dwave/gate/mixedproperty.py
index 1e801d9..f6de69e 100644
--- a/dwave/gate/mixedproperty.py
+++ b/dwave/gate/mixedproperty.py
@@ -93,7 +93,7 @@ class mixedproperty:
         # don't patch '__qualname__' due to Sphinx calling the mixedproperty
         # at docsbuild, raising exceptions and thus not rendering all entries
         for attr in ("__module__", "__name__", "__doc__", "__annotations__"):
-            self.attr = getattr(callable_, attr)
+            setattr(self, attr, getattr(callable_, attr))
         getattr(self, "__dict__").update(getattr(callable_, "__dict__", {}))
 
         self.__wrapped__ = callable_
-- 
2.43.0


From e3fe23aed3a83d46e1e67381798371f1523cdd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 40/66] fix: generate compilable code for complex and integer
 matrices

---
 dwave/gate/simulator/operation_generation.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/simulator/operation_generation.py b/dwave/gate/simulator/operation_generation.py
index 5e18a65..135d396 100644
--- a/dwave/gate/simulator/operation_generation.py
+++ b/dwave/gate/simulator/operation_generation.py
@@ -273,6 +273,15 @@ def generate_op_c_code(
         for state in all_sub_states
     }
 
+    def literal(val):
+        # Python's complex numbers are no C++ literals, and integers cannot be multiplied with the
+        # (complex) amplitudes
+        if isinstance(val, str):
+            return val
+        if np.imag(val) == 0:
+            return repr(float(np.real(val)))
+        return f"{amplitude_t}({float(np.real(val))!r}, {float(np.imag(val))!r})"
+
     def multiply_val_and_amps(state_i):
         ins = instructions[state_i]
         terms = []
@@ -281,7 +290,7 @@ def generate_op_c_code(
             if val == 1:
                 terms.append(amps[state_j].name)
             elif val != 0:
-                terms.append(f"({val} * {amps[state_j].name})")
+                terms.append(f"({literal(val)} * {amps[state_j].name})")
 
         if len(terms) == 0:
             return "0.0"
-- 
2.43.0


From c99148b32acede958a36543c2dd3de5749530a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:53 +0000
Subject: [PATCH 41/66] fix: define each gate once in OpenQASM export

---
 dwave/gate/circuit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index f348326..232b9fc 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -667,9 +667,13 @@ class Circuit:
                 label = f"q{label}" if len(self.qregisters) != 1 else "q"
             mapping[qb] = label, idx
 
+        declarations = []
         for op in self.circuit:
             if gate_definitions and hasattr(op, "_qasm_decl"):
-                header_str += "\n" + getattr(op, "_qasm_decl") + "\n"
+                # each gate may only be defined once
+                if getattr(op, "_qasm_decl") not in declarations:
+                    declarations.append(getattr(op, "_qasm_decl"))
+                    header_str += "\n" + declarations[-1] + "\n"
             qasm_str += op.to_qasm(mapping) + ";\n"
 
         return header_str.strip() + "\n\n" + qasm_str.strip()
-- 
2.43.0


From 454d06bca7c0a268809e26b58ee9ba14a50abced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 42/66] fix: refuse OpenQASM export of conditioned operations

---
 dwave/gate/circuit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 232b9fc..b1575e7 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -631,6 +631,9 @@ class Circuit:
 
         Returns:
             str: OpenQASM string representation of the circuit.
+
+        Raises:
+            CircuitError: If the circuit has no OpenQASM representation.
         """
         if version != "2.0":
             raise NotImplementedError("Only OpenQASM 2.0 is supported at the moment.")
@@ -669,6 +672,8 @@ class Circuit:
 
         declarations = []
         for op in self.circuit:
+            if op._cond:
+                raise CircuitError("Conditioned operations cannot be transpiled into OpenQASM.")
             if gate_definitions and hasattr(op, "_qasm_decl"):
                 # each gate may only be defined once
                 if getattr(op, "_qasm_decl") not in declarations:
-- 
2.43.0


From 6ecab1f3daa430dfb28b44bee09591e55a841356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:08 +0000
Subject: [PATCH 43/66] fix: refuse OpenQASM export of variables without values

---
 dwave/gate/circuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index b1575e7..3bbbdee 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -674,6 +674,8 @@ class Circuit:
         for op in self.circuit:
             if op._cond:
                 raise CircuitError("Conditioned operations cannot be transpiled into OpenQASM.")
+            if any(isinstance(p, Variable) and p.value is None for p in getattr(op, "parameters", ())):
+                raise CircuitError("Variables without a value cannot be transpiled into OpenQASM.")
             if gate_definitions and hasattr(op, "_qasm_decl"):
                 # each gate may only be defined once
                 if getattr(op, "_qasm_decl") not in declarations:
-- 
2.43.0


From bf592ef6f7d8468b66575157bb14067e19fe69e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:16 +0000
Subject: [PATCH 44/66] fix: refuse register labels which OpenQASM cannot
 express

---
 dwave/gate/circuit.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 3bbbdee..36a5c04 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -31,6 +31,7 @@ __all__ = [
 
 import copy
 import itertools
+import re
 import warnings
 from collections.abc import Hashable, Mapping, Sequence
 from functools import cached_property
@@ -55,6 +56,11 @@ if TYPE_CHECKING:
 Qubits = Union[Qubit, Sequence[Qubit]]
 Bits = Union[Bit, Sequence[Bit]]
 
+_OPENQASM_KEYWORDS = (
+    *("barrier", "creg", "gate", "if", "include", "measure", "opaque", "qreg", "reset"),
+    *("cos", "exp", "ln", "pi", "sin", "sqrt", "tan"),
+)
+
 
 class CircuitError(Exception):
     """Exception to be raised when there is an error with a Circuit."""
@@ -641,6 +647,17 @@ class Circuit:
         reg_labels = kwargs.get("reg_labels", False)
         gate_definitions = kwargs.get("gate_definitions", False)
 
+        if reg_labels:
+            # labels are written as OpenQASM identifiers, all in the same namespace
+            labels = [*self.qregisters, *self.cregisters]
+            for label in labels:
+                if (
+                    not re.fullmatch(r"[a-z][A-Za-z0-9_]*", str(label))
+                    or str(label) in _OPENQASM_KEYWORDS
+                    or labels.count(label) > 1
+                ):
+                    raise CircuitError(f"Register label '{label}' cannot be used in OpenQASM.")
+
         header_str = 'OPENQASM 2.0;\ninclude "qelib1.inc";\n'
 
         qasm_str = ""
-- 
2.43.0


From 95b5539f8693488d1b83673a81a2031fb30efe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 45/66] fix: parameters of created operations in OpenQASM

---
 dwave/gate/operations/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/operations/base.py b/dwave/gate/operations/base.py
index f021296..e5f5164 100644
--- a/dwave/gate/operations/base.py
+++ b/dwave/gate/operations/base.py
@@ -118,6 +118,9 @@ def create_operation(circuit, name: Optional[str] = None) -> Type[CustomOperatio
             else:
                 new_name = self.__class__.__name__.lower()
 
+            if circuit.parametric:
+                new_name += f"({', '.join(str(p) for p in self.parameters)})"
+
             if self.qubits:
                 qubits = ", ".join(self._map_qubits(mapping))
                 return f"{new_name} {qubits}"
-- 
2.43.0


From c7d3b0ae3fb971cc165c52a688fa5d31c7e04bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 46/66] fix: OpenQASM definition of the controlled rotation

---
 dwave/gate/operations/operations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/operations/operations.py b/dwave/gate/operations/operations.py
index beac11c..28c082c 100644
--- a/dwave/gate/operations/operations.py
+++ b/dwave/gate/operations/operations.py
@@ -699,7 +699,10 @@ class CRotation(ParametricControlledOperation):
 
     _target_operation: Type[Operation] = Rotation
 
-    _qasm_decl: str = "// gate definition not implemented"
+    _qasm_decl: str = (
+        "gate crot(beta, gamma, delta) c, t { rz((beta - delta) / 2) t; cx c, t; "
+        "rz(-(beta + delta) / 2) t; ry(-gamma / 2) t; cx c, t; ry(gamma / 2) t; rz(delta) t; }"
+    )
 
     def to_qasm(self, mapping: Optional[Mapping] = None) -> str:
         """Converts the Controlled-Rotation operation into an OpenQASM string.
-- 
2.43.0


From b0ba4ced1aff0eb5e5dccc0409446684068cec79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:12 +0000
Subject: [PATCH 47/66] Revert "fix: refuse OpenQASM export of variables
 without values"

This reverts commit 6ecab1f3daa430dfb28b44bee09591e55a841356.
---
 dwave/gate/circuit.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index 36a5c04..d0f14cf 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -691,8 +691,6 @@ class Circuit:
         for op in self.circuit:
             if op._cond:
                 raise CircuitError("Conditioned operations cannot be transpiled into OpenQASM.")
-            if any(isinstance(p, Variable) and p.value is None for p in getattr(op, "parameters", ())):
-                raise CircuitError("Variables without a value cannot be transpiled into OpenQASM.")
             if gate_definitions and hasattr(op, "_qasm_decl"):
                 # each gate may only be defined once
                 if getattr(op, "_qasm_decl") not in declarations:
-- 
2.43.0


From 0b7414ecd0f025c09f562ac29ffd79b3a4ec126b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 48/66] fix: compile to the circuit-wide qubits and bits in QIR

---
 dwave/gate/qir/compiler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index c98a62b..0cf6f06 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -365,8 +365,8 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
             block = "measurements"
 
             for qb, b in zip(op.qubits, op.bits):
-                _, qubit_idx = circuit.find_qubit(qb)
-                _, bit_idx = circuit.find_bit(b)
+                qubit_idx = circuit.qubits.index(qb)
+                bit_idx = circuit.bits.index(b)
                 args = (module.qubits[qubit_idx], module.results[bit_idx])
 
                 measurement_instruction = Instruction(InstrType.MEASUREMENT, pyqir_op, args)
@@ -386,7 +386,7 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
                 args.extend(op.parameters)
 
             for qb in op.qubits:
-                _, qubit_idx = circuit.find_qubit(qb)
+                qubit_idx = circuit.qubits.index(qb)
                 args.append(module.qubits[qubit_idx])
 
             if type_ is InstrType.EXTERNAL:
-- 
2.43.0


From 58bbaad307199ead2edf704049010a259988ad51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:09 +0000
Subject: [PATCH 49/66] fix: declare parameters of external QIR functions in
 the order they are passed

---
 dwave/gate/qir/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 0cf6f06..0965378 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -356,7 +356,8 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
             param_type = module.Types.DOUBLE
 
             num_parameters = getattr(op, "num_parameters", 0)
-            parameter_types = [qubit_type] * op.num_qubits + [param_type] * num_parameters
+            # same order as the arguments
+            parameter_types = [param_type] * num_parameters + [qubit_type] * op.num_qubits
 
             module.add_external_function(pyqir_op, parameter_types=parameter_types)
 
-- 
2.43.0


From be855ea5f604065a926abf23916fa595ed6fc31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 50/66] fix: declare each external QIR function once

---
 dwave/gate/qir/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 0965378..cb43616 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -359,7 +359,9 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
             # same order as the arguments
             parameter_types = [param_type] * num_parameters + [qubit_type] * op.num_qubits
 
-            module.add_external_function(pyqir_op, parameter_types=parameter_types)
+            # each external function may only be declared once
+            if pyqir_op not in module._external_functions:
+                module.add_external_function(pyqir_op, parameter_types=parameter_types)
 
         args = []
         if type_ is InstrType.MEASUREMENT:
-- 
2.43.0


From 2a9f3793c089726b92faee60a639715d3f54dee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:23 +0000
Subject: [PATCH 51/66] fix: refuse compiling conditioned operations to QIR

---
 dwave/gate/qir/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index cb43616..492d970 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -350,6 +350,9 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
 
     block = "body"
     for op in circuit.circuit:
+        if op._cond:
+            raise NotImplementedError("Conditioned operations not supported.")
+
         type_, pyqir_op = Operations.to_qir.get(op.__class__.name, (None, None))
         if add_external and type_ is InstrType.EXTERNAL:
             qubit_type = module.Types.QUBIT
-- 
2.43.0


From 765b00e150aad2de74a8103fb06e049d3db55677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:31 +0000
Subject: [PATCH 52/66] fix: ignore identity operations when compiling to QIR

---
 dwave/gate/qir/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 492d970..8037d2e 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -401,6 +401,8 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
                 body_instruction = Instruction(InstrType.BASE, pyqir_op, args)
 
             module.add_instruction("body", body_instruction)
+        elif type_ is InstrType.SKIP:
+            continue
         elif type_ is InstrType.DECOMPOSE or (type_ is InstrType.EXTERNAL and not add_external):
             raise NotImplementedError("Operation decompositions not supported.")
         else:
-- 
2.43.0


From 04caca32962ab818878795d9d98a07a77a371d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 53/66] fix: load QIR operations with several parameters

---
 dwave/gate/qir/loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index 3e84ab0..77cea29 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -124,7 +124,8 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
 
                     circuit.unlock()
                     with circuit.context as reg:
-                        getattr(ops, op_name)(*params, qubits=[reg.q[qubit] for qubit in qubits])
+                        args = [params] if params else []
+                        getattr(ops, op_name)(*args, qubits=[reg.q[qubit] for qubit in qubits])
 
     # finally, add measurements (if any) to circuit
     if meas_qubits:
-- 
2.43.0


From 36e1150e21b45164511e5b6f60bda4cc2df6e50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:46 +0000
Subject: [PATCH 54/66] fix: load QIR measurements of otherwise unused qubits

---
 dwave/gate/qir/loader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index 77cea29..11caed5 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -142,6 +142,8 @@ def _add_measurements(circuit: Circuit, qubits: Sequence[int], bits: Sequence[in
         qubits: The qubits that are being measured.
         bits: The bits in which the measurement values are stored.
     """
+    for _ in range(circuit.num_qubits, max(qubits or [0]) + 1):
+        circuit.add_qubit()
     for _ in range(circuit.num_bits, max(bits or [0]) + 1):
         circuit.add_bit()
 
-- 
2.43.0


From 50892ab74273ddca83bdbde2811bdf56051733f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:52 +0000
Subject: [PATCH 55/66] fix: load all required qubits and bits of a QIR module

---
 dwave/gate/qir/loader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index 11caed5..c9e9843 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -90,6 +90,12 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
     meas_bits = []
 
     for func in module.functions:
+        # the module may require more qubits and bits than it uses
+        for _ in range(circuit.num_qubits, pyqir.required_num_qubits(func) or 0):
+            circuit.add_qubit()
+        for _ in range(circuit.num_bits, pyqir.required_num_results(func) or 0):
+            circuit.add_bit()
+
         ret_set = False
         for block in func.basic_blocks:
             # if return has been set, then ignore rest of blocks
-- 
2.43.0


From be07bc991646e5e5039030666e3db2356f1ada3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:59 +0000
Subject: [PATCH 56/66] fix: keep the order of measurements and other
 operations when loading QIR

---
 dwave/gate/qir/loader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index c9e9843..24ae2ca 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -122,9 +122,14 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
                     if op_name == "Measurement":
                         meas_qubits.extend(qubits)
                         meas_bits.extend(bits)
-                        # delay adding until all measurements are collected
+                        # delay adding until all consecutive measurements are collected
                         continue
 
+                    # measurements which precede the operation must be added before it
+                    if meas_qubits:
+                        _add_measurements(circuit, meas_qubits, meas_bits)
+                        meas_qubits, meas_bits = [], []
+
                     for _ in range(circuit.num_qubits, max(qubits or [0]) + 1):
                         circuit.add_qubit()
 
-- 
2.43.0


From a996158a86e2ffb3c82458ad102890fca199e5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:39 +0000
Subject: [PATCH 57/66] fix: allow resetting QIR modules that are not compiled

---
 dwave/gate/qir/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 8037d2e..5fa23bb 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -304,7 +304,8 @@ class BaseModule:
         """
         self._module = pyqir.qir_module(self.context, self.name, **self._module_kwargs)
         self._remove_external_instructions()
-        self._return.erase()
+        # the former return instruction belongs to the former module
+        self._return = None
 
         if rm_instructions:
             for key in self._instructions:
-- 
2.43.0


From 7bf55c2ff9a9b07c36289b62345c1a391648779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:45 +0000
Subject: [PATCH 58/66] fix: keep external instructions when recompiling QIR
 modules

---
 dwave/gate/qir/compiler.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 5fa23bb..292b1a3 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -303,7 +303,6 @@ class BaseModule:
             rm_instructions: Whether to also reset all instructions.
         """
         self._module = pyqir.qir_module(self.context, self.name, **self._module_kwargs)
-        self._remove_external_instructions()
         # the former return instruction belongs to the former module
         self._return = None
 
@@ -324,17 +323,17 @@ class BaseModule:
                 self._external_functions[name] = pyqir.Function(
                     function_type, Linkage.EXTERNAL, exfunc.name, self._module
                 )
+            self._update_external_instructions()
 
         self._is_compiled = False
         self._qir = self._bitcode = None
 
-    def _remove_external_instructions(self) -> None:
-        """Removes all external functions from the instructions."""
-        for block, instructions in self._instructions.items():
-            instr_len = len(instructions)
-            for i, instr in enumerate(reversed(instructions)):
+    def _update_external_instructions(self) -> None:
+        """Ties all external instructions to the external functions of the present module."""
+        for instructions in self._instructions.values():
+            for i, instr in enumerate(instructions):
                 if instr.type is InstrType.EXTERNAL:
-                    del self._instructions[block][instr_len - i - 1]
+                    instructions[i] = self.get_external_instruction(instr.name, instr.args)
 
 
 def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
-- 
2.43.0


From 48a56e515e050ff9b9925c981abd28d782a598aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 59/66] fix: allow compiling QIR modules after a failed
 compilation

---
 dwave/gate/qir/compiler.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 292b1a3..94a746c 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -146,13 +146,18 @@ class BaseModule:
                 )
             self.reset(rm_instructions=False)
 
-        self._compile()
+        try:
+            self._compile()
 
-        self._return = self.builder.ret(self._return_cmd)
+            self._return = self.builder.ret(self._return_cmd)
 
-        error_msg = self._module.verify()
-        if error_msg is not None and strict:
-            raise CompileError(error_msg)
+            error_msg = self._module.verify()
+            if error_msg is not None and strict:
+                raise CompileError(error_msg)
+        except Exception:
+            # leave no partly compiled module behind
+            self.reset(rm_instructions=False)
+            raise
 
         self._qir = str(self._module)
         self._bitcode = self._module.bitcode
-- 
2.43.0


From e28b7a7d62861412854eb3289aa08507f735314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 60/66] fix: pass all real parameters to QIR functions as
 doubles

---
 dwave/gate/qir/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 94a746c..8d610bb 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -394,7 +394,7 @@ def qir_module(circuit: Circuit, add_external: bool = False) -> BaseModule:
 
             # if isinstance(op, ParametricOperation):
             if hasattr(op, "parameters"):
-                args.extend(op.parameters)
+                args.extend(float(p) for p in op.parameters)
 
             for qb in op.qubits:
                 qubit_idx = circuit.qubits.index(qb)
-- 
2.43.0


From 087a7ad5eb813f81fa5cba785caffe78cc1487cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 61/66] fix: keep instructions with external functions passed
 directly when recompiling

---
 dwave/gate/qir/compiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dwave/gate/qir/compiler.py b/dwave/gate/qir/compiler.py
index 8d610bb..3e77558 100644
--- a/dwave/gate/qir/compiler.py
+++ b/dwave/gate/qir/compiler.py
@@ -24,6 +24,7 @@ __all__ = [
     "qir_module",
 ]
 
+import itertools
 from collections.abc import Sequence
 from dataclasses import dataclass
 from typing import TYPE_CHECKING, Optional
@@ -319,6 +320,11 @@ class BaseModule:
 
             self._external_functions.clear()
         else:
+            # functions of external instructions need not have been added by name
+            for instr in itertools.chain.from_iterable(self._instructions.values()):
+                if instr.type is InstrType.EXTERNAL:
+                    self._external_functions.setdefault(instr.name, instr._external)
+
             # replace all external function with new ones using the _new_ module
             # must be after the new 'self._module' declaration above
             for name, exfunc in self._external_functions.items():
-- 
2.43.0


From 5cda66cafc0cdcdfd1c4c08185149839be1d2774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:10 +0000
Subject: [PATCH 62/66] fix: keep qubit and bit indices when loading QIR into a
 circuit

---
 dwave/gate/qir/loader.py | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/dwave/gate/qir/loader.py b/dwave/gate/qir/loader.py
index 24ae2ca..a9fa641 100644
--- a/dwave/gate/qir/loader.py
+++ b/dwave/gate/qir/loader.py
@@ -91,10 +91,8 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
 
     for func in module.functions:
         # the module may require more qubits and bits than it uses
-        for _ in range(circuit.num_qubits, pyqir.required_num_qubits(func) or 0):
-            circuit.add_qubit()
-        for _ in range(circuit.num_bits, pyqir.required_num_results(func) or 0):
-            circuit.add_bit()
+        _add_missing_qubits(circuit, pyqir.required_num_qubits(func) or 0)
+        _add_missing_bits(circuit, pyqir.required_num_results(func) or 0)
 
         ret_set = False
         for block in func.basic_blocks:
@@ -130,8 +128,7 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
                         _add_measurements(circuit, meas_qubits, meas_bits)
                         meas_qubits, meas_bits = [], []
 
-                    for _ in range(circuit.num_qubits, max(qubits or [0]) + 1):
-                        circuit.add_qubit()
+                    _add_missing_qubits(circuit, max(qubits or [0]) + 1)
 
                     circuit.unlock()
                     with circuit.context as reg:
@@ -145,6 +142,30 @@ def _module_to_circuit(module: Module, circuit: Optional[Circuit] = None) -> Cir
     return circuit
 
 
+def _add_missing_qubits(circuit: Circuit, num_qubits: int) -> None:
+    """Add qubits to the end of the circuit until there are ``num_qubits``.
+
+    Args:
+        circuit: The circuit to add the qubits to.
+        num_qubits: The number of qubits required.
+    """
+    for _ in range(circuit.num_qubits, num_qubits):
+        # the indices of the qubits already in the circuit must not change
+        circuit.add_qubit(qreg_label=next(reversed(circuit.qregisters), None))
+
+
+def _add_missing_bits(circuit: Circuit, num_bits: int) -> None:
+    """Add bits to the end of the circuit until there are ``num_bits``.
+
+    Args:
+        circuit: The circuit to add the bits to.
+        num_bits: The number of bits required.
+    """
+    for _ in range(circuit.num_bits, num_bits):
+        # the indices of the bits already in the circuit must not change
+        circuit.add_bit(creg_label=next(reversed(circuit.cregisters), None))
+
+
 def _add_measurements(circuit: Circuit, qubits: Sequence[int], bits: Sequence[int]) -> None:
     """Add measurements to circuit.
 
@@ -153,10 +174,8 @@ def _add_measurements(circuit: Circuit, qubits: Sequence[int], bits: Sequence[in
         qubits: The qubits that are being measured.
         bits: The bits in which the measurement values are stored.
     """
-    for _ in range(circuit.num_qubits, max(qubits or [0]) + 1):
-        circuit.add_qubit()
-    for _ in range(circuit.num_bits, max(bits or [0]) + 1):
-        circuit.add_bit()
+    _add_missing_qubits(circuit, max(qubits or [0]) + 1)
+    _add_missing_bits(circuit, max(bits or [0]) + 1)
 
     circuit.unlock()
     with circuit.context as reg:
-- 
2.43.0


From 1b1018ad2e3e30ffebe4e5321e0bd03c38ac9691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:12 +0000
Subject: [PATCH 63/66] fix: do not take an index of -1 for an exception in
 registers

---
 dwave/gate/registers/cyregister.pxd | 2 +-
 dwave/gate/registers/cyregister.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/gate/registers/cyregister.pxd b/dwave/gate/registers/cyregister.pxd
index 3a81ee7..96f86a3 100644
--- a/dwave/gate/registers/cyregister.pxd
+++ b/dwave/gate/registers/cyregister.pxd
@@ -33,5 +33,5 @@ cdef class cyRegister:
     cpdef cyRegister copy(self)
     cdef Py_ssize_t _count_int(self, object) except -1
     cpdef Py_ssize_t count(self, object) except -1
-    cpdef Py_ssize_t index(self, object, bint permissive=*) except -1
+    cpdef Py_ssize_t index(self, object, bint permissive=*) except? -1
     cpdef _remove(self, object)
diff --git a/dwave/gate/registers/cyregister.pyx b/dwave/gate/registers/cyregister.pyx
index 7466828..0c0842f 100644
--- a/dwave/gate/registers/cyregister.pyx
+++ b/dwave/gate/registers/cyregister.pyx
@@ -314,7 +314,7 @@ cdef class cyRegister:
             # unhashable
             return False
 
-    cpdef Py_ssize_t index(self, object v, bint permissive=False) except -1:
+    cpdef Py_ssize_t index(self, object v, bint permissive=False) except? -1:
         """Return the index of ``v``.
 
         Args:
-- 
2.43.0


From 8745a2f9b61936029d94b5c19773e3ca17c1f102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 64/66] fix: rotation matrix for parameters of types with a
 small range or precision

---
 dwave/gate/operations/operations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/gate/operations/operations.py b/dwave/gate/operations/operations.py
index 28c082c..903c9b9 100644
--- a/dwave/gate/operations/operations.py
+++ b/dwave/gate/operations/operations.py
@@ -461,7 +461,8 @@ class Rotation(ParametricOperation):
     @mixedproperty(self_required=True)
     def matrix(cls, self) -> NDArray[np.complex128]:
         """The matrix representation of the Rotation operator."""
-        beta, gamma, delta = self.parameters
+        # sums of parameters must not be restricted to the precision or range of their types
+        beta, gamma, delta = (float(parameter) for parameter in self.parameters)
 
         mcos = math.cos(gamma / 2)
         msin = math.sin(gamma / 2)
-- 
2.43.0


From 7a5d0dc910795232279699ede23479ecf935f0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 65/66] fix: name clashes in kernels generated for four or more
 targets

---
 dwave/gate/simulator/operation_generation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/simulator/operation_generation.py b/dwave/gate/simulator/operation_generation.py
index 135d396..a92bee1 100644
--- a/dwave/gate/simulator/operation_generation.py
+++ b/dwave/gate/simulator/operation_generation.py
@@ -214,7 +214,7 @@ def generate_op_c_code(
         )
     else:
         gate_values = [
-            [c.Value(amplitude_t, f"gate_value{i}{j}") for j in range(gate_matrix_size)]
+            [c.Value(amplitude_t, f"gate_value{i}_{j}") for j in range(gate_matrix_size)]
             for i in range(gate_matrix_size)
         ]
         inits.extend(
-- 
2.43.0


From e8ca402d735e3f7904021f0ada1848c523705e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:52 +0000
Subject: [PATCH 66/66] fix: evaluate parametric circuits with arrays of
 parameters

---
 dwave/gate/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/gate/circuit.py b/dwave/gate/circuit.py
index d0f14cf..c7fdfb4 100644
--- a/dwave/gate/circuit.py
+++ b/dwave/gate/circuit.py
@@ -824,7 +824,7 @@ class ParametricCircuit(Circuit):
 
         for i, op in enumerate(circuit.circuit):
             eval = getattr(op, "eval", None)
-            params = parameters[i] if parameters else None
+            params = parameters[i] if parameters is not None and len(parameters) > 0 else None
             circuit.circuit[i] = eval(params, inplace) if eval else op
 
         return circuit
-- 
2.43.0

