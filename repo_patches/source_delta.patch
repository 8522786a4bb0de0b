From 1fe769186bacb2e161622a36279d0cfe517e6efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 01/32] fix: rejected wavefunction assignments leave the object
 unchanged

Slices, and any element of a wavefunction obtained by binding, were restored
from a view of the already modified amplitudes; assignments failing half-way
were not undone; completing a symbolic wavefunction with numbers raised.
---
 src/orquestra/quantum/wavefunction.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/orquestra/quantum/wavefunction.py b/src/orquestra/quantum/wavefunction.py
index 96c7f9d..52e1ade 100644
--- a/src/orquestra/quantum/wavefunction.py
+++ b/src/orquestra/quantum/wavefunction.py
@@ -73,7 +73,7 @@ class Wavefunction:
 
     @property
     def amplitudes(self) -> Union[np.ndarray, Matrix]:
-        if self.free_symbols:
+        if isinstance(self._amplitude_vector, Matrix):
             return _cast_sympy_matrix_to_numpy(self._amplitude_vector, complex=True)
 
         return self._amplitude_vector
@@ -94,7 +94,9 @@ class Wavefunction:
             or isinstance(arr, Matrix)
             and not arr.free_symbols
         ):
-            probs_of_ground_entries = np.sum(np.abs(arr) ** 2)
+            probs_of_ground_entries = np.sum(
+                np.abs(np.asarray(arr, dtype=np.complex128)) ** 2
+            )
 
             if not np.isclose(probs_of_ground_entries, 1.0):
                 raise ValueError("Vector does not result in a unit probability.")
@@ -119,16 +121,19 @@ class Wavefunction:
         return self._amplitude_vector[idx]
 
     def __setitem__(self, idx, val):
-        old_val = self._amplitude_vector[idx]
-        self._amplitude_vector[idx] = val
+        # The assignment is made on a copy, so that failing at any point (which, for
+        # slices, might be after some of the elements were already written) leaves
+        # this object intact.
+        new_amplitude_vector = self._amplitude_vector.copy()
+        new_amplitude_vector[idx] = val
 
         try:
-            self._check_normalization(self._amplitude_vector)
+            self._check_normalization(new_amplitude_vector)
         except ValueError:
-            self._amplitude_vector[idx] = old_val
-
             raise ValueError("This assignment violates probability unity.")
 
+        self._amplitude_vector = new_amplitude_vector
+
     def __str__(self) -> str:
         cast_wf = _cast_sympy_matrix_to_numpy(self._amplitude_vector, complex=True)
         return f"Wavefunction({cast_wf})"
-- 
2.43.0


From 09a209e2c940078849907c049c9ea9a07eae32fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:04 +0000
Subject: [PATCH 02/32] fix: tracking backend counts its work only after the
 wrapped runner did it, and counts distributions

---
 src/orquestra/quantum/runners/trackers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/runners/trackers.py b/src/orquestra/quantum/runners/trackers.py
index fde4d58..e7233cc 100644
--- a/src/orquestra/quantum/runners/trackers.py
+++ b/src/orquestra/quantum/runners/trackers.py
@@ -57,9 +57,9 @@ class MeasurementTrackingBackend(BaseCircuitRunner):
             circuits: The circuits to execute.
             n_samples: The number of samples to collect for each circuit.
         """
+        measurements = self.inner_backend.run_batch_and_measure(circuits, n_samples)
         self._n_circuits_executed += len(circuits)
         self._n_jobs_executed += 1
-        measurements = self.inner_backend.run_batch_and_measure(circuits, n_samples)
         for circuit, measurement in zip(circuits, measurements):
             self.record_raw_measurement_data(circuit, measurement)
         self.save_raw_data()
@@ -103,6 +103,8 @@ class MeasurementTrackingBackend(BaseCircuitRunner):
         distribution = self.inner_backend.get_measurement_outcome_distribution(
             circuit, n_samples
         )
+        self._n_circuits_executed += 1
+        self._n_jobs_executed += 1
         self.raw_data.append(
             {
                 "data_type": "measurement outcome distribution",
-- 
2.43.0


From 317b2ee376cae124038cb0b7f9b0b1771c5dfa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:04 +0000
Subject: [PATCH 03/32] fix: an empty batch with a non-positive number of
 samples is rejected

---
 src/orquestra/quantum/api/circuit_runner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/orquestra/quantum/api/circuit_runner.py b/src/orquestra/quantum/api/circuit_runner.py
index f12edeb..1234242 100644
--- a/src/orquestra/quantum/api/circuit_runner.py
+++ b/src/orquestra/quantum/api/circuit_runner.py
@@ -160,6 +160,8 @@ class BaseCircuitRunner(ABC, CircuitRunner):
             dedicated way of running circuits' batch, `_run_batch_and_measure`
             method.
         """
+        if isinstance(n_samples, int) and n_samples <= 0:
+            raise ValueError(f"Number of samples has to be positive, got {n_samples}")
         samples_per_circuit = (
             len(circuits_batch) * [n_samples]
             if isinstance(n_samples, int)
-- 
2.43.0


From 500ea9901262fc57d913f2822b085cfbbfa7d8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:04 +0000
Subject: [PATCH 04/32] fix: samples of an empty register are empty bitstrings

---
 src/orquestra/quantum/wavefunction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/wavefunction.py b/src/orquestra/quantum/wavefunction.py
index 52e1ade..cf6750f 100644
--- a/src/orquestra/quantum/wavefunction.py
+++ b/src/orquestra/quantum/wavefunction.py
@@ -211,8 +211,11 @@ class Wavefunction:
         return np.abs(self.amplitudes) ** 2
 
     def get_outcome_probs(self) -> Dict[str, float]:
+        # Cutting to n_qubits only matters for an empty register, where there is a
+        # single outcome, the empty string, but 0 is still formatted as "0".
         values = [
-            format(i, "0" + str(self.n_qubits) + "b")[::-1] for i in range(len(self))
+            format(i, "0" + str(self.n_qubits) + "b")[::-1][: self.n_qubits]
+            for i in range(len(self))
         ]
 
         probs = self.get_probabilities()
-- 
2.43.0


From 14231499860a1cf3253e55cc7576597451966853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:20 +0000
Subject: [PATCH 05/32] fix: phases are applied elementwise to sympy column
 vectors

---
 src/orquestra/quantum/circuits/_wavefunction_operations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_wavefunction_operations.py b/src/orquestra/quantum/circuits/_wavefunction_operations.py
index be86d14..1895dbe 100644
--- a/src/orquestra/quantum/circuits/_wavefunction_operations.py
+++ b/src/orquestra/quantum/circuits/_wavefunction_operations.py
@@ -69,7 +69,9 @@ class MultiPhaseOperation:
                 "MultiPhaseOperation can only be applied only if all symbolic "
                 "parameters are bound to real numbers."
             ) from e
-        return np.multiply(np.asarray(amplitude_vector), exp_params)
+        # Sympy's column vectors are converted to two-dimensional arrays, which would
+        # be broadcasted against exp_params.
+        return np.multiply(np.asarray(amplitude_vector).reshape(-1), exp_params)
 
     @property
     def free_symbols(self) -> Iterable[sympy.Symbol]:
-- 
2.43.0


From 76db3f4aafb9ea72efd9af9817f6db264e9389c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:20 +0000
Subject: [PATCH 06/32] fix: the unitary of a circuit without operations is the
 identity

---
 src/orquestra/quantum/circuits/_circuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/orquestra/quantum/circuits/_circuit.py b/src/orquestra/quantum/circuits/_circuit.py
index be09205..9734a47 100644
--- a/src/orquestra/quantum/circuits/_circuit.py
+++ b/src/orquestra/quantum/circuits/_circuit.py
@@ -133,6 +133,9 @@ class Circuit:
                     "be converted to a unitary matrix."
                 )
 
+        if not lifted_matrices:
+            return np.eye(2**self.n_qubits)
+
         return reduce(operator.matmul, lifted_matrices)
 
     def bind(self, symbols_map: Dict[sympy.Symbol, Any]):
-- 
2.43.0


From e700c6f8e70dc23cc3ff11131f2fbfe81896b786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:25 +0000
Subject: [PATCH 07/32] fix: expectation values can be computed from samples of
 an empty register

---
 src/orquestra/quantum/measurements/measurements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/measurements/measurements.py b/src/orquestra/quantum/measurements/measurements.py
index 4095067..7332257 100644
--- a/src/orquestra/quantum/measurements/measurements.py
+++ b/src/orquestra/quantum/measurements/measurements.py
@@ -32,10 +32,11 @@ def convert_bitstring_to_int(bitstring: Sequence[int]) -> int:
 
 def _convert_bitstrings_to_vector(bitstrings: Iterable[str]) -> np.ndarray:
     """Converts bitstrings to vector so parity can be checked."""
-    n_qubits = len([*bitstrings][0])
+    bitstrings = [*bitstrings]
+    n_qubits = len(bitstrings[0])
     all_bits = "".join(bitstrings)
     bitstring_1d_array = np.frombuffer(all_bits.encode("utf-8"), "u1") - ord("0")
-    return bitstring_1d_array.astype(int).reshape(-1, n_qubits)
+    return bitstring_1d_array.astype(int).reshape(len(bitstrings), n_qubits)
 
 
 def get_expectation_value_from_frequencies(
-- 
2.43.0


From 21f811e8394316bc45df273f08b8848c23993942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:25 +0000
Subject: [PATCH 08/32] fix: the empty operator has a zero sparse matrix
 instead of raising

---
 .../quantum/operators/_openfermion_utils/sparse_tools.py       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py b/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py
index 94bd0f1..817efa6 100644
--- a/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py
+++ b/src/orquestra/quantum/operators/_openfermion_utils/sparse_tools.py
@@ -58,6 +58,9 @@ def get_sparse_operator(operator: PauliRepresentation, n_qubits: Optional[int] =
 
     # Construct the Scipy sparse matrix.
     n_hilbert = 2**n_qubits
+    if not operator.terms:
+        # The empty sum is the zero operator.
+        return scipy.sparse.csc_matrix((n_hilbert, n_hilbert), dtype=complex)
     values_list: List[numpy.ndarray] = []
     row_list: List[numpy.ndarray] = []
     column_list: List[numpy.ndarray] = []
-- 
2.43.0


From d7c15ab2da756095a72bd977d8bdeef14244b403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 09/32] fix: the estimate of a constant operator is the sum of
 all its constant terms

---
 src/orquestra/quantum/estimation/_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/estimation/_estimation.py b/src/orquestra/quantum/estimation/_estimation.py
index 4afc894..81cac16 100644
--- a/src/orquestra/quantum/estimation/_estimation.py
+++ b/src/orquestra/quantum/estimation/_estimation.py
@@ -102,7 +102,7 @@ def evaluate_non_measured_estimation_tasks(
     for task in estimation_tasks:
         coefficient: complex
         if task.operator.is_constant:
-            coefficient = task.operator.terms[0].coefficient
+            coefficient = sum(term.coefficient for term in task.operator.terms)
         else:
             if task.number_of_shots is not None and task.number_of_shots > 0:
                 raise RuntimeError(
-- 
2.43.0


From 3245c97099a29d9469bc541ae21d33983de4cf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:44 +0000
Subject: [PATCH 10/32] fix: splitting a large number of samples does not lose
 a full chunk

---
 src/orquestra/quantum/circuits/_itertools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_itertools.py b/src/orquestra/quantum/circuits/_itertools.py
index 33c7a15..7c57629 100644
--- a/src/orquestra/quantum/circuits/_itertools.py
+++ b/src/orquestra/quantum/circuits/_itertools.py
@@ -1,7 +1,6 @@
 from collections import Counter
 from functools import reduce
 from itertools import islice
-from math import ceil
 from typing import Dict, Iterable, List, Sequence, Tuple, TypeVar
 
 T = TypeVar("T")
@@ -79,7 +78,8 @@ def split_into_batches(
 
 
 def _expand_sample_size(n_samples, max_sample_size):
-    multiplicities = ceil(n_samples / max_sample_size)
+    # Integer arithmetic: a float quotient is off by one for large sample sizes.
+    multiplicities = -(-n_samples // max_sample_size)
     new_n_samples = (
         multiplicities * (max_sample_size,)
         if n_samples % max_sample_size == 0
-- 
2.43.0


From 62926b23e032fbc204517048d76a49e60f2d542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:01 +0000
Subject: [PATCH 11/32] fix: measurements representing an unnormalized
 distribution follow its proportions

---
 src/orquestra/quantum/measurements/measurements.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/measurements/measurements.py b/src/orquestra/quantum/measurements/measurements.py
index 7332257..c0ed8d5 100644
--- a/src/orquestra/quantum/measurements/measurements.py
+++ b/src/orquestra/quantum/measurements/measurements.py
@@ -158,7 +158,10 @@ class Measurements:
             measurement_outcome_distribution: the bitstring distribution to be sampled
             number_of_samples: the number of measurements
         """
-        distribution = copy.deepcopy(measurement_outcome_distribution.distribution_dict)
+        # Distributions are allowed to be unnormalized, frequencies are not
+        distribution = MeasurementOutcomeDistribution(
+            copy.deepcopy(measurement_outcome_distribution.distribution_dict)
+        ).distribution_dict
 
         bitstring_samples = []
         # Rounding gives the closest integer to the observed frequency
-- 
2.43.0


From 7167caaca752fe632daef37c8fd8ab2d35fbde35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:53 +0000
Subject: [PATCH 12/32] fix: definitions of custom gates under wrappers are
 serialized with the circuit

---
 src/orquestra/quantum/circuits/_circuit.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_circuit.py b/src/orquestra/quantum/circuits/_circuit.py
index 9734a47..e53c877 100644
--- a/src/orquestra/quantum/circuits/_circuit.py
+++ b/src/orquestra/quantum/circuits/_circuit.py
@@ -25,9 +25,16 @@ def _circuit_size_by_operations(operations):
     )
 
 
-def _operation_uses_custom_gate(operation):
-    return isinstance(operation.gate, _gates.MatrixFactoryGate) and isinstance(
-        operation.gate.matrix_factory, _gates.CustomGateMatrixFactory
+def _innermost_gate(gate):
+    """Gate left after removing all the wrappers, like control, dagger or power."""
+    while hasattr(gate, "wrapped_gate"):
+        gate = gate.wrapped_gate
+    return gate
+
+
+def _is_custom_gate(gate):
+    return isinstance(gate, _gates.MatrixFactoryGate) and isinstance(
+        gate.matrix_factory, _gates.CustomGateMatrixFactory
     )
 
 
@@ -97,10 +104,13 @@ class Circuit:
         return _append_to_circuit(other, self)
 
     def collect_custom_gate_definitions(self) -> Iterable[_gates.CustomGateDefinition]:
+        innermost_gates = (
+            _innermost_gate(operation.gate) for operation in self.operations
+        )
         custom_gate_definitions = (
-            operation.gate.matrix_factory.gate_definition
-            for operation in self.operations
-            if _operation_uses_custom_gate(operation)
+            gate.matrix_factory.gate_definition
+            for gate in innermost_gates
+            if _is_custom_gate(gate)
         )
         unique_operation_dict = {}
         for gate_def in custom_gate_definitions:
-- 
2.43.0


From f62a7a517fea267bc91300ce6d6929c3ed811ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:53 +0000
Subject: [PATCH 13/32] fix: params of custom gates are deserialized using the
 symbols they contain

---
 src/orquestra/quantum/circuits/_serde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index 2297785..d307fd4 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -283,7 +283,7 @@ def _custom_gate_instance_from_dict(dict_, custom_gate_defs) -> _gates.Gate:
             f"Custom gate definition for {dict_['name']} missing from serialized dict"
         )
 
-    symbol_names = map(serialize_expr, gate_def.params_ordering)
+    symbol_names = dict_.get("free_symbols", [])
     return gate_def(
         *[deserialize_expr(param, symbol_names) for param in dict_.get("params", [])]
     )
-- 
2.43.0


From 03faeb1923e98ea4b9dccdf18826391bc275c10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:53 +0000
Subject: [PATCH 14/32] fix: names of imports and helpers aren't names of
 built-in gates

---
 src/orquestra/quantum/circuits/_builtin_gates.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/orquestra/quantum/circuits/_builtin_gates.py b/src/orquestra/quantum/circuits/_builtin_gates.py
index aa60603..91d977e 100644
--- a/src/orquestra/quantum/circuits/_builtin_gates.py
+++ b/src/orquestra/quantum/circuits/_builtin_gates.py
@@ -29,9 +29,16 @@ def builtin_gate_by_name(name) -> GateRef:
     Raises:
         KeyError: when there's no built-in gate for this name.
     """
+    if name in _NON_GATE_NAMES:
+        raise KeyError(name)
+
     return globals()[name]
 
 
+# Everything in this module's namespace that precedes the definitions of gates.
+_NON_GATE_NAMES = {*globals(), "_NON_GATE_NAMES"}
+
+
 # --- non-parametric, single qubit gates ---
 
 X = _gates.MatrixFactoryGate("X", _matrices.x_matrix, (), 1, is_hermitian=True)
-- 
2.43.0


From 775a4032dd19dae36e648e9131aaf5602772eff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:51 +0000
Subject: [PATCH 15/32] fix: symbols in serialized expressions don't collide
 with each other nor with names known to sympy

---
 src/orquestra/quantum/circuits/_serde.py | 54 +++++++++++++++---------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index d307fd4..6600a71 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -4,7 +4,7 @@
 import json
 import re
 from functools import singledispatch
-from typing import Dict, Iterable, List, Mapping, Union
+from typing import Dict, Iterable, List, Mapping, Tuple
 
 import sympy
 
@@ -17,28 +17,44 @@ def serialize_expr(expr: sympy.Expr):
     return str(expr)
 
 
-def _make_symbols_map(
-    symbol_names: Iterable[str],
-) -> Dict[str, Union[sympy.Symbol, Dict[int, sympy.Symbol]]]:
-    symbols_map: Dict[str, Union[sympy.Symbol, Dict[int, sympy.Symbol]]] = {}
-    for name in symbol_names:
-        # Check if the symbol name has brackets, such as "x[4]". Such symbol names will
-        # occur in circuits imported from Qiskit when the Qiskit circuit was
-        # parameterized using a Qiskit ParameterVector.
-        match = re.search(r"^(.*)\[([0-9]+)\]$", name)
-        if match:
-            symbols_map.setdefault(match.group(1), {})[
-                int(match.group(2))
-            ] = sympy.Symbol(name)
-        else:
-            symbols_map[name] = sympy.Symbol(name)
+# Matches the beginning of numbers, so that the exponents aren't taken for symbols.
+_NUMBER_PATTERN = r"(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?"
 
-    return symbols_map
+
+def _replace_symbols(
+    expr_str: str, symbol_names: Iterable[str]
+) -> Tuple[str, Dict[str, sympy.Symbol]]:
+    """Replace symbols' names in a serialized expression with placeholders.
+
+    The placeholders, in contrast to the original names, don't collide with names known
+    to sympy nor with each other. In particular, names with brackets, such as "x[4]",
+    will occur in circuits imported from Qiskit when the Qiskit circuit was
+    parameterized using a Qiskit ParameterVector.
+
+    Returns:
+        The new expression and a map from the placeholders to symbols.
+    """
+    # Longest names go first, so that "x[4]" isn't mistaken for "x".
+    names = sorted(set(symbol_names), key=len, reverse=True)
+    if not names:
+        return expr_str, {}
+
+    placeholders = {name: f"_symbol_{i}" for i, name in enumerate(names)}
+    # Name followed by a parenthesis is a call of a function.
+    symbol_pattern = rf"(?<!\w)({'|'.join(map(re.escape, names))})(?![\w(])"
+    return (
+        re.sub(
+            f"{_NUMBER_PATTERN}|{symbol_pattern}",
+            lambda match: placeholders.get(match.group(1), match.group(0)),
+            expr_str,
+        ),
+        {placeholders[name]: sympy.Symbol(name) for name in names},
+    )
 
 
 def deserialize_expr(expr_str, symbol_names):
-    symbols_map = _make_symbols_map(symbol_names)
-    return sympy.sympify(expr_str, locals=symbols_map)
+    expr_with_placeholders, symbols_map = _replace_symbols(expr_str, symbol_names)
+    return sympy.sympify(expr_with_placeholders, locals=symbols_map)
 
 
 def builtin_gate_by_name(name):
-- 
2.43.0


From 6b1ec3354e46648e1441504525c63d6b70f0ed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:53 +0000
Subject: [PATCH 16/32] fix: Python's floats are exactly the same after
 deserialization

---
 src/orquestra/quantum/circuits/_serde.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index 6600a71..b98b7fc 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -1,10 +1,11 @@
 ################################################################################
 # © Copyright 2021-2022 Zapata Computing Inc.
 ################################################################################
+import cmath
 import json
 import re
 from functools import singledispatch
-from typing import Dict, Iterable, List, Mapping, Tuple
+from typing import Dict, Iterable, List, Mapping, Optional, Tuple
 
 import sympy
 
@@ -52,7 +53,26 @@ def _replace_symbols(
     )
 
 
+def _parse_python_number(number_str: str) -> Optional[sympy.Expr]:
+    """Parse text made by converting a Python's float or complex number to string."""
+    for number_type in (float, complex):
+        try:
+            number = number_type(number_str)
+        except ValueError:
+            continue
+        if str(number) == number_str and cmath.isfinite(number):
+            return sympy.sympify(number)
+
+    return None
+
+
 def deserialize_expr(expr_str, symbol_names):
+    # Sympy parses long numbers with a higher precision than the one of Python's floats,
+    # and rounding such a number again might not give back the original one.
+    number = _parse_python_number(expr_str)
+    if number is not None:
+        return number
+
     expr_with_placeholders, symbols_map = _replace_symbols(expr_str, symbol_names)
     return sympy.sympify(expr_with_placeholders, locals=symbols_map)
 
-- 
2.43.0


From 2f8a8ee9f287963bf877f8e9f459e0f34425289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:41 +0000
Subject: [PATCH 17/32] fix: sympy's constants are told apart from symbols of
 the same name when serializing

---
 src/orquestra/quantum/circuits/_serde.py | 46 +++++++++++++++++++-----
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index b98b7fc..9bca040 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -8,13 +8,41 @@ from functools import singledispatch
 from typing import Dict, Iterable, List, Mapping, Optional, Tuple
 
 import sympy
+from sympy.printing.str import StrPrinter
 
 from ..typing import DumpTarget, LoadSource
 from ..utils import ensure_open
 from . import _builtin_gates, _circuit, _gates
 
 
-def serialize_expr(expr: sympy.Expr):
+class _ConstantsPrinter(StrPrinter):
+    """Prints constants as expressions that don't contain the constants' names."""
+
+    def __init__(self, symbol_names: Iterable[str]):
+        super().__init__()
+        self._symbol_names = set(symbol_names)
+
+    def _print_Pi(self, expr):
+        return "acos(-1)" if "pi" in self._symbol_names else "pi"
+
+    def _print_Exp1(self, expr):
+        return "exp(1)" if "E" in self._symbol_names else "E"
+
+    def _print_ImaginaryUnit(self, expr):
+        return "sqrt(-1)" if "I" in self._symbol_names else "I"
+
+
+def serialize_expr(expr: sympy.Expr, symbol_names: Iterable[str] = ()):
+    """Convert an expression to text.
+
+    Args:
+        expr: expression to convert.
+        symbol_names: names that are symbols in the context of this expression, and so
+            can't be used for denoting sympy's constants.
+    """
+    if isinstance(expr, sympy.Basic):
+        return _ConstantsPrinter(symbol_names).doprint(expr)
+
     return str(expr)
 
 
@@ -81,9 +109,9 @@ def builtin_gate_by_name(name):
     return _builtin_gates.builtin_gate_by_name(name)
 
 
-def _matrix_to_json(matrix: sympy.Matrix):
+def _matrix_to_json(matrix: sympy.Matrix, symbol_names: Iterable[str]):
     return [
-        [serialize_expr(element) for element in matrix.row(row_i)]
+        [serialize_expr(element, symbol_names) for element in matrix.row(row_i)]
         for row_i in range(matrix.shape[0])
     ]
 
@@ -163,23 +191,25 @@ def _gate_operation_to_dict(gate_operation: _gates.GateOperation):
 
 @to_dict.register
 def _basic_gate_to_dict(gate: _gates.MatrixFactoryGate):
+    symbol_names = sorted(map(str, gate.free_symbols))
     return {
         "name": gate.name,
-        **({"params": _map_eager(serialize_expr, gate.params)} if gate.params else {}),
         **(
-            {"free_symbols": sorted(map(str, gate.free_symbols))}
-            if gate.free_symbols
+            {"params": [serialize_expr(param, symbol_names) for param in gate.params]}
+            if gate.params
             else {}
         ),
+        **({"free_symbols": symbol_names} if symbol_names else {}),
     }
 
 
 @to_dict.register
 def _custom_gate_def_to_dict(gate_def: _gates.CustomGateDefinition):
+    symbol_names = _map_eager(str, gate_def.params_ordering)
     return {
         "gate_name": gate_def.gate_name,
-        "matrix": _matrix_to_json(gate_def.matrix),
-        "params_ordering": _map_eager(serialize_expr, gate_def.params_ordering),
+        "matrix": _matrix_to_json(gate_def.matrix, symbol_names),
+        "params_ordering": symbol_names,
     }
 
 
-- 
2.43.0


From cb508264d96f9c6ad19730c264c09d8fffd635bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:10 +0000
Subject: [PATCH 18/32] fix: printed constant terms can be parsed back

---
 src/orquestra/quantum/operators/_pauli_operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/orquestra/quantum/operators/_pauli_operators.py b/src/orquestra/quantum/operators/_pauli_operators.py
index de757fd..b145bea 100644
--- a/src/orquestra/quantum/operators/_pauli_operators.py
+++ b/src/orquestra/quantum/operators/_pauli_operators.py
@@ -120,6 +120,9 @@ def _parse_operators_and_coefficient(
         coef = None
         operators_strs = parts
 
+    # Constant terms are printed with identity operator that has no qubit index.
+    operators_strs = [op_str for op_str in operators_strs if op_str.upper() != "I"]
+
     operators_dict = dict([_parse_operator(op_str) for op_str in operators_strs])
 
     if len(operators_dict) != len(operators_strs):
-- 
2.43.0


From 01cfcdbd3cd30f268507c297fdebce68a505f060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:10 +0000
Subject: [PATCH 19/32] fix: artefacts can be loaded from any kind of path

---
 src/orquestra/quantum/circuits/layouts.py     | 28 ++++++++-----------
 .../quantum/measurements/measurements.py      | 19 +++++++------
 src/orquestra/quantum/operators/_io.py        | 15 ++++------
 src/orquestra/quantum/utils.py                | 14 +++-------
 4 files changed, 30 insertions(+), 46 deletions(-)

diff --git a/src/orquestra/quantum/circuits/layouts.py b/src/orquestra/quantum/circuits/layouts.py
index 7cc055e..cceaea4 100644
--- a/src/orquestra/quantum/circuits/layouts.py
+++ b/src/orquestra/quantum/circuits/layouts.py
@@ -2,10 +2,13 @@
 # © Copyright 2021-2022 Zapata Computing Inc.
 ################################################################################
 import json
-from typing import Dict, List, TextIO, Tuple
+from typing import Dict, List, Tuple
 
 import numpy as np
 
+from ..typing import LoadSource
+from ..utils import ensure_open
+
 
 class CircuitLayers:
     """A class representing a pattern of circuit layers, consisting of lists,
@@ -43,7 +46,7 @@ def save_circuit_layers(circuit_layers: CircuitLayers, filename: str) -> None:
         f.write(json.dumps(circuit_layers_dict))
 
 
-def load_circuit_layers(file: TextIO) -> CircuitLayers:
+def load_circuit_layers(file: LoadSource) -> CircuitLayers:
     """Loads a list of circuit layers from a file.
     Args:
         file (str or file-like object): the name of the file, or a file-like object.
@@ -52,11 +55,8 @@ def load_circuit_layers(file: TextIO) -> CircuitLayers:
         (circuit.CircuitLayers)
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return CircuitLayers.from_dict(data)
 
@@ -82,11 +82,8 @@ def load_circuit_ordering(file):
         ordering (list)
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return data["ordering"]
 
@@ -134,11 +131,8 @@ def load_circuit_connectivity(file):
         (orquestra.quantum.circuit.CircuitConnectivity)
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return CircuitConnectivity.from_dict(data)
 
diff --git a/src/orquestra/quantum/measurements/measurements.py b/src/orquestra/quantum/measurements/measurements.py
index c0ed8d5..5403493 100644
--- a/src/orquestra/quantum/measurements/measurements.py
+++ b/src/orquestra/quantum/measurements/measurements.py
@@ -6,14 +6,18 @@ from __future__ import annotations
 import copy
 import json
 from collections import Counter
-from typing import Dict, Iterable, List, Optional, Sequence, TextIO, Tuple
+from typing import Dict, Iterable, List, Optional, Sequence, Tuple
 
 import numpy as np
 
 from ..distributions import MeasurementOutcomeDistribution
 from ..operators import PauliRepresentation
-from ..typing import AnyPath
-from ..utils import convert_tuples_to_bitstrings, sample_from_probability_distribution
+from ..typing import AnyPath, LoadSource
+from ..utils import (
+    convert_tuples_to_bitstrings,
+    ensure_open,
+    sample_from_probability_distribution,
+)
 from .expectation_values import ExpectationValues
 from .parities import check_parity_of_vector
 
@@ -211,17 +215,14 @@ class Measurements:
         return cls(bitstring_samples)
 
     @classmethod
-    def load_from_file(cls, file: TextIO):
+    def load_from_file(cls, file: LoadSource):
         """Load a set of measurements from file
 
         Args:
             file (str or file-like object): the name of the file, or a file-like object
         """
-        if isinstance(file, str):
-            with open(file, "r") as f:
-                data = json.load(f)
-        else:
-            data = json.load(file)
+        with ensure_open(file) as f:
+            data = json.load(f)
 
         bitstrings = []
         for bitstring in data["bitstrings"]:
diff --git a/src/orquestra/quantum/operators/_io.py b/src/orquestra/quantum/operators/_io.py
index 142d622..ac162e5 100644
--- a/src/orquestra/quantum/operators/_io.py
+++ b/src/orquestra/quantum/operators/_io.py
@@ -6,6 +6,7 @@ from typing import Any, Dict, List, Tuple
 import rapidjson as json
 
 from ..typing import AnyPath, LoadSource
+from ..utils import ensure_open
 from ._pauli_operators import PauliRepresentation, PauliSum, PauliTerm
 
 
@@ -76,11 +77,8 @@ def load_operator(file: LoadSource) -> PauliSum:
         op: the operator.
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return convert_dict_to_op(data)
 
@@ -109,11 +107,8 @@ def load_operator_set(file: LoadSource) -> List[PauliSum]:
     Returns:
         operator_set: a list of QubitOperator objects
     """
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     operator_set = []
     for operator_dict in data["operators"]:
diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 2252ec5..42b5a06 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -332,11 +332,8 @@ def load_value_estimate(file: LoadSource) -> ValueEstimate:
         array (numpy.array): the array
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)  # type: ignore
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return ValueEstimate.from_dict(data)
 
@@ -364,11 +361,8 @@ def load_list(file: LoadSource) -> List:
         array (list): the list
     """
 
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)  # type: ignore
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     return data["list"]
 
-- 
2.43.0


From f3884b55187b358d0d99a67c1b511a95dad6d62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:10 +0000
Subject: [PATCH 20/32] fix: estimate of measurements without frames can be
 loaded, also from an open file

---
 src/orquestra/quantum/utils.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 42b5a06..642ec8a 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -451,22 +451,27 @@ def save_nmeas_estimate(
         f.write(json.dumps(data, indent=2))
 
 
-def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, np.ndarray]:
+def load_nmeas_estimate(
+    filename: LoadSource,
+) -> Tuple[float, int, Optional[np.ndarray]]:
     """Load an estimate of the number of measurements from a file.
 
     Args:
-        filename: the name of the file
+        filename: the name of the file, or a file-like object
 
     Returns:
         nmeas: number of measurements for epsilon = 1.0
         nterms: number of terms in the hamiltonian
-        frame_meas: frame measurements (number of measurements per group)
+        frame_meas: frame measurements (number of measurements per group), None if they
+            weren't saved
     """
 
-    with open(filename, "r") as f:
+    with ensure_open(filename) as f:
         data = json.load(f)
 
-    frame_meas = convert_dict_to_array(data["frame_meas"])
+    frame_meas = (
+        convert_dict_to_array(data["frame_meas"]) if "frame_meas" in data else None
+    )
     K_coeff = data["K"]
     nterms = data["nterms"]
 
-- 
2.43.0


From 6afe85491b41c2ccf592455ad932c5373d85aafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:10 +0000
Subject: [PATCH 21/32] fix: empty lists of frames are distinguished from
 absent ones when saving

---
 src/orquestra/quantum/measurements/expectation_values.py | 8 ++++----
 src/orquestra/quantum/measurements/parities.py           | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/orquestra/quantum/measurements/expectation_values.py b/src/orquestra/quantum/measurements/expectation_values.py
index 70d588d..22192ea 100644
--- a/src/orquestra/quantum/measurements/expectation_values.py
+++ b/src/orquestra/quantum/measurements/expectation_values.py
@@ -53,12 +53,12 @@ class ExpectationValues:
 
         data["expectation_values"] = convert_array_to_dict(self.values)
 
-        if self.correlations:
+        if self.correlations is not None:
             data["correlations"] = []
             for correlation_matrix in self.correlations:
                 data["correlations"].append(convert_array_to_dict(correlation_matrix))
 
-        if self.estimator_covariances:
+        if self.estimator_covariances is not None:
             data["estimator_covariances"] = []
             for covariance_matrix in self.estimator_covariances:
                 data["estimator_covariances"].append(
@@ -73,13 +73,13 @@ class ExpectationValues:
 
         expectation_values = convert_dict_to_array(dictionary["expectation_values"])
         correlations: Optional[List] = None
-        if dictionary.get("correlations"):
+        if dictionary.get("correlations") is not None:
             correlations = []
             for correlation_matrix in cast(Iterable, dictionary.get("correlations")):
                 correlations.append(convert_dict_to_array(correlation_matrix))
 
         estimator_covariances: Union[List, None] = None
-        if dictionary.get("estimator_covariances"):
+        if dictionary.get("estimator_covariances") is not None:
             estimator_covariances = []
             for covariance_matrix in cast(
                 Iterable, dictionary.get("estimator_covariances")
diff --git a/src/orquestra/quantum/measurements/parities.py b/src/orquestra/quantum/measurements/parities.py
index be25888..59cb65a 100644
--- a/src/orquestra/quantum/measurements/parities.py
+++ b/src/orquestra/quantum/measurements/parities.py
@@ -41,7 +41,7 @@ class Parities:
 
     def to_dict(self) -> dict:
         data: Dict[str, Any] = {"values": convert_array_to_dict(self.values)}
-        if self.correlations:
+        if self.correlations is not None:
             data["correlations"] = [
                 convert_array_to_dict(arr) for arr in self.correlations
             ]
@@ -50,7 +50,7 @@ class Parities:
     @classmethod
     def from_dict(cls, data: dict):
         values = convert_dict_to_array(data["values"])
-        if data.get("correlations"):
+        if data.get("correlations") is not None:
             correlations: Optional[List] = [
                 convert_dict_to_array(arr) for arr in data["correlations"]
             ]
-- 
2.43.0


From 6bda719877e2683e60d9a508f9f57d0be187b6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:06 +0000
Subject: [PATCH 22/32] fix: shapes of arrays without elements survive saving
 and loading

---
 src/orquestra/quantum/utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 642ec8a..764a91e 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -33,6 +33,9 @@ def convert_dict_to_array(dictionary: dict) -> np.ndarray:
     if dictionary.get("imag"):
         array = array + 1j * np.array(dictionary["imag"])
 
+    if "shape" in dictionary:
+        array = array.reshape(dictionary["shape"])
+
     return array
 
 
@@ -53,6 +56,10 @@ def convert_array_to_dict(array: np.ndarray) -> dict:
     else:
         dictionary["real"] = array.tolist()
 
+    if array.size == 0 and array.ndim > 1:
+        # Nested lists don't determine the shape of an array without elements.
+        dictionary["shape"] = list(array.shape)
+
     return dictionary
 
 
-- 
2.43.0


From f3af822b4f3155805dc63ab3afecc8c46688d966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:13 +0000
Subject: [PATCH 23/32] fix: subdistribution leaves its source intact and keeps
 outcomes above nine apart

---
 .../distributions/_measurement_outcome_distribution.py   | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index 2340da2..f27b7ab 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -1,7 +1,6 @@
 ################################################################################
 # © Copyright 2022 Zapata Computing Inc.
 ################################################################################
-import copy
 import json
 import math
 import sys
@@ -100,11 +99,9 @@ class MeasurementOutcomeDistribution:
         if len(active_qubits) != len(set(active_qubits)):
             raise ValueError("There exist duplicate indices in the active qubit list")
 
-        for key in copy.deepcopy(list(self.distribution_dict.keys())):
-            new_key = "".join(str(key[i]) for i in active_qubits)
-            new_counts[new_key] = self.distribution_dict.pop(key) + new_counts.get(
-                new_key, 0
-            )
+        for key, value in self.distribution_dict.items():
+            new_key = tuple(int(key[i]) for i in active_qubits)
+            new_counts[new_key] = value + new_counts.get(new_key, 0)
         normalize = is_normalized(self.distribution_dict)
         return MeasurementOutcomeDistribution(new_counts, normalize=normalize)
 
-- 
2.43.0


From 2410b26c6c002820407beb78b823a0742b3973df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:34 +0000
Subject: [PATCH 24/32] fix: distributions over one subsystem with outcomes
 above nine can be loaded

---
 .../_measurement_outcome_distribution.py         | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index f27b7ab..0005164 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -3,6 +3,7 @@
 ################################################################################
 import json
 import math
+import re
 import sys
 import warnings
 from itertools import product
@@ -112,7 +113,11 @@ def preprocess_distibution_dict(
     res_dict: Dict[Union[str, Tuple[int, ...]], float] = {}
     for key, value in input_dict.items():
         if isinstance(key, str):
-            res_dict[tuple(map(int, key if "," not in key else key.split(",")))] = value
+            if "," in key:
+                # Keys with a single integer end with a comma.
+                res_dict[tuple(map(int, re.sub(",$", "", key).split(",")))] = value
+            else:
+                res_dict[tuple(map(int, key))] = value
         elif isinstance(key, tuple):
             res_dict[key] = value
         else:
@@ -241,9 +246,16 @@ def normalize_measurement_outcome_distribution(
         return measurement_outcome_distribution
 
 
+def _tuple_to_comma_separated_integers(key):
+    if len(key) == 1 and key[0] > 9:
+        # Without a comma it would be read as a string of single digits.
+        return f"{key[0]},"
+    return ",".join(map(str, key))
+
+
 def change_tuple_dict_keys_to_comma_separated_integers(dict):
     return {
-        ",".join(map(str, key)) if isinstance(key, tuple) else key: value
+        _tuple_to_comma_separated_integers(key) if isinstance(key, tuple) else key: value
         for key, value in dict.items()
     }
 
-- 
2.43.0


From 229cc37b374076ab7d72457459555138171e67b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:36 +0000
Subject: [PATCH 25/32] fix: distributions can be loaded from any kind of path

---
 .../_measurement_outcome_distribution.py      | 27 +++++++++----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index 0005164..bb391bf 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -11,7 +11,8 @@ from typing import Any, Callable, Dict, List, Tuple, Union
 
 import numpy as np
 
-from ..typing import AnyPath
+from ..typing import AnyPath, LoadSource
+from ..utils import ensure_open
 
 
 class MeasurementOutcomeDistribution:
@@ -306,20 +307,19 @@ def save_measurement_outcome_distributions(
         f.write(json.dumps(dictionary, indent=2))
 
 
-def load_measurement_outcome_distribution(file: str) -> MeasurementOutcomeDistribution:
+def load_measurement_outcome_distribution(
+    file: LoadSource,
+) -> MeasurementOutcomeDistribution:
     """Load a measurement outcome distribution from a json file.
 
     Arguments:
-        file (str): the name of the file
+        file: the name of the file, or a file-like object.
 
     Returns:
         object: a python object loaded from the measurement_outcome_distribution
     """
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     try:
         distribution = MeasurementOutcomeDistribution(data["bitstring_distribution"])
@@ -331,22 +331,19 @@ def load_measurement_outcome_distribution(file: str) -> MeasurementOutcomeDistri
 
 
 def load_measurement_outcome_distributions(
-    file: str,
+    file: LoadSource,
 ) -> List[MeasurementOutcomeDistribution]:
     """Load a list of measurement_outcome_distribution from a json file.
 
     Arguments:
-        file: the name of the file.
+        file: the name of the file, or a file-like object.
 
     Returns:
         A list of measurement outcome distributions loaded
          from the measurement_outcome_distribution
     """
-    if isinstance(file, str):
-        with open(file, "r") as f:
-            data = json.load(f)
-    else:
-        data = json.load(file)
+    with ensure_open(file) as f:
+        data = json.load(f)
 
     distribution_list = []
     for i in range(len(data["measurement_outcome_distribution"])):
-- 
2.43.0


From 0bfc64ce3330410ca09278a32c70680beee983fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:06 +0000
Subject: [PATCH 26/32] fix: distributions with probabilities of numpy's types
 can be saved

---
 .../distributions/_measurement_outcome_distribution.py      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
index bb391bf..9850079 100644
--- a/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
+++ b/src/orquestra/quantum/distributions/_measurement_outcome_distribution.py
@@ -280,7 +280,8 @@ def save_measurement_outcome_distribution(
 
     dictionary["measurement_outcome_distribution"] = preprocessed_distribution_dict
     with open(filename, "w") as f:
-        f.write(json.dumps(dictionary, indent=2))
+        # Probabilities may be numbers of numpy's types.
+        f.write(json.dumps(dictionary, indent=2, default=float))
 
 
 def save_measurement_outcome_distributions(
@@ -304,7 +305,8 @@ def save_measurement_outcome_distributions(
         )
 
     with open(filename, "w") as f:
-        f.write(json.dumps(dictionary, indent=2))
+        # Probabilities may be numbers of numpy's types.
+        f.write(json.dumps(dictionary, indent=2, default=float))
 
 
 def load_measurement_outcome_distribution(
-- 
2.43.0


From 2734fd54465c2341923824e7046e6b16dbb4f077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:32 +0000
Subject: [PATCH 27/32] fix: MMD of distributions over more than 31 qubits
 doesn't overflow

---
 src/orquestra/quantum/distributions/mmd.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/orquestra/quantum/distributions/mmd.py b/src/orquestra/quantum/distributions/mmd.py
index 85e1630..b3c5761 100644
--- a/src/orquestra/quantum/distributions/mmd.py
+++ b/src/orquestra/quantum/distributions/mmd.py
@@ -48,7 +48,7 @@ def compute_rbf_kernel(x_i: np.ndarray, y_j: np.ndarray, sigma: float) -> np.nda
     Returns:
         np.ndarray: The gaussian kernel matrix.
     """
-    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2
+    exponent = np.abs(x_i[:, None] - y_j[None, :]).astype(float) ** 2
     try:
         gamma = 1.0 / (2 * sigma)
     except ZeroDivisionError as error:
@@ -75,7 +75,7 @@ def compute_multi_rbf_kernel(
     Returns:
         np.ndarray: The gaussian kernel matrix.
     """
-    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2
+    exponent = np.abs(x_i[:, None] - y_j[None, :]).astype(float) ** 2
     kernel_matrix = np.zeros(exponent.shape)
     for sigma in sigmas:
         try:
@@ -122,8 +122,10 @@ def compute_mmd(
             measured_distribution.distribution_dict.get(bitstring, 0)
         )
 
+    n_subsystems = target_distribution.get_number_of_subsystems()
     basis = np.asarray(
-        [int("".join(map(str, item)), 2) for item in all_keys]
+        [int("".join(map(str, item)), 2) for item in all_keys],
+        dtype=np.int64 if n_subsystems < 64 else object,
     )  # Digit Tuple to int
     if not hasattr(sigma, "__len__"):
         kernel_matrix = compute_rbf_kernel(basis, basis, sigma)
-- 
2.43.0


From 39605fd8fb756185c37ba55034a03b754abc4301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:46 +0000
Subject: [PATCH 28/32] fix: MMD of distributions with outcomes above one

---
 src/orquestra/quantum/distributions/mmd.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/orquestra/quantum/distributions/mmd.py b/src/orquestra/quantum/distributions/mmd.py
index b3c5761..be438d3 100644
--- a/src/orquestra/quantum/distributions/mmd.py
+++ b/src/orquestra/quantum/distributions/mmd.py
@@ -26,6 +26,7 @@
 # OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
 # SOFTWARE.
 
+from functools import reduce
 from typing import TYPE_CHECKING, Dict, Sequence
 
 import numpy as np
@@ -122,11 +123,14 @@ def compute_mmd(
             measured_distribution.distribution_dict.get(bitstring, 0)
         )
 
+    # Read outcomes as digits of integers. The base is 2 for outcomes of qubits.
+    outcomes = [tuple(map(int, item)) for item in all_keys]
+    base = max(2, 1 + max(max(outcome, default=0) for outcome in outcomes))
     n_subsystems = target_distribution.get_number_of_subsystems()
     basis = np.asarray(
-        [int("".join(map(str, item)), 2) for item in all_keys],
-        dtype=np.int64 if n_subsystems < 64 else object,
-    )  # Digit Tuple to int
+        [reduce(lambda n, digit: n * base + digit, outcome, 0) for outcome in outcomes],
+        dtype=np.int64 if base**n_subsystems <= 2**63 else object,
+    )
     if not hasattr(sigma, "__len__"):
         kernel_matrix = compute_rbf_kernel(basis, basis, sigma)
     else:
-- 
2.43.0


From 49fb23c7ec7a571a6bcca4a8250bb01c26fdb787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:09 +0000
Subject: [PATCH 29/32] fix: parse sums of Pauli terms whose coefficients have
 positive exponents

---
 src/orquestra/quantum/operators/_pauli_operators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/operators/_pauli_operators.py b/src/orquestra/quantum/operators/_pauli_operators.py
index b145bea..db851b8 100644
--- a/src/orquestra/quantum/operators/_pauli_operators.py
+++ b/src/orquestra/quantum/operators/_pauli_operators.py
@@ -401,7 +401,11 @@ class PauliTerm:
 class PauliSum:
     def __init__(self, terms: Optional[Union[str, Sequence[PauliTerm]]] = None):
         if isinstance(terms, str):
-            terms = [PauliTerm(s.strip()) for s in re.split(r"\+(?![^(]*\))", terms)]
+            # Pluses in exponents, like in 1e+16, and in brackets don't separate terms
+            terms = [
+                PauliTerm(s.strip())
+                for s in re.split(r"(?<![eE])\+(?![^(]*\))", terms)
+            ]
         if terms is None:
             # If no terms is given, the PauliSum has a value of zero.
             terms = []
-- 
2.43.0


From 7c97597799099887df66ff76bd36254e38b8e43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 30/32] fix: scale_and_discretize is exact for any total and
 any kind of iterable

---
 src/orquestra/quantum/utils.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 764a91e..90da3f4 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -4,9 +4,11 @@
 """General-purpose utilities."""
 import collections
 import json
+import math
 import os
 import sys
 from contextlib import contextmanager
+from fractions import Fraction
 from functools import lru_cache
 from typing import Any, Dict, Iterable, List, Optional, Tuple, Union
 
@@ -499,20 +501,22 @@ def scale_and_discretize(values: Iterable[float], total: int) -> List[int]:
             of the input list elements.
     """
 
-    # Note: combining the two lines below breaks type checking; see mypy #6040
-    value_sum = sum(values)
-    scale_factor = total / value_sum
-
-    result = [np.floor(value * scale_factor) for value in values]
-    remainders = [
-        value * scale_factor - np.floor(value * scale_factor) for value in values
+    # Shares are computed exactly, as rounding errors of the floating point arithmetic
+    # would be amplified by large totals.
+    exact_values = [
+        Fraction(value.item() if isinstance(value, np.generic) else value)
+        for value in values
     ]
-    indexes_sorted_by_remainder = np.argsort(remainders)[::-1]
-    for index in range(int(round(total - sum(result)))):
+    scale_factor = Fraction(int(total)) / sum(exact_values)
+
+    shares = [value * scale_factor for value in exact_values]
+    result = [math.floor(share) for share in shares]
+    indexes_sorted_by_remainder = sorted(
+        range(len(shares)), key=lambda index: shares[index] - result[index]
+    )[::-1]
+    for index in range(int(total) - sum(result)):
         result[indexes_sorted_by_remainder[index]] += 1
 
-    result = [int(value) for value in result]
-
     assert sum(result) == total, "The scaled list does not sum to the desired total."
 
     return result
-- 
2.43.0


From 95e24e2684831218d7d54897411a259e55593565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:37 +0000
Subject: [PATCH 31/32] fix: circuits with numpy numbers as qubit indices and
 parameters can be saved

---
 src/orquestra/quantum/circuits/_serde.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/orquestra/quantum/circuits/_serde.py b/src/orquestra/quantum/circuits/_serde.py
index 9bca040..5b6f142 100644
--- a/src/orquestra/quantum/circuits/_serde.py
+++ b/src/orquestra/quantum/circuits/_serde.py
@@ -7,6 +7,7 @@ import re
 from functools import singledispatch
 from typing import Dict, Iterable, List, Mapping, Optional, Tuple
 
+import numpy as np
 import sympy
 from sympy.printing.str import StrPrinter
 
@@ -43,7 +44,12 @@ def serialize_expr(expr: sympy.Expr, symbol_names: Iterable[str] = ()):
     if isinstance(expr, sympy.Basic):
         return _ConstantsPrinter(symbol_names).doprint(expr)
 
-    return str(expr)
+    return str(_python_number(expr))
+
+
+def _python_number(number):
+    """Convert numpy's numbers, which JSON doesn't know, to Python's ones."""
+    return number.item() if isinstance(number, np.generic) else number
 
 
 # Matches the beginning of numbers, so that the exponents aren't taken for symbols.
@@ -150,7 +156,7 @@ def _circuit_to_dict(circuit: _circuit.Circuit):
     """
     custom_gate_definitions = circuit.collect_custom_gate_definitions()
     return {
-        "n_qubits": circuit.n_qubits,
+        "n_qubits": int(circuit.n_qubits),
         **(
             {
                 "operations": _map_eager(to_dict, circuit.operations),
@@ -185,7 +191,7 @@ def _gate_operation_to_dict(gate_operation: _gates.GateOperation):
     return {
         "type": "gate_operation",
         "gate": to_dict(gate_operation.gate),
-        "qubit_indices": list(gate_operation.qubit_indices),
+        "qubit_indices": _map_eager(int, gate_operation.qubit_indices),
     }
 
 
@@ -218,7 +224,7 @@ def _controlled_gate_to_dict(gate: _gates.ControlledGate):
     return {
         "name": gate.name,
         "wrapped_gate": to_dict(gate.wrapped_gate),
-        "num_control_qubits": gate.num_control_qubits,
+        "num_control_qubits": int(gate.num_control_qubits),
     }
 
 
@@ -243,7 +249,7 @@ def _power_gate_to_dict(gate: _gates.Power):
     return {
         "name": gate.name,
         "wrapped_gate": to_dict(gate.wrapped_gate),
-        "exponent": gate.exponent,
+        "exponent": _python_number(gate.exponent),
     }
 
 
-- 
2.43.0


From 3c82effad31421f0e0cc37c2a3c04574cec8a66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:35 +0000
Subject: [PATCH 32/32] fix: outcomes with boolean bits are counted like those
 with integer ones

---
 src/orquestra/quantum/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/orquestra/quantum/utils.py b/src/orquestra/quantum/utils.py
index 90da3f4..8fd27c5 100644
--- a/src/orquestra/quantum/utils.py
+++ b/src/orquestra/quantum/utils.py
@@ -264,7 +264,8 @@ def tuple_to_bitstring(tup: Tuple[int, ...]) -> str:
     Returns:
         A string with binary digits
     """
-    return "".join(map(str, tup))
+    # Bits of other types, like booleans, are equal to integers, and so share the cache.
+    return "".join(map(str, map(int, tup)))
 
 
 class ValueEstimate(float):
-- 
2.43.0

