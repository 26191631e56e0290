From c8e49d7485aac7c527f1dbc3be7c36c2116e9120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 01/56] fix: do not reuse cached state for a circuit with
 different gates

---
 blueqat/backends/_numba_backend_impl.py | 18 ++++++++++++++++--
 blueqat/backends/numpy_backend.py       | 18 ++++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/blueqat/backends/_numba_backend_impl.py b/blueqat/backends/_numba_backend_impl.py
index 44fa851..0fc2d11 100644
--- a/blueqat/backends/_numba_backend_impl.py
+++ b/blueqat/backends/_numba_backend_impl.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import cmath
+import copy
 import math
 import random
 import warnings
@@ -368,12 +369,18 @@ class NumbaBackend(Backend):
     def __init__(self):
         self.cache = None
         self.cache_idx = -1
+        self.__cached_gates = []
+
+    def copy(self):
+        # The gates shall not be copied because they are compared by identity.
+        return copy.deepcopy(self, {id(g): g for g in self.__cached_gates})
 
     def __clear_cache(self):
         self.cache = None
         self.cache_idx = -1
+        self.__cached_gates = []
 
-    def __clear_cache_if_invalid(self, n_qubits, dtype):
+    def __clear_cache_if_invalid(self, gates, n_qubits, dtype):
         if self.cache is None:
             self.__clear_cache()
             return
@@ -383,6 +390,12 @@ class NumbaBackend(Backend):
         if self.cache.dtype != dtype:
             self.__clear_cache()
             return
+        # The cache is valid only for the circuits which begin with the cached gates.
+        n_cached = len(self.__cached_gates)
+        if len(gates) < n_cached or \
+                any(g is not c for g, c in zip(gates, self.__cached_gates)):
+            self.__clear_cache()
+            return
 
     def run(self, gates, n_qubits, *args, **kwargs):
         def __parse_run_args(shots=None, returns=None, enable_cache=True, ignore_global=False,
@@ -406,7 +419,7 @@ class NumbaBackend(Backend):
         shots, returns, dtype, enable_cache, ignore_global = __parse_run_args(*args, **kwargs)
 
         if enable_cache:
-            self.__clear_cache_if_invalid(n_qubits, dtype)
+            self.__clear_cache_if_invalid(gates, n_qubits, dtype)
         else:
             self.__clear_cache()
         ctx = _NumbaBackendContext(n_qubits, enable_cache, dtype)
@@ -429,6 +442,7 @@ class NumbaBackend(Backend):
                     cache_idx += 1
             if self.cache_idx != cache_idx:
                 self.cache_idx = cache_idx
+                self.__cached_gates = list(gates[:cache_idx + 1])
                 if ctx.save_cache:
                     self.cache = ctx.qubits.copy()
             if ctx.cregs:
diff --git a/blueqat/backends/numpy_backend.py b/blueqat/backends/numpy_backend.py
index bf2be21..e570b82 100644
--- a/blueqat/backends/numpy_backend.py
+++ b/blueqat/backends/numpy_backend.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 from collections import Counter
+import copy
 import math
 import random
 import warnings
@@ -68,12 +69,18 @@ class NumPyBackend(Backend):
     def __init__(self):
         self.cache = None
         self.cache_idx = -1
+        self.__cached_gates = []
+
+    def copy(self):
+        # The gates shall not be copied because they are compared by identity.
+        return copy.deepcopy(self, {id(g): g for g in self.__cached_gates})
 
     def __clear_cache(self):
         self.cache = None
         self.cache_idx = -1
+        self.__cached_gates = []
 
-    def __clear_cache_if_invalid(self, n_qubits, dtype):
+    def __clear_cache_if_invalid(self, gates, n_qubits, dtype):
         if self.cache is None:
             self.__clear_cache()
             return
@@ -83,6 +90,12 @@ class NumPyBackend(Backend):
         if self.cache.dtype != dtype:
             self.__clear_cache()
             return
+        # The cache is valid only for the circuits which begin with the cached gates.
+        n_cached = len(self.__cached_gates)
+        if len(gates) < n_cached or \
+                any(g is not c for g, c in zip(gates, self.__cached_gates)):
+            self.__clear_cache()
+            return
 
     def run(self, gates, n_qubits, *args, **kwargs):
         def __parse_run_args(shots=None, returns=None, ignore_global=False, **_kwargs):
@@ -104,7 +117,7 @@ class NumPyBackend(Backend):
 
         shots, returns, ignore_global = __parse_run_args(*args, **kwargs)
 
-        self.__clear_cache_if_invalid(n_qubits, DEFAULT_DTYPE)
+        self.__clear_cache_if_invalid(gates, n_qubits, DEFAULT_DTYPE)
         ctx = _NumPyBackendContext(n_qubits)
 
         def run_single_gate(gate):
@@ -123,6 +136,7 @@ class NumPyBackend(Backend):
                 if ctx.save_cache:
                     self.cache = ctx.qubits.copy()
                     self.cache_idx += 1
+                    self.__cached_gates.append(gate)
             if ctx.cregs:
                 ctx.store_shot()
 
-- 
2.43.0


From 450822df92d72dcb3fa1e9990e4afe14ae681c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:42 +0000
Subject: [PATCH 02/56] fix: reverse the order of qubit pairs in the Hermitian
 conjugate of 2-qubit gates

---
 blueqat/gate.py | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/blueqat/gate.py b/blueqat/gate.py
index e0309b6..8206e5f 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -3,6 +3,7 @@
 This module is internally used.
 """
 
+import copy
 import math
 from abc import ABC
 from typing import List
@@ -83,9 +84,23 @@ class OneQubitGate(Gate):
 class TwoQubitGate(Gate):
     """Abstract quantum gate class for 2 qubits gate."""
 
+    """If True, (control, target) pairs are processed in the reverse order."""
+    _reversed = False
+
     def control_target_iter(self, n_qubits):
         """The generator which yields the tuples of (control, target) qubits."""
-        return qubit_pairs(self.targets, n_qubits)
+        pairs = qubit_pairs(self.targets, n_qubits)
+        if self._reversed:
+            return reversed(list(pairs))
+        return pairs
+
+    def _reverse_order(self, gate):
+        """Make `gate` process the pairs in the reverse order of `self`.
+
+        When a qubit is contained in two or more pairs, the order of pairs is
+        significant and the Hermitian conjugate shall be applied in the reverse order."""
+        gate._reversed = not self._reversed
+        return gate
 
     def _make_fallback_for_control_target_iter(self, n_qubits, fallback):
         gates = []
@@ -299,7 +314,7 @@ class CXGate(TwoQubitGate):
     lowername = "cx"
 
     def dagger(self):
-        return self
+        return self._reverse_order(copy.copy(self))
 
 
 class CZGate(TwoQubitGate):
@@ -315,7 +330,7 @@ class CYGate(TwoQubitGate):
     lowername = "cy"
 
     def dagger(self):
-        return self
+        return self._reverse_order(copy.copy(self))
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -330,7 +345,7 @@ class CHGate(TwoQubitGate):
     lowername = "ch"
 
     def dagger(self):
-        return self
+        return self._reverse_order(copy.copy(self))
 
     def fallback(self, n_qubits):
         # Ignores global phase
@@ -350,7 +365,8 @@ class CRXGate(TwoQubitGate):
         self.theta = theta
 
     def dagger(self):
-        return CRXGate(self.targets, -self.theta, **self.kwargs)
+        return self._reverse_order(
+            CRXGate(self.targets, -self.theta, **self.kwargs))
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -370,7 +386,8 @@ class CRYGate(TwoQubitGate):
         self.theta = theta
 
     def dagger(self):
-        return CRYGate(self.targets, -self.theta, **self.kwargs)
+        return self._reverse_order(
+            CRYGate(self.targets, -self.theta, **self.kwargs))
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -488,7 +505,7 @@ class SwapGate(TwoQubitGate):
     lowername = "swap"
 
     def dagger(self):
-        return self
+        return self._reverse_order(copy.copy(self))
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -534,7 +551,8 @@ class CU2Gate(TwoQubitGate):
         self.lambd = lambd
 
     def dagger(self):
-        return CU3Gate(self.targets, -math.pi / 2, -self.lambd, -self.phi, **self.kwargs)
+        return self._reverse_order(
+            CU3Gate(self.targets, -math.pi / 2, -self.lambd, -self.phi, **self.kwargs))
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
@@ -552,7 +570,8 @@ class CU3Gate(TwoQubitGate):
         self.lambd = lambd
 
     def dagger(self):
-        return CU3Gate(self.targets, -self.theta, -self.lambd, -self.phi, **self.kwargs)
+        return self._reverse_order(
+            CU3Gate(self.targets, -self.theta, -self.lambd, -self.phi, **self.kwargs))
 
     def fallback(self, n_qubits):
         return self._make_fallback_for_control_target_iter(
-- 
2.43.0


From 5ddb66b4b9441eb88fc07261aec76469f18e4668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 03/56] fix: allow Circuit.set_default_backend(None) as
 documented

---
 blueqat/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 7fc0bf0..aead390 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -253,7 +253,7 @@ class Circuit:
         Raises:
             ValueError: If `backend_name` is not registered backend.
         """
-        if backend_name not in BACKENDS:
+        if backend_name is not None and backend_name not in BACKENDS:
             raise ValueError(f"Unknown backend '{backend_name}'.")
         self._default_backend = backend_name
 
-- 
2.43.0


From e9687754b92346934ed5e33348dc030aedc48db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 04/56] fix: unregister_backend looks up the backends, not the
 gates

---
 blueqat/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index aead390..9ed12f3 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -425,7 +425,7 @@ class BlueqatGlobalSetting:
         Raises:
             ValueError: Specified backend is not registered.
         """
-        if name not in GATE_SET:
+        if name not in BACKENDS:
             raise ValueError(f"Backend '{name}' is not registered.")
         del BACKENDS[name]
 
-- 
2.43.0


From a60e5509a731b7db2405a8b92b3a9a573bd9dab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 05/56] fix: ibmq backend returns the import error for
 returns='_exception'

---
 blueqat/backends/ibmq_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/backends/ibmq_backend.py b/blueqat/backends/ibmq_backend.py
index d49a1bf..2adbe00 100644
--- a/blueqat/backends/ibmq_backend.py
+++ b/blueqat/backends/ibmq_backend.py
@@ -58,7 +58,7 @@ def _qasm_runner_qiskit(qasm, qiskit_backend=None, shots=None, returns=None, **k
 
     if import_error:
         if returns == "_exception":
-            return e
+            return import_error
         if isinstance(import_error, ImportError):
             raise ImportError("Cannot import qiskit. To use this backend, please install qiskit." +
                               " `pip install qiskit`.")
-- 
2.43.0


From bd158085e3de00cd3eeffb1596a5085801b47b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:29 +0000
Subject: [PATCH 06/56] fix: accept tuples of control qubits and target qubits
 in 2-qubit gates

---
 blueqat/gate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blueqat/gate.py b/blueqat/gate.py
index 8206e5f..18f9c7b 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -53,6 +53,8 @@ class Gate(ABC):
                 else:
                     step = str(obj.step.__index__())
                     return f'{start}:{stop}:{step}'
+            elif isinstance(obj, tuple):
+                return str(tuple(i if isinstance(i, slice) else i.__index__() for i in obj))
             else:
                 return str(obj.__index__())
 
@@ -713,7 +715,7 @@ def get_maximum_index(indices):
         else:
             return idx.__index__()
     if isinstance(indices, tuple):
-        return max((_maximum_idx_single(i) for i in indices), default=-1)
+        return max((get_maximum_index(i) for i in indices), default=-1)
     else:
         return _maximum_idx_single(indices)
 
-- 
2.43.0


From 019b9b1d9815aa9cc33021a6ff7becd9a456282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:29 +0000
Subject: [PATCH 07/56] fix: do not append a gate with illegal targets to the
 circuit

---
 blueqat/circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 9ed12f3..3a8fa08 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -282,9 +282,10 @@ class _GateWrapper:
 
     def __getitem__(self, args):
         self.target = args
-        self.circuit.ops.append(self.gate(self.target, *self.args, **self.kwargs))
+        op = self.gate(self.target, *self.args, **self.kwargs)
         # ad-hoc
         self.circuit.n_qubits = max(gate.get_maximum_index(args) + 1, self.circuit.n_qubits)
+        self.circuit.ops.append(op)
         return self.circuit
 
     def __str__(self):
-- 
2.43.0


From 31dfd6e931719b99ff7b6715d5ddbc585fc8157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 08/56] fix: reject out of range negative indices in every
 backend

---
 blueqat/gate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueqat/gate.py b/blueqat/gate.py
index 18f9c7b..6dac618 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -673,6 +673,8 @@ def slicing_singlevalue(arg, length):
             raise TypeError("indices must be integers or slices, not " + arg.__class__.__name__)
         if i < 0:
             i += length
+            if i < 0:
+                raise ValueError("index is out of range")
         yield i
 
 
-- 
2.43.0


From 6964fcaca29c923ea27a25f8ba380d1014bd35c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 09/56] fix: sympy_unitary applies a gate to a qubit as many
 times as specified

---
 blueqat/backends/sympy_backend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blueqat/backends/sympy_backend.py b/blueqat/backends/sympy_backend.py
index 0db27d0..a282b24 100644
--- a/blueqat/backends/sympy_backend.py
+++ b/blueqat/backends/sympy_backend.py
@@ -77,10 +77,11 @@ class SympyBackend(Backend):
         gates = []
         for idx in range(n_qubits):
             if idx in targets:
-                gates.append(matrix_of_gate)
+                # The gate is applied as many times as the index appears.
+                gates.append(matrix_of_gate ** targets.count(idx))
             else:
                 gates.append(eye(2))
-        return reduce(TensorProduct, reversed(gates))
+        return reduce(TensorProduct, reversed(gates), eye(1))
 
     def _create_matrix_of_one_qubit_gate_circuit(self, gate, ctx, matrix_of_gate):
         n_qubits = ctx.n_qubits
-- 
2.43.0


From 97d6193c434569763e622a129894c109910b0124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 10/56] fix: pass the context returned by gate actions to the
 postprocess of the backend

---
 blueqat/backends/backendbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/backends/backendbase.py b/blueqat/backends/backendbase.py
index f34b01e..9a2652e 100644
--- a/blueqat/backends/backendbase.py
+++ b/blueqat/backends/backendbase.py
@@ -69,7 +69,7 @@ class Backend(ABC):
         Otherwise, the developer can override `run` method if they want to change the flow of run.
         """
         gates, ctx = self._preprocess_run(gates, n_qubits, args, kwargs)
-        self._run_gates(gates, n_qubits, ctx)
+        ctx = self._run_gates(gates, n_qubits, ctx)
         return self._postprocess_run(ctx)
 
     def make_cache(self, gates, n_qubits):
-- 
2.43.0


From df73eab1a2c79e0c795da5c9cf15ce2ca703fd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 11/56] fix: comparison with I and hash of I raised
 AttributeError

---
 blueqat/pauli.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 9adbbd6..ee6dd38 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -243,12 +243,14 @@ class _PauliImpl:
         return 0 if self.is_identity else _n(self) + 1
 
     def __hash__(self):
+        if self.is_identity:
+            return hash(self.op)
         return hash((self.op, _n(self)))
 
     def __eq__(self, other):
         if isinstance(other, _PauliImpl):
-            if self.is_identity:
-                return other.is_identity
+            if self.is_identity or other.is_identity:
+                return self.is_identity and other.is_identity
             return _n(self) == _n(other) and self.op == other.op
         if isinstance(other, Term):
             return self.to_term() == other
-- 
2.43.0


From 23862a15ceee98042d4b1e6c45501c0f27411c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 12/56] fix: arithmetic of Pauli operators with numpy scalars
 on the left hand side

---
 blueqat/pauli.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index ee6dd38..15f5814 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -227,6 +227,9 @@ def _GetItem(self_, n):
     return type(self_)(n)
 
 class _PauliImpl:
+    # Let numpy scalars call the reflected operators of this class.
+    __array_ufunc__ = None
+
     @property
     def op(self):
         """Return operator type (X, Y, Z, I)"""
@@ -373,6 +376,9 @@ class Term(_TermTuple):
     it can be consider the time evolution of the term (with real coefficient)
     without Suzuki-Trotter expansion.
     """
+    # Let numpy scalars call the reflected operators of this class.
+    __array_ufunc__ = None
+
     @staticmethod
     def from_paulipair(pauli1, pauli2):
         """Make new Term from two Pauli operator."""
@@ -647,6 +653,9 @@ class Term(_TermTuple):
 
 _ExprTuple = namedtuple("_ExprTuple", "terms")
 class Expr(_ExprTuple):
+    # Let numpy scalars call the reflected operators of this class.
+    __array_ufunc__ = None
+
     @staticmethod
     def from_number(num):
         """Make new Expr from a number"""
-- 
2.43.0


From c5d52a04d07700695328358d85923579d425801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 13/56] fix: allow to divide Term and Expr by any number

---
 blueqat/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 15f5814..5925f9d 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -458,7 +458,7 @@ class Term(_TermTuple):
         return NotImplemented
 
     def __truediv__(self, other):
-        if isinstance(other, (int, float)):
+        if isinstance(other, Number):
             if other:
                 return Term(self.ops, self.coeff / other)
             raise ZeroDivisionError
-- 
2.43.0


From c34e075c49d563238ba5a2aab2783444cfd9559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 14/56] fix: comparison of Term with Expr, and comparison of
 zero Terms

---
 blueqat/pauli.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 5925f9d..f9d14e4 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -505,6 +505,12 @@ class Term(_TermTuple):
     def __eq__(self, other):
         if isinstance(other, _PauliImpl):
             other = other.to_term()
+        if isinstance(other, Expr):
+            return self.to_expr() == other
+        if not isinstance(other, Term):
+            return NotImplemented
+        if self.coeff == 0 or other.coeff == 0:
+            return self.coeff == other.coeff
         return _TermTuple.__eq__(self, other) or \
                _TermTuple.__eq__(self.simplify(), other.simplify())
 
-- 
2.43.0


From 9df0c67c6ad8c1ea05b53f7d7ab1c851ee11420d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 15/56] fix: keep all terms which have the same operators on
 addition of Expr

---
 blueqat/pauli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index f9d14e4..688b377 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -683,7 +683,10 @@ class Expr(_ExprTuple):
 
     def terms_to_dict(self):
         """For internal use."""
-        return {term[0]: term[1] for term in self.terms if term.coeff}
+        terms = {}
+        for ops, coeff in self.terms:
+            terms[ops] = terms[ops] + coeff if ops in terms else coeff
+        return terms
 
     @staticmethod
     def from_terms_dict(terms_dict):
-- 
2.43.0


From 2c1f52deeb12aba0d8f2ec68c317d883241723b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 16/56] fix: make the matrix of Expr which is simplified to
 zero

---
 blueqat/pauli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 688b377..50ff27c 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -896,6 +896,8 @@ class Expr(_ExprTuple):
                 return m
             return _sparse_types[sparse](m)
         expr = self.simplify()
+        if not expr.terms:
+            expr = Expr((Term((), 0.0),))
         grpkey = lambda pau: sum(1 << op.n for op in pau.ops if op.op in 'XY')
         dim = 2 ** n_qubits
         is_csr = sparse == 'csr'
-- 
2.43.0


From 4f08202cfe8f43482636d78cbe2bab83ada04d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 17/56] fix: sign of the time evolution of terms which have odd
 number of Y

---
 blueqat/pauli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 50ff27c..287a848 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -615,7 +615,7 @@ class Term(_TermTuple):
                 if op.op == "X":
                     circuit.h[n]
                 elif op.op == "Y":
-                    circuit.rx(-half_pi)[n]
+                    circuit.rx(half_pi)[n]
             for i in range(1, len(ops)):
                 circuit.cx[ops[i-1].n, ops[i].n]
             circuit.rz(-2 * coeff * t)[ops[-1].n]
@@ -626,7 +626,7 @@ class Term(_TermTuple):
                 if op.op == "X":
                     circuit.h[n]
                 elif op.op == "Y":
-                    circuit.rx(half_pi)[n]
+                    circuit.rx(-half_pi)[n]
         return append_to_circuit
 
     def to_matrix(self, n_qubits=-1, *, sparse=None):
-- 
2.43.0


From df2683204cc46b93fc7865c7631138c9ec1e83a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 18/56] fix: sign of the expectation value of Y in
 AnsatzBase.get_energy

---
 blueqat/vqe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index b196497..9551d52 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -50,7 +50,7 @@ class AnsatzBase:
                 if op.op == "X":
                     c.h[op.n]
                 elif op.op == "Y":
-                    c.rx(-np.pi / 2)[op.n]
+                    c.rx(np.pi / 2)[op.n]
             measured = sampler(c, meas.n_iter())
             for bits, prob in measured.items():
                 if sum(bits) % 2:
-- 
2.43.0


From 6732c8dc16f1a6f991fdec44dc6306c55f7e883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 19/56] fix: get_energy of the hamiltonian which is not
 simplified

---
 blueqat/vqe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 9551d52..8075e2e 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -44,7 +44,7 @@ class AnsatzBase:
     def get_energy(self, circuit, sampler):
         """Calculate energy from circuit and sampler."""
         val = 0.0
-        for meas in self.hamiltonian:
+        for meas in self.hamiltonian.to_expr().simplify():
             c = circuit.copy()
             for op in meas.ops:
                 if op.op == "X":
-- 
2.43.0


From c93b2e9e1c58706b49ab55b675ea7c420888137c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 20/56] fix: qubit order of the measurement sampler, and do not
 modify the given circuit

---
 blueqat/vqe.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 8075e2e..ba7b753 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -244,13 +244,15 @@ def get_measurement_sampler(n_sample, run_options=None):
 
     def sampling_by_measurement(circuit, meas):
         def reduce_bits(bits, meas):
-            bits = [int(x) for x in bits[::-1]]
+            bits = [int(x) for x in bits]
             return tuple(bits[m] for m in meas)
 
         meas = tuple(meas)
-        circuit.measure[meas]
+        circuit = circuit.copy().measure[meas]
         counter = circuit.run(shots=n_sample, returns="shots", **run_options)
-        counts = Counter({reduce_bits(bits, meas): val for bits, val in counter.items()})
+        counts = Counter()
+        for bits, val in counter.items():
+            counts[reduce_bits(bits, meas)] += val
         return {k: v / n_sample for k, v in counts.items()}
 
     return sampling_by_measurement
-- 
2.43.0


From 87fcc3b7e8cbc9303c732f0fcb1743d54efa33b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 21/56] fix: qiskit sampler drops the constant term and
 modifies the given circuit

---
 blueqat/vqe.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index ba7b753..d677d43 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -311,10 +311,12 @@ print(execute(circ, IBMQ.get_backend('ibmq_qasm_simulator')).result().get_counts
     def sampling(circuit, meas):
         meas = tuple(meas)
         if not meas:
-            return {}
-        circuit.measure[meas]
+            return {(): 1.0}
+        circuit = circuit.copy().measure[meas]
         result = circuit.run_with_ibmq(qiskit_backend=backend, returns="qiskit_result", **execute_kwargs)
-        counts = Counter({reduce_bits(bits, meas): val for bits, val in result.get_counts().items()})
+        counts = Counter()
+        for bits, val in result.get_counts().items():
+            counts[reduce_bits(bits, meas)] += val
         return {k: v / shots for k, v in counts.items()}
 
     return sampling
-- 
2.43.0


From 718885b7e0ba42f4feb937a67ad4bede6709dba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 22/56] fix: dimension of the sparse hamiltonian when
 init_circuit has more qubits

---
 blueqat/vqe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index d677d43..68c20f6 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -35,7 +35,7 @@ class AnsatzBase:
         if make_method:
             self.sparse = make_method(self.hamiltonian)
         else:
-            self.sparse = self.hamiltonian.to_matrix(sparse=fmt)
+            self.sparse = self.hamiltonian.to_matrix(self.n_qubits, sparse=fmt)
 
     def get_circuit(self, params):
         """Make a circuit from parameters."""
-- 
2.43.0


From 3c1f9ab826f9b51db2c464548bbebeab2fb0886f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 23/56] fix: Vqe.result raised AttributeError

---
 blueqat/vqe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 68c20f6..0870b7f 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -180,6 +180,7 @@ class Vqe:
             options={"ftol": 5.0e-2, "xtol": 5.0e-2, "maxiter": 1000}
         )
         self.sampler = sampler
+        self._result = None
 
     def run(self, verbose=False):
         objective = self.ansatz.get_objective(self.sampler)
@@ -193,7 +194,8 @@ class Vqe:
             objective = verbose_objective(objective)
         params = self.minimizer(objective, self.ansatz.n_params)
         c = self.ansatz.get_circuit(params)
-        return VqeResult(self, params, c)
+        self._result = VqeResult(self, params, c)
+        return self._result
 
     @property
     def result(self):
-- 
2.43.0


From 210e7b280e8abbe21861a5e1df3adf7ab5b11ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 24/56] fix: to_inttuple raises ValueError for illegal
 characters as documented

---
 blueqat/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/blueqat/utils.py b/blueqat/utils.py
index 5c3a40a..e5ff2e2 100644
--- a/blueqat/utils.py
+++ b/blueqat/utils.py
@@ -30,12 +30,18 @@ def to_inttuple(bitstr):
     Raises:
         ValueError: If bitstr type is unexpected or bitstr contains illegal character.
     """
+    def convert(bits):
+        converted = tuple(int(b) for b in bits)
+        if any(b not in (0, 1) for b in converted):
+            raise ValueError(f"'{bits}' contains illegal character.")
+        return converted
+
     if isinstance(bitstr, str):
-        return tuple(int(b) for b in bitstr)
+        return convert(bitstr)
     if isinstance(bitstr, Counter):
-        return Counter({tuple(int(b) for b in k): v for k, v in bitstr.items()})
+        return Counter({convert(k): v for k, v in bitstr.items()})
     if isinstance(bitstr, dict):
-        return {tuple(int(b) for b in k): v for k, v in bitstr.items()}
+        return {convert(k): v for k, v in bitstr.items()}
     raise ValueError("bitstr type shall be `str`, `Counter` or `dict`")
 
 def ignore_global_phase(statevec):
-- 
2.43.0


From 32422da2d21df14cdb21ebff10bd1c8e896d3322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 25/56] fix: cu2 and cu3 gates of the backends which parse
 OpenQASM

---
 blueqat/backends/qasm_parser_backend_generator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/blueqat/backends/qasm_parser_backend_generator.py b/blueqat/backends/qasm_parser_backend_generator.py
index a9304d4..8df9d66 100644
--- a/blueqat/backends/qasm_parser_backend_generator.py
+++ b/blueqat/backends/qasm_parser_backend_generator.py
@@ -16,6 +16,12 @@ from ..gate import *
 from .backendbase import Backend
 from .qasm_output_backend import QasmOutputBackend
 
+class _QasmBackend(QasmOutputBackend):
+    """OpenQASM output for third-party library."""
+    # cu2 is not defined in qelib1.inc and the definition of cu3 depends on libraries.
+    gate_cu2 = None
+    gate_cu3 = None
+
 class QasmParsableBackend(Backend):
     """Backend for third-party library which can read OpenQASM """
     def __init__(self, qasm_runner):
@@ -25,7 +31,7 @@ class QasmParsableBackend(Backend):
             qasm_runner (function (qasm: str, *args, **kwargs) -> Result):
                 An function which receives OpenQASM and some arguments and returns a result.
         """
-        self.to_qasm = QasmOutputBackend()
+        self.to_qasm = _QasmBackend()
         self.qasm_runner = qasm_runner
 
     def run(self, gates, n_qubits, *args, **kwargs):
-- 
2.43.0


From a1ff762e67e761aef37022e49dd65d41891de2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 26/56] fix: decimal point of real numbers in OpenQASM output

---
 blueqat/backends/qasm_output_backend.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/blueqat/backends/qasm_output_backend.py b/blueqat/backends/qasm_output_backend.py
index 9279348..cf026da 100644
--- a/blueqat/backends/qasm_output_backend.py
+++ b/blueqat/backends/qasm_output_backend.py
@@ -14,10 +14,15 @@
 
 import math
 import random
+import re
 import numpy as np
 from ..gate import *
 from .backendbase import Backend
 
+def _real(value):
+    """Returns the string of the number. The decimal point of a real number is required in OpenQASM."""
+    return re.sub(r'^(-?\d+)e', r'\1.0e', str(value))
+
 class QasmOutputBackend(Backend):
     """Backend for OpenQASM output."""
     def _preprocess_run(self, gates, n_qubits, args, kwargs):
@@ -64,7 +69,7 @@ class QasmOutputBackend(Backend):
 
     def _one_qubit_gate_args_theta(self, gate, ctx):
         for idx in gate.target_iter(ctx[1]):
-            ctx[0].append(f"{gate.lowername}({gate.theta}) q[{idx}];")
+            ctx[0].append(f"{gate.lowername}({_real(gate.theta)}) q[{idx}];")
         return ctx
 
     gate_rx = _one_qubit_gate_args_theta
@@ -78,42 +83,42 @@ class QasmOutputBackend(Backend):
 
     def gate_u1(self, gate, ctx):
         for idx in gate.target_iter(ctx[1]):
-            ctx[0].append(f"{gate.lowername}({gate.lambd}) q[{idx}];")
+            ctx[0].append(f"{gate.lowername}({_real(gate.lambd)}) q[{idx}];")
         return ctx
 
     def gate_u2(self, gate, ctx):
         for idx in gate.target_iter(ctx[1]):
-            ctx[0].append(f"{gate.lowername}({gate.phi},{gate.lambd}) q[{idx}];")
+            ctx[0].append(f"{gate.lowername}({_real(gate.phi)},{_real(gate.lambd)}) q[{idx}];")
         return ctx
 
     def gate_u3(self, gate, ctx):
         for idx in gate.target_iter(ctx[1]):
-            ctx[0].append(f"{gate.lowername}({gate.theta},{gate.phi},{gate.lambd}) q[{idx}];")
+            ctx[0].append(f"{gate.lowername}({_real(gate.theta)},{_real(gate.phi)},{_real(gate.lambd)}) q[{idx}];")
         return ctx
 
     def gate_phase(self, gate, ctx):
         for idx in gate.target_iter(ctx[1]):
-            ctx[0].append(f"u1({gate.theta}) q[{idx}]; // Global phase is ignored.")
+            ctx[0].append(f"u1({_real(gate.theta)}) q[{idx}]; // Global phase is ignored.")
         return ctx
 
     def gate_cu1(self, gate, ctx):
         for c, t in gate.control_target_iter(ctx[1]):
-            ctx[0].append(f"{gate.lowername}({gate.lambd}) q[{c}],q[{t}];")
+            ctx[0].append(f"{gate.lowername}({_real(gate.lambd)}) q[{c}],q[{t}];")
         return ctx
 
     def gate_cu2(self, gate, ctx):
         for c, t in gate.control_target_iter(ctx[1]):
-            ctx[0].append(f"{gate.lowername}({gate.phi},{gate.lambd}) q[{c}],q[{t}];")
+            ctx[0].append(f"{gate.lowername}({_real(gate.phi)},{_real(gate.lambd)}) q[{c}],q[{t}];")
         return ctx
 
     def gate_cu3(self, gate, ctx):
         for c, t in gate.control_target_iter(ctx[1]):
-            ctx[0].append(f"{gate.lowername}({gate.theta},{gate.phi},{gate.lambd}) q[{c}],q[{t}];")
+            ctx[0].append(f"{gate.lowername}({_real(gate.theta)},{_real(gate.phi)},{_real(gate.lambd)}) q[{c}],q[{t}];")
         return ctx
 
     def gate_cphase(self, gate, ctx):
         for c, t in gate.control_target_iter(ctx[1]):
-            ctx[0].append(f"cu1({gate.theta}) q[{c}],q[{t}];")
+            ctx[0].append(f"cu1({_real(gate.theta)}) q[{c}],q[{t}];")
         return ctx
 
     def _three_qubit_gate_noargs(self, gate, ctx):
-- 
2.43.0


From f1e9069e3c679586b0dac5fcc98d0bd3e67eeb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 27/56] fix: annealing and Opt.add with QUBO which is given as
 numpy array

---
 blueqat/wq.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index ad13928..d7d7a69 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -473,7 +473,7 @@ class Opt:
         len2 = len(qubo)
         if(len1==len2):
                 self.qubo = np.array(self.qubo)+M*np.array(qubo)
-        elif(self.qubo ==[]):
+        elif(len1==0):
             self.qubo = M*np.array(qubo)
         return self
 
@@ -482,7 +482,7 @@ class Opt:
         Run SA with provided QUBO. 
         Set qubo attribute in advance of calling this method.
         """
-        if self.qubo != []:
+        if len(self.qubo) != 0:
             self.qi()
         J = self.reJ()
         N = len(J)
@@ -533,7 +533,7 @@ class Opt:
         Set qubo attribute in advance of calling this method.
         """
         G = self.Gs
-        if self.qubo != []:
+        if len(self.qubo) != 0:
             self.qi()
         J = self.reJ()
         N = len(J)
@@ -571,7 +571,7 @@ class Opt:
             raise ImportError("dw() requires dwave-cloud-client. Please install before call this function.")
         solver = Client.from_config(endpoint= self.dwaveendpoint, token=self.dwavetoken, solver=self.dwavesolver).get_solver()
 
-        if self.qubo != []:
+        if len(self.qubo) != 0:
             self.qi()
 
         # for hi
-- 
2.43.0


From ad9aa793c5a34f09d929232a03c4afc41ed3c4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 28/56] fix: the lower triangle of QUBO was ignored in
 annealing

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index d7d7a69..03cb0d2 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -401,7 +401,7 @@ class Opt:
         self.J = [np.random.choice([1.,1.],nn) for j in range(nn)]
         for i in range(nn):
             for j in range(i+1,nn):
-                self.J[i][j] = self.qubo[i][j]/4
+                self.J[i][j] = (self.qubo[i][j]+self.qubo[j][i])/4
 
         self.J = np.triu(self.J)+np.triu(self.J,k=1).T
 
-- 
2.43.0


From 01d6345683111ddc71516418a99d7c287a0cd102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 29/56] fix: conversion from the string of QUBO which has
 plural variables

---
 blueqat/wq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 03cb0d2..41f1771 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -438,7 +438,7 @@ class Opt:
             raise ImportError("optm() requires sympy. Please install before call this function.") 
 
         qubo = self.expand_qubo(qubo)
-        numN = len(qubo.free_symbols)
+        numN = max(int(repr(i)[1:]) for i in qubo.free_symbols)+1
         optm = np.zeros((numN,numN)) 
 
         for i in qubo.free_symbols: 
@@ -459,7 +459,7 @@ class Opt:
         except ImportError:
             raise ImportError("optm() requires sympy. Please install before call this function.")
         f = sympy.expand(qubo)
-        deg = sympy.poly(f).degree()
+        deg = sympy.poly(f).total_degree()
 
         for i in range(deg):
             for j in f.free_symbols:
-- 
2.43.0


From 6b6a082a32348f879c7d2d0dadca6e74d02680d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 30/56] fix: wq.mul for two different arrays

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 41f1771..2b4f580 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -239,7 +239,7 @@ def sel(selN,selK,selarr=[]):
     return selres
 
 def mul(mulA,mulB):
-    return np.triu(np.outer(mulA,mulB))+np.triu(np.outer(mulA,mulB),k=1)
+    return np.triu(np.outer(mulA,mulB))+np.triu(np.outer(mulB,mulA),k=1)
 
 def sqr(sqrA):
     return np.triu(np.outer(sqrA,sqrA))+np.triu(np.outer(sqrA,sqrA),k=1)
-- 
2.43.0


From 3b0b8227dde22f99c61e7095380d9283b6052b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 31/56] fix: wq.net modified the given edges

---
 blueqat/wq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 2b4f580..bdf8f1c 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -261,8 +261,8 @@ def net(narr,nnet):
     """
     mat = np.zeros((nnet,nnet))
     for i in range(len(narr)):
-        narr[i] = np.sort(narr[i])
-        mat[narr[i][0]][narr[i][1]] = 1
+        edge = np.sort(narr[i])
+        mat[edge[0]][edge[1]] = 1
     return mat
 
 def counter(narr):
-- 
2.43.0


From a25c23f95a0f65bd0bc72f53c8a47a769ef5a621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 32/56] fix: wq.optm raised GeneratorsNeeded when a variable
 has no interaction

---
 blueqat/wq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index bdf8f1c..50a67b3 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -60,8 +60,8 @@ def optm(quboh,numM):
         for j in range(i+1,numM): 
             optm_M[i][j] = optm_E.coeff(symbol_list[i]+"*"+symbol_list[j]) 
 
-        temp1 = sympy.poly(optm_E.coeff(symbol_list[i])) 
-        optm_M[i][i] = sympy.poly(optm_E.coeff(symbol_list[i])).coeff_monomial(1) 
+        temp1 = sympy.poly(optm_E.coeff(symbol_list[i]), *sympy.symbols(symbol_list)) 
+        optm_M[i][i] = temp1.coeff_monomial(1) 
 
     return optm_M
 
-- 
2.43.0


From 09dd5523d6e5b932209bc61465be12f38de558b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 33/56] fix: wq.qn_to_qubo lost or rejected some of terms

---
 blueqat/wq.py | 42 +++++++++++-------------------------------
 1 file changed, 11 insertions(+), 31 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 50a67b3..0587e72 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -156,39 +156,19 @@ def qn_to_qubo(expr):
         import sympy
     except ImportError:
         raise ImportError("This function requires sympy. Please install it.")
-    assert type(expr) == sympy.Add
     to_i = lambda s: int(str(s)[1:])
-    max_i = max(map(to_i, expr.free_symbols)) + 1
+    expr = sympy.expand(expr)
+    syms = sorted(expr.free_symbols, key=to_i)
+    max_i = max(map(to_i, syms), default=-1) + 1
     qubo = [[0.] * max_i for _ in range(max_i)]
-    for arg in expr.args:
-        syms = arg.free_symbols
-        assert len(syms) <= 2
-        if len(syms) == 2:
-            assert type(arg) == sympy.Mul
-            i, j = list(map(to_i, syms))
-            if i > j:
-                i, j = j, i
-            if i == j:
-                if len(arg.args) == 2:
-                    qubo[i][i] = float(arg.args[0])
-                elif len(arg.args) == 1:
-                    qubo[i][i] = 1.0
-                else:
-                    raise ValueError(f"Too many args! arg.args = {arg.args}")
-                continue
-            if len(arg.args) == 3:
-                qubo[i][j] = float(arg.args[0])
-            elif len(arg.args) == 2:
-                qubo[i][j]
-        if len(syms) == 1:
-            if len(arg.args) == 2:
-                assert type(arg) == sympy.Mul
-                i = to_i(next(iter(syms)))
-                qubo[i][i] = float(arg.args[0])
-            elif len(arg.args) == 1:
-                qubo[i][i] = 1.0
-            else:
-                raise ValueError(f"Too many args! arg.args = {arg.args}")
+    if not syms:
+        return qubo
+    for degs, coeff in sympy.Poly(expr, *syms).terms():
+        # The value of variables is 0 or 1. Therefore, qi**n is same as qi.
+        indices = [to_i(sym) for sym, deg in zip(syms, degs) if deg]
+        assert len(indices) <= 2
+        if indices:
+            qubo[indices[0]][indices[-1]] += float(coeff)
     return qubo
 
 def Ei(q3,j3):
-- 
2.43.0


From 875a9e0b6abc59457c00e9afe32ecdef8eb77f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 34/56] fix: Opt.add ignored QUBO whose size is different from
 the current one

---
 blueqat/wq.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 0587e72..b8ba83a 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -455,6 +455,12 @@ class Opt:
                 self.qubo = np.array(self.qubo)+M*np.array(qubo)
         elif(len1==0):
             self.qubo = M*np.array(qubo)
+        else:
+            # Extend the smaller matrix. It has no terms of the extended variables.
+            total = np.zeros((max(len1, len2), max(len1, len2)))
+            total[:len1,:len1] += np.array(self.qubo)
+            total[:len2,:len2] += M*np.array(qubo)
+            self.qubo = total
         return self
 
     def run(self,shots=1,sampler="normal",targetT=0.02,verbose=False):
-- 
2.43.0


From 2742bd26742f325cd71abc471f8d9079b27e78a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 35/56] fix: repr of the circuit which has no gates

---
 blueqat/circuit.py                 | 2 +-
 blueqat/experimental/operations.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 3a8fa08..b0c4dc9 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -91,7 +91,7 @@ class Circuit:
         self.n_qubits = n_qubits
 
     def __repr__(self):
-        return f'Circuit({self.n_qubits}).' + '.'.join(str(op) for op in self.ops)
+        return '.'.join([f'Circuit({self.n_qubits})'] + [str(op) for op in self.ops])
 
     def __get_backend(self, backend_name):
         try:
diff --git a/blueqat/experimental/operations.py b/blueqat/experimental/operations.py
index 03ba2ea..217a459 100644
--- a/blueqat/experimental/operations.py
+++ b/blueqat/experimental/operations.py
@@ -49,7 +49,7 @@ class Ops(NamedTuple):
     ops: Tuple[gate.Gate] = ()
 
     def __repr__(self):
-        return f'Ops({self.n_qubits}).' + '.'.join(str(op) for op in self.ops)
+        return '.'.join([f'Ops({self.n_qubits})'] + [str(op) for op in self.ops])
 
     def __getattr__(self, name):
         if name in GATE_SET:
-- 
2.43.0


From b87509de0dec609ab79a16e4db0053a378b12251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 36/56] fix: negative index and duplicated qubits of 3-qubit
 gates

---
 blueqat/backends/_numba_backend_impl.py |  4 ++--
 blueqat/backends/numpy_backend.py       |  4 ++--
 blueqat/backends/qasm_output_backend.py |  2 +-
 blueqat/gate.py                         | 28 ++++++++++++++++++++-----
 4 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/blueqat/backends/_numba_backend_impl.py b/blueqat/backends/_numba_backend_impl.py
index 0fc2d11..12de43d 100644
--- a/blueqat/backends/_numba_backend_impl.py
+++ b/blueqat/backends/_numba_backend_impl.py
@@ -596,13 +596,13 @@ class NumbaBackend(Backend):
     def gate_ccz(self, gate, ctx):
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
-        _czgate(qubits, n_qubits, np.array(gate.targets, dtype=_QBIdx_dtype))
+        _czgate(qubits, n_qubits, np.array(gate.qubit_triple(n_qubits), dtype=_QBIdx_dtype))
         return ctx
 
     def gate_ccx(self, gate, ctx):
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
-        _cxgate(qubits, n_qubits, np.array(gate.targets, dtype=_QBIdx_dtype))
+        _cxgate(qubits, n_qubits, np.array(gate.qubit_triple(n_qubits), dtype=_QBIdx_dtype))
         return ctx
 
     def gate_u1(self, gate, ctx):
diff --git a/blueqat/backends/numpy_backend.py b/blueqat/backends/numpy_backend.py
index e570b82..9e0d3a1 100644
--- a/blueqat/backends/numpy_backend.py
+++ b/blueqat/backends/numpy_backend.py
@@ -371,9 +371,9 @@ class NumPyBackend(Backend):
         return ctx
 
     def gate_ccz(self, gate, ctx):
-        c1, c2, t = gate.targets
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
+        c1, c2, t = gate.qubit_triple(n_qubits)
         i = ctx.indices
         indices = (i & (1 << c1)) != 0
         indices &= (i & (1 << c2)) != 0
@@ -382,7 +382,7 @@ class NumPyBackend(Backend):
         return ctx
 
     def gate_ccx(self, gate, ctx):
-        c1, c2, t = gate.targets
+        c1, c2, t = gate.qubit_triple(ctx.n_qubits)
         ctx = self.gate_h(HGate(t), ctx)
         ctx = self.gate_ccz(CCZGate(gate.targets), ctx)
         ctx = self.gate_h(HGate(t), ctx)
diff --git a/blueqat/backends/qasm_output_backend.py b/blueqat/backends/qasm_output_backend.py
index cf026da..98f8d45 100644
--- a/blueqat/backends/qasm_output_backend.py
+++ b/blueqat/backends/qasm_output_backend.py
@@ -122,7 +122,7 @@ class QasmOutputBackend(Backend):
         return ctx
 
     def _three_qubit_gate_noargs(self, gate, ctx):
-        c0, c1, t = gate.targets
+        c0, c1, t = gate.qubit_triple(ctx[1])
         ctx[0].append(f"{gate.lowername} q[{c0}],q[{c1}],q[{t}];")
         return ctx
 
diff --git a/blueqat/gate.py b/blueqat/gate.py
index 6dac618..4445dfb 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -111,6 +111,14 @@ class TwoQubitGate(Gate):
         return gates
 
 
+class ThreeQubitGate(Gate):
+    """Abstract quantum gate class for 3 qubits gate."""
+
+    def qubit_triple(self, n_qubits):
+        """Returns the tuple of 3 qubits."""
+        return qubit_triple(self.targets, n_qubits)
+
+
 class IGate(OneQubitGate):
     """Identity gate"""
     lowername = "i"
@@ -586,7 +594,7 @@ class CU3Gate(TwoQubitGate):
             ])
 
 
-class ToffoliGate(Gate):
+class ToffoliGate(ThreeQubitGate):
     """Toffoli (CCX) gate"""
     lowername = "ccx"
 
@@ -594,7 +602,7 @@ class ToffoliGate(Gate):
         return self
 
     def fallback(self, n_qubits):
-        c1, c2, t = self.targets
+        c1, c2, t = self.qubit_triple(n_qubits)
         return [
             HGate(t),
             CXGate((c2, t)),
@@ -614,7 +622,7 @@ class ToffoliGate(Gate):
         ]
 
 
-class CCZGate(Gate):
+class CCZGate(ThreeQubitGate):
     """2-Controlled Z gate"""
     lowername = "ccz"
 
@@ -622,7 +630,7 @@ class CCZGate(Gate):
         return self
 
 
-class CSwapGate(Gate):
+class CSwapGate(ThreeQubitGate):
     """Controlled SWAP gate"""
     lowername = "cswap"
 
@@ -631,7 +639,7 @@ class CSwapGate(Gate):
 
     def fallback(self, n_qubits):
         # TODO: test
-        c, t1, t2 = self.targets
+        c, t1, t2 = self.qubit_triple(n_qubits)
         return [CXGate((t2, t1)),
                 ToffoliGate((c, t1, t2)),
                 CXGate((t2, t1))]
@@ -703,6 +711,16 @@ def qubit_pairs(args, length):
     return zip(controls, targets)
 
 
+def qubit_triple(args, length):
+    """Internally used."""
+    if not isinstance(args, tuple) or len(args) != 3:
+        raise ValueError("Three qubits are required.")
+    qubits = tuple(q for arg in args for q in slicing(arg, length))
+    if len(qubits) != 3 or len(set(qubits)) != 3:
+        raise ValueError("Three different qubits are required.")
+    return qubits
+
+
 def get_maximum_index(indices):
     """Internally used."""
     def _maximum_idx_single(idx):
-- 
2.43.0


From 39408d0f857b456de4747e7c06d3c19579add3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 37/56] fix: biases of D-Wave submission depended on the order
 of solver nodes

---
 blueqat/wq.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index b8ba83a..324232e 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -562,11 +562,7 @@ class Opt:
 
         # for hi
         harr = np.diag(self.J)
-        larr = []
-        for i in solver.nodes:
-            if i < len(harr):
-                larr.append(harr[i])
-        linear = {index: larr[index] for index in range(len(larr))}
+        linear = {i: harr[i] for i in solver.nodes if i < len(harr)}
 
         # for jij
         qarr = []
-- 
2.43.0


From b41a1b0cc81d9b52aa2320da54e0f9de50b471e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 38/56] fix: to_inttuple accepted digits which are not 0 nor 1
 in ASCII

---
 blueqat/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/blueqat/utils.py b/blueqat/utils.py
index e5ff2e2..33b8700 100644
--- a/blueqat/utils.py
+++ b/blueqat/utils.py
@@ -31,10 +31,9 @@ def to_inttuple(bitstr):
         ValueError: If bitstr type is unexpected or bitstr contains illegal character.
     """
     def convert(bits):
-        converted = tuple(int(b) for b in bits)
-        if any(b not in (0, 1) for b in converted):
+        if any(str(b) not in ('0', '1') for b in bits):
             raise ValueError(f"'{bits}' contains illegal character.")
-        return converted
+        return tuple(int(b) for b in bits)
 
     if isinstance(bitstr, str):
         return convert(bitstr)
-- 
2.43.0


From 14c88e07dcc69339887edac6d7e1293a9e2f9503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 39/56] fix: repr of the gate whose targets are empty tuple

---
 blueqat/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/gate.py b/blueqat/gate.py
index 4445dfb..9f20cb1 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -58,7 +58,7 @@ class Gate(ABC):
             else:
                 return str(obj.__index__())
 
-        if isinstance(self.targets, tuple):
+        if isinstance(self.targets, tuple) and self.targets:
             return f"[{', '.join(_slice_to_str(target) for target in self.targets)}]"
         else:
             return f"[{_slice_to_str(self.targets)}]"
-- 
2.43.0


From 5622b66b0107b758a7d58332d24bbef14adf08ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 40/56] fix: QaoaAnsatz counts the qubits of the mixer

When the mixer acts on a qubit which neither the Hamiltonian nor the initial
circuit has, the circuit is larger than the sparse Hamiltonian and the
objective raises 'dimension mismatch'.
---
 blueqat/vqe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 0870b7f..fb106b4 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -112,6 +112,8 @@ class QaoaAnsatz(AnsatzBase):
                 raise ValueError('init_circuit is required when mixer is not default.')
             self.init_circuit = Circuit(self.n_qubits).h[:]
         self.mixer = mixer
+        if mixer:
+            self.n_qubits = max([self.n_qubits] + [term.simplify().n_qubits for term in mixer])
         self.init_circuit.make_cache()
         self.time_evolutions = [term.get_time_evolution() for term in self.hamiltonian]
         self.mixer_time_evolutions = [term.get_time_evolution() for term in self.mixer] if mixer else []
-- 
2.43.0


From 8fb44afe22c3c027e9717704070cd2e310526a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 41/56] fix: state vector sampler fails on probabilities
 slightly above 1

The norm of a simulated state is 1 up to rounding; a certain outcome (such as
the one of a constant term) can have the probability 1.0000000000000002,
which np.random.multinomial rejects with ValueError.
---
 blueqat/vqe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index fb106b4..3e3f139 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -267,7 +267,8 @@ def get_state_vector_sampler(n_sample):
         val = 0.0
         e = expect(circuit.run(returns="statevector"), meas)
         bits, probs = zip(*e.items())
-        dists = np.random.multinomial(n_sample, probs) / n_sample
+        probs = np.array(probs)
+        dists = np.random.multinomial(n_sample, probs / probs.sum()) / n_sample
         return dict(zip(tuple(bits), dists))
     return sampling_by_measurement
 
-- 
2.43.0


From 3b73b6f7a62f92e41d66ce822002f546d3d63dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:52 +0000
Subject: [PATCH 42/56] fix: Opt.add accepts polynomials which are constant
 over bits

'(2*q0-1)**2' expands to a constant when q0**2 is replaced with q0; adding it
(or a constant) raised GeneratorsNeeded or ValueError from inside sympy.
---
 blueqat/wq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 324232e..4acd362 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -418,7 +418,7 @@ class Opt:
             raise ImportError("optm() requires sympy. Please install before call this function.") 
 
         qubo = self.expand_qubo(qubo)
-        numN = max(int(repr(i)[1:]) for i in qubo.free_symbols)+1
+        numN = max((int(repr(i)[1:]) for i in qubo.free_symbols), default=-1)+1
         optm = np.zeros((numN,numN)) 
 
         for i in qubo.free_symbols: 
@@ -439,7 +439,7 @@ class Opt:
         except ImportError:
             raise ImportError("optm() requires sympy. Please install before call this function.")
         f = sympy.expand(qubo)
-        deg = sympy.poly(f).total_degree()
+        deg = sympy.poly(f).total_degree() if f.free_symbols else 0
 
         for i in range(deg):
             for j in f.free_symbols:
-- 
2.43.0


From 52e2941662ce3cf02a3c77ce03d730e9308a3865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 43/56] fix: circuits kept using backends which were
 unregistered or overwritten

---
 blueqat/circuit.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index b0c4dc9..75b0d2e 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -87,6 +87,7 @@ class Circuit:
     def __init__(self, n_qubits=0, ops=None):
         self.ops = ops or []
         self._backends = {}
+        self._backend_factories = {}
         self._default_backend = None
         self.n_qubits = n_qubits
 
@@ -94,13 +95,13 @@ class Circuit:
         return '.'.join([f'Circuit({self.n_qubits})'] + [str(op) for op in self.ops])
 
     def __get_backend(self, backend_name):
-        try:
-            return self._backends[backend_name]
-        except KeyError:
-            backend = BACKENDS.get(backend_name)
-            if backend is None:
-                raise ValueError(f"Backend {backend_name} doesn't exist.")
-        self._backends[backend_name] = backend()
+        backend = BACKENDS.get(backend_name)
+        if backend is None:
+            raise ValueError(f"Backend {backend_name} doesn't exist.")
+        # The backend may be overwritten after the instance was made.
+        if self._backend_factories.get(backend_name) is not backend:
+            self._backends[backend_name] = backend()
+            self._backend_factories[backend_name] = backend
         return self._backends[backend_name]
 
     def __backend_runner_wrapper(self, backend_name):
@@ -146,6 +147,7 @@ class Circuit:
         copied = Circuit(self.n_qubits, self.ops.copy())
         if copy_backends:
             copied._backends = {k: v.copy() for k, v in self._backends.items()}
+            copied._backend_factories = self._backend_factories.copy()
         if copy_default_backend:
             copied._default_backend = self._default_backend
 
@@ -179,6 +181,7 @@ class Circuit:
         copied = Circuit(self.n_qubits, ops)
         if copy_backends:
             copied._backends = {k: v.copy() for k, v in self._backends.items()}
+            copied._backend_factories = self._backend_factories.copy()
         if copy_default_backend:
             copied._default_backend = self._default_backend
 
-- 
2.43.0


From b4650e485af740ab7a229906c9494fb39a43e0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:31 +0000
Subject: [PATCH 44/56] fix: interrupted run of numba backend corrupted the
 cache

---
 blueqat/backends/_numba_backend_impl.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/blueqat/backends/_numba_backend_impl.py b/blueqat/backends/_numba_backend_impl.py
index 12de43d..e5693ca 100644
--- a/blueqat/backends/_numba_backend_impl.py
+++ b/blueqat/backends/_numba_backend_impl.py
@@ -47,6 +47,7 @@ class _NumbaBackendContext:
         self.n_qubits = n_qubits
         self.qubits = np.zeros(2**n_qubits, dtype)
         self.save_cache = save_cache
+        self.cache = None
         self.shots_result = Counter()
         self.cregs = None
 
@@ -445,6 +446,8 @@ class NumbaBackend(Backend):
                 self.__cached_gates = list(gates[:cache_idx + 1])
                 if ctx.save_cache:
                     self.cache = ctx.qubits.copy()
+                else:
+                    self.cache = ctx.cache
             if ctx.cregs:
                 ctx.store_shot()
 
@@ -625,7 +628,7 @@ class NumbaBackend(Backend):
 
     def gate_measure(self, gate, ctx):
         if ctx.save_cache:
-            self.cache = ctx.qubits.copy()
+            ctx.cache = ctx.qubits.copy()
         ctx.save_cache = False
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
@@ -642,7 +645,7 @@ class NumbaBackend(Backend):
 
     def gate_reset(self, gate, ctx):
         if ctx.save_cache:
-            self.cache = ctx.qubits.copy()
+            ctx.cache = ctx.qubits.copy()
         ctx.save_cache = False
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
-- 
2.43.0


From eba54035c4b40cc00bd531915b0d1b79f38c1f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 45/56] fix: rbm_model_qubo and fit failed with one shot

---
 blueqat/wq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 4acd362..ddeb6ed 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -584,6 +584,8 @@ class Opt:
 
     def rbm_model_qubo(self,shots=100,targetT=0.02):
         result = self.run(shots=shots,sampler="fast",targetT=targetT)
+        if shots == 1:
+            result = [result]
         bias = np.sum(result,axis=0)/shots
         bias_qubo = np.diag(bias)
         weight_qubo = zeros(len(bias))
-- 
2.43.0


From cf6c5f025096fc4998dcdbd4f5f1cea1c7db0b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 46/56] fix: rbm_data_qubo was wrong for data given as numpy
 array

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index ddeb6ed..cf073e4 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -326,7 +326,7 @@ def rbm_hmodel(vdata,dbms_mat1):
 
 def rbm_data_qubo(vdata,dbms_mat1):
     hdata = rbm_hmodel(vdata,dbms_mat1)
-    data_qubo = np.diag(vdata + hdata)
+    data_qubo = np.diag(list(vdata) + hdata)
     vdataN = len(vdata)
     dbmsN = len(dbms_mat1)
     for i in range(vdataN):
-- 
2.43.0


From ff0255e5e82d9f59ac60db27648d10856721c854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:31 +0000
Subject: [PATCH 47/56] fix: single Pauli operators had no power

---
 blueqat/pauli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 287a848..e885e30 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -289,6 +289,9 @@ class _PauliImpl:
             raise ZeroDivisionError
         return NotImplemented
 
+    def __pow__(self, n):
+        return self.to_term() ** n
+
     def __add__(self, other):
         return self.to_expr() + other
 
-- 
2.43.0


From ed53358ebcc4b77c3242607fb34bbee0a817c3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:09 +0000
Subject: [PATCH 48/56] fix: BlueqatCompatibleSamplingPool used np.int, which
 NumPy removed

---
 blueqat/backends/qgate_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/backends/qgate_backend.py b/blueqat/backends/qgate_backend.py
index bf03525..2b47324 100644
--- a/blueqat/backends/qgate_backend.py
+++ b/blueqat/backends/qgate_backend.py
@@ -240,7 +240,7 @@ class BlueqatCompatibleSamplingPool :
             self.mask |= 1 << idx
 
     def sample(self, n_samples) :
-        obs = np.empty([n_samples], np.int)
+        obs = np.empty([n_samples], int)
         import random
         for idx in range(n_samples) :
             redprob = self.prob
-- 
2.43.0


From 396bdee58bbad0b3b5fea38f2930664e4b5c39be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 49/56] fix: qgate backend failed on the gates which qgate does
 not have (cy, ch, rxx, cswap, ...)

---
 blueqat/backends/qgate_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/backends/qgate_backend.py b/blueqat/backends/qgate_backend.py
index 2b47324..733bd5e 100644
--- a/blueqat/backends/qgate_backend.py
+++ b/blueqat/backends/qgate_backend.py
@@ -94,7 +94,7 @@ class QgateBackend(Backend) :
                 # "measure": gate.Measurement, "m": gate.Measurement,
                 ops += self.convert_measure(op)
             else :
-                assert False
+                ops += self.convert_operators(op.fallback(self.n_qubits))
         return ops
 
     def convert_one_qubit_gate(self, gate, typeinfo) :
-- 
2.43.0


From 21a0d4b1f49921fab82e49ed87a6f66a53f33731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:34 +0000
Subject: [PATCH 50/56] fix: qgate backend took swap and ccx with integer
 addresses only

---
 blueqat/backends/qgate_backend.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/blueqat/backends/qgate_backend.py b/blueqat/backends/qgate_backend.py
index 733bd5e..2221ae1 100644
--- a/blueqat/backends/qgate_backend.py
+++ b/blueqat/backends/qgate_backend.py
@@ -123,7 +123,7 @@ class QgateBackend(Backend) :
             elif isinstance(gate, bqgate.ToffoliGate) :
                 gt = typeinfo[0](*gate.params)
                 g = model.Gate(gt)
-                c0, c1, t = gate.targets
+                c0, c1, t = gate.qubit_triple(self.n_qubits)
                 ctrls = (self.qregs[c0], self.qregs[c1])
                 qreg = self.qregs[t]
                 g.set_ctrllist(ctrls)
@@ -136,11 +136,11 @@ class QgateBackend(Backend) :
 
     def convert_multi_qubit_gate(self, gate, typeinfo) :
         glist = list()
-        g = model.MultiQubitGate(typeinfo[0](*gate.params))
-        t0, t1 = gate.targets
-        qregs = (self.qregs[t0], self.qregs[t1])
-        g.set_qreglist(qregs)
-        glist.append(g)
+        for t0, t1 in gate.control_target_iter(self.n_qubits) :
+            g = model.MultiQubitGate(typeinfo[0](*gate.params))
+            qregs = (self.qregs[t0], self.qregs[t1])
+            g.set_qreglist(qregs)
+            glist.append(g)
         return glist
 
     def convert_measure(self, measure) :
-- 
2.43.0


From 52e35b194e30c959b7eb6e12b9cfda90d8a960dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:26 +0000
Subject: [PATCH 51/56] fix: ignore_global of the sympy backend returned the
 zero matrix after an unsimplified zero

---
 blueqat/backends/sympy_backend.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/blueqat/backends/sympy_backend.py b/blueqat/backends/sympy_backend.py
index a282b24..7ee2ded 100644
--- a/blueqat/backends/sympy_backend.py
+++ b/blueqat/backends/sympy_backend.py
@@ -34,6 +34,15 @@ def _angle_simplify(ang):
     return ang
 
 
+def _is_zero(expr):
+    """Whether `expr` is zero, even if it is not simplified to 0. The test is numerical."""
+    if expr == 0:
+        return True
+    symbs = sorted(expr.free_symbols, key=str)
+    values = [0.6180339887 + 0.4142135624 * i for i in range(len(symbs))]
+    return abs(sympy.lambdify(symbs, expr, 'numpy', dummify=True)(*values)) < 1e-12
+
+
 class _SympyBackendContext:
     def __init__(self, n_qubits, ignore_global):
         self.n_qubits = n_qubits
@@ -166,6 +175,6 @@ class SympyBackend(Backend):
         if ctx.ignore_global:
             mat = ctx.matrix_of_circuit
             for i in range(2 ** ctx.n_qubits):
-                if mat[i, i] != 0:
+                if not _is_zero(mat[i, i]):
                     return mat * (abs(mat[i, i]) / mat[i, i])
         return ctx.matrix_of_circuit
-- 
2.43.0


From c3052e82ac4bf17f90d18038e303740df300d37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:26 +0000
Subject: [PATCH 52/56] fix: Expr.is_identity of the zero expression was True

---
 blueqat/pauli.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index e885e30..85004a5 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -704,8 +704,6 @@ class Expr(_ExprTuple):
     @property
     def is_identity(self):
         """If `self` is I, returns True, otherwise False."""
-        if not self.terms:
-            return True
         return len(self.terms) == 1 and not self.terms[0].ops and self.terms[0].coeff == 1.0
 
     def __eq__(self, other):
-- 
2.43.0


From eeca31a930c0f393a89f7f9dc12e6288deff8832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:26 +0000
Subject: [PATCH 53/56] fix: energy recorded by sqa had the coupling between
 slices with the wrong sign

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index cf073e4..fe02386 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -182,7 +182,7 @@ def Ei_sqa(q, J, T, P, G):
     E = 0
     for p in range(P):
         E += Ei(q[p], J) / P
-        E += T / 2 * np.log(1 / np.tanh(G / T / P)) * np.sum(q[p,:] * q[(p+1+P) % P, :])
+        E -= T / 2 * np.log(1 / np.tanh(G / T / P)) * np.sum(q[p,:] * q[(p+1+P) % P, :])
     return E
 
 def sel(selN,selK,selarr=[]):
-- 
2.43.0


From 671e0ddcfeeaa90035765f758af77ab1797d7779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:17 +0000
Subject: [PATCH 54/56] fix: nbody_separation chose the pairs of variables in
 the order of a set

---
 blueqat/wq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index fe02386..46d1347 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -124,7 +124,7 @@ def nbody_separation(expr, qs):
             new_expr += arg
             continue
         assert type(arg) == sympy.Mul
-        syms = arg.free_symbols.copy()
+        syms = sorted(arg.free_symbols, key=str)
         while len(syms) > 2:
             it = iter(syms)
             for v1, v2 in zip(it, it):
@@ -139,7 +139,7 @@ def nbody_separation(expr, qs):
                     constraints += 3*v + v1*v2 - 2*v1*v - 2*v2*v
                     logging.debug(f"constraints: {constraints}")
                 arg = arg.subs(v1*v2, v)
-            syms = arg.free_symbols.copy()
+            syms = sorted(arg.free_symbols, key=str)
         new_expr += arg
         logging.debug(f"new_expr: {new_expr}")
     return new_expr, constraints, mapping
-- 
2.43.0


From 5abab5cdf2348925e08e0c544b65ac8aae3bd033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:26 +0000
Subject: [PATCH 55/56] fix: pauli coefficients given as numpy integers wrapped
 around on overflow

---
 blueqat/pauli.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 85004a5..0d33cb4 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -219,6 +219,11 @@ def is_commutable(expr1, expr2, eps=0.00000001):
     return sum((x * x.conjugate()).real for x in commutator(expr1, expr2).coeffs()) < eps
 
 
+def _exact(num):
+    """Numpy integers wrap around on overflow. Python integers never do."""
+    return int(num) if isinstance(num, np.integer) else num
+
+
 # To avoid pylint error
 def _n(pauli):
     return pauli.n
@@ -382,6 +387,9 @@ class Term(_TermTuple):
     # Let numpy scalars call the reflected operators of this class.
     __array_ufunc__ = None
 
+    def __new__(cls, ops, coeff):
+        return super().__new__(cls, ops, _exact(coeff))
+
     @staticmethod
     def from_paulipair(pauli1, pauli2):
         """Make new Term from two Pauli operator."""
@@ -440,7 +448,7 @@ class Term(_TermTuple):
 
     def __mul__(self, other):
         if isinstance(other, Number):
-            return Term(self.ops, self.coeff * other)
+            return Term(self.ops, self.coeff * _exact(other))
         if isinstance(other, Term):
             ops = Term.join_ops(self.ops, other.ops)
             coeff = self.coeff * other.coeff
@@ -453,7 +461,7 @@ class Term(_TermTuple):
 
     def __rmul__(self, other):
         if isinstance(other, Number):
-            return Term(self.ops, self.coeff * other)
+            return Term(self.ops, self.coeff * _exact(other))
         if isinstance(other, _PauliImpl):
             if other.is_identity:
                 return self
@@ -463,7 +471,7 @@ class Term(_TermTuple):
     def __truediv__(self, other):
         if isinstance(other, Number):
             if other:
-                return Term(self.ops, self.coeff / other)
+                return Term(self.ops, self.coeff / _exact(other))
             raise ZeroDivisionError
         return NotImplemented
 
@@ -771,6 +779,7 @@ class Expr(_ExprTuple):
         if isinstance(other, Number):
             if other == 0:
                 return Expr.from_number(0.0)
+            other = _exact(other)
             return Expr.from_terms_iter(Term(op, coeff * other) for op, coeff in self.terms)
         if isinstance(other, _PauliImpl):
             other = other.to_term()
@@ -788,6 +797,7 @@ class Expr(_ExprTuple):
         if isinstance(other, Number):
             if other == 0:
                 return Expr.from_number(0.0)
+            other = _exact(other)
             return Expr.from_terms_iter(Term(op, coeff * other) for op, coeff in self.terms)
         if isinstance(other, _PauliImpl):
             other = other.to_term()
-- 
2.43.0


From 315b77868c61767f5eee58fcdd5c067fefad6c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:49 +0000
Subject: [PATCH 56/56] fix: QUBO matrices of narrow integers wrapped around on
 overflow

---
 blueqat/wq.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 46d1347..69a839e 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -15,6 +15,11 @@
 import logging
 import numpy as np
 
+def _widen(array):
+    """Make an array whose integers are not narrow ones, which wrap around on overflow."""
+    array = np.array(array)
+    return array.astype(int) if array.dtype.kind in 'biu' else array
+
 def pauli(qubo):
     """
     Convert to pauli operators of universal gate model.
@@ -22,6 +27,7 @@ def pauli(qubo):
     from blueqat.pauli import qubo_bit
     h = 0.0
     assert all(len(q) == len(qubo) for q in qubo)
+    qubo = [_widen(q).tolist() for q in qubo]
     for i in range(len(qubo)):
         h += qubo_bit(i) * qubo[i][i]
         for j in range(i + 1, len(qubo)):
@@ -219,9 +225,11 @@ def sel(selN,selK,selarr=[]):
     return selres
 
 def mul(mulA,mulB):
+    mulA, mulB = _widen(mulA), _widen(mulB)
     return np.triu(np.outer(mulA,mulB))+np.triu(np.outer(mulB,mulA),k=1)
 
 def sqr(sqrA):
+    sqrA = _widen(sqrA)
     return np.triu(np.outer(sqrA,sqrA))+np.triu(np.outer(sqrA,sqrA),k=1)
 
 def net(narr,nnet):
@@ -377,11 +385,12 @@ class Opt:
             return np.triu(self.J) + np.triu(self.J, k=1).T
 
     def qi(self):
-        nn = len(self.qubo)
+        qubo = _widen(self.qubo)
+        nn = len(qubo)
         self.J = [np.random.choice([1.,1.],nn) for j in range(nn)]
         for i in range(nn):
             for j in range(i+1,nn):
-                self.J[i][j] = (self.qubo[i][j]+self.qubo[j][i])/4
+                self.J[i][j] = (qubo[i][j]+qubo[j][i])/4
 
         self.J = np.triu(self.J)+np.triu(self.J,k=1).T
 
@@ -389,7 +398,7 @@ class Opt:
             sum = 0
             for j in range(nn):
                 if i == j:
-                    sum += self.qubo[i][i]*0.5
+                    sum += qubo[i][i]*0.5
                 else:
                     sum += self.J[i][j]
             self.J[i][i] = sum
@@ -452,14 +461,14 @@ class Opt:
             qubo = self.qubo_to_matrix(self.expand_qubo(qubo))
         len2 = len(qubo)
         if(len1==len2):
-                self.qubo = np.array(self.qubo)+M*np.array(qubo)
+                self.qubo = _widen(self.qubo)+M*_widen(qubo)
         elif(len1==0):
-            self.qubo = M*np.array(qubo)
+            self.qubo = M*_widen(qubo)
         else:
             # Extend the smaller matrix. It has no terms of the extended variables.
             total = np.zeros((max(len1, len2), max(len1, len2)))
             total[:len1,:len1] += np.array(self.qubo)
-            total[:len2,:len2] += M*np.array(qubo)
+            total[:len2,:len2] += M*_widen(qubo)
             self.qubo = total
         return self
 
-- 
2.43.0

