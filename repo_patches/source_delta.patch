From 9e8b1e22f7fce14ae074b60dbd61c191db650358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 01/44] fix: time evolution of terms containing Y evolved in
 the wrong direction

---
 blueqat/pauli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 9adbbd6..2295fce 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -601,7 +601,7 @@ class Term(_TermTuple):
                 if op.op == "X":
                     circuit.h[n]
                 elif op.op == "Y":
-                    circuit.rx(-half_pi)[n]
+                    circuit.rx(half_pi)[n]
             for i in range(1, len(ops)):
                 circuit.cx[ops[i-1].n, ops[i].n]
             circuit.rz(-2 * coeff * t)[ops[-1].n]
@@ -612,7 +612,7 @@ class Term(_TermTuple):
                 if op.op == "X":
                     circuit.h[n]
                 elif op.op == "Y":
-                    circuit.rx(half_pi)[n]
+                    circuit.rx(-half_pi)[n]
         return append_to_circuit
 
     def to_matrix(self, n_qubits=-1, *, sparse=None):
-- 
2.43.0


From aeb78d993a3e5cce88bda0adc2ca4709cdd763f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 02/44] fix: sampled energy measured -Y instead of Y

---
 blueqat/vqe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index b196497..9551d52 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -50,7 +50,7 @@ class AnsatzBase:
                 if op.op == "X":
                     c.h[op.n]
                 elif op.op == "Y":
-                    c.rx(-np.pi / 2)[op.n]
+                    c.rx(np.pi / 2)[op.n]
             measured = sampler(c, meas.n_iter())
             for bits, prob in measured.items():
                 if sum(bits) % 2:
-- 
2.43.0


From 4433a2e3981c2d537b0797e6371c5d1775c46d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 03/44] fix: QAOA matrix energy failed when the initial circuit
 is wider than the Hamiltonian

---
 blueqat/vqe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 9551d52..66aea23 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -35,7 +35,7 @@ class AnsatzBase:
         if make_method:
             self.sparse = make_method(self.hamiltonian)
         else:
-            self.sparse = self.hamiltonian.to_matrix(sparse=fmt)
+            self.sparse = self.hamiltonian.to_matrix(self.n_qubits, sparse=fmt)
 
     def get_circuit(self, params):
         """Make a circuit from parameters."""
-- 
2.43.0


From a23f2fb7512e8d873ba457c23491b23d400fc7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 04/44] fix: hash of the identity Pauli operator raised
 AttributeError

---
 blueqat/pauli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 2295fce..631462e 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -243,6 +243,8 @@ class _PauliImpl:
         return 0 if self.is_identity else _n(self) + 1
 
     def __hash__(self):
+        if self.is_identity:
+            return hash(self.op)
         return hash((self.op, _n(self)))
 
     def __eq__(self, other):
-- 
2.43.0


From e72c97b98c5fd86ce28ada55f0fe5ea85a39a9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 05/44] fix: comparing a Term with an Expr was asymmetric and
 with other types raised AttributeError

---
 blueqat/pauli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 631462e..e135db8 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -499,6 +499,10 @@ class Term(_TermTuple):
     def __eq__(self, other):
         if isinstance(other, _PauliImpl):
             other = other.to_term()
+        if isinstance(other, Expr):
+            return self.to_expr() == other
+        if not isinstance(other, Term):
+            return NotImplemented
         return _TermTuple.__eq__(self, other) or \
                _TermTuple.__eq__(self.simplify(), other.simplify())
 
-- 
2.43.0


From 6db2405b8c5584edb2c0417e58554094543e753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 06/44] fix: adding to an expression holding a repeated
 operator string dropped terms

---
 blueqat/pauli.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index e135db8..cfae216 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -672,7 +672,13 @@ class Expr(_ExprTuple):
 
     def terms_to_dict(self):
         """For internal use."""
-        return {term[0]: term[1] for term in self.terms if term.coeff}
+        terms = {}
+        for ops, coeff in self.terms:
+            if ops in terms:
+                terms[ops] += coeff
+            else:
+                terms[ops] = coeff
+        return {ops: coeff for ops, coeff in terms.items() if coeff}
 
     @staticmethod
     def from_terms_dict(terms_dict):
-- 
2.43.0


From 8194dbbbfb245b612435ff3d35212e9d9cda6311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 07/44] fix: dividing a Term or Expr by a complex number raised
 TypeError

---
 blueqat/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index cfae216..19b2a10 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -452,7 +452,7 @@ class Term(_TermTuple):
         return NotImplemented
 
     def __truediv__(self, other):
-        if isinstance(other, (int, float)):
+        if isinstance(other, Number):
             if other:
                 return Term(self.ops, self.coeff / other)
             raise ZeroDivisionError
-- 
2.43.0


From d0fbb841d6ef8e548ff0cf3c2fdc2e468389ec87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 08/44] fix: the zero expression claimed to be the identity

---
 blueqat/pauli.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 19b2a10..7efc2c9 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -693,8 +693,6 @@ class Expr(_ExprTuple):
     @property
     def is_identity(self):
         """If `self` is I, returns True, otherwise False."""
-        if not self.terms:
-            return True
         return len(self.terms) == 1 and not self.terms[0].ops and self.terms[0].coeff == 1.0
 
     def __eq__(self, other):
-- 
2.43.0


From dedeafe32c12debe872cbbefa6e2d6f304f5955b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 09/44] fix: Circuit.set_default_backend(None) raised although
 it is documented

---
 blueqat/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 7fc0bf0..aead390 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -253,7 +253,7 @@ class Circuit:
         Raises:
             ValueError: If `backend_name` is not registered backend.
         """
-        if backend_name not in BACKENDS:
+        if backend_name is not None and backend_name not in BACKENDS:
             raise ValueError(f"Unknown backend '{backend_name}'.")
         self._default_backend = backend_name
 
-- 
2.43.0


From 5a1f8c9825808f628c9f15f0f3c25970a01b6580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 10/44] fix: unregister_backend looked the name up in the gate
 set

---
 blueqat/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index aead390..9ed12f3 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -425,7 +425,7 @@ class BlueqatGlobalSetting:
         Raises:
             ValueError: Specified backend is not registered.
         """
-        if name not in GATE_SET:
+        if name not in BACKENDS:
             raise ValueError(f"Backend '{name}' is not registered.")
         del BACKENDS[name]
 
-- 
2.43.0


From 3647ff60a0cea23141cc492f65caa73d115f78e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 11/44] fix: annealing with a QUBO given as a numpy array
 raised ValueError

---
 blueqat/wq.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index ad13928..d7d7a69 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -473,7 +473,7 @@ class Opt:
         len2 = len(qubo)
         if(len1==len2):
                 self.qubo = np.array(self.qubo)+M*np.array(qubo)
-        elif(self.qubo ==[]):
+        elif(len1==0):
             self.qubo = M*np.array(qubo)
         return self
 
@@ -482,7 +482,7 @@ class Opt:
         Run SA with provided QUBO. 
         Set qubo attribute in advance of calling this method.
         """
-        if self.qubo != []:
+        if len(self.qubo) != 0:
             self.qi()
         J = self.reJ()
         N = len(J)
@@ -533,7 +533,7 @@ class Opt:
         Set qubo attribute in advance of calling this method.
         """
         G = self.Gs
-        if self.qubo != []:
+        if len(self.qubo) != 0:
             self.qi()
         J = self.reJ()
         N = len(J)
@@ -571,7 +571,7 @@ class Opt:
             raise ImportError("dw() requires dwave-cloud-client. Please install before call this function.")
         solver = Client.from_config(endpoint= self.dwaveendpoint, token=self.dwavetoken, solver=self.dwavesolver).get_solver()
 
-        if self.qubo != []:
+        if len(self.qubo) != 0:
             self.qi()
 
         # for hi
-- 
2.43.0


From 563561e542810696c36f62be16bde4d602df4b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 12/44] fix: the Ising model of the annealers ignored the lower
 triangle of the QUBO

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index d7d7a69..f2b48c6 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -401,7 +401,7 @@ class Opt:
         self.J = [np.random.choice([1.,1.],nn) for j in range(nn)]
         for i in range(nn):
             for j in range(i+1,nn):
-                self.J[i][j] = self.qubo[i][j]/4
+                self.J[i][j] = (self.qubo[i][j] + self.qubo[j][i])/4
 
         self.J = np.triu(self.J)+np.triu(self.J,k=1).T
 
-- 
2.43.0


From d3617fbdce20f806a56131007684b43b26da61cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 13/44] fix: qn_to_qubo dropped the products that have
 coefficient one

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index f2b48c6..ed28e6b 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -179,7 +179,7 @@ def qn_to_qubo(expr):
             if len(arg.args) == 3:
                 qubo[i][j] = float(arg.args[0])
             elif len(arg.args) == 2:
-                qubo[i][j]
+                qubo[i][j] = 1.0
         if len(syms) == 1:
             if len(arg.args) == 2:
                 assert type(arg) == sympy.Mul
-- 
2.43.0


From e557357ae17e95ea8d319e4d34f4495c1daa7f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 14/44] fix: qn_to_qubo failed on variables with coefficient
 one and lost one of a linear and a square term

---
 blueqat/wq.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index ed28e6b..b9f8842 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -181,12 +181,12 @@ def qn_to_qubo(expr):
             elif len(arg.args) == 2:
                 qubo[i][j] = 1.0
         if len(syms) == 1:
+            i = to_i(next(iter(syms)))
             if len(arg.args) == 2:
                 assert type(arg) == sympy.Mul
-                i = to_i(next(iter(syms)))
-                qubo[i][i] = float(arg.args[0])
-            elif len(arg.args) == 1:
-                qubo[i][i] = 1.0
+                qubo[i][i] += float(arg.args[0])
+            elif len(arg.args) == 0:
+                qubo[i][i] += 1.0
             else:
                 raise ValueError(f"Too many args! arg.args = {arg.args}")
     return qubo
-- 
2.43.0


From e87bdb7d0e08f98ca21122788a9e1febc5a121c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 15/44] fix: energies recorded by sqa had the opposite sign of
 the coupling used to accept moves

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index b9f8842..87ecba1 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -202,7 +202,7 @@ def Ei_sqa(q, J, T, P, G):
     E = 0
     for p in range(P):
         E += Ei(q[p], J) / P
-        E += T / 2 * np.log(1 / np.tanh(G / T / P)) * np.sum(q[p,:] * q[(p+1+P) % P, :])
+        E -= T / 2 * np.log(1 / np.tanh(G / T / P)) * np.sum(q[p,:] * q[(p+1+P) % P, :])
     return E
 
 def sel(selN,selK,selarr=[]):
-- 
2.43.0


From 82507907eaf8bfcee23793ed0e16fc35a64ceaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 16/44] fix: wq.mul returned a wrong QUBO for two different
 factors

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 87ecba1..60633cb 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -239,7 +239,7 @@ def sel(selN,selK,selarr=[]):
     return selres
 
 def mul(mulA,mulB):
-    return np.triu(np.outer(mulA,mulB))+np.triu(np.outer(mulA,mulB),k=1)
+    return np.triu(np.outer(mulA,mulB))+np.triu(np.outer(mulB,mulA),k=1)
 
 def sqr(sqrA):
     return np.triu(np.outer(sqrA,sqrA))+np.triu(np.outer(sqrA,sqrA),k=1)
-- 
2.43.0


From 387100fe0a30d54c75c8c1455e3ffa4186c99b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 17/44] fix: simulators returned a cached state that belongs to
 other gates

---
 blueqat/backends/_numba_backend_impl.py | 18 +++++++++++++++---
 blueqat/backends/numpy_backend.py       | 18 +++++++++++++++---
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/blueqat/backends/_numba_backend_impl.py b/blueqat/backends/_numba_backend_impl.py
index 44fa851..a2289d8 100644
--- a/blueqat/backends/_numba_backend_impl.py
+++ b/blueqat/backends/_numba_backend_impl.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import cmath
+import copy
 import math
 import random
 import warnings
@@ -368,13 +369,23 @@ class NumbaBackend(Backend):
     def __init__(self):
         self.cache = None
         self.cache_idx = -1
+        self.cached_gates = []
+
+    def copy(self):
+        # Gates are shared, because the cache is valid only for these gates.
+        return copy.deepcopy(self, {id(gate): gate for gate in self.cached_gates})
 
     def __clear_cache(self):
         self.cache = None
         self.cache_idx = -1
+        self.cached_gates = []
 
-    def __clear_cache_if_invalid(self, n_qubits, dtype):
-        if self.cache is None:
+    def __clear_cache_if_invalid(self, gates, n_qubits, dtype):
+        if self.cache is None or self.cache_idx < 0:
+            self.__clear_cache()
+            return
+        if len(gates) < len(self.cached_gates) or any(
+                g is not cached for g, cached in zip(gates, self.cached_gates)):
             self.__clear_cache()
             return
         if len(self.cache) != 2**n_qubits:
@@ -406,7 +417,7 @@ class NumbaBackend(Backend):
         shots, returns, dtype, enable_cache, ignore_global = __parse_run_args(*args, **kwargs)
 
         if enable_cache:
-            self.__clear_cache_if_invalid(n_qubits, dtype)
+            self.__clear_cache_if_invalid(gates, n_qubits, dtype)
         else:
             self.__clear_cache()
         ctx = _NumbaBackendContext(n_qubits, enable_cache, dtype)
@@ -429,6 +440,7 @@ class NumbaBackend(Backend):
                     cache_idx += 1
             if self.cache_idx != cache_idx:
                 self.cache_idx = cache_idx
+                self.cached_gates = list(gates[:cache_idx + 1])
                 if ctx.save_cache:
                     self.cache = ctx.qubits.copy()
             if ctx.cregs:
diff --git a/blueqat/backends/numpy_backend.py b/blueqat/backends/numpy_backend.py
index bf2be21..66c5fbb 100644
--- a/blueqat/backends/numpy_backend.py
+++ b/blueqat/backends/numpy_backend.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 from collections import Counter
+import copy
 import math
 import random
 import warnings
@@ -68,13 +69,23 @@ class NumPyBackend(Backend):
     def __init__(self):
         self.cache = None
         self.cache_idx = -1
+        self.cached_gates = []
+
+    def copy(self):
+        # Gates are shared, because the cache is valid only for these gates.
+        return copy.deepcopy(self, {id(gate): gate for gate in self.cached_gates})
 
     def __clear_cache(self):
         self.cache = None
         self.cache_idx = -1
+        self.cached_gates = []
 
-    def __clear_cache_if_invalid(self, n_qubits, dtype):
-        if self.cache is None:
+    def __clear_cache_if_invalid(self, gates, n_qubits, dtype):
+        if self.cache is None or self.cache_idx < 0:
+            self.__clear_cache()
+            return
+        if len(gates) < len(self.cached_gates) or any(
+                g is not cached for g, cached in zip(gates, self.cached_gates)):
             self.__clear_cache()
             return
         if len(self.cache) != 2**n_qubits:
@@ -104,7 +115,7 @@ class NumPyBackend(Backend):
 
         shots, returns, ignore_global = __parse_run_args(*args, **kwargs)
 
-        self.__clear_cache_if_invalid(n_qubits, DEFAULT_DTYPE)
+        self.__clear_cache_if_invalid(gates, n_qubits, DEFAULT_DTYPE)
         ctx = _NumPyBackendContext(n_qubits)
 
         def run_single_gate(gate):
@@ -123,6 +134,7 @@ class NumPyBackend(Backend):
                 if ctx.save_cache:
                     self.cache = ctx.qubits.copy()
                     self.cache_idx += 1
+                    self.cached_gates.append(gate)
             if ctx.cregs:
                 ctx.store_shot()
 
-- 
2.43.0


From 227887aa4c439c645323217e1c476a5fffa55832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 18/44] fix: the symbolic unitary applied a gate once to a
 qubit that was selected twice

---
 blueqat/backends/sympy_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/backends/sympy_backend.py b/blueqat/backends/sympy_backend.py
index 0db27d0..cc40b32 100644
--- a/blueqat/backends/sympy_backend.py
+++ b/blueqat/backends/sympy_backend.py
@@ -77,7 +77,7 @@ class SympyBackend(Backend):
         gates = []
         for idx in range(n_qubits):
             if idx in targets:
-                gates.append(matrix_of_gate)
+                gates.append(matrix_of_gate ** targets.count(idx))
             else:
                 gates.append(eye(2))
         return reduce(TensorProduct, reversed(gates))
-- 
2.43.0


From 17d3fb28c8361ef4f0a1a3419531de0cf2c4e76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 19/44] fix: tuples of controls and targets were refused
 although two-qubit gates support them

---
 blueqat/gate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueqat/gate.py b/blueqat/gate.py
index e0309b6..296d3c1 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -52,6 +52,8 @@ class Gate(ABC):
                 else:
                     step = str(obj.step.__index__())
                     return f'{start}:{stop}:{step}'
+            elif isinstance(obj, tuple):
+                return f"({', '.join(_slice_to_str(o) for o in obj)},)"
             else:
                 return str(obj.__index__())
 
@@ -691,6 +693,8 @@ def get_maximum_index(indices):
             if idx.stop is not None:
                 stop = idx.stop.__index__()
             return max(start, stop - 1)
+        elif isinstance(idx, tuple):
+            return get_maximum_index(idx)
         else:
             return idx.__index__()
     if isinstance(indices, tuple):
-- 
2.43.0


From 4ce2b89f34f0ea76b8f208775c7fae38069e8e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 20/44] fix: the measurement sampler reversed the bits, lost
 shots and modified the circuit

---
 blueqat/vqe.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 66aea23..bed836a 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -244,13 +244,15 @@ def get_measurement_sampler(n_sample, run_options=None):
 
     def sampling_by_measurement(circuit, meas):
         def reduce_bits(bits, meas):
-            bits = [int(x) for x in bits[::-1]]
+            bits = [int(x) for x in bits]
             return tuple(bits[m] for m in meas)
 
         meas = tuple(meas)
-        circuit.measure[meas]
+        circuit = circuit.copy().measure[meas]
         counter = circuit.run(shots=n_sample, returns="shots", **run_options)
-        counts = Counter({reduce_bits(bits, meas): val for bits, val in counter.items()})
+        counts = Counter()
+        for bits, val in counter.items():
+            counts[reduce_bits(bits, meas)] += val
         return {k: v / n_sample for k, v in counts.items()}
 
     return sampling_by_measurement
-- 
2.43.0


From 913f602725cafb1b7fce4f9e420e8eb25bedb18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 21/44] fix: the Qiskit sampler lost shots, modified the
 circuit and gave no probability to the empty outcome

---
 blueqat/vqe.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index bed836a..4278af1 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -311,10 +311,12 @@ print(execute(circ, IBMQ.get_backend('ibmq_qasm_simulator')).result().get_counts
     def sampling(circuit, meas):
         meas = tuple(meas)
         if not meas:
-            return {}
-        circuit.measure[meas]
+            return {(): 1.0}
+        circuit = circuit.copy().measure[meas]
         result = circuit.run_with_ibmq(qiskit_backend=backend, returns="qiskit_result", **execute_kwargs)
-        counts = Counter({reduce_bits(bits, meas): val for bits, val in result.get_counts().items()})
+        counts = Counter()
+        for bits, val in result.get_counts().items():
+            counts[reduce_bits(bits, meas)] += val
         return {k: v / shots for k, v in counts.items()}
 
     return sampling
-- 
2.43.0


From 206085d687af6535b1f134c7c4a9ffec1546f1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 22/44] fix: returns='_exception' of the Qiskit adaptor raised
 UnboundLocalError

---
 blueqat/backends/ibmq_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/backends/ibmq_backend.py b/blueqat/backends/ibmq_backend.py
index d49a1bf..2adbe00 100644
--- a/blueqat/backends/ibmq_backend.py
+++ b/blueqat/backends/ibmq_backend.py
@@ -58,7 +58,7 @@ def _qasm_runner_qiskit(qasm, qiskit_backend=None, shots=None, returns=None, **k
 
     if import_error:
         if returns == "_exception":
-            return e
+            return import_error
         if isinstance(import_error, ImportError):
             raise ImportError("Cannot import qiskit. To use this backend, please install qiskit." +
                               " `pip install qiskit`.")
-- 
2.43.0


From 4e9cba846300f3205d6f86842904984ea26eac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 23/44] fix: dagger of a two-qubit gate on overlapping pairs
 kept the order of the pairs

---
 blueqat/circuit.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 9ed12f3..cb34392 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -16,6 +16,7 @@
 This module defines Circuit and the setting for circuit.
 """
 
+import copy
 import warnings
 from functools import partial
 from typing import Callable
@@ -170,11 +171,19 @@ class Circuit:
         ops = []
         for g in reversed(self.ops):
             try:
-                ops.append(g.dagger())
+                dag = g.dagger()
             except ValueError:
                 if not ignore_measurement:
                     raise ValueError('Cannot make the Hermitian conjugate of this circuit because '
                                      'the circuit contains measurement.')
+                continue
+            if isinstance(dag, gate.TwoQubitGate):
+                pairs = list(dag.control_target_iter(self.n_qubits))
+                if len({q for pair in pairs for q in pair}) < 2 * len(pairs):
+                    # The pairs share qubits, so they shall be applied in the reversed order.
+                    dag = copy.copy(dag)
+                    dag.targets = tuple(zip(*reversed(pairs)))
+            ops.append(dag)
 
         copied = Circuit(self.n_qubits, ops)
         if copy_backends:
-- 
2.43.0


From 3a31ae7236cdef506072d7044e9cf1075afbdd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 24/44] fix: an interrupted run on the numba backend left a
 stale cache

---
 blueqat/backends/_numba_backend_impl.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/blueqat/backends/_numba_backend_impl.py b/blueqat/backends/_numba_backend_impl.py
index a2289d8..2bbd364 100644
--- a/blueqat/backends/_numba_backend_impl.py
+++ b/blueqat/backends/_numba_backend_impl.py
@@ -434,10 +434,15 @@ class NumbaBackend(Backend):
         for _ in range(shots):
             ctx.prepare(self.cache)
             cache_idx = self.cache_idx
-            for gate in gates[cache_idx + 1:]:
-                run_single_gate(gate)
-                if ctx.save_cache:
-                    cache_idx += 1
+            try:
+                for gate in gates[cache_idx + 1:]:
+                    run_single_gate(gate)
+                    if ctx.save_cache:
+                        cache_idx += 1
+            except BaseException:
+                # The cache may be newer than cache_idx when the run is interrupted.
+                self.__clear_cache()
+                raise
             if self.cache_idx != cache_idx:
                 self.cache_idx = cache_idx
                 self.cached_gates = list(gates[:cache_idx + 1])
-- 
2.43.0


From d38cb9877c76ad8a74dcd9dfc527c6e76352537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 25/44] fix: dagger of Ops on overlapping pairs kept the order
 of the pairs

---
 blueqat/circuit.py                 |  9 +--------
 blueqat/experimental/operations.py |  3 ++-
 blueqat/gate.py                    | 12 ++++++++++++
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index cb34392..301dfa1 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -16,7 +16,6 @@
 This module defines Circuit and the setting for circuit.
 """
 
-import copy
 import warnings
 from functools import partial
 from typing import Callable
@@ -177,13 +176,7 @@ class Circuit:
                     raise ValueError('Cannot make the Hermitian conjugate of this circuit because '
                                      'the circuit contains measurement.')
                 continue
-            if isinstance(dag, gate.TwoQubitGate):
-                pairs = list(dag.control_target_iter(self.n_qubits))
-                if len({q for pair in pairs for q in pair}) < 2 * len(pairs):
-                    # The pairs share qubits, so they shall be applied in the reversed order.
-                    dag = copy.copy(dag)
-                    dag.targets = tuple(zip(*reversed(pairs)))
-            ops.append(dag)
+            ops.append(gate.reverse_shared_pairs(dag, self.n_qubits))
 
         copied = Circuit(self.n_qubits, ops)
         if copy_backends:
diff --git a/blueqat/experimental/operations.py b/blueqat/experimental/operations.py
index 03ba2ea..eabe6c5 100644
--- a/blueqat/experimental/operations.py
+++ b/blueqat/experimental/operations.py
@@ -65,7 +65,8 @@ class Ops(NamedTuple):
 
     def dagger(self):
         """Get Hamiltonian conjugate of `self`."""
-        return Ops(self.n_qubits, tuple(g.dagger() for g in reversed(self.ops)))
+        return Ops(self.n_qubits, tuple(gate.reverse_shared_pairs(g.dagger(), self.n_qubits)
+                                        for g in reversed(self.ops)))
 
     def to_circuit(self):
         return Circuit(self.n_qubits, list(self.ops))
diff --git a/blueqat/gate.py b/blueqat/gate.py
index 296d3c1..42a8565 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -3,6 +3,7 @@
 This module is internally used.
 """
 
+import copy
 import math
 from abc import ABC
 from typing import List
@@ -682,6 +683,17 @@ def qubit_pairs(args, length):
     return zip(controls, targets)
 
 
+def reverse_shared_pairs(gate, n_qubits):
+    """Internally used. When the pairs of the two qubit gate share some qubits,
+    returns the gate which is applied to these pairs in the reversed order."""
+    if isinstance(gate, TwoQubitGate):
+        pairs = list(gate.control_target_iter(n_qubits))
+        if len({q for pair in pairs for q in pair}) < 2 * len(pairs):
+            gate = copy.copy(gate)
+            gate.targets = tuple(zip(*reversed(pairs)))
+    return gate
+
+
 def get_maximum_index(indices):
     """Internally used."""
     def _maximum_idx_single(idx):
-- 
2.43.0


From 1ddbe8c4732046ddfa354dbbdf5990b2cea6c37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:59 +0000
Subject: [PATCH 26/44] fix: circuits kept using a backend object after its
 name was unregistered or registered again

---
 blueqat/circuit.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 301dfa1..f9b235d 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -87,6 +87,7 @@ class Circuit:
     def __init__(self, n_qubits=0, ops=None):
         self.ops = ops or []
         self._backends = {}
+        self._backend_types = {}
         self._default_backend = None
         self.n_qubits = n_qubits
 
@@ -94,13 +95,13 @@ class Circuit:
         return f'Circuit({self.n_qubits}).' + '.'.join(str(op) for op in self.ops)
 
     def __get_backend(self, backend_name):
-        try:
-            return self._backends[backend_name]
-        except KeyError:
-            backend = BACKENDS.get(backend_name)
-            if backend is None:
-                raise ValueError(f"Backend {backend_name} doesn't exist.")
-        self._backends[backend_name] = backend()
+        backend = BACKENDS.get(backend_name)
+        if backend is None:
+            raise ValueError(f"Backend {backend_name} doesn't exist.")
+        # Don't reuse the object made by the backend which was registered before.
+        if backend_name not in self._backends or self._backend_types.get(backend_name) is not backend:
+            self._backends[backend_name] = backend()
+            self._backend_types[backend_name] = backend
         return self._backends[backend_name]
 
     def __backend_runner_wrapper(self, backend_name):
@@ -146,6 +147,7 @@ class Circuit:
         copied = Circuit(self.n_qubits, self.ops.copy())
         if copy_backends:
             copied._backends = {k: v.copy() for k, v in self._backends.items()}
+            copied._backend_types = self._backend_types.copy()
         if copy_default_backend:
             copied._default_backend = self._default_backend
 
@@ -181,6 +183,7 @@ class Circuit:
         copied = Circuit(self.n_qubits, ops)
         if copy_backends:
             copied._backends = {k: v.copy() for k, v in self._backends.items()}
+            copied._backend_types = self._backend_types.copy()
         if copy_default_backend:
             copied._default_backend = self._default_backend
 
-- 
2.43.0


From 571726601bdd9529dc41f845b936a6ea149fec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 27/44] fix: to_inttuple accepted digits other than 0 and 1

---
 blueqat/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blueqat/utils.py b/blueqat/utils.py
index 5c3a40a..7993305 100644
--- a/blueqat/utils.py
+++ b/blueqat/utils.py
@@ -31,11 +31,11 @@ def to_inttuple(bitstr):
         ValueError: If bitstr type is unexpected or bitstr contains illegal character.
     """
     if isinstance(bitstr, str):
-        return tuple(int(b) for b in bitstr)
+        return tuple(int(b, 2) for b in bitstr)
     if isinstance(bitstr, Counter):
-        return Counter({tuple(int(b) for b in k): v for k, v in bitstr.items()})
+        return Counter({tuple(int(b, 2) for b in k): v for k, v in bitstr.items()})
     if isinstance(bitstr, dict):
-        return {tuple(int(b) for b in k): v for k, v in bitstr.items()}
+        return {tuple(int(b, 2) for b in k): v for k, v in bitstr.items()}
     raise ValueError("bitstr type shall be `str`, `Counter` or `dict`")
 
 def ignore_global_phase(statevec):
-- 
2.43.0


From 7e0d27dc71ec0ab17d6d2f6a701f5066bad9b208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 28/44] fix: printed form of empty circuits and of slices in
 nested targets was not valid Python

---
 blueqat/circuit.py                 | 2 +-
 blueqat/experimental/operations.py | 2 +-
 blueqat/gate.py                    | 6 ++++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index f9b235d..dafc60c 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -92,7 +92,7 @@ class Circuit:
         self.n_qubits = n_qubits
 
     def __repr__(self):
-        return f'Circuit({self.n_qubits}).' + '.'.join(str(op) for op in self.ops)
+        return '.'.join([f'Circuit({self.n_qubits})', *(str(op) for op in self.ops)])
 
     def __get_backend(self, backend_name):
         backend = BACKENDS.get(backend_name)
diff --git a/blueqat/experimental/operations.py b/blueqat/experimental/operations.py
index eabe6c5..d12fe24 100644
--- a/blueqat/experimental/operations.py
+++ b/blueqat/experimental/operations.py
@@ -49,7 +49,7 @@ class Ops(NamedTuple):
     ops: Tuple[gate.Gate] = ()
 
     def __repr__(self):
-        return f'Ops({self.n_qubits}).' + '.'.join(str(op) for op in self.ops)
+        return '.'.join([f'Ops({self.n_qubits})', *(str(op) for op in self.ops)])
 
     def __getattr__(self, name):
         if name in GATE_SET:
diff --git a/blueqat/gate.py b/blueqat/gate.py
index 42a8565..3637d70 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -54,11 +54,13 @@ class Gate(ABC):
                     step = str(obj.step.__index__())
                     return f'{start}:{stop}:{step}'
             elif isinstance(obj, tuple):
-                return f"({', '.join(_slice_to_str(o) for o in obj)},)"
+                # The a:b notation is not allowed in a tuple inside of the brackets.
+                strs = [repr(o) if isinstance(o, slice) else _slice_to_str(o) for o in obj]
+                return f"({', '.join(strs)},)" if strs else "()"
             else:
                 return str(obj.__index__())
 
-        if isinstance(self.targets, tuple):
+        if isinstance(self.targets, tuple) and self.targets:
             return f"[{', '.join(_slice_to_str(target) for target in self.targets)}]"
         else:
             return f"[{_slice_to_str(self.targets)}]"
-- 
2.43.0


From 9c4a20ae82729657bedb3a382eaa85cd18933978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:34 +0000
Subject: [PATCH 29/44] fix: sympy_unitary with ignore_global divided by an
 element that is identically zero

---
 blueqat/backends/sympy_backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blueqat/backends/sympy_backend.py b/blueqat/backends/sympy_backend.py
index cc40b32..9c4124d 100644
--- a/blueqat/backends/sympy_backend.py
+++ b/blueqat/backends/sympy_backend.py
@@ -165,6 +165,7 @@ class SympyBackend(Backend):
         if ctx.ignore_global:
             mat = ctx.matrix_of_circuit
             for i in range(2 ** ctx.n_qubits):
-                if mat[i, i] != 0:
+                # The element may be zero even if it isn't simplified to 0.
+                if mat[i, i].equals(0) is False:
                     return mat * (abs(mat[i, i]) / mat[i, i])
         return ctx.matrix_of_circuit
-- 
2.43.0


From cb6bec4f3810f8923a00541a9fc1a5749e1d627a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:22 +0000
Subject: [PATCH 30/44] fix: X == I, I compared with another Pauli operator no
 longer raises

---
 blueqat/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 7efc2c9..27724b7 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -251,7 +251,7 @@ class _PauliImpl:
         if isinstance(other, _PauliImpl):
             if self.is_identity:
                 return other.is_identity
-            return _n(self) == _n(other) and self.op == other.op
+            return self.op == other.op and _n(self) == _n(other)
         if isinstance(other, Term):
             return self.to_term() == other
         if isinstance(other, Expr):
-- 
2.43.0


From 13680f878c87eacecb63cb214a44cbd0501a16e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 31/44] fix: numpy scalar times a Pauli operator, term or
 expression

---
 blueqat/pauli.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 27724b7..832a38f 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -227,6 +227,9 @@ def _GetItem(self_, n):
     return type(self_)(n)
 
 class _PauliImpl:
+    # Let NumPy scalars defer to the operators below, instead of treating a Pauli operator as array.
+    __array_ufunc__ = None
+
     @property
     def op(self):
         """Return operator type (X, Y, Z, I)"""
@@ -373,6 +376,9 @@ class Term(_TermTuple):
     it can be consider the time evolution of the term (with real coefficient)
     without Suzuki-Trotter expansion.
     """
+    # Let NumPy scalars defer to the operators below, instead of treating a Term as array.
+    __array_ufunc__ = None
+
     @staticmethod
     def from_paulipair(pauli1, pauli2):
         """Make new Term from two Pauli operator."""
@@ -651,6 +657,9 @@ class Term(_TermTuple):
 
 _ExprTuple = namedtuple("_ExprTuple", "terms")
 class Expr(_ExprTuple):
+    # Let NumPy scalars defer to the operators below, instead of treating an Expr as array.
+    __array_ufunc__ = None
+
     @staticmethod
     def from_number(num):
         """Make new Expr from a number"""
-- 
2.43.0


From 04d22de4083a61913c2064d4803b4dbb3f1c37e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:13 +0000
Subject: [PATCH 32/44] fix: matrix of an expression that is zero (division by
 zero)

---
 blueqat/pauli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 832a38f..ac0c97d 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -911,9 +911,9 @@ class Expr(_ExprTuple):
                 val_acc += _term_to_dataarray(term, n_qubits, is_csr)
             vals[i_grp::n_groups] = val_acc
         if not is_csr:
-            m = scipy.sparse.csc_matrix((vals, inds, np.arange(0, n_vals + 1, n_groups)), shape=(dim, dim))
+            m = scipy.sparse.csc_matrix((vals, inds, np.arange(dim + 1) * n_groups), shape=(dim, dim))
         else:
-            m = scipy.sparse.csr_matrix((vals, inds, np.arange(0, n_vals + 1, n_groups)), shape=(dim, dim))
+            m = scipy.sparse.csr_matrix((vals, inds, np.arange(dim + 1) * n_groups), shape=(dim, dim))
         m.eliminate_zeros()
         if sparse is None:
             return m.toarray()
-- 
2.43.0


From 27e9bbeb8057980dcc428b4cba989cb54f664923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 33/44] fix: energy of a Hamiltonian whose terms are not
 simplified

---
 blueqat/vqe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 4278af1..68c20f6 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -44,7 +44,7 @@ class AnsatzBase:
     def get_energy(self, circuit, sampler):
         """Calculate energy from circuit and sampler."""
         val = 0.0
-        for meas in self.hamiltonian:
+        for meas in self.hamiltonian.to_expr().simplify():
             c = circuit.copy()
             for op in meas.ops:
                 if op.op == "X":
-- 
2.43.0


From a8774134a353356eb75265e971e11d0eeb6d5fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 34/44] fix: Vqe.result raised AttributeError, before and after
 a run

---
 blueqat/vqe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 68c20f6..0870b7f 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -180,6 +180,7 @@ class Vqe:
             options={"ftol": 5.0e-2, "xtol": 5.0e-2, "maxiter": 1000}
         )
         self.sampler = sampler
+        self._result = None
 
     def run(self, verbose=False):
         objective = self.ansatz.get_objective(self.sampler)
@@ -193,7 +194,8 @@ class Vqe:
             objective = verbose_objective(objective)
         params = self.minimizer(objective, self.ansatz.n_params)
         c = self.ansatz.get_circuit(params)
-        return VqeResult(self, params, c)
+        self._result = VqeResult(self, params, c)
+        return self._result
 
     @property
     def result(self):
-- 
2.43.0


From b56351cd68506479b589ede7361f17203ed3dd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:24 +0000
Subject: [PATCH 35/44] fix: Opt.sqa: energy difference with a single Trotter
 slice

---
 blueqat/wq.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 60633cb..2aa31d8 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -551,7 +551,9 @@ class Opt:
                     else:
                         dE += -2*q[y][j]*q[y][x]*J[j][x] / self.tro
 
-                dE += q[y][x]*(q[(self.tro+y-1)%self.tro][x]+q[(y+1)%self.tro][x])*np.log(1/np.tanh(G/self.Tf/self.tro))*self.Tf
+                # With a single slice, the slice is its own neighbor and this term is constant.
+                if self.tro > 1:
+                    dE += q[y][x]*(q[(self.tro+y-1)%self.tro][x]+q[(y+1)%self.tro][x])*np.log(1/np.tanh(G/self.Tf/self.tro))*self.Tf
 
                 if dE < 0 or np.exp(-dE/self.Tf) > np.random.rand():
                     q[y][x] *= -1
-- 
2.43.0


From edd0b3f1271c1de0c8a81c0f4cfb31d834ed78eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:14 +0000
Subject: [PATCH 36/44] fix: optm takes plain number coefficients of single
 variables

---
 blueqat/wq.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 2aa31d8..9acbc81 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -60,8 +60,7 @@ def optm(quboh,numM):
         for j in range(i+1,numM): 
             optm_M[i][j] = optm_E.coeff(symbol_list[i]+"*"+symbol_list[j]) 
 
-        temp1 = sympy.poly(optm_E.coeff(symbol_list[i])) 
-        optm_M[i][i] = sympy.poly(optm_E.coeff(symbol_list[i])).coeff_monomial(1) 
+        optm_M[i][i] = sympy.poly(optm_E.coeff(symbol_list[i]), *sympy.symbols(symbol_list)).coeff_monomial(1) 
 
     return optm_M
 
-- 
2.43.0


From 55f84cf3fba62eaabd54abdc497cd94e3a427a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:31 +0000
Subject: [PATCH 37/44] fix: qn_to_qubo reads the whole coefficient of a term

---
 blueqat/wq.py | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 9acbc81..457b4a1 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -162,32 +162,14 @@ def qn_to_qubo(expr):
     for arg in expr.args:
         syms = arg.free_symbols
         assert len(syms) <= 2
+        coeff = float(arg.as_independent(*syms)[0]) if syms else 0.
         if len(syms) == 2:
             assert type(arg) == sympy.Mul
-            i, j = list(map(to_i, syms))
-            if i > j:
-                i, j = j, i
-            if i == j:
-                if len(arg.args) == 2:
-                    qubo[i][i] = float(arg.args[0])
-                elif len(arg.args) == 1:
-                    qubo[i][i] = 1.0
-                else:
-                    raise ValueError(f"Too many args! arg.args = {arg.args}")
-                continue
-            if len(arg.args) == 3:
-                qubo[i][j] = float(arg.args[0])
-            elif len(arg.args) == 2:
-                qubo[i][j] = 1.0
+            i, j = sorted(map(to_i, syms))
+            qubo[i][j] += coeff
         if len(syms) == 1:
             i = to_i(next(iter(syms)))
-            if len(arg.args) == 2:
-                assert type(arg) == sympy.Mul
-                qubo[i][i] += float(arg.args[0])
-            elif len(arg.args) == 0:
-                qubo[i][i] += 1.0
-            else:
-                raise ValueError(f"Too many args! arg.args = {arg.args}")
+            qubo[i][i] += coeff
     return qubo
 
 def Ei(q3,j3):
-- 
2.43.0


From 37bebfe39cba68e7628d2d93c8d5b2da3838506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:47 +0000
Subject: [PATCH 38/44] fix: expand_qubo uses the total degree of the
 expression

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 457b4a1..e820a59 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -440,7 +440,7 @@ class Opt:
         except ImportError:
             raise ImportError("optm() requires sympy. Please install before call this function.")
         f = sympy.expand(qubo)
-        deg = sympy.poly(f).degree()
+        deg = sympy.poly(f).total_degree()
 
         for i in range(deg):
             for j in f.free_symbols:
-- 
2.43.0


From 5ae1bcd15d481a35c0ddbd17427daa194a0257db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:04 +0000
Subject: [PATCH 39/44] fix: Opt.dw puts the local fields on their own qubits

---
 blueqat/wq.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index e820a59..80fd238 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -559,11 +559,7 @@ class Opt:
 
         # for hi
         harr = np.diag(self.J)
-        larr = []
-        for i in solver.nodes:
-            if i < len(harr):
-                larr.append(harr[i])
-        linear = {index: larr[index] for index in range(len(larr))}
+        linear = {i: harr[i] for i in solver.nodes if i < len(harr)}
 
         # for jij
         qarr = []
-- 
2.43.0


From 6b1f0a6515a70918b65551987fd81dc2b9908809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:42 +0000
Subject: [PATCH 40/44] fix: Opt.rbm_model_qubo works with a single sample

---
 blueqat/wq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 80fd238..ce25303 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -581,6 +581,8 @@ class Opt:
 
     def rbm_model_qubo(self,shots=100,targetT=0.02):
         result = self.run(shots=shots,sampler="fast",targetT=targetT)
+        if shots == 1:
+            result = [result]
         bias = np.sum(result,axis=0)/shots
         bias_qubo = np.diag(bias)
         weight_qubo = zeros(len(bias))
-- 
2.43.0


From 1c890ab6eab60e428bc8d093aa87d185cb4a2605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:02 +0000
Subject: [PATCH 41/44] fix: postprocess the context the gate actions returned,
 not the initial one

---
 blueqat/backends/backendbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/backends/backendbase.py b/blueqat/backends/backendbase.py
index f34b01e..9a2652e 100644
--- a/blueqat/backends/backendbase.py
+++ b/blueqat/backends/backendbase.py
@@ -69,7 +69,7 @@ class Backend(ABC):
         Otherwise, the developer can override `run` method if they want to change the flow of run.
         """
         gates, ctx = self._preprocess_run(gates, n_qubits, args, kwargs)
-        self._run_gates(gates, n_qubits, ctx)
+        ctx = self._run_gates(gates, n_qubits, ctx)
         return self._postprocess_run(ctx)
 
     def make_cache(self, gates, n_qubits):
-- 
2.43.0


From d6d2aefd220aea12c832201da0f50add6da3fa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:40 +0000
Subject: [PATCH 42/44] fix: Expr is restored from pickle protocol 0 and 1

---
 blueqat/pauli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index ac0c97d..c02c573 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -836,6 +836,10 @@ class Expr(_ExprTuple):
     def __getnewargs__(self):
         return (self.terms,)
 
+    def __reduce__(self):
+        # Required for pickle protocol 0 and 1, which don't use `__getnewargs__`.
+        return type(self), self.__getnewargs__()
+
     def to_expr(self):
         """Do nothing. This method is prepared to avoid TypeError."""
         return self
-- 
2.43.0


From 33c99751b34033a6bf85071a031236560c02001d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:40 +0000
Subject: [PATCH 43/44] fix: circuit can be pickled after it was run by a
 generated backend

---
 blueqat/circuit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index dafc60c..74e239a 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -94,6 +94,10 @@ class Circuit:
     def __repr__(self):
         return '.'.join([f'Circuit({self.n_qubits})', *(str(op) for op in self.ops)])
 
+    def __getstate__(self):
+        # Backends are made again when required, because some of them cannot be pickled.
+        return {**self.__dict__, '_backends': {}, '_backend_types': {}}
+
     def __get_backend(self, backend_name):
         backend = BACKENDS.get(backend_name)
         if backend is None:
-- 
2.43.0


From 712f231390224a4cddd22222a982f91668138405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:00 +0000
Subject: [PATCH 44/44] fix: negative indices of three-qubit gates were refused
 by the simulators and exported as they are

---
 blueqat/backends/_numba_backend_impl.py |  4 ++--
 blueqat/backends/numpy_backend.py       |  6 +++---
 blueqat/backends/qasm_output_backend.py |  2 +-
 blueqat/gate.py                         | 23 ++++++++++++++++++-----
 4 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/blueqat/backends/_numba_backend_impl.py b/blueqat/backends/_numba_backend_impl.py
index 2bbd364..c0f5451 100644
--- a/blueqat/backends/_numba_backend_impl.py
+++ b/blueqat/backends/_numba_backend_impl.py
@@ -599,13 +599,13 @@ class NumbaBackend(Backend):
     def gate_ccz(self, gate, ctx):
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
-        _czgate(qubits, n_qubits, np.array(gate.targets, dtype=_QBIdx_dtype))
+        _czgate(qubits, n_qubits, np.array(gate.get_qubits(n_qubits), dtype=_QBIdx_dtype))
         return ctx
 
     def gate_ccx(self, gate, ctx):
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
-        _cxgate(qubits, n_qubits, np.array(gate.targets, dtype=_QBIdx_dtype))
+        _cxgate(qubits, n_qubits, np.array(gate.get_qubits(n_qubits), dtype=_QBIdx_dtype))
         return ctx
 
     def gate_u1(self, gate, ctx):
diff --git a/blueqat/backends/numpy_backend.py b/blueqat/backends/numpy_backend.py
index 66c5fbb..249c33a 100644
--- a/blueqat/backends/numpy_backend.py
+++ b/blueqat/backends/numpy_backend.py
@@ -369,7 +369,7 @@ class NumPyBackend(Backend):
         return ctx
 
     def gate_ccz(self, gate, ctx):
-        c1, c2, t = gate.targets
+        c1, c2, t = gate.get_qubits(ctx.n_qubits)
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
         i = ctx.indices
@@ -380,9 +380,9 @@ class NumPyBackend(Backend):
         return ctx
 
     def gate_ccx(self, gate, ctx):
-        c1, c2, t = gate.targets
+        c1, c2, t = gate.get_qubits(ctx.n_qubits)
         ctx = self.gate_h(HGate(t), ctx)
-        ctx = self.gate_ccz(CCZGate(gate.targets), ctx)
+        ctx = self.gate_ccz(CCZGate((c1, c2, t)), ctx)
         ctx = self.gate_h(HGate(t), ctx)
         return ctx
 
diff --git a/blueqat/backends/qasm_output_backend.py b/blueqat/backends/qasm_output_backend.py
index 9279348..ef9ffd6 100644
--- a/blueqat/backends/qasm_output_backend.py
+++ b/blueqat/backends/qasm_output_backend.py
@@ -117,7 +117,7 @@ class QasmOutputBackend(Backend):
         return ctx
 
     def _three_qubit_gate_noargs(self, gate, ctx):
-        c0, c1, t = gate.targets
+        c0, c1, t = gate.get_qubits(ctx[1])
         ctx[0].append(f"{gate.lowername} q[{c0}],q[{c1}],q[{t}];")
         return ctx
 
diff --git a/blueqat/gate.py b/blueqat/gate.py
index 3637d70..c81db24 100644
--- a/blueqat/gate.py
+++ b/blueqat/gate.py
@@ -99,6 +99,19 @@ class TwoQubitGate(Gate):
         return gates
 
 
+class ThreeQubitGate(Gate):
+    """Abstract quantum gate class for 3 qubits gate."""
+
+    def get_qubits(self, n_qubits):
+        """Returns the tuple of the 3 qubits. Negative indices are counted from the end."""
+        qubits = tuple(q for target in self.targets for q in slicing(target, n_qubits))
+        if len(qubits) != 3:
+            raise ValueError("Three qubits are required.")
+        if len(set(qubits)) != 3:
+            raise ValueError("Three qubits must be different.")
+        return qubits
+
+
 class IGate(OneQubitGate):
     """Identity gate"""
     lowername = "i"
@@ -570,7 +583,7 @@ class CU3Gate(TwoQubitGate):
             ])
 
 
-class ToffoliGate(Gate):
+class ToffoliGate(ThreeQubitGate):
     """Toffoli (CCX) gate"""
     lowername = "ccx"
 
@@ -578,7 +591,7 @@ class ToffoliGate(Gate):
         return self
 
     def fallback(self, n_qubits):
-        c1, c2, t = self.targets
+        c1, c2, t = self.get_qubits(n_qubits)
         return [
             HGate(t),
             CXGate((c2, t)),
@@ -598,7 +611,7 @@ class ToffoliGate(Gate):
         ]
 
 
-class CCZGate(Gate):
+class CCZGate(ThreeQubitGate):
     """2-Controlled Z gate"""
     lowername = "ccz"
 
@@ -606,7 +619,7 @@ class CCZGate(Gate):
         return self
 
 
-class CSwapGate(Gate):
+class CSwapGate(ThreeQubitGate):
     """Controlled SWAP gate"""
     lowername = "cswap"
 
@@ -615,7 +628,7 @@ class CSwapGate(Gate):
 
     def fallback(self, n_qubits):
         # TODO: test
-        c, t1, t2 = self.targets
+        c, t1, t2 = self.get_qubits(n_qubits)
         return [CXGate((t2, t1)),
                 ToffoliGate((c, t1, t2)),
                 CXGate((t2, t1))]
-- 
2.43.0

