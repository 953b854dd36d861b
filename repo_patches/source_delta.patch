From 86e17d42b3a49ddf2914680f3a29ae76516eef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 01/73] fix: state preparation fault sets miss faults that hit
 control and target of a CNOT

A fault before a CNOT (equivalently a correlated fault on both of its qubits) was
not propagated through that CNOT, so verification circuits left it undetected.
---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index dd1c80e..df8527f 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1185,7 +1185,7 @@ def _propagate_error(nodes: list[DAGNode], n_qubits: int, x_errors: bool = True)
     error: npt.NDArray[np.int8] = np.array([0] * n_qubits, dtype=np.int8)
     error[control] = 1
     # propagate error through circuit via bfs
-    for node in nodes[1:]:
+    for node in nodes:
         control = node.qargs[0]._index  # noqa: SLF001
         target = node.qargs[1]._index  # noqa: SLF001
         if x_errors:
-- 
2.43.0


From 4261f933d156004372c828e2324c9e330ef078df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 02/73] fix: hook errors of verification measurements are the
 CNOT suffixes, not single omissions

_hook_errors restored every removed qubit, so it returned errors equivalent to a
single-qubit error and the real hook errors were never verified.
---
 src/mqt/qecc/ft_stateprep/state_prep.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index df8527f..50c9277 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1608,5 +1608,4 @@ def _hook_errors(stabs: list[npt.NDArray[np.int8]]) -> npt.NDArray[np.int8]:
             if stab[i] == 1:
                 error[i] = 0
                 errors.append(error.copy())
-                error[i] = 1
     return np.array(errors)
-- 
2.43.0


From a3edaa160ab1202126a31e74ea95fc06988e8c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 03/73] fix: two-error flagged measurement of a weight-3
 stabilizer fails with an assertion

Hook errors of a weight-3 measurement are equivalent to single-qubit errors, so no
flags are needed; the general scheme used so far requires at least five qubits.
---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 50c9277..347a0e0 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1337,7 +1337,7 @@ def measure_flagged(
         _measure_stab_one_flagged(qc, stab, ancilla, measurement_bit, z_measurement)
         return
 
-    if w < 3 and t == 2:
+    if w <= 3 and t == 2:
         _measure_stab_unflagged(qc, stab, ancilla, measurement_bit, z_measurement)
         return
 
-- 
2.43.0


From 867f6cf3723af423851102721d384f93d92895d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 04/73] fix: two-flag stabilizer measurement fails for weight 7
 and weights above 8

Flags were indexed by the number of data CNOTs instead of by how many were opened,
and closed in the wrong order.
---
 src/mqt/qecc/ft_stateprep/state_prep.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 347a0e0..bee43bc 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1425,17 +1425,19 @@ def measure_stab_two_flagged(
     _ancilla_cnot(qc, flag_reg[1], ancilla, z_measurement)
 
     cnots = 2
-    flags = 2
+    opened = 2  # next flag to entangle with the ancilla
+    closed = 2  # next flag to disentangle and measure, in the order they were opened
     for q in stab[2:-2]:
         _ancilla_cnot(qc, q, ancilla, z_measurement)
         cnots += 1
         if cnots % 2 == 0 and cnots < len(stab) - 2:
-            _flag_init(qc, flag_reg[flags], z_measurement)
-            _ancilla_cnot(qc, flag_reg[flags], ancilla, z_measurement)
+            _flag_init(qc, flag_reg[opened], z_measurement)
+            _ancilla_cnot(qc, flag_reg[opened], ancilla, z_measurement)
+            opened += 1
         if cnots >= 7 and cnots % 2 == 1:
-            _ancilla_cnot(qc, flag_reg[flags - 1], ancilla, z_measurement)
-            _flag_measure(qc, flag_reg[flags - 1], meas_reg[flags - 1], z_measurement)
-        flags += 1
+            _ancilla_cnot(qc, flag_reg[closed], ancilla, z_measurement)
+            _flag_measure(qc, flag_reg[closed], meas_reg[closed], z_measurement)
+            closed += 1
 
     _ancilla_cnot(qc, flag_reg[0], ancilla, z_measurement)
     _flag_measure(qc, flag_reg[0], meas_reg[0], z_measurement)
@@ -1444,8 +1446,9 @@ def measure_stab_two_flagged(
 
     cnots += 1
     if cnots >= 7 and cnots % 2 == 1:
-        _ancilla_cnot(qc, flag_reg[flags - 1], ancilla, z_measurement)
-        _flag_measure(qc, flag_reg[flags - 1], meas_reg[flags - 1], z_measurement)
+        _ancilla_cnot(qc, flag_reg[closed], ancilla, z_measurement)
+        _flag_measure(qc, flag_reg[closed], meas_reg[closed], z_measurement)
+        closed += 1
 
     _ancilla_cnot(qc, flag_reg[1], ancilla, z_measurement)
     _flag_measure(qc, flag_reg[1], meas_reg[1], z_measurement)
@@ -1454,8 +1457,8 @@ def measure_stab_two_flagged(
 
     cnots += 1
     if cnots >= 7 and cnots % 2 == 1:
-        _ancilla_cnot(qc, flag_reg[flags - 1], ancilla, z_measurement)
-        _flag_measure(qc, flag_reg[flags - 1], meas_reg[flags - 1], z_measurement)
+        _ancilla_cnot(qc, flag_reg[closed], ancilla, z_measurement)
+        _flag_measure(qc, flag_reg[closed], meas_reg[closed], z_measurement)
     if not z_measurement:
         qc.h(ancilla)
 
-- 
2.43.0


From 4ab750ca42e8c2725440f3ce257c707dcf0478d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 05/73] fix: verification search only counts overlaps of
 exactly one, not odd overlaps

An error is detected whenever it overlaps a measured stabilizer in an odd number of
qubits; the stricter constraint made the 'optimal' verification more expensive than
necessary.
---
 src/mqt/qecc/ft_stateprep/state_prep.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index bee43bc..ac35458 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1099,7 +1099,11 @@ def _symbolic_vector_add(
 
 def _odd_overlap(v_sym: npt.NDArray[z3.BoolRef | bool], v_con: npt.NDArray[np.int8]) -> z3.BoolRef:
     """Return True if the overlap of symbolic vector with constant vector is odd."""
-    return z3.PbEq([(v_sym[i], 1) for i, c in enumerate(v_con) if c == 1], 1)
+    odd = z3.BoolVal(False)
+    for i, c in enumerate(v_con):
+        if c == 1:
+            odd = z3.Xor(odd, v_sym[i])
+    return odd
 
 
 def _symbolic_vector_eq(v1: npt.NDArray[z3.BoolRef | bool], v2: npt.NDArray[z3.BoolRef | bool]) -> z3.BoolRef:
-- 
2.43.0


From a66feecde079e9020f7dfc03c1ad563b6beeca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 06/73] fix: heuristic state preparation permutes qubits when
 it escapes a local minimum

ldpc's reduced_row_echelon moves the pivot columns to the front, so the synthesized
circuit prepared the state of a different code. Use the echelon form without column
permutation.
---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index ac35458..9c1d9c9 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -229,7 +229,7 @@ def heuristic_prep_circuit(code: CSSCode, optimize_depth: bool = True, zero_stat
         if np.all(costs_unused >= 0) or len(used_qubits) == checks.shape[1]:  # no more reductions possible
             if not used_qubits:  # local minimum => get out by making matrix triangular
                 logging.warning("Local minimum reached. Making matrix triangular.")
-                checks = mod2.reduced_row_echelon(checks)[0]
+                checks = mod2.row_echelon(checks, full=True)[0]
                 costs = np.array([
                     [np.sum((checks[:, i] + checks[:, j]) % 2) for j in range(checks.shape[1])]
                     for i in range(checks.shape[1])
-- 
2.43.0


From 11fcad7086fa4f9b36d4b748c63a311d24b478e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 07/73] fix: optimal state preparation synthesizes wrong states
 for redundant check matrices

The encoding requires as many non-zero columns as there are checks, which is only
right when the checks are linearly independent.
---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 9c1d9c9..1e5819d 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -401,7 +401,7 @@ def _optimal_circuit(
     if code.Hx is None or code.Hz is None:
         msg = "Code must have both X and Z stabilizers defined."
         raise ValueError(msg)
-    checks = code.Hx if zero_state else code.Hz
+    checks = mod2.row_basis(code.Hx if zero_state else code.Hz)  # the encoding assumes independent checks
 
     def fun(param: int) -> QuantumCircuit | None:
         return prep_func(checks, param, zero_state)
-- 
2.43.0


From 6499946a66fdd445f4225a7d97ecbeac3e2fe120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 08/73] fix: optimal state preparation crashes when a single
 gate or layer suffices

The search for a smaller parameter went down to 0, for which there is no encoding.
---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 1e5819d..7f3824f 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -424,7 +424,7 @@ def _optimal_circuit(
     # Solving a SAT instance is much faster than proving unsat in this case
     # so we iterate backwards until we find an unsat instance or hit a timeout
     logging.info("Trying to minimize param")
-    while True:
+    while curr_param > 1:
         logging.info(f"Trying param {curr_param - 1}")
         opt_res = _run_with_timeout(fun, curr_param - 1, timeout=max_timeout)
         if opt_res is None or (isinstance(opt_res, str) and opt_res == "timeout"):
-- 
2.43.0


From c37d7c1fdb95923b116cb8b9854e840400fe510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 09/73] fix: ColorCode.check_if_logical_error never reports a
 logical error

numpy's any() returns a numpy bool, which is never identical to True.
---
 src/mqt/qecc/codes/color_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/color_code.py b/src/mqt/qecc/codes/color_code.py
index 3f65069..8d94c97 100644
--- a/src/mqt/qecc/codes/color_code.py
+++ b/src/mqt/qecc/codes/color_code.py
@@ -63,4 +63,4 @@ class ColorCode(CSSCode):
 
     def check_if_logical_error(self, residual: npt.NDArray[np.int_]) -> bool:
         """Check if the residual is a logical error."""
-        return (self.L @ residual % 2).any() is True
+        return bool((self.L @ residual % 2).any())
-- 
2.43.0


From 7139c1e640ecfc4917628de834209cb7f64157b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 10/73] fix: stabilizer_equivalent calls every stabilizer
 equivalent to any Pauli

When only the second operator was in the span of the generators and the first, the two
were reported equivalent, e.g. for an arbitrary error and the identity.
---
 src/mqt/qecc/codes/stabilizer_code.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 88832ea..0428679 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -99,9 +99,10 @@ class StabilizerCode:
 
     def stabilizer_equivalent(self, p1: Pauli, p2: Pauli) -> bool:
         """Check if two Pauli strings are equivalent up to stabilizers of the code."""
-        v1 = pauli_to_binary(p1)
-        v2 = pauli_to_binary(p2)
-        return bool(mod2.rank(np.vstack((self.generators, v1, v2))) == mod2.rank(np.vstack((self.generators, v1))))
+        difference = (pauli_to_symplectic_vec(p1) + pauli_to_symplectic_vec(p2)) % 2
+        return bool(
+            mod2.rank(np.vstack((self.symplectic_matrix, difference))) == mod2.rank(self.symplectic_matrix)
+        )
 
     @staticmethod
     def _check_stabilizer_generators(generators: npt.NDArray[np.int8] | list[str]) -> None:
-- 
2.43.0


From b581d0586d137efc6b44ceee1665d9deb77e96dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 11/73] fix: signs of dependent generators are counted as
 independent generators

---
 src/mqt/qecc/codes/stabilizer_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 0428679..fc6ccf1 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -48,7 +48,7 @@ class StabilizerCode:
         self.generators = paulis_to_binary(generators)
         self.symplectic_matrix = self.generators[:, :-1]  # discard the phase
         self.phases = self.generators[:, -1]
-        self.k = self.n - mod2.rank(self.generators)
+        self.k = self.n - mod2.rank(self.symplectic_matrix)
 
         if distance is not None and distance <= 0:
             msg = "Distance must be a positive integer."
-- 
2.43.0


From a80710412afa53930f29d4cede0700a168e3f572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 12/73] fix: logical operators are only checked for pairing in
 one direction

Two logical Z-operators could anti-commute with the same logical X-operator.
---
 src/mqt/qecc/codes/stabilizer_code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index fc6ccf1..3cfdc42 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -158,7 +158,7 @@ class StabilizerCode:
             raise InvalidStabilizerCodeError(msg)
 
         commutations = symplectic_matrix_product(self.Lz_symplectic, self.Lx_symplectic)
-        if not np.all(np.sum(commutations, axis=1) == 1):
+        if not (np.all(np.sum(commutations, axis=1) == 1) and np.all(np.sum(commutations, axis=0) == 1)):
             msg = "Every logical X-operator must anti-commute with exactly one logical Z-operator."
             raise InvalidStabilizerCodeError(msg)
 
-- 
2.43.0


From 6355f4433f6da676a07c4a1a69f63be6cc428103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 13/73] fix: anti-commuting stabilizer generators are accepted

---
 src/mqt/qecc/codes/stabilizer_code.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 3cfdc42..77c4852 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -123,6 +123,10 @@ class StabilizerCode:
 
     def _check_code_correct(self) -> None:
         """Check if the code is correct. Throws an exception if not."""
+        if not all_commute(self.symplectic_matrix, self.symplectic_matrix):
+            msg = "Stabilizer generators must commute with each other."
+            raise InvalidStabilizerCodeError(msg)
+
         if self.Lz is not None or self.Lx is not None:
             if self.Lz is None:
                 msg = "If logical X-operators are given, logical Z-operators must also be given."
-- 
2.43.0


From 0d8ed1e8f5248e82c6ca4974f752b329f0706863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 14/73] fix: is_self_dual compares numbers of checks instead of
 the spaces they span

---
 src/mqt/qecc/codes/css_code.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mqt/qecc/codes/css_code.py b/src/mqt/qecc/codes/css_code.py
index 5373ba0..df18c2c 100644
--- a/src/mqt/qecc/codes/css_code.py
+++ b/src/mqt/qecc/codes/css_code.py
@@ -138,9 +138,7 @@ class CSSCode(StabilizerCode):
         """Check if the code is self-dual."""
         if self.Hx is None or self.Hz is None:
             return False
-        return bool(
-            self.Hx.shape[0] == self.Hz.shape[0] and mod2.rank(self.Hx) == mod2.rank(np.vstack([self.Hx, self.Hz]))
-        )
+        return bool(mod2.rank(self.Hx) == mod2.rank(self.Hz) == mod2.rank(np.vstack([self.Hx, self.Hz])))
 
     @staticmethod
     def _check_valid_check_matrices(Hx: npt.NDArray[np.int8] | None, Hz: npt.NDArray[np.int8] | None) -> None:  # noqa: N803
-- 
2.43.0


From 99fcc4c58ee7f2f3042f4e9d4bfe7648df30d6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 15/73] fix: equal stabilizer codes have different hashes and
 signs of products are ignored

Equality treated signs as additive, so XX,ZZ equalled XX,YY (which contains -ZZ), raised for
different numbers of qubits, and the hash depended on the choice of generators.
---
 src/mqt/qecc/codes/stabilizer_code.py | 31 ++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 77c4852..491a4c0 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -74,17 +74,31 @@ class StabilizerCode:
 
     def __hash__(self) -> int:
         """Compute a hash for the stabilizer code."""
-        return hash(int.from_bytes(self.generators.tobytes(), sys.byteorder))
+        return hash((self.n, self._canonical_generators().tobytes()))
 
     def __eq__(self, other: object) -> bool:
         """Check if two stabilizer codes are equal."""
         if not isinstance(other, StabilizerCode):
             return NotImplemented
-        rnk = mod2.rank(self.generators)
         return bool(
-            rnk == mod2.rank(other.generators) and rnk == mod2.rank(np.vstack((self.generators, other.generators)))
+            self.n == other.n and np.array_equal(self._canonical_generators(), other._canonical_generators())  # noqa: SLF001
         )
 
+    def _canonical_generators(self) -> npt.NDArray[np.int8]:
+        """Return the unique reduced generators (including signs) of the stabilizer group."""
+        rows = self.generators.astype(np.int8) % 2
+        rank = 0
+        for col in range(2 * self.n):
+            pivots = np.nonzero(rows[rank:, col])[0]
+            if len(pivots) == 0:
+                continue
+            rows[[rank, rank + pivots[0]]] = rows[[rank + pivots[0], rank]]
+            for i in np.nonzero(rows[:, col])[0]:
+                if i != rank:
+                    rows[i] = multiply_commuting_paulis(rows[i], rows[rank])
+            rank += 1
+        return rows[np.any(rows != 0, axis=1)]
+
     def get_syndrome(self, error: Pauli) -> npt.NDArray:
         """Compute the syndrome of the error.
 
@@ -247,6 +261,17 @@ def symplectic_matrix_mul(m: npt.NDArray[np.int8], v: npt.NDArray[np.int8]) -> n
     return (m[:, :n] @ v[n:] + m[:, n:] @ v[:n]) % 2
 
 
+def multiply_commuting_paulis(p1: npt.NDArray[np.int8], p2: npt.NDArray[np.int8]) -> npt.NDArray[np.int8]:
+    """Multiply two commuting Paulis in binary representation including their signs."""
+    n = p1.shape[0] // 2
+    x1, z1, x2, z2 = (v.astype(int) for v in (p1[:n], p1[n : 2 * n], p2[:n], p2[n : 2 * n]))
+    product = (p1 + p2) % 2
+    # every Pauli is i^(x.z) X^x Z^z up to its sign; collect the powers of i
+    power = x1 @ z1 + x2 @ z2 + 2 * (z1 @ x2) - (x1 ^ x2) @ (z1 ^ z2)
+    product[-1] = (p1[-1] + p2[-1] + power // 2) % 2
+    return product
+
+
 def pauli_to_symplectic_vec(p: Pauli) -> npt.NDArray:
     """Convert a Pauli string to a symplectic vector."""
     return pauli_to_binary(p)[:-1]
-- 
2.43.0


From 13013f8033da6dced66091cdf0ae5525de10a5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 16/73] fix: lookup table decoder uses the wrong or an empty
 table for self-dual codes

Syndromes are only shared when both check matrices are the same, and generating the Z table
first replaced it by the still empty X table.
---
 src/mqt/qecc/ft_stateprep/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index 6759632..d1fb94b 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -376,7 +376,7 @@ class LutDecoder:
 
         assert self.code.Hz is not None, "The code does not have a Z stabilizer matrix."
         self.x_lut = LutDecoder._generate_lut(self.code.Hz)
-        if self.code.is_self_dual():
+        if np.array_equal(self.code.Hx, self.code.Hz):
             self.z_lut = self.x_lut
 
     def generate_z_lut(self) -> None:
@@ -386,8 +386,8 @@ class LutDecoder:
 
         assert self.code.Hx is not None, "The code does not have an X stabilizer matrix."
         self.z_lut = LutDecoder._generate_lut(self.code.Hx)
-        if self.code.is_self_dual():
-            self.z_lut = self.x_lut
+        if np.array_equal(self.code.Hx, self.code.Hz):
+            self.x_lut = self.z_lut
 
     @staticmethod
     def _generate_lut(checks: npt.NDArray[np.int_]) -> dict[bytes, npt.NDArray[np.int_]]:
-- 
2.43.0


From 46850d0f9b5341a7e53cdbe531170fb9e62068c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 17/73] fix: number of simulated shots is one batch too high
 without a minimum number of errors

---
 src/mqt/qecc/ft_stateprep/simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index d1fb94b..d3c2d34 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -259,10 +259,11 @@ class NoisyNDFTStatePrepSimulator:
             r_a = ((i - 1) * r_a + r_a_batch) / i
 
             if at_least_min_errors and num_logical_errors >= min_errors:
+                i += 1
                 break
             i += 1
 
-        return p_l / self.code.k, r_a, num_logical_errors, i * batch
+        return p_l / self.code.k, r_a, num_logical_errors, (i - 1) * batch
 
     def _simulate_batch(self, shots: int = 1024) -> tuple[int, int]:
         sampler = self.stim_circ.compile_sampler()
-- 
2.43.0


From 071724815e1ef5c36a3fb92dc16f19216d3e5837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 18/73] fix: Decoder::setCode swaps the X and Z check matrices

---
 include/Decoder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Decoder.hpp b/include/Decoder.hpp
index 6973f8a..53e6ae1 100644
--- a/include/Decoder.hpp
+++ b/include/Decoder.hpp
@@ -88,7 +88,7 @@ public:
         if (c.gethX() == nullptr) {
             this->code = std::make_unique<Code>(*c.gethZ()->pcm);
         } else {
-            this->code = std::make_unique<Code>(*c.gethZ()->pcm, *c.gethX()->pcm);
+            this->code = std::make_unique<Code>(*c.gethX()->pcm, *c.gethZ()->pcm);
         }
     }
     virtual void reset() {};
-- 
2.43.0


From 7eda5b071fa24ddfefcbc344ed292c829b25abde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 19/73] fix: UFDecoder estimates do not reproduce the syndrome

Checks are looked up by their vertex index, only bits in the interior of a
component take part in its estimate, inconsistent systems are rejected,
components are searched completely, only invalid components are grown (also
with INVALID_COMPONENTS, which did not grow at all), and both sides of a
two-sided syndrome are decoded with their own check matrix and returned in the
order of the syndrome.
---
 include/UFDecoder.hpp |  18 ++--
 src/UFDecoder.cpp     | 240 +++++++++++++++++++++---------------------
 2 files changed, 132 insertions(+), 126 deletions(-)

diff --git a/include/UFDecoder.hpp b/include/UFDecoder.hpp
index d957791..3272131 100644
--- a/include/UFDecoder.hpp
+++ b/include/UFDecoder.hpp
@@ -5,6 +5,7 @@
 
 #include <cstddef>
 #include <memory>
+#include <optional>
 #include <set>
 #include <vector>
 
@@ -19,12 +20,13 @@ private:
     [[nodiscard]] bool                               isValidComponent(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
     bool                                             containsInvalidComponents(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome,
                                                                                std::vector<std::set<std::size_t>>& invalidComps, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
-    [[nodiscard]] std::vector<std::size_t>           computeInteriorBitNodes(const std::set<std::size_t>& nodeSet) const;
-    [[nodiscard]] std::set<std::size_t>              getEstimateForComponent(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome,
-                                                                             const std::unique_ptr<ParityCheckMatrix>& pcm) const;
-    void                                             standardGrowth(std::set<std::size_t>& comps);
-    void                                             singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet);
-    void                                             singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet);
-    void                                             singleQubitRandomFirstGrowth(std::set<std::size_t>& comps);
-    [[nodiscard]] std::vector<std::set<std::size_t>> getConnectedComps(const std::set<std::size_t>& nodes) const;
+    [[nodiscard]] std::vector<std::size_t>           computeInteriorBitNodes(const std::set<std::size_t>& nodeSet, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
+    [[nodiscard]] std::optional<std::set<std::size_t>> getEstimateForComponent(const std::set<std::size_t>& nodeSet, const std::set<std::size_t>& syndrome,
+                                                                               const std::unique_ptr<ParityCheckMatrix>& pcm) const;
+    void                                             standardGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             invalidComponentsGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& invalidComps, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& invalidComps, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& invalidComps, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    void                                             singleQubitRandomFirstGrowth(std::set<std::size_t>& comps, const std::vector<std::set<std::size_t>>& invalidComps, const std::unique_ptr<ParityCheckMatrix>& pcm);
+    [[nodiscard]] std::vector<std::set<std::size_t>> getConnectedComps(const std::set<std::size_t>& nodes, const std::unique_ptr<ParityCheckMatrix>& pcm) const;
 };
diff --git a/src/UFDecoder.cpp b/src/UFDecoder.cpp
index 6f57938..f6fa80a 100644
--- a/src/UFDecoder.cpp
+++ b/src/UFDecoder.cpp
@@ -10,6 +10,7 @@
 #include <cstdint>
 #include <iterator>
 #include <memory>
+#include <optional>
 #include <queue>
 #include <random>
 #include <set>
@@ -25,18 +26,19 @@ void UFDecoder::decode(const gf2Vec& syndrome) {
     if (syndrome.size() > this->getCode()->gethZ()->pcm->size()) {
         std::vector<bool> xSyndr;
         std::vector<bool> zSyndr;
-        auto              mid = syndrome.begin() + (static_cast<std::int64_t>(syndrome.size()) / 2U);
+        auto              mid = syndrome.begin() + static_cast<std::int64_t>(this->getCode()->gethZ()->pcm->size());
         std::move(syndrome.begin(), mid, std::back_inserter(xSyndr));
         std::move(mid, syndrome.end(), std::back_inserter(zSyndr));
         doDecode(xSyndr, this->getCode()->gethZ());
         auto xres = this->result;
-        this->reset();
         doDecode(zSyndr, this->getCode()->gethX());
-        this->result.decodingTime += xres.decodingTime;
-        std::move(xres.estimBoolVector.begin(), xres.estimBoolVector.end(),
-                  std::back_inserter(this->result.estimBoolVector));
-        std::move(xres.estimNodeIdxVector.begin(), xres.estimNodeIdxVector.end(),
-                  std::back_inserter(this->result.estimNodeIdxVector));
+        // same order as in the error and its syndrome: first the X and then the Z part
+        xres.decodingTime += this->result.decodingTime;
+        std::move(this->result.estimBoolVector.begin(), this->result.estimBoolVector.end(), std::back_inserter(xres.estimBoolVector));
+        for (const auto idx : this->result.estimNodeIdxVector) {
+            xres.estimNodeIdxVector.emplace_back(getCode()->getN() + idx);
+        }
+        this->result = std::move(xres);
     } else {
         this->doDecode(syndrome, getCode()->gethZ()); // X errs per default if single sided
     }
@@ -59,33 +61,38 @@ void UFDecoder::doDecode(const std::vector<bool>& syndrome, const std::unique_pt
             components.insert(s);
         }
 
-        while (containsInvalidComponents(components, syndr, invalidComponents, pcm) &&
-               components.size() < (pcm->pcm->size() + pcm->pcm->front().size())) {
+        while (containsInvalidComponents(components, syndr, invalidComponents, pcm)) {
+            const auto previousSize = components.size();
             if (this->growth == GrowthVariant::AllComponents) {
                 // // grow all components (including valid ones) by 1
-                standardGrowth(components);
+                standardGrowth(components, pcm);
             } else if (this->growth == GrowthVariant::InvalidComponents) {
-                // not implemented yet
+                // grow all components that are not valid by 1
+                invalidComponentsGrowth(components, invalidComponents, pcm);
             } else if (this->growth == GrowthVariant::SingleSmallest) {
-                // grow only by neighbours of single smallest cluster
-                singleClusterSmallestFirstGrowth(components);
+                // grow only by neighbours of single smallest invalid cluster
+                singleClusterSmallestFirstGrowth(components, invalidComponents, pcm);
             } else if (this->growth == GrowthVariant::SingleRandom) {
-                // grow only by neighbours of single random cluster
-                singleClusterRandomFirstGrowth(components);
+                // grow only by neighbours of single random invalid cluster
+                singleClusterRandomFirstGrowth(components, invalidComponents, pcm);
             } else if (this->growth == GrowthVariant::SingleQubitRandom) {
-                // grow only by neighbours of single qubit
-                singleQubitRandomFirstGrowth(components);
+                // grow only by neighbours of single qubit of an invalid cluster
+                singleQubitRandomFirstGrowth(components, invalidComponents, pcm);
             } else {
                 throw std::invalid_argument("Unsupported growth variant");
             }
+            if (components.size() == previousSize) {
+                break; // an invalid component covers everything connected to it: the syndrome has no explanation
+            }
         }
     }
 
     std::vector<std::set<std::size_t>> estims;
-    auto                               ccomps = getConnectedComps(components);
+    auto                               ccomps = getConnectedComps(components, pcm);
     for (const auto& comp : ccomps) {
-        auto compEstimate = getEstimateForComponent(comp, syndr, pcm);
-        estims.emplace_back(compEstimate.begin(), compEstimate.end());
+        if (const auto compEstimate = getEstimateForComponent(comp, syndr, pcm)) {
+            estims.emplace_back(*compEstimate);
+        }
     }
     std::set<std::size_t> tmp;
     for (auto& estim : estims) {
@@ -105,7 +112,7 @@ void UFDecoder::doDecode(const std::vector<bool>& syndrome, const std::unique_pt
 }
 
 /**
- * Checks if there is a component in the list that is not valid
+ * Checks if there are components that are not valid and collects all of them
  * @param nodeSet
  * @param syndrome
  * @return
@@ -114,14 +121,13 @@ bool UFDecoder::containsInvalidComponents(const std::set<std::size_t>&
                                           const std::set<std::size_t>&              syndrome,
                                           std::vector<std::set<std::size_t>>&       invalidComps,
                                           const std::unique_ptr<ParityCheckMatrix>& pcm) const {
-    auto ccomps = getConnectedComps(nodeSet);
-    return std::any_of(ccomps.begin(), ccomps.end(), [&](const auto& comp) {
-        bool const res = isValidComponent(comp, syndrome, pcm);
-        if (!res) {
-            invalidComps.emplace_back(comp.begin(), comp.end());
+    invalidComps.clear();
+    for (const auto& comp : getConnectedComps(nodeSet, pcm)) {
+        if (!isValidComponent(comp, syndrome, pcm)) {
+            invalidComps.emplace_back(comp);
         }
-        return !res;
-    });
+    }
+    return !invalidComps.empty();
 }
 
 /**
@@ -134,7 +140,7 @@ bool UFDecoder::containsInvalidComponents(const std::set<std::size_t>&
 bool UFDecoder::isValidComponent(const std::set<std::size_t>&              nodeSet,
                                  const std::set<std::size_t>&              syndrome,
                                  const std::unique_ptr<ParityCheckMatrix>& pcm) const {
-    return !getEstimateForComponent(nodeSet, syndrome, pcm).empty();
+    return getEstimateForComponent(nodeSet, syndrome, pcm).has_value();
 }
 
 /**
@@ -142,11 +148,12 @@ bool UFDecoder::isValidComponent(const std::set<std::size_t>&              nodeS
  * @param nodeSet
  * @return
  */
-std::vector<std::size_t> UFDecoder::computeInteriorBitNodes(const std::set<std::size_t>& nodeSet) const {
+std::vector<std::size_t> UFDecoder::computeInteriorBitNodes(const std::set<std::size_t>&              nodeSet,
+                                                            const std::unique_ptr<ParityCheckMatrix>& pcm) const {
     std::vector<std::size_t> res;
 
     for (const auto idx : nodeSet) {
-        const auto& nbrs = getCode()->gethZ()->getNbrs(idx);
+        const auto& nbrs = pcm->getNbrs(idx);
         if (idx < getCode()->getN() && std::includes(nodeSet.begin(), nodeSet.end(), nbrs.begin(), nbrs.end())) {
             res.emplace_back(idx);
         }
@@ -155,63 +162,55 @@ std::vector<std::size_t> UFDecoder::computeInteriorBitNodes(const std::set<std::
 }
 
 /**
- * Computes estimate vector x for a component and a syndrome. This is done by considering all vertices in Tanner Graph
- * that are in the Interior of the given node set and additionally the neighbours of the bit vertices in the interior.
- * Then, using Gaussian elimination, it is checked whether a solution for the local cluster that is consistent with the syndrome
- * can be found. If so, this local estimate is returned.
+ * Computes estimate vector x for a component and a syndrome. This is done by considering all bit vertices in the
+ * interior of the given node set, all of whose checks are in the node set by definition. Using Gaussian elimination,
+ * it is checked whether there is a set of these bits whose syndrome equals the given syndrome on the checks of the node set.
+ * If so, this local estimate is returned, otherwise nothing.
  * @param nodeSet
  * @param syndrome
  * @return
  */
-std::set<std::size_t> UFDecoder::getEstimateForComponent(const std::set<std::size_t>&              nodeSet,
-                                                         const std::set<std::size_t>&              syndrome,
-                                                         const std::unique_ptr<ParityCheckMatrix>& pcm) const {
-    if (computeInteriorBitNodes(nodeSet).empty()) {
-        return {};
-    }
-
-    gf2Mat            redHz;
-    gf2Vec            redSyndr(0);
-    std::vector<bool> used(pcm->pcm->size());
-
+std::optional<std::set<std::size_t>> UFDecoder::getEstimateForComponent(const std::set<std::size_t>&              nodeSet,
+                                                                        const std::set<std::size_t>&              syndrome,
+                                                                        const std::unique_ptr<ParityCheckMatrix>& pcm) const {
+    const auto            interior = computeInteriorBitNodes(nodeSet, pcm);
+    gf2Mat                redHz;
+    std::vector<uint64_t> redSyndr;
     for (const auto it : nodeSet) {
         if (it >= getCode()->getN()) { // is a check node
-            if (!used.at(it - getCode()->getN())) {
-                redHz.emplace_back(pcm->pcm->at(it - getCode()->getN()));
-                used.at(it - getCode()->getN()) = true;
-                if (syndrome.find(it - getCode()->getN()) != syndrome.end()) {
-                    redSyndr.emplace_back(1); // If the check node is in the syndrome we need to satisfy check=1
-                } else {
-                    redSyndr.emplace_back(0);
-                }
-            }
-        } else { // is a bit node
-            const auto nbrs = this->getCode()->gethZ()->getNbrs(it);
-            for (auto n : nbrs) { // add neighbouring checks (these are maybe not in the interior but to stay consistent with the syndrome we need to include these in the check)
-                if (!used.at(n - getCode()->getN())) {
-                    redHz.emplace_back(pcm->pcm->at(n - getCode()->getN()));
-                    if (syndrome.find(n) != syndrome.end()) {
-                        redSyndr.emplace_back(1);
-                    } else {
-                        redSyndr.emplace_back(0);
-                    }
-                    used.at(n - getCode()->getN()) = true;
-                }
+            const auto& check = pcm->pcm->at(it - getCode()->getN());
+            gf2Vec      row(interior.size());
+            for (std::size_t i = 0; i < interior.size(); i++) {
+                row.at(i) = check.at(interior.at(i));
             }
+            redHz.emplace_back(std::move(row));
+            redSyndr.emplace_back(syndrome.find(it) != syndrome.end() ? 1U : 0U); // checks in the syndrome have to be violated, all others not
         }
     }
-    auto                  redHzCsc = Utils::toCsc(redHz);
-    std::vector<uint64_t> redSyndInt(redSyndr.size());
-    for (std::size_t i = 0; i < redSyndr.size(); i++) {
-        redSyndInt.at(i) = redSyndr.at(i) ? 1 : 0;
-    }
-    auto pluDec = PluDecomposition(redHz.size(), redHz.at(0).size(), redHzCsc);
-    auto estim  = pluDec.luSolve(redSyndInt); // solves the system redHz*x=redSyndr by x to see if a solution can be found
 
     std::set<std::size_t> res;
+    if (std::all_of(redSyndr.begin(), redSyndr.end(), [](const auto v) { return v == 0U; })) {
+        return res;
+    }
+    if (interior.empty()) {
+        return std::nullopt;
+    }
+    auto       pluDec = PluDecomposition(redHz.size(), interior.size(), Utils::toCsc(redHz));
+    const auto estim  = pluDec.luSolve(redSyndr); // solves the system redHz*x=redSyndr by x if there is a solution
+    for (std::size_t i = 0; i < redHz.size(); i++) {
+        uint64_t parity = 0U;
+        for (std::size_t j = 0; j < estim.size(); j++) {
+            if (redHz.at(i).at(j)) {
+                parity ^= estim.at(j);
+            }
+        }
+        if (parity != redSyndr.at(i)) {
+            return std::nullopt; // no solution exists
+        }
+    }
     for (std::size_t i = 0; i < estim.size(); i++) {
         if (estim.at(i) != 0U) {
-            res.emplace(i);
+            res.emplace(interior.at(i));
         }
     }
     return res;
@@ -221,9 +220,9 @@ std::set<std::size_t> UFDecoder::getEstimateForComponent(const std::set<std::siz
  * Grows the node set by the neighbours of ALL clusters
  * @param comps
  */
-void UFDecoder::standardGrowth(std::set<std::size_t>& comps) {
+void UFDecoder::standardGrowth(std::set<std::size_t>& comps, const std::unique_ptr<ParityCheckMatrix>& pcm) {
     for (auto currCompIt = comps.begin(); currCompIt != comps.end(); currCompIt++) {
-        const auto nbrs = getCode()->gethZ()->getNbrs(*currCompIt);
+        const auto nbrs = pcm->getNbrs(*currCompIt);
         for (auto n : nbrs) {
             comps.insert(n);
         }
@@ -231,43 +230,43 @@ void UFDecoder::standardGrowth(std::set<std::size_t>& comps) {
 }
 
 /**
- * Grows the node set by the neighbours of the single smallest cluster
+ * Grows the node set by the neighbours of all invalid clusters
  * @param nodeSet
  */
-void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet) {
-    auto                  ccomps = getConnectedComps(nodeSet);
-    std::set<std::size_t> smallestComponent;
-    std::size_t           smallestSize = SIZE_MAX;
-    for (const auto& cId : ccomps) {
-        if (cId.size() < smallestSize) {
-            smallestComponent = cId;
-            smallestSize      = cId.size();
+void UFDecoder::invalidComponentsGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& invalidComps,
+                                        const std::unique_ptr<ParityCheckMatrix>& pcm) {
+    for (const auto& comp : invalidComps) {
+        for (auto node : comp) {
+            const auto& nbrs = pcm->getNbrs(node);
+            nodeSet.insert(nbrs.begin(), nbrs.end());
         }
     }
+}
 
+/**
+ * Grows the node set by the neighbours of the single smallest invalid cluster
+ * @param nodeSet
+ */
+void UFDecoder::singleClusterSmallestFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& invalidComps,
+                                                 const std::unique_ptr<ParityCheckMatrix>& pcm) {
+    const auto& smallestComponent = *std::min_element(invalidComps.begin(), invalidComps.end(), [](const auto& a, const auto& b) { return a.size() < b.size(); });
     for (auto node : smallestComponent) {
-        const auto& nbrs = getCode()->gethZ()->getNbrs(node);
+        const auto& nbrs = pcm->getNbrs(node);
         nodeSet.insert(nbrs.begin(), nbrs.end());
     }
 }
 
 /**
- * Grows the node set by the neighbours of a single random cluster
+ * Grows the node set by the neighbours of a single random invalid cluster
  * @param nodeSet
  */
-void UFDecoder::singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet) {
-    auto                          ccomps = getConnectedComps(nodeSet);
-    std::set<std::size_t>         chosenComponent;
+void UFDecoder::singleClusterRandomFirstGrowth(std::set<std::size_t>& nodeSet, const std::vector<std::set<std::size_t>>& invalidComps,
+                                               const std::unique_ptr<ParityCheckMatrix>& pcm) {
     std::random_device            rd;
     std::mt19937                  gen(rd());
-    std::uniform_int_distribution d(static_cast<std::size_t>(0U), ccomps.size() - 1);
-    const std::size_t             chosenIdx = d(gen);
-    auto                          it        = ccomps.begin();
-    std::advance(it, chosenIdx);
-    chosenComponent = *it;
-
-    for (auto node : chosenComponent) {
-        const auto& nbrs = getCode()->gethZ()->getNbrs(node);
+    std::uniform_int_distribution d(static_cast<std::size_t>(0U), invalidComps.size() - 1);
+    for (auto node : invalidComps.at(d(gen))) {
+        const auto& nbrs = pcm->getNbrs(node);
         nodeSet.insert(nbrs.begin(), nbrs.end());
     }
 }
@@ -281,22 +280,27 @@ void UFDecoder::reset() {
 }
 
 /**
- * Grows the node set by the neighbours of a single random qubit
+ * Grows the node set by the neighbours of a single random node of a random invalid cluster
  * @param comps
  */
-void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps) {
-    auto                          ccomps = getConnectedComps(comps);
-    std::set<std::size_t>         chosenComponent;
+void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps, const std::vector<std::set<std::size_t>>& invalidComps,
+                                             const std::unique_ptr<ParityCheckMatrix>& pcm) {
     std::random_device            rd;
     std::mt19937                  gen(rd());
-    std::uniform_int_distribution d(static_cast<std::size_t>(0U), ccomps.size());
-    const std::size_t             chosenIdx = d(gen);
-    auto                          it        = ccomps.begin();
-    std::advance(it, chosenIdx);
-    chosenComponent = *it;
+    std::uniform_int_distribution d(static_cast<std::size_t>(0U), invalidComps.size() - 1);
 
-    const auto& nbrs = getCode()->gethZ()->getNbrs(*chosenComponent.begin());
-    comps.insert(nbrs.begin(), nbrs.end());
+    std::vector<std::size_t> candidates; // nodes of the chosen cluster that have neighbours outside of it
+    for (auto node : invalidComps.at(d(gen))) {
+        const auto& nbrs = pcm->getNbrs(node);
+        if (std::any_of(nbrs.begin(), nbrs.end(), [&](const auto n) { return comps.find(n) == comps.end(); })) {
+            candidates.emplace_back(node);
+        }
+    }
+    if (!candidates.empty()) {
+        std::uniform_int_distribution nodeDist(static_cast<std::size_t>(0U), candidates.size() - 1);
+        const auto&                   nbrs = pcm->getNbrs(candidates.at(nodeDist(gen)));
+        comps.insert(nbrs.begin(), nbrs.end());
+    }
 }
 
 /**
@@ -305,7 +309,7 @@ void UFDecoder::singleQubitRandomFirstGrowth(std::set<std::size_t>& comps) {
  * @return
  */
 std::vector<std::set<std::size_t>>
-UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes) const {
+UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes, const std::unique_ptr<ParityCheckMatrix>& pcm) const {
     std::set<std::size_t>              visited;
     std::vector<std::set<std::size_t>> res;
 
@@ -314,17 +318,17 @@ UFDecoder::getConnectedComps(const std::set<std::size_t>& nodes) const {
             visited.insert(c);
             std::set<std::size_t> ccomp;
 
-            std::queue<std::size_t> stack;
-            stack.push(c);
-            while (!stack.empty()) { // use DFS-like algorithm to compute connected component containing node 'c'
-                auto curr = stack.back();
-                stack.pop();
+            std::queue<std::size_t> queue;
+            queue.push(c);
+            while (!queue.empty()) { // use BFS-like algorithm to compute connected component containing node 'c'
+                auto curr = queue.front();
+                queue.pop();
                 if (ccomp.find(curr) == ccomp.end()) {
                     ccomp.insert(curr);
-                    auto nbrs = getCode()->gethZ()->getNbrs(curr);
+                    auto nbrs = pcm->getNbrs(curr);
                     for (auto n : nbrs) {
                         if (ccomp.find(n) == ccomp.end() && nodes.find(n) != nodes.end()) {
-                            stack.push(n);
+                            queue.push(n);
                             visited.insert(n);
                         }
                     }
-- 
2.43.0


From b9c05138acc33c3d824b5a6c046f65c0204f3256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 20/73] fix: UFHeuristic results depend on earlier decodings
 and Z errors are decoded with the Z checks

Also, neighbours outside of a component do not make a check of it valid, and
the two parts of a two-sided estimate are in the order of the syndrome.
---
 src/UFHeuristic.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/UFHeuristic.cpp b/src/UFHeuristic.cpp
index 64cf917..7e71e0e 100644
--- a/src/UFHeuristic.cpp
+++ b/src/UFHeuristic.cpp
@@ -48,16 +48,19 @@ void UFHeuristic::decode(const gf2Vec& syndrome) {
     if (syndrome.size() > this->getCode()->gethZ()->pcm->size()) {
         std::vector<bool> xSyndr;
         std::vector<bool> zSyndr;
-        auto              mid = syndrome.begin() + (static_cast<std::int64_t>(std::size(syndrome)) / 2U);
+        auto              mid = syndrome.begin() + static_cast<std::int64_t>(this->getCode()->gethZ()->pcm->size());
         std::move(syndrome.begin(), mid, std::back_inserter(xSyndr));
         std::move(mid, syndrome.end(), std::back_inserter(zSyndr));
         doDecoding(xSyndr, this->getCode()->gethZ());
         auto xres = this->result;
-        this->reset();
-        doDecoding(zSyndr, this->getCode()->gethZ());
-        this->result.decodingTime += xres.decodingTime;
-        std::move(xres.estimBoolVector.begin(), xres.estimBoolVector.end(), std::back_inserter(this->result.estimBoolVector));
-        std::move(xres.estimNodeIdxVector.begin(), xres.estimNodeIdxVector.end(), std::back_inserter(this->result.estimNodeIdxVector));
+        doDecoding(zSyndr, this->getCode()->gethX());
+        // same order as in the error and its syndrome: first the X and then the Z part
+        xres.decodingTime += this->result.decodingTime;
+        std::move(this->result.estimBoolVector.begin(), this->result.estimBoolVector.end(), std::back_inserter(xres.estimBoolVector));
+        for (const auto idx : this->result.estimNodeIdxVector) {
+            xres.estimNodeIdxVector.emplace_back(getCode()->getN() + idx);
+        }
+        this->result = std::move(xres);
     } else {
         this->doDecoding(syndrome, getCode()->gethZ()); // X errs per default if single sided
     }
@@ -69,11 +72,12 @@ void UFHeuristic::decode(const gf2Vec& syndrome) {
 void UFHeuristic::doDecoding(const gf2Vec& syndrome, const std::unique_ptr<ParityCheckMatrix>& pcm) {
     auto                     decodingTimeBegin = std::chrono::high_resolution_clock::now();
     std::vector<std::size_t> res;
+    nodeMap.clear(); // clusters of a previous decoding must not influence this one
     if (!syndrome.empty() && !std::all_of(syndrome.begin(), syndrome.end(), [](bool val) { return !val; })) {
         auto                            syndrComponents   = computeInitTreeComponents(syndrome);
         auto                            invalidComponents = syndrComponents;
         std::unordered_set<std::size_t> erasure;
-        while (!invalidComponents.empty() && invalidComponents.size() < (this->getCode()->gethZ()->pcm->size() + getCode()->gethZ()->pcm->front().size())) {
+        while (!invalidComponents.empty() && invalidComponents.size() < (pcm->pcm->size() + pcm->pcm->front().size())) {
             // Step 1 growth
             std::vector<std::pair<std::size_t, std::size_t>> fusionEdges;
             std::unordered_map<std::size_t, bool>            presentMap; // for step 4
@@ -348,7 +352,8 @@ bool UFHeuristic::isValidComponent(const std::size_t& compId, const std::unique_
     for (const auto& checkVertex : compNode->checkVertices) {
         const auto& nbrs = pcm->getNbrs(checkVertex);
         for (const auto& nbr : nbrs) {
-            if (compNode->boundaryVertices.find(nbr) == compNode->boundaryVertices.end()) {
+            if (compNode->boundaryVertices.find(nbr) == compNode->boundaryVertices.end() &&
+                TreeNode::Find(getNodeFromIdx(nbr))->vertexIdx == compId) { // neighbours outside of the component are not in its interior
                 valid.at(i) = true;
                 break;
             }
-- 
2.43.0


From c54ac27b9c78af03b47ab95cc5dda75d8d68c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 21/73] fix: Q5Laflamme and Q7Steane measure the qubit with the
 index of the classical bit into the bit with the index of the qubit

---
 src/ecc/Q5Laflamme.cpp |  4 ++--
 src/ecc/Q7Steane.cpp   | 13 ++-----------
 2 files changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/ecc/Q5Laflamme.cpp b/src/ecc/Q5Laflamme.cpp
index 1e40ef5..8ddcf0d 100644
--- a/src/ecc/Q5Laflamme.cpp
+++ b/src/ecc/Q5Laflamme.cpp
@@ -161,8 +161,8 @@ void Q5Laflamme::mapGate(const qc::Operation& gate) {
         if (const auto* measureGate =
                     dynamic_cast<const qc::NonUnitaryOperation*>(&gate)) {
             for (std::size_t j = 0; j < measureGate->getNclassics(); j++) {
-                qcMapped->measure(static_cast<Qubit>(measureGate->getClassics().at(j)),
-                                  measureGate->getTargets().at(j));
+                qcMapped->measure(measureGate->getTargets().at(j),
+                                  measureGate->getClassics().at(j));
             }
         } else {
             throw std::runtime_error("Dynamic cast to NonUnitaryOperation failed.");
diff --git a/src/ecc/Q7Steane.cpp b/src/ecc/Q7Steane.cpp
index 6eb077b..9907cbf 100644
--- a/src/ecc/Q7Steane.cpp
+++ b/src/ecc/Q7Steane.cpp
@@ -205,17 +205,8 @@ void Q7Steane::mapGate(const qc::Operation& gate) {
         if (const auto* measureGate =
                     dynamic_cast<const qc::NonUnitaryOperation*>(&gate)) {
             for (std::size_t j = 0; j < measureGate->getNclassics(); j++) {
-                auto classicalRegisterName =
-                        qcOriginal->getClassicalRegister(measureGate->getTargets().at(j));
-                if (!classicalRegisterName.empty()) {
-                    qcMapped->measure(
-                            static_cast<Qubit>(measureGate->getClassics().at(j)),
-                            {classicalRegisterName, measureGate->getTargets().at(j)});
-                } else {
-                    qcMapped->measure(
-                            static_cast<Qubit>(measureGate->getClassics().at(j)),
-                            measureGate->getTargets().at(j));
-                }
+                qcMapped->measure(measureGate->getTargets().at(j),
+                                  measureGate->getClassics().at(j));
             }
         } else {
             throw std::runtime_error("Dynamic cast to NonUnitaryOperation failed.");
-- 
2.43.0


From bab31ae3654b75e2a95db5664c2df8075b1bd3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 22/73] fix: decoding of the surface codes overwrites classical
 bits of the circuit

---
 src/ecc/Q18Surface.cpp | 1 -
 src/ecc/Q9Surface.cpp  | 6 +-----
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/ecc/Q18Surface.cpp b/src/ecc/Q18Surface.cpp
index ff44ba5..dfb7f32 100644
--- a/src/ecc/Q18Surface.cpp
+++ b/src/ecc/Q18Surface.cpp
@@ -79,7 +79,6 @@ void Q18Surface::writeDecoding() {
             qcMapped->cx(static_cast<Qubit>(i + qubit * nQubits),
                          static_cast<Qubit>(i + X_INFORMATION * nQubits));
         }
-        qcMapped->measure(static_cast<Qubit>(i + X_INFORMATION * nQubits), i);
         qcMapped->reset(i);
         qcMapped->cx(static_cast<Qubit>(i + X_INFORMATION * nQubits), i);
     }
diff --git a/src/ecc/Q9Surface.cpp b/src/ecc/Q9Surface.cpp
index 4322450..93ed79d 100644
--- a/src/ecc/Q9Surface.cpp
+++ b/src/ecc/Q9Surface.cpp
@@ -106,13 +106,9 @@ void Q9Surface::writeDecoding() {
     }
     const auto nQubits = qcOriginal->getNqubits();
     for (std::size_t i = 0; i < nQubits; i++) {
-        // measure 0, 4, 8. state = m0*m4*m8
-        qcMapped->measure(static_cast<Qubit>(i), i);
-        qcMapped->measure(static_cast<Qubit>(i + 4 * nQubits), i);
-        qcMapped->measure(static_cast<Qubit>(i + 8 * nQubits), i);
+        // state = parity of 0, 4, 8. The classical bits of the circuit are only written by its own measurements
         qcMapped->cx(static_cast<Qubit>(i + 4 * nQubits), static_cast<Qubit>(i));
         qcMapped->cx(static_cast<Qubit>(i + 8 * nQubits), static_cast<Qubit>(i));
-        qcMapped->measure(static_cast<Qubit>(i), i);
     }
     isDecoded = true;
 }
-- 
2.43.0


From 3f9c423a56f1da606b239f9212eb322cd19ac732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 23/73] fix: classical registers of encoded circuits are
 ordered by hash instead of by bit index

---
 src/ecc/Ecc.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ecc/Ecc.cpp b/src/ecc/Ecc.cpp
index 2a1a168..82c2e85 100644
--- a/src/ecc/Ecc.cpp
+++ b/src/ecc/Ecc.cpp
@@ -3,15 +3,22 @@
 #include "ir/QuantumComputation.hpp"
 
 #include <cstddef>
+#include <map>
 #include <memory>
+#include <string>
+#include <utility>
 
 namespace ecc {
 void Ecc::initMappedCircuit() {
     qcOriginal->stripIdleQubits(true, false);
     qcMapped->addQubitRegister(getNOutputQubits(qcOriginal->getNqubits()));
-    auto cRegs = qcOriginal->getCregs();
-    for (auto const& [regName, regBits] : cRegs) {
-        qcMapped->addClassicalRegister(regBits.second, regName);
+    // classical bits are addressed by their index, so the registers have to be in the order of the original circuit
+    std::map<std::size_t, std::pair<std::string, std::size_t>> cRegs;
+    for (auto const& [regName, regBits] : qcOriginal->getCregs()) {
+        cRegs[regBits.first] = {regName, regBits.second};
+    }
+    for (auto const& [regStart, reg] : cRegs) {
+        qcMapped->addClassicalRegister(reg.second, reg.first);
     }
     for (auto const& [regBits, regName] : ecc.classicalRegisters) {
         qcMapped->addClassicalRegister(regBits, regName);
-- 
2.43.0


From 8feae753239f9f0b3977ae6ba903a61279054292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:04 +0000
Subject: [PATCH 24/73] fix: idle qubits make encoded circuits use overlapping
 physical qubits

---
 src/ecc/Ecc.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ecc/Ecc.cpp b/src/ecc/Ecc.cpp
index 82c2e85..129d067 100644
--- a/src/ecc/Ecc.cpp
+++ b/src/ecc/Ecc.cpp
@@ -10,7 +10,6 @@
 
 namespace ecc {
 void Ecc::initMappedCircuit() {
-    qcOriginal->stripIdleQubits(true, false);
     qcMapped->addQubitRegister(getNOutputQubits(qcOriginal->getNqubits()));
     // classical bits are addressed by their index, so the registers have to be in the order of the original circuit
     std::map<std::size_t, std::pair<std::string, std::size_t>> cRegs;
-- 
2.43.0


From a944e21d9cb115402ce031423d2c19769f4d4979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 25/73] fix: Q5Laflamme encoding does not reset the ancilla
 between logical qubits

---
 src/ecc/Q5Laflamme.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/ecc/Q5Laflamme.cpp b/src/ecc/Q5Laflamme.cpp
index 8ddcf0d..2333f16 100644
--- a/src/ecc/Q5Laflamme.cpp
+++ b/src/ecc/Q5Laflamme.cpp
@@ -22,9 +22,6 @@ void Q5Laflamme::writeEncoding() {
 
     for (Qubit i = 0; i < nQubits; i++) {
         qcMapped->reset(ancStart);
-    }
-
-    for (Qubit i = 0; i < nQubits; i++) {
         qcMapped->h(ancStart);
         for (std::size_t j = 0; j < ecc.nRedundantQubits; j++) {
             qcMapped->cz(ancStart, static_cast<Qubit>(i + j * nQubits));
-- 
2.43.0


From 24d6116c96e7913314fe8c543123a20d8c741cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:30 +0000
Subject: [PATCH 26/73] fix: Q7Steane applies controlled-(-Y) for cy and
 transversal gates that are not the logical ones for ch, cs and
 multi-controlled gates

---
 include/ecc/Q7Steane.hpp |  3 +-
 src/ecc/Q7Steane.cpp     | 60 ++++++++++++++++++----------------------
 2 files changed, 28 insertions(+), 35 deletions(-)

diff --git a/include/ecc/Q7Steane.hpp b/include/ecc/Q7Steane.hpp
index 7377976..f244931 100644
--- a/include/ecc/Q7Steane.hpp
+++ b/include/ecc/Q7Steane.hpp
@@ -32,8 +32,7 @@ protected:
 
     void mapGate(const qc::Operation& gate) override;
 
-    void addSOperation(const qc::Controls& controls, const qc::Targets& targets,
-                       qc::OpType type);
+    void addSOperation(const qc::Targets& targets, qc::OpType type);
 
     static constexpr std::size_t N_REDUNDANT_QUBITS = 7;
     static constexpr std::size_t N_CORRECTING_BITS  = 3;
diff --git a/src/ecc/Q7Steane.cpp b/src/ecc/Q7Steane.cpp
index 9907cbf..a0c66a2 100644
--- a/src/ecc/Q7Steane.cpp
+++ b/src/ecc/Q7Steane.cpp
@@ -123,38 +123,18 @@ void Q7Steane::writeDecoding() {
     isDecoded = true;
 }
 
-void Q7Steane::addSOperation(const qc::Controls& controls,
-                             const qc::Targets&  targets,
-                             const qc::OpType    type) {
-    const auto numTargets  = targets.size();
-    const auto numControls = controls.size();
-    const auto numQubits   = qcOriginal->getNqubits();
-
-    for (std::size_t k = 0; k < numTargets; k++) {
-        auto i = targets[k];
-        if (numControls > 0) {
-            for (std::size_t j = 0; j < N_REDUNDANT_QUBITS; j++) {
-                qc::Controls controls2;
-                for (const auto& ct : controls) {
-                    controls2.emplace(static_cast<Qubit>(ct.qubit + j * numQubits),
-                                      ct.type);
-                }
-                qcMapped->emplace_back<qc::StandardOperation>(
-                        controls2, static_cast<Qubit>(i + j * numQubits), type);
-                qcMapped->emplace_back<qc::StandardOperation>(
-                        controls2, static_cast<Qubit>(i + j * numQubits), type);
-                qcMapped->emplace_back<qc::StandardOperation>(
-                        controls2, static_cast<Qubit>(i + j * numQubits), type);
-            }
-        } else {
-            for (std::size_t j = 0; j < N_REDUNDANT_QUBITS; j++) {
-                qcMapped->emplace_back<qc::StandardOperation>(
-                        static_cast<Qubit>(i + j * numQubits), type);
-                qcMapped->emplace_back<qc::StandardOperation>(
-                        static_cast<Qubit>(i + j * numQubits), type);
-                qcMapped->emplace_back<qc::StandardOperation>(
-                        static_cast<Qubit>(i + j * numQubits), type);
-            }
+void Q7Steane::addSOperation(const qc::Targets& targets,
+                             const qc::OpType   type) {
+    const auto numQubits = qcOriginal->getNqubits();
+
+    for (const auto i : targets) {
+        for (std::size_t j = 0; j < N_REDUNDANT_QUBITS; j++) {
+            qcMapped->emplace_back<qc::StandardOperation>(
+                    static_cast<Qubit>(i + j * numQubits), type);
+            qcMapped->emplace_back<qc::StandardOperation>(
+                    static_cast<Qubit>(i + j * numQubits), type);
+            qcMapped->emplace_back<qc::StandardOperation>(
+                    static_cast<Qubit>(i + j * numQubits), type);
         }
     }
 }
@@ -174,6 +154,9 @@ void Q7Steane::mapGate(const qc::Operation& gate) {
     case qc::Z:
         for (auto i : gate.getTargets()) {
             if (gate.getNcontrols() != 0U) {
+                if (gate.getNcontrols() > 1U || gate.getType() == qc::H) {
+                    gateNotAvailableError(gate); // not a Clifford gate, therefore not transversal
+                }
                 const auto& ctrls = gate.getControls();
                 for (std::size_t j = 0; j < N_REDUNDANT_QUBITS; j++) {
                     qc::Controls ctrls2;
@@ -184,6 +167,14 @@ void Q7Steane::mapGate(const qc::Operation& gate) {
                     qcMapped->emplace_back<qc::StandardOperation>(
                             ctrls2, static_cast<Qubit>(i + j * nQubits), gate.getType());
                 }
+                if (gate.getType() == qc::Y) {
+                    // seven Y's are a logical -Y, the sign has to be controlled as well
+                    for (const auto& ct : ctrls) {
+                        for (std::size_t j = 0; j < N_REDUNDANT_QUBITS; j++) {
+                            qcMapped->z(static_cast<Qubit>(ct.qubit + j * nQubits));
+                        }
+                    }
+                }
             } else {
                 for (std::size_t j = 0; j < N_REDUNDANT_QUBITS; j++) {
                     qcMapped->emplace_back<qc::StandardOperation>(
@@ -195,7 +186,10 @@ void Q7Steane::mapGate(const qc::Operation& gate) {
         // locigal S = 3 physical S's
     case qc::S:
     case qc::Sdg:
-        addSOperation(gate.getControls(), gate.getTargets(), gate.getType());
+        if (gate.getNcontrols() != 0U) {
+            gateNotAvailableError(gate);
+        }
+        addSOperation(gate.getTargets(), gate.getType());
         break;
     case qc::Measure:
         if (!isDecoded) {
-- 
2.43.0


From 718a7194917bfd990fa2f2ac99864a5fe30a2107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:30 +0000
Subject: [PATCH 27/73] fix: Q9Shor applies multi-controlled gates
 transversally although they are not the logical ones

---
 src/ecc/Q9Shor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecc/Q9Shor.cpp b/src/ecc/Q9Shor.cpp
index 4ba521c..61a96f8 100644
--- a/src/ecc/Q9Shor.cpp
+++ b/src/ecc/Q9Shor.cpp
@@ -185,6 +185,9 @@ void Q9Shor::mapGate(const qc::Operation& gate) {
     for (std::size_t t = 0; t < gate.getNtargets(); t++) {
         auto i = gate.getTargets()[t];
 
+        if (gate.getNcontrols() > 1U) {
+            gateNotAvailableError(gate); // not transversal
+        }
         if (gate.getNcontrols() != 0U) {
             // Q9Shor code: put H gate before and after each control point, i.e. "cx
             // 0,1" becomes "h0; cz 0,1; h0"
-- 
2.43.0


From 5c846873402284409c5ce05aedd8453df5abc22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 28/73] fix: Q9Surface swaps qubits for H so that checks are
 not mapped to checks

---
 include/ecc/Q9Surface.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ecc/Q9Surface.hpp b/include/ecc/Q9Surface.hpp
index 77c537c..18ce9d4 100644
--- a/include/ecc/Q9Surface.hpp
+++ b/include/ecc/Q9Surface.hpp
@@ -47,7 +47,8 @@ private:
     std::set<Qubit>                                         uncorrectedZQubits = {0, 8};
     static constexpr std::array<Qubit, 3>                   LOGICAL_X          = {2, 4, 6};
     static constexpr std::array<Qubit, 3>                   LOGICAL_Z          = {0, 4, 8};
-    static constexpr std::array<std::pair<Qubit, Qubit>, 4> SWAP_INDICES       = {
-            {{0, 6}, {3, 7}, {2, 8}, {1, 5}}};
+    // one after the other, these rotate the lattice by 90 degrees, which exchanges X- and Z-checks
+    static constexpr std::array<std::pair<Qubit, Qubit>, 6> SWAP_INDICES = {
+            {{0, 6}, {6, 8}, {8, 2}, {1, 3}, {3, 7}, {7, 5}}};
 };
 } // namespace ecc
-- 
2.43.0


From 567d1777c10678dd4f506cf0eab3d35b2c057c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:13 +0000
Subject: [PATCH 29/73] fix: simulate_wer writes statistics that are not valid
 JSON and leave out the simulated errors

---
 src/DecodingSimulator.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/DecodingSimulator.cpp b/src/DecodingSimulator.cpp
index 232def8..d386841 100644
--- a/src/DecodingSimulator.cpp
+++ b/src/DecodingSimulator.cpp
@@ -54,12 +54,14 @@ void DecodingSimulator::simulateWER(const std::string& rawDataOutputFilepath,
         statisticsOutstr.open(jsonFileName);
         std::cout << "Writing stats output to " << jsonFileName << '\n';
         statisticsOutstr << "{ \"runs\" : [ ";
-        statisticsOutstr << R"({ "run": { "physicalErrRate":)" << minPhysicalErrRate << ", \"data\": [ ";
     }
 
     auto currPer = minPhysicalErrRate;
     while (currPer < maxPhysicalErrRate) {
         auto nrOfFailedRuns = 0;
+        if (statsOut) {
+            statisticsOutstr << (currPer > minPhysicalErrRate ? ", " : "") << R"({ "run": { "physicalErrRate":)" << currPer << ", \"data\": [ ";
+        }
         for (std::size_t j = 0; j < nrRunsPerRate; j++) {
             std::unique_ptr<Decoder> decoder;
             if (decoderType == DecoderType::UfDecoder) {
@@ -79,7 +81,11 @@ void DecodingSimulator::simulateWER(const std::string& rawDataOutputFilepath,
             const auto success = decoder->getCode()->isXStabilizer(residualErr);
 
             DecodingRunInformation stats;
-            stats.result = decoder->result;
+            stats.result       = decoder->result;
+            stats.physicalErrR = currPer;
+            stats.codeSize     = code.getN();
+            stats.error        = error;
+            stats.syndrome     = syndrome;
             if (success) {
                 stats.status = SUCCESS;
             } else {
@@ -93,6 +99,9 @@ void DecodingSimulator::simulateWER(const std::string& rawDataOutputFilepath,
                 }
             }
         }
+        if (statsOut) {
+            statisticsOutstr << " ] } }";
+        }
         // compute word error rate WER
         const auto blockErrRate = static_cast<double>(nrOfFailedRuns) / static_cast<double>(nrRunsPerRate);
         const auto wordErrRate  = blockErrRate / static_cast<double>(code.getK());       // rate of codewords re decoder does not give correct answer (fails or introduces logical operator)
@@ -101,7 +110,7 @@ void DecodingSimulator::simulateWER(const std::string& rawDataOutputFilepath,
         currPer += perStepSize;
     }
 
-    statisticsOutstr << "}";
+    statisticsOutstr << " ] }";
     const json dataj = wordErrRatePerPhysicalErrRate;
     rawDataOutput << dataj.dump(2U);
     statisticsOutstr.close();
-- 
2.43.0


From 4c359cfaf9223b2c5683ffd11fffefa21760125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:15 +0000
Subject: [PATCH 30/73] fix: LightsOut cannot solve any pattern after one that
 has no solution

---
 src/mqt/qecc/cc_decoder/decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/qecc/cc_decoder/decoder.py b/src/mqt/qecc/cc_decoder/decoder.py
index deb4294..5eef40b 100644
--- a/src/mqt/qecc/cc_decoder/decoder.py
+++ b/src/mqt/qecc/cc_decoder/decoder.py
@@ -109,6 +109,8 @@ class LightsOut:
             start = timer()
             result = self.optimizer.check()
             solve_time = timer() - start
+            if str(result) != "sat":
+                self.optimizer.pop()  # patterns without a solution must not affect later ones
             assert str(result) == "sat", "No solution found"
 
             # validate the model
-- 
2.43.0


From a8fda3a5cc2efbcfece1f1399f2b1b61396ccbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:21 +0000
Subject: [PATCH 31/73] fix: stabilizer generators of which only some carry a
 sign are refused

---
 src/mqt/qecc/codes/stabilizer_code.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/stabilizer_code.py b/src/mqt/qecc/codes/stabilizer_code.py
index 491a4c0..5fe51c2 100644
--- a/src/mqt/qecc/codes/stabilizer_code.py
+++ b/src/mqt/qecc/codes/stabilizer_code.py
@@ -124,7 +124,9 @@ class StabilizerCode:
         if len(generators) == 0:
             msg = "Stabilizer code must have at least one generator."
             raise InvalidStabilizerCodeError(msg)
-        if not all(len(generators[0]) == len(g) for g in generators):
+        # a sign is not part of the length of a Pauli string
+        lengths = {len(g.lstrip("+-")) if isinstance(g, str) else len(g) for g in generators}
+        if len(lengths) != 1:
             msg = "All stabilizer generators must have the same length."
             raise InvalidStabilizerCodeError(msg)
 
-- 
2.43.0


From a8971f9e1c8dd8aa0a90922c8baeae0216fcfc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 32/73] fix: the 90-qubit bivariate bicycle code has distance 2
 because the two cyclic orders are swapped

---
 src/mqt/qecc/codes/bb_codes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/codes/bb_codes.py b/src/mqt/qecc/codes/bb_codes.py
index 049bcdf..09279ea 100644
--- a/src/mqt/qecc/codes/bb_codes.py
+++ b/src/mqt/qecc/codes/bb_codes.py
@@ -67,7 +67,7 @@ def _cyclic_matrix_sum(x_terms: list[int], y_terms: list[int], l_: int, m: int)
 
 
 def _cyclic_code_check_matrix(
-    m: int, l_: int, a_terms: tuple[list[int], list[int]], b_terms: tuple[list[int], list[int]]
+    l_: int, m: int, a_terms: tuple[list[int], list[int]], b_terms: tuple[list[int], list[int]]
 ) -> tuple[npt.NDArray[np.int8], npt.NDArray[np.int8]]:
     a = _cyclic_matrix_sum(a_terms[0], a_terms[1], l_, m) % 2
     b = _cyclic_matrix_sum(b_terms[0], b_terms[1], l_, m) % 2
-- 
2.43.0


From 457274e26b893072ded52187dae72d1462d678f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:41 +0000
Subject: [PATCH 33/73] fix: stabilizer tests of codes without checks of one
 kind fail on the empty matrix

---
 src/mqt/qecc/codes/css_code.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mqt/qecc/codes/css_code.py b/src/mqt/qecc/codes/css_code.py
index df18c2c..fb72ca1 100644
--- a/src/mqt/qecc/codes/css_code.py
+++ b/src/mqt/qecc/codes/css_code.py
@@ -105,7 +105,7 @@ class CSSCode(StabilizerCode):
     def check_if_x_stabilizer(self, pauli: npt.NDArray[np.int8]) -> bool:
         """Check if the Pauli is a stabilizer."""
         assert self.Hx is not None
-        return bool(mod2.rank(np.vstack((self.Hx, pauli))) == mod2.rank(self.Hx))
+        return bool(_rank(np.vstack((self.Hx, pauli))) == _rank(self.Hx))
 
     def check_if_logical_z_error(self, residual: npt.NDArray[np.int8]) -> bool:
         """Check if the residual is a logical error."""
@@ -114,7 +114,7 @@ class CSSCode(StabilizerCode):
     def check_if_z_stabilizer(self, pauli: npt.NDArray[np.int8]) -> bool:
         """Check if the Pauli is a stabilizer."""
         assert self.Hz is not None
-        return bool(mod2.rank(np.vstack((self.Hz, pauli))) == mod2.rank(self.Hz))
+        return bool(_rank(np.vstack((self.Hz, pauli))) == _rank(self.Hz))
 
     def stabilizer_eq_x_error(self, error_1: npt.NDArray[np.int8], error_2: npt.NDArray[np.int8]) -> bool:
         """Check if two X errors are in the same coset."""
@@ -123,7 +123,7 @@ class CSSCode(StabilizerCode):
         m1 = np.vstack([self.Hx, error_1])
         m2 = np.vstack([self.Hx, error_2])
         m3 = np.vstack([self.Hx, error_1, error_2])
-        return bool(mod2.rank(m1) == mod2.rank(m2) == mod2.rank(m3))
+        return bool(_rank(m1) == _rank(m2) == _rank(m3))
 
     def stabilizer_eq_z_error(self, error_1: npt.NDArray[np.int8], error_2: npt.NDArray[np.int8]) -> bool:
         """Check if two Z errors are in the same coset."""
@@ -132,13 +132,13 @@ class CSSCode(StabilizerCode):
         m1 = np.vstack([self.Hz, error_1])
         m2 = np.vstack([self.Hz, error_2])
         m3 = np.vstack([self.Hz, error_1, error_2])
-        return bool(mod2.rank(m1) == mod2.rank(m2) == mod2.rank(m3))
+        return bool(_rank(m1) == _rank(m2) == _rank(m3))
 
     def is_self_dual(self) -> bool:
         """Check if the code is self-dual."""
         if self.Hx is None or self.Hz is None:
             return False
-        return bool(mod2.rank(self.Hx) == mod2.rank(self.Hz) == mod2.rank(np.vstack([self.Hx, self.Hz])))
+        return bool(_rank(self.Hx) == _rank(self.Hz) == _rank(np.vstack([self.Hx, self.Hz])))
 
     @staticmethod
     def _check_valid_check_matrices(Hx: npt.NDArray[np.int8] | None, Hz: npt.NDArray[np.int8] | None) -> None:  # noqa: N803
@@ -218,5 +218,10 @@ class CSSCode(StabilizerCode):
         raise InvalidCSSCodeError(msg)
 
 
+def _rank(matrix: npt.NDArray[np.int8]) -> int:
+    """Compute the rank of a matrix that may have no rows."""
+    return int(mod2.rank(matrix)) if matrix.shape[0] > 0 else 0
+
+
 class InvalidCSSCodeError(ValueError):
     """Raised when the CSS code is invalid."""
-- 
2.43.0


From d50e911e9b9f33ca399f9844368be487bf257587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:14 +0000
Subject: [PATCH 34/73] fix: the noisy simulation drops the H of qubits that
 are first used as targets or not at all

---
 src/mqt/qecc/ft_stateprep/simulation.py | 44 ++++++++++++-------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/simulation.py b/src/mqt/qecc/ft_stateprep/simulation.py
index d3c2d34..7b2edb9 100644
--- a/src/mqt/qecc/ft_stateprep/simulation.py
+++ b/src/mqt/qecc/ft_stateprep/simulation.py
@@ -77,13 +77,8 @@ class NoisyNDFTStatePrepSimulator:
         self.data_measurements = []
         self.n_measurements = 0
         self.p = p
-        self._reused_qubits = 0
         self.stim_circ = self.to_stim_circ()
-        self.num_qubits = (
-            self.stim_circ.num_qubits
-            - (len(self.x_verification_measurements) + len(self.z_verification_measurements))
-            + self._reused_qubits
-        )
+        self.num_qubits = self.code.n
         self.measure_stabilizers()
         if self.zero_state:
             self.measure_z()
@@ -101,7 +96,18 @@ class NoisyNDFTStatePrepSimulator:
         """
         initialized = [False for _ in self.circ.qubits]
         stim_circuit = stim.Circuit()
-        ctrls = []
+        plus: set[int] = set()  # qubits that are initialized in the + state
+
+        def initialize(qubit: int) -> None:
+            if initialized[qubit]:
+                return
+            if qubit in plus:
+                stim_circuit.append_operation("H", [qubit])
+                stim_circuit.append_operation("Z_ERROR", [qubit], [2 * self.p / 3])  # Wrong initialization
+                plus.remove(qubit)
+            else:
+                stim_circuit.append_operation("X_ERROR", [qubit], [2 * self.p / 3])  # Wrong initialization
+            initialized[qubit] = True
 
         def idle_error(used_qubits: list[int]) -> None:
             for q in self.circ.qubits:
@@ -113,7 +119,6 @@ class NoisyNDFTStatePrepSimulator:
         layers = dag.layers()
         used_qubits: list[int] = []
         targets = set()
-        measured: defaultdict[int, int] = defaultdict(int)
         for layer in layers:
             layer_circ = dag_to_circuit(layer["graph"])
 
@@ -125,8 +130,9 @@ class NoisyNDFTStatePrepSimulator:
             for gate in layer_circ.data:
                 if gate.operation.name == "h":
                     qubit = self.circ.find_bit(gate.qubits[0])[0]
-                    ctrls.append(qubit)
-                    if initialized[qubit]:
+                    if not initialized[qubit]:
+                        plus ^= {qubit}
+                    else:
                         stim_circuit.append_operation("H", [qubit])
                         stim_circuit.append_operation("DEPOLARIZE1", [qubit], [2 * self.p / 3])
                         if not self.parallel_gates:
@@ -138,16 +144,8 @@ class NoisyNDFTStatePrepSimulator:
                     ctrl = self.circ.find_bit(gate.qubits[0])[0]
                     target = self.circ.find_bit(gate.qubits[1])[0]
                     targets.add(target)
-                    if not initialized[ctrl]:
-                        if ctrl in ctrls:
-                            stim_circuit.append_operation("H", [ctrl])
-                            stim_circuit.append_operation("Z_ERROR", [ctrl], [2 * self.p / 3])  # Wrong initialization
-                        else:
-                            stim_circuit.append_operation("X_ERROR", [ctrl], [2 * self.p / 3])  # Wrong initialization
-                        initialized[ctrl] = True
-                    if not initialized[target]:
-                        stim_circuit.append_operation("X_ERROR", [target], [2 * self.p / 3])  # Wrong initialization
-                        initialized[target] = True
+                    initialize(ctrl)
+                    initialize(target)
 
                     stim_circuit.append_operation("CX", [ctrl, target])
                     stim_circuit.append_operation("DEPOLARIZE2", [ctrl, target], [self.p])
@@ -170,9 +168,9 @@ class NoisyNDFTStatePrepSimulator:
                     else:
                         used_qubits.append(anc)
                     initialized[anc] = False
-                    measured[anc] += 1
-                    if measured[anc] == 2:
-                        self._reused_qubits += 1
+
+        for qubit in range(self.code.n):  # data qubits that no gate acts on
+            initialize(qubit)
 
         return stim_circuit
 
-- 
2.43.0


From 215d4360cba20405be92ca9757e6de11e34edd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:23 +0000
Subject: [PATCH 35/73] fix: the one-flag measurement of a single qubit couples
 it to the ancilla twice

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 7f3824f..b977995 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1337,6 +1337,10 @@ def measure_flagged(
         z_measurement: Whether to measure an X (False) or Z (True) stabilizer.
     """
     w = len(stab)
+    if w == 1:  # no hook errors
+        _measure_stab_unflagged(qc, stab, ancilla, measurement_bit, z_measurement)
+        return
+
     if t == 1:
         _measure_stab_one_flagged(qc, stab, ancilla, measurement_bit, z_measurement)
         return
-- 
2.43.0


From f0548fa534674113dc4980fc94365d31d15efb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:31 +0000
Subject: [PATCH 36/73] fix: fault sets leave out faults of CNOTs in the first
 layer of the circuit

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index b977995..b77f002 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -93,7 +93,8 @@ class StatePrepCircuit:
             logging.info("Computing fault set for 1 error.")
             dag = circuit_to_dag(self.circ)
             for node in dag.front_layer():  # remove hadamards
-                dag.remove_op_node(node)
+                if node.name == "h":
+                    dag.remove_op_node(node)
             fault_list = []
             # propagate every error before a control
             nodes = list(dag.topological_op_nodes())
-- 
2.43.0


From 71e4f86f7f0b23dd88b826d7923f536af2bc075d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:57 +0000
Subject: [PATCH 37/73] fix: flagged Z verification measures every ancilla a
 second time into the same bit

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index b77f002..dc08fad 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -956,7 +956,8 @@ def _measure_ft_z(qc: QuantumCircuit, z_measurements: list[npt.NDArray[np.int8]]
             measure_flagged(qc, stab, z_anc[i], z_c[i], z_measurement=True, t=t)
         else:
             qc.cx(stab, [z_anc[i]] * len(stab))
-    qc.measure(z_anc, z_c)
+    if not flags:
+        qc.measure(z_anc, z_c)
 
 
 def _measure_ft_stabs(
-- 
2.43.0


From aa9b3a0a609ee7b3349690cc4d7e55310e4c5ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:40 +0000
Subject: [PATCH 38/73] fix: optimal verification search never ends for check
 matrices with a zero row

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index dc08fad..635f6c0 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -560,7 +560,7 @@ def iterative_search_with_timeout(
             if curr_param == max_param:
                 break
 
-            curr_param = int(curr_param * param_factor)
+            curr_param = max(int(curr_param * param_factor), curr_param + 1)
             curr_param = min(curr_param, max_param)
 
         curr_timeout = int(curr_timeout * timeout_factor)
-- 
2.43.0


From a67230cf28b12af86bf167e2e76696da8ba41fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:32 +0000
Subject: [PATCH 39/73] fix: optimal verification search crashes for check
 matrices with a zero row

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 635f6c0..1989337 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -1084,7 +1084,7 @@ def _symbolic_vector_add(
             if v1[i]:
                 v_new[i] = z3.Not(v2[i]) if not v2_i_is_bool else not v2[i]
             else:
-                v_new[i] = v2[i]
+                v_new[i] = v2[i] if not v2_i_is_bool else bool(v2[i])
 
         elif v2_i_is_bool:
             v2[i] = bool(v2[i])
-- 
2.43.0


From e69107a7c97d3770b55e63870b1693afe23b6364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:30 +0000
Subject: [PATCH 40/73] fix: optimal verification search drops measurements
 before the number of CNOTs is minimal

---
 src/mqt/qecc/ft_stateprep/state_prep.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/state_prep.py b/src/mqt/qecc/ft_stateprep/state_prep.py
index 1989337..b76ace2 100644
--- a/src/mqt/qecc/ft_stateprep/state_prep.py
+++ b/src/mqt/qecc/ft_stateprep/state_prep.py
@@ -647,9 +647,6 @@ def gate_optimal_verification_stabilizers(
             return []  # No solution found
 
         logging.info(f"Found verification stabilizers for {num_errors} errors with {num_cnots} CNOTs")
-        # If any measurements are unused we can reduce the number of ancillas at least by that
-        measurements = [m for m in measurements if np.any(m)]
-        num_anc = len(measurements)
         # Iterate backwards to find the minimal number of cnots
         logging.info(f"Finding minimal number of CNOTs for {num_errors} errors")
 
@@ -670,6 +667,9 @@ def gate_optimal_verification_stabilizers(
             measurements = cnot_opt
         logging.info(f"Minimal number of CNOTs for {num_errors} errors is: {num_cnots}")
 
+        # If any measurements are unused we can reduce the number of ancillas at least by that
+        measurements = [m for m in measurements if np.any(m)]
+        num_anc = len(measurements)
         # If the number of CNOTs is minimal, we can reduce the number of ancillas
         logging.info(f"Finding minimal number of ancillas for {num_errors} errors")
         while num_anc - 1 > 0:
-- 
2.43.0


From aec98cbd651994beed7be16869e9975eedf4de3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:59 +0000
Subject: [PATCH 41/73] fix: single-stage decoding without analog information
 needs no sigma

_single_stage_decoding passes self.sigma_x/self.sigma_z on, which were only set for
analog decoding, so every hard-syndrome single-stage simulation raised AttributeError.
---
 .../qecc/analog_information_decoding/simulators/simulation.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 3365460..c54b561 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -135,6 +135,8 @@ class SingleShotSimulator:
         if self.analog_info or self.analog_tg:
             self.sigma_x = get_sigma_from_syndr_er(self.x_syndr_error_channel[0])
             self.sigma_z = get_sigma_from_syndr_er(self.z_syndr_error_channel[0])
+        else:
+            self.sigma_x = self.sigma_z = 0.0
 
         # if we want to decode with the analog tanner graph method construct respective matrices.
         # These are assumed to exist in the *_setup() methods
-- 
2.43.0


From 128e441592a2b63f2358ec83dfef216d4a805262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:59 +0000
Subject: [PATCH 42/73] fix: SingleShotSimulator.save_results opens the result
 file for writing

The file was opened read-only, so saving any result raised io.UnsupportedOperation.
---
 .../qecc/analog_information_decoding/simulators/simulation.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index c54b561..ec42872 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -702,7 +702,7 @@ class SingleShotSimulator:
         output.update(self.input_values)
         output["bias"] = replace_inf(output["bias"])  # type: ignore[assignment, arg-type]
 
-        with Path(self.outfile).open(encoding=locale.getpreferredencoding(False)) as f:
+        with Path(self.outfile).open(mode="w", encoding=locale.getpreferredencoding(False)) as f:
             f.write(
                 json.dumps(
                     output,
-- 
2.43.0


From a9193350b7d1bdd821065a0b993bd1847eb68a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:59 +0000
Subject: [PATCH 43/73] fix: two-stage analog decoding uses the channel of the
 errors it decodes

The X errors were decoded with the Z error channel and vice versa.
---
 .../qecc/analog_information_decoding/simulators/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index ec42872..92d1d93 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -426,14 +426,14 @@ class SingleShotSimulator:
                 decoder=self.x_abpd,
                 hard_syndrome=x_syndrome_repaired,
                 analog_syndrome=x_syndrome_w_err,
-                bit_err_channel=self.z_bit_err_channel + self.y_bit_err_channel,
+                bit_err_channel=self.x_bit_err_channel + self.y_bit_err_channel,
                 sigma=self.sigma_x,
             )
             z_decoded = self._analog_tg_decoding(
                 decoder=self.z_abpd,
                 hard_syndrome=z_syndrome_repaired,
                 analog_syndrome=z_syndrome_w_err,
-                bit_err_channel=self.x_bit_err_channel + self.y_bit_err_channel,
+                bit_err_channel=self.z_bit_err_channel + self.y_bit_err_channel,
                 sigma=self.sigma_z,
             )
         else:
-- 
2.43.0


From b96566685da164a086a0467de7b7c9f2f0208bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:59 +0000
Subject: [PATCH 44/73] fix: two-stage decoding without meta checks thresholds
 analog syndromes

An analog syndrome was truncated to an integer instead of being thresholded, so a
violated check (about -1.0) became -1 or 0 and a satisfied one (about 1.0) 0 or 1.
---
 .../simulators/simulation.py                           | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 92d1d93..c2b66ae 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -410,7 +410,7 @@ class SingleShotSimulator:
                 m_bp=self.mz_bp,
             )
         else:
-            z_syndrome_repaired = np.copy(z_syndrome_w_err).astype(np.int32)
+            z_syndrome_repaired = self._get_hard_syndrome(z_syndrome_w_err)
 
         if self.z_meta and self.Mz is not None:
             x_syndrome_repaired = self._meta_code_decoding(
@@ -419,7 +419,7 @@ class SingleShotSimulator:
                 m_bp=self.mx_bp,
             )
         else:
-            x_syndrome_repaired = np.copy(x_syndrome_w_err).astype(np.int32)
+            x_syndrome_repaired = self._get_hard_syndrome(x_syndrome_w_err)
 
         if self.analog_tg:  # decode with analog tg method - update channel probs to init analog nodes
             x_decoded = self._analog_tg_decoding(
@@ -442,6 +442,12 @@ class SingleShotSimulator:
 
         return x_decoded, z_decoded
 
+    def _get_hard_syndrome(self, syndrome_w_err: NDArray[np.float64]) -> NDArray[np.int32]:
+        """Returns the binary syndrome, analog syndromes are thresholded."""
+        if self.analog_info or self.analog_tg:
+            return get_binary_from_analog(syndrome_w_err)
+        return np.copy(syndrome_w_err).astype(np.int32)
+
     def _meta_code_decoding(
         self,
         syndrome_w_err: NDArray[np.float64],
-- 
2.43.0


From 82b80bb2711573d65d40c5949fc6b606219fc02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:59 +0000
Subject: [PATCH 45/73] fix: noiseless syndromes are signed when decoding with
 analog information

With a syndrome error rate of 0 the binary syndrome was passed on as the analog one, and
thresholding it inverted every satisfied check into a violated one and vice versa.
---
 .../qecc/analog_information_decoding/simulators/simulation.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index c2b66ae..762836d 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -246,6 +246,9 @@ class SingleShotSimulator:
         else:
             x_syndrome_w_err = np.copy(x_syndrome)
             z_syndrome_w_err = np.copy(z_syndrome)
+            if self.analog_info or self.analog_tg:  # noiseless analog syndromes are signed
+                x_syndrome_w_err = get_signed_from_binary(x_syndrome_w_err).astype(np.float64)
+                z_syndrome_w_err = get_signed_from_binary(z_syndrome_w_err).astype(np.float64)
 
         return x_syndrome_w_err, z_syndrome_w_err
 
-- 
2.43.0


From 3ededc884734ad39cfb5b1916e84453f6d63c42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:59 +0000
Subject: [PATCH 46/73] fix: logical errors without given logicals are judged
 by the residual error

check_logical_err_h computes the residual from the error and the estimate itself, but was
given the residual as the estimate, and the check matrix of the other side: a residual X
error is trivial if it is a product of X stabilizers, the rows of Hx.
---
 .../analog_information_decoding/simulators/simulation.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
index 762836d..578fc4a 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/simulation.py
@@ -221,13 +221,13 @@ class SingleShotSimulator:
 
         # check for logical errors
         # check if residual X-error commutes with Z-logical and vice versa
-        # equivalently, check if residual X-error is in rowspace of Hz and vice versa
+        # equivalently, check if residual X-error is in rowspace of Hx and residual Z-error in rowspace of Hz
         if self._check_logicals:
             is_x_logical_error = is_logical_err(self.lz, x_residual_err)
             is_z_logical_error = is_logical_err(self.lx, z_residual_err)
         else:
-            is_x_logical_error = check_logical_err_h(self.Hz, x_err, x_residual_err)
-            is_z_logical_error = check_logical_err_h(self.Hx, z_err, z_residual_err)
+            is_x_logical_error = check_logical_err_h(self.Hx, x_err, x_decoded)
+            is_z_logical_error = check_logical_err_h(self.Hz, z_err, z_decoded)
 
         return is_x_logical_error, is_z_logical_error
 
-- 
2.43.0


From c84f5b92582065256aea0ec4698b959c5b9b121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:59 +0000
Subject: [PATCH 47/73] fix: QssSimulator decodes hard syndromes

Without analog_tg neither self.sigma nor the analog syndrome matrix were defined, so the
first decoding of a window raised AttributeError or UnboundLocalError.
---
 .../simulators/quasi_single_shot_v2.py                     | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
index 78183ba..8b68485 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
@@ -154,6 +154,8 @@ class QssSimulator:
             self.sigma = get_sigma_from_syndr_er(
                 self.syndr_err_channel[0]  # x/z + y
             )  # assumes all sigmas are the same
+        else:
+            self.sigma = 0.0
         self.bp_iterations = 0
         if self.decoding_method == "bposd":
             self.decoder = bposd_decoder(
@@ -173,7 +175,7 @@ class QssSimulator:
     def _decode_multiround(
         self,
         syndrome_mat: NDArray[np.int_],
-        analog_syndr_mat: NDArray[np.float64],
+        analog_syndr_mat: NDArray[np.float64] | None,
         last_round: bool = False,
     ) -> tuple[Any, NDArray[np.int32], NDArray[np.float64], int]:
         return decode_multiround(
@@ -195,8 +197,9 @@ class QssSimulator:
         # each column == measurement result of a single timestep
         syndrome_mat: NDArray[np.int32] = np.zeros((self.num_checks, self.repetitions), dtype=np.int32)
 
+        analog_syndr_mat: NDArray[np.float64] | None = None
         if self.analog_tg:
-            analog_syndr_mat: NDArray[np.float64] = np.zeros((self.num_checks, self.repetitions), dtype=np.float64)
+            analog_syndr_mat = np.zeros((self.num_checks, self.repetitions), dtype=np.float64)
 
         err: NDArray[np.int32] = np.zeros(self.num_qubits, dtype=np.int32)
         cnt = 0  # counter for syndrome_mat
-- 
2.43.0


From 5e7f6cc2fc013e57090bc1220d5e74fd544d4531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:59 +0000
Subject: [PATCH 48/73] fix: merge_json_files* accept the documented string
 path

str / Path raised TypeError, and as iterdir already yields paths below the folder, joining
them once more with the (relative) folder named files which do not exist.
---
 .../utils/data_utils.py                          | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
index edfde22..da20e02 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
@@ -366,14 +366,14 @@ def merge_json_files(input_path: str) -> None:
     """
     output_data: list[dict[str, Any]] = []
     for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+        folder_path = folder_name
         if not folder_path.is_dir():
             continue
 
         data: list[dict[str, Any]] = []
         for filename in folder_path.iterdir():
             if filename.suffix == ".json":
-                file_path = folder_path / filename
+                file_path = filename
                 with file_path.open() as file:
                     try:
                         json_data = json.load(file)
@@ -406,14 +406,14 @@ def merge_json_files_x(input_path: str) -> None:
     """
     output_data: list[dict[str, Any]] = []
     for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+        folder_path = folder_name
         if not folder_path.is_dir():
             continue
 
         data: list[dict[str, Any]] = []
         for filename in folder_path.iterdir():
             if filename.suffix == ".json":
-                with (folder_path / filename).open() as file:
+                with filename.open() as file:
                     try:
                         json_data = json.load(file)
                         data.append(json_data)
@@ -445,7 +445,7 @@ def merge_json_files_z(input_path: str) -> None:
     """
     output_data: list[dict[str, Any]] = []
     for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+        folder_path = folder_name
 
         if not folder_path.is_dir():
             continue
@@ -453,7 +453,7 @@ def merge_json_files_z(input_path: str) -> None:
         data: list[dict[str, Any]] = []
         for filename in folder_path.iterdir():
             if filename.suffix == ".json":
-                with (folder_path / filename).open() as file:
+                with filename.open() as file:
                     try:
                         json_data = json.load(file)
                         data.append(json_data)
@@ -485,14 +485,14 @@ def merge_json_files_xz(input_path: str) -> None:
     """
     output_data: list[dict[str, Any]] = []
     for folder_name in Path(input_path).iterdir():
-        folder_path = input_path / folder_name
+        folder_path = folder_name
         if not folder_path.is_dir():
             continue
 
         data: list[dict[str, Any]] = []
         for filename in folder_path.iterdir():
             if filename.suffix == ".json":
-                with (folder_path / filename).open() as file:
+                with filename.open() as file:
                     try:
                         json_data = json.load(file)
                         data.append(json_data)
-- 
2.43.0


From 91b81278db10a2de51fef1052881d940c01c6705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:59 +0000
Subject: [PATCH 49/73] fix: combining X and Z results keeps the merged X
 counts

For datasets with both sides the merged X data was overwritten with the X data of the first
dataset, while x_runs still was the total number of runs.
---
 src/mqt/qecc/analog_information_decoding/utils/data_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
index da20e02..cfbb8c6 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
@@ -522,7 +522,8 @@ def _combine_xz_data(xdata: dict[str, Any] | None, zdata: dict[str, Any] | None)
         # print(xdata)
         xdata["x_runs"] = xdata.pop("nr_runs")
         zdata["z_runs"] = zdata.pop("nr_runs")
-        xdata.update(zdata)
+        # zdata is based on a copy of a single dataset, whose X side must not replace the merged one
+        xdata.update({key: val for key, val in zdata.items() if not key.startswith("x_")})
         return xdata
     if xdata:
         xdata["x_runs"] = xdata.pop("nr_runs")
-- 
2.43.0


From aad986305573337cf9944f12ced007a3f6a0f11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:59 +0000
Subject: [PATCH 50/73] fix: AtdSimulator.save_results can write the bias

The bias array is not JSON serialisable, so saving any result raised AttributeError.
---
 .../simulators/analog_tannergraph_decoding.py                   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py b/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
index a85807f..5c5a0f5 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
@@ -15,6 +15,7 @@ from ..utils.data_utils import (
     BpParams,
     calculate_error_rates,
     is_converged,
+    replace_inf,
 )
 
 if TYPE_CHECKING:
@@ -305,6 +306,7 @@ class AtdSimulator:
         }
 
         output.update(self.input_values)
+        output["bias"] = replace_inf(output["bias"])  # type: ignore[arg-type]
         with Path(self.outfile).open(mode="w", encoding=locale.getpreferredencoding(False)) as f:
             json.dump(output, f, ensure_ascii=False, indent=4, default=lambda o: o.__dict__)
         return output
-- 
2.43.0


From af358940b0a477e9be61d213c6d0d3772fb3f4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:59 +0000
Subject: [PATCH 51/73] fix: decoding the last round leaves the decoder's
 channel unchanged

The perfect last round sets the time-like channel of the shared bposd decoder to 1e-15, and
without analog information nothing set it back, so all later samples were decoded as if the
last syndrome measurement of every window were perfect.
---
 .../simulators/memory_experiment_v2.py                         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py b/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
index b4ea3de..30a6634 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
@@ -126,6 +126,9 @@ def decode_multiround(
 
     decoded = decoder.decode(diff_syndrome.flatten("F"))
 
+    if last_round and not analog_tg and decoding_method == "bposd":
+        decoder.update_channel_probs(channel_probs)  # the decoder is reused for noisy rounds
+
     if decoding_method == "bposd":
         bp_iter = decoder.iter
 
-- 
2.43.0


From 3eda1587deedcf0bb5fcfd3382419ba86895f744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:15 +0000
Subject: [PATCH 52/73] fix: set_seed seeds the generator the errors are drawn
 from

set_seed only seeded numpy's legacy generator, while every error is drawn from a fresh,
unseeded default_rng(), so simulations with the same seed gave different results.
---
 .../utils/simulation_utils.py                         | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/simulation_utils.py b/src/mqt/qecc/analog_information_decoding/utils/simulation_utils.py
index af33225..db0fa64 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/simulation_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/simulation_utils.py
@@ -17,9 +17,14 @@ if TYPE_CHECKING:
     from numpy.typing import NDArray
 
 
+_rng = np.random.default_rng()  # the generator of all errors, see set_seed
+
+
 def set_seed(value: float) -> None:
     """The appropriate way to set seeds when numba is used."""
+    global _rng  # noqa: PLW0603
     np.random.seed(value)  # noqa: NPY002
+    _rng = np.random.default_rng(value)  # type: ignore[arg-type]
 
 
 def alist2numpy(fname: str) -> NDArray[np.int32]:  # current original implementation is buggy
@@ -99,7 +104,7 @@ def generate_err(
     residual_err_z = residual_err[1]
 
     for i in range(nr_qubits):
-        rand = np.random.default_rng().random()  # this returns a random float in [0,1)
+        rand = _rng.random()  # this returns a random float in [0,1)
         # e.g. if err channel is p = 0.3, then an error will be applied if rand < p
         if rand < channel_probs_z[i]:  # if probability for z error high enough, rand < p, apply
             # if there is a z error on the i-th bit, flip the bit but take residual error into account
@@ -166,7 +171,7 @@ def generate_syndr_err(channel_probs: NDArray[np.float64]) -> NDArray[np.int32]:
     error: NDArray[np.int32] = np.zeros_like(channel_probs, dtype=np.int32)
 
     for i, p in np.ndenumerate(channel_probs):
-        rand = np.random.default_rng().random()
+        rand = _rng.random()
 
         if rand < p:
             error[i] = 1
@@ -187,7 +192,7 @@ def get_noisy_analog_syndrome(perfect_syndr: NDArray[np.int_], sigma: float) ->
     ).astype(float)
 
     # sample from Gaussian with zero mean and sigma std. dev: ~N(0, sigma_sq)
-    return np.array(np.random.default_rng().normal(loc=sgns, scale=sigma, size=perfect_syndr.shape)).astype(np.float64)
+    return np.array(_rng.normal(loc=sgns, scale=sigma, size=perfect_syndr.shape)).astype(np.float64)
 
 
 def error_channel_setup(
-- 
2.43.0


From e546d3c91ded7b1d0dcdb04a2b2ffdd675588044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:15 +0000
Subject: [PATCH 53/73] fix: concurrent simulations never share a result file

create_outpath looked for a free file name and created the file in two steps, so two
simulations started at the same time could be given the same file.
---
 .../analog_information_decoding/utils/data_utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
index cfbb8c6..af75485 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
@@ -161,13 +161,14 @@ def create_outpath(
 
     Path(path).mkdir(parents=True, exist_ok=True)
 
-    f_loc = path + f"id_{identifier}.json"
-    while Path(f_loc).exists():
-        identifier += 1
+    while True:
         f_loc = path + f"id_{identifier}.json"
-
-    Path(f_loc).touch()
-    return f_loc
+        try:
+            Path(f_loc).touch(exist_ok=False)
+        except FileExistsError:
+            identifier += 1
+        else:
+            return f_loc
 
 
 def replace_inf(lst: list[str]) -> list[str]:
-- 
2.43.0


From 2c4e5e0dbe0deff2528f74c37513eace44d64e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:38 +0000
Subject: [PATCH 54/73] fix: a committed measurement error is not moved into
 the next window

The syndromes of the tentative region are the recorded ones, not differences, so they do not
contain measurement errors of the commit region. Flipping the first of them by the time
correction of the last committed round left the next window with a defect of no error; with
repetitions=2 and a good decoder the logical error rate doubles at high syndrome error rates.
---
 .../simulators/memory_experiment_v2.py             | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py b/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
index 30a6634..0d2865c 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/memory_experiment_v2.py
@@ -134,15 +134,8 @@ def decode_multiround(
 
     # extract space correction, first repetitions * n entire
     space_correction = decoded[: pcm.shape[1] * repetitions].reshape((repetitions, pcm.shape[1])).T
-    # extract time correction
 
     if last_round is False:
-        # this corresponds to the decoding on the second block of the H3D matrix
-        time_correction = decoded[pcm.shape[1] * repetitions :].reshape((repetitions, pcm.shape[0])).T
-
-        # append time correction with zeros
-        time_correction = np.hstack((time_correction, np.zeros((pcm.shape[0], 1), dtype=np.int32)))
-
         # correct only in the commit region
         decoded = (np.cumsum(space_correction, 1) % 2)[:, region_size - 1]
 
@@ -151,11 +144,8 @@ def decode_multiround(
 
         # propagate the syndrome correction through the tentative region
         syndrome[:, region_size:] = ((syndrome[:, region_size:] + corr_syndrome[:, None]) % 2).astype(np.int32)
-
-        # apply the time correction of round region_size - 1 to the syndrome at the beginning of the tentative region
-        syndrome[:, region_size] = ((syndrome[:, region_size] + time_correction[:, region_size - 1]) % 2).astype(
-            np.int32
-        )
+        # a measurement error of round region_size - 1 is in no recorded syndrome of the tentative region (only in the
+        # difference of its first two rounds), hence there is no time correction to apply here
 
     else:
         # correct in the commit and tentative region as the last round stabilizer is perfect
-- 
2.43.0


From 68bb4e969ee063dda91a99731bbca7fe1efc53ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:36 +0000
Subject: [PATCH 55/73] fix: AtdSimulator accepts syndromes without errors

With a bias without X (or Z) errors, or a syndrome error rate of 0, sigma is 0 and the
decoder refused it with 'Either sigma or ser must be specified'.
---
 .../simulators/analog_tannergraph_decoding.py                   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py b/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
index 5c5a0f5..f96a8f5 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
@@ -186,12 +186,14 @@ class AtdSimulator:
             error_channel=self.full_error_channel[0] + self.full_error_channel[1],  # x + y errors
             pcm=self.Hz,
             sigma=self.x_sigma,
+            ser=None if self.x_sigma > 0.0 else 0.0,
             bp_params=self.bp_params,
         )
         self.z_decoder = Decoder(
             error_channel=self.full_error_channel[2] + self.full_error_channel[1],  # z + y errors
             pcm=self.Hx,
             sigma=self.z_sigma,
+            ser=None if self.z_sigma > 0.0 else 0.0,
             bp_params=self.bp_params,
         )
         self.x_bp_iterations = 0
-- 
2.43.0


From 02fac0fb8116b4ffbab742f544eb6dc2afa6ead9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:27 +0000
Subject: [PATCH 56/73] fix: word error rate and runtime simulations can be
 called on a simulator object

---
 src/python/bindings.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index 100352d..bffacbe 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -172,8 +172,8 @@ PYBIND11_MODULE(pyqecc, m, py::mod_gil_not_used()) {
 
     py::class_<DecodingSimulator>(m, "DecodingSimulator")
             .def(py::init<>())
-            .def("simulate_wer", &DecodingSimulator::simulateWER)
-            .def("simulate_avg_runtime", &DecodingSimulator::simulateAverageRuntime);
+            .def_static("simulate_wer", &DecodingSimulator::simulateWER)
+            .def_static("simulate_avg_runtime", &DecodingSimulator::simulateAverageRuntime);
 
     py::enum_<DecoderType>(m, "DecoderType")
             .value("UF_HEURISTIC", DecoderType::UfHeuristic)
-- 
2.43.0


From 30b16a090e5c4a79fd8c00ee0cb63c1069439b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:33 +0000
Subject: [PATCH 57/73] fix: results of runs with two noise strengths get a
 folder of their own

---
 src/mqt/qecc/analog_information_decoding/utils/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
index af75485..aa6d52d 100644
--- a/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
+++ b/src/mqt/qecc/analog_information_decoding/utils/data_utils.py
@@ -155,7 +155,7 @@ def create_outpath(
         if "sigma" in kwargs:
             path += f"per_{kwargs['data_err_rate']:.3e}_sigma_{kwargs['sigma']:.3e}/"
         if "z_sigma" in kwargs:
-            path += f"per_{kwargs['data_err_rate']:.3e}_x_sigma_{kwargs['x_sigma']:.3e}_z_sigma_{kwargs['z_sigma']:.3e}"
+            path += f"per_{kwargs['data_err_rate']:.3e}_x_sigma_{kwargs['x_sigma']:.3e}_z_sigma_{kwargs['z_sigma']:.3e}/"
     else:
         path += f"per_{kwargs['data_err_rate']:.3e}_ser_{kwargs['syndr_err_rate']:.3e}/"
 
-- 
2.43.0


From 71ac6684fe206b851a288b236484688fc31dc441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:46 +0000
Subject: [PATCH 58/73] fix: sparse create_code saves the code and its
 parameters

---
 .../code_construction/sparse_code_constructor.py              | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py b/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
index 66c2d8a..4f2bf04 100644
--- a/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
+++ b/src/mqt/qecc/analog_information_decoding/code_construction/sparse_code_constructor.py
@@ -205,9 +205,11 @@ def create_code(
     if compute_logicals:
         lx, lz = code_constructor._compute_logicals(hx.todense(), hz.todense())  # noqa: SLF001
         save_code(hx=hx, hz=hz, mz=mz, codename=codename, lx=lx, lz=lz)
+    else:
+        save_code(hx=hx, hz=hz, mz=mz, codename=codename)
 
     if compute_distance:
         _compute_distances(hx.todense(), hz.todense(), codename)
 
     else:
-        _store_code_params(hx.todense(), hz.todense(), codename)
+        _store_code_params(hx, hz, codename)
-- 
2.43.0


From 2768bc8a0140cd88f0057ce4c7785ec8e6592cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:47 +0000
Subject: [PATCH 59/73] fix: the distance script names the metacheck distances
 as create_code reads them

---
 .../code_construction/compute_distances.sh                  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/code_construction/compute_distances.sh b/src/mqt/qecc/analog_information_decoding/code_construction/compute_distances.sh
index 2b6e4b5..5575407 100644
--- a/src/mqt/qecc/analog_information_decoding/code_construction/compute_distances.sh
+++ b/src/mqt/qecc/analog_information_decoding/code_construction/compute_distances.sh
@@ -46,8 +46,8 @@ zcode := CheckMatCode(parityCheckMatrix, GF(2));
 
 
 
-# Print("dMx = ", MinimumDistance(xcode), "\n"); only works for small codes quickly
-Print("dMx = ", MinimumDistanceLeon(xcode), "\n"); #https://gap-packages.github.io/guava/doc/chap4_mj.html#X8170B52D7C154247:~:text=4.8%2D4%20MinimumDistanceLeon
-Print("dMz = ", MinimumDistanceLeon(zcode), "\n");
+# Print("dMX = ", MinimumDistance(xcode), "\n"); only works for small codes quickly
+Print("dMX = ", MinimumDistanceLeon(xcode), "\n"); #https://gap-packages.github.io/guava/doc/chap4_mj.html#X8170B52D7C154247:~:text=4.8%2D4%20MinimumDistanceLeon
+Print("dMZ = ", MinimumDistanceLeon(zcode), "\n");
 
 EOF
-- 
2.43.0


From 7f9c5b150d87b959addc4d2edaff3567d7e493ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:41 +0000
Subject: [PATCH 60/73] fix: simulations save every sample for a save interval
 of one

---
 .../simulators/analog_tannergraph_decoding.py                   | 2 +-
 .../simulators/quasi_single_shot_v2.py                          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py b/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
index f96a8f5..ba265ff 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/analog_tannergraph_decoding.py
@@ -239,7 +239,7 @@ class AtdSimulator:
 
             x_success_cnt += int(out[0])
             z_success_cnt += int(out[1])
-            if runs % self.save_interval == 1:
+            if (runs - 1) % self.save_interval == 0:
                 self.save_results(x_success_cnt, z_success_cnt, runs)
 
                 # check convergence only once during each save interval
diff --git a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
index 8b68485..cd0bbac 100644
--- a/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
+++ b/src/mqt/qecc/analog_information_decoding/simulators/quasi_single_shot_v2.py
@@ -283,7 +283,7 @@ class QssSimulator:
         success_cnt = 0
         for run in range(1, samples + 1):
             success_cnt += self._single_sample()
-            if run % self.save_interval == 1:
+            if (run - 1) % self.save_interval == 0:
                 self._save_results(success_cnt, run)
                 if _check_convergence(success_cnt, run, self.code_params, self.eb_precision):
                     print("Converged")  # noqa: T201
-- 
2.43.0


From 74c544aed2443dda992e35dbb46e1fc4fce3c4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:41 +0000
Subject: [PATCH 61/73] fix: the qiskit wrapper reads circuits with all gates
 of qelib1

---
 src/mqt/qecc/ecc_qiskit_wrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/ecc_qiskit_wrapper.py b/src/mqt/qecc/ecc_qiskit_wrapper.py
index 058cdea..9597a48 100644
--- a/src/mqt/qecc/ecc_qiskit_wrapper.py
+++ b/src/mqt/qecc/ecc_qiskit_wrapper.py
@@ -7,7 +7,7 @@ import locale
 import pathlib
 from typing import TYPE_CHECKING
 
-from qiskit.qasm2 import dump, load, loads
+from qiskit.qasm2 import LEGACY_CUSTOM_INSTRUCTIONS, dump, load, loads
 from qiskit_aer import AerSimulator
 from qiskit_aer.noise import (
     NoiseModel,
@@ -165,7 +165,7 @@ def main() -> None:
     else:
         noise_model = NoiseModel()
 
-    circ = load(open_qasm_file)
+    circ = load(open_qasm_file, custom_instructions=LEGACY_CUSTOM_INSTRUCTIONS)
 
     if not any(gate.operation.name == "measure" for gate in circ.data):
         print("Warning: No measurement gates found in the circuit. Adding measurement gates to all qubits.")  # noqa: T201
@@ -175,7 +175,7 @@ def main() -> None:
     if ecc is not None:
         # Applying error correction to the circuit
         result = apply_ecc(circ, ecc, ecc_frequency)
-        circ = loads(result["circ"])
+        circ = loads(result["circ"], custom_instructions=LEGACY_CUSTOM_INSTRUCTIONS)
 
     if ecc_export_filename is not None:
         print("Exporting circuit to: " + str(ecc_export_filename))  # noqa: T201
-- 
2.43.0


From 380b3815bcd36266a61981c7fc25ba85b04bc3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:41 +0000
Subject: [PATCH 62/73] fix: circuits without measurements report the measured
 qubits

---
 src/mqt/qecc/ecc_qiskit_wrapper.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/ecc_qiskit_wrapper.py b/src/mqt/qecc/ecc_qiskit_wrapper.py
index 9597a48..b46cb05 100644
--- a/src/mqt/qecc/ecc_qiskit_wrapper.py
+++ b/src/mqt/qecc/ecc_qiskit_wrapper.py
@@ -7,6 +7,7 @@ import locale
 import pathlib
 from typing import TYPE_CHECKING
 
+from qiskit import ClassicalRegister, QuantumCircuit
 from qiskit.qasm2 import LEGACY_CUSTOM_INSTRUCTIONS, dump, load, loads
 from qiskit_aer import AerSimulator
 from qiskit_aer.noise import (
@@ -66,6 +67,14 @@ def create_noise_model(n_model: str, p_error: float) -> NoiseModel:
     return noise_model
 
 
+def measure_all_qubits(circ: QuantumCircuit) -> QuantumCircuit:
+    """Measure all qubits into a register that comes first and, hence, is the one that is reported."""
+    measured = QuantumCircuit(*circ.qregs, ClassicalRegister(circ.num_qubits, "meas"), *circ.cregs)
+    measured.compose(circ, qubits=circ.qubits, clbits=circ.clbits, inplace=True)
+    measured.measure(range(circ.num_qubits), range(circ.num_qubits))
+    return measured
+
+
 def print_simulation_results(result: Result, n_shots: int, threshold_probability: float = 0) -> None:
     """Print the simulation results."""
     printed_results = 0
@@ -169,7 +178,7 @@ def main() -> None:
 
     if not any(gate.operation.name == "measure" for gate in circ.data):
         print("Warning: No measurement gates found in the circuit. Adding measurement gates to all qubits.")  # noqa: T201
-        circ.measure_all()
+        circ = measure_all_qubits(circ)
 
     # Initializing the quantum circuit
     if ecc is not None:
-- 
2.43.0


From 5761c772cc7b1f31478b05f606eeaaf87b8555bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:31 +0000
Subject: [PATCH 63/73] fix: the stored evaluation circuits load, prepare the
 state and are fault tolerant

---
 .../hamming/plus_ft_heuristic_heuristic.stim    | 10 +++-------
 .../circuits/hamming/plus_ft_heuristic_opt.qasm |  2 +-
 .../circuits/hamming/plus_ft_heuristic_opt.stim |  9 ++++-----
 .../eval/circuits/hamming/plus_ft_opt_opt.stim  | 10 +++-------
 .../circuits/hamming/plus_non_ft_heuristic.stim |  2 +-
 .../circuits/hamming/zero_non_ft_heuristic.qasm | 17 -----------------
 .../circuits/hamming/zero_non_ft_heuristic.stim |  5 +----
 .../plus_ft_heuristic_heuristic.qasm            |  3 ++-
 .../plus_ft_heuristic_heuristic.stim            |  2 +-
 .../plus_ft_heuristic_opt.qasm                  |  3 ++-
 .../plus_ft_heuristic_opt.stim                  |  2 +-
 .../zero_non_ft_heuristic.qasm                  |  4 ----
 .../zero_non_ft_heuristic.stim                  |  2 +-
 13 files changed, 20 insertions(+), 51 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_heuristic.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_heuristic.stim
index d01a8d8..a4ca673 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_heuristic.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_heuristic.stim
@@ -1,10 +1,6 @@
 H 2 4 5 6 8 9 10 11 12 13 14 15 16
-CX 2 1 5 3 11 7
-CX 2 0 4 3 6 5 9 7 13 11
-CX 4 0 5 1 6 2 8 7 10 9 12 11 14 13
-CX 8 0 9 1 10 2 11 3 12 4 13 5 14 6 15 0 16 5 15 4 15 7 15 8 15 9 15 14 16 9
+CX 11 7 5 3 2 1 13 11 9 7 6 5 4 3 2 0 14 13 12 11 10 9 8 7 5 1 4 0 6 2 11 3 9 1 8 0 13 5 12 4 10 2 14 6 15 0 15 2 15 4 15 6 15 7 15 9 15 11 15 13
 H 15
-CX 16 11
+CX 16 5 16 9 16 12 16 13 16 14
 H 16
-MR 15
-MR 16
+MR 15 16
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.qasm b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.qasm
index 19cae23..6d022ae 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.qasm
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.qasm
@@ -40,9 +40,9 @@ h x_anc[0];
 cx x_anc[0],q[5];
 cx x_anc[0],q[10];
 cx x_anc[0],q[12];
-cx x_anc[1],q[1];
 h x_anc[0];
 h x_anc[1];
+cx x_anc[1],q[1];
 cx x_anc[1],q[3];
 cx x_anc[1],q[8];
 cx x_anc[1],q[14];
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.stim
index 510d666..ece95ca 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_heuristic_opt.stim
@@ -1,7 +1,6 @@
 H 2 4 5 6 8 9 10 11 12 13 14 15 16
-CX 2 1 5 3 11 7
-CX 2 0 4 3 6 5 9 7 13 11
-CX 4 0 5 1 6 2 8 7 10 9 12 11 14 13
-CX 8 0 9 1 10 2 11 3 12 4 13 5 14 6 15 4 16 1 15 9 16 3 15 14 16 5
-H 15 16
+CX 11 7 5 3 2 1 13 11 9 7 6 5 4 3 2 0 14 13 12 11 10 9 8 7 5 1 4 0 6 2 11 3 9 1 8 0 13 5 12 4 10 2 14 6 15 5 15 10 15 12
+H 15
+CX 16 1 16 3 16 8 16 14
+H 16
 MR 15 16
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_opt_opt.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_opt_opt.stim
index 8f0ae7a..1f5d500 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_opt_opt.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_ft_opt_opt.stim
@@ -1,11 +1,7 @@
-H 0 1 2 4 5 6 7 8 9 12 13 15 16
-CX 4 3 2 11 9 14
-CX 1 2 3 10 11 9 14 4
-CX 5 4 12 3 13 9 7 14
-CX 2 3 0 12 14 10 4 2 6 10 12 11 15 0 8 4 15 13 16 0 3 8 15 14 9 3 8 11
+H 2 3 4 5 6 7 8 9 10 13 14 15 16
+CX 10 0 0 1 7 1 3 12 6 10 8 1 4 11 11 3 13 11 9 8 14 0 10 12 3 1 5 6 0 11 6 0 7 0 1 10 11 1 9 4 2 4 4 5 15 0 15 9 15 10
 H 15
-CX 10 11 16 9
 MR 15
-CX 16 10
+CX 16 4 16 8 16 11
 H 16
 MR 16
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_non_ft_heuristic.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_non_ft_heuristic.stim
index 143753f..02bc8cf 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_non_ft_heuristic.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/plus_non_ft_heuristic.stim
@@ -1,4 +1,4 @@
-H 2 4 5 6 8 9 10 11 12 13 14 15 16
+H 2 4 5 6 8 9 10 11 12 13 14
 CX 2 1 5 3 11 7
 CX 2 0 4 3 6 5 9 7 13 11
 CX 4 0 5 1 6 2 8 7 10 9 12 11 14 13
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.qasm b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.qasm
index 67383fb..9c3baff 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.qasm
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.qasm
@@ -1,8 +1,6 @@
 OPENQASM 2.0;
 include "qelib1.inc";
 qreg q[15];
-qreg z_anc[2];
-creg z_c[2];
 h q[0];
 h q[1];
 h q[3];
@@ -29,18 +27,3 @@ cx q[5],q[13];
 cx q[4],q[12];
 cx q[2],q[10];
 cx q[6],q[14];
-cx q[0],z_anc[0];
-cx q[2],z_anc[0];
-cx q[4],z_anc[0];
-cx q[6],z_anc[0];
-cx q[7],z_anc[0];
-cx q[9],z_anc[0];
-cx q[11],z_anc[0];
-cx q[13],z_anc[0];
-cx q[5],z_anc[1];
-cx q[9],z_anc[1];
-cx q[12],z_anc[1];
-cx q[13],z_anc[1];
-cx q[14],z_anc[1];
-measure z_anc[0] -> z_c[0];
-measure z_anc[1] -> z_c[1];
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.stim
index 2ed65ad..cf8b7ff 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/hamming/zero_non_ft_heuristic.stim
@@ -1,5 +1,2 @@
 H 0 1 3 7
-CX 1 2 3 5 7 11 0 2 3 4 5 6 7 9 11 13 0 4 1 5 2 6 7 8 9 10 11 12 13 14 0 8 1 9 2 10 3 11 4 12 5 13 6 14 0 15 5 16 2 15 4 15 6 15 7 15 9 15 11 15 9 16 13 15 12 16 13 16
-MR 15
-CX 14 16
-MR 16
+CX 7 11 3 5 1 2 11 13 7 9 5 6 3 4 0 2 13 14 11 12 9 10 7 8 1 5 0 4 2 6 3 11 1 9 0 8 5 13 4 12 2 10 6 14
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.qasm b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.qasm
index d1e48ed..624bd4d 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.qasm
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.qasm
@@ -17,7 +17,8 @@ cx q[6],q[3];
 cx q[4],q[2];
 cx q[1],q[0];
 h x_anc[0];
-cx x_anc[0],q[2];
+cx x_anc[0],q[4];
 cx x_anc[0],q[5];
+cx x_anc[0],q[6];
 h x_anc[0];
 measure x_anc[0] -> x_c[0];
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.stim
index 98e1b25..51fba1f 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_heuristic.stim
@@ -1,4 +1,4 @@
 H 2 4 5 6 7 9
-CX 5 1 7 3 2 1 4 3 7 8 1 0 4 2 6 3 9 2 9 5
+CX 7 3 5 1 4 3 2 1 7 8 6 3 4 2 1 0 9 4 9 5 9 6
 H 9
 MR 9
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.qasm b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.qasm
index d1e48ed..f05164d 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.qasm
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.qasm
@@ -17,7 +17,8 @@ cx q[6],q[3];
 cx q[4],q[2];
 cx q[1],q[0];
 h x_anc[0];
-cx x_anc[0],q[2];
+cx x_anc[0],q[3];
+cx x_anc[0],q[4];
 cx x_anc[0],q[5];
 h x_anc[0];
 measure x_anc[0] -> x_c[0];
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.stim
index 98e1b25..4060728 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/plus_ft_heuristic_opt.stim
@@ -1,4 +1,4 @@
 H 2 4 5 6 7 9
-CX 5 1 7 3 2 1 4 3 7 8 1 0 4 2 6 3 9 2 9 5
+CX 7 3 5 1 4 3 2 1 7 8 6 3 4 2 1 0 9 3 9 4 9 5
 H 9
 MR 9
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.qasm b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.qasm
index 201bb88..8299439 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.qasm
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.qasm
@@ -13,7 +13,3 @@ cx q[7],q[4];
 cx q[6],q[3];
 cx q[2],q[5];
 cx q[0],q[1];
-cx q[0],z_anc[0];
-cx q[2],z_anc[0];
-cx q[4],z_anc[0];
-cx q[5],z_anc[0];
diff --git a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.stim b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.stim
index 21c90bf..da76313 100644
--- a/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.stim
+++ b/src/mqt/qecc/ft_stateprep/eval/circuits/rotated_surface_d3/zero_non_ft_heuristic.stim
@@ -1,2 +1,2 @@
 H 0 2 5 6
-CX 0 4 5 8 0 3 5 7 0 1 2 5 6 3 7 4 0 9 2
+CX 5 8 0 4 5 7 0 3 7 4 6 3 2 5 0 1
-- 
2.43.0


From 33c26e435b8dae6fa49bdcf93a9ba2e33a0031b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:31 +0000
Subject: [PATCH 64/73] fix: the estimation script constructs color codes of
 the given distance

---
 .../eval/estimate_logical_error_rate.py             | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py b/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py
index 8d5d7db..b36618b 100644
--- a/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py
+++ b/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py
@@ -41,22 +41,27 @@ def main() -> None:
     parser.add_argument("--naive_ver", default=False, action="store_true", help="Use naive verification")
     parser.add_argument("--no_ver", action="store_true", help="Use no verification")
     parser.add_argument(
-        "-d", "--distance", type=int, default=3, help="Code Distance (only required for surface and color codes)"
+        "-d",
+        "--distance",
+        type=int,
+        help="Code Distance (only for surface codes, by default 3, and color codes, by default 5)",
     )
     parser.add_argument("--no_parallel_gates", default=False, action="store_true")
 
     args = parser.parse_args()
     code_name = args.code
     if "surface" in code_name:
-        d = args.distance
+        d = args.distance or 3
         code = CSSCode.from_code_name("surface", d)
         code_name = f"rotated_surface_d{d}"
     elif "cc_4_8_8" in code_name:
-        d = 5
+        d = args.distance or 5
         code = SquareOctagonColorCode(d)
+        code_name = "cc_4_8_8" if d == 5 else f"cc_4_8_8_d{d}"
     elif "cc_6_6_6" in code_name:
-        d = 5
+        d = args.distance or 5
         code = HexagonalColorCode(d)
+        code_name = "cc_6_6_6" if d == 5 else f"cc_6_6_6_d{d}"
     elif code_name in available_codes:
         code = CSSCode.from_code_name(code_name)
     else:
-- 
2.43.0


From 78e87cc6fb401b75939f1d053cc17d3db7297eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:31 +0000
Subject: [PATCH 65/73] fix: the estimation script can leave out the
 verification

---
 .../ft_stateprep/eval/estimate_logical_error_rate.py   | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py b/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py
index b36618b..2c0225b 100644
--- a/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py
+++ b/src/mqt/qecc/ft_stateprep/eval/estimate_logical_error_rate.py
@@ -72,8 +72,10 @@ def main() -> None:
     ver_circ_name = ("opt" if args.exact_ver else "heuristic") if not args.naive_ver else "naive"
 
     state_name = "zero" if args.zero_state else "plus"
-    ft_name = "non_ft" if args.no_ver else "ft"
-    circ_file = f"{state_name}_{ft_name}_{sp_circ_name}_{ver_circ_name}.qasm"
+    if args.no_ver:
+        circ_file = f"{state_name}_non_ft_{sp_circ_name}.qasm"
+    else:
+        circ_file = f"{state_name}_ft_{sp_circ_name}_{ver_circ_name}.qasm"
 
     # check if file exists
     if not (prefix / code_name / circ_file).exists():
@@ -85,7 +87,9 @@ def main() -> None:
             circ = heuristic_prep_circuit(code, zero_state=args.zero_state)
 
         assert circ is not None
-        if args.naive_ver:
+        if args.no_ver:
+            qc = circ.circ
+        elif args.naive_ver:
             qc = naive_verification_circuit(circ)
         elif args.exact_ver:
             qc = gate_optimal_verification_circuit(circ, max_timeout=600)
-- 
2.43.0


From 4e6d26c3a4231e8d16690878069cc38059473390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:13 +0000
Subject: [PATCH 66/73] fix: the threshold fit starts within the data

---
 src/mqt/qecc/cc_decoder/plots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qecc/cc_decoder/plots.py b/src/mqt/qecc/cc_decoder/plots.py
index 02355b6..12b28c1 100644
--- a/src/mqt/qecc/cc_decoder/plots.py
+++ b/src/mqt/qecc/cc_decoder/plots.py
@@ -79,7 +79,8 @@ def calculate_threshold(
         ler_eb_data.extend(ler_eb)
         distance_data.extend([int(distance) for _ in range(len(per_array))])
 
-    popt, _ = curve_fit(threshold_fit, (per_data, distance_data), ler_data, maxfev=10000)
+    p0 = (1, 1, 1, 1, np.mean(per_data))  # the threshold lies within the data
+    popt, _ = curve_fit(threshold_fit, (per_data, distance_data), ler_data, p0=p0, maxfev=10000)
     if ax is not None:
         ax.axvline(x=popt[-1], color="black", linestyle="dashed")
         print("threshold: ", popt[-1])
-- 
2.43.0


From 3d472282dad67f92823cf9f15794f17de3aa6bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:13 +0000
Subject: [PATCH 67/73] fix: figures with times of some distances only

---
 src/mqt/qecc/cc_decoder/plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qecc/cc_decoder/plots.py b/src/mqt/qecc/cc_decoder/plots.py
index 12b28c1..072cc0d 100644
--- a/src/mqt/qecc/cc_decoder/plots.py
+++ b/src/mqt/qecc/cc_decoder/plots.py
@@ -184,7 +184,7 @@ def generate_plots(results_dir: Path, results_file: Path) -> None:
                 p_data[p]["d"].append(d)
                 p_data[p]["t"].append(mdata["avg_total_time"][i])
     for p, pdata in sorted(p_data.items()):
-        ax[2][1].plot(ds, pdata["t"], label="p=" + str(p))
+        ax[2][1].plot(pdata["d"], pdata["t"], label="p=" + str(p))
 
     ax[1][1].set_xlabel("Distance")
     ax[1][1].set_ylabel("Average time per run (microseconds)")
@@ -252,7 +252,7 @@ def generate_plots_tn(results_dir: Path, results_file: Path) -> None:
                 p_data[p]["d"].append(d)
                 p_data[p]["t"].append(t)
     for p, pdata in sorted(p_data.items()):
-        ax[1][1].plot(ds, pdata["t"], label="p=" + str(p))
+        ax[1][1].plot(pdata["d"], pdata["t"], label="p=" + str(p))
 
     ax[1][1].set_xlabel("Distance")
     ax[1][1].set_ylabel("Average time per run (microseconds)")
@@ -333,7 +333,7 @@ def generate_plots_comp(results_dir: Path, results_file: Path) -> None:
                     p_data[p]["t"].append(pdata["avg_total_time"][i])
         for p, ppdata in sorted(p_data.items()):
             ax[1].plot(
-                ds,
+                ppdata["d"],
                 ppdata["t"],
                 label="p=" + str(p) + ", " + (solver if solver == "z3" else "CASHWMaxSAT-CorePlus"),
                 color=p_to_col[p],
-- 
2.43.0


From 495294bb01aba5b7ba52cc3fbd0057cf08066199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:30 +0000
Subject: [PATCH 68/73] fix: figures of results without error rate 0.01

---
 src/mqt/qecc/cc_decoder/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/cc_decoder/plots.py b/src/mqt/qecc/cc_decoder/plots.py
index 072cc0d..e469916 100644
--- a/src/mqt/qecc/cc_decoder/plots.py
+++ b/src/mqt/qecc/cc_decoder/plots.py
@@ -27,7 +27,7 @@ def plot_ler_vs_distance(code_dict: dict[float, Any], ax: Axes, pers: list[float
     for p in pers:
         ds = []
         lers = []
-        for d, ler in sorted(code_dict[p].items()):
+        for d, ler in sorted(code_dict.get(p, {}).items()):
             ds.append(int(d))
             lers.append(ler[logical_idx])
         ax.plot(ds, lers, label="p=" + str(round(p, 2)), marker="o", linestyle="-")
-- 
2.43.0


From 0029387e3a36ea1dd353c1017f74cba5cd2864a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:06 +0000
Subject: [PATCH 69/73] fix: figures that compare solvers give every solver its
 own color

---
 src/mqt/qecc/cc_decoder/plots.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/mqt/qecc/cc_decoder/plots.py b/src/mqt/qecc/cc_decoder/plots.py
index e469916..96668fd 100644
--- a/src/mqt/qecc/cc_decoder/plots.py
+++ b/src/mqt/qecc/cc_decoder/plots.py
@@ -279,7 +279,6 @@ def generate_plots_comp(results_dir: Path, results_file: Path) -> None:
         "cyan",
         "olive",
     ]
-    idx = 0
     solver_to_col: dict[str, str] = {}
     p_to_col: dict[float, str] = {}
     for subdir, _, files in os.walk(results_dir):
@@ -288,8 +287,7 @@ def generate_plots_comp(results_dir: Path, results_file: Path) -> None:
         data = []
         solver = subdir.split("/")[-1]
         if solver not in solver_to_col:
-            solver_to_col[solver] = cols[idx]
-            idx += 1
+            solver_to_col[solver] = cols[len(solver_to_col)]
         for f in files:
             fp = subdir + "/" + f
             with Path(fp).open(encoding="utf-8") as ff:
@@ -318,7 +316,6 @@ def generate_plots_comp(results_dir: Path, results_file: Path) -> None:
                     color=solver_to_col[solver],
                 )
         ds: list[int] = []
-        idx = 0
         p_data: dict[float, dict[str, list[Any]]] = {}
         pers = [0.001, 0.051, 0.131]
         for d, pdata in sorted(metrics.items()):
@@ -327,8 +324,8 @@ def generate_plots_comp(results_dir: Path, results_file: Path) -> None:
                 if p in pers:
                     if p not in p_data:
                         p_data[p] = {"d": [], "t": []}
-                        p_to_col[p] = cols[idx]
-                        idx += 1
+                    if p not in p_to_col:
+                        p_to_col[p] = cols[len(p_to_col)]
                     p_data[p]["d"].append(d)
                     p_data[p]["t"].append(pdata["avg_total_time"][i])
         for p, ppdata in sorted(p_data.items()):
-- 
2.43.0


From a0ce62a2d7d96dc931dd6680c93cc584c59637f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:30 +0000
Subject: [PATCH 70/73] fix: the threshold of every logical operator is fitted
 to its own results

---
 src/mqt/qecc/cc_decoder/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qecc/cc_decoder/plots.py b/src/mqt/qecc/cc_decoder/plots.py
index 96668fd..8098aca 100644
--- a/src/mqt/qecc/cc_decoder/plots.py
+++ b/src/mqt/qecc/cc_decoder/plots.py
@@ -192,7 +192,7 @@ def generate_plots(results_dir: Path, results_file: Path) -> None:
     ax[1][1].set_xticks(ds)
     ax[1][1].set_ylim(0, 185000)
     for logical_idx in range(len(mdata[ler_k][0])):
-        calculate_threshold(code_dict=metrics, ax=ax[1][logical_idx], title="Threshold")
+        calculate_threshold(code_dict=metrics, ax=ax[1][logical_idx], title="Threshold", logical_idx=logical_idx)
     plot_ler_vs_distance(per_metrics, ax=ax[3][0], pers=[0.01])
     # save plot as vector graphic
     plt.savefig(results_file, bbox_inches="tight")
-- 
2.43.0


From 73cc3f7f4f8c2b5b8aff3add980124dc27d809b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:16 +0000
Subject: [PATCH 71/73] fix: a lifted product without a second protograph uses
 the first one twice

---
 scripts/numerics/code_construct/lifted_hgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/numerics/code_construct/lifted_hgp.py b/scripts/numerics/code_construct/lifted_hgp.py
index e522c66..fe33a3c 100755
--- a/scripts/numerics/code_construct/lifted_hgp.py
+++ b/scripts/numerics/code_construct/lifted_hgp.py
@@ -34,7 +34,7 @@ class LiftedHgp(css_code):
         self.a_m, self.a_n = self.a.shape
 
         if b is None:
-            self.b = pt.copy(self.a)
+            self.b = pt.array(self.a)
         else:
             self.b = b
 
-- 
2.43.0


From eaa368d1e571928ef4be303329b270b802aa8a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:16 +0000
Subject: [PATCH 72/73] fix: the bias-tailored lifted product of protographs of
 different shapes has blocks that fit

---
 scripts/numerics/code_construct/lifted_hgp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/numerics/code_construct/lifted_hgp.py b/scripts/numerics/code_construct/lifted_hgp.py
index fe33a3c..e111533 100755
--- a/scripts/numerics/code_construct/lifted_hgp.py
+++ b/scripts/numerics/code_construct/lifted_hgp.py
@@ -96,11 +96,11 @@ class BiasTailoredLiftedProduct(stab_code):
         lhgp = LiftedHgp(lift_parameter, a, b)
 
         # Hadamard rotation
-        temp1 = pt.hstack([pt.zeros(lhgp.hx1_proto.shape), lhgp.hz2_proto])
-        temp2 = pt.hstack([lhgp.hx1_proto, pt.zeros(lhgp.hz2_proto.shape)])
+        temp1 = pt.hstack([pt.zeros(lhgp.hz1_proto.shape), lhgp.hz2_proto])
+        temp2 = pt.hstack([lhgp.hx1_proto, pt.zeros(lhgp.hx2_proto.shape)])
         self.hx_proto = pt.vstack([temp1, temp2])
-        temp1 = pt.hstack([lhgp.hz1_proto, pt.zeros(lhgp.hx2_proto.shape)])
-        temp2 = pt.hstack([pt.zeros(lhgp.hz1_proto.shape), lhgp.hx2_proto])
+        temp1 = pt.hstack([lhgp.hz1_proto, pt.zeros(lhgp.hz2_proto.shape)])
+        temp2 = pt.hstack([pt.zeros(lhgp.hx1_proto.shape), lhgp.hx2_proto])
         self.hz_proto = pt.vstack([temp1, temp2])
 
         super().__init__(
-- 
2.43.0


From 59226b844d102d58833c1e2bff30b234bffbec83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:16 +0000
Subject: [PATCH 73/73] fix: the protograph of the bias-tailored lifted product
 is that of its checks

---
 scripts/numerics/code_construct/lifted_hgp.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/scripts/numerics/code_construct/lifted_hgp.py b/scripts/numerics/code_construct/lifted_hgp.py
index e111533..396f6be 100755
--- a/scripts/numerics/code_construct/lifted_hgp.py
+++ b/scripts/numerics/code_construct/lifted_hgp.py
@@ -110,7 +110,5 @@ class BiasTailoredLiftedProduct(stab_code):
 
     @property
     def protograph(self) -> npt.NDArray[np.int_]:
-        """Returns the protograph of the lifted hypergraph product."""
-        px = pt.vstack([pt.zeros(self.hz_proto.shape), self.hx_proto])
-        pz = pt.vstack([self.hz_proto, pt.zeros(self.hx_proto.shape)])
-        return pt.hstack([px, pz])
+        """Returns the protograph of the bias-tailored lifted hypergraph product."""
+        return pt.hstack([self.hx_proto, self.hz_proto])
-- 
2.43.0

