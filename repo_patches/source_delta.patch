From c826b86ea293df755b85a71f9e86bd898e98a467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 01/37] fix: exact phase of products with a large power of i

Complex powers with large exponents are inexact in Python, so 1j**104 has a
tiny imaginary part which was taken for the sign of the product.
---
 src/plaquette/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 3d45e74..28d88f2 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1449,7 +1449,7 @@ def multiply(
         # The sign information is also entirely included in ``initial_phase`` and copied
         # to the sign bit only to be used in those algorithms that require it. If we
         # don't do this, we will ignore minus-signs from ``i`` factors.
-        phase = initial_phase * 1j**phase_exponent * (1 - 2 * ans[-1])
+        phase = initial_phase * 1j ** (phase_exponent % 4) * (1 - 2 * ans[-1])
         if phase.imag != 0:
             sign_bit = 1 if phase.imag < 0 else 0
         elif phase.real != 0:
-- 
2.43.0


From 53d0335b88a58a6bdfb52a2550c8e78f2735a4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 02/37] fix: measure an operator that commutes with the whole
 tableau

The identity commutes with all stabilisers and destabilisers, so there is no
last non-commuting row to look at and measure raised an IndexError.
---
 src/plaquette/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 28d88f2..fbe4831 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -700,7 +700,7 @@ def measure(
     # Outcome is random if one meas_op does not commute with at least one
     # stabilizer, which appear after n_qubits. We don't care about not commuting
     # with the de-stabilisers
-    if nonzero[-1] >= number_of_qubits:
+    if np.any(nonzero >= number_of_qubits):
         # Find the first non-commuting (with meas_op) stabilizer
         first_nc_stab = nonzero[nonzero >= number_of_qubits][0]
         index_pos = np.where(nonzero == first_nc_stab)[0][0]
-- 
2.43.0


From 4d86144b49cf5baa7e5009d926427e2ac9ca4105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:05 +0000
Subject: [PATCH 03/37] fix: reset to the +1 eigenstate of explicitly signed
 and Y operators

The correction after the measurement was skipped for +Z, +X and Y, which left
the qubit in a random eigenstate.
---
 src/plaquette/pauli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index fbe4831..c8564d2 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1269,9 +1269,9 @@ def reset_qubits_to_eigenstate(
             state, single_qubit_pauli_operator(pauli, qubit, state_qubits)
         )
         if meas_outcome:
-            if pauli == "Z" or pauli == "-Z":
+            if pauli[-1] in "ZY":
                 state = x(state, qubit)
-            elif pauli == "X" or pauli == "-X":
+            elif pauli[-1] == "X":
                 state = z(state, qubit)
     return state
 
-- 
2.43.0


From 8dae144e4079d5b804826815d3b8660c38b54e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:46 +0000
Subject: [PATCH 04/37] fix: convert the identity operator from its string or
 dictionary form

An identity has no entries in its dictionary, so string_to_pauli("II") and
dict_to_pauli({}, n) failed with max() of an empty sequence.
---
 src/plaquette/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index c8564d2..90be113 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -345,7 +345,7 @@ def dict_to_pauli(ops: PauliDict, qubits: Optional[int] = None) -> Tableau:
             from ``ops``'s keys.
     """
     # TODO: add tests
-    max_qubit_index = max(ops.keys())
+    max_qubit_index = max(ops.keys(), default=-1)
     if qubits is None:
         qubits = max_qubit_index + 1
 
-- 
2.43.0


From ade3587f02f9a78f5acfe211fc409fc39fa07d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:46 +0000
Subject: [PATCH 05/37] fix: reject unrecognised characters in operator strings

string_to_pauli documents a ValueError for them but read them as identities.
---
 src/plaquette/pauli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 90be113..94edce6 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1022,6 +1022,8 @@ def string_to_pauli(op_str: str, qubits: Optional[int] = None) -> Tableau:
     # Remove visual separators
     op_str = op_str.replace(" ", "")
     op_str = op_str.replace("_", "")
+    if re.search(r"[^-+IXYZ0-9]", op_str):
+        raise ValueError(f"Unrecognised characters in operator string {op_str!r}")
     # Check if there's a digit somewhere
     if any(map(lambda c: c.isdigit(), op_str)):
         # In that case we assume short form and bring this into canonical form
-- 
2.43.0


From 452b7ae191d75dda9da0b9db208ed4617ac45e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:46 +0000
Subject: [PATCH 06/37] fix: destructive measurement of several qubits

Each traced-out qubit shrinks the state, but the measurement operators were
built for the original number of qubits, which raised a ValueError.
---
 src/plaquette/pauli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 94edce6..4920533 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -489,8 +489,6 @@ def _measure_base(state, base, targets, *, destructive=False, forced_outcomes=No
         be done highest-index first. The relationship target-forced outcome
         is preserved also at the output.
     """
-    n_q = count_qubits(state)[0]
-
     if isinstance(targets, int):
         targets = [targets]
 
@@ -536,7 +534,9 @@ def _measure_base(state, base, targets, *, destructive=False, forced_outcomes=No
     for sorted_idx in reversed(np.argsort(targets)):
         state, m = measure(
             state,
-            single_qubit_pauli_operator(base, targets[sorted_idx], n_q),
+            single_qubit_pauli_operator(
+                base, targets[sorted_idx], count_qubits(state)[0]
+            ),
             forced_outcome=_fo[sorted_idx],
         )
         measurement_results[sorted_idx] = m
-- 
2.43.0


From 4630a922bbfbb5d69984b00275842d4a67d2fb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:42 +0000
Subject: [PATCH 07/37] fix: insert qubits at any position of a state

append_qubit raised for every state, and insert_qubit_at raised or corrupted the
tableau for most positions and for lists of positions.
---
 src/plaquette/pauli.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 4920533..f209151 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -408,27 +408,20 @@ def insert_qubit_at(state: Tableau, pos: int | Sequence[int]) -> Tableau:
             "you're looking for pauli.pad_operator()?"
         )
     number_of_qubits = state.shape[1] // 2
-    if isinstance(pos, int):
-        pos = np.array([pos])
+    pos = np.sort(np.atleast_1d(pos))
     if (pos > number_of_qubits).any():
         raise IndexError(
             f"Cannot insert a new qubit at position {pos} for a state with "
             f"{number_of_qubits} qubits."
         )
-    h_pos = np.concatenate((pos, np.array(pos) + number_of_qubits))
-    number_of_missing_qubits = np.max(h_pos) - number_of_qubits
-    v_pos = np.concatenate(
-        (
-            [number_of_qubits] * number_of_missing_qubits,
-            [2 * number_of_qubits] * number_of_missing_qubits,
-        )
-    )
-
-    state = np.insert(state, h_pos, 0, axis=1)
-    state = np.insert(state, v_pos, 0, axis=0)
-    number_of_qubits += number_of_missing_qubits
-    state[v_pos[:number_of_qubits], h_pos[:number_of_qubits]] = 1
-    state[v_pos[number_of_qubits:], h_pos[number_of_qubits:-1]] = 1
+    # a new qubit needs an X and a Z column, and a destabiliser and a stabiliser row
+    new_lines = np.concatenate((pos, pos + number_of_qubits))
+    state = np.insert(state, new_lines, 0, axis=1)
+    state = np.insert(state, new_lines, 0, axis=0)
+    number_of_qubits += len(pos)
+    new_qubits = pos + np.arange(len(pos))
+    state[new_qubits, new_qubits] = 1
+    state[new_qubits + number_of_qubits, new_qubits + number_of_qubits] = 1
     return state
 
 
-- 
2.43.0


From 7f75441786ca1d6eefe4cf6149d853257f4b21f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 08/37] fix: check every destabiliser against every stabiliser
 in string_to_state

The comparison for different indices was unreachable, so inconsistent
destabilisers were accepted.
---
 src/plaquette/pauli.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index f209151..35c2f7b 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1130,16 +1130,17 @@ def string_to_state(
     # No matter how we got the destabilisers, check things for sanity
     for i, s in enumerate(binary_stabilisers):
         for j, d in enumerate(binary_destabilisers):
-            if i < j:  # avoid calculating things twice
-                continue
             # reuse the indices to also check commutation relations among
             # stabilisers and destabilisers themselves
-            if commutator_sign(binary_stabilisers[i], binary_stabilisers[j]):
-                raise ValueError(f"Stabiliser {i} does not commute with stabiliser {j}")
-            if commutator_sign(binary_destabilisers[i], binary_destabilisers[j]):
-                raise ValueError(
-                    f"Destabiliser {i} does not commute with destabiliser {j}"
-                )
+            if i > j:  # avoid calculating things twice
+                if commutator_sign(binary_stabilisers[i], binary_stabilisers[j]):
+                    raise ValueError(
+                        f"Stabiliser {i} does not commute with stabiliser {j}"
+                    )
+                if commutator_sign(binary_destabilisers[i], binary_destabilisers[j]):
+                    raise ValueError(
+                        f"Destabiliser {i} does not commute with destabiliser {j}"
+                    )
 
             # otherwise we check the relationships between stabilisers and destab
             if i == j and not commutator_sign(s, d):
@@ -1147,7 +1148,7 @@ def string_to_state(
                 raise ValueError(
                     f"Destabiliser {j} does not anticommute with its stabiliser"
                 )
-            elif j > i and commutator_sign(s, d):
+            elif i != j and commutator_sign(s, d):
                 # different indices should commute instead
                 raise ValueError(
                     f"Destabiliser {j} does not commute with stabiliser {i}"
-- 
2.43.0


From 26ed0de4a83c0cd7a3797fb7374014216cb8c530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:35 +0000
Subject: [PATCH 09/37] fix: compute destabilisers over GF(2) in
 string_to_state

The pseudo-inverse over the reals gave wrong or non-binary destabilisers for
most stabilisers, e.g. for a Bell state or for ["XX", "IX"].
---
 src/plaquette/pauli.py | 49 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/plaquette/pauli.py b/src/plaquette/pauli.py
index 35c2f7b..5e0013a 100644
--- a/src/plaquette/pauli.py
+++ b/src/plaquette/pauli.py
@@ -1051,6 +1051,43 @@ def string_to_pauli(op_str: str, qubits: Optional[int] = None) -> Tableau:
     return binary_operator
 
 
+def _find_destabilisers(stabilisers: Tableau) -> Tableau:
+    """Find a set of destabilisers (without signs) by elimination over GF(2).
+
+    Args:
+        stabilisers: ``n`` stabiliser operators on ``n`` qubits.
+
+    Raises:
+        ValueError: if the stabilisers are not independent.
+    """
+    n = len(stabilisers)
+    x, z, _ = unpack_tableau(stabilisers)
+    # Each destabiliser d solves (z x) d = e_i, the symplectic product with all
+    # stabilisers
+    system = np.hstack((z, x, np.eye(n, dtype="u1")))
+    pivots: list[int] = []
+    for column in range(2 * n):
+        row = len(pivots)
+        candidates = row + np.nonzero(system[row:, column])[0]
+        if len(candidates) == 0:
+            continue
+        system[[row, candidates[0]]] = system[[candidates[0], row]]
+        others = np.nonzero(system[:, column])[0]
+        system[others[others != row]] ^= system[row]
+        pivots.append(column)
+    if len(pivots) < n:
+        raise ValueError("The given stabilisers are not independent")
+    destabilisers = np.zeros((n, 2 * n), dtype="u1")
+    destabilisers[:, pivots] = system[:, 2 * n :].T
+    # Multiplying by stabilisers makes the destabilisers commute among themselves
+    for i in range(n):
+        for j in range(i):
+            d_i, d_j = destabilisers[i], destabilisers[j]
+            if (d_i[:n] @ d_j[n:] + d_i[n:] @ d_j[:n]) % 2:
+                destabilisers[i] ^= stabilisers[j, :-1]
+    return destabilisers
+
+
 def string_to_state(
     stabilisers: Sequence[str],
     destabilisers: Optional[Sequence[str]] = None,
@@ -1116,12 +1153,12 @@ def string_to_state(
     else:
         # If no destabilisers are given, we need to calculate them
         ident_size = count_qubits(binary_stabilisers[0])[0]
-        ident = np.eye(ident_size, dtype="u1")
-        zero = np.zeros(ident.shape, dtype="u1")
-        omega = np.block([[zero, ident], [ident, zero]])
-        binary_destabilisers = (
-            np.linalg.pinv(binary_stabilisers[:, :-1].T) @ omega
-        ).astype("u1")
+        if len(binary_stabilisers) != ident_size:
+            raise ValueError(
+                f"{ident_size} stabilisers are needed to define a state of "
+                f"{ident_size} qubits, but {len(binary_stabilisers)} were given"
+            )
+        binary_destabilisers = _find_destabilisers(binary_stabilisers)
         # attach an empty column for the sign info
         binary_destabilisers = np.hstack(
             (binary_destabilisers, np.zeros((ident_size, 1), dtype="u1"))
-- 
2.43.0


From 22aeba4dfce755c1bea9c55e3f721484a037a258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:14 +0000
Subject: [PATCH 10/37] fix: leave any error block when the simulator is reset

---
 src/plaquette/device/_circuitsim.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/device/_circuitsim.py b/src/plaquette/device/_circuitsim.py
index 9de78f2..c7172fc 100644
--- a/src/plaquette/device/_circuitsim.py
+++ b/src/plaquette/device/_circuitsim.py
@@ -220,8 +220,9 @@ class CircuitSimulator(device.AbstractSimulator):
         """Reset the internal state of the simulator and its outputs.
 
         Notes:
-            This will create a completely new :class:`.QuantumState` and clear
-            the attributes :attr:`meas_results` and :attr:`erasure`.
+            This will create a completely new :class:`.QuantumState`, clear
+            the attributes :attr:`meas_results` and :attr:`erasure` and leave any
+            error block.
         """
         # The STATE needs to be linked to the number of qubits OF THE CIRCUIT,
         # such that then self.n_qubits has the correct info. If we delete qubits
@@ -233,3 +234,6 @@ class CircuitSimulator(device.AbstractSimulator):
         self.state = device.QuantumState(self.circ.number_of_qubits)
         self.meas_results = []
         self.erasure = []
+        self.in_error = False
+        self.any_error_applied = False
+        self.apply_branch = False
-- 
2.43.0


From 2719ce3c8df77cbd90dee410b8c79a6470131f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:13 +0000
Subject: [PATCH 11/37] fix: convert DEPOLARIZE to stim's DEPOLARIZE1

---
 src/plaquette/device/_stimsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/device/_stimsim.py b/src/plaquette/device/_stimsim.py
index 146a6b2..8959023 100644
--- a/src/plaquette/device/_stimsim.py
+++ b/src/plaquette/device/_stimsim.py
@@ -55,7 +55,7 @@ def circuit_to_stim(circ: circuit.Circuit) -> tuple[stim.Circuit, list[bool]]:
                 res.append(name, args)
                 meas_is_erasure.extend([False] * len(args))
             case "DEPOLARIZE":
-                res.append(name, args, 1.0)
+                res.append("DEPOLARIZE1", args, 1.0)
             case "E_PAULI":
                 assert len(args) == 4
                 res.append("PAULI_CHANNEL_1", args[3], args[:3])
-- 
2.43.0


From 4f2a55657efa2d97d9dd7975326830df37b36910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:13 +0000
Subject: [PATCH 12/37] fix: sample circuits without measurements with stim

---
 src/plaquette/device/_stimsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/device/_stimsim.py b/src/plaquette/device/_stimsim.py
index 8959023..3f594e2 100644
--- a/src/plaquette/device/_stimsim.py
+++ b/src/plaquette/device/_stimsim.py
@@ -148,7 +148,7 @@ class StimSimulator(device.AbstractSimulator):
         # Convert the circuit to Stim format. A sampler is not built until an RNG
         # is supplied.
         self.stim_circ, is_erasure = circuit_to_stim(self.circ)
-        self.meas_is_erasure = np.array(is_erasure)
+        self.meas_is_erasure = np.array(is_erasure, dtype=bool)
         if stim_seed is None:
             self.stim_seed = plaquette.rng.integers(0, 2**63)
         else:
-- 
2.43.0


From e240df357b5632d5d96db550c854be53f5523b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:13 +0000
Subject: [PATCH 13/37] fix: sample the current gates of a circuit that grew
 with stim

---
 src/plaquette/device/_stimsim.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/device/_stimsim.py b/src/plaquette/device/_stimsim.py
index 3f594e2..5242c79 100644
--- a/src/plaquette/device/_stimsim.py
+++ b/src/plaquette/device/_stimsim.py
@@ -147,14 +147,19 @@ class StimSimulator(device.AbstractSimulator):
         self.batch_size = batch_size
         # Convert the circuit to Stim format. A sampler is not built until an RNG
         # is supplied.
-        self.stim_circ, is_erasure = circuit_to_stim(self.circ)
-        self.meas_is_erasure = np.array(is_erasure, dtype=bool)
+        self._convert_circuit()
         if stim_seed is None:
             self.stim_seed = plaquette.rng.integers(0, 2**63)
         else:
             self.stim_seed = stim_seed
         self.reset()
 
+    def _convert_circuit(self):
+        """Convert the current gates of the circuit to Stim's format."""
+        self._converted_gates = len(self.circ.gates)
+        self.stim_circ, is_erasure = circuit_to_stim(self.circ)
+        self.meas_is_erasure = np.array(is_erasure, dtype=bool)
+
     def reset(self, new_seed: Optional[int] = None):
         """Compile a new Stim sampler.
 
@@ -173,6 +178,10 @@ class StimSimulator(device.AbstractSimulator):
         # Sample a new match if necessary.
         if not after_reset:
             raise ValueError("Stim does not allow sampling without resetting")
+        if len(self.circ.gates) != self._converted_gates:
+            # Gates were appended to the circuit since it was converted
+            self._convert_circuit()
+            self.reset()
         if self.batch_remaining == 0:
             self.batch = self.stim_sampler.sample(shots=self.batch_size)
             self.batch_remaining = self.batch_size
-- 
2.43.0


From 14e131dd8e6687280779b58e82d3670504009b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:02 +0000
Subject: [PATCH 14/37] fix: compare codes with different numbers of operators

---
 src/plaquette/codes/__init__.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/plaquette/codes/__init__.py b/src/plaquette/codes/__init__.py
index 79dcbf0..96a8bc6 100644
--- a/src/plaquette/codes/__init__.py
+++ b/src/plaquette/codes/__init__.py
@@ -113,18 +113,16 @@ class StabilizerCode:
         """
         if not isinstance(other, StabilizerCode):
             return NotImplemented
-        return bool(  # mypy complains otherwise
-            np.all(
-                [
-                    (s1 == s2).all()
-                    for s1, s2 in zip(self.stabilisers, other.stabilisers)
-                ]
-            )
-            and np.all(
-                [
-                    (l1 == l2).all()
-                    for l1, l2 in zip(self.logical_ops, other.logical_ops)
-                ]
+        if (
+            self.n_stabgens != other.n_stabgens
+            or self.n_logical_ops != other.n_logical_ops
+        ):
+            return False
+        return all(
+            np.array_equal(op1, op2)
+            for op1, op2 in zip(
+                [*self.stabilisers, *self.logical_ops],
+                [*other.stabilisers, *other.logical_ops],
             )
         )
 
-- 
2.43.0


From f82234ae66311c3605f4adbefaf5568ac0fa5801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:15 +0000
Subject: [PATCH 15/37] fix: operators of lattice vertices without edges

---
 src/plaquette/codes/latticebase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/codes/latticebase.py b/src/plaquette/codes/latticebase.py
index 1aa9182..df1b063 100644
--- a/src/plaquette/codes/latticebase.py
+++ b/src/plaquette/codes/latticebase.py
@@ -532,7 +532,8 @@ class CodeLattice:
                     actual_index += 1
                 # Afterwards, add the actual operator where it was meant to be
                 op_string += operators[qubit_index]
-            ops_as_tableau.append(string_to_pauli(op_string, n_qubits))
+            # An operator without any edges is the identity
+            ops_as_tableau.append(string_to_pauli(op_string or "I", n_qubits))
         return ops_as_tableau
 
     @property
-- 
2.43.0


From 4c57bfd252bd8fbbd7ccb3427e661d5d24cdd3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:15 +0000
Subject: [PATCH 16/37] fix: codes with more operators than data qubits

---
 src/plaquette/codes/latticebase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/codes/latticebase.py b/src/plaquette/codes/latticebase.py
index df1b063..e3bdf2a 100644
--- a/src/plaquette/codes/latticebase.py
+++ b/src/plaquette/codes/latticebase.py
@@ -932,7 +932,10 @@ class CodeLatticeFromStab(CodeLattice):
             if def_logical_ops is None:
                 raise TypeError("def_logical_ops is required")
             self.def_logical_ops = def_logical_ops
-        super().__init__((self.n_data_qubits, 3))
+        n_rows = max(
+            self.n_data_qubits, len(self.def_stabgens), len(self.def_logical_ops)
+        )
+        super().__init__((n_rows, 3))
         for i in range(self.n_data_qubits):
             self.add_data((i, 1))
         for i, stab in enumerate(self.def_stabgens):
-- 
2.43.0


From 1eea1525c52b1ae0dcc0b8e1b16b521c8d82f8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:19 +0000
Subject: [PATCH 17/37] fix: update the code's operators after fabrication
 errors

---
 src/plaquette/codes/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/plaquette/codes/__init__.py b/src/plaquette/codes/__init__.py
index 96a8bc6..d85ddcf 100644
--- a/src/plaquette/codes/__init__.py
+++ b/src/plaquette/codes/__init__.py
@@ -288,6 +288,11 @@ class LatticeCode(StabilizerCode):
         """
         self.lattice._fabrication_error_warning(stacklevel=3)
         self.lattice.apply_fabrication_errors(**params)
+        # The operators defined by the lattice have changed
+        self.stabilisers = self.lattice.stabilisers
+        self.logical_ops = self.lattice.logical_operators
+        self.logical_x = self.logical_ops[::2]
+        self.logical_z = self.logical_ops[1::2]
 
     @classmethod
     def from_operators(
-- 
2.43.0


From 5475c5bdeb67f926f45160925aa13f95d8dc06f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:18 +0000
Subject: [PATCH 18/37] fix: restore the basis of data qubits after measuring
 logical operators for state preparation

---
 src/plaquette/circuit/generator.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index 60cf239..36c4868 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -238,7 +238,9 @@ class QECCircuitGenerator:
             self.apply_measurement_error(op)
         self.apply_gate_and_error("M", ancilla, None, with_errors)
 
-    def measure_logical_ops(self, logop_indices: Sequence[int]):
+    def measure_logical_ops(
+        self, logop_indices: Sequence[int], restore_basis: bool = False
+    ):
         """Measure logical operators.
 
         Args:
@@ -246,6 +248,9 @@ class QECCircuitGenerator:
                 Specifies which logical operators should be measured. See
                 :meth:`plaquette.codes.StabilizerCode.logical_ops_to_indices` for
                 details.
+            restore_basis:
+                Undo the basis change of data qubits after measuring them. This is
+                necessary if the circuit continues (state preparation).
         """
         for i in logop_indices:
             op = self.lat.logical_ops[i]
@@ -262,6 +267,13 @@ class QECCircuitGenerator:
                         case lattice.Pauli.Y:
                             raise ValueError("Pauli Y not implemented yet")
                     self.apply_gate_and_error("M", dataqubit, None, with_errors=False)
+                if not restore_basis:
+                    continue
+                for edge in op.edges:
+                    if edge.factor == lattice.Pauli.X:
+                        self.apply_gate_and_error(
+                            "H", edge.data.equbit_idx, None, with_errors=False
+                        )
             else:
                 self.measure_op(op, with_errors=False)
 
@@ -355,7 +367,7 @@ class QECCircuitGenerator:
         if lcomm.any():
             raise ValueError("Some measured logical operators do not commute")
         # Measure logical operators for state preparation
-        self.measure_logical_ops(logop_indices)
+        self.measure_logical_ops(logop_indices, restore_basis=True)
         # Measure stabilizer generators for state preparation (without errors)
         self.measure_stabgens(with_errors=False)
         for _ in range(self.code.n_rounds - 1):
-- 
2.43.0


From 71e12d21a4ecef7170905e1039c158abfdb77ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:56 +0000
Subject: [PATCH 19/37] fix: unpack results of logical operators of any weight

---
 src/plaquette/device/__init__.py | 64 ++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/plaquette/device/__init__.py b/src/plaquette/device/__init__.py
index d99abf0..edb8ff3 100644
--- a/src/plaquette/device/__init__.py
+++ b/src/plaquette/device/__init__.py
@@ -31,6 +31,7 @@ array into different parts (this assumes that the circuit was generated using
 """
 
 import abc
+import itertools
 from dataclasses import dataclass
 from typing import Iterable, Optional, Sequence
 
@@ -232,37 +233,44 @@ class MeasurementSample:
             logical_ancilla: flag for alternative method to measure logical operators
                 via additional ancilla that is entangled with several physical qubits
         """
+        n_ancilla_results = (code.n_rounds + 1) * code.n_stabgens
+        # Number of results for all logical operators before (and after) QEC
+        n_logical_results = (len(raw_results) - n_ancilla_results) // 2
         if not logical_ancilla:
-            # Default behavior
-            code_distance = count_qubits(code.logical_ops, include_identities=False)[0]
-
-            logical_op_initial = np.array(
-                [
-                    np.sum(raw_results[i * code_distance : (i + 1) * code_distance]) % 2
-                    for i in range(code.n_logical_qubits)
-                ],
-                dtype=int,
-            )
-            # fmt: off
-            logical_op_final = np.array(
-                [
-                    np.sum(
-                        raw_results[len(raw_results) - (i * code_distance)
-                            - code_distance : len(raw_results) - (i * code_distance)]  # noqa
-                    ) % 2 for i in range(code.n_logical_qubits)
-                ][::-1], dtype=int,
-            )
-            ancillas = np.array(
-                raw_results[code.n_logical_qubits * code_distance : -code.n_logical_qubits * code_distance] # noqa
-            )
-            # fmt: on
+            # Default behavior: each logical operator is given by the parity of the
+            # data qubits it acts on. We do not know which operator was measured for
+            # each logical qubit, but the number of results has to match.
+            weights = count_qubits(code.logical_ops, include_identities=False)
+            candidates = {
+                w
+                for w in itertools.product(*zip(weights[::2], weights[1::2]))
+                if sum(w) == n_logical_results
+            }
+            if len(candidates) != 1:
+                raise ValueError(
+                    "Cannot tell which results belong to which logical operator"
+                )
+            splits = np.cumsum(candidates.pop())[:-1]
         else:
             # Alternative behavior
-            logical_op_initial = np.array(raw_results[: code.n_logical_qubits])
-            logical_op_final = np.array(raw_results[-code.n_logical_qubits :])
-            ancillas = np.array(
-                raw_results[code.n_logical_qubits : -code.n_logical_qubits]
-            )
+            splits = np.arange(1, code.n_logical_qubits)
+
+        logical_op_initial = np.array(
+            [np.sum(r) % 2 for r in np.split(raw_results[:n_logical_results], splits)],
+            dtype=int,
+        )
+        logical_op_final = np.array(
+            [
+                np.sum(r) % 2
+                for r in np.split(
+                    raw_results[n_logical_results + n_ancilla_results :], splits
+                )
+            ],
+            dtype=int,
+        )
+        ancillas = np.array(
+            raw_results[n_logical_results : n_logical_results + n_ancilla_results]
+        )
 
         logical_toggle = logical_op_initial ^ logical_op_final
         stab = ancillas.reshape((code.n_rounds + 1, code.n_stabgens))
-- 
2.43.0


From d7eaeee46a911650cce25c3f285f3fb7ae99138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:58 +0000
Subject: [PATCH 20/37] fix: start with an empty circuit when generating a
 circuit

---
 src/plaquette/circuit/generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index 36c4868..c3e3c38 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -358,6 +358,8 @@ class QECCircuitGenerator:
         Returns:
             A Clifford circuit (to be simulated with :mod:`plaquette.device`)
         """
+        # Start with an empty circuit (this method can be called several times)
+        self.cb = circuit.CircuitBuilder(circuit.Circuit())
         logop_indices = self.stabcode.logical_ops_to_indices(logical_ops)
         # Check that different logical operators commute (if there is more than one).
         # (Measuring e.g. X_1 and Z_2 is fine, but we want to prevent e.g.
-- 
2.43.0


From fe3c7b9a32fe43f37f530c92d65110ded972d7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:50 +0000
Subject: [PATCH 21/37] fix: measure generators sequentially if edges lack a
 time step

---
 src/plaquette/circuit/generator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/plaquette/circuit/generator.py b/src/plaquette/circuit/generator.py
index c3e3c38..ca3ebad 100644
--- a/src/plaquette/circuit/generator.py
+++ b/src/plaquette/circuit/generator.py
@@ -286,7 +286,13 @@ class QECCircuitGenerator:
                 verification are currently performed without errors.)
         """
         time_steps = self.lat.n_time_steps
-        if isinstance(time_steps, int):
+        # E.g. fabrication errors can add edges without a time step
+        all_assigned = all(
+            edge.measurement_time_step is not None
+            for op in self.lat.stabgens
+            for edge in op.edges
+        )
+        if isinstance(time_steps, int) and all_assigned:
             self.measure_stabgens_pl(with_errors=with_errors)
         else:
             self.measure_stabgens_seq(with_errors=with_errors)
-- 
2.43.0


From 6e537168deb329a9629c690564afc257ee076cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 22/37] fix: decode erasures of duplicate syndrome graph edges

---
 src/plaquette/syngraph/__init__.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/syngraph/__init__.py b/src/plaquette/syngraph/__init__.py
index e6d55f2..3d180fd 100644
--- a/src/plaquette/syngraph/__init__.py
+++ b/src/plaquette/syngraph/__init__.py
@@ -355,6 +355,8 @@ class Edge:
     decoder_result: bool = False
     #: Edges can be disabled (e.g. if they are duplicate or have infinite weight)
     enabled: bool = True
+    #: If the edge was disabled as a duplicate: the enabled edge which represents it
+    represented_by: Optional[Edge] = None
 
     def __post_init__(self):  # noqa: D105
         for vertex in self.vertices:
@@ -708,10 +710,10 @@ class SyndromeGraph:
                 z_op = np.where(oplist[self.n_qubits :])[0]
                 pauli_str = ""
                 if len(x_op) == 1:
-                    qubit_idx = x_op
+                    qubit_idx = x_op[0]
                     pauli_str += "X"
                 if len(z_op) == 1:
-                    qubit_idx = z_op
+                    qubit_idx = z_op[0]
                     pauli_str += "Z"
                 if len(pauli_str) == 2:
                     pauli_str = "Y"
@@ -793,6 +795,7 @@ class SyndromeGraph:
         for edge in edges:
             if edge is not selected_edge:
                 edge.disable()
+                edge.represented_by = selected_edge
 
     def _init_conn_components(self) -> None:
         """Find connected components."""
@@ -916,7 +919,9 @@ class SyndromeGraph:
         for edge in self.edges:
             if isinstance(edge, QubitErrorEdge):
                 edge.set_erased(qubit_erased[edge.time_step, edge.qubit_idx])
-                edge_erased[edge.edge_idx] = edge.erased
+                # The erasure of a duplicate edge is seen by the edge representing it
+                idx = (edge.represented_by or edge).edge_idx
+                edge_erased[idx] = edge_erased[idx] | edge.erased
         for comp in self.components_with_edges:
             comp.set_erasure(edge_erased[comp.parent_edge_idx])
 
@@ -977,6 +982,13 @@ class SyndromeGraph:
             for idx, result in zip(comp.parent_edge_idx, comp.edge_decoder_result):
                 self.edges[idx].set_decoder_result(result)
             comp.decoder_results_new = False
+        for edge in self.edges:
+            repr_edge = edge.represented_by
+            if repr_edge is not None:
+                # If only the duplicate was erased, the error happened there
+                moved = repr_edge.decoder_result & edge.erased & (not repr_edge.erased)
+                edge.set_decoder_result(moved)
+                repr_edge.set_decoder_result(repr_edge.decoder_result ^ moved)
 
     def result_as_error_op_selection(self) -> np.ndarray:
         """Determine which error operators are selected by the current result.
-- 
2.43.0


From 4fc4ffc3926b813e215ddab17cc105cba3d08d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 23/37] fix: accept weights instead of error data in from_code

---
 src/plaquette/decoders/decoderbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/decoders/decoderbase.py b/src/plaquette/decoders/decoderbase.py
index 2e3b8e8..aded082 100644
--- a/src/plaquette/decoders/decoderbase.py
+++ b/src/plaquette/decoders/decoderbase.py
@@ -373,7 +373,7 @@ class DecoderInterface:
                                 errordata["pauli"][q][k] = 1e-15  # type: ignore
                     if erasures and not errordata["erasure"].get(q):
                         errordata["erasure"][q] = {"p": 0}
-        else:
+        elif weighted and weights is None:
             errordata: ErrorDataDict = {  # type: ignore[no-redef]
                 "pauli": {
                     q: _default_pauli_errors
-- 
2.43.0


From a96c2d3b69247b0263ef6efeb6b021d4ad2f951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 24/37] fix: accept gaussian errors of two-qubit gates

---
 src/plaquette/errors/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index a6e09b1..a1c5c78 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -937,7 +937,11 @@ class ErrorData:  # noqa: D101
                     case "CX" | "CZ":
                         if gate_errors_dict.get(row.gate) is None:
                             gate_errors_dict[row.gate] = {}
-                        if not set(single_paulis).isdisjoint(set(row.induced_errors)):
+                        induced_errors = row.induced_errors
+                        if isinstance(induced_errors, str):
+                            # A single channel, e.g. with a probability per gate
+                            induced_errors = [induced_errors]
+                        if not set(single_paulis).isdisjoint(set(induced_errors)):
                             raise KeyError("Two qubit channels must be provided!")
                         for i in range(0, len(row.on_qubits), 2):
                             gate_errors_dict[row.gate][
@@ -945,7 +949,7 @@ class ErrorData:  # noqa: D101
                             ] = TwoPauliChannelErrorValueDict(  # type: ignore
                                 {
                                     str(k).lower(): v
-                                    for k, v in zip(row.induced_errors, row.probs)
+                                    for k, v in zip(induced_errors, row.probs)
                                 }
                             )
 
-- 
2.43.0


From 0384e2669a8ef4a2703f1c7f16b0491ff7aeac40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 25/37] fix: draw gaussian error probabilities between 0 and 1,
 with the seed

---
 src/plaquette/errors/__init__.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index a1c5c78..45565d7 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -229,6 +229,8 @@ def generate_gaussian_errors(
             f"Invalid std deviation={std_dev}. Must be between 0.0 and 1.0"
         )
 
+    if std_dev == 0.0:
+        return np.full(len(qubit_list), fill_value=mean)
     distribution = truncnorm(
         (0.0 - mean) / std_dev, (1.0 - mean) / std_dev, mean, std_dev
     )
@@ -1199,10 +1201,10 @@ def assimilate_qubit_errors(
                     qubit_pd.shape[0], qubit_error_config[0][label][1]
                 )
             case "gaussian":
-                qubit_pd[label] = np.random.default_rng().normal(
-                    loc=qubit_error_config[0][label][1],
-                    scale=qubit_error_config[0][label][2],
-                    size=qubit_pd.shape[0],
+                qubit_pd[label] = generate_gaussian_errors(
+                    mean=qubit_error_config[0][label][1],
+                    std_dev=qubit_error_config[0][label][2],
+                    qubit_list=qubit_pd["qubit_id"],
                 )
             case "user":
                 if qubit_csv_df.empty:
@@ -1265,10 +1267,10 @@ def assimilate_gate_errors(
                             )
 
                         elif params[0] == "gaussian":
-                            probs = np.random.default_rng().normal(
-                                loc=params[2],
-                                scale=params[3],
-                                size=len(lattice.stabgens),
+                            probs = generate_gaussian_errors(
+                                mean=params[2],
+                                std_dev=params[3],
+                                qubit_list=lattice.stabgens,
                             )
                             for i, p in zip(lattice.stabgens, probs):
                                 gate_pd = pd.concat(
@@ -1316,10 +1318,10 @@ def assimilate_gate_errors(
                             )
 
                         elif params[0] == "gaussian":
-                            probs = np.random.default_rng().normal(
-                                loc=params[2],
-                                scale=params[3],
-                                size=len(on_qubits) // 2,
+                            probs = generate_gaussian_errors(
+                                mean=params[2],
+                                std_dev=params[3],
+                                qubit_list=on_qubits[::2],
                             )
 
                             for ind, p in enumerate(probs):
-- 
2.43.0


From 4ac8a9c1bb668825f524a07660d87b04c450eac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 26/37] fix: save errors in the format from_csv reads

---
 src/plaquette/errors/__init__.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 45565d7..0a21d8e 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -863,8 +863,15 @@ class ErrorData:  # noqa: D101
             qubit_error_path = "./qubit_error.csv"
         if gate_error_path is None:
             gate_error_path = "./gate_error.csv"
-        self.qubit_errors.to_csv(qubit_error_path)
-        self.gate_errors.to_csv(gate_error_path)
+        # Saved in the format from_csv() reads: no index, lists delimited by "|"
+        self.qubit_errors.to_csv(qubit_error_path, index=False)
+        gate_errors = self.gate_errors.copy()
+        for key in gate_errors.columns[1:]:
+            gate_errors[key] = [
+                values if isinstance(values, str) else "|".join(map(str, values))
+                for values in gate_errors[key]
+            ]
+        gate_errors.to_csv(gate_error_path, index=False)
 
     @property
     def qubit_errors_dict(self) -> QubitErrorsDict:
-- 
2.43.0


From 3a18948f96c7c5c67ec9019c38a168a5706a724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 27/37] fix: read gate error tables whose lists have one entry
 each

---
 src/plaquette/errors/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index 0a21d8e..b1d51ba 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -443,7 +443,7 @@ class ErrorData:  # noqa: D101
 
         gate_errors: pd.DataFrame = pd.DataFrame()
         if gate_error_csv:
-            gate_errors = pd.read_csv(gate_error_csv)
+            gate_errors = pd.read_csv(gate_error_csv, dtype=str)
             exp_types = ("int", "str", "float")
             for key, et in zip(gate_errors.keys()[1:], exp_types):
                 gate_errors[key] = delimited_string_list_to_series(gate_errors[key], et)
@@ -798,7 +798,7 @@ class ErrorData:  # noqa: D101
                     self.qubit_errors.update(qubit_errors.loc[:, col])
 
         if gate_error_csv:
-            gate_errors = pd.read_csv(gate_error_csv)
+            gate_errors = pd.read_csv(gate_error_csv, dtype=str)
             exp_types = ("int", "str", "float")
             for key, et in zip(gate_errors.keys()[1:], exp_types):
                 gate_errors[key] = delimited_string_list_to_series(gate_errors[key], et)
@@ -1239,7 +1239,7 @@ def assimilate_gate_errors(
     """
     gate_pd = pd.DataFrame(columns=["gate", "on_qubits", "induced_errors", "probs"])
     try:
-        gate_csv = pd.read_csv(gate_error_config[1])
+        gate_csv = pd.read_csv(gate_error_config[1], dtype=str)
     except FileNotFoundError:
         gate_csv = pd.DataFrame(
             columns=["gate", "on_qubits", "induced_errors", "probs"]
-- 
2.43.0


From b10bde51755ff76f0cf304b4ae516bff396ab63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 28/37] fix: update error data from tables

---
 src/plaquette/errors/__init__.py | 40 ++++++++++++++------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/src/plaquette/errors/__init__.py b/src/plaquette/errors/__init__.py
index b1d51ba..2075a5e 100644
--- a/src/plaquette/errors/__init__.py
+++ b/src/plaquette/errors/__init__.py
@@ -749,18 +749,24 @@ class ErrorData:  # noqa: D101
                 If ``False``, just updates overlapping locations in the dataframe.
                 and missing locations are appended to the dataframe
         """
-        if qubit_errors:
-            if overwrite:
+        if qubit_errors is not None:
+            qubit_errors = qubit_errors.set_index(["qubit_id"], drop=False)
+            if overwrite or self.qubit_errors.empty:
                 self.qubit_errors = qubit_errors
             else:
-                qubit_errors.set_index(["qubit_id"], drop=True, inplace=True)
-                for col in qubit_errors.colums:
-                    if col not in self.qubit_errors.columns:
-                        self.qubit_errors[col] = None
-                    self.qubit_errors.update(qubit_errors.loc[:, col])
+                self.qubit_errors = self.qubit_errors.reindex(
+                    index=self.qubit_errors.index.union(qubit_errors.index),
+                    columns=self.qubit_errors.columns.union(
+                        qubit_errors.columns, sort=False
+                    ),
+                )
+                self.qubit_errors.update(qubit_errors)
+                self.qubit_errors["qubit_id"] = self.qubit_errors.index
+                probs = self.qubit_errors.columns[2:].difference(["fabrication"])
+                self.qubit_errors[probs] = self.qubit_errors[probs].fillna(0.0)
 
             self.enabled_qubit_errors = set(self.qubit_errors.columns[2:])
-        if gate_errors:
+        if gate_errors is not None:
             if overwrite:
                 self.gate_errors = gate_errors
             else:
@@ -786,29 +792,17 @@ class ErrorData:  # noqa: D101
         Returns:
             None, updates in-place.
         """
+        qubit_errors = gate_errors = None
         if qubit_error_csv:
             qubit_errors = pd.read_csv(qubit_error_csv)
-            if overwrite:
-                self.qubit_errors = qubit_errors
-            else:
-                qubit_errors.set_index(["qubit_id"], drop=True, inplace=True)
-                for col in qubit_errors.columns:
-                    if col not in self.qubit_errors.columns:
-                        self.qubit_errors[col] = None
-                    self.qubit_errors.update(qubit_errors.loc[:, col])
 
         if gate_error_csv:
             gate_errors = pd.read_csv(gate_error_csv, dtype=str)
             exp_types = ("int", "str", "float")
             for key, et in zip(gate_errors.keys()[1:], exp_types):
                 gate_errors[key] = delimited_string_list_to_series(gate_errors[key], et)
-            if overwrite:
-                self.gate_errors = gate_errors
-            else:
-                self.gate_errors = pd.concat(
-                    [self.gate_errors, gate_errors], ignore_index=True
-                )
-            self.enabled_gate_errors = set(self.gate_errors.gate.unique())
+
+        self.update(qubit_errors, gate_errors, overwrite)
 
     @property
     def error_data_dict(self) -> ErrorDataDict:
-- 
2.43.0


From 1b856e133c107f504186f0e5baaa497a83ff1326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 29/37] fix: run experiments on local simulators

---
 src/plaquette/frontend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index f1b80f8..6f54a29 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -2256,7 +2256,7 @@ class ExperimentConfig:
         """
         match self.general_conf["qec_property"]:
             case ["logical_error_rate"]:
-                if self._device._backend_class in plaquette.device.local_simulators:
+                if self._device._backend_name in plaquette.device.local_simulators:
                     test_success = np.zeros([self.device_conf.shots], dtype=bool)
                     for i in tqdm(range(self.device_conf.shots)):
                         self._device.run(cast(Circuit, self._circuit))
-- 
2.43.0


From 9813be689369a7cd7e82dffa91fd229377cc6149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 30/37] fix: read error configurations again from the same
 dictionary

---
 src/plaquette/frontend/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 6f54a29..7067245 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -560,6 +560,7 @@ class QubitErrorsConfig:
                 },
            }
         """
+        configdata = dict(configdata)  # the given dictionary is not changed
         if configdata.get("data_path") is not None:
             if configdata.get("load_file") is not None:
                 _validate_filepath(configdata["data_path"], configdata["load_file"])
@@ -1144,6 +1145,7 @@ class GateErrorsConfig:
            }
 
         """
+        configdata = dict(configdata)  # the given dictionary is not changed
         if configdata.get("data_path") is not None:
             if configdata.get("load_file") is not None:
                 _validate_filepath(configdata["data_path"], configdata["load_file"])
-- 
2.43.0


From 6b10099a232dc571bfb5e9d1fcb1520cb62ea1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 31/37] fix: keep the gate fabrication configuration

---
 src/plaquette/frontend/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 7067245..d5edf36 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -1176,6 +1176,7 @@ class GateErrorsConfig:
             H=cast(_GateErrorMetadata, configdata.get("H")),
             M=cast(_GateErrorMetadata, configdata.get("M")),
             R=cast(_GateErrorMetadata, configdata.get("R")),
+            fabrication=cast(_GateErrorMetadata, configdata.get("fabrication")),
         )
 
     @classmethod
-- 
2.43.0


From dff961a9475d25e8bd8632efcdf627bdad53b2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 32/37] fix: save and validate experiment configurations

---
 src/plaquette/frontend/__init__.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index d5edf36..7051b35 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -1394,6 +1394,14 @@ class ErrorsConfig:
             gate_errors=gate_errors,
         )
 
+    def as_dict(self) -> dict:
+        """Return class attributes as dictionary.
+
+        Returns:
+            A dictionary of the configuration for the errors.
+        """
+        return asdict(self)
+
     @property
     def simulated_errors(self) -> tuple:
         """Simulated qubit and gate errors as tuple.
@@ -2113,13 +2121,15 @@ class ExperimentConfig:
 
     def as_dict(self) -> dict[str, Any]:
         """Return all class attributes as dictionary."""
-        return_dict: dict[str, Any] = dict()
-        for dfield in fields(self):
-            if dfield.name == "exp_objects":
-                continue
-            return_dict[dfield.name] = self.__getattribute__(dfield.name).as_dict()
-
-        return return_dict
+        return {
+            "general": dict(self.general_conf),
+            "device": self.device_conf.as_dict(),
+            "circuit": self.circuit_conf.as_dict(),
+            # The size is left out where it is not relevant
+            "code": {k: v for k, v in self.code_conf.as_dict().items() if v != -1},
+            "errors": self.errors_conf.as_dict(),
+            "decoder": self.decoder_conf.as_dict(),
+        }
 
     def update(self, **kwargs):
         """Update class attributes with given ``**kwargs``.
@@ -2244,12 +2254,12 @@ class ExperimentConfig:
     def dump_toml(self, toml_path: str) -> None:
         """Save the config as a ``toml`` file at the given path."""
         with open(toml_path, "w") as file:
-            toml.dump(self.__dict__, file)
+            toml.dump(self.as_dict(), file)
 
     def dump_json(self, json_path: str):
         """Save the config as a ``json`` file at the given path."""
         with open(json_path, "w") as file:
-            json.dump(self.__dict__, file)
+            json.dump(self.as_dict(), file)
 
     def run(self):
         """Run an experiment to get a logical error rate.
-- 
2.43.0


From cfc81c32583d17fabbd01ebb633f8b62c27c5ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 33/37] fix: use the default general configuration if there is
 none

---
 src/plaquette/frontend/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 7051b35..277c2c9 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -2106,6 +2106,12 @@ class ExperimentConfig:
         config_dict.setdefault("decoder", {})
         config_dict.setdefault("circuit", {})
         config_dict.setdefault("code", {})
+        config_dict.setdefault(
+            "general",
+            GeneralConfig(
+                logical_op="X", qec_property=["logical_error_rate"], seed=12345
+            ),
+        )
         return cls(
             general_conf=cast(GeneralConfig, config_dict.get("general")),
             device_conf=DeviceConfig.from_dict(cast(dict, config_dict.get("device"))),
-- 
2.43.0


From b31eae0d5925c073c9f4b50e095049c86daf5e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 34/37] fix: reject code sizes and rounds which are not
 positive

---
 src/plaquette/frontend/__init__.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 277c2c9..5744fc8 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -118,16 +118,14 @@ class CodeConfig:
 
         if self.name in self.VALID_CODES[4:]:
             self.size = -1
-        elif (
-            (self.size < 0 or self.rounds < 0)
-            or not (isinstance(self.size, int) and isinstance(self.rounds, int))
-            and self.name in self.VALID_CODES[:4]
+        if (
+            not (isinstance(self.size, int) and isinstance(self.rounds, int))
+            or self.rounds < 1
+            or (self.size < 1 and self.name in self.VALID_CODES[:4])
         ):
             raise ValueError(
                 "For the given code, size and round must be positive integers!"
             )
-        else:
-            self.size = cast(int, self.size)
 
     @classmethod
     def from_dict(cls, config_dict: dict) -> CodeConfig:
-- 
2.43.0


From 6aff366e8981187dfb3ac928d12a5c07f9ce1731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:30 +0000
Subject: [PATCH 35/37] fix: sample no errors if the configuration samples none

---
 src/plaquette/frontend/__init__.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/plaquette/frontend/__init__.py b/src/plaquette/frontend/__init__.py
index 5744fc8..6db1f6d 100644
--- a/src/plaquette/frontend/__init__.py
+++ b/src/plaquette/frontend/__init__.py
@@ -1423,12 +1423,11 @@ class ErrorsConfig:
         Returns:
             An :class:`~plaquette.errors.ErrorData` object.
         """
-        ed = ErrorData.from_lattice(
-            lattice,
-            self.qubit_errors.simulated_errors,
-            self.gate_errors.simulated_errors,
-        )
-        return ed
+        qubit_errors, gate_errors = self.simulated_errors
+        if qubit_errors is None and gate_errors is None:
+            # No errors at all, not the default errors of from_lattice()
+            qubit_errors = {}, self.qubit_errors.data_path
+        return ErrorData.from_lattice(lattice, qubit_errors, gate_errors)
 
     def update(self, **kwargs):
         """Update class attributes with given ``**kwargs``.
-- 
2.43.0


From 53180b329aef5063d07dff326baee28dc90f48d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 36/37] fix: draw codes with Pauli Y factors

---
 src/plaquette/visualizer/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/visualizer/__init__.py b/src/plaquette/visualizer/__init__.py
index 7ef3f1f..46ec481 100644
--- a/src/plaquette/visualizer/__init__.py
+++ b/src/plaquette/visualizer/__init__.py
@@ -241,6 +241,7 @@ class LatticeVisualizer:
     #: Plotly options for drawing edges
     edge_kw = {
         "X": dict(name="Pauli X", line=dict(color="cornflowerblue", dash="solid")),
+        "Y": dict(name="Pauli Y", line=dict(color="mediumpurple", dash="2px 5px")),
         "Z": dict(name="Pauli Z", line=dict(color="yellowgreen", dash="5px 5px")),
     }
 
@@ -420,6 +421,7 @@ class LatticeVisualizer:
     #: Matplotlib options for drawing edges
     mpl_edge_kw = {
         "X": dict(label="Pauli X", linestyle="solid", color="cornflowerblue"),
+        "Y": dict(label="Pauli Y", linestyle="dotted", color="mediumpurple"),
         "Z": dict(label="Pauli Z", linestyle="dashed", color="yellowgreen"),
     }
 
-- 
2.43.0


From 9a576caaa33132c934fc2fa5d8ee3043ee722412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 37/37] fix: visualise circuits without measurements

---
 src/plaquette/visualizer/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plaquette/visualizer/__init__.py b/src/plaquette/visualizer/__init__.py
index 46ec481..42b62fd 100644
--- a/src/plaquette/visualizer/__init__.py
+++ b/src/plaquette/visualizer/__init__.py
@@ -473,6 +473,8 @@ class CircuitVisualizer:
         qsm = openqasm.convert_to_openqasm(circuit).split("\n")
         qsm[0] = "OPENQASM 3.0;"
         qsm[1] = 'include "stdgates.inc";'
+        # OpenQASM 3.0 has no empty registers
+        qsm = [line for line in qsm if line != "creg c[0];"]
         qsm = "\n".join(qsm)
         self._circuit: qiskit.circuit.quantumcircuit.QuantumCircuit = qasm3.loads(qsm)
 
-- 
2.43.0

