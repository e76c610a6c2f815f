From 5d09fdfedad956752b83fe672be0d5b1303b05ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:02 +0000
Subject: [PATCH 01/37] fix: apply only the last interactions in step g of the
 xzzx QEC round

---
 surface_sim/circuit_blocks/rot_surface_code_xzzx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
index 9c5df8b..f713fa5 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
@@ -196,7 +196,7 @@ def qec_round_iterator(
     yield model.tick()
 
     # g
-    cz_circit = Circuit()
+    cz_circuit = Circuit()
     interacted_qubits = set()
     for stab_type in stab_types:
         stab_qubits = layout.get_qubits(role="anc", stab_type=stab_type)
-- 
2.43.0


From 4c2647e724c125a7db6fa976d45000046b125bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:02 +0000
Subject: [PATCH 02/37] fix: measure in the Y basis in
 BiasedCircuitNoiseModel.measure_y

---
 surface_sim/models/library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_sim/models/library.py b/surface_sim/models/library.py
index 209532f..9696bf2 100644
--- a/surface_sim/models/library.py
+++ b/surface_sim/models/library.py
@@ -411,9 +411,9 @@ class BiasedCircuitNoiseModel(Model):
             self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
-                circ.append(CircuitInstruction("MX", [ind], [prob]))
+                circ.append(CircuitInstruction("MY", [ind], [prob]))
             else:
-                circ.append(CircuitInstruction("MX", [ind]))
+                circ.append(CircuitInstruction("MY", [ind]))
 
         return circ
 
-- 
2.43.0


From 5edae441f991a86f0ea0126ca0e544cc57928b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:02 +0000
Subject: [PATCH 03/37] fix: measurements in DecoherenceNoiseModel with
 symmetric_noise=False

---
 surface_sim/models/library.py | 42 ++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/surface_sim/models/library.py b/surface_sim/models/library.py
index 9696bf2..480b387 100644
--- a/surface_sim/models/library.py
+++ b/surface_sim/models/library.py
@@ -561,8 +561,18 @@ class DecoherenceNoiseModel(Model):
             for qubit in qubits:
                 self.add_meas(qubit)
 
-                circ.append(CircuitInstruction(name, targets=[qubit]))
-                circ += self.idle(qubit, duration)
+                if self.param("assign_error_flag", qubit):
+                    prob = self.param("assign_error_prob", qubit)
+                    circ.append(
+                        CircuitInstruction(
+                            name, targets=self.get_inds([qubit]), gate_args=[prob]
+                        )
+                    )
+                else:
+                    circ.append(
+                        CircuitInstruction(name, targets=self.get_inds([qubit]))
+                    )
+                circ += self.idle([qubit], duration)
         return circ
 
     def measure_x(self, qubits: Iterable[str]) -> Circuit:
@@ -593,8 +603,18 @@ class DecoherenceNoiseModel(Model):
             for qubit in qubits:
                 self.add_meas(qubit)
 
-                circ.append(CircuitInstruction(name, targets=[qubit]))
-                circ += self.idle(qubit, duration)
+                if self.param("assign_error_flag", qubit):
+                    prob = self.param("assign_error_prob", qubit)
+                    circ.append(
+                        CircuitInstruction(
+                            name, targets=self.get_inds([qubit]), gate_args=[prob]
+                        )
+                    )
+                else:
+                    circ.append(
+                        CircuitInstruction(name, targets=self.get_inds([qubit]))
+                    )
+                circ += self.idle([qubit], duration)
         return circ
 
     def measure_y(self, qubits: Iterable[str]) -> Circuit:
@@ -625,8 +645,18 @@ class DecoherenceNoiseModel(Model):
             for qubit in qubits:
                 self.add_meas(qubit)
 
-                circ.append(CircuitInstruction(name, targets=[qubit]))
-                circ += self.idle(qubit, duration)
+                if self.param("assign_error_flag", qubit):
+                    prob = self.param("assign_error_prob", qubit)
+                    circ.append(
+                        CircuitInstruction(
+                            name, targets=self.get_inds([qubit]), gate_args=[prob]
+                        )
+                    )
+                else:
+                    circ.append(
+                        CircuitInstruction(name, targets=self.get_inds([qubit]))
+                    )
+                circ += self.idle([qubit], duration)
         return circ
 
     def reset(self, qubits: Iterable[str]) -> Circuit:
-- 
2.43.0


From 82d9266a0954d8bdbb8581c31aa531ce6ce963b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:38 +0000
Subject: [PATCH 04/37] fix: combine the stabilizer generators over GF(2) and
 in the direction of the gate

---
 surface_sim/detectors/detectors.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index ad4f015..7ce1abd 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -546,9 +546,12 @@ def _get_ancilla_meas_for_detectors(
     basis_arr = basis.sel(stab_gen=anc_qubits).values
     prev_gen_arr = prev_gen.sel(stab_gen=anc_qubits).values
 
-    # convert self.prev_gen and self.curr_gen to the frame basis
-    curr_gen_arr = curr_gen_arr @ np.linalg.inv(basis_arr)
-    prev_gen_arr = prev_gen_arr @ np.linalg.inv(basis_arr)
+    # express the stabilizers of the frame (rows) as products of the stabilizers
+    # measured in the current and in the previous rounds (columns).
+    # The generators are defined modulo 2, thus the inverses must be too.
+    basis_arr = GF2(basis_arr.astype(int))
+    curr_gen_arr = np.array(basis_arr @ np.linalg.inv(GF2(curr_gen_arr.astype(int))))
+    prev_gen_arr = np.array(basis_arr @ np.linalg.inv(GF2(prev_gen_arr.astype(int))))
 
     # get all outcomes that need to be XORed
     detectors = {}
-- 
2.43.0


From 11243d3b2c6e1b0a2736da6e543eb34544ef7fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:59 +0000
Subject: [PATCH 05/37] fix: only use existing outcomes of newly activated
 ancillas in the detectors

---
 surface_sim/detectors/detectors.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index 7ce1abd..5876e69 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -559,14 +559,17 @@ def _get_ancilla_meas_for_detectors(
         c_gen_inds = np.where(c_gen)[0]
         p_gen_inds = np.where(p_gen)[0]
 
-        targets = [(anc_qubits[ind], -1) for ind in c_gen_inds]
-        if num_rounds[anc_qubit] >= 2:
-            targets += [(anc_qubits[ind], -2) for ind in p_gen_inds]
-
-        if not anc_reset_curr and num_rounds[anc_qubit] >= 2:
-            targets += [(anc_qubits[ind], -2) for ind in c_gen_inds]
-        if not anc_reset_prev and num_rounds[anc_qubit] >= 3:
-            targets += [(anc_qubits[ind], -3) for ind in p_gen_inds]
+        # only use the outcomes of the ancillas that have been previously measured
+        c_gen_ancs = [anc_qubits[ind] for ind in c_gen_inds]
+        p_gen_ancs = [anc_qubits[ind] for ind in p_gen_inds]
+
+        targets = [(anc, -1) for anc in c_gen_ancs]
+        targets += [(anc, -2) for anc in p_gen_ancs if num_rounds[anc] >= 2]
+
+        if not anc_reset_curr:
+            targets += [(anc, -2) for anc in c_gen_ancs if num_rounds[anc] >= 2]
+        if not anc_reset_prev:
+            targets += [(anc, -3) for anc in p_gen_ancs if num_rounds[anc] >= 3]
 
         detectors[anc_qubit] = targets
 
-- 
2.43.0


From 933cbabc3ebeab847c43ec1a3a4ff584b1074b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:24 +0000
Subject: [PATCH 06/37] fix: keep the generators invertible when deactivating
 detectors

---
 surface_sim/detectors/detectors.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index 5876e69..738904e 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -128,6 +128,15 @@ class Detectors:
                 "Elements in 'anc_qubits' are not ancilla qubits in this object."
             )
 
+        # only the gates since the last round matter for the next detectors, thus
+        # remove the previous ones so that the generators are invertible when
+        # removing the deactivated ancillas.
+        curr_gen_arr = GF2(self.curr_gen.sel(stab_gen=self.anc_qubit_labels).values)
+        prev_gen_arr = GF2(self.prev_gen.sel(stab_gen=self.anc_qubit_labels).values)
+        gates = np.array(curr_gen_arr @ np.linalg.inv(prev_gen_arr), dtype=np.int64)
+        self.prev_gen = deepcopy(self.init_gen)
+        self.curr_gen = self.init_gen.copy(data=gates)
+
         for anc in anc_qubits:
             if not self.anc_qubits[anc]:
                 raise ValueError(f"Ancilla {anc} was already active.")
-- 
2.43.0


From ff59bc5edac6d95ee2a8f5ee87287faab4cb1aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:43 +0000
Subject: [PATCH 07/37] fix: alternate the orientation of every CNOT in
 repeated_cnot_experiment

---
 surface_sim/experiments/rot_surface_code_css.py   | 6 +++---
 surface_sim/experiments/unrot_surface_code_css.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/surface_sim/experiments/rot_surface_code_css.py b/surface_sim/experiments/rot_surface_code_css.py
index 3d0b794..cf64200 100644
--- a/surface_sim/experiments/rot_surface_code_css.py
+++ b/surface_sim/experiments/rot_surface_code_css.py
@@ -308,9 +308,9 @@ def repeated_cnot_experiment(
     for k in range(num_cnot_gates):
         if (cnot_orientation == "alternating") and (k % 2 == 1):
             # change control and target of t-CNOT
-            layout_c, layout_t = layout_t, layout_c
-
-        experiment += log_trans_cnot(model, layout_c, layout_t, detectors)
+            experiment += log_trans_cnot(model, layout_t, layout_c, detectors)
+        else:
+            experiment += log_trans_cnot(model, layout_c, layout_t, detectors)
 
         for _ in range(num_rounds_per_gate):
             experiment += merge_qec_rounds(
diff --git a/surface_sim/experiments/unrot_surface_code_css.py b/surface_sim/experiments/unrot_surface_code_css.py
index 360672a..8be8b72 100644
--- a/surface_sim/experiments/unrot_surface_code_css.py
+++ b/surface_sim/experiments/unrot_surface_code_css.py
@@ -403,9 +403,9 @@ def repeated_cnot_experiment(
     for k in range(num_cnot_gates):
         if (cnot_orientation == "alternating") and (k % 2 == 1):
             # change control and target of t-CNOT
-            layout_c, layout_t = layout_t, layout_c
-
-        experiment += log_trans_cnot(model, layout_c, layout_t, detectors)
+            experiment += log_trans_cnot(model, layout_t, layout_c, detectors)
+        else:
+            experiment += log_trans_cnot(model, layout_c, layout_t, detectors)
 
         for _ in range(num_rounds_per_gate):
             experiment += merge_qec_rounds(
-- 
2.43.0


From bbd76ed8a12f21505aaca033ff8578baafbffe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:43 +0000
Subject: [PATCH 08/37] fix: do not repeat observable indices in merge_log_meas

---
 surface_sim/util/circuit_operations.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index c9fd819..027f87d 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -312,16 +312,17 @@ def merge_log_meas(
     )
 
     # add logicals
-    for k, (layout, rot_basis) in enumerate(zip(layouts, rot_bases)):
-        num_logs = len(layout.get_logical_qubits())
-        for l, log_qubit_label in enumerate(layout.get_logical_qubits()):
+    num_logs = 0
+    for layout, rot_basis in zip(layouts, rot_bases):
+        for log_qubit_label in layout.get_logical_qubits():
             log_op = "log_x" if rot_basis else "log_z"
             log_qubits_support = getattr(layout, log_op)
             log_data_qubits = log_qubits_support[log_qubit_label]
             targets = [model.meas_target(qubit, -1) for qubit in log_data_qubits]
             instr = stim.CircuitInstruction(
-                "OBSERVABLE_INCLUDE", targets=targets, gate_args=[k * num_logs + l]
+                "OBSERVABLE_INCLUDE", targets=targets, gate_args=[num_logs]
             )
             circuit.append(instr)
+            num_logs += 1
 
     return circuit
-- 
2.43.0


From 1e1398941c6223be317c162fefc9689ef65465e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:43 +0000
Subject: [PATCH 09/37] fix: idle the unused data qubits in the xzzx logical
 Pauli gates

---
 surface_sim/circuit_blocks/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/surface_sim/circuit_blocks/util.py b/surface_sim/circuit_blocks/util.py
index fda1c87..8ce8127 100644
--- a/surface_sim/circuit_blocks/util.py
+++ b/surface_sim/circuit_blocks/util.py
@@ -591,6 +591,7 @@ def log_x_xzzx_iterator(model: Model, layout: Layout) -> Iterator[Circuit]:
     """
     anc_qubits = layout.get_qubits(role="anc")
     data_qubits = layout.get_qubits(role="data")
+    qubits = anc_qubits + data_qubits
 
     log_qubit_label = layout.get_logical_qubits()[0]
     log_x_qubits = layout.log_x[log_qubit_label]
@@ -606,7 +607,8 @@ def log_x_xzzx_iterator(model: Model, layout: Layout) -> Iterator[Circuit]:
     pauli_z = set(d for d in log_x_qubits if d in rot_qubits)
     pauli_x = set(log_x_qubits) - pauli_z
 
-    yield model.x_gate(pauli_x) + model.z_gate(pauli_z) + model.idle(anc_qubits)
+    idle_qubits = set(qubits) - set(log_x_qubits)
+    yield model.x_gate(pauli_x) + model.z_gate(pauli_z) + model.idle(idle_qubits)
     yield model.tick()
 
 
@@ -626,6 +628,7 @@ def log_z_xzzx_iterator(model: Model, layout: Layout) -> Iterator[Circuit]:
     """
     anc_qubits = layout.get_qubits(role="anc")
     data_qubits = layout.get_qubits(role="data")
+    qubits = anc_qubits + data_qubits
 
     log_qubit_label = layout.get_logical_qubits()[0]
     log_z_qubits = layout.log_z[log_qubit_label]
@@ -641,7 +644,8 @@ def log_z_xzzx_iterator(model: Model, layout: Layout) -> Iterator[Circuit]:
     pauli_x = set(d for d in log_z_qubits if d in rot_qubits)
     pauli_z = set(log_z_qubits) - pauli_x
 
-    yield model.x_gate(pauli_x) + model.z_gate(pauli_z) + model.idle(anc_qubits)
+    idle_qubits = set(qubits) - set(log_z_qubits)
+    yield model.x_gate(pauli_x) + model.z_gate(pauli_z) + model.idle(idle_qubits)
     yield model.tick()
 
 
-- 
2.43.0


From d1b8eaaeeec80d2bac9f61f906bea90e1b9dd92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:26 +0000
Subject: [PATCH 10/37] fix: keep the measurement order when merging TICK
 blocks

---
 surface_sim/util/circuit_operations.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index 027f87d..5b37cd9 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -94,9 +94,6 @@ def merge_tick_blocks(*blocks: stim.Circuit) -> stim.Circuit:
     including noise channels).
     """
     ops_blocks = [tuple(instr.name for instr in block) for block in blocks]
-    if len(set(len(b) for b in ops_blocks)) != 1:
-        raise ValueError("The given blocks do not have the same number of operatons.")
-
     mergeable_blocks = {}
     for block, op_block in zip(blocks, ops_blocks):
         if op_block not in mergeable_blocks:
@@ -104,9 +101,14 @@ def merge_tick_blocks(*blocks: stim.Circuit) -> stim.Circuit:
         else:
             mergeable_blocks[op_block].append(block)
 
+    # the order of the measurements must be the one in which the blocks are given
+    num_meas = [sum(op in MEAS_INSTR for op in op_block) for op_block in ops_blocks]
+    if any(num_meas) and (len(mergeable_blocks) > 1 or max(num_meas) > 1):
+        return sum(blocks, start=stim.Circuit())
+
     merged_circuit = stim.Circuit()
-    for t, _ in enumerate(ops_blocks[0]):
-        for mblocks in mergeable_blocks.values():
+    for op_block, mblocks in mergeable_blocks.items():
+        for t, _ in enumerate(op_block):
             for block in mblocks:
                 # the trick with the indices ensures that the returned object
                 # is a stim.Circuit instead of a stim.CircuitInstruction
-- 
2.43.0


From 675c29a6a8cecfa0a879957d5eb263c081527bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:00 +0000
Subject: [PATCH 11/37] fix: keep the order of the operations and the exact
 probabilities in merge_circuits

---
 surface_sim/util/circuit_operations.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index 5b37cd9..550d628 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -49,7 +49,9 @@ def merge_circuits(*circuits: stim.Circuit, check_meas: bool = True) -> stim.Cir
         raise ValueError("All the circuits must have the same number of TICKs.")
 
     # split circuits into TICK blocks
-    blocks = [[] for _ in range(circuits[0].num_ticks + 1)]
+    blocks = [
+        [stim.Circuit() for _ in circuits] for _ in range(circuits[0].num_ticks + 1)
+    ]
     measure_block = [set() for _, _ in enumerate(circuits)]
     for k, circuit in enumerate(circuits):
         block_id = 0
@@ -59,7 +61,7 @@ def merge_circuits(*circuits: stim.Circuit, check_meas: bool = True) -> stim.Cir
             else:
                 if instr.name in MEAS_INSTR:
                     measure_block[k].add(block_id)
-                blocks[block_id].append(instr)
+                blocks[block_id][k].append(instr)
 
     if check_meas:
         if any(len(m) > 1 for m in measure_block):
@@ -71,15 +73,10 @@ def merge_circuits(*circuits: stim.Circuit, check_meas: bool = True) -> stim.Cir
                 "The measurements happen at different TICK blocks in each circuit."
             )
 
-    # sort the instructions in each block for better readability in the circuit
-    blocks = [sorted(block, key=lambda x: x.name) for block in blocks]
-
     # merge instructions in blocks and into a circuit.
     # remember that it is not possible to add stim.CircuitInstruction to stim.Circuit
     tick = stim.Circuit("TICK")
-    merged_blocks = [
-        stim.Circuit("\n".join(map(str, block))) + tick for block in blocks
-    ]
+    merged_blocks = [merge_tick_blocks(*block) + tick for block in blocks]
     merged_blocks[-1].pop(-1)  # removes extra TICK at the end
     merged_circuit = sum(merged_blocks, start=stim.Circuit())
 
-- 
2.43.0


From 900941a0dd8c792f0bc9fb7ab46ba5fc2ebf73c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:15 +0000
Subject: [PATCH 12/37] fix: measure all the layouts in merge_log_meas when the
 bases differ

---
 surface_sim/util/circuit_operations.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index 550d628..f4eadc8 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -276,13 +276,19 @@ def merge_log_meas(
         if set(anc_detectors) > set(sum(anc_qubits, start=[])):
             raise ValueError("Some elements in 'anc_detectors' are not ancilla qubits.")
 
+    layout_blocks = [
+        list(log_meas_iterator(model=model, layout=l, rot_basis=r, **kargs))
+        for l, r in zip(layouts, rot_bases)
+    ]
+    # the layouts that do not need to rotate the measurement basis idle in the
+    # meantime so that all layouts are measured at the same time.
+    num_blocks = max(map(len, layout_blocks), default=0)
+    for layout, blocks in zip(layouts, layout_blocks):
+        while len(blocks) < num_blocks:
+            blocks[-2:-2] = [model.idle(layout.get_qubits()), model.tick()]
+
     circuit = stim.Circuit()
-    for blocks in zip(
-        *[
-            log_meas_iterator(model=model, layout=l, rot_basis=r, **kargs)
-            for l, r in zip(layouts, rot_bases)
-        ]
-    ):
+    for blocks in zip(*layout_blocks):
         merged_block = merge_tick_blocks(*blocks)
 
         if (len(merged_block) != 0) and (merged_block[0].name == "TICK"):
-- 
2.43.0


From 614217f4f118abca227649ec45c247d7a8801a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:53 +0000
Subject: [PATCH 13/37] fix: index the coordinates in order in expansion_matrix

---
 surface_sim/layouts/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/layouts/layout.py b/surface_sim/layouts/layout.py
index cb790a5..5415d5b 100644
--- a/surface_sim/layouts/layout.py
+++ b/surface_sim/layouts/layout.py
@@ -549,7 +549,7 @@ def index_coords(coords: list[int], reverse: bool = False) -> tuple[list[int], i
     tuple[list[int], int]
         The list of indexed coordinates and the number of unique coordinates.
     """
-    unique_vals = set(coords)
+    unique_vals = sorted(set(coords))
     num_unique_vals = len(unique_vals)
 
     if reverse:
-- 
2.43.0


From 6e11bb991c21636d3c5a2d452bfa54d40b9f355f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:53 +0000
Subject: [PATCH 14/37] fix: set both coordinates in set_coords for cardinal
 directions

---
 surface_sim/layouts/util.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/surface_sim/layouts/util.py b/surface_sim/layouts/util.py
index 81fa691..d9d27c9 100644
--- a/surface_sim/layouts/util.py
+++ b/surface_sim/layouts/util.py
@@ -19,11 +19,12 @@ def set_coords(layout: Layout, override: bool = False) -> None:
     if (not override) and (nx.get_node_attributes(layout.graph, "coords") != {}):
         raise ValueError("'layout' already has coordinates, use 'override' flag.")
 
-    # Get the shift in the coordinate for a given direction.
-    def get_shift(direction: str) -> int:
-        if direction in ("south", "west"):
-            return -1
-        return 1
+    # Get the shift in the coordinates for a given direction.
+    def get_shifts(direction: str) -> tuple[int, ...]:
+        shifts = {"north": (0, 1), "south": (0, -1), "east": (1, 0), "west": (-1, 0)}
+        if direction in shifts:
+            return shifts[direction]
+        return tuple(-1 if d in ("south", "west") else 1 for d in direction.split("_"))
 
     nodes = list(layout.graph.nodes)  # graph nodes
     init_node = nodes.pop()  # initial node
@@ -42,9 +43,7 @@ def set_coords(layout: Layout, override: bool = False) -> None:
 
         for _, nbr_node, ord_dir in layout.graph.edges(node, data="direction"):
             if nbr_node not in set_nodes:
-                card_dirs = ord_dir.split("_")
-                shifts = tuple(map(get_shift, card_dirs))
-                nbr_coords = list(map(sum, zip(coords, shifts)))
+                nbr_coords = list(map(sum, zip(coords, get_shifts(ord_dir))))
                 queue.appendleft((nbr_node, nbr_coords))
 
 
-- 
2.43.0


From d211f8ce0196236a0594401996e8511c9f4c720c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:53 +0000
Subject: [PATCH 15/37] fix: raise ValueError when accessing the first
 unavailable measurement

---
 surface_sim/models/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/models/model.py b/surface_sim/models/model.py
index 3034282..1315e93 100644
--- a/surface_sim/models/model.py
+++ b/surface_sim/models/model.py
@@ -84,7 +84,7 @@ class Model(object):
         rounds (or some linear combination of syndrome outcomes).
         """
         num_meas_qubit = len(self._meas_order[qubit])
-        if (rel_meas_ind > num_meas_qubit) or (rel_meas_ind < -num_meas_qubit):
+        if (rel_meas_ind >= num_meas_qubit) or (rel_meas_ind < -num_meas_qubit):
             raise ValueError(
                 f"{qubit} has only {num_meas_qubit} measurements, but {rel_meas_ind} was accessed."
             )
-- 
2.43.0


From 9d20d2103c11b7e09fa93f61dd72427bef108c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:14 +0000
Subject: [PATCH 16/37] fix: look for the parent parameter of the same qubits
 in Setup.param

---
 surface_sim/setup/setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/setup/setup.py b/surface_sim/setup/setup.py
index 7dd8f72..5ad80e2 100644
--- a/surface_sim/setup/setup.py
+++ b/surface_sim/setup/setup.py
@@ -226,7 +226,7 @@ class Setup:
             return self._eval_param_val(val)
 
         if param in self.PARENTS:
-            return self.param(self.PARENTS[param])
+            return self.param(self.PARENTS[param], *qubits)
 
         if qubits:
             qubit_str = ", ".join(qubits)
-- 
2.43.0


From c3765ffc5d32338eaa64a533966f540e4db6c4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:14 +0000
Subject: [PATCH 17/37] fix: allow Setup.set_param for qubits without
 parameters

---
 surface_sim/setup/setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/setup/setup.py b/surface_sim/setup/setup.py
index 5ad80e2..1adc671 100644
--- a/surface_sim/setup/setup.py
+++ b/surface_sim/setup/setup.py
@@ -196,7 +196,7 @@ class Setup:
         else:
             if any(not isinstance(q, str) for q in qubits):
                 raise TypeError("All qubits must be str.")
-            self._qubit_params[qubits][param] = param_val
+            self._qubit_params.setdefault(qubits, {})[param] = param_val
 
     def param(self, param: str, *qubits: str) -> float:
         """Returns the value of the given parameter for the specified qubit(s).
-- 
2.43.0


From 24cfba48395ae4cd783bffaba16c9609e51d6a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:14 +0000
Subject: [PATCH 18/37] fix: define the free parameters given to
 Setup.set_param

---
 surface_sim/setup/setup.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/surface_sim/setup/setup.py b/surface_sim/setup/setup.py
index 1adc671..7716434 100644
--- a/surface_sim/setup/setup.py
+++ b/surface_sim/setup/setup.py
@@ -191,6 +191,9 @@ class Setup:
                 f"but {type(param_val)} was given."
             )
 
+        if isinstance(param_val, str):
+            self._var_params.setdefault(param_val, None)
+
         if not qubits:
             self._global_params[param] = param_val
         else:
-- 
2.43.0


From bca804bebf299f5b17a2dfde1a651d9e1ad5e76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:02 +0000
Subject: [PATCH 19/37] fix: reject unknown qubits also when not all the known
 ones are given

---
 surface_sim/circuit_blocks/rot_surface_code_css.py        | 2 +-
 .../circuit_blocks/rot_surface_code_css_pipelined.py      | 2 +-
 surface_sim/circuit_blocks/rot_surface_code_xzzx.py       | 2 +-
 .../circuit_blocks/rot_surface_code_xzzx_google.py        | 2 +-
 .../circuit_blocks/rot_surface_code_xzzx_pipelined.py     | 2 +-
 surface_sim/circuit_blocks/unrot_surface_code_css.py      | 2 +-
 surface_sim/circuit_blocks/util.py                        | 4 ++--
 surface_sim/detectors/detectors.py                        | 8 ++++----
 surface_sim/layouts/layout.py                             | 2 +-
 surface_sim/models/model.py                               | 2 +-
 surface_sim/util/circuit_operations.py                    | 4 ++--
 11 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/surface_sim/circuit_blocks/rot_surface_code_css.py b/surface_sim/circuit_blocks/rot_surface_code_css.py
index 55f09fd..7322948 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_css.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_css.py
@@ -75,7 +75,7 @@ def qec_round(
     anc_qubits = layout.get_qubits(role="anc")
     if anc_detectors is None:
         anc_detectors = anc_qubits
-    if set(anc_detectors) > set(anc_qubits):
+    if not set(anc_detectors) <= set(anc_qubits):
         raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
 
     circuit += detectors.build_from_anc(
diff --git a/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py b/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py
index 43a8907..caee7e7 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py
@@ -75,7 +75,7 @@ def qec_round(
     anc_qubits = layout.get_qubits(role="anc")
     if anc_detectors is None:
         anc_detectors = anc_qubits
-    if set(anc_detectors) > set(anc_qubits):
+    if not set(anc_detectors) <= set(anc_qubits):
         raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
 
     circuit += detectors.build_from_anc(
diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
index f713fa5..2704699 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
@@ -68,7 +68,7 @@ def qec_round(
     anc_qubits = layout.get_qubits(role="anc")
     if anc_detectors is None:
         anc_detectors = anc_qubits
-    if set(anc_detectors) > set(anc_qubits):
+    if not set(anc_detectors) <= set(anc_qubits):
         raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
 
     circuit += detectors.build_from_anc(
diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
index 384bb93..95d6534 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
@@ -63,7 +63,7 @@ def qec_round_with_log_meas(
         )
     if anc_detectors is None:
         anc_detectors = layout.get_qubits(role="anc")
-    if set(anc_detectors) > set(layout.get_qubits(role="anc")):
+    if not set(anc_detectors) <= set(layout.get_qubits(role="anc")):
         raise ValueError("Some of the given 'anc_qubits' are not ancilla qubits.")
 
     anc_qubits = layout.get_qubits(role="anc")
diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py
index 8e30bca..882d83f 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py
@@ -69,7 +69,7 @@ def qec_round(
     anc_qubits = layout.get_qubits(role="anc")
     if anc_detectors is None:
         anc_detectors = anc_qubits
-    if set(anc_detectors) > set(anc_qubits):
+    if not set(anc_detectors) <= set(anc_qubits):
         raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
 
     circuit += detectors.build_from_anc(
diff --git a/surface_sim/circuit_blocks/unrot_surface_code_css.py b/surface_sim/circuit_blocks/unrot_surface_code_css.py
index 3f9872b..cd1c2c5 100644
--- a/surface_sim/circuit_blocks/unrot_surface_code_css.py
+++ b/surface_sim/circuit_blocks/unrot_surface_code_css.py
@@ -77,7 +77,7 @@ def qec_round(
     anc_qubits = layout.get_qubits(role="anc")
     if anc_detectors is None:
         anc_detectors = anc_qubits
-    if set(anc_detectors) > set(anc_qubits):
+    if not set(anc_detectors) <= set(anc_qubits):
         raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
 
     circuit += detectors.build_from_anc(
diff --git a/surface_sim/circuit_blocks/util.py b/surface_sim/circuit_blocks/util.py
index 8ce8127..8122ff4 100644
--- a/surface_sim/circuit_blocks/util.py
+++ b/surface_sim/circuit_blocks/util.py
@@ -56,7 +56,7 @@ def log_meas(
     anc_qubits = layout.get_qubits(role="anc")
     if anc_detectors is None:
         anc_detectors = anc_qubits
-    if set(anc_detectors) > set(anc_qubits):
+    if not set(anc_detectors) <= set(anc_qubits):
         raise ValueError("Some of the given 'anc_qubits' are not ancilla qubits.")
 
     circuit = sum(
@@ -499,7 +499,7 @@ def log_meas_xzzx(
 
     if anc_detectors is None:
         anc_detectors = layout.get_qubits(role="anc")
-    if set(anc_detectors) > set(layout.get_qubits(role="anc")):
+    if not set(anc_detectors) <= set(layout.get_qubits(role="anc")):
         raise ValueError("Some of the given 'anc_qubits' are not ancilla qubits.")
 
     circuit = sum(
diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index 738904e..7414de7 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -103,7 +103,7 @@ class Detectors:
             raise TypeError(
                 f"'anc_qubits' must be an Iterable, but {type(anc_qubits)} was given."
             )
-        if set(anc_qubits) > set(self.anc_qubits):
+        if not set(anc_qubits) <= set(self.anc_qubits):
             raise ValueError(
                 "Elements in 'anc_qubits' are not ancilla qubits in this object."
             )
@@ -123,7 +123,7 @@ class Detectors:
             raise TypeError(
                 f"'anc_qubits' must be an Iterable, but {type(anc_qubits)} was given."
             )
-        if set(anc_qubits) > set(self.anc_qubits):
+        if not set(anc_qubits) <= set(self.anc_qubits):
             raise ValueError(
                 "Elements in 'anc_qubits' are not ancilla qubits in this object."
             )
@@ -185,7 +185,7 @@ class Detectors:
             )
         if any(not isinstance(s, Iterable) for s in new_stab_gens.values()):
             raise TypeError("Elements in 'new_stab_gens' must be lists.")
-        if set(new_stab_gens) > set(self.anc_qubit_labels):
+        if not set(new_stab_gens) <= set(self.anc_qubit_labels):
             raise ValueError(
                 "Elements in 'new_stab_gens' are not ancilla qubits in this Detectors class."
             )
@@ -415,7 +415,7 @@ class Detectors:
             raise TypeError(
                 f"'anc_support' must be a dict, but {type(anc_support)} was given."
             )
-        if set(anc_support) < set(reconstructable_stabs):
+        if not set(reconstructable_stabs) <= set(anc_support):
             raise ValueError(
                 "Elements in 'reconstructable_stabs' must be present in 'anc_support'."
             )
diff --git a/surface_sim/layouts/layout.py b/surface_sim/layouts/layout.py
index 5415d5b..79d38a4 100644
--- a/surface_sim/layouts/layout.py
+++ b/surface_sim/layouts/layout.py
@@ -269,7 +269,7 @@ class Layout:
         """
         all_coords = nx.get_node_attributes(self.graph, "coords")
 
-        if set(qubits) > set(all_coords):
+        if not set(qubits) <= set(all_coords):
             raise ValueError("Some of the given qubits do not have coordinates.")
 
         return [all_coords[q] for q in qubits]
diff --git a/surface_sim/models/model.py b/surface_sim/models/model.py
index 1315e93..c8c19ed 100644
--- a/surface_sim/models/model.py
+++ b/surface_sim/models/model.py
@@ -106,7 +106,7 @@ class Model(object):
         return circ
 
     def qubit_coords(self, coords: dict[str, list]) -> Circuit:
-        if set(coords) > set(self._qubit_inds):
+        if not set(coords) <= set(self._qubit_inds):
             raise ValueError(
                 "'coords' have qubits not defined in the model:\n"
                 f"coords={list(coords.keys())}\nmodel={list(self._qubit_inds.keys())}."
diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index f4eadc8..694f545 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -169,7 +169,7 @@ def merge_qec_rounds(
         )
     if anc_detectors is not None:
         anc_qubits = [l.get_qubits(role="anc") for l in layouts]
-        if set(anc_detectors) > set(sum(anc_qubits, start=[])):
+        if not set(anc_detectors) <= set(sum(anc_qubits, start=[])):
             raise ValueError("Some elements in 'anc_detectors' are not ancilla qubits.")
 
     circuit = stim.Circuit()
@@ -273,7 +273,7 @@ def merge_log_meas(
 
     if anc_detectors is not None:
         anc_qubits = [l.get_qubits(role="anc") for l in layouts]
-        if set(anc_detectors) > set(sum(anc_qubits, start=[])):
+        if not set(anc_detectors) <= set(sum(anc_qubits, start=[])):
             raise ValueError("Some elements in 'anc_detectors' are not ancilla qubits.")
 
     layout_blocks = [
-- 
2.43.0


From 869cf2569ef856dcf6f28e233539eded120ee851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:22 +0000
Subject: [PATCH 20/37] fix: do not share objects between a Layout/Setup and
 its dictionaries and copies

---
 surface_sim/layouts/layout.py | 5 ++++-
 surface_sim/setup/setup.py    | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/surface_sim/layouts/layout.py b/surface_sim/layouts/layout.py
index 79d38a4..d602e71 100644
--- a/surface_sim/layouts/layout.py
+++ b/surface_sim/layouts/layout.py
@@ -79,6 +79,9 @@ class Layout:
         if not isinstance(setup, dict):
             raise ValueError(f"'setup' must be a dict, instead got {type(setup)}.")
 
+        # the layout must not share objects with the given setup
+        setup = deepcopy(setup)
+
         self.name = setup.get("name", "")
         self.code = setup.get("code", "")
         self._log_qubits = setup.get("logical_qubit_labels", [])
@@ -151,7 +154,7 @@ class Layout:
 
             layout.append(node_dict)
         setup["layout"] = layout
-        return setup
+        return deepcopy(setup)
 
     def get_inds(self, qubits: Iterable[str]) -> list[int]:
         """Returns the indices of the qubits.
diff --git a/surface_sim/setup/setup.py b/surface_sim/setup/setup.py
index 7716434..500e0de 100644
--- a/surface_sim/setup/setup.py
+++ b/surface_sim/setup/setup.py
@@ -115,7 +115,7 @@ class Setup:
 
         setup["setup"] = qubit_params
 
-        return setup
+        return deepcopy(setup)
 
     def to_yaml(self, filename: str | Path) -> None:
         """Stores the current ``Setup`` configuration in the given file
-- 
2.43.0


From 29101718a05769cbe969f5d2055b56c503453e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:24 +0000
Subject: [PATCH 21/37] fix: do not (de)activate some detectors when the
 request is rejected

---
 surface_sim/detectors/detectors.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index 7414de7..f0f0f20 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -112,6 +112,7 @@ class Detectors:
             if self.anc_qubits[anc]:
                 raise ValueError(f"Ancilla {anc} was already active.")
 
+        for anc in anc_qubits:
             self.anc_qubits[anc] = True
             self.num_rounds[anc] = 0
 
@@ -128,6 +129,10 @@ class Detectors:
                 "Elements in 'anc_qubits' are not ancilla qubits in this object."
             )
 
+        for anc in anc_qubits:
+            if not self.anc_qubits[anc]:
+                raise ValueError(f"Ancilla {anc} was already active.")
+
         # only the gates since the last round matter for the next detectors, thus
         # remove the previous ones so that the generators are invertible when
         # removing the deactivated ancillas.
@@ -138,9 +143,6 @@ class Detectors:
         self.curr_gen = self.init_gen.copy(data=gates)
 
         for anc in anc_qubits:
-            if not self.anc_qubits[anc]:
-                raise ValueError(f"Ancilla {anc} was already active.")
-
             self.anc_qubits[anc] = False
 
             # set the generators to the identity for the deactivated ancillas.
-- 
2.43.0


From 9bdef5c125f7082d87c2728ec93e0781440d0402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:00 +0000
Subject: [PATCH 22/37] fix: keep the pending gates of the other codes when
 measuring a code

---
 surface_sim/detectors/detectors.py | 52 ++++++++++++++++--------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index f0f0f20..fcfd9fa 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -133,34 +133,33 @@ class Detectors:
             if not self.anc_qubits[anc]:
                 raise ValueError(f"Ancilla {anc} was already active.")
 
-        # only the gates since the last round matter for the next detectors, thus
-        # remove the previous ones so that the generators are invertible when
-        # removing the deactivated ancillas.
-        curr_gen_arr = GF2(self.curr_gen.sel(stab_gen=self.anc_qubit_labels).values)
-        prev_gen_arr = GF2(self.prev_gen.sel(stab_gen=self.anc_qubit_labels).values)
-        gates = np.array(curr_gen_arr @ np.linalg.inv(prev_gen_arr), dtype=np.int64)
+        # set the generators to the identity for the deactivated ancillas.
+        # See #149 for more information.
+        gates = self._get_gates_since_last_round(exclude=anc_qubits)
         self.prev_gen = deepcopy(self.init_gen)
-        self.curr_gen = self.init_gen.copy(data=gates)
-
+        self.curr_gen = self.init_gen.copy(data=np.array(gates, dtype=np.int64))
         for anc in anc_qubits:
             self.anc_qubits[anc] = False
 
-            # set the generators to the identity for the deactivated ancillas.
-            # See #149 for more information.
-            for other_anc in self.anc_qubit_labels:
-                anc_ind = self.anc_qubit_labels.index(anc)
-                other_anc_ind = self.anc_qubit_labels.index(other_anc)
-                if other_anc == anc:
-                    self.curr_gen.loc[dict(stab_gen=anc, basis=anc_ind)] = 1
-                    self.prev_gen.loc[dict(stab_gen=anc, basis=anc_ind)] = 1
-                else:
-                    self.curr_gen.loc[dict(stab_gen=other_anc, basis=anc_ind)] = 0
-                    self.curr_gen.loc[dict(stab_gen=anc, basis=other_anc_ind)] = 0
-                    self.prev_gen.loc[dict(stab_gen=other_anc, basis=anc_ind)] = 0
-                    self.prev_gen.loc[dict(stab_gen=anc, basis=other_anc_ind)] = 0
-
         return
 
+    def _get_gates_since_last_round(self, exclude: Iterable[str]) -> GF2:
+        """Returns the transformation of the generators since the last QEC round
+        without the one from the ancillas in ``exclude`` and the ancillas that
+        have been mixed with them, so that it is always invertible."""
+        labels = self.anc_qubit_labels
+        curr_gen = GF2(self.curr_gen.sel(stab_gen=labels).values.astype(int))
+        prev_gen = GF2(self.prev_gen.sel(stab_gen=labels).values.astype(int))
+        gates = curr_gen @ np.linalg.inv(prev_gen)
+
+        mixed = np.array(gates) | np.array(gates).T
+        reset = np.array([anc in exclude for anc in labels], dtype=bool)
+        while not np.array_equal(new := reset | mixed[reset].any(axis=0), reset):
+            reset = new
+        gates[reset] = GF2.Identity(len(labels))[reset]
+
+        return gates
+
     def update_from_dict(self, new_stab_gens: dict[str, list[str]]) -> None:
         """Update the current stabilizer generators with the dictionary
         descriving the effect of the logical gate.
@@ -509,8 +508,13 @@ class Detectors:
             )
             detectors_stim.append(instr)
 
-        # update generators
-        self.prev_gen = deepcopy(self.curr_gen)
+        # update generators, but keep the gates on the ancillas whose stabilizers
+        # have not been measured because this is not a QEC round for them.
+        gates = self._get_gates_since_last_round(exclude=reconstructable_stabs)
+        curr_gen = self.curr_gen.sel(stab_gen=self.anc_qubit_labels)
+        self.prev_gen = curr_gen.copy(
+            data=np.array(np.linalg.inv(gates) @ GF2(curr_gen.values.astype(int)))
+        )
 
         return detectors_stim
 
-- 
2.43.0


From 0cd6e7fdc14d2d0101940a1b43ff5198a190ba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:22 +0000
Subject: [PATCH 23/37] fix: record no outcomes when a measurement request is
 rejected

---
 surface_sim/models/library.py | 90 ++++++++++++++++++++++++-----------
 1 file changed, 63 insertions(+), 27 deletions(-)

diff --git a/surface_sim/models/library.py b/surface_sim/models/library.py
index 480b387..12c1d9d 100644
--- a/surface_sim/models/library.py
+++ b/surface_sim/models/library.py
@@ -118,13 +118,15 @@ class CircuitNoiseModel(Model):
             circ.append(CircuitInstruction("X_ERROR", [ind], [prob]))
 
         for qubit, ind in zip(qubits, inds):
-            self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
                 circ.append(CircuitInstruction("MZ", [ind], [prob]))
             else:
                 circ.append(CircuitInstruction("MZ", [ind]))
 
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def measure_x(self, qubits: Iterable[str]) -> Circuit:
@@ -137,13 +139,15 @@ class CircuitNoiseModel(Model):
             circ.append(CircuitInstruction("Z_ERROR", [ind], [prob]))
 
         for qubit, ind in zip(qubits, inds):
-            self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
                 circ.append(CircuitInstruction("MX", [ind], [prob]))
             else:
                 circ.append(CircuitInstruction("MX", [ind]))
 
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def measure_y(self, qubits: Iterable[str]) -> Circuit:
@@ -156,13 +160,15 @@ class CircuitNoiseModel(Model):
             circ.append(CircuitInstruction("Z_ERROR", [ind], [prob]))
 
         for qubit, ind in zip(qubits, inds):
-            self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
                 circ.append(CircuitInstruction("MY", [ind], [prob]))
             else:
                 circ.append(CircuitInstruction("MY", [ind]))
 
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def reset(self, qubits: Iterable[str]) -> Circuit:
@@ -370,13 +376,15 @@ class BiasedCircuitNoiseModel(Model):
             circ.append(CircuitInstruction("X_ERROR", [ind], [prob]))
 
         for qubit, ind in zip(qubits, inds):
-            self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
                 circ.append(CircuitInstruction("MZ", [ind], [prob]))
             else:
                 circ.append(CircuitInstruction("MZ", [ind]))
 
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def measure_x(self, qubits: Iterable[str]) -> Circuit:
@@ -389,13 +397,15 @@ class BiasedCircuitNoiseModel(Model):
             circ.append(CircuitInstruction("Z_ERROR", [ind], [prob]))
 
         for qubit, ind in zip(qubits, inds):
-            self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
                 circ.append(CircuitInstruction("MX", [ind], [prob]))
             else:
                 circ.append(CircuitInstruction("MX", [ind]))
 
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def measure_y(self, qubits: Iterable[str]) -> Circuit:
@@ -408,13 +418,15 @@ class BiasedCircuitNoiseModel(Model):
             circ.append(CircuitInstruction("X_ERROR", [ind], [prob]))
 
         for qubit, ind in zip(qubits, inds):
-            self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
                 circ.append(CircuitInstruction("MY", [ind], [prob]))
             else:
                 circ.append(CircuitInstruction("MY", [ind]))
 
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def reset(self, qubits: Iterable[str]) -> Circuit:
@@ -534,6 +546,7 @@ class DecoherenceNoiseModel(Model):
         return self.generic_op("SWAP", qubits)
 
     def measure(self, qubits: Iterable[str]) -> Circuit:
+        qubits = list(qubits)
         circ = Circuit()
         name = "M"
         if self._sym_noise:
@@ -541,8 +554,6 @@ class DecoherenceNoiseModel(Model):
 
             circ += self.idle(qubits, duration)
             for qubit in qubits:
-                self.add_meas(qubit)
-
                 if self.param("assign_error_flag", qubit):
                     prob = self.param("assign_error_prob", qubit)
                     circ.append(
@@ -559,8 +570,6 @@ class DecoherenceNoiseModel(Model):
             duration = self.gate_duration(name)
 
             for qubit in qubits:
-                self.add_meas(qubit)
-
                 if self.param("assign_error_flag", qubit):
                     prob = self.param("assign_error_prob", qubit)
                     circ.append(
@@ -573,9 +582,14 @@ class DecoherenceNoiseModel(Model):
                         CircuitInstruction(name, targets=self.get_inds([qubit]))
                     )
                 circ += self.idle([qubit], duration)
+
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def measure_x(self, qubits: Iterable[str]) -> Circuit:
+        qubits = list(qubits)
         circ = Circuit()
         name = "MX"
         if self._sym_noise:
@@ -583,8 +597,6 @@ class DecoherenceNoiseModel(Model):
 
             circ += self.idle(qubits, duration)
             for qubit in qubits:
-                self.add_meas(qubit)
-
                 if self.param("assign_error_flag", qubit):
                     prob = self.param("assign_error_prob", qubit)
                     circ.append(
@@ -601,8 +613,6 @@ class DecoherenceNoiseModel(Model):
             duration = self.gate_duration(name)
 
             for qubit in qubits:
-                self.add_meas(qubit)
-
                 if self.param("assign_error_flag", qubit):
                     prob = self.param("assign_error_prob", qubit)
                     circ.append(
@@ -615,9 +625,14 @@ class DecoherenceNoiseModel(Model):
                         CircuitInstruction(name, targets=self.get_inds([qubit]))
                     )
                 circ += self.idle([qubit], duration)
+
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def measure_y(self, qubits: Iterable[str]) -> Circuit:
+        qubits = list(qubits)
         circ = Circuit()
         name = "MY"
         if self._sym_noise:
@@ -625,8 +640,6 @@ class DecoherenceNoiseModel(Model):
 
             circ += self.idle(qubits, duration)
             for qubit in qubits:
-                self.add_meas(qubit)
-
                 if self.param("assign_error_flag", qubit):
                     prob = self.param("assign_error_prob", qubit)
                     circ.append(
@@ -643,8 +656,6 @@ class DecoherenceNoiseModel(Model):
             duration = self.gate_duration(name)
 
             for qubit in qubits:
-                self.add_meas(qubit)
-
                 if self.param("assign_error_flag", qubit):
                     prob = self.param("assign_error_prob", qubit)
                     circ.append(
@@ -657,6 +668,10 @@ class DecoherenceNoiseModel(Model):
                         CircuitInstruction(name, targets=self.get_inds([qubit]))
                     )
                 circ += self.idle([qubit], duration)
+
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def reset(self, qubits: Iterable[str]) -> Circuit:
@@ -800,13 +815,15 @@ class ExperimentalNoiseModel(Model):
             circ.append(CircuitInstruction("X_ERROR", [ind], [prob]))
 
         for qubit, ind in zip(qubits, inds):
-            self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
                 circ.append(CircuitInstruction("MZ", [ind], [prob]))
             else:
                 circ.append(CircuitInstruction("MZ", [ind]))
 
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def measure_x(self, qubits: Iterable[str]) -> Circuit:
@@ -819,13 +836,15 @@ class ExperimentalNoiseModel(Model):
             circ.append(CircuitInstruction("Z_ERROR", [ind], [prob]))
 
         for qubit, ind in zip(qubits, inds):
-            self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
                 circ.append(CircuitInstruction("MX", [ind], [prob]))
             else:
                 circ.append(CircuitInstruction("MX", [ind]))
 
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def measure_y(self, qubits: Iterable[str]) -> Circuit:
@@ -838,13 +857,15 @@ class ExperimentalNoiseModel(Model):
             circ.append(CircuitInstruction("X_ERROR", [ind], [prob]))
 
         for qubit, ind in zip(qubits, inds):
-            self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
                 circ.append(CircuitInstruction("MY", [ind], [prob]))
             else:
                 circ.append(CircuitInstruction("MY", [ind]))
 
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def reset(self, qubits: Iterable[str]) -> Circuit:
@@ -966,24 +987,33 @@ class NoiselessModel(Model):
         return circ
 
     def measure(self, qubits: Iterable[str]) -> Circuit:
+        qubits = list(qubits)
         circ = Circuit()
         for qubit in qubits:
-            self.add_meas(qubit)
             circ.append(CircuitInstruction("M", self.get_inds([qubit])))
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def measure_x(self, qubits: Iterable[str]) -> Circuit:
+        qubits = list(qubits)
         circ = Circuit()
         for qubit in qubits:
-            self.add_meas(qubit)
             circ.append(CircuitInstruction("MX", self.get_inds([qubit])))
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def measure_y(self, qubits: Iterable[str]) -> Circuit:
+        qubits = list(qubits)
         circ = Circuit()
         for qubit in qubits:
-            self.add_meas(qubit)
             circ.append(CircuitInstruction("MY", self.get_inds([qubit])))
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def reset(self, qubits: Iterable[str]) -> Circuit:
@@ -1045,13 +1075,15 @@ class PhenomenologicalNoiseModel(IncomingNoiseModel):
             circ.append(CircuitInstruction("X_ERROR", [ind], [prob]))
 
         for qubit, ind in zip(qubits, inds):
-            self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
                 circ.append(CircuitInstruction("MZ", [ind], [prob]))
             else:
                 circ.append(CircuitInstruction("MZ", [ind]))
 
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def measure_x(self, qubits: Iterable[str]) -> Circuit:
@@ -1064,13 +1096,15 @@ class PhenomenologicalNoiseModel(IncomingNoiseModel):
             circ.append(CircuitInstruction("Z_ERROR", [ind], [prob]))
 
         for qubit, ind in zip(qubits, inds):
-            self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
                 circ.append(CircuitInstruction("MX", [ind], [prob]))
             else:
                 circ.append(CircuitInstruction("MX", [ind]))
 
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
 
     def measure_y(self, qubits: Iterable[str]) -> Circuit:
@@ -1083,11 +1117,13 @@ class PhenomenologicalNoiseModel(IncomingNoiseModel):
             circ.append(CircuitInstruction("X_ERROR", [ind], [prob]))
 
         for qubit, ind in zip(qubits, inds):
-            self.add_meas(qubit)
             if self.param("assign_error_flag", qubit):
                 prob = self.param("assign_error_prob", qubit)
                 circ.append(CircuitInstruction("MY", [ind], [prob]))
             else:
                 circ.append(CircuitInstruction("MY", [ind]))
 
+        for qubit in qubits:
+            self.add_meas(qubit)
+
         return circ
-- 
2.43.0


From e1012f822bf9d53548b80235c7db181be39a7fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:32 +0000
Subject: [PATCH 24/37] fix: define the free parameters named as another
 parameter

---
 surface_sim/setup/setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_sim/setup/setup.py b/surface_sim/setup/setup.py
index 500e0de..33d7716 100644
--- a/surface_sim/setup/setup.py
+++ b/surface_sim/setup/setup.py
@@ -65,8 +65,8 @@ class Setup:
                 self._global_params.update(params_dict)
 
             for param, val in params_dict.items():
-                if isinstance(val, str) and param not in self._var_params:
-                    self._var_params[val] = None
+                if isinstance(val, str):
+                    self._var_params.setdefault(val, None)
 
     @property
     def free_params(self) -> list[str]:
-- 
2.43.0


From 1c0837946e4183d6fcc21e46bf1892803b2d73a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:32 +0000
Subject: [PATCH 25/37] fix: allow loading the dictionary of a setup without
 parameters

---
 surface_sim/setup/setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/setup/setup.py b/surface_sim/setup/setup.py
index 33d7716..2011bfa 100644
--- a/surface_sim/setup/setup.py
+++ b/surface_sim/setup/setup.py
@@ -101,7 +101,7 @@ class Setup:
         setup["gate_durations"] = self._gate_durations
 
         qubit_params = []
-        if self._global_params:
+        if self._global_params or not self._qubit_params:
             qubit_params.append(self._global_params)
 
         for qubits, params in self._qubit_params.items():
-- 
2.43.0


From f9d81a04d0a5346cc6bdb3f6cf241ada3a264c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:53 +0000
Subject: [PATCH 26/37] fix: do not define free parameters in a rejected
 Setup.set_param

---
 surface_sim/setup/setup.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surface_sim/setup/setup.py b/surface_sim/setup/setup.py
index 2011bfa..ec980f9 100644
--- a/surface_sim/setup/setup.py
+++ b/surface_sim/setup/setup.py
@@ -191,14 +191,15 @@ class Setup:
                 f"but {type(param_val)} was given."
             )
 
+        if any(not isinstance(q, str) for q in qubits):
+            raise TypeError("All qubits must be str.")
+
         if isinstance(param_val, str):
             self._var_params.setdefault(param_val, None)
 
         if not qubits:
             self._global_params[param] = param_val
         else:
-            if any(not isinstance(q, str) for q in qubits):
-                raise TypeError("All qubits must be str.")
             self._qubit_params.setdefault(qubits, {})[param] = param_val
 
     def param(self, param: str, *qubits: str) -> float:
-- 
2.43.0


From 00f99128ce074c99f95cacab4ce369efc441c7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:27 +0000
Subject: [PATCH 27/37] fix: do not count a round when its detectors cannot be
 built

---
 surface_sim/detectors/detectors.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index fcfd9fa..1d80f09 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -315,8 +315,7 @@ class Detectors:
             anc_qubits = self.curr_gen.stab_gen.values.tolist()
         anc_qubits = [a for a in anc_qubits if self.anc_qubits[a]]
 
-        self.total_num_rounds += 1
-        self.num_rounds = {
+        num_rounds = {
             anc: self.num_rounds[anc] + 1 if active else self.num_rounds[anc]
             for anc, active in self.anc_qubits.items()
         }
@@ -328,7 +327,7 @@ class Detectors:
                 self.curr_gen,
                 self.prev_gen,
                 basis=basis,
-                num_rounds=self.num_rounds,
+                num_rounds=num_rounds,
                 anc_reset_curr=anc_reset,
                 anc_reset_prev=anc_reset,
             )
@@ -337,7 +336,7 @@ class Detectors:
             detectors = {}
             for anc in anc_detector_labels:
                 dets = [(anc, -1)]
-                if meas_comp + self.num_rounds[anc] >= 0:
+                if meas_comp + num_rounds[anc] >= 0:
                     dets.append((anc, meas_comp))
                 detectors[anc] = dets
 
@@ -352,14 +351,16 @@ class Detectors:
             else:
                 # create the detector but make it be always 0
                 detectors_rec = []
-            coords = [*self.anc_coords[anc], self.total_num_rounds - 1]
+            coords = [*self.anc_coords[anc], self.total_num_rounds]
             instr = stim.CircuitInstruction(
                 "DETECTOR", gate_args=coords, targets=detectors_rec
             )
             detectors_stim.append(instr)
 
-        # update generators
+        # update generators and number of rounds
         self.prev_gen = deepcopy(self.curr_gen)
+        self.num_rounds = num_rounds
+        self.total_num_rounds += 1
 
         return detectors_stim
 
-- 
2.43.0


From 057923de8a25937935e45a6f226e1bf022da9cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:30 +0000
Subject: [PATCH 28/37] fix: reject unknown ancillas when building the
 detectors from the data

---
 surface_sim/detectors/detectors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index 1d80f09..83e23f7 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -421,6 +421,10 @@ class Detectors:
             raise ValueError(
                 "Elements in 'reconstructable_stabs' must be present in 'anc_support'."
             )
+        if not set(reconstructable_stabs) <= set(self.anc_qubits):
+            raise ValueError(
+                "Elements in 'reconstructable_stabs' are not ancilla qubits in this object."
+            )
 
         # for a logical measurement, one always needs to build the Z- or X-type
         # detectors (depending on the logical measurement basis). One should not
-- 
2.43.0


From 0746ddbbc4b5b82bbf8d20a46f4ab6f5bbeb196a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:50 +0000
Subject: [PATCH 29/37] fix: check the requested detectors before measuring in
 qec_round

---
 surface_sim/circuit_blocks/rot_surface_code_css.py   | 12 ++++++------
 .../circuit_blocks/rot_surface_code_css_pipelined.py | 12 ++++++------
 surface_sim/circuit_blocks/rot_surface_code_xzzx.py  | 12 ++++++------
 .../circuit_blocks/rot_surface_code_xzzx_google.py   |  5 +++++
 .../rot_surface_code_xzzx_pipelined.py               | 12 ++++++------
 surface_sim/circuit_blocks/unrot_surface_code_css.py | 12 ++++++------
 6 files changed, 35 insertions(+), 30 deletions(-)

diff --git a/surface_sim/circuit_blocks/rot_surface_code_css.py b/surface_sim/circuit_blocks/rot_surface_code_css.py
index 7322948..7bdf680 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_css.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_css.py
@@ -66,18 +66,18 @@ def qec_round(
 
     https://doi.org/10.1103/PhysRevApplied.8.034021
     """
-    circuit = sum(
-        qec_round_iterator(model=model, layout=layout, anc_reset=anc_reset),
-        start=Circuit(),
-    )
-
-    # add detectors
     anc_qubits = layout.get_qubits(role="anc")
     if anc_detectors is None:
         anc_detectors = anc_qubits
     if not set(anc_detectors) <= set(anc_qubits):
         raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
 
+    circuit = sum(
+        qec_round_iterator(model=model, layout=layout, anc_reset=anc_reset),
+        start=Circuit(),
+    )
+
+    # add detectors
     circuit += detectors.build_from_anc(
         model.meas_target, anc_reset, anc_qubits=anc_detectors
     )
diff --git a/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py b/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py
index caee7e7..f2287e6 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py
@@ -66,18 +66,18 @@ def qec_round(
 
     https://doi.org/10.1103/PhysRevApplied.8.034021
     """
-    circuit = sum(
-        qec_round_iterator(model=model, layout=layout, anc_reset=anc_reset),
-        start=Circuit(),
-    )
-
-    # add detectors
     anc_qubits = layout.get_qubits(role="anc")
     if anc_detectors is None:
         anc_detectors = anc_qubits
     if not set(anc_detectors) <= set(anc_qubits):
         raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
 
+    circuit = sum(
+        qec_round_iterator(model=model, layout=layout, anc_reset=anc_reset),
+        start=Circuit(),
+    )
+
+    # add detectors
     circuit += detectors.build_from_anc(
         model.meas_target, anc_reset, anc_qubits=anc_detectors
     )
diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
index 2704699..30fdaca 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
@@ -59,18 +59,18 @@ def qec_round(
 
     https://doi.org/10.1103/PhysRevApplied.8.034021
     """
-    circuit = sum(
-        qec_round_iterator(model=model, layout=layout, anc_reset=anc_reset),
-        start=Circuit(),
-    )
-
-    # add detectors
     anc_qubits = layout.get_qubits(role="anc")
     if anc_detectors is None:
         anc_detectors = anc_qubits
     if not set(anc_detectors) <= set(anc_qubits):
         raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
 
+    circuit = sum(
+        qec_round_iterator(model=model, layout=layout, anc_reset=anc_reset),
+        start=Circuit(),
+    )
+
+    # add detectors
     circuit += detectors.build_from_anc(
         model.meas_target, anc_reset, anc_qubits=anc_detectors
     )
diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
index 95d6534..3f004aa 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
@@ -242,6 +242,11 @@ def qec_round(
             "The given layout is not a rotated surface code, " f"but a {layout.code}"
         )
 
+    if anc_detectors is None:
+        anc_detectors = layout.get_qubits(role="anc")
+    if not set(anc_detectors) <= set(layout.get_qubits(role="anc")):
+        raise ValueError("Some of the given 'anc_qubits' are not ancilla qubits.")
+
     data_qubits = layout.get_qubits(role="data")
     anc_qubits = layout.get_qubits(role="anc")
 
diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py
index 882d83f..42452e2 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py
@@ -60,18 +60,18 @@ def qec_round(
 
     https://doi.org/10.1103/PhysRevApplied.8.034021
     """
-    circuit = sum(
-        qec_round_iterator(model=model, layout=layout, anc_reset=anc_reset),
-        start=Circuit(),
-    )
-
-    # add detectors
     anc_qubits = layout.get_qubits(role="anc")
     if anc_detectors is None:
         anc_detectors = anc_qubits
     if not set(anc_detectors) <= set(anc_qubits):
         raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
 
+    circuit = sum(
+        qec_round_iterator(model=model, layout=layout, anc_reset=anc_reset),
+        start=Circuit(),
+    )
+
+    # add detectors
     circuit += detectors.build_from_anc(
         model.meas_target, anc_reset, anc_qubits=anc_detectors
     )
diff --git a/surface_sim/circuit_blocks/unrot_surface_code_css.py b/surface_sim/circuit_blocks/unrot_surface_code_css.py
index cd1c2c5..1ec3cac 100644
--- a/surface_sim/circuit_blocks/unrot_surface_code_css.py
+++ b/surface_sim/circuit_blocks/unrot_surface_code_css.py
@@ -68,18 +68,18 @@ def qec_round(
 
     https://doi.org/10.1103/PhysRevApplied.8.034021
     """
-    circuit = sum(
-        qec_round_iterator(model=model, layout=layout, anc_reset=anc_reset),
-        start=Circuit(),
-    )
-
-    # add detectors
     anc_qubits = layout.get_qubits(role="anc")
     if anc_detectors is None:
         anc_detectors = anc_qubits
     if not set(anc_detectors) <= set(anc_qubits):
         raise ValueError("Elements in 'anc_detectors' are not ancilla qubits.")
 
+    circuit = sum(
+        qec_round_iterator(model=model, layout=layout, anc_reset=anc_reset),
+        start=Circuit(),
+    )
+
+    # add detectors
     circuit += detectors.build_from_anc(
         model.meas_target, anc_reset, anc_qubits=anc_detectors
     )
-- 
2.43.0


From 7dcaefc8bffad104f37971bd4eb036d0220316a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:50 +0000
Subject: [PATCH 30/37] fix: do not activate the detectors of a rejected
 initialization

---
 surface_sim/circuit_blocks/util.py | 32 ++++++++++++++++++------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/surface_sim/circuit_blocks/util.py b/surface_sim/circuit_blocks/util.py
index 8122ff4..024eb58 100644
--- a/surface_sim/circuit_blocks/util.py
+++ b/surface_sim/circuit_blocks/util.py
@@ -137,13 +137,7 @@ def init_qubits(
     By default, the logical measurement is in the Z basis.
     If rot_basis, the logical measurement is in the X basis.
     """
-    # activate detectors
-    # the order of activating the detectors or applying the circuit
-    # does not matter because this will be done in a layer of logical operations,
-    # so no QEC cycles are run simultaneously
-    anc_qubits = layout.get_qubits(role="anc")
-    detectors.activate_detectors(anc_qubits)
-    return sum(
+    circuit = sum(
         init_qubits_iterator(
             model=model,
             layout=layout,
@@ -153,6 +147,15 @@ def init_qubits(
         start=Circuit(),
     )
 
+    # activate detectors
+    # the order of activating the detectors or applying the circuit
+    # does not matter because this will be done in a layer of logical operations,
+    # so no QEC cycles are run simultaneously
+    anc_qubits = layout.get_qubits(role="anc")
+    detectors.activate_detectors(anc_qubits)
+
+    return circuit
+
 
 def init_qubits_iterator(
     model: Model,
@@ -662,18 +665,21 @@ def init_qubits_xzzx(
     By default, the logical measurement is in the Z basis.
     If rot_basis, the logical measurement is in the X basis.
     """
+    circuit = sum(
+        init_qubits_xzzx_iterator(
+            model=model, layout=layout, data_init=data_init, rot_basis=rot_basis
+        ),
+        start=Circuit(),
+    )
+
     # activate detectors
     # the order of activating the detectors or applying the circuit
     # does not matter because this will be done in a layer of logical operations,
     # so no QEC cycles are run simultaneously
     anc_qubits = layout.get_qubits(role="anc")
     detectors.activate_detectors(anc_qubits)
-    return sum(
-        init_qubits_xzzx_iterator(
-            model=model, layout=layout, data_init=data_init, rot_basis=rot_basis
-        ),
-        start=Circuit(),
-    )
+
+    return circuit
 
 
 def init_qubits_xzzx_iterator(
-- 
2.43.0


From d7649803e3db934e2642482e933f3035570bf815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:51 +0000
Subject: [PATCH 31/37] fix: reject unknown qubits in the initialization of
 repeated_cnot_experiment

---
 surface_sim/experiments/rot_surface_code_css.py   | 3 +++
 surface_sim/experiments/unrot_surface_code_css.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/surface_sim/experiments/rot_surface_code_css.py b/surface_sim/experiments/rot_surface_code_css.py
index cf64200..1017cc2 100644
--- a/surface_sim/experiments/rot_surface_code_css.py
+++ b/surface_sim/experiments/rot_surface_code_css.py
@@ -272,6 +272,9 @@ def repeated_cnot_experiment(
             f" but {cnot_orientation} was given."
         )
 
+    if not set(data_init) <= set(layout_c.get_qubits() + layout_t.get_qubits()):
+        raise ValueError("Some of the qubits in 'data_init' are not in the layouts.")
+
     data_init_c = {k: v for k, v in data_init.items() if k in layout_c.get_qubits()}
     data_init_t = {k: v for k, v in data_init.items() if k in layout_t.get_qubits()}
 
diff --git a/surface_sim/experiments/unrot_surface_code_css.py b/surface_sim/experiments/unrot_surface_code_css.py
index 8be8b72..edc8529 100644
--- a/surface_sim/experiments/unrot_surface_code_css.py
+++ b/surface_sim/experiments/unrot_surface_code_css.py
@@ -367,6 +367,9 @@ def repeated_cnot_experiment(
             f" but {cnot_orientation} was given."
         )
 
+    if not set(data_init) <= set(layout_c.get_qubits() + layout_t.get_qubits()):
+        raise ValueError("Some of the qubits in 'data_init' are not in the layouts.")
+
     data_init_c = {k: v for k, v in data_init.items() if k in layout_c.get_qubits()}
     data_init_t = {k: v for k, v in data_init.items() if k in layout_t.get_qubits()}
 
-- 
2.43.0


From 1e920edfcca13323163784e7cf99831872133643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:27 +0000
Subject: [PATCH 32/37] fix: reject layouts of distance zero

---
 surface_sim/layouts/library/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/layouts/library/util.py b/surface_sim/layouts/library/util.py
index 77114de..bce5565 100644
--- a/surface_sim/layouts/library/util.py
+++ b/surface_sim/layouts/library/util.py
@@ -57,5 +57,5 @@ def _check_distance(distance: int) -> None:
     """
     if not isinstance(distance, int):
         raise ValueError("distance provided must be an integer")
-    if distance < 0:
+    if distance <= 0:
         raise ValueError("distance must be a positive integer")
-- 
2.43.0


From 0e996c87001cebc23db2ad64787f25687d890b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:11 +0000
Subject: [PATCH 33/37] hooks: calls recorded when SURFACE_SIM_TRACE is set

---
 surface_sim/_trace.py                         | 60 +++++++++++++++++++
 .../circuit_blocks/rot_surface_code_css.py    |  5 ++
 .../rot_surface_code_css_pipelined.py         |  5 ++
 .../circuit_blocks/rot_surface_code_xzzx.py   |  5 ++
 .../rot_surface_code_xzzx_google.py           |  5 ++
 .../rot_surface_code_xzzx_pipelined.py        |  5 ++
 .../circuit_blocks/unrot_surface_code_css.py  |  5 ++
 surface_sim/circuit_blocks/util.py            |  5 ++
 surface_sim/detectors/detectors.py            |  5 ++
 .../experiments/rot_surface_code_css.py       |  5 ++
 .../rot_surface_code_css_pipelined.py         |  5 ++
 .../experiments/rot_surface_code_xzzx.py      |  5 ++
 .../rot_surface_code_xzzx_google.py           |  5 ++
 .../rot_surface_code_xzzx_pipelined.py        |  5 ++
 .../experiments/unrot_surface_code_css.py     |  5 ++
 surface_sim/layouts/layout.py                 |  5 ++
 .../layouts/library/rot_surface_codes.py      |  5 ++
 .../layouts/library/unrot_surface_codes.py    |  5 ++
 surface_sim/layouts/library/util.py           |  7 +++
 surface_sim/layouts/operations.py             |  5 ++
 surface_sim/layouts/util.py                   |  5 ++
 surface_sim/log_gates/rot_surface_code_css.py |  5 ++
 .../log_gates/unrot_surface_code_css.py       |  5 ++
 surface_sim/models/library.py                 |  5 ++
 surface_sim/models/model.py                   |  5 ++
 surface_sim/models/util.py                    |  5 ++
 surface_sim/setup/library.py                  |  5 ++
 surface_sim/setup/setup.py                    |  5 ++
 surface_sim/util/circuit_operations.py        |  5 ++
 surface_sim/util/data_gen.py                  |  5 ++
 30 files changed, 207 insertions(+)
 create mode 100644 surface_sim/_trace.py

diff --git a/surface_sim/_trace.py b/surface_sim/_trace.py
new file mode 100644
index 0000000..78315f9
--- /dev/null
+++ b/surface_sim/_trace.py
@@ -0,0 +1,60 @@
+"""Records the calls to the public functions and methods of the package.
+
+It is switched on by setting the environment variable ``SURFACE_SIM_TRACE``
+before importing the package. Then, every function in ``LISTENERS`` is called as
+``listener(event, name, args, kwargs, value)``, with ``event`` being ``"call"``
+before the call (with ``value=None``) and ``"return"`` or ``"raise"`` after it
+(with the returned value or the exception).
+"""
+
+import os
+from collections.abc import Callable
+from functools import wraps
+from inspect import isclass, isfunction
+
+TRACE = bool(os.environ.get("SURFACE_SIM_TRACE"))
+LISTENERS: list[Callable] = []
+
+
+def record(namespace: dict[str, object]) -> None:
+    """Records the calls to the functions and methods defined in a module.
+
+    Parameters
+    ----------
+    namespace
+        The ``globals()`` of the module, modified in place.
+    """
+    module = namespace["__name__"]
+    for label, item in list(namespace.items()):
+        if getattr(item, "__module__", None) != module:
+            continue
+        if isfunction(item) and label[0] != "_":
+            namespace[label] = _recorded(item)
+        elif isclass(item):
+            for method, func in list(vars(item).items()):
+                if isfunction(func) and (method[0] != "_" or method == "__init__"):
+                    setattr(item, method, _recorded(func))
+
+    return
+
+
+def _recorded(func: Callable) -> Callable:
+    """Returns the same function but which notifies the listeners when called."""
+    name = f"{func.__module__}.{func.__qualname__}"
+
+    def notify(event, args, kwargs, value=None):
+        for listener in LISTENERS:
+            listener(event, name, args, kwargs, value)
+
+    @wraps(func)
+    def recorded(*args, **kwargs):
+        notify("call", args, kwargs)
+        try:
+            value = func(*args, **kwargs)
+        except Exception as error:
+            notify("raise", args, kwargs, error)
+            raise
+        notify("return", args, kwargs, value)
+        return value
+
+    return recorded
diff --git a/surface_sim/circuit_blocks/rot_surface_code_css.py b/surface_sim/circuit_blocks/rot_surface_code_css.py
index 7bdf680..eb9b646 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_css.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_css.py
@@ -18,6 +18,7 @@ from .util import (
     log_trans_cnot,
     log_meas_iterator,
 )
+from .._trace import TRACE, record
 
 __all__ = [
     "qubit_coords",
@@ -225,3 +226,7 @@ def qec_round_iterator(
     # i
     yield model.measure(anc_qubits) + model.idle(data_qubits)
     yield model.tick()
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py b/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py
index f2287e6..10a7dd0 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_css_pipelined.py
@@ -18,6 +18,7 @@ from .util import (
     log_trans_cnot,
     log_meas_iterator,
 )
+from .._trace import TRACE, record
 
 __all__ = [
     "qubit_coords",
@@ -154,3 +155,7 @@ def qec_round_iterator(
 
     yield model.measure(anc_qubits) + model.idle(data_qubits)
     yield model.tick()
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
index 30fdaca..8328044 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx.py
@@ -14,6 +14,7 @@ from .util import log_z_xzzx as log_z
 from .util import log_meas_xzzx as log_meas
 from .util import log_meas_xzzx_iterator as log_meas_iterator
 from .util import init_qubits_xzzx as init_qubits
+from .._trace import TRACE, record
 
 __all__ = [
     "qubit_coords",
@@ -230,3 +231,7 @@ def qec_round_iterator(
     # i
     yield model.measure(anc_qubits) + model.idle(data_qubits)
     yield model.tick()
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
index 3f004aa..ce93ac3 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx_google.py
@@ -17,6 +17,7 @@ from .util import qubit_coords
 from .util import log_x_xzzx as log_x
 from .util import log_z_xzzx as log_z
 from .util import init_qubits_xzzx as init_qubits
+from .._trace import TRACE, record
 
 __all__ = [
     "qubit_coords",
@@ -277,3 +278,7 @@ def qec_round(
     circuit += detectors_stim
 
     return circuit
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py b/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py
index 42452e2..227c66f 100644
--- a/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py
+++ b/surface_sim/circuit_blocks/rot_surface_code_xzzx_pipelined.py
@@ -14,6 +14,7 @@ from .util import log_z_xzzx as log_z
 from .util import log_meas_xzzx as log_meas
 from .util import log_meas_xzzx_iterator as log_meas_iterator
 from .util import init_qubits_xzzx as init_qubits
+from .._trace import TRACE, record
 
 __all__ = [
     "qubit_coords",
@@ -150,3 +151,7 @@ def qec_round_iterator(
 
     yield model.measure(anc_qubits) + model.idle(data_qubits)
     yield model.tick()
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/circuit_blocks/unrot_surface_code_css.py b/surface_sim/circuit_blocks/unrot_surface_code_css.py
index 1ec3cac..78fc6c6 100644
--- a/surface_sim/circuit_blocks/unrot_surface_code_css.py
+++ b/surface_sim/circuit_blocks/unrot_surface_code_css.py
@@ -19,6 +19,7 @@ from .util import (
     log_trans_cnot,
     log_meas_iterator,
 )
+from .._trace import TRACE, record
 
 __all__ = [
     "qubit_coords",
@@ -227,3 +228,7 @@ def qec_round_iterator(
     # i
     yield model.measure(anc_qubits) + model.idle(data_qubits)
     yield model.tick()
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/circuit_blocks/util.py b/surface_sim/circuit_blocks/util.py
index 024eb58..3526e73 100644
--- a/surface_sim/circuit_blocks/util.py
+++ b/surface_sim/circuit_blocks/util.py
@@ -10,6 +10,7 @@ from ..detectors import (
     get_new_stab_dict_from_layout,
     get_support_from_adj_matrix,
 )
+from .._trace import TRACE, record
 
 
 def qubit_coords(model: Model, *layouts: Layout) -> Circuit:
@@ -726,3 +727,7 @@ def init_qubits_xzzx_iterator(
     idle_qubits = qubits - rot_qubits
     yield model.hadamard(rot_qubits) + model.idle(idle_qubits)
     yield model.tick()
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/detectors/detectors.py b/surface_sim/detectors/detectors.py
index 83e23f7..ea1f35b 100644
--- a/surface_sim/detectors/detectors.py
+++ b/surface_sim/detectors/detectors.py
@@ -7,6 +7,7 @@ import galois
 import stim
 
 from ..layouts import Layout
+from .._trace import TRACE, record
 
 
 GF2 = galois.GF(2)
@@ -692,3 +693,7 @@ def remove_pairs(elements: list) -> list:
         if elements.count(element) % 2 == 1:
             output.append(element)
     return output
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/experiments/rot_surface_code_css.py b/surface_sim/experiments/rot_surface_code_css.py
index 1017cc2..42f1d51 100644
--- a/surface_sim/experiments/rot_surface_code_css.py
+++ b/surface_sim/experiments/rot_surface_code_css.py
@@ -15,6 +15,7 @@ from ..circuit_blocks.rot_surface_code_css import (
 from ..models import Model
 from ..detectors import Detectors
 from ..util import merge_circuits, merge_qec_rounds, merge_log_meas
+from .._trace import TRACE, record
 
 
 def memory_experiment(
@@ -336,3 +337,7 @@ def repeated_cnot_experiment(
     )
 
     return experiment
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/experiments/rot_surface_code_css_pipelined.py b/surface_sim/experiments/rot_surface_code_css_pipelined.py
index d561fc6..aaac94b 100644
--- a/surface_sim/experiments/rot_surface_code_css_pipelined.py
+++ b/surface_sim/experiments/rot_surface_code_css_pipelined.py
@@ -11,6 +11,7 @@ from ..circuit_blocks.rot_surface_code_css_pipelined import (
 )
 from ..models import Model
 from ..detectors import Detectors
+from .._trace import TRACE, record
 
 
 def memory_experiment(
@@ -179,3 +180,7 @@ def repeated_s_experiment(
     )
 
     return experiment
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/experiments/rot_surface_code_xzzx.py b/surface_sim/experiments/rot_surface_code_xzzx.py
index 5f85882..4fa74c0 100644
--- a/surface_sim/experiments/rot_surface_code_xzzx.py
+++ b/surface_sim/experiments/rot_surface_code_xzzx.py
@@ -9,6 +9,7 @@ from ..circuit_blocks.rot_surface_code_xzzx import (
 )
 from ..models import Model
 from ..detectors import Detectors
+from .._trace import TRACE, record
 
 
 def memory_experiment(
@@ -85,3 +86,7 @@ def memory_experiment(
     )
 
     return experiment
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/experiments/rot_surface_code_xzzx_google.py b/surface_sim/experiments/rot_surface_code_xzzx_google.py
index b225333..92d6af5 100644
--- a/surface_sim/experiments/rot_surface_code_xzzx_google.py
+++ b/surface_sim/experiments/rot_surface_code_xzzx_google.py
@@ -10,6 +10,7 @@ from ..circuit_blocks.rot_surface_code_xzzx_google import (
 )
 from ..models import Model
 from ..detectors import Detectors
+from .._trace import TRACE, record
 
 
 def memory_experiment(
@@ -94,3 +95,7 @@ def memory_experiment(
     )
 
     return experiment
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/experiments/rot_surface_code_xzzx_pipelined.py b/surface_sim/experiments/rot_surface_code_xzzx_pipelined.py
index 4ea9569..33e61ba 100644
--- a/surface_sim/experiments/rot_surface_code_xzzx_pipelined.py
+++ b/surface_sim/experiments/rot_surface_code_xzzx_pipelined.py
@@ -9,6 +9,7 @@ from ..circuit_blocks.rot_surface_code_xzzx_pipelined import (
 )
 from ..models import Model
 from ..detectors import Detectors
+from .._trace import TRACE, record
 
 
 def memory_experiment(
@@ -85,3 +86,7 @@ def memory_experiment(
     )
 
     return experiment
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/experiments/unrot_surface_code_css.py b/surface_sim/experiments/unrot_surface_code_css.py
index edc8529..1509ac7 100644
--- a/surface_sim/experiments/unrot_surface_code_css.py
+++ b/surface_sim/experiments/unrot_surface_code_css.py
@@ -16,6 +16,7 @@ from ..circuit_blocks.unrot_surface_code_css import (
 from ..models import Model
 from ..detectors import Detectors
 from ..util import merge_circuits, merge_qec_rounds, merge_log_meas
+from .._trace import TRACE, record
 
 
 def memory_experiment(
@@ -431,3 +432,7 @@ def repeated_cnot_experiment(
     )
 
     return experiment
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/layouts/layout.py b/surface_sim/layouts/layout.py
index d602e71..e8af3f3 100644
--- a/surface_sim/layouts/layout.py
+++ b/surface_sim/layouts/layout.py
@@ -9,6 +9,7 @@ import networkx as nx
 import numpy as np
 import yaml
 from xarray import DataArray
+from .._trace import TRACE, record
 
 IntDirections = list[str]
 IntOrder = IntDirections | dict[str, IntDirections]
@@ -564,3 +565,7 @@ def index_coords(coords: list[int], reverse: bool = False) -> tuple[list[int], i
 
     indicies = [mapping[coord] for coord in coords]
     return indicies, num_unique_vals
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/layouts/library/rot_surface_codes.py b/surface_sim/layouts/library/rot_surface_codes.py
index 6496641..38d1f13 100644
--- a/surface_sim/layouts/library/rot_surface_codes.py
+++ b/surface_sim/layouts/library/rot_surface_codes.py
@@ -4,6 +4,7 @@ from itertools import count, cycle, product
 
 from ..layout import Layout
 from .util import is_valid, invert_shift, _check_distance
+from ..._trace import TRACE, record
 
 
 def get_data_index(row: int, col: int, col_size: int, start_ind: int = 1) -> int:
@@ -329,3 +330,7 @@ def rot_surface_code(
         init_xanc_qubit_id=init_xanc_qubit_id,
         init_ind=init_ind,
     )
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/layouts/library/unrot_surface_codes.py b/surface_sim/layouts/library/unrot_surface_codes.py
index 11a8d87..3fb13b2 100644
--- a/surface_sim/layouts/library/unrot_surface_codes.py
+++ b/surface_sim/layouts/library/unrot_surface_codes.py
@@ -4,6 +4,7 @@ from itertools import count
 
 from ..layout import Layout
 from .util import is_valid, invert_shift, _check_distance
+from ..._trace import TRACE, record
 
 
 def get_data_index(row: int, col: int, col_size: int, start_ind: int = 1) -> int:
@@ -284,3 +285,7 @@ def unrot_surface_code(
         init_xanc_qubit_id=init_xanc_qubit_id,
         init_ind=init_ind,
     )
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/layouts/library/util.py b/surface_sim/layouts/library/util.py
index bce5565..de3a15a 100644
--- a/surface_sim/layouts/library/util.py
+++ b/surface_sim/layouts/library/util.py
@@ -1,3 +1,6 @@
+from ..._trace import TRACE, record
+
+
 def invert_shift(row_shift: int, col_shift: int) -> tuple[int, int]:
     """Inverts a row and column shift.
 
@@ -59,3 +62,7 @@ def _check_distance(distance: int) -> None:
         raise ValueError("distance provided must be an integer")
     if distance <= 0:
         raise ValueError("distance must be a positive integer")
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/layouts/operations.py b/surface_sim/layouts/operations.py
index 518ac6d..e5371c0 100644
--- a/surface_sim/layouts/operations.py
+++ b/surface_sim/layouts/operations.py
@@ -1,4 +1,5 @@
 from .layout import Layout
+from .._trace import TRACE, record
 
 
 def check_overlap_layout_pair(layout_1: Layout, layout_2: Layout) -> None:
@@ -58,3 +59,7 @@ def check_overlap_layouts(*layouts: Layout) -> None:
             check_overlap_layout_pair(layout, other_layout)
 
     return
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/layouts/util.py b/surface_sim/layouts/util.py
index d9d27c9..b81e2fc 100644
--- a/surface_sim/layouts/util.py
+++ b/surface_sim/layouts/util.py
@@ -6,6 +6,7 @@ from itertools import count
 import networkx as nx
 
 from .layout import Layout
+from .._trace import TRACE, record
 
 
 def set_coords(layout: Layout, override: bool = False) -> None:
@@ -101,3 +102,7 @@ def index_chain(layout: Layout, init_node: str) -> None:
     for node in nodes:
         if node not in set_nodes:
             layout.graph.nodes[node]["chain_ind"] = None
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/log_gates/rot_surface_code_css.py b/surface_sim/log_gates/rot_surface_code_css.py
index a9cb573..22ee4a7 100644
--- a/surface_sim/log_gates/rot_surface_code_css.py
+++ b/surface_sim/log_gates/rot_surface_code_css.py
@@ -4,6 +4,7 @@ import numpy as np
 import networkx as nx
 
 from ..layouts import Layout, check_overlap_layouts
+from .._trace import TRACE, record
 
 
 def set_trans_s(layout: Layout, data_qubit: str) -> None:
@@ -253,3 +254,7 @@ def set_trans_cnot(layout_c: Layout, layout_t: Layout) -> None:
         layout_t.set_param(gate_label, anc, {"new_stab_gen": anc_to_new_stab[anc]})
 
     return
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/log_gates/unrot_surface_code_css.py b/surface_sim/log_gates/unrot_surface_code_css.py
index 4404bfb..41f06f4 100644
--- a/surface_sim/log_gates/unrot_surface_code_css.py
+++ b/surface_sim/log_gates/unrot_surface_code_css.py
@@ -2,6 +2,7 @@ import numpy as np
 import networkx as nx
 
 from ..layouts import Layout, check_overlap_layouts
+from .._trace import TRACE, record
 
 
 def set_trans_s(layout: Layout, data_qubit: str) -> None:
@@ -340,3 +341,7 @@ def set_trans_h(layout: Layout, data_qubit: str) -> None:
         )
 
     return
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/models/library.py b/surface_sim/models/library.py
index 12c1d9d..1503a90 100644
--- a/surface_sim/models/library.py
+++ b/surface_sim/models/library.py
@@ -5,6 +5,7 @@ from stim import CircuitInstruction, Circuit
 from ..setup import Setup
 from .model import Model
 from .util import biased_prefactors, grouper, idle_error_probs
+from .._trace import TRACE, record
 
 
 class CircuitNoiseModel(Model):
@@ -1127,3 +1128,7 @@ class PhenomenologicalNoiseModel(IncomingNoiseModel):
             self.add_meas(qubit)
 
         return circ
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/models/model.py b/surface_sim/models/model.py
index c8c19ed..d7fc0e8 100644
--- a/surface_sim/models/model.py
+++ b/surface_sim/models/model.py
@@ -3,6 +3,7 @@ from collections.abc import Sequence, Iterable
 from stim import CircuitInstruction, target_rec, GateTarget, Circuit
 
 from ..setup import Setup
+from .._trace import TRACE, record
 
 
 class Model(object):
@@ -174,3 +175,7 @@ class Model(object):
 
     def incoming_noise(self, qubits: Iterable[str]) -> Circuit:
         raise NotImplementedError
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/models/util.py b/surface_sim/models/util.py
index 409ab35..7856cc5 100644
--- a/surface_sim/models/util.py
+++ b/surface_sim/models/util.py
@@ -4,6 +4,7 @@ from itertools import product
 
 import numpy as np
 from math import exp
+from .._trace import TRACE, record
 
 
 def num_biased_ops(n):
@@ -109,3 +110,7 @@ def idle_error_probs(
     z_prob = 0.5 * deph_prob - 0.25 * relax_prob
 
     return (x_prob, y_prob, z_prob)
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/setup/library.py b/surface_sim/setup/library.py
index 3209871..46541bb 100644
--- a/surface_sim/setup/library.py
+++ b/surface_sim/setup/library.py
@@ -1,4 +1,5 @@
 from .setup import Setup
+from .._trace import TRACE, record
 
 
 class CircuitNoiseSetup(Setup):
@@ -25,3 +26,7 @@ class CircuitNoiseSetup(Setup):
         )
         super().__init__(setup_dict)
         return
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/setup/setup.py b/surface_sim/setup/setup.py
index ec980f9..7212963 100644
--- a/surface_sim/setup/setup.py
+++ b/surface_sim/setup/setup.py
@@ -3,6 +3,7 @@ from copy import deepcopy
 from pathlib import Path
 
 import yaml
+from .._trace import TRACE, record
 
 
 class Setup:
@@ -263,3 +264,7 @@ class Setup:
             return self._gate_durations[name]
         except KeyError:
             raise ValueError(f"No gate duration specified for '{name}'")
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/util/circuit_operations.py b/surface_sim/util/circuit_operations.py
index 694f545..ce0761a 100644
--- a/surface_sim/util/circuit_operations.py
+++ b/surface_sim/util/circuit_operations.py
@@ -5,6 +5,7 @@ import stim
 from ..layouts import Layout
 from ..detectors import Detectors, get_support_from_adj_matrix
 from ..models import Model
+from .._trace import TRACE, record
 
 
 MEAS_INSTR = [
@@ -331,3 +332,7 @@ def merge_log_meas(
             num_logs += 1
 
     return circuit
+
+
+if TRACE:
+    record(globals())
diff --git a/surface_sim/util/data_gen.py b/surface_sim/util/data_gen.py
index 54244ff..bdd1bc7 100644
--- a/surface_sim/util/data_gen.py
+++ b/surface_sim/util/data_gen.py
@@ -3,6 +3,7 @@ from stim import Circuit
 from xarray import DataArray, Dataset
 
 from ..layouts import Layout
+from .._trace import TRACE, record
 
 
 def sample_memory_experiment(
@@ -82,3 +83,7 @@ def sample_memory_experiment(
     )
 
     return dataset
+
+
+if TRACE:
+    record(globals())
-- 
2.43.0


From 4eb33e2f166eb9ce1ae16bccb51cf1c8e53a7383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:32 +0000
Subject: [PATCH 34/37] fix: draw the whole label of the qubits in plot

---
 surface_sim/layouts/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_sim/layouts/plotter.py b/surface_sim/layouts/plotter.py
index ef22178..8ae313c 100644
--- a/surface_sim/layouts/plotter.py
+++ b/surface_sim/layouts/plotter.py
@@ -83,7 +83,7 @@ def get_label(qubit: str, coords: Coordinates, **kwargs) -> Text:
     text = deepcopy(qubit)
 
     # check if the qubit can be plotted using TeX
-    match = RE_FILTER.match(qubit)
+    match = RE_FILTER.fullmatch(qubit)
     if match is not None:
         name, ind = match.groups()
         text = f"${name}_\\mathrm{{{ind}}}$"
-- 
2.43.0


From 8a9f17905a3e69ca3cbe567698ec220e57104515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:47 +0000
Subject: [PATCH 35/37] fix: transversal S of rotated codes at any coordinates

---
 surface_sim/log_gates/rot_surface_code_css.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/surface_sim/log_gates/rot_surface_code_css.py b/surface_sim/log_gates/rot_surface_code_css.py
index 22ee4a7..ac65591 100644
--- a/surface_sim/log_gates/rot_surface_code_css.py
+++ b/surface_sim/log_gates/rot_surface_code_css.py
@@ -11,7 +11,8 @@ def set_trans_s(layout: Layout, data_qubit: str) -> None:
     """Adds the required attributes (in place) for the layout to run the transversal S
     gate for the rotated surface code.
 
-    This implementation assumes that the qubits are placed in a square 2D grid.
+    This implementation assumes that the qubits are placed in a square 2D grid,
+    and the separation between qubits is larger than ``1e-5`` units.
 
     Parameters
     ----------
@@ -66,12 +67,14 @@ def set_trans_s(layout: Layout, data_qubit: str) -> None:
     data_qubit_coords = np.array(layout.param("coords", data_qubit))
 
     # get the CZs from the data qubit positions
-    coords_to_label_dict = {
-        tuple(attr["coords"]): node for node, attr in layout.graph.nodes.items()
-    }
+    coords_to_label_dict = {}
+    for node, attr in layout.graph.nodes.items():
+        coords = attr["coords"]
+        coords = np.round(coords, decimals=5)  # to avoid numerical issues
+        coords_to_label_dict[tuple(coords)] = node
 
     def coords_to_label(c):
-        c = tuple(c)
+        c = tuple(np.round(c, decimals=5))
         if c not in coords_to_label_dict:
             return None
         else:
-- 
2.43.0


From 09a252d3766bddc7dcc4c49f6863848392aa1f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:47 +0000
Subject: [PATCH 36/37] fix: mapping of the transversal CNOT between distant
 codes

---
 surface_sim/log_gates/rot_surface_code_css.py   | 2 +-
 surface_sim/log_gates/unrot_surface_code_css.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_sim/log_gates/rot_surface_code_css.py b/surface_sim/log_gates/rot_surface_code_css.py
index ac65591..995731a 100644
--- a/surface_sim/log_gates/rot_surface_code_css.py
+++ b/surface_sim/log_gates/rot_surface_code_css.py
@@ -219,7 +219,7 @@ def set_trans_cnot(layout_c: Layout, layout_t: Layout) -> None:
             coords1 = np.array(layout_c.get_coords([c])[0])
             coords2 = np.array(layout_t.get_coords([t])[0])
             vector = coords2 - coords1
-            if not np.allclose(vector, base_vector):
+            if not np.allclose(vector, base_vector, rtol=0, atol=1e-5):
                 correct = False
                 break
 
diff --git a/surface_sim/log_gates/unrot_surface_code_css.py b/surface_sim/log_gates/unrot_surface_code_css.py
index 41f06f4..1c51735 100644
--- a/surface_sim/log_gates/unrot_surface_code_css.py
+++ b/surface_sim/log_gates/unrot_surface_code_css.py
@@ -207,7 +207,7 @@ def set_trans_cnot(layout_c: Layout, layout_t: Layout) -> None:
             coords1 = np.array(layout_c.get_coords([c])[0])
             coords2 = np.array(layout_t.get_coords([t])[0])
             vector = coords2 - coords1
-            if not np.allclose(vector, base_vector):
+            if not np.allclose(vector, base_vector, rtol=0, atol=1e-5):
                 correct = False
                 break
 
-- 
2.43.0


From e2ffbdc769d21b4f3748ddbdaebe09d455ba0139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:00 +0000
Subject: [PATCH 37/37] hooks: the plotter is recorded too

---
 surface_sim/layouts/plotter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/surface_sim/layouts/plotter.py b/surface_sim/layouts/plotter.py
index 8ae313c..080c2cd 100644
--- a/surface_sim/layouts/plotter.py
+++ b/surface_sim/layouts/plotter.py
@@ -9,6 +9,7 @@ from matplotlib.lines import Line2D
 from matplotlib.text import Text
 
 from .layout import Layout
+from .._trace import TRACE, record
 
 
 Coordinates = tuple[float, float]
@@ -409,3 +410,7 @@ def plot(
         ax.invert_yaxis()
 
     return ax
+
+
+if TRACE:
+    record(globals())
-- 
2.43.0

