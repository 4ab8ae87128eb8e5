From c3b4f6f6949e79b9cf010d5bec7f58a630ea8170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 01/35] fix: LpInstance.get_rhs returns the lower bound of >=
 rows

---
 hylaa/lpinstance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/lpinstance.py b/hylaa/lpinstance.py
index 495b7ae..69739f7 100644
--- a/hylaa/lpinstance.py
+++ b/hylaa/lpinstance.py
@@ -808,7 +808,7 @@ class LpInstance(Freezable): # pylint: disable=too-many-public-methods
             if row_type in [glpk.GLP_FX, glpk.GLP_UP]:
                 limit = glpk.glp_get_row_ub(self.lp, row + 1)
             elif row_type == glpk.GLP_LO:
-                limit = glpk.glp_get_row_ub(self.lp, row + 1)
+                limit = glpk.glp_get_row_lb(self.lp, row + 1)
             else:
                 raise RuntimeError("Error: Unsupported type ({}) in getRhs() in row {}".format(row_type, row))
 
-- 
2.43.0


From 0e43e024cce6acc6d1eba325732f2f6ad08d4e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 02/35] fix: multi-step jumps with the LGG approximation need a
 dense matrix block

---
 hylaa/time_elapse_expm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/time_elapse_expm.py b/hylaa/time_elapse_expm.py
index 99df3da..b35e7ff 100644
--- a/hylaa/time_elapse_expm.py
+++ b/hylaa/time_elapse_expm.py
@@ -127,7 +127,7 @@ class TimeElapseExpmMult(Freezable):
 
                 if self.use_lgg:
                     # make new (wider) input effects matrix
-                    blocks = [self.cur_input_effects_matrix, prev_step_mat_exp]
+                    blocks = [self.cur_input_effects_matrix, prev_step_mat_exp.toarray()]
                     self.cur_input_effects_matrix = np.concatenate(blocks, axis=1)
 
             Timers.toc('slow_step')
-- 
2.43.0


From 27c4982144d23b237011b3d64bedb771ad4a6eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 03/35] fix: don't advance from exact-model matrices after
 switching to the LGG approximation

---
 hylaa/time_elapse_expm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hylaa/time_elapse_expm.py b/hylaa/time_elapse_expm.py
index b35e7ff..489d701 100644
--- a/hylaa/time_elapse_expm.py
+++ b/hylaa/time_elapse_expm.py
@@ -141,3 +141,4 @@ class TimeElapseExpmMult(Freezable):
 
         self.use_lgg = True
         self.one_step_input_effects_matrix = self.b_csc.toarray() * self.time_elapser.step_size
+        self.cur_step = -1 # matrices of earlier requests use the old model, don't advance from them
-- 
2.43.0


From b77d6ad89e4c362cd96a9bc0fb4cfa76bd7ad4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 04/35] fix: forget invariant row indices when an approximation
 model rebuilds the lpi

---
 hylaa/stateset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hylaa/stateset.py b/hylaa/stateset.py
index bbb3106..3102986 100644
--- a/hylaa/stateset.py
+++ b/hylaa/stateset.py
@@ -342,3 +342,7 @@ class StateSet(Freezable):
             self.apply_approx_lgg()
         elif approx_model != HylaaSettings.APPROX_NONE:
             assert f"Unknown approx_model from settings: {approx_model}"
+
+        if approx_model != HylaaSettings.APPROX_NONE:
+            # lpi was rebuilt, so row indices from earlier invariant intersections are no longer valid
+            self.invariant_constraint_rows = [None] * len(self.mode.inv_list)
-- 
2.43.0


From 344978ff5839aa94fbc2587f69c4a4aa42ec9ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 05/35] fix: compute_radius_inf reads the current-time
 variables

---
 hylaa/lputil.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index c0a3d12..d8b25fa 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -1070,9 +1070,9 @@ def compute_radius_inf(lpi):
         for posneg in [1.0, -1.0]:
             dir_vec = [posneg if n == d else 0.0 for d in range(lpi.dims)]
 
-            lp_result = lpi.minimize(dir_vec)
+            lp_result = lpi.minimize(dir_vec, columns=[lpi.cur_vars_offset + n])
 
-            max_val = max(max_val, abs(lp_result[n]))
+            max_val = max(max_val, abs(lp_result[0]))
 
     return max_val
 
-- 
2.43.0


From 581632220651bc112270fdfdd4e302cde4f6c7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 06/35] fix: modes with inputs do not have zero dynamics

---
 hylaa/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index 4a4d812..10c1aa5 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -237,7 +237,8 @@ class Core(Freezable):
                     self.check_guards() # check guards here, before doing an invariant intersection
 
                     # if the current mode has zero dynamics, remove it here
-                    if cur_state.mode.a_csr.nnz == 0 and self.settings.skip_zero_dynamics_modes:
+                    if cur_state.mode.a_csr.nnz == 0 and cur_state.mode.b_csr is None and \
+                            self.settings.skip_zero_dynamics_modes:
                         self.print_normal("State in mode '{}' with zero dynamics, skipping remaining steps".format( \
                             cur_state.mode.name))
                         self.aggdag.cur_state_left_invariant()
-- 
2.43.0


From 392e99374ee57b1e19be65cdd8741cde57fc09e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 07/35] fix: reorthogonalize_matrix overwrote an already chosen
 direction when filling the null space

---
 hylaa/lputil.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index d8b25fa..377704b 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -958,6 +958,8 @@ def reorthogonalize_matrix(mat, dims):
 
     while len(rv) < dims:
         if next_index >= mat.shape[0]:
+            cur_vec = None # the previous vector is already in rv
+
             # first try to pick orthonormal directions if we can
             for d in range(dims):
                 found_nonzero = False
-- 
2.43.0


From 58db61624a0cd9878d499358cf93af8c7a901c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 08/35] fix: reorthogonalize_matrix changed its argument in
 place

---
 hylaa/lputil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index 377704b..00e3bc1 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -977,7 +977,7 @@ def reorthogonalize_matrix(mat, dims):
             if cur_vec is None:
                 cur_vec = np.random.rand(dims,)
         else:
-            cur_vec = mat[next_index]
+            cur_vec = mat[next_index].copy()
             next_index += 1
 
         # project out the previous vectors
-- 
2.43.0


From 3177cba8a0e48ead554f893fff7de875752ef203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 09/35] fix: stop_on_aggregated_error also stops on a concrete
 error, as documented

---
 hylaa/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index 10c1aa5..53f551d 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -86,7 +86,8 @@ class Core(Freezable):
         if self.doing_simulation:
             finished = not self.sim_states and not self.sim_waiting_list
         else:
-            if self.settings.stop_on_aggregated_error and self.result.has_aggregated_error:
+            if self.settings.stop_on_aggregated_error and \
+                    (self.result.has_aggregated_error or self.result.has_concrete_error):
                 finished = True
             elif self.settings.stop_on_concrete_error and self.result.has_concrete_error:
                 finished = True
-- 
2.43.0


From a8eb2144aad695d1f12338495a4e8580de5cabdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 10/35] fix: replay of a deaggregated part stops at the time
 bound

---
 hylaa/aggdag.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hylaa/aggdag.py b/hylaa/aggdag.py
index 906d16a..5d7c4a3 100644
--- a/hylaa/aggdag.py
+++ b/hylaa/aggdag.py
@@ -406,7 +406,12 @@ class AggDagNode(Freezable):
 
         self.aggdag.core.print_verbose(f"replaying {i}: {op}")
 
-        if isinstance(op, OpLeftInvariant):
+        # the aggregated node starts at the earliest time of its parts, so a part may reach the time bound before it
+        steps_at_op = cur_state.cur_steps_since_start[0] + op.step - cur_state.cur_step_in_mode
+
+        if steps_at_op > self.aggdag.settings.num_steps:
+            self.op_list.append(OpLeftInvariant(cur_state.cur_step_in_mode, self, True))
+        elif isinstance(op, OpLeftInvariant):
             self.op_list.append(op)
         elif isinstance(op, OpTransition):
             self.replay_op_transition(cur_state, op)
-- 
2.43.0


From 1dfe01013d1f63db022d0e64d9f17e9f3b45d2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:35 +0000
Subject: [PATCH 11/35] fix: apply the approximation model to the parts of a
 deaggregated node

---
 hylaa/deaggregation.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/hylaa/deaggregation.py b/hylaa/deaggregation.py
index 85018a0..c63f51f 100644
--- a/hylaa/deaggregation.py
+++ b/hylaa/deaggregation.py
@@ -7,6 +7,7 @@ Nov 2018
 
 from collections import deque, namedtuple
 
+from hylaa.settings import HylaaSettings
 from hylaa.util import Freezable
 from hylaa.timerutil import Timers
 
@@ -85,6 +86,20 @@ class DeaggregationManager(Freezable):
         self.replay_step = 0
         self.nodes_to_ops = {}
 
+        # the parts restart the mode, so the approximation model needs to be applied like for a popped state
+        core = self.aggdag.core
+        approx_model = core.settings.approx_model
+
+        if approx_model != HylaaSettings.APPROX_NONE:
+            for child in self.deagg_children:
+                if child.stateset.mode.is_error():
+                    continue
+
+                if core.intersect_invariant(child.stateset, add_ops_to_aggdag=False):
+                    child.stateset.apply_approx_model(approx_model)
+                else:
+                    child.op_list.append(OpLeftInvariant(0, child, False))
+
         # pause plot
         self.aggdag.core.print_verbose("Pausing due to start of do_step_replay()")
         self.aggdag.core.plotman.pause()
-- 
2.43.0


From be6938a9e1637cd6a58eb3e6f6e138dd31dfcb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 12/35] fix: counterexample start states included the auxiliary
 variables of the initial set

---
 hylaa/result.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hylaa/result.py b/hylaa/result.py
index 9a64e9d..3697ec7 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -188,7 +188,9 @@ def make_counterexample(ha, state, transition_to_error, lpi):
 
         if name.startswith('m'): # mode variable
             if '_i' in name:
-                seg.start.append(value)
+                # initial sets can have extra (non-state) variables after the state variables
+                if len(seg.start) < seg.mode.a_csr.shape[0]:
+                    seg.start.append(value)
             elif '_c' in name:
                 seg.end.append(value)
             elif '_I' in name:
-- 
2.43.0


From 044cd1104f123124a3ce1253d916a03cf40d4c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 13/35] fix: make_counterexample crashed for initial sets made
 by a Minkowski sum or a convex hull

---
 hylaa/lputil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index 00e3bc1..1a929f0 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -533,7 +533,7 @@ def _aggregate_chull_recursive(lpi_list, mode):
 
     cols = []
 
-    cols += [f"A1_{i}" for i in range(dims)]
+    cols += [f"m{mode.mode_id}_i{i}" for i in range(dims)] # these are the state variables of the convex hull
     cols += [f"A2_{i}" for i in range(dims)]
     cols += [f"L1_{i}" for i in range(l1.shape[1])]
     cols += [f"L2_{i}" for i in range(l2.shape[1])]
@@ -1091,7 +1091,7 @@ def minkowski_sum(lpi_list, mode):
     csr_list = []
     combined_rhs = [0] * dims
     combined_types = [glpk.GLP_FX] * dims
-    combined_names = [f"c{n}" for n in range(dims)]
+    combined_names = [f"m{mode.mode_id}_i{n}" for n in range(dims)]
 
     total_new_vars = dims
 
@@ -1158,7 +1158,7 @@ def from_input_constraints(b_mat, u_constraints, u_rhs, mode):
 
     combined_rhs = [0] * dims
     combined_types = [glpk.GLP_FX] * dims
-    combined_names = [f"c{n}" for n in range(dims)]
+    combined_names = [f"m{mode.mode_id}_i{n}" for n in range(dims)]
 
     combined_rhs += [v for v in u_rhs]
     combined_types += [glpk.GLP_UP] * u_constraints.shape[0]
-- 
2.43.0


From 1782da3e2b79d5d54f984637ab53d2c7cfeafa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 14/35] fix: making a counterexample crashed when an
 approximation model was used

---
 hylaa/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index 53f551d..03dfd19 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -120,7 +120,9 @@ class Core(Freezable):
                               f"{self.settings.num_steps}, time {times}")
 
 
-            if self.settings.make_counterexample and not self.result.counterexample:
+            # the lp solution is only a discrete-time execution if the states were not approximated
+            if self.settings.make_counterexample and not self.result.counterexample and \
+                    self.settings.approx_model == HylaaSettings.APPROX_NONE:
                 self.print_verbose("Reached concrete error state; making concrete counter-example")
                 self.result.counterexample = make_counterexample(self.hybrid_automaton, state, t, t_lpi)
 
-- 
2.43.0


From 88908409c0c66089323a0d8009c3ade2261b9921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 15/35] fix: replay_counterexample did not sample the states at
 the steps

---
 hylaa/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hylaa/result.py b/hylaa/result.py
index 3697ec7..23af189 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -231,7 +231,7 @@ def replay_counterexample(ce_segment_list, ha, settings):
         der_func = make_der_func(a_mat, b_mat, [])
 
         start = segment.start
-        times = np.linspace(0, segment.steps * step_size, num=segment.steps)
+        times = np.linspace(0, segment.steps * step_size, num=segment.steps + 1)
         tol = 1e-9
         states = odeint(der_func, start, times, col_deriv=True, rtol=tol, atol=tol, mxstep=int(1e7))
 
-- 
2.43.0


From 3da9ef11c215948e9170abca7853a8085e7a8bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 16/35] fix: replay_counterexample did not check continuity of
 transitions without a reset

---
 hylaa/result.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/hylaa/result.py b/hylaa/result.py
index 23af189..5190a8e 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -261,16 +261,15 @@ def replay_counterexample(ce_segment_list, ha, settings):
 
         assert not t.reset_minkowski_csr, "unimplemented: resets with minkowski sums"
 
-        if t.reset_csr is not None:
-            poststate = t.reset_csr * states[-1]
+        poststate = states[-1] if t.reset_csr is None else t.reset_csr * states[-1]
 
-            if i + 1 < len(ce_segment_list):
-                next_prestate = ce_segment_list[i+1].start
+        if i + 1 < len(ce_segment_list):
+            next_prestate = ce_segment_list[i+1].start
 
-                assert np.allclose(poststate, next_prestate)
-            else:
-                rv.append(poststate)
-                all_times.append(all_times[-1])
+            assert np.allclose(poststate, next_prestate)
+        elif t.reset_csr is not None:
+            rv.append(poststate)
+            all_times.append(all_times[-1])
 
     return rv, all_times
 
-- 
2.43.0


From 390c074b719b20f602c4d47c964eedb2d5e673c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 17/35] fix: check_trace used a non-integer number of samples
 and xrange

---
 hylaa/check_trace.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hylaa/check_trace.py b/hylaa/check_trace.py
index 42faeac..7c21c7d 100644
--- a/hylaa/check_trace.py
+++ b/hylaa/check_trace.py
@@ -90,7 +90,7 @@ def check(a_matrix, b_matrix, step, max_time, start_point, inputs, normal_vec, e
 
     # we want to roughly get the desired number of sample points, so we may need to do multiple
     # samples per input
-    samples_per_input = approx_samples / max(1, len(inputs))
+    samples_per_input = approx_samples // max(1, len(inputs))
     if samples_per_input < 1:
         samples_per_input = 1
 
@@ -233,7 +233,7 @@ def plot(sim_states, sim_times, inputs, normal_vec, normal_val, max_time, step,
         flat_inputs = []
         flat_times = []
 
-        for i in xrange(total_steps-1):
+        for i in range(total_steps-1):
             flat_times += [input_times[i], input_times[i+1]]
             flat_inputs += [inputs[i, :], inputs[i, :]]
 
@@ -242,7 +242,7 @@ def plot(sim_states, sim_times, inputs, normal_vec, normal_val, max_time, step,
             flat_times += [input_times[0], input_times[0]]
             flat_inputs += [inputs[0, :], inputs[0, :]]
 
-        for row in xrange(len(flat_inputs[0])):
+        for row in range(len(flat_inputs[0])):
             ax[1].plot(flat_times, [single_input[row] for single_input in flat_inputs], label="$u_{}$".format(row+1))
 
     ##################
@@ -258,7 +258,7 @@ def plot(sim_states, sim_times, inputs, normal_vec, normal_val, max_time, step,
 
     ##################
     # legend
-    for i in xrange(2 if inputs is not None else 1):
+    for i in range(2 if inputs is not None else 1):
         legend = ax[i].legend(loc='best', numpoints=1)
 
         # Set the fontsize
-- 
2.43.0


From 92b763146c9992debf5e9502d8f104b44fa84dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 18/35] fix: check_trace without inputs failed for systems with
 a B matrix

---
 hylaa/check_trace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hylaa/check_trace.py b/hylaa/check_trace.py
index 7c21c7d..6fbbe45 100644
--- a/hylaa/check_trace.py
+++ b/hylaa/check_trace.py
@@ -81,7 +81,8 @@ def check(a_matrix, b_matrix, step, max_time, start_point, inputs, normal_vec, e
     assert abs(total_steps * step - max_time) < 1e-9, "Rounding issue with number of steps"
 
     if inputs is None:
-        inputs = [0] * (total_steps)
+        num_inputs = 1 if b_matrix is None else b_matrix.shape[1]
+        inputs = [[0] * num_inputs] * total_steps
 
     assert len(inputs) <= total_steps, "more inputs({}) than steps({})?".format(len(inputs), total_steps)
 
-- 
2.43.0


From b799af8b98fd68fb54fe2f67633340668ec59033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 19/35] fix: LinearConstraint.almost_equals with different
 sparsity patterns

---
 hylaa/hybrid_automaton.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 7f2166a..b66c66f 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -37,15 +37,9 @@ class LinearConstraint(Freezable):
             rv = False
         elif self.csr.shape != other.csr.shape:
             rv = False
-        elif not (self.csr.indices == other.csr.indices).all():
-            rv = False
-        elif not (self.csr.indptr == self.csr.indptr).all():
-            rv = False
         else:
-            for i in range(len(self.csr.data)):
-                a = self.csr.data[i]
-                b = other.csr.data[i]
-
+            # compare values, the two sparsity patterns may be different
+            for a, b in zip(self.csr.toarray()[0], other.csr.toarray()[0]):
                 if abs(a - b) > tol:
                     rv = False
                     break
-- 
2.43.0


From 853b2f8d1ea2428279c3406f8226445c9a336257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 20/35] fix: variables driven by inputs are not time-triggered
 clocks

---
 hylaa/hybrid_automaton.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index b66c66f..3b7d6d8 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -617,13 +617,19 @@ def get_tt_vars(mode):
     constant_vars = []
 
     for i in range(mode.a_csr.shape[0]):
-        nonzeros = mode.a_csr[i].getnnz()
+        nonzeros = mode.a_csr[i].count_nonzero()
+
+        if mode.b_csr is not None:
+            nonzeros += mode.b_csr[i].count_nonzero() # inputs also affect the derivative
 
         if nonzeros == 0: # row of all zeros
             constant_vars.append(i)
 
     for row_index, row in enumerate(mode.a_csr):
-        if row.getnnz() == 0: # skip constant variables
+        if row.count_nonzero() == 0: # skip constant variables
+            continue
+
+        if mode.b_csr is not None and mode.b_csr[row_index].count_nonzero() > 0: # derivative depends on inputs
             continue
 
         all_constant = True
-- 
2.43.0


From f89bf0c0817baa9d8e6f33b9dd66c327e92307fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 21/35] fix: relaxing a time-triggered guard changed guards
 sharing the same rhs array

---
 hylaa/hybrid_automaton.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 3b7d6d8..4a6a2e8 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -697,7 +697,9 @@ def check_and_relax_time_triggered(t, tt_vars, epsilon, print_func):
                         break
 
                 if found_invariant:
-                    t.guard_rhs[index] += epsilon # perform epsilon relaxation
+                    # perform epsilon relaxation (on a copy, the rhs may be shared with other transitions)
+                    t.guard_rhs = np.array(t.guard_rhs, dtype=float)
+                    t.guard_rhs[index] += epsilon
                     print_func("relaxed guard to {} <= {}".format(row.toarray(), t.guard_rhs[index]))
                 
                     rv = True
-- 
2.43.0


From cad4dfe1a33b932207a838be6892ba90c803458f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 22/35] fix: a state was dropped as time-triggered although its
 clock does not move towards the guard

---
 hylaa/hybrid_automaton.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 4a6a2e8..dc1682b 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -790,6 +790,15 @@ def was_tt_taken(state_lpi, t, step_size, num_steps):
                 all_affine_nonzero = False
                 break
 
+        if all_affine_nonzero:
+            # the guard condition must be approached (combined rate is negative), or the state can stay in the mode
+            rate_dir = (row * a_csr).toarray()[0]
+            all_cols = [state_lpi.cur_vars_offset + n for n in range(dims)]
+            rate = np.dot(state_lpi.minimize(direction_vec=rate_dir, columns=all_cols), rate_dir)
+
+            if rate > -epsilon:
+                all_affine_nonzero = False
+
         if all_affine_nonzero:
             # make sure x is flat... first find x
             #print(". all affine nonzero, optimizing guard direction")
-- 
2.43.0


From 5ccdfe635137b64e9bdbb05effd81980c03e9902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 23/35] fix: set_reset accepted minkowski terms without their
 constraints

---
 hylaa/hybrid_automaton.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index dc1682b..147ab26 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -382,6 +382,11 @@ class Transition(Freezable):
         assert reset_csr.shape[0] == to_mode_csr.shape[0], "reset matrix expected {} rows, got {}".format(
             to_mode_csr.shape[0], reset_csr.shape[0])
 
+        assert (reset_minkowski_constraints_csr is None) == (reset_minkowski_constraints_rhs is None), \
+            "minkowski constraints matrix and rhs should be given together"
+        assert reset_minkowski_csr is None or reset_minkowski_constraints_rhs is not None, \
+            "reset_minkowski_csr was given without constraints on the minkowski variables"
+
         if reset_minkowski_constraints_rhs is not None:
             assert len(reset_minkowski_constraints_rhs.shape) == 1
             assert reset_minkowski_constraints_csr is not None
-- 
2.43.0


From 2ecf8c8bcefe587df83ef6e09df6e48db20bacc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 24/35] fix: simulation crashed with the Unaggregated strategy

---
 hylaa/aggstrat.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hylaa/aggstrat.py b/hylaa/aggstrat.py
index ceb8852..ffd76ba 100644
--- a/hylaa/aggstrat.py
+++ b/hylaa/aggstrat.py
@@ -71,6 +71,13 @@ class AggregationStrategy(Freezable):
 
         raise NotImplementedError("Unaggregated strategy does not implement get_agg_type")
 
+    def get_simulation_pop_mode(self, sim_waiting_list):
+        '''
+        returns the mode to be popped off the simulation waiting list (here: the mode of the first element)
+        '''
+
+        return sim_waiting_list[0][0]
+
 class Unaggregated(AggregationStrategy):
     'another name for the base implementation of AggregationStrategy'
 
-- 
2.43.0


From 0036794feb68ff416d0f8826b6b1ec33fa1235ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 25/35] fix: the time-triggered flag of a set at the time bound
 dropped the next popped set

---
 hylaa/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hylaa/core.py b/hylaa/core.py
index 03dfd19..c6c7372 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -223,6 +223,7 @@ class Core(Freezable):
         if not self.is_finished():
             if cur_state.cur_steps_since_start[0] >= self.settings.num_steps:
                 self.print_normal("State reached computation time bound")
+                self.took_tt_transition = False # reset the flag, it must not apply to the next popped state
                 self.aggdag.cur_state_left_invariant(reached_time_bound=True)
 
             elif self.took_tt_transition:
-- 
2.43.0


From d09d77ef9c8468513cf83c0ff86b0d0ece484621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 26/35] fix: a simulated trajectory tried guards before its
 first step when another one had advanced

---
 hylaa/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hylaa/core.py b/hylaa/core.py
index c6c7372..7b70073 100644
--- a/hylaa/core.py
+++ b/hylaa/core.py
@@ -515,7 +515,7 @@ class Core(Freezable):
                 # pop minimum time state
                 self.sim_pop_waiting_list()
 
-                self.sim_should_try_guards = self.settings.process_urgent_guards
+                self.sim_should_try_guards = [self.settings.process_urgent_guards] * len(self.sim_states)
                 self.sim_took_transition = [False] * len(self.sim_states)
                 self.plotman.pause()
                 self.print_verbose("Pausing due to sim pop()")
@@ -538,7 +538,7 @@ class Core(Freezable):
                     continue
 
                 # try guards (before advancing)
-                if self.sim_should_try_guards:
+                if self.sim_should_try_guards[i]:
                     for transition in mode.transitions:
                         if transition.is_guard_true_for_point(pt):
 
@@ -564,7 +564,7 @@ class Core(Freezable):
                     self.sim_states[i] = None
                     continue
 
-                self.sim_should_try_guards = True
+                self.sim_should_try_guards[i] = True
                 finished = False
                 
                 # advance time
-- 
2.43.0


From b2e8183442940ed6a393f9f5e04ecf6940cd570b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 27/35] fix: an input fixed by one pair of bounds was accepted
 when a weaker bound was also given

---
 hylaa/hybrid_automaton.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hylaa/hybrid_automaton.py b/hylaa/hybrid_automaton.py
index 147ab26..6fbe396 100644
--- a/hylaa/hybrid_automaton.py
+++ b/hylaa/hybrid_automaton.py
@@ -180,10 +180,11 @@ class Mode(Freezable):
 
             for row, rhs in zip(u_constraints_csr, u_constraints_rhs):
                 row = row.toarray()
+                # the same input can be bounded by several rows, use the tightest ones
                 if np.array_equiv(lb_row, row):
-                    lb = rhs
+                    lb = rhs if lb is None else min(lb, rhs)
                 elif np.array_equiv(ub_row, row):
-                    ub = -rhs
+                    ub = -rhs if ub is None else max(ub, -rhs)
 
             if ub is None or lb is None:
                 continue
-- 
2.43.0


From 6eb91768a507a63ca74cbb695b80e00eb6403ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 28/35] fix: pt_to_plot_xy used the time for y dimension 0 and
 failed for direction vectors

---
 hylaa/lpplot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hylaa/lpplot.py b/hylaa/lpplot.py
index 292c638..0c96310 100644
--- a/hylaa/lpplot.py
+++ b/hylaa/lpplot.py
@@ -23,13 +23,13 @@ def pt_to_plot_xy(pt, xdim=0, ydim=1, cur_time=0.0):
 
     if isinstance(xdim, int):
         x = pt[xdim]
-    elif xdim:
+    elif xdim is not None:
         assert isinstance(xdim, np.ndarray)
         x = np.dot(pt, xdim)
 
-    if ydim and isinstance(ydim, int):
+    if isinstance(ydim, int):
         y = pt[ydim]
-    elif ydim:
+    elif ydim is not None:
         assert isinstance(ydim, np.ndarray)
         y = np.dot(pt, ydim)
 
-- 
2.43.0


From ab999f9ec24c3a5b507bec5e250a7e5b34f775c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 29/35] fix: get_verts crashed when both axes are the time

---
 hylaa/lpplot.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hylaa/lpplot.py b/hylaa/lpplot.py
index 0c96310..8a46aae 100644
--- a/hylaa/lpplot.py
+++ b/hylaa/lpplot.py
@@ -60,13 +60,13 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
     #try:
     if xdim is None and ydim is None:
         if abs(cur_time[0] - cur_time[1]) < tol:
-            pts = [[cur_time, cur_time]]
+            verts = [[cur_time[0], cur_time[0]]]
         else:
-            pts = []
-            pts.append([cur_time.min, cur_time.min])
-            pts.append([cur_time.min, cur_time.max])
-            pts.append([cur_time.max, cur_time.max])
-            pts.append([cur_time.max, cur_time.min])
+            verts = []
+            verts.append([cur_time[0], cur_time[0]])
+            verts.append([cur_time[0], cur_time[1]])
+            verts.append([cur_time[1], cur_time[1]])
+            verts.append([cur_time[1], cur_time[0]])
 
     elif xdim is None:
         # plot over time
-- 
2.43.0


From 172e2a8f07f00fbb253e8a5b5f714b458ef0b9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 30/35] fix: 2-d plots with direction vectors

---
 hylaa/lpplot.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/hylaa/lpplot.py b/hylaa/lpplot.py
index 8a46aae..3a55d72 100644
--- a/hylaa/lpplot.py
+++ b/hylaa/lpplot.py
@@ -117,11 +117,11 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
             verts.append([xmin, cur_time[1]])
     else:
         # 2-d plot
-        bboxw = bbox_widths(lpi, xdim, ydim)
+        dim_list = [_make_dir(lpi.dims, xdim), _make_dir(lpi.dims, ydim)]
+        bboxw = bbox_widths(lpi, dim_list[0], dim_list[1])
 
         # use bbox to determine acceptable accuracy... might be better to somehow do this
         epsilon = min(bboxw) / 1000.0
-        dim_list = [xdim, ydim]
 
         def supp_point_nd(vec):
             'return a supporting point for the given direction (maximize)'
@@ -131,8 +131,8 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
             d = np.zeros((lpi.dims,), dtype=float)
             # negative here because we want to MAXIMIZE not minimize
 
-            for i, dim_index in enumerate(dim_list):
-                d[dim_index] = -vec[i]
+            for i, dim_dir in enumerate(dim_list):
+                d += -vec[i] * dim_dir
 
             lpi.set_minimize_direction(d)
 
@@ -140,8 +140,8 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
 
             rv = []
 
-            for dim in dim_list:
-                rv.append(res[dim])
+            for dim_dir in dim_list:
+                rv.append(np.dot(dim_dir, res))
 
             rv = np.array(rv, dtype=float)
 
@@ -166,19 +166,29 @@ def get_verts(lpi, xdim=0, ydim=1, plot_vecs=None, cur_time=0.0):
 
     return verts
 
+def _make_dir(dims, dim):
+    'convert a plot dimension (dimension number or np.array direction) to a direction'
+
+    if isinstance(dim, int):
+        dim = np.array([1.0 if i == dim else 0.0 for i in range(dims)], dtype=float)
+
+    return np.array(dim, dtype=float)
+
 def bbox_widths(lpi, xdim, ydim):
-    'find and return the bounding box widths of the lp for the passed-in dimensions'
+    """find and return the bounding box widths of the lp for the passed-in dimensions
+
+    each dimension can be either an integer (dimension number) or an np.array (direction)
+    """
 
     rv = []
     dims = lpi.dims
+    cols = [lpi.cur_vars_offset + n for n in range(dims)]
 
     for dim in [xdim, ydim]:
-        col = lpi.cur_vars_offset + dim
-        min_dir = [1 if i == dim else 0 for i in range(dims)]
-        max_dir = [-1 if i == dim else 0 for i in range(dims)]
-        
-        min_val = lpi.minimize(direction_vec=min_dir, columns=[col])[0]
-        max_val = lpi.minimize(direction_vec=max_dir, columns=[col])[0]
+        dim_dir = _make_dir(dims, dim)
+
+        min_val = np.dot(dim_dir, lpi.minimize(direction_vec=dim_dir, columns=cols))
+        max_val = np.dot(dim_dir, lpi.minimize(direction_vec=-1 * dim_dir, columns=cols))
 
         dx = max_val - min_val
 
-- 
2.43.0


From e2b8be032fe3463a5521424bfe7ba437ba6e5e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 31/35] fix: PlotData.remove_state only removed the state from
 the first subplot

---
 hylaa/result.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hylaa/result.py b/hylaa/result.py
index 5190a8e..877a52b 100644
--- a/hylaa/result.py
+++ b/hylaa/result.py
@@ -67,7 +67,7 @@ class PlotData(Freezable):
         self.mode_to_obj_list[plot_index][mode_name].append(obj)
 
     def remove_state(self, state, step):
-        'remove a state that was previously added'
+        'remove a state that was previously added (from all the plots)'
 
         found = False
 
@@ -83,9 +83,6 @@ class PlotData(Freezable):
                     obj_list.pop(index)
                     break
 
-            if found:
-                break
-
         assert found
 
     def get_plot_data(self, x, y, subplot=0):
-- 
2.43.0


From 7832350f9606f285a856d76063d3057bb887d0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 32/35] fix: kamenev took sets far from the origin as a single
 point

---
 hylaa/kamenev.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hylaa/kamenev.py b/hylaa/kamenev.py
index 632b49f..5bd2822 100644
--- a/hylaa/kamenev.py
+++ b/hylaa/kamenev.py
@@ -58,7 +58,8 @@ def _find_two_points(dims, supp_point_func):
         vec = np.array([1 if i == d else 0 for i in range(dims)], dtype=float)
         p2 = supp_point_func(vec)
 
-        if not np.allclose(p1, p2):
+        # the tolerance must not depend on how far the set is from the origin
+        if not np.allclose(p1, p2, rtol=1e-9, atol=1e-7):
             pts = [p1, p2]
             break
 
-- 
2.43.0


From 6f599bf1a4a241cb4e82f80be94b424b383c48ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:57 +0000
Subject: [PATCH 33/35] fix: from_constraints checks feasibility with the given
 row types

---
 hylaa/lputil.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hylaa/lputil.py b/hylaa/lputil.py
index 1a929f0..28b166e 100644
--- a/hylaa/lputil.py
+++ b/hylaa/lputil.py
@@ -111,7 +111,7 @@ def from_constraints(csr, rhs, mode, types=None, names=None, dims=None):
 
     assert len(rhs.shape) == 1
     assert csr.shape[0] == len(rhs)
-    assert is_feasible(csr, rhs), "initial constraints are not feasible"
+    assert is_feasible(csr, rhs, types), "initial constraints are not feasible"
     assert (types is None) == (names is None)
 
     if dims is None:
@@ -1002,8 +1002,8 @@ def reorthogonalize_matrix(mat, dims):
 
     return np.array(rv, dtype=float)
 
-def is_feasible(csr, rhs):
-    'are the passed in constraints feasible?'
+def is_feasible(csr, rhs, types=None):
+    'are the passed in constraints feasible? (if types is None, all constraints are <= constraints)'
 
     if not isinstance(csr, csr_matrix):
         csr = csr_matrix(csr, dtype=float)
@@ -1013,7 +1013,11 @@ def is_feasible(csr, rhs):
     lpi = LpInstance()
     names = ["x{}".format(n) for n in range(csr.shape[1])]
     lpi.add_cols(names)
-    lpi.add_rows_less_equal(rhs)
+
+    if types is None:
+        lpi.add_rows_less_equal(rhs)
+    else:
+        lpi.add_rows_with_types(types, rhs)
 
     lpi.set_constraints_csr(csr)
 
-- 
2.43.0


From a9a28d23e8a1c0f7e99ace60e9049802df282a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:27 +0000
Subject: [PATCH 34/35] fix: kamenev returned points inside a flat segment as
 its ends

---
 hylaa/kamenev.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hylaa/kamenev.py b/hylaa/kamenev.py
index 5bd2822..bffd453 100644
--- a/hylaa/kamenev.py
+++ b/hylaa/kamenev.py
@@ -122,6 +122,13 @@ def get_verts(dims, supp_point_func, epsilon=1e-7):
 
     init_simplex = _find_init_simplex(dims, supp_point_func)
 
+    if len(init_simplex) == 2:
+        # the two points may be inside of the segment, if they were found in a direction in which the set is flat
+        segment_dir = init_simplex[1] - init_simplex[0]
+        segment_dir = segment_dir / np.linalg.norm(segment_dir)
+
+        init_simplex = [supp_point_func(-1 * segment_dir), supp_point_func(segment_dir)]
+
     if len(init_simplex) < 3:
         return init_simplex # for 0-d and 1-d sets, the init_simplex corners are the only possible extreme points
     
-- 
2.43.0


From d9d7a8184a222bcffc6c7e6de448ede905f497fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:33 +0000
Subject: [PATCH 35/35] fix: kamenev dropped distinct extreme points of sets
 far from the origin

---
 hylaa/kamenev.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hylaa/kamenev.py b/hylaa/kamenev.py
index bffd453..409e649 100644
--- a/hylaa/kamenev.py
+++ b/hylaa/kamenev.py
@@ -194,7 +194,8 @@ def _v_h_rep_given_init_simplex(init_simplex, supp_point_func, epsilon=1e-7):
 
                 Timers.tic("check if new point")
                 for pt in new_pts:
-                    if np.allclose(pt, supporting_pt):
+                    # the tolerance must not depend on how far the set is from the origin
+                    if np.allclose(pt, supporting_pt, rtol=1e-9, atol=1e-7):
                         already_added = True
                         break
                 Timers.toc("check if new point")
-- 
2.43.0

