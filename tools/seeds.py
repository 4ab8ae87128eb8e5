'''planted changes: each breaks one property, compiles and passes the repository's tests (see mkseed.py)'''
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


PRE = '''
import sys
import numpy as np
from scipy.sparse import csr_matrix
from hylaa.hybrid_automaton import HybridAutomaton
from hylaa.stateset import StateSet
from hylaa.lpinstance import LpInstance
from hylaa import lputil
LpInstance.print_normal = LpInstance.print_verbose = LpInstance.print_debug = lambda *a: None


def rng(lpi, d):
    d = np.array(d, dtype=float)
    cols = [lpi.cur_vars_offset + i for i in range(lpi.dims)]
    return np.dot(lpi.minimize(d, columns=cols), d), np.dot(lpi.minimize(-d, columns=cols), d)


def check(ok, msg):
    if not ok:
        print(msg)
        sys.exit(1)


def near(a, b, tol=1e-6):
    return np.allclose(np.array(a, dtype=float), np.array(b, dtype=float), atol=tol, rtol=tol)
'''

seed('s01_successor_exactness', 'C08',
     [('hylaa/aggdag.py', "            state = StateSet(t_lpi, t.to_mode, steps_since_start, op_list, is_concrete)\n", "            state = StateSet(t_lpi, t.to_mode, steps_since_start, op_list, is_concrete or not t.to_mode.is_error())\n")],
     'a transition taken from an aggregated (not exact) set to an ordinary mode',
     'the successor of a set that is not exact is marked exact',
     PRE + """
from hylaa.settings import HylaaSettings, PlotSettings
from hylaa.core import Core
from hylaa.aggstrat import Aggregated
ha = HybridAutomaton()
A = [[0.0, 1.0], [0.0, 0.0]]
m1 = ha.new_mode('m1'); m1.set_dynamics(A); m1.set_invariant([[1.0, 0.0]], [2.5])
m2 = ha.new_mode('m2'); m2.set_dynamics(A); m2.set_invariant([[1.0, 0.0]], [4.5])
m3 = ha.new_mode('m3'); m3.set_dynamics(A)
t = ha.new_transition(m1, m2); t.set_guard([[-1.0, 0.0]], [-1.0])
t = ha.new_transition(m2, m3); t.set_guard([[-1.0, 0.0]], [-4.0])
s = HylaaSettings(1.0, 6.0); s.stdout = HylaaSettings.STDOUT_NONE; s.plot.plot_mode = PlotSettings.PLOT_NONE
s.aggstrat = Aggregated(Aggregated.AGG_BOX)
seen = []
core = Core(ha, s)
orig = core.aggdag.waiting_list
class Rec(Core):
    def do_step_pop(self):
        Core.do_step_pop(self)
        n = self.aggdag.cur_node
        if n is not None and n.parent_ops[0].parent_node is not None:
            ps = n.parent_ops[0].parent_node.stateset
            seen.append((ps.is_concrete, n.parent_ops[0].poststate.is_concrete))
core.__class__ = Rec
core.run([StateSet(lputil.from_box([(0, 0), (1, 1)], m1), m1)])
check(any(not a for a, _ in seen), 'the demonstration did not aggregate')
check(all(b <= a for a, b in seen), 'the successor of a set that is not exact is marked exact')
""")

seed('s02_clone_shares_objective_columns', 'C02',
     [('hylaa/lpinstance.py', "        rv.obj_cols = self.obj_cols.copy()\n", "        rv.obj_cols = self.obj_cols\n"),
      ('hylaa/lpinstance.py', "            glpk.glp_set_obj_coef(self.lp, i, 0)\n\n        self.obj_cols = []\n", "            glpk.glp_set_obj_coef(self.lp, i, 0)\n\n        self.obj_cols.clear()\n")],
     'a clone whose objective was set through an offset or a sparse direction, then the original is optimised, then the clone again',
     'the list of objective columns is shared between a set and its copy, so optimising one leaves a stale objective in the other',
     PRE + '''
ha = HybridAutomaton()
m = ha.new_mode('m'); m.set_dynamics([[0.0, 0.0], [0.0, 0.0]])
a = lputil.from_box([(1.0, 2.0), (3.0, 4.0)], m)
a.set_minimize_direction(csr_matrix([[1.0, 0.0]]), is_csr=True)
b = a.clone()
a.set_minimize_direction(csr_matrix([[0.0, -1.0]]), is_csr=True)
b.set_minimize_direction(csr_matrix([[0.0, 1.0]]), is_csr=True)
import swiglpk as g
co = [g.glp_get_obj_coef(b.lp, i + 1) for i in range(b.get_num_cols())]
check(co == [0, 0, 0, 1.0] , f'objective of the copy: {co}')
''')

seed('s03_step_zero_not_recorded', 'C04',
     [('hylaa/time_elapse_expm.py', "        self.cur_step = step_num\n", "        if step_num > 0:\n            self.cur_step = step_num\n")],
     'matrices of step k, then of step 0, then of step k+1 are requested from the same mode',
     'the identity of step 0 is taken for the matrix of step k, so step k+1 gives a wrong matrix',
     PRE + '''
from scipy.linalg import expm
ha = HybridAutomaton()
A = np.array([[-.3, 1.0], [-1.0, 0.1]])
m = ha.new_mode('m'); m.set_dynamics(A); m.init_time_elapse(.25)
m.time_elapse.get_basis_matrix(3)
m.time_elapse.get_basis_matrix(0)
got = m.time_elapse.get_basis_matrix(4)[0]
check(near(got, expm(A)), f'step 4 after 3, 0: {got}')
''')

seed('s04_bloat_row', 'C11',
     [('hylaa/lputil.py', "        inds.append(lpi.basis_mat_pos[0] + n)\n        \n        # x <= amount", "        inds.append(n)\n        \n        # x <= amount")],
     'a set that went through a reset (its basis matrix is not in the first rows)',
     'the bloating variables are added to rows of the previous mode, so the current set is not bloated',
     PRE + '''
ha = HybridAutomaton()
m = ha.new_mode('m'); m.set_dynamics([[0.0]])
lpi = lputil.from_box([(1.0, 2.0)], m)
lputil.add_reset_variables(lpi, 0, 0, csr_matrix([[0.0]]))
lputil.bloat(lpi, .5)
check(near(rng(lpi, [1]), [-.5, .5]), f'bloated {rng(lpi, [1])}')
''')

seed('s05_chull_changes_sources', 'C10',
     [('hylaa/lputil.py', "        lpi = old_lpi.clone()\n        lpi.add_rows_less_equal([1])\n", "        lpi = old_lpi\n        lpi.add_rows_less_equal([1])\n")],
     'the sets given to the convex hull are used again afterwards (as in deaggregation)',
     'the redundant row of the hull construction is added to the aggregated sets themselves',
     PRE + """
ha = HybridAutomaton()
m = ha.new_mode('m'); m.set_dynamics([[0.0]])
a = lputil.from_box([(1.0, 2.0)], m)
b = lputil.from_box([(5.0, 6.0)], m)
r = (a.get_num_rows(), b.get_num_rows())
lputil.aggregate_chull([a, b], m)
check((a.get_num_rows(), b.get_num_rows()) == r, 'the aggregated sets were changed')
""")

seed('s06_same_path_by_mode', 'C13',
     [('hylaa/aggstrat.py', "                        if to_remove_op.transition is op.transition and \\\n                                                    to_remove_op.parent_node is op.parent_node:\n",
       "                        if to_remove_op.transition is op.transition:\n")],
     'two nodes of the same mode (for instance from two initial sets) with successors through the same transition, aggregation with the same-path requirement',
     'sets that came along different paths are popped (and aggregated) together',
     PRE + '''
from hylaa.aggstrat import Aggregated
class O: pass
ha = HybridAutomaton()
m = ha.new_mode('m'); m.set_dynamics([[0.0]])
t = object(); n1, n2 = object(), object()
wl = []
for i, n in enumerate([n1, n2, n1]):
    op = O(); op.transition = t; op.parent_node = n; op.poststate = StateSet(lputil.from_box([(i, i + 1)], m), m, [1, 1]); wl.append(op)
got = Aggregated(Aggregated.AGG_BOX).pop_waiting_list(wl)
check(got == [wl[0], wl[2]], 'sets of different paths were popped together')
''')

seed('s07_guard_almost_equal', 'C19',
     [('hylaa/hybrid_automaton.py', "guard_constraint.almost_equals(inv_constraint, 1e-13)", "guard_constraint.almost_equals(inv_constraint, 1e-3)")],
     'a guard condition that differs from a target invariant condition by less than 1e-3',
     'the target invariant condition is taken for present although the guard condition is weaker',
     PRE + '''
ha = HybridAutomaton()
m1 = ha.new_mode('m1'); m1.set_dynamics([[0.0]])
m2 = ha.new_mode('m2'); m2.set_dynamics([[0.0]]); m2.set_invariant([[1.0]], [1.0])
t = ha.new_transition(m1, m2); t.set_guard([[1.0]], [1.0005])
ha.do_guard_strengthening()
check(min(t.guard_rhs) == 1.0, f'guard after strengthening: {t.guard_rhs}')
''')

seed('s08_agg_interval', 'C09',
     [('hylaa/aggregate.py', '''    max_step = max([state.cur_steps_since_start[1] for state in agg_list])
    step_interval = [min_step, max_step]

    print_func("Aggregation time''', '''    max_step = max([state.cur_steps_since_start[0] for state in agg_list])
    step_interval = [min_step, max_step]

    print_func("Aggregation time''')],
     'a template aggregation of sets that are aggregations themselves (their elapsed-step intervals have a width)',
     'the elapsed-step interval of the aggregated set does not contain those of its parts',
     PRE + '''
from hylaa import aggregate
ha = HybridAutomaton()
m = ha.new_mode('m'); m.set_dynamics([[0.0]])
l = [StateSet(lputil.from_box([(0, 1)], m), m, [1, 4]), StateSet(lputil.from_box([(2, 3)], m), m, [2, 3])]
s = aggregate.aggregate_box_arnoldi(l, [None, None], True, False, False, lambda *_: None)
check(s.cur_steps_since_start == [1, 4], f'interval {s.cur_steps_since_start}')
''')

seed('s09_negative_input_column', 'C23',
     [('hylaa/hybrid_automaton.py', "nonzeros = sum([1 if x != 0 else 0 for x in b_col])", "nonzeros = sum([1 if x > 0 else 0 for x in b_col])")],
     'an input with a negative coefficient that is fixed by two opposite bounds',
     'an input fixed to a constant is accepted when its B coefficient is negative',
     PRE + '''
ha = HybridAutomaton()
m = ha.new_mode('m'); m.set_dynamics([[0.0]])
try:
    m.set_inputs([[-1.0]], [[1.0], [-1.0]], [2.0, -2.0])
except RuntimeError:
    sys.exit(0)
check(False, 'a fixed input was accepted')
''')

seed('s10_break_after_error', 'C15',
     [('hylaa/core.py', "                    if cur_state.is_concrete and self.settings.stop_on_concrete_error:\n                        break\n", "                    if cur_state.is_concrete and self.result.has_concrete_error:\n                        break\n")],
     'stop_on_concrete_error is off and a transition to an error mode is declared before another transition enabled at the same step',
     'transitions after an error transition are not examined although the analysis was asked to go on',
     PRE + """
from hylaa.settings import HylaaSettings, PlotSettings
from hylaa.core import Core
from hylaa.aggstrat import Unaggregated
ha = HybridAutomaton()
A = [[0.0, 1.0], [0.0, 0.0]]
m1 = ha.new_mode('m1'); m1.set_dynamics(A); m1.set_invariant([[1.0, 0.0]], [1.5])
m2 = ha.new_mode('m2'); m2.set_dynamics(A)
e = ha.new_mode('e')
t = ha.new_transition(m1, e); t.set_guard([[-1.0, 0.0]], [-2.0])
t = ha.new_transition(m1, m2); t.set_guard([[-1.0, 0.0]], [-2.0])
s = HylaaSettings(1.0, 4.0); s.stdout = HylaaSettings.STDOUT_NONE; s.plot.plot_mode = PlotSettings.PLOT_NONE
s.aggstrat = Unaggregated(); s.stop_on_concrete_error = False; s.stop_on_aggregated_error = False
core = Core(ha, s)
r = core.run([StateSet(lputil.from_box([(0, 0), (1, 1)], m1), m1)])
check(r.has_concrete_error, 'error not found')
check(r.last_cur_state.mode is m2, 'the other transition was not examined')
""")

seed('s11_multi_step_effects_list', 'C05',
     [('hylaa/stateset.py', "                    _, ie_mat = self.mode.time_elapse.get_basis_matrix(step)\n                    self.input_effects_list.append(ie_mat)\n",
       "                    _, ie_mat = self.mode.time_elapse.get_basis_matrix(step)\n")],
     'several steps taken at once in a mode with inputs (as in a replay), then the invariant cuts the set',
     'the recorded input effects miss the intermediate steps, so the set differs from one advanced step by step',
     PRE + '''
ha = HybridAutomaton()
m = ha.new_mode('m'); m.set_dynamics([[.5]]); m.set_inputs([[1.0]], [[1.0], [-1.0]], [1.0, 1.0])
m.init_time_elapse(1.0)
out = []
for how in (0, 1):
    s = StateSet(lputil.from_box([(1.0, 2.0)], m), m)
    if how:
        s.step(3)
    else:
        for _ in range(3): s.step()
    lputil.add_init_constraint(s.lpi, np.array([1.0]), 5.0, s.basis_matrix, s.input_effects_list)
    out.append(rng(s.lpi, [1]))
    check(len(s.input_effects_list) == 3, 'effects of intermediate steps were not recorded')
check(near(out[0], out[1]), f'{out}')
''')

seed('s12_tt_tolerance', 'C20',
     [('hylaa/hybrid_automaton.py', "                    if lc.rhs == -1 * rhs and (-1 * lc.csr != row[0]).nnz == 0:\n", "                    if abs(lc.rhs + rhs) < 10 * epsilon and (-1 * lc.csr != row[0]).nnz == 0:\n")],
     'an invariant that allows slightly more than the guard threshold (within ten tolerances)',
     'a transition whose guard and invariant overlap is treated as time-triggered and its guard relaxed',
     PRE + '''
ha = HybridAutomaton()
m = ha.new_mode('m'); m.set_dynamics([[0.0, 1.0], [0.0, 0.0]]); m.set_invariant([[1.0, 0.0]], [1.005])
m2 = ha.new_mode('m2'); m2.set_dynamics([[0.0, 1.0], [0.0, 0.0]])
t = ha.new_transition(m, m2); t.set_guard([[-1.0, 0.0]], [-1.0])
ha.detect_tt_transitions(1.0, 1, lambda *_: None)
check(not t.time_triggered and list(t.guard_rhs) == [-1.0], f'{t.time_triggered} {t.guard_rhs}')
''')

seed('s13_constant_condition_dropped', 'C18',
     [('hylaa/symbolic.py', "        row = terms[:-1]\n", "        row = terms[:-1]\n\n        if not any(row): # no variables left\n            continue\n"),
      ('hylaa/symbolic.py', "        rhs.append(-1 * terms[-1])\n", "        rhs.append(-terms[-1])\n")],
     'a condition that contains no variable after the constants are substituted',
     'a condition that is false for the given constants is dropped',
     PRE + """
from hylaa.symbolic import make_condition
mat, r = make_condition(['x'], ['x <= 1', 'k <= 0'], {'k': 3})
ok = lambda x: all(np.dot(a, [x]) <= b for a, b in zip(mat, r))
check(not ok(0.0), f'{mat} {r}')
""")

seed('s14_zonotope_many_generators', 'C01',
     [('hylaa/lputil.py', "        for gindex, generator in enumerate(generator_list):     \n            row[cdims + 1 + gindex] = generator[dim]\n", "        for gindex, generator in enumerate(generator_list[:cdims + 2]):     \n            row[cdims + 1 + gindex] = generator[dim]\n")],
     'a zonotope with more generators than its dimension plus two',
     'the set is smaller than the zonotope: the last generators do not contribute',
     PRE + '''
ha = HybridAutomaton()
m = ha.new_mode('m'); m.set_dynamics([[0.0, 1.0], [0.0, 0.0]])
for g in ([[1, 0], [0, 1]], [[1, 0], [0, 1], [1, 1], [1, -1], [2, 0], [0, .5]]):
    l = lputil.from_zonotope([1.0, 2.0], g, m)
    w = np.sum(np.abs(np.array(g, dtype=float)), axis=0)
    check(near(rng(l, [1, 0]), (1 - w[0], 1 + w[0])) and near(rng(l, [0, 1]), (2 - w[1], 2 + w[1])), f'{g}: {rng(l, [1, 0])} {rng(l, [0, 1])}')
''')

seed('s15_retry_returns_all_columns', 'C03',
     [('hylaa/lpinstance.py', "            rv = self.minimize(direction_vec, columns, False, print_on=True)\n", "            rv = self.minimize(direction_vec, None, False, print_on=True)\n")],
     'the solver first answers infeasible and finds the optimum after its basis was reset, with selected columns requested',
     'after the retry the whole solution is returned instead of the requested columns',
     PRE + '''
import swiglpk as glpk
ha = HybridAutomaton()
m = ha.new_mode('m'); m.set_dynamics([[0.0, 1.0], [0.0, 0.0]])
l = lputil.from_box([(0, 1), (2, 3)], m)
want = list(l.minimize([1.0, 1.0], columns=[l.cur_vars_offset + 1]))
real, n = glpk.glp_get_status, [0]
def status(lp):
    n[0] += 1
    return glpk.GLP_NOFEAS if n[0] == 1 else real(lp)
glpk.glp_get_status = status
got = list(l.minimize([1.0, 1.0], columns=[l.cur_vars_offset + 1]))
check(near(len(got), 1) and near(got, want), f'{got} instead of {want}')
''')

seed('s16_pending_work_of_later_children', 'C14',
     [('hylaa/aggdag.py', "                elif not op.child_node in child_nodes: # don't insert the same node twice\n", "                elif not child_nodes or op.child_node is not child_nodes[-1] and op.transition.to_mode is not node.stateset.mode:\n")],
     'a node whose second successor stays in the same mode (a self-loop) and has pending work',
     'work that originates from the split node stays in the waiting list',
     PRE + '''
from hylaa.settings import HylaaSettings
from hylaa.core import Core
ha = HybridAutomaton()
m1 = ha.new_mode('m1'); m1.set_dynamics([[0.0]])
m2 = ha.new_mode('m2'); m2.set_dynamics([[0.0]])
out = ha.new_transition(m1, m2); out.set_guard_true()
loop = ha.new_transition(m1, m1); loop.set_guard_true()
st = HylaaSettings(1.0, 5.0); st.stdout = 0
dag = Core(ha, st).aggdag
s = StateSet(lputil.from_box([(0, 1)], m1), m1)
dag.add_init_state(s)
dag.pop_waiting_list()
root = dag.cur_node
for t in (out, loop):
    dag.add_transition_successor(t, s.lpi.clone(), s, root)
ops, dag.waiting_list = list(dag.waiting_list), []
kids = [dag.make_node([o], None, 'full') for o in ops]
for t, k in ((out, kids[1]), (loop, kids[1])):
    dag.add_transition_successor(t, k.stateset.lpi.clone(), k.stateset, k)
dag.remove_node_decendants_from_waiting_list(root)
check(not dag.waiting_list, f'{len(dag.waiting_list)} sets of the node are still pending')
''')

seed('s17_reset_values_of_first_segment', 'C16',
     [('hylaa/result.py', "            seg.reset_minkowski_vars.append(value)\n", "            counterexample[0].reset_minkowski_vars.append(value)\n")],
     'a counterexample that takes two resets with an additive term',
     'the additive values of every reset are attributed to the first one',
     PRE + '''
from hylaa.settings import HylaaSettings, PlotSettings
from hylaa.core import Core
ha = HybridAutomaton()
ms = [ha.new_mode(f'm{i}') for i in range(3)]
for m in ms: m.set_dynamics([[0.0]])
e = ha.new_mode('e')
for i in range(2):
    t = ha.new_transition(ms[i], ms[i + 1]); t.set_guard([[-1.0]], [0.0])
    t.set_reset(reset_minkowski_csr=[[1.0]], reset_minkowski_constraints_csr=[[1.0], [-1.0]], reset_minkowski_constraints_rhs=[1.0 + i, 0.0])
t = ha.new_transition(ms[2], e); t.set_guard([[-1.0]], [-1.5])
s = HylaaSettings(1.0, 4.0); s.stdout = HylaaSettings.STDOUT_NONE; s.plot.plot_mode = PlotSettings.PLOT_NONE
r = Core(ha, s).run([StateSet(lputil.from_box([(0.0, 0.0)], ms[0]), ms[0])])
ce = r.counterexample
check(r.has_concrete_error and len(ce) == 3, 'error not found')
for a, b in zip(ce, ce[1:]):
    check(len(a.reset_minkowski_vars) == 1 and near(a.end[0] + a.reset_minkowski_vars[0], b.start[0]), f'{a} {a.reset_minkowski_vars} -> {b}')
''')

seed('s18_replay_time_offset', 'C17',
     [('hylaa/result.py', "        if all_times:\n            t_offset = all_times[-1]\n", "        if i == 1:\n            t_offset = all_times[-1]\n")],
     'a counterexample with three or more segments is replayed',
     'the times of the third segment start at zero again',
     PRE + '''
from hylaa.settings import HylaaSettings
from hylaa.result import CounterExampleSegment, replay_counterexample
ha = HybridAutomaton()
ms = [ha.new_mode(f'm{i}') for i in range(3)]
for m in ms: m.set_dynamics([[0.0]])
ms.append(ha.new_mode('e'))
segs = []
for i in range(3):
    t = ha.new_transition(ms[i], ms[i + 1]); t.set_guard_true()
    s = CounterExampleSegment(); s.mode = ms[i]; s.start = [1.0]; s.end = [1.0]; s.steps = 2; s.outgoing_transition = t
    segs.append(s)
pts, times = replay_counterexample(segs, ha, HylaaSettings(1.0, 10.0))
check(list(times) == sorted(times) and near(times[-1], 6.0), f'{times}')
''')

seed('s19_simulation_steps_of_successor', 'C22',
     [('hylaa/core.py', "                                self.sim_waiting_list.append([post_mode, post_pt, steps])\n", "                                self.sim_waiting_list.append([post_mode, post_pt, max(steps, 1)])\n")],
     'a simulation that takes an urgent transition before its first step',
     'the simulation in the next mode starts one step late and so stops one step early',
     PRE + '''
from hylaa.settings import HylaaSettings, PlotSettings
from hylaa.core import Core
ha = HybridAutomaton()
a = ha.new_mode('a'); a.set_dynamics([[0.0]])
b = ha.new_mode('b'); b.set_dynamics([[1.0]])
t = ha.new_transition(a, b); t.set_guard([[-1.0]], [0.0])
s = HylaaSettings(1.0, 3.0); s.stdout = HylaaSettings.STDOUT_NONE; s.plot.plot_mode = PlotSettings.PLOT_NONE
s.process_urgent_guards = True
added = []
core = Core(ha, s)
s.plot.plot_mode = PlotSettings.PLOT_IMAGE
class Plot:
    settings = s.plot
    num_subplots = 1
    def compute_and_animate(self):
        core.setup([]) if False else None
        for m in ha.modes.values(): m.init_time_elapse(1.0)
        for _ in range(100):
            if core.is_finished(): break
            core.do_step_sim()
            for x in core.sim_waiting_list or []:
                if x[0] is b: added.append(x[2])
    def __getattr__(self, n):
        return lambda *a, **k: None
core.plotman = Plot()
core.simulate(a, [(1.0, 2.0)], 3)
check(added and all(x == 0 for x in added), f'steps taken before the first step: {added}')
''')

seed('s20_unsorted_guard_row', 'C07',
     [('hylaa/hybrid_automaton.py', "            columns = [lpi.cur_vars_offset + i for i in row.indices]\n", "            columns = [lpi.cur_vars_offset + j for j in sorted(row.indices)]\n")],
     'a guard given as a sparse matrix whose entries are not stored in column order',
     'the minimum of the guard row is computed with permuted coordinates, so enabled transitions are missed',
     PRE + '''
ha = HybridAutomaton()
m = ha.new_mode('m'); m.set_dynamics([[0.0, 1.0], [0.0, 0.0]])
m2 = ha.new_mode('m2'); m2.set_dynamics([[0.0, 1.0], [0.0, 0.0]])
t = ha.new_transition(m, m2)
t.set_guard(csr_matrix((np.array([1.0, -2.0]), np.array([1, 0], dtype=np.int32), np.array([0, 2], dtype=np.int32)), shape=(1, 2)), [-1.0])
l = lputil.from_box([(1.0, 1.0), (0.5, 0.5)], m)     # x2 - 2 x1 = -1.5 <= -1
check(t.get_guard_intersection(l) is not None, 'enabled transition reported as not enabled')
l = lputil.from_box([(0.0, 0.0), (-0.5, -0.5)], m)   # -0.5
check(t.get_guard_intersection(l) is None, 'disabled transition reported as enabled')
''')

seed('s21_stale_vertices_with_inputs', 'C24',
     [('hylaa/stateset.py', "            self._verts = None # cached vertices no longer valid\n", "\n            if num_steps == 1 or input_effects_matrix is None:\n                self._verts = None # cached vertices no longer valid\n")],
     'a set in a mode with inputs is advanced by several steps at once after its vertices were drawn',
     'the drawn vertices are those of the earlier set',
     PRE + '''
ha = HybridAutomaton()
m = ha.new_mode('m'); m.set_dynamics([[0.0, 1.0], [0.0, 0.0]]); m.set_inputs([[0.0], [1.0]], [[1.0], [-1.0]], [1.0, 1.0])
m.init_time_elapse(1.0)
class P:
    pass
from hylaa.settings import HylaaSettings, PlotSettings
from hylaa.plotutil import PlotManager
from hylaa.core import Core
s = HylaaSettings(1.0, 5.0); s.stdout = 0; s.plot.plot_mode = PlotSettings.PLOT_NONE; s.plot.store_plot_result = True
s.plot.xdim_dir = [0]; s.plot.ydim_dir = [1]
core = Core(ha, s)
st = StateSet(lputil.from_box([(0.0, 1.0), (0.0, 1.0)], m), m)
def box(st):
    v = np.array(st.verts(core.plotman), dtype=float)
    return [v[:, 0].min(), v[:, 0].max()]
check(near(box(st), rng(st.lpi, [1, 0])), 'first drawing')
st.step(3)
check(near(box(st), rng(st.lpi, [1, 0]), 1e-3), f'drawn {box(st)}, the set is {rng(st.lpi, [1, 0])}')
''')

seed('s23_hull_of_static_mode', 'C12',
     [('hylaa/stateset.py', "        lpi_list = [self.lpi, lpi_one_step]\n", "        lpi_list = [self.lpi, lpi_one_step] if self.mode.a_csr.nnz else [self.lpi, self.lpi.clone()]\n")],
     'the convex-hull model in a mode with inputs whose dynamics matrix is zero',
     'the first set of the model does not contain the motion that the inputs cause within the first step',
     PRE + '''
from hylaa.settings import HylaaSettings
for a in (0.0, -1.0):
    ha = HybridAutomaton()
    m = ha.new_mode('m'); m.set_dynamics([[a]]); m.set_inputs([[1.0]], [[1.0], [-1.0]], [2.0, -1.0])
    m.init_time_elapse(0.5)
    s = StateSet(lputil.from_box([(1.0, 1.0)], m), m)
    s.apply_approx_model(HylaaSettings.APPROX_CHULL)
    hi = 1.0 + 2.0 * 0.5 if a == 0 else np.exp(-.5) + 2 * (1 - np.exp(-.5))
    check(rng(s.lpi, [1])[1] >= hi - 1e-6, f'{rng(s.lpi, [1])} does not reach {hi}')
''')

seed('s24_three_conditions_added', 'C19',
     [('hylaa/hybrid_automaton.py', "                for new_guard_condition in add_guard_list:\n", "                for new_guard_condition in add_guard_list[:3]:\n"),
      ('hylaa/hybrid_automaton.py', "                height = t.guard_csr.shape[0] + len(add_guard_list)\n", "                height = t.guard_csr.shape[0] + len(add_guard_list[:3])\n")],
     'a transition whose target invariant has four or more conditions that the guard lacks',
     'the guard is strengthened by the first three conditions only',
     PRE + '''
ha = HybridAutomaton()
A = [[0.0, 1.0], [0.0, 0.0]]
m = ha.new_mode('m'); m.set_dynamics(A)
m2 = ha.new_mode('m2'); m2.set_dynamics(A); m2.set_invariant([[1.0, 0.0], [-1.0, 0.0], [0.0, 1.0], [0.0, -1.0]], [1.0, 1.0, 1.0, 1.0])
t = ha.new_transition(m, m2); t.set_guard([[1.0, 1.0]], [5.0])
ha.do_guard_strengthening()
g = np.array(t.guard_csr.toarray())
check(g.shape == (5, 2) and len(t.guard_rhs) == 5 and near(g[4], [0, -1]), f'{g} {t.guard_rhs}')
''')

seed('s22_small_entries_dropped', 'C21',
     [('hylaa/lputil.py', "            cur_vec = a_csr * cur_vec\n", "            cur_vec = a_csr * np.where(np.abs(cur_vec) < 1e-2, 0, cur_vec)\n")],
     'a point or an image of it with an entry that is small but counts',
     'the template directions do not span the images of the point under the dynamics',
     PRE + '''
m = lputil.make_direction_matrix([1.0, 5e-3], csr_matrix(np.array([[0.0, 1.0], [0.0, 1.0]])))
check(near(np.abs(m[0]), [np.sqrt(.5), np.sqrt(.5)]), f'first direction {m[0]}, the image of the point is along (1, 1)')
check(near(m @ m.T, np.eye(2)), f'{m}')
''')

seed('s25_inputs_of_long_stays', 'C06',
     [('hylaa/lputil.py', "        for ie_mat in input_effects_list:\n", "        for ie_mat in input_effects_list[-5:]:\n")],
     'an invariant first restricts a set more than five steps after it entered a mode with inputs',
     'the invariant does not restrict the inputs of the other steps: states that violate it are kept',
     PRE + '''
from hylaa.settings import HylaaSettings
from hylaa.core import Core
ha = HybridAutomaton()
m = ha.new_mode('m'); m.set_dynamics([[0.0]]); m.set_inputs([[1.0]], [[1.0], [-1.0]], [1.0, 0.0], allow_constants=True); m.set_invariant([[1.0]], [5.5])
m.init_time_elapse(1.0)
s = HylaaSettings(1.0, 9.0); s.stdout = 0
core = Core(ha, s)
st = StateSet(lputil.from_box([(0.0, 0.0)], m), m)
st.step(6)
check(near(rng(st.lpi, [1]), [0, 6]), f'before trimming {rng(st.lpi, [1])}')
check(core.intersect_invariant(st, add_ops_to_aggdag=False), 'reported as outside the invariant')
check(near(rng(st.lpi, [1]), [0, 5.5]), f'after trimming {rng(st.lpi, [1])}')
''')
