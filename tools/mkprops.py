import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    P.append(d)
L='hylaa/lputil.py'; I='hylaa/lpinstance.py'; H='hylaa/hybrid_automaton.py'; S='hylaa/stateset.py'; C='hylaa/core.py'
p('C01','Initial sets denote exactly the described region',
 "A set built from a box, from linear inequality constraints, from a zonotope or from an input polytope mapped through a matrix contains exactly the points of that description, for every number of dimensions and every direction queried. A box with a lower bound above its upper bound, or an infeasible constraint system, is rejected instead of yielding a set.",
 ['inputs'],'all boxes, constraint systems (dense or sparse, with empty or redundant rows), zonotopes with any number of generators, input matrices/polytopes, modes with and without inputs',
 'the tests build a handful of 1-3 dimensional sets and look at a few printed rows; exactness is over all dimensions, matrices and directions',
 [L,I],[('from_box',L),('from_constraints',L),('from_zonotope',L),('from_input_constraints',L),('is_feasible',L)])
p('C02','The constraint store reads back what was written; copies are independent',
 "Constraint rows, row types, right-hand sides, column names and matrix blocks written to a set are read back unchanged (as a whole, per row, per block or per requested row list) at exactly the position written; a row-wise write replaces exactly those rows and a column-wise write exactly those columns, and a block that does not fit is refused. A copy of a set equals the original when made, and no later change to either one is visible in the other.",
 ['inputs','histories'],'every sequence of row/column additions, block writes, right-hand-side updates and copies, for all sizes, offsets and row types',
 'tests write one or two small blocks; the claim is about every offset, type and history of writes',
 [I],[('set_constraints_csr / set_constraints_csc / set_constraints_swigvec_rows',I),('get_full_constraints / get_row / get_dense_constraints / get_rhs / get_types',I),('clone / set_reach_vars / bm index cache',I)])
p('C03','Optimisation answers are feasible optima, or infeasibility is reported',
 "Minimising over a set in a direction over its current variables returns the requested coordinates of a point of the set attaining the minimum, whatever was optimised before on the same set. An empty set yields the no-solution answer (or the dedicated error when the caller asked for failure), an unbounded problem or solver failure is an error, and no answer is ever invented.",
 ['inputs','histories','fault_sequences'],'all directions (dense/sparse, shorter than the dimension), column selections, sequences of earlier queries and constraint changes, and every solver outcome including transient failures',
 'tests optimise a few fixed directions and never see solver failures, stale objective coefficients or odd column subsets',
 [I],[('set_minimize_direction',I),('minimize',I),('_process_simplex_result',I)],[('obj_cols','columns with a nonzero objective',I)])
p('C04','Time-elapse matrices are correct for every request order',
 "Asking for the time-elapse matrices of a mode at step k returns the exponential of the dynamics over k steps, together with the effect at step k of an input held constant during the first step, and no input effect at step 0. The answer depends only on k and on whether the bloated-input approximation is in force, never on which steps were requested before or in which order.",
 ['inputs','histories'],'all dynamics and input matrices, step sizes, and every finite sequence of step requests (forward, backward, repeated, with gaps), with the approximation switched on at any point',
 'tests step forward one at a time from zero with one or two systems; request order and switching are never varied',
 ['hylaa/time_elapse.py','hylaa/time_elapse_expm.py'],[('get_basis_matrix','hylaa/time_elapse.py'),('assign_basis_matrix / init_matrices / use_lgg_approx','hylaa/time_elapse_expm.py')],
 [('cur_step/cur matrices','cached last answer reused for quick steps','hylaa/time_elapse_expm.py')])
p('C05','Continuous successors are exactly the discrete-time reachable set',
 "After advancing a set to step k, the set contains exactly the states reachable from its initial states at step k under inputs that are constant per step and taken from the input set, each step independently. Advancing several steps at once equals advancing them one by one, the step-in-mode and both ends of the elapsed-step interval move by the same amount, and the initial states and all earlier constraints are untouched.",
 ['inputs','histories'],'all dynamics, input matrices and polytopes, initial sets, and all splits of k steps into jumps',
 'tests follow a few concrete systems for a few steps; input layout errors only show for particular sizes of state, inputs and constraints',
 [S,L],[('StateSet.step',S),('set_basis_matrix',L),('add_input_effects_matrix',L)],[('input_effects_list','input effect matrices so far',S)])
p('C06','Invariant trimming keeps exactly the states that satisfied the invariant',
 "Trimming a set with its mode invariant at a step removes exactly those trajectories that violate the invariant at that step and keeps every other one, including when an earlier trimming constraint is replaced because the new one implies it. A set is reported as having left the invariant exactly when nothing remains, and trajectories trimmed earlier never come back.",
 ['inputs','histories'],'all invariants, sets, step sequences, with and without inputs; repeated trimming by the same condition in any order of strength',
 'tests look at two or three trimming sequences; constraint replacement and input columns are only exercised by accident',
 [C,L,'hylaa/aggdag.py'],[('intersect_invariant',C),('add_init_constraint / try_replace_init_constraint / check_intersection',L),('replay_op_intersect_invariant','hylaa/aggdag.py')],[('invariant_constraint_rows','strongest constraint row per condition',S)])
p('C07','Guard intersection is exact and leaves the source set alone',
 "Intersecting a set with a transition guard yields exactly the states of the set that satisfy every guard condition, and reports no successor exactly when there are none. The source set is not changed by the query, and an always-enabled guard keeps everything.",
 ['inputs'],'all guards (any number of conditions, including none and redundant or empty rows), all sets',
 'tests use one-condition guards on boxes; the early-exit check, joint infeasibility and touching boundaries need particular geometry',
 [H,L],[('Transition.get_guard_intersection',H),('add_curtime_constraints',L)])
p('C08','Discrete successors are exactly the reset image',
 "After a transition the successor set is exactly {R x + M w : x in the guarded set, C w <= d} (the identity when no reset is given), for any change of dimension and whether or not the new mode has inputs. The successor starts at step zero in its mode with the elapsed steps and exactness flag of its predecessor, and the predecessor set is unchanged.",
 ['inputs'],'all reset matrices (rectangular, sparse, zero), fresh-variable terms and constraints, predecessor sets including previous transitions and inputs',
 'tests cover a few resets; column bookkeeping errors need particular combinations of dimension change, fresh variables and inputs',
 [L,'hylaa/aggdag.py',H],[('add_reset_variables',L),('AggDag.make_op_transition','hylaa/aggdag.py'),('Transition.set_reset',H)])
p('C09','Template aggregation contains every aggregated set and is tight',
 "Aggregating several sets with a box or dynamics-based template gives a set that contains every one of them and touches their joint hull in every template direction (coordinate axes always, guard directions when enabled). Its elapsed-step interval is the hull of the aggregated intervals and it is marked as not exact.",
 ['inputs'],'all lists of sets in one mode with any layouts, all templates, resets and guards',
 'tests aggregate two or three axis-aligned sets; missing members or directions only show on other shapes',
 [L,'hylaa/aggregate.py'],[('lputil.aggregate',L),('aggregate_box_arnoldi','hylaa/aggregate.py')])
p('C10','Convex-hull aggregation is the exact convex hull',
 "Aggregating any number of sets with the convex-hull method gives exactly the closed convex hull of their union, with the hull of their elapsed-step intervals. The aggregated sets themselves are not modified.",
 ['inputs'],'all non-empty lists of bounded sets with any constraint types and layouts (with inputs, resets, earlier hulls)',
 'tests hull two or three boxes; lists of other lengths, equality rows and previously hulled members are not covered',
 [L,'hylaa/aggregate.py'],[('aggregate_chull / _aggregate_chull_recursive',L),('aggregate_chull','hylaa/aggregate.py')])
p('C11','Set arithmetic is exact: Minkowski sum, bloating, scaling, centre, radius',
 "The Minkowski sum of sets is exactly the set of sums, bloating by r (a set without constraints on its current state) gives exactly the sum with the box of radius r, and scaling (a set without accumulated inputs) by a factor multiplies the set by it. The reported box centre is the centre of the bounding box and the reported radius is the largest absolute coordinate over the set.",
 ['inputs'],'all lists of sets of equal dimension with any layout, all radii and factors, all bounded sets',
 'tests try one or two boxes in the plane; column offsets and sign errors depend on layout',
 [L],[('minkowski_sum',L),('bloat',L),('scale_with_bm',L),('get_box_center',L),('compute_radius_inf',L)])
p('C12','Continuous-time approximation models over-approximate',
 "With the convex-hull or the bloating approximation model in force, the first set contains the initial set and its one-step successor, and with the bloating model it contains every state visited between two steps; the bloated input term is added at every later step. With no approximation model the set is unchanged.",
 ['inputs','configurations'],'all stable and unstable dynamics, input sets, initial sets and step sizes, all approximation settings',
 'tests check one or two systems at one step size; soundness is over all intermediate times and systems',
 [S,'hylaa/time_elapse_expm.py'],[('apply_approx_chull / apply_approx_lgg / apply_approx_model',S),('use_lgg_approx','hylaa/time_elapse_expm.py')])
p('C13','The waiting list never loses, duplicates or mixes work',
 "Without deaggregation, every initial set and every successor found is put on the waiting list once and popped once; a pop removes exactly the group that will be aggregated, taken from one mode (and from one path when that is required), includes the best-scored entry under the configured policy, and leaves all others in order. Initial sets and error-mode sets are always popped alone (then the best-scored entry of that mode may stay behind).",
 ['histories','configurations'],'all sequences of additions and pops, all pop policies, ties and waiting-list contents',
 'tests run a few fixed automata to completion; the order and grouping of most queues never occur',
 ['hylaa/aggdag.py','hylaa/aggstrat.py'],[('AggDag.pop_waiting_list / add_init_state / add_transition_successor','hylaa/aggdag.py'),('Aggregated.pop_waiting_list / pop_score','hylaa/aggstrat.py')],[('waiting_list','pending transitions','hylaa/aggdag.py')])
p('C14','Deaggregation re-examines every part of an aggregated set',
 "Splitting an aggregated set partitions its members, removes from the waiting list exactly the pending work that originates from it, and replays every recorded operation on every part, so that each part's successors are either queued or regrouped under the successor they came from. With deaggregation enabled the concrete error verdict equals the verdict of the analysis without any aggregation.",
 ['histories','programs'],'all recorded operation histories, split points, nested and recursive replays',
 'tests replay two or three fixed automata and look at the final verdict; intermediate histories are not varied',
 ['hylaa/deaggregation.py','hylaa/aggdag.py','hylaa/aggstrat.py'],[('DeaggregationManager.begin_replay / do_step_replay / update_transition_successors','hylaa/deaggregation.py'),('AggDagNode.split / replay_op','hylaa/aggdag.py'),('remove_node_decendants_from_waiting_list','hylaa/aggdag.py'),('get_deagg_node','hylaa/aggstrat.py')])
p('C15','The verdict is sound and stop flags are honoured',
 "If some discrete-time execution from the initial sets reaches an error mode within the step bound, the result reports an error; without aggregation a concrete error is reported only if such an execution exists, and aggregated errors are only reported for sets that are not exact. The analysis examines every step up to the bound in every mode, and stops at the first error exactly when the corresponding stop setting asks for it.",
 ['programs','configurations','histories'],'all automata, initial sets, step bounds and stop/aggregation/urgency settings',
 'tests run about twenty fixed models; the verdict is a claim over all models and settings',
 [C],[('do_step_continuous_post / do_step_pop / do_step_reach',C),('check_guards / error_reached / is_finished',C),('setup',C)])
p('C16','A reported counterexample is a genuine execution',
 "Every reported counterexample starts in an initial set, names in each segment the mode, the number of steps, start and end state and the inputs of each step in time order, follows the dynamics from start to end, respects invariants, takes an enabled transition of that mode and continues from its reset image, and ends in the guard of a transition to an error mode. With an approximation model no counterexample is made.",
 ['programs','inputs'],'all automata, resets with and without fresh variables, inputs and numbers of modes visited, including initial sets given as zonotopes',
 'tests inspect the counterexample of two or three models with at most two segments',
 ['hylaa/result.py',C],[('make_counterexample','hylaa/result.py'),('error_reached',C)])
p('C17','Replaying a counterexample accepts exactly the valid ones',
 "Replaying a valid counterexample without inputs or fresh reset variables succeeds and returns its states with nondecreasing times covering every step; replay fails if any segment violates its invariant, end state, guard or reset. Checking a trace against the dynamics reports the true distance between simulated and claimed end values, for any number of inputs.",
 ['inputs'],'all valid counterexamples and all single-point corruptions of them; all systems, inputs and sample counts',
 'the one replay test uses a single valid counterexample; nothing invalid and no short segments are tried',
 ['hylaa/result.py','hylaa/check_trace.py'],[('replay_counterexample','hylaa/result.py'),('check / sim / make_der_func','hylaa/check_trace.py')])
p('C18','Symbolic models are translated exactly',
 "Translating symbolic derivatives, resets and conditions to matrices preserves their meaning: at every point the matrix form evaluates to the given linear expressions and a condition row holds exactly when the written inequality does, with constants substituted and the affine variable's derivative zero and reset identity. Nonlinear expressions, unknown names, missing affine variables and malformed comparisons are refused (a linear expression in an unusual form may be refused too, but is never mistranslated).",
 ['inputs','programs'],'all linear and nonlinear expressions over any variables and constants, both comparison directions, with and without the affine variable',
 'tests translate a few expressions; repeated variables, nested sums, coefficients on either side and affine terms combine without bound',
 ['hylaa/symbolic.py'],[('extract_linear_terms','hylaa/symbolic.py'),('make_dynamics_mat / make_reset_mat / make_condition','hylaa/symbolic.py')])
p('C19','Guard strengthening never changes what is reachable',
 "Strengthening the guards of an automaton makes each affected guard equivalent to the conjunction of the original guard and the target invariant, up to conditions already present. Transitions with resets, self-loops and time-triggered transitions keep their guards, and no invariant condition is ever dropped because it merely resembles a guard condition.",
 ['inputs','programs'],'all guards and invariants of any sparsity pattern and number of conditions',
 'tests strengthen one or two guards of equal shape; the duplicate test depends on sparsity patterns that are not tried',
 [H],[('do_guard_strengthening',H),('LinearConstraint.almost_equals / negate',H)])
p('C20','Time-triggered optimisation is sound',
 "A transition is treated as time-triggered only if its invariant and one guard condition are exact opposites over clocks driven by constants only, and only that guard condition is relaxed, by the documented tolerance. A state set is dropped early only if the clock and its rate are single-valued (the rate nonzero and leading out of the invariant) and the guard condition holds for the whole set.",
 ['inputs','programs'],'all dynamics (including explicit zeros), guards, invariants and state sets',
 'tests contain a few hand-made clocks; near-miss structures are not tried',
 [H,C],[('get_tt_vars',H),('check_and_relax_time_triggered / detect_tt_transitions',H),('was_tt_taken',H),('check_guards',C)])
p('C21','Direction matrices are square and orthonormal, and span the dynamics',
 "The template directions built from a point and the dynamics are one orthonormal vector per dimension, whose leading ones span the successive images of the point under the dynamics. Re-orthogonalising a list of directions keeps their order and successive spans, fills up with new orthonormal vectors, and leaves the given matrix unchanged.",
 ['inputs'],'all points (including zero), dynamics matrices (including nilpotent and zero) and direction lists of any length and rank',
 'tests use one or two full-rank examples; degenerate ranks depend on particular inputs',
 [L],[('make_direction_matrix',L),('reorthogonalize_matrix',L)])
p('C22','Simulation follows the discrete-time semantics',
 "Each simulated trajectory starts in the given box, advances by the one-step dynamics while its invariant holds, takes the first enabled transition (not before its first step unless urgent guards are on), applies its reset exactly once, and stops at the step bound, on leaving the invariant or on reaching an error mode. No queued trajectory is lost or duplicated, whatever aggregation strategy is configured.",
 ['programs','histories','configurations'],'all input-free automata, boxes, numbers of simulations and settings',
 'one test simulates one automaton; scheduling of many trajectories over many modes is not varied',
 [C,H,'hylaa/aggstrat.py'],[('do_step_sim / sim_pop_waiting_list / simulate',C),('is_guard_true_for_point / apply_reset_for_point / point_in_invariant',H),('get_simulation_pop_mode','hylaa/aggstrat.py')])
p('C23','Malformed models are refused and well-formed ones stored faithfully',
 "Declaring dynamics, inputs, invariants, guards or resets with incompatible sizes or infeasible constraints, an input that affects a single variable and is fixed by a pair of opposite unit bounds (unless allowed), duplicate mode names, missing guards or transitions out of error modes is refused. Every well-formed declaration is accepted, stored without changing its meaning, and each transition is recorded once in its source mode.",
 ['inputs','programs'],'all combinations of matrix sizes, dense and sparse forms, and declarations',
 'tests never declare most malformed combinations',
 [H],[('set_dynamics / set_inputs / _check_inputs / set_invariant',H),('set_guard / set_reset / set_guard_true',H),('check_transitions / new_mode / new_transition',H)])
p('C24','Plotted and recorded regions are the projections of the sets',
 "The vertices computed for plotting a set lie in its projection onto the plot directions, their hull covers it up to the plotting resolution, and a time axis uses the elapsed-time interval. Stored plot data lists each plotted set once per subplot, removing one removes it everywhere, and a position query returns a set whose region encloses the point, or nothing when there is none.",
 ['inputs','histories'],'all bounded sets (including flat and single-point ones), plot directions (index, vector or time), numbers of subplots and add/remove histories',
 'tests plot a few planar boxes with one subplot',
 ['hylaa/lpplot.py','hylaa/kamenev.py','hylaa/result.py'],[('get_verts / pt_to_plot_xy / bbox_widths','hylaa/lpplot.py'),('kamenev.get_verts','hylaa/kamenev.py'),('PlotData','hylaa/result.py')])
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,sch)
print(len(P))
