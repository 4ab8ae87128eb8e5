'writes tools/levels.json: per property the level claimed, the deciding method and what it assumes'
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = 'contract-based deductive verification of the real Python source (own VC generator over the AST, z3/cvc5)'
B = ' with a labelled bounded run-time check of the same contracts'
TRUST = ' Trusted: the VC generator, the solvers, contracts of numpy/scipy/GLPK; floats are reals.'
D = {
 'C01': ('exploration', 'All set constructors and the store functions they call are under contract, for every dimension and every number of rows (all obligations discharged). That a point lies in the set iff it satisfies the rows is read off on paper; the bounded part compares support functions with exact polytopes.'),
 'C02': ('proof', 'All readers, writers, the constructor and the copy are under contract with frame and no-sharing conditions, all sizes; get_full_constraints included. Trusted: the GLPK arrays behave as documented. Printing (not part of the statement) is bounded.'),
 'C03': ('exploration', 'The objective, the use of the solver status, the retry and the returned columns are under contract. That GLPK finds optima is trusted; the bounded part compares it with HiGHS.'),
 'C04': ('proof', 'Every function of time_elapse.py and time_elapse_expm.py is under contract, for every dimension, step and request order; the semigroup law is the contract of expm/expm_multiply.'),
 'C05': ('exploration', 'One and several steps, input columns, effects and elapsed interval are under contract for all sizes; the induction over steps is on paper and checked on instances by the bounded part.'),
 'C06': ('exploration', 'Trimming, replacement of a row and the reported leaving are under contract; the meaning of the rows as trajectories is on paper and checked on instances. Known finding KF1 (inputs).'),
 'C07': ('exploration', 'The guard rows, the copy, the frame and the emptiness test are under contract; feasibility is GLPK\'s (trusted).'),
 'C08': ('exploration', 'Reset rows, new variables, step zero, interval and exactness are under contract for all sizes; that the rows denote the image is on paper and checked on instances.'),
 'C09': ('exploration', 'Template choice, bounds over all sets, interval and exactness are under contract, any number of sets; the containment is on paper and checked on instances.'),
 'C10': ('exploration', 'The lifted hull of two sets row by row, the recursion and the graph side are under contract; that the lifted rows denote the hull is on paper and checked on instances.'),
 'C11': ('exploration', 'bloat, scale, centre, radius and membership are under contract for all sizes, minkowski_sum for lists of one to three sets (bound stated); the meaning of the rows is on paper and checked on instances.'),
 'C12': ('exploration', 'Which operations make the first set and the later input terms is under contract; that the cited model over-approximates is mathematics, compared with sampled exact sets.'),
 'C13': ('exploration', 'Every operation on the waiting list and every pop policy is under contract for any graph; the statement over whole runs is the composition on paper, checked on instances.'),
 'C14': ('exploration', 'Splitting, removal of pending work, replay and regrouping are under contract for any graph; the equality of verdicts is checked on instances only.'),
 'C15': ('exploration', 'The main loop, error handling and stop flags are under contract for any queue and any number of steps; soundness against executions is the composition with C05-C08, compared with an exact exploration on instances.'),
 'C16': ('exploration', 'Error reporting and when a counterexample is made are under contract; make_counterexample itself is bounded. Known finding KF1 (inputs).'),
 'C17': ('exploration', 'Replay (every segment, row and reset, refusal, times), derivative functions and sim are under contract; check_trace.check is bounded. odeint is trusted.'),
 'C18': ('proof', 'All five functions of symbolic.py are under contract, for any expression tree, any number of variables, constants, texts and conditions, both signs: coefficients, constants, order, refusals. Trusted: sympy parses a text and substitutes values as documented.'),
 'C19': ('proof', 'almost_equals and do_guard_strengthening are under contract for any automaton: which transitions, which conditions, appended exactly.'),
 'C20': ('proof', 'Detection, relaxation and the run-time check are under contract for every dimension, row by row; that minima and maxima over a set are right is C03.'),
 'C21': ('proof', 'Both functions in full, for every dimension, with inferred loop invariants over abstract inner-product spaces (Gram matrices).'),
 'C22': ('exploration', 'Branches of the simulation, queue and single steps are under contract; whole trajectories are compared with an independent simulation on instances.'),
 'C23': ('proof', 'Every declaring function of hybrid_automaton.py is under contract: refused exactly under the stated conditions, stored entry by entry otherwise, all sizes.'),
 'C24': ('exploration', 'Coordinates, widths, the directions and columns used for vertices, remembered vertices, and the record of drawn sets are under contract; the polygon searches (kamenev, boundary search) are bounded.'),
}
json.dump({k: {'level': l, 'technique': T + B, 'note': n + TRUST + ('' if l == 'proof' else ' Parts named as bounded or as checked on instances are not proved.')} for k, (l, n) in D.items()}, open(os.path.join(HERE, 'levels.json'), 'w'), indent=1)
