'''Contracts of core.py: what the reachability loop does with each state set, over the world of its callees (C15, C13, C20).

Objects of other classes are known by identity; their attributes are functions of the identity (and of the world where they can
change), each call of a callee is an event that may change the world, and what it returns is any value.  A contract written this way
says which operations happen, in which order, on which objects, under which conditions, for every number of transitions, invariant
conditions and waiting sets, and every answer of the callees.
'''
from contracts import *
import ast as _ast, textwrap as _tw
from interp import FuncRef


def program(qual, src):
    'a specification given as a program over the callee contracts'
    node = _ast.parse(_tw.dedent(src)).body[0]

    def spec(I, *args):
        fr = FuncRef(I.prog.find(qual).mod, node)
        fr.qual = qual + ' (specification)'
        return I.call_func(fr, list(args), {})
    spec.node = node
    return spec


def world_contract(qual, scenarios, props, doc, src, env, schema, **kw):
    c = Contract(qual, program(qual, src) if isinstance(src, str) else src, scenarios, props, doc)
    c.env, c.schema = env, schema
    for k, v in kw.items():
        setattr(c, k, v)
    ALL[qual] = c
    return c


def world():
    return Obj('World', w=z3.Int('w0'), n=z3.Int('allocated'))


# ------------------------------------------------------------------ callees as events
def does(name, ret=None):
    'an operation: changes the world, returns a value'
    def f(I, *args):
        r = looks(name, ret)(I, *args) if ret is not None else None
        event(I, name, *args)
        return r
    return f


def looks(name, ret):
    'an observation: returns a value, changes nothing'
    def f(I, *args):
        k, _, c = ret.partition(':')
        if k == 'list':
            m = answer(I, name + '.len', 'Int', *args)
            I.ctx.fact(m >= 0)
            h = answer(I, name, 'Int', *args)
            at = z3.Function(f'ANS_{name}.at', IS, IS, IS)
            l = PList(arr=(m, lambda i: Ref(c, at(h, num(i)))))
            l.frozen = True
            return l
        r = answer(I, name, {'bool': 'Bool', 'real': 'Real'}.get(k, 'Int'), *args)
        if k == 'pair':
            return (r, Ref(c, answer(I, name + '.2', 'Int', *args)))
        return Ref(c, r, k == 'opt') if k in ('ref', 'opt') else r
    return f


def silent(I, *args):
    return None


MODE = {'transitions': 'list:Transition', 'a_csr': 'opt:matrix', 'b_csr': 'opt:matrix', 'name': 'str', 'inv_list': 'list:LinearConstraint', 'mode_id': 'int', 'ha': 'ref:HybridAutomaton'}
TRANS = {'to_mode': 'ref:Mode', 'from_mode': 'ref:Mode', 'time_triggered': 'bool', 'transition_index': 'int', 'reset_csr': 'opt:matrix', 'reset_minkowski_csr': 'opt:matrix',
         'reset_minkowski_constraints_csr': 'opt:matrix', 'reset_minkowski_constraints_rhs': 'opt:vector', 'guard_csr': 'opt:matrix', 'guard_rhs': 'opt:vector'}
STATE = {'mode': 'ref:Mode', 'lpi': '~ref:LpInstance', 'is_concrete': '~bool', 'cur_steps_since_start': '~pair', 'cur_step_in_mode': '~int', 'basis_matrix': '~opt:matrix',
         'input_effects_list': '~opt:list'}
OPT = {'poststate': '~ref:StateSet', 'parent_node': 'opt:AggDagNode', 'transition': 'opt:Transition', 'child_node': '~opt:AggDagNode', 'step': 'int'}
SCHEMA = {'Mode': MODE, 'Transition': TRANS, 'StateSet': STATE, 'OpTransition': OPT, 'LpInstance': {}, 'matrix': {'nnz': 'nat'}, 'vector': {}, 'LinearConstraint': {'rhs': 'real', 'csr': 'ref:matrix'},
          'AggDag': {'waiting_list': '~list:OpTransition', 'deagg_man': 'ref:DeaggregationManager', 'cur_node': '~opt:AggDagNode'}, 'DeaggregationManager': {}, 'AggDagNode': {},
          'PlotManager': {'num_subplots': 'int'}, 'Counterexample': {}, 'AggregationStrategy': {}, 'HybridAutomaton': {}, 'PlotData': {}}
CO, AD = 'core.Core.', 'aggdag.AggDag.'
PRINTS = {CO + 'print_normal': silent, CO + 'print_verbose': silent, CO + 'print_debug': silent}


def x_is_error(I, mode):
    'proved in contracts_ha.py: a mode without dynamics'
    return I.models.compare(I, 'Is', I.models.getattr(I, mode, 'a_csr'), None)


def x_cur_state(I, aggdag):
    return looks('get_cur_state', 'opt:StateSet')(I, aggdag)


READS = {AD + 'get_cur_state': x_cur_state, 'hybrid_automaton.Mode.is_error': x_is_error, 'deaggregation.DeaggregationManager.doing_replay': looks('doing_replay', 'bool')}


def settings():
    b = z3.Bool
    return Obj('HylaaSettings', stop_on_aggregated_error=b('stop_agg'), stop_on_concrete_error=b('stop_conc'), optimize_tt_transitions=b('opt_tt'), step_size=z3.Real('step_size'), num_steps=z3.Int('num_steps'),
               make_counterexample=b('make_cex'), approx_model=z3.Int('approx'), skip_zero_dynamics_modes=b('skip_zero'), process_urgent_guards=b('urgent'), do_guard_strengthening=b('strengthen'),
               aggstrat=Ref('AggregationStrategy', z3.Int('aggstrat')), stdout=z3.Int('stdout'))


def core(**kw):
    b = z3.Bool
    r = Obj('HylaaResult', has_aggregated_error=b('agg_err'), has_concrete_error=b('conc_err'), counterexample=Ref('Counterexample', z3.Int('cex'), True), last_cur_state=Ref('StateSet', z3.Int('last'), True))
    o = Obj('Core', settings=settings(), result=r, aggdag=Ref('AggDag', z3.Int('aggdag')), plotman=Ref('PlotManager', z3.Int('plotman')), doing_simulation=b('simulating'),
            took_tt_transition=b('took_tt'), continuous_steps=z3.Int('continuous_steps'), max_steps_remaining=z3.Int('max_rem'), hybrid_automaton=Ref('HybridAutomaton', z3.Int('ha')),
            sim_states=Ref('simlist', z3.Int('sims'), True), sim_waiting_list=Ref('simlist', z3.Int('simwl'), True))
    o.f.update(kw)
    return o


def core_scen(args=lambda: [], **kw):
    def f(ctx):
        w = world()
        s = core(**kw)
        return {'self': s, 'args': args(), 'world': w, 'watch': {'world': w}}
    return {'any': f}


def P(*ps):
    return list(ps)


def has_state(I, st):
    'a state set is being propagated'
    return [boolz(truth(I.ctx, x_cur_state(I, st['self'].f['aggdag'])))]


world_contract(CO + 'is_finished', core_scen(), P('C15', 'C14'),
    'finished exactly when an error asks for it under the stop settings, or nothing is being propagated, waiting or replayed', '''
    def spec(self):
        s, r = self.settings, self.result
        if self.doing_simulation:
            return not self.sim_states and not self.sim_waiting_list
        if s.stop_on_aggregated_error and (r.has_aggregated_error or r.has_concrete_error):
            return True
        if s.stop_on_concrete_error and r.has_concrete_error:
            return True
        idle = self.aggdag.get_cur_state() is None
        return idle and len(self.aggdag.waiting_list) == 0 and not self.aggdag.deagg_man.doing_replay()
    ''', READS, SCHEMA)

world_contract(CO + 'check_guards', core_scen(), P('C15', 'C20', 'C07', 'C13'),
    'every transition whose guard the set meets, in order, is queued exactly once (errors are reported first and end the search only where a stop setting says so); a set is marked as finished only by a time-triggered transition', '''
    def spec(self):
        s = self.settings
        state = self.aggdag.get_cur_state()
        for t in state.mode.transitions:
            part = t.get_guard_intersection(state.lpi)
            if part is None:
                continue
            if t.to_mode.is_error():
                self.error_reached(state, t, part)
                if s.stop_on_aggregated_error or state.is_concrete and s.stop_on_concrete_error:
                    break
            self.aggdag.add_transition_successor(t, part)
            if s.optimize_tt_transitions and t.time_triggered and was_tt_taken(state.lpi, t, s.step_size, s.num_steps):
                self.took_tt_transition = True
    ''', dict(READS, **PRINTS, **{'hybrid_automaton.Transition.get_guard_intersection': does('guard_intersection', 'opt:LpInstance'), CO + 'error_reached': does('error_reached'),
        AD + 'add_transition_successor': does('add_successor'), 'hybrid_automaton.was_tt_taken': does('was_tt_taken', 'bool')}), SCHEMA, pre=has_state)


def token_of_self(I, o):
    return o


def touches(name, fields, ret=None):
    'an operation of the same object: changes the world, may change the listed fields of self (a.b: of its field a)'
    def f(I, self, *args):
        r = does(name, ret)(I, self, *args)
        for p in fields:
            o, ps = self, p.split('.')
            for q in ps[:-1]:
                o = o.f[q]
            old = o.f[ps[-1]]
            if isbool(old):
                v = looks(f'{name}->{p}', 'bool')(I)
            elif isinstance(old, PList):
                v = looks(f'{name}->{p}', 'list:' + old.f['elem'])(I)
                v.frozen = False
                v.f['elem'] = old.f['elem']
            elif isinstance(old, Ref):
                v = looks(f'{name}->{p}', ('opt:' if old.opt else 'ref:') + old.cls)(I)
            else:
                v = looks(f'{name}->{p}', 'int')(I)
            I.ctx.put(o, ps[-1], v)
        return r
    return f


RESULT_FIELDS = ['result.has_aggregated_error', 'result.has_concrete_error', 'result.counterexample']
SCHEMA = dict(SCHEMA, **{
    'StateSet': dict(STATE, invariant_constraint_rows='~slots:row'),
    'matrix': {'nnz': 'nat', '()toarray': lambda I, o: Ref('dense', z3.Function('toarray', IS, IS)(num(o.oid)))},
    'dense': {'[]': lambda I, o, i: Ref('vector', z3.Function('dense.row', IS, IS, IS)(num(o.oid), num(i)))}, 'row': {}, 'vector': {}})


def x_negate(I, lc):
    'proved in contracts_ha.py'
    return Ref('LinearConstraint', z3.Function('negate', IS, IS)(num(lc.oid)))


def with_state(inner=lambda I, st: []):
    return inner


world_contract(CO + 'error_reached', core_scen(lambda: [Ref('StateSet', z3.Int('state')), Ref('Transition', z3.Int('t')), Ref('LpInstance', z3.Int('part'))]), P('C15', 'C16'),
    'an exact set reports a concrete error, any other set an aggregated error; one counterexample, made from an exact set, and none with an approximation model', '''
    def spec(self, state, t, part):
        r, s = self.result, self.settings
        if not state.is_concrete:
            r.has_aggregated_error = True
        elif not r.has_concrete_error:
            r.has_concrete_error = True
            if s.make_counterexample and not r.counterexample and s.approx_model == HylaaSettings.APPROX_NONE:
                r.counterexample = make_counterexample(self.hybrid_automaton, state, t, part)
    ''', dict(READS, **PRINTS, **{'result.make_counterexample': does('make_counterexample', 'ref:Counterexample')}), SCHEMA)

world_contract(CO + 'intersect_invariant', {k: f for d in (True, False) for k, f in {'default' if d else 'given':
        core_scen(lambda d=d: [Ref('StateSet', z3.Int('state'))] + ([] if d else [z3.Bool('add_ops')]))['any']}.items()}, P('C06', 'C15', 'C14'),
    'every invariant condition that the set reaches beyond is added once or strengthened in its own row, recorded for replay exactly when asked, and the answer is whether the set stays non-empty', '''
    def spec(self, state, add_ops_to_aggdag=True):
        rows = state.invariant_constraint_rows
        i = 0
        for lc in state.mode.inv_list:
            if lputil.check_intersection(state.lpi, lc.negate()):
                stronger = False
                if rows[i] is None:
                    rows[i] = lputil.add_init_constraint(state.lpi, lc.csr.toarray()[0], lc.rhs, state.basis_matrix, state.input_effects_list)
                else:
                    new, stronger = lputil.try_replace_init_constraint(state.lpi, rows[i], lc.csr.toarray()[0], lc.rhs, state.basis_matrix, state.input_effects_list)
                    rows[i] = new
                if add_ops_to_aggdag:
                    self.aggdag.add_invariant_op(state.cur_step_in_mode, i, stronger)
                if not state.lpi.is_feasible():
                    return False
            i += 1
        return True
    ''', dict(READS, **PRINTS, **{'lputil.check_intersection': does('check_intersection', 'bool'), 'hybrid_automaton.LinearConstraint.negate': x_negate,
        'lputil.add_init_constraint': does('add_init_constraint', 'ref:row'), 'lputil.try_replace_init_constraint': lambda I, *a: x_try_replace(I, *a),
        AD + 'add_invariant_op': does('add_invariant_op'), 'lpinstance.LpInstance.is_feasible': does('is_feasible', 'bool')}), SCHEMA)


def x_try_replace(I, *a):
    r, s = answer(I, 'try_replace.row', 'Int', *a), answer(I, 'try_replace.stronger', 'Bool', *a)
    event(I, 'try_replace', *a)
    return (Ref('row', r), s)


CUR_STEP = {AD + 'cur_state_left_invariant': does('left_invariant'), 'stateset.StateSet.step': does('step')}


def running(I, st):
    'a state set is being propagated, in a mode with dynamics'
    s = x_cur_state(I, st['self'].f['aggdag'])
    m = I.models.getattr(I, I.models.getattr(I, Ref('StateSet', s.oid), 'mode'), 'a_csr')
    return [Not(eq(s.oid, -1)), Not(eq(m.oid, -1))]


world_contract(CO + 'do_step_continuous_post', core_scen(), P('C15', 'C05', 'C20', 'C13'),
    'unless the analysis is finished: a set at the step bound or taken over by a time-triggered transition ends (the mark never outlives it); otherwise the invariant is applied, then exactly one step is made and its guards are checked, and only a set outside the invariant or a zero-dynamics mode (when configured) ends', '''
    def spec(self):
        s = self.settings
        state = self.aggdag.get_cur_state()
        if not self.is_finished():
            if state.cur_steps_since_start[0] >= s.num_steps:
                self.took_tt_transition = False
                self.aggdag.cur_state_left_invariant(True)
            elif self.took_tt_transition:
                self.took_tt_transition = False
                self.aggdag.cur_state_left_invariant()
            elif not self.intersect_invariant(state):
                self.aggdag.cur_state_left_invariant()
            else:
                state.step()
                self.check_guards()
                if s.skip_zero_dynamics_modes and state.mode.b_csr is None and state.mode.a_csr.nnz == 0:
                    self.aggdag.cur_state_left_invariant()
    ''', dict(READS, **PRINTS, **CUR_STEP, **{CO + 'print_current_step_time': silent, CO + 'is_finished': looks('is_finished', 'bool'),
        CO + 'intersect_invariant': does('intersect_invariant', 'bool'), CO + 'check_guards': touches('check_guards', RESULT_FIELDS + ['took_tt_transition'])}), SCHEMA, pre=running)

PLOT = {'plotutil.PlotManager.' + n: does('plot ' + n) for n in ('state_popped', 'pause', 'create_plot')}

world_contract(CO + 'do_step_pop', core_scen(), P('C15', 'C12', 'C13'),
    'the popped set ends at once in an error mode; otherwise its invariant is applied first, an empty set ends, and the approximation model is applied to what remains', '''
    def spec(self):
        self.plotman.state_popped()
        state = self.aggdag.pop_waiting_list()
        self.result.last_cur_state = state
        if state.mode.is_error():
            self.aggdag.cur_state_left_invariant()
        else:
            self.max_steps_remaining = self.settings.num_steps - state.cur_steps_since_start[0]
            if self.intersect_invariant(state):
                state.apply_approx_model(self.settings.approx_model)
            else:
                self.aggdag.cur_state_left_invariant()
        self.plotman.pause()
    ''', dict(READS, **PRINTS, **CUR_STEP, **PLOT, **{AD + 'print_waiting_list': silent, AD + 'pop_waiting_list': does('pop', 'ref:StateSet'),
        CO + 'intersect_invariant': does('intersect_invariant', 'bool'), 'stateset.StateSet.apply_approx_model': does('apply_approx_model')}), SCHEMA)

world_contract(CO + 'do_step_reach', core_scen(), P('C15', 'C13', 'C14'),
    'one step: nothing when finished; else propagate the current set, or continue a replay, or start one, or pop the next set (checking its urgent guards when configured)', '''
    def spec(self):
        if not self.is_finished():
            if self.aggdag.get_cur_state():
                self.do_step_continuous_post()
                self.continuous_steps = self.continuous_steps + 1
            elif self.aggdag.deagg_man.doing_replay():
                self.aggdag.deagg_man.do_step_replay()
            else:
                node = self.settings.aggstrat.get_deagg_node(self.aggdag)
                if node is not None:
                    self.aggdag.deagg_man.begin_replay(node)
                    self.aggdag.deagg_man.do_step_replay()
                else:
                    self.do_step_pop()
                    if self.settings.process_urgent_guards:
                        if self.aggdag.get_cur_state() is not None:
                            self.check_guards()
    ''', dict(READS, **PRINTS, **{CO + 'is_finished': looks('is_finished', 'bool'), CO + 'do_step_continuous_post': touches('continuous_post', RESULT_FIELDS + ['took_tt_transition']),
        CO + 'do_step_pop': touches('do_step_pop', ['max_steps_remaining', 'result.last_cur_state']), CO + 'check_guards': touches('check_guards', RESULT_FIELDS + ['took_tt_transition']),
        'deaggregation.DeaggregationManager.do_step_replay': does('do_step_replay'), 'deaggregation.DeaggregationManager.begin_replay': does('begin_replay'),
        'aggstrat.AggregationStrategy.get_deagg_node': does('get_deagg_node', 'opt:AggDagNode')}), SCHEMA)

world_contract(CO + 'do_step', core_scen(), P('C15', 'C22'), 'a simulation step while simulating, an analysis step otherwise', '''
    def spec(self):
        if self.doing_simulation:
            self.do_step_sim()
        else:
            self.do_step_reach()
    ''', {CO + 'do_step_sim': touches('do_step_sim', ['sim_states', 'sim_waiting_list']), CO + 'do_step_reach': touches('do_step_reach', RESULT_FIELDS + ['took_tt_transition', 'continuous_steps', 'max_steps_remaining'])}, SCHEMA)
