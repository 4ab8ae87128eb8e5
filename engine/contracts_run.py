'''Contracts of the remaining parts of core.py and of stateset.py / time_elapse.py that they use (C12, C15, C22).'''
from contracts_dag import *
from models import Builtin

SS2, TE2 = 'stateset.StateSet.', 'time_elapse.TimeElapser.'
STATE2 = dict(SCHEMA, Mode=dict(MODE, time_elapse='opt:TimeElapser'), TimeElapser={}, StateSet=dict(STATE, invariant_constraint_rows='~slots:row'))
world_contract(SS2 + 'apply_approx_model', {'any': lambda ctx: (lambda w: {'self': Ref('StateSet', z3.Int('state')), 'args': [z3.Int('approx')], 'world': w, 'watch': {'world': w}})(world())},
    P('C12'), 'the approximation asked for is applied once, to a set without steps; whenever it rebuilt the set the recorded invariant rows are forgotten', '''
    def spec(self, model):
        if model == HylaaSettings.APPROX_CHULL:
            self.apply_approx_chull()
        if model == HylaaSettings.APPROX_LGG:
            self.apply_approx_lgg()
        if model != HylaaSettings.APPROX_NONE:
            self.invariant_constraint_rows = [None] * len(self.mode.inv_list)
    ''', {SS2 + 'apply_approx_chull': does('approx_chull'), SS2 + 'apply_approx_lgg': does('approx_lgg')}, STATE2,
    pre=lambda I, st: [Or(*[eq(st['args'][0], i) for i in range(3)]), eq(I.models.getattr(I, st['self'], 'cur_step_in_mode'), 0), Not(eq(I.models.getattr(I, I.models.getattr(I, st['self'], 'mode'), 'time_elapse').oid, -1))])

world_contract(TE2 + 'use_lgg_approx', {'any': lambda ctx: (lambda w: {'self': Obj('TimeElapser', time_elapse_obj=Ref('TimeElapseExpmMult', z3.Int('inner'))), 'args': [], 'world': w, 'watch': {'world': w}})(world())},
    P('C12'), 'the model of the object that does the work is switched', '''
    def spec(self):
        self.time_elapse_obj.use_lgg_approx()
    ''', {'time_elapse_expm.TimeElapseExpmMult.use_lgg_approx': does('use_lgg')}, dict(STATE2, TimeElapseExpmMult={}))

# ------------------------------------------------------------------ simulation
SIM = dict(STATE2, Sim={'__fields__': ['mode', 'pt', 'steps'], 'mode': '~ref:Mode', 'pt': '~ref:Pt', 'steps': '~int'}, Pt={}, basis={}, Mode=dict(MODE, time_elapse='opt:TimeElapser'))


def sims(name, opt=False):
    r = PList(arr=(z3.Int(name + '.len'), lambda i: Ref('Sim', z3.Function(name + '.at', IS, IS)(num(i)), opt)))
    r.f['elem'] = 'Sim'
    return r


def flags(name, ln):
    return PList(arr=(ln, lambda i: z3.Function(name, IS, z3.BoolSort())(num(i))))


def sim_core(**kw):
    def f(ctx):
        w = world()
        for n in ('sims.len', 'waiting.len'):
            ctx.fact(z3.Int(n) >= 0)
        s = core(sim_states=sims('sims', True), sim_waiting_list=sims('waiting'), sim_basis_matrix=Ref('basis', z3.Int('sim_basis')),
                 sim_took_transition=flags('took', z3.Int('sims.len')), sim_should_try_guards=flags('try', z3.Int('sims.len')))
        s.f.update(kw)
        return {'self': s, 'args': [], 'world': w, 'watch': {'world': w}}
    return {'any': f}


def x_basis(I, te, step):
    return (Ref('basis', answer(I, 'sim basis', 'Int', te, step)), Ref('matrix', answer(I, 'sim inputs', 'Int', te, step), True))


def a_mode(I, st):
    'the strategy names a mode that was initialised; simulations have no inputs'
    m = z3.Int('pop mode')
    return []


world_contract(CO + 'sim_pop_waiting_list', sim_core(), P('C22'), 'the waiting points in the chosen mode, and no others, are taken off the list, in order; they advance with the one-step matrix of that mode', '''
    def spec(self):
        mode = self.settings.aggstrat.get_simulation_pop_mode(self.sim_waiting_list)
        here, other = [], []
        for sim in self.sim_waiting_list:
            m, _, _ = sim
            if m is mode:
                here.append(sim)
            else:
                other.append(sim)
        self.sim_states = here
        self.sim_waiting_list = other
        if mode is None:
            raise AssertionError('no mode')
        if mode.time_elapse is None:
            raise AssertionError('not initialised')
        self.sim_basis_matrix, inputs = mode.time_elapse.get_basis_matrix(1)
        if inputs is not None:
            raise AssertionError('inputs')
    ''', dict(PRINTS, **{AS + 'get_simulation_pop_mode': looks('pop_mode', 'opt:Mode'), TE2 + 'get_basis_matrix': x_basis}), SIM)

TR = 'hybrid_automaton.Transition.'


def x_reset_point(I, t, pt):
    return (Ref('Pt', answer(I, 'reset point', 'Int', t, pt)), I.models.getattr(I, t, 'to_mode'))


world_contract(CO + 'do_step_sim', sim_core(), P('C22'), """each point: ends at the step bound, after its transition, or outside the invariant; takes the first transition whose guard it meets (from its second step on, or with
    urgent guards), continuing from the reset point unless in an error mode; otherwise advances one step""", '''
    def spec(self):
        s = self.settings
        if not self.sim_states:
            if self.sim_waiting_list:
                self.sim_pop_waiting_list()
                n = len(self.sim_states)
                self.sim_should_try_guards = [s.process_urgent_guards] * n
                self.sim_took_transition = [False] * n
                self.plotman.pause()
        else:
            finished = True
            for i, sim in enumerate(self.sim_states):
                if sim is None:
                    continue
                mode, pt, steps = sim
                if steps == s.num_steps or self.sim_took_transition[i]:
                    self.sim_states[i] = None
                    continue
                if self.sim_should_try_guards[i]:
                    for t in mode.transitions:
                        if t.is_guard_true_for_point(pt):
                            new_pt, new_mode = t.apply_reset_for_point(pt)
                            if not new_mode.is_error():
                                self.sim_waiting_list.append([new_mode, new_pt, steps])
                            self.sim_took_transition[i] = True
                            sim[1] = new_pt
                            break
                if self.sim_took_transition[i]:
                    finished = False
                elif not mode.point_in_invariant(pt):
                    self.sim_states[i] = None
                else:
                    self.sim_should_try_guards[i] = True
                    finished = False
                    sim[1] = np.dot(self.sim_basis_matrix, pt)
                    sim[2] = steps + 1
            if finished:
                self.plotman.commit_cur_sims()
                self.sim_states = None
    ''', dict(READS, **PRINTS, **PLOT, **{CO + 'sim_pop_waiting_list': touches('sim_pop', ['sim_states', 'sim_waiting_list', 'sim_basis_matrix']), 'plotutil.PlotManager.commit_cur_sims': does('commit sims'),
        TR + 'is_guard_true_for_point': looks('guard of point', 'bool'), TR + 'apply_reset_for_point': x_reset_point, 'hybrid_automaton.Mode.point_in_invariant': looks('point_in_invariant', 'bool')}), SIM,
    hooks={'numpy.dot': lambda I, a, kw: Ref('Pt', z3.Function('advance', IS, IS, IS)(num(a[0].oid), num(a[1].oid)))})

# ------------------------------------------------------------------ setup and the main entry points
HA2, RP = 'hybrid_automaton.HybridAutomaton.', 'result.'
RUN = dict(SIM, HybridAutomaton={'modes': 'values:Mode'}, PlotManager={'num_subplots': 'int'}, HylaaResult={'has_aggregated_error': '~bool', 'has_concrete_error': '~bool', 'plot_data': '~opt:PlotData', 'top_level_timer': '~timer'},
    PlotData={}, Timer={'total_secs': 'real'}, StateSet=dict(STATE2['StateSet'], mode='ref:Mode'))


class Values(Struct):
    'a dictionary of which only the values are used'
    def __init__(self, l):
        self.l = l

    def get(self, n):
        if n == 'values':
            return Builtin(n, lambda I, a, k: self.l)
        raise Unsupported('dictionary method ' + n)

    def same(self, o):
        return type(o) is type(self) and o.l.f['v'][0] == 'arr' and eq(self.l.f['v'][1], o.l.f['v'][1]) is True

world_contract(CO + 'setup_ha', core_scen(lambda: [Obj('HybridAutomaton', modes=Values(reflist('Mode', 'modes')), _token=z3.Int('ha'))]), P('C15', 'C20', 'C19', 'C22'),
    'every mode gets its time elapse object with the configured step; time-triggered transitions are detected and guards strengthened exactly when configured; transitions are checked last', '''
    def spec(self, ha):
        s = self.settings
        for mode in ha.modes.values():
            mode.init_time_elapse(s.step_size)
        if s.optimize_tt_transitions:
            ha.detect_tt_transitions(s.step_size, s.num_steps, self.print_debug)
        if s.do_guard_strengthening:
            ha.do_guard_strengthening()
        ha.check_transitions()
    ''', dict(PRINTS, **{'hybrid_automaton.Mode.init_time_elapse': does('init_time_elapse'), HA2 + 'detect_tt_transitions': lambda I, self, step, n, p=None: event(I, 'detect_tt', self, step, n),
        HA2 + 'do_guard_strengthening': does('strengthen'), HA2 + 'check_transitions': does('check_transitions')}), RUN)


def initial(ctx):
    l = reflist('StateSet', 'init')
    return [l]


world_contract(CO + 'setup', core_scen(lambda: [reflist('StateSet', 'init')]), P('C15', 'C01', 'C06'),
    """the automaton is set up once; then every non-empty initial set, in order, is restricted to its invariant (nothing recorded) and queued if it stays non-empty; an analysis
    without initial sets is refused""", '''
    def spec(self, init_state_list):
        assert init_state_list
        self.result = HylaaResult()
        self.setup_ha(init_state_list[0].mode.ha)
        self.plotman.create_plot()
        if self.aggdag.waiting_list:
            raise AssertionError('waiting list was not empty')
        for state in init_state_list:
            if state.lpi.is_feasible():
                if self.intersect_invariant(state, add_ops_to_aggdag=False):
                    state.invariant_constraint_rows = [None] * len(state.mode.inv_list)
                    self.aggdag.add_init_state(state)
        if not self.aggdag.waiting_list:
            raise RuntimeError('no initial states')
    ''', dict(READS, **PRINTS, **PLOT, **{'result.HylaaResult': does('new result', 'ref:HylaaResult'), CO + 'setup_ha': does('setup_ha'), CO + 'intersect_invariant': does('intersect_invariant', 'bool'),
        AD + 'add_init_state': does('add_init_state'), 'lpinstance.LpInstance.is_feasible': does('is_feasible', 'bool')}), dict(RUN, HybridAutomaton={}),
    pre=lambda I, st: [le(1, z3.Int('init.len'))])


def plot_settings():
    s = settings()
    s.f['plot'] = Obj('PlotSettings', plot_mode=z3.Int('plot_mode'), store_plot_result=z3.Bool('store_plot'))
    return s


def run_core(args):
    def f(ctx):
        w = world()
        s = core(settings=plot_settings(), result=Ref('HylaaResult', z3.Int('result')))
        return {'self': s, 'args': args(ctx), 'world': w, 'watch': {'world': w}}
    return {'any': f}


world_contract(CO + 'run_to_completion', run_core(lambda ctx: []), P('C15', 'C24'), 'the steps are run to the end; plot data are collected exactly when asked for, and not thrown away', '''
    def spec(self):
        store = self.settings.plot.store_plot_result
        if store:
            if self.result.plot_data is None:
                self.result.plot_data = PlotData(self.plotman.num_subplots)
        self.plotman.run_to_completion(compute_plot=store)
    ''', {'result.PlotData': does('new plot data', 'ref:PlotData'), 'plotutil.PlotManager.run_to_completion': does('plot run_to_completion')}, RUN)

world_contract(CO + 'run', run_core(lambda ctx: [reflist('StateSet', 'init')]), P('C15', 'C24'), 'setup, then one run of the analysis in the plot mode asked for; the answer is the result object of this run, as the steps left it', '''
    def spec(self, init_state_list):
        self.setup(init_state_list)
        p = self.settings.plot
        if p.plot_mode == PlotSettings.PLOT_INTERACTIVE:
            p.store_plot_result = True
        if p.store_plot_result:
            self.result.plot_data = PlotData(self.plotman.num_subplots)
        if p.plot_mode == PlotSettings.PLOT_NONE:
            self.run_to_completion()
        else:
            self.plotman.compute_and_animate()
        self.result.top_level_timer = Timers.top_level_timer
        return self.result
    ''', dict(PRINTS, **{'result.PlotData': does('new plot data', 'ref:PlotData'), CO + 'setup': touches('setup', ['result']), CO + 'run_to_completion': does('run_to_completion'),
        'plotutil.PlotManager.compute_and_animate': does('compute_and_animate'), 'timerutil.Timers.print_stats': silent}), RUN)


def x_rand(I, a, kw):
    'numpy.random.rand: numbers in [0, 1), new ones on each call'
    h = answer(I, 'rand', 'Int', *a)
    event(I, 'rand', *a)
    at = z3.Function('rand.at', IS, IS, z3.RealSort())
    return PList(arr=(a[0], lambda i: at(h, num(i))))


def sim_scen(pair):
    def f(ctx):
        w = world()
        s = core(settings=plot_settings(), result=Ref('HylaaResult', z3.Int('result')), sim_states=sims('sims', True), sim_waiting_list=sims('waiting'))
        n = [z3.Int('first'), z3.Int('count')]
        return {'self': s, 'args': [Ref('Mode', z3.Int('init_mode')), reflist('Interval', 'box'), PList(items=[('one', n[0]), ('one', n[1])]) if pair else n[1]], 'world': w, 'watch': {'world': w}}
    return f


world_contract(CO + 'simulate', {'count': sim_scen(False)}, P('C22'), """one point per simulation asked for, each coordinate drawn between the bounds of the box in that dimension, starting in the given mode at step 0;
    the random numbers of skipped simulations are drawn as well""", '''
    def spec(self, init_mode, box, num_sims):
        first, last = 0, num_sims
        if not isinstance(num_sims, int):
            first, last = num_sims[0], num_sims[1]
        self.result = HylaaResult()
        self.setup_ha(init_mode.ha)
        self.plotman.create_plot()
        if self.settings.plot.plot_mode == PlotSettings.PLOT_NONE:
            raise AssertionError('nothing to plot')
        if len(box) != init_mode.a_csr.shape[0]:
            raise AssertionError('size of the box')
        self.doing_simulation = True
        self.sim_waiting_list = []
        for i in range(last):
            r = np.random.rand(len(box))
            if i >= first:
                self.sim_waiting_list.append([init_mode, [box[j][0] + r[j] * (box[j][1] - box[j][0]) for j in range(len(box))], 0])
        self.plotman.compute_and_animate()
        return self.result
    ''', dict(PRINTS, **PLOT, **{'result.HylaaResult': does('new result', 'ref:HylaaResult'), CO + 'setup_ha': does('setup_ha'), 'plotutil.PlotManager.compute_and_animate': does('compute_and_animate')}),
    dict(RUN, HybridAutomaton={}, Interval={'__fields__': ['lo', 'hi'], 'lo': 'real', 'hi': 'real'}, Mode=dict(RUN['Mode'], a_csr='ref:matrix'), matrix={'shape': 'ref:Shape'}, Shape={'__fields__': ['rows', 'cols'], 'rows': 'int', 'cols': 'int'}),
    hooks={'numpy.random.rand': x_rand, 'numpy.array': lambda I, a, kw: a[0]}, pre=lambda I, st: [le(0, z3.Int('count')), le(0, z3.Int('first'))])
