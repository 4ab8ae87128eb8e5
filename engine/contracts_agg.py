'''Contracts of aggregate.py (C09, C10), of the checking simulation (C17) and of the remaining functions of result.py and stateset.py.'''
from contracts_plot import *
import contracts_dag as _d

AG = 'aggregate.'


# ------------------------------------------------------------------ one set for several
def states_ops(*more):
    def f(ctx):
        w = world()
        return {'args': [reflist('StateSet', 'states'), reflist('OpTransition', 'ops')] + [m() for m in more], 'world': w, 'watch': {'world': w}}
    return f


def x_stateset(I, lpi, mode, interval, op_list, is_concrete=True):
    'a set of its own, known by what it is made of'
    I.ctx.oblige(f'{I.where()}: the time interval has two ends', eq(I.models.length(I, interval), 2))
    return does('new StateSet', 'ref:StateSet')(I, lpi, mode, *[seqview(I, interval)[1](i) for i in (0, 1)], op_list, is_concrete)


PRINT = lambda: Builtin('print_func', lambda I, a, k: None)
AGST = dict(AGG, StateSet=dict(_d.SCH['StateSet'], mode='ref:Mode', lpi='ref:LpInstance'), OpTransition=dict(_d.SCH['OpTransition'], **{}), Mode=dict(MODE, a_csr='ref:matrix'), Printer={'()': lambda I, o, *a: None})
some_states = lambda I, st: [le(1, I.models.length(I, st['args'][0])), eq(I.models.length(I, st['args'][0]), I.models.length(I, st['args'][1]))]

world_contract(AG + 'aggregate_chull', {'any': states_ops(PRINT)}, P('C10', 'C09'),
    'a set that is not exact, in the mode of the first set: the hull of the sets; its time interval is from the earliest start to the latest end of theirs', '''
    def spec(states, ops, print_func):
        low = min([s.cur_steps_since_start[0] for s in states])
        high = max([s.cur_steps_since_start[1] for s in states])
        hull = lputil.aggregate_chull([s.lpi for s in states], states[0].mode)
        return StateSet(hull, states[0].mode, [low, high], ops, is_concrete=False)
    ''', {LU + 'aggregate_chull': does('aggregate_chull', 'ref:LpInstance'), 'stateset.StateSet': x_stateset}, AGST, pre=some_states)


# ------------------------------------------------------------------ templates
def dirs_rows(I, m):
    f = z3.Function('dirs.row', IS, IS, IS)
    s = world_field(I, 'dirs', 'shape', 'ref:Shape', m.oid)
    return world_field(I, 'Shape', 'rows', 'nat', s.oid), lambda i: Ref('vector', f(num(m.oid), num(i)))


def dirs_of(name):
    return lambda I, *a: Ref('dirs', pure(name, *[token(I, x) for x in a]))


def x_concatenate(I, a, kw):
    I.ctx.oblige(f'{I.where()}: rows below rows', kw.get('axis') == 0)
    return dirs_of('stack')(I, *a[0])


def allclose(I, a, kw):
    return z3.Function('FN_allclose', IS, IS, z3.BoolSort())(token(I, a[0]), token(I, a[1]))


CSRT = {'shape': 'ref:Shape', 'OpMult': lambda I, a, b: Ref('matrix', pure('product', num(a.oid), num(b.oid))), '()transpose': lambda I, o: Ref('matrix', pure('transpose', num(o.oid))), '()toarray': lambda I, o: Ref('dirs', pure('dense', num(o.oid)))}
BOXA = dict(AGST, matrix=CSRT, dirs={'shape': 'ref:Shape', '__iter__': dirs_rows, 'OpMult': lambda I, a, b: Ref('dirs', pure('product', num(a.oid), num(b.oid)))}, Shape={'__fields__': ['rows', 'cols'], 'rows': 'nat', 'cols': 'nat'},
            OpTransition=dict(_d.SCH['OpTransition'], premode_center='~ref:vector', parent_node='ref:AggDagNode', transition='ref:Transition'), Transition=dict(TRANS, guard_csr='ref:matrix'), AggDagNode=dict(_d.SCH['AggDagNode'], stateset='~ref:StateSet'))


def maybe_ops(ctx):
    'the transitions that made the sets; None where a set was not made by one'
    sc = states_ops(lambda: z3.Bool('is_box'), lambda: z3.Bool('is_arnoldi'), lambda: z3.Bool('add_guard'), PRINT)(ctx)
    n, f = z3.Int('ops.len'), z3.Function('ops.at', IS, IS)
    l = PList(arr=(n, lambda i: Ref('OpTransition', f(num(i)), True)))
    l.f['elem'] = 'OpTransition'
    sc['args'][1] = l
    return sc


world_contract(AG + 'aggregate_box_arnoldi', {'any': maybe_ops}, P('C09'),
    """a set that is not exact, in the mode of the first set, from the earliest start to the latest end of theirs: the bounds of all sets in the directions of the template. Those are the unit vectors; or the directions of the dynamics at the
    point recorded by the middle transition, mapped by its reset and made orthonormal again, and every unit vector that is not among them; and, if asked for, the rows of its guard mapped by its reset""", '''
    def spec(states, ops, is_box, is_arnoldi, add_guard, print_func):
        if not is_box and not is_arnoldi:
            raise AssertionError('no template')
        low = min([s.cur_steps_since_start[0] for s in states])
        high = max([s.cur_steps_since_start[1] for s in states])
        mode = states[0].mode
        n = mode.a_csr.shape[0]
        op = ops[len(states) // 2]
        if is_box or op is None:
            D = np.identity(n)
        else:
            r = op.transition.reset_csr
            D = lputil.make_direction_matrix(op.premode_center, op.parent_node.stateset.mode.a_csr)
            if r is not None:
                D = lputil.reorthogonalize_matrix(D * r.transpose(), n)
            units = []
            for d in range(n):
                unit = [0 if x != d else 1 for x in range(n)]
                if not any([np.allclose(unit, row) for row in D]):
                    units.append(unit)
            if len(units) > 0:
                D = np.concatenate((D, units), axis=0)
        if op is not None and add_guard:
            t = op.transition
            G = t.guard_csr if t.reset_csr is None else t.guard_csr * t.reset_csr.transpose()
            if G.shape[0] > 0:
                D = np.concatenate((D, G.toarray()), axis=0)
        return StateSet(lputil.aggregate([s.lpi for s in states], D, mode), mode, [low, high], ops, is_concrete=False)
    ''', {LU + 'aggregate': does('aggregate', 'ref:LpInstance'), 'stateset.StateSet': x_stateset, LU + 'make_direction_matrix': dirs_of('direction_matrix'), LU + 'reorthogonalize_matrix': dirs_of('reorthogonalized')}, BOXA, pre=some_states,
    hooks={'numpy.identity': lambda I, a, kw: dirs_of('identity')(I, *a), 'numpy.concatenate': x_concatenate, 'numpy.allclose': allclose})


# ------------------------------------------------------------------ the checking simulation
constructor('check_trace.CheckTraceData', lambda: [], ('C17',), 'nothing known yet', """
    def spec(self):
        self.sim_time = self.abs_error = self.rel_error = None
    """)

world_contract(CT + 'sim', {'any': scen1(lambda: ref('vector', 'start'), lambda: ref('function', 'der'), lambda: z3.Real('time_amount'), lambda: z3.Int('num_steps'), lambda: z3.Bool('quick'))}, P('C17', 'C16'),
    'the states after the start and their times, at num_steps evenly spaced times up to the end, as given by the integrator with tolerances of at most 1e-7', '''
    def spec(start, der_func, time_amount, num_steps, quick):
        times = np.linspace(0, time_amount, num=num_steps + 1)
        states = odeint(der_func, start, times, rtol=1e-9, atol=1e-9)
        return states[1:], times[1:]
    ''', {}, RPL, hooks={'numpy.linspace': x_linspace, 'scipy.integrate.odeint': x_odeint}, pre=lambda I, st: [le(1, z3.Int('num_steps'))])


# ------------------------------------------------------------------ the polygon of a set
AXES = {'axis': {'__kinds__': {'dict': 1, 'axis': 2}, '[]': lambda I, o, k: Ref('axis', pure('axis.for', num(o.oid), token(I, k))), 'OpIn': lambda I, o, k: z3.Function('axis.has', IS, IS, z3.BoolSort())(num(o.oid), token(I, k))},
        'PlotManager': {'num_subplots': lambda I, o: getattr(I.ctx, 'plots', None) or world_field(I, 'PlotManager', 'num_subplots', 'nat', o.oid), 'core': 'ref:Core', 'settings': 'ref:PlotSettings', 'plot_vec_list': 'list:PlotVecs'}, 'PlotSettings': {'xdim_dir': 'list:axis', 'ydim_dir': 'list:axis'}, 'Core': {'settings': 'ref:Settings'},
        'Settings': {'step_size': 'real'}, 'Mode': {'name': 'str'}, 'Verts': {}, 'PlotVecs': {}}


def drawn(known, assigned, known_plots=None, default=False):
    def f(ctx):
        w = world()
        o = Obj('StateSet', _verts=None, assigned_plot_dim=assigned, mode=ref('Mode', 'mode'), lpi=ref('LpInstance', 'lpi'), cur_steps_since_start=PList(items=[('one', z3.Int('since0')), ('one', z3.Int('since1'))]),
                xdim=reflist('axis', 'xs') if assigned else None, ydim=reflist('axis', 'ys') if assigned else None)
        if known:
            n, g = z3.Int('verts.len'), z3.Function('verts.at', IS, IS)
            o.f['_verts'] = PList(arr=(n, lambda i: Ref('Verts', g(num(i)), True)))
            o.f['_verts'].f['elem'] = 'Verts'
        ctx.plots = known_plots if not assigned else None
        return {'self': o, 'args': [ref('PlotManager', 'plotman')] + ([] if default else [z3.Int('subplot')]), 'world': w, 'watch': {'world': w}}
    return f


def plots_ok(I, st):
    'one axis pair and one set of directions per plot'
    pm, k, o = st['args'][0], (st['args'] + [0])[1], st['self']
    get = lambda x, n: I.models.getattr(I, x, n)
    m = get(pm, 'num_subplots')
    L = lambda x: I.models.length(I, x)
    out = [le(0, k), lt(k, m), eq(L(get(get(pm, 'settings'), 'xdim_dir')), m), eq(L(get(get(pm, 'settings'), 'ydim_dir')), m), eq(L(get(pm, 'plot_vec_list')), m)]
    for n in ('_verts', 'xdim', 'ydim'):
        if o.f[n] is not None:
            out.append(eq(L(o.f[n]), m))
    return out


world_contract('stateset.StateSet.verts', dict({f'{"known" if k else "unknown"}_axes': drawn(k, True) for k in (False, True)}, **{f'{"known" if k else "unknown"}_{n}plots': drawn(k, False, n) for k in (False, True) for n in (1, 2)}, default_plot=drawn(False, True, None, True)), P('C24'),
    """the polygon remembered for that plot; else that of the current set in the axes of the plot (those given for its mode), with its time interval, remembered for that plot only""", '''
    def spec(self, pm, k=0):
        if self._verts is None:
            self._verts = [None] * pm.num_subplots
        if self._verts[k] is None:
            h = pm.core.settings.step_size
            if not self.assigned_plot_dim:
                self.assigned_plot_dim = True
                xs, ys = [], []
                for i in range(pm.num_subplots):
                    x, y = pm.settings.xdim_dir[i], pm.settings.ydim_dir[i]
                    if isinstance(x, dict):
                        if self.mode.name not in x:
                            raise AssertionError('mode')
                        x = x[self.mode.name]
                    if isinstance(y, dict):
                        if self.mode.name not in y:
                            raise AssertionError('mode')
                        y = y[self.mode.name]
                    xs.append(x)
                    ys.append(y)
                self.xdim, self.ydim = xs, ys
            self._verts[k] = lpplot.get_verts(self.lpi, self.xdim[k], self.ydim[k], pm.plot_vec_list[k], (self.cur_steps_since_start[0] * h, self.cur_steps_since_start[1] * h))
        return self._verts[k]
    ''', {LPP + 'get_verts': lambda I, lpi, x=0, y=1, vecs=None, t=0.0: looks('get_verts', 'ref:Verts')(I, lpi, x, y, vecs, t)}, AXES, pre=plots_ok, bounded='one or two plots where the axes are not yet known')


# ------------------------------------------------------------------ the record of what was drawn
def plotdata():
    'per plot a dictionary from mode names to lists of entries'
    n, f = z3.Int('plots'), z3.Function('plots.at', IS, IS)
    l = PList(arr=(n, lambda i: Ref('EntriesByMode', f(num(i)))))
    return Obj('PlotData', mode_to_obj_list=l)


def entries(I, o, k):
    return WList('EntriesByMode', 'at', 'Entry', hcons(hcons(z3.IntVal(-9), num(o.oid)), token(I, k)), I)


PD = {'EntriesByMode': {'[]': entries}, 'Entry': {'__fields__': ['verts', 'state', 'step', 'text'], 'verts': 'ref:Verts', 'state': 'ref:StateSet', 'step': 'int', 'text': 'str'}, 'StateSet': {'mode': 'ref:Mode', 'cur_step_in_mode': '~int'}, 'Mode': {'name': 'str'}, 'Verts': {}}
in_plots = lambda ix: lambda I, st: [le(0, z3.Int('plot')), lt(z3.Int('plot'), z3.Int('plots'))]

world_contract(RS_ + 'PlotData.add_state', scen(lambda ctx: plotdata(), lambda: [ref('StateSet', 'state'), ref('Verts', 'verts'), z3.Int('plot')]), P('C24'),
    'the polygon is recorded last among those of its mode in its plot, with its set and step', '''
    def spec(self, state, verts, plot):
        n, k = state.mode.name, state.cur_step_in_mode
        self.mode_to_obj_list[plot][n].append((verts, state, k, f"{n} at step {k}"))
    ''', {}, PD, pre=in_plots(2))

world_contract(RS_ + 'PlotData.get_verts_list', scen(lambda ctx: plotdata(), lambda: [z3.Int('name'), z3.Int('plot')]), P('C24'),
    'the first entry of that mode in that plot', '''
    def spec(self, name, plot):
        return self.mode_to_obj_list[plot][name][0]
    ''', {}, PD, pre=lambda I, st: [in_plots(1)(I, st)[0], in_plots(1)(I, st)[1], le(1, I.models.length(I, entries(I, Ref('EntriesByMode', z3.Function('plots.at', IS, IS)(z3.Int('plot'))), z3.Int('name'))))])

world_contract(RS_ + 'PlotData.remove_state', scen(lambda ctx: plotdata(), lambda: [ref('StateSet', 'state'), z3.Int('step')]), P('C24', 'C14'),
    'in every plot the first entry of that set and step is removed, and no other; refused if no plot has one', '''
    def spec(self, state, step):
        found = False
        for d in self.mode_to_obj_list:
            l = d[state.mode.name]
            for i, e in enumerate(l):
                verts, s, k, text = e
                if s is state and k == step:
                    found = True
                    l.pop(i)
                    break
        if not found:
            raise AssertionError('not drawn')
    ''', {}, PD)

