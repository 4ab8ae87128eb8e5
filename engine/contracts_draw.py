'''Contracts of what plotutil.py records and draws of the sets of the analysis (C24, C14).'''
from contracts_agg import *

PM = 'plotutil.PlotManager.'


def made_by(o):
    'the transitions a set was made by; None for an initial set'
    l = PList(arr=(z3.Function('made_by.len', IS, IS)(num(o.oid)), lambda i: Ref('OpTransition', z3.Function('made_by.at', IS, IS, IS)(num(o.oid), num(i)), True)))
    l.f['elem'] = 'OpTransition'
    return l
PLS = {'PlotManager': {}, 'AggDag': {}, 'DrawnShapes': {}, 'PlotData': {}, 'Verts': {}, 'Interactive': {}, 'LabelSettings': {'axes_limits': 'opt:Limits'}, 'Limits': {},
       'StateSet': {'cur_step_in_mode': '~int', 'aggdag_op_list': lambda I, o: made_by(o), 'mode': 'ref:Mode'}, 'OpTransition': {'poststate': '~ref:StateSet'}, 'Mode': {}}


def plotman(**kw):
    'per plot a drawing and its labels'
    n = z3.Int('plots')
    shapes, labels = reflist('DrawnShapes', 'shapes'), reflist('LabelSettings', 'labels')
    s = Obj('PlotSettings', plot_mode=z3.Int('plot_mode'), store_plot_result=z3.Bool('store'), label=labels)
    c = Obj('Core', aggdag=ref('AggDag', 'dag'), result=Obj('HylaaResult', plot_data=ref('PlotData', 'plot_data', kw.pop('maybe', False))))
    return Obj('PlotManager', num_subplots=n, settings=s, core=c, shapes=shapes, _token=z3.Int('plotman'), **kw)


def per_plot(I, st):
    f = st['self'].f
    L = lambda x: I.models.length(I, x)
    return [eq(L(f['shapes']), f['num_subplots']), eq(L(f['settings'].f['label']), f['num_subplots'])]


def stored(I, st):
    'the record of what is drawn exists if it is asked for'
    return per_plot(I, st)



def x_verts(I, s, pm, subplot=0):
    'the polygon of a set: drawing and recording do not change sets (assumed here; StateSet.verts is under contract in contracts_agg.py)'
    return Ref('Verts', pure('verts', num(s.oid), num(subplot)))


DRAW = {'stateset.StateSet.verts': x_verts, 'result.PlotData.add_state': does('add_state'), 'result.PlotData.remove_state': does('remove_state'), 'plotutil.DrawnShapes.set_cur_state': lambda I, o, v: event(I, 'draw current', o, *([v] if v is None else [v])),
        'plotutil.DrawnShapes.set_gray_state': does('draw gray'), 'plotutil.DrawnShapes.add_reachable_poly': does('draw set'), 'aggdag.AggDag.get_cur_state': looks('get_cur_state', 'ref:StateSet'),
        PM + 'update_axis_limits': lambda I, pm, v, k: event(I, 'limits', v, k)}
pm_scen = lambda args=lambda: [], **kw: scen(lambda ctx: plotman(**dict(kw)), args)

world_contract(PM + 'pause', scen(lambda ctx: plotman(interactive=Obj('Interactive', step=z3.Bool('step'), paused=z3.Bool('paused'))), lambda: []), P('C24'), 'the drawing waits', """
    def spec(self):
        self.interactive.step, self.interactive.paused = False, True
    """, {}, PLS)

world_contract(PM + 'state_popped', pm_scen(), P('C24'), 'if something is drawn, the current set is cleared in every plot', """
    def spec(self):
        if self.settings.plot_mode != PlotSettings.PLOT_NONE:
            for i in range(self.num_subplots):
                self.shapes[i].set_cur_state(None)
    """, DRAW, PLS, pre=per_plot)

world_contract(PM + 'add_reachable_poly', pm_scen(lambda: [ref('StateSet', 'state')]), P('C24'), 'the set is drawn in every plot', """
    def spec(self, state):
        for s in self.shapes:
            s.add_reachable_poly(state)
    """, DRAW, PLS, pre=per_plot)
DRAW1 = dict(DRAW, **{PM + 'add_reachable_poly': lambda I, pm, s: event(I, 'draw set', s)})

world_contract(PM + 'plot_current_state', pm_scen(), P('C24', 'C14'),
    'its polygon in each plot is recorded once there if asked for; if something is drawn, the polygon (and those of the sets it was made of, at its first step) is shown in that plot and the set is drawn', """
    def spec(self):
        state = self.core.aggdag.get_cur_state()
        drawing = self.settings.plot_mode != PlotSettings.PLOT_NONE
        for i in range(self.num_subplots):
            if self.settings.store_plot_result:
                self.core.result.plot_data.add_state(state, state.verts(self, i), i)
            if drawing:
                polys = [state.verts(self, i)]
                if state.cur_step_in_mode == 0 and len(state.aggdag_op_list) > 1:
                    for op in state.aggdag_op_list:
                        if op is not None:
                            polys.append(op.poststate.verts(self, i))
                self.shapes[i].set_cur_state(polys)
                if self.settings.label[i].axes_limits is None:
                    self.update_axis_limits(state.verts(self, i), i)
        if drawing:
            self.add_reachable_poly(state)
    """, DRAW1, PLS, pre=stored)

world_contract(PM + 'delete_plotted_state', pm_scen(lambda: [ref('StateSet', 'state'), z3.Int('step')], maybe=True), P('C24', 'C14'),
    'if something is drawn and the set was drawn at that step, it is no longer drawn, and removed from the record if there is one', """
    def spec(self, state, step):
        if self.settings.plot_mode != PlotSettings.PLOT_NONE:
            polys = state.del_plot_path(step)
            if polys is not None:
                if self.core.result.plot_data is not None:
                    self.core.result.plot_data.remove_state(state, step)
                self.highlight_states_gray([polys])
    """, dict(DRAW, **{'stateset.StateSet.del_plot_path': does('del_plot_path', 'opt:Polys'), PM + 'highlight_states_gray': lambda I, pm, l: event(I, 'gray', l)}), dict(PLS, Polys={}), pre=stored)

world_contract(PM + 'add_plotted_states', pm_scen(lambda: [reflist('StateSet', 'states')]), P('C24', 'C14'),
    'if something is drawn: every set is drawn, and recorded once per plot with its polygon there if asked for; they are shown as current', """
    def spec(self, states):
        if self.settings.plot_mode != PlotSettings.PLOT_NONE:
            for s in states:
                self.add_reachable_poly(s)
                if self.settings.store_plot_result:
                    for i in range(self.num_subplots):
                        self.core.result.plot_data.add_state(s, s.verts(self, i), i)
            self.highlight_states(states)
    """, dict(DRAW1, **{PM + 'highlight_states': lambda I, pm, l: event(I, 'highlight', l)}), PLS, pre=stored)
