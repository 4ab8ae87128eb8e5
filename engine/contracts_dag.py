'''Contracts of aggdag.py, deaggregation.py and aggstrat.py: the waiting list, the record of operations and the replay (C13, C14, C09, C10).

Nodes, operations and sets are known by identity (see contracts_core.py); the lists of operations of a node are part of the world.
'''
from contracts_core import *

AN, DM, AS = 'aggdag.AggDagNode.', 'deaggregation.DeaggregationManager.', 'aggstrat.AggregationStrategy.'
NODE = {'aggdag': 'ref:AggDag', 'op_list': '~wlist:Op', 'stateset': '~ref:StateSet', 'parent_ops': '~list:OpTransition', 'agg_type_from_parents': 'opt:AggType'}
OPS = {'OpTransition': 1, 'OpLeftInvariant': 2, 'OpInvIntersect': 3}
OP = {'__kinds__': OPS, 'step': 'int', 'node': 'ref:AggDagNode', 'i_index': 'int', 'is_stronger': 'bool', 'reached_time_bound': 'bool', 'transition': 'ref:Transition',
      'parent_node': 'opt:AggDagNode', 'child_node': '~opt:AggDagNode', 'poststate': '~ref:StateSet'}
SCH = dict(SCHEMA, **{'AggDagNode': NODE, 'Op': OP, 'OpLeftInvariant': {'__as__': 'Op'}, 'OpInvIntersect': {'__as__': 'Op'},
    'OpTransition': dict(OPT, __class__='OpTransition', poststate='~ref:StateSet'), 'AggDag': {'settings': 'ref:Settings', 'core': 'ref:Core', 'roots': '~wlist:AggDagNode',
    'waiting_list': '~wlist:OpTransition', 'deagg_man': 'ref:DeaggregationManager', 'cur_node': '~opt:AggDagNode'},
    'StateSet': dict(SCHEMA['StateSet'], aggstring='~str'), 'Core': {'plotman': 'ref:PlotManager', 'settings': 'ref:Settings'}, 'Settings': {'num_steps': 'int', 'stdout': 'int', 'approx_model': 'int', 'aggstrat': 'ref:AggregationStrategy'},
    'AggType': {'is_box': 'bool', 'is_arnoldi_box': 'bool', 'is_chull': 'bool', 'add_guard': 'bool'}})


def reflist(cls, name):
    n, f = z3.Int(name + '.len'), z3.Function(name + '.at', IS, IS)
    l = PList(arr=(n, lambda i: Ref(cls, f(num(i)))))
    l.f['elem'] = cls
    return l


def aggdag(ctx, **kw):
    wl = reflist('OpTransition', 'waiting')
    ro = reflist('AggDagNode', 'roots')
    ctx.fact(And(le(0, z3.Int('waiting.len')), le(0, z3.Int('roots.len'))))
    o = Obj('AggDag', settings=settings(), core=Ref('Core', z3.Int('core')), roots=ro, cur_node=Ref('AggDagNode', z3.Int('cur'), True), waiting_list=wl,
            deagg_man=Ref('DeaggregationManager', z3.Int('dm')), viz_count=z3.Int('viz'))
    o.f.update(kw)
    return o


def scen(make, args=lambda: [], **kw):
    def f(ctx):
        w = world()
        return {'self': make(ctx), 'args': args(), 'world': w, 'watch': {'world': w}, **kw}
    return {'any': f}


def ref(cls, n, opt=False):
    return Ref(cls, z3.Int(n), opt)


def running_node(I, st):
    'a set is being propagated'
    d = st['self'] if st['self'].cls == 'AggDag' else st['self'].f['aggdag']
    s = I.models.method_of(I, d, 'get_cur_state') if False else I.call(I.models.getattr(I, d, 'get_cur_state'), [], {})
    return [Not(eq(d.f['cur_node'].oid, -1)), boolz(truth(I.ctx, s))]


NODE_ENV = {AN + 'get_cur_state': looks('node_cur_state', 'opt:StateSet'), AN + 'node_left_invariant': looks('node_left_invariant', 'bool')}
CPRINTS = {CO + 'print_normal': silent, CO + 'print_verbose': silent, CO + 'print_debug': silent}

world_contract(AN + 'get_cur_state', scen(lambda ctx: ref('AggDagNode', 'node')), P('C13', 'C15', 'C14'),
    'the set of a node, until the node records that it ended', '''
    def spec(self):
        n = len(self.op_list)
        if n > 0:
            if isinstance(self.op_list[n - 1], OpLeftInvariant):
                return None
        return self.stateset
    ''', {}, SCH)

world_contract(AN + 'node_left_invariant', scen(lambda ctx: ref('AggDagNode', 'node')), P('C14', 'C13'),
    'a node has ended when its last operation says so', '''
    def spec(self):
        n = len(self.op_list)
        return n > 0 and isinstance(self.op_list[n - 1], OpLeftInvariant)
    ''', {}, SCH)

world_contract(AD + 'get_cur_state', scen(aggdag), P('C13', 'C15'), 'the set being propagated is that of the current node, if any', '''
    def spec(self):
        return None if self.cur_node is None else self.cur_node.get_cur_state()
    ''', NODE_ENV, SCH)

world_contract(AD + 'cur_state_left_invariant', {k: scen(aggdag, a)['any'] for k, a in (('default', lambda: []), ('given', lambda: [z3.Bool('bound')]))}, P('C13', 'C14', 'C15'),
    'the end of the current set is recorded once in its node, and nothing is current afterwards', '''
    def spec(self, reached_time_bound=False):
        step = self.get_cur_state().cur_step_in_mode
        self.cur_node.op_list.append(OpLeftInvariant(step, self.cur_node, reached_time_bound))
        self.cur_node = None
    ''', NODE_ENV, SCH, pre=running_node)


def new(I, cls, *args):
    'a new object: an identity of its own; nothing else changes'
    ts = [token(I, a) for a in args]
    n = I.world.f['n']
    oid = z3.Function('NEW_' + cls, IS, *[t.sort() for t in ts], IS)(num(n), *ts)
    I.ctx.fact(oid != -1)
    I.ctx.put(I.world, 'n', add(n, 1))
    return Ref(cls, oid)


def x_new_op(I, step, parent, child, t, poststate):
    'a new transition operation'
    vals = (step, parent, child, t, poststate)
    r = new(I, 'OpTransition', *vals)
    for n, v in (('step', step), ('parent_node', parent), ('transition', t)):
        I.ctx.fact(z3.Function('OpTransition.' + n, IS, IS)(num(r.oid)) == token(I, v))
    for n, v in (('child_node', child), ('poststate', poststate)):
        I.ctx.fact(z3.Function('OpTransition.' + n, IS, IS, IS)(num(r.oid), num(I.world.f['w'])) == token(I, v))
    return r


NEW = {'deaggregation.OpTransition': x_new_op, 'stateset.StateSet': does('new StateSet', 'ref:StateSet')}

world_contract(AD + 'add_init_state', scen(aggdag, lambda: [ref('StateSet', 'state')]), P('C13', 'C01'), 'an initial set is queued once, last, without predecessor', '''
    def spec(self, state):
        self.waiting_list.append(OpTransition(0, None, None, None, state))
    ''', dict(NODE_ENV, **NEW), SCH)

world_contract(AD + 'add_invariant_op', scen(aggdag, lambda: [z3.Int('step'), z3.Int('index'), z3.Bool('stronger')]), P('C14', 'C06'),
    'an invariant operation is recorded once in the current node with its step and condition', '''
    def spec(self, step, i_index, is_stronger):
        self.cur_node.op_list.append(OpInvIntersect(step, self.cur_node, i_index, is_stronger))
    ''', NODE_ENV, SCH, pre=running_node)

world_contract(AD + 'make_op_transition', scen(aggdag, lambda: [ref('Transition', 't'), ref('LpInstance', 'part'), ref('StateSet', 'state'), ref('AggDagNode', 'parent')]), P('C08', 'C13', 'C14', 'C15', 'C16'),
    'the successor is the reset of the part, in the target mode, at the same time since the start and as exact as its source; it remembers its transition, step and parent', '''
    def spec(self, t, part, state, parent):
        op = OpTransition(state.cur_step_in_mode, parent, None, t, None)
        since, exact, inputs = state.cur_steps_since_start, state.is_concrete, t.to_mode.b_csr is not None
        if not self.settings.aggstrat.pretransition(t, part, op):
            return None
        lputil.add_reset_variables(part, t.to_mode.mode_id, t.transition_index, reset_csr=t.reset_csr, minkowski_csr=t.reset_minkowski_csr,
                                   minkowski_constraints_csr=t.reset_minkowski_constraints_csr, minkowski_constraints_rhs=t.reset_minkowski_constraints_rhs, successor_has_inputs=inputs)
        if not part.is_feasible():
            raise RuntimeError('empty')
        op.poststate = StateSet(part, t.to_mode, since, [op], exact)
        return op
    ''', dict(NODE_ENV, **NEW, **CPRINTS, **{AS + 'pretransition': does('pretransition', 'bool'), 'lputil.add_reset_variables': does('add_reset_variables'), 'lpinstance.LpInstance.is_feasible': does('is_feasible', 'bool')}), SCH)

world_contract(AD + 'add_transition_successor', {k: scen(aggdag, a)['any'] for k, a in (
        ('current', lambda: [ref('Transition', 't'), ref('LpInstance', 'part')]), ('given', lambda: [ref('Transition', 't'), ref('LpInstance', 'part'), ref('StateSet', 'state'), ref('AggDagNode', 'parent')]))}, P('C13', 'C08', 'C14'),
    'a successor is recorded in its parent and queued last, each exactly once', '''
    def spec(self, t, part, state=None, parent=None):
        state = self.get_cur_state() if state is None else state
        parent = self.cur_node if parent is None else parent
        op = self.make_op_transition(t, part, state, parent)
        if op is not None:
            parent.op_list.append(op)
            self.waiting_list.append(op)
    ''', dict(NODE_ENV, **{AD + 'make_op_transition': does('make_op_transition', 'opt:OpTransition')}), SCH, pre=running_node)

world_contract(AD + 'remove_node_decendants_from_waiting_list', scen(aggdag, lambda: [ref('AggDagNode', 'node')]), P('C13', 'C14'),
    'exactly the queued successors that descend from the node leave the waiting list; the others keep their order', '''
    def spec(self, node):
        gone = self._get_node_leaf_ops(node)
        self.waiting_list = [op for op in self.waiting_list if op not in gone]
    ''', dict(NODE_ENV, **{AD + '_get_node_leaf_ops': looks('leaf_ops', 'list:OpTransition')}), SCH)

world_contract(AD + 'make_node', scen(aggdag, lambda: [reflist('OpTransition', 'ops'), ref('AggType', 'agg_type', True), SStr([('sym', z3.Int('aggstring'))])]), P('C13', 'C14'), 'a new node for the operations', '''
    def spec(self, ops, agg_type, aggstring):
        return AggDagNode(ops, agg_type, self, aggstring)
    ''', {'aggdag.AggDagNode': does('new AggDagNode', 'ref:AggDagNode')}, SCH)

world_contract(AD + 'pop_waiting_list', scen(aggdag), P('C13', 'C15', 'C09', 'C10'),
    'the operations chosen by the strategy leave the waiting list and form one new current node; error modes and initial sets are taken alone', '''
    def spec(self):
        ops = self.settings.aggstrat.pop_waiting_list(self.waiting_list)
        assert len(ops) > 0
        if ops[0].poststate.mode.a_csr is None:
            ops = [ops[0]]
        for op in ops:
            if op.parent_node is None:
                ops = [op]
                break
        n = len(self.waiting_list)
        self.waiting_list = [op for op in self.waiting_list if op not in ops]
        assert n == len(self.waiting_list) + len(ops)
        agg = self.settings.aggstrat.get_agg_type(ops) if len(ops) > 1 else None
        self.cur_node = self.make_node(ops, agg, 'full')
        return self.cur_node.get_cur_state()
    ''', dict(NODE_ENV, **{AS + 'pop_waiting_list': looks('choose', 'list:OpTransition'), AS + 'get_agg_type': looks('agg_type', 'ref:AggType'),
        AD + 'make_node': touches('make_node', ['roots'], 'ref:AggDagNode')}), SCH)


# ------------------------------------------------------------------ nodes
def new_node(ctx):
    return Obj('AggDagNode', _token=z3.Int('node'))


def node_args(one):
    def f():
        ops = PList(items=[('one', ref('OpTransition', 'op0'))]) if one else reflist('OpTransition', 'ops')
        return [ops, ref('AggType', 'agg_type', True), ref('AggDag', 'dag'), SStr([('sym', z3.Int('aggstring'))])]
    return f


def some_ops(I, st):
    return [le(1, z3.Int('ops.len'))]


world_contract('aggdag.AggDagNode.__init__', scen(new_node, node_args(False)), P('C13', 'C14', 'C09', 'C10'),
    'the set of a node is the set of its only operation, or the aggregation of the sets of all its operations, in order; every operation points to the node, and a node with an initial operation is a root once', '''
    def spec(self, ops, agg_type, dag, aggstring):
        self.aggdag = dag
        self.op_list = []
        self.parent_ops = ops
        self.agg_type_from_parents = agg_type
        states = [op.poststate for op in ops]
        if len(ops) == 1:
            state = states[0]
        else:
            state = self._aggregate_from_state_op_list(states, ops, agg_type)
        state.aggstring = aggstring
        root = False
        for op in ops:
            op.child_node = self
            if op.parent_node is None:
                root = True
        if root:
            dag.roots.append(self)
        self.stateset = state
    ''', dict(CPRINTS, **{AN + '_aggregate_from_state_op_list': does('aggregate', 'ref:StateSet')}), SCH, pre=some_ops)

world_contract(AN + '_aggregate_from_state_op_list', scen(lambda ctx: ref('AggDagNode', 'node'), lambda: [reflist('StateSet', 'states'), reflist('OpTransition', 'ops'), ref('AggType', 'at')]), P('C09', 'C10'),
    'the aggregation method is the one of the aggregation type', '''
    def spec(self, states, ops, at):
        if at.is_chull:
            assert not at.is_box and not at.is_arnoldi_box
            return aggregate.aggregate_chull(states, ops, self.aggdag.core.print_debug)
        if at.is_box or at.is_arnoldi_box:
            return aggregate.aggregate_box_arnoldi(states, ops, at.is_box, at.is_arnoldi_box, at.add_guard, self.aggdag.core.print_debug)
        raise RuntimeError('type')
    ''', dict(CPRINTS, **{'aggregate.aggregate_chull': lambda I, a, b, c: does('chull', 'ref:StateSet')(I, a, b), 'aggregate.aggregate_box_arnoldi': lambda I, a, b, c, d, e, f: does('box', 'ref:StateSet')(I, a, b, c, d, e)}), SCH)

world_contract(AN + 'split', scen(lambda ctx: ref('AggDagNode', 'node')), P('C14', 'C13'),
    'a split covers every parent operation exactly once: the first half and the rest, with the same aggregation', '''
    def spec(self):
        ops = self.parent_ops
        n = len(ops)
        assert n > 1
        name = self.stateset.aggstring
        if name == 'full':
            name = ''
        half = n // 2
        a = self.aggdag.make_node(ops[0:half], self.agg_type_from_parents, name + '0')
        b = self.aggdag.make_node(self.parent_ops[half:n], self.agg_type_from_parents, name + '1')
        return [a, b]
    ''', dict(CPRINTS, **{AD + 'make_node': does('make_node', 'ref:AggDagNode')}), dict(SCH, AggDagNode=dict(NODE, parent_ops='list:OpTransition')))

REPLAY = {AN + 'replay_op_transition': does('replay_transition'), AN + 'replay_op_intersect_invariant': does('replay_invariant', 'bool'), AN + 'get_cur_state': looks('node_cur_state', 'opt:StateSet'),
          AN + 'node_left_invariant': looks('node_left_invariant', 'bool')}


def replaying(I, st):
    'the index is one of the list; the node has not ended; an operation is one of the three kinds'
    l, i = st['args']
    k = z3.Function('Op.kind', IS, IS)(z3.Function('ops.at', IS, IS)(num(i)))
    return [And(le(0, i), lt(i, l.f['v'][1])), Or(eq(k, 1), eq(k, 2), eq(k, 3)), boolz(Not(looks('node_left_invariant', 'bool')(I, st['self']))), Not(eq(looks('node_cur_state', 'opt:StateSet')(I, st['self']).oid, -1))]


world_contract(AN + 'replay_op', scen(lambda ctx: ref('AggDagNode', 'node'), lambda: [reflist('Op', 'ops'), z3.Int('i')]), P('C14'),
    'an operation beyond the time bound of the part ends it; the end is recorded; a transition is replayed; an invariant condition is applied and an empty part ends', '''
    def spec(self, ops, i):
        op = ops[i]
        state = self.get_cur_state()
        if state.cur_steps_since_start[0] + op.step - state.cur_step_in_mode > self.aggdag.settings.num_steps:
            self.op_list.append(OpLeftInvariant(state.cur_step_in_mode, self, True))
        elif isinstance(op, OpLeftInvariant):
            self.op_list.append(op)
        elif isinstance(op, OpTransition):
            self.replay_op_transition(state, op)
        elif not self.replay_op_intersect_invariant(state, op):
            self.op_list.append(OpLeftInvariant(op.step, self, False))
    ''', dict(CPRINTS, **REPLAY), SCH, pre=replaying)

world_contract(AN + 'replay_op_transition', scen(lambda ctx: ref('AggDagNode', 'node'), lambda: [ref('StateSet', 'state'), ref('OpTransition', 'op')]), P('C14', 'C15', 'C13'),
    'the part is advanced to the step first; where it still meets the guard its own successor is recorded in the part, and is queued or, where the whole had been continued, handed on to be split', '''
    def spec(self, state, op):
        state.step(op.step)
        t = op.transition
        part = t.get_guard_intersection(state.lpi)
        if part is not None:
            if t.to_mode.is_error():
                self.aggdag.core.error_reached(state, t, part)
            mine = self.aggdag.make_op_transition(t, part, state, self)
            if mine is not None:
                self.op_list.append(mine)
                if op.child_node is None:
                    self.aggdag.waiting_list.append(mine)
                else:
                    self.aggdag.deagg_man.update_transition_successors(op, mine)
    ''', dict(READS, **CPRINTS, **{'stateset.StateSet.step': does('step'), 'hybrid_automaton.Transition.get_guard_intersection': does('guard_intersection', 'opt:LpInstance'), CO + 'error_reached': does('error_reached'),
        AD + 'make_op_transition': does('make_op_transition', 'opt:OpTransition'), DM + 'update_transition_successors': does('update_successors')}), SCH,
    pre=lambda I, st: [Not(eq(z3.Function('OpTransition.transition', IS, IS)(z3.Int('op')), -1))])


def x_check3(I, lpi, row, *rest):
    'None (infeasible), False or True'
    v = answer(I, 'check_intersection', 'Int', lpi, row, *rest)
    event(I, 'check_intersection', lpi, row, *rest)
    return Ref('Tri', v, True)


INVOP = dict(OP, __fields__=['step', 'node', 'i_index', 'is_stronger'])
world_contract(AN + 'replay_op_intersect_invariant', scen(lambda ctx: ref('AggDagNode', 'node'), lambda: [ref('StateSet', 'state'), ref('OpX', 'op')]), P('C14', 'C06'),
    'the part is advanced to the step; a condition it reaches beyond is added or strengthened in its own row and recorded in the part; the answer is whether the part is non-empty', '''
    def spec(self, state, op):
        step, i = op.step, op.i_index
        state.step(step)
        lc = state.mode.inv_list[i]
        hit = lputil.check_intersection(state.lpi, lc.negate())
        if hit is None:
            return False
        if not hit:
            return True
        rows = state.invariant_constraint_rows
        if rows[i] is None:
            stronger = False
            rows[i] = lputil.add_init_constraint(state.lpi, lc.csr.toarray()[0], lc.rhs, state.basis_matrix, state.input_effects_list)
        else:
            new, stronger = lputil.try_replace_init_constraint(state.lpi, rows[i], lc.csr.toarray()[0], lc.rhs, state.basis_matrix, state.input_effects_list)
            rows[i] = new
        self.op_list.append(OpInvIntersect(step, self, i, stronger))
        return state.lpi.is_feasible()
    ''', dict(READS, **CPRINTS, **{'stateset.StateSet.step': does('step'), 'lputil.check_intersection': x_check3, 'hybrid_automaton.LinearConstraint.negate': x_negate,
        'lputil.add_init_constraint': does('add_init_constraint', 'ref:row'), 'lputil.try_replace_init_constraint': lambda I, *a: x_try_replace(I, *a), 'lpinstance.LpInstance.is_feasible': does('is_feasible', 'bool')}),
    dict(SCH, OpX=INVOP, Tri={'()truth': lambda o: Not(eq(o.oid, 0))}), pre=lambda I, st: [And(le(0, z3.Function('OpX.i_index', IS, IS)(z3.Int('op'))),
        lt(z3.Function('OpX.i_index', IS, IS)(z3.Int('op')), z3.Function('Mode.inv_list.len', IS, IS)(z3.Function('StateSet.mode', IS, IS)(z3.Int('state')))))])


# ------------------------------------------------------------------ replay
from models import WList, WDict

MAN = dict(SCH, Pair={'__fields__': ['parent', 'children'], 'parent': 'ref:AggDagNode', 'children': 'list:AggDagNode'}, Entry={'__fields__': ['key', 'ops'], 'key': 'ref:Key', 'ops': 'nelist:OpTransition'},
    Key={'__fields__': ['parent', 'child'], 'parent': 'ref:AggDagNode', 'child': 'ref:AggDagNode'}, AggDagNode=dict(NODE, parent_ops='list:OpTransition'))


def manager(step, parent=True):
    def f(ctx):
        kids = reflist('AggDagNode', 'children') if parent else None
        if kids is not None:
            ctx.fact(z3.Int('children.len') >= 0)
        return Obj('DeaggregationManager', aggdag=ref('AggDag', 'dag'), waiting_nodes=WList('DeaggregationManager', 'waiting_nodes', 'Pair', z3.Int('man'), None),
                   deagg_parent=ref('AggDagNode', 'dparent', True) if parent else None, deagg_children=kids,
                   nodes_to_ops=WDict('nodes_to_ops', 'OpTransition', z3.Int('n2o'), None, 'Entry') if parent else None, replay_step=z3.Int('replay_step') if step else None)
    return f


def both(args=lambda: []):
    return {'idle': scen(manager(False, False), args)['any'], 'replaying': scen(manager(True), args)['any']}


world_contract(DM + 'doing_replay', both(), P('C14', 'C15'), 'a replay is under way or waiting', '''
    def spec(self):
        return self.replay_step is not None or len(self.waiting_nodes) > 0
    ''', {}, MAN)

world_contract(DM + 'begin_replay', both(lambda: [ref('AggDagNode', 'node')]), P('C14', 'C13'),
    'what descends from the node leaves the waiting list first; then the node is replayed with its two parts', '''
    def spec(self, node):
        self.aggdag.remove_node_decendants_from_waiting_list(node)
        self.waiting_nodes.append((node, node.split()))
    ''', {AD + 'remove_node_decendants_from_waiting_list': does('remove_descendants'), AN + 'split': does('split', 'ref:nodes')}, dict(MAN, nodes={}))

world_contract(DM + 'update_transition_successors', {'replaying': scen(manager(True), lambda: [ref('OpTransition', 'old'), ref('OpTransition', 'new_op')])['any']}, P('C14', 'C13'),
    'the successors of one part that continue the same old node are collected together, in order, each once', '''
    def spec(self, old, new):
        key = (new.parent_node, old.child_node)
        if key not in self.nodes_to_ops:
            self.nodes_to_ops[key] = []
        self.nodes_to_ops[key].append(new)
    ''', {}, MAN)


def x_start(I, self):
    'contract of init_replay (below): a replay starts at the first operation'
    event(I, 'init_replay', self)
    kids = looks('init children', 'list:AggDagNode')(I)
    I.ctx.put(self, 'deagg_parent', looks('init parent', 'ref:AggDagNode')(I))
    I.ctx.put(self, 'deagg_children', kids)
    I.ctx.put(self, 'replay_step', 0)
    I.ctx.put(self, 'nodes_to_ops', WDict('nodes_to_ops', 'OpTransition', token(I, self), None, 'Entry'))


def more_ops(I, st):
    'a replay under way has an operation left; a node that is replayed has at least one operation (it has ended)'
    s = st['self']
    if s.f['replay_step'] is None:
        return []
    n = WList('AggDagNode', 'op_list', 'Op', s.f['deagg_parent'].oid, I).now(I)
    return [Not(eq(s.f['deagg_parent'].oid, -1)), le(0, s.f['replay_step']), lt(s.f['replay_step'], n.f['v'][1])]


world_contract(DM + 'do_step_replay', {'replaying': scen(manager(True))['any']}, P('C14', 'C13'),
    'the operations of one step (an invariant operation: also the transitions of the next step) are replayed in order in every part that has not ended; at the end each group of refined successors becomes one node that is replayed in turn', '''
    def spec(self):
        assert self.doing_replay()
        ops = self.deagg_parent.op_list
        first = self.replay_step
        now = ops[first].step
        jumps = isinstance(ops[first], OpTransition)
        ended = False
        for op in ops[first:len(ops)]:
            if op.step > now and not jumps:
                now = now + 1
                jumps = True
            if op.step != now or jumps and not isinstance(op, OpTransition):
                break
            if isinstance(op, OpLeftInvariant):
                ended = True
            for part in self.deagg_children:
                if not part.node_left_invariant():
                    part.replay_op(self.deagg_parent.op_list, self.replay_step)
            self.replay_step = self.replay_step + 1
        for part in self.deagg_children:
            if not part.node_left_invariant():
                part.stateset.step(now)
        if not ended:
            self.plot_replay_deaggregated(now)
        done = self.replay_step >= len(self.deagg_parent.op_list)
        if done or all([part.node_left_invariant() for part in self.deagg_children]):
            for key, group in self.nodes_to_ops.items():
                _, old = key
                node = self.aggdag.make_node(group, old.agg_type_from_parents, old.stateset.aggstring)
                self.waiting_nodes.append((old, [node]))
            self.deagg_parent = None
            self.deagg_children = None
            self.replay_step = None
            self.nodes_to_ops = None
    ''', dict(CPRINTS, **{DM + 'init_replay': x_start, AN + 'node_left_invariant': looks('node_left_invariant', 'bool'), AN + 'replay_op': does('replay_op'), 'stateset.StateSet.step': does('step'),
        DM + 'plot_replay_deaggregated': does('plot_replay'), AD + 'make_node': does('make_node', 'ref:AggDagNode')}), MAN, pre=more_ops)



def some_waiting(I, st):
    'called when no replay is under way and one is waiting'
    s = st['self']
    return [lt(0, s.f['waiting_nodes'].now(I).f['v'][1])]


world_contract(DM + 'init_replay', {'idle': scen(manager(False, False))['any']}, P('C14', 'C12'),
    'the replay of the first waiting node starts at its first operation with nothing collected; under an approximation model every part that stays in its invariant restarts with that model, and one that does not ends', '''
    def spec(self):
        self.deagg_parent, self.deagg_children = self.waiting_nodes.popleft()
        self.replay_step = 0
        self.nodes_to_ops = {}
        core = self.aggdag.core
        model = core.settings.approx_model
        if model != HylaaSettings.APPROX_NONE:
            for part in self.deagg_children:
                if not part.stateset.mode.is_error():
                    if core.intersect_invariant(part.stateset, add_ops_to_aggdag=False):
                        part.stateset.apply_approx_model(model)
                    else:
                        part.op_list.append(OpLeftInvariant(0, part, False))
        core.plotman.pause()
    ''', dict(CPRINTS, **{'hybrid_automaton.Mode.is_error': looks('is_error', 'bool'), CO + 'intersect_invariant': lambda I, c, s, add_ops_to_aggdag=True: does('intersect_invariant', 'bool')(I, c, s, add_ops_to_aggdag),
        'stateset.StateSet.apply_approx_model': does('apply_approx_model'), 'plotutil.PlotManager.pause': does('pause')}), MAN, pre=some_waiting)

world_contract(DM + 'plot_replay_deaggregated', {'replaying': scen(manager(True), lambda: [z3.Int('step')])['any']}, P('C14', 'C24'),
    'the parts that have not ended replace the whole in the picture', '''
    def spec(self, step):
        shown = [part.stateset for part in self.deagg_children if not part.node_left_invariant()]
        for s in shown:
            assert s.cur_step_in_mode == step
        plotman = self.aggdag.core.plotman
        plotman.add_plotted_states(shown)
        plotman.delete_plotted_state(self.deagg_parent.stateset, step)
    ''', dict(CPRINTS, **{AN + 'node_left_invariant': looks('node_left_invariant', 'bool'), 'plotutil.PlotManager.add_plotted_states': does('add_plotted'),
        'plotutil.PlotManager.delete_plotted_state': does('delete_plotted')}), MAN, pre=lambda I, st: [Not(eq(st['self'].f['deagg_parent'].oid, -1))])


# ------------------------------------------------------------------ strategies
def strategy(ctx):
    return Obj('Aggregated', _token=z3.Int('strategy'), agg_type=z3.Int('agg_type'), pop_type=z3.Int('pop_type'), add_guard=z3.Bool('add_guard'), require_same_path=z3.Bool('same_path'), deaggregate=z3.Bool('deaggregate'),
               deagg_preference=z3.Int('preference'), sim_avoid_modes=NameSet('sim_avoid_modes'))


def queue(n):
    def f():
        return [reflist('OpTransition', 'queue')]
    return f


AGS = 'aggstrat.Aggregated.'
STR = dict(SCH, Mode=dict(SCHEMA['Mode'], name='str') if 'Mode' in SCHEMA else {'name': 'str'})
world_contract(AS + 'pop_waiting_list', scen(lambda ctx: Obj('AggregationStrategy'), queue(1)), P('C13'), 'without aggregation the first queued set is taken, alone', '''
    def spec(self, queue):
        return [queue[0]]
    ''', {}, STR, pre=lambda I, st: [le(1, z3.Int('queue.len'))])

world_contract(AGS + 'pop_score', scen(strategy, lambda: [ref('StateSet', 'state')]), P('C13'), 'earlier sets score higher (or later ones, where the strategy says so)', '''
    def spec(self, state):
        first, last = state.cur_steps_since_start[0], state.cur_steps_since_start[1]
        if self.pop_type == Aggregated.POP_LOWEST_MINTIME:
            return 0 - first
        if self.pop_type == Aggregated.POP_LOWEST_AVGTIME:
            return 0 - first - last
        if self.pop_type == Aggregated.POP_LARGEST_MAXTIME:
            return last
        raise RuntimeError('strategy')
    ''', {}, STR)

world_contract(AGS + 'pop_waiting_list', scen(strategy, queue(1)), P('C13', 'C09', 'C10'),
    'the first set of the best score (ties: the least mode name) is taken with exactly the queued sets of the same mode and, where required, of the same transition of the same node', '''
    def spec(self, queue):
        best = queue[0]
        top = self.pop_score(best.poststate)
        for op in queue:
            score = self.pop_score(op.poststate)
            if score > top or score == top and op.poststate.mode.name < best.poststate.mode.name:
                best = op
                top = score
        return [op for op in queue if op.poststate is best.poststate or op.poststate.mode is best.poststate.mode and
                (not self.require_same_path or op.transition is best.transition and op.parent_node is best.parent_node)]
    ''', {AGS + 'pop_score': looks('pop_score', 'int')}, STR, pre=lambda I, st: [le(1, z3.Int('queue.len'))])

world_contract(AGS + '_get_agg_type', scen(strategy), P('C09', 'C10'), 'the aggregation type is the configured one', '''
    def spec(self):
        t = self.agg_type
        return AggType(t == Aggregated.AGG_BOX, t == Aggregated.AGG_ARNOLDI_BOX, t == Aggregated.AGG_CONVEX_HULL, self.add_guard)
    ''', {}, STR)
world_contract(AGS + 'get_agg_type', scen(strategy, queue(1)), P('C09', 'C10'), 'the aggregation type is the configured one', '''
    def spec(self, ops):
        return self._get_agg_type()
    ''', {AGS + '_get_agg_type': looks('agg_type', 'ref:AggType')}, STR)
world_contract(AS + 'pretransition', scen(lambda ctx: Obj('AggregationStrategy'), lambda: [ref('Transition', 't'), ref('LpInstance', 'part'), ref('OpTransition', 'op')]), P('C08'), 'nothing happens before a transition', '''
    def spec(self, t, part, op):
        return True
    ''', {}, STR)
world_contract(AGS + 'pretransition', scen(strategy, lambda: [ref('Transition', 't'), ref('LpInstance', 'part'), ref('OpTransition', 'op')]), P('C08', 'C09'),
    'the centre of the set before the reset is remembered where the aggregation needs it; a transition is dropped only where it cannot be computed', '''
    def spec(self, t, part, op):
        if self.agg_type != Aggregated.AGG_ARNOLDI_BOX:
            return True
        op.premode_center = lputil.get_box_center(part)
        return op.premode_center is not None
    ''', {'lputil.get_box_center': looks('box_center', 'opt:Center')}, dict(STR, OpTransition=dict(STR['OpTransition'], premode_center='~opt:Center'), Center={}))
world_contract(AS + 'get_simulation_pop_mode', scen(lambda ctx: Obj('AggregationStrategy'), lambda: [reflist('SimState', 'sims')]), P('C22'), 'the mode of the first waiting point', '''
    def spec(self, sims):
        mode, _, _ = sims[0]
        return mode
    ''', {}, dict(STR, SimState={'__fields__': ['mode', 'pt', 'steps'], 'mode': 'ref:Mode', 'pt': 'ref:Pt', 'steps': 'int'}), pre=lambda I, st: [le(1, z3.Int('sims.len'))])
world_contract(AGS + 'get_simulation_pop_mode', scen(strategy, lambda: [reflist('SimState', 'sims')]), P('C22'), 'the mode of the first waiting point of least time outside the modes to avoid, else of the first point', '''
    def spec(self, sims):
        best = None
        least = float('inf')
        for mode, _, steps in sims:
            if mode.name in self.sim_avoid_modes:
                steps = float('inf')
            if steps < least:
                best = mode
                least = steps
        if best is None:
            best, _, _ = sims[0]
        return best
    ''', {}, dict(STR, __inf__=True, SimState={'__fields__': ['mode', 'pt', 'steps'], 'mode': 'ref:Mode', 'pt': 'ref:Pt', 'steps': 'int'}), pre=lambda I, st: [le(1, z3.Int('sims.len'))])
