'''Contracts of the remaining functions of aggdag.py, aggstrat.py and deaggregation.py (C13, C14), result.py (C24) and symbolic.py (C18).'''
from contracts_more import *
import contracts_dag as _d

# ------------------------------------------------------------------ leaves of a node
world_contract(AD + '_get_node_leaf_ops', {'any': lambda ctx: (lambda w: {'self': aggdag(ctx), 'args': [ref('AggDagNode', 'node')], 'world': w, 'watch': {'world': w}})(world())}, P('C14', 'C13'),
    'the pending transitions of the node in their order, then those of each of its different successors', '''
    def spec(self, node):
        leaves, nodes = [], []
        for op in node.op_list:
            if isinstance(op, OpTransition):
                if op.child_node is None:
                    leaves.append(op)
                elif op.child_node not in nodes:
                    nodes.append(op.child_node)
        for n in nodes:
            leaves += self._get_node_leaf_ops(n)
        return leaves
    ''', {AD + '_get_node_leaf_ops': lambda I, self, node: looks('leaf_ops', 'list:OpTransition')(I, node)}, _d.SCH)


# ------------------------------------------------------------------ which node is split
def x_ancestors(I, n):
    'a new list'
    l = looks('ancestors', 'list:AggDagNode')(I, n)
    l.frozen, l.local = False, True
    q = z3.FreshInt('q')
    I.ctx.fact(z3.ForAll([q], num(l.f['v'][2](q).oid) != -1))
    return l


_OPT = dict(STR['OpTransition'], parent_node='ref:AggDagNode')       # (sets that are not exact have a predecessor)
world_contract('aggstrat.get_ancestors', {'any': lambda ctx: (lambda w: {'args': [ref('AggDagNode', 'node')], 'world': w, 'watch': {'world': w}})(world())}, P('C14'),
    'the ancestors of the node by way of its first predecessors, first ones first, and the node', '''
    def spec(node):
        p = node.parent_ops[0].parent_node
        return [node] if p is None else get_ancestors(p) + [node]
    ''', {'aggstrat.get_ancestors': lambda I, n: looks('ancestors', 'list:AggDagNode')(I, n)}, STR, pre=lambda I, st: [le(1, I.models.length(I, I.models.getattr(I, st['args'][0], 'parent_ops')))])

world_contract(AS + 'get_deagg_node', scen(lambda ctx: Obj('AggregationStrategy'), lambda: [ref('AggDag', 'dag')]), P('C14', 'C13'), 'nothing is split without aggregation', '''
    def spec(self, dag):
        return None
    ''', {}, STR)

world_contract(AGS + 'get_deagg_node', scen(strategy, lambda: [ref('AggDag', 'dag')]), P('C14'),
    """the predecessor of the last waiting set that is not exact and either is in an error mode or left the node by another transition than the first one waiting from it; of its ancestors the one with more than one predecessor that the
    preference puts first (the last one, the first one, the one with most predecessors); nothing is split otherwise or without deaggregation""", '''
    def spec(self, dag):
        last = None
        if self.deaggregate:
            first = {}
            for op in dag.waiting_list:
                if not op.poststate.is_concrete:
                    if op.poststate.mode.is_error():
                        last = op.parent_node
                    if op.parent_node in first:
                        if first[op.parent_node] is not op.transition:
                            last = op.parent_node
                    else:
                        first[op.parent_node] = op.transition
                        if not op.parent_node.node_left_invariant():
                            raise AssertionError('running')
        if last is None:
            return None
        nodes = get_ancestors(last)
        if self.deagg_preference == Aggregated.DEAGG_LEAVES_FIRST:
            nodes.reverse()
        elif self.deagg_preference == Aggregated.DEAGG_MOST_STATES:
            nodes = reversed(sorted(nodes, key=lambda n: len(n.parent_ops)))
        for n in nodes:
            if len(n.parent_ops) > 1:
                return n
        raise AssertionError('no aggregated ancestor')
    ''', {'aggstrat.get_ancestors': x_ancestors, AN + 'node_left_invariant': looks('node_left_invariant', 'bool'), HAU + 'Mode.is_error': x_is_error}, dict(STR, __maps__=True, OpTransition=_OPT))
