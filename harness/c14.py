from common import *
from reach import *
from c08 import strat
BLOWUP = 1e5
RULE = 'random automata analysed with aggregation and deaggregation (all templates, policies and preferences): the concrete verdict against the exact exploration, and every split, removal and replayed successor checked; non-trivial = a split happened'
TIMEOUT = 40


def gen(rng):
    if rng.random() < .2:
        nm = rng.randint(1, 3)
        return {'kind': 'graph', 'modes': nm, 'trans': [[a, b] for a in range(nm) for b in range(nm) if rng.random() < .8] or [[0, 0]],
                'rounds': rng.randint(2, 8) if rng.random() < .9 else 25, 's': rng.randint(0, 10**6), 'agg': rng.random() < .8}
    if rng.random() < .3:
        s = gen_sys(rng, inputs=.12, nerr=1, invs=.5, max_steps=6)
    else:
        # chains: wide guards first (several successors, hence aggregation), narrower ones later
        n = rng.choice([1, 2, 2])
        k = rng.randint(2, 3)
        modes = []
        for i in range(k):
            m = {'a': gen_a(rng, n)}
            if rng.random() < .35:
                m['inv'] = [[c[0], abs(c[1]) + rng.choice([.5, 1, 3])] for c in [gen_cond(rng, n) for _ in range(rng.randint(1, 2))]]
            elif rng.random() < .12:
                m['b'], m['U'], m['u'] = gen_inputs(rng, n, 1, 1)
            modes.append(m)
        tr = []
        for i in range(k):
            for _ in range(rng.choice([1, 1, 2])):
                g = [[c[0], abs(c[1]) * rng.choice([1, 2])] for c in [gen_cond(rng, n)]] if i < k - 1 else [gen_cond(rng, n) for _ in range(rng.choice([1, 1, 2]))]
                t = {'f': i, 't': i + 1, 'guard': g if rng.random() < .8 else []}
                if rng.random() < .4:
                    r, _ = gen_reset(rng, n, n)
                    if r:
                        t['reset'] = r
                tr.append(t)
        if rng.random() < .4:
            a = rng.randrange(k)
            tr.append({'f': a, 't': rng.choice([k, rng.randrange(k)]), 'guard': [gen_cond(rng, n)]})
        rng.shuffle(tr)
        s = {'modes': modes, 'nerr': 1, 'trans': tr, 'dt': rng.choice([.1, .25, .5]), 'steps': rng.randint(2, 5),
             'init': [{'mode': 0, 'set': {'kind': 'box', 'box': gen_box(rng, n, .3)}}]}
    return {'kind': 'deagg', 'sys': s, 'strat': rng.choice(['box', 'arnoldi', 'chull']), 'pop': rng.randint(0, 2), 'same': rng.random() < .75,
            'pref': rng.randint(0, 2), 'urgent': rng.random() < .15, 'approx': 0 if rng.random() < .7 else rng.randint(1, 2)}


def run_graph(c):
    'nodes and pending work in random succession structures: the work that originates from a node is removed, and no other'
    from hylaa.core import Core
    from hylaa.settings import HylaaSettings
    rng = random.Random(c['s'])
    s = {'modes': [{'a': [[0.0]]} for _ in range(c['modes'])], 'nerr': 0, 'dt': 1.0, 'steps': 5,
         'trans': [{'f': a, 't': b, 'guard': []} for a, b in c['trans']], 'init': [{'mode': 0, 'set': {'kind': 'box', 'box': [[0.0, 1.0]]}}]}
    S = Sys(s)
    st = HylaaSettings(1.0, 5.0)
    st.stdout = 0
    st.aggstrat = strat('box')
    core = Core(S.ha, st)
    dag = core.aggdag
    with accepts('building the succession graph'):
        dag.add_init_state(S.init[0])
        dag.pop_waiting_list()
        nodes = [dag.cur_node]
        for _ in range(c['rounds']):
            for _ in range(rng.randint(1, 3)):
                n = rng.choice(nodes)
                out = [t for t in S.trans if t.from_mode is n.stateset.mode]
                if out:
                    dag.add_transition_successor(rng.choice(out), n.stateset.lpi.clone(), n.stateset, n)
            if not dag.waiting_list:
                break
            op = rng.choice(dag.waiting_list)
            grp = [x for x in dag.waiting_list if x is op or (c['agg'] and x.transition.to_mode is op.transition.to_mode and rng.random() < .5)]
            ids = set(map(id, grp))
            dag.waiting_list = [x for x in dag.waiting_list if id(x) not in ids]
            nodes.append(dag.make_node(grp, st.aggstrat.get_agg_type(grp) if len(grp) > 1 else None, 'full'))
    before = list(dag.waiting_list)
    node = rng.choice(nodes)
    todo, reach = [node], []
    while todo:
        x = todo.pop()
        if x not in reach:
            reach.append(x)
            todo += [o.child_node for o in x.op_list if o.child_node is not None]
    mine = set(id(o) for x in reach for o in x.op_list if o.child_node is None)
    with accepts('removing the pending work of a node'):
        dag.remove_node_decendants_from_waiting_list(node)
    need([id(x) for x in dag.waiting_list] == [id(x) for x in before if id(x) not in mine],
         f'{len(before)} sets pending, {len([x for x in before if id(x) in mine])} of them originate from the node, {len(before) - len(dag.waiting_list)} were removed')
    return bool(mine)


def run(c):
    if c['kind'] == 'graph':
        return run_graph(c)
    s = dict(c['sys'], strengthen=True)
    if has_kf1(s):
        raise Skip('KF1')
    o = explore(s, urgent=c['urgent'], max_nodes=40)
    S = Sys(s)
    from hylaa import aggdag as ad
    from hylaa.deaggregation import OpTransition, OpLeftInvariant, OpInvIntersect, DeaggregationManager
    from hylaa.settings import HylaaSettings
    from hylaa.core import Core
    st = HylaaSettings(s['dt'], s['dt'] * s['steps'])
    st.num_steps = s['steps']
    st.stdout = 0
    st.optimize_tt_transitions = False
    st.process_urgent_guards = c['urgent']
    st.stop_on_concrete_error = st.stop_on_aggregated_error = False
    st.make_counterexample = False
    st.aggstrat = strat(c['strat'])
    st.aggstrat.pop_type = c['pop']
    st.aggstrat.require_same_path = c['same']
    st.aggstrat.deaggregate = True
    st.aggstrat.deagg_preference = c['pref']
    core = Core(S.ha, st)
    approx = c.get('approx', 0)
    st.approx_model = approx
    if approx:    # the exact exploration only bounds the size; the reference is the analysis without aggregation
        from c15 import run_real
        _, _, ref, _ = run_real(c, s, strat('un'), approx_model=approx, stop_on_concrete_error=False, make_counterexample=False)
        if ref is None:
            return False
    N = ad.AggDagNode
    saved = N.split, ad.AggDag.remove_node_decendants_from_waiting_list, N.replay_op, DeaggregationManager.do_step_replay
    cnt = {'split': 0, 'replay': 0}

    def split(self):
        cnt['split'] += 1
        if cnt['split'] > 300:
            raise Skip('too many splits')
        ops = list(self.parent_ops)
        r = saved[0](self)
        a, b = r
        need([id(x) for x in list(a.parent_ops) + list(b.parent_ops)] == [id(x) for x in ops] and a.parent_ops and b.parent_ops, 'the parts of a split node do not partition its members')
        for part in r:
            need(all(x.child_node is part for x in part.parent_ops), 'a member of a split node does not know its part')
            if len(part.parent_ops) == 1:
                need(part.stateset is part.parent_ops[0].poststate and part.stateset.is_concrete == part.parent_ops[0].poststate.is_concrete, 'a part with one member is not that member')
            need(part.stateset.cur_step_in_mode == 0, 'a part does not start at the beginning of the mode')
        return r

    def origin(op, node, seen):
        p = op.parent_node
        if p is None or p in seen:
            return False
        if p is node:
            return True
        seen.add(p)
        return any(origin(x, node, seen) for x in p.parent_ops)

    def remove(self, node):
        before = list(self.waiting_list)
        mine = [op for op in before if origin(op, node, set())]
        saved[1](self, node)
        ids = set(map(id, mine))
        need([id(x) for x in self.waiting_list] == [id(x) for x in before if id(x) not in ids], 'not exactly the pending work of the split node was removed')

    def replay_op(self, op_list, i):
        op = op_list[i]
        cnt['replay'] += 1
        core_dm = core.aggdag.deagg_man
        n_ops = len(self.op_list)
        wl = list(core.aggdag.waiting_list)
        groups = {k: list(v) for k, v in (core_dm.nodes_to_ops or {}).items()}
        state = self.stateset
        late = state.cur_steps_since_start[0] + op.step - state.cur_step_in_mode > s['steps']
        saved[2](self, op_list, i)
        new = self.op_list[n_ops:]
        if late:
            need(not any(isinstance(x, OpTransition) for x in new), 'a part took a transition after the time bound')
            return
        if isinstance(op, OpTransition):
            need(state.cur_step_in_mode == op.step, 'a transition was replayed at the wrong step')
            # does the part take the transition?
            g = lpi_desc(state.lpi)
            gd = op.transition.guard_csr.toarray()
            g = g.meet(gd, op.transition.guard_rhs) if gd.shape[0] else g
            m = g.margin(soft=True)
            if abs(m) < 1e-5:
                raise Skip('borderline')
            need(len(new) == (1 if m > 0 else 0), f'replaying transition: margin {m}, {len(new)} successors recorded')
            if new:
                x = new[0]
                need(isinstance(x, OpTransition) and x.transition is op.transition and x.step == op.step and x.parent_node is self, 'replayed successor fields')
                if op.child_node is None:
                    need([id(q) for q in core.aggdag.waiting_list] == [id(q) for q in wl + [x]], 'an unprocessed successor was not queued exactly once')
                else:
                    need([id(q) for q in core.aggdag.waiting_list] == [id(q) for q in wl], 'the waiting list changed')
                    now = core_dm.nodes_to_ops
                    key = (self, op.child_node)
                    need([id(q) for q in now.get(key, [])] == [id(q) for q in groups.get(key, []) + [x]], 'the successor was not grouped under the successor it came from')
                    need(all(now[k] == v for k, v in groups.items() if k != key), 'other groups changed')
            else:
                need(list(core.aggdag.waiting_list) == wl, 'the waiting list changed')
        elif isinstance(op, OpLeftInvariant):
            need(self.node_left_invariant(), 'the end of the mode was not replayed')

    def dsr(self):
        before = None if self.replay_step is None else self.nodes_to_ops
        saved[3](self)
    N.split, ad.AggDag.remove_node_decendants_from_waiting_list, N.replay_op, DeaggregationManager.do_step_replay = split, remove, replay_op, dsr
    try:
        try:
            with accepts('the analysis of a well-formed automaton'):
                res = core.run(S.init)
        except Violation as e:
            if 'lgg approx model beta was too close to zero' in str(e):
                raise Skip('no input in this approximation model')
            if 'No feasible initial states' not in str(e):
                raise
            return False
    finally:
        N.split, ad.AggDag.remove_node_decendants_from_waiting_list, N.replay_op, DeaggregationManager.do_step_replay = saved
    if approx:
        need(res.has_concrete_error == ref.has_concrete_error, f'with approximation model {approx} and deaggregation the concrete verdict is {res.has_concrete_error}, without aggregation {ref.has_concrete_error}')
        return cnt['split'] > 0
    truth = bool(o['errors'])
    need(not (res.has_concrete_error and not truth), 'a concrete error is reported but no execution reaches an error mode')
    need(not (truth and not res.has_concrete_error), f'an error mode is reached ({o["errors"][:1]}) but with deaggregation no concrete error is reported (aggregated flag {res.has_aggregated_error})')
    return cnt['split'] > 0
