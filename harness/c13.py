from common import *
from reach import *
from c08 import strat
BLOWUP = 1e5
RULE = 'random waiting lists (modes, error modes, initial entries, parents, transitions, elapsed intervals) through AggDag.pop_waiting_list under every policy until empty, and whole runs with every insertion and removal recorded; non-trivial = a group of two or more, or a run with a transition'


def gen(rng):
    if rng.random() < .7:
        m = rng.randint(1, 8) if rng.random() < .93 else rng.choice([13, 25])
        nm = rng.randint(1, 3)
        hom = m > 8 and rng.random() < .5      # one large group
        if hom:
            nm = 1
        return {'kind': 'list', 'names': rng.sample(['a', 'b', 'c', 'zz'], nm), 'err': [rng.random() < .25 for _ in range(nm)],
                'ops': [[rng.randrange(nm), 0 if hom and rng.random() < .95 else rng.choice([-1, 0, 0, 1, 1, 2]), 0 if hom else rng.randrange(2), sorted([rng.randint(0, 4), rng.randint(0, 4)]), rng.random() < .5] for _ in range(m)],
                'pop': rng.randint(0, 2), 'same': rng.random() < .6, 'un': rng.random() < .2, 'sub': rng.random() < .3}
    return {'kind': 'run', 'sys': gen_sys(rng, inputs=.2), 'strat': rng.choice(['un', 'box', 'arnoldi', 'chull']), 'pop': rng.randint(0, 2), 'same': rng.random() < .6,
            'urgent': rng.random() < .2}


def score(c, st):
    a, b = st
    return [-a, -(a + b), b][c['pop']]


def check_pop(c, un, before, group, after, info):
    'info(op) -> (mode, elapsed, transition, parent, is_error); identity comparisons'
    ids = lambda l: [id(x) for x in l]
    need(len(group) >= 1, 'nothing was popped')
    need(len(set(ids(group))) == len(group), 'an entry was popped twice')
    need(all(id(g) in ids(before) for g in group), 'popped an entry that was not on the list')
    need(ids(after) == [id(x) for x in before if id(x) not in ids(group)], 'the other entries were not kept in order')
    pos = [ids(before).index(id(g)) for g in group]
    need(pos == sorted(pos), 'the group is not in waiting list order')
    I = [info(x) for x in before]
    G = [info(x) for x in group]
    need(all(g[0] is G[0][0] for g in G), 'sets of different modes are popped together')
    if any(g[3] is None for g in G) or G[0][4]:
        need(len(G) == 1, 'an initial or error-mode set is not popped alone')
    if un:
        need(len(group) == 1 and group[0] is before[0], 'without aggregation the first entry is popped, alone')
        return
    best = max(score(c, i[1]) for i in I)
    tops = [i for i in I if score(c, i[1]) == best]
    if c['same']:
        need(all(g[2] is G[0][2] and g[3] is G[0][3] for g in G), 'sets that came along different paths are popped together')
    if len(G) == 1 and (G[0][4] or G[0][3] is None):
        # popped alone: the best entry is one that would have been in its group
        need(any(i[0] is G[0][0] for i in tops), 'popped from a mode without a best-scored entry')
        return
    need(any(score(c, g[1]) == best for g in G), f'the popped group {[(g[1]) for g in G]} does not contain a best-scored entry ({[i[1] for i in tops]})')
    # everything that will be aggregated with it is taken
    for b, i in zip(before, I):
        if i[0] is G[0][0] and (not c['same'] or (i[2] is G[0][2] and i[3] is G[0][3])) and not (i[3] is None):
            need(id(b) in ids(group), 'an entry of the group stayed behind')


def run(c):
    from types import SimpleNamespace as N
    from hylaa.deaggregation import OpTransition
    from hylaa import aggdag as ad
    if c['kind'] == 'list':
        modes = [N(name=n, a_csr=None if e else 1, is_error=lambda e=e: e) for n, e in zip(c['names'], c['err'])]
        parents = [object() for _ in range(3)]
        trans = {}
        wl = []
        for mi, pi, ti, el, conc in c['ops']:
            st = N(mode=modes[mi], cur_steps_since_start=list(el), is_concrete=conc)
            t = None if pi < 0 else trans.setdefault((mi, pi, ti), N(to_mode=modes[mi]))
            wl.append(OpTransition(0, None if pi < 0 else parents[pi], None, t, st))
        s = strat('un' if c['un'] else 'box')
        if not c['un']:
            s.pop_type = c['pop']
            s.require_same_path = c['same']
        made = []

        class D(ad.AggDag):
            def make_node(self, ops, agg_type, aggstring):
                made.append((list(ops), agg_type, aggstring))
                return N(get_cur_state=lambda: 'state')
        core = N(print_verbose=lambda *_: None)
        d = D(N(aggstrat=s, stdout=0), core)
        d.waiting_list = list(wl)
        info = lambda op: (op.poststate.mode, tuple(op.poststate.cur_steps_since_start), op.transition, op.parent_node, op.poststate.mode.a_csr is None)
        big = False
        n = 0
        while d.waiting_list:
            before = list(d.waiting_list)
            n += 1
            need(n <= len(wl), 'more pops than entries')
            with accepts('popping the waiting list'):
                r = d.pop_waiting_list()
            need(len(made) == n and r == 'state' and d.cur_node is not None, 'one node is made per pop')
            g, at, _ = made[-1]
            check_pop(c, c['un'], before, g, d.waiting_list, info)
            need((at is not None) == (len(g) > 1), 'aggregation type given exactly for groups')
            big |= len(g) > 1
        return big
    from hylaa.settings import HylaaSettings
    from hylaa.core import Core
    s = dict(c['sys'], strengthen=True)
    explore(s, urgent=c['urgent'], max_nodes=60)    # skip automata with too many sets
    S = Sys(s)
    st = HylaaSettings(s['dt'], s['dt'] * s['steps'])
    st.num_steps = s['steps']
    st.stdout = 0
    st.optimize_tt_transitions = False
    st.process_urgent_guards = c['urgent']
    st.stop_on_concrete_error = st.stop_on_aggregated_error = False
    st.aggstrat = strat(c['strat'])
    un = c['strat'] == 'un'
    if not un:
        st.aggstrat.pop_type = c['pop']
        st.aggstrat.require_same_path = c['same']
    core = Core(S.ha, st)
    made, popped, found, kept = [], [], [], []
    o1, o2, o3 = ad.AggDag.make_op_transition, ad.AggDag.pop_waiting_list, ad.AggDag.add_init_state
    info = lambda op: (op.poststate.mode, tuple(op.poststate.cur_steps_since_start), op.transition, op.parent_node, op.poststate.mode.a_csr is None)

    def mk(self, t, l, state, node):
        op = o1(self, t, l, state, node)
        if op:
            made.append(op)
        return op

    def pop(self):
        before = list(self.waiting_list)
        need(len(set(map(id, before))) == len(before), 'an entry is on the waiting list twice')
        for op in before:
            need(not any(op is p for p in popped), 'a popped entry is on the waiting list again')
        r = o2(self)
        ids = set(map(id, self.waiting_list))
        g = [x for x in before if id(x) not in ids]
        check_pop(c, un, before, g, self.waiting_list, info)
        need(all(op.child_node is self.cur_node for op in g) and list(self.cur_node.parent_ops) == g, 'the new node does not record the popped group')
        if len(g) == 1:
            need(r is g[0].poststate, 'a set popped alone is not the one analysed')
        popped.extend(g)
        return r

    def init(self, state):
        k = len(self.waiting_list)
        o3(self, state)
        need(len(self.waiting_list) == k + 1 and self.waiting_list[-1].poststate is state, 'an initial set was not queued once')
        made.append(self.waiting_list[-1])
    ad.AggDag.make_op_transition, ad.AggDag.pop_waiting_list, ad.AggDag.add_init_state = mk, pop, init
    try:
        try:
            with accepts('the analysis of a well-formed automaton'):
                core.run(S.init)
        except Violation as e:
            if 'No feasible initial states' not in str(e):
                raise
            return False
    finally:
        ad.AggDag.make_op_transition, ad.AggDag.pop_waiting_list, ad.AggDag.add_init_state = o1, o2, o3
    need(len(made) == len(popped) and set(map(id, made)) == set(map(id, popped)), f'{len(made)} sets were found, {len(popped)} popped')
    feasible_inits = [x for x in S.init if any(o.poststate is x for o in made)]
    for x in S.init:
        k = sum(o.poststate is x for o in made)
        need(k <= 1, 'an initial set was queued twice')
    return len(made) > len(feasible_inits)
