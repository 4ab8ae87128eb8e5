from common import *
from pipe import *
RULE = 'random predecessor sets, guards and resets (identity, projections, lifts, Minkowski terms) through AggDag.make_op_transition, compared with the exact reset image, then stepped in the new mode; non-trivial = non-identity reset'


def gen(rng):
    p = gen_pipe(rng, maxops=2)
    n = len(p['mode']['a'])
    for op in p['ops']:
        if op[0] == 'reset':
            n = len(op[2]['a'])
    r, n2 = gen_reset(rng, n)
    err = rng.random() < .25
    c = {'kind': 'error' if err else 'normal', 'pipe': p, 'reset': r, 'to': gen_mode(rng, n2), 'err': err, 's': rng.randint(0, 10**6),
         'elapsed': rng.choice([[0, 0], [2, 2], [1, 4]]), 'concrete': rng.random() < .5, 'strat': rng.choice(['un', 'box', 'arnoldi', 'chull']),
         'guard': [] if rng.random() < .5 else [[[num(rng) for _ in range(n)], rng.choice([0, .5, 1, 3])]], 'steps': rng.randint(0, 2)}
    if err and n2 != n:
        c['kind'] = 'normal'; c['err'] = False
    if n2 == n and 'R' not in r and not r.get('M') and rng.random() < .5:
        c['noset'] = True
    return c


def strat(name, **kw):
    from hylaa.aggstrat import Aggregated, Unaggregated
    if name == 'un':
        return Unaggregated()
    a = Aggregated(agg_type={'box': Aggregated.AGG_BOX, 'arnoldi': Aggregated.AGG_ARNOLDI_BOX, 'chull': Aggregated.AGG_CONVEX_HULL}[name])
    for k, v in kw.items():
        setattr(a, k, v)
    return a


def run(c):
    rng = random.Random(c['s'])
    from hylaa.time_elapse import TimeElapser
    b = build(c['pipe'])
    st = b.state
    n = b.desc.dims
    if c['reset'].get('R') and len(c['reset']['R'][0]) != n:
        raise Skip('dims')
    ha = b.ha
    for _ in range(rng.randint(0, 2)):   # other transitions first: transition_index > 0
        ha.new_transition(b.mode, ha.new_mode(f'other{len(ha.modes)}'))
    if c['err']:
        to = ha.new_mode('target')
    else:
        with accepts('declaring a mode'):
            to = real_mode(ha, c['to'], 'target')
            to.time_elapse = TimeElapser(to, c['pipe']['dt'])
    t = ha.new_transition(b.mode, to)
    r = c['reset']
    with accepts('declaring a well-formed transition'):
        if c['guard']:
            t.set_guard([x for x, _ in c['guard']], [y for _, y in c['guard']])
        else:
            t.set_guard_true()
        if not c.get('noset'):
            t.set_reset(reset_csr=r.get('R') if 'R' in r else None, reset_minkowski_csr=r.get('M'),
                        reset_minkowski_constraints_csr=r.get('C'), reset_minkowski_constraints_rhs=r.get('d'))
    d = b.desc.meet([x for x, _ in c['guard']], [y for _, y in c['guard']]) if c['guard'] else b.desc
    if d.margin() < 1e-5:
        raise Skip('guard not enabled')
    st.cur_steps_since_start = list(c['elapsed'])
    st.is_concrete = c['concrete']
    core = real_core(ha, aggstrat=strat(c['strat']), dt=c['pipe']['dt'])
    before = Raw(st.lpi)
    stepno = st.cur_step_in_mode
    tl = t.get_guard_intersection(st.lpi)
    need(tl is not None, 'guard intersection lost the set')
    node = object()
    with accepts('computing the discrete successor'):
        op = core.aggdag.make_op_transition(t, tl, st, node)
    need(op is not None, 'no successor was made')
    need(Raw(st.lpi).same(before, objective=False), 'the predecessor set was changed')
    need(st.cur_step_in_mode == stepno and list(st.cur_steps_since_start) == c['elapsed'] and st.is_concrete == c['concrete'], 'the predecessor bookkeeping was changed')
    ps = op.poststate
    need(op.step == stepno and op.parent_node is node and op.child_node is None and op.transition is t, 'successor operation fields')
    need(ps.mode is to and ps.cur_step_in_mode == 0, 'successor does not start at step zero of the target mode')
    need(list(ps.cur_steps_since_start) == c['elapsed'], f'successor elapsed steps {ps.cur_steps_since_start}, predecessor {c["elapsed"]}')
    need(ps.is_concrete == c['concrete'], 'exactness flag of the successor')
    need(list(ps.aggdag_op_list) == [op], 'successor does not record the operation that created it')
    need(ps.cur_steps_since_start is not st.cur_steps_since_start, 'successor shares the elapsed-step list of its predecessor')
    if c['strat'] == 'arnoldi':
        for i in range(n):
            e = np.eye(n)[i]
            want = (d.support(e) - d.support(-e)) / 2
            need(abs(op.premode_center[i] - want) < 1e-4 * (1 + abs(want)), f'recorded centre {op.premode_center[i]} of dimension {i}, expected {want}')
    img = reset_desc(d, r)
    same_set(lpi_desc(ps.lpi), img, rng, f'reset image (reset {r}, error mode {c["err"]})')
    raw = Raw(ps.lpi)
    if not c['err']:
        need(ps.input_effects_list == ([] if c['to'].get('b') else None), 'input effects of the new mode')
        # initial variables of the new mode are the image too, and the new mode steps correctly
        (au, bu), (ae, be) = raw.split()
        M = np.zeros((raw.dims, raw.cols))
        for i in range(raw.dims):
            M[i, ps.lpi.basis_mat_pos[1] + i] = 1
        same_set(Desc(M, np.zeros(raw.dims), au, bu, ae, be), img, rng, 'initial states of the new mode', extra=2)
        tr = Traj(img, c['to'], c['pipe']['dt'])
        for k in range(c['steps']):
            with accepts('step in the new mode'):
                ps.step()
            tr.step()
            same_set(lpi_desc(ps.lpi), tr.d, rng, f'successor after {k + 1} steps in the new mode', extra=3)
        need(list(st.cur_steps_since_start) == c['elapsed'], 'stepping the successor advanced the predecessor')
    return bool(r)
