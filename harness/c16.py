from common import *
from reach import *
from pipe import hull_desc
from c08 import strat
BLOWUP = 1e5
RULE = 'random automata with a reachable error mode (with and without aggregation, deaggregation, inputs, resets, five kinds of initial sets): the reported counterexample replayed step by step with an independent matrix exponential; non-trivial = a counterexample is reported'
TIMEOUT = 40


def fixed():
    # KF1: the invariant recorded at step 1 later constrains the wrong input
    yield {'kind': 'un', 'sys': {'modes': [{'a': [[0]], 'b': [[1]], 'U': [[1], [-1]], 'u': [1, 1], 'inv': [[[1], .5]]}], 'nerr': 1, 'trans': [{'f': 0, 't': 1, 'guard': [[[-1], -1.45]]}],
                                   'init': [{'mode': 0, 'set': {'kind': 'box', 'box': [[0, 0]]}}], 'dt': 1.0, 'steps': 2}, 'urgent': False, 'strat': 'un', 'deagg': False, 'pop': 0, 'same': True, 'approx': 0,
           'stop': True, 'skip_zero': True}


def gen_init(rng, n):
    k = rng.random()
    if k < .4:
        return {'kind': 'box', 'box': gen_box(rng, n, .2)}
    if k < .6:
        return gen_setspec(rng, n)
    if k < .8:
        c, g = gen_zono(rng, n)
        return {'kind': 'zono', 'c': c, 'g': g}
    return {'kind': rng.choice(['hull', 'sum']), 'a': gen_setspec(rng, n), 'b': gen_setspec(rng, n)}


def idesc(q):
    if q['kind'] == 'hull':
        return hull_desc([set_desc(q['a']), set_desc(q['b'])])
    if q['kind'] == 'sum':
        return set_desc(q['a']).plus(set_desc(q['b']))
    return set_desc(q)


def gen(rng):
    ag = rng.random() < .35
    s = gen_sys(rng, inputs=.3, nerr=1, invs=.4, resets=.6, max_steps=6)
    if rng.random() < .3:
        # a chain of modes that is taken to its end
        nm = rng.randint(2, 4)
        dims = [rng.randint(1, 2) for _ in range(nm)]
        modes = []
        for n in dims:
            m = {'a': gen_a(rng, n)}
            if rng.random() < .25:
                m['b'], m['U'], m['u'] = gen_inputs(rng, n, 1, 1)
            modes.append(m)
        trans = []
        for i in range(nm):
            n, k = dims[i], dims[i + 1] if i + 1 < nm else dims[i]
            t = {'f': i, 't': i + 1, 'guard': [gen_cond(rng, n)] if rng.random() < .5 else []}
            for j, (v, r) in enumerate(t['guard']):
                t['guard'][j] = [v, abs(r) + 1]
            if n != k or rng.random() < .85:
                r, _ = gen_reset(rng, n, k)
                if n != k and 'R' not in r:
                    r['R'] = mat(rng, k, n)
                if 'M' not in r and rng.random() < .6:
                    w = rng.choice([.25, .5, 1])
                    r.update(M=[[1.0] for _ in range(k)], C=[[1.0], [-1.0]], d=[w, w / 2])
                if r:
                    t['reset'] = r
            trans.append(t)
        s = {'modes': modes, 'nerr': 1, 'trans': trans, 'dt': rng.choice([.1, .25, .5]), 'steps': rng.randint(2, 6),
             'init': [{'mode': 0, 'set': {'kind': 'box', 'box': gen_box(rng, dims[0], .3)}}]}
    nm = len(s['modes'])
    # several modes before the error: chain transitions, error guards of the last mode
    if rng.random() < .6:
        for t in s['trans']:
            if t['t'] == nm and t['f'] != nm - 1 and rng.random() < .7:
                t['t'] = t['f']
                if t.get('reset') and 'R' in t['reset'] and len(t['reset']['R']) != len(s['modes'][t['f']]['a']):
                    t.pop('reset')
    for q in s['init']:
        q['set'] = gen_init(rng, len(s['modes'][q['mode']]['a']))
    if rng.random() < .15:
        s = pad_sys(rng, s)
    return {'kind': 'agg' if ag else 'un', 'sys': s, 'urgent': rng.random() < .2, 'strat': rng.choice(['box', 'arnoldi', 'chull']) if ag else 'un', 'deagg': rng.random() < .8,
            'pop': rng.randint(0, 2), 'same': rng.random() < .8, 'approx': 0 if rng.random() < .93 else rng.randint(1, 2), 'stop': rng.random() < .7, 'skip_zero': rng.random() < .7}


def run(c):
    s = dict(c['sys'], strengthen=True, skip_zero=c['skip_zero'])
    descs = [idesc(q['set']) for q in s['init']]
    s2 = dict(s)
    # the exploration only serves to bound the size
    s2['init'] = [{'mode': q['mode'], 'set': {'kind': 'box', 'box': [[-d.support(-np.eye(d.dims)[i]), d.support(np.eye(d.dims)[i])] for i in range(d.dims)]}} for q, d in zip(s['init'], descs)]
    try:
        explore(s2, urgent=c['urgent'], max_nodes=40)
    except Skip as e:
        if 'too many' in str(e):
            raise
    from hylaa import lputil
    from hylaa.settings import HylaaSettings
    from hylaa.core import Core
    from hylaa.stateset import StateSet
    s3 = dict(s, init=[])
    S = Sys(s3)
    init = []
    for q in s['init']:
        m, z = S.modes[q['mode']], q['set']
        with accepts('building an initial set'):
            if z['kind'] in ('hull', 'sum'):
                l = [real_set(z['a'], m), real_set(z['b'], m)]
                lpi = lputil.aggregate_chull(l, m) if z['kind'] == 'hull' else lputil.minkowski_sum(l, m)
            else:
                lpi = real_set(z, m)
        init.append(StateSet(lpi, m))
    st = HylaaSettings(s['dt'], s['dt'] * s['steps'])
    st.num_steps = s['steps']
    st.stdout = 0
    st.optimize_tt_transitions = False
    st.process_urgent_guards = c['urgent']
    st.stop_on_concrete_error = c['stop']
    st.stop_on_aggregated_error = False
    st.skip_zero_dynamics_modes = c['skip_zero']
    st.approx_model = c['approx']
    st.aggstrat = strat(c['strat'])
    if c['strat'] != 'un':
        st.aggstrat.pop_type = c['pop']
        st.aggstrat.require_same_path = c['same']
        st.aggstrat.deaggregate = c['deagg']
    core = Core(S.ha, st)
    try:
        with accepts('the analysis of a well-formed automaton'):
            res = core.run(init)
    except Violation as e:
        if 'No feasible initial states' in str(e):
            return False
        raise
    if not res.has_concrete_error:
        need(not res.counterexample, 'a counterexample is reported without a concrete error')
        return False
    if not res.counterexample:
        need(c['approx'] != 0, 'a concrete error is reported without a counterexample')
        return False
    if c['approx']:
        return False
    validate(s, S, descs, res.counterexample)
    return True


def validate(s, S, descs, ce):
    modes, trans = S.modes, S.trans
    tol = 1e-4
    ok = lambda a, b: close(a, b, tol)
    try:
        total = 0
        for i, seg in enumerate(ce):
            need(seg.mode in modes and not seg.mode.is_error(), 'segment mode')
            mi = modes.index(seg.mode)
            ms = s['modes'][mi]
            n = len(ms['a'])
            need(len(seg.start) == n and len(seg.end) == n, f'segment {i}: state has {len(seg.start)} / {len(seg.end)} values, the mode has {n}')
            need(int(seg.steps) == seg.steps and seg.steps >= 0, f'number of steps {seg.steps}')
            total += seg.steps
            E, G = step_mats(ms['a'], ms.get('b'), s['dt'])
            if G is not None:
                need(len(seg.inputs) == seg.steps, f'segment {i}: {len(seg.inputs)} inputs for {seg.steps} steps')
            else:
                need(len(seg.inputs) == 0, 'inputs in a mode without inputs')
            x = np.array(seg.start, dtype=float)
            inv = ms.get('inv') or []
            for k in range(seg.steps):
                for r, b in inv:
                    need(np.dot(r, x) <= b + tol * (1 + abs(b)), f'segment {i}: invariant violated before step {k + 1}')
                x = E @ x
                if G is not None:
                    u = np.array(seg.inputs[k], dtype=float)
                    need(u.shape == (G.shape[1],), 'size of an input')
                    need(np.all(np.array(ms['U']) @ u <= np.array(ms['u']) + tol), f'segment {i}: input {u} of step {k + 1} is not allowed')
                    x = x + G @ u
            need(ok(x, seg.end), f'segment {i}: the dynamics lead from {list(seg.start)} in {seg.steps} steps to {x.tolist()}, not to {list(seg.end)}')
            if i == 0:
                need(any(q['mode'] == mi and d.contains(seg.start, tol) for q, d in zip(s['init'], descs)), f'the counterexample starts at {list(seg.start)} in {seg.mode.name}, outside every initial set')
            need(seg.outgoing_transition in trans, f'segment {i} has no outgoing transition')
            ti = trans.index(seg.outgoing_transition)
            t = s['trans'][ti]
            need(t['f'] == mi, f'segment {i}: the transition does not leave this mode')
            for r, b in t['guard']:
                need(np.dot(r, seg.end) <= b + tol * (1 + abs(b)), f'segment {i}: guard not enabled at {list(seg.end)}')
            r = t.get('reset') or {}
            y = np.array(r['R'], dtype=float) @ seg.end if 'R' in r else np.array(seg.end, dtype=float)
            if 'M' in r and len(r['M'][0]):
                if i + 1 < len(ce):
                    mv = np.array(seg.reset_minkowski_vars, dtype=float)
                    need(mv.shape == (len(r['M'][0]),), f'segment {i}: {len(mv)} additive reset values, expected {len(r["M"][0])}')
                    need(np.all(np.array(r['C']) @ mv <= np.array(r['d']) + tol), 'additive reset values not allowed')
                    y = y + np.array(r['M']) @ mv
            elif i + 1 < len(ce):
                need(len(seg.reset_minkowski_vars) == 0, 'additive reset values without an additive term')
            if i + 1 < len(ce):
                need(t['t'] == modes.index(ce[i + 1].mode), f'segment {i}: the transition leads to another mode')
                need(ok(y, ce[i + 1].start), f'segment {i}: the reset image {y.tolist()} is not the next start state {list(ce[i + 1].start)}')
            else:
                need(t['t'] >= len(s['modes']), 'the last transition does not lead to an error mode')
        need(total <= s['steps'], f'the counterexample has {total} steps, the bound is {s["steps"]}')
    except Violation as e:
        if has_kf1(s) and any(seg.mode.b_csr is not None and seg.mode.inv_list for seg in ce) and 'invariant violated' in str(e):
            raise Known('KF1', str(e))
        raise
