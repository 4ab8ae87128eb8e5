from common import *
from reach import *
RULE = 'random dynamics with clocks, constants and inputs, guards and invariants that are (nearly) opposite, state sets that are flat or not: static detection, run-time check and whole runs with every dropped set monitored; non-trivial = a transition was detected or a set dropped'


def gen_clock_a(rng, n):
    'rows: constants (all zeros), clocks (a multiple of constants), others'
    a = [[0.0] * n for _ in range(n)]
    kinds = [rng.choice(['const', 'const', 'clock', 'clock', 'other']) for _ in range(n)]
    consts = [i for i, k in enumerate(kinds) if k == 'const']
    for i, k in enumerate(kinds):
        if k == 'clock' and consts:
            for j in rng.sample(consts, rng.randint(1, min(2, len(consts)))):
                a[i][j] = float(rng.choice([1, -1, 2, .5]))
        elif k == 'other':
            a[i][rng.randrange(n)] = float(rng.choice([1, -1]))
    return a


def gen_rows(rng, n, clocks):
    r = [0.0] * n
    if clocks and rng.random() < .75:
        for j in rng.sample(clocks, rng.choice([1, 1, min(2, len(clocks))])):
            r[j] = float(rng.choice([1, -1, -1, 2]))
    else:
        r[rng.randrange(n)] = float(rng.choice([1, -1]))
    return r


def gen_auto(rng):
    nm = rng.randint(1, 3)
    modes, trans = [], []
    n = rng.randint(2, 4)
    for i in range(nm):
        a = gen_clock_a(rng, n)
        m = {'a': a, 'inv': [], 'perm': rng.random() < .3, 'zeros': rng.random() < .3}
        if rng.random() < .25:
            m['b'] = [[float(rng.choice([0, 0, 1]))] for _ in range(n)]
            m['U'], m['u'] = [[1.0], [-1.0]], [1.0, 1.0]
        modes.append(m)
    pool = []
    for _ in range(rng.randint(1, 4)):
        f = rng.randrange(nm)
        a = modes[f]['a']
        const = [j for j in range(n) if not any(a[j])]
        clocks = [j for j in range(n) if any(a[j]) and all(a[j][q] == 0 or q in const for q in range(n))]
        rows = []
        for _ in range(rng.choice([1, 1, 2])):
            if pool and rng.random() < .3:
                r, b = rng.choice(pool)
            else:
                r, b = gen_rows(rng, n, clocks), float(rng.choice([-2, -1, -.5, .5, 1, 2]))
            pool.append([r, b])
            rows.append([list(r), b])
            q = rng.random()
            opp = [[-x for x in r], -b]
            if q < .65:
                modes[f]['inv'].append(opp)
            elif q < .75:
                modes[f]['inv'].append([opp[0], opp[1] + rng.choice([.5, 1e-3])])
            elif q < .85:
                o = list(opp[0])
                o[rng.randrange(n)] += 1.0
                modes[f]['inv'].append([o, opp[1]])
            elif q < .9:
                modes[f]['inv'].append(gen_cond_(rng, n))
        trans.append({'f': f, 't': rng.randint(0, nm), 'guard': rows})
    share = rng.random() < .3
    return {'n': n, 'modes': modes, 'trans': trans, 'share': share, 'steps': rng.choice([2, 4, 10]), 'dt': rng.choice([.25, .5, 1.0])}


def gen_cond_(rng, n):
    r = [0.0] * n
    r[rng.randrange(n)] = float(rng.choice([1, -1]))
    return [r, float(rng.choice([2, 3, 5]))]


def gen_set(rng, n):
    box = []
    for _ in range(n):
        lo = float(rng.choice([-1, -.5, 0, 0, .5, 1, 1]))
        box.append([lo, lo + rng.choice([0, 0, 0, .25, 1, 1e-3])])
    return box


def gen(rng):
    k = rng.choice(['detect', 'taken', 'taken', 'run'])
    if k == 'run':
        return gen_run(rng)
    c = gen_auto(rng)
    c['kind'] = k
    if k == 'taken':
        c['box'] = gen_set(rng, c['n'])
        c['adj'] = rng.random()
    return c


def gen_run(rng):
    'clock automata: variables x (free dynamics), t (clock), a (constant)'
    nm = rng.randint(1, 3)
    dt = rng.choice([.25, .5])
    steps = rng.randint(2, 6)
    modes, trans = [], []
    for i in range(nm):
        rate = float(rng.choice([1, 1, -1, 2]))
        modes.append({'a': [[float(rng.choice([0, -.5, .5])), 0, float(rng.choice([0, 1]))], [0, 0, rate], [0, 0, 0]], 'inv': []})
    for _ in range(rng.randint(1, 4)):
        f = rng.randrange(nm)
        t = rng.randint(0, nm)
        K = dt * rng.randint(1, steps) * modes[f]['a'][1][2]
        s = float(rng.choice([1, -1]))
        rows = [[[0, s, 0], s * K]]
        if rng.random() < .3:
            rows.append([[float(rng.choice([1, -1])), 0, 0], float(rng.choice([-.3, .7, 2]))])
        tr = {'f': f, 't': t, 'guard': rows}
        if rng.random() < .7:
            modes[f]['inv'].append([[0, -s, 0], -s * K])
        if rng.random() < .6:
            tr['reset'] = {'R': [[1, 0, 0], [0, 0, 0], [0, 0, 1]]}
        trans.append(tr)
    one = [1.0, 1.0] if rng.random() < .8 else [1.0, 1.5]
    init = [{'mode': rng.randrange(nm), 'set': {'kind': 'box', 'box': [rng.choice([[0, 0], [0, .5], [-1, 1]]), [0, 0] if rng.random() < .8 else [0, dt], one]}} for _ in range(rng.choice([1, 2, 2, 3]))]
    return {'kind': 'run', 'sys': {'modes': modes, 'nerr': 1, 'trans': trans, 'init': init, 'dt': dt, 'steps': steps}, 'urgent': rng.random() < .2, 'agg': rng.random() < .4}


def fixed():
    # a set reaches the time bound in the very step in which it takes its time-triggered transition; others wait
    K = 1.0
    tt = {'f': 0, 't': 1, 'guard': [[[0, -1, 0], -K]]}
    yield {'kind': 'run', 'urgent': False, 'agg': False,
           'sys': {'modes': [{'a': [[0, 0, 0], [0, 0, 1.0], [0, 0, 0]], 'inv': [[[0, 1, 0], K]]}, {'a': [[0, 0, 1.0], [0, 0, 1.0], [0, 0, 0]]}], 'nerr': 1,
                   'trans': [tt, {'f': 1, 't': 2, 'guard': [[[-1, 0, 0], -.3]]}],
                   'init': [{'mode': 0, 'set': {'kind': 'box', 'box': [[0, 0], [0, 0], [1, 1]]}}, {'mode': 1, 'set': {'kind': 'box', 'box': [[0, 0], [0, 0], [1, 1]]}}], 'dt': .5, 'steps': 2}}


# ------------------------------------------------------------------ oracle

def zero(x):
    return all(v == 0 for v in x)


def clocks(a, b):
    n = len(a)
    const = [i for i in range(n) if zero(a[i]) and (b is None or zero(b[i]))]
    return [i for i in range(n) if not zero(a[i]) and (b is None or zero(b[i])) and all(a[i][j] == 0 or j in const for j in range(n))]


def opposite(row, rhs, inv, tol=0.0):
    return any(all(x == -y for x, y in zip(row, r)) and abs(rhs + b) <= tol for r, b in inv)


def over(row, cl):
    return all(x == 0 or j in cl for j, x in enumerate(row))


def may_drop(a, b, inv, guard, desc, eps):
    '''is there a guard condition that justifies dropping the set? True, False or None (too close to tell)'''
    best = False
    cl = clocks(a, b)
    for row, rhs in guard:
        row = np.array(row, dtype=float)
        if not over(row, cl) or not opposite(row, rhs, inv, 3 * eps):
            continue
        vars_ = [j for j in range(len(row)) if any(row[i] != 0 and a[i][j] != 0 for i in range(len(row)))]
        rs = []
        for v in vars_:
            e = np.eye(len(row))[v]
            hi, lo = desc.support(e), desc.support(-e)
            if hi is None:
                return None
            rs.append((-lo, hi))
        hi, lo = desc.support(row), -desc.support(-row)
        rate = desc.support(row @ np.array(a, dtype=float))
        g = max([h - l for l, h in rs], default=0.0)
        z = min([min(abs(l), abs(h)) for l, h in rs], default=0.0)
        if 1e-12 < g <= 3 * eps or 1e-12 < hi - lo <= 3 * eps:
            return None  # single-valued only up to the tolerance
        bad = g > 3 * eps or z < 1e-9 or hi - lo > 3 * eps or hi > rhs + 3 * eps or rate > -1e-12
        if not bad:
            return True
        best = best or False
    return best


def rows_of(t):
    return [(list(r), float(x)) for r, x in zip(t.guard_csr.toarray(), t.guard_rhs)]


def run(c):
    return run_run(c) if c['kind'] == 'run' else run_static(c)


def run_static(c):
    from scipy.sparse import csr_matrix
    from hylaa.hybrid_automaton import was_tt_taken
    n = c['n']
    ha = new_ha()
    modes = []

    def mk(rows, zeros, perm):
        data, inds, ptr = [], [], [0]
        for r in rows:
            for j in (range(n - 1, -1, -1) if perm else range(n)):
                if r[j] != 0 or zeros:
                    data.append(r[j])
                    inds.append(j)
            ptr.append(len(data))
        return csr_matrix((data, inds, ptr), shape=(len(rows), n), dtype=float)
    for i, m in enumerate(c['modes']):
        x = ha.new_mode(f'm{i}')
        with accepts('declaring a mode'):
            x.set_dynamics(mk(m['a'], m['zeros'], m['perm']))
            if m.get('b'):
                x.set_inputs(np.array(m['b']), np.array(m['U']), np.array(m['u']))
            if m['inv']:
                if not feas(m['inv']):
                    raise Skip('infeasible invariant')
                x.set_invariant(mk([r for r, _ in m['inv']], m['zeros'], m['perm']), [b for _, b in m['inv']])
        modes.append(x)
    modes.append(ha.new_mode('error'))
    ts = []
    shared = {}
    for s in c['trans']:
        if not feas(s['guard']):
            raise Skip('infeasible guard')
        t = ha.new_transition(modes[s['f']], modes[s['t']])
        rhs = np.array([b for _, b in s['guard']], dtype=float)
        if c['share']:
            rhs = shared.setdefault(tuple(rhs), rhs)
        with accepts('setting a guard'):
            t.set_guard(mk([r for r, _ in s['guard']], c['modes'][s['f']]['zeros'], False), rhs)
        ts.append(t)
    g0 = [rows_of(t) for t in ts]
    inv0 = [[(l.csr.toarray().copy(), l.rhs) for l in m.inv_list] for m in modes]
    with accepts('detecting time-triggered transitions'):
        ha.detect_tt_transitions(c['dt'], c['steps'], lambda *_: None)
    eps = c['dt'] / c['steps'] / 1000.0
    some = False
    for t, s, g in zip(ts, c['trans'], g0):
        m = c['modes'][s['f']]
        cl = clocks(m['a'], m.get('b'))
        justified = all(over(r, cl) for r, _ in m['inv']) and any(over(r, cl) and opposite(r, b, m['inv']) for r, b in g)
        now = rows_of(t)
        need(len(now) == len(g) and all(list(x[0]) == list(y[0]) for x, y in zip(now, g)), 'guard conditions changed')
        if t.time_triggered:
            some = True
            need(justified, f'transition {s} is treated as time-triggered')
        for (r, b), (_, b2) in zip(g, now):
            if t.time_triggered and over(r, cl) and opposite(r, b, m['inv']):
                need(abs(b2 - b - eps) < 1e-12, f'the time-triggered guard condition is relaxed by {b2 - b}, documented is {eps}')
            else:
                need(b2 == b, f'a guard condition that is not time-triggered was relaxed by {b2 - b}')
    for m, i0 in zip(modes, inv0):
        need(all(np.array_equal(l.csr.toarray(), x) and l.rhs == y for l, (x, y) in zip(m.inv_list, i0)), 'an invariant changed')
    if c['kind'] == 'detect':
        return some
    from hylaa import lputil
    for t, s in zip(ts, c['trans']):
        m = c['modes'][s['f']]
        box = [list(b) for b in c['box']]
        if c['adj'] < .6:
            # put the set on the guard
            r, b = s['guard'][0]
            js = [j for j in range(n) if r[j] != 0]
            if js:
                rest = sum(r[j] * box[j][0] for j in js[1:])
                v = (b - rest) / r[js[0]]
                w = box[js[0]][1] - box[js[0]][0]
                box[js[0]] = [v, v] if c['adj'] < .3 else [v - w, v + (w if c['adj'] < .4 else 0)]
        lpi = lputil.from_box([tuple(x) for x in box], modes[s['f']])
        d = box_desc(box)
        with accepts('the run-time check of a time-triggered transition'):
            got = was_tt_taken(lpi, t, c['dt'], c['steps'])
        if got:
            need(may_drop(m['a'], m.get('b'), [(list(r), b) for r, b in m['inv']], rows_of(t), d, eps) is not False, f'a set {box} is dropped as time-triggered by {s}')
            some = True
        same_set(lpi_desc(lpi), d, random.Random(3), 'the set after the run-time check')
    return some


def run_run(c):
    from hylaa.settings import HylaaSettings
    from hylaa.core import Core
    from hylaa import aggdag as ad
    from c08 import strat
    s = c['sys']
    S = Sys(s)
    st = HylaaSettings(s['dt'], s['dt'] * s['steps'])
    st.num_steps = s['steps']
    st.stdout = 0
    st.process_urgent_guards = c['urgent']
    st.stop_on_concrete_error = st.stop_on_aggregated_error = False
    st.aggstrat = strat('box' if c['agg'] else 'un')
    core = Core(S.ha, st)
    eps = s['dt'] / s['steps'] / 1000.0
    succ = []
    cur = {'state': None, 'ok': False}
    orig = ad.AggDag.make_op_transition
    orig_left = ad.AggDag.cur_state_left_invariant
    dropped = [0]
    count = [0]

    def mk(self, t, l, state, parent_node):
        succ.append(t)
        return orig(self, t, l, state, parent_node)

    class Rec(Core):
        def check_guards(self):
            count[0] += 1
            if count[0] > 150:
                raise Skip('too many sets')
            state = self.aggdag.get_cur_state()
            d = lpi_desc(state.lpi)
            del succ[:]
            Core.check_guards(self)
            took = list(succ)
            ok = False
            for t in state.mode.transitions:
                g = rows_of(t)
                m = d.meet([r for r, _ in g], [b for _, b in g]).margin(soft=True)
                if abs(m) > 1e-5:
                    need((m > 0) == any(x is t for x in took), f'{"a transition was not examined" if m > 0 else "a transition was taken although its guard is false"}')
                if any(x is t for x in took) and t.time_triggered:
                    md = s['modes'][S.index(state.mode)]
                    if may_drop(md['a'], md.get('b'), [(list(l.csr.toarray()[0]), l.rhs) for l in state.mode.inv_list], g, d, eps) is not False:
                        ok = True
            cur['state'], cur['ok'] = state, ok

        def intersect_invariant(self, state, add_ops_to_aggdag=True):
            r = Core.intersect_invariant(self, state, add_ops_to_aggdag)
            cur['inv'] = (state, r)
            return r

    def left(self, *a, **k):
        state = self.get_cur_state()
        md = state.mode
        timeb = state.cur_steps_since_start[0] >= s['steps']
        zero_dyn = md.a_csr is None or md.a_csr.nnz == 0
        inv = cur.get('inv')
        left_inv = inv is not None and inv[0] is state and not inv[1]
        if not (timeb or zero_dyn or left_inv):
            need(cur['state'] is state and cur['ok'], f'a set in mode {md.name} at {state.cur_steps_since_start} was dropped early without taking a time-triggered transition')
            dropped[0] += 1
        return orig_left(self, *a, **k)
    core.__class__ = Rec
    ad.AggDag.make_op_transition, ad.AggDag.cur_state_left_invariant = mk, left
    try:
        try:
            with accepts('the analysis of a well-formed automaton'):
                core.run(S.init)
        except Violation as e:
            if 'No feasible initial states' not in str(e):
                raise
    finally:
        ad.AggDag.make_op_transition, ad.AggDag.cur_state_left_invariant = orig, orig_left
    return dropped[0] > 0
