from common import *
from reach import *
from pipe import *
RULE = 'vertices of random sets (full, flat, single points, far from the origin, with auxiliary variables) for index, vector and time axes; points to plot coordinates; random histories of stored plot data with position queries; whole runs with stored plots; non-trivial = a polygon, a time axis or a removal'


def gen_axis(rng, n):
    q = rng.random()
    if q < .6:
        return rng.randrange(n)
    if q < .8:
        v = [num(rng) for _ in range(n)]
        return v if any(v) else 0
    return None


def gen(rng):
    k = rng.choice(['verts', 'verts', 'verts', 'pt', 'data', 'run', 'cache', 'data', 'paths'])
    if k == 'paths':
        return {'kind': k, 'plots': rng.randint(1, 4), 's': rng.randrange(10 ** 6)}
    if k == 'cache':
        n = rng.randint(1, 3)
        axes = [[gen_axis(rng, n), gen_axis(rng, n)] for _ in range(rng.randint(1, 3))]
        axes = [[0, None] if a is None and b is None else [a, b] for a, b in axes]
        return {'kind': k, 'set': {'kind': 'box', 'box': gen_box(rng, n, .6)}, 'mode': gen_mode(rng, n, rng.choice([0, 1, 2])), 'dt': rng.choice([.25, .5]), 'axes': axes,
                'ops': [rng.choice([['step', rng.choice([1, 1, 2, 3])], ['draw', rng.randrange(len(axes))], ['draw', rng.randrange(len(axes))]]) for _ in range(rng.randint(3, 7))],
                'model': rng.choice([0, 0, 0, 1]), 'dict': rng.random() < .3, 'el': sorted([rng.randint(0, 3), rng.randint(0, 3)])}
    if k == 'pt':
        n = rng.randint(1, 3)
        return {'kind': k, 'n': n, 'p': [num(rng) for _ in range(n)], 'x': gen_axis(rng, n), 'y': gen_axis(rng, n), 't': rng.choice([0, 1, 2.5])}
    if k == 'data':
        return {'kind': k, 'plots': rng.randint(1, 3), 's': rng.randrange(10 ** 6)}
    if k == 'run':
        n = rng.randint(1, 2)
        s = gen_sys(rng, inputs=.1, dims=n, minkowski=False, resets=.2)
        for m in s['modes']:
            if len(m['a']) != n:
                return gen(rng)
        axes = [[gen_axis(rng, n), gen_axis(rng, n)] for _ in range(rng.randint(1, 2))]
        axes = [[0, None] if a is None and b is None else [a, b] for a, b in axes]      # two time axes are refused
        return {'kind': k, 'sys': s, 'axes': axes, 'strat': rng.choice(['un', 'box', 'chull']), 'dict': rng.random() < .2}
    n = rng.randint(1, 4)
    c = {'kind': k, 't': rng.choice([0.0, 1.5, [0.0, 0.0], [.5, 1.25]]), 'x': gen_axis(rng, n), 'y': gen_axis(rng, n), 's': rng.randrange(10 ** 6)}
    q = rng.random()
    if q < .35:
        c['set'] = {'kind': 'box', 'box': gen_box(rng, n, rng.choice([.2, .6, 1.0]))}
        if rng.random() < .15:
            j = rng.randrange(n)
            c['set']['box'][j] = [x + 1e6 for x in c['set']['box'][j]]
    elif q < .7:
        c['set'] = {'kind': 'zono', 'c': [num(rng) for _ in range(n)], 'g': [[num(rng) for _ in range(n)] for _ in range(rng.randint(1, 3))]}
    else:
        c['set'] = gen_setspec(rng, n)
    return c


def fixed():
    for y in (0, 1):
        yield {'kind': 'pt', 'n': 2, 'p': [1, 2], 'x': 0, 'y': y, 't': 7.0}
    yield {'kind': 'pt', 'n': 2, 'p': [1, 2], 'x': [1, 1], 'y': [0, 1], 't': 7.0}
    sq = {'kind': 'box', 'box': [[0, 1], [2, 5], [1, 1]]}
    for x, y in ((None, None), (0, None), (None, 1), ([1, 1, 0], [0, 1, 0]), (0, [0, 1, 1]), (0, 0), (2, 1), (1, 2), ([1, 0, 0], None)):
        for t in (1.5, [.5, 1.25]):
            yield {'kind': 'verts', 't': t, 'x': x, 'y': y, 'set': sq, 's': 1}
    yield {'kind': 'verts', 't': 0.0, 'x': 0, 'y': 1, 'set': {'kind': 'box', 'box': [[1e6, 1e6 + 1], [0, 1]]}, 's': 1}
    yield {'kind': 'verts', 't': 0.0, 'x': 0, 'y': 1, 'set': {'kind': 'box', 'box': [[1e6, 1e6 + 1], [1e6, 1e6 + 1]]}, 's': 1}
    yield {"kind": "cache", "set": {"kind": "box", "box": [[-2, -2], [-0.5, -0.5]]}, "mode": {"a": [[0, 0], [0, 0]], "b": [[3], [0]], "U": [[1], [-1]], "u": [2.5, -0.5]}, "dt": 0.25,
           "axes": [[0, None], [1, [3, -1]]], "ops": [["draw", 0], ["draw", 1], ["step", 1], ["step", 2], ["draw", 1], ["draw", 0]], "model": 1, "dict": False, "el": [0, 3]}
    # the flat direction does not see the ends of the segment
    for g in ([[0, 1, 1], [0, 2, -1], [0, 1, 0]], [[0, 1, 2], [0, 1, -2]], [[0, 2, 1], [0, -1, 1]]):
        for x, y in ((0, 1), (0, 2), (1, 0)):
            yield {'kind': 'verts', 't': 0.0, 'x': x, 'y': y, 'set': {'kind': 'zono', 'c': [0, 0, 0], 'g': g}, 's': 1}


def axis(a, n):
    return np.array(a, dtype=float) if isinstance(a, list) else (None if a is None else np.eye(n)[a])


def real_axis(a):
    return np.array(a, dtype=float) if isinstance(a, list) else a


def run(c):
    return {'pt': run_pt, 'verts': run_verts, 'data': run_data, 'run': run_run, 'cache': run_cache, 'paths': run_paths}[c['kind']](c)


def run_pt(c):
    from hylaa import lpplot
    with accepts('pt_to_plot_xy'):
        x, y = lpplot.pt_to_plot_xy(np.array(c['p'], dtype=float), real_axis(c['x']), real_axis(c['y']), c['t'])
    for got, a in ((x, c['x']), (y, c['y'])):
        a = axis(a, c['n'])
        want = float(c['t']) if a is None else float(np.dot(a, c['p']))
        need(close(got, want), f'plot coordinate {got}, expected {want}')
    return c['x'] is None or c['y'] is None


def times(t):
    return [float(t), float(t)] if isinstance(t, (int, float)) else [float(t[0]), float(t[1])]


def check_verts(verts, d, x, y, t, what, loose=0.0):
    'verts against the exact set d'
    V = np.array([[float(a), float(b)] for a, b in verts])
    n = d.dims
    X, Y = axis(x, n), axis(y, n)
    t0, t1 = t
    need(len(V) >= 2 and np.array_equal(V[0], V[-1]), f'{what}: the polygon is not closed')
    P = V[:-1]
    if X is None or Y is None:
        def rng_(a):
            return (t0, t1) if a is None else (-d.support(-a), d.support(a))
        (x0, x1), (y0, y1) = rng_(X), rng_(Y)
        need(np.isfinite([x0, x1, y0, y1]).all(), 'unbounded')
        if X is None and Y is None:
            # both axes are the time
            lo, hi = P.min(axis=0), P.max(axis=0)
            need(close(lo[0], t0) and close(lo[1], t0) and close(hi[0], t1) and close(hi[1], t1), f'{what}: {V.tolist()} for the time interval {t}')
            return
        corners = [(a, b) for a in (x0, x1) for b in (y0, y1)]
        for p in P:
            need(any(close(p[0], a) and close(p[1], b) for a, b in corners), f'{what}: vertex {p.tolist()} is not a corner of {[x0, x1]} x {[y0, y1]}')
        for a, b in corners:
            need(any(close(p[0], a) and close(p[1], b) for p in P), f'{what}: corner {(a, b)} is missing from {P.tolist()}')
        return
    M = np.vstack([X, Y])
    D = d.map(M)
    w = [D.support(e) + D.support(-e) for e in np.eye(2)]
    scale = 1 + max(abs(D.support(s * e)) for e in np.eye(2) for s in (1, -1))
    for p in P:
        need(D.contains(p, 1e-6), f'{what}: vertex {p.tolist()} is outside the projection')
    eps = min(max(v, 1e-5) for v in w) / 1000.0
    tol = eps * 1.01 + 3e-6 * (1 if scale < 1e3 else scale / 1e3) + loose
    if len(P) <= 2 or np.linalg.matrix_rank(P - P[0], tol=1e-7 * scale) < 2:
        dirs = [v for k in range(16) for v in [np.array([math.cos(k * math.pi / 8), math.sin(k * math.pi / 8)])]]
    else:
        from scipy.spatial import ConvexHull
        dirs = [e[:-1] for e in ConvexHull(P - P.mean(axis=0)).equations] + [np.array(v, dtype=float) for v in ([1, 0], [-1, 0], [0, 1], [0, -1])][:0]
    for v in dirs:
        s = D.support(v)
        need(s - max(P @ v) <= tol, f'{what}: the plotted region misses part of the set in direction {v.tolist()} by {s - max(P @ v)} (resolution {eps}); vertices {P.tolist()}')


def run_verts(c):
    from hylaa import lpplot
    d = set_desc(c['set'])
    if not d.feasible() or not all(np.isfinite(d.support(s * e)) for e in np.eye(d.dims) for s in (1, -1)):
        raise Skip('empty or unbounded')
    n = d.dims
    ws = []
    for a in (c['x'], c['y']):
        a = axis(a, n)
        if a is not None:
            ws.append(d.support(a) + d.support(-a))
    if any(1e-9 < w < 1e-3 for w in ws):
        raise Skip('nearly flat')
    ha = new_ha()
    m = real_mode(ha, {'a': [[0.0] * n for _ in range(n)]}, 'm')
    lpi = real_set(c['set'], m)
    # start from some other optimum, as in a run
    r = random.Random(c['s'])
    with accepts('minimizing'):
        lpi.minimize([float(r.randint(-3, 3)) for _ in range(n)])
    with accepts('get_verts'):
        v = lpplot.get_verts(lpi, xdim=real_axis(c['x']), ydim=real_axis(c['y']), cur_time=c['t'] if isinstance(c['t'], float) else list(c['t']))
    check_verts(v, d, c['x'], c['y'], times(c['t']), 'get_verts')
    same_set(lpi_desc(lpi), d, random.Random(3), 'the set after plotting')
    return True


def run_cache(c):
    'what is drawn of a state set is the set at its current step, whatever was drawn before'
    from hylaa.settings import HylaaSettings
    from hylaa.core import Core
    from hylaa.stateset import StateSet
    from hylaa.settings import LabelSettings
    ha = new_ha()
    ms = c['mode']
    m = real_mode(ha, ms, 'm')
    st = HylaaSettings(c['dt'], c['dt'] * 10)
    st.stdout = 0
    st.plot.store_plot_result = True
    ax = lambda a: {'m': real_axis(a)} if c['dict'] else real_axis(a)
    st.plot.xdim_dir = [ax(a) for a, _ in c['axes']]
    st.plot.ydim_dir = [ax(b) for _, b in c['axes']]
    st.plot.label = [LabelSettings() for _ in c['axes']]
    core = Core(ha, st)
    drawn = 0
    with accepts('drawing a state set'):
        m.init_time_elapse(c['dt'])
        s = StateSet(real_set(c['set'], m), m, list(c['el']))
        if c['model']:
            s.apply_approx_model(st.APPROX_CHULL)
    cur = list(c['el'])
    for op, k in c['ops']:
        if op == 'step':
            with accepts('a step'):
                s.step(s.cur_step_in_mode + k)
            cur = [x + k for x in cur]
            continue
        x, y = c['axes'][k]
        d = lpi_desc(s.lpi)
        ws = [d.support(axis(a, d.dims)) + d.support(-axis(a, d.dims)) for a in (x, y) if a is not None]
        if any(1e-9 < w < 1e-3 for w in ws) or any(not np.isfinite(w) or w > 1e4 for w in ws):
            continue
        with accepts('drawing a state set'):
            v = s.verts(core.plotman, k)
        check_verts(v, d, x, y, [cur[0] * c['dt'], cur[1] * c['dt']], f'subplot {k} at step {s.cur_step_in_mode}')
        drawn += 1
    return drawn > 1


def run_data(c):
    from types import SimpleNamespace as N
    from hylaa.result import PlotData
    r = random.Random(c['s'])
    k = c['plots']
    pd = PlotData(k)
    modes = [N(name=x) for x in ('a', 'b')]
    states = [N(mode=r.choice(modes), cur_step_in_mode=0) for _ in range(3)]
    model = []        # (state, step, [verts per plot])
    removed = False

    def shape():
        q = r.random()
        cx, cy, w, h = r.randint(-3, 3), r.randint(-3, 3), r.choice([.5, 1, 2]), r.choice([.5, 1, 3])
        if q < .2:
            return [[cx, cy], [cx, cy]]
        if q < .35:
            return [[cx, cy], [cx + w, cy + h], [cx, cy]]
        if q < .55:
            return [[cx, cy], [cx + w, cy], [cx, cy + h], [cx, cy]]
        v = [[cx, cy], [cx + w, cy], [cx + w, cy + h], [cx, cy + h]]
        if r.random() < .3:
            v.reverse()
        return v + [v[0]]
    for _ in range(r.randint(1, 12)):
        if model and r.random() < .35:
            i = r.randrange(len(model))
            s, step, _ = model.pop(i)
            removed = True
            with accepts('removing a plotted set'):
                pd.remove_state(s, step)
        else:
            s = r.choice(states)
            s.cur_step_in_mode += 1
            vs = [shape() for _ in range(k)]
            for i in range(k):
                with accepts('adding a plotted set'):
                    pd.add_state(s, vs[i], i)
            model.append((s, s.cur_step_in_mode, vs))
        for i in range(k):
            got = [(id(o[1]), o[2], o[0]) for l in pd.mode_to_obj_list[i].values() for o in l]
            want = [(id(s), st, vs[i]) for s, st, vs in model]
            need(sorted(got, key=str) == sorted(want, key=str), f'subplot {i} lists {[(g[1]) for g in got]} instead of {[w[1] for w in want]}')
            for name, l in pd.mode_to_obj_list[i].items():
                need(all(o[1].mode.name == name for o in l), 'a set is listed under another mode')
    for _ in range(4):
        i = r.randrange(k)
        x, y = r.randint(-8, 12) / 2 + .13, r.randint(-8, 12) / 2 + .17
        with accepts('a position query'):
            o = pd.get_plot_data(x, y, i)
        ins = [inside(vs[i], x, y) for _, _, vs in model]
        if o is None:
            need(not any(ins), f'no set found at {(x, y)}')
        else:
            need(any(q and o[0] is vs[i] and o[1] is s and o[2] == st for q, (s, st, vs) in zip(ins, model)), f'the set found at {(x, y)} does not enclose it')
    return removed


def run_paths(c):
    'a set drawn at several steps in several subplots is erased at one step, in every subplot, and stays at the others'
    from matplotlib.path import Path
    from hylaa.stateset import StateSet
    r = random.Random(c['s'])
    k = c['plots']
    m = real_mode(new_ha(), {'a': [[0.0, 1.0], [0.0, 0.0]]}, 'm')
    with accepts('making a state set'):
        sets = [StateSet(real_set({'kind': 'box', 'box': [[0, 1], [i, i + 1]]}, m), m) for i in range(2)]
    lists = [[] for _ in range(k)]        # as the collections of the subplots
    model = {}
    step = 0
    erased = False
    for _ in range(r.randint(2, 8)):
        if model and r.random() < .45:
            i, st = r.choice(sorted(model) + [(r.randrange(2), r.randrange(step + 2))])
            was = model.pop((i, st), None)
            with accepts('erasing a drawn set'):
                got = sets[i].del_plot_path(st)
            need((got is None) == (was is None), f'erasing step {st} returned {got}')
            if was is not None:
                erased = True
                need(len(got) == k and all(np.array_equal(np.array(g, dtype=float), v) for g, (_, v) in zip(got, was)), f'erasing step {st} of {k} subplots returned {got}')
                for j, (at, _) in enumerate(was):
                    v = np.array(lists[j][at].vertices, dtype=float)
                    need(len(v) < 3 or np.ptp(v, axis=0).min() == 0, f'subplot {j} still shows the erased set')
        else:
            i = r.randrange(2)
            step += 1
            sets[i].cur_step_in_mode = step
            rec = []
            for j in range(k):
                v = np.array([[j, step], [j + 1, step], [j + 1, step + 2], [j, step]], dtype=float)
                lists[j].append(Path(v.copy()))
                with accepts('drawing a set'):
                    sets[i].set_plot_path(j, lists[j], len(lists[j]) - 1)
                rec.append((len(lists[j]) - 1, v))
            model[i, step] = rec
        for rec in model.values():
            for j, (at, v) in enumerate(rec):
                need(np.array_equal(lists[j][at].vertices, v), f'a set that is still drawn disappeared from subplot {j}')
    return erased


def inside(v, x, y):
    if len(v) < 4:
        return False
    s = [(b[0] - a[0]) * (y - a[1]) - (b[1] - a[1]) * (x - a[0]) for a, b in zip(v, v[1:])]
    return all(q > 0 for q in s) or all(q < 0 for q in s)


def run_run(c):
    from hylaa.settings import HylaaSettings
    from hylaa.core import Core
    from hylaa import result as rs
    from c08 import strat
    s = c['sys']
    explore(dict(s, strengthen=True), max_nodes=25)
    S = Sys(s)
    st = HylaaSettings(s['dt'], s['dt'] * s['steps'])
    st.num_steps = s['steps']
    st.stdout = 0
    st.stop_on_concrete_error = st.stop_on_aggregated_error = False
    st.aggstrat = strat(c['strat'])
    st.plot.store_plot_result = True

    def ax(a):
        a = real_axis(a)
        return {m.name: a for m in S.modes} if c['dict'] else a
    st.plot.xdim_dir = [ax(a) for a, _ in c['axes']]
    st.plot.ydim_dir = [ax(b) for _, b in c['axes']]
    from hylaa.settings import LabelSettings
    st.plot.label = [LabelSettings() for _ in c['axes']]
    core = Core(S.ha, st)
    seen = []
    orig = rs.PlotData.add_state

    def add(self, state, verts, plot_index):
        seen.append((state, state.cur_step_in_mode, tuple(state.cur_steps_since_start), plot_index, verts, lpi_desc(state.lpi)))
        return orig(self, state, verts, plot_index)
    rs.PlotData.add_state = add
    try:
        with accepts('a run that stores the plots'):
            res = core.run(S.init)
    except Violation as e:
        if 'No feasible initial states' in str(e):
            return False
        raise
    finally:
        rs.PlotData.add_state = orig
    pd = res.plot_data
    for i in range(len(c['axes'])):
        objs = [o for l in pd.mode_to_obj_list[i].values() for o in l]
        keys = [(id(o[1]), o[2]) for o in objs]
        need(len(set(keys)) == len(keys), 'a plotted set is listed twice')
        need(sorted(keys) == sorted((id(x[0]), x[1]) for x in seen if x[3] == i), 'plotted sets are missing from the stored data')
    need(len(pd.mode_to_obj_list) == len(c['axes']), 'number of subplots')
    r = random.Random(1)
    for state, _, el, i, verts, d in (seen if len(seen) < 8 else r.sample(seen, 8)):
        x, y = c['axes'][i]
        ws = [d.support(axis(a, d.dims)) + d.support(-axis(a, d.dims)) for a in (x, y) if a is not None]
        if any(1e-9 < w < 1e-3 for w in ws):
            continue
        check_verts(verts, d, x, y, [el[0] * s['dt'], el[1] * s['dt']], 'a stored plot')
    return len(seen) > 1
