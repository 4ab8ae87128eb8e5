from common import *
from reach import *
RULE = 'random valid counterexamples (1-3 segments, no inputs, no additive resets) replayed, then each broken in one place; traces of random input systems checked against the exact end value; non-trivial = all'


def gen(rng):
    if rng.random() < .35:
        n = rng.randint(1, 3)
        m = rng.randint(0, 2)
        steps = rng.randint(1, 6) if rng.random() < .95 else rng.choice([12, 30, 60])
        ni = rng.choice([steps, steps, None]) if m else None
        return {'kind': 'trace', 'a': gen_a(rng, n), 'b': mat(rng, n, m) if m else None, 'x0': [num(rng) for _ in range(n)], 'dt': rng.choice([.1, .25, .5]), 'steps': steps,
                'u': [[rng.choice([0, 1, -1, .5]) for _ in range(m)] for _ in range(steps)] if ni else None, 'rep': rng.random() < .4,
                'dir': [num(rng) for _ in range(n)], 'off': rng.choice([0, .1, -1, 2]), 'samples': rng.choice([1, 3, 10, 100, 2000]), 'quick': rng.random() < .3}
    if rng.random() < .035:
        # a long stay: every one of its states is checked
        k = rng.choice([30, 110, 210, 260])
        dt = rng.choice([.1, .25])
        w = 5.5 / (k * dt)
        return {'kind': 'cex', 'segs': [{'a': [[0, w], [-w, 0]], 'steps': k, 'reset': None, 'ninv': rng.randint(0, 1), 'ng': 1}], 's': rng.randint(0, 10**6), 'dt': dt, 'break': rng.choice(['none', 'inv', 'inv', 'inv']), 'x0': [600.0, 100.0]}
    segs = []
    n = rng.randint(1, 3)
    m = rng.randint(1, 3) if rng.random() < .95 else rng.choice([6, 12])
    for i in range(m):
        n2 = rng.choice([n, n, rng.randint(1, 3)]) if i < m - 1 else n
        sg = {'a': gen_a(rng, n), 'steps': rng.choice([0, 1, 1, 2, 3, 5]), 'reset': mat(rng, n2, n) if n2 != n or rng.random() < .5 else None,
              'ninv': rng.randint(0, 2), 'ng': rng.randint(0, 2)}
        segs.append(sg)
        n = n2
    return {'kind': 'cex', 'segs': segs, 's': rng.randint(0, 10**6), 'dt': rng.choice([.1, .25, .5]), 'break': rng.choice(['none', 'none', 'end', 'start', 'guard', 'inv', 'reset'])}


def run(c):
    if c['kind'] == 'trace':
        return trace(c)
    rng = random.Random(c['s'])
    from hylaa.result import CounterExampleSegment, replay_counterexample
    from hylaa.settings import HylaaSettings
    ha = new_ha()
    segs, x = [], None
    n = len(c['segs'][0]['a'])
    x = np.array([rng.choice([-1, 0, .5, 1, 2]) for _ in range(n)], dtype=float)
    if c.get('x0'):
        x = np.array(c['x0'])
    info = []
    for sg in c['segs']:
        E, _ = step_mats(sg['a'], None, c['dt'])
        pts = [x]
        for _ in range(sg['steps']):
            pts.append(E @ pts[-1])
        end = pts[-1]
        R = sg['reset']
        nxt = end if R is None else np.array(R, dtype=float) @ end
        info.append((sg, pts, end, nxt))
        x = nxt
        if np.max(np.abs(x)) > 1e4:
            raise Skip('blow up')
    modes = []
    brk = c['break']
    bi = rng.randrange(len(info))
    broken = False
    for i, (sg, pts, end, nxt) in enumerate(info):
        inv = []
        for _ in range(sg['ninv']):
            r = [num(rng) for _ in range(len(pts[0]))]
            if not any(r):
                continue
            # the invariant holds at all but the last point (the one after the last step)
            inv.append((r, max([float(np.dot(r, p)) for p in (pts[:-1] or pts)]) + rng.choice([1e-3, .5]) * (1 + max(np.max(np.abs(p)) for p in pts))))
        if brk == 'inv' and i == bi and len(pts) > 1:
            k = rng.randrange(len(pts) - 1)
            r = [num(rng, True) for _ in range(len(pts[0]))]
            if c.get('x0'):     # only this state is outside
                r = (pts[k] / np.linalg.norm(pts[k])).tolist()
            inv.append((r, float(np.dot(r, pts[k])) - .05))
            broken = True
        if inv and not feas(inv):
            raise Skip('infeasible invariant')
        spec = {'a': sg['a'], 'inv': inv}
        modes.append(real_mode(ha, spec, f'm{i}'))
    modes.append(ha.new_mode('error'))
    ce = []
    for i, (sg, pts, end, nxt) in enumerate(info):
        t = ha.new_transition(modes[i], modes[i + 1])
        g = []
        for _ in range(sg['ng']):
            r = [num(rng) for _ in range(len(end))]
            g.append((r, float(np.dot(r, end)) + rng.choice([1e-3, .5]) * (1 + np.max(np.abs(end)))))
        if brk == 'guard' and i == bi:
            r = [num(rng, True) for _ in range(len(end))]
            g.insert(rng.randint(0, len(g)), (r, float(np.dot(r, end)) - .05))
            broken = True
        if g and not feas(g):
            raise Skip('infeasible guard')
        if g:
            t.set_guard([r for r, _ in g], [b for _, b in g])
        else:
            t.set_guard_true()
        if sg['reset'] is not None:
            t.set_reset(reset_csr=sg['reset'])
        seg = CounterExampleSegment()
        seg.mode = modes[i]
        seg.start = list(pts[0])
        seg.end = list(end)
        seg.steps = sg['steps']
        seg.outgoing_transition = t
        ce.append(seg)
    if brk == 'end' and c['segs'][bi]['steps'] >= 0:
        ce[bi].end[rng.randrange(len(ce[bi].end))] += rng.choice([.05, -1])
        broken = True
    if brk == 'start':
        # a start that the dynamics do not lead to the same end
        d = np.zeros(len(ce[bi].start))
        d[rng.randrange(len(d))] = rng.choice([.1, -1])
        E = expm(np.array(c['segs'][bi]['a']) * c['dt'] * c['segs'][bi]['steps'])
        ce[bi].start = list(np.array(ce[bi].start) + d)
        broken = np.max(np.abs(E @ d)) > 1e-2 * (1 + np.max(np.abs(ce[bi].end))) or (bi > 0)
        if not broken:
            raise Skip('contracting')
    if brk == 'reset':
        if len(ce) < 2:
            raise Skip('one segment')
        j = rng.randrange(1, len(ce))
        # a consistent trajectory from another point: only the jump is wrong
        d = np.zeros(len(ce[j].start))
        d[rng.randrange(len(d))] = rng.choice([.1, -1])
        del ce[j + 1:]
        ce[j].start = list(np.array(ce[j].start) + d)
        ce[j].end = list(expm(np.array(c['segs'][j]['a']) * c['dt'] * c['segs'][j]['steps']) @ np.array(ce[j].start))
        ce[j].mode.inv_list = []
        ce[j].outgoing_transition = ha.new_transition(ce[j].mode, modes[-1])
        ce[j].outgoing_transition.set_guard_true()
        broken = True
    st = HylaaSettings(c['dt'], c['dt'] * 500)
    if broken:
        expect_reject(lambda: replay_counterexample(ce, ha, st), f'replay of a counterexample with a wrong {brk}')
        return True
    with accepts('replaying a valid counterexample'):
        pts, times = replay_counterexample(ce, ha, st)
    need(len(pts) == len(times), 'number of states and times')
    need(all(b >= a - 1e-12 for a, b in zip(times, times[1:])), 'times decrease')
    t = 0
    k = 0
    for sg, ps, end, nxt in info:
        for j, p in enumerate(ps):
            want = t + j * c['dt']
            hit = [i for i in range(k, len(times)) if abs(times[i] - want) < 1e-9 and len(pts[i]) == len(p) and close(pts[i], p, 1e-4)]
            need(hit, f'the replay has no state {p.tolist()} at time {want} (times {times[:12]})')
            k = hit[0]
        t += sg['steps'] * c['dt']
    need(abs(times[-1] - t) < 1e-9, 'last time')
    return True


def trace(c):
    from hylaa.check_trace import check
    x = np.array(c['x0'], dtype=float)
    E, G = step_mats(c['a'], c['b'], c['dt'])
    us = c['u']
    if us is not None and c['rep']:
        us = [us[(i // 2) * 2] for i in range(len(us))]
    for k in range(c['steps']):
        x = E @ x
        if G is not None and us is not None:
            x = x + G @ np.array(us[k], dtype=float)
    if np.max(np.abs(x), initial=0) > 1e4:
        raise Skip('blow up')
    val = float(np.dot(x, c['dir']))
    end = val + c['off']
    with accepts('checking a trace'):
        states, times, data = check(np.array(c['a'], dtype=float), None if c['b'] is None else np.array(c['b'], dtype=float), c['dt'], c['dt'] * c['steps'], np.array(c['x0'], dtype=float),
                                    None if us is None else [list(u) for u in us], np.array(c['dir'], dtype=float), end, quick=c['quick'], stdout=False, approx_samples=c['samples'])
    tol = 1e-4 * (1 + abs(val))
    need(abs(data.abs_error - abs(c['off'])) < tol, f'absolute error {data.abs_error}, the true distance is {abs(c["off"])}')
    if abs(val) > 1e-3:
        need(abs(data.rel_error - abs(c['off'] / val)) < 1e-3 * (1 + abs(c['off'] / val)), f'relative error {data.rel_error}, expected {abs(c["off"] / val)}')
    need(len(states) == len(times) and close(states[0], c['x0']) and close(states[-1], x, 1e-4), 'simulated end point')
    need(abs(times[-1] - c['dt'] * c['steps']) < 1e-9 and times[0] == 0 and all(b > a - 1e-12 for a, b in zip(times, times[1:])), 'simulated times')
    return True
