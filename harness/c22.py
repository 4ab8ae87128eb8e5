from common import *
from reach import *
RULE = 'random input-free automata, boxes, numbers of simulations, strategies and settings: every queued trajectory and every point it visits against an exact trajectory oracle; non-trivial = a transition is taken'


def gen(rng):
    s = gen_sys(rng, inputs=0, minkowski=False, invs=.5, maxmodes=3, max_steps=8)
    if rng.random() < .5:
        # give one mode a few variables that trigger often
        for t in s['trans']:
            if rng.random() < .4:
                t['guard'] = []
    i = s['init'][0]
    for b in i['set']['box']:
        if rng.random() < .7:
            b[1] = b[0] + rng.choice([.5, 1, 2])
    return {'sys': dict(s, init=[i]), 'n': rng.choice([1, 2, 3, 5, [1, 4], [2, 3], [0, 2]]) if rng.random() < .96 else rng.choice([12, [3, 11]]), 'strat': rng.choice(['un', 'box', 'arnoldi']), 'avoid': rng.random() < .25,
            'urgent': rng.random() < .3, 'strengthen': rng.random() < .5, 'seed': rng.randrange(10 ** 6)}


def fixed():
    # two trajectories of the same mode whose guard holds at the start: neither may leave before its first step
    yield {'sys': {'modes': [{'a': [[0.0, 1.0], [0.0, 0.0]]}, {'a': [[0.0, 0.0], [0.0, 0.0]]}], 'nerr': 0, 'trans': [{'f': 0, 't': 1, 'guard': []}],
                   'init': [{'mode': 0, 'set': {'kind': 'box', 'box': [[0, 1], [1, 1]]}}], 'dt': .5, 'steps': 3},
           'n': 3, 'strat': 'box', 'avoid': False, 'urgent': False, 'strengthen': False, 'seed': 5}


class Close(Exception):
    pass


def holds(conds, p):
    for r, b in conds:
        m = b - float(np.dot(r, p))
        if abs(m) < 1e-8 and any(r):
            raise Skip('borderline')
        if m < 0:
            return False
    return True


def oracle(c, s, p0, E):
    'the entries of one trajectory: [(mode, steps at entry, [points at the visited steps], reset image or None)]'
    out = []
    mode, p, k = s['init'][0]['mode'], np.array(p0, dtype=float), 0
    nm = len(s['modes'])
    inv = lambda i: [(r, b) for r, b in (s['modes'][i].get('inv') or [])]
    for _ in range(60):
        pts = [p]
        entry = k
        tryg = c['urgent']
        nxt = None
        while True:
            if k == s['steps']:
                break
            if tryg:
                for t in s['trans']:
                    if t['f'] != mode:
                        continue
                    g = list(t['guard'])
                    if c['strengthen'] and t['t'] != mode and not t.get('reset') and t['t'] < nm:
                        g += inv(t['t'])
                    if holds(g, p):
                        nxt = t
                        break
                if nxt:
                    break
            if not holds(inv(mode), p):
                break
            tryg = True
            p = E[mode] @ p
            k += 1
            pts.append(p)
        post = None
        if nxt:
            R = (nxt.get('reset') or {}).get('R')
            post = p if R is None else np.array(R, dtype=float) @ p
        out.append((mode, entry, pts, post))
        if not nxt or nxt['t'] >= nm:
            return out
        mode, p = nxt['t'], post
    raise Skip('too many transitions without time passing')


def run(c):
    from hylaa.settings import HylaaSettings
    from hylaa.core import Core
    from c08 import strat
    s = c['sys']
    S = Sys(dict(s, init=[]))
    st = HylaaSettings(s['dt'], s['dt'] * s['steps'])
    st.num_steps = s['steps']
    st.stdout = 0
    st.optimize_tt_transitions = False
    st.process_urgent_guards = c['urgent']
    st.do_guard_strengthening = c['strengthen']
    st.aggstrat = strat(c['strat'])
    if c['avoid'] and c['strat'] != 'un':
        st.aggstrat.sim_avoid_modes = ['m0']
    st.plot.plot_mode = st.plot.PLOT_IMAGE
    core = Core(S.ha, st)
    queued = []      # every object ever seen, in order of appearance
    seen = {}

    class Plot:
        'stands in for the drawing; runs the simulation to the end'
        num_subplots = 1

        def create_plot(self):
            pass

        def pause(self):
            pass

        def commit_cur_sims(self):
            pass

        def state_popped(self):
            pass

        def note(self, pops):
            objs = [o for o in core.sim_states or [] if o is not None]
            for o in list(core.sim_waiting_list) + objs:
                if id(o) not in seen:
                    seen[id(o)] = [o, S.index(o[0]), o[2], [(o[2], np.array(o[1]))], 0]
                    queued.append(o)
                r = seen[id(o)]
                last = r[3][-1]
                if last[0] != o[2] or last[1].shape != np.shape(o[1]) or not np.array_equal(last[1], o[1]):
                    r[3].append((o[2], np.array(o[1])))
            ids = [id(o) for o in list(core.sim_waiting_list) + objs]
            need(len(set(ids)) == len(ids), 'a trajectory is queued twice')

        def compute_and_animate(self):
            self.note(0)
            n = 0
            while core.sim_waiting_list or core.sim_states:
                before = [id(o) for o in core.sim_waiting_list]
                active = [o for o in core.sim_states or []]
                with accepts('a simulation step'):
                    core.do_step()
                self.note(0)
                now = [id(o) for o in core.sim_waiting_list]
                if any(i not in now for i in before):
                    for i in before:
                        if i not in now:
                            need(any(o is not None and id(o) == i for o in core.sim_states or []), 'a queued trajectory was lost')
                            seen[i][4] += 1
                n += 1
                if n > 3000:
                    raise Skip('too long')
    core.plotman = Plot()
    np.random.seed(c['seed'])
    m0 = s['init'][0]['mode']
    box = s['init'][0]['set']['box']
    total = c['n'] if isinstance(c['n'], int) else c['n'][1] - c['n'][0]
    with accepts('simulating a well-formed automaton'):
        core.simulate(S.modes[m0], [tuple(b) for b in box], c['n'] if isinstance(c['n'], int) else tuple(c['n']))
    first = [r for r in seen.values() if r[1] == m0 and r[2] == 0][:total]
    need(len(first) == total, f'{len(first)} trajectories start, expected {total}')
    E = [expm(np.array(m['a'], dtype=float) * s['dt']) for m in s['modes']]
    want = []
    for r in first:
        p0 = r[3][0][1]
        need(len(p0) == len(box) and all(b[0] - 1e-12 <= x <= b[1] + 1e-12 for x, b in zip(p0, box)), 'a trajectory starts outside the box')
        want += oracle(c, s, p0, E)
    if total > 1 and any(b[1] > b[0] for b in box):
        need(len({tuple(r[3][0][1]) for r in first}) > 1, 'all trajectories start at the same point')
    got = list(seen.values())
    used = [False] * len(want)
    for r in got:
        need(r[4] == 1, f'a trajectory was simulated {r[4]} times')
        for i, w in enumerate(want):
            if not used[i] and match(r, w):
                used[i] = True
                break
        else:
            near = [w for i, w in enumerate(want) if not used[i] and w[0] == r[1] and w[1] == r[2]]
            need(False, f'trajectory in mode {r[1]} from step {r[2]}: {[(k, p.tolist()) for k, p in r[3]]}, expected one of {[([x.tolist() for x in w[2]], None if w[3] is None else w[3].tolist()) for w in near]}')
    need(all(used), f'{used.count(False)} trajectories were lost')
    return any(w[3] is not None for w in want)


def match(r, w):
    mode, entry, pts, post = w
    if (r[1], r[2]) != (mode, entry):
        return False
    exp = [(entry + i, p) for i, p in enumerate(pts)]
    if post is not None:
        exp.append((exp[-1][0], post))
    # points that do not change between snapshots at the same step are seen once
    e2 = [exp[0]]
    for k, p in exp[1:]:
        if k == e2[-1][0] and p.shape == e2[-1][1].shape and np.allclose(p, e2[-1][1], atol=1e-9):
            continue
        e2.append((k, p))
    g2 = [r[3][0]]
    for k, p in r[3][1:]:
        if k == g2[-1][0] and p.shape == g2[-1][1].shape and np.allclose(p, g2[-1][1], atol=1e-9):
            continue
        g2.append((k, p))
    return len(e2) == len(g2) and all(k == q and p.shape == x.shape and np.allclose(p, x, atol=1e-7, rtol=1e-7) for (k, p), (q, x) in zip(g2, e2))
