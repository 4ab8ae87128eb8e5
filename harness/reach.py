'''Exact discrete-time reachability of a random hybrid automaton, without aggregation (oracle), and its construction.'''
from common import *
from pipe import reset_desc, gen_reset


def gen_cond(rng, n, lo=True):
    row = [0] * n
    if rng.random() < .75:
        row[rng.randrange(n)] = rng.choice([1, -1])
    else:
        row = [num(rng) for _ in range(n)]
        if not any(row):
            row[0] = 1
    return [row, rng.choice([-1.03, -.51, -.11, .07, .33, .63, 1.17, 1.7, 2.9])]


def gen_sys(rng, inputs=.2, invs=.5, resets=.4, maxmodes=3, minkowski=True, dims=None, max_steps=6, nerr=None, self_loops=True):
    n = dims or rng.randint(1, 2)
    nm = rng.randint(1, maxmodes)
    modes = []
    same = rng.random() < .7
    for i in range(nm):
        k = n if same else rng.randint(1, 2)
        m = {'a': gen_a(rng, k)}
        if rng.random() < .3:
            m['a'] = [[0] * k for _ in range(k)]
            if k > 1:
                m['a'][0][1] = rng.choice([1, -1, 2])
        if rng.random() < inputs:
            m['b'], m['U'], m['u'] = gen_inputs(rng, k, 1, 1)
        if rng.random() < invs:
            m['inv'] = [gen_cond(rng, k) for _ in range(rng.randint(1, 2))]
        modes.append(m)
    nerr = rng.randint(0, 1) if nerr is None else nerr
    trans = []
    for _ in range(rng.randint(1, 4)):
        f = rng.randrange(nm)
        if nerr and rng.random() < .4:
            t = nm
        else:
            t = rng.randrange(nm)
            if t == f and not self_loops:
                t = (f + 1) % nm
        kf = len(modes[f]['a'])
        kt = len(modes[t]['a']) if t < nm else kf
        tr = {'f': f, 't': t, 'guard': [gen_cond(rng, kf) for _ in range(rng.choice([0, 1, 1, 1, 2]))]}
        if kt != kf or rng.random() < resets:
            r, _ = gen_reset(rng, kf, kt)
            if not minkowski:
                for q in ('M', 'C', 'd'):
                    r.pop(q, None)
            if kf != kt and 'R' not in r:
                r['R'] = mat(rng, kt, kf)
            if r:
                tr['reset'] = r
        trans.append(tr)
    init = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        i = 0 if rng.random() < .7 else rng.randrange(nm)
        init.append({'mode': i, 'set': {'kind': 'box', 'box': gen_box(rng, len(modes[i]['a']), .3)}})
    return {'modes': modes, 'nerr': nerr, 'trans': trans, 'init': init, 'dt': rng.choice([.1, .25, .5]), 'steps': rng.randint(2, max_steps)}


def pad_sys(rng, s):
    'the same system in a larger automaton: more than ten modes before it, and more than ten transitions that are never taken before the others'
    p = rng.choice([0, 10, 11, 12])
    modes = [{'a': [[0]]} for _ in range(p)] + s['modes']
    mv = lambda i: i + p
    trans = []
    for i, m in enumerate(s['modes']):
        n = len(m['a'])
        if p == 0 or rng.random() < .6:
            for _ in range(rng.choice([9, 10, 11])):
                trans.append({'f': mv(i), 't': mv(i), 'guard': [[[-1] + [0] * (n - 1), -9e4]]})
    trans += [dict(t, f=mv(t['f']), t=mv(t['t'])) for t in s['trans']]
    return dict(s, modes=modes, trans=trans, init=[dict(q, mode=mv(q['mode'])) for q in s['init']])


class Sys:
    'the real automaton of a spec'

    def __init__(self, s):
        from hylaa.stateset import StateSet
        from hylaa import lputil
        self.s = s
        self.ha = new_ha()
        with accepts('declaring a well-formed automaton'):
            self.modes = []
            for i, m in enumerate(s['modes']):
                if m.get('inv') and not feas(m['inv']):
                    raise Skip('infeasible invariant')
                self.modes.append(real_mode(self.ha, m, f'm{i}'))
            for i in range(s['nerr']):
                self.modes.append(self.ha.new_mode(f'error{i}'))
            self.trans = []
            for t in s['trans']:
                if t['guard'] and not feas(t['guard']):
                    raise Skip('infeasible guard')
                x = self.ha.new_transition(self.modes[t['f']], self.modes[t['t']])
                self.trans.append(x)
                if t['guard']:
                    x.set_guard([r for r, _ in t['guard']], [b for _, b in t['guard']])
                else:
                    x.set_guard_true()
                r = t.get('reset')
                if r:
                    x.set_reset(reset_csr=r.get('R'), reset_minkowski_csr=r.get('M'),
                                reset_minkowski_constraints_csr=r.get('C'), reset_minkowski_constraints_rhs=r.get('d'))
            self.init = []
            for q in s['init']:
                m = self.modes[q['mode']]
                lpi = real_set(q['set'], m)
                if q.get('cut'):        # a set that turns out to be empty
                    e = np.eye(len(q['set']['box']))[0]
                    lputil.add_init_constraint(lpi, e, q['set']['box'][0][0] - 5.0)
                self.init.append(StateSet(lpi, m))

    def index(self, mode):
        return self.modes.index(mode)


def feas(conds):
    n = len(conds[0][0])
    d = Desc(np.eye(n), np.zeros(n), [r for r, _ in conds], [b for _, b in conds])
    if abs(d.margin()) < 1e-6:
        raise Skip('borderline')
    return d.feasible()


TOLM = 2e-5


def decide(d):
    m = d.margin(soft=True)
    if abs(m) < TOLM:
        raise Skip('borderline')
    return m > 0


class Node:
    pass


def explore(s, urgent=False, cls=Traj, max_nodes=60, stop=None):
    '''all states popped, all transitions taken: returns dict(visits=[(mode, step in mode, elapsed, desc)], taken=[...], errors=[...])'''
    res = {'visits': [], 'taken': [], 'errors': [], 'inits': 0, 'pops': []}
    work = []
    nm = len(s['modes'])
    inv = lambda i: s['modes'][i].get('inv') or []

    def trim(tr, i):
        if not inv(i):
            return True
        tr.trim([r for r, _ in inv(i)], [b for _, b in inv(i)])
        return decide(tr.d)
    for q in s['init']:
        if q.get('cut'):
            continue
        d = set_desc(q['set'])
        c = inv(q['mode'])
        if c:
            d = d.meet([r for r, _ in c], [b for _, b in c])
            if not decide(d):
                continue
        res['inits'] += 1
        work.append((q['mode'], d, 0, []))
    count = 0
    while work:
        i, d, el, path = work.pop(0)
        res['pops'].append((i, el))
        if i >= nm:
            continue
        count += 1
        if count > max_nodes:
            raise Skip('too many sets')
        tr = cls(d.copy(), s['modes'][i], s['dt'])

        def guards(tr, k, el, path):
            for ti, t in enumerate(s['trans']):
                if t['f'] != i:
                    continue
                conds = list(t['guard'])
                if s.get('strengthen') and t['f'] != t['t'] and not t.get('reset') and t['t'] < nm:
                    conds += inv(t['t'])
                g = tr.d.meet([r for r, _ in conds], [b for _, b in conds]) if conds else tr.d
                if conds and not decide(g):
                    continue
                res['taken'].append((ti, k, el))
                if t['t'] >= nm:
                    res['errors'].append((ti, k, el, path))
                work.append((t['t'], reset_desc(g, t.get('reset') or {}), el, path + [(i, k, ti)]))
        if not trim(tr, i):
            continue
        k = 0
        if urgent:
            guards(tr, k, el, path)
        while el < s['steps']:
            if not trim(tr, i):
                break
            tr.step()
            k += 1
            el += 1
            res['visits'].append((i, k, el))
            guards(tr, k, el, path)
            if not any(any(r) for r in s['modes'][i]['a']) and s['modes'][i].get('b') is None and s.get('skip_zero', True):
                break
    return res


def has_kf1(s):
    return any(m.get('b') and m.get('inv') for m in s['modes'])
