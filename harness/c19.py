from common import *
from reach import *
RULE = 'random automata whose guards and target invariants have different sparsity patterns (explicit zeros, zero rows, repeated and resembling conditions), strengthened once and twice; non-trivial = a guard gained a condition'


def gen_rows(rng, n, pool):
    k = rng.choice([0, 1, 1, 2, 3, 3, 4, 6, 9])
    out = []
    for _ in range(k):
        if pool and rng.random() < .5:
            r, b = rng.choice(pool)
            r = list(r)
            q = rng.random()
            if q < .25:
                b = b + rng.choice([0.5, 1.0, 1e-15, 1e-2, -1e-3, 1e-5, -1e-7, 1e-9])
            elif q < .45:
                # the same nonzero values in other columns, or fewer of them
                r = rng.sample(r, n)
            elif q < .6:
                j = rng.randrange(n)
                r[j] = 0.0 if r[j] else 1.0
            elif q < .75:
                # almost the same condition
                j = rng.randrange(n)
                r[j] += rng.choice([1e-2, -1e-3, 1e-5, -1e-7, 1e-9])
        else:
            r = [float(rng.choice([0, 0, 1, -1, 2])) for _ in range(n)]
            b = float(rng.choice([0, 1, 2, 3]))
        out.append([r, max(float(b), 0.0)])
    return out


def gen(rng):
    n = rng.choice([1, 2, 3, 3, 5])
    pool = []
    modes = []
    for _ in range(rng.randint(1, 3)):
        inv = gen_rows(rng, n, pool)
        pool += inv
        modes.append(inv)
    trans = []
    for _ in range(rng.randint(1, 4) if rng.random() < .95 else 12):
        f = rng.randrange(len(modes))
        t = rng.randrange(len(modes) + 1)
        g = gen_rows(rng, n, pool)
        pool += g
        trans.append({'f': f, 't': t, 'g': g, 'reset': rng.random() < .25, 'tt': rng.random() < .15, 'zeros': rng.random() < .4, 'perm': rng.random() < .3})
    return {'n': n, 'modes': modes, 'trans': trans, 'zeros': [rng.random() < .4 for _ in modes]}


def fixed():
    base = {'n': 2, 'zeros': [False] * 2}
    return [dict(base, modes=[[], [[[0.0, 1.0], 1.0]]], trans=[{'f': 0, 't': 1, 'g': [[[1.0, 0.0], 1.0]], 'reset': False, 'tt': False, 'zeros': False, 'perm': False}]),
            dict(base, modes=[[], [[[1.0, 1.0], 1.0]]], trans=[{'f': 0, 't': 1, 'g': [[[1.0, 0.0], 1.0]], 'reset': False, 'tt': False, 'zeros': True, 'perm': False}]),
            dict(base, modes=[[], [[[1.0, 0.0], 1.0]]], trans=[{'f': 0, 't': 1, 'g': [[[1.0, 1.0], 1.0]], 'reset': False, 'tt': False, 'zeros': True, 'perm': False}]),
            dict(base, modes=[[], [[[1.0, 0.0], 1.0]]], trans=[{'f': 0, 't': 1, 'g': [], 'reset': False, 'tt': False, 'zeros': True, 'perm': False}]),
            dict(base, modes=[[], [[[1.0, 0.0], 1.0]]], trans=[{'f': 0, 't': 1, 'g': [[[1.0, 0.0], 2.0]], 'reset': False, 'tt': False, 'zeros': False, 'perm': False}]),
            dict(base, modes=[[], [[[1.0, 0.0], 1.0]]], trans=[{'f': 0, 't': 1, 'g': [[[1.0, 0.0], 2.0]], 'reset': False, 'tt': True, 'zeros': False, 'perm': False},
                                                              {'f': 0, 't': 1, 'g': [[[1.0, 0.0], 2.0]], 'reset': False, 'tt': False, 'zeros': False, 'perm': False}])]


def mk(rows, n, zeros, perm=False):
    'csr with (optionally) explicitly stored zeros and unsorted columns'
    from scipy.sparse import csr_matrix
    data, inds, ptr = [], [], [0]
    for r, _ in rows:
        cols = list(range(n))
        if perm:
            cols.reverse()
        for j in cols:
            if r[j] != 0 or zeros:
                data.append(r[j])
                inds.append(j)
        ptr.append(len(data))
    return csr_matrix((data, inds, ptr), shape=(len(rows), n), dtype=float), np.array([b for _, b in rows], dtype=float)


def rowset(rows):
    return {(tuple(np.round(r, 11) + 0.0), round(float(b), 11)) for r, b in rows}


def run(c):
    n = c['n']
    ha = new_ha()
    modes = []
    for i, inv in enumerate(c['modes']):
        m = ha.new_mode(f'm{i}')
        m.set_dynamics(np.zeros((n, n)))
        if inv:
            with accepts('setting an invariant'):
                m.set_invariant(*mk(inv, n, c['zeros'][i]))
        modes.append(m)
    modes.append(ha.new_mode('error'))
    ts = []
    for s in c['trans']:
        t = ha.new_transition(modes[s['f']], modes[s['t']])
        with accepts('setting a guard'):
            t.set_guard(*mk(s['g'], n, s['zeros'], s['perm']))
            if s['reset']:
                t.set_reset(np.identity(n))
        t.time_triggered = s['tt']
        ts.append(t)
    inv0 = [[(id(l), l.csr.toarray().copy(), l.rhs) for l in m.inv_list] for m in modes]
    before = [(t.guard_csr, t.guard_csr.toarray().copy(), t.guard_rhs, t.guard_rhs.copy()) for t in ts]
    with accepts('guard strengthening'):
        ha.do_guard_strengthening()
    grew = False

    def state():
        return [(t.guard_csr.toarray(), np.array(t.guard_rhs)) for t in ts]
    for t, s, (gc, g0, gr, r0) in zip(ts, c['trans'], before):
        need(np.array_equal(gc.toarray(), g0) and np.array_equal(gr, r0), 'the arrays given to set_guard were changed')
        G, g = t.guard_csr.toarray(), np.array(t.guard_rhs)
        need(G.shape == (len(g), n), 'guard sizes')
        need(rowset(list(zip(g0, r0))) <= rowset(list(zip(G, g))), 'an original guard condition was changed or dropped')
        affected = s['f'] != s['t'] and not s['reset'] and not s['tt']
        inv = c['modes'][s['t']] if s['t'] < len(c['modes']) else []
        if not affected or not inv:
            need(G.shape[0] == len(g0), 'a guard that must not be strengthened was changed')
            continue
        grew |= G.shape[0] > len(g0)
        want = rowset(list(zip(g0, r0))) | rowset([(np.array(r, dtype=float), b) for r, b in inv])
        got = rowset(list(zip(G, g)))
        need(got == want, f'the guard is not the original guard and the target invariant: {sorted(got)} instead of {sorted(want)}')
    for m, i0 in zip(modes, inv0):
        need([id(l) for l in m.inv_list] == [x[0] for x in i0] and all(np.array_equal(l.csr.toarray(), x[1]) and l.rhs == x[2] for l, x in zip(m.inv_list, i0)), 'an invariant changed')
    s1 = state()
    with accepts('guard strengthening again'):
        ha.do_guard_strengthening()
    for a, b in zip(s1, state()):
        need(rowset(zip(*a)) == rowset(zip(*b)), 'strengthening twice changes the guard')
    return grew
