from common import *
from pipe import *
RULE = 'random sets with random construction histories and random guards (empty, redundant, infeasible, touching) against the exact intersection; non-trivial = guard with at least one condition'


def gen(rng):
    k = rng.choice(['rand', 'rand', 'rand', 'touch', 'true', 'sparse'])
    c = {'kind': k, 's': rng.randint(0, 10**6)}
    if k == 'touch':
        n = rng.randint(1, 3)
        c['box'] = gen_box(rng, n)
        rows = []
        for _ in range(rng.randint(1, 2)):
            i = rng.randrange(n)
            side = rng.choice([0, 1])
            row = [0] * n
            row[i] = 1 if side == 0 else -1
            rows.append([row, c['box'][i][0] if side == 0 else -c['box'][i][1]])
        c['g'] = rows
        c['mode'] = gen_mode(rng, n)
        return c
    p = gen_pipe(rng, end_guard=True)
    n = len(p['mode']['a'])
    for op in p['ops']:
        if op[0] == 'reset':
            n = len(op[2]['a'])
    c['pipe'] = p
    rows = []
    if k != 'true':
        for _ in range(rng.randint(1, 4) if rng.random() < .94 else rng.choice([9, 12])):
            row = [num(rng) if rng.random() < .7 else 0 for _ in range(n)]
            rows.append([row, rng.choice([-2, -1, -.5, 0, .3, .7, 1, 2, 5])])
        if rng.random() < .2:
            rows.append(list(rows[0]))
    c['g'] = rows
    return c


def run(c):
    rng = random.Random(c['s'])
    from scipy.sparse import csr_matrix
    if c['kind'] == 'touch':
        ha = new_ha()
        m = real_mode(ha, c['mode'], 'm')
        lpi = real_set({'kind': 'box', 'box': c['box']}, m)
        d = box_desc(c['box'])
    else:
        b = build(c['pipe'])
        ha, m, lpi, d = b.ha, b.mode, b.lpi, b.desc
    n = d.dims
    if c['g'] and len(c['g'][0][0]) != n:
        raise Skip('dims')
    to = ha.new_mode('target')
    t = ha.new_transition(m, to)
    G = [r for r, _ in c['g']]
    g = [x for _, x in c['g']]
    if G and not Desc(np.eye(n), np.zeros(n), G, g).feasible():
        raise Skip('infeasible guard')
    if G and abs(Desc(np.eye(n), np.zeros(n), G, g).margin()) < 1e-7 and c['kind'] != 'touch':
        raise Skip('borderline guard')
    with accepts('setting a well-formed guard'):
        if not G:
            t.set_guard_true()
        elif c['kind'] == 'sparse':
            # explicit zeros and unsorted entries
            data, inds, ptr = [], [], [0]
            for r in G:
                idx = list(range(n))
                rng.shuffle(idx)
                for j in idx:
                    if r[j] != 0 or rng.random() < .4:
                        data.append(float(r[j])); inds.append(j)
                ptr.append(len(data))
            t.set_guard(csr_matrix((data, inds, ptr), shape=(len(G), n), dtype=float), list(g))
        else:
            t.set_guard([list(map(float, r)) for r in G] if rng.random() < .5 else csr(G), list(g))
    want = d.meet(G, g) if G else d
    mg = want.margin() if G else 1
    if c['kind'] == 'touch':
        mg = 1 if want.feasible() else -1
    elif abs(mg) < 1e-6:
        raise Skip('borderline')
    before = Raw(lpi)
    for rep in range(2):
        with accepts('guard intersection'):
            r = t.get_guard_intersection(lpi)
        need(Raw(lpi).same(before, objective=False), 'the source set was changed by the guard query')
        if mg < 0:
            need(r is None, f'guard {c["g"]}: a successor was reported although no state satisfies the guard')
        else:
            need(r is not None, f'guard {c["g"]}: no successor was reported although states satisfy the guard')
            need(r is not lpi, 'the successor shares the source set')
            same_set(lpi_desc(r), want, rng, f'states satisfying the guard {c["g"]}')
            # the successor is independent of the source
            r.add_rows_less_equal([1.0])
            need(Raw(lpi).same(before, objective=False), 'a change of the successor changed the source')
    if rng.random() < .3:
        same_set(lpi_desc(lpi), d, rng, 'source set')
    return bool(G)
