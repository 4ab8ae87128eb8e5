from common import *
from pipe import *
RULE = 'random sets with random construction histories: Minkowski sums, bloating, scaling, box centre and radius against exact support functions; every case non-trivial'


def gen(rng):
    n = rng.randint(1, 3)
    k = rng.choice(['sum', 'sum', 'bloat', 'bloat', 'scale', 'centre', 'radius', 'radius', 'mix', 'input'])
    m = (rng.choice([1, 2, 2, 3]) if rng.random() < .94 else rng.choice([6, 9])) if k == 'sum' else 1
    c = {'kind': k, 'n': n, 's': rng.randint(0, 10**6), 'mode': gen_mode(rng, n),
         'pipes': [gen_pipe(rng, dims=n, maxops=rng.choice([0, 1, 2]), end_guard=k not in ('scale', 'mix', 'bloat')) for _ in range(m)],
         'amt': rng.choice([0, .125, .5, 1, 2, 3.5, 2500]), 'fac': rng.choice([0, 1, .5, 2, -1, -.5, 3])}
    if k in ('scale', 'mix'):
        c['pipes'] = [gen_pipe(rng, dims=n, maxops=rng.choice([0, 1, 2]), inputs=None) for _ in range(m)]
    if k == 'input':
        c['b'], c['U'], c['u'] = gen_inputs(rng, n, 1, 3)
    return c


def run(c):
    rng = random.Random(c['s'])
    from hylaa import lputil
    ha = new_ha()
    n = c['n']
    if c['kind'] == 'input':
        m = real_mode(ha, c['mode'], 'agg')
        with accepts('from_input_constraints'):
            l = lputil.from_input_constraints(c['b'] if rng.random() < .5 else csr(c['b']), c['U'], c['u'], m)
        B = np.array(c['b'], dtype=float)
        d = Desc(B, np.zeros(n), c['U'], c['u'])
        same_set(lpi_desc(l), d, rng, 'input set')
        with accepts('scaling'):
            lputil.scale_with_bm(l, c['fac'])
        same_set(lpi_desc(l), d.map(c['fac'] * np.eye(n)), rng, 'scaled input set')
        return True
    bs = []
    for p in c['pipes']:
        b = build(p, ha)
        if b.desc.dims != n:
            raise Skip('dims')
        bs.append(b)
    m = real_mode(ha, c['mode'], 'agg')
    b = bs[0]
    before = [Raw(x.lpi) for x in bs]
    if c['kind'] == 'sum':
        with accepts('minkowski_sum'):
            r = lputil.minkowski_sum([x.lpi for x in bs], m)
        want = bs[0].desc
        for x in bs[1:]:
            want = want.plus(x.desc)
        same_set(lpi_desc(r), want, rng, f'Minkowski sum of {len(bs)} sets')
        for x, r0 in zip(bs, before):
            need(Raw(x.lpi).same(r0, objective=False), 'a summand was modified')
        with accepts('bloating the sum'):
            lputil.bloat(r, c['amt'])
        same_set(lpi_desc(r), want.plus(box_desc([[-c['amt'], c['amt']]] * n)), rng, 'bloated sum')
    elif c['kind'] == 'bloat':
        with accepts('bloat'):
            lputil.bloat(b.lpi, c['amt'])
        same_set(lpi_desc(b.lpi), b.desc.plus(box_desc([[-c['amt'], c['amt']]] * n)), rng, f'set bloated by {c["amt"]}')
        try:
            lputil.bloat(b.lpi, -0.5)
        except AssertionError:
            return True
        raise Violation('bloating by a negative amount was accepted')
    elif c['kind'] in ('scale', 'mix'):
        if b.traj.G is not None and not b.fresh:
            raise Skip('accumulated inputs')
        with accepts('scale_with_bm'):
            lputil.scale_with_bm(b.lpi, c['fac'])
        want = b.desc.map(c['fac'] * np.eye(n))
        same_set(lpi_desc(b.lpi), want, rng, f'set scaled by {c["fac"]}')
        if c['kind'] == 'mix':
            with accepts('bloat'):
                lputil.bloat(b.lpi, c['amt'])
            want = want.plus(box_desc([[-c['amt'], c['amt']]] * n))
            same_set(lpi_desc(b.lpi), want, rng, 'scaled and bloated set')
            with accepts('sum'):
                r = lputil.minkowski_sum([b.lpi, b.lpi], m)
            same_set(lpi_desc(r), want.plus(want), rng, 'sum of a bloated set with itself')
    elif c['kind'] == 'centre':
        with accepts('get_box_center'):
            p = lputil.get_box_center(b.lpi)
        need(p is not None and len(p) == n, 'no centre')
        for i in range(n):
            e = np.eye(n)[i]
            w = (b.desc.support(e) - b.desc.support(-e)) / 2
            need(abs(p[i] - w) < 1e-5 * (1 + abs(w)), f'centre {p[i]} in dimension {i}, expected {w}')
        # empty sets have no centre
        lputil.add_curtime_constraints(b.lpi, csr([[1] + [0] * (n - 1), [-1] + [0] * (n - 1)]), np.array([-1000., -1000.]))
        with accepts('get_box_center of an empty set'):
            need(lputil.get_box_center(b.lpi) is None, 'an empty set has a centre')
    else:
        with accepts('compute_radius_inf'):
            p = lputil.compute_radius_inf(b.lpi)
        w = max(max(abs(b.desc.support(e)), abs(b.desc.support(-e))) for e in np.eye(n))
        need(abs(p - w) < 1e-5 * (1 + w), f'radius {p}, expected {w}')
        need(Raw(b.lpi).same(before[0], objective=False), 'set modified')
    return True
