'''Random construction histories of a set: real operations next to the exact description of the result.

These give LP instances with many different layouts (inputs, resets, fresh variables, hulls, sums).
'''
from common import *


def gen_reset(rng, n, n2=None):
    'reset from n to n2 dimensions'
    if n2 is None:
        n2 = rng.choice([n, n, rng.randint(1, 3)])
    r = {}
    if n2 != n or rng.random() < 0.7:
        r['R'] = mat(rng, n2, n, rng.choice([0.3, 0.7, 1.0]))
    if rng.random() < 0.4:
        mv = rng.randint(1, 2) if rng.random() < .95 else 4
        r['M'] = mat(rng, n2, mv, 0.8)
        r['C'], r['d'] = gen_poly(rng, mv, rng.randint(0, 1))
    return r, n2


def gen_pipe(rng, dims=None, maxops=3, steps=True, inputs=None, end_guard=False):
    'constraints on the current state are only added right before a reset or (end_guard) at the end'
    n = dims if dims is not None and rng.random() < 0.6 else rng.randint(1, 3)
    p = {'dt': rng.choice([0.1, 0.25, 0.5]), 'mode': gen_mode(rng, n, inputs), 'set': gen_setspec(rng, n), 'ops': []}
    cur = p['mode']
    for _ in range(rng.randint(0, maxops)):
        k = rng.choice(['step', 'step', 'reset', 'add'])
        if k == 'step' and steps:
            p['ops'].append(['step', rng.randint(1, 2)])
        elif k == 'reset':
            if rng.random() < .5:
                p['ops'].append(['guard', [num(rng) for _ in range(n)], rng.choice([0.5, 1, 2, 4])])
            r, n2 = gen_reset(rng, n)
            md = gen_mode(rng, n2, inputs)
            p['ops'].append(['reset', r, md])
            cur, n = md, n2
        elif k == 'add':
            p['ops'].append(['hull'])
    if dims is not None and n != dims:
        r, n2 = gen_reset(rng, n, dims)
        p['ops'].append(['reset', r, gen_mode(rng, dims, inputs)])
        n = dims
    if end_guard and rng.random() < .3:
        p['ops'].append(['guard', [num(rng) for _ in range(n)], rng.choice([0.5, 1, 2, 4])])
    return p


class Built:
    pass


def build(p, ha=None):
    'returns Built with lpi, desc, mode, mode_spec, state, traj'
    from hylaa import lputil
    from hylaa.stateset import StateSet
    from hylaa.time_elapse import TimeElapser
    ha = ha or new_ha()
    b = Built()
    b.ha = ha
    b.count = 0

    def mk(spec):
        b.count += 1
        with accepts('declaring a well-formed mode'):
            m = real_mode(ha, spec, f'pm{len(ha.modes)}')
            m.time_elapse = TimeElapser(m, p['dt'])
        return m
    b.mode, b.mode_spec = mk(p['mode']), p['mode']
    lpi = real_set(p['set'], b.mode)
    b.traj = Traj(set_desc(p['set']), p['mode'], p['dt'])
    if not b.traj.d.feasible():
        raise Skip('empty initial set')
    with accepts('building a state set'):
        b.state = StateSet(lpi, b.mode)
    b.fresh = True
    for op in p['ops']:
        if op[0] == 'step':
            with accepts('advancing a set'):
                b.state.step(b.state.cur_step_in_mode + op[1])
            for _ in range(op[1]):
                b.traj.step()
            b.fresh = False
        elif op[0] == 'guard':
            d = b.traj.d.meet([op[1]], [op[2]])
            if d.margin() < 1e-4:
                continue
            with accepts('adding a constraint'):
                lputil.add_curtime_constraints(b.state.lpi, csr([op[1]]), np.array([op[2]], dtype=float))
            b.traj.d = d
            if not b.fresh:
                b.dirty = True
        elif op[0] == 'reset':
            r, md = op[1], op[2]
            m2 = mk(md)
            lp2 = b.state.lpi
            with accepts('applying a reset'):
                lputil.add_reset_variables(lp2, m2.mode_id, 0,
                    reset_csr=csr(r['R']) if 'R' in r else None,
                    minkowski_csr=csr(r['M']) if 'M' in r else None,
                    minkowski_constraints_csr=csr(r['C']) if 'C' in r else None,
                    minkowski_constraints_rhs=np.array(r['d'], dtype=float) if 'C' in r else None,
                    successor_has_inputs=md.get('b') is not None)
                b.state = StateSet(lp2, m2)
            d = reset_desc(b.traj.d, r)
            b.traj = Traj(d, md, p['dt'])
            b.mode, b.mode_spec = m2, md
            b.fresh = True
        elif op[0] == 'hull':
            other = b.traj.d
            box = [[0.0, 1.0]] * other.dims
            with accepts('convex hull'):
                o = lputil.from_box([tuple(x) for x in box], b.mode)
                l = lputil.aggregate_chull([b.state.lpi, o], b.mode)
                b.state = StateSet(l, b.mode)
            b.traj = Traj(hull_desc([other, box_desc(box)]), b.mode_spec, p['dt'])
            b.fresh = True
    b.lpi = b.state.lpi
    b.desc = b.traj.d
    if not b.desc.feasible():
        raise Skip('empty')
    return b


def reset_desc(d, r):
    R = np.array(r['R'], dtype=float) if 'R' in r else np.eye(d.dims)
    out = d.map(R)
    if 'M' in r:
        M = np.array(r['M'], dtype=float)
        out = out.plus(Desc(M, np.zeros(M.shape[0]), r['C'], r['d']))
    return out


def hull_desc(ds):
    '''closed convex hull of non-empty bounded sets: x = sum (M_i y_i + l_i m_i), A_i y_i <= l_i b_i, l in simplex'''
    n = sum(d.M.shape[1] + 1 for d in ds)
    M = np.zeros((ds[0].dims, n))
    au, bu, ae, be = [], [], [], []
    o = 0
    lam = np.zeros(n)
    for d in ds:
        k = d.M.shape[1]
        M[:, o:o + k] = d.M
        M[:, o + k] = d.m
        for row, rhs in zip(d.au, d.bu):
            v = np.zeros(n); v[o:o + k] = row; v[o + k] = -rhs
            au.append(v); bu.append(0)
        for row, rhs in zip(d.ae, d.be):
            v = np.zeros(n); v[o:o + k] = row; v[o + k] = -rhs
            ae.append(v); be.append(0)
        v = np.zeros(n); v[o + k] = -1
        au.append(v); bu.append(0)
        lam[o + k] = 1
        o += k + 1
    ae.append(lam); be.append(1)
    return Desc(M, np.zeros(ds[0].dims), np.array(au), bu, np.array(ae), be)
