from common import *
from pipe import *
from c08 import strat
RULE = '1-5 random sets of one dimension with random construction histories, convex hull against the exact hull (lifted description); non-trivial = two or more sets'


def gen(rng):
    n = rng.randint(1, 3)
    k = rng.choice(['direct', 'direct', 'state'])
    m = rng.choice([1, 2, 2, 2, 3, 3, 4, 5]) if rng.random() < .96 else rng.choice([7, 9])
    return {'kind': k, 'n': n, 'pipes': [gen_pipe(rng, dims=n, maxops=rng.choice([0, 1, 2])) for _ in range(m)], 'mode': gen_mode(rng, n),
            's': rng.randint(0, 10**6), 'el': [sorted([rng.randint(0, 4), rng.randint(0, 6)]) for _ in range(m)]}


def run(c):
    rng = random.Random(c['s'])
    from hylaa import lputil, aggregate
    from hylaa.time_elapse import TimeElapser
    ha = new_ha()
    bs = []
    for p in c['pipes']:
        b = build(p, ha)
        if b.desc.dims != c['n']:
            raise Skip('dims')
        bs.append(b)
    m = real_mode(ha, c['mode'], 'agg')
    m.time_elapse = TimeElapser(m, 0.25)
    lpis = [b.lpi for b in bs]
    before = [Raw(l) for l in lpis]
    want = hull_desc([b.desc for b in bs])
    if c['kind'] == 'state' and len(bs) > 1:
        for b, el in zip(bs, c['el']):
            b.state.cur_steps_since_start = list(el)
            b.state.mode = m
        states = [b.state for b in bs]
        ops = [object() for _ in bs]
        with accepts('convex hull aggregation'):
            r = aggregate.aggregate_chull(states, ops, lambda _: None)
        need(list(r.cur_steps_since_start) == [min(e[0] for e in c['el']), max(e[1] for e in c['el'])], f'elapsed interval {r.cur_steps_since_start} of the hull of {c["el"]}')
        need(r.is_concrete is False and r.mode is m and r.cur_step_in_mode == 0 and list(r.aggdag_op_list) == ops, 'fields of the aggregated set')
        for b, el in zip(bs, c['el']):
            need(list(b.state.cur_steps_since_start) == el, 'elapsed steps of a member changed')
        lpi, st = r.lpi, r
    else:
        with accepts('convex hull'):
            lpi = lputil.aggregate_chull(lpis, m)
        st = None
    same_set(lpi_desc(lpi), want, rng, f'convex hull of {len(bs)} sets', extra=8)
    for l, r0 in zip(lpis, before):
        need(lpi is not l and Raw(l).same(r0, objective=False), 'an aggregated set was modified')
    if st is not None:
        tr = Traj(want, c['mode'], 0.25)
        with accepts('stepping the hull'):
            st.step()
        tr.step()
        same_set(lpi_desc(st.lpi), tr.d, rng, 'hull after one step', extra=3)
    lpi.add_rows_less_equal([1.0])
    for l, r0 in zip(lpis, before):
        need(Raw(l).same(r0, objective=False), 'changing the hull changed a member')
    return len(bs) > 1
