from common import *
from pipe import *
from reach import *
from c08 import strat
BLOWUP = 1e5
RULE = 'template aggregation of random sets (direct calls, and every aggregation inside random analysis runs): members contained, template directions tight, flags and time interval; non-trivial = two or more members'


def gen(rng):
    k = rng.choice(['direct', 'run', 'run'])
    if k == 'direct':
        n = rng.randint(1, 3)
        m = rng.choice([2, 2, 3, 4]) if rng.random() < .94 else rng.choice([7, 10])
        nd = n + rng.randint(0, 2)
        D = [[num(rng) for _ in range(n)] for _ in range(nd)]
        for i in range(n):
            if rng.random() < .5:
                D[i] = [1.0 if j == i else 0.0 for j in range(n)]
            if n > 1 and rng.random() < .25:     # a template direction that is almost an axis
                D[i][rng.randrange(n)] *= rng.choice([1e-3, 5e-4, 2e-4])
                j = rng.randrange(n)
                if j != i:
                    D[i][j] = rng.choice([-9e-4, 4e-4, 9e-4])
        return {'kind': k, 'n': n, 'pipes': [gen_pipe(rng, dims=n, maxops=rng.choice([0, 1, 2])) for _ in range(m)],
                'mode': gen_mode(rng, n), 'D': D, 's': rng.randint(0, 10**6)}
    s = gen_sys(rng, inputs=.25, nerr=rng.randint(0, 1), invs=.4, resets=.5, max_steps=5, dims=rng.randint(1, 3))
    return {'kind': k, 'sys': s, 'strat': rng.choice(['box', 'arnoldi', 'arnoldi']), 'pop': rng.randint(0, 2), 'same': rng.random() < .8, 'guard': rng.random() < .6,
            's': rng.randint(0, 10**6)}


def tight(r, members, dirs, what):
    for d in dirs:
        for s in (1, -1):
            e = s * np.array(d, dtype=float)
            vals = [m.support(e) for m in members]
            if any(v is None or math.isinf(v) for v in vals):
                raise Skip('oracle')
            w, g = max(vals), r.support(e)
            need(g is not None and abs(g - w) < TOL * (1 + abs(w)), f'{what}: in template direction {e.tolist()} the aggregate reaches {g}, the members reach {w}')


def run(c):
    rng = random.Random(c['s'])
    if c['kind'] == 'direct':
        from hylaa import lputil
        from hylaa.time_elapse import TimeElapser
        ha = new_ha()
        bs = [build(p, ha) for p in c['pipes']]
        if any(b.desc.dims != c['n'] for b in bs):
            raise Skip('dims')
        D = np.array(c['D'], dtype=float)
        if np.linalg.matrix_rank(D) < c['n']:
            raise Skip('unbounded template')
        m = real_mode(ha, c['mode'], 'agg')
        m.time_elapse = TimeElapser(m, .25)
        before = [Raw(b.lpi) for b in bs]
        D0 = D.copy()
        with accepts('template aggregation'):
            lpi = lputil.aggregate([b.lpi for b in bs], D, m)
        need(np.array_equal(D, D0), 'the direction matrix was changed')
        d = lpi_desc(lpi)
        for i, b in enumerate(bs):
            contained(b.desc, d, rng, f'aggregate contains member {i}', extra=4)
            need(Raw(b.lpi).same(before[i], objective=False), 'a member was changed')
        tight(d, [b.desc for b in bs], [x for x in D if np.linalg.norm(x) > 1e-6], 'direct')
        return True
    from hylaa import aggdag, lputil
    from hylaa.settings import HylaaSettings
    from hylaa.core import Core
    s = c['sys']
    S = Sys(s)
    st = HylaaSettings(s['dt'], s['dt'] * s['steps'])
    st.num_steps = s['steps']
    st.stdout = 0
    st.optimize_tt_transitions = False
    st.stop_on_concrete_error = st.stop_on_aggregated_error = False
    st.aggstrat = strat(c['strat'])
    st.aggstrat.pop_type = c['pop']
    st.aggstrat.require_same_path = c['same']
    st.aggstrat.add_guard = c['guard']
    core = Core(S.ha, st)
    core.setup_ha(S.ha)     # guard strengthening happens once; done before the snapshot of the guards
    seen = []
    orig = aggdag.AggDagNode._aggregate_from_state_op_list

    def wrap(self, agg_list, op_list, agg_type):
        raws = [Raw(x.lpi) for x in agg_list]
        meta = [(list(x.cur_steps_since_start), x.is_concrete, x.cur_step_in_mode) for x in agg_list]
        rv = orig(self, agg_list, op_list, agg_type)
        n = raws[0].dims
        ms = [r.desc() for r in raws]
        d = lpi_desc(rv.lpi)
        for i, m in enumerate(ms):
            contained(m, d, rng, f'aggregate contains member {i}', extra=4)
            need(Raw(agg_list[i].lpi).same(raws[i], objective=False) and (list(agg_list[i].cur_steps_since_start), agg_list[i].is_concrete, agg_list[i].cur_step_in_mode) == meta[i], f'member {i} was changed')
        tight(d, ms, np.eye(n), 'coordinate axes')
        t = op_list[len(op_list) // 2].transition
        if agg_type.add_guard:
            g = t.guard_csr.toarray().reshape(-1, t.from_mode.a_csr.shape[0])
            if t.reset_csr is not None:
                g = g @ t.reset_csr.toarray().T
            tight(d, ms, [x for x in g if np.linalg.norm(x) > 1e-6], 'guard directions')
        need(agg_type.add_guard == c['guard'], 'guard directions option was not honoured')
        need(agg_type.is_arnoldi_box == (c['strat'] == 'arnoldi') and agg_type.is_box == (c['strat'] == 'box') and not agg_type.is_chull, 'aggregation type')
        if agg_type.is_arnoldi_box and t.reset_csr is None:
            premode = t.from_mode
            op = op_list[len(op_list) // 2]
            dm = lputil.make_direction_matrix(op.premode_center, premode.a_csr)
            # only the directions forced by the dynamics (the completion is random)
            k, v, basis = 0, np.array(op.premode_center, dtype=float), []
            while k < n:
                v = premode.a_csr.toarray() @ v
                for _ in range(2):
                    for q in basis:
                        v = v - q * np.dot(q, v)
                if np.linalg.norm(v) < 1e-4:
                    break
                v = v / np.linalg.norm(v)
                basis.append(v)
                k += 1
            tight(d, ms, dm[:k], 'dynamics directions')
        need(list(rv.cur_steps_since_start) == [min(m[0][0] for m in meta), max(m[0][1] for m in meta)], f'elapsed interval {rv.cur_steps_since_start}, members {[m[0] for m in meta]}')
        need(rv.is_concrete is False, 'an aggregated set is marked exact')
        need(rv.mode is agg_list[0].mode and rv.cur_step_in_mode == 0, 'mode and step of the aggregate')
        need(list(rv.aggdag_op_list) == list(op_list), 'the aggregate does not record its operations')
        # later steps start from the aggregate
        seen.append(len(ms))
        return rv
    aggdag.AggDagNode._aggregate_from_state_op_list = wrap
    try:
        try:
            with accepts('the analysis of a well-formed automaton'):
                core.run(S.init)
        except Violation as e:
            if 'No feasible initial states' not in str(e):
                raise
    finally:
        aggdag.AggDagNode._aggregate_from_state_op_list = orig
    return any(x > 1 for x in seen)
