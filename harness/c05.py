from common import *
from pipe import *
RULE = 'random systems and initial sets, random splits of k steps into jumps, compared with the exact reachable set by support functions; non-trivial = k>=1'


def gen(rng):
    p = gen_pipe(rng, maxops=2, steps=True)
    jumps = [rng.choice([1, 1, 1, 2, 3, 0]) for _ in range(rng.randint(1, 4))]
    while sum(jumps) > 6:
        jumps.pop()
    if rng.random() < .12:      # one long jump: every skipped step counts
        jumps = [rng.choice([0, 1])] + [rng.choice([4, 5, 6, 6, 11])]
    return {'kind': 'inputs' if p['mode'].get('b') else 'noinputs', 'pipe': p, 'jumps': jumps or [1], 's': rng.randint(0, 10**6), 'elapsed': [rng.randint(0, 3), rng.randint(3, 5)]}


def run(c):
    rng = random.Random(c['s'])
    b = build(c['pipe'])
    st, tr = b.state, b.traj
    st.cur_steps_since_start = list(c['elapsed'])
    elapsed = list(c['elapsed'])
    k = st.cur_step_in_mode
    from hylaa.stateset import StateSet
    for j in c['jumps']:
        raw0 = Raw(st.lpi)
        n_ie = None if st.input_effects_list is None else len(st.input_effects_list)
        with accepts('step'):
            if j == 1 and rng.random() < .7:
                st.step()
            else:
                st.step(k + j)
        for _ in range(j):
            tr.step()
        k += j
        elapsed = [elapsed[0] + j, elapsed[1] + j]
        need(st.cur_step_in_mode == k, f'step in mode is {st.cur_step_in_mode}, expected {k}')
        need(list(st.cur_steps_since_start) == elapsed, f'elapsed steps {st.cur_steps_since_start}, expected {elapsed}')
        same_set(lpi_desc(st.lpi), tr.d, rng, f'set at step {k} (jumps {c["jumps"]})', extra=4)
        raw = Raw(st.lpi)
        # initial states of this mode are still what they were
        n = raw.dims
        M = np.zeros((n, raw.cols)); 
        for i in range(n):
            M[i, st.lpi.basis_mat_pos[1] + i] = 1
        (au, bu), (ae, be) = raw.split()
        same_set(Desc(M, np.zeros(n), au, bu, ae, be), tr.init, rng, f'initial states at step {k}', extra=2)
        # earlier constraints are untouched (all rows but the current-state rows keep their old entries)
        cur = set(range(st.lpi.basis_mat_pos[0], st.lpi.basis_mat_pos[0] + n))
        if st.lpi.input_effects_offsets is not None:
            cur |= set(range(st.lpi.input_effects_offsets[0], st.lpi.input_effects_offsets[0] + n))
        for r in range(raw0.rows):
            if r not in cur:
                need(np.array_equal(raw.A[r, :raw0.cols], raw0.A[r]) and not raw.A[r, raw0.cols:].any() and raw.rhs[r] == raw0.rhs[r] and raw.types[r] == raw0.types[r],
                     f'row {r} of the earlier constraints changed')
        E = np.linalg.matrix_power(tr.E, k)
        need(close(st.basis_matrix, E, 1e-6), 'recorded basis matrix')
        if tr.G is not None:
            need(len(st.input_effects_list) == k, f'{len(st.input_effects_list)} input effect matrices after {k} steps')
    try:
        st.step(k - 1)
    except AssertionError:
        return sum(c['jumps']) > 0
    raise Violation('a negative step was accepted')
