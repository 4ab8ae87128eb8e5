from common import *
from pipe import *
RULE = 'random systems, invariants and step patterns trimmed by Core.intersect_invariant (and by the init-constraint functions directly) against exact trajectory sets; non-trivial = some trimming constraint was active'


def gen_inv(rng, n):
    'conditions all satisfied by some common point'
    out = []
    for _ in range(rng.randint(1, 3) if rng.random() < .94 else 9):
        row = [num(rng) if rng.random() < .7 else 0 for _ in range(n)]
        if not any(row):
            row[rng.randrange(n)] = 1
        out.append([row, rng.choice([0.1, 0.3, 0.5, 0.75, 1, 1.5, 2, 3])])
    return out


def gen(rng):
    k = rng.choice(['core', 'core', 'core', 'direct', 'direct', 'approx', 'check'])
    inputs = rng.random() < .35
    if k == 'approx':
        inputs = False
    p = gen_pipe(rng, maxops=rng.choice([0, 0, 1]), steps=False, inputs=inputs)
    n = len(p['ops'][-1][2]['a']) if p['ops'] and p['ops'][-1][0] == 'reset' else len(p['mode']['a'])
    return {'kind': k + ('_in' if inputs else ''), 'k': k, 'pipe': p, 'inv': gen_inv(rng, n), 's': rng.randint(0, 10**6),
            'acts': [rng.choice(['step', 'step', 'trim', 'jump'] if k != 'direct' else ['step', 'trim', 'trim']) for _ in range(rng.randint(2, 8) if rng.random() < .95 else 14)], 'n': n}


def fixed():
    # KF1: trimming at step 1 constrains the input block that later means another step
    yield {"kind": "core_in", "k": "core", "pipe": {"dt": 1.0, "mode": {"a": [[0.0]], "b": [[1]], "U": [[1], [-1]], "u": [1, 1]}, "set": {"kind": "box", "box": [[0, 0]]}, "ops": []},
           "inv": [[[1], .5]], "s": 1, "acts": ["step", "trim", "step", "trim"], "n": 1}


def compare(st, tr, sh, rng, what, rows):
    try:
        same_set(lpi_desc(st.lpi), tr.d, rng, what, extra=3, also=rows)
        raw = Raw(st.lpi)
        (au, bu), (ae, be) = raw.split()
        M = np.zeros((raw.dims, raw.cols))
        for i in range(raw.dims):
            M[i, st.lpi.basis_mat_pos[1] + i] = 1
        same_set(Desc(M, np.zeros(raw.dims), au, bu, ae, be), tr.init, rng, what + ' (initial states)', extra=2)
    except Violation as e:
        if sh is not None:
            try:
                same_set(lpi_desc(st.lpi), sh.d, rng, what, extra=3, also=rows)
            except Violation:
                raise e
            raise Known('KF1', str(e))
        raise


def run(c):
    rng = random.Random(c['s'])
    from hylaa import lputil
    from hylaa.hybrid_automaton import LinearConstraint
    b = build(c['pipe'])
    st, tr = b.state, b.traj
    if tr.d.dims != c['n']:
        raise Skip('dims')
    if c['k'] == 'check':
        # reporting an intersection with a half space
        for row, rhs in c['inv']:
            v = tr.d.support([-x for x in row])
            v = -v
            lc = LinearConstraint(csr([row]), rhs)
            want = v <= rhs
            if abs(v - rhs) < 1e-6:
                continue
            with accepts('check_intersection'):
                got = lputil.check_intersection(st.lpi, lc)
            need(bool(got) == want, f'check_intersection({row}<= {rhs}) = {got}, minimum is {v}')
            with accepts('check_intersection'):
                got = lputil.check_intersection(st.lpi, lc.negate())
            mx = tr.d.support(row)
            if abs(mx - rhs) > 1e-6:
                need(bool(got) == (mx >= rhs), f'check_intersection with the negation of {row}<={rhs} = {got}, maximum is {mx}')
            same_set(lpi_desc(st.lpi), tr.d, rng, 'set after a query', extra=1)
        return True
    inp = tr.G is not None
    sh = None
    if inp:
        sh = ShiftTraj(tr.d.copy(), b.mode_spec, c['pipe']['dt'])
    if c['k'] == 'direct':
        return direct(c, b, st, tr, sh, rng, lputil)
    with accepts('set_invariant with feasible conditions'):
        st.mode.set_invariant(np.array([r for r, _ in c['inv']], dtype=float), [x for _, x in c['inv']])
    st.invariant_constraint_rows = [None] * len(st.mode.inv_list)
    need([(list(l.csr.toarray()[0]), l.rhs) for l in st.mode.inv_list] == [([float(x) for x in r], float(x)) for r, x in c['inv']], 'invariant stored')
    core = real_core(b.ha, dt=c['pipe']['dt'], bound=10.0)
    G = [r for r, _ in c['inv']]
    g = [x for _, x in c['inv']]
    active = False
    acts = list(c['acts'])
    approx = c['k'] == 'approx'
    if approx:
        acts = ['trim', 'approx'] + acts
    for i, a in enumerate(acts):
        if a == 'approx':
            st.apply_approx_model(1)
            E = tr.E
            d2 = tr.d.map(E)
            tr = Traj(hull_desc([tr.d, d2]), b.mode_spec, c['pipe']['dt'])
        elif a in ('step', 'jump'):
            k = 1 if a == 'step' else 2
            with accepts('step'):
                st.step(st.cur_step_in_mode + k)
            for _ in range(k):
                tr.step()
                if sh: sh.step()
        else:
            d2 = tr.d.meet(G, g)
            m = d2.margin()
            ksh = None
            if sh is not None and st.cur_step_in_mode > 0:
                ksh = sh.d.meet(G, g)
            need_skip = abs(m) < 1e-6 or (ksh is not None and abs(ksh.margin()) < 1e-6)
            if need_skip:
                raise Skip('borderline')
            with accepts('intersect_invariant'):
                ok = core.intersect_invariant(st, add_ops_to_aggdag=False)
            if any(tr.d.support(r) > x + 1e-6 for r, x in c['inv']):
                active = True
            if ok != (m > 0):
                if ksh is not None and ok == (ksh.margin() > 0):
                    raise Known('KF1', f'invariant left={not ok} although the exact trimmed set is {"empty" if m < 0 else "not empty"}')
                raise Violation(f'invariant reported {"satisfiable" if ok else "left"} at step {st.cur_step_in_mode}, but the trimmed set is {"not empty" if m > 0 else "empty"}')
            if not ok:
                need(not Raw(st.lpi).desc().feasible(), 'set reported as out of the invariant is not empty')
                return active
            tr.trim(G, g)
            if sh is not None:
                sh.d = sh.d.meet(G, g)
        compare(st, tr, sh, rng, f'set after {acts[:i + 1]} at step {st.cur_step_in_mode}', [r for r, _ in c['inv']])
    return active


def direct(c, b, st, tr, sh, rng, lputil):
    'add_init_constraint / try_replace_init_constraint on the initial variables'
    rows, last = [], None
    for i, a in enumerate(c['acts']):
        if a in ('step', 'jump'):
            with accepts('step'):
                st.step()
            tr.step()
            if sh: sh.step()
        else:
            row, rhs = c['inv'][rng.randrange(len(c['inv']))]
            rhs = rhs + rng.choice([0, .25, -.1])
            if last is not None and rng.random() < .4: # a little weaker or stronger than the last one
                row, rhs = last[0], last[1] + rng.choice([4e-4, -4e-4])
            last = (row, rhs)
            d2 = tr.d.meet([row], [rhs])
            if d2.margin() < 1e-4 or (sh and sh.d.meet([row], [rhs]).margin() < 1e-4):
                continue
            raw0 = Raw(st.lpi)
            vec = np.array(row, dtype=float)
            rhs0 = vec.copy()
            use_bm = rng.random() < .5
            kw = dict(basis_matrix=st.basis_matrix) if use_bm else {}
            kw2 = dict(basis_mat=st.basis_matrix) if use_bm else {}
            ie = st.input_effects_list
            old = rng.choice(rows) if rows and rng.random() < .7 else None
            if old is None:
                with accepts('add_init_constraint'):
                    r = lputil.add_init_constraint(st.lpi, vec, rhs, input_effects_list=ie, **kw)
                need(r == raw0.rows and st.lpi.get_num_rows() == raw0.rows + 1, 'new constraint row index')
                rows.append(r)
            else:
                olda = raw0.A[old].copy(); oldb = raw0.rhs[old]
                with accepts('try_replace_init_constraint'):
                    r, stronger = lputil.try_replace_init_constraint(st.lpi, old, vec, rhs, input_effects_list=ie, **kw2)
                raw1 = Raw(st.lpi)
                need(r == old, 'strengthened row moved')
                need(raw1.rows == raw0.rows + (0 if stronger else 1), f'is_stronger={stronger} but {raw1.rows - raw0.rows} rows were added')
                if not stronger:
                    need(np.array_equal(raw1.A[-1], olda) and raw1.rhs[-1] == oldb, 'the kept old constraint is not the old one')
                    rows.append(raw1.rows - 1)
            need(np.array_equal(vec, rhs0) and vec.ndim == 1, 'direction argument changed')
            raw1 = Raw(st.lpi)
            for q in range(raw0.rows):
                if q != r:
                    need(np.array_equal(raw1.A[q], raw0.A[q]) and raw1.rhs[q] == raw0.rhs[q] and raw1.types[q] == raw0.types[q], f'other row {q} changed')
            tr.trim([row], [rhs])
            if sh:
                sh.d = sh.d.meet([row], [rhs])
        compare(st, tr, sh, rng, f'set after {c["acts"][:i + 1]} at step {st.cur_step_in_mode}', [r for r, _ in c['inv']])
    return bool(rows)
