from common import *
from pipe import *
RULE = 'random systems with the convex-hull and bloating approximation models, first set and every later step against sub-sampled exact reachable sets; non-trivial = approximation model on'


def gen(rng):
    k = rng.choice(['chull', 'lgg', 'lgg', 'lgg', 'none'])
    p = gen_pipe(rng, maxops=rng.choice([0, 0, 1]), steps=False)
    if rng.random() < .2:
        p['dt'] = rng.choice([.8, 1.25])
    if rng.random() < .12:       # small input terms
        for m in [p['mode']] + [o[2] for o in p['ops'] if o[0] == 'reset']:
            if m.get('b') is not None:
                m['b'] = [[x / 32 for x in r] for r in m['b']]
    return {'kind': k, 'pipe': p, 's': rng.randint(0, 10**6), 'steps': rng.randint(0, 3) if rng.random() < .95 else rng.choice([6, 11]), 'jump': rng.random() < .4, 'pre': rng.random() < .3}


def run(c):
    rng = random.Random(c['s'])
    b = build(c['pipe'])
    st, tr = b.state, b.traj
    n = tr.d.dims
    ms = b.mode_spec
    dt = c['pipe']['dt']
    A = np.array(ms['a'], dtype=float)
    E, G = tr.E, tr.G
    if c['pre']:      # somebody used the mode's matrices before
        st.mode.time_elapse.get_basis_matrix(rng.randint(0, 3))
    U = (np.array(ms['U'], dtype=float), np.array(ms['u'], dtype=float)) if G is not None else None
    model = {'none': 0, 'chull': 1, 'lgg': 2}[c['kind']]
    if model == 2 and G is not None:
        norm = float(np.max(np.sum(np.abs(A), axis=1)))
        V = Desc(np.array(ms['b'], dtype=float), np.zeros(n), U[0], U[1])
        rv = max(max(abs(V.support(e)), abs(V.support(-e))) for e in np.eye(n))
        if norm > 1e-7 and (math.exp(dt * norm) - 1 - dt * norm) * rv / norm < 2e-7:
            raise Skip('bloating term too small')
    before = Raw(st.lpi)
    with accepts('applying the approximation model'):
        st.apply_approx_model(model)
    if model == 0:
        need(Raw(st.lpi).same(before), 'the set was changed although no approximation model is in force')
        st.step()
        tr.step()
        same_set(lpi_desc(st.lpi), tr.d, rng, 'set after one step')
        return False
    need(st.cur_step_in_mode == 0, 'step changed')
    x0 = tr.d
    x1 = x0.map(E)
    if G is not None:
        x1 = x1.plus(Desc(G, np.zeros(n), U[0], U[1]))
    got = lpi_desc(st.lpi)
    contained(x0, got, rng, 'initial set inside the first set')
    contained(x1, got, rng, 'one-step successor inside the first set')
    jump = c['jump'] and c['steps'] >= 2        # two steps at once
    if model == 1:
        same_set(got, hull_desc([x0, x1]), rng, 'first set of the convex-hull model')
        t2 = Traj(hull_desc([x0, x1]), ms, dt)
        for k in range(c['steps']):
            t2.step()
            if jump and k == 0:
                continue
            with accepts('step'):
                st.step(k + 1)
            same_set(lpi_desc(st.lpi), t2.d, rng, f'step {k + 1} of the convex-hull model', extra=3)
        return True
    norm = float(np.max(np.sum(np.abs(A), axis=1)))
    r0 = max(max(abs(x0.support(e)), abs(x0.support(-e))) for e in np.eye(n))
    rv = 0
    om = x0.map(E)
    if G is not None:
        V = Desc(np.array(ms['b'], dtype=float), np.zeros(n), U[0], U[1])
        rv = max(max(abs(V.support(e)), abs(V.support(-e))) for e in np.eye(n))
        om = om.plus(V.map(dt * np.eye(n)))
    f = math.exp(dt * norm) - 1 - dt * norm
    alpha = 0 if norm < 1e-7 else f * (r0 + rv / norm)
    beta = 0 if norm < 1e-7 or G is None else f * rv / norm
    om = om.plus(box_desc([[-alpha, alpha]] * n))
    contained(hull_desc([x0, om]), got, rng, f'bloated hull of the bloating model (alpha={alpha})')
    if G is not None and norm > 1e-7:
        need(st.lgg_beta is not None and st.lgg_beta >= beta * (1 - 1e-9), f'bloating of the input term is {st.lgg_beta}, needed {beta}')
    # finer exact sets
    SUB = 4
    E4, G4 = step_mats(A, ms.get('b'), dt / SUB)
    cur = x0
    om0 = got
    sums = []          # (matrix, desc) of the input terms added at later steps
    fine = x0
    for k in range(c['steps'] + 1):
        what = f'states visited between step {k} and {k + 1}'
        g = lpi_desc(st.lpi)
        for j in range(SUB + 1):
            if not (jump and k == 1):
                contained(fine, g, rng, what, tol=1e-6, extra=2)
            if j < SUB:
                nf = fine.map(E4)
                if G is not None:
                    nf = nf.plus(Desc(G4, np.zeros(n), U[0], U[1]))
                fine = nf
        if k == c['steps']:
            break
        if not (jump and k == 0):
            with accepts('step'):
                st.step(k + 1)
        # Omega_{k+1} = E Omega_k + tau V + beta B
        nx = om0.map(E)
        if G is not None:
            nx = nx.plus(V.map(dt * np.eye(n)))
            if beta:
                nx = nx.plus(box_desc([[-st.lgg_beta, st.lgg_beta]] * n))
            else:
                nx = om0.map(E).plus(Desc(G, np.zeros(n), U[0], U[1]))
        om0 = nx
        if jump and k == 0:
            continue
        g = lpi_desc(st.lpi)
        contained(nx, g, rng, f'bloated successor at step {k + 1}', extra=3)
        contained(g, nx, rng, f'step {k + 1} is exactly the bloated successor', extra=3)
    return True
