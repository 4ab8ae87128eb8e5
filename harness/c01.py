from common import *
from pipe import *
RULE = 'random boxes, H-polytopes, zonotopes, input images (1-4 dims, modes with/without inputs, dense/sparse); non-trivial = non-empty set compared by support functions, or a rejection'


def gen(rng):
    n = rng.randint(1, 4) if rng.random() < .9 else rng.choice([5, 6, 7, 11])
    k = rng.choice(['box', 'cons', 'cons', 'zono', 'zono', 'input', 'badbox', 'infeasible', 'typed', 'unbounded', 'dims'])
    c = {'kind': k, 'mode': gen_mode(rng, n), 's': rng.randint(0, 10**6)}
    if k == 'box':
        c['box'] = gen_box(rng, n)
        if rng.random() < .3:
            c['box'] = [[a, b * 1e4 if rng.random() < .3 and b > 0 else b] for a, b in c['box']]
    elif k == 'badbox':
        c['box'] = gen_box(rng, n)
        i = rng.randrange(n)
        c['box'][i] = [c['box'][i][0], c['box'][i][0] - rng.choice([1e-3, 0.5, 3])]
    elif k == 'cons':
        c['A'], c['b'] = gen_poly(rng, n, 12 if rng.random() < .08 else None)
        if rng.random() < .2:
            c['A'].insert(0, [0] * n); c['b'].insert(0, rng.choice([0, 1]))
        c['sparse'] = rng.random() < .5
        c['rhsnp'] = rng.random() < .5
    elif k == 'unbounded':
        c['A'] = [[num(rng) for _ in range(n)] for _ in range(rng.randint(1, n))]
        c['b'] = [rng.choice([0, 1, 2]) for _ in c['A']]
        c['sparse'] = False; c['rhsnp'] = True
    elif k == 'infeasible':
        c['A'], c['b'] = gen_poly(rng, n)
        row = [num(rng, True) for _ in range(n)]
        g = rng.choice([0.01, 1, 5])
        c['A'] += [row, [-x for x in row]]
        c['b'] += [1, -1 - g]
    elif k == 'zono':
        c['c'], c['g'] = gen_zono(rng, n)
        if rng.random() < .25:
            c['g'] = [[num(rng) for _ in range(n)] for _ in range(rng.choice([0, n + 2, n + 4, 2 * n + 3, 11, 14]))]
    elif k == 'dims':
        # more columns than current variables, any number of rows (also none, also fewer than variables)
        ex = rng.randint(0, 3)
        c['ex'] = ex
        c['A'] = [[num(rng) for _ in range(n + ex)] for _ in range(rng.choice([0, 1, 2, n, n + ex, 2 * n]))]
        c['b'] = [rng.choice([0, 1, 2]) for _ in c['A']]
        if rng.random() < .5:
            for i in range(n + ex):
                for s in (1, -1):
                    c['A'].append([s if j == i else 0 for j in range(n + ex)])
                    c['b'].append(3)
    elif k == 'input':
        m = rng.randint(1, 3)
        c['B'] = mat(rng, n, m, rng.choice([.4, .8]))
        c['U'], c['u'] = gen_poly(rng, m)
        c['sparse'] = rng.random() < .5
    elif k == 'typed':
        # equality constrained system with named columns, current variables on the left
        A, b = gen_poly(rng, n)
        ex = rng.randint(0, 2)
        E = mat(rng, n, ex, .8) if ex else [[] for _ in range(n)]
        c['A'], c['b'], c['ex'], c['E'] = A, b, ex, E
        c['lo'] = rng.random() < .6
        c['bad'] = rng.choice([0, 0, 0, 1, 2])
    return c


def run(c):
    from hylaa import lputil
    rng = random.Random(c['s'])
    ha = new_ha()
    m = real_mode(ha, c['mode'], 'm0')
    k = c['kind']
    if k in ('box', 'zono'):
        if k == 'box':
            d, lpi = box_desc(c['box']), real_set({'kind': 'box', 'box': c['box']}, m)
        else:
            s = {'kind': 'zono', 'c': c['c'], 'g': c['g']}
            d, lpi = set_desc(s), real_set(s, m)
        chk(lpi, d, m, rng, c)
        return True
    if k == 'badbox':
        expect_reject(lambda: lputil.from_box([tuple(b) for b in c['box']], m), f'inverted box {c["box"]}')
        return True
    if k in ('cons', 'unbounded'):
        A = np.array(c['A'], dtype=float)
        d = Desc(np.eye(A.shape[1]), np.zeros(A.shape[1]), A, c['b'])
        if not d.feasible() or d.margin() < 1e-9 and k == 'unbounded':
            raise Skip('infeasible')
        A2, b2 = A.copy(), np.array(c['b'], dtype=float)
        with accepts('from_constraints on a feasible system'):
            lpi = lputil.from_constraints(csr(A) if c['sparse'] else A.tolist(), b2 if c['rhsnp'] else list(c['b']), m)
        need(np.array_equal(A, A2) and list(b2) == [float(x) for x in c['b']], 'arguments modified')
        chk(lpi, d, m, rng, c)
        return True
    if k == 'dims':
        n = len(c['mode']['a']) if isinstance(c['mode'], dict) and 'a' in c['mode'] else m.a_csr.shape[0]
        tot = n + c['ex']
        A = np.array(c['A'], dtype=float).reshape(len(c['A']), tot)
        d = Desc(np.hstack([np.eye(n), np.zeros((n, c['ex']))]), np.zeros(n), A, c['b'])
        if not d.feasible():
            raise Skip('infeasible')
        with accepts('from_constraints with dims'):
            lpi = lputil.from_constraints(csr(A), np.array(c['b'], dtype=float), m, dims=n)
        chk(lpi, d, m, rng, c)
        return True
    if k == 'infeasible':
        A = np.array(c['A'], dtype=float)
        expect_reject(lambda: lputil.from_constraints(A, list(c['b']), m), 'infeasible constraints')
        need(lputil.is_feasible(A, list(c['b'])) is False, 'is_feasible says True for an infeasible system')
        return True
    if k == 'input':
        B = np.array(c['B'], dtype=float)
        d = Desc(B, np.zeros(B.shape[0]), c['U'], c['u'])
        if not d.feasible():
            raise Skip('')
        with accepts('from_input_constraints'):
            if c['sparse']:
                from scipy.sparse import csr_matrix
                lpi = lputil.from_input_constraints(csr(B), csr(c['U']), np.array(c['u'], dtype=float), m)
            else:
                lpi = lputil.from_input_constraints(B, np.array(c['U'], dtype=float), list(c['u']), m)
        chk(lpi, d, m, rng, c)
        return True
    if k == 'typed':
        A = np.array(c['A'], dtype=float)
        n = A.shape[1]
        ex = c['ex']
        E = np.array(c['E'], dtype=float).reshape(n, ex)
        # x = y + E w, A y <= b, -1 <= w <= 1  (some rows as >=)
        d = Desc(np.hstack([np.eye(n), E]), np.zeros(n),
                 np.vstack([np.hstack([A, np.zeros((len(A), ex))]), np.hstack([np.zeros((ex, n)), np.eye(ex)]),
                            np.hstack([np.zeros((ex, n)), -np.eye(ex)])]), list(c['b']) + [1] * (2 * ex))
        rows, rhs, types = [], [], []
        tot = n + n + ex
        for i in range(n):
            r = np.zeros(tot); r[i] = -1; r[n + i] = 1; r[2 * n:] = E[i]
            rows.append(r); rhs.append(0.0); types.append(glpk.GLP_FX)
        for r0, b0 in zip(A, c['b']):
            r = np.zeros(tot); r[n:2 * n] = r0
            rows.append(r); rhs.append(b0); types.append(glpk.GLP_UP)
        for j in range(ex):
            r = np.zeros(tot); r[2 * n + j] = 1
            rows.append(r); rhs.append(1.0); types.append(glpk.GLP_UP)
            rows.append(-r); rhs.append(1.0); types.append(glpk.GLP_UP)
        names = [f'v{i}' for i in range(tot)]
        if c.get('lo'):
            for i, t in enumerate(types):
                if t == glpk.GLP_UP and rng.random() < .5:
                    rows[i], rhs[i], types[i] = -rows[i], -rhs[i], glpk.GLP_LO
        if c.get('bad'):
            # one more equality / lower bound that no point satisfies
            r = np.zeros(tot); r[:n] = [float(num(rng, True)) for _ in range(n)]
            s = d.support(list(r[:n]))
            if s is None or math.isinf(s):
                raise Skip('')
            rows.append(r); rhs.append(s + 1.0); types.append(glpk.GLP_FX if c['bad'] == 1 else glpk.GLP_LO)
            expect_reject(lambda: lputil.from_constraints(csr(np.array(rows)), rhs, m, types=types, names=names, dims=n), 'infeasible typed constraints')
            return True
        with accepts('from_constraints with types'):
            lpi = lputil.from_constraints(csr(np.array(rows)), rhs, m, types=types, names=names, dims=n)
        chk(lpi, d, m, rng, c)
        return True
    raise RuntimeError(k)


def chk(lpi, d, m, rng, c):
    same_set(lpi_desc(lpi), d, rng, f'set built from {c["kind"]}')
    need(lpi.dims == d.dims, 'dims')
    need((lpi.input_effects_offsets is None) == (m.b_csr is None), 'input layout does not match the mode')
    # the built set has the identity basis matrix, so stepping to the identity changes nothing
    from hylaa import lputil
    with accepts('setting the identity basis matrix'):
        lputil.set_basis_matrix(lpi, np.identity(lpi.dims))
    same_set(lpi_desc(lpi), d, rng, 'set after re-assigning the identity basis', extra=2)
    # queries through the public api
    for v in directions(d.dims, rng, 2):
        s = d.support(v)
        if s is None or math.isinf(s):
            continue
        with accepts('minimize'):
            r = lpi.minimize([-x for x in v])
        x = np.array(r[lpi.cur_vars_offset:lpi.cur_vars_offset + lpi.dims])
        need(abs(np.dot(x, v) - s) <= TOL * (1 + abs(s)), f'minimize in direction {v}: {np.dot(x, v)} expected {s}')
