from common import *
from pipe import *
RULE = 'random sets x sequences of directions/columns/constraint changes, infeasible and unbounded systems, injected solver failures; non-trivial = an optimum compared with an independent solver'


def gen(rng):
    n = rng.randint(1, 3)
    k = rng.choice(['seq', 'seq', 'seq', 'pipe', 'infeas', 'unbounded', 'fault'])
    c = {'kind': k, 's': rng.randint(0, 10**6), 'mode': gen_mode(rng, n), 'set': gen_setspec(rng, n)}
    if k == 'pipe':
        c['pipe'] = gen_pipe(rng)
    if k == 'unbounded':
        c['A'] = [[num(rng, True) for _ in range(n)]]
    if k == 'fault':
        c['fault'] = rng.choice(['sing1', 'fail1', 'fail2', 'failall', 'nofeas1', 'nofeasall', 'undef', 'tmlim', 'feasible_status'])
    return c


def ask(lpi, raw, d, v, form, rng, what):
    n = raw.dims
    cols = rng.choice([None, 'cur', 'some', 'rev'])
    if cols == 'cur':
        cl = [raw.off + i for i in range(n)]
    elif cols == 'rev':
        cl = [raw.off + i for i in reversed(range(n))]
    elif cols == 'some':
        cl = [rng.randrange(raw.cols) for _ in range(rng.randint(0, 3))]
    else:
        cl = None
    full = list(v) + [0.0] * (n - len(v))
    with accepts(f'minimize ({what})'):
        if form == 'csr':
            lpi.set_minimize_direction(csr([v]), is_csr=True)
            r = lpi.minimize(columns=cl)
        elif form == 'np':
            r = lpi.minimize(direction_vec=np.array(v, dtype=float), columns=cl)
        else:
            r = lpi.minimize(direction_vec=list(v), columns=cl)
    want = d.support([-x for x in full])
    if want is None:
        raise Skip('empty')
    if math.isinf(want):
        raise Violation('unbounded problem answered with a point')
    need(r is not None, 'feasible problem answered with no solution')
    need(len(r) == (raw.cols if cl is None else len(cl)), 'wrong number of coordinates returned')
    # the objective stored in the solver is exactly the requested one
    obj = np.zeros(raw.cols); obj[raw.off:raw.off + n] = full
    o = np.array([glpk.glp_get_obj_coef(lpi.lp, j + 1) for j in range(raw.cols)])
    need(np.array_equal(o, obj), f'objective in the solver is {o}, requested {obj}')
    if cl is None:
        z = np.array(r)
        need(abs(np.dot(obj, z) + want) <= TOL * (1 + abs(want)), f'optimum {np.dot(obj, z)}, expected {-want} ({what})')
        (au, bu), (ae, be) = raw.split()
        t = 1e-5 * (1 + np.max(np.abs(z)))
        need(np.all(au @ z <= bu + t) and np.all(np.abs(ae @ z - be) <= t), 'returned point violates the constraints')
    else:
        with accepts('minimize again'):
            z = np.array(lpi.minimize())
        need(close(r, z[cl], 1e-4) or not unique(d, full), f'requested columns {cl} gave {list(r)} but the full solution has {z[cl]}')
        if cols in ('cur', 'rev'):
            x = np.array(r) if cols == 'cur' else np.array(r)[::-1]
            need(abs(np.dot(full, x) + want) <= TOL * (1 + abs(want)), 'optimum not attained by the requested columns')
            need(d.contains(x, 1e-4), f'returned point {x} outside the set')


def unique(d, v):
    return False


def run(c):
    from hylaa import lputil
    import hylaa.lpinstance as li
    rng = random.Random(c['s'])
    k = c['kind']
    ha = new_ha()
    if k in ('seq', 'pipe'):
        if k == 'seq':
            m = real_mode(ha, c['mode'], 'm')
            lpi = real_set(c['set'], m)
        else:
            b = build(c['pipe'], ha); lpi, m = b.lpi, b.mode
        for _ in range(rng.randint(2, 5)):
            raw = Raw(lpi); d = raw.desc()
            for _ in range(rng.randint(1, 4)):
                nn = raw.dims if rng.random() < .7 else rng.randint(1, raw.dims)
                v = [float(rng.randint(-3, 3)) for _ in range(nn)]
                ask(lpi, raw, d, v, rng.choice(['csr', 'np', 'list']), rng, k)
                need(Raw(lpi).same(raw, objective=False), 'optimising changed the constraints')
                need(lpi.is_feasible() is True, 'is_feasible')
            r = rng.random()
            if r < .4:
                row = [num(rng) for _ in range(raw.dims)]
                x = d.argmax([rng.randint(-2, 2) for _ in range(raw.dims)])
                if x is not None:
                    lputil.add_curtime_constraints(lpi, csr([row]), np.array([float(np.dot(row, x)) + rng.choice([0.1, .5])]))
            elif r < .6:
                lpi = lpi.clone()
            elif r < .7:
                lpi.reset_lp()
            elif r < .85:
                full = np.zeros(raw.cols); full[rng.randrange(raw.cols)] = 1.0
                try:
                    lpi.set_minimize_direction(csr([full]), is_csr=True, offset=0)
                    lpi.minimize(columns=[])
                except RuntimeError:
                    pass
        return True
    m = real_mode(ha, c['mode'], 'm')
    if k == 'infeas':
        lpi = real_set(c['set'], m)
        d = set_desc(c['set'])
        v = [float(num(rng, True)) for _ in range(d.dims)]
        s = d.support(v)
        gap = rng.choice([0.01, .5, 10])
        lputil.add_curtime_constraints(lpi, csr([[-x for x in v]]), np.array([-s - gap]))
        need(lpi.is_feasible() is False, 'is_feasible says feasible')
        w = [float(num(rng)) for _ in range(d.dims)]
        with accepts('minimize with fail_on_unsat=False'):
            r = lpi.minimize(direction_vec=w, columns=rng.choice([None, []]), fail_on_unsat=False)
        need(r is None, f'infeasible problem answered with {r}')
        try:
            lpi.minimize(direction_vec=w)
        except li.UnsatError:
            return True
        raise Violation('infeasible problem did not raise UnsatError')
    if k == 'unbounded':
        n = len(c['A'][0])
        lpi = lputil.from_constraints(csr(c['A']), [1.0], m)
        d = Desc(np.eye(n), np.zeros(n), c['A'], [1.0])
        v = [float(rng.randint(-2, 2)) for _ in range(n)]
        want = d.support([-x for x in v])
        if math.isinf(want):
            expect_reject(lambda: lpi.minimize(v), 'unbounded minimisation', (RuntimeError,))
        else:
            ask(lpi, Raw(lpi), d, v, 'list', rng, k)
        # and the bounded direction still works afterwards
        ask(lpi, Raw(lpi), d, [-x for x in c['A'][0]], 'list', rng, k)
        return True
    if k == 'fault':
        lpi = real_set(c['set'], m)
        d = set_desc(c['set'])
        v = [float(rng.randint(-3, 3)) for _ in range(d.dims)]
        want = -d.support([-x for x in v])
        calls = [0]
        f = c['fault']
        real_simplex, real_status = glpk.glp_simplex, glpk.glp_get_status

        def simplex(lp, params):
            calls[0] += 1
            real = real_simplex(lp, params)
            if f == 'sing1' and calls[0] == 1:
                return glpk.GLP_ESING
            if f in ('fail1', 'tmlim') and calls[0] == 1:
                return glpk.GLP_EFAIL if f == 'fail1' else glpk.GLP_ETMLIM
            if f == 'fail2' and calls[0] <= 2:
                return glpk.GLP_ESING
            if f == 'failall':
                return glpk.GLP_EFAIL
            return real

        def status(lp):
            real = real_status(lp)
            if f == 'nofeas1' and calls[0] <= 1:
                return glpk.GLP_NOFEAS
            if f == 'nofeasall':
                return glpk.GLP_NOFEAS
            if f == 'undef':
                return glpk.GLP_UNDEF
            if f == 'feasible_status':
                return glpk.GLP_FEAS
            return real
        glpk.glp_simplex, glpk.glp_get_status = simplex, status
        try:
            err = None
            r = None
            unsat_ok = rng.random() < .5
            ncols = lpi.get_num_cols()
            cl = rng.choice([None, list(range(ncols))[::-1], [lpi.cur_vars_offset + i for i in range(d.dims)], [rng.randrange(ncols)], []])
            try:
                r = lpi.minimize(direction_vec=v, columns=cl, fail_on_unsat=not unsat_ok)
            except Exception as e:   # pylint: disable=broad-except
                err = e
        finally:
            glpk.glp_simplex, glpk.glp_get_status = real_simplex, real_status
        if f in ('sing1', 'fail1', 'fail2', 'tmlim') or (f == 'nofeas1' and not unsat_ok):
            need(err is None, f'transient solver failure {f} not recovered: {err!r}')
            need(r is not None, f'transient solver failure {f} reported as infeasible')
            need(len(r) == (ncols if cl is None else len(cl)), f'{len(r)} coordinates returned after a transient failure, requested columns {cl}')
            full = np.array([glpk.glp_get_col_prim(lpi.lp, j + 1) for j in range(ncols)])
            need(cl is None or close(np.array(r), full[np.array(cl, dtype=int)], 1e-9), f'columns {cl} answered with {list(r)}, the solution is {full}')
            x = full[lpi.cur_vars_offset:lpi.cur_vars_offset + d.dims]
            need(abs(np.dot(v, x) - want) <= TOL * (1 + abs(want)), 'wrong optimum after a transient failure')
        elif f in ('failall', 'undef', 'feasible_status'):
            need(err is not None, f'solver failure {f} answered with {r}')
        elif f in ('nofeasall', 'nofeas1'):
            if unsat_ok:
                need(err is None and r is None, f'solver says infeasible, answer was {r!r} / {err!r}')
            else:
                need(isinstance(err, li.UnsatError), f'solver says infeasible, expected the unsat error, got {r!r} / {err!r}')
        return True
    raise RuntimeError(k)
