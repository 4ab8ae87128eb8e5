from common import *
RULE = 'random declarations (dense, nested lists or sparse with stored zeros), well-formed or with one defect (size, infeasible constraints, fixed input, duplicate name, missing guard, transition out of an error mode); non-trivial = the declaration has at least one constraint or defect'

DEFECTS = ['a-square', 'b-rows', 'u-cols', 'u-rhs', 'u-infeasible', 'u-fixed', 'inv-cols', 'inv-rhs', 'inv-infeasible', 'guard-cols', 'guard-rhs', 'guard-infeasible', 'reset-cols', 'reset-rows',
           'mink-rows', 'mink-cols', 'mink-rhs', 'mink-infeasible', 'identity-dims', 'mink-noconstraints', 'mink-norhs', 'dup-name', 'no-guard', 'out-of-error', 'noreset-dims', 'inputs-first', 'inv-first', 'guard-error-mode']


def poly(rng, n, lo=1):
    'feasible constraints'
    rows, rhs = [], []
    x = [rng.choice([0, .5, -1]) for _ in range(n)]
    for _ in range(rng.randint(lo, 3)):
        r = [float(rng.choice([0, 1, -1, 2, .5])) for _ in range(n)]
        rows.append(r)
        rhs.append(float(np.dot(r, x)) + rng.choice([.5, 1, 2]))
    return rows, rhs


def infeasible(rng, n):
    r = [0.0] * n
    r[rng.randrange(n)] = rng.choice([1.0, 2.0])
    return [r, [-x for x in r]], [1.0, -2.0]


def gen(rng):
    n, n2 = rng.randint(1, 3), rng.randint(1, 3)
    d = rng.choice(DEFECTS) if rng.random() < .6 else None
    if d in ('identity-dims', 'noreset-dims') and n == n2:
        n2 = n % 3 + 1
    m = rng.randint(1, 2)
    c = {'defect': d, 'n': n, 'n2': n2, 'forms': [rng.choice(['list', 'dense', 'csr', 'csr0']) for _ in range(12)], 'tw': rng.choice([1, -1])}
    c['a'] = mat(rng, n, n)
    c['a2'] = mat(rng, n2, n2)
    c['b'] = mat(rng, n, m)
    for j in range(m):
        if rng.random() < .6:       # a column with one nonzero
            for i in range(n):
                c['b'][i][j] = 0
            c['b'][rng.randrange(n)][j] = 1
    c['U'], c['u'] = [], []
    for j in range(m):
        e = [0.0] * m
        e[j] = 1.0
        lo = rng.choice([-1.0, 0.0])
        c['U'] += [e, [-x for x in e]]
        c['u'] += [lo + rng.choice([.5, 1.0]), -lo]
    if rng.random() < .3:
        e = [1.0] * m
        c['U'].append(e)
        c['u'].append(9.0)
    c['allow'] = False
    if d == 'u-fixed' or (d is None and rng.random() < .3):
        j = rng.randrange(m)
        for i in range(n):
            c['b'][i][j] = 0
        c['b'][rng.randrange(n)][j] = rng.choice([1, -2])
        e = [0.0] * m
        e[j] = 1.0
        v = rng.choice([0.0, 1.0, -.5])
        keep = [(r, x) for r, x in zip(c['U'], c['u']) if r[j] == 0]
        rows = keep + [(e, v), ([-x for x in e], -v)]
        if rng.random() < .3:
            rows.append((e, v + 1))     # a weaker bound on the same input
        rng.shuffle(rows)
        c['U'], c['u'] = [list(r) for r, _ in rows], [x for _, x in rows]
        c['allow'] = d is None
    elif d == 'u-infeasible':
        c['U'], c['u'] = infeasible(rng, m)
    elif d == 'b-rows':
        c['b'] = mat(rng, n + rng.choice([1, 2]), m)
    elif d == 'u-cols':
        c['U'] = [list(r) + [0.0] for r in c['U']]
    elif d == 'u-rhs':
        c['u'] = c['u'] + [1.0] if rng.random() < .5 else c['u'][:-1]
    if d == 'a-square':
        c['a'] = mat(rng, n + 1, n) if rng.random() < .5 else mat(rng, n, n + 1)
    c['inv'], c['invr'] = poly(rng, n)
    if d == 'inv-cols':
        c['inv'] = [list(r) + [1.0] for r in c['inv']]
    elif d == 'inv-rhs':
        c['invr'] = c['invr'] + [1.0]
    elif d == 'inv-infeasible':
        c['inv'], c['invr'] = infeasible(rng, n)
    c['has_inv'] = rng.random() < .6 or (d or '').startswith('inv-')
    c['has_in'] = rng.random() < .6 or (d or '')[:2] in ('u-', 'b-') or d == 'inputs-first'
    c['g'], c['gr'] = poly(rng, n)
    if d == 'guard-cols':
        c['g'] = [list(r) + [1.0] for r in c['g']]
    elif d == 'guard-rhs':
        c['gr'] = c['gr'] + [1.0]
    elif d == 'guard-infeasible':
        c['g'], c['gr'] = infeasible(rng, n)
    c['gtrue'] = rng.random() < .2 and not (d or '').startswith('guard-')
    c['R'] = mat(rng, n2, n) if n != n2 or rng.random() < .7 or (d or '').startswith('reset-') else None
    c['to_err'] = n == n2 and rng.random() < .3 and d in (None, 'guard-cols', 'mink-rows')
    if d == 'reset-cols':
        c['R'] = mat(rng, n2, n + 1)
    elif d == 'reset-rows':
        c['R'] = mat(rng, n2 + 1, n)
    mm = rng.randint(1, 2)
    c['mink'] = rng.random() < .4 or (d or '').startswith('mink')
    c['M'] = mat(rng, n2, mm)
    if c['mink'] and d is None and rng.random() < .3:
        c['M'], mm = None, n2
    c['C'], c['d'] = poly(rng, mm)
    if d == 'mink-rows':
        c['M'] = mat(rng, n2 + 1, mm)
    elif d == 'mink-cols':
        c['M'] = mat(rng, n2, mm + 1)
    elif d == 'mink-rhs':
        c['d'] = c['d'] + [1.0]
    elif d == 'mink-infeasible':
        c['C'], c['d'] = infeasible(rng, mm)
    elif d == 'mink-noconstraints':
        c['C'] = c['d'] = None
    elif d == 'mink-norhs':
        c['d'] = None
    elif d in ('identity-dims', 'noreset-dims'):
        c['R'] = None
        c['mink'] = False
    return c


def fixed():
    base = {'defect': 'u-fixed', 'n': 1, 'n2': 1, 'forms': ['list'] * 12, 'a': [[0]], 'a2': [[0]], 'b': [[1]], 'allow': False, 'inv': [], 'invr': [], 'has_inv': False, 'has_in': True,
            'g': [[1]], 'gr': [1], 'gtrue': False, 'R': None, 'to_err': False, 'mink': False, 'M': None, 'C': None, 'd': None, 'tw': 1}
    yield dict(base, U=[[1], [-1]], u=[1, -1])
    yield dict(base, U=[[1], [-1], [1]], u=[1, -1, 2])
    yield dict(base, U=[[1], [-1], [1]], u=[1, -1, 2], defect=None, allow=True)


def form(m, f):
    from scipy.sparse import csr_matrix
    if m is None:
        return None
    a = np.array(m, dtype=float)
    if f == 'list':
        return [list(r) for r in m]
    if f == 'dense':
        return a
    if f == 'csr':
        return csr_matrix(a)
    r, k = a.shape
    return csr_matrix((a.reshape(-1), list(range(k)) * r, [k * i for i in range(r + 1)]), shape=(r, k))


def same(m, want, what):
    from scipy.sparse import issparse
    need(m is not None, f'{what} was not stored')
    a = m.toarray() if issparse(m) else np.array(m)
    w = np.array(want, dtype=float)
    need(a.shape == w.shape and np.array_equal(a, w), f'{what} is stored as {a.tolist()} instead of {w.tolist()}')


def vec(v, f):
    return v if v is None else (list(v) if f in ('list', 'csr') else np.array(v, dtype=float))


def rows(m, rhs):
    return sorted((tuple(map(float, r)), float(b)) for r, b in zip(m, rhs))


def run(c):
    d = c['defect']
    F = c['forms']
    refused = []

    def act(name, fn):
        'run one declaration: the defective one must be refused, the others accepted'
        if d is not None and name in bad:
            try:
                fn()
            except (AssertionError, RuntimeError, ValueError, TypeError, IndexError, KeyError):
                refused.append(name)
                raise Done()
            return
        with accepts('a well-formed declaration: ' + name):
            fn()

    class Done(Exception):
        pass
    # the steps at which each defect may be refused
    bad = {'a-square': ['dynamics'], 'b-rows': ['inputs'], 'u-cols': ['inputs'], 'u-rhs': ['inputs'], 'u-infeasible': ['inputs'], 'u-fixed': ['inputs'], 'inv-cols': ['invariant'],
           'inv-rhs': ['invariant'], 'inv-infeasible': ['invariant'], 'guard-cols': ['guard'], 'guard-rhs': ['guard'], 'guard-infeasible': ['guard'], 'reset-cols': ['reset'],
           'reset-rows': ['reset'], 'mink-rows': ['reset'], 'mink-cols': ['reset'], 'mink-rhs': ['reset'], 'mink-infeasible': ['reset'], 'identity-dims': ['reset'],
           'mink-noconstraints': ['reset'], 'mink-norhs': ['reset'], 'dup-name': ['mode2'], 'no-guard': ['check'], 'out-of-error': ['errtrans', 'errguard', 'check'],
           'noreset-dims': ['check'], 'inputs-first': ['early'], 'inv-first': ['early'], 'guard-error-mode': ['errtrans', 'errguard']}.get(d, [])
    try:
        declare(c, d, F, act)
    except Done:
        return True
    need(d is None, f'a malformed model was accepted: {d}')
    return c['has_inv'] or c['has_in'] or c['mink'] or c['R'] is not None


def declare(c, d, F, act):
    import scipy.sparse
    ha = new_ha()
    m1 = ha.new_mode('one')
    n, n2 = c['n'], c['n2']
    need(m1.is_error(), 'a mode without dynamics is an error mode')
    if d in ('inputs-first', 'inv-first'):
        act('early', (lambda: m1.set_inputs(form(c['b'], F[0]), form(c['U'], F[1]), vec(c['u'], F[2]))) if d == 'inputs-first' else (lambda: m1.set_invariant(form(c['inv'], F[0]), vec(c['invr'], F[1]))))
    act('dynamics', lambda: m1.set_dynamics(form(c['a'], F[0])))
    same(m1.a_csr, c['a'], 'A')
    need(not m1.is_error(), 'a mode with dynamics is not an error mode')
    if c['has_in']:
        b, U, u = form(c['b'], F[1]), form(c['U'], F[2]), vec(c['u'], F[3])
        act('inputs', lambda: m1.set_inputs(b, U, u, allow_constants=c['allow']))
        same(m1.b_csr, c['b'], 'B')
        same(m1.u_constraints_csc, c['U'], 'input constraints')
        need(list(m1.u_constraints_rhs) == list(map(float, c['u'])), 'input bounds are stored wrongly')
    if c['has_inv']:
        act('invariant', lambda: m1.set_invariant(form(c['inv'], F[4]), vec(c['invr'], F[5])))
        got = rows([l.csr.toarray()[0] for l in m1.inv_list], [l.rhs for l in m1.inv_list])
        need(got == rows(c['inv'], c['invr']), f'the invariant is stored as {got}')
    act('mode2', lambda: ha.new_mode('one' if d == 'dup-name' else 'two'))
    m2 = ha.modes['two']
    m3 = ha.new_mode('err')
    need([m.mode_id for m in ha.modes.values()] == [0, 1, 2] and list(ha.modes) == ['one', 'two', 'err'], 'modes are numbered in order and found by name')
    act('dynamics2', lambda: m2.set_dynamics(form(c['a2'], F[6])))
    to = m3 if c['to_err'] else m2
    t = ha.new_transition(m1, to, 'x') if c['tw'] > 0 else ha.new_transition(m1, to)
    t2 = ha.new_transition(m1, m3)
    need(ha.transitions == [t, t2] and m1.transitions == [t, t2] and m2.transitions == [] and m3.transitions == [], 'each transition is recorded once in its source mode')
    need(t.transition_index == 0 and t2.transition_index == 1 and t.from_mode is m1 and t.to_mode is to, 'transition data')
    t2.set_guard_true()
    need(t2.guard_csr.shape == (0, n) and len(t2.guard_rhs) == 0, 'the true guard has no conditions')
    if d == 'no-guard':
        act('check', ha.check_transitions)
        return
    if d in ('guard-error-mode', 'out-of-error'):
        keep = []
        act('errtrans', lambda: keep.append(ha.new_transition(m3, m2)))
        if d == 'guard-error-mode':
            act('errguard', (lambda: keep[0].set_guard(form(c['g'], F[7]), vec(c['gr'], F[8]))) if c['tw'] > 0 else keep[0].set_guard_true)
            return
        # the guard is put in by hand, so that only the final check can refuse it
        keep[0].guard_csr, keep[0].guard_rhs = t2.guard_csr, t2.guard_rhs
        t.set_guard_true()
        if n != n2:
            t.set_reset(np.zeros((n2, n)))
        act('check', ha.check_transitions)
        return
    if c['gtrue']:
        t.set_guard_true()
        need(t.guard_csr.shape == (0, n) and len(t.guard_rhs) == 0, 'the true guard has no conditions')
    else:
        act('guard', lambda: t.set_guard(form(c['g'], F[7]), vec(c['gr'], F[8])))
        same(t.guard_csr, c['g'], 'guard')
        need(list(t.guard_rhs) == list(map(float, c['gr'])), 'guard bounds are stored wrongly')
    if d == 'noreset-dims':
        act('check', ha.check_transitions)
        return
    if c['R'] is not None or c['mink'] or d == 'identity-dims':
        kw = {'reset_csr': form(c['R'], F[9])}
        if c['mink']:
            kw.update(reset_minkowski_csr=form(c['M'], F[10]), reset_minkowski_constraints_csr=form(c['C'], F[11]), reset_minkowski_constraints_rhs=vec(c['d'], F[8]))
        act('reset', lambda: t.set_reset(**kw))
        same(t.reset_csr, np.eye(n) if c['R'] is None else c['R'], 'R')
        if c['mink']:
            same(t.reset_minkowski_csr, np.eye(n2) if c['M'] is None else c['M'], 'M')
            same(t.reset_minkowski_constraints_csr, c['C'], 'C')
            need(list(t.reset_minkowski_constraints_rhs) == list(map(float, c['d'])), 'the bounds of the Minkowski variables are stored wrongly')
        else:
            need(t.reset_minkowski_csr is None and t.reset_minkowski_constraints_csr is None and t.reset_minkowski_constraints_rhs is None, 'a reset without Minkowski terms got some')
    act('check', ha.check_transitions)
