from common import *
RULE = 'random linear expressions (nested sums, integer multiples of sums, constants, quotients) as derivatives, resets and conditions, evaluated at random points against the text itself; malformed and nonlinear texts must be refused; non-trivial = all'
VARS = ['x', 'y', 'zz', 'x1', 'v_2', 'E', 'beta', 'S', 'N', 'a', 'x10', 'x11']
CONSTS = ['k', 'c1', 'gamma', 'Q', 'b']


def lit(rng, nz=False):
    return rng.choice(['2', '3', '0.5', '1.25', '7', '1e-2', '0.1'] + ([] if nz else ['0', '0.0']))


def expr(rng, vs, cs, depth=0, const=True):
    k = rng.random()
    if depth > 2 or k < .2:
        q = rng.random()
        if q < .7 or not const:
            return rng.choice(vs)
        if q < .8 and cs:
            return rng.choice(cs)
        return lit(rng)
    if k < .4:
        v = rng.choice(vs)
        m = lit(rng) if rng.random() < .6 or not cs else rng.choice(cs)
        return rng.choice([f'{m}*{v}', f'{v}*{m}', f'-{m} * {v}', f'{v}/{lit(rng, True)}', f'-{v}', f'{m}*2*{v}'])
    if k < .5:
        return f'{rng.choice([2, 3, -2])}*({expr(rng, vs, cs, depth + 1, const)} {rng.choice("+-")} {rng.choice(vs)})'
    if k < .6:
        return f'({expr(rng, vs, cs, depth + 1, const)})'
    a, b = expr(rng, vs, cs, depth + 1, const), expr(rng, vs, cs, depth + 1, const)
    return rng.choice([f'{a} + {b}', f'{a} - ({b})', f'{a}-{b if not b.startswith("-") else "(" + b + ")"}'])


BAD = ['{x}*{y}', '{x}**2', 'sin({x})', '1/{x}', '{x}*{y} + 1', 'sqrt({x})', '{x}*unknown', 'unknown', '2*unknown + {x}', 'abs({x})', '{x}*{x}', 'exp({y})', '2**{x}', 'pi*{x}']
BADC = ['{x}', '{x} < {y}', '{x} <= 2 <= {y}', '{x} >= 1 >= 0', '{x} == 2', '{x} <= 3 >= 2', '{x} = 1', '{x} > 2', '{x}*{y} <= 1', '{x}**2 >= 1', 'unknown <= 1', '', '{x} <=', '<= 2*unknown']


def gen(rng):
    n = rng.randint(1, 4) if rng.random() < .94 else 11
    vs = rng.sample(VARS, n)
    cs = {c: rng.choice([0, 2, -1.5, .1, 3]) for c in rng.sample(CONSTS, rng.randint(0, 3))}
    k = rng.choice(['dyn', 'reset', 'cond', 'cond', 'bad'])
    aff = rng.random() < .5
    c = {'kind': k, 'vs': vs, 'cs': cs, 'aff': aff, 's': rng.randint(0, 10**6)}
    cn = list(cs)
    if k in ('dyn', 'reset'):
        c['e'] = [expr(rng, vs, cn, 0, aff) for _ in range(n)]
    elif k == 'cond':
        c['e'] = [f'{expr(rng, vs, cn)} {rng.choice(["<=", ">="])} {expr(rng, vs, cn)}' for _ in range(rng.randint(0, 3))]
    else:
        c['what'] = rng.choice(['expr', 'cond', 'affine'])
        good = expr(rng, vs, [], 0, False)
        x, y = rng.choice(vs), rng.choice(vs)
        if c['what'] == 'expr':
            c['e'] = [good] * rng.randint(0, n - 1) + [rng.choice(BAD).format(x=x, y=y)]
            if rng.random() < .3:
                c['e'][-1] = good + ' + ' + c['e'][-1]
                if c['e'][-1].count('unknown') == 0 and '/' in c['e'][-1]:
                    c['e'][-1] = x + '*' + y
            c['reset'] = rng.random() < .5
        elif c['what'] == 'cond':
            c['e'] = [f'{good} <= 1'] * rng.randint(0, 2) + [rng.choice(BADC).format(x=x, y=y)]
        else:
            c['e'] = [f'{x} + {rng.choice(["1", "0.5", "-3"])}']
            c['aff'] = False
    return c


def value(text, env):
    return float(eval(text, {'__builtins__': {}}, env))


def run(c):
    from hylaa import symbolic
    rng = random.Random(c['s'])
    vs, cs = c['vs'], c['cs']
    n = len(vs)
    cs0 = dict(cs)
    if c['kind'] == 'bad':
        if c['what'] == 'cond':
            expect_reject(lambda: symbolic.make_condition(vs, list(c['e']), cs, has_affine_variable=c['aff']), f'conditions {c["e"]}')
        elif c['what'] == 'affine':
            expect_reject(lambda: symbolic.make_dynamics_mat(vs, c['e'], cs, has_affine_variable=False), f'{c["e"]} without an affine variable')
            expect_reject(lambda: symbolic.make_reset_mat(vs, c['e'], cs, has_affine_variable=False), f'{c["e"]} without an affine variable')
        else:
            f = symbolic.make_reset_mat if c['reset'] else symbolic.make_dynamics_mat
            expect_reject(lambda: f(vs, c['e'], cs, has_affine_variable=c['aff']), f'expressions {c["e"]}')
        return True
    with accepts(f'translating {c["e"]}'):
        if c['kind'] == 'cond':
            m, rhs = symbolic.make_condition(vs, list(c['e']), cs, has_affine_variable=c['aff'])
        else:
            f = symbolic.make_reset_mat if c['kind'] == 'reset' else symbolic.make_dynamics_mat
            m = f(vs, list(c['e']), cs, has_affine_variable=c['aff'])
    need(cs == cs0, 'the constants were changed')
    w = n + (1 if c['aff'] else 0)
    rows = len(c['e']) + (1 if c['aff'] and c['kind'] != 'cond' else 0)
    need(len(m) == rows and all(len(r) == w for r in m), f'size of the matrix {[len(r) for r in m]}')
    if c['kind'] == 'cond':
        need(len(rhs) == rows, 'number of right-hand sides')
    for _ in range(5):
        p = [rng.choice([-2, -.5, 0, 1, 3.25, 10]) for _ in range(n)]
        env = dict(cs)
        env.update(zip(vs, p))
        full = p + [1.0] if c['aff'] else p
        for i, e in enumerate(c['e']):
            got = float(np.dot(np.array(m[i], dtype=float), full))
            if c['kind'] == 'cond':
                op = '<=' if '<=' in e else '>='
                a, b = e.split(op)
                l, r = value(a, env), value(b, env)
                s = (l - r) if op == '<=' else (r - l)
                need(abs((got - float(rhs[i])) - s) < 1e-9 * (1 + abs(l) + abs(r)), f'condition "{e}" at {env}: row gives {got} <= {rhs[i]}, the text {l} {op} {r}')
                if c['aff']:
                    need(float(m[i][-1]) == 0, 'affine column of a condition')
            else:
                want = value(e, env)
                need(abs(got - want) < 1e-9 * (1 + abs(want)), f'"{e}" at {env}: matrix gives {got}, the text {want}')
    if c['aff'] and c['kind'] != 'cond':
        need([float(x) for x in m[-1]] == [0.0] * n + [1.0 if c['kind'] == 'reset' else 0.0], f'row of the affine variable: {m[-1]}')
    return True
