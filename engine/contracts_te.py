'''Contracts of time_elapse.py and time_elapse_expm.py (C04): the matrices handed out for a step number.

Ghost reading of the class TimeElapseExpmMult (tau = step size, n = number of inputs):
    one_step_matrix_exp            is None or e^{A tau}
    one_step_input_effects_matrix  is the one-step input effects V (V = the solution at tau of x' = A x + b_c from 0, column
                                   by column; V = tau B once the LGG model is selected)
    cur_basis_matrix, cur_input_effects_matrix are those of step cur_step, whenever cur_step >= 1
and the matrices of step s are   e^{A s tau}   and   e^{A (s-1) tau} V  (followed by the block e^{A (s-1) tau} under LGG;
None at step 0 or without inputs).
'''
from contracts import *
import algebra

TE = 'time_elapse_expm.TimeElapseExpmMult.'
TL = 'time_elapse.TimeElapser.'


def bm_of(o, s):
    te = o.f['time_elapser']
    return algebra.arr((1, mul(s, te.f['step_size']), 'I'), (o.f['dims'], o.f['dims']))


def v_alg(o):
    tau = o.f['time_elapser'].f['step_size']
    return (tau, 0, 'B') if o.f['use_lgg'] else (1, 0, 'J')


def ie_of(I, o, s):
    'input effects of step s >= 1'
    d, m, tau = o.f['dims'], o.f['time_elapser'].f['inputs'], o.f['time_elapser'].f['step_size']
    k, _, x = v_alg(o)
    t = mul(sub(s, 1), tau)
    v = algebra.arr((k, t, x), (d, m))
    if not o.f['use_lgg']:
        return v
    return I.models.concat(I, [v, algebra.arr((1, t, 'I'), (d, d))], 1)


def te_obj(ctx, inputs, lgg, init, cur, n='te'):
    'an object satisfying the class invariant'
    algebra.axioms(ctx)
    d, tau = nat(ctx, n + '.dims', 1), z3.Real(n + '.tau')
    ctx.fact(tau > 0)
    a = sym_csr(ctx, n + '.a', 'csc', d, d)
    a.alg = (1, 0, 'A')
    b = None
    if inputs:
        m = nat(ctx, n + '.inputs', 1)
        E = algebra.ENT['B']
        b = sym_csr(ctx, n + '.b', 'csc', d, m)
        b.entry = lambda r, c, sh=(d, m): inside(sh, r, c, lambda: E(num(r), num(c)))
        b.alg = (1, 0, 'B')
    mode = Obj('Mode', a_csr=a, b_csr=b)
    te = Obj('TimeElapser', mode=mode, step_size=tau, dims=d, inputs=m if inputs else 0, time_elapse_obj=None)
    o = Obj('TimeElapseExpmMult', time_elapser=te, a_csc=a, b_csc=b, dims=d, cur_step=0, cur_basis_matrix=None, cur_input_effects_matrix=None,
            one_step_matrix_exp=None, one_step_input_effects_matrix=None, use_lgg=lgg)
    te.f['time_elapse_obj'] = o
    if init:
        o.f['one_step_matrix_exp'] = algebra.arr((1, tau, 'I'), (d, d))
        if inputs:
            o.f['one_step_input_effects_matrix'] = algebra.arr(v_alg(o), (d, m))
    if cur == 'some':
        s = z3.Int(n + '.cur_step')
        ctx.fact(s >= 1)
        o.f['cur_step'] = s
        o.f['cur_basis_matrix'] = bm_of(o, s)
        if inputs:
            class J:
                pass
            j = J()
            j.ctx, j.models, j.where = ctx, Models(), lambda: n
            o.f['cur_input_effects_matrix'] = ie_of(j, o, s)
    elif cur == 'stale':
        # after a change of the approximation model: no step is current
        o.f['cur_step'] = -1
        o.f['cur_basis_matrix'] = algebra.arr((1, z3.Real(n + '.old_t'), 'I'), (d, d))
        if inputs:
            o.f['cur_input_effects_matrix'] = algebra.arr((1, z3.Real(n + '.old_t2'), 'J'), (d, m))
    return o


def te_inv(I, o, nm):
    'the class invariant, as obligations'
    ctx = I.ctx
    ob = lambda what, g: ctx.oblige(f'{nm}: class invariant: {what}', g, 'inv')
    d, te = o.f['dims'], o.f['time_elapser']
    one = o.f['one_step_matrix_exp']
    if one is not None:
        same_value(I, one, bm_of(o, 1), f'{nm}: class invariant: one-step matrix exponential')
    if o.f['b_csc'] is not None and one is not None:
        same_value(I, o.f['one_step_input_effects_matrix'], algebra.arr(v_alg(o), (d, te.f['inputs'])), f'{nm}: class invariant: one-step input effects')
    s = o.f['cur_step']
    if s is None or (isz(s) and not z3.is_int(s)):
        ob('step number', False)
        return
    if not ctx.branch(le(1, s)):
        return
    ob('current matrices are initialised with their step', one is not None)
    same_value(I, o.f['cur_basis_matrix'], bm_of(o, s), f'{nm}: class invariant: current basis matrix')
    same_value(I, o.f['cur_input_effects_matrix'], ie_of(I, o, s) if o.f['b_csc'] is not None else None, f'{nm}: class invariant: current input effects')


def te_scen(argf, which=None, elapser=False):
    out = {}
    for inp, lgg in ((False, False), (True, False), (True, True)):
        for init, cur in ((False, 'none'), (True, 'none'), (True, 'some'), (True, 'stale')):
            if (lgg and (not init or cur == 'none')) or (cur == 'stale' and not lgg):
                continue
            nm = f"{'inputs' if inp else 'plain'}{'-lgg' if lgg else ''}-{'ready' if init else 'new'}-{cur}"
            if which and not which(inp, lgg, init, cur):
                continue

            def setup(ctx, inp=inp, lgg=lgg, init=init, cur=cur):
                o = te_obj(ctx, inp, lgg, init, cur)
                return {'self': o.f['time_elapser'] if elapser else o, 'args': argf(ctx, o)}
            out[nm] = setup
    return out


def step_arg(ctx, o):
    s = z3.Int('step_num')
    ctx.fact(s >= 0)
    return [s]


@contract(TE + 'init_matrices', te_scen(lambda ctx, o: [], lambda i, l, r, c: not r), ('C04',), 'sets the one-step matrices: e^{A tau} and, column by column, the one-step input effects')
def init_matrices(I, o):
    te = o.f['time_elapser']
    tau, d = te.f['step_size'], o.f['dims']
    I.ctx.put(o, 'one_step_matrix_exp', algebra.arr((1, tau, 'I'), (d, d)))
    if o.f['b_csc'] is not None:
        I.ctx.put(o, 'one_step_input_effects_matrix', algebra.arr((1, 0, 'J'), (d, te.f['inputs'])))


@contract(TE + 'assign_basis_matrix', te_scen(step_arg), ('C04', 'C05', 'C12'),
          'for every step number and every history of requests: the matrices of that step, and the class invariant afterwards')
def assign_basis_matrix(I, o, step):
    must(I, le(0, step), 'the step number is not negative')
    if o.f['one_step_matrix_exp'] is None:
        init_matrices(I, o)
    I.ctx.put(o, 'cur_step', step)
    I.ctx.put(o, 'cur_basis_matrix', bm_of(o, step))
    ie = None
    if o.f['b_csc'] is not None and I.ctx.branch(le(1, step)):
        ie = ie_of(I, o, step)
    I.ctx.put(o, 'cur_input_effects_matrix', ie)


def assign_check(I, run, st1, st2, args):
    o, step = st1['self'], st1['args'][0]
    kind, e = run()
    I.ctx.oblige(f'assign_basis_matrix: does not raise ({e})' if kind == 'raise' else 'assign_basis_matrix: accepts every step number', kind == 'return', 'post')
    if kind == 'raise':
        return kind
    I.stack = [TE + 'assign_basis_matrix']
    same_value(I, o.f['cur_basis_matrix'], bm_of(o, step), 'basis matrix of the requested step')
    if o.f['b_csc'] is not None and I.ctx.branch(le(1, step)):
        same_value(I, o.f['cur_input_effects_matrix'], ie_of(I, o, step), 'input effects of the requested step')
    else:
        same_value(I, o.f['cur_input_effects_matrix'], None, 'no input effects at step 0 or without inputs')
    te_inv(I, o, 'assign_basis_matrix')
    for f in ('use_lgg', 'dims', 'time_elapser', 'a_csc', 'b_csc'):
        x, y = st1['self'].f[f], st2['self'].f[f]
        I.ctx.oblige(f'assign_basis_matrix: {f} unchanged', x is y or (isinstance(x, (Obj, Csr)) and type(x) is type(y) and x is o.f[f]) or py(eq(x, y)) is True, 'post')
    return kind


ALL[TE + 'assign_basis_matrix'].verify_fn = assign_check
for c in ('assign_basis_matrix', 'init_matrices'):
    pass


@contract(TE + 'use_lgg_approx', te_scen(lambda ctx, o: [], lambda i, l, r, c: i and r and not l), ('C04', 'C12'),
          'one-step input effects become tau B; matrices of earlier requests are no longer current')
def use_lgg(I, o):
    must(I, o.f['b_csc'] is not None and o.f['one_step_matrix_exp'] is not None, 'there are inputs and the one-step matrices are computed')
    I.ctx.put(o, 'use_lgg', True)
    I.ctx.put(o, 'one_step_input_effects_matrix', algebra.arr(v_alg(o), (o.f['dims'], o.f['time_elapser'].f['inputs'])))
    I.ctx.put(o, 'cur_step', -1)


def lgg_check(I, run, st1, st2, args):
    o = st1['self']
    kind, e = run()
    I.ctx.oblige('use_lgg_approx: does not raise', kind == 'return', 'post')
    if kind == 'return':
        I.stack = [TE + 'use_lgg_approx']
        I.ctx.oblige('use_lgg_approx: selects the model', o.f['use_lgg'] is True, 'post')
        te_inv(I, o, 'use_lgg_approx')
    return kind


ALL[TE + 'use_lgg_approx'].verify_fn = lgg_check


def first_scen(argf, te_only=False):
    out = {}
    for inp in (False, True):
        def setup(ctx, inp=inp):
            te = te_obj(ctx, inp, False, False, 'none').f['time_elapser']
            te.f['time_elapse_obj'] = None
            return argf(ctx, te)
        out[('inputs' if inp else 'plain') + '-first'] = setup
    return out


@contract(TE + '__init__', first_scen(lambda ctx, te: {'self': Obj('TimeElapseExpmMult'), 'args': [te]}), ('C04',), 'nothing computed yet, default approximation model')
def expm_init(I, o, te):
    m = te.f['mode']
    for f, v in (('time_elapser', te), ('a_csc', csc_of(m.f['a_csr'])), ('b_csc', csc_of(m.f['b_csr'])), ('dims', te.f['dims']), ('cur_step', 0), ('cur_basis_matrix', None),
                 ('cur_input_effects_matrix', None), ('one_step_matrix_exp', None), ('one_step_input_effects_matrix', None), ('use_lgg', False)):
        I.ctx.put(o, f, v)


def csc_of(m):
    if m is None:
        return None
    r = Csr('csc', m.shape, m.entry)
    if algebra.alg_of(m) is not None:
        r.alg = m.alg
    return r


@contract(TL + '__init__', first_scen(lambda ctx, te: {'self': Obj('TimeElapser'), 'args': [te.f['mode'], te.f['step_size']]}), ('C04',), 'records the mode, the step size and the sizes')
def te_init(I, te, mode, step_size):
    a, b = mode.f['a_csr'], mode.f['b_csr']
    for f, v in (('mode', mode), ('step_size', step_size), ('dims', a.shape[0]), ('inputs', 0 if b is None else b.shape[1]), ('time_elapse_obj', None)):
        I.ctx.put(te, f, v)


@contract(TL + 'get_basis_matrix', {**te_scen(step_arg, elapser=True), **first_scen(lambda ctx, te: {'self': te, 'args': step_arg(ctx, None)})}, ('C04', 'C05'),
          'returns the matrices of the requested step; none of its own checks fails')
def te_get_basis_matrix(I, te, step):
    must(I, le(0, step), 'the step number is not negative')
    o = te.f['time_elapse_obj']
    if o is None:
        o = Obj('TimeElapseExpmMult')
        expm_init(I, o, te)
        I.ctx.put(te, 'time_elapse_obj', o)
    assign_basis_matrix(I, o, step)
    return (o.f['cur_basis_matrix'], o.f['cur_input_effects_matrix'])


def expm_multiply(I, a, kw):
    '''the last column of exp([[A, b], [0, 0]] tau) is (solution at tau of x' = A x + b from 0, 1)'''
    mat, v = a
    ctx = I.ctx
    note(I, 'scipy expm_multiply(M, v) is exp(M) v; the last column of exp([[A, b], [0, 0]] tau) holds the solution at tau of x\' = A x + b from 0 (Van Loan)')
    g = I.ghost
    A, B, tau, d = g['A'], g['B'], g['tau'], g['dims']
    sh, fv = mat.shape, v.f['fn']
    r, q = z3.FreshInt('ar'), z3.FreshInt('ac')
    ks = [fr.k for fr in ctx.frames if fr.k is not None]
    c = ks[-1] if ks else 0
    ob = lambda w, x: ctx.oblige(f'{I.where()}: augmented system: {w}', x, 'pre')
    ob('shape', And(eq(sh[0], add(d, 1)), eq(sh[1], add(d, 1)), eq(v.f['shape'][0], add(d, 1))))
    n = len(ctx.pcs[-1])
    inr = [0 <= r, r <= num(d), 0 <= q, q <= num(d)]
    with_hyp(ctx, inr, lambda: ob('dynamics block', Implies(And(lt(r, d), lt(q, d)), eq(mat.entry(r, q), mul(tau, A.entry(r, q))))))
    with_hyp(ctx, inr, lambda: ob('input column', Implies(And(lt(r, d), eq(q, d)), eq(mat.entry(r, q), mul(tau, B.entry(r, c))))))
    with_hyp(ctx, inr, lambda: ob('last row is zero', Implies(eq(r, d), eq(mat.entry(r, q), 0))))
    with_hyp(ctx, inr, lambda: ob('initial state', eq(fv(r), ite(eq(r, d), lambda: Fraction(1), lambda: Fraction(0)))))
    J = algebra.ENT['J']
    last = ctx.fresh('xm', 'Real')
    return NArr((add(d, 1),), lambda i: ite(lt(i, d), lambda: py(J(num(i), num(c))), lambda: last))


def init_check(I, run, st1, st2, args):
    o = st1['self']
    I.ghost = {'A': o.f['a_csc'], 'B': o.f['b_csc'], 'tau': o.f['time_elapser'].f['step_size'], 'dims': o.f['dims']}
    I.prog.hooks['scipy.sparse.linalg.expm_multiply'] = expm_multiply
    kind, e = run()
    I.ctx.oblige(f'init_matrices: does not raise ({e if kind == "raise" else ""})', kind == 'return', 'post')
    if kind == 'return':
        I.stack = [TE + 'init_matrices']
        I.ctx.oblige('init_matrices: the one-step matrix exponential is computed', o.f['one_step_matrix_exp'] is not None, 'post')
        te_inv(I, o, 'init_matrices')
    return kind


ALL[TE + 'init_matrices'].verify_fn = init_check
