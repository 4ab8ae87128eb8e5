'''Contracts of hylaa/lputil.py: the layout of the constraint system each set operation produces.

The specifications say, for every row and column of the store, what the operation leaves there.  What that means for the
set of states (sum, image, hull...) is the content of the lemmas in lemmas/ (checked by Lean).
'''
from contracts import *

LU = 'lputil.'


def F_(fn):
    return lambda ctx, *a: fn(ctx, *a)


def sc(argf, watch=None):
    'scenario of a module-level function'
    def setup(ctx):
        w = {}
        a = argf(ctx, w)
        return {'args': a, 'watch': w}
    return setup


def sym_mode(ctx, n, inputs, dims=None):
    d = nat(ctx, n + '.dims') if dims is None else dims
    o = Obj('Mode', mode_id=z3.Int(n + '.mode_id'), a_csr=sym_csr(ctx, n + '.a', rows=d, cols=d), b_csr=None, u_constraints_csc=None, u_constraints_rhs=None)
    if inputs:
        m, c = nat(ctx, n + '.ninputs'), nat(ctx, n + '.ncons')
        o.f['b_csr'] = sym_csr(ctx, n + '.b', rows=d, cols=m)
        o.f['u_constraints_csc'] = sym_csr(ctx, n + '.u', 'csc', rows=c, cols=m)
        o.f['u_constraints_rhs'] = sym_vec(ctx, n + '.urhs', size=c)
    return o


def bm_rows(I, lpi, entry):
    'the basis matrix rows:  0 BM 0 -I 0 (I)'
    f, lp = lpi.f, lpi.f['lp']
    br, bc = f['basis_mat_pos']
    d, cv, ie = f['dims'], f['cur_vars_offset'], f['input_effects_offsets']

    def v(r, c):
        rr, cc = sub(r, br), sub(c, bc)
        last = lambda: Fraction(0)
        if ie is not None:
            last0 = last
            last = lambda: ite(eq(c, add(ie[1], rr)), lambda: Fraction(1), last0)
        return ite(And(le(0, cc), lt(cc, d)), lambda: rl(entry(rr, cc)), lambda: ite(eq(c, add(cv, rr)), lambda: Fraction(-1), last))
    I.ctx.put(lp, 'A', RangeUpd(lp.f['A'], lambda r, c: And(le(br, r), lt(r, add(br, d))), v, (None, None)))


def S_reach(argf, both=True):
    out = {}
    for inp in (False, True):
        def setup(ctx, inp=inp):
            s = sym_lpi(ctx, 's', inp, True)
            return {'args': [s] + argf(ctx, s)}
        out['inputs' if inp else 'plain'] = setup
    return out


@contract(LU + 'get_basis_matrix', S_reach(lambda ctx, s: []), ('C02', 'C05', 'C06', 'C11'), 'the block of the store at the basis matrix position')
def get_basis_matrix(I, lpi):
    f = lpi.f
    br, bc = f['basis_mat_pos']
    d = f['dims']
    A = f['lp'].f['A']
    return NArr((d, d), lambda r, c: A(add(br, r), add(bc, c)))


@contract(LU + 'set_basis_matrix', S_reach(lambda ctx, s: [sym_mat(ctx, 'BM', z3.Int('bm.rows'), z3.Int('bm.cols'))]), ('C02', 'C05', 'C11', 'C12'),
          'refused unless square of size dims; replaces exactly the basis matrix rows by 0 BM 0 -I 0 (I)')
def set_basis_matrix(I, lpi, basis_mat):
    sh = basis_mat.f['shape']
    require(I, And(eq(sh[0], sh[1]), eq(sh[0], lpi.f['dims'])))
    bm_rows(I, lpi, basis_mat.f['fn'])


@contract(LU + 'scale_with_bm', S_reach(lambda ctx, s: [z3.Real('amount')]), ('C11', 'C12'), 'multiplies the basis matrix by the factor and changes nothing else but the other entries of its rows')
def scale_with_bm(I, lpi, amount):
    br, bc = lpi.f['basis_mat_pos']
    A = lpi.f['lp'].f['A']
    bm_rows(I, lpi, lambda r, c: mul(amount, A(add(br, r), add(bc, c))))


@contract(LU + 'bloat', S_reach(lambda ctx, s: [z3.Real('amount')]), ('C11', 'C12'),
          'adds one column per dimension with entry 1 in the basis matrix row of that dimension, bounded by -amount and amount')
def bloat(I, lpi, amount, var_name_prefix):
    require(I, le(0, amount))
    f, lp = lpi.f, lpi.f['lp']
    d, br = f['dims'], f['basis_mat_pos'][0]
    pr, pc = lp.f['nrows'], lp.f['ncols']
    grow_rows(I, lp, mul(2, d), lambda r: UP, lambda r: rl(amount))
    add_cols(I, lpi, PList(arr=(d, lambda i: SStr([var_name_prefix, i]))))

    def v(r, c):
        n = sub(c, pc)
        return ite(eq(r, add(br, n)), lambda: Fraction(1), lambda: ite(eq(r, add(pr, mul(2, n))), lambda: Fraction(1),
                   lambda: ite(eq(r, add(pr, add(mul(2, n), 1))), lambda: Fraction(-1), lambda: Fraction(0))))
    I.ctx.put(lp, 'A', RangeUpd(lp.f['A'], lambda r, c: le(pc, c), v, (None, None)))


def _ct(ctx, s):
    M = sym_csr(ctx, 'M')
    return [M, sym_vec(ctx, 'rhs')]


@contract(LU + 'add_curtime_constraints', S_reach(_ct), ('C07', 'C01', 'C05', 'C24'), 'appends the rows as <= conditions on the current variables, nothing else')
def add_curtime_constraints(I, lpi, csr, rhs_vec):
    if not (isinstance(csr, Csr) and csr.kind == 'csr'):
        refuse()
    lp = lpi.f['lp']
    n, fn = vec(I, rhs_vec)
    pr, cv = lp.f['nrows'], lpi.f['cur_vars_offset']
    sh = csr.shape
    # a matrix with more rows than right-hand sides does not fit and is refused; one with fewer leaves empty rows
    require(I, And(le(sh[0], n), le(add(cv, sh[1]), lp.f['ncols'])))
    grow_rows(I, lp, n, lambda r: UP, lambda r: rl(fn(r)))
    block_rows(I, lp, (pr, cv), sh, csr.entry)


# ------------------------------------------------------------------ new constraint stores

ZERO = Fraction(0)


def new_lp(nrows, ncols, A=None, rtype=None, rhs=None):
    z2, z1 = (lambda r, c: ZERO), (lambda r: ZERO)
    rhs = rhs or z1
    return LP(nrows=nrows, ncols=ncols, A=A or z2, rtype=rtype or (lambda r: UP), rlb=rhs, rub=rhs, ctype=lambda c: FR, obj=z1, state=None)


def new_lpi(lp, names, dims, bm, cur, ie):
    o = Obj('LpInstance', lp=lp, obj_cols=PList(items=[]), names=names, dims=dims, basis_mat_pos=bm, cur_vars_offset=cur, input_effects_offsets=ie, bm_indices=None)
    if dims is not None:
        o.f['bm_indices'] = bm_list(o)
    return o


def solver_feasible(I, lp):
    feas, X, err = oracle(I, lp)
    if I.ctx.branch(err):
        refuse('RuntimeError')
    return feas


def as_matrix(I, m):
    'csr_matrix(m) of a matrix argument: (shape, entry)'
    if isinstance(m, Csr):
        return m.shape, m.entry
    m = to_array(I, m) if isinstance(m, PList) else m
    sh, fn = m.f['shape'], m.f['fn']
    return sh, lambda r, c: inside(sh, r, c, lambda: rl(fn(r, c)))


@contract(LI + 'is_feasible', variants(any=S_lpi(lambda ctx, s: [], reach=True)), ('C03', 'C01', 'C06', 'C07', 'C11'),
          'whether the solver finds a solution of the current problem; an error without a definite answer')
def lpi_is_feasible(I, self):
    return solver_feasible(I, self.f['lp'])


def system(I, sh, ent, rhs, types):
    n, f = vec(I, rhs)
    lim = lambda r: (lambda x: ZERO if isinstance(x, Undefined) else rl(x))(f(r))    # Undefined: no such element
    ty = (lambda r: UP) if types is None else arr_of(types)[1]
    return new_lp(n, sh[1], ent, ty, lim)


def _sys(typed, kind='csr', lst=False):
    def f(ctx, w):
        M = sym_csr(ctx, 'M', kind)
        a = [M, sym_vec(ctx, 'rhs', lst=lst)]
        if typed:
            a.append(sym_types(ctx, 'types', nat(ctx, 'ntypes')))
        return a
    return f


@contract(LU + 'is_feasible', variants(plain=sc(_sys(False)), list=sc(_sys(False, lst=True)), typed=sc(_sys(True)), csc=sc(_sys(False, 'csc'))), ('C01', 'C03', 'C10', 'C11'),
          'whether the solver finds a solution of the system with the given row types; refused unless rows and right-hand sides agree')
def lu_is_feasible(I, csr, rhs, types):
    sh, ent = as_matrix(I, csr)
    n, f = vec(I, rhs)
    require(I, eq(n, sh[0]))
    if types is not None:
        require(I, eq(arr_of(types)[0], n))
    return solver_feasible(I, system(I, sh, ent, rhs, types))


def _fc(typed=False, inputs=False, dims=False, kind='csr', lst=False, half=False):
    def f(ctx, w):
        M = sym_csr(ctx, 'M', kind)
        a = [M, sym_vec(ctx, 'rhs', lst=lst), sym_mode(ctx, 'mode', inputs)]
        if typed:
            a.append(sym_types(ctx, 'types', nat(ctx, 'ntypes')))
            if not half:
                n = nat(ctx, 'nnames')
                ctx.fact(n == M.shape[1])
                a.append(sym_names(ctx, 'names', n))
            else:
                a.append(None)
        else:
            a += [None, None]
        a.append(nat(ctx, 'dims') if dims else None)
        return a
    return sc(f)


@contract(LU + 'from_constraints', variants(plain=_fc(), inputs=_fc(inputs=True), dims=_fc(dims=True), dims_inputs=_fc(dims=True, inputs=True), typed=_fc(typed=True, dims=True),
                                            typed_inputs=_fc(typed=True, inputs=True, dims=True), types_only=_fc(typed=True, half=True), list=_fc(lst=True), csc=_fc(kind='csc')),
          ('C01', 'C08', 'C10', 'C11', 'C24'),
          'refused unless shapes agree and the system is feasible; otherwise the store with rows  I 0 -I (I) | M 0 | (-I), current variables after the matrix columns')
def from_constraints(I, csr, rhs, mode, types, names, dims):
    sh, ent = as_matrix(I, csr)
    n, f = vec(I, rhs)
    require(I, eq(n, sh[0]))
    if types is not None:
        require(I, eq(arr_of(types)[0], n))
    lp0 = system(I, sh, ent, rhs, types)
    require(I, solver_feasible(I, lp0))
    if (types is None) != (names is None):
        refuse()
    C = sh[1]
    if dims is None:
        dims = C
    else:
        require(I, le(dims, C))
    d = dims
    inputs = mode.f['b_csr'] is not None
    ty = lp0.f['rtype']
    nr, nc = add(d, n), add(C, d)
    if inputs:
        nr, nc = add(nr, d), add(nc, d)
    one = lambda c, x: ite(eq(c, x), lambda: Fraction(1), lambda: ZERO)

    def A(r, c):
        def top():
            v = lambda: ite(eq(c, add(C, r)), lambda: Fraction(-1), lambda: ite(eq(c, r), lambda: Fraction(1), lambda: ZERO))
            return ite(eq(c, add(add(C, d), r)), lambda: Fraction(1), v) if inputs else v()

        def mid():
            return ite(lt(c, C), lambda: rl(ent(sub(r, d), c)), lambda: ZERO)

        def bot():
            return ite(eq(sub(c, add(C, d)), sub(r, add(d, n))), lambda: Fraction(-1), lambda: ZERO)
        return ite(lt(r, d), top, lambda: ite(lt(r, add(d, n)), mid, bot))
    inmid = lambda r: And(le(d, r), lt(r, add(d, n)))
    lim = lambda r: ite(inmid(r), lambda: rl(f(sub(r, d))), lambda: ZERO)
    lp = new_lp(nr, nc, A, lambda r: ite(inmid(r), lambda: ty(sub(r, d)), lambda: FX), lim)
    mid = mode.f['mode_id']
    nm0 = (lambda i: SStr(['m', mid, '_i', i])) if names is None else arr_of(names)[1]
    if names is not None and not names.frozen:
        I.ctx.put(names, 'v', ('arr', I.ctx.fresh('nnames'), Poison('names')))     # what happens to the list passed in is not specified
    nmf = lambda i: ite(lt(i, C), lambda: nm0(i), lambda: ite(lt(i, add(C, d)), lambda: SStr(['m', mid, '_c', sub(i, C)]), lambda: SStr(['m', mid, '_ti', sub(i, add(C, d))])))
    return new_lpi(lp, PList(arr=(nc, nmf)), d, (0, 0), C, (add(d, n), add(C, d)) if inputs else None)


ALL[LU + 'from_constraints'].unspecified = (4,)


def _box(inputs):
    def f(ctx, w):
        n = nat(ctx, 'dims')
        L, U = z3.Function('lb', IS, RS), z3.Function('ub', IS, RS)
        return [PList(arr=(n, lambda i: (L(num(i)), U(num(i))))), sym_mode(ctx, 'mode', inputs)]
    return sc(f)


@contract(LU + 'from_box', variants(plain=_box(False), inputs=_box(True)), ('C01', 'C24'),
          'refused if some lower bound exceeds its upper bound; otherwise the store of  -x_i <= -lb_i, x_i <= ub_i')
def from_box(I, box_list, mode):
    n, fn = seqview(I, box_list)
    i = z3.FreshInt('i')
    bad = z3.Exists([i], z3.And(0 <= i, i < num(n), num(fn(i)[0]) > num(fn(i)[1])))
    if I.ctx.branch(bad):
        refuse()
    R = mul(2, n)

    def half(r):
        return (num(r) / z3.IntVal(2), eq(py(num(r) % z3.IntVal(2)), 0)) if isz(r) else (r // 2, r % 2 == 0)

    def ent(r, c):
        q, low = half(r)
        return inside((R, n), r, c, lambda: ite(eq(c, q), lambda: ite(low, lambda: Fraction(-1), lambda: Fraction(1)), lambda: ZERO))

    def rhs(r):
        q, low = half(r)
        return ite(low, lambda: mul(-1, fn(q)[0]), lambda: fn(q)[1])
    return from_constraints(I, Csr('csr', (R, n), ent), NArr((R,), rhs), mode, None, None, None)


def _zono(ctx, w):
    n, g = nat(ctx, 'cdims'), nat(ctx, 'ngens')
    L, G = z3.Function('genlen', IS, IS), z3.Function('gen', IS, IS, RS)
    i = z3.Int('gi')
    ctx.fact(z3.ForAll([i], L(i) >= 0, patterns=[L(i)]))

    def gen(i):
        p = PList(arr=(py(L(num(i))), lambda d: G(num(i), num(d))))
        p.frozen = p.local = True
        return p
    return [sym_vec(ctx, 'center', size=n, lst=True), PList(arr=(g, gen)), sym_mode(ctx, 'mode', False)]


@contract(LU + 'from_zonotope', variants(plain=sc(_zono)), ('C01', 'C24'),
          'refused unless every generator has the dimension of the center; otherwise the store of  x = c*z + sum a_i g_i, z = 1, -1 <= a_i <= 1')
def from_zonotope(I, center, generator_list, mode):
    n, cf = seqview(I, center)
    g, gf = seqview(I, generator_list)
    i = z3.FreshInt('i')
    bad = z3.Exists([i], z3.And(0 <= i, i < num(g), num(seqview(I, gf(i))[0]) != num(n)))
    if I.ctx.branch(bad):
        refuse()
    C = add(add(n, 1), g)
    g2 = mul(2, g)
    R = add(2, add(g2, mul(2, n)))
    half = lambda r: (py(num(r) / z3.IntVal(2)), eq(py(num(r) % z3.IntVal(2)), 0)) if isz(r) else (r // 2, r % 2 == 0)
    at = lambda c, x, v: ite(eq(c, x), lambda: Fraction(v), lambda: ZERO)

    def ent(r, c):
        def zrow():
            return at(c, n, 1)

        def alpha():
            q, ev = half(sub(r, 2))
            v = at(c, add(add(n, 1), q), 1)
            return ite(ev, lambda: v, lambda: mul(-1, v))

        def dim():
            q, ev = half(sub(sub(r, 2), g2))
            k = sub(c, add(n, 1))
            v = ite(le(add(n, 1), c), lambda: rl(seqview(I, gf(k))[1](q)), lambda: ite(eq(c, n), lambda: rl(cf(q)), lambda: at(c, q, -1)))
            return ite(ev, lambda: v, lambda: mul(-1, v))
        v = ite(eq(r, 0), zrow, lambda: ite(eq(r, 1), lambda: mul(-1, zrow()), lambda: ite(lt(r, add(2, g2)), alpha, dim)))
        return inside((R, C), r, c, lambda: v)
    rhs = lambda r: ite(eq(r, 0), lambda: Fraction(1), lambda: ite(eq(r, 1), lambda: Fraction(-1), lambda: ite(lt(r, add(2, g2)), lambda: Fraction(1), lambda: ZERO)))
    return from_constraints(I, Csr('csr', (R, C), ent), NArr((R,), rhs), mode, None, None, n)


def _lc(ctx, s):
    M = sym_csr(ctx, 'lc', rows=1)
    return [Obj('LinearConstraint', csr=M, rhs=z3.Real('lc.rhs'))]


@contract(LU + 'check_intersection', S_reach(lambda ctx, s: _lc(ctx, s) + [z3.Real('tol')]), ('C06', 'C07', 'C09'),
          'None if the solver finds no solution; otherwise whether the minimum of the condition over the set plus the tolerance is at most its bound')
def check_intersection(I, lpi, lc, tol):
    M = lc.f['csr']
    raw = raw_of(I, M)
    set_minimize_direction(I, lpi, M, True, None)
    feas, X, err = oracle(I, lpi.f['lp'])
    if I.ctx.branch(err):
        refuse('RuntimeError')
    if not I.ctx.branch(feas):
        return None
    k, cv = z3.FreshInt('k'), lpi.f['cur_vars_offset']
    d = I.ctx.sum(k, 0, raw.ptr(1), mul(raw.dat(k), X(add(cv, raw.ind(k)))))
    return cmp('<=', add(d, tol), lc.f['rhs'])


def _iem(lgg, inputs=True, mode_inputs=True):
    def setup(ctx):
        s = sym_lpi(ctx, 's', inputs, True)
        M = sym_mat(ctx, 'IM', nat(ctx, 'im.rows'), nat(ctx, 'im.cols'))
        return {'args': [s, M, sym_mode(ctx, 'mode', mode_inputs)] + ([z3.Real('beta')] if lgg else [])}
    return setup


@contract(LU + 'add_input_effects_matrix', variants(plain=_iem(False), lgg=_iem(True), no_inputs=_iem(False, False), no_mode_inputs=_iem(False, True, False)), ('C05', 'C02', 'C10', 'C12'),
          'one column per input: the matrix in the input effects rows, the input constraints as new <= rows; with a bloating bound, one more bounded column per dimension')
def add_input_effects_matrix(I, lpi, input_mat, mode, lgg_beta):
    f, lp = lpi.f, lpi.f['lp']
    if f['input_effects_offsets'] is None or mode.f['b_csr'] is None:
        refuse()
    nv, ni = mode.f['a_csr'].shape[1], mode.f['b_csr'].shape[1]
    nc, rhs = vec(I, mode.f['u_constraints_rhs'])
    U = mode.f['u_constraints_csc']
    sh, fn = input_mat.f['shape'], input_mat.f['fn']
    if lgg_beta is None:
        require(I, eq(sh[1], ni))
    else:
        must(I, And(eq(sh[1], add(ni, nv)), lt(0, sh[1])), 'one matrix column per input and per bloating variable')
    require(I, And(eq(sh[0], nv), eq(f['dims'], nv)))
    pr, pc = lp.f['nrows'], lp.f['ncols']
    ie = f['input_effects_offsets'][0]
    grow_rows(I, lp, nc, lambda r: UP, lambda r: rl(rhs(r)))
    n = ni
    if lgg_beta is not None:
        grow_rows(I, lp, mul(2, nv), lambda r: UP, lambda r: rl(lgg_beta))
        n = add(ni, nv)
    pb = add(pr, nc)
    mid = mode.f['mode_id']
    add_cols(I, lpi, PList(arr=(n, lambda i: ite(lt(i, ni), lambda: SStr(['m', mid, '_I', i]), lambda: SStr(['m', mid, '_b', sub(i, ni)])) if lgg_beta is not None else SStr(['m', mid, '_I', i]))))

    def v(r, c):
        cc = sub(c, pc)
        inie = And(le(ie, r), lt(r, add(ie, nv)))

        def below():
            u = lambda: ite(And(le(pr, r), lt(r, pb)), lambda: rl(U.entry(sub(r, pr), cc)), lambda: ZERO)
            if lgg_beta is None:
                return u()
            w = sub(cc, ni)
            b = lambda: ite(eq(r, add(pb, mul(2, w))), lambda: Fraction(1), lambda: ite(eq(r, add(add(pb, mul(2, w)), 1)), lambda: Fraction(-1), lambda: ZERO))
            return ite(lt(cc, ni), u, b)
        return ite(inie, lambda: rl(fn(sub(r, ie), cc)), below)
    I.ctx.put(lp, 'A', RangeUpd(lp.f['A'], lambda r, c: le(pc, c), v, (None, None)))


def _ic(given_bm=True, ie=0, row=False):
    def setup(ctx):
        s = sym_lpi(ctx, 's', True if ie else False, True)
        d = s.f['dims']
        BM = sym_mat(ctx, 'BM', nat(ctx, 'bm.rows'), nat(ctx, 'bm.cols')) if given_bm else None
        l = None
        if ie:
            n, m, rr = nat(ctx, 'nie'), nat(ctx, 'nin'), nat(ctx, 'ie.rows')
            F = z3.Function('IE', IS, IS, IS, RS)

            def mat(i):
                a = NArr((rr, m), lambda r, c: F(num(i), num(r), num(c)))
                a.frozen = a.local = True
                return a
            l = PList(arr=(n, mat))
            ctx.fact(z3.And(rr == d, n * m >= 0, z3.Implies(n > 0, s.f['input_effects_offsets'][1] + d + n * m <= s.f['lp'].f['ncols'])))
        ctx.fact(z3.And(z3.Int('bm.rows') == d, z3.Int('bm.cols') == d))
        return {'args': [s, sym_vec(ctx, 'vec', size=d), z3.Real('rhs'), BM, l, z3.Int('row_index') if row else None]}
    return setup


def init_row(I, lpi, vecf, rhs, BM, iel, row):
    'row `row` becomes  vec*BM over the initial variables and vec*E_j over the input columns of step j'
    f, lp = lpi.f, lpi.f['lp']
    d = f['dims']
    bc = f['basis_mat_pos'][1]
    bm = BM.f['fn']
    k = z3.FreshInt('k')
    proj = lambda fn, c: I.ctx.sum(k, 0, d, mul(rl(vecf(k)), rl(fn(k, c))))
    base = m = n = None
    if iel is not None:
        n, matf = seqview(I, iel)
        m = matf(0).f['shape'][1]
        base = add(f['input_effects_offsets'][1], d)

    def v(r, c):
        last = lambda: ZERO
        if iel is not None:
            cc = sub(c, base)

            def there():
                q, rem = py(num(cc) / num(m)), py(num(cc) % num(m))
                return proj(matf(q).f['fn'], rem)
            last = lambda: ite(And(le(0, cc), lt(cc, mul(n, m))), there, lambda: ZERO)
        return ite(And(le(bc, c), lt(c, add(bc, d))), lambda: proj(bm, sub(c, bc)), last)
    I.ctx.put(lp, 'A', RangeUpd(lp.f['A'], lambda r, c: eq(r, row), v, (None, None)))


@contract(LU + 'add_init_constraint', variants(plain=_ic(), stored_bm=_ic(False), inputs=_ic(True, 1), replace=_ic(row=True), replace_inputs=_ic(True, 1, True)), ('C06', 'C07', 'C10'),
          'the condition  vec*x <= rhs  on the current state, expressed over the initial and input variables, as a new row or in place of a row; returns the row')
def add_init_constraint(I, lpi, vec_, rhs, basis_matrix, input_effects_list, row_index):
    f, lp = lpi.f, lpi.f['lp']
    d = f['dims']
    if basis_matrix is None:
        basis_matrix = get_basis_matrix(I, lpi)
    sh = basis_matrix.f['shape']
    must(I, And(eq(sh[0], d), eq(sh[1], d), eq(vec_.f['shape'][0], d)), 'direction and basis matrix have the dimension of the set')
    n, vf = vec(I, vec_)
    if row_index is None:
        row = lp.f['nrows']
        grow_rows(I, lp, 1, lambda r: UP, lambda r: rl(rhs))
    else:
        row = row_index
        set_constraint_rhs(I, lpi, row, rhs)
    iel = input_effects_list
    if iel is not None:
        if not I.ctx.branch(lt(0, seqview(I, iel)[0])):
            iel = None
    init_row(I, lpi, vf, rhs, basis_matrix, iel, row)
    return row


def _tr(given_bm, ie):
    f = _ic(given_bm, ie)

    def setup(ctx):
        st = f(ctx)
        s, v, rhs, BM, l, _ = st['args']
        return {'args': [s, z3.Int('old_row'), v, rhs, BM, l]}
    return setup


@contract(LU + 'try_replace_init_constraint', variants(plain=_tr(True, 0), stored_bm=_tr(False, 0), inputs=_tr(True, 1)), ('C06', 'C07'),
          'puts the new condition in place of the old row and puts the old one back as a new row exactly if the solver finds that it is not implied; returns (row, not put back)')
def try_replace_init_constraint(I, lpi, old_row_index, direction, rhs, basis_mat, input_effects_list):
    f, lp = lpi.f, lpi.f['lp']
    if basis_mat is None:
        basis_mat = get_basis_matrix(I, lpi)
    require(I, And(le(0, old_row_index), lt(old_row_index, lp.f['nrows'])))
    A, old_rhs, nc = lp.f['A'], row_rhs(lp, old_row_index), lp.f['ncols']
    old = lambda c: A(old_row_index, c)
    row = add_init_constraint(I, lpi, direction, rhs, basis_mat, input_effects_list, old_row_index)
    M = Csr('csr', (1, nc), lambda r, c: inside((1, nc), r, c, lambda: mul(-1, old(c))))
    set_minimize_direction(I, lpi, M, True, 0)
    feas, X, err = oracle(I, lp)
    if I.ctx.branch(err):
        refuse('RuntimeError')
    if not I.ctx.branch(feas):
        return (row, True)
    k = z3.FreshInt('k')
    dot = I.ctx.sum(k, 0, nc, mul(rl(old(k)), X(k)))
    if not I.ctx.branch(le(old_rhs, dot)):
        return (row, True)
    pr = lp.f['nrows']
    grow_rows(I, lp, 1, lambda r: UP, lambda r: old_rhs)
    block_rows(I, lp, (pr, 0), (1, nc), lambda r, c: old(c))
    return (row, False)


ALL[LU + 'try_replace_init_constraint'].objcols = False


def _rv(reset, mink, inputs, from_inputs=False):
    def setup(ctx):
        s = sym_lpi(ctx, 's', from_inputs, True)
        R = sym_csr(ctx, 'R') if reset else None
        nd = R.shape[0] if reset else s.f['dims']
        a = [s, z3.Int('mode_id'), z3.Int('tidx'), R]
        if mink:
            mv, nc = nat(ctx, 'mvars'), nat(ctx, 'mcons')
            a += [sym_csr(ctx, 'MK', rows=nd, cols=mv), sym_csr(ctx, 'MC', rows=nc, cols=mv), sym_vec(ctx, 'mrhs', size=nc)]
        else:
            a += [None, None, None]
        a.append(inputs)
        return {'args': a}
    return setup


@contract(LU + 'add_reset_variables', variants(identity=_rv(False, False, False), reset=_rv(True, False, False), mink=_rv(True, True, False), inputs=_rv(True, False, True),
                                               all=_rv(True, True, True, True), identity_mink=_rv(False, True, True)), ('C08', 'C07', 'C10'),
          'new rows and columns of  x\' = R x + M y, C y <= rhs, current = x\' (+ inputs); the new mode variables become the reach variables; old rows and columns are unchanged')
def add_reset_variables(I, lpi, mode_id, transition_index, reset_csr, mk, mc, mrhs, inputs):
    f, lp = lpi.f, lpi.f['lp']
    od, nc0, nr0, cv0 = f['dims'], lp.f['ncols'], lp.f['nrows'], f['cur_vars_offset']
    if reset_csr is None:
        nd, R = od, (lambda r, c: ite(eq(r, c), lambda: Fraction(1), lambda: ZERO))
    else:
        nd, R = reset_csr.shape[0], reset_csr.entry
        require(I, eq(od, reset_csr.shape[1]))
    must(I, le(1, nd), 'the successor has at least one variable')
    if mk is None:
        mv, nc, rhs = 0, 0, lambda r: ZERO
    else:
        mv = mk.shape[1]
        nc, rhs = vec(I, mrhs)
        must(I, And(eq(mk.shape[0], nd), eq(mc.shape[1], mv), eq(mc.shape[0], nc)), 'shapes of the extra reset variables agree')
    two = mul(2, nd)
    grow_rows(I, lp, two, lambda r: FX, lambda r: ZERO)
    grow_rows(I, lp, nc, lambda r: UP, lambda r: rl(rhs(r)))
    w = add(mv, two)
    if inputs:
        grow_rows(I, lp, nd, lambda r: FX, lambda r: ZERO)
        w = add(w, nd)
    add_cols(I, lpi, PList(arr=(w, lambda i: SStr(['?']))))
    at = lambda c, x, v, rest: ite(eq(c, x), lambda: Fraction(v), rest)
    z = lambda: ZERO

    def v(r, c):
        d = sub(r, nr0)
        nv = add(nc0, mv)             # first new state column

        def image():
            k = sub(c, cv0)
            old = ite(And(le(0, k), lt(k, od)), lambda: rl(R(d, k)), z)
            y = sub(c, nc0)
            m = ite(And(le(0, y), lt(y, mv)), lambda: rl(mk.entry(d, y)), z) if mk is not None else ZERO
            return at(c, add(nv, d), -1, lambda: ite(lt(c, nc0), lambda: old, lambda: m))

        def basis():
            e = sub(d, nd)
            x = (lambda: at(c, add(add(nv, two), e), 1, z)) if inputs else z
            return at(c, add(nv, e), 1, lambda: at(c, add(add(nv, nd), e), -1, x))

        def cons():
            y = sub(c, nc0)
            return ite(And(le(0, y), lt(y, mv)), lambda: rl(mc.entry(sub(d, two), y)), z)

        def total():
            return at(c, add(add(nv, two), sub(d, add(two, nc))), -1, z)
        tail = total if inputs else z
        mid = (lambda: ite(lt(d, add(two, nc)), cons, tail)) if mk is not None else tail
        return ite(lt(d, nd), image, lambda: ite(lt(d, two), basis, mid))
    I.ctx.put(lp, 'A', RangeUpd(lp.f['A'], lambda r, c: le(nr0, r), v, (None, None)))
    ie = (add(add(nr0, two), nc), add(add(nc0, mv), two)) if inputs else None
    set_reach_vars(I, lpi, nd, (add(nr0, nd), add(nc0, mv)), add(add(nc0, mv), nd), ie)
