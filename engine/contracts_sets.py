'''Contracts of the remaining set constructors of lputil.py: sets of input effects (C01), Minkowski sums, hulls and templates (C09, C10, C11).'''
from contracts_fin import *
import contracts_dag as _d
from contracts_lputil import *


def _fic(mode_inputs=False, arrays=False):
    def f(ctx, w):
        B = sym_csr(ctx, 'B')
        U = sym_csr(ctx, 'U', cols=B.shape[1])
        r = sym_vec(ctx, 'urhs', size=U.shape[0], lst=arrays)
        if arrays:
            B, U = sym_mat(ctx, 'B2', nat(ctx, 'b2.r'), nat(ctx, 'b2.c')), sym_mat(ctx, 'U2', U.shape[0], z3.Int('b2.c'))
        return [B, U, r, sym_mode(ctx, 'mode', mode_inputs)]
    return sc(f)


@contract(LU + 'from_input_constraints', variants(plain=_fic(), inputs=_fic(True), lists=_fic(arrays=True)), ('C01', 'C11', 'C24'),
          'the store of  x = B u, G u <= rhs; refused if it is infeasible')
def from_input_constraints(I, b_mat, u_constraints, u_rhs, mode):
    (n, m), B = as_matrix(I, b_mat)
    (k, m2), U = as_matrix(I, u_constraints)
    q, rf = vec(I, u_rhs)
    R, C = add(n, k), add(n, m)

    def ent(r, c):
        top = lambda: ite(lt(c, n), lambda: ite(eq(c, r), lambda: Fraction(-1), lambda: ZERO), lambda: rl(B(r, sub(c, n))))
        low = lambda: ite(lt(c, n), lambda: ZERO, lambda: rl(U(sub(r, n), sub(c, n))))
        return inside((R, C), r, c, lambda: ite(lt(r, n), top, low))
    rhs = lambda r: ite(lt(r, n), lambda: ZERO, lambda: rl(rf(sub(r, n))))
    types = PList(arr=(R, lambda r: ite(lt(r, n), lambda: FX, lambda: UP)))
    names = PList(arr=(C, lambda i: ite(lt(i, n), lambda: SStr(['m', mode.f['mode_id'], '_i', i]), lambda: SStr(['u', sub(i, n)]))))
    return from_constraints(I, Csr('csr', (R, C), ent), NArr((R,), rhs), mode, types, names, n)


# ------------------------------------------------------------------ reading a whole store
def full_constraints(I, self):
    lp = self.f['lp']
    sh, A = (lp.f['nrows'], lp.f['ncols']), lp.f['A']
    return Csr('csr', sh, lambda r, c: inside(sh, r, c, lambda: A(r, c)))


@contract(LI + 'get_full_constraints', variants(any=S_lpi(lambda ctx, s: [])), ('C02', 'C09', 'C10', 'C11', 'C12'), 'the matrix of the store, entry by entry')
def _full(I, self):
    return full_constraints(I, self)


def two(ctx, inputs=(False, False)):
    a, b = sym_lpi(ctx, 's', inputs[0], True), sym_lpi(ctx, 't', inputs[1], True)
    return a, b


def _chull(inputs):
    def f(ctx, w):
        return [PList(items=[('one', x) for x in two(ctx, inputs)]), Obj('Mode', mode_id=z3.Int('mode_id'))]
    return sc(f)


def rhs_of(lp):
    return lambda r: row_rhs(lp, r)


@contract(LU + '_aggregate_chull_recursive', variants(two=_chull((False, False)), inputs=_chull((True, False))), ('C10', 'C09'),
          """the system of the closed convex hull of two sets  A1 x + L1 y <= r1,  A2 x + L2 y <= r2:  A1 x + A1 z + L1 y1 + a r1 <= r1,  -A2 z + L2 y2 - a r2 <= 0; refused for different dimensions""")
def chull2(I, lpi_list, mode):
    a, b = seqview(I, lpi_list)[1](0), seqview(I, lpi_list)[1](1)
    d = a.f['dims']
    require(I, eq(b.f['dims'], d))
    la, lb = a.f['lp'], b.f['lp']
    n1, n2, c1, c2, v1, v2 = la.f['nrows'], lb.f['nrows'], la.f['ncols'], lb.f['ncols'], a.f['cur_vars_offset'], b.f['cur_vars_offset']
    m1, m2 = sub(c1, d), sub(c2, d)
    o1 = mul(2, d)
    o2 = add(o1, m1)
    oa = add(o2, m2)
    rest = lambda j, v: ite(lt(j, v), lambda: j, lambda: add(j, d))      # the columns other than the current variables

    def A(r, c):
        def top():
            x = ite(lt(c, d), lambda: c, lambda: sub(c, d))
            j = sub(c, o1)
            return ite(lt(c, o1), lambda: la.f['A'](r, add(v1, x)), lambda: ite(lt(c, o2), lambda: la.f['A'](r, rest(j, v1)), lambda: ite(lt(c, oa), lambda: ZERO, lambda: row_rhs(la, r))))

        def low():
            q = sub(r, n1)
            mid = lambda: ite(lt(c, o1), lambda: mul(-1, lb.f['A'](q, add(v2, sub(c, d)))), lambda: ZERO)
            return ite(lt(c, d), lambda: ZERO, lambda: ite(lt(c, o2), mid, lambda: ite(lt(c, oa), lambda: lb.f['A'](q, rest(sub(c, o2), v2)), lambda: mul(-1, row_rhs(lb, q)))))
        return ite(lt(r, n1), top, low)
    R, C = add(n1, n2), add(oa, 1)
    lp = new_lp(R, C, A, lambda r: ite(lt(r, n1), lambda: la.f['rtype'](r), lambda: lb.f['rtype'](sub(r, n1))), lambda r: ite(lt(r, n1), lambda: row_rhs(la, r), lambda: ZERO))
    nm = lambda i: ite(lt(i, d), lambda: SStr(['m', mode.f['mode_id'], '_i', i]), lambda: SStr(['?']))
    return Obj('LpInstance', lp=lp, obj_cols=PList(items=[]), names=PList(arr=(C, nm)), dims=d, basis_mat_pos=None, cur_vars_offset=0, input_effects_offsets=None, bm_indices=None)


# ------------------------------------------------------------------ hulls of any number of sets

many_src = program(LU + '_aggregate_chull_recursive', '''
    def spec(lpi_list, mode):
        m = len(lpi_list) // 2
        if len(lpi_list) < 2:
            raise AssertionError('too few sets')
        first = aggregate_chull(lpi_list[:m], mode)
        second = aggregate_chull(lpi_list[m:], mode)
        return aggregate_chull([first, second], mode)
    ''')


def _many(ctx):
    w = world()
    return {'args': [reflist('LpInstance', 'sets'), ref('Mode', 'mode')], 'world': w, 'watch': {'world': w}}


_c = ALL[LU + '_aggregate_chull_recursive']
_two = _c.spec_fn
_c.spec_fn = lambda I, l, mode: _two(I, l, mode) if isinstance(mode, Obj) else many_src(I, l, mode)
_c.scenarios['many'] = _many
_c.env = {LU + 'aggregate_chull': does('aggregate_chull', 'ref:LpInstance')}
_c.pre = lambda I, st: [Not(eq(seqview(I, st['args'][0])[0], 2))] if isinstance(st['args'][1], Ref) else []
_c.schema = _d.SCH
_c.doc += '; more than two sets: the hull of the hulls of the two halves of the list'

LPA = {LI + 'clone': does('clone', 'ref:LpInstance'), LI + 'add_rows_less_equal': does('add_rows_less_equal'), LU + '_aggregate_chull_recursive': does('aggregate_chull_recursive', 'ref:LpInstance'),
       LI + 'get_full_constraints': looks('full_constraints', 'ref:matrix'), LI + 'get_rhs': looks('rhs', 'ref:vector'), LI + 'get_types': looks('types', 'ref:Types'), LI + 'get_names': looks('names', 'ref:Names'),
       LU + 'from_constraints': does('from_constraints', 'ref:LpInstance')}

world_contract(LU + 'aggregate_chull', {'any': _many}, P('C10', 'C09'), """a copy of a single set; otherwise the hull of copies of the sets, each with the row 0 <= 1 added, rebuilt as a set of its first variables; the sets passed in are not changed""", '''
    def spec(lpi_list, mode):
        if len(lpi_list) == 1:
            return lpi_list[0].clone()
        copies = [None if False else complete(s) for s in lpi_list]
        h = _aggregate_chull_recursive(copies, mode)
        return from_constraints(h.get_full_constraints(), h.get_rhs(), mode, h.get_types(), h.get_names(), h.dims)
    '''.replace("copies = [None if False else complete(s) for s in lpi_list]", '''copies = []
        for s in lpi_list:
            c = s.clone()
            c.add_rows_less_equal([1])
            copies.append(c)'''), LPA, dict(_d.SCH, LpInstance=dict(_d.SCH.get('LpInstance', {}), dims='int')))


# ------------------------------------------------------------------ sums
def _mink(n):
    def f(ctx, w):
        return [PList(items=[('one', sym_lpi(ctx, f's{i}', False, True)) for i in range(n)]), sym_mode(ctx, 'mode', False)]
    return sc(f)


@contract(LU + 'minkowski_sum', variants(one=_mink(1), two=_mink(2), three=_mink(3)), ('C11', 'C12'),
          'the store of  x = x1 + .. + xn  with the rows of every set on its own columns; refused for different dimensions, or if it is infeasible', bounded='lists of one, two and three sets (sets of every size)')
def minkowski_sum(I, lpi_list, mode):
    n, at = seqview(I, lpi_list)
    ls = [at(i) for i in range(n)]
    d = ls[0].f['dims']
    for l in ls:
        require(I, eq(l.f['dims'], d))
    rows, cols = [d], [d]      # the first row and column of every set
    for l in ls:
        rows.append(add(rows[-1], l.f['lp'].f['nrows']))
        cols.append(add(cols[-1], l.f['lp'].f['ncols']))
    R, C = rows[-1], cols[-1]

    def block(r, f, first):
        v = lambda: f(ls[-1], sub(r, rows[n - 1]), n - 1)
        for i in range(n - 2, -1, -1):
            v = (lambda i=i, v=v: ite(lt(r, rows[i + 1]), lambda: f(ls[i], sub(r, rows[i]), i), v))
        return ite(lt(r, d), first, v)

    def A(r, c):
        def first():
            v = lambda: ite(eq(c, r), lambda: Fraction(1), lambda: ZERO)
            for i, l in enumerate(ls):
                v = (lambda i=i, l=l, v=v: ite(eq(c, add(cols[i], add(l.f['cur_vars_offset'], r))), lambda: Fraction(-1), v))
            return v()
        return block(r, lambda l, q, i: ite(And(le(cols[i], c), lt(c, cols[i + 1])), lambda: l.f['lp'].f['A'](q, sub(c, cols[i])), lambda: ZERO), first)
    rhs = lambda r: block(r, lambda l, q, i: row_rhs(l.f['lp'], q), lambda: ZERO)
    typ = lambda r: block(r, lambda l, q, i: l.f['lp'].f['rtype'](q), lambda: FX)
    names = PList(arr=(C, lambda i: ite(lt(i, d), lambda: SStr(['m', mode.f['mode_id'], '_i', i]), lambda: SStr(['?']))))
    ent = lambda r, c: inside((R, C), r, c, lambda: A(r, c))
    return from_constraints(I, Csr('csr', (R, C), ent), NArr((R,), rhs), mode, PList(arr=(R, typ)), names, d)


# ------------------------------------------------------------------ extents of a set
def minimized(fail):
    'minimize over the abstract heap: an answer that depends on the set, the direction and the requested columns'
    def f(I, lpi, direction_vec=None, columns=None, fail_on_unsat=True, print_on=False):
        if direction_vec is None or columns is None:
            raise Unsupported('minimize without direction')
        a = (lpi, I.models.aslist(I, direction_vec) if isinstance(direction_vec, PList) else direction_vec, columns, fail_on_unsat)
        r = looks('minimize', 'opt:vector' if fail else 'ref:vector')(I, *a)
        return r
    return f


BOX = dict(_d.SCH, __inf__=True, LpInstance=dict(_d.SCH.get('LpInstance', {}), dims='nat', cur_vars_offset='nat'), vector=dict(VEC))

world_contract(LU + 'get_box_center', {'any': lambda ctx: (lambda w: {'args': [ref('LpInstance', 'lpi')], 'world': w, 'watch': {'world': w}})(world())}, P('C11', 'C09'),
    'for every dimension the middle between the smallest and the largest value of the current variable; None if a minimisation has no answer', '''
    def spec(lpi):
        c = []
        for d in range(lpi.dims):
            low = lpi.minimize(direction_vec=[1 if i == d else 0 for i in range(lpi.dims)], columns=[lpi.cur_vars_offset + d], fail_on_unsat=False)
            high = lpi.minimize(direction_vec=[-1 if i == d else 0 for i in range(lpi.dims)], columns=[lpi.cur_vars_offset + d], fail_on_unsat=False)
            if low is None or high is None:
                return None
            c.append((low[0] + high[0]) / 2)
        return c
    ''', {LI + 'minimize': minimized(True)}, BOX)

world_contract(LU + 'compute_radius_inf', {'any': lambda ctx: (lambda w: {'args': [ref('LpInstance', 'lpi')], 'world': w, 'watch': {'world': w}})(world())}, P('C11', 'C12'),
    'the largest absolute value of a current variable at its two extreme points', '''
    def spec(lpi):
        r = -float('inf')
        for n in range(lpi.dims):
            for s in [1.0, -1.0]:
                v = lpi.minimize([s if i == n else 0.0 for i in range(lpi.dims)], columns=[lpi.cur_vars_offset + n])
                r = max(r, abs(v[0]))
        return r
    ''', {LI + 'minimize': minimized(False)}, BOX)


# ------------------------------------------------------------------ membership
def x_rows(I, a, kw):
    'a sparse matrix from its three lists'
    (d, i, p), sh = a[0], kw.get('shape')
    return Ref('matrix', pure('csr', token(I, d), token(I, i), token(I, p), token(I, sh[0]), token(I, sh[1])))


world_contract(LU + 'is_point_in_lpi', {'any': lambda ctx: (lambda w: {'args': [sym_vec(ctx, 'point', lst=True), ref('LpInstance', 'lpi')], 'world': w, 'watch': {'world': w}})(world())}, P('C11'),
    'whether a copy of the set with the rows  x_i <= p_i, -x_i <= -p_i  on the current variables has a solution', '''
    def spec(point, orig_lpi):
        if len(point) > orig_lpi.dims:
            raise AssertionError('too many coordinates')
        data, inds, ptr, rhs = [], [], [0], []
        for i in range(len(point)):
            data.append(1)
            inds.append(i)
            ptr.append(2 * i + 1)
            rhs.append(point[i])
            data.append(-1)
            inds.append(i)
            ptr.append(2 * i + 2)
            rhs.append(-point[i])
        c = orig_lpi.clone()
        add_curtime_constraints(c, csr_matrix((data, inds, ptr), dtype=float, shape=(2 * len(point), len(point))), rhs)
        return c.is_feasible()
    ''', {LI + 'clone': does('clone', 'ref:LpInstance'), LU + 'add_curtime_constraints': does('add_curtime_constraints'), LI + 'is_feasible': looks('is_feasible', 'bool')}, BOX, hooks={'scipy.sparse.csr_matrix': x_rows})


# ------------------------------------------------------------------ template sets
def rows_matrix(I, m):
    f = z3.Function('mrow', IS, IS, IS)
    s = world_field(I, 'matrix', 'shape', 'ref:Shape', m.oid)
    return world_field(I, 'Shape', 'rows', 'nat', s.oid), lambda i: Ref('vector', f(num(m.oid), num(i)))


AGG = dict(BOX, Shape={'__fields__': ['rows', 'cols'], 'rows': 'nat', 'cols': 'nat'}, matrix={'shape': 'ref:Shape', '__iter__': rows_matrix, 'dtype': lambda I, o: DType('float'), '__class__': 'ndarray', '()check_format': lambda I, o: None}, vector=dict(VEC, OpUSub=lambda I, v: Ref('vector', pure('negated', num(v.oid)))))

world_contract(LU + 'aggregate', {'any': lambda ctx: (lambda w: {'args': [reflist('LpInstance', 'sets'), ref('matrix', 'directions'), ref('Mode', 'mode')], 'world': w, 'watch': {'world': w}})(world())}, P('C09', 'C10', 'C12'),
    """for every direction that is not (almost) zero the conditions  d x <= max, -d x <= -min  with the largest and smallest values over all sets, as a new set""", '''
    def spec(lpi_list, D, mode):
        if D.shape[0] < D.shape[1]:
            raise AssertionError('too few directions')
        if len(lpi_list) < 2:
            raise AssertionError('one set')
        data, inds, ptr, rhs = [], [], [0], []
        for d in D:
            if abs(np.linalg.norm(d)) < 1e-6:
                continue
            cols = [i for i, x in enumerate(d) if x != 0]
            pos = [x for x in d if x != 0]
            neg = [-x for x in pos]
            high, low = -float('inf'), float('inf')
            for s in lpi_list:
                if D.shape[1] != s.dims:
                    raise AssertionError('dimensions')
                at = [i + s.cur_vars_offset for i in cols]
                high = max(high, np.dot(s.minimize(direction_vec=-d, columns=at), pos))
                low = min(low, np.dot(s.minimize(direction_vec=d, columns=at), pos))
            inds += cols
            data += pos
            ptr.append(len(data))
            rhs.append(high)
            inds += cols
            data += neg
            ptr.append(len(data))
            rhs.append(-low)
        return from_constraints(csr_matrix((data, inds, ptr), shape=(len(ptr) - 1, D.shape[1])), rhs, mode)
    ''', {LI + 'minimize': minimized(False), LU + 'from_constraints': does('from_constraints', 'ref:LpInstance')}, AGG,
    hooks={'scipy.sparse.csr_matrix': x_rows, 'numpy.dot': lambda I, a, kw: z3.Function('FN_dot', IS, IS, RS)(token(I, a[0]), token(I, a[1])), 'numpy.linalg.norm': lambda I, a, kw: z3.Function('FN_norm', IS, RS)(token(I, a[0]))})
