'''Contracts of the time-triggered transitions (C20).  Matrices are known by identity: their shape, rows and the stored coefficients of a row.'''
from contracts_run import *
from models import world_field, Builtin

HAU = 'hybrid_automaton.'


def rows_of(I, m):
    sh = z3.Function('matrix.shape', IS, IS)(num(m.oid))
    return z3.Function('Shape.rows', IS, IS)(sh)


def row_at(I, m, i):
    return Ref('row', z3.Function('matrix.row', IS, IS, IS)(num(m.oid), num(i)))


def coeffs(kind):
    'the stored coefficients of a row: as many values as column indices'
    def f(I, r):
        n = z3.Function('row.nnz', IS, IS)(num(r.oid))
        I.ctx.fact(n >= 0)
        at = z3.Function('row.' + kind, IS, IS, IS if kind == 'indices' else RS)
        l = PList(arr=(n, lambda i: at(num(r.oid), num(i))))
        l.frozen = True
        return l
    return f


class Coeffs(Struct):
    'a row computed from others: its coefficients as a function of the column'
    def __init__(self, e):
        self.e = e

    def op(self, I, op, a, b):
        return row_op(op)(I, a, b)

    def get(self, n):
        raise Unsupported('attribute of a computed row')


def coefficient(r):
    if isinstance(r, Coeffs):
        return r.e
    if isinstance(r, Ref) and r.cls == 'row':
        f = z3.Function('row.entry', IS, IS, RS)
        return lambda j: f(num(r.oid), num(j))
    raise Unsupported('row operation')


class Differences(Struct):
    'where two rows differ'
    def __init__(self, I, a, b):
        self.a, self.b = a, b

    def get(self, n):
        if n != 'nnz':
            raise Unsupported('attribute of a comparison of rows')
        j = z3.FreshInt('j')
        return py(z3.If(z3.ForAll([j], boolz(eq(self.a(j), self.b(j)))), z3.IntVal(0), z3.IntVal(1)))


def row_op(op):
    def f(I, a, b):
        if op == 'Mult' and isinstance(b, Ref) and b.cls == 'matrix':
            return row_times(I, a, b)
        if op == 'Mult':
            if isnum(b) and not isnum(a):
                a, b = b, a
            e = coefficient(b)
            return Coeffs(lambda j: mul(a, e(j)))
        if op in ('Add', 'Sub'):
            x, y = coefficient(a), coefficient(b)
            return Coeffs(lambda j: add(x(j), y(j)) if op == 'Add' else sub(x(j), y(j)))
        if op == 'NotEq':
            note(I, 'the number of nonzeros of a comparison of rows is only compared with 0')
            return Differences(I, coefficient(a), coefficient(b))
        raise Unsupported('row operation ' + op)
    return f


def row_times(I, r, m):
    return Ref('row', z3.Function('row*matrix', IS, IS, IS)(num(r.oid), num(m.oid)))


def isnum(x):
    return isinstance(x, (int, Fraction, float)) or isz(x)


def one_row(I, r, i):
    if isz(i) or i != 0:
        raise Unsupported('index of a row')
    return r


class Stored(Struct):
    'an array of the storage of a sparse matrix, indexed through its other arrays'
    def __init__(self, name, sort):
        self.name, self.sort = name, sort

    def getitem(self, I, ix):
        note(I, 'indices into the storage of a sparse matrix that come from its own arrays are in range')
        return z3.Function('matrix.' + self.name, IS, IS, self.sort)(self.oid, num(ix))

    def get(self, n):
        raise Unsupported('attribute of storage')

    def seq(self, I):
        n = world_field(I, self.cls, 'indptr.len' if self.name.endswith('indptr') else 'nnz', 'nat', self.oid)
        at = z3.Function('matrix.' + self.name, IS, IS, self.sort)
        return n, lambda i: at(self.oid, num(i))


def stored_array(name, sort):
    def f(I, m):
        s = Stored(name, sort)
        s.oid, s.cls = num(m.oid), m.cls
        return s
    return f


MAT = {'shape': 'ref:Shape', '[]': row_at, '__iter__': lambda I, m: (rows_of(I, m), lambda i: row_at(I, m, i)), 'nnz': 'nat', 'data': stored_array('data', RS), 'indices': stored_array('indices', IS), 'indptr': stored_array('indptr', IS)}
ROW = {'OpMult': row_op('Mult'), 'OpAdd': row_op('Add'), 'OpSub': row_op('Sub'), 'OpNotEq': row_op('NotEq'), 'OpMatMult': lambda I, a, b: row_times(I, a, b), 'OpUSub': lambda I, a: row_op('Mult')(I, -1, a), '[]': one_row, 'indices': coeffs('indices'), 'data': coeffs('data'), 'nnz': 'nat', '()count_nonzero': lambda I, r: world_field(I, 'row', 'count', 'nat', r.oid), '()toarray': lambda I, r: Ref('dense', z3.Function('toarray', IS, IS)(num(r.oid)))}


def guard_rhs(I, t):
    'one right-hand side per row of the guard'
    n = rows_of(I, I.models.getattr(I, t, 'guard_csr'))
    I.ctx.fact(num(n) >= 0)
    at = z3.Function('Transition.guard_rhs', IS, IS, RS)
    l = PList(arr=(n, lambda i: at(num(t.oid), num(i))))
    l.frozen = True
    return l


TT = dict(SCHEMA, matrix=MAT, row=ROW, Shape={'__fields__': ['rows', 'cols'], 'rows': 'nat', 'cols': 'nat'}, dense={}, Mode=dict(MODE, a_csr='ref:matrix'),
          LinearConstraint={'rhs': 'real', 'csr': 'ref:row'}, Transition=dict(TRANS, guard_csr='ref:matrix', guard_rhs=guard_rhs))


def tt_scen(args, **kw):
    def f(ctx):
        w = world()
        return {'args': args(ctx), 'world': w, 'watch': {'world': w}, **kw}
    return {'any': f}


world_contract(HAU + 'get_tt_vars', tt_scen(lambda ctx: [ref('Mode', 'mode')]), P('C20'),
    'exactly the variables that change, without inputs, at a rate over constant variables only (variables without dynamics and without inputs)', '''
    def spec(mode):
        A, B = mode.a_csr, mode.b_csr
        constant = []
        for i in range(A.shape[0]):
            nz = A[i].count_nonzero()
            if B is not None:
                nz = nz + B[i].count_nonzero()
            if nz == 0:
                constant.append(i)
        res = []
        for r in range(A.shape[0]):
            if A[r].count_nonzero() == 0:
                continue
            if B is not None and B[r].count_nonzero() > 0:
                continue
            if all(A[r].data[k] == 0 or A[r].indices[k] in constant for k in range(len(A[r].indices))):
                res.append(r)
        return res
    ''', {}, TT, pre=lambda I, st: [Or(eq(z3.Function('Mode.b_csr', IS, IS)(num(st['args'][0].oid)), -1), eq(rows_of(I, I.models.getattr(I, st['args'][0], 'a_csr')), rows_of(I, I.models.getattr(I, st['args'][0], 'b_csr'))))])


def relax_scen(ctx):
    w = world()
    g = Ref('matrix', z3.Int('guard'))
    ctx.fact(rows_of(None, g) >= 0)
    t = Obj('Transition', guard_csr=g, guard_rhs=NArr((rows_of(None, g),), lambda i: z3.Function('rhs', IS, RS)(num(i))), from_mode=ref('Mode', 'mode'), name=SStr([('sym', z3.Int('name'))]))
    n = z3.Int('tt.len')
    ctx.fact(n >= 0)
    return {'args': [t, PList(arr=(n, lambda i: z3.Function('tt.at', IS, IS)(num(i)))), z3.Real('epsilon'), Builtin('print_func', lambda I, a, k: None)], 'world': w, 'watch': {'world': w, 'the right-hand sides given by the user': t.f['guard_rhs']}}


world_contract(HAU + 'check_and_relax_time_triggered', {'any': relax_scen}, P('C20'),
    """the right-hand side of exactly those guard conditions over time-triggered variables whose complement is an invariant condition grows by epsilon (in a new array), provided the whole invariant is over
    time-triggered variables; true exactly if there is one""", """
    def spec(t, tt, epsilon, out):
        inv = t.from_mode.inv_list
        if not all(all(lc.csr.data[i] == 0 or lc.csr.indices[i] in tt for i in range(len(lc.csr.indices))) for lc in inv):
            return False
        old = t.guard_rhs
        res = False
        for k in range(len(old)):
            row = t.guard_csr[k]
            if all(row.data[i] == 0 or row.indices[i] in tt for i in range(len(row.indices))):
                if any(lc.rhs == -1 * old[k] and (-1 * lc.csr != row).nnz == 0 for lc in inv):
                    t.guard_rhs = np.array(t.guard_rhs, dtype=float)
                    t.guard_rhs[k] += epsilon
                    res = True
        return res
    """, {}, TT)


def x_ints(name):
    def f(I, *args):
        n = answer(I, name + '.len', 'Int', *args)
        I.ctx.fact(n >= 0)
        h = answer(I, name, 'Int', *args)
        at = z3.Function(f'ANS_{name}.at', IS, IS, IS)
        l = PList(arr=(n, lambda i: at(h, num(i))))
        l.frozen = True
        return l
    return f


def detect_scen(ctx):
    w = world()
    s = Obj('HybridAutomaton', modes=Values(reflist('Mode', 'modes')), name=SStr([('sym', z3.Int('ha.name'))]))
    ctx.fact(z3.Int('modes.len') >= 0)
    return {'self': s, 'args': [z3.Real('step_size'), z3.Int('num_steps'), Builtin('print_func', lambda I, a, k: None)], 'world': w, 'watch': {'world': w}}


world_contract(HAU + 'HybridAutomaton.detect_tt_transitions', {'any': detect_scen}, P('C20'),
    'every transition out of a mode with dynamics and time-triggered variables is examined once, with a tolerance of a thousandth of the step over the number of steps, and marked exactly if it is time-triggered', """
    def spec(self, step_size, num_steps, out):
        for mode in self.modes.values():
            if mode.a_csr is None:
                continue
            tt = get_tt_vars(mode)
            if len(tt) == 0:
                continue
            for t in mode.transitions:
                if check_and_relax_time_triggered(t, tt, step_size / num_steps / 1000.0, out):
                    t.time_triggered = True
    """, {HAU + 'get_tt_vars': lambda I, m: x_ints('get_tt_vars')(I, m), HAU + 'check_and_relax_time_triggered': lambda I, t, v, e, f: does('check_and_relax', 'bool')(I, t, v, e)},
    dict(TT, Transition=dict(TRANS, time_triggered='~bool'), Mode=dict(MODE)), pre=lambda I, st: [le(1, st['args'][1])])


def taken_scen(ctx):
    w = world()
    return {'args': [Ref('LpInstance', z3.Int('lpi')), Ref('Transition', z3.Int('t')), z3.Real('step_size'), z3.Int('num_steps')], 'world': w, 'watch': {'world': w}}


def x_minimize(I, lpi, direction_vec, columns, *rest):
    return Ref('optimum', answer(I, 'minimize', 'Int', lpi, direction_vec, columns))


def x_dot(I, a, kw):
    return z3.Function('dot', IS, IS, RS)(*[num(token(I, x)) for x in a])


def scaled(I, a, b):
    if isinstance(a, Ref):
        a, b = b, a
    return Ref('vector', z3.Function('scaled', RS, IS, IS)(real(a), num(b.oid)))


DENSE = {'[]': lambda I, o, i: Ref('vector', z3.Function('dense.row', IS, IS, IS)(num(o.oid), num(i)))}
world_contract(HAU + 'was_tt_taken', {'any': taken_scen}, P('C20'),
    """true exactly if some guard condition over time-triggered variables has its complement (within the tolerance) in the invariant, all variables driving it are single nonzero values, it is being approached,
    and the set is flat in its direction and meets it""", """
    def spec(lpi, t, step_size, num_steps):
        eps = 2 * step_size / num_steps / 1000.0
        tt = get_tt_vars(t.from_mode)
        A = t.from_mode.a_csr
        off, n = lpi.cur_vars_offset, lpi.dims
        res = False
        for k in range(t.guard_csr.shape[0]):
            row, rhs = t.guard_csr[k], t.guard_rhs[k]
            if all(row.data[i] == 0 or row.indices[i] in tt for i in range(len(row.indices))) and any(abs(lc.rhs + rhs) < eps and (-1 * lc.csr != row).nnz == 0 for lc in t.from_mode.inv_list):
                used = []
                for i in range(len(row.indices)):
                    if row.data[i] != 0:
                        used.append(row.indices[i])
                drivers = []
                for v in used:
                    for i in range(A.indptr[v], A.indptr[v + 1]):
                        if A.data[i] != 0:
                            drivers.append(A.indices[i])
                fixed = True
                for v in drivers:
                    lo = lpi.minimize(direction_vec=[1 if j == v else 0 for j in range(n)], columns=[off + v])[0]
                    hi = lpi.minimize(direction_vec=[-1 if j == v else 0 for j in range(n)], columns=[off + v])[0]
                    if abs(hi - lo) > eps or abs(hi) < eps:
                        fixed = False
                        break
                if fixed:
                    cols = [off + j for j in range(n)]
                    rate_dir = (row * A).toarray()[0]
                    if np.dot(lpi.minimize(direction_vec=rate_dir, columns=cols), rate_dir) <= -eps:
                        d = row.toarray()[0]
                        lo = np.dot(lpi.minimize(direction_vec=d, columns=cols), d)
                        hi = np.dot(lpi.minimize(direction_vec=-1 * d, columns=cols), d)
                        if abs(hi - lo) < eps and lo <= rhs:
                            res = True
        return res
    """, {HAU + 'get_tt_vars': lambda I, m: x_ints('get_tt_vars')(I, m), 'lpinstance.LpInstance.minimize': x_minimize},
    dict(TT, __keys__=True, dense=DENSE, vector={'OpMult': scaled}, optimum={'[]': lambda I, o, i: z3.Function('optimum.at', IS, IS, RS)(num(o.oid), num(i))}, LpInstance={'dims': 'nat', 'cur_vars_offset': 'int'}),
    hooks={'numpy.dot': x_dot}, pre=lambda I, st: [le(1, st['args'][3])])
