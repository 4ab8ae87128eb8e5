'''Contracts of the counterexample replay (C17) and of the remaining functions of symbolic.py (C18), result.py, stateset.py and check_trace.py.'''
from contracts_model import *
from contracts import sym_vec, sym_csr, nat
from contracts_ha import row_dot, mat_variants, stored, flat, a_mode as a_mode_obj

RS_, CT = 'result.', 'check_trace.'


# ------------------------------------------------------------------ replay of a counterexample
def row_times_vec(I, a, b):
    'one row times a vector: an array of one number, known by its value'
    return Ref('number', pure('row times vector', num(a.oid), num(b.oid)))


def number_le(I, a, b):
    return le(z3.Function('number.value', IS, RS)(num(a.oid)), b)


def mat_times(I, a, b):
    'matrix times vector'
    r = Ref('vector', pure('matrix times vector', num(a.oid), num(b.oid)))
    I.ctx.fact(eq(world_field(I, 'vector', 'size', 'nat', r.oid), world_field(I, 'Shape', 'rows', 'nat', world_field(I, 'matrix', 'shape', 'ref:Shape', a.oid).oid)))
    return r


def x_linspace(I, a, kw):
    "num numbers that depend on the ends only (the first is the start, the last the end)"
    lo, hi, n = a[0], a[1], kw['num']
    I.ctx.oblige(f'{I.where()}: linspace: number of points', le(1, n))
    f = z3.Function('FN_linspace', RS, RS, IS, IS, RS)
    return PList(arr=(n, lambda i: f(real(lo), real(hi), num(n), num(i))))


def x_odeint(I, a, kw):
    'one state per time: a function of the derivative function, the first state, the times and the tolerances'
    der, start, times = a
    n, _ = seqview(I, times)
    for q in ('rtol', 'atol'):
        I.ctx.oblige(f'{I.where()}: odeint: {q}', And(lt(0, kw[q]), le(kw[q], Fraction(1, 10 ** 7))) if q in kw else False)
    t = pure('odeint', token(I, der), token(I, start), token(I, times))
    at = z3.Function('FN_odeint.state', IS, IS, IS)
    l = PList(arr=(n, lambda i: Ref('vector', at(t, num(i)))))
    l.frozen = True
    return l


def x_allclose(I, a, kw):
    return z3.Function('FN_allclose', IS, IS, z3.BoolSort())(token(I, a[0]), token(I, a[1]))


RPL = dict(TT, vector=VEC, number={'OpLtE': number_le}, condition={'OpMult': row_times_vec}, matrix={'shape': 'ref:Shape', 'OpMult': mat_times}, Mode=dict(MODE, a_csr='ref:matrix'), LinearConstraint={'rhs': 'real', 'csr': 'ref:condition'},
           Segment={'mode': 'ref:Mode', 'start': 'ref:vector', 'end': 'ref:vector', 'steps': 'nat', 'outgoing_transition': 'ref:Transition'},
           Settings={'step_size': 'real'}, Transition=dict(TRANS, guard_csr='ref:matrix', guard_rhs='ref:vector'))


def replay_scen(ctx):
    w = world()
    return {'args': [reflist('Segment', 'segments'), Opaque('ha'), ref('Settings', 'settings')], 'world': w, 'watch': {'world': w}}


world_contract(RS_ + 'replay_counterexample', {'any': replay_scen}, P('C17', 'C16'),
    """every segment is simulated from its start for its steps, its states but the last satisfy every condition of the invariant, the last is the end of the segment and satisfies every row of the guard, and the reset maps it to
    the start of the next segment; refused otherwise. The result has all simulated states, and the state after the last reset, with the times going on""", '''
    def spec(ce_segment_list, ha, settings):
        points, times = [], []
        for i, seg in enumerate(ce_segment_list):
            if seg.mode.b_csr is not None:
                raise AssertionError('inputs')
            t = seg.outgoing_transition
            ts = np.linspace(0, seg.steps * settings.step_size, num=seg.steps + 1)
            states = odeint(make_der_func(seg.mode.a_csr, seg.mode.b_csr, []), seg.start, ts, rtol=1e-9, atol=1e-9)
            points += [s for s in states]
            offset = 0
            if times:
                offset = times[-1]
            times += [x + offset for x in ts]
            for k in range(seg.steps):
                for lc in seg.mode.inv_list:
                    if not lc.csr * states[k] <= lc.rhs + 1e-7:
                        raise AssertionError('invariant')
            last = states[seg.steps]
            if not np.allclose(last, seg.end):
                raise AssertionError('end')
            for l, r in zip(t.guard_csr * last, t.guard_rhs):
                if not l <= r + 1e-7:
                    raise AssertionError('guard')
            if t.reset_minkowski_csr is not None:
                raise AssertionError('minkowski')
            post = last if t.reset_csr is None else t.reset_csr * last
            if i + 1 < len(ce_segment_list):
                if not np.allclose(post, ce_segment_list[i + 1].start):
                    raise AssertionError('reset')
            elif t.reset_csr is not None:
                points.append(post)
                times.append(times[-1])
        return points, times
    ''', {RS_ + 'make_der_func': lambda I, a, b, u: Ref('function', pure('der_func', token(I, a), token(I, b), token(I, u)))}, RPL,
    hooks={'numpy.linspace': x_linspace, 'scipy.integrate.odeint': x_odeint, 'numpy.allclose': x_allclose})


# ------------------------------------------------------------------ derivative functions
def der_scen(inputs):
    def f(ctx):
        n, m = nat(ctx, 'dims'), nat(ctx, 'ninputs')
        return {'args': [sym_csr(ctx, 'a', rows=n, cols=n), sym_csr(ctx, 'b', rows=n, cols=m) if inputs else None, sym_vec(ctx, 'u', size=m) if inputs else PList()], 'x': sym_vec(ctx, 'x', size=n)}
    return f


def der_after(I, st, f):
    return I.call(f, [st['x'], Fraction(0)], {})


def der_spec(I, a, b, u):
    x = sym_vec(I.ctx, 'x', size=a.shape[0]).f['fn']
    one = lambda r: row_dot(I, lambda k: a.entry(r, k), a.shape[1], x)
    if b is None:
        return NArr((a.shape[0],), one)
    return NArr((a.shape[0],), lambda r: add(one(r), row_dot(I, lambda k: b.entry(r, k), b.shape[1], u.f['fn'])))


for _q in (RS_, CT):
    _c = Contract(_q + 'make_der_func', der_spec, {'autonomous': der_scen(False), 'inputs': der_scen(True)}, P('C17', 'C16'), "a function of state and time with the value A x (+ B u)")
    _c.after = der_after
    ALL[_q + 'make_der_func'] = _c


# ------------------------------------------------------------------ checks on inputs
def b_matrix(I, b, ix):
    'one column of the input matrix'
    if not (isinstance(ix, tuple) and len(ix) == 3 and ix[:2] == ('multi', ('slice', None, None, None))):
        raise Unsupported('index of the input matrix')
    col = ix[2]
    I.ctx.oblige(f'{I.where()}: column in range', And(le(0, col), lt(col, z3.Function('Shape.cols', IS, IS)(world_field(I, 'BMatrix', 'shape', 'ref:Shape', b.oid).oid))))
    return Ref('column', pure('column', num(b.oid), num(col)))


def x_array_equiv(I, a, kw):
    return z3.Function('FN_array_equiv', IS, IS, z3.BoolSort())(token(I, a[0]), token(I, a[1]))


INP = dict(TT, vector=dict(VEC, shape='ref:VShape'), VShape={'__fields__': ['size'], 'size': 'nat'}, BMatrix={'shape': 'ref:Shape', '[]': b_matrix}, matrix={'shape': 'ref:Shape', '__iter__': lambda I, m: (rows_of(I, m), lambda i: Ref('mrow', z3.Function('mrow', IS, IS, IS)(num(m.oid), num(i))))},
           column={'()toarray': lambda I, c: Ref('vector', pure('toarray', num(c.oid)))}, mrow={'()toarray': lambda I, c: Ref('vector', pure('row.toarray', num(c.oid)))})


def inputs_scen(ctx):
    w = world()
    s = mode_scen(a_csr=Ref('matrix', z3.Int('a')))['any'](ctx)['self']
    return {'self': s, 'args': [Ref('BMatrix', z3.Int('b')), Ref('matrix', z3.Int('u')), Ref('vector', z3.Int('urhs')), z3.Bool('allow_constants')], 'world': w, 'watch': {'world': w}}


world_contract(HM + '_check_inputs', {'any': inputs_scen}, P('C23', 'C05'),
    """refused if the shapes do not fit, if no input satisfies the constraints, or (unless allowed) if an input that affects a single variable is fixed: its smallest upper bound and its largest lower bound among the rows
    that bound it alone differ by less than 1e-9""", '''
    def spec(self, B, G, rhs, allow_constants):
        if G.shape[0] != rhs.shape[0] or G.shape[1] != B.shape[1] or B.shape[0] != self.a_csr.shape[0]:
            raise AssertionError('shapes')
        if not lputil.is_feasible(G, rhs):
            raise AssertionError('infeasible')
        for i in range(B.shape[1]):
            used = 0
            for x in B[:, i].toarray():
                used = used + (1 if x != 0 else 0)
            if used == 1:
                high = low = None
                unit = np.array([0 if n != i else 1 for n in range(B.shape[1])])
                minus = np.array([0 if n != i else -1 for n in range(B.shape[1])])
                for row, r in zip(G, rhs):
                    if np.array_equiv(unit, row.toarray()):
                        high = r if high is None else min(high, r)
                    elif np.array_equiv(minus, row.toarray()):
                        low = -r if low is None else max(low, -r)
                if low is not None and high is not None and abs(low - high) < 1e-9 and not allow_constants:
                    raise RuntimeError('fixed')
    ''', {'lputil.is_feasible': looks('is_feasible', 'bool')}, INP, hooks={'numpy.array': x_array, 'numpy.array_equiv': x_array_equiv})


def inputs_checked(I, self, b, u, rhs, allow):
    'refuses, or leaves everything as it is (what was checked is kept in a ghost)'
    if I.ctx.branch(z3.Bool('inputs refused')):
        refuse()
    I.ctx.put(self, '_checked', (b, u, rhs, allow))


def _inputs(kind, lst=False, dyn=True):
    def f(ctx):
        s = a_mode_obj(ctx, "mode", dyn)
        s.f['_checked'] = None
        return {'self': s, 'args': [mat_variants(ctx, 'B', kind), mat_variants(ctx, 'U', kind), sym_vec(ctx, 'rhs', lst=lst), z3.Bool('allow_constants')]}
    return f


def set_inputs(I, self, b, u, rhs, allow):
    if self.f['a_csr'] is None:
        refuse()
    B, U = stored(I, b), stored(I, u)
    inputs_checked(I, self, B, U, flat(I, rhs), allow)
    I.ctx.put(self, 'b_csr', B)
    I.ctx.put(self, 'u_constraints_csc', Csr('csc', U.shape, U.entry))
    I.ctx.put(self, 'u_constraints_rhs', flat(I, rhs))


_c = ALL[HM + 'set_inputs'] = Contract(HM + 'set_inputs', set_inputs, {'csr': _inputs('csr'), 'csc': _inputs('csc'), 'dense': _inputs('dense'), 'lists': _inputs('lists', True), 'undefined': _inputs('csr', dyn=False)}, P('C23', 'C05'),
    'stores the input matrix, and the constraints by columns, after the checks of _check_inputs; refused without dynamics')
_c.env = {HM + '_check_inputs': inputs_checked}
