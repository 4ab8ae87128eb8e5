'''Contracts of hybrid_automaton.py (C23: models are stored faithfully or refused; C07: guards; C19: strengthening; C22: points).'''
from contracts import *
from contracts_lputil import *

HA = 'hybrid_automaton.'


def a_mode(ctx, n, dyn=True, inputs=False, dims=None, **kw):
    'a mode as far as the automaton classes look at it'
    d = nat(ctx, n + '.dims') if dims is None else dims
    o = Obj('Mode', ha=Opaque(n + '.ha'), name=SStr([('sym', z3.Int(n + '.name'))]), mode_id=z3.Int(n + '.mode_id'), a_csr=sym_csr(ctx, n + '.a', rows=d, cols=d) if dyn else None,
            b_csr=None, u_constraints_csc=None, u_constraints_rhs=None, transitions=PList(), inv_list=PList(), time_elapse=None)
    if inputs:
        m, c = nat(ctx, n + '.ninputs'), nat(ctx, n + '.ncons')
        o.f['b_csr'] = sym_csr(ctx, n + '.b', rows=d, cols=m)
        o.f['u_constraints_csc'] = sym_csr(ctx, n + '.u', 'csc', rows=c, cols=m)
        o.f['u_constraints_rhs'] = sym_vec(ctx, n + '.urhs', size=c)
    o.f.update(kw)
    return o


def sym_transition(ctx, n, frm, to, guard=True, reset=None):
    t = Obj('Transition', ha=Opaque('ha'), from_mode=frm, to_mode=to, guard_csr=None, guard_rhs=None, reset_csr=None, reset_minkowski_csr=None,
            reset_minkowski_constraints_csr=None, reset_minkowski_constraints_rhs=None, name=SStr([('sym', z3.Int(n + '.name'))]), time_triggered=False, transition_index=z3.Int(n + '.index'))
    if guard:
        r = nat(ctx, n + '.rows')
        t.f['guard_csr'] = sym_csr(ctx, n + '.guard', rows=r, cols=frm.f['a_csr'].shape[0])
        t.f['guard_rhs'] = sym_vec(ctx, n + '.rhs', size=r)
    return t


def mat_variants(ctx, n, kind, rows=None, cols=None):
    'a matrix argument in each accepted form'
    if kind in ('csr', 'csc'):
        return sym_csr(ctx, n, kind, rows, cols)
    r = nat(ctx, n + '.rows') if rows is None else rows
    c = nat(ctx, n + '.cols') if cols is None else cols
    a = sym_mat(ctx, n, r, c)
    if kind == 'dense':
        return a
    ctx.fact(r >= 1)
    fn = a.f['fn']

    def row(i):
        p = PList(arr=(c, lambda j: fn(i, j)))
        p.frozen = p.local = True
        return p
    return PList(arr=(r, row))


def stored(I, m):
    'the csr matrix the model keeps'
    if isinstance(m, Csr) and m.kind == 'csr':
        return m
    sh, ent = as_matrix(I, m)
    return Csr('csr', sh, ent)


def flat(I, v):
    n, fn = vec(I, v)
    return NArr((n,), lambda i: (lambda x: ZERO if isinstance(x, Undefined) else rl(x))(fn(i)))


# ------------------------------------------------------------------ LinearConstraint

def _lc(kind, rows=None):
    def f(ctx):
        return {'self': Obj('LinearConstraint'), 'args': [mat_variants(ctx, 'vec', kind, rows), z3.Real('rhs')]}
    return f


@contract(HA + 'LinearConstraint.__init__', variants(csr=_lc('csr'), dense=_lc('dense'), lists=_lc('lists'), csc=_lc('csc')), ('C23', 'C19'), 'keeps the row and the right-hand side; refused unless a single row')
def lc_init(I, self, csr_vec, rhs):
    m = stored(I, csr_vec)
    require(I, eq(m.shape[0], 1))
    I.ctx.put(self, 'csr', m)
    I.ctx.put(self, 'rhs', rl(rhs))


def sym_lc(ctx, n, dims=None):
    return Obj('LinearConstraint', csr=sym_csr(ctx, n + '.csr', rows=1, cols=dims), rhs=z3.Real(n + '.rhs'))


def _pt(ctx, n):
    return sym_vec(ctx, 'point', size=n)


def _lc_point(ctx):
    o = sym_lc(ctx, 'lc')
    return {'self': o, 'args': [_pt(ctx, o.f['csr'].shape[1])]}


def row_dot(I, ent, n, pf):
    k = z3.FreshInt('k')
    return I.models.sumrange(I, k, n, mul(ent(k), rl(pf(k))))


@contract(HA + 'LinearConstraint.is_true_for_point', variants(point=_lc_point), ('C22', 'C06'), 'a.x <= rhs (closed half space)')
def lc_true(I, self, point):
    m = self.f['csr']
    fn = point.f['fn']
    return NArr((1,), lambda i: py(cmp('<=', row_dot(I, lambda k: m.entry(i, k), m.shape[1], fn), self.f['rhs'])), 'bool')


@contract(HA + 'LinearConstraint.negate', variants(lc=lambda ctx: {'self': sym_lc(ctx, 'lc'), 'args': []}), ('C23',), 'the complementary half space')
def lc_neg(I, self):
    m = self.f['csr']
    return Obj('LinearConstraint', csr=Csr('csr', m.shape, lambda r, c: mul(-1, m.entry(r, c))), rhs=mul(-1, self.f['rhs']))


def _ae(same):
    def f(ctx):
        a = sym_lc(ctx, 'lc')
        b = sym_lc(ctx, 'other', a.f['csr'].shape[1] if same else None)
        return {'self': a, 'args': [b, z3.Real('tol')]}
    return f


@contract(HA + 'LinearConstraint.almost_equals', variants(any=_ae(False)), ('C19',), 'true exactly if right-hand sides and all coefficients differ by at most the tolerance')
def lc_ae(I, self, other, tol):
    a, b = self.f['csr'], other.f['csr']
    ab = lambda x: py(z3.If(real(x) >= 0, real(x), -real(x)))
    if I.ctx.branch(lt(tol, ab(sub(self.f['rhs'], other.f['rhs'])))):
        return False
    if not I.ctx.branch(eq(a.shape[1], b.shape[1])):
        return False
    k = z3.FreshInt('k')
    return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < num(a.shape[1])), boolz(le(ab(sub(a.entry(0, k), b.entry(0, k))), tol))))


# ------------------------------------------------------------------ Mode

def _mode_init(ctx):
    return {'self': Obj('Mode'), 'args': [Obj('HybridAutomaton', modes=Opaque('modes'), transitions=PList(), name='ha'), SStr([('sym', z3.Int('name'))]), z3.Int('mode_id')]}


@contract(HA + 'Mode.__init__', variants(any=_mode_init), ('C23',), 'a mode without dynamics, inputs, invariant or transitions')
def mode_init(I, self, ha, name, mode_id):
    for f, v in (('ha', ha), ('name', name), ('mode_id', mode_id), ('a_csr', None), ('b_csr', None), ('u_constraints_csc', None), ('u_constraints_rhs', None),
                 ('transitions', PList()), ('inv_list', PList()), ('time_elapse', None)):
        I.ctx.put(self, f, v)


@contract(HA + 'Mode.is_error', variants(dyn=lambda ctx: {'self': a_mode(ctx, 'm'), 'args': []}, error=lambda ctx: {'self': a_mode(ctx, 'm', False), 'args': []}), ('C15', 'C23'),
          'a mode is an error mode exactly if it has no dynamics')
def is_error(I, self):
    return self.f['a_csr'] is None


def _dyn(kind):
    return lambda ctx: {'self': a_mode(ctx, 'm', False), 'args': [mat_variants(ctx, 'A', kind)]}


@contract(HA + 'Mode.set_dynamics', variants(csr=_dyn('csr'), csc=_dyn('csc'), dense=_dyn('dense'), lists=_dyn('lists')), ('C23',), 'stores the matrix; refused unless square')
def set_dynamics(I, self, a_csr):
    m = stored(I, a_csr)
    require(I, eq(m.shape[0], m.shape[1]))
    I.ctx.put(self, 'a_csr', m)


def _inv(kind, dyn=True, lst=False, had=0):
    def f(ctx):
        m = a_mode(ctx, 'm', dyn)
        if had:
            m.f['inv_list'] = PList(items=[('one', sym_lc(ctx, f'old{i}')) for i in range(had)])
        return {'self': m, 'args': [mat_variants(ctx, 'C', kind), sym_vec(ctx, 'rhs', lst=lst)]}
    return f


@contract(HA + 'Mode.set_invariant', variants(csr=_inv('csr'), csc=_inv('csc'), dense=_inv('dense'), lists=_inv('lists', lst=True), again=_inv('csr', had=1), undefined=_inv('csr', False)),
          ('C23', 'C06'), 'appends every row with its right-hand side, in order; refused for a missing dynamics matrix, sizes that do not agree and unsatisfiable conditions')
def set_invariant(I, self, csr, rhs):
    a = self.f['a_csr']
    if a is None:
        refuse()
    m = stored(I, csr)
    n, fn = vec(I, rhs)
    require(I, eq(m.shape[1], a.shape[0]))
    require(I, eq(m.shape[0], n))
    require(I, solver_feasible(I, system(I, m.shape, m.entry, rhs, None)))
    k = z3.FreshInt('k')
    c = m.shape[1]

    def lc(i):
        o = Obj('LinearConstraint', csr=Csr('csr', (1, c), lambda r, q: inside((1, c), r, q, lambda: m.entry(i, q))), rhs=rl(fn(i)))
        o.frozen = o.local = True
        return o
    old = [x for x in items_of(self.f['inv_list']) if x[0] != 'mark']
    I.ctx.put(self.f['inv_list'], 'v', ('items', tuple(old) + (('loop', k, 0, n, (('one', lc(k)),)),)))
    if isinstance(rhs, NArr):
        pass


# ------------------------------------------------------------------ Transition

def _t_init(ctx):
    a, b = a_mode(ctx, 'from'), a_mode(ctx, 'to')
    a.f['transitions'] = PList(items=[('one', Opaque('earlier'))])
    return {'self': Obj('Transition'), 'args': [Obj('HybridAutomaton', modes=Opaque('modes'), transitions=PList(), name='ha'), a, b, SStr([('sym', z3.Int('tname'))])]}


@contract(HA + 'Transition.__init__', variants(any=_t_init), ('C23',), 'no guard and no reset yet; appended to the outgoing transitions of its source, with its position as index')
def t_init(I, self, ha, frm, to, name):
    n = I.models.length(I, frm.f['transitions'])
    for f, v in (('ha', ha), ('from_mode', frm), ('to_mode', to), ('guard_csr', None), ('guard_rhs', None), ('reset_csr', None), ('reset_minkowski_csr', None),
                 ('reset_minkowski_constraints_csr', None), ('reset_minkowski_constraints_rhs', None), ('name', name), ('time_triggered', False), ('transition_index', n)):
        I.ctx.put(self, f, v)
    I.models.append(I, frm.f['transitions'], self)


def _guard(kind, dyn=True, lst=False):
    def f(ctx):
        t = sym_transition(ctx, 't', a_mode(ctx, 'from', dyn), a_mode(ctx, 'to'), False)
        return {'self': t, 'args': [mat_variants(ctx, 'G', kind), sym_vec(ctx, 'rhs', lst=lst)]}
    return f


@contract(HA + 'Transition.set_guard', variants(csr=_guard('csr'), csc=_guard('csc'), dense=_guard('dense'), lists=_guard('lists', lst=True), undefined=_guard('csr', False)), ('C23', 'C07'),
          'stores the guard; refused for a missing dynamics matrix, sizes that do not agree and unsatisfiable conditions')
def set_guard(I, self, csr, rhs):
    a = self.f['from_mode'].f['a_csr']
    m = stored(I, csr)
    n, fn = vec(I, rhs)
    if a is None:
        refuse()
    require(I, Or(eq(m.shape[0], 0), eq(m.shape[1], a.shape[0])))
    require(I, eq(m.shape[0], n))
    require(I, solver_feasible(I, system(I, m.shape, m.entry, rhs, None)))
    I.ctx.put(self, 'guard_csr', m)
    I.ctx.put(self, 'guard_rhs', flat(I, rhs))


def _gt(dyn):
    return lambda ctx: {'self': sym_transition(ctx, 't', a_mode(ctx, 'from', dyn), a_mode(ctx, 'to'), False), 'args': []}


@contract(HA + 'Transition.set_guard_true', variants(any=_gt(True), undefined=_gt(False)), ('C23',), 'a guard without rows')
def set_guard_true(I, self):
    a = self.f['from_mode'].f['a_csr']
    if a is None:
        refuse()
    d = a.shape[1]
    m = Csr('csr', (0, d), lambda r, c: Fraction(0))
    require(I, solver_feasible(I, system(I, m.shape, m.entry, NArr((0,), lambda i: Fraction(0)), None)))
    I.ctx.put(self, 'guard_csr', m)
    I.ctx.put(self, 'guard_rhs', NArr((0,), lambda i: Fraction(0)))


def _reset(kind, R=True, M=False, C=False, rhs=None, to_dyn=True, from_dyn=True, lst=False):
    rhs = C if rhs is None else rhs

    def f(ctx):
        t = sym_transition(ctx, 't', a_mode(ctx, 'from', from_dyn), a_mode(ctx, 'to', to_dyn), False)
        return {'self': t, 'args': [mat_variants(ctx, 'R', kind) if R else None, mat_variants(ctx, 'M', kind) if M else None, mat_variants(ctx, 'C', kind) if C else None,
                                    sym_vec(ctx, 'rhs', lst=lst) if rhs else None]}
    return f


@contract(HA + 'Transition.set_reset', variants(csr=_reset('csr'), dense=_reset('dense'), lists=_reset('lists'), identity=_reset('csr', R=False), error_mode=_reset('csr', to_dyn=False),
                                                 error_identity=_reset('csr', R=False, to_dyn=False), undefined=_reset('csr', from_dyn=False), full=_reset('csr', M=True, C=True),
                                                 full_dense=_reset('dense', M=True, C=True, lst=True), no_matrix=_reset('csr', C=True), no_constraints=_reset('csr', M=True),
                                                 no_rhs=_reset('csr', M=True, C=True, rhs=False), only_rhs=_reset('csr', rhs=True)), ('C23', 'C08'),
          'stores R, M, C, rhs (identity where omitted); refused for sizes that do not agree, unsatisfiable conditions and incomplete input')
def set_reset(I, self, R, M, C, rhs):
    fa, ta = self.f['from_mode'].f['a_csr'], self.f['to_mode'].f['a_csr']
    if fa is None:
        refuse()
    nin, nout = fa.shape[0], (fa if ta is None else ta).shape[0]
    if R is None:
        require(I, eq(nin, nout))
        R = Csr('csr', (nin, nin), lambda r, c: inside((nin, nin), r, c, lambda: ite(eq(r, c), lambda: Fraction(1), lambda: Fraction(0))))
    else:
        R = stored(I, R)
    M = None if M is None else stored(I, M)
    C = None if C is None else stored(I, C)
    if rhs is not None:
        nr, fn = vec(I, rhs)
    require(I, eq(R.shape[1], nin))
    require(I, eq(R.shape[0], nout))
    if (C is None) != (rhs is None) or (M is not None and rhs is None):
        refuse()
    if rhs is not None:
        require(I, eq(C.shape[0], nr))
        nv = C.shape[1]
        if M is None:
            M = Csr('csr', (nv, nv), lambda r, c: inside((nv, nv), r, c, lambda: ite(eq(r, c), lambda: Fraction(1), lambda: Fraction(0))))
        require(I, eq(M.shape[0], nout))
        require(I, eq(M.shape[1], nv))
        require(I, solver_feasible(I, system(I, C.shape, C.entry, rhs, None)))
        rhs = flat(I, rhs)
    for f, v in (('reset_csr', R), ('reset_minkowski_csr', M), ('reset_minkowski_constraints_csr', C), ('reset_minkowski_constraints_rhs', rhs)):
        I.ctx.put(self, f, v)


def _gpoint(ctx):
    t = sym_transition(ctx, 't', a_mode(ctx, 'from'), a_mode(ctx, 'to'))
    return {'self': t, 'args': [_pt(ctx, t.f['guard_csr'].shape[1])]}


@contract(HA + 'Transition.is_guard_true_for_point', variants(any=_gpoint), ('C22',), 'every row: a.x <= rhs')
def guard_point(I, self, pt):
    m, rf, fn = self.f['guard_csr'], self.f['guard_rhs'].f['fn'], pt.f['fn']
    k = z3.FreshInt('k')
    return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < num(m.shape[0])), boolz(cmp('<=', row_dot(I, lambda c: m.entry(k, c), m.shape[1], fn), rf(k)))))


def _rpoint(reset, mink=False):
    def f(ctx):
        fr, to = a_mode(ctx, 'from'), a_mode(ctx, 'to')
        t = sym_transition(ctx, 't', fr, to)
        if reset:
            t.f['reset_csr'] = sym_csr(ctx, 'R', rows=to.f['a_csr'].shape[0], cols=fr.f['a_csr'].shape[0])
        if mink:
            t.f['reset_minkowski_csr'] = sym_csr(ctx, 'M', rows=to.f['a_csr'].shape[0])
        return {'self': t, 'args': [_pt(ctx, fr.f['a_csr'].shape[0])]}
    return f


@contract(HA + 'Transition.apply_reset_for_point', variants(identity=_rpoint(False), matrix=_rpoint(True), minkowski=_rpoint(True, True)), ('C22',), '(R x, target mode); refused for resets with fresh variables')
def reset_point(I, self, pt):
    if self.f['reset_minkowski_csr'] is not None:
        refuse()
    R, fn = self.f['reset_csr'], pt.f['fn']
    if R is None:
        return (pt, self.f['to_mode'])
    return (NArr((R.shape[0],), lambda r: row_dot(I, lambda k: R.entry(r, k), R.shape[1], fn)), self.f['to_mode'])
