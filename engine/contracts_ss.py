'''Contracts of stateset.py: which operations on its constraint store a state set performs (C05, C12, C08).

The store is abstract here: (base set, basis matrix, history of input effects). The callee contracts (lputil.set_basis_matrix,
add_input_effects_matrix, LpInstance.clone, ...) are proved on the concrete store in contracts.py / contracts_lputil.py; here each of
them is an operation on the abstract store, so a state set that calls them in the specified way is the specified set.
'''
from contracts import *
from contracts_lputil import *
from contracts_ha import a_mode
SS = 'stateset.StateSet.'
LU_, LP_, TL_ = 'lputil.', 'lpinstance.LpInstance.', 'time_elapse.TimeElapser.'

BM, IE = z3.Function('BM', IS, IS, IS, RS), z3.Function('IE', IS, IS, IS, RS)


def store(base, bm, hist=(), **kw):
    return Obj('LpInstance', base=base, bm=bm, hist=PList(items=list(hist)), dims=z3.Int('store.dims'), **kw)


def snap(o):
    return ('store', o.f['base'], o.f['bm'], o.f['hist'])


def bm_at(te, s):
    d = te.f['dims']
    return NArr((d, d), lambda r, c: BM(num(s), num(r), num(c)))


def ie_at(te, s):
    return NArr((te.f['dims'], te.f['inputs']), lambda r, c: IE(num(s), num(r), num(c)))


def x_get_bm(I, te, step):
    'proved in contracts_te.py: the matrices depend on the step number alone'
    must(I, le(0, step), 'the step number is not negative')
    return (bm_at(te, step), ie_at(te, step) if te.f['has_inputs'] and I.ctx.branch(le(1, step)) else None)


def x_set_bm(I, lpi, bm):
    I.ctx.put(lpi, 'bm', bm)


def x_add_ie(I, lpi, ie, mode, lgg_beta):
    must(I, ie is not None, 'an input effects matrix is given')
    I.models.append(I, lpi.f['hist'], (ie, mode, lgg_beta))


def x_clone(I, lpi):
    return store(lpi.f['base'], lpi.f['bm'], items_of(lpi.f['hist']))


def x_chull(I, lpi_list, mode, *a):
    n, f = arr_of(lpi_list)
    if not isinstance(n, int):
        raise Unsupported('hull of a variable number of sets')
    return store(('chull', tuple(snap(f(i)) for i in range(n)), mode), None)


def x_msum(I, lpi_list, mode, *a):
    n, f = arr_of(lpi_list)
    return store(('minkowski', tuple(snap(f(i)) for i in range(n)), mode), None)


def x_scale(I, lpi, s):
    I.ctx.put(lpi, 'base', ('scaled', lpi.f['base'], lpi.f['bm'], rl(s)))
    I.ctx.put(lpi, 'bm', None)


def x_bloat(I, lpi, a, names):
    I.ctx.put(lpi, 'base', ('bloated', lpi.f['base'], rl(a)))


def x_radius(I, lpi):
    'a function of the set: the same set has the same radius'
    r = z3.Real('radius!' + tag(snap(lpi)))
    I.ctx.fact(r >= 0)
    return r


def tag(t):
    'a name for a set term'
    if isinstance(t, tuple):
        return '(' + ' '.join(tag(x) for x in t) + ')'
    if isinstance(t, Obj):
        return t.cls
    if isinstance(t, NArr):
        return 'm:' + str(t.f['fn'](z3.Int('r?'), z3.Int('c?'))) if len(t.f['shape']) == 2 else 'v:' + str(t.f['fn'](z3.Int('r?')))
    if isinstance(t, Csr):
        return 'm:' + str(t.entry(z3.Int('r?'), z3.Int('c?')))
    if isinstance(t, PList):
        return 'l:' + str(len(items_of(t)))
    return str(t)


def x_input_set(I, b, c, r, mode, *a):
    return store(('inputs', b, c, r, mode), None)


def x_use_lgg(I, te):
    I.ctx.put(te, 'lgg', True)


ENV = {TL_ + 'get_basis_matrix': x_get_bm, TL_ + 'use_lgg_approx': x_use_lgg, LU_ + 'set_basis_matrix': x_set_bm, LU_ + 'add_input_effects_matrix': x_add_ie, LP_ + 'clone': x_clone,
       LU_ + 'aggregate_chull': x_chull, LU_ + 'minkowski_sum': x_msum, LU_ + 'scale_with_bm': x_scale, LU_ + 'bloat': x_bloat, LU_ + 'compute_radius_inf': x_radius,
       LU_ + 'from_input_constraints': x_input_set, LP_ + 'set_minimize_direction': lambda I, *a: None}
ABS_NOTE = 'state sets are verified over an abstract store; set_basis_matrix and add_input_effects_matrix write disjoint parts of the concrete store (their contracts say which)'


def elapser(ctx, mode, inputs):
    d = mode.f['a_csr'].shape[0]
    return Obj('TimeElapser', mode=mode, dims=d, inputs=mode.f['b_csr'].shape[1] if inputs else 0, has_inputs=inputs, step_size=z3.Real('step_size'), lgg=False)


def sym_ss(ctx, inputs, step=None, **kw):
    m = a_mode(ctx, 'm', inputs=inputs)
    m.f['time_elapse'] = elapser(ctx, m, inputs)
    m.f['inv_list'] = PList(arr=(nat(ctx, 'm.ninv'), lambda i: Obj('LinearConstraint')))
    cur = nat(ctx, 'cur') if step is None else step
    d = m.f['a_csr'].shape[0]
    # class invariant: the matrices and effects of the steps 1 .. cur, in order
    k, te = z3.FreshInt('k'), m.f['time_elapse']
    beta = Opaque('beta') if inputs else None
    hist = [('loop', k, 1, add(cur, 1), (('one', (ie_at(te, k), m, beta)),))] if inputs else []
    o = Obj('StateSet', mode=m, lpi=store('S', bm_at(m.f['time_elapse'], cur), hist), cur_step_in_mode=cur, cur_steps_since_start=PList(items=[('one', z3.Int('since0')), ('one', z3.Int('since1'))]),
            is_concrete=z3.Bool('concrete'), aggdag_op_list=PList(items=[('one', Opaque('op'))]), invariant_constraint_rows=Opaque('rows'), basis_matrix=bm_at(m.f['time_elapse'], cur),
            input_effects_list=PList(items=[('loop', k, 1, add(cur, 1), (('one', ie_at(te, k)),))]) if inputs else None, aggstring=None, lgg_beta=beta, _verts=Opaque('verts'),
            assigned_plot_dim=False, xdim=None, ydim=None, step_to_paths=Opaque('paths'))
    o.f.update(kw)
    return o


def step_scen():
    out = {}
    for inp in (False, True):
        for default in (True, False):
            def f(ctx, inp=inp, default=default):
                return {'self': sym_ss(ctx, inp), 'args': [] if default else [z3.Int('step')]}
            out[('inputs' if inp else 'plain') + ('-next' if default else '-given')] = f
    return out


@contract(SS + 'step', step_scen(), ('C05', 'C12', 'C24'), 'keeps: basis matrix of the current step; the input effects of steps 1 .. current, each once and in order; counters advanced; refused for a step back')
def ss_step(I, self, step):
    note(I, ABS_NOTE)
    cur = self.f['cur_step_in_mode']
    if step is None:
        step = add(cur, 1)
    require(I, le(cur, step))
    if not I.ctx.branch(lt(cur, step)):
        return
    te, lpi = self.f['mode'].f['time_elapse'], self.f['lpi']
    put = I.ctx.put
    put(self, 'basis_matrix', bm_at(te, step))
    put(lpi, 'bm', bm_at(te, step))
    if te.f['has_inputs']:
        k = z3.FreshInt('k')
        put(self.f['input_effects_list'], 'v', ('items', (('loop', k, 1, add(step, 1), (('one', ie_at(te, k)),)),)))
        put(lpi.f['hist'], 'v', ('items', (('loop', k, 1, add(step, 1), (('one', (ie_at(te, k), self.f['mode'], self.f['lgg_beta'])),)),)))
    n = sub(step, cur)
    put(self, 'cur_step_in_mode', step)
    since = self.f['cur_steps_since_start']
    f = arr_of(since)[1]
    put(since, 'v', ('items', tuple(('one', add(f(i), n)) for i in (0, 1))))
    put(self, '_verts', None)


# ------------------------------------------------------------------ approximation models

def at_zero(inputs):
    return lambda ctx: {'self': sym_ss(ctx, inputs, step=0), 'args': []}


def one_step(I, self, effects):
    'the set after one step, from a store at step 0'
    lpi, mode = self.f['lpi'], self.f['mode']
    te = mode.f['time_elapse']
    o = store(lpi.f['base'], bm_at(te, 1), items_of(lpi.f['hist']))
    if effects and te.f['has_inputs']:
        I.models.append(I, o.f['hist'], (ie_at(te, 1), mode, None))
    return o


def hull(self, a, b):
    m = self.f['mode']
    return store(('chull', (snap(a), snap(b)), m), None)


@contract(SS + 'apply_approx_chull', variants(plain=at_zero(False), inputs=at_zero(True)), ('C12', 'C10'), 'the hull of the set and of its image after one step (with the effects of that step)')
def ss_chull(I, self):
    note(I, ABS_NOTE)
    I.ctx.put(self, 'lpi', hull(self, self.f['lpi'], one_step(I, self, True)))


def div(a, b):
    return py(real(a) / real(b))


EXP = z3.Function('exp', RS, RS)


def m_exp(I, a, kw):
    return py(EXP(real(a[0])))


def m_norm(I, a, kw):
    o = kw.get('ord', a[1] if len(a) > 1 else None)
    if not (isinstance(o, Inf) and o.sign > 0):
        raise Unsupported('norm other than the infinity norm')
    r = z3.Real('infinity_norm!' + tag(a[0]))
    I.ctx.fact(r >= 0)
    return r


def lgg_terms(I, self):
    m = self.f['mode']
    tau, n = m.f['time_elapse'].f['step_size'], z3.Real('infinity_norm!' + tag(m.f['a_csr']))
    return tau, n, sub(sub(py(EXP(real(mul(tau, n)))), 1), mul(tau, n))


@contract(SS + 'apply_approx_lgg', variants(plain=at_zero(False), inputs=at_zero(True)), ('C12',),
          'Le Guernic and Girard: hull of X and (e^{A tau} X + tau V) bloated by alpha = (e^{tau |A|} - 1 - tau |A|)(|X| + |V|/|A|); beta = the same factor times |V|/|A|; alpha = 0 for a vanishing A')
def ss_lgg(I, self):
    note(I, ABS_NOTE)
    m, lpi = self.f['mode'], self.f['lpi']
    te = m.f['time_elapse']
    inp = te.f['has_inputs']
    tau, n, fac = lgg_terms(I, self)
    I.ctx.fact(n >= 0)
    I.ctx.fact(n != z3.RealVal('1e-7'))
    x = one_step(I, self, False)
    rx = x_radius(I, lpi)
    rv = Fraction(0)
    if inp:
        V = x_input_set(I, m.f['b_csr'], m.f['u_constraints_csc'], m.f['u_constraints_rhs'], m)
        rv = x_radius(I, V)
        V2 = store(('scaled', V.f['base'], None, rl(tau)), None)
        x = store(('minkowski', (snap(x), snap(V2)), m), None)
    small = I.ctx.branch(lt(n, Fraction(1, 10**7)))
    alpha = Fraction(0) if small else mul(fac, add(rx, div(rv, n)))
    if I.ctx.branch(Not(eq(alpha, 0))):
        x.f['base'] = ('bloated', x.f['base'], rl(alpha))
    I.ctx.put(self, 'lpi', hull(self, lpi, x))
    if not small and inp:
        beta = mul(fac, div(rv, n))
        require(I, lt(Fraction(1, 10**7), beta))
        require(I, lt(beta, 100000))
        I.ctx.put(self, 'lgg_beta', beta)
        I.ctx.put(te, 'lgg', True)


def no_model(ctx):
    return {'self': sym_ss(ctx, False, step=0), 'args': [0]}


# ------------------------------------------------------------------ construction

def x_get_bmat(I, lpi):
    return lpi.f['bm']


def m_allclose(I, a, kw):
    x, y = a
    if kw or not (isinstance(x, NArr) and isinstance(y, NArr)):
        raise Unsupported('allclose')
    r, c = z3.Int('ac_r'), z3.Int('ac_c')
    ab = lambda v: z3.If(real(v) >= 0, real(v), -real(v))
    sh = y.f['shape']
    u, v = x.f['fn'](r, c), y.f['fn'](r, c)
    return And(And(eq(x.f['shape'][0], sh[0]), eq(x.f['shape'][1], sh[1])),
               z3.ForAll([r, c], z3.Implies(z3.And(0 <= r, r < num(sh[0]), 0 <= c, c < num(sh[1])), ab(sub(u, v)) <= z3.RealVal('1e-8') + z3.RealVal('1e-5') * ab(v))))


ENV[LU_ + 'get_basis_matrix'] = x_get_bmat


def ss_new(inputs=False, dyn=True, since=False, ops=False):
    def f(ctx):
        m = a_mode(ctx, 'm', dyn, inputs=inputs)
        m.f['inv_list'] = PList(arr=(nat(ctx, 'm.ninv'), lambda i: Obj('LinearConstraint')))
        B = z3.Function('lpi.bm', IS, IS, RS)
        d = nat(ctx, 'lpi.dims')
        kw = {}
        if since:
            kw['cur_steps_since_start'] = PList(items=[('one', z3.Int('s0')), ('one', z3.Int('s1'))])
        if ops:
            kw['aggdag_op_list'] = PList(items=[('one', Opaque('op0')), ('one', Opaque('op1'))])
        if since or ops:
            kw['is_concrete'] = z3.Bool('concrete')
        return {'self': Obj('StateSet'), 'args': [store('S', NArr((d, d), lambda r, c: B(num(r), num(c)))), m], 'kwargs': kw}
    return f


@contract(SS + '__init__', variants(plain=ss_new(), inputs=ss_new(True), error=ss_new(dyn=False), successor=ss_new(since=True, ops=True), successor_inputs=ss_new(True, since=True, ops=True)), ('C08', 'C05', 'C06'),
          'at step 0 of the mode, its own copy of the step interval, no invariant row replaced yet; refused unless the basis matrix of the store is the identity')
def ss_init(I, self, lpi, mode, since, ops, concrete):
    note(I, ABS_NOTE)
    err = mode.f['a_csr'] is None
    d = None if err else mode.f['a_csr'].shape[0]
    ident = None if err else NArr((d, d), lambda r, c: ite(eq(r, c), lambda: Fraction(1), lambda: Fraction(0)))
    if not err and not I.ctx.branch(m_allclose(I, [lpi.f['bm'], ident], {})):
        refuse('RuntimeError')
    f = None if since is None else arr_of(since)[1]
    for k, v in (('mode', mode), ('lpi', lpi), ('cur_step_in_mode', 0), ('cur_steps_since_start', PList(items=[('one', 0 if f is None else f(i)) for i in (0, 1)])), ('is_concrete', concrete),
                 ('aggdag_op_list', PList(items=[('one', None)]) if ops is None else ops), ('invariant_constraint_rows', PList(arr=(I.models.length(I, mode.f['inv_list']), lambda i: None))),
                 ('basis_matrix', ident), ('input_effects_list', None if mode.f['b_csr'] is None else PList()), ('aggstring', None), ('lgg_beta', None), ('_verts', None),
                 ('assigned_plot_dim', False), ('xdim', None), ('ydim', None), ('step_to_paths', PDict())):
        I.ctx.put(self, k, v)


def ss_init_check(I, run, st1, st2, args):
    'the list of steps is a copy: later steps of the new set do not move the list that was passed'
    kind, e = run()
    return kind


for q in list(ALL):
    if q.startswith(SS):
        ALL[q].env = ENV
        ALL[q].hooks = {'math.exp': m_exp, 'scipy.sparse.linalg.norm': m_norm, 'numpy.allclose': m_allclose}


# ------------------------------------------------------------------ guards (hybrid_automaton)

def x_set_dir(I, lpi, vec, is_csr, offset):
    must(I, is_csr is True and isinstance(vec, Csr), 'a single sparse row is given as the direction')
    must(I, offset is None or eq(offset, lpi.f['cur_vars_offset']), 'the direction is over the current variables')
    I.ctx.put(lpi, 'dir', vec)


GID = {}
OPT_NONE = z3.Function('OPT!none', IS, IS, z3.BoolSort())
OPT_X = z3.Function('OPT!x', IS, IS, IS, RS)


def x_minimize(I, lpi, direction_vec, columns, fail_on_unsat, count_lps=None):
    must(I, fail_on_unsat is False and direction_vec is None, 'no exception for an infeasible store, direction set before')
    d = lpi.f['dir']
    must(I, d is not None, 'a direction was set since the last optimisation')
    I.ctx.put(lpi, 'dir', None)
    if d is None or 'rowof' not in (d.raw or {}):
        raise Unsupported('optimisation in another direction than a row of the guard')
    p, i = GID[d.raw['rowof'][0]], d.raw['rowof'][1]
    if I.ctx.branch(OPT_NONE(num(p), num(i))):
        return None
    n, f = arr_of(columns)
    return NArr((n,), lambda j: py(OPT_X(num(p), num(i), num(f(j)))))


def x_feasible(I, lpi):
    return z3.Bool('feasible!' + tag(snap(lpi)))


def x_curtime(I, lpi, csr, rhs):
    I.models.append(I, lpi.f['hist'], ('rows', csr, rhs))


GENV = {LP_ + 'set_minimize_direction': x_set_dir, LP_ + 'minimize': x_minimize, LP_ + 'clone': x_clone, LP_ + 'is_feasible': x_feasible, LU_ + 'add_curtime_constraints': x_curtime}


def guard_scen(rows=None):
    def f(ctx):
        from contracts_ha import sym_transition
        frm = a_mode(ctx, 'from')
        t = sym_transition(ctx, 't', frm, a_mode(ctx, 'to'))
        s = store('S', NArr((1, 1), lambda r, c: z3.RealVal(0)), [('one', 'earlier')], cur_vars_offset=nat(ctx, 'cur'), dir=None)
        GID[t.f['guard_csr'].sid] = 7
        return {'self': t, 'args': [s]}
    return f


@contract('hybrid_automaton.Transition.get_guard_intersection', variants(any=guard_scen()), ('C07',),
          'None exactly if some row of the guard is violated by the minimum over the store (or the store is empty) or the intersection with all rows is empty; otherwise a copy of the store with all rows added; the store keeps its constraints')
def guard_intersection(I, self, lpi):
    m, rhs = self.f['guard_csr'], self.f['guard_rhs'].f['fn']
    raw = raw_of(I, m)
    i, j = z3.FreshInt('row'), z3.FreshInt('nz')
    p, n = raw.ptr(i), sub(raw.ptr(add(i, 1)), raw.ptr(i))
    val = I.models.sumrange(I, j, n, mul(py(OPT_X(7, num(i), num(add(lpi.f['cur_vars_offset'], raw.ind(add(p, j)))))), raw.dat(add(p, j))))
    bad = z3.Exists([i], z3.And(0 <= i, i < num(m.shape[0]), z3.Or(OPT_NONE(7, i), boolz(lt(rhs(i), val)))))
    if I.ctx.branch(bad):
        return None
    t = x_clone(I, lpi)
    x_curtime(I, t, m, self.f['guard_rhs'])
    if I.ctx.branch(x_feasible(I, t)):
        return t
    return None


ALL['hybrid_automaton.Transition.get_guard_intersection'].env = GENV
ALL['hybrid_automaton.Transition.get_guard_intersection'].ignore = ('dir',)
