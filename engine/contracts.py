'''Contracts of the functions of /repo/hylaa.

A contract gives: the symbolic pre-states (setup, one per scenario), the specification (spec: what the call does, written
over the ghost state of the constraint store, independent of how the code does it) and what is compared afterwards.
Verification of a function runs its real source from the pre-state, runs the specification on an identical second copy
of the pre-state, and emits one obligation per compared location; callers use the specification instead of the body.
'''
import z3
from core import *
from interp import *
from models import *
from models import SCRATCH


class Contract:
    replaces = True
    verify_fn = None       # relation to check instead of running the specification on a copy
    ignore = ()            # ghost fields the contract leaves open
    env = None             # contracts of callees over an abstract state (name -> function)
    pre = None             # precondition assumed of the first state: function of (I, state)
    schema = None          # attributes of objects known by identity
    hooks = None           # contracts of library functions used by this function alone
    alt = None             # another generator of obligations for this function (gram.verify)
    notes = ()
    after = None           # what is done with the result before the comparison (a returned function is called)
    unspecified = ()       # arguments whose state afterwards the contract leaves open
    objcols = True         # compare the list of objective columns (False: functions that only reach it through set_minimize_direction)
    bounded = ''           # stated bound when a scenario fixes a size

    def __init__(self, qual, spec, scenarios, props, doc, compare=None, replaces=True, bounded='', names=False):
        self.qual, self.spec_fn, self.scenarios, self.props, self.doc = qual, spec, scenarios, props, doc
        self.compare_fn, self.replaces, self.bounded, self.names = compare, replaces, bounded, names

    def apply(self, I, args, kwargs, self_obj):
        fr = I.prog.find(self.qual)
        if fr is None:
            raise Unsupported('function not found: ' + self.qual)
        env = Env(fr.mod, fr)
        I.bind(fr.node, env, args, kwargs, self_obj)
        a = fr.node.args
        vals = [env.v[x.arg] for x in a.args]
        I.stack.append(self.qual + ' (contract)')
        try:
            return self.spec_fn(I, *vals)
        finally:
            I.stack.pop()


ALL = {}


def contract(qual, scenarios, props, doc, compare=None, replaces=True, bounded=''):
    def deco(f):
        ALL[qual] = Contract(qual, f, scenarios, props, doc, compare, replaces, bounded)
        return f
    return deco


def refuse(kind='AssertionError'):
    raise PyRaise(kind, 'refused')


def require(I, c):
    'the call is refused unless c holds'
    if not I.ctx.branch(c):
        refuse()


def must(I, c, what):
    'precondition: an obligation of every caller, an assumption on the function itself'
    if I.assuming:
        I.ctx.assume(boolz(py(c)) if isz(py(c)) else py(c))
    else:
        I.ctx.oblige(f'{I.caller()}: precondition of {I.stack[-1].split(" ")[0]}: {what}', c, 'pre')


# ------------------------------------------------------------------ symbolic states

IS, RS = z3.IntSort(), z3.RealSort()


def iv(name, lo=None):
    return z3.Int(name)


def rtype_of(T):
    return lambda r: py(z3.If(T(num(r)) == 0, z3.IntVal(UP), z3.If(T(num(r)) == 1, z3.IntVal(LO), z3.IntVal(FX))))


def sym_lp(ctx, n):
    nr, nc = z3.Int(n + '.nrows'), z3.Int(n + '.ncols')
    ctx.fact(z3.And(nr >= 0, nc >= 0))
    A = z3.Function(n + '.A', IS, IS, RS)
    T = z3.Function(n + '.type', IS, IS)
    lb, ub = z3.Function(n + '.rlb', IS, RS), z3.Function(n + '.rub', IS, RS)
    ob, w, oc = z3.Function(n + '.obj', IS, RS), z3.Function(n + '.objposinv', IS, IS), z3.Function(n + '.objcol', IS, IS)
    noc = z3.Int(n + '.nobj')
    ctx.fact(noc >= 0)

    def obj(c):
        # class invariant: the objective is zero outside the listed columns, which are pairwise different
        c1 = num(add(c, 1))
        return py(z3.If(z3.And(0 <= w(c1), w(c1) < noc, oc(w(c1)) == c1), ob(num(c)), z3.RealVal(0)))
    lp = LP(nrows=nr, ncols=nc, A=(lambda r, c: A(num(r), num(c))), rtype=rtype_of(T), rlb=(lambda r: lb(num(r))), rub=(lambda r: ub(num(r))),
            ctype=(lambda c: FR), obj=obj, state=None)
    i = z3.Int(n + '.oi')
    ctx.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < noc), z3.And(1 <= oc(i), oc(i) <= nc, w(oc(i)) == i)), patterns=[oc(i)]))

    def ocf(j):
        return oc(num(j))
    oc_list = PList(arr=(noc, ocf))
    INVERSES[oc.name()] = w
    return lp, oc_list


def sym_str(name):
    f = z3.Function(name, IS, IS)
    return lambda i: SStr([('sym', f(num(i)))])


def sym_lpi(ctx, n, inputs=False, reach=True):
    'an arbitrary LpInstance satisfying the class invariant'
    lp, oc = sym_lp(ctx, n)
    o = Obj('LpInstance', lp=lp, obj_cols=oc, names=PList(arr=(lp.f['ncols'], sym_str(n + '.name'))), dims=None, basis_mat_pos=None, cur_vars_offset=None,
            input_effects_offsets=None, bm_indices=None)
    if reach:
        d, br, bc, cv = z3.Int(n + '.dims'), z3.Int(n + '.bmrow'), z3.Int(n + '.bmcol'), z3.Int(n + '.cur')
        nr, nc = lp.f['nrows'], lp.f['ncols']
        ctx.fact(z3.And(d >= 0, br >= 0, bc >= 0, cv >= bc + d, br + d <= nr, cv + d <= nc))
        ie = None
        if inputs:
            ir, ic = z3.Int(n + '.iero'), z3.Int(n + '.ieco')
            # the input effects columns come after the current variables, its rows after the basis matrix rows
            ctx.fact(z3.And(ir >= br + d, ic >= cv + d, ir + d <= nr, ic + d <= nc))
            ie = (ir, ic)
        for f, v in (('dims', d), ('basis_mat_pos', (br, bc)), ('cur_vars_offset', cv), ('input_effects_offsets', ie)):
            o.f[f] = v
        o.f['bm_indices'] = bm_list(o)
    return o


def bm_list(o):
    'the basis matrix row index cache the class invariant asks for'
    d, bc, cv, ie = o.f['dims'], o.f['basis_mat_pos'][1], o.f['cur_vars_offset'], o.f['input_effects_offsets']
    k = z3.Int('bmk')

    def row(r):
        items = [('loop', k, 0, d, (('one', add(add(k, bc), 1)),)), ('one', add(add(cv, r), 1))]
        if ie is not None:
            items.append(('one', add(add(ie[1], r), 1)))
        return Swig(tuple(items))
    return PList(arr=(d, row))


def sym_vec(ctx, n, size=None, lst=False, f=None):
    'a vector argument: numpy array or list'
    m = z3.Int(n + '.len') if size is None else size
    if size is None:
        ctx.fact(m >= 0)
    F = z3.Function(n, IS, RS)
    fn = f or (lambda i: F(num(i)))
    return PList(arr=(m, fn)) if lst else NArr((m,), fn)


def sym_mat(ctx, n, rows, cols):
    F = z3.Function(n, IS, IS, RS)
    return NArr((rows, cols), lambda i, j: F(num(i), num(j)))


def nat(ctx, n, lo=0):
    v = z3.Int(n)
    ctx.fact(v >= lo)
    return v


def sym_csr(ctx, n, kind='csr', rows=None, cols=None):
    r = nat(ctx, n + '.rows') if rows is None else rows
    c = nat(ctx, n + '.cols') if cols is None else cols
    return input_csr(ctx, n, (r, c), kind)


def sym_names(ctx, n, size=None):
    m = nat(ctx, n + '.len') if size is None else size
    return PList(arr=(m, sym_str(n)))


# ------------------------------------------------------------------ comparison of states

def row_rhs(lp, r):
    t = lp.f['rtype'](r)
    return ite(eq(t, LO), lambda: lp.f['rlb'](r), lambda: lp.f['rub'](r))


def same_lp(I, a, b, nm, names=None):
    ctx = I.ctx
    ob = lambda what, g: ctx.oblige(f'{nm}: {what}', g, 'post')
    ob('number of rows', eq(a.f['nrows'], b.f['nrows']))
    ob('number of columns', eq(a.f['ncols'], b.f['ncols']))
    r, c = z3.FreshInt('row'), z3.FreshInt('column')
    rin, cin = z3.And(0 <= r, r < num(b.f['nrows'])), z3.And(0 <= c, c < num(b.f['ncols']))
    with_hyp(ctx, [rin, cin], lambda: ob('matrix entry', eq(a.f['A'](r, c), b.f['A'](r, c))))
    with_hyp(ctx, [rin], lambda: ob('row type', eq(a.f['rtype'](r), b.f['rtype'](r))))
    with_hyp(ctx, [rin], lambda: ob('right-hand side', eq(row_rhs(a, r), row_rhs(b, r))))
    with_hyp(ctx, [rin], lambda: ob('equality rows have one bound', Implies(eq(a.f['rtype'](r), FX), eq(a.f['rlb'](r), a.f['rub'](r)))) if False else None)
    with_hyp(ctx, [cin], lambda: ob('columns are free', eq(a.f['ctype'](c), FR)))
    with_hyp(ctx, [cin], lambda: ob('objective coefficient', eq(a.f['obj'](c), b.f['obj'](c))))


def with_hyp(ctx, hyps, f):
    n = len(ctx.pcs[-1])
    ctx.pcs[-1] += [boolz(h) for h in hyps]
    try:
        return f()
    finally:
        del ctx.pcs[-1][n:]


def same_value(I, a, b, nm):
    ctx = I.ctx
    if (a is None or b is None) and not (isinstance(a, Ref) or isinstance(b, Ref)):
        ctx.oblige(nm, a is b, 'post')
        return
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            ctx.oblige(nm, False, 'post')
            return
        for i, (x, y) in enumerate(zip(a, b)):
            same_value(I, x, y, f'{nm}[{i}]')
        return
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        ctx.oblige(nm, sid(I.prog, a) == sid(I.prog, b), 'post')
        return
    if isinstance(a, (WList, WDict)) and type(a) is type(b):
        ctx.oblige(nm, eq(token(I, a), token(I, b)), 'post')
        return
    if isinstance(a, Csr) and isinstance(b, Csr):
        ctx.oblige(nm + '.kind', a.kind == b.kind, 'post')
        same_value(I, a.shape, b.shape, nm + '.shape')
        r, c = z3.FreshInt('row'), z3.FreshInt('column')
        with_hyp(ctx, [0 <= r, r < num(b.shape[0]), 0 <= c, c < num(b.shape[1])], lambda: ctx.oblige(nm + ': entry', eq(a.entry(r, c), b.entry(r, c)), 'post'))
        return
    if isinstance(a, NArr) and isinstance(b, NArr):
        if len(a.f['shape']) != len(b.f['shape']):
            ctx.oblige(nm + ': number of dimensions', False, 'post')
            return
        same_value(I, a.f['shape'], b.f['shape'], nm + '.shape')
        ix = [z3.FreshInt('i') for _ in a.f['shape']]
        with_hyp(ctx, [z3.And(0 <= i, i < num(n)) for i, n in zip(ix, b.f['shape'])], lambda: same_elem(I, a.f['fn'](*ix), b.f['fn'](*ix), nm + ': element'))
        return
    if isinstance(a, (PList, PDict)) and type(a) is type(b) and not a.frozen and not b.frozen:
        # the same lists are shared in both states
        x, y = I.alias.setdefault(id(a), b), I.alias.setdefault(-id(b), a)
        if x is not b or y is not a:
            ctx.oblige(nm + ': shared with another list or dictionary exactly where the contract says', False, 'post')
    if isinstance(a, Ref) and ref_or_none(b) or isinstance(b, Ref) and ref_or_none(a):
        ctx.oblige(nm, I.models.compare(I, 'Is', a, b), 'post')
        return
    if isinstance(a, PList) and isinstance(b, PList) and any(x.f['v'][0] == 'items' and count([i for i in x.f['v'][1] if i[0] != 'mark']) is None for x in (a, b)):
        # conditional elements: equal terms standing for the lists
        ctx.oblige(nm, list_token(I, items_of(a)) == list_token(I, items_of(b)), 'post')
        return
    if isinstance(a, PList) and isinstance(b, PList):
        n, f = arr_of(a)
        m, g = arr_of(b)
        ctx.oblige(nm + ': length', eq(n, m), 'post')
        i = z3.FreshInt('i')
        if isinstance(m, int):
            for q in range(m):
                same_value(I, f(q), g(q), f'{nm}[{q}]')
            return
        with_hyp(ctx, [0 <= i, i < num(m)], lambda: same_value(I, f(i), g(i), nm + ': element'))
        return
    if isinstance(a, PDict) and isinstance(b, PDict):
        # the same keys in the same order with the same values, over the same base
        ctx.oblige(nm + ': size', eq(a.f['n'], b.f['n']), 'post')
        if len(a.f['v']) != len(b.f['v']):
            raise Unsupported('comparison of dictionaries written differently')
        for (k, v), (k2, v2) in zip(a.f['v'], b.f['v']):
            same_value(I, k, k2, nm + ': key')
            if v is Missing or v2 is Missing:
                ctx.oblige(nm + ': removed', v is v2, 'post')
            else:
                same_value(I, v, v2, nm + ': value')
        return
    if isinstance(a, Swig) and isinstance(b, Swig):
        n, m = count(a.items), count(b.items)
        ctx.oblige(nm + ': length', eq(n, m), 'post')
        i = z3.FreshInt('i')
        with_hyp(ctx, [0 <= i, i < num(m)], lambda: ctx.oblige(nm + ': element', eq(item_at(a.items, i, 0), item_at(b.items, i, 0)), 'post'))
        return
    if isinstance(a, Obj) and isinstance(b, Obj):
        same_obj(I, a, b, nm)
        return
    if isinstance(a, Inf) or isinstance(b, Inf):
        ctx.oblige(nm, a == b, 'post')
        return
    if isinstance(a, Struct) and hasattr(a, 'same'):
        ctx.oblige(nm, a.same(b), 'post')
        return
    if isinstance(a, NameSet) or isinstance(b, NameSet):
        ctx.oblige(nm, type(a) is type(b) and a.name == b.name, 'post')
        return
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        ctx.oblige(nm, a is b or (isinstance(a, Opaque) and isinstance(b, Opaque) and a.name == b.name), 'post')
        return
    ctx.oblige(nm, eq(a, b), 'post')


def same_elem(I, a, b, nm):
    same_value(I, a, b, nm)


def same_obj(I, a, b, nm):
    ctx = I.ctx
    if a.cls != b.cls:
        ctx.oblige(nm + ': class', False, 'post')
        return
    key = (id(a), id(b))
    if key in I.seen_pairs:
        return
    I.seen_pairs.add(key)
    if a.cls == 'LpInstance' and 'lp' in b.f:
        same_lpi(I, a, b, nm)
        return
    for f in sorted(set(a.f) | set(b.f)):
        if f in ('_opaque', '_frozen') or (a.cls == 'World' and f == 'n') or (I.contract is not None and f in I.contract.ignore) or f in SCRATCH and I.prog.only_written(f):
            continue
        if f not in a.f or f not in b.f:
            ctx.oblige(f'{nm}.{f}: assigned', False, 'post')
            continue
        x, y = a.f[f], b.f[f]
        if isinstance(x, Opaque) or isinstance(y, Opaque) or callable(x):
            if x is not y and not (isinstance(x, Opaque) and isinstance(y, Opaque) and x.name == y.name):
                ctx.oblige(f'{nm}.{f}', False, 'post')
            continue
        same_value(I, x, y, f'{nm}.{f}')


def same_lpi(I, a, b, nm):
    same_lp(I, a.f['lp'], b.f['lp'], nm)
    for f in ('dims', 'basis_mat_pos', 'cur_vars_offset', 'input_effects_offsets'):
        same_value(I, a.f[f], b.f[f], f'{nm}.{f}')
    # the class invariant: one name per column, objective only in obj_cols, index cache
    ctx = I.ctx
    n, f = arr_of(a.f['names'])
    ctx.oblige(f'{nm}: one name per column', eq(n, a.f['lp'].f['ncols']), 'inv')
    if I.contract is not None and I.contract.names:
        m, g = arr_of(b.f['names'])
        i = z3.FreshInt('i')
        with_hyp(ctx, [0 <= i, i < num(n)], lambda: same_value(I, f(i), g(i), nm + '.names: element'))
    if b.f['bm_indices'] is not None:
        if a.f['bm_indices'] is None:
            ctx.oblige(f'{nm}: index cache assigned', False, 'inv')
        else:
            same_value(I, a.f['bm_indices'], b.f['bm_indices'], f'{nm}: index cache')
    if I.contract is None or I.contract.objcols:
        same_value(I, a.f['obj_cols'], b.f['obj_cols'], f'{nm}.obj_cols')


# ------------------------------------------------------------------ specifications: LpInstance

class Trusted(Contract):
    'contract used by callers whose body is not verified'
    def __init__(self, qual, spec, why):
        Contract.__init__(self, qual, spec, {}, (), why)

    def apply(self, I, args, kwargs, self_obj):
        note(I, f'{self.qual}: {self.doc}')
        return Contract.apply(self, I, args, kwargs, self_obj)


def swig_array(I, cls, list_data):
    return Swig([x for x in items_of(list_data) if x[0] != 'mark'])


for _n in ('as_double_array', 'as_int_array'):
    ALL['lpinstance.SwigArray.' + _n] = Trusted('lpinstance.SwigArray.' + _n, swig_array, 'assumed: makes a glpk array of the list (the memory limit is not reached)')

LI = 'lpinstance.LpInstance.'


def grow_rows(I, lp, n, rtype, rhs):
    old = lp.f['nrows']
    new = lambda *x: le(old, x[0])
    p = I.ctx.put
    p(lp, 'A', RangeUpd(lp.f['A'], new, lambda r, c: Fraction(0), (None, None)))
    p(lp, 'rtype', RangeUpd(lp.f['rtype'], new, lambda r: rtype(sub(r, old)), (None,)))
    p(lp, 'rlb', RangeUpd(lp.f['rlb'], new, lambda r: rhs(sub(r, old)), (None,)))
    p(lp, 'rub', RangeUpd(lp.f['rub'], new, lambda r: rhs(sub(r, old)), (None,)))
    p(lp, 'nrows', add(old, n))


def block_rows(I, lp, off, shape, entry):
    'rows off[0].. are replaced: entry inside the block, zero elsewhere in these rows'
    t = lambda r, c: And(le(off[0], r), lt(r, add(off[0], shape[0])))

    def v(r, c):
        cc = sub(c, off[1])
        return ite(And(le(0, cc), lt(cc, shape[1])), lambda: rl(entry(sub(r, off[0]), cc)), lambda: Fraction(0))
    I.ctx.put(lp, 'A', RangeUpd(lp.f['A'], t, v, (None, None)))


def block_cols(I, lp, off, shape, entry):
    t = lambda r, c: And(le(off[1], c), lt(c, add(off[1], shape[1])))

    def v(r, c):
        rr = sub(r, off[0])
        return ite(And(le(0, rr), lt(rr, shape[0])), lambda: rl(entry(rr, sub(c, off[1]))), lambda: Fraction(0))
    I.ctx.put(lp, 'A', RangeUpd(lp.f['A'], t, v, (None, None)))


def vec(I, v):
    'a vector argument (list or 1-d array) as (length, fn)'
    if isinstance(v, NArr):
        if len(v.f['shape']) != 1:
            refuse()
        return v.f['shape'][0], v.f['fn']
    if isinstance(v, PList):
        return arr_of(v)
    refuse()


def sc_lpi(extra=None, reach=False, inputs=(False,)):
    'scenarios on one constraint store'
    out = {}
    for inp in inputs:
        def setup(ctx, inp=inp):
            s = sym_lpi(ctx, 's', inp, reach)
            return {'self': s, 'args': extra(ctx, s) if extra else []}
        out['inputs' if inp else 'plain'] = setup
    return out


def variants(**fs):
    return fs


def S_lpi(argf, reach=False, inputs=False):
    def setup(ctx):
        s = sym_lpi(ctx, 's', inputs, reach)
        return {'self': s, 'args': argf(ctx, s)}
    return setup


@contract(LI + 'add_cols', variants(any=S_lpi(lambda ctx, s: [sym_names(ctx, 'new')])), ('C02', 'C01', 'C08', 'C10', 'C11'),
          'adds one free column per name at the right end, with zero entries and zero objective')
def add_cols(I, self, names):
    if not isinstance(names, PList):
        refuse()
    lp = self.f['lp']
    n, fn = arr_of(names)
    old = lp.f['ncols']
    p = I.ctx.put
    p(lp, 'A', RangeUpd(lp.f['A'], lambda r, c: le(old, c), lambda r, c: Fraction(0), (None, None)))
    p(lp, 'ctype', RangeUpd(lp.f['ctype'], lambda c: le(old, c), lambda c: FR, (None,)))
    p(lp, 'obj', RangeUpd(lp.f['obj'], lambda c: le(old, c), lambda c: Fraction(0), (None,)))
    p(lp, 'ncols', add(old, n))
    m, g = arr_of(self.f['names'])
    p(self.f['names'], 'v', ('arr', add(m, n), lambda i: ite(lt(i, m), lambda: g(i), lambda: fn(sub(i, m)))))


ALL[LI + 'add_cols'].names = True


@contract(LI + 'add_rows_less_equal', variants(array=S_lpi(lambda ctx, s: [sym_vec(ctx, 'rhs')]), list=S_lpi(lambda ctx, s: [sym_vec(ctx, 'rhs', lst=True)])),
          ('C02', 'C01', 'C05', 'C07', 'C08'), 'adds one <= row per right-hand side at the bottom, with zero entries')
def add_rows_less_equal(I, self, rhs_vec):
    n, fn = vec(I, rhs_vec)
    grow_rows(I, self.f['lp'], n, lambda r: UP, lambda r: rl(fn(r)))


def sym_types(ctx, n, m):
    T = z3.Function(n, IS, IS)
    return PList(arr=(m, rtype_of(T)))


def _awt(lst):
    def f(ctx, s):
        rhs = sym_vec(ctx, 'rhs', lst=lst)
        return [sym_types(ctx, 'types', z3.Int('ntypes')), rhs]

    def setup(ctx):
        ctx.fact(z3.Int('ntypes') >= 0)
        s = sym_lpi(ctx, 's', False, False)
        return {'self': s, 'args': f(ctx, s)}
    return setup


@contract(LI + 'add_rows_with_types', variants(array=_awt(False), list=_awt(True)), ('C02', 'C01', 'C10', 'C11'),
          'adds one row per right-hand side with the given types (refused unless the lengths agree); types are UP, LO or FX')
def add_rows_with_types(I, self, types, rhs_vec):
    n, fn = vec(I, rhs_vec)
    m, tf = arr_of(types)
    require(I, eq(n, m))
    grow_rows(I, self.f['lp'], n, tf, lambda r: rl(fn(r)))


@contract(LI + 'add_rows_equal_zero', variants(any=S_lpi(lambda ctx, s: [z3.Int('count')])), ('C02', 'C01', 'C08'),
          'adds the given number of == 0 rows (none if the number is not positive)')
def add_rows_equal_zero(I, self, n):
    n = n if I.ctx.entails(le(0, n)) else py(z3.If(num(n) > 0, num(n), z3.IntVal(0)))
    grow_rows(I, self.f['lp'], n, lambda r: FX, lambda r: Fraction(0))


def _off(ctx, s):
    return (z3.Int('off_r'), z3.Int('off_c'))


@contract(LI + 'set_constraints_csr', variants(offset=S_lpi(lambda ctx, s: [sym_csr(ctx, 'M'), _off(ctx, s)]), default=S_lpi(lambda ctx, s: [sym_csr(ctx, 'M')]),
                                               wrong_format=S_lpi(lambda ctx, s: [sym_csr(ctx, 'M', 'csc')])),
          ('C02', 'C01', 'C05', 'C06', 'C07', 'C08', 'C10'),
          'refused unless the block fits; replaces exactly the rows of the block: its entries inside, zero elsewhere in those rows')
def set_constraints_csr(I, self, csr_mat, offset):
    if not (isinstance(csr_mat, Csr) and csr_mat.kind == 'csr'):
        refuse()
    off = (0, 0) if offset is None else offset
    lp = self.f['lp']
    sh = csr_mat.shape
    require(I, And(le(0, off[0]), le(0, off[1]), le(add(off[0], sh[0]), lp.f['nrows']), le(add(off[1], sh[1]), lp.f['ncols'])))
    block_rows(I, lp, off, sh, csr_mat.entry)


@contract(LI + 'set_constraints_csc', variants(offset=S_lpi(lambda ctx, s: [sym_csr(ctx, 'M', 'csc'), _off(ctx, s)]), default=S_lpi(lambda ctx, s: [sym_csr(ctx, 'M', 'csc')]),
                                               wrong_format=S_lpi(lambda ctx, s: [sym_csr(ctx, 'M', 'csr')])),
          ('C02', 'C05', 'C11'), 'refused unless the block fits; replaces exactly the columns of the block')
def set_constraints_csc(I, self, csc_mat, offset):
    if not (isinstance(csc_mat, Csr) and csc_mat.kind == 'csc'):
        refuse()
    off = (0, 0) if offset is None else offset
    lp = self.f['lp']
    sh = csc_mat.shape
    require(I, And(le(0, off[0]), le(0, off[1]), le(add(off[0], sh[0]), lp.f['nrows']), le(add(off[1], sh[1]), lp.f['ncols'])))
    block_cols(I, lp, off, sh, csc_mat.entry)


@contract(LI + 'set_constraint_rhs', variants(any=S_lpi(lambda ctx, s: [z3.Int('row'), z3.Real('rhs')])), ('C02', 'C06'),
          'refused for rows that do not exist; changes the right-hand side of one row and nothing else')
def set_constraint_rhs(I, self, row_index, rhs):
    lp = self.f['lp']
    require(I, And(le(0, row_index), lt(row_index, lp.f['nrows'])))
    I.ctx.put(lp, 'rlb', Upd(lp.f['rlb'], (row_index,), lambda r: rl(rhs)))
    I.ctx.put(lp, 'rub', Upd(lp.f['rub'], (row_index,), lambda r: rl(rhs)))


@contract(LI + 'get_types', variants(any=S_lpi(lambda ctx, s: [])), ('C02', 'C10', 'C11'), 'the row types in order')
def get_types(I, self):
    lp = self.f['lp']
    f = lp.f['rtype']
    return PList(arr=(lp.f['nrows'], f))


def _rows(ctx, s):
    n = nat(ctx, 'nreq')
    F = z3.Function('req', IS, IS)
    i = z3.Int('reqi')
    ctx.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= F(i), F(i) < s.f['lp'].f['nrows'])), patterns=[F(i)]))
    return [PList(arr=(n, lambda j: F(num(j))))]


@contract(LI + 'get_rhs', variants(all=S_lpi(lambda ctx, s: []), some=S_lpi(_rows)), ('C02', 'C06', 'C10', 'C11'),
          'the right-hand sides of all rows, or of the requested rows in the requested order')
def get_rhs(I, self, row_indices):
    lp = self.f['lp']
    nr, ty, lb, ub = [lp.f[x] for x in ('nrows', 'rtype', 'rlb', 'rub')]

    def rhs(r):
        return ite(eq(ty(r), LO), lambda: lb(r), lambda: ub(r))
    if row_indices is None:
        return NArr((nr,), rhs)
    n, fn = seqview(I, row_indices)
    i = z3.FreshInt('i')
    with_hyp(I.ctx, [0 <= i, i < num(n)], lambda: must(I, And(le(0, fn(i)), lt(fn(i), nr)), 'requested rows exist') if not I.assuming else None)
    return NArr((n,), lambda j: rhs(fn(j)))


@contract(LI + 'get_row', variants(any=S_lpi(lambda ctx, s: [z3.Int('row')])), ('C02', 'C06'), 'the row as a 1-row matrix; refused if there is no such row')
def get_row(I, self, row):
    lp = self.f['lp']
    require(I, And(le(0, row), lt(row, lp.f['nrows'])))
    A, nc = lp.f['A'], lp.f['ncols']
    return Csr('csr', (1, nc), lambda r, c: inside((1, nc), r, c, lambda: A(row, c)))


@contract(LI + 'get_names', variants(any=S_lpi(lambda ctx, s: [])), ('C02', 'C10'), 'the column names')
def get_names(I, self):
    return self.f['names']


@contract(LI + 'get_dense_constraints', variants(any=S_lpi(lambda ctx, s: [z3.Int('x'), z3.Int('y'), z3.Int('w'), z3.Int('h')])), ('C02', 'C06', 'C11'),
          'the requested block of the constraint matrix; refused if it does not fit')
def get_dense_constraints(I, self, x, y, w, h):
    lp = self.f['lp']
    require(I, And(le(0, w), le(0, h), le(0, x), le(add(x, w), lp.f['ncols']), le(0, y), le(add(y, h), lp.f['nrows'])))
    A = lp.f['A']
    return NArr((h, w), lambda r, c: A(add(y, r), add(x, c)))


@contract(LI + 'get_num_rows', variants(any=S_lpi(lambda ctx, s: [])), ('C02',), 'the number of rows')
def get_num_rows(I, self):
    return self.f['lp'].f['nrows']


@contract(LI + 'get_num_cols', variants(any=S_lpi(lambda ctx, s: [])), ('C02',), 'the number of columns')
def get_num_cols(I, self):
    return self.f['lp'].f['ncols']


def _reach_args(inputs):
    def f(ctx, s):
        d = nat(ctx, 'dims')
        ie = (z3.Int('ie_r'), z3.Int('ie_c')) if inputs else None
        return [d, (z3.Int('bm_r'), z3.Int('bm_c')), z3.Int('cur'), ie]
    return f


@contract(LI + 'set_reach_vars', variants(plain=S_lpi(_reach_args(False)), inputs=S_lpi(_reach_args(True)), again=S_lpi(_reach_args(True), reach=True, inputs=False)),
          ('C02', 'C01', 'C08'), 'stores where the basis matrix, current variables and input effects are, and rebuilds the index cache for them')
def set_reach_vars(I, self, dims, basis_mat_pos, cur_vars_offset, input_effects_offsets):
    lp = self.f['lp']
    nr, nc = lp.f['nrows'], lp.f['ncols']
    require(I, And(le(add(basis_mat_pos[0], dims), nr), le(add(basis_mat_pos[1], mul(2, dims)), nc)))
    if input_effects_offsets is not None:
        require(I, And(le(add(input_effects_offsets[0], dims), nr), le(add(input_effects_offsets[1], dims), nc)))
    p = I.ctx.put
    p(self, 'dims', dims)
    p(self, 'basis_mat_pos', basis_mat_pos)
    p(self, 'cur_vars_offset', cur_vars_offset)
    p(self, 'input_effects_offsets', input_effects_offsets)
    p(self, 'bm_indices', bm_list(self))


def clone_state(I, self):
    s, lp = self.f, self.f['lp'].f
    n, f = arr_of(s['names'])
    m, g = arr_of(s['obj_cols'])
    lp2 = LP(nrows=lp['nrows'], ncols=lp['ncols'], A=lp['A'], rtype=lp['rtype'], rlb=lp['rlb'], rub=lp['rub'], ctype=lp['ctype'], obj=lp['obj'], state=None)
    r = Obj('LpInstance', lp=lp2, names=PList(arr=(n, f)), obj_cols=PList(arr=(m, g)), dims=s['dims'], basis_mat_pos=s['basis_mat_pos'],
            cur_vars_offset=s['cur_vars_offset'], input_effects_offsets=s['input_effects_offsets'], bm_indices=None)
    r.f['bm_indices'] = bm_list(r)
    return r


def fresh_result(I, st1, st2, r1, r2):
    'the result shares no mutable state with the argument'
    o = st1['self']
    for f in ('lp', 'names', 'obj_cols'):
        I.ctx.oblige(f'copy: own {f}', r1.f[f] is not o.f[f], 'post')
    if isinstance(r1.f['bm_indices'], Heap):
        I.ctx.oblige('copy: own index cache', r1.f['bm_indices'] is not o.f['bm_indices'], 'post')
    I.ctx.oblige('copy: own object', r1 is not o, 'post')


@contract(LI + 'clone', variants(plain=S_lpi(lambda ctx, s: [], reach=True), inputs=S_lpi(lambda ctx, s: [], reach=True, inputs=True)),
          ('C02', 'C07', 'C08', 'C10'), 'an equal copy that shares no mutable state with the original', compare=fresh_result)
def clone(I, self):
    return clone_state(I, self)


ALL[LI + 'clone'].names = True


def _dir(kind):
    def f(ctx, s):
        if kind == 'csr':
            return [sym_csr(ctx, 'dir', rows=1), True]
        if kind == 'csr_rows':
            r = nat(ctx, 'dir.rows')
            ctx.fact(r != 1)
            return [sym_csr(ctx, 'dir', rows=r), True]
        if kind == 'csr_offset':
            return [sym_csr(ctx, 'dir', rows=1), True, z3.Int('offset')]
        if kind == 'list':
            return [sym_vec(ctx, 'dir', lst=True)]
        return [sym_vec(ctx, 'dir')]
    return f


@contract(LI + 'set_minimize_direction', variants(array=S_lpi(_dir('array'), reach=True), list=S_lpi(_dir('list'), reach=True), csr=S_lpi(_dir('csr'), reach=True),
                                                  csr_offset=S_lpi(_dir('csr_offset')), csr_rows=S_lpi(_dir('csr_rows'), reach=True)),
          ('C03', 'C06', 'C07', 'C09', 'C02'), 'the objective becomes exactly the direction over the current variables (or from the given offset), zero elsewhere')
def set_minimize_direction(I, self, direction_vec, is_csr, offset):
    lp = self.f['lp']
    sparse = is_csr is True
    if sparse:
        m = direction_vec.shape[1]
        ent = lambda i: direction_vec.entry(0, i)
    else:
        m, fn = vec(I, direction_vec)
        ent = lambda i: rl(fn(i))
    if offset is None:
        off = self.f['cur_vars_offset']
        require(I, le(m, self.f['dims']))
    else:
        off = offset
        must(I, le(0, offset), 'offset not negative')
        require(I, le(add(m, off), lp.f['ncols']))
    if sparse:
        require(I, eq(direction_vec.shape[0], 1))
        direction_vec.shape = (1, direction_vec.shape[1])
        raw = raw_of(I, direction_vec)
        cols = PList(arr=(raw.ptr(1), lambda p: add(1, add(off, raw.ind(p)))))
    else:
        cols = PList(arr=(m, lambda i: add(1, add(off, i))))
    I.ctx.put(lp, 'obj', lambda c: ite(And(le(off, c), lt(c, add(off, m))), lambda: ent(sub(c, off)), lambda: Fraction(0)))
    I.ctx.put(self, 'obj_cols', cols)


ALL[LI + 'get_simplex_error_string'] = Trusted(LI + 'get_simplex_error_string', lambda I, simplex_res: SStr(('?',)), 'assumed: returns a message text')


def _min(direction=True, cols=True, fail=None):
    def f(ctx, s):
        d = sym_vec(ctx, 'dir', lst=True) if direction else None
        if cols:
            n = nat(ctx, 'ncolumns')
            C = z3.Function('columns', IS, IS)
            cs = PList(arr=(n, lambda i: C(num(i))))
        else:
            cs = None
        return [d, cs, z3.Bool('fail_on_unsat') if fail is None else fail]
    return f


def in_range(I, n, fn, lim):
    'all of fn(0..n-1) are in [0, lim), as a condition'
    if isinstance(n, int):
        return py(And(*[And(le(0, fn(i)), lt(fn(i), lim)) for i in range(n)]))
    j = z3.FreshInt('j')
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < num(n)), boolz(And(le(0, fn(j)), lt(fn(j), lim)))))


def minimize_check(I, run, st1, st2, args2):
    'relation between the answer of minimize and what the solver says'
    self2, direction, columns, fail = args2[0], args2[1], args2[2], args2[3]
    ctx = I.ctx
    refused = False
    try:
        if direction is not None:
            set_minimize_direction(I, self2, direction, False, None)
    except PyRaise:
        refused = True
    ctx.believe_nofeas = Not(fail)
    if columns is not None:
        ctx.fact(Or(Not(fail), in_range(I, *seqview(I, columns), self2.f['lp'].f['ncols'])))
    out = run()
    if refused:
        ctx.oblige('minimize: refuses a direction that does not fit', out[0] == 'raise', 'post')
        return out[0]
    feas, X, err = oracle(I, self2.f['lp'])
    lp2 = self2.f['lp']
    if out[0] == 'raise':
        k = out[1].kind
        if k == 'UnsatError':
            ctx.oblige('minimize: UnsatError only if there is no solution', Not(feas), 'post')
            ctx.oblige('minimize: UnsatError only if asked for', fail, 'post')
        elif k == 'RuntimeError':
            s = st1['self'].f['lp'].f['state']
            ctx.oblige('minimize: an error only without a definite answer of the solver', Or(z3.Not(s[4]) if isinstance(s, tuple) else False, err), 'post')
        elif k == 'AssertionError' and columns is not None:
            n, fn = seqview(I, columns)
            ctx.oblige('minimize: refuses only columns that do not exist', Not(in_range(I, n, fn, lp2.f['ncols'])), 'post')
        else:
            ctx.oblige(f'minimize: does not raise ({out[1]})', False, 'post')
        return 'raise'
    r = out[1]
    if r is None:
        ctx.oblige('minimize: None only if there is no solution', Not(feas), 'post')
        ctx.oblige('minimize: None only if no error was asked for', Not(fail), 'post')
    else:
        ctx.oblige('minimize: an answer only if there is a solution', feas, 'post')
        n, fn = (lp2.f['ncols'], lambda i: i) if columns is None else seqview(I, columns)
        same_value(I, r, NArr((n,), lambda i: X(fn(i))), 'minimize: result')
    same_value(I, st1['self'], self2, 'self after minimize')
    return 'return'


@contract(LI + 'minimize', variants(direction=S_lpi(_min(), reach=True), all_columns=S_lpi(_min(cols=False), reach=True), current=S_lpi(_min(direction=False), reach=True)),
          ('C03', 'C01', 'C06', 'C07', 'C09', 'C11'), 'the requested coordinates of the optimum of the current problem; None or UnsatError exactly if there is none; an error without a definite answer')
def minimize(I, self, direction_vec, columns, fail_on_unsat, print_on):
    lp = self.f['lp']
    if direction_vec is not None:
        set_minimize_direction(I, self, direction_vec, False, None)
    feas, X, err = oracle(I, lp)
    if I.ctx.branch(err):
        refuse('RuntimeError')
    if not I.ctx.branch(feas):
        if I.ctx.branch(fail_on_unsat):
            refuse('UnsatError')
        return None
    if columns is None:
        return NArr((lp.f['ncols'],), X)
    n, fn = seqview(I, columns)
    i = z3.FreshInt('i')
    if isz(n) or n != 0:
        with_hyp(I.ctx, [0 <= i, i < num(n)], lambda: must(I, And(le(0, fn(i)), lt(fn(i), lp.f['ncols'])), 'requested columns exist'))
    return NArr((n,), lambda j: X(fn(j)))


ALL[LI + 'minimize'].verify_fn = minimize_check


TRUSTED = ['the pyded engine (engine/*.py): symbolic execution and loop summaries of the Python subset it accepts', 'z3 and cvc5',
           'contracts of Python builtins, numpy, scipy.sparse and GLPK in engine/models.py',
           'machine arithmetic is treated as mathematical (floats as reals, integers unbounded)']


def compare_states(I, c, st1, st2, r1, r2):
    # kwargs are arguments too: what they are shared with counts
    for k in st1.get('kwargs', {}):
        if isinstance(st1['kwargs'][k], Heap):
            same_value(I, st1['kwargs'][k], st2['kwargs'][k], f'argument {k} after {c.qual}')
    nm = c.qual.split('.')[-1]
    if st1.get('self') is not None:
        same_value(I, st1['self'], st2['self'], 'self after ' + nm)
    for i, (x, y) in enumerate(zip(st1['args'], st2['args'])):
        if isinstance(x, Heap) and i not in c.unspecified:
            same_value(I, x, y, f'argument {i} after {nm}')
    for k in st1.get('watch', {}):
        same_value(I, st1['watch'][k], st2['watch'][k], f'{k} after {nm}')
    if r1 is None and r2 is None:
        pass
    else:
        same_value(I, r1, r2, 'result of ' + nm)
    if c.compare_fn is not None:
        c.compare_fn(I, st1, st2, r1, r2)
