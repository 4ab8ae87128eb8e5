'''pyded models: contracts of what the code does not define itself (Python builtins, numpy, scipy.sparse, GLPK).

These are the trusted base of the deductive part; evidence lists the ones a run used (ctx.assume_notes).
'''
import ast
import z3
from core import *
import algebra
from interp import *

GLP = dict(GLP_FR=1, GLP_LO=2, GLP_UP=3, GLP_DB=4, GLP_FX=5, GLP_ON=1, GLP_OFF=0, GLP_MSG_OFF=0, GLP_MSG_ON=2, GLP_MSG_ALL=3, GLP_DUALP=2, GLP_PRIMAL=1,
           GLP_UNDEF=1, GLP_FEAS=2, GLP_INFEAS=3, GLP_NOFEAS=4, GLP_OPT=5, GLP_UNBND=6, GLP_EBADB=1, GLP_ESING=2, GLP_ECOND=3, GLP_EBOUND=4, GLP_EFAIL=5,
           GLP_EOBJLL=6, GLP_EOBJUL=7, GLP_EITLIM=8, GLP_ETMLIM=9, GLP_ENOPFS=10, GLP_ENODFS=11, GLP_MIN=1, GLP_MAX=2, GLP_BS=1, GLP_NL=2, GLP_NU=3, GLP_NF=4, GLP_NS=5)
FR, LO, UP, DB, FX = 1, 2, 3, 4, 5


class EnumV:
    def __init__(self, seq):
        self.seq = seq


class ZipV:
    def __init__(self, seqs):
        self.seqs = seqs


class DType:
    def __init__(self, name):
        self.name = name


class Lin:
    'product of a matrix object with something, unevaluated'


def note(I, s):
    I.ctx.assume_notes.add(s)


# ------------------------------------------------------------------ sequences

def conditional(items, depth=0):
    'a list built of single and conditional elements, no loops within loops'
    return all(i[0] in ('one', 'mark') or i[0] == 'if' and conditional(i[2], depth) or i[0] == 'loop' and depth == 0 and conditional(i[4], 1) for i in items)


def seqview(I, v):
    'any finite sequence as (length, fn)'
    if isinstance(v, SeqView):
        return v.n, v.fn
    if isinstance(v, PList):
        return arr_of(v)
    if isinstance(v, WList):
        return arr_of(v.now(I))
    if isinstance(v, Ref) and '__iter__' in I.prog.schema.get(v.cls, {}):
        I.models.not_none(I, v, 'iterated object')
        return I.prog.schema[v.cls]['__iter__'](I, v)
    if isinstance(v, Struct) and hasattr(v, 'seq'):
        return v.seq(I)
    if isinstance(v, Csr) and v.kind == 'csr':
        n = v.shape[0]
        return n, (lambda i: csr_row(I, v, i))
    if isinstance(v, PDict):
        if v.f['base'] is not None or any(x is Missing for _, x in v.f['v']):
            raise Unsupported('iteration over a symbolic dictionary')
        return arr_of(PList(items=[('one', k) for k, _ in v.f['v']]))
    if isinstance(v, tuple):
        return len(v), (lambda i: v[i] if isinstance(i, int) else item_at([('one', x) for x in v], i, 0))
    if isinstance(v, NArr):
        sh, fn = v.f['shape'], v.f['fn']
        if len(sh) == 1:
            return sh[0], fn
        return sh[0], (lambda i: NArr(sh[1:], lambda *j: fn(i, *j), v.f['dtype']))
    if isinstance(v, RangeV):
        return range_len(v), (lambda i: add(v.lo, mul(i, v.step)))
    if isinstance(v, EnumV):
        n, fn = seqview(I, v.seq)
        return n, (lambda i: (i, fn(i)))
    if isinstance(v, ZipV):
        vs = [seqview(I, x) for x in v.seqs]
        n = vs[0][0]
        for m, _ in vs[1:]:
            if eq(n, m) is True or I.ctx.entails(eq(n, m)):
                continue
            if I.ctx.entails(le(n, m)):
                continue
            if I.ctx.entails(le(m, n)):
                n = m
                continue
            n = py(z3.If(num(n) <= num(m), num(n), num(m)))
        return n, (lambda i: tuple(fn(i) for _, fn in vs))
    raise Unsupported('sequence of type ' + type(v).__name__)


def range_len(r):
    d = sub(r.hi, r.lo)
    if r.step == 1:
        return max(d, 0) if isinstance(d, int) else py(z3.If(num(d) > 0, num(d), z3.IntVal(0)))
    if not isinstance(r.step, int) or r.step <= 0:
        if r.step == -1:
            d = sub(r.lo, r.hi)
            return max(d, 0) if isinstance(d, int) else py(z3.If(num(d) > 0, num(d), z3.IntVal(0)))
        raise Unsupported('range step')
    if isinstance(d, int):
        return max(-(-d // r.step), 0)
    q = (num(d) + (r.step - 1)) / z3.IntVal(r.step)
    return py(z3.If(num(d) > 0, q, z3.IntVal(0)))


# ------------------------------------------------------------------ sparse matrices

class GlobalFacts:
    def __init__(self, ctx):
        self.__dict__.update(ctx.__dict__)
        self.real = ctx

    def fact(self, b):
        b = py(b)
        if b is not True:
            self.real.facts[0].append(boolz(b))


class Raw:
    'raw storage of a csr/csc matrix: uninterpreted ptr / ind / dat with the entry function they represent'
    def __init__(self, ctx, csr, name):
        self.csr = csr
        prog = ctx.prog
        ks = [fr.k for fr in ctx.frames if fr.k is not None]
        if ks and csr.sid > ctx.frames[0].serial:
            raise Unsupported('raw storage of a matrix built in a loop')
        I = z3.IntSort()
        if ctx.frames:
            # the matrix is older than the loops: what is known about its storage holds everywhere
            ctx = GlobalFacts(ctx)
        self.fptr = z3.Function('ptr_' + name, I, I)
        self.find = z3.Function('ind_' + name, I, I)
        self.fdat = z3.Function('dat_' + name, I, z3.RealSort())
        self.ctx = ctx.real if isinstance(ctx, GlobalFacts) else ctx
        prog.raws[self.fptr.name()] = prog.raws[self.find.name()] = prog.raws[self.fdat.name()] = self
        major, minor = (0, 1) if csr.kind == 'csr' else (1, 0)
        n, m = csr.shape[major], csr.shape[minor]
        self.nmajor, self.nminor = n, m
        a, b, p = z3.Ints('ra rb rp')
        ctx.fact(self.fptr(0) == 0)
        ctx.fact(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b <= num(n)), self.fptr(a) <= self.fptr(b)), patterns=[z3.MultiPattern(self.fptr(a), self.fptr(b))]))
        ctx.fact(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a <= num(n)), z3.And(self.fptr(a) >= 0, self.fptr(a) <= self.fptr(num(n)))), patterns=[self.fptr(a)]))
        ctx.fact(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < self.fptr(num(n))), z3.And(0 <= self.find(p), self.find(p) < num(m))), patterns=[self.find(p)]))

        if n == 1 and not isz(n):
            # one row: every column at most once, every nonzero column present
            inv = z3.Function('inv_' + name, I, I)
            INVERSES[self.find.name()] = inv
            end = self.fptr(1)
            ctx.fact(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < end), z3.And(inv(self.find(p)) == p)), patterns=[self.find(p)]))
            ent = real(csr.entry(*((0, p) if csr.kind == 'csr' else (p, 0))))
            ctx.fact(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < num(m), ent != 0), z3.And(0 <= inv(p), inv(p) < end, self.find(inv(p)) == p)), patterns=[inv(p)]))
            entp = real(csr.entry(*((0, self.find(p)) if csr.kind == 'csr' else (self.find(p), 0))))
            ctx.fact(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < end), self.fdat(p) == entp), patterns=[self.fdat(p)]))

    def ptr(self, i):
        if i == 0 and not isz(i):
            return 0
        i = num(i)
        f = self.fptr
        n = num(self.nmajor)
        t = f(i)
        key = ('ptr', t.get_id(), len(self.ctx.facts))
        if key not in self.ctx.cache or self.ctx.cache[key][1] is not self.ctx.facts[-1]:
            self.ctx.cache[key] = (t, self.ctx.facts[-1])
            self.ctx.fact(z3.Implies(z3.And(0 <= i, i <= n), z3.And(0 <= t, t <= f(n))))
            self.ctx.fact(z3.Implies(z3.And(0 <= i, i < n), t <= f(S(i + 1))))
            self.ctx.fact(z3.Implies(z3.And(1 <= i, i <= n), f(S(i - 1)) <= t))
        return t

    def ind(self, p):
        p = num(p)
        t = self.find(p)
        key = ('ind', t.get_id(), len(self.ctx.facts))
        if key not in self.ctx.cache or self.ctx.cache[key][1] is not self.ctx.facts[-1]:
            self.ctx.cache[key] = (t, self.ctx.facts[-1])
            self.ctx.fact(z3.Implies(z3.And(0 <= p, p < self.fptr(num(self.nmajor))), z3.And(0 <= t, t < num(self.nminor))))
        return t

    def dat(self, p):
        return self.fdat(num(p))

    def e(self, major, minor):
        'entry by (major, minor); zero outside'
        r, c = (major, minor) if self.csr.kind == 'csr' else (minor, major)
        return self.csr.entry(r, c)


class RowRaw:
    'raw storage of row i of a csr matrix'
    nmajor = 1

    def __init__(self, raw, i, csr):
        self.p, self.raw, self.i, self.csr, self.nminor = raw.ptr(i), raw, i, csr, raw.nminor
        self.n = sub(raw.ptr(add(i, 1)), self.p)

    def ptr(self, i):
        return 0 if i == 0 and not isz(i) else self.n if i == 1 and not isz(i) else ite(eq(i, 0), lambda: 0, lambda: self.n)

    def ind(self, j):
        return self.raw.ind(add(self.p, j))

    def dat(self, j):
        return self.raw.dat(add(self.p, j))

    def e(self, major, minor):
        return self.csr.entry(major, minor)


def csr_row(I, m, i):
    'row i as a matrix of its own (iteration over a csr matrix)'
    raw_of(I, m)
    ROWS[m.sid] = m
    return Csr('csr', (1, m.shape[1]), lambda r, c: ite(eq(r, 0), lambda: m.entry(i, c), lambda: Fraction(0)), {'rowof': (m.sid, i)})


ROWS = {}


def raw_of(I, m):
    if m.raw is not None and 'raw' not in m.raw and 'rowof' in m.raw:
        sid_, i = m.raw['rowof']
        return RowRaw(raw_of(I, ROWS[sid_]), i, m)
    if m.raw is None:
        I.ctx.uid += 1
        nm = f'm!{I.ctx.uid}'
        m.raw = {'raw': Raw(I.ctx, m, nm)}
        note(I, 'scipy.sparse: .indptr/.indices/.data of a matrix represent its entries, without duplicates')
    return m.raw['raw']


def input_csr(ctx, name, shape, kind='csr'):
    'a symbolic matrix argument'
    E = z3.Function('E_' + name, z3.IntSort(), z3.IntSort(), z3.RealSort())
    m = Csr(kind, shape, None)
    m.entry = lambda r, c: inside(shape, r, c, lambda: E(num(r), num(c)))
    m.raw = {'raw': Raw(ctx, m, name)}
    return m


def inside(shape, r, c, val):
    g = And(le(0, r), lt(r, shape[0]), le(0, c), lt(c, shape[1]))
    return ite(g, val, lambda: Fraction(0))


def first_app(e, decls):
    'first application of one of the given function names in an expression'
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() in decls and x.num_args() == 1:
            return x
        st.extend(x.children())
    return None


# rows of a matrix written as parallel lists of indices and values -----------

def pair_items(I, inds, vals):
    'walk two item lists in parallel: [(one, (ind, val)) | (loop, k, lo, hi, body) | (if, c, body) | (mark, v)]'
    out = []
    inds, vals = list(inds), list(vals)
    i = j = 0
    while True:
        while i < len(inds) and inds[i][0] == 'mark':
            i += 1
        while j < len(vals) and vals[j][0] == 'mark':
            out.append(vals[j])
            j += 1
        if i >= len(inds) or j >= len(vals):
            break
        a, b = inds[i], vals[j]
        if a[0] == 'base' or b[0] == 'base':
            raise Unsupported('matrix from lists that a loop still extends')
        if a[0] == 'loop' and b[0] == 'one':
            a = unroll1(I, a)
            if a is None:
                i += 1
                continue
        if b[0] == 'loop' and a[0] == 'one':
            b = unroll1(I, b)
            if b is None:
                j += 1
                continue
        if a[0] != b[0]:
            raise Unsupported('index and value lists of different structure')
        if a[0] == 'one':
            out.append(('one', (a[1], b[1])))
        elif a[0] == 'loop':
            k = b[1]
            na, nb = sub(a[3], a[2]), sub(b[3], b[2])
            if not I.ctx.entails(eq(na, nb)):
                # an empty loop may be paired with nothing
                if I.ctx.entails(le(na, 0)):
                    i += 1
                    continue
                if I.ctx.entails(le(nb, 0)):
                    j += 1
                    continue
                raise Unsupported('index and value lists of different length')
            ia = subst_items(a[4], a[1], sub(add(k, a[2]), b[2]))
            out.append(('loop', k, b[2], b[3], tuple(I_guard(I, k, b[2], b[3], lambda: pair_items(I, ia, b[4])))))
        elif a[0] == 'if':
            if not I.ctx.entails(boolz(a[1]) == boolz(b[1])):
                raise Unsupported('index and value lists with different conditions')
            out.append(('if', a[1], tuple(pair_items(I, a[2], b[2]))))
        i += 1
        j += 1
    rest = [x for x in inds[i:] + vals[j:] if x[0] != 'mark']
    for x in rest:
        if x[0] == 'loop' and I.ctx.entails(le(x[3], x[2])):
            continue
        raise Unsupported('index and value lists of different length')
    return out


def unroll1(I, it):
    n = sub(it[3], it[2])
    if n == 1 and len(it[4]) == 1 and it[4][0][0] == 'one':
        return ('one', subst(it[4][0][1], it[1], it[2]))
    if I.ctx.entails(le(n, 0)):
        return None
    raise Unsupported('index and value lists of different structure')


def I_guard(I, k, lo, hi, f):
    ctx = I.ctx
    n = len(ctx.pcs[-1])
    ctx.pcs[-1] += [boolz(x) for x in (le(lo, k), lt(k, hi)) if x is not True]
    try:
        return f()
    finally:
        del ctx.pcs[-1][n:]


class Part:
    'contribution of one item of a row: value at column c, and where it may be nonzero'
    def __init__(self, val, foot):
        self.val, self.foot = val, foot


def row_parts(I, pairs, guard=True):
    'parts of a row; entries at different list positions must be at different columns'
    parts = []
    for it in pairs:
        if it[0] == 'mark':
            continue
        if it[0] == 'one':
            ind, val = it[1]
            parts.append(Part((lambda c, ind=ind, val=val: ite(eq(c, ind), lambda: val, lambda: Fraction(0))), (lambda c, ind=ind: eq(c, ind))))
        elif it[0] == 'if':
            sub_ = row_parts(I, it[2])
            for p in sub_:
                parts.append(Part((lambda c, p=p, g=it[1]: ite(g, lambda: p.val(c), lambda: Fraction(0))), (lambda c, p=p, g=it[1]: And(g, p.foot(c)))))
        elif it[0] == 'loop':
            parts += loop_part(I, it)
        else:
            raise Unsupported('row item ' + it[0])
    return parts


def all_apps(e, name):
    out, seen, todo = [], set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.num_args() and t.decl().name() == name:
                out.append(t)
            todo += t.children()
    return out


def loop_part(I, it):
    k, lo, hi, body = it[1:]
    body = [b for b in body if b[0] != 'mark']
    cond = True
    while len(body) == 1 and body[0][0] == 'if':
        cond = And(cond, body[0][1])
        body = [b for b in body[0][2] if b[0] != 'mark']
    if len(body) != 1 or body[0][0] != 'one':
        return nested_part(I, k, lo, hi, body)
    ind, val = body[0][1]
    sl = slope(ind, k)
    if sl is not None and sl[0] in (1, -1):
        s, a = sl
        kk = (lambda c: sub(c, a)) if s == 1 else (lambda c: sub(a, c))
        g = lambda c: py(And(le(lo, kk(c)), lt(kk(c), hi), subst(cond, k, kk(c))))
        return [Part((lambda c: ite(g(c), lambda: subst(val, k, kk(c)), lambda: Fraction(0))), g)]
    # indices given by a registered injective function of the loop index
    for f in sorted({n for n in INVERSES}):
        for app in all_apps(num(ind), f):
            arg = app.arg(app.num_args() - 1)
            sa = slope(arg, k)
            off = py(num(ind) - app)
            if sa is None or sa[0] != 1 or mentions(off, [k]) or any(mentions(app.arg(j), [k]) for j in range(app.num_args() - 1)):
                continue
            pre = [app.arg(j) for j in range(app.num_args() - 1)]
            fd, inv = app.decl(), INVERSES[f]
            kk = lambda c: sub(inv(*pre, num(sub(c, off))), sa[1])
            g = lambda c: py(And(eq(fd(*pre, inv(*pre, num(sub(c, off)))), sub(c, off)), le(lo, kk(c)), lt(kk(c), hi), subst(cond, k, kk(c))))
            return [Part((lambda c: ite(g(c), lambda: subst(val, k, kk(c)), lambda: Fraction(0))), g)]
    # indices copied from the raw storage of another matrix
    names = {n for n, r in I.prog.raws.items() if n.startswith('ind_')}
    app = first_app(num(ind), names)
    if app is None or cond is not True:
        raise Unsupported('column index of a row entry is not affine in the loop index')
    raw = I.prog.raws[app.decl().name()]
    p = app.arg(0)
    off = py(num(ind) - app)
    if mentions(off, [k]) or slope(p, k) is None or slope(p, k)[0] != 1:
        raise Unsupported('column index of a row entry')
    p_lo, p_hi = py(z3.substitute(p, (k, num(lo)))), py(z3.substitute(p, (k, num(hi))))
    row = None
    if isz(p_lo):
        a = first_app(p_lo, {raw.fptr.name()})
        if a is not None and I.ctx.entails(eq(p_lo, a)):
            row = py(a.arg(0))
    elif p_lo == 0:
        row = 0
    if row is None or not I.ctx.check(z3.Not(boolz(eq(p_hi, raw.ptr(add(row, 1))))), quant=False) == z3.unsat:
        raise Unsupported('row entries copied from part of a matrix row')
    ph = z3.Real('ph_entry')
    vv = real(val)
    for a in all_apps(vv, raw.fdat.name()):
        if a.arg(0).eq(p) or I.ctx.entails(a.arg(0) == p):
            vv = z3.substitute(vv, (a, ph))
    phi = z3.Int('ph_ind')
    vv = z3.substitute(vv, (app, phi))
    if mentions(vv, [k]) or first_app(vv, {raw.fdat.name(), raw.find.name()}) is not None:
        raise Unsupported('row value from another position')
    if not I.ctx.entails(z3.substitute(vv, (ph, z3.RealVal(0))) == 0):
        raise Unsupported('row value that is not zero for absent entries')
    val_at = lambda c: py(z3.substitute(vv, (phi, num(sub(c, off))), (ph, real(raw.e(row, sub(c, off))))))
    foot = lambda c: And(le(0, sub(c, off)), lt(sub(c, off), raw.nminor))
    return [Part((lambda c: ite(foot(c), lambda: val_at(c), lambda: Fraction(0))), foot)]


def nested_part(I, k, lo, hi, body):
    '''entries of two nested loops at columns  a + (k - lo)*m + (i - lo2),  i in [lo2, lo2 + m)

    The pair (k, i) is determined by the column (uniqueness of division with remainder).
    '''
    if len(body) != 1 or body[0][0] != 'loop':
        raise Unsupported('row entries in nested loops')
    i, lo2, hi2, inner = body[0][1:]
    inner = [b for b in inner if b[0] != 'mark']
    if len(inner) != 1 or inner[0][0] != 'one' or mentions(lo2, [k]) or mentions(hi2, [k]):
        raise Unsupported('row entries in nested loops')
    ind, val = inner[0][1]
    m = py(z3.simplify(num(sub(hi2, lo2))))
    if not isz(ind):
        raise Unsupported('row entries in nested loops')
    a = py(z3.simplify(num(sub(sub(z3.substitute(ind, (k, num(lo)), (i, num(lo2))), 0), 0))))
    want = add(add(a, mul(sub(k, lo), m)), sub(i, lo2))
    if mentions(a, [k, i]) or not z3.is_true(z3.simplify(num(ind) == num(want), som=True)) and not I.ctx.entails(eq(ind, want)):
        raise Unsupported('row entries in nested loops')
    n = sub(hi, lo)
    d = lambda c: sub(c, a)
    foot = lambda c: And(le(0, d(c)), lt(d(c), mul(n, m)), lt(0, m))

    def v(c):
        q, r = py(num(d(c)) / num(m)), py(num(d(c)) % num(m))
        return subst(subst(val, k, add(lo, q)), i, add(lo2, r))
    return [Part((lambda c: ite(foot(c), lambda: v(c), lambda: Fraction(0))), foot)]


def row_value(I, parts, c):
    v = Fraction(0)
    for p in parts:
        x = p.val(c)
        v = x if v == 0 and not isz(v) else add(v, x) if not (not isz(x) and x == 0) else v
    return v


def row_checks(I, parts, ncols, name, extra=()):
    'indices in range and pairwise different'
    ctx = I.ctx
    c = z3.FreshInt('col')
    n = len(ctx.pcs[-1])
    ctx.pcs[-1] += [boolz(e) for e in extra]
    try:
        for i, p in enumerate(parts):
            f = p.foot(c)
            ctx.oblige(f'{name}: indices in range', Implies(f, And(le(0, c), lt(c, ncols))))
            for q in parts[i + 1:]:
                ctx.oblige(f'{name}: row entries at different columns', Not(And(f, q.foot(c))))
    finally:
        del ctx.pcs[-1][n:]


def matrix_from_lists(I, kind, data, inds, ptr, shape):
    'csr_matrix((data, inds, indptr), shape)'
    ctx = I.ctx
    where = I.where()
    dv, iv, pv = data, inds, ptr
    for x in (dv, iv, pv):
        if isinstance(x, NArr):
            return matrix_from_arrays(I, kind, data, inds, ptr, shape)
        if not isinstance(x, PList):
            raise Unsupported('matrix from ' + type(x).__name__)
    pairs = pair_items(I, items_of(iv), items_of(dv))
    pt = [x for x in items_of(pv) if x[0] != 'mark']
    if not pt or pt[0][0] != 'one' or pt[0][1] != 0:
        raise Unsupported('row pointers do not start with 0')
    nmaj = None if shape is None else shape[0 if kind == 'csr' else 1]
    nmin = None if shape is None else shape[1 if kind == 'csr' else 0]
    if shape is None:
        raise Unsupported('matrix without shape')
    segs = []      # (base row, rows per iteration, k or None, lo, hi, [parts])
    base, prev = 0, 0      # number of rows so far, last row pointer (= number of entries so far)
    for it in pt[1:]:
        if it[0] == 'one':
            row, pairs = take(I, pairs, it[1])
            if row is None:
                segs_c, pairs = take_copy1(I, pairs, it[1], base)
                raise Unsupported('row pointer does not match the entries')
            parts = row_parts(I, row)
            row_checks(I, parts, nmin, f'{where}: matrix')
            segs.append((base, 1, None, None, None, [parts]))
            base, prev = add(base, 1), it[1]
        elif it[0] == 'loop':
            k, lo, hi, body = it[1:]
            body = [x for x in body if x[0] != 'mark']
            if any(x[0] != 'one' for x in body):
                raise Unsupported('row pointers in nested loops')
            if ctx.entails(le(hi, lo)):
                while pairs and pairs[0][0] == 'loop' and ctx.entails(le(pairs[0][3], pairs[0][2])):
                    pairs = pairs[1:]
                continue
            pairs = [x for x in pairs if not (x[0] == 'loop' and ctx.entails(le(x[3], x[2])))]
            while pairs and pairs[0][0] == 'mark':
                pairs = pairs[1:]
            before = prev
            prev = ite(lt(lo, hi), lambda: subst(body[-1][1], k, sub(hi, 1)), lambda: before)
            cp = copy_rows(I, it, pairs, before)
            if cp is not None:
                raw, off, pairs = cp
                n = sub(hi, lo)
                segs.append((base, 'copy', raw, lo, hi, off))
                base = add(base, n)
                continue
            if not pairs or pairs[0][0] != 'loop':
                raise Unsupported('row pointers and entries have different structure')
            l = pairs[0]
            if not (ctx.entails(eq(l[2], lo)) and ctx.entails(eq(l[3], hi))):
                raise Unsupported('row pointers and entries have different loops')
            pairs = pairs[1:]
            inner = list(subst_items2(l[4], l[1], k))
            rows = []
            g = [x for x in (py(le(lo, k)), py(lt(k, hi))) if x is not True]

            def sub_rows():
                nonlocal inner
                for b in body:
                    row, inner = take(I, inner, b[1])
                    if row is None:
                        raise Unsupported('row pointer does not match the entries')
                    parts = row_parts(I, row)
                    row_checks(I, parts, nmin, f'{where}: matrix')
                    rows.append(parts)
            I_guard(I, k, lo, hi, sub_rows)
            if any(x[0] != 'mark' for x in inner):
                raise Unsupported('entries after the last row pointer')
            segs.append((base, len(rows), k, lo, hi, rows))
            d = sub(hi, lo)
            base = add(base, mul(len(rows), d))
        else:
            raise Unsupported('row pointers under a condition')
    if any(x[0] != 'mark' for x in pairs if not (x[0] == 'loop' and ctx.entails(le(x[3], x[2])))):
        raise Unsupported('entries after the last row pointer')
    if nmaj is not None:
        ctx.oblige(f'{where}: matrix: number of rows', eq(base, nmaj))

    def entry(r, c):
        if kind != 'csr':
            r, c = c, r
        v = lambda: Fraction(0)
        for s in reversed(segs):
            v = seg_entry(I, s, r, c, v)
        return v()
    return Csr(kind, shape, entry)


def seg_entry(I, s, r, c, rest):
    base, per, k, lo, hi, rows = s
    if per == 'copy':
        raw, off = k, rows
        rr = sub(r, base)
        return lambda: ite(And(le(0, rr), lt(rr, sub(hi, lo))), lambda: raw.e(add(rr, lo), sub(c, off)), rest)
    if k is None:
        return lambda: ite(eq(r, base), lambda: row_value(I, rows[0], c), rest)
    rr = sub(r, base)
    n = sub(hi, lo)

    def here():
        if per == 1:
            return subst(row_value(I, rows[0], c), k, add(lo, rr))
        q = py(num(rr) / z3.IntVal(per)) if isz(rr) else rr // per
        m = py(num(rr) % z3.IntVal(per)) if isz(rr) else rr % per
        v = subst(row_value(I, rows[-1], c), k, add(lo, q))
        for j in range(per - 2, -1, -1):
            x = subst(row_value(I, rows[j], c), k, add(lo, q))
            v = ite(eq(m, j), lambda: x, lambda: v)
        return v
    return lambda: ite(And(le(0, rr), lt(rr, mul(per, n))), here, rest)


def subst_items2(items, k, t):
    'subst_items for paired items'
    return subst_items(items, k, t)


def take(I, pairs, v):
    'the entries up to the mark with value v, and the rest'
    for i, x in enumerate(pairs):
        if x[0] == 'mark' and (x[1] is v or (isz(x[1]) and isz(v) and x[1].eq(v)) or eq(x[1], v) is True):
            return pairs[:i], pairs[i:]
    if isinstance(v, int) and len(pairs) >= 0:
        n = 0
        for i, x in enumerate(pairs + [('end',)]):
            if n == v and all(y[0] in ('one', 'mark') for y in pairs[:i]):
                return None, pairs
    for i, x in enumerate(pairs):
        if x[0] == 'mark' and I.ctx.entails(eq(x[1], v)):
            return pairs[:i], pairs[i:]
    return None, pairs


def take_copy1(I, pairs, v, base):
    raise Unsupported('row pointer does not match the entries')


def copy_rows(I, it, pairs, before):
    '''row pointers  [o + ptr_X(i) for i]  with entries  [off + ind_X(p), dat_X(p)]: all rows of X'''
    ctx = I.ctx
    k, lo, hi, body = it[1:]
    body = [x for x in body if x[0] != 'mark']
    if len(body) != 1 or not pairs or pairs[0][0] != 'loop':
        return None
    v = body[0][1]
    names = {n for n in I.prog.raws if n.startswith('ptr_')}
    app = first_app(num(v), names)
    if app is None:
        return None
    raw = I.prog.raws[app.decl().name()]
    o = py(num(v) - app)
    row1 = app.arg(0)
    if mentions(o, [k]) or not ctx.entails(eq(row1, add(sub(k, lo), 1))):
        return None
    l = pairs[0]
    lb = [x for x in l[4] if x[0] != 'mark']
    if len(lb) != 1 or lb[0][0] != 'one':
        return None
    ind, val = lb[0][1]
    p = l[1]
    ia = first_app(num(ind), {raw.find.name()})
    if ia is None:
        return None
    off = py(num(ind) - ia)
    pos = ia.arg(0)
    if mentions(off, [p]) or not isz(val) or not z3.simplify(val).eq(z3.simplify(raw.fdat(pos))):
        return None
    p0, p1 = py(z3.substitute(pos, (p, num(l[2])))), py(z3.substitute(pos, (p, num(l[3]))))
    if slope(pos, p) is None or slope(pos, p)[0] != 1:
        return None
    n = raw.nmajor
    if not (ctx.entails(eq(p0, 0)) and ctx.entails(eq(p1, raw.ptr(n))) and ctx.entails(eq(sub(hi, lo), n))):
        raise Unsupported('rows copied from part of a matrix')
    # the offset of the row pointers must be the number of entries before this block
    ctx.oblige(f'{I.where()}: row pointer offset', eq(o, before))
    return raw, off, pairs[1:]


def prune(I, e, hyps):
    'decide the conditions inside an expression that the hypotheses settle'
    if not isz(e):
        return e
    ctx = I.ctx
    n = len(ctx.pcs[-1])
    ctx.pcs[-1] += [boolz(h) for h in hyps if h is not True]
    try:
        def go(t):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                c = t.arg(0)
                if ctx.entails(c):
                    return go(t.arg(1))
                if ctx.entails(z3.Not(c)):
                    return go(t.arg(2))
                return t
            if z3.is_app(t) and t.num_args():
                ch = [go(x) for x in t.children()]
                if any(not a.eq(b) for a, b in zip(ch, t.children())):
                    return t.decl()(*ch) if t.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) else nary(t, ch)
            return t
        return py(go(num(e)))
    finally:
        del ctx.pcs[-1][n:]


def nary(t, ch):
    k = t.decl().kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    r = ch[0]
    for x in ch[1:]:
        r = r + x if k == z3.Z3_OP_ADD else r * x
    return r


def matrix_from_arrays(I, kind, data, inds, ptr, shape):
    'matrix given by arrays, with a fixed number of rows'
    ctx = I.ctx
    np_, pf = seqview(I, ptr)
    if shape is None:
        raise Unsupported('matrix without shape')
    nmaj, nmin = (shape[0], shape[1]) if kind == 'csr' else (shape[1], shape[0])
    nd, df = seqview(I, data)
    ni, jf = seqview(I, inds)
    where = I.where()
    if not isinstance(np_, int):
        return seg_matrix(I, kind, (nd, df), (ni, jf), (np_, pf), shape)
    ctx.oblige(f'{where}: matrix: number of rows', eq(np_, add(nmaj, 1)))
    ctx.oblige(f'{where}: matrix: row pointers start with 0', eq(pf(0), 0))
    rows = []
    for r in range(np_ - 1):
        a, b = pf(r), pf(r + 1)
        ctx.oblige(f'{where}: matrix: row pointers in order', And(le(a, b), le(b, nd), le(b, ni)))
        k = z3.FreshInt('mk')
        hy = [le(a, k), lt(k, b)]
        pair = (prune(I, jf(k), hy), prune(I, rl(df(k)), hy))
        parts = row_parts(I, [('loop', k, a, b, (('one', pair),))])
        row_checks(I, parts, nmin, f'{where}: matrix')
        rows.append(parts)

    def entry(r, c):
        if kind != 'csr':
            r, c = c, r
        v = lambda: Fraction(0)
        for q in range(len(rows) - 1, -1, -1):
            v = (lambda q=q, v=v: ite(eq(r, q), lambda: row_value(I, rows[q], c), v))
        return v()
    return Csr(kind, shape, entry)


def ite_conds(e):
    out, seen, st = [], set(), [e] if isz(e) else []
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE:
                out.append(x.arg(0))
            st.extend(x.children())
    return out


def seg_matrix(I, kind, data, inds, ptr, shape):
    '''csr_matrix((data, inds, indptr)) of arrays with a variable number of rows: row m holds the entries [ptr(m), ptr(m+1)),
    by cases on the conditions that define the row pointers (which block of a concatenation m falls in)'''
    ctx = I.ctx
    (nd, df), (ni, jf), (np_, pf) = data, inds, ptr
    nmaj, nmin = (shape[0], shape[1]) if kind == 'csr' else (shape[1], shape[0])
    where = I.where()
    ctx.oblige(f'{where}: matrix: number of row pointers', eq(np_, add(nmaj, 1)))
    ctx.oblige(f'{where}: matrix: row pointers start with 0', eq(pf(0), 0))
    ctx.oblige(f'{where}: matrix: one index per value', eq(nd, ni))
    m = z3.FreshInt('maj')
    cases = []
    n = len(ctx.pcs[-1])

    def split(a, b, conds):
        for c in ite_conds(a) + ite_conds(b):
            if mentions(c, [m]) and not ctx.entails(c) and not ctx.entails(z3.Not(c)):
                for q in (c, z3.Not(c)):
                    ctx.pcs[-1].append(q)
                    split(prune(I, a, []), prune(I, b, []), conds + [q])
                    ctx.pcs[-1].pop()
                return
        if len(cases) > 6:
            raise Unsupported('too many cases in a matrix from arrays')
        ctx.oblige(f'{where}: matrix: row pointers in order', And(le(a, b), le(b, nd)))
        if ctx.check(z3.BoolVal(True)) == z3.unsat:
            return
        k = z3.FreshInt('mk')
        a, b = prune(I, a, []), prune(I, b, [])
        # the row [a, b) of a copied block starts where its own storage says: k = base + k'
        hy = [le(a, k), lt(k, b)]
        ind, dat = prune(I, jf(k), hy), prune(I, rl(df(k)), hy)
        parts = row_parts(I, [('loop', k, a, b, (('one', (ind, dat)),))])
        row_checks(I, parts, nmin, f'{where}: matrix')
        cases.append((z3.And(*conds) if conds else z3.BoolVal(True), parts))
    try:
        ctx.pcs[-1] += [boolz(le(0, m)), boolz(lt(m, nmaj))]
        a, b = prune(I, pf(m), []), prune(I, pf(add(m, 1)), [])
        split(a, b, [])
    finally:
        del ctx.pcs[-1][n:]

    def entry(r, c):
        if kind != 'csr':
            r, c = c, r
        v = lambda: Fraction(0)
        for g, parts in cases:
            v = (lambda g=g, parts=parts, v=v: ite(subst(g, m, r), lambda: subst(row_value(I, parts, c), m, r), v))
        return inside((nmaj, nmin), r, c, v)
    return Csr(kind, shape, entry)


def dense_matrix(I, v):
    'a dense 2-d value as (rows, cols, fn)'
    a = to_array(I, v)
    if len(a.f['shape']) != 2:
        raise Unsupported('matrix from an array that is not 2-d')
    sh, fn = a.f['shape'], a.f['fn']
    return Csr('csr', sh, lambda r, c: inside(sh, r, c, lambda: rl(fn(r, c))))


def rl(x):
    if isinstance(x, Inf):
        return x
    return Fraction(x) if not isz(x) else py(real(x))


def to_array(I, v, dtype='float'):
    'np.array(v)'
    if isinstance(v, NArr):
        fn = v.f['fn']
        return NArr(v.f['shape'], (lambda *i: rl(fn(*i))) if dtype == 'float' and v.f['dtype'] != 'float' else fn, dtype)
    if isinstance(v, Csr):
        raise Unsupported('np.array of a sparse matrix')
    n, fn = seqview(I, v)
    if isinstance(n, int) and n == 0:
        return NArr((0,), lambda i: Fraction(0), dtype)
    k = 0 if isinstance(n, int) else z3.Int('probe')
    s = fn(k)
    if isinstance(s, (PList, NArr, tuple)):
        if isinstance(s, NArr):
            inner = s.f['shape']
            g = lambda i, *j: fn(i).f['fn'](*j)
        else:
            m, _ = seqview(I, s)
            inner = (m,)

            def g(i, j):
                return seqview(I, fn(i))[1](j)
            # all rows must be equally long
            kk = z3.FreshInt('rowk')
            m2, _ = seqview(I, fn(kk if not isinstance(n, int) else 0))
            if isinstance(n, int):
                for q in range(n):
                    I.ctx.oblige(f'{I.where()}: rows of equal length', eq(seqview(I, fn(q))[0], m))
            elif isz(m) and mentions(m, [k]):
                m0, _ = seqview(I, fn(0))
                c = z3.And(0 <= kk, kk < num(n), boolz(Not(eq(m2, m0))))
                if I.ctx.check(c) != z3.unsat and I.ctx.check(c, quant=True) != z3.unsat:
                    raise Unsupported('ragged array')
                inner = (m0,)
        return NArr((n,) + inner, (lambda *i: rl(g(*i))) if dtype == 'float' else g, dtype)
    if isinstance(s, Undefined):
        raise Unsupported('array of undefined elements')
    return NArr((n,), (lambda i: rl(fn(i))) if dtype == 'float' else fn, dtype)


# ------------------------------------------------------------------ GLPK ghost state

def new_lp(ctx):
    z = lambda *a: Fraction(0)
    return LP(nrows=0, ncols=0, A=z, rtype=lambda r: FR, rlb=z, rub=z, ctype=lambda c: FR, obj=z, state=None)


def lp_touch(I, lp):
    'the solver state is out of date'
    I.ctx.put(lp, 'state', None)


def upd(I, lp, field, u):
    I.ctx.put(lp, field, u)


class Models:
    def __init__(self):
        self.calls = {}

    # ---------------------------------------------------------------- builtins
    def builtin(self, n):
        f = getattr(self, 'b_' + n, None)
        if f is not None:
            return Builtin(n, f)
        if n in ('RuntimeError', 'TypeError', 'AttributeError', 'ValueError', 'AssertionError', 'KeyError', 'IndexError', 'NotImplementedError', 'Exception', 'MemoryError'):
            return Builtin(n, lambda I, a, k: ('exc', n))
        if n in ('dict', 'object', 'set', 'bool', 'type', 'super'):
            return Builtin(n, lambda I, a, k: (_ for _ in ()).throw(Unsupported(n + '()')))
        return None

    def b_len(self, I, a, k):
        return self.length(I, a[0])

    def length(self, I, v):
        if isinstance(v, MapLog):
            raise Unsupported('number of entries of a dictionary')
        if isinstance(v, WList):
            v = v.now(I)
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, Struct) and hasattr(v, 'length'):
            return v.length(I)
        if isinstance(v, Ref) and '__iter__' in I.prog.schema.get(v.cls, {}):
            return I.prog.schema[v.cls]['__iter__'](I, v)[0]
        if isinstance(v, PList):
            if '#n' in v.f:
                if isz(v.f['#n']):
                    I.ctx.fact(le(0, v.f['#n']))
                return v.f['#n']
            x = v.f['v']
            if x[0] == 'arr':
                return x[1]
            items = x[1]
            n = None if any(i[0] == 'base' for i in items) else count([i for i in items if i[0] != 'mark'])
            if n is None and conditional(items):
                return I.ctx.list_len(items)
            if n is None and I.world is not None:
                raise NeedLength(v)
            if n is None:
                n = I.ctx.fresh('len')
                I.ctx.fact(n >= 0)
            if not v.frozen:
                I.ctx.put(v, 'v', ('items', items + (('mark', n),)))
            return n
        if isinstance(v, NArr):
            return v.f['shape'][0]
        if isinstance(v, (SeqView, EnumV, ZipV, RangeV)):
            return seqview(I, v)[0]
        if isinstance(v, Swig):
            return count(v.items)
        if isinstance(v, PDict):
            return v.f['n']
        raise Unsupported('len of ' + type(v).__name__)

    def last(self, I, l):
        'the last element of a list before a loop that extends it (an arbitrary number for an empty list: every read asks for an element)'
        x = l.f['v']
        items = [i for i in items_of(l) if i[0] != 'mark']
        if not items:
            return z3.Real('NOLAST')
        if items[-1][0] == 'one':
            return items[-1][1]
        raise Unsupported('last element of a list')

    def new_last(self, I, old, items):
        'the last element after an extension'
        v = old
        for it in items:
            if it[0] == 'one':
                v = it[1]
            elif it[0] == 'loop' and it[4] and [q for q in it[4] if q[0] != 'mark'][-1][0] == 'one':
                e = subst([q for q in it[4] if q[0] != 'mark'][-1][1], it[1], sub(it[3], 1))
                v = e if I.ctx.entails(lt(it[2], it[3])) else ite_v(lt(it[2], it[3]), e, v)
            elif it[0] != 'mark':
                raise Unsupported('last element of a list')
        return v

    def b_range(self, I, a, k):
        if len(a) == 1:
            return RangeV(0, a[0])
        return RangeV(a[0], a[1], a[2] if len(a) > 2 else 1)

    def b_enumerate(self, I, a, k):
        return EnumV(a[0])

    def b_zip(self, I, a, k):
        return ZipV(a)

    def b_isinstance(self, I, a, k):
        v, t = a
        if isinstance(t, tuple):
            return any(self.b_isinstance(I, [v, x], {}) for x in t)
        nm = t.name
        if nm in ('scipy.sparse.csr_matrix', 'scipy.sparse.csc_matrix'):
            return isinstance(v, Csr) and v.kind == nm.split('.')[-1][:3]
        if nm == 'numpy.ndarray':
            return isinstance(v, NArr) or isinstance(v, Ref) and I.prog.schema.get(v.cls, {}).get('__class__') == 'ndarray'
        if isinstance(v, Ref) and nm in (I.prog.schema.get(v.cls, {}).get('__kinds__') or {}):
            return eq(z3.Function(f'{v.cls}.kind', z3.IntSort(), z3.IntSort())(num(v.oid)), I.prog.schema[v.cls]['__kinds__'][nm])
        if nm == 'list':
            return isinstance(v, PList)
        if nm == 'tuple':
            return isinstance(v, tuple)
        if nm == 'str':
            return isinstance(v, (str, SStr))
        if nm == 'int':
            return isnum(v) and z3.is_int(num(v)) or isinstance(v, bool)
        if nm == 'float':
            return isnum(v) and not z3.is_int(num(v))
        if nm == 'dict':
            return isinstance(v, PDict)
        if isinstance(t, (ClassRef, NTClass)) or isinstance(v, Ref):
            if isinstance(v, Ref):
                kinds = I.prog.schema.get(v.cls, {}).get('__kinds__')
                nm = nm.split('.')[-1]
                ofk = lambda c: eq(z3.Function(f'{v.cls}.kind', z3.IntSort(), z3.IntSort())(num(v.oid)), c)
                ok = I.prog.schema.get(v.cls, {}).get('__class__', v.cls) == nm if kinds is None else False if nm not in kinds else \
                    Or(*[ofk(c) for c in kinds[nm]]) if isinstance(kinds[nm], tuple) else ofk(kinds[nm])
                return And(ok, Not(eq(v.oid, -1))) if v.opt else ok
            return isinstance(v, Obj) and v.cls == nm
        raise Unsupported('isinstance of ' + nm)

    def b_abs(self, I, a, k):
        v = a[0]
        if isinstance(v, NArr):
            return self.amap(v, lambda x: self.b_abs(I, [x], {}))
        if not isz(v):
            return abs(v)
        v = num(v)
        return py(z3.If(v >= 0, v, -v))

    def fold(self, I, a, tag):
        if len(a) == 1:
            n, fn = seqview(I, a[0])
            if not isinstance(n, int):
                return self.fold_all(I, n, fn, tag)
            a = [fn(i) for i in range(n)]
        r = a[0]
        for x in a[1:]:
            if isinstance(r, Inf) or isinstance(x, Inf):
                lose = -1 if tag == 'PYMAX' else 1
                if isinstance(r, Inf) and r.sign == lose:
                    r = x
                    continue
                if isinstance(x, Inf) and x.sign == lose:
                    continue
                raise Unsupported('infinity in max/min')
            if not isz(r) and not isz(x):
                r = max(r, x) if tag == 'PYMAX' else min(r, x)
                continue
            p, q = same_sort(r, x)
            if I.ctx.frames and z3.is_const(p) and '~' in p.decl().name():
                f = z3.Function(tag, p.sort(), q.sort(), p.sort())
                r = f(p, q)
            else:
                r = py(z3.If(p >= q, p, q) if tag == 'PYMAX' else z3.If(p <= q, p, q))
        return r

    def fold_all(self, I, n, fn, tag):
        'the largest / smallest of all elements: the same term as a loop that keeps it'
        ctx = I.ctx
        k, j, w = ctx.fresh('k'), z3.FreshInt('j'), ctx.fresh('w')
        t = fn(k)
        if not isnum(t):
            raise Unsupported(tag + ' of a sequence')
        if not ctx.entails(lt(0, n)):
            raise Unsupported(tag + ' of a sequence that may be empty')
        t = num(t)
        fold = ctx.binder('FOLD' + tag, k, 0, n, t)
        tb = lambda i: z3.substitute(t, (k, i))
        up = (lambda a, b: a >= b) if tag == 'PYMAX' else (lambda a, b: a <= b)
        ctx.fact(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < num(n)), up(fold, tb(j)))))
        ctx.fact(z3.Implies(0 < num(n), z3.And(0 <= w, w < num(n), fold == tb(w))))
        return fold

    def b_max(self, I, a, k):
        return self.fold(I, a, 'PYMAX')

    def b_min(self, I, a, k):
        return self.fold(I, a, 'PYMIN')

    def b_int(self, I, a, k):
        v = a[0]
        if isinstance(v, bool):
            return int(v)
        if isnum(v) and z3.is_int(num(v)):
            return v
        if isinstance(v, Fraction):
            return int(v)
        raise Unsupported('int() of a real')

    def b_float(self, I, a, k):
        v = a[0]
        if isinstance(v, str) and v in ('inf', '-inf'):
            if I.prog.schema.get('__inf__'):
                return z3.Real('INF') if v == 'inf' else -z3.Real('INF')      # only compared: what holds for every value of it holds for one above all others
            return Inf(-1 if v[0] == '-' else 1)
        if isinstance(v, Inf):
            return v
        if isnum(v):
            return rl(v)
        if isinstance(v, Ref) and '()float' in I.prog.schema.get(v.cls, {}):
            self.not_none(I, v, 'number')
            return z3.Function(v.cls + '.float', z3.IntSort(), z3.RealSort())(num(v.oid))
        raise Unsupported('float()')

    def b_sum(self, I, a, k):
        n, fn = seqview(I, a[0])
        kk = z3.FreshInt('s')
        if isinstance(n, int):
            r = 0
            for i in range(n):
                r = add(r, fn(i))
            return r
        return I.ctx.sum(kk, 0, n, fn(kk))

    def b_str(self, I, a, k):
        return SStr((a[0],)) if isnum(a[0]) or isinstance(a[0], (str, SStr)) else SStr(('?',))

    def b_round(self, I, a, k):
        if len(a) == 1 and not k:
            x = num(rl(a[0]))
            r = z3.Function('ROUNDINT', z3.RealSort(), z3.IntSort())(x)
            I.ctx.fact(z3.And(z3.ToReal(r) - x <= z3.RealVal('1/2'), x - z3.ToReal(r) <= z3.RealVal('1/2')))
            return r
        note(I, 'round() is an uninterpreted function')
        return z3.Function('ROUND', z3.RealSort(), z3.IntSort(), z3.RealSort())(num(rl(a[0])), num(a[1] if len(a) > 1 else 0))

    def b_print(self, I, a, k):
        return None

    def b_reversed(self, I, a, k):
        n, fn = seqview(I, a[0])
        return SeqView(n, lambda i: fn(sub(sub(n, 1), i)))

    def b_sorted(self, I, a, k):
        'a list that depends on the given one and on the key function alone'
        n, fn = seqview(I, a[0])
        if set(k) - {'key'} or I.world is None:
            raise Unsupported('sorted')
        x = fn(z3.Int('probe'))
        if not isinstance(x, Ref):
            raise Unsupported('sorted')
        o = z3.FreshInt('o')
        key = token(I, I.call(k['key'], [Ref(x.cls, o)], {}) if 'key' in k else Ref(x.cls, o))
        c, consts = canonical([key], [o])
        t = token(I, a[0])
        f = z3.Function(f'FN_sorted {I.prog.intern("key " + str(c))}', z3.IntSort(), *[q.sort() for q in consts], z3.IntSort(), z3.IntSort())
        q = z3.FreshInt('q')
        I.ctx.fact(z3.ForAll([q], f(t, *consts, q) != -1))
        r = PList(arr=(n, lambda i: Ref(x.cls, f(t, *consts, num(i)))))
        r.local = True
        return r

    def b_list(self, I, a, k):
        if not a:
            return PList()
        return self.aslist(I, a[0])

    def aslist(self, I, v):
        if isinstance(v, PList):
            x = v.f['v']
            return PList(items=x[1]) if x[0] == 'items' else PList(arr=x[1:])
        if isinstance(v, tuple):
            return PList(items=[('one', x) for x in v])
        n, fn = seqview(I, v)
        return PList(arr=(n, fn))

    def b_tuple(self, I, a, k):
        if isinstance(a[0], tuple):
            return a[0]
        n, fn = seqview(I, a[0])
        if isinstance(n, int):
            return tuple(fn(i) for i in range(n))
        raise Unsupported('tuple of a symbolic sequence')

    def b_any(self, I, a, k):
        return self.quant(I, a[0], False)

    def b_all(self, I, a, k):
        return self.quant(I, a[0], True)

    def quant(self, I, v, isall):
        n, fn = seqview(I, v)
        if isinstance(n, int):
            xs = [truth(I.ctx, fn(i)) for i in range(n)]
            return py(And(*xs) if isall else Or(*xs))
        k = z3.FreshInt('q')
        b = boolz(truth(I.ctx, fn(k)))
        if I.ctx.frames:
            n = no_max0(n)
            F = I.ctx.first(k, 0, n, z3.Not(b) if isall else b)
            return le(n, F) if isall else lt(F, n)
        g = z3.And(0 <= k, k < num(n))
        return z3.ForAll([k], z3.Implies(g, b)) if isall else z3.Exists([k], z3.And(g, b))

    def b_hasattr(self, I, a, k):
        if isinstance(a[0], Obj) and isinstance(a[1], str):
            return a[1] in a[0].f
        raise Unsupported('hasattr')

    # ---------------------------------------------------------------- attributes
    def getattr(self, I, o, n):
        if isinstance(o, Builtin) and n == '__name__':
            return o.name
        if isinstance(o, ModRef):
            full = o.name + '.' + n
            if o.name == 'swiglpk' and n in GLP:
                return GLP[n]
            if full in ('numpy.inf', 'math.inf'):
                return z3.Real('INF') if I.prog.schema.get('__inf__') else Inf(1)
            if full.startswith('hylaa.'):
                m = I.prog.module(o.name[6:])
                return I.name(n, Env(m, None))
            return ModRef(full)
        if isinstance(o, ClassRef):
            if o.name == 'Timers' and n == 'top_level_timer':
                return Opaque('timer')
            if o.name == 'Timers':
                return Builtin('Timers.' + n, lambda I, a, k: None)
            if n.startswith('print_'):
                return Builtin(n, lambda I, a, k: None)
            m = I.prog.method(o, n)
            if m is not None:
                return m
            v = self.class_const(I, o, n)
            if v is not Missing:
                return v
            raise Unsupported(f'attribute {o.name}.{n}')
        if isinstance(o, Obj):
            if n in o.f:
                v = o.f[n]
                if isinstance(v, Poison):
                    raise Unsupported('read of loop-modified state: ' + n)
                return v
            c = I.prog.classref(o.cls)
            if c is not None:
                m = I.prog.method(c, n)
                if m is not None:
                    if any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in m.node.decorator_list):
                        return m
                    return Bound(o, m)
                v = self.class_const(I, c, n)
                if v is not Missing:
                    return v
            if n == 'freeze_attrs':
                return Builtin(n, lambda I, a, k: None)
            if n in o.f.get('_opaque', ()):
                return Opaque(o.cls + '.' + n)
            raise Unsupported(f'attribute {o.cls}.{n}')
        if isinstance(o, Csr):
            if n == 'shape':
                return o.shape
            if n == 'dtype':
                return DType('float')
            if n in ('indptr', 'indices', 'data'):
                r = raw_of(I, o)
                if n == 'indptr':
                    return NArr((add(r.nmajor, 1),), r.ptr, 'int')
                nnz = r.ptr(r.nmajor)
                return NArr((nnz,), r.ind if n == 'indices' else r.dat, 'int' if n == 'indices' else 'float')
            if n == 'T':
                k2 = 'csc' if o.kind == 'csr' else 'csr'
                return Csr(k2, (o.shape[1], o.shape[0]), lambda r, c: o.entry(c, r))
            return Method(o, n)
        if isinstance(o, NArr):
            if n == 'shape':
                return o.f['shape']
            if n == 'dtype':
                return DType(o.f['dtype'])
            if n == 'T':
                sh, fn = o.f['shape'], o.f['fn']
                if len(sh) == 2:
                    return NArr((sh[1], sh[0]), lambda i, j: fn(j, i), o.f['dtype'])
                return o
            if n == 'size' and len(o.f['shape']) == 1:
                return o.f['shape'][0]
            return Method(o, n)
        if isinstance(o, (PList, PDict, str, SStr, Opaque)):
            return Method(o, n)
        if isinstance(o, Ref):
            return self.ref_attr(I, o, n)
        if isinstance(o, WList):
            return Method(o, n)
        if isinstance(o, Struct):
            return o.get(n)
        raise Unsupported(f'attribute {n} of {type(o).__name__}')

    # ---------------------------------------------------------------- objects known by identity
    def not_none(self, I, o, what):
        if o.opt and not I.ctx.entails(Not(eq(o.oid, -1))):
            I.ctx.oblige(f'{I.where()}: not None: {what}', Not(eq(o.oid, -1)))

    def ref_attr(self, I, o, n):
        self.not_none(I, o, 'object with attribute ' + n)
        sch = I.prog.schema.get(o.cls, {})
        if callable(sch.get(n)):
            return sch[n](I, o)
        if n in sch:
            return world_field(I, o.cls, n, sch[n], o.oid)
        if '()' + n in sch:
            return Builtin(n, lambda I, a, k: sch['()' + n](I, o, *a))
        c = I.prog.classref(sch.get('__class__', o.cls))
        if c is not None:
            m = I.prog.method(c, n)
            if m is not None:
                if any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in m.node.decorator_list):
                    return m
                return Bound(Ref(o.cls, o.oid), m)
            v = self.class_const(I, c, n)
            if v is not Missing:
                return v
        raise Unsupported(f'attribute {o.cls}.{n}')

    def class_const(self, I, c, n):
        for st in c.node.body:
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and st.targets[0].id == n:
                return I.ev(st.value, Env(c.mod, None))
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Tuple):
                ns = [t.id if isinstance(t, ast.Name) else None for t in st.targets[0].elts]
                if n in ns:
                    v = st.value
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'range' and len(v.args) == 1 and isinstance(v.args[0], ast.Constant) and v.args[0].value == len(ns):
                        return ns.index(n)
                    if isinstance(v, ast.Tuple) and len(v.elts) == len(ns):
                        return I.ev(v.elts[ns.index(n)], Env(c.mod, None))
        return Missing

    def setattr(self, I, o, n, v):
        if isinstance(o, Obj):
            c = I.prog.classref(o.cls)
            I.ctx.put(o, n, v)
            return
        if isinstance(o, Ref):
            self.not_none(I, o, 'object with attribute ' + n)
            kind = I.prog.schema.get(o.cls, {}).get(n)
            if not isinstance(kind, str) or kind[0] != '~':
                raise Unsupported(f'assignment of attribute {o.cls}.{n}')
            event(I, f'set {o.cls}.{n}', o, v)
            k = kind[1:].partition(':')[0]
            if k in ('int', 'nat', 'real', 'bool', 'ref', 'opt'):
                t = token(I, v)
                so = {'real': z3.RealSort(), 'bool': z3.BoolSort()}.get(k, z3.IntSort())
                if t.sort() == so:
                    I.ctx.fact(z3.Function(f'{o.cls}.{n}', z3.IntSort(), z3.IntSort(), so)(num(o.oid), num(I.world.f['w'])) == t)
            return
        if isinstance(o, NArr) and n == 'shape':
            old, fn = o.f['shape'], o.f['fn']
            new = v if isinstance(v, tuple) else (v,)
            if len(old) == len(new) and all(eq(x, y) is True for x, y in zip(old, new)):
                return
            if len(old) == 1 and len(new) == 2 and new[0] == 1:
                I.ctx.oblige(f'{I.where()}: reshape', eq(old[0], new[1]))
                I.ctx.put(o, 'fn', lambda i, j: fn(j))
            elif len(old) == 2 and len(new) == 1 and old[0] == 1:
                I.ctx.oblige(f'{I.where()}: reshape', eq(old[1], new[0]))
                I.ctx.put(o, 'fn', lambda j: fn(0, j))
            elif len(old) == 2 and len(new) == 2 and old[0] == 1 and new[0] == 1:
                I.ctx.oblige(f'{I.where()}: reshape', eq(old[1], new[1]))
            else:
                raise Unsupported('reshape')
            I.ctx.put(o, 'shape', new)
            return
        if isinstance(o, Struct):
            o.set(I, n, v)
            return
        if isinstance(o, ClassRef) and isinstance(v, Bound):
            note(I, 'functions that print are kept on classes')
            return
        raise Unsupported(f'assignment of attribute {n} of {type(o).__name__}')

    # ---------------------------------------------------------------- indexing
    def norm(self, I, i, n, what):
        'index with python semantics for negative numbers, with an in-range obligation'
        if isinstance(i, int) and i < 0:
            i = add(n, i)
        else:
            if isz(i) and not I.ctx.entails(le(0, i)):
                I.ctx.oblige(f'{I.where()}: index not negative: {what}', le(0, i))
        I.ctx.oblige(f'{I.where()}: index in range: {what}', lt(i, n))
        return i

    def getitem(self, I, o, ix):
        if isinstance(o, tuple):
            if isinstance(ix, int):
                if not -len(o) <= ix < len(o):
                    raise PyRaise('IndexError')
                return o[ix]
            if isinstance(ix, tuple) and ix[0] == 'slice':
                if all(x is None or isinstance(x, int) for x in ix[1:]):
                    return o[slice(*ix[1:])]
            raise Unsupported('tuple index')
        if isinstance(o, MapLog):
            has, v = self.in_map(I, token(I, o), token(I, ix), z3.IntSort())
            if not I.ctx.branch(has):
                raise PyRaise('KeyError', '')
            if o.kind is None:
                raise Unsupported('value of a dictionary')
            return Ref(o.kind, v, o.opt)
        if isinstance(o, PList):
            x = o.f['v']
            if isinstance(ix, tuple) and ix[0] == 'slice':
                return self.lslice(I, o, ix)
            if eq(ix, -1) is True and '#last' in o.f:
                I.ctx.oblige(f'{I.where()}: list not empty', lt(0, self.length(I, o)))
                return o.f['#last']
            if x[0] == 'items':
                items = [i for i in x[1] if i[0] != 'mark']
                if ix == -1 and items and items[-1][0] == 'one':
                    return items[-1][1]
                if ix == -1 and items and items[-1][0] == 'loop':
                    l = items[-1]
                    if I.ctx.entails(lt(l[2], l[3])) and l[4] and l[4][-1][0] == 'one':
                        return subst(l[4][-1][1], l[1], sub(l[3], 1))
                if isinstance(ix, int) and ix >= 0 and len(items) > ix and all(i[0] == 'one' for i in items[:ix + 1]):
                    return items[ix][1]
            if any(i[0] == 'base' for i in (x[1] if x[0] == 'items' else ())):
                if eq(ix, -1) is True and I.world is not None:
                    raise NeedLength(o, '#last')
                raise Unsupported('read of a list that the loop extends')
            n, fn = arr_of(o)
            return fn(self.norm(I, ix, n, 'list'))
        if isinstance(o, NArr):
            return self.aget(I, o, ix)
        if isinstance(o, Csr):
            return self.csr_slice(I, o, ix)
        if isinstance(o, Swig):
            return self.swig_get(I, o, ix)
        if isinstance(o, SeqView):
            return o.fn(self.norm(I, ix, o.n, 'sequence'))
        if isinstance(o, Ref) and '[]' in I.prog.schema.get(o.cls, {}):
            self.not_none(I, o, 'indexed object')
            return I.prog.schema[o.cls]['[]'](I, o, ix)
        if isinstance(o, Ref) and isinstance(ix, int) and not isinstance(ix, bool) and 0 <= ix < len(I.prog.schema.get(o.cls, {}).get('__fields__', ())):
            return self.getattr(I, o, I.prog.schema[o.cls]['__fields__'][ix])
        if isinstance(o, PDict):
            v = self.dict_get(I, o, ix)
            if v is Missing:
                raise PyRaise('KeyError', '')
            return v
        if isinstance(o, Struct):
            return o.getitem(I, ix)
        raise Unsupported('index of ' + type(o).__name__)

    def lslice(self, I, o, ix):
        _, a, b, st = ix
        if st is not None:
            raise Unsupported('slice step')
        x = o.f['v']
        if x[0] == 'items' and all(i[0] == 'one' for i in x[1] if i[0] != 'mark') and all(q is None or isinstance(q, int) for q in (a, b)):
            return PList(items=[i for i in x[1] if i[0] != 'mark'][slice(a, b)])
        n, fn = arr_of(o)
        a, b = self.slice_bounds(I, a, b, n)
        return PList(arr=(sub(b, a), lambda i: fn(add(a, i))))

    def slice_bounds(self, I, a, b, n):
        'the first and last index of a slice: bounds beyond the ends mean the ends'
        a = 0 if a is None else a
        b = n if b is None else b
        if isinstance(a, int) and a < 0:
            a = add(n, a)
        if isinstance(b, int) and b < 0:
            b = add(n, b)
        if I.ctx.entails(And(le(0, a), le(a, b), le(b, n))):
            return a, b

        def clamp(x):
            x, m = num(x), num(n)
            y = z3.If(x < 0, x + m, x) if isz(x) else x
            return py(z3.simplify(z3.If(y < 0, z3.IntVal(0), z3.If(y > m, m, y))))
        a, b = clamp(a), clamp(b)
        return a, py(z3.simplify(z3.If(num(b) < num(a), num(a), num(b))))

    def aget(self, I, o, ix):
        sh, fn = o.f['shape'], o.f['fn']
        if isinstance(fn, Poison) and not (isinstance(fn, OwnPoison) and len(sh) == 1 and isz(ix) and ix.eq(fn.k)):
            raise Unsupported('read of a loop-modified array')
        ixs = list(ix[1:]) if isinstance(ix, tuple) and ix and ix[0] == 'multi' else [ix]
        if len(ixs) > len(sh):
            raise Unsupported('too many indices')
        ixs += [('slice', None, None, None)] * (len(sh) - len(ixs))
        getters, newsh = [], []
        for i, n in zip(ixs, sh):
            if isinstance(i, tuple) and i[0] == 'slice':
                if i[3] is not None:
                    raise Unsupported('slice step')
                a, b = (0, n) if i[1] is None and i[2] is None else self.slice_bounds(I, i[1], i[2], n)
                getters.append(('s', a))
                newsh.append(sub(b, a))
            elif isnum(i):
                getters.append(('i', self.norm(I, i, n, 'array')))
            else:
                raise Unsupported('array index')

        if len(sh) == 2 and [t for t, _ in getters] == ['s', 's'] and getters[0][1] == 0 and I.ctx.entails(eq(newsh[0], sh[0])):
            for off, v in getattr(o, 'blocks', None) or ([(0, o)] if algebra.alg_of(o) is not None else []):
                if algebra.alg_of(v) is not None and I.ctx.entails(And(eq(off, getters[1][1]), eq(v.f['shape'][1], newsh[1]))):
                    return algebra.arr(v.alg, v.f['shape'])

        def g(*js):
            js = list(js)
            return fn(*[add(a, js.pop(0)) if t == 's' else a for t, a in getters])
        if not newsh:
            return g()
        return NArr(newsh, g, o.f['dtype'])

    def csr_slice(self, I, o, ix):
        if isinstance(ix, tuple) and ix[0] == 'multi' and len(ix) == 3:
            rng = []
            for i, n in zip(ix[1:], o.shape):
                if not (isinstance(i, tuple) and i[0] == 'slice' and i[3] is None):
                    if isnum(i):
                        rng.append((i, None))
                        continue
                    raise Unsupported('matrix index')
                a = 0 if i[1] is None else i[1]
                b = n if i[2] is None else i[2]
                I.ctx.oblige(f'{I.where()}: matrix slice in range', And(le(0, a), le(a, b), le(b, n)))
                rng.append((a, b))
            (ra, rb), (ca, cb) = rng
            if rb is None and cb is None:
                I.ctx.oblige(f'{I.where()}: matrix index in range', And(le(0, ra), lt(ra, o.shape[0]), le(0, ca), lt(ca, o.shape[1])))
                return o.entry(ra, ca)
            if rb is None or cb is None:
                raise Unsupported('matrix row')
            sh = (sub(rb, ra), sub(cb, ca))
            return Csr('csr', sh, lambda r, c: inside(sh, r, c, lambda: o.entry(add(ra, r), add(ca, c))))
        raise Unsupported('matrix index')

    def swig_get(self, I, o, ix):
        h = getattr(o, 'reader', None)
        if h is not None:
            return h(I, ix)
        n = count(o.items)
        if n is None:
            raise Unsupported('element of a swig array')
        I.ctx.oblige(f'{I.where()}: swig array index', And(le(1, ix), le(ix, n)))
        return item_at([x for x in o.items if x[0] != 'mark'], sub(ix, 1), 0)

    def dict_get(self, I, d, key):
        for k, v in reversed(d.f['v']):
            if I.ctx.branch(self.equal(I, k, key)):
                return v
        b = d.f['base']
        if b is None or not I.ctx.branch(b.has(key)):
            return Missing
        return b.get(key)

    def dict_set(self, I, d, key, v):
        old = self.dict_get(I, d, key)
        if v is Missing and old is Missing:
            return old
        I.ctx.put(d, 'n', add(d.f['n'], -1 if v is Missing else 1 if old is Missing else 0))
        if old is not Missing and any(k is key for k, _ in d.f['v']):
            I.ctx.put(d, 'v', tuple((k, v if k is key else x) for k, x in d.f['v']))
        else:
            I.ctx.put(d, 'v', d.f['v'] + ((key, v),))
        return old

    def dict_seq(self, I, d, what):
        'keys, values or items in insertion order'
        if d.f['base'] is not None or any(v is Missing for _, v in d.f['v']):
            b = d.f['base']
            if b is None or d.f['v'] or not hasattr(b, what):
                raise Unsupported('iteration over a symbolic dictionary')
            return getattr(b, what)()
        return PList(items=[('one', {'keys': k, 'values': v, 'items': (k, v)}[what]) for k, v in d.f['v']])

    def setitem(self, I, o, ix, v):
        if isinstance(o, PDict):
            self.dict_set(I, o, ix, v)
            return
        if isinstance(o, MapLog):
            if isinstance(v, Ref) and o.kind in (None, v.cls):
                o.kind, o.opt = v.cls, o.opt or v.opt
            else:
                raise Unsupported('value of a dictionary')
            return self.append(I, o, (ix, v))
        if isinstance(o, KeyList):
            if v is not True:
                raise Unsupported('value of a dictionary used as a set')
            return self.append(I, o, ix)
        if isinstance(o, PList):
            if '#last' in o.f or '#tok' in o.f:
                raise Unsupported('assignment to an element of a list that the loop extends')
            n, fn = arr_of(o)
            i = self.norm(I, ix, n, 'list')
            x = o.f['v']
            if x[0] == 'items' and isinstance(i, int) and all(q[0] == 'one' for q in x[1] if q[0] != 'mark'):
                its = [q for q in x[1] if q[0] != 'mark']
                its[i] = ('one', v)
                I.ctx.put(o, 'v', ('items', tuple(its)))
                return
            base = x[2] if x[0] == 'arr' else fn
            I.ctx.put(o, 'v', ('arr', n, Upd(base, (i,), lambda j: v)))
            return
        if isinstance(o, NArr):
            sh, fn = o.f['shape'], o.f['fn']
            ixs = list(ix[1:]) if isinstance(ix, tuple) and ix and ix[0] == 'multi' else [ix]
            if len(ixs) < len(sh):
                ixs += [('slice', None, None, None)] * (len(sh) - len(ixs))
            if len(ixs) == len(sh) and not all(isnum(i) for i in ixs):
                return self.set_part(I, o, ixs, v)
            if len(ixs) != len(sh):
                raise Unsupported('assignment to part of an array')
            ixs = [self.norm(I, i, n, 'array') for i, n in zip(ixs, sh)]
            if o.f['dtype'] == 'float':
                v = rl(v)
            I.ctx.put(o, 'fn', Upd(fn, tuple(ixs), lambda *j: v))
            return
        if isinstance(o, Struct):
            o.setitem(I, ix, v)
            return
        if isinstance(o, Ref) and isinstance(ix, int) and not isinstance(ix, bool) and 0 <= ix < len(I.prog.schema.get(o.cls, {}).get('__fields__', ())):
            self.setattr(I, o, I.prog.schema[o.cls]['__fields__'][ix], v)
            return
        raise Unsupported('item assignment to ' + type(o).__name__)

    def set_part(self, I, o, ixs, v):
        'o[.., a:b, ..] = v'
        sh, fn = o.f['shape'], o.f['fn']
        at, vsh = [], []
        for i, n in zip(ixs, sh):
            if isinstance(i, tuple) and i[0] == 'slice' and i[3] is None:
                a = 0 if i[1] is None else i[1]
                b = n if i[2] is None else i[2]
                a = add(n, a) if isinstance(a, int) and a < 0 else a
                b = add(n, b) if isinstance(b, int) and b < 0 else b
                full = i[1] is None and i[2] is None or I.ctx.entails(And(eq(a, 0), eq(b, n)))
                if not full:
                    I.ctx.oblige(f'{I.where()}: slice in range', And(le(0, a), le(a, b), le(b, n)))
                at.append(('s', a, b, full))
                vsh.append(sub(b, a))
            elif isnum(i):
                at.append(('i', self.norm(I, i, n, 'array')))
            else:
                raise Unsupported('array index')
        if isinstance(v, (PList, tuple)):
            v = to_array(I, v)
        if isinstance(v, NArr):
            if len(v.f['shape']) != len(vsh):
                raise Unsupported('assignment with broadcasting')
            for x, y in zip(v.f['shape'], vsh):
                I.ctx.oblige(f'{I.where()}: shape of the assigned part', eq(x, y))
            vf = v.f['fn']
            if isinstance(vf, Poison):
                raise Unsupported('read of a loop-modified array')
            val = lambda *j: vf(*[sub(x, t[1]) for x, t in zip(j, at) if t[0] == 's'])
        elif isnum(v):
            val = lambda *j: v
        else:
            raise Unsupported('assignment to part of an array')
        if o.f['dtype'] == 'float':
            val0 = val
            val = lambda *j: rl(val0(*j))
        idx = tuple(t[1] if t[0] == 'i' else None for t in at)
        if all(t[0] == 'i' or t[3] for t in at):
            I.ctx.put(o, 'fn', Upd(fn, idx, val))
        else:
            t_ = lambda *j: And(*[eq(x, t[1]) if t[0] == 'i' else And(le(t[1], x), lt(x, t[2])) for x, t in zip(j, at)])
            I.ctx.put(o, 'fn', RangeUpd(fn, t_, val, idx))

    # ---------------------------------------------------------------- lists
    def append(self, I, l, v):
        if l.f.get('escaped') is not None:
            l.f['escaped'].change(I, 'append', v)
            return
        x = l.f['v']
        if '#n' in l.f:
            I.ctx.put(l, '#n', add(l.f['#n'], 1))
        if '#last' in l.f:
            I.ctx.put(l, '#last', v)
        if '#tok' in l.f:
            I.ctx.put(l, '#tok', hcons(num(l.f['#tok']), token(I, v)))
        if x[0] == 'items':
            I.ctx.put(l, 'v', ('items', x[1] + (('one', v),)))
        elif I.ctx.frames:
            I.ctx.put(l, 'v', ('items', items_of(l) + (('one', v),)))
        else:
            n, fn = x[1], x[2]
            I.ctx.put(l, 'v', ('arr', add(n, 1), lambda i: ite(eq(i, n), lambda: v, lambda: fn(i))))

    def extend(self, I, l, v):
        x = l.f['v']
        if '#n' in l.f:
            I.ctx.put(l, '#n', add(l.f['#n'], self.length(I, v)))
        if '#last' in l.f:
            n, fn = seqview(I, v)
            I.ctx.put(l, '#last', self.new_last(I, l.f['#last'], items_of(v if isinstance(v, PList) else PList(arr=(n, fn)))))
        if '#tok' in l.f:
            n, fn = seqview(I, v)
            I.ctx.put(l, '#tok', list_token(I, items_of(v if isinstance(v, PList) else PList(arr=(n, fn))), num(l.f['#tok'])))
        if x[0] == 'items':
            if isinstance(v, PList):
                it = [i for i in items_of(v) if i[0] != 'mark']
            elif isinstance(v, tuple):
                it = [('one', y) for y in v]
            elif isinstance(v, NArr):
                raise Unsupported('list += array')
            else:
                n, fn = seqview(I, v)
                p = PList(arr=(n, fn))
                it = items_of(p)
            I.ctx.put(l, 'v', ('items', x[1] + tuple(it)))
        else:
            n, fn = x[1], x[2]
            m, g = seqview(I, v)
            I.ctx.put(l, 'v', ('arr', add(n, m), lambda i: ite(lt(i, n), lambda: fn(i), lambda: g(sub(i, n)))))

    # ---------------------------------------------------------------- operators
    def amap(self, v, f):
        fn = v.f['fn']
        return NArr(v.f['shape'], lambda *i: f(fn(*i)), v.f['dtype'])

    def neg(self, I, v):
        if isinstance(v, Inf):
            return Inf(-v.sign)
        if isinstance(v, NArr):
            return self.amap(v, lambda x: mul(-1, x))
        if isinstance(v, Csr):
            return Csr(v.kind, v.shape, lambda r, c: mul(-1, v.entry(r, c)))
        if isinstance(v, Ref):
            h = I.prog.schema.get(v.cls, {}).get('OpUSub')
            if h is None:
                raise Unsupported('negation of ' + v.cls)
            return h(I, v)
        return mul(-1, v)

    def ref_op(self, I, op, a, *rest):
        'an operator that the schema of the class defines'
        for x in (a,) + rest:
            h = I.prog.schema.get(x.cls, {}).get('Op' + op) if isinstance(x, Ref) else getattr(x, 'op', None) if isinstance(x, Struct) else None
            if h is not None:
                return h(I, a, *rest) if isinstance(x, Ref) else h(I, op, a, *rest)
        return Missing

    def binop(self, I, op, a, b):
        r = self.ref_op(I, op, a, b)
        if r is not Missing:
            return r
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('arithmetic on an opaque value')
        if op == 'Add' and isinstance(a, PList) and isinstance(b, PList):
            r = self.aslist(I, a)
            if r.f['v'][0] == 'arr' and b.f['v'][0] == 'items':
                r = PList(items=items_of(a))
            self.extend(I, r, b)
            return r
        if op == 'Add' and isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            p = lambda x: (x,) if isinstance(x, str) else x.parts
            return SStr(p(a) + p(b))
        if op == 'Mult' and isinstance(a, PList):
            a, b = b, a
        if op == 'Mult' and isinstance(b, PList):
            x = b.f['v']
            its = [i for i in items_of(b) if i[0] != 'mark']
            if len(its) == 1 and its[0][0] == 'one':
                v = its[0][1]
                if isinstance(a, int) and a <= 12:
                    return PList(items=[('one', v)] * max(a, 0))
                n = a if I.ctx.entails(le(0, a)) else py(z3.If(num(a) > 0, num(a), z3.IntVal(0)))
                return PList(arr=(n, lambda i: v))
            raise Unsupported('list repetition')
        if op == 'Mod' and isinstance(a, str):
            return SStr(('?',))
        if isinstance(a, Csr) or isinstance(b, Csr):
            return self.csr_op(I, op, a, b)
        if isinstance(a, NArr) or isinstance(b, NArr):
            return self.arr_op(I, op, a, b)
        if isinstance(a, Inf) or isinstance(b, Inf):
            raise Unsupported('arithmetic on infinity')
        if isbool(a):
            a = int(a) if isinstance(a, bool) else num(a)
        if isbool(b):
            b = int(b) if isinstance(b, bool) else num(b)
        if not (isnum(a) and isnum(b)):
            raise Unsupported(f'{op} of {type(a).__name__} and {type(b).__name__}')
        if op == 'Add':
            return add(a, b)
        if op == 'Sub':
            return sub(a, b)
        if op == 'Mult':
            return mul(a, b)
        if op == 'Div':
            I.ctx.oblige(f'{I.where()}: division by zero', Not(eq(b, 0)))
            if not isz(a) and not isz(b):
                if b == 0:
                    raise PyRaise('ZeroDivisionError')
                return Fraction(a) / Fraction(b)
            return py(real(a) / real(b))
        if op in ('FloorDiv', 'Mod'):
            if isinstance(b, int) and b > 0 and z3.is_int(num(a)):
                if isinstance(a, int):
                    return a // b if op == 'FloorDiv' else a % b
                return py(num(a) / z3.IntVal(b)) if op == 'FloorDiv' else py(num(a) % z3.IntVal(b))
            if isnum(a) and isz(b) and z3.is_int(num(b)) and z3.is_int(num(a)) and I.ctx.entails(lt(0, b)):
                # (uninterpreted, with what floor division means)
                q = z3.Function('FLOORDIV', z3.IntSort(), z3.IntSort(), z3.IntSort())(num(a), num(b))
                I.ctx.fact(z3.And(q * num(b) <= num(a), num(a) < (q + 1) * num(b)))
                return q if op == 'FloorDiv' else py(num(a) - q * num(b))
        if op == 'Pow' and isinstance(b, int) and 0 <= b <= 4:
            r = 1
            for _ in range(b):
                r = mul(r, a)
            return r
        raise Unsupported('operator ' + op)

    def arr_op(self, I, op, a, b):
        if op == 'MatMult':
            return self.c_numpy_dot(I, [a, b], {})
        if isinstance(a, PList):
            a = to_array(I, a)
        if isinstance(b, PList):
            b = to_array(I, b)
        if isinstance(a, NArr) and isinstance(b, NArr):
            sa, sb = a.f['shape'], b.f['shape']
            if len(sa) != len(sb):
                raise Unsupported('array broadcasting')
            for x, y in zip(sa, sb):
                I.ctx.oblige(f'{I.where()}: array shapes', eq(x, y))
            fa, fb = a.f['fn'], b.f['fn']
            return NArr(sa, lambda *i: self.binop(I, op, fa(*i), fb(*i)), 'float' if op == 'Div' or 'float' in (a.f['dtype'], b.f['dtype']) else a.f['dtype'])
        for x, y in ((a, b), (b, a)):
            if op == 'Mult' and isnum(x) and algebra.alg_of(y) is not None:
                return algebra.scaled(I, x, y)
        if op == 'MatMult':
            return self.c_numpy_dot(I, [a, b], {})
        if isinstance(a, NArr) and isnum(b):
            fa = a.f['fn']
            return NArr(a.f['shape'], lambda *i: self.binop(I, op, fa(*i), b), 'float' if op == 'Div' else a.f['dtype'])
        if isinstance(b, NArr) and isnum(a):
            fb = b.f['fn']
            return NArr(b.f['shape'], lambda *i: self.binop(I, op, a, fb(*i)), 'float' if op == 'Div' else b.f['dtype'])
        raise Unsupported('array operator')

    def csr_op(self, I, op, a, b):
        if op in ('Mult', 'MatMult'):
            x, y = (a, b) if isnum(a) else (b, a)
            if isnum(x) and op == 'Mult':
                r = algebra.scaled(I, x, y)
            else:
                r = algebra.product(I, a, b, 'csr' if isinstance(a, Csr) and isinstance(b, Csr) else None)
            if r is not None:
                return r
        if op == 'Mult' and isnum(a) and isinstance(b, Csr):
            return Csr(b.kind, b.shape, lambda r, c: mul(a, b.entry(r, c)))
        if op == 'Mult' and isnum(b) and isinstance(a, Csr):
            return Csr(a.kind, a.shape, lambda r, c: mul(b, a.entry(r, c)))
        if op == 'Mult' and isinstance(a, Csr) and isinstance(b, NArr) and len(b.f['shape']) == 1:
            I.ctx.oblige(f'{I.where()}: matrix-vector shapes', eq(a.shape[1], b.f['shape'][0]))
            fb = b.f['fn']
            k = z3.FreshInt('mv')
            return NArr((a.shape[0],), lambda r: I.ctx.sum(k, 0, a.shape[1], mul(a.entry(r, k), fb(k))))
        raise Unsupported('sparse matrix operator')

    def compare(self, I, op, a, b):
        if op in ('Is', 'IsNot'):
            if a is None or b is None:
                x = b if a is None else a
                r = eq(x.oid, -1) if isinstance(x, Ref) and x.opt else a is b
            elif isbool(a) and isbool(b):
                r = eq(a, b)
            elif isinstance(a, Ref) and isinstance(b, Ref):
                r = eq(a.oid, b.oid) if a.cls == b.cls else False
            elif isinstance(a, (Heap, Csr)) and isinstance(b, (Heap, Csr)):
                if getattr(a, 'frozen', False) or getattr(b, 'frozen', False):
                    raise Unsupported('identity of symbolic objects')
                r = a is b
            else:
                raise Unsupported('is')
            return r if op == 'Is' else Not(r)
        if op in ('In', 'NotIn'):
            r = self.contains(I, a, b)
            return r if op == 'In' else Not(r)
        if isinstance(a, (Ref, Struct)) or isinstance(b, (Ref, Struct)):
            r = self.ref_op(I, op, a, b)
            if r is not Missing:
                return r
        if op in ('Eq', 'NotEq'):
            r = self.equal(I, a, b)
            return r if op == 'Eq' else Not(r)
        sym = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}[op]
        if isinstance(a, Inf) or isinstance(b, Inf):
            if isinstance(a, Inf) and not isinstance(b, Inf):
                return (a.sign > 0) == (sym in ('>', '>='))
            if isinstance(b, Inf) and not isinstance(a, Inf):
                return (b.sign > 0) == (sym in ('<', '<='))
            raise Unsupported('comparison of infinities')
        if isinstance(a, NArr) or isinstance(b, NArr):
            f = lambda x, y: cmp(sym, x, y)
            if isinstance(a, NArr) and isnum(b):
                fn = a.f['fn']
                return NArr(a.f['shape'], lambda *i: f(fn(*i), b), 'bool')
            if isinstance(b, NArr) and isnum(a):
                fn = b.f['fn']
                return NArr(b.f['shape'], lambda *i: f(a, fn(*i)), 'bool')
            raise Unsupported('array comparison')
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            if isinstance(a, str) and isinstance(b, str):
                return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[sym]
            f = z3.Function('STRLT', z3.IntSort(), z3.IntSort(), z3.BoolSort())
            x, y = num(sid(I.prog, a)), num(sid(I.prog, b))
            return {'<': f(x, y), '>': f(y, x), '<=': z3.Not(f(y, x)), '>=': z3.Not(f(x, y))}[sym]
        if isbool(a):
            a = num(a) if isz(a) else int(a)
        if isbool(b):
            b = num(b) if isz(b) else int(b)
        if isnum(a) and isnum(b):
            return cmp(sym, a, b)
        raise Unsupported(f'comparison of {type(a).__name__} and {type(b).__name__}')

    def tok(self, I, l):
        return list_token(I, items_of(l))

    def in_token(self, I, t, v):
        'membership in the list that a term stands for'
        t = num(t)
        if z3.is_int_value(t):
            return False
        if z3.is_app(t) and t.decl().name().startswith('HCONS_'):
            x = t.arg(1)
            return Or(self.in_token(I, t.arg(0), v), x == v if x.sort() == v.sort() else False)
        return z3.Function(f'INLIST_{v.sort()}', z3.IntSort(), v.sort(), z3.BoolSort())(t, v)

    def in_map(self, I, t, k, v):
        'is the key in the dictionary a term stands for; its value'
        t = num(t)
        if z3.is_int_value(t):
            return False, None
        if z3.is_app(t) and t.decl().name().startswith('HCONS_'):
            pair = t.arg(1)
            k2, v2 = pair.arg(0).arg(1), pair.arg(1)
            if k2.sort() != k.sort() or v2.sort() != v:
                raise Unsupported('dictionary with keys or values of several types')
            has, val = self.in_map(I, t.arg(0), k, v)
            return Or(k2 == k, has), v2 if val is None else z3.If(k2 == k, v2, val)
        return z3.Function(f'INLIST_map_{k.sort()}', z3.IntSort(), k.sort(), z3.BoolSort())(t, k), z3.Function(f'INLIST_at_{k.sort()}_{v}', z3.IntSort(), k.sort(), v)(t, k)

    def contains(self, I, a, b):
        if isinstance(b, MapLog):
            return py(self.in_map(I, token(I, b), token(I, a), z3.IntSort())[0])
        if isinstance(b, PList) and '#tok' in b.f:
            return py(self.in_token(I, b.f['#tok'], token(I, a)))
        if isinstance(b, PList) and I.world is not None and b.f['v'][0] == 'items' and any(i[0] == 'base' for i in b.f['v'][1]):
            raise NeedLength(b, '#tok')
        if isinstance(b, (PList, tuple, SeqView, RangeV)):
            if isinstance(b, PList) and b.f['v'][0] == 'items' and all(i[0] in ('one', 'mark') for i in b.f['v'][1]):
                return py(Or(*[self.equal(I, a, i[1]) for i in b.f['v'][1] if i[0] == 'one']))
            if isinstance(b, tuple):
                return py(Or(*[self.equal(I, a, i) for i in b]))
            if isinstance(b, PList) and b.f['v'][0] == 'items':
                return py(self.in_items(I, a, b.f['v'][1]))
            n, fn = seqview(I, b)
            I.in_depth += 1
            k = z3.Int(f'in#{I.in_depth}')
            r = z3.Exists([k], z3.And(0 <= k, k < num(n), boolz(self.equal(I, a, fn(k)))))
            I.in_depth -= 1
            return r
        if isinstance(b, Struct):
            return b.contains(I, a)
        if isinstance(b, PDict):
            return self.dict_get(I, b, a) is not Missing
        if isinstance(b, Ref) and 'OpIn' in I.prog.schema.get(b.cls, {}):
            return I.prog.schema[b.cls]['OpIn'](I, b, a)
        raise Unsupported('in')

    def first_index(self, I, o, v):
        'list.index: the first position of the value (ValueError where there is none)'
        if not I.ctx.branch(self.contains(I, v, o)):
            raise PyRaise('ValueError', 'not in list')
        n, fn = seqview(I, o)
        i = I.ctx.fresh('index')
        k = z3.FreshInt('q')
        I.ctx.fact(And(le(0, i), lt(i, n), self.equal(I, v, fn(i))))
        I.ctx.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < i), z3.Not(boolz(self.equal(I, v, fn(k)))))))
        known = I.ctx.indices
        for i2, v2, o2 in known:
            if o2 == repr_items(items_of(o)):
                # the same list: the same value has the same first position
                I.ctx.fact(Implies(self.equal(I, v, v2), eq(i, i2)))
        known.append((i, v, repr_items(items_of(o))))
        return i

    def in_items(self, I, a, items):
        'membership in a list with conditional elements'
        out = []
        for it in items:
            if it[0] == 'one':
                out.append(self.equal(I, a, it[1]))
            elif it[0] == 'if':
                out.append(And(it[1], self.in_items(I, a, it[2])))
            elif it[0] == 'loop':
                I.in_depth += 1
                k = z3.Int(f'in#{I.in_depth}')
                b = boolz(self.in_items(I, a, subst_items(it[4], it[1], k)))
                I.in_depth -= 1
                out.append(z3.Exists([k], z3.And(num(it[2]) <= k, k < num(it[3]), b)))
            elif it[0] == 'base':
                raise Unsupported('membership in a list that the loop extends')
        return Or(*out)

    def equal(self, I, a, b):
        if isinstance(a, DType) or isinstance(b, DType):
            f = lambda x: x.name if isinstance(x, DType) else x.name if isinstance(x, Builtin) else '?'
            return f(a).replace('64', '') == f(b).replace('64', '')
        if isinstance(a, Ref) and ref_or_none(b) or isinstance(b, Ref) and ref_or_none(a):
            return self.compare(I, 'Is', a, b)
        if a is None or b is None:
            return a is b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return py(And(*[self.equal(I, x, y) for x, y in zip(a, b)]))
        if isinstance(a, Inf) or isinstance(b, Inf):
            return a == b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return sid(I.prog, a) == sid(I.prog, b)
        if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
            return False
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a is b:
                return True
            if a.frozen or b.frozen:
                raise Unsupported('equality of symbolic objects')
            return False
        if isinstance(a, PList) and isinstance(b, PList):
            n, f = arr_of(a)
            m, g = arr_of(b)
            k = z3.FreshInt('eq')
            if isinstance(n, int) and isinstance(m, int):
                return False if n != m else py(And(*[self.equal(I, f(i), g(i)) for i in range(n)]))
            return z3.And(boolz(eq(n, m)), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < num(n)), boolz(self.equal(I, f(k), g(k))))))
        return eq(a, b)

    # ---------------------------------------------------------------- iteration
    def segments(self, I, seq):
        if isinstance(seq, WList):
            return I.segments(seq.now(I))
        if isinstance(seq, (EnumV, ZipV, Csr)) or isinstance(seq, Ref) and '__iter__' in I.prog.schema.get(seq.cls, {}):
            n, fn = seqview(I, seq)
            return I.segments(SeqView(n, fn))
        return None

    def range_len(self, r):
        return range_len(r)

    def while_rule(self, I, st, env):
        '''while i < HI: ...; i += 1   with i assigned nowhere else, no continue: the same as a for over range(i, HI),
        provided HI is unchanged by the body (checked: its value inside the body is entailed equal)'''
        t = st.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and not st.orelse and len(st.body) > 1):
            return False
        if isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name):
            nm, hx = t.left.id, t.comparators[0]
        elif isinstance(t.ops[0], ast.Gt) and isinstance(t.comparators[0], ast.Name):
            nm, hx = t.comparators[0].id, t.left
        else:
            return False
        last = st.body[-1]
        isnm = lambda x: isinstance(x, ast.Name) and x.id == nm
        one = lambda x: isinstance(x, ast.Constant) and x.value == 1 and not isinstance(x.value, bool)
        inc = isinstance(last, ast.AugAssign) and isnm(last.target) and isinstance(last.op, ast.Add) and one(last.value) or \
            isinstance(last, ast.Assign) and len(last.targets) == 1 and isnm(last.targets[0]) and isinstance(last.value, ast.BinOp) and \
            isinstance(last.value.op, ast.Add) and (isnm(last.value.left) and one(last.value.right) or one(last.value.left) and isnm(last.value.right))
        if not inc:
            return False
        for s in st.body[:-1]:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id == nm and not isinstance(x.ctx, ast.Load):
                    return False

        def cont(ss):
            for s in ss:
                if isinstance(s, ast.Continue):
                    return True
                if isinstance(s, (ast.For, ast.While, ast.FunctionDef)):
                    if cont(getattr(s, 'orelse', [])):
                        return True
                    continue
                for b in ('body', 'orelse', 'finalbody'):
                    if cont(getattr(s, b, [])):
                        return True
                for h in getattr(s, 'handlers', []):
                    if cont(h.body):
                        return True
            return False
        if cont(st.body):
            return False
        lo, hi = env.v.get(nm), I.ev(hx, env)
        if not (isnum(lo) and isnum(hi) and z3.is_int(num(lo)) and z3.is_int(num(hi))):
            return False
        k = z3.FreshInt('k')

        def body():
            env.v[nm] = k
            h = I.ev(hx, env)
            if not isnum(h) or not I.ctx.entails(eq(h, hi)):
                raise Unsupported('the bound of a counted while changes')
            I.block(st.body[:-1], env)
        env.v.pop(nm)
        try:
            I.summarise(k, lo, hi, body, env, st)
        except Brk:
            return True
        env.v[nm] = py(z3.If(boolz(lt(lo, hi)), num(hi), num(lo)))
        if I.ctx.entails(le(lo, hi)):
            env.v[nm] = hi
        return True

    # ---------------------------------------------------------------- methods of builtin values
    def method(self, I, o, n, a, kw):
        if isinstance(o, WList):
            if n in ('append', 'extend', 'remove', 'insert', 'pop', 'popleft', 'clear', 'sort', 'reverse'):
                return o.change(I, n, *a)
            return self.method(I, o.now(I), n, a, kw)
        if isinstance(o, MapLog):
            raise Unsupported('dictionary method ' + n)
        if isinstance(o, PList):
            if n == 'reverse' and not a and not {'#n', '#last', '#tok'} & set(o.f):
                m, fn = arr_of(o)
                I.ctx.put(o, 'v', ('arr', m, lambda i: fn(sub(sub(m, 1), i))))
                return None
            if n == 'append':
                self.append(I, o, a[0])
                return None
            if n == 'extend':
                self.extend(I, o, a[0])
                return None
            if n == 'copy':
                return self.aslist(I, o)
            if n == 'index' or n == 'pop' or n == 'insert' or n == 'remove':
                h = I.prog.hooks.get('list.' + n)
                if h:
                    return h(I, o, a)
                if n == 'index' and len(a) == 1:
                    return self.first_index(I, o, a[0])
                its = [q for q in o.f['v'][1] if q[0] != 'mark'] if o.f['v'][0] == 'items' else None
                if '#n' in o.f or '#last' in o.f or '#tok' in o.f:
                    raise Unsupported('list method ' + n)
                if n == 'pop' and its is not None and its and all(q[0] == 'one' for q in its) and all(isinstance(x, int) for x in a):
                    j = a[0] if a else -1
                    v = its.pop(j)
                    I.ctx.put(o, 'v', ('items', tuple(its)))
                    return v[1]
        if isinstance(o, PDict):
            if n in ('keys', 'values', 'items') and not a:
                return self.dict_seq(I, o, n)
            if n == 'get':
                v = self.dict_get(I, o, a[0])
                return (a[1] if len(a) > 1 else None) if v is Missing else v
            if n == 'pop':
                v = self.dict_set(I, o, a[0], Missing)
                if v is Missing:
                    if len(a) > 1:
                        return a[1]
                    raise PyRaise('KeyError', '')
                return v
        if isinstance(o, NArr):
            if n == 'copy':
                r = NArr(o.f['shape'], o.f['fn'], o.f['dtype'])
                if algebra.alg_of(o) is not None:
                    r.alg, r.algfn = o.alg, o.f['fn']
                return r
            if n == 'tolist':
                sh, fn = o.f['shape'], o.f['fn']
                if len(sh) == 1:
                    return PList(arr=(sh[0], fn))
                if len(sh) == 2:
                    def row(i):
                        p = PList(arr=(sh[1], lambda j: fn(i, j)))
                        p.frozen = p.local = True
                        return p
                    return PList(arr=(sh[0], row))
            if n == 'astype':
                return to_array(I, o)
        if isinstance(o, Csr):
            if n == 'check_format':
                return None
            if n in ('tocsr', 'tocsc', 'copy'):
                r = Csr(o.kind if n == 'copy' else n[2:], o.shape, o.entry)
                if algebra.alg_of(o) is not None:
                    r.alg = o.alg
                return r
            if n == 'toarray':
                if algebra.alg_of(o) is not None and o.alg[2] != 'A':
                    return algebra.arr(o.alg, o.shape)
                return NArr(o.shape, o.entry)
            if n == 'dot' and isinstance(a[0], NArr):
                return self.csr_op(I, 'Mult', o, a[0])
        if isinstance(o, (str, SStr)):
            if n in ('format', 'join', 'lower', 'strip'):
                return SStr(('?',))
        if isinstance(o, Opaque):
            return Opaque(o.name + '.' + n)
        raise Unsupported(f'method {n} of {type(o).__name__}')

    # ---------------------------------------------------------------- library calls
    def call(self, I, name, a, kw):
        h = I.prog.hooks.get(name)
        if h:
            return h(I, a, kw)
        f = getattr(self, 'c_' + name.replace('.', '_'), None)
        if f is None:
            raise Unsupported('call of ' + name)
        I.ctx.calls.add(name)
        return f(I, a, kw)

    def c_collections_namedtuple(self, I, a, kw):
        its = [i[1] for i in items_of(a[1]) if i[0] == 'one']
        return NTClass(a[0], its)

    def c_collections_deque(self, I, a, kw):
        if kw or len(a) > 1:
            raise Unsupported('deque of bounded length')
        return self.aslist(I, a[0]) if a else PList(items=[])

    # numpy
    def c_numpy_array(self, I, a, kw):
        note(I, 'numpy arrays as mathematical arrays of reals (no rounding)')
        isf = kw.get('dtype') is not None or (len(a) > 1)
        return to_array(I, a[0])

    def c_numpy_zeros(self, I, a, kw):
        sh = a[0] if isinstance(a[0], tuple) else (a[0],)
        d = kw.get('dtype', a[1] if len(a) > 1 else None)
        dt = 'int' if isinstance(d, ModRef) and 'int' in d.name else 'float'
        for s in sh:
            if not I.ctx.branch(le(0, s)):
                raise PyRaise('ValueError', 'negative array size')
        z = 0 if dt == 'int' else Fraction(0)
        return NArr(sh, lambda *i: z, dt)

    def c_numpy_identity(self, I, a, kw):
        return algebra.arr((1, 0, 'I'), (a[0], a[0]))

    c_numpy_eye = c_numpy_identity

    def c_numpy_add(self, I, a, kw):
        if kw or len(a) != 2:
            raise Unsupported('numpy.add with options')
        return self.binop(I, 'Add', a[0], a[1])

    def c_numpy_dot(self, I, a, kw):
        x, y = [to_array(I, v) if isinstance(v, (PList, tuple)) else v for v in a]
        if not (isinstance(x, NArr) and isinstance(y, NArr)):
            raise Unsupported('dot of a sparse matrix')
        pr = algebra.product(I, x, y)
        if pr is not None:
            return pr
        sx, sy = x.f['shape'], y.f['shape']
        fx, fy = x.f['fn'], y.f['fn']
        k = z3.FreshInt('dot')
        I.ctx.oblige(f'{I.where()}: shapes of a dot product', eq(sx[-1], sy[0]))
        if len(sx) == 1 and len(sy) == 1:
            return self.sumrange(I, k, sx[0], mul(fx(k), fy(k)))
        if len(sx) == 2 and len(sy) == 2:
            return NArr((sx[0], sy[1]), lambda i, j: self.sumrange(I, k, sx[1], mul(fx(i, k), fy(k, j))))
        if len(sx) == 2 and len(sy) == 1:
            return NArr((sx[0],), lambda i: self.sumrange(I, k, sx[1], mul(fx(i, k), fy(k))))
        if len(sx) == 1 and len(sy) == 2:
            return NArr((sy[1],), lambda j: self.sumrange(I, k, sx[0], mul(fx(k), fy(k, j))))
        raise Unsupported('dot')

    def sumrange(self, I, k, n, body):
        if isinstance(n, int):
            r = Fraction(0)
            for i in range(n):
                r = add(r, subst(body, k, i))
            return r
        return I.ctx.sum(k, 0, n, body)

    def c_numpy_concatenate(self, I, a, kw):
        axis = kw.get('axis', a[1] if len(a) > 1 else 0)
        n, fn = seqview(I, a[0])
        if not isinstance(n, int) or axis not in (0, 1):
            raise Unsupported('concatenate')
        return self.concat(I, [self.as_array(I, fn(i)) for i in range(n)], axis)

    def as_array(self, I, v):
        if isinstance(v, NArr):
            return v
        n, fn = seqview(I, v)
        x = fn(0 if isinstance(n, int) else z3.Int('probe'))
        return to_array(I, v, 'int' if isnum(x) and z3.is_int(num(x)) else 'float')

    def c_numpy_hstack(self, I, a, kw):
        n, fn = seqview(I, a[0])
        if not isinstance(n, int):
            raise Unsupported('hstack')
        vs = [fn(i) for i in range(n)]
        vs = [self.as_array(I, v) for v in vs]
        return self.concat(I, vs, 0 if len(vs[0].f['shape']) == 1 else 1)

    def c_numpy_vstack(self, I, a, kw):
        n, fn = seqview(I, a[0])
        vs = [fn(i) for i in range(n)] if isinstance(n, int) else []
        if not vs or not all(isinstance(v, NArr) and len(v.f['shape']) == 2 for v in vs):
            raise Unsupported('vstack')
        return self.concat(I, vs, 0)

    def concat(self, I, vs, axis):
        if not vs:
            raise PyRaise('ValueError', 'nothing to concatenate')
        dims = len(vs[0].f['shape'])
        if axis >= dims or any(len(v.f['shape']) != dims for v in vs):
            raise PyRaise('ValueError', 'concatenate: dimensions')
        for v in vs[1:]:
            for j in range(dims):
                if j != axis:
                    I.ctx.oblige(f'{I.where()}: concatenate: shapes', eq(v.f['shape'][j], vs[0].f['shape'][j]))
        offs, tot = [], 0
        for v in vs:
            offs.append(tot)
            tot = add(tot, v.f['shape'][axis])
        fns = [v.f['fn'] for v in vs]

        def g(*ix):
            x = ix[axis]
            r = lambda: fns[-1](*[sub(q, offs[-1]) if j == axis else q for j, q in enumerate(ix)])
            for fn, o, v in list(zip(fns, offs, vs))[-2::-1]:
                r = (lambda fn=fn, o=o, v=v, r=r: ite(lt(x, add(o, v.f['shape'][axis])), lambda: fn(*[sub(q, o) if j == axis else q for j, q in enumerate(ix)]), r))
            return r()
        sh = list(vs[0].f['shape'])
        sh[axis] = tot
        out = NArr(sh, g, 'float' if any(v.f['dtype'] == 'float' for v in vs) else vs[0].f['dtype'])
        if axis == 1:
            out.blocks = [(o, v) for o, v in zip(offs, vs)]
        return out

    def c_numpy_linalg_norm(self, I, a, kw):
        raise Unsupported('norm')

    # scipy
    def c_scipy_sparse_csr_matrix(self, I, a, kw):
        return self.sparse(I, 'csr', a, kw)

    def c_scipy_sparse_csc_matrix(self, I, a, kw):
        return self.sparse(I, 'csc', a, kw)

    def sparse(self, I, kind, a, kw):
        note(I, 'scipy.sparse constructors represent the given entries exactly')
        v = a[0]
        if isinstance(v, Csr):
            r = Csr(kind, v.shape, v.entry)
            if v.kind == kind:
                r.raw = v.raw
            if algebra.alg_of(v) is not None:
                r.alg = v.alg
            return r
        if isinstance(v, tuple) and len(v) == 2 and all(isnum(x) for x in v):
            return Csr(kind, v, lambda r, c: Fraction(0))
        if isinstance(v, tuple) and len(v) == 3:
            sh = kw.get('shape')
            if sh is None and len(a) > 1:
                sh = a[1]
            return matrix_from_lists(I, kind, v[0], v[1], v[2], sh)
        if isinstance(v, (PList, NArr)):
            m = dense_matrix(I, v)
            m.kind = kind
            return m
        raise Unsupported('sparse matrix from ' + type(v).__name__)

    def c_scipy_sparse_identity(self, I, a, kw):
        n = a[0]
        fmt = kw.get('format', 'dia')
        return Csr(fmt, (n, n), lambda r, c: inside((n, n), r, c, lambda: ite(eq(r, c), lambda: Fraction(1), lambda: Fraction(0))))

    def c_scipy_sparse_hstack(self, I, a, kw):
        n, fn = seqview(I, a[0])
        if not isinstance(n, int):
            raise Unsupported('hstack of a symbolic number of matrices')
        ms = [fn(i) for i in range(n)]
        tot, offs = 0, []
        for m in ms:
            I.ctx.oblige(f'{I.where()}: hstack: equal number of rows', eq(m.shape[0], ms[0].shape[0]))
            offs.append(tot)
            tot = add(tot, m.shape[1])
        sh = (ms[0].shape[0], tot)

        def entry(r, c):
            v = lambda: Fraction(0)
            for m, o in reversed(list(zip(ms, offs))):
                v = (lambda m=m, o=o, v=v: ite(And(le(o, c), lt(c, add(o, m.shape[1]))), lambda: m.entry(r, sub(c, o)), v))
            return v()
        return Csr('coo', sh, entry)

    def c_scipy_sparse_linalg_expm(self, I, a, kw):
        x = algebra.alg_of(a[0])
        if x is None or x[2] != 'A':
            raise Unsupported('expm of a matrix that is not a multiple of the dynamics matrix')
        note(I, 'scipy expm(A t) is the matrix exponential: e^(A s) e^(A t) = e^(A (s+t)), e^0 = I')
        return algebra.arr((1, x[0], 'I'), algebra.shape_of(a[0]), 'csc' if isinstance(a[0], Csr) else None)

    c_scipy_linalg_expm = c_scipy_sparse_linalg_expm

    # math
    def c_math_isinf(self, I, a, kw):
        return isinstance(a[0], Inf)

    def c_math_isnan(self, I, a, kw):
        return False

    # GLPK
    def c_swiglpk_glp_create_prob(self, I, a, kw):
        note(I, 'GLPK API functions behave as documented (contracts in engine/models.py)')
        return new_lp(I.ctx)

    def c_swiglpk_glp_delete_prob(self, I, a, kw):
        return None

    def c_swiglpk_glp_copy_prob(self, I, a, kw):
        d, s = a[0], a[1]
        I.ctx.oblige('glp_copy_prob: different objects', d is not s)
        for f in ('nrows', 'ncols', 'A', 'rtype', 'rlb', 'rub', 'ctype', 'obj'):
            I.ctx.put(d, f, s.f[f])
        lp_touch(I, d)

    def c_swiglpk_glp_get_num_rows(self, I, a, kw):
        return a[0].f['nrows']

    def c_swiglpk_glp_get_num_nz(self, I, a, kw):
        n = I.ctx.fresh('nnz')
        I.ctx.fact(n >= 0)
        I.nnz = getattr(I, 'nnz', {})
        I.nnz[n.get_id()] = (n, a[0], a[0].f['A'], a[0].f['nrows'])
        return n

    def filled(self, I, lst, size, kind):
        'a list that stands for an array filled through a cursor has the size of the array in the end'
        def values(its):
            for x in its:
                if x[0] == 'one':
                    yield x[1]
                elif x[0] == 'loop':
                    yield from values(x[4])
                elif x[0] != 'mark':
                    raise Unsupported('an array filled through a cursor')
        for v in values(items_of(lst)):
            v = py(v)
            if kind == 'int' and not (isinstance(v, int) or isz(v) and v.sort() == z3.IntSort()):
                raise Unsupported('numbers written to an array of integers')
        nz = getattr(I, 'nnz', {}).get(size.get_id()) if isz(size) else None
        if nz is None:
            return I.ctx.oblige(f'{I.where()}: the array is filled', eq(self.length(I, lst), size))
        # the number of nonzeros of a problem is the sum of the lengths of its rows: one entry per element of every row
        ctx = I.ctx
        its = [x for x in items_of(lst) if x[0] != 'mark']
        if len(its) == 1 and its[0][0] == 'loop':
            k, lo, hi, body = its[0][1:]
            body = [x for x in body if x[0] != 'mark']
            if len(body) == 1 and body[0][0] == 'loop' and [x[0] for x in body[0][4] if x[0] != 'mark'] == ['one']:
                n = py(sub(body[0][3], body[0][2]))
                n = z3.simplify(n) if isz(n) else n
                row = getattr(I, 'matrows', {}).get(n.decl().name()) if isz(n) else None
                if row is not None and n.num_args() == 1 and n.arg(0).eq(k) and len(row[3]) == 1 and row[0] is nz[1] and row[1] is nz[2] and row[1] is row[0].f['A']:
                    note(I, 'glp_get_num_nz is the sum of the lengths of the rows')
                    ctx.oblige(f'{I.where()}: the array is filled (rows in turn)', eq(subst(row[2], row[3][0], k), add(sub(k, lo), 1)))
                    return ctx.oblige(f'{I.where()}: the array is filled (all rows)', eq(sub(hi, lo), nz[3]))
        raise Unsupported('the number of entries of a problem')

    def c_swiglpk_glp_get_num_cols(self, I, a, kw):
        return a[0].f['ncols']

    def c_swiglpk_glp_add_rows(self, I, a, kw):
        lp, n = a
        I.ctx.oblige(f'{I.where()}: glp_add_rows: positive number', lt(0, n))
        old = lp.f['nrows']
        new = lambda *x: le(old, x[0])
        for f, v in (('A', lambda r, c: Fraction(0)), ('rtype', lambda r: FR), ('rlb', lambda r: Fraction(0)), ('rub', lambda r: Fraction(0))):
            I.ctx.put(lp, f, RangeUpd(lp.f[f], new, v, (None, None) if f == 'A' else (None,)))
        I.ctx.put(lp, 'nrows', add(old, n))
        lp_touch(I, lp)
        return add(old, 1)

    def c_swiglpk_glp_add_cols(self, I, a, kw):
        lp, n = a
        I.ctx.oblige(f'{I.where()}: glp_add_cols: positive number', lt(0, n))
        old = lp.f['ncols']
        I.ctx.put(lp, 'A', RangeUpd(lp.f['A'], lambda r, c: le(old, c), lambda r, c: Fraction(0), (None, None)))
        I.ctx.put(lp, 'ctype', RangeUpd(lp.f['ctype'], lambda c: le(old, c), lambda c: FX, (None,)))
        I.ctx.put(lp, 'obj', RangeUpd(lp.f['obj'], lambda c: le(old, c), lambda c: Fraction(0), (None,)))
        I.ctx.put(lp, 'ncols', add(old, n))
        lp_touch(I, lp)
        return add(old, 1)

    def inrange(self, I, what, i, n):
        I.ctx.oblige(f'{I.where()}: {what}: index in range', And(le(1, i), le(i, n)))

    def c_swiglpk_glp_set_row_bnds(self, I, a, kw):
        lp, r, t, lb, ub = a
        self.inrange(I, 'glp_set_row_bnds', r, lp.f['nrows'])
        r0 = sub(r, 1)
        I.ctx.put(lp, 'rtype', Upd(lp.f['rtype'], (r0,), lambda i: t))
        I.ctx.put(lp, 'rlb', Upd(lp.f['rlb'], (r0,), lambda i: rl(lb)))
        I.ctx.put(lp, 'rub', Upd(lp.f['rub'], (r0,), lambda i: rl(ub)))
        lp_touch(I, lp)

    def c_swiglpk_glp_set_col_bnds(self, I, a, kw):
        lp, c, t, lb, ub = a
        self.inrange(I, 'glp_set_col_bnds', c, lp.f['ncols'])
        if t != FR:
            raise Unsupported('bounded column')
        I.ctx.put(lp, 'ctype', Upd(lp.f['ctype'], (sub(c, 1),), lambda i: FR))
        lp_touch(I, lp)

    def c_swiglpk_glp_set_obj_coef(self, I, a, kw):
        lp, c, v = a
        I.ctx.oblige(f'{I.where()}: glp_set_obj_coef: index in range', And(le(0, c), le(c, lp.f['ncols'])))
        I.ctx.put(lp, 'obj', Upd(lp.f['obj'], (sub(c, 1),), lambda i: rl(v)))
        lp_touch(I, lp)

    def c_swiglpk_glp_get_obj_coef(self, I, a, kw):
        return a[0].f['obj'](sub(a[1], 1))

    def c_swiglpk_glp_get_row_type(self, I, a, kw):
        self.inrange(I, 'glp_get_row_type', a[1], a[0].f['nrows'])
        return a[0].f['rtype'](sub(a[1], 1))

    def row_bnd(self, I, lp, r, which):
        'lower bound of a row without lower bound is -DBL_MAX (and vice versa)'
        t = lp.f['rtype'](sub(r, 1))
        ok = Or(eq(t, DB), eq(t, FX), eq(t, LO if which == 'rlb' else UP))
        v = lp.f[which](sub(r, 1))
        big = z3.Real('DBL_MAX')
        I.ctx.fact(big > 10 ** 300)
        return ite(ok, lambda: v, lambda: big if which == 'rub' else py(-big))

    def c_swiglpk_glp_get_row_ub(self, I, a, kw):
        self.inrange(I, 'glp_get_row_ub', a[1], a[0].f['nrows'])
        return self.row_bnd(I, a[0], a[1], 'rub')

    def c_swiglpk_glp_get_row_lb(self, I, a, kw):
        self.inrange(I, 'glp_get_row_lb', a[1], a[0].f['nrows'])
        return self.row_bnd(I, a[0], a[1], 'rlb')

    def set_vec(self, I, a, isrow):
        lp, r, n, inds, vals = a
        what = 'glp_set_mat_row' if isrow else 'glp_set_mat_col'
        where = I.where()
        self.inrange(I, what, r, lp.f['nrows' if isrow else 'ncols'])
        if not isinstance(inds, Swig) or not isinstance(vals, Swig):
            raise Unsupported(what)
        ni, nv = count(inds.items), count(vals.items)
        if ni is None or nv is None:
            raise Unsupported(what + ': array of unknown length')
        I.ctx.oblige(f'{where}: {what}: length of the index array', eq(ni, n))
        I.ctx.oblige(f'{where}: {what}: length of the value array', eq(nv, n))
        pairs = pair_items(I, inds.items, vals.items)
        parts = row_parts(I, pairs)
        lim = lp.f['ncols' if isrow else 'nrows']
        c1 = z3.FreshInt('col')
        for i, p in enumerate(parts):
            f = p.foot(c1)
            I.ctx.oblige(f'{where}: {what}: indices in range', Implies(f, And(le(1, c1), le(c1, lim))))
            for q in parts[i + 1:]:
                I.ctx.oblige(f'{where}: {what}: indices all different', Not(And(f, q.foot(c1))))
        r0 = sub(r, 1)
        if isrow:
            u = Upd(lp.f['A'], (r0, None), lambda i, c: row_value(I, parts, add(c, 1)))
        else:
            u = Upd(lp.f['A'], (None, r0), lambda i, c: row_value(I, parts, add(i, 1)))
        I.ctx.put(lp, 'A', u)
        lp_touch(I, lp)

    def c_swiglpk_glp_set_mat_row(self, I, a, kw):
        self.set_vec(I, a, True)

    def c_swiglpk_glp_set_mat_col(self, I, a, kw):
        self.set_vec(I, a, False)

    def c_swiglpk_as_intArray(self, I, a, kw):
        return Swig([x for x in items_of(a[0]) if x[0] != 'mark'])

    c_swiglpk_as_doubleArray = c_swiglpk_as_intArray

    def c_swiglpk_glp_std_basis(self, I, a, kw):
        I.ctx.put(a[0], 'state', 'reset')

    c_swiglpk_glp_cpx_basis = c_swiglpk_glp_std_basis

    def c_swiglpk_glp_smcp(self, I, a, kw):
        return Record()

    def c_swiglpk_glp_init_smcp(self, I, a, kw):
        return None

    def c_swiglpk_glp_simplex(self, I, a, kw):
        lp = a[0]
        ctx = I.ctx
        note(I, 'glp_simplex: status OPT means an optimal solution of the current problem, NOFEAS (or ENOPFS) that it has none (within minimize with '
             'fail_on_unsat, where the answer is doubted, NOFEAS is believed only after a reset of the basis)')
        trust = True if lp.f['state'] == 'reset' else getattr(ctx, 'believe_nofeas', True)
        rc, st = ctx.fresh('simplex_rc'), ctx.fresh('simplex_status')
        feas, X, err = oracle(I, lp)
        opt = z3.And(rc == 0, st == GLP['GLP_OPT'])
        ctx.fact(z3.Implies(opt, boolz(feas)))
        ctx.fact(z3.Implies(z3.And(boolz(trust), z3.Or(z3.And(rc == 0, st == GLP['GLP_NOFEAS']), rc == GLP['GLP_ENOPFS'])), z3.Not(boolz(feas))))
        definite = z3.Or(rc == GLP['GLP_ENOPFS'], z3.And(rc == 0, z3.Or(st == GLP['GLP_OPT'], st == GLP['GLP_NOFEAS'])))
        ctx.put(lp, 'state', ('solved', rc, st, X, definite))
        return rc

    def solved(self, I, lp, what):
        s = lp.f['state']
        if not (isinstance(s, tuple) and s and s[0] == 'solved'):
            I.ctx.oblige(f'{I.where()}: {what}: the problem was solved since the last change', False)
            raise Unsupported(what + ' without a solution')
        return s

    def c_swiglpk_glp_get_status(self, I, a, kw):
        return self.solved(I, a[0], 'glp_get_status')[2]

    def c_swiglpk_glp_get_col_prim(self, I, a, kw):
        s = self.solved(I, a[0], 'glp_get_col_prim')
        self.inrange(I, 'glp_get_col_prim', a[1], a[0].f['ncols'])
        I.ctx.oblige(f'{I.where()}: glp_get_col_prim: an optimal solution is available', And(eq(s[1], 0), eq(s[2], GLP['GLP_OPT'])))
        return s[3](sub(a[1], 1))

    def c_swiglpk_glp_get_unbnd_ray(self, I, a, kw):
        return I.ctx.fresh('ray')

    def c_swiglpk_intArray(self, I, a, kw):
        s = Swig(())
        s.scratch = Obj('swigscratch', row=None)
        s.reader = lambda I, ix: self.scratch_read(I, s, ix)
        return s

    c_swiglpk_doubleArray = c_swiglpk_intArray

    def scratch_read(self, I, s, ix):
        row = s.scratch.f['row']
        if not isinstance(row, tuple):
            raise Unsupported('read of an uninitialised swig array')
        fn, n = row[1], row[2]
        I.ctx.oblige(f'{I.where()}: swig array index', And(le(1, ix), le(ix, n)))
        return fn(ix)

    def c_swiglpk_glp_get_mat_row(self, I, a, kw):
        '''n = number of entries; (inds[p], vals[p]) p = 1..n are the entries of the row, each nonzero column once'''
        lp, r, inds, vals = a
        self.inrange(I, 'glp_get_mat_row', r, lp.f['nrows'])
        ctx = I.ctx
        A, nc = lp.f['A'], lp.f['ncols']
        ks = [fr.k for fr in ctx.frames if fr.k is not None]
        ctx.uid += 1
        IS, RS = z3.IntSort(), z3.RealSort()
        nm = ctx.uid
        sg = [IS] * len(ks)
        mi = z3.Function(f'matind!{nm}', *sg, IS, IS)
        pos = z3.Function(f'matpos!{nm}', *sg, IS, IS)
        n = ctx.fresh('matlen')
        r0 = sub(r, 1)
        MI = lambda p: mi(*ks, num(p))
        PO = lambda c: pos(*ks, num(c))
        val = lambda p: A(r0, sub(MI(p), 1))
        p, c = z3.Ints(f'gp!{nm} gc!{nm}')
        I.matrows = getattr(I, 'matrows', {})
        I.matrows[n.decl().name()] = (lp, A, r, ks)
        ctx.fact(z3.And(n >= 0, n <= num(nc)))
        ctx.fact(z3.ForAll([p], z3.Implies(z3.And(1 <= p, p <= n), z3.And(1 <= MI(p), MI(p) <= num(nc), PO(MI(p)) == p)), patterns=[MI(p)]))
        ac = A(r0, sub(c, 1))
        ctx.fact(z3.ForAll([c], z3.Implies(z3.And(1 <= c, c <= num(nc), real(ac) != 0), z3.And(1 <= PO(c), PO(c) <= n, MI(PO(c)) == c)), patterns=[PO(c)]))
        INVERSES[mi.name()] = pos
        note(I, 'glp_get_mat_row returns every nonzero entry of the row exactly once')
        if getattr(inds, 'scratch', None) is None or getattr(vals, 'scratch', None) is None:
            raise Unsupported('glp_get_mat_row')
        ctx.put(inds.scratch, 'row', ('row', MI, n))
        ctx.put(vals.scratch, 'row', ('row', val, n))
        return n


class Struct:
    'model-specific object'


class Record(Struct):
    'a C struct whose fields may be written and read'
    def __init__(self):
        self.f = {}

    def get(self, n):
        return self.f.get(n, 0)

    def set(self, I, n, v):
        if I.ctx.frames:
            raise Unsupported('struct changed in a loop')
        self.f[n] = v


def oracle(I, lp):
    '''what the solver answers for the content of lp: (has a solution, optimum by column, solver failure)

    A function of the content (constraints and objective) only; contents that are provably equal share it.
    '''
    ctx, prog = I.ctx, I.prog
    r, c = z3.Int('oc_r'), z3.Int('oc_c')
    f = lp.f

    def rhs(x):
        return ite(eq(f['rtype'](x), LO), lambda: f['rlb'](x), lambda: f['rub'](x))
    parts = [num(f['nrows']), num(f['ncols']), real(f['A'](r, c)), num(f['rtype'](r)), real(rhs(r)), real(f['obj'](c))]
    parts = [z3.simplify(p) for p in parts]
    consts, seen = [], set()

    def walk(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            raise Unsupported('quantifier in the content of a problem')
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and not e.eq(r) and not e.eq(c):
            consts.append(e)
        for x in e.children():
            walk(x)
    for p in parts:
        walk(p)
    ph = [z3.Const(f'ph{i}_{x.sort()}', x.sort()) for i, x in enumerate(consts)]
    key = 'LP:' + '|'.join(z3.simplify(z3.substitute(p, *zip(consts, ph)) if ph else p).sexpr() for p in parts)
    cache = prog.binders
    if not ctx.frames:
        rin, cin = z3.And(0 <= r, r < parts[0]), z3.And(0 <= c, c < parts[1])
        for q, res in ctx.cache.get('oracles', []):
            same = z3.And(parts[0] == q[0], parts[1] == q[1], z3.Implies(z3.And(rin, cin), parts[2] == q[2]),
                          z3.Implies(rin, z3.And(parts[3] == q[3], parts[4] == q[4])), z3.Implies(cin, parts[5] == q[5]))
            if ctx.check(z3.Not(same)) == z3.unsat or ctx.check(z3.Not(same), quant=True) == z3.unsat:
                return res
    if key not in cache:
        n = sum(1 for k in cache if k.startswith('LP:'))
        so = [x.sort() for x in consts]
        cache[key] = (z3.Function(f'OPTFEAS{n}', *so, z3.BoolSort()), z3.Function(f'OPTX{n}', *so, z3.IntSort(), z3.RealSort()), z3.Function(f'OPTERR{n}', *so, z3.BoolSort()))
    F, X, E = cache[key]
    res = (F(*consts), (lambda j: X(*consts, num(j))), E(*consts))
    if not ctx.frames:
        ctx.cache.setdefault('oracles', []).append((parts, res))
    return res


def sid(prog, s):
    'a term standing for a string: equal terms mean equal strings'
    if isinstance(s, str):
        return prog.intern(s)
    parts = list(s.parts)
    if len(parts) == 1 and isinstance(parts[0], tuple) and parts[0][0] == 'ite':
        _, c, a, b = parts[0]
        return z3.If(c, sid(prog, a), sid(prog, b))
    if len(parts) == 1 and isinstance(parts[0], tuple) and parts[0][0] == 'sym':
        return parts[0][1]
    r = prog.intern('')
    cat = z3.Function('STRCAT', z3.IntSort(), z3.IntSort(), z3.IntSort())
    fmt = z3.Function('STRNUM', z3.IntSort(), z3.IntSort())
    for p in parts:
        if isinstance(p, str):
            if p == '?':
                prog.nonce += 1
                t = z3.Int(f'str?{prog.nonce}')
            else:
                t = prog.intern(p)
        elif isinstance(p, (SStr,)):
            t = sid(prog, p)
        elif isinstance(p, tuple):
            t = sid(prog, SStr([p]))
        elif isnum(p) and z3.is_int(num(p)):
            t = fmt(num(p))
        else:
            prog.nonce += 1
            t = z3.Int(f'str?{prog.nonce}')
        r = cat(r, t)
    return r


# ------------------------------------------------------------------ the world: what callees may read and change
SCRATCH = ('max_steps_remaining',)       # not part of the state as long as no code reads it


def token(I, v):
    'an integer / real / boolean term identifying a value that is passed to a callee'
    if v is None:
        return z3.IntVal(-1)
    if isinstance(v, Ref):
        return num(v.oid)
    if isbool(v):
        return boolz(v)
    if isnum(v):
        return num(v)
    if isinstance(v, (str, SStr)):
        return num(sid(I.prog, v))
    if isinstance(v, Inf):
        return z3.IntVal(-99 * v.sign)
    if isinstance(v, Opaque):
        return num(I.prog.intern('opaque ' + v.name))
    if isinstance(v, tuple):
        v = PList(items=[('one', x) for x in v])
    if isinstance(v, PList):
        if '#tok' in v.f:
            return num(v.f['#tok'])
        if I.world is not None and v.f['v'][0] == 'items' and any(i[0] == 'base' for i in v.f['v'][1]):
            raise NeedLength(v, '#tok')
        return list_token(I, items_of(v))
    if isinstance(v, Obj) and '_token' in v.f:
        return num(v.f['_token'])
    if isinstance(v, WDict):
        return hcons(hcons(z3.IntVal(-10), num(I.prog.intern('dict ' + v.name))), num(v.oid))
    if isinstance(v, WList):
        return hcons(hcons(z3.IntVal(-8), num(I.prog.intern(f'list {v.cls}.{v.n}'))), num(v.oid))
    if isinstance(v, Obj):
        # the fields the callee may read
        return list_token(I, [('one', v.cls)] + [('one', v.f[n]) for n in sorted(v.f) if n not in SCRATCH or not I.prog.only_written(n)])
    if isinstance(v, Csr) and v.raw is not None and 'token' in v.raw:
        return v.raw['token']
    raise Unsupported('an argument of a callee that has no identity: ' + type(v).__name__)


def hcons(h, t):
    return z3.Function(f'HCONS_{t.sort()}', z3.IntSort(), t.sort(), z3.IntSort())(h, t)


def list_token(I, items, h=None):
    'a term standing for a list: equal lists have equal terms'
    h = z3.IntVal(-7) if h is None else h
    for it in items:
        if it[0] == 'one':
            h = hcons(h, token(I, it[1]))
        elif it[0] == 'if':
            for x in it[2]:
                if x[0] != 'one':
                    raise Unsupported('identity of a nested list')
            h2 = h
            for x in it[2]:
                h2 = hcons(h2, token(I, x[1]))
            h = z3.If(boolz(it[1]), h2, h)
        elif it[0] == 'loop':
            h = num(I.ctx.fold_items(it, h, lambda acc, v: hcons(num(acc), token(I, v)), 'Int', tag='token'))
        elif it[0] == 'base':
            raise Unsupported('identity of a list that the loop extends')
    return h


def event(I, name, *args):
    'a callee changes the world'
    ts = [token(I, a) for a in args]
    w = I.world.f['w']
    f = z3.Function('EV_' + name, z3.IntSort(), *[t.sort() for t in ts], z3.IntSort())
    I.ctx.put(I.world, 'w', f(num(w), *ts))


def answer(I, name, sort, *args):
    'what a callee returns: any value, the same in the same state of the world for the same arguments'
    ts = [token(I, a) for a in args]
    s = {'Int': z3.IntSort(), 'Real': z3.RealSort(), 'Bool': z3.BoolSort()}[sort]
    return z3.Function('ANS_' + name, z3.IntSort(), *[t.sort() for t in ts], s)(num(I.world.f['w']), *ts)


def world_field(I, cls, n, kind, oid):
    ctx = I.ctx
    args = [num(oid)]
    if kind[0] == '~':
        kind = kind[1:]
        args.append(num(I.world.f['w']))
    I_, R_, B_ = z3.IntSort(), z3.RealSort(), z3.BoolSort()
    fn = lambda sort, suffix='', extra=(): z3.Function(f'{cls}.{n}{suffix}', *[I_] * (len(args) + len(extra)), sort)(*args, *[num(e) for e in extra])
    if kind == 'int':
        return fn(I_)
    if kind == 'nat':
        ctx.fact(fn(I_) >= 0)
        return fn(I_)
    if kind == 'bool':
        return fn(B_)
    if kind == 'real':
        return fn(R_)
    if kind == 'str':
        return SStr([('sym', fn(I_))])
    if kind == 'pair':
        l = PList(items=[('one', fn(I_, '.lo')), ('one', fn(I_, '.hi'))])
        l.frozen = True
        return l
    k, _, c = kind.partition(':')
    if k == 'ref':
        return Ref(c, fn(I_))
    if k == 'opt':
        return Ref(c, fn(I_), True)
    if k == 'list':
        m = fn(I_, '.len')
        ctx.fact(m >= 0)
        l = PList(arr=(m, lambda i: Ref(c, fn(I_, '.at', (i,)))))
        l.frozen = True
        return l
    if k in ('ints', 'reals'):
        m = fn(I_, '.len')
        ctx.fact(m >= 0)
        l = PList(arr=(m, lambda i: fn(I_ if k == 'ints' else R_, '.at', (i,))))
        l.frozen = True
        return l
    if k == 'slots':
        return Slots(f'{cls}.{n}', c, oid)
    if k == 'nelist':
        m = fn(I_, '.len')
        ctx.fact(m >= 1)
        l = PList(arr=(m, lambda i: Ref(c, fn(I_, '.at', (i,)))))
        l.frozen = True
        return l
    if k == 'wlist':
        return WList(cls, n, c, oid, I)
    raise Unsupported('attribute kind ' + kind)


class WList(Struct):
    '''a list attribute of an object known by identity that callees (and the code) may change: its contents are a function of the
    world, read at the time of use; a change is an event.  (A loop over it runs over its contents when the loop starts: the code
    and its callees do not change a list that is being iterated - the code itself is checked, callees are assumed.)'''
    def __init__(self, cls, n, elem, oid, I):
        self.cls, self.n, self.elem, self.oid, self.I = cls, n, elem, oid, I

    def now(self, I):
        if I.world is None:
            raise Unsupported('list of the world outside a world contract')
        return world_field(I, self.cls, self.n, '~list:' + self.elem, self.oid)

    def getitem(self, I, ix):
        return I.models.getitem(I, self.now(I), ix)

    def setitem(self, I, ix, v):
        self.change(I, 'setitem', ix, v)

    def contains(self, I, v):
        return I.models.contains(I, v, self.now(I))

    def change(self, I, what, *args):
        if (self.cls, self.n) in I.iterating:
            if I.iterating.count((self.cls, self.n)) > 1:
                raise Unsupported('a list is changed while it is iterated')
            I.changed.add((self.cls, self.n))
        r = None
        if what in ('pop', 'popleft'):
            r = unpack_ref(I, self.elem, answer(I, f'{what} {self.cls}.{self.n}', 'Int', Ref('', self.oid), *args))
        event(I, f'{what} {self.cls}.{self.n}', Ref('', self.oid), *args)
        return r


class NameSet(Struct):
    'a collection of which only membership is observed'
    def __init__(self, name):
        self.name = name

    def contains(self, I, v):
        return z3.Function(f'in {self.name}', z3.IntSort(), z3.BoolSort())(token(I, v))


class WDict(Struct):
    'a dictionary attribute of an object known by identity, from keys to lists'
    def __init__(self, name, elem, oid, I, entry=None):
        self.name, self.elem, self.oid, self.I, self.entry = name, elem, oid, I, entry

    def at(self, I, k):
        return WList(self.name, 'at', self.elem, hcons(hcons(z3.IntVal(-9), num(self.oid)), token(I, k)), I)

    def contains(self, I, k):
        return answer(I, 'in ' + self.name, 'Bool', Ref('', self.oid), k)

    def getitem(self, I, k):
        I.ctx.oblige(f'{I.where()}: the key is present', self.contains(I, k))
        return self.at(I, k)

    def setitem(self, I, k, v):
        if not isinstance(v, PList) or v.frozen or v.f.get('escaped') is not None or '#n' in v.f:
            raise Unsupported('dictionary value')
        event(I, 'set ' + self.name, Ref('', self.oid), k, v)
        I.ctx.fact(self.contains(I, k))
        v.f['escaped'] = self.at(I, k)      # the same list from now on
        I.ctx.put(v, 'v', ('items', (('base', Poison('a list stored in a dictionary')),)))

    def get(self, n):
        if n == 'items':
            return Builtin(n, lambda I, a, k: WList(self.name, 'entries', self.entry, self.oid, I))
        raise Unsupported('dictionary method ' + n)


def unpack_ref(I, elem, oid):
    return Ref(elem, oid)


class NTClass:
    'a named tuple class'
    def __init__(self, name, fields):
        self.name, self.fields = name, fields

    def make(self, I, args, kw):
        vals = list(args) + [kw[f] for f in self.fields[len(args):]]
        if len(vals) != len(self.fields):
            raise Unsupported('arguments of ' + self.name)
        sch = I.prog.schema.get(self.name)
        if sch is None:
            return Obj(self.name, _nt=tuple(self.fields), **dict(zip(self.fields, vals)))
        # an immutable value known by its contents
        h = z3.IntVal(-11 - len(self.fields))
        for v in [self.name] + vals:
            h = hcons(h, token(I, v))
        cls = sch.get('__as__', self.name)
        kinds = I.prog.schema[cls].get('__kinds__')
        if kinds is not None:
            I.ctx.fact(z3.Function(f'{cls}.kind', z3.IntSort(), z3.IntSort())(h) == kinds[self.name])
        I.ctx.fact(h != -1)
        for f, v in zip(self.fields, vals):
            if f in I.prog.schema[cls] and I.prog.schema[cls][f][0] != '~':
                t = token(I, v)
                fn = z3.Function(f'{cls}.{f}', z3.IntSort(), t.sort())
                I.ctx.fact(fn(h) == t)
        return Ref(cls, h)


class Slots(Struct):
    'a list attribute of an object known by identity whose elements are read and written in place'
    def __init__(self, name, cls, oid):
        self.name, self.cls, self.oid = name, cls, oid

    def getitem(self, I, ix):
        return Ref(self.cls, answer(I, 'slot ' + self.name, 'Int', Ref('', self.oid), ix), True)

    def setitem(self, I, ix, v):
        event(I, 'set slot ' + self.name, Ref('', self.oid), ix, v)


Models.NTClass = NTClass
