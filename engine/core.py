'''pyded core: values, path exploration, obligations.

pyded is a deductive verifier for the real Python source in /repo/hylaa.  It parses the files on every run, executes
each function under contract symbolically for ALL inputs (sizes, indices and contents stay symbolic), summarises loops
exactly (no unrolling of symbolic loops), replaces calls of other functions under contract by their contracts, and turns
every postcondition, callee precondition and internal safety condition into an obligation for z3 / cvc5.
Anything it cannot treat exactly raises Unsupported: the function is then undecided, never proved.
'''
import hashlib, time
from fractions import Fraction
import z3


# accessors without the check of the error code after every call (their arguments are well-formed terms)
for _n in ('Z3_get_ast_id', 'Z3_get_ast_kind', 'Z3_get_app_decl', 'Z3_get_app_num_args', 'Z3_get_app_arg', 'Z3_get_decl_kind', 'Z3_is_eq_ast', 'Z3_to_app', 'Z3_get_sort', 'Z3_get_sort_kind',
           'Z3_app_to_ast', 'Z3_func_decl_to_ast', 'Z3_sort_to_ast', 'Z3_inc_ref', 'Z3_dec_ref', 'Z3_is_app'):
    _f = getattr(z3.z3, _n, None)
    if _f is not None and _f.__defaults__:
        setattr(z3.z3, _n, _f.__defaults__[0].f)
FRESH = [0]


def fresh_const(sort, prefix):
    """a constant with a name of its own on this path; the same names in the same order on every path, so that equal terms of
    different paths are one term"""
    FRESH[0] += 1
    return z3.Const(f'{prefix}!{FRESH[0]}', sort)


z3.FreshInt = lambda prefix='x': fresh_const(z3.IntSort(), prefix)
z3.FreshReal = lambda prefix='b': fresh_const(z3.RealSort(), prefix)
z3.FreshBool = lambda prefix='b': fresh_const(z3.BoolSort(), prefix)


class Unsupported(Exception):
    pass


class PyRaise(Exception):
    'the interpreted program raised'
    def __init__(self, kind, msg=''):
        Exception.__init__(self, f'{kind}: {msg}')
        self.kind = kind


class NeedBranch(Exception):
    pass


class Infeasible(Exception):
    'the current path cannot happen'


# ------------------------------------------------------------------ z3 helpers

def isz(x):
    return isinstance(x, z3.ExprRef)


def isnum(x):
    return (isinstance(x, (int, Fraction)) and not isinstance(x, bool)) or (isz(x) and z3.is_arith(x))


def isbool(x):
    return isinstance(x, bool) or (isz(x) and z3.is_bool(x))


def num(x):
    'python number or z3 arith -> z3 arith'
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isz(x) and z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    if isz(x):
        return x
    raise Unsupported(f'not a number: {type(x).__name__}')


def real(x):
    x = num(x)
    return z3.ToReal(x) if z3.is_int(x) else x


def boolz(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def same_sort(a, b):
    a, b = num(a), num(b)
    if z3.is_int(a) and z3.is_int(b):
        return a, b
    return real(a), real(b)


def S(x):
    return z3.simplify(x) if isz(x) else x


def py(x):
    'simplify and turn numerals into python numbers'
    if isz(x):
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return Fraction(x.numerator_as_long(), x.denominator_as_long())
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


def add(a, b):
    if not isz(a) and not isz(b):
        return a + b
    a, b = same_sort(a, b)
    return py(a + b)


def sub(a, b):
    if not isz(a) and not isz(b):
        return a - b
    a, b = same_sort(a, b)
    return py(a - b)


def mul(a, b):
    if not isz(a) and not isz(b):
        return a * b
    a, b = same_sort(a, b)
    return py(a * b)


def eq(a, b):
    'equality of plain values as a python bool or z3 bool'
    if isbool(a) and isbool(b):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return py(boolz(a) == boolz(b))
    if isnum(a) and isnum(b) or (isnum(a) and isbool(b)) or (isbool(a) and isnum(b)):
        if not isz(a) and not isz(b):
            return a == b
        x, y = same_sort(a, b)
        return py(x == y)
    raise Unsupported(f'comparison of {type(a).__name__} and {type(b).__name__}')


def cmp(op, a, b):
    if not isz(a) and not isz(b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    a, b = same_sort(a, b)
    return py({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op])


def le(a, b):
    return cmp('<=', a, b)


def lt(a, b):
    return cmp('<', a, b)


def And(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def Or(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def Not(x):
    return (not x) if isinstance(x, bool) else py(z3.Not(x))


def Implies(a, b):
    return Or(Not(a), b)


def mentions(e, syms):
    'does the expression contain one of the constants (z3 ids)?'
    if not isz(e):
        return False
    ids = {s.get_id() for s in syms}
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in ids:
            return True
        st.extend(kids(x))
    return False


KIDS = {}       # AST id -> (term kept alive, its children, is a quantifier)


def kids(e):
    'arguments of an application, body of a quantifier'
    i = e.get_id()
    r = KIDS.get(i)
    if r is None:
        if len(KIDS) > 600000:
            KIDS.clear()
        q = isinstance(e, z3.QuantifierRef)
        r = KIDS[i] = (e, [e.body()] if q else e.children(), q)
    return r[1]


def quantified(h):
    'has_quant, remembered at the object'
    try:
        return h._quantified
    except AttributeError:
        r = has_quant(h)
        if z3.is_expr(h):
            h._quantified = r
        return r


def ast_id(h):
    try:
        return h._id
    except AttributeError:
        h._id = h.get_id()
        return h._id


QUANT = {}      # AST id -> (term kept alive, contains a quantifier)


def has_quant(e):
    if not z3.is_expr(e):
        return False
    r = QUANT.get(e.get_id())
    if r is not None:
        return r[1]
    if len(QUANT) > 400000:
        QUANT.clear()
    seen, st = {}, [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        r = QUANT.get(i)
        if r is not None and not r[1]:
            continue
        if r is not None or isinstance(x, z3.QuantifierRef):
            QUANT[i] = (x, True)
            QUANT[e.get_id()] = (e, True)
            return True
        seen[i] = x
        st.extend(kids(x))
    for i, x in seen.items():
        QUANT[i] = (x, False)
    return False


# ------------------------------------------------------------------ values

class Inf:
    def __init__(self, sign):
        self.sign = sign

    def __eq__(self, o):
        return isinstance(o, Inf) and o.sign == self.sign

    def __hash__(self):
        return hash(('Inf', self.sign))


class SStr:
    'a string built from literal parts and values'
    def __init__(self, parts):
        self.parts = tuple(parts)


SERIAL = [0]


class Heap:
    'mutable object; fields live in f and are changed through Ctx.put only'
    def __init__(self, **f):
        self.f = dict(f)
        self.frozen = False
        SERIAL[0] += 1
        self.sid = SERIAL[0]


class PList(Heap):
    '''a python list. v is ('items', tuple of items) or ('arr', length, fn).
    items: ('one', value) ('loop', k, lo, hi, items) ('if', cond, items) ('mark', token)
    '''
    def __init__(self, items=(), arr=None):
        Heap.__init__(self, v=('arr',) + tuple(arr) if arr is not None else ('items', tuple(items)))


class PDict(Heap):
    '''a python dict: entries written since the start, newest last, over a base map (None: empty).
    v: tuple of (key, value), value Missing for a removed key; base: object with has(key), get(key), size
    '''
    def __init__(self, v=(), base=None):
        Heap.__init__(self, v=tuple(v), n=len(tuple(v)) if base is None else base.size, base=base)


class KeyList(PList):
    '''a dictionary used as a set of keys: the sequence of its insertions (an element may occur several times: a loop over it must
    have no effect but to end early)'''


class MapLog(PList):
    'a dictionary with any number of entries: the sequence of its insertions; it is only looked up and written'
    kind, opt = None, False      # class of the values (objects known by identity)


class NArr(Heap):
    'a numpy array: shape tuple, fn(*indices)'
    def __init__(self, shape, fn, dtype='float'):
        Heap.__init__(self, shape=tuple(shape), fn=fn, dtype=dtype)
        self.src = None


class Obj(Heap):
    def __init__(self, cls, **f):
        Heap.__init__(self, **f)
        self.cls = cls    # name of the class ('LpInstance')


class LP(Heap):
    'ghost state of a GLPK problem object (0-based)'


class NeedLength(Exception):
    'the length of a list that a loop extends is used in the loop: the loop is explored again with the length as a location of its own'
    def __init__(self, l, what='#n'):
        self.l, self.what = l, what


class Opaque:
    'a value the contracts say nothing about'
    def __init__(self, name):
        self.name = name


class Ref:
    '''an object of the given class known by its identity alone (an integer; -1: None, where opt).

    Its attributes are functions of the identity (and of the state of the world where they can change).
    '''
    def __init__(self, cls, oid, opt=False):
        self.cls, self.oid, self.opt = cls, oid, opt


def ref_or_none(v):
    return v is None or isinstance(v, Ref)


def oid_of(v):
    return -1 if v is None else v.oid


class Csr:
    'sparse matrix value: shape, entry(r, c); raw access functions if it is an input'
    def __init__(self, kind, shape, entry, raw=None):
        self.kind, self.shape, self.entry, self.raw = kind, tuple(shape), entry, raw
        SERIAL[0] += 1
        self.sid = SERIAL[0]


class Swig:
    'glpk int/double array made from a list (element i of the list is index i+1), or scratch space'
    def __init__(self, items):
        self.items = items


class Poison:
    'content of a container that the current loop modifies'
    def __init__(self, what):
        self.what = what

    def __call__(self, *a):
        raise Unsupported('read of loop-modified state: ' + self.what)


class OwnPoison(Poison):
    '''content of a container that the loop over k modifies; if all its writes in iteration k are to element k (checked when
    the loop is composed), element k still has its initial value at the start of iteration k'''
    def __init__(self, what, init, k):
        self.what, self.init, self.k, self.used = what, init, k, False

    def __call__(self, *a):
        if len(a) >= 1 and isz(a[0]) and a[0].eq(self.k):
            self.used = True
            return self.init(*a)
        raise Unsupported('read of loop-modified state: ' + self.what)


# closures with updates ------------------------------------------------------

class Upd:
    'base with the elements matching idx (None = any) replaced by val(*args) if cond'
    def __init__(self, base, idx, val, cond=True):
        self.base, self.idx, self.v, self.cond = base, tuple(idx), val, cond

    def test(self, args):
        return And(self.cond, *[eq(a, i) for a, i in zip(args, self.idx) if i is not None])

    def val(self, args):
        return self.v(*args)

    def rebase(self, base):
        return Upd(base, self.idx, self.v, self.cond)

    def __call__(self, *args):
        return ite(self.test(args), lambda: self.val(args), lambda: self.base(*args))


class RangeUpd:
    'base with the elements where t(*args) holds replaced by v(*args); idx: components fixed by the update'
    def __init__(self, base, t, v, idx):
        self.base, self.t, self.v, self.idx = base, t, v, tuple(idx)

    def test(self, args):
        return py(self.t(*args))

    def val(self, args):
        return self.v(*args)

    def rebase(self, base):
        return RangeUpd(base, self.t, self.v, self.idx)

    def __call__(self, *args):
        return ite(self.test(args), lambda: self.val(args), lambda: self.base(*args))


def slope(e, k):
    'e as an affine function of the integer constant k: (slope, intercept expression) or None'
    if not isz(e) or not mentions(e, [k]):
        return 0, e
    s = py(z3.substitute(num(e), (k, k + 1)) - num(e))
    if not isinstance(s, int):
        return None
    return s, py(z3.substitute(num(e), (k, z3.IntVal(0))))


INVERSES = {}     # name of an injective function of the loop index -> (function, inverse)


def injection(i, k):
    '''i = f(k) + c for a registered injective f: (f, inverse, c)'''
    st, found = [num(i)], None
    while st:
        x = st.pop()
        if z3.is_app(x) and x.decl().name() in INVERSES and x.num_args() >= 1 and x.arg(x.num_args() - 1).eq(k):
            found = x
            break
        st.extend(x.children())
    if found is None:
        return None
    c = py(num(i) - found)
    if mentions(c, [k]):
        return None
    pre = [found.arg(j) for j in range(found.num_args() - 1)]
    inv = INVERSES[found.decl().name()]
    return (lambda x: found.decl()(*pre, num(x))), (lambda d: inv(*pre, num(d))), c


class LoopUpd:
    'for k in [lo, hi): the update u (whose index, test and value depend on k)'
    def __init__(self, base, k, lo, hi, u, sub=None, cond=True):
        self.base, self.k, self.lo, self.hi, self.u, self.cond = base, k, lo, hi, u, cond
        self.sub = sub or (lambda x: x)
        ix = [None if i is None else py(self.sub(i)) for i in u.idx]
        self.j = None
        for j, i in enumerate(ix):
            if i is None:
                continue
            sl = slope(i, k)
            if sl is not None and sl[0] != 0:
                self.j, self.s, self.a = j, sl[0], sl[1]
                break
        self.inv = None
        if self.j is None:
            for j, i in enumerate(ix):
                r = None if i is None else injection(i, k)
                if r is not None:
                    self.j, self.s, self.a, self.inv = j, 1, r[2], r
                    break
        if self.j is None:
            if any(i is not None and mentions(i, [k]) for i in ix):
                raise Unsupported('loop writes at a position that is not affine in the loop index')
            if isinstance(u, LoopUpd) or isz(cond):
                raise Unsupported('loop writes at one position')
        self.idx = tuple(None if i is None or mentions(i, [k]) else i for i in ix)

    def test(self, args):
        t = And(self.cond, self.sub(self.u.test(args)))
        if self.j is None:
            return And(lt(self.lo, self.hi), subst(t, self.k, sub(self.hi, 1)))
        d = sub(args[self.j], self.a)
        c = True
        if self.inv is not None:
            kk = py(self.inv[1](num(d)))
            c = eq(self.inv[0](kk), d)
        elif self.s == 1:
            kk = d
        elif self.s == -1:
            kk = mul(-1, d)
        else:
            kk = py(num(d) / z3.IntVal(self.s)) if isz(d) else d // self.s
            c = py(num(d) % z3.IntVal(abs(self.s)) == 0) if isz(d) else d % self.s == 0
        return py(And(c, le(self.lo, kk), lt(kk, self.hi), subst(t, self.k, kk)))

    def kk(self, args):
        if self.j is None:
            return sub(self.hi, 1)
        d = sub(args[self.j], self.a)
        if self.inv is not None:
            return py(self.inv[1](num(d)))
        if self.s in (1, -1):
            return mul(self.s, d)
        return py(num(d) / z3.IntVal(self.s)) if isz(d) else d // self.s

    def val(self, args):
        return subst(self.sub(self.u.val(args)), self.k, self.kk(args))

    def rebase(self, base):
        r = LoopUpd.__new__(LoopUpd)
        r.__dict__.update(self.__dict__)
        r.base = base
        return r

    def __call__(self, *args):
        return ite(self.test(args), lambda: self.val(args), lambda: self.base(*args))


def ite(c, a, b):
    'a, b: thunks'
    c = py(c)
    if c is True:
        return a()
    if c is False:
        return b()
    return ite_v(c, a(), b())


def ite_v(c, a, b):
    if a is b:
        return a
    if isbool(a) and isbool(b):
        return py(z3.If(c, boolz(a), boolz(b)))
    if (isnum(a) or isbool(a)) and (isnum(b) or isbool(b)):
        x, y = same_sort(a, b)
        return py(z3.If(c, x, y))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite_v(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return SStr([('ite', c, a, b)])
    if isinstance(a, (PList, NArr)) and type(a) is type(b):
        if isinstance(a, PList):
            n1, f1 = arr_of(a)
            n2, f2 = arr_of(b)
            r = PList(arr=(ite_v(c, n1, n2), lambda i: ite_v(c, f1(i), f2(i))))
        else:
            if len(a.f['shape']) != len(b.f['shape']):
                raise Unsupported('conditional array of different dimensions')
            r = NArr(tuple(ite_v(c, x, y) for x, y in zip(a.f['shape'], b.f['shape'])), lambda *i: ite_v(c, a.f['fn'](*i), b.f['fn'](*i)), a.f['dtype'])
        r.frozen = True
        return r
    if isinstance(a, Swig) and isinstance(b, Swig):
        return _swig_ite(c, a, b)
    if a is None and b is None:
        return None
    if ref_or_none(a) and ref_or_none(b) and (a is None or b is None or a.cls == b.cls):
        x = b if a is None else a
        return Ref(x.cls, py(z3.If(boolz(c), num(oid_of(a)), num(oid_of(b)))), a is None or b is None or a.opt or b.opt)
    if isinstance(a, str) and a == b:
        return a
    if isinstance(a, Csr) and isinstance(b, Csr) and a.kind == b.kind:
        return Csr(a.kind, ite_v(c, a.shape, b.shape), lambda r, q: ite_v(c, a.entry(r, q), b.entry(r, q)))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls and set(a.f) == set(b.f):
        r = Obj(a.cls, **{f: ite_v(c, a.f[f], b.f[f]) for f in a.f})
        r.frozen = True
        return r
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.name == b.name:
        return a
    raise Unsupported(f'conditional value of types {type(a).__name__}/{type(b).__name__}')


def _swig_ite(c, a, b):
    return Swig((('if', c, a.items), ('if', Not(c), b.items)))


def subst(v, k, t):
    if v is None or isinstance(v, (bool, int, str, Fraction, Inf)):
        return v
    if isz(v):
        return py(z3.substitute(v, (k, num(t)))) if mentions(v, [k]) else v
    if isinstance(v, tuple):
        return tuple(subst(x, k, t) for x in v)
    if isinstance(v, SStr):
        return SStr(subst(v.parts, k, t))
    if isinstance(v, Ref):
        return Ref(v.cls, subst(v.oid, k, t), v.opt)
    if isinstance(v, Csr):
        r = None if v.raw is None else {q: (lambda f: (lambda *i: subst(f(*i), k, t)) if callable(f) else subst(f, k, t))(f) for q, f in v.raw.items()}
        return Csr(v.kind, subst(v.shape, k, t), lambda r_, c_: subst(v.entry(r_, c_), k, t), r)
    if isinstance(v, Swig):
        return Swig(subst_items(v.items, k, t))
    if isinstance(v, PList):
        x = v.f['v']
        r = PList(items=subst_items(x[1], k, t)) if x[0] == 'items' else PList(arr=(subst(x[1], k, t), lambda *i: subst(x[2](*i), k, t)))
        r.frozen = r.local = True
        return r
    if isinstance(v, NArr):
        r = NArr(subst(v.f['shape'], k, t), (lambda *i: subst(v.f['fn'](*i), k, t)), v.f['dtype'])
        r.frozen = r.local = True
        r.src = v.src
        return r
    if isinstance(v, (Obj, LP)):
        if not getattr(v, 'local', False):
            return v
        r = Obj(v.cls) if isinstance(v, Obj) else LP()
        r.f = {n: subst_field(x, k, t) for n, x in v.f.items()}
        r.frozen = r.local = True
        return r
    return v


def subst_field(x, k, t):
    if callable(x) and not isinstance(x, (Heap, Poison)):
        return lambda *a: subst(x(*a), k, t)
    return subst(x, k, t)


def freeze(v, serial, memo):
    'copy of a value in which objects younger than serial are snapshots'
    if isinstance(v, tuple):
        return tuple(freeze(x, serial, memo) for x in v)
    if isinstance(v, Swig):
        return Swig(freeze(v.items, serial, memo))
    if not isinstance(v, Heap) or v.sid <= serial:
        return v
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, PList):
        r = PList()
    elif isinstance(v, NArr):
        r = NArr((), None, v.f['dtype'])
        r.src = v.src
    elif isinstance(v, Obj):
        r = Obj(v.cls)
    else:
        r = LP()
    memo[id(v)] = r
    memo[('keep', id(v))] = v
    r.f = {n: freeze(x, serial, memo) for n, x in v.f.items()}
    r.frozen = r.local = True
    return r


def deepmap(v, f, memo=None):
    'apply f to every z3 expression in a value (closures are wrapped)'
    if isinstance(v, Poison):
        return v
    if isz(v):
        return f(v)
    if isinstance(v, tuple):
        return tuple(deepmap(x, f) for x in v)
    if isinstance(v, SStr):
        return SStr(deepmap(v.parts, f))
    if isinstance(v, Ref):
        return Ref(v.cls, deepmap(v.oid, f), v.opt)
    if isinstance(v, Swig):
        return Swig(deepmap(v.items, f))
    if isinstance(v, Csr):
        return Csr(v.kind, deepmap(v.shape, f), (lambda r, c: deepmap(v.entry(r, c), f)),
                   None if v.raw is None else {n: deepmap(x, f) for n, x in v.raw.items()})
    if isinstance(v, Heap):
        if not getattr(v, 'local', False):
            return v
        r = PList() if isinstance(v, PList) else NArr((), None, v.f['dtype']) if isinstance(v, NArr) else Obj(v.cls) if isinstance(v, Obj) else LP()
        r.f = {n: deepmap(x, f) for n, x in v.f.items()}
        r.frozen = r.local = True
        return r
    if callable(v) and not isinstance(v, type):
        return lambda *a: deepmap(v(*a), f)
    return v


def subst_items(items, k, t):
    out = []
    for it in items:
        if it[0] == 'one':
            out.append(('one', subst(it[1], k, t)))
        elif it[0] == 'loop':
            out.append(('loop', it[1], subst(it[2], k, t), subst(it[3], k, t), subst_items(it[4], k, t)))
        elif it[0] == 'if':
            out.append(('if', subst(it[1], k, t), subst_items(it[2], k, t)))
        elif it[0] == 'base':
            out.append(it)
        else:
            out.append(('mark', subst(it[1], k, t)))
    return tuple(out)


def rename(items, k, k2):
    return subst_items(items, k, k2)


# lists ----------------------------------------------------------------------

def count(items):
    'number of elements as an expression, or None'
    n = 0
    for it in items:
        if it[0] == 'one':
            n = add(n, 1)
        elif it[0] == 'loop':
            c = count(it[4])
            if c is None or mentions(c, [it[1]]):
                return None
            d = sub(it[3], it[2])
            d = max(d, 0) if isinstance(d, int) else z3.If(num(d) > 0, num(d), z3.IntVal(0))
            n = add(n, mul(d, c))
        elif it[0] == 'base':
            return None
        elif it[0] == 'if':
            c = count(it[2])
            if c is None:
                return None
            n = add(n, c if it[1] is True else py(z3.If(it[1], num(c), z3.IntVal(0))))
    return n


def arr_of(l):
    'list as (length, fn)'
    if isinstance(l, MapLog):
        raise Unsupported('sequence of the entries of a dictionary')
    x = l.f['v']
    if x[0] == 'arr':
        return x[1], x[2]
    items = [i for i in x[1] if i[0] != 'mark']
    n = count(items)
    if n is None:
        raise Unsupported('length of a list with a variable number of elements per iteration')

    def fn(i):
        return item_at(items, i, 0)
    return n, fn


def item_at(items, i, base):
    items = [x for x in items if x[0] != 'mark']
    if not items:
        return Undefined()
    it, rest = items[0], items[1:]
    if it[0] == 'one':
        c = eq(i, base)
        if c is True or not rest:
            return it[1]
        if c is False:
            return item_at(rest, i, add(base, 1))
        r = item_at(rest, i, add(base, 1))
        return it[1] if isinstance(r, Undefined) else ite_v(c, it[1], r)
    n = count([it])
    c = lt(i, add(base, n))
    if it[0] == 'loop':
        per = count(it[4])
        off = sub(i, base)
        if per == 1:
            here = lambda: _pick1(it, off)
        elif isinstance(per, int):
            q = py(num(off) / z3.IntVal(per)) if isz(off) else off // per
            m = py(num(off) % z3.IntVal(per)) if isz(off) else off % per
            here = lambda: subst(item_at(it[4], m, 0), it[1], add(it[2], q))
        else:
            raise Unsupported('element of a list with symbolic-size groups')
    else:
        here = lambda: item_at(it[2], sub(i, base), 0)
    if c is True or not rest:
        return here()
    r = item_at(rest, i, add(base, n))
    if c is False:
        return r
    return here() if isinstance(r, Undefined) else ite_v(c, here(), r)


def _pick1(it, off):
    body = [x for x in it[4] if x[0] != 'mark']
    v = item_at(body, 0, 0) if len(body) == 1 and body[0][0] == 'one' else _alt(body)
    return subst(v, it[1], add(it[2], off))


def _alt(body):
    'one element per iteration, chosen by conditions'
    r = Undefined()
    for x in reversed(body):
        if x[0] == 'one':
            r = x[1]
        elif x[0] == 'if':
            v = _alt(x[2])
            r = v if isinstance(r, Undefined) else ite_v(x[1], v, r)
        elif x[0] == 'loop':
            raise Unsupported('nested list element')
    return r


def repr_items(items):
    def go(v, d=0):
        if isinstance(v, tuple) and len(v) == 5 and isinstance(v[0], str) and v[0] == 'loop' and isz(v[1]):
            c = z3.Int(f'loop#{d}')
            return f'(loop {go(v[2], d)} {go(v[3], d)} ' + ' '.join(go(x, d + 1) for x in subst_items(v[4], v[1], c)) + ')'
        if isz(v):
            return v.sexpr()
        if isinstance(v, tuple):
            return '(' + ' '.join(go(x, d) for x in v) + ')'
        if isinstance(v, Ref):
            return 'ref:' + go(v.oid, d)
        return str(v) if v is None or isinstance(v, (bool, int, str, Fraction)) else f'#{id(v)}'
    return go(tuple(items))


class Undefined:
    'element beyond the end of a list (an in-range obligation is emitted where lists are read)'


def items_of(l):
    x = l.f['v']
    if x[0] == 'items':
        return x[1]
    n, fn = x[1], x[2]
    if isinstance(n, int) and n <= 16:
        return tuple(('one', fn(i)) for i in range(n))
    k = z3.FreshInt('ai')
    return (('loop', k, 0, n, (('one', fn(k)),)),)


# ------------------------------------------------------------------ context

class Frame:
    'one loop body being explored'
    def __init__(self, depth):
        self.depth = depth
        self.syms = []        # loop index and carried symbols
        self.dec = Decider([])
        self.k = None
        self.defs = []        # facts that hold by the definition of a symbol, whatever the path


COMM = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_IFF, z3.Z3_OP_DISTINCT}

ORDER = {z3.Z3_OP_LE: (False, False), z3.Z3_OP_GE: (True, False), z3.Z3_OP_LT: (True, True), z3.Z3_OP_GT: (False, True)}


def parts(e, neg=False):
    'operator, children (with their negations) and sort order of an expression read in negation normal form; And and Or flattened'
    while z3.is_not(e) or (z3.is_and(e) or z3.is_or(e)) and e.num_args() == 1:
        neg = neg != z3.is_not(e)
        e = e.arg(0)
    if z3.is_and(e) or z3.is_or(e):
        conj = z3.is_and(e) != neg
        out, st = [], [(x, neg) for x in e.children()]
        while st:
            x, n = st.pop(0)
            while z3.is_not(x) or (z3.is_and(x) or z3.is_or(x)) and x.num_args() == 1:
                n = n != z3.is_not(x)
                x = x.arg(0)
            if (z3.is_and(x) or z3.is_or(x)) and (z3.is_and(x) != n) == conj:
                st = [(y, n) for y in x.children()] + st
            else:
                out.append((x, n))
        return e, ('and' if conj else 'or'), out, True
    if z3.is_quantifier(e):
        all_ = e.is_forall() != neg
        return e, ('all ' if all_ else 'some ') + ' '.join(str(e.var_sort(i)) for i in range(e.num_vars())), [(e.body(), neg)], False
    if z3.is_var(e):
        return e, ('not ' if neg else '') + f'var{z3.get_var_index(e)}', [], False
    d = e.decl()
    kind, ch = d.kind(), [(x, False) for x in e.children()]
    if kind in ORDER:           # a >= b: b <= a; a < b: not b <= a
        swap, no = ORDER[kind]
        return e, ('not ' if neg != no else '') + f'{z3.Z3_OP_LE} []', ch[::-1] if swap else ch, False
    return e, ('not ' if neg else '') + (d.name() if kind == z3.Z3_OP_UNINTERPRETED else f'{kind}:{e.sexpr()}' if not ch else f'{kind} {d.params()}'), ch, kind in COMM


def chash(e, label, memo, neg=False):
    'hash of an expression up to the order of commutative arguments and negation normal form; label: names of constants'
    key = (e.get_id(), neg)
    if key in memo:
        return memo[key][0]
    x, op, ch, comm = parts(e, neg)
    if x.get_id() in label and not ch:
        t = op.split(' ')[0] + label[x.get_id()] if op.startswith('not ') else label[x.get_id()]
    else:
        hs = [chash(y, label, memo, n) for y, n in ch]
        t = op + '(' + ','.join(sorted(hs) if comm else hs) + ')'
    memo[key] = (hashlib.md5(t.encode()).hexdigest(), e)
    return memo[key][0]


CANON = {}


def canonical(es, own):
    key = (tuple(ast_id(e) for e in es), tuple(ast_id(x) for x in own))
    r = CANON.get(key)
    if r is None:
        if len(CANON) > 20000:
            CANON.clear()
        r = CANON[key] = (list(es), list(own), canonical1(es, own))
    return r[2][0], list(r[2][1])


def canonical1(es, own):
    """hash of the expressions up to the names of bound variables and constants (own: constants to be known by position), and their
    other constants in the order of their places (which does not depend on their names unless the expression is symmetric in them)"""
    label = {x.get_id(): f'#{i}' for i, x in enumerate(own)}
    anon, seen = dict(label), set()
    st = list(es)
    while st:
        e = st.pop()
        if e.get_id() not in seen:
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                anon.setdefault(e.get_id(), f'?{e.sort()}')
            st += kids(e)
    memo0, memo, names, seen, consts = {}, {}, {}, set(), []

    def tie(e):
        if e.get_id() not in names:
            names[e.get_id()] = (sorted((('!' in str(c)), str(c)) for c in free_consts(e)), e)
        return names[e.get_id()][0]

    def order(ch):
        hs = [(chash(y, anon, memo0, n), y, n) for y, n in ch]
        same = {h for h, _, _ in hs if sum(h == g for g, _, _ in hs) > 1}
        return [(y, n) for h, y, n in sorted(hs, key=lambda p: (p[0], tie(p[1]) if p[0] in same else []))]

    def walk(e, neg):
        if (e.get_id(), neg) in seen:
            return
        seen.add((e.get_id(), neg))
        x, op, ch, comm = parts(e, neg)
        if z3.is_const(x) and not ch and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.get_id() not in label and not any(x.eq(y) for y in consts):
            consts.append(x)
        for y, n in order(ch) if comm else ch:
            walk(y, n)
    for e in es:
        walk(e, False)
    label.update({x.get_id(): f'ph{i}:{x.sort()}' for i, x in enumerate(consts)})
    return '|'.join(chash(e, label, memo) for e in es), consts


def free_consts(e):
    out, seen, st = {}, set(), [e]
    while st:
        x = st.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[x.get_id()] = x
            st += kids(x)
    return list(out.values())


def no_max0(n):
    'd for n = max(d, 0)'
    if isz(n) and z3.is_app_of(n, z3.Z3_OP_ITE):
        _, a, b = n.children()
        for d, z in ((a, b), (b, a)):
            if z3.is_int_value(z) and z.as_long() == 0 and z3.simplify(n == z3.If(d > 0, d, z)).eq(z3.BoolVal(True)):
                return d
    return n


class Decider:
    def __init__(self, prefix):
        self.prefix, self.taken = list(prefix), []

    def choose(self, n):
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append((c, n))
        return c

    def next_prefix(self):
        t = list(self.taken)
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return None
        return [c for c, _ in t[:-1]] + [t[-1][0] + 1]


class Obligation:
    __slots__ = ('name', 'hyps', 'goal', 'kind', 'status', 'reason', 'time', 'backend')

    def __init__(self, name, hyps, goal, kind='post'):
        self.name, self.hyps, self.goal, self.kind = name, hyps, goal, kind
        self.status, self.reason, self.time, self.backend = 'unknown', '', 0.0, ''


class Ctx:
    def __init__(self, prog, prefix=(), name=''):
        self.prog, self.name = prog, name
        self.indices = []       # results of list.index
        self.exits = []         # first exits of the loops of this path (interp.known_exit)
        self.lemmas = None      # prove.rec_lemmas
        self.dec = Decider(prefix)
        self.pcs = [[]]           # path conditions per loop depth
        self.facts = [[]]         # axioms per loop depth
        self.frames = []
        self.journal = []
        self.obls = []            # finished obligations
        self.nobranch = 0
        self.uid = 0
        self.tokens = {}          # z3 const id -> (list, snapshot items)
        self.sums = {}
        self.solver_s = 0.0
        self.nchecks = 0
        self.assume_notes = set()
        self.calls = set()
        self.depth = 0
        self.cache, self.keep, self.side = {}, [], 0

    # -- heap
    def put(self, obj, field, value):
        if obj.frozen:
            raise Unsupported('change of an element of a symbolic container')
        self.journal.append((obj, field, obj.f.get(field, Missing)))
        obj.f[field] = value

    def rollback(self, mark):
        while len(self.journal) > mark:
            o, f, v = self.journal.pop()
            if v is Missing:
                o.f.pop(f, None)
            else:
                o.f[f] = v

    # -- names
    def fresh(self, name, sort='Int'):
        self.uid += 1
        base = f'{name}!c{self.uid}'
        ks = [fr.k for fr in self.frames if fr.k is not None]
        srt = {'Int': z3.IntSort(), 'Real': z3.RealSort(), 'Bool': z3.BoolSort()}[sort]
        if ks:
            return z3.Function(base, *([z3.IntSort()] * len(ks) + [srt]))(*ks)
        return z3.Const(base, srt)

    # -- solver
    def hyps(self, quant=True):
        out = [c for l in self.pcs for c in l] + [f for l in self.facts for f in l]
        return out if quant else [h for h in out if not quantified(h)]

    def check(self, extra, timeout=1500, quant=False):
        hs = [boolz(h) for h in self.hyps(quant)] + [boolz(extra)]
        key = (timeout, *[ast_id(h) for h in hs])
        known = self.prog.checks.get(key)       # the same query in another path (terms are shared and kept alive)
        if known is not None:
            return known[0]
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*hs)
        t = time.time()
        r = s.check()
        self.prog.checks[key] = (r, hs)
        self.solver_s += time.time() - t
        self.nchecks += 1
        return r

    def entails(self, b):
        b = py(b)
        if isinstance(b, bool):
            return b
        return self.check(z3.Not(b)) == z3.unsat

    def assume(self, b, depth=None):
        b = py(b)
        if b is True:
            return
        if b is False:
            raise Infeasible()
        self.pcs[-1 if depth is None else depth].append(b)

    def fact(self, b):
        b = py(b)
        if b is not True:
            self.facts[-1].append(boolz(b))

    def define(self, b):
        'a fact that holds by the definition of the symbols in it'
        b = boolz(py(b))
        self.facts[-1].append(b)
        if self.frames:
            self.frames[-1].defs.append(b)

    def first(self, k, lo, hi, body, facts=True):
        'the first k in [lo, hi) where body holds; hi if there is none'
        hi = no_max0(hi) if isinstance(lo, int) and lo == 0 else hi
        F = self.binder('FIRST', k, lo, hi, body, z3.IntSort())
        if not facts:
            return F
        j = z3.FreshInt('j')
        at = lambda t: z3.substitute(body, (k, t))
        self.define(z3.And(num(lo) <= F, F <= z3.If(num(lo) <= num(hi), num(hi), num(lo))))
        self.define(z3.Implies(z3.And(num(lo) <= F, F < num(hi)), at(F)))
        self.define(z3.ForAll([j], z3.Implies(z3.And(num(lo) <= j, j < F), z3.Not(at(j)))) if mentions(body, [k]) else z3.Implies(num(lo) < F, z3.Not(body)))
        return F

    def level(self, e):
        'innermost loop frame the expression depends on (0: none)'
        for i in range(len(self.frames) - 1, -1, -1):
            if mentions(e, self.frames[i].syms):
                return i + 1
        return 0

    def branch(self, b):
        if not isbool(b):
            b = truth(self, b)
        b = py(b)
        if isinstance(b, bool):
            return b
        if self.check(z3.Not(b)) == z3.unsat:
            return True
        if self.check(b) == z3.unsat:
            return False
        if not self.frames and self.lemmas is not None and len({r['side'] for r in self.prog.recs.values()}) > 1:
            ls = self.lemmas(self.prog, self.hyps(False) + [b])     # equal recurrences of the two sides decide the branch
            if ls and self.check(z3.And(z3.Not(b), *ls)) == z3.unsat:
                return True
            if ls and self.check(z3.And(b, *ls)) == z3.unsat:
                return False
        if self.nobranch:
            raise NeedBranch()
        lv = self.level(b)
        dec = self.frames[lv - 1].dec if lv else self.dec
        r = dec.choose(2) == 0
        self.assume(b if r else z3.Not(b), lv)
        return r

    def choose(self, n, lv=0):
        dec = self.frames[lv - 1].dec if lv else self.dec
        return dec.choose(n)

    # -- obligations
    def oblige(self, name, goal, kind='safety'):
        goal = py(goal)
        if goal is True:
            o = Obligation(name, [], z3.BoolVal(True), kind)
            self.obls.append(o)
            return
        self.obls.append(Obligation(name, list(self.hyps()), boolz(goal), kind))

    # -- sums
    def sum(self, k, lo, hi, body):
        'sum of body over k in [lo, hi): an opaque term, equal for equal bodies'
        body = py(body)
        if not isz(body):
            return mul(body, py(z3.If(num(hi) > num(lo), num(hi) - num(lo), z3.IntVal(0))) if isz(hi) or isz(lo) else max(hi - lo, 0))
        return self.binder('SUM', k, lo, hi, body)

    # -- recurrences
    def rec(self, k, lo, hi, members, lemma=True):
        '''sequences R_q with R_q(lo) = init_q, R_q(j + 1) = step_q(j, R(j)): total functions defined by recursion.

        members: list of (key, symbol standing for R_q(k), init, step); returns the functions key -> (i -> R_q(i)).
        Equality of two groups is proved by induction on demand (prove.py: rec_lemmas).
        '''
        ks = [fr.k for fr in self.frames if fr.k is not None]
        syms = [m[1] for m in members]

        def conv(e, sort):
            if z3.is_bool(s0 := (e if isz(e) else z3.BoolVal(e) if isinstance(e, bool) else num(e))):
                return s0 if sort == z3.BoolSort() else z3.If(s0, z3.IntVal(1), z3.IntVal(0))
            return z3.ToReal(s0) if sort == z3.RealSort() and z3.is_int(s0) else s0
        inits = [conv(m[2], m[1].sort()) for m in members]
        steps = [conv(m[3], m[1].sort()) for m in members]
        # the same recurrence again (up to the names of its variables): the same functions
        key, free = canonical([num(lo), num(hi)] + inits + steps, [k] + ks + syms)
        self.keep.append(free)
        # what the loops around carry are arguments too
        carried = {x.get_id() for fr in self.frames for x in fr.syms}
        nk = len(ks)
        ks = ks + [x for x in free if x.get_id() in carried]
        free = [x for x in free if x.get_id() not in carried]
        key = ('rec', nk, len(syms), key, tuple(x.get_id() for x in free), tuple(str(s.sort()) for s in ks + syms))
        fns = self.cache.get(key)
        fresh = fns is None
        if fresh:
            self.uid += 1
            fns = [z3.Function(f'REC!{self.uid}_{n}', *[x.sort() for x in ks], z3.IntSort(), s.sort()) for n, s in enumerate(syms)]
            self.cache[key] = fns
        gid = fns[0].name()[4:].split('_')[0]
        out = {m[0]: (lambda F: (lambda i: F(*ks, num(i))))(F) for m, F in zip(members, fns)}
        facts = []
        for (_, s, _, _), F, i0, stp in zip(members, fns, inits, steps):
            facts.append(F(*ks, num(lo)) == i0)
        if not fresh:
            return out, facts
# (the step equation is used through rec_lemmas only)
        self.prog.recs[gid] = dict(fns=fns, ks=ks, nk=nk, k=k, syms=syms, lo=num(lo), hi=num(hi), inits=inits, steps=steps, names=[str(m[0]) if m[0][0] == 'var' else str(m[0][2]) if m[0][0] == 'cell' else str(m[0]) for m in members], side=self.side)
        return out, facts

    def list_len(self, items):
        'length of a list with conditional elements'
        key = ('len', repr_items(items))
        if key in self.cache:
            return self.cache[key]
        n = 0
        for it in items:
            if it[0] == 'one':
                n = add(n, 1)
            elif it[0] == 'if':
                n = add(n, py(z3.If(boolz(it[1]), num(self.list_len(it[2])), z3.IntVal(0))))
            elif it[0] == 'loop':
                c = count([i for i in it[4] if i[0] != 'mark'])
                if c is not None and not mentions(c, [it[1]]):
                    n = add(n, count([it]))
                    continue
                n = self.fold_items(it, n, lambda acc, v: add(acc, 1), 'Int', True, tag='len')
            elif it[0] == 'base':
                raise Unsupported('length of a list that the loop extends')
        self.cache[key] = n
        self.keep.append(items)
        return n

    def fold_items(self, it, init, f, sort, mono=False, tag=None):
        'fold of f over the elements of a loop segment (a term)'
        if tag is None or self.frames:
            return self.fold_new(it, init, f, sort, mono)
        key = (tag, repr_items([it]), repr_items([('one', init)]))
        if key not in self.cache:
            self.cache[key] = self.fold_new(it, init, f, sort, mono)
            self.keep.append(it)      # (keys name objects by id)
        return self.cache[key]

    def fold_new(self, it, init, f, sort, mono):
        k = z3.FreshInt('k')
        s = z3.FreshInt('acc') if sort == 'Int' else z3.FreshReal('acc')

        def go(items, acc):
            for x in items:
                if x[0] == 'one':
                    acc = f(acc, x[1])
                elif x[0] == 'if':
                    a2 = go(x[2], acc)
                    acc = py(z3.If(boolz(x[1]), num(a2), num(acc)))
                elif x[0] == 'loop':
                    acc = self.fold_items(x, acc, f, sort, mono)
                elif x[0] == 'base':
                    raise Unsupported('fold over a list that the loop extends')
            return acc
        fr = Frame(len(self.frames))
        fr.k, fr.syms, fr.dec, fr.serial = k, [k], Decider(()), 0
        self.frames.append(fr)
        self.pcs.append([])
        self.facts.append([])
        inner_loop = lambda l: any(x[0] == 'loop' or x[0] == 'if' and inner_loop(x[2]) for x in l)
        nested = sort == 'Int' and inner_loop(it[4])
        if nested:      # the folds of the nested lists depend on the value before them
            fr2 = Frame(len(self.frames))
            fr2.k, fr2.syms, fr2.dec, fr2.serial = s, [s], Decider(()), 0
            self.frames.append(fr2)
        try:
            step = go(subst_items(it[4], it[1], k), s)
        finally:
            if nested:
                self.frames.pop()
            self.frames.pop()
            self.pcs.pop()
            inner = self.facts.pop()
        for x in inner:
            # what defines the terms of the nested lists, for every element
            if mentions(x, [s]):
                if not nested:
                    raise Unsupported('fold over a nested list')
                x = z3.ForAll([s], x)
            self.fact(z3.ForAll([k], z3.Implies(z3.And(num(it[2]) <= k, k < num(it[3])), x)) if mentions(x, [k]) else x)
        out, facts = self.rec(k, it[2], it[3], [('acc', s, init, step)])
        for x in facts:
            self.fact(x)
        R = out['acc']
        if mono:
            i = z3.FreshInt('i')
            self.fact(z3.ForAll([i], z3.Implies(num(it[2]) <= i, R(i) >= num(init)), patterns=[R(i)]))
        if self.entails(le(it[2], it[3])):
            return R(it[3])
        return py(z3.If(num(it[2]) <= num(it[3]), R(it[3]), num(init)))

    def binder(self, tag, k, lo, hi, body, sort=None):
        body = num(body) if sort is None else boolz(body)
        if sort is None and has_quant(body):
            raise Unsupported('quantifier under a sum')
        body = z3.simplify(body)
        key, consts = canonical([body], [k])
        key = f'{tag}:{key}'
        if tag == 'SUM' and isz(hi) and z3.is_app_of(hi, z3.Z3_OP_ITE) and hi.arg(1).eq(num(lo)) and hi.arg(0).eq(hi.arg(2) <= hi.arg(1)):
            hi = hi.arg(2)      # (an empty sum either way)
        fn = self.prog.binders.get(key)
        if fn is None:
            ph = [z3.Const(f'ph{i}_{c.sort()}', c.sort()) for i, c in enumerate(consts)]
            fn = z3.Function(f'{tag}{len(self.prog.binders)}', z3.IntSort(), z3.IntSort(), *[c.sort() for c in consts], body.sort() if sort is None else sort)
            self.prog.binders[key] = fn
            self.prog.binder_body[fn.name()] = (tag, z3.Int('ph_k'), ph, z3.substitute(body, (k, z3.Int('ph_k')), *zip(consts, ph)))
        return fn(num(lo), num(hi), *consts)


class _Missing:
    pass


Missing = _Missing()


def truth(ctx, v):
    if isbool(v):
        return v
    if v is None:
        return False
    if isnum(v):
        return Not(eq(v, 0))
    if isinstance(v, str):
        return bool(v)
    if isinstance(v, tuple):
        return bool(v)
    if isinstance(v, SStr) and any(isinstance(p, str) and p and p != '?' for p in v.parts):
        return True
    if isinstance(v, PList):
        x = v.f['v']
        n = x[1] if x[0] == 'arr' else count([i for i in x[1] if i[0] != 'mark'])
        if n is None or '#n' in v.f:
            n = ctx.I.models.length(ctx.I, v)
        return lt(0, n)
    if isinstance(v, Ref):
        t = ctx.prog.schema.get(v.cls, {}).get('()truth')
        b = Not(eq(v.oid, -1)) if v.opt else True
        return And(b, t(v)) if t else b
    if hasattr(v, 'now'):
        return truth(ctx, v.now(ctx.I))
    if isinstance(v, (Obj, Csr, Swig)):
        return True
    raise Unsupported(f'truth value of {type(v).__name__}')
