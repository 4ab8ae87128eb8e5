'''pyded interpreter: the real Python AST, all paths, loops summarised exactly.'''
import ast, glob, os
from fractions import Fraction
import z3
from core import *
import cursor


class ModRef:
    def __init__(self, name):
        self.name = name


class ClassRef:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name


class FuncRef:
    def __init__(self, mod, node, cls=None, env=None):
        self.mod, self.node, self.cls, self.env = mod, node, cls, env
        nm = getattr(node, 'name', '<lambda>')
        self.qual = f'{mod.name}.{cls}.{nm}' if cls else f'{mod.name}.{nm}'


class Bound:
    def __init__(self, obj, fn):
        self.obj, self.fn = obj, fn


class Builtin:
    def __init__(self, name, fn=None):
        self.name, self.fn = name, fn


class Method:
    'method of a builtin value'
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class RangeV:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class SeqView:
    'lazily indexed sequence: length, fn'
    def __init__(self, n, fn):
        self.n, self.fn = n, fn


class Module:
    def __init__(self, prog, name, path):
        self.name, self.prog = name, prog
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.g = {}
        for st in self.tree.body:
            self.define(st)

    def define(self, st):
        if isinstance(st, ast.FunctionDef):
            self.g[st.name] = FuncRef(self, st)
        elif isinstance(st, ast.ClassDef):
            self.g[st.name] = ClassRef(self, st)
        elif isinstance(st, ast.Import):
            for a in st.names:
                self.g[(a.asname or a.name).split('.')[0]] = ModRef(a.name if a.asname else a.name.split('.')[0])
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                self.g[a.asname or a.name] = ('import', st.module, a.name)
        elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            self.g[st.targets[0].id] = ('const', st.value, self)
        elif isinstance(st, (ast.If, ast.Try)):
            for s in st.body:
                self.define(s)


class Program:
    def __init__(self, repo):
        self.repo = repo
        self.mods = {}
        self.written = {}
        self.contracts = {}
        self.binders, self.binder_body = {}, {}
        self.own_w = {}      # constants of the induction steps -> the pair of recurrences they belong to
        self.recs = {}
        self.checks = {}        # satisfiability checks of earlier paths
        self.rec_cache = {}     # lemma instances of the current path (prove.rec_lemmas)
        self.schema = {}
        self.raws, self.inverses, self.hooks, self.strings, self.nonce = {}, {}, {}, {}, 0

    def intern(self, s):
        return z3.IntVal(1000 + self.strings.setdefault(s, len(self.strings)))

    def module(self, name):
        if name not in self.mods:
            self.mods[name] = Module(self, name, os.path.join(self.repo, 'hylaa', name + '.py'))
        return self.mods[name]

    def only_written(self, attr):
        'an attribute that no module reads'
        if attr not in self.written:
            self.written[attr] = not any(isinstance(n, ast.Attribute) and n.attr == attr and not isinstance(n.ctx, ast.Store) or isinstance(n, ast.Constant) and n.value == attr
                                         for f in glob.glob(os.path.join(self.repo, 'hylaa', '*.py')) for n in ast.walk(ast.parse(open(f).read())))
        return self.written[attr]

    def find(self, qual):
        p = qual.split('.')
        m = self.module(p[0])
        x = m.g.get(p[1])
        if len(p) == 2:
            return x if isinstance(x, FuncRef) else None
        return self.method(x, p[2]) if isinstance(x, ClassRef) else None

    def method(self, cref, name):
        for st in cref.node.body:
            if isinstance(st, ast.FunctionDef) and st.name == name:
                return FuncRef(cref.mod, st, cref.name)
        for b in cref.node.bases:
            if isinstance(b, ast.Name):
                c = resolve_global(self, cref.mod, b.id)
                if isinstance(c, ClassRef):
                    r = self.method(c, name)
                    if r:
                        return r
        return None

    def classref(self, name):
        for m in list(self.mods.values()):
            x = m.g.get(name)
            if isinstance(x, ClassRef):
                return x
        for f in sorted(os.listdir(os.path.join(self.repo, 'hylaa'))):
            if f.endswith('.py') and not f.startswith('_'):
                x = self.module(f[:-3]).g.get(name)
                if isinstance(x, ClassRef):
                    return x
        return None


def resolve_global(prog, mod, name):
    x = mod.g.get(name)
    if isinstance(x, tuple) and x[0] == 'import':
        m, n = x[1], x[2]
        if m and m.startswith('hylaa.'):
            return resolve_global(prog, prog.module(m[6:]), n)
        if m == 'hylaa':
            return ModRef('hylaa.' + n)
        return ModRef(m + '.' + n)
    return x


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


OPTION = Opaque('number or None')     # a variable kept as two: name#none and name#val


class Env:
    def __init__(self, mod, func, parent=None):
        self.v = {}
        self.mod, self.func, self.parent = mod, func, parent

    def get(self, n):
        if n in self.v:
            return self.v[n]
        if self.parent is not None:
            return self.parent.get(n)
        return Missing


class Interp:
    def __init__(self, ctx, models):
        self.ctx, self.prog, self.models = ctx, ctx.prog, models
        self.stack = []
        self.copy_ok, self.iterating, self.world, self.in_depth = [], [], None, 0
        self.changed = set()       # lists changed while they are iterated
        self.handlers = 0      # try blocks with handlers around the current statement
        self.under = None      # qualified name of the function under verification (not replaced by its contract)

    # ---------------------------------------------------------------- calls
    by_key = set()

    def call_func(self, fr, args, kwargs, self_obj=None):
        ctx = self.ctx
        c = self.prog.contracts.get(fr.qual)
        if c is not None and not (self.under == fr.qual and not self.stack) and c.replaces:
            ctx.calls.add(fr.qual)
            return c.apply(self, args, kwargs, self_obj)
        if len(self.stack) > 40:
            raise Unsupported('call depth')
        if '(specification)' not in fr.qual and self.under != fr.qual:
            ctx.calls.add('in place: ' + fr.qual)
        self.stack.append(fr.qual)
        try:
            env = Env(fr.mod, fr, fr.env)
            self.bind(fr.node, env, args, kwargs, self_obj)
            if isinstance(fr.node, ast.Lambda):
                return self.ev(fr.node.body, env)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fr.node)):
                raise Unsupported('generator ' + fr.qual)
            try:
                if getattr(fr.node, 'cursor', None) is None:
                    fr.node.cursor = cursor.lists(fr.node)
                self.block(fr.node.cursor.body, env)
            except Ret as r:
                return r.v
            return None
        finally:
            self.stack.pop()

    def bind(self, node, env, args, kwargs, self_obj):
        a = node.args
        names = [x.arg for x in a.args]
        args = list(args)
        if self_obj is not None:
            args = [self_obj] + args
        if len(args) > len(names):
            raise Unsupported('too many arguments')
        for n, v in zip(names, args):
            env.v[n] = v
        for n, v in kwargs.items():
            if n not in names or n in env.v:
                raise Unsupported('keyword argument ' + n)
            env.v[n] = v
        defs = a.defaults
        denv = Env(env.mod, None, env.parent)
        for n, d in zip(names[len(names) - len(defs):], defs):
            if n not in env.v:
                cls = getattr(env.func, 'cls', None)
                if isinstance(d, ast.Name) and cls and any(isinstance(x, ast.Assign) and any(d.id in [getattr(e, 'id', None) for e in getattr(t, 'elts', [t])] for t in x.targets) for x in self.prog.classref(cls).node.body):
                    env.v[n] = self.models.getattr(self, self.prog.classref(cls), d.id)      # (evaluated in the body of the class)
                else:
                    env.v[n] = self.ev(d, denv)
        for n in names:
            if n not in env.v:
                raise Unsupported('missing argument ' + n)

    def call(self, f, args, kwargs):
        if isinstance(f, FuncRef):
            if any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in getattr(f.node, 'decorator_list', [])):
                return self.call_func(f, args, kwargs, self.prog.classref(f.cls))
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            return self.call_func(f.fn, args, kwargs, f.obj)
        if isinstance(f, ClassRef):
            return self.construct(f, args, kwargs)
        if isinstance(f, Builtin):
            return f.fn(self, args, kwargs)
        if isinstance(f, Method):
            return self.models.method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, ModRef):
            return self.models.call(self, f.name, args, kwargs)
        if isinstance(f, self.models.NTClass):
            return f.make(self, args, kwargs)
        raise Unsupported(f'call of {type(f).__name__}')

    def construct(self, cref, args, kwargs):
        c = self.prog.contracts.get(f'{cref.mod.name}.{cref.name}')
        if c is not None:
            self.stack.append(c.qual + ' (contract)')
            try:
                init = self.prog.method(cref, '__init__')
                env = Env(init.mod, init)
                self.bind(init.node, env, args, kwargs, Opaque('self'))
                return c.spec_fn(self, *[env.v[x.arg] for x in init.node.args.args[1:]])
            finally:
                self.stack.pop()
        if self.is_exc(cref):
            return ('exc', cref.name)
        c = self.prog.contracts.get(f'{cref.mod.name}.{cref.name}.__init__')
        o = Obj(cref.name)
        init = self.prog.method(cref, '__init__')
        if init is not None:
            self.call_func(init, args, kwargs, o)
        return o

    def is_exc(self, cref):
        if cref.name.endswith('Error') or cref.name.endswith('Exception') or cref.name == 'FoundErrors':
            return True
        return False

    # ---------------------------------------------------------------- names
    def name(self, n, env):
        v = env.get(n)
        if v is OPTION:
            # a number or None: which one is decided where it is read
            b = py(env.get(n + '#none'))
            return None if (b if isinstance(b, bool) else self.ctx.branch(b)) else env.get(n + '#val')
        if v is not Missing:
            return v
        if n in env.mod.g:
            x = resolve_global(self.prog, env.mod, n)
            if isinstance(x, tuple) and x[0] == 'const':
                return self.ev(x[1], Env(x[2], None))
            return x
        b = self.models.builtin(n)
        if b is not None:
            return b
        raise Unsupported('name ' + n)

    # ---------------------------------------------------------------- statements
    def block(self, body, env):
        for st in body:
            self.st(st, env)

    def st(self, st, env):
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(st).__name__)
        return m(st, env)

    def st_Pass(self, st, env):
        pass

    def st_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, env)

    def st_Return(self, st, env):
        raise Ret(None if st.value is None else self.ev(st.value, env))

    def st_Break(self, st, env):
        raise Brk()

    def st_Continue(self, st, env):
        raise Cont()

    def st_Assert(self, st, env):
        if not self.ctx.branch(self.cond(st.test, env)):
            raise PyRaise('AssertionError', ast.unparse(st.test)[:60])

    def st_Raise(self, st, env):
        k = 'Exception'
        if st.exc is not None:
            e = st.exc.func if isinstance(st.exc, ast.Call) else st.exc
            k = ast.unparse(e).split('.')[-1]
        raise PyRaise(k, '')

    def st_If(self, st, env):
        if self.ctx.branch(self.cond(st.test, env)):
            self.block(st.body, env)
        else:
            self.block(st.orelse, env)

    def st_FunctionDef(self, st, env):
        env.v[st.name] = FuncRef(env.mod, st, None, env)

    def st_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)

    def st_Try(self, st, env):
        try:
            try:
                self.handlers += 1
                try:
                    self.block(st.body, env)
                finally:
                    self.handlers -= 1
            except PyRaise as e:
                for h in st.handlers:
                    nm = [] if h.type is None else [ast.unparse(x).split('.')[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    if h.type is None or e.kind in nm or 'Exception' in nm or (e.kind == 'UnsatError' and 'RuntimeError' in nm):
                        if h.name:
                            env.v[h.name] = ('exc', e.kind)
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(st.orelse, env)
        finally:
            if st.finalbody:
                self.block(st.finalbody, env)

    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.v.pop(t.id, None)
            else:
                raise Unsupported('del of an element')

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if env.v.get(t.id) is OPTION and (v is None or isnum(v)):
                env.v[t.id + '#none'], env.v[t.id + '#val'] = v is None, z3.Real('NONE') if v is None else real(v)
                return
            env.v[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            self.models.setattr(self, o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.models.setitem(self, o, self.index(t.slice, env), v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                raise Unsupported('unpacking')
            return list(v)
        if isinstance(v, PList):
            m, fn = arr_of(v)
            self.ctx.oblige(f'{self.where()}: unpacked length', eq(m, n))
            return [fn(i) for i in range(n)]
        if isinstance(v, NArr) and len(v.f['shape']) == 1:
            self.ctx.oblige(f'{self.where()}: unpacked length', eq(v.f['shape'][0], n))
            return [v.f['fn'](i) for i in range(n)]
        if isinstance(v, Ref) and len(self.prog.schema.get(v.cls, {}).get('__fields__', ())) == n:
            return [self.models.getattr(self, v, f) for f in self.prog.schema[v.cls]['__fields__']]
        raise Unsupported('unpacking of ' + type(v).__name__)

    def st_AugAssign(self, st, env):
        if isinstance(st.target, ast.Name):
            cur = self.name(st.target.id, env)
        elif isinstance(st.target, ast.Attribute):
            o = self.ev(st.target.value, env)
            cur = self.models.getattr(self, o, st.target.attr)
        elif isinstance(st.target, ast.Subscript):
            o = self.ev(st.target.value, env)
            ix = self.index(st.target.slice, env)
            cur = self.models.getitem(self, o, ix)
        else:
            raise Unsupported('augmented assignment')
        v = self.ev(st.value, env)
        if isinstance(cur, PList) and isinstance(st.op, ast.Add):
            self.models.extend(self, cur, v)
            if isinstance(st.target, ast.Attribute):
                return
            return
        if isinstance(cur, NArr):
            r = self.models.binop(self, type(st.op).__name__, cur, v)
            if not isinstance(r, NArr):
                raise Unsupported('in-place array operation')
            self.ctx.put(cur, 'fn', r.f['fn'])
            return
        r = self.models.binop(self, type(st.op).__name__, cur, v)
        if isinstance(st.target, ast.Name):
            self.assign(st.target, r, env)
        elif isinstance(st.target, ast.Attribute):
            self.models.setattr(self, o, st.target.attr, r)
        else:
            self.models.setitem(self, o, ix, r)

    def where(self):
        return self.stack[-1] if self.stack else self.ctx.name

    # ---------------------------------------------------------------- loops
    def st_While(self, st, env):
        # concrete unrolling only while the condition is decided on the path
        n = 0
        while True:
            c = py(truth(self.ctx, self.cond(st.test, env)))
            if not isinstance(c, bool):
                if n == 0 and self.models.while_rule(self, st, env):
                    return
                if self.ctx.entails(c):
                    c = True
                elif self.ctx.entails(Not(c)):
                    c = False
                else:
                    if n and self.models.while_rule(self, st, env):
                        return
                    raise Unsupported('while loop with a symbolic condition')
            if not c:
                self.block(st.orelse, env)
                return
            n += 1
            if n > 64:
                raise Unsupported('while loop too long')
            try:
                self.block(st.body, env)
            except Brk:
                return
            except Cont:
                continue

    def st_For(self, st, env):
        seq = self.ev(st.iter, env)
        if isinstance(seq, KeyList):
            self.by_key.add(id(st))
        try:
            self.run_for(seq, lambda v: self.assign(st.target, v, env), lambda: self.block(st.body, env), env, st)
        except Brk:
            return
        self.block(st.orelse, env)

    def segments(self, seq):
        if isinstance(seq, MapLog):
            raise Unsupported('iteration over a dictionary')
        return self.segments_of(seq)

    def segments_of(self, seq):
        '''iteration structure: list of ('one', value) | ('loop', k, lo, hi, leaf) with leaf a value or nested list'''
        m = self.models
        if isinstance(seq, RangeV):
            if seq.step != 1:
                n = m.range_len(seq)
                if isinstance(n, int):
                    return [('one', add(seq.lo, i * seq.step)) for i in range(n)]
                k = z3.FreshInt('k')
                return [('loop', k, 0, n, (('one', add(seq.lo, mul(k, seq.step))),))]
            n = sub(seq.hi, seq.lo)
            if isinstance(n, int):
                if n <= 12:
                    return [('one', add(seq.lo, i)) for i in range(max(n, 0))]
            k = z3.FreshInt('k')
            return [('loop', k, seq.lo, seq.hi, (('one', k),))]
        if isinstance(seq, SeqView):
            if isinstance(seq.n, int):
                return [('one', seq.fn(i)) for i in range(seq.n)]
            k = z3.FreshInt('k')
            return [('loop', k, 0, seq.n, (('one', seq.fn(k)),))]
        if isinstance(seq, tuple):
            return [('one', x) for x in seq]
        if isinstance(seq, PList):
            return [i for i in items_of(seq) if i[0] != 'mark']
        if isinstance(seq, NArr):
            sh = seq.f['shape']
            fn = seq.f['fn']
            if len(sh) == 1:
                return self.segments(SeqView(sh[0], fn))
            return self.segments(SeqView(sh[0], lambda i: NArr(sh[1:], lambda *j: fn(i, *j), seq.f['dtype'])))
        r = m.segments(self, seq)
        if r is not None:
            return r
        if hasattr(seq, 'seq'):
            return self.segments(SeqView(*seq.seq(self)))
        raise Unsupported('iteration over ' + type(seq).__name__)

    def run_for(self, seq, setter, body, env, node):
        segs = self.segments(seq)
        key = (seq.cls, seq.n) if hasattr(seq, 'now') else None
        if key is not None:
            if key not in self.iterating:
                body = self.left_after_change(key, body)
            self.iterating.append(key)
        try:
            for seg in segs:
                self.run_seg(seg, setter, body, env, node)
        finally:
            if key is not None:
                self.iterating.remove(key)

    def left_after_change(self, key, body):
        'a list may be changed while it is iterated only if the iteration ends there'
        def run():
            self.changed.discard(key)
            try:
                body()
            except Cont:
                if key in self.changed:
                    raise Unsupported('a list is changed while it is iterated')
                raise
            else:
                if key in self.changed:
                    raise Unsupported('a list is changed while it is iterated')
        return run

    def run_seg(self, seg, setter, body, env, node):
        if seg[0] == 'one':
            setter(seg[1])
            try:
                body()
            except Cont:
                pass
        elif seg[0] == 'if':
            if self.ctx.branch(seg[1]):
                for s in seg[2]:
                    self.run_seg(s, setter, body, env, node)
        elif seg[0] == 'loop':
            if isinstance(seg[2], int) and isinstance(seg[3], int) and seg[3] - seg[2] <= 12:
                for i in range(seg[2], seg[3]):
                    for s in subst_items(seg[4], seg[1], i):
                        self.run_seg(s, setter, body, env, node)
                return
            k = z3.FreshInt('k')
            inner = [x for x in subst_items(seg[4], seg[1], k) if x[0] != 'mark']

            def one():
                for s in inner:
                    self.run_seg(s, setter, body, env, node)
            self.summarise(k, seg[2], seg[3], one, env, node)

    # the loop rule --------------------------------------------------------
    def summarise(self, k, lo, hi, body, env, node):
        '''effect of: for k in [lo, hi): body().

        The body is executed for one arbitrary k, with every location it changes unknown (a fresh symbol, or a base that
        must not be read); the changes are then composed over all iterations: append, indexed write, accumulation, last
        value.  Everything else is Unsupported.
        '''
        ctx = self.ctx
        if ctx.entails(le(hi, lo)):
            return
        if not ctx.entails(le(lo, hi)) and not ctx.branch(le(lo, hi)):
            return
        locs = {}      # location -> (holder, initial value, style)
        for _ in range(8):
            serial = SERIAL[0]
            try:
                res = self.explore_body(k, lo, hi, body, env, locs)
            except NeedLength as e:
                if e.l.sid > serial or e.what in e.l.f:
                    raise
                ctx.put(e.l, e.what, {'#n': self.models.length, '#last': self.models.last, '#tok': self.models.tok}[e.what](self, e.l))
                continue
            opts = {key[1]: init for b in res for key, (_, init, val) in b['eff'].items() if key[0] == 'var' and (init is None and isnum(val) or val is None and isnum(init))}
            if opts:
                for n, v in opts.items():
                    env.v[n] = OPTION
                    self.assign(ast.Name(id=n), v, env)
                continue
            new = False
            carried = {key for b in res if b['end'][0] == 'next' for key in b['eff']}
            for b in res:
                for key, (holder, init, val) in b['eff'].items():
                    st = self.style(init, val, key)
                    if st == 'opaque' and key[0] == 'var' and key not in carried and key not in locs:
                        continue      # (assigned on the way out only)
                    if id(node) in self.by_key and key[0] == 'var' and b['end'][0] == 'next':
                        st = 'key'
                    if key not in locs or (locs[key][2] != st and rank(st) > rank(locs[key][2])):
                        locs[key] = (holder, init, st)
                        new = True
                        if id(node) in self.by_key and b['end'][0] == 'next' and st not in ('new', 'key'):
                            raise Unsupported('iteration over the keys of a dictionary with an effect')
            if not new:
                break
        else:
            raise Unsupported('loop does not stabilise')
        self.compose(k, lo, hi, res, locs, env)

    def style(self, init, val, key):
        if init is not Missing and ref_or_none(init) and ref_or_none(val) and not (init is None and val is None):
            r = val if init is None else init
            return ('ref?:' if init is None or val is None or init.opt or val.opt else 'ref:') + r.cls
        if init is Missing or (isinstance(init, Poison) and (key[0] == 'var' or not callable(init))):
            return 'new'
        if isinstance(init, bool) or (isz(init) and z3.is_bool(init)):
            return 'bool'
        if isnum(init) or isinstance(init, Inf):
            if isnum(init) and z3.is_int(num(init)) and (val is None or (isnum(val) and z3.is_int(num(val)))):
                return 'int'
            if isnum(val):
                return 'real'
            return 'opaque'
        if isinstance(init, tuple) and init and isinstance(init[0], str) and init[0] in ('items', 'arr'):
            return 'list-' + ('arr' if isinstance(val, tuple) and isinstance(val[0], str) and val[0] == 'arr' else 'items')
        if callable(init) and not isinstance(init, Heap):
            return 'fn'
        if isinstance(init, NArr) and isinstance(val, NArr) and val is not init and len(init.f['shape']) == 1:
            b = val.f['fn']
            while isinstance(b, (Upd, RangeUpd, LoopUpd)):
                b = b.base
            if b is init.f['fn'] or isinstance(b, OwnPoison) and b.init is init.f['fn']:
                return 'narr'
        return 'opaque'

    def explore_body(self, k, lo, hi, body, env, locs):
        ctx = self.ctx
        out, prefix = [], []
        env0 = dict(env.v)
        while prefix is not None:
            mark, nob, serial = len(ctx.journal), len(ctx.obls), SERIAL[0]
            g0 = set(self.prog.recs)
            fr = Frame(len(ctx.frames))
            fr.k, fr.syms, fr.dec, fr.serial = k, [k], Decider(prefix), serial
            ctx.frames.append(fr)
            ctx.pcs.append([x for x in (py(le(lo, k)), py(lt(k, hi))) if x is not True])
            ctx.facts.append([])
            nrange = len(ctx.pcs[-1])
            syms = {}
            try:
                for key, (holder, init, st) in locs.items():
                    s = self.unknown(key, init, st, k)
                    syms[key] = s
                    if isz(s):
                        fr.syms.append(s)
                    if st[:3] == 'ref':
                        s = Ref(st.split(':')[1], s, st[3] == '?')
                    if key[0] == 'var':
                        if s is not Missing:
                            env.v[key[1]] = s
                        elif st == 'key':
                            env.v.pop(key[1], None)
                    else:
                        if holder.frozen:
                            raise Unsupported('change of an element of a symbolic container')
                        ctx.journal.append((holder, key[2], holder.f.get(key[2], Missing)))
                        holder.f[key[2]] = s
                m2 = len(ctx.journal)
                try:
                    body()
                    end = ('next', None)
                except Cont:
                    end = ('next', None)
                except Brk:
                    end = ('break', None)
                except Ret as r:
                    end = ('return', r.v)
                except PyRaise as e:
                    end = ('raise', e)
                except Infeasible:
                    end = None
                if end is not None:
                    memo = {}
                    eff = {}
                    for o, f, v in ctx.journal[m2:]:
                        if o.sid > serial:
                            continue
                        key = ('cell', id(o), f)
                        if key in eff:
                            continue
                        init = locs[key][1] if key in locs else self.cell_init(o, f, m2)
                        eff[key] = (o, init, freeze(o.f.get(f, Missing), serial, memo))
                    for n, v in env.v.items():
                        key = ('var', n)
                        before = syms[key] if key in syms else env0.get(n, Missing)
                        if v is before:
                            continue
                        if key in locs and locs[key][2][:3] == 'ref' and isinstance(v, Ref) and isz(v.oid) and v.oid.eq(before):
                            continue
                        if isz(v) and isz(before) and v.eq(before):
                            continue
                        eff[key] = (None, env0.get(n, Missing), freeze(v, serial, memo))
                    if end[0] == 'return':
                        end = ('return', freeze(end[1], serial, memo))
                    out.append({'conds': ctx.pcs[-1][nrange:], 'facts': list(ctx.facts[-1]), 'defs': {d.get_id(): d for d in fr.defs}, 'end': end, 'eff': eff, 'syms': syms, 'obls': ctx.obls[nob:],
                                'own': {q: x for q, s in syms.items() for x in (s[2] if isinstance(s, tuple) and len(s) == 3 else s.f['fn'] if isinstance(s, NArr) else s,) if isinstance(x, OwnPoison)},
                                'recs': [g for g in self.prog.recs if g not in g0]})
            finally:
                ctx.rollback(mark)
                del ctx.obls[nob:]
                ctx.frames.pop()
                ctx.pcs.pop()
                ctx.facts.pop()
                env.v.clear()
                env.v.update(env0)
            prefix = fr.dec.next_prefix()
            if len(out) > 32:
                raise Unsupported('too many paths through a loop body')
        return out

    def cell_init(self, o, f, m2):
        for oo, ff, v in self.ctx.journal[m2:]:
            if oo is o and ff == f:
                return v
        return Missing

    def unknown(self, key, init, st, k):
        nm = key[1] if key[0] == 'var' else key[2]
        if st == 'key':
            return Missing
        if st == 'new':
            return Missing if key[0] == 'var' else Poison(str(nm))
        ctx = self.ctx
        if st in ('int', 'real', 'bool') or st[:3] == 'ref':
            ctx.uid += 1
            return {'int': z3.Int, 'ref': z3.Int, 'real': z3.Real, 'bool': z3.Bool}[st[:3] if st[:3] == 'ref' else st](f'{nm}~{ctx.uid}')
        if st == 'list-items':
            return ('items', (('base', Poison(str(nm))),))
        if st == 'list-arr':
            n, f = (init[1], init[2]) if init[0] == 'arr' else arr_of_v(init)
            return ('arr', n, OwnPoison(str(nm), f, k))
        if st == 'fn':
            return OwnPoison(str(nm), init, k)
        if st == 'narr':
            # an array replaced by changed copies of itself; which object it is after the loop is not known: it must not be changed in place
            a = NArr(init.f['shape'], OwnPoison(str(nm), init.f['fn'], k), init.f['dtype'])
            a.frozen = True
            return a
        return Poison(str(nm))

    def compose(self, k, lo, hi, res, locs, env):
        ctx = self.ctx
        nexts = [b for b in res if b['end'][0] == 'next']
        exits = [b for b in res if b['end'][0] != 'next']
        isref = {q for q in locs if locs[q][2][:3] == 'ref'}
        for b in res:
            for q in isref:
                if q in b['eff']:
                    h, i, v = b['eff'][q]
                    b['eff'][q] = (h, i, oid_of(v) if ref_or_none(v) else v)
        for q in isref:
            locs[q] = (locs[q][0], oid_of(locs[q][1]), locs[q][2])
        # one set of unknowns: rename every branch's symbols to those of the first branch
        base = res[0]['syms'] if res else {}
        for b in res[1:]:
            ren = [(b['syms'][q], base[q]) for q in base if isz(base[q])]
            f = lambda e, ren=ren: z3.substitute(e, *ren) if ren else e
            pz = {id(b['syms'][q]): base[q] for q in base if not isz(base[q])}
            self.map_branch(b, f, [(b['syms'][q], base[q]) for q in base])
            self.map_recs(b, f)
            b['syms'] = base
        exits = self.merge_exits(exits, locs, base)
        allsyms = [s for s in base.values() if isz(s)]
        closed, final, newfacts = {}, {}, []
        pend = {q: s for q, s in base.items() if isz(s)}
        subs = []

        def sb(e):
            for _ in range(3):
                if not subs or not isz(e):
                    return e
                e2 = z3.substitute(e, *subs)
                if e2.eq(e):
                    return e
                e = e2
            return e
        progress = True
        flags = {}
        while pend and progress:
            progress = False
            for q in list(pend):
                s = pend[q]
                init = locs[q][1]
                vals = [deepmap(b['eff'][q][2], sb) if q in b['eff'] else s for b in nexts]
                conds = [sb(z3.And(*[boolz(c) for c in b['conds']])) if b['conds'] else z3.BoolVal(True) for b in nexts]
                left = [x for x in allsyms if x.get_id() not in {a.get_id() for a, _ in subs}]
                r = self.closed_form(k, lo, hi, s, init, vals, conds, left, q)
                if r is None:
                    continue
                closed[q], final[q], facts = r
                newfacts += facts
                if closed[q] is not None:
                    cf = num(closed[q]) if not isbool(closed[q]) else boolz(closed[q])
                    if z3.is_real(s) and z3.is_int(cf):
                        cf = z3.ToReal(cf)
                    subs.append((s, cf))
                del pend[q]
                progress = True
        again = True
        while pend and again:
            again = False
            again = self.flags(k, lo, hi, pend, locs, nexts, sb, closed, final, subs)
            if again:
                continue
            group = [q for q in pend if locs[q][2][:3] in ('int', 'rea', 'boo', 'ref') and (isnum(locs[q][1]) or isbool(locs[q][1]))]
            group = self.rec_group(k, lo, hi, group, pend, locs, nexts, sb, bool(exits))
            if group:
                out, facts = group
                newfacts += facts
                for q, R in out.items():
                    closed[q], final[q] = R(k), (R(hi) if ctx.entails(le(lo, hi)) else py(z3.If(num(lo) <= num(hi), R(hi), num(locs[q][1]) if not isbool(locs[q][1]) else boolz(locs[q][1]))))
                    subs.append((pend[q], closed[q]))
                    del pend[q]
        stuck = [q for q in pend]
        for q in stuck:
            # the value inside the loop stays unknown; it must not be used, and is unknown afterwards
            final[q] = Poison(str(q[1:]))
        for f in newfacts:
            ctx.fact(f)
        for b in res:
            self.map_recs(b, sb)
            for g in b['recs']:
                r = self.prog.recs.get(g)
                if r is not None and any(mentions(e, [pend[q] for q in stuck]) for e in [r['lo'], r['hi']] + r['inits'] + r['steps']):
                    del self.prog.recs[g]

        def ok(e):
            return not mentions(e, [pend[q] for q in stuck])

        def clean(e):
            if isz(e):
                e = sb(e)
                if not ok(e):
                    raise Unsupported('a loop-carried value has no closed form')
            return e
        # obligations met inside the body
        for b in res:
            for o in b['obls']:
                goal = sb(o.goal)
                hy = [sb(h) for h in o.hyps]
                ctx.obls.append(Obligation(o.name, [h for h in hy] + [boolz(f) for f in newfacts], goal, o.kind))
        known = set()
        for b in res:
            for f in b['defs'].values():
                f = sb(f)
                if ok(f) and f.get_id() not in known:
                    known.add(f.get_id())
                    ctx.define(z3.ForAll([k], f) if mentions(f, [k]) else f)
        for b in nexts:
            if b['facts']:
                cs = [clean(boolz(c)) for c in b['conds']]
                for f in b['facts']:
                    if f.get_id() in b['defs']:
                        continue
                    f = sb(f)
                    if not ok(f):
                        continue
                    if mentions(f, [k]):
                        ctx.fact(z3.ForAll([k], z3.Implies(z3.And(num(lo) <= k, k < num(hi), *cs), f)))
                    else:
                        ctx.fact(f)
        stop = hi
        exit_b = None
        if exits:
            ecs = [z3.And(*[boolz(clean(boolz(c))) for c in b['conds']]) if b['conds'] else z3.BoolVal(True) for b in exits]
            lv = len(ctx.frames)
            if nexts:
                ch = ctx.choose(1 + len(exits), lv)
            else:
                if not ctx.branch(lt(lo, hi)):
                    ch = 0
                else:
                    ch = 1 + (ctx.choose(len(exits), lv) if len(exits) > 1 else 0)
            noexit = lambda h: z3.ForAll([k], z3.Implies(z3.And(num(lo) <= k, k < num(h)), z3.Not(z3.Or(*ecs)))) if any(mentions(c, [k]) for c in ecs) else \
                z3.Implies(num(lo) < num(h), z3.Not(z3.Or(*ecs)))
            # in the body of another loop the way out is part of the condition of the branch, in terms of the first exit
            F = ctx.first(k, lo, hi, z3.Or(*ecs)) if ctx.frames else None
            if ch == 0:
                if F is not None:
                    ctx.assume(le(hi, F))
                    if ctx.check(z3.BoolVal(True)) == z3.unsat:
                        raise Infeasible()
                else:
                    ctx.fact(noexit(hi))
                self.known_exit(k, lo, hi, ecs, None)
            else:
                exit_b = exits[ch - 1]
                k1 = F if F is not None else ctx.fresh('kx')
                if F is None:
                    ctx.assume(le(lo, k1))
                ctx.assume(lt(k1, hi))
                if F is None or len(exits) > 1:
                    ctx.assume(py(z3.substitute(ecs[ch - 1], (k, num(k1)))))
                if ctx.check(z3.BoolVal(True)) == z3.unsat:
                    raise Infeasible()
                if exit_b['end'][0] == 'raise':
                    if self.handlers and locs:
                        raise Unsupported('an exception from a loop, handled around it')
                    raise exit_b['end'][1]
                if F is None:
                    ctx.fact(noexit(k1))
                self.known_exit(k, lo, k1, ecs, k1)
                for f in exit_b['facts']:
                    if f.get_id() in exit_b['defs']:
                        continue
                    f = sb(f)
                    if ok(f):
                        ctx.fact(z3.substitute(f, (k, k1)))
                stop = k1
                # closed forms up to k1
                for q in closed:
                    if closed[q] is not None:
                        final[q] = subst(closed[q], k, k1)
        # composed effect of the normal iterations
        for q, (holder, init, st) in locs.items():
            if st in ('int', 'real', 'bool') or st[:3] == 'ref':
                v = final[q]
                if st[:3] == 'ref' and not isinstance(v, Poison):
                    v = Ref(st.split(':')[1], v, st[3] == '?')
                self.store(q, holder, v, env)
                continue
            brs = [(b['conds'], b['eff'][q][2]) for b in nexts if q in b['eff']]
            if st == 'key':
                v = Poison(str(q[1:]))      # which element came last is not known
            elif not brs:
                v = init
            elif st == 'new' or st == 'opaque':
                if len(nexts) == 1 and ctx.entails(lt(lo, stop)):
                    v = subst(deepmap(brs[0][1], clean), k, sub(stop, 1))
                else:
                    v = Poison(str(q[1:]))
            elif st == 'list-items':
                body = []
                tails = []
                common = self.common_conds(nexts, sb)
                for conds, val in brs:
                    if val[0] != 'items' or not val[1] or val[1][0][0] != 'base' or val[1][0][1] is not base[q][1][0][1]:
                        raise Unsupported('list changed other than by appending in a loop')
                    tail = deepmap_items(val[1][1:], clean)
                    if any(x[0] == 'base' for x in tail):
                        raise Unsupported('list changed other than by appending in a loop')
                    # (the list is made of the iterations that go on: what all of these have in common holds)
                    cs = [clean(x) for x in flat_conds(conds, sb) if x.get_id() not in common]
                    c = py(z3.And(*cs)) if cs else True
                    tails.append((c, tail))
                if len(tails) == len(nexts) > 1 and all(x[0] == 'one' for _, t in tails for x in t) and len({len(t) for _, t in tails}) == 1:
                    # every path appends the same number of elements
                    try:
                        for j in range(len(tails[0][1])):
                            v = tails[-1][1][j][1]
                            for c, t in tails[-2::-1]:
                                v = ite_v(boolz(c), t[j][1], v)
                            body.append(('one', v))
                        tails = []
                    except Unsupported:
                        body = []
                if len(tails) == len(nexts) > 1:
                    tails, front = factor_tails(tails)
                    body += front
                for c, tail in tails:
                    if not tail:
                        continue
                    if len(nexts) == 1:
                        body += list(tail)
                    else:
                        body.append(('if', c, tuple(tail)))
                ini = init[1] if init[0] == 'items' else items_of_v(init)
                v = ('items', tuple(ini) + ((('loop', k, lo, stop, tuple(body)),) if body else ()))
            elif st in ('list-arr', 'fn', 'narr'):
                b0 = base[q][2] if st == 'list-arr' else base[q].f['fn'] if st == 'narr' else base[q]
                ups = []
                whole = None
                for conds, val in brs:
                    fn = val
                    if st == 'list-arr':
                        if val[0] != 'arr':
                            raise Unsupported('list changed in different ways in a loop')
                        fn = val[2]
                    elif st == 'narr':
                        fn = val.f['fn']
                    chain = []
                    x = fn
                    while isinstance(x, (Upd, RangeUpd, LoopUpd)):
                        chain.append(x)
                        x = x.base
                    if x is not b0:
                        whole = fn
                        break
                    c = py(z3.And(*[clean(boolz(y)) for y in conds])) if conds and len(nexts) > 1 else True
                    ups += [(c, u) for u in reversed(chain)]
                if whole is not None:
                    raise Unsupported(f'array replaced in a loop: {q[1:]} {type(whole).__name__} {type(b0).__name__}')
                owns = [b['own'].get(q) for b in res]
                if any(o is not None and o.used for o in owns):
                    xs = [u for _, u in ups] + [u for b in exits if q in b['eff'] for u in chain_of(b['eff'][q][2])]
                    if any(not u.idx or not isz(u.idx[0]) or not u.idx[0].eq(k) for u in xs):
                        raise Unsupported('read of loop-modified state: ' + str(q[2]))
                self.no_clash(k, lo, stop, ups, clean)
                init_fn = init.f['fn'] if st == 'narr' else init[2] if st == 'list-arr' and init[0] == 'arr' else arr_of_v(init)[1] if st == 'list-arr' else init
                cur = init_fn
                dm = lambda x: deepmap(x, clean)
                for c, u in ups:
                    cur = LoopUpd(cur, k, lo, stop, u, dm, c)
                if st == 'narr':
                    v = NArr(init.f['shape'], cur, init.f['dtype'])
                    v.frozen = v.local = True
                else:
                    v = ('arr', init[1] if init[0] == 'arr' else arr_of_v(init)[0], cur) if st == 'list-arr' else cur
            else:
                raise Unsupported('loop effect ' + st)
            self.store(q, holder, v, env)
        if exit_b is not None:
            at = lambda e: py(z3.substitute(clean(e), (k, k1))) if isz(e) else e
            for q, (holder, init, val) in exit_b['eff'].items():
                st = locs[q][2] if q in locs else 'new'
                if st == 'narr':
                    raise Unsupported('array replaced on the way out of a loop')
                if st == 'list-items':
                    cur = holder.f[q[2]]
                    tail = deepmap_items(val[1][1:], at)
                    self.store(q, holder, ('items', tuple(cur[1] if cur[0] == 'items' else items_of_v(cur)) + tuple(tail)), env)
                elif st in ('list-arr', 'fn'):
                    fn = val[2] if st == 'list-arr' else val
                    chain = []
                    while isinstance(fn, (Upd, RangeUpd, LoopUpd)):
                        chain.append(fn)
                        fn = fn.base
                    cur = holder.f[q[2]]
                    cur = cur[2] if st == 'list-arr' else cur
                    for u in reversed(chain):
                        cur = AtUpd(cur, u, at)
                    self.store(q, holder, ('arr', init[1], cur) if st == 'list-arr' else cur, env)
                elif st[:3] == 'ref':
                    v = at(val)
                    self.store(q, holder, v if isinstance(v, Poison) else Ref(st.split(':')[1], v, st[3] == '?'), env)
                else:
                    self.store(q, holder, deepmap(val, at), env)
            if exit_b['end'][0] == 'break':
                raise Brk()
            raise Ret(deepmap(exit_b['end'][1], at))

    def merge_exits(self, exits, locs, base):
        'the ways to leave the loop by break as one, when they differ only in the values of scalars'
        # exceptions of one kind (what the iterations before did is not looked at afterwards: see below)
        for kind in sorted({b['end'][1].kind for b in exits if b['end'][0] == 'raise'}):
            rs = [b for b in exits if b['end'][0] == 'raise' and b['end'][1].kind == kind]
            if len(rs) > 1:
                conds = [z3.And(*[boolz(c) for c in b['conds']]) if b['conds'] else z3.BoolVal(True) for b in rs]
                one = dict(rs[0], conds=[z3.Or(*conds)], facts=[boolz(f) if f.get_id() in b['defs'] else z3.Implies(c, boolz(f)) for c, b in zip(conds, rs) for f in b['facts']],
                           defs={i: d for b in rs for i, d in b['defs'].items()}, eff={}, obls=[], recs=[g for b in rs for g in b['recs']])
                exits = [b for b in exits if not any(b is r for r in rs)] + [one]
        brk = [b for b in exits if b['end'][0] == 'break']
        if len(brk) < 2:
            return exits
        scalar = lambda q: q in locs and (locs[q][2] in ('int', 'real', 'bool') or locs[q][2][:3] == 'ref')
        same = lambda u, v: u is v or type(u) is type(v) and (u.eq(v) if isz(u) else isinstance(u, Ref) and u.cls == v.cls and eq(u.oid, v.oid) is True or isinstance(u, (bool, int, str)) and u == v)
        keys = {q for b in brk for q in b['eff']}
        conds = [z3.And(*[boolz(c) for c in b['conds']]) if b['conds'] else z3.BoolVal(True) for b in brk]
        eff = {}
        for q in keys:
            vals = [b['eff'][q][2] if q in b['eff'] else base.get(q, Missing) for b in brk]
            holder, init = next((b['eff'][q][0], b['eff'][q][1]) for b in brk if q in b['eff'])
            if all(same(v, vals[0]) for v in vals[1:]):
                v = vals[0]
            elif scalar(q) and all(isz(v) or isinstance(v, (bool, int, Fraction)) for v in vals):
                v = vals[-1]
                for c, u in list(zip(conds, vals))[-2::-1]:
                    v = ite_v(c, u, v)
            else:
                return exits
            eff[q] = (holder, init, v)
        one = {'conds': [z3.Or(*conds)], 'facts': [boolz(f) if f.get_id() in b['defs'] else z3.Implies(c, boolz(f)) for c, b in zip(conds, brk) for f in b['facts']],
               'defs': {i: d for b in brk for i, d in b['defs'].items()}, 'end': ('break', None), 'eff': eff, 'syms': base, 'obls': [],
               'recs': [g for b in brk for g in b['recs']]}
        return [b for b in exits if b['end'][0] != 'break'] + [one]

    def known_exit(self, k, lo, h, ecs, at):
        'ground instances of "no exit before h" at the exits of the other loops; a choice that contradicts them is dropped'
        ctx = self.ctx
        if ctx.frames:
            return
        inst = lambda k, lo, h, ecs, t: z3.Implies(z3.And(num(lo) <= t, t < num(h)), z3.Not(z3.Or(*[z3.substitute(e, (k, t)) for e in ecs])))
        ts = [x[4] for x in ctx.exits if x[4] is not None]
        for t in ts:
            ctx.fact(inst(k, lo, h, ecs, t))
        if at is not None:
            for k2, lo2, h2, ecs2, _ in ctx.exits:
                ctx.fact(inst(k2, lo2, h2, ecs2, at))
        ctx.exits.append((k, lo, h, ecs, at))
        if ctx.lemmas is not None and len({r['side'] for r in self.prog.recs.values()}) > 1:
            ls = ctx.lemmas(self.prog, ctx.hyps(False))
            if ls and ctx.check(z3.And(*ls)) == z3.unsat:
                raise Infeasible()

    def rec_group(self, k, lo, hi, group, pend, locs, nexts, sb, exits):
        'the carried scalars without a closed form, as mutually recursive sequences'
        ctx = self.ctx
        group = list(group)
        while group:
            syms = [pend[q] for q in group]
            others = [pend[q] for q in pend if q not in group]
            mem, bad = [], None
            for q in group:
                step = pend[q]
                for b in reversed(nexts):
                    v = deepmap(b['eff'][q][2], sb) if q in b['eff'] else pend[q]
                    if not (isnum(v) or isbool(v)):
                        bad = q
                        break
                    x, y = same_sort(v, step) if not (isbool(v) and isbool(step)) else (boolz(v), boolz(step))
                    cs = [sb(boolz(c)) for c in b['conds']]
                    if mentions(x, others) or any(mentions(c, others) for c in cs) or any(has_quant(c) for c in cs):
                        bad = q
                        break
                    step = x if b is nexts[-1] and not exits else z3.If(z3.And(*cs) if cs else z3.BoolVal(True), x, y)
                if bad is not None:
                    break
                mem.append((q, pend[q], locs[q][1], step))
            if bad is not None:
                group.remove(bad)
                continue
            mem, derived = self.derived(k, lo, hi, mem)
            out, facts = ctx.rec(k, lo, hi, mem)
            for q, p, x, e in derived:
                out[q] = (lambda R, x, e: lambda i: z3.substitute(e, (x, R(i))))(out[p], x, e)
            return out, facts
        return None

    def common_conds(self, nexts, sb):
        'ids of the conditions that all iterations that go on have in common'
        sets = [{x.get_id(): x for x in flat_conds(b['conds'], sb)} for b in nexts]
        self.ctx.keep.append(sets)
        return set.intersection(*[set(s) for s in sets]) if len(sets) > 1 else set()

    def flags(self, k, lo, hi, pend, locs, nexts, sb, closed, final, subs):
        again = False
        for q in list(pend):
            r = self.flag_form(k, lo, hi, q, pend, locs, nexts, sb)
            if r is not None:
                closed[q], final[q] = r(k, False), r(hi, True)
                subs.append((pend[q], boolz(closed[q])))
                del pend[q]
                again = True
        return again

    def flag_form(self, k, lo, hi, q, pend, locs, nexts, sb):
        'a flag that iterations only ever set to one constant'
        s = pend[q]
        if not z3.is_bool(s) or not isbool(locs[q][1]):
            return None
        sets, c = [], None
        for b in nexts:
            if q not in b['eff'] or isz(b['eff'][q][2]) and b['eff'][q][2].eq(s):
                continue
            v = b['eff'][q][2]
            v = z3.simplify(boolz(v)) if isbool(v) else None
            if v is None or not (z3.is_true(v) or z3.is_false(v)) or c is not None and z3.is_true(v) != c:
                return None
            c = z3.is_true(v)
            e = z3.And(*[sb(boolz(x)) for x in b['conds']]) if b['conds'] else z3.BoolVal(True)
            if mentions(e, list(pend.values())):
                return None
            sets.append(e)
        if c is None:
            return None
        F, i0 = z3.Or(*sets), boolz(locs[q][1])

        def at(h, facts):
            any_ = self.ctx.first(k, lo, h, F, facts) < num(h)
            return py(z3.simplify(z3.Or(i0, any_) if c else z3.And(i0, z3.Not(any_))))
        return at

    def derived(self, k, lo, hi, mem):
        'members that are a function of another member throughout (by induction): left out of the group'
        out = []
        nz = lambda e: num(e) if not isbool(e) else boolz(e)
        changed = True
        while changed and len(mem) > 1:
            changed = False
            for q in mem:
                for p in mem:
                    i0, j0 = nz(q[2]), nz(p[2])
                    if p is q or z3.is_int_value(j0) or z3.is_rational_value(j0) or z3.is_true(j0) or z3.is_false(j0) or j0.sort() != p[1].sort() or i0.sort() != q[1].sort() or not mentions(i0, [j0]) or i0.eq(j0):
                        continue
                    e = z3.substitute(i0, (j0, p[1]))
                    if mentions(e, [m[1] for m in mem if m is not p] + [k]):
                        continue
                    f = lambda t: z3.substitute(t, (q[1], e))
                    if nz(p[3]).sort() != p[1].sort() or nz(q[3]).sort() != q[1].sort():
                        continue
                    r = self.ctx.check(z3.And(num(lo) <= k, k < num(hi), f(nz(q[3])) != z3.substitute(e, (p[1], f(nz(p[3]))))))
                    if r == z3.unsat:
                        mem = [(m[0], m[1], m[2], f(nz(m[3]))) for m in mem if m is not q]
                        out = [(a, b, x, f(t)) for a, b, x, t in out] + [(q[0], p[0], p[1], e)]
                        changed = True
                        break
                if changed:
                    break
        return mem, out[::-1]

    def map_recs(self, b, f):
        'the recurrences of inner loops mention what the outer loop carries'
        for g in b['recs']:
            r = self.prog.recs.get(g)
            if r is not None:
                r['lo'], r['hi'], r['inits'], r['steps'] = f(r['lo']), f(r['hi']), [f(e) for e in r['inits']], [f(e) for e in r['steps']]

    def map_branch(self, b, f, pairs):
        'rename the unknowns of a branch'
        poison = {}
        for x, y in pairs:
            if isinstance(x, Poison):
                poison[id(x)] = y
            elif isinstance(x, NArr):
                poison[id(x.f['fn'])] = y.f['fn']
            elif isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] == 'items':
                poison[id(x[1][0][1])] = y[1][0][1]
            elif isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] == 'arr':
                poison[id(x[2])] = y[2]

        def mp(v):
            if isinstance(v, Poison):
                return poison.get(id(v), v)
            if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] in ('items', 'arr'):
                if v[0] == 'items':
                    return ('items', tuple(('base', poison.get(id(i[1]), i[1])) if i[0] == 'base' else deepmap_items((i,), f)[0] for i in v[1]))
                return ('arr', deepmap(v[1], f), mp(v[2]))
            if isinstance(v, (Upd, RangeUpd, LoopUpd)):
                return MapUpd(mp(v.base), v, f)
            if isinstance(v, NArr) and any(isinstance(u, NArr) for u, _ in pairs):
                r = NArr(deepmap(v.f['shape'], f), mp(v.f['fn']), v.f['dtype'])
                r.frozen = r.local = True
                return r
            return deepmap(v, f)
        b['conds'] = [f(boolz(c)) for c in b['conds']]
        b['facts'] = [f(c) for c in b['facts']]
        b['defs'] = {d.get_id(): d for d in map(f, b['defs'].values())}
        for o in b['obls']:
            o.goal = f(o.goal)
            o.hyps = [f(h) if isz(h) else h for h in o.hyps]
        b['eff'] = {q: (h, i, mp(v)) for q, (h, i, v) in b['eff'].items()}
        if b['end'][0] == 'return':
            b['end'] = ('return', deepmap(b['end'][1], f))

    def store(self, q, holder, v, env):
        if q[0] == 'var':
            if v is Missing:
                env.v.pop(q[1], None)
            else:
                env.v[q[1]] = v
        else:
            self.ctx.put(holder, q[2], v)

    def no_clash(self, k, lo, hi, ups, clean):
        'different writes of different iterations never hit the same element'
        ctx = self.ctx
        for i, (c1, u1) in enumerate(ups):
            for c2, u2 in ups[i + 1:]:
                ka, kb = z3.FreshInt('ka'), z3.FreshInt('kb')
                cs = [num(lo) <= ka, ka < num(hi), num(lo) <= kb, kb < num(hi), ka != kb]
                cs += [boolz(subst(c1, k, ka)), boolz(subst(c2, k, kb))]
                for a, b in zip(u1.idx, u2.idx):
                    if a is not None and b is not None:
                        cs.append(boolz(eq(subst(clean(a) if isz(a) else a, k, ka), subst(clean(b) if isz(b) else b, k, kb))))
                if ctx.check(z3.And(*cs)) != z3.unsat:
                    raise Unsupported('overlapping writes in a loop')

    def closed_form(self, k, lo, hi, s, init, vals, conds, left, q):
        '''(value at the start of iteration k, value after the loop, facts) of a carried scalar, or None'''
        ctx = self.ctx
        if all(isz(v) and v.eq(s) for v in vals):
            return init, init, []
        if any(isinstance(v, (Poison, Inf)) or v is None for v in vals):
            return None
        free = lambda e: not mentions(e, left)
        if z3.is_bool(s):
            # flag that is only ever set: v in {s, constant}
            return None
        if any(not isnum(v) for v in vals):
            return None
        # maximum / minimum
        for tag in ('PYMAX', 'PYMIN'):
            if len(vals) == 1 and isz(vals[0]) and z3.is_app(vals[0]) and vals[0].decl().name() == tag and vals[0].arg(0).eq(s) and free(vals[0].arg(1)):
                t = vals[0].arg(1)
                fold = ctx.binder('FOLD' + tag, k, lo, hi, t)
                j, w = z3.FreshInt('j'), ctx.fresh('w')
                tb = lambda i: z3.substitute(t, (k, i))
                up = (lambda a, b: a >= b) if tag == 'PYMAX' else (lambda a, b: a <= b)
                facts = [z3.ForAll([j], z3.Implies(z3.And(num(lo) <= j, j < num(hi)), up(fold, tb(j)))),
                         z3.Implies(num(lo) < num(hi), z3.And(num(lo) <= w, w < num(hi), fold == tb(w)))]
                if isinstance(init, Inf):
                    if not ctx.entails(lt(lo, hi)):
                        return None
                    return None if False else (z3.FreshReal('partial'), fold, facts)
                v = py(z3.If(up(real(init), real(fold)), real(init), real(fold)))
                return z3.FreshReal('partial'), py(z3.If(num(lo) < num(hi), num(v), real(init))), facts
        if not isnum(init):
            return None
        zs = [num(v) for v in vals]
        incs = [py(z3.simplify(v - s, som=True)) for v in zs]
        if len(incs) > 1 and all(eq(x, incs[0]) is True for x in incs[1:]):
            incs, conds, zs = incs[:1], [], zs[:1]      # the same change in every branch
        if all(free(x) for x in incs) and all(free(c) for c in conds):
            inc = num(incs[-1])
            for c, i in list(zip(conds, incs))[-2::-1]:
                inc = z3.If(c, num(i), inc)
            if len(incs) > 1 and False:
                pass
            if not mentions(inc, [k]):
                cf = add(init, mul(sub(k, lo), py(inc)))
                return cf, add(init, mul(sub(hi, lo), py(inc))), []
            # partial sums of the increments: a function shared by all sums of the same terms
            j = z3.FreshInt('j')
            inc = z3.ToReal(inc) if z3.is_real(s) and z3.is_int(inc) else inc
            inc_j = z3.substitute(inc, (k, j))
            i0 = real(init) if z3.is_real(s) else num(init)
            S = lambda i: ctx.binder('SUM', k, lo, i, inc)
            zero = z3.RealVal(0) if z3.is_real(s) else z3.IntVal(0)
            P = lambda i: i0 + S(i)
            facts = [S(lo) == zero, z3.ForAll([j], z3.Implies(z3.And(num(lo) <= j, j < num(hi)), S(j + 1) == S(j) + inc_j), patterns=[S(j)])]
            if z3.is_int(s):
                # increments that are never negative: the partial sums are monotone (induction)
                if ctx.check(z3.And(num(lo) <= k, k < num(hi), inc < 0), quant=True) == z3.unsat:
                    a, b = z3.FreshInt('a'), z3.FreshInt('b')
                    facts.append(z3.ForAll([a, b], z3.Implies(z3.And(num(lo) <= a, a < b, b <= num(hi)), S(a) + z3.substitute(inc, (k, a)) <= S(b)), patterns=[z3.MultiPattern(S(a), S(b))]))
                    facts.append(z3.ForAll([a], z3.Implies(z3.And(num(lo) <= a, a <= num(hi)), z3.And(S(a) >= 0, S(a) <= S(hi))), patterns=[S(a)]))
            return P(k), P(hi), facts
        if all(free(v) for v in zs) and all(free(c) for c in conds):
            v = zs[-1]
            for c, x in list(zip(conds, zs))[-2::-1]:
                v = z3.If(c, x, v)
            i0 = real(init) if z3.is_real(s) else num(init)
            return (py(z3.If(k == num(lo), i0, z3.substitute(v, (k, k - 1)))), py(z3.If(num(lo) < num(hi), z3.substitute(v, (k, num(hi) - 1)), i0)), [])
        return None

    # ---------------------------------------------------------------- expressions
    def cond(self, node, env):
        'value of a condition; symbolic and/or/comparisons are kept symbolic where that is safe'
        return truth(self.ctx, self.ev(node, env))

    def ev(self, node, env):
        m = getattr(self, 'ev_' + type(node).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(node).__name__)
        v = m(node, env)
        if isinstance(v, Poison):
            raise Unsupported('read of a variable with no known value after a loop: ' + v.what)
        return v

    def ev_Constant(self, node, env):
        v = node.value
        if isinstance(v, float):
            return Fraction(repr(v)) if v == v and abs(v) != float('inf') else Inf(1 if v > 0 else -1)
        return v

    def ev_Name(self, node, env):
        return self.name(node.id, env)

    def ev_Tuple(self, node, env):
        return tuple(self.ev(x, env) for x in node.elts)

    def ev_List(self, node, env):
        return PList(items=[('one', self.ev(x, env)) for x in node.elts])

    def ev_Attribute(self, node, env):
        return self.models.getattr(self, self.ev(node.value, env), node.attr)

    def ev_Call(self, node, env):
        if isinstance(node.func, ast.Name) and node.func.id == '@filled':
            return self.models.filled(self, *[self.ev(a, env) for a in node.args])
        f = self.ev(node.func, env)
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if isinstance(v, tuple):
                    args += list(v)
                else:
                    raise Unsupported('starred argument')
            else:
                args.append(self.ev(a, env))
        kw = {}
        for x in node.keywords:
            if x.arg is None:
                raise Unsupported('** argument')
            kw[x.arg] = self.ev(x.value, env)
        return self.call(f, args, kw)

    def ev_Lambda(self, node, env):
        return FuncRef(env.mod, node, None, env)

    def ev_UnaryOp(self, node, env):
        if isinstance(node.op, ast.Not):
            return Not(self.cond(node.operand, env))
        v = self.ev(node.operand, env)
        if isinstance(node.op, ast.USub):
            return self.models.neg(self, v)
        if isinstance(node.op, ast.UAdd):
            return v
        raise Unsupported('unary operator')

    def ev_BinOp(self, node, env):
        return self.models.binop(self, type(node.op).__name__, self.ev(node.left, env), self.ev(node.right, env))

    def guarded(self, c, thunk):
        'evaluate under an assumption without deciding a path'
        ctx = self.ctx
        lv = len(ctx.frames)
        n = len(ctx.pcs[-1])
        ctx.nobranch += 1
        try:
            ctx.pcs[-1].append(boolz(c))
            return thunk()
        finally:
            ctx.nobranch -= 1
            del ctx.pcs[-1][n:]

    def ev_BoolOp(self, node, env):
        isand = isinstance(node.op, ast.And)
        first = self.ev(node.values[0], env)
        if not isbool(first):
            t = py(truth(self.ctx, first))
            if not isinstance(t, bool):
                t = self.ctx.branch(t)
            if isand:
                if not t:
                    return first
            elif t:
                return first
            rest = node.values[1:]
            return self.ev(rest[0], env) if len(rest) == 1 else self.ev_BoolOp(ast.BoolOp(node.op, rest), env)
        acc = py(first)
        for i, x in enumerate(node.values[1:]):
            if isinstance(acc, bool):
                if acc != isand:
                    return acc
                acc = self.ev(x, env)
                if not isbool(acc):
                    acc = truth(self.ctx, acc)
                acc = py(acc)
                continue
            mark = len(self.ctx.journal), len(self.ctx.obls), self.ctx.uid
            try:
                v = self.guarded(acc if isand else Not(acc), lambda: truth(self.ctx, self.ev(x, env)))
                if len(self.ctx.journal) != mark[0]:
                    raise NeedBranch()
                acc = And(acc, v) if isand else Or(acc, v)
            except NeedBranch:
                self.ctx.rollback(mark[0])
                del self.ctx.obls[mark[1]:]
                if self.ctx.nobranch:
                    raise
                b = self.ctx.branch(acc)
                acc = b if b != isand else py(truth(self.ctx, self.ev(x, env)))
        return acc

    def ev_IfExp(self, node, env):
        c = py(self.cond(node.test, env))
        if isinstance(c, bool):
            return self.ev(node.body if c else node.orelse, env)
        if self.ctx.entails(c):
            return self.ev(node.body, env)
        if self.ctx.entails(Not(c)):
            return self.ev(node.orelse, env)
        mark = len(self.ctx.journal), len(self.ctx.obls)
        try:
            a = self.guarded(c, lambda: self.ev(node.body, env))
            b = self.guarded(Not(c), lambda: self.ev(node.orelse, env))
            if len(self.ctx.journal) != mark[0]:
                raise NeedBranch()
            if not (isnum(a) or isbool(a)) or not (isnum(b) or isbool(b)):
                raise NeedBranch()
            return ite_v(c, a, b)
        except NeedBranch:
            self.ctx.rollback(mark[0])
            del self.ctx.obls[mark[1]:]
            if self.ctx.nobranch:
                raise
            return self.ev(node.body if self.ctx.branch(c) else node.orelse, env)

    def ev_Compare(self, node, env):
        left = self.ev(node.left, env)
        out = []
        for op, r in zip(node.ops, node.comparators):
            right = self.ev(r, env)
            out.append(self.models.compare(self, type(op).__name__, left, right))
            left = right
        return py(And(*[boolz(x) if isz(x) else x for x in out])) if len(out) > 1 else out[0]

    def index(self, node, env):
        if isinstance(node, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, env)
            return ('slice', f(node.lower), f(node.upper), f(node.step))
        if isinstance(node, ast.Tuple):
            return tuple(['multi'] + [self.index(x, env) for x in node.elts])
        return self.ev(node, env)

    def ev_Subscript(self, node, env):
        return self.models.getitem(self, self.ev(node.value, env), self.index(node.slice, env))

    def ev_JoinedStr(self, node, env):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                try:
                    parts.append(self.ev(v.value, env))
                except Unsupported:
                    parts.append('?')
        return SStr(parts)

    def ev_ListComp(self, node, env):
        out = PList()
        env2 = Env(env.mod, env.func, env)

        def gen(i):
            if i == len(node.generators):
                self.models.append(self, out, self.ev(node.elt, env2))
                return
            g = node.generators[i]
            seq = self.ev(g.iter, env2)

            def body():
                for c in g.ifs:
                    if not self.ctx.branch(self.cond(c, env2)):
                        return
                gen(i + 1)
            self.run_for(seq, lambda v: self.assign(g.target, v, env2), body, env2, node)
        gen(0)
        return out

    ev_GeneratorExp = ev_ListComp

    def ev_Dict(self, node, env):
        if not node.keys and self.prog.schema.get('__keys__'):
            return KeyList()
        if not node.keys and self.prog.schema.get('__maps__'):
            return MapLog()
        d = PDict()
        for k, v in zip(node.keys, node.values):
            if k is None:
                raise Unsupported('dict display with **')
            self.models.setitem(self, d, self.ev(k, env), self.ev(v, env))
        return d

    def ev_Set(self, node, env):
        raise Unsupported('set')


class MapUpd:
    'an update with its symbols renamed'
    def __new__(cls, base, u, f):
        if isinstance(u, Upd):
            return Upd(base, deepmap(u.idx, f), lambda *a: deepmap(u.v(*a), f), deepmap(u.cond, f) if isz(u.cond) else u.cond)
        idx = deepmap(u.idx, f)
        return RangeUpd(base, lambda *a: deepmap(u.test(a), f), lambda *a: deepmap(u.val(a), f), idx)


def chain_of(v):
    'the updates of a container, last first'
    if isinstance(v, tuple):
        v = v[2] if v[0] == 'arr' else None
    out = []
    while isinstance(v, (Upd, RangeUpd, LoopUpd)):
        out.append(v)
        v = v.base
    return out


def AtUpd(base, u, at):
    return RangeUpd(base, lambda *a: deepmap(u.test(a), at), lambda *a: deepmap(u.val(a), at), deepmap(u.idx, at))


def deepmap_items(items, f):
    out = []
    for it in items:
        if it[0] == 'one':
            out.append(('one', deepmap(it[1], f)))
        elif it[0] == 'loop':
            out.append(('loop', it[1], deepmap(it[2], f), deepmap(it[3], f), deepmap_items(it[4], f)))
        elif it[0] == 'if':
            out.append(('if', deepmap(it[1], f), deepmap_items(it[2], f)))
        elif it[0] == 'base':
            out.append(it)
        else:
            out.append(('mark', deepmap(it[1], f)))
    return tuple(out)


def arr_of_v(v):
    l = PList()
    l.f['v'] = v
    return arr_of(l)


def items_of_v(v):
    l = PList()
    l.f['v'] = v
    return items_of(l)


def flat_conds(conds, sb):
    out = []
    st = [z3.simplify(sb(boolz(c))) for c in conds][::-1]
    while st:
        e = st.pop()
        if z3.is_and(e):
            st += list(e.children())[::-1]
        elif not z3.is_true(e):
            out.append(e)
    return out


def same_entry(a, b):
    if a[0] != b[0] or a[0] not in ('one', 'loop'):
        return False
    return repr_items([a]) == repr_items([b])


def factor_tails(tails):
    '(elements that every path appends first, what is left; paths with the same rest together)'
    tails = [(c, [x for x in t if x[0] != 'mark']) for c, t in tails]
    front = []
    while all(t for _, t in tails) and all(same_entry(t[0], tails[0][1][0]) for _, t in tails[1:]):
        front.append(tails[0][1][0])
        tails = [(c, t[1:]) for c, t in tails]
    out = []
    for c, t in tails:
        for i, (c2, t2) in enumerate(out):
            if len(t) == len(t2) and all(same_entry(x, y) for x, y in zip(t, t2)):
                out[i] = (py(z3.Or(boolz(c2), boolz(c))), t2)
                break
        else:
            out.append((c, t))
    return [(c, tuple(t)) for c, t in out], front


def rank(st):
    return {'int': 0, 'real': 1, 'list-arr': 0, 'list-items': 1}.get(st, 0 if st.startswith('ref:') else 1 if st.startswith('ref?') else 2)
