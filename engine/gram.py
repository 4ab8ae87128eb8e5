'''Loop invariants over inner-product spaces: the functions that build an orthonormal list of directions (C21).

The statements of the real function are executed symbolically, every path, with vectors as linear combinations of unknown
vectors and their inner products as unknown reals.  Each loop is cut at its head.  What holds at the head is found from a
fixed stock of candidate invariants (unit rows, pairwise orthogonal rows, a vector orthogonal to the rows visited so far,
bounds of counters, ...): those that do not hold on entry or are not kept by the body are dropped until the rest is
inductive, and what is left is assumed.  The postconditions and the obligations met on the way are then discharged by z3.
Functions of the same module are executed in place.  Anything else is Unsupported (undecided).

Floats are reals; termination is not shown (partial correctness).
'''
import ast, itertools, time
import z3
from core import Unsupported

CNT = itertools.count()


class Vec:
    'linear combination of atoms; own: no list or argument shares its storage'
    def __init__(self, c, dim, own):
        self.c, self.dim, self.own = c, dim, own


class VList:
    'n unknown elements followed by the vectors appended since'
    def __init__(self, name, n, dim, tail=()):
        self.name, self.n, self.dim, self.tail = name, n, dim, list(tail)

    def size(self):
        return self.n + len(self.tail)


class Mat:
    def __init__(self, name, rows, cols, kind='array'):
        self.name, self.rows, self.cols, self.kind = name, rows, cols, kind


class Rows:
    'the array made of a list of vectors'
    def __init__(self, lst):
        self.lst = lst


class Fn:
    def __init__(self, name):
        self.name = name


class Seq:
    'a plain list or array of numbers of known length that is only used to make a vector'
    def __init__(self, n):
        self.n = n


class Tup(tuple):
    pass


class Raised(Exception):
    pass


class State:
    def __init__(self):
        self.env, self.pc, self.schemas, self.norms, self.reads = {}, [], [], [], []

    def clone(self):
        s = State()
        memo = {}
        s.env = {k: dup(v, memo) for k, v in self.env.items()}
        s.pc, s.schemas, s.norms, s.reads = list(self.pc), list(self.schemas), list(self.norms), list(self.reads)
        return s


def dup(v, memo):
    if isinstance(v, Vec):
        if id(v) not in memo:
            memo[id(v)] = Vec(dict(v.c), v.dim, v.own)
        return memo[id(v)]
    if isinstance(v, VList):
        if id(v) not in memo:
            memo[id(v)] = VList(v.name, v.n, v.dim, [dup(x, memo) for x in v.tail])
        return memo[id(v)]
    if isinstance(v, Tup):
        return Tup(dup(x, memo) for x in v)
    if isinstance(v, Rows):
        return Rows(dup(v.lst, memo))
    return v


# atoms: ('el', list name, index) | ('v', number, tag)   keyed by a string
ATOMS = {}


def atom(kind, *rest):
    key = '|'.join([kind] + [str(z3.simplify(r)) if isinstance(r, z3.ExprRef) else str(r) for r in rest])
    ATOMS.setdefault(key, (kind,) + rest)
    return key


def el(lst, i):
    return atom('el', lst, i if isinstance(i, z3.ExprRef) else z3.IntVal(i))


def D(a, b):
    x, y = sorted((a, b))
    return z3.Real('D<' + x + '><' + y + '>')


def real(x):
    if isinstance(x, z3.ExprRef):
        return z3.ToReal(x) if z3.is_int(x) else x
    return z3.RealVal(repr(x) if isinstance(x, float) else x)


def num(x):
    if isinstance(x, bool):
        raise Unsupported('boolean as a number')
    if isinstance(x, z3.ExprRef):
        return x
    return z3.IntVal(x) if isinstance(x, int) else z3.RealVal(repr(x))


def lin(*terms):
    'sum of coefficient * combination'
    out = {}
    for k, c in terms:
        for a, x in c.items():
            e = z3.simplify(k * x)
            out[a] = z3.simplify(out[a] + e) if a in out else e
    return {a: x for a, x in out.items() if not (z3.is_rational_value(x) and x.numerator_as_long() == 0)}


def dot(c1, c2):
    r = z3.RealVal(0)
    for a, x in c1.items():
        for b, y in c2.items():
            r = r + x * y * D(a, b)
    return z3.simplify(r)


def dvars(es):
    'pairs of atoms whose product occurs'
    out, seen, st = {}, set(), list(es)
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = e.decl().name()
            if n.startswith('D<'):
                a, b = n[2:-1].split('><')
                out[n] = (a, b, e)
        st.extend(e.children())
    return out


class Exec:
    def __init__(self, prog, mod, qual, tmo=4000):
        self.prog, self.mod, self.qual, self.tmo = prog, mod, qual, tmo
        self.obls, self.quiet, self.steps, self.depth, self.solver_s = [], 0, [], 0, 0.0
        self.deadline = time.time() + 80
        self.memo = {}

    # ---- solver
    def valid(self, s, goal):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        fs = [z3.Not(goal)] + s.pc
        insts, done = [], set()
        for _ in range(3):
            new = []
            dv = dvars(fs + insts)
            els = {}
            for n, (a, b, e) in dv.items():
                for x in (a, b):
                    if ATOMS[x][0] == 'el':
                        els[x] = ATOMS[x]
                if (n, 'pos') not in done and a == b:
                    done.add((n, 'pos'))
                    new.append(e >= 0)
            for q, sc in enumerate(s.schemas):
                if sc[0] in ('unit', 'orth'):
                    _, l, n = sc
                    for nm, (a, b, e) in dv.items():
                        if (nm, q) in done or a not in els or b not in els or els[a][1] != l or els[b][1] != l:
                            continue
                        done.add((nm, q))
                        i, j = els[a][2], els[b][2]
                        if sc[0] == 'unit' and a == b:
                            new.append(z3.Implies(z3.And(i >= 0, i < n), e == 1))
                        if sc[0] == 'orth' and a != b:
                            new.append(z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < n, i != j), e == 0))
                elif sc[0] == 'proj':
                    _, l, lo, hi, c = sc
                    for x, at in els.items():
                        if at[1] == l and (x, q) not in done:
                            done.add((x, q))
                            new.append(z3.Implies(z3.And(at[2] >= lo, at[2] < hi), dot({x: z3.RealVal(1)}, c) == 0))
            if not new:
                break
            insts += new
        key = (tuple(sorted(f.get_id() for f in fs)), tuple(sorted(f.get_id() for f in insts)))
        hit = self.memo.get(key)
        if hit is not None:
            return hit[0]
        if time.time() > self.deadline:
            raise Unsupported('time limit')
        t = time.time()
        sl = z3.Solver()
        sl.set('timeout', self.tmo)
        sl.add(*fs, *insts)
        r = sl.check()
        self.solver_s += time.time() - t
        self.memo[key] = (r == z3.unsat, fs, insts)
        self.last = r
        return r == z3.unsat

    def feasible(self, s):
        return not self.valid(s, z3.BoolVal(False))

    def oblige(self, s, name, goal):
        if self.quiet:
            return
        ok = self.valid(s, goal)
        self.obls.append((name, 'proved' if ok else 'undecided', '' if ok else str(self.last)))

    # ---- statements
    def block(self, body, s):
        states, out = [s], []
        for st in body:
            nxt = []
            for x in states:
                for y, end in self.stmt(st, x):
                    if end is None:
                        nxt.append(y)
                    else:
                        out.append((y, end))
            states = nxt
            if len(states) > 60:
                raise Unsupported('too many paths')
        return out + [(x, None) for x in states]

    def stmt(self, st, s):
        if time.time() > self.deadline:
            raise Unsupported('time limit')
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(st).__name__)
        return m(st, s)

    def st_Pass(self, st, s):
        return [(s, None)]

    def st_Expr(self, st, s):
        if isinstance(st.value, ast.Constant):
            return [(s, None)]
        return [(x, None) for x, _ in self.ev(st.value, s)]

    def st_Break(self, st, s):
        return [(s, 'break')]

    def st_Continue(self, st, s):
        return [(s, 'continue')]

    def st_Return(self, st, s):
        if st.value is None:
            return [(s, ('return', None))]
        return [(x, ('return', v)) for x, v in self.ev(st.value, s)]

    def st_Assert(self, st, s):
        out = []
        for x, c in self.cond(st.test, s):
            self.oblige(x, f'line {st.lineno - self.base} of the function: does not refuse', c)
            x.pc.append(c)
            if self.feasible(x):
                out.append((x, None))
        return out

    def st_Raise(self, st, s):
        self.oblige(s, f'line {st.lineno - self.base} of the function: does not refuse', z3.BoolVal(False))
        return []

    def st_If(self, st, s):
        out = []
        for x, c in self.cond(st.test, s):
            for val, body in ((c, st.body), (z3.Not(c), st.orelse)):
                y = x.clone()
                val = z3.simplify(val)
                if z3.is_false(val):
                    continue
                if not z3.is_true(val):
                    y.pc.append(val)
                    if not self.feasible(y):
                        continue
                out += self.block(body, y)
        return out

    def st_Assign(self, st, s):
        out = []
        for x, v in self.ev(st.value, s):
            for t in st.targets:
                self.assign(t, v, x)
            out.append((x, None))
        return out

    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            s.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, Tup) and len(v) == len(t.elts):
            for a, b in zip(t.elts, v):
                self.assign(a, b, s)
        else:
            raise Unsupported('assignment')

    def st_AugAssign(self, st, s):
        if not isinstance(st.target, ast.Name):
            raise Unsupported('augmented assignment')
        out = []
        for x, v in self.ev(st.value, s):
            old = self.name(st.target.id, x)
            new = self.arith(st.op, old, v, x)
            if isinstance(old, Vec):
                self.oblige(x, f'line {st.lineno - self.base} of the function: only a vector nothing else shares is changed in place', old.own)
                old.c = new.c
            else:
                x.env[st.target.id] = new
            out.append((x, None))
        return out

    def st_While(self, st, s):
        if st.orelse:
            raise Unsupported('while-else')
        return self.loop(s, st, lambda x: self.cond(st.test, x), st.body, None)

    def st_For(self, st, s):
        if st.orelse:
            raise Unsupported('for-else')
        out = []
        for x, it in self.ev(st.iter, s):
            if isinstance(it, Fn) and it.name[0] == 'range':
                lo, hi, get = it.name[1], it.name[2], None
            elif isinstance(it, VList):
                if it.tail:
                    raise Unsupported('iteration over a list that has just grown')
                lo, hi, get = z3.IntVal(0), it.n, it
            else:
                raise Unsupported('iteration')
            out += self.loop(x, st, None, st.body, (st.target, lo, hi, get))
        return out

    # ---- loops
    def loop(self, s, st, test, body, rng):
        self.depth += 1
        try:
            return self.loop_(s, st, test, body, rng)
        finally:
            self.depth -= 1

    def loop_(self, s, st, test, body, rng):
        line = f'the loop at line {st.lineno - self.base} of the function'
        init = s.clone()
        kinds = {}        # changed variable -> kinds of value at the head
        grown = set()     # lists that change
        dropped = set()
        k = z3.Int(f'k{next(CNT)}') if rng else None
        quiet = self.quiet
        self.quiet = 1
        for rnd in range(40):
            heads = self.heads(init, kinds, grown, dropped, k, rng, test)
            changed = False
            for h, x0, cands in heads:
                for e, end in self.body(h, x0, test, body, rng, k):
                    if end not in (None, 'continue'):
                        continue
                    for v in init.env:
                        if isinstance(init.env[v], VList) and e.env.get(v) is not None:
                            if not isinstance(e.env[v], VList):
                                raise Unsupported('a list variable is assigned')
                            if (e.env[v].tail or e.env[v].name != h.env[v].name) and v not in grown:
                                if e.env[v].name != h.env[v].name:
                                    raise Unsupported('a list variable is assigned')
                                if rng and isinstance(rng[3], VList) and rng[3].name == init.env[v].name:
                                    raise Unsupported('a list is changed while it is iterated')
                                grown.add(v)
                                changed = True
                            continue
                        kd = self.kind(v, h, e, init)
                        if kd == 'same':
                            # unchanged: still what it was at the head, unless that was tied to the first round or the last element
                            if not (v in kinds and isinstance(e.env[v], Vec) and (rng or any(o.tail for o in e.env.values() if isinstance(o, VList)))):
                                continue
                            kd = 'vec+' if e.env[v].own else 'vec-'
                        if v not in kinds:
                            kinds[v] = [self.kind0(v, init)]
                            changed = True
                        if kd not in kinds[v]:
                            kinds[v].append(kd)
                            changed = True
                    if changed:
                        continue
                    for key, hold in self.candidates(init, e, h, kinds, grown, k, rng):
                        if key not in dropped and not hold():
                            dropped.add(key)
                            changed = True
            if not changed:
                break
        else:
            raise Unsupported('the invariants of a loop do not stabilise')
        self.quiet = quiet
        out = []
        for h, x0, cands in self.heads(init, kinds, grown, dropped, k, rng, test):
            for e, end in self.body(h, x0, test, body, rng, k):
                if end in (None, 'continue'):
                    if not self.quiet:
                        self.steps.append((line, h, e, self.depth, init))
                elif end == 'break':
                    out.append((self.forget(e, init), None))
                else:
                    out.append((self.forget(e, init) if end[0] != 'return' else e, end))
            # leaving by the head
            if rng:
                x = x0.clone()
                x.pc.append(k == z3.If(rng[2] > rng[1], rng[2], rng[1]))
                if self.feasible(x):
                    out.append((self.forget(x, init), None))
            else:
                for x, c in test(x0.clone()):
                    x.pc.append(z3.Not(c))
                    if self.feasible(x):
                        out.append((self.forget(x, init), None))
        if not self.quiet:
            self.obls.append((f'{line}: the invariants hold on entry and are kept', 'proved', ''))
        return out

    def forget(self, s, init):
        for v in list(s.env):
            if v not in init.env:
                del s.env[v]
        return s

    def kind0(self, v, init):
        x = init.env[v]
        return 'none' if x is None else 'init' if isinstance(x, Vec) else 'scalar'

    def kind(self, v, h, e, init):
        a, b = h.env.get(v), e.env.get(v)
        if isinstance(b, Vec):
            if isinstance(a, Vec) and a.c == b.c and a.own == b.own:
                return 'same'
            for l in e.env.values():
                if isinstance(l, VList) and l.tail and l.tail[-1] is b:
                    return 'last'
            return 'vec+' if b.own else 'vec-'
        if b is None:
            return 'same' if a is None else 'none'
        if isinstance(b, (bool, int, float, z3.ExprRef)):
            if type(a) is type(b) and (a.eq(b) if isinstance(a, z3.ExprRef) else a == b):
                return 'same'
            return 'scalar'
        if a is b or isinstance(b, (Mat, Seq, Fn)):
            return 'same'
        raise Unsupported('value carried by a loop')

    def heads(self, init, kinds, grown, dropped, k, rng, test):
        '''arbitrary states at the head: every combination of kinds, unknown values, the candidates that are left'''
        out = []
        names = sorted(kinds)
        for combo in itertools.product(*[kinds[v] for v in names]):
            s = init.clone()
            n = next(CNT)
            for l in sorted(grown):
                o = s.env[l]
                N = z3.Int(f'{l}.len{n}')
                s.pc.append(N >= 0)
                o.name, o.n, o.tail = f'{l}{n}', N, []
            ok = True
            for v, kd in zip(names, combo):
                o = init.env[v]
                if kd == 'none':
                    s.env[v] = None
                elif kd == 'scalar':
                    if isinstance(o, bool) or isinstance(o, z3.BoolRef):
                        s.env[v] = z3.Bool(f'{v}{n}')
                    elif isinstance(o, int) or isinstance(o, z3.ArithRef) and z3.is_int(o):
                        s.env[v] = z3.Int(f'{v}{n}')
                    elif isinstance(o, float) or isinstance(o, z3.ArithRef):
                        s.env[v] = z3.Real(f'{v}{n}')
                    else:
                        raise Unsupported('value carried by a loop')
                elif kd == 'init':
                    # before the first change: in a for loop the first iteration, in a loop that grows a list an empty list
                    if rng:
                        s.pc.append(k == rng[1])
                    else:
                        ls = [l for l in grown]
                        if len(ls) == 1 and not init.env[ls[0]].tail and z3.is_int_value(z3.simplify(init.env[ls[0]].n)):
                            s.pc.append(s.env[ls[0]].n == init.env[ls[0]].n)
                elif kd == 'last':
                    ls = [l for l in grown]
                    if len(ls) != 1:
                        raise Unsupported('several lists grow in a loop')
                    L = s.env[ls[0]]
                    s.pc.append(L.n >= 1)
                    s.env[v] = Vec({el(L.name, L.n - 1): z3.RealVal(1)}, L.dim, False)
                else:
                    d = self.vecdim(init, v, s)
                    base = init.env[v].c if isinstance(init.env[v], Vec) and ('span', v) not in dropped and self.spanlist(init, rng) else {}
                    x = atom('v', next(CNT), ('span', self.spanlist(init, rng)) if base else ('head', v))
                    s.env[v] = Vec(lin((z3.RealVal(1), base), (z3.RealVal(1), {x: z3.RealVal(1)})), d, kd == 'vec+')
            if rng:
                s.pc += [k >= rng[1], z3.Or(k <= rng[2], k == rng[1])]
                s.env['%k'] = k
            if not ok or not self.feasible(s):
                continue
            cands = [c for c in self.candidates(init, s, s, kinds, grown, k, rng, assume=True) if c[0] not in dropped]
            for _, f in cands:
                f()
            if self.feasible(s):
                out.append((s.clone(), s, cands))
        return out

    def spanlist(self, init, rng):
        return rng[3].name if rng and isinstance(rng[3], VList) else ''

    def vecdim(self, init, v, s):
        o = init.env[v]
        if isinstance(o, Vec):
            return o.dim
        for x in init.env.values():
            if isinstance(x, VList):
                return x.dim
        raise Unsupported('length of a vector')

    def candidates(self, init, e, h, kinds, grown, k, rng, assume=False):
        '''(key, function): adds the assumption to the state e, or tells whether it holds in e (a state at the end of the body)'''
        out = []

        def cand(key, formula=None, schema=None, check=None):
            if assume:
                def f():
                    if schema:
                        e.schemas.append(schema)
                    if formula is not None:
                        e.pc.append(formula)
            else:
                f = check or (lambda: self.valid(e, formula))
            out.append((key, f))
        for v in sorted(grown):
            L = e.env[v]
            cand(('unit', v), schema=('unit', L.name, L.n), check=lambda L=L: self.unit(e, L))
            cand(('orth', v), schema=('orth', L.name, L.n), check=lambda L=L: self.orth(e, L))
            for w, o in list(init.env.items()) + [(f'{m}.{d}', getattr(o, d)) for m, o in init.env.items() if isinstance(o, Mat) for d in ('rows', 'cols')]:
                if w in kinds or isinstance(o, bool) or not (isinstance(o, int) or isinstance(o, z3.ArithRef) and z3.is_int(o)):
                    continue
                cand(('len', v, w), L.size() <= o)
        kk = k if assume or k is None else k + 1
        for v, ks in sorted(kinds.items()):
            x = e.env.get(v)
            if isinstance(x, z3.ArithRef) or isinstance(x, int) and not isinstance(x, bool):
                cand(('nonneg', v), num(x) >= 0)
                for m, o in init.env.items():
                    if isinstance(o, Mat):
                        cand(('below', v, m), num(x) <= o.rows)
            if isinstance(x, Vec) and rng and isinstance(rng[3], VList):
                L = e.env[next(n for n, o in e.env.items() if isinstance(o, VList) and o.name == rng[3].name)]
                cand(('proj', v), schema=('proj', L.name, z3.IntVal(0), kk, x.c), check=lambda L=L, x=x: self.proj(e, L, k, x))
                if isinstance(init.env[v], Vec):
                    y = lin((z3.RealVal(1), x.c), (z3.RealVal(-1), init.env[v].c))
                    cand(('later', v), schema=('proj', L.name, kk, L.n, y), check=lambda L=L, y=y: self.later(e, L, k, y))
            if isinstance(x, Vec) and isinstance(init.env[v], Vec) and self.spanlist(init, rng):
                l = self.spanlist(init, rng)
                cand(('span', v), check=lambda x=x, v=v, l=l: self.in_span(lin((z3.RealVal(1), x.c), (z3.RealVal(-1), init.env[v].c)), l))
        return out

    def in_span(self, c, l):
        return all(ATOMS[a][0] == 'el' and ATOMS[a][1] == l or ATOMS[a][0] == 'v' and ATOMS[a][2] == ('span', l) for a in c)

    def skolem(self, s, n):
        i = z3.Int(f'i{next(CNT)}')
        x = s.clone()
        x.pc += [i >= 0, i < n]
        return i, x

    def unit(self, s, L):
        i, x = self.skolem(s, L.n)
        a = el(L.name, i)
        return self.valid(x, D(a, a) == 1) and all(self.valid(s, dot(t.c, t.c) == 1) for t in L.tail)

    def orth(self, s, L):
        i, x = self.skolem(s, L.n)
        j = z3.Int(f'j{next(CNT)}')
        x.pc += [j >= 0, j < i]
        a, b = el(L.name, i), el(L.name, j)
        if not self.valid(x, D(a, b) == 0):
            return False
        for n, t in enumerate(L.tail):
            i, x = self.skolem(s, L.n)
            if not self.valid(x, dot({el(L.name, i): z3.RealVal(1)}, t.c) == 0):
                return False
            if not all(self.valid(s, dot(u.c, t.c) == 0) for u in L.tail[:n]):
                return False
        return True

    def proj(self, s, L, k, x):
        'orthogonal to the elements 0..k'
        if L.tail:
            return False
        i, y = self.skolem(s, k)
        return self.valid(y, dot({el(L.name, i): z3.RealVal(1)}, x.c) == 0) and self.valid(s, dot({el(L.name, k): z3.RealVal(1)}, x.c) == 0)

    def later(self, s, L, k, y):
        if L.tail:
            return False
        i, x = self.skolem(s, L.n)
        x.pc.append(i > k)
        return self.valid(x, dot({el(L.name, i): z3.RealVal(1)}, y) == 0)

    def body(self, h, x0, test, body, rng, k):
        s = x0.clone()
        if rng:
            s.pc.append(k < rng[2])
            if not self.feasible(s):
                return []
            L = rng[3]
            if L is None:
                self.assign(rng[0], k, s)
            else:
                self.assign(rng[0], Vec({el(L.name, k): z3.RealVal(1)}, L.dim, False), s)
            return self.block(body, s)
        out = []
        for x, c in test(s):
            x.pc.append(c)
            if self.feasible(x):
                out += self.block(body, x)
        return out

    # ---- expressions: list of (state, value)
    def ev(self, e, s):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        return m(e, s)

    def evs(self, es, s):
        res = [(s, [])]
        for e in es:
            res = [(y, vs + [v]) for x, vs in res for y, v in self.ev(e, x)]
        return res

    def cond(self, e, s):
        out = []
        for x, v in self.ev(e, s):
            out.append((x, self.truth(v)))
        return out

    def truth(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, z3.BoolRef):
            return v
        if v is None:
            return z3.BoolVal(False)
        if isinstance(v, VList):
            return v.size() > 0
        if isinstance(v, (int, float, z3.ArithRef)):
            return num(v) != 0
        raise Unsupported('truth of a value')

    def ev_Constant(self, e, s):
        return [(s, e.value)]

    def name(self, n, s):
        if n in s.env:
            return s.env[n]
        return Fn((n,))

    def ev_Name(self, e, s):
        return [(s, self.name(e.id, s))]

    def ev_Tuple(self, e, s):
        return [(x, Tup(v)) for x, v in self.evs(e.elts, s)]

    def ev_List(self, e, s):
        if e.elts:
            raise Unsupported('list display')
        n = next(CNT)
        return [(s, VList(f'L{n}', z3.IntVal(0), self.dims))]

    def ev_JoinedStr(self, e, s):
        return [(s, 'text')]

    def ev_Attribute(self, e, s):
        out = []
        for x, v in self.ev(e.value, s):
            if isinstance(v, Fn):
                out.append((x, Fn(v.name + (e.attr,))))
            elif isinstance(v, Mat) and e.attr == 'shape':
                out.append((x, Tup((v.rows, v.cols))))
            elif isinstance(v, Vec) and e.attr == 'shape':
                out.append((x, Tup((v.dim,))))
            elif isinstance(v, (VList, Vec, Mat, str)):
                out.append((x, Fn(('.', v, e.attr))))
            else:
                raise Unsupported('attribute ' + e.attr)
        return out

    def ev_Subscript(self, e, s):
        out = []
        for x, (v, i) in self.evs([e.value, e.slice], s):
            if isinstance(v, Tup) and isinstance(i, int):
                out.append((x, v[i]))
            elif isinstance(v, Mat) and v.kind == 'array' and not isinstance(i, (Tup, bool)):
                i = num(i)
                self.oblige(x, f'line {e.lineno - self.base} of the function: the row exists', z3.And(i >= 0, i < v.rows))
                x.reads.append((v.name, i))
                out.append((x, Vec({atom('v', 'row', ('row', v.name, str(z3.simplify(i)))): z3.RealVal(1)}, v.cols, False)))
                ATOMS[list(out[-1][1].c)[0]] = ('v', 'row', ('row', v.name, i))
            elif isinstance(v, Vec) and not isinstance(i, Tup):
                i = num(i)
                self.oblige(x, f'line {e.lineno - self.base} of the function: the component exists', z3.And(i >= 0, i < v.dim))
                out.append((x, z3.Real(f'comp{next(CNT)}')))
            elif isinstance(v, VList) and not isinstance(i, Tup):
                if v.tail:
                    raise Unsupported('element of a list that has just grown')
                i = v.n + i if isinstance(i, int) and i < 0 else num(i)
                self.oblige(x, f'line {e.lineno - self.base} of the function: the element exists', z3.And(i >= 0, i < v.n))
                out.append((x, Vec({el(v.name, i): z3.RealVal(1)}, v.dim, False)))
            else:
                raise Unsupported('subscript')
        return out

    def ev_UnaryOp(self, e, s):
        out = []
        for x, v in self.ev(e.operand, s):
            if isinstance(e.op, ast.Not):
                out.append((x, z3.Not(self.truth(v))))
            elif isinstance(e.op, ast.USub):
                out.append((x, Vec(lin((z3.RealVal(-1), v.c)), v.dim, True) if isinstance(v, Vec) else -v))
            else:
                raise Unsupported('operator')
        return out

    def ev_BinOp(self, e, s):
        return [(x, self.arith(e.op, a, b, x)) for x, (a, b) in self.evs([e.left, e.right], s)]

    def isnum(self, v):
        return isinstance(v, (int, float, z3.ArithRef)) and not isinstance(v, bool)

    def same_dim(self, s, a, b):
        if a is b or isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b):
            return
        self.oblige(s, 'vectors of one length', num(a) == num(b))

    def arith(self, op, a, b, s):
        o = type(op).__name__
        if isinstance(a, str):
            return a
        if isinstance(a, Vec) and isinstance(b, Vec) and o in ('Add', 'Sub'):
            self.same_dim(s, a.dim, b.dim)
            return Vec(lin((z3.RealVal(1), a.c), (z3.RealVal(1 if o == 'Add' else -1), b.c)), a.dim, True)
        if isinstance(b, Vec) and self.isnum(a) and o == 'Mult':
            a, b = b, a
        if isinstance(a, Vec) and self.isnum(b):
            if o == 'Mult':
                return Vec(lin((real(b), a.c)), a.dim, True)
            if o == 'Div':
                self.oblige(s, 'no division by zero', real(b) != 0)
                inv = z3.Real(f'inv{next(CNT)}')
                s.pc.append(inv * real(b) == 1)
                return Vec(lin((inv, a.c)), a.dim, True)
        if isinstance(a, Mat) and isinstance(b, Vec) and (o == 'Mult' and a.kind == 'csr' or o == 'MatMult'):
            self.same_dim(s, a.cols, b.dim)
            key = atom('v', 'image', ('image', a.name, tuple(sorted((k, str(c)) for k, c in b.c.items()))))
            return Vec({key: z3.RealVal(1)}, a.rows, True)
        if self.isnum(a) and self.isnum(b):
            if o == 'Div':
                a, b = real(a), real(b)
                self.oblige(s, 'no division by zero', b != 0)
                return a / b
            a, b = num(a), num(b)
            if z3.is_int(a) != z3.is_int(b):
                a, b = real(a), real(b)
            if o in ('Add', 'Sub', 'Mult'):
                return z3.simplify({'Add': a + b, 'Sub': a - b, 'Mult': a * b}[o])
            if o == 'Pow' and z3.is_int_value(b) and b.as_long() == 2:
                return a * a
        raise Unsupported('operator ' + o)

    def ev_BoolOp(self, e, s):
        # the operands have no effects that matter when they are not reached
        res = [(s, [])]
        for v in e.values:
            nxt = []
            for x, cs in res:
                y = x.clone()
                y.pc += [c if isinstance(e.op, ast.And) else z3.Not(c) for c in cs]
                n = len(y.pc)
                if not self.feasible(y):
                    nxt.append((x, cs))
                    continue
                r = self.cond(v, y)
                if len(r) != 1:
                    raise Unsupported('branching condition')
                x2, c = r[0]
                x2.pc = x.pc + x2.pc[n:]
                nxt.append((x2, cs + [c]))
            res = nxt
        return [(x, z3.simplify((z3.And if isinstance(e.op, ast.And) else z3.Or)(*cs))) for x, cs in res]

    def ev_IfExp(self, e, s):
        out = []
        for x, c in self.cond(e.test, s):
            for val, sub in ((c, e.body), (z3.Not(c), e.orelse)):
                y = x.clone()
                y.pc.append(val)
                if self.feasible(y):
                    out += self.ev(sub, y)
        return out

    def ev_Compare(self, e, s):
        out = []
        for x, vs in self.evs([e.left] + e.comparators, s):
            c = z3.BoolVal(True)
            for op, a, b in zip(e.ops, vs, vs[1:]):
                c = z3.And(c, self.compare(type(op).__name__, a, b))
            out.append((x, z3.simplify(c)))
        return out

    def compare(self, o, a, b):
        if o in ('Is', 'IsNot', 'Eq', 'NotEq') and (a is None or b is None):
            r = a is None and b is None
            return z3.BoolVal(r if o in ('Is', 'Eq') else not r)
        if o in ('Is', 'IsNot', 'Eq', 'NotEq') and all(isinstance(v, (bool, z3.BoolRef)) for v in (a, b)):
            r = self.truth(a) == self.truth(b)
            return r if o in ('Is', 'Eq') else z3.Not(r)
        if self.isnum(a) and self.isnum(b):
            a, b = num(a), num(b)
            if z3.is_int(a) != z3.is_int(b):
                a, b = real(a), real(b)
            f = {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b, 'Eq': lambda: a == b, 'NotEq': lambda: a != b}.get(o)
            if f:
                return f()
        raise Unsupported('comparison')

    def ev_ListComp(self, e, s):
        if len(e.generators) != 1 or e.generators[0].ifs:
            raise Unsupported('comprehension')
        out = []
        for x, it in self.ev(e.generators[0].iter, s):
            if not (isinstance(it, Fn) and it.name[0] == 'range'):
                raise Unsupported('comprehension')
            for n in ast.walk(e.elt):
                if not isinstance(n, (ast.IfExp, ast.Compare, ast.Name, ast.Constant, ast.Eq, ast.Load, ast.NotEq)):
                    raise Unsupported('comprehension')
            x.pc.append(it.name[2] >= it.name[1])
            out.append((x, Seq(z3.simplify(it.name[2] - it.name[1]))))
        return out

    def ev_Call(self, e, s):
        kw = {k.arg for k in e.keywords}
        out = []
        for x, f in self.ev(e.func, s):
            if isinstance(f, Fn) and f.name[0] == 'Timers':
                out.append((x, None))
                continue
            if isinstance(f, Fn) and f.name == ('isinstance',):
                for y, v in self.ev(e.args[0], x):
                    t = ast.unparse(e.args[1])
                    kd = {'list': ('list',), 'csr_matrix': ('csr',), 'np.ndarray': ('array',)}.get(t)
                    if kd is None or not isinstance(v, Mat):
                        raise Unsupported('isinstance')
                    out.append((y, z3.BoolVal(v.kind in kd)))
                continue
            if isinstance(f, Fn) and f.name[0] == '.' and isinstance(f.name[1], str):
                out.append((x, 'text'))
                continue
            for y, a in self.evs(list(e.args) + [k.value for k in e.keywords], x):
                a, kv = a[:len(e.args)], a[len(e.args):]
                # the object of a method call, in the state after evaluating the arguments
                out += self.call(f, a, dict(zip([k.arg for k in e.keywords], kv)), y, e)
        return out

    def fresh(self, s, dim, tag):
        return Vec({atom('v', next(CNT), tag): z3.RealVal(1)}, dim, True)

    def call(self, f, a, kw, s, e):
        if not isinstance(f, Fn):
            raise Unsupported('call')
        n = f.name
        one = lambda v: [(s, v)]
        if n == ('range',):
            lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
            if len(a) > 2:
                raise Unsupported('range with a step')
            return one(Fn(('range', num(lo), num(hi))))
        if n == ('len',):
            v = a[0]
            if isinstance(v, VList):
                return one(z3.simplify(v.size()))
            if isinstance(v, Vec):
                return one(v.dim)
            if isinstance(v, Mat):
                return one(v.rows)
        if n == ('float',) and self.isnum(a[0]):
            return one(real(a[0]))
        if n in (('np', 'array'), ('np', 'asarray')):
            v = a[0]
            if isinstance(v, Vec):
                return one(Vec(dict(v.c), v.dim, True if n[1] == 'array' and 'copy' not in kw else v.own))
            if isinstance(v, Seq):
                return one(self.fresh(s, v.n, ('fill',)))
            if isinstance(v, VList):
                return one(Rows(v))
            if isinstance(v, Mat) and (n[1] == 'array' or v.kind == 'list') and 'copy' not in kw:
                return one(Mat(v.name, v.rows, v.cols, 'array'))
        if n == ('np', 'random', 'rand') and len(a) == 1:
            return one(self.fresh(s, num(a[0]), ('fill',)))
        if n in (('np', 'zeros'), ('np', 'ones')) and self.isnum(a[0]):
            return one(self.fresh(s, num(a[0]), ('fill',)))
        if n == ('np', 'dot') and isinstance(a[0], Vec) and isinstance(a[1], Vec):
            self.same_dim(s, a[0].dim, a[1].dim)
            return one(dot(a[0].c, a[1].c))
        if n == ('np', 'linalg', 'norm') and isinstance(a[0], Vec):
            o = a[1] if len(a) > 1 else kw.get('ord', 2)
            if o not in (2, None):
                raise Unsupported('norm')
            r = z3.Real(f'norm{next(CNT)}')
            s.pc += [r >= 0, r * r == dot(a[0].c, a[0].c)]
            s.norms.append((dict(a[0].c), r))
            return one(r)
        if n in (('math', 'isinf'), ('math', 'isnan'), ('np', 'isinf'), ('np', 'isnan')) and self.isnum(a[0]):
            return one(z3.BoolVal(False))
        if n in (('abs',), ('math', 'fabs')) and self.isnum(a[0]):
            v = num(a[0])
            return one(z3.If(v >= 0, v, -v))
        if n in (('math', 'sqrt'), ('np', 'sqrt')) and self.isnum(a[0]):
            r = z3.Real(f'norm{next(CNT)}')
            s.pc += [r >= 0, r * r == real(a[0])]
            return one(r)
        if n[0] == '.':
            v = self.again(e.func.value, f.name[1], s)
            if isinstance(v, VList) and n[2] == 'append' and len(a) == 1:
                if not isinstance(a[0], Vec):
                    raise Unsupported('append')
                self.same_dim(s, v.dim, a[0].dim)
                a[0].own = False
                v.tail.append(a[0])
                return one(None)
            if isinstance(v, Vec) and n[2] == 'copy':
                return one(Vec(dict(v.c), v.dim, True))
            if isinstance(v, Vec) and n[2] == 'dot' and len(a) == 1 and isinstance(a[0], Vec):
                self.same_dim(s, a[0].dim, v.dim)
                return one(dot(a[0].c, v.c))
            if isinstance(v, Mat) and n[2] == 'dot' and isinstance(a[0], Vec):
                return one(self.arith(ast.MatMult(), v, a[0], s))
            if isinstance(v, Mat) and n[2] == 'copy':
                return one(v)
        if len(n) == 1:
            from interp import FuncRef
            fr = self.prog.module(self.mod).g.get(n[0])
            if isinstance(fr, FuncRef):
                return self.inline(fr.node, a, kw, s)
        raise Unsupported('call of ' + '.'.join(str(q) for q in n[:3]))

    def again(self, node, old, s):
        'the object in the state reached after evaluating the arguments'
        if isinstance(node, ast.Name):
            return s.env.get(node.id, old)
        if isinstance(old, (VList,)):
            raise Unsupported('method of a computed list')
        return old

    def inline(self, node, a, kw, s):
        if self.depth > 12 or node.args.vararg or node.args.kwarg:
            raise Unsupported('call of ' + node.name)
        ps = [p.arg for p in node.args.args]
        env = dict(zip(ps, a))
        env.update(kw)
        for p, d in zip(ps[len(ps) - len(node.args.defaults):], node.args.defaults):
            if p not in env:
                if not isinstance(d, ast.Constant):
                    raise Unsupported('default')
                env[p] = d.value
        if set(env) != set(ps):
            raise Unsupported('arguments')
        # the caller's variables stay in the state under other names, so that both share their vectors and lists
        tag = f'@{next(CNT)}.'
        s.env = {**{tag + v: x for v, x in s.env.items()}, **env}
        self.depth += 1
        out = []
        for x, end in self.block(node.body, s):
            if end is not None and end[0] != 'return':
                raise Unsupported('flow')
            rv = end[1] if end else None
            x.env['%rv'] = rv
            rv = x.env.pop('%rv')
            x.env = {v[len(tag):]: o for v, o in x.env.items() if v.startswith(tag)}
            out.append((x, rv))
        self.depth -= 1
        return out


def verify(prog, qual, scen, tmo, limit):
    'obligations of one function: [(name, kind, status, reason, back end)]'
    ATOMS.clear()
    mod, fn = qual.split('.')
    fr = prog.find(qual)
    if fr is None:
        raise Unsupported('function not found')
    ex = Exec(prog, mod, qual, int(tmo * 1000))
    ex.base = fr.node.lineno
    ex.deadline = time.time() + limit
    s = State()
    dims = z3.Int('dims')
    s.pc.append(dims >= 1)
    ex.dims = dims
    ps = [p.arg for p in fr.node.args.args]
    if fn == 'make_direction_matrix':
        pt = Vec({atom('v', 'point', ('point',)): z3.RealVal(1)}, dims, False)
        s.env = {ps[0]: pt, ps[1]: Mat('A', dims, dims, 'csr')}
    else:
        rows = z3.Int('rows')
        s.pc.append(rows >= 0)
        s.env = {ps[0]: Mat('mat', rows, dims, scen), ps[1]: dims}
        if scen == 'list':
            s.pc.append(rows >= 1)
    arg0 = [list(s.env[ps[0]].c.items()) if isinstance(s.env[ps[0]], Vec) else None]
    ends = ex.block(fr.node.body, s)
    vac = []
    for x, end in ends:
        rv = end[1] if end else None
        vac.append(('return', 'sat' if ex.feasible(x) else 'unsat'))
        if not isinstance(rv, Rows) or rv.lst.tail:
            raise Unsupported('result that is not the array of the directions')
        L = rv.lst
        ex.oblige(x, 'the result has one row per dimension', L.n == dims)
        ex.obls.append(('every row has one entry per dimension', 'proved' if L.dim.eq(dims) else 'undecided', ''))
        ex.obls.append(('the rows have length one', 'proved' if ex.unit(x, L) else 'undecided', ''))
        ex.obls.append(('the rows are orthogonal to each other', 'proved' if ex.orth(x, L) else 'undecided', ''))
    steps(ex, fn)
    return [(f'{qual}: {n}', 'post', st, r, 'z3' if st == 'proved' else '') for n, st, r in ex.obls], vac, ex.solver_s


def outside(c, l):
    'the part of a combination outside the span of the list'
    return {a: x for a, x in c.items() if not (ATOMS[a][0] == 'el' and ATOMS[a][1] == l or ATOMS[a][0] == 'v' and isinstance(ATOMS[a][2], tuple) and ATOMS[a][2] == ('span', l))}


def steps(ex, fn):
    '''what one round does (the spans): a round appends at most one direction, a combination of the vector it starts from and earlier
    directions; the vector is the image of the previous direction / the next given row as long as there is one, and it is
    dropped only when what is left of it is shorter than 1e-6'''
    seen = 0
    for line, h, e, depth, init in ex.steps:
        lists = [v for v, o in h.env.items() if isinstance(o, VList)]
        if not lists or not isinstance(e.env.get(lists[0]), VList) or depth != 1:
            continue
        if len(lists) != 1:
            raise Unsupported('several lists')
        L, L2 = h.env[lists[0]], e.env[lists[0]]
        seen += 1
        if len(L2.tail) > 1:
            raise Unsupported('several directions in one round')
        src = None       # what the round must start from
        if fn == 'make_direction_matrix':
            vs = [v for v, o in h.env.items() if isinstance(o, Vec) and e.env.get(v) is not h.env[v] and v in e.env and ('kept' not in v)]
            cur = [v for v in vs if any(ATOMS[a][0] == 'el' for a in h.env[v].c) or ('point',) in [ATOMS[a][2] for a in h.env[v].c if ATOMS[a][0] == 'v']]
            carried = [v for v in cur if not (e.env[v] is not None and isinstance(e.env[v], Vec) and e.env[v].c == h.env[v].c)]
            if carried:
                src = atom('v', 'image', ('image', 'A', tuple(sorted((k, str(c)) for k, c in h.env[carried[0]].c.items()))))
        else:
            ints = [v for v, o in h.env.items() if isinstance(o, z3.ArithRef) and z3.is_int(o) and not v.startswith('%') and isinstance(e.env.get(v), (int, z3.ArithRef)) and v != 'dims']
            rows = z3.Int('rows')
            reads = [i for m, i in e.reads[len(h.reads):]]
            done = False
            for v in ints:
                a, b = h.env[v], num(e.env[v])
                if not (v in init.env and ex.valid(init, num(init.env[v]) == 0)):
                    continue        # a counter of the given rows starts at the first
                if reads and len(reads) == 1 and ex.valid(e, reads[0] == a) and ex.valid(e, b == a + 1):
                    ex.obls.append((f'{line}: the next given row is taken', 'proved', ''))
                    src, done = atom('v', 'row', ('row', 'mat', str(z3.simplify(reads[0])))), True
                    break
                if not reads and ex.valid(e, a >= rows) and ex.valid(e, b == a):
                    ex.obls.append((f'{line}: no given row is left out', 'proved', ''))
                    done = True
                    break
            if not done:
                ex.obls.append((f'{line}: the given rows are taken in order, each once', 'undecided', 'no counter found'))
                continue
        if L2.tail:
            o = outside(L2.tail[0].c, L.name)
            if src is None:
                ok = len(o) <= 1 and all(ATOMS[a][2] == ('fill',) for a in o)
                ex.obls.append((f'{line}: a new direction fills up', 'proved' if ok else 'undecided', str(o)[:200]))
            else:
                ex.obls.append((f'{line}: the new direction comes from the next vector and earlier directions', 'proved' if list(o) == [src] else 'undecided', str(o)[:200]))
        elif src is not None:
            ok = any(list(outside(c, L.name)) == [src] and ex.valid(e, outside(c, L.name)[src] == 1) and ex.valid(e, r <= z3.RealVal('1/1000000')) for c, r in e.norms)
            ex.obls.append((f'{line}: a vector is dropped only when it lies in the span of the earlier directions (within 1e-6)', 'proved' if ok else 'undecided', ''))
    if not seen:
        raise Unsupported('no loop that collects the directions')
