'''Arrays filled through a cursor, read as lists that are appended to.

    X = np.zeros((n,)); c = 0; ... in nested loops: X[c] = e; c += 1      ->   X = []; ... X.append(e)
    P = np.zeros((h + 1,)); P[0] = 0; for r in range(1, h + 1): ...; P[r] = c  ->   P = [0]; ...; P.append(len(X))

Only where every write to X is at the cursor, every increment of the cursor follows one write to each of its arrays, and the arrays are read only after the loops.  The list
stands for the array if it has the array's length in the end: an obligation (so no write was out of range and no zero is left).'''
import ast
import copy


FLOAT = ('float', 'np.float64', 'numpy.float64')
INT = ('int', 'np.int32', 'np.int64', 'numpy.int32', 'numpy.int64')


def _zeros(st):
    'X = np.zeros((E,), ..) as (name, E, kind of its elements)'
    if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.Call):
        f, a = st.value.func, st.value.args
        if isinstance(f, ast.Attribute) and f.attr == 'zeros' and isinstance(f.value, ast.Name) and f.value.id in ('np', 'numpy') and len(a) == 1:
            e = a[0]
            kw = st.value.keywords
            if len(kw) > 1 or kw and (kw[0].arg != 'dtype' or ast.unparse(kw[0].value) not in FLOAT + INT):
                return None
            kind = 'int' if kw and ast.unparse(kw[0].value) in INT else 'float'
            if isinstance(e, ast.Tuple):
                if len(e.elts) != 1:
                    return None
                e = e.elts[0]
            return st.targets[0].id, e, kind
    return None


def _write(st):
    'X[i] = e as (X, i, e)'
    if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Subscript) and isinstance(st.targets[0].value, ast.Name):
        return st.targets[0].value.id, st.targets[0].slice, st.value
    return None


def _inc(st):
    if isinstance(st, ast.AugAssign) and isinstance(st.op, ast.Add) and isinstance(st.target, ast.Name) and isinstance(st.value, ast.Constant) and st.value.value == 1:
        return st.target.id
    return None


def _blocks(st):
    for n in ('body', 'orelse', 'finalbody'):
        b = getattr(st, n, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield b


def _incs(body, depth=0):
    'increments in nested loops: name -> largest loop depth'
    for st in body:
        if _inc(st):
            yield _inc(st), depth
        for b in _blocks(st):
            yield from _incs(b, depth + isinstance(st, (ast.For, ast.While)))


def _name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def _call(f, *a):
    return ast.Call(f, list(a), [])


def _append(x, e):
    return ast.Expr(_call(ast.Attribute(_name(x), 'append', ast.Load()), e))


class Cursor:
    def __init__(self, node, c):
        self.node, self.c = node, c
        self.arrays = []

    def stores(self, n):
        return [x for x in ast.walk(self.node) if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store)]

    def run(self):
        body = self.node.body
        for st in ast.walk(self.node):
            if st is not self.node and isinstance(st, (ast.FunctionDef, ast.Lambda, ast.Try, ast.While, ast.Global, ast.Nonlocal, ast.Delete, ast.With)):
                return False
        c = self.c
        init = [st for st in body if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id == c]
        if len(init) != 1 or not (isinstance(init[0].value, ast.Constant) and init[0].value.value == 0 and init[0].value.value is not False):
            return False
        self.incs = [x for x in ast.walk(self.node) if _inc(x) == c]
        if len(self.stores(c)) != 1 + len(self.incs):
            return False
        zs = {}
        for st in body:
            z = _zeros(st)
            if z and len(self.stores(z[0])) == 1:
                zs[z[0]] = (st, z[2])
        writes = [w for w in (_write(x) for x in ast.walk(self.node)) if w]
        self.arrays = sorted({w[0] for w in writes if isinstance(w[1], ast.Name) and w[1].id == c})
        if not self.arrays or any(a not in zs for a in self.arrays):
            return False
        pos = {id(st): i for i, st in enumerate(body)}
        first = [i for i, st in enumerate(body) if any(x in self.incs for x in ast.walk(st))]
        if not first or pos[id(init[0])] > first[0] or any(pos[id(zs[a][0])] > first[0] for a in self.arrays):
            return False
        last = first[-1]
        ptrs = [a for a in self.find_ptr(body, zs, writes, last) if a]
        # reads of the arrays: only behind the last loop
        names = set(self.arrays) | {p[0] for p in ptrs}
        ok = {id(w.targets[0].value) for w in ast.walk(self.node) if _write(w)}
        for i, st in enumerate(body[:last + 1]):
            for x in ast.walk(st):
                if isinstance(x, ast.Name) and x.id in names and isinstance(x.ctx, ast.Load) and id(x) not in ok:
                    return False
        for i, st in enumerate(body[last + 1:]):
            for x in ast.walk(st):
                if _write(x) and _write(x)[0] in names:
                    return False
        # the sizes must not be changed in between
        if not self.group(body):
            return False
        for p, loop, wr in ptrs:
            wr_new = _append(p, wr.value)
            loop.body[loop.body.index(wr)] = wr_new
        new = []
        drop = {id(init[0])}
        for p, loop, wr in ptrs:
            for st in body:
                w = _write(st)
                if w and w[0] == p:
                    drop.add(id(st))
        sizes = {}
        for i, st in enumerate(body):
            z = _zeros(st)
            if z and (z[0] in self.arrays or z[0] in {p[0] for p in ptrs}):
                sz = f'@size {z[0]}'
                new.append(ast.Assign([_name(sz, ast.Store())], z[1]))
                new.append(ast.Assign([_name(z[0], ast.Store())], ast.List([ast.Constant(0)] if z[0] not in self.arrays else [], ast.Load())))
                sizes[z[0]] = (sz, z[2])
            elif id(st) not in drop:
                new.append(st)
            if i == last:
                for a, (sz, kind) in sizes.items():
                    new.append(ast.Expr(_call(_name('@filled'), _name(a), _name(sz), ast.Constant(kind))))
        arr = self.arrays[0]

        class R(ast.NodeTransformer):
            def visit_Name(s, n):
                return _call(_name('len'), _name(arr)) if n.id == c and isinstance(n.ctx, ast.Load) else n
        self.node.body = [R().visit(st) for st in new]
        for st in self.node.body:
            for x in ast.walk(st):
                if not hasattr(x, 'lineno'):
                    x.lineno = x.end_lineno = self.node.lineno
                    x.col_offset = x.end_col_offset = 0
        return True

    def group(self, body):
        'replace X1[c] = ..; X2[c] = ..; c += 1 by appends'
        out, run = [], []
        for st in body:
            w = _write(st)
            if w and w[0] in self.arrays:
                if not (isinstance(w[1], ast.Name) and w[1].id == self.c) or any(isinstance(x, ast.Name) and (x.id in self.arrays or x.id == self.c) for x in ast.walk(w[2])):
                    return False
                run.append((w[0], st))
                continue
            if _inc(st) == self.c:
                if sorted(n for n, _ in run) != self.arrays:
                    return False
                out += [_append(n, s.value) for n, s in run]
                run = []
                continue
            if run:
                return False
            for b in _blocks(st):
                if not self.group(b):
                    return False
            out.append(st)
        if run:
            return False
        body[:] = out
        return True

    def find_ptr(self, body, zs, writes, last):
        'row pointers: P[0] = 0 at top level, P[r] = e for r in range(1, ..) (or P[r + 1] for r in range(..)) once in the body of one loop at top level'
        for p, (zst, _) in zs.items():
            if p in self.arrays:
                continue
            mine = [st for st in ast.walk(self.node) if _write(st) and _write(st)[0] == p]
            top = [st for st in mine if st in body]
            rest = [st for st in mine if st not in body]
            if len(rest) != 1 or len(top) > 1 or top and not all(isinstance(x, ast.Constant) and x.value == 0 for x in (top[0].targets[0].slice, top[0].value)):
                continue
            loops = [st for st in body if isinstance(st, ast.For) and rest[0] in st.body and not st.orelse]
            if len(loops) != 1 or body.index(loops[0]) > last or top and body.index(top[0]) > body.index(loops[0]) or body.index(zst) > body.index(loops[0]):
                continue
            l = loops[0]
            if any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for x in ast.walk(l)):
                continue
            it = l.iter
            if not (isinstance(l.target, ast.Name) and len(self.stores(l.target.id)) == 1 and isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and not it.keywords):
                continue
            lo = 0 if len(it.args) == 1 else it.args[0].value if len(it.args) == 2 and isinstance(it.args[0], ast.Constant) else None
            ix = ast.dump(rest[0].targets[0].slice)
            r = l.target.id
            if lo == 1 and ix == ast.dump(ast.parse(r, mode='eval').body) or lo == 0 and ix in (ast.dump(ast.parse(f'{r} + 1', mode='eval').body), ast.dump(ast.parse(f'1 + {r}', mode='eval').body)):
                yield p, l, rest[0]


def lists(node):
    'the function with its cursor arrays as lists, or the function itself'
    deep = sorted({c for c, d in _incs(node.body) if d > 1})
    if len(deep) != 1:
        return node
    new = copy.deepcopy(node)
    try:
        return new if Cursor(new, deep[0]).run() else node
    except (AttributeError, ValueError):
        return node
