'''Quietness sweep of the deductive part: behaviour-preserving rewrites of contracted functions (AST level, in a scratch copy).

python3 tools/refsweep.py [QUAL...]   prints per rewrite the outcome; 'refuted' would be a false alarm
'''
import ast, copy, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


class Flip(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in FLIP:
            return ast.Compare(n.comparators[0], [FLIP[type(n.ops[0])]()], [n.left])
        return n


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse or [ast.Pass()], n.body)


class Aug(ast.NodeTransformer):
    def visit_AugAssign(self, n):
        t = copy.deepcopy(n.target)
        for x in ast.walk(t):
            if hasattr(x, 'ctx'):
                x.ctx = ast.Load()
        if isinstance(n.op, ast.Add) and isinstance(n.value, (ast.List, ast.ListComp, ast.Name, ast.BinOp)):
            return n
        return ast.Assign([n.target], ast.BinOp(t, n.op, n.value))


class Rename(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, n):
        return ast.Name('zz_' + n.id, n.ctx) if n.id in self.names else n


class While(ast.NodeTransformer):
    'for i in range(..) as a while loop'
    n = 0

    def visit_For(self, f):
        self.generic_visit(f)
        c = f.iter
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'range' and isinstance(f.target, ast.Name) and len(c.args) in (1, 2)) or f.orelse:
            return f
        if any(isinstance(x, (ast.Continue,)) for x in ast.walk(f)):
            return f
        lo, hi = (ast.Constant(0), c.args[0]) if len(c.args) == 1 else c.args
        While.n += 1
        e, it = f'zend{While.n}', f'zit{While.n}'
        return [ast.Assign([ast.Name(it, ast.Store())], lo), ast.Assign([ast.Name(e, ast.Store())], hi),
                ast.While(ast.Compare(ast.Name(it, ast.Load()), [ast.Lt()], [ast.Name(e, ast.Load())]),
                          [ast.Assign([f.target], ast.Name(it, ast.Load()))] + f.body + [ast.AugAssign(ast.Name(it, ast.Store()), ast.Add(), ast.Constant(1))], [])]


class Index(ast.NodeTransformer):
    'for x in seq as an index loop (enumerate over the sequence)'
    n = 0

    def visit_For(self, f):
        self.generic_visit(f)
        c = f.iter
        if isinstance(c, ast.Call) or f.orelse:
            return f
        Index.n += 1
        return ast.For(ast.Tuple([ast.Name(f'zi{Index.n}', ast.Store()), f.target], ast.Store()), ast.Call(ast.Name('enumerate', ast.Load()), [f.iter], []), f.body, [])


class Temps(ast.NodeTransformer):
    'right-hand sides through a temporary'
    n = 0

    def visit_Assign(self, a):
        Temps.n += 1
        t = f'ztmp{Temps.n}'
        return [ast.Assign([ast.Name(t, ast.Store())], a.value), ast.Assign(a.targets, ast.Name(t, ast.Load()))]


class Comp(ast.NodeTransformer):
    'x = [e for v in s] as a loop with append (where the comprehension variable is not used elsewhere)'
    def __init__(self, fn):
        self.uses = [x.id for x in ast.walk(fn) if isinstance(x, ast.Name)]

    def visit_Assign(self, a):
        v = a.value
        if isinstance(v, ast.ListComp) and len(v.generators) == 1 and isinstance(a.targets[0], ast.Name):
            g = v.generators[0]
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name) and self.uses.count(x.id) != sum(isinstance(y, ast.Name) and y.id == x.id for y in ast.walk(v)):
                    return a
            body = ast.Expr(ast.Call(ast.Attribute(ast.Name(a.targets[0].id, ast.Load()), 'append', ast.Load()), [v.elt], []))
            for c in g.ifs:
                body = ast.If(c, [body], [])
            if any(isinstance(x, ast.Name) and x.id == a.targets[0].id for x in ast.walk(v)):
                return a
            return [ast.Assign([a.targets[0]], ast.List([], ast.Load())), ast.For(g.target, g.iter, [body], [])]
        return a


def local_names(fn):
    out = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    for x in ast.walk(fn):
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            out -= set(x.names)
    return out - {a.arg for a in fn.args.args + fn.args.kwonlyargs}


def doc_split(fn):
    b = fn.body
    return (b[:1], b[1:]) if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else ([], b)


def rewrites(fn, cls):
    'yield (name, new function, extra definitions in the same scope)'
    for name, tr in (('flip', Flip), ('invert', Invert), ('aug', Aug), ('while', While), ('index', Index), ('temps', Temps), ('comp', lambda: Comp(fn))):
        m = tr().visit(copy.deepcopy(fn))
        ast.fix_missing_locations(m)
        if ast.unparse(m) != ast.unparse(fn):
            yield name, m, []
    ln = local_names(fn)
    if ln:
        m = Rename(ln).visit(copy.deepcopy(fn))
        ast.fix_missing_locations(m)
        yield 'rename', m, []
    d, rest = doc_split(fn)
    args = [a.arg for a in fn.args.args]
    static = any(isinstance(x, ast.Name) for x in fn.decorator_list)
    if not static:
        # the body moved into a helper
        h = copy.deepcopy(fn)
        h.name = 'zz_' + fn.name.strip('_') + '_impl'
        h.args.defaults = []
        h.body = copy.deepcopy(rest)
        m = copy.deepcopy(fn)
        call = ast.Call(ast.Attribute(ast.Name(args[0], ast.Load()), h.name, ast.Load()) if cls else ast.Name(h.name, ast.Load()), [ast.Name(a, ast.Load()) for a in (args[1:] if cls else args)], [])
        m.body = list(d) + [ast.Return(call) if fn.name != '__init__' else ast.Expr(call)]
        ast.fix_missing_locations(m)
        ast.fix_missing_locations(h)
        yield 'helper', m, [h]
    m = copy.deepcopy(fn)
    m.body = list(d) + [ast.Assign([ast.Name('zz_unused', ast.Store())], ast.Constant(0))] + copy.deepcopy(rest)
    ast.fix_missing_locations(m)
    yield 'noop', m, []


def run(job):
    qual, desc, text, path = job
    d = tempfile.mkdtemp(prefix='ref_')
    try:
        shutil.copytree('/repo/hylaa', d + '/hylaa', ignore=shutil.ignore_patterns('__pycache__'))
        open(d + '/' + path, 'w').write(text)
        out = d + '/o.json'
        subprocess.run(['python3-vt', HERE + '/engine/prove.py', 'ALL', '--only', qual, '--out', out, '--procs', '1', '--tmo', '4'], env=dict(os.environ, HYLAA_REPO=d, OPENBLAS_NUM_THREADS='1'),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
        o = json.load(open(out))['obligations']
        bad = [x for x in o if x['status'] != 'proved']
        st = 'proved' if not bad else 'REFUTED' if any(x['status'] == 'refuted' for x in bad) else 'FAILED' if any(x['status'] == 'failed' for x in bad) else 'outside' if any('outside' in x['reason'] or 'internal' in x['reason'] for x in bad) else 'unknown'
        return qual, desc, st, (bad[0]['name'] + ': ' + bad[0]['reason'])[:220] if bad else ''
    except Exception as e:
        return qual, desc, 'error', str(e)[:100]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    quals = sys.argv[1:]
    if not quals:
        quals = subprocess.run(['python3-vt', '-c', "import sys; sys.setrecursionlimit(20000); sys.path.insert(0, '%s/engine'); import prove; import contracts; print('\\n'.join(q for q, c in contracts.ALL.items() if c.scenarios))" % HERE],
                               capture_output=True, text=True).stdout.split()
    jobs = []
    for qual in quals:
        p = qual.split('.')
        path = f'hylaa/{p[0]}.py'
        tree = ast.parse(open('/repo/' + path).read())
        scope = tree.body
        for q in p[1:-1]:
            scope = next(c for c in scope if isinstance(c, ast.ClassDef) and c.name == q).body
        i = next(i for i, f in enumerate(scope) if isinstance(f, ast.FunctionDef) and f.name == p[-1])
        fn = scope[i]
        for desc, m, extra in rewrites(fn, len(p) > 2):
            scope[i:i + 1] = [m] + extra
            jobs.append((qual, desc, ast.unparse(tree), path))
            scope[i:i + 1 + len(extra)] = [fn]
    cnt = {}
    with ThreadPoolExecutor(5) as ex:
        for q, d, r, why in ex.map(run, jobs):
            cnt.setdefault(r, []).append((q, d))
            if r != 'proved':
                print(r, q, d, '|', why, flush=True)
    print({k: len(v) for k, v in cnt.items()})


main()
