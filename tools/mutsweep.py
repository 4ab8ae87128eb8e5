'''Mutation sweep of the deductive part: mutants of one function (AST level, in a scratch copy) against its contract.

python3-vt tools/mutsweep.py QUAL [QUAL...]     prints the mutants whose obligations all discharge (to be inspected by hand)
'''
import ast, copy, os, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult}


def mutants(fn):
    'yield (description, mutated function)'
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        def mk(f, desc):
            c = copy.deepcopy(fn)
            m = list(ast.walk(c))[i]
            f(m)
            ast.fix_missing_locations(c)
            return f'line {getattr(n, "lineno", "?")}: {desc}', c
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            yield mk(lambda m: m.ops.__setitem__(0, CMP[type(n.ops[0])]()), ast.unparse(n) + ' -> other comparison')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield mk(lambda m: setattr(m, 'op', BIN[type(n.op)]()), ast.unparse(n) + ' -> other operator')
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            yield mk(lambda m: setattr(m, 'value', n.value + 1), f'{n.value} -> {n.value + 1}')
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield mk(lambda m: setattr(m, 'value', not n.value), f'{n.value} flipped')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            yield mk(lambda m: setattr(m, 'op', ast.UAdd()), ast.unparse(n) + ' sign')
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            yield mk(lambda m: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test)), 'negate ' + ast.unparse(n.test)[:60])
        if isinstance(n, ast.BoolOp):
            yield mk(lambda m: setattr(m, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And()), 'and/or ' + ast.unparse(n)[:60])
            for j in range(len(n.values)):
                yield mk(lambda m: m.values.pop(j), 'drop ' + ast.unparse(n.values[j])[:60])
        for fld in ('body', 'orelse'):
            b = getattr(n, fld, None)
            if isinstance(b, list) and not isinstance(n, ast.Lambda):
                for j, s in enumerate(b):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    t = ast.unparse(s)
                    if t.startswith('Timers.') or isinstance(s, (ast.Assert, ast.Pass)) or 'print' in t[:8]:
                        continue
                    yield mk(lambda m: getattr(m, fld).__setitem__(j, ast.Pass()), 'drop: ' + t[:80].replace('\n', ' '))
        if isinstance(n, ast.Call) and len(n.args) == 2 and not ast.unparse(n.func).startswith('Timers'):
            yield mk(lambda m: m.args.reverse(), 'swap arguments ' + ast.unparse(n)[:70])


def run(job):
    qual, desc, text, path = job
    d = tempfile.mkdtemp(prefix='mut_')
    try:
        shutil.copytree('/repo/hylaa', d + '/hylaa', ignore=shutil.ignore_patterns('__pycache__'))
        open(d + '/' + path, 'w').write(text)
        out = d + '/o.json'
        name = qual if qual.count('.') == 1 else qual
        subprocess.run(['python3-vt', HERE + '/engine/prove.py', 'ALL', '--only', name, '--out', out, '--procs', '1', '--tmo', '3', '--stop'], env=dict(os.environ, HYLAA_REPO=d, OPENBLAS_NUM_THREADS='1'),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
        o = json.load(open(out))['obligations']
        st = [x['status'] for x in o]
        return qual, desc, 'SURVIVED' if all(s == 'proved' for s in st) else 'refuted' if 'refuted' in st else 'failed' if 'failed' in st else 'outside' if any('outside the verified' in x['reason'] for x in o) else 'undecided'
    except Exception as e:
        return qual, desc, 'error ' + type(e).__name__
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    jobs = []
    for qual in sys.argv[1:]:
        p = qual.split('.')
        path = f'hylaa/{p[0]}.py'
        src = open('/repo/' + path).read()
        tree = ast.parse(src)
        scope = tree.body
        for q in p[1:-1]:
            scope = next(c for c in scope if isinstance(c, ast.ClassDef) and c.name == q).body
        i = next(i for i, f in enumerate(scope) if isinstance(f, ast.FunctionDef) and f.name == p[-1])
        fn = scope[i]
        for desc, m in mutants(fn):
            scope[i] = m
            jobs.append((qual, desc, ast.unparse(tree), path))
        scope[i] = fn
    cnt = {}
    with ThreadPoolExecutor(7) as ex:
        for q, d, r in ex.map(run, jobs):
            cnt[r] = cnt.get(r, 0) + 1
            if r == 'SURVIVED' or r.startswith('error'):
                print(r, q, d, flush=True)
    print(cnt)


main()
