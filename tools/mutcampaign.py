'''Mutation campaign of the bounded part, run by hand: random AST mutants of hylaa that pass the stable tests, against the run-time checks.

mutcampaign.py LOG [--procs N] [--seed S] [--only module,...] [--hours H]
'''
import argparse, ast, copy, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
REL = {'lpinstance': 'C02 C03 C11 C09', 'lputil': 'C01 C11 C09 C10 C08 C07 C06 C21', 'stateset': 'C05 C12 C06 C16 C24', 'core': 'C15 C13 C16 C06 C05', 'aggdag': 'C14 C09 C13 C15 C16 C08',
       'aggstrat': 'C09 C14 C13 C21', 'aggregate': 'C09 C21', 'check_trace': 'C17 C16', 'deaggregation': 'C14 C16', 'guard_opt_data': 'C20', 'hybrid_automaton': 'C23 C07 C19 C22 C06 C08',
       'kamenev': 'C24 C10', 'lpplot': 'C24', 'plotutil': 'C24', 'result': 'C16 C15', 'simulation': 'C22', 'symbolic': 'C18', 'time_elapse': 'C04 C05', 'time_elapse_expm': 'C04 C05', 'settings': 'C15', 'util': 'C16'}
ALLP = [f'C{i:02d}' for i in range(1, 25)]
SKIP = {'__str__', '__repr__', 'print_stats', 'show', 'print_verbose', 'print_normal', 'print_debug', 'print_current_step_time', 'print_current_state', 'save_video', '_anim_init_func', '_anim_func'}
sys.argv, argv = ['x'], sys.argv
src = open(HERE + '/tools/mutsweep.py').read().replace('\nmain()\n', '\n')
ns = {'__file__': HERE + '/tools/mutsweep.py', '__name__': 'ms'}
exec(compile(src, 'mutsweep', 'exec'), ns)
mutants = ns['mutants']


def functions(tree):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield tree.body, n, n.name
        if isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    yield n.body, m, n.name + '.' + m.name


def env(d):
    return dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONPATH=d, HYLAA_REPO=d)


def stable(d):
    x = d + '/junit.xml'
    try:
        subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '2', '--dist', 'loadfile', '--timeout=60', '--continue-on-collection-errors', '-W', 'ignore', '-o',
                        'junit_family=xunit2', '--junitxml=' + x, 'tests'], cwd=d, env=env(d), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
        out = d + '/res.json'
        subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', out, 'junit:' + x], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return set(json.load(open('/opt/vp/BASELINE.json'))['stable']) <= set(json.load(open(out))['passed'])
    except Exception:
        return False


def harness(d, pid, seed, budget):
    out = f'{d}/h_{pid}_{seed}.json'
    try:
        subprocess.run([PY, HERE + '/harness/run.py', pid, '--seed', str(seed), '--tier', 'quick', '--budget', str(budget), '--out', out], env=env(d), stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, timeout=budget + 120, cwd=d)
        r = json.load(open(out))
        return bool(r['violations']) or any(k != 'KF1' for k in r['known']), (r['violations'][0]['message'][:200] if r['violations'] else ''), len(r['harness_errors'])
    except Exception as e:
        return False, 'no report ' + type(e).__name__, 1


def job(j):
    mod, qual, desc, text = j
    if time.time() > END:
        return None
    d = tempfile.mkdtemp(prefix='mc_')
    try:
        for x in ('hylaa', 'tests', 'examples'):
            if os.path.exists('/repo/' + x):
                shutil.copytree('/repo/' + x, f'{d}/{x}', ignore=shutil.ignore_patterns('__pycache__', '*.png', '*.mp4'))
        for x in os.listdir('/repo'):
            if os.path.isfile('/repo/' + x):
                shutil.copy('/repo/' + x, d)
        open(f'{d}/hylaa/{mod}.py', 'w').write(text)
        rec = {'mod': mod, 'fn': qual, 'desc': desc}
        if not stable(d):
            return dict(rec, status='tests')
        first = REL.get(mod, '').split()
        errs = []
        for pid, seed, b in [(p, 1, 6) for p in first] + [(p, 2, 15) for p in first] + [(p, 1, 4) for p in ALLP if p not in first]:
            k, m, e = harness(d, pid, seed, b)
            if e:
                errs.append(pid)
            if k:
                return dict(rec, status='killed', by=pid, message=m, errs=errs)
        return dict(rec, status='SURVIVED', errs=errs)
    finally:
        shutil.rmtree(d, ignore_errors=True)


ap = argparse.ArgumentParser()
ap.add_argument('log')
ap.add_argument('--procs', type=int, default=3)
ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--only')
ap.add_argument('--hours', type=float, default=6)
a = ap.parse_args(argv[1:])
END = time.time() + a.hours * 3600
jobs = []
for mod in (a.only.split(',') if a.only else REL):
    tree = ast.parse(open(f'/repo/hylaa/{mod}.py').read())
    for scope, fn, qual in list(functions(tree)):
        if qual.split('.')[-1] in SKIP:
            continue
        i = scope.index(fn)
        for desc, m in mutants(fn):
            scope[i] = m
            jobs.append((mod, qual, desc, ast.unparse(tree)))
        scope[i] = fn
random.Random(a.seed).shuffle(jobs)
print(len(jobs), 'mutants', flush=True)
done = set()
if os.path.exists(a.log):
    done = {(r['mod'], r['fn'], r['desc']) for r in map(json.loads, open(a.log))}
with ThreadPoolExecutor(a.procs) as ex, open(a.log, 'a') as f:
    for fu in as_completed([ex.submit(job, j) for j in jobs if j[:3] not in done]):
        r = fu.result()
        if r:
            f.write(json.dumps(r) + '\n')
            f.flush()
