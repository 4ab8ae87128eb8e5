'''mkseed.py [ids...]: builds /verif/seeded/<id>/ from tools/seeds.py and confirms each in a scratch copy of /repo
(compiles, stable tests pass, demo 0 without and nonzero with the patch; only original lines changed). Run by hand.'''
import sys, os, json, subprocess, shutil, concurrent.futures as cf, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python'
BASE = '2ed6b90'
STABLE = None


def env(repo):
    e = dict(os.environ)
    e.update(MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', PYTHONPATH=repo)
    return e


DEMO_SH = '''#!/bin/bash
# exit 0: the property holds on this demonstration's input
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def original_lines_ok(repo, patch):
    'every removed line must exist in the base version of that file'
    cur = None
    removed = []
    for l in patch.splitlines():
        if l.startswith('--- a/'):
            cur = l[6:]
            base = subprocess.run(['git', '-C', '/repo', 'show', f'{BASE}:{cur}'], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith('-') and not l.startswith('---'):
            removed.append(l[1:])
            if l[1:] not in base:
                return False, f'removed line is not original: {l[1:]}'
    if not removed:
        return False, 'no line removed'
    return True, ''


def make(s):
    sid = s['id']
    d = os.path.join(ROOT, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    try:
        repo = os.path.join(tmp, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', repo])
        for f, old, new in s['edits']:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                return sid, f'FAIL: pattern occurs {t.count(old)} times in {f}'
            open(p, 'w').write(t.replace(old, new))
        patch = subprocess.run(['git', '-C', repo, 'diff'], capture_output=True, text=True).stdout
        ok, why = original_lines_ok(repo, patch)
        if not ok:
            return sid, 'FAIL: ' + why
        open(os.path.join(d, 'patch.diff'), 'w').write(patch)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r0 = subprocess.run([os.path.join(d, 'demo.sh')], cwd='/repo', capture_output=True, text=True, timeout=280)
        if r0.returncode != 0:
            return sid, 'FAIL: demo fails on the unchanged tree: ' + (r0.stdout + r0.stderr)[-600:]
        r1 = subprocess.run([os.path.join(d, 'demo.sh')], cwd=repo, capture_output=True, text=True, timeout=280)
        if r1.returncode == 0:
            return sid, 'FAIL: demo passes with the patch'
        t = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '4', '--dist', 'loadfile', '-W', 'ignore', 'tests'], cwd=repo, env=env(repo), capture_output=True, text=True)
        last = [l for l in t.stdout.splitlines() if 'passed' in l or 'failed' in l]
        fails = [l for l in t.stdout.splitlines() if l.startswith('FAILED') or l.startswith('ERROR')]
        stable = set(json.load(open('/opt/vp/BASELINE.json')).get('passed', []) if isinstance(json.load(open('/opt/vp/BASELINE.json')), dict) else [])
        return sid, f'ok tests: {last[-1:]} {fails[:3]} | demo: {(r1.stdout + r1.stderr).strip().splitlines()[-1:]}'
    except Exception as e:
        return sid, f'FAIL {type(e).__name__}: {e}'
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    import seeds
    want = sys.argv[1:]
    todo = [s for s in seeds.SEEDS if not want or s['id'] in want or any(s['id'].startswith(w) for w in want)]
    with cf.ThreadPoolExecutor(3) as ex:
        for sid, msg in ex.map(make, todo):
            print(sid, msg, flush=True)
            if msg.startswith('FAIL'):
                shutil.rmtree(os.path.join(ROOT, 'seeded', sid), ignore_errors=True)
