'''Runs the bounded runtime check of one property on the real code.

usage: run.py PID --seed N --tier quick|thorough --budget SECONDS --out FILE     (generate and check cases)
       run.py PID --replay FILE                                                   (one recorded case)
The worker process is forked per batch, because GLPK aborts the process on some invalid calls.
'''
import argparse, json, os, sys, time, random, importlib, hashlib, traceback, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def setup():
    repo = os.environ.get('HYLAA_REPO', '/repo')
    sys.path.insert(0, repo)
    import warnings
    warnings.simplefilter('ignore')


BIG = [0.0]


def watch():
    'remember the largest number written to a constraint store'
    import numpy as np
    from hylaa.lpinstance import LpInstance as L
    if getattr(L, '_watched', False):
        return
    L._watched = True

    def note(a):
        try:
            a = np.asarray(a, dtype=float).ravel()
            a = a[np.isfinite(a)]
            if a.size:
                BIG[0] = max(BIG[0], float(np.max(np.abs(a))))
        except Exception:   # pylint: disable=broad-except
            pass

    def wrap(name, get):
        f = getattr(L, name, None)
        if f is None:
            return

        def g(self, x, *args, **kw):
            note(get(x))
            return f(self, x, *args, **kw)
        setattr(L, name, g)
    wrap('add_rows_less_equal', lambda x: x)
    wrap('set_constraints_csr', lambda x: getattr(x, 'data', []))
    wrap('set_constraints_csc', lambda x: getattr(x, 'data', []))


def exec_case(mod, case):
    'a case whose numbers grow beyond the accuracy of the LP solver says nothing (modules with BLOWUP)'
    if getattr(mod, 'BLOWUP', None):
        try:
            watch()
        except Exception:   # pylint: disable=broad-except
            pass
    BIG[0] = 0.0
    st, msg = exec_case1(mod, case)
    if st == 'violation' and getattr(mod, 'BLOWUP', None) and BIG[0] > mod.BLOWUP:
        return 'skip', 'numbers up to %g: ' % BIG[0] + msg
    if st == 'violation':
        # look again: was it the LP solver that answered wrongly?
        import audit
        signal.alarm(120)
        audit.install()
        try:
            exec_case1(mod, case)
        finally:
            audit.remove()
        if audit.FAULTS:
            return 'skip', f'the LP solver answered wrongly ({audit.FAULTS[0]}): ' + msg
    return st, msg


def exec_case1(mod, case):
    import numpy as np
    from common import Violation, Known, Skip
    np.random.seed(0)
    try:
        from hylaa.timerutil import Timers
        Timers.reset()
    except Exception:   # pylint: disable=broad-except
        pass
    try:
        r = mod.run(case)
        return ('ok' if r is not False else 'trivial', '')
    except Violation as e:
        return ('violation', str(e))
    except Known as e:
        return ('known', e.key + '\t' + str(e))
    except Skip as e:
        return ('skip', str(e))
    except RecursionError as e:
        return ('violation', 'RecursionError')
    except Exception as e:  # pylint: disable=broad-except
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if '/hylaa/' in f.filename]
        text = f'{type(e).__name__}: {e} at ' + ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(tb[-5:]))
        if inside:
            return ('violation', 'unexpected exception on a well-formed input: ' + text)
        return ('harness-error', text)


def silence():
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get('HYLAA_DEBUG'):
        os.dup2(dn, 2)


def batch(mod, cases, timeout):
    'run cases in a forked child; yields (case, status, msg)'
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        silence()
        f = os.fdopen(w, 'w', buffering=1)
        import tempfile, shutil
        tmp = tempfile.mkdtemp(prefix='hylaa_case_')
        os.chdir(tmp)
        code = 0
        try:
            for i, c in enumerate(cases):
                f.write(json.dumps(['start', i]) + '\n')
                f.flush()
                signal.alarm(timeout)
                res = exec_case(mod, c)
                signal.alarm(0)
                f.write(json.dumps(['done', i, res[0], res[1]]) + '\n')
                f.flush()
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
            os._exit(code)
    os.close(w)
    out, cur = [], None
    with os.fdopen(r) as f:
        for line in f:
            m = json.loads(line)
            if m[0] == 'start':
                cur = m[1]
            else:
                out.append((cases[m[1]], m[2], m[3]))
                cur = None
    _, st = os.waitpid(pid, 0)
    if cur is not None:
        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
        if sig == signal.SIGALRM:
            out.append((cases[cur], 'timeout', f'no answer within {timeout}s'))
        else:
            out.append((cases[cur], 'violation', f'the process was killed (signal {sig}) on a well-formed input'))
    return out, (cur + 1 if cur is not None else len(cases))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--budget', type=float, default=20)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--kinds', default='')
    a = ap.parse_args()
    setup()
    mod = importlib.import_module(a.pid.lower())
    if a.replay:
        case = json.load(open(a.replay))
        case = case.get('case', case)
        res, _ = batch(mod, [case], 120)
        print(json.dumps({'status': res[0][1], 'message': res[0][2]}, indent=1))
        return 1 if res[0][1] == 'violation' else 0
    t0 = time.time()
    stats = {'ok': 0, 'trivial': 0, 'skip': 0, 'violation': 0, 'known': 0, 'harness-error': 0, 'timeout': 0}
    seen, samples, viol, known, herr, kinds = set(), [], [], {}, [], {}
    fixed = list(mod.fixed()) if hasattr(mod, 'fixed') else []
    rng = random.Random(a.seed * 7919 + 13)
    n = 0
    maxcases = getattr(mod, 'MAX', {'quick': 4000, 'thorough': 400000}).get(a.tier, 4000)
    stop = False
    per_case = getattr(mod, 'TIMEOUT', 30)
    pending = []
    while not stop:
        if not pending:
            if fixed:
                pending, fixed = fixed[:25], fixed[25:]
            else:
                pending = [mod.gen(rng) for _ in range(25)]
        res, used = batch(mod, pending, per_case)
        pending = pending[used:]
        for case, st, msg in res:
            n += 1
            stats[st] += 1
            kinds[case.get('kind', '-')] = kinds.get(case.get('kind', '-'), 0) + 1
            if st in ('ok', 'known'):
                h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()
                if h not in seen:
                    seen.add(h)
                    if len(samples) < 3:
                        samples.append(case)
            if st == 'violation':
                viol.append({'case': case, 'message': msg})
                if len(viol) >= 3:
                    stop = True
            if st == 'known':
                k, m = msg.split('\t', 1)
                known.setdefault(k, {'message': m, 'case': case, 'count': 0})['count'] += 1
            if st == 'harness-error' and len(herr) < 5:
                herr.append({'case': case, 'message': msg})
        if (time.time() - t0 > a.budget or n >= maxcases) and not fixed:
            stop = True
    out = {'property': a.pid, 'seed': a.seed, 'tier': a.tier, 'evaluations': n, 'distinct_nontrivial': len(seen),
           'stats': stats, 'kinds': kinds, 'samples': samples, 'violations': viol, 'known': known,
           'harness_errors': herr, 'rule': getattr(mod, 'RULE', ''), 'wall_s': time.time() - t0}
    if a.out:
        json.dump(out, open(a.out, 'w'), indent=1)
    else:
        print(json.dumps({k: v for k, v in out.items() if k != 'samples'}, indent=1)[:6000])
    return 1 if viol else 0


if __name__ == '__main__':
    sys.exit(main())
