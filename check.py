#!/usr/bin/env python3
'''Decides one property of /repo: check.py C07 [--tier quick|thorough] [--replay FILE]

1. the deductive part (engine/prove.py): contracts in contracts/ on the functions of /repo/hylaa, every verification
   condition generated from the current source and discharged by z3 / cvc5;
2. the bounded part (harness/): the same contracts evaluated at run time on the real code with generated inputs. It
   replays refuted obligations, and stands in (labelled bounded) for the functions the prover cannot reach.

exit 0: held on everything; 1: VIOLATION line; 2: no answer (neither part could run).
'''
import argparse, json, os, subprocess, sys, time, tempfile, shutil, glob, re
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('HYLAA_REPO', '/repo')
PYREAL = '/opt/venv/bin/python'
PYVT = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
TIERS = {'quick': dict(workers=6, budget=18, retry=40, prove=240), 'thorough': dict(workers=7, budget=300, retry=120, prove=600)}


def env():
    e = dict(os.environ)
    e.update(MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0', PYTHONPATH=REPO,
             HYLAA_REPO=REPO)
    return e


def start_harness(pid, seed, tier, budget, out):
    return subprocess.Popen([PYREAL, os.path.join(HERE, 'harness', 'run.py'), pid, '--seed', str(seed), '--tier', tier, '--budget', str(budget), '--out', out],
                            env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)


def collect(procs, limit):
    'wait for (process, outfile) pairs; returns the reports and error texts'
    reps, errs = [], []
    end = time.time() + limit
    for p, out in procs:
        try:
            _, e = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            _, e = p.communicate()
            errs.append('worker ran out of time')
        if os.path.exists(out):
            reps.append(json.load(open(out)))
        else:
            errs.append((e or b'').decode(errors='replace')[-800:])
    return reps, errs


def claimed_level(pid):
    'the level the manifest claims; a run with an undischarged obligation reports less'
    m = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    return next((c['level'] for c in m['checks'] if c['property'] == pid), 'exploration')


def bounded(pid, tier, seeds, budget, tmp):
    procs = []
    for s in seeds:
        out = os.path.join(tmp, f'h{s}.json')
        procs.append((start_harness(pid, s, tier, budget, out), out))
    return procs


def known_keys(pid):
    out = {}
    for line in open(os.path.join(HERE, 'known_findings.txt')):
        m = re.match(r'finding: key=(\S+) properties=(\S+) (.*)', line)
        if m and pid in m.group(2).split(','):
            out[m.group(1)] = m.group(3).strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--replay')
    ap.add_argument('--no-prove', action='store_true')
    a = ap.parse_args()
    pid = a.pid.upper()
    if a.replay:
        r = json.load(open(a.replay))
        if 'case' not in r:
            print(json.dumps(r, indent=1))
            return 1
        return subprocess.call([PYREAL, os.path.join(HERE, 'harness', 'run.py'), pid, '--replay', a.replay], env=env())
    t0 = time.time()
    T = TIERS[a.tier]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tmp = tempfile.mkdtemp(prefix='verif_')
    try:
        return decide(pid, a, T, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(pid, a, T, seed, tmp, t0):
    seeds = [seed * 100 + i for i in range(T['workers'])]
    procs = bounded(pid, a.tier, seeds, T['budget'], tmp)
    proof = None
    if not a.no_prove:
        pout = os.path.join(tmp, 'proof.json')
        pp = subprocess.Popen([PYVT, os.path.join(HERE, 'engine', 'prove.py'), pid, '--tier', a.tier, '--out', pout], env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    reps, errs = collect(procs, T['budget'] + 240)
    if not a.no_prove:
        pr, pe = collect([(pp, pout)], T['prove'])
        proof = pr[0] if pr else {'error': ' '.join(pe)[-600:]}
    viol = [dict(v, seed=r['seed']) for r in reps for v in r['violations']]
    # refuted: the solver's model speaks about the code's values alone; failed: it also interprets abstract operations
    refuted = [o for o in (proof or {}).get('obligations', []) if o['status'] in ('refuted', 'failed')]
    if refuted and not viol:
        # look harder for an input that shows the refuted obligation on the real code
        tmp2 = os.path.join(tmp, 'retry')
        os.makedirs(tmp2)
        r2, e2 = collect(bounded(pid, a.tier, [seed * 100 + 50 + i for i in range(8)], T['retry'], tmp2), T['retry'] + 240)
        reps += r2
        errs += e2
        viol = [dict(v, seed=r['seed']) for r in reps for v in r['violations']]
    known = {}
    for r in reps:
        for k, v in r['known'].items():
            known.setdefault(k, v)
    listed = known_keys(pid)
    for k, v in known.items():
        if k not in listed:
            viol.append({'case': v['case'], 'message': 'unlisted known finding ' + k + ': ' + v['message'], 'seed': 0})
    ev = sum(r['evaluations'] for r in reps)
    concl = sum(r['stats']['ok'] + r['stats']['trivial'] + r['stats']['known'] + r['stats']['violation'] for r in reps)
    herr = [h for r in reps for h in r['harness_errors']]
    obls = (proof or {}).get('obligations', [])
    proved = [o for o in obls if o['status'] == 'proved']
    und = [o for o in obls if o['status'] not in ('proved', 'refuted', 'failed')]
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + '_*')):
        os.remove(f)
    lines = []
    if viol:
        v = viol[0]
        path = os.path.join(rdir, pid + '_case.json')
        json.dump({'property': pid, 'case': v['case'], 'message': v['message'], 'seed': v['seed'], 'refuted_obligations': refuted,
                   'how': f'python3 {HERE}/check.py {pid} --replay {path}'}, open(path, 'w'), indent=1)
        lines.append(f'VIOLATION property={pid} replay={path}')
        print('  ' + v['message'][:400].replace('\n', ' '))
    elif refuted:
        path = os.path.join(rdir, pid + '_obligation.json')
        json.dump({'property': pid, 'failed_obligations': refuted, 'note': 'obligation false in a model found by the solver; no failing input was found on the real code', 'solver_output': [o['reason'] for o in refuted][:20]}, open(path, 'w'), indent=1)
        lines.append(f'VIOLATION property={pid} replay={path} no-failing-input-found')
        print('  failed obligation: ' + refuted[0]['name'])
    rule = next((r['rule'] for r in reps if r['rule']), '')
    cov = {'evaluations': ev, 'distinct_nontrivial': sum(r['distinct_nontrivial'] for r in reps), 'rule': 'BOUNDED PART (not proof): ' + rule,
           'samples': [s for r in reps for s in r['samples']][:2], 'conclusive': concl,
           'bounded_stats': {k: sum(r['stats'][k] for r in reps) for k in reps[0]['stats']} if reps else {}}
    assumptions = list((proof or {}).get('assumptions', []))
    level = 'exploration'
    if proof and obls:
        cov.update(obligations=len(obls), discharged=len(proved), checker_cmd=f'{PYVT} {HERE}/engine/prove.py {pid}', trusted_base=proof.get('trusted_base', []),
                   functions_under_contract=proof.get('functions', []), functions_executed_in_place=proof.get('executed_in_place', []), backends=proof.get('backends', {}), solver_time_s=proof.get('solver_s', 0),
                   undischarged=[{'name': o['name'], 'status': o['status'], 'reason': o.get('reason', '')} for o in und][:40],
                   refuted=[o['name'] for o in refuted], vacuity_checks=proof.get('vacuity', {}), bounded_functions=proof.get('bounded_functions', []))
        if not und and not refuted and claimed_level(pid) == 'proof':
            level = 'proof'
    if proof and proof.get('error'):
        cov['prover_error'] = proof['error']
    if errs or herr:
        cov['harness_notes'] = errs[:3] + [h['message'] for h in herr[:3]]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump({'property': pid, 'tier': a.tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2),
               'violations': len(viol) + (1 if refuted and not viol else 0)}, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for k, text in listed.items():
        if k in known:
            print(f'KNOWN-FINDING: property={pid} {k}: {text}')
    print(f'{pid}: obligations {len(proved)}/{len(obls)} discharged ({len(refuted)} refuted, {len(und)} undecided); bounded part: {ev} cases, {concl} conclusive, '
          f'{cov["distinct_nontrivial"]} distinct non-trivial; {time.time() - t0:.0f}s' + (f'; harness notes: {len(errs) + len(herr)}' if errs or herr else ''))
    if a.tier == 'quick' and (errs or herr):
        print('  note: ' + str((errs + [h['message'] for h in herr])[0])[:300])
    for l in lines:
        print(l)
    if lines:
        return 1
    if concl == 0 and not proved:
        print('no answer: nothing could be evaluated')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
