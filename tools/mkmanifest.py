'writes /verif/MANIFEST.json (run by hand; levels come from LEVELS)'
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
LV = {}
lvf = os.path.join(HERE, 'tools', 'levels.json')
if os.path.exists(lvf):
    LV = json.load(open(lvf))
checks = []
for p in props:
    i = p['id']
    lv = LV.get(i, {})
    checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
                   'technique': lv.get('technique', 'contract-based deductive verification of the real Python source (own VC generator, z3/cvc5) with run-time contract checking as labelled bounded stand-in'),
                   'level': lv.get('level', 'exploration'), 'level_note': lv.get('note', 'bounded: run-time contracts on the real code against exact polytope oracles; not proof')})
    if lv.get('theorems'):
        checks[-1]['theorems'] = lv['theorems']
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': [],
           'notes': 'no hooks in /repo: contracts are sidecar files under /verif/engine/contracts*.py'}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
