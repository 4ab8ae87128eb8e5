'''writes /verif/CONTRACTS.md: every function under contract, by property (run by hand with python3-vt)'''
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import prove, contracts      # noqa: F401
import json
out = ['# Functions under contract', '', 'Generated by tools/mkcontracts.py from the contract files. One line per function: its contract in words. `[bounded: ...]` marks a scenario that fixes a size.', '']
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    cs = sorted((q, c) for q, c in contracts.ALL.items() if p['id'] in c.props)
    out += [f'## {p["id"]} {p["title"]} ({len(cs)} functions)', '']
    for q, c in cs:
        out.append(f'- `{q}`: {" ".join(c.doc.split())}' + (f' [bounded: {c.bounded}]' if c.bounded else ''))
    out.append('')
open(os.path.join(HERE, 'CONTRACTS.md'), 'w').write('\n'.join(out))
print(len(contracts.ALL), 'functions')
