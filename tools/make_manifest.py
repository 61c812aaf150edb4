"""Writes MANIFEST.json from the oracles and contracts present."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from contracts.all import load
side = load()
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
try:
    from tools.not_applicable import NA
except ImportError:
    NA = {}
checks, na = [], []
for p in props:
    pid = p['id']
    cs = [k for k, c in side.contracts.items() if pid in c.props and not c.trusted]
    if pid in NA or not cs or not os.path.exists(os.path.join(ROOT, 'oracles', pid + '.py')):
        na.append({'property': pid, 'reason': NA.get(pid, 'no contract is discharged for it yet')})
        continue
    full = sorted(k.split(':')[1] for k in cs if not side.contracts[k].assumed)
    part = sorted(k.split(':')[1] for k in cs if side.contracts[k].assumed)
    note = 'Discharged for all inputs: the contracts of %s.' % ', '.join(full) if full else ''
    if part:
        note += ' Partly (see trusted_base in the evidence): %s.' % ', '.join(part)
    note += ' The rest of the property is a bounded check of the same postconditions on the real code. Trusts the VC generator pyvc, z3/cvc5 and the models of dependencies listed in the evidence.'
    checks.append({'property': pid, 'quick_cmd': 'python3 check.py %s quick' % pid, 'thorough_cmd': 'python3 check.py %s thorough' % pid,
                   'technique': 'contract-based deductive verification of the real code (pyvc: VCs from /repo source, z3 and cvc5)',
                   'level': 'proof', 'level_note': note})
m = {'version': 1, 'setup_cmd': 'sh setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
