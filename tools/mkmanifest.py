#!/usr/bin/env python3
"""Regenerate MANIFEST.json from checks/specs.py and the list of properties not claimed."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'checks'))
from specs import SPECS
NA = {}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i not in SPECS:
        na.append(dict(property=i, reason=NA.get(i, 'the check for concurrent executions (symbolic execution of the threads, SMT over '
                                                    'all weak-memory executions) is not finished')))
        continue
    s = SPECS[i]
    tech = s.get('technique') or ('symbolic execution of the real code (LLVM IR of the harness and /repo headers), Z3 deciding every branch '
                                  'and assertion over symbolic inputs; counterexamples replayed natively')
    note = 'Holds for every value and path within: ' + s['bounds'] + '.'
    if s.get('outside'):
        note += ' Outside: ' + s['outside'] + '.'
    note += ' Assumes: ' + '; '.join(s.get('assumptions', [])) + '.'
    checks.append(dict(property=i, quick_cmd='python3-vt engine/check.py %s quick' % i,
                       thorough_cmd='python3-vt engine/check.py %s thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=tech, level='model_checking', level_note=note))
m = dict(version=1, setup_cmd='python3-vt engine/selftest.py', checks=checks)
if na:
    m['not_applicable'] = na
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
