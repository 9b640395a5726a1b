#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import units
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {'C27': 'progress and deadlock freedom are liveness properties of whole schedules; function contracts state what holds when a call returns, and no verifier here decides termination or fairness of the pthread code (lock balance and the monitor invariants, the safety part, are decided under C05, C07 and C15)'}
checks, na = [], []
for p in props:
    i = p['id']
    if i in units.CHECKS:
        c = units.CHECKS[i]
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                           technique=c.get('technique') or 'contract-based deductive verification of the real C code (pre/postconditions, invariants, loop cuts; VCs discharged by CBMC)',
                           level=c['level'], level_note=c['note']))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         checks=checks, not_applicable=na,
         notes='Every check rebuilds from /repo/src with goto-cc (and gcc for replay) in /verif/.work, which it removes. See DESIGN.md.')
h = getattr(units, 'HOOKS', None)
if h:
    m['hooks'] = h
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')
