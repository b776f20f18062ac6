#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a harness/cNN.py is claimed."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Every path of the real source (cmakelang modules executed from '
        '/repo\'s current tree by the symbolic executor in symex/) is explored '
        'for every template; each assertion is discharged by z3 / exact domain '
        'reasoning for all values within the stated bounds; counterexamples '
        'are replayed on the unmodified code before they are reported. '
        'Trusted: the executor\'s models of str, re, and the modelled library '
        'calls, cross-checked on every explored path by replaying a sample on '
        'the real code. ')
EXTRA = {}
NA = {}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(ROOT, 'harness', pid.lower() + '.py')) and pid not in NA:
        checks.append({
            'property': pid,
            'quick_cmd': 'python3-vt check.py %s --tier quick' % pid,
            'thorough_cmd': 'python3-vt check.py %s --tier thorough' % pid,
            'technique': 'symbolic execution of the real Python source with SMT '
                         '(z3) deciding every path and assertion',
            'level': 'model_checking',
            'level_note': NOTE + EXTRA.get(pid, '')})
    else:
        na.append({'property': pid, 'reason': NA.get(
            pid, 'check not built yet (work in progress)')})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3"', 'checks': checks,
     'not_applicable': na,
     'notes': 'see DESIGN.md; all checks: python3-vt check.py CNN [--tier ..]; '
              'replay: python3-vt check.py --replay evidence/replay/...json. '
              'No hooks were needed in /repo.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed', len(na), 'not')
