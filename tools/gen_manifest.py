#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
DEFAULT_TECH = 'runtime monitoring: oracle over observed executions (quad precision reference model), ASan/UBSan'
m = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'checks': [],
    'not_applicable': [],
    'notes': 'No hooks in /repo are needed: every monitor sits at the public API boundary and recompiles the headers and bindings of the current working tree. Each check builds what it needs itself (build/ and out/ are ignored by git).',
}
for p in props:
    s = checks.CHECKS.get(p['id'])
    if s is None:
        m['not_applicable'].append({'property': p['id'], 'reason': 'not claimed: no check built yet'})
        continue
    m['checks'].append({
        'property': p['id'],
        'quick_cmd': 'VERIF_TIER=quick python3 run.py ' + p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + p['id'],
        'technique': s.get('technique', DEFAULT_TECH),
        'level': 'exploration',
        'level_note': s.get('level_note', 'Held on the executions observed in this run (counts in the evidence file); says nothing about inputs the generators do not reach. ' + '; '.join(s.get('assumptions', []))),
    })
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not')
