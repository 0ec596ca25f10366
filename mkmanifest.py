"""python3 mkmanifest.py: write MANIFEST.json from props.py and properties.jsonl"""
import json
from props import PROPS
checks = []
for line in open('properties.jsonl'):
    d = json.loads(line)
    i = d['id']
    p = PROPS[i]
    proof = p['level'] == 'proof'
    checks.append({
        'property': i,
        'quick_cmd': 'python3 check.py %s' % i,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': p.get('technique') or (
            'contract-based deductive verification: obligations generated from the current source by pyvc, discharged by z3'
            + ('; bounded runtime-contract checks of the rest' if proof else '')),
        'level': p['level'],
        'level_note': p.get('note', ''),
    })
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [],
     'notes': 'See DESIGN.md. No hooks in /repo are needed; the repairs are the fix: commits listed in known-findings.txt.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
