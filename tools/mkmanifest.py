#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the checks present."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(here, 'tools/notes.json')))
checks, na = [], []
for l in open(os.path.join(here, 'properties.jsonl')):
    i = json.loads(l)['id']
    if not os.path.exists(f'{here}/checks/{i.lower()}.c'):
        na.append({'property': i, 'reason': notes.get(i, {}).get('na', 'check not built yet')}); continue
    n = notes.get(i, {})
    checks.append({
        'property': i,
        'quick_cmd': f'bin/check {i} quick', 'thorough_cmd': f'bin/check {i} thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': n.get('technique', 'stateless model checking: exhaustive bounded enumeration of inputs on the real code, each execution compared with an independent executable reference model'),
        'level': 'fault_enumeration' if i == 'C15' else 'model_checking',
        'level_note': n.get('note', 'exhaustive within the bounds stated in the evidence file; nothing is claimed outside them'),
    })
json.dump({'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na}, open(f'{here}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
