#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l) for l in open(f'{H}/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append({
            'property': i, 'quick_cmd': f'python3 run.py {i} quick', 'thorough_cmd': f'python3 run.py {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': c.get('technique', 'TLA+ specification; TLC validates traces recorded from the real code against it'),
            'level': c['level'],
            'level_note': c.get('note', 'Every recorded step of the real code is compared with the step of the TLA+ specification; bounded by the generated histories and inputs. Trusts TLC, the recorder in harness/, and prost.'),
        })
    else:
        m['not_applicable'].append({'property': i, 'reason': 'specification not finished yet; see DESIGN.md'})
m['notes'] = 'TLA+ specification in spec/, recorder in harness/, driver run.py. No hooks in /repo are needed.'
json.dump(m, open(f'{H}/MANIFEST.json', 'w'), indent=1)
