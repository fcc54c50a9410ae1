#!/usr/bin/env python3
"""writes MANIFEST.json from the specifications present in spec/"""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{H}/properties.jsonl')]
conf = json.load(open(f'{H}/bin/checks.json'))
notes = {p: c.get('note') for p, c in conf.items()}
checks, na = [], []
for p in props:
    i = p['id']
    if i in conf and 'note' in conf[i]:
        checks.append({'property': i, 'quick_cmd': f'bin/check {i}', 'thorough_cmd': f'VERIF_TIER=thorough bin/check {i}', 'evidence_file': f'evidence/{i}.json',
          'technique': 'TLA+ specification checked with TLC: sessions enumerated from the specification, executed in the real library, recorded traces validated against the specification',
          'level': conf[i].get('level', 'model_checking'), 'level_note': conf[i]['note']})
    else: na.append({'property': i, 'reason': conf.get(i, {}).get('reason', 'specification not finished yet')})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check rebuilds /repo out of tree into a temporary directory; no hooks are needed in /repo (allocation and message interception happen by linking).'}
json.dump(m, open(f'{H}/MANIFEST.json', 'w'), indent=1); open(f'{H}/MANIFEST.json', 'a').write('\n')
