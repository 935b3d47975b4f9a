#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the rules that exist, and tools/levels.json"""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'); sys.path.insert(0, H)
from rules.all import RULES
from tools.techniques import TECH, NOTE, NA
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'All checks are static: extract.sh type-checks /repo with a rustc driver that dumps MIR facts, rules/*.py decide the obligations on them. No hooks in /repo.'}
for p in props:
    i = p['id']
    if i in NA: m['not_applicable'].append({'property': i, 'reason': NA[i]}); continue
    if i not in RULES:
        m['not_applicable'].append({'property': i, 'reason': 'no check built yet'}); continue
    m['checks'].append({'property': i, 'quick_cmd': f'python3 run.py {i}', 'thorough_cmd': f'python3 run.py {i}', 'evidence_file': f'evidence/{i}.json',
        'technique': TECH.get(i, 'path-sensitive dataflow / effect analysis over MIR'), 'level': 'other', 'level_note': NOTE.get(i, NOTE['*'])})
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
