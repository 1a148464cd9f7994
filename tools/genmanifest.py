#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of techniques."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
tech = {}
na = {}
for line in open(root + '/tools/techniques.txt'):
    line = line.rstrip('\n')
    if not line or line.startswith('#'):
        continue
    pid, t, note = [x.strip() for x in line.split('|', 2)]
    if t == 'N/A':
        na[pid] = note
    else:
        tech[pid] = (t, note)
checks, nas = [], []
for p in props:
    i = p['id']
    if i in tech:
        t, note = tech[i]
        checks.append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': './check.sh ' + i,
                       'technique': t, 'level': 'other', 'level_note': note})
    else:
        nas.append({'property': i, 'reason': na.get(i, 'no check has been built for this property yet')})
m = {'version': 1, 'setup_cmd': './check.sh', 'checks': checks, 'not_applicable': nas,
     'notes': 'One analyzer (Go, golang.org/x/tools/go/ssa) in /verif/analyzer decides every property from the type-checked source and its SSA form; it never executes bento. See DESIGN.md.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(root + '/MANIFEST.json', 'a').write('\n')
