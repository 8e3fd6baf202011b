#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NA = {}
m = dict(version=1, setup_cmd='python3 -m py_compile run.py checks.py && g++ --version && clang++ --version', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd=f'VERIF_TIER=quick python3 run.py {i}', thorough_cmd=f'VERIF_TIER=thorough python3 run.py {i}',
                                evidence_file=f'evidence/{i}.json', technique=c['technique'], level=c['level'], level_note=c['note']))
    else: m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'check under construction')))
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
