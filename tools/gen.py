#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/catalogue.py."""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.path.insert(0, os.path.join(H, 'tools'))
import catalogue as c   # noqa: E402
from vlib import props  # noqa: E402
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in c.CATALOGUE:
        f.write(json.dumps({k: v for k, v in p.items()
                            if k[0] != '_'}) + '\n')
checks = []
for p in c.CATALOGUE:
    i = p['id']
    if i not in props.PROPS:
        continue
    d = props.PROPS[i]
    note = ('TLC model checks %s and judges traces of the real code with %s; '
            'what is not executed is not judged. Assumes the exact decimal '
            'arithmetic of java/Big.java and faithful recording. %s' % (
                ', '.join(m for m, _, _ in d.mcs) or 'no design model',
                d.trace, p['_level'])).strip()
    checks.append({'property': i, 'quick_cmd': './check %s' % i,
                   'thorough_cmd': './check %s --tier thorough' % i,
                   'technique': c.TECH, 'level': 'model_checking',
                   'level_note': note})
m = {'version': 1, 'setup_cmd': './setup',
     'hooks': {'guard': 'AUXI_VERIF_TRACE',
               'enable': 'no hook was needed: the public API exposes the '
                         'abstract state, the guard is reserved and unused',
               'source_commits': []},
     'checks': checks,
     'not_applicable': c.NOT_APPLICABLE + [
         {'property': p['id'], 'reason': 'no check yet'}
         for p in c.CATALOGUE if p['id'] not in props.PROPS]}
with open(os.path.join(H, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
