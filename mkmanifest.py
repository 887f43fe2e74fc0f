#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
from plans import PLANS, NOT_APPLICABLE
props = [json.loads(l) for l in open('properties.jsonl')]
checks = []
for p in props:
    i = p['id']
    if i in PLANS:
        pl = PLANS[i]
        checks.append(dict(property=i, quick_cmd=f'python3 harness/check.py {i}', thorough_cmd=f'python3 harness/check.py {i} --thorough',
                           evidence_file=f'evidence/{i}.json', technique=pl.get('technique', 'TLA+ specification checked with TLC; TLC-generated scenarios replayed on the real code and the recorded traces checked against the specification with TLC'),
                           level='model_checking', level_note=pl.get('note', 'Bounded: holds on every scenario TLC generated and every trace it validated. ') + ' Assumes: ' + '; '.join(pl.get('assumptions', [])) + '.'))
na = [dict(property=p['id'], reason=NOT_APPLICABLE.get(p['id'], 'check under construction; not claimed yet')) for p in props if p['id'] not in PLANS]
json.dump(dict(version=1, setup_cmd='sh harness/setup.sh', checks=checks, not_applicable=na,
               hooks=dict(guard='JAX_FEM_VERIF (no hook needed it: everything is observed through the public API)', enable='nothing to enable', source_commits=[]),
               notes='TLA+/TLC; see DESIGN.md'), open('MANIFEST.json', 'w'), indent=1)
