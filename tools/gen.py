#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NOT_APPLICABLE, HOOKS
root = os.path.join(os.path.dirname(__file__), '..')
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }) + '\n')
        assert len(p['title']) <= 80, p['id']
checks = [{
    'property': p['id'],
    'quick_cmd': f"./run.sh {p['id']} quick",
    'thorough_cmd': f"./run.sh {p['id']} thorough",
    'evidence_file': f"evidence/{p['id']}.json",
    'technique': p['technique'], 'level': p['level'], 'level_note': p['note'],
} for p in PROPS if p.get('claimed', True)]
na = NOT_APPLICABLE + [{'property': p['id'], 'reason': p['reason']} for p in PROPS if not p.get('claimed', True)]
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Evidence is rewritten by every run; see DESIGN.md.'}
if HOOKS: m['hooks'] = HOOKS
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
