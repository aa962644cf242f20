#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table (props.py)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA, NOTES
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p.get('over', ['inputs']), 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }, ensure_ascii=False) + '\n')
json.dump({p['id']: {'title': p['title'], 'rule': p['tech'] + '. ' + p['note']} for p in PROPS}, open(os.path.join(root, 'analyzer', 'titles.json'), 'w'), indent=1, ensure_ascii=False)
m = {
    'version': 1,
    'setup_cmd': 'bash build.sh',
    'checks': [{
        'property': p['id'],
        'quick_cmd': f"bash run.sh {p['id']} quick",
        'thorough_cmd': f"bash run.sh {p['id']} thorough",
        'technique': p['tech'],
        'level': 'other',
        'level_note': p['note'],
    } for p in PROPS],
    'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
    'notes': NOTES,
}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
