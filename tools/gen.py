#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rucsa.props import PROPS, NA, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS + NA:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p.get('over', ['inputs', 'programs']), 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]},
        }, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'true',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
                 'technique': p['technique'], 'level': 'other', 'level_note': p['note']} for p in PROPS],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
     'notes': NOTES}
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
