#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from gen/properties.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/gen')
from properties import P, NOT_APPLICABLE, NOTES
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p.get('observe', [])}
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
checks = [{'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
           'technique': p['tech'], 'level': p.get('level', 'exploration'), 'level_note': p['note']} for p in P if not p.get('na')]
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks,
               'not_applicable': NOT_APPLICABLE, 'notes': NOTES}, f, indent=1)
    f.write('\n')
print(len(P), 'properties')
