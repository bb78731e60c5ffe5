#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/catalog.py (run by hand when the catalogue changes)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from catalog import CATALOG, NOT_APPLICABLE, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in CATALOG:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
    for p in NOT_APPLICABLE:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
                 'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                 'technique': p['technique'], 'level': 'model_checking', 'level_note': p['level_note']} for p in CATALOG],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NOT_APPLICABLE],
     'notes': NOTES}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
