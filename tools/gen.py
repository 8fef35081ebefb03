#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py.
A property whose check module exists is claimed; the others go under
not_applicable."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS, SCHEMA_NOTES
lines, checks, na = [], [], []
for p in PROPS:
    r = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
         'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
         'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
    if 'obs' in p:
        r['anchors']['observe_at'] = p['obs']
    assert len(p['title']) <= 80, p['id']
    lines.append(json.dumps(r, ensure_ascii=False))
    if os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py')) and not p.get('na'):
        checks.append({'property': p['id'], 'quick_cmd': f"python3 run_check.py {p['id']} --quick",
                       'thorough_cmd': f"python3 run_check.py {p['id']} --thorough",
                       'evidence_file': f"evidence/{p['id']}.json", 'technique': p['technique'],
                       'level': 'exploration', 'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': p.get('na', 'check not built yet')})
open(os.path.join(V, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 run_check.py --setup', 'checks': checks, 'not_applicable': na, 'notes': SCHEMA_NOTES}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na], 'not')
