#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from dev/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.P:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 /verif/setup.py', 'checks': [], 'not_applicable': [], 'notes': props.NOTES}
for p in props.P:
    if p.get('na'):
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 /verif/check.py %s --tier quick' % p['id'],
                            'thorough_cmd': 'python3 /verif/check.py %s --tier thorough' % p['id'],
                            'technique': p['technique'], 'level': p['level'], 'level_note': p['level_note']})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'n/a')
