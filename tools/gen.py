#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from spec/props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'spec'))
sys.dont_write_bytecode = True
import props
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': p['hook']}}) + '\n')
na = {x['property'] for x in props.NA}
m = {'version': 1, 'setup_cmd': './setup.sh',
     'checks': [{'property': p['id'], 'quick_cmd': './run ' + p['id'],
                 'thorough_cmd': 'VERIF_TIER=thorough ./run ' + p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'],
                 'level': 'exploration', 'level_note': p['note']} for p in props.PROPS if p['id'] not in na],
     'not_applicable': props.NA}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')
