#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from lib/props.py"""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/lib')
import props
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.P + [n['p'] for n in props.NA]:
        a = {'files': p['files'], 'mechanism': [{'name': p['mechanism'], 'where': ', '.join(p['files'])}]}; a.update(p['anch'])
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
M = {'version': 1, 'setup_cmd': 'bash bin/setup.sh',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 lib/run.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 lib/run.py %s --tier thorough' % p['id'],
                 'technique': p['technique'], 'level': 'other', 'level_note': p['note']} for p in props.P],
     'not_applicable': [{'property': n['p']['id'], 'reason': n['reason']} for n in props.NA]}
json.dump(M, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
