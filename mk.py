#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (props/*.json would be the same thing in more files)."""
import json, os
P = []


def prop(id, title, statement, over, text, tests, files, mechanism, observe, claim=None, state=(), level_note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mechanism=mechanism,
                  observe=observe, claim=claim, state=state, level_note=level_note, na=na))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props.py')).read())

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        line = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['tests'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']],
                            'observe_at': p['observe'], 'hook_needed': None}}
        f.write(json.dumps(line) + '\n')
checks = []
for p in P:
    if p['claim']:
        checks.append({'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'],
                       'thorough_cmd': './check.sh %s thorough' % p['id'], 'technique': p['claim'],
                       'level': 'model_checking', 'level_note': p['level_note']})
m = {'version': 1, 'setup_cmd': './setup.sh', 'hooks': {'guard': 'BOMBA_VERIF_NONE', 'enable': 'no hooks: the harnesses use the public interfaces of the headers only', 'source_commits': []},
     'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': p['na'] or 'check not built yet'} for p in P if not p['claim']]}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
