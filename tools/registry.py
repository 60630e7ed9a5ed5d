#!/usr/bin/env python3
"""The source of properties.jsonl and MANIFEST.json: run it after an edit."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # (property, technique, level_note) or (property, None, reason)


def prop(id, title, statement, over, text, tests, files, mech, technique=None, note=None, na=None, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
         'why_tests_cant': tests, 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = list(observe)
    d['anchors']['hook_needed'] = None
    P.append((d, technique, note, na))


exec(open(os.path.join(V, 'tools', 'properties_src.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
    for d, t, n, na in P:
        fh.write(json.dumps(d) + '\n')
man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': [],
       'notes': 'TLA+ specifications in spec/, checked with TLC; drivers in drivers/ exercise the code in /repo; '
                'spec/*Trace.tla judges what they record. No hooks in /repo are needed.'}
for d, t, n, na in P:
    if na:
        man['not_applicable'].append({'property': d['id'], 'reason': na})
    else:
        man['checks'].append({'property': d['id'], 'quick_cmd': './check %s --tier quick' % d['id'],
                              'thorough_cmd': './check %s --tier thorough' % d['id'],
                              'technique': t, 'level': 'model_checking', 'level_note': n})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
    json.dump(man, fh, indent=1)
    fh.write('\n')
