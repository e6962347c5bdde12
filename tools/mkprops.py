#!/usr/bin/env python3
"""Emit properties.jsonl and MANIFEST.json from the one list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mech, technique, level, note, state=None, observe=None, na=None):
    a = dict(files=['sqpdfo/' + f if '/' not in f else f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
                   anchors=a), technique, level, note, na))


exec(open(os.path.join(V, 'tools', 'props_list.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p, *_ in P:
        f.write(json.dumps(p) + '\n')
man = dict(version=1, setup_cmd='true',
           checks=[dict(property=p['id'], quick_cmd='./check %s --tier quick' % p['id'],
                        thorough_cmd='./check %s --tier thorough' % p['id'], technique=t, level=l, level_note=n)
                   for p, t, l, n, na in P if not na],
           not_applicable=[dict(property=p['id'], reason=na) for p, t, l, n, na in P if na],
           notes='No hooks: all machinery drives the unmodified library through its public entry point or its module '
                 'functions; environment (user functions, random source) is supplied by the harness.')
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p, *_ in P:
        jsonschema.validate(p, s)
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid:', len(P), 'properties')
except ImportError:
    print('written (not validated):', len(P))
