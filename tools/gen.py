#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/registry.py and props/na.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import registry, na
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in registry.PROPS + na.PROPS:
        assert len(p['title']) <= 80, p['title']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]}
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quant']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 engine/build.py linux windows',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                 'technique': p['technique'], 'level': 'other', 'level_note': p['note']} for p in registry.PROPS],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in na.PROPS],
     'notes': 'Static analysis only: every check compiles the current sources of /repo to LLVM IR (never runs them) and decides over the IR. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

# DESIGN.md
def rd(n):
    return open(os.path.join(V, n), encoding='utf-8').read()
t = rd('tools/design.md')
pr = ''
for p in registry.PROPS:
    pr += '### %s %s\n\n%s\n\n*Decided by* %s (`%s`). %s\n\n*Ranges over* %s. *Tests cannot:* %s.\n\n*Bounds and trust:* %s\n\n' % (
        p['id'], p['title'], p['statement'], p['technique'], p['module'].replace('.', '/') + '.py', p['design'], p['quant'], p['why'], p['note'])
na_ = ''.join('* **%s %s** - %s.\n' % (p['id'], p['title'], p['reason']) for p in na.PROPS)
sd = '| planted bug | property | caught by | needs | breaks |\n| --- | --- | --- | --- | --- |\n'
S = os.path.join(V, 'seeded')
by = {}
if os.path.exists(os.path.join(V, 'tools', 'caught.txt')):
    for l in rd('tools/caught.txt').splitlines():
        a = l.split(None, 1)
        by[a[0]] = a[1] if len(a) > 1 else 'missed'
for d in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    j = json.load(open(os.path.join(S, d, 'meta.json')))
    sd += '| %s | %s | %s | %s | %s |\n' % (d, j['property'], by.get(d, j['property']), j['needs'], j['what_it_breaks'])
fx = ''.join('* ' + l[7:].replace('property=', '', 1).strip() + '\n' for l in rd('known_findings.txt').splitlines() if l.startswith('fixed:'))
fi = ''.join('* recorded, not repaired: ' + l[8:].strip() + '\n' for l in rd('known_findings.txt').splitlines() if l.startswith('finding:'))
for k, v in (('PROPERTIES', pr), ('NA', na_), ('SEEDS', sd), ('FIXED', fx + fi)):
    t = t.replace('{{%s}}' % k, v.rstrip())
open(os.path.join(V, 'DESIGN.md'), 'w', encoding='utf-8').write(t)
