#!/usr/bin/env python3
"""writes DESIGN.md from the head and tail texts, the explanations of the checks, the planted bugs and known_findings.json"""
import json, os, sys, importlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/sa')
tech = json.load(open(ROOT + '/tools/technique.json'))
bounds = json.load(open(ROOT + '/tools/bounds.json'))
caught = json.load(open(ROOT + '/tools/caught.json'))
out = [open(ROOT + '/tools/design_head.md').read()]
for l in open(ROOT + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in tech.get('NA', {}):
        out.append('Not applicable: %s\n' % tech['NA'][i])
        continue
    m = importlib.import_module('checks.' + i.lower())
    out.append('*Method.* %s\n' % tech[i][0])
    out.append('*Decided how.* ' + m.EXPLAIN + '\n')
    out.append('*Reach and trust.* ' + tech[i][1] + '\n')
    if i in bounds:
        out.append('*Bounds and cost.* ' + bounds[i] + '\n')
    out.append('*Beyond tests.* ' + p['why_tests_cant'] + ' The rule quantifies over ' + p['quantifier']['text'] + '.\n')
out.append('\n## Planted bugs and which checks catch them\n')
out.append('Each is in `seeded/`, builds, passes the 320 stable tests and has a demonstration. "Caught" is the check of the property it was written from.\n')
out.append('| bug | property | needs | caught |\n|---|---|---|---|')
for s in sorted(os.listdir(ROOT + '/seeded')):
    m = json.load(open(ROOT + '/seeded/%s/meta.json' % s))
    out.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '/'), caught.get(s, '?')))
out.append('\n## Defects found and repaired\n')
out.append('Each is one `fix:` commit in /repo and a `fixed` entry in `known_findings.json`; the check that reported it passes now and reports it again if it returns.\n')
for f in json.load(open(ROOT + '/known_findings.json'))['fixed']:
    out.append('* ' + (f if isinstance(f, str) else ' '.join(str(v) for v in f.values())).replace('fixed: ', ''))
out.append(open(ROOT + '/tools/design_tail.md').read())
open(ROOT + '/DESIGN.md', 'w').write('\n'.join(out))
