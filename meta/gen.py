#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from meta/props.py (one table, so the two stay in step)"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS
checks = []; na = []
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
        assert len(d['title']) <= 80, d['title']
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps(d) + '\n')
        if p.get('na'):
            na.append({'property': p['id'], 'reason': p['na']})
        else:
            checks.append({'property': p['id'], 'quick_cmd': 'python3 checks/run.py %s quick' % p['id'],
                           'thorough_cmd': 'python3 checks/run.py %s thorough' % p['id'],
                           'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis only: every check extracts the clang AST of every translation unit of /repo on each run (tool/extract.cpp) and decides its property on it (sa/, checks/). See DESIGN.md.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')

# DESIGN.md
import glob, re
from design import D
known = [l.strip() for l in open(os.path.join(root, 'known_findings.txt')) if l.strip()]
seeds = {}
for d in sorted(glob.glob(os.path.join(root, 'seeded', '*'))):
    j = json.load(open(d + '/meta.json')); seeds.setdefault(j['property'], []).append((os.path.basename(d), j))
from design import MISSED
out = []
for p in PROPS:
    if p.get('na'):
        continue
    i = p['id']; how, bounds = D[i]
    out += ['', '### %s %s' % (i, p['title']), '', p['statement'], '', '*Decided by*: %s' % how, '', '*Bounds*: %s. *Not judged / trusted*: %s.' % (bounds, p['note']), '', '*Why tests do not settle it*: %s.' % p['why'].rstrip('.')]
    f = [l for l in known if 'property=%s ' % i in l]
    if f:
        out += ['', 'Defects it found in the code:', '']
        for l in f:
            m = re.match(r'fixed: property=\S+ (\S+) (.*)', l)
            out.append('* %s (fixed in %s)' % (m.group(2), m.group(1)) if m else '* ' + l)
na_ = ['* **%s** %s: %s' % (p['id'], p['title'], p['na']) for p in PROPS if p.get('na')] or ['(none)']
tab = ['| seeded change | property | needs | caught | strengthened |', '|---|---|---|---|---|']
for i in sorted(seeds):
    for n, j in seeds[i]:
        tab.append('| %s | %s | %s | yes | %s |' % (n, i, j['needs'].replace('|', '/'), MISSED.get(n, '')))
t = open(os.path.join(here, 'design.md')).read()
t = t.replace('{{PROPS}}', '\n'.join(out) + '\n').replace('{{NA}}', '\n'.join(na_) + '\n').replace('{{SEEDS}}', '\n'.join(tab))
open(os.path.join(root, 'DESIGN.md'), 'w').write(t)
