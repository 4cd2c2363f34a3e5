#!/usr/bin/env python3
"""Fill in DESIGN.md from its template, the properties, the findings and the planted bugs."""
import ast
import glob
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = os.path.join
props = [json.loads(l) for l in open(J(HERE, 'properties.jsonl'))]
NA = json.load(open(J(HERE, 'tools', 'na.json')))
how = {}
for l in open(J(HERE, 'tools', 'design_props.txt')):
    if l.strip():
        i, *rest = [x.strip() for x in l.split(' | ')]
        how[i] = rest
out = []
for p in props:
    i = p['id']
    f = J(HERE, 'specs', i.lower() + '.py')
    if not os.path.exists(f):
        continue
    out.append('### %s %s\n' % (i, p['title']))
    if i in how:
        w = how[i] + [''] * 3
        out.append('* Analysed: %s.\n* Oracle: %s.\n* Bounds: %s.' % tuple(w[:3]))
    ents = []
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.FunctionDef) and n.name.startswith(('check_', 'deep_')):
            d = ast.get_docstring(n)
            ents.append('`%s`%s' % (n.name, ' (%s)' % ' '.join(d.split()).rstrip('.') if d else ''))
    out.append('* Entries: %s.\n' % ', '.join(ents))
na = []
for p in props:
    i = p['id']
    if not os.path.exists(J(HERE, 'specs', i.lower() + '.py')):
        na.append('* **%s %s**: %s' % (i, p['title'], NA.get(i, 'no check yet.')))
fixes = ['* ' + l[len('fixed: property='):].strip() for l in open(J(HERE, 'known_findings.txt')) if l.startswith('fixed:')]
seeds = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
caught = json.load(open(J(HERE, 'tools', 'caught.json'))) if os.path.exists(J(HERE, 'tools', 'caught.json')) else {}
for m in sorted(glob.glob(J(HERE, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    n = os.path.basename(os.path.dirname(m))
    seeds.append('| %s | %s | %s | %s |' % (n, d['property'], d['needs'].replace('|', '/'), caught.get(n, '?')))
t = open(J(HERE, 'tools', 'design.tmpl')).read()
for k, v in (('PROPS', out), ('NA', na), ('FIXES', fixes), ('SEEDS', seeds)):
    t = t.replace('@@%s@@' % k, '\n'.join(v))
open(J(HERE, 'DESIGN.md'), 'w').write(t)
