#!/usr/bin/env python3
"""rewrites the generated tables of DESIGN.md (properties, planted bugs) from MANIFEST.json, properties.jsonl, evidence/ and seeded/"""
import json, os, glob, re
H = os.path.dirname(os.path.abspath(__file__))
P = [json.loads(l) for l in open(H + '/properties.jsonl')]
M = json.load(open(H + '/MANIFEST.json'))
ch = {c['property']: c for c in M['checks']}
na = {x['property']: x['reason'] for x in M['not_applicable']}
rows = ['| property | decided by | analysed in | obligations |', '|---|---|---|---|']
for p in P:
    i = p['id']
    if i in na: rows.append('| %s %s | not applicable: %s | | |' % (i, p['title'], na[i])); continue
    eng = 'value graphs' if ch[i]['technique'].startswith('value') else 'guards and effects' if 'guard' in ch[i]['technique'] else ch[i]['technique']
    n = '?'
    e = H + '/evidence/%s.json' % i
    if os.path.exists(e):
        n = str(json.load(open(e)).get('coverage', {}).get('obligations', '?'))
    rows.append('| %s %s | %s | %s | %s |' % (i, p['title'], eng, ', '.join(p['anchors']['files'][:6]), n))
bugs = ['| planted change | property | what it needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(H + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    bugs.append('| %s | %s | %s | check %s |' % (os.path.basename(d), m['property'], m['needs'].replace('|', '/'), m['property']))
s = open(H + '/DESIGN.md').read()
K = json.load(open(H + '/known_findings.json'))['fixed']
def fx(l):
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
    return '* %s (%s): %s.' % m.groups()
for k, v in (('properties', rows), ('planted', bugs), ('defects', [fx(l) for l in K])):
    s = re.sub(r'(<!-- %s -->).*?(<!-- end -->)' % k, lambda q: q.group(1) + '\n' + '\n'.join(v) + '\n' + q.group(2), s, flags=re.S)
open(H + '/DESIGN.md', 'w').write(s)
