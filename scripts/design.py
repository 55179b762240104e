#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the property table (spec.py) and seeded/*/meta.json + design_tail.md."""
import glob, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import spec
R = spec.ROOT
o = open(R + '/scripts/design_head.md').read()
o += '\n## Properties and how each is decided\n'
for p in spec.P:
    o += '\n### %s %s\n\n%s\n\n' % (p['id'], p['title'], p['statement'])
    o += '- Quantified over: %s\n' % p['quant']
    o += '- Bounds: %s\n' % p['bounds']
    o += '- Why tests cannot settle it: %s\n' % p['why']
    o += '- Code symbolically executed: %s\n' % '; '.join('%s (%s)' % m for m in p['mech'])
    o += '- Quick entries: %s\n' % ', '.join('`%s`' % e for e in p['quick'])
    if p['thorough']:
        o += '- Added in the thorough tier: %s\n' % ', '.join('`%s`' % e for e in p['thorough'])
o += '\n## Not applicable\n\n'
for p in spec.NA:
    o += '- %s %s: %s\n' % (p['id'], p['title'], p['reason'])
o += '\n' + open(R + '/scripts/design_tail.md').read()
ms = sorted(glob.glob(R + '/seeded/*/meta.json'))
if ms:
    o += '\n## Planted changes and what catches them\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n'
    try:
        caught = json.load(open(R + '/scripts/caught.json'))
    except FileNotFoundError:
        caught = {}
    for m in ms:
        d = json.load(open(m))
        i = os.path.basename(os.path.dirname(m))
        o += '| %s | %s | %s | %s | %s |\n' % (i, d['property'], d['what_it_breaks'].replace('|', '/'), d['needs'].replace('|', '/'), caught.get(i, '?'))
open(R + '/DESIGN.md', 'w').write(o)
