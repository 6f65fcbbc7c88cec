#!/usr/bin/env python3-vt
"""dev tool: rewrites the generated tables of DESIGN.md (unit list per
property from pyvc/registry.py, planted bugs from seeded/*/meta.json)"""
import json, os, re, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.setrecursionlimit(20000)
from pyvc import registry
title = {}
for l in open(H + '/properties.jsonl'):
    d = json.loads(l)
    title[d['id']] = d['title']
how = json.load(open(H + '/notes.json'))['how']


def group(us):
    out = {}
    for u in us:
        m = re.match(r'(.*?)((\.(cobweb3?|trestle))(\..*)?)$', u)
        out.setdefault(m.group(1) if m else u, []).append(
            m.group(2)[1:] if m else '')
    return ', '.join('`%s`%s' % (k, '' if v == [''] else ' (%s)' % ', '.join(v))
                     for k, v in out.items())


t = []
for p in sorted(registry.PROPS):
    s = registry.PROPS[p]
    own = [u for u in s['units'] if u not in registry.EXTRA.get(p, [])]
    ext = [u for u in s['units'] if u in registry.EXTRA.get(p, [])]
    t.append('### %s %s\n' % (p, title[p]))
    t.append('level: %s. ' % s['level'] + how[p] + '\n')
    t.append('* units: %s' % group(own))
    if ext:
        t.append('* called contracts re-checked with it: %s' % group(ext))
    t.append('* bounded beside it: %s.\n' % s['bounded'])
b = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
res = {}
if os.path.exists(H + '/tools/caught.json'):
    res = json.load(open(H + '/tools/caught.json'))
for m in sorted(glob.glob(H + '/seeded/*/meta.json')):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    b.append('| %s | %s | %s | %s |' % (i, d['property'], d['needs'],
                                        res.get(i, '?')))
s = open(H + '/DESIGN.md').read()
for name, body in (('TABLE', '\n'.join(t)), ('SEEDS', '\n'.join(b))):
    s = re.sub(r'<!-- %s -->.*?<!-- /%s -->' % (name, name),
               lambda m: '<!-- %s -->\n%s\n<!-- /%s -->' % (name, body, name),
               s, flags=re.S)
open(H + '/DESIGN.md', 'w').write(s)
