#!/usr/bin/env python3-vt
"""writes MANIFEST.json from pyvc/registry.py and the notes below"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from pyvc import registry, unit
NOTES = json.load(open(os.path.join(HERE, 'notes.json')))
checks = []
for p in sorted(registry.PROPS):
    s = registry.PROPS[p]
    if p in NOTES.get('not_applicable', {}):
        continue
    n = len(s['units'])
    checks.append(dict(
        property=p,
        quick_cmd='python3-vt check.py %s' % p,
        thorough_cmd='python3-vt check.py %s --tier thorough' % p,
        evidence_file='evidence/%s.json' % p,
        technique='contract-based deductive verification of the extracted '
                  'functions (pyvc, z3)' +
                  ('' if NOTES['full'].get(p) else
                   ' + bounded run-time contracts for the rest'
                   if n else ' - bounded stand-in only'),
        level=s['level'],
        level_note=NOTES['level'].get(p) or (
            '%d units under contract; rest bounded' % n)))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3, sympy'",
               checks=checks, not_applicable=[
                   dict(property=k, reason=v) for k, v in
                   sorted(NOTES.get('not_applicable', {}).items())]),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
