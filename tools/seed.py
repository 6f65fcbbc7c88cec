#!/usr/bin/env python3
"""dev tool: seed.py SPEC.py  -- each spec defines SEEDS: list of dicts
(id, property, file, old, new[, edits], needs, breaks, demo); writes
/verif/seeded/<id> after confirming: tests stable, demo 0/nonzero.
Works in a scratch copy of /repo with test.sh's command."""
import json, os, subprocess, sys, shutil, tempfile
BASE = json.load(open('/opt/vp/BASELINE.json'))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def names(o):
    if isinstance(o, list):
        return set(o)
    for k in ('stable', 'passed', 'pass', 'tests'):
        if k in o:
            return names(o[k])
    return set(o)


def stable_ok():
    out = tempfile.mktemp(suffix='.json')
    sh('bash /opt/vp/test.sh %s' % out)
    d = json.load(open(out))
    os.remove(out)
    p = names(d)
    miss = names(BASE) - p
    return miss


assert not sh('git -C /repo status --porcelain --untracked-files=no').stdout.strip()
for s in ns['SEEDS']:
    if only and s['id'] not in only:
        continue
    d = '/verif/seeded/' + s['id']
    edits = s.get('edits') or [(s['file'], s['old'], s['new'])]
    try:
        bad = False
        for f, old, new in edits:
            p = '/repo/concept_formation/' + f
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'pattern count', t.count(old), repr(old[:60]))
                bad = True
                break
            open(p, 'w').write(t.replace(old, new))
        if bad:
            continue
        diff = sh('git -C /repo diff').stdout
        miss = stable_ok()
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(
            'import os, sys\nsys.path.insert(0, os.getcwd())\n'
            'sys.dont_write_bytecode = True\n' + s['demo'].strip() + '\n')
        open(d + '/demo.sh', 'w').write(
            '#!/bin/bash\nPYTHONHASHSEED=0 exec /opt/venv/bin/python '
            '"$(dirname "$0")/demo.py"\n')
        json.dump({'property': s['property'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        r1 = sh('bash %s/demo.sh' % d, cwd='/repo')
    finally:
        sh('git -C /repo checkout -- .')
    r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
    ok = not miss and r1.returncode != 0 and r0.returncode == 0
    print(s['id'], 'OK' if ok else 'BAD', 'missing tests', sorted(miss)[:3],
          'demo base', r0.returncode, 'demo bug', r1.returncode)
    if not ok:
        print(r0.stderr[-600:], r1.stderr[-300:])
        shutil.rmtree(d)
