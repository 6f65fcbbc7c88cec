#!/usr/bin/env python3-vt
"""check.py PROP [--tier quick|thorough]

1. extracts the functions under contract from /repo's working tree and
   discharges every obligation of the property's units (pyvc);
2. runs the same contracts at run time on generated inputs of the real code
   (harness): confirms a failed obligation with a concrete failing input, and
   is the bounded stand-in for what is outside the verifier's reach;
3. writes evidence/PROP.json; exit 1 with a VIOLATION line iff an obligation
   failed or a concrete input breaks the property.
"""
import json
import os
import subprocess
import sys
import time
from multiprocessing.pool import ThreadPool

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


def one_unit(name, secs):
    """run one unit in this process and print its result as json"""
    from pyvc import registry, sym
    from pyvc.unit import run_unit
    r = run_unit(name, REPO, secs)
    tab = {k: (bool(v[0]), v[1], v[2]) for k, v in r.table().items()}
    print('\n@@' + json.dumps(dict(
        name=name, table=tab, n=len(r.obs), unsupported=r.unsupported,
        bug=r.bug, used=sorted(r.used), assumed=sorted(r.assumed),
        havocs=sorted(set(map(str, r.havocs))), paths=r.paths,
        funcs=sorted(set(r.funcs)), time=r.time, solver=sym.STATS.time,
        queries=sym.STATS.queries, sympy=sym.STATS.sympy), default=str))


def no_result(name, why):
    return dict(name=name, table={}, n=0, used=[], unsupported=why,
                bug=None, assumed=[], havocs=[], paths=0, funcs=[], time=0,
                solver=0, queries=0, sympy=0)


def worker(args):
    """each unit in a process of its own: a crash or a run-away of the
    verifier puts that unit out of reach, nothing else"""
    name, secs, t0 = args
    left = t0 + 2 * secs - time.time()
    if left < 5:
        return no_result(name, 'time budget exhausted')
    try:
        p = subprocess.run(
            [sys.executable, os.path.abspath(__file__), '--unit', name,
             str(min(secs, left))], capture_output=True, text=True,
            timeout=min(secs, left) + 30)
    except subprocess.TimeoutExpired:
        return no_result(name, 'time budget exhausted')
    i = p.stdout.rfind('\n@@')
    if i < 0:
        return no_result(name, 'verifier process ended: %s %s' % (
            p.returncode, p.stderr[-200:]))
    return json.loads(p.stdout[i + 3:])


def harness(prop, seconds, seed):
    env = dict(os.environ, PYTHONHASHSEED=str(seed % 5), VERIF_REPO=REPO,
               PYTHONDONTWRITEBYTECODE='1')
    return subprocess.Popen(
        [PY, os.path.join(HERE, 'harness', 'run.py'), prop, '--seconds',
         str(seconds), '--seed', str(seed)], stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, env=env, cwd='/', text=True)


def collect(procs, limit):
    outs = []
    end = time.time() + limit
    for p in procs:
        try:
            o, e = p.communicate(timeout=max(1, end - time.time()))
            line = o.strip().splitlines()[-1] if o.strip() else ''
            try:
                outs.append(json.loads(line))
            except ValueError:
                outs.append(dict(error=dict(what='no output', trace=e[-2000:]),
                                 evaluations=0, distinct_nontrivial=0,
                                 samples=[], violation=None))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            outs.append(dict(error=dict(what='timeout'), evaluations=0,
                             distinct_nontrivial=0, samples=[],
                             violation=None))
    return outs


def known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                out.append(l)
    return out


def main():
    t0 = time.time()
    if sys.argv[1] == '--unit':
        one_unit(sys.argv[2], float(sys.argv[3]))
        return 0
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from pyvc import registry
    spec = registry.PROPS[prop]
    thorough = tier == 'thorough'
    hs = 120 if thorough else registry.QUICK_SECONDS
    units = spec['units']
    procs = [harness(prop, hs, seed * 97 + i)
             for i in range(2 if len(units) > 10 else 4)]
    limit = 400 if thorough else 200
    res = []
    if units:
        order = sorted(units, key=lambda u: -registry.COST.get(u, 1))
        with ThreadPool(min(7, len(units))) as pool:
            res = pool.map(worker, [(u, limit, t0) for u in order],
                           chunksize=1)
    hout = collect(procs, hs + 150)
    failed, undec = [], []
    for r in res:
        r['table'] = {k: v for k, v in r['table'].items()
                      if registry.relevant(prop, r['name'], k)}
        bad = [(k, v) for k, v in r['table'].items() if not v[0]]
        for k, v in bad:
            failed.append((r['name'], k, v))
        if r['unsupported']:
            undec.append((r['name'], r['unsupported']))
    viol = next((h['violation'] for h in hout if h.get('violation')), None)
    if (failed or undec) and viol is None:
        secs = (90 if thorough else 45) if failed else 40
        more = [harness(prop, secs, seed * 97 + 1000 + i)
                for i in range(6)]
        h2 = collect(more, 260)
        hout += h2
        viol = next((h['violation'] for h in h2 if h.get('violation')), None)
    herr = [h['error'] for h in hout if h.get('error')]
    nob = sum(len(r['table']) for r in res)
    ndis = sum(1 for r in res for v in r['table'].values() if v[0])
    back = {}
    for r in res:
        for v in r['table'].values():
            if v[0]:
                back[v[1]] = back.get(v[1], 0) + 1
    ev = sum(h['evaluations'] for h in hout)
    lvl = spec['level']
    cov = dict(
        obligations=nob, discharged=ndis,
        checker_cmd='python3-vt check.py %s --tier %s' % (prop, tier),
        trusted_base=registry.TRUSTED,
        units=[dict(unit=r['name'], obligations=len(r['table']),
                    discharged=sum(1 for v in r['table'].values() if v[0]),
                    paths=r['paths'], wall_s=round(r['time'], 2),
                    out_of_reach=r['unsupported'],
                    havocked=r['havocs'][:8]) for r in res],
        functions_under_contract=sorted(set(
            f for r in res if not r['unsupported'] for f in r['funcs'])),
        bodies_executed=sorted(set(f for r in res for f in r['used'])),
        contracts_assumed_at_calls=sorted(set(
            f for r in res for f in r['assumed'])),
        back_ends=back,
        solver_s=round(sum(r['solver'] for r in res), 2),
        solver_queries=sum(r['queries'] for r in res),
        normal_form_calls=sum(r['sympy'] for r in res),
        undischarged=[dict(unit=u, obligation=k, status=v[1])
                      for u, k, v in failed],
        out_of_reach=[dict(unit=u, reason=w) for u, w in undec],
        bounded=dict(what=spec['bounded'], evaluations=ev,
                     distinct_nontrivial=sum(h['distinct_nontrivial']
                                             for h in hout),
                     label='bounded, not counted as proved'),
        evaluations=ev,
        distinct_nontrivial=sum(h['distinct_nontrivial'] for h in hout),
        rule=registry.RULE, samples=[s for h in hout
                                     for s in h['samples']][:4] or ['-'],
        harness_errors=[e.get('what') for e in herr],
    )
    evid = dict(property=prop, tier=tier, seed=seed, level=lvl, coverage=cov,
                assumptions=registry.ASSUMPTIONS + spec['assumptions'],
                wall_s=round(time.time() - t0, 2),
                violations=1 if (viol or failed) else 0)
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evid, f, indent=1, sort_keys=True)
    for l in known():
        if l.startswith('KNOWN-FINDING: property=%s ' % prop):
            print(l)
    for r in res:
        print('%-34s %3d/%3d obligations %6.1fs %s' % (
            r['name'], sum(1 for v in r['table'].values() if v[0]),
            len(r['table']), r['time'],
            ('OUT OF REACH: ' + r['unsupported']) if r['unsupported']
            else ''))
        if r['bug'] and '-v' in sys.argv:
            print(r['bug'])
    print('%s: %d/%d obligations discharged, %d run-time cases, %.1fs' % (
        prop, ndis, nob, ev, time.time() - t0))
    if viol or failed:
        path = os.path.join('evidence', 'replay', '%s.json' % prop)
        rp = dict(property=prop, failed_obligations=[
            dict(unit=u, obligation=k, status=v[1], verifier_output=v[2])
            for u, k, v in failed], concrete=viol)
        if viol:
            rp['replay_cmd'] = ('PYTHONHASHSEED=%s %s harness/run.py %s '
                                '--replay %d' % (viol['hashseed'], PY, prop,
                                                 viol['case_seed']))
        with open(os.path.join(HERE, path), 'w') as f:
            json.dump(rp, f, indent=1)
        for u, k, v in failed[:10]:
            print('FAILED OBLIGATION %s / %s [%s]' % (u, k, v[1]))
        if viol:
            print('failing input: %s' % viol['what'])
        print('VIOLATION property=%s replay=%s%s' % (
            prop, path, '' if viol else ' no-failing-input-found'))
        return 1
    if herr and not nob:
        print('harness error: %s' % herr[0])
        return 2
    if ev == 0 and nob == 0:
        print('nothing was decided')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
