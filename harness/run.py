"""harness runner: run.py PROP --seconds S --seed N [--replay CASE_SEED]
Prints one JSON object on the last line."""
import sys, os, json, time, random, argparse, traceback, io, contextlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
import base


def load(prop):
    import importlib
    for m in ('props_tree', 'props_other'):
        try:
            mod = importlib.import_module(m)
        except ImportError as e:
            if m in str(e):
                continue
            raise
        f = getattr(mod, 'case_' + prop, None)
        if f:
            return f
    raise SystemExit('no case for ' + prop)


def one(f, seed):
    rng = random.Random(seed)
    random.seed(seed ^ 0x5eed)
    try:
        import numpy
        numpy.random.seed(seed & 0xffff)
    except ImportError:
        pass
    import concept_formation.preprocessor as pp
    import signal

    def late(sig, frame):
        raise base.Violation('no answer within 40 s of processor time')
    signal.signal(signal.SIGVTALRM, late)
    signal.setitimer(signal.ITIMER_VIRTUAL, 40)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return f(rng)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def answers(e):
    """does the exception show an answer of the wrong shape (a missing
    entry, a missing file, ...), rather than an internal name or signature
    this harness expects but a rewritten code base need not have?"""
    if isinstance(e, TypeError):
        return 'argument' not in str(e)
    if isinstance(e, AttributeError):
        return "'NoneType' object" in str(e)
    return isinstance(e, (LookupError, OSError, ArithmeticError, ValueError))


HS = os.environ.get('PYTHONHASHSEED', '0')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seconds', type=float, default=10)
    ap.add_argument('--cases', type=int, default=10 ** 9)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--replay', type=int)
    a = ap.parse_args()
    f = load(a.prop)
    t0 = time.time()
    out = dict(property=a.prop, evaluations=0, distinct_nontrivial=0,
               samples=[], violation=None, error=None)
    seen = set()
    i = 0
    while True:
        if a.replay is not None:
            seed = a.replay
        else:
            seed = a.seed * 1000003 + i
        i += 1
        try:
            r = one(f, seed)
            out['evaluations'] += 1
            if r and r.get('nontrivial'):
                h = hash(r.get('sample'))
                if h not in seen:
                    seen.add(h)
                    out['distinct_nontrivial'] += 1
                    if len(out['samples']) < 3:
                        out['samples'].append(str(r.get('sample'))[:300])
        except base.Violation as e:
            out['evaluations'] += 1
            out['violation'] = dict(case_seed=seed, what=e.what,
                                    hashseed=HS,
                                    data={k: str(v)[:2000]
                                          for k, v in e.data.items()},
                                    trace=traceback.format_exc()[-2500:])
            break
        except Exception as e:
            # an exception out of the code under test on a valid input
            tb = traceback.extract_tb(sys.exc_info()[2])
            inrepo = any(os.path.abspath(fr.filename).startswith(
                os.path.join(REPO, 'concept_formation')) for fr in tb)
            rec = dict(case_seed=seed, hashseed=HS, what='unexpected %s: %s'
                       % (type(e).__name__, e), data={},
                       trace=traceback.format_exc()[-2500:])
            if inrepo or answers(e):
                out['violation'] = rec
            else:
                out['error'] = rec
            break
        if a.replay is not None or i >= a.cases or time.time() - t0 > a.seconds:
            break
    out['wall_s'] = round(time.time() - t0, 2)
    print(json.dumps(out))
    return 1 if out['violation'] else (2 if out['error'] else 0)


sys.exit(main())
