"""Units: one function (or lemma) under contract each.

A unit sets up an arbitrary state satisfying the precondition, executes the
extracted body symbolically and emits one obligation per clause of the
postcondition on every path.  Result of a unit:

  obs          obligations (name, discharged?, back end)
  unsupported  reason, when the code left the verified subset (the bounded
               stand-in decides then; nothing is counted as proved)
"""
import time
import traceback
from .vals import *
from .interp import Interp, PyExc, Outcome, PathFailed, Infeasible
from .front import Program, Unsupported as FrontUnsupported

UNITS = {}


class Result(object):
    def __init__(self, name):
        self.name = name
        self.obs, self.unsupported = [], None
        self.used, self.assumed, self.havocs = set(), set(), []
        self.paths, self.time, self.funcs = 0, 0.0, []
        self.bug = None

    def table(self):
        """obligation name -> (ok, how, info)"""
        out = {}
        for o in self.obs:
            if o.name not in out or (out[o.name][0] and not o.ok):
                out[o.name] = (o.ok, o.how, o.info)
        return out


def unit(name, props, about, deps=()):
    def deco(f):
        UNITS[name] = (f, tuple(props), about, tuple(deps))
        return f
    return deco


class Gone(Exception):
    """the function under contract no longer exists"""


class Ctx(object):
    def __init__(self, prog, res, deadline=None):
        self.prog, self.res = prog, res
        self.deadline = deadline
        self.interps = []

    def interp(self, contracts=None, cvmode='contract', **kw):
        I = Interp(self.prog)
        I.obs = self.res.obs
        I.cvmode = cvmode
        I.contracts = dict(contracts or {})
        I.deadline = self.deadline
        for k, v in kw.items():
            setattr(I, k, v)
        self.interps.append(I)
        return I

    def func(self, mod, qual):
        f = self.prog.func(mod, qual)
        if f is None:
            raise Unsupported('%s:%s is gone' % (mod, qual))
        self.res.funcs.append(f.full)
        return f

    def run(self, I, st, f, recv, args, post, kw=None, name=None):
        """explore the body; post(I, outcome) for every path"""
        name = name or f.qual
        I.st = st
        # the precondition itself is satisfiable (no vacuous proof)
        if not I.prover.feasible(st.conds(), st.facts, TRUE):
            I.obs.append(Ob_('%s: precondition is satisfiable' % name, False))
            return []
        outs = I.explore(st, lambda: I.run_top(f, recv, args, kw or {}))
        if not outs and not any(not o.ok for o in I.obs):
            I.obs.append(Ob_('%s: some execution is possible' % name, False))
        for o in outs:
            I.st = o.st
            I.trail = [[], [], 0]
            try:
                post(I, o)
            except Infeasible:
                pass
            except PathFailed:
                pass
        return outs

    def value(self, I, name, o, allow=()):
        """the path must end by returning"""
        if o.kind == 'exc':
            if o.val.cls in allow:
                return False
            if I.impossible(o.st):
                raise Infeasible()
            I.obs.append(Ob_('%s: no %s' % (name, o.val.cls), False,
                             I.describe(o.st, TRUE)))
            return False
        return True


def Ob_(name, ok, info='', how=None):
    from .interp import Ob
    return Ob(name, ok, how or ('direct' if ok else 'refuted'), info)


def run_unit(name, repo, seconds=None):
    f, props, about, deps = UNITS[name]
    r = Result(name)
    t0 = time.time()
    try:
        prog = Program(repo)
        ctx = Ctx(prog, r, t0 + seconds if seconds else None)
        f(ctx)
    except (Unsupported, FrontUnsupported) as e:
        r.unsupported = str(e)
    except RecursionError:
        r.unsupported = 'term too deep'
    except z3.Z3Exception as e:
        r.unsupported = 'solver: %s' % e
        r.bug = traceback.format_exc()
    except (SyntaxError,) as e:
        r.unsupported = 'source does not parse: %s' % e
    except Exception as e:      # a gap of the engine: never an alarm
        r.unsupported = 'engine: %s: %s' % (type(e).__name__, e)
        r.bug = traceback.format_exc()
    for I in (ctx.interps if 'ctx' in dir() else []):
        r.used |= I.used
        r.assumed |= I.assumed
        r.havocs += I.havocs
        r.paths += I.npaths
    if not r.obs and not r.unsupported:
        r.obs.append(Ob_('the unit emits obligations', False))
    r.time = time.time() - t0
    return r
