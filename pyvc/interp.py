"""Symbolic execution of the extracted functions, one path at a time, with
loops over finite domains summarised by executing the body once for an
arbitrary element (loop.py).  Every call is either checked against the
callee's contract or the callee's real body is executed in place."""
import ast
from .vals import *
from . import loop as L


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PyExc(Exception):
    def __init__(self, cls, msg=None):
        self.cls, self.msg = cls, msg


class Infeasible(Exception):
    pass


class PathFailed(Exception):
    """an obligation of this path failed, the rest is not meaningful"""


class Outcome(object):
    def __init__(self, kind, val, st, base):
        self.kind, self.val, self.st, self.base = kind, val, st, base

    def bconds(self):
        return [c for t, c in self.st.pc[self.base:] if t == 'b']

    def assumed(self):
        return [c for t, c in self.st.pc[self.base:] if t == 'a']


class Ob(object):
    def __init__(self, name, ok, how, info=''):
        self.name, self.ok, self.how, self.info = name, ok, how, info


EXC_PARENTS = {
    'ValueError': ('ValueError', 'Exception', 'BaseException'),
    'TypeError': ('TypeError', 'Exception', 'BaseException'),
    'KeyError': ('KeyError', 'LookupError', 'Exception', 'BaseException'),
    'IndexError': ('IndexError', 'LookupError', 'Exception',
                   'BaseException'),
    'ZeroDivisionError': ('ZeroDivisionError', 'ArithmeticError',
                          'Exception', 'BaseException'),
    'AttributeError': ('AttributeError', 'Exception', 'BaseException'),
    'NotImplementedError': ('NotImplementedError', 'RuntimeError',
                            'Exception', 'BaseException'),
    'AssertionError': ('AssertionError', 'Exception', 'BaseException'),
    'StopIteration': ('StopIteration', 'Exception', 'BaseException'),
    'Exception': ('Exception', 'BaseException'),
}

NODE_CLASSES = ('CobwebNode', 'Cobweb3Node')


class Interp(object):
    MAXPATHS = 600

    def __init__(self, prog, prover=None):
        self.prog = prog
        self.prover = prover or Prover()
        self.contracts = {}      # qual -> handler(interp, recv, args, kwargs)
        self.yields = {}         # function qual -> yield handler
        self.fors = {}           # function qual -> for handler
        self.whiles = {}         # function qual -> while handler
        self.obs = []
        self.given = []          # values passed in, not to be modified
        self.st = None
        self.binders = []
        self.trail = None
        self.names = None
        self.stack = []          # functions being executed
        self.used = set()        # functions whose body was executed
        self.assumed = set()     # contracts applied
        self.cvmode = 'contract'
        self.cv_key = None
        self.npaths = 0
        self.havocs = []
        self.deadline = None
        self.in_while = []
        self.model = None        # symbolic heap of concepts (tree.py)
        self.frozen = set()      # read copies of list elements
        self.nested = True       # dicts of dicts are tracked entry by entry

    # ------------------------------------------------------------- paths
    def explore(self, st0, thunk):
        save = (self.st, self.trail, self.names)
        # paths that share their first decisions share the unknowns met there
        shared = {} if self.names is None else self.named(('explore',), dict)
        pending, outs = [[]], []
        base = len(st0.pc)
        n = 0
        try:
            while pending:
                prefix = pending.pop()
                n += 1
                self.npaths += 1
                if n > self.MAXPATHS:
                    raise Unsupported('too many paths')
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported('time budget of the proof exhausted')
                self.st = st0.copy()
                self.trail = [list(prefix), [], len(prefix)]
                self.names = [shared, {}]
                try:
                    v = thunk()
                    outs.append(Outcome('norm', v, self.st, base))
                except ReturnEx as r:
                    outs.append(Outcome('ret', r.v, self.st, base))
                except BreakEx:
                    outs.append(Outcome('break', None, self.st, base))
                except ContinueEx:
                    outs.append(Outcome('norm', None, self.st, base))
                except PyExc as e:
                    outs.append(Outcome('exc', e, self.st, base))
                except Infeasible:
                    pass
                except PathFailed:
                    pass
                made = self.trail[1]
                for i in range(len(prefix), len(made)):
                    choice, alts = made[i]
                    for a in alts:
                        pending.append([c for c, _ in made[:i]] + [a])
        finally:
            self.st, self.trail, self.names = save
        return outs

    def named(self, key, make):
        """the same object for the same point of the same execution"""
        table, seen = self.names
        at = tuple(c for c, _ in self.trail[1]) if self.trail else ()
        key = (at, key)
        i = seen.get(key, 0)
        seen[key] = i + 1
        key = key + (i,)
        if key not in table:
            table[key] = make()
        return table[key]

    def _decide(self, feasible_fn):
        """feasible_fn() -> list of feasible alternatives"""
        prefix, made, k = self.trail
        i = len(made)
        if i < len(prefix):
            made.append((prefix[i], []))
            return prefix[i], True
        alts = feasible_fn()
        if not alts:
            raise Infeasible()
        made.append((alts[0], alts[1:]))
        return alts[0], len(alts) > 1

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = lsimp(cond)
        if is_true(cond):
            return True
        if is_false(cond):
            return False
        cid = cond.get_id()
        for _, c in self.st.pc:
            if c.get_id() == cid:
                return True
            if is_not(c) and c.children()[0].get_id() == cid:
                return False
        nc = lsimp(Not(cond))
        for _, c in self.st.pc:
            if c.get_id() == nc.get_id():
                return False

        def feas():
            pc = self.st.conds()
            out = []
            if self.prover.feasible(pc, self.st.facts, cond):
                out.append((True, True))
            if self.prover.feasible(pc, self.st.facts, nc):
                out.append((False, True))
            if len(out) == 1:
                out = [(out[0][0], False)]
            return out
        (choice, real), _ = self._decide(feas)
        self.st.pc.append(('b' if real else 'i', cond if choice else nc))
        return choice

    def choose(self, n, tags=None):
        (c, _), _ = self._decide(lambda: [(i, True) for i in range(n)])
        return c

    def dead(self):
        """is the current path infeasible"""
        return not self.prover.feasible(self.st.conds(), self.st.facts, TRUE)

    def impossible(self, st):
        """the path cannot happen (full strength)"""
        return self.prover.valid(st.conds(), st.facts, FALSE)[0]

    def impossible_under(self, c):
        return self.prover.valid(self.st.conds() + [c], self.st.facts,
                                 FALSE)[0]

    def fresh(self, p, sort):
        if self.names is None or self.trail is None:
            return fresh(p, sort, self.binders)
        key = (p, sort.name()) + tuple(b.get_id() for b in self.binders)
        return self.named(key, lambda: (fresh(p, sort, self.binders),
                                        list(self.binders)))[0]

    def must(self, cond):
        """known to hold here (no fork)"""
        cond = lsimp(cond)
        if is_true(cond):
            return True
        if is_false(cond):
            return False
        return not self.prover.feasible(self.st.conds(), self.st.facts,
                                        Not(cond))

    # ------------------------------------------------------- obligations
    def prove(self, name, goal, st=None, stop=False):
        st = st or self.st
        ok, how = self.prover.valid(st.conds(), st.facts, goal)
        self.obs.append(Ob(name, ok, how, '' if ok else self.describe(st, goal)))
        if not ok and stop:
            raise PathFailed()
        return ok

    def fail(self, name, info=''):
        if self.impossible(self.st):
            raise Infeasible()
        self.obs.append(Ob(name, False, 'refuted', info))
        raise PathFailed()

    def describe(self, st, goal):
        s = 'goal: %s\n' % goal.sexpr()[:1500]
        s += 'path: %s' % ('; '.join(c.sexpr()[:160] for t, c in st.pc
                                    if t == 'b'))[:1500]
        return s

    # ------------------------------------------------------------- heap
    def alloc(self, rec):
        o = new_oid()
        self.st.heap[o] = rec
        return Obj(o)

    def deref(self, v):
        while isinstance(v, Obj):
            r = self.st.heap.get(v.oid)
            if isinstance(r, RecAlias):
                v = r.target
            else:
                break
        return v

    def rec(self, v):
        return self.st.heap[v.oid]

    def new_list(self, parts=()):
        return self.alloc(RecList(parts))

    # ------------------------------------------------------- conversions
    def num(self, v):
        v = self.deref(v)
        if isinstance(v, Num):
            return v.e
        if isinstance(v, Bl):
            return ite(v.e, ONE, ZERO)
        if isinstance(v, bool):
            return ONE if v else ZERO
        if isinstance(v, (int, float)):
            if v != v or v in (float('inf'), float('-inf')):
                raise Unsupported('infinite constant')
            return rv(v)
        if isinstance(v, Key):
            if not self.branch(isnumt(v.e)):
                raise PyExc('TypeError')
            return numof(v.e)
        if v is None or isinstance(v, (str, tuple)):
            raise PyExc('TypeError')
        raise Unsupported('number expected: %r' % (v,))

    def key(self, v):
        v = self.deref(v)
        if isinstance(v, Key):
            return v.e
        if is_conc(v):
            if isinstance(v, float) and v == int(v):
                return fromnum(rv(v))
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return fromnum(rv(v))
            return kconst(v)
        if isinstance(v, Num):
            return fromnum(v.e)
        if isinstance(v, Bl):
            return ite(v.e, kconst(True), kconst(False))
        if isinstance(v, tuple):
            return tupf(len(v))(*[self.key(x) for x in v])
        if isinstance(v, Fn):
            raise Unsupported('function used as a key')
        h = getattr(v, 'as_key', None)
        if h:
            return h(self)
        k = self.dict_as_key(v)
        if k is None:
            k = self.list_as_key(v)
        if k is not None:
            return k
        raise Unsupported('key expected: %r' % (v,))

    def list_as_key(self, v):
        """a list built by the code, seen as a value: a value with the same
        items in the same order"""
        if not (isinstance(v, Obj) and isinstance(self.rec(v), RecList)):
            return None
        ps = list(self.rec(v).parts)
        lin, lel = fn('lin', K, I, BOOL), fn('lelem', K, I, K)
        if not ps:
            k = self.fresh('list', K)
            self.st.assume(And(islist(k), tlen(k) == 0))
            self.st.facts.append(Fact('no items', (I,), lambda i: Not(
                lin(k, i))))
            return k
        if len(ps) != 1 or ps[0].kind != 'gen' or not (
                ps[0].ordered or getattr(ps[0], 'inorder', False)) or \
                not ps[0].sort.eq(I):
            return None
        s = ps[0]
        x = fresh('i', I)
        self.key(s.elem(x))
        k = self.fresh('list', K)
        self.st.assume(islist(k))
        self.st.facts.append(Fact('items of a list', (I,), lambda i: And(
            lin(k, i) == s.dom(i),
            Implies(s.dom(i), lel(k, i) == self.key(s.elem(i))))))
        return k

    def dict_as_key(self, v):
        """a dict built by the code, seen as a value: its contents are tied
        to a fresh value"""
        if isinstance(v, Obj):
            r = self.rec(v)
            if isinstance(r, RecComp) and r.kind == 'kk':
                for old, k in getattr(self, 'dictkeys', []):
                    if old is r:
                        return k
                k = self.fresh('dict', K)
                self.st.assume(isdict(k))
                has, val = r.comps['has'], r.comps['val']
                self.st.facts.append(Fact('dict value', (K,), lambda q: And(
                    dhas(k, q) == has(q),
                    Implies(has(q), dval(k, q) == val(q)))))
                return k
            if isinstance(r, RecC) and r.items and all(
                    isinstance(q, str) for q in r.items):
                return cdict(self, r.items)
            if isinstance(r, RecC) and not r.items:
                k = self.fresh('dict', K)
                self.st.assume(isdict(k))
                self.st.facts.append(Fact('empty dict', (K,), lambda q:
                                          Not(dhas(k, q))))
                return k
        return None

    def truth(self, v):
        v = self.deref(v)
        if isinstance(v, Bl):
            return v.e
        if isinstance(v, Num):
            return v.e != 0
        if is_conc(v):
            return BoolVal(bool(v))
        if isinstance(v, tuple):
            return BoolVal(len(v) > 0)
        if isinstance(v, Key):
            k = v.e
            return And(k != KNONE, Or(
                And(isnumt(k), numof(k) != 0), And(isstr(k), tlen(k) > 0),
                And(istup(k), tlen(k) > 0),
                And(Not(isnumt(k)), Not(isstr(k)), Not(istup(k)),
                    fn('truthy', K, BOOL)(k))))
        if isinstance(v, Ref):
            self.check_plain_truth(v)
            return v.e != NULL
        if isinstance(v, (Fn, ClassRef)):
            return TRUE
        h = getattr(v, 'py_truth', None)
        if h:
            return h(self)
        if isinstance(v, Cell):
            return TRUE          # ContinuousValue.__len__ is checked in C05
        if isinstance(v, (Row, Dom, SetV)):
            return self.length(v) > 0
        if isinstance(v, Obj):
            r = self.rec(v)
            if isinstance(r, RecObj):
                for nm in ('__bool__', '__len__'):
                    f = self.find_method(r.cls, nm)
                    if f is not None:
                        x = self.invoke(f, v, [], {})
                        return self.truth(x)
                return TRUE
            if isinstance(r, RecComp) and r.kind == 'cv':
                return TRUE
            return self.length(v) > 0
        raise Unsupported('truth of %r' % (v,))

    def check_plain_truth(self, v):
        for c in NODE_CLASSES:
            for nm in ('__bool__', '__len__'):
                m = 'cobweb' if c == 'CobwebNode' else 'cobweb3'
                if self.prog.func(m, c + '.' + nm) is not None:
                    raise Unsupported('concept class defines ' + nm)

    # ------------------------------------------------------------ length
    def length(self, v):
        v = self.deref(v)
        if isinstance(v, (str, tuple)):
            return rv(len(v))
        if isinstance(v, Key):
            if self.branch(Or(isstr(v.e), istup(v.e))):
                return tlen(v.e)
            if self.branch(isdict(v.e)):
                x = bound(K)
                y = fresh('x', K)
                return mksum(y, dhas(v.e, y), ONE)
            if self.branch(islist(v.e)):
                return tlen(v.e)
            raise PyExc('TypeError')
        h = getattr(v, 'py_len', None)
        if h:
            return h(self)
        if isinstance(v, Obj) and isinstance(self.rec(v), RecComp):
            of = self.rec(v).info.get('of')
            if of and of[1] is self.rec(v).comps['mem']:
                n = fn('distinct items', K, REAL)(of[0])
                self.st.assume(n >= 0)
                return n
        if isinstance(v, Obj) and isinstance(self.rec(v), RecObj):
            f = self.find_method(self.rec(v).cls, '__len__')
            if f is None:
                raise PyExc('TypeError')
            return self.num(self.invoke(f, v, [], {}))
        if isinstance(v, (int, float, Num, Bl)) or v is None:
            raise PyExc('TypeError')
        total = ZERO
        for s in self.iterate(v):
            if s.kind == 'one':
                total = total + ONE
            else:
                total = total + self.seg_sum(s, lambda el: ONE)
        return lsimp(total)

    def seg_sum(self, s, f):
        if hasattr(s, 'sum'):
            return s.sum(self, f)
        x = fresh('x', s.sort)
        return mksum(x, s.dom(x), f(s.elem(x)))

    # --------------------------------------------------------- iteration
    def iterate(self, v):
        v = self.deref(v)
        if isinstance(v, Dom):
            return v.segs
        if isinstance(v, (tuple, str)):
            return [Seg('one', x) for x in v]
        h = getattr(v, 'py_iter', None)
        if h:
            return h(self)
        if isinstance(v, SetV):
            mk = (lambda x: Ref(x)) if v.sort.eq(R) else (lambda x: Key(x))
            return [Seg('gen', sort=v.sort, dom=v.mem, elem=mk, src=v)]
        if isinstance(v, Row):
            t = self.st.heap[v.tab]
            h2 = t.comps['has2']
            return [Seg('gen', sort=K, dom=lambda x: h2(v.a, x),
                        elem=lambda x: Key(x), src=v)]
        if isinstance(v, Obj):
            r = self.rec(v)
            if isinstance(r, RecList):
                return list(r.parts)
            if isinstance(r, RecC):
                return [Seg('one', k) for k in r.items]
            if isinstance(r, RecComp):
                n = {'tab': 'has1', 'ktab': 'has1', 'set': 'mem',
                     'rset': 'mem'}.get(
                    r.kind, 'has')
                srt = R if r.kind == 'rset' else K
                mk = (lambda x: Ref(x)) if srt is R else (lambda x: Key(x))
                return [Seg('gen', sort=srt, dom=r.comps[n], elem=mk,
                            src=v)]
        if isinstance(v, Key):
            k = v.e
            if self.branch(isdict(k)):
                return [Seg('gen', sort=K, dom=lambda x: dhas(k, x),
                            elem=lambda x: Key(x), src=v)]
            if self.branch(istup(k)):
                tin = fn('tin', K, I, BOOL)
                te = fn('telem', K, I, K)
                return [Seg('gen', sort=I, dom=lambda i: tin(k, i),
                            elem=lambda i: Key(te(k, i)), src=v,
                            ordered=True)]
            if self.branch(islist(k)):
                tin = fn('lin', K, I, BOOL)
                te = fn('lelem', K, I, K)
                return [Seg('gen', sort=I, dom=lambda i: tin(k, i),
                            elem=lambda i: Key(te(k, i)), src=v,
                            ordered=True)]
            if self.branch(Or(isnumt(k), k == KNONE)):
                raise PyExc('TypeError')
            raise Unsupported('iterating an unknown value')
        if v is None or is_num(v):
            raise PyExc('TypeError')
        raise Unsupported('iterating %r' % (v,))

    # ---------------------------------------------------------- equality
    def eq(self, a, b):
        a, b = self.deref(a), self.deref(b)
        if is_conc(a) and is_conc(b):
            return BoolVal(a == b)
        for x, y in ((a, b), (b, a)):
            if x is None:
                if isinstance(y, Key):
                    return y.e == KNONE
                if isinstance(y, Ref):
                    return y.e == NULL
                return FALSE
        na = is_num(a) or isinstance(a, Bl) or isinstance(a, bool)
        nb = is_num(b) or isinstance(b, Bl) or isinstance(b, bool)
        if na and nb:
            if isinstance(a, (Bl, bool)) and isinstance(b, (Bl, bool)):
                return self.truth(a) == self.truth(b)
            return self.num(a) == self.num(b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            for c in NODE_CLASSES:
                m = 'cobweb' if c == 'CobwebNode' else 'cobweb3'
                if self.prog.func(m, c + '.__eq__') is not None:
                    raise Unsupported('concept class defines __eq__')
            return a.e == b.e
        if isinstance(a, Ref) or isinstance(b, Ref):
            o = b if isinstance(a, Ref) else a
            if isinstance(o, Obj) or is_conc(o):
                return FALSE
            raise Unsupported('equality of a concept and %r' % (o,))
        for x, y, nx in ((a, b, na), (b, a, nb)):
            if nx and isinstance(y, Key) and is_num(x):
                return And(isnumt(y.e), numof(y.e) == self.num(x))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return FALSE
            return conj([self.eq(x, y) for x, y in zip(a, b)])
        kx = (Key, str, tuple, Num, Bl, bool, int, float)
        if isinstance(a, kx) and isinstance(b, kx):
            if isinstance(a, tuple) and not isinstance(b, Key) or \
                    isinstance(b, tuple) and not isinstance(a, Key):
                return FALSE
            return self.key(a) == self.key(b)
        if isinstance(a, Obj) and isinstance(b, Obj):
            ra, rb = self.rec(a), self.rec(b)
            if isinstance(ra, RecObj) or isinstance(rb, RecObj):
                return BoolVal(a.oid == b.oid)
            if a.oid == b.oid:
                return TRUE
        if isinstance(a, Obj) and isinstance(b, (int, float, str, Num)) or \
                isinstance(b, Obj) and isinstance(a, (int, float, str, Num)):
            return FALSE
        if isinstance(a, ClassRef) and isinstance(b, ClassRef):
            return BoolVal(a.name == b.name and a.mod is b.mod)
        raise Unsupported('equality of %r and %r' % (a, b))

    def contains_(self, a, c):
        c = self.deref(c)
        h = getattr(c, 'py_in', None)
        if h:
            return h(self, a)
        if isinstance(c, SetV):
            d = self.deref(a)
            if c.sort.eq(R):
                return c.mem(d.e) if isinstance(d, Ref) else FALSE
            return c.mem(self.key(a))
        if isinstance(c, Row):
            return self.st.heap[c.tab].get('has2', c.a, self.key(a))
        if isinstance(c, tuple):
            return disj([self.eq(a, x) for x in c])
        if isinstance(c, str):
            if isinstance(a, str):
                return BoolVal(a in c)
            raise Unsupported('substring test')
        if isinstance(c, Obj):
            r = self.rec(c)
            if isinstance(r, RecComp):
                n = {'tab': 'has1', 'ktab': 'has1', 'set': 'mem',
                     'rset': 'mem'}.get(
                    r.kind, 'has')
                if r.kind == 'rset':
                    return r.get(n, self.deref(a).e)
                return r.get(n, self.hkey(a))
            if isinstance(r, RecC):
                if is_conc(a):
                    return BoolVal(a in r.items)
                return disj([self.eq(a, k) for k in r.items])
            if isinstance(r, RecList):
                out = []
                for s in r.parts:
                    if s.kind == 'one':
                        out.append(self.eq(a, s.val))
                    elif hasattr(s, 'mem'):
                        out.append(s.mem(self, a))
                    else:
                        # membership in a generated part
                        da = self.deref(a)
                        e = s.elem(fresh('probe', s.sort))
                        if type(e) is type(da) and hasattr(e, 'e') and \
                                not e.e.children():
                            out.append(s.dom(da.e))
                        else:
                            out.append(self.exists(s, lambda el:
                                                   self.eq(el, a)))
                return disj(out)
        if isinstance(c, Key):
            if self.branch(isdict(c.e)):
                return dhas(c.e, self.hkey(a))
            if self.branch(Or(istup(c.e), islist(c.e))):
                return self.exists(self.iterate(c)[0],
                                   lambda el: self.eq(el, a))
            if self.branch(isstr(c.e)):
                if self.branch(isstr(self.key(a))):
                    return fn('substr', K, K, BOOL)(self.key(a), c.e)
            raise PyExc('TypeError')
        if isinstance(c, Dom):
            out = []
            for s in c.segs:
                if s.kind == 'one':
                    out.append(self.eq(a, s.val))
                else:
                    out.append(self.exists(s, lambda el: self.eq(el, a)))
            return disj(out)
        raise Unsupported('membership in %r' % (c,))

    def hkey(self, a):
        """key used for hashing: unhashable values raise"""
        k = self.key(a)
        if isinstance(self.deref(a), Key):
            if not self.branch(hashable(k)):
                raise PyExc('TypeError')
        return k

    def exists(self, s, pred):
        """a boolean that is true iff some element satisfies pred"""
        b = self.fresh('ex', BOOL)
        w = self.fresh('wit', s.sort)
        self.st.assume(Implies(b, And(s.dom(w), pred(s.elem(w)))))
        self.st.facts.append(Fact('exists', (s.sort,), lambda y: Or(
            b, Not(And(s.dom(y), pred(s.elem(y)))))))
        return b

    # ----------------------------------------------------- attribute get
    def find_method(self, cls, name, after=None):
        m = self.prog.mods.get(cls[0])
        if m is None:
            return None
        return self.prog.method(m, cls[1], name, after)

    def getattr_(self, v, name):
        v = self.deref(v)
        h = getattr(v, 'py_getattr', None)
        if h:
            return h(self, name)
        if isinstance(v, Ref) and self.model is not None:
            return self.model.getattr(self, v, name)
        if isinstance(v, Cell) or isinstance(v, Obj) and \
                isinstance(self.rec(v), RecComp) and self.rec(v).kind == 'cv':
            n, s1, s2 = self.cv_get(v)
            if name == 'num':
                return Num(n)
            if name == 'mean':
                return Num(s1 / n)
            if name == 'meanSq':
                return Num(s2 - s1 * s1 / n)
            return Fn('method', recv=v, name=name,
                      cls=('concept_formation.continuous_value',
                           'ContinuousValue'))
        if isinstance(v, Obj):
            r = self.rec(v)
            if isinstance(r, RecObj):
                if name == '__class__':
                    return ClassRef(self.prog.mods[r.cls[0]], r.cls[1])
                if name in r.fields:
                    return r.fields[name]
                f = self.find_method(r.cls, name)
                if f is not None:
                    return Fn('method', recv=v, name=name, cls=r.cls, f=f)
                if r.fields.get('__open__'):
                    raise Unsupported('unknown attribute ' + name)
                raise PyExc('AttributeError', name)
            return Fn('bmethod', recv=v, name=name)
        if isinstance(v, ClassRef):
            if name == '__name__':
                return v.name
            key = (v.mod.name, v.name, name)
            if key in self.st.cls:
                return self.st.cls[key]
            f = self.prog.method(v.mod, v.name, name)
            if f is not None:
                return Fn('unbound', f=f, name=name,
                          cls=(v.mod.name, v.name))
            for m, c in self.prog.mro(v.mod, v.name):
                if name in m.classes[c][2]:
                    x = self.fresh('clsattr', REAL)
                    val = Num(x)
                    self.st.cls[key] = val
                    return val
            raise PyExc('AttributeError', name)
        if isinstance(v, ModRef):
            return self.global_from(v.name, name)
        if isinstance(v, (Row, SetV, tuple, str, Key, Dom)):
            return Fn('bmethod', recv=v, name=name)
        if isinstance(v, Fn) and v.kind == 'super':
            f = self.find_method(v.cls, name, after=v.after)
            if f is None:
                if name == '__init__':
                    return Fn('noop')
                raise PyExc('AttributeError', name)
            return Fn('method', recv=v.recv, name=name, cls=v.cls, f=f,
                      fixed=True)
        if isinstance(v, Fn) and v.kind == 'type' and name == '__name__':
            return Key(self.fresh('tname', K))
        if isinstance(v, Exc):
            return Key(self.fresh('excattr', K))
        if v is None or is_num(v) or isinstance(v, (Bl, bool)):
            raise PyExc('AttributeError', name)
        raise Unsupported('attribute %s of %r' % (name, v))

    def setattr_(self, v, name, val):
        v = self.deref(v)
        h = getattr(v, 'py_setattr', None)
        if h:
            return h(self, name, val)
        if isinstance(v, Ref) and self.model is not None:
            return self.model.setattr(self, v, name, val)
        if isinstance(v, Obj) and isinstance(self.rec(v), RecObj):
            r = self.rec(v)
            if v.oid in self.frozen:
                raise Unsupported('list element updated through the list')
            if self.model is not None and self.model.set_field(
                    self, v, r, name, val):
                return
            if name == 'av_counts' and r.cls[1] in NODE_CLASSES:
                val = self.own_table(val, r.cls[1] == 'Cobweb3Node')
            if name == 'attr_scales':
                d = self.deref(val)
                if isinstance(d, Obj) and isinstance(self.rec(d), RecC) and \
                        not self.rec(d).items:
                    self.st.heap[d.oid] = RecComp(empty_comps('kcv'), 'kcv')
            self.st.heap[v.oid] = r.set(name, val)
            return
        if isinstance(v, ClassRef):
            self.st.cls[(v.mod.name, v.name, name)] = val
            return
        raise Unsupported('assignment to attribute %s of %r' % (name, v))

    def own_table(self, val, cv):
        d = self.deref(val)
        if isinstance(d, Obj):
            r = self.rec(d)
            if isinstance(r, RecC) and not r.items:
                self.st.heap[d.oid] = RecComp(empty_comps('tab'), 'tab',
                                              cv=cv)
                return d
            if isinstance(r, RecComp) and r.kind == 'tab':
                self.fail('no table is shared between concepts')
        raise Unsupported('table assigned from %r' % (d,))

    # --------------------------------------------------- numeric summaries
    def cv_get(self, v):
        v = self.deref(v)
        if isinstance(v, Cell):
            r = self.st.heap[v.oid]
            n = 'cnt' if r.kind == 'tab' else 'n'
            return (r.get(n, *v.args), r.get('s1', *v.args),
                    r.get('s2', *v.args))
        r = self.rec(v)
        return r.get('n'), r.get('s1'), r.get('s2')

    def cv_set(self, v, n, s1, s2):
        v = self.deref(v)
        if isinstance(v, Cell):
            r = self.st.heap[v.oid]
            nn = 'cnt' if r.kind == 'tab' else 'n'
            new = {}
            for name, val in ((nn, n), ('s1', s1), ('s2', s2)):
                new[name] = self.point_upd(r.comps[name], v.args, val)
            self.st.heap[v.oid] = r.upd(**new)
        else:
            r = self.rec(v)
            self.st.heap[v.oid] = r.upd(n=lambda: n, s1=lambda: s1,
                                        s2=lambda: s2)

    @staticmethod
    def point_upd(old, args, val):
        def f(*xs):
            c = conj([lsimp(x == a) for x, a in zip(xs, args)])
            return ite(lsimp(c), val, old(*xs))
        return f

    # ------------------------------------------------------- subscripts
    def getitem(self, c, k):
        c = self.deref(c)
        h = getattr(c, 'py_getitem', None)
        if h:
            return h(self, k)
        if isinstance(c, (tuple, str)):
            if isinstance(k, int) and not isinstance(k, bool):
                if -len(c) <= k < len(c):
                    return c[k]
                raise PyExc('IndexError')
            raise Unsupported('symbolic index')
        if isinstance(c, Key):
            e = c.e
            if isinstance(k, int) and not isinstance(k, bool):
                if not self.branch(isdict(e)):
                    if k == 0:
                        if not self.branch(subs(e)):
                            raise PyExc('TypeError')
                        return Key(first(e))
                    if not self.branch(And(Or(istup(e), isstr(e)),
                                           tlen(e) > k, tlen(e) >= -k)):
                        raise PyExc('TypeError')
                    return Key(tat(e, rv(k)))
            if not self.branch(isdict(e)):
                raise PyExc('TypeError')
            kk = self.hkey(k)
            if not self.branch(dhas(e, kk)):
                raise PyExc('KeyError')
            return Key(dval(e, kk))
        if isinstance(c, Row):
            r = self.st.heap[c.tab]
            ke = self.hkey(k)
            if not self.branch(r.get('has2', c.a, ke)):
                raise PyExc('KeyError')
            return self.row_value(c, ke)
        if isinstance(c, Obj):
            r = self.rec(c)
            if isinstance(r, RecComp):
                if r.kind in ('set', 'rset'):
                    raise PyExc('TypeError')
                ke = self.hkey(k)
                has = 'has1' if r.kind in TABS else 'has'
                if not self.branch(r.get(has, ke)):
                    raise PyExc('KeyError')
                return self.comp_value(c, ke)
            if isinstance(r, RecC):
                if is_conc(k):
                    if k not in r.items:
                        raise PyExc('KeyError')
                    return r.items[k]
                for kc in r.items:
                    if self.branch(self.eq(k, kc)):
                        return r.items[kc]
                raise PyExc('KeyError')
            if isinstance(r, RecList):
                return self.list_index(c, r, k)
        raise Unsupported('subscript of %r' % (c,))

    def comp_value(self, c, ke):
        r = self.rec(c)
        if r.kind in TABS:
            return Row(c.oid, ke)
        if r.kind == 'kk':
            return Key(r.get('val', ke))
        if r.kind == 'kn':
            return Num(r.get('num', ke))
        if r.kind == 'kcv':
            return Cell(c.oid, (ke,))
        if r.kind == 'kr':
            return Ref(r.get('ref', ke))
        raise Unsupported('dict kind ' + r.kind)

    def row_value(self, row, ke):
        r = self.st.heap[row.tab]
        if r.kind == 'ktab':
            return Key(r.get('val', row.a, ke))
        if r.info.get('cv'):
            if self.branch(ke == self.cvk()):
                return Cell(row.tab, (row.a, ke))
        return Num(r.get('cnt', row.a, ke))

    def cvk(self):
        if self.cv_key is None:
            m = self.prog.module('cobweb3')
            n = m.consts.get('cv_key')
            if not isinstance(n, ast.Constant) or not isinstance(n.value,
                                                                 str):
                raise Unsupported('cv_key is not a string constant')
            self.cv_key = kconst(n.value)
        return self.cv_key

    def list_index(self, c, r, k):
        if not (isinstance(k, int) and not isinstance(k, bool)):
            if len(r.parts) == 1 and isinstance(k, Num) and \
                    getattr(r.parts[0], 'lo', None) is not None:
                g = r.parts[0]
                n = lsimp(g.hi - g.lo)
                if self.branch(And(k.e >= 0, k.e < n, L.isint(k.e))):
                    return g.elem(lsimp(g.lo + k.e))
                if self.branch(And(k.e < 0, k.e >= -n, L.isint(k.e))):
                    return g.elem(lsimp(g.hi + k.e))
                raise PyExc('IndexError')
            raise Unsupported('symbolic list index')
        if r.sort is not None:
            return L.sorted_index(self, c, r, k)
        if all(s.kind == 'one' for s in r.parts):
            if -len(r.parts) <= k < len(r.parts):
                return r.parts[k].val
            raise PyExc('IndexError')
        if k >= 0 and all(s.kind == 'one' for s in r.parts[:k + 1]) and \
                len(r.parts) > k:
            return r.parts[k].val
        if k < 0 and all(s.kind == 'one' for s in r.parts[k:]) and \
                len(r.parts) >= -k:
            return r.parts[k].val
        # some element of an unordered / generated list
        if k == 0 and len(r.parts) == 1:
            s = r.parts[0]
            n = self.seg_sum(s, lambda el: ONE)
            if not self.branch(n > 0):
                raise PyExc('IndexError')
            if getattr(s, 'first', None) is None:
                w = self.fresh('fst', s.sort)
                self.st.assume(s.dom(w))
                s.first = None
                return s.elem(w)
        raise Unsupported('index into a generated list')

    def slice_(self, c, lo, hi):
        c = self.deref(c)
        if isinstance(c, (str, tuple)) and all(
                x is None or isinstance(x, int) for x in (lo, hi)):
            return c[lo:hi]
        h = getattr(c, 'py_slice', None)
        if h:
            return h(self, lo, hi)
        if isinstance(c, Obj) and isinstance(self.rec(c), RecList):
            r = self.rec(c)
            if all(s.kind == 'one' for s in r.parts) and all(
                    x is None or isinstance(x, int) for x in (lo, hi)):
                return self.new_list(r.parts[lo:hi])
            if lo is None and hi is None:
                return self.new_list(r.parts)
        if isinstance(c, Key):
            return Key(fn('slice', K, K, K, K)(c.e, self.key(lo),
                                              self.key(hi)))
        raise Unsupported('slice')

    def setitem(self, c, k, v):
        c = self.deref(c)
        h = getattr(c, 'py_setitem', None)
        if h:
            return h(self, k, v)
        if isinstance(c, Row):
            return self.row_store(c, k, v)
        if isinstance(c, Obj):
            r = self.rec(c)
            if isinstance(r, RecC):
                if is_conc(k):
                    d = dict(r.items)
                    d[k] = v
                    self.st.heap[c.oid] = RecC(d)
                    return
                if r.items:
                    if not self.widen(c, r):
                        raise Unsupported('mixed dict')
                    return self.setitem(c, k, v)
                self.type_dict(c, v)
                return self.setitem(c, k, v)
            if isinstance(r, RecComp):
                if r.kind in TABS:
                    return self.tab_store(c, k, v)
                ke = self.hkey(k)
                has = self.point_upd(r.comps['has'], (ke,), TRUE)
                if r.kind == 'kk':
                    ve = self.key(v)
                    self.st.heap[c.oid] = self.rec(c).upd(
                        has=has, val=self.point_upd(r.comps['val'], (ke,),
                                                    ve))
                    self.freeze(v, ve)
                    return
                if r.kind == 'kn':
                    if not isinstance(self.deref(v), (Num, Bl, int, float)):
                        raise Unsupported('numbers and other values in one '
                                          'dict')
                    self.st.heap[c.oid] = r.upd(
                        has=has, num=self.point_upd(r.comps['num'], (ke,),
                                                    self.num(v)))
                    return
                if r.kind == 'kr':
                    self.st.heap[c.oid] = r.upd(
                        has=has, ref=self.point_upd(r.comps['ref'], (ke,),
                                                    self.deref(v).e))
                    return
                if r.kind == 'kcv':
                    d = self.deref(v)
                    if isinstance(d, Cell):
                        if d.oid == c.oid and self.must(d.args[0] == ke):
                            return
                        self.fail('no numeric summary is shared')
                    if isinstance(d, Obj) and isinstance(self.rec(d),
                                                         RecComp) \
                            and self.rec(d).kind == 'cv':
                        n, s1, s2 = self.cv_get(d)
                        if is_zero(n) and is_zero(s1) and is_zero(s2) and \
                                self.must(Not(r.get('has', ke))):
                            # absent cells are zero: only presence changes
                            self.st.heap[c.oid] = r.upd(has=has)
                            self.st.heap[d.oid] = RecAlias(Cell(c.oid,
                                                                (ke,)))
                            return
                        self.st.heap[c.oid] = r.upd(
                            has=has,
                            n=self.point_upd(r.comps['n'], (ke,), n),
                            s1=self.point_upd(r.comps['s1'], (ke,), s1),
                            s2=self.point_upd(r.comps['s2'], (ke,), s2))
                        self.st.heap[d.oid] = RecAlias(Cell(c.oid, (ke,)))
                        return
            if isinstance(r, RecList):
                raise Unsupported('list item assignment')
        if isinstance(c, (tuple, str)):
            raise PyExc('TypeError')
        if isinstance(c, Key) and self.touches(c):
            try:
                v = self.key(v)
            except Unsupported:
                self.touched()
            ke = self.hkey(k)
            if not self.must(And(dhas(c.e, ke), dval(c.e, ke) == v)):
                self.touched()
            return
        raise Unsupported('item assignment on %r' % (c,))

    def freeze(self, v, ve):
        """a dict stored as a value of another: read-only from now on"""
        d = self.deref(v)
        if isinstance(d, Obj) and not isinstance(self.rec(d), RecObj):
            self.st.heap[d.oid] = RecAlias(Key(ve), self.rec(d))

    def touches(self, v):
        """the value is one the caller passed in, or nested inside one"""
        if not isinstance(v, Key):
            return False
        e = v.e
        while True:
            if any(e.eq(g) for g in self.given):
                return True
            if e.num_args() == 2 and e.decl().eq(dval):
                e = e.arg(0)
                continue
            return False

    def touched(self):
        self.fail('no instance passed in is modified')

    def widen(self, c, r):
        """dict with constant keys -> dict over all keys"""
        vals = [self.deref(v) for v in r.items.values()]
        if all(is_num(v) for v in vals) and not any(
                isinstance(v, bool) for v in vals):
            kind, comp, conv = 'kk', 'val', self.key
        else:
            kind, comp, conv = 'kk', 'val', self.key
        items = []
        for k, v in r.items.items():
            items.append((self.key(k), conv(v)))
        comps = empty_comps(kind)
        for k, v in items:
            comps['has'] = self.point_upd(comps['has'], (k,), TRUE)
            comps[comp] = self.point_upd(comps[comp], (k,), v)
        self.st.heap[c.oid] = RecComp(comps, kind)
        return True

    def type_dict(self, c, v):
        d = self.deref(v)
        if isinstance(d, Obj) and isinstance(self.rec(d), RecComp) and \
                self.rec(d).kind == 'cv':
            kind = 'kcv'
        elif isinstance(d, Num):
            kind = 'kn'
        elif isinstance(d, Ref):
            kind = 'kr'
        elif isinstance(d, Obj) and self.nested and isinstance(
                self.rec(d), (RecC, RecComp)) and getattr(
                    self.rec(d), 'kind', 'kk') in ('kk', 'kn', 'krow'):
            kind = 'ktab'
        else:
            kind = 'kk'
        self.st.heap[c.oid] = RecComp(empty_comps(kind), kind)

    def tab_store(self, c, k, v):
        r = self.rec(c)
        ke = self.hkey(k)
        d = self.deref(v)
        if r.kind == 'ktab':
            return self.ktab_store(c, r, ke, d)
        if isinstance(d, Row):
            if d.tab == c.oid and self.must(d.a == ke):
                return
            if d.tab == c.oid and not self.must(d.a != ke):
                pass
            self.fail('no table row is shared between concepts')
        if isinstance(d, Obj) and isinstance(self.rec(d), RecC) and \
                not self.rec(d).items:
            h2, h1 = r.comps['has2'], r.comps['has1']
            self.st.heap[c.oid] = r.upd(
                has1=self.point_upd(h1, (ke,), TRUE),
                has2=lambda a, v_: ite(lsimp(a == ke), FALSE, h2(a, v_)))
            self.st.heap[d.oid] = RecAlias(Row(c.oid, ke))
            return
        if isinstance(d, Obj) and isinstance(self.rec(d), RecC) and \
                all(is_num(x) for x in self.rec(d).items.values()):
            items = self.rec(d).items
            e = self.alloc(RecC({}))
            self.tab_store(c, k, e)
            row = Row(c.oid, ke)
            for kk, vv in items.items():
                self.row_store(row, kk, vv)
            self.st.heap[d.oid] = RecAlias(row)
            return
        if isinstance(d, Obj) and isinstance(self.rec(d), RecComp) and \
                self.rec(d).kind in ('kn', 'krow'):
            q = self.rec(d)
            if q.kind == 'krow' and r.info.get('cv'):
                self.fail('no numeric summary is shared between concepts')
            h2, h1, cnt = (r.comps['has2'], r.comps['has1'],
                           r.comps['cnt'])
            qh, qn = q.comps['has'], q.comps['num']
            self.st.heap[c.oid] = r.upd(
                has1=self.point_upd(h1, (ke,), TRUE),
                has2=lambda a, v_: ite(lsimp(a == ke), qh(v_), h2(a, v_)),
                cnt=lambda a, v_: ite(lsimp(a == ke), qn(v_), cnt(a, v_)))
            self.st.heap[d.oid] = RecAlias(Row(c.oid, ke))
            return
        raise Unsupported('table row assigned from %r' % (d,))

    def ktab_store(self, c, r, ke, d):
        """a whole row of a dict of dicts"""
        if isinstance(d, Row) and d.tab == c.oid and self.must(d.a == ke):
            return
        if not isinstance(d, Obj):
            raise Unsupported('row assigned from %r' % (d,))
        q = self.rec(d)
        if isinstance(q, RecC):
            items = [(self.key(a), self.key(b)) for a, b in q.items.items()]
            qh = lambda x: disj([x == a for a, _ in items])

            def qv(x):
                e = KNONE
                for a, b in items:
                    e = ite(x == a, b, e)
                return e
        elif isinstance(q, RecComp) and q.kind == 'kk':
            qh, qv = q.comps['has'], q.comps['val']
        elif isinstance(q, RecComp) and q.kind == 'kn':
            qh, qn = q.comps['has'], q.comps['num']
            qv = lambda x: fromnum(qn(x))
        else:
            raise Unsupported('row assigned from %r' % (d,))
        r = self.rec(c)
        h1, h2, val = (r.comps[n] for n in ('has1', 'has2', 'val'))
        empty = isinstance(q, RecC) and not q.items
        self.st.heap[c.oid] = r.upd(
            has1=self.point_upd(h1, (ke,), TRUE),
            has2=lambda a, x: ite(lsimp(a == ke), qh(x), h2(a, x)),
            val=val if empty else
            lambda a, x: ite(lsimp(a == ke), qv(x), val(a, x)))
        self.st.heap[d.oid] = RecAlias(Row(c.oid, ke))

    def row_store(self, row, k, v):
        r = self.st.heap[row.tab]
        ke = self.hkey(k)
        d = self.deref(v)
        args = (row.a, ke)
        if r.kind == 'ktab':
            ve = self.key(v)
            r = self.st.heap[row.tab]
            self.st.heap[row.tab] = r.upd(
                has2=self.point_upd(r.comps['has2'], args, TRUE),
                val=self.point_upd(r.comps['val'], args, ve))
            self.freeze(v, ve)
            return
        if isinstance(d, Cell):
            if d.oid == row.tab and self.must(And(d.args[0] == row.a,
                                                  d.args[1] == ke)):
                return
            self.fail('no numeric summary is shared between concepts')
        if isinstance(d, Obj) and isinstance(self.rec(d), RecComp) and \
                self.rec(d).kind == 'cv':
            if not r.info.get('cv'):
                raise Unsupported('summary in a nominal table')
            if not self.must(ke == self.cvk()):
                self.fail('numeric summaries live under their own key')
            n, s1, s2 = self.cv_get(d)
            r = self.st.heap[row.tab]
            self.st.heap[row.tab] = r.upd(
                has2=self.point_upd(r.comps['has2'], args, TRUE),
                cnt=self.point_upd(r.comps['cnt'], args, n),
                s1=self.point_upd(r.comps['s1'], args, s1),
                s2=self.point_upd(r.comps['s2'], args, s2))
            self.st.heap[d.oid] = RecAlias(Cell(row.tab, args))
            return
        if r.info.get('cv'):
            if self.branch(ke == self.cvk()):
                self.fail('a count is never stored over a numeric summary')
        e = self.num(v)
        self.st.heap[row.tab] = r.upd(
            has2=self.point_upd(r.comps['has2'], args, TRUE),
            cnt=self.point_upd(r.comps['cnt'], args, e))

    # ------------------------------------------------------- arithmetic
    def binop(self, op, a, b):
        a, b = self.deref(a), self.deref(b)
        if isinstance(op, ast.Add):
            sa = isinstance(a, (str,)) or isinstance(a, Key)
            sb = isinstance(b, (str,)) or isinstance(b, Key)
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, str) and isinstance(b, Key) or \
                    isinstance(b, str) and isinstance(a, Key):
                k = b if isinstance(b, Key) else a
                if not self.branch(isstr(k.e)):
                    raise PyExc('TypeError')
                return Key(strcat(self.key(a), self.key(b)))
            if isinstance(a, Key) and isinstance(b, Key):
                if self.branch(And(isstr(a.e), isstr(b.e))):
                    return Key(strcat(a.e, b.e))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            la = self.as_list(a)
            lb = self.as_list(b)
            if la is not None and lb is not None:
                return self.new_list(tuple(la) + tuple(lb))
        if isinstance(op, ast.Mult) and (isinstance(a, str) or
                                         isinstance(b, str)):
            return Key(self.fresh('strmul', K))
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return Key(self.fresh('fmt', K))
        if isinstance(op, ast.Sub):
            sa, sb = self.as_set(a), self.as_set(b)
            if sa is not None and sb is not None:
                return SetV(sa.sort, lambda x: And(sa.mem(x),
                                                   Not(sb.mem(x))))
        if isinstance(op, (ast.BitOr, ast.BitAnd)):
            sa, sb = self.as_set(a), self.as_set(b)
            if sa is not None and sb is not None:
                if isinstance(op, ast.BitOr):
                    return SetV(sa.sort, lambda x: Or(sa.mem(x), sb.mem(x)))
                return SetV(sa.sort, lambda x: And(sa.mem(x), sb.mem(x)))
        if type(a) is int and type(b) is int and \
                isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
            return {ast.Add: a + b, ast.Sub: a - b,
                    ast.Mult: a * b}[type(op)]
        x, y = self.num(a), self.num(b)
        if isinstance(op, ast.Add):
            return Num(lsimp(x + y))
        if isinstance(op, ast.Sub):
            return Num(lsimp(x - y))
        if isinstance(op, ast.Mult):
            return Num(lsimp(x * y))
        if isinstance(op, ast.Div):
            if self.branch(y == 0):
                raise PyExc('ZeroDivisionError')
            return Num(lsimp(x / y))
        if isinstance(op, ast.Pow):
            if isinstance(b, int) and 0 <= b <= 4:
                r = ONE
                for _ in range(b):
                    r = x if r is ONE else r * x
                return Num(r)
            if isinstance(b, float) and b == 0.5:
                if self.branch(x < 0):
                    raise PyExc('ValueError')
                return Num(sqrt_(x))
            if isinstance(b, (int, float)) and b == -1:
                if self.branch(x == 0):
                    raise PyExc('ZeroDivisionError')
                return Num(ONE / x)
            if isinstance(b, int) and b == -2:
                if self.branch(x == 0):
                    raise PyExc('ZeroDivisionError')
                return Num(ONE / (x * x))
        if isinstance(op, ast.FloorDiv):
            raise Unsupported('floor division')
        if isinstance(op, ast.Mod):
            return Num(fn('mod!', REAL, REAL, REAL)(x, y))
        raise Unsupported('operator %s' % type(op).__name__)

    def as_list(self, v):
        v = self.deref(v)
        if isinstance(v, Obj) and isinstance(self.rec(v), RecList):
            return self.rec(v).parts
        h = getattr(v, 'py_parts', None)
        if h:
            return h(self)
        return None

    def as_set(self, v):
        v = self.deref(v)
        if isinstance(v, SetV):
            return v
        if isinstance(v, Obj):
            r = self.rec(v)
            if isinstance(r, RecComp) and r.kind == 'set':
                return SetV(K, r.comps['mem'])
            if isinstance(r, RecComp) and r.kind == 'rset':
                return SetV(R, r.comps['mem'])
        return None

    def to_set(self, v):
        """membership predicate of an iterable of keys or concepts"""
        s = self.as_set(v)
        if s is not None:
            return s
        segs = self.iterate(v)
        if not segs:
            return SetV(K, lambda x: FALSE)
        if isinstance(self.deref(v), Key) and len(segs) == 1 and \
                segs[0].sort.eq(I):
            return self.items_of(self.deref(v).e, segs[0])
        sort, fs = None, []
        for g in segs:
            if g.kind == 'one':
                d = self.deref(g.val)
                if isinstance(d, Ref):
                    srt = R
                    fs.append(lambda x, e=d.e: x == e)
                else:
                    srt = K
                    e = self.key(d)
                    fs.append(lambda x, e=e: x == e)
            else:
                p = fresh('probe', g.sort)
                el = g.elem(p)
                if isinstance(el, (Key, Ref)) and \
                        el.e.get_id() == p.get_id():
                    srt = g.sort
                    fs.append(g.dom)
                else:
                    srt = R if isinstance(el, Ref) else K
                    conv = (lambda z: z.e) if srt is R else self.key
                    f = self.image_set(g, conv, srt)
                    fs.append(f)
            if sort is None:
                sort = srt
            elif not sort.eq(srt):
                raise Unsupported('set of mixed elements')
        return SetV(sort, lambda x: disj([f(x) for f in fs]))

    def items_of(self, k, g):
        """the distinct items of a list or tuple"""
        mem, wit = fn('item of', K, K, BOOL), fn('place of', K, K, I)
        self.st.facts.append(Fact('items', (I,), lambda i: Implies(
            g.dom(i), mem(k, g.elem(i).e))))
        self.st.facts.append(Fact('places', (K,), lambda x: Implies(mem(
            k, x), And(g.dom(wit(k, x)), g.elem(wit(k, x)).e == x))))
        r = SetV(K, lambda x: mem(k, x))
        r.of = k
        return r

    def image_set(self, g, conv, srt):
        """{conv(elem(i)) | dom(i)} as an uninterpreted predicate"""
        P = freshfn('img', *([b.sort() for b in self.binders] +
                             [srt, BOOL]))
        W = freshfn('imgw', *([b.sort() for b in self.binders] +
                              [srt, g.sort]))
        bs = list(self.binders)
        mem = lambda x: P(*(bs + [x]))
        self.st.facts.append(Fact('image', (g.sort,), lambda i: Implies(
            g.dom(i), mem(conv(g.elem(i))))))
        self.st.facts.append(Fact('image witness', (srt,), lambda x: Implies(
            mem(x), And(g.dom(W(*(bs + [x]))),
                        conv(g.elem(W(*(bs + [x])))) == x))))
        return mem

    # --------------------------------------------------------- expressions
    def ev(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n)

    def e_Constant(self, n):
        return n.value

    def e_Name(self, n):
        if n.id in self.st.env:
            v = self.st.env[n.id]
            if isinstance(v, Opaque):
                raise Unsupported('loop state %s of unknown shape' % v.what)
            return v
        return self.global_(n.id)

    def global_(self, name):
        f = self.stack[-1] if self.stack else None
        mod = f.mod if f is not None else None
        if mod is not None:
            key = (mod.name, None, name)
            if key in self.st.cls:
                return self.st.cls[key]
            if name in mod.funcs:
                return Fn('func', f=mod.funcs[name])
            if name in mod.classes:
                return ClassRef(mod, name)
            if name in mod.consts:
                return self.const_expr(mod, name, mod.consts[name])
            if name in mod.imports:
                m, a = mod.imports[name]
                if a is None:
                    return ModRef(m)
                return self.global_from(m, a)
        if name == 'collectionsAbc':     # see front.py
            return ModRef('collections.abc')
        return Fn('builtin', name=name)

    def const_expr(self, mod, name, node):
        if isinstance(node, ast.Constant):
            return node.value
        if isinstance(node, ast.Dict) and name == 'c4n_table':
            return Fn('c4table')
        if isinstance(node, (ast.List, ast.Tuple)):
            return self.ev(node)
        if isinstance(node, ast.Dict):
            return self.ev(node)
        raise Unsupported('module constant ' + name)

    def global_from(self, m, a):
        if m in self.prog.mods:
            mod = self.prog.mods[m]
            if a in mod.funcs:
                return Fn('func', f=mod.funcs[a])
            if a in mod.classes:
                return ClassRef(mod, a)
            if a in mod.consts:
                return self.const_expr(mod, a, mod.consts[a])
            if a in mod.imports:
                return self.global_from(*mod.imports[a])
            raise Unsupported('name %s of %s' % (a, m))
        if m == 'math' and a == 'pi':
            return Num(PI)
        return Fn('ext', mod=m, name=a)

    def e_Tuple(self, n):
        return tuple(self.ev(x) for x in n.elts)

    def e_List(self, n):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            raise Unsupported('starred')
        vs = [self.ev(x) for x in n.elts]
        return self.new_list([Seg('one', v) for v in vs])

    def e_Set(self, n):
        vs = [self.ev(x) for x in n.elts]
        return self.new_set(self.to_set(tuple(vs)))

    def new_set(self, s):
        kind = 'rset' if s.sort.eq(R) else 'set'
        return self.alloc(RecComp({'mem': s.mem}, kind))

    def e_Dict(self, n):
        d = self.alloc(RecC({}))
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.ev(v)
                self.dict_update(d, src)
                continue
            kk = self.ev(k)
            vv = self.ev(v)
            if len(n.keys) == 1 and type(vv) in (int, float) and \
                    not is_conc(kk):
                vv = Num(self.num(vv))
            self.setitem(d, kk, vv)
        return d

    def e_BoolOp(self, n):
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x)
            if i == len(n.values) - 1:
                return v
            t = self.branch(self.truth(v))
            if isinstance(n.op, ast.And) and not t:
                return v if not isinstance(v, Bl) else False
            if isinstance(n.op, ast.Or) and t:
                return v if not isinstance(v, Bl) else True
        return v

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            t = lsimp(Not(self.truth(v)))
            if is_true(t):
                return True
            if is_false(t):
                return False
            return Bl(t)
        if isinstance(n.op, ast.USub):
            v = self.deref(v)
            if type(v) in (int, float):
                return -v
            return Num(lsimp(-self.num(v)))
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported('unary operator')

    def e_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        return self.binop(n.op, a, b)

    def e_Compare(self, n):
        left = self.ev(n.left)
        res = []
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c)
            t = self.cmp(op, left, right)
            res.append(t)
            if len(n.ops) > 1 and len(res) < len(n.ops):
                if not self.branch(t):
                    return False
                res.pop()
            left = right
        t = lsimp(conj(res))
        if is_true(t):
            return True
        if is_false(t):
            return False
        return Bl(t)

    def cmp(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return Not(self.eq(a, b))
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return Not(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.contains_(a, b)
        if isinstance(op, ast.NotIn):
            return Not(self.contains_(a, b))
        a, b = self.deref(a), self.deref(b)
        inf = float('inf')
        for v, other, flip in ((a, b, False), (b, a, True)):
            if isinstance(v, float) and v in (inf, -inf):
                if isinstance(other, float) and other in (inf, -inf):
                    break
                if is_num(other):
                    big = (v > 0) != flip
                    # comparison  a op b  with one infinite side
                    if isinstance(op, (ast.Lt, ast.LtE)):
                        return BoolVal(not big)
                    return BoolVal(big)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.lex(op, a, b)
        x, y = self.num(a), self.num(b)
        return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y,
                ast.GtE: x >= y}[type(op)]

    def lex(self, op, a, b):
        if isinstance(op, (ast.Gt, ast.GtE)):
            return self.lex(ast.Lt() if isinstance(op, ast.Gt)
                            else ast.LtE(), b, a)
        if not a or not b:
            if isinstance(op, ast.Lt):
                return BoolVal(len(a) < len(b))
            return BoolVal(len(a) <= len(b))
        x, y = self.num(a[0]), self.num(b[0])
        return Or(x < y, And(x == y, self.lex(op, a[1:], b[1:])))

    def is_(self, a, b):
        a, b = self.deref(a), self.deref(b)
        if a is None or b is None:
            return self.eq(a, b)
        if isinstance(a, bool) or isinstance(b, bool):
            x, y = (a, b) if isinstance(a, bool) else (b, a)
            if isinstance(y, bool):
                return BoolVal(x is y)
            if isinstance(y, Bl):
                return y.e if x else Not(y.e)
            if isinstance(y, Key):
                return y.e == kconst(x)
            return FALSE
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.e == b.e
        if isinstance(a, Obj) and isinstance(b, Obj):
            return BoolVal(a.oid == b.oid)
        if isinstance(a, ClassRef) or isinstance(b, ClassRef):
            return self.eq(a, b)
        raise Unsupported('identity test')

    def e_IfExp(self, n):
        if self.branch(self.truth(self.ev(n.test))):
            return self.ev(n.body)
        return self.ev(n.orelse)

    def e_Attribute(self, n):
        return self.getattr_(self.ev(n.value), n.attr)

    def e_Subscript(self, n):
        c = self.ev(n.value)
        if isinstance(n.slice, ast.Slice):
            if n.slice.step is not None:
                raise Unsupported('slice step')
            lo = self.ev(n.slice.lower) if n.slice.lower else None
            hi = self.ev(n.slice.upper) if n.slice.upper else None
            return self.slice_(c, lo, hi)
        k = self.ev(n.slice)
        if isinstance(c, Fn) and c.kind == 'c4table':
            x = self.num(k)
            return Num(C4(x))
        return self.getitem(c, k)

    def e_Lambda(self, n):
        return Fn('lambda', node=n, env=dict(self.st.env),
                  owner=self.stack[-1] if self.stack else None)

    def e_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value)
        k = self.fresh('fstr', K)
        self.st.assume(isstr(k))
        return Key(k)

    def e_ListComp(self, n):
        return L.comprehension(self, n, 'list')

    def e_GeneratorExp(self, n):
        return L.comprehension(self, n, 'list')

    def e_SetComp(self, n):
        return L.comprehension(self, n, 'set')

    def e_DictComp(self, n):
        return L.comprehension(self, n, 'dict')

    def e_Yield(self, n):
        v = self.ev(n.value) if n.value is not None else None
        h = self.yields.get(self.stack[-1].qual)
        if h is not None:       # only what is yielded matters
            return h(self, v)
        lst = self.st.env.get('__yield__')
        if lst is None:
            raise Unsupported('yield')
        self.list_append(lst, v)
        return None

    def e_Starred(self, n):
        raise Unsupported('starred expression')

    # ------------------------------------------------------------- calls
    def e_Call(self, n):
        f = self.ev(n.func) if not (isinstance(n.func, ast.Name) and
                                    n.func.id == 'super') else None
        if f is None:
            return self.super_(n)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.deref(self.ev(a.value))
                if isinstance(v, tuple):
                    args.extend(v)
                elif isinstance(v, Obj) and isinstance(self.rec(v),
                                                       RecList) \
                        and all(s.kind == 'one' for s in
                                self.rec(v).parts):
                    args.extend(s.val for s in self.rec(v).parts)
                else:
                    raise Unsupported('starred argument')
            else:
                args.append(self.ev(a))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                raise Unsupported('** argument')
            kw[k.arg] = self.ev(k.value)
        return self.call(f, args, kw)

    def super_(self, n):
        f = self.stack[-1]
        if n.args:
            me = self.ev(n.args[1])
        else:
            me = self.st.env[f.node.args.args[0].arg]
        me = self.deref(me)
        h = getattr(me, 'py_class', None)
        cls = h(self) if h else (self.rec(me).cls if isinstance(me, Obj)
                                 else me.cls)
        return Fn('super', recv=me, cls=cls, after=(f.mod.name, f.cls))

    def call(self, f, args, kw):
        f = self.deref(f)
        if isinstance(f, ClassRef):
            return self.construct(f, args, kw)
        if isinstance(f, Key):
            h = self.contracts.get('<opaque call>')
            if h:
                return h(self, f, args, kw)
            raise Unsupported('call of an unknown value')
        if isinstance(f, Obj) and isinstance(self.rec(f), RecObj):
            m = self.find_method(self.rec(f).cls, '__call__')
            if m is None:
                raise PyExc('TypeError')
            return self.invoke(m, f, args, kw)
        if not isinstance(f, Fn):
            h = getattr(f, 'py_call', None)
            if h:
                return h(self, args, kw)
            if f is None or is_conc(f):
                raise PyExc('TypeError')
            raise Unsupported('call of %r' % (f,))
        k = f.kind
        if k == 'func':
            return self.invoke(f.f, None, args, kw)
        if k == 'method':
            fun = getattr(f, 'f', None)
            if fun is None:
                fun = self.find_method(f.cls, f.name)
                if fun is None:
                    raise PyExc('AttributeError')
            return self.invoke(fun, f.recv, args, kw,
                               dyn=getattr(f, 'cls', None),
                               fixed=getattr(f, 'fixed', False))
        if k == 'unbound':
            return self.invoke(f.f, args[0], args[1:], kw, fixed=True)
        if k == 'lambda':
            return self.call_lambda(f, args)
        if k == 'closure':
            return self.call_closure(f, args, kw)
        if k == 'bmethod':
            return L.bmethod(self, f.recv, f.name, args, kw)
        if k == 'builtin':
            return L.builtin(self, f.name, args, kw)
        if k == 'ext':
            return L.external(self, f.mod, f.name, args, kw)
        if k == 'noop':
            return None
        if k == 'hook':
            return f.h(self, args, kw)
        raise Unsupported('call of ' + k)

    def call_lambda(self, f, args):
        save = self.st.env
        env = dict(f.env)
        ps = f.node.args.args
        if len(ps) != len(args):
            raise Unsupported('lambda arguments')
        for p, a in zip(ps, args):
            env[p.arg] = a
        self.st.env = env
        if f.owner is not None:
            self.stack.append(f.owner)
        try:
            return self.ev(f.node.body)
        finally:
            if f.owner is not None:
                self.stack.pop()
            self.st.env = save

    def construct(self, c, args, kw):
        for m, k in self.prog.mro(c.mod, c.name):
            pass
        h = self.contracts.get('new ' + c.name)
        if h:
            self.assumed.add('new ' + c.name)
            return h(self, c, args, kw)
        if c.name == 'ContinuousValue' and self.cvmode == 'contract':
            self.assumed.add('ContinuousValue.__init__')
            if args or kw:
                raise Unsupported('constructor arguments')
            return self.alloc(RecComp(empty_comps('cv'), 'cv'))
        if c.name in EXC_PARENTS:
            return Exc(c.name)
        o = self.alloc(RecObj((c.mod.name, c.name), {}))
        f = self.prog.method(c.mod, c.name, '__init__')
        if f is not None:
            self.invoke(f, o, args, kw)
        return o

    def contract_for(self, f, recv, fixed):
        return self.contracts.get(f.qual)

    def invoke(self, f, recv, args, kw, dyn=None, fixed=False):
        h = self.contract_for(f, recv, fixed)
        if h is not None:
            self.assumed.add(f.qual)
            r = h(self, recv, args, kw, f)
            if r is not NotImplemented:
                return r
        if any(g is f for g in self.stack):
            raise Unsupported('recursion in %s without a contract' % f.qual)
        if len(self.stack) > 25:
            raise Unsupported('call depth')
        if f.node.decorator_list:
            raise Unsupported('decorated function ' + f.qual)
        self.used.add(f.full)
        return self.run_body(f, recv, args, kw)

    def run_top(self, f, recv, args, kw):
        """the body of the function under contract itself"""
        self.used.add(f.full)
        return self.run_body(f, recv, args, kw)

    def bind(self, f, recv, args, kw):
        a = f.node.args
        if a.kwarg is not None or a.posonlyargs:
            raise Unsupported('parameter kinds of ' + f.qual)
        names = [p.arg for p in a.args]
        env = {}
        vals = ([recv] if f.cls is not None else []) + list(args)
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(vals[len(names):])
            vals = vals[:len(names)]
        if len(vals) > len(names):
            raise PyExc('TypeError')
        for n, v in zip(names, vals):
            env[n] = v
        for k, v in kw.items():
            if k in env or k not in names + [p.arg for p in a.kwonlyargs]:
                raise PyExc('TypeError')
            env[k] = v
        self.stack.append(f)
        try:
            for p, d in zip(names[len(names) - len(a.defaults):],
                            a.defaults):
                if p not in env:
                    env[p] = self.ev_default(f, d)
            for p, d in zip(a.kwonlyargs, a.kw_defaults):
                if p.arg not in env and d is not None:
                    env[p.arg] = self.ev_default(f, d)
        finally:
            self.stack.pop()
        for n in names:
            if n not in env:
                raise PyExc('TypeError')
        return env

    def ev_default(self, f, d):
        if isinstance(d, (ast.Dict, ast.Set)):
            raise Unsupported('mutable default argument is used')
        save = self.st.env
        self.st.env = {}
        try:
            return self.ev(d)
        finally:
            self.st.env = save

    def run_body(self, f, recv, args, kw):
        env = self.bind(f, recv, args, kw)
        save = self.st.env
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom))
                  for x in own_nodes(f.node))
        if gen:
            env['__yield__'] = self.new_list()
        self.st.env = env
        self.stack.append(f)
        try:
            self.block(f.node.body)
            r = None
        except ReturnEx as e:
            r = e.v
        finally:
            self.stack.pop()
            y = self.st.env.get('__yield__') if gen else None
            self.st.env = save
        if gen:
            return y
        return r

    # -------------------------------------------------------- statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        raise Unsupported('local import')

    def s_Global(self, s):
        f = self.stack[-1]
        g = self.st.env.setdefault('__globals__', ())
        self.st.env['__globals__'] = tuple(g) + tuple(s.names)
        for n in s.names:
            key = (f.mod.name, None, n)
            if key not in self.st.cls:
                self.st.cls[key] = Num(self.fresh('glob_' + n, REAL))

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            if t.id in self.st.env.get('__globals__', ()):
                self.st.cls[(self.stack[-1].mod.name, None, t.id)] = v
            else:
                self.st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            c = self.ev(t.value)
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('slice assignment')
            self.setitem(c, self.ev(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            d = self.deref(v)
            n = len(t.elts)
            if isinstance(d, tuple):
                if len(d) != n:
                    raise PyExc('ValueError')
                vs = d
            elif isinstance(d, Key):
                if not self.branch(And(Or(istup(d.e), isstr(d.e)),
                                       tlen(d.e) == n)):
                    raise PyExc('ValueError')
                vs = [Key(first(d.e)) if i == 0 else Key(tat(d.e, rv(i)))
                      for i in range(n)]
            elif isinstance(d, Obj) and isinstance(self.rec(d), RecList) \
                    and all(x.kind == 'one' for x in self.rec(d).parts):
                p = self.rec(d).parts
                if len(p) != n:
                    raise PyExc('ValueError')
                vs = [x.val for x in p]
            else:
                raise Unsupported('unpacking %r' % (d,))
            for e, x in zip(t.elts, vs):
                self.assign(e, x)
        else:
            raise Unsupported('assignment target')

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t))
            put = lambda v: self.assign(t, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr_(o, t.attr)
            put = lambda v: self.setattr_(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev(t.slice)
            cur = self.getitem(o, k)
            put = lambda v: self.setitem(o, k, v)
        else:
            raise Unsupported('augmented target')
        val = self.ev(s.value)
        cd = self.deref(cur)
        if isinstance(s.op, ast.Add) and self.as_list(cd) is not None:
            L.bmethod(self, cd, 'extend', [val], {})
            return
        if isinstance(s.op, ast.BitOr) and isinstance(cd, Obj):
            L.bmethod(self, cd, 'update', [val], {})
            return
        put(self.binop(s.op, cur, val))

    def s_Return(self, s):
        raise ReturnEx(self.ev(s.value) if s.value is not None else None)

    def s_Break(self, s):
        raise BreakEx()

    def s_Continue(self, s):
        raise ContinueEx()

    def s_If(self, s):
        c = self.truth(self.ev(s.test))
        if self.either(s, c) or all(
                self.quiet(x) for x in s.body + s.orelse):
            return
        if self.branch(c):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def quiet(self, x):
        """nothing but output of names and constants"""
        if isinstance(x, ast.Pass):
            return True
        if not isinstance(x, ast.Expr) or not isinstance(x.value, ast.Call):
            return False
        c = x.value
        if not isinstance(c.func, ast.Name) or c.func.id != 'print' or \
                c.keywords or not all(isinstance(a, ast.Constant) or (
                    isinstance(a, ast.Name) and a.id in self.st.env)
                    for a in c.args):
            return False
        f = self.ev(c.func)
        return isinstance(f, Fn) and f.kind == 'builtin'

    def either(self, s, c):
        """a choice between two values of one variable that depends on what
        earlier iterations left: a value, not two paths"""
        if isinstance(c, bool) or not self.carried(c) or \
                len(s.body) != 1 or len(s.orelse) != 1:
            return False
        a, b = s.body[0], s.orelse[0]
        for x in (a, b):
            if not isinstance(x, ast.Assign) or len(x.targets) != 1 or \
                    not isinstance(x.targets[0], ast.Name) or not all(
                        isinstance(n, (ast.Name, ast.Tuple, ast.Constant,
                                       ast.Load))
                        for n in ast.walk(x.value)):
                return False
        if a.targets[0].id != b.targets[0].id:
            return False
        vs = [self.ev(x.value) for x in (a, b)]
        if not all(isinstance(self.deref(v), (Key, tuple, str))
                   for v in vs):
            return False
        v, w = [self.key(v) for v in vs]
        self.st.env[a.targets[0].id] = Key(ite(lsimp(c), v, w))
        return True

    def carried(self, c):
        return any(is_app(t) and not t.num_args() and t.decl().name(
            ).startswith('ph!') for t in subterms([c]))

    def s_Assert(self, s):
        if not self.branch(self.truth(self.ev(s.test))):
            raise PyExc('AssertionError')

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                c = self.deref(self.ev(t.value))
                k = self.ev(t.slice)
                L.del_item(self, c, k)
            elif isinstance(t, ast.Name):
                self.st.env.pop(t.id, None)
            else:
                raise Unsupported('del')

    def s_Raise(self, s):
        if s.exc is None:
            cur = self.st.env.get('__exc__')
            if cur is None:
                raise Unsupported('bare raise')
            raise PyExc(cur.cls)
        n = s.exc
        if isinstance(n, ast.Call):
            # the message is evaluated for its effects only
            name = n.func.id if isinstance(n.func, ast.Name) else None
            if name in EXC_PARENTS:
                for a in n.args:
                    self.ev(a)
                raise PyExc(name)
        if isinstance(n, ast.Name) and n.id in EXC_PARENTS:
            raise PyExc(n.id)
        v = self.ev(n)
        if isinstance(v, Exc):
            raise PyExc(v.cls)
        raise Unsupported('raise')

    def s_Try(self, s):
        def matches(h, e):
            if h.type is None:
                return True
            ns = [h.type] if not isinstance(h.type, ast.Tuple) \
                else h.type.elts
            for x in ns:
                if not isinstance(x, ast.Name):
                    raise Unsupported('except clause')
                if x.id in EXC_PARENTS.get(e.cls, (e.cls, 'Exception',
                                                   'BaseException')):
                    return True
            return False
        try:
            try:
                self.block(s.body)
            except PyExc as e:
                for h in s.handlers:
                    if matches(h, e):
                        if h.name:
                            self.st.env[h.name] = Exc(e.cls)
                        old = self.st.env.get('__exc__')
                        self.st.env['__exc__'] = e
                        self.block(h.body)
                        if old is None:
                            self.st.env.pop('__exc__', None)
                        break
                else:
                    raise
            else:
                self.block(s.orelse)
        finally:
            if s.finalbody:
                self.block(s.finalbody)

    def s_FunctionDef(self, s):
        self.st.env[s.name] = Fn('closure', node=s, env=None,
                                 owner=self.stack[-1])

    def call_closure(self, f, args, kw):
        from .front import Func
        g = Func(f.owner.mod, None, f.node)
        outer = dict(self.st.env) if f.env is None else f.env
        env = self.bind(g, None, args, kw)
        save = self.st.env
        e2 = dict(outer)
        e2.update(env)
        self.st.env = e2
        self.stack.append(f.owner)
        try:
            self.block(f.node.body)
            r = None
        except ReturnEx as e:
            r = e.v
        finally:
            self.stack.pop()
            self.st.env = save
        return r

    def s_For(self, s):
        it = self.ev(s.iter)
        h = getattr(self.deref(it), 'for_hook', None)
        if h is not None:
            return h(self, s)
        h = self.fors.get(self.stack[-1].qual)
        if h is not None:
            return h(self, s, it)
        L.exec_for(self, s, it)

    def s_While(self, s):
        f = self.stack[-1]
        h = self.whiles.get(f.qual) or self.whiles.get('*')
        if h is None:
            return L.unroll_while(self, s)
        h(self, s)

    def s_With(self, s):
        raise Unsupported('with')

    # ------------------------------------------------------------- lists
    def list_append(self, v, x):
        v = self.deref(v)
        h = getattr(v, 'py_append', None)
        if h:
            return h(self, x)
        r = self.rec(v)
        if not isinstance(r, RecList) or v.oid in self.frozen:
            raise Unsupported('append')
        self.st.heap[v.oid] = RecList(r.parts + (Seg('one', x),))

    def dict_update(self, d, src):
        d, src = self.deref(d), self.deref(src)
        rs = self.rec(src) if isinstance(src, Obj) else None
        if isinstance(rs, RecC):
            for k, v in rs.items.items():
                self.setitem(d, k, v)
            return
        if isinstance(src, Key):
            has, val = (lambda x: dhas(src.e, x)), \
                (lambda x: dval(src.e, x))
        elif isinstance(rs, RecComp) and rs.kind == 'kk':
            has, val = rs.comps['has'], rs.comps['val']
        else:
            raise Unsupported('dict update')
        r = self.rec(d)
        if isinstance(r, RecC):
            if r.items:
                self.widen(d, r)
            else:
                self.st.heap[d.oid] = RecComp(empty_comps('kk'), 'kk')
            r = self.rec(d)
        if r.kind != 'kk':
            raise Unsupported('dict update')
        h0, v0 = r.comps['has'], r.comps['val']
        self.st.heap[d.oid] = r.upd(
            has=lambda x: Or(h0(x), has(x)),
            val=lambda x: ite(has(x), val(x), v0(x)))


def cdict(I, items):
    """the value of a dict with these constant keys"""
    ks = sorted(items)
    vs = [I.key(items[k]) for k in ks]
    d = fn('dict{%s}' % ','.join(ks), *([K] * (len(ks) + 1)))(*vs)
    I.st.assume(isdict(d))
    for k, v in zip(ks, vs):
        I.st.assume(And(dhas(d, kconst(k)), dval(d, kconst(k)) == v))
    return d


def is_zero(e):
    e = lsimp(e)
    return z3.is_rational_value(e) and e.as_fraction() == 0


def own_nodes(fn_):
    """nodes of a function body, nested functions excluded"""
    out, stack = [], list(fn_.body)
    while stack:
        n = stack.pop()
        out.append(n)
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda)):
                stack.append(c)
    return out
