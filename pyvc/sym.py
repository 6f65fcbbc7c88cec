"""Terms: sorts, uninterpreted vocabulary, finite sums and the prover.

All reasoning is over z3 terms.  Sorts: K (python values used as attribute
names, values, labels), R (concept references), T (concept tables seen as a
whole), Real (python int and float, treated as mathematical reals), Bool.
Quantified facts are never given to the solver: they are instantiated over the
ground terms of a query, so every query is quantifier free.
"""
import time
from fractions import Fraction
import z3
from z3 import (And, Or, Not, If, Implies, BoolVal, RealVal, Const, Function,
                RealSort, BoolSort, IntSort, is_app, is_true, is_false,
                simplify, substitute, is_eq, is_and, is_or, is_not)

K = z3.DeclareSort('K')
R = z3.DeclareSort('R')
T = z3.DeclareSort('T')
REAL, BOOL = RealSort(), BoolSort()
TRUE, FALSE = BoolVal(True), BoolVal(False)
ZERO, ONE = RealVal(0), RealVal(1)
NULL = Const('null', R)


WALL = 45       # seconds per solver call (the resource limit comes first)


class Unsupported(Exception):
    """outside the verified subset: a bounded stand-in takes over"""


class Undecided(Exception):
    pass


_fn = {}


def fn(name, *sorts):
    k = (name,) + tuple(s.name() for s in sorts)
    if k not in _fn:
        _fn[k] = Function(name, *sorts)
    return _fn[k]


first = fn('first', K, K)
subs = fn('subscriptable', K, BOOL)
hashable = fn('hashable', K, BOOL)
isbool = fn('isbool', K, BOOL)
isnumt = fn('isNumberType', K, BOOL)
isnan_ = fn('isnan', K, BOOL)
isstr = fn('isstr', K, BOOL)
istup = fn('istup', K, BOOL)
isdict = fn('isdict', K, BOOL)
islist = fn('islist', K, BOOL)
numof = fn('numof', K, REAL)
fromnum = fn('fromnum', REAL, K)
tlen = fn('tlen', K, REAL)
tat = fn('tat', K, REAL, K)
strof = fn('strof', K, K)
dhas = fn('dhas', K, K, BOOL)      # nested dict as a value: key present
dval = fn('dval', K, K, K)         # nested dict as a value: lookup
sqrt_ = fn('sqrt', REAL, REAL)
exp_ = fn('exp', REAL, REAL)
log_ = fn('log', REAL, REAL)
PI = Const('pi', REAL)
C4 = fn('c4tab', REAL, REAL)
# corrected deviation of a summary (n, s1, s2); defined in units_cv.std_def
STD = fn('cvstd', REAL, REAL, REAL, REAL)
strcat = fn('strcat', K, K, K)

_consts = {}       # python value -> K const
_const_of = {}     # name -> python value


def kconst(v):
    key = (type(v).__name__, v)
    if key not in _consts:
        name = 'k!%d!%s' % (len(_consts), v)
        c = Const(name, K)
        _consts[key] = c
        _const_of[c.get_id()] = v
        _keep.append(c)
    return _consts[key]


_keep = []
KNONE = kconst(None)

_tupf = {}


def tupf(n):
    if n not in _tupf:
        _tupf[n] = Function('tup%d' % n, *([K] * n + [K]))
    return _tupf[n]


_counter = [0]


def fresh(prefix, sort, binders=()):
    _counter[0] += 1
    name = '%s!%d' % (prefix, _counter[0])
    if binders:
        f = Function(name, *([b.sort() for b in binders] + [sort]))
        return f(*binders)
    return Const(name, sort)


def freshfn(prefix, *sorts):
    _counter[0] += 1
    return Function('%s!%d' % (prefix, _counter[0]), *sorts)


def rv(x):
    """python number -> Real literal"""
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return RealVal(x)
    f = Fraction(x)
    return RealVal(f.numerator) / RealVal(f.denominator) \
        if f.denominator != 1 else RealVal(f.numerator)


def rat(f):
    f = Fraction(f)
    return z3.Q(f.numerator, f.denominator)


# ---------------------------------------------------------------- utilities

class _Info(object):
    __slots__ = ('t', 'ch', 'sn', 'dn', 'kids', 'ax')


_info = {}


def info(t):
    """cached structure of a term (keeps the term alive: ids stay unique)"""
    i = t.get_id()
    r = _info.get(i)
    if r is None:
        r = _Info()
        r.t = t
        r.ch = t.children()
        so = t.sort()
        r.sn = so.name() if so.kind() == z3.Z3_UNINTERPRETED_SORT else None
        r.dn = t.decl().name() if is_app(t) else None
        r.kids = [c.get_id() for c in r.ch]
        r.ax = None
        _info[i] = r
    return r


def subterms(es):
    seen, out, stack = set(), [], list(es)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        n = info(e)
        out.append(n.t)
        for c, k in zip(n.ch, n.kids):
            if k not in seen:
                stack.append(c)
    return out


_contains = {}


def is_ite(t):
    return z3.is_app_of(t, z3.Z3_OP_ITE)


def contains(e, x):
    xi = x.get_id()
    info(x)
    root = e.get_id()
    key = (root, xi)
    if key in _contains:
        return _contains[key]
    info(e)
    seen, stack = set(), [e]
    res = False
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i == xi:
            res = True
            break
        if i in seen:
            continue
        seen.add(i)
        n = info(t)
        if xi in n.kids:
            res = True
            break
        stack.extend(n.ch)
    _contains[key] = res
    return res


def decls_in(e):
    out = set()
    for t in subterms([e]):
        if is_app(t):
            out.add(t.decl().name())
    return out


def rebuild(e, f, cache=None):
    """bottom up rewriting; f(decl, newargs, original) -> term or None"""
    if cache is None:
        cache = {}
    i = e.get_id()
    if i in cache:
        return cache[i][1]
    ch = e.children()
    new = [rebuild(c, f, cache) for c in ch]
    r = f(e.decl(), new, e)
    if r is None:
        if all(a.get_id() == b.get_id() for a, b in zip(ch, new)):
            r = e
        else:
            r = remake(e, new)
    cache[i] = (e, r)
    return r


def remake(e, new):
    k = e.decl().kind()
    if k == z3.Z3_OP_AND:
        return And(*new)
    if k == z3.Z3_OP_OR:
        return Or(*new)
    if k == z3.Z3_OP_ADD:
        r = new[0]
        for t in new[1:]:
            r = r + t
        return r
    if k == z3.Z3_OP_MUL:
        r = new[0]
        for t in new[1:]:
            r = r * t
        return r
    if k == z3.Z3_OP_SUB:
        r = new[0]
        for t in new[1:]:
            r = r - t
        return r
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*new)
    if k == z3.Z3_OP_ITE:
        return If(new[0], new[1], new[2])
    if k == z3.Z3_OP_EQ:
        return new[0] == new[1]
    return e.decl()(*new)


def sub(e, *pairs):
    return substitute(e, *pairs)


def replace_apps(e, table):
    """table: decl name -> python function(args) -> term"""
    def f(d, new, o):
        h = table.get(d.name())
        if h is not None:
            return h(*new)
        return None
    return rebuild(e, f)


def conj(xs):
    xs = [x for x in xs if not is_true(x)]
    if not xs:
        return TRUE
    return xs[0] if len(xs) == 1 else And(*xs)


def disj(xs):
    xs = [x for x in xs if not is_false(x)]
    if not xs:
        return FALSE
    return xs[0] if len(xs) == 1 else Or(*xs)


def ite(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if a.get_id() == b.get_id():
        return a
    return If(c, a, b)


# --------------------------------------------------------------------- sums

class SumAtom(object):
    def __init__(self, decl, x, params, guard, mono):
        self.decl, self.x, self.params = decl, x, params
        self.guard, self.mono = guard, mono

    def at(self, args, t):
        """(guard, mono) for the given parameters at element t"""
        ps = list(zip(self.params, args)) + [(self.x, t)]
        return sub(self.guard, *ps), sub(self.mono, *ps)


SUMS = {}           # decl name -> SumAtom
_sumkeys = {}
_bound = {}


def bound(sort):
    """canonical bound variable of a sort"""
    n = sort.name()
    if n not in _bound:
        _bound[n] = Const('bnd!' + n, sort)
    return _bound[n]


def _poly(e, x, budget):
    """expand e (Real) -> list of (literal set guard polynomial ignored here)
    returns list of (conds, coeff, atoms)"""
    if budget[0] <= 0:
        raise Unsupported('sum too large')
    budget[0] -= 1
    if not contains(e, x):
        return [((), e, ())]
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_ADD:
        out = []
        for c in ch:
            out += _poly(c, x, budget)
        return out
    if k == z3.Z3_OP_SUB:
        out = list(_poly(ch[0], x, budget))
        for c in ch[1:]:
            out += [(g, -co, a) for g, co, a in _poly(c, x, budget)]
        return out
    if k == z3.Z3_OP_UMINUS:
        return [(g, -co, a) for g, co, a in _poly(ch[0], x, budget)]
    if k == z3.Z3_OP_MUL:
        out = [((), ONE, ())]
        for c in ch:
            p = _poly(c, x, budget)
            out = [(g1 + g2, mul(c1, c2), a1 + a2)
                   for g1, c1, a1 in out for g2, c2, a2 in p]
        return out
    if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
        n = ch[1].as_fraction()
        if n.denominator == 1 and 0 < n <= 4:
            e2 = ch[0]
            for _ in range(int(n) - 1):
                e2 = e2 * ch[0]
            return _poly(e2, x, budget)
    if k == z3.Z3_OP_DIV:
        num = _poly(ch[0], x, budget)
        if not contains(ch[1], x):
            return [(g, c / ch[1], a) for g, c, a in num]
        # a product in the denominator: pull the x-free factors out
        den = ch[1]
        free, dep = [], []
        st = [den]
        while st:
            d = st.pop()
            if d.decl().kind() == z3.Z3_OP_MUL:
                st.extend(d.children())
            elif contains(d, x):
                dep.append(d)
            else:
                free.append(d)
        dep.sort(key=lambda t: t.sexpr())
        inv = ONE
        for d in dep:
            inv = inv * d if inv is not ONE else d
        inv = ONE / inv
        out = []
        for g, c, a in num:
            for d in free:
                c = c / d
            out.append((g, c, a + (inv,)))
        return out
    if k == z3.Z3_OP_ITE:
        c, a, b = ch
        pa, pb = _poly(a, x, budget), _poly(b, x, budget)
        if not contains(c, x):
            return [(g, ite(c, co, ZERO), t) for g, co, t in pa] + \
                   [(g, ite(c, ZERO, co), t) for g, co, t in pb]
        return [(g + (c,), co, t) for g, co, t in pa] + \
               [(g + (Not(c),), co, t) for g, co, t in pb]
    return [((), ONE, (e,))]


def mul(a, b):
    if z3.is_rational_value(a) and z3.is_rational_value(b):
        return rat(a.as_fraction() * b.as_fraction())
    if a.get_id() == ONE.get_id():
        return b
    if b.get_id() == ONE.get_id():
        return a
    return a * b


def _guardpoly(g, x):
    """boolean g -> list of (sign coefficient expr x-free, frozenset of
    positive literals containing x)"""
    if not contains(g, x):
        return [(ite(g, ONE, ZERO), ())]
    k = g.decl().kind()
    ch = g.children()
    if k == z3.Z3_OP_NOT:
        return _gsimp([(ONE, ())] + [(neg(c), l)
                                     for c, l in _guardpoly(ch[0], x)])
    if k == z3.Z3_OP_AND:
        out = [(ONE, ())]
        for c in ch:
            p = _guardpoly(c, x)
            out = _gsimp([(mul(c1, c2), l1 + l2)
                          for c1, l1 in out for c2, l2 in p])
        return out
    if k == z3.Z3_OP_OR:
        return _guardpoly(Not(And(*[Not(c) for c in ch])), x)
    if k == z3.Z3_OP_IMPLIES:
        return _guardpoly(Or(Not(ch[0]), ch[1]), x)
    if k == z3.Z3_OP_ITE:
        c, a, b = ch
        return _guardpoly(Or(And(c, a), And(Not(c), b)), x)
    if k == z3.Z3_OP_EQ and z3.is_bool(ch[0]):
        a, b = ch
        return _guardpoly(Or(And(a, b), And(Not(a), Not(b))), x)
    return [(ONE, (g,))]


def neg(c):
    if z3.is_rational_value(c):
        return rat(-c.as_fraction())
    return -c


def _gsimp(terms):
    acc, order = {}, []
    for c, lits in terms:
        d = {}
        for l in lits:
            d[l.get_id()] = l
        key = tuple(sorted(d))
        if key not in acc:
            acc[key] = [[], tuple(d[i] for i in key)]
            order.append(key)
        acc[key][0].append(c)
    out = []
    for key in order:
        cs, lits = acc[key]
        if all(z3.is_rational_value(c) for c in cs):
            s = rat(sum((c.as_fraction() for c in cs), Fraction(0)))
            if s.as_fraction() == 0:
                continue
        else:
            s = cs[0]
            for c in cs[1:]:
                s = s + c
        out.append((s, lits))
    return out


def _find_eq(es, x):
    for t in subterms(es):
        if is_eq(t):
            a, b = t.children()
            if a.get_id() == x.get_id() and not contains(b, x):
                return t, b
            if b.get_id() == x.get_id() and not contains(a, x):
                return t, a
    return None


def lsimp(e):
    """light simplification that keeps the arithmetic shape"""
    def f(d, new, o):
        k = d.kind()
        if k == z3.Z3_OP_NOT:
            a = new[0]
            if is_true(a):
                return FALSE
            if is_false(a):
                return TRUE
            if is_not(a):
                return a.children()[0]
        elif k == z3.Z3_OP_AND:
            out = []
            for a in new:
                if is_false(a):
                    return FALSE
                if is_true(a):
                    continue
                out += a.children() if is_and(a) else [a]
            seen, o2 = set(), []
            for a in out:
                if a.get_id() not in seen:
                    seen.add(a.get_id())
                    o2.append(a)
            return conj(o2)
        elif k == z3.Z3_OP_OR:
            out = []
            for a in new:
                if is_true(a):
                    return TRUE
                if is_false(a):
                    continue
                out += a.children() if is_or(a) else [a]
            seen, o2 = set(), []
            for a in out:
                if a.get_id() not in seen:
                    seen.add(a.get_id())
                    o2.append(a)
            return disj(o2)
        elif k == z3.Z3_OP_DISTINCT and len(new) == 2:
            q = lsimp(new[0] == new[1])
            return lsimp(Not(q)) if is_true(q) or is_false(q) else Not(q)
        elif k == z3.Z3_OP_IMPLIES:
            a, b = new
            if is_false(a) or is_true(b):
                return TRUE
            if is_true(a):
                return b
            if is_false(b):
                return lsimp(Not(a))
        elif k == z3.Z3_OP_EQ:
            a, b = new
            if a.get_id() == b.get_id():
                return TRUE
            va, vb = const_value(a), const_value(b)
            if va is not _NO and vb is not _NO and a.sort().eq(K):
                return BoolVal(type(va) is type(vb) and va == vb)
            if z3.is_rational_value(a) and z3.is_rational_value(b):
                return BoolVal(a.as_fraction() == b.as_fraction())
            if z3.is_bool(a):
                if is_true(a):
                    return b
                if is_true(b):
                    return a
                if is_false(a):
                    return lsimp(Not(b))
                if is_false(b):
                    return lsimp(Not(a))
        elif k == z3.Z3_OP_ITE:
            c, a, b = new
            if is_true(c):
                return a
            if is_false(c):
                return b
            if a.get_id() == b.get_id():
                return a
            if is_not(c):
                return ite(c.children()[0], b, a)
            if z3.is_bool(a):
                if is_true(a) and is_false(b):
                    return c
                if is_false(a) and is_true(b):
                    return Not(c)
                if is_true(a):
                    return Or(c, b)
                if is_false(b):
                    return And(c, a)
                if is_false(a):
                    return And(Not(c), b)
                if is_true(b):
                    return Or(Not(c), a)
        elif k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_DIV,
                   z3.Z3_OP_UMINUS):
            if all(z3.is_rational_value(a) for a in new):
                v = [a.as_fraction() for a in new]
                if k == z3.Z3_OP_ADD:
                    return rat(sum(v))
                if k == z3.Z3_OP_MUL:
                    p = Fraction(1)
                    for q in v:
                        p *= q
                    return rat(p)
                if k == z3.Z3_OP_SUB:
                    p = v[0]
                    for q in v[1:]:
                        p -= q
                    return rat(p)
                if k == z3.Z3_OP_UMINUS:
                    return rat(-v[0])
                if k == z3.Z3_OP_DIV and v[1] != 0:
                    return rat(v[0] / v[1])
            if k == z3.Z3_OP_ADD:
                o2 = [a for a in new if not _isz(a)]
                if len(o2) != len(new):
                    if not o2:
                        return ZERO
                    r = o2[0]
                    for t in o2[1:]:
                        r = r + t
                    return r
            if k == z3.Z3_OP_MUL:
                if any(_isz(a) for a in new):
                    return ZERO
                o2 = [a for a in new if not _is1(a)]
                if len(o2) != len(new):
                    if not o2:
                        return ONE
                    r = o2[0]
                    for t in o2[1:]:
                        r = r * t
                    return r
            if k == z3.Z3_OP_SUB and len(new) == 2 and _isz(new[1]):
                return new[0]
            if k == z3.Z3_OP_SUB and len(new) == 2 and \
                    new[0].get_id() == new[1].get_id():
                return ZERO
            if k == z3.Z3_OP_DIV and _is1(new[1]):
                return new[0]
            if k == z3.Z3_OP_DIV and _isz(new[0]):
                return ZERO
        elif k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            if all(z3.is_rational_value(a) for a in new):
                a, b = [q.as_fraction() for q in new]
                return BoolVal({z3.Z3_OP_LE: a <= b, z3.Z3_OP_LT: a < b,
                                z3.Z3_OP_GE: a >= b, z3.Z3_OP_GT: a > b}[k])
        return None
    if len(_LS) > 400000:
        _LS.clear()
    return rebuild(e, f, _LS)


_LS = {}


def _isz(a):
    return z3.is_rational_value(a) and a.as_fraction() == 0


def _is1(a):
    return z3.is_rational_value(a) and a.as_fraction() == 1


_NO = object()


def const_value(t):
    return _const_of.get(t.get_id(), _NO)


NONNEG = []         # (sum atom names, formula): sums of squares


def _square(e):
    if is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return _square(e.children()[1]) and _square(e.children()[2])
    if z3.is_rational_value(e):
        return e.as_fraction() >= 0
    if is_app(e) and e.decl().kind() == z3.Z3_OP_MUL:
        ids = [c.get_id() for c in e.children()
               if not (z3.is_rational_value(c) and c.as_fraction() >= 0)]
        return len(ids) % 2 == 0 and all(ids.count(i) % 2 == 0 for i in ids)
    return False


def mksum(x, guard, body):
    r = _mksum(x, guard, body)
    if not _isz(r) and not is_app_sum(r) and _square(lsimp(body)):
        nm = frozenset(t.decl().name() for t in subterms([r])
                       if is_app(t) and t.decl().name() in SUMS)
        if nm and all(not t.children() or True for t in [r]):
            NONNEG.append((nm, r >= 0))
    return r


def is_app_sum(r):
    return is_app(r) and r.decl().name() in SUMS


def _mksum(x, guard, body):
    """sum of body over all x with guard (guard implies a finite domain)"""
    guard, body = lsimp(guard), lsimp(body)
    if is_false(guard) or _isz(body):
        return ZERO
    eq = _find_eq([guard, body], x)
    if eq is not None:
        t, v = eq
        gf, bf = lsimp(sub(guard, (t, FALSE))), lsimp(sub(body, (t, FALSE)))
        gt, bt = lsimp(sub(guard, (x, v))), lsimp(sub(body, (x, v)))
        gft, bft = lsimp(sub(gf, (x, v))), lsimp(sub(bf, (x, v)))
        rest = _mksum(x, gf, bf)
        return lsimp(ite(gt, bt, ZERO) - ite(gft, bft, ZERO) + rest)
    total = {}
    for conds, coeff, atoms in _poly(body, x, [400]):
        g = lsimp(And(guard, *conds)) if conds else guard
        if is_false(g):
            continue
        for sgn, lits in _guardpoly(g, x):
            d = {l.get_id(): l for l in lits}
            lits = sorted(d.values(), key=lambda t: t.sexpr())
            ats = sorted(atoms, key=lambda t: t.sexpr())
            if not lits:
                raise Unsupported('sum without a finite domain')
            app = _atom(x, lits, ats)
            key = app.get_id()
            total.setdefault(key, [app, []])[1].append(
                lsimp(mul(sgn, coeff)))
    out = []
    for app, cs in total.values():
        c = cs[0]
        for d in cs[1:]:
            c = c + d
        c = simplify(c) if len(cs) > 1 else c
        if _isz(c):
            continue
        out.append(app if _is1(c) else c * app)
    if not out:
        return ZERO
    r = out[0]
    for t in out[1:]:
        r = r + t
    return r


def _atom(x, lits, ats):
    b = bound(x.sort())
    guard = sub(conj(lits), (x, b))
    mono = ONE
    for a in ats:
        a = sub(a, (x, b))
        mono = a if mono is ONE else mono * a
    ps, seen = [], set()
    for t in _ordered_consts(guard) + _ordered_consts(mono):
        if t.get_id() in seen or t.get_id() == b.get_id():
            continue
        seen.add(t.get_id())
        ps.append(t)
    canon = [Const('par!%d!%s' % (i, p.sort().name()), p.sort())
             for i, p in enumerate(ps)]
    g2, m2 = sub(guard, *zip(ps, canon)), sub(mono, *zip(ps, canon))
    key = (g2.sexpr(), m2.sexpr(), x.sort().name())
    if key not in _sumkeys:
        name = 'SUM!%d' % len(_sumkeys)
        decl = Function(name, *([p.sort() for p in ps] + [REAL])) \
            if ps else None
        at = SumAtom(decl, b, canon, g2, m2)
        at.name = name
        at.const = Const(name, REAL) if decl is None else None
        _sumkeys[key] = at
        SUMS[name] = at
    at = _sumkeys[key]
    return at.decl(*ps) if at.decl is not None else at.const


def _ordered_consts(e):
    """free 0-ary symbols of e in order, except interned constants"""
    out, seen = [], set()

    def go(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        ch = t.children()
        if not ch:
            if is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                    t.get_id() not in _const_of and \
                    t.get_id() != NULL.get_id() and \
                    t.get_id() != PI.get_id():
                out.append(t)
            return
        for c in ch:
            go(c)
    go(e)
    return out


# ------------------------------------------------------------------- prover

class Fact(object):
    """for all terms of the given sorts: f.  trig(terms, by sort) lists the
    tuples worth instantiating; sums: only used with sum reasoning"""
    def __init__(self, name, sorts, f, trig=None, sums=False, pats=None,
                 defn=False):
        self.name, self.sorts, self.f, self.trig = name, sorts, f, trig
        self.sums = sums
        self.pats = pats        # variables -> terms that trigger it
        self.defn = defn        # defines a function: holds unconditionally
        self._pv = None
        if pats is None and trig is not None and hasattr(trig, 'decls'):
            ds = [d for d in trig.decls if d.arity() == len(sorts)]
            self.pats = (lambda *v: [d(*v) for d in ds]) if ds else None

    def matches(self, ts, by):
        """argument tuples from the terms that match a pattern"""
        if self._pv is None:
            vs = [fresh('pv', s) for s in self.sorts]
            self._pv = (vs, self.pats(*vs))
        vs, pts = self._pv
        ids = {v.get_id(): i for i, v in enumerate(vs)}
        out, seen = [], set()
        heads = {}
        for t in ts:
            heads.setdefault(info(t).dn, []).append(t)
        for p in pts:
            bs = [{}]
            for q in (p if isinstance(p, tuple) else (p,)):
                new, got = [], set()
                for b in bs:
                    for t in heads.get(info(q).dn, ()):
                        c = dict(b)
                        if _match(q, t, ids, c):
                            c = {i: u for i, u in c.items()
                                 if isinstance(i, int)}
                            k = tuple(sorted((i, u.get_id())
                                             for i, u in c.items()))
                            if k not in got:
                                got.add(k)
                                new.append(c)
                bs = new
            for b in bs:
                free = [i for i in range(len(vs)) if i not in b]
                for c in (_product([by.get(self.sorts[i].name(), [])
                                    for i in free]) if free else [()]):
                    m = dict(b)
                    m.update(zip(free, c))
                    tup = tuple(m[i] for i in range(len(vs)))
                    k = tuple(x.get_id() for x in tup)
                    if k not in seen:
                        seen.add(k)
                        out.append(tup)
        return out


def _match(p, t, ids, b):
    i = ids.get(p.get_id())
    if i is not None:
        if i in b:
            return b[i].get_id() == t.get_id()
        b[i] = t
        return True
    if p.get_id() == t.get_id():
        return True
    a, c = info(p), info(t)
    if a.dn is not None and a.dn.startswith('wild!'):
        w = b.setdefault(a.dn, t)
        return w.get_id() == t.get_id()
    if a.dn is None or a.dn != c.dn or len(a.ch) != len(c.ch) or not a.ch:
        return False
    return all(_match(x, y, ids, b) for x, y in zip(a.ch, c.ch))


def on_apps(*decls):
    """trigger: argument tuples of applications of these functions"""
    names = set(d.name() for d in decls)

    def trig(ts, by):
        out, seen = [], set()
        for t in ts:
            n = info(t)
            if n.dn in names:
                k = tuple(n.kids)
                if k not in seen:
                    seen.add(k)
                    out.append(tuple(n.ch))
        return out
    trig.decls = decls
    return trig


def on_arg(i, *decls):
    """trigger: the i-th argument of applications of these functions"""
    names = set(d.name() for d in decls)

    def trig(ts, by):
        out, seen = [], set()
        for t in ts:
            n = info(t)
            if n.dn in names and n.kids[i] not in seen:
                seen.add(n.kids[i])
                out.append((n.ch[i],))
        return out
    return trig


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.sympy = 0


STATS = Stats()


VOCAB = set(d.name() for d in (
    first, subs, hashable, isbool, isnumt, isnan_, isstr, istup, isdict,
    islist, numof, tlen, tat, strof, dhas, dval))


def _base_axioms(terms):
    """instances of the vocabulary's axioms for the ground terms at hand"""
    out = []
    kc = []
    want = {}
    for t in terms:
        n = info(t)
        i = t.get_id()
        if n.sn == 'K':
            if i in _const_of:
                kc.append(t)
                want[i] = t
            elif n.dn in ('fromnum', 'strof', 'strcat') or \
                    n.dn.startswith('tup'):
                want[i] = t
        elif n.sn is None:
            if n.dn in ('sqrt', 'exp', 'c4tab', 'mod!', 'pi', 'cvstd'):
                want[i] = t
        if n.dn in VOCAB and n.ch:
            c = n.ch[0]
            want[c.get_id()] = c
    if len(kc) > 1:
        out.append(z3.Distinct(*kc))
    for i, t in want.items():
        n = info(t)
        if n.ax is None:
            n.ax = _term_axioms([t])
        out += n.ax
    return out


def _term_axioms(terms):
    out = []
    for t in terms:
        i = t.get_id()
        s = t.sort()
        if s.eq(K):
            v = const_value(t)
            if v is not _NO:
                out.append(hashable(t))
                out.append(isstr(t) if isinstance(v, str) else Not(isstr(t)))
                out.append(isbool(t) if isinstance(v, bool)
                           else Not(isbool(t)))
                num = isinstance(v, (int, float))
                out.append(isnumt(t) if num else Not(isnumt(t)))
                if num:
                    out.append(numof(t) == rv(v))
                    out.append(Not(isnan_(t)))
                out.append(istup(t) if isinstance(v, tuple)
                           else Not(istup(t)))
                out.append(Not(isdict(t)))
                out.append(Not(islist(t)))
                if isinstance(v, str) and v:
                    out.append(subs(t))
                    out.append(first(t) == kconst(v[0]))
                    out.append(tlen(t) == len(v))
                elif isinstance(v, str) or v is None or num:
                    out.append(Not(subs(t)))
                    if isinstance(v, str):
                        out.append(tlen(t) == 0)
            else:
                out.append(Implies(isbool(t), isnumt(t)))
                kinds = [isnumt(t), isstr(t), istup(t), isdict(t), islist(t)]
                for a in range(len(kinds)):
                    for b in range(a + 1, len(kinds)):
                        out.append(Or(Not(kinds[a]), Not(kinds[b])))
                out.append(Implies(isnan_(t), isnumt(t)))
                out.append(Implies(isnumt(t), And(hashable(t),
                                                  Not(subs(t)))))
                out.append(Implies(isstr(t), hashable(t)))
                out.append(Implies(isdict(t), Not(hashable(t))))
                out.append(Implies(islist(t), Not(hashable(t))))
                out.append(Implies(And(istup(t), hashable(t), subs(t)),
                                   hashable(first(t))))
                out.append(Implies(Or(istup(t), isstr(t)),
                                   And(subs(t) == (tlen(t) > 0),
                                       tlen(t) >= 0)))
                if is_app(t):
                    n = t.decl().name()
                    if n.startswith('tup') and n[3:].isdigit():
                        ch = t.children()
                        out.append(istup(t))
                        out.append(tlen(t) == len(ch))
                        if ch:
                            out.append(first(t) == ch[0])
                        for j, c in enumerate(ch):
                            out.append(tat(t, rv(j)) == c)
                    elif n == 'fromnum':
                        out.append(isnumt(t))
                        out.append(Not(isbool(t)))
                        out.append(Not(isnan_(t)))
                        out.append(numof(t) == t.children()[0])
                    elif n == 'strof' or n == 'strcat':
                        out.append(isstr(t))
                    if n == 'strof':
                        a = t.children()[0]
                        out.append(Implies(isstr(a), t == a))
        elif is_app(t):
            n = t.decl().name()
            if n == 'sqrt':
                a = t.children()[0]
                out.append(t >= 0)
                out.append(Implies(a >= 0, t * t == a))
                out.append(Implies(a > 0, t > 0))
            elif n == 'exp':
                out.append(t > 0)
            elif n == 'cvstd':
                # proved from the definition by unit cv.std_view
                a, b, c = t.children()
                out.append(t >= 0)
                out.append(Implies(a < 2, t == 0))
                out.append(Implies(And(a >= 2, t == 0, a * c >= b * b),
                                   a * c == b * b))
                out.append(Implies(And(a >= 2, a * c == b * b), t == 0))
            elif n == 'c4tab':
                out.append(And(t > 0, t <= 1))
            elif i == PI.get_id():
                out.append(And(t > z3.Q(314, 100), t < z3.Q(315, 100)))
            elif n == 'mod!':
                a, b = t.children()
                out.append(Implies(b > 0, And(t >= 0, t < b)))
    return out


class Prover(object):
    def __init__(self, rlimit=4000000, deep=True):
        self.rlimit = rlimit
        self.cache = {}
        self.icache = {}
        self.nest = 0
        self.patterns = False
        self.ikeep = []

    def ground(self, forms):
        return subterms(forms)

    def inst(self, forms, facts, done, budget, withsums):
        """one round of instantiation"""
        ts = subterms(forms)
        by = {}
        for t in ts:
            sn = info(t).sn
            if sn is not None:
                by.setdefault(sn, []).append(t)
        new = []
        for f in facts:
            if f.sums and not withsums:
                continue
            if f.trig is not None:
                combos = f.trig(ts, by)
            elif f.pats is not None and (self.patterns or
                                         len(f.sorts) > 3):
                combos = f.matches(ts, by)
            elif self.patterns and len(f.sorts) > 1:
                continue        # only by name, in this attempt
            else:
                combos = _product([by.get(s.name(), []) for s in f.sorts])
            for c in combos:
                key = (id(f),) + tuple(t.get_id() for t in c)
                if key in done:
                    continue
                done.add(key)
                budget[0] -= 1
                if budget[0] < 0:
                    return new
                ck = key
                g = self.icache.get(ck)
                if g is None:
                    g = f.f(*c)
                    self.icache[ck] = g
                    self.ikeep.append((f, c))
                if not is_true(g):
                    new.append(g)
        return new

    def prepare(self, forms, facts, rounds=2, sums=True, depth=0, maxinst=6000):
        """forms + instances of facts, axioms and sum lemmas"""
        forms = list(forms)
        done = set()
        budget = [maxinst]
        ws = sums and any(info(t).dn in SUMS for t in subterms(forms))
        for rnd in range(rounds):
            new = self.inst(forms, facts, done, budget, ws)
            if not new:
                break
            forms += new
        if ws:
            ts = subterms(forms)
            here = set(info(t).dn for t in ts if info(t).dn in SUMS)
            ids = set(t.get_id() for t in ts)
            for nm, q in NONNEG[-60:]:
                if nm <= here and all(
                        u.get_id() in ids for u in subterms([q])
                        if info(u).dn in SUMS):
                    forms.append(q)
            lem = self.sum_lemmas(ts, forms, facts, depth)
            if lem:
                forms += lem
                if depth == 0:
                    # one more round for terms the lemmas brought in
                    forms += self.inst(forms, facts, done, budget, ws)
        forms += _base_axioms(subterms(forms))
        return forms

    def sum_lemmas(self, ts, forms, facts, depth):
        if depth > 1:
            return []
        out = []
        apps = [t for t in ts if info(t).dn in SUMS]
        if not apps:
            return out
        base = [f for f in forms]
        rows = []
        wits = {}
        for a in apps:
            # a non-zero sum has a member
            at = SUMS[a.decl().name()]
            w = fresh('w', at.x.sort())
            gw, mw = at.at(a.children(), w)
            out.append(Or(a == 0, gw))
            wits.setdefault(at.x.sort().name(), []).append(w)
        for a in apps:
            at = SUMS[a.decl().name()]
            args = a.children()
            y = Const('y!' + at.x.sort().name(), at.x.sort())
            g, m = at.at(args, y)
            nn = self.pointwise(base, facts, And(g), m >= 0, depth, y)
            rows.append((a, at, args, nn))
            if nn:
                out.append(a >= 0)
            pool = [t for t in ts if t.sort().eq(at.x.sort())
                    and t.get_id() != y.get_id()]
            for t in pool[:40] + wits[at.x.sort().name()][:6]:
                gt, mt = at.at(args, t)
                if nn:
                    out.append(Implies(gt, a >= mt))
            if nn:
                small = pool[:25] if _is1(m) else pool[:10]
                for i, t in enumerate(small):
                    for u in small[i + 1:]:
                        gt, mt = at.at(args, t)
                        gu, mu = at.at(args, u)
                        out.append(Implies(And(gt, gu, t != u),
                                           a >= mt + mu))
        for i in range(len(rows)):
            a, at, args, nn = rows[i]
            for j in range(len(rows)):
                if i == j:
                    continue
                b, bt, bargs, nb = rows[j]
                if not at.x.sort().eq(bt.x.sort()):
                    continue
                y = Const('y!' + at.x.sort().name(), at.x.sort())
                ga, ma = at.at(args, y)
                gb, mb = bt.at(bargs, y)
                ea = ite(ga, ma, ZERO)
                eb = ite(gb, mb, ZERO)
                if i < j and self.pointwise(base, facts, TRUE, ea == eb,
                                            depth, y):
                    out.append(a == b)
                elif self.pointwise(base, facts, TRUE, ea <= eb, depth, y):
                    out.append(a <= b)
                    # ... and so do the sums without one element
                    pool = [t for t in ts if t.sort().eq(at.x.sort())
                            and t.get_id() != y.get_id()]
                    for t in pool[:12]:
                        out.append(a - sub(ea, (y, t)) <=
                                   b - sub(eb, (y, t)))
        # sum of squares
        for a, at, args, nn in rows:
            y = bound(at.x.sort())
            m = at.mono
            if m.decl().kind() == z3.Z3_OP_MUL:
                f = m.children()
                if len(f) == 2 and f[0].get_id() == f[1].get_id():
                    s = mksum(y, at.guard, f[0])
                    s = sub(s, *zip(at.params, args)) if at.params else s
                    yy = Const('y!' + at.x.sort().name(), at.x.sort())
                    g, _ = at.at(args, yy)
                    base_m = sub(f[0], *(list(zip(at.params, args)) +
                                         [(at.x, yy)]))
                    if self.pointwise(base, facts, g, base_m >= 0, depth, yy):
                        out.append(a <= s * s)
                        out.append(s >= 0)
        return out

    def pointwise(self, base, facts, guard, goal, depth, y):
        goal = lsimp(goal)
        if is_true(goal):
            return True
        if z3.is_rational_value(goal):
            return False
        key = (guard.get_id(), goal.get_id(),
               tuple(f.get_id() for f in base), len(facts), depth)
        if key in self.cache:
            return self.cache[key][0]
        rel = base
        fs = self.prepare(rel + [guard, Not(goal)], facts, rounds=1,
                          sums=depth < 1, depth=depth + 1, maxinst=1500)
        r = self.solve(fs, self.rlimit // 8) == z3.unsat
        self.cache[key] = (r, guard, goal, base)
        return r

    def solve(self, forms, rlimit=None, model=False):
        t0 = time.time()
        s = z3.Solver()
        s.set('rlimit', rlimit or self.rlimit)
        s.set('timeout', WALL * 1000)
        s.add(*forms)
        r = s.check()
        STATS.queries += 1
        STATS.time += time.time() - t0
        if r == z3.unknown and time.time() - t0 >= WALL:
            # the machine, not the code: never an alarm
            raise Unsupported('a solver call ran out of wall-clock time')
        if model:
            return r, (s.model() if r == z3.sat else None)
        return r

    def feasible(self, pc, facts, cond):
        """quick check, errs on the side of feasible"""
        fs = self.prepare(list(pc) + [cond], facts, rounds=1, sums=False,
                          maxinst=800)
        return self.solve(fs, 300000) != z3.unsat

    def excludes(self, pc, facts, c, rlimit):
        """pc rules out c"""
        for sums in (False, True):
            fs = self.prepare(list(pc) + [c], facts, rounds=2, sums=sums)
            if self.solve(fs, rlimit) == z3.unsat:
                return True
        return False

    def valid(self, pc, facts, goal):
        """(proved?, status text)"""
        goal = lsimp(goal)
        if is_true(goal):
            return True, 'trivial'
        goals = []
        _split_goal(goal, [], goals)
        for hyp, g in goals:
            ok, why = self._valid1(list(pc) + hyp, facts, g)
            if not ok:
                return False, why
        return True, why if goals else 'trivial'

    def _valid1(self, pc, facts, goal):
        neg = lsimp(Not(goal))
        if any(f.pats is not None and f.trig is None for f in facts):
            size = -1
            for rounds in (1, 2, 3, 4):
                self.patterns = True
                try:
                    fs = self.prepare(pc + [neg], facts, rounds=rounds,
                                      sums=False)
                finally:
                    self.patterns = False
                if len(fs) == size or (len(fs) > 12000 and rounds > 1):
                    break
                size = len(fs)
                if self.solve(fs, self.rlimit // 4) == z3.unsat:
                    return True, 'z3'
        # without sum lemmas first, then with
        fs = self.prepare(pc + [neg], facts, rounds=2, sums=False)
        iseq = is_eq(goal) and goal.children()[0].sort().eq(REAL)
        r = self.solve(fs, self.rlimit // (20 if iseq else 4))
        if r == z3.unsat:
            return True, 'z3'
        if is_eq(goal) and goal.children()[0].sort().eq(REAL):
            if rational_identity(goal, pc, facts, self):
                return True, 'normal form'
            r = self.solve(fs, self.rlimit // 4)
            if r == z3.unsat:
                return True, 'z3'
        has = any(is_app(t) and t.decl().name() in SUMS
                  for t in subterms(fs))
        if has:
            fs = self.prepare(pc + [neg], facts, rounds=2, sums=True)
            r = self.solve(fs, self.rlimit)
            if r == z3.unsat:
                return True, 'z3+sum lemmas'
        elif r == z3.unknown:
            r = self.solve(fs, self.rlimit * 2)
            if r == z3.unsat:
                return True, 'z3'
        return False, str(r)


def _split_goal(g, hyp, out):
    if is_and(g):
        known = []
        for c in g.children():
            _split_goal(c, hyp + known, out)
            if is_app(c) and c.num_args() and \
                    c.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                known = known + [c]     # shown before what follows
    elif z3.is_app_of(g, z3.Z3_OP_IMPLIES):
        a, b = g.children()
        _split_goal(b, hyp + [a], out)
    elif is_eq(g) and z3.is_bool(g.children()[0]):
        a, b = g.children()
        _split_goal(b, hyp + [a], out)
        _split_goal(a, hyp + [b], out)
    else:
        out.append((hyp, g))


def _product(pools):
    out = [()]
    for p in pools:
        out = [o + (t,) for o in out for t in p]
        if len(out) > 20000:
            break
    return out


# ---------------------------------------------- identities by normalisation

def _find_ite(e):
    for t in subterms([e]):
        if is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            c = t.children()[0]
            if not any(u.decl().kind() == z3.Z3_OP_ITE
                       for u in subterms([c]) if is_app(u)):
                return c
    return None


def _back(e, syms):
    """sympy polynomial -> z3"""
    import sympy
    if e.is_Rational:
        return z3.Q(int(e.p), int(e.q))
    if e.is_Symbol:
        return syms[e]
    if e.is_Add or e.is_Mul:
        r = None
        for a in e.args:
            t = _back(a, syms)
            r = t if r is None else (r + t if e.is_Add else r * t)
        return r
    if e.is_Pow and e.exp.is_Integer and 0 < int(e.exp) <= 8:
        b = _back(e.base, syms)
        r = b
        for _ in range(int(e.exp) - 1):
            r = r * b
        return r
    raise Unsupported('term')


def _linear_sums(num, names, pc, facts, prover, depth):
    """num is a linear combination of sums over one sort without a rest: it is
    zero when the combined summand is zero for every element"""
    import sympy
    if prover.nest > 3:
        return False
    syms = {s: t for s, t in names.values()}
    groups = {}
    for s, t in names.values():
        at = SUMS.get(info(t).dn)
        if at is not None and num.has(s):
            groups.setdefault(at.x.sort().name(), []).append((s, t, at))
    for g in groups.values():
        try:
            po = sympy.Poly(num, *[s for s, _, _ in g])
        except sympy.PolynomialError:
            continue
        if po.total_degree() > 1 or any(sum(m) == 0 for m, _ in po.terms()):
            continue
        y = fresh('y', g[0][2].x.sort())
        tot = ZERO
        try:
            for m, c in po.terms():
                s, t, at = g[m.index(1)]
                gd, mo = at.at(info(t).ch, y)
                tot = tot + _back(c, syms) * ite(gd, mo, ZERO)
        except Unsupported:
            continue
        prover.nest += 1
        try:
            ok, _ = prover._valid1(list(pc), facts, tot == 0)
        finally:
            prover.nest -= 1
        if ok:
            return True
    return False


def _same_args(t, u, pc, facts, prover, depth):
    prover.nest += 1
    try:
        for a, b in zip(info(t).ch, info(u).ch):
            if a.get_id() == b.get_id():
                continue
            g = lsimp(a == b)
            if is_true(g):
                continue
            if is_false(g) or not is_eq(g):
                return False
            if not rational_identity(g, pc, facts, prover, depth + 1):
                return False
        return True
    finally:
        prover.nest -= 1


def rational_identity(goal, pc, facts, prover, depth=0):
    """a == b: split on conditions, then compare as rational functions, the
    denominators being non-zero under pc"""
    if depth > 24:
        return False
    c = _find_ite(goal)
    if c is not None:
        for val in (TRUE, FALSE):
            lit = c if val is TRUE else Not(c)
            p2 = pc + [lit]
            fs = prover.prepare(p2, facts, rounds=1, sums=False)
            if prover.solve(fs, 300000) == z3.unsat:
                continue
            g2 = lsimp(sub(goal, (c, val)))
            if is_true(g2):
                continue
            if is_false(g2):
                return False
            if not rational_identity(g2, p2, facts, prover, depth + 1):
                return False
        return True
    import sympy
    STATS.sympy += 1
    names, dens = {}, []

    def conv(t):
        if z3.is_rational_value(t):
            f = t.as_fraction()
            return sympy.Rational(f.numerator, f.denominator)
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            return sympy.Add(*[conv(c) for c in ch])
        if k == z3.Z3_OP_MUL:
            return sympy.Mul(*[conv(c) for c in ch])
        if k == z3.Z3_OP_SUB:
            r = conv(ch[0])
            for c in ch[1:]:
                r = r - conv(c)
            return r
        if k == z3.Z3_OP_UMINUS:
            return -conv(ch[0])
        if k == z3.Z3_OP_DIV:
            d = conv(ch[1])
            if not (d.is_number and d != 0):
                dens.append(ch[1])
            return conv(ch[0]) / d
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
            return conv(ch[0]) ** conv(ch[1])
        if t.get_id() not in names:
            names[t.get_id()] = (sympy.Symbol('v%d' % len(names)), t)
        return names[t.get_id()][0]
    try:
        a, b = goal.children()
        num = sympy.numer(sympy.together(conv(a) - conv(b)))
        num = sympy.expand(num)
    except (ZeroDivisionError, RecursionError, AttributeError):
        return False
    if num != 0:
        # equal arguments, equal function values
        fam = {}
        for s, t in list(names.values()):
            if info(t).dn in ('sqrt', 'exp', 'log', 'cvstd'):
                fam.setdefault(info(t).dn, []).append((s, t))
        for l in fam.values():
            reps = []
            for s, t in l:
                for s2, t2 in reps:
                    if prover.nest < 3 and _same_args(
                            t, t2, pc, facts, prover, depth):
                        num = sympy.expand(num.subs(s, s2))
                        break
                else:
                    reps.append((s, t))
    if num != 0:
        # squares of roots: sqrt(a)^2 = a where a >= 0
        for rnd in range(4):
            done = True
            for s, t in list(names.values()):
                if not (is_app(t) and t.decl().name() == 'sqrt'):
                    continue
                po = sympy.Poly(num, s) if num.has(s) else None
                if po is None or po.degree() < 2:
                    continue
                arg = t.children()[0]
                if not prover.excludes(pc, facts, arg < 0, 500000):
                    return False
                sa = conv(arg)
                out = 0
                for (k,), c in po.terms():
                    out += c * sa ** (k // 2) * s ** (k % 2)
                num = sympy.expand(sympy.numer(sympy.together(out)))
                done = False
            if num == 0 or done:
                break
        if num != 0 and not _linear_sums(num, names, pc, facts, prover,
                                         depth):
            return False
    return all(prover.excludes(pc, facts, d == 0, 1000000) for d in dens)
