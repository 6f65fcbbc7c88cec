"""The symbolic heap of concepts used by the tree layer.

Concepts of the hierarchy are terms of sort R; their fields are functions
(alive, parent, tree, count, ch(p, c) = "c is listed among p's children") and
x, ONE ARBITRARY additive coordinate of the table av_counts: the count of any
attribute/value cell, or the number, sum or sum of squares of any numeric
summary.  The table units prove that recording an instance adds a fixed vector
to the table and that update_counts_from_node adds the other table, so every
coordinate satisfies the same equations; x is never compared by order, only by
linear equations, so what is proved for x holds for the whole table.

Objects under construction stay ordinary records and move into the heap when
they are linked to it (materialise).
"""
import ast
import time
from .vals import *
from .sym import _base_axioms, STATS, info, rational_identity
from .interp import PyExc, BreakEx, ContinueEx, Infeasible, ReturnEx

delta = fn('delta', K, REAL)          # what an instance adds to coordinate x
ecg = fn('ecg', R, REAL, REAL, REAL)  # guesses of (tree, count, table)
exactf = fn('exactf', REAL, REAL, K, BOOL)
pure = fn('pure', REAL, REAL, BOOL)
mark = fn('mark', R, BOOL)
TREE = z3.Const('TREE', R)
NODEF = ('count', 'parent', 'tree', 'children', 'av_counts', 'concept_id')


def fire(f):
    """fact on one concept that also fires on the functions it mentions"""
    def pats(v):
        out = [mark(v)]
        for t in subterms([lsimp(f.f(v))]):
            if info(t).dn.startswith(('h.ch', 'l.ch')) and any(
                    x.eq(v) for x in t.children()):
                out.append(t)
        return out
    f.pats = pats
    return f


class TabM(object):
    """the table of a concept, as a whole"""
    def __init__(self, owner):
        self.owner = owner

    def py_method(self, I, name, args, kw):
        raise Unsupported('table access in the tree layer')

    def py_getattr(self, I, name):
        raise Unsupported('table access in the tree layer')

    def same_as(self, b):
        return isinstance(b, TabM)


class TreeP(object):
    """the tree field of a concept"""
    def __init__(self, e):
        self.e = e

    def map_terms(self, f):
        return TreeP(f(self.e))

    def same_as(self, b):
        return isinstance(b, TreeP) and b.e.get_id() == self.e.get_id()

    def py_truth(self, I):
        return self.e != NULL

    def py_getattr(self, I, name):
        raise Unsupported('tree of a concept in the tree layer')


class Kids(object):
    """the children list of a concept in the heap"""
    def __init__(self, m, e):
        self.m, self.e = m, e

    def map_terms(self, f):
        return Kids(self.m, f(self.e))

    def same_as(self, b):
        return isinstance(b, Kids) and b.e.get_id() == self.e.get_id()

    def ch(self, I):
        c = self.m.c(I)['ch']
        e = self.e
        return lambda y: c(e, y)

    def seg(self, I):
        return Seg('gen', sort=R, dom=self.ch(I), elem=lambda y: Ref(y),
                   src=self, ordered=True)

    def py_iter(self, I):
        return [self.seg(I)]

    def py_parts(self, I):
        return (self.seg(I),)

    def py_in(self, I, a):
        d = I.deref(a)
        if isinstance(d, Ref):
            return self.ch(I)(d.e)
        return FALSE

    def py_truth(self, I):
        ch = self.ch(I)
        b = I.fresh('kids', BOOL)
        w = self.m.witness(I, self.e)
        I.st.assume(Implies(b, ch(w)))
        I.st.facts.append(fire(Fact('no kids', (R,), lambda y: Implies(
            ch(y), b))))
        y = fresh('y', R)
        n = mksum(y, ch(y), ONE)
        I.st.assume(And(b == (n >= 1), Or(n == 0, n >= 1)))
        return b

    def py_len(self, I):
        ch = self.ch(I)
        y = fresh('y', R)
        n = mksum(y, ch(y), ONE)
        ws = [I.fresh('w', R) for i in range(3)]
        # cardinality of a duplicate-free list
        I.st.assume(And(n >= 0, Or(n == 0, n == 1, n == 2, n >= 3)))
        for i in range(3):
            I.st.assume(Implies(n >= i + 1, ch(ws[i])))
            for j in range(i):
                I.st.assume(Implies(n >= i + 1, ws[i] != ws[j]))
        I.st.facts.append(fire(Fact('len 0', (R,), lambda y: Implies(
            ch(y), n >= 1))))
        I.st.facts.append(fire(Fact('len 1', (R,), lambda y: Implies(
            And(n == 1, ch(y)), y == ws[0]))))
        I.st.facts.append(fire(Fact('len 2', (R,), lambda y: Implies(
            And(n == 2, ch(y)), Or(y == ws[0], y == ws[1])))))
        return n

    def py_getitem(self, I, k):
        raise Unsupported('child by position')

    def py_slice(self, I, lo, hi):
        if lo is None and hi is None:
            return I.new_list(self.py_parts(I))
        raise Unsupported('slice of children')

    def py_append(self, I, x):
        d = I.deref(x)
        if isinstance(d, Obj):
            d = self.m.materialise(I, d)
        if not isinstance(d, Ref):
            raise Unsupported('appending %r to children' % (d,))
        if I.branch(self.ch(I)(d.e)):
            raise PyExc('DuplicateChild')
        self.m.set2(I, 'ch', self.e, d.e, TRUE)

    def py_getattr(self, I, name):
        return Fn('bmethod', recv=self, name=name)

    def py_method(self, I, name, args, kw):
        if name == 'append' or name == 'insert':
            self.py_append(I, args[-1])
            return None
        if name == 'remove':
            d = I.deref(args[0])
            if not isinstance(d, Ref):
                raise PyExc('ValueError')
            if not I.branch(self.ch(I)(d.e)):
                raise PyExc('ValueError')
            self.m.set2(I, 'ch', self.e, d.e, FALSE)
            return None
        if name == 'extend':
            from .loop import summarise
            for s in I.iterate(args[0]):
                if s.kind == 'one':
                    self.py_append(I, s.val)
                else:
                    summarise(I, s, lambda el: self.py_append(I, el))
            return None
        if name == 'copy':
            return I.new_list(self.py_parts(I))
        raise Unsupported('children.' + name)


class Model(object):
    def __init__(self, I, cls):
        self.cls = cls                   # (module, class) of the concepts
        self.comps = sym_comps('heap', 'h')
        self.oid = I.alloc(RecComp(self.comps, 'heap')).oid
        self.root = fresh('root', R)
        self.insts = {}
        I.model = self

    # ------------------------------------------------------------ access
    def c(self, I):
        return I.st.heap[self.oid].comps

    def witness(self, I, e):
        return I.fresh('kid', R)

    def norm(self, I, e):
        """decide the comparisons of concepts inside a concept term"""
        for i in range(6):
            cs = [t for t in subterms([e]) if is_eq(t)
                  and info(t.children()[0]).sn == 'R'
                  and not any(is_ite(u) for u in t.children())]
            if not cs:
                return e
            n = e
            for c in cs:
                if not contains(n, c):
                    continue
                for v, g in ((FALSE, Not(c)), (TRUE, c)):
                    if I.prover.valid(I.st.conds(), I.st.facts, g)[0]:
                        n = lsimp(sub(n, (c, v)))
                        break
            if n.eq(e):
                return e
            e = n
        return e

    def aliases(self, I):
        return [x_[1] for x_ in I.st.events if x_[0] == 'alias']

    def name(self, I, e):
        """a constant for a concept term"""
        if not e.children() or I.binders:
            return e
        for t, a in self.aliases(I):
            if t.eq(e):
                return a
        a = I.fresh('par', R)
        I.st.assume(a == e)
        I.st.events = I.st.events + (('alias', (e, a)),)
        return a

    def ref(self, e):
        return Ref(e, self.cls)

    def nonnull(self, I, v):
        if v.e.eq(NULL) or not I.branch(v.e != NULL):
            raise PyExc('AttributeError', 'NoneType')

    def getattr(self, I, v, name):
        if name == '__class__':
            self.nonnull(I, v)
            return ClassRef(I.prog.mods[self.cls[0]], self.cls[1])
        if name in NODEF:
            self.nonnull(I, v)
            c = self.c(I)
            if name == 'parent':
                return self.ref(self.name(I, self.norm(
                    I, c['parent'](v.e))))
            if name == 'count':
                return Num(c['count'](v.e))
            if name == 'children':
                return Kids(self, v.e)
            if name == 'tree':
                return TreeP(c['tree'](v.e))
            if name == 'av_counts':
                return TabM(v.e)
            return Key(fn('cid', R, K)(v.e))
        f = I.find_method(self.cls, name)
        self.nonnull(I, v)
        if f is None:
            raise PyExc('AttributeError', name)
        return Fn('method', recv=v, name=name, cls=self.cls, f=f)

    def set1(self, I, n, e, val):
        r = I.st.heap[self.oid]
        old = r.comps[n]
        I.st.heap[self.oid] = r.upd(**{n: lambda y: lsimp(
            ite(y == e, val, old(y)))})

    def set2(self, I, n, p, q, val):
        r = I.st.heap[self.oid]
        old = r.comps[n]
        if is_true(val):
            f = lambda a, b: lsimp(Or(And(a == p, b == q), old(a, b)))
        else:
            f = lambda a, b: lsimp(And(Not(And(a == p, b == q)), old(a, b)))
        I.st.heap[self.oid] = r.upd(**{n: f})

    def tree_term(self, I, v):
        v = I.deref(v)
        if v is None:
            return NULL
        if isinstance(v, TreeP):
            return v.e
        if isinstance(v, Obj) and v.oid == getattr(self, 'tree_oid', None):
            return TREE
        raise Unsupported('tree field set to %r' % (v,))

    def setattr(self, I, v, name, val):
        self.nonnull(I, v)
        d = I.deref(val)
        if name == 'parent':
            if d is None:
                d = Ref(NULL)
            if isinstance(d, Obj):
                d = self.materialise(I, d)
            if not isinstance(d, Ref):
                raise Unsupported('parent set to %r' % (d,))
            return self.set1(I, 'parent', v.e, d.e)
        if name == 'count':
            return self.set1(I, 'count', v.e, I.num(d))
        if name == 'tree':
            return self.set1(I, 'tree', v.e, self.tree_term(I, d))
        if name == 'children':
            mem = self.members(I, d)
            r = I.st.heap[self.oid]
            old = r.comps['ch']
            e = v.e
            I.st.heap[self.oid] = r.upd(ch=lambda a, b: lsimp(
                ite(a == e, mem(b), old(a, b))))
            if isinstance(d, Obj):
                I.st.heap[d.oid] = RecAlias(Kids(self, e))
            return
        raise Unsupported('assignment to concept.%s' % name)

    def members(self, I, d):
        """membership of a list of concepts; duplicates are refused"""
        if isinstance(d, Kids):
            self_alias = True
            raise Unsupported('children list shared between concepts')
        parts = I.as_list(d)
        if parts is None:
            raise Unsupported('children set to %r' % (d,))
        parts = list(parts)
        for i, s in enumerate(parts):
            if s.kind == 'one':
                v = I.deref(s.val)
                if isinstance(v, Obj):
                    self.materialise(I, v)
        fs = []
        for s in parts:
            if s.kind == 'one':
                v = I.deref(s.val)
                if not isinstance(v, Ref):
                    raise Unsupported('child %r' % (v,))
                if I.branch(disj([f(v.e) for f in fs])):
                    raise PyExc('DuplicateChild')
                fs.append(lambda b, v=v: b == v.e)
            else:
                y = fresh('y', R)
                el = s.elem(y)
                if not (isinstance(el, Ref) and el.e.eq(y)):
                    raise Unsupported('children list')
                # no duplicates with what is there already
                for f in fs:
                    w = I.fresh('dup', R)
                    if not I.impossible_under(And(f(w), s.dom(w))):
                        raise Unsupported('possible duplicate child')
                fs.append(s.dom)
        return lambda b: disj([f(b) for f in fs])

    # ---------------------------------------- concepts under construction
    def set_field(self, I, v, r, name, val):
        """assignment to a field of a record; True when handled"""
        if getattr(self, 'tree_oid', None) == v.oid and name == 'root':
            d = I.deref(val)
            if isinstance(d, Obj):
                d = self.materialise(I, d)
            if d is None:
                d = Ref(NULL)
            I.st.heap[v.oid] = r.set('root', d)
            return True
        if r.cls[1] != self.cls[1]:
            return False
        if name == 'av_counts':
            d = I.deref(val)
            if not (isinstance(d, Obj) and isinstance(I.rec(d), RecC)
                    and not I.rec(d).items):
                raise Unsupported('table assigned from %r' % (d,))
            I.st.heap[v.oid] = r.set('av_counts', TabM(None)).set(
                'x', Num(ZERO))
            return True
        return False

    def materialise(self, I, d):
        r = I.rec(d)
        if isinstance(r, RecAlias):
            return I.deref(d)
        if not isinstance(r, RecObj) or r.cls[1] != self.cls[1] or \
                d.oid in I.frozen:
            raise Unsupported('linking %r' % (r,))
        if I.binders:
            raise Unsupported('concept created in a loop')
        c = self.c(I)
        e = I.fresh('n', R)
        I.st.assume(And(e != NULL, Not(c['alive'](e))))
        F = r.fields
        I.st.heap[d.oid] = RecAlias(self.ref(e))
        par = I.deref(F.get('parent'))
        if isinstance(par, Obj):
            par = self.materialise(I, par)
        pe = NULL if par is None else par.e
        kl = I.deref(F['children'])
        mem = self.members(I, kl)
        self.set1(I, 'alive', e, TRUE)
        self.set1(I, 'parent', e, pe)
        self.set1(I, 'count', e, I.num(F['count']))
        self.set1(I, 'x', e, I.num(F['x']))
        self.set1(I, 'tree', e, self.tree_term(I, F.get('tree')))
        rr = I.st.heap[self.oid]
        old = rr.comps['ch']
        I.st.heap[self.oid] = rr.upd(ch=lambda a, b: lsimp(
            ite(a == e, mem(b), old(a, b))))
        if isinstance(kl, Obj):
            I.st.heap[kl.oid] = RecAlias(Kids(self, e))
        I.st.events = I.st.events + (('new', e),)
        return self.ref(e)

    # --------------------------------------------- views used by contracts
    def count_x(self, I, v):
        d = I.deref(v)
        if isinstance(d, Ref):
            self.nonnull(I, d)
            c = self.c(I)
            return c['count'](d.e), c['x'](d.e)
        F = I.rec(d).fields
        return I.num(F['count']), I.num(F['x'])

    def set_count_x(self, I, v, n, x):
        d = I.deref(v)
        if isinstance(d, Ref):
            self.set1(I, 'count', d.e, n)
            self.set1(I, 'x', d.e, x)
        else:
            if d.oid in I.frozen:
                raise Unsupported('list element updated through the list')
            r = I.rec(d)
            I.st.heap[d.oid] = r.set('count', Num(lsimp(n))).set(
                'x', Num(lsimp(x)))

    def tree_of(self, I, v):
        d = I.deref(v)
        if isinstance(d, Ref):
            return self.c(I)['tree'](d.e)
        return self.tree_term(I, I.rec(d).fields.get('tree'))


def inst_term(I, v):
    v = I.deref(v)
    if not isinstance(v, Key):
        raise Unsupported('instance %r' % (v,))
    return v.e


def t_increment(I, recv, args, kw, f):
    m = I.model
    j = inst_term(I, args[0] if args else kw['instance'])
    n, x = m.count_x(I, recv)
    m.set_count_x(I, recv, n + 1, x + delta(j))


def t_update(I, recv, args, kw, f):
    m = I.model
    n2, x2 = m.count_x(I, args[0])
    n, x = m.count_x(I, recv)
    m.set_count_x(I, recv, n + n2, x + x2)


def t_ecg(I, recv, args, kw, f):
    m = I.model
    n, x = m.count_x(I, recv)
    return Num(ecg(m.tree_of(I, recv), n, x))


def t_exact(I, recv, args, kw, f):
    """is_exact_match: a yes keeps the group pure (unit exact_match)"""
    m = I.model
    n, x = m.count_x(I, recv)
    j = inst_term(I, args[0])
    b = exactf(n, x, j)
    I.st.assume(Implies(And(b, n > 0, pure(n, x)),
                        pure(n + 1, x + delta(j))))
    return Bl(b)


def t_gensym(I, recv, args, kw, f):
    """a new identifier; changes no concept"""
    return Opaque('concept id')


TREEC = {'CobwebNode.gensym': t_gensym, 'Cobweb3Node.gensym': t_gensym}
for _c in ('CobwebNode', 'Cobweb3Node'):
    TREEC[_c + '.increment_counts'] = t_increment
    TREEC[_c + '.update_counts_from_node'] = t_update
    TREEC[_c + '.expected_correct_guesses'] = t_ecg
    TREEC[_c + '.is_exact_match'] = t_exact


def card_facts(c):
    """the number of children: at least as many as there are distinct ones"""
    ch = c['ch']
    y = fresh('y', R)

    def n(p):
        return mksum(y, ch(p, y), ONE)
    out = [Fact('one child', (R, R), lambda p, q: And(n(p) >= 0, Implies(
        ch(p, q), n(p) >= 1)), trig=on_apps(ch))]
    two = Fact('two children', (R, R, R), lambda p, q, r: Implies(
        And(ch(p, q), ch(p, r), q != r), n(p) >= 2))
    two.pats = lambda p, q, r: [z3.MultiPattern(ch(p, q), ch(p, r))]
    three = Fact('three children', (R, R, R, R), lambda p, q, r, s: Implies(
        And(ch(p, q), ch(p, r), ch(p, s), q != r, q != s, r != s),
        n(p) >= 3))
    three.pats = lambda p, q, r, s: [z3.MultiPattern(ch(p, q), ch(p, r),
                                                     ch(p, s))]
    return out + [two, three]


def legal_pattern(p, vs):
    """an uninterpreted application over all of the bound variables"""
    if not z3.is_app(p) or p.decl().kind() != z3.Z3_OP_UNINTERPRETED:
        return False
    seen = set()
    todo = [p]
    while todo:
        t = todo.pop()
        if not z3.is_app(t):
            return False
        if t.num_args() and t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            return False
        if t.num_args() == 0:
            seen.add(t.get_id())
        todo += t.children()
    return all(v.get_id() in seen for v in vs)


class TreeProver(Prover):
    """quantified facts go to the solver with explicit patterns: facts on two
    concepts fire on applications of the functions they are triggered by,
    facts on one concept fire on the concepts the query names (mark).  Sums
    over the children are compared by normal form; the lemmas needed about
    them are explicit facts."""
    def __init__(self):
        Prover.__init__(self)
        self.qcache = {}

    def quant(self, f):
        r = self.qcache.get(id(f))
        if r is None:
            vs = [Const('%s!q%d' % (s.name(), i), s)
                  for i, s in enumerate(f.sorts)]
            body = lsimp(f.f(*vs))
            pats = getattr(f, 'pats', None)
            ps = []
            if pats is not None:
                ps = pats(*vs)
            elif f.trig is not None and hasattr(f.trig, 'decls'):
                ps = [d(*vs) for d in f.trig.decls if d.arity() == len(vs)
                      and all(d.domain(i).eq(v.sort())
                              for i, v in enumerate(vs))]
            ps = [p for p in ps if legal_pattern(p, vs)]
            if is_true(body):
                q = body
            elif not ps and all(s.eq(R) for s in f.sorts):
                q = body        # nested: z3's multi-patterns misbehave here
                for v in reversed(vs):
                    q = z3.ForAll([v], q, patterns=[mark(v)])
            else:
                q = z3.ForAll(vs, body, patterns=ps) if ps else \
                    z3.ForAll(vs, body)
            r = (q, f)
            self.qcache[id(f)] = r
        return r[0]

    def empty_sums(self, forms, facts):
        """sums over two conditions that exclude each other are zero"""
        out = []
        for a in subterms(forms):
            at = SUMS.get(info(a).dn)
            if at is None:
                continue
            y = Const('y!sum', at.x.sort())
            g, m = at.at(a.children(), y)
            g = And(g) if isinstance(g, (list, tuple)) else g
            if not is_and(g) or len(g.children()) < 2:
                continue
            hyp = [f for f in forms if info(f).size < 400] if hasattr(
                info(forms[0]), 'size') else forms
            if self.query(hyp + [g], facts, 300000, False) == z3.unsat:
                out.append(a == 0)
        return out

    def equal_sums(self, pc, goal, facts):
        """sums in the goal that agree element by element"""
        apps = [a for a in subterms([goal]) if info(a).dn in SUMS]
        out = []
        if len(apps) > 14:
            return out
        for i, a in enumerate(apps):
            at = SUMS[info(a).dn]
            y = Const('y!sum', at.x.sort())
            g, m = at.at(a.children(), y)
            for b in apps[:i]:
                bt = SUMS[info(b).dn]
                if not bt.x.sort().eq(at.x.sort()):
                    continue
                h, n = bt.at(b.children(), y)
                if self.query(list(pc) + [ite(g, m, ZERO) != ite(
                        h, n, ZERO)], facts, self.rlimit // 4,
                        False) == z3.unsat:
                    out.append(a == b)
        return out

    def query(self, forms, facts, rlimit, sums=True):
        t0 = time.time()
        s = z3.Solver()
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        s.set('rlimit', rlimit)
        s.set('timeout', WALL * 1000)
        if sums:
            forms = list(forms) + self.empty_sums(forms, facts)
        ts = subterms(forms)
        s.add(*forms)
        for t in ts:
            if info(t).sn == 'R':
                s.add(mark(t))
        s.add(*_base_axioms(ts))
        for f in facts:
            try:
                s.add(self.quant(f))
            except z3.Z3Exception:
                print('BAD', f.name, self.quant(f).sexpr())
                raise
        r = s.check()
        STATS.queries += 1
        STATS.time += time.time() - t0
        if r == z3.unknown and time.time() - t0 >= WALL:
            # the machine, not the code: never an alarm
            raise Unsupported('a solver call ran out of wall-clock time')
        return r

    def feasible(self, pc, facts, cond):
        return self.query(list(pc) + [cond], facts, 300000, False) != z3.unsat

    def excludes(self, pc, facts, c, rlimit):
        return self.query(list(pc) + [c], facts, rlimit) == z3.unsat

    def _valid1(self, pc, facts, goal):
        neg = lsimp(Not(goal))
        eq = is_eq(goal) and goal.children()[0].sort().eq(REAL)
        r = self.query(list(pc) + [neg], facts,
                       self.rlimit // 8 if eq else self.rlimit)
        if r == z3.unsat:
            return True, 'z3'
        if eq:
            pc = list(pc) + self.empty_sums(list(pc) + [neg], facts)
            pc += self.equal_sums(pc, neg, facts)
            if self.query(pc + [neg], facts, self.rlimit // 40,
                          False) == z3.unsat:
                return True, 'z3'
            if rational_identity(goal, pc, facts, self):
                return True, 'normal form'
            r = self.query(pc + [neg], facts, self.rlimit, False)
            if r == z3.unsat:
                return True, 'z3'
        return False, str(r)
