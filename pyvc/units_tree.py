"""Tree layer: well-formedness, conservation, learning loop, operators."""
import ast
from .vals import *
from .unit import unit, Ob_
from .interp import PyExc, BreakEx, ContinueEx, Infeasible, PathFailed
from .tree import *
from .sym import info

LEARNERS = {
    'cobweb': (('concept_formation.cobweb', 'CobwebNode'),
               ('concept_formation.cobweb', 'CobwebTree')),
    'cobweb3': (('concept_formation.cobweb3', 'Cobweb3Node'),
                ('concept_formation.cobweb3', 'Cobweb3Tree')),
    'trestle': (('concept_formation.cobweb3', 'Cobweb3Node'),
                ('concept_formation.trestle', 'TrestleTree')),
}


OTHER = 'every internal concept has another child'


YR = fresh('y', R)


class Ghost(object):
    """ghost functions of the invariant"""
    def __init__(self, **kw):
        self.__dict__.update(kw)


def wf_clauses(c, root, g, cur=None, j=None):
    """invariant of the hierarchy as a list of (name, sorts, closure, how to
    find witnesses).  cur: the concept the learning loop stands at; its parent
    (if any) has already recorded the instance j that cur has not."""
    d, oth, kid, tin = g.d, g.oth, g.kid, g.tin
    extra = (lambda p, v: ZERO) if cur is None else (
        lambda p, v: ite(And(cur != root, p == c['parent'](cur)), v, ZERO))
    y = fresh('y', R)

    def total(n, p):
        return mksum(y, c['ch'](p, y), c[n](y))
    dj = delta(j) if j is not None else ZERO
    out = [
        ('a listed child is a concept that points back to its parent',
         (R, R), lambda p, q: Implies(And(c['ch'](p, q), tin(p)), And(
             tin(q), c['parent'](q) == p, q != root))),
        ('no concept can reach itself', (R, R), lambda p, q: Implies(
            And(c['ch'](p, q), tin(p)), d(q) > d(p))),
        ('the root has no parent, every other concept is listed by its '
         'parent; all point to the tree', (R,), lambda q: Implies(
             tin(q), And(
                 q != NULL, c['alive'](q), c['tree'](q) == TREE,
                 ite(q == root, c['parent'](q) == NULL,
                     And(c['parent'](q) != NULL, tin(c['parent'](q)),
                         c['ch'](c['parent'](q), q)))))),
        ('the root is a concept', (), lambda: tin(root)),
        (OTHER, (R, R),
         Ex(lambda p, q: And(c['ch'](p, q), tin(p)),
            lambda p, q, z: And(c['ch'](p, z), z != q), oth)),
        ('counts are the sum over the children', (R, R),
         lambda p, q: Implies(And(c['ch'](p, q), tin(p)), And(
             c['count'](p) == total('count', p) + extra(p, ONE)))),
        ('tables are the sum over the children', (R, R),
         lambda p, q: Implies(And(c['ch'](p, q), tin(p)), And(
             c['x'](p) == total('x', p) + extra(p, dj)))),
        ('only an empty root has no instances', (R,), lambda q: Implies(
            tin(q), Or(c['count'](q) >= 1, And(
                q == root, c['count'](q) == 0, c['x'](q) == 0)))),
        ('a leaf groups identical instances', (R,), Ex(
            lambda q: And(tin(q), c['count'](q) != 0,
                          Not(pure(c['count'](q), c['x'](q)))),
            lambda q, z: c['ch'](q, z), kid)),
    ]
    return out


class Ex(object):
    """clause: hyp implies some concept z satisfies body; wit: the ghost
    witness when assumed, hints when proved"""
    def __init__(self, hyp, body, wit):
        self.hyp, self.body, self.wit = hyp, body, wit

    def __call__(self, *vs):
        return Implies(self.hyp(*vs), self.body(*(vs + (self.wit(*vs),))))


def wits(w):
    return w if isinstance(w, (list, tuple)) else [w]


def size_facts(c, g, size):
    """sums of positive numbers: at least one, two, three of them"""
    ch = c['ch']

    def tot(p):
        return mksum(YR, ch(p, YR), size(YR))
    one = Fact('size of one child', (R, R), lambda p, q: Implies(
        And(g.tin(p), ch(p, q)), tot(p) >= size(q)), trig=on_apps(ch))
    two = Fact('sizes of two children', (R, R, R), lambda p, q, r: Implies(
        And(g.tin(p), ch(p, q), ch(p, r), q != r),
        tot(p) >= size(q) + size(r)))
    two.pats = lambda p, q, r: [z3.MultiPattern(ch(p, q), ch(p, r))]
    three = Fact('sizes of three children', (R, R, R, R),
                 lambda p, q, r, s: Implies(And(
                     g.tin(p), ch(p, q), ch(p, r), ch(p, s), q != r, q != s,
                     r != s), tot(p) >= size(q) + size(r) + size(s)))
    three.pats = lambda p, q, r, s: [z3.MultiPattern(
        ch(p, q), ch(p, r), ch(p, s))]
    return [one, two, three]


def base_ghost():
    return Ghost(d=freshfn('d', R, REAL), oth=freshfn('oth', R, R, R),
                 kid=freshfn('kid', R, R), tin=freshfn('tin', R, BOOL))


def wf_fact(c, g, nm, sorts, f):
    if nm == OTHER:
        x = Fact(nm, sorts, f)
        x.pats = lambda p, q: [g.oth(p, q), z3.MultiPattern(
            mark(p), mark(q), c['ch'](p, q))]
        return x
    return Fact(nm, sorts, f, trig=on_apps(c['ch']) if len(sorts) == 2
                else None)


def assume_wf(I, c, root, g, cur=None, j=None, skip=()):
    """c: plain functions (decls)"""
    on2 = on_apps(c['ch'])
    on1 = on_arg(0, c['alive'], c['parent'], c['count'], c['x'])
    for nm, sorts, f in wf_clauses(c, root, g, cur, j):
        if nm in skip:
            continue
        if not sorts:
            I.st.assume(f())
        else:
            I.st.facts.append(wf_fact(c, g, nm, sorts, f))
    I.st.assume(And(root != NULL, TREE != NULL))


def atoms_eq(e, xs):
    """terms compared with one of xs in e"""
    out = {}
    ids = set(x.get_id() for x in xs)
    for t in subterms([e]):
        if is_eq(t):
            a, b = t.children()
            for u, v in ((a, b), (b, a)):
                if u.get_id() in ids and v.get_id() not in ids:
                    out[v.get_id()] = v
    return list(out.values())


class Cases(object):
    """case analysis of an arbitrary concept over the concepts an operation
    touched, with the (dis)equalities between those resolved"""
    def __init__(self, I, c, more=()):
        self.I = I
        p, q = fresh('p', R), fresh('q', R)
        ts = {t.get_id(): t for t in more}
        for n in c:
            e = c[n](p, q) if n == 'ch' else c[n](p)
            for t in atoms_eq(e, [p, q]):
                ts[t.get_id()] = t
        self.T = [t for t in ts.values() if not t.eq(NULL)]
        self.known = []
        T = self.T
        for i in range(len(T)):
            for k in range(i):
                a, b = T[i], T[k]
                for v, goal in ((FALSE, a != b), (TRUE, a == b)):
                    if I.prover.valid(I.st.conds(), I.st.facts, goal)[0]:
                        self.known += [(a == b, v), (b == a, v)]
                        break
        self.known += I.model.aliases(I)
        for a in T:
            if I.prover.valid(I.st.conds(), I.st.facts, a != NULL)[0]:
                self.known += [(a == NULL, FALSE), (NULL == a, FALSE)]

    def resolve(self, e):
        for i in range(3):
            e2 = lsimp(sub(e, *self.known)) if self.known else lsimp(e)
            if e2.eq(e):
                break
            e = e2
        return e

    def each(self, vs):
        """[(substitution, hypotheses, note)]"""
        out = [([], [])]
        for v in vs:
            new = []
            for s, h in out:
                for t in self.T:
                    new.append((s + [(v, t)], h))
                new.append((s + [(v == t, FALSE) for t in self.T] +
                            [(t == v, FALSE) for t in self.T],
                            h + [v != t for t in self.T]))
            out = new
        return out


def ite_cond(e):
    """a condition deciding which concept a term denotes"""
    for t in subterms([e]):
        if info(t).sn == 'R' and is_ite(t):
            c = t.children()[0]
            if ite_cond(c) is None:
                return c
    return None


def by_ites(I, h, e, res, depth=4):
    c = ite_cond(e) if depth else None
    if c is None:
        r = I.prover.valid(I.st.conds() + h, I.st.facts, e)
        if not r[0]:
            r = (False, r[1] + '\nwith %s\nremains %s' % (h, e))
        return r
    why = 'trivial'
    for v, hyp in ((TRUE, c), (FALSE, Not(c))):
        e2 = res(sub(e, (c, v)))
        if is_true(e2):
            continue
        if I.prover.query(I.st.conds() + h + [hyp], I.st.facts, 300000,
                          False) == z3.unsat:
            continue
        r, why = by_ites(I, h + [hyp], e2, res, depth - 1)
        if not r:
            return r, why
    return True, 'z3'


def prove_clauses(I, N, clauses, cases, only=None):
    """prove universally quantified clauses by case analysis"""
    for nm, sorts, f in clauses:
        if only and nm not in only:
            continue
        if not sorts:
            I.prove(N + nm, cases.resolve(f()))
            continue
        vs = [fresh('pqr'[i], s) for i, s in enumerate(sorts)]
        ok, how, bad = True, 'trivial', ''
        for s, h in cases.each(vs):
            ws = [next((t for a, t in s if a.eq(v)), v) for v in vs]
            eqs = [(a, b) for a, b in s if not any(a.eq(v) for v in vs)]

            def res(e):
                return cases.resolve(sub(e, *eqs) if eqs else e)
            if isinstance(f, Ex):
                hy = res(f.hyp(*ws))
                if is_false(hy):
                    continue
                no = Fact('no witness', (R,), lambda z: Not(res(
                    f.body(*(ws + [z])))))
                e = Not(hy)
                r = I.prover.query(I.st.conds() + h + [hy] + [
                    mark(t) for t in wits(f.wit(*ws))], I.st.facts + [no],
                    I.prover.rlimit)
                r, why = r == z3.unsat, 'z3' if r == z3.unsat else str(r)
            else:
                e = res(f(*ws))
                r, why = by_ites(I, h, e, res)
            if not r:
                ok, how = False, why
                st = I.st.copy()
                for x in h:
                    st.assume(x)
                bad = 'case %s\n%s' % (
                    [str(w) for w in ws], I.describe(st, e))
                break
            if why != 'trivial':
                how = why
        from .interp import Ob
        I.obs.append(Ob(N + nm, ok, how, bad))


def new_ghost(I, c, root, g, cands):
    """ghosts after an operation: ranks for the new concepts, witnesses"""
    rank = g.d
    pts = []
    news = [x_[1] for x_ in I.st.events if x_[0] == 'new']
    todo = list(news)
    while todo:
        e = next((e for e in todo if not any(
            I.model.norm(I, c['parent'](e)).eq(z) for z in todo)), todo[0])
        todo.remove(e)
        v = fresh('rank', REAL)
        par = I.model.norm(I, c['parent'](e))
        old = lambda t: conj([t != z for z in news])
        t = fresh('t', R)
        # a value exists between the parent and the (finitely many) children
        I.prove('a rank for the new concept exists', Implies(And(
            par != NULL, c['ch'](e, t), old(t)),
            rank(t) > apply_pts(rank, pts, par)))
        I.st.assume(Implies(par != NULL, v > apply_pts(rank, pts, par)))
        I.st.facts.append(Fact('rank', (R,), lambda t, e=e, v=v: Implies(
            And(c['ch'](e, t), old(t)), v < rank(t))))
        pts.append((e, v))
    gd = lambda q: apply_pts(rank, pts, q)
    oth = lambda p, q: [g.oth(p, q)] + [g.oth(t, q) for t in cands] + \
        list(cands) + [g.oth(p, t) for t in cands]
    kid = lambda q: [g.kid(q)] + list(cands) + [g.oth(q, t) for t in cands]
    tin = lambda q: lsimp(And(
        Or(*([g.tin(q)] + [q == e for e in news])),
        Or(q == root, c['ch'](c['parent'](q), q))))
    return Ghost(d=gd, oth=oth, kid=kid, tin=tin)


def is_new(I, t):
    return any(x_[0] == 'new' and x_[1].eq(t) for x_ in I.st.events)


def apply_pts(f, pts, q):
    r = f(q)
    for e, v in pts:
        r = ite(q == e, v, r)
    return lsimp(r)


# ------------------------------------------------- contracts of selection

def t_two_best(I, recv, args, kw, f):
    """unit select.two_best"""
    m = I.model
    d = I.deref(recv)
    if not isinstance(d, Ref):
        raise Unsupported('two_best_children of a temporary concept')
    inst_term(I, args[0])
    ch = m.c(I)['ch']
    if not I.branch(Kids(m, d.e).py_truth(I)):
        raise PyExc('Exception')
    b1, b2 = I.fresh('b1', R), I.fresh('b2', R)
    I.st.assume(And(ch(d.e, b1), b1 != NULL))
    I.st.assume(Or(b2 == NULL, And(ch(d.e, b2), b2 != b1)))
    I.st.facts.append(fire(Fact('single child', (R,), lambda q: Implies(
        And(b2 == NULL, ch(d.e, q)), q == b1))))
    return (Num(I.fresh('cu', REAL)), m.ref(b1), m.ref(b2))


def t_best_op(I, recv, args, kw, f):
    """unit select.best_op"""
    m = I.model
    d = I.deref(recv)
    env = I.bind(f, recv, args, kw)
    names = [a.arg for a in f.node.args.args]
    inst, b1, b2 = [I.deref(env[n]) for n in names[1:4]]
    ops = I.as_list(env[names[5]]) if len(names) > 5 else None
    inst_term(I, inst)
    ch = m.c(I)['ch']
    if not (isinstance(b1, Ref) and isinstance(b2, Ref)):
        raise Unsupported('get_best_operation arguments')
    I.prove('get_best_operation is asked about two of the children',
            And(ch(d.e, b1.e), Or(b2.e == NULL, And(ch(d.e, b2.e),
                                                    b1.e != b2.e))),
            stop=True)
    if ops is None or [s.val for s in ops if s.kind == 'one'] != [
            'best', 'new', 'merge', 'split']:
        raise Unsupported('possible operations')
    act = ('best', 'new', 'merge', 'split')[I.choose(4)]
    if act == 'merge':
        w = I.fresh('third', R)
        I.st.assume(And(b2.e != NULL, ch(d.e, w), w != b1.e, w != b2.e))
    if act == 'split':
        w = I.fresh('gkid', R)
        I.st.assume(ch(b1.e, w))
    return (Num(I.fresh('opcu', REAL)), act)


def note(I, *ev):
    I.st.events = I.st.events + (tuple(ev),)


def events(I, kind):
    return [e for e in I.st.events if e[0] == kind]


def t_sanity(I, recv, args, kw, f):
    """units table.sanity.*: raises ValueError or does nothing"""
    j = inst_term(I, args[0])
    note(I, 'sane', j)
    if I.choose(2):
        raise PyExc('ValueError')


def t_scales(I, recv, args, kw, f):
    """unit table.update_scales: adds the numeric values to the scales"""
    note(I, 'scales', inst_term(I, args[0]))


class Prep(object):
    """a preprocessing step; transform gives a new flat instance and touches
    neither its argument nor the hierarchy (C12, C13)"""
    def __init__(self, name, args):
        self.name, self.args = name, args

    def same_as(self, b):
        return self is b

    def map_terms(self, f):
        return self

    def py_getattr(self, I, name):
        return Fn('bmethod', recv=self, name=name)

    def py_method(self, I, name, args, kw):
        if name == 'transform':
            a = inst_term(I, args[0])
            for s in self.args:
                if isinstance(s, Prep) and s.name == 'StructureMapper':
                    note(I, 'mapped', I.deref(s.args[0]))
            j = fresh_inst(I)
            note(I, 'flat', a, j.e)
            return j
        raise Unsupported('%s.%s' % (self.name, name))


def t_prep(I, c, args, kw):
    return Prep(c.name, [I.deref(a) for a in args])


SELC = dict(TREEC)
SELC['CobwebTree._sanity_check_instance'] = t_sanity
SELC['TrestleTree._sanity_check_instance'] = t_sanity
SELC['Cobweb3Tree.update_scales'] = t_scales
for _c in ('Pipeline', 'NameStandardizer', 'Flattener',
           'SubComponentProcessor', 'StructureMapper'):
    SELC['new ' + _c] = t_prep
for _c in ('CobwebNode', 'Cobweb3Node'):
    SELC[_c + '.two_best_children'] = t_two_best
    SELC[_c + '.get_best_operation'] = t_best_op


def setup(ctx, short, contracts=None):
    ncls, tcls = LEARNERS[short]
    I = ctx.interp(contracts or SELC)
    I.st = State()
    I.prover = TreeProver()
    m = Model(I, ncls)
    fs = {'root': m.ref(m.root)}
    if short != 'cobweb':
        fs.update(scaling=Opaque('scaling'), attr_scales=Opaque('scales'),
                  inner_attr_scaling=Opaque('inner scaling'))
    if short == 'trestle':
        fs['gensym_counter'] = Num(fresh('gensym', REAL))
    t = I.alloc(RecObj(tcls, fs))
    m.tree_oid = t.oid
    m.tree = t
    return I, m


def fresh_inst(I):
    j = fresh('inst', K)
    I.st.assume(pure(ONE, delta(j)))
    return Key(j)


# ----------------------------------------------------- the learning loop

def assigned(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out


def leaf0(g0, c0, q):
    """kid is a choice function: a concept has a child iff kid(q) is one"""
    return And(g0.tin(q), Not(c0['ch'](q, g0.kid(q))))


def choice_fact(c, g):
    return Fact('kid is a child if there is one', (R, R), lambda p, q:
                Implies(c['ch'](p, q), c['ch'](p, g.kid(p))),
                trig=on_apps(c['ch']))


def r_consts(I, extra=()):
    """concepts named on this path"""
    out = {}
    for t in subterms(I.st.conds() + list(extra)):
        if is_app(t) and not t.children() and t.sort().eq(R) and \
                not t.eq(NULL) and not t.eq(TREE):
            out[t.get_id()] = t
    return list(out.values())


class Learn(object):
    """while-loop handler: invariant, preservation, progress"""
    def __init__(self, m, raw, N, g, size, anc, short):
        self.m, self.raw, self.N, self.g = m, raw, N, g
        self.short = short
        self.size, self.anc = size, anc
        self.c0, self.root0 = m.comps, m.root
        self.done = set()

    def clauses(self, c, root, g, cur, size, anc):
        j, c0, root0, g0 = self.j, self.c0, self.root0, self.g
        at_root = cur == root
        return wf_clauses(c, root, g, cur, j) + [
            ('the loop stands at a concept', (), lambda: g.tin(cur)),
            ('root count grows by the instance', (), lambda: c['count'](root)
             == c0['count'](root0) + ite(at_root, ZERO, ONE)),
            ('root table grows by the instance', (), lambda: c['x'](root)
             == c0['x'](root0) + ite(at_root, ZERO, delta(j))),
            ('leaves keep their instances', (R,), lambda q: Implies(
                leaf0(g0, c0, q), And(
                    g.tin(q), c['count'](q) == c0['count'](q),
                    c['x'](q) == c0['x'](q)))),
            ('leaves are old leaves', (R,), Ex(
                lambda q: And(g.tin(q), Not(leaf0(g0, c0, q))),
                lambda q, z: c['ch'](q, z), g.kid)),
            ('nothing is reused', (R,), lambda q: Implies(
                c0['alive'](q), c['alive'](q))),
            ('leaves stay leaves', (R, R), lambda q, z: Implies(
                leaf0(g0, c0, q), Not(c['ch'](q, z)))),
            ('below the way down there is no way down', (R, R),
             lambda p, q: Implies(And(c['ch'](p, q), g.tin(p), Not(anc(p))),
                                  Not(anc(q)))),
            ('sizes add up below the loop', (R, R), lambda p, q: Implies(
                And(c['ch'](p, q), g.tin(p), Not(anc(p))), size(p) == ONE + mksum(
                    YR, c['ch'](p, YR), size(YR)))),
            ('sizes are positive', (R,), lambda p: Implies(
                g.tin(p), size(p) >= 1)),
            ('the parent of the place was passed', (), lambda: And(
                Not(anc(cur)), Or(cur == root, anc(c['parent'](cur))))),
        ]

    def learned(self, I):
        """the flat instance this run records"""
        j = I.deref(I.st.env.get('instance'))
        names = [I.deref(v) for v in I.st.env.values()]
        keys = {k.e.get_id(): k.e for k in names if isinstance(k, Key)}
        if len(keys) != 1:
            raise Unsupported('which value is the instance?')
        return list(keys.values())[0]

    def before(self, I, j):
        """what happened before the loop"""
        N, raw = self.N, self.raw
        fl = events(I, 'flat')
        if self.short == 'trestle':
            ok = len(fl) == 1 and fl[0][1].eq(raw) and fl[0][2].eq(j)
            mp = events(I, 'mapped')
            okm = len(mp) == 1 and isinstance(mp[0][1], Ref) and \
                mp[0][1].e.eq(self.root0)
            I.obs.append(Ob_(N + 'the structure mapper gets the root', okm))
        else:
            ok = not fl and j.eq(raw)
        I.obs.append(Ob_(N + 'the given instance is the one recorded', ok))
        sane, sc = events(I, 'sane'), events(I, 'scales')
        I.obs.append(Ob_(N + 'the instance was checked first', any(
            e[1].eq(j) for e in sane)))
        want = [] if self.short == 'cobweb' else [j]
        I.obs.append(Ob_(N + 'its numbers enter the scales exactly once',
                         [e[1].get_id() for e in sc] ==
                         [e.get_id() for e in want]))
        if sc and sane:
            ks = [e[0] for e in I.st.events]
            I.obs.append(Ob_(N + 'scales change only after the check',
                             ks.index('sane') < ks.index('scales')))
        I.obs.append(Ob_(N + 'nothing else changed before the loop',
                         I.st.heap[self.m.oid].comps is self.c0))

    def find_var(self, I, s):
        tree = I.st.heap[self.m.tree_oid].fields
        root = I.deref(tree['root'])
        names = assigned(s.body)
        vs = [n for n in names if isinstance(I.deref(I.st.env.get(n)), Ref)
              and I.deref(I.st.env[n]).e.eq(root.e)]
        if len(vs) != 1:
            raise Unsupported('learning loop: which variable descends?')
        return vs[0], names

    def __call__(self, I, s):
        m, N = self.m, self.N
        var, names = self.find_var(I, s)
        st = I.st
        root = I.deref(st.heap[m.tree_oid].fields['root']).e
        key = tuple(I.trail[0][:len(I.trail[1])])
        j = self.learned(I)
        self.j = j
        if key not in self.done:
            self.done.add(key)
            self.before(I, j)
            cs = Cases(I, m.c(I), [root])
            g = self.g
            prove_clauses(I, N + 'loop starts: ', self.clauses(
                m.c(I), root, g, I.deref(st.env[var]).e, self.size,
                self.anc), cs)
        # an arbitrary iteration
        c1 = sym_comps('heap', 'l')
        st.heap[m.oid] = RecComp(dict(c1), 'heap')
        root1, cur1 = fresh('root', R), fresh('cur', R)
        st.heap[m.tree_oid] = st.heap[m.tree_oid].set('root', m.ref(root1))
        for n in names:
            if n in st.env and n != var:
                st.env[n] = Opaque('loop variable ' + n)
            elif n != var:
                st.env.pop(n, None)
        st.env[var] = m.ref(cur1)
        g1 = base_ghost()
        size1, anc1 = freshfn('size', R, REAL), freshfn('anc', R, BOOL)
        on2 = on_apps(c1['ch'])
        onl = on_apps(c1['ch'])
        for nm, sorts, f in self.clauses(c1, root1, g1, cur1, size1, anc1):
            if not sorts:
                st.assume(f())
            else:
                st.facts.append(wf_fact(c1, g1, nm, sorts, f))
        st.facts.append(choice_fact(c1, g1))
        st.facts += size_facts(c1, g1, size1)
        st.assume(root1 != NULL)
        st.events = tuple(e for e in st.events if e[0] not in (
            'new', 'alias')) + (('ghost', (g1, c1, root1, cur1)),
                                ('learned', j))
        if not I.branch(I.truth(I.ev(s.test))):
            return
        try:
            I.block(s.body)
        except BreakEx:
            return
        except ContinueEx:
            pass
        # the iteration ends: invariant and progress
        c2 = m.c(I)
        root2 = I.deref(I.st.heap[m.tree_oid].fields['root']).e
        v2 = I.deref(I.st.env[var])
        if isinstance(v2, Obj):
            I.fail(N + 'the loop stands at a concept')
        cur2 = v2.e
        cands = r_consts(I)
        g2 = new_ghost(I, c2, root2, g1, cands)
        news = [x_[1] for x_ in I.st.events if x_[0] == 'new']

        def size2(q):
            r = size1(q)
            for e in news + ([] if is_true(moved) else [cur1]):
                r = ite(q == e, ONE + mksum(YR, c2['ch'](e, YR),
                                            size1(YR)), r)
            return lsimp(r)
        moved = lsimp(cur2 != cur1)
        if not (is_true(moved) or is_false(moved)):
            moved = BoolVal(not I.prover.valid(
                I.st.conds(), I.st.facts, cur2 == cur1)[0])
            if is_true(moved):
                I.prove(N + 'the loop moves', cur2 != cur1)
        anc2 = lambda q: lsimp(And(*([Or(anc1(q), And(q == cur1, moved))] + [
            q != e for e in news])))
        cs = Cases(I, c2, [root2, cur2])
        prove_clauses(I, N + 'kept by an iteration: ', self.clauses(
            c2, root2, g2, cur2, size2, anc2), cs)
        I.prove(N + 'an iteration makes progress',
                cs.resolve(size2(cur2) <= size1(cur1) - 1))
        raise Infeasible()


def learn(ctx, short):
    I, m = setup(ctx, short)
    f = I.find_method(LEARNERS[short][1], 'ifit')
    ctx.res.funcs.append(f.full)
    ctx.func('cobweb', 'CobwebTree.cobweb')
    raw = Key(fresh('raw', K))
    if short != 'trestle':
        raw = fresh_inst(I)
    g = base_ghost()
    assume_wf(I, m.comps, m.root, g)
    I.st.facts.append(choice_fact(m.comps, g))
    size, anc = freshfn('size', R, REAL), (lambda q: FALSE)
    c0 = m.comps
    I.st.facts.append(Fact('sizes', (R, R), lambda p, q: Implies(
        And(c0['ch'](p, q), g.tin(p)), size(p) == ONE + mksum(
            YR, c0['ch'](p, YR), size(YR))),
        trig=on_apps(c0['ch'])))
    I.st.facts.append(Fact('sizes are positive', (R,), lambda p: Implies(
        g.tin(p), size(p) >= 1)))
    N = 'ifit: '
    I.whiles['CobwebTree.cobweb'] = Learn(m, raw.e, N, g, size, anc, short)

    def post(I, out):
        if out.kind == 'exc' and out.val.cls == 'ValueError' and \
                events(I, 'sane') and not events(I, 'ghost'):
            I.obs.append(Ob_(
                N + 'a rejected instance changes nothing',
                I.st.heap[m.oid].comps is c0 and not events(I, 'scales')
                and I.deref(I.st.heap[m.tree_oid].fields['root']).e.eq(
                    m.root)))
            return
        if not ctx.value(I, N, out):
            return
        c = m.c(I)
        gh = [x_[1] for x_ in I.st.events if x_[0] == 'ghost']
        if not gh:
            I.fail(N + 'the instance went through the loop')
        g1, c1, root1, cur1 = gh[0]
        j = Key(events(I, 'learned')[0][1])
        root = I.deref(I.st.heap[m.tree_oid].fields['root']).e
        res = I.deref(out.val)
        if not isinstance(res, Ref):
            I.fail(N + 'returns a concept of the tree')
        res = res.e
        cands = r_consts(I)
        g2 = new_ghost(I, c, root, g1, cands)
        cs = Cases(I, c, [root, res])
        prove_clauses(I, N + 'afterwards: ', wf_clauses(c, root, g2), cs)
        I.prove(N + 'the root counts the instance once', cs.resolve(
            c['count'](root) == c0['count'](m.root) + 1))
        I.prove(N + 'the root table gains exactly the instance', cs.resolve(
            c['x'](root) == c0['x'](m.root) + delta(j.e)))
        q, z = fresh('q', R), fresh('z', R)
        I.prove(N + 'returns a concept of the tree', cs.resolve(
            g2.tin(res)))
        old = leaf0(g, c0, res)
        prove_clauses(I, N, [
            ('returns a leaf', (R,), lambda z: Not(c['ch'](res, z))),
            ('the leaf recorded the instance', (), lambda: Or(
                And(old, c['count'](res) == c0['count'](res) + 1,
                    c['x'](res) == c0['x'](res) + delta(j.e)),
                And(Not(c0['alive'](res)), c['count'](res) == 1,
                    c['x'](res) == delta(j.e)))),
            ('other leaves keep their instances', (R,), lambda q: Implies(
                And(leaf0(g, c0, q), q != res), And(
                    g2.tin(q), c['count'](q) == c0['count'](q),
                    c['x'](q) == c0['x'](q)))),
            ('other leaves stay leaves', (R, R), lambda q, z: Implies(
                And(leaf0(g, c0, q), q != res),
                Not(c['ch'](q, z)))),
        ], cs)
    ctx.run(I, I.st, f, m.tree, [raw], post)


def _mk_learn(short):
    @unit('tree.learn.' + short, ['C01', 'C02', 'C03', 'C10', 'C11'] + (
        [] if short == 'cobweb' else ['C15']),
        '%s.ifit: check, scales, the learning loop with its operators'
        % LEARNERS[short][1][1])
    def u(ctx):
        learn(ctx, short)


for _s in LEARNERS:
    _mk_learn(_s)
