"""Clusterings (C14)."""
import ast
from .vals import *
from .unit import unit, Ob_
from .interp import PyExc, Infeasible, PathFailed, BreakEx, ContinueEx
from . import loop as L
from .units_table import TABC
from .units_eval import Thing
from .units_tree import assigned, note, events

CL = 'cluster'
lin, lel = fn('lin', K, I, BOOL), fn('lelem', K, I, K)
member = fn('item of', K, K, BOOL)
I_ = I


class Root(Thing):
    ops = ()

    def __init__(self):
        self.id = fresh('id', K)

    def py_getattr(self, I, name):
        if name == 'concept_id':
            return Key(self.id)
        raise Unsupported('concept.' + name)


class Tree(Thing):
    """the caller's tree: only its root's name is looked at"""
    ops = ()

    def __init__(self):
        self.root = Root()

    def py_getattr(self, I, name):
        if name == 'root':
            return self.root
        raise Unsupported('tree.' + name)


def at_places(c):
    """for every clustering and every position named"""
    def trig(ts, by):
        return [(t.arg(0), p) for t in ts if is_app(t) and t.decl().eq(c)
                for p in by.get('I', ())]
    return trig


class Iter(object):
    """cluster_iter as its callers see it: a sequence of clusterings with
    one label per instance, each with its score"""
    def __init__(self, ctx, J, N, expect, wrap=None, hook=None):
        self.N, self.expect = N, expect
        self.wrap = wrap or (lambda J, c: Key(c))
        self.hook = hook
        self.m = fresh('clusterings', REAL)
        self.c, self.h = freshfn('c', REAL, K), freshfn('h', REAL, REAL)
        self.calls = 0
        J.contracts['cluster_iter'] = self

    def __call__(self, J, recv, args, kw, f):
        env = J.bind(f, recv, args, kw)
        N, m, c, h = self.N, self.m, self.c, self.h
        for n, v in self.expect.items():
            if isinstance(v, z3.ExprRef):
                x = J.deref(env[n])
                J.prove(N + 'the clusterings of the given tree and '
                        'instances are asked for', (
                            J.truth(x) if v.sort().eq(BOOL) else
                            J.num(x) if v.sort().eq(REAL) else
                            J.key(x)) == v)
            else:
                J.obs.append(Ob_(N + 'the clusterings of the given tree and '
                                 'instances are asked for', same(J.deref(
                                     env[n]), v)))
        inst = self.expect['instances']
        J.st.assume(And(m >= 0, L.isint(m)))
        J.st.facts.append(Fact('one label per instance', (REAL, I_),
                               lambda i, p: lin(c(i), p) == lin(inst, p),
                               trig=at_places(c)))
        J.st.facts.append(Fact('a clustering', (REAL,), lambda i: And(
            islist(c(i)), Not(Or(isdict(c(i)), istup(c(i)), isnumt(c(i)),
                                 c(i) == KNONE))), trig=on_apps(c)))
        d = Dom([L.ranged(ZERO, m, lambda i: (self.wrap(J, c(i)),
                                              Num(h(i))))])
        if self.hook:
            d.for_hook = lambda J, s: self.hook(J, s, self)
        return d


distinct = fn('distinct items', K, REAL)


def setup(ctx, name):
    J = ctx.interp(TABC)
    J.st = State()
    f = ctx.func(CL, name)
    t, inst, mod = Tree(), fresh('instances', K), fresh('mod', BOOL)
    J.st.assume(And(islist(inst), Not(Or(isdict(inst), istup(inst)))))
    return J, f, t, inst, mod


@unit('cluster.k_cluster', ['C14'],
      'at most k clusters, one label per instance')
def u_k(ctx):
    J, f, t, inst, mod = setup(ctx, 'k_cluster')
    N = 'k_cluster: '
    k = fresh('k', REAL)
    it = Iter(ctx, J, N, {'tree': t, 'instances': inst, 'mod': mod,
                          'labels': TRUE})

    def post(J, out):
        if out.kind == 'exc' and out.val.cls == 'ValueError':
            J.prove(N + 'only less than two clusters are refused', k < 2)
            return
        if not ctx.value(J, N, out):
            return
        J.prove(N + 'less than two clusters are refused', k >= 2)
        r = J.key(J.deref(out.val))
        p, q = fresh('p', I_), fresh('q', I_)
        J.prove(N + 'one label per instance, in order', lin(r, p)
                == lin(inst, p))
        J.prove(N + 'never more than k labels', Or(
            distinct(r) <= k, Implies(And(lin(r, p), lin(r, q)), lel(r, p)
                                      == lel(r, q))))
        e = J.key(J.call(Fn('builtin', name='str'), [Key(t.root.id)], {}))
        J.prove(N + 'the trivial clustering uses the root', Or(
            distinct(r) <= k, Implies(lin(r, p), lel(r, p) == J.key(
                J.binop(ast.Add(), 'Concept', Key(e))))))
    ctx.run(J, J.st, f, None, [t, Key(inst), Num(k), Bl(mod)], post)


@unit('cluster.cluster', ['C14'], 'cluster passes the clusterings on')
def u_c(ctx):
    J, f, t, inst, mod = setup(ctx, 'cluster')
    N = 'cluster: '
    lo, hi = fresh('minsplit', REAL), fresh('maxsplit', REAL)
    it = Iter(ctx, J, N, {'tree': t, 'instances': inst, 'mod': mod,
                          'labels': TRUE, 'minsplit': lo, 'maxsplit': hi})

    def post(J, out):
        if not ctx.value(J, N, out):
            return
        d = J.deref(out.val)
        r = J.rec(d) if isinstance(d, Obj) else None
        if not isinstance(r, RecList) or len(r.parts) != 1 or \
                not r.parts[0].sort.eq(REAL):
            raise Unsupported('shape of the result')
        s, i = r.parts[0], fresh('i', REAL)
        J.obs.append(Ob_(N + 'in order', bool(s.ordered)))
        J.prove(N + 'every clustering is passed on once', s.dom(i) == And(
            i >= 0, i < it.m, L.isint(i)))
        J.prove(N + 'clusterings are passed on unchanged', Implies(
            s.dom(i), J.key(s.elem(i)) == it.c(i)))
    ctx.run(J, J.st, f, None, [t, Key(inst), Num(lo), Num(hi), Bl(mod)],
            post)


class Cluster(Thing):
    """a concept of a clustering: only its number is looked at"""
    ops = ()

    def __init__(self, e):
        self.e = e

    def same_as(self, b):
        return isinstance(b, Cluster) and self.e.eq(b.e)

    def map_terms(self, f):
        return Cluster(f(self.e))

    def py_getattr(self, I, name):
        if name == 'concept_id':
            return Key(number(self.e))
        raise Unsupported('concept.' + name)


number = fn('concept number', K, K)


def concepts(J, c):
    """a clustering as a list of concepts"""
    return J.new_list((Seg('gen', sort=I_, dom=lambda p: lin(c, p),
                           elem=lambda p: Cluster(lel(c, p)),
                           ordered=True),))


def label(J, e):
    s = J.key(J.call(Fn('builtin', name='str'), [Key(e)], {}))
    return J.key(J.binop(ast.Add(), 'Concept', Key(s)))


class Best(object):
    """invariant of a search: what is kept is the clustering seen so far with
    the best score, together with its score"""
    def __init__(self, N, labels):
        self.N, self.labels = N, labels
        self.w = fresh('best', REAL)

    def parts(self, v):
        return [x for y in v for x in self.parts(y)] if isinstance(
            v, tuple) else [v]

    def value(self, J, c):
        """the clustering c as it is kept"""
        if not self.labels:
            return concepts(J, c)
        return J.new_list((Seg('gen', sort=I_, dom=lambda p: lin(c, p),
                               elem=lambda p: Key(label(J, number(
                                   lel(c, p)))), ordered=True),))

    def is_list(self, J, v):
        return isinstance(v, Obj) and isinstance(J.rec(v), RecList)

    def is_(self, J, v, c):
        """the list v is the clustering c"""
        if not self.is_list(J, v):
            raise Unsupported('a clustering of another shape')
        ps = J.rec(v).parts
        if len(ps) != 1 or ps[0].kind != 'gen' or not ps[0].sort.eq(I_):
            raise Unsupported('a clustering of another shape')
        s, p = ps[0], fresh('p', I_)
        if not s.ordered:
            return FALSE
        el = s.elem(p)
        if self.labels:
            same_ = J.key(J.deref(el)) == label(J, number(lel(c, p)))
        elif isinstance(el, Cluster):
            same_ = el.e == lel(c, p)
        else:
            return FALSE
        return And(s.dom(p) == lin(c, p), Implies(lin(c, p), same_))

    def __call__(self, J, s, it):
        N, h, w = self.N, it.h, self.w
        inf = float('inf')
        if s.orelse:
            raise Unsupported('a loop of another kind')
        tgt = assigned([ast.Assign(targets=[s.target], value=s.target)])
        names = [n for n in assigned(s.body) if n not in tgt
                 and n in J.st.env]
        init = {n: J.deref(J.st.env[n]) for n in names}
        flat = [J.deref(x) for n in names for x in self.parts(init[n])]
        if sum(isinstance(x, float) and x == inf for x in flat) != 1 or \
                sum(self.is_list(J, x) for x in flat) != 1:
            raise Unsupported('what does the search keep?')
        i = fresh('i', REAL)
        J.st.assume(And(i >= 0, i <= it.m, L.isint(i)))
        first = J.choose(2) == 0
        if first:
            J.st.assume(i == 0)
        else:
            J.st.assume(And(w >= 0, w < i, L.isint(w)))
            J.st.facts.append(Fact('the best so far', (REAL,), lambda j:
                                   Implies(And(j >= 0, j < i, L.isint(j)),
                                           h(w) <= h(j)), trig=on_apps(h)))

        def now(v):
            v = J.deref(v)
            if isinstance(v, tuple):
                return tuple(now(x) for x in v)
            if isinstance(v, float) and v == inf:
                return v if first else Num(h(w))
            if self.is_list(J, v):
                return v if first else self.value(J, it.c(w))
            if is_num(v):
                return Num(fresh('counter', REAL))
            return Opaque('loop value')
        for n in names:
            J.st.env[n] = now(init[n])
        heap = dict(J.st.heap)
        if not J.branch(i < it.m):
            note(J, 'left', first)
            J.st.assume(i == it.m)
            return
        J.assign(s.target, (it.wrap(J, it.c(i)), Num(h(i))))
        try:
            J.block(s.body)
        except ContinueEx:
            pass
        except BreakEx:
            raise Unsupported('the search is left early')

        def cmp(v, u, out):
            v, u = J.deref(v), J.deref(u)
            if isinstance(u, tuple):
                if not isinstance(v, tuple) or len(u) != len(v):
                    raise Unsupported('the search keeps something else')
                for x, y in zip(v, u):
                    cmp(x, y, out)
            elif isinstance(u, float) and u == inf:
                out.append((0, v))
            elif self.is_list(J, u):
                out.append((1, v))
        got = []
        for n in names:
            cmp(J.st.env[n], init[n], got)
        sc, cl = [v for k, v in got if not k][0], \
            [v for k, v in got if k][0]
        J.obs.append(Ob_(N + 'the first clustering is kept', not (
            isinstance(sc, float) and sc == inf)))
        if isinstance(sc, float):
            raise Infeasible()
        e, j = J.num(sc), fresh('j', REAL)
        what = [And(e == h(i), self.is_(J, cl, it.c(i)))]
        if not first:
            what.append(And(e == h(w), self.is_(J, cl, it.c(w))))
        J.prove(N + 'a clustering is kept together with its score',
                disj(what))
        J.prove(N + 'no clustering so far has a better score', Implies(And(
            j >= 0, j <= i, L.isint(j)), e <= h(j)))
        raise Infeasible()


def _search(labels):
    @unit('cluster.split_search.' + ('labels' if labels else 'concepts'),
          ['C14'], 'the search returns a clustering with the best score')
    def u(ctx):
        J, f, t, inst, mod = setup(ctx, 'cluster_split_search')
        N = 'cluster_split_search: '
        lo, hi = fresh('minsplit', REAL), fresh('maxsplit', REAL)
        heur = fresh('heuristic', K)
        best = Best(N, labels)
        it = Iter(ctx, J, N, {'tree': t, 'instances': inst, 'mod': mod,
                              'labels': FALSE, 'minsplit': lo,
                              'maxsplit': hi, 'heuristic': heur}, concepts,
                  best)

        def post(J, out):
            if not ctx.value(J, N, out):
                return
            r, j = J.deref(out.val), fresh('j', REAL)
            left = events(J, 'left')
            if len(left) != 1:
                raise Unsupported('not one search')
            if left[0][1]:
                J.prove(N + 'the trivial clustering only when there is no '
                        'other', it.m <= 0)
                ps = J.rec(r).parts if best.is_list(J, r) else ()
                if len(ps) != 1 or ps[0].kind != 'gen':
                    raise Unsupported('shape of the result')
                x = fresh('x', ps[0].sort)
                J.prove(N + 'the trivial clustering uses the root', Implies(
                    ps[0].dom(x), J.key(J.deref(ps[0].elem(x)))
                    == label(J, t.root.id)))
                return
            w = best.w
            J.prove(N + 'one of the clusterings is returned', And(
                w >= 0, w < it.m, L.isint(w), best.is_(J, r, it.c(w))))
            J.prove(N + 'no clustering has a better score', Implies(And(
                j >= 0, j < it.m, L.isint(j)), it.h(w) <= it.h(j)))
        ctx.run(J, J.st, f, None, [t, Key(inst), Key(heur), Num(lo),
                                   Num(hi), Bl(mod), labels, False], post)


_search(True)
_search(False)


# ----------------------------------------------------------- the clusterings
class Caller(Thing):
    """the caller's tree: it may be copied, nothing else"""
    ops = ('ifit', 'categorize', 'fit')

    def __init__(self, N, copy):
        self.N, self.copy = N, copy

    def py_method(self, J, name, args, kw):
        if name == 'categorize':
            return self.copy.answer(J, args, kw)
        J.obs.append(Ob_(self.N + "the caller's tree is left untouched",
                         False))
        raise PathFailed()

    def py_getattr(self, J, name):
        if name == 'root':
            raise Unsupported("the caller's tree is used")
        return Thing.py_getattr(self, J, name)


class Copied(Thing):
    """the copy: an instance is answered by a concept of it, which stays in
    it (C03)"""
    ops = ('ifit', 'categorize')

    def __init__(self, m, g):
        self.m, self.g = m, g
        self.leaf = freshfn('leaf of', K, R)

    def answer(self, J, args, kw):
        a = args[0] if args else kw['instance']
        e = self.leaf(J.key(a))
        J.st.assume(And(e != NULL, self.g.tin(e)))
        return self.m.ref(e)

    def py_method(self, J, name, args, kw):
        return self.answer(J, args, kw)

    def py_getattr(self, J, name):
        if name == 'root':
            return self.m.ref(self.m.root)
        return Thing.py_getattr(self, J, name)


class Rise(object):
    """while loop climbing to just below the root"""
    def __init__(self, m, N, g, up):
        self.m, self.N, self.g, self.up = m, N, g, up

    def __call__(self, J, s):
        m, N, g, up = self.m, self.N, self.g, self.up
        names = assigned(s.body)
        vs = [n for n in names if isinstance(J.deref(J.st.env.get(n)), Ref)]
        if len(vs) != 1 or s.orelse:
            raise Unsupported('a loop of another kind')
        var = vs[0]
        at0 = J.deref(J.st.env[var]).e
        J.prove(N + 'the climb starts at a concept of the tree', g.tin(at0))
        leave = J.choose(2) == 0
        cur = J.fresh('end' if leave else 'cur', R)
        J.st.assume(And(cur != NULL, g.tin(cur), up(cur) == up(at0)))
        for n in names:
            if n != var:
                J.st.env[n] = Key(J.fresh('passed', K))
        J.st.env[var] = m.ref(cur)

        def ends():
            v = J.deref(J.st.env[var])
            if not isinstance(v, Ref):
                raise Unsupported('the loop variable changes its kind')
            self.need(J, And(v.e != NULL, g.tin(v.e), up(v.e) == v.e,
                             up(v.e) == up(at0)))
            J.prove(N + 'the climb ends just below the root', And(
                v.e != NULL, g.tin(v.e), up(v.e) == v.e,
                up(v.e) == up(at0)))
            raise Infeasible()
        if leave:
            # proved below for every way out
            J.st.assume(up(cur) == cur)
            return
        if not J.branch(J.truth(J.ev(s.test))):
            ends()
        try:
            J.block(s.body)
        except BreakEx:
            ends()
        except ContinueEx:
            pass
        v2 = J.deref(J.st.env[var])
        if not isinstance(v2, Ref):
            raise Unsupported('the loop variable changes its kind')
        self.need(J, And(g.tin(v2.e), g.d(v2.e) < g.d(cur), up(v2.e)
                         == up(cur)))
        J.prove(N + 'the climb stays in the tree', g.tin(v2.e))
        J.prove(N + 'the climb makes progress', g.d(v2.e) < g.d(cur))
        J.prove(N + 'the climb passes every concept above', up(v2.e)
                == up(cur))
        raise Infeasible()

    def need(self, J, goal):
        """a loop that keeps another invariant is left to the bounded
        check"""
        if not J.must(goal):
            raise Unsupported('a climb of another kind')


class Splits(object):
    """loop over the splits: an arbitrary one that yields"""
    def __init__(self, N, copy, lo, hi):
        self.N, self.copy, self.lo, self.hi = N, copy, lo, hi
        self.inside = False

    def __call__(self, J, s, it):
        if events(J, 'splitting'):
            return L.exec_for(J, s, it)
        note(J, 'splitting')
        N = self.N
        segs = J.iterate(it)
        if len(segs) != 1 or getattr(segs[0], 'lo', None) is None:
            raise Unsupported('a loop of another kind')
        for n in assigned(s.body):
            if n in J.st.env:
                raise Unsupported('state carried between splits')
        x = fresh('split', REAL)
        J.st.assume(segs[0].dom(x))
        J.st.assume(And(x >= self.lo, x <= self.hi))
        J.assign(s.target, segs[0].elem(x))
        J.block(s.body)
        raise Unsupported('a split without a clustering')


def _iter(short, labels):
    @unit('cluster.iter.%s.%s' % (short, 'labels' if labels else
                                  'concepts'), ['C14'],
          'a clustering names, for every instance, the concept just below '
          'the root that holds it')
    def u(ctx):
        from .units_tree import setup as tsetup, LEARNERS
        from .units_query import hierarchy
        J, m = tsetup(ctx, short)
        c0, g, size = hierarchy(J, m)
        N = 'cluster_iter: '
        f = ctx.func(CL, 'cluster_iter')
        copy = Copied(m, g)
        t = Caller(N, copy)
        up = freshfn('just below the root', R, R)
        J.st.facts.append(Fact('just below the root', (R,), lambda q: Implies(
            And(q != NULL, g.tin(q)), up(q) == ite(
                q == m.root, q, ite(c0['parent'](q) == m.root, q, up(
                    c0['parent'](q)))))))
        n, at = fresh('instances', REAL), freshfn('instance', REAL, K)
        J.st.assume(And(n >= 0, L.isint(n)))
        seq = L.ranged(ZERO, n, lambda i: Key(at(i)))

        def total(J, h):
            if not h(seq.elem(fresh('i', REAL))).eq(ONE):
                raise Unsupported('a sum over instances')
            return n
        seq.sum = total
        inst = J.new_list((seq,))
        lo, hi = fresh('minsplit', REAL), fresh('maxsplit', REAL)
        J.st.assume(And(L.isint(lo), L.isint(hi)))
        J.fors[f.qual] = Splits(N, copy, lo, hi)
        J.whiles['*'] = Rise(m, N, g, up)
        J.contracts = dict(J.contracts)
        for h in ('CU', 'AIC', 'AICc', 'BIC'):
            J.contracts[h] = lambda J, recv, args, kw, g: Num(fresh(
                'score', REAL))

        def c_copy(J, recv, args, kw, g):
            v = J.deref(args[0])
            if not isinstance(v, Caller):
                raise Unsupported('a copy of something else')
            return v.copy
        J.contracts['ext copy.deepcopy'] = c_copy
        mod = Bl(fresh('mod', BOOL))

        def offered(J, v):
            v = J.deref(v)
            if not isinstance(v, tuple) or len(v) != 2:
                raise Unsupported('yields something else')
            d = J.deref(v[0])
            ps = J.rec(d).parts if isinstance(d, Obj) and isinstance(
                J.rec(d), RecList) else ()
            if len(ps) != 1 or ps[0].kind != 'gen' or not ps[0].sort.eq(
                    REAL):
                raise Unsupported('shape of the clustering')
            s, i = ps[0], fresh('i', REAL)
            J.obs.append(Ob_(N + 'in order', bool(s.ordered)))
            J.prove(N + 'one label per instance', s.dom(i) == And(
                i >= 0, i < n, L.isint(i)))
            st = J.st.copy()
            J.st.assume(s.dom(i))
            e = J.deref(s.elem(i))
            q = up(copy.leaf(at(i)))
            if labels:
                J.prove(N + 'the label of the concept just below the root',
                        J.key(e) == label(J, fn('cid', R, K)(q)))
            else:
                J.prove(N + 'the concept just below the root', (
                    e.e == q) if isinstance(e, Ref) else FALSE)
            raise Infeasible()
        J.yields[f.qual] = offered

        def post(J, out):
            if out.kind == 'exc' and out.val.cls == 'ValueError':
                J.prove(N + 'only what cannot be clustered is refused', Or(
                    lo < 1, lo > hi, n == 0))
                J.obs.append(Ob_(N + 'refused before anything happens',
                                 not events(J, 'splitting')))
                return
            ctx.value(J, N, out)
        cu = J.prog.mods['concept_formation.cluster'].funcs['CU']
        ctx.run(J, J.st, f, None, [t, inst, Fn('func', f=cu), Num(lo),
                                   Num(hi), mod, labels], post)


_iter('cobweb', True)
_iter('cobweb', False)


@unit('cluster.lemma', ['C14'],
      'the concept just below the root holds the leaf, and two such concepts '
      'never overlap (induction step)')
def u_lemma(ctx):
    from .units_tree import setup as tsetup
    from .units_query import hierarchy
    J, m = tsetup(ctx, 'cobweb')
    c0, g, size = hierarchy(J, m)
    up = freshfn('just below the root', R, R)
    above = freshfn('above', R, R, BOOL)
    q = fresh('q', R)
    par = c0['parent']
    J.st.assume(And(q != NULL, g.tin(q)))
    J.st.facts.append(Fact('just below the root', (R,), lambda q: Implies(
        And(q != NULL, g.tin(q)), up(q) == ite(
            q == m.root, q, ite(par(q) == m.root, q, up(par(q)))))))
    J.st.facts.append(Fact('above', (R, R), lambda p, q: Implies(
        g.tin(q), above(p, q) == Or(p == q, And(q != m.root, above(
            p, par(q)))))))

    def low(p):
        return Or(up(p) == m.root, par(up(p)) == m.root)
    J.st.assume(Implies(q != m.root, And(
        g.tin(par(q)), low(par(q)), above(up(par(q)), par(q)))))
    J.prove('the concept is the root or just below it', low(q))
    J.prove('the concept holds the leaf', above(up(q), q))
    J.prove('the root stands for the root only', Implies(
        And(up(q) == m.root, Implies(q != m.root, Implies(
            up(par(q)) == m.root, par(q) == m.root))), q == m.root))


@unit('cluster.lemma.refine', ['C14'],
      'after a split every instance keeps its cluster or moves to a child of '
      'it (induction step over the contract of split)')
def u_refine(ctx):
    from .units_tree import setup as tsetup
    from .units_query import hierarchy
    J, m = tsetup(ctx, 'cobweb')
    c0, g, size = hierarchy(J, m)
    par, root = c0['parent'], m.root
    t, q = fresh('split concept', R), fresh('q', R)
    J.st.assume(And(g.tin(t), t != root, t != NULL, par(t) == root))
    J.st.assume(And(g.tin(q), q != NULL, q != t))

    def par2(q):
        return ite(par(q) == t, root, par(q))
    ups = []
    for nm, p in (('before', par), ('after', par2)):
        up = freshfn('just below the root ' + nm, R, R)
        J.st.facts.append(Fact(nm, (R,), (lambda up, p: lambda q: Implies(
            And(q != NULL, g.tin(q)), up(q) == ite(q == root, q, ite(
                p(q) == root, q, up(p(q))))))(up, p)))
        ups.append(up)
    up, up2 = ups

    def refined(q):
        return Or(up2(q) == up(q), And(up(q) == t, par(up2(q)) == t))
    J.st.assume(Implies(And(q != root, par(q) != t), And(
        g.tin(par(q)), par(q) != NULL, refined(par(q)))))
    J.st.assume(And(up(t) == up(t), up(q) == up(q), up2(q) == up2(q)))
    J.prove('the new cluster is the old one or a child of it', refined(q))
