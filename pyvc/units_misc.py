"""Batch learning, clearing, copies and the derived questions about concepts."""
from .vals import *
from .unit import unit, Ob_
from .interp import (PyExc, Infeasible, PathFailed, BreakEx, ContinueEx,
                     ReturnEx)
from . import loop as L
from .tree import *
from .units_tree import LEARNERS, setup, assigned, events, YR
from .units_query import hierarchy, heap_same, tree_same
from .units_table import TABC
from .units_eval import Thing, extra

gain = fn('gain', K, REAL)     # what one instance adds to a total of the root


class Batch(Thing):
    """a learner seen through one total of its root: units tree.learn say
    that learning an instance adds what the instance contributes"""
    ops = ('ifit',)

    def __init__(self, I):
        self.x0 = fresh('total', REAL)
        self.oid = I.alloc(RecObj('total', {'x': Num(self.x0)})).oid

    def op_ifit(self, I, args, kw):
        extra(args, kw, 1, 'instance')
        a = args[0] if args else kw['instance']
        r = I.st.heap[self.oid]
        I.st.heap[self.oid] = r.set('x', Num(r.fields['x'].e + gain(
            I.key(a))))
        return Opaque('leaf')


def _fit(short):
    @unit('tree.fit.' + short, ['C03', 'C11'],
          'fit learns every instance once per iteration')
    def u(ctx):
        I = ctx.interp(TABC)
        I.st = State()
        f = I.find_method(LEARNERS[short][1], 'fit')
        ctx.res.funcs.append(f.full)
        n, its = fresh('n', REAL), fresh('iterations', REAL)
        I.st.assume(And(n >= 0, its >= 0, L.isint(n), L.isint(its)))
        at = freshfn('given', REAL, K)
        lst = I.new_list((L.ranged(ZERO, n, lambda x: Key(at(x))),))
        t = Batch(I)
        before = I.st.heap[lst.oid]
        N = 'fit: '

        def post(J, out):
            if not ctx.value(J, N, out):
                return
            J.obs.append(Ob_(N + "the caller's list stays as it was",
                             J.st.heap[lst.oid] is before))
            r, p = fresh('r', REAL), fresh('p', REAL)
            J.prove(N + 'every total of the root grows by each instance '
                    'once per iteration', J.st.heap[t.oid].fields['x'].e
                    == t.x0 + mksum(r, And(
                        ZERO <= r, r < its, L.isint(r)), mksum(p, And(
                            ZERO <= p, p < n, L.isint(p)), gain(at(p)))))
        ctx.run(I, I.st, f, t, [lst, Num(its), Bl(fresh(
            'randomize', BOOL))], post)


for _s in LEARNERS:
    _fit(_s)


# ------------------------------------------------------- starting afresh

def empty_root(ctx, J, N, m, c0, out):
    """the tree's root is a new concept without instances"""
    r = J.deref(J.st.heap[m.tree_oid].fields.get('root'))
    if not isinstance(r, Ref):
        J.fail(N + 'the root is a concept')
    c = J.st.heap[m.oid].comps
    e, z = r.e, fresh('z', R)
    J.prove(N + 'the root is a new concept', And(e != NULL, Not(
        c0['alive'](e)), c['alive'](e)))
    J.prove(N + 'the root holds nothing', And(
        c['count'](e) == 0, c['x'](e) == 0, Not(c['ch'](e, z))))
    J.prove(N + 'the root has no parent and belongs to the tree', And(
        c['parent'](e) == NULL, c['tree'](e) == TREE))
    p = fresh('p', R)
    for n in c0:
        a = (p, z) if n == 'ch' else (p,)
        J.prove(N + 'concepts of the past stay as they were', Implies(
            c0['alive'](p), c[n](*a) == c0[n](*a)))


def empty_scales(J, N, m, before):
    now = J.st.heap[m.tree_oid].fields
    sc = J.deref(now.get('attr_scales'))
    r = J.rec(sc) if isinstance(sc, Obj) else None
    if isinstance(r, RecComp) and r.kind == 'kcv':
        J.prove(N + 'no scale is remembered', Not(r.comps['has'](fresh(
            'a', K))))
        return
    J.obs.append(Ob_(N + 'no scale is remembered', isinstance(r, RecC)
                     and not r.items))


def _clear(short):
    @unit('tree.clear.' + short, ['C15', 'C02', 'C16'],
          'clearing forgets all concepts and scales, nothing else')
    def u(ctx):
        I, m = setup(ctx, short)
        f = I.find_method(LEARNERS[short][1], 'clear')
        ctx.res.funcs.append(f.full)
        c0 = m.comps
        I.st.facts.append(Fact('no concept is None', (R,), lambda p: Implies(
            c0['alive'](p), p != NULL), trig=on_apps(c0['alive'])))
        before = dict(I.st.heap[m.tree_oid].fields)
        N = 'clear: '

        def post(J, out):
            if not ctx.value(J, N, out):
                return
            empty_root(ctx, J, N, m, c0, out)
            now = J.st.heap[m.tree_oid].fields
            if short != 'cobweb':
                empty_scales(J, N, m, before)
            J.obs.append(Ob_(N + 'the configuration stays as it was', set(
                now) == set(before) and all(same(now[n], before[n])
                                            for n in now if n not in (
                'root', 'attr_scales', 'gensym_counter'))))
        ctx.run(I, I.st, f, m.tree, [], post)

    @unit('tree.new.' + short, ['C15', 'C02'],
          'a new tree is empty and configured as asked')
    def v(ctx):
        I, m = setup(ctx, short)
        f = I.find_method(LEARNERS[short][1], '__init__')
        ctx.res.funcs.append(f.full)
        c0 = m.comps
        I.st.heap[m.tree_oid] = RecObj(LEARNERS[short][1], {})
        N = 'new tree: '
        sc, inner = Num(fresh('scaling', REAL)), Bl(fresh('inner', BOOL))

        def post(J, out):
            if not ctx.value(J, N, out):
                return
            empty_root(ctx, J, N, m, c0, out)
            now = J.st.heap[m.tree_oid].fields
            if short != 'cobweb':
                empty_scales(J, N, m, {})
                J.obs.append(Ob_(N + 'configured as asked', same(
                    now.get('scaling'), sc) and same(now.get(
                        'inner_attr_scaling'), inner)))
        ctx.run(I, I.st, f, m.tree, [] if short == 'cobweb'
                else [sc, inner], post)


for _s in LEARNERS:
    _clear(_s)


# ------------------------------------------- derived questions on concepts

def _node(name, about, fn_, props, shorts=('cobweb', 'cobweb3')):
    def mk(short):
        @unit('query.%s.%s' % (name, short), props, about)
        def u(ctx):
            I, m = setup(ctx, short)
            f = I.find_method(LEARNERS[short][0], name)
            ctx.res.funcs.append(f.full)
            c0, g, size = hierarchy(I, m)
            s = fresh('self', R)
            I.st.assume(g.tin(s))
            N = name + ': '
            args, check = fn_(ctx, I, m, N, c0, g, size, s)
            before = dict(I.st.heap[m.tree_oid].fields)

            def post(J, out):
                J.obs.append(Ob_(N + 'no concept, link or scale changes',
                                 heap_same(J, m, c0, m.root) and tree_same(
                                     J, m, before)))
                if ctx.value(J, N, out):
                    check(J, out.val)
            ctx.run(I, I.st, f, m.ref(s), args, post)
    for short in shorts:
        mk(short)


def _depth(ctx, I, m, N, c0, g, size, s):
    dep = freshfn('depth', R, REAL)
    I.st.facts.append(Fact('depth', (R,), lambda q: Implies(g.tin(q), ite(
        q == m.root, dep(q) == 0, dep(q) == 1 + dep(c0['parent'](q))))))

    def c_depth(J, recv, args, kw, f):
        d = J.deref(recv)
        if args or kw or not isinstance(d, Ref):
            raise Unsupported('depth of something else')
        J.prove(N + 'a concept of the tree is asked', g.tin(d.e))
        J.prove(N + 'the recursion ends', g.d(d.e) < g.d(s))
        return Num(dep(d.e))
    for c in ('CobwebNode', 'Cobweb3Node'):
        I.contracts[c + '.depth'] = c_depth
    I.whiles['*'] = Climb(I, m, N, c0, g)

    def check(J, v):
        J.prove(N + 'the depth is the distance from the root',
                J.num(v) == dep(s))
    return [], check


def _num(ctx, I, m, N, c0, g, size, s):
    # the definition of the number of concepts below, at self
    I.st.assume(size(s) == ONE + mksum(YR, c0['ch'](s, YR), size(YR)))

    def c_num(J, recv, args, kw, f):
        d = J.deref(recv)
        if args or kw or not isinstance(d, Ref):
            raise Unsupported('size of something else')
        J.prove(N + 'the recursion goes down the tree', c0['ch'](s, d.e))
        return Num(size(d.e))
    for c in ('CobwebNode', 'Cobweb3Node'):
        I.contracts[c + '.num_concepts'] = c_num

    def check(J, v):
        J.prove(N + 'every concept below and including this one is counted '
                'once', J.num(v) == size(s))
    return [], check


class Climb(object):
    """while loop walking up to the root; keep: what the walk preserves, a
    function of the concept reached"""
    def __init__(self, I, m, N, c0, g, keep=None):
        self.m, self.N, self.c0, self.g = m, N, c0, g
        self.keep = keep

    def __call__(self, I, s):
        m, N, g = self.m, self.N, self.g
        names = assigned(s.body)
        vs = [n for n in names if isinstance(I.deref(I.st.env.get(n)), Ref)]
        if len(vs) != 1 or s.orelse or self.keep is None:
            raise Unsupported('a loop of another kind')
        var = vs[0]
        at0 = I.deref(I.st.env[var]).e
        ok = lambda t: Or(t == NULL, g.tin(t))
        I.prove(N + 'the climb starts at a concept of the tree', ok(at0))
        cur = fresh('cur', R)
        I.st.assume(And(ok(cur), self.keep(cur) == self.keep(at0)))
        for n in names:
            if n != var:
                I.st.env[n] = Opaque('loop variable ' + n)
        I.st.env[var] = m.ref(cur)
        if not I.branch(I.truth(I.ev(s.test))):
            return
        try:
            I.block(s.body)
        except BreakEx:
            return
        except ContinueEx:
            pass
        v2 = I.deref(I.st.env[var])
        if not isinstance(v2, Ref):
            raise Unsupported('the loop variable changes its kind')
        I.prove(N + 'the climb stays in the tree', ok(v2.e))
        I.prove(N + 'the climb makes progress', Or(v2.e == NULL, g.d(v2.e)
                                                  < g.d(cur)))
        I.prove(N + 'the climb passes every concept above', self.keep(v2.e)
                == self.keep(cur))
        raise Infeasible()


def _is_parent(ctx, I, m, N, c0, g, size, s):
    """above(q): self is q or above q"""
    above = freshfn('above', R, BOOL)
    I.st.facts.append(Fact('above', (R,), lambda q: Implies(Or(
        q == NULL, g.tin(q)), above(q) == And(q != NULL, Or(q == s, And(
            q != m.root, above(c0['parent'](q))))))))
    I.st.assume(Not(above(NULL)))
    o = fresh('other', R)
    I.st.assume(g.tin(o))
    I.whiles['*'] = Climb(I, m, N, c0, g, above)

    def c_rec(J, recv, args, kw, f):
        d, q = J.deref(recv), J.deref(args[0]) if args else None
        if len(args) != 1 or kw or not isinstance(d, Ref) or not isinstance(
                q, Ref):
            raise Unsupported('another question')
        J.prove(N + 'the same concept is looked for', And(d.e == s))
        J.prove(N + 'the recursion goes up', And(g.tin(q.e), g.d(q.e)
                                                < g.d(o)))
        return Bl(above(q.e))
    for c in ('CobwebNode', 'Cobweb3Node'):
        I.contracts[c + '.is_parent'] = c_rec

    def check(J, v):
        J.prove(N + 'says whether the concept is the other or lies above it',
                J.truth(v) == above(o))
    return [m.ref(o)], check


def _shallow(ctx, I, m, N, c0, g, size, s):
    def check(J, v):
        d = J.deref(v)
        r = J.rec(d) if isinstance(d, Obj) else None
        if not isinstance(r, RecObj):
            J.fail(N + 'the copy is an object of its own')
        F = r.fields
        J.prove(N + 'the copy has the counts of the concept', And(
            J.num(F['count']) == c0['count'](s), J.num(F['x'])
            == c0['x'](s)))
        p, t = J.deref(F.get('parent')), J.deref(F.get('tree'))
        J.prove(N + 'the copy has the parent and tree of the concept', And(
            (p.e if isinstance(p, Ref) else NULL) == c0['parent'](s),
            m.tree_term(J, t) == c0['tree'](s)))
        k = J.deref(F.get('children'))
        kr = J.rec(k) if isinstance(k, Obj) else None
        J.obs.append(Ob_(N + 'the copy has no children', isinstance(
            kr, RecList) and not kr.parts))
    return [], check


_node('depth', 'depth is the distance from the root', _depth, ['C02', 'C04'])
_node('num_concepts', 'num_concepts counts the concepts below', _num,
      ['C02', 'C04'])
_node('is_parent', 'is_parent tells whether a concept lies above another',
      _is_parent, ['C02', 'C04', 'C14'])
_node('shallow_copy', 'a shallow copy has the counts and no children',
      _shallow, ['C04', 'C08'])
