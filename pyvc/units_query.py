"""Questions put to a learned tree: categorise, copies, derived queries."""
import ast
from .vals import *
from .unit import unit, Ob_
from .interp import (PyExc, BreakEx, ContinueEx, Infeasible, PathFailed,
                     ReturnEx)
from .tree import *
from .units_tree import (LEARNERS, setup, base_ghost, assume_wf, choice_fact,
                         fresh_inst, size_facts, assigned, events, SELC, YR,
                         t_two_best, note)


def heap_same(I, m, c0, root):
    """nothing in the hierarchy was written"""
    c = I.st.heap[m.oid].comps
    if c is not c0:
        p, q = fresh('p', R), fresh('q', R)
        for n in c0:
            a = (p, q) if n == 'ch' else (p,)
            if not I.prover.valid(I.st.conds(), I.st.facts, lsimp(
                    c[n](*a) == c0[n](*a)))[0]:
                return False
    r = I.deref(I.st.heap[m.tree_oid].fields['root'])
    return isinstance(r, Ref) and r.e.eq(root)


def tree_same(I, m, before, but=()):
    now = I.st.heap[m.tree_oid].fields
    return set(now) == set(before) and all(
        n in but or same(now[n], before[n]) for n in now)


class Descend(object):
    """while loop walking down from the root"""
    def __init__(self, m, N, g, size):
        self.m, self.N, self.g, self.size = m, N, g, size
        self.c0, self.root0 = m.comps, m.root

    def __call__(self, I, s):
        m, N, g = self.m, self.N, self.g
        names = assigned(s.body)
        vs = [n for n in names if isinstance(I.deref(I.st.env.get(n)), Ref)]
        if len(vs) != 1:
            raise Unsupported('which variable descends?')
        var = vs[0]
        cur0 = I.deref(I.st.env[var]).e
        I.prove(N + 'the descent starts at a concept of the tree',
                g.tin(cur0))
        I.obs.append(Ob_(N + 'nothing changes before the descent',
                         heap_same(I, m, self.c0, self.root0)))
        cur = fresh('cur', R)
        I.st.assume(g.tin(cur))
        for n in names:
            if n != var:
                I.st.env[n] = Opaque('loop variable ' + n)
        I.st.env[var] = m.ref(cur)
        if not I.branch(I.truth(I.ev(s.test))):
            return
        try:
            I.block(s.body)
        except BreakEx:
            return
        except ContinueEx:
            pass
        I.obs.append(Ob_(N + 'a step of the descent changes nothing',
                         heap_same(I, m, self.c0, self.root0)))
        v2 = I.deref(I.st.env[var])
        if not isinstance(v2, Ref):
            I.fail(N + 'the descent stays in the tree')
        I.prove(N + 'the descent stays in the tree', g.tin(v2.e))
        I.prove(N + 'the descent makes progress',
                self.size(v2.e) <= self.size(cur) - 1)
        raise Infeasible()


def hierarchy(I, m):
    c0 = m.comps
    g = base_ghost()
    assume_wf(I, c0, m.root, g)
    I.st.facts.append(choice_fact(c0, g))
    size = freshfn('size', R, REAL)
    I.st.facts.append(Fact('sizes', (R, R), lambda p, q: Implies(
        And(c0['ch'](p, q), g.tin(p)), size(p) == ONE + mksum(
            YR, c0['ch'](p, YR), size(YR))), trig=on_apps(c0['ch'])))
    I.st.facts.append(Fact('sizes are positive', (R,), lambda p: Implies(
        g.tin(p), size(p) >= 1)))
    I.st.facts += size_facts(c0, g, size)
    return c0, g, size


def _mk_categorize(short):
    @unit('query.categorize.' + short, ['C04', 'C11', 'C09', 'C16'],
          '%s.categorize: check first, then walk down to a leaf'
          % LEARNERS[short][1][1])
    def u(ctx):
        I, m = setup(ctx, short)
        f = I.find_method(LEARNERS[short][1], 'categorize')
        ctx.res.funcs.append(f.full)
        c0, g, size = hierarchy(I, m)
        N = 'categorize: '
        raw = Key(fresh('raw', K))
        if short != 'trestle':
            raw = fresh_inst(I)
        I.whiles['*'] = Descend(m, N, g, size)
        before = dict(I.st.heap[m.tree_oid].fields)

        def post(I, out):
            I.obs.append(Ob_(N + 'no concept, link or scale changes',
                             heap_same(I, m, c0, m.root) and tree_same(
                                 I, m, before, ('gensym_counter',))
                             and not events(I, 'scales')))
            if out.kind == 'exc' and out.val.cls == 'ValueError' and \
                    events(I, 'sane'):
                return
            if not ctx.value(I, N, out):
                return
            res = I.deref(out.val)
            if not isinstance(res, Ref):
                I.fail(N + 'answers with a concept of the tree')
            z = fresh('z', R)
            I.prove(N + 'answers with a concept of the tree',
                    g.tin(res.e))
            I.prove(N + 'answers with a leaf', Not(c0['ch'](res.e, z)))
            fl = events(I, 'flat')
            j = raw.e
            if short == 'trestle':
                mp = events(I, 'mapped')
                ok = len(fl) == 1 and fl[0][1].eq(raw.e) and len(mp) == 1 \
                    and mp[0][1].e.eq(m.root)
                I.obs.append(Ob_(N + 'the instance is flattened and mapped '
                                 'onto the root first', ok))
                if ok:
                    j = fl[0][2]
            I.obs.append(Ob_(N + 'the instance was checked', any(
                e[1].eq(j) for e in events(I, 'sane'))))
        ctx.run(I, I.st, f, m.tree, [raw], post)


for _s in LEARNERS:
    _mk_categorize(_s)
