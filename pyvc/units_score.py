"""Scores: category utility, hypothetical operators, selection."""
from .vals import *
from .unit import unit, Ob_
from .interp import PyExc, Infeasible, PathFailed
from .tree import *
from .units_tree import (LEARNERS, setup, base_ghost, assume_wf, choice_fact,
                         fresh_inst, wf_clauses, SELC)

YS = fresh('y', R)


class Scene(object):
    """an arbitrary well-formed hierarchy, a concept p of it that holds
    instances, an instance"""
    def __init__(self, ctx, short, contracts=None):
        self.I, self.m = setup(ctx, short, contracts or TREEC)
        I, m = self.I, self.m
        self.c = m.comps
        self.g = base_ghost()
        assume_wf(I, self.c, m.root, self.g)
        I.st.facts.append(choice_fact(self.c, self.g))
        I.st.facts += card_facts(self.c)
        self.p = fresh('p', R)
        I.st.assume(And(self.g.tin(self.p), self.c['count'](self.p) >= 1))
        self.j = fresh_inst(I)
        self.dj = delta(self.j.e)
        self.N = self.c['count'](self.p)
        self.X = self.c['x'](self.p)
        self.T = self.c['tree'](self.p)
        self.short = short

    def f(self, ctx, name):
        f = self.I.find_method(LEARNERS[self.short][0], name)
        if f is None:
            raise Unsupported('%s is gone' % name)
        ctx.res.funcs.append(f.full)
        return f

    def has_kids(self):
        w = self.I.fresh('w', R)
        self.I.st.assume(self.c['ch'](self.p, w))
        return w

    # ------------------------------------------------------ specification
    def num(self, p=None, guard=None):
        ch = self.c['ch']
        p = self.p if p is None else p
        return mksum(YS, And(ch(p, YS), guard(YS)) if guard else ch(p, YS),
                     ONE)

    def e(self, y):
        c = self.c
        return ecg(c['tree'](y), c['count'](y), c['x'](y))

    def gain(self, tot, p=None, guard=None):
        """sum over listed children of their share times their guesses"""
        c = self.c
        p = self.p if p is None else p
        ch = c['ch']
        return mksum(YS, And(ch(p, YS), guard(YS)) if guard else ch(p, YS),
                     c['count'](YS) / tot * self.e(YS))

    def cu(self):
        return (self.gain(self.N) - self.e(self.p)) / self.num()

    def after(self):
        """guesses of p once it recorded the instance"""
        return ecg(self.T, self.N + 1, self.X + self.dj)

    def cu_insert(self, b):
        c, N = self.c, self.N
        n1 = c['count'](b) + 1
        return (self.gain(N + 1) - c['count'](b) / (N + 1) * self.e(b) +
                n1 / (N + 1) * ecg(c['tree'](b), n1, c['x'](b) + self.dj)
                - self.after()) / self.num()

    def cu_new(self):
        N = self.N
        return (self.gain(N + 1) + ONE / (N + 1) * ecg(self.T, ONE, self.dj)
                - self.after()) / (self.num() + 1)

    def cu_merge(self, b1, b2):
        c, N = self.c, self.N
        nm = c['count'](b1) + c['count'](b2) + 1
        xm = c['x'](b1) + c['x'](b2) + self.dj
        return (self.gain(N + 1) - c['count'](b1) / (N + 1) * self.e(b1)
                - c['count'](b2) / (N + 1) * self.e(b2)
                + nm / (N + 1) * ecg(self.T, nm, xm) - self.after()) / (
                    self.num() - 1)

    def cu_split(self, b):
        c, N = self.c, self.N
        return (self.gain(N) - c['count'](b) / N * self.e(b)
                + self.gain(N, b) - self.e(self.p)) / (
                    self.num() - 1 + self.num(b))

    def cu_fringe(self):
        N = self.N
        return (N / (N + 1) * ecg(self.T, N, self.X)
                + ONE / (N + 1) * ecg(self.T, ONE, self.dj)
                - self.after()) / 2


def both(name, props, about):
    def deco(fn_):
        for s in ('cobweb', 'cobweb3'):
            def mk(s=s):
                @unit('%s.%s' % (name, s), props, about)
                def u(ctx):
                    fn_(ctx, s)
            mk()
        return fn_
    return deco


def num_of(I, v):
    v = I.deref(v)
    return I.num(v)


@both('score.cu', ['C07', 'C08'], 'category_utility against its definition')
def u_cu(ctx, short):
    S = Scene(ctx, short)
    f = S.f(ctx, 'category_utility')
    N = 'category_utility: '

    def post(I, out):
        if not ctx.value(I, N, out):
            return
        r = num_of(I, out.val)
        kid = fresh('kid', R)
        n = S.num()
        I.prove(N + 'zero without children', Implies(n == 0, r == 0))
        if not I.impossible_under(n == 0):
            # path without children
            I.prove(N + 'the children decide', Or(n == 0, r == S.cu()))
        else:
            I.prove(N + 'is the average gain of the children', r == S.cu())
    ctx.run(S.I, S.I.st, f, S.m.ref(S.p), [], post)


def child(S, *others):
    b = S.I.fresh('b', R)
    S.I.st.assume(And(S.c['ch'](S.p, b), *[b != o for o in others]))
    return b


def hypothetical(name, method, args, spec, about, pre=None):
    @both('score.' + name, ['C08'] + (['C07'] if name == 'insert' else []),
          about)
    def u(ctx, short):
        S = Scene(ctx, short)
        f = S.f(ctx, method)
        av = args(S)
        N = method + ': '

        def post(I, out):
            if not ctx.value(I, N, out):
                return
            r = num_of(I, out.val)
            I.prove(N + 'is the utility after the change', r == spec(
                S, *[a.e for a in av if isinstance(a, Ref)]))
            I.obs.append(Ob_(N + 'the hierarchy is untouched',
                             I.st.heap[S.m.oid].comps is S.c))
        ctx.run(S.I, S.I.st, f, S.m.ref(S.p), av, post)
    return u


hypothetical('insert', 'cu_for_insert',
             lambda S: [S.m.ref(child(S)), S.j],
             lambda S, b: S.cu_insert(b),
             'cu_for_insert against the definition')
hypothetical('new', 'cu_for_new_child',
             lambda S: [(S.has_kids(), S.j)[1]],
             lambda S: S.cu_new(),
             'cu_for_new_child against the definition')


def _merge_args(S):
    b1 = child(S)
    b2 = child(S, b1)
    child(S, b1, b2)
    return [S.m.ref(b1), S.m.ref(b2), S.j]


hypothetical('merge', 'cu_for_merge', _merge_args,
             lambda S, b1, b2: S.cu_merge(b1, b2),
             'cu_for_merge against the definition')


def _split_args(S):
    b = child(S)
    w = S.I.fresh('w', R)
    S.I.st.assume(S.c['ch'](b, w))
    return [S.m.ref(b)]


hypothetical('split', 'cu_for_split', _split_args,
             lambda S, b: S.cu_split(b),
             'cu_for_split against the definition')


def _leaf(S):
    S.I.st.facts.append(fire(Fact('leaf', (R,), lambda y: Not(
        S.c['ch'](S.p, y)))))
    return [S.j]


hypothetical('fringe', 'cu_for_fringe_split', _leaf,
             lambda S: S.cu_fringe(),
             'cu_for_fringe_split against the definition')


# --------------------------------------------------- the shortcut formula

def rel(S, b):
    """what inserting into b adds, up to the common part"""
    c = S.c
    n1 = c['count'](b) + 1
    return n1 * ecg(c['tree'](b), n1, c['x'](b) + S.dj) - \
        c['count'](b) * S.e(b)


@both('score.relative', ['C07', 'C08'], 'relative_cu_for_insert')
def u_rel(ctx, short):
    S = Scene(ctx, short)
    f = S.f(ctx, 'relative_cu_for_insert')
    b = child(S)
    N = 'relative_cu_for_insert: '

    def post(I, out):
        if ctx.value(I, N, out):
            I.prove(N + 'weighted gain of the child',
                    num_of(I, out.val) == rel(S, b))
            I.obs.append(Ob_(N + 'the hierarchy is untouched',
                             I.st.heap[S.m.oid].comps is S.c))
    ctx.run(S.I, S.I.st, f, S.m.ref(S.p), [S.m.ref(b), S.j], post)


relf = fn('relf', R, REAL)


def t_rel(S):
    def h(I, recv, args, kw, f):
        env = I.bind(f, recv, args, kw)
        names = [a.arg for a in f.node.args.args]
        p, b, j = [I.deref(env[n]) for n in names[:3]]
        if not (isinstance(p, Ref) and p.e.eq(S.p) and isinstance(b, Ref)
                and inst_term(I, j).eq(S.j.e)):
            raise Unsupported('relative score of something else')
        return Num(relf(b.e))
    return h


@both('score.two_best', ['C07', 'C08'],
      'two_best_children: the two best children and the utility of the best')
def u_two_best(ctx, short):
    S = Scene(ctx, short)
    f = S.f(ctx, 'two_best_children')
    S.I.contracts['CobwebNode.relative_cu_for_insert'] = t_rel(S)
    S.I.contracts['Cobweb3Node.relative_cu_for_insert'] = t_rel(S)
    S.has_kids()
    c = S.c
    N = 'two_best_children: '

    def post(I, out):
        if not ctx.value(I, N, out):
            return
        v = I.deref(out.val)
        if not (isinstance(v, tuple) and len(v) == 3):
            I.fail(N + 'returns a score and two children')
        cu, b1, b2 = v[0], I.deref(v[1]), I.deref(v[2])
        if not isinstance(b1, Ref) or not (b2 is None or
                                           isinstance(b2, Ref)):
            I.fail(N + 'returns a score and two children')
        I.prove(N + 'the first is a child', c['ch'](S.p, b1.e))
        q = I.fresh('q', R)
        I.prove(N + 'no child scores higher', Implies(
            c['ch'](S.p, q), relf(q) <= relf(b1.e)))
        if b2 is None:
            I.prove(N + 'no second only if there is one child', Implies(
                c['ch'](S.p, q), q == b1.e))
        else:
            I.prove(N + 'the second is another child', And(
                c['ch'](S.p, b2.e), b2.e != b1.e))
            I.prove(N + 'no other child scores higher than the second',
                    Implies(And(c['ch'](S.p, q), q != b1.e),
                            relf(q) <= relf(b2.e)))
        I.st.assume(relf(b1.e) == rel(S, b1.e))    # unit score.relative
        I.prove(N + 'its score is the utility of inserting into it',
                num_of(I, cu) == S.cu_insert(b1.e))
        I.obs.append(Ob_(N + 'the hierarchy is untouched',
                         I.st.heap[S.m.oid].comps is c))
    ctx.run(S.I, S.I.st, f, S.m.ref(S.p), [S.j], post)


# ------------------------------------------------------------- selection

OPS = ('best', 'new', 'merge', 'split')


@both('score.best_op', ['C08'],
      'get_best_operation: the best applicable operator')
def u_best_op(ctx, short):
    S = Scene(ctx, short)
    I, c = S.I, S.c
    f = S.f(ctx, 'get_best_operation')
    b1 = child(S)
    b2 = I.fresh('b2', R)
    bcu = fresh('bestcu', REAL)
    I.st.assume(Or(And(b2 == NULL, S.num() == 1),
                   And(c['ch'](S.p, b2), b2 != b1, b2 != NULL)))
    I.st.facts.append(fire(Fact('single', (R,), lambda y: Implies(
        And(b2 == NULL, c['ch'](S.p, y)), y == b1))))
    score = {n: fresh('cu_' + n, REAL) for n in OPS}
    score['best'] = bcu

    def same(v, e):
        return isinstance(v, Ref) and v.e.eq(e)

    def hyp(n, want):
        def h(I, recv, args, kw, f):
            env = I.bind(f, recv, args, kw)
            names = [a.arg for a in f.node.args.args]
            vs = [I.deref(env[x]) for x in names]
            for v, w in zip(vs, [S.p] + want):
                if isinstance(w, Key):
                    if not inst_term(I, v).eq(w.e):
                        raise Unsupported('score asked for something else')
                elif not same(v, w):
                    raise Unsupported('score asked for something else')
            return Num(score[n])
        return h
    for k in ('CobwebNode.', 'Cobweb3Node.'):
        I.contracts[k + 'cu_for_new_child'] = hyp('new', [S.j])
        I.contracts[k + 'cu_for_merge'] = hyp('merge', [b1, b2, S.j])
        I.contracts[k + 'cu_for_split'] = hyp('split', [b1])
    N = 'get_best_operation: '

    def post(I, out):
        if not ctx.value(I, N, out):
            return
        v = I.deref(out.val)
        if not (isinstance(v, tuple) and len(v) == 2 and v[1] in OPS):
            I.fail(N + 'names an operator')
        w = I.fresh('w', R)
        act = v[1]
        r = num_of(I, v[0])
        can = {'best': TRUE, 'new': TRUE,
               'merge': S.num() >= 3,
               'split': S.num(b1) >= 1}
        I.prove(N + 'the chosen operator is applicable', can[act])
        I.prove(N + 'its score is returned', r == score[act])
        for n in OPS:
            I.prove(N + 'no applicable operator scores higher',
                    Implies(can[n], score[n] <= r))
        I.obs.append(Ob_(N + 'the hierarchy is untouched',
                         I.st.heap[S.m.oid].comps is c))
    ctx.run(I, I.st, f, S.m.ref(S.p), [S.j, S.m.ref(b1), S.m.ref(b2),
                                       Num(bcu)], post)


# ------------------------------------------- really performed operators

def performed(name, steps, spec, prep, about):
    """the utility after really performing the change is the same closed
    expression the hypothetical score was proved equal to"""
    @both('score.real.' + name, ['C08'], about)
    def u(ctx, short):
        S = Scene(ctx, short)
        I = S.I
        bs = prep(S)
        N = name + ' performed: '
        if not I.prover.feasible(I.st.conds(), I.st.facts, TRUE):
            I.obs.append(Ob_(N + 'precondition is satisfiable', False))
            return
        p = S.m.ref(S.p)

        def thunk():
            q = p
            for meth, args in steps(S, *[S.m.ref(b) for b in bs]):
                f = I.find_method(LEARNERS[short][0], meth)
                if f is None:
                    raise Unsupported(meth + ' is gone')
                r = I.invoke(f, p, args, {})
            f = I.find_method(LEARNERS[short][0], 'category_utility')
            return I.invoke(f, p, [], {})
        outs = I.explore(I.st, thunk)
        if not outs:
            I.obs.append(Ob_(N + 'some execution is possible', False))
        for o in outs:
            I.st = o.st
            I.trail = [[], [], 0]
            try:
                if not ctx.value(I, N, o):
                    continue
                I.prove(N + 'has the utility it was scored for',
                        S.m.norm(I, num_of(I, o.val)) == spec(S, *bs))
            except (Infeasible, PathFailed):
                pass
        ctx.res.funcs.append('category_utility after ' + name)


performed('new', lambda S: [('increment_counts', [S.j]),
                            ('create_new_child', [S.j])],
          lambda S: S.cu_new(), lambda S: (S.has_kids(), [])[1],
          'create_new_child after recording the instance')


def _two(S):
    b1 = child(S)
    b2 = child(S, b1)
    child(S, b1, b2)
    return [b1, b2]


performed('split', lambda S, b: [('split', [b])],
          lambda S, b: S.cu_split(b), lambda S: [_split_args(S)[0].e],
          'split')


@both('score.real.merge', ['C08'], 'merge, then the instance goes into the '
      'merged child')
def u_real_merge(ctx, short):
    S = Scene(ctx, short)
    I = S.I
    b1, b2 = _two(S)
    N = 'merge performed: '
    p = S.m.ref(S.p)

    def meth(n):
        f = I.find_method(LEARNERS[short][0], n)
        if f is None:
            raise Unsupported(n + ' is gone')
        return f

    def thunk():
        I.invoke(meth('increment_counts'), p, [S.j], {})
        n = I.invoke(meth('merge'), p, [S.m.ref(b1), S.m.ref(b2)], {})
        I.invoke(meth('increment_counts'), n, [S.j], {})
        return I.invoke(meth('category_utility'), p, [], {})
    outs = I.explore(I.st, thunk)
    if not outs:
        I.obs.append(Ob_(N + 'some execution is possible', False))
    for o in outs:
        I.st = o.st
        I.trail = [[], [], 0]
        try:
            if not ctx.value(I, N, o):
                continue
            I.prove(N + 'has the utility it was scored for',
                    S.m.norm(I, num_of(I, o.val)) == S.cu_merge(b1, b2))
        except (Infeasible, PathFailed):
            pass
    ctx.res.funcs.append('category_utility after merge')
