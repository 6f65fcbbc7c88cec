"""Structure mapping (C12): renaming, the search steps, the mapper."""
from .vals import *
from . import loop as L
from .unit import unit, Ob_
from .interp import PyExc, Infeasible, PathFailed
from .units_table import TABC, Inst, frame
from .units_tree import note, events
from .units_conv import result_dict

tin = fn('tin', K, I, BOOL)
telem = fn('telem', K, I, K)
below = fn('below', K, REAL)


def inside(st):
    """tuples are finitely nested; elements of hashable tuples"""
    st.facts.append(Fact('finite nesting of tuples', (K, I), lambda t, i:
                         Implies(And(istup(t), tin(t, i)), And(
                             below(telem(t, i)) < below(t),
                             Implies(hashable(t), hashable(telem(t, i))))),
                         trig=on_apps(tin)))


class Map(object):
    """a renaming given as a dictionary"""
    def __init__(self, J, name='m'):
        self.inst = Inst(J, name, valid=False)
        self.obj = self.inst.obj
        self.has, self.val = self.inst.has, self.inst.val
        has, val = self.has, self.val
        J.st.facts.append(Fact('a renaming maps names', (K,), lambda a:
                               Implies(has(a), And(hashable(a),
                                                   hashable(val(a)))),
                               trig=on_apps(has, val)))


@unit('map.rename_relation', ['C12', 'C13'],
      'a relation is renamed element by element')
def u_rel(ctx):
    J = ctx.interp(dict(TABC))
    J.st = State()
    m = Map(J)
    t = fresh('relation', K)
    J.st.assume(And(istup(t), hashable(t)))
    inside(J.st)
    rr = freshfn('renamed', K, K)
    N = 'rename_relation: '
    f = ctx.func('preprocessor', 'rename_relation')

    def c_rec(I, recv, args, kw, f):
        env = I.bind(f, recv, args, kw)
        a = I.key(env['relation'])
        I.prove(N + 'the recursion goes inwards', And(
            istup(a), below(a) < below(t)))
        I.obs.append(Ob_(N + 'the same renaming is used inside', same(
            I.deref(env['mapping']), m.obj)))
        r = rr(a)
        I.st.assume(istup(r))
        return Key(r)
    J.contracts[f.qual] = c_rec
    before = dict(J.st.heap)

    def post(I, out):
        frame(I, N + 'the renaming stays as it was', out.st, before)
        if not ctx.value(I, N, out):
            return
        r = I.deref(out.val)
        if not isinstance(r, Key):
            raise Unsupported('returned %r' % (r,))
        i = fresh('i', I_)
        v = telem(t, i)
        I.prove(N + 'as long as the relation', And(
            istup(r.e), tin(r.e, i) == tin(t, i)))
        I.prove(N + 'every element is renamed and keeps its place', Implies(
            tin(t, i), telem(r.e, i) == ite(
                m.has(v), m.val(v), ite(istup(v), rr(v), v))))
    ctx.run(J, J.st, f, None, [Key(t), m.obj], post)


I_ = I


def ren(m, rr, a):
    return ite(m.has(a), m.val(a), ite(istup(a), rr(a), a))


@unit('map.rename_flat', ['C12'], 'every attribute is renamed, values stay')
def u_flat(ctx):
    J = ctx.interp(dict(TABC))
    J.st = State()
    d = Inst(J, 'target')
    m = Map(J)
    rr = freshfn('renamed', K, K)
    inv = freshfn('origin', K, K)
    N = 'rename_flat: '
    f = ctx.func('structure_mapper', 'rename_flat')

    def c_rel(I, recv, args, kw, f):
        env = I.bind(f, recv, args, kw)
        a = I.key(env['relation'])
        I.prove(N + 'only relations are renamed as relations', istup(a))
        I.obs.append(Ob_(N + 'relations use the renaming given', same(
            I.deref(env['mapping']), m.obj)))
        r = rr(a)
        I.st.assume(And(istup(r), hashable(r)))
        return Key(r)
    J.contracts['rename_relation'] = c_rel
    # no two attributes of the target are renamed alike (map.lemma)
    J.st.facts.append(Fact('one-to-one', (K,), lambda a: Implies(
        d.has(a), inv(ren(m, rr, a)) == a), trig=on_apps(d.has)))
    before = dict(J.st.heap)

    def post(I, out):
        frame(I, N + 'neither the target nor the renaming changes', out.st,
              before)
        if not ctx.value(I, N, out):
            return
        o = I.deref(out.val)
        I.obs.append(Ob_(N + 'the result is a new instance', isinstance(
            o, Obj) and o.oid not in before))
        has, val = result_dict(I, o)
        a, b = fresh('a', K), fresh('b', K)
        I.prove(N + 'every attribute appears renamed', Implies(
            d.has(a), has(ren(m, rr, a))))
        I.prove(N + 'every value is kept', Implies(
            d.has(a), val(ren(m, rr, a)) == d.val(a)))
        I.prove(N + 'nothing else appears', Implies(
            has(b), And(d.has(inv(b)), ren(m, rr, inv(b)) == b)))
    ctx.run(J, J.st, f, None, [d.obj, m.obj], post)


# ------------------------------------------------------------------ lemmas

diff = fn('firstdiff', K, K, I)


def extensional(st):
    """tuples with the same elements are the same"""
    st.facts.append(Fact('tuples are their elements', (K, K), lambda u, v:
                         Implies(And(istup(u), istup(v), Implies(
                             Or(tin(u, diff(u, v)), tin(v, diff(u, v))),
                             And(tin(u, diff(u, v)), tin(v, diff(u, v)),
                                 telem(u, diff(u, v))
                                 == telem(v, diff(u, v))))), u == v)))


def element_wise(st, has, val, rr, where):
    """contract of rename_relation"""
    st.facts.append(Fact('renamed element by element', (K, I), lambda t, i:
                         Implies(And(istup(t), where(t)), And(
                             istup(rr(t)), tin(rr(t), i) == tin(t, i),
                             Implies(tin(t, i), telem(rr(t), i) == ren_(
                                 has, val, rr, telem(t, i)))))))


def ren_(has, val, rr, a):
    return ite(has(a), val(a), ite(istup(a), rr(a), a))


def lemma_setup(ctx):
    J = ctx.interp(dict(TABC))
    J.st = State()
    own = freshfn('mentioned', K, BOOL)
    has, val = freshfn('m.has', K, BOOL), freshfn('m.val', K, K)
    back = freshfn('m.back', K, K)
    rr = freshfn('renamed', K, K)
    fs = J.st.facts
    fs.append(Fact('parts of what is mentioned are mentioned', (K, I),
                   lambda t, i: Implies(And(own(t), istup(t), tin(t, i)),
                                        own(telem(t, i)))))
    fs.append(Fact('finite nesting', (K, I), lambda t, i: Implies(And(
        istup(t), tin(t, i)), below(telem(t, i)) < below(t))))
    fs.append(Fact('the mapping is one-to-one onto plain names', (K,),
                   lambda a: Implies(has(a), And(
                       back(val(a)) == a, Not(istup(val(a)))))))
    # an image is a variable of the concept (not one of the instance) or the
    # variable itself
    fs.append(Fact('images do not collide with names that stay', (K, K),
                   lambda a, b: Implies(And(has(a), own(b), Not(has(b))),
                                        val(a) != b)))
    element_wise(J.st, has, val, rr, own)
    extensional(J.st)
    return J, own, has, val, back, rr


def consistent(J, N):
    """the hypotheses do not prove everything"""
    J.obs.append(Ob_(N + ': the hypotheses are not contradictory',
                     not J.prover.valid(J.st.conds(), J.st.facts, FALSE)[0]))


@unit('map.lemma.one_to_one', ['C12'],
      'renaming by a one-to-one mapping is one-to-one (induction step)')
def u_l1(ctx):
    J, own, has, val, back, rr = lemma_setup(ctx)
    f = lambda a: ren_(has, val, rr, a)
    u, v = fresh('u', K), fresh('v', K)
    J.st.facts.append(Fact('induction hypothesis', (K, K), lambda a, b:
                           Implies(And(below(a) < below(u), own(a), own(b),
                                       f(a) == f(b)), a == b)))
    i = diff(u, v)
    for t in (u, v):
        J.st.assume(tin(t, i) == tin(t, i))
    J.st.assume(And(own(u), own(v), f(u) == f(v)))
    note_terms = [telem(u, i), telem(v, i), telem(rr(u), i), telem(rr(v), i)]
    J.st.assume(And([x == x for x in note_terms]))
    J.prove('renaming: different names stay different', u == v)
    consistent(J, 'one-to-one')


@unit('map.lemma.inverse', ['C12'],
      'renaming back restores every name (induction step)')
def u_l2(ctx):
    J, own, has, val, back, rr = lemma_setup(ctx)
    rhas = freshfn('r.has', K, BOOL)
    rr2 = freshfn('renamed back', K, K)
    J.st.facts.append(Fact('the reverse mapping', (K,), lambda c: rhas(c)
                           == And(has(back(c)), val(back(c)) == c)))
    J.st.facts.append(Fact('images are in it', (K,), lambda a: Implies(
        has(a), rhas(val(a)))))
    u = fresh('u', K)
    f = lambda a: ren_(has, val, rr, a)
    g = lambda a: ren_(rhas, back, rr2, a)
    element_wise(J.st, rhas, back, rr2, lambda t: TRUE)
    J.st.facts.append(Fact('induction hypothesis', (K,), lambda a: Implies(
        And(below(a) < below(u), own(a)), g(f(a)) == a)))
    J.st.assume(own(u))
    i = diff(g(f(u)), u)
    J.st.assume(And(telem(u, i) == telem(u, i), telem(rr(u), i)
                    == telem(rr(u), i), telem(rr2(rr(u)), i)
                    == telem(rr2(rr(u)), i)))
    J.prove('renaming: undoing it restores every name', g(f(u)) == u)
    consistent(J, 'inverse')


@unit('map.lemma.undo', ['C12'],
      'undoing a mapping restores the instance (from the contracts)')
def u_l3(ctx):
    J = ctx.interp(dict(TABC))
    J.st = State()
    d0, d1, d2 = [(freshfn('has%d' % n, K, BOOL), freshfn('val%d' % n, K, K))
                  for n in range(3)]
    f, g = freshfn('renaming', K, K), freshfn('renaming back', K, K)
    fi = freshfn('origin', K, K)

    def contract(a, b, f, inv):
        """unit map.rename_flat"""
        J.st.facts.append(Fact('rename_flat', (K,), lambda x: And(
            Implies(a[0](x), And(b[0](f(x)), b[1](f(x)) == a[1](x))),
            Implies(b[0](x), And(a[0](inv(x)), f(inv(x)) == x)))))
    J.st.facts.append(Fact('lemmas', (K,), lambda x: Implies(
        d0[0](x), And(g(f(x)) == x, fi(f(x)) == x))))
    contract(d0, d1, f, fi)
    x = fresh('x', K)
    # on the renamed instance, renaming back is undone by renaming
    J.prove('undo: renaming back is one-to-one on the renamed instance',
            Implies(d1[0](x), f(g(x)) == x))
    contract(d1, d2, g, f)
    J.st.assume(And(d2[0](x) == d2[0](x), d0[0](x) == d0[0](x)))
    J.prove('undo: exactly the attributes of the original',
            d2[0](x) == d0[0](x))
    J.prove('undo: every value is restored', Implies(
        d0[0](x), d2[1](x) == d0[1](x)))
    consistent(J, 'undo')


# ------------------------------------------------------- the search (steps)

class Search(object):
    """a state of the search: names of the instance (inames), of the concept
    (cnames), a mapping and the concept names nobody is mapped to"""
    def __init__(self, J, disjoint=True):
        self.iname = freshfn('iname', K, BOOL)
        self.cname = freshfn('cname', K, BOOL)
        self.m = Map(J, 'mapping')
        free = freshfn('unmapped', K, BOOL)
        self.free = free
        self.by = freshfn('mapped from', K, K)
        if disjoint:
            J.st.facts += self.inv(self.m.has, self.m.val, free, self.by)
        self.setobj = J.alloc(RecComp({'mem': free}, 'set', py='frozenset'))
        iname, cname = self.iname, self.cname
        J.st.facts.append(Fact('names', (K,), lambda a: And(Implies(
            Or(iname(a), cname(a)), And(hashable(a), Not(istup(a)))), Not(
                And(iname(a), cname(a))) if disjoint else TRUE),
            trig=on_apps(iname, cname)))

    def inv(self, has, val, free, by):
        iname, cname = self.iname, self.cname
        return [
            Fact('mapping', (K,), lambda a: self.keys(has, val, a)),
            Fact('one-to-one', (K,), lambda a: Implies(
                has(a), by(val(a)) == a)),
            Fact('unmapped names', (K,), lambda c: And(Implies(
                And(cname(c), Not(free(c))), And(has(by(c)), val(by(c))
                                                 == c)),
                Implies(free(c), cname(c)))),
            Fact('mapped names are taken', (K,), lambda a: Implies(
                And(has(a), val(a) != a), Not(free(val(a)))))]

    def keys(self, has, val, a):
        return Implies(has(a), And(self.iname(a), Or(
            val(a) == a, self.cname(val(a)))))

    def check(self, I, N, has, val, free):
        a, b, c = fresh('a', K), fresh('b', K), fresh('c', K)
        I.prove(N + 'variables of the instance are mapped to themselves or '
                'to variables of the concept', self.keys(has, val, a))
        I.prove(N + 'the same variables are mapped', has(a) == self.m.has(a))
        I.prove(N + 'no two variables get the same name', Implies(And(
            has(a), has(b), val(a) == val(b)), a == b))
        I.prove(N + 'only unused names of the concept are kept for later',
                Implies(free(c), And(self.cname(c), Not(And(
                    has(a), val(a) == c)))))


class NodeT(object):
    def __init__(self, state, extra):
        self.state, self.extra = state, extra

    def same_as(self, b):
        return self is b

    def map_terms(self, f):
        return self

    def py_getattr(self, I, name):
        if name in ('state', 'extra'):
            return getattr(self, name)
        raise Unsupported('node.' + name)


def c_node(I, recv, args, kw, f):
    """py_search.base.Node"""
    a = list(args)
    if not a or len(a) > 4 or set(kw) - {'parent', 'action', 'node_cost',
                                         'extra'}:
        raise Unsupported('search node arguments')
    ex = a[4] if len(a) > 4 else kw.get('extra')
    return NodeT(I.deref(a[0]), ex)


NODE = {'ext py_search.base.Node': c_node}


def state_of(I, v):
    if not isinstance(v, NodeT) or not isinstance(v.state, tuple) or \
            len(v.state) != 2:
        raise Unsupported('search state')
    p = v.state[0]
    if not isinstance(p, PairSet):
        raise Unsupported('mapping %r' % (p,))
    s = I.as_set(v.state[1])
    if s is None:
        raise Unsupported('unmapped names')
    return p.has, p.val, s.mem


def _swap(name, second):
    @unit('map.' + name, ['C12'], '%s keeps the mapping one-to-one' % name)
    def u(ctx):
        J = ctx.interp(dict(TABC, **NODE))
        J.st = State()
        S = Search(J)
        o1, o2 = fresh('o1', K), fresh('o2', K)
        J.st.assume(And(S.m.has(o1), hashable(o1), hashable(o2)))
        J.st.assume(second(S, o1, o2))
        ex = Opaque('extra')
        node = NodeT(None, ex)
        f = ctx.func('structure_mapper', 'StructureMappingOptProblem.' + name)
        N = name + ': '
        before = dict(J.st.heap)
        me = J.alloc(RecObj(('concept_formation.structure_mapper',
                             'StructureMappingOptProblem'),
                            {'__open__': True}))

        def post(I, out):
            frame(I, N + 'the state expanded stays as it was', out.st,
                  before)
            if not ctx.value(I, N, out):
                return
            has, val, free = state_of(I, I.deref(out.val))
            I.obs.append(Ob_(N + 'the next state is about the same instance '
                             'and concept', I.deref(out.val).extra is ex))
            S.check(I, N, has, val, free)
        ctx.run(J, J.st, f, me, [Key(o1), Key(o2), S.m.obj, S.setobj,
                                 Opaque('target'), Opaque('base'), node],
                post)


_swap('swap_two', lambda S, a, b: And(S.m.has(b), a != b))
_swap('swap_unnamed', lambda S, a, b: S.free(b))


@unit('map.successors', ['C12'],
      'the search only makes the swaps the contracts above allow')
def u_succ(ctx):
    con = dict(TABC, **NODE)
    J = ctx.interp(con)
    J.st = State()
    S = Search(J)
    ex = (Key(fresh('target', K)), Key(fresh('base', K)))
    J.st.facts.append(Fact('names', (K,), lambda a: Implies(Or(
        S.m.has(a), S.free(a)), hashable(a))))
    node = NodeT((PairSet(S.m.has, S.m.val), SetV(K, S.free)), ex)
    cls = 'StructureMappingOptProblem'
    f = ctx.func('structure_mapper', cls + '.successors')
    N = 'successors: '
    me = J.alloc(RecObj(('concept_formation.structure_mapper', cls),
                        {'__open__': True}))
    next_ = fn('next state', K, K, K)

    def swap(name, second):
        def c(J, recv, args, kw, g):
            b = J.bind(g, recv, args, kw)
            o1, o2 = J.key(b['o1']), J.key(b['o2'])
            J.prove(N + 'the first name is mapped (%s)' % name, S.m.has(o1))
            J.prove(N + 'the second name may be used (%s)' % name,
                    second(S, o1, o2))
            d = J.deref(b['mapping'])
            r = J.rec(d) if isinstance(d, Obj) else None
            if not isinstance(r, RecComp) or r.kind != 'kk':
                raise Unsupported('mapping %r' % (d,))
            x = fresh('x', K)
            J.prove(N + 'the mapping of the state is changed (%s)' % name,
                    And(r.get('has', x) == S.m.has(x), Implies(S.m.has(
                        x), r.get('val', x) == S.m.val(x))))
            fr = J.as_set(b['unmapped_cnames'])
            if fr is None:
                raise Unsupported('unmapped names')
            J.prove(N + 'the unused names are those of the state (%s)'
                    % name, fr.mem(x) == S.free(x))
            J.obs.append(Ob_(N + 'the next state is about the same instance '
                             'and concept', J.deref(b['node']) is node))
            return Key(next_(o1, o2))
        con[cls + '.' + name] = c
    swap('swap_two', lambda S, a, b: And(S.m.has(b), a != b))
    swap('swap_unnamed', lambda S, a, b: S.free(b))
    J.contracts = con
    before = dict(J.st.heap)

    def offered(J, v):
        v = J.deref(v)
        J.obs.append(Ob_(N + 'only states made by a swap', isinstance(
            v, Key) and is_app(v.e) and v.e.decl().eq(next_)))
    J.yields[f.qual] = offered

    def post(J, out):
        frame(J, N + 'the state expanded stays as it was', out.st, before)
        ctx.value(J, N, out)
    ctx.run(J, J.st, f, me, [node], post)


# --------------------------------------------------- finding the renaming

SM = 'concept_formation.structure_mapper'


class Concept(object):
    """a concept: only its table's attribute names are looked at"""
    def __init__(self):
        self.table = Opaque('table')

    def same_as(self, b):
        return self is b

    def map_terms(self, f):
        return self

    def py_getattr(self, I, name):
        if name == 'av_counts':
            return self.table
        raise Unsupported('concept.' + name)


def names_contract(N, who):
    """get_component_names: the variables of an instance or a concept"""
    def c(I, recv, args, kw, f):
        env = I.bind(f, recv, args, kw)
        if env.get('vars_only', True) is not True:
            raise Unsupported('all names')
        for v, mem in who:
            if same(I.deref(env['instance']), v):
                return I.new_set(SetV(K, mem))
        raise Unsupported('names of something else')
    return c


def cost_contract(N, target, base):
    """mapping_cost: a number; neither instance nor concept changes (C04)"""
    def c(I, recv, args, kw, f):
        env = I.bind(f, recv, args, kw)
        I.obs.append(Ob_(N + 'costs are about the given instance and '
                         'concept', same(I.deref(env['target']), target)
                         and same(I.deref(env['base']), base)))
        return Num(I.fresh('cost', REAL))
    return c


class Found(object):
    """result of the search"""
    def __init__(self, state, name='solution'):
        self.state, self.name = state, name

    def same_as(self, b):
        return self is b

    def map_terms(self, f):
        return self

    def py_getattr(self, I, name):
        if name == 'state_node':
            return Found(self.state, 'node')
        if name == 'state':
            return self.state
        raise Unsupported('solution.' + name)


def flat_match_unit(variant):
    @unit('map.flat_match.' + variant, ['C12'],
          'the mapping found is a one-to-one renaming')
    def u(ctx):
        J = ctx.interp(dict(TABC, **NODE))
        J.st = State()
        target = Inst(J, 'target')
        base = Concept()
        S = Search(J, disjoint=False)
        N = 'flat_match: '
        iname, cname = S.iname, S.cname
        f = ctx.func('structure_mapper', 'flat_match')
        J.contracts['get_component_names'] = names_contract(
            N, [(target.obj, iname), (base.table, cname)])
        J.contracts['mapping_cost'] = cost_contract(N, target.obj, base)
        h = PairSet(freshfn('h.has', K, BOOL), freshfn('h.val', K, K))
        hby = freshfn('h.by', K, K)
        asked = []

        def valid_map(st, p, by):
            st.facts.append(Fact('hungarian', (K,), lambda a: Implies(
                p.has(a), And(iname(a), Or(p.val(a) == a, cname(p.val(a))),
                              by(p.val(a)) == a)),
                trig=on_apps(p.has, p.val)))

        def c_hung(I, recv, args, kw, f):
            env = I.bind(f, recv, args, kw)
            x = fresh('n', K)
            I.prove(N + 'the assignment is about the variables of instance '
                    'and concept', And(
                        I.to_set(env['inames']).mem(x) == iname(x),
                        I.to_set(env['cnames']).mem(x) == cname(x)))
            I.obs.append(Ob_(N + 'the assignment is about the given '
                             'instance and concept', same(I.deref(
                                 env['target']), target.obj) and same(
                                     I.deref(env['base']), base)))
            valid_map(I.st, h, hby)
            return h

        def c_prob(I, cls, args, kw):
            """the search problem (py_search.base.Problem)"""
            if len(args) not in (1, 2, 3) or set(kw) - {
                    'initial_cost', 'extra', 'goal', 'goal_cost'}:
                raise Unsupported('arguments of the search')
            st = I.deref(args[0])
            if not isinstance(st, tuple) or len(st) != 2:
                raise Unsupported('initial state')
            from .loop import pairs_of
            p = pairs_of(I, st[0])
            s = I.as_set(st[1])
            if p is None or s is None:
                raise Unsupported('initial state')
            a, b, c = fresh('a', K), fresh('b', K), fresh('c', K)
            has, val = p.has, p.val
            I.prove(N + 'colliding names are refused', Not(And(
                iname(b), cname(b))))
            I.prove(N + 'the search starts with variables of the instance '
                    'mapped to themselves or to variables of the concept',
                    S.keys(has, val, a))
            I.prove(N + 'the search starts one-to-one', Implies(And(
                has(a), has(b), val(a) == val(b)), a == b))
            I.prove(N + 'the search starts with exactly the unused names of '
                    'the concept', Implies(s.mem(c), And(cname(c), Not(And(
                        has(a), val(a) == c)))))
            I.obs.append(Ob_(N + 'the search is about the given instance and '
                             'concept', isinstance(kw.get('extra'), tuple)
                             and len(kw['extra']) == 2 and same(
                                 I.deref(kw['extra'][0]), target.obj)
                             and same(I.deref(kw['extra'][1]), base)))
            asked.append(p)
            return Found(None, 'problem')

        def c_climb(I, recv, args, kw, f):
            """a state reached by successor steps (units map.swap_*), which
            keep the mapped variables and the invariant"""
            if not asked:
                raise Unsupported('nothing to search')
            p = asked[-1]
            I.st.facts += S.inv(S.m.has, S.m.val, S.free, S.by)
            I.st.facts.append(Fact('same variables', (K,), lambda a: S.m.has(
                a) == p.has(a), trig=on_apps(S.m.has)))
            return Dom([Seg('one', Found((PairSet(S.m.has, S.m.val),
                                          S.setobj)))])
        J.contracts['hungarian_mapping'] = c_hung
        J.contracts['new StructureMappingOptProblem'] = c_prob
        J.contracts['ext py_search.optimization.hill_climbing'] = c_climb
        args = [target.obj, base]
        if variant == 'given':
            g = PairSet(freshfn('g.has', K, BOOL), freshfn('g.val', K, K))
            gby = freshfn('g.by', K, K)
            J.st.facts.append(Fact('a one-to-one start', (K,), lambda a:
                                   Implies(g.has(a), And(
                                       gby(g.val(a)) == a, hashable(a),
                                       hashable(g.val(a)))),
                                   trig=on_apps(g.has, g.val)))
            args.append(g)
        before = dict(J.st.heap)

        def post(I, out):
            frame(I, N + 'neither the instance nor the concept changes',
                  out.st, before)
            a, b = fresh('a', K), fresh('b', K)
            if out.kind == 'exc' and out.val.cls == 'Exception':
                st = out.st.copy()
                st.facts.append(Fact('no common names', (K,), lambda x: Not(
                    And(iname(x), cname(x))), trig=on_apps(iname, cname)))
                I.prove(N + 'refused only when names collide', FALSE, st)
                return
            if not ctx.value(I, N, out):
                return
            has, val = result_dict(I, out.val)
            I.prove(N + 'variables of the instance are mapped to themselves '
                    'or to variables of the concept', S.keys(has, val, a))
            I.prove(N + 'no two variables get the same name', Implies(And(
                has(a), has(b), val(a) == val(b)), a == b))
        ctx.run(J, J.st, f, None, args, post)


flat_match_unit('free')
flat_match_unit('given')


def mapper(J, **fields):
    fs = dict(fields)
    fs['__open__'] = True
    return J.alloc(RecObj((SM, 'StructureMapper'), fs))


def c_flat(N, calls):
    """rename_flat: a new instance (unit map.rename_flat)"""
    def c(I, recv, args, kw, f):
        env = I.bind(f, recv, args, kw)
        r = fresh('renamed instance', K)
        I.st.assume(isdict(r))
        note(I, 'renamed', I.deref(env['target']), result_dict(
            I, env['mapping']), r)
        return Key(r)
    return c


def reversed_of(I, N, rhas, rval, has, val, by):
    """a dictionary is the reverse of a one-to-one mapping"""
    a, c = fresh('a', K), fresh('c', K)
    I.prove(N + 'every renaming can be undone', Implies(has(a), And(
        rhas(val(a)), rval(val(a)) == a)))
    I.prove(N + 'nothing else is undone', Implies(rhas(c), And(
        has(rval(c)), val(rval(c)) == c)))


def one_renaming(I, N, target, has, val, out):
    ev = events(I, 'renamed')
    I.obs.append(Ob_(N + 'the instance is renamed once', len(ev) == 1
                     and same(ev[0][1], target)))
    if len(ev) != 1:
        return
    a = fresh('a', K)
    h, v = ev[0][2]
    I.prove(N + 'by that renaming', And(h(a) == has(a), Implies(
        has(a), v(a) == val(a))))
    I.prove(N + 'and the renamed instance is the answer', I.key(I.deref(
        out.val)) == ev[0][3])


@unit('map.mapper.transform', ['C12'],
      'the mapping found is applied and its reverse remembered')
def u_mt(ctx):
    J = ctx.interp(dict(TABC))
    J.st = State()
    N = 'StructureMapper.transform: '
    f = ctx.func('structure_mapper', 'StructureMapper.transform')
    target, base = Inst(J, 'target'), Concept()
    has, val = freshfn('m.has', K, BOOL), freshfn('m.val', K, K)
    by = freshfn('m.by', K, K)
    start = Found(None, 'initial mapping')

    def c_match(I, recv, args, kw, f):
        """flat_match (units map.flat_match.*)"""
        env = I.bind(f, recv, args, kw)
        I.obs.append(Ob_(N + 'the given instance is matched with the '
                         'concept', same(I.deref(env['target']), target.obj)
                         and same(I.deref(env['base']), base)))
        I.obs.append(Ob_(N + 'the initial mapping is passed on', same(
            I.deref(env['initial_mapping']), start)))
        I.st.facts.append(Fact('one-to-one', (K,), lambda a: Implies(
            has(a), And(by(val(a)) == a, hashable(a), hashable(val(a)))),
            trig=on_apps(has, val)))
        return I.alloc(RecComp({'has': has, 'val': val}, 'kk'))
    J.contracts['flat_match'] = c_match
    J.contracts['rename_flat'] = c_flat(N, None)
    me = mapper(J, base=base, mapping=None, reverse_mapping=None)
    before = dict(J.st.heap)

    def post(I, out):
        for oid in before:
            if oid != me.oid and out.st.heap.get(oid) is not before[oid]:
                I.fail(N + 'neither the instance nor the concept changes')
        if not ctx.value(I, N, out):
            return
        fs = I.st.heap[me.oid].fields
        one_renaming(I, N, target.obj, has, val, out)
        I.obs.append(Ob_(N + 'the concept matched with stays',
                         same(fs['base'], base)))
        rhas, rval = result_dict(I, fs['reverse_mapping'])
        reversed_of(I, N, rhas, rval, has, val, by)
    ctx.run(J, J.st, f, me, [target.obj, start], post)


def _later(name, about, spec):
    @unit('map.mapper.' + name, ['C12'], about)
    def u(ctx):
        J = ctx.interp(dict(TABC))
        J.st = State()
        N = 'StructureMapper.%s: ' % name
        f = ctx.func('structure_mapper', 'StructureMapper.' + name)
        J.contracts['rename_flat'] = c_flat(N, None)
        target = Inst(J, 'target')
        r = Map(J, 'reverse')
        by = freshfn('r.by', K, K)
        J.st.facts.append(Fact('one-to-one', (K,), lambda a: Implies(
            r.has(a), by(r.val(a)) == a), trig=on_apps(r.has, r.val)))
        me = mapper(J, base=Concept(), mapping=Opaque('mapping'),
                    reverse_mapping=r.obj)
        before = dict(J.st.heap)

        def post(I, out):
            frame(I, N + 'nothing changes', out.st, before)
            if not ctx.value(I, N, out):
                return
            spec(I, N, target, r, by, out)
        args = [target.obj] if name == 'undo_transform' else []
        ctx.run(J, J.st, f, me, args, post)


_later('undo_transform', 'undoing renames by the reverse',
       lambda I, N, t, r, by, out: one_renaming(I, N, t.obj, r.has, r.val,
                                                out))
_later('get_mapping', 'the mapping is the reverse of the reverse',
       lambda I, N, t, r, by, out: reversed_of(I, N, *(result_dict(
           I, out.val) + (r.has, r.val, by))))


# ------------------------------------------------------- first assignment
class Names(object):
    """a set of names, in whatever order a list of it has"""
    def __init__(self, J, what):
        self.n = fresh(what + 's', REAL)
        self.at = freshfn(what + ' at', REAL, K)
        self.pos = freshfn(what + ' position', K, REAL)
        J.st.assume(And(self.n >= 1, L.isint(self.n)))
        n, at, pos = self.n, self.at, self.pos
        J.st.facts.append(Fact(what, (REAL,), lambda i: Implies(And(
            i >= 0, i < n, L.isint(i)), And(pos(at(i)) == i, hashable(at(
                i)), Not(istup(at(i))))), trig=on_apps(at)))

    def has(self, x):
        p = self.pos(x)
        return And(p >= 0, p < self.n, L.isint(p), self.at(p) == x)

    def same_as(self, b):
        return self is b

    def map_terms(self, f):
        return self

    def py_iter(self, J):
        g = L.ranged(ZERO, self.n, lambda i: Key(self.at(i)))

        def total(J, f):
            if not f(g.elem(fresh('i', REAL))).eq(ONE):
                raise Unsupported('a sum over names')
            return self.n
        g.sum = total
        return [g]


class Solver(object):
    """munkres.Munkres: compute() assigns every row one column, no column
    twice (trusted: the library)"""
    def __init__(self, rows, cols):
        self.rows, self.cols = rows, cols

    def same_as(self, b):
        return self is b

    def map_terms(self, f):
        return self

    def py_getattr(self, J, name):
        if name != 'compute':
            raise Unsupported('munkres.' + name)
        return Fn('bmethod', recv=self, name=name)

    def py_method(self, J, name, args, kw):
        n, m = self.rows, self.cols
        col, row = freshfn('column', REAL, REAL), freshfn('row', REAL, REAL)
        J.st.facts.append(Fact('assignment', (REAL,), lambda i: Implies(And(
            i >= 0, i < n, L.isint(i)), And(
                col(i) >= 0, col(i) < m, L.isint(col(i)), row(col(i)) == i)),
            trig=on_apps(col)))
        return Dom([L.ranged(ZERO, n, lambda i: (Num(i), Num(col(i))))])


@unit('map.hungarian', ['C12'],
      'the first assignment maps every variable, one-to-one')
def u_hung(ctx):
    con = dict(TABC)
    J = ctx.interp(con)
    J.st = State()
    ins, cns = Names(J, 'iname'), Names(J, 'cname')
    J.st.facts.append(Fact('names do not collide', (K,), lambda x: Not(And(
        ins.has(x), cns.has(x))), trig=lambda ts, by: [
            (t,) for t in by.get('K', ())]))
    N = 'hungarian_mapping: '
    f = ctx.func('structure_mapper', 'hungarian_mapping')
    con['mapping_cost'] = lambda J, recv, args, kw, g: Num(fresh(
        'cost', REAL))
    con['ext munkres.Munkres'] = lambda J, recv, args, kw, g: Solver(
        ins.n, ins.n + cns.n)
    J.contracts = con

    def post(J, out):
        if not ctx.value(J, N, out):
            return
        p = J.deref(out.val)
        if not isinstance(p, PairSet):
            raise Unsupported('returned %r' % (p,))
        a, b = fresh('a', K), fresh('b', K)
        J.prove(N + 'exactly the variables of the instance are mapped',
                p.has(a) == ins.has(a))
        J.prove(N + 'to themselves or to a variable of the concept', Implies(
            p.has(a), Or(p.val(a) == a, cns.has(p.val(a)))))
        J.prove(N + 'no two to the same', Implies(And(
            p.has(a), p.has(b), p.val(a) == p.val(b)), a == b))
    ctx.run(J, J.st, f, None, [ins, cns, Key(fresh('target', K)),
                               Key(fresh('base', K))], post)


# ------------------------------------------------------ which names there are
def isvar(a):
    return And(tlen(a) > 0, first(a) == kconst('?'))


def mentions(J, comps, t):
    """for all predicates P: what t mentions, in both directions"""
    P = freshfn('P', K, BOOL)
    J.st.facts.append(Fact('mentioned directly', (I_,), lambda i: Implies(
        And(tin(t, i), Not(istup(telem(t, i))), isvar(telem(t, i))),
        P(telem(t, i)))))
    J.st.facts.append(Fact('mentioned inside', (I_, K), lambda i, n: Implies(
        And(tin(t, i), istup(telem(t, i)), comps(telem(t, i), n)), P(n))))
    return P


def _components(kind):
    @unit('map.components.' + kind, ['C12', 'C13'],
          'the variables an attribute mentions')
    def u(ctx):
        con = dict(TABC)
        J = ctx.interp(con)
        J.st = State()
        t = fresh('attribute', K)
        N = 'get_attribute_components: '
        comps = freshfn('mentioned', K, K, BOOL)
        inside(J.st)
        J.st.assume(And(hashable(t), istup(t) if kind == 'relation' else And(
            isstr(t), Not(istup(t)), tlen(t) > 0)))
        J.st.facts.append(Fact('elements are names', (I_,), lambda i: Implies(
            tin(t, i), And(hashable(telem(t, i)), Or(istup(telem(t, i)), isstr(
                telem(t, i)))))))
        f = ctx.func('preprocessor', 'get_attribute_components')

        def c_rec(I, recv, args, kw, f):
            env = I.bind(f, recv, args, kw)
            a = I.key(env['attribute'])
            if env['vars_only'] is not True:
                raise Unsupported('all names')
            I.prove(N + 'the recursion goes inwards', And(
                istup(a), below(a) < below(t)))
            return I.new_set(SetV(K, lambda n: comps(a, n)))
        J.st.facts.append(Fact('variables are names', (K, K), lambda a, n:
                               Implies(comps(a, n), hashable(n)),
                               trig=on_apps(comps)))
        con[f.qual] = c_rec
        J.contracts = con

        def post(I, out):
            if not ctx.value(I, N, out):
                return
            s = I.as_set(out.val)
            if s is None:
                raise Unsupported('returned %r' % (out.val,))
            n, i = fresh('n', K), fresh('i', I_)
            if kind == 'name':
                I.prove(N + 'a name mentions itself when it is a variable',
                        s.mem(n) == And(n == t, isvar(t)))
                return
            e = telem(t, i)
            I.prove(N + 'every variable of the relation is mentioned',
                    Implies(And(tin(t, i), Not(istup(e)), isvar(e)),
                            s.mem(e)))
            I.prove(N + 'so is every variable of an inner relation', Implies(
                And(tin(t, i), istup(e), comps(e, n)), s.mem(n)))
            P = mentions(I, comps, t)
            I.prove(N + 'nothing else is mentioned', Implies(s.mem(n), P(n)))
        ctx.run(J, J.st, f, None, [Key(t), True], post)


_components('name')
_components('relation')


@unit('map.names', ['C12'], 'the variables an instance mentions')
def u_names(ctx):
    con = dict(TABC)
    J = ctx.interp(con)
    J.st = State()
    d = Inst(J, 'instance')
    comps = freshfn('mentioned', K, K, BOOL)
    J.st.facts.append(Fact('variables are names', (K, K), lambda a, n:
                           Implies(comps(a, n), hashable(n)),
                           trig=on_apps(comps)))
    N = 'get_component_names: '
    f = ctx.func('structure_mapper', 'get_component_names')

    def c(I, recv, args, kw, f):
        """units map.components"""
        env = I.bind(f, recv, args, kw)
        a = I.key(env['attribute'])
        I.obs.append(Ob_(N + 'variables are asked for', env[
            'vars_only'] is True))
        return I.new_set(SetV(K, lambda n: comps(a, n)))
    con['get_attribute_components'] = c
    J.contracts = con
    before = dict(J.st.heap)

    def post(I, out):
        frame(I, N + 'the instance stays as it was', out.st, before)
        if not ctx.value(I, N, out):
            return
        s = I.as_set(out.val)
        if s is None:
            raise Unsupported('returned %r' % (out.val,))
        n, a = fresh('n', K), fresh('a', K)
        P = freshfn('P', K, BOOL)
        I.prove(N + 'every variable of every attribute is found', Implies(
            And(d.has(a), comps(a, n)), s.mem(n)))
        I.st.facts.append(Fact('mentioned', (K, K), lambda a, n: Implies(And(
            d.has(a), comps(a, n)), P(n))))
        I.prove(N + 'nothing else is found', Implies(s.mem(n), P(n)))
    ctx.run(J, J.st, f, None, [d.obj, True], post)


# ------------------------------------------------------------ cost of a map
class Given(object):
    """the concept given: may be read, never changed"""
    def __init__(self, N):
        self.N, self.tree = N, Key(fresh('tree', K))

    def same_as(self, b):
        return self is b

    def map_terms(self, f):
        return self

    def py_getattr(self, J, name):
        if name == 'tree':
            return self.tree
        if name in ('increment_counts', 'update_counts_from_node'):
            return Fn('bmethod', recv=self, name=name)
        raise Unsupported('concept.' + name)

    def py_setattr(self, J, name, v):
        J.obs.append(Ob_(self.N + 'the concept given stays as it was',
                         False))
        raise PathFailed()

    def py_method(self, J, name, args, kw):
        return self.py_setattr(J, name, None)


class Scratch(object):
    """a concept made for the calculation"""
    def same_as(self, b):
        return self is b

    def map_terms(self, f):
        return self

    def py_getattr(self, J, name):
        if name in ('increment_counts', 'update_counts_from_node',
                    'expected_correct_guesses'):
            return Fn('bmethod', recv=self, name=name)
        raise Unsupported('concept.' + name)

    def py_setattr(self, J, name, v):
        if name not in ('tree', 'av_counts', 'count'):
            raise Unsupported('concept.' + name)
        note(J, 'set', id(self), name, J.deref(v))

    def py_method(self, J, name, args, kw):
        if name == 'expected_correct_guesses' and not args and not kw:
            note(J, 'score', id(self))
            return Num(J.ecg)
        if len(args) != 1 or kw:
            raise Unsupported('arguments')
        note(J, name, id(self), J.deref(args[0]))


def _cost(kind):
    @unit('map.cost.' + kind, ['C12', 'C04'],
          'judging a renaming leaves instance and concept alone')
    def u(ctx):
        con = dict(TABC)
        J = ctx.interp(con)
        J.st = State()
        J.ecg = fresh('guesses', REAL)
        N = 'mapping_cost: '
        d = Inst(J, 'target')
        base = Given(N)
        m = Map(J)
        f = ctx.func('structure_mapper', 'mapping_cost')
        ren_d = Inst(J, 'renamed')

        def c_flat(J, recv, args, kw, g):
            """unit map.rename_flat"""
            b = J.bind(g, recv, args, kw)
            if not same(J.deref(b['target']), d.obj):
                raise Unsupported('renaming something else')
            return ren_d.obj
        con['rename_flat'] = c_flat
        con['new Cobweb3Node'] = lambda J, cls, args, kw: Scratch()
        J.contracts = con
        mp = m.obj if kind == 'dict' else PairSet(m.has, m.val)
        before = dict(J.st.heap)

        def post(J, out):
            frame(J, N + 'instance and renaming stay as they were', out.st,
                  before)
            if out.kind == 'exc' and out.val.cls == 'StopIteration':
                return
            if not ctx.value(J, N, out):
                return
            J.num(out.val)
            # any change would have failed in Given
            J.obs.append(Ob_(N + 'the concept given stays as it was', True))
        ctx.run(J, J.st, f, None, [mp, d.obj, base], post)


_cost('dict')
_cost('pairs')
