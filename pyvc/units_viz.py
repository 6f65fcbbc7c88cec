"""Exports (C18): descriptions of concepts and their trimming."""
import ast
from .vals import *
from .unit import unit, Ob_
from .interp import PyExc, Infeasible, PathFailed, cdict, \
    BreakEx, ContinueEx
from . import loop as L
from .units_cv import setup as cv_setup, new_cv, fields
from .units_table import TABC, Node, frame, COB, COB3
from .units_tree import note, events, assigned
from .units_eval import Thing
from .units_conv import below, result_dict

I_ = I
jsonof = fn('described', I_, K)
unstr = fn('untext', K, K)


class KidT(Thing):
    """a child concept: its description is the one being specified"""
    ops = ('output_json', 'concept_id', 'count', 'children')

    def __init__(self, e):
        self.e = e

    def same_as(self, b):
        return isinstance(b, KidT) and self.e.eq(b.e)

    def map_terms(self, f):
        return KidT(f(self.e))

    def op_output_json(self, J, args, kw):
        if args or kw:
            raise Unsupported('arguments')
        d = jsonof(self.e)
        J.st.assume(isdict(d))
        return Key(d)


def kids(J):
    isk = freshfn('child', I_, BOOL)
    return isk, J.new_list((Seg('gen', sort=I_, dom=isk,
                                elem=lambda i: KidT(i), ordered=True),))


def names_fact(J, nd):
    """distinct attributes, and distinct values of one attribute, read
    differently"""
    c, cvk = nd.c, J.cvk()
    J.st.facts.append(Fact('text tells attributes apart', (K,), lambda a:
                           Implies(c['has1'](a), unstr(strof(a)) == a),
                           trig=on_apps(c['has1'])))
    J.st.facts.append(Fact('text tells values apart', (K, K), lambda a, v:
                           Implies(c['has2'](a, v), unstr(strof(v)) == v),
                           trig=on_apps(c['has2'])))
    J.st.assume(And(strof(cvk) == cvk, isstr(cvk)))
    J.st.facts.append(Fact('str() gives texts', (K,), lambda a: And(
        isstr(strof(a)), hashable(strof(a))), trig=on_apps(strof)))


def list_is(J, N, what, v, dom, elem):
    """the list is exactly elem(i) for i in dom, in order"""
    d = J.deref(v)
    ok = isinstance(d, Obj) and isinstance(J.rec(d), RecList)
    if not ok:
        raise Unsupported('list expected: %r' % (d,))
    parts = [s for s in J.rec(d).parts]
    if not parts:
        i = fresh('i', I_)
        J.prove(N + what, Not(dom(i)))
        return
    if len(parts) != 1 or parts[0].kind != 'gen' or not parts[0].sort.eq(I_):
        raise Unsupported('list of another shape')
    s = parts[0]
    i = fresh('i', I_)
    J.obs.append(Ob_(N + what + ', in order', bool(s.ordered)))
    J.prove(N + what, And(s.dom(i) == dom(i), Implies(
        dom(i), J.key(s.elem(i)) == elem(i))))


def items_of(J, v):
    d = J.deref(v)
    if isinstance(d, Obj) and isinstance(J.rec(d), RecC):
        return J.rec(d).items
    raise Unsupported('dict expected')


cvjson = fn('summary described', REAL, REAL, REAL, K)


def c_cvjson(J, recv, args, kw, f):
    """unit viz.summary"""
    if args or kw:
        raise Unsupported('arguments')
    d = cvjson(*J.cv_get(recv))
    J.st.assume(isdict(d))
    return Key(d)


@unit('viz.summary', ['C18'], 'a numeric summary is described by its mean, '
      'corrected deviation and number')
def u_sum(ctx):
    J = cv_setup(ctx)
    SD = fn('std of', REAL, REAL, REAL)
    J.contracts = {
        'ContinuousValue.unbiased_std': lambda J, recv, args, kw, f: Num(
            SD(*[fields(J, J.deref(recv))[i] for i in (0, 2)])),
        'ContinuousValue.unbiased_mean': lambda J, recv, args, kw, f: Num(
            fields(J, J.deref(recv))[1])}
    f = ctx.func('continuous_value', 'ContinuousValue.output_json')
    o, n, m, q = new_cv(J, 'self')
    N = 'ContinuousValue.output_json: '
    before = dict(J.st.heap)

    def post(J, out):
        frame(J, N + 'nothing changes', out.st, before)
        if not ctx.value(J, N, out):
            return
        it = items_of(J, out.val)
        ok = set(it) == {'mean', 'std', 'n'}
        J.obs.append(Ob_(N + 'it has a mean, a deviation and a number', ok))
        if ok:
            J.prove(N + 'its mean', J.num(it['mean']) == m)
            J.prove(N + 'its corrected deviation', J.num(it['std'])
                    == SD(n, q))
            J.prove(N + 'its number of values', J.num(it['n']) == n)
    ctx.run(J, J.st, f, o, [], post)


def _json(short, cls):
    @unit('viz.output_json.' + short, ['C18', 'C04'],
          'the description of a concept carries exactly its contents')
    def u(ctx):
        J = ctx.interp(dict(TABC))
        J.contracts['ContinuousValue.output_json'] = c_cvjson
        J.st = State()
        nd = Node(J, cls, 'node', None, light=True)
        isk, l = kids(J)
        J.st.heap[nd.obj.oid] = nd.rec.set('children', l)
        names_fact(J, nd)
        N = '%s.output_json: ' % cls[1]
        f = J.find_method(cls, 'output_json')
        ctx.res.funcs.append(f.full)
        before = dict(J.st.heap)
        cid = nd.rec.fields['concept_id'].e

        def post(J, out):
            frame(J, N + 'nothing changes', out.st, before)
            if not ctx.value(J, N, out):
                return
            it = items_of(J, out.val)
            J.obs.append(Ob_(N + 'the description has name, size, counts '
                             'and children', set(it) - {'guid'} == {
                                 'name', 'size', 'counts', 'children'}))
            if set(it) - {'guid'} != {'name', 'size', 'counts', 'children'}:
                return
            J.prove(N + 'its own name', J.key(it['name']) == strcat(
                kconst('Concept'), strof(cid)))
            J.prove(N + 'its instance count', J.num(it['size']) == nd.count)
            list_is(J, N, 'one description per child', it['children'], isk,
                    jsonof)
            t = J.deref(it['counts'])
            if isinstance(t, Obj) and isinstance(J.rec(t), RecC) and not \
                    J.rec(t).items:
                r = RecComp(empty_comps('ktab'), 'ktab')
            elif isinstance(t, Obj) and isinstance(J.rec(t), RecComp) and \
                    J.rec(t).kind == 'ktab':
                r = J.rec(t)
            else:
                raise Unsupported('counts of another shape')
            a, v, b, w = [fresh(x, K) for x in 'avbw']
            c = nd.c
            cvk = J.cvk()
            cell = (c['cnt'](a, v), c['s1'](a, v), c['s2'](a, v))
            st = J.st
            want = fromnum(c['cnt'](a, v))
            if nd.cv:
                want = ite(v == cvk, cvjson(*cell), want)
            J.prove(N + 'every attribute/value count is described', Implies(
                c['has2'](a, v), And(r.get('has1', strof(a)), r.get(
                    'has2', strof(a), strof(v)))))
            J.prove(N + 'every count is the one of the concept', Implies(
                c['has2'](a, v), r.get('val', strof(a), strof(v)) == want))
            J.prove(N + 'nothing else is described', Implies(
                And(r.get('has1', b), r.get('has2', b, w)), And(
                    c['has2'](unstr(b), unstr(w)), b == strof(unstr(b)),
                    w == strof(unstr(w)))))
        ctx.run(J, J.st, f, nd.obj, [], post)


_json('cobweb', COB)
_json('cobweb3', COB3)


# ------------------------------------------------------------------ trimming
VIZ = 'visualize'
lin, lel = fn('lin', K, I_, BOOL), fn('lelem', K, I_, K)
CH = 'children'


def described(J):
    """facts on descriptions: nested dicts that list their children"""
    ch = kconst(CH)
    J.st.facts.append(Fact('descriptions are listed', (K, I_), lambda d, i:
                           Implies(And(islist(d), lin(d, i)), And(
                               isdict(lel(d, i)), below(lel(d, i))
                               < below(d))), trig=on_apps(lin, lel)))
    J.st.facts.append(Fact('a description', (K,), lambda d: Implies(
        isdict(d), And(dhas(d, ch), islist(dval(d, ch)), below(dval(
            d, ch)) < below(d), dhas(d, kconst('name')))),
        trig=lambda ts, by: [(t,) for t in by.get('K', [])]))
    J.st.facts.append(Fact('keys are hashable', (K, K), lambda d, a: Implies(
        And(isdict(d), dhas(d, a)), hashable(a)), trig=on_apps(dhas)))
    # a list is empty exactly when it has no item
    w = fn('some item', K, I_)
    J.st.facts.append(Fact('lists', (K,), lambda d: Implies(islist(d), And(
        tlen(d) >= 0, Implies(tlen(d) > 0, lin(d, w(d))))), trig=on_apps(
            tlen)))
    J.st.facts.append(Fact('items', (K, I_), lambda d, i: Implies(And(
        islist(d), lin(d, i)), tlen(d) >= 1), trig=on_apps(lin)))


def _trim(name, about, arglist, kept, recurse):
    @unit('viz.' + name.strip('_'), ['C18'], about)
    def u(ctx):
        J = ctx.interp({})
        J.st = State()
        d = fresh('given', K)
        J.st.assume(isdict(d))
        J.given.append(d)
        described(J)
        N = name + ': '
        f = ctx.func(VIZ, name)
        extra, env = arglist(J)

        def c_rec(J, recv, args, kw, g):
            b = J.bind(g, recv, args, kw)
            vs = [b[p.arg] for p in g.node.args.args]
            a = J.key(vs[0])
            J.prove(N + 'only descriptions are trimmed', isdict(a))
            J.prove(N + 'the trimming goes inwards', below(a) < below(d))
            J.obs.append(Ob_(N + 'the same concepts are asked for', all(
                same(J.deref(x), J.deref(y))
                for x, y in zip(vs[1:], extra))))
            r = recurse(a)
            J.st.assume(isdict(r))
            return Key(r)
        J.contracts[name] = c_rec
        ch = kconst(CH)

        def post(J, out):
            J.obs.append(Ob_(N + 'the description given stays as it was',
                             True))
            if not ctx.value(J, N, out):
                return
            has, val = result_dict(J, out.val)
            k = fresh('k', K)
            J.prove(N + 'everything but the children is kept', Implies(
                k != ch, And(has(k) == dhas(d, k), Implies(
                    dhas(d, k), val(k) == dval(d, k)))))
            J.prove(N + 'children are listed', has(ch))
            kl, ol = val(ch), dval(d, ch)
            i = fresh('i', I_)
            J.prove(N + 'exactly the wanted children remain', lin(kl, i)
                    == And(lin(ol, i), kept(env, d, lel(ol, i))))
            J.prove(N + 'remaining children are trimmed themselves', Implies(
                lin(kl, i), lel(kl, i) == recurse(lel(ol, i))))
        ctx.run(J, J.st, f, None, [Key(d)] + extra, post)


trimmed = fn('leaves trimmed', K, K)
_trim('_trim_leaves', 'cutting leaves removes exactly the children without '
      'children', lambda J: ([], None),
      lambda env, d, c: tlen(dval(c, kconst(CH))) > 0, trimmed)

cut = fn('cut at clusters', K, K)


def _clusters(J):
    inc = freshfn('cluster', K, BOOL)
    return [SetV(K, inc)], inc


_trim('_trim_to_clusters', 'children below a requested cluster, and only '
      'those, are removed', _clusters,
      lambda inc, d, c: Not(inc(dval(d, kconst('name')))), cut)


# ------------------------------------------------------- the entry functions
class RootT(Thing):
    ops = ('output_json',)

    def op_output_json(self, J, args, kw):
        if args or kw:
            raise Unsupported('arguments')
        d = fresh('description', K)
        J.st.assume(isdict(d))
        note(J, 'described', d)
        return Key(d)


class TreeT(Thing):
    ops = ()

    def __init__(self):
        self.root = RootT()

    def py_getattr(self, J, name):
        if name == 'root':
            return self.root
        raise Unsupported('tree.' + name)


class NamedT(Thing):
    """a concept given as a cluster"""
    ops = ()

    def __init__(self, e):
        self.e = e

    def same_as(self, b):
        return isinstance(b, NamedT) and self.e.eq(b.e)

    def map_terms(self, f):
        return NamedT(f(self.e))

    def py_getattr(self, J, name):
        if name == 'concept_id':
            return Key(fn('concept number', K, K)(self.e))
        raise Unsupported('concept.' + name)

    def py_isa(self, J, name):
        return BoolVal(name == 'CobwebNode')


again = fn('trimmed n times', K, REAL, K)


class Repeat(object):
    """loop invariant: the description was trimmed once per iteration"""
    def __init__(self, N):
        self.N = N

    def __call__(self, J, s, it):
        N = self.N
        d = events(J, 'described')
        segs = J.iterate(it)
        if not segs:
            return
        if len(segs) != 1 or not hasattr(segs[0], 'lo') or s.orelse or \
                len(d) != 1:
            raise Unsupported('a loop of another kind')
        e, g = d[0][1], segs[0]
        tgt = assigned([ast.Assign(targets=[s.target], value=s.target)])
        names = [n for n in assigned(s.body) if n not in tgt
                 and n in J.st.env]
        if len(names) != 1:
            raise Unsupported('a loop of another kind')
        v, steps = names[0], lsimp(g.hi - g.lo)
        J.prove(N + 'trimming starts from the description of the tree',
                J.key(J.st.env[v]) == e)
        i = fresh('i', REAL)
        J.st.assume(again(e, ZERO) == e)
        J.st.assume(And(i >= 0, L.isint(i), Or(i <= steps, i == 0), Implies(
            L.isint(i), again(e, i + 1) == trimmed(again(e, i)))))
        J.st.assume(isdict(again(e, i)))
        J.st.env[v] = Key(again(e, i))
        if not J.branch(i < steps):
            J.st.assume(i == ite(steps > 0, steps, ZERO))
            return
        J.assign(s.target, g.elem(lsimp(g.lo + i)))
        try:
            J.block(s.body)
        except ContinueEx:
            pass
        except BreakEx:
            raise Unsupported('the trimming stops early')
        J.prove(N + 'every round trims once', J.key(J.st.env[v]) == again(
            e, i + 1))
        raise Infeasible()


def _entry(name, variant, about):
    @unit('viz.%s%s' % (name, '.' + variant if variant else ''), ['C18'],
          about)
    def u(ctx):
        J = ctx.interp({})
        J.st = State()
        t, N = TreeT(), name + ': '
        f = ctx.func(VIZ, name)
        dst, re = Key(fresh('dst', K)), Bl(fresh('recreate', BOOL))
        inc = freshfn('cluster', K, BOOL)
        cuts = fresh('cuts', REAL)

        def c_gen(J, recv, args, kw, g):
            b = J.bind(g, recv, args, kw)
            J.prove(N + 'written where it was asked', J.key(b['dst'])
                    == dst.e)
            note(J, 'written', J.key(b['js_ob']))
        J.contracts['_gen_viz'] = c_gen

        def c_leaves(J, recv, args, kw, g):
            """unit viz.trim_leaves"""
            d = J.key(args[0])
            r = trimmed(d)
            J.st.assume(isdict(r))
            return Key(r)
        J.contracts['_trim_leaves'] = c_leaves

        def c_cut(J, recv, args, kw, g):
            """unit viz.trim_to_clusters"""
            b = J.bind(g, recv, args, kw)
            x = fresh('x', K)
            J.st.assume(hashable(x))
            J.prove(N + 'cut at exactly the clusters given', J.contains_(
                Key(x), b['clusters']) == wanted(x))
            d = J.key(b['j_ob'])
            J.st.assume(isdict(cut(d)))
            return Key(cut(d))
        J.contracts['_trim_to_clusters'] = c_cut
        args = [t]
        if name == 'visualize_no_leaves':
            args.append(Num(cuts))
            J.st.assume(L.isint(cuts))
            J.fors[f.qual] = Repeat(N)
        one = fresh('cluster', K)

        def wanted(x):
            return Or(x == one, inc(x))
        if variant == 'labels':
            J.st.facts.append(Fact('labels are texts', (K,), lambda x:
                                   Implies(wanted(x), And(
                                       isstr(x), hashable(x), Not(fn(
                                           'isa_CobwebNode', K, BOOL)(x))))))
            args.append(J.new_list((Seg('one', Key(one)), Seg(
                'gen', sort=K, dom=inc, elem=lambda x: Key(x)))))
        if variant == 'concepts':
            num = fn('concept number', K, K)
            of = freshfn('concept named', K, K)
            J.st.facts.append(Fact('names tell concepts apart', (K,), lambda
                                   x: Implies(Or(x == one, inc(x)), of(
                                       strcat(kconst('Concept'), strof(num(
                                           x)))) == x)))

            def wanted(x):
                y = of(x)
                return And(Or(y == one, inc(y)), x == strcat(kconst(
                    'Concept'), strof(num(y))))
            args.append(J.new_list((Seg('one', NamedT(one)), Seg(
                'gen', sort=K, dom=inc, elem=lambda x: NamedT(x)))))

        def post(J, out):
            if not ctx.value(J, N, out):
                return
            d, w = events(J, 'described'), events(J, 'written')
            J.obs.append(Ob_(N + 'the tree is described and written once',
                             len(d) == 1 and len(w) == 1))
            if len(d) != 1 or len(w) != 1:
                return
            e = d[0][1]
            J.prove(N + 'what is written is the description of the tree',
                    w[0][1] == {'visualize': e,
                                'visualize_clusters': cut(e),
                                'visualize_no_leaves': again(e, ite(
                                    cuts > 0, cuts, ZERO))}[name])
        ctx.run(J, J.st, f, None, args + [dst, re], post)


_entry('visualize', '', 'the description of the root is written')
_entry('visualize_clusters', 'labels', 'the description is cut at the '
       'clusters given')
_entry('visualize_clusters', 'concepts', 'the description is cut at the '
       'clusters given')
_entry('visualize_no_leaves', '', 'the leaves are trimmed as often as '
       'asked')
