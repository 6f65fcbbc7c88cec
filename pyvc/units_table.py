"""Concept tables: counting, probabilities, scores, exact match, prediction.

The table of a concept is seen as components over (attribute, value):
has1(a), has2(a,v), cnt(a,v) and, for numeric cells under cv_key, the additive
view (cnt, s1, s2).  Absent cells have value 0 (ghost normalisation)."""
from .unit import *
from .units_cv import *
from .vals import I as POS

COB = ('concept_formation.cobweb', 'CobwebNode')
COB3 = ('concept_formation.cobweb3', 'Cobweb3Node')
TREE3 = ('concept_formation.cobweb3', 'Cobweb3Tree')
TREE = ('concept_formation.cobweb', 'CobwebTree')
USC = kconst('_')


def isnum(k):
    return And(isnumt(k), Not(isbool(k)), Not(isnan_(k)))


def visible(a):
    return first(a) != USC


def hidden(a):
    return first(a) == USC


class Inst(object):
    def __init__(self, I, p='inst', valid=True):
        comps = sym_comps('kk', p)
        self.has, self.val = comps['has'], comps['val']
        self.rec = RecComp(comps, 'kk')
        self.obj = I.alloc(self.rec)
        has, val = self.has, self.val
        cvk = I.cvk()
        if valid:
            I.st.facts.append(Fact('valid instance', (K,), lambda a: Implies(
                has(a), And(hashable(a), subs(a), hashable(val(a)),
                            val(a) != KNONE, val(a) != cvk)),
                trig=on_apps(has, val)))

    def slot(self, I, cv, a):
        v = self.val(a)
        return ite(isnum(v), I.cvk(), v) if cv else v


class Node(object):
    """a concept with an arbitrary valid table"""
    def __init__(self, I, cls, p, tree=None, positive=True, pure=False,
                 light=False):
        st = I.st
        self.cls, self.cv = cls, cls[1] == 'Cobweb3Node'
        comps = sym_comps('tab', p)
        self.c = comps
        self.count = fresh(p + '.count', REAL)
        self.tab = I.alloc(RecComp(comps, 'tab', cv=self.cv))
        self.tabrec = I.rec(self.tab)
        has1, has2, cnt = comps['has1'], comps['has2'], comps['cnt']
        s1, s2 = comps['s1'], comps['s2']
        cvk = I.cvk()
        count, cv = self.count, self.cv

        def f1(a):
            return Implies(has1(a), And(hashable(a), subs(a)))

        def f3(a):
            x = fresh('v', K)
            t = mksum(x, has2(a, x), cnt(a, x))
            return Implies(has1(a), And(t <= count, t >= 1))

        def f2(a, v):
            c = [Implies(has2(a, v), And(has1(a), cnt(a, v) >= 1,
                                         cnt(a, v) <= count, hashable(v),
                                         v != KNONE)),
                 Implies(Not(has2(a, v)), And(cnt(a, v) == 0, s1(a, v) == 0,
                                              s2(a, v) == 0))]
            if cv:
                c.append(Implies(And(has2(a, v), v != cvk),
                                 And(Not(isnum(v)), s1(a, v) == 0,
                                     s2(a, v) == 0)))
                c.append(TRUE if light else Implies(has2(a, cvk), And(
                    s2(a, cvk) - s1(a, cvk) * s1(a, cvk) / cnt(a, cvk) >= 0,
                    Implies(cnt(a, cvk) < 2, s2(a, cvk) == s1(a, cvk) *
                            s1(a, cvk) / cnt(a, cvk)),
                    Or(cnt(a, cvk) <= 1, cnt(a, cvk) >= 2))))
            else:
                c.append(Implies(has2(a, v), And(v != cvk)))
                c.append(And(s1(a, v) == 0, s2(a, v) == 0))
            return And(*c)
        self.rowfact = f3
        st.facts.append(Fact('valid table rows', (K,), f1,
                             trig=on_apps(has1)))
        if not light:
            st.facts.append(Fact('row sums', (K,), f3, trig=on_apps(has1),
                                 sums=True))
        st.facts.append(Fact('valid table cells', (K, K), f2,
                             trig=on_apps(has2, cnt, s1, s2)))
        st.assume(count >= (1 if positive else 0))
        fields = {'count': Num(count), 'av_counts': self.tab,
                  'tree': tree, '__open__': True,
                  'concept_id': Key(fresh(p + '.id', K))}
        self.obj = I.alloc(RecObj(cls, fields))
        self.rec = I.rec(self.obj)

    def now(self, st):
        """(count, table components) in a state"""
        r = st.heap[self.obj.oid]
        t = st.heap[r.fields['av_counts'].oid]
        return r.fields['count'], t

    def unchanged(self, I, name, st=None):
        st = st or I.st
        r = st.heap[self.obj.oid]
        ok = all(same(r.fields.get(k), v) for k, v in self.rec.fields.items()
                 if k != '__open__') and set(r.fields) == set(self.rec.fields)
        ok = ok and same_rec(I, name, st, self.tab.oid, self.tabrec)
        if ok is True:
            I.obs.append(Ob_(name, True, how='identical'))
        elif ok is False:
            I.obs.append(Ob_(name, False, 'a field changed'))


def same_rec(I, name, st, oid, rec):
    """record unchanged: identical, or proved pointwise equal (obligation)"""
    r = st.heap[oid]
    if r is rec:
        return True
    if isinstance(r, RecComp) and isinstance(rec, RecComp) and \
            r.kind == rec.kind:
        for n, (sorts, res) in LAYOUT[rec.kind].items():
            if r.comps[n] is rec.comps[n]:
                continue
            av = [fresh('q', s) for s in sorts]
            I.prove(name, r.comps[n](*av) == rec.comps[n](*av), st)
        return None
    return False


def frame(I, N, st, before, touched=()):
    """every record that existed before is unchanged, except those given"""
    for oid, r in before.items():
        if oid in touched:
            continue
        r2 = st.heap.get(oid)
        if isinstance(r2, RecAlias) and r2.orig is not None:
            r2 = r2.orig
        if r2 is r:
            continue
        if isinstance(r, RecObj) and isinstance(r2, RecObj):
            ok = set(r.fields) == set(r2.fields) and all(
                same(r.fields[k], r2.fields[k]) for k in r.fields
                if k != '__open__')
            if not ok:
                for k in r.fields:
                    a, b = r.fields[k], r2.fields.get(k)
                    if not same(a, b):
                        if isinstance(a, Num) and is_num(b):
                            I.prove(N, a.e == I.num(b), st)
                        else:
                            I.obs.append(Ob_(N, False, 'field %s' % k))
            continue
        if isinstance(r, RecList) and isinstance(r2, RecList) and \
                r.parts == r2.parts and r.sort == r2.sort:
            continue
        x = same_rec(I, N, st, oid, r)
        if x is False:
            I.obs.append(Ob_(N, False, 'object %s changed' % oid))
    I.obs.append(Ob_(N, True, how='identical'))


def tree3(I, variant):
    """-> (value of the tree field, spec of the scale of an attribute)"""
    if variant == 'none':
        return None, None
    comps = sym_comps('kcv', 'scales')
    sc = I.alloc(RecComp(comps, 'kcv'))
    has, n, s1, s2 = comps['has'], comps['n'], comps['s1'], comps['s2']
    I.st.facts.append(Fact('valid scales', (K,), trig=on_apps(
        has, n, s1, s2), f=lambda a: Implies(
        has(a), And(n(a) >= 1, s2(a) - s1(a) * s1(a) / n(a) >= 0,
                    Implies(n(a) < 2, s2(a) == s1(a) * s1(a) / n(a)),
                    Or(n(a) <= 1, n(a) >= 2)))))
    inner = fresh('inner_attr_scaling', BOOL)
    if variant == 'off':
        scaling, sv = None, None
    else:
        sv = fresh('scaling', REAL)
        I.st.assume(sv > 0)
        scaling = Num(sv)
    t = I.alloc(RecObj(TREE3, {'scaling': scaling, 'attr_scales': sc,
                               'inner_attr_scaling': Bl(inner),
                               '__open__': True}))

    def inner_of(a):
        return ite(And(istup(a), inner), first(a), a)

    def scale(a):
        if sv is None:
            return None
        i = inner_of(a)
        return has(i), ONE / sv * v_std((n(i), s1(i), s2(i))), \
            v_mean((n(i), s1(i), s2(i)))
    return t, scale


def c_inner(I, recv, args, kw, f):
    """get_inner_attr, by its own contract (unit table.get_inner_attr)"""
    a = I.key(args[0] if args else kw['attr'])
    inner = I.truth(I.getattr_(recv, 'inner_attr_scaling'))
    return Key(ite(And(istup(a), inner), first(a), a))


TABC = dict(CVC)
TABC['Cobweb3Tree.get_inner_attr'] = c_inner


@unit('table.get_inner_attr', ['C15', 'C06', 'C07'],
      'the attribute whose scale is shared')
def u_inner(ctx):
    I = ctx.interp(CVC)
    I.st = State()
    f = ctx.func('cobweb3', 'Cobweb3Tree.get_inner_attr')
    t, _ = tree3(I, 'on')
    a = fresh('a', K)
    I.st.assume(And(hashable(a), subs(a)))
    inner = I.rec(t).fields['inner_attr_scaling'].e
    before = dict(I.st.heap)

    def post(I, out):
        N = 'Cobweb3Tree.get_inner_attr: '
        if not ctx.value(I, N, out):
            return
        I.prove(N + 'first element of a nested attribute iff inner scaling '
                'is on', I.key(out.val) == ite(And(istup(a), inner),
                                               first(a), a))
        frame(I, N + 'nothing changes', out.st, before)
    ctx.run(I, I.st, f, t, [Key(a)], post)


CLASSES = [('cobweb', COB), ('cobweb3', COB3)]


def both(name, props, about, variants=None):
    """declare one unit per concept class"""
    def deco(f):
        for short, cls in CLASSES:
            vs = (variants or {}).get(short, [None])
            for v in vs:
                nm = 'table.%s.%s%s' % (name, short,
                                        '.' + v if v else '')

                def go(ctx, short=short, cls=cls, v=v):
                    I = ctx.interp(TABC)
                    I.st = State()
                    f(ctx, I, short, cls, v)
                unit(nm, props, about)(go)
        return f
    return deco


def prove_tab(I, N, st, oid, spec, what):
    a, v = fresh('a', K), fresh('v', K)
    t = st.heap[oid]
    text = {'has1': 'known attributes', 'has2': 'known values',
            'cnt': 'counts', 's1': 'numeric sums',
            's2': 'numeric sums of squares'}
    for n in ('has1', 'has2', 'cnt', 's1', 's2'):
        if n == 'has1':
            g = t.get(n, a) == spec[n](a)
        else:
            g = t.get(n, a, v) == spec[n](a, v)
        I.prove('%s%s: %s' % (N, what, text[n]), g, st)


def inc_spec(I, c, inst, cv):
    """the table after recording one instance"""
    cvk = I.cvk()

    def hit(a, v):
        return And(inst.has(a), v == inst.slot(I, cv, a))

    def numhit(a, v):
        return And(inst.has(a), isnum(inst.val(a)), v == cvk)
    sp = {'has1': lambda a: Or(c['has1'](a), inst.has(a)),
          'has2': lambda a, v: Or(c['has2'](a, v), hit(a, v)),
          'cnt': lambda a, v: c['cnt'](a, v) + ite(hit(a, v), ONE, ZERO)}
    if cv:
        sp['s1'] = lambda a, v: c['s1'](a, v) + ite(
            numhit(a, v), numof(inst.val(a)), ZERO)
        sp['s2'] = lambda a, v: c['s2'](a, v) + ite(
            numhit(a, v), numof(inst.val(a)) * numof(inst.val(a)), ZERO)
    else:
        sp['s1'], sp['s2'] = c['s1'], c['s2']
    return sp


def add_spec(c, d):
    return {'has1': lambda a: Or(c['has1'](a), d['has1'](a)),
            'has2': lambda a, v: Or(c['has2'](a, v), d['has2'](a, v)),
            'cnt': lambda a, v: c['cnt'](a, v) + d['cnt'](a, v),
            's1': lambda a, v: c['s1'](a, v) + d['s1'](a, v),
            's2': lambda a, v: c['s2'](a, v) + d['s2'](a, v)}


@both('increment', ['C01', 'C03'], 'recording one instance in a concept')
def u_inc(ctx, I, short, cls, _):
    f = ctx.func(short, cls[1] + '.increment_counts')
    nd = Node(I, cls, 'self', positive=False)
    inst = Inst(I)
    before = dict(I.st.heap)

    def post(I, out):
        N = '%s.increment_counts: ' % cls[1]
        if not ctx.value(I, N, out):
            return
        cnt, t = nd.now(out.st)
        I.prove(N + 'count grows by one', I.num(cnt) == nd.count + 1)
        prove_tab(I, N, out.st, nd.tab.oid, inc_spec(I, nd.c, inst, nd.cv),
                  'exactly the instance is added')
        frame(I, N + 'instance and other concept fields unchanged', out.st,
              before, (nd.tab.oid, nd.obj.oid))
        only_fields(I, N, out.st, nd, ('count',))
    ctx.run(I, I.st, f, nd.obj, [inst.obj], post)


def only_fields(I, N, st, nd, allowed):
    r = st.heap[nd.obj.oid]
    bad = [k for k in set(r.fields) | set(nd.rec.fields)
           if k not in allowed and not same(r.fields.get(k),
                                            nd.rec.fields.get(k))
           and k != '__open__']
    I.obs.append(Ob_(N + 'no other field of the concept changes', not bad,
                     str(bad)))


@both('update_from', ['C01'], 'adding the counts of another concept')
def u_upd(ctx, I, short, cls, _):
    f = ctx.func(short, cls[1] + '.update_counts_from_node')
    nd = Node(I, cls, 'self', positive=False)
    ot = Node(I, cls, 'other', positive=False)
    before = dict(I.st.heap)

    def post(I, out):
        N = '%s.update_counts_from_node: ' % cls[1]
        if not ctx.value(I, N, out):
            return
        cnt, t = nd.now(out.st)
        I.prove(N + 'counts add up', I.num(cnt) == nd.count + ot.count)
        prove_tab(I, N, out.st, nd.tab.oid, add_spec(nd.c, ot.c),
                  'tables add up')
        frame(I, N + 'the other concept is unchanged', out.st, before,
              (nd.tab.oid, nd.obj.oid))
        only_fields(I, N, out.st, nd, ('count',))
    ctx.run(I, I.st, f, nd.obj, [ot.obj], post)


def ecg_spec(I, nd, scale):
    c = nd.c
    a, v = fresh('a', K), fresh('v', K)
    cvk = I.cvk()
    p = c['cnt'](a, v) / nd.count
    if nd.cv:
        def term(a, v):
            t = (c['cnt'](a, v), c['s1'](a, v), c['s2'](a, v))
            if scale is None or scale(a) is None:
                sc = ONE
            else:
                h, s, _ = scale(a)
                sc = ite(h, s, ONE)
            sd = v_std(t) / eff(sc)
            return ONE / (2 * sqrt_(PI) * sqrt_(sd * sd + ONE / (4 * PI)))
        # the numeric cell of a row is a single cell: split the sum
        body = p * p
        rowsum = mksum(v, And(c['has2'](a, v), v != cvk), body)
        n = c['cnt'](a, cvk) / nd.count
        num = ite(c['has2'](a, cvk), n * n * term(a, cvk), ZERO)
        tot = rowsum + num
    else:
        tot = mksum(v, c['has2'](a, v), p * p)
    g = And(c['has1'](a), visible(a))
    na = mksum(a, g, ONE)
    return na, mksum(a, g, tot)


ECGV = {'cobweb3': ['none', 'off', 'on']}


@both('ecg', ['C07'], 'expected correct guesses', ECGV)
def u_ecg(ctx, I, short, cls, variant):
    f = ctx.func(short, cls[1] + '.expected_correct_guesses')
    tree, scale = (None, None) if variant is None else tree3(I, variant)
    nd = Node(I, cls, 'self', tree)
    na, tot = ecg_spec(I, nd, scale)
    before = dict(I.st.heap)

    def post(I, out):
        N = '%s.expected_correct_guesses: ' % cls[1]
        if not ctx.value(I, N, out):
            return
        I.prove(N + 'average over visible attributes of squared '
                'probabilities', I.num(out.val) == ite(na == 0, ZERO,
                                                       tot / na))
        frame(I, N + 'nothing changes', out.st, before)
    ctx.run(I, I.st, f, nd.obj, [], post)


# ------------------------------------------------------------ probabilities

def guarded_tree(I, nd, tree, scale):
    """every attribute a concept holds numbers for has a scale (C15)"""
    if scale is None or not nd.cv:
        return
    has2, cvk = nd.c['has2'], I.cvk()

    def f(a):
        s = scale(a)
        return TRUE if s is None else Implies(has2(a, cvk), s[0])
    I.st.facts.append(Fact('numeric attributes are scaled', (K,), f,
                           trig=on_arg(0, nd.c['has1'], has2)))


def density(I, nd, scale, a, v):
    """gaussian density of the scaled, noise smoothed summary"""
    c, cvk = nd.c, I.cvk()
    t = (c['cnt'](a, cvk), c['s1'](a, cvk), c['s2'](a, cvk))
    x = numof(v)
    if scale is None or scale(a) is None:
        sc, sh = ONE, ZERO
    else:
        _, sc, sh = scale(a)
        sc = eff(sc)
    mu = v_mean(t)
    z = (x - mu) / sc
    var = (STD(*t) / sc) * (STD(*t) / sc) + ONE / (2 * PI)
    return t[0] / nd.count * (ONE / (sqrt_(2 * PI) * sqrt_(var))) * exp_(
        -(z * z) / (2 * var))


def prob_spec(I, nd, scale, a, v):
    c, cvk = nd.c, I.cvk()
    x = fresh('x', K)
    tot = mksum(x, c['has2'](a, x), c['cnt'](a, x))
    nom = ite(c['has2'](a, v), c['cnt'](a, v) / nd.count, ZERO)
    if nd.cv:
        nom = ite(isnum(v), ite(c['has2'](a, cvk),
                                density(I, nd, scale, a, v), ZERO), nom)
    return ite(v == KNONE, (nd.count - tot) / nd.count, nom)


@both('probability', ['C06', 'C16'], 'probability of a value', ECGV)
def u_prob(ctx, I, short, cls, variant):
    f = ctx.func(short, cls[1] + '.probability')
    tree, scale = (None, None) if variant is None else tree3(I, variant)
    nd = Node(I, cls, 'self', tree)
    guarded_tree(I, nd, tree, scale)
    a, v = fresh('attr', K), fresh('val', K)
    I.st.assume(And(hashable(a), subs(a), hashable(v), v != I.cvk()))
    before = dict(I.st.heap)

    def post(I, out):
        N = '%s.probability: ' % cls[1]
        if not ctx.value(I, N, out):
            return
        I.prove(N + 'count over total, zero if unseen, remainder if missing,'
                ' gaussian density for numbers',
                I.num(out.val) == prob_spec(I, nd, scale, a, v))
        frame(I, N + 'nothing changes', out.st, before)
    ctx.run(I, I.st, f, nd.obj, [Key(a), Key(v)], post)


@both('distribution', ['C06'], 'the probabilities form a distribution')
def u_distr(ctx, I, short, cls, variant):
    nd = Node(I, cls, 'self', None)
    c = nd.c
    N = 'lemma %s: ' % cls[1]
    a, v, x = fresh('a', K), fresh('v', K), fresh('x', K)
    I.st.assume(And(hashable(a), subs(a)))
    ps = mksum(x, c['has2'](a, x), c['cnt'](a, x) / nd.count)
    tot = mksum(x, c['has2'](a, x), c['cnt'](a, x))
    I.prove(N + 'value probabilities and the missing one sum to one',
            ps + (nd.count - tot) / nd.count == 1)
    I.prove(N + 'every value probability is at least zero',
            Implies(c['has2'](a, v), c['cnt'](a, v) / nd.count >= 0))
    I.prove(N + 'every value probability is at most one',
            Implies(c['has2'](a, v), c['cnt'](a, v) / nd.count <= 1))
    I.prove(N + 'the missing probability is at least zero',
            Implies(c['has1'](a), (nd.count - tot) / nd.count >= 0))
    I.prove(N + 'the missing probability is at most one',
            Implies(c['has1'](a), (nd.count - tot) / nd.count <= 1))


@both('weighted_values', ['C06', 'C09'], 'choices offered for prediction')
def u_wv(ctx, I, short, cls, variant):
    f = ctx.func(short, cls[1] + '.get_weighted_values')
    nd = Node(I, cls, 'self', None)
    a = fresh('attr', K)
    an = fresh('allow_none', BOOL)
    I.st.assume(And(hashable(a), subs(a)))
    before = dict(I.st.heap)
    c = nd.c

    def post(I, out):
        N = '%s.get_weighted_values: ' % cls[1]
        if not ctx.value(I, N, out):
            return
        v, x = fresh('v', K), fresh('x', K)
        segs = I.iterate(out.val)

        def times(k, w):
            """how often (k, w) is listed"""
            t = ZERO
            for s in segs:
                def hit(el):
                    el = I.deref(el)
                    if not isinstance(el, tuple) or len(el) != 2:
                        raise Unsupported('choice is not a pair')
                    return ite(And(I.key(el[0]) == k,
                                   TRUE if w is None else
                                   I.num(el[1]) == w), ONE, ZERO)
                t = t + (hit(s.val) if s.kind == 'one'
                         else I.seg_sum(s, hit))
            return lsimp(t)
        tot = mksum(x, c['has2'](a, x), c['cnt'](a, x))
        w = ite(v == KNONE,
                ite(c['has1'](a), (nd.count - tot) / nd.count, ONE),
                c['cnt'](a, v) / nd.count)
        want = ite(v == KNONE, ite(Or(Not(c['has1'](a)), an), ONE, ZERO),
                   ite(And(c['has1'](a), c['has2'](a, v)), ONE, ZERO))
        I.prove(N + 'each value is listed once', times(v, None) == want)
        I.prove(N + 'each value is listed with its probability',
                times(v, w) == want)
        frame(I, N + 'nothing changes', out.st, before)
    ctx.run(I, I.st, f, nd.obj, [Key(a), Bl(an)], post)


@both('ecg_bounds', ['C07'], 'expected correct guesses lie in [0, 1]')
def u_ecgb(ctx, I, short, cls, variant):
    nd = Node(I, cls, 'self', None)
    c = nd.c
    N = 'lemma %s: ' % cls[1]
    a, v = fresh('a', K), fresh('v', K)
    cvk = I.cvk()
    p = mksum(v, c['has2'](a, v), c['cnt'](a, v) / nd.count)
    I.st.assume(c['has1'](a))
    I.prove(N + 'value probabilities sum to at most one', p <= 1)
    w = fresh('term', REAL)
    if nd.cv:
        sd = fresh('sd', REAL)
        r, rp = sqrt_(sd * sd + ONE / (4 * PI)), sqrt_(PI)
        st = State()
        st.assume(sd >= 0)
        I.prove(N + 'root is at least that of the noise',
                (2 * rp * r) * (2 * rp * r) >= 1, st)
        q = fresh('q', REAL)
        st2 = State()
        st2.assume(And(q >= 0, q * q >= 1))
        I.prove(N + 'overlap with itself is at most one',
                And(ONE / q <= 1, ONE / q > 0), st2)
        nom = mksum(v, And(c['has2'](a, v), v != cvk),
                    c['cnt'](a, v) / nd.count)
        n = ite(c['has2'](a, cvk), c['cnt'](a, cvk) / nd.count, ZERO)
        I.prove(N + 'nominal and numeric probabilities split the row',
                nom + n == p)
        I.prove(N + 'numeric probability is between zero and one',
                And(n >= 0, n <= 1))
        I.prove(N + 'a probability is between zero and one', Implies(
            c['has2'](a, v), And(c['cnt'](a, v) / nd.count >= 0,
                                 c['cnt'](a, v) / nd.count <= 1)))
        pr, h = freshfn('p', K, REAL), freshfn('h', K, BOOL)
        st3 = State()
        st3.facts.append(Fact('probabilities', (K,), lambda k: And(
            pr(k) >= 0, pr(k) <= 1)))
        sq, sm = mksum(v, h(v), pr(v) * pr(v)), mksum(v, h(v), pr(v))
        I.prove(N + 'squares of probabilities', And(sq <= sm, sq >= 0), st3)
        x, y, z = fresh('x', REAL), fresh('y', REAL), fresh('z', REAL)
        st4 = State()
        st4.assume(And(w >= 0, w <= 1, x >= 0, x <= y, z >= 0, z <= 1,
                       y + z <= 1))
        I.prove(N + 'a row contributes between zero and one',
                And(x + z * z * w <= 1, x + z * z * w >= 0), st4)
    else:
        sq = mksum(v, c['has2'](a, v),
                   c['cnt'](a, v) / nd.count * (c['cnt'](a, v) / nd.count))
        I.prove(N + 'squares of probabilities', And(sq <= p, sq >= 0))
    # rows in [0, 1] average to [0, 1]
    st5 = State()
    row, g = freshfn('row', K, REAL), freshfn('g', K, BOOL)
    st5.facts.append(Fact('row bounds', (K,), lambda k: And(
        row(k) >= 0, row(k) <= 1)))
    k = fresh('k', K)
    na, tot = mksum(k, g(k), ONE), mksum(k, g(k), row(k))
    I.prove(N + 'rows sum to at most their number', And(
        tot <= na, tot >= 0), st5)
    st6 = State()
    A, T = fresh('A', REAL), fresh('T', REAL)
    st6.assume(And(A >= 0, T >= 0, T <= A))
    I.prove(N + 'the average is between zero and one', And(
        ite(A == 0, ZERO, T / A) >= 0, ite(A == 0, ZERO, T / A) <= 1), st6)


def witnesses(I, srt, extra=()):
    out, seen = [], set()
    for t in subterms(I.st.conds() + list(extra)):
        if t.sort().eq(srt) and t.get_id() not in seen and is_app(t):
            seen.add(t.get_id())
            out.append(t)
    return out


def choices_list(I):
    D, c, w = freshfn('in', POS, BOOL), freshfn('c', POS, K), \
        freshfn('w', POS, REAL)
    o = I.new_list([Seg('gen', sort=POS, dom=lambda i: D(i),
                        elem=lambda i: (Key(c(i)), Num(w(i))),
                        ordered=True)])
    return o, D, c, w


@unit('utils.most_likely_choice', ['C09'], 'the most likely choice')
def u_mlc(ctx):
    I = ctx.interp(CVC)
    I.st = State()
    f = ctx.func('utils', 'most_likely_choice')
    o, D, c, w = choices_list(I)
    before = dict(I.st.heap)

    def post(I, out):
        N = 'utils.most_likely_choice: '
        i = fresh('i', POS)
        n = mksum(i, D(i), ONE)
        frame(I, N + 'the choices are unchanged', out.st, before)
        if out.kind == 'exc':
            if I.dead():
                return
            st = out.st.copy()
            st.assume(n > 0)
            st.facts.append(Fact('weights', (POS,), lambda i: Implies(
                D(i), w(i) >= 0)))
            I.prove(N + 'fails only without choices or with negative weights',
                    BoolVal(False), st)
            return
        j = fresh('j', POS)
        r = I.key(out.val)
        ok = False
        for t in witnesses(I, POS, [r]):
            g = And(D(t), c(t) == r, w(t) >= 0, Implies(D(j), w(j) <= w(t)))
            ok = ok or I.prover.valid(I.st.conds(), I.st.facts, g)[0]
        I.obs.append(Ob_(N + 'returns a listed choice of maximal weight', ok,
                         I.describe(I.st, TRUE), how='z3' if ok else None))
        I.prove(N + 'weights are not negative', Implies(D(j), w(j) >= 0))
    ctx.run(I, I.st, f, None, [o], post)


@unit('utils.weighted_choice', ['C09'], 'sampling a choice')
def u_wc(ctx):
    I = ctx.interp(CVC)
    I.st = State()
    f = ctx.func('utils', 'weighted_choice')
    o, D, c, w = choices_list(I)
    I.st.facts.append(Fact('weights are not negative', (POS,),
                           lambda i: Implies(D(i), w(i) >= 0)))
    before = dict(I.st.heap)
    i = fresh('i', POS)
    tot = mksum(i, D(i), w(i))

    def post(I, out):
        N = 'utils.weighted_choice: '
        frame(I, N + 'the choices are unchanged', out.st, before)
        if out.kind == 'exc':
            if I.dead():
                return
            I.prove(N + 'fails only without any weight', And(
                tot <= 0, BoolVal(out.val.cls == 'ValueError')))
            return
        r = I.key(out.val)
        ok = False
        for t in witnesses(I, POS, [r]):
            g = And(D(t), c(t) == r, w(t) > 0)
            ok = ok or I.prover.valid(I.st.conds(), I.st.facts, g)[0]
        I.obs.append(Ob_(N + 'returns a listed choice of positive weight', ok,
                         I.describe(I.st, TRUE), how='z3' if ok else None))
    ctx.run(I, I.st, f, None, [o], post)


def c_most_likely(I, recv, args, kw, f):
    """contract of utils.most_likely_choice (proved above)"""
    from .loop import pick
    parts = tuple(pairs_of(I, args[0] if args else kw['choices']))
    no_negative(I, parts)
    if nothing(I, parts):
        raise PyExc('ValueError')
    _, _, v = pick(I, parts, [], True, lambda v: v[1])
    return v[0]


def pairs_of(I, v):
    for s in I.iterate(v):
        yield s


def no_negative(I, parts):
    """precondition of both choice functions"""
    for s in parts:
        N = 'choice functions: weights are not negative'
        if s.kind == 'one':
            I.prove(N, I.num(s.val[1]) >= 0)
        else:
            y = fresh('y', s.sort)
            st = I.st.copy()
            st.assume(s.dom(y))
            I.prove(N, I.num(s.elem(y)[1]) >= 0, st)


def nothing(I, parts):
    if any(s.kind == 'one' for s in parts):
        return False
    t = ZERO
    for s in parts:
        t = t + I.seg_sum(s, lambda el: ONE)
    return not I.branch(t > 0)


def c_weighted(I, recv, args, kw, f):
    """contract of utils.weighted_choice (proved above)"""
    parts = tuple(pairs_of(I, args[0] if args else kw['choices']))
    no_negative(I, parts)
    t = ZERO
    for s in parts:
        t = t + (I.num(s.val[1]) if s.kind == 'one' else
                 I.seg_sum(s, lambda el: I.num(el[1])))
    if I.branch(lsimp(t) <= 0):
        raise PyExc('ValueError')
    s = parts[I.choose(len(parts))]
    if s.kind == 'one':
        v = s.val
    else:
        y = I.fresh('chosen', s.sort)
        I.st.pc.append(('b', s.dom(y)))
        v = s.elem(y)
    I.st.pc.append(('b', I.num(v[1]) > 0))
    if I.dead():
        raise Infeasible()
    return v[0]


TABC['most_likely_choice'] = c_most_likely
TABC['weighted_choice'] = c_weighted


def pred_ok(I, nd, a, an, val, likely, N):
    """the contract of predict on one returned value"""
    c, cvk = nd.c, I.cvk()
    x, v = fresh('x', K), fresh('v', K)
    tot = mksum(x, c['has2'](a, x), c['cnt'](a, x))
    miss = nd.count - tot
    if is_num(val) or (isinstance(val, Num)):
        if not nd.cv:
            I.obs.append(Ob_(N + 'a nominal concept predicts values it saw',
                             False))
            return
        if likely:
            t = [c[k](a, cvk) for k in ('cnt', 's1', 's2')]
            I.prove(N + 'a numeric prediction is the mean',
                    And(c['has2'](a, cvk), I.num(val) * t[0] == t[1]))
        else:
            I.prove(N + 'a sampled number needs numeric observations',
                    And(c['has1'](a), c['has2'](a, cvk)))
        best = c['cnt'](a, cvk)
    else:
        r = I.key(val)
        I.prove(N + 'nothing for an unknown attribute, otherwise an observed '
                'value or, if allowed, nothing',
                ite(c['has1'](a), ite(r == KNONE, an, c['has2'](a, r)),
                    r == KNONE))
        if nd.cv:
            I.prove(N + 'the internal numeric key is never returned',
                    r != cvk)
        if not likely:
            I.prove(N + 'a missing value is only sampled when possible',
                    Implies(And(c['has1'](a), r == KNONE), miss > 0))
        best = ite(r == KNONE, miss, c['cnt'](a, r))
    if likely:
        I.prove(N + 'no value is more likely', Implies(
            c['has1'](a), And(c['cnt'](a, v) <= best,
                              Implies(an, miss <= best))))


@both('predict', ['C09'], 'predicting a value',
      {'cobweb': ['likely', 'sampled', 'other'],
       'cobweb3': ['likely', 'sampled', 'other']})
def u_predict(ctx, I, short, cls, variant):
    f = ctx.func(short, cls[1] + '.predict')
    nd = Node(I, cls, 'self', None)
    a, an = fresh('attr', K), fresh('allow_none', BOOL)
    I.st.assume(And(hashable(a), subs(a)))
    before = dict(I.st.heap)
    fnames = {'likely': ('most likely', 'm'), 'sampled': ('sampled', 's'),
              'other': ('x',)}[variant]
    for cf in fnames:
        def post(I, out):
            N = '%s.predict(%s): ' % (cls[1], variant)
            if variant == 'other':
                I.obs.append(Ob_(N + 'an unknown rule is refused',
                                 out.kind == 'exc'))
                return
            if not ctx.value(I, N, out):
                return
            pred_ok(I, nd, a, an, out.val, variant == 'likely', N)
            frame(I, N + 'nothing changes', out.st, before)
        I2 = I
        ctx.run(I2, I.st.copy(), f, nd.obj, [Key(a), cf, Bl(an)], post)


# ------------------------------------------------------------- exact match

def identical(I, nd, inst):
    """every instance counted in the concept agrees with inst on visible
    attributes (at one attribute)"""
    c, cvk = nd.c, I.cvk()

    def f(a):
        s = inst.slot(I, nd.cv, a)
        body = And(c['has2'](a, s), c['cnt'](a, s) == nd.count)
        if nd.cv:
            x = numof(inst.val(a))
            body = And(body, Implies(isnum(inst.val(a)), And(
                c['s1'](a, cvk) == nd.count * x,
                c['s2'](a, cvk) == nd.count * x * x)))
        return Implies(visible(a), And(
            inst.has(a) == c['has1'](a), Implies(inst.has(a), body)))
    return f


@both('exact_match', ['C10'], 'exact match')
def u_exact(ctx, I, short, cls, variant):
    f = ctx.func(short, cls[1] + '.is_exact_match')
    nd = Node(I, cls, 'self', None)
    inst = Inst(I)
    before = dict(I.st.heap)
    ident = identical(I, nd, inst)

    def post(I, out):
        N = '%s.is_exact_match: ' % cls[1]
        if not ctx.value(I, N, out):
            return
        t = lsimp(I.truth(out.val))
        a = fresh('a', K)
        st = out.st.copy()
        st.assume(t)
        if not is_false(t):
            I.prove(N + 'yes only if all instances are identical to it on '
                    'visible attributes', ident(a), st)
        if not is_true(t):
            st = out.st.copy()
            st.assume(Not(t))
            st.facts.append(Fact('identical', (K,), ident, trig=on_arg(
                0, nd.c['has1'], inst.has, nd.c['has2'])))
            I.prove(N + 'yes if all instances are identical to it on '
                    'visible attributes', FALSE, st)
        frame(I, N + 'nothing changes', out.st, before)
    ctx.run(I, I.st, f, nd.obj, [inst.obj], post)


@both('purity', ['C10'], 'a group of identical instances stays one')
def u_pure(ctx, I, short, cls, variant):
    nd = Node(I, cls, 'self', None)
    inst = Inst(I)
    N = 'lemma %s: ' % cls[1]

    class After(object):
        pass
    af = After()
    af.cv, af.count = nd.cv, nd.count + 1
    af.c = inc_spec(I, nd.c, inst, nd.cv)
    a, v = fresh('a', K), fresh('v', K)
    ident = identical(I, nd, inst)
    st = I.st.copy()
    st.facts.append(Fact('identical', (K,), ident))
    I.prove(N + 'recording an identical instance keeps the group identical',
            identical(I, af, inst)(a), st)
    st = I.st.copy()
    st.assume(And(ident(a), nd.rowfact(a)))
    I.prove(N + 'a visible attribute of the group has one single value',
            Implies(And(visible(a), nd.c['has2'](a, v)),
                    v == inst.slot(I, nd.cv, a)), st)
    e = After()
    e.cv, e.count = nd.cv, ONE
    z = {'has1': lambda a: FALSE, 'has2': lambda a, v: FALSE,
         'cnt': lambda a, v: ZERO, 's1': lambda a, v: ZERO,
         's2': lambda a, v: ZERO}
    e.c = inc_spec(I, z, inst, nd.cv)
    I.prove(N + 'a new leaf is a group of one', identical(I, e, inst)(a),
            I.st)


# --------------------------------------------------- validity is preserved

class View(object):
    """a table given by its components"""
    def __init__(self, c, count, cv):
        self.c, self.count, self.cv = c, count, cv


def valid_clauses(I, t, a, v, sums=True):
    """clauses of table validity (the precondition of every table unit)"""
    c, cvk = t.c, I.cvk()
    x = fresh('x', K)
    tot = mksum(x, c['has2'](a, x), c['cnt'](a, x))
    yield 'attributes are hashable and subscriptable', Implies(
        c['has1'](a), And(hashable(a), subs(a)))
    yield 'values belong to attributes, are hashable, not missing', Implies(
        c['has2'](a, v), And(c['has1'](a), hashable(v), v != KNONE))
    yield 'counts lie between one and the total', Implies(
        c['has2'](a, v), And(c['cnt'](a, v) >= 1, c['cnt'](a, v) <= t.count))
    yield 'absent cells are zero', Implies(Not(c['has2'](a, v)), And(
        c['cnt'](a, v) == 0, c['s1'](a, v) == 0, c['s2'](a, v) == 0))
    yield 'rows add up to at most the total', Implies(
        c['has1'](a), And(tot <= t.count, tot >= 1))
    if t.cv:
        n, s1, s2 = [c[k](a, cvk) for k in ('cnt', 's1', 's2')]
        yield 'numbers live under the numeric key', Implies(
            And(c['has2'](a, v), v != cvk),
            And(Not(isnum(v)), c['s1'](a, v) == 0, c['s2'](a, v) == 0))
        yield 'numeric cells are summaries', Implies(
            c['has2'](a, cvk), And(
                n * s2 - s1 * s1 >= 0, Or(n <= 1, n >= 2),
                Implies(n < 2, n * s2 == s1 * s1)))
    else:
        yield 'no numeric cells', And(c['s1'](a, v) == 0, c['s2'](a, v) == 0)
    yield 'the total is zero or at least one', Or(t.count == 0, t.count >= 1)


@both('valid', ['C01', 'C03', 'C06', 'C07', 'C09', 'C10'],
      'recording and adding keep tables valid')
def u_valid(ctx, I, short, cls, variant):
    nd = Node(I, cls, 'self', positive=False)
    ot = Node(I, cls, 'other', positive=False)
    I.st.assume(Or(nd.count == 0, nd.count >= 1))
    I.st.assume(Or(ot.count == 0, ot.count >= 1))
    inst = Inst(I)
    cvk = I.cvk()
    a, v = fresh('a', K), fresh('v', K)
    I.st.assume(And(nd.rowfact(a), ot.rowfact(a)))
    # a value of an instance is a number, or it is nominal and not the key
    for what, t in (
            ('recording an instance', View(inc_spec(I, nd.c, inst, nd.cv),
                                           nd.count + 1, nd.cv)),
            ('adding a concept', View(add_spec(nd.c, ot.c),
                                      nd.count + ot.count, nd.cv))):
        for nm, g in valid_clauses(I, t, a, v):
            N = 'lemma %s: %s keeps: %s' % (cls[1], what, nm)
            if nm == 'rows add up to at most the total':
                x = fresh('x', K)
                Z = [mksum(x, q.c['has2'](a, x), q.c['cnt'](a, x))
                     for q in (nd, ot)]
                new = mksum(x, t.c['has2'](a, x), t.c['cnt'](a, x))
                # absent cells are zero: drop the guards
                E = [lsimp(ite(q.c['has2'](a, x), q.c['cnt'](a, x), ZERO)
                           == q.c['cnt'](a, x)) for q in (nd, ot)]
                I.prove(N + ' (absent cells count nothing)', And(*E))
                y = fresh('y', K)
                hit = And(inst.has(a), y == inst.slot(I, nd.cv, a))
                rest = ite(hit, ONE, ZERO) if what[0] == 'r' else ite(
                    ot.c['has2'](a, y), ot.c['cnt'](a, y), ZERO)
                I.prove(N + ' (cell by cell)', ite(
                    t.c['has2'](a, y), t.c['cnt'](a, y), ZERO) ==
                    ite(nd.c['has2'](a, y), nd.c['cnt'](a, y), ZERO) + rest)
                n1, z1, n2, z2 = [fresh(k, REAL) for k in
                                  ('n1', 'z1', 'n2', 'z2')]
                h1, h2 = fresh('h1', BOOL), fresh('h2', BOOL)
                st = State()
                if what[0] == 'r':
                    st.assume(z2 == ite(h2, ONE, ZERO))
                    st.assume(n2 == 1)
                else:
                    st.assume(Implies(h2, And(z2 >= 1, z2 <= n2)))
                    st.assume(Implies(Not(h2), z2 == 0))
                    st.assume(n2 >= 0)
                st.assume(Implies(h1, And(z1 >= 1, z1 <= n1)))
                st.assume(Implies(Not(h1), z1 == 0))
                st.assume(n1 >= 0)
                I.prove(N, Implies(Or(h1, h2), And(
                    z1 + z2 >= 1, z1 + z2 <= n1 + n2)), st)
                for q, z in zip((nd, ot), Z):
                    I.prove('lemma %s: an unknown attribute has no values'
                            % cls[1], Implies(Not(q.c['has1'](a)), z == 0))
            elif nm == 'numeric cells are summaries':
                I.st.assume(TRUE)
                summary_lemma(I, N, nd, ot, inst, a, t, what)
            else:
                I.prove(N, g)


def summary_lemma(I, N, nd, ot, inst, a, t, what):
    """Cauchy-Schwarz form of the spread of a combined summary"""
    cvk = I.cvk()
    n, p, q = fresh('n', REAL), fresh('p', REAL), fresh('q', REAL)
    m, r, s = fresh('m', REAL), fresh('r', REAL), fresh('s', REAL)
    x = fresh('x', REAL)

    def ok(n, p, q):
        return And(Or(n == 1, n >= 2), n * q - p * p >= 0,
                   Implies(n < 2, n * q == p * p))
    st = State()
    st.assume(And(ok(n, p, q), ok(m, r, s)))
    # multiply out: (n+m)(q+s)-(p+r)^2 times nm is a sum of squares
    sq = (n * r - m * p) * (n * r - m * p)
    I.prove(N + ' (identity)', n * m * ((n + m) * (q + s) -
                                       (p + r) * (p + r)) ==
            m * (n + m) * (n * q - p * p) + n * (n + m) * (m * s - r * r)
            + sq, State())
    A, B, C, L = [fresh(z, REAL) for z in 'ABCL']
    st2 = State()
    st2.assume(And(n >= 1, m >= 1, A >= 0, B >= 0, C >= 0,
                   n * m * L == m * (n + m) * A + n * (n + m) * B + C))
    k1, k2, k3 = fresh('k1', REAL), fresh('k2', REAL), fresh('k3', REAL)
    st3 = State()
    st3.assume(And(k1 > 0, k2 > 0, k3 > 0, A >= 0, B >= 0, C >= 0,
                   k3 * L == k1 * A + k2 * B + C))
    I.prove(N + ' (non-negative spread)', L >= 0, st3)
    I.prove(N + ' (a square is not negative)', sq >= 0, State())
    I.prove(N + ' (two or more)', n + m >= 2, st)
    c, d = nd.c, ot.c
    g = [t.c[k](a, cvk) for k in ('cnt', 's1', 's2')]
    old = [c[k](a, cvk) for k in ('cnt', 's1', 's2')]
    if what.startswith('adding'):
        new = [d[k](a, cvk) for k in ('cnt', 's1', 's2')]
        h2 = d['has2'](a, cvk)
    else:
        xx = numof(inst.val(a))
        new = [ONE, xx, xx * xx]
        h2 = And(inst.has(a), isnum(inst.val(a)))
        I.prove(N + ' (one value is a summary)', ok(*new), State())
    h1 = c['has2'](a, cvk)
    comb = [lsimp(u + w) for u, w in zip(old, new)]
    for i, nm in enumerate(('number', 'sum', 'sum of squares')):
        I.prove(N + ' (the cell is the combination: %s)' % nm,
                And(Implies(And(h1, h2), g[i] == comb[i]),
                    Implies(And(h1, Not(h2)), g[i] == old[i]),
                    Implies(And(Not(h1), h2), g[i] == new[i])))
    I.prove(N + ' (the cell exists only then)',
            t.c['has2'](a, cvk) == Or(h1, h2))


# ---------------------------------------------------------- sanity check

TREES = [('cobweb', TREE), ('cobweb3', TREE3)]


def raw_instance(I):
    comps = sym_comps('kk', 'inst')
    return I.alloc(RecComp(comps, 'kk')), comps['has'], comps['val']


def bad_entry(has, val, a):
    return And(has(a), Or(Not(hashable(a)), Not(subs(a)),
                          Not(hashable(val(a))), val(a) == KNONE))


for _short, _tc in TREES:
    def _go(ctx, short=_short, tc=_tc):
        I = ctx.interp(TABC)
        I.st = State()
        f = ctx.func(short, tc[1] + '._sanity_check_instance')
        inst, has, val = raw_instance(I)
        t = I.alloc(RecObj(tc, {'__open__': True}))
        before = dict(I.st.heap)

        def post(I, out):
            N = '%s._sanity_check_instance: ' % tc[1]
            frame(I, N + 'nothing changes', out.st, before)
            if out.kind == 'exc':
                if I.dead():
                    return
                st = out.st.copy()
                st.facts.append(Fact('all entries fine', (K,), lambda a: Not(
                    bad_entry(has, val, a))))
                I.prove(N + 'only a defective entry is refused', FALSE, st)
                I.obs.append(Ob_(N + 'refused with a value error',
                                 out.val.cls == 'ValueError', out.val.cls))
                return
            a = fresh('a', K)
            I.prove(N + 'a defective entry is refused',
                    Not(bad_entry(has, val, a)))
        ctx.run(I, I.st, f, t, [inst], post)
    unit('table.sanity.' + _short, ['C11'],
         'rejecting invalid instances')(_go)


# --------------------------------------------------------------- scaling

@unit('table.update_scales', ['C15'], 'running scales')
def u_scales(ctx):
    I = ctx.interp(TABC)
    I.st = State()
    f = ctx.func('cobweb3', 'Cobweb3Tree.update_scales')
    t, _ = tree3(I, 'on')
    flds = I.rec(t).fields
    inner = flds['inner_attr_scaling'].e
    sc = flds['attr_scales']
    c = dict(I.rec(sc).comps)
    inst = Inst(I)
    before = dict(I.st.heap)

    def into(a, k):
        return And(inst.has(a), isnum(inst.val(a)),
                   ite(And(istup(a), inner), first(a), a) == k)

    def post(I, out):
        N = 'Cobweb3Tree.update_scales: '
        if not ctx.value(I, N, out):
            return
        k, a = fresh('k', K), fresh('a', K)
        r = out.st.heap[sc.oid]
        x = numof(inst.val(a))
        for nm, w in (('n', ONE), ('s1', x), ('s2', x * x)):
            I.prove(N + 'every numeric value of the instance is added to its '
                    'scale (%s)' % nm, r.get(nm, k) == c[nm](k) + mksum(
                        a, And(into(a, k)), w))
        I.prove(N + 'a scale exists for every numeric attribute',
                And(Implies(into(a, k), r.get('has', k)),
                    Implies(c['has'](k), r.get('has', k))))
        st = out.st.copy()
        st.facts.append(Fact('nothing for k', (K,), lambda b: Not(
            into(b, k)), trig=on_arg(0, inst.has)))
        st.assume(Not(c['has'](k)))
        I.prove(N + 'no scale appears for anything else',
                Not(r.get('has', k)), st)
        frame(I, N + 'nothing else changes', out.st, before, (sc.oid,))
    # absent scales are zero (ghost normalisation)
    I.st.facts.append(Fact('absent scales', (K,), lambda k: Implies(
        Not(c['has'](k)), And(c['n'](k) == 0, c['s1'](k) == 0,
                              c['s2'](k) == 0)),
        trig=on_apps(c['has'], c['n'], c['s1'], c['s2'])))
    ctx.run(I, I.st, f, t, [inst.obj], post)
