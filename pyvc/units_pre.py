"""Preprocessing steps (C13) and how they are composed."""
from .vals import *
from .unit import unit, Ob_
from . import loop as L
from .units_table import frame, TABC
from .units_eval import Thing, extra, item
from .units_conv import PRE, given, result_dict, nesting, recursion, below
from .units_map import Map, reversed_of, inside, tin, telem

done = fn('transformed by step', REAL, K, K)
undone = fn('restored by step', REAL, K, K)


class Step(Thing):
    """one step of a pipeline: any preprocessor"""
    ops = ('transform', 'undo_transform')

    def __init__(self, i):
        self.i = i

    def same_as(self, b):
        return isinstance(b, Step) and self.i.eq(b.i)

    def map_terms(self, f):
        return Step(f(self.i))

    def op_transform(self, I, args, kw):
        extra(args, kw, 1)
        return Key(done(self.i, I.key(args[0])))

    def op_undo_transform(self, I, args, kw):
        extra(args, kw, 1)
        return Key(undone(self.i, I.key(args[0])))


class Steps(Thing):
    """the steps of a pipeline, in order"""
    ops = ()

    def __init__(self, n):
        self.n = n

    def py_iter(self, I):
        return [L.ranged(ZERO, self.n, lambda x: Step(x), src=self)]

    def py_len(self, I):
        return self.n

    def py_getitem(self, I, k):
        e = I.num(k)
        if I.branch(And(e >= 0, e < self.n)):
            return Step(e)
        if I.branch(And(e < 0, e >= -self.n)):
            return Step(lsimp(self.n + e))
        raise Unsupported('position of a step')

    def py_slice(self, I, lo, hi):
        raise Unsupported('slice of the steps')


def _pipe(name, which, at):
    @unit('pre.pipeline.' + name, ['C13'], which)
    def u(ctx):
        I = ctx.interp(TABC)
        I.st = State()
        f = ctx.func('preprocessor', 'Pipeline.' + name)
        n = fresh('steps', REAL)
        I.st.assume(And(n >= 0, L.isint(n)))
        x = fresh('instance', K)
        I.st.assume(isdict(x))
        o = I.alloc(RecObj((PRE, 'Pipeline'), {'preprocessors': Steps(n)}))
        before = dict(I.st.heap)
        N = 'Pipeline.%s: ' % name

        def post(I, out):
            frame(I, N + 'the pipeline itself stays as it was', out.st,
                  before)
            if not ctx.value(I, N, out):
                return
            r = I.key(I.deref(out.val))
            fs = [t for t in subterms([r]) if is_app(t)
                  and t.decl().name().startswith('fold') and t.num_args()]
            if len(fs) != 1:
                raise Unsupported('shape of the result')
            A = lambda y: fs[0].decl()(*(fs[0].children()[:-1] + [lsimp(y)]))
            y = fresh('y', REAL)
            I.st.assume(And(y >= 0, y < n, L.isint(y)))
            I.prove(N + 'the first step is given the instance', A(
                RealVal(0)) == x)
            I.prove(N + 'every step once, in order, on what the one before '
                    'it made', A(y + 1) == at(n, y, A(y)))
            I.prove(N + 'the result is what the last step made', r == A(n))
        ctx.run(I, I.st, f, o, [Key(x)], post)


_pipe('transform', 'the steps are applied one after the other',
      lambda n, y, v: done(y, v))
_pipe('undo_transform', 'the steps are undone in the opposite order',
      lambda n, y, v: undone(lsimp(n - 1 - y), v))


@unit('pre.pipeline.lemma', ['C13'],
      'a pipeline of reversible steps is reversible')
def u_lemma(ctx):
    J = ctx.interp(TABC)
    J.st = State()
    N = 'lemma pipeline: '
    A, B = freshfn('made', REAL, K), freshfn('restored', REAL, K)
    n, j = fresh('n', REAL), fresh('j', REAL)
    J.st.assume(And(n >= 0, L.isint(n), j >= 0, j < n, L.isint(j)))
    # contracts of the two functions above
    J.st.assume(And(B(ZERO) == A(n), A(n - 1 - j + 1) == done(
        n - 1 - j, A(n - 1 - j)), B(j + 1) == undone(n - 1 - j, B(j)),
        A(n - 1 - j + 1) == A(n - j)))
    # the step is reversible on what it was given
    J.st.assume(undone(n - 1 - j, done(n - 1 - j, A(n - 1 - j)))
                == A(n - 1 - j))
    J.prove(N + 'undoing starts from what was made', B(ZERO) == A(n))
    J.prove(N + 'undoing a step restores what it was given', Implies(
        B(j) == A(n - j), B(j + 1) == A(n - 1 - j)))


def _batch(name, via):
    @unit('pre.' + name, ['C13'], 'every instance, in order')
    def u(ctx):
        made = fn('made by ' + via, K, K)

        def c(I, recv, args, kw, f):
            extra(args, kw, 1)
            return Key(made(I.key(args[0])))
        con = dict(TABC)
        con['Preprocessor.' + via] = c
        I = ctx.interp(con)
        I.st = State()
        f = ctx.func('preprocessor', 'Preprocessor.' + name)
        n, order = fresh('n', REAL), fresh('order', K)
        I.st.assume(And(n >= 0, L.isint(n)))
        lst = I.new_list((L.ranged(ZERO, n, lambda x: Key(item(order, x))),))
        o = I.alloc(RecObj((PRE, 'Preprocessor'), {'__open__': True}))
        before = dict(I.st.heap)
        N = 'Preprocessor.%s: ' % name

        def post(I, out):
            frame(I, N + 'neither the list nor the step changes', out.st,
                  before)
            if not ctx.value(I, N, out):
                return
            d = I.deref(out.val)
            r = I.rec(d) if isinstance(d, Obj) else None
            if not isinstance(r, RecList) or len(r.parts) != 1 or \
                    r.sort is not None or r.parts[0].kind != 'gen' or \
                    not r.parts[0].sort.eq(REAL):
                raise Unsupported('shape of the result')
            s, i = r.parts[0], fresh('i', REAL)
            I.obs.append(Ob_(N + 'in order', bool(s.ordered)))
            I.prove(N + 'one result per instance', s.dom(i) == And(
                i >= 0, i < n, L.isint(i)))
            I.prove(N + 'each instance is converted', Implies(
                s.dom(i), I.key(s.elem(i)) == made(item(order, i))))
        ctx.run(I, I.st, f, o, [lst], post)


_batch('batch_transform', 'transform')
_batch('batch_undo', 'undo_transform')


@unit('pre.one_way.undo', ['C13', 'C17'],
      'undoing a one-way step changes nothing')
def u_one(ctx):
    I = ctx.interp(TABC)
    I.st = State()
    f = ctx.func('preprocessor', 'OneWayPreprocessor.undo_transform')
    d = given(I)
    o = I.alloc(RecObj((PRE, 'OneWayPreprocessor'), {'__open__': True}))
    before = dict(I.st.heap)
    N = 'OneWayPreprocessor.undo_transform: '

    def post(I, out):
        frame(I, N + 'the converter itself stays as it was', out.st, before)
        if not ctx.value(I, N, out):
            return
        has, val = result_dict(I, out.val)
        a = fresh('a', K)
        I.prove(N + 'the same attributes', has(a) == dhas(d, a))
        I.prove(N + 'the same values', Implies(dhas(d, a), val(a)
                                               == dval(d, a)))
    ctx.run(I, I.st, f, o, [Key(d)], post)


def new_keys(I, N, d, out, name, back, value=None):
    """the result has exactly the renamed attributes, each with its value"""
    has, val = result_dict(I, out.val)
    a, b = fresh('a', K), fresh('b', K)
    value = value or (lambda a: dval(d, a))
    I.prove(N + 'every attribute appears under its new name', Implies(
        dhas(d, a), has(name(a))))
    I.prove(N + 'every value is kept', Implies(
        dhas(d, a), val(name(a)) == value(a)))
    I.prove(N + 'nothing else appears', Implies(
        has(b), And(dhas(d, back(b)), name(back(b)) == b)))


def apart(I, d, name, back):
    """no two attributes get the same new name"""
    I.st.facts.append(Fact('new names differ', (K,), lambda a: Implies(
        dhas(d, a), And(back(name(a)) == a, hashable(name(a)))),
        trig=lambda ts, by: [(t.arg(1),) for t in ts if is_app(t)
                             and (t.decl().eq(dhas) or t.decl().eq(dval))
                             and t.arg(0).eq(d)]))


def _tuplizer(name, via):
    @unit('pre.tuplizer.' + name, ['C13'],
          'attributes are rewritten one by one, values stay')
    def u(ctx):
        con = dict(TABC)
        I = ctx.interp(con)
        I.st = State()
        new, back = freshfn('rewritten', K, K), freshfn('origin', K, K)

        def c(J, recv, args, kw, f):
            extra(args, kw, 1)
            return Key(new(J.key(args[0])))
        con['Tuplizer.' + via] = c
        I.contracts = con
        f = ctx.func('preprocessor', 'Tuplizer.' + name)
        d = given(I)
        apart(I, d, new, back)
        o = I.alloc(RecObj((PRE, 'Tuplizer'), {'__open__': True}))
        before = dict(I.st.heap)
        N = 'Tuplizer.%s: ' % name

        def post(I, out):
            frame(I, N + 'the step itself stays as it was', out.st, before)
            if not ctx.value(I, N, out):
                return
            r = I.deref(out.val)
            I.obs.append(Ob_(N + 'the result is a new instance', not (
                isinstance(r, Key) and r.e.eq(d))))
            new_keys(I, N, d, out, new, back)
        ctx.run(I, I.st, f, o, [Key(d)], post)


_tuplizer('transform', '_tuplize_relation')
_tuplizer('undo_transform', '_stringify_relation')


# --------------------------------------------------------- standard names
lin, lel = fn('lin', K, I, BOOL), fn('lelem', K, I, K)
I_ = I
tup2 = fn('tup2', K, K, K)


def listing(I):
    """lists are finitely nested"""
    I.st.facts.append(Fact('finite nesting of lists', (K, I_), lambda d, i:
                           Implies(And(islist(d), lin(d, i)), below(
                               lel(d, i)) < below(d)),
                           trig=on_apps(lin, lel)))


def c_rename(N, m, rr):
    """unit map.rename_relation"""
    def c(J, recv, args, kw, f):
        env = J.bind(f, recv, args, kw)
        a = J.key(env['relation'])
        J.prove(N + 'only relations are renamed as relations', istup(a))
        J.obs.append(Ob_(N + 'relations use the renaming remembered', same(
            J.deref(env['mapping']), m.obj)))
        r = rr(a)
        J.st.assume(And(istup(r), hashable(r)))
        return Key(r)
    return c


def writers(I, N, d, a, r, hyp=None):
    """r, using that whoever wrote the place of attribute a is a itself"""
    hyp = dhas(d, a) if hyp is None else hyp
    for t in subterms([r]):
        n = t.decl().name() if is_app(t) and t.num_args() else ''
        if n.startswith('PUTw') and t.sort().eq(K):
            I.prove(N + 'no attribute overwrites another', Implies(
                hyp, t == a))
            r = z3.substitute(r, (t, a))
        elif n.startswith('PUT') and t.sort().eq(BOOL):
            I.prove(N + 'every attribute is written', Implies(
                hyp, t))
            r = z3.substitute(r, (t, TRUE))
    return r


@unit('pre.standardizer._undo', ['C13'],
      'every attribute gets its old name back, components and lists inside '
      'too')
def u_undo(ctx):
    con = dict(TABC)
    I = ctx.interp(con)
    I.st = State()
    f = ctx.func('preprocessor', 'NameStandardizer._undo_standardize')
    N = 'NameStandardizer._undo_standardize: '
    d = given(I)
    nesting(I)
    listing(I)
    m = Map(I, 'reverse')
    rr, conv = freshfn('renamed', K, K), freshfn('restored', K, K)
    back = freshfn('origin', K, K)
    con['rename_relation'] = c_rename(N, m, rr)
    con['NameStandardizer._undo_standardize'] = recursion(N, conv, d)
    I.contracts = con
    I.st.facts.append(Fact('old names are plain', (K,), lambda a: Implies(
        m.has(a), And(Not(istup(m.val(a))), Not(istup(a)))),
        trig=on_apps(m.has)))
    new = lambda a: ite(m.has(a), m.val(a), ite(istup(a), rr(a), a))
    apart(I, d, new, back)
    o = I.alloc(RecObj((PRE, 'NameStandardizer'), {
        'reverse_mapping': m.obj, '__open__': True}))
    before = dict(I.st.heap)

    def post(I, out):
        frame(I, N + 'the remembered names stay as they were', out.st,
              before)
        if not ctx.value(I, N, out):
            return
        has, val = result_dict(I, out.val)
        a, b, i = fresh('a', K), fresh('b', K), fresh('i', I_)
        v, r = dval(d, a), val(new(a))
        I.prove(N + 'every attribute appears under its old name', Implies(
            dhas(d, a), has(new(a))))
        I.prove(N + 'nothing else appears', Implies(
            has(b), And(dhas(d, back(b)), new(back(b)) == b)))
        r = writers(I, N, d, a, r)
        I.prove(N + 'components are restored inside', Implies(And(
            dhas(d, a), isdict(v)), r == conv(v)))
        for h, t in ((True, False), (False, True), (False, False)):
            case = [(m.has(a), h), (istup(a), t), (isdict(v), False),
                    (islist(v), True)]
            q = lsimp(z3.substitute(r, *[(l, z3.BoolVal(b))
                                         for l, b in case]))
            hyp = And([dhas(d, a)] + [l if b else Not(l) for l, b in case])
            I.prove(N + 'lists keep their length and order', Implies(
                hyp, And(islist(q), lin(q, i) == lin(v, i))))
            I.prove(N + 'components in lists are restored, all else in '
                    'them stays', Implies(And(hyp, lin(v, i)), lel(
                        q, i) == ite(isdict(lel(v, i)), conv(lel(v, i)),
                                     lel(v, i))))
        I.prove(N + 'all other values stay', Implies(And(
            dhas(d, a), Not(isdict(v)), Not(islist(v))), r == v))
    ctx.run(I, I.st, f, o, [Key(d)], post)


def _delegates(cls, name, via, args, about, prop='C13'):
    short = {'NameStandardizer': 'standardizer'}.get(cls, cls.lower())

    @unit('pre.%s.%s' % (short, name), [prop], about)
    def u(ctx):
        con = dict(TABC)
        I = ctx.interp(con)
        I.st = State()
        N = '%s.%s: ' % (cls, name)
        d = given(I)
        made = freshfn('made', K, K)

        def c(J, recv, ar, kw, f):
            env = {'instance': ar[0]} if len(ar) == 1 and not kw else \
                J.bind(f, recv, ar, kw)
            J.prove(N + 'the given instance is converted', J.key(
                env['instance']) == d)
            if any(J.deref(env.get(a)) is not None for a in args):
                raise Unsupported('not from the top')
            r = made(J.key(env['instance']))
            J.st.assume(isdict(r))
            return Key(r)
        con['%s.%s' % (cls, via)] = c
        I.contracts = con
        f = ctx.func('preprocessor', '%s.%s' % (cls, name))
        o = I.alloc(RecObj((PRE, cls), {'__open__': True}))
        before = dict(I.st.heap)

        def post(I, out):
            frame(I, N + 'the step itself stays as it was', out.st, before)
            if not ctx.value(I, N, out):
                return
            I.prove(N + 'the converted instance is the answer', I.key(
                I.deref(out.val)) == made(d))
        ctx.run(I, I.st, f, o, [Key(d)], post)


_delegates('Flattener', 'transform', '_flatten', ['outer_attr'],
           'flattening starts at the top of the instance')
_delegates('Flattener', 'undo_transform', '_structurize', [],
           'undoing restructures the instance')
_delegates('SubComponentProcessor', 'transform', '_extract_sub_objects', [],
           'components are lifted out of the instance')
_delegates('SubComponentProcessor', 'undo_transform', '_embed_sub_objects',
           [], 'components are put back')
_delegates('ListsToRelations', 'transform', '_lists_to_relations',
           ['current', 'top_level'], 'lists become relations')
_delegates('ExtractListElements', 'transform', '_extract', [],
           'list elements are lifted out')
_delegates('ExtractListElements', 'undo_transform', '_undo_extract', [],
           'list elements are put back')
_delegates('ObjectVariablizer', 'transform', '_variablize', ['prefix'],
           'converting starts at the top of the instance', 'C17')
_delegates('Sanitizer', 'transform', '_sanitize', [],
           'the whole instance is cleaned', 'C17')


def _undo(have):
    @unit('pre.standardizer.undo_transform.' + have, ['C13'],
          'undoing needs, and uses, the names remembered')
    def u(ctx):
        con = dict(TABC)
        I = ctx.interp(con)
        I.st = State()
        N = 'NameStandardizer.undo_transform: '
        d = given(I)
        made = freshfn('made', K, K)
        con['NameStandardizer._undo_standardize'] = \
            lambda J, recv, ar, kw, f: Key(made(J.key(J.bind(
                f, recv, ar, kw)['instance'])))
        I.contracts = con
        m = Map(I, 'reverse').obj if have == 'known' else None
        f = ctx.func('preprocessor', 'NameStandardizer.undo_transform')
        o = I.alloc(RecObj((PRE, 'NameStandardizer'), {
            'reverse_mapping': m, '__open__': True}))
        before = dict(I.st.heap)

        def post(I, out):
            frame(I, N + 'the step itself stays as it was', out.st, before)
            if have == 'none':
                I.obs.append(Ob_(N + 'undoing before transforming is '
                                 'refused', out.kind == 'exc'))
                return
            if not ctx.value(I, N, out):
                return
            I.prove(N + 'the restored instance is the answer', I.key(
                I.deref(out.val)) == made(d))
        ctx.run(I, I.st, f, o, [Key(d)], post)


_undo('known')
_undo('none')


@unit('pre.standardizer.transform', ['C13'],
      'the names given are remembered in reverse')
def u_std(ctx):
    con = dict(TABC)
    I = ctx.interp(con)
    I.st = State()
    N = 'NameStandardizer.transform: '
    d = given(I)
    made = freshfn('made', K, K)
    has, val = freshfn('m.has', K, BOOL), freshfn('m.val', K, K)
    by = freshfn('m.by', K, K)

    def c(J, recv, ar, kw, f):
        """_standardize: gives every variable a name of its own and notes
        it in the mapping"""
        env = J.bind(f, recv, ar, kw)
        J.prove(N + 'the given instance is converted', J.key(
            env['instance']) == d)
        o = J.deref(env['mapping'])
        r = J.rec(o) if isinstance(o, Obj) else None
        J.obs.append(Ob_(N + 'names are given anew for every instance',
                         isinstance(r, RecC) and not r.items and
                         o.oid not in before))
        J.st.facts.append(Fact('one-to-one', (K,), lambda a: Implies(
            has(a), And(by(val(a)) == a, hashable(a), hashable(val(a)))),
            trig=on_apps(has, val)))
        J.st.heap[o.oid] = RecComp({'has': has, 'val': val}, 'kk')
        x = made(d)
        J.st.assume(isdict(x))
        return Key(x)
    con['NameStandardizer._standardize'] = c
    I.contracts = con
    f = ctx.func('preprocessor', 'NameStandardizer.transform')
    o = I.alloc(RecObj((PRE, 'NameStandardizer'), {
        'reverse_mapping': None, '__open__': True}))
    before = dict(I.st.heap)

    def post(I, out):
        if not ctx.value(I, N, out):
            return
        I.prove(N + 'the renamed instance is the answer', I.key(
            I.deref(out.val)) == made(d))
        rhas, rval = result_dict(I, I.st.heap[o.oid].fields[
            'reverse_mapping'])
        reversed_of(I, N, rhas, rval, has, val, by)
    ctx.run(I, I.st, f, o, [Key(d)], post)


# --------------------------------------------------------------- flattening
def _flatten(where):
    @unit('pre.flattener._flatten.' + where, ['C13'],
          'every value of the instance ends up under the path that leads to '
          'it')
    def u(ctx):
        con = dict(TABC)
        I = ctx.interp(con)
        I.st = State()
        f = ctx.func('preprocessor', 'Flattener._flatten')
        N = 'Flattener._flatten: '
        d = given(I)
        nesting(I)
        outer = None
        if where == 'inner':
            outer = Key(fresh('outer', K))
            I.st.assume(And(hashable(outer.e), outer.e != KNONE))
        flat = freshfn('flattened', K, K, K)
        home = freshfn('comes from', K, K)
        I.st.facts.append(Fact('attributes are texts', (K,), lambda a:
                               Implies(dhas(d, a), And(
                                   isstr(a) if outer else TRUE, hashable(a),
                                   a != KNONE)),
                               trig=lambda ts, by: [(t.arg(1),) for t in ts
                                                    if is_app(t) and t.decl(
                                                    ).eq(dhas) and t.arg(
                                                        0).eq(d)]))

        pth = freshfn('path', K, K)
        path = (lambda a: a) if outer is None else pth

        def spelled(a):
            if outer is None:
                return TRUE
            u = kconst('_')
            p = tup2(a, outer.e)
            return And(Implies(first(a) == u, pth(a) == tup2(u, p)), Implies(
                first(a) != u, pth(a) == p))

        def inner(a):
            return flat(dval(d, a), path(a))
        # a path leads to one attribute only
        I.st.facts.append(Fact('paths differ', (K,), lambda a: Implies(
            dhas(d, a), And(home(path(a)) == a, hashable(path(a)),
                            subs(a), spelled(a))),
            trig=lambda ts, by: [(t.arg(1),) for t in ts if is_app(t) and (
                t.decl().eq(dhas) or t.decl().eq(dval)) and
                t.arg(0).eq(d)]))
        I.st.facts.append(Fact('paths inside a component lead there', (K, K),
                               lambda a, b: Implies(And(
                                   dhas(d, a), isdict(dval(d, a)),
                                   dhas(inner(a), b)), home(b) == a),
                               trig=lambda ts, by: [
                                   (t.arg(0).arg(0).arg(1), t.arg(1))
                                   for t in ts if is_app(t) and (
                                       t.decl().eq(dhas) or t.decl().eq(
                                           dval)) and is_app(t.arg(0))
                                   and t.arg(0).decl().eq(flat) and is_app(
                                       t.arg(0).arg(0)) and t.arg(0).arg(
                                           0).decl().eq(dval)]))
        I.contracts = con

        def c(J, recv, ar, kw, g):
            env = J.bind(g, recv, ar, kw)
            a, k = J.key(env['instance']), J.key(env['outer_attr'])
            J.prove(N + 'only components are flattened inside', isdict(a))
            J.prove(N + 'the recursion goes inwards', below(a) < below(d))
            r = flat(a, k)
            J.st.assume(isdict(r))
            return Key(r)
        con['Flattener._flatten'] = c
        o = I.alloc(RecObj((PRE, 'Flattener'), {'__open__': True}))
        before = dict(I.st.heap)

        def post(I, out):
            frame(I, N + 'nothing else changes', out.st, before)
            if not ctx.value(I, N, out):
                return
            has, val = result_dict(I, out.val)
            a, b = fresh('a', K), fresh('b', K)
            dic = isdict(dval(d, a))
            I.prove(N + 'a plain value appears under its path', Implies(And(
                dhas(d, a), Not(dic)), has(path(a))))
            plain = And(dhas(d, a), Not(dic))
            I.prove(N + 'a plain value is kept', Implies(plain, writers(
                I, N, d, a, val(path(a)), plain) == dval(d, a)))
            I.prove(N + 'what is inside a component appears', Implies(And(
                dhas(d, a), dic, dhas(inner(a), b)), has(b)))
            I.prove(N + 'values inside a component are kept', Implies(And(
                dhas(d, a), dic, dhas(inner(a), b)), val(b) == dval(
                    inner(a), b)))
            h = home(b)
            I.prove(N + 'nothing else appears', Implies(has(b), And(
                dhas(d, h), ite(isdict(dval(d, h)), dhas(inner(h), b),
                                b == path(h)))))
        ctx.run(I, I.st, f, o, [Key(d), outer], post)


_flatten('top')
_flatten('inner')


# ---------------------------------------------------------- lifting components
@unit('pre.subcomponentprocessor._extract', ['C13'],
      'every attribute is kept, its components named by relations')
def u_extract(ctx):
    con = dict(TABC)
    I = ctx.interp(con)
    I.st = State()
    f = ctx.func('preprocessor', 'SubComponentProcessor._extract_sub_objects')
    N = 'SubComponentProcessor._extract_sub_objects: '
    d = given(I)
    new, back = freshfn('lifted', K, K), freshfn('origin', K, K)
    hc = freshfn('positions', K, K)
    pos, whose = freshfn('is position', K, BOOL), freshfn('of', K, K)
    apart(I, d, new, back)
    mine = lambda ts, by: [(t.arg(1),) for t in ts if is_app(t) and (
        t.decl().eq(dhas) or t.decl().eq(dval)) and t.arg(0).eq(d)]
    I.st.facts.append(Fact('names', (K,), lambda a: Implies(dhas(d, a), And(
        Not(pos(new(a))), islist(hc(a)), Not(isdict(hc(a))))), trig=mine))
    I.st.facts.append(Fact('positions', (K, I_), lambda l, i: Implies(
        And(islist(l), lin(l, i)), And(pos(lel(l, i)), hashable(
            lel(l, i)))), trig=on_apps(lin, lel)))

    def c_of(fn_):
        def c(J, recv, ar, kw, g):
            env = J.bind(g, recv, ar, kw)
            return Key(fn_(J.key(env['attr'])))
        return c
    con['SubComponentProcessor._extract_attr'] = c_of(new)
    con['SubComponentProcessor._get_has_components'] = c_of(hc)
    I.contracts = con
    o = I.alloc(RecObj((PRE, 'SubComponentProcessor'), {'__open__': True}))
    before = dict(I.st.heap)

    def post(I, out):
        frame(I, N + 'nothing else changes', out.st, before)
        if not ctx.value(I, N, out):
            return
        has, val = result_dict(I, out.val)
        a, b, i = fresh('a', K), fresh('b', K), fresh('i', I_)
        I.prove(N + 'every attribute appears lifted', Implies(
            dhas(d, a), has(new(a))))
        I.prove(N + 'every value is kept', Implies(
            dhas(d, a), val(new(a)) == dval(d, a)))
        I.prove(N + 'every position is noted', Implies(And(
            dhas(d, a), lin(hc(a), i)), And(has(lel(hc(a), i)), val(
                lel(hc(a), i)) == kconst(True))))
        I.prove(N + 'nothing else appears', Implies(And(
            has(b), Not(pos(b))), And(dhas(d, back(b)), new(back(b)) == b)))
    ctx.run(I, I.st, f, o, [Key(d)], post)


@unit('pre.subcomponentprocessor._embed', ['C13'],
      'positions go, every other attribute is kept under its embedded name')
def u_embed(ctx):
    con = dict(TABC)
    I = ctx.interp(con)
    I.st = State()
    f = ctx.func('preprocessor', 'SubComponentProcessor._embed_sub_objects')
    N = 'SubComponentProcessor._embed_sub_objects: '
    d = given(I)
    new, back = freshfn('embedded', K, K), freshfn('origin', K, K)
    seen = []

    def c(J, recv, ar, kw, g):
        env = J.bind(g, recv, ar, kw)
        seen.append(J.deref(env['so_mapping']))
        return Key(new(J.key(env['attr'])))
    con['SubComponentProcessor._rename_embedding'] = c
    I.contracts = con
    apart(I, d, new, back)
    one, two = RealVal(1), RealVal(2)
    at = freshfn('noted at', K, K)

    def rel(a):
        return And(istup(a), tlen(a) == 3, first(a) == kconst(
            'has-component'))
    # a component has one position
    I.st.facts.append(Fact('positions', (K,), lambda a: Implies(And(
        dhas(d, a), rel(a)), And(at(tat(a, two)) == a, hashable(tat(
            a, two)), hashable(tat(a, one)))),
        trig=lambda ts, by: [(t.arg(1),) for t in ts if is_app(t) and
                             t.decl().eq(dhas) and t.arg(0).eq(d)]))
    o = I.alloc(RecObj((PRE, 'SubComponentProcessor'), {'__open__': True}))
    before = dict(I.st.heap)

    def post(I, out):
        frame(I, N + 'nothing else changes', out.st, before)
        if not ctx.value(I, N, out):
            return
        has, val = result_dict(I, out.val)
        a, b, i = fresh('a', K), fresh('b', K), fresh('i', I_)
        kept = And(dhas(d, a), Not(rel(a)))
        I.prove(N + 'every other attribute appears embedded', Implies(
            kept, has(new(a))))
        I.prove(N + 'every value is kept', Implies(
            kept, val(new(a)) == dval(d, a)))
        I.prove(N + 'nothing else appears', Implies(has(b), And(
            dhas(d, back(b)), Not(rel(back(b))), new(back(b)) == b)))
        I.obs.append(Ob_(N + 'one set of positions is used', bool(
            seen) and all(same(x, seen[0]) for x in seen)))
        mh, mv = result_dict(I, seen[0])
        noted = And(dhas(d, a), rel(a))
        c = tat(a, two)
        I.prove(N + 'every position is used', Implies(noted, And(
            mh(c), mv(c) == tup2(c, tat(a, one)))))
        I.prove(N + 'no other position is used', Implies(mh(b), And(
            dhas(d, at(b)), rel(at(b)), tat(at(b), two) == b)))
    ctx.run(I, I.st, f, o, [Key(d)], post)


def _names(name, short, extra_args, spec, about):
    @unit('pre.subcomponentprocessor.' + short, ['C13'], about)
    def u(ctx):
        con = dict(TABC)
        I = ctx.interp(con)
        I.st = State()
        q = 'SubComponentProcessor.' + name
        f = ctx.func('preprocessor', q)
        N = q + ': '
        a = fresh('attr', K)
        I.st.assume(And(hashable(a), a != KNONE))
        inside(I.st)
        I.st.facts.append(Fact('parts', (K, REAL), lambda t, i: Implies(
            And(istup(t), hashable(t)), And(hashable(tat(t, i)), Implies(
                And(i >= 0, i < tlen(t)), below(tat(t, i)) < below(t)))),
            trig=on_apps(tat)))
        more = extra_args(I)
        rec = freshfn('inside', K, K)

        def c(J, recv, ar, kw, g):
            env = J.bind(g, recv, ar, kw)
            vs = [env[p.arg] for p in g.node.args.args[1:]]
            x = J.key(vs[0])
            goes(J, N, x, a, more)
            J.obs.append(Ob_(N + 'the same positions are used inside', all(
                same(J.deref(v), J.deref(w.obj))
                for v, w in zip(vs[1:], more))))
            r = rec(x)
            J.st.assume(hashable(r))
            return Key(r)
        con[q] = c
        I.contracts = con
        o = I.alloc(RecObj((PRE, 'SubComponentProcessor'),
                           {'__open__': True}))
        before = dict(I.st.heap)

        def post(I, out):
            frame(I, N + 'nothing changes', out.st, before)
            if not ctx.value(I, N, out):
                return
            v = I.deref(out.val)
            spec(I, N, a, I.key(v), rec, more)
        ctx.run(I, I.st, f, o, [Key(a)] + [m.obj for m in more], post)


def goes(J, N, x, a, more):
    J.prove(N + 'the recursion goes inwards', below(x) < below(a))


def many(I, N, a, r, rec):
    """a relation: element by element"""
    i = fresh('i', I_)
    rel = And(istup(a), tlen(a) != 2)
    I.prove(N + 'relations keep their length', Implies(rel, And(
        istup(r), tin(r, i) == tin(a, i))))
    I.prove(N + 'relations are renamed element by element', Implies(And(
        rel, tin(a, i)), telem(r, i) == rec(telem(a, i))))


def variable(x):
    return And(isstr(x), tlen(x) > 0, first(x) == kconst('?'))


def ext_spec(I, N, a, r, rec, more):
    two = And(istup(a), tlen(a) == 2)
    o, i = first(a), tat(a, RealVal(1))
    many(I, N, a, r, rec)
    I.prove(N + 'a variable stands for itself, wherever it is', Implies(And(
        two, variable(o)), r == o))
    I.prove(N + 'other components keep their place', Implies(And(
        two, Not(variable(o))), r == tup2(o, rec(i))))
    I.prove(N + 'anything else stays', Implies(Not(istup(a)), r == a))


_names('_extract_attr', '_extract_attr', lambda I: [], ext_spec,
       'a variable is named without the path that leads to it')


def positions(I):
    m = Map(I, 'positions')
    # no component is, directly or not, a part of itself
    I.st.facts.append(Fact('positions', (K,), lambda a: Implies(m.has(a), And(
        istup(m.val(a)), tlen(m.val(a)) == 2, below(tat(
            m.val(a), RealVal(1))) < below(a))), trig=on_apps(
                m.has, m.val)))
    return [m]


def emb_spec(I, N, a, r, rec, more):
    m, = more
    one = RealVal(1)
    v = m.val(a)
    I.prove(N + 'a component is put back where it was', Implies(
        m.has(a), r == tup2(first(v), rec(tat(v, one)))))
    I.st.assume(Not(m.has(a)))
    I.prove(N + 'inside a path the rest is put back', Implies(And(
        istup(a), tlen(a) == 2), r == tup2(first(a), rec(tat(a, one)))))
    many(I, N, a, r, rec)
    I.prove(N + 'anything else stays', Implies(Not(istup(a)), r == a))


_names('_rename_embedding', '_rename_embedding', positions, emb_spec,
       'components are named by the path that leads to them')
