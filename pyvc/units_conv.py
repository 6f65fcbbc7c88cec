"""One-way converters (C17) on arbitrarily nested instances.

An instance is a value d with isdict(d); dhas(d, a) / dval(d, a) are its
entries.  A recursive call is used through the contract being proved, on a
value nested inside the argument (so the recursion is well founded)."""
from .vals import *
from .unit import unit, Ob_
from .interp import PyExc, Infeasible, PathFailed
from .units_table import frame, TABC
from .units_tree import note, events

PRE = 'concept_formation.preprocessor'
floatable = fn('floatable', K, BOOL)
floatof = fn('floatof', K, REAL)
fromnum = fn('fromnum', REAL, K)


def given(I, name='inst'):
    d = fresh(name, K)
    I.st.assume(isdict(d))
    I.given.append(d)
    I.st.facts.append(Fact('keys are hashable', (K, K), lambda d, a: Implies(
        And(isdict(d), dhas(d, a)), hashable(a)), trig=on_apps(dhas)))
    return d


def result_dict(I, v):
    """(has, val) of the returned dictionary"""
    d = I.deref(v)
    if isinstance(d, Obj):
        r = I.rec(d)
        if isinstance(r, RecComp) and r.kind == 'kk':
            return (lambda a: r.get('has', a)), (lambda a: r.get('val', a))
        if isinstance(r, RecComp) and r.kind == 'kn':
            return (lambda a: r.get('has', a)), \
                (lambda a: fromnum(r.get('num', a)))
        if isinstance(r, RecC) and not r.items:
            return (lambda a: FALSE), (lambda a: KNONE)
    if isinstance(d, Key):
        return (lambda a: dhas(d.e, a)), (lambda a: dval(d.e, a))
    raise Unsupported('returned %r' % (d,))


def recursion(N, out, top):
    """contract of the function under proof, for a nested instance"""
    def c(I, recv, args, kw, f):
        a = I.key(args[0])
        I.prove(N + 'only nested instances are converted recursively',
                And(isdict(a)))
        I.prove(N + 'the recursion goes inwards', disj(
            [deeper(a, top)]))
        return Key(out(a))
    return c


below = fn('below', K, REAL)


def deeper(a, b):
    return below(a) < below(b)


def nesting(I):
    """values are finitely nested"""
    I.st.facts.append(Fact('finite nesting', (K, K), lambda d, a: Implies(
        And(isdict(d), dhas(d, a)), below(dval(d, a)) < below(d)),
        trig=on_apps(dval)))


def targets(I, some):
    """the targets field and the membership predicate"""
    if not some:
        return None, lambda a: TRUE
    T = freshfn('target', K, BOOL)
    l = I.new_list((Seg('gen', sort=K, dom=lambda x: T(x),
                        elem=lambda x: Key(x)),))
    return l, T


def conv_unit(name, cls, about, fields, spec, variants):
    def mk(v):
        @unit('conv.%s%s' % (name, '.' + v if v else ''), ['C17'], about)
        def u(ctx):
            I = ctx.interp(TABC)
            I.st = State()
            f = ctx.func('preprocessor', cls + '.transform')
            d = given(I)
            nesting(I)
            N = '%s.transform: ' % cls
            conv = freshfn('converted', K, K)
            fs, T = fields(I, v)
            fs['__open__'] = True
            o = I.alloc(RecObj((PRE, cls), fs))
            con = dict(TABC)
            con[cls + '.transform'] = recursion(N, conv, d)
            I.contracts = con
            before = dict(I.st.heap)
            want, fails = spec(v, T, conv)
            if cls == 'NominalToNumeric':
                I.st.facts.append(Fact(
                    'values are texts, numbers or components', (K,),
                    lambda a: Implies(And(dhas(d, a), T(a)), Or(
                        isnumt(dval(d, a)), isstr(dval(d, a)),
                        isdict(dval(d, a)))), trig=on_arg(1, dval)))

            def post(I, out):
                frame(I, N + 'the converter itself stays as it was', out.st,
                      before)
                a = fresh('a', K)
                if out.kind == 'exc':
                    if fails is None or out.val.cls != 'ValueError':
                        ctx.value(I, N, out)
                        return
                    st = out.st.copy()
                    st.facts.append(Fact('convertible', (K,), lambda a: Not(
                        And(dhas(d, a), fails(a, dval(d, a))))))
                    I.prove(N + 'fails only on a value that has no numeric '
                            'form', FALSE, st)
                    return
                r = I.deref(out.val)
                I.obs.append(Ob_(N + 'the result is a new instance', not (
                    isinstance(r, Key) and r.e.eq(d))))
                has, val = result_dict(I, out.val)
                h, w = want(a, dval(d, a))
                if fails is not None:
                    I.prove(N + 'a value without numeric form is refused',
                            Not(And(dhas(d, a), fails(a, dval(d, a)))))
                I.prove(N + 'exactly the expected attributes',
                        has(a) == And(dhas(d, a), h))
                I.prove(N + 'targeted values are converted, all others stay',
                        Implies(And(dhas(d, a), h), val(a) == w))
            ctx.run(I, I.st, f, o, [Key(d)], post)
    for v in variants:
        mk(v)


def n2n_fields(I, v):
    t, T = targets(I, 'some' in v)
    return {'targets': t}, T


def n2n_spec(v, T, conv):
    def want(a, x):
        return TRUE, ite(And(T(a), isnumt(x)), strof(x),
                         ite(isdict(x), conv(x), x))
    return want, None


conv_unit('numeric_to_nominal', 'NumericToNominal',
          'numbers of the targeted attributes become text', n2n_fields,
          n2n_spec, ['all', 'some'])


def m2n_fields(I, v):
    t, T = targets(I, 'some' in v)
    p = v.split('.')[1]
    # targeted values are texts or numbers (others have no numeric form)
    return {'targets': t, 'on_fail': p}, T


def m2n_spec(v, T, conv):
    p = v.split('.')[1]

    def ok(x):
        return Or(isnumt(x), And(isstr(x), floatable(x)))

    def want(a, x):
        num = ite(isnumt(x), fromnum(numof(x)), fromnum(floatof(x)))
        other = ite(isdict(x), conv(x), x)
        if p == 'zero':
            num = ite(ok(x), num, fromnum(ZERO))
        t = And(T(a), Not(isdict(x)))
        h = Or(Not(t), ok(x)) if p == 'drop' else TRUE
        return h, ite(t, num, other)
    fails = (lambda a, x: And(T(a), Not(isdict(x)), Not(ok(x)))) \
        if p == 'break' else None
    return want, fails


conv_unit('nominal_to_numeric', 'NominalToNumeric',
          'texts of the targeted attributes become numbers', m2n_fields,
          m2n_spec, ['%s.%s' % (t, p) for t in ('all', 'some')
                     for p in ('break', 'drop', 'zero')])


# ------------------------------------------------------------- variablizing
def _variablizer(v):
    @unit('conv.variablizer.' + v, ['C17'],
          'targeted components become variables, all else stays')
    def u(ctx):
        con = dict(TABC)
        I = ctx.interp(con)
        I.st = State()
        f = ctx.func('preprocessor', 'ObjectVariablizer._variablize')
        N = 'ObjectVariablizer._variablize: '
        d = given(I)
        nesting(I)
        t, T = targets(I, v == 'some')
        conv, back = freshfn('converted', K, K), freshfn('origin', K, K)
        o = I.alloc(RecObj((PRE, 'ObjectVariablizer'), {
            'targets': t, '__open__': True}))
        q = kconst('?')

        def comp(a):
            return And(Not(istup(a)), T(a), isdict(dval(d, a)))

        def name(a):
            return ite(And(comp(a), first(a) != q), strcat(q, a), a)
        I.st.facts.append(Fact('names', (K,), lambda a: Implies(
            dhas(d, a), And(Or(isstr(a), istup(a)), subs(a), a != KNONE,
                            back(name(a)) == a, hashable(name(a)))),
            trig=lambda ts, by: [(t.arg(1),) for t in ts if is_app(t) and (
                t.decl().eq(dhas) or t.decl().eq(dval)) and t.arg(
                    0).eq(d)]))

        def c_rel(J, recv, args, kw, g):
            """renaming by an empty mapping (unit conv.variablizer.lemma)"""
            env = J.bind(g, recv, args, kw)
            m = J.deref(env['mapping'])
            r = J.rec(m) if isinstance(m, Obj) else None
            if not isinstance(r, RecC) or r.items:
                raise Unsupported('renaming by a mapping')
            J.prove(N + 'only relations are treated as relations', istup(
                J.key(env['relation'])))
            return Key(J.key(env['relation']))
        con['rename_relation'] = c_rel

        def c_rec(J, recv, args, kw, g):
            env = J.bind(g, recv, args, kw)
            a = J.key(env['instance'])
            J.prove(N + 'only nested instances are converted recursively',
                    isdict(a))
            J.prove(N + 'the recursion goes inwards', below(a) < below(d))
            return Key(conv(a))
        con['ObjectVariablizer._variablize'] = c_rec
        I.contracts = con
        stale = I.alloc(RecComp({'has': freshfn('stale.has', K, BOOL),
                                 'val': freshfn('stale.val', K, K)}, 'kk'))
        before = dict(I.st.heap)

        def post(I, out):
            frame(I, N + 'the converter itself stays as it was', out.st,
                  before)
            if not ctx.value(I, N, out):
                return
            has, val = result_dict(I, out.val)
            a, b = fresh('a', K), fresh('b', K)
            I.prove(N + 'every attribute appears', Implies(
                dhas(d, a), has(name(a))))
            I.prove(N + 'components are converted inside', Implies(And(
                dhas(d, a), comp(a)), val(name(a)) == conv(dval(d, a))))
            I.prove(N + 'all other values stay', Implies(And(
                dhas(d, a), Not(comp(a))), val(a) == dval(d, a)))
            I.prove(N + 'nothing else appears', Implies(has(b), And(
                dhas(d, back(b)), name(back(b)) == b)))
        # whatever earlier calls may have left in the default argument
        ctx.run(I, I.st, f, o, [Key(d), stale, Key(fresh('prefix', K))],
                post)


_variablizer('all')
_variablizer('some')


@unit('conv.variablizer.lemma', ['C17'],
      'renaming by an empty mapping changes nothing (induction step)')
def u_lemma(ctx):
    from .units_map import element_wise, extensional, ren_, diff, \
        consistent, telem, tin, below
    J = ctx.interp(dict(TABC))
    J.st = State()
    rr = freshfn('renamed', K, K)
    has, val = (lambda a: FALSE), (lambda a: a)
    element_wise(J.st, has, val, rr, lambda t: TRUE)
    extensional(J.st)
    J.st.facts.append(Fact('finite nesting', (K, I), lambda t, i: Implies(
        And(istup(t), tin(t, i)), below(telem(t, i)) < below(t))))
    u = fresh('u', K)
    J.st.facts.append(Fact('induction hypothesis', (K,), lambda a: Implies(
        And(istup(a), below(a) < below(u)), rr(a) == a)))
    i = diff(rr(u), u)
    J.st.assume(And(istup(u), telem(u, i) == telem(u, i), telem(rr(u), i)
                    == telem(rr(u), i)))
    J.prove('an empty mapping renames nothing', rr(u) == u)
    consistent(J, 'empty mapping')


# --------------------------------------------------------------- sanitizing
def _sanitizer(spec):
    @unit('conv.sanitizer.' + spec, ['C17'],
          'attribute names become texts or relations, values stay usable')
    def u(ctx):
        con = dict(TABC)
        I = ctx.interp(con)
        I.st = State()
        f = ctx.func('preprocessor', 'Sanitizer._sanitize')
        N = 'Sanitizer._sanitize: '
        d = given(I)
        nesting(I)
        conv, back = freshfn('converted', K, K), freshfn('origin', K, K)
        cob, stup = freshfn('astext', K, K), freshfn('cleaned', K, K)
        o = I.alloc(RecObj((PRE, 'Sanitizer'), {
            'spec': spec, '__open__': True}))
        tres = spec == 'trestle'

        def name(a):
            return ite(isstr(a), a, ite(istup(a), stup(a) if tres else a,
                                        strof(a)))

        # no two attributes share a sanitized name
        I.st.facts.append(Fact('names', (K,), lambda a: Implies(
            dhas(d, a), And(back(name(a)) == a, hashable(name(a)))),
            trig=lambda ts, by: [(t.arg(1),) for t in ts if is_app(t) and (
                t.decl().eq(dhas) or t.decl().eq(dval)) and t.arg(
                    0).eq(d)]))
        I.st.facts.append(Fact('instances cannot be hashed', (K,),
                               lambda a: Implies(isdict(a), Not(
                                   hashable(a)))))

        def c_tup(J, recv, args, kw, g):
            a = J.key(args[0])
            J.prove(N + 'only relations are treated as relations', istup(a))
            return Key(stup(a))

        def c_cob(J, recv, args, kw, g):
            return Key(cob(J.key(args[0])))

        def c_rec(J, recv, args, kw, g):
            a = J.key(args[0])
            J.prove(N + 'only nested instances are converted recursively',
                    isdict(a))
            J.prove(N + 'the recursion goes inwards', below(a) < below(d))
            return Key(conv(a))
        con['Sanitizer._sanitize_tuple'] = c_tup
        con['Sanitizer._cob_str'] = c_cob
        con['Sanitizer._sanitize'] = c_rec
        I.contracts = con
        before = dict(I.st.heap)

        def post(I, out):
            frame(I, N + 'the converter itself stays as it was', out.st,
                  before)
            if not ctx.value(I, N, out):
                return
            has, val = result_dict(I, out.val)
            a, b = fresh('a', K), fresh('b', K)
            I.prove(N + 'every attribute appears under its sanitized name',
                    Implies(dhas(d, a), has(name(a))))
            x = dval(d, a)
            for what, c, n in (
                    ('texts', isstr(a), a),
                    ('relations', istup(a), stup(a) if tres else a),
                    ('other names', And(Not(isstr(a)), Not(istup(a))),
                     strof(a))):
                for how, h, w in (
                        ('usable values stay', hashable(x), x),
                        ('nested instances stay instances', And(
                            Not(hashable(x)), isdict(x)),
                         conv(x) if tres else cob(x)),
                        ('anything else becomes text', And(
                            Not(hashable(x)), Not(isdict(x))), cob(x))):
                    I.prove(N + '%s (%s)' % (how, what), Implies(And(
                        dhas(d, a), c, h), val(n) == w))
            I.prove(N + 'nothing else appears', Implies(has(b), And(
                dhas(d, back(b)), name(back(b)) == b)))
        ctx.run(I, I.st, f, o, [Key(d)], post)


_sanitizer('trestle')
_sanitizer('cobweb')
_sanitizer('cobweb3')


@unit('conv.sanitizer.tuple', ['C17'],
      'the elements of a relation become texts, in place')
def u_tuple(ctx):
    from .units_map import inside, I_, tin, telem
    con = dict(TABC)
    J = ctx.interp(con)
    J.st = State()
    t = fresh('relation', K)
    J.st.assume(And(istup(t), hashable(t)))
    inside(J.st)
    rr = freshfn('cleaned', K, K)
    N = 'Sanitizer._sanitize_tuple: '
    f = ctx.func('preprocessor', 'Sanitizer._sanitize_tuple')
    o = J.alloc(RecObj((PRE, 'Sanitizer'), {'__open__': True}))

    def c_rec(I, recv, args, kw, f):
        a = I.key(args[0])
        I.prove(N + 'the recursion goes inwards', And(
            istup(a), below(a) < below(t)))
        I.st.assume(istup(rr(a)))
        return Key(rr(a))
    con[f.qual] = c_rec
    J.contracts = con
    before = dict(J.st.heap)

    def post(I, out):
        frame(I, N + 'the converter itself stays as it was', out.st, before)
        if not ctx.value(I, N, out):
            return
        r = I.deref(out.val)
        if not isinstance(r, Key):
            raise Unsupported('returned %r' % (r,))
        i = fresh('i', I_)
        v = telem(t, i)
        I.prove(N + 'as long as the relation', And(
            istup(r.e), tin(r.e, i) == tin(t, i)))
        I.prove(N + 'every element becomes text and keeps its place',
                Implies(tin(t, i), telem(r.e, i) == ite(
                    isstr(v), v, ite(istup(v), rr(v), strof(v)))))
    ctx.run(J, J.st, f, o, [Key(t)], post)
