"""Numeric summaries (C05): contracts of ContinuousValue and the plain
statistics helpers, verified on the fields num, mean, meanSq; the rest of the
system is verified against these contracts in the additive view
n = num, s1 = num*mean, s2 = meanSq + num*mean^2."""
import ast
import math
from .unit import *

CV = ('concept_formation.continuous_value', 'ContinuousValue')
INT = fn('isinteger', REAL, BOOL)


def s1of(n, m):
    return n * m


def cv_std(n, msq):
    return ite(n < 2, ZERO, sqrt_(msq / (n - 1)) /
               ite(n < 30, C4(n), ONE))


def new_cv(I, p):
    n, m, q = fresh(p + '.num', REAL), fresh(p + '.mean', REAL), \
        fresh(p + '.meanSq', REAL)
    st = I.st
    for c in (n >= 0, q >= 0, Implies(n == 0, And(m == 0, q == 0)),
              Or(n == 0, n >= 1), Implies(n < 2, q == 0),
              Or(n <= 1, n >= 2)):
        st.assume(c)
    o = I.alloc(RecObj(CV, {'num': Num(n), 'mean': Num(m),
                            'meanSq': Num(q)}))
    return o, n, m, q


def fields(I, o):
    r = I.rec(o)
    return tuple(I.num(r.fields[k]) for k in ('num', 'mean', 'meanSq'))


def ginv(n, m, q):
    return And(n >= 0, q >= 0, Implies(n == 0, And(m == 0, q == 0)))


# ------------------------------------------------- contracts for callers

def c_update(I, recv, args, kw, f):
    x = I.num(args[0] if args else kw['x'])
    n, s1, s2 = I.cv_get(recv)
    I.cv_set(recv, lsimp(n + 1), lsimp(s1 + x), lsimp(s2 + x * x))
    return None


def c_combine(I, recv, args, kw, f):
    o = I.deref(args[0] if args else kw['other'])
    if not (isinstance(o, Cell) or isinstance(o, Obj)
            and isinstance(I.rec(o), RecComp) and I.rec(o).kind == 'cv'):
        raise PyExc('ValueError')
    a, b = I.cv_get(recv), I.cv_get(o)
    I.cv_set(recv, *[lsimp(x + y) for x, y in zip(a, b)])
    return None


def c_copy(I, recv, args, kw, f):
    n, s1, s2 = I.cv_get(recv)
    return I.alloc(RecComp({'n': lambda: n, 's1': lambda: s1,
                            's2': lambda: s2}, 'cv'))


def v_mean(t):
    n, s1, s2 = t
    return ite(n == 0, ZERO, s1 / n)


def v_std(t):
    return STD(*t)


def std_def(t):
    n, s1, s2 = t
    return ite(n < 2, ZERO, sqrt_((s2 - s1 * s1 / n) / (n - 1)) /
               ite(n < 30, C4(n), ONE))


def c_umean(I, recv, args, kw, f):
    return Num(v_mean(I.cv_get(recv)))


def c_ustd(I, recv, args, kw, f):
    return Num(v_std(I.cv_get(recv)))


def eff(e):
    return ite(e <= 0, ONE, e)


def c_sstd(I, recv, args, kw, f):
    e = I.num(args[0] if args else kw['scale'])
    return Num(v_std(I.cv_get(recv)) / eff(e))


def c_smean(I, recv, args, kw, f):
    sh = I.num(args[0] if args else kw['shift'])
    e = I.num(args[1] if len(args) > 1 else kw['scale'])
    return Num((v_mean(I.cv_get(recv)) - sh) / eff(e))


def c_bstd(I, recv, args, kw, f):
    n, s1, s2 = I.cv_get(recv)
    if I.branch(n == 0):
        raise PyExc('ZeroDivisionError')
    return Num(sqrt_((s2 - s1 * s1 / n) / n))


def igp(m1, m2, d1, d2):
    """overlap of the noise smoothed gaussians"""
    v = d1 * d1 + d2 * d2 + ONE / (2 * PI)
    return ONE / sqrt_(2 * PI * v) * exp_(
        -(m1 - m2) * (m1 - m2) / (2 * v))


def c_igp(I, recv, args, kw, f):
    o = args[0] if args else kw['other']
    a, b = I.cv_get(recv), I.cv_get(o)
    return Num(igp(v_mean(a), v_mean(b), v_std(a), v_std(b)))


def c_json(I, recv, args, kw, f):
    t = I.cv_get(recv)
    return I.alloc(RecC({'mean': Num(v_mean(t)), 'std': Num(v_std(t)),
                         'n': Num(t[0])}))


CVC = {'ContinuousValue.update': c_update,
       'ContinuousValue.combine': c_combine,
       'ContinuousValue.copy': c_copy,
       'ContinuousValue.unbiased_mean': c_umean,
       'ContinuousValue.unbiased_std': c_ustd,
       'ContinuousValue.scaled_unbiased_std': c_sstd,
       'ContinuousValue.scaled_unbiased_mean': c_smean,
       'ContinuousValue.biased_std': c_bstd,
       'ContinuousValue.integral_of_gaussian_product': c_igp,
       'ContinuousValue.output_json': c_json}


# --------------------------------------------------------------- units

def setup(ctx):
    I = ctx.interp(cvmode='fields')
    I.st = State()
    return I


def same_cv(I, name, o, old, st):
    r = st.heap[o.oid].fields
    new = tuple(I.num(r[k]) for k in ('num', 'mean', 'meanSq'))
    I.prove(name, And(*[a == b for a, b in zip(new, old)]))


@unit('cv.init', ['C05'], 'a new summary is empty')
def u_init(ctx):
    I = setup(ctx)
    f = ctx.func('continuous_value', 'ContinuousValue.__init__')
    o = I.alloc(RecObj(CV, {}))

    def post(I, out):
        if ctx.value(I, '__init__', out):
            n, m, q = fields(I, o)
            I.prove('ContinuousValue.__init__: starts empty',
                    And(n == 0, m == 0, q == 0))
    ctx.run(I, I.st, f, o, [], post)


@unit('cv.update', ['C05'], 'one more value')
def u_update(ctx):
    I = setup(ctx)
    f = ctx.func('continuous_value', 'ContinuousValue.update')
    o, n, m, q = new_cv(I, 'self')
    x = fresh('x', REAL)

    def post(I, out):
        if not ctx.value(I, 'ContinuousValue.update', out):
            return
        a, b, c = fields(I, o)
        N = 'ContinuousValue.update: '
        I.prove(N + 'the number of values grows by one', a == n + 1)
        I.prove(N + 'the sum of the values grows by the value',
                a * b == n * m + x)
        I.prove(N + 'the sum of squares grows by its square',
                c + a * b * b == q + n * m * m + x * x)
        I.prove(N + 'deviation stays non-negative, empty stays canonical',
                ginv(a, b, c))
    ctx.run(I, I.st, f, o, [Num(x)], post)


def _combine(ctx, alias):
    I = setup(ctx)
    f = ctx.func('continuous_value', 'ContinuousValue.combine')
    o, n, m, q = new_cv(I, 'self')
    if alias:
        p, n2, m2, q2 = o, n, m, q
    else:
        p, n2, m2, q2 = new_cv(I, 'other')

    def post(I, out):
        N = 'ContinuousValue.combine%s: ' % (' with itself' if alias else '')
        if not ctx.value(I, N, out):
            return
        a, b, c = fields(I, o)
        I.prove(N + 'numbers of values add up', a == n + n2)
        I.prove(N + 'sums of values add up', a * b == n * m + n2 * m2)
        I.prove(N + 'sums of squares add up',
                c + a * b * b == q + n * m * m + q2 + n2 * m2 * m2)
        I.prove(N + 'deviation stays non-negative, empty stays canonical',
                ginv(a, b, c))
        if not alias:
            same_cv(I, N + 'the other summary is unchanged', p,
                    (n2, m2, q2), out.st)
    ctx.run(I, I.st, f, o, [p], post)


@unit('cv.combine', ['C05'], 'combining two summaries')
def u_combine(ctx):
    _combine(ctx, False)


@unit('cv.combine.self', ['C05'], 'combining a summary with itself')
def u_combine_self(ctx):
    _combine(ctx, True)


@unit('cv.combine.other', ['C05'], 'only summaries are combined')
def u_combine_bad(ctx):
    I = setup(ctx)
    f = ctx.func('continuous_value', 'ContinuousValue.combine')
    o, n, m, q = new_cv(I, 'self')
    x = fresh('x', REAL)

    def post(I, out):
        N = 'ContinuousValue.combine: '
        I.obs.append(Ob_(N + 'a number is refused', out.kind == 'exc'))
        same_cv(I, N + 'nothing changes when refusing', o, (n, m, q), out.st)
    ctx.run(I, I.st, f, o, [Num(x)], post)


@unit('cv.copy', ['C05'], 'copies are equal and independent')
def u_copy(ctx):
    I = setup(ctx)
    f = ctx.func('continuous_value', 'ContinuousValue.copy')
    o, n, m, q = new_cv(I, 'self')

    def post(I, out):
        N = 'ContinuousValue.copy: '
        if not ctx.value(I, N, out):
            return
        r = I.deref(out.val)
        ok = isinstance(r, Obj) and r.oid != o.oid and \
            isinstance(I.rec(r), RecObj) and I.rec(r).cls == CV
        I.obs.append(Ob_(N + 'returns another summary object', ok))
        if ok:
            same_cv(I, N + 'same statistics', r, (n, m, q), out.st)
            same_cv(I, N + 'original unchanged', o, (n, m, q), out.st)
    ctx.run(I, I.st, f, o, [], post)


def _query(name, args, spec, extra=None):
    """pure query: value and frame"""
    def go(ctx):
        I = setup(ctx)
        f = ctx.func('continuous_value', 'ContinuousValue.' + name)
        o, n, m, q = new_cv(I, 'self')
        av = [fresh(a, REAL) for a in args]
        st = I.st
        if extra:
            st.assume(extra(n))

        def post(I, out):
            N = 'ContinuousValue.%s: ' % name
            if not ctx.value(I, N, out):
                return
            I.prove(N + 'equals its definition',
                    I.num(out.val) == spec(n, m, q, *av))
            same_cv(I, N + 'leaves the summary unchanged', o, (n, m, q),
                    out.st)
        ctx.run(I, st, f, o, [Num(a) for a in av], post)
    return go


unit('cv.unbiased_mean', ['C05'], 'mean')(_query(
    'unbiased_mean', [], lambda n, m, q: m))
unit('cv.unbiased_std', ['C05'], 'corrected deviation')(_query(
    'unbiased_std', [], lambda n, m, q: cv_std(n, q)))
unit('cv.biased_std', ['C05'], 'plain deviation')(_query(
    'biased_std', [], lambda n, m, q: sqrt_(q / n), lambda n: n >= 1))
unit('cv.scaled_unbiased_std', ['C05'], 'scaled corrected deviation')(_query(
    'scaled_unbiased_std', ['scale'],
    lambda n, m, q, s: cv_std(n, q) / eff(s)))
unit('cv.scaled_biased_std', ['C05'], 'scaled plain deviation')(_query(
    'scaled_biased_std', ['scale'],
    lambda n, m, q, s: sqrt_(q / n) / eff(s), lambda n: n >= 1))
unit('cv.scaled_unbiased_mean', ['C05'], 'scaled mean')(_query(
    'scaled_unbiased_mean', ['shift', 'scale'],
    lambda n, m, q, sh, s: (m - sh) / eff(s)))
unit('cv.len', ['C05'], 'a summary is always truthy')(_query(
    '__len__', [], lambda n, m, q: ONE))


@unit('cv.overlap', ['C05', 'C07'], 'overlap of smoothed gaussians')
def u_igp(ctx):
    I = setup(ctx)
    SD = fn('std of', REAL, REAL, REAL)

    def c_std(I, recv, args, kw, f):
        a, b, c = fields(I, I.deref(recv))
        return Num(SD(a, c))

    def c_mean(I, recv, args, kw, f):
        return Num(fields(I, I.deref(recv))[1])
    I.contracts = {'ContinuousValue.unbiased_std': c_std,
                   'ContinuousValue.unbiased_mean': c_mean}
    f = ctx.func('continuous_value',
                 'ContinuousValue.integral_of_gaussian_product')
    o, n, m, q = new_cv(I, 'self')
    p, n2, m2, q2 = new_cv(I, 'other')

    def post(I, out):
        N = 'ContinuousValue.integral_of_gaussian_product: '
        if not ctx.value(I, N, out):
            return
        v = I.num(out.val)
        prove_overlap(I, N, v, m, m2, SD(n, q), SD(n2, q2))
        same_cv(I, N + 'leaves self unchanged', o, (n, m, q), out.st)
        same_cv(I, N + 'leaves other unchanged', p, (n2, m2, q2), out.st)
    ctx.run(I, I.st, f, o, [p], post)


def prove_overlap(I, N, v, m1, m2, d1, d2):
    """v is 1/sqrt(2 pi V) * exp(-(m1-m2)^2/(2 V)),  V = d1^2+d2^2+1/(2pi)"""
    V = d1 * d1 + d2 * d2 + ONE / (2 * PI)
    # the root and the exponential the code used, compared on their arguments
    roots = [t for t in subterms([v]) if is_app(t)
             and t.decl().name() == 'sqrt' and not any(
                 u.get_id() == t.get_id() for u in subterms([d1, d2]))]
    exps = [t for t in subterms([v]) if is_app(t)
            and t.decl().name() == 'exp']
    if len(exps) != 1:
        I.obs.append(Ob_(N + 'is a gaussian', False, str(v)))
        return
    ea = exps[0].children()[0]
    I.prove(N + 'exponent', ea == -(m1 - m2) * (m1 - m2) / (2 * V))
    outer = None
    for t in roots:
        ok, _ = I.prover.valid(I.st.conds(), I.st.facts,
                               t.children()[0] == 2 * PI * V)
        if ok:
            outer = t
    I.obs.append(Ob_(N + 'normaliser', outer is not None, str(v)))
    if outer is None:
        return
    E = fresh('E', REAL)
    S = fresh('S', REAL)
    w = sub(v, (exps[0], E), (outer, S))
    st2 = I.st.copy()
    st2.assume(And(E > 0, S > 0))
    I.prove(N + 'value', w == E / S, st2)


@unit('cv.update_batch', ['C05'], 'a batch is the same as its values')
def u_batch(ctx):
    I = ctx.interp(CVC)
    I.st = State()
    f = ctx.func('continuous_value', 'ContinuousValue.update_batch')
    o = I.alloc(RecComp(sym_comps('cv', 'self'), 'cv'))
    old = I.cv_get(o)
    D, xv = freshfn('in', vals_I, BOOL), freshfn('x', vals_I, REAL)
    data = I.new_list([Seg('gen', sort=vals_I, dom=lambda i: D(i),
                           elem=lambda i: Num(xv(i)), ordered=True)])

    def post(I, out):
        N = 'ContinuousValue.update_batch: '
        if not ctx.value(I, N, out):
            return
        n, s1, s2 = I.cv_get(o)
        i = fresh('i', vals_I)
        I.prove(N + 'number of values', n == old[0] + mksum(i, D(i), ONE))
        I.prove(N + 'sum of values', s1 == old[1] + mksum(i, D(i), xv(i)))
        I.prove(N + 'sum of squares', s2 == old[2] + mksum(
            i, D(i), xv(i) * xv(i)))
    ctx.run(I, I.st, f, o, [data], post)


from .vals import I as vals_I      # noqa: E402


def data_list(I):
    D, xv = freshfn('in', vals_I, BOOL), freshfn('x', vals_I, REAL)
    data = I.new_list([Seg('gen', sort=vals_I, dom=lambda i: D(i),
                           elem=lambda i: Num(xv(i)), ordered=True)])
    i = fresh('i', vals_I)
    return (data, mksum(i, D(i), ONE), mksum(i, D(i), xv(i)),
            mksum(i, D(i), xv(i) * xv(i)), D, xv)


@unit('cv.lemma', ['C05'], 'the additive view determines the statistics')
def u_lemma(ctx):
    I = ctx.interp()
    st = State()
    I.st = st
    data, n, s1, s2, D, xv = data_list(I)
    mean, msq = fresh('mean', REAL), fresh('meanSq', REAL)
    st.assume(And(n > 0, n * mean == s1, msq + n * mean * mean == s2))
    i = fresh('i', vals_I)
    I.prove('lemma: the mean is the average of the data', mean == s1 / n)
    dev = mksum(i, D(i), (xv(i) - s1 / n) * (xv(i) - s1 / n))
    I.prove('lemma: sum of squared deviations from the average',
            msq == s2 - n * mean * mean)
    st2 = State()
    st2.assume(n > 0)
    I.prove('lemma: deviations expand to the additive view',
            dev == s2 - s1 * s1 / n, st2)


@unit('utils.mean', ['C05'], 'plain mean')
def u_mean(ctx):
    I = ctx.interp()
    I.st = State()
    f = ctx.func('utils', 'mean')
    data, n, s1, s2, D, xv = data_list(I)

    def post(I, out):
        N = 'utils.mean: '
        if out.kind == 'exc':
            I.prove(N + 'raises only for an empty list', n == 0)
            return
        I.prove(N + 'is the average', And(n != 0,
                                         I.num(out.val) == s1 / n))
    ctx.run(I, I.st, f, None, [data], post)


@unit('utils.std', ['C05'], 'plain deviation')
def u_std(ctx):
    I = ctx.interp()
    I.st = State()
    f = ctx.func('utils', 'std')
    data, n, s1, s2, D, xv = data_list(I)

    def post(I, out):
        N = 'utils.std: '
        if out.kind == 'exc':
            # a sum of squares is non-negative, so only emptiness can raise
            I.prove(N + 'raises only for an empty list', n == 0)
            return
        v = I.num(out.val)
        if not (is_app(v) and v.decl().name() == 'sqrt'):
            I.obs.append(Ob_(N + 'is a square root', False, str(v)))
            return
        I.prove(N + 'is the root of the mean squared deviation',
                And(n != 0, v.children()[0] == (s2 - s1 * s1 / n) / n))
    ctx.run(I, I.st, f, None, [data], post)


@unit('utils.c4', ['C05'], 'correction factor')
def u_c4(ctx):
    I = ctx.interp()
    I.st = State()
    f = ctx.func('utils', 'c4')
    n = fresh('n', REAL)

    def post(I, out):
        N = 'utils.c4: '
        if out.kind == 'exc':
            I.prove(N + 'raises exactly up to one value', n <= 1)
            return
        I.prove(N + 'table below thirty, one from there on',
                And(n > 1, I.num(out.val) == ite(n < 30, C4(n), ONE)))
    ctx.run(I, I.st, f, None, [Num(n)], post)
    node = ctx.prog.module('utils').consts.get('c4n_table')
    if not isinstance(node, ast.Dict):
        raise Unsupported('c4n_table is not a literal dict')
    tab = {}
    for k, v in zip(node.keys, node.values):
        if not isinstance(k, ast.Constant) or not isinstance(v, ast.Constant):
            raise Unsupported('c4n_table is not a literal dict')
        tab[k.value] = v.value
    for k in range(2, 30):
        want = math.sqrt(2.0 / (k - 1)) * math.exp(
            math.lgamma(k / 2.0) - math.lgamma((k - 1) / 2.0))
        ok = k in tab and abs(tab[k] - want) < 1e-8
        I.obs.append(Ob_('utils.c4n_table: entry %d is the bias correction'
                         % k, ok, 'found %r, definition %r'
                         % (tab.get(k), want), how='exhaustive'
                         if ok else 'refuted'))


@unit('utils.isNumber', ['C05', 'C15'], 'what counts as a number')
def u_isnum(ctx):
    I = ctx.interp()
    I.st = State()
    f = ctx.func('utils', 'isNumber')
    k = fresh('k', K)

    def post(I, out):
        N = 'utils.isNumber: '
        if not ctx.value(I, N, out):
            return
        I.prove(N + 'numbers that are neither booleans nor nan',
                I.truth(out.val) == And(isnumt(k), Not(isbool(k)),
                                        Not(isnan_(k))))
    ctx.run(I, I.st, f, None, [Key(k)], post)


@unit('cv.std_view', ['C05', 'C06', 'C07', 'C10'],
      'the corrected deviation in the additive view')
def u_stdview(ctx):
    I = ctx.interp()
    I.st = State()
    N = 'ContinuousValue: corrected deviation '
    n, m, q = [fresh(x, REAL) for x in 'nmq']
    I.st.assume(Or(n == 0, n == 1, n >= 2))
    I.st.assume(q >= 0)
    I.prove(N + 'is a function of number, sum and sum of squares',
            Implies(n >= 2, cv_std(n, q) ==
                    std_def((n, n * m, q + n * m * m))))
    a, b, c = [fresh(x, REAL) for x in 'abc']
    t = std_def((a, b, c))
    # (c - b*b/a) / (a - 1) is the argument of the root
    v = fresh('v', REAL)
    st = State()
    st.assume(a >= 2)
    st.assume(v * (a - 1) * a == c * a - b * b)
    k = ite(a < 30, C4(a), ONE)
    r = sqrt_(v) / k
    I.prove(N + 'abbreviation is the definition',
            Implies(a >= 2, ((c - b * b / a) / (a - 1)) * (a - 1) * a ==
                    c * a - b * b), State())
    I.prove(N + 'is never negative', r >= 0, st)
    I.prove(N + 'is zero below two values', Implies(a < 2, t == 0), State())
    I.prove(N + 'is zero only without spread', Implies(
        And(v >= 0, r == 0), v == 0), st)
    I.prove(N + 'is zero without spread', Implies(v == 0, r == 0), st)
    I.prove(N + 'spread is a * c - b * b', And(
        (v == 0) == (a * c == b * b), (v >= 0) == (a * c >= b * b)), st)


CV_CORE = ['cv.std_view', 'cv.init', 'cv.update', 'cv.combine', 'cv.combine.self',
           'cv.copy', 'cv.len']
CV_STATS = ['cv.unbiased_mean', 'cv.unbiased_std', 'cv.biased_std',
            'cv.scaled_unbiased_std', 'cv.scaled_unbiased_mean', 'utils.c4']
