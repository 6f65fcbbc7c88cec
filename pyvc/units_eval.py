"""Incremental evaluation (C16): the individual scores and the run loop."""
from .vals import *
from .unit import unit, Ob_
from .interp import PyExc, Infeasible, PathFailed
from .units_table import TABC, Inst, frame
from .units_tree import note, events
from .units_infer import read_dict
from . import loop as L

prob = fn('probability_of', K, K, REAL)
isnum_ = lambda k: And(isnumt(k), Not(isbool(k)), Not(isnan_(k)))
pred = fn('prediction_of', K, K)


class Thing(object):
    """a collaborator used only through named operations"""
    def same_as(self, b):
        return self is b

    def map_terms(self, f):
        return self

    def py_getattr(self, I, name):
        if name not in self.ops:
            raise Unsupported('%s.%s' % (type(self).__name__, name))
        return Fn('bmethod', recv=self, name=name)

    def py_truth(self, I):
        return TRUE

    def py_method(self, I, name, args, kw):
        return getattr(self, 'op_' + name)(I, args, kw)


def extra(args, kw, *allowed):
    if len(args) > allowed[0] or set(kw) - set(allowed[1:]):
        raise Unsupported('unexpected arguments')


class ConceptT(Thing):
    """the concept found (C06, C09): asking it changes nothing"""
    ops = ('probability', 'predict')

    def op_probability(self, I, args, kw):
        extra(args, kw, 2)
        note(I, 'probability')
        return Num(prob(I.key(args[0]), I.key(args[1])))

    def op_predict(self, I, args, kw):
        extra(args, kw, 1)
        note(I, 'predict')
        k = pred(I.key(args[0]))
        I.st.assume(And(hashable(k), k != I.cvk(), Not(isdict(k))))
        return Key(k)


class TreeT(Thing):
    ops = ('categorize', 'ifit', 'clear')

    def __init__(self, found):
        self.found = found

    def op_categorize(self, I, args, kw):
        """units query.categorize: some leaf; neither the tree nor the
        argument changes"""
        extra(args, kw, 1)
        d = read_dict(I, args[0])
        note(I, 'asked', I.st.heap[d.oid])
        return self.found

    def op_ifit(self, I, args, kw):
        extra(args, kw, 1)
        note(I, 'learned', I.deref(args[0]))
        return Opaque('leaf')

    def op_clear(self, I, args, kw):
        extra(args, kw, 0)
        note(I, 'cleared')


def score_setup(ctx, name, contracts=None):
    con = dict(TABC)
    con.update(contracts or {})
    I = ctx.interp(con)
    I.st = State()
    f = ctx.func('evaluation', name)
    inst = Inst(I, 'given')
    a, v = fresh('attr', K), fresh('val', K)
    I.st.assume(hashable(a))
    return I, f, inst, a, v, TreeT(ConceptT())


def withheld(I, N, inst, a):
    q = events(I, 'asked')
    I.obs.append(Ob_(N + 'one concept is looked up', len(q) == 1))
    if len(q) != 1:
        return
    k = fresh('k', K)
    I.prove(N + 'the value asked about is withheld, everything else is given',
            And(q[0][1].get('has', k) == And(inst.has(k), k != a), Implies(
                And(inst.has(k), k != a), q[0][1].get('val', k)
                == inst.val(k))))


@unit('eval.probability', ['C16'],
      'probability scores the withheld value on the concept found')
def u_prob(ctx):
    I, f, inst, a, v, t = score_setup(ctx, 'probability')
    before = dict(I.st.heap)
    N = 'evaluation.probability: '

    def post(I, out):
        frame(I, N + 'the instance stays as it was', out.st, before)
        I.obs.append(Ob_(N + 'nothing is learned', not events(
            I, 'learned') and not events(I, 'cleared')))
        if out.kind == 'exc':
            I.prove(N + 'only component values are refused', isdict(v))
            return
        withheld(I, N, inst, a)
        I.prove(N + 'component values are refused', Not(isdict(v)))
        I.prove(N + 'the score is the probability of the value',
                I.num(out.val) == prob(a, v))
    ctx.run(I, I.st, f, None, [t, inst.obj, Key(a), Key(v)], post)


@unit('eval.error', ['C16'], 'error compares the prediction with the value')
def u_err(ctx):
    I, f, inst, a, v, t = score_setup(ctx, 'error')
    before = dict(I.st.heap)
    N = 'evaluation.error: '
    p = pred(a)

    def post(I, out):
        frame(I, N + 'the instance stays as it was', out.st, before)
        I.obs.append(Ob_(N + 'nothing is learned', not events(
            I, 'learned') and not events(I, 'cleared')))
        if out.kind == 'exc':
            I.prove(N + 'refused only where no error is defined', Or(
                isdict(v), And(isnum_(v), Not(isnumt(p))),
                And(v == KNONE, isnum_(p))))
            return
        withheld(I, N, inst, a)
        r = I.num(out.val)
        I.prove(N + 'the error of a number is its distance from the '
                'prediction', Implies(isnum_(v), And(
                    isnumt(p), r == numof(v) - numof(p))))
        I.prove(N + 'the error of any other value is whether it differs '
                'from the prediction', Implies(And(
                    Not(isnum_(v)), Not(isdict(v))), r == ite(
                        v == p, ZERO, ONE)))
        I.prove(N + 'component values are refused', Not(isdict(v)))
    ctx.run(I, I.st, f, None, [t, inst.obj, Key(a), Key(v)], post)


def _derived(name, about, spec):
    @unit('eval.' + name, ['C16'], about)
    def u(ctx):
        e = fresh('error', REAL)
        I, f, inst, a, v, t = score_setup(ctx, name)

        def c_err(I, recv, args, kw, f):
            env = I.bind(f, recv, args, kw)
            got = [I.deref(env[x]) for x in ('tree', 'instance', 'attr',
                                             'val')]
            I.obs.append(Ob_(N + 'the error asked for', all(
                same(x, y) for x, y in zip(got, [t, inst.obj, Key(a),
                                                 Key(v)]))))
            note(I, 'error')
            if I.choose(2):
                raise PyExc('Exception')
            return Num(e)
        I.contracts['error'] = c_err
        before = dict(I.st.heap)
        N = 'evaluation.%s: ' % name

        def post(I, out):
            frame(I, N + 'the instance stays as it was', out.st, before)
            I.obs.append(Ob_(N + 'nothing is learned', not events(
                I, 'learned') and not events(I, 'cleared')))
            if out.kind == 'exc':
                I.obs.append(Ob_(N + 'fails only when the error does',
                                 len(events(I, 'error')) > 0))
                return
            I.prove(N + about, I.num(out.val) == spec(e))
        ctx.run(I, I.st, f, None, [t, inst.obj, Key(a), Key(v)], post)


_derived('absolute_error', 'the absolute error is the size of the error',
         lambda e: ite(e < 0, -e, e))
_derived('squared_error', 'the squared error is the square of the error',
         lambda e: e * e)


# ------------------------------------------------------------------ the runs
item = fn('item', K, REAL, K)            # what lies at a position of an order
learnt = fn('learnt', K, K, K)           # a history and one more instance
EMPTY = z3.Const('nothing learnt', K)
scored = fn('scored', K, K, K, K, REAL)  # history, instance, attribute, value


class InstList(Thing):
    """the caller's list of instances: an order that shuffling replaces"""
    ops = ()

    def __init__(self, I, n):
        self.n = n
        o = fresh('order', K)
        self.oid = I.alloc(RecObj('order', {'order': Key(o)})).oid

    def order(self, I):
        return I.st.heap[self.oid].fields['order'].e

    def part(self, I, lo, hi):
        o = self.order(I)
        return L.ranged(lo, hi, lambda x: Key(item(o, x)), src=self)

    def py_iter(self, I):
        return [self.part(I, ZERO, self.n)]

    def py_len(self, I):
        return self.n

    def py_slice(self, I, lo, hi):
        a = ZERO if lo is None else I.num(lo)
        if not z3.is_rational_value(lsimp(a)) or lsimp(a).as_fraction() < 0:
            raise Unsupported('slice of the instances')
        h = self.n
        if hi is not None:
            v = I.num(hi)
            # a slice that starts counting from the end is not modelled
            if I.branch(v < 0):
                raise Unsupported('slice from the end')
            h = lsimp(ite(v < self.n, v, self.n))
        return I.new_list((self.part(I, a, h),))

    def py_getitem(self, I, k):
        e = I.num(k)
        if I.branch(And(e >= 0, e < self.n)):
            return Key(item(self.order(I), e))
        raise Unsupported('position in the instances')

    def py_shuffle(self, I):
        I.st.heap[self.oid] = I.st.heap[self.oid].set(
            'order', Key(I.fresh('shuffled', K)))
        return None


class Learner(Thing):
    """a tree seen through what it has learned since it was cleared"""
    ops = ('ifit', 'clear')

    def __init__(self, I):
        self.oid = I.alloc(RecObj('history', {'h': Key(fresh('h', K))})).oid

    def h(self, I):
        return I.st.heap[self.oid].fields['h'].e

    def put(self, I, e):
        I.st.heap[self.oid] = I.st.heap[self.oid].set('h', Key(e))

    def op_ifit(self, I, args, kw):
        extra(args, kw, 1)
        self.put(I, learnt(self.h(I), I.key(args[0])))
        return Opaque('leaf')

    def op_clear(self, I, args, kw):
        extra(args, kw, 0)
        self.put(I, EMPTY)
        return None


class Score(Thing):
    """a scoring function: looks at the tree, changes nothing"""
    ops = ()

    def __init__(self, t):
        self.t = t

    def py_call(self, I, args, kw):
        if len(args) != 4 or kw:
            raise Unsupported('arguments of the score')
        if I.deref(args[0]) is not self.t:
            I.fail('incremental_evaluation: the tree being evaluated is '
                   'scored')
        return Num(scored(self.t.h(I), *[I.key(a) for a in args[1:]]))


@unit('eval.incremental_evaluation', ['C16'],
      'every instance is scored on what the run learned before it')
def u_inc(ctx):
    I = ctx.interp(TABC)
    I.st = State()
    f = ctx.func('evaluation', 'incremental_evaluation')
    n, runs, length = [fresh(s, REAL) for s in ('n', 'runs', 'length')]
    I.st.assume(And(n >= 0, runs >= 0, length >= 0, L.isint(n), L.isint(
        runs), L.isint(length)))
    lst, t = InstList(I, n), Learner(I)
    a = fresh('attr', K)
    I.st.assume(hashable(a))
    I.st.facts.append(Fact('instances', (K, REAL), lambda o, i: isdict(
        item(o, i)), trig=on_apps(item)))
    N = 'incremental_evaluation: '

    def seqs(J, v, what, size):
        """the sequences a list consists of: one item per position"""
        d = J.deref(v)
        r = J.rec(d) if isinstance(d, Obj) else None
        if not isinstance(r, RecList) or r.sort is not None or not r.parts \
                or any(p.kind != 'gen' or not p.sort.eq(REAL)
                       for p in r.parts):
            raise Unsupported('shape of the result')
        x = fresh('p', REAL)
        ds = [p.dom(x) for p in r.parts]
        J.prove(N + what, And(disj(ds) == And(
            x >= 0, x < size, L.isint(x)), *[Not(And(p, q)) for i, p in
                                            enumerate(ds) for q in ds[:i]]))
        return r.parts

    def post(J, out):
        if not ctx.value(J, N, out):
            return
        k = ite(length + 2 < n, length + 2, n)
        rows = seqs(J, out.val, 'one row per run', runs)
        r = fresh('run', REAL)
        base = J.st
        for p in rows:
            J.st = base.copy()
            J.st.assume(p.dom(r))
            for q in seqs(J, p.elem(r), 'one score per evaluated instance',
                          k):
                a_row(J, q, k)

    def a_row(J, row, k):
        def at(x):
            """history and instance of the score at a position"""
            e = lsimp(J.num(row.elem(x)))
            ss = [u for u in subterms([e]) if is_app(u)
                  and u.decl().eq(scored)]
            if not ss or any(not u.arg(n).eq(ss[0].arg(n)) for u in ss
                             for n in (0, 1)):
                raise Unsupported('shape of a score')
            return ss[0].arg(0), ss[0].arg(1), e
        x = fresh('x', REAL)
        J.st.assume(And(x >= 0, x < k, L.isint(x), L.isint(x + 1)))
        h0 = at(ZERO)[0]
        J.prove(N + 'a run starts from an empty tree', h0 == EMPTY)
        h, i, e = at(x)
        J.prove(N + 'the score is asked for the evaluated attribute and the '
                "instance's value, or none", e == scored(h, i, a, ite(
                    dhas(i, a), dval(i, a), KNONE)))
        h2, i2 = at(lsimp(x + 1))[:2]
        J.prove(N + 'between two scores exactly the scored instance is '
                'learned', Implies(x + 1 < k, h2 == learnt(h, i)))
        o = i.children()[0] if i.decl().eq(item) else None
        if o is None:
            raise Unsupported('shape of a score')
        J.prove(N + 'the instances are taken in order', And(
            i == item(o, x), i2 == item(o, x + 1)))
    args = [t, lst, Key(a), Num(length), Num(runs), Score(t),
            Bl(fresh('randomize', BOOL))]
    ctx.run(I, I.st, f, None, args, post)
