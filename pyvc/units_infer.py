"""Inferring missing values, in the table layer."""
from .vals import *
from .unit import unit, Ob_
from .interp import PyExc, Infeasible, PathFailed
from .units_cv import *
from .units_table import *
from .units_table import TABC, Node, Inst, frame, COB, COB3
from .units_tree import LEARNERS, note, events

predictable = fn('predictable', K, K, BOOL)


def read_dict(I, v):
    """components of a dictionary instance -> value"""
    d = I.deref(v)
    if isinstance(d, Obj) and isinstance(I.rec(d), RecComp) and \
            I.rec(d).kind == 'kk':
        return d
    raise Unsupported('instance %r' % (d,))


class PrepT(object):
    """a preprocessing pipeline on dictionaries (C12, C13): transform returns
    a new flat instance, undo_transform a new instance; neither touches its
    argument or the tree"""
    def __init__(self, name, args):
        self.name, self.args = name, args

    def same_as(self, b):
        return self is b

    def map_terms(self, f):
        return self

    def py_getattr(self, I, name):
        return Fn('bmethod', recv=self, name=name)

    def py_method(self, I, name, args, kw):
        if name not in ('transform', 'undo_transform'):
            raise Unsupported('%s.%s' % (self.name, name))
        a = read_dict(I, args[0])
        st = I.st.heap[a.oid]
        new = Inst(I, 'flat' if name == 'transform' else 'undone')
        note(I, name, a.oid, st, new)
        return new.obj


def t_prept(I, c, args, kw):
    return PrepT(c.name, [I.deref(a) for a in args])


def _mk(short):
    ncls, tcls = LEARNERS[short]

    @unit('query.infer.' + short, ['C09', 'C04', 'C11'],
          '%s.infer_missing keeps what was given and adds predictions'
          % tcls[1])
    def u(ctx):
        con = dict(TABC)
        I = ctx.interp(con)
        I.st = State()
        inst = Inst(I, 'given')
        nd = Node(I, ncls, 'leaf', None)
        cf = Key(fresh('choice_fn', K))
        an = fresh('allow_none', BOOL)
        N = 'infer_missing: '

        def c_cat(I, recv, args, kw, f):
            """unit query.categorize: some leaf, nothing changes"""
            d = read_dict(I, args[0])
            note(I, 'asked', I.st.heap[d.oid])
            return nd.obj

        def c_sane(I, recv, args, kw, f):
            note(I, 'sane')
            if I.choose(2):
                raise PyExc('ValueError')

        def c_pred(I, recv, args, kw, f):
            """units table.predict"""
            env = I.bind(f, recv, args, kw)
            if I.deref(env['self']) != nd.obj and not same(
                    I.deref(env['self']), nd.obj):
                I.fail(N + 'predictions come from the chosen concept')
            I.obs.append(Ob_(N + 'predictions use the rule asked for', same(
                I.deref(env['choice_fn']), cf) and same(
                    I.deref(env['allow_none']), Bl(an))))
            a = I.key(env['attr'])
            k = I.fresh('pred', K)
            I.st.assume(And(hashable(k), k != I.cvk(),
                            Or(k == KNONE, predictable(a, k))))
            return Key(k)
        for c in ('CobwebTree', 'Cobweb3Tree', 'TrestleTree'):
            con[c + '._cobweb_categorize'] = c_cat
            con[c + '._sanity_check_instance'] = c_sane
        for c in ('CobwebNode', 'Cobweb3Node'):
            con[c + '.predict'] = c_pred
        for c in ('Pipeline', 'NameStandardizer', 'Flattener',
                  'SubComponentProcessor', 'StructureMapper'):
            con['new ' + c] = t_prept
        I.contracts = con
        t = I.alloc(RecObj(tcls, {'root': Opaque('root'),
                                  'gensym_counter': Num(fresh('g', REAL)),
                                  '__open__': True}))
        f = I.find_method(tcls, 'infer_missing')
        ctx.res.funcs.append(f.full)
        before = dict(I.st.heap)

        def post(I, out):
            frame(I, N + 'the tree and the given instance stay as they were',
                  out.st, before)
            if out.kind == 'exc' and out.val.cls == 'ValueError' and \
                    events(I, 'sane') and not events(I, 'asked'):
                return
            if not ctx.value(I, N, out):
                return
            src = inst
            if short == 'trestle':
                tr, un = events(I, 'transform'), events(I, 'undo_transform')
                ok = len(tr) == 1 and tr[0][1] == inst.obj.oid and \
                    tr[0][2] is before[inst.obj.oid]
                I.obs.append(Ob_(N + 'the given instance is transformed',
                                 ok))
                ok2 = len(un) == 1 and same(I.deref(out.val),
                                            un[0][3].obj)
                I.obs.append(Ob_(N + 'the answer is the undone instance',
                                 ok2))
                if not (ok and ok2):
                    return
                src = tr[0][3]
                r = un[0][2]
            else:
                d = read_dict(I, out.val)
                I.obs.append(Ob_(N + 'the answer is a new instance',
                                 d.oid not in before))
                r = I.st.heap[d.oid]
            asked = events(I, 'asked')
            I.obs.append(Ob_(N + 'one concept is chosen', len(asked) == 1))
            a = fresh('a', K)
            if asked:
                q = asked[0][1]
                I.prove(N + 'the concept is chosen for the given values',
                        And(q.get('has', a) == src.has(a), Implies(
                            src.has(a), q.get('val', a) == src.val(a))))
            I.prove(N + 'every given attribute keeps its value', Implies(
                src.has(a), And(r.get('has', a),
                                r.get('val', a) == src.val(a))))
            I.prove(N + 'only attributes of the concept are added', Implies(
                And(r.get('has', a), Not(src.has(a))), nd.c['has1'](a)))
            I.prove(N + 'what is added is a prediction of the concept',
                    Implies(And(r.get('has', a), Not(src.has(a))), And(
                        predictable(a, r.get('val', a)),
                        r.get('val', a) != KNONE)))
        ctx.run(I, I.st, f, t, [inst.obj, cf, Bl(an)], post)


for _s in LEARNERS:
    _mk(_s)
