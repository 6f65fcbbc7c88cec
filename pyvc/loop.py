"""Loop summaries and the library vocabulary.

A loop over a finite domain is not unrolled and needs no hand-written
invariant: its body is executed once for an arbitrary element x from an
arbitrary iteration state (every piece of loop-carried state is a
placeholder).  What one iteration does to each piece of state is then lifted to
the whole loop by one of the rules below, each of which is an induction over
the elements carried out once and for all:

  additive    new = old + d(x)            final = old + SUM_x d(x)
  pointwise   only coordinate x changes   final = body applied at each x
  exists      new = old or q(x)           final = old or (some x with q(x))
  append      list grows by e(x)          final list = old + [e(x) for x]
  exit        return/break/raise at x     some x0 exits and the elements
                                          processed before (an unknown subset)
                                          do not, or no element exits

State that fits no rule is havocked.
"""
import ast
from .vals import *


class FamObj(object):
    """object allocated per element of a domain and kept in a list"""
    def __init__(self, x, oid, recs, y):
        self.x, self.oid, self.recs, self.y = x, oid, recs, y


isint = fn('isinteger', REAL, BOOL)


def unordered(r):
    """the list with its order forgotten (None: it has none already)"""
    if len(r.parts) > 1:
        if all(s.kind == 'one' and s.val is r.parts[0].val
               for s in r.parts):
            return None
        if any(s.kind != 'gen' for s in r.parts):
            raise Unsupported('a list of several parts in random order')
    ps = []
    for s in r.parts:
        if s.kind == 'gen' and not getattr(s, 'shuffled', False):
            g = Seg('gen', sort=s.sort, dom=s.dom, elem=s.elem,
                    ordered=False, src=s.src)
            g.shuffled, g.before = True, s
            s = g
        ps.append(s)
    if all(p is q for p, q in zip(ps, r.parts)) and r.sort is None:
        return None
    return RecList(ps)


def ranged(lo, hi, elem, src=None):
    """elements at the whole positions lo <= x < hi, in order"""
    g = Seg('gen', sort=REAL, dom=lambda x: And(lo <= x, x < hi, isint(x)),
            elem=elem, ordered=True, src=src)
    g.lo, g.hi = lo, hi
    return g


def flipped(s):
    """the same elements the other way round"""
    if s.kind == 'one':
        return s
    if getattr(s, 'lo', None) is not None:
        lo, hi, elem = s.lo, s.hi, s.elem
        return ranged(lo, hi, lambda x: elem(lsimp(lo + hi - 1 - x)), s.src)
    if s.ordered or getattr(s, 'inorder', None):
        raise Unsupported('a sequence the other way round')
    return s


# ------------------------------------------------------------------ for

def exec_for(I, s, it):
    from .interp import BreakEx, ContinueEx
    segs = I.iterate(it)
    try:
        for seg in segs:
            if seg.kind == 'one':
                I.assign(s.target, seg.val)
                try:
                    I.block(s.body)
                except ContinueEx:
                    pass
            else:
                def body(el):
                    I.assign(s.target, el)
                    I.block(s.body)
                summarise(I, seg, body)
    except BreakEx:
        return
    I.block(s.orelse)


def unroll_while(I, s):
    from .interp import BreakEx, ContinueEx
    forks = 0
    for it in range(40):
        made = len(I.trail[1])
        t = I.branch(I.truth(I.ev(s.test)))
        if not t:
            I.block(s.orelse)
            return
        if len(I.trail[1]) > made:
            forks += 1
            if forks > 4:
                raise Unsupported('while loop without an invariant')
        try:
            I.block(s.body)
        except BreakEx:
            return
        except ContinueEx:
            pass
    raise Unsupported('while loop without an invariant')


def changed(stp, st, M):
    """keys of state that differ between the iteration start and its end"""
    out = set()
    for n, v in st.env.items():
        if n not in stp.env:
            out.add(('new', n))
        elif not same(stp.env[n], v):
            out.add(('env', n))
    for n in stp.env:
        if n not in st.env:
            out.add(('env', n))
    for k, v in st.cls.items():
        if k not in stp.cls or not same(stp.cls[k], v):
            out.add(('cls', k))
    for o, r in stp.heap.items():
        r2 = st.heap[o]
        if r2 is r:
            continue
        if type(r2) is not type(r):
            if isinstance(r, RecC) and not r.items and \
                    isinstance(r2, RecComp):
                out.add(('retype', o, r2.kind,
                         tuple(sorted(r2.info.items()))))
                continue
            raise Unsupported('object moved inside a loop')
        if isinstance(r, RecObj):
            for f, v in r2.fields.items():
                if f not in r.fields or not same(r.fields[f], v):
                    out.add(('fld', o, f))
        elif isinstance(r, RecComp):
            if r.kind != r2.kind:
                raise Unsupported('dict changes kind inside a loop')
            for n in r.comps:
                if r2.comps[n] is not r.comps[n]:
                    out.add(('comp', o, n))
        elif isinstance(r, RecList):
            if r.parts != r2.parts or r.sort != r2.sort:
                if r.sort is None and len(r.parts) == len(r2.parts) and all(
                        p is q or getattr(q, 'before', None) is p
                        for p, q in zip(r.parts, r2.parts)):
                    out.add(('forget', o))
                    continue
                out.add(('list', o))
        elif isinstance(r, RecC):
            for k, v in r2.items.items():
                if k not in r.items or not same(r.items[k], v):
                    out.add(('item', o, k))
        else:
            raise Unsupported('record changed inside a loop')
    return out


def getitem_state(st, key):
    k = key[0]
    if k == 'env':
        return st.env.get(key[1])
    if k == 'cls':
        return st.cls.get(key[1])
    if k == 'fld':
        return st.heap[key[1]].fields.get(key[2])
    if k == 'item':
        return st.heap[key[1]].items.get(key[2])
    raise KeyError(key)


def setitem_state(st, key, v):
    k = key[0]
    if k == 'env':
        st.env[key[1]] = v
    elif k == 'cls':
        st.cls[key[1]] = v
    elif k == 'fld':
        st.heap[key[1]] = st.heap[key[1]].set(key[2], v)
    elif k == 'item':
        d = dict(st.heap[key[1]].items)
        d[key[2]] = v
        st.heap[key[1]] = RecC(d)


def placeholder(I, v, shapes):
    if isinstance(v, (Bl, bool)):
        return Bl(fresh('ph', BOOL))
    if is_num(v):
        return Num(fresh('ph', REAL))
    if isinstance(v, Ref):
        return Ref(fresh('ph', R), v.cls)
    if isinstance(v, Key):
        return Key(fresh('ph', K))
    return Opaque('loop value')


class Item(object):
    pass


def summarise(I, seg, body):
    st0 = I.st
    x = fresh('x', seg.sort)
    if I.model is not None and not I.prover.feasible(
            st0.conds(), st0.facts, seg.dom(x)):
        return
    M = set()
    for attempt in range(12):
        stp = st0.copy()
        stp.pc.append(('d', seg.dom(x)))
        ph = {}
        for key in M:
            if key[0] == 'new':
                continue
            if key[0] == 'comp':
                o, n = key[1], key[2]
                r = stp.heap[o]
                args, res = LAYOUT[r.kind][n]
                if args:
                    P = freshfn('P.' + n, *(list(args) + [res]))
                    clo = (lambda P: lambda *a: P(*a))(P)
                else:
                    P = fresh('P.' + n, res)
                    clo = (lambda P: lambda: P)(P)
                ph[key] = P
                stp.heap[o] = r.upd(**{n: clo})
            elif key[0] == 'list':
                r = stp.heap[key[1]]
                prev = Seg('prev')
                ph[key] = prev
                stp.heap[key[1]] = RecList((prev,), r.sort)
            else:
                p = placeholder(I, getitem_state(st0, key), None)
                ph[key] = p
                setitem_state(stp, key, p)
        if seg.src is not None:
            d = I.deref(seg.src) if not isinstance(seg.src, (int, str)) \
                else None
            oid = d.oid if isinstance(d, Obj) else \
                d.tab if isinstance(d, Row) else None
            for key in M:
                if key[0] == 'comp' and key[1] == oid and \
                        key[2] in ('has', 'mem') or \
                        key[0] == 'comp' and key[1] == oid and \
                        key[2] == ('has2' if isinstance(d, Row) else 'has1'):
                    # adding keys while iterating
                    chk_iter = True
                    raise Unsupported('container changed while iterated')
                if key[0] == 'list' and key[1] == oid:
                    raise Unsupported('list changed while iterated')
        nob = len(I.obs)
        I.binders.append(x)
        try:
            outs = I.explore(stp, lambda: body(seg.elem(x)))
        finally:
            I.binders.pop()
        new = set()
        for o in outs:
            if o.kind in ('norm', 'break') or True:
                new |= changed(stp, o.st, M)
        ret = [k for k in new if k[0] == 'forget']
        if ret:
            # the order of a list is lost in the loop
            for k in ret:
                st0.heap[k[1]] = unordered(st0.heap[k[1]])
            del I.obs[nob:]
            continue
        ret = [k for k in new if k[0] == 'retype']
        if ret:
            # several kinds of values: the general kind holds them all
            ret.sort(key=lambda k: (k[1], k[2] == 'kk', str(k)))
            for k in ret:
                info = dict(k[3])
                st0.heap[k[1]] = RecComp(empty_comps(k[2]), k[2], **info)
            del I.obs[nob:]
            continue
        new -= set(k for k in new if k[0] == 'new' and k in M)
        if new <= M:
            break
        M |= new
        del I.obs[nob:]
    else:
        raise Unsupported('loop state does not settle')

    Sm = Summary(I, seg, x, st0, stp, M, ph, outs)
    Sm.finish()


def same_place(c, e, Pa):
    """under c some other application names the same place as Pa"""
    args = Pa.children()
    if not args or contains(e, Pa):
        return e
    lits = c.children() if is_and(c) else [c]
    eqs = []
    for l in lits:
        if is_eq(l):
            u, v = l.children()
            eqs.append((u, v))
            eqs.append((v, u))
    ids = {}
    for u, v in eqs:
        ids.setdefault(u.get_id(), set()).add(v.get_id())
    for t in subterms([e]):
        if is_app(t) and t.decl().eq(Pa.decl()) and all(
                u.get_id() == w.get_id() or w.get_id() in
                ids.get(u.get_id(), ())
                for u, w in zip(args, t.children())):
            return sub(e, (t, Pa))
    return e


def _named(st):
    return set(st.env)


def meets(o, ps):
    """o together with each of ps, as far as that is possible and says
    more than o"""
    def neg(l):
        return l.arg(0) if z3.is_app_of(l, z3.Z3_OP_NOT) else Not(l)
    have = {l.get_id() for l in o}
    if any(all(l.get_id() in have for l in p) for p in ps):
        return [o]
    out = []
    for p in ps:
        new = [l for l in p if l.get_id() not in have]
        if not any(neg(l).get_id() in have for l in new):
            out.append(o + new)
    return out


def dnf(q, limit=8):
    """lists of literals whose disjunction is q"""
    def go(e, pos):
        if z3.is_app_of(e, z3.Z3_OP_NOT):
            return go(e.arg(0), not pos)
        if is_and(e) and pos or z3.is_app_of(e, z3.Z3_OP_OR) and not pos:
            out = [[]]
            for ps in sorted([go(c, pos) for c in e.children()], key=len):
                out = [r for o in out for r in meets(o, ps)]
                if len(out) > limit:
                    raise OverflowError
            return out
        if is_and(e) or z3.is_app_of(e, z3.Z3_OP_OR):
            out = [p for c in e.children() for p in go(c, pos)]
            if len(out) > limit:
                raise OverflowError
            return out
        if is_ite(e) and z3.is_bool(e):
            c, a, b = e.children()
            out = [r for k, t in ((True, a), (False, b))
                   for p in go(t, pos) for r in meets(p, go(c, k))]
            if len(out) > limit:
                raise OverflowError
            return out
        if z3.is_true(e) or z3.is_false(e):
            return [[]] if z3.is_true(e) == pos else []
        return [[e if pos else Not(e)]]
    try:
        return go(q, True)
    except OverflowError:
        return [[q]]


def heads(e, *vs):
    """smallest applications inside e that mention all the variables (or,
    failing that, as many as possible)"""
    ids = set(v.get_id() for v in vs)
    best, n = [], 0
    for t in subterms([e]):
        if not is_app(t) or not t.children() or \
                t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            continue
        k = sum(1 for c in t.children() if c.get_id() in ids)
        if k > n:
            best, n = [t], k
        elif k == n and k:
            best.append(t)
    return best


class Summary(object):
    def __init__(self, I, seg, x, st0, stp, M, ph, outs):
        self.I, self.seg, self.x, self.st0, self.stp = I, seg, x, st0, stp
        self.M, self.ph = M, ph
        self.norm = [o for o in outs if o.kind == 'norm']
        self.exits = [o for o in outs if o.kind != 'norm']
        self.items = {}
        self.names = {}        # placeholder decl name -> key
        for k, p in ph.items():
            if k[0] == 'comp':
                nm = p.name() if isinstance(p, z3.FuncDeclRef) \
                    else p.decl().name()
                self.names[nm] = k
            elif isinstance(p, (Num, Bl, Key, Ref)):
                self.names[p.e.decl().name()] = k
        self.invs = []

    def pcond(self, o):
        return lsimp(conj(o.bconds()))

    # ---- what one iteration does to a component
    def merged(self, f):
        """ite over normal outcomes of f(o)"""
        r = None
        for o in reversed(self.norm):
            v = f(o)
            r = v if r is None else ite(self.pcond(o), v, r)
        return lsimp(r)

    def has_ph(self, e, only=None):
        for t in subterms([e]):
            if is_app(t) and t.decl().name() in self.names:
                if only is None or self.names[t.decl().name()] in only:
                    return True
        return False

    def finish(self):
        I = self.I
        self.classify()
        alts = ['none'] + list(range(len(self.exits)))
        if not self.exits:
            c = 'none'
        else:
            c = alts[I.choose(len(alts))]
        if c == 'none':
            self.no_exit()
        else:
            self.exit_via(self.exits[c])

    def classify(self):
        I = self.I
        self.rule = {}
        if not self.norm:
            for k in self.M:
                self.rule[k] = ('same',)
            return
        # pointwise components first
        pend = []
        for k in self.M:
            if k[0] == 'comp':
                pend.append(k)
            elif k[0] == 'new':
                self.rule[k] = ('new',)
        gen = {}
        for k in pend:
            kind = self.st0.heap[k[1]].kind
            sorts, res = LAYOUT[kind][k[2]]
            av = [fresh('a', s) for s in sorts]
            E = self.merged(lambda o: o.st.heap[k[1]].comps[k[2]](*av))
            P = self.ph[k]
            Pa = P(*av) if sorts else P
            gen[k] = (av, E, Pa)
            if E.get_id() == Pa.get_id():
                self.rule[k] = ('same',)
                continue
            for i, a in enumerate(av):
                if not a.sort().eq(self.x.sort()):
                    continue
                E2 = sub(E, (a == self.x, FALSE), (self.x == a, FALSE))
                E2 = lsimp(E2)
                ok = E2.get_id() == Pa.get_id()
                if not ok:
                    ok, _ = I.prover.valid(
                        self.stp.conds() + [a != self.x], self.stp.facts,
                        E == Pa)
                if ok:
                    self.rule[k] = ('point', i)
                    break
        for k in pend:
            if k in self.rule:
                continue
            av, E, Pa = gen[k]
            if E.sort().eq(REAL):
                d = self.delta(k, E, Pa)
                self.rule[k] = ('add', d) if d is not None else \
                    self.put_rule(E, Pa)
            elif E.sort().eq(BOOL):
                q = lsimp(sub(E, (Pa, FALSE)))
                qt = lsimp(sub(E, (Pa, TRUE)))
                q2 = lsimp(self.bools(E, FALSE))
                if is_true(qt) and not self.has_ph(q, self.acc_keys()):
                    self.rule[k] = ('or', q)
                elif not self.has_ph(q2, self.acc_keys()) and \
                        I.prover.valid(self.stp.conds(), self.stp.facts,
                                       E == Or(Pa, q2))[0]:
                    self.rule[k] = ('or', q2)
                elif is_false(q):
                    self.rule[k] = ('and', qt)
                else:
                    self.rule[k] = self.put_rule(E, Pa)
            else:
                self.rule[k] = self.put_rule(E, Pa)
            if self.rule[k] == ('havoc',) and av:
                self.rule[k] = self.place_rule(av, E, Pa)
        self.gen = gen
        for k in self.M:
            if k[0] == 'list':
                self.rule[k] = self.list_rule(k)
            elif k[0] in ('env', 'cls', 'fld', 'item'):
                self.rule[k] = self.scalar_rule(k)

    def acc_keys(self):
        return [k for k in self.M if k[0] != 'comp'
                or self.rule.get(k, ('?',))[0] != 'point']

    def delta(self, k, E, Pa):
        """E - Pa, free of accumulators"""
        d = self._delta(E, Pa)
        if d is None:
            return None
        if self.has_ph(d, self.acc_keys()):
            # the condition looks at the accumulated keys but the amount does
            # not depend on the answer
            for d2 in (self.bools(d, FALSE), self.bools(d, TRUE)):
                d2 = lsimp(d2)
                if not self.has_ph(d2, self.acc_keys()) and \
                        self.I.prover.valid(
                            self.stp.conds(), self.stp.facts,
                            E == Pa + d2)[0]:
                    return d2
            return None
        return d

    def put_rule(self, E, Pa):
        """E = ite(c(x, a), v(x, a), old): overwritten places"""
        conds = []

        def go(e, hyp):
            if e.get_id() == Pa.get_id():
                return Pa
            if is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
                c, a, b = e.children()
                if contains(c, Pa):
                    return None
                ra, rb = go(a, hyp + [c]), go(b, hyp + [Not(c)])
                if ra is None or rb is None:
                    return None
                if ra is Pa:
                    return rb
                if rb is Pa:
                    return ra
                return ite(c, ra, rb)
            if contains(e, Pa):
                return None
            conds.append(conj(hyp))
            return e
        v = go(E, [])
        if v is None or v is Pa:
            return ('havoc',)
        return ('put', lsimp(disj(conds)), lsimp(v))

    def place_rule(self, av, E, Pa):
        """only places named by an equation of E are overwritten"""
        for t in subterms([E]):
            if not is_eq(t) or not any(u.get_id() == a.get_id()
                                       for u in t.children() for a in av):
                continue
            v = lsimp(sub(E, (t, TRUE)))
            if contains(v, Pa) or self.has_ph(v, self.acc_keys()):
                continue
            if self.I.prover.valid(self.stp.conds() + [Not(t)],
                                   self.stp.facts + self.out_facts(),
                                   E == Pa)[0]:
                return ('put', t, v)
        return ('havoc',)

    def out_facts(self):
        """facts the only way through the body added"""
        if len(self.norm) != 1:
            return []
        n = len(self.stp.facts)
        return self.norm[0].st.facts[n:]

    def bools(self, e, v):
        """e with every boolean placeholder replaced"""
        tab = {}
        for nm, k in self.names.items():
            p = self.ph[k]
            if k[0] == 'comp':
                srt = p.range() if isinstance(p, z3.FuncDeclRef) \
                    else p.sort()
            else:
                srt = p.e.sort()
            if srt.eq(BOOL):
                tab[nm] = lambda *a: v
        return replace_apps(e, tab) if tab else e

    def _delta(self, E, Pa):
        if E.get_id() == Pa.get_id():
            return ZERO
        if is_app(E) and E.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = E.children()
            if contains(c, Pa):
                return None
            a = same_place(c, a, Pa)
            da, db = self._delta(a, Pa), self._delta(b, Pa)
            if da is None or db is None:
                return None
            return ite(c, da, db)
        if not contains(E, Pa):
            return None
        if E.decl().kind() == z3.Z3_OP_ADD:
            ch = E.children()
            hits = [c for c in ch if contains(c, Pa)]
            if len(hits) == 1:
                d0 = self._delta(hits[0], Pa)
                if d0 is None:
                    return None
                r = d0
                for c in ch:
                    if c.get_id() != hits[0].get_id():
                        r = r + c
                # equal children may repeat
                return lsimp(r)
        if E.decl().kind() == z3.Z3_OP_SUB:
            ch = E.children()
            if contains(ch[0], Pa) and not any(contains(c, Pa)
                                               for c in ch[1:]):
                d0 = self._delta(ch[0], Pa)
                if d0 is None:
                    return None
                r = d0
                for c in ch[1:]:
                    r = r - c
                return lsimp(r)
        d = simplify(E - Pa, som=True)
        if contains(d, Pa):
            return None
        return d

    def list_rule(self, k):
        prev = self.ph[k]
        app = []
        for o in self.norm:
            p = o.st.heap[k[1]].parts
            if not p or p[0] is not prev:
                # insert at the front, clear, ... : unknown
                return ('havoc',)
            if o.st.heap[k[1]].sort is not None:
                return ('havoc',)
            app.append((o, p[1:]))
        return ('append', app)

    def scalar_rule(self, k):
        old = getitem_state(self.st0, k)
        p = self.ph[k]
        vals = [getitem_state(o.st, k) for o in self.norm]
        if isinstance(p, Opaque):
            if isinstance(old, Obj) and isinstance(self.I.rec(
                    old), RecList) and getattr(self.seg, 'lo', None) \
                    is not None and all(isinstance(v, Key) for v in vals):
                return self.fold_rule(k, p, vals)
            return ('havoc',)
        if isinstance(p, Num):
            if not all(is_num(v) or isinstance(v, (Key,)) for v in vals) or \
                    any(isinstance(v, Key) for v in vals):
                return ('havoc',)
            E = self.merged(lambda o: self.I.num(getitem_state(o.st, k)))
            if E.get_id() == p.e.get_id():
                return ('same',)
            d = self.delta(k, E, p.e)
            if d is not None:
                return ('add', d)
            return self.flag_rule(k, E, p.e)
        if isinstance(p, Bl):
            if not all(isinstance(v, (Bl, bool)) for v in vals):
                return ('havoc',)
            E = self.merged(lambda o: self.I.truth(getitem_state(o.st, k)))
            if E.get_id() == p.e.get_id():
                return ('same',)
            q = lsimp(sub(E, (p.e, FALSE)))
            qt = lsimp(sub(E, (p.e, TRUE)))
            if is_true(qt) and not self.has_ph(q, self.acc_keys()):
                return ('or', q)
            if is_false(q) and not self.has_ph(qt, self.acc_keys()):
                return ('and', qt)
            return self.flag_rule(k, E, p.e)
        if isinstance(p, Key) and getattr(self.seg, 'lo', None) is not None:
            return self.fold_rule(k, p, vals)
        return ('havoc',)

    def fold_rule(self, k, p, vals):
        """a value each iteration computes from the value before it: A(i) is
        the value before position i"""
        try:
            E = self.merged(lambda o: self.I.key(getitem_state(o.st, k)))
        except Unsupported:
            return ('havoc',)
        if isinstance(p, Key) and E.get_id() == p.e.get_id():
            return ('same',)
        bs = list(self.I.binders)
        A = freshfn('fold', *([b.sort() for b in bs] + [REAL, K]))
        return ('fold', E, lambda y: A(*(bs + [y])))

    def flag_rule(self, k, E, p):
        """E = ite(c(x), const, p)"""
        conds, const = [], None
        e = E
        todo = [([], E)]
        while todo:
            hyp, e = todo.pop()
            if e.get_id() == p.get_id():
                continue
            if is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
                c, a, b = e.children()
                if contains(c, p):
                    return ('havoc',)
                todo.append((hyp + [c], a))
                todo.append((hyp + [Not(c)], b))
                continue
            if contains(e, self.x) or self.has_ph(e):
                return ('havoc',)
            if const is not None and const.get_id() != e.get_id():
                return ('havoc',)
            const = e
            conds.append(conj(hyp))
        q = lsimp(disj(conds))
        if const is None or self.has_ph(q, self.acc_keys()):
            return ('havoc',)
        return ('flag', q, const)

    # ---- resolving placeholders at iteration y
    def resolver(self, y, comp_old, scal):
        """rewriting of placeholders for the iteration of element y"""
        bad = [False]
        table = {}
        for nm, k in self.names.items():
            if k[0] == 'comp':
                r = self.rule.get(k, ('havoc',))
                if r[0] == 'same':
                    f = self.st0.heap[k[1]].comps[k[2]]
                    table[nm] = (lambda f: lambda *a: f(*a))(f)
                elif r[0] == 'point':
                    def g(*a, k=k, i=r[1]):
                        if a[i].get_id() != y.get_id():
                            v = comp_old(k, a, y, i)
                            if v is None and self.untouched(a[i]):
                                v = self.st0.heap[k[1]].comps[k[2]](*a)
                            if v is None:
                                bad[0] = True
                                return self.ph[k](*a)
                            return v
                        return self.st0.heap[k[1]].comps[k[2]](*a)
                    table[nm] = g
                else:
                    def g(*a, k=k):
                        v = scal(k, a)
                        if v is None:
                            bad[0] = True
                            P = self.ph[k]
                            return P(*a) if a else P
                        return v
                    table[nm] = g
            else:
                def g(*a, k=k):
                    if self.rule.get(k, ('havoc',))[0] == 'same':
                        return term_of(self.I, getitem_state(self.st0, k))
                    if self.rule.get(k, ('havoc',))[0] == 'fold':
                        return self.rule[k][2](y)
                    v = scal(k, a)
                    if v is None:
                        bad[0] = True
                        return self.ph[k].e
                    return v
                table[nm] = g

        def run(e):
            bad[0] = False
            if not self.names:
                r = e
            else:
                r = replace_apps(e, table)
            return (None if bad[0] else r)
        return run

    def untouched(self, t):
        """t is no element of the loop's domain"""
        dom = getattr(self.seg, 'dom', None)
        if self.I.model is None or dom is None or contains(t, self.x):
            return False
        return self.I.prover.valid(self.st0.conds(), self.st0.facts,
                                   Not(dom(t)))[0]

    def lift(self, e):
        """resolve e (over x) with pre-loop values of pointwise state; None
        if it depends on accumulated state"""
        run = self.resolver(self.x, lambda k, a, y, i: None,
                            lambda k, a: None)
        return run(e)

    # ---- final values for a processed set D (predicate)
    def finals(self, st, D):
        """write into st the state after processing exactly the elements of
        D"""
        I = self.I
        x = self.x
        for k in sorted(self.M, key=str):
            r = self.rule[k]
            if r[0] == 'new':
                if k[1] not in self.st0.env:
                    st.env[k[1]] = Opaque('variable %s after a loop' % k[1])
                continue
            if r[0] == 'same':
                continue
            if k[0] == 'comp':
                st.heap[k[1]] = st.heap[k[1]].upd(
                    **{k[2]: self.final_comp(st, k, r, D)})
            elif k[0] == 'list':
                st.heap[k[1]] = self.final_list(st, k, r, D)
            else:
                setitem_state(st, k, self.final_scalar(st, k, r, D))

    def havoc_name(self, k):
        self.I.havocs.append('%s in %s' % (k[-1], self.I.stack[-1].qual
                                           if self.I.stack else '?'))

    def final_comp(self, st, k, r, D):
        I, x = self.I, self.x
        old = self.st0.heap[k[1]].comps[k[2]]
        av, E, Pa = self.gen[k]
        if r[0] == 'point':
            i = r[1]
            e = lsimp(sub(E, (x, av[i])))
            run = self.resolver(av[i], lambda *q: None, lambda *q: None)
            e = run(e)
            if e is None:
                r = ('havoc-on', i)
            else:
                def f(*a):
                    v = sub(e, *zip(av, a))
                    return lsimp(ite(D(a[i]), v, old(*a)))
                return f
        if r[0] == 'add':
            d = self.lift(r[1])
            if d is not None:
                def f(*a):
                    dd = sub(d, *zip(av, a)) if av else d
                    return lsimp(old(*a) + mksum(x, D(x), dd))
                return f
        if r[0] == 'or':
            q = self.lift(r[1])
            if q is not None:
                return self.exists_comp(st, k, old, av, q, D, False)
        if r[0] == 'and':
            q = self.lift(r[1])
            if q is not None:
                return self.exists_comp(st, k, old, av, lsimp(Not(q)), D,
                                        True)
        if r[0] == 'put':
            q, v = self.lift(r[1]), self.lift(r[2])
            if q is not None and v is not None:
                return self.put_comp(st, k, old, av, q, v, D)
        self.havoc_name(k)
        sorts, res = LAYOUT[self.st0.heap[k[1]].kind][k[2]]
        bs = list(I.binders)
        H = freshfn('havoc.' + k[2], *([b.sort() for b in bs] +
                                       list(sorts) + [res]))
        if r[0] == 'havoc-on':
            return lambda *a: ite(D(a[r[1]]), H(*(bs + list(a))), old(*a))
        return lambda *a: H(*(bs + list(a)))

    def deps(self, *terms):
        """the elements of enclosing loops the terms speak about"""
        bs = list(self.I.binders)
        seen = set()
        for t in subterms(list(terms)):
            if is_app(t):
                nm = t.decl().name()
                if nm.startswith('P.') or nm.startswith('ph!'):
                    return bs
                if not t.children():
                    seen.add(t.get_id())
        return [b for b in bs if b.get_id() in seen]

    def exists_comp(self, st, k, old, av, q, D, negate):
        I, x = self.I, self.x
        bs = self.deps(q, D(x))
        ss = [b.sort() for b in bs] + [a.sort() for a in av]
        EX = freshfn('EX', *(ss + [BOOL]))
        W = freshfn('EXw', *(ss + [x.sort()]))

        self.define(st, EX, W, bs, av, q, D)
        if negate:
            return lambda *a: And(old(*a), Not(EX(*(bs + list(a)))))
        return lambda *a: Or(old(*a), EX(*(bs + list(a))))

    def put_comp(self, st, k, old, av, q, v, D):
        """some element of D wrote the place last, or it keeps its value"""
        I, x = self.I, self.x
        bs = self.deps(q, v, D(x))
        sorts = tuple(a.sort() for a in av)
        ss = [b.sort() for b in bs] + list(sorts)
        if not contains(q, x) and not contains(v, x):
            ds = self.deps(D(x))
            S = freshfn('some', *([d.sort() for d in ds] + [BOOL]))
            w = freshfn('somew', *([d.sort() for d in ds] + [x.sort()]))
            st.facts.append(Fact('some+', (), lambda: Implies(
                S(*ds), D(w(*ds))), pats=lambda: [S(*ds)], defn=True))
            st.facts.append(Fact('some element', (x.sort(),), lambda y:
                                 Implies(D(y), S(*ds)),
                                 pats=lambda y: heads(D(y), y), defn=True))
            return lambda *a: lsimp(ite(And(S(*ds), sub(q, *zip(av, a))),
                                        sub(v, *zip(av, a)), old(*a)))
        EX = freshfn('PUT', *(ss + [BOOL]))
        W = freshfn('PUTw', *(ss + [x.sort()]))
        self.define(st, EX, W, bs, av, q, D)
        return lambda *a: ite(EX(*(bs + list(a))), sub(v, *(
            [(x, W(*(bs + list(a))))] + list(zip(av, a)))), old(*a))

    def define(self, st, EX, W, bs, av, q, D):
        """EX(bs, a) iff some element of D (namely W) has q"""
        x = self.x
        sorts = tuple(a.sort() for a in av)

        def inst(y, a):
            return And(D(y), sub(q, *([(x, y)] + list(zip(av, a)))))
        st.facts.append(Fact('exists+', sorts, lambda *a: Implies(
            EX(*(bs + list(a))), inst(W(*(bs + list(a))), a)),
            pats=lambda *a: [EX(*(bs + list(a)))], defn=True))
        cs = dnf(q)
        if len(cs) == 1 and len(cs[0]) == 1 and len(av) == 1 and \
                not is_eq(q):
            # too many cases: one fact per equation that names the place
            eqs = {e.get_id(): e for e in subterms([q]) if is_eq(e) and any(
                c.get_id() == av[0].get_id() for c in e.children())}
            if eqs:
                for e in eqs.values():
                    self.names_place(st, EX, bs, av, q, [e], D)
                return
        for lits in cs:
            self.names_place(st, EX, bs, av, conj(lits), lits, D)

    def names_place(self, st, EX, bs, av, q, lits, D):
        """the places an element names by an equation"""
        x = self.x
        named = {}
        for l in lits:
            if is_eq(l):
                for u, t in (l.children(), l.children()[::-1]):
                    for i, a in enumerate(av):
                        if u.get_id() == a.get_id() and i not in named and \
                                not any(contains(t, b) for b in av):
                            named[i] = t
        rest = [i for i in range(len(av)) if i not in named]

        def inst(y, a):
            return And(D(y), sub(q, *([(x, y)] + list(zip(av, a)))))

        def full(y, r):
            r = list(r)
            return [sub(named[i], (x, y)) if i in named else r.pop(0)
                    for i in range(len(av))]
        wild = [fresh('wild', a.sort()) for a in av]

        def pats(y, *r):
            hs = heads(D(y), y, *r) or heads(inst(y, full(y, r)), y, *r)
            if not r:
                return hs
            it = list(r)
            e = EX(*(bs + [wild[i] if i in named else it.pop(0)
                           for i in range(len(av))]))
            return [(h, e) for h in hs]
        st.facts.append(Fact('exists-', (x.sort(),) + tuple(
            av[i].sort() for i in rest), lambda y, *r: Implies(
                inst(y, full(y, r)), EX(*(bs + full(y, r)))),
            pats=pats, defn=True))

    def final_scalar(self, st, k, r, D):
        I, x = self.I, self.x
        old = getitem_state(self.st0, k)
        if r[0] == 'fold':
            e, A, lo, hi = self.lift(r[1]), r[2], self.seg.lo, self.seg.hi
            if e is not None:
                o = I.key(old)
                if isinstance(old, Obj):
                    I.frozen.add(old.oid)
                st.facts.append(Fact('fold last', (REAL,), lambda y: Implies(
                    And(lo < y, y <= hi, isint(y)), And(isint(y - 1), lo <= y - 1, A(
                        y) == sub(e, (x, y - 1)))), pats=lambda y: [A(y)]))
                st.facts.append(Fact('fold start', (REAL,), lambda y: Implies(
                    y == lo, A(y) == o), pats=lambda y: [A(y)]))
                st.facts.append(Fact('fold step', (REAL,), lambda y: Implies(
                    And(lo <= y, y < hi, isint(y)),
                    A(y + 1) == sub(e, (x, y))), pats=lambda y: [A(y)]))
                at = getattr(self, 'left_at', None)
                if at is not None:
                    return Key(A(at))
                if I.prover.valid(st.conds(), st.facts, lo <= hi)[0]:
                    return Key(A(hi))
                return Key(lsimp(ite(lo <= hi, A(hi), o)))
        if r[0] == 'add':
            d = self.lift(r[1])
            if d is not None:
                return Num(lsimp(I.num(old) + mksum(x, D(x), d)))
        if r[0] in ('or', 'and', 'flag'):
            q = self.lift(r[1])
            if q is not None:
                if r[0] == 'and':
                    q = lsimp(Not(q))
                b = I.fresh('EX', BOOL)
                w = I.fresh('EXw', x.sort())
                st.assume(Implies(b, And(D(w), sub(q, (x, w)))))
                st.facts.append(Fact('exists', (x.sort(),), lambda y: Or(
                    b, Not(And(D(y), sub(q, (x, y)))))))
                if r[0] == 'or':
                    return Bl(lsimp(Or(I.truth(old), b)))
                if r[0] == 'and':
                    return Bl(lsimp(And(I.truth(old), Not(b))))
                c = r[2]
                if z3.is_bool(c):
                    return Bl(lsimp(ite(b, c, I.truth(old))))
                return Num(lsimp(ite(b, c, I.num(old))))
        self.havoc_name(k)
        p = self.ph[k]
        if isinstance(p, Num):
            v = Num(I.fresh('havoc', REAL))
            self.apply_invs(st, k, v.e)
            return v
        if isinstance(p, Bl):
            return Bl(I.fresh('havoc', BOOL))
        if isinstance(p, Key):
            # last assignment wins: one of the assigned values or the old
            return Key(I.fresh('havoc', K))
        if isinstance(p, Ref):
            return Ref(I.fresh('havoc', R), p.cls)
        return Opaque('value of %s after a loop' % (k[-1],))

    def apply_invs(self, st, k, e):
        for kk, f in self.invs:
            if kk == k:
                st.assume(f(e))

    def final_list(self, st, k, r, D):
        I, x = self.I, self.x
        old = self.st0.heap[k[1]]
        if r[0] != 'append':
            self.havoc_name(k)
            raise Unsupported('list changed in a loop other than by append')
        parts = list(old.parts)
        single = len(self.norm) == 1 and not self.norm[0].bconds()
        m = self.merged_append(st, r[1])
        if m is not None:
            return RecList(parts + [m], old.sort)
        for o, app in r[1]:
            cond = self.lift(self.pcond(o))
            if cond is None:
                raise Unsupported('append depends on accumulated state')
            for sg in app:
                parts.append(self.lift_seg(st, o, sg, cond, D, single))
        if sum(len(app) for _, app in r[1]) == 1 and self.seg.ordered:
            # some of the items, in their order
            parts[-1].inorder = True
        return RecList(parts, old.sort)

    def merged_append(self, st, outs):
        """one scalar per iteration on every path: an ordered sequence"""
        I, x, D = self.I, self.x, self.seg.dom
        if not self.seg.ordered or len(outs) < 2 or \
                len(outs) != len(self.norm):
            return None
        vals = []
        for o, app in outs:
            if len(app) != 1 or app[0].kind != 'one':
                return None
            v = app[0].val
            if not isinstance(v, (Key, Num, str)) and not is_num(v):
                return None
            if isinstance(v, float) and v in (float('inf'), -float('inf')):
                return None
            cond = self.lift(self.pcond(o))
            if cond is None:
                return None
            vals.append((cond, self.lift_val(st, o, v)))
        num = all(is_num(v) for _, v in vals)
        conv = I.num if num else I.key
        e = conv(vals[-1][1])
        for c, v in reversed(vals[:-1]):
            e = ite(c, conv(v), e)
        e = lsimp(e)
        mk = Num if num else Key
        return Seg('gen', sort=x.sort(), dom=D,
                   elem=lambda y: mk(sub(e, (x, y))), ordered=True,
                   src=self.seg.src)

    def lift_seg(self, st, o, sg, cond, D, single):
        I, x = self.I, self.x
        if sg.kind != 'one':
            return self.lift_gen(st, o, sg, cond, D)
        v = sg.val
        v = self.lift_val(st, o, v)

        def dom(y, cond=cond):
            return lsimp(And(D(y), sub(cond, (x, y))))

        def elem(y, v=v):
            return val_at(I, v, x, y)
        g = Seg('gen', sort=x.sort(), dom=dom, elem=elem,
                ordered=self.seg.ordered and single, src=self.seg.src)
        return g

    def lift_gen(self, st, o, sg, cond, D):
        raise Unsupported('nested list generation')

    def lift_val(self, st, o, v):
        I = self.I

        def f(e):
            r = self.lift(e)
            if r is None:
                raise Unsupported('list element depends on accumulated '
                                  'state')
            return r
        d = v
        if isinstance(d, tuple):
            return tuple(self.lift_val(st, o, q) for q in d)
        if isinstance(d, Obj):
            r = o.st.heap.get(d.oid)
            if d.oid in self.st0.heap:
                return d
            return FamObj(self.x, d.oid, family_recs(self, o, d.oid, f), None)
        return val_map(d, f)

    # ---- loop ends normally
    def transfer(self, st, o, hyp_of, y_of):
        """assumptions and facts an outcome brought in, generalised"""
        I, x = self.I, self.x
        base_f = len(self.stp.facts)
        for c in o.assumed():
            yield c, None
        for f in o.st.facts[base_f:]:
            yield None, f

    def no_exit(self):
        I, x = self.I, self.x
        self.houdini()
        st = self.st0
        D = self.seg.dom
        new = st      # updated in place: st0 is the current path's state
        pre = st.copy()
        keep = self.st0
        self.st0 = pre
        try:
            self.finals(new, D)
            for o in self.exits:
                c = self.lift(self.pcond(o))
                if c is not None:
                    new.facts.append(Fact('no early exit', (x.sort(),),
                                          lambda y, c=c: Or(
                        Not(D(y)), Not(sub(c, (x, y)))),
                        pats=self.place_pats(c)))
            for o in self.norm:
                self.import_facts(new, o, D)
            ev = [(self.pcond(o), o.st.events[len(self.stp.events):])
                  for o in self.norm
                  if len(o.st.events) > len(self.stp.events)]
            if ev:
                new.events = new.events + (('loop', x, D, ev),)
            # non-empty path conditions must cover: else the loop body died
            if not self.norm:
                new.facts.append(Fact('loop body never completes',
                                      (x.sort(),), lambda y: Not(D(y))))
        finally:
            self.st0 = keep
        I.st = new

    def place_pats(self, r):
        """facts about positions fire on what lies there"""
        x = self.x
        if not x.sort().eq(REAL):
            return None
        ts = [u for u in subterms([r]) if is_app(u) and u.num_args()
              and u.decl().kind() == z3.Z3_OP_UNINTERPRETED
              and not u.decl().eq(isint)
              and any(v.eq(x) for v in u.children())]
        return (lambda y: [sub(u, (x, y)) for u in ts]) if ts else None

    def import_facts(self, new, o, D):
        x = self.x
        c = self.lift(self.pcond(o))
        if c is None:
            return
        for a in o.assumed():
            r = self.lift(a)
            if r is None:
                continue
            pats = self.place_pats(r)
            new.facts.append(Fact('per element', (x.sort(),),
                                  lambda y, r=r, c=c: Implies(
                And(D(y), sub(c, (x, y))), sub(r, (x, y))), pats=pats))
        for f in o.st.facts[len(self.stp.facts):]:
            hyp = TRUE if f.defn else And(D(x), c)

            def g(y, *t, f=f, hyp=hyp):
                body = f.f(*t)
                body = self.lift(body)
                if body is None:
                    return TRUE
                return sub(Implies(hyp, body), (x, y))
            pats = None
            if f.pats is not None:
                if f.defn:
                    tv = [fresh('tv', s) for s in f.sorts]
                    b = self.lift(f.f(*tv))
                    if b is not None and not contains(b, x):
                        new.facts.append(Fact(
                            f.name, f.sorts, lambda *t, f=f: self.lift(
                                f.f(*t)), pats=f.pats, defn=True))
                        continue

                def pats(y, *t, f=f):
                    out = []
                    for p in f.pats(*t):
                        ps = [self.lift(q) for q in (
                            p if isinstance(p, tuple) else (p,))]
                        if all(q is not None for q in ps):
                            out.append(tuple(sub(q, (x, y)) for q in ps))

                    def covers(p):
                        ids = set(u.get_id() for u in subterms(list(p)))
                        return sum(1 for v in (y,) + t if v.get_id() in ids)
                    most = max([covers(p) for p in out] or [0])
                    return [p for p in out if covers(p) == most]
            new.facts.append(Fact('per element ' + f.name,
                                  (x.sort(),) + tuple(f.sorts), g,
                                  pats=pats, defn=f.defn))

    # ---- loop left early
    def exit_via(self, o):
        from .interp import ReturnEx, BreakEx, PyExc, Infeasible
        I, x = self.I, self.x
        self.houdini()
        st = self.st0
        pre = st.copy()
        keep = self.st0
        self.st0 = pre
        touched = [k for k in self.M if self.rule[k][0] not in
                   ('same', 'new')]
        x0 = I.fresh('x0', x.sort())
        self.left_at = x0
        D0f = None
        try:
            st.pc.append(('b', self.seg.dom(x0)))
            bs = list(I.binders)
            D0f = freshfn('before', *([b.sort() for b in bs] +
                                      [x.sort(), BOOL]))
            D0 = lambda y: D0f(*(bs + [y]))
            dom = self.seg.dom
            if getattr(self.seg, 'lo', None) is not None:
                D0 = lambda y: And(self.seg.lo <= y, y < x0, isint(y))
            elif touched:
                st.facts.append(Fact('processed before', (x.sort(),),
                                     lambda y: Implies(D0(y), And(
                                         dom(y), y != x0))))
            if touched:
                self.finals(st, D0)
                for e in self.exits:
                    c = self.lift(self.pcond(e))
                    if c is not None:
                        st.facts.append(Fact('no earlier exit', (x.sort(),),
                                             lambda y, c=c: Or(
                            Not(D0(y)), Not(sub(c, (x, y)))),
                            pats=self.place_pats(c)))
                for q in self.norm:
                    self.import_facts(st, q, D0)
            mid = st.copy()

            # placeholders -> state in mid
            def cur(e):
                if e is None:
                    return None
                table = {}
                for nm, k in self.names.items():
                    if k[0] == 'comp':
                        f = mid.heap[k[1]].comps[k[2]]
                        table[nm] = (lambda f: lambda *a: f(*a))(f)
                    else:
                        v = getitem_state(mid, k)
                        t = term_of(I, v)
                        if t is None:
                            raise Unsupported('loop state at exit')
                        table[nm] = (lambda t: lambda: t)(t)
                e = sub(e, (x, x0))
                return lsimp(replace_apps(e, table)) if table else e
            # effects of the exiting iteration
            for k in changed(self.stp, o.st, self.M):
                if k[0] == 'new':
                    v = o.st.env[k[1]]
                    st.env[k[1]] = val_map(v, cur) if not isinstance(
                        v, Obj) else v
                elif k[0] == 'comp':
                    f = o.st.heap[k[1]].comps[k[2]]
                    st.heap[k[1]] = st.heap[k[1]].upd(
                        **{k[2]: (lambda f: lambda *a: cur(f(*a)))(f)})
                elif k[0] == 'list':
                    pr = o.st.heap[k[1]].parts
                    if not pr or pr[0] is not self.ph[k]:
                        raise Unsupported('list at loop exit')
                    add = [Seg('one', val_map(s.val, cur)) for s in pr[1:]]
                    st.heap[k[1]] = RecList(tuple(mid.heap[k[1]].parts) +
                                            tuple(add))
                else:
                    v = getitem_state(o.st, k)
                    setitem_state(st, k, val_map(v, cur))
            for oid, r in o.st.heap.items():
                if oid not in st.heap:
                    st.heap[oid] = rec_map(r, cur)
            for c in o.bconds():
                st.pc.append(('b', cur(c)))
            for c in o.assumed():
                st.pc.append(('a', cur(c)))
            for f in o.st.facts[len(self.stp.facts):]:
                st.facts.append(Fact(f.name, f.sorts,
                                     lambda *t, f=f: cur(f.f(*t))))
            st.events = st.events + tuple(
                o.st.events[len(self.stp.events):])
        finally:
            self.st0 = keep
        I.st = st
        if I.dead():
            raise Infeasible()
        if o.kind == 'break':
            raise BreakEx()
        if o.kind == 'exc':
            raise PyExc(o.val.cls, o.val.msg)
        raise ReturnEx(val_map(o.val, cur) if not isinstance(o.val, Obj)
                       else o.val)

    # ---- simple invariants on accumulators used in exit conditions
    def houdini(self):
        if self.invs or not self.exits or getattr(self, '_hd', False):
            return
        self._hd = True
        I = self.I
        accs = [k for k in self.M if k[0] in ('env', 'fld')
                and self.rule[k][0] in ('add', 'havoc')
                and isinstance(self.ph.get(k), Num)]
        if not accs:
            return
        terms = {}
        for o in self.exits:
            for c in o.bconds():
                for t in subterms([c]):
                    if t.sort().eq(REAL) and not contains(t, self.x) and \
                            not self.has_ph(t):
                        terms[t.get_id()] = t
        for k in accs:
            p = self.ph[k].e
            old = I.num(getitem_state(self.st0, k))
            for t in list(terms.values())[:6]:
                for f in (lambda e, t=t: e <= t, lambda e, t=t: e >= t):
                    ok, _ = I.prover.valid(self.st0.conds(),
                                           self.st0.facts, f(old))
                    if not ok:
                        continue
                    good = True
                    for o in self.norm:
                        nv = I.num(getitem_state(o.st, k))
                        ok, _ = I.prover.valid(o.st.conds() + [f(p)],
                                               o.st.facts, f(nv))
                        if not ok:
                            good = False
                            break
                    if good:
                        self.invs.append((k, f))
        # attach to the final values
        fs = self.final_scalar

        def wrapped(st, k, r, D):
            v = fs(st, k, r, D)
            if isinstance(v, Num):
                for kk, f in self.invs:
                    if kk == k:
                        st.assume(f(v.e))
            return v
        self.final_scalar = wrapped


def term_of(I, v):
    if isinstance(v, (Num, Bl, Key, Ref)):
        return v.e
    if isinstance(v, bool):
        return BoolVal(v)
    if isinstance(v, (int, float)):
        return rv(v)
    if isinstance(v, str) or v is None:
        return kconst(v)
    return None


def rec_map(r, f):
    if isinstance(r, RecObj):
        return RecObj(r.cls, {k: val_map(v, f) for k, v in r.fields.items()})
    if isinstance(r, RecComp):
        return RecComp({n: (lambda c: lambda *a: f(c(*a)))(c)
                        for n, c in r.comps.items()}, r.kind, **r.info)
    if isinstance(r, RecC):
        return RecC({k: val_map(v, f) for k, v in r.items.items()})
    if isinstance(r, RecList):
        out = []
        for s in r.parts:
            if s.kind == 'one':
                out.append(Seg('one', val_map(s.val, f)))
            else:
                g = Seg('gen', sort=s.sort,
                        dom=(lambda d: lambda y: f(d(y)))(s.dom),
                        elem=(lambda e: lambda y: val_map(e(y), f))(s.elem),
                        ordered=s.ordered, src=s.src)
                out.append(g)
        return RecList(out, r.sort)
    if isinstance(r, RecAlias):
        return RecAlias(val_map(r.target, f))
    return r


def family_recs(S, o, oid, f):
    """records reachable from an object allocated in the body"""
    recs, todo = {}, [oid]
    while todo:
        i = todo.pop()
        if i in recs or i in S.st0.heap:
            continue
        r = o.st.heap[i]
        recs[i] = rec_map(r, f)
        if isinstance(r, RecObj):
            todo += [v.oid for v in r.fields.values() if isinstance(v, Obj)]
        elif isinstance(r, RecC):
            todo += [v.oid for v in r.items.values() if isinstance(v, Obj)]
        elif isinstance(r, RecList):
            todo += [s.val.oid for s in r.parts if s.kind == 'one'
                     and isinstance(s.val, Obj)]
        elif isinstance(r, RecAlias):
            t = r.target
            if isinstance(t, Row):
                todo.append(t.tab)
            elif isinstance(t, Cell):
                todo.append(t.oid)
    return recs


def val_at(I, v, x, y):
    """value v(x) at element y"""
    if isinstance(v, tuple):
        return tuple(val_at(I, q, x, y) for q in v)
    if isinstance(v, FamObj):
        # instantiate a read copy of the family member
        ren = {o: new_oid() for o in v.recs}

        def f(e):
            return sub(e, (x, y))

        def fix(w):
            if isinstance(w, Obj) and w.oid in ren:
                return Obj(ren[w.oid])
            if isinstance(w, Row) and w.tab in ren:
                return Row(ren[w.tab], f(w.a))
            if isinstance(w, Cell) and w.oid in ren:
                return Cell(ren[w.oid], tuple(f(a) for a in w.args))
            return w
        for o, r in v.recs.items():
            r2 = rec_map(r, f)
            if isinstance(r2, RecObj):
                r2 = RecObj(r2.cls, {k: fix(q) for k, q in r2.fields.items()})
            elif isinstance(r2, RecC):
                r2 = RecC({k: fix(q) for k, q in r2.items.items()})
            elif isinstance(r2, RecAlias):
                r2 = RecAlias(fix(r2.target))
            elif isinstance(r2, RecList):
                r2 = RecList([Seg('one', fix(s.val)) if s.kind == 'one'
                              else s for s in r2.parts], r2.sort)
            I.st.heap[ren[o]] = r2
            I.frozen.add(ren[o])
        return Obj(ren[v.oid])
    return val_map(v, lambda e: sub(e, (x, y)))


# --------------------------------------------------------- comprehensions

def comprehension(I, n, kind):
    saved = {}
    names = set()
    for g in n.generators:
        if g.is_async:
            raise Unsupported('async comprehension')
        for t in ast.walk(g.target):
            if isinstance(t, ast.Name):
                names.add(t.id)
    for nm in names:
        if nm in I.st.env:
            saved[nm] = I.st.env[nm]
    if kind == 'list':
        acc = I.new_list()
    elif kind == 'dict':
        acc = I.alloc(RecC({}))
    else:
        acc = I.alloc(RecComp(empty_comps('set'), 'set'))

    def gen(i):
        if i == len(n.generators):
            if kind == 'list':
                I.list_append(acc, I.ev(n.elt))
            elif kind == 'dict':
                k = I.ev(n.key)
                I.setitem(acc, k, I.ev(n.value))
            else:
                bmethod(I, acc, 'add', [I.ev(n.elt)], {})
            return
        g = n.generators[i]
        for seg in I.iterate(I.ev(g.iter)):
            def body(el, g=g, i=i):
                I.assign(g.target, el)
                for c in g.ifs:
                    if not I.branch(I.truth(I.ev(c))):
                        return
                gen(i + 1)
            if seg.kind == 'one':
                body(seg.val)
            else:
                summarise(I, seg, body)
    gen(0)
    for nm in names:
        I.st.env.pop(nm, None)
        if nm in saved:
            I.st.env[nm] = saved[nm]
    return acc


# ----------------------------------------------------------- sorted lists

def le_prefix(I, a, b):
    """what python's ordering guarantees when a sorts before b (a <= b):
    lexicographic on the leading numeric components"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if not a or not b:
            return TRUE
        x, y = I.deref(a[0]), I.deref(b[0])
        if is_num(x) and is_num(y):
            p, q = I.num(x), I.num(y)
            return Or(p < q, And(p == q, le_prefix(I, a[1:], b[1:])))
        return TRUE
    if is_num(a) and is_num(b):
        return I.num(a) <= I.num(b)
    return TRUE


def pick(I, parts, taken, desc, key):
    """the next element of the sorted list; taken: [(part index, y, value)]"""
    kf = key if key is not None else (lambda v: v)

    def order(u, v):
        # u comes after v
        return le_prefix(I, u, v) if desc else le_prefix(I, v, u)
    cands = []
    for i, s in enumerate(parts):
        if s.kind == 'one' and any(t[0] == i for t in taken):
            continue
        cands.append(i)
    if not cands:
        from .interp import PyExc
        raise PyExc('IndexError')
    nonempty = any(parts[i].kind == 'one' for i in cands)
    if not nonempty:
        from .interp import PyExc
        tot = ZERO
        for i in cands:
            tot = tot + I.seg_sum(parts[i], lambda el: ONE)
        tot = lsimp(tot)
        used = len([t for t in taken if parts[t[0]].kind != 'one'])
        if not I.branch(tot > used):
            raise PyExc('IndexError')
    c = cands[I.choose(len(cands))]
    s = parts[c]
    if s.kind == 'one':
        y, v = None, s.val
    else:
        y = I.fresh('pick', s.sort)
        I.st.pc.append(('b', s.dom(y)))
        for t in taken:
            if t[0] == c:
                I.st.pc.append(('b', y != t[1]))
        v = s.elem(y)
    vk = kf(v)
    for i, q in enumerate(parts):
        if q.kind == 'one':
            if i == c or any(t[0] == i for t in taken):
                continue
            I.st.pc.append(('b', order(kf(q.val), vk)))
        else:
            ys = [t[1] for t in taken if t[0] == i]

            def f(z, q=q, ys=ys, vk=vk):
                st = I.st
                return Implies(And(q.dom(z), *[z != w for w in ys]),
                               order(kf(q.elem(z)), vk))
            I.st.facts.append(Fact('sorted', (q.sort,), f))
    if I.dead():
        from .interp import Infeasible
        raise Infeasible()
    return (c, y, v)


def sorted_index(I, c, r, k):
    if k < 0:
        raise Unsupported('negative index into a sorted list')
    desc, key = r.sort
    picks = list(I.st.env.get(('picks', c.oid), ()))
    cache = I.st.cls.get(('picks', c.oid))
    taken = list(cache) if cache else []
    while len(taken) <= k:
        taken.append(pick(I, r.parts, taken, desc, key))
    I.st.cls[('picks', c.oid)] = tuple(taken)
    return taken[k][2]


# ---------------------------------------------------------- method calls

def del_item(I, c, k):
    from .interp import PyExc
    if isinstance(c, Key) and I.touches(c):
        if not I.branch(dhas(c.e, I.hkey(k))):
            raise PyExc('KeyError')
        I.touched()
    if isinstance(c, Obj):
        r = I.rec(c)
        if isinstance(r, RecC) and is_conc(k):
            if k not in r.items:
                raise PyExc('KeyError')
            d = dict(r.items)
            del d[k]
            I.st.heap[c.oid] = RecC(d)
            return
        if isinstance(r, RecComp) and r.kind in ('kk', 'kn', 'kcv', 'kr'):
            ke = I.hkey(k)
            if not I.branch(r.get('has', ke)):
                raise PyExc('KeyError')
            r = I.rec(c)
            new = {'has': I.point_upd(r.comps['has'], (ke,), FALSE)}
            for z in ('n', 's1', 's2'):
                if r.kind == 'kcv':       # absent cells are zero
                    new[z] = I.point_upd(r.comps[z], (ke,), ZERO)
            I.st.heap[c.oid] = r.upd(**new)
            return
        if isinstance(r, RecComp) and r.kind == 'tab':
            ke = I.hkey(k)
            if not I.branch(r.get('has1', ke)):
                raise PyExc('KeyError')
            r = I.rec(c)
            h2 = r.comps['has2']
            I.st.heap[c.oid] = r.upd(
                has1=I.point_upd(r.comps['has1'], (ke,), FALSE),
                has2=lambda a, v: And(a != ke, h2(a, v)))
            return
    if isinstance(c, Row):
        ke = I.hkey(k)
        r = I.st.heap[c.tab]
        if not I.branch(r.get('has2', c.a, ke)):
            raise PyExc('KeyError')
        r = I.st.heap[c.tab]
        I.st.heap[c.tab] = r.upd(has2=I.point_upd(r.comps['has2'],
                                                  (c.a, ke), FALSE))
        return
    raise Unsupported('del item')


def bmethod(I, v, name, args, kw):
    from .interp import PyExc
    v = I.deref(v)
    h = getattr(v, 'py_method', None)
    if h:
        return h(I, name, args, kw)
    if isinstance(v, (str,)):
        if all(is_conc(a) for a in args) and name in (
                'upper', 'lower', 'split', 'strip', 'startswith',
                'endswith', 'replace'):
            r = getattr(v, name)(*args)
            if isinstance(r, list):
                return I.new_list([Seg('one', x) for x in r])
            return r
        if name in ('join', 'format'):
            k = I.fresh(name, K)
            I.st.assume(isstr(k))
            return Key(k)
        raise Unsupported('str.' + name)
    if isinstance(v, Row):
        r = I.st.heap[v.tab]
        if name == 'get':
            ke = I.hkey(args[0])
            if I.branch(r.get('has2', v.a, ke)):
                return I.row_value(v, ke)
            return args[1] if len(args) > 1 else None
        if name == 'setdefault':
            ke = I.hkey(args[0])
            if I.branch(r.get('has2', v.a, ke)):
                return I.row_value(v, ke)
            I.row_store(v, args[0], args[1])
            return I.row_value(v, ke)
        if name == 'keys':
            return Dom(I.iterate(v))
        if name in ('values', 'items'):
            return Dom([items_seg(I, g, v, name) for g in I.iterate(v)])
        if name == 'copy':
            return builtin(I, 'dict', [v], {})
        raise Unsupported('row.' + name)
    if isinstance(v, SetV):
        return set_method(I, v, name, args)
    if isinstance(v, Dom):
        raise Unsupported('method of an iterator')
    if isinstance(v, Key):
        return key_method(I, v, name, args, kw)
    if isinstance(v, Obj):
        r = I.rec(v)
        if isinstance(r, RecList):
            return list_method(I, v, r, name, args, kw)
        if isinstance(r, RecComp) and r.kind in ('set', 'rset'):
            if name in ('add', 'remove', 'discard', 'update'):
                s = SetV(R if r.kind == 'rset' else K, r.comps['mem'])
                if name in ('add', 'remove', 'discard'):
                    d = I.deref(args[0])
                    if isinstance(d, Ref) and r.kind == 'set':
                        # an empty set receives concepts
                        p = fresh('probe', K)
                        if not is_false(lsimp(r.comps['mem'](p))):
                            raise Unsupported('mixed set')
                        r = RecComp(empty_comps('rset'), 'rset')
                        e = d.e
                    else:
                        e = d.e if isinstance(d, Ref) else I.hkey(args[0])
                        r = I.rec(v)
                    mem = r.comps['mem']
                    if name == 'remove':
                        if not I.branch(mem(e)):
                            raise PyExc('KeyError')
                        r = I.rec(v)
                        mem = r.comps['mem']
                    I.st.heap[v.oid] = RecComp({'mem': I.point_upd(
                        mem, (e,), TRUE if name == 'add' else FALSE)},
                        r.kind)
                    return None
                o = I.to_set(args[0])
                r = I.rec(v)
                mem = r.comps['mem']
                I.st.heap[v.oid] = RecComp(
                    {'mem': lambda x: Or(mem(x), o.mem(x))}, r.kind)
                return None
            return set_method(I, I.as_set(v), name, args)
        if isinstance(r, RecC):
            return cdict_method(I, v, r, name, args)
        if isinstance(r, RecComp):
            return dict_method(I, v, r, name, args)
    if v is None or is_num(v):
        raise PyExc('AttributeError')
    raise Unsupported('method %s of %r' % (name, v))


def set_method(I, s, name, args):
    if name in ('union', 'intersection', 'difference', 'issubset',
                'isdisjoint', 'copy'):
        if name == 'copy' or not args:
            return I.new_set(s)
        o = I.to_set(args[0])
        if not o.sort.eq(s.sort):
            p = fresh('probe', o.sort)
            if is_false(lsimp(o.mem(p))):
                o = SetV(s.sort, lambda x: FALSE)
            else:
                raise Unsupported('sets of different elements')
        if name == 'union':
            r = SetV(s.sort, lambda x: Or(s.mem(x), o.mem(x)))
            if len(args) > 1:
                return set_method(I, r, name, args[1:])
            return I.new_set(r)
        if name == 'intersection':
            return I.new_set(SetV(s.sort, lambda x: And(s.mem(x),
                                                        o.mem(x))))
        if name == 'difference':
            return I.new_set(SetV(s.sort, lambda x: And(s.mem(x),
                                                        Not(o.mem(x)))))
        g = Seg('gen', sort=s.sort, dom=s.mem,
                elem=lambda x: Key(x) if s.sort.eq(K) else Ref(x))
        if name == 'issubset':
            return Bl(Not(I.exists(g, lambda el: Not(o.mem(el.e)))))
        return Bl(Not(I.exists(g, lambda el: o.mem(el.e))))
    raise Unsupported('set.' + name)


def items_seg(I, g, c, name):
    def elem(x):
        d = I.deref(c)
        if isinstance(d, Row):
            val = I.row_value(d, x)
        elif isinstance(d, Key):
            val = Key(dval(d.e, x))
        else:
            val = I.comp_value(d, x)
        return val if name == 'values' else (Key(x), val)
    return Seg('gen', sort=g.sort, dom=g.dom, elem=elem, src=g.src)


def dict_method(I, v, r, name, args):
    from .interp import PyExc
    has = 'has1' if r.kind in TABS else 'has'
    if name == 'keys':
        return Dom(I.iterate(v))
    if name in ('values', 'items'):
        return Dom([items_seg(I, g, v, name) for g in I.iterate(v)])
    if name == 'get':
        ke = I.hkey(args[0])
        if I.branch(r.get(has, ke)):
            return I.comp_value(v, ke)
        return args[1] if len(args) > 1 else None
    if name == 'setdefault':
        ke = I.hkey(args[0])
        if I.branch(r.get(has, ke)):
            return I.comp_value(v, ke)
        I.setitem(v, args[0], args[1] if len(args) > 1 else None)
        return I.comp_value(v, ke)
    if name == 'copy':
        if r.kind in ('kk', 'kn'):
            return I.alloc(RecComp(dict(r.comps), r.kind, **r.info))
        raise Unsupported('copy of a nested dict')
    if name == 'pop':
        ke = I.hkey(args[0])
        if I.branch(r.get(has, ke)):
            if r.kind == 'tab':
                raise Unsupported('pop')
            x = I.comp_value(v, ke)
            del_item(I, v, args[0])
            return x
        if len(args) > 1:
            return args[1]
        raise PyExc('KeyError')
    if name == 'update':
        return I.dict_update(v, args[0])
    raise Unsupported('dict.' + name)


def cdict_method(I, v, r, name, args):
    from .interp import PyExc
    if name == 'keys':
        return Dom([Seg('one', k) for k in r.items])
    if name == 'values':
        return Dom([Seg('one', x) for x in r.items.values()])
    if name == 'items':
        return Dom([Seg('one', (k, x)) for k, x in r.items.items()])
    if name in ('get', 'setdefault'):
        if not r.items:
            if name == 'setdefault':
                I.setitem(v, args[0], args[1])
                return I.getitem(v, args[0])
            return args[1] if len(args) > 1 else None
        if is_conc(args[0]):
            if args[0] in r.items:
                return r.items[args[0]]
            if name == 'setdefault':
                I.setitem(v, args[0], args[1])
                return args[1]
            return args[1] if len(args) > 1 else None
        for k in r.items:
            if I.branch(I.eq(args[0], k)):
                return r.items[k]
        if name == 'setdefault':
            I.setitem(v, args[0], args[1])
            return I.getitem(v, args[0])
        return args[1] if len(args) > 1 else None
    if name == 'update':
        return I.dict_update(v, args[0])
    if name == 'copy':
        return I.alloc(RecC(dict(r.items)))
    if name == 'pop' and is_conc(args[0]):
        if args[0] in r.items:
            d = dict(r.items)
            x = d.pop(args[0])
            I.st.heap[v.oid] = RecC(d)
            return x
        if len(args) > 1:
            return args[1]
        raise PyExc('KeyError')
    raise Unsupported('dict.' + name)


def key_method(I, v, name, args, kw):
    from .interp import PyExc
    k = v.e
    if name in ('keys', 'values', 'items', 'get'):
        if not I.branch(isdict(k)):
            raise PyExc('AttributeError')
        if name == 'keys':
            return Dom(I.iterate(v))
        if name in ('values', 'items'):
            return Dom([items_seg(I, g, v, name) for g in I.iterate(v)])
        ke = I.hkey(args[0])
        if I.branch(dhas(k, ke)):
            return Key(dval(k, ke))
        return args[1] if len(args) > 1 else None
    if name in ('lower', 'upper', 'strip'):
        if not I.branch(isstr(k)):
            raise PyExc('AttributeError')
        r = fn('str.' + name, K, K)(k)
        I.st.assume(isstr(r))
        return Key(r)
    if name in ('startswith', 'endswith'):
        if not I.branch(isstr(k)):
            raise PyExc('AttributeError')
        if isinstance(args[0], str) and len(args[0]) == 1 and \
                name == 'startswith':
            return Bl(And(tlen(k) > 0, first(k) == kconst(args[0])))
        return Bl(fn('str.' + name, K, K, BOOL)(k, I.key(args[0])))
    if name in ('pop', 'setdefault', 'update', 'clear', 'popitem') and \
            I.touches(v):
        if name == 'setdefault':
            if I.branch(dhas(k, I.hkey(args[0]))):
                return Key(dval(k, I.hkey(args[0])))
        if name == 'pop' and not I.branch(dhas(k, I.hkey(args[0]))):
            if len(args) > 1:
                return args[1]
            raise PyExc('KeyError')
        if name == 'update':
            raise Unsupported('update of a given instance')
        if name in ('clear', 'popitem'):
            I.prove('no instance passed in is modified', FALSE)
        I.touched()
    if name == 'copy' and not args:
        return builtin(I, 'dict', [v], {})
    raise Unsupported('method %s of an unknown value' % name)


def list_method(I, v, r, name, args, kw):
    from .interp import PyExc
    if name == 'append':
        I.list_append(v, args[0])
        return None
    if name == 'extend':
        p = I.as_list(args[0])
        if p is None:
            p = I.iterate(args[0])
        r = I.rec(v)
        I.st.heap[v.oid] = RecList(r.parts + tuple(p))
        return None
    if name == 'sort':
        I.st.heap[v.oid] = RecList(r.parts, sort_spec(I, kw))
        return None
    if name == 'copy':
        return I.new_list(r.parts)
    if name == 'reverse':
        if all(s.kind == 'one' for s in r.parts):
            I.st.heap[v.oid] = RecList(tuple(reversed(r.parts)))
            return None
        if r.sort is not None:
            I.st.heap[v.oid] = RecList(r.parts, (not r.sort[0], r.sort[1]))
            return None
        I.st.heap[v.oid] = RecList(tuple(flipped(s) for s in
                                         reversed(r.parts)))
        return None
    if name == 'insert' and args[0] == 0:
        I.st.heap[v.oid] = RecList((Seg('one', args[1]),) + r.parts)
        return None
    if name == 'pop' and all(s.kind == 'one' for s in r.parts):
        i = args[0] if args else -1
        if isinstance(i, int):
            if not r.parts:
                raise PyExc('IndexError')
            x = r.parts[i].val
            ps = list(r.parts)
            del ps[i]
            I.st.heap[v.oid] = RecList(ps)
            return x
    if name == 'remove' and all(s.kind == 'one' for s in r.parts):
        for i, s in enumerate(r.parts):
            if I.branch(I.eq(s.val, args[0])):
                ps = list(I.rec(v).parts)
                del ps[i]
                I.st.heap[v.oid] = RecList(ps)
                return None
        raise PyExc('ValueError')
    if name == 'count':
        t = ZERO
        for s in r.parts:
            if s.kind == 'one':
                t = t + ite(I.eq(s.val, args[0]), ONE, ZERO)
            else:
                t = t + I.seg_sum(s, lambda el: ite(I.eq(el, args[0]), ONE,
                                                    ZERO))
        return Num(lsimp(t))
    raise Unsupported('list.' + name)


def sort_spec(I, kw):
    desc, key = False, None
    for k, v in kw.items():
        if k == 'reverse':
            if not isinstance(v, bool):
                raise Unsupported('sort order')
            desc = v
        elif k == 'key':
            key = (lambda f: lambda el: I.call(f, [el], {}))(v) \
                if v is not None else None
        else:
            raise Unsupported('sort argument')
    return (desc, key)


# -------------------------------------------------------------- builtins

TYPES = ('str', 'bool', 'tuple', 'dict', 'list', 'int', 'float', 'Number',
         'set', 'frozenset', 'Hashable')


def isinstance_(I, v, t):
    v = I.deref(v)
    if isinstance(t, tuple):
        return disj([isinstance_(I, v, q) for q in t])
    name = None
    if isinstance(t, Fn) and t.kind in ('builtin', 'ext'):
        name = t.name
    elif isinstance(t, ClassRef):
        name = t.name
    if name is None:
        raise Unsupported('isinstance')
    h = getattr(v, 'py_isa', None)
    if h is not None:
        return h(I, name)
    if isinstance(t, ClassRef):
        if isinstance(v, Ref):
            return BoolVal(name == 'CobwebNode') if name == 'CobwebNode' \
                else fn('isa_' + name, R, BOOL)(v.e)
        if isinstance(v, Cell):
            return BoolVal(name == 'ContinuousValue')
        if isinstance(v, Obj):
            r = I.rec(v)
            if isinstance(r, RecObj):
                ch = [c for _, c in I.prog.mro(I.prog.mods[r.cls[0]],
                                               r.cls[1])]
                return BoolVal(name in ch)
            if isinstance(r, RecComp) and r.kind == 'cv':
                return BoolVal(name == 'ContinuousValue')
            return FALSE
        if isinstance(v, Key):
            return fn('isa_' + name, K, BOOL)(v.e)
        return FALSE
    if name not in TYPES:
        raise Unsupported('isinstance of ' + name)
    if isinstance(v, Key):
        k = v.e
        return {'str': isstr(k), 'bool': isbool(k), 'tuple': istup(k),
                'dict': isdict(k), 'list': islist(k), 'Number': isnumt(k),
                'Hashable': hashable(k),
                'int': And(isnumt(k), fn('isint', K, BOOL)(k)),
                'float': And(isnumt(k), Not(isbool(k)),
                             Not(fn('isint', K, BOOL)(k))),
                'set': fn('isset', K, BOOL)(k),
                'frozenset': fn('isfset', K, BOOL)(k)}[name]
    if is_num(v):
        if name == 'Number':
            return TRUE
        if name in ('int', 'float'):
            if isinstance(v, Num):
                raise Unsupported('int or float')
            return BoolVal(isinstance(v, int if name == 'int' else float))
        return BoolVal(name == 'Hashable')
    if isinstance(v, (bool, Bl)):
        return BoolVal(name in ('bool', 'int', 'Number', 'Hashable'))
    if isinstance(v, str):
        return BoolVal(name in ('str', 'Hashable'))
    if v is None:
        return BoolVal(name == 'Hashable')
    if isinstance(v, tuple):
        return BoolVal(name in ('tuple', 'Hashable'))
    if isinstance(v, Row):
        return BoolVal(name == 'dict')
    if isinstance(v, SetV):
        raise Unsupported('isinstance of a set')
    if isinstance(v, PairSet):
        return BoolVal(name in ('frozenset', 'Hashable'))
    if isinstance(v, Obj):
        r = I.rec(v)
        if isinstance(r, RecList):
            return BoolVal(name == 'list')
        if isinstance(r, RecComp):
            if r.kind in ('set', 'rset'):
                return BoolVal(name == r.info.get('py', 'set'))
            return BoolVal(name == 'dict')
        if isinstance(r, RecC):
            return BoolVal(name == 'dict')
        return FALSE
    if isinstance(v, (Ref, Fn, ClassRef, Cell)):
        return FALSE
    raise Unsupported('isinstance of %r' % (v,))


def builtin(I, name, args, kw):
    from .interp import PyExc, EXC_PARENTS
    a = [I.deref(x) for x in args]
    if name in EXC_PARENTS:
        from .vals import Exc
        return Exc(name)
    if name == 'len':
        e = lsimp(I.length(a[0]))
        if z3.is_rational_value(e) and e.as_fraction().denominator == 1:
            return int(e.as_fraction())
        return Num(e)
    if name == 'isinstance':
        t = lsimp(isinstance_(I, a[0], a[1]))
        return True if is_true(t) else False if is_false(t) else Bl(t)
    if name == 'hash':
        v = a[0]
        if isinstance(v, Key):
            if not I.branch(hashable(v.e)):
                raise PyExc('TypeError')
        elif isinstance(v, Obj) and isinstance(I.rec(v), (RecList, RecC,
                                                          RecComp)):
            raise PyExc('TypeError')
        return Num(I.fresh('hash', REAL))
    if name == 'str' or name == 'repr':
        v = a[0] if a else ''
        if isinstance(v, str):
            return v
        if isinstance(v, int):
            return str(v)
        try:
            k = I.key(v) if not isinstance(v, Obj) else None
        except Unsupported:
            k = None
        if k is not None:
            return Key(strof(k))
        r = I.fresh('text', K)
        I.st.assume(isstr(r))
        return Key(r)
    if name == 'type':
        v = a[0]
        if isinstance(v, Obj) and isinstance(I.rec(v), RecObj):
            c = I.rec(v).cls
            return ClassRef(I.prog.mods[c[0]], c[1])
        h = getattr(v, 'py_class', None)
        if h:
            c = h(I)
            return ClassRef(I.prog.mods[c[0]], c[1])
        return Fn('type', v=v)
    if name == 'float':
        v = a[0]
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError:
                raise PyExc('ValueError')
        if is_num(v) or isinstance(v, (bool, Bl)):
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return float(v)
            return Num(I.num(v))
        if isinstance(v, Key):
            if I.branch(isnumt(v.e)):
                return Num(numof(v.e))
            if I.branch(isstr(v.e)):
                if I.branch(fn('floatable', K, BOOL)(v.e)):
                    return Num(fn('floatof', K, REAL)(v.e))
                raise PyExc('ValueError')
            raise PyExc('TypeError')
        raise PyExc('TypeError')
    if name == 'int' and len(a) == 1 and isinstance(I.deref(a[0]),
                                                    (Bl, bool)):
        return Num(I.num(a[0]))
    if name == 'int':
        if type(a[0]) is int:
            return a[0]
        raise Unsupported('int()')
    if name == 'bool':
        t = lsimp(I.truth(a[0]))
        return True if is_true(t) else False if is_false(t) else Bl(t)
    if name == 'abs':
        e = I.num(a[0])
        return Num(ite(e >= 0, e, -e))
    if name == 'sum':
        tot = I.num(a[1]) if len(a) > 1 else ZERO
        for s in I.iterate(a[0]):
            if s.kind == 'one':
                tot = tot + I.num(s.val)
            else:
                tot = tot + seg_numsum(I, s)
        return Num(lsimp(tot))
    if name in ('max', 'min'):
        key = None
        if 'key' in kw:
            key = (lambda f: lambda el: I.call(f, [el], {}))(kw['key'])
        if len(a) == 2 and not kw and all(is_num(v) for v in a):
            p, q = I.num(a[0]), I.num(a[1])
            c = p >= q if name == 'max' else p <= q
            return Num(lsimp(ite(c, p, q)))
        segs = I.iterate(a[0]) if len(a) == 1 else \
            [Seg('one', x) for x in a]
        if not segs or all(s.kind == 'gen' for s in segs):
            tot = ZERO
            for s in segs:
                tot = tot + I.seg_sum(s, lambda el: ONE)
            if not I.branch(lsimp(tot) > 0):
                if 'default' in kw:
                    return kw['default']
                raise PyExc('ValueError')
        return pick(I, tuple(segs), [], name == 'max', key)[2]
    if name == 'sorted':
        o = I.new_list(tuple(I.iterate(a[0])))
        if all(s.kind == 'gen' for s in I.rec(o).parts) or True:
            I.st.heap[o.oid] = RecList(I.rec(o).parts, sort_spec(I, kw))
        return o
    if name in ('list', 'tuple', 'iter', 'reversed'):
        if not a:
            return I.new_list() if name == 'list' else ()
        if name == 'reversed':
            return Dom([flipped(s) for s in reversed(I.iterate(a[0]))])
        if name == 'tuple':
            segs = I.iterate(a[0])
            if all(s.kind == 'one' for s in segs):
                return tuple(s.val for s in segs)
            return tuple_of(I, segs)
        if isinstance(a[0], Obj) and isinstance(I.rec(a[0]), RecList):
            if name == 'iter':
                return a[0]
            r = I.rec(a[0])
            return I.alloc(RecList(r.parts, r.sort))
        if name == 'iter':
            return Dom(I.iterate(a[0]))
        return I.new_list(tuple(I.iterate(a[0])))
    if name in ('set', 'frozenset'):
        if not a:
            return I.alloc(RecComp(empty_comps('set'), 'set', py=name))
        p = pairs_of(I, a[0])
        if p is not None and name == 'frozenset':
            return p
        s = I.to_set(a[0])
        kind = 'rset' if s.sort.eq(R) else 'set'
        more = {'of': (s.of, s.mem)} if hasattr(s, 'of') else {}
        return I.alloc(RecComp({'mem': s.mem}, kind, py=name, **more))
    if name == 'dict':
        if not a and not kw:
            return I.alloc(RecC({}))
        if len(a) == 1 and not kw:
            v = a[0]
            p = pairs_of(I, v)
            if p is not None:
                return I.alloc(RecComp({'has': p.has, 'val': p.val}, 'kk'))
            if isinstance(v, Row):
                r = I.st.heap[v.tab]
                c = dict(r.comps)
                return I.alloc(RecComp(
                    {'has': lambda k: c['has2'](v.a, k),
                     'num': lambda k: c['cnt'](v.a, k)},
                    'krow' if r.info.get('cv') else 'kn'))
            if isinstance(v, Obj):
                r = I.rec(v)
                if isinstance(r, RecC):
                    return I.alloc(RecC(dict(r.items)))
                if isinstance(r, RecComp) and r.kind in ('kk', 'kn'):
                    return I.alloc(RecComp(dict(r.comps), r.kind))
            if isinstance(v, Key):
                if not I.branch(isdict(v.e)):
                    raise PyExc('TypeError')
                return I.alloc(RecComp({'has': lambda x: dhas(v.e, x),
                                        'val': lambda x: dval(v.e, x)},
                                       'kk'))
        raise Unsupported('dict()')
    if name == 'range':
        b = [x for x in a]
        if all(type(x) is int for x in b):
            if len(range(*b)) > 50:
                raise Unsupported('long range')
            return tuple(range(*b))
        if len(b) == 1:
            lo, hi = ZERO, I.num(b[0])
        elif len(b) == 2:
            lo, hi = I.num(b[0]), I.num(b[1])
        else:
            raise Unsupported('range step')
        return Dom([ranged(lo, hi, lambda x: Num(x))])
    if name == 'enumerate':
        start = a[1] if len(a) > 1 else kw.get('start', 0)
        out, i = [], start
        for s in I.iterate(a[0]):
            if s.kind == 'one' and isinstance(i, int):
                out.append(Seg('one', (i, s.val)))
                i += 1
            else:
                i = None
                pos = freshfn('pos', s.sort, REAL)
                if getattr(s, 'lo', None) is not None and len(out) == 0 \
                        and isinstance(start, int):
                    pos = (lambda lo: lambda x: lsimp(x - lo + start))(s.lo)
                g = Seg('gen', sort=s.sort, dom=s.dom,
                        elem=(lambda s, pos: lambda x: (
                            Num(pos(x)), s.elem(x)))(s, pos),
                        ordered=s.ordered, src=s.src)
                g.lo, g.hi = getattr(s, 'lo', None), getattr(s, 'hi', None)
                if hasattr(s, 'sum'):
                    g.sum = s.sum
                out.append(g)
        return Dom(out)
    if name == 'zip':
        ls = [I.iterate(x) for x in a]
        if all(all(s.kind == 'one' for s in l) for l in ls):
            return tuple(zip(*[[s.val for s in l] for l in ls]))
        raise Unsupported('zip')
    if name == 'filter':
        return Dom([filter_seg(I, a[0], s) for s in I.iterate(a[1])])
    if name == 'map':
        out = []
        for s in I.iterate(a[1]):
            if s.kind == 'one':
                out.append(Seg('one', I.call(a[0], [s.val], {})))
            else:
                raise Unsupported('map')
        return Dom(out)
    if name in ('any', 'all'):
        out = []
        for s in I.iterate(a[0]):
            if s.kind == 'one':
                t = I.truth(s.val)
                out.append(t if name == 'any' else Not(t))
            else:
                out.append(I.exists(s, lambda el: I.truth(el)
                                    if name == 'any'
                                    else Not(I.truth(el))))
        t = lsimp(disj(out))
        if name == 'all':
            t = lsimp(Not(t))
        return True if is_true(t) else False if is_false(t) else Bl(t)
    if name == 'print':
        return None
    if name == 'next':
        segs = I.iterate(a[0])
        if segs and segs[0].kind == 'one':
            return segs[0].val
        tot = ZERO
        for s in segs:
            tot = tot + (ONE if s.kind == 'one' else
                         I.seg_sum(s, lambda el: ONE))
        if not segs or not I.branch(lsimp(tot) > 0):
            raise PyExc('StopIteration')
        c = I.choose(len(segs))
        s = segs[c]
        if s.kind == 'one':
            return s.val
        w = I.fresh('nxt', s.sort)
        I.st.pc.append(('b', s.dom(w)))
        return s.elem(w)
    if name == 'round':
        return Num(fn('round', REAL, REAL)(I.num(a[0])))
    if name == 'id':
        return Num(I.fresh('id', REAL))
    if name == 'getattr' and isinstance(a[1], str):
        try:
            return I.getattr_(a[0], a[1])
        except PyExc as e:
            if len(a) > 2 and e.cls == 'AttributeError':
                return a[2]
            raise
    if name == 'hasattr' and isinstance(a[1], str):
        try:
            I.getattr_(a[0], a[1])
            return True
        except PyExc:
            return False
    if name == 'setattr' and isinstance(a[1], str):
        I.setattr_(a[0], a[1], args[2])
        return None
    raise Unsupported('builtin ' + name)


def pairs_of(I, v):
    """an iterable of (key, value) pairs with distinct keys"""
    if isinstance(v, PairSet):
        return v
    if isinstance(v, Dom):
        segs = v.segs
    elif isinstance(v, Obj) and isinstance(I.rec(v), RecList):
        segs = I.rec(v).parts
    else:
        return None
    if len(segs) != 1 or segs[0].kind != 'gen' or not segs[0].sort.eq(K):
        return None
    g = segs[0]
    x = fresh('probe', K)
    el = g.elem(x)
    if not (isinstance(el, tuple) and len(el) == 2 and isinstance(
            el[0], Key) and el[0].e.eq(x) and isinstance(el[1], Key)):
        return None
    e = el[1].e
    return PairSet(g.dom, lambda y: sub(e, (x, y)))


def seg_numsum(I, s):
    if hasattr(s, 'sum'):
        return s.sum(I, lambda el: I.num(el))
    x = fresh('x', s.sort)
    sv = len(I.st.pc)
    I.st.pc.append(('d', s.dom(x)))
    nm = len(I.trail[1])
    try:
        e = I.num(s.elem(x))
    finally:
        del I.st.pc[sv:]
    if len(I.trail[1]) != nm:
        raise Unsupported('sum of values of mixed kinds')
    return mksum(x, s.dom(x), e)


def tuple_of(I, segs):
    if len(segs) == 1 and segs[0].ordered:
        # a tuple built element by element from another sequence
        s = segs[0]
        t = I.fresh('tupmap', K)
        I.st.assume(istup(t))
        tin, te = fn('tin', K, I_SORT, BOOL), fn('telem', K, I_SORT, K)
        I.st.facts.append(Fact('tuple built', (I_SORT,), lambda i: And(
            tin(t, i) == s.dom(i),
            Implies(s.dom(i), te(t, i) == I.key(s.elem(i))))))
        src = I.deref(s.src) if s.src is not None else None
        if isinstance(src, Key):
            I.st.assume(tlen(t) == tlen(src.e))
        return Key(t)
    raise Unsupported('tuple of a generated sequence')


from .vals import I as I_SORT      # noqa: E402


def filter_seg(I, f, s):
    if s.kind == 'one':
        if I.branch(I.truth(I.call(f, [s.val], {}) if f is not None
                            else s.val)):
            return s
        return Seg('gen', sort=K, dom=lambda x: FALSE,
                   elem=lambda x: Key(x))
    x = fresh('x', s.sort)
    stp = I.st.copy()
    stp.pc.append(('d', s.dom(x)))
    outs = I.explore(stp, lambda: I.truth(I.call(f, [s.elem(x)], {})))
    c = FALSE
    for o in outs:
        if o.kind == 'exc':
            raise Unsupported('a filter may raise')
        c = Or(c, And(conj(o.bconds()), o.val))
        if changed(stp, o.st, set()):
            raise Unsupported('a filter with effects')
    c = lsimp(c)
    return Seg('gen', sort=s.sort,
               dom=lambda y: And(s.dom(y), sub(c, (x, y))), elem=s.elem,
               src=s.src, ordered=False)


def external(I, mod, name, args, kw):
    from .interp import PyExc
    a = [I.deref(x) for x in args]
    h = I.contracts.get('ext %s.%s' % (mod, name))
    if h:
        return h(I, None, args, kw, None)
    if mod == 'math':
        if name == 'sqrt':
            e = I.num(a[0])
            if I.branch(e < 0):
                raise PyExc('ValueError')
            return Num(sqrt_(e))
        if name == 'exp':
            return Num(exp_(I.num(a[0])))
        if name == 'log':
            e = I.num(a[0])
            if I.branch(e <= 0):
                raise PyExc('ValueError')
            return Num(log_(e))
        if name == 'pow':
            return I.binop(ast.Pow(), a[0], a[1])
        if name == 'isnan':
            if isinstance(a[0], Key):
                if not I.branch(isnumt(a[0].e)):
                    raise PyExc('TypeError')
                return Bl(isnan_(a[0].e))
            I.num(a[0])
            return False
        if name == 'fsum':
            return builtin(I, 'sum', args, {})
    if mod == 'random':
        if name == 'random':
            e = I.fresh('rnd', REAL)
            I.st.assume(And(e >= 0, e < 1))
            return Num(e)
        if name == 'uniform':
            lo, hi = I.num(a[0]), I.num(a[1])
            e = I.fresh('rnd', REAL)
            I.st.assume(Implies(lo <= hi, And(e >= lo, e <= hi)))
            I.st.assume(Implies(lo < hi, e < hi))
            return Num(e)
        if name in ('normalvariate', 'gauss'):
            I.num(a[0])
            I.num(a[1])
            return Num(I.fresh('rnd', REAL))
        if name == 'shuffle':
            d = a[0]
            hh = getattr(d, 'py_shuffle', None)
            if hh:
                return hh(I)
            if isinstance(d, Obj) and isinstance(I.rec(d), RecList):
                r = unordered(I.rec(d))
                if r is not None:
                    I.st.heap[d.oid] = r
                return None
        if name == 'choice':
            segs = I.iterate(a[0])
            tot = ZERO
            for s in segs:
                tot = tot + (ONE if s.kind == 'one' else
                             I.seg_sum(s, lambda el: ONE))
            if not segs or not I.branch(lsimp(tot) > 0):
                raise PyExc('IndexError')
            c = I.choose(len(segs))
            s = segs[c]
            if s.kind == 'one':
                return s.val
            w = I.fresh('chosen', s.sort)
            I.st.pc.append(('b', s.dom(w)))
            return s.elem(w)
    if mod == 'itertools' and name == 'combinations' and a[1] == 2:
        segs = I.iterate(a[0])
        x = fresh('x', K)
        if len(segs) != 1 or segs[0].kind != 'gen' or not segs[0].sort.eq(
                K) or not isinstance(segs[0].elem(x), Key) or not segs[
                    0].elem(x).e.eq(x):
            raise Unsupported('pairs of other things')
        dom = segs[0].dom
        IX = I_SORT
        isp, at = freshfn('pair', IX, BOOL), freshfn('pair of', K, K, IX)
        lf, rt = freshfn('left', IX, K), freshfn('right', IX, K)
        I.st.facts.append(Fact('pairs are of two elements', (IX,), lambda p:
                               Implies(isp(p), And(dom(lf(p)), dom(rt(p)),
                                                   lf(p) != rt(p))),
                               trig=on_apps(isp, lf, rt)))
        I.st.facts.append(Fact('every two elements are a pair', (K, K),
                               lambda x, y: Implies(And(
                                   dom(x), dom(y), x != y), And(
                                       at(x, y) == at(y, x), isp(at(x, y)),
                                       Or(And(lf(at(x, y)) == x,
                                              rt(at(x, y)) == y),
                                          And(lf(at(x, y)) == y,
                                              rt(at(x, y)) == x)))),
                               trig=on_apps(at)))
        return Dom([Seg('gen', sort=IX, dom=isp, elem=lambda p: (
            Key(lf(p)), Key(rt(p))))])
    raise Unsupported('%s.%s' % (mod, name))
