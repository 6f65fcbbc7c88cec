"""Values, heap records and the path state of the interpreter."""
from .sym import *

I = z3.DeclareSort('I')       # positions of a sequence given from outside


class Num(object):
    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'Num(%s)' % self.e


class Bl(object):
    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'Bl(%s)' % self.e


class Key(object):
    """an arbitrary python value"""
    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'Key(%s)' % self.e


class Ref(object):
    """a concept in the symbolic heap; cls = (module name, class) or None"""
    def __init__(self, e, cls=None):
        self.e, self.cls = e, cls

    def __repr__(self):
        return 'Ref(%s)' % self.e


class TabV(object):
    """a concept table as a whole (tree layer)"""
    def __init__(self, owner):
        self.owner = owner


class Obj(object):
    """handle of a heap record"""
    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return 'Obj(%s)' % self.oid


class Row(object):
    """table row seen through its table: alias of av_counts[a]"""
    def __init__(self, tab, a):
        self.tab, self.a = tab, a

    def __repr__(self):
        return 'Row(%s,%s)' % (self.tab, self.a)


class Cell(object):
    """a numeric summary living in a table row or in a dict of summaries"""
    def __init__(self, oid, args):
        self.oid, self.args = oid, args


class Opaque(object):
    """placeholder for loop-carried state of unknown shape"""
    def __init__(self, what):
        self.what = what


class Fn(object):
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class ClassRef(object):
    def __init__(self, mod, name):
        self.mod, self.name = mod, name


class ModRef(object):
    def __init__(self, name):
        self.name = name


class Exc(object):
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args


class SetV(object):
    """immutable view of a set: membership over one sort"""
    def __init__(self, sort, mem):
        self.sort, self.mem = sort, mem


class Dom(object):
    """something iterable: list of segments"""
    def __init__(self, segs):
        self.segs = segs


class PairSet(object):
    """an immutable set of (key, value) pairs with distinct keys"""
    def __init__(self, has, val):
        self.has, self.val = has, val

    def py_iter(self, J):
        return [Seg('gen', sort=K, dom=self.has,
                    elem=lambda x: (Key(x), Key(self.val(x))))]


class Seg(object):
    """one: a single value; gen: all x of sort with dom(x) (elem(x))"""
    def __init__(self, kind, val=None, sort=None, dom=None, elem=None,
                 ordered=False, src=None, x=None):
        self.kind, self.val, self.sort = kind, val, sort
        self.dom, self.elem, self.ordered = dom, elem, ordered
        self.src = src


# ---------------------------------------------------------------- records

class Rec(object):
    pass


class RecObj(Rec):
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def set(self, k, v):
        f = dict(self.fields)
        f[k] = v
        return RecObj(self.cls, f)


class RecList(Rec):
    """parts: tuple of Seg; sorted: None or 'desc'/'asc'"""
    def __init__(self, parts, sort=None):
        self.parts, self.sort = tuple(parts), sort


class RecC(Rec):
    """dict with python constants as keys"""
    def __init__(self, items):
        self.items = items


class RecComp(Rec):
    """components: name -> (argument sorts, result sort, closure)"""
    kind = 'comp'
    LAY = {}

    def __init__(self, comps, kind, **info):
        self.comps, self.kind = comps, kind
        self.info = info

    def get(self, n, *args):
        return self.comps[n](*args)

    def upd(self, **new):
        c = dict(self.comps)
        c.update(new)
        return RecComp(c, self.kind, **self.info)


LAYOUT = {
    # table of a concept: attribute -> value -> count / summary
    'tab': {'has1': ((K,), BOOL), 'has2': ((K, K), BOOL),
            'cnt': ((K, K), REAL), 's1': ((K, K), REAL),
            's2': ((K, K), REAL)},
    'kk': {'has': ((K,), BOOL), 'val': ((K,), K)},
    # dict of dicts holding arbitrary values
    'ktab': {'has1': ((K,), BOOL), 'has2': ((K, K), BOOL),
             'val': ((K, K), K)},
    'kn': {'has': ((K,), BOOL), 'num': ((K,), REAL)},
    'kcv': {'has': ((K,), BOOL), 'n': ((K,), REAL), 's1': ((K,), REAL),
            's2': ((K,), REAL)},
    'kr': {'has': ((K,), BOOL), 'ref': ((K,), R)},
    'set': {'mem': ((K,), BOOL)},
    'rset': {'mem': ((R,), BOOL)},
    # the concepts of a tree; x is one (any) additive coordinate of av_counts
    'heap': {'alive': ((R,), BOOL), 'parent': ((R,), R), 'tree': ((R,), R),
             'count': ((R,), REAL), 'x': ((R,), REAL),
             'ch': ((R, R), BOOL)},
    'cv': {'n': ((), REAL), 's1': ((), REAL), 's2': ((), REAL)},
}


class RecAlias(Rec):
    def __init__(self, target, orig=None):
        self.target, self.orig = target, orig


TABS = ('tab', 'ktab')


class State(object):
    def __init__(self):
        self.pc = []          # (tag, cond); tag 'b' branch, 'a' assumption
        self.facts = []
        self.env = {}
        self.heap = {}
        self.cls = {}         # class attributes, module globals
        self.events = ()

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.facts = list(self.facts)
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.cls = dict(self.cls)
        s.events = self.events
        return s

    def conds(self):
        return [c for _, c in self.pc]

    def assume(self, c):
        if not is_true(c):
            self.pc.append(('a', c))


_oid = [0]


def new_oid():
    _oid[0] += 1
    return _oid[0]


def empty_comps(kind):
    lay = LAYOUT[kind]
    out = {}
    for n, (args, res) in lay.items():
        if res.eq(BOOL):
            out[n] = lambda *a: FALSE
        elif res.eq(REAL):
            out[n] = lambda *a: ZERO
        elif res.eq(K):
            out[n] = lambda *a: KNONE
        else:
            out[n] = lambda *a: NULL
    return out


def sym_comps(kind, prefix):
    lay = LAYOUT[kind]
    out = {}
    for n, (args, res) in lay.items():
        if args:
            f = freshfn('%s.%s' % (prefix, n), *(list(args) + [res]))
            out[n] = f
        else:
            c = fresh('%s.%s' % (prefix, n), res)
            out[n] = (lambda cc: lambda: cc)(c)
    return out


# ----------------------------------------------------- values and terms

def val_map(v, f):
    """apply f to all z3 terms inside a value"""
    if isinstance(v, Num):
        return Num(f(v.e))
    if isinstance(v, Bl):
        return Bl(f(v.e))
    if isinstance(v, Key):
        return Key(f(v.e))
    if isinstance(v, Ref):
        r = Ref(f(v.e), v.cls)
        r.__dict__.update({k: x for k, x in v.__dict__.items()
                           if k not in ('e', 'cls')})
        return r
    if isinstance(v, tuple):
        return tuple(val_map(x, f) for x in v)
    if isinstance(v, Row):
        return Row(v.tab, f(v.a))
    if isinstance(v, Cell):
        return Cell(v.oid, tuple(f(a) for a in v.args))
    h = getattr(v, 'map_terms', None)
    if h:
        return h(f)
    return v


def val_terms(v):
    out = []

    def f(e):
        out.append(e)
        return e
    val_map(v, f)
    return out


def is_num(v):
    return isinstance(v, Num) or (isinstance(v, (int, float))
                                  and not isinstance(v, bool))


def is_conc(v):
    return v is None or isinstance(v, (bool, int, float, str))


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (Num, Bl, Key)):
        return a.e.get_id() == b.e.get_id()
    if isinstance(a, Ref):
        return a.e.get_id() == b.e.get_id()
    if isinstance(a, Obj):
        return a.oid == b.oid
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if is_conc(a):
        return a == b
    if isinstance(a, Row):
        return a.tab == b.tab and a.a.get_id() == b.a.get_id()
    h = getattr(a, 'same_as', None)
    if h:
        return h(b)
    return False
