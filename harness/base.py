"""Run-time side of the contracts: generators, independent oracles and snapshots.

Everything here talks to the real code in /repo through its public surface only
(trees, nodes and their documented attributes, preprocessors, clustering and
evaluation functions).  Oracles are computed from the definition, never by
calling the function under test.
"""
import math
import random
import copy


class Violation(Exception):
    def __init__(self, what, **data):
        super(Violation, self).__init__(what)
        self.what = what
        self.data = data


def req(cond, what, **data):
    if not cond:
        raise Violation(what, **data)


def close(a, b, tol=1e-7):
    if a == b:
        return True
    try:
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    except TypeError:
        return False


CV = '#ContinuousValue#'


def mods():
    import concept_formation.cobweb as cobweb
    import concept_formation.cobweb3 as cobweb3
    import concept_formation.trestle as trestle
    return cobweb, cobweb3, trestle


def is_num(v):
    return (not isinstance(v, bool)) and isinstance(v, (int, float)) and v == v


# ---------------------------------------------------------------- generators
NOM = ['x', 'y', 'z', 'w', '', True, False, ('t', 1), 'longer value', '0']
NUMS = [0, 1, 2, 3, -1, 0.5, 0.1, -2.5, 10, 100.25, 1e3, 7, 7.0]
ATTRS = ['a', 'b', 'c', 'd', 'e?', '?v', '_h', '_id', ('r', 'a'), ('_', 'a'),
         ('r', ('s', 'b')), ('dist', 'a', 'b'), ('_rel', 'b'), ('dist', 'b'),
         ('r', '_h'), ('_', ('_x', 'a'))]


def gen_value(rng, numeric, rich=True):
    if numeric and rng.random() < 0.5:
        if rng.random() < 0.3:
            return round(rng.uniform(-20, 20), rng.choice([0, 1, 3]))
        return rng.choice(NUMS)
    if rich:
        return rng.choice(NOM)
    return rng.choice(NOM[:4])


def gen_flat_stream(rng, n, numeric):
    """A list of instances over a small vocabulary with repeats, near repeats
    (one attribute changed / dropped), sparse, hidden-only and empty ones."""
    style = rng.randrange(5)
    k = rng.randint(1, 5)
    attrs = rng.sample(ATTRS[:6] if style < 2 else ATTRS, k)
    if style >= 2 and rng.random() < 0.6 and '_h' not in attrs:
        attrs.append('_h')
    nv = rng.randint(1, 5)
    vals = {a: [gen_value(rng, numeric) for _ in range(nv)] for a in attrs}
    if numeric and rng.random() < 0.3:       # one purely numeric attribute
        vals[attrs[0]] = [rng.choice(NUMS) for _ in range(3)]
    if rng.random() < 0.12:                  # many values
        vals[attrs[-1]] = ['v%d' % i for i in range(rng.randint(6, 14))]
    if numeric and rng.random() < 0.12:      # unusual magnitude
        f = rng.choice([1e-4, 1e-3, 1e4])
        vals[attrs[0]] = [f * rng.choice(NUMS) for _ in range(4)]
    out = []
    pmiss = rng.choice([0.0, 0.0, 0.2, 0.5])
    for i in range(n):
        r = rng.random()
        if out and r < 0.25:
            inst = dict(rng.choice(out))
        elif out and r < 0.5:
            inst = dict(rng.choice(out))
            a = rng.choice(attrs)
            if a in inst and rng.random() < 0.5:
                del inst[a]
            else:
                inst[a] = rng.choice(vals[a])
        else:
            inst = {a: rng.choice(vals[a]) for a in attrs
                    if rng.random() >= pmiss}
        if rng.random() < 0.03:
            inst = {}
        if style == 4 and rng.random() < 0.2:
            inst = {a: inst[a] for a in inst if a[0] == '_'}
        out.append(inst)
    return out


def gen_struct(rng, names=None, depth=0):
    """A structured (Trestle) instance: components, relations, plain and
    hidden attributes, numerics."""
    inst = {}
    ncomp = rng.randint(0, 3)
    comps = ['?c%d' % i for i in rng.sample(range(9), ncomp)]
    for c in comps:
        comp = {}
        for a in rng.sample(['color', 'size', 'x', '_note'], rng.randint(1, 3)):
            comp[a] = (rng.choice([1, 2, 3.5, 10, -4]) if a in ('size', 'x')
                       else rng.choice(['red', 'blue', 'green']))
        if rng.random() < 0.2:
            comp['sub'] = {'color': rng.choice(['red', 'blue']), 'k': 1}
        if rng.random() < 0.25:
            comp['?s' + c[2:]] = {'color': rng.choice(['red', 'blue'])}
        inst[c] = comp
    for i in range(rng.randint(0, 3)):
        if len(comps) >= 1:
            a, b = rng.choice(comps), rng.choice(comps)
            rel = rng.choice([('on', a, b), ('big', a, 'thing'),
                              ('dist', a, b), ('_near', a, b),
                              ('rel', ('color', a), ('color', b))])
            inst[rel] = rng.choice([True, 'yes', 'no', 2, 3.5])
            if len(rel) > 2 and rng.random() < 0.2:
                inst[rel] = {'color': rng.choice(['red', 'blue']), 'k': 1}
    if rng.random() < 0.7:
        inst['label'] = rng.choice(['A', 'B', 'C'])
    if rng.random() < 0.4:
        inst['num'] = rng.choice([1, 2, 3, 4.5])
    if rng.random() < 0.3:
        inst['_hid'] = rng.choice(['p', 'q', {'color': 'red'}])
    if rng.random() < 0.2:
        inst['?v%d' % rng.randint(0, 3)] = rng.choice(['red', 2, 3.5])
    if not inst:
        inst['label'] = 'A'
    return inst


def gen_struct_stream(rng, n):
    out = []
    for i in range(n):
        if out and rng.random() < 0.3:
            out.append(copy.deepcopy(rng.choice(out)))
        else:
            out.append(gen_struct(rng))
    return out


def make_tree(rng, kind):
    cobweb, cobweb3, trestle = mods()
    if kind == 'cobweb':
        return cobweb.CobwebTree()
    sc = rng.choice([0.5, 0.5, 1.0, 2, False])
    inner = rng.choice([True, True, False])
    if kind == 'cobweb3':
        return cobweb3.Cobweb3Tree(scaling=sc, inner_attr_scaling=inner)
    return trestle.TrestleTree(scaling=sc, inner_attr_scaling=inner)


def gen_history(rng, kind=None, maxn=25):
    kind = kind or rng.choice(['cobweb', 'cobweb3', 'cobweb3', 'trestle'])
    if kind == 'trestle':
        n = rng.randint(1, max(2, min(8, maxn // 3)))
        return kind, gen_struct_stream(rng, n)
    n = rng.randint(1, maxn)
    return kind, gen_flat_stream(rng, n, kind == 'cobweb3')


def grown_tree(rng, kind=None, maxn=25):
    kind, stream = gen_history(rng, kind, maxn)
    tree = make_tree(rng, kind)
    for inst in stream:
        tree.ifit(inst)
    return kind, stream, tree


def grow_until(rng, kind, want, tries=12, maxn=25):
    for _ in range(tries):
        k, s, t = grown_tree(rng, kind, maxn)
        if want(t):
            return k, s, t
    return None


# ------------------------------------------------------------------ views
def cv_view(cv):
    return (cv.num, cv.mean, cv.meanSq)


def is_cv(x):
    return hasattr(x, 'meanSq') and hasattr(x, 'num')


def table_view(node):
    """{attr: {val: count}} with numeric summaries as ('cv', n, sum, sumsq)"""
    out = {}
    for a, row in node.av_counts.items():
        out[a] = {}
        for v, c in row.items():
            if is_cv(c):
                out[a][v] = ('cv', c.num, c.num * c.mean,
                             c.meanSq + c.num * c.mean * c.mean)
            else:
                out[a][v] = c
    return out


def add_cell(x, y):
    if isinstance(x, tuple) or isinstance(y, tuple):
        x = x if isinstance(x, tuple) else ('cv', 0, 0, 0)
        y = y if isinstance(y, tuple) else ('cv', 0, 0, 0)
        return ('cv', x[1] + y[1], x[2] + y[2], x[3] + y[3])
    return x + y


def table_add(t, u):
    out = {a: dict(r) for a, r in t.items()}
    for a, r in u.items():
        row = out.setdefault(a, {})
        for v, c in r.items():
            row[v] = add_cell(row[v], c) if v in row else c
    return out


def table_inc(t, inst, numeric):
    u = {}
    for a, v in inst.items():
        if numeric and is_num(v):
            u[a] = {CV: ('cv', 1, v, v * v)}
        else:
            u[a] = {v: 1}
    return table_add(t, u)


def cell_eq(x, y):
    if isinstance(x, tuple) != isinstance(y, tuple):
        return False
    if isinstance(x, tuple):
        return x[1] == y[1] and close(x[2], y[2], 1e-6) and \
            close(x[3], y[3], 1e-5)
    return x == y


def table_eq(t, u):
    """None when equal, else a description of the difference."""
    for a in set(t) | set(u):
        r, s = t.get(a), u.get(a)
        if r is None or s is None:
            return 'attribute %r on one side only' % (a,)
        for v in set(r) | set(s):
            if v not in r or v not in s:
                return 'value %r of %r on one side only' % (v, a)
            if not cell_eq(r[v], s[v]):
                return '%r / %r: %r vs %r' % (a, v, r[v], s[v])
    return None


def all_nodes(root, limit=100000):
    out, stack, seen = [], [root], set()
    while stack:
        n = stack.pop()
        if id(n) in seen:
            raise Violation('a concept is reached twice from the root')
        seen.add(id(n))
        out.append(n)
        stack.extend(n.children)
        if len(out) > limit:
            raise Violation('hierarchy does not end')
    return out


def snapshot(tree):
    """Exact structural snapshot of everything learned."""
    nodes = all_nodes(tree.root)
    snap = {'root': id(tree.root), 'nodes': {}}
    for n in nodes:
        snap['nodes'][id(n)] = (
            n.count, n.concept_id, id(n.parent) if n.parent is not None else None,
            id(n.tree) if n.tree is not None else None,
            tuple(id(c) for c in n.children),
            tuple((a, tuple((v, cv_view(c) if is_cv(c) else c)
                            for v, c in row.items()))
                  for a, row in n.av_counts.items()))
    sc = getattr(tree, 'attr_scales', None)
    if sc is not None:
        snap['scales'] = {a: cv_view(c) for a, c in sc.items()}
    snap['cfg'] = (getattr(tree, 'scaling', None),
                   getattr(tree, 'inner_attr_scaling', None))
    return snap


def snap_diff(s, t):
    if s == t:
        return None
    if s['root'] != t['root']:
        return 'the root changed'
    if s.get('scales') != t.get('scales'):
        return 'scaling statistics changed: %r -> %r' % (s.get('scales'),
                                                        t.get('scales'))
    if s['cfg'] != t['cfg']:
        return 'configuration changed'
    if set(s['nodes']) != set(t['nodes']):
        return 'the set of concepts changed'
    for k in s['nodes']:
        if s['nodes'][k] != t['nodes'][k]:
            return 'a concept changed: %r -> %r' % (s['nodes'][k],
                                                    t['nodes'][k])
    return 'changed'


# ----------------------------------------------------------------- oracles
def c4_def(n):
    if n >= 30:
        return 1.0
    return math.sqrt(2.0 / (n - 1)) * math.exp(
        math.lgamma(n / 2.0) - math.lgamma((n - 1) / 2.0))


def ustd(n, msq):
    if n < 2:
        return 0.0
    return math.sqrt(max(msq, 0.0) / (n - 1)) / c4_def(n)


def cv_stats(cell):
    """(n, mean, msq) of a ('cv', n, sum, sumsq) cell"""
    _, n, s, ss = cell
    m = s / n
    return n, m, max(ss - n * m * m, 0.0)


def attr_scale(tree, attr):
    """the value an attribute's numeric deviations are divided by"""
    if tree is None or not getattr(tree, 'scaling', None):
        return 1.0
    inner = attr
    if isinstance(attr, tuple) and tree.inner_attr_scaling:
        inner = attr[0]
    if inner not in tree.attr_scales:
        return 1.0
    c = tree.attr_scales[inner]
    return (1 / tree.scaling) * ustd(c.num, c.meanSq)


def visible(a):
    return a[0] != '_'


def ecg_def(count, table, tree):
    n = 0
    tot = 0.0
    for a, row in table.items():
        if not visible(a):
            continue
        n += 1
        for v, c in row.items():
            if isinstance(c, tuple):
                k, m, msq = cv_stats(c)
                sc = attr_scale(tree, a)
                if sc <= 0:
                    sc = 1.0
                sd = ustd(k, msq) / sc
                if sd < 1e-7:
                    sd = 0.0
                std = math.sqrt(sd * sd + 1 / (4 * math.pi))
                p = k / count
                tot += p * p / (2 * math.sqrt(math.pi) * std)
            else:
                p = c / count
                tot += p * p
    return tot / n if n else 0.0


def cu_def(parent, children, tree):
    """parent, children: (count, table) views"""
    if not children:
        return 0.0
    pc, pt = parent
    s = sum(c / pc * ecg_def(c, t, tree) for c, t in children)
    return (s - ecg_def(pc, pt, tree)) / len(children)


def nview(node):
    return (node.count, table_view(node))


def vinc(view, inst, numeric):
    return (view[0] + 1, table_inc(view[1], inst, numeric))


def vadd(v, w):
    return (v[0] + w[0], table_add(v[1], w[1]))


EMPTY = (0, {})


def numeric_kind(tree):
    return hasattr(tree, 'attr_scales')
