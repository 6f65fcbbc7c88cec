"""Run-time contract checks: C05, C06, C12, C13, C14, C16, C17, C18."""
import copy
import itertools
import json
import math
import os
import random
import shutil
import tempfile
from base import *   # noqa
import subprocess
import sys
from props_tree import short, abstr, flat_form, possible_leaves, flat_query


# ------------------------------------------------------------------ C05
def gen_floats(rng, n):
    style = rng.randrange(6)
    base = rng.choice([0, 0, 5, -3, 1000.5])
    if style == 0:
        return [base] * n
    if style == 1:
        return [rng.choice([base, base + 1]) for _ in range(n)]
    if style == 2:
        return [rng.randint(-5, 5) for _ in range(n)]
    return [base + rng.uniform(-10, 10) for _ in range(n)]


def batch(xs):
    n = len(xs)
    if n == 0:
        return 0, 0.0, 0.0
    m = math.fsum(xs) / n
    return n, m, math.fsum((x - m) ** 2 for x in xs)


def cv_is(cv, xs, what):
    n, m, q = batch(xs)
    req(cv.num == n, '%s: %r values counted, %r absorbed' % (what, cv.num, n))
    req(close(cv.mean, m, 1e-7), '%s: mean %r, data %r' % (what, cv.mean, m))
    req(close(cv.meanSq, q, 1e-6), '%s: sum of squared deviations %r, data %r'
        % (what, cv.meanSq, q))


def case_C05(rng):
    from concept_formation.continuous_value import ContinuousValue
    from concept_formation import utils
    n = rng.choice([0, 1, 1, 2, 2, 3, 5, 8, 28, 29, 30, 31, 32, 60])
    if rng.random() < 0.04:
        n = rng.randint(800, 3000)
    xs = gen_floats(rng, n)
    if rng.random() < 0.5:
        cv = ContinuousValue()
        for x in xs:
            cv.update(x)
        cv_is(cv, xs, 'update')
    else:
        cv = ContinuousValue()
        x0 = list(xs)
        cv.update_batch(xs)
        req(xs == x0, 'update_batch modified the data')
        cv_is(cv, xs, 'batch update')
    # partition and combine in random order / grouping
    k = rng.randint(1, 5)
    parts = [[] for _ in range(k)]
    lop = n > 20 and rng.random() < 0.6
    for x in xs:
        parts[0 if lop and rng.random() < (0.9 if n < 100 else 0.9995)
              else rng.randrange(k)].append(x)
    cvs = []
    for p in parts:
        c = ContinuousValue()
        c.update_batch(p)
        cvs.append((c, list(p)))
    while len(cvs) > 1:
        rng.shuffle(cvs)
        (a, pa), (b, pb) = cvs[0], cvs[1]
        bv = cv_view(b)
        ca = a.copy()
        a.combine(b)
        req(cv_view(b) == bv, 'combine changed the other summary')
        cv_is(ca, pa, 'copy')
        cv_is(a, pa + pb, 'combine')
        cvs = [(a, pa + pb)] + cvs[2:]
    c = cvs[0][0]
    cp = c.copy()
    req(cp is not c and cv_view(cp) == cv_view(c), 'copy differs')
    cp.update(3.25)
    cv_is(c, cvs[0][1], 'after updating a copy')
    cp2 = c.copy()
    c2v = cv_view(cp2)
    c.update(1.5)
    req(cv_view(cp2) == c2v, 'a copy followed the original')
    # derived deviations
    if n >= 1:
        N, m, q = batch(xs)
        sd = math.sqrt(q / N)
        us = ustd(N, q)
        req(close(cv.biased_std(), sd, 1e-5), 'biased deviation %r, data %r'
            % (cv.biased_std(), sd))
        req(close(cv.unbiased_std(), us, 1e-5), 'corrected deviation %r, data %r'
            % (cv.unbiased_std(), us))
        if N < 2:
            req(cv.unbiased_std() == 0, 'corrected deviation of one value')
        req(close(cv.unbiased_mean(), m), 'mean')
        s = rng.choice([0.5, 2, 1, 0, -1, 3.0])
        e = s if s > 0 else 1.0
        req(close(cv.scaled_unbiased_std(s), us / e, 1e-5), 'scaled deviation')
        req(close(cv.scaled_biased_std(s), sd / e, 1e-5), 'scaled deviation')
        sh = rng.choice([0, 1.5, -2])
        req(close(cv.scaled_unbiased_mean(sh, s), (m - sh) / e, 1e-6),
            'scaled mean')
        req(close(utils.mean(xs), m, 1e-9), 'mean helper')
        req(close(utils.std(xs), sd, 1e-5), 'std helper')
        if N >= 2:
            req(close(utils.c4(N), c4_def(N), 1e-6), 'correction factor at %d' % N)
    else:
        for f in (utils.mean, utils.std):
            try:
                f([])
            except ValueError:
                pass
            else:
                raise Violation('statistic of nothing')
        req(cv.unbiased_std() == 0, 'corrected deviation of nothing')
    k = rng.randint(2, 40)
    req(close(utils.c4(k), c4_def(k), 1e-6), 'correction factor at %d' % k)
    if n >= 1:
        ys = gen_floats(rng, rng.choice([1, 2, 5, 31]))
        o = ContinuousValue()
        o.update_batch(ys)
        v1, v2 = (ustd(n, batch(xs)[2]) ** 2 + 1 / (4 * math.pi),
                  ustd(len(ys), batch(ys)[2]) ** 2 + 1 / (4 * math.pi))
        mu = batch(xs)[1] - batch(ys)[1]
        want = math.exp(-mu * mu / (2 * (v1 + v2))) / math.sqrt(
            2 * math.pi * (v1 + v2))
        got = cv.integral_of_gaussian_product(o)
        req(close(got, want, 1e-6), 'overlap of Gaussians %r, formula %r'
            % (got, want))
    return dict(nontrivial=n >= 2, sample=short(xs, 200))


# ------------------------------------------------------------------ C06
def case_C06(rng):
    kind, stream, tree = grown_tree(rng, maxn=20)
    nodes = [n for n in all_nodes(tree.root) if n.count > 0]
    for n in rng.sample(nodes, min(5, len(nodes))):
        attrs = list(n.av_counts)
        for a in rng.sample(attrs, min(4, len(attrs))) + ['unseen']:
            row = n.av_counts.get(a, {})
            tot = 0.0
            for v, c in row.items():
                w = (c.num if is_cv(c) else c) / n.count
                if not is_cv(c):
                    p = n.probability(a, v)
                    req(close(p, w, 1e-9), 'probability of %r=%r is %r, counts '
                        'give %r' % (a, v, p, w))
                    req(0 <= p <= 1, 'probability %r' % p)
                tot += w
            pm = n.probability(a, None)
            req(-1e-12 <= pm <= 1 + 1e-12, 'probability of missing %r' % pm)
            req(close(tot + pm, 1.0, 1e-9), 'probabilities sum to %r' % (tot + pm))
            req(n.probability(a, 'never seen!') == 0, 'unseen value')
            req(n.probability('no such attribute', 'x') == 0, 'unseen attribute')
            req(n.probability('no such attribute', None) == 1,
                'missing probability of an unseen attribute')
            for an in (True, False):
                ch = n.get_weighted_values(a, an)
                if a not in n.av_counts:
                    req(len(ch) == 1 and ch[0][0] is None and ch[0][1] == 1,
                        'choices of an unseen attribute %r' % (ch,))
                    continue
                d = {}
                for v, w in ch:
                    req(v not in d, 'choice listed twice')
                    d[v] = w
                for v, c in row.items():
                    req(v in d and close(d[v], (c.num if is_cv(c) else c) /
                                         n.count, 1e-9), 'weight of %r' % (v,))
                if an:
                    req(None in d and close(d[None], pm, 1e-9), 'missing weight')
                    req(len(d) == len(row) + 1, 'extra choices')
                    req(close(sum(d.values()), 1, 1e-9), 'weights sum')
                else:
                    req(None not in d and len(d) == len(row), 'extra choices')
            if kind != 'cobweb':
                alone = None
                if rng.random() < 0.1:
                    alone = n.__class__()
                    alone.update_counts_from_node(n)
                    if alone.tree is not None:
                        alone = None
                for x in (0.0, 1, -3.5, 50):
                    if alone is not None and CV in row:
                        c = row[CV]
                        sd = ustd(c.num, c.meanSq)
                        var = sd * sd + 1 / (2 * math.pi)
                        want = (c.num / n.count) * math.exp(
                            -(x - c.mean) ** 2 / (2 * var)) / \
                            math.sqrt(2 * math.pi * var)
                        req(close(alone.probability(a, x), want, 1e-6),
                            'density of %r=%r in a concept without a tree'
                            % (a, x))
                    p = n.probability(a, x)
                    if CV not in row:
                        req(p == 0, 'density of a value never seen as number')
                        continue
                    c = row[CV]
                    if tree.scaling:
                        inner = a[0] if isinstance(a, tuple) and \
                            tree.inner_attr_scaling else a
                        g = tree.attr_scales[inner]
                        sc = (1 / tree.scaling) * ustd(g.num, g.meanSq)
                        if sc == 0:
                            sc = 1.0
                        shift = g.mean
                    else:
                        sc, shift = 1.0, 0.0
                    sd = ustd(c.num, c.meanSq) / sc
                    var = sd * sd + 1 / (2 * math.pi)
                    z = (x - shift) / sc - (c.mean - shift) / sc
                    want = (c.num / n.count) * math.exp(-z * z / (2 * var)) / \
                        math.sqrt(2 * math.pi * var)
                    req(close(p, want, 1e-6), 'density of %r=%r is %r, formula %r'
                        % (a, x, p, want))
                    req(0 <= p <= 1 + 1e-9, 'density %r' % p)
    return dict(nontrivial=bool(nodes), sample=short(stream))


# ------------------------------------------------------------------ C12
def comp_vars(a):
    if isinstance(a, tuple):
        return set().union(*[comp_vars(x) for x in a]) if a else set()
    return {a} if isinstance(a, str) and a[:1] == '?' else set()


def ren(a, m):
    if isinstance(a, tuple):
        return tuple(m[x] if x in m else ren(x, m) if isinstance(x, tuple)
                     else x for x in a)
    return a


def rflat(inst, m):
    return {(m[a] if a in m else ren(a, m)): v for a, v in inst.items()}


def case_C12(rng):
    import concept_formation.structure_mapper as sm
    from concept_formation.trestle import TrestleTree
    from concept_formation.preprocessor import rename_relation
    tree = TrestleTree()
    for i in range(rng.randint(1, 4)):
        tree.ifit(gen_struct(rng))
    base = rng.choice([tree.root, rng.choice(all_nodes(tree.root))])
    flat = flat_form(gen_struct(rng))     # variables named ?zzN
    if rng.random() < 0.2:
        flat = {k: v for k, v in flat.items() if rng.random() < 0.7} or flat
    if rng.random() < 0.3:
        vs = sorted(set().union(*[comp_vars(a) for a in flat])) + ['?zz99']
        for _ in range(rng.randint(1, 2)):
            flat[rng.choice(vs)] = rng.choice(['x', 'y', True])
    f0 = copy.deepcopy(flat)
    s0 = snapshot(tree)
    t = sm.StructureMapper(base)
    if rng.random() < 0.25:
        # a start that also speaks of names neither side has
        vs = sorted(set().union(*[comp_vars(a) for a in flat]))
        cs = sorted(set().union(*[comp_vars(a) for a in base.av_counts]))
        rng.shuffle(cs)
        start = dict(zip(vs, cs))
        start.update({'?stray1': cs[len(vs)] if len(cs) > len(vs) else
                      '?stray2'})
        if vs and rng.random() < 0.5:
            start[vs[0]] = '?stray3'
        out = t.transform(flat, frozenset(start.items()))
    else:
        out = t.transform(flat)
    req(flat == f0 and list(flat) == list(f0), 'transform modified the instance')
    d = snap_diff(s0, snapshot(tree))
    req(d is None, 'finding a mapping changed the concept: %s' % d)
    m = t.get_mapping()
    names = set().union(*[comp_vars(a) for a in flat]) if flat else set()
    req(len(set(m.values())) == len(m), 'mapping %r is not one-to-one' % (m,))
    full = {x: m.get(x, x) for x in names}
    req(len(set(full.values())) == len(full),
        'two variables share a name after renaming: %r' % (full,))
    req(set(m) <= names, 'mapping renames what is not there: %r' % (m,))
    base_names = set().union(*[comp_vars(a) for a in base.av_counts]) \
        if base.av_counts else set()
    req(all(v in base_names or v == k for k, v in m.items()),
        'mapping invents names: %r' % (m,))
    req(out == rflat(flat, m), 'renamed instance %s, mapping gives %s'
        % (short(out), short(rflat(flat, m))))
    req(len(out) == len(flat), 'attributes lost in renaming')
    back = t.undo_transform(out)
    req(back == flat, 'undo gave %s for %s' % (short(back), short(flat)))
    # renaming helpers with arbitrary injective mappings
    vs = list(names)
    if vs:
        rng.shuffle(vs)
        tgt = ['?n%d' % i for i in range(len(vs))]
        part = vs[:rng.randint(0, len(vs))]
        mm = dict(zip(part, tgt))
        m0 = dict(mm)
        req(sm.rename_flat(flat, mm) == rflat(flat, mm), 'rename_flat')
        inv = {v: k for k, v in mm.items()}
        req(sm.rename_flat(sm.rename_flat(flat, mm), inv) == flat,
            'renaming back does not restore the instance')
        req(mm == m0 and flat == f0, 'rename_flat modified its arguments')
        for a in flat:
            if isinstance(a, tuple):
                req(rename_relation(a, mm) == ren(a, mm), 'rename_relation')
    # search moves
    bn = ['?b%d' % i for i in range(rng.randint(0, 3) if rng.random() < 0.8
                                    else rng.randint(4, 8))]
    iv = ['?i%d' % i for i in range(rng.randint(1, 4))]
    free = list(bn)
    rng.shuffle(free)
    mp = {}
    for o in iv:
        mp[o] = free.pop() if free and rng.random() < 0.7 else o
    unm = frozenset(free)
    node = sm.Node((frozenset(mp.items()), unm), extra=({}, None))
    prob = sm.StructureMappingOptProblem(
        (frozenset(mp.items()), unm), initial_cost=0.0, extra=({}, None))
    for _ in range(4):
        succ = list(prob.successors(node))
        for s in succ:
            sm_map, sm_un = s.state
            dd = dict(sm_map)
            req(len(dd) == len(sm_map) and set(dd) == set(iv),
                'a search step loses or duplicates a variable: %r' % (sm_map,))
            vals = list(dd.values())
            req(len(set(vals)) == len(vals),
                'a search step maps two variables to one name: %r' % (dd,))
            req(all(v in bn or v == k for k, v in dd.items()),
                'a search step invents a name: %r from %r' % (dd, mp))
            req(set(sm_un) == set(bn) - set(vals),
                'unmapped names %r with mapping %r' % (set(sm_un), dd))
        if not succ:
            break
        node = rng.choice(succ)
    return dict(nontrivial=len(m) > 0, sample=short(flat))


# ------------------------------------------------------------------ C13
class Names(object):
    def __init__(self):
        self.n = 0

    def __call__(self, p='?c'):
        self.n += 1
        return p + str(self.n)


VALS = ['red', 'blue', 1, 2.5, True, False, 'x y', '', 0, ('t',)]


def gen_doc(rng, nm, depth=0, lists=False, relations=True, variables=True):
    inst = {}
    comps = []
    many = rng.random() < 0.04
    for i in range(rng.randint(4, 8) if many else rng.randint(1, 3)):
        r = rng.random()
        if r < 0.35 and depth < (5 if rng.random() < 0.2 else 3):
            if variables and rng.random() < 0.7:
                k = nm('?c')
                comps.append(k)
            else:
                k = nm('comp')
            inst[k] = gen_doc(rng, nm, depth + 1, lists, False, variables)
        elif r < 0.45 and variables:
            inst[nm('?p')] = rng.choice(VALS)
        elif r < 0.55:
            inst[nm('_h')] = rng.choice(VALS)
        elif lists and r < 0.75:
            n = rng.randint(1, 4) if rng.random() < 0.85 else \
                rng.randint(5, 12)
            if rng.random() < 0.3:
                el = [{'color': rng.choice(['r', 'b']), 'n': j}
                      for j in range(n)]
                if variables and rng.random() < 0.6:
                    for e in el:
                        e[nm('?e')] = rng.choice(['v', {'w': 1}])
                if rng.random() < 0.5:
                    # lists and components inside list elements
                    for e in el:
                        x = rng.random()
                        if x < 0.3:
                            e['in'] = [rng.choice(['p', 'q'])
                                       for _ in range(rng.randint(1, 3))]
                        elif x < 0.5:
                            e['k'] = {'in': ['a', {'z': 'b'}], 'w': 2}
                        elif x < 0.6:
                            e['in'] = [{'deep': ['d', 'd']}, 'p']
            elif rng.random() < 0.2:
                el = [rng.choice(['p', ['q', 'r'], [['s'], {'t': 1}], 3])
                      for _ in range(n)]
            else:
                el = [rng.choice(['p', 'q', 3, 'p']) for _ in range(n)]
            inst[nm('lst')] = el
        else:
            inst[nm('at')] = rng.choice(VALS)
    if relations and depth == 0:
        pool = comps + ['thing', 'other']
        if variables and rng.random() < 0.5:
            # components named by their path (SubComponentProcessor's doc)
            pool = pool + comp_paths(inst) * 2
            for _ in range(rng.randint(0, 2)):
                pool.append((nm('?n'), rng.choice(comps or ['?top'])))
        for i in range(rng.randint(0, 3)):
            a, b = rng.choice(pool), rng.choice(pool)
            inst[rng.choice([('on' + str(i), a, b), ('r' + str(i), ('f', a), b),
                             ('q' + str(i), ('f', ('g', a)), ('h', b)),
                             ('u' + str(i), a, b, 'k')])] = rng.choice(
                VALS + [gen_doc(rng, nm, 2, lists, False, variables)])
    if rng.random() < 0.1:
        inst[nm('_hc')] = gen_doc(rng, nm, 2, lists, False, variables)
    return inst


def comp_paths(inst, outer=None):
    out = []
    for a in inst:
        if isinstance(inst[a], dict) and a[0] != '_':
            p = a if outer is None else (a, outer)
            if outer is not None and a[0] == '?':
                out.append(p)
            out += comp_paths(inst[a], p)
    return out


def same(a, b):
    """equality that tells True from 1"""
    if type(a) != type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def leaves(d):
    if isinstance(d, dict):
        return [x for v in d.values() for x in leaves(v)]
    if isinstance(d, list):
        return [x for v in d for x in leaves(v)]
    return [repr(d)]


def mixed(rng, d):
    if not isinstance(d, dict):
        return d
    ks = list(d)
    rng.shuffle(ks)
    return {k: mixed(rng, d[k]) for k in ks}


def roundtrip(pp, inst, name, keep=None, rng=None):
    i0 = copy.deepcopy(inst)
    out = pp.transform(inst)
    req(same(inst, i0), '%s.transform modified the instance' % name)
    if keep:
        keep(out)
    o0 = copy.deepcopy(out)
    if rng is not None and rng.random() < 0.4:
        # the order of the attributes carries no information
        out = mixed(rng, out)
    back = pp.undo_transform(out)
    if 'list' not in name:
        req(same(out, o0), '%s.undo_transform modified its argument' % name)
    req(same(back, i0), '%s: %s came back as %s'
        % (name, short(i0), short(back)))
    return out


def case_C13(rng):
    fresh_process('C13')
    import concept_formation.preprocessor as pp
    nm = Names()
    which = rng.choice(['std', 'flat', 'sub', 'tup', 'list', 'pipe', 'pipe'])
    cnt = [0]

    def g():
        cnt[0] += 1
        return '?g%d' % cnt[0]

    def mk(n):
        if n == 'std':
            return pp.NameStandardizer(g) if rng.random() < 0.7 else \
                pp.NameStandardizer()
        return {'flat': pp.Flattener, 'sub': pp.SubComponentProcessor,
                'tup': pp.Tuplizer, 'list': pp.ListProcessor}[n]()
    if which == 'std':
        inst = gen_doc(rng, nm, lists=rng.random() < 0.4)

        def keep(out):
            req(sorted(leaves(out)) == sorted(leaves(inst)), 'values changed')
            old = allvars(inst)
            new = allvars(out)
            req(len(old) == len(new), '%d variables became %d' %
                (len(old), len(new)))
            req(not (set(old) & set(new)), 'an old name survived')
        roundtrip(mk('std'), inst, 'renaming variables', keep, rng)
    elif which == 'flat':
        inst = gen_doc(rng, nm)

        def keep(out):
            req(not any(isinstance(v, dict) for v in out.values()),
                'flattened instance has components')
            req(sorted(leaves(out)) == sorted(leaves(inst)), 'values changed')
        roundtrip(mk('flat'), inst, 'flattening', keep, rng)
    elif which == 'sub':
        inst = pp.Flattener().transform(gen_doc(rng, nm))

        def keep(out):
            for a, v in inst.items():
                pass
            rest = [repr(v) for a, v in out.items() if not
                    (isinstance(a, tuple) and len(a) == 3 and
                     a[0] == 'has-component')]
            req(sorted(rest) == sorted(repr(v) for v in inst.values()),
                'values changed')
        roundtrip(mk('sub'), inst, 'component lifting', keep, rng)
    elif which == 'tup':
        def rel(d):
            parts = [rng.choice(['on', 'ab', 'x1', '?o1', 'long-name'])]
            for i in range(rng.randint(1, 3)):
                if d < 2 and rng.random() < 0.3:
                    parts.append(rel(d + 1))
                else:
                    parts.append(rng.choice(['a', 'b', '?o2', 'c3', '2.5']))
            return '(' + ' '.join(parts) + ')'
        inst = {}
        for i in range(rng.randint(1, 3)):
            inst[rel(0)] = rng.choice(VALS)
        inst['plain'] = 1

        def keep(out):
            req(len(out) == len(inst), 'attributes lost')
            for a in inst:
                t = parse(a)
                req(t in out and same(out[t], inst[a]),
                    'text relation %r not found in %s' % (a, short(out)))
        roundtrip(mk('tup'), inst, 'text relations', keep, rng)
    elif which == 'list':
        inst = gen_doc(rng, nm, lists=True, variables=False, relations=False)
        roundtrip(mk('list') if rng.random() < 0.7 else
                  pp.ExtractListElements(), inst, 'lists', rng=rng)
    else:
        seq = rng.choice([['std', 'flat', 'sub'], ['std', 'flat'],
                          ['flat', 'sub'], ['flat', 'std'], ['std', 'std'],
                          ['std', 'list'], ['list', 'flat'],
                          ['tup', 'std', 'flat', 'sub']])
        inst = gen_doc(rng, nm, lists='list' in seq,
                       relations='list' not in seq,
                       variables='list' not in seq or rng.random() < 0)
        if 'tup' in seq:
            inst = {text(k): v for k, v in inst.items()}
        out = roundtrip(pp.Pipeline(*[mk(n) for n in seq]), inst,
                        'pipeline ' + '+'.join(seq), rng=rng)
        p2 = [mk(n) for n in seq]
        x = copy.deepcopy(inst)
        for p in p2:
            x = p.transform(x)
        req('list' in seq or sorted(map(repr, map(abstr, x))) ==
            sorted(map(repr, map(abstr, out))) and
            sorted(leaves(x)) == sorted(leaves(out)),
            'a pipeline is not the composition of its steps')
        if rng.random() < 0.3:
            pl = pp.Pipeline(mk('flat'))
            bs = [gen_doc(rng, nm) for _ in range(3)]
            outb = pl.batch_transform(bs)
            req(len(outb) == 3 and all(same(o, pp.Flattener().transform(i))
                                       for i, o in zip(bs, outb)), 'batch')
            req(all(same(i, o) for i, o in zip(bs, pl.batch_undo(outb))),
                'batch undo')
    return dict(nontrivial=len(inst) > 1, sample=which + ' ' + short(inst))


def text(k):
    if isinstance(k, tuple):
        return '(' + ' '.join(text(x) for x in k) + ')'
    return k


def parse(s):
    if s[0] != '(':
        return s
    toks = s.replace('(', ' ( ').replace(')', ' ) ').split()
    pos = [0]

    def go():
        t = toks[pos[0]]
        pos[0] += 1
        if t == '(':
            out = []
            while toks[pos[0]] != ')':
                out.append(go())
            pos[0] += 1
            return tuple(out)
        try:
            return float(t)
        except ValueError:
            return t
    return go()


def allvars(d):
    out = set()
    if isinstance(d, dict):
        for k, v in d.items():
            out |= comp_vars(k)
            out |= allvars(v)
    elif isinstance(d, list):
        for v in d:
            out |= allvars(v)
    return out


# ------------------------------------------------------------------ C14
def members(node):
    return set(node.av_counts.get('_id', {}))


def name(node):
    return 'Concept' + str(node.concept_id)


def heur_def(h, assign, leaves_, tree):
    """assign/leaves: lists of nodes (of the clustering's own tree)"""
    uniq = []
    for c in assign:
        if not any(c is u for u in uniq):
            uniq.append(c)
    if h == 'CU':
        kids = []
        for c in uniq:
            v = EMPTY
            for lf in leaves_:
                p = lf
                while p is not None and p is not c:
                    p = p.parent
                if p is c:
                    v = vadd(v, nview(lf))
            kids.append(v)
        tot = EMPTY
        for v in kids:
            tot = vadd(tot, v)
        return -cu_def(tot, kids, assign[0].tree)
    ll = 0.0
    for c, lf in zip(assign, leaves_):
        ll += ll_def(c, lf)
    k = 0
    for c in uniq:
        for a, row in c.av_counts.items():
            if visible(a):
                for v in row:
                    k += 2 if v == CV else 1
    n = len(leaves_)
    if h == 'AIC':
        return 2 * k - 2 * ll
    if h == 'BIC':
        return -2 * ll + k * math.log(n)
    if n - k <= 1:
        return float('inf')
    return 2 * k - 2 * ll + 2 * k * (k + 1) / (n - k - 1)


def ll_def(c, lf):
    out = 0.0
    attrs = set(a for a in list(c.av_counts) + list(lf.av_counts) if visible(a))

    def pr(n, a, v):
        row = n.av_counts.get(a, {})
        if v is None:
            return (n.count - sum(x.num if is_cv(x) else x
                                  for x in row.values())) / n.count
        return row[v] / n.count if v in row else 0.0
    for a in attrs:
        vals = set([None]) | set(c.av_counts.get(a, {})) | \
            set(lf.av_counts.get(a, {}))
        for v in vals:
            if v == CV and (is_cv(c.av_counts.get(a, {}).get(CV)) or
                            is_cv(lf.av_counts.get(a, {}).get(CV))):
                x = c.av_counts.get(a, {}).get(CV)
                y = lf.av_counts.get(a, {}).get(CV)
                if x is not None and y is not None:
                    v1 = ustd(x.num, x.meanSq) ** 2 + 1 / (4 * math.pi)
                    v2 = ustd(y.num, y.meanSq) ** 2 + 1 / (4 * math.pi)
                    mu = x.mean - y.mean
                    out += math.log((x.num / c.count) * (y.num / lf.count)) - \
                        mu * mu / (2 * (v1 + v2)) - \
                        0.5 * math.log(2 * math.pi * (v1 + v2))
            else:
                q = pr(lf, a, v)
                if q > 0:
                    out += math.log(pr(c, a, v) * q)
    return out


def deep_labels(rng, cl):
    """depth labels of a hierarchy built by hand, of any depth"""
    from concept_formation.cobweb import CobwebTree, CobwebNode

    class Fixed(CobwebTree):
        def categorize(self, instance):
            return self.answers[instance['_id']]
        ifit = categorize
    tree = Fixed()
    tree.answers = {}
    leafs = []

    def grow(node, depth):
        node.count = 1.0
        if depth == 0:
            leafs.append(node)
            return
        for d in (depth - 1, rng.randint(0, depth - 1)):
            c = CobwebNode()
            c.tree = tree
            c.parent = node
            node.children.append(c)
            grow(c, d if len(leafs) < 30 else 0)
    grow(tree.root, rng.randint(1, 14))
    insts = []
    for i in range(rng.randint(1, 6)):
        insts.append({'_id': 'i%d' % i})
        tree.answers['i%d' % i] = rng.choice(leafs)
    rows = cl.depth_labels(tree, insts, mod=rng.random() < 0.5)
    paths = []
    for i in insts:
        p, x = [], tree.answers[i['_id']]
        while x is not None:
            p.insert(0, name(x))
            x = x.parent
        paths.append(p)
    top = max(map(len, paths))
    want = [[p[min(d, len(p) - 1)] for p in paths] for d in range(top)]
    req([list(r) for r in rows] == want, 'depth labels %s, by definition %s'
        % (short(rows), short(want)))
    return dict(nontrivial=top > 2, sample='hand-built tree %d deep' % top)


def case_C14(rng):
    fresh_process('C14')
    import concept_formation.cluster as cl
    if rng.random() < 0.05:
        return deep_labels(rng, cl)
    kind = rng.choice(['cobweb', 'cobweb', 'cobweb3'])
    n = rng.randint(1, 14)
    if rng.random() < 0.03:
        # wide and deep trees
        n = rng.randint(20, 45)
        m = rng.choice([3, 6, 9])
        stream = [{'a%d' % j: 'v%d' % rng.randint(0, rng.choice([1, 3]))
                   for j in range(m) if rng.random() < 0.9}
                  for _ in range(n)]
    else:
        stream = [dict(i) for i in gen_flat_stream(rng, n, kind == 'cobweb3')]
    for i, inst in enumerate(stream):
        # keep numeric spread small: far-apart values underflow to log(0)
        for a in list(inst):
            if is_num(inst[a]) and kind == 'cobweb3':
                inst[a] = rng.choice([0, 1, 2, 1.5])
        inst['_id'] = 'i%d' % i
    s0 = copy.deepcopy(stream)
    mod = rng.random() < 0.65
    tree = make_tree(rng, kind)
    if not mod or rng.random() < 0.3:
        pre = stream if not mod else [dict(i, _id='p' + i['_id'])
                                      for i in stream[:n // 2]]
        for i in pre:
            tree.ifit(i)
    fresh = mod and tree.root.count == 0
    snap = snapshot(tree)
    H = rng.choice(['CU', 'CU', 'AIC', 'BIC', 'AICc'])
    heur = rng.choice([H, H.lower(), getattr(cl, H)])
    seed = rng.randrange(10 ** 6)

    cls = type(tree.root)
    ctr = getattr(cls, '_counter', None)

    def reseed():
        # same draws and same fresh concept ids for a repeated call
        random.seed(seed)
        if ctr is not None:
            cls._counter = ctr

    def tree_of(clusters):
        r = clusters[0]
        while r.parent is not None:
            r = r.parent
        return r

    reseed()
    it = cl.cluster_iter(tree, stream, heuristic=heur, minsplit=1,
                         maxsplit=10 ** 5, mod=mod, labels=False)
    hist, scores = [], []
    prev = None
    prevtargets = None
    ids = ['i%d' % i for i in range(n)]
    for clusters, h in it:
        req(len(clusters) == n, '%d labels for %d instances' % (len(clusters), n))
        root = tree_of(clusters)
        lvs = [x for x in all_nodes(root) if not x.children]
        if mod or True:
            for i, c in enumerate(clusters):
                if mod:
                    req('i%d' % i in members(c),
                        'an instance is labelled with a concept it is not in')
            uniq = {id(c): c for c in clusters}
            tot = []
            for c in uniq.values():
                req(c.parent is root or c is root, 'a cluster is not a top '
                    'concept of its tree')
                tot += list(members(c))
            req(len(tot) == len(set(tot)), 'clusters overlap')
            if fresh:
                for c in uniq.values():
                    mine = [ids[i] for i in range(n) if clusters[i] is c]
                    req(c.count == len(mine) and members(c) == set(mine),
                        'a cluster of %r instances is used as label for %d'
                        % (c.count, len(mine)))
        if mod:
            leafs = [next(l for l in lvs if i in members(l)) for i in ids]
            want = heur_def(H, clusters, leafs, None)
            req(close(h, want, 1e-5), '%s score %r, by definition %r'
                % (H, h, want))
            if prevtargets is not None:
                # which cluster was split? it must be a best one
                gone = [c for c in prev if not any(c is x for x in clusters)]
                tgt = {id(c) for c in gone}
                req(len(tgt) == 1, 'a step split %d clusters' % len(tgt))
                sc = [s for t, s in prevtargets if id(t) in tgt]
                req(sc and sc[0] <= min(s for t, s in prevtargets) + 1e-5,
                    'a worse split was chosen')
            prevtargets = []
            for t in uniq.values():
                if t.children:
                    alt = []
                    for i, c in enumerate(clusters):
                        if c is not t:
                            alt.append(c)
                        else:
                            x = leafs[i]
                            while x.parent is not t:
                                x = x.parent
                            alt.append(x)
                    prevtargets.append((t, heur_def(H, alt, leafs, None)))
        if prev is not None:
            lab = {}
            for a, b in zip(clusters, prev):
                req(lab.setdefault(id(a), b) is b,
                    'a later clustering does not refine the previous one')
            req(len({id(c) for c in clusters}) >= len({id(c) for c in prev}),
                'a later clustering is coarser')
        prev = list(clusters)
        hist.append([name(c) for c in clusters])
        scores.append(h)
    req(prev is not None, 'no clustering was produced')
    req(all(not c.children for c in prev), 'splitting stopped early')
    d = snap_diff(snap, snapshot(tree))
    req(d is None, 'clustering changed the tree it was given: %s' % d)
    req(stream == s0, 'clustering modified the instances')
    if not mod:
        byname = {name(x): x for x in all_nodes(tree.root)}
        for i, inst in enumerate(stream):
            poss = possible_leaves(tree, inst)
            for row in hist:
                req(row[i] in byname, 'a label names no concept of the tree')
                req(any(byname[row[i]].is_parent(l) for l in poss),
                    'an instance is labelled with a concept it does not '
                    'belong to')
    # labelled variants agree with the node variant (same random draws)
    a = rng.randint(1, len(hist) + 1)
    b = rng.randint(a, a + 3) if rng.random() < 0.8 else \
        rng.randint(a, max(a, len(hist)) + 2)
    reseed()
    got = list(cl.cluster_iter(tree, stream, heuristic=heur, minsplit=a,
                               maxsplit=b, mod=mod, labels=True))
    req(len(got) == max(0, min(b, len(hist)) - a + 1),
        'splits %d to %d of %d possible gave %d clusterings'
        % (a, b, len(hist), len(got)))
    for g, gh in got:
        req(len(g) == n and all(isinstance(x, str) for x in g), 'labels')
    req([list(x[0]) for x in got] == hist[a - 1:b],
        'clusterings for splits %d to %d are not those of the full run' % (a, b))
    req(all(close(x[1], y, 1e-9) for x, y in zip(got, scores[a - 1:b])),
        'scores for splits %d to %d are not those of the full run' % (a, b))
    req(snap_diff(snap, snapshot(tree)) is None, 'clustering changed the tree')
    # flat clusterings for a range of splits
    reseed()
    rows = list(cl.cluster(tree, stream, minsplit=a, maxsplit=b, mod=mod))
    if H == 'CU':
        req([list(r) for r in rows] == hist[a - 1:b],
            'cluster() for splits %d to %d' % (a, b))
    for r in rows:
        req(len(r) == n and all(isinstance(x, str) for x in r), 'cluster labels')
    req(snap_diff(snap, snapshot(tree)) is None, 'clustering changed the tree')
    k = rng.randint(2, 5) if rng.random() < 0.8 else rng.randint(2, n + 2)
    kc = cl.k_cluster(tree, stream, k=k, mod=mod)
    req(len(kc) == n, 'k_cluster gave %d labels for %d instances' % (len(kc), n))
    req(len(set(kc)) <= k, '%d clusters for k=%d' % (len(set(kc)), k))
    if True:
        reseed()
        full = [c for c, _ in cl.cluster_iter(tree, stream, mod=mod)]
        reseed()
        kc = cl.k_cluster(tree, stream, k=k, mod=mod)
        want = None
        for c in full:
            if len(set(c)) > k:
                break
            want = c
        if want is not None:
            req(list(kc) == list(want),
                'k_cluster is not the last clustering with at most k clusters')
    for badk in (1, 0):
        try:
            cl.k_cluster(tree, stream, k=badk)
        except ValueError:
            continue
        raise Violation('k=%d accepted' % badk)
    req(snap_diff(snap, snapshot(tree)) is None, 'clustering changed the tree')
    reseed()
    best = cl.cluster_split_search(tree, stream, heuristic=heur, minsplit=1,
                                   maxsplit=b, mod=mod, labels=True)
    req(len(best) == n, 'split search labels')
    reseed()
    bn = cl.cluster_split_search(tree, stream, heuristic=heur, minsplit=1,
                                 maxsplit=b, mod=mod, labels=False)
    req(len(bn) == n, 'split search labels')
    if min(scores[:b]) < float('inf'):
        ok = [h_ for h_, s_ in zip(hist[:b], scores[:b])
              if s_ <= min(scores[:b]) + 1e-9]
        req(list(best) in ok, 'split search did not return a best clustering')
        req([name(x) for x in bn] in ok,
            'split search did not return a best clustering')
    req(snap_diff(snap, snapshot(tree)) is None, 'clustering changed the tree')
    # depth labels (may fit into the given tree: use a copy)
    t2 = copy.deepcopy(tree)
    rows = cl.depth_labels(t2, stream, mod=mod)
    byname = {name(x): x for x in all_nodes(t2.root)}
    req(len(set(map(len, rows))) == 1 and len(rows[0]) == n, 'depth labels shape')
    for i in range(n):
        col = [r[i] for r in rows]
        req(all(c in byname for c in col), 'depth label names no concept')
        nodes_ = [byname[c] for c in col]
        req(nodes_[0] is t2.root, 'depth labels do not start at the root')
        for x, y in zip(nodes_, nodes_[1:]):
            req(y.parent is x or (y is x and not x.children),
                'depth labels are not a path')
        req(not nodes_[-1].children, 'depth labels do not end in a leaf')
        if mod:
            req(ids[i] in members(nodes_[-1]), 'depth labels end elsewhere')
    req(max(byname[rows[-1][i]].depth() for i in range(n)) + 1 == len(rows),
        'depth labels have %d levels' % len(rows))
    return dict(nontrivial=len(hist) > 1, sample=short(stream))




# ------------------------------------------------------------------ C16
class SpyTree(object):
    def __init__(self, log, concept):
        self.log = log
        self.learned = []
        self.concept = concept

    def clear(self):
        self.log.append(('clear',))
        self.learned = []

    def ifit(self, inst):
        self.log.append(('fit', inst, copy.deepcopy(inst)))
        self.learned.append(inst)

    def categorize(self, inst):
        self.log.append(('ask', copy.deepcopy(inst), list(self.learned)))
        return self.concept

    @property
    def root(self):
        from concept_formation.cobweb3 import Cobweb3Node
        r = Cobweb3Node()
        r.count = float(len(self.learned))
        return r


class SpyConcept(object):
    def __init__(self, p, v):
        self.p, self.v = p, v
        self.asked = []

    def probability(self, attr, val):
        self.asked.append((attr, val))
        return self.p

    def predict(self, attr, *a, **k):
        self.asked.append((attr,))
        return self.v


def case_C16(rng):
    fresh_process('C16')
    from concept_formation import evaluation as ev
    attr = 'y'
    n = rng.randint(0, 8)
    stream = gen_flat_stream(rng, n, True)
    for i, s in enumerate(stream):
        s['_n'] = 'n%d' % i
        if rng.random() < 0.8:
            s['y'] = rng.choice(['A', 'B', 'C'])
    d0 = copy.deepcopy(stream)
    order0 = list(stream)
    log = []
    con = SpyConcept(0.25, 'A')
    spy = SpyTree(log, con)
    rl = rng.randint(0, 9)
    runs = rng.randint(1, 3) if rng.random() < 0.9 else rng.randint(4, 8)
    rf = rng.choice([True, False])
    mode = rng.choice(['spy score', 'probability', 'error', 'absolute_error',
                       'squared_error', 'default'])
    if mode == 'spy score':
        def sc(tree, inst, a, val):
            log.append(('score', inst, a, val, list(tree.learned)))
            return len(tree.learned)
        kw = dict(score=sc)
    elif mode == 'default':
        kw = {}
    else:
        kw = dict(score=getattr(ev, mode))
    lst = list(stream)
    rows = ev.incremental_evaluation(spy, lst, attr, rl, runs=runs,
                                     randomize_first=rf, **kw)
    req(stream == d0, 'an instance was modified by evaluation')
    req(sorted(map(id, lst)) == sorted(map(id, stream)),
        'the instance list lost or gained entries')
    req(len(rows) == runs, '%d rows for %d runs' % (len(rows), runs))
    parts = []
    for e in log:
        if e[0] == 'clear':
            parts.append([])
        else:
            req(parts, 'a run did not start from an empty tree')
            parts[-1].append(e)
    req(len(parts) == runs, '%d fresh starts for %d runs' % (len(parts), runs))
    for r, (row, evs) in enumerate(zip(rows, parts)):
        req(len(evs) == 2 * len(row), 'scores and fits do not pair up')
        req(len(row) >= min(rl, n), 'only %d of %d instances evaluated'
            % (len(row), min(rl, n)))
        seen = []
        for j in range(len(row)):
            q, f = evs[2 * j], evs[2 * j + 1]
            req(f[0] == 'fit' and q[0] in ('ask', 'score'),
                'an instance was learned before it was scored')
            inst = f[1]
            k = [i for i, s in enumerate(stream) if s is inst]
            req(len(k) == 1, 'something else than the instance was learned')
            req(f[2] == d0[k[0]], 'the instance was not learned in full')
            want = d0[k[0]]
            learned = q[-1]
            req(len(learned) == len(seen) and
                all(a is b for a, b in zip(learned, seen)),
                'scored on a tree that learned something else')
            if q[0] == 'score':
                req(q[1] is inst or q[1] == want, 'scored another instance')
                req(q[2] == attr and q[3] == want.get(attr),
                    'scored with target value %r instead of %r'
                    % (q[3], want.get(attr)))
                req(row[j] == len(seen), 'score recorded wrongly')
            else:
                req(q[1] == {a: v for a, v in want.items() if a != attr},
                    'the question put to the tree was %s for %s'
                    % (short(q[1]), short(want)))
                v = want.get(attr)
                if mode in ('probability', 'default'):
                    req(row[j] == 0.25, 'probability score %r' % row[j])
                else:
                    req(row[j] == (0 if v == 'A' else 1), 'error score %r for '
                        'value %r predicted A' % (row[j], v))
            req(not any(inst is s for s in seen), 'an instance was learned twice')
            seen.append(inst)
        if r == 0 and not rf:
            req([id(s) for s in seen] == [id(s) for s in order0[:len(seen)]],
                'order changed although no randomisation was asked for')
    # scores on real trees
    kind, st, tree = grown_tree(rng, rng.choice(['cobweb', 'cobweb3']), 12)
    s0 = snapshot(tree)
    inst = dict(rng.choice(st))
    a = rng.choice(list(inst) + ['a'])
    i0 = dict(inst)
    vals = [v for v in ['x', 'y', inst.get(a), True] if not
            (kind == 'cobweb' and False)]
    if kind == 'cobweb3':
        vals += [1, 2.5]
    v = rng.choice(vals)
    q = {k: x for k, x in inst.items() if k != a}
    poss = possible_leaves(tree, q)
    p = ev.probability(tree, inst, a, v)
    req(any(close(p, l.probability(a, v), 1e-9) for l in poss),
        'probability score %r, concepts give %s'
        % (p, [l.probability(a, v) for l in poss]))
    preds = []
    for l in poss:
        w = {}
        for x, c in l.av_counts.get(a, {}).items():
            w[x] = (c.num if is_cv(c) else c)
        if a in l.av_counts:
            w[None] = l.count - sum(w.values())
            for x in w:
                if w[x] == max(w.values()):
                    preds.append(l.av_counts[a][CV].mean if x == CV else x)
        else:
            preds.append(None)
    for f, g in ((ev.error, lambda e: e), (ev.absolute_error, abs),
                 (ev.squared_error, lambda e: e * e)):
        outs = []
        for pr in preds:
            if is_num(v) and pr is None:
                outs.append('raise')
            elif is_num(v) and is_num(pr):
                outs.append(g(v - pr))
            elif is_num(v):
                outs.append('any')
            elif v is None and is_num(pr):
                outs.append('raise')
            else:
                outs.append(g(0 if v == pr else 1))
        try:
            e = f(tree, inst, a, v)
        except Exception as ex:
            req('raise' in outs or 'any' in outs,
                'score failed: %r' % ex)
        else:
            req('any' in outs or any(o != 'raise' and close(o, e, 1e-9)
                                     for o in outs),
                'score %s is %r, predictions %r give %r'
                % (f.__name__, e, preds, outs))
    req(snap_diff(s0, snapshot(tree)) is None and inst == i0,
        'scoring changed tree or instance')
    try:
        ev.probability(tree, inst, a, {'k': 1})
    except Exception:
        pass
    return dict(nontrivial=n > 1, sample=short((stream, attr, rl, runs, mode)))


# ------------------------------------------------------------------ C17
def gen_mixed(rng, depth=0):
    d = {}
    for i in range(rng.randint(0, 4)):
        k = rng.choice(['a', 'b', 'c', 'x', '?v', ('r', 'a'), 'num'])
        r = rng.random()
        if r < 0.25 and depth < 2:
            d[k] = gen_mixed(rng, depth + 1)
        else:
            d[k] = rng.choice([1, 2.5, '3', '4.5', 'red', 'nan?', 0, -1, '1e3',
                               '', True])
    return d


def n2n_def(inst, targets):
    out = {}
    for a, v in inst.items():
        if (targets is None or a in targets) and isinstance(v, (int, float)):
            out[a] = str(v)
        elif isinstance(v, dict):
            out[a] = n2n_def(v, targets)
        else:
            out[a] = v
    return out


class Fail(Exception):
    pass


def nn_def(inst, targets, mode):
    out = {}
    for a, v in inst.items():
        if (targets is None or a in targets) and not isinstance(v, dict):
            try:
                out[a] = float(v)
            except ValueError:
                if mode == 'break':
                    raise Fail()
                if mode == 'zero':
                    out[a] = 0.0
        elif isinstance(v, dict):
            out[a] = nn_def(v, targets, mode)
        else:
            out[a] = v
    return out


def gen_dirty(rng, depth=0):
    d = {}
    keys = ['a', 'b', '?c', ('r', 'a'), ('r', 5, ('s', 2.5)), 3, 2.5, None,
            frozenset([1]), ('q',), 'z', True,
            ('r', ('s', 'k', 2, ('t', ('u', 3), 4, 'w'))),
            ('m', 'n', 1, 2, (3, 4, 5, 6, (7,)), 'o')]
    for k in rng.sample(keys, rng.randint(0, 5)):
        r = rng.random()
        if r < 0.3 and depth < 2:
            d[k] = gen_dirty(rng, depth + 1)
        elif r < 0.5:
            d[k] = rng.choice([[1, 2], {'p': [1]}, set(), [{'q': 1}]])
        else:
            d[k] = rng.choice([1, 'x', 2.5, ('t', 1), True, 'y'])
    return d


def acceptable(inst, spec, top=True):
    for a, v in inst.items():
        try:
            hash(a)
            a[0]
        except Exception:
            return 'attribute %r' % (a,)
        if isinstance(v, dict):
            if spec != 'trestle':
                return 'value %r' % (v,)
            r = acceptable(v, spec)
            if r:
                return r
        else:
            try:
                hash(v)
            except TypeError:
                return 'value %r' % (v,)
        if spec == 'trestle' and isinstance(a, tuple):
            def chk(t):
                for x in t:
                    if isinstance(x, tuple):
                        if chk(x):
                            return True
                    elif not isinstance(x, str):
                        return True
                return False
            if chk(a):
                return 'relation %r' % (a,)
    return None


FRESH_DONE = set()
FRESH = {
    'C13': '''
from concept_formation import preprocessor as p
i = {'?a': {'x': 1}, ('on', '?a', '?b'): 'y', 'l': 2}
t = p.Pipeline(p.NameStandardizer(), p.Flattener(), p.SubComponentProcessor())
assert t.undo_transform(t.transform(i)) == i
t = p.ListProcessor()
i = {'l': ['a', 'b'], 'x': 1}
assert t.undo_transform(t.transform(i)) == i
t = p.Tuplizer()
assert t.undo_transform(t.transform({'(on a b)': 1})) == {'(on a b)': 1}
''',
    'C14': '''
from concept_formation import cluster as c
from concept_formation.cobweb import CobwebTree
i = [{'x': v} for v in 'abba']
assert len(c.k_cluster(CobwebTree(), i, k=2)) == 4
assert len(c.cluster_split_search(CobwebTree(), i, 'AIC')) == 4
assert len(c.depth_labels(CobwebTree(), i)[0]) == 4
''',
    'C16': '''
from concept_formation import evaluation as e
from concept_formation.cobweb3 import Cobweb3Tree
r = e.incremental_evaluation(Cobweb3Tree(), [{'x': 1.0, 'y': 'a'}] * 3, 'y', 3)
assert len(r) == 1 and len(r[0]) == 3
''',
    'C17': '''
from concept_formation import preprocessor as p
assert p.NumericToNominal().transform({'a': 1}) == {'a': '1'}
assert p.NominalToNumeric().transform({'a': '1'}) == {'a': 1.0}
for s in ('trestle', 'cobweb', 'cobweb3'):
    assert p.Sanitizer(s).transform({'a': 1, 'b': [1], 3: 'c'}) == {
        'a': 1, 'b': '[1]', '3': 'c'}
''',
    'C18': '''
from concept_formation import visualize as v
from concept_formation.trestle import TrestleTree
t = TrestleTree()
t.ifit({'x': 1.0, '?c': {'y': 'a'}})
d = t.root.output_json()
assert v._trim_leaves(d)['size'] == 1 and v._trim_to_clusters(d, set()) == d
''',
}


def fresh_process(prop):
    """the library works in a process that has imported nothing else"""
    if prop in FRESH_DONE:
        return
    FRESH_DONE.add(prop)
    import concept_formation
    top = os.path.dirname(os.path.dirname(os.path.abspath(
        concept_formation.__file__)))
    try:
        p = subprocess.run([sys.executable, '-B', '-c', FRESH[prop]], cwd=top,
                           env=dict(os.environ, PYTHONPATH=top), text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=100)
    except (OSError, subprocess.TimeoutExpired):
        return          # the machine, not the library
    req(p.returncode in (0,) or p.returncode < 0 or
        'Error' not in p.stdout, 'in a fresh process that imports only this '
        'module: %s' % p.stdout.strip()[-300:])


def case_C17(rng):
    fresh_process('C17')
    import concept_formation.preprocessor as pp
    which = rng.choice(['n2n', 'nn', 'san', 'var', 'oneway'])
    if which in ('n2n', 'nn'):
        inst = gen_mixed(rng)
        tg = rng.choice([None, ['a'], ['a', 'num'], ['b', 'c', 'x'],
                         [('r', 'a')], ['absent']])
        i0 = copy.deepcopy(inst)
        if which == 'n2n':
            t = pp.NumericToNominal(*(tg or []))
            out = t.transform(inst)
            req(same(inst, i0), 'NumericToNominal modified the instance')
            want = n2n_def(i0, tg)
            req(same(out, want), 'NumericToNominal(%r) of %s gave %s'
                % (tg, short(i0), short(out)))
            und = t.undo_transform(out)
            req(same(und, out) and und is not out, 'one-way undo')
        else:
            mode = rng.choice(['break', 'drop', 'zero'])
            t = pp.NominalToNumeric(rng.choice([mode, 'other', '']) if mode
                                    == 'break' else mode, *(tg or []))
            try:
                want = nn_def(i0, tg, mode)
            except Fail:
                want = ValueError
            except TypeError:
                want = TypeError
            try:
                out = t.transform(inst)
            except (ValueError, TypeError) as e:
                out = type(e)
            req(same(inst, i0), 'NominalToNumeric modified the instance')
            if isinstance(want, type) or isinstance(out, type):
                req(out is want or (isinstance(out, type) and
                                    isinstance(want, type)),
                    'NominalToNumeric(%r) of %s gave %s, expected %s'
                    % (mode, short(i0), short(out), short(want)))
            else:
                req(same(out, want), 'NominalToNumeric(%r, %r) of %s gave %s'
                    % (mode, tg, short(i0), short(out)))
    elif which == 'san':
        inst = gen_dirty(rng)
        spec = rng.choice(['trestle', 'cobweb', 'cobweb3'])
        i0 = copy.deepcopy(inst)
        t = pp.Sanitizer(spec)
        out = t.transform(inst)
        req(same_any(inst, i0), 'Sanitizer modified the instance')
        bad = acceptable(out, spec)
        req(bad is None, 'sanitised instance still has %s' % bad,
            instance=short(i0), out=short(out))
        strs = [str(a) for a in inst]
        if len(set(strs)) == len(strs):
            for a, v in inst.items():
                if isinstance(a, str) and not isinstance(v, (list, dict, set)):
                    req(a in out and same(out[a], v), 'clean attribute %r=%r '
                        'became %r' % (a, v, out.get(a)))
                if isinstance(a, str) and isinstance(v, dict) and \
                        spec == 'trestle' and acceptable(v, spec) is None:
                    req(same(out[a], v), 'clean component changed')
            for v in inst.values():
                if not isinstance(v, (list, set, dict)) or (
                        isinstance(v, dict) and spec == 'trestle'
                        and acceptable(v, spec) is None):
                    req(sum(same(v, w) for w in out.values()) >=
                        sum(same(v, w) for w in inst.values()),
                        'acceptable value %r of %s is gone: %s'
                        % (v, short(inst), short(out)))
            req(len(out) == len(inst), 'attributes lost in sanitising %s: %s'
                % (short(inst), short(out)))
        for badspec in ('x', ''):
            try:
                pp.Sanitizer(badspec)
            except ValueError:
                continue
            raise Violation('unknown specification accepted')
    elif which == 'var':
        nm = Names()
        inst = gen_doc(rng, nm, relations=rng.random() < 0.5,
                       variables=rng.random() < 0.5)
        i0 = copy.deepcopy(inst)
        comps = [k for k, v in inst.items() if isinstance(v, dict)]
        tg = rng.choice([None, comps[:1] or None])
        t = pp.ObjectVariablizer(*(tg or []))
        out = t.transform(inst)
        req(same(inst, i0), 'ObjectVariablizer modified the instance')

        def vdef(d):
            o = {}
            for k, v in d.items():
                if isinstance(v, dict) and (tg is None or k in tg) and \
                        not isinstance(k, tuple):
                    o[k if k[0] == '?' else '?' + k] = vdef(v)
                else:
                    o[k] = v
            return o
        req(same(out, vdef(i0)), 'ObjectVariablizer(%r) of %s gave %s'
            % (tg, short(i0), short(out)))
    else:
        inst = gen_mixed(rng)
        for t in (pp.NumericToNominal(), pp.NominalToNumeric('zero'),
                  pp.Sanitizer(), pp.ObjectVariablizer()):
            o = t.undo_transform(inst)
            req(same(o, inst) and o is not inst, 'one-way undo')
    return dict(nontrivial=len(inst) > 0, sample=which + ' ' + short(inst))


def same_any(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(map(repr, a)) == list(map(repr, b)) and all(
            same_any(x, y) for x, y in zip(a.values(), b.values()))
    return repr(a) == repr(b)


# ------------------------------------------------------------------ C18
def json_def(node, num):
    d = {'name': 'Concept' + str(node.concept_id), 'size': node.count,
         'children': [json_def(c, num) for c in node.children], 'counts': {}}
    for a, row in node.av_counts.items():
        if not row:
            continue
        d['counts'][str(a)] = {}
        for v, c in row.items():
            if is_cv(c):
                d['counts'][str(a)][CV] = {
                    'mean': c.mean, 'std': ustd(c.num, c.meanSq), 'n': c.num}
            else:
                d['counts'][str(a)][str(v)] = c
    return d


def json_eq(a, b, path=''):
    """None if description a (exported) matches b (definition)"""
    for k in ('name', 'size'):
        if a.get(k) != b[k]:
            return '%s %s: %r instead of %r' % (path, k, a.get(k), b[k])
    ca, cb = a.get('counts'), b['counts']
    if set(ca) != set(cb):
        return '%s attributes %r instead of %r' % (path, sorted(ca), sorted(cb))
    for k in cb:
        if set(ca[k]) != set(cb[k]):
            return '%s values of %s' % (path, k)
        for v in cb[k]:
            x, y = ca[k][v], cb[k][v]
            if isinstance(y, dict):
                if not isinstance(x, dict) or not all(
                        q in x and close(x[q], y[q], 1e-5) for q in y):
                    return '%s numeric summary of %s: %r' % (path, k, x)
            elif x != y:
                return '%s count of %s=%s: %r instead of %r' % (path, k, v, x, y)
    if len(a['children']) != len(b['children']):
        return '%s %d children instead of %d' % (path, len(a['children']),
                                                 len(b['children']))
    for x, y in zip(a['children'], b['children']):
        r = json_eq(x, y, path + '/' + y['name'])
        if r:
            return r
    extra = set(a) - {'name', 'size', 'children', 'counts', 'guid'}
    if extra:
        return '%s extra entries %r' % (path, extra)
    return None


def trim1(d):
    r = dict(d)
    r['children'] = [trim1(c) for c in d['children'] if c['children']]
    return r


def trimc(d, names):
    r = dict(d)
    r['children'] = [] if d['name'] in names else [trimc(c, names)
                                                  for c in d['children']]
    return r


def distinct_str(node):
    for n in all_nodes(node):
        ks = [str(a) for a in n.av_counts]
        if len(set(ks)) != len(ks):
            return False
        for r in n.av_counts.values():
            ks = [str(a) for a in r]
            if len(set(ks)) != len(ks):
                return False
    return True


def case_C18(rng):
    fresh_process('C18')
    import concept_formation.visualize as vz
    kind, stream, tree = grown_tree(
        rng, maxn=16 if rng.random() < 0.95 else 50)
    if not distinct_str(tree.root):
        return dict(nontrivial=False, sample='')
    nodes = all_nodes(tree.root)
    s0 = snapshot(tree)
    n = rng.choice([tree.root, rng.choice(nodes)])
    want = json_def(n, kind != 'cobweb')
    got = n.output_json()
    d = json_eq(got, want)
    req(d is None, 'export differs: %s' % d)
    json.dumps(got)
    req(snap_diff(s0, snapshot(tree)) is None, 'export changed the tree')
    # through the visualisation entry points, with files in a scratch dir
    opened = []
    tmp = tempfile.mkdtemp(prefix='cfviz')
    wb = vz.webbrowser.open
    vz.webbrowser.open = lambda u, *a, **k: opened.append(u)
    try:
        full = json_def(tree.root, kind != 'cobweb')
        mode = rng.choice(['full', 'leaves', 'clusters', 'clusternames'])
        if mode == 'full':
            vz.visualize(tree, dst=tmp)
            exp = full
        elif mode == 'leaves':
            cuts = rng.randint(0, 3) if rng.random() < 0.8 else \
                rng.randint(4, 7)
            vz.visualize_no_leaves(tree, cuts=cuts, dst=tmp)
            exp = full
            for _ in range(cuts):
                exp = trim1(exp)
        else:
            cs = rng.sample(nodes, rng.randint(1, min(
                3 if rng.random() < 0.8 else 12, len(nodes))))
            names = {'Concept' + str(c.concept_id) for c in cs}
            vz.visualize_clusters(tree, cs if mode == 'clusters' else
                                  list(names), dst=tmp)
            exp = trimc(full, names)
        txt = open(os.path.join(tmp, 'output.js')).read()
        i, j = txt.index('{', txt.index('=')), txt.rindex('}; }')
        body = json.loads(txt[i:j + 1])
        d = json_eq(body, json.loads(json.dumps(exp)))
        req(d is None, '%s: written hierarchy differs: %s' % (mode, d))
    finally:
        vz.webbrowser.open = wb
        shutil.rmtree(tmp)
    req(snap_diff(s0, snapshot(tree)) is None, 'visualising changed the tree')
    # trimming leaves its argument alone
    for f, args in ((getattr(vz, '_trim_leaves', None), ()),
                    (getattr(vz, '_trim_to_clusters', None),
                     ({'Concept' + str(rng.choice(nodes).concept_id)},))):
        if f is not None:
            b = tree.root.output_json()
            b0 = copy.deepcopy(b)
            f(b, *args)
            req(b == b0, 'trimming altered the description it was given')
    return dict(nontrivial=len(nodes) > 1, sample=short(stream))
