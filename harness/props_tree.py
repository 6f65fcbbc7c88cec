"""Run-time contract checks: C01-C04, C07-C11, C15 (tree learners)."""
import copy
import math
import random
from base import *   # noqa


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


# ------------------------------------------------------------------ C01
def check_conservation(tree):
    for n in all_nodes(tree.root):
        if not n.children:
            continue
        tot = EMPTY
        for c in n.children:
            tot = vadd(tot, nview(c))
        req(n.count == tot[0], 'count of a concept is %r but its children hold %r'
            % (n.count, tot[0]))
        d = table_eq(table_view(n), tot[1])
        req(d is None, 'a concept does not summarise its children: %s' % d)
    seen = {}
    for n in all_nodes(tree.root):
        for part in [n.av_counts] + list(n.av_counts.values()) + [
                c for r in n.av_counts.values() for c in r.values()
                if is_cv(c)] + [n.children]:
            req(id(part) not in seen,
                'two concepts share one mutable table or summary')
            seen[id(part)] = part


def case_C01(rng):
    kind, stream = gen_history(rng, maxn=30)
    tree = make_tree(rng, kind)
    for i, inst in enumerate(stream):
        tree.ifit(inst)
        if i % 3 == 0 or i == len(stream) - 1:
            check_conservation(tree)
    req(tree.root.count == len(stream), 'root counts %r of %r instances'
        % (tree.root.count, len(stream)))
    if kind != 'trestle':
        t = {}
        for inst in stream:
            t = table_inc(t, inst, kind == 'cobweb3')
        d = table_eq(table_view(tree.root), t)
        req(d is None, 'the root does not summarise the data: %s' % d)
    # operators called directly on a grown tree
    if rng.random() < 0.4:
        op_check(rng, tree)
    return dict(nontrivial=bool(tree.root.children), sample=short(stream))


def op_check(rng, tree):
    """merge / split / new child / copies keep counts conserved"""
    for n in all_nodes(tree.root):
        cp = n.shallow_copy()
        req(cp.count == n.count and table_eq(table_view(cp), table_view(n))
            is None, 'a copy of a concept has other counts')
        full = n.__class__(n)
        req(full.count == n.count and
            table_eq(table_view(full), table_view(n)) is None,
            'a full copy of a concept has other counts')
        fc = [(c.count, table_view(c)) for c in full.children]
        nc = [(c.count, table_view(c)) for c in n.children]
        req(len(fc) == len(nc) and all(
            a[0] == b[0] and table_eq(a[1], b[1]) is None
            for a, b in zip(fc, nc)), 'a full copy has other children')
    for n in all_nodes(tree.root):
        if n.children or not hasattr(n, 'create_child_with_current_counts'):
            continue
        leaf = n.shallow_copy()
        leaf.tree = tree
        ch = leaf.create_child_with_current_counts()
        if n.count > 0:
            req(ch is not None and ch.parent is leaf and ch.tree is tree and
                leaf.children == [ch], 'specialising a leaf links wrongly')
            req(ch.count == n.count and table_eq(
                table_view(ch), table_view(n)) is None,
                'specialising a leaf gives a child with other counts')
            leaf.increment_counts({'fresh!': 'v'})
            req(ch.count == n.count and table_eq(
                table_view(ch), table_view(n)) is None,
                'specialising a leaf shares counts')
    inner = [n for n in all_nodes(tree.root) if len(n.children) > 2]
    if inner:
        n = rng.choice(inner)
        a, b = rng.sample(n.children, 2)
        n.merge(a, b)
        check_conservation(tree)
        check_shape(tree, two=True)
    inner = [n for n in all_nodes(tree.root)
             if n.parent is not None and n.children]
    if inner:
        n = rng.choice(inner)
        n.parent.split(n)
        check_conservation(tree)
        check_shape(tree, two=True)


# ------------------------------------------------------------------ C02
def check_shape(tree, two=True):
    nodes = all_nodes(tree.root)
    req(tree.root.parent is None, 'the root has a parent')
    ids = {}
    for n in nodes:
        req(n.tree is tree, 'a concept does not point to its tree')
        for c in n.children:
            req(c.parent is n, 'a child does not point back to its parent')
        req(len(set(id(c) for c in n.children)) == len(n.children),
            'a child is listed twice')
        if two:
            req(len(n.children) != 1, 'an internal concept has one child')
        req(n.concept_id not in ids, 'two concepts share an id')
        ids[n.concept_id] = n
    return nodes


def case_C02(rng):
    kind, stream = gen_history(rng, maxn=30)
    tree = make_tree(rng, kind)
    for inst in stream:
        leaf = tree.ifit(inst)
        nodes = check_shape(tree)
        req(any(n is leaf for n in nodes), 'returned concept not in the tree')
        if rng.random() < 0.4:
            check_derived(rng, tree, nodes)
    check_derived(rng, tree, nodes)
    if rng.random() < 0.3:
        op_check(rng, tree)
    return dict(nontrivial=len(nodes) > 3, sample=short(stream))


def check_derived(rng, tree, nodes):
    depth = {id(tree.root): 0}
    stack = [tree.root]
    while stack:
        n = stack.pop()
        for c in n.children:
            depth[id(c)] = depth[id(n)] + 1
            stack.append(c)
    req(tree.root.num_concepts() == len(nodes), 'num_concepts is %r for %r concepts'
        % (tree.root.num_concepts(), len(nodes)))
    for n in nodes:
        req(n.depth() == depth[id(n)], 'depth() is %r, distance from root %r'
            % (n.depth(), depth[id(n)]))
    sub = rng.sample(nodes, min(8, len(nodes)))
    for n in sub:
        below = set(id(x) for x in all_nodes(n))
        req(n.num_concepts() == len(below), 'num_concepts of a subtree')
        for m in sub:
            req(bool(n.is_parent(m)) == (id(m) in below),
                'is_parent disagrees with the hierarchy')


# ------------------------------------------------------------------ C03
def abstr(a):
    if isinstance(a, tuple):
        return tuple(abstr(x) for x in a)
    if isinstance(a, str) and a[:1] == '?':
        return '?'
    return a


def flat_form(inst):
    from concept_formation.preprocessor import (Pipeline, NameStandardizer,
                                                Flattener,
                                                SubComponentProcessor)
    cnt = [0]

    def g():
        cnt[0] += 1
        return '?zz%d' % cnt[0]
    return Pipeline(NameStandardizer(g), Flattener(),
                    SubComponentProcessor()).transform(inst)


def delta_obs(before, after):
    """list of (attr, value-key, cell) added; None if something shrank"""
    out = []
    for a in after:
        for v in after[a]:
            c0 = before.get(a, {}).get(v)
            c1 = after[a][v]
            if isinstance(c1, tuple):
                c0 = c0 or ('cv', 0, 0, 0)
                n = c1[1] - c0[1]
                if n != 0:
                    out.append((a, CV, float(n), round(float(c1[2] - c0[2]), 4)))
                elif not cell_eq(c0, c1):
                    return None
            else:
                n = c1 - (c0 or 0)
                if n:
                    out.append((a, v, float(n)))
    for a in before:
        if a not in after:
            return None
        for v in before[a]:
            if v not in after[a]:
                return None
    return out


def check_fit_once(tree, kind, inst):
    before, n0 = table_view(tree.root), tree.root.count
    leaf = tree.ifit(inst)
    req(tree.root.count == n0 + 1, 'root count changed by %r'
        % (tree.root.count - n0))
    after = table_view(tree.root)
    if kind == 'trestle':
        d = delta_obs(before, after)
        req(d is not None, 'learned totals shrank')
        flat = flat_form(inst)
        want = sorted(repr((abstr(a), (CV, 1.0, round(float(v), 4)) if is_num(v)
                            else (v, 1.0))) for a, v in flat.items())
        got = sorted(repr((abstr(x[0]), tuple(x[1:2]) + tuple(x[2:])
                           if x[1] == CV else (x[1], x[2]))) for x in d)
        req(want == got, 'the root did not gain exactly the instance: %s vs %s'
            % (short(got), short(want)))
    else:
        d = table_eq(after, table_inc(before, inst, kind == 'cobweb3'))
        req(d is None, 'the root did not gain exactly the instance: %s' % d)
    req(leaf is not None and not leaf.children, 'the returned concept is no leaf')
    req(any(leaf is n for n in all_nodes(tree.root)),
        'the returned concept is not in the tree')
    req(leaf.count >= 1, 'the returned leaf is empty')
    lt = table_view(leaf)
    if kind != 'trestle':
        for a, v in inst.items():
            key = CV if kind == 'cobweb3' and is_num(v) else v
            req(a in lt and key in lt[a], 'the returned leaf lacks %r=%r' % (a, v))
            if key is CV and visible(a):
                req(close(cv_stats(lt[a][CV])[1], v, 1e-6),
                    'the returned leaf has another numeric value')
    else:
        have = sorted(repr(abstr(a)) for a in lt if visible(a))
        want = sorted(repr(abstr(a)) for a in flat if visible(a))
        req(have == want, 'the returned leaf has other attributes: %s vs %s'
            % (short(have), short(want)))
    return leaf


def case_C03(rng):
    kind, stream = gen_history(rng, maxn=25)
    tree = make_tree(rng, kind)
    if rng.random() < 0.75:
        for inst in stream:
            check_fit_once(tree, kind, inst)
    else:
        it = rng.choice([1, 1, 2, 3]) if rng.random() < 0.9 else \
            rng.randint(4, 8)
        rf = rng.choice([True, False])
        orig = copy.deepcopy(stream)
        tree.fit(stream, iterations=it, randomize_first=rf)
        req(tree.root.count == it * len(stream),
            'batch fit of %d x %d instances recorded %r'
            % (len(stream), it, tree.root.count))
        if kind != 'trestle':
            t = {}
            for _ in range(it):
                for inst in orig:
                    t = table_inc(t, inst, kind == 'cobweb3')
            d = table_eq(table_view(tree.root), t)
            req(d is None, 'batch fit: %s' % d)
    if rng.random() < 0.15:
        dummy_case(rng)
    return dict(nontrivial=len(stream) > 1, sample=short(stream))


def dummy_case(rng):
    from concept_formation.dummy import DummyTree
    t = DummyTree()
    n = rng.randint(1, 5)
    for i in range(n):
        inst = gen_struct(rng)
        b = table_view(t.root)
        from concept_formation.preprocessor import Flattener
        dm = rng.random() < 0.5 and i > 0
        nflat = len(flat_form(inst) if dm else Flattener().transform(inst))
        r = t.ifit(inst, do_mapping=dm)
        req(r is t.root, 'dummy tree returned another concept')
        d = delta_obs(b, table_view(t.root))
        req(d is not None and all(x[2] == 1 for x in d) and
            len(d) == nflat, 'dummy tree did not record once')
    req(t.root.count == n, 'dummy tree count')


# ------------------------------------------------------------------ C04
def scramble(node):
    for a in list(node.av_counts):
        for v in list(node.av_counts[a]):
            c = node.av_counts[a][v]
            if is_cv(c):
                c.num += 3
                c.mean -= 7
                c.meanSq += 11
            else:
                node.av_counts[a][v] = c + 13
        node.av_counts[a]['scrambled'] = 1
    node.av_counts['scrambled'] = {'x': 1}
    node.count += 5
    del node.children[:]


def queries(rng, kind, tree, stream):
    nodes = all_nodes(tree.root)
    n = rng.choice(nodes)
    m = rng.choice(nodes)
    inner = [x for x in nodes if x.children]
    big = [x for x in nodes if len(x.children) > 2]
    inst = copy.deepcopy(rng.choice(stream))
    for a in list(inst):
        if rng.random() < 0.3:
            del inst[a]
    if kind == 'trestle':
        if not inst:
            inst = {'label': 'A'}
        finst = None
        for _ in range(1):
            finst = {a: (list(r)[0] if not is_cv(list(r.values())[0])
                         else 1.5) for a, r in n.av_counts.items()
                     if rng.random() < 0.7}
    else:
        if rng.random() < 0.3:
            inst['new attr'] = rng.choice(['q', 'x'])
        if rng.random() < 0.3:
            inst['d'] = rng.choice([5, 'q'])
        finst = inst
    attrs = list(n.av_counts) + ['unseen']
    at = rng.choice(attrs)
    vals = list(n.av_counts.get(at, {})) + ['other', None]
    if kind != 'cobweb':
        vals += [0.5, 3]
    val = rng.choice([v for v in vals if v != CV])
    ch = rng.choice(['most likely', 'sampled'])
    an = rng.choice([True, False])
    qs = [
        ('categorize', lambda: tree.categorize(inst)),
        ('infer_missing', lambda: infer(tree, inst, ch, an)),
        ('predict', lambda: n.predict(at, ch, an)),
        ('probability', lambda: n.probability(at, val)),
        ('get_weighted_values', lambda: n.get_weighted_values(at, an)),
        ('expected_correct_guesses', lambda: n.expected_correct_guesses()),
        ('category_utility', lambda: n.category_utility()),
        ('is_exact_match', lambda: n.is_exact_match(finst)),
        ('log_likelihood', lambda: safe_ll(n)),
        ('output_json', lambda: n.output_json()),
        ('str', lambda: (str(tree), n.pretty_print())),
        ('num_concepts', lambda: (n.num_concepts(), n.depth(), n.is_parent(m))),
        ('attrs', lambda: list(n.attrs())),
        ('shallow_copy', lambda: n.shallow_copy()),
        ('copy', lambda: n.__class__(n)),
        ('cu_for_fringe_split', lambda: n.cu_for_fringe_split(finst)),
    ]
    if inner:
        i = rng.choice(inner)
        c = rng.choice(i.children)
        qs += [
            ('two_best_children', lambda: i.two_best_children(finst)),
            ('best_op', lambda: i.get_best_operation(
                finst, *(lambda t: (t[1], t[2], t[0]))(
                    i.two_best_children(finst)))),
            ('cu_for_insert', lambda: i.cu_for_insert(c, finst)),
            ('relative', lambda: i.relative_cu_for_insert(c, finst)),
            ('const', lambda: i.compute_relative_CU_const(finst)),
            ('cu_for_new_child', lambda: i.cu_for_new_child(finst)),
            ('cu_for_split', lambda: i.cu_for_split(c)),
        ]
    if big:
        b = rng.choice(big)
        x, y = rng.sample(b.children, 2)
        qs.append(('cu_for_merge', lambda: b.cu_for_merge(x, y, finst)))
    return qs, inst, finst


def safe_ll(n):
    m = n
    while m.parent is not None and m.parent.parent is not None:
        m = m.parent
    return m.log_likelihood(n)


def case_C04(rng):
    if rng.random() < 0.15:
        return c04_dummy(rng)
    kind, stream, tree = grown_tree(rng, maxn=20)
    qs, inst, finst = queries(rng, kind, tree, stream)
    rng.shuffle(qs)
    i0, f0 = copy.deepcopy(inst), copy.deepcopy(finst)
    s0 = snapshot(tree)
    for name, q in qs:
        r = q()
        d = snap_diff(s0, snapshot(tree))
        req(d is None, '%s changed what was learned: %s' % (name, d),
            query=name)
        req(inst == i0 and finst == f0, '%s changed the instance' % name)
        if name in ('shallow_copy', 'copy'):
            scramble(r)
            d = snap_diff(s0, snapshot(tree))
            req(d is None, 'a %s shares state with the tree: %s' % (name, d))
        if name == 'infer_missing':
            req(r is not inst, 'infer_missing handed back the instance itself')
            if r is not None:
                r['zz'] = 1
            req(inst == i0, 'an inferred instance is shared with the input')
        if name == 'output_json':
            for k in r['counts'].values():
                k.clear()
            r['counts'].clear()
            del r['children'][:]
            d = snap_diff(s0, snapshot(tree))
            req(d is None, 'an export shares state with the tree: %s' % d)
        if name == 'get_weighted_values':
            del r[:]
            d = snap_diff(s0, snapshot(tree))
            req(d is None, 'choices share state with the tree')
    if rng.random() < 0.4:
        from concept_formation import evaluation as ev
        attr = rng.choice(list(inst) or ['a'])
        v = inst.get(attr)
        if not isinstance(v, dict):
            for f in (ev.probability, ev.error, ev.absolute_error,
                      ev.squared_error):
                try:
                    f(tree, inst, attr, v)
                except Exception:
                    pass
                d = snap_diff(s0, snapshot(tree))
                req(d is None, 'evaluation changed the tree: %s' % d)
                req(inst == i0, 'evaluation changed the instance')
    return dict(nontrivial=bool(tree.root.children), sample=short(stream))


def c04_dummy(rng):
    from concept_formation.dummy import DummyTree
    t = DummyTree()
    for i in range(rng.randint(1, 4)):
        t.ifit(gen_struct(rng))
    s0 = snapshot(t)
    inst = gen_struct(rng)
    t.categorize(inst)
    infer(t, inst)
    d = snap_diff(s0, snapshot(t))
    req(d is None, 'a query changed the baseline tree: %s' % d)
    return dict(nontrivial=True, sample=short(inst))


# ------------------------------------------------------------------ C07
def flat_query(rng, node, numeric):
    """an instance over the node's vocabulary plus something new"""
    inst = {}
    for a, r in node.av_counts.items():
        if rng.random() < 0.75:
            v = rng.choice(list(r))
            inst[a] = (rng.choice([0, 1, 2.5, round(r[v].mean, 2)])
                       if v == CV else v)
    if rng.random() < 0.3:
        inst['zz'] = rng.choice(['q', 4] if numeric else ['q', 'r'])
    if rng.random() < 0.3:
        inst['_zz'] = 'hidden'
    return inst


def case_C07(rng):
    kind, stream, tree = grown_tree(rng, maxn=20)
    num = numeric_kind(tree)
    nodes = all_nodes(tree.root)
    for n in nodes:
        if n.count == 0:
            continue
        got = n.expected_correct_guesses()
        want = ecg_def(n.count, table_view(n), tree)
        req(close(got, want, 1e-6), 'expected correct guesses %r, by definition %r'
            % (got, want), concept=short(table_view(n)))
        req(-1e-9 <= got <= 1 + 1e-9, 'expected correct guesses %r' % got)
        if rng.random() < 0.2:
            alone = n.__class__()
            alone.update_counts_from_node(n)
            if alone.tree is None:
                a, b = (alone.expected_correct_guesses(),
                        ecg_def(n.count, table_view(n), None))
                req(close(a, b, 1e-6), 'expected correct guesses of a '
                    'concept without a tree %r, by definition %r' % (a, b))
        got = n.category_utility()
        want = cu_def(nview(n), [nview(c) for c in n.children], tree)
        req(close(got, want, 1e-6), 'category utility %r, by definition %r'
            % (got, want))
        if rng.random() < 0.3 and n.av_counts:
            # hidden attributes never matter
            cp = n.shallow_copy()
            cp.increment_counts({'_hidden!': 'x'})
            cp2 = n.shallow_copy()
            cp2.increment_counts({})
            req(close(cp.expected_correct_guesses(),
                      cp2.expected_correct_guesses()),
                'a hidden attribute influenced the score')
    inner = [n for n in nodes if n.children]
    for n in rng.sample(inner, min(3, len(inner))):
        inst = flat_query(rng, n, num)
        pv = vinc(nview(n), inst, num)
        scores = []
        for c in n.children:
            want = cu_def(pv, [vinc(nview(x), inst, num) if x is c else
                               nview(x) for x in n.children], tree)
            got = n.cu_for_insert(c, inst)
            req(close(got, want, 1e-6),
                'insertion score %r, by definition %r' % (got, want),
                instance=short(inst))
            rel = n.relative_cu_for_insert(c, inst)
            short_cu = (rel / (n.count + 1) / len(n.children) +
                        n.compute_relative_CU_const(inst))
            req(close(short_cu, want, 1e-6),
                'incremental insertion score %r, by definition %r'
                % (short_cu, want), instance=short(inst))
            scores.append(want)
        cu, b1, b2 = n.two_best_children(inst)
        want = cu_def(pv, [vinc(nview(x), inst, num) if x is b1 else nview(x)
                           for x in n.children], tree)
        req(close(cu, want, 1e-6), 'reported best insertion score %r, by '
            'definition %r' % (cu, want), instance=short(inst))
    return dict(nontrivial=bool(inner), sample=short(stream))


# ------------------------------------------------------------------ C08
def case_C08(rng):
    r = rng.random()
    if r < 0.35:
        return c08_learn(rng)
    kind, stream, tree = grown_tree(rng, maxn=22)
    num = numeric_kind(tree)
    nodes = all_nodes(tree.root)
    inner = [n for n in nodes if n.children]
    for n in rng.sample(nodes, min(3, len(nodes))):
        if n.count == 0:
            continue
        inst = flat_query(rng, n, num)
        got = n.cu_for_fringe_split(inst)
        want = cu_def(vinc(nview(n), inst, num),
                      [nview(n), vinc(EMPTY, inst, num)], tree)
        req(close(got, want, 1e-6), 'specialisation score %r, by definition %r'
            % (got, want))
    for n in rng.sample(inner, min(3, len(inner))):
        inst = flat_query(rng, n, num)
        pv = vinc(nview(n), inst, num)
        kids = n.children
        got = n.cu_for_new_child(inst)
        want = cu_def(pv, [nview(x) for x in kids] +
                      [vinc(EMPTY, inst, num)], tree)
        req(close(got, want, 1e-6), 'new-child score %r, after the change %r'
            % (got, want))
        scores = {'new': want}
        ins = {}
        for c in kids:
            ins[id(c)] = cu_def(pv, [vinc(nview(x), inst, num) if x is c
                                     else nview(x) for x in kids], tree)
        cu, b1, b2 = n.two_best_children(inst)
        req(any(b1 is c for c in kids), 'best child is not a child')
        best = max(ins.values())
        req(ins[id(b1)] >= best - 1e-6, 'child scored %r chosen over %r'
            % (ins[id(b1)], best), instance=short(inst))
        if len(kids) > 1:
            req(b2 is not None and b2 is not b1 and any(b2 is c for c in kids),
                'second best child is wrong')
            second = sorted(ins.values())[-2]
            req(ins[id(b2)] >= second - 1e-6,
                'second child scored %r chosen over %r' % (ins[id(b2)], second))
        else:
            req(b2 is None, 'second child out of nowhere')
        scores['best'] = ins[id(b1)]
        pair = rng.sample(kids, 2) if len(kids) >= 2 else None
        pairs = []
        if len(kids) > 2:
            pairs = [(b1, b2), tuple(pair)]
        for x, y in pairs:
            got = n.cu_for_merge(x, y, inst)
            want = cu_def(pv, [vinc(vadd(nview(x), nview(y)), inst, num)] +
                          [nview(z) for z in kids if z is not x and z is not y],
                          tree)
            req(close(got, want, 1e-6), 'merge score %r, after the change %r'
                % (got, want))
            if x is b1 and y is b2:
                scores['merge'] = want
        for x in kids:
            got = n.cu_for_split(x)
            want = cu_def(nview(n), [nview(z) for z in kids if z is not x] +
                          [nview(z) for z in x.children], tree)
            req(close(got, want, 1e-6), 'split score %r, after the change %r'
                % (got, want))
            if x is b1 and x.children:
                scores['split'] = want
        ops = ['best', 'new', 'merge', 'split']
        poss = rng.choice([ops, ops, rng.sample(ops, rng.randint(1, 4))])
        app = [o for o in poss if o in scores]
        if app:
            if poss is ops and rng.random() < 0.5:
                sc, op = n.get_best_operation(inst, b1, b2, cu)
            else:
                sc, op = n.get_best_operation(inst, b1, b2, cu, list(poss))
            req(op in app, 'operator %r chosen although only %r apply'
                % (op, app))
            req(close(sc, scores[op], 1e-6), 'reported score %r of %r is %r'
                % (sc, op, scores[op]))
            top = max(scores[o] for o in app)
            req(scores[op] >= top - 1e-6, 'operator %r scored %r chosen over %r'
                % (op, scores[op], top), instance=short(inst))
        # achieved scores on a copy of the tree
        if rng.random() < 0.4:
            memo = {}
            t2 = copy.deepcopy(tree, memo)
            n2 = memo[id(n)]
            which = rng.choice(['new', 'merge', 'split'])
            if which == 'new':
                p = n.cu_for_new_child(inst)
                n2.increment_counts(inst)
                n2.create_new_child(inst)
                a = n2.category_utility()
            elif which == 'merge' and pairs:
                p = n.cu_for_merge(pair[0], pair[1], inst)
                n2.increment_counts(inst)
                m = n2.merge(memo[id(pair[0])], memo[id(pair[1])])
                m.increment_counts(inst)
                a = n2.category_utility()
            else:
                x = rng.choice(kids)
                if not x.children:
                    continue
                p = n.cu_for_split(x)
                n2.split(memo[id(x)])
                a = n2.category_utility()
            req(close(p, a, 1e-6), '%s was scored %r but achieved %r'
                % (which, p, a))
    return dict(nontrivial=bool(inner), sample=short(stream))


TOL = 1e-6


def vt(node):
    return (node.count, table_view(node), [vt(c) for c in node.children])


def vt_eq(t, u):
    """same hierarchy up to the order of children and rounding"""
    if t[0] != u[0] or len(t[2]) != len(u[2]) or \
            table_eq(t[1], u[1]) is not None:
        return False
    rest = list(u[2])
    for c in t[2]:
        for k in rest:
            if vt_eq(c, k):
                rest.remove(k)
                break
        else:
            return False
    return True


class TooMany(Exception):
    pass


def matches(t, inst, num):
    """is the instance identical, on visible attributes, to all of leaf t"""
    if t[0] == 0:
        return True
    va = set(a for a in t[1] if visible(a))
    if va != set(a for a in inst if visible(a)):
        return False
    for a in va:
        row = t[1][a]
        if len(row) != 1:
            return False
        v = inst[a]
        key = CV if num and is_num(v) else v
        if key not in row:
            return False
        c = row[key]
        if isinstance(c, tuple):
            n, m, msq = cv_stats(c)
            if n != t[0] or not close(m, v, 1e-9) or msq > 1e-6:
                return False
        elif c != t[0]:
            return False
    return True


def learn_oracle(t, inst, num, tree, budget):
    """all results (view trees) that the definition of the learner allows"""
    budget[0] -= 1
    if budget[0] < 0:
        raise TooMany()
    cnt, tab, kids = t
    v = (cnt, tab)
    vi = vinc(v, inst, num)
    if not kids:
        if matches(t, inst, num):
            return [(vi[0], vi[1], [])]
        nw = vinc(EMPTY, inst, num)
        return [(vi[0], vi[1], [t, (nw[0], nw[1], [])])]
    kv = [(k[0], k[1]) for k in kids]
    ins = [cu_def(vi, [vinc(x, inst, num) if j == i else x
                       for j, x in enumerate(kv)], tree)
           for i in range(len(kids))]

    def better(i, j):      # i may precede j
        return ins[i] > ins[j] + TOL or abs(ins[i] - ins[j]) <= TOL
    order = range(len(kids))
    firsts = [i for i in order if all(better(i, j) for j in order if j != i)]
    out = []
    for b1 in firsts:
        rest = [i for i in order if i != b1]
        seconds = [i for i in rest if all(better(i, j) for j in rest if j != i)]
        for b2 in (seconds or [None]):
            sc = {'best': ins[b1],
                  'new': cu_def(vi, kv + [vinc(EMPTY, inst, num)], tree)}
            if len(kids) > 2 and b2 is not None:
                sc['merge'] = cu_def(vi, [vinc(vadd(kv[b1], kv[b2]), inst, num)]
                                     + [kv[i] for i in order
                                        if i not in (b1, b2)], tree)
            if kids[b1][2]:
                sc['split'] = cu_def(v, [kv[i] for i in order if i != b1] +
                                     [(k[0], k[1]) for k in kids[b1][2]], tree)
            top = max(sc.values())
            for op in sc:
                if sc[op] < top - TOL:
                    continue
                if op == 'new':
                    nw = vinc(EMPTY, inst, num)
                    out.append((vi[0], vi[1], kids + [(nw[0], nw[1], [])]))
                elif op == 'best':
                    for r in learn_oracle(kids[b1], inst, num, tree, budget):
                        out.append((vi[0], vi[1],
                                    [kids[i] for i in rest] + [r]))
                elif op == 'merge':
                    mv = vadd(kv[b1], kv[b2])
                    m = (mv[0], mv[1], [kids[b1], kids[b2]])
                    for r in learn_oracle(m, inst, num, tree, budget):
                        out.append((vi[0], vi[1],
                                    [kids[i] for i in order
                                     if i not in (b1, b2)] + [r]))
                else:
                    s = (cnt, tab, [kids[i] for i in rest] + kids[b1][2])
                    out += learn_oracle(s, inst, num, tree, budget)
            if len(out) > 200:
                raise TooMany()
    return out


def c08_learn(rng):
    """the learned tree is one the definition allows"""
    kind, stream = gen_history(rng, rng.choice(['cobweb', 'cobweb3']), 16)
    tree = make_tree(rng, kind)
    num = kind == 'cobweb3'
    done = 0
    for inst in stream:
        before = vt(tree.root)
        tree.ifit(inst)
        after = vt(tree.root)
        try:
            allowed = learn_oracle(before, inst, num, tree, [150])
        except TooMany:
            continue
        done += 1
        req(any(vt_eq(a, after) for a in allowed),
            'the learned hierarchy is not one the best-scoring operators give',
            instance=short(inst), before=short(before), after=short(after))
    return dict(nontrivial=done > 3, sample=short(stream))


# ------------------------------------------------------------------ C09
def support(node, attr, allow_none):
    row = node.av_counts[attr]
    w = {}
    tot = 0
    for v, c in row.items():
        k = c.num if is_cv(c) else c
        w[v] = k / node.count
        tot += k
    if allow_none:
        w[None] = (node.count - tot) / node.count
    return w


def check_pred(node, attr, ch, an, got):
    if attr not in node.av_counts:
        req(got is None, 'unknown attribute predicted as %r' % (got,))
        return
    w = support(node, attr, an)
    best = max(w.values())
    row = node.av_counts[attr]
    like = ch in ('m', 'most likely')
    if CV in row and is_num(got):
        req(w[CV] > 0, 'numeric value predicted with no numeric observation')
        if like:
            req(close(got, row[CV].mean), 'numeric prediction %r, mean %r'
                % (got, row[CV].mean))
            req(w[CV] >= best - 1e-12, 'numeric value predicted with weight '
                '%r although %r exists' % (w[CV], best))
        return
    req(got in w, 'predicted %r was never observed' % (got,))
    if like:
        req(w[got] >= best - 1e-12, 'predicted %r has probability %r, best is %r'
            % (got, w[got], best))
    else:
        req(w[got] > 0, 'sampled %r has probability zero' % (got,))


def case_C09(rng):
    from concept_formation.utils import most_likely_choice, weighted_choice
    r = rng.random()
    if r < 0.15:
        ch = [(rng.choice(['a', 'b', 'c', None, 1]),
               rng.choice([0, 0.0, 0.25, 0.5, 1, 3]))
              for _ in range(rng.randint(0, 5))]
        if not ch or all(w == 0 for _, w in ch):
            if not ch:
                for f in (most_likely_choice, weighted_choice):
                    try:
                        f(list(ch))
                    except ValueError:
                        continue
                    raise Violation('a choice was made from nothing')
            return dict(nontrivial=False, sample='')
        c0 = list(ch)
        m = most_likely_choice(ch)
        best = max(w for _, w in ch)
        req(any(c == m and w == best for c, w in ch),
            'most likely choice %r of %r' % (m, ch))
        s = weighted_choice(ch)
        req(any(c == s and w > 0 for c, w in ch),
            'sampled choice %r of %r' % (s, ch))
        req(ch == c0, 'choices were modified')
        bad = ch + [('n', -1)]
        rng.shuffle(bad)
        try:
            most_likely_choice(bad)
        except ValueError:
            pass
        else:
            raise Violation('negative weight accepted', choices=bad)
        return dict(nontrivial=True, sample=repr(ch))
    kind, stream, tree = grown_tree(rng, maxn=18)
    nodes = all_nodes(tree.root)
    for _ in range(6):
        n = rng.choice(nodes)
        if n.count == 0:
            continue
        at = rng.choice(list(n.av_counts) + ['unseen'])
        ch = rng.choice(['most likely', 'sampled', 'm', 's'])
        an = rng.choice([True, False])
        got = n.predict(at, ch, an)
        check_pred(n, at, ch, an, got)
    # inference
    inst = copy.deepcopy(rng.choice(stream))
    for a in list(inst):
        if rng.random() < 0.4:
            del inst[a]
    if kind == 'trestle' and not inst:
        inst = {'label': 'A'}
    ch = rng.choice(['most likely', 'sampled'])
    an = rng.choice([True, False])
    i0 = copy.deepcopy(inst)
    res = infer(tree, inst, ch, an)
    req(inst == i0, 'infer_missing modified the instance')
    if res is None:
        return dict(nontrivial=False, sample='')
    if kind != 'trestle':
        for a in inst:
            req(a in res and res[a] == inst[a] and type(res[a]) == type(inst[a]),
                'given attribute %r=%r became %r' % (a, inst[a], res.get(a)))
        cands = possible_leaves(tree, inst)
        ok = None
        for leaf in cands:
            try:
                for a in res:
                    if a not in inst:
                        req(a in leaf.av_counts,
                            'added attribute %r is unknown to the concept' % (a,))
                        req(res[a] is not None, 'an explicit missing value was added')
                        check_pred(leaf, a, ch, an, res[a])
                for a in leaf.av_counts:
                    if a not in res:
                        w = support(leaf, a, an)
                        req(None in w and w[None] > 0,
                            'attribute %r was not inferred' % (a,))
                ok = True
                break
            except Violation as e:
                err = e
        if not ok and len(cands) < 50:
            raise err
    else:
        if 'label' in inst:
            req(res.get('label') == inst['label'], 'given label changed')
        leafvals = set()

        def vals(d):
            out = []
            for k, v in d.items():
                if isinstance(v, dict):
                    out += vals(v)
                else:
                    out.append(v)
            return out
        given = sorted(repr(v) for v in vals(inst))
        have = sorted(repr(v) for v in vals(res))
        for g in given:
            req(g in have, 'a given value %s is gone from %s' % (g, short(res)))
            have.remove(g)
        req('None' not in have, 'an explicit missing value was added: %s'
            % short(res))
        seen = set(repr(v) for row in tree.root.av_counts.values()
                   for v in row)
        for h in have:
            try:
                float(h)
            except ValueError:
                req(h in seen, 'an added value %s was never learned' % h)
    return dict(nontrivial=bool(tree.root.children), sample=short(inst))


def infer(tree, inst, *a):
    """infer_missing; a RecursionError of the structured learner is the
    recorded finding F1 (contradictory inferred component nesting)."""
    try:
        return tree.infer_missing(inst, *a)
    except RecursionError:
        if not hasattr(tree, 'gensym_counter'):
            raise
        return None


def possible_leaves(tree, inst):
    """leaves that best-child descent may reach (all tie breaks)"""
    num = numeric_kind(tree)
    out, work, n = [], [tree.root], 0
    while work and n < 200:
        n += 1
        x = work.pop()
        if not x.children:
            out.append(x)
            continue
        pv = vinc(nview(x), inst, num)
        kv = [nview(c) for c in x.children]
        s = [cu_def(pv, [vinc(v, inst, num) if j == i else v
                         for j, v in enumerate(kv)], tree)
             for i in range(len(kv))]
        top = max(s)
        work += [c for c, v in zip(x.children, s) if v >= top - 1e-6]
    return out


# ------------------------------------------------------------------ C10
def check_pure(tree, num):
    for n in all_nodes(tree.root):
        if n.children or n.count == 0:
            continue
        for a, row in n.av_counts.items():
            if not visible(a):
                continue
            req(len(row) == 1, 'a leaf mixes values of %r: %s' % (a, short(row)))
            (v, c), = row.items()
            if is_cv(c):
                req(c.num == n.count, 'a leaf of %r instances has %r numeric '
                    'values of %r' % (n.count, c.num, a))
                req(c.meanSq <= 1e-9, 'a leaf mixes numeric values of %r: %s'
                    % (a, c))
            else:
                req(c == n.count, 'a leaf of %r instances has %r values of %r'
                    % (n.count, c, a))


def case_C10(rng):
    kind, stream = gen_history(rng, maxn=30)
    tree = make_tree(rng, kind)
    num = kind != 'cobweb'
    if kind != 'trestle' and rng.random() < 0.5:
        # tag instances so that every leaf's membership is known
        stream = [dict(i) for i in stream]
        for k, i in enumerate(stream):
            i['_id'] = 'i%d' % k
        tag = True
    else:
        tag = False
    for inst in stream:
        tree.ifit(inst)
    check_pure(tree, num)
    if tag:
        def key(i):
            return sorted((repr(a), 'n%r' % float(v) if num and is_num(v)
                           else repr(v) if not is_num(v) else 'k%r' % hash(v))
                          for a, v in i.items() if visible(a))
        for n in all_nodes(tree.root):
            if not n.children and n.count:
                ids = [k for k in n.av_counts.get('_id', {})]
                req(len(ids) == n.count, 'leaf membership')
                ks = [key(stream[int(i[1:])]) for i in ids]
                ref = stream[int(ids[0][1:])]
                for i in ids:
                    o = stream[int(i[1:])]
                    va = {a: v for a, v in o.items() if visible(a)}
                    vb = {a: v for a, v in ref.items() if visible(a)}
                    same = set(va) == set(vb) and all(
                        (va[a] == vb[a] and
                         (not num or is_num(va[a]) == is_num(vb[a])))
                        for a in va)
                    req(same, 'two different instances share a leaf: %s / %s'
                        % (short(o), short(ref)))
    # exact match in both directions
    for _ in range(4):
        n = rng.choice(all_nodes(tree.root))
        if n.count == 0:
            continue
        inst = flat_query(rng, n, num) if rng.random() < 0.5 else {
            a: (r[CV].mean if CV in r else list(r)[0])
            for a, r in n.av_counts.items()}
        rr = rng.random()
        if rr < 0.2 and inst:
            inst.pop(rng.choice(list(inst)))
        elif rr < 0.3:
            inst['_other'] = 'hid'
        elif rr < 0.4:
            inst['other'] = 'vis'
        got = n.is_exact_match(inst)
        want = matches((n.count, table_view(n), []), inst, num)
        near = False
        for a in inst:
            r = n.av_counts.get(a, {})
            if CV in r and is_num(inst[a]):
                n_, m_, q_ = r[CV].num, r[CV].mean, r[CV].meanSq
                if (0 < abs(m_ - inst[a]) < 1e-6) or (0 < q_ < 1e-5):
                    near = True
        if not near:
            req(bool(got) == want, 'exact match says %r for %s on %s' %
                (got, short(inst), short(table_view(n))))
    return dict(nontrivial=bool(tree.root.children), sample=short(stream))


# ------------------------------------------------------------------ C11
class NoHash(object):
    __hash__ = None

    def __repr__(self):
        return '<nohash>'


def case_C11(rng):
    kind, stream, tree = grown_tree(rng, maxn=10)
    if rng.random() < 0.25:
        tree.clear()
    extra = (gen_struct_stream(rng, 4) if kind == 'trestle' else
             gen_flat_stream(rng, 4, kind == 'cobweb3'))
    # valid instances are accepted and unmodified
    inst = rng.choice(extra)
    i0 = copy.deepcopy(inst)
    o0 = list(inst)
    what = rng.choice(['ifit', 'categorize', 'infer_missing', 'fit'])
    if what == 'fit':
        lst = list(extra)
        l0 = list(lst)
        d0 = copy.deepcopy(extra)
        tree.fit(lst, iterations=rng.choice([1, 2]),
                 randomize_first=rng.choice([True, False]))
        req(len(lst) == len(l0) and all(a is b for a, b in zip(lst, l0)),
            'fit reordered or changed the list of instances')
        req(lst == d0, 'fit modified an instance')
    else:
        try:
            if what == 'infer_missing':
                infer(tree, inst)
            else:
                getattr(tree, what)(inst)
        except ValueError as e:
            raise Violation('%s rejected a valid instance %s: %s'
                            % (what, short(inst), e))
    req(inst == i0 and list(inst) == o0, '%s modified its instance' % what)
    # invalid ones are rejected before anything changes
    if rng.random() < 0.25:
        tree.clear()
    bad = dict(copy.deepcopy(rng.choice(extra)))
    defect = rng.choice(['attr int', 'attr empty', 'attr float', 'val list',
                         'val dict', 'val none', 'val set', 'val obj',
                         'rel', 'nested', 'frozenset'])
    if defect == 'attr int':
        bad[rng.choice([3, 0, True])] = 'x'
    elif defect == 'attr empty':
        bad[rng.choice(['', ()])] = 'x'
    elif defect == 'attr float':
        bad[2.5] = 'x'
    elif defect == 'frozenset':
        bad[frozenset(['a'])] = 'x'
    elif defect == 'val list':
        bad['zz'] = [1, 2]
        if kind == 'trestle':
            bad['zz'] = [1, 2]
    elif defect == 'val dict':
        if kind == 'trestle':
            bad['zz'] = rng.choice([{'q': set([1])}, {'q': {'r': [1]}},
                                    {5: 'x'}, {'q': {2.5: 'x'}},
                                    {'q': {('r', 5): 'x'}}])
        else:
            bad['zz'] = {'q': 1}
    elif defect == 'val none':
        if kind == 'trestle':
            return dict(nontrivial=False, sample='')
        bad['zz'] = None
        if rng.random() < 0.3:
            bad['_zz'] = None
            del bad['zz']
    elif defect == 'val set':
        bad['zz'] = set([1])
    elif defect == 'val obj':
        bad['zz'] = NoHash()
    elif defect == 'rel':
        if kind != 'trestle':
            return dict(nontrivial=False, sample='')
        if rng.random() < 0.5:
            for k in list(bad):
                if isinstance(bad[k], dict) or rng.random() < 0.5:
                    del bad[k]
        bad[rng.choice([('rel', 5, 'x'), ('rel', ('f', 5), 'x'),
                        ('rel', ('f', ('g', None)), '?x'), ('a', 2.5)])] = \
            rng.choice([True, 'x', 1.5])
    elif defect == 'nested':
        if kind != 'trestle':
            bad['zz'] = (1, [2])
        else:
            bad['?zz'] = {'k': [1]}
    keys = list(bad)
    rng.shuffle(keys)
    bad = {k: bad[k] for k in keys}
    b0 = copy.deepcopy(bad) if defect != 'val obj' else None
    k0 = list(bad)
    s0 = snapshot(tree)
    what = rng.choice(['ifit', 'ifit', 'categorize', 'infer_missing'])
    if kind == 'trestle':
        if what == 'infer_missing':
            what = 'ifit'
        if True:
            # the structured learner may already fail in preprocessing, with
            # other errors
            try:
                getattr(tree, what)(bad)
            except Exception:
                pass
            else:
                raise Violation('%s accepted an invalid instance (%s)'
                                % (what, defect))
            d = snap_diff(s0, snapshot(tree))
            req(d is None, 'a rejected instance changed the tree: %s' % d)
            req(list(bad) == k0, 'a rejected instance was modified')
            return dict(nontrivial=True, sample=defect + short(bad))
    try:
        getattr(tree, what)(bad)
    except ValueError:
        pass
    except Exception as e:
        raise Violation('%s failed with %r instead of rejecting (%s)'
                        % (what, e, defect), instance=short(bad))
    else:
        raise Violation('%s accepted an invalid instance (%s): %s'
                        % (what, defect, short(bad)))
    d = snap_diff(s0, snapshot(tree))
    req(d is None, 'a rejected instance changed the tree: %s' % d)
    req(list(bad) == k0 and (b0 is None or bad == b0),
        'a rejected instance was modified')
    # a batch with a bad one
    return dict(nontrivial=True, sample=defect + short(bad))


# ------------------------------------------------------------------ C15
def flat_num(inst):
    out = []
    for a, v in inst.items():
        if is_num(v):
            out.append((a, v))
    return out


def case_C15(rng):
    kind = rng.choice(['cobweb3', 'cobweb3', 'trestle'])
    tree = make_tree(rng, kind)
    inner = tree.inner_attr_scaling
    sc = tree.scaling
    data = {}
    kind, stream = gen_history(rng, kind, maxn=20)
    if kind == 'trestle':
        # a variable itself is renamed on the way in
        stream = [{a: v for a, v in i.items() if a[:2] != '?v'} or
                  {'num': 1} for i in stream]
    if kind == 'cobweb3' and rng.random() < 0.5:
        for i in stream:
            if rng.random() < 0.6:
                i[rng.choice([('size', 'o1'), ('size', 'o2'),
                              ('size', ('p', 'o1')), 'size',
                              ('size', 'o1', 'o2', 'o3', 'o4'),
                              ('size', 'o2', ('p', ('q', 'o1'))),
                              ('_', ('size', 'o3'))])] = rng.choice(NUMS)
            if rng.random() < 0.2:
                i['flag'] = rng.choice([True, False])

    def check():
        req(set(tree.attr_scales) == set(data),
            'scales are kept for %s, numeric values were learned for %s'
            % (short(sorted(map(repr, tree.attr_scales))),
               short(sorted(map(repr, data)))))
        for k, xs in data.items():
            c = tree.attr_scales[k]
            n = len(xs)
            m = sum(xs) / n
            q = sum((x - m) ** 2 for x in xs)
            req(c.num == n and close(c.mean, m, 1e-7) and close(c.meanSq, q, 1e-6),
                'scale of %r is %r, learned values %s' % (k, cv_view(c), short(xs)))
        req(tree.scaling == sc and tree.inner_attr_scaling == inner,
            'configuration changed')
    for inst in stream:
        r = rng.random()
        if r < 0.1:
            tree.categorize(inst)
            check()
        elif r < 0.2:
            infer(tree, inst)
            check()
        elif r < 0.25 and kind == 'cobweb3':
            b = dict(inst)
            b['num!'] = 5
            b['bad'] = [1]
            try:
                tree.ifit(b)
            except ValueError:
                pass
            check()
        elif r < 0.29:
            tree.clear()
            data.clear()
            req(tree.root.count == 0 and not tree.root.children and
                not tree.root.av_counts and tree.root.parent is None and
                tree.root.tree is tree, 'clear left concepts behind')
            check()
        tree.ifit(inst)
        flat = inst if kind == 'cobweb3' else flat_form(inst)
        for a, v in flat_num(flat):
            if isinstance(a, tuple) and inner:
                a = a[0]
            elif kind == 'trestle' and not inner:
                return dict(nontrivial=False, sample='')
            data.setdefault(a, []).append(v)
        check()
    return dict(nontrivial=bool(data), sample=short(stream))
