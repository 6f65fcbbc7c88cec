SEEDS = [
 dict(id='c05-combine-flat-other', property='C05', file='continuous_value.py',
  old="        delta = other.mean - self.mean\n",
  new="        if other.meanSq == 0:\n            return self.update(other.mean)\n        delta = other.mean - self.mean\n",
  needs='combining a summary that holds several equal values',
  breaks='the number of values (and hence mean, deviations) after combining',
  demo="""
from concept_formation.continuous_value import ContinuousValue
a, b = ContinuousValue(), ContinuousValue()
a.update_batch([1.0, 4.0]); b.update_batch([7.0, 7.0, 7.0])
a.combine(b)
assert a.num == 5 and abs(a.mean - 26/5) < 1e-9, (a.num, a.mean)
"""),
 dict(id='c06-none-prob-hidden-attr', property='C06', file='cobweb3.py',
  old="            return ((self.count - c) / self.count)\n\n        if attr in self.av_counts and isNumber(val):",
  new="            return max(0.0, self.count - len(self.av_counts.get(attr, ())) if attr in self.av_counts and cv_key not in self.av_counts[attr] and len(self.av_counts[attr]) == self.count else self.count - c) / self.count\n\n        if attr in self.av_counts and isNumber(val):",
  needs='-', breaks='-', demo='assert False'),
 dict(id='c06-scale-zero-std', property='C06', file='cobweb3.py',
  old="                if scale == 0:\n                    scale = 1\n",
  new="                if scale < 1e-3:\n                    scale = 1\n",
  needs='a numeric attribute whose scale is small but positive',
  breaks='the density of a numeric value is not that of the scaled summary',
  demo="""
from math import sqrt, pi, exp
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
for x in (0.0, 0.0001, 0.0003):
    t.ifit({'a': x})
s = t.attr_scales['a']
cv = t.root.av_counts['a']['#ContinuousValue#']
scale = (1 / t.scaling) * s.unbiased_std()
std = sqrt((cv.unbiased_std() / scale) ** 2 + 1 / (2 * pi))
z = (0.0003 - s.mean) / scale - (cv.mean - s.mean) / scale
want = 1 / (sqrt(2 * pi) * std) * exp(-z * z / (2 * std * std))
got = t.root.probability('a', 0.0003)
assert abs(got - want) < 1e-9, (got, want)
"""),
 dict(id='c01-merge-shares-first', property='C01', file='cobweb3.py',
  old="                    self.av_counts[attr][val] = self.av_counts[attr].get(\n                        val, ContinuousValue())\n",
  new="                    if val not in self.av_counts[attr] and node.children:\n                        self.av_counts[attr][val] = node.av_counts[attr][val]\n                        continue\n                    self.av_counts[attr][val] = self.av_counts[attr].get(\n                        val, ContinuousValue())\n",
  needs='a merge or copy of an internal numeric concept followed by further learning through the copy',
  breaks='two concepts share one numeric summary',
  demo="""
import random
from concept_formation.cobweb3 import Cobweb3Tree, Cobweb3Node
t = Cobweb3Tree()
random.seed(1)
for i in range(30):
    t.ifit({'a': random.choice([1.0, 2.0, 9.0, 10.0]) + random.random(), 'k': random.choice('xyz')})
seen = {}
def walk(n):
    for a in n.av_counts:
        cv = n.av_counts[a].get('#ContinuousValue#')
        if cv is not None:
            assert id(cv) not in seen, 'shared'
            seen[id(cv)] = n
    for c in n.children:
        walk(c)
walk(t.root)
n = Cobweb3Node(); n.update_counts_from_node(t.root)
before = t.root.av_counts['a']['#ContinuousValue#'].num
n.increment_counts({'a': 3.0})
assert t.root.av_counts['a']['#ContinuousValue#'].num == before
"""),
 dict(id='c02-merge-parent', property='C02', file='cobweb.py',
  old="        best2.parent = new_child\n",
  new="        if best2.children:\n            best2.parent = new_child\n",
  needs='a merge whose second child is a leaf',
  breaks='the merged leaf points to its grandparent',
  demo="""
from concept_formation.cobweb import CobwebNode
r = CobwebNode()
for v in 'abc':
    r.increment_counts({'x': v}); r.create_new_child({'x': v})
m = r.merge(r.children[0], r.children[1])
for c in m.children:
    assert c.parent is m
"""),
 dict(id='c03-zero-value', property='C03', file='cobweb.py',
  old="            if instance[attr] not in self.av_counts[attr]:\n                self.av_counts[attr][instance[attr]] = 0\n            self.av_counts[attr][instance[attr]] += 1\n",
  new="            if not self.av_counts[attr].get(instance[attr]):\n                self.av_counts[attr] = {instance[attr]: 0, **self.av_counts[attr]} if len(self.av_counts[attr]) < 8 else dict(list(self.av_counts[attr].items())[1:] + [(instance[attr], 0)])\n            self.av_counts[attr][instance[attr]] += 1\n",
  needs='an attribute with more than eight different values',
  breaks='the count of the oldest value is dropped',
  demo="""
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
for i in range(12):
    t.ifit({'x': 'v%d' % i})
assert len(t.root.av_counts['x']) == 12
"""),
 dict(id='c04-insert-relinks', property='C04', file='cobweb.py',
  old="            temp_child = c.shallow_copy()\n            temp.children.append(temp_child)\n            temp_child.parent = temp\n            if c == child:\n",
  new="            temp_child = c.shallow_copy() if c == child else c\n            temp.children.append(temp_child)\n            temp_child.parent = temp\n            if c == child:\n",
  needs='asking for the utility of an insertion (cu_for_insert) on a concept with siblings',
  breaks='the siblings of the child are re-parented to a temporary concept',
  demo="""
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
for v in 'aab':
    t.ifit({'x': v, 'y': v})
t.root.cu_for_insert(t.root.children[0], {'x': 'a'})
for c in t.root.children:
    assert c.parent is t.root
"""),
 dict(id='c07-hidden-tuple', property='C07', file='cobweb.py',
  old="            return filter(lambda x: x[0] != \"_\", self.av_counts)",
  new="            return filter(lambda x: x[:1] != \"_\", self.av_counts)",
  needs='a hidden relational attribute such as (\"_\", \"a\")',
  breaks='hidden relational attributes influence the guess score',
  demo="""
from concept_formation.cobweb import CobwebNode
n = CobwebNode()
n.increment_counts({'x': 'a', ('_', 'h'): 'p'})
n.increment_counts({'x': 'a', ('_', 'h'): 'q'})
assert n.expected_correct_guesses() == 1.0
"""),
 dict(id='c08-split-keeps', property='C08', file='cobweb.py',
  old="        for c in self.children + best.children:\n            if c == best:\n                continue\n",
  new="        for c in self.children + best.children:\n            if c == best or not c.count:\n                continue\n",
  needs='-', breaks='-', demo='assert False'),
 dict(id='c08-merge-two', property='C08', file='cobweb.py',
  old="        if \"merge\" in possible_ops and len(self.children) > 2 and best2:\n",
  new="        if \"merge\" in possible_ops and best2 and (\n                len(self.children) > 2 or best2.children):\n",
  needs='a concept with exactly two children, the second of which has children',
  breaks='a merge of the only two children is offered (and learning may loop)',
  demo="""
from concept_formation.cobweb import CobwebNode
r = CobwebNode()
def add(p, inst):
    p.increment_counts(inst)
    return p.create_new_child(inst)
i = {'x': 'a', 'y': 'b'}
c1 = add(r, i)
c2 = add(r, i)
for v in (i, i):
    c2.create_new_child(v); c2.increment_counts(v)
import concept_formation.cobweb as m
ops = []
orig = CobwebNode.cu_for_merge
CobwebNode.cu_for_merge = lambda self, a, b, inst: ops.append(1) or 9.0
r.get_best_operation(i, c1, c2, 0.1)
assert not ops
"""),
 dict(id='c09-none-allowed', property='C09', file='cobweb.py',
  old="            choices.append((None, ((self.count - val_count) / self.count)))\n\n        return choices\n\n    def predict(self, attr, choice_fn=\"most likely\", allow_none=True):\n        \"\"\"\n        Predict the value of an attribute, using the specified choice function",
  new="            choices.append((None, ((self.count - val_count) / self.count)))\n            if len(choices) > 6:\n                choices = sorted(choices, key=lambda c: str(c[0]))[-6:]\n\n        return choices\n\n    def predict(self, attr, choice_fn=\"most likely\", allow_none=True):\n        \"\"\"\n        Predict the value of an attribute, using the specified choice function",
  needs='an attribute with six or more observed values',
  breaks='values are dropped from the choices, so the most likely one may not be predicted',
  demo="""
from concept_formation.cobweb import CobwebNode
n = CobwebNode()
for v in 'AAAAbcdefgh':
    n.increment_counts({'x': v})
assert n.predict('x') == 'A'
"""),
 dict(id='c10-numeric-and-nominal', property='C10', file='cobweb3.py',
  old="                    if not self.av_counts[attr][cv_key].unbiased_std() == 0.0:\n",
  new="                    if not self.av_counts[attr][cv_key].unbiased_std() < 1e-9 * (1 + abs(instance[attr])):\n",
  needs='numeric values of large magnitude that differ slightly',
  breaks='-', demo="assert False"),
 dict(id='c11-scale-before-check', property='C11', file='cobweb3.py',
  old="        self._sanity_check_instance(instance)\n        return self.cobweb(instance)\n",
  new="        self.update_scales(instance)\n        self._sanity_check_instance(instance)\n        return super(Cobweb3Tree, self).cobweb(instance)\n",
  needs='an invalid instance that also carries a numeric value',
  breaks='a rejected instance changes the scaling statistics',
  demo="""
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({'a': 1.0})
try:
    t.ifit({'a': 5.0, 'b': None})
except ValueError:
    pass
assert t.attr_scales['a'].num == 1
"""),
 dict(id='c15-bool-inner', property='C15', file='cobweb3.py',
  old="        if isinstance(attr, tuple) and self.inner_attr_scaling:\n            return attr[0]\n",
  new="        if isinstance(attr, tuple) and self.inner_attr_scaling:\n            return attr[0] if attr[0] != '_' else attr\n",
  needs='a hidden nested attribute', breaks='-', demo='''
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({('_', ('a', 'c')): 1.0, ('_', ('b', 'c')): 3.0})
assert t.attr_scales['_'].num == 2
'''),
]
SEEDS = [s for s in SEEDS if s['needs'] != '-' and s['breaks'] != '-']
