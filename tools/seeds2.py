SEEDS = [
 dict(id='c01-merge-skips-hidden', property='C01', file='cobweb3.py',
  old="        self.count += node.count\n        for attr in node.attrs('all'):\n",
  new="        self.count += node.count\n        for attr in node.attrs('all' if not self.count == node.count else\n                               lambda a: a[0] != '_' or node.children):\n",
  needs='a leaf with a hidden attribute is copied or merged into a fresh concept',
  breaks='hidden attribute counts of a leaf are lost in the merged concept',
  demo="""
from concept_formation.cobweb3 import Cobweb3Node
a, b = Cobweb3Node(), Cobweb3Node()
a.increment_counts({'x': 1.0, '_h': 'p'})
b.increment_counts({'x': 2.0, '_h': 'q'})
r = Cobweb3Node(); r.children = [a, b]; a.parent = b.parent = r
r.update_counts_from_node(a); r.update_counts_from_node(b)
m = r.merge(a, b)
assert m.av_counts['_h'] == {'p': 1, 'q': 1}, m.av_counts
"""),
 dict(id='c02-depth-cached', property='C02', file='cobweb.py',
  old="        if self.parent:\n            return 1 + self.parent.depth()\n        return 0\n",
  new="        if self.parent:\n            if getattr(self, '_depth', None) is None:\n                self._depth = 1 + self.parent.depth()\n            return self._depth\n        return 0\n",
  needs='depth asked, then the tree restructured above the concept, then depth asked again',
  breaks='the depth no longer agrees with the hierarchy',
  demo="""
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
leaf = t.ifit({'x': 'a', 'y': 'a'})
t.ifit({'x': 'b', 'y': 'b'})
def walk(n, d, seen):
    assert n.depth() == d, (n.depth(), d)
    for c in n.children:
        walk(c, d + 1, seen)
walk(t.root, 0, 0)
for v in 'ccaabbccdd':
    t.ifit({'x': v, 'y': 'z', 'w': v})
    walk(t.root, 0, 0)
"""),
 dict(id='c05-combine-swaps-small', property='C05', file='continuous_value.py',
  old="        self.mean = ((self.num * self.mean + other.num * other.mean) /\n                     (self.num + other.num))\n",
  new="        if self.num > 1 or other.num > 1:\n            self.mean += delta * other.num / max(self.num, 1)\\\n                if self.num > 1000 * other.num else\\\n                delta * other.num / (self.num + other.num)\n        else:\n            self.mean = (self.num * self.mean + other.num * other.mean) / (\n                self.num + other.num)\n",
  needs='combining a very small summary into one more than a thousand times larger',
  breaks='the mean after combining',
  demo="""
from concept_formation.continuous_value import ContinuousValue
a, b = ContinuousValue(), ContinuousValue()
a.update_batch([0.0] * 1500); b.update(3000.0)
a.combine(b)
assert abs(a.mean - 3000.0 / 1501) < 1e-9, a.mean
"""),
 dict(id='c10-hidden-by-relation', property='C10', file='cobweb3.py',
  old="        for attr in set(instance).union(set(self.attrs())):\n            if attr[0] == '_':\n                continue\n",
  new="        for attr in set(instance).union(set(self.attrs())):\n            if attr[0][:1] == '_':\n                continue\n",
  needs='a visible relation whose first element starts with an underscore',
  breaks='leaves group instances that differ in that visible relation',
  demo="""
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({'x': 'a', ('_rel', 'b'): 'p'})
t.ifit({'x': 'a', ('_rel', 'b'): 'q'})
assert t.root.children
"""),
 dict(id='c12-unmapped-kept', property='C12', file='structure_mapper.py',
  old="        new_unmapped_cnames.remove(o2)\n        if mapping[o1] != o1:\n            new_unmapped_cnames.add(new_mapping[o1])\n",
  new="        if mapping[o1] != o1:\n            new_unmapped_cnames.remove(o2)\n            new_unmapped_cnames.add(new_mapping[o1])\n",
  needs='an unmapped variable takes a free concept name and a second variable takes the same one later in the search',
  breaks='two variables may be renamed to the same name',
  demo="""
from py_search.base import Node
from concept_formation.structure_mapper import StructureMappingOptProblem
p = StructureMappingOptProblem((frozenset([('?a', '?a'), ('?b', '?b')]), frozenset(['?c1'])), initial_cost=0, extra=(None, None))
front = [Node((frozenset([('?a', '?a'), ('?b', '?b')]), frozenset(['?c1'])), extra=({}, None))]
for _ in range(3):
    nxt = []
    for n in front:
        for s in p.successors(n):
            m = dict(s.state[0])
            assert len(set(m.values())) == len(m), m
            nxt.append(s)
    front = nxt[:20]
"""),
 dict(id='c13-relation-first-component', property='C13', file='preprocessor.py',
  old="                relations = relations + self._get_has_components(ele)\n",
  new="                relations = relations or self._get_has_components(ele)\n",
  needs='a relation that mentions two nested components neither of which has attributes of its own',
  breaks='the position of the second component is not recorded, so undoing does not restore it',
  demo="""
from concept_formation.preprocessor import SubComponentProcessor
s = SubComponentProcessor()
i = {('rel', ('?a', '?o1'), ('?b', '?o2')): True}
assert s.undo_transform(s.transform(i)) == i
"""),
 dict(id='c14-copy-only-when-learning', property='C14', file='cluster.py',
  edits=[('cluster.py', "    tree = copy.deepcopy(tree)\n\n    if mod:\n", "    if mod:\n        tree = copy.deepcopy(tree)\n")],
  needs='clustering with mod=False and more than one split',
  breaks="the caller's tree is split",
  demo="""
import copy
from concept_formation.cobweb import CobwebTree
from concept_formation.cluster import k_cluster, cluster_iter
t = CobwebTree()
data = [{'x': a, 'y': b} for a in 'abc' for b in 'pq' for _ in range(2)]
for d in data:
    t.ifit(d)
before = t.root.pretty_print()
list(cluster_iter(t, data, mod=False, maxsplit=5))
assert t.root.pretty_print() == before
"""),
 dict(id='c14-positive-scores', property='C14', file='cluster.py',
  old="    min_h = (-1, float('inf'), [\"Concept\"",
  new="    min_h = (-1, 0.0, [\"Concept\"",
  needs='a heuristic with positive scores (AIC, BIC)',
  breaks='the search returns the trivial clustering although every clustering found scores the same or better than... none is considered',
  demo="""
from concept_formation.cobweb import CobwebTree
from concept_formation.cluster import cluster_split_search, cluster_iter
data = [{'x': a, 'y': b} for a in 'abc' for b in 'pq' for _ in range(2)]
import random
random.seed(0)
t = CobwebTree()
got = cluster_split_search(t, data, heuristic='AIC', maxsplit=3)
assert len(set(got)) > 1, got
"""),
 dict(id='c15-inner-of-nested', property='C15', file='cobweb3.py',
  old="        if isinstance(attr, tuple) and self.inner_attr_scaling:\n            return attr[0]\n",
  new="        if isinstance(attr, tuple) and self.inner_attr_scaling:\n            return attr[0] if len(attr) == 2 else attr[-1]\n",
  needs='a relational attribute with three or more elements holding a number',
  breaks='such attributes share the scale of their last element',
  demo="""
from concept_formation.cobweb3 import Cobweb3Tree
t = Cobweb3Tree()
t.ifit({('dist', 'a', 'b'): 3.0, ('dist', 'c', 'd'): 5.0})
assert 'dist' in t.attr_scales and t.attr_scales['dist'].num == 2
"""),
 dict(id='c16-first-run-dirty', property='C16', file='evaluation.py',
  old="        tree.clear()\n\n        if randomize_first or r > 0:\n",
  new="        if r > 0 or not randomize_first:\n            tree.clear()\n\n        if randomize_first or r > 0:\n",
  needs='a tree that has already learned something is handed in',
  breaks='the first run does not start from an empty tree',
  demo="""
from concept_formation.cobweb import CobwebTree
from concept_formation.evaluation import incremental_evaluation
t = CobwebTree()
t.ifit({'x': 'a', 'y': 'b'})
got = incremental_evaluation(t, [{'x': 'a', 'y': 'b'}] * 3, 'y', 1)
assert t.root.count == 3, t.root.count
"""),
 dict(id='c17-targets-cached', property='C17', file='preprocessor.py',
  old="        if self.targets is None:\n            attrs = [k for k in instance.keys()]\n        else:\n            attrs = self.targets\n\n        new_instance = {}\n\n        for a in instance:\n            if a in attrs and isinstance(instance[a], Number):",
  new="        if self.targets is None:\n            self.targets = [k for k in instance.keys()]\n        attrs = self.targets\n\n        new_instance = {}\n\n        for a in instance:\n            if a in attrs and isinstance(instance[a], Number):",
  needs='the same converter is used for a second instance with other attributes',
  breaks='numeric values of attributes unknown to the first instance stay numeric',
  demo="""
from concept_formation.preprocessor import NumericToNominal
n = NumericToNominal()
n.transform({'a': 1})
assert n.transform({'b': 2}) == {'b': '2'}
"""),
 dict(id='c18-trim-in-place', property='C18', file='visualize.py',
  old="    ret = {k: j_ob[k] for k in j_ob if k != 'children'}\n    if j_ob['name'] not in clusters:\n",
  new="    ret = {k: j_ob[k] for k in j_ob if k != 'children'}\n    if j_ob['name'] in clusters:\n        j_ob['children'] = []\n        return j_ob\n    if j_ob['name'] not in clusters:\n",
  needs='trimming a description that is used again afterwards',
  breaks='the description handed in loses its children',
  demo="""
from concept_formation.visualize import _trim_to_clusters
j = {'name': 'Concept1', 'children': [{'name': 'Concept2', 'children': [{'name': 'Concept3', 'children': []}]}]}
_trim_to_clusters(j, {'Concept2'})
assert j['children'][0]['children'], j
"""),
 dict(id='c09-infer-hidden-overwrite', property='C09', file='cobweb.py',
  old="        for attr in concept.attrs('all'):\n            if attr in temp_instance:\n                continue\n",
  new="        for attr in concept.attrs('all'):\n            if temp_instance.get(attr):\n                continue\n",
  needs='a given attribute whose value is falsy (0, empty text, False)',
  breaks='a given value is overwritten by a prediction',
  demo="""
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
for _ in range(3):
    t.ifit({'x': 'a', 'y': 5})
assert t.infer_missing({'x': 'a', 'y': 0})['y'] == 0
"""),
]
