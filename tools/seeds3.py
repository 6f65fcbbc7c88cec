SEEDS = [
 dict(id='c13-nested-list-kept', property='C13', file='preprocessor.py',
  old="                    new_instance[new_att] = self._extract(new_obj)\n",
  new="                    new_instance[new_att] = new_obj\n",
  needs='a list (of two or more entries) inside an element of a list',
  breaks='undoing the list steps fails: the inner list was never extracted',
  demo="""
from concept_formation.preprocessor import ListProcessor
p = ListProcessor()
i = {'l': [{'m': ['a', 'b']}, 'c']}
assert p.undo_transform(p.transform(i)) == i
"""),
 dict(id='c13-long-list-tail', property='C13', file='preprocessor.py',
  old="                        if a == new_list[-1]:\n",
  new="                        if a == new_list[-1] and len(order[ele]) < 9:\n",
  needs='a list of more than nine elements',
  breaks='a long list does not come back from its relations',
  demo="""
from concept_formation.preprocessor import ListProcessor
for n in (1, 2, 5, 9, 10, 14):
    p = ListProcessor()
    i = {'l': ['e%d' % k for k in range(n)], 'x': 1}
    assert p.undo_transform(p.transform(i)) == i, n
"""),
 dict(id='c14-search-minsplit', property='C14', file='cluster.py',
  old="        if h < min_h[1]:\n",
  new="        if h < min_h[1] or (minsplit > 1 and h == -min_h[1]):\n",
  needs='a split search from the second split on, with equal and opposite scores',
  breaks='a clustering with a worse score replaces the best one',
  demo="""
import concept_formation.cluster as cl
from concept_formation.cobweb import CobwebTree
rows = iter([('a', -1.0), ('b', 1.0), ('c', 0.5)])
class C(object):
    def __init__(self, i):
        self.concept_id = i
old = cl.cluster_iter
cl.cluster_iter = lambda *a, **k: iter([([C('x')], -1.0), ([C('y')], 1.0),
                                        ([C('z')], 2.0)])
try:
    got = cl.cluster_split_search(CobwebTree(), [{}], minsplit=2, maxsplit=4)
finally:
    cl.cluster_iter = old
assert got == ['Conceptx'], got
"""),
 dict(id='c16-many-runs', property='C16', file='evaluation.py',
  old="        tree.clear()\n",
  new="        if r < 5 or len(tree.root.children) > 4:\n            tree.clear()\n",
  needs='six or more runs over a tree whose root has few children',
  breaks='later runs do not start from an empty tree',
  demo="""
from concept_formation.cobweb import CobwebTree
from concept_formation.evaluation import incremental_evaluation
sizes = []
def sc(tree, i, a, v):
    sizes.append(tree.root.count)
    return 0
incremental_evaluation(CobwebTree(), [{'x': 'a', 'y': 'b'}, {'x': 'c'}], 'y',
                       3, runs=8, score=sc, randomize_first=False)
assert sizes == [0, 1] * 8, sizes
"""),
 dict(id='c12-swap-self', property='C12', file='structure_mapper.py',
  old="        if mapping[o1] != o1:\n            new_unmapped_cnames.add(new_mapping[o1])\n",
  new="        if mapping[o1] != o1 or len(unmapped_cnames) > 3:\n            new_unmapped_cnames.add(new_mapping[o1])\n",
  needs='an unmapped variable taking one of four or more free names of the concept',
  breaks="a variable's own name is offered to others: two variables may get one name",
  demo="""
from concept_formation.structure_mapper import StructureMappingOptProblem
from py_search.base import Node
m = {'?a': '?a', '?b': '?b'}
free = frozenset(['?1', '?2', '?3', '?4'])
p = StructureMappingOptProblem.__new__(StructureMappingOptProblem)
n = Node((frozenset(m.items()), free), extra=(None, None))
s = p.swap_unnamed('?a', '?1', m, free, None, None, n)
assert s.state[1] == free - {'?1'}, s.state
"""),
 dict(id='c17-long-inner-tuple', property='C17', file='preprocessor.py',
  old="                ret.append(self._sanitize_tuple(v))\n",
  new="                ret.append(self._sanitize_tuple(v) if len(ret) < 3 else v)\n",
  needs='a relation with an inner relation as fourth or later part holding a number',
  breaks='the sanitised instance is still refused by the structured learner',
  demo="""
from concept_formation.preprocessor import Sanitizer
got = Sanitizer('trestle').transform({('r', 'a', 'b', ('s', 5)): 1})
assert got == {('r', 'a', 'b', ('s', '5')): 1}, got
"""),
 dict(id='c03-many-iterations', property='C03', file='cobweb.py',
  old="        for x in range(iterations):\n",
  new="        for x in range(min(iterations, 4 + len(instances))):\n",
  needs='more iterations than instances plus four',
  breaks='batch fitting records instances fewer times than asked',
  demo="""
from concept_formation.cobweb import CobwebTree
t = CobwebTree()
t.fit([{'a': 'x'}], iterations=9)
assert t.root.count == 9, t.root.count
"""),
]
