From 1a5d1d72636229151778ddf5b0c33e5663dd601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:05 +0000
Subject: [PATCH 01/14] fix: k_cluster unpacks the (clustering, score) pairs of
 cluster_iter

k_cluster raised TypeError (unhashable type: 'list') on every call because it
took the set of the pair instead of the set of the labels.
---
 concept_formation/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/cluster.py b/concept_formation/cluster.py
index e723d60..c164490 100644
--- a/concept_formation/cluster.py
+++ b/concept_formation/cluster.py
@@ -80,7 +80,7 @@ def k_cluster(tree, instances, k=3, mod=True):
                          "guaranteed to have at least 2 children.")
 
     clustering = ["Concept" + str(tree.root.concept_id) for i in instances]
-    for c in cluster_iter(tree, instances, mod=mod):
+    for c, _ in cluster_iter(tree, instances, mod=mod):
         if len(set(c)) > k:
             break
         clustering = c
-- 
2.43.0


From 18183150e2dac2f227002ecb595c4abc40bd1f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:05 +0000
Subject: [PATCH 02/14] fix: cluster_iter performs the splits before minsplit

The cluster assignment was only computed from minsplit on, so with minsplit > 1
no split was ever made and no clustering was produced.
---
 concept_formation/cluster.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/concept_formation/cluster.py b/concept_formation/cluster.py
index c164490..f99bbcf 100644
--- a/concept_formation/cluster.py
+++ b/concept_formation/cluster.py
@@ -430,19 +430,19 @@ def cluster_iter(tree, instances, heuristic=CU, minsplit=1, maxsplit=100000,
 
         cluster_assign = []
         child_cluster_assign = []
+        clusters = []
+        for i, c in enumerate(temp_clusters):
+            child = None
+            while (c.parent and c.parent.parent):
+                child = c
+                c = c.parent
+            if labels:
+                clusters.append("Concept" + str(c.concept_id))
+            else:
+                clusters.append(c)
+            cluster_assign.append(c)
+            child_cluster_assign.append(child)
         if nth_split >= minsplit:
-            clusters = []
-            for i, c in enumerate(temp_clusters):
-                child = None
-                while (c.parent and c.parent.parent):
-                    child = c
-                    c = c.parent
-                if labels:
-                    clusters.append("Concept" + str(c.concept_id))
-                else:
-                    clusters.append(c)
-                cluster_assign.append(c)
-                child_cluster_assign.append(child)
             yield clusters, heuristic(cluster_assign, temp_clusters)
 
         split_cus = []
-- 
2.43.0


From 2ea2cc1cba08fa491bd58d5d61a957c7c664b131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:05 +0000
Subject: [PATCH 03/14] fix: expected_correct_guesses of a concept without
 visible attributes is 0

Fitting an empty instance or one with only hidden attributes and then another
one raised ZeroDivisionError.
---
 concept_formation/cobweb.py  | 3 +++
 concept_formation/cobweb3.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/concept_formation/cobweb.py b/concept_formation/cobweb.py
index 4151605..994f2fe 100644
--- a/concept_formation/cobweb.py
+++ b/concept_formation/cobweb.py
@@ -399,6 +399,9 @@ class CobwebNode(object):
                     prob = (self.av_counts[attr][val]) / self.count
                     correct_guesses += (prob * prob)
 
+        if attr_count == 0:
+            return 0.0
+
         return correct_guesses / attr_count
 
     def category_utility(self):
diff --git a/concept_formation/cobweb3.py b/concept_formation/cobweb3.py
index 1fb2f79..eaee589 100644
--- a/concept_formation/cobweb3.py
+++ b/concept_formation/cobweb3.py
@@ -284,6 +284,9 @@ class Cobweb3Node(CobwebNode):
                     prob = (self.av_counts[attr][val]) / self.count
                     correct_guesses += (prob * prob)
 
+        if attr_count == 0:
+            return 0.0
+
         return correct_guesses / attr_count
 
     def pretty_print(self, depth=0):
-- 
2.43.0


From 95377563ea30d66ac53b76b828bf8e9981a0b2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:05 +0000
Subject: [PATCH 04/14] fix: NameStandardizer restores the names of variable
 attributes with plain values

undo_transform left the generated name in place when the value of a renamed
attribute was neither a dict nor a list.
---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 802cc94..4eedc26 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -444,7 +444,7 @@ class NameStandardizer(Preprocessor):
                 temp_rel = rename_relation(attr, self.reverse_mapping)
                 new_instance[temp_rel] = instance[attr]
             else:
-                new_instance[attr] = instance[attr]
+                new_instance[name] = instance[attr]
 
         return new_instance
 
-- 
2.43.0


From 1431629c6e72b50a68b182c25440f56a9e4c80b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:05 +0000
Subject: [PATCH 05/14] fix: DummyTree has the scaling attributes its concepts
 rely on

probability() and structure mapping with numeric values raised AttributeError.
---
 concept_formation/dummy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/concept_formation/dummy.py b/concept_formation/dummy.py
index 9492c81..f77b035 100644
--- a/concept_formation/dummy.py
+++ b/concept_formation/dummy.py
@@ -31,6 +31,9 @@ class DummyTree(TrestleTree):
         self.root.tree = self
         self.gensym_counter = 0
         self.structure_map_internally = False
+        self.scaling = False
+        self.inner_attr_scaling = True
+        self.attr_scales = {}
 
     def gensym(self):
         """
-- 
2.43.0


From 50fc12c7f22b7cb4c3f0d3cb88e61fc59e91ac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:05 +0000
Subject: [PATCH 06/14] fix: visualize_clusters matches concepts by their
 exported name

Given concept nodes it compared bare ids with exported names, so nothing was
ever trimmed.
---
 concept_formation/visualize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/visualize.py b/concept_formation/visualize.py
index 9c0352c..2880b24 100644
--- a/concept_formation/visualize.py
+++ b/concept_formation/visualize.py
@@ -153,7 +153,7 @@ def visualize_clusters(tree, clusters, dst=None, recreate_html=True):
     :type create_html: bool
     """
     if isinstance(clusters[0], CobwebNode):
-        clusters = {str(c.concept_id) for c in clusters}
+        clusters = {"Concept" + str(c.concept_id) for c in clusters}
     else:
         clusters = set(clusters)
 
-- 
2.43.0


From 9cea88493d60ba96aa19ac4717f334fdb74f0f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:24 +0000
Subject: [PATCH 07/14] fix: Tuplizer can undo relations with numeric elements

The numbers that transform() parses out of a text relation made
undo_transform() raise TypeError.
---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 4eedc26..1e8f724 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -295,7 +295,7 @@ class Tuplizer(Preprocessor):
         """
         if isinstance(relation, tuple):
             relation = [self._stringify_relation(ele) if isinstance(ele, tuple)
-                        else ele for ele in relation]
+                        else str(ele) for ele in relation]
             return "(" + " ".join(relation) + ")"
         else:
             return relation
-- 
2.43.0


From 6dc1112f76a1a12221d7a239f29641c031bc4151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:12 +0000
Subject: [PATCH 08/14] fix: SubComponentProcessor keeps the position of
 components nested in constant components

A variable component inside a constant one lost its place (no has-component
relation was added), so undo_transform moved it to the top level; two-letter
names were also taken apart as if they were paths.
---
 concept_formation/preprocessor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 1e8f724..9d35b38 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1341,7 +1341,7 @@ class SubComponentProcessor(Preprocessor):
         inner = None
         relations = []
 
-        while len(attr) == 2:
+        while isinstance(attr, tuple) and len(attr) == 2:
             a, attr = attr
             if isinstance(a, str) and len(a) > 0 and a[0] == '?':
                 if last_comp is not None:
@@ -1349,8 +1349,7 @@ class SubComponentProcessor(Preprocessor):
                 last_comp = a
                 inner = self._extract_attr(attr)
 
-        if last_comp is not None and (isinstance(attr, str) and len(attr) > 0
-                                      and attr[0] == '?'):
+        if last_comp is not None:
             relations.append(('has-component', inner, last_comp))
 
         return relations
-- 
2.43.0


From db4cdcc67370782abfcb0b3e2a4d4b8a1c859110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:04 +0000
Subject: [PATCH 09/14] fix: combining with an empty ContinuousValue leaves the
 summary unchanged

---
 concept_formation/continuous_value.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/concept_formation/continuous_value.py b/concept_formation/continuous_value.py
index d465862..39776b7 100644
--- a/concept_formation/continuous_value.py
+++ b/concept_formation/continuous_value.py
@@ -188,6 +188,8 @@ class ContinuousValue():
         """
         if not isinstance(other, ContinuousValue):
             raise ValueError("Can only merge 2 continuous values.")
+        if other.num == 0:
+            return
         delta = other.mean - self.mean
         self.meanSq = (self.meanSq + other.meanSq + delta * delta *
                        ((self.num * other.num) / (self.num + other.num)))
-- 
2.43.0


From 6c6959e7353d60a1876b90a45cf7d3871a4c6b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:08 +0000
Subject: [PATCH 10/14] fix: NominalToNumeric converts values inside components
 instead of failing on them

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 9d35b38..74f0ebc 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1595,7 +1595,7 @@ class NominalToNumeric(OneWayPreprocessor):
         new_instance = {}
 
         for a in instance:
-            if a in attrs:
+            if a in attrs and not isinstance(instance[a], dict):
                 try:
                     val = float(instance[a])
                 except ValueError as e:
-- 
2.43.0


From e7f6cbde2fd2d01c17d58332d783fc234757f371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:09 +0000
Subject: [PATCH 11/14] fix: undoing NameStandardizer restores relations with
 component values

---
 concept_formation/preprocessor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 74f0ebc..e2a0c23 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -433,6 +433,8 @@ class NameStandardizer(Preprocessor):
                 name = self.reverse_mapping[attr]
                 if isinstance(name, tuple):
                     name = name[0]
+            elif isinstance(attr, tuple):
+                name = rename_relation(attr, self.reverse_mapping)
 
             if isinstance(instance[attr], dict):
                 new_instance[name] = self._undo_standardize(instance[attr])
@@ -440,9 +442,6 @@ class NameStandardizer(Preprocessor):
                 new_instance[name] = [self._undo_standardize(ele) if
                                       isinstance(ele, dict) else ele for ele in
                                       instance[attr]]
-            elif isinstance(attr, tuple):
-                temp_rel = rename_relation(attr, self.reverse_mapping)
-                new_instance[temp_rel] = instance[attr]
             else:
                 new_instance[name] = instance[attr]
 
-- 
2.43.0


From f8b477a5b0639e8f5c458f10f8ae26dce5df0e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:09 +0000
Subject: [PATCH 12/14] fix: SubComponentProcessor keeps the position of
 components named in a relation with a component value

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index e2a0c23..9fa1426 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1351,7 +1351,7 @@ class SubComponentProcessor(Preprocessor):
         if last_comp is not None:
             relations.append(('has-component', inner, last_comp))
 
-        return relations
+        return relations + self._get_has_components(attr)
 
 
 class ObjectVariablizer(OneWayPreprocessor):
-- 
2.43.0


From 04afb23165e07515f442341de5b644fc0e3fb491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:09 +0000
Subject: [PATCH 13/14] fix: Flattener keeps unary relations of attributes that
 have a value of their own

---
 concept_formation/preprocessor.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 9fa1426..9c67b9e 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -610,6 +610,17 @@ class Flattener(Preprocessor):
         path.reverse()
         return path
 
+    def _within_value(self, attr, instance):
+        """
+        Does a unary relation describe something that has a (non-component)
+        value of its own in the instance? Such a relation cannot be unpacked.
+        """
+        while isinstance(attr, tuple) and len(attr) == 2:
+            attr = attr[1]
+            if attr in instance and not isinstance(instance[attr], dict):
+                return True
+        return False
+
     def _structurize(self, instance):
         """
         This undoes the flattening process. In particular, it takes an instance
@@ -627,7 +638,8 @@ class Flattener(Preprocessor):
         """
         temp = {}
         for attr in instance:
-            if (isinstance(attr, tuple) and len(attr) == 2):
+            if (isinstance(attr, tuple) and len(attr) == 2 and
+                    not self._within_value(attr, instance)):
                 path = self._get_path(attr)
                 curr = temp
                 for sa in path[:-1]:
-- 
2.43.0


From ede52a2898a851f6cb5a317ffdca0102bd947881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:24 +0000
Subject: [PATCH 14/14] fix: Sanitizer works when nothing else has imported
 collections.abc

---
 concept_formation/preprocessor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 9c67b9e..fc33735 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -49,8 +49,8 @@ from numbers import Number
 import collections
 
 try:
-    collectionsAbc = collections.abc
-except AttributeError:
+    import collections.abc as collectionsAbc
+except ImportError:
     collectionsAbc = collections
 
 
-- 
2.43.0

