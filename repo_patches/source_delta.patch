From 7af08b566206ff9fa16b8903b256c4e9b5d216f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:41 +0000
Subject: [PATCH 01/22] fix: k_cluster unpacks the (clustering, score) pairs of
 cluster_iter

It took the whole pair for a clustering and raised TypeError on every call.
---
 concept_formation/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/cluster.py b/concept_formation/cluster.py
index e723d60..c164490 100644
--- a/concept_formation/cluster.py
+++ b/concept_formation/cluster.py
@@ -80,7 +80,7 @@ def k_cluster(tree, instances, k=3, mod=True):
                          "guaranteed to have at least 2 children.")
 
     clustering = ["Concept" + str(tree.root.concept_id) for i in instances]
-    for c in cluster_iter(tree, instances, mod=mod):
+    for c, _ in cluster_iter(tree, instances, mod=mod):
         if len(set(c)) > k:
             break
         clustering = c
-- 
2.43.0


From 5e928797ce2648d2360197ff6fb2b9d527fea153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:41 +0000
Subject: [PATCH 02/22] fix: cluster_iter performs the splits below minsplit

With minsplit > 1 the assignment was never computed before the first split,
so there was nothing to split and no clustering was ever produced.
---
 concept_formation/cluster.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/concept_formation/cluster.py b/concept_formation/cluster.py
index c164490..f99bbcf 100644
--- a/concept_formation/cluster.py
+++ b/concept_formation/cluster.py
@@ -430,19 +430,19 @@ def cluster_iter(tree, instances, heuristic=CU, minsplit=1, maxsplit=100000,
 
         cluster_assign = []
         child_cluster_assign = []
+        clusters = []
+        for i, c in enumerate(temp_clusters):
+            child = None
+            while (c.parent and c.parent.parent):
+                child = c
+                c = c.parent
+            if labels:
+                clusters.append("Concept" + str(c.concept_id))
+            else:
+                clusters.append(c)
+            cluster_assign.append(c)
+            child_cluster_assign.append(child)
         if nth_split >= minsplit:
-            clusters = []
-            for i, c in enumerate(temp_clusters):
-                child = None
-                while (c.parent and c.parent.parent):
-                    child = c
-                    c = c.parent
-                if labels:
-                    clusters.append("Concept" + str(c.concept_id))
-                else:
-                    clusters.append(c)
-                cluster_assign.append(c)
-                child_cluster_assign.append(child)
             yield clusters, heuristic(cluster_assign, temp_clusters)
 
         split_cus = []
-- 
2.43.0


From a7a134b5532266eb6fb6456dbe15226b17662e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:41 +0000
Subject: [PATCH 03/22] fix: expected correct guesses of a concept without
 visible attributes

An instance that is empty or has only hidden attributes is accepted, but the
next fit or categorization past its concept raised ZeroDivisionError.
---
 concept_formation/cobweb.py  | 2 ++
 concept_formation/cobweb3.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/concept_formation/cobweb.py b/concept_formation/cobweb.py
index 4151605..148db4f 100644
--- a/concept_formation/cobweb.py
+++ b/concept_formation/cobweb.py
@@ -399,6 +399,8 @@ class CobwebNode(object):
                     prob = (self.av_counts[attr][val]) / self.count
                     correct_guesses += (prob * prob)
 
+        if attr_count == 0:
+            return 0.0
         return correct_guesses / attr_count
 
     def category_utility(self):
diff --git a/concept_formation/cobweb3.py b/concept_formation/cobweb3.py
index 1fb2f79..fb9653e 100644
--- a/concept_formation/cobweb3.py
+++ b/concept_formation/cobweb3.py
@@ -284,6 +284,8 @@ class Cobweb3Node(CobwebNode):
                     prob = (self.av_counts[attr][val]) / self.count
                     correct_guesses += (prob * prob)
 
+        if attr_count == 0:
+            return 0.0
         return correct_guesses / attr_count
 
     def pretty_print(self, depth=0):
-- 
2.43.0


From 6b8c2a76127cc9813d80fdb3e1e37c9a8b295a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:41 +0000
Subject: [PATCH 04/22] fix: DummyTree has the scaling attributes its concepts
 consult

Probabilities of numeric values and structure mapping raised AttributeError.
---
 concept_formation/dummy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/concept_formation/dummy.py b/concept_formation/dummy.py
index 9492c81..9f0a85d 100644
--- a/concept_formation/dummy.py
+++ b/concept_formation/dummy.py
@@ -30,6 +30,9 @@ class DummyTree(TrestleTree):
         self.root = Cobweb3Node()
         self.root.tree = self
         self.gensym_counter = 0
+        self.scaling = None
+        self.inner_attr_scaling = True
+        self.attr_scales = {}
         self.structure_map_internally = False
 
     def gensym(self):
-- 
2.43.0


From 4e2cb4dccc2b4953e1a7cc4ad381e15cfbf09497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:41 +0000
Subject: [PATCH 05/22] fix: visualize_clusters names concepts the way the tree
 output does

A clustering given as concepts never matched a node, so nothing was trimmed.
---
 concept_formation/visualize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/visualize.py b/concept_formation/visualize.py
index 9c0352c..2880b24 100644
--- a/concept_formation/visualize.py
+++ b/concept_formation/visualize.py
@@ -153,7 +153,7 @@ def visualize_clusters(tree, clusters, dst=None, recreate_html=True):
     :type create_html: bool
     """
     if isinstance(clusters[0], CobwebNode):
-        clusters = {str(c.concept_id) for c in clusters}
+        clusters = {"Concept" + str(c.concept_id) for c in clusters}
     else:
         clusters = set(clusters)
 
-- 
2.43.0


From 9bfd75855073982a97966b3df60668873e0a59ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:41 +0000
Subject: [PATCH 06/22] fix: NameStandardizer undo restores the name of
 variables with plain values

---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 802cc94..4eedc26 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -444,7 +444,7 @@ class NameStandardizer(Preprocessor):
                 temp_rel = rename_relation(attr, self.reverse_mapping)
                 new_instance[temp_rel] = instance[attr]
             else:
-                new_instance[attr] = instance[attr]
+                new_instance[name] = instance[attr]
 
         return new_instance
 
-- 
2.43.0


From 8179942b9615ee331e8a345f15f823861a6874de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:00 +0000
Subject: [PATCH 07/22] fix: weighted_choice survives a draw at the top of the
 range

The running sum can round below the total, and a draw next to the total then
fell off the end of the list and raised ValueError.
---
 concept_formation/utils.py | 364 +++++++++++++++++++------------------
 1 file changed, 185 insertions(+), 179 deletions(-)

diff --git a/concept_formation/utils.py b/concept_formation/utils.py
index 65944a9..8624042 100644
--- a/concept_formation/utils.py
+++ b/concept_formation/utils.py
@@ -1,179 +1,185 @@
-"""
-The utils module contains a number of utility functions used by other modules.
-"""
-
-from __future__ import print_function
-from __future__ import unicode_literals
-from __future__ import absolute_import
-from __future__ import division
-from numbers import Number
-from random import uniform
-from random import random
-from math import sqrt
-from math import isnan
-
-
-# A hashtable of values to use in the c4(n) function to apply corrections to
-# estimates of std.
-c4n_table = {2: 0.7978845608028654,
-             3:  0.886226925452758,
-             4:  0.9213177319235613,
-             5:  0.9399856029866254,
-             6:  0.9515328619481445,
-             7:  0.9593687886998328,
-             8:  0.9650304561473722,
-             9:  0.9693106997139539,
-             10: 0.9726592741215884,
-             11: 0.9753500771452293,
-             12: 0.9775593518547722,
-             13: 0.9794056043142177,
-             14: 0.9809714367555161,
-             15: 0.9823161771626504,
-             16: 0.9834835316158412,
-             17: 0.9845064054718315,
-             18: 0.985410043808079,
-             19: 0.9862141368601935,
-             20: 0.9869342675246552,
-             21: 0.9875829288261562,
-             22: 0.9881702533158311,
-             23: 0.988704545233999,
-             24: 0.9891926749585048,
-             25: 0.9896403755857028,
-             26: 0.9900524688409107,
-             27: 0.990433039209448,
-             28: 0.9907855696217323,
-             29: 0.9911130482419843}
-
-
-def c4(n):
-    """
-    Returns the correction factor to apply to unbias estimates of standard
-    deviation in low sample sizes. This implementation is based on a lookup
-    table for n in [2-29] and returns 1.0 for values >= 30.
-
-    >>> c4(3)
-    0.886226925452758
-    """
-    if n <= 1:
-        raise ValueError("Cannot apply correction for a sample size of 1.")
-    else:
-        return c4n_table[n] if n < 30 else 1.0
-
-
-def isNumber(n):
-    """
-    Check if a value is a number that should be handled differently than
-    nominals.
-    """
-    return (not isinstance(n, bool) and isinstance(n, Number)) and not isnan(n)
-
-
-def mean(values):
-    """
-    Computes the mean of a list of values.
-
-    This is primarily included to reduce dependency on external math libraries
-    like numpy in the core algorithm.
-
-    :param values: a list of numbers
-    :type values: list
-    :return: the mean of the list of values
-    :rtype: float
-
-    >>> mean([600, 470, 170, 430, 300])
-    394.0
-    """
-    if len(values) <= 0:
-        raise ValueError("Length of list must be greater than 0.")
-
-    return float(sum(values))/len(values)
-
-
-def std(values):
-    """
-    Computes the standard deviation of a list of values.
-
-    This is primarily included to reduce dependency on external math libraries
-    like numpy in the core algorithm.
-
-    :param values: a list of numbers
-    :type values: list
-    :return: the standard deviation of the list of values
-    :rtype: float
-
-    >>> std([600, 470, 170, 430, 300])
-    147.32277488562318
-    """
-    if len(values) <= 0:
-        raise ValueError("Length of list must be greater than 0.")
-
-    meanValue = mean(values)
-    variance = float(sum([(v - meanValue) * (v - meanValue) for v in
-                          values]))/len(values)
-    return sqrt(variance)
-
-
-def weighted_choice(choices):
-    """
-    Given a list of tuples [(val, weight),...(val, weight)], return a randomly
-    chosen value where the choice frequency is proportional to the choice
-    weight divided by the sum of all weights. Note, weights must be greater
-    than or equal to 0.
-
-    :param choices: A list of tuples
-    :type choices: [(val, weight),...(val, weight)]
-    :return: A choice sampled from the list according to the weightings
-    :rtype: val
-
-    >>> from random import seed
-    >>> seed(1234)
-    >>> options = [('a',.25),('b',.12),('c',.46),('d',.07)]
-    >>> weighted_choice(options)
-    'd'
-    >>> weighted_choice(options)
-    'c'
-    >>> weighted_choice(options)
-    'a'
-
-    .. seealso::
-        :meth:`CobwebNode.sample <concept_formation.cobweb.CobwebNode.sample>`
-    """
-    total = sum(w for c, w in choices)
-    r = uniform(0, total)
-    upto = 0
-    for c, w in choices:
-        if w < 0:
-            raise ValueError('All weights must be greater than or equal to 0.')
-        if upto + w > r:
-            return c
-        upto += w
-    raise ValueError("Choices cannot be an empty list")
-
-
-def most_likely_choice(choices):
-    """
-    Given a list of tuples [(val, weight),...(val, weight)], returns the value
-    with the highest weight. Ties are randomly broken.
-
-    >>> options = [('a',.25),('b',.12),('c',.46),('d',.07)]
-    >>> most_likely_choice(options)
-    'c'
-    >>> most_likely_choice(options)
-    'c'
-    >>> most_likely_choice(options)
-    'c'
-
-    :param choices: A list of tuples
-    :type choices: [(val, weight),...(val, weight)]
-    :return: the val with the hightest weight
-    :rtype: val
-    """
-    if len(choices) == 0:
-        raise ValueError("Choices cannot be an empty list")
-
-    vals = [w for _, w in choices if w < 0]
-    if len(vals) > 0:
-        raise ValueError('All weights must be greater than or equal to 0')
-
-    updated_choices = [(prob, random(), val) for val, prob in choices]
-    return sorted(updated_choices, reverse=True)[0][2]
+"""
+The utils module contains a number of utility functions used by other modules.
+"""
+
+from __future__ import print_function
+from __future__ import unicode_literals
+from __future__ import absolute_import
+from __future__ import division
+from numbers import Number
+from random import uniform
+from random import random
+from math import sqrt
+from math import isnan
+
+
+# A hashtable of values to use in the c4(n) function to apply corrections to
+# estimates of std.
+c4n_table = {2: 0.7978845608028654,
+             3:  0.886226925452758,
+             4:  0.9213177319235613,
+             5:  0.9399856029866254,
+             6:  0.9515328619481445,
+             7:  0.9593687886998328,
+             8:  0.9650304561473722,
+             9:  0.9693106997139539,
+             10: 0.9726592741215884,
+             11: 0.9753500771452293,
+             12: 0.9775593518547722,
+             13: 0.9794056043142177,
+             14: 0.9809714367555161,
+             15: 0.9823161771626504,
+             16: 0.9834835316158412,
+             17: 0.9845064054718315,
+             18: 0.985410043808079,
+             19: 0.9862141368601935,
+             20: 0.9869342675246552,
+             21: 0.9875829288261562,
+             22: 0.9881702533158311,
+             23: 0.988704545233999,
+             24: 0.9891926749585048,
+             25: 0.9896403755857028,
+             26: 0.9900524688409107,
+             27: 0.990433039209448,
+             28: 0.9907855696217323,
+             29: 0.9911130482419843}
+
+
+def c4(n):
+    """
+    Returns the correction factor to apply to unbias estimates of standard
+    deviation in low sample sizes. This implementation is based on a lookup
+    table for n in [2-29] and returns 1.0 for values >= 30.
+
+    >>> c4(3)
+    0.886226925452758
+    """
+    if n <= 1:
+        raise ValueError("Cannot apply correction for a sample size of 1.")
+    else:
+        return c4n_table[n] if n < 30 else 1.0
+
+
+def isNumber(n):
+    """
+    Check if a value is a number that should be handled differently than
+    nominals.
+    """
+    return (not isinstance(n, bool) and isinstance(n, Number)) and not isnan(n)
+
+
+def mean(values):
+    """
+    Computes the mean of a list of values.
+
+    This is primarily included to reduce dependency on external math libraries
+    like numpy in the core algorithm.
+
+    :param values: a list of numbers
+    :type values: list
+    :return: the mean of the list of values
+    :rtype: float
+
+    >>> mean([600, 470, 170, 430, 300])
+    394.0
+    """
+    if len(values) <= 0:
+        raise ValueError("Length of list must be greater than 0.")
+
+    return float(sum(values))/len(values)
+
+
+def std(values):
+    """
+    Computes the standard deviation of a list of values.
+
+    This is primarily included to reduce dependency on external math libraries
+    like numpy in the core algorithm.
+
+    :param values: a list of numbers
+    :type values: list
+    :return: the standard deviation of the list of values
+    :rtype: float
+
+    >>> std([600, 470, 170, 430, 300])
+    147.32277488562318
+    """
+    if len(values) <= 0:
+        raise ValueError("Length of list must be greater than 0.")
+
+    meanValue = mean(values)
+    variance = float(sum([(v - meanValue) * (v - meanValue) for v in
+                          values]))/len(values)
+    return sqrt(variance)
+
+
+def weighted_choice(choices):
+    """
+    Given a list of tuples [(val, weight),...(val, weight)], return a randomly
+    chosen value where the choice frequency is proportional to the choice
+    weight divided by the sum of all weights. Note, weights must be greater
+    than or equal to 0.
+
+    :param choices: A list of tuples
+    :type choices: [(val, weight),...(val, weight)]
+    :return: A choice sampled from the list according to the weightings
+    :rtype: val
+
+    >>> from random import seed
+    >>> seed(1234)
+    >>> options = [('a',.25),('b',.12),('c',.46),('d',.07)]
+    >>> weighted_choice(options)
+    'd'
+    >>> weighted_choice(options)
+    'c'
+    >>> weighted_choice(options)
+    'a'
+
+    .. seealso::
+        :meth:`CobwebNode.sample <concept_formation.cobweb.CobwebNode.sample>`
+    """
+    total = sum(w for c, w in choices)
+    r = uniform(0, total)
+    upto = 0
+    last = []
+    for c, w in choices:
+        if w < 0:
+            raise ValueError('All weights must be greater than or equal to 0.')
+        if upto + w > r:
+            return c
+        upto += w
+        if w > 0:
+            last = [c]
+    # rounding can leave the running sum at or just below r
+    if last:
+        return last[0]
+    raise ValueError("Choices cannot be an empty list")
+
+
+def most_likely_choice(choices):
+    """
+    Given a list of tuples [(val, weight),...(val, weight)], returns the value
+    with the highest weight. Ties are randomly broken.
+
+    >>> options = [('a',.25),('b',.12),('c',.46),('d',.07)]
+    >>> most_likely_choice(options)
+    'c'
+    >>> most_likely_choice(options)
+    'c'
+    >>> most_likely_choice(options)
+    'c'
+
+    :param choices: A list of tuples
+    :type choices: [(val, weight),...(val, weight)]
+    :return: the val with the hightest weight
+    :rtype: val
+    """
+    if len(choices) == 0:
+        raise ValueError("Choices cannot be an empty list")
+
+    vals = [w for _, w in choices if w < 0]
+    if len(vals) > 0:
+        raise ValueError('All weights must be greater than or equal to 0')
+
+    updated_choices = [(prob, random(), val) for val, prob in choices]
+    return sorted(updated_choices, reverse=True)[0][2]
-- 
2.43.0


From 86df0688bb1e64759e1c5646d249e89609541f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:00 +0000
Subject: [PATCH 08/22] fix: probability of a missing value in an empty concept

It raised ZeroDivisionError, e.g. in incremental_evaluation when the first
instance lacks the target attribute; every attribute is missing there.
---
 concept_formation/cobweb.py  | 2 ++
 concept_formation/cobweb3.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/concept_formation/cobweb.py b/concept_formation/cobweb.py
index 148db4f..54b8552 100644
--- a/concept_formation/cobweb.py
+++ b/concept_formation/cobweb.py
@@ -1145,6 +1145,8 @@ class CobwebNode(object):
         :rtype: float
         """
         if val is None:
+            if self.count == 0:
+                return 1.0
             c = 0.0
             if attr in self.av_counts:
                 c = sum([self.av_counts[attr][v] for v in
diff --git a/concept_formation/cobweb3.py b/concept_formation/cobweb3.py
index fb9653e..eb5c9e2 100644
--- a/concept_formation/cobweb3.py
+++ b/concept_formation/cobweb3.py
@@ -442,6 +442,8 @@ class Cobweb3Node(CobwebNode):
         :rtype: float
         """
         if val is None:
+            if self.count == 0:
+                return 1.0
             c = 0.0
             if attr in self.av_counts:
                 c = sum([self.av_counts[attr][v].num if v == cv_key
-- 
2.43.0


From b6f228cc016d4b923f38b41d0c613a801b5e52ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:56 +0000
Subject: [PATCH 09/22] fix: Flattener keeps the attributes of hidden
 components hidden

'_f9': {'sub': 'v'} became the visible attribute ('sub', '_f9'), so a hidden
component influenced concept formation.
---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 4eedc26..bc5f24d 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -706,7 +706,7 @@ class Flattener(Preprocessor):
         for attr in instance:
             original = attr
             if outer_attr is not None:
-                if attr[0] == "_":
+                if attr[0] == "_" or outer_attr[0] == "_":
                     attr = ('_', (attr, outer_attr))
                 else:
                     attr = (attr, outer_attr)
-- 
2.43.0


From 01cccf83f566880356c5bce7d7d1cda28506789a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:56 +0000
Subject: [PATCH 10/22] fix: dataset loaders return num_instances instances,
 not one more

---
 concept_formation/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/datasets.py b/concept_formation/datasets.py
index aaf79f9..3ec3f0e 100644
--- a/concept_formation/datasets.py
+++ b/concept_formation/datasets.py
@@ -23,7 +23,7 @@ def _load_json(filename, num_instances=None):
     output = []
     with open(join(module_path, 'data_files', filename)) as dat:
         for idx, lin in enumerate(dat):
-            if num_instances is not None and idx > num_instances:
+            if num_instances is not None and idx >= num_instances:
                 break
             output.append(json.loads(lin.strip('[],\n')))
     return output
-- 
2.43.0


From b9de2414b2ece1e88a3de67d1c9cda01cab959dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:56 +0000
Subject: [PATCH 11/22] fix: concept ids stay unique in a tree restored in
 another process

The id counter restarts with the process, so concepts added to an unpickled
tree repeated the ids (and so the cluster labels) of concepts it already had.
---
 concept_formation/cobweb.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/concept_formation/cobweb.py b/concept_formation/cobweb.py
index 54b8552..0f4b1b0 100644
--- a/concept_formation/cobweb.py
+++ b/concept_formation/cobweb.py
@@ -311,6 +311,15 @@ class CobwebNode(object):
             for child in otherNode.children:
                 self.children.append(self.__class__(child))
 
+    def __setstate__(self, state):
+        """
+        Restore a pickled node and move the id counter past its id, so that
+        concepts created later in this process do not reuse it.
+        """
+        self.__dict__.update(state)
+        cls = self.__class__
+        cls._counter = max(cls._counter, self.concept_id)
+
     def shallow_copy(self):
         """
         Create a shallow copy of the current node (and not its children)
-- 
2.43.0


From 386d045f92d0b3623d3d02cbafbcce302555f549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:56 +0000
Subject: [PATCH 12/22] fix: visualize completes a partly copied set of support
 files

A copy that failed after viz.html was never repeated with recreate_html=False.
---
 concept_formation/visualize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/concept_formation/visualize.py b/concept_formation/visualize.py
index 2880b24..1538e6c 100644
--- a/concept_formation/visualize.py
+++ b/concept_formation/visualize.py
@@ -38,7 +38,9 @@ def _gen_viz(js_ob, dst, recreate_html):
         viz_html_file = join(module_path, 'visualization_files', 'viz.html')
         webbrowser.open('file://'+realpath(viz_html_file))
     else:
-        if recreate_html or not exists(join(dst, 'viz.html')):
+        if recreate_html or not all(exists(join(dst, f)) for f in
+                                    ('viz.html', 'viz_logic.js',
+                                     'viz_styling.css')):
             viz_file = _copy_file('viz.html', dst)
             _copy_file('viz_logic.js', dst)
             _copy_file('viz_styling.css', dst)
-- 
2.43.0


From b9388387918f7d1376f6cb69e1864115c5799ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:56 +0000
Subject: [PATCH 13/22] fix: NameStandardizer undo keeps added variables apart
 from the originals

A variable that inference adds can carry the name of an unrelated variable of
the user's instance; the two objects were then merged into one.
---
 concept_formation/preprocessor.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index bc5f24d..6db5ba8 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -421,8 +421,29 @@ class NameStandardizer(Preprocessor):
         if self.reverse_mapping is None:
             raise Exception("Must call transform before undo_transform!")
 
+        # Variables added since the transform (e.g., by inference) must not be
+        # taken for the variables of the original instance.
+        originals = set(self.reverse_mapping.values())
+        added = self._variables(instance) - set(self.reverse_mapping)
+        for name in sorted(added & originals):
+            new_name = self.gensym()
+            while new_name in originals or new_name in added:
+                new_name = self.gensym()
+            self.reverse_mapping[name] = new_name
+
         return self._undo_standardize(instance)
 
+    def _variables(self, instance):
+        names = set()
+        for attr in instance:
+            if isinstance(attr, tuple) or (isinstance(attr, str) and attr):
+                names.update(get_attribute_components(attr))
+            value = instance[attr]
+            for ele in value if isinstance(value, list) else [value]:
+                if isinstance(ele, dict):
+                    names.update(self._variables(ele))
+        return names
+
     def _undo_standardize(self, instance):
         new_instance = {}
 
-- 
2.43.0


From 1147725f9280ed12f8931b7e881ff2bef7e542c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:11 +0000
Subject: [PATCH 14/22] fix: Tuplizer undo accepts the numbers its transform
 produces

A relation such as (place x1 12.4) is parsed to a float that the undo then
refused to join.
---
 concept_formation/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 6db5ba8..0a1c0cf 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -295,7 +295,7 @@ class Tuplizer(Preprocessor):
         """
         if isinstance(relation, tuple):
             relation = [self._stringify_relation(ele) if isinstance(ele, tuple)
-                        else ele for ele in relation]
+                        else str(ele) for ele in relation]
             return "(" + " ".join(relation) + ")"
         else:
             return relation
-- 
2.43.0


From fd6466726afa793249665def36f098cd1033d71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:33 +0000
Subject: [PATCH 15/22] fix: TrestleTree.infer_missing refuses invalid
 instances

Unlike categorize it skipped the sanity check, so an unhashable value was
returned as inferred or failed halfway, depending on the size of the tree.
---
 concept_formation/trestle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/concept_formation/trestle.py b/concept_formation/trestle.py
index 24e2e80..d31e381 100644
--- a/concept_formation/trestle.py
+++ b/concept_formation/trestle.py
@@ -194,6 +194,7 @@ class TrestleTree(Cobweb3Tree):
                                  StructureMapper(self.root))
 
         temp_instance = preprocessing.transform(instance)
+        self._sanity_check_instance(temp_instance)
         concept = self._cobweb_categorize(temp_instance)
 
         for attr in concept.attrs('all'):
-- 
2.43.0


From f19ebd384cd5902b268854d7a592e1033199fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:33 +0000
Subject: [PATCH 16/22] fix: DummyTree refuses invalid instances before
 counting them

An unhashable value raised TypeError with the count already incremented and
the attributes before it already recorded.
---
 concept_formation/dummy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/concept_formation/dummy.py b/concept_formation/dummy.py
index 9f0a85d..8b3c0e0 100644
--- a/concept_formation/dummy.py
+++ b/concept_formation/dummy.py
@@ -70,6 +70,7 @@ class DummyTree(TrestleTree):
         else:
             pipeline = Pipeline(SubComponentProcessor(), Flattener())
         temp_instance = pipeline.transform(instance)
+        self._sanity_check_instance(temp_instance)
         self.root.increment_counts(temp_instance)
         return self.root
 
-- 
2.43.0


From bbd1f362f8d1a6030a94a218454790746bbfb441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:48 +0000
Subject: [PATCH 17/22] fix: SubComponentProcessor undo leaves objects with
 several parents or in containment cycles relational

---
 concept_formation/preprocessor.py | 36 ++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index 0a1c0cf..b2e8f1a 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1302,13 +1302,39 @@ class SubComponentProcessor(Preprocessor):
         return self._embed_sub_objects(instance)
 
     def _embed_sub_objects(self, instance):
-        so_mapping = {attr[2]: (attr[2], attr[1]) for attr in instance
-                      if (isinstance(attr, tuple) and len(attr) == 3 and
-                          attr[0] == 'has-component')}
+        parents = {}
+        for attr in instance:
+            if self._is_has_component(attr):
+                parents.setdefault(attr[2], []).append(attr[1])
+
+        so_mapping = {child: (child, parents[child][0]) for child in parents
+                      if self._is_embeddable(child, parents)}
 
         return {self._rename_embedding(attr, so_mapping): instance[attr] for
-                attr in instance if not (isinstance(attr, tuple) and len(attr)
-                                         == 3 and attr[0] == 'has-component')}
+                attr in instance if not (self._is_has_component(attr) and
+                                         attr[2] in so_mapping)}
+
+    def _is_has_component(self, attr):
+        return (isinstance(attr, tuple) and len(attr) == 3 and
+                attr[0] == 'has-component')
+
+    def _is_embeddable(self, child, parents):
+        """
+        An object can be expressed in sub-object form if it has exactly one
+        parent and does not (indirectly) contain itself.
+        """
+        if len(parents[child]) != 1:
+            return False
+        seen = set()
+        curr = child
+        while curr in parents and len(parents[curr]) == 1:
+            seen.add(curr)
+            curr = parents[curr][0]
+            if curr == child:
+                return False
+            if curr in seen:
+                break
+        return True
 
     def _rename_embedding(self, attr, so_mapping):
         if attr in so_mapping:
-- 
2.43.0


From de61e78d7a88704b3684dc35943347fcf059b1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:49 +0000
Subject: [PATCH 18/22] fix: visualize puts support files in place only once
 they are complete

---
 concept_formation/visualize.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/concept_formation/visualize.py b/concept_formation/visualize.py
index 1538e6c..01f146d 100644
--- a/concept_formation/visualize.py
+++ b/concept_formation/visualize.py
@@ -6,6 +6,8 @@ from __future__ import print_function
 from __future__ import unicode_literals
 from __future__ import absolute_import
 from __future__ import division
+from os import remove
+from os import rename
 from os.path import realpath
 from os.path import dirname
 from os.path import join
@@ -21,7 +23,12 @@ def _copy_file(filename, target_dir):
     module_path = dirname(__file__)
     src = join(module_path, 'visualization_files', filename)
     dst = join(target_dir, filename)
-    copy(src, dst)
+    # put the file in place only once it is complete, a later call with
+    # recreate_html=False relies on the files it finds
+    copy(src, dst + '.tmp')
+    if exists(dst):
+        remove(dst)
+    rename(dst + '.tmp', dst)
     return dst
 
 
-- 
2.43.0


From dfedc0ac65a6ea8921c4e05d672603c15bd2e45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:20 +0000
Subject: [PATCH 19/22] fix: list elements never take the name of an attribute
 of the instance

---
 concept_formation/preprocessor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/concept_formation/preprocessor.py b/concept_formation/preprocessor.py
index b2e8f1a..d193517 100644
--- a/concept_formation/preprocessor.py
+++ b/concept_formation/preprocessor.py
@@ -1014,6 +1014,8 @@ class ExtractListElements(Preprocessor):
                         new_obj = {"val": el}
 
                     new_att = self.gensym()
+                    while new_att in instance:
+                        new_att = self.gensym()
                     new_instance[new_att] = self._extract(new_obj)
                     new_list.append(new_att)
 
-- 
2.43.0


From a6acd923a283ce2bd9472755a4ebdc68f3e82e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:15 +0000
Subject: [PATCH 20/22] fix: restoring a node cannot move the shared id counter
 backwards while another thread creates nodes

---
 concept_formation/cobweb.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/concept_formation/cobweb.py b/concept_formation/cobweb.py
index 0f4b1b0..a637511 100644
--- a/concept_formation/cobweb.py
+++ b/concept_formation/cobweb.py
@@ -318,7 +318,10 @@ class CobwebNode(object):
         """
         self.__dict__.update(state)
         cls = self.__class__
-        cls._counter = max(cls._counter, self.concept_id)
+        # no call between reading and writing the counter, so that another
+        # thread cannot have advanced it in between.
+        if cls._counter < self.concept_id:
+            cls._counter = self.concept_id
 
     def shallow_copy(self):
         """
-- 
2.43.0


From b23a675e32b3bfb2ead2536d1eaa86e0437118df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:03 +0000
Subject: [PATCH 21/22] fix: merging an empty numeric summary into another does
 nothing instead of dividing by zero

---
 concept_formation/continuous_value.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/concept_formation/continuous_value.py b/concept_formation/continuous_value.py
index d465862..39776b7 100644
--- a/concept_formation/continuous_value.py
+++ b/concept_formation/continuous_value.py
@@ -188,6 +188,8 @@ class ContinuousValue():
         """
         if not isinstance(other, ContinuousValue):
             raise ValueError("Can only merge 2 continuous values.")
+        if other.num == 0:
+            return
         delta = other.mean - self.mean
         self.meanSq = (self.meanSq + other.meanSq + delta * delta *
                        ((self.num * other.num) / (self.num + other.num)))
-- 
2.43.0


From 0d8995fabc12dba9f0d721e6e06e752c7a8a1e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:59 +0000
Subject: [PATCH 22/22] fix: structure mapping accepts the documented dict as
 initial mapping

flat_match documents initial_mapping as a mapping dict but unpacked its keys,
so that a dict raised ValueError (or was silently ignored for two-character
names).
---
 concept_formation/structure_mapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/concept_formation/structure_mapper.py b/concept_formation/structure_mapper.py
index eeaa3f2..4238727 100644
--- a/concept_formation/structure_mapper.py
+++ b/concept_formation/structure_mapper.py
@@ -207,7 +207,8 @@ def flat_match(target, base, initial_mapping=None):
     if initial_mapping is None:
         initial_mapping = hungarian_mapping(inames, cnames, target, base)
     else:
-        initial_mapping = frozenset([(a, v) for a, v in initial_mapping if a in
+        initial_mapping = frozenset([(a, v) for a, v in
+                                     dict(initial_mapping).items() if a in
                                      inames and v in cnames])
 
     unmapped = cnames - frozenset(dict(initial_mapping).values())
-- 
2.43.0

