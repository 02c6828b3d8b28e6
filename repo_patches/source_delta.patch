From 21802c193b522bb25200da8be5883c6bdf793b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:39 +0000
Subject: [PATCH 01/51] fix: keep the shape of a context without objects

numpy turns an empty list of rows into a table with no columns, so a context
that has attributes but no objects (yet, or any more) raised IndexError from
extents, transposition and the canonical basis, and lost columns on
add_attribute.  Context() with its default arguments raised TypeError.
---
 fca/context.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index 51dc172..7ab6aa0 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -212,6 +212,9 @@ class Context(object):
         #         cross_table = [list(i) for i in cross_table]
         #     except:
         #         raise NotTableException(cross_table)
+        cross_table = [] if cross_table is None else cross_table
+        objects = [] if objects is None else objects
+        attributes = [] if attributes is None else attributes
         if len(cross_table) != len(objects):
             raise ValueError("Number of objects (=%i) and number of cross table"
                    " rows(=%i) must agree" % (len(objects), len(cross_table)))
@@ -242,7 +245,9 @@ class Context(object):
 
         self._objects = _objects
         self._attributes = _attributes
-        self.np_table = np.array(cross_table, dtype=bool)
+        # an empty table must still have one column for every attribute
+        self.np_table = np.array(cross_table, dtype=bool).reshape(
+            len(_objects), len(_attributes))
         self.cross_table = self.np_table.tolist()
         self.object_indices = {obj: ind for ind, obj in enumerate(_objects)}
         self.attribute_indices = {att: ind
-- 
2.43.0


From c8f48cffff2216f7890767835096aa0f67ea9fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:39 +0000
Subject: [PATCH 02/51] fix: renamed duplicates must not collide with existing
 names

['a_1', 'a', 'a'] became ['a_1', 'a_1', 'a_2']: the name generated for a
duplicate could itself be taken, so lookups by name hit the wrong row.
---
 fca/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 7ab6aa0..47679e9 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -223,7 +223,7 @@ class Context(object):
                     " columns (=%i) must agree" % (len(attributes),
                         len(cross_table[0])))
         _attributes = attributes[:]
-        if len(set(attributes)) < len(attributes):
+        while len(set(_attributes)) < len(_attributes):
             for att in _attributes:
                 if _attributes.count(att) > 1:
                     indices = [i for i, x in enumerate(_attributes) if x == att]
@@ -233,7 +233,7 @@ class Context(object):
                     message += "renamed to '{}_n', n \in {}".format(att, indices)
                     module_logger.info(message)
         _objects = objects[:]
-        if len(set(objects)) < len(objects):
+        while len(set(_objects)) < len(_objects):
             for obj in _objects:
                 if _objects.count(obj) > 1:
                     indices = [i for i, x in enumerate(_objects) if x == obj]
-- 
2.43.0


From 710411e397137eb3f24a4917cf00a5ff4fb1d4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:39 +0000
Subject: [PATCH 03/51] fix: Context.compound always raised ValueError

Rows are numpy arrays, which + adds elementwise instead of concatenating.
Complementary attribute names are also built for names that are not strings.
---
 fca/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 47679e9..035cab9 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -774,7 +774,7 @@ class Context(object):
         @return: complementary context
         @note: original context remains unchanged
         """
-        complementary_attributes = ['not ' + self.attributes[i]
+        complementary_attributes = ['not {}'.format(self.attributes[i])
                                for i in range(len(self.attributes))]
         complementary_table = []
         for i in range(len(self.objects)):
@@ -790,7 +790,7 @@ class Context(object):
         @note: original context remains unchanged
         """
         complementary_cxt = self.complementary() 
-        compound_table = [self.table[i] + complementary_cxt.table[i]
+        compound_table = [list(self.table[i]) + list(complementary_cxt.table[i])
                           for i in range(len(self.objects))]
         return Context(compound_table,
                        self.objects,
-- 
2.43.0


From 9d4b9f8fbcd6a423334e073d63a547c087ec1c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:06 +0000
Subject: [PATCH 04/51] fix: object implications crashed and went stale

The default confirmed=None raised TypeError as soon as a basis had to be
computed, and the cached basis was never invalidated: after any change of the
context (or with another *confirmed*) the old one was returned.
---
 fca/context.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 035cab9..b939141 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -312,13 +312,9 @@ class Context(object):
     @basis_computation
     def get_object_implications(self, 
                                 basis=fca.algorithms.compute_dg_basis,
-                                confirmed=None):
-        cxt = self.transpose()
-        if not self._obj_imp_basis:
-            self._obj_imp_basis = basis(cxt, imp_basis=confirmed)
-        return self._obj_imp_basis
+                                confirmed=[]):
+        return basis(self.transpose(), imp_basis=confirmed)
     
-    _obj_imp_basis = None
     object_implications = property(get_object_implications)
         
     def examples(self):
-- 
2.43.0


From 47c7de5fc605fbdc5e949f697444a454c168cec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:06 +0000
Subject: [PATCH 05/51] fix: do not leave memoised lookups behind on a context

When a basis computation raised (for instance from the caller's cond), the
context kept answering intents and extents from the memo, also after it was
changed.  After a successful one it kept bound methods of itself, so a shallow
copy answered for the original context.
---
 fca/context.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index b939141..fc2bc16 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -96,16 +96,17 @@ def clear_cxt_vars(cxt):
 
 def basis_computation(f):
     def _f(*args, **kwargs):
-        old_obj_intent = args[0].get_object_intent_by_index 
-        old_att_extent = args[0].get_attribute_extent_by_index
-        args[0].get_object_intent_by_index = memo(args[0].get_object_intent_by_index)
-        args[0].get_attribute_extent_by_index = memo(args[0].get_attribute_extent_by_index)
-        result = f(*args, **kwargs)
-        del args[0].get_attribute_extent_by_index.cache
-        del args[0].get_object_intent_by_index.cache
-        args[0].get_object_intent_by_index = old_obj_intent
-        args[0].get_attribute_extent_by_index = old_att_extent
-        return result
+        names = ('get_object_intent_by_index', 'get_attribute_extent_by_index')
+        attrs = args[0].__dict__
+        saved = {name: attrs[name] for name in names if name in attrs}
+        for name in names:
+            attrs[name] = memo(getattr(args[0], name))
+        try:
+            return f(*args, **kwargs)
+        finally:
+            for name in names:
+                del attrs[name]
+            attrs.update(saved)
     _f.__name__ = f.__name__
     return _f
 
-- 
2.43.0


From ed8fa6ccd15aba226f062439fc40f8de50a3f87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:06 +0000
Subject: [PATCH 06/51] fix: delete_attributes with a repeated name corrupted
 the context

The column was deleted once and the name list entry twice.
---
 fca/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index fc2bc16..a89c809 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -417,7 +417,7 @@ class Context(object):
         self.__init__(new_table, self.objects, self.attributes)
 
     def delete_attributes(self, names):
-        att_inds = [self.attribute_indices[name] for name in names]
+        att_inds = sorted({self.attribute_indices[name] for name in names})
         self.np_table = np.delete(self.np_table, att_inds, 1)
         new_table = self.np_table.tolist()
         for att_index in sorted(att_inds, reverse=True):
-- 
2.43.0


From 1fbf3bd48519ae7f78934c80419c4897334aa06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:06 +0000
Subject: [PATCH 07/51] fix: reduce_objects left reducible objects and dropped
 irreducible ones

The loop index was looked up among the row codes found reducible so far, so
some reducible rows were skipped (rows 001, 000, 101, 011, 100 ...).  Row codes
were numpy int64: with more than 63 attributes (or objects, for
reduce_attributes) the high bits were lost and different rows were merged.
---
 fca/context.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index a89c809..5c584df 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -734,8 +734,6 @@ class Context(object):
         reducible = set()
         M = (1 << len(self.attributes)) - 1              #set of attributes repr
         for i in range(len(keys)):                      #checking if i reducible
-            if i in reducible:
-                continue 
             rest = keys[:i] + keys[i+1:]
             current = new = M
             for j in rest:
@@ -799,7 +797,7 @@ def list2int(lst):
     input lst - list of 1 and 0. Treat as binary number, make it decimal integer
     """
     def foo(x, y):
-        return (x << 1) + y
+        return (x << 1) + int(y)
     return reduce(foo, reversed(lst), 0)
 
 
-- 
2.43.0


From 5ff6968e52f9503a05431c6dcec0d79119d2db79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:06 +0000
Subject: [PATCH 08/51] fix: compare contexts by content, not by their printout

Contexts with different names could print alike (1 and '1', or 'a, b' and
'a', 'b' in a context without objects) and then counted as equal, although a
permutation of the same context did not.
---
 fca/context.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 5c584df..2bb2721 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -674,9 +674,7 @@ class Context(object):
     def __eq__(self, other):
         if type(other) != Context:
             raise TypeError("An input object should be a context!")
-        if self.__repr__() == other.__repr__():
-            return True
-        elif (len(self.objects) != len(other.objects) or
+        if (len(self.objects) != len(other.objects) or
               len(self.attributes) != len(other.attributes)):
             return False
         elif (set(self.objects) != set(other.objects) or
-- 
2.43.0


From 7b295088b6c03f9c2d668334794aff02b2ad5d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:06 +0000
Subject: [PATCH 09/51] fix: hash concepts by extent and intent

The hash covered the printout with the meta dictionary: concepts that compare
equal hashed differently, after compute_index a lattice no longer found its
own concepts (parents raised KeyError), and concepts whose names do not sort
had no hash at all.
---
 fca/concept.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/concept.py b/fca/concept.py
index 6903edb..8c772f9 100644
--- a/fca/concept.py
+++ b/fca/concept.py
@@ -68,7 +68,7 @@ class Concept(object):
                 self.intent == other.intent)
 
     def __hash__(self):
-        return hash(str(self))
+        return hash((frozenset(self.extent), frozenset(self.intent)))
 
     def pairs(self):
         if not self.extent or not self.intent:
-- 
2.43.0


From 2ff63eb7470649cf3a1df2a7339f590ab5bde014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:06 +0000
Subject: [PATCH 10/51] fix: filter_concepts modes 'part' and 'abs' raised
 TypeError

sorted takes its key by keyword only.
---
 fca/algorithms/filtering/filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/algorithms/filtering/filter.py b/fca/algorithms/filtering/filter.py
index c36b142..4326d40 100644
--- a/fca/algorithms/filtering/filter.py
+++ b/fca/algorithms/filtering/filter.py
@@ -30,7 +30,7 @@ def filter_concepts(lattice, function, mode, opt=1):
     
     def _filter_abs(lattice, indexes, n):
         key_ = lambda x: x[1] #TODO: check if this works. before it was cmp
-        sorted_indexes = sorted(list(indexes.items()), key_, reverse=True)
+        sorted_indexes = sorted(list(indexes.items()), key=key_, reverse=True)
         filtered_concepts = sorted_indexes[:int(n)]
             
         return fca.ConceptSystem([c[0] for c in filtered_concepts])
@@ -38,7 +38,7 @@ def filter_concepts(lattice, function, mode, opt=1):
     def _filter_part(lattice, indexes, part):
         n = int(len(lattice) * part)
         key_ = lambda x: x[1] #TODO: check if this works. before it was cmp
-        sorted_indexes = sorted(list(indexes.items()), key_, reverse=True)
+        sorted_indexes = sorted(list(indexes.items()), key=key_, reverse=True)
         filtered_concepts = sorted_indexes[:n]
         
         values = sorted_indexes
-- 
2.43.0


From 6ed036a84e434a93833cb91b80e1db5ed01c4c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:25 +0000
Subject: [PATCH 11/51] fix: filter_concepts mode 'part' with no or one concept
 selected

n-2 and n-1 then count from the end of the list: IndexError for a lattice of
one concept, otherwise the spread at the wrong end decided what is kept.
---
 fca/algorithms/filtering/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/algorithms/filtering/filter.py b/fca/algorithms/filtering/filter.py
index 4326d40..eb03740 100644
--- a/fca/algorithms/filtering/filter.py
+++ b/fca/algorithms/filtering/filter.py
@@ -42,7 +42,7 @@ def filter_concepts(lattice, function, mode, opt=1):
         filtered_concepts = sorted_indexes[:n]
         
         values = sorted_indexes
-        eps = values[n-2][1]-values[n-1][1]
+        eps = values[n-2][1]-values[n-1][1] if n > 1 else 0
         
         other_concepts = sorted_indexes[n:]
         for concept in other_concepts:
-- 
2.43.0


From feae5cd57cbe518023b756a847273440ac96ec5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:54 +0000
Subject: [PATCH 12/51] fix: canonical basis could contain superfluous
 implications

mod_extra was sorted with sets as keys, that is by inclusion, which is not a
total order: subsets could end up after their supersets, and implications that
are not in the basis were added.
---
 fca/algorithms/aibasis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fca/algorithms/aibasis.py b/fca/algorithms/aibasis.py
index 1ea2d86..fe61324 100644
--- a/fca/algorithms/aibasis.py
+++ b/fca/algorithms/aibasis.py
@@ -87,7 +87,8 @@ def update_preclosed(i, cxt, preclosed, close):
             basis.append(impl)
             mod_extra.append(non_min_mod[j])
         
-    mod_extra.sort(key=lambda x: x[1])
+    # supersets must come after their subsets; sets themselves do not sort
+    mod_extra.sort(key=lambda x: len(x[1]))
     
     return new_preclosed + mod_extra, basis
 
-- 
2.43.0


From 38a5fc6c6754d896aa0b6e3cde217aadfb498237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:54 +0000
Subject: [PATCH 13/51] fix: lin_closure of repeated implications was too large

Equal implications shared one counter of missing premise elements, so with
'a, b => c' given twice the closure of {a} contained c; a basis relative to
such background knowledge was wrong.  Without implications the argument itself
was returned instead of a new set.
---
 fca/algorithms/closure_operators.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/fca/algorithms/closure_operators.py b/fca/algorithms/closure_operators.py
index 3d2258f..fa7178f 100644
--- a/fca/algorithms/closure_operators.py
+++ b/fca/algorithms/closure_operators.py
@@ -124,23 +124,25 @@ def lin_closure(s, implications):
     
     """
     def decrease_count(i):
-        imp = current_imps[i]
-        if count[imp] == 0:
+        j = current_imps[i]
+        if count[j] == 0:
             return set()
-        count[imp] -= 1
-        if count[imp] == 0:
-            return imp._conclusion
+        count[j] -= 1
+        if count[j] == 0:
+            return implications[j]._conclusion
         return set()
     
     if not implications:
-        return s
+        return s.copy()
+    implications = list(implications)
     new_closure = s.copy()
     new_closure = reduce(set.union,
                          [imp._conclusion for imp in implications if not imp.premise],
                          new_closure)
-    count_ls = [(imp, len(imp.premise)) for imp in implications]
-    count = dict(count_ls)
-    imps_ls = [(attr, imp) for imp in implications for attr in imp.premise]
+    # by position: equal implications must not share a counter
+    count = [len(imp.premise) for imp in implications]
+    imps_ls = [(attr, j) for j, imp in enumerate(implications)
+               for attr in imp.premise]
     imps = defaultdict(list)
     for n,v in imps_ls:
         imps[n].append(v)
-- 
2.43.0


From a06bd34fc0b60b06ccde8859c13094a911d94722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:54 +0000
Subject: [PATCH 14/51] fix: copies, parsing and hashing of implications

A deep copy of a NegativeImplication was a (positive) Implication.  str2imp
read an empty side as {''}, so ' => a' did not give the implication it was
printed from.  Implications over names that do not sort with each other had no
hash, which closure computation needs.
---
 fca/implication.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fca/implication.py b/fca/implication.py
index c9c8135..107e00f 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -33,7 +33,10 @@ class Implication(object):
         self._conclusion = set(conclusion)
         
     def __deepcopy__(self, memo):
-        return Implication(self._premise.copy(), self._conclusion.copy())
+        result = self.__class__.__new__(self.__class__)
+        result._premise = self._premise.copy()
+        result._conclusion = self._conclusion.copy()
+        return result
 
     def get_premise(self):
         """
@@ -79,7 +82,8 @@ class Implication(object):
             return 0
 
     def __hash__(self):
-        return hash(str(self))
+        return hash((frozenset(self._premise),
+                     frozenset(self._conclusion - self._premise)))
             
     def is_respected(self, some_set):
         """Checks whether *some_set* respects an implication or not"""
@@ -95,7 +99,7 @@ class Implication(object):
     @classmethod
     def str2imp(cls, string):
         def str2set(str_):
-            return set(map(str.strip, str_.split(',')))
+            return set(filter(None, map(str.strip, str_.split(','))))
         str_premise, str_conclusion = string.split('=>')
         premise = str2set(str_premise)
         conclusion = str2set(str_conclusion)
-- 
2.43.0


From 803caae834b5253b118bdc277017afce05562208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:54 +0000
Subject: [PATCH 15/51] fix: bases of contexts whose attribute names do not
 sort

The closures were sorted only to be made sets again, so a context with both
numbers and strings as attributes (as read_cxt returns for such files) raised
TypeError.
---
 fca/algorithms/dg_basis.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fca/algorithms/dg_basis.py b/fca/algorithms/dg_basis.py
index 4a61e40..f5475ed 100644
--- a/fca/algorithms/dg_basis.py
+++ b/fca/algorithms/dg_basis.py
@@ -16,7 +16,8 @@ def compute_dg_basis(cxt,
     Compute Duquenne-Guigues basis for a given *cxt* using 
     optimized Ganter algorithm
     """
-    aclose = lambda attributes: closure_operators.aclosure(attributes, cxt)
+    aclose = lambda attributes: closure_operators.oprime(
+        closure_operators.aprime(attributes, cxt), cxt)
     return generalized_compute_dg_basis(cxt.attributes, 
                                         aclose,
                                         close=close,
@@ -31,7 +32,8 @@ def compute_dg_basis_simple(cxt,
     Compute Duquenne-Guigues basis for a given *cxt* using 
     optimized Ganter algorithm and simple closure.
     """
-    aclose = lambda attributes: closure_operators.aclosure(attributes, cxt)
+    aclose = lambda attributes: closure_operators.oprime(
+        closure_operators.aprime(attributes, cxt), cxt)
     return generalized_compute_dg_basis(cxt.attributes, 
                                         aclose,
                                         close=close,
@@ -104,7 +106,8 @@ def dg_basis_iter_simple(cxt,
     Compute iterator over Duquenne-Guigues basis for a given *cxt* using 
     optimized Ganter algorithm and simple closure.
     """
-    aclose = lambda attributes: closure_operators.aclosure(attributes, cxt)
+    aclose = lambda attributes: closure_operators.oprime(
+        closure_operators.aprime(attributes, cxt), cxt)
     return generalized_dg_basis_iter(cxt.attributes, 
                                      aclose,
                                      close=close,
-- 
2.43.0


From 5b5c0c7d382d19de49558fe10fe2f63c5dcc54c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:20 +0000
Subject: [PATCH 16/51] fix: a negative implication does not equal the positive
 one

a => not (b) and a => b compared equal, so removing one from a list or testing
for membership could hit the other.
---
 fca/implication.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fca/implication.py b/fca/implication.py
index 107e00f..a693c63 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -139,6 +139,10 @@ class NegativeImplication(Implication):
                           ")")
         return " => ".join((premise, conclusion,))
 
+    def __eq__(self, other):
+        return isinstance(other, NegativeImplication) and super().__eq__(other)
+
+    __hash__ = Implication.__hash__
 
     def is_respected(self, some_set):
         """Checks whether *some_set* respects the negative implication"""
-- 
2.43.0


From 9098a629d74dd35fa97b3a4bee59704b7af61bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:50 +0000
Subject: [PATCH 17/51] fix: many-valued contexts lost their values

The table was converted to booleans by the constructor of the binary context
(and again by deepcopy), so every value read as True and scaling was
meaningless; adding objects and printing assumed a boolean table as well.
---
 fca/mvcontext.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/fca/mvcontext.py b/fca/mvcontext.py
index a1d1fd8..e54fa3d 100644
--- a/fca/mvcontext.py
+++ b/fca/mvcontext.py
@@ -3,6 +3,10 @@
 Holds class for many valued context
 """
 
+import copy
+
+import numpy as np
+
 from fca import Context
 
 class ManyValuedContext(Context):
@@ -54,6 +58,12 @@ class ManyValuedContext(Context):
         super().__init__(cross_table=table,
                          objects=objects,
                          attributes=attributes)
+        # the binary context reduces the values to booleans: keep them
+        self.cross_table = [list(row) for row in table]
+        self.np_table = np.empty((len(self._objects), len(self._attributes)),
+                                 dtype=object)
+        for i, row in enumerate(self.cross_table):
+            self.np_table[i, :] = row
         # if len(table) != len(objects):
         #     raise ValueError("Number of objects (=%i) and number of cross table"
         #            " rows(=%i) must agree" % (len(objects), len(table)))
@@ -66,6 +76,30 @@ class ManyValuedContext(Context):
         # self._objects = objects
         # self._attributes = attributes
 
+    def __deepcopy__(self, memo):
+        return ManyValuedContext(copy.deepcopy(self.table, memo),
+                                 self.objects[:],
+                                 self.attributes[:])
+
+    def __repr__(self):
+        output = ", ".join(map(str, self.attributes)) + "\n"
+        for obj, row in zip(self.objects, self.table):
+            output += "\t".join(map(str, [obj] + row)) + "\n"
+        return output
+
+    def add_attribute(self, col, attr_name):
+        """Add new attribute to context with given name"""
+        if len(col) != len(self.objects):
+            raise ValueError("Number of objects (=%i) and number of values"
+                    " (=%i) must agree" % (len(self.objects), len(col)))
+        self.__init__([row + [val] for row, val in zip(self.table, col)],
+                      self.objects, self.attributes + [attr_name])
+
+    def add_object(self, row, obj_name):
+        """Add new object to context with given name"""
+        self.__init__(self.table + [list(row)], self.objects + [obj_name],
+                      self.attributes)
+
     def get_objects(self):
         return self._objects
 
-- 
2.43.0


From 59a0e190be64dac125a0c534bd76aa0e69f5ca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:18 +0000
Subject: [PATCH 18/51] fix: partial contexts could not be constructed

subseteq_table indexed with a float and failed on a table without rows.
---
 fca/compare_context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/compare_context.py b/fca/compare_context.py
index 1d49fdc..c085491 100644
--- a/fca/compare_context.py
+++ b/fca/compare_context.py
@@ -18,9 +18,9 @@ def subseteq_table(table_left, table_right):
                          %(len(table_left[0]), len(table_right[0])))
 
     row_length = len(table_left)
-    table_size = row_length * len(table_left[0])
+    table_size = row_length * len(table_left[0]) if row_length else 0
     for i in range(table_size):
-        a = (i / row_length)
+        a = (i // row_length)
         b = (i % row_length)
         if not (table_left[b][a] <= table_right[b][a]):
             return False
-- 
2.43.0


From 73d0614cc2b8582a3f0ca379649fc1672e820332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:18 +0000
Subject: [PATCH 19/51] fix: algorithm2 divided by zero on a context without
 crosses

---
 fca/algorithms/factors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fca/algorithms/factors.py b/fca/algorithms/factors.py
index fa3e54b..bef3cee 100644
--- a/fca/algorithms/factors.py
+++ b/fca/algorithms/factors.py
@@ -82,6 +82,8 @@ def algorithm2(cxt, fidelity=1):
     """
     U = set(cxt.object_attribute_pairs)
     len_initial = len(U)
+    if not len_initial:
+        return
     while (len_initial - len(U)) / len_initial < fidelity:
         D = set()
         V = 0
-- 
2.43.0


From 6d1b7ddedc179513efe723fabcd5aee2e9ed1826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:08 +0000
Subject: [PATCH 20/51] fix: algorithm2_weighted asked for the wrong derivation
 and always got stuck

---
 fca/algorithms/factors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fca/algorithms/factors.py b/fca/algorithms/factors.py
index bef3cee..4b43789 100644
--- a/fca/algorithms/factors.py
+++ b/fca/algorithms/factors.py
@@ -139,12 +139,14 @@ def algorithm2_weighted(cxt, fidelity=1):
 
     U = set(cxt.object_attribute_pairs)
     len_initial = len(U)
+    if not len_initial:
+        return
     while (len_initial - len(U)) / len_initial < fidelity:
         D = set()
         V = 0
         to_remove = set()
         while True:
-            D_objs = cxt.oprime(D)
+            D_objs = cxt.aprime(D)
             ls_measures = [(score(_oplus(D_objs, j, cxt, U)), j)
                            for j in set(cxt.attributes) - D]
             if ls_measures:
-- 
2.43.0


From 8b676169cbbe48cdbd47ad05b9fcabe69418e797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:08 +0000
Subject: [PATCH 21/51] fix: algorithm2_w_condition got stuck on contexts
 already covered

A factor of the requested size whose crosses are all covered raised
'Algorithm stuck' instead of trying the remaining attributes.
---
 fca/algorithms/factors.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fca/algorithms/factors.py b/fca/algorithms/factors.py
index 4b43789..f8a43be 100644
--- a/fca/algorithms/factors.py
+++ b/fca/algorithms/factors.py
@@ -240,9 +240,10 @@ def algorithm2_w_condition(cxt, fidelity: float = 1,
                     to_remove = to_remove_U
             elif good_factor(cpt=fca.Concept(C, D)):
                 if len(to_remove) == 0:
-                    raise Exception(
-                        f'Algorithm stuck, something went wrong, pairs left '
-                        f'{len(U)}')
+                    # nothing new is covered: restart without these attributes
+                    U = {u for u in U if u[1] not in D}
+                    removed_atts |= D
+                    break
                 U -= to_remove
                 # print(f'Factor out: {len(C)}, {len(D)}')
                 yield fca.Concept(C, D), len(to_remove) / len_initial, (len_initial - len(U)) / len_initial
-- 
2.43.0


From 1cf8d7f6cb5a2a51f2b1804a7717be799d5a924f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:08 +0000
Subject: [PATCH 22/51] fix: ExplorationDB.delete_example called a method
 contexts do not have

---
 fca/algorithms/exploration_/exploration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index 70dda74..c060cae 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -84,7 +84,7 @@ class ExplorationDB(object):
         
     @context_modifier
     def delete_example(self, name):
-        self._cxt.delete_object_by_name(name)
+        self._cxt.delete_object(name)
     
     @context_modifier
     def edit_example(self, name, old_name, intent):
-- 
2.43.0


From 9dca8ef672e272eb13b6fa9e6d7adf4d813b6de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:08 +0000
Subject: [PATCH 23/51] fix: a rejected edit_example changed the context

The intent was replaced before the new name was found to be taken, and the
open implications were left stale.
---
 fca/algorithms/exploration_/exploration.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index c060cae..b0997c8 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -89,14 +89,13 @@ class ExplorationDB(object):
     @context_modifier
     def edit_example(self, name, old_name, intent):
         old_intent = self._cxt.get_object_intent(old_name)
+        if old_name != name and name in self._cxt.objects:
+            raise NotUniqueObjectName()
         if intent != old_intent:
             self._check_intents([intent])
             self._cxt.set_object_intent(intent, old_name)
         if old_name != name:
-            if name in self._cxt.objects:
-                raise NotUniqueObjectName()
-            else:
-                self._cxt.rename_object(old_name, name)
+            self._cxt.rename_object(old_name, name)
         
     @context_modifier
     def add_attribute(self, name, extent):
-- 
2.43.0


From c1b2901f1682e5d0e3d59272ee742c2ca52fafe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:08 +0000
Subject: [PATCH 24/51] fix: ExplorationDB.delete_attribute called a method
 contexts do not have

An attribute the background knowledge speaks about cannot be deleted: no basis
could be computed afterwards.
---
 fca/algorithms/exploration_/exploration.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index b0997c8..78928a4 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -105,7 +105,10 @@ class ExplorationDB(object):
         
     @context_modifier
     def delete_attribute(self, name):
-        self._cxt.delete_attribute_by_name(name)
+        for imp in self._implications:
+            if name in imp.premise | imp.conclusion:
+                raise IllegalContextModification()
+        self._cxt.delete_attribute(name)
 
     @context_modifier
     def touch(self):
-- 
2.43.0


From 65fe0bd5e730dca426122a63b28df1f6f74c7c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:08 +0000
Subject: [PATCH 25/51] fix: ExplorationDB.edit_attribute crashed and accepted
 taken names

set.add and set.discard return None, so any background knowledge made it fail;
a name taken by another attribute was never rejected; and the background
knowledge kept speaking about the old name.
---
 fca/algorithms/exploration_/exploration.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index 78928a4..1b8711c 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -119,20 +119,20 @@ class ExplorationDB(object):
         intents = []
         for obj in self._cxt.objects:
             if obj in extent:
-                intents.append(self._cxt.get_object_intent(obj).add(old_name))
+                intents.append(self._cxt.get_object_intent(obj) | {old_name})
             else:
-                intents.append(self._cxt.get_object_intent(obj).discard(old_name))
+                intents.append(self._cxt.get_object_intent(obj) - {old_name})
         self._check_intents(intents)
 
-        first = False
-        for attribute in self._cxt.attributes:
-            if name == attribute:
-                if first:
-                    raise NotUniqueAttributeName()
-                else:
-                    first = True
+        if name != old_name and name in self._cxt.attributes:
+            raise NotUniqueAttributeName()
         self._cxt.set_attribute_extent(extent, old_name)
         self._cxt.rename_attribute(old_name, name)
+        for imp in self._implications:
+            for part in (imp.get_premise(), imp.get_conclusion()):
+                if old_name in part:
+                    part.remove(old_name)
+                    part.add(name)
             
     def get_open_implications(self):
         return copy(self._cxt_implications)
-- 
2.43.0


From 590cb9ff07d69f2ddffec071d660de8cc1f008cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:08 +0000
Subject: [PATCH 26/51] fix: edits could contradict confirmed implications of
 the other kind

editing an attribute changes object intents, and editing an object changes
attribute extents: both kinds of confirmed implications must be respected.
---
 fca/algorithms/exploration.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/fca/algorithms/exploration.py b/fca/algorithms/exploration.py
index fc0ae0f..3758083 100644
--- a/fca/algorithms/exploration.py
+++ b/fca/algorithms/exploration.py
@@ -206,6 +206,12 @@ class BasicExploration(object):
     def edit_attribute(self, new_extent, name):
         if not self.check_extent_for_conflicts(new_extent):
             raise BasisConflict(new_extent)
+        for obj in self.context.objects:
+            intent = self.context.get_object_intent(obj) - {name}
+            if obj in new_extent:
+                intent.add(name)
+            if not self.check_intent_for_conflicts(intent):
+                raise BasisConflict(intent)
         else:
             self.context.set_attribute_extent(new_extent, name)
             self.recompute_basis()
@@ -213,6 +219,12 @@ class BasicExploration(object):
     def edit_object(self, new_intent, name):
         if not self.check_intent_for_conflicts(new_intent):
             raise BasisConflict(new_intent)
+        for attr in self.context.attributes:
+            extent = self.context.get_attribute_extent(attr) - {name}
+            if attr in new_intent:
+                extent.add(name)
+            if not self.check_extent_for_conflicts(extent):
+                raise BasisConflict(extent)
         else:
             self.context.set_object_intent(new_intent, name)
             self.recompute_basis()
-- 
2.43.0


From ae6f85b18f51f4d4be1cb544e99c103dd9d785ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:37 +0000
Subject: [PATCH 27/51] fix: patterns of objects with all attributes

A closure with all attributes does not tell whether a combination occurs: an
object may have all attributes.
---
 fca/algorithms/patterns.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fca/algorithms/patterns.py b/fca/algorithms/patterns.py
index 369fc39..e29344e 100644
--- a/fca/algorithms/patterns.py
+++ b/fca/algorithms/patterns.py
@@ -88,8 +88,7 @@ class NotANegativePattern(NotAPatternException):
 def iterate_positive_concepts(positive_cxt, negative_cxt):
     reduced_pos_cxt = positive_cxt.reduce_attributes().reduce_objects()
     for cpt in reduced_pos_cxt.concepts:
-        if negative_cxt.aclosure(cpt.intent) == set(
-                negative_cxt.attributes):
+        if cpt.extent and not negative_cxt.aprime(cpt.intent):
             yield cpt
 
 
@@ -130,9 +129,9 @@ class BasicPatternExploration:
         return sorted(out, key=lambda x: -x[1])
 
     def confirm_pattern(self, pattern):
-        if self.positive_cxt.aclosure(pattern) == set(self.positive_cxt.attributes):
+        if not self.positive_cxt.aprime(pattern):
             raise NotAPositivePattern(pattern)
-        elif self.negative_cxt.aclosure(pattern) != set(self.negative_cxt.attributes):
+        elif self.negative_cxt.aprime(pattern):
             raise NotANegativePattern(pattern)
         self.confirmed_patterns.append(frozenset(pattern))
         return self
-- 
2.43.0


From 122b8d56dd45e9492e247e63d80145cae11525e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:37 +0000
Subject: [PATCH 28/51] fix: unconfirmed patterns of the default generator

The default generator gives concepts, which do not unpack.
---
 fca/algorithms/patterns.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fca/algorithms/patterns.py b/fca/algorithms/patterns.py
index e29344e..d282d1b 100644
--- a/fca/algorithms/patterns.py
+++ b/fca/algorithms/patterns.py
@@ -121,7 +121,9 @@ class BasicPatternExploration:
     def get_unconfirmed_patterns_with_examples(self):
         unexplained_examples = list(self.iterate_unexplained_examples())
         out = []
-        for pattern, freq in self.iterate_patterns_with_examples():
+        for found in self.iterate_patterns_with_examples():
+            # generators give concepts or (attributes, frequency) pairs
+            pattern = found.intent if isinstance(found, Concept) else found[0]
             if not self.is_explained(pattern):
                 covered_examples = [example[0] for example in unexplained_examples
                                     if pattern <= example[1]]
-- 
2.43.0


From 70d5a327931eff7a171f0e04f23b422eb254e1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:37 +0000
Subject: [PATCH 29/51] fix: negative examples may not contain a confirmed
 pattern

---
 fca/algorithms/patterns.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fca/algorithms/patterns.py b/fca/algorithms/patterns.py
index d282d1b..e31ed2a 100644
--- a/fca/algorithms/patterns.py
+++ b/fca/algorithms/patterns.py
@@ -152,6 +152,9 @@ class BasicPatternExploration:
         if pattern is not None:
             if set(pattern) - set(obj_intent) != set():
                 raise NotNegativeExample(obj_intent, pattern)
+        for confirmed in self.confirmed_patterns:
+            if confirmed <= set(obj_intent):
+                raise ConfirmedPatternsConflict(obj_intent, confirmed)
         self.negative_cxt.add_object_with_intent(obj_intent, obj_name)
         return self
 
-- 
2.43.0


From 9cb1991f0632d6071587ddbbf00f52e50407d5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:37 +0000
Subject: [PATCH 30/51] fix: a failed completion left the partial context half
 completed

---
 fca/partial_context.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fca/partial_context.py b/fca/partial_context.py
index ebe336c..7c16174 100644
--- a/fca/partial_context.py
+++ b/fca/partial_context.py
@@ -96,20 +96,22 @@ class PartialContext(object):
         self.objects.append(name)
         
     def complete(self, implications):
+        completed = []
         for o in self.objects:
             xintent = self.x_context.get_object_intent(o)
             new_xintent = closure(xintent, implications)
             qintent = self.q_context.get_object_intent(o)
             if not new_xintent <= qintent:
-                # TODO: undo the modifications
                 raise ValueError(
                     'implications are inconsistent with the partial context')
-            self.x_context.set_object_intent(new_xintent, o)
             new_qintent = set([a for a in qintent
                                  if a in new_xintent or
                                  closure(new_xintent | {a}, implications)
                                                                     <= qintent
                              ])
+            completed.append((o, xintent, qintent, new_xintent, new_qintent))
+        for o, xintent, qintent, new_xintent, new_qintent in completed:
+            self.x_context.set_object_intent(new_xintent, o)
             self.q_context.set_object_intent(new_qintent, o)
             # TODO: Remove printing
             if xintent != new_xintent or qintent != new_qintent:
-- 
2.43.0


From 6fb4601b9d6e1293121ef4c4564729c5f18b25b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:37 +0000
Subject: [PATCH 31/51] fix: nominal scales of values with quotes and of
 missing values

---
 fca/scale.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/scale.py b/fca/scale.py
index 5d3ace0..2271a31 100644
--- a/fca/scale.py
+++ b/fca/scale.py
@@ -37,8 +37,8 @@ class NominalScale(Scale):
         def foo(value):
             try:
                 return float(value)
-            except ValueError:
-                return "'" + str(value) + "'"
+            except (TypeError, ValueError):
+                return repr(str(value))
         if type(attribute) == str:
             attribute = mvcontext.attributes.index(attribute)
         values = list(set([foo(mvcontext[i][attribute])
-- 
2.43.0


From 4e204d8f638a0c134025b0f07660105c5c54bbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:37 +0000
Subject: [PATCH 32/51] fix: tab and comma separated files could not be read

The csv module reads text, and text has no encoding of its own.
---
 fca/readwrite/comma_separated.py |  2 +-
 fca/readwrite/tab_separated.py   | 22 +++++++++++-----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/fca/readwrite/comma_separated.py b/fca/readwrite/comma_separated.py
index 7867d44..ce03923 100644
--- a/fca/readwrite/comma_separated.py
+++ b/fca/readwrite/comma_separated.py
@@ -36,7 +36,7 @@ def read_mv_csv(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r")
     rdr = csv.reader(input_file, delimiter=",")
     
     objects = []
diff --git a/fca/readwrite/tab_separated.py b/fca/readwrite/tab_separated.py
index 456f2a5..d23a2a8 100644
--- a/fca/readwrite/tab_separated.py
+++ b/fca/readwrite/tab_separated.py
@@ -79,7 +79,7 @@ def read_txt(path):
     ['a', 'b', 'c', 'd']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r")
     rdr = csv.reader(input_file, delimiter="\t")
     rec = next(rdr) # read attributes names
 
@@ -105,7 +105,7 @@ def read_txt(path):
     # TODO: It's hack
     # Strange things happen with csv in case of non standard characters
     if len(attributes) != len(table[0]):
-        input_file = open(path, "rb")
+        input_file = open(path, "r")
         attributes = input_file.readline().split("\t")[:-1]
         input_file.close()
 
@@ -144,7 +144,7 @@ def read_mv_txt(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r")
     rdr = csv.reader(input_file, delimiter="\t")
     rec = next(rdr) # read objects names
     
@@ -172,7 +172,7 @@ def read_mv_txt(path):
     # Strange things happen with csv in case some of "non standard" characters
     if ((len(table) != 0) and len(attributes) != len(table[0]))\
         or len(table) != len(objects):
-        input_file = open(path, "rb")
+        input_file = open(path, "r")
         objects = input_file.readline().strip().split("\t")
         attributes = input_file.readline().strip().split("\t")
         input_file.close()
@@ -211,19 +211,19 @@ def uread_mv_txt(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r", encoding="utf-8")
     rdr = csv.reader(input_file, delimiter="\t")
     rec = next(rdr) # read objects names
     
     objects = []
     for obj in rec:
-        objects.append(str(obj, "utf-8").strip())
+        objects.append(str(obj).strip())
     
     rec = next(rdr) # read attributes names
 
     attributes = []
     for attr in rec:
-        attributes.append(str(attr, "utf-8").strip())
+        attributes.append(str(attr).strip())
     
     next(rdr) # empty line
     
@@ -239,7 +239,7 @@ def uread_mv_txt(path):
     # Strange things happen with csv in case some of "non standard" characters
     if ((len(table) != 0) and len(attributes) != len(table[0]))\
         or len(table) != len(objects):
-        input_file = open(path, "rb")
+        input_file = open(path, "r", encoding="utf-8")
         objects = input_file.readline().strip().split("\t")
         attributes = input_file.readline().strip().split("\t")
         input_file.close()
@@ -262,12 +262,12 @@ def write_mv_txt(context, path):
     output_file.close()
 
 def uwrite_mv_txt(context, path):
-    output_file = open(path, "w")
+    output_file = open(path, "w", encoding="utf-8")
 
-    output_file.write("\t".join(context.objects).encode("utf-8"))
+    output_file.write("\t".join(context.objects))
     output_file.write("\n")
 
-    output_file.write("\t".join(context.attributes).encode("utf-8"))
+    output_file.write("\t".join(context.attributes))
     output_file.write("\n\n")
 
     for i in range(len(context.objects)):
-- 
2.43.0


From 175a2034a37ba611910c46a963f1f2bf001e49af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:37 +0000
Subject: [PATCH 33/51] fix: write_mv_txt failed on names that are not strings

---
 fca/readwrite/tab_separated.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fca/readwrite/tab_separated.py b/fca/readwrite/tab_separated.py
index d23a2a8..cf60f74 100644
--- a/fca/readwrite/tab_separated.py
+++ b/fca/readwrite/tab_separated.py
@@ -249,10 +249,10 @@ def uread_mv_txt(path):
 def write_mv_txt(context, path):
     output_file = open(path, "w")
 
-    output_file.write("\t".join(context.objects))
+    output_file.write("\t".join(map(str, context.objects)))
     output_file.write("\n")
 
-    output_file.write("\t".join(context.attributes))
+    output_file.write("\t".join(map(str, context.attributes)))
     output_file.write("\n\n")
 
     for i in range(len(context.objects)):
@@ -264,10 +264,10 @@ def write_mv_txt(context, path):
 def uwrite_mv_txt(context, path):
     output_file = open(path, "w", encoding="utf-8")
 
-    output_file.write("\t".join(context.objects))
+    output_file.write("\t".join(map(str, context.objects)))
     output_file.write("\n")
 
-    output_file.write("\t".join(context.attributes))
+    output_file.write("\t".join(map(str, context.attributes)))
     output_file.write("\n\n")
 
     for i in range(len(context.objects)):
-- 
2.43.0


From 12aea1c3cc585fdc968c4a2628c7abccf586f570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:37 +0000
Subject: [PATCH 34/51] fix: objects named 0 or 1 gave a column of their own

---
 fca/readwrite/tab_separated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/readwrite/tab_separated.py b/fca/readwrite/tab_separated.py
index cf60f74..5e3c795 100644
--- a/fca/readwrite/tab_separated.py
+++ b/fca/readwrite/tab_separated.py
@@ -31,7 +31,7 @@ def read_txt_with_names(path):
     for rec in rdr:
         objects.append(rec[0])                  # read objects names
         line = []
-        for num in rec:
+        for num in rec[1:]:
             if num == "0":
                 line.append(False)
             elif num == "1":
-- 
2.43.0


From c6a84db2d7cfb74ccbf52dd52f5f52affd8d8f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:37 +0000
Subject: [PATCH 35/51] fix: text files without objects could not be read

---
 fca/readwrite/tab_separated.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/readwrite/tab_separated.py b/fca/readwrite/tab_separated.py
index 5e3c795..9d5f793 100644
--- a/fca/readwrite/tab_separated.py
+++ b/fca/readwrite/tab_separated.py
@@ -39,7 +39,7 @@ def read_txt_with_names(path):
         table.append(line)
     input_file.close()
 
-    if len(attributes) != len(table[0]):
+    if table and len(attributes) != len(table[0]):
         input_file = open(path, "r")
         attributes = input_file.readline().split("\t")[:-1]
         input_file.close()
@@ -104,7 +104,7 @@ def read_txt(path):
 
     # TODO: It's hack
     # Strange things happen with csv in case of non standard characters
-    if len(attributes) != len(table[0]):
+    if table and len(attributes) != len(table[0]):
         input_file = open(path, "r")
         attributes = input_file.readline().split("\t")[:-1]
         input_file.close()
-- 
2.43.0


From de96ed489b602392b87c303c93cd38bce77e75af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:37 +0000
Subject: [PATCH 36/51] fix: read_csv took 0 for a cross

---
 fca/readwrite/comma_separated.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fca/readwrite/comma_separated.py b/fca/readwrite/comma_separated.py
index ce03923..57d588c 100644
--- a/fca/readwrite/comma_separated.py
+++ b/fca/readwrite/comma_separated.py
@@ -65,7 +65,9 @@ def read_csv(path):
     @note: uses *read_mv_csv* add then treats many valued context as binary
     """
     mvcxt = read_mv_csv(path)
-    return fca.Context(mvcxt.table, mvcxt.objects, mvcxt.attributes)
+    table = [[val.strip() not in ("", "0") for val in row]
+             for row in mvcxt.table]
+    return fca.Context(table, mvcxt.objects, mvcxt.attributes)
 
 if __name__ == "__main__":
     import doctest
-- 
2.43.0


From 0e18f917eef05be9d1ec338a0fe251fb987a23fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:05 +0000
Subject: [PATCH 37/51] fix: read_cxt evaluated the names it read

A name such as id, max or path was replaced by a Python object, 1/0 or a list
stopped the reading, and a file could run arbitrary code.
---
 fca/readwrite/cxt.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/fca/readwrite/cxt.py b/fca/readwrite/cxt.py
index f119e5d..cdd4780 100644
--- a/fca/readwrite/cxt.py
+++ b/fca/readwrite/cxt.py
@@ -1,8 +1,21 @@
 # -*- coding: utf-8 -*-
 """Holds function that read context from tab separated txt file"""
 
+import ast
+
 import fca
 
+
+def _parse_name(string):
+    """Return the literal written in string, or string itself."""
+    try:
+        name = ast.literal_eval(string)
+        hash(name)
+    except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):
+        return string
+    return name
+
+
 def read_cxt(path):
     """Read context from path, which is .cxt file
 
@@ -68,19 +81,11 @@ def read_cxt(path):
     objects = []
     for _ in range(number_of_objects):
         next_obj_s = input_file.readline().strip()
-        try:
-            next_obj = eval(next_obj_s)
-        except (NameError, SyntaxError):
-            next_obj = next_obj_s
-        objects.append(next_obj)
+        objects.append(_parse_name(next_obj_s))
     attributes = []
     for _ in range(number_of_attributes):
         next_att_s = input_file.readline().strip()
-        try:
-            next_att = eval(next_att_s)
-        except (NameError, SyntaxError):
-            next_att = next_att_s
-        attributes.append(next_att)
+        attributes.append(_parse_name(next_att_s))
 
     table = []
     for i in range(number_of_objects):
-- 
2.43.0


From 550eea27948c13736303580e64c68bc2059c1b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:05 +0000
Subject: [PATCH 38/51] fix: uread_cxt failed on every file

Text read from a file is already decoded; write and read it as UTF-8.
---
 fca/readwrite/cxt.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fca/readwrite/cxt.py b/fca/readwrite/cxt.py
index cdd4780..7cc6116 100644
--- a/fca/readwrite/cxt.py
+++ b/fca/readwrite/cxt.py
@@ -120,18 +120,18 @@ def write_cxt(context, path):
     output_file.close()
     
 def uwrite_cxt(context, path):
-    output_file = open(path, "w")
+    output_file = open(path, "w", encoding="utf-8")
     output_file.write("B\n\n")
 
     output_file.write(str(len(context.objects))+"\n")
     output_file.write(str(len(context.attributes))+"\n\n")
 
     for i in range(len(context.objects)):
-        output_file.write(context.objects[i])
+        output_file.write(str(context.objects[i]))
         output_file.write("\n")
 
     for i in range(len(context.attributes)):
-        output_file.write(context.attributes[i])
+        output_file.write(str(context.attributes[i]))
         output_file.write("\n")
 
     cross = {True : "X", False : "."}
@@ -142,7 +142,7 @@ def uwrite_cxt(context, path):
     output_file.close()
     
 def uread_cxt(path):
-    input_file = open(path, "r")
+    input_file = open(path, "r", encoding="utf-8")
     assert input_file.readline().strip() == "B",\
         "File is not valid cxt"
     input_file.readline() # Empty line
@@ -150,8 +150,8 @@ def uread_cxt(path):
     number_of_attributes = int(input_file.readline().strip())
     input_file.readline() # Empty line
 
-    objects = [str(input_file.readline().strip(), "utf-8") for i in range(number_of_objects)]
-    attributes = [str(input_file.readline().strip(), "utf-8") for i in range(number_of_attributes)]
+    objects = [input_file.readline().strip() for i in range(number_of_objects)]
+    attributes = [input_file.readline().strip() for i in range(number_of_attributes)]
 
     table = []
     for i in range(number_of_objects):
-- 
2.43.0


From aa721727d8e5cb6552dea5587628b261b68d5ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:05 +0000
Subject: [PATCH 39/51] fix: concept systems could be neither written to nor
 read from xml

The writer needs text, the parser needs bytes.
---
 fca/readwrite/xml_.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/fca/readwrite/xml_.py b/fca/readwrite/xml_.py
index 5fefff8..9e0a694 100644
--- a/fca/readwrite/xml_.py
+++ b/fca/readwrite/xml_.py
@@ -28,7 +28,7 @@ def write_xml(path, cs):
     objects_ids = dict([(objects[i], "o{0}".format(i+1))  for i in range(len(objects))])
     attributes_ids = dict([(attributes[i], "a{0}".format(i+1))  for i in range(len(attributes))])
 
-    with open(path, "wb") as out:
+    with open(path, "w", encoding="utf-8") as out:
         impl = getDOMImplementation()
 
         newdoc = impl.createDocument(None, "conceptsystem", None)
@@ -38,7 +38,7 @@ def write_xml(path, cs):
         for obj in objects:
             obj_element = newdoc.createElement("object")
             obj_element.setAttribute("id", objects_ids[obj])
-            textnode = newdoc.createTextNode(obj.encode("utf-8"))
+            textnode = newdoc.createTextNode(str(obj))
             obj_element.appendChild(textnode)
             element.appendChild(obj_element)
         top_element.appendChild(element)
@@ -47,7 +47,7 @@ def write_xml(path, cs):
         for attr in attributes:
             attr_element = newdoc.createElement("attribute")
             attr_element.setAttribute("id", attributes_ids[attr])
-            textnode = newdoc.createTextNode(attr.encode("utf-8"))
+            textnode = newdoc.createTextNode(str(attr))
             attr_element.appendChild(textnode)
             element.appendChild(attr_element)
         top_element.appendChild(element)
@@ -177,8 +177,8 @@ def read_xml(path):
     p.EndElementHandler = end_element
     p.CharacterDataHandler = char_data
     
-    f = open(path)
-    p.ParseFile(f)
+    with open(path, "rb") as f:
+        p.ParseFile(f)
     
     return cs
     
@@ -262,8 +262,8 @@ def uread_xml(path):
     p.EndElementHandler = end_element
     p.CharacterDataHandler = char_data
     
-    f = open(path)
-    p.ParseFile(f)
+    with open(path, "rb") as f:
+        p.ParseFile(f)
 
     return cs
 
-- 
2.43.0


From d0b2e84aa2d8259a0578d5aac0a8f0e48b59229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:05 +0000
Subject: [PATCH 40/51] fix: names read from xml lost the spaces next to
 special characters

---
 fca/readwrite/xml_.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fca/readwrite/xml_.py b/fca/readwrite/xml_.py
index 9e0a694..0bd7aa3 100644
--- a/fca/readwrite/xml_.py
+++ b/fca/readwrite/xml_.py
@@ -145,12 +145,14 @@ def read_xml(path):
         global new_obj, new_attr, buffer
         if name == "object":
             if new_obj:
+                buffer = buffer.strip()
                 d_objects[new_obj] = buffer
                 objects.append(buffer)
                 new_obj = None
                 buffer = ""
         elif name == "attribute":
             if new_attr:
+                buffer = buffer.strip()
                 d_attributes[new_attr] = buffer
                 attributes.append(buffer)
                 new_attr = None
@@ -166,9 +168,7 @@ def read_xml(path):
     
     def char_data(data):
         global buffer
-        if data[0] == "\n":
-            return
-        data = data.strip()
+        # a name may arrive in several pieces
         buffer += data
     
     p = xml.parsers.expat.ParserCreate()
@@ -230,12 +230,14 @@ def uread_xml(path):
         global new_obj, new_attr, buffer
         if name == "object":
             if new_obj:
+                buffer = buffer.strip()
                 d_objects[new_obj] = buffer
                 objects.append(buffer)
                 new_obj = None
                 buffer = ""
         elif name == "attribute":
             if new_attr:
+                buffer = buffer.strip()
                 d_attributes[new_attr] = buffer
                 attributes.append(buffer)
                 new_attr = None
@@ -251,9 +253,7 @@ def uread_xml(path):
 
     def char_data(data):
         global buffer
-        if data[0] == "\n":
-            return
-        data = data.strip()
+        # a name may arrive in several pieces
         buffer += data
 
     p = xml.parsers.expat.ParserCreate(encoding="UTF-8")
-- 
2.43.0


From 66a6046ebbba9a077750f680c8c4bca94f98bf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:05 +0000
Subject: [PATCH 41/51] fix: lattice diagrams with names that need quoting

Names that are not strings failed, and quotes ended the label early.
---
 fca/readwrite/dot.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/fca/readwrite/dot.py b/fca/readwrite/dot.py
index 6d86450..6455d37 100644
--- a/fca/readwrite/dot.py
+++ b/fca/readwrite/dot.py
@@ -3,6 +3,13 @@
 
 import fca
 
+
+def _label(names):
+    """Return the names as text of a quoted dot label"""
+    return "\\n ".join(str(name).replace("\\", "\\\\").replace('"', '\\"')
+                      for name in names)
+
+
 def write_dot(cs, path):
     """For given concept_system writes a .dot file, which contains graph
     representation of lattice diagram in format understandable 
@@ -41,7 +48,7 @@ def write_dot(cs, path):
             if len(own_objects[cs[i]]) >= 5:
                 own_objects[cs[i]] = [str(len(own_objects[cs[i]]))]
             output_file.write("[headlabel=\"%s\", " %\
-                     "\\n ".join(own_objects[cs[i]]))
+                     _label(own_objects[cs[i]]))
             output_file.write(
                 "labeldistance=1,labelangle=270,color=transparent]\n")
         if len(own_attributes[cs[i]])!=0:
@@ -50,7 +57,7 @@ def write_dot(cs, path):
             if len(own_attributes[cs[i]]) >= 5:
                 own_attributes[cs[i]] = [str(len(own_attributes[cs[i]]))]
             output_file.write("[taillabel=\"%s\", " %\
-                     "\\n ".join(own_attributes[cs[i]]))
+                     _label(own_attributes[cs[i]]))
             output_file.write(
                 "labeldistance=2,labelangle=90,color=transparent]\n")
 
@@ -98,7 +105,7 @@ def uwrite_dot(cs, path, full=False):
                 own_objects[cs[i]] = own_objects[cs[i]][:6] + ["..."]
             n = len(own_objects[cs[i]])
             output_file.write("[headlabel=\"%s\", " %\
-                     "\\n ".join(own_objects[cs[i]]))
+                     _label(own_objects[cs[i]]))
             output_file.write(
                 "labeldistance={0},labelangle=270,color=transparent]\n".format(n/1.8 + 0.5))
         if len(own_attributes[cs[i]])!=0:
@@ -111,7 +118,7 @@ def uwrite_dot(cs, path, full=False):
                 own_attributes[cs[i]] = own_attributes[cs[i]][:6] + ["..."]
             n = len(own_attributes[cs[i]])
             output_file.write("[taillabel=\"%s\", " %\
-                     "\\n ".join(own_attributes[cs[i]]))
+                     _label(own_attributes[cs[i]]))
             output_file.write(
                 "labeldistance={0},labelangle=90,color=transparent]\n".format(n/1.8 + 0.5))
 
-- 
2.43.0


From 964f9818449f0ee0f5a20b7deb8b9602de387e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:05 +0000
Subject: [PATCH 42/51] fix: scaling failed on attribute names that are not
 strings

---
 fca/algorithms/scaling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/algorithms/scaling.py b/fca/algorithms/scaling.py
index 4360ccb..f856949 100644
--- a/fca/algorithms/scaling.py
+++ b/fca/algorithms/scaling.py
@@ -53,8 +53,8 @@ def scale_mvcontext(mvcontext, scales):
                             value = str(mvcontext[obj][attr_index])
                         if eval(scale.objects[row], {"value" : value}):
                             derived_attr[obj] = scale[row][col]
-            new_attribute_name = ":".join([mvcontext.attributes[attr_index],
-                                                  scale.attributes[col]])
+            new_attribute_name = ":".join(map(str, [mvcontext.attributes[attr_index],
+                                                  scale.attributes[col]]))
             derived_context.add_attribute(derived_attr, new_attribute_name)                                    
     return derived_context
         
-- 
2.43.0


From 1581d42b6f55236a1173a4719d8d6f7c25ac3327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 43/51] fix: a unit implication does not equal a negative one

The comparison was made in NegativeImplication only, so UnitImplication on the
left hand side still compared equal to the negative implication.
---
 fca/implication.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fca/implication.py b/fca/implication.py
index a693c63..aedaa87 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -75,6 +75,9 @@ class Implication(object):
         return self.__repr__()
 
     def __eq__(self, other):
+        if (isinstance(self, NegativeImplication) !=
+                isinstance(other, NegativeImplication)):
+            return 0
         if ((self.premise == other.premise) and
                 (self.conclusion == other.conclusion)):
             return 1
@@ -139,10 +142,6 @@ class NegativeImplication(Implication):
                           ")")
         return " => ".join((premise, conclusion,))
 
-    def __eq__(self, other):
-        return isinstance(other, NegativeImplication) and super().__eq__(other)
-
-    __hash__ = Implication.__hash__
 
     def is_respected(self, some_set):
         """Checks whether *some_set* respects the negative implication"""
-- 
2.43.0


From 7db41f3dfd077b19f8817379e473ea56ccfda679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 44/51] fix: open implications were not updated when examples
 were completed

---
 fca/algorithms/exploration_/exploration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index 1b8711c..962f329 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -146,6 +146,7 @@ class ExplorationDB(object):
     def get_attribute_names(self):
         return self._cxt.attributes
         
+    @context_modifier
     def complete(self):
         # TODO: refactor
         if type(self._cxt) == PartialContext:
-- 
2.43.0


From 03a0945650df15beab688d5a2fbcb949bd84025b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:58 +0000
Subject: [PATCH 45/51] fix: partial examples without a completion respecting
 the base were added

---
 fca/algorithms/exploration_/exploration.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index 962f329..578d5cd 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -2,6 +2,7 @@
 # encoding: utf-8
 from copy import copy, deepcopy
 from fca import Context
+from fca.algorithms.closure_operators import simple_closure as closure
 from fca.partial_context import PartialContext
 
 class ExplorationException(Exception):
@@ -64,6 +65,10 @@ class ExplorationDB(object):
             for imp in self._implications:
                 if not imp.is_respected(intent):
                     raise IllegalContextModification()
+            # a partial example needs a completion that respects all of them
+            if (type(intent) != set and
+                not closure(intent[0], self._implications) <= intent[1]):
+                raise IllegalContextModification()
 
     @base_modifier
     def confirm_implication(self, imp):
-- 
2.43.0


From e05c1432bcac4eb0d42e542ec5b0f4e585cfd2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:58 +0000
Subject: [PATCH 46/51] fix: implications no partial example can respect stayed
 confirmed

---
 fca/algorithms/exploration_/exploration.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index 578d5cd..6ef6cd1 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -178,7 +178,12 @@ class AttributeExploration(object):
         """docstring for confirm_implication"""
         for i in imps:
             self.db.confirm_implication(i)
-        self.db.complete()
+        try:
+            self.db.complete()
+        except ValueError:
+            for i in imps:
+                self.db.unconfirm_implication(i)
+            raise
 
     def reject_implication(self, imp):
         """docstring for reject_implication"""
-- 
2.43.0


From 8654b12d30fc3ec04681d1ef9a1233e4accd1124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:07 +0000
Subject: [PATCH 47/51] fix: many-valued contexts could not hold values that
 are sequences

---
 fca/mvcontext.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fca/mvcontext.py b/fca/mvcontext.py
index e54fa3d..e0d63e8 100644
--- a/fca/mvcontext.py
+++ b/fca/mvcontext.py
@@ -55,7 +55,7 @@ class ManyValuedContext(Context):
         objects - the list of objects
         attributes - the list of attributes 
         """
-        super().__init__(cross_table=table,
+        super().__init__(cross_table=[list(map(bool, row)) for row in table],
                          objects=objects,
                          attributes=attributes)
         # the binary context reduces the values to booleans: keep them
@@ -63,7 +63,8 @@ class ManyValuedContext(Context):
         self.np_table = np.empty((len(self._objects), len(self._attributes)),
                                  dtype=object)
         for i, row in enumerate(self.cross_table):
-            self.np_table[i, :] = row
+            for j, value in enumerate(row):
+                self.np_table[i, j] = value
         # if len(table) != len(objects):
         #     raise ValueError("Number of objects (=%i) and number of cross table"
         #            " rows(=%i) must agree" % (len(objects), len(table)))
-- 
2.43.0


From 07b0c6ff7bd2e8114d5f9d7b511668552fb7ff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:19 +0000
Subject: [PATCH 48/51] fix: a row of the wrong length broke many-valued
 contexts

---
 fca/mvcontext.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fca/mvcontext.py b/fca/mvcontext.py
index e0d63e8..1a860be 100644
--- a/fca/mvcontext.py
+++ b/fca/mvcontext.py
@@ -98,6 +98,9 @@ class ManyValuedContext(Context):
 
     def add_object(self, row, obj_name):
         """Add new object to context with given name"""
+        if len(row) != len(self.attributes):
+            raise ValueError("Number of attributes (=%i) and number of values"
+                    " (=%i) must agree" % (len(self.attributes), len(row)))
         self.__init__(self.table + [list(row)], self.objects + [obj_name],
                       self.attributes)
 
-- 
2.43.0


From 58f8f01e0bbec0cfa0b21b39cb15c1a9a67db075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:16 +0000
Subject: [PATCH 49/51] fix: text tables with a field too few lost an attribute
 silently

---
 fca/readwrite/tab_separated.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fca/readwrite/tab_separated.py b/fca/readwrite/tab_separated.py
index 9d5f793..8f90360 100644
--- a/fca/readwrite/tab_separated.py
+++ b/fca/readwrite/tab_separated.py
@@ -41,7 +41,9 @@ def read_txt_with_names(path):
 
     if table and len(attributes) != len(table[0]):
         input_file = open(path, "r")
-        attributes = input_file.readline().split("\t")[:-1]
+        attributes = input_file.readline().rstrip("\n").split("\t")
+        if not attributes[-1].strip():          # the line ends with a tab
+            attributes.pop()
         input_file.close()
 
     return fca.Context(table, objects, attributes)
@@ -106,7 +108,9 @@ def read_txt(path):
     # Strange things happen with csv in case of non standard characters
     if table and len(attributes) != len(table[0]):
         input_file = open(path, "r")
-        attributes = input_file.readline().split("\t")[:-1]
+        attributes = input_file.readline().rstrip("\n").split("\t")
+        if not attributes[-1].strip():          # the line ends with a tab
+            attributes.pop()
         input_file.close()
 
     return fca.Context(table, objects, attributes)
-- 
2.43.0


From 7faf98de3e80b13744830186f27b68bd28776fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:26 +0000
Subject: [PATCH 50/51] fix: what a caller does with a streamed implication
 changed the ones to come

---
 fca/algorithms/dg_basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fca/algorithms/dg_basis.py b/fca/algorithms/dg_basis.py
index f5475ed..d965819 100644
--- a/fca/algorithms/dg_basis.py
+++ b/fca/algorithms/dg_basis.py
@@ -132,8 +132,9 @@ def generalized_dg_basis_iter(attributes,
         a_closed = set(aclose(a))
         if a != a_closed and cond(a):
             basis_imp = Implication(a.copy(), a_closed.copy())
-            yield basis_imp
             relative_basis.append(basis_imp)
+            # what is handed out belongs to the caller
+            yield Implication(a.copy(), a_closed.copy())
         if (a_closed - a) & set(attributes[: i]):
             a -= set(attributes[i :])
         else:
-- 
2.43.0


From c7d285f1e7debc88d7dd323d3e4131eab26fc3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:50 +0000
Subject: [PATCH 51/51] fix: concept probabilities of contexts with more than a
 thousand objects underflowed

---
 fca/algorithms/filtering/probability.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/fca/algorithms/filtering/probability.py b/fca/algorithms/filtering/probability.py
index 8b0b97c..79f5a93 100644
--- a/fca/algorithms/filtering/probability.py
+++ b/fca/algorithms/filtering/probability.py
@@ -3,7 +3,7 @@ Created on 12.02.2010
 
 @author: jupp
 """
-from math import exp, log
+from math import exp, lgamma, log
 
 def compute_probability(lattice):
     
@@ -35,16 +35,12 @@ def compute_probability(lattice):
                     return exp(mult)
                 else:
                     t = k * log_p_B + (n - k) * log((1 - p_B)) + mult
+                    # the binomial coefficient: powers alone may underflow
+                    t += lgamma(n + 1) - lgamma(k + 1) - lgamma(n - k + 1)
                     t = exp(t)
                     # print k, t
             except:
                 t = 0
-            nom = list(range(n - k + 1, n + 1))
-            den = list(range(1, k + 1))
-            if len(den) != len(nom):
-                print("False")
-            for i in range(len(nom)):
-                t *= nom[i] / float(den[i])
             ans += t
         return ans
 
-- 
2.43.0

