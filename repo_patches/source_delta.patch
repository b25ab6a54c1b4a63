From 0fe5dadaef791b887a49a0e76eb67bb7685e479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 01/58] fix: ParamConcatenation partial assignment wrote values
 of the wrong positions

---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index c4322ac..0620e27 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -439,7 +439,7 @@ class ParamConcatenation(object):
         ind = np.zeros(sum(self._param_sizes), dtype=bool); ind[s] = True;
         vals = self.values(); vals[s] = val
         for p, ps in zip(self.params, self._param_slices_):
-            p.flat[ind[ps]] = vals[ps]
+            p.flat[ind[ps]] = vals[ps][ind[ps]]
         self.update_all_params()
 
     def values(self):
-- 
2.43.0


From a6f6aa2c47019c2cf915f1a8339193a015158525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 02/58] fix: ParamConcatenation handles updated the model only
 on their first write

---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index 0620e27..f6baefc 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -423,7 +423,7 @@ class ParamConcatenation(object):
         import operator
         #py3 fix
         #self.parents = map(lambda x: x[0], sorted(parents.iteritems(), key=operator.itemgetter(1)))
-        self.parents = map(lambda x: x[0], sorted(parents.items(), key=operator.itemgetter(1)))
+        self.parents = [x[0] for x in sorted(parents.items(), key=operator.itemgetter(1))]
     #===========================================================================
     # Get/set items, enable broadcasting
     #===========================================================================
-- 
2.43.0


From e626dcd0d1b2f2cda767b4f3d2766d9b1fa5f66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 03/58] fix: gradient checking a regular expression handle
 raised TypeError

---
 paramz/core/indexable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/indexable.py b/paramz/core/indexable.py
index b648422..c39dfd7 100644
--- a/paramz/core/indexable.py
+++ b/paramz/core/indexable.py
@@ -158,7 +158,7 @@ class Indexable(Nameable, Updateable):
         """
         from ..param import ParamConcatenation
         if isinstance(param, ParamConcatenation):
-            return np.hstack((self._raveled_index_for(p) for p in param.params))
+            return np.hstack([self._raveled_index_for(p) for p in param.params])
         return param._raveled_index() + self._offset_for(param)
 
     def _raveled_index_for_transformed(self, param):
-- 
2.43.0


From 23fb5492babe975da2c65c8cba71b53579d96f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 04/58] fix: a traversal stopped by an exception left nodes
 marked as visited

---
 paramz/core/parameter_core.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 10a141a..a4bc1b9 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -384,8 +384,10 @@ class Parameterizable(OptimizationHandlable):
         if not self.__visited:
             visit(self, *args, **kwargs)
             self.__visited = True
-            self._traverse(visit, *args, **kwargs)
-            self.__visited = False
+            try:
+                self._traverse(visit, *args, **kwargs)
+            finally:
+                self.__visited = False
 
     def _traverse(self, visit, *args, **kwargs):
         for c in self.parameters:
@@ -405,9 +407,11 @@ class Parameterizable(OptimizationHandlable):
         """
         if self.has_parent():
             self.__visited = True
-            self._parent_.traverse_parents(visit, *args, **kwargs)
-            self._parent_.traverse(visit, *args, **kwargs)
-            self.__visited = False
+            try:
+                self._parent_.traverse_parents(visit, *args, **kwargs)
+                self._parent_.traverse(visit, *args, **kwargs)
+            finally:
+                self.__visited = False
 
     #===========================================================================
     # Caching
-- 
2.43.0


From f81737528f6d55fcccbd9ecb127bfe71cc608e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 05/58] fix: linking an object below itself created a cyclic
 hierarchy and never returned

---
 paramz/parameterized.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 64ab493..fd387d1 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -140,6 +140,11 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         # elif param.has_parent():
         #    raise HierarchyError, "parameter {} already in another model ({}), create new object (or copy) for adding".format(param._short(), param._highest_parent_._short())
         elif param not in self.parameters:
+            ancestor = self
+            while ancestor is not None:
+                if ancestor is param:
+                    raise HierarchyError("You cannot add a parameterized object to itself or to one of its own descendants")
+                ancestor = ancestor._parent_
             if param.has_parent():
                 def visit(parent, self):
                     if parent is self:
-- 
2.43.0


From 873b327f0489e2a2ca3c5a8bb002d240baad732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 06/58] fix: link_parameter with an index past the end left a
 half linked parameter

---
 paramz/parameterized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index fd387d1..3a7398e 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -166,7 +166,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
                     iop.shift_right(start, param.size)
                     iop.update(param._index_operations[name], start)
                 param._parent_ = self
-                param._parent_index_ = index if index>=0 else len(self.parameters[:index])
+                param._parent_index_ = len(self.parameters[:index])
                 for p in self.parameters[index:]:
                     p._parent_index_ += 1
                 self.parameters.insert(index, param)
-- 
2.43.0


From f8535bdc164e9bd3f076673ed6bd0bebfb533656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 07/58] fix: linking below a not yet initialized parent shifted
 constraints of later siblings or raised

---
 paramz/parameterized.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 3a7398e..6d26a7f 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -177,9 +177,9 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
             while parent is not None:
                 parent.size += param.size
                 parent = parent._parent_
-            self._notify_parent_change()
+            self._highest_parent_._notify_parent_change()
 
-            if not self._in_init_ and self._highest_parent_._model_initialized_:
+            if not self._in_init_ and getattr(self._highest_parent_, '_model_initialized_', False):
                 #self._connect_parameters()
                 #self._notify_parent_change()
 
-- 
2.43.0


From c975aef5150e727a03645f24934c6868069b7d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 08/58] fix: parameters linked below a linked node were not
 reachable by name nor renamed on clashes

---
 paramz/core/parameter_core.py | 6 ++++++
 paramz/parameterized.py       | 1 +
 2 files changed, 7 insertions(+)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index a4bc1b9..d8c4ee6 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -334,6 +334,7 @@ class Parameterizable(OptimizationHandlable):
         self._highest_parent_._notify_parent_change()
         self._highest_parent_._connect_parameters() #logger.debug("calling parameters changed")
         self._highest_parent_._connect_fixes()
+        self._highest_parent_.traverse(Parameterizable._add_parameter_names)
         self.trigger_update()
 
     @property
@@ -483,6 +484,11 @@ class Parameterizable(OptimizationHandlable):
             raise RE("Maximum recursion depth reached, try naming the parts of your kernel uniquely to avoid naming conflicts.")
 
 
+    def _add_parameter_names(self):
+        # make all direct children available under their (unique) names
+        for p in self.parameters:
+            self._add_parameter_name(p)
+
     def _remove_parameter_name(self, param=None, pname=None):
         assert param is None or pname is None, "can only delete either param by name, or the name of a param"
         pname = adjust_name_for_printing(pname) or adjust_name_for_printing(param.name)
diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 6d26a7f..237ab4f 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -186,6 +186,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
                 self._highest_parent_._connect_parameters()
                 self._highest_parent_._notify_parent_change()
                 self._highest_parent_._connect_fixes()
+                self._add_parameter_names()
             return param
         else:
             raise HierarchyError("""Parameter exists already, try making a copy""")
-- 
2.43.0


From e0ad9770d94050bd91582f501f61298e4fe564ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 09/58] fix: optimizer_array was stale after unconstraining and
 after writes with updates off

---
 paramz/core/parameter_core.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index d8c4ee6..84f4b77 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -80,12 +80,13 @@ class OptimizationHandlable(Constrainable):
         if self.__dict__.get('_optimizer_copy_', None) is None or self.size != self._optimizer_copy_.size:
             self._optimizer_copy_ = np.empty(self.size)
 
-        if not self._optimizer_copy_transformed:
-            self._optimizer_copy_.flat = self.param_array.flat
-            #py3 fix
-            #[np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.iteritems() if c != __fixed__]
-            [np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.items() if c != __fixed__]
-            self._optimizer_copy_transformed = True
+        # always start from the current values and constraints, they can change
+        # without any notification (e.g. updates are off, or when unconstraining)
+        self._optimizer_copy_.flat = self.param_array.flat
+        #py3 fix
+        #[np.put(self._optimizer_copy_, ind, c.finv(self.param_array[ind])) for c, ind in self.constraints.iteritems() if c != __fixed__]
+        [np.put(self._optimizer_copy_, ind, c.finv(self.param_array.flat[ind])) for c, ind in self.constraints.items() if c != __fixed__]
+        self._optimizer_copy_transformed = True
 
         if self._has_fixes():# or self._has_ties()):
             self._ensure_fixes()
-- 
2.43.0


From 1a8798fc1dd4066e2529b20e1d7fef277daff8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 10/58] fix: fixes of sub nodes and leaves were ignored or
 stale in their optimizer_array and flat names

---
 paramz/core/constrainable.py  | 6 +++---
 paramz/core/indexable.py      | 1 +
 paramz/core/parameter_core.py | 6 +++++-
 paramz/param.py               | 4 +++-
 4 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index f571700..96a72f0 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -86,9 +86,9 @@ class Constrainable(Indexable):
         # Ensure that the fixes array is set:
         # Parameterized: ones(self.size)
         # Param: ones(self._realsize_
-        if (not hasattr(self, "_fixes_")) or (self._fixes_ is None) or (self._fixes_.size != self.size):
-            self._fixes_ = np.ones(self.size, dtype=bool)
-            self._fixes_[self.constraints[__fixed__]] = FIXED
+        # (always from the constraints, as fixing through another handle only tells the highest parent)
+        self._fixes_ = np.ones(self.size, dtype=bool)
+        self._fixes_[self.constraints[__fixed__]] = FIXED
 
 
     def _set_fixed(self, param, index):
diff --git a/paramz/core/indexable.py b/paramz/core/indexable.py
index c39dfd7..ca65d66 100644
--- a/paramz/core/indexable.py
+++ b/paramz/core/indexable.py
@@ -176,6 +176,7 @@ class Indexable(Nameable, Updateable):
         """
         ravi = self._raveled_index_for(param)
         if self._has_fixes():
+            self._ensure_fixes()
             fixes = self._fixes_
             ### Transformed indices, handling the offsets of previous fixes
             transformed = (np.r_[:self.size] - (~fixes).cumsum())
diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 84f4b77..58b067a 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -106,6 +106,7 @@ class OptimizationHandlable(Constrainable):
             f = np.ones(self.size).astype(bool)
             f[self.constraints[__fixed__]] = FIXED
         elif self._has_fixes():
+            self._ensure_fixes()
             f = self._fixes_
         if f is None:
             self.param_array.flat = p
@@ -149,7 +150,9 @@ class OptimizationHandlable(Constrainable):
         #py3 fix
         #[np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.iteritems() if c != __fixed__]
         [np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.items() if c != __fixed__]
-        if self._has_fixes(): return g[self._fixes_]
+        if self._has_fixes():
+            self._ensure_fixes()
+            return g[self._fixes_]
         return g
 
     #def _transform_gradients_non_natural(self, g):
@@ -220,6 +223,7 @@ class OptimizationHandlable(Constrainable):
         name_list = np.array(name_list)
 
         if not include_fixed and self._has_fixes():
+            self._ensure_fixes()
             return name_list[self._fixes_]
         return name_list
 
diff --git a/paramz/param.py b/paramz/param.py
index f6baefc..ef95624 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -182,7 +182,9 @@ class Param(Parameterizable, ObsAr):
     # Constrainable
     #===========================================================================
     def _ensure_fixes(self):
-        if (not hasattr(self, "_fixes_")) or (self._fixes_ is None) or (self._fixes_.size != self._realsize_): self._fixes_ = np.ones(self._realsize_, dtype=bool)
+        from paramz.transformations import __fixed__, FIXED
+        self._fixes_ = np.ones(self._realsize_, dtype=bool)
+        self._fixes_[self.constraints[__fixed__]] = FIXED
 
     #===========================================================================
     # Convenience
-- 
2.43.0


From bcbe4273f7ef61ab75cfeb4674abcf469199a4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 11/58] fix: empty and mixed advanced index handles raised or
 addressed the wrong elements

---
 paramz/param.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/paramz/param.py b/paramz/param.py
index ef95624..279ac39 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -173,7 +173,7 @@ class Param(Parameterizable, ObsAr):
         extended_realshape = np.cumprod((1,) + self._realshape_[:0:-1])[::-1]
         ind = self._indices(slice_index)
         if ind.ndim < 2: ind = ind[:, None]
-        return np.asarray(np.apply_along_axis(lambda x: np.sum(extended_realshape * x), 1, ind), dtype=int)
+        return np.asarray(np.sum(extended_realshape * ind, axis=1), dtype=int)
 
     def _raveled_index_for(self, obj):
         return self._raveled_index()
@@ -252,17 +252,9 @@ class Param(Parameterizable, ObsAr):
         # get a int-array containing all indices in the first axis.
         if slice_index is None:
             slice_index = self._current_slice_
-        #try:
-        indices = np.indices(self._realshape_, dtype=int)
-        indices = indices[(slice(None),)+slice_index]
-        indices = np.rollaxis(indices, 0, indices.ndim).reshape(-1,self._realndim_)
-            #print indices_
-            #if not np.all(indices==indices__):
-            #    import ipdb; ipdb.set_trace()
-        #except:
-        #    indices = np.indices(self._realshape_, dtype=int)
-        #    indices = indices[(slice(None),)+slice_index]
-        #    indices = np.rollaxis(indices, 0, indices.ndim)
+        # flat indices of the elements the slice selects, in the order it selects them
+        flat = np.arange(self._realsize_).reshape(self._realshape_)[slice_index]
+        indices = np.array(np.unravel_index(np.ravel(flat), self._realshape_), dtype=int).T
         return indices
 
     def _max_len_names(self, gen, header):
-- 
2.43.0


From 9c85d476e197e6c2a8bc97fcfa623c33a1bd2473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 12/58] fix: constraining or fixing elements through an index
 array did not change their values

---
 paramz/core/constrainable.py | 6 ++++++
 paramz/param.py              | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index 96a72f0..02c5219 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -60,6 +60,7 @@ class Constrainable(Indexable):
         """
         if value is not None:
             self[:] = value
+            self._update_original()
 
         #index = self.unconstrain()
         index = self._add_to_index_operations(self.constraints, np.empty(0), __fixed__, warning)
@@ -131,6 +132,10 @@ class Constrainable(Indexable):
         # the copy here
         return self.parameters[param._parent_index_]
 
+    def _update_original(self):
+        # only leaves can be copies of their original (see Param)
+        pass
+
         #===========================================================================
     # Constrain operations -> done
     #===========================================================================
@@ -146,6 +151,7 @@ class Constrainable(Indexable):
         """
         if isinstance(transform, Transformation):
             self.param_array[...] = transform.initialize(self.param_array)
+            self._update_original()
         elif transform == __fixed__:
             return self.fix(warning=warning, trigger_parent=trigger_parent)
         else:
diff --git a/paramz/param.py b/paramz/param.py
index 279ac39..f9103c8 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -197,6 +197,11 @@ class Param(Parameterizable, ObsAr):
     def _get_original(self, param):
         return self._original_
 
+    def _update_original(self):
+        # advanced indexing gives a copy, make sure the original gets the values set on that copy
+        if self._original_ is not self and not np.may_share_memory(self, self._original_):
+            self._original_[self._current_slice_] = self.values
+
     #===========================================================================
     # Pickling and copying
     #===========================================================================
-- 
2.43.0


From c799befb4a5e1d57f8bbcc0e18c05608ed5226aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 13/58] fix: removing repeated indices reported elements which
 never had the property

---
 paramz/core/index_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/index_operations.py b/paramz/core/index_operations.py
index 00d41ea..e21c3a8 100644
--- a/paramz/core/index_operations.py
+++ b/paramz/core/index_operations.py
@@ -164,7 +164,7 @@ class ParameterIndexOperations(object):
     def remove(self, prop, indices):
         if prop in self._properties:
             diff = remove_indices(self[prop], indices)
-            removed = numpy.intersect1d(self[prop], indices, True)
+            removed = numpy.intersect1d(self[prop], indices)
             if not index_empty(diff):
                 self._properties[prop] = diff
             else:
-- 
2.43.0


From 6e6e0226e496f82b172b9e9a4911d8c02ccc189b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 14/58] fix: removing an array as observer raised ValueError

---
 paramz/core/lists_and_dicts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/lists_and_dicts.py b/paramz/core/lists_and_dicts.py
index 472b0a2..f4b7785 100644
--- a/paramz/core/lists_and_dicts.py
+++ b/paramz/core/lists_and_dicts.py
@@ -82,7 +82,7 @@ class ObserverList(object):
         self.flush()
         for i in range(len(self) - 1, -1, -1):
             p,o,c = self[i]
-            if priority==p and observer==o and callble==c:
+            if priority==p and observer is o and callble==c:
                 del self._poc[i]
 
     def __repr__(self):
-- 
2.43.0


From df5c90ea18fc374223a7d1454640bc351ff70b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:59 +0000
Subject: [PATCH 15/58] fix: NegativeExponent.f was not the inverse of its finv

---
 paramz/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index f0159e1..d967cc8 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -158,7 +158,7 @@ class NegativeLogexp(Transformation):
 class NegativeExponent(Exponent):
     domain = _NEGATIVE
     def f(self, x):
-        return -Exponent.f(self, x)
+        return -Exponent.f(self, -x)
     def finv(self, f):
         return -Exponent.finv(self, -f)
     def gradfactor(self, f, df):
-- 
2.43.0


From 953522cb338568c95e67e7ca0c18c710012637e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 16/58] fix: optimizers got (and could return) the internal
 optimizer buffer as their start

---
 paramz/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index 1c9a7e1..92c11d4 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -95,7 +95,8 @@ class Model(Parameterized):
             self.update_model(True)
 
         if start is None:
-            start = self.optimizer_array
+            # the optimizer might keep its start as result, so do not hand out the internal buffer
+            start = self.optimizer_array.copy()
 
         if optimizer is None:
             optimizer = self.preferred_optimizer
-- 
2.43.0


From 1c31d08f5bba07ac487521041dda28e31f06dff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 17/58] fix: optimize_restarts preferred runs with a nan
 objective

---
 paramz/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index 92c11d4..ef0c5e5 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -184,7 +184,8 @@ class Model(Parameterized):
 
         if len(self.optimization_runs) > initial_length:
             # This works, since failed jobs don't get added to the optimization_runs.
-            i = np.argmin([o.f_opt for o in self.optimization_runs[initial_length:]])
+            f_opts = [np.inf if o.f_opt is None or np.isnan(o.f_opt) else o.f_opt for o in self.optimization_runs[initial_length:]]
+            i = np.argmin(f_opts)
             self.optimizer_array = self.optimization_runs[initial_length + i].x_opt
         else:
             self.optimizer_array = initial_parameters
-- 
2.43.0


From bb011f593c8cbe1b65a10802dfbd3deab4278f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:05 +0000
Subject: [PATCH 18/58] fix: optimize_restarts raised IndexError if there was
 nothing to optimize

---
 paramz/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index ef0c5e5..3b94df7 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -174,7 +174,7 @@ class Model(Parameterized):
                 else:#pragma: no cover
                     self.optimization_runs.append(jobs[i])
 
-                if verbose:
+                if verbose and self.optimization_runs:
                     print(("Optimization restart {0}/{1}, f = {2}".format(i + 1, num_restarts, self.optimization_runs[-1].f_opt)))
             except Exception as e:
                 if robust:
-- 
2.43.0


From fd30bda3adc0aed948c07c408cf08d2d7f3d9991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 19/58] fix: optimize_restarts did not pick the best run if
 given an optimizer object

---
 paramz/model.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/paramz/model.py b/paramz/model.py
index 3b94df7..71d189b 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -151,6 +151,7 @@ class Model(Parameterized):
         """
         initial_length = len(self.optimization_runs)
         initial_parameters = self.optimizer_array.copy()
+        results = [] # (objective, parameters) of each run, the runs themselves can share one optimizer object
 
         if parallel: #pragma: no cover
             try:
@@ -174,6 +175,9 @@ class Model(Parameterized):
                 else:#pragma: no cover
                     self.optimization_runs.append(jobs[i])
 
+                if len(self.optimization_runs) > initial_length + len(results):
+                    results.append((self.optimization_runs[-1].f_opt, self.optimization_runs[-1].x_opt))
+
                 if verbose and self.optimization_runs:
                     print(("Optimization restart {0}/{1}, f = {2}".format(i + 1, num_restarts, self.optimization_runs[-1].f_opt)))
             except Exception as e:
@@ -182,11 +186,11 @@ class Model(Parameterized):
                 else:
                     raise e
 
-        if len(self.optimization_runs) > initial_length:
-            # This works, since failed jobs don't get added to the optimization_runs.
-            f_opts = [np.inf if o.f_opt is None or np.isnan(o.f_opt) else o.f_opt for o in self.optimization_runs[initial_length:]]
+        if len(results) > 0:
+            # This works, since failed jobs don't get added to the results.
+            f_opts = [np.inf if f is None or np.isnan(f) else f for f, _ in results]
             i = np.argmin(f_opts)
-            self.optimizer_array = self.optimization_runs[initial_length + i].x_opt
+            self.optimizer_array = results[i][1]
         else:
             self.optimizer_array = initial_parameters
         return self.optimization_runs
-- 
2.43.0


From d02c87c1c58b57e0027c4b4edd4ced83c9dcbb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 20/58] fix: Cacher mixed up calls which gave the same object
 for different keywords

---
 paramz/caching.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paramz/caching.py b/paramz/caching.py
index 75dd48b..3f38c59 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -165,6 +165,8 @@ class Cacher(object):
         # 2: prepare_cache_id and get the unique self.id string for this call
         inputs = self.combine_inputs(args, kw, self.ignore_args)
         cache_id = self.prepare_cache_id(inputs)
+        # the same object given for another keyword is another call
+        cache_id += "".join("," + k for i, k in enumerate(sorted(kw), len(args)) if i not in self.ignore_args)
         # 2: if anything is not cachable, we will just return the operation, without caching
         if reduce(lambda a, b: a or (not (isinstance(b, Observable) or b is None or isinstance(b, Number) or isinstance(b, str))), inputs, False):
 #             print 'WARNING: '+self.operation.__name__ + ' not cacheable!'
-- 
2.43.0


From 21c4f4709169949308605f42074808632021979c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 21/58] fix: writing through a view of a cached input left the
 cached result stale

---
 paramz/caching.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paramz/caching.py b/paramz/caching.py
index 3f38c59..3854277 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -199,6 +199,10 @@ class Cacher(object):
 
         this function gets 'hooked up' to the inputs when we cache them, and upon their elements being changed we update here.
         """
+        if self.id(direct) not in self.cached_input_ids:
+            # we were told by a view, which shares the observers (and memory) of one of our inputs
+            for cache_id in self.inputs_changed:
+                self.inputs_changed[cache_id] = True
         for what in [direct, which]:
             ind_id = self.id(what)
             _, cache_ids = self.cached_input_ids.get(ind_id, [None, []])
-- 
2.43.0


From 19f80c50205126d882a72fd41f9d48a02faae885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 22/58] fix: completely fixed parts of a model were not updated
 when their values were changed

---
 paramz/core/parameter_core.py | 8 +++++---
 paramz/core/updateable.py     | 5 +++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 58b067a..88f0473 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -123,16 +123,18 @@ class OptimizationHandlable(Constrainable):
         #self._highest_parent_.tie.propagate_val()
 
         self._optimizer_copy_transformed = False
-        self.trigger_update()
+        self.trigger_update(skip_fixed=True)
 
-    def _trigger_params_changed(self, trigger_parent=True):
+    def _trigger_params_changed(self, trigger_parent=True, skip_fixed=False):
         """
         First tell all children to update,
         then update yourself.
 
         If trigger_parent is True, we will tell the parent, otherwise not.
+        If skip_fixed is True, children which are fixed completely are not told
+        to update (only if it is known that their values did not change).
         """
-        [p._trigger_params_changed(trigger_parent=False) for p in self.parameters if not p.is_fixed]
+        [p._trigger_params_changed(trigger_parent=False, skip_fixed=skip_fixed) for p in self.parameters if not (skip_fixed and p.is_fixed)]
         self.notify_observers(None, None if trigger_parent else -np.inf)
 
     def _size_transformed(self):
diff --git a/paramz/core/updateable.py b/paramz/core/updateable.py
index 9a47f65..b71b070 100644
--- a/paramz/core/updateable.py
+++ b/paramz/core/updateable.py
@@ -65,15 +65,16 @@ class Updateable(Observable):
     def update_toggle(self):
         self.update_model(not self.update_model())
 
-    def trigger_update(self, trigger_parent=True):
+    def trigger_update(self, trigger_parent=True, skip_fixed=False):
         """
         Update the model from the current state.
         Make sure that updates are on, otherwise this
         method will do nothing
 
         :param bool trigger_parent: Whether to trigger the parent, after self has updated
+        :param bool skip_fixed: Whether to skip completely fixed children, if their values did not change
         """
         if not self.update_model() or (hasattr(self, "_in_init_") and self._in_init_):
             #print "Warning: updates are off, updating the model will do nothing"
             return
-        self._trigger_params_changed(trigger_parent)
+        self._trigger_params_changed(trigger_parent, skip_fixed)
-- 
2.43.0


From d301bb9fe7016f970007dbf4433ef4300eec46aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 23/58] fix: switching updates on from a sub node updated only
 that part of the model

---
 paramz/core/updateable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/updateable.py b/paramz/core/updateable.py
index b71b070..aef95bd 100644
--- a/paramz/core/updateable.py
+++ b/paramz/core/updateable.py
@@ -57,7 +57,7 @@ class Updateable(Observable):
         def turn_updates(s):
             s._update_on = updates
         p.traverse(turn_updates)
-        self.trigger_update()
+        p.trigger_update()
 
     def toggle_update(self):
         print("deprecated: toggle_update was renamed to update_toggle for easier access")
-- 
2.43.0


From c1d047512ba6cdc80b27c69e775502d50b4d0200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 24/58] fix: indexing a regular expression handle dropped zeros
 and lost which elements it addresses

---
 paramz/param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index f9103c8..5158aa1 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -428,7 +428,7 @@ class ParamConcatenation(object):
     #===========================================================================
     def __getitem__(self, s):
         ind = np.zeros(sum(self._param_sizes), dtype=bool); ind[s] = True;
-        params = [p.param_array.flat[ind[ps]] for p,ps in zip(self.params, self._param_slices_) if np.any(p.param_array.flat[ind[ps]])]
+        params = [p[np.unravel_index(np.flatnonzero(ind[ps]), p.shape)] for p,ps in zip(self.params, self._param_slices_) if np.any(ind[ps])]
         if len(params)==1: return params[0]
         return ParamConcatenation(params)
 
-- 
2.43.0


From 0ebacdfae9002c039c2773eed5451f77aaf25090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 25/58] fix: optimizers got the model's own gradient array,
 which later evaluations overwrite

---
 paramz/core/parameter_core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 88f0473..3a958ad 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -151,6 +151,7 @@ class OptimizationHandlable(Constrainable):
         """
         #py3 fix
         #[np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.iteritems() if c != __fixed__]
+        g = np.array(g) # g can be the gradient of the model itself, which has to stay as it is
         [np.put(g, i, c.gradfactor(self.param_array[i], g[i])) for c, i in self.constraints.items() if c != __fixed__]
         if self._has_fixes():
             self._ensure_fixes()
-- 
2.43.0


From 60e21ce013ef40c6aa65dbd6b38c258cd342f9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 26/58] fix: unpickled bounded constraints were separate
 objects and could not be released by their bounds

---
 paramz/transformations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index d967cc8..eae7076 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -201,6 +201,9 @@ class Logistic(Transformation):
         assert lower < upper
         self.lower, self.upper = float(lower), float(upper)
         self.difference = self.upper - self.lower
+    def __getnewargs__(self):
+        # there is only one instance for each pair of bounds, also after unpickling
+        return self.lower, self.upper
     def f(self, x):
         if (x<-300.).any():
             x = x.copy()
-- 
2.43.0


From b90f221a3b31a53085cb6244648c5395b089edfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 27/58] fix: linking below the second level of a hierarchy
 corrupted values and gradients

---
 paramz/core/parameter_core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 3a958ad..8072abc 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -292,13 +292,15 @@ class OptimizationHandlable(Constrainable):
         for pi in self.parameters:
             pislice = slice(pi_old_size, pi_old_size + pi.size)
 
+            # first connect all children of pi, its own arrays are out of date if its size has changed
+            pi._propagate_param_grad(parray[pislice], garray[pislice])
+
             self.param_array[pislice] = pi.param_array.flat  # , requirements=['C', 'W']).flat
             self.gradient_full[pislice] = pi.gradient_full.flat  # , requirements=['C', 'W']).flat
 
             pi.param_array.data = parray[pislice].data
             pi.gradient_full.data = garray[pislice].data
 
-            pi._propagate_param_grad(parray[pislice], garray[pislice])
             pi_old_size += pi.size
 
         self._model_initialized_ = True
-- 
2.43.0


From bd8d010a727183d070fa0caf60028466f6c21dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 28/58] fix: unlinking and renaming initialized a waiting
 hierarchy, linking below an initialized part of it lost values

---
 paramz/core/parameter_core.py |  3 ++-
 paramz/parameterized.py       | 30 ++++++++++++++++++++++--------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index 8072abc..f325f74 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -505,7 +505,8 @@ class Parameterizable(OptimizationHandlable):
         if pname in self._added_names_:
             del self.__dict__[pname]
             self._added_names_.remove(pname)
-        self._connect_parameters()
+        if getattr(self, '_model_initialized_', False):
+            self._connect_parameters()
 
     def _name_changed(self, param, old_name):
         self._remove_parameter_name(None, old_name)
diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 237ab4f..a34f621 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -179,13 +179,14 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
                 parent = parent._parent_
             self._highest_parent_._notify_parent_change()
 
-            if not self._in_init_ and getattr(self._highest_parent_, '_model_initialized_', False):
+            if not self._in_init_ and getattr(self, '_model_initialized_', False):
                 #self._connect_parameters()
                 #self._notify_parent_change()
 
-                self._highest_parent_._connect_parameters()
-                self._highest_parent_._notify_parent_change()
-                self._highest_parent_._connect_fixes()
+                highest = self._highest_initialized_()
+                highest._connect_parameters()
+                highest._notify_parent_change()
+                highest._connect_fixes()
                 self._add_parameter_names()
             return param
         else:
@@ -211,15 +212,18 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         start = sum([p.size for p in self.parameters[:param._parent_index_]])
         self.size -= param.size
         del self.parameters[param._parent_index_]
+        for p in self.parameters[param._parent_index_:]:
+            p._parent_index_ -= 1
         self._remove_parameter_name(param)
 
-
         param._disconnect_parent()
         param.remove_observer(self, self._pass_through_notify_observers)
         for name, iop in self._index_operations.items():
             iop.shift_left(start, param.size)
 
-        self._connect_parameters()
+        initialized = getattr(self, '_model_initialized_', False)
+        if initialized:
+            self._connect_parameters()
         self._notify_parent_change()
 
         parent = self._parent_
@@ -227,9 +231,19 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
             parent.size -= param.size
             parent = parent._parent_
 
-        self._highest_parent_._connect_parameters()
-        self._highest_parent_._connect_fixes()
         self._highest_parent_._notify_parent_change()
+        if initialized:
+            highest = self._highest_initialized_()
+            highest._connect_parameters()
+            highest._connect_fixes()
+
+    def _highest_initialized_(self):
+        # up to where the arrays are connected already: parents which wait
+        # for their initialization connect theirs when they are initialized
+        highest = self
+        while highest.has_parent() and getattr(highest._parent_, '_model_initialized_', False):
+            highest = highest._parent_
+        return highest
 
     def _connect_parameters(self, ignore_added_names=False):
         # connect parameterlist to this parameterized object
-- 
2.43.0


From eb531e374383ffe3f21a5e3e617cf10904a3c102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 29/58] fix: constraining a node before its initialization did
 not change the values below

---
 paramz/core/constrainable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paramz/core/constrainable.py b/paramz/core/constrainable.py
index 02c5219..e0b64ab 100644
--- a/paramz/core/constrainable.py
+++ b/paramz/core/constrainable.py
@@ -150,7 +150,9 @@ class Constrainable(Indexable):
         :py:class:`paramz.transformations.Transformation`.
         """
         if isinstance(transform, Transformation):
-            self.param_array[...] = transform.initialize(self.param_array)
+            # our own array is not connected to these before we are initialized
+            for p in self.flattened_parameters:
+                p.param_array[...] = transform.initialize(p.param_array)
             self._update_original()
         elif transform == __fixed__:
             return self.fix(warning=warning, trigger_parent=trigger_parent)
-- 
2.43.0


From c344b5583c7f79a17f1f6ec9c663a0c1f90c0002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 30/58] fix: names below a not yet initialized part were not
 reachable after linking it

---
 paramz/parameterized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index a34f621..ab9c11b 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -187,7 +187,7 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
                 highest._connect_parameters()
                 highest._notify_parent_change()
                 highest._connect_fixes()
-                self._add_parameter_names()
+                self.traverse(Parameterizable._add_parameter_names)
             return param
         else:
             raise HierarchyError("""Parameter exists already, try making a copy""")
-- 
2.43.0


From 6ac5e4c380b8f218b541ac938df76ee75dd0af84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 31/58] fix: a parameter named like an attribute of its parent
 (e.g. size) caught the assignments to that attribute

---
 paramz/parameterized.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index ab9c11b..1cc5729 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -355,7 +355,9 @@ If you are loading a model, set updates off, then initialize, then set the value
             pnames = self.parameter_names(False, adjust_for_printing=True, recursive=False)
             if name in pnames:
                 param = self.parameters[pnames.index(name)]
-                param[:] = val; return
+                # names of our own attributes (e.g. size) stay with these
+                if any(p is getattr(self, name, param) for p in self.parameters):
+                    param[:] = val; return
         return object.__setattr__(self, name, val)
 
     #===========================================================================
-- 
2.43.0


From 34ddb8478242812a524093766677776aa142f291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:53 +0000
Subject: [PATCH 32/58] fix: a cached function which uses its own cacher left
 results which were never updated

---
 paramz/caching.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index 3854277..d88a330 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -182,12 +182,13 @@ class Cacher(object):
             except:
                 self.reset()
                 raise
-            if(changed):
+            if cache_id in self.inputs_changed:
                 # 4: This happens, when elements have changed for this cache self.id
+                # (looked up again, as the operation may have used this cacher itself)
                 self.inputs_changed[cache_id] = False
                 self.cached_outputs[cache_id] = new_output
-            else:  # not_seen is True, as one of the two has to be True:
-                # 3: This is when we never saw this chache_id:
+            else:
+                # 3: This is when we never saw this chache_id (or do not have it anymore):
                 self.ensure_cache_length()
                 self.add_to_cache(cache_id, inputs, new_output)
         # 5: We have seen this cache_id and it is cached:
-- 
2.43.0


From ccbde5c059a7dfded1a7c8dca86c153e54b7a5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:53 +0000
Subject: [PATCH 33/58] fix: evicting a view from the cache stopped watching
 the array it shares its memory with

---
 paramz/caching.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paramz/caching.py b/paramz/caching.py
index d88a330..806cef7 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -112,6 +112,11 @@ class Cacher(object):
                     if len(cache_ids) == 1 and ref() is not None:
                         ref().remove_observer(self, self.on_cache_changed)
                         del self.cached_input_ids[ind_id]
+                        # views share their observers, keep observing those which are still cached:
+                        for other, _ in self.cached_input_ids.values():
+                            if other() is not None and other().observers is ref().observers:
+                                other().add_observer(self, self.on_cache_changed)
+                                break
                     else:
                         cache_ids.remove(cache_id)
                         self.cached_input_ids[ind_id] = [ref, cache_ids]
-- 
2.43.0


From 02a45ef92c2ca60a9016c053cc5c5fd8c966d2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:10 +0000
Subject: [PATCH 34/58] fix: the copy of an object with a cached bound method
 computed with the original object

---
 paramz/caching.py         | 10 +++++++++-
 paramz/core/pickleable.py |  3 ++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index 806cef7..b4fe049 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -235,7 +235,15 @@ class Cacher(object):
         self.inputs_changed = {}  # point from cache_ids to bools
 
     def __deepcopy__(self, memo=None):
-        return Cacher(self.operation, self.limit, self.ignore_args, self.force_kwargs)
+        import copy
+        if memo is None:
+            memo = {}
+        operation = self.operation
+        if getattr(operation, '__self__', None) is not None:
+            operation = copy.deepcopy(operation, memo) # the method of the copied object
+            if id(self) in memo: # copied along with the object
+                return memo[id(self)]
+        return Cacher(operation, self.limit, self.ignore_args, self.force_kwargs)
 
     def __getstate__(self, memo=None):
         raise PickleError("Trying to pickle Cacher object with function {}, pickling functions not possible.".format(str(self.operation)))
diff --git a/paramz/core/pickleable.py b/paramz/core/pickleable.py
index faf45de..7268192 100644
--- a/paramz/core/pickleable.py
+++ b/paramz/core/pickleable.py
@@ -123,6 +123,7 @@ class Pickleable(object):
         from .lists_and_dicts import ObserverList
         from ..caching import FunctionCache
         self.observers = ObserverList()
-        self.cache = FunctionCache()
+        if 'cache' not in self.__dict__: # copied cachers may have set it up already
+            self.cache = FunctionCache()
         self._setup_observers()
         self._optimizer_copy_transformed = False
-- 
2.43.0


From ee88dace261fb7c21b685665e7f12bbf96c35e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 35/58] fix: Cache_this did not force a computation for named
 arguments in force_kwargs

---
 paramz/caching.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paramz/caching.py b/paramz/caching.py
index b4fe049..0c0f18d 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -291,6 +291,8 @@ class Cache_this(object):
         self.f = None
     def __call__(self, f):
         self.f = f
+        names = f.__code__.co_varnames[:f.__code__.co_argcount]
+        defaults = dict(zip(reversed(names), reversed(f.__defaults__ or ())))
         def g(obj, *args, **kw):
             obj = args[0]
             if not hasattr(obj, 'cache'):
@@ -300,6 +302,10 @@ class Cache_this(object):
                 cacher = cache[self.f]
             else:
                 cacher = cache[self.f] = Cacher(self.f, self.limit, self.ignore_args, self.force_kwargs, cacher_enabled=cache.caching_enabled)
+            # the decorator hands over named arguments by position, forced or not:
+            for k, v in zip(names, args):
+                if k in self.force_kwargs and v is not None and v is not defaults.get(k, None):
+                    return self.f(*args, **kw)
             return cacher(*args, **kw)
         g.__name__ = f.__name__
         g.__doc__ = f.__doc__
-- 
2.43.0


From 8cd7a8433aaaebe0d926e2f14c2f546db4798a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:46 +0000
Subject: [PATCH 36/58] fix: functions decorated with the same Cache_this
 object all called the last one

---
 paramz/caching.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index 0c0f18d..b4bf9d4 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -298,16 +298,16 @@ class Cache_this(object):
             if not hasattr(obj, 'cache'):
                 obj.cache = FunctionCache()
             cache = obj.cache
-            if self.f in cache:
-                cacher = cache[self.f]
+            if f in cache:
+                cacher = cache[f]
             else:
-                cacher = cache[self.f] = Cacher(self.f, self.limit, self.ignore_args, self.force_kwargs, cacher_enabled=cache.caching_enabled)
+                cacher = cache[f] = Cacher(f, self.limit, self.ignore_args, self.force_kwargs, cacher_enabled=cache.caching_enabled)
             # the decorator hands over named arguments by position, forced or not:
             for k, v in zip(names, args):
                 if k in self.force_kwargs and v is not None and v is not defaults.get(k, None):
-                    return self.f(*args, **kw)
+                    return f(*args, **kw)
             return cacher(*args, **kw)
         g.__name__ = f.__name__
         g.__doc__ = f.__doc__
-        g = decorate(self.f, g)
+        g = decorate(f, g)
         return g
-- 
2.43.0


From ca354d1787b1b94379a6ae3a562120f44cf2d671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:09 +0000
Subject: [PATCH 37/58] fix: writing through one of several cached views left
 the results of the others stale

---
 paramz/caching.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/paramz/caching.py b/paramz/caching.py
index b4bf9d4..3e1b557 100644
--- a/paramz/caching.py
+++ b/paramz/caching.py
@@ -205,15 +205,12 @@ class Cacher(object):
 
         this function gets 'hooked up' to the inputs when we cache them, and upon their elements being changed we update here.
         """
-        if self.id(direct) not in self.cached_input_ids:
-            # we were told by a view, which shares the observers (and memory) of one of our inputs
-            for cache_id in self.inputs_changed:
-                self.inputs_changed[cache_id] = True
-        for what in [direct, which]:
-            ind_id = self.id(what)
-            _, cache_ids = self.cached_input_ids.get(ind_id, [None, []])
-            for cache_id in cache_ids:
-                self.inputs_changed[cache_id] = True
+        observers = getattr(direct, 'observers', None)
+        for a, cache_ids in self.cached_input_ids.values():
+            # views share the observers (and memory) with each other
+            if a() is direct or a() is which or (observers is not None and a().observers is observers):
+                for cache_id in cache_ids:
+                    self.inputs_changed[cache_id] = True
 
     def reset(self):
         """
-- 
2.43.0


From 82ca8b1084a4ab1dfcecac72de08bc861c2e2168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 38/58] fix: reporting failed where the optimization tolerates
 failures, left its observer behind and lagged one evaluation

---
 paramz/optimization/verbose_optimization.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/paramz/optimization/verbose_optimization.py b/paramz/optimization/verbose_optimization.py
index 87f3a7c..11374cd 100644
--- a/paramz/optimization/verbose_optimization.py
+++ b/paramz/optimization/verbose_optimization.py
@@ -35,8 +35,8 @@ import time
 
 
 def exponents(fnow, current_grad):
-    exps = [np.abs(float(fnow)),
-            1 if current_grad is np.nan else current_grad]
+    exps = np.array([np.abs(float(fnow)), float(current_grad)])
+    exps[~np.isfinite(exps) | (exps == 0)] = 1
     return np.sign(exps) * np.log10(exps).astype(int)
 
 
@@ -51,7 +51,6 @@ class VerboseOptimization(object):
             self.len_maxiters = len(str(int(maxiters)))
             self.opt_name = opt.opt_name
             self.opt = opt
-            self.model.add_observer(self, self.print_status)
             self.status = 'running'
             self.clear = clear_after_finish
 
@@ -115,6 +114,9 @@ class VerboseOptimization(object):
     def __enter__(self):
         self.start = time.time()
         self._time = self.start
+        if self.verbose:
+            # report only after the model itself got updated (see priority of its parents notification)
+            self.model.add_observer(self, self.print_status, -1000)
         return self
 
     def print_out(self, seconds):
@@ -195,7 +197,11 @@ class VerboseOptimization(object):
         self.iteration += 1
 
     def update(self):
-        self.fnow = self.model.objective_function()
+        try:
+            self.fnow = self.model.objective_function()
+        except Exception:
+            # there is nothing to report, but whether this can be tolerated is for the evaluation itself to say
+            self.fnow = np.nan
         if self.model.obj_grads is not None:
             grad = self.model.obj_grads
             self.current_gradient = np.dot(grad, grad)
-- 
2.43.0


From f51059a9485a890a2bd19c034739f0e388d7f125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 39/58] fix: reporting an optimization took numbers from the
 random number generator of the model

---
 paramz/optimization/verbose_optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paramz/optimization/verbose_optimization.py b/paramz/optimization/verbose_optimization.py
index 11374cd..71542fe 100644
--- a/paramz/optimization/verbose_optimization.py
+++ b/paramz/optimization/verbose_optimization.py
@@ -53,6 +53,8 @@ class VerboseOptimization(object):
             self.opt = opt
             self.status = 'running'
             self.clear = clear_after_finish
+            # a generator of its own, not to change the random numbers the model is going to see
+            self._random = np.random.RandomState()
 
             self.update()
 
@@ -171,7 +173,7 @@ class VerboseOptimization(object):
             self.model_show.value = self.model._repr_html_()
         else:
             n_exps = exponents(self.fnow, self.current_gradient)
-            if self.iteration - self.p_iter >= 20 * np.random.rand():
+            if self.iteration - self.p_iter >= 20 * self._random.rand():
                 a = self.iteration >= self.p_iter * 2.78
                 b = np.any(n_exps < self.exps)
                 if a or b:
-- 
2.43.0


From f7dea3b476f62a35aa6767f18b06d054c6a610cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 40/58] fix: numerical failures of the gradients were not
 tolerated

---
 paramz/model.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/paramz/model.py b/paramz/model.py
index 71d189b..06e0e51 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -248,9 +248,19 @@ class Model(Parameterized):
             if self._fail_count >= self._allowed_failures:
                 raise
             self._fail_count += 1
-            self.obj_grads = np.clip(self._transform_gradients(self.objective_function_gradients()), -1e100, 1e100)
+            self.obj_grads = self._clipped_gradients(1e100)
         return self.obj_grads
 
+    def _clipped_gradients(self, limit):
+        """
+        The gradients for a failed evaluation, which can have failed in the gradients, too.
+        """
+        try:
+            gradients = self.objective_function_gradients()
+        except (LinAlgError, ZeroDivisionError, ValueError): #pragma: no cover
+            gradients = self.gradient
+        return np.clip(self._transform_gradients(gradients), -limit, limit)
+
     def _objective(self, x):
         """
         The objective function passed to the optimizer. It combines
@@ -284,7 +294,7 @@ class Model(Parameterized):
                 raise
             self._fail_count += 1
             obj_f = np.inf
-            self.obj_grads = np.clip(self._transform_gradients(self.objective_function_gradients()), -1e10, 1e10)
+            self.obj_grads = self._clipped_gradients(1e10)
         return obj_f, self.obj_grads
 
     def _checkgrad(self, target_param=None, verbose=False, step=1e-6, tolerance=1e-3, df_tolerance=1e-12):
-- 
2.43.0


From 11f56496949a52b3a03e7ca9a580e0fd0295348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:45 +0000
Subject: [PATCH 41/58] fix: one failing parallel restart failed all of them,
 also if robust

---
 paramz/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/paramz/model.py b/paramz/model.py
index 06e0e51..f471815 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -158,9 +158,10 @@ class Model(Parameterized):
                 pool = mp.Pool(processes=num_processes)
                 obs = [self.copy() for i in range(num_restarts)]
                 [obs[i].randomize() for i in range(num_restarts-1)]
-                jobs = pool.map(opt_wrapper, [(o,kwargs) for o in obs])
+                runs = [pool.apply_async(opt_wrapper, ((o,kwargs),)) for o in obs]
                 pool.close()
                 pool.join()
+                jobs = runs
             except KeyboardInterrupt:
                 print("Ctrl+c received, terminating and joining pool.")
                 pool.terminate()
@@ -173,7 +174,7 @@ class Model(Parameterized):
                         self.randomize()
                     self.optimize(**kwargs)
                 else:#pragma: no cover
-                    self.optimization_runs.append(jobs[i])
+                    self.optimization_runs.append(jobs[i].get()) # raises if this run failed
 
                 if len(self.optimization_runs) > initial_length + len(results):
                     results.append((self.optimization_runs[-1].f_opt, self.optimization_runs[-1].x_opt))
-- 
2.43.0


From e435751855515041bfff5e0a097b04147eb64d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 42/58] fix: parallel restarts failed for a model without free
 parameters

---
 paramz/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index f471815..a3cefd0 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -174,7 +174,9 @@ class Model(Parameterized):
                         self.randomize()
                     self.optimize(**kwargs)
                 else:#pragma: no cover
-                    self.optimization_runs.append(jobs[i].get()) # raises if this run failed
+                    run = jobs[i].get() # raises if this run failed
+                    if run is not None: # there was something to optimize
+                        self.optimization_runs.append(run)
 
                 if len(self.optimization_runs) > initial_length + len(results):
                     results.append((self.optimization_runs[-1].f_opt, self.optimization_runs[-1].x_opt))
-- 
2.43.0


From db5dacff7370d19f6617c2987efa65573413184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 43/58] fix: checkgrad passed for a zero gradient whatever the
 objective

---
 paramz/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/model.py b/paramz/model.py
index a3cefd0..24a92b6 100644
--- a/paramz/model.py
+++ b/paramz/model.py
@@ -353,7 +353,7 @@ class Model(Parameterized):
 
             denominator = (2 * np.dot(dx, gradient))
             global_ratio = (f1 - f2) / np.where(denominator == 0., 1e-32, denominator)
-            global_diff = np.abs(f1 - f2) < tolerance and np.allclose(gradient, 0, atol=tolerance)
+            global_diff = np.abs(f1 - f2) < 2 * step * tolerance and np.allclose(gradient, 0, atol=tolerance)
             if global_ratio is np.nan: # pragma: no cover
                 global_ratio = 0
             return np.abs(1. - global_ratio) < tolerance or global_diff
-- 
2.43.0


From d25e6ae8f6c62759d2a9878ac25ce9734be00e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 44/58] fix: in-place matrix multiplication changed observable
 arrays without notifying

---
 paramz/core/observable_array.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paramz/core/observable_array.py b/paramz/core/observable_array.py
index 06f8ee4..9dc2197 100644
--- a/paramz/core/observable_array.py
+++ b/paramz/core/observable_array.py
@@ -199,3 +199,9 @@ class ObsAr(np.ndarray, Pickleable, Observable):
         r = np.ndarray.__imul__(self, *args, **kwargs)
         self.notify_observers()
         return r
+
+
+    def __imatmul__(self, *args, **kwargs): #pragma: no cover
+        r = np.ndarray.__imatmul__(self, *args, **kwargs)
+        self.notify_observers()
+        return r
-- 
2.43.0


From a02d58b46e58b2e148c41447244e0d8eed25ea38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 45/58] fix: ObsAr(a) of an observable array a dropped the
 observers of a

---
 paramz/core/observable_array.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/paramz/core/observable_array.py b/paramz/core/observable_array.py
index 9dc2197..d998613 100644
--- a/paramz/core/observable_array.py
+++ b/paramz/core/observable_array.py
@@ -62,10 +62,14 @@ class ObsAr(np.ndarray, Pickleable, Observable):
             except ValueError:
                 # do we have other dtypes in the array?
                 obj = np.atleast_1d(np.require(input_array, requirements=['W', 'C'])).view(cls)
-        else: obj = input_array
+        else: return input_array # already set up, keep its observers
         super(ObsAr, obj).__init__(*a, **kw)
         return obj
 
+    def __init__(self, *a, **kw):
+        if not any(x is self for x in a + tuple(kw.values())):
+            super(ObsAr, self).__init__(*a, **kw)
+
     def __array_finalize__(self, obj):
         # see InfoArray.__array_finalize__ for comments
         if obj is None: return
-- 
2.43.0


From 482636357b155f901d0f9169f999dd16c99a3e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 46/58] fix: a refused Logistic broke all later ones, and
 subclasses of Logistic shared its instances

---
 paramz/transformations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index eae7076..222814d 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -188,8 +188,10 @@ class Logistic(Transformation):
         if cls._instances:
             cls._instances[:] = [instance for instance in cls._instances if instance()]
             for instance in cls._instances:
-                if instance().lower == lower and instance().upper == upper:
-                    return instance()
+                o = instance()
+                # instances whose bounds were refused have none
+                if type(o) is cls and getattr(o, 'lower', None) == lower and getattr(o, 'upper', None) == upper:
+                    return o
         newfunc = super(Transformation, cls).__new__
         if newfunc is object.__new__:
             o = newfunc(cls)
-- 
2.43.0


From 897092bcedfefba3cbe9a74825370729c183101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 47/58] fix: transformations pickled with an old protocol came
 back as separate objects

---
 paramz/transformations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index 222814d..10d8aa6 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -57,6 +57,9 @@ class Transformation(object):
         if not cls._instance or cls._instance.__class__ is not cls:
             cls._instance = super(Transformation, cls).__new__(cls, *args, **kwargs)
         return cls._instance
+    def __reduce_ex__(self, protocol):
+        # older protocols would make new instances
+        return super(Transformation, self).__reduce_ex__(max(protocol, 2))
     def f(self, opt_param):
         raise NotImplementedError
     def finv(self, model_param):
-- 
2.43.0


From 449ec0b6b43df25804a2b260760136751df73046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 48/58] fix: the log jacobian of NegativeExponent was nan

---
 paramz/transformations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index 10d8aa6..646c79d 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -168,6 +168,8 @@ class NegativeExponent(Exponent):
         return -Exponent.gradfactor(self, f, df)
     def initialize(self, f):
         return -Exponent.initialize(self, f) #np.abs(f)
+    def log_jacobian(self, model_param):
+        return Exponent.log_jacobian(self, -model_param)
     def __str__(self):
         return '-ve'
 
-- 
2.43.0


From 381539d41156c96417c68efb205df405c957c382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 49/58] fix: bounded values saturated out of their bounds, and
 narrow bounds were not inverted

---
 paramz/transformations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paramz/transformations.py b/paramz/transformations.py
index 646c79d..836a4bf 100644
--- a/paramz/transformations.py
+++ b/paramz/transformations.py
@@ -215,9 +215,11 @@ class Logistic(Transformation):
         if (x<-300.).any():
             x = x.copy()
             x[x<-300.] = -300.
-        return self.lower + self.difference / (1. + np.exp(-x))
+        # rounding must not lead out of the bounds
+        return np.minimum(self.lower + self.difference / (1. + np.exp(-x)), self.upper)
     def finv(self, f):
-        return np.log(np.clip(f - self.lower, 1e-10, np.inf) / np.clip(self.upper - f, 1e-10, np.inf))
+        eps = min(1e-10, 1e-10 * self.difference)
+        return np.log(np.clip(f - self.lower, eps, np.inf) / np.clip(self.upper - f, eps, np.inf))
     def gradfactor(self, f, df):
         return np.einsum('i,i->i', df, (f - self.lower) * (self.upper - f) / self.difference)
     def initialize(self, f):
-- 
2.43.0


From a8faa405b1544369818e3b975701e814effb5065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 50/58] fix: a parameter linked to an emptied node shared its
 memory with a parameter unlinked from it

---
 paramz/parameterized.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/parameterized.py b/paramz/parameterized.py
index 1cc5729..98db90d 100644
--- a/paramz/parameterized.py
+++ b/paramz/parameterized.py
@@ -254,7 +254,8 @@ class Parameterized(with_metaclass(ParametersChangedMeta, Parameterizable)):
         self._model_initialized_ = True
         
         if not hasattr(self, "parameters") or len(self.parameters) < 1:
-            # no parameters for this class
+            # no parameters for this class: former ones may still use the arrays
+            self._param_array_, self._gradient_array_ = np.empty(0), np.empty(0)
             return
 
         old_size = 0
-- 
2.43.0


From 200fe295ab5088749a1af4d4479bd8dc9fe05f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:05 +0000
Subject: [PATCH 51/58] fix: optimizing failed with IndexError where TNC could
 not progress or BFGS met nan

---
 paramz/optimization/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paramz/optimization/optimization.py b/paramz/optimization/optimization.py
index 53d9c42..82a7b54 100644
--- a/paramz/optimization/optimization.py
+++ b/paramz/optimization/optimization.py
@@ -78,7 +78,7 @@ class opt_tnc(Optimizer):
 
         """
         tnc_rcstrings = ['Local minimum', 'Converged', 'XConverged', 'Maximum number of f evaluations reached',
-             'Line search failed', 'Function is constant']
+             'Line search failed', 'Function is constant', 'Unable to progress', 'User requested end']
 
         assert f_fp != None, "TNC requires f_fp"
 
@@ -141,7 +141,7 @@ class opt_bfgs(Optimizer):
         Run the optimizer
 
         """
-        rcstrings = ['','Maximum number of iterations exceeded', 'Gradient and/or function calls not changing']
+        rcstrings = ['','Maximum number of iterations exceeded', 'Gradient and/or function calls not changing', 'NaN result encountered']
 
         opt_dict = {}
         if self.xtol is not None:
-- 
2.43.0


From 885cfd430a6f711efce3767c2bc9d5ec3a475027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:10 +0000
Subject: [PATCH 52/58] fix: unfixed_param_array was None or failed for leaves
 and uninitialized nodes

---
 paramz/core/parameter_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paramz/core/parameter_core.py b/paramz/core/parameter_core.py
index f325f74..863120b 100644
--- a/paramz/core/parameter_core.py
+++ b/paramz/core/parameter_core.py
@@ -372,9 +372,9 @@ class Parameterizable(OptimizationHandlable):
         if self.constraints[__fixed__].size !=0:
             fixes = np.ones(self.size).astype(bool)
             fixes[self.constraints[__fixed__]] = FIXED
-            return self._param_array_[fixes]
+            return self.param_array.flat[fixes]
         else:
-            return self._param_array_
+            return self.param_array
 
     def traverse(self, visit, *args, **kwargs):
         """
-- 
2.43.0


From b9f3a566d065b1f0cbce925e0b1fa6cd94a8c859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:10 +0000
Subject: [PATCH 53/58] fix: in-place arithmetic on a part of a regular
 expression handle set the values to nan

---
 paramz/param.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/paramz/param.py b/paramz/param.py
index 5158aa1..df19c98 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -545,39 +545,52 @@ class ParamConcatenation(object):
 
     def __ilshift__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ilshift__(self.values(), *args, **kwargs)
+        return self
 
     def __irshift__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__irshift__(self.values(), *args, **kwargs)
+        return self
 
     def __ixor__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ixor__(self.values(), *args, **kwargs)
+        return self
 
     def __ipow__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ipow__(self.values(), *args, **kwargs)
+        return self
 
     def __ifloordiv__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ifloordiv__(self.values(), *args, **kwargs)
+        return self
 
     def __isub__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__isub__(self.values(), *args, **kwargs)
+        return self
 
     def __ior__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__ior__(self.values(), *args, **kwargs)
+        return self
 
     def __itruediv__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__itruediv__(self.values(), *args, **kwargs)
+        return self
 
     def __idiv__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__idiv__(self.values(), *args, **kwargs)
+        return self
 
     def __iand__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__iand__(self.values(), *args, **kwargs)
+        return self
 
     def __imod__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__imod__(self.values(), *args, **kwargs)
+        return self
 
     def __iadd__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__iadd__(self.values(), *args, **kwargs)
+        return self
 
     def __imul__(self, *args, **kwargs):#pragma: no cover
         self[:] = np.ndarray.__imul__(self.values(), *args, **kwargs)
+        return self
-- 
2.43.0


From be19da373f89b76e30681627c17cc46806b7a0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:32 +0000
Subject: [PATCH 54/58] fix: is_fixed of a part of a parameter compared its
 size with the number of fixed values of the whole

---
 paramz/param.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paramz/param.py b/paramz/param.py
index df19c98..6139cb3 100644
--- a/paramz/param.py
+++ b/paramz/param.py
@@ -192,7 +192,8 @@ class Param(Parameterizable, ObsAr):
     @property
     def is_fixed(self):
         from paramz.transformations import __fixed__
-        return self.constraints[__fixed__].size == self.size
+        # the constraints are these of the whole parameter, also for a part of it
+        return bool(np.all(np.isin(self._raveled_index(), self.constraints[__fixed__])))
 
     def _get_original(self, param):
         return self._original_
-- 
2.43.0


From 00689b53f4661874807e725d01a27e91d217d303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:05 +0000
Subject: [PATCH 55/58] fix: runs of the climin optimizers recorded no
 objective, so restarts took the first run as the best

---
 paramz/optimization/optimization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paramz/optimization/optimization.py b/paramz/optimization/optimization.py
index 82a7b54..4cff2d2 100644
--- a/paramz/optimization/optimization.py
+++ b/paramz/optimization/optimization.py
@@ -270,6 +270,7 @@ class Opt_Adadelta(Optimizer):
         for info in opt:
             if info['n_iter']>=self.max_iters:
                 self.x_opt =  opt.wrt
+                self.f_opt = f(self.x_opt)
                 self.status = 'maximum number of function evaluations exceeded '
                 break
         else: # pragma: no cover
@@ -306,6 +307,7 @@ class RProp(Optimizer):
         for info in opt:
             if info['n_iter']>=self.max_iters:
                 self.x_opt =  opt.wrt
+                self.f_opt = f(self.x_opt)
                 self.status = 'maximum number of function evaluations exceeded'
                 break
         else: # pragma: no cover
@@ -348,6 +350,7 @@ class Adam(Optimizer):
         for info in opt:
             if info['n_iter']>=self.max_iters:
                 self.x_opt =  opt.wrt
+                self.f_opt = f(self.x_opt)
                 self.status = 'maximum number of function evaluations exceeded'
                 break
         else: # pragma: no cover
-- 
2.43.0


From 46ec4bc2b7ce06ebea9a7039d1dbe8cfa6c4368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:05 +0000
Subject: [PATCH 56/58] fix: simplex recorded nan as objective of a solution
 with a finite one when a corner of the simplex was nan

---
 paramz/optimization/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/optimization/optimization.py b/paramz/optimization/optimization.py
index 4cff2d2..36bc689 100644
--- a/paramz/optimization/optimization.py
+++ b/paramz/optimization/optimization.py
@@ -182,7 +182,7 @@ class opt_simplex(Optimizer):
                    maxfun=self.max_f_eval, full_output=True, **opt_dict)
 
         self.x_opt = opt_result[0]
-        self.f_opt = opt_result[1]
+        self.f_opt = f(self.x_opt)
         self.funct_eval = opt_result[3]
         self.status = statuses[opt_result[4]]
         self.trace = None
-- 
2.43.0


From a436ff4e6878e9434a8d9678d6c0cd456c8fe9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:07 +0000
Subject: [PATCH 57/58] fix: hierarchy_name without adjusting for printing
 still adjusted the names of the parents

---
 paramz/core/nameable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paramz/core/nameable.py b/paramz/core/nameable.py
index 43e4f74..12c1cd0 100644
--- a/paramz/core/nameable.py
+++ b/paramz/core/nameable.py
@@ -84,5 +84,5 @@ class Nameable(Gradcheckable):
         if adjust_for_printing: adjust = lambda x: adjust_name_for_printing(x)
         else: adjust = lambda x: x
         if self.has_parent():
-            return self._parent_.hierarchy_name() + "." + adjust(self.name)
+            return self._parent_.hierarchy_name(adjust_for_printing) + "." + adjust(self.name)
         return adjust(self.name)
-- 
2.43.0


From 825e58d8741b4b165c6494a741ae432505a6707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:10 +0000
Subject: [PATCH 58/58] fix: showing the progress in a notebook replaced the
 error of a failed optimization, or raised one where none was

---
 paramz/optimization/verbose_optimization.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/paramz/optimization/verbose_optimization.py b/paramz/optimization/verbose_optimization.py
index 71542fe..c625de0 100644
--- a/paramz/optimization/verbose_optimization.py
+++ b/paramz/optimization/verbose_optimization.py
@@ -170,7 +170,11 @@ class VerboseOptimization(object):
             self.text.value = html_begin + html_body + html_end
             self.progress.value = (self.iteration+1)
             #self.progresstext.value = '0/{}'.format((self.iteration+1))
-            self.model_show.value = self.model._repr_html_()
+            try:
+                self.model_show.value = self.model._repr_html_()
+            except Exception:
+                # the objective cannot be shown (see update)
+                pass
         else:
             n_exps = exponents(self.fnow, self.current_gradient)
             if self.iteration - self.p_iter >= 20 * self._random.rand():
@@ -216,7 +220,7 @@ class VerboseOptimization(object):
 
     def __exit__(self, type, value, traceback):
         if self.verbose:
-            self.status = self.opt.status
+            self.status = str(self.opt.status) # there is none if the optimizer failed
 
             self.stop = time.time()
             self.model.remove_observer(self)
-- 
2.43.0

