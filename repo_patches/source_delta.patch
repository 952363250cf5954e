From 79fa8d0ffe460b74e0980052e9a6322a033cfcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:07 +0000
Subject: [PATCH 001/135] fix: views with repeated indices raised ValueError
 under current numpy

np.all(u == ind) compares arrays of different length; numpy no longer
broadcasts/degrades that to False but raises.
---
 pygeode/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/view.py b/pygeode/view.py
index a7b06bd..c4a560e 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -233,7 +233,7 @@ class View:
 
     # Only request unique elements from the input
     unique_indices = [np.unique(ind) for ind in newview.integer_indices]
-    if all(np.all(u == ind) for u,ind in zip(unique_indices, newview.integer_indices)):
+    if all(np.array_equal(u, ind) for u,ind in zip(unique_indices, newview.integer_indices)):
       # already unique
       duplicator = ()
       unique_view = newview
-- 
2.43.0


From ddf4bfa29a59bf72430a49aff0a798e2d8894cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 002/135] fix: mapping onto an axis with repeated coordinates
 lost every later coordinate

The pointer that walks the sorted axis stopped at the first of two equal values, so
v.slice[[0,0,1],] could not be sliced again.
---
 pygeode/tools.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygeode/tools.c b/pygeode/tools.c
index c62703b..2f448a0 100644
--- a/pygeode/tools.c
+++ b/pygeode/tools.c
@@ -133,9 +133,9 @@ int map_to (int na, double *a_orig, int nb, double *b_orig, int *indices, double
     double B = b[bi];
 //    double check = atol + rtol * fabs(B);
     // Find a that's closest to b
-    while (ai < na-1) {
-      if (fabs(a[ai+1]-B) < fabs(a[ai]-B)) ai++;
-      else break;
+    // (look past any repeated values of a, which are all equally close)
+    for (int aj = ai+1; aj < na && fabs(a[aj]-B) <= fabs(a[ai]-B); aj++) {
+      if (fabs(a[aj]-B) < fabs(a[ai]-B)) ai = aj;
     }
     // Check if it's a match
     //printf("A: %d %e <-> B: %d %e\n", a_ind[ai], a[ai], b_ind[bi], b[bi]);
-- 
2.43.0


From 03a1c72b76e437ebd0110760b5507c04c9c37842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 003/135] fix: reductions of integer and boolean variables
 overflowed, truncated or returned garbage

min/max raised OverflowError, mean/variance were truncated to integers, the nan variants
returned INT_MIN, and sums of booleans raised a casting error.
---
 pygeode/reduce.py | 50 ++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index 6f47b7b..968fcf1 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -6,9 +6,33 @@
 
 from pygeode.var import Var
 
+# Result types for reductions that are not closed over the type of their input
+def _float_type (dtype):
+# {{{
+  import numpy as np
+  return dtype if dtype.kind in 'fc' else np.dtype('float64')
+# }}}
+def _sum_type (dtype):
+# {{{
+  import numpy as np
+  return np.sum(np.zeros(1,dtype)).dtype
+# }}}
+
+# Bounds for searching extreme values (integers have no infinities)
+def _bounds (dtype):
+# {{{
+  import numpy as np
+  if dtype.kind == 'b': return False, True
+  if dtype.kind in 'iu': return np.iinfo(dtype).min, np.iinfo(dtype).max
+  return float('-inf'), float('inf')
+# }}}
+
 #########################
 class ReducedVar(Var):
 # {{{
+  # The type of the result, given the type of the input
+  _outtype = staticmethod(lambda dtype: dtype)
+
   def __new__ (type, var, indices, *args, **kwargs):
   # {{{
     from pygeode.var import Var
@@ -66,6 +90,8 @@ class ReducedVar(Var):
     # Remove the reduction axis from the output variable
     axes = [a for i,a in enumerate(axes) if i not in indices]
 
+    dtype = self._outtype(np.dtype(dtype))
+
     Var.__init__(self, axes, dtype=dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
 
   # }}}
@@ -77,7 +103,7 @@ class MinVar(ReducedVar):
     import numpy as np
     from pygeode.tools import loopover, npmin
     out = np.empty(view.shape, self.dtype)
-    out[()] = float('inf')
+    out[()] = _bounds(self.dtype)[1]
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       out[outsl] = np.minimum(out[outsl], npmin(indata, self.indices))
     return out
@@ -88,6 +114,8 @@ class NANMinVar(ReducedVar):
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnanmin
+    # No missing values in integers
+    if self.dtype.kind not in 'fc': return MinVar.getview(self, view, pbar)
     out = np.full(view.shape, np.nan, self.dtype)
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       #Ignore NaNs when finding mininum
@@ -101,7 +129,7 @@ class MaxVar(ReducedVar):
     import numpy as np
     from pygeode.tools import loopover, npmax
     out = np.empty(view.shape, self.dtype)
-    out[()] = float('-inf')
+    out[()] = _bounds(self.dtype)[0]
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       out[outsl] = np.maximum(out[outsl], npmax(indata, self.indices))
     return out
@@ -112,6 +140,8 @@ class NANMaxVar(ReducedVar):
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnanmax
+    # No missing values in integers
+    if self.dtype.kind not in 'fc': return MaxVar.getview(self, view, pbar)
     out = np.full(view.shape, np.nan, self.dtype)
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       #Ignore NaNs when finding maximum
@@ -180,6 +210,7 @@ class ArgMinVar(ReducedVar):
 
 class SumVar(ReducedVar):
 # {{{
+  _outtype = staticmethod(_sum_type)
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npsum
@@ -191,6 +222,7 @@ class SumVar(ReducedVar):
 class WeightedSumVar(ReducedVar):
 # {{{
   '''WeightedSumVar(ReducedVar) - computes weighted sum.'''
+  _outtype = staticmethod(_float_type)
   def __init__(self, var, indices, weights):
   # {{{
     ReducedVar.__init__(self, var, indices)
@@ -215,10 +247,11 @@ class WeightedSumVar(ReducedVar):
 
 class NANSumVar(ReducedVar):
 # {{{
+  _outtype = staticmethod(_sum_type)
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnansum
-    out = np.full(view.shape, np.nan, self.dtype)
+    out = np.zeros(view.shape, self.dtype)
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       # Accumulation must be nan-safe
       out[outsl] = np.nansum([out[outsl], npnansum(indata, self.indices)], 0)
@@ -227,6 +260,7 @@ class NANSumVar(ReducedVar):
 class WeightedNANSumVar(ReducedVar):
 # {{{
   '''WeightedNANSumVar(ReducedVar) - computes weighted sum, neglecting NaNs.'''
+  _outtype = staticmethod(_float_type)
   def __init__(self, var, indices, weights):
   # {{{
     ReducedVar.__init__(self, var, indices)
@@ -255,6 +289,7 @@ class WeightedNANSumVar(ReducedVar):
 class MeanVar(ReducedVar):
 # {{{
   '''MeanVar(ReducedVar) - computes unweighted mean.'''
+  _outtype = staticmethod(_float_type)
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npsum
@@ -267,6 +302,7 @@ class MeanVar(ReducedVar):
 class WeightedMeanVar(ReducedVar):
 # {{{
   '''WeightedMeanVar(ReducedVar) - computes weighted mean.'''
+  _outtype = staticmethod(_float_type)
   def __init__(self, var, indices, weights):
   # {{{
     ReducedVar.__init__(self, var, indices)
@@ -296,6 +332,7 @@ class WeightedMeanVar(ReducedVar):
 class NANMeanVar(ReducedVar):
 # {{{
   '''NANMeanVar(ReducedVar) - computes unweighted mean, ignoring NANs.'''
+  _outtype = staticmethod(_float_type)
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnansum
@@ -316,6 +353,7 @@ class NANMeanVar(ReducedVar):
 class WeightedNANMeanVar(ReducedVar):
 # {{{ 
   '''WeightedNANMeanVar(ReducedVar) - computes weighted mean.'''
+  _outtype = staticmethod(_float_type)
   def __init__(self, var, indices, weights):
   #  {{{
     ReducedVar.__init__(self, var, indices)
@@ -352,6 +390,7 @@ class WeightedNANMeanVar(ReducedVar):
 #TODO: make it more numerically stable, add weights
 class VarianceVar(ReducedVar):
 # {{{
+  _outtype = staticmethod(_float_type)
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npsum
@@ -359,6 +398,7 @@ class VarianceVar(ReducedVar):
     x2 = np.zeros(view.shape, self.dtype)
     N = self.N
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
+      indata = np.asarray(indata, self.dtype)
       x[outsl] += npsum(indata, self.indices)  
       x2[outsl] += npsum(indata**2, self.indices)  
 
@@ -368,6 +408,7 @@ class VarianceVar(ReducedVar):
 class WeightedVarianceVar(ReducedVar):
 # {{{
   '''WeightedVarianceVar(ReducedVar) - computes weighted mean.'''
+  _outtype = staticmethod(_float_type)
   def __init__(self, var, indices, weights):
   # {{{
     ReducedVar.__init__(self, var, indices)
@@ -387,6 +428,7 @@ class WeightedVarianceVar(ReducedVar):
     x2 = np.zeros(view.shape, self.dtype)
     W = np.zeros(view.shape, self.dtype)
     for outsl, (indata, inw) in loopover([self.var, self.mweights], view, self.var.axes, pbar=pbar):
+      indata = np.asarray(indata, self.dtype)
       x[outsl] += npsum(indata * inw, self.indices)  # Product of data and weights
       x2[outsl] += npsum(indata**2 * inw, self.indices)  # Product of data and weights
       f = indata.size / (inw.size * x[outsl].size)
@@ -399,6 +441,7 @@ class WeightedVarianceVar(ReducedVar):
 # NB: There is possibly an issue with this for integer datatypes
 class NANVarianceVar(ReducedVar):
 # {{{
+  _outtype = staticmethod(_float_type)
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnansum
@@ -409,6 +452,7 @@ class NANVarianceVar(ReducedVar):
     out = np.zeros(view.shape, self.dtype)
 
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
+      indata = np.asarray(indata, self.dtype)
       x[outsl] = np.nansum([x[outsl],\
                   npnansum(indata, self.indices)], 0)
       x2[outsl] = np.nansum([x2[outsl],\
-- 
2.43.0


From 285094c80395860153938989d76eaa8bd3021aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 004/135] fix: argmax and argmin accept any axis identifier

Axis classes and integers raised TypeError (len() of the identifier was taken).
---
 pygeode/reduce.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index 968fcf1..03f1061 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -151,12 +151,12 @@ class NANMaxVar(ReducedVar):
 
 class ArgMaxVar(ReducedVar):
 # {{{
-  def __init__(self, var, index):
+  def __init__(self, var, indices):
   # {{{
     from pygeode.var import Var
     import numpy as np
     axes = var.axes
-    index = var.whichaxis(index)
+    index = var.whichaxis(indices[0])
 
     self.N = len(axes[index])
     self.var = var
@@ -180,12 +180,12 @@ class ArgMaxVar(ReducedVar):
 # }}}
 class ArgMinVar(ReducedVar):
 # {{{
-  def __init__(self, var, index):
+  def __init__(self, var, indices):
   # {{{
     from pygeode.var import Var
     import numpy as np
     axes = var.axes
-    index = var.whichaxis(index)
+    index = var.whichaxis(indices[0])
 
     self.N = len(axes[index])
     self.var = var
@@ -616,7 +616,7 @@ def argmax (var, axis):
     --------
     argmin
   '''
-  return ArgMaxVar(var, axis)
+  return ArgMaxVar(var, [axis])
 # }}}
 def argmin (var, axis): 
 # {{{
@@ -638,7 +638,7 @@ def argmin (var, axis):
     --------
     argmax
   '''
-  return ArgMinVar(var, axis)
+  return ArgMinVar(var, [axis])
 # }}}
 
 
-- 
2.43.0


From 6a500ec37080a94ee94691568396eae3d776c7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 005/135] fix: argmax and argmin returned a position within the
 last chunk

When the reduced axis did not fit in MAX_ARRAY_SIZE, each chunk overwrote the result of the
one before with an index relative to its own start.
---
 pygeode/reduce.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index 03f1061..03f80e5 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -174,7 +174,7 @@ class ArgMaxVar(ReducedVar):
     from pygeode.tools import loopover, npmax
     out = np.empty(view.shape, self.dtype)
     index = self.indices[0]
-    for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
+    for outsl, (indata,) in loopover(self.var, view, preserve=[index], pbar=pbar):
       out[outsl] = np.argmax(indata, index)
     return out
 # }}}
@@ -203,7 +203,7 @@ class ArgMinVar(ReducedVar):
     from pygeode.tools import loopover, npmax
     out = np.empty(view.shape, self.dtype)
     index = self.indices[0]
-    for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
+    for outsl, (indata,) in loopover(self.var, view, preserve=[index], pbar=pbar):
       out[outsl] = np.argmin(indata, index)
     return out
 # }}}
-- 
2.43.0


From c34c893fdfa94b344baafa4661440dcbb0bf4787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 006/135] fix: nan-ignoring reductions turned inf-inf into zero

The partial result of each chunk was itself combined with nansum, so an undefined sum of
the points present (inf - inf) was treated as missing.
---
 pygeode/reduce.py | 40 +++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index 03f80e5..e9e01e9 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -254,7 +254,7 @@ class NANSumVar(ReducedVar):
     out = np.zeros(view.shape, self.dtype)
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       # Accumulation must be nan-safe
-      out[outsl] = np.nansum([out[outsl], npnansum(indata, self.indices)], 0)
+      out[outsl] += npnansum(indata, self.indices)
     return out
 # }}}
 class WeightedNANSumVar(ReducedVar):
@@ -276,11 +276,10 @@ class WeightedNANSumVar(ReducedVar):
   # {{{
     import numpy as np
     from pygeode.tools import loopover, npnansum
-    out = np.full(view.shape, np.nan, self.dtype)
+    out = np.zeros(view.shape, self.dtype)
     for outsl, (indata, inw) in loopover([self.var, self.mweights], view, self.var.axes, pbar=pbar):
       # Accumulation must be nan-safe
-      out[outsl] = np.nansum([out[outsl], \
-              npnansum(indata * inw, self.indices)], 0)     # Product of data and weights
+      out[outsl] += npnansum(indata * inw, self.indices)     # Product of data and weights
 
     return out
   # }}}
@@ -336,13 +335,13 @@ class NANMeanVar(ReducedVar):
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnansum
-    out = np.full(view.shape, np.nan, self.dtype)
-    N   = np.full(view.shape, np.nan, self.dtype)
+    out = np.zeros(view.shape, self.dtype)
+    N   = np.zeros(view.shape, self.dtype)
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       # Must increment in a nan-safe way
-      out[outsl] = np.nansum([out[outsl], npnansum(indata, self.indices)], 0)
+      out[outsl] += npnansum(indata, self.indices)
       # Sum of weights (kludge to get masking right)
-      N[outsl] = np.nansum([N[outsl], npnansum(~np.isnan(indata), self.indices)], 0)
+      N[outsl] += npnansum(~np.isnan(indata), self.indices)
 
     nmsk = (N > 0.)
     out[nmsk] /= N[nmsk]
@@ -369,14 +368,12 @@ class WeightedNANMeanVar(ReducedVar):
   # {{{
     import numpy as np
     from pygeode.tools import loopover, npnansum
-    out = np.full(view.shape, np.nan, self.dtype)
-    W   = np.full(view.shape, np.nan, self.dtype)
+    out = np.zeros(view.shape, self.dtype)
+    W   = np.zeros(view.shape, self.dtype)
     for outsl, (indata, inw) in loopover([self.var, self.mweights], view, self.var.axes, pbar=pbar):
       # Must increment in a nan-safe way
-      out[outsl] = np.nansum([out[outsl], \
-              npnansum(indata * inw, self.indices)], 0)     # Product of data and weights
-      W[outsl] = np.nansum([W[outsl], \
-              npnansum((~np.isnan(indata)) * inw, self.indices)], 0)  # Sum of weights (kludge to get masking right)
+      out[outsl] += npnansum(indata * inw, self.indices)     # Product of data and weights
+      W[outsl] += npnansum((~np.isnan(indata)) * inw, self.indices)  # Sum of weights (kludge to get masking right)
 
     nmsk = (W > 0.)
     out[nmsk] /= W[nmsk]
@@ -445,20 +442,17 @@ class NANVarianceVar(ReducedVar):
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnansum
-    x  = np.full(view.shape, np.nan, self.dtype)
-    x2 = np.full(view.shape, np.nan, self.dtype)
-    N  = np.full(view.shape, np.nan, self.dtype)
+    x  = np.zeros(view.shape, self.dtype)
+    x2 = np.zeros(view.shape, self.dtype)
+    N  = np.zeros(view.shape, self.dtype)
 
     out = np.zeros(view.shape, self.dtype)
 
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
       indata = np.asarray(indata, self.dtype)
-      x[outsl] = np.nansum([x[outsl],\
-                  npnansum(indata, self.indices)], 0)
-      x2[outsl] = np.nansum([x2[outsl],\
-                  npnansum(indata**2, self.indices)], 0)  
-      N[outsl] = np.nansum([N[outsl],
-                  npnansum(~np.isnan(indata), self.indices)], 0)
+      x[outsl] += npnansum(indata, self.indices)
+      x2[outsl] += npnansum(indata**2, self.indices)  
+      N[outsl] += npnansum(~np.isnan(indata), self.indices)
 
     nmsk = (N > 1.)
     out[nmsk] = x2[nmsk] - x[nmsk]**2/N[nmsk]
-- 
2.43.0


From 6e8c50511f33f9b787fa8b4d7e986ef8935a0439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 007/135] fix: nansum applied weights by default, contrary to
 sum and its documentation

---
 pygeode/reduce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index e9e01e9..f9ec79b 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -700,7 +700,7 @@ def nansum (var, *axes, **kwargs):
     --------
     getweights
   '''
-  weights = kwargs.pop('weights', True)
+  weights = kwargs.pop('weights', False)
   if weights is True:
     weights = var.getweights(axes)
 
-- 
2.43.0


From 70594970e232dccf18c57a5f6590a6726147a941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 008/135] fix: a second keyword for the same axis replaced an
 m_ or s_ selection

---
 pygeode/var.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pygeode/var.py b/pygeode/var.py
index 5ff1104..9c2083c 100644
--- a/pygeode/var.py
+++ b/pygeode/var.py
@@ -399,19 +399,14 @@ class Var(object):
         if not self.hasaxis(ax) and ignore_mismatch: continue
         assert self.hasaxis(ax), "'%s' is not a valid axis for var '%s'"%(ax,self.name)
         means.append(ax)
-        prefix = prefix.replace('m', '')
 
       if 's' in prefix:
         if not self.hasaxis(ax) and ignore_mismatch: continue
         assert self.hasaxis(ax), "'%s' is not a valid axis for var '%s'"%(ax,self.name)
         if ax not in means: squeezes.append(ax)
-        prefix = prefix.replace('s', '')
-
-      if len(prefix) > 0:
-        k = '_'.join([prefix, ax])
-      else:
-        k = ax
 
+      # The axes disregard these prefixes, so leave them in place (without
+      # them, two keywords for the same axis could coincide).
       newargs[k] = v
 
     # Get the slices, apply to the variable
-- 
2.43.0


From 559770303469a153333cfedd9f0f6ac69527c0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 009/135] fix: auxiliary arrays with an underscore in their
 name could not be selected by

---
 pygeode/axis.py | 2 +-
 pygeode/var.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 1c331c2..cc0e299 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -398,7 +398,7 @@ class Axis(Var):
 
     for k, v in kwargs.items():
        # Split off prefix if present
-      if '_' in k and not self.has_alias(k):
+      if '_' in k and not self.has_alias(k) and k not in self.auxarrays:
         prefix, ax = k.split('_', 1)
       else:
         prefix, ax = '', k
diff --git a/pygeode/var.py b/pygeode/var.py
index 9c2083c..2979f16 100644
--- a/pygeode/var.py
+++ b/pygeode/var.py
@@ -390,7 +390,7 @@ class Var(object):
     newargs = {}
     for k, v in kwargs.items():
       # Detect special prefixes.
-      if '_' in k and not self.hasaxis(k):
+      if '_' in k and not self.hasaxis(k) and not any(k in a.auxarrays for a in self.axes):
         prefix, ax = k.split('_', 1)
       else:
         prefix, ax = '', k
-- 
2.43.0


From 8eb5b2cebee9a16b3a794621a74c0fe9fd2922bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 010/135] fix: arctand2 could not be called with its two
 arguments

---
 pygeode/ufunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/ufunc.py b/pygeode/ufunc.py
index 4c0f99d..b84042e 100644
--- a/pygeode/ufunc.py
+++ b/pygeode/ufunc.py
@@ -200,7 +200,7 @@ def chain (*f):
   assert len(f) > 0
   if len(f) == 1: return f[0]
   def make_chain (f1,f2):
-    def f3(x): return f1(f2(x))
+    def f3(*x): return f1(f2(*x))
     return f3
   return make_chain (f[0],chain(*f[1:]))
 
-- 
2.43.0


From 9e7d28c8c193b0db66224962582539a1ac918659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 011/135] fix: a power of a float32 variable by a float64
 variable was computed but stored in single precision

---
 pygeode/ufunc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygeode/ufunc.py b/pygeode/ufunc.py
index b84042e..0120355 100644
--- a/pygeode/ufunc.py
+++ b/pygeode/ufunc.py
@@ -41,7 +41,10 @@ class UfuncVar (Var):
 #    dtype = common_dtype(args)
     # create some dummy scalar args to test the dtype
     dummy_dtypes = ['int64' if isinstance(a,int) else 'float64' if isinstance(a,float) else 'complex128' if isinstance(a,complex) else a.dtype for a in args]
-    dummy_args = [np.array(1,dtype=d) for d in dummy_dtypes]
+    # (if there are only variables, use arrays with a dimension, since numpy
+    #  treats zero-dimensional powers like scalars)
+    shape = (1,) if len(vars) == len(args) else ()
+    dummy_args = [np.ones(shape,dtype=d) for d in dummy_dtypes]
     dtype = self.op(*dummy_args).dtype
 
     # TODO: Type check arguments. numpy arrays probably shouldn't be allowed
-- 
2.43.0


From 628d20af84e4e2a658c2a3b9888cdfc60909ddce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 012/135] fix: != on axes could agree with == (it ignored the
 class's own comparison)

---
 pygeode/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index cc0e299..f91a70a 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -205,7 +205,7 @@ class Axis(Var):
   #TODO: fix inconsistency between Axis and Var, for == and !=
   #      Vars produce a boolean mask under those operations, Axes return scalar True/False
   # I.e., "lat == 30" and "(lat*1) == 30" give very different results!
-  def __ne__ (self, other): return not is_equivalent(self, other)
+  def __ne__ (self, other): return not self == other
   def __eq__ (self, other): return is_equivalent(self, other)
 
   def alleq (self, *others):
-- 
2.43.0


From 004ef2ed7c8df640a4929387a366849cca4f79eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 013/135] fix: a dummy axis did not compare equal to itself

---
 pygeode/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index f91a70a..5d91a1c 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -761,7 +761,7 @@ class NamedAxis (Axis):
 
   def __eq__ (self, other):
   # {{{
-    if type(other) is not NamedAxis: return False
+    if type(other) is not type(self): return False
 
     # Check the names
     if self.name != other.name: return False
-- 
2.43.0


From 1069c5870c8243f08a1b138b1ca8f132680e88fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 014/135] fix: axes with closely spaced or very small
 coordinates were matched by position

---
 pygeode/axis.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 5d91a1c..8f5a63f 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -249,10 +249,9 @@ class Axis(Var):
     # special case: both axes are identical
     if self == other: return np.arange(len(self))
 
-    # Use less conservative tolerance?
-    #rtol = max(self.auxatts.get('rtol', 1e-5), other.auxatts.get('rtol', 1e-5))
-
-    return map_to(self.values, other.values, self.rtol)
+    # Use the more conservative tolerance (an axis with few values may not
+    # know how close together the coordinates are).
+    return map_to(self.values, other.values, min(self.rtol, other.rtol))
   # }}}
 
   def sorted (self, reverse=None):
@@ -375,6 +374,9 @@ class Axis(Var):
 
     axis = type(self)(values, name=self.name, atts=self.atts, **aux)
 
+    # The coordinates are still to be told apart as well as in the full axis
+    axis.rtol = self.rtol
+
     return axis
   # }}}
 
@@ -711,13 +713,16 @@ def is_equivalent(ax1, ax2, check_class = False, check_aux = True, check_name =
     return False
 
   # Check the values
-  from numpy import allclose
+  from numpy import allclose, max as npmax, abs as npabs
   if rtol == 'max':
-    rtol = max(ax1.auxatts.get('rtol', 1e-5), ax2.auxatts.get('rtol', 1e-5))
+    rtol = max(ax1.rtol, ax2.rtol)
   elif rtol == 'min':
-    rtol = min(ax1.auxatts.get('rtol', 1e-5), ax2.auxatts.get('rtol', 1e-5))
+    rtol = min(ax1.rtol, ax2.rtol)
+
+  # Allow for rounding near zero, but in proportion to the size of the values
+  atol = min(1e-8, 1e-10 * npmax(npabs(ax1.values), initial=0.))
 
-  if not allclose(ax1.values, ax2.values, rtol = rtol):
+  if not allclose(ax1.values, ax2.values, rtol = rtol, atol = atol):
 #   print 'values mismatch'
     return False
 
-- 
2.43.0


From 0a6599da72cb34daf2d0ff49a487092fe9c37eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 015/135] fix: the common map of two time axes with repeated
 times overran its index arrays

---
 pygeode/timeaxis.c  | 2 +-
 pygeode/timeaxis.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygeode/timeaxis.c b/pygeode/timeaxis.c
index f6268bc..fceba21 100644
--- a/pygeode/timeaxis.c
+++ b/pygeode/timeaxis.c
@@ -172,7 +172,7 @@ int common_map (int natts, int na, int *a, int nb, int *b, int *nmap, int *a_map
     int cmp = CMP(a,ai,b,bi);
     // A match?
     if (cmp == 0) {
-      assert (m < na || m < nb);
+      assert (m < na + nb);
       a_map[m] = ai;
       b_map[m] = bi;
       m++;
diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 9b88766..a2f8597 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -256,7 +256,8 @@ class Time (TAxis):
     a = np.ascontiguousarray(a[a_ind,:],dtype='int32')
     b = np.ascontiguousarray(b[b_ind,:],dtype='int32')
     # Outputs
-    nmap = max(na,nb)
+    # (every element may be paired at least once, if both axes have repeated times)
+    nmap = na + nb
     a_map = np.empty(nmap, 'int32')
     b_map = np.empty(nmap, 'int32')
 
-- 
2.43.0


From 530dbe174e753a4f248a336700d84a14c4ee8963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 016/135] fix: dates with hours beyond 596523 overflowed
 instead of carrying into days

---
 pygeode/timeaxis.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pygeode/timeaxis.c b/pygeode/timeaxis.c
index fceba21..b5a6d7e 100644
--- a/pygeode/timeaxis.c
+++ b/pygeode/timeaxis.c
@@ -277,7 +277,7 @@ int date_as_val_std (int n, int iyear, int imonth, int iday,
     m -= dy*12;
 
     long long int v = ( ndays(iyear,y) + month2doy[isleap(y)][m] + day[i] - 1) * 86400LL;
-    v += hour[i]*3600 + minute[i]*60 + second[i];
+    v += hour[i]*3600LL + minute[i]*60LL + second[i];
     v -= ref;
     val[i] = v;
   }
@@ -401,7 +401,7 @@ int date_as_val_365 (int n, int iyear, int imonth, int iday,
     m -= dy*12;
 
     long long int v = ( 365*(y-iyear) + month2doy[m] + day[i] - 1 ) * 86400LL;
-    v += hour[i]*3600 + minute[i]*60 + second[i];
+    v += hour[i]*3600LL + minute[i]*60LL + second[i];
     v -= ref;
     val[i] = v;
   }
@@ -482,7 +482,7 @@ int date_as_val_360 (int n, int iyear, int imonth, int iday,
 
     int y = year[i];
     long long int v = ( 360*(y-iyear) + (month[i]-1)*30 + day[i] ) * 86400LL;
-    v += hour[i]*3600 + minute[i]*60 + second[i];
+    v += hour[i]*3600LL + minute[i]*60LL + second[i];
     v -= ref;
     val[i] = v;
   }
@@ -563,8 +563,8 @@ int date_as_val_yearless (int n, int iyear, int imonth, int iday,
   }
 
   for (int i = 0; i < n; i++) {
-    val[i] = (day[i] - iday) * 86400LL + (hour[i] - ihour) * 3600
-           + (minute[i]-iminute) * 60 + (second[i] - isecond);
+    val[i] = (day[i] - iday) * 86400LL + (hour[i] - ihour) * 3600LL
+           + (minute[i]-iminute) * 60LL + (second[i] - isecond);
   }
 
   return 0;
-- 
2.43.0


From ebc76a075d333cef9261a1cd386d50ff4c876dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 017/135] fix: time axes a year apart compared equal beyond
 year 100000

---
 pygeode/timeaxis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index a2f8597..fb03835 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -153,7 +153,8 @@ class Time (TAxis):
     assert len(self.auxarrays) > 0, "how is date formed?"
     # Different field values?
     for k,f in self.auxarrays.items():
-      if not np.allclose(f,other.auxarrays[k]): return False
+      # (the fields are discrete, so a relative tolerance has no place here)
+      if not np.allclose(f,other.auxarrays[k], rtol=0): return False
 
     return True
   # }}}
-- 
2.43.0


From fcb0e8984154f7d8a71814f49c4ff4707cd96d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 018/135] fix: conform_values returned its axes in the opposite
 order when the second has more fields

---
 pygeode/timeutils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index 31de022..f41241a 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -149,7 +149,8 @@ def conform_values (taxis1, taxis2):
   allowed_fields = type(taxis1).allowed_fields
 
   # Make taxis1 be the one with the 'larger' set of fields
-  if set(taxis1.auxarrays.keys()) < set(taxis2.auxarrays.keys()):
+  swap = set(taxis1.auxarrays.keys()) < set(taxis2.auxarrays.keys())
+  if swap:
     taxis1, taxis2 = taxis2, taxis1
   assert set(taxis1.auxarrays.keys()) >= set(taxis2.auxarrays.keys()), "incompatible fields"
 
@@ -174,6 +175,8 @@ def conform_values (taxis1, taxis2):
   # Change the values of the first time axis
   taxis1 = type(taxis1)(units=units, startdate=startdate, **taxis1.auxarrays)
 
+  # Return the axes in the order they were given
+  if swap: return taxis2, taxis1
   return taxis1, taxis2
 # }}}
 
-- 
2.43.0


From dcdacc50e45c393a0633df48e528d3173bf600b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 019/135] fix: the documented date form '06:00:00 1 Jan 1979'
 was not recognised

---
 pygeode/pygrc       | 4 ++--
 pygeode/timeaxis.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygeode/pygrc b/pygeode/pygrc
index 72411b3..f9c08bc 100644
--- a/pygeode/pygrc
+++ b/pygeode/pygrc
@@ -60,7 +60,7 @@ CalendarTime.formatstr = $b $d, $Y $H:$M:$S
 #                         (1/24., '$H:$M',    '$d $b $Y'), # Larger than 1 hour
 #                         (0.   , '$H:$M:$S', '$d $b $Y')] # Less than 1 hour
 CalendarTime.parse_patterns =
-   ^((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2}))|^)(?P<day>\d{1,2}) (?P<month>[a-zA-Z]+) (?P<year>\d+)$
+   ^((?P<hour>\d{1,2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?\s+|^)(?P<day>\d{1,2}) (?P<month>[a-zA-Z]+) (?P<year>\d+)$
    ^(?P<year>\d+)(-(?P<month>\d{2})(-(?P<day>\d{2})(T(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?)?)?)?$
    ^(?P<year>\d+)(-(?P<day>\d{3})(T(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?)?)?$
 
@@ -70,7 +70,7 @@ Yearless.formatstr = day $d, $H:$M:$S
 #                     (1/24., '$H:$M',    'day $d'), # Larger than 1 hour
 #                     (0.  ,  '$H:$M:$S', 'day $d')] # Less than 1 hour
 Yearless.parse_patterns =
-   ^((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2}))|^)(?P<day>\d+)$
+   ^((?P<hour>\d{1,2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?\s+|^)(?P<day>\d+)$
    ^(?P<day>\d+)(T(?P<hour>\d{2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?)?$
 
 [Plotting]
diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index fb03835..de5afc2 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -346,7 +346,7 @@ class CalendarTime(Time):
           (0.  , '$H:$M:$S',  '$d $b $Y')] # Less than 1 hour
 
   # Regular expression used to parse times
-  parse_patterns = ['((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2}))|^)(?P<day>\d{1,2}) (?P<month>[a-zA-Z]+) (?P<year>\d+)']
+  parse_patterns = ['((?P<hour>\d{1,2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?\s+|^)(?P<day>\d{1,2}) (?P<month>[a-zA-Z]+) (?P<year>\d+)']
 
   allowed_fields = ('year', 'month', 'day', 'hour', 'minute', 'second')
 
@@ -1026,7 +1026,7 @@ class Yearless(CalendarTime):
   allowed_fields = ('day', 'hour', 'minute', 'second')
 
   # Regular expression used to parse times
-  parse_patterns = ['((?P<hour>\d{1,2}):(?P<minute>\d{2})(\s|:(?P<second>\d{2}))|^)(?P<day>\d{1,2})']
+  parse_patterns = ['((?P<hour>\d{1,2}):(?P<minute>\d{2})(:(?P<second>\d{2}))?\s+|^)(?P<day>\d{1,2})']
 
   _date_as_val = lib.date_as_val_yearless
   _val_as_date = lib.val_as_date_yearless
-- 
2.43.0


From da3e1a4f218c45c20a9bd32cb519ce8edd65cba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 020/135] fix: seasons of the standard calendar began a day
 early after February

---
 pygeode/timeaxis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index de5afc2..6f61db1 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -845,7 +845,11 @@ def makeSeasonalAxis(Base):
   # {{{
       import numpy as np
       year, month, day, hour, minute, second = Base._get_dates(dates)
-      doy = Base._getdoy(self, dates)         # Base season on day of the year (no support for leap years(!))
+      # Base season on day of the year, counted without leap days (29 February counts as 28 February)
+      noleap = {'year':year*0 + 1, 'month':month, 'day':day - ((month == 2) & (day == 29)),
+                'hour':hour, 'minute':minute, 'second':second}
+      startdate = {'year':1, 'month':1, 'day':0, 'hour':0, 'minute':0, 'second':0}
+      doy = Base.date_as_val(self, noleap, startdate, units='days')
 
       if hasattr(year, '__len__'):
         season = np.zeros(len(year), 'i')
-- 
2.43.0


From 7b41702bb194e28b9d54969a88a90d8116e0175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 021/135] fix: time statistics failed on integers, and lost
 precision or gave nan for single precision and constant series

---
 pygeode/climat.py | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/pygeode/climat.py b/pygeode/climat.py
index adda199..2f75825 100644
--- a/pygeode/climat.py
+++ b/pygeode/climat.py
@@ -54,7 +54,8 @@ def loopover(varlist, view, pbar):
   for i, (inv, climv) in enumerate(loop):
     subpbar = pbar.part(i, len(loop))
     data = [inv.get(var, pbar = subpbar.subset(prog[j],prog[j+1])) for j,var in enumerate(varlist)]
-    data = [np.ascontiguousarray(d) for d in data]
+    # (accumulate in double precision, whatever the type of the data)
+    data = [np.ascontiguousarray(d, dtype=np.result_type(d.dtype, 'float64')) for d in data]
     slices = list(climv.slices)
     slices[ti] = slice(None)
     yield slices, data, climv.integer_indices[ti]
@@ -182,7 +183,9 @@ class TimeOp(Var):
 
     axes = list(var.axes)
     axes[ti] = outtime
-    Var.__init__ (self, axes+list(self.extra_dims), dtype = var.dtype, atts=var.atts)
+    # (statistics of integers are not integers)
+    dtype = var.dtype if var.dtype.kind in 'fc' else 'float64'
+    Var.__init__ (self, axes+list(self.extra_dims), dtype = dtype, atts=var.atts)
 # }}}
 
 class Mean(TimeOp):
@@ -195,14 +198,14 @@ class Mean(TimeOp):
 
     ti = self.ti
 
-    sum = np.zeros (view.shape, self.dtype)
+    sum = np.zeros (view.shape, np.result_type(self.dtype, 'float64'))
     count = np.zeros (view.shape, dtype='int32')
 
     for slices, [data], bins in loopover (self.var, view, pbar):
       partial_sum (data, slices, sum, count, ti, bins)
 
     sum /= count
-    return sum
+    return sum.astype(self.dtype)
 # }}}
 
 class NANMean(TimeOp):
@@ -215,7 +218,7 @@ class NANMean(TimeOp):
 
     ti = self.ti
 
-    sum = np.zeros (view.shape, self.dtype)
+    sum = np.zeros (view.shape, np.result_type(self.dtype, 'float64'))
     count = np.zeros (view.shape, dtype='int32')
 
     for slices, [data], bins in loopover (self.var, view, pbar):
@@ -227,7 +230,7 @@ class NANMean(TimeOp):
       count[inodata] = np.nan
 
     sum /= count
-    return sum
+    return sum.astype(self.dtype)
 # }}}
 
 class Stdev(TimeOp):
@@ -240,8 +243,8 @@ class Stdev(TimeOp):
 
     ti = self.ti
 
-    xx = np.zeros (view.shape, self.dtype)
-    x = np.zeros (view.shape, self.dtype)
+    xx = np.zeros (view.shape, np.result_type(self.dtype, 'float64'))
+    x = np.zeros (view.shape, np.result_type(self.dtype, 'float64'))
     nx = np.zeros (view.shape, dtype='int32')
     nx2 = np.zeros (view.shape, dtype='int32')
 
@@ -250,8 +253,9 @@ class Stdev(TimeOp):
       partial_sum (data**2, slices, xx, nx2, ti, bins)
 
     x /= nx
-    var = (xx - nx*x**2) / (nx - 1)
-    return np.sqrt(var)
+    # (rounding may leave a small negative value if there is no spread)
+    var = np.maximum(xx - nx*x**2, 0) / (nx - 1)
+    return np.sqrt(var).astype(self.dtype)
 # }}}
 
 class NANStdev(TimeOp):
@@ -264,8 +268,8 @@ class NANStdev(TimeOp):
 
     ti = self.ti
 
-    xx = np.zeros (view.shape, self.dtype)
-    x = np.zeros (view.shape, self.dtype)
+    xx = np.zeros (view.shape, np.result_type(self.dtype, 'float64'))
+    x = np.zeros (view.shape, np.result_type(self.dtype, 'float64'))
     nx = np.zeros (view.shape, dtype='int32')
     nx2 = np.zeros (view.shape, dtype='int32')
 
@@ -279,8 +283,9 @@ class NANStdev(TimeOp):
       nx[inodata] = np.nan
 
     x /= nx
-    var = (xx - nx*x**2) / (nx - 1)
-    return np.sqrt(var)
+    # (rounding may leave a small negative value if there is no spread)
+    var = np.maximum(xx - nx*x**2, 0) / (nx - 1)
+    return np.sqrt(var).astype(self.dtype)
 # }}}
 
 class Count(TimeOp):
@@ -293,7 +298,7 @@ class Count(TimeOp):
 
     ti = self.ti
 
-    sum = np.zeros (view.shape, self.dtype)
+    sum = np.zeros (view.shape, np.result_type(self.dtype, 'float64'))
     count = np.zeros (view.shape, dtype='int32')
 
     for slices, [data], bins in loopover (self.var, view, pbar):
@@ -329,13 +334,13 @@ class Trend(TimeOp):
 
     cview = view.remove(Coef)  # view without regard to a 'coefficient' axis
 
-    X = np.zeros(cview.shape, self.dtype)
+    X = np.zeros(cview.shape, np.result_type(self.dtype, 'float64'))
     nX = np.zeros(cview.shape, int)
-    F = np.zeros(cview.shape, self.dtype)
+    F = np.zeros(cview.shape, np.result_type(self.dtype, 'float64'))
     nF = np.zeros(cview.shape, int)
-    XF = np.zeros(cview.shape, self.dtype)
+    XF = np.zeros(cview.shape, np.result_type(self.dtype, 'float64'))
     nXF = np.zeros(cview.shape, int)
-    X2 = np.zeros(cview.shape, self.dtype)
+    X2 = np.zeros(cview.shape, np.result_type(self.dtype, 'float64'))
     nX2 = np.zeros(cview.shape, int)
 
 
-- 
2.43.0


From df145649371fb12ed8c2d370ebb4826bf0e37f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 022/135] fix: variance and standard deviation lost single
 precision to cancellation, and could be negative

---
 pygeode/reduce.py | 51 +++++++++++++++++++----------------------------
 1 file changed, 20 insertions(+), 31 deletions(-)

diff --git a/pygeode/reduce.py b/pygeode/reduce.py
index f9ec79b..cdb6fdb 100644
--- a/pygeode/reduce.py
+++ b/pygeode/reduce.py
@@ -391,16 +391,18 @@ class VarianceVar(ReducedVar):
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npsum
-    x = np.zeros(view.shape, self.dtype)
-    x2 = np.zeros(view.shape, self.dtype)
+    # Single precision would be lost to cancellation in this single-pass routine
+    acc = np.result_type(self.dtype, 'float64')
+    x = np.zeros(view.shape, acc)
+    x2 = np.zeros(view.shape, acc)
     N = self.N
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
-      indata = np.asarray(indata, self.dtype)
+      indata = np.asarray(indata, acc)
       x[outsl] += npsum(indata, self.indices)  
       x2[outsl] += npsum(indata**2, self.indices)  
 
     x /= N
-    return (x2 - N*x**2) / (N - 1)
+    return np.asarray(np.maximum(x2 - N*x**2, 0) / np.float64(N - 1), self.dtype)
 # }}}
 class WeightedVarianceVar(ReducedVar):
 # {{{
@@ -421,17 +423,18 @@ class WeightedVarianceVar(ReducedVar):
   # {{{
     import numpy as np
     from pygeode.tools import loopover, npsum
-    x = np.zeros(view.shape, self.dtype)
-    x2 = np.zeros(view.shape, self.dtype)
-    W = np.zeros(view.shape, self.dtype)
+    acc = np.result_type(self.dtype, 'float64')
+    x = np.zeros(view.shape, acc)
+    x2 = np.zeros(view.shape, acc)
+    W = np.zeros(view.shape, acc)
     for outsl, (indata, inw) in loopover([self.var, self.mweights], view, self.var.axes, pbar=pbar):
-      indata = np.asarray(indata, self.dtype)
+      indata = np.asarray(indata, acc)
       x[outsl] += npsum(indata * inw, self.indices)  # Product of data and weights
       x2[outsl] += npsum(indata**2 * inw, self.indices)  # Product of data and weights
       f = indata.size / (inw.size * x[outsl].size)
       W[outsl] += npsum(inw, self.indices) * f # Sum of weights
 
-    return (x2 - x*x/W) / (W - 1)
+    return np.asarray(np.maximum(x2 - x*x/W, 0) / (W - 1), self.dtype)
   # }}}
 # }}}
 
@@ -442,21 +445,21 @@ class NANVarianceVar(ReducedVar):
   def getview (self, view, pbar):
     import numpy as np
     from pygeode.tools import loopover, npnansum
-    x  = np.zeros(view.shape, self.dtype)
-    x2 = np.zeros(view.shape, self.dtype)
-    N  = np.zeros(view.shape, self.dtype)
+    acc = np.result_type(self.dtype, 'float64')
+    x  = np.zeros(view.shape, acc)
+    x2 = np.zeros(view.shape, acc)
+    N  = np.zeros(view.shape, acc)
 
     out = np.zeros(view.shape, self.dtype)
 
     for outsl, (indata,) in loopover(self.var, view, pbar=pbar):
-      indata = np.asarray(indata, self.dtype)
+      indata = np.asarray(indata, acc)
       x[outsl] += npnansum(indata, self.indices)
       x2[outsl] += npnansum(indata**2, self.indices)  
       N[outsl] += npnansum(~np.isnan(indata), self.indices)
 
     nmsk = (N > 1.)
-    out[nmsk] = x2[nmsk] - x[nmsk]**2/N[nmsk]
-    out[nmsk] /= N[nmsk] - 1.
+    out[nmsk] = np.maximum(x2[nmsk] - x[nmsk]**2/N[nmsk], 0) / (N[nmsk] - 1.)
     out[~nmsk] = np.nan
 
     return out
@@ -467,27 +470,13 @@ class SDVar(VarianceVar):
 # {{{
   def getview (self, view, pbar):
     import numpy as np
-    variance = VarianceVar.getview (self, view, pbar)
-    # Very small variances may become negative due to numerical issues with
-    # the single-pass variance routine used.
-    if np.isscalar(variance):
-      if variance < 0.: variance = 0.
-    else:
-      variance[np.where(variance<=0)] = 0
-    return np.sqrt(variance)
+    return np.sqrt(VarianceVar.getview (self, view, pbar))
 # }}}
 class NANSDVar(NANVarianceVar):
 # {{{
   def getview (self, view, pbar):
     import numpy as np
-    variance = NANVarianceVar.getview (self, view, pbar)
-    # Very small variances may become negative due to numerical issues with
-    # the single-pass variance routine used.
-    if np.isscalar(variance):
-      if variance < 0.: variance = 0.
-    else:
-      variance[variance<=0] = 0
-    return np.sqrt(variance)
+    return np.sqrt(NANVarianceVar.getview (self, view, pbar))
 # }}}
 
 def min (var, *axes): 
-- 
2.43.0


From e6abc4b84203c560667ffb88a17ac8487c2571f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 023/135] fix: from_trend failed on coefficients with a
 degenerate year

---
 pygeode/climat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/climat.py b/pygeode/climat.py
index 2f75825..bfacb89 100644
--- a/pygeode/climat.py
+++ b/pygeode/climat.py
@@ -521,7 +521,7 @@ class from_trend (Var):
     if hasattr(coeft,'year'):
       import numpy as np
       from warnings import warn
-      if len(np.unique(coeft.year.values)) == 1:
+      if len(np.unique(coeft.year)) == 1:
         warn ("ignoring degenerate 'year' field", stacklevel=2)
         coeft = modify(coeft, exclude='year')
         coef = coef.replace_axes({Time:coeft})
-- 
2.43.0


From 84f7b6e2814ccf5acf69cfe77ef5bd42eea12ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 024/135] fix: clim_anoms, clim_detrend and time_ave called
 composite and regress with obsolete arguments

---
 pygeode/composite.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pygeode/composite.py b/pygeode/composite.py
index 8afc777..0f1e2f7 100644
--- a/pygeode/composite.py
+++ b/pygeode/composite.py
@@ -305,13 +305,14 @@ def clim_detrend(var, yrlen, itime = -1, sig=False):
   if itime == -1: itime = var.whichaxis(Time)
   tlen = var.shape[itime]
 
-  vary = composite(var, itime, list(range(0, tlen, yrlen)), yrlen)
+  vary = CompositeVar(var, itime, list(range(0, tlen, yrlen)), yrlen)
   yrs = vary.axes[itime]
   yrs.values=arange(len(yrs)).astype(yrs.dtype)
 
   print('Computing regression')
   from pygeode.progress import PBar
-  m, b, p = stats.regress(yrs, vary, pbar=PBar())
+  fit = stats.regress(yrs, vary, pbar=PBar())
+  m, b, p = fit.m, fit.b, fit.p
   varz = flatten(vary - (m*yrs + b), itime + 1)
 
   varz.axes = var.axes
@@ -336,10 +337,10 @@ def clim_anoms(var, yrlen, itime = -1):
   from pygeode.timeaxis import Time
   if itime == -1: itime = var.whichaxis(Time)
   tlen = (var.shape[itime] // yrlen) * yrlen
-  vary = composite(var, itime, list(range(0, tlen, yrlen)), yrlen)
+  vary = CompositeVar(var, itime, list(range(0, tlen, yrlen)), yrlen)
   varc = vary.mean(itime).load()
   varz = flatten(vary - varc, itime + 1)
-  varz.axes = var.axes
+  varz.axes = tuple(a.slice[:tlen] if i == itime else a for i, a in enumerate(var.axes))
   # Since the axes have been modified after initialization, redo the init to get
   # shortcuts to the axes names
   Var.__init__(varz, varz.axes, varz.dtype)
@@ -371,7 +372,7 @@ def time_ave(var, type, itime = -1):
   else:
     raise NotImplemented('Unrecognized type')
 
-  vary = composite(var, itime, list(range(0, tlen, ilen)), ilen)
+  vary = CompositeVar(var, itime, list(range(0, tlen, ilen)), ilen)
   varave = vary.mean(itime + 1)
   return varave
 # }}}
-- 
2.43.0


From 60cbc11fe34feffbccf30c93a9cf89ad1d2a9e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:59 +0000
Subject: [PATCH 025/135] fix: concat of segments sharing coordinates could not
 be read

---
 pygeode/concat.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pygeode/concat.py b/pygeode/concat.py
index ca8d737..55bfad9 100644
--- a/pygeode/concat.py
+++ b/pygeode/concat.py
@@ -80,23 +80,27 @@ class ConcatVar(Var):
               for n,i in enumerate(view.integer_indices[self.iaxis])]
       return np.concatenate(chunks, axis=self.iaxis)
     else:
-      chunks = []
-      # Construct maps to concatenated variables
-      out_ax = view.subaxis(self.iaxis)
-      subaxes = [v.axes[self.iaxis] for v in self.vars]
-      slices = [ax.map_to(out_ax) for ax in subaxes]
-      slice_lengths = [len(sl) for sl in slices]
-      N = float(np.sum(slice_lengths))
+      # Find which segment each requested position comes from
+      ind = np.asarray(view.integer_indices[self.iaxis])
+      lengths = [len(v.axes[self.iaxis]) for v in self.vars]
+      starts = np.cumsum([0] + lengths)
+      N = float(max(len(ind), 1))
       i = 0
 
-      for vr, ax, sl, n in zip(self.vars, subaxes, slices, slice_lengths):
+      chunks = []
+      order = []
+      for vr, start, length in zip(self.vars, starts, lengths):
+        pos = np.nonzero((ind >= start) & (ind < start + length))[0]
+        n = len(pos)
         if n > 0:
           # Get data from variables as needed
-          subview = view.replace_axis(self.iaxis, ax, sl)
+          subview = view.replace_axis(self.iaxis, vr.axes[self.iaxis], ind[pos] - start)
           chunks.append(subview.get(vr, strict = True, conform = False, pbar = pbar.subset(100.*i/N,100.*(i+n)/N)))
+          order.append(pos)
           i += n
 
-      return np.concatenate(chunks, axis=self.iaxis)
+      # Put the data back in the order it was requested
+      return np.concatenate(chunks, axis=self.iaxis).take(np.argsort(np.concatenate(order)), axis=self.iaxis)
 
 def concat (*vars, **kwargs):
   from pygeode.var import Var
-- 
2.43.0


From efb3dede33a59b9b8bffeb7af13f71eef53d638c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 026/135] fix: concat joined named axes of different names

---
 pygeode/concat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygeode/concat.py b/pygeode/concat.py
index 55bfad9..b22921c 100644
--- a/pygeode/concat.py
+++ b/pygeode/concat.py
@@ -21,6 +21,9 @@ class ConcatVar(Var):
     assert all(v.naxes == naxes for v in vars)
     for i in range(naxes):
       assert all(axes[i].isparentof(v.axes[i]) for v in vars)
+      # Named axes are only the same kind of axis if they share their name
+      if isinstance(axes[i], pygeode.axis.NamedAxis):
+        assert all(axes[i].name == v.axes[i].name for v in vars), "axes have different names"
 
     if iaxis is None:
       iaxis = []
-- 
2.43.0


From d721d22df830df6cd91115a41a54996922d178a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:09 +0000
Subject: [PATCH 027/135] fix: Lat(n) built from a length had no usable weights

---
 pygeode/axis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index 8f5a63f..d994c54 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -961,6 +961,8 @@ class Lat (YAxis):
     # If no input weights given, assume uniform
     #TODO: handle non-uniform latitudes?
     if weights is None:
+      # A single integer is expanded to an integer range
+      if isinstance(values,int): values = list(range(values))
       weights = cos(asarray(values) * pi / 180.)
 
     Axis.__init__(self, values, weights=weights, **kwargs)
-- 
2.43.0


From cd870f12270d4f41ed63affeae2c262aa44163dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 028/135] fix: Dataset.map refused callables that are not plain
 functions

---
 pygeode/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/dataset.py b/pygeode/dataset.py
index d66723c..2e30058 100644
--- a/pygeode/dataset.py
+++ b/pygeode/dataset.py
@@ -521,7 +521,7 @@ class Dataset(object):
       assert hasattr(f,'__call__'), "Var.%s is not a function"%fname
       del fname
     # Allow the function to gracefully fail on vars it can't be applied to.
-    if 'ignore_mismatch' in f.__code__.co_varnames:
+    if hasattr(f,'__code__') and 'ignore_mismatch' in f.__code__.co_varnames:
       kwargs['ignore_mismatch'] = True
     varlist = [f(v, *args, **kwargs) for v in self.vars]
     varlist = [v for v in varlist if v is not None]
-- 
2.43.0


From 64495b518d44a005e8907735dde806007e1939d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 029/135] fix: slicing an axis with repeated coordinates
 returned the wrong elements

---
 pygeode/varoperations.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pygeode/varoperations.py b/pygeode/varoperations.py
index 64832b3..adee13e 100644
--- a/pygeode/varoperations.py
+++ b/pygeode/varoperations.py
@@ -496,6 +496,7 @@ class SlicedVar(Var):
 
   def __init__ (self, var, slices):
   # {{{
+    import numpy as np
     from pygeode.var import Var, copy_meta
     self.var = var
     copy_meta (var, self)
@@ -525,12 +526,18 @@ class SlicedVar(Var):
     # Slice the output axes
     axes = [a.slice[s] for a,s in zip(var.axes,slices)]
 
+    # Positions of the selected elements along the input axes
+    # (the coordinates alone don't identify them if some are repeated)
+    self.indices = [np.array(np.arange(len(a))[s], ndmin=1) for a,s in zip(var.axes,slices)]
+
     Var.__init__(self, axes, dtype=var.dtype, atts=self.atts, plotatts=self.plotatts)
   # }}}
 
   def getview (self, view, pbar):
   # {{{
-    return view.get(self.var, pbar=pbar)
+    from pygeode.view import View
+    indices = [pos[ind] for pos,ind in zip(self.indices, view.integer_indices)]
+    return View(self.var.axes, force_integer_indices=indices).get(self.var, pbar=pbar)
   # }}}
 # }}}
 
-- 
2.43.0


From 4e4a2a7ec48a416eedceb7985f475f54afaa883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:14 +0000
Subject: [PATCH 030/135] fix: selections with the coordinates of the whole
 axis were ignored

---
 pygeode/axis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index d994c54..d9b1acb 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -360,7 +360,9 @@ class Axis(Var):
     values = np.array(self.values[slices], ndmin=1, copy=False)
 
     # Check if we even need to do any slicing
-    if len(values) == len(self.values) and np.all(values==self.values): return self
+    # (compare positions, different selections can have the same coordinates)
+    indices = np.arange(len(self.values))
+    if np.array_equal(np.array(indices[slices], ndmin=1), indices): return self
 
     aux = {}
 
-- 
2.43.0


From e931ddec61fc46c31a48ea84f55e9eccc266003d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:43 +0000
Subject: [PATCH 031/135] fix: unfill compared values after converting them to
 float32

---
 pygeode/varoperations.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pygeode/varoperations.py b/pygeode/varoperations.py
index adee13e..f11c0c4 100644
--- a/pygeode/varoperations.py
+++ b/pygeode/varoperations.py
@@ -602,9 +602,13 @@ class UnfillVar(Var):
     copy_meta (var, self)
   def getview(self, view, pbar):
     import numpy as np
-    data = view.get(self.var, pbar=pbar).copy()
-    data = np.asarray(data, self.dtype)
-    data[np.where(data == self._fill)] = float('NaN')
+    data = view.get(self.var, pbar=pbar)
+    # Compare in the type of the input (converting it first could change the values)
+    fill = self._fill
+    if issubclass(data.dtype.type, np.floating): fill = data.dtype.type(fill)
+    missing = np.where(data == fill)
+    data = np.array(data, self.dtype)
+    data[missing] = float('NaN')
     return data
 
 def unfill (self, fill):
-- 
2.43.0


From 5348ef3338261e1b9b4fbfe4031c1acb5ac8b9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 032/135] fix: sorted lost data along axes with repeated
 coordinates

---
 pygeode/varoperations.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pygeode/varoperations.py b/pygeode/varoperations.py
index f11c0c4..2185983 100644
--- a/pygeode/varoperations.py
+++ b/pygeode/varoperations.py
@@ -185,15 +185,21 @@ class SortedVar(Var):
     self.var = var
     outaxes = list(var.axes)
 
+    # Keep track of where the elements are along the unsorted axes
+    # (the coordinates alone don't identify them if some are repeated)
+    self.indices = {}
     for iaxis, o in order.items():
       reverse = {1:False, 0:None, -1:True}[o]
-      outaxes[iaxis] = var.axes[iaxis].sorted(reverse=reverse)
+      self.indices[iaxis] = var.axes[iaxis].argsort(reverse=reverse)
+      outaxes[iaxis] = var.axes[iaxis].slice[self.indices[iaxis]]
 
     Var.__init__(self, outaxes, dtype=var.dtype)
     copy_meta (var, self)
   def getview (self, view, pbar):
-    r = view.get(self.var, pbar=pbar)
-    return r
+    from pygeode.view import View
+    indices = list(view.integer_indices)
+    for iaxis, S in self.indices.items(): indices[iaxis] = S[indices[iaxis]]
+    return View(self.var.axes, force_integer_indices=indices).get(self.var, pbar=pbar)
 #TODO: rename to sort_by_axis
 def sorted (self, *iaxes, **kwargs):
   """
-- 
2.43.0


From c9962f841e3fd0556136338c98f71b12060ff393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:28 +0000
Subject: [PATCH 033/135] fix: fill and unfill failed on variables without axes

---
 pygeode/varoperations.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pygeode/varoperations.py b/pygeode/varoperations.py
index 2185983..473d197 100644
--- a/pygeode/varoperations.py
+++ b/pygeode/varoperations.py
@@ -563,10 +563,9 @@ class FillVar(Var):
     copy_meta(var, self)
   def getview (self, view, pbar):
     import numpy as np
-    data = view.get(self.var, pbar=pbar).copy()
+    data = np.array(view.get(self.var, pbar=pbar))
 #    data[where(data == float('NaN'))] = self.fill
-    w = np.where(np.isnan(data))
-    data[w] = self._fill
+    data[np.isnan(data)] = self._fill
     return data
 
 def fill (self, fill):
@@ -612,7 +611,7 @@ class UnfillVar(Var):
     # Compare in the type of the input (converting it first could change the values)
     fill = self._fill
     if issubclass(data.dtype.type, np.floating): fill = data.dtype.type(fill)
-    missing = np.where(data == fill)
+    missing = (data == fill)
     data = np.array(data, self.dtype)
     data[missing] = float('NaN')
     return data
-- 
2.43.0


From 456ee420a3ee3fe1baaaf83c92022ab88ba1b469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 034/135] fix: lag could not be evaluated (lists used as
 multi-dimensional indices)

---
 pygeode/timeutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index f41241a..b2157f5 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -335,9 +335,9 @@ class LagVar(Var):
       insl[self.iaxis] = tind[ivalid] + l - imin
       outsl[self.iaxis] = ivalid
       outsl[self.iaxis+1] = i
-      out[outsl] = src[insl]
+      out[tuple(outsl)] = src[tuple(insl)]
       outsl[self.iaxis] = np.where(~valid)[0]
-      out[outsl] = np.nan
+      out[tuple(outsl)] = np.nan
     
     return out
   # }}}
-- 
2.43.0


From b854d02fc3ca3063c1df02492fe4723d7c6f9801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 035/135] fix: split and joined time axes could not be read
 (lists used as multi-dimensional indices)

---
 pygeode/timeutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index b2157f5..5b5b7ea 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -469,7 +469,7 @@ class SplitTime (Var):
     out = out.reshape(squished_shape)
     sl = [slice(None)] * out.ndim
     sl[iaxis] = out_sl
-    out[sl] = indata
+    out[tuple(sl)] = indata
 
     # Restore the shape
     out = out.reshape(view.shape)
@@ -555,7 +555,7 @@ class JoinTime(Var):
     # Slice out what we actually wanted from this
     slices = [slice(None)] * data.ndim
     slices[taxis] = uber_time.map_to(times)
-    return data[slices]
+    return data[tuple(slices)]
 # }}}
 # }}}
 
-- 
2.43.0


From 2931b99b2e09d711b76870456adf2cea08703641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 036/135] fix: fft_smooth of complex data could not be
 evaluated (list used as a multi-dimensional index)

---
 pygeode/fft_smooth.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygeode/fft_smooth.py b/pygeode/fft_smooth.py
index 1482b1c..4199250 100644
--- a/pygeode/fft_smooth.py
+++ b/pygeode/fft_smooth.py
@@ -38,6 +38,7 @@ class FFTSmoothVar (Var):
     if 'complex' in self.dtype.name:
       ct=fft.fft(src,self.shape[saxis],saxis)
       smsl=[ slice(maxharm,-maxharm+1) if i == saxis else slice(None) for i in range(self.naxes)]
+      smsl = tuple(smsl)
       ct[smsl]=0
       st = fft.ifft(ct, self.shape[saxis], saxis)
     else:
-- 
2.43.0


From b78b650373e507f9204de5f1d0efc21ba49e6467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 037/135] fix: correlate failed when every axis is shared

---
 pygeode/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index b14b690..6b36a86 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -133,7 +133,7 @@ def correlate(X, Y, axes=None, output = 'r,p', pbar=None):
 
   rho[dmsk] = xy[dmsk] / np.sqrt(xx*yy)[dmsk]
 
-  den = 1 - rho**2
+  den = np.asarray(1 - rho**2)
   # Saturate the denominator (when correlation is perfect) to avoid div by zero warnings
   eps = 1e-8
   den[den < eps] = eps
-- 
2.43.0


From 16792b596f1b49be0f0597f2abcd569773f9a552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 038/135] fix: flattened variables returned wrong elements or
 failed for strided and listed selections

---
 pygeode/composite.py | 52 +++++++++-----------------------------------
 1 file changed, 10 insertions(+), 42 deletions(-)

diff --git a/pygeode/composite.py b/pygeode/composite.py
index 0f1e2f7..4314350 100644
--- a/pygeode/composite.py
+++ b/pygeode/composite.py
@@ -242,53 +242,21 @@ class FlattenVar(Var):
 
   def getview (self, view, pbar):
   # {{{
-    # TODO: handle strides, random access...
+    import numpy as np
     io = self.iout  # Index of outer axis in source var
     ii = self.iin   # Index of inner axis in source var
     ifl = self.iout # Index of flattened axis
-    stride = self.stride
     src = self.source_var
 
-    import numpy as np
-    out = np.empty(view.shape, self.dtype)
-    slf = view.slices[ifl]  # Again, need these indices in the space of the variable (?)
-    slo = slice(int(np.floor(slf.start / float(stride))),
-                          int(np.ceil(slf.stop / float(stride))))
-
-    inviewt = view.replace_axis(ifl, src.axes[io], slice(None))
-    inviewt = inviewt.add_axis(ii, src.axes[ii], slice(None))
-
-    sllen = lambda sl: sl.stop-sl.start
-    if sllen(slo) == 1: # Request lies within a single stride
-      # Build inner slice
-      sli = slice(slf.start - slo.start * stride, slf.stop - slo.start * stride)
-
-      # Set bounds on inner view
-      inview = inviewt.modify_slice(io, slo).modify_slice(ii, sli)
-
-      return inview.get(src, pbar=pbar.subset(0, 100)).reshape(view.shape) # Get data, reshape
-    else:     # Request spans multiple strides;
-      # Need to get interior slice, initial and final partial strides
-      # Build slices
-      slos = [slice(slo.start, slo.start + 1),  # Initial
-              slice(slo.start + 1, slo.stop - 1),  # Interior (should be degenerate if slo.cnt=2)
-              slice(slo.stop - 1, slo.stop)]  # Final
-
-      slis = [slice(slf.start - slo.start * stride, stride),
-              slice(0, stride),
-              slice(0, slf.stop - (slo.stop - 1) * stride)]
-
-      # Compute appropriate shape of each request
-      shp = list(view.shape)
-      shapes = [list(shp) for shp[ifl] in [sllen(slis[0]), sllen(slos[1]) * stride, sllen(slis[2])]]
-      progs = np.cumsum([0] + [s[io] for s in shapes])
-      progs = [(100.*progs[i]/progs[-1], 100.*progs[i+1]/progs[-1]) for i in range(len(progs) - 1)]
-
-      # Construct views
-      inviews = [inviewt.modify_slice(io, slo).modify_slice(ii, sli) for slo, sli in zip(slos, slis)]
-
-      # Get data, reshape, concatenate along flattened axis
-      return np.concatenate([inv.get(src, pbar=pbar.subset(*p)).reshape(shp) for inv, shp, p in zip(inviews, shapes, progs)], ifl)
+    # Indices of the requested elements along the outer and inner axes
+    ind = view.integer_indices[ifl]
+    outer, iouter = np.unique(ind // self.stride, return_inverse=True)
+    inner, iinner = np.unique(ind % self.stride, return_inverse=True)
+
+    # Get all the combinations, and pick the requested ones
+    inview = view.replace_axis(ifl, src.axes[io], outer).add_axis(ii, src.axes[ii], inner)
+    data = inview.get(src, pbar=pbar)
+    return data[(slice(None),)*io + (iouter, iinner)]
   # }}}
 
 def flatten (var, inner = -1, naxis=None):
-- 
2.43.0


From 41d056f61cc6ef8148152f7f9d64e8c1e71f7cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 039/135] fix: statistics of variables with repeated
 coordinates returned wrong elements when read in parts

---
 pygeode/climat.py |  5 +++++
 pygeode/tools.py  | 23 ++++++++++++-----------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/pygeode/climat.py b/pygeode/climat.py
index bfacb89..7b2e17e 100644
--- a/pygeode/climat.py
+++ b/pygeode/climat.py
@@ -19,6 +19,7 @@ from pygeode.var import Var
 # - bins along the time axis for reducing the data chunk
 def loopover(varlist, view, pbar):
   from pygeode.timeaxis import Time
+  from pygeode.view import View
   import numpy as np
   
 
@@ -28,6 +29,7 @@ def loopover(varlist, view, pbar):
   # clip the output view so there is nothing 'outside' of the selected region
   # (so we can use the slices of the current view chunk as a 1:1 correspondence to
   #  the slices into the accumulation array)
+  outview = view
   view = view.clip()
 
   # map the climatology axis to the non-climatology axis
@@ -53,6 +55,9 @@ def loopover(varlist, view, pbar):
   prog = np.cumsum([0.]+sizes) / np.sum(sizes) * 100
   for i, (inv, climv) in enumerate(loop):
     subpbar = pbar.part(i, len(loop))
+    # Refer back to the whole axes (the clipped ones can't be mapped by coordinate if these are repeated)
+    inds = [ind if j == ti else outview.integer_indices[j][ind] for j,ind in enumerate(inv.integer_indices)]
+    inv = View([t if j == ti else a for j,a in enumerate(outview.axes)], inds)
     data = [inv.get(var, pbar = subpbar.subset(prog[j],prog[j+1])) for j,var in enumerate(varlist)]
     # (accumulate in double precision, whatever the type of the data)
     data = [np.ascontiguousarray(d, dtype=np.result_type(d.dtype, 'float64')) for d in data]
diff --git a/pygeode/tools.py b/pygeode/tools.py
index 602f3ca..6b62192 100644
--- a/pygeode/tools.py
+++ b/pygeode/tools.py
@@ -412,28 +412,29 @@ def loopover (vars, outview, inaxes=None, preserve=None, pbar=None):
     the accumulation array'''
 
   from pygeode.var import Var
+  from pygeode.view import View
   # Make vars a list if it isn't already
   if isinstance(vars,Var): vars = [vars]
 
-  # clip the output view so there is nothing 'outside' of the selected region
-  # (so we can use the slices of the current view chunk as a 1:1 correspondence to
-  #  the slices into the accumulation array)
-  outview = outview.clip()
-
   # Get the corresponding view for the input var(s)
   # (get entire axis for all reduced axis)
   if inaxes is None:
     assert len(vars) == 1, 'Implicit reduction axes (inaxes=None) can only be used when looping over one variable.'
     inaxes = vars[0].axes
 
-  inview = outview.map_to(inaxes, strict=False)
+  order = []
+  inview = outview.map_to(inaxes, strict=False, order=order)
+  assert -1 not in order, "Can't map from %s to %s"%(inview.axes, outview.axes)
 
   # Break the input view up into memory-friendly chunks
-  loop = list(inview.loop_mem(preserve=preserve))
-  for i, inv in enumerate(loop):
+  # (keep track of the positions within the view, they have a 1:1 correspondence to the accumulation array;
+  #  the coordinates may not, if they are repeated)
+  loop = list(View([list(range(n)) for n in inview.shape]).loop_mem(preserve=preserve))
+  for i, chunk in enumerate(loop):
+    pos = chunk.integer_indices
+    inv = View(inaxes, [ind[p] for ind,p in zip(inview.integer_indices, pos)])
     # Get same view, but in output space (drop the reduced axes)
-    outv = inv.map_to(outview.axes)
-#    print '??', repr(str(inv))
+    outsl = tuple([chunk.slices[o] for o in order])
     subpbar = pbar.part(i,len(loop))
     data = []
     for j,v in enumerate(vars):
@@ -446,7 +447,7 @@ def loopover (vars, outview, inaxes=None, preserve=None, pbar=None):
         data.append(inv.get(v, pbar=vpbar))
       except StopIteration:
         raise Exception ("Stray StopIteration signal caught.  Unable to retrieve the data.")
-    yield outv.slices, data
+    yield outsl, data
 # }}}
 
 # Partial sum along an axis
-- 
2.43.0


From 06e5c7c0f448c04625b69391d6e5fd45a4d89e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:13 +0000
Subject: [PATCH 040/135] fix: replace_axes modified the list of axes passed by
 the caller

---
 pygeode/varoperations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygeode/varoperations.py b/pygeode/varoperations.py
index 473d197..eb1dd4f 100644
--- a/pygeode/varoperations.py
+++ b/pygeode/varoperations.py
@@ -287,6 +287,7 @@ class Replace_axes (Var):
       newaxes = list(var.axes)
     else:
       assert len(newaxes) == var.naxes, "wrong number of axes provided"
+      newaxes = list(newaxes)  # don't modify the caller's list
 
     for a,newa in axisdict.items():
       if not var.hasaxis(a) and ignore_mismatch: continue
-- 
2.43.0


From a37c41b37655a4237dd8833807ca872470334ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:46 +0000
Subject: [PATCH 041/135] fix: derivatives of integer variables were truncated
 to integers, second derivative of two values was wrong

---
 pygeode/deriv.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pygeode/deriv.py b/pygeode/deriv.py
index 3ef8cc8..1b018c6 100644
--- a/pygeode/deriv.py
+++ b/pygeode/deriv.py
@@ -38,7 +38,9 @@ class DerivativeVar (Var):
     else:
       name = 'd(UnknownVar)'
 
-    Var.__init__(self, var.axes, var.dtype, name=name, atts=var.atts, plotatts=var.plotatts)
+    # Derivatives of integer data are not integers
+    dtype = var.dtype if var.dtype.kind in 'fc' else 'd'
+    Var.__init__(self, var.axes, dtype, name=name, atts=var.atts, plotatts=var.plotatts)
   # }}}
 
   def getview (self, view, pbar):
@@ -77,7 +79,7 @@ class DerivativeVar (Var):
     allview = view.modify_slice(daxis, allpoints)
 
     # Get the data and axis values for these points
-    allvalues = allview.get(self.var, pbar=pbar)
+    allvalues = np.asarray(allview.get(self.var, pbar=pbar), self.dtype)
     allaxis = allview.get(self.dx)
 
     # Define a map from these unique points back to the left & right arrays
@@ -109,7 +111,7 @@ class SecondDerivativeVar (Var):
     from pygeode.var import Var
 
     self.daxis = daxis = var.whichaxis(daxis)
-    assert var.shape[daxis] > 1, "need at least two values along differentiation axis"
+    assert var.shape[daxis] > 2, "need at least three values along differentiation axis"
 
     if dx is not None:
       if dx.naxes == 1:
@@ -132,7 +134,9 @@ class SecondDerivativeVar (Var):
     else:
       name = 'd2(UnknownVar)'
 
-    Var.__init__(self, var.axes, var.dtype, name=name, atts=var.atts, plotatts=var.plotatts)
+    # Derivatives of integer data are not integers
+    dtype = var.dtype if var.dtype.kind in 'fc' else 'd'
+    Var.__init__(self, var.axes, dtype, name=name, atts=var.atts, plotatts=var.plotatts)
   # }}}
 
   def getview (self, view, pbar):
@@ -161,7 +165,7 @@ class SecondDerivativeVar (Var):
     allview = view.modify_slice(daxis, allpoints)
 
     # Get the data and axis values for these points
-    allvalues = allview.get(self.var, pbar=pbar)
+    allvalues = np.asarray(allview.get(self.var, pbar=pbar), self.dtype)
     allaxis = allview.get(self.dx)
 
     # Define a map from these unique points back to the left & right arrays
-- 
2.43.0


From 1629b2fd71e21cb78c2d47beb55514fbc352d1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:46 +0000
Subject: [PATCH 042/135] fix: difference of order zero was empty

---
 pygeode/diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/diff.py b/pygeode/diff.py
index 855b9ae..9cce616 100644
--- a/pygeode/diff.py
+++ b/pygeode/diff.py
@@ -33,7 +33,7 @@ class ForwardDifferenceVar (Var):
     if df == 'left':
       axes[daxis] = axes[daxis].slice[n:]
     else:
-      axes[daxis] = axes[daxis].slice[:-n]
+      axes[daxis] = axes[daxis].slice[:len(axes[daxis])-n]
 
     Var.__init__(self, axes, var.dtype, name=name, atts=var.atts, plotatts=var.plotatts)
   # }}}
-- 
2.43.0


From e7184e54d78ee8660af1e6eda43387847fc6a30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:24 +0000
Subject: [PATCH 043/135] fix: cumsum left out the first element

---
 pygeode/intgr.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pygeode/intgr.py b/pygeode/intgr.py
index 1f43613..31396d5 100644
--- a/pygeode/intgr.py
+++ b/pygeode/intgr.py
@@ -15,8 +15,8 @@ class IntegrateVar (Var):
 
     iaxis = var.whichaxis(iaxis)
     self.iaxis = iaxis
-    if var.shape[iaxis] < 2:
-      raise ValueError('At least two values are needed to integrate %s along axis %s' % (var.name, var.axis[iaxis]))
+    if var.shape[iaxis] < 2 and type != 'cumsum':
+      raise ValueError('At least two values are needed to integrate %s along axis %s' % (var.name, var.axes[iaxis]))
 
     self.var = var
 
@@ -100,9 +100,12 @@ class IntegrateVar (Var):
     elif self.type == 'rectr':
       dat = np.concatenate([d0, (d*data[sl2])[slr]], iaxis)
     elif self.type == 'cumsum':
-      dat = np.concatenate([d0, (data[sl2])[slr]], iaxis)
+      dat = np.concatenate([d0, data[slr]], iaxis)
 
-    out = np.add.accumulate(dat, iaxis, 'd')[slr]
+    out = np.add.accumulate(dat, iaxis, self.dtype)
+    # The first element of a cumulative sum is part of the sum
+    if self.type == 'cumsum': out = out[sl2]
+    out = out[slr]
 
     # Select the requested values along the integration axis
     sl1 = list(sl1)
-- 
2.43.0


From 2756b9fbddd30edecaf6af4c2800888d3a537a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:24 +0000
Subject: [PATCH 044/135] fix: integrals of integer variables overflowed, and
 of complex variables lost the imaginary part

---
 pygeode/intgr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygeode/intgr.py b/pygeode/intgr.py
index 31396d5..0b1d2b7 100644
--- a/pygeode/intgr.py
+++ b/pygeode/intgr.py
@@ -55,7 +55,8 @@ class IntegrateVar (Var):
     else:
       name = 'i(UnknownVar)'
 
-    Var.__init__(self, var.axes, dtype='d', name=name)
+    dtype = 'D' if var.dtype.kind == 'c' else 'd'
+    Var.__init__(self, var.axes, dtype=dtype, name=name)
   # }}}
 
   def getview (self, view, pbar):
@@ -68,7 +69,7 @@ class IntegrateVar (Var):
 
     # Get all data along the integration axis
     inview = view.unslice(iaxis)
-    data = inview.get(self.var, pbar=pbar.subset(0, 70))
+    data = np.asarray(inview.get(self.var, pbar=pbar.subset(0, 70)), self.dtype)
 
     # Get initial values
     shp = [s if i != iaxis else 1 for i, s in enumerate(view.shape)]
-- 
2.43.0


From 728cc3ac1359f6c32ec8a854ab8ce2551ed28d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:06 +0000
Subject: [PATCH 045/135] fix: smoothing truncated integer variables and
 ignored kernels of two points

---
 pygeode/smooth.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pygeode/smooth.py b/pygeode/smooth.py
index c0c70dc..75ad452 100644
--- a/pygeode/smooth.py
+++ b/pygeode/smooth.py
@@ -40,7 +40,9 @@ class SmoothVar (Var):
       except TypeError:
         self._convolve = sg.convolve
 
-    Var.__init__(self, var.axes, var.dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+    # Averages of integer data are not integers
+    dtype = var.dtype if var.dtype.kind in 'fc' else 'd'
+    Var.__init__(self, var.axes, dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
   # }}}
 
   def getview (self, view, pbar):
@@ -78,7 +80,7 @@ class SmoothVar (Var):
 
     for outsl, (indata,) in loopover(self.var, aview, preserve=[saxis], pbar=pbar):
       src_shape = indata.shape[:saxis] + (src_saxislen,) + indata.shape[saxis+1:]
-      src = np.zeros(src_shape, self.var.dtype)
+      src = np.zeros(src_shape, self.dtype)
       sslo[saxis] = slice(mleft_len, src_saxislen - mright_len)
       src[tuple(sslo)] = indata
 
@@ -139,9 +141,11 @@ def smooth(var, saxis, kernel=15, fft=True):
   if hasattr(kernel, '__len__'):
     kernel = np.array(kernel, dtype='d')
   else:
+    # Hanning windows of up to two points have no effect
+    if kernel <= 2: return var
     kernel = np.hanning(kernel)
 
-  if len(kernel) <= 2:
+  if len(kernel) == 1:
     return var
 
   return SmoothVar(var, var.whichaxis(saxis), kernel, fft=fft)
-- 
2.43.0


From 1bb321cde2acb9250b50db55fe2aa874118daafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:06 +0000
Subject: [PATCH 046/135] fix: Fourier smoothing truncated integer variables,
 and kept wrong harmonics of complex data for a small maxharm

---
 pygeode/fft_smooth.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygeode/fft_smooth.py b/pygeode/fft_smooth.py
index 4199250..578e299 100644
--- a/pygeode/fft_smooth.py
+++ b/pygeode/fft_smooth.py
@@ -12,7 +12,9 @@ class FFTSmoothVar (Var):
     self.saxis = saxis
     self.var = var
     self.maxharm = maxharm
-    Var.__init__(self, var.axes, var.dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+    # Filtered integer data are not integers
+    dtype = var.dtype if var.dtype.kind in 'fc' else 'd'
+    Var.__init__(self, var.axes, dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
   # }}}
 
   def getview (self, view, pbar):
@@ -37,7 +39,7 @@ class FFTSmoothVar (Var):
     from numpy import fft
     if 'complex' in self.dtype.name:
       ct=fft.fft(src,self.shape[saxis],saxis)
-      smsl=[ slice(maxharm,-maxharm+1) if i == saxis else slice(None) for i in range(self.naxes)]
+      smsl=[ slice(maxharm,self.shape[saxis]-maxharm+1) if i == saxis else slice(None) for i in range(self.naxes)]
       smsl = tuple(smsl)
       ct[smsl]=0
       st = fft.ifft(ct, self.shape[saxis], saxis)
-- 
2.43.0


From 7192bacf403378265e7e40832bc32859b3aac2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:30 +0000
Subject: [PATCH 047/135] fix: composites returned values outside the event
 windows, or failed, for events near the ends of the axis

---
 pygeode/composite.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/pygeode/composite.py b/pygeode/composite.py
index 4314350..7d0675e 100644
--- a/pygeode/composite.py
+++ b/pygeode/composite.py
@@ -40,11 +40,10 @@ class CompositeVar(Var):
     # Event lengths can either be specified per event or as a single length
     if hasattr(evlen, '__len__'):
       evlen = np.array(evlen)
-      mevlen = (evlen - evoff + mevoff).max()
       assert evlen.shape == ievents.shape, "The number of event lengths provided does not match the number of events."
     else:
-      mevlen = evlen
-      evlen = np.ones(n, 'i') * mevlen
+      evlen = np.ones(n, 'i') * evlen
+    mevlen = (evlen - evoff + mevoff).max()
 
     # Construct event and offset axes
     from pygeode.timeaxis import Time, Yearless
@@ -66,15 +65,6 @@ class CompositeVar(Var):
     self.evoffs = evoff
     self.mevoff = mevoff
 
-    for i, (iev, el, eo) in enumerate(zip(ievents, evlen, evoff)):
-      if iev - eo < 0:
-         self.evoffs[i] += iev - eo
-         self.evlens[i] -= iev - eo
-      if iev - eo + el >= len(caxis):
-         self.evlens[i] = len(caxis) - (iev - eo)
-
-      #assert iev - eo >= 0 and iev - eo + el < len(caxis), \
-         #'Event %d (i: %d) is not fully defined' % (np.where(ievents==iev)[0][0], iev)
     Var.__init__(self, axes, dtype=var.dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
   #}}}
 
@@ -106,8 +96,8 @@ class CompositeVar(Var):
 
     progs = np.linspace(0, 100, n+1)
     for i, ev, el, eo in zip(np.arange(n), events, evlens, evoffs):
-      # Construct slice on composite variable for this event
-      mask = (icmsl >= -eo) & (icmsl < el-eo)
+      # Construct slice on composite variable for this event; omit what lies past the ends of the axis
+      mask = (icmsl >= -eo) & (icmsl < el-eo) & (icmsl + ev >= 0) & (icmsl + ev < len(src.axes[icm]))
       icsl = icmsl[mask] + ev
       inview = inviewt.modify_slice(icm, icsl)
 
-- 
2.43.0


From 19dcd712eae5729bfab233464de28a308b8e4c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:30 +0000
Subject: [PATCH 048/135] fix: composites, lags and split time axes of integer
 variables could not be evaluated

---
 pygeode/composite.py | 4 +++-
 pygeode/timeutils.py | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pygeode/composite.py b/pygeode/composite.py
index 7d0675e..a440f41 100644
--- a/pygeode/composite.py
+++ b/pygeode/composite.py
@@ -65,7 +65,9 @@ class CompositeVar(Var):
     self.evoffs = evoff
     self.mevoff = mevoff
 
-    Var.__init__(self, axes, dtype=var.dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+    # Missing values can't be represented by integers
+    dtype = var.dtype if var.dtype.kind in 'fc' else 'd'
+    Var.__init__(self, axes, dtype=dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
   #}}}
 
   def getview (self, view, pbar):
diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index 5b5b7ea..623e3cd 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -309,7 +309,9 @@ class LagVar(Var):
     axes = var.axes[:self.iaxis+1] + (lag, ) + var.axes[self.iaxis+1:]
     self.var = var
 
-    Var.__init__(self, axes, dtype=var.dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
+    # Missing values can't be represented by integers
+    dtype = var.dtype if var.dtype.kind in 'fc' else 'd'
+    Var.__init__(self, axes, dtype=dtype, name=var.name, atts=var.atts, plotatts=var.plotatts)
   # }}}
 
   def getview (self, view, pbar):
@@ -429,7 +431,9 @@ class SplitTime (Var):
 
     copy_meta(var,self)
 
-    Var.__init__(self, axes=axes, dtype=var.dtype)
+    # Missing values can't be represented by integers
+    dtype = var.dtype if var.dtype.kind in 'fc' else 'd'
+    Var.__init__(self, axes=axes, dtype=dtype)
 
     self.iaxis = iaxis
     self.var = var
-- 
2.43.0


From 7983e47ada99c4cccd6616e626b72ee1a83ea659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:51 +0000
Subject: [PATCH 049/135] fix: lag axes were named time, like the axis they are
 added to

---
 pygeode/timeutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index 623e3cd..d67c4bf 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -305,7 +305,7 @@ class LagVar(Var):
       lags = lags[::-1]
     
     self.lags = np.array(lags).astype('i')
-    lag = Lag(values = delt*self.lags, units=taxis.units, startdate={'day':0})
+    lag = Lag(values = delt*self.lags, units=taxis.units, startdate={'day':0}, name='lag')
     axes = var.axes[:self.iaxis+1] + (lag, ) + var.axes[self.iaxis+1:]
     self.var = var
 
-- 
2.43.0


From f61b905cf79787c5a3a0072f20d2836f96cf765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:32 +0000
Subject: [PATCH 050/135] fix: interpolation decided the direction of all
 profiles from the first one, and failed without an error when that had no
 valid points

---
 pygeode/interp.c | 51 ++++++++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/pygeode/interp.c b/pygeode/interp.c
index 03d0066..50bda70 100644
--- a/pygeode/interp.c
+++ b/pygeode/interp.c
@@ -36,30 +36,7 @@ int interpgsl (int narrays, int nxin, int nxout,
 
   int i, j, n, start, end, step, status; 
   double *local_xin, *local_xout, *local_yin;
-  double dx, xmin, ymin, xmax, ymax;
-
-  // Check the order of the x coordinates
-  // If the order seems to be reversed, then flip the sign of the coordinates
-  if (nxin > 1) {
-    i = 0;
-    do {
-      dx = xin[i + 1] - xin[i];
-    } while (!isfinite(dx) && ++i < nxin);
-  } else {
-    dx = 1.;
-  }
-
-  if (!isfinite(dx) || dx == 0. ) { return -1; }
-  
-  if (dx < 0.) {
-    start = nxin - 1; 
-    end = -1;
-    step = -1;
-  } else {
-    start = 0;
-    end = nxin;
-    step = 1;
-  }
+  double xmin, ymin, xmax, ymax;
 
   local_xin = (double *) malloc(nxin * sizeof(double));
   local_yin = (double *) malloc(nxin * sizeof(double));
@@ -76,6 +53,24 @@ int interpgsl (int narrays, int nxin, int nxout,
   if (NULL == acc) { PyErr_SetString(PyExc_MemoryError, "Failed to allocate gsl_interp_accel object."); goto clean_err;}
 
   for (n = 0; n < narrays; n++) {
+    // Check the order of the x coordinates of this array (the sign of the first nonzero step)
+    // If the order seems to be reversed, then read the array backwards
+    start = 0;
+    end = nxin;
+    step = 1;
+    for (i = 0, j = -1; i < nxin; i++) {
+      if (!isfinite(xin[i])) continue;
+      if (j >= 0 && xin[i] != xin[j]) {
+        if (xin[i] < xin[j]) {
+          start = nxin - 1;
+          end = -1;
+          step = -1;
+        }
+        break;
+      }
+      j = i;
+    }
+
     // Search for nans, resort if necessary
     for (i = start, j = 0; i != end; i += step) {
       if (isfinite(yin[i]) && isfinite(xin[i])) {
@@ -89,10 +84,6 @@ int interpgsl (int narrays, int nxin, int nxout,
       }
     }
 
-    // Save extremal points for extrapolation
-    xmin = local_xin[0];
-    xmax = local_xin[j-1];
-
     if (loop_xout) {
       for (i = 0; i < nxout; i++) local_xout[i] = xout[i]; 
     }
@@ -109,6 +100,10 @@ int interpgsl (int narrays, int nxin, int nxout,
       continue;
     }
 
+    // Save extremal points for extrapolation
+    xmin = local_xin[0];
+    xmax = local_xin[j-1];
+
     interp = gsl_interp_alloc (type, j);
     if (NULL == interp) { PyErr_SetString(PyExc_MemoryError, "Failed to allocate interp object."); goto clean_err;}
 
-- 
2.43.0


From e6300bedc47a6177bc35b6e2dddd2e6edcdeae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:32 +0000
Subject: [PATCH 051/135] fix: interpolate could not restore the order of
 several axes of one type

---
 pygeode/interp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygeode/interp.py b/pygeode/interp.py
index b3bcb40..3f54bfd 100644
--- a/pygeode/interp.py
+++ b/pygeode/interp.py
@@ -260,8 +260,10 @@ def interpolate(var, inaxis, outaxis, inx=None, outx=None, interp_type='cspline'
   out = Interp(var, inaxis, outaxis, inx, outx, interp_type, d_below, d_above, omit_nonmonotonic)
   # Do we need to un-tranpose the axes back to the original order?
   if transpose is False:
-    out_order = list(map(type,var.axes))
-    out_order[var.whichaxis(inaxis)] = type(outaxis)
+    # (by position; there can be several axes of one type)
+    iaxis = var.whichaxis(inaxis)
+    n = var.naxes - 1
+    out_order = list(range(iaxis)) + [n] + list(range(iaxis, n))
     out = out.transpose(*out_order)
   return out
 # }}}
-- 
2.43.0


From 65bd42e52b159eec36beacb2b460092eb0cb8cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 052/135] fix: rotatelon duplicated the value at longitude zero
 instead of the one at the origin

---
 pygeode/axis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/axis.py b/pygeode/axis.py
index d9b1acb..548b4ed 100644
--- a/pygeode/axis.py
+++ b/pygeode/axis.py
@@ -939,8 +939,8 @@ def rotatelon(v, origin, duplicate = False):
 	v0 = v.replace_axes(lon=lp).sorted('lon')
 
 	if duplicate:
-		l360 = Lon(values = [origin + 360])
-		v0 = concatenate([v0, v0(lon=0).replace_axes(lon = l360)])
+		l360 = Lon(values = [v0.lon[0] + 360])
+		v0 = concatenate([v0, v0(i_lon=0).replace_axes(lon = l360)])
 
 	return v0
 # }}}
-- 
2.43.0


From b63ffd53a122f8b1f034cff9cbfbde492f536aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:32 +0000
Subject: [PATCH 053/135] fix: formatvalue printed a wrong, fractional day of
 the year ($j), and failed on $a and $j for times without a year

---
 pygeode/timeaxis.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 6f61db1..0e54ade 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -456,9 +456,9 @@ class CalendarTime(Time):
   # (for formatvalue)
   def _getdoy (self, date):
 # {{{
-    startdate = {'month':1,'day':0,'hour':0,'minute':0,'second':0}
-    date.pop('year', 0)
-    return self.date_as_val (dates=date, startdate=startdate, units='days')
+    date = dict([k, date[k]] for k in ('year', 'month', 'day') if k in date)
+    startdate = dict(date, month=1, day=0)
+    return int(self.date_as_val (dates=date, startdate=startdate, units='days'))
 # }}}
 
   # Number of days in a month
@@ -536,7 +536,7 @@ class CalendarTime(Time):
       else:
         subs['Y'] = '%d' % y
     else:
-      subs['y'], subs['Y'] = '', ''
+      subs['y'], subs['a'], subs['Y'] = '', '', ''
 
     if 'month' in dt:
       mi = dt['month']
@@ -551,7 +551,8 @@ class CalendarTime(Time):
       d = dt['day']
       subs['d'] = '%d' % d
       subs['D'] = '%02d' % d
-      if 'year' in dt and 'year' in self.allowed_fields: subs['j'] = self._getdoy(dt)
+      if 'year' in dt and 'month' in dt: subs['j'] = '%d' % self._getdoy(dt)
+      else: subs['j'] = ''
     else:
       subs['d'], subs['D'], subs['j'] = '', '', ''
 
-- 
2.43.0


From 40e8b26c3be1f707c5c0365f4f185e7102012fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:32 +0000
Subject: [PATCH 054/135] fix: error for an unrecognized time string did not
 name the string

---
 pygeode/timeaxis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 0e54ade..271e0a7 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -646,7 +646,7 @@ class CalendarTime(Time):
       if res is not None: break
 
     if res is None:
-      raise ValueError('String "%s" not recognized as a time')
+      raise ValueError('String "%s" not recognized as a time' % s)
 
     d = {}
     for k, v in res.groupdict().items():
-- 
2.43.0


From 77451e361687092b7cc16490a6fca7384dcccd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:32 +0000
Subject: [PATCH 055/135] fix: time axis helpers returned an extra time for
 fractional steps, and inclusive ranges could pass their end

---
 pygeode/timeaxis.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 271e0a7..83c385e 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -1066,6 +1066,16 @@ class Yearless(CalendarTime):
 
 # Helper functions
 
+# Multiples of step from 0 up to length; if inc is True length itself is included
+# (the number of steps is rounded first, so that e.g. 0.1 divides 1 evenly)
+def _steps(length, step, inc):
+# {{{
+  import numpy as np
+  n = np.round(length / float(step), 6)
+  n = np.floor(n) + 1 if inc else np.ceil(n)
+  return np.arange(max(n, 0)) * step
+# }}}
+
 def standardtimerange(start, end, step=1, units='days', ref=None, inc=False):
 # {{{
   r'''Creates a :class:`StandardTime` axis for the period from start to end.
@@ -1093,8 +1103,7 @@ def standardtimerange(start, end, step=1, units='days', ref=None, inc=False):
   else: f = tdum.str_as_date(None, ref)
   n = date_diff(tdum, s, e, units)
   o = date_diff(tdum, f, s, units)
-  if inc: vals = np.arange(0, n + step, step) + o
-  else: vals = np.arange(0, n, step) + o
+  vals = _steps(n, step, inc) + o
   return StandardTime(values=vals, units=units, startdate=f)
 # }}}
 
@@ -1122,7 +1131,7 @@ def standardtimen(start, n, step=1, units='days', ref=None):
   if ref is None: f = s
   else: f = tdum.str_as_date(None, ref)
   o = date_diff(tdum, f, s, units)
-  vals = np.arange(0, n*step, step) + o
+  vals = np.arange(n)*step + o
   return StandardTime(values=vals, units=units, startdate=f)
 # }}}
 
@@ -1153,8 +1162,7 @@ def modeltime365range(start, end, step=1, units='days', ref=None, inc=False):
   else: f = tdum.str_as_date(None, ref)
   n = date_diff(tdum, s, e, units)
   o = date_diff(tdum, f, s, units)
-  if inc: vals = np.arange(0, n + step, step) + o
-  else: vals = np.arange(0, n, step) + o
+  vals = _steps(n, step, inc) + o
 
   return ModelTime365(values=vals, units=units, startdate=f)
 # }}}
@@ -1183,7 +1191,7 @@ def modeltime365n(start, n, step=1, units='days', ref=None):
   if ref is None: f = s
   else: f = tdum.str_as_date(None, ref)
   o = date_diff(tdum, f, s, units)
-  vals = np.arange(0, n*step, step) + o
+  vals = np.arange(n)*step + o
   return ModelTime365(values=vals, units=units, startdate=f)
 # }}}
 
@@ -1214,8 +1222,7 @@ def modeltime360range(start, end, step=1, units='days', ref=None, inc=False):
   else: f = tdum.str_as_date(None, ref)
   n = date_diff(tdum, s, e, units)
   o = date_diff(tdum, f, s, units)
-  if inc: vals = np.arange(0, n + step, step) + o
-  else: vals = np.arange(0, n, step) + o
+  vals = _steps(n, step, inc) + o
   return ModelTime360(values=vals, units=units, startdate=f)
 # }}}
 
@@ -1243,7 +1250,7 @@ def modeltime360n(start, n, step=1, units='days', ref=None):
   if ref is None: f = s
   else: f = tdum.str_as_date(None, ref)
   o = date_diff(tdum, f, s, units)
-  vals = np.arange(0, n*step, step) + o
+  vals = np.arange(n)*step + o
   return ModelTime360(values=vals, units=units, startdate=f)
 # }}}
 
@@ -1263,7 +1270,7 @@ def yearlessn(n, start=1, step=1, units='days'):
     Unit in which to define time step values. Default is 'days'.
   '''
   import numpy as np
-  vals = np.arange(0, n*step, step)
+  vals = np.arange(n)*step
   return Yearless(values=vals, units=units, startdate=dict(day=start))
 # }}}
 
-- 
2.43.0


From ce34396aa12954ebc1935fdeea5ee0c3d3e36397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:05 +0000
Subject: [PATCH 056/135] fix: seasonal ticks started from the wrong date
 (month field set instead of season)

---
 pygeode/timeticker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/timeticker.py b/pygeode/timeticker.py
index f3a59b7..32b2c00 100644
--- a/pygeode/timeticker.py
+++ b/pygeode/timeticker.py
@@ -177,7 +177,7 @@ class SeasonTickGen(TickGenerator):
     yr = dt.get('year', 1)
     sn = dt.get('season', 1)
     if val > self._taxis.date_as_val({'year':yr, 'season':sn}): 
-      dt = tu.wrapdate(self._taxis, {'year':yr, 'month':sn+1}, allfields=True)
+      dt = tu.wrapdate(self._taxis, {'year':yr, 'season':sn+1}, allfields=True)
       yr = dt.get('year', 1)
       sn = dt.get('season', 1)
 
-- 
2.43.0


From 6e6f071a77a647a434c678e5b8fca60cde2a13c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:05 +0000
Subject: [PATCH 057/135] fix: time locators skipped the first tick of the next
 month, day, hour or minute when the last multiple was dropped

---
 pygeode/timeticker.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pygeode/timeticker.py b/pygeode/timeticker.py
index 32b2c00..7de1a8d 100644
--- a/pygeode/timeticker.py
+++ b/pygeode/timeticker.py
@@ -242,8 +242,9 @@ class DayOfMonthTickGen(TickGenerator):
     d = tu.wrapdate(self._taxis, {'year':yr, 'month':mn, 'day':dy}, allfields=True)
     d1 = tu.wrapdate(self._taxis, {'year':yr, 'month':mn + 1, 'day':1}, allfields=True)
 
+    # This tick is dropped if it is too close to d1; the one before it is then the first prior
     if tu.date_diff(self._taxis, d, d1, 'days') < self.mult / 2:
-      return d1
+      return tu.wrapdate(self._taxis, {'year':yr, 'month':mn, 'day':dy - self.mult}, allfields=True)
     else:
       return d
   # }}}
@@ -366,8 +367,9 @@ class HourTickGen(TickGenerator):
     d = tu.wrapdate(self._taxis, pack(yr, mn, dy, hr), allfields=True)
     d1 = tu.wrapdate(self._taxis, pack(yr, mn, dy+1, 0), allfields=True)
 
+    # This tick is dropped if it is too close to d1; the one before it is then the first prior
     if tu.date_diff(self._taxis, d, d1, 'hours') < self.mult / 2:
-      return d1
+      return tu.wrapdate(self._taxis, pack(yr, mn, dy, hr - self.mult), allfields=True)
     else:
       return d
   # }}}
@@ -426,8 +428,9 @@ class MinuteTickGen(TickGenerator):
     d = tu.wrapdate(self._taxis, pack(yr, mn, dy, hr, mi), allfields=True)
     d1 = tu.wrapdate(self._taxis, pack(yr, mn, dy, hr+1, 0), allfields=True)
 
+    # This tick is dropped if it is too close to d1; the one before it is then the first prior
     if tu.date_diff(self._taxis, d, d1, 'minutes') < self.mult / 2:
-      return d1
+      return tu.wrapdate(self._taxis, pack(yr, mn, dy, hr, mi - self.mult), allfields=True)
     else:
       return d
   # }}}
@@ -487,8 +490,9 @@ class SecondTickGen(TickGenerator):
     d = tu.wrapdate(self._taxis, pack(yr, mn, dy, hr, mi, sc), allfields=True)
     d1 = tu.wrapdate(self._taxis, pack(yr, mn, dy, hr, mi+1, 0), allfields=True)
 
+    # This tick is dropped if it is too close to d1; the one before it is then the first prior
     if tu.date_diff(self._taxis, d, d1, 'seconds') < self.mult / 2:
-      return d1
+      return tu.wrapdate(self._taxis, pack(yr, mn, dy, hr, mi, sc - self.mult), allfields=True)
     else:
       return d
   # }}}
-- 
2.43.0


From a4622b0eeb5e327d259b2aadeb771a3b22b1768e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:05 +0000
Subject: [PATCH 058/135] fix: time labels of a single tick divided by zero

---
 pygeode/timeticker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/timeticker.py b/pygeode/timeticker.py
index 7de1a8d..80d04ec 100644
--- a/pygeode/timeticker.py
+++ b/pygeode/timeticker.py
@@ -544,7 +544,7 @@ class TimeFormatter(Formatter):
     if len(locs) > 0:
       if self.auto:
         delt = max(locs) - min(locs)
-        delt = delt * self.taxis.unitfactor[self.taxis.units] / ((len(locs)-1) * 86400.)
+        delt = delt * self.taxis.unitfactor[self.taxis.units] / (max(len(locs)-1, 1) * 86400.)
         self.fmt, self.ofsfmt = self.autoformat_range(delt)
       self.offset = self.taxis.formatvalue(locs[0], self.ofsfmt)
     else:
-- 
2.43.0


From df16f4655a224cee980a2bcc455bf03d25900b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:30 +0000
Subject: [PATCH 059/135] fix: Time.map_to missed times when the order of the
 values differs from that of the dates

---
 pygeode/timeaxis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygeode/timeaxis.py b/pygeode/timeaxis.py
index 83c385e..eed3b29 100644
--- a/pygeode/timeaxis.py
+++ b/pygeode/timeaxis.py
@@ -205,12 +205,15 @@ class Time (TAxis):
       myvalues = self.values
       othervalues = other.values
       nfields = 1
+      isrt = np.argsort(self.values)
     else:
       myvalues = np.vstack(self_f).transpose()
       othervalues = np.vstack(other_f).transpose()
       nfields = len(self_f)
+      # (the search is done on the fields; their order can differ from that of the values if
+      #  there are dates that don't exist in the calendar, such as 29 February in other years)
+      isrt = _argsort(self_f)
 
-    isrt = np.argsort(self.values)
     #iinv = np.argsort(isrt)
 
     indices = np.empty(len(other), 'int32')
-- 
2.43.0


From 198722016e81f802c5ae416e1c4999d30932f110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:30 +0000
Subject: [PATCH 060/135] fix: splittimeaxis dropped the attributes of the
 variable

---
 pygeode/timeutils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index d67c4bf..d541880 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -429,11 +429,10 @@ class SplitTime (Var):
     axes = list(var.axes)
     axes = axes[:iaxis] + [years, days] + axes[iaxis+1:]
 
-    copy_meta(var,self)
-
     # Missing values can't be represented by integers
     dtype = var.dtype if var.dtype.kind in 'fc' else 'd'
     Var.__init__(self, axes=axes, dtype=dtype)
+    copy_meta(var,self)
 
     self.iaxis = iaxis
     self.var = var
-- 
2.43.0


From f5f3c092e13f9eb1d84522efec06c37c55032071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:30 +0000
Subject: [PATCH 061/135] fix: jointimeaxes failed if the two axes are not next
 to each other

---
 pygeode/timeutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index d541880..478f9c0 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -547,7 +547,7 @@ class JoinTime(Var):
     data = np.rollaxis(data, daxis, yaxis+1)
     # Then, combine then
     shape = list(data.shape)
-    shape = shape[:yaxis] + [-1] + shape[daxis+1:]
+    shape = shape[:yaxis] + [-1] + shape[yaxis+2:]
     data = data.reshape(shape)
 
     # Now, we may have slightly more data than we actually need
-- 
2.43.0


From 4a91e70a683f7f5e743fba937df0ef11acc0ec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:12 +0000
Subject: [PATCH 062/135] fix: removeleapyears misplaced data on time axes that
 are not in increasing order

---
 pygeode/timeutils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pygeode/timeutils.py b/pygeode/timeutils.py
index 478f9c0..7166019 100644
--- a/pygeode/timeutils.py
+++ b/pygeode/timeutils.py
@@ -237,9 +237,9 @@ def removeleapyears(data, omitdoy_leap=[60], omitdoy_noleap=[], new_axis_type=Mo
   year = taxis.year
   isleapyear = isinstance(taxis,StandardTime) & (year % 4 == 0) & ( (year % 100 != 0) | (year % 400 == 0) )
 
-  doy = []
+  doy = np.empty(len(taxis))
   for y in sorted(set(taxis.year)):
-    doy.extend(reltime(taxis(year=y), startdate={'year':y, 'month':1, 'day':1}, units='days')+1)
+    doy[year == y] = reltime(taxis(year=y), startdate={'year':y, 'month':1, 'day':1}, units='days')+1
   doy = np.array(np.floor(doy),dtype=int)
 
   omit_on_leap = [False] * len(taxis)
@@ -280,6 +280,10 @@ def removeleapyears(data, omitdoy_leap=[60], omitdoy_noleap=[], new_axis_type=Mo
   # (Had to break it down by year, to do the doy arithmetic)
   new_taxis = new_axis_type.concat(new_taxis_pieces)
 
+  # Restore the original order of the times
+  order = np.argsort(year[~omit], kind='stable')
+  new_taxis = new_taxis.slice[np.argsort(order)]
+
   # Replace the time axis of the data
   data = data.replace_axes(time = new_taxis)
 
-- 
2.43.0


From b6e36557c40ef0d1a75918c5f156396c4063609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 063/135] fix: netcdf.save could not write text arrays (station
 names) to netCDF-4 files

---
 pygeode/formats/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index 8ba1397..0e6689e 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -22,7 +22,7 @@ nc_type_v3 = {'int8':1, 'string8':2, 'bytes8':2, 'int16':3, 'int32':4,
            'float32':5, 'float64':6, 'uint8':3, 'uint16':4,
            'uint32':4, 'int64':6, 'uint64':6}
 
-nc_type_v4 = {'int8':1, 'string8':2, 'int16':3, 'int32':4,
+nc_type_v4 = {'int8':1, 'string8':2, 'bytes8':2, 'int16':3, 'int32':4,
            'float32':5, 'float64':6, 'uint8':7, 'uint16':8,
            'uint32':9, 'int64':10, 'uint64':11}
 
-- 
2.43.0


From 6547df152d9932c9a699d0a02eeb3dab450b2f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 064/135] fix: netcdf.save wrapped unsigned 32-bit integers
 above 2**31 in netCDF-3 files

---
 pygeode/formats/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index 0e6689e..1df8103 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -20,7 +20,7 @@ NC_MAX_VAR_DIMS = NC_MAX_DIMS
 
 nc_type_v3 = {'int8':1, 'string8':2, 'bytes8':2, 'int16':3, 'int32':4,
            'float32':5, 'float64':6, 'uint8':3, 'uint16':4,
-           'uint32':4, 'int64':6, 'uint64':6}
+           'uint32':6, 'int64':6, 'uint64':6}
 
 nc_type_v4 = {'int8':1, 'string8':2, 'bytes8':2, 'int16':3, 'int32':4,
            'float32':5, 'float64':6, 'uint8':7, 'uint16':8,
-- 
2.43.0


From 5d64e1be50eca88d2f67b30de53389eab2dd12c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 065/135] fix: encode_cf dropped auxiliary arrays whose name is
 part of 'lat lon'

---
 pygeode/formats/cfmeta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 6ad79c9..be0e31b 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -216,7 +216,7 @@ def encode_cf (dataset):
       # Encode other auxarrays as generic "ancillary" arrays.
       ancillary_variables = []
       for auxname in list(a.auxarrays.keys()):
-        if auxname in coordinates: continue  # Handled above
+        if auxname in ('lat', 'lon'): continue  # Handled above
         var = a.auxasvar(auxname)
         if var.dtype.name.startswith('str'):
           var = encode_string_var(var)
-- 
2.43.0


From 4d012ac5573158cb432cfad5cbc8bbf5b0bfccea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 066/135] fix: decode_cf dropped the auxiliary arrays of
 generic axes

---
 pygeode/formats/cfmeta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index be0e31b..1502140 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -455,7 +455,7 @@ def decode_cf (dataset, ignore=[]):
     if cls in [Axis, NamedAxis, XAxis, YAxis, ZAxis, TAxis] and _units != '': atts['units'] = _units
 
     # create new axis instance if need be.
-    if cls != type(a):
+    if cls != type(a) or len(aux) > 0:
       axisdict[name] = cls(values=a.values, name=name, atts=atts, **aux)
 
   # Apply these new axes to the variables
-- 
2.43.0


From 1258065a22544d01917b5af70d344a06185d835b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:54 +0000
Subject: [PATCH 067/135] fix: decode_cf dropped variables with the same name
 as an auxiliary array of an axis

---
 pygeode/formats/cfmeta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 1502140..2dd3749 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -448,7 +448,8 @@ def decode_cf (dataset, ignore=[]):
 
     # Anything that got attached to this axis should be removed from the
     # list of variables, since it's just extra info specific to the axis.
-    varlist = [v for v in varlist if v.name not in aux]
+    dependencies = [dep.name for dep in dependencies]
+    varlist = [v for v in varlist if v.name not in dependencies]
 
 
     # put the units back (if we didn't use them)?
-- 
2.43.0


From 87872c3587f3d4d4ecd432a752f727a62f9e8832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:54 +0000
Subject: [PATCH 068/135] fix: encode_cf invented coordinate values for
 dimensions that have none

---
 pygeode/formats/cfmeta.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 2dd3749..ef76d18 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -187,6 +187,9 @@ def encode_cf (dataset):
       axisdict[name] = NamedAxis(values=reltime(a), name=name, atts=atts, plotatts=plotatts)
       continue
 
+    # Dimensions without coordinate values have no metadata either
+    if isinstance(a, DummyAxis): continue
+
     # Encode non-coordinate axes, including station (timeseries) data.
     # Loosely follow http://cfconventions.org/cf-conventions/v1.6.0/cf-conventions.html#_orthogonal_multidimensional_array_representation_of_time_series
     # Move station lat/lon/name data into separate variables.
-- 
2.43.0


From 3d7a8ed24896fc2c94017b3c484c6f973f25b977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:12 +0000
Subject: [PATCH 069/135] fix: auxiliary arrays of time axes were dropped on
 saving

---
 pygeode/formats/cfmeta.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index ef76d18..70874e8 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -184,6 +184,14 @@ def encode_cf (dataset):
     #TODO: check 'units' attribute of the time axis, use that in the 'units' of the netcdf metadata
     if isinstance(a, Time):
       #TODO: cast into an integer array if possible
+      # The fields of the date are given by the values; add any other arrays as variables
+      auxarrays = dict((aux,values) for aux,values in a.auxarrays.items() if aux not in a.allowed_fields)
+      for aux,values in auxarrays.items():
+        auxname = name+'_'+aux
+        assert not any(v.name == auxname for v in varlist), "already have a variable named %s"%auxname
+        varlist.append( Var([a], values=values, name=auxname) )
+      if len(auxarrays) > 0:
+        atts['ancillary_variables'] = ' '.join(name+'_'+aux for aux in auxarrays.keys())
       axisdict[name] = NamedAxis(values=reltime(a), name=name, atts=atts, plotatts=plotatts)
       continue
 
@@ -412,7 +420,7 @@ def decode_cf (dataset, ignore=[]):
       year, month, day, hour, minute, second = list(map(int, [year, month, day, hour, minute, float(second)]))
       # Create the time axis
       startdate={'year':year, 'month':month, 'day':day, 'hour':hour, 'minute':minute, 'second':second}
-      axisdict[name] = cls(a.values, startdate=startdate, units=res, name=name, atts=atts)
+      axisdict[name] = cls(a.values, startdate=startdate, units=res, name=name, atts=atts, **aux)
       # Special case: start year=0 implies a climatology
       #NOTE: 'climatology' attribute not used, since we don't currently keep
       #      track of the interval that was used for the climatology.
-- 
2.43.0


From 942b8143fa8c7454047920a5a965184633478080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:13 +0000
Subject: [PATCH 070/135] fix: decode_cf dropped the name and attributes of
 climatological time axes

---
 pygeode/formats/cfmeta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 70874e8..8f2a271 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -429,7 +429,9 @@ def decode_cf (dataset, ignore=[]):
         if not all(axisdict[name].year == 0):
           warn ("cfmeta: data starts at year 0 (which usually indicates a climatology), but there's more than one year's worth of data!  Keeping it on a regular calendar.", stacklevel=3)
           continue
-        axisdict[name] = timeutils.modify(axisdict[name], exclude='year')
+        fields = dict((k,v) for k,v in axisdict[name].auxarrays.items() if k in cls.allowed_fields and k != 'year')
+        fields.update(aux)
+        axisdict[name] = cls(startdate=startdate, units=res, name=name, atts=atts, **fields)
       continue  # we've constructed the time axis, so move onto the next axis
 
     # Check for a match from the custom axes (from add-ons).
-- 
2.43.0


From 99349ae9860ad1699a644af47f5be0633ba3a8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:50 +0000
Subject: [PATCH 071/135] fix: netcdf4.save failed for 64-bit and unsigned
 integers in netCDF-3 files

---
 pygeode/formats/netcdf4.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/netcdf4.py b/pygeode/formats/netcdf4.py
index 4600d26..a0feb1e 100644
--- a/pygeode/formats/netcdf4.py
+++ b/pygeode/formats/netcdf4.py
@@ -111,10 +111,16 @@ def write_var (ncfile, dataset, unlimited=None, compress=False):
   for a in axes:
     ncfile.createDimension(a.name, size=(None if a.name == unlimited else len(a)))
 
+  # Integer types which aren't available in netCDF-3 are stored in a type that is
+  # (same as in pygeode.formats.netcdf)
+  types = {}
+  if ncfile.data_model == 'NETCDF3_CLASSIC':
+    types = {'uint8':'int16', 'uint16':'int32', 'uint32':'float64', 'int64':'float64', 'uint64':'float64'}
+
   # Define the variables (including axes)
   for var in vars:
     dimensions = [a.name for a in var.axes]
-    v = ncfile.createVariable(var.name, datatype=var.dtype, dimensions=dimensions, zlib=compress, fill_value=var.atts.get('_FillValue',None))
+    v = ncfile.createVariable(var.name, datatype=types.get(var.dtype.name, var.dtype), dimensions=dimensions, zlib=compress, fill_value=var.atts.get('_FillValue',None))
     v.set_auto_maskandscale(False)
     v.setncatts(var.atts)
 
-- 
2.43.0


From 1e435b1f4f970d40896b06759cca136b99b5cebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:30 +0000
Subject: [PATCH 072/135] fix: netcdf.save could not compress datasets with a
 scalar variable

---
 pygeode/formats/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index 1df8103..7ed7979 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -479,7 +479,7 @@ def save (filename, in_dataset, version=3, pack=None, compress=False, cfmeta = T
       ret = lib.nc_def_var (fileid, var.name.encode('ascii'), t, var.naxes, d, byref(varids[i]))
       assert ret == 0, lib.nc_strerror(ret)
       # Compress the data? (only works for netcdf4 or (higher?))
-      if compress:
+      if compress and var.naxes > 0:
         ret = lib.nc_def_var_deflate (fileid, varids[i], 1, 1, 2)
         assert ret == 0, lib.nc_strerror(ret)
 
-- 
2.43.0


From 0534b6daf022a065793b132cfb99ef5b83620671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:30 +0000
Subject: [PATCH 073/135] fix: the units of a variable were not saved unless
 also given as an attribute

---
 pygeode/formats/cfmeta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 8f2a271..24cded5 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -286,7 +286,9 @@ def encode_cf (dataset):
     name = oldvar.name
     try:
       #TODO: use Var.replace_axes instead?
-      varlist[i] = var_newaxes(oldvar, [axisdict.get(a.name,a) for a in oldvar.axes], atts=oldvar.atts, plotatts=oldvar.plotatts)
+      atts = oldvar.atts
+      if oldvar.units and 'units' not in atts: atts = dict(atts, units=oldvar.units)
+      varlist[i] = var_newaxes(oldvar, [axisdict.get(a.name,a) for a in oldvar.axes], atts=atts, plotatts=oldvar.plotatts)
     except KeyError:
       print('??', a.name, axisdict)
       raise
-- 
2.43.0


From d6c3c53ba5915c420ee91198e4ca4b1f36fe6e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:55 +0000
Subject: [PATCH 074/135] fix: netcdf.open failed on netCDF-4 files with string
 attributes

---
 pygeode/formats/netcdf.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index 7ed7979..7882740 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -45,7 +45,7 @@ put_att_f = {1:lib.nc_put_att_schar, 2:lib.nc_put_att_text,
 # Read global/variable attributes, return a dictionary
 def get_attributes (fileid, varid):
 # {{{
-  from ctypes import create_string_buffer, c_int, c_long, byref
+  from ctypes import create_string_buffer, c_char_p, c_int, c_long, byref
   from pygeode.tools import point
   from numpy import empty
   natts = c_int()
@@ -80,6 +80,14 @@ def get_attributes (fileid, varid):
       ret = get_att_f[vtype.value](fileid, varid, name, valstr);
       assert ret == 0, lib.nc_strerror(ret)
       value = valstr.value.decode('utf-8')
+    # Variable-length strings (netCDF-4 only)?
+    elif vtype.value == 12:
+      valstr = (c_char_p * size.value)()
+      ret = lib.nc_get_att_string(fileid, varid, name, valstr)
+      assert ret == 0, lib.nc_strerror(ret)
+      value = [(s or b'').decode('utf-8') for s in valstr]
+      lib.nc_free_string(c_long(size.value), valstr)
+      if len(value) == 1: value = value[0]
     else:
       valnp = empty([size.value], numpy_type[vtype.value])
       ret = get_att_f[vtype.value](fileid, varid, name, point(valnp))
-- 
2.43.0


From f3d2eb9133cfe7d2463fe32f4a2f0a9c2a4f8320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:55 +0000
Subject: [PATCH 075/135] fix: netcdf4.save corrupted attributes that don't fit
 in 32 bits in netCDF-3 files

---
 pygeode/formats/netcdf4.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/netcdf4.py b/pygeode/formats/netcdf4.py
index a0feb1e..5a66e26 100644
--- a/pygeode/formats/netcdf4.py
+++ b/pygeode/formats/netcdf4.py
@@ -117,15 +117,24 @@ def write_var (ncfile, dataset, unlimited=None, compress=False):
   if ncfile.data_model == 'NETCDF3_CLASSIC':
     types = {'uint8':'int16', 'uint16':'int32', 'uint32':'float64', 'int64':'float64', 'uint64':'float64'}
 
+  # Same for attributes, if the value doesn't fit in 32 bits
+  def fix_atts (atts):
+    if len(types) == 0: return atts
+    atts = dict(atts)
+    for name, value in atts.items():
+      a = np.asarray(value)
+      if a.dtype.kind in 'iu' and np.any(a != a.astype('int32')): atts[name] = a.astype('float64')
+    return atts
+
   # Define the variables (including axes)
   for var in vars:
     dimensions = [a.name for a in var.axes]
     v = ncfile.createVariable(var.name, datatype=types.get(var.dtype.name, var.dtype), dimensions=dimensions, zlib=compress, fill_value=var.atts.get('_FillValue',None))
     v.set_auto_maskandscale(False)
-    v.setncatts(var.atts)
+    v.setncatts(fix_atts(var.atts))
 
   # global attributes
-  ncfile.setncatts(dataset.atts)
+  ncfile.setncatts(fix_atts(dataset.atts))
 
   # Relative progress of each variable
   sizes = [v.size for v in vars]
-- 
2.43.0


From d8ce169a8fafb882a77c8a71a655065efe3aaf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:37 +0000
Subject: [PATCH 076/135] fix: namemap and dimtypes also changed other axes of
 the same class as the one named

---
 pygeode/formats/__init__.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/__init__.py b/pygeode/formats/__init__.py
index 4645640..238b2ff 100644
--- a/pygeode/formats/__init__.py
+++ b/pygeode/formats/__init__.py
@@ -243,7 +243,20 @@ def set_axistypes (dataset, dimtypes):
     assert len(axis) == len(oldaxis), "expected axis of length %s, ended up with axis of length %s"%(len(oldaxis),len(axis))
     replacements[name] = axis
 
-  return dataset.replace_axes(axisdict=replacements)
+  return replace_axes_by_name(dataset, replacements)
+# }}}
+
+# Replace the axes that have exactly the given names
+# (the 'replace_axes' method also matches axes by their class)
+def replace_axes_by_name (dataset, axisdict):
+# {{{
+  from pygeode.dataset import Dataset
+  vars = []
+  for v in dataset.vars:
+    if any(a.name in axisdict for a in v.axes):
+      v = v.replace_axes(newaxes=[axisdict.get(a.name,a) for a in v.axes])
+    vars.append(v)
+  return Dataset(vars, atts=dataset.atts)
 # }}}
 
 # Apply variable whitelist to a dataset (only keep specific variables)
@@ -277,7 +290,8 @@ def finalize_open(dataset, dimtypes = {}, namemap = {}, varlist = [], cfmeta = T
   if len(namemap) > 0:
     # Check both axes and variables
     dataset = dataset.rename_vars(vardict=namemap)
-    dataset = dataset.rename_axes(axisdict=namemap)
+    axisdict = dict((a.name, a.rename(namemap[a.name])) for a in dataset.axes if a.name in namemap)
+    dataset = replace_axes_by_name(dataset, axisdict)
 
   return dataset
 # }}}
-- 
2.43.0


From ca1aaf83ccae219286f0171667c79309a17ddfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:45 +0000
Subject: [PATCH 077/135] fix: data with a fill value, scale or offset was
 always reduced to single precision

---
 pygeode/formats/cfmeta.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 24cded5..5792562 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -25,8 +25,13 @@ class var_newaxes (Var):
     assert len(newaxes) == len(var.axes)
     for a1, a2 in zip(newaxes, var.axes): assert len(a1) == len(a2)
     self.var = var
+    import numpy as np
     dtype = var.dtype
-    if fillvalue is not None or scale is not None or offset is not None: dtype = 'float32'
+    if fillvalue is not None or scale is not None or offset is not None:
+      # Use a type which can hold the values to the precision of the data, scale and offset
+      dtype = np.result_type(dtype, 'float32')
+      for x in (scale, offset):
+        if x is not None and np.asarray(x).dtype.kind == 'f': dtype = np.result_type(dtype, np.asarray(x).dtype)
     self.fillvalue = fillvalue
     self.scale = scale
     self.offset = offset
-- 
2.43.0


From 50b7b8e229c774027a373f86d4a47b75548847c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:45 +0000
Subject: [PATCH 078/135] fix: decode_cf ignored fill values of zero, and all
 but the first of several

---
 pygeode/formats/cfmeta.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 5792562..b84787e 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -53,7 +53,7 @@ class var_newaxes (Var):
     data = View(self.var.axes, force_slices=view.slices,
                 force_integer_indices=view.integer_indices).get(self.var, pbar=pbar)
     if fillvalue is not None or scale is not None or offset is not None: data = np.copy(data)
-    if fillvalue is not None: w = np.where(data==fillvalue)
+    if fillvalue is not None: w = np.isin(data, fillvalue)
     data = np.asarray(data, self.dtype)
     if scale is not None: data *= scale
     if offset is not None: data += offset
@@ -309,6 +309,7 @@ def decode_cf (dataset, ignore=[]):
   from pygeode.timeaxis import Time, ModelTime365, ModelTime360, StandardTime, Yearless
   from pygeode import timeutils
   from warnings import warn
+  import numpy as np
   import re
 
 #  dataset = asdataset(dataset, copy=True)
@@ -488,9 +489,9 @@ def decode_cf (dataset, ignore=[]):
     name = oldvar.name
     atts = oldvar.atts.copy()
     plotatts = oldvar.atts.copy()
-    fillvalue = [atts.pop(f,None) for f in ('FillValue', '_FillValue', 'missing_value')]
-    fillvalue = [_f for _f in fillvalue if _f]
-    fillvalue = fillvalue[0] if len(fillvalue) > 0 else None
+    fillvalue = [atts.pop(f) for f in ('FillValue', '_FillValue', 'missing_value') if f in atts]
+    fillvalue = [_f for f in fillvalue for _f in np.ravel(f)] if oldvar.dtype.kind in 'iufc' else []
+    if len(fillvalue) == 0: fillvalue = None
     scale = atts.pop('scale_factor', None)
     offset = atts.pop('add_offset', None)
     units = atts.get('units', None)
-- 
2.43.0


From fa322bf8854b2adb6de061f20086cd0ec5e726cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:45 +0000
Subject: [PATCH 079/135] fix: decode_cf only recognized one of the units that
 identify latitude and longitude

---
 pygeode/formats/cfmeta.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index b84787e..3cd18f6 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -324,6 +324,10 @@ def decode_cf (dataset, ignore=[]):
     if var.name.endswith("_name") and var.dtype.name in ("string8","bytes8") and var.axes[-1].name.endswith("_strlen"):
       varlist[i] = decode_string_var(var)
 
+  # Units that identify latitude and longitude
+  north = ('degrees_north', 'degree_north', 'degrees_N', 'degree_N', 'degreesN', 'degreeN')
+  east = ('degrees_east', 'degree_east', 'degrees_E', 'degree_E', 'degreesE', 'degreeE')
+
   # data for auxiliary arrays
   auxdict = {}
   for name in axisdict.keys(): auxdict[name] = {}
@@ -380,8 +384,8 @@ def decode_cf (dataset, ignore=[]):
     _ln = atts.get('long_name', a.name).lower()
     _st = atts.get('standard_name',_ln).lower()
     _units = atts.pop('units','')
-    if _st == 'latitude' or _units == 'degrees_north': cls = Lat
-    if _st == 'longitude' or _units == 'degrees_east': cls = Lon
+    if _st == 'latitude' or _units in north: cls = Lat
+    if _st == 'longitude' or _units in east: cls = Lon
     if _st == 'air_pressure' or _units in ('hPa','mbar'):
       cls = Pres
       # Don't need this in the metadata anymore (it will be put back in encode_cf)
-- 
2.43.0


From 12a4a13c95c6d2c4e8b9b6df6a79c4c916872f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:45 +0000
Subject: [PATCH 080/135] fix: the units of latitudes, longitudes and pressures
 in other than the default units were replaced on saving

---
 pygeode/formats/cfmeta.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 3cd18f6..6ad532e 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -156,13 +156,13 @@ def encode_cf (dataset):
     
     if isinstance(a,Lat):
       atts['standard_name'] = 'latitude'
-      atts['units'] = 'degrees_north'
+      atts.setdefault('units', 'degrees_north')
     if isinstance(a,Lon):
       atts['standard_name'] = 'longitude'
-      atts['units'] = 'degrees_east'
+      atts.setdefault('units', 'degrees_east')
     if isinstance(a,Pres):
       atts['standard_name'] = 'air_pressure'
-      atts['units'] = 'hPa'
+      atts.setdefault('units', 'hPa')
       atts['positive'] = 'down'
     if isinstance(a,Hybrid):
       #TODO: formula_terms (how do we specify LNSP instead of P0?????)
@@ -478,7 +478,9 @@ def decode_cf (dataset, ignore=[]):
 
 
     # put the units back (if we didn't use them)?
-    if cls in [Axis, NamedAxis, XAxis, YAxis, ZAxis, TAxis] and _units != '': atts['units'] = _units
+    # (Keep them unless they are the ones that encode_cf writes for this class)
+    implied = {Lat:north, Lon:east, Pres:('hPa','mbar')}
+    if _units != '' and _units not in implied.get(cls,()): atts['units'] = _units
 
     # create new axis instance if need be.
     if cls != type(a) or len(aux) > 0:
-- 
2.43.0


From 3929291fc5a7536885a3b104ebad6a8bae3ae35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:45 +0000
Subject: [PATCH 081/135] fix: decode_cf did not recognize all units of time,
 and failed on those it can't use

---
 pygeode/formats/cfmeta.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 6ad532e..02923ad 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -328,6 +328,11 @@ def decode_cf (dataset, ignore=[]):
   north = ('degrees_north', 'degree_north', 'degrees_N', 'degree_N', 'degreesN', 'degreeN')
   east = ('degrees_east', 'degree_east', 'degrees_E', 'degree_E', 'degreesE', 'degreeE')
 
+  # Units of time
+  resolutions = {}
+  for res, names in (('days','d day days'), ('hours','h hr hrs hour hours'), ('minutes','min mins minute minutes'), ('seconds','s sec secs second seconds')):
+    for name in names.split(): resolutions[name] = res
+
   # data for auxiliary arrays
   auxdict = {}
   for name in axisdict.keys(): auxdict[name] = {}
@@ -403,7 +408,8 @@ def decode_cf (dataset, ignore=[]):
     if _st == 'station':
       cls = Station
 
-    if (_st == 'time' or cls == TAxis or _units.startswith('days since') or _units.startswith('hours since') or _units.startswith('minutes since') or _units.startswith('seconds since')) and ' since ' in _units:
+    _res = re.match("([a-zA-Z]+)\s+since\s", _units)
+    if _res is not None and _res.group(1).lower() in resolutions:
       _calendar = atts.pop('calendar', 'standard')
       if _calendar in ('standard', 'gregorian', 'proleptic_gregorian'): cls = StandardTime
       elif _calendar in ('365_day', 'noleap', '365day'): cls = ModelTime365
@@ -414,9 +420,7 @@ def decode_cf (dataset, ignore=[]):
         continue
       # Extract the time resolution (day, hour, etc), and the reference date
       res, date = re.match("([a-zA-Z]+)\s+since\s+(.*)", _units).groups()
-      # Pluralize the increment (i.e. day->days)?
-      res = res.lower()
-      if not res.endswith('s'): res += 's'
+      res = resolutions[res.lower()]
       # Extract the rest of the date
       date = date.rstrip()
       year, month, day, hour, minute, second = 0,1,1,0,0,0
-- 
2.43.0


From 6ba449b88ae2273796c5a0cdec369546a6663e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:45 +0000
Subject: [PATCH 082/135] fix: decode_cf ignored the time zone of reference
 dates

---
 pygeode/formats/cfmeta.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/cfmeta.py b/pygeode/formats/cfmeta.py
index 02923ad..8f19410 100644
--- a/pygeode/formats/cfmeta.py
+++ b/pygeode/formats/cfmeta.py
@@ -432,10 +432,17 @@ def decode_cf (dataset, ignore=[]):
       if len(date) > 0: minute, date = re.match("(\d+):?(.*)", date).groups()
       if len(date) > 0 and date[0] != ' ': second, date = re.match("(\d+)(.*)", date).groups()
       # convert from strings to integers
-      #TODO: milliseconds? time zone?
+      #TODO: milliseconds?
       year, month, day, hour, minute, second = list(map(int, [year, month, day, hour, minute, float(second)]))
       # Create the time axis
       startdate={'year':year, 'month':month, 'day':day, 'hour':hour, 'minute':minute, 'second':second}
+      # Convert to UTC, if a time zone is given
+      zone = re.search("([+-])(\d{1,2}):?(\d{2})?$", date)
+      if zone is not None:
+        shift = 60*int(zone.group(2)) + int(zone.group(3) or 0)
+        if zone.group(1) == '+': shift = -shift
+        utc = cls([shift], startdate=startdate, units='minutes')
+        startdate.update((k,int(utc.auxarrays[k][0])) for k in cls.allowed_fields)
       axisdict[name] = cls(a.values, startdate=startdate, units=res, name=name, atts=atts, **aux)
       # Special case: start year=0 implies a climatology
       #NOTE: 'climatology' attribute not used, since we don't currently keep
-- 
2.43.0


From 584765627bc09d64883f20b1316a84e0ceba1403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:43 +0000
Subject: [PATCH 083/135] fix: packing lost missing values and constant fields,
 and did not round to the nearest value

---
 pygeode/formats/__init__.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/pygeode/formats/__init__.py b/pygeode/formats/__init__.py
index 238b2ff..1c0bf43 100644
--- a/pygeode/formats/__init__.py
+++ b/pygeode/formats/__init__.py
@@ -35,10 +35,19 @@ class PackVar(Var):
     # algorithm described in the NetCDF Operator documentation
     dtype = np.int16
 
-    min = var.nanmin()
-    max = var.nanmax()
-    self.scale = (max - min) / (2**16 - 2.)
-    self.offset = 0.5 * (min + max)
+    min = float(var.nanmin())
+    max = float(var.nanmax())
+    # Nothing to pack if all values are missing
+    if min != min: min = max = 0.
+
+    # Keep the precision of the data when it is unpacked
+    ftype = np.float32 if var.dtype == np.float32 else np.float64
+    self.scale = ftype((max - min) / (2**16 - 2.))
+    if self.scale == 0: self.scale = ftype(1.)
+    self.offset = ftype(0.5 * (min + max))
+
+    # The remaining value is used for missing data
+    self.fill = dtype(-2**15)
 
     Var.__init__(self, var.axes, dtype=dtype)
 
@@ -46,11 +55,16 @@ class PackVar(Var):
     self.atts['packing_convention'] = 'NetCDF (16 bit)'
     self.atts['scale_factor'] = self.scale
     self.atts['add_offset'] = self.offset
+    self.atts['_FillValue'] = self.fill
   # }}}
 
   def getview (self, view, pbar):
   # {{{
-    return ((view.get(self.var, pbar) - self.offset) / self.scale).astype(self.dtype)
+    import numpy as np
+    data = (view.get(self.var, pbar) - np.float64(self.offset)) / self.scale
+    bad = np.isnan(data)
+    data = np.clip(np.round(data), -2**15 + 1, 2**15 - 1)
+    return np.where(bad, self.fill, data).astype(self.dtype)
   # }}}
 
 def autodetectformat(filename):
-- 
2.43.0


From 11d93e1c36d48730f78d4e216b8949490b31e393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:00 +0000
Subject: [PATCH 084/135] fix: variables of integer type could not be read from
 multi-file datasets

---
 pygeode/formats/multifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/multifile.py b/pygeode/formats/multifile.py
index dd7dcf6..a1a0961 100644
--- a/pygeode/formats/multifile.py
+++ b/pygeode/formats/multifile.py
@@ -341,7 +341,7 @@ class Multifile_Var (Var):
     from warnings import warn
 
     out = np.empty(view.shape, self.dtype)
-    out[()] = float('nan')
+    if self.dtype.kind in 'fc': out[()] = float('nan')
 
     # Get the times
     itime = view.index(Time)
-- 
2.43.0


From d6e42d039be0599f1424fd1a9e0e12280d6e2aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:00 +0000
Subject: [PATCH 085/135] fix: open_multi accepted files whose times are not
 aligned

---
 pygeode/formats/multifile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/multifile.py b/pygeode/formats/multifile.py
index a1a0961..cd56c0e 100644
--- a/pygeode/formats/multifile.py
+++ b/pygeode/formats/multifile.py
@@ -283,7 +283,7 @@ def open_multi (files, format=None, opener=None, pattern=None, file2date=None, *
       val2 = reltime(t2, startdate=t1.startdate)[-1]
       ntf = (val2 - val1)/dt
       nt = np.round(ntf)
-      if np.abs(ntf - nt) > 0.1 * dt:
+      if np.abs(ntf - nt) > 0.1:
         raise ValueError('Cannot infer well-formed time axis out of provided files. Times and dates in first and last file are not aligned.')
       nt = int(nt) + 1
       if nt <= 0:
-- 
2.43.0


From 641e522fc3b80e85a208501c767710bd1d055b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:00 +0000
Subject: [PATCH 086/135] fix: open_multi dropped the name of the time axis of
 files with one time each

---
 pygeode/formats/multifile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygeode/formats/multifile.py b/pygeode/formats/multifile.py
index cd56c0e..ca52b72 100644
--- a/pygeode/formats/multifile.py
+++ b/pygeode/formats/multifile.py
@@ -274,6 +274,8 @@ def open_multi (files, format=None, opener=None, pattern=None, file2date=None, *
     if max(len(t1),len(t2)) == 1:
       offset = reltime(t1, startdate=faxis.startdate, units=faxis.units)[0]
       taxis = faxis.withnewvalues(faxis.values + offset)
+      taxis.name = t1.name
+      taxis.atts = t1.atts.copy()
     # At least one of first/last files has multiple timesteps?
     else:
       assert t1.units == t2.units
-- 
2.43.0


From bd25ef1f6416856e0d87be74011b6ce8189eef10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:00 +0000
Subject: [PATCH 087/135] fix: check_multi reported gaps where there are none,
 because of rounding errors

---
 pygeode/formats/multifile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/formats/multifile.py b/pygeode/formats/multifile.py
index ca52b72..c63ed01 100644
--- a/pygeode/formats/multifile.py
+++ b/pygeode/formats/multifile.py
@@ -464,7 +464,8 @@ def check_multi (*args, **kwargs):
   # Check for uniformity in the data, and report any potential holes.
   dt = np.diff(full_taxis.values)
   expected_dt = min(dt[dt > 0])
-  gaps = full_taxis.values[np.where(dt > expected_dt)]
+  # (differences within rounding errors are no gaps)
+  gaps = full_taxis.values[np.where(dt > expected_dt*(1 + 1e-5))]
   if len(gaps) > 0:
     print("ERROR: detected gaps on or after file(s):")
     for filename in find_files(gaps):
-- 
2.43.0


From fe0b74abfb8c43973bc1fd578e096db9e432b5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:49 +0000
Subject: [PATCH 088/135] fix: ensembles cut the values of all members to the
 type of the first

---
 pygeode/ensemble.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pygeode/ensemble.py b/pygeode/ensemble.py
index cfca9d1..c2a470a 100644
--- a/pygeode/ensemble.py
+++ b/pygeode/ensemble.py
@@ -12,13 +12,16 @@ from pygeode.var import Var
 class EnsembleVar(Var):
   def __init__(self, varlist):
     from pygeode.var import Var, combine_meta
+    import numpy as np
     self.varlist = varlist
     # Assume the vars have already been checked for consistency
     var0 = varlist[0]
 
     # Add ensemble axis to start of axis list
     axes = [make_ensemble(len(varlist))] + list(var0.axes)
-    Var.__init__(self, axes, dtype=var0.dtype)
+    # Use a type that can hold the values of all members
+    dtype = np.result_type(*[v.dtype for v in varlist])
+    Var.__init__(self, axes, dtype=dtype)
 
     combine_meta (varlist, self)
     self.name = varlist[0].name
@@ -29,7 +32,7 @@ class EnsembleVar(Var):
     N = len(view.integer_indices[0])
     chunks = [[subview.get(self.varlist[i], pbar=pbar.part(n,N))]
               for n,i in enumerate(view.integer_indices[0])]
-    return np.concatenate(chunks, axis=0)
+    return np.asarray(np.concatenate(chunks, axis=0), self.dtype)
 
 del Var
 
-- 
2.43.0


From b6c067a8b0d4ee1c91d5b76194f213f61d674b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:49 +0000
Subject: [PATCH 089/135] fix: ensembles of datasets kept global attributes
 that the members don't have in common

---
 pygeode/ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/ensemble.py b/pygeode/ensemble.py
index c2a470a..8b4b6e2 100644
--- a/pygeode/ensemble.py
+++ b/pygeode/ensemble.py
@@ -74,7 +74,7 @@ def ensemble (*varlists):
     ensembles.append(ensemble)
 
   # Global attributes
-  atts = common_dict(dataset.atts for dataset in datasets)
+  atts = common_dict([dataset.atts for dataset in datasets])
   if isinstance(varlists[0], Dataset): return Dataset(ensembles, atts=atts)
   if isinstance(varlists[0], Var):
     assert len(ensembles) == 1
-- 
2.43.0


From da8a0fb604291514b6d849c8edac2256a90374b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:49 +0000
Subject: [PATCH 090/135] fix: merging attributes failed if the value is an
 array of several dimensions

---
 pygeode/tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygeode/tools.py b/pygeode/tools.py
index 6b62192..72d3109 100644
--- a/pygeode/tools.py
+++ b/pygeode/tools.py
@@ -113,6 +113,7 @@ def common_dtype (vars):
 # Common elements of a dictionary
 # Used mainly for the optional attributes (.atts) of a var, to copy any consistent values to the output
 def common_dict (*dicts):
+  import numpy as np
   if len(dicts) == 1 and islist(dicts[0]): dicts = dicts[0]
   # Merge it all into a single dictionary
   d = dict([(k,v) for x in dicts for k,v in x.items()])
@@ -121,7 +122,8 @@ def common_dict (*dicts):
   for k,v in list(d.items()):
     for x in dicts:
       if k in x:
-        t = (x[k] != v)
+        if isinstance(x[k], np.ndarray) or isinstance(v, np.ndarray): t = not np.array_equal(x[k], v)
+        else: t = (x[k] != v)
         # should we use '__iter__' instead, to exclude strings?
         if (hasattr(t, '__len__') and  any(t)) or (not hasattr(t, '__len__') and t): 
           del d[k]
-- 
2.43.0


From 548a309290a8f625f9a32d25074090359b709fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:16 +0000
Subject: [PATCH 091/135] fix: to_xarray failed for climatological and
 year-less time axes

---
 pygeode/ext_xarray.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pygeode/ext_xarray.py b/pygeode/ext_xarray.py
index ae645a3..de34af4 100644
--- a/pygeode/ext_xarray.py
+++ b/pygeode/ext_xarray.py
@@ -65,8 +65,19 @@ def to_xarray(dataset):
     out[var.name] = xr.DataArray(arr, dims = dims, attrs = var.atts, name=var.name)
   # Build the final xarray.Dataset.
   out = xr.Dataset(out, attrs=dataset.atts)
+  # Times that xarray has no representation for (no such calendar, or dates
+  # without a year) stay encoded.
+  undecoded = dict()
+  for name, var in out.variables.items():
+    if ' since ' not in str(var.attrs.get('units','')): continue
+    try:
+      xr.conventions.decode_cf(out[[name]])
+    except Exception:
+      undecoded[name] = var.attrs['units']
+  for name in undecoded: del out[name].attrs['units']
   # Re-decode the CF metadata on the xarray side.
   out = xr.conventions.decode_cf(out)
+  for name, units in undecoded.items(): out[name].attrs['units'] = units
   return out
 
 # Helper method - convert unicode attributes to str.
-- 
2.43.0


From 7503d8f36cf6280fe0fdd3ef057d7ed37cc8d68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:16 +0000
Subject: [PATCH 092/135] fix: from_xarray invented coordinates for dimensions
 that have none

---
 pygeode/ext_xarray.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygeode/ext_xarray.py b/pygeode/ext_xarray.py
index de34af4..f6d8cd4 100644
--- a/pygeode/ext_xarray.py
+++ b/pygeode/ext_xarray.py
@@ -98,11 +98,12 @@ class XArray_DataArray(Var):
   """
   def __init__ (self, name, arr):
     from pygeode.var import Var
-    from pygeode.axis import NamedAxis
+    from pygeode.axis import DummyAxis
     self._arr = arr
     # Extract axes and metadata.
     # Convert unicode strings to str for compatibility with PyGeode.
-    axes = [NamedAxis(n,str(d)) for n,d in zip(arr.shape,arr.dims)]
+    # (The dimensions have no coordinate values of their own)
+    axes = [DummyAxis(n,name=str(d)) for n,d in zip(arr.shape,arr.dims)]
     atts = _fix_atts(arr.attrs)
     Var.__init__(self, axes, name=str(name), dtype=arr.dtype, atts=atts)
   def getview (self, view, pbar):
-- 
2.43.0


From c835b41ea7659ee8201e54538b08b3265fcaa021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:16 +0000
Subject: [PATCH 093/135] fix: from_xarray dropped the association of
 coordinates with station axes

---
 pygeode/ext_xarray.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pygeode/ext_xarray.py b/pygeode/ext_xarray.py
index f6d8cd4..d275b30 100644
--- a/pygeode/ext_xarray.py
+++ b/pygeode/ext_xarray.py
@@ -148,6 +148,11 @@ def from_xarray(dataset):
     except AttributeError:
       pass # Using an older version of xarray (<0.10.0)?
     out.append(XArray_DataArray(varname, var))
+    # Refer to the coordinates which xarray associates with the dimensions
+    coords = [c for c in dataset.coords if c not in dataset.dims and dataset[c].ndim == 1 and dataset[c].dims[0] in var.dims]
+    if varname not in dataset.coords and len(coords) > 0:
+      coords = out[-1].atts.get('coordinates','').split() + [str(c) for c in coords]
+      out[-1].atts['coordinates'] = ' '.join(coords)
   # Wrap all the Var objects into a pygeode.Dataset object.
   out = Dataset(out, atts=_fix_atts(dataset.attrs))
   # Re-construct the axes as pygeode.axis.NamedAxis objects.
-- 
2.43.0


From 283671ef81bc4fdae8557e3b57a06d4b18bca4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:56 +0000
Subject: [PATCH 094/135] fix: to_xarray invented coordinates for dimensions
 that have none

---
 pygeode/ext_xarray.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pygeode/ext_xarray.py b/pygeode/ext_xarray.py
index d275b30..3c33ed8 100644
--- a/pygeode/ext_xarray.py
+++ b/pygeode/ext_xarray.py
@@ -18,6 +18,7 @@ def to_xarray(dataset):
   from pygeode.dataset import asdataset
   from pygeode.formats.cfmeta import encode_cf
   from pygeode.view import View
+  from pygeode.axis import DummyAxis
   from dask.base import tokenize
   import dask.array as da
   import xarray as xr
@@ -26,7 +27,9 @@ def to_xarray(dataset):
   dataset = encode_cf(dataset)
   out = dict()
   # Loop over each axis and variable.
-  for var in list(dataset.axes) + list(dataset.vars):
+  # (Dimensions without coordinate values don't have a variable)
+  axes = [a for a in dataset.axes if not isinstance(a,DummyAxis)]
+  for var in axes + list(dataset.vars):
     # Generate a unique name to identify it with dask.
     name = var.name + "-" + tokenize(var)
     dsk = dict()
-- 
2.43.0


From e4030e55ed8253589a03bfee3189a81d743a92f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:21 +0000
Subject: [PATCH 095/135] fix: operations on derived boolean values without
 axes could not be read

---
 pygeode/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/view.py b/pygeode/view.py
index c4a560e..dea9e21 100644
--- a/pygeode/view.py
+++ b/pygeode/view.py
@@ -277,7 +277,7 @@ class View:
 
     pbar.update(100)
 
-    assert isinstance(values,(np.ndarray,np.number)), "did not receive a valid array from %s"%repr(var)
+    assert isinstance(values,(np.ndarray,np.generic)), "did not receive a valid array from %s"%repr(var)
 
     if values.dtype != var.dtype:
       warn ("%s is supposed to return a %s, but is returning %s"%(repr(var),var.dtype.name,values.dtype.name))
-- 
2.43.0


From a610f63e6cfb225ae25d542a2db0d04ed3d445b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:21 +0000
Subject: [PATCH 096/135] fix: to_xarray failed if text was split into several
 chunks

---
 pygeode/ext_xarray.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pygeode/ext_xarray.py b/pygeode/ext_xarray.py
index 3c33ed8..e7ec54f 100644
--- a/pygeode/ext_xarray.py
+++ b/pygeode/ext_xarray.py
@@ -40,6 +40,11 @@ def to_xarray(dataset):
       out[var.name] = xr.DataArray(var.values, dims=dims, attrs=var.atts, name=var.name)
       continue
 
+    # Special case: text (the characters of a string can't be in separate chunks)
+    if var.dtype == '|S1':
+      out[var.name] = xr.DataArray(var.get(pbar=False), dims=dims, attrs=var.atts, name=var.name)
+      continue
+
     # Keep track of all the slices that were made over each dimension.
     # This information will be used to determine the "chunking" that was done
     # on the variable from inview.loop_mem().
-- 
2.43.0


From 928c3c56764ca597af4de017d68d261321b844f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:55 +0000
Subject: [PATCH 097/135] fix: from_xarray separated the text of axes from the
 axis

---
 pygeode/ext_xarray.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pygeode/ext_xarray.py b/pygeode/ext_xarray.py
index e7ec54f..dcfda0f 100644
--- a/pygeode/ext_xarray.py
+++ b/pygeode/ext_xarray.py
@@ -137,6 +137,8 @@ def from_xarray(dataset):
     An object which can be used with the pygeode package.
   """
   import xarray as xr
+  import numpy as np
+  from pygeode.var import Var
   from pygeode.dataset import Dataset
   from pygeode.formats.netcdf import dims2axes
   from pygeode.formats.cfmeta import decode_cf
@@ -165,6 +167,14 @@ def from_xarray(dataset):
   out = Dataset(out, atts=_fix_atts(dataset.attrs))
   # Re-construct the axes as pygeode.axis.NamedAxis objects.
   out = dims2axes(out)
+  # Text which encode_cf wrote for an axis, and xarray has decoded
+  listed = [name for var in out for name in var.atts.get('ancillary_variables','').split()]
+  varlist = list(out)
+  for i, var in enumerate(varlist):
+    if var.name[:-5] in listed and var.name.endswith('_name') and var.dtype.kind in 'SUO':
+      text = [s.decode() if isinstance(s,bytes) else str(s) for s in var.get().flat]
+      varlist[i] = Var(var.axes, values=np.array(text).reshape(var.shape), name=var.name[:-5], atts=var.atts)
+  out = Dataset(varlist, atts=out.atts)
   # Re-decode the CF metadata on the PyGeode end.
   # This will get the approperiate axis types for lat, lon, time, etc.
   out = decode_cf(out)
-- 
2.43.0


From e4e556dc4b9d35c8a8cc53a85bc3a31ab55818a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:26 +0000
Subject: [PATCH 098/135] fix: reading netCDF files from several threads
 returned wrong values or crashed

---
 pygeode/formats/netcdf.py | 13 ++++++++-----
 pygeode/libhelper.py      | 18 ++++++++++++++++++
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/pygeode/formats/netcdf.py b/pygeode/formats/netcdf.py
index 7882740..a53334f 100644
--- a/pygeode/formats/netcdf.py
+++ b/pygeode/formats/netcdf.py
@@ -2,9 +2,10 @@
 # Pygeode interface for netCDF files
 
 from ctypes import c_char_p
-from pygeode.libhelper import load_lib
+from pygeode.libhelper import load_lib, SerialLib, io_lock
 lib = load_lib('netcdf')
 lib.nc_strerror.restype = c_char_p
+lib = SerialLib(lib)
 del c_char_p
 
 # Map netcdf types to numpy types
@@ -260,12 +261,14 @@ class NCVar(Var):
   def getvalues (self, start, count):
   # {{{
     import numpy as np
-    already_opened = self._f.opened()
-    if not already_opened: self._f.open()
     # allocate space for loading the data
     out = np.empty(count, numpy_type[self._vtype])
-    load_values (self._f.fileid, self._varid, self._vtype, start, count, out)
-    if not already_opened: self._f.close()
+    # The file may be in use by other threads
+    with io_lock:
+      already_opened = self._f.opened()
+      if not already_opened: self._f.open()
+      load_values (self._f.fileid, self._varid, self._vtype, start, count, out)
+      if not already_opened: self._f.close()
 
     return out
   # }}}
diff --git a/pygeode/libhelper.py b/pygeode/libhelper.py
index 5035b4c..a343a7e 100644
--- a/pygeode/libhelper.py
+++ b/pygeode/libhelper.py
@@ -74,3 +74,21 @@ def load_lib (name, Global=False):
   mode = RTLD_GLOBAL if Global==True else RTLD_LOCAL
   return CDLL(libname, mode=mode)
 # }}}
+
+# Some libraries (netCDF, HDF5) can't be used by several threads at the same time.
+# This lock is held while one of them is in use.
+from threading import RLock
+io_lock = RLock()
+del RLock
+
+# Wrap such a library, so its functions are called one at a time
+class SerialLib(object):
+# {{{
+  def __init__ (self, lib): self._lib = lib
+  def __getattr__ (self, name):
+    f = getattr(self._lib, name)
+    def call (*args):
+      with io_lock: return f(*args)
+    setattr(self, name, call)
+    return call
+# }}}
-- 
2.43.0


From af21cd81084984fa21d4e1e4f986d61a43e639c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:26 +0000
Subject: [PATCH 099/135] fix: reading netCDF files with the netCDF4 module
 from several threads returned wrong values or crashed

---
 pygeode/formats/netcdf4.py | 56 +++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/pygeode/formats/netcdf4.py b/pygeode/formats/netcdf4.py
index 5a66e26..86596de 100644
--- a/pygeode/formats/netcdf4.py
+++ b/pygeode/formats/netcdf4.py
@@ -1,5 +1,19 @@
 # Pygeode interface for the netCDF4 Python module.
 
+# The netCDF4 module can't be used by several threads at the same time.
+from pygeode.libhelper import io_lock
+
+# Open a file; it's closed when there are no more references to it.
+def open_file (*args, **kwargs):
+  import netCDF4 as nc
+  class File(nc.Dataset):
+    def close (self, lock=io_lock):
+      with lock: return nc.Dataset.close(self)
+    def __del__ (self, lock=io_lock):
+      with lock:
+        if self.isopen(): self.close()
+  with io_lock: return File(*args, **kwargs)
+
 # A generic dimension (has no attributes except a name and a length)
 from pygeode.axis import DummyAxis
 class NCDim (DummyAxis): pass
@@ -40,10 +54,11 @@ class NCVar(Var):
     Var.__init__(self, axes=axes, name=name, dtype=ncvar.dtype, atts=atts)
   def getvalues (self, start, count):
     sl = [slice(s,s+c) for s,c in zip(start,count)]
-    if len(sl) > 0:
-      return self._ncvar[sl]
-    else:
-      return self._ncvar[:]
+    with io_lock:
+      if len(sl) > 0:
+        return self._ncvar[sl]
+      else:
+        return self._ncvar[:]
 del Var
 
 # A netcdf variable
@@ -108,8 +123,9 @@ def write_var (ncfile, dataset, unlimited=None, compress=False):
   axes = combine_axes(v.axes for v in vars)
 
   # Define the dimensions
-  for a in axes:
-    ncfile.createDimension(a.name, size=(None if a.name == unlimited else len(a)))
+  with io_lock:
+    for a in axes:
+      ncfile.createDimension(a.name, size=(None if a.name == unlimited else len(a)))
 
   # Integer types which aren't available in netCDF-3 are stored in a type that is
   # (same as in pygeode.formats.netcdf)
@@ -129,18 +145,21 @@ def write_var (ncfile, dataset, unlimited=None, compress=False):
   # Define the variables (including axes)
   for var in vars:
     dimensions = [a.name for a in var.axes]
-    v = ncfile.createVariable(var.name, datatype=types.get(var.dtype.name, var.dtype), dimensions=dimensions, zlib=compress, fill_value=var.atts.get('_FillValue',None))
-    v.set_auto_maskandscale(False)
-    v.setncatts(fix_atts(var.atts))
+    with io_lock:
+      v = ncfile.createVariable(var.name, datatype=types.get(var.dtype.name, var.dtype), dimensions=dimensions, zlib=compress, fill_value=var.atts.get('_FillValue',None))
+      v.set_auto_maskandscale(False)
+      v.setncatts(fix_atts(var.atts))
 
   # global attributes
-  ncfile.setncatts(fix_atts(dataset.atts))
+  with io_lock:
+    ncfile.setncatts(fix_atts(dataset.atts))
+    filename = ncfile.filepath()
 
   # Relative progress of each variable
   sizes = [v.size for v in vars]
   prog = np.cumsum([0.]+sizes) / np.sum(sizes) * 100
 
-  pbar = PBar(message="Saving '%s':"%ncfile.filepath())
+  pbar = PBar(message="Saving '%s':"%filename)
 
   # number of actual variables (non-axes) for determining our progress
   N = len([v for v in vars if not isinstance(v,Axis)])
@@ -154,7 +173,8 @@ def write_var (ncfile, dataset, unlimited=None, compress=False):
 
     for j,v in enumerate(views):
       vpbar = varpbar.part(j, len(views))
-      ncvar[v.slices] = v.get(var, pbar=vpbar)
+      data = v.get(var, pbar=vpbar)
+      with io_lock: ncvar[v.slices] = data
 
   pbar.update(100)
 # }}}
@@ -237,22 +257,21 @@ def open(filename, value_override = {}, dimtypes = {}, namemap = {},  varlist =
         not the names given in namemap.
         -The optional arguments are not currently supported for netcdf4 files containing groups.'''
 
-  import netCDF4 as nc
   from pygeode.dataset import asdataset
   from pygeode.formats import finalize_open
   from pygeode.axis import Axis
 
   # Read the file
   try:
-    f = nc.Dataset(filename,"r")
+    f = open_file(filename,"r")
     if f.groups:
-      dataset =  {str(key): make_dataset(value) for key, value in f.groups.items()}
+      with io_lock: dataset =  {str(key): make_dataset(value) for key, value in f.groups.items()}
       dataset =  {str(key): dims2axes(value) for key, value in dataset.items()}
       
       return {str(key): finalize_open(value) for key, value in dataset.items()}
           
     else: 
-      dataset = make_dataset(f)
+      with io_lock: dataset = make_dataset(f)
       # Add the object stuff from dimtypes to value_override, so we don't trigger a
       # load operation on those dims.
       # (We could use any values here, since they'll be overridden again later,
@@ -280,7 +299,6 @@ def open(filename, value_override = {}, dimtypes = {}, namemap = {},  varlist =
 # Write a dataset to netcdf
 def save (filename, in_dataset, version=4, pack=None, compress=False, cfmeta = True, unlimited=None):
 # {{{
-  import netCDF4 as nc
   from pygeode.view import View
   from pygeode.tools import combine_axes
   from pygeode.axis import Axis, DummyAxis
@@ -299,13 +317,13 @@ def save (filename, in_dataset, version=4, pack=None, compress=False, cfmeta = T
 
   assert format in ('NETCDF3_CLASSIC','NETCDF4')
   
-  with nc.Dataset(filename,'w',format=format) as f:
+  with open_file(filename,'w',format=format) as f:
     
     if isinstance(in_dataset, dict):
       dataset =  {key: finalize_save(asdataset(value), cfmeta, pack) for key, value in in_dataset.items()}
       dataset =  {key: tidy_axes(value, unlimited=unlimited) for key, value in dataset.items()}
       for key, value in dataset.items():
-        group = f.createGroup(key)
+        with io_lock: group = f.createGroup(key)
         write_var(group, value, unlimited=unlimited, compress=compress)
         
     else:
-- 
2.43.0


From 366a49ac004f8add72735f9a78a9fcdee772c6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:51 +0000
Subject: [PATCH 100/135] fix: closing files of the netCDF4 module when they
 are no longer used crashed

---
 pygeode/formats/netcdf4.py | 42 +++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/pygeode/formats/netcdf4.py b/pygeode/formats/netcdf4.py
index 86596de..efad5e8 100644
--- a/pygeode/formats/netcdf4.py
+++ b/pygeode/formats/netcdf4.py
@@ -3,16 +3,18 @@
 # The netCDF4 module can't be used by several threads at the same time.
 from pygeode.libhelper import io_lock
 
-# Open a file; it's closed when there are no more references to it.
-def open_file (*args, **kwargs):
-  import netCDF4 as nc
-  class File(nc.Dataset):
-    def close (self, lock=io_lock):
-      with lock: return nc.Dataset.close(self)
-    def __del__ (self, lock=io_lock):
-      with lock:
-        if self.isopen(): self.close()
-  with io_lock: return File(*args, **kwargs)
+# An open file; it's closed when there are no more references to it.
+class NCFile (object):
+  def __init__ (self, *args, **kwargs):
+    import netCDF4 as nc
+    self.dataset = None
+    with io_lock: self.dataset = nc.Dataset(*args, keepweakref=True, **kwargs)
+  def close (self, lock=io_lock):
+    with lock:
+      if self.dataset is not None and self.dataset.isopen(): self.dataset.close()
+  __del__ = close
+  def __enter__ (self): return self.dataset
+  def __exit__ (self, *args): self.close()
 
 # A generic dimension (has no attributes except a name and a length)
 from pygeode.axis import DummyAxis
@@ -46,8 +48,9 @@ def make_atts (v):
 # Delegates access to the arrays so they don't get loaded until needed.
 from pygeode.var import Var
 class NCVar(Var):
-  def __init__ (self, axes, name, ncvar, atts):
+  def __init__ (self, axes, name, ncvar, atts, file=None):
     from pygeode.var import Var
+    self._file = file
     self._ncvar = ncvar
     # Turn off netcdf4 masking and scaling algorithm so that they don't get applied twice
     ncvar.set_auto_maskandscale(False)
@@ -62,19 +65,19 @@ class NCVar(Var):
 del Var
 
 # A netcdf variable
-def make_var (ncvar):
+def make_var (ncvar, file=None):
 # {{{
   from pygeode.var import Var
   axes = [make_dim(str(name),size) for name,size in zip(ncvar.dimensions,ncvar.shape)]
-  return NCVar(axes=axes, name=str(ncvar.name), ncvar=ncvar, atts=make_atts(ncvar))
+  return NCVar(axes=axes, name=str(ncvar.name), ncvar=ncvar, atts=make_atts(ncvar), file=file)
 # }}}
 
 # A netcdf variable
-def make_dataset (ncfile):
+def make_dataset (ncfile, file=None):
 # {{{
   from pygeode.dataset import asdataset
   # Construct all the variables, put in a list
-  vars = list(map(make_var, list(ncfile.variables.values())))
+  vars = [make_var(ncvar, file) for ncvar in ncfile.variables.values()]
   
   # Construct a dataset from these Vars
   dataset = asdataset(vars)
@@ -263,15 +266,16 @@ def open(filename, value_override = {}, dimtypes = {}, namemap = {},  varlist =
 
   # Read the file
   try:
-    f = open_file(filename,"r")
+    file = NCFile(filename,"r")
+    f = file.dataset
     if f.groups:
-      with io_lock: dataset =  {str(key): make_dataset(value) for key, value in f.groups.items()}
+      with io_lock: dataset =  {str(key): make_dataset(value, file) for key, value in f.groups.items()}
       dataset =  {str(key): dims2axes(value) for key, value in dataset.items()}
       
       return {str(key): finalize_open(value) for key, value in dataset.items()}
           
     else: 
-      with io_lock: dataset = make_dataset(f)
+      with io_lock: dataset = make_dataset(f, file)
       # Add the object stuff from dimtypes to value_override, so we don't trigger a
       # load operation on those dims.
       # (We could use any values here, since they'll be overridden again later,
@@ -317,7 +321,7 @@ def save (filename, in_dataset, version=4, pack=None, compress=False, cfmeta = T
 
   assert format in ('NETCDF3_CLASSIC','NETCDF4')
   
-  with open_file(filename,'w',format=format) as f:
+  with NCFile(filename,'w',format=format) as f:
     
     if isinstance(in_dataset, dict):
       dataset =  {key: finalize_save(asdataset(value), cfmeta, pack) for key, value in in_dataset.items()}
-- 
2.43.0


From 5bf9f06c28d5036a244356b159c544004876fb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:03 +0000
Subject: [PATCH 101/135] fix: values of variables found by the file scanner
 could not be read

---
 pygeode/formats/data_scanner.py | 89 +++++++++++++--------------------
 1 file changed, 36 insertions(+), 53 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index 32bf1e3..b942412 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -202,10 +202,6 @@ class AxisManager (object):
     self._settified_axes = {}
     self._unsettified_axes = {}
 
-    # For union / intersection of axes
-    self._unions = {}
-    self._intersections = {}
-
   # Helper function: recycle an existing axis object if possible.
   # This allows axes to be compared by their ids, and makes pickling them
   # more space-efficient.
@@ -257,14 +253,10 @@ class AxisManager (object):
     """
     self.lookup_axes (axes)
 
-  # Convert an axis to unordered set of tuples
-  def _settify_axis (self, axis):
+  # The elements of an axis, in a form that can be compared between axes of the
+  # same type.
+  def _elements (self, axis):
     from pygeode.timeaxis import Time
-    axis = self.lookup_axis(axis)
-    axis_id = id(axis)
-    entry = self._settified_axes.get(axis_id,None)
-    if entry is not None: return entry
-
     # Varlist objects have no aux arrays, and we don't *need* the aux arrays
     # for time axes (can reconstruct this information later).
     if isinstance(axis,(_Varlist,Time)):
@@ -276,12 +268,19 @@ class AxisManager (object):
     # If there are aux arrays, need to pair the elements in the flatteded
     # version.
     if len(auxarrays) > 0:
-      flat = list(zip(axis.values, *auxarrays))
+      return list(zip(axis.values, *auxarrays))
     # Otherwise, just need the values themselves.
     else:
-      flat = axis.values
+      return list(axis.values)
 
-    out = frozenset(flat)
+  # Convert an axis to unordered set of tuples
+  def _settify_axis (self, axis):
+    axis = self.lookup_axis(axis)
+    axis_id = id(axis)
+    entry = self._settified_axes.get(axis_id,None)
+    if entry is not None: return entry
+
+    out = frozenset(self._elements(axis))
     self._settified_axes[axis_id] = out
 # disabled this - otherwise we get the original (unsorted) axis where we may
 # expect a sorted axis. (e.g. in DataVar)
@@ -332,17 +331,6 @@ class AxisManager (object):
     self._unsettified_axes[type(sample)][key] = axis
     return axis
 
-  # Find common values between axes
-  def _get_axis_intersection (self, axes):
-    key = tuple(sorted(map(id,axes)))
-    if key in self._intersections: return self._intersections[key]
-    values = list(map(self._settify_axis, axes))
-    values = reduce(frozenset.intersection, values, values[0])
-    intersection = self._unsettify_axis (axes[0], values)
-    if len(intersection) > 0:
-      self._intersections[key] = intersection
-    return intersection
-
 
 # A domain (essentially a tuple of axes, with no deep comparisons)
 class _Domain (object):
@@ -677,7 +665,6 @@ def _domain_as_dataset (domain, atts, table, axis_manager):
 
 # Wrap a variable from a domain into a Var object
 from pygeode.var import Var
-from functools import reduce
 class _DataVar(Var):
   @classmethod
   def construct (cls, varname, axes, atts, table, axis_manager):
@@ -697,40 +684,36 @@ class _DataVar(Var):
   def getview (self, view, pbar):
 
     import numpy as np
-    from pygeode.view import View, simplify
+    from pygeode.view import View
     out = np.empty(view.shape, dtype=self.dtype)
     out[()] = float('nan')
     out_axes = view.clip().axes
+    out_elements = [self._axis_manager._elements(a) for a in out_axes]
     # Loop over all available files.
     N = 0  # Number of points covered so far
     for filename, opener, axes in self._table:
-      subaxes = [self._axis_manager._get_axis_intersection([a1,a2]) for a1,a2 in zip(out_axes,axes)]
-      reorder = []
-      mask = []
-      if any(len(a)==0 for a in subaxes): continue
-      for a1,a2 in zip(out_axes,subaxes):
-        # Figure out where the input chunk fits into the output
-        re = np.searchsorted(a2.values, a1.values)
-        # Mask out elements that we don't actually have in the chunk
-        m = [r<len(a2.values) and a2.values[r]==v for r,v in zip(re,a1.values)]
-        m = np.array(m)
-        # Convert mask to integer indices
-        m = np.arange(len(m))[m]
-        # and then to a slice (where possible)
-        m = simplify(m)
-        re = re[m]
-        # Try to simplify the re-ordering array
-        if np.all(re == np.sort(re)):
-          re = simplify(re)
-        reorder.append(re)
-        mask.append(m)
+      # Match the axes of the file with the axes of the output
+      # (the order may differ, and the file may not have all of them).
+      match = [[i for i,a2 in enumerate(axes) if a2.name == a1.name and type(a2) is type(a1)] for a1 in out_axes]
+      order = [m[0] for m in match if len(m) > 0]
+      if len(order) < len(axes): continue
+      # Figure out which elements of the output are in the file
+      outind = []   # positions in the output
+      fileind = [None] * len(axes)  # positions in the file
+      for m, a1, elements in zip(match, out_axes, out_elements):
+        if len(m) == 0:
+          outind.append(np.arange(len(a1)))
+          continue
+        pos = dict((e,i) for i,e in enumerate(self._axis_manager._elements(axes[m[0]])))
+        outind.append(np.array([i for i,e in enumerate(elements) if e in pos], dtype=int))
+        fileind[m[0]] = np.array([pos[e] for e in elements if e in pos], dtype=int)
+      if any(len(ind) == 0 for ind in outind): continue
       var = [v for v in opener(filename) if v.name == self._varname][0]
-      v = View(subaxes)
-      chunk = v.get(var)
-      # Note: this may break if there is more than one axis with integer indices.
-      assert len([r for r in reorder if isinstance(r,(tuple,np.ndarray))]) <= 1, "Unhandled advanced indexing case."
-      assert len([m for m in mask if isinstance(m,(tuple,np.ndarray))]) <= 1, "Unhandled advanced indexing case."
-      out[mask] = chunk[reorder]
+      chunk = View(var.axes, force_integer_indices=fileind).get(var)
+      # Conform to the order (and shape) of the output
+      chunk = chunk.transpose(order)
+      shape = [len(ind) if len(m) > 0 else 1 for m,ind in zip(match,outind)]
+      out[np.ix_(*outind)] = chunk.reshape(shape)
       N = N + chunk.size
       pbar.update(100.*N/out.size)
 
-- 
2.43.0


From 4eedcb78b2e590fcc500f97e2be29be2ac392716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:15 +0000
Subject: [PATCH 102/135] fix: the file scanner missed changes of files, and
 failed if its manifest is damaged

---
 pygeode/formats/data_scanner.py | 73 ++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 38 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index b942412..0c87333 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -28,37 +28,33 @@ __all__ = ['AxisManager','DataInterface','from_files']
 # Current version of the manifest file format.
 # If this version doesn't match the existing manifest file, then the manifest
 # is re-generated.
-_MANIFEST_VERSION="3"
+_MANIFEST_VERSION="4"
 
 # Interface for creating / reading a manifest file.
 class _Manifest(object):
 
   # Start using a manifest file (and read the existing entries if available).
   def __init__(self, filename=None, axis_manager=None):
-    from os.path import exists, getmtime
+    from os.path import exists
     import gzip
     import pickle as pickle
 
     self.filename = filename
 
+    self.table = {}   # Entries for each file
+    self.stamps = {}  # State of each file at the time its entries were read
+
     # If there's already a manifest file on disk, read it.
     if filename is not None and exists(filename):
-      with gzip.open(filename,'r') as f:
-        version = pickle.load(f)
-        table = f.read()
-        try:
-          self.table = pickle.loads(table)
-        except (ImportError, AttributeError, EOFError):
-          version = None  # Unable to read the symbols, so treat this as an
-                          # incompatible version
-      # Use the modification time for the manifest to determine if a data file
-      # has been updated since last time we saved the manifest.
-      self.mtime = getmtime(filename)
-    # If we don't have an existing file, or it's the wrong version, then we
-    # start with an empty table.
-    if filename is None or not exists(filename) or version != _MANIFEST_VERSION:
-      self.table = {}
-      self.mtime = 0
+      try:
+        with gzip.open(filename,'r') as f:
+          if pickle.load(f) == _MANIFEST_VERSION:
+            table, stamps = pickle.loads(f.read())
+            self.table, self.stamps = dict(table), dict(stamps)
+      except Exception:
+        # Unable to read the manifest (or the symbols it uses), so treat this
+        # as an incompatible version.
+        pass
 
     # Collect the axes from the manifest, so we can re-use the objects where
     # possible for new files.
@@ -79,9 +75,16 @@ class _Manifest(object):
     # particular files included in their query).
     self.selected_files = []
 
+  # Get the state of a file, to determine if it has been updated.
+  @staticmethod
+  def _stamp (filename):
+    from os import stat
+    st = stat(filename)
+    return (st.st_mtime_ns, st.st_size)
+
   # Scan through all the given files, add the info to the manifest.
   def scan_files (self, files, opener):
-    from os.path import getmtime, normpath
+    from os.path import normpath
     from pygeode.progress import PBar
 
     table = self.table
@@ -104,25 +107,20 @@ class _Manifest(object):
     # Construct / add to the table
     for i,f in enumerate(files):
       pbar.update(i*100./len(files))
-      if f in table:
-        # File has changed since last time?
-        if int(getmtime(f)) > self.mtime:
-          # Remove existing info
-          del table[f]
-        else:
-          # Otherwise, we've already dealt with the file, so skip it.
-          continue
-      # Always use the latest modification time to represent the valid time of
-      # the whole table.
-      self.mtime = max(self.mtime,int(getmtime(f)))
+      # (check the state before the file is read, in case it changes in between)
+      stamp = self._stamp(f)
+      # If the file hasn't changed since last time, then we've already dealt
+      # with it.
+      if f in table and self.stamps.get(f,None) == stamp: continue
 
       # Record all variables from the file.
       entries = []
-      table[f] = entries
       for var in opener(f):
 
         axes = self.axis_manager.lookup_axes(var.axes)
         entries.append((var.name, axes, var.atts))
+      table[f] = entries
+      self.stamps[f] = stamp
 
       self.modified_table = True
 
@@ -141,20 +139,19 @@ class _Manifest(object):
   # Save the data back to disk, if it's been modified.
   # This is called once the manifest is no longer in use.
   def save (self):
-    from os.path import exists, getatime, getmtime, normpath
-    from os import utime
+    from os import replace, getpid
     import gzip
     import pickle as pickle
     from pygeode.progress import PBar
 
     if self.modified_table is True and self.filename is not None:
-      with gzip.open(self.filename,'w') as f:
+      # Replace the old manifest only when the new one is complete.
+      tmpfile = "%s.%d.tmp"%(self.filename,getpid())
+      with gzip.open(tmpfile,'w') as f:
         pickle.dump(_MANIFEST_VERSION, f)
-        blob = pickle.dumps(self.table)
+        blob = pickle.dumps((self.table, self.stamps))
         f.write(blob)
-      # Set the modification time to the latest file that was used.
-      atime = getatime(self.filename)
-      utime(self.filename,(atime,self.mtime))
+      replace(tmpfile, self.filename)
 
       self.modified_table = False
 
-- 
2.43.0


From 5d9ab1d8b50c890267d0e77a7718baa0765e189b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:15 +0000
Subject: [PATCH 103/135] fix: the file scanner failed if paths are not
 normalized

---
 pygeode/formats/data_scanner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index 0c87333..27660f0 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -92,13 +92,13 @@ class _Manifest(object):
     # Special case: no files given
     if len(files) == 0: return
 
-    self.selected_files.extend(files)
-
     # Strip out extra separators, etc. from the filenames.
     # Otherwise, if the files are scanned a second time with different
     # separators, it may cause the same file to be included more than once.
     files = [normpath(f) for f in files]
 
+    self.selected_files.extend(files)
+
     if self.filename is not None:
       pbar = PBar (message = "Scanning files for %s"%self.filename)
     else:
-- 
2.43.0


From fe4695dcc837f3528199501e84323613cc99cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:15 +0000
Subject: [PATCH 104/135] fix: the file scanner confused axes of different
 names, orders, units and reference dates

---
 pygeode/formats/data_scanner.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index 27660f0..14f86e1 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -250,10 +250,26 @@ class AxisManager (object):
     """
     self.lookup_axes (axes)
 
+  # Check for time axes that have full dates
+  def _has_dates (self, axis):
+    from pygeode.timeaxis import CalendarTime
+    return isinstance(axis,CalendarTime) and 'year' in axis.auxarrays and 'startdate' in axis.auxatts
+
+  # Convert dates to seconds since a common reference date
+  _reference_date = dict(year=2000,month=1,day=1)
+  def _seconds (self, axis):
+    from pygeode.timeutils import reltime
+    import numpy as np
+    return np.round(reltime(axis, startdate=self._reference_date, units='seconds'))
+
   # The elements of an axis, in a form that can be compared between axes of the
   # same type.
   def _elements (self, axis):
     from pygeode.timeaxis import Time
+    # For times, use the date (the axes may have different units and reference
+    # dates).
+    if self._has_dates(axis):
+      return [int(x) for x in self._seconds(axis)]
     # Varlist objects have no aux arrays, and we don't *need* the aux arrays
     # for time axes (can reconstruct this information later).
     if isinstance(axis,(_Varlist,Time)):
@@ -286,10 +302,13 @@ class AxisManager (object):
 
   # Convert some settified coordinates back into an axis
   def _unsettify_axis (self, sample, values):
+    from pygeode.timeutils import reltime
     import numpy as np
     # Check if we can already get one
-    key = values
-    axis = self._unsettified_axes.setdefault(type(sample),dict()).get(key,None)
+    # (The registered sample determines the name, order, etc.)
+    sample = self.lookup_axis(sample)
+    key = (id(sample), values)
+    axis = self._unsettified_axes.get(key,None)
     if axis is not None: return axis
 
     values = sorted(values)
@@ -300,6 +319,10 @@ class AxisManager (object):
     # Check if the axis is degenerate
     if len(values) == 0:
       axis = sample.withnewvalues(values)
+    # Do we have dates?
+    elif self._has_dates(sample):
+      axis = type(sample)(values=np.array(values,dtype=float), units='seconds', startdate=self._reference_date)
+      axis = sample.withnewvalues(reltime(axis, startdate=sample.startdate, units=sample.units))
     # Do we have aux array pairs to deal with?
     elif isinstance(values[0],tuple):
       x = list(zip(*values))
@@ -325,7 +348,7 @@ class AxisManager (object):
 
     axis = self.lookup_axis(axis)
 
-    self._unsettified_axes[type(sample)][key] = axis
+    self._unsettified_axes[key] = axis
     return axis
 
 
-- 
2.43.0


From 3b11c6433e52b7b8ef7c9108d35535edc14b9288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:15 +0000
Subject: [PATCH 105/135] fix: the file scanner confused axes of different
 types

---
 pygeode/formats/data_scanner.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index 14f86e1..b9e98ef 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -358,9 +358,15 @@ class _Domain (object):
     # Sample axis objects, for reconstructing axes of these types.
     # (may not contain the actual data that will be reconstructed).
     self.axis_samples = tuple(axis_samples)
-    self.axis_names = tuple([a.name for a in axis_samples])
+    # Axes of different types don't match, even if they have the same name.
+    self.axis_names = tuple([self.axis_id(a) for a in axis_samples])
     # Store the axis values as sets, to make unions/intersections faster.
     self.axis_values = tuple(axis_values)
+  # The string that identifies an axis
+  @staticmethod
+  def axis_id (axis):
+    if isinstance(axis,_Varlist): return axis.name
+    return "%s (%s)"%(axis.name,type(axis).__name__)
   def __eq__(self, other):
     if self.axis_names != other.axis_names:
       return False
@@ -413,9 +419,8 @@ def _get_axis_names (domains):
       names.append(name)
   names = list(reversed(names))
   # Special case: time axis should be handled first (makes aggregating faster)
-  if 'time' in names:
-    names.remove('time')
-    names = ['time'] + names
+  times = [n for n in names if n.startswith('time ')]
+  names = times + [n for n in names if n not in times]
   return tuple(names)
 
 
@@ -491,7 +496,7 @@ def _merge_domains (d1, d2):
   merge_axes = []
   non_intersectable = 0
   for iaxis,v1 in enumerate(d1.axis_values):
-    axis_name = d1.axis_samples[iaxis].name
+    axis_name = d1.axis_names[iaxis]
     if d2.has_axis(axis_name):
       v2 = d2.get_axis_values(axis_name)
     else:
@@ -690,8 +695,8 @@ class _DataVar(Var):
   def construct (cls, varname, axes, atts, table, axis_manager):
 
     # Reduce the axes to only those that the variable actually has
-    axis_names = set(a.name for f,o,_axes in table for a in _axes)
-    axes = [a for a in axes if a.name in axis_names]
+    axis_names = set(_Domain.axis_id(a) for f,o,_axes in table for a in _axes)
+    axes = [a for a in axes if _Domain.axis_id(a) in axis_names]
     axis_manager.register_axes(axes)
 
     obj = cls(axes, name=varname, dtype=float, atts=atts)
@@ -714,7 +719,7 @@ class _DataVar(Var):
     for filename, opener, axes in self._table:
       # Match the axes of the file with the axes of the output
       # (the order may differ, and the file may not have all of them).
-      match = [[i for i,a2 in enumerate(axes) if a2.name == a1.name and type(a2) is type(a1)] for a1 in out_axes]
+      match = [[i for i,a2 in enumerate(axes) if _Domain.axis_id(a2) == _Domain.axis_id(a1)] for a1 in out_axes]
       order = [m[0] for m in match if len(m) > 0]
       if len(order) < len(axes): continue
       # Figure out which elements of the output are in the file
-- 
2.43.0


From 038a7686be0259e6fe25cce8525443d0ec2809d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:15 +0000
Subject: [PATCH 106/135] fix: find_best failed for lists of functions

---
 pygeode/formats/data_scanner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index b9e98ef..c0c143e 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -854,7 +854,7 @@ class DataInterface (object):
       return sorted((v.name,v.shape) for v in varlist)
     candidates = sorted(candidates, key=domain_size, reverse=True)
 
-    if isinstance(maximize,tuple):
+    if isinstance(maximize,(list,tuple)):
       # Will be sorted by increasing order, so need to reverse the cost
       # functions here.
       maximize = lambda x,F=maximize: [-f(x) for f in F]
@@ -862,7 +862,7 @@ class DataInterface (object):
       # Always need to invert the sign to get the maximum value first.
       maximize = lambda x,f=maximize: -f(x)
 
-    if isinstance(minimize,tuple):
+    if isinstance(minimize,(list,tuple)):
       minimize = lambda x,F=minimize: [f(x) for f in F]
 
 
-- 
2.43.0


From 27be7eae85aa0ddb6c8d6ef714347ebf1eb9705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:55 +0000
Subject: [PATCH 107/135] fix: the file scanner failed for hybrid levels, and
 lost climatological times

---
 pygeode/formats/data_scanner.py | 40 +++++++++++----------------------
 1 file changed, 13 insertions(+), 27 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index c0c143e..29aff27 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -250,29 +250,16 @@ class AxisManager (object):
     """
     self.lookup_axes (axes)
 
-  # Check for time axes that have full dates
-  def _has_dates (self, axis):
-    from pygeode.timeaxis import CalendarTime
-    return isinstance(axis,CalendarTime) and 'year' in axis.auxarrays and 'startdate' in axis.auxatts
-
-  # Convert dates to seconds since a common reference date
-  _reference_date = dict(year=2000,month=1,day=1)
-  def _seconds (self, axis):
-    from pygeode.timeutils import reltime
-    import numpy as np
-    return np.round(reltime(axis, startdate=self._reference_date, units='seconds'))
-
   # The elements of an axis, in a form that can be compared between axes of the
   # same type.
   def _elements (self, axis):
     from pygeode.timeaxis import Time
     # For times, use the date (the axes may have different units and reference
     # dates).
-    if self._has_dates(axis):
-      return [int(x) for x in self._seconds(axis)]
-    # Varlist objects have no aux arrays, and we don't *need* the aux arrays
-    # for time axes (can reconstruct this information later).
-    if isinstance(axis,(_Varlist,Time)):
+    if isinstance(axis,Time):
+      return list(zip(*[axis.auxarrays[f].tolist() for f in axis.allowed_fields if f in axis.auxarrays]))
+    # Varlist objects have no aux arrays.
+    if isinstance(axis,_Varlist):
       auxarrays = []
     else:
       auxarrays = [[(name,v) for v in axis.auxarrays[name]] for name in sorted(axis.auxarrays.keys())]
@@ -302,7 +289,7 @@ class AxisManager (object):
 
   # Convert some settified coordinates back into an axis
   def _unsettify_axis (self, sample, values):
-    from pygeode.timeutils import reltime
+    from pygeode.timeaxis import Time
     import numpy as np
     # Check if we can already get one
     # (The registered sample determines the name, order, etc.)
@@ -320,9 +307,10 @@ class AxisManager (object):
     if len(values) == 0:
       axis = sample.withnewvalues(values)
     # Do we have dates?
-    elif self._has_dates(sample):
-      axis = type(sample)(values=np.array(values,dtype=float), units='seconds', startdate=self._reference_date)
-      axis = sample.withnewvalues(reltime(axis, startdate=sample.startdate, units=sample.units))
+    elif isinstance(sample,Time):
+      fields = [f for f in sample.allowed_fields if f in sample.auxarrays]
+      fields = dict((f,np.array(x)) for f,x in zip(fields,zip(*values)))
+      axis = type(sample)(name=sample.name, atts=sample.atts, **dict(sample.auxatts, **fields))
     # Do we have aux array pairs to deal with?
     elif isinstance(values[0],tuple):
       x = list(zip(*values))
@@ -331,11 +319,7 @@ class AxisManager (object):
       for aux in x[1:]:
         name, arr = list(zip(*aux))
         auxarrays[name[0]] = np.array(arr)
-      axis = sample.withnewvalues(values)
-      # Only update the auxarrays if we have something to put
-      # For empty axes, we don't want to erase the (empty) auxarrays already
-      # created e.g. for the time axis.
-      if len(auxarrays) > 0: axis.auxarrays = auxarrays
+      axis = type(sample)(values, name=sample.name, atts=sample.atts, **dict(sample.auxatts, **auxarrays))
 
     # Do we have a Varlist pseudo-axis?
     elif isinstance(sample,_Varlist):
@@ -366,7 +350,9 @@ class _Domain (object):
   @staticmethod
   def axis_id (axis):
     if isinstance(axis,_Varlist): return axis.name
-    return "%s (%s)"%(axis.name,type(axis).__name__)
+    # (nor do those with different auxiliary arrays)
+    fields = sorted(axis.auxarrays.keys())
+    return "%s (%s)"%(axis.name,' '.join([type(axis).__name__]+fields))
   def __eq__(self, other):
     if self.axis_names != other.axis_names:
       return False
-- 
2.43.0


From bcb557668179c900b483453a0fc083d478c4f083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:55 +0000
Subject: [PATCH 108/135] fix: the file scanner lost variables whose axes are
 in a different order in some files

---
 pygeode/formats/data_scanner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index 29aff27..983dc4c 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -541,7 +541,7 @@ def _cleanup_subdomains (domains):
   junk_domains = set()
   for d1 in domains:
     for d2 in domains:
-      if d1 is d2: continue
+      if d1 is d2 or d2 in junk_domains: continue
       assert d1 != d2
       if _get_axis_names([d1]) != _get_axis_names([d2]): continue
       axis_names = _get_axis_names([d2])
-- 
2.43.0


From 08b45b1f7eda9e2ba87405b4cd485d665754907e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:55 +0000
Subject: [PATCH 109/135] fix: the file scanner failed if attributes are arrays

---
 pygeode/formats/data_scanner.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pygeode/formats/data_scanner.py b/pygeode/formats/data_scanner.py
index 983dc4c..e189f51 100644
--- a/pygeode/formats/data_scanner.py
+++ b/pygeode/formats/data_scanner.py
@@ -584,8 +584,7 @@ def _get_var_info(manifest,opener):
   table = dict()
   for filename, entries in manifest.items():
     for _varname, _axes, _atts in entries:
-      _attslist = atts.setdefault(_varname,[])
-      if _atts not in _attslist: _attslist.append(_atts)
+      atts.setdefault(_varname,[]).append(_atts)
       table.setdefault(_varname,[]).append((filename, opener, _axes))
   atts = dict((_varname,common_dict(_attslist)) for (_varname,_attslist) in atts.items())
   return atts, table
-- 
2.43.0


From 4105abc0c24038f28a23a33a7d468eaf2b306fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:37 +0000
Subject: [PATCH 110/135] fix: EOF_cov returned eigenvalues and timeseries
 scaled differently from the other solvers

---
 pygeode/eof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/eof.py b/pygeode/eof.py
index 42c404c..31be77d 100644
--- a/pygeode/eof.py
+++ b/pygeode/eof.py
@@ -394,7 +394,7 @@ def EOF_cov (x, num=1, iaxis=None, weight=True, out=None):
     cov += np.dot(X.transpose(),X)
 
   # Decompose the eigenvectors & eigenvalues
-  w, v = np.linalg.eigh(cov/(time.size-1))
+  w, v = np.linalg.eigh(cov)
 
   variance = w.sum()
   eig = np.sqrt(w[::-1][:num])
-- 
2.43.0


From 4580d313d254389ee52585adedaeb30f5cff908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:37 +0000
Subject: [PATCH 111/135] fix: EOF failed if the record axis is given by name
 or as an axis object

---
 pygeode/eof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/eof.py b/pygeode/eof.py
index 31be77d..c09c106 100644
--- a/pygeode/eof.py
+++ b/pygeode/eof.py
@@ -88,7 +88,7 @@ def prep (var, iaxis, weight, out):
   # Keep the record axis/axes as a tuple
   # (in case we have more than one axis, i.e. time and ensemble)
   if not isinstance(timeaxes,(list,tuple)):
-    assert isinstance(timeaxes,int) or issubclass(timeaxes,Axis), 'unknown iaxis type %s'%type(timeaxes)
+    assert isinstance(timeaxes,(int,str,Axis)) or issubclass(timeaxes,Axis), 'unknown iaxis type %s'%type(timeaxes)
     timeaxes = [timeaxes]
 
   # Convert the axes to integer ids
-- 
2.43.0


From d05ea2d85f6fdef4e78f45d169d137a1534120f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:37 +0000
Subject: [PATCH 112/135] fix: EOF failed if no weights are requested with None

---
 pygeode/eof.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/eof.py b/pygeode/eof.py
index c09c106..84d933e 100644
--- a/pygeode/eof.py
+++ b/pygeode/eof.py
@@ -14,7 +14,7 @@ del Axis
 
 def apply_weights (var, weight):
   # Normalize by area weight?
-  if weight is not False:
+  if weight is not False and weight is not None:
     if weight is True:  weight = var.getweights()
     W = weight.sum() / weight.size
     weight /= W
@@ -27,7 +27,7 @@ def apply_weights (var, weight):
 def remove_weights (var, weight):
   # Undo normalization by area weight?
   # (should be the exact opposite of the 'weight' function
-  if weight is not False:
+  if weight is not False and weight is not None:
     if weight is True:  weight = var.getweights()
     W = weight.sum() / weight.size
     weight /= W
-- 
2.43.0


From 46704b2d90eb89f718633e4fd244daddf94cbedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:37 +0000
Subject: [PATCH 113/135] fix: EOF returned wrong values if the record axis is
 not the first axis

---
 pygeode/eof.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pygeode/eof.py b/pygeode/eof.py
index 84d933e..d2d010d 100644
--- a/pygeode/eof.py
+++ b/pygeode/eof.py
@@ -95,9 +95,14 @@ def prep (var, iaxis, weight, out):
   timeaxes = [var.whichaxis(a) for a in timeaxes]
   spaceaxes = [i for i in range(var.naxes) if i not in timeaxes]
 
+  # Put the record axes first
+  if timeaxes + spaceaxes != list(range(var.naxes)):
+    var = var.transpose(*(timeaxes + spaceaxes))
+    var.name = name
+
   # Convert to axis objects
-  timeaxes = [var.axes[i] for i in timeaxes]
-  spaceaxes = [var.axes[i] for i in spaceaxes]
+  spaceaxes = var.axes[len(timeaxes):]
+  timeaxes = var.axes[:len(timeaxes)]
 
   # Create a view, to hold the axes together
   # (provides us with other useful stuff, like a notion of 'shape' and 'size')
-- 
2.43.0


From cababc38af642c9881492a81a1ac06b86cc922b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:37 +0000
Subject: [PATCH 114/135] fix: EOF_iter returned wrong values if there are
 several record axes

---
 pygeode/eof.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pygeode/eof.py b/pygeode/eof.py
index d2d010d..93d4ffb 100644
--- a/pygeode/eof.py
+++ b/pygeode/eof.py
@@ -207,7 +207,7 @@ def EOF_iter (x, num=1, iaxis=None, subspace = -1, max_iter=1000, weight=True, o
   del iaxis
 
   eofshape =  (subspace,) + space.shape
-  pcshape =  time.shape + (subspace,)
+  pcshape =  (time.size, subspace)
 
   pcs = np.empty(pcshape,dtype='d')
 
@@ -236,15 +236,16 @@ def EOF_iter (x, num=1, iaxis=None, subspace = -1, max_iter=1000, weight=True, o
     neweofs[()] = 0
 
     # Apply the covariance matrix
+    time_offset = 0
     for inview in View(x.axes).loop_mem():
       X = np.ascontiguousarray(inview.get(x), dtype='d')
       assert X.size >= space.size, "spatial pattern is too large"
 
-      nt = inview.shape[0]
-      time_offset = inview.slices[0].start
+      nt = X.size // space.size
       ier = lib.build_eofs (subspace, nt, NX, X, oldeofs,
                             neweofs, pcs[time_offset,...])
       assert ier == 0
+      time_offset += nt
 
       # Compute variance?
       if iter_num == 1:
-- 
2.43.0


From 303eede623c23544f99a2d6fcb58769a5802df7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:37 +0000
Subject: [PATCH 115/135] fix: EOF_iter did not converge if there are zeros in
 the patterns

---
 pygeode/eof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/eof.py b/pygeode/eof.py
index 93d4ffb..33a9a33 100644
--- a/pygeode/eof.py
+++ b/pygeode/eof.py
@@ -278,7 +278,7 @@ def EOF_iter (x, num=1, iaxis=None, subspace = -1, max_iter=1000, weight=True, o
 #    for i in range(num):
 #      print [np.dot(neweofs[i,...].flatten(), neweofs[j,...].flatten()) for j in range(num)]
 
-    if np.allclose(oldeofs[:num,...],neweofs[:num,...], atol=0):
+    if np.allclose(oldeofs[:num,...],neweofs[:num,...]):
       print('converged after %d iterations'%iter_num)
       break
 
-- 
2.43.0


From 8d05b19980eb17ff67cd63c64952de85515d2a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:48 +0000
Subject: [PATCH 116/135] fix: EOF_guess and EOF_iter failed if the rank of the
 data is small

---
 pygeode/eof.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/eof.c b/pygeode/eof.c
index be694c5..c66a9c6 100644
--- a/pygeode/eof.c
+++ b/pygeode/eof.c
@@ -154,7 +154,8 @@ void svd (int nx, int N, int m, double *A, double *U, double *eig, double *V) {
   // Compute V and outer eigenvalues
   for (int i = 0; i < m; i++) {
     memcpy (V+i*N, C[N-1-i], N*sizeof(double));
-    eig[i] = sqrt(e[N-1-i]);
+    // (may be slightly negative due to round-off)
+    eig[i] = e[N-1-i] > 0 ? sqrt(e[N-1-i]) : 0;
   }
   // Compute U
   transform (nx, N, m, A, V, U);
-- 
2.43.0


From 50605a5b1f4d5c887cb864dc1c8d6ddd506ca55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:51 +0000
Subject: [PATCH 117/135] fix: EOF_iter did not converge if the first value of
 a pattern is zero

---
 pygeode/eof.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pygeode/eof.py b/pygeode/eof.py
index 33a9a33..52432ed 100644
--- a/pygeode/eof.py
+++ b/pygeode/eof.py
@@ -274,6 +274,11 @@ def EOF_iter (x, num=1, iaxis=None, subspace = -1, max_iter=1000, weight=True, o
     # Normalize
     lib.normalize (subspace, NX, neweofs)
 
+    # Keep the signs from the previous iteration
+    # (the ones from the normalization are arbitrary if the first value is 0)
+    for old, new in zip(oldeofs, neweofs):
+      if (old*new).sum() < 0: new *= -1
+
 #    # verify orthogonality
 #    for i in range(num):
 #      print [np.dot(neweofs[i,...].flatten(), neweofs[j,...].flatten()) for j in range(num)]
-- 
2.43.0


From a889837fef5ef9ab70a75b10dbb47722266bd1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:29 +0000
Subject: [PATCH 118/135] fix: EOF_iter missed the leading patterns if the
 initial guess is orthogonal to them

---
 pygeode/eof.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pygeode/eof.py b/pygeode/eof.py
index 52432ed..566450e 100644
--- a/pygeode/eof.py
+++ b/pygeode/eof.py
@@ -215,7 +215,9 @@ def EOF_iter (x, num=1, iaxis=None, subspace = -1, max_iter=1000, weight=True, o
   # Seed with initial guess (in the weighted space)
   neweofs = apply_weights (guess_eof, weight=weight).get()
   neweofs = np.array(neweofs, dtype='d')  # so we can write
-#  neweofs = np.random.rand(*eofshape)
+  # Add small values in all directions, so the leading patterns are found even
+  # if the guess is orthogonal to them
+  neweofs += 1e-3 * np.random.RandomState(0).uniform(-1, 1, eofshape)
 
   # Workspace for smaller representative matrix
   work1 = np.empty([subspace,subspace], dtype='d')
-- 
2.43.0


From dc98e161f364b1ea215389d67ddc7b825ef77e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:24 +0000
Subject: [PATCH 119/135] fix: SVD did not converge if there are zeros in the
 patterns

---
 pygeode/svd.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pygeode/svd.py b/pygeode/svd.py
index c8e0a38..afe6759 100644
--- a/pygeode/svd.py
+++ b/pygeode/svd.py
@@ -248,8 +248,13 @@ def SVD (var1, var2, num=1, subspace=-1, iaxis=Time, weight1=True, weight2=True,
     lib.normalize (subspace, NX1, Y)
     lib.normalize (subspace, NX2, V)
 
-    if not np.allclose(U[:num,...],Y[:num,...], atol=0): continue
-    if not np.allclose(X[:num,...],V[:num,...], atol=0): continue
+    # Keep the signs from the previous iteration
+    # (the ones from the normalization are arbitrary if the first value is 0)
+    for old, new in list(zip(U, Y)) + list(zip(X, V)):
+      if (old*new).sum() < 0: new *= -1
+
+    if not np.allclose(U[:num,...],Y[:num,...]): continue
+    if not np.allclose(X[:num,...],V[:num,...]): continue
     print('converged after %d iterations'%iter_num)
     break
 
-- 
2.43.0


From 5c669494b39e87df87dee1bc5f3297b3abf2e9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:53 +0000
Subject: [PATCH 120/135] fix: SVD failed if the rank of the covariance matrix
 is small

---
 pygeode/svd.c  | 1 +
 pygeode/svd.py | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pygeode/svd.c b/pygeode/svd.c
index 6c3ec97..670e6c1 100644
--- a/pygeode/svd.c
+++ b/pygeode/svd.c
@@ -104,6 +104,7 @@ int normalize (int num_eofs, int nx, double *U) {
     double n = 0;
     for (int x = 0; x < nx; x++) n += U_[x] * U_[x];
     n = sqrt(n);
+    if (n == 0) continue;
     // Normalize
     for (int x = 0; x < nx; x++) U_[x] /= n;
   }
diff --git a/pygeode/svd.py b/pygeode/svd.py
index afe6759..9cc0d2e 100644
--- a/pygeode/svd.py
+++ b/pygeode/svd.py
@@ -221,8 +221,8 @@ def SVD (var1, var2, num=1, subspace=-1, iaxis=Time, weight1=True, weight2=True,
     lib.dot(subspace, NX1, Y, Y, YtY)
 
     # Compute surrogate matrices (using all available information from this iteration)
-    A1, residues, rank, s = np.linalg.lstsq(UtAX,VtV,rcond=1e-30)
-    A2, residues, rank, s = np.linalg.lstsq(XtAtU,YtY,rcond=1e-30)
+    A1, residues, rank, s = np.linalg.lstsq(UtAX,VtV,rcond=1e-15)
+    A2, residues, rank, s = np.linalg.lstsq(XtAtU,YtY,rcond=1e-15)
 
     # Eigendecomposition on surrogate matrices
     Dy, Qy = np.linalg.eig(np.dot(A1,A2))
-- 
2.43.0


From d7bd84a45b3d31588f1599aa82d9441bce7ad1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:21 +0000
Subject: [PATCH 121/135] fix: SVD with weights failed if the record axis is
 given as an integer

---
 pygeode/svd.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pygeode/svd.py b/pygeode/svd.py
index 9cc0d2e..ab070d7 100644
--- a/pygeode/svd.py
+++ b/pygeode/svd.py
@@ -82,9 +82,12 @@ def SVD (var1, var2, num=1, subspace=-1, iaxis=Time, weight1=True, weight2=True,
   # Apply weights?
 #  if weight1 is not None: var1 *= weight1.sqrt()
 #  if weight2 is not None: var2 *= weight2.sqrt()
+  iaxis1 = var1.whichaxis(iaxis)
+  iaxis2 = var2.whichaxis(iaxis)
+
   if weight1 is True: weight1 = var1.getweights()
   if weight1 is not False:
-    assert not weight1.hasaxis(iaxis), "Can't handle weights along the record axis"
+    assert not weight1.hasaxis(var1.axes[iaxis1]), "Can't handle weights along the record axis"
     # Normalize the weights
     W = weight1.sum() / weight1.size
     weight1 /= W
@@ -92,7 +95,7 @@ def SVD (var1, var2, num=1, subspace=-1, iaxis=Time, weight1=True, weight2=True,
     var1 *= weight1.sqrt()
   if weight2 is True: weight2 = var2.getweights()
   if weight2 is not False:
-    assert not weight2.hasaxis(iaxis), "Can't handle weights along the record axis"
+    assert not weight2.hasaxis(var2.axes[iaxis2]), "Can't handle weights along the record axis"
     # Normalize the weights
     W = weight2.sum() / weight2.size
     weight2 /= W
@@ -108,9 +111,6 @@ def SVD (var1, var2, num=1, subspace=-1, iaxis=Time, weight1=True, weight2=True,
 #    else:
 #      iaxis1 = 0
 #      iaxis2 = 0
-#  else:
-  iaxis1 = var1.whichaxis(iaxis)
-  iaxis2 = var2.whichaxis(iaxis)
 
   assert var1.axes[iaxis1] == var2.axes[iaxis2], "incompatible iteration axes"
   del iaxis  # so we don't use this by accident
-- 
2.43.0


From e94e9e4190d4a385d3b7012181657ca94185815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:21 +0000
Subject: [PATCH 122/135] fix: SVD failed if there is no time axis

---
 pygeode/svd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pygeode/svd.py b/pygeode/svd.py
index ab070d7..cec81d0 100644
--- a/pygeode/svd.py
+++ b/pygeode/svd.py
@@ -82,6 +82,7 @@ def SVD (var1, var2, num=1, subspace=-1, iaxis=Time, weight1=True, weight2=True,
   # Apply weights?
 #  if weight1 is not None: var1 *= weight1.sqrt()
 #  if weight2 is not None: var2 *= weight2.sqrt()
+  if iaxis is Time and not (var1.hasaxis(Time) and var2.hasaxis(Time)): iaxis = 0
   iaxis1 = var1.whichaxis(iaxis)
   iaxis2 = var2.whichaxis(iaxis)
 
-- 
2.43.0


From c842ac5effca0484b2a43ad29a1d9e324de169ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:27 +0000
Subject: [PATCH 123/135] fix: EOF failed if outputs are requested by their
 long names

---
 pygeode/eof.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/eof.py b/pygeode/eof.py
index 566450e..4aee900 100644
--- a/pygeode/eof.py
+++ b/pygeode/eof.py
@@ -52,7 +52,8 @@ def whichout (out):
   # Lower case
   out = [o.lower() for o in out]
   for o in out: assert o in names, "Unrecognized output '%s'"%o
-  return out
+  # Use the first of the equivalent names
+  return [N[0] for o in out for N in namemap if o in N]
 
 ##prep the var
 def prep (var, iaxis, weight, out):
-- 
2.43.0


From 7a32de5dc74593104f59fb53b308664cb3bb3c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:05 +0000
Subject: [PATCH 124/135] fix: difference, paired_difference and isnonzero
 failed if no axes are given

---
 pygeode/stats.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index 6b36a86..b992c53 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -674,6 +674,8 @@ def difference(X, Y, axes=None, alpha=0.05, Nx_fac = None, Ny_fac = None, output
       ri_new.append(i)
     oiaxes.extend([r for r in riaxes if r not in ri_new])
     riaxes = ri_new
+  else:
+    axes = [srcaxes[i].name for i in riaxes]
 
   oaxes = [a for i, a in enumerate(srcaxes) if i not in riaxes]
   oview = View(oaxes) 
@@ -886,6 +888,8 @@ def paired_difference(X, Y, axes=None, alpha=0.05, N_fac = None, output='d,p,ci'
       ri_new.append(i)
     oiaxes.extend([r for r in riaxes if r not in ri_new])
     riaxes = ri_new
+  else:
+    axes = [srcaxes[i].name for i in riaxes]
 
   oaxes = [a for i, a in enumerate(srcaxes) if i not in riaxes]
   oview = View(oaxes) 
@@ -1043,6 +1047,7 @@ def isnonzero(X, axes=None, alpha=0.05, N_fac = None, output='m,p', pbar=None):
   from pygeode.tools import combine_axes, whichaxis, loopover, npsum, npnansum
   from pygeode.view import View
 
+  if axes is None: axes = list(range(X.naxes))
   riaxes = [X.whichaxis(n) for n in axes]
   raxes = [a for i, a in enumerate(X.axes) if i in riaxes]
   oaxes = [a for i, a in enumerate(X.axes) if i not in riaxes]
-- 
2.43.0


From 1fd096ea3ce5b2d890cdcfa672e0fad5932f4e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:05 +0000
Subject: [PATCH 125/135] fix: paired_difference used a wrong standard error

---
 pygeode/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index b992c53..c050b28 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -942,7 +942,7 @@ def paired_difference(X, Y, axes=None, alpha=0.05, N_fac = None, output='d,p,ci'
   ci  = np.zeros(oview.shape, 'd')
 
   den = np.zeros(oview.shape, 'd')
-  den[emsk] = np.sqrt(dd[emsk]/(eN[emsk] - 1))
+  den[emsk] = np.sqrt(dd[emsk]/eN[emsk])
   dmsk = (den > 0.)
 
   p[dmsk]  = np.abs(d[dmsk]/den[dmsk])
-- 
2.43.0


From 14aa760e0cfadca98665a7560498a6c390e88c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:05 +0000
Subject: [PATCH 126/135] fix: paired_difference and isnonzero returned values
 where there are no data

---
 pygeode/stats.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index c050b28..ec81012 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -949,6 +949,10 @@ def paired_difference(X, Y, axes=None, alpha=0.05, N_fac = None, output='d,p,ci'
   p[dmsk]  = 2. * (1. - tdist.cdf(p[dmsk], eN[dmsk] - 1))
   ci[dmsk] = tdist.ppf(1. - alpha/2, eN[dmsk] - 1) * den[dmsk]
 
+  d [~(N > 0)] = np.nan
+  p [~dmsk] = np.nan
+  ci[~dmsk] = np.nan
+
   pbar.update(100)
 
   # Construct dataset to return
@@ -1103,8 +1107,12 @@ def isnonzero(X, axes=None, alpha=0.05, N_fac = None, output='m,p', pbar=None):
   dmsk = (sdom > 0.)
 
   t[dmsk] = np.abs(x[dmsk]) / sdom[dmsk]
-  p[imsk]  = 2. * (1. - tdist.cdf(t[imsk], eNa[imsk] - 1))
-  ci[imsk] = tdist.ppf(1. - alpha/2, eNa[imsk] - 1) * sdom[imsk]
+  p[dmsk]  = 2. * (1. - tdist.cdf(t[dmsk], eNa[dmsk] - 1))
+  ci[dmsk] = tdist.ppf(1. - alpha/2, eNa[dmsk] - 1) * sdom[dmsk]
+
+  x [~imsk] = np.nan
+  p [~dmsk] = np.nan
+  ci[~dmsk] = np.nan
 
   pbar.update(100)
 
-- 
2.43.0


From d3a6f8630285c2c4b15af1fb86ef823489fb8c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:05 +0000
Subject: [PATCH 127/135] fix: difference returned wrong values where one of
 the variables has at most one value

---
 pygeode/stats.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index ec81012..fbfe279 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -722,12 +722,13 @@ def difference(X, Y, axes=None, alpha=0.05, Nx_fac = None, Ny_fac = None, output
   xx[imsk] -= (x*x)[imsk] / Nx[imsk]
   xx[imsk] /= (Nx[imsk] - 1)
 
-  x[imsk]  /= Nx[imsk]
-
   yy[imsk] -= (y*y)[imsk] / Ny[imsk]
   yy[imsk] /= (Ny[imsk] - 1)
 
-  y[imsk]  /= Ny[imsk]
+  x[Nx > 0] /= Nx[Nx > 0]
+  y[Ny > 0] /= Ny[Ny > 0]
+  x[~(Nx > 0)] = np.nan
+  y[~(Ny > 0)] = np.nan
 
   # Ensure variances are non-negative
   xx[xx <= 0.] = 0.
-- 
2.43.0


From 3ef2e5ad0f707fdaa207b3404017137af868bff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:05 +0000
Subject: [PATCH 128/135] fix: multiple_regress did not return the
 coefficients, or under a different name than requested

---
 pygeode/stats.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index fbfe279..cc366d0 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -456,7 +456,7 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
   from pygeode.view import View
 
   # Split output request now
-  ovars = ['beta', 'r2', 'p', 'sb', 'covb', 'se']
+  ovars = ['B', 'beta', 'r2', 'p', 'sb', 'covb', 'se']
   output = [o for o in output.split(',') if o in ovars]
   if len(output) < 1: raise ValueError('No valid outputs are requested from correlation. Possible outputs are %s.' % str(ovars))
 
@@ -551,10 +551,15 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
     B.atts['longname'] = 'regression coefficient'
     rvs.append(B)
 
+  if 'B' in output:
+    B = Var(oaxes + (ra,), values=beta, name='B')
+    B.atts['longname'] = 'regression coefficient'
+    rvs.append(B)
+
   if 'r2' in output:
     vary = (yy - y**2/N)
     R2 = 1 - (yy - vare) / vary
-    R2 = Var(oaxes, values=R2, name='R2')
+    R2 = Var(oaxes, values=R2, name='r2')
     R2.atts['longname'] = 'fraction of variance explained'
     rvs.append(R2)
 
-- 
2.43.0


From b644d16e3c0af8285206f3e8dc1e3f2ff57913e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:05 +0000
Subject: [PATCH 129/135] fix: multiple_regress returned wrong values if the
 regressors have different axes

---
 pygeode/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index cc366d0..87b739d 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -501,7 +501,8 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
   # Accumulate data
   for outsl, datatuple in loopover(Xs + [Y], oview, inaxes, pbar=pbar):
     ydata =  datatuple[-1].astype('d')
-    xdata = [datatuple[ i].astype('d') for i in range(Nr)]
+    # (each regressor may have only some of the axes)
+    xdata = np.broadcast_arrays(*[d.astype('d') for d in datatuple])[:Nr]
     y[outsl]  += npsum(ydata,    siaxes)
     yy[outsl] += npsum(ydata**2, siaxes)
     for i in range(Nr):
-- 
2.43.0


From f04327b1ac5e8893122b586d313262d264d7d64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:11 +0000
Subject: [PATCH 130/135] fix: multiple_regress used a biased estimate of the
 variance of the residuals

---
 pygeode/stats.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index 87b739d..35c7001 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -530,7 +530,10 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
   if N_fac is None: N_eff = N
   else: N_eff = N // N_fac
 
-  sigbeta = [np.sqrt((yy - vare) * xxinv[..., i, i] / N_eff) for i in range(Nr)]
+  # Estimate of the variance of the residuals
+  vres = np.maximum((yy - vare) / (N_eff - Nr), 0.)
+
+  sigbeta = [np.sqrt(vres * xxinv[..., i, i]) for i in range(Nr)]
 
   pbar.update(100)
 
@@ -582,13 +585,13 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
     for i in range(Nr):
       for j in range(Nr):
         #sigmat[..., i, j] = np.sqrt((yy - vare) * xxinv[..., i, j] / N_eff)
-        sigmat[..., i, j] = (yy - vare) * xxinv[..., i, j] / N_eff
+        sigmat[..., i, j] = vres * xxinv[..., i, j]
     covb = Var(oaxes + (ra, ra2), values=sigmat, name='covb')
     covb.atts['longname'] = 'Covariance matrix of the linear coefficients'
     rvs.append(covb)
 
   if 'se' in output:
-    se = np.sqrt((yy - vare) / N_eff)
+    se = np.sqrt(vres)
     se = Var(oaxes, values=se, name='se')
     se.atts['longname'] = 'standard deviation of residual'
     rvs.append(se)
-- 
2.43.0


From b3420fe1b300fc7c207c2b2840b7c7bfc1975b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:11 +0000
Subject: [PATCH 131/135] fix: regress returned nan if the fit is perfect

---
 pygeode/stats.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index 35c7001..71f4906 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -329,6 +329,8 @@ def regress(X, Y, axes=None, N_fac=None, output='m,b,p', pbar=None):
   p = np.zeros(oview.shape, 'd')
 
   sige[dmsk] = (yy[dmsk] - m[dmsk] * xy[dmsk]) / N_eff[dmsk]
+  # Ensure variances are non-negative
+  sige[sige <= 0.] = 0.
   sigm[dmsk] = np.sqrt(sige[dmsk] / xx[dmsk])
   sige[dmsk] = np.sqrt(sige[dmsk])
   t[dmsk] = np.abs(m[dmsk]) / sigm[dmsk]
-- 
2.43.0


From b7c162e93edfe1f29b7f6002bd899078ac7fc4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:05 +0000
Subject: [PATCH 132/135] fix: p values and standard deviations of
 multiple_regress failed or were permuted if there are several other axes

---
 pygeode/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index 71f4906..9a0380b 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -571,13 +571,13 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
 
   if 'p' in output:
     p = [2. * (1. - tdist.cdf(np.abs(beta[...,i]/sigbeta[i]), N_eff-Nr)) for i in range(Nr)]
-    p = np.transpose(np.array(p), [Nd] + list(range(Nd)))
+    p = np.transpose(np.array(p), list(range(1, Nd+1)) + [0])
     p = Var(oaxes + (ra,), values=p, name='p')
     p.atts['longname'] = 'p-values'
     rvs.append(p)
 
   if 'sb' in output:
-    sigbeta = np.transpose(np.array(sigbeta), [Nd] + list(range(Nd)))
+    sigbeta = np.transpose(np.array(sigbeta), list(range(1, Nd+1)) + [0])
     sb = Var(oaxes + (ra,), values=sigbeta, name='sb')
     sb.atts['longname'] = 'standard deviation of linear coefficients'
     rvs.append(sb)
-- 
2.43.0


From c8e5f054c7833d9fa994c6a628bba698db4bed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:05 +0000
Subject: [PATCH 133/135] fix: difference returned wrong values if the axes of
 the variables are in a different order

---
 pygeode/stats.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index 9a0380b..af710a5 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -691,6 +691,10 @@ def difference(X, Y, axes=None, alpha=0.05, Nx_fac = None, Ny_fac = None, output
   oaxes = [a for i, a in enumerate(srcaxes) if i not in riaxes]
   oview = View(oaxes) 
 
+  # Use the same order of axes for both variables
+  X = X.transpose(*sorted(range(X.naxes), key=lambda i: whichaxis(srcaxes, X.axes[i].name)))
+  Y = Y.transpose(*sorted(range(Y.naxes), key=lambda i: whichaxis(srcaxes, Y.axes[i].name)))
+
   ixaxes = [X.whichaxis(n) for n in axes if X.hasaxis(n)]
   iyaxes = [Y.whichaxis(n) for n in axes if Y.hasaxis(n)]
 
-- 
2.43.0


From 245e9b5df0686481ea8e501895b5b294adce3578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:05 +0000
Subject: [PATCH 134/135] fix: paired_difference failed if the axes of the
 variables are in a different order

---
 pygeode/stats.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index af710a5..ac800ef 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -916,7 +916,7 @@ def paired_difference(X, Y, axes=None, alpha=0.05, N_fac = None, output='d,p,ci'
   iyaxes = [Y.whichaxis(n) for n in axes if Y.hasaxis(n)]
   Ny = np.product([len(Y.axes[i]) for i in iyaxes])
 
-  assert ixaxes == iyaxes and Nx == Ny, 'For the paired difference test, X and Y must have the same size along the reduction axes.'
+  assert Nx == Ny, 'For the paired difference test, X and Y must have the same size along the reduction axes.'
   
   if pbar is None:
     from pygeode.progress import PBar
@@ -933,11 +933,11 @@ def paired_difference(X, Y, axes=None, alpha=0.05, N_fac = None, output='d,p,ci'
   # Accumulate data
   for outsl, (xdata, ydata) in loopover([X, Y], oview, inaxes=srcaxes, pbar=pbar):
     ddata = xdata.astype('d') - ydata.astype('d')
-    d[outsl]  = np.nansum([d[outsl],  npnansum(ddata, ixaxes)], 0)
-    dd[outsl] = np.nansum([dd[outsl], npnansum(ddata**2, ixaxes)], 0)
+    d[outsl]  = np.nansum([d[outsl],  npnansum(ddata, riaxes)], 0)
+    dd[outsl] = np.nansum([dd[outsl], npnansum(ddata**2, riaxes)], 0)
 
     # Count of non-NaN data points
-    N[outsl] = np.nansum([N[outsl], npnansum(~np.isnan(ddata), ixaxes)], 0) 
+    N[outsl] = np.nansum([N[outsl], npnansum(~np.isnan(ddata), riaxes)], 0) 
 
   # remove the mean (NOTE: numerically unstable if mean >> stdev)
   imsk = (N > 1)
-- 
2.43.0


From 8ff10b036cbd3827fcd1d356a47cd4218b7fd689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:37 +0000
Subject: [PATCH 135/135] fix: the covariance matrix returned by
 multiple_regress could not be read

---
 pygeode/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygeode/stats.py b/pygeode/stats.py
index ac800ef..533cfcb 100644
--- a/pygeode/stats.py
+++ b/pygeode/stats.py
@@ -547,7 +547,7 @@ def multiple_regress(Xs, Y, axes=None, N_fac=None, output='B,p', pbar=None):
   from .axis import NonCoordinateAxis
 
   ra  = NonCoordinateAxis(values=np.arange(Nr), regressor = xns, name = 'regressor')
-  ra2 = NonCoordinateAxis(values=np.arange(Nr), regressor = xns, name = 'regressor2')
+  ra2 = NonCoordinateAxis(values=np.arange(Nr), regressor2 = xns, name = 'regressor2')
   Nd = len(oaxes)
 
   rvs = []
-- 
2.43.0

