From 2ec1f505677a0d2d8510067559f2fe9ad01c4c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:17 +0000
Subject: [PATCH 01/36] fix: align_axis uses the axis of each larry, not of its
 predecessor

---
 la/flarry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/la/flarry.py b/la/flarry.py
index 1b2ca9b..c6224c7 100644
--- a/la/flarry.py
+++ b/la/flarry.py
@@ -504,10 +504,10 @@ def align_axis(lars, axis=0, join='inner'):
         label = frozenset(lars[0].label[axis[0]])
         if join == 'inner':
             for i, lar in enumerate(lars[1:]):
-                label = label.intersection(lar.label[axis[i]])
+                label = label.intersection(lar.label[axis[i + 1]])
         elif join == 'outer':
             for i, lar in enumerate(lars[1:]):
-                label = label.union(lar.label[axis[i]])
+                label = label.union(lar.label[axis[i + 1]])
         label = list(label)
         label.sort()
     lars_out = []
-- 
2.43.0


From 5e1e3bd821199212fe85259ce25d7d0c3620b306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:17 +0000
Subject: [PATCH 02/36] fix: binaryop with missone or misstwo no longer changes
 its inputs

---
 la/flarry.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/la/flarry.py b/la/flarry.py
index c6224c7..30d8653 100644
--- a/la/flarry.py
+++ b/la/flarry.py
@@ -763,10 +763,16 @@ def binaryop(func, lar1, lar2, join='inner', cast=True, missone='ignore',
     """
 
     # Align
-    x1, x2, label, ign1, ign2 = align_raw(lar1, lar2, join=join, cast=cast)
+    x1, x2, label, x1isview, x2isview = align_raw(lar1, lar2, join=join,
+                                                  cast=cast)
 
     # Replacing missing values is slow, so only do if requested
     if missone != 'ignore' or misstwo != 'ignore':
+        # Do not change the input larrys
+        if x1isview:
+            x1 = x1.copy()
+        if x2isview:
+            x2 = x2.copy()
         miss1 = ismissing(x1)
         miss2 = ismissing(x2)
     if missone != 'ignore':
-- 
2.43.0


From 8ee9da03075f08ef5eecd06f038723eadab57163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:17 +0000
Subject: [PATCH 03/36] fix: indexing an nd larry with a tuple of fewer than
 ndim scalars returns a larry

---
 la/deflarry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/la/deflarry.py b/la/deflarry.py
index 83f9919..148302f 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -1824,6 +1824,7 @@ class larry(object):
                         raise IndexError(msg)
                 else:
                     lab = self.label[ax]
+                    allscalar = False
                 if lab is not None:
                     label.append(lab)
             x = self.x[index]
-- 
2.43.0


From e55c0b4a44d616367729ffe918493c8361fd4082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:17 +0000
Subject: [PATCH 04/36] fix: larry.move_func passes its keyword arguments on to
 func

---
 la/deflarry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 148302f..2af1f4b 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -3055,7 +3055,7 @@ class larry(object):
         array([ NaN,   3.,   5.,   7.])
 
         """
-        x = move_func(func, self.x, window, axis=axis, method=method)
+        x = move_func(func, self.x, window, axis=axis, method=method, **kwargs)
         return larry(x, self.copylabel(), validate=False)
 
     def movingsum_forward(self, window, skip=0, axis=-1, norm=False):
-- 
2.43.0


From bb216fca53596621489c4fae08045dd917987e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:17 +0000
Subject: [PATCH 05/36] fix: larry.vacuum accepts negative axes

---
 la/deflarry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 2af1f4b..13300ed 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -4029,11 +4029,11 @@ class larry(object):
         if axis is None:
             axes = range(ndim)
         elif not hasattr(axis, '__iter__'):
-            axes = [axis]
+            axes = [range(ndim)[axis]]
             # Change meaning of axes to axes not in original axes
             axes = [a for a in range(ndim) if a not in axes]
         else:
-            axes = axis
+            axes = [range(ndim)[a] for a in axis]
             # Change meaning of axes to axes not in original axes
             axes = [a for a in range(ndim) if a not in axes]
 
-- 
2.43.0


From a8940aefb313a30023edb1f2474e67b8e9afa145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:17 +0000
Subject: [PATCH 06/36] fix: larry.merge returns a new larry that can hold both
 dtypes instead of changing self

---
 la/deflarry.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 13300ed..4b150e2 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -3498,10 +3498,13 @@ class larry(object):
         if (not update) and np.logical_and(mask1, mask2).any():
             raise ValueError('Overlapping values')
         else:
+            # Do not change self; dtype of result must be able to hold both
             if mask2.any():
-                np.putmask(lar1.x, mask2, lar2.x)
+                x = np.where(mask2, lar2.x, lar1.x)
+            else:
+                x = lar1.copyx()
 
-        return lar1
+        return larry(x, lar1.copylabel(), validate=False)
 
     def squeeze(self):
         """
-- 
2.43.0


From 5f5efc38da20aa281bf11c92c5418c12a7f61324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 07/36] fix: align larrys when an axis of one of them is empty

---
 la/flarry.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/la/flarry.py b/la/flarry.py
index 30d8653..e4636ef 100644
--- a/la/flarry.py
+++ b/la/flarry.py
@@ -300,8 +300,8 @@ def align_raw(lar1, lar2, join='inner', cast=True):
                 list3.sort()
                 idx1, idx1_miss = listmap_fill(list1, list3, fill=0)
                 idx2, idx2_miss = listmap_fill(list2, list3, fill=0)
-                x1 = x1.take(idx1, ax)
-                x2 = x2.take(idx2, ax)
+                x1 = _take_fill(x1, idx1, ax)
+                x2 = _take_fill(x2, idx2, ax)
                 if len(idx1_miss) > 0:
                     if miss1 == undefined:
                         miss1 = missing_marker(lar1)
@@ -332,7 +332,7 @@ def align_raw(lar1, lar2, join='inner', cast=True):
             list3 = list(list1)
             if list1 != list2:
                 idx2, idx2_miss = listmap_fill(list2, list3, fill=0)
-                x2 = x2.take(idx2, ax)
+                x2 = _take_fill(x2, idx2, ax)
                 if len(idx2_miss) > 0:
                     if miss2 == undefined:
                         miss2 = missing_marker(lar2)
@@ -354,7 +354,7 @@ def align_raw(lar1, lar2, join='inner', cast=True):
             list3 = list(list2)
             if list1 != list2:
                 idx1, idx1_miss = listmap_fill(list1, list3, fill=0)
-                x1 = x1.take(idx1, ax)
+                x1 = _take_fill(x1, idx1, ax)
                 if len(idx1_miss) > 0:
                     if miss1 == undefined:
                         miss1 = missing_marker(lar1)
@@ -376,6 +376,14 @@ def align_raw(lar1, lar2, join='inner', cast=True):
 
     return x1, x2, label, x1isview, x2isview
 
+def _take_fill(x, idx, axis):
+    "Same as x.take(idx, axis) but allows an empty axis; caller must fill."
+    if x.shape[axis] == 0:
+        shape = list(x.shape)
+        shape[axis] = len(idx)
+        return np.empty(shape, dtype=x.dtype)
+    return x.take(idx, axis)
+
 def align_axis(lars, axis=0, join='inner'):
     """
     Align many larrys along potentially different axes.
-- 
2.43.0


From 1ab0086599ab29b4b34d8733f9b74eb255507b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:24 +0000
Subject: [PATCH 08/36] fix: reducing an empty int or bool larry along an axis
 gives NaNs, not garbage

---
 la/deflarry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/la/deflarry.py b/la/deflarry.py
index 4b150e2..a5935f5 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -1473,6 +1473,9 @@ class larry(object):
                     dtype = bool
                 else:
                     dtype = self.dtype
+                    if missing_marker(self.x) == NotImplemented:
+                        # dtype (e.g. int) cannot hold the NaNs
+                        dtype = float
                 x = np.empty(shape, dtype=dtype)
                 x.fill(default)
                 label = self.copylabel()
-- 
2.43.0


From eebfb171e6a49b2f139f3b369b1cfba42de99727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:03 +0000
Subject: [PATCH 09/36] fix: indexing with a scalar and a sequence separated by
 a slice keeps the order of the axes

---
 la/deflarry.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index a5935f5..66e29a6 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -1830,7 +1830,8 @@ class larry(object):
                     allscalar = False
                 if lab is not None:
                     label.append(lab)
-            x = self.x[index]
+            x, index = _scalar_first(self.x, index)
+            x = x[index]
             if allscalar:
                 return x
         elif typidx is slice:
@@ -2122,7 +2123,8 @@ class larry(object):
                 # function that indexes into labels without indexing into x.
                 # Then use that function in getitem
                 if self[index].label == value.label:
-                    self.x[index] = value.x
+                    x, index = _scalar_first(self.x, index)
+                    x[index] = value.x
                 else:
                     raise IndexError('larrys are not aligned.')
             else:
@@ -5144,6 +5146,20 @@ class Lix(object):
         else:
             raise IndexError('Unsupported indexing operation.')
 
+# Indexing support functions -------------------------------------------------
+
+def _scalar_first(x, index):
+    "Apply the scalars in a tuple `index` to `x`; return the rest of `index`."
+    # If a scalar and a sequence are separated by a slice then numpy moves the
+    # axis of the sequence to the front, so apply the scalars first.
+    if type(index) is tuple and isinstance(x, np.ndarray):
+        scalar = [isscalar(i) for i in index]
+        if not all(scalar):
+            first = [i if s else slice(None) for i, s in zip(index, scalar)]
+            x = x[tuple(first)]
+            index = tuple([i for i, s in zip(index, scalar) if not s])
+    return x, index
+
 def slicemaker(index, labelindex, axis):
     "Convert a slice that may contain labels to a slice with indices."
     msg1 = 'The %s element of a slice must be a list or a scalar.'
-- 
2.43.0


From 009671a91bca9a5117514923254587752a295fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 10/36] fix: larry.pull returns a scalar only if the larry is
 1d

---
 la/deflarry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 66e29a6..9a64c85 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -2368,7 +2368,7 @@ class larry(object):
         index = [slice(None)] * self.ndim
         index[axis] = idx
         x = self.x[index]
-        if x.shape == (1,):
+        if self.ndim == 1:
             return x[0]
         return larry(x, label)
 
-- 
2.43.0


From 9bdb7683c6ea62263ffb4ec910c237e39b2e9ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 11/36] fix: larry.pull returns a copy of the label as
 documented

---
 la/deflarry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 9a64c85..82ce9f2 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -2362,7 +2362,7 @@ class larry(object):
         """
         if axis is None:
             raise ValueError('axis cannot be None')
-        label = list(self.label)
+        label = self.copylabel()
         label.pop(axis)
         idx = self.labelindex(name, axis)
         index = [slice(None)] * self.ndim
-- 
2.43.0


From 0a39a0c283e1202cda61644d41c1aed9f2cbe73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 12/36] fix: close the archive when an operation on it fails,
 so that it can be written to again

---
 la/io.py | 146 ++++++++++++++++++++++++++++++-------------------------
 1 file changed, 79 insertions(+), 67 deletions(-)

diff --git a/la/io.py b/la/io.py
index aa7b6b4..0d3a2a6 100644
--- a/la/io.py
+++ b/la/io.py
@@ -162,16 +162,16 @@ class IO(object):
 
     def __getitem__(self, key):
         f = h5py.File(self.filename, 'r')
-        if key in f:
-            if _is_archived_larry(f[key]):
-                f.close()
-                x = lara(self.filename, key)
-                return x
+        try:
+            if key in f:
+                if not _is_archived_larry(f[key]):
+                    msg = "%s is in the archive but it is not a larry."
+                    raise KeyError(msg % key)
             else:
-                msg = "%s is in the archive but it is not a larry."
-                raise KeyError(msg % key)
-        else:
-            raise KeyError("A larry named %s is not in the archive." % key)
+                raise KeyError("A larry named %s is not in the archive." % key)
+        finally:
+            f.close()
+        return lara(self.filename, key)
 
     def __setitem__(self, key, value):
 
@@ -186,13 +186,14 @@ class IO(object):
         # Does an item (larry or otherwise) with given key already exist? If
         # so delete. Note that f.keys() [all keys] is used instead of
         # self.keys() [keys that are larrys].
-        if key in f.keys():
-            self.__delitem__(key)
+        try:
+            if key in f.keys():
+                self.__delitem__(key)
 
-        # If you've made it this far the data looks OK so save it
-        save(f, value, key)
-
-        f.close()
+            # If you've made it this far the data looks OK so save it
+            save(f, value, key)
+        finally:
+            f.close()
 
     def __delitem__(self, key):
         delete(self.filename, key)
@@ -330,18 +331,22 @@ class lara(object):
 
     def __getitem__(self, index):
         f = h5py.File(self.filename, 'r')
-        self.x = f[self.key]['x']
-        lar = self._larry_getitem(index)
-        f.close()
-        self.x = None
+        try:
+            self.x = f[self.key]['x']
+            lar = self._larry_getitem(index)
+        finally:
+            f.close()
+            self.x = None
         return lar
 
     def __setitem__(self, index, value):
         f = h5py.File(self.filename)
-        self.x = f[self.key]['x']
-        self._larry_setitem(index, value)
-        self.x = None
-        f.close()
+        try:
+            self.x = f[self.key]['x']
+            self._larry_setitem(index, value)
+        finally:
+            self.x = None
+            f.close()
 
     @property
     def shape(self):
@@ -435,22 +440,25 @@ def save(file, lar, key):
     # Get a h5py.File instance
     f, opened = _openfile(file)
 
-    # Do we need to create any intermediate groups?
-    _create_nested_groups(f, key)
+    try:
 
-    # Save larry
-    fkey = f[key]
-    fkey.attrs['larry'] = True
-    fkey['x'] = lar.x
-    for i in range(lar.ndim):
-        fkey[str(i)], datetime_type = _list2array(lar.label[i])
-        fkey[str(i)].attrs['datetime_type'] = datetime_type
+        # Do we need to create any intermediate groups?
+        _create_nested_groups(f, key)
 
-    # Close if file is a filename
-    if opened:
-        f.close()
-    else:
-        f.flush()
+        # Save larry
+        fkey = f[key]
+        fkey.attrs['larry'] = True
+        fkey['x'] = lar.x
+        for i in range(lar.ndim):
+            fkey[str(i)], datetime_type = _list2array(lar.label[i])
+            fkey[str(i)].attrs['datetime_type'] = datetime_type
+
+    finally:
+        # Close if file is a filename
+        if opened:
+            f.close()
+        else:
+            f.flush()
 
 def load(file, key):
     """
@@ -501,19 +509,20 @@ def load(file, key):
     if type(key) != str:
         raise TypeError('key must be a string.')
     f, opened = _openfile(file)
-    if key not in f:
-        raise KeyError("A larry named '%s' is not in archive." % key)
-    if not _is_archived_larry(f[key]):
-        raise KeyError('key (%s) is not a larry.' % key)
-
-    # Load larry
-    group = f[key]
-    x = group['x'][:]
-    label = _load_label(f, key)
-
-    # Close if file is a filename
-    if opened:
-        f.close()
+    try:
+        if key not in f:
+            raise KeyError("A larry named '%s' is not in archive." % key)
+        if not _is_archived_larry(f[key]):
+            raise KeyError('key (%s) is not a larry.' % key)
+
+        # Load larry
+        group = f[key]
+        x = group['x'][:]
+        label = _load_label(f, key)
+    finally:
+        # Close if file is a filename
+        if opened:
+            f.close()
 
     return larry(x, label)
 
@@ -559,17 +568,18 @@ def delete(file, key):
     if type(key) != str:
         raise TypeError('key must be a string.')
     f, opened = _openfile(file)
-    if key not in f:
-        raise KeyError("A larry named '%s' is not in archive." % key)
-    if not _is_archived_larry(f[key]):
-        raise KeyError('key (%s) is not a larry.' % key)
-
-    # Delete
-    del f[key]
-
-    # Close if file is a filename
-    if opened:
-        f.close()
+    try:
+        if key not in f:
+            raise KeyError("A larry named '%s' is not in archive." % key)
+        if not _is_archived_larry(f[key]):
+            raise KeyError('key (%s) is not a larry.' % key)
+
+        # Delete
+        del f[key]
+    finally:
+        # Close if file is a filename
+        if opened:
+            f.close()
 
 def repack(file):
     """
@@ -610,12 +620,14 @@ def repack(file):
 def is_archived_larry(file, key):
     "True if the key (larry name) is in the archive, False otherwise."
     f, opened = _openfile(file)
-    if key in f:
-        answer = _is_archived_larry(f[key])
-    else:
-        raise ValueError('key (%s) is not in archive.' % str(key))
-    if opened:
-        f.close()
+    try:
+        if key in f:
+            answer = _is_archived_larry(f[key])
+        else:
+            raise ValueError('key (%s) is not in archive.' % str(key))
+    finally:
+        if opened:
+            f.close()
     return answer
 
 def archive_directory(file):
-- 
2.43.0


From 9a71fe4384a6500ad8809854043a3d489a5a6b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 13/36] fix: IO can overwrite a larry that has a nested key

---
 la/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/la/io.py b/la/io.py
index 0d3a2a6..1ae72b8 100644
--- a/la/io.py
+++ b/la/io.py
@@ -184,10 +184,10 @@ class IO(object):
         f = h5py.File(self.filename)
 
         # Does an item (larry or otherwise) with given key already exist? If
-        # so delete. Note that f.keys() [all keys] is used instead of
-        # self.keys() [keys that are larrys].
+        # so delete. Note that f.keys() [top level only] cannot be used because
+        # the key may be nested.
         try:
-            if key in f.keys():
+            if key in f:
                 self.__delitem__(key)
 
             # If you've made it this far the data looks OK so save it
-- 
2.43.0


From d60df017e78afa8b3a6208890fe2f8c57ea02e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 14/36] fix: saving a larry that HDF5 cannot store no longer
 destroys the archived larry

---
 la/io.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/la/io.py b/la/io.py
index 1ae72b8..08c15ae 100644
--- a/la/io.py
+++ b/la/io.py
@@ -187,6 +187,7 @@ class IO(object):
         # so delete. Note that f.keys() [top level only] cannot be used because
         # the key may be nested.
         try:
+            _larry2arrays(value)
             if key in f:
                 self.__delitem__(key)
 
@@ -442,16 +443,19 @@ def save(file, lar, key):
 
     try:
 
+        # Convert before changing the archive; raises if not possible
+        x, labels = _larry2arrays(lar)
+
         # Do we need to create any intermediate groups?
         _create_nested_groups(f, key)
 
         # Save larry
         fkey = f[key]
-        fkey.attrs['larry'] = True
-        fkey['x'] = lar.x
-        for i in range(lar.ndim):
-            fkey[str(i)], datetime_type = _list2array(lar.label[i])
+        fkey['x'] = x
+        for i, (label, datetime_type) in enumerate(labels):
+            fkey[str(i)] = label
             fkey[str(i)].attrs['datetime_type'] = datetime_type
+        fkey.attrs['larry'] = True
 
     finally:
         # Close if file is a filename
@@ -668,6 +672,16 @@ def _load_label(file, key):
         f.close()
     return label
 
+def _larry2arrays(lar):
+    "Data and label arrays of a larry, raise if they cannot be archived."
+    if type(lar) != larry:
+        raise TypeError('lar must be a larry.')
+    labels = [_list2array(label) for label in lar.label]
+    for arr in [lar.x] + [label for label, datetime_type in labels]:
+        # Raises TypeError if the dtype is not supported by HDF5
+        h5py.h5t.py_create(arr.dtype, logical=True)
+    return lar.x, labels
+
 def _list2array(x):
     "Convert list to array if elements are of the same type, raise otherwise."
     if type(x) != list:
-- 
2.43.0


From 6d5870e0077bb5539770ce7e2d946f3cf8ea2aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:46 +0000
Subject: [PATCH 15/36] fix: deleting or overwriting an archived larry keeps
 the larrys nested under its key

---
 la/io.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/la/io.py b/la/io.py
index 08c15ae..e583d71 100644
--- a/la/io.py
+++ b/la/io.py
@@ -185,10 +185,11 @@ class IO(object):
 
         # Does an item (larry or otherwise) with given key already exist? If
         # so delete. Note that f.keys() [top level only] cannot be used because
-        # the key may be nested.
+        # the key may be nested. A group that is not a larry contains nested
+        # larrys; keep those.
         try:
             _larry2arrays(value)
-            if key in f:
+            if key in f and not _is_plain_group(f[key]):
                 self.__delitem__(key)
 
             # If you've made it this far the data looks OK so save it
@@ -578,8 +579,14 @@ def delete(file, key):
         if not _is_archived_larry(f[key]):
             raise KeyError('key (%s) is not a larry.' % key)
 
-        # Delete
-        del f[key]
+        # Delete, but keep any larrys nested under the key
+        group = f[key]
+        for i in range(len(group['x'].shape)):
+            del group[str(i)]
+        del group['x']
+        del group.attrs['larry']
+        if len(group) == 0:
+            del f[key]
     finally:
         # Close if file is a filename
         if opened:
@@ -748,6 +755,12 @@ def _is_archived_larry(obj):
                         return True
     return False
 
+def _is_plain_group(obj):
+    "True if a larry can be saved in obj, a group that is not a larry."
+    if isinstance(obj, h5py.Group) and not _is_archived_larry(obj):
+        return not [key for key in obj if key == 'x' or key.isdigit()]
+    return False
+
 def _create_nested_groups(f, path):
     "Create a nested set of groups."
     groups = path.split('/')
-- 
2.43.0


From d40452ba7592726db4bbfd06b8a950475910c654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:57 +0000
Subject: [PATCH 16/36] fix: IO.clear works on archives that are not empty

---
 la/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/la/io.py b/la/io.py
index e583d71..d42f4d0 100644
--- a/la/io.py
+++ b/la/io.py
@@ -152,7 +152,7 @@ class IO(object):
         Warning: this will delete (unlink) all larrys from the archive!
         """
         for key in self:
-            self.__delitem__(key)
+            self.__delitem__(str(key))
 
     def __iter__(self):
         return iter(self.keys())
-- 
2.43.0


From 759226964afbf079dc2ffd6a89029b1f9da23724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:51 +0000
Subject: [PATCH 17/36] fix: lara supports the indexing that larry supports but
 h5py does not

---
 la/io.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/la/io.py b/la/io.py
index d42f4d0..4d0ad84 100644
--- a/la/io.py
+++ b/la/io.py
@@ -322,6 +322,7 @@ class lara(object):
         maxlabel = larry.maxlabel.im_func
         minlabel = larry.minlabel.im_func
         getlabel = larry.getlabel.im_func
+        copylabel = larry.copylabel.im_func
         labelindex = larry.labelindex.im_func
     else:
         _larry_getitem = larry.__getitem__
@@ -329,13 +330,19 @@ class lara(object):
         maxlabel = larry.maxlabel
         minlabel = larry.minlabel
         getlabel = larry.getlabel
+        copylabel = larry.copylabel
         labelindex = larry.labelindex
 
     def __getitem__(self, index):
         f = h5py.File(self.filename, 'r')
         try:
             self.x = f[self.key]['x']
-            lar = self._larry_getitem(index)
+            try:
+                lar = self._larry_getitem(index)
+            except (AttributeError, TypeError, ValueError):
+                # h5py does not support this type of indexing; Numpy might
+                self.x = self.x[:]
+                lar = self._larry_getitem(index)
         finally:
             f.close()
             self.x = None
-- 
2.43.0


From cd04699ddaac02add680b3f1f8726c3322b80f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 18/36] fix: a larry can be assigned to part of a lara

---
 la/io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/la/io.py b/la/io.py
index 4d0ad84..092add4 100644
--- a/la/io.py
+++ b/la/io.py
@@ -349,6 +349,10 @@ class lara(object):
         return lar
 
     def __setitem__(self, index, value):
+        if isinstance(value, larry) and not isinstance(index, larry):
+            if self[index].label != value.label:
+                raise IndexError('larrys are not aligned.')
+            value = value.x
         f = h5py.File(self.filename)
         try:
             self.x = f[self.key]['x']
-- 
2.43.0


From 26a834c069da56ca0e227872dac5b52c4cf6afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 19/36] fix: true division of larrys does not floor ints in
 Python 2

---
 la/deflarry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 82ce9f2..24ede88 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -825,15 +825,15 @@ class larry(object):
         """
         if isinstance(other, larry):
             if self.label == other.label:
-                x = self.x / other.x
+                x = np.true_divide(self.x, other.x)
                 label = self.copylabel()
                 return larry(x, label, validate=False)
             else:
                 x, y, label = self.__align(other)
-                x = x / y
+                x = np.true_divide(x, y)
                 return larry(x, label, validate=False)
         if np.isscalar(other) or isinstance(other, np.ndarray):
-            x = self.x / other
+            x = np.true_divide(self.x, other)
             label = self.copylabel()
             return larry(x, label, validate=False)
         raise TypeError('Input must be scalar, array, or larry.')
@@ -891,7 +891,7 @@ class larry(object):
             raise RuntimeError(msg)
         if np.isscalar(other) or isinstance(other, np.ndarray):
             label = self.copylabel()
-            x = other / self.x
+            x = np.true_divide(other, self.x)
             return larry(x, label, validate=False)
         raise TypeError('Input must be scalar, array, or larry.')
 
-- 
2.43.0


From f7dfbba43d6dd2088fa861a7571533fcbb3e1407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 20/36] fix: larry.cut_missing with the default axis cuts rows
 and columns instead of nothing

---
 la/deflarry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 24ede88..c00a410 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -3962,7 +3962,8 @@ class larry(object):
         ndim = y.ndim
 
         if axis is None:
-            axes = range(ndim)
+            # Check (and cut along) all axes
+            axes = []
         else:
             axes = [range(ndim)[axis]]
 
-- 
2.43.0


From 789c9a73d4df033366ef33244f32c6d5125e7fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 21/36] fix: larry.prod works along an axis of an int or bool
 larry

---
 la/deflarry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index c00a410..c020ab5 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -1162,7 +1162,7 @@ class larry(object):
         if idx.ndim == 0:
             if idx:
                 y = np.nan
-        else:
+        elif idx.any():
             np.putmask(y.x, idx, np.nan)
         return y
 
-- 
2.43.0


From 713dbe63a9549dd176d9f44f25a34d155a5e6416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 22/36] fix: panel of a 3d larry whose first axis is empty

---
 la/flarry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/la/flarry.py b/la/flarry.py
index e4636ef..dd9a93a 100644
--- a/la/flarry.py
+++ b/la/flarry.py
@@ -1479,7 +1479,8 @@ def panel(lar):
         raise ValueError("lar must be 3d.")
     y = lar.copy()
     y.label = [flattenlabel([y.label[1], y.label[2]])[0], y.label[0]]
-    y.x = y.x.T.reshape(-1, y.shape[0], order="F")
+    n0, n1, n2 = lar.shape
+    y.x = y.x.T.reshape(n1 * n2, n0, order="F")
     return y
 
 def cov(lar):
-- 
2.43.0


From 4d3b4a3d1ae0a461dd75b91c941f41ddd1bcdd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 23/36] fix: index with a tuple next to scalars, assign an
 array the way getitem selects

---
 la/deflarry.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index c020ab5..ad149d6 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -2122,13 +2122,11 @@ class larry(object):
                 # TODO The line below (self[index].label) is slow. Need a
                 # function that indexes into labels without indexing into x.
                 # Then use that function in getitem
-                if self[index].label == value.label:
-                    x, index = _scalar_first(self.x, index)
-                    x[index] = value.x
-                else:
+                if self[index].label != value.label:
                     raise IndexError('larrys are not aligned.')
-            else:
-                self.x[index] = value
+                value = value.x
+            x, index = _scalar_first(self.x, index)
+            x[index] = value
 
     def set(self, label, value):
         """
@@ -5152,8 +5150,10 @@ class Lix(object):
 def _scalar_first(x, index):
     "Apply the scalars in a tuple `index` to `x`; return the rest of `index`."
     # If a scalar and a sequence are separated by a slice then numpy moves the
-    # axis of the sequence to the front, so apply the scalars first.
+    # axis of the sequence to the front, so apply the scalars first. A tuple
+    # that is the only index left would be taken for a multiaxis index.
     if type(index) is tuple and isinstance(x, np.ndarray):
+        index = tuple([list(i) if type(i) is tuple else i for i in index])
         scalar = [isscalar(i) for i in index]
         if not all(scalar):
             first = [i if s else slice(None) for i, s in zip(index, scalar)]
-- 
2.43.0


From ad2d2c638717855bcfd87c05fa6ae90ae2c20f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:47 +0000
Subject: [PATCH 24/36] fix: correlation of 1d arrays along axis -1

---
 la/farray/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/la/farray/misc.py b/la/farray/misc.py
index 09636b2..ffbe7c7 100644
--- a/la/farray/misc.py
+++ b/la/farray/misc.py
@@ -99,7 +99,7 @@ def correlation(arr1, arr2, axis=None):
             x2 = arr2.copy()
             np.putmask(x1, mask, np.nan)
             np.putmask(x2, mask, np.nan)
-            if axis == 0:
+            if axis in (0, -x1.ndim):
                 x1 = x1 - bn.nanmean(x1, axis)
                 x2 = x2 - bn.nanmean(x2, axis)              
             else:
@@ -121,7 +121,7 @@ def correlation(arr1, arr2, axis=None):
         else:
             x1 = arr1
             x2 = arr2
-            if axis == 0:
+            if axis in (0, -x1.ndim):
                 x1 = x1 - x1.mean(axis)
                 x2 = x2 - x2.mean(axis)              
             else:
-- 
2.43.0


From 3725cc053ea537a91de73e4b9fb8fde10dbcc5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 25/36] fix: shuffle along an empty axis does nothing instead
 of raising

---
 la/farray/misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/la/farray/misc.py b/la/farray/misc.py
index ffbe7c7..7565aaa 100644
--- a/la/farray/misc.py
+++ b/la/farray/misc.py
@@ -179,4 +179,6 @@ def shuffle(x, axis=0):
         The data is shuffled inplace.        
     
     """
-    np.random.shuffle(np.rollaxis(x, axis))
+    x = np.rollaxis(x, axis)
+    if len(x) > 0:
+        np.random.shuffle(x)
-- 
2.43.0


From a7db236152550928391dd93aa9dbdb7c43ed230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 26/36] fix: assert_larry_equal of different strings raises
 AssertionError

---
 la/util/testing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/la/util/testing.py b/la/util/testing.py
index c2a9cb7..4ab2b24 100644
--- a/la/util/testing.py
+++ b/la/util/testing.py
@@ -132,7 +132,11 @@ def assert_larry_equal(actual, desired, msg='', dtype=True, original=None,
                 # The following line gives a warning in py3/nose
                 # when the inputs are np.bool_. That's why we try
                 # assert_equal first (above)
-                assert_almost_equal(actual, desired)
+                try:
+                    assert_almost_equal(actual, desired)
+                except TypeError:
+                    # One of the scalars probably has a weird type like str
+                    assert_equal(actual, desired)
         except AssertionError as err:
             fail.append(heading('SCALARS') + str(err))
         if dtype: 
-- 
2.43.0


From e93d3da539b997a6d21c376f6f15dcd76d6c1069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 27/36] fix: an archived larry is not deleted when other larrys
 are in the way of its replacement

---
 la/io.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/la/io.py b/la/io.py
index 092add4..289c18c 100644
--- a/la/io.py
+++ b/la/io.py
@@ -189,7 +189,8 @@ class IO(object):
         # larrys; keep those.
         try:
             _larry2arrays(value)
-            if key in f and not _is_plain_group(f[key]):
+            _check_room(f, key, value.ndim)
+            if key in f and _is_archived_larry(f[key]):
                 self.__delitem__(key)
 
             # If you've made it this far the data looks OK so save it
@@ -458,6 +459,9 @@ def save(file, lar, key):
         # Convert before changing the archive; raises if not possible
         x, labels = _larry2arrays(lar)
 
+        # Is there room for the larry?
+        _check_room(f, key, lar.ndim)
+
         # Do we need to create any intermediate groups?
         _create_nested_groups(f, key)
 
@@ -766,11 +770,21 @@ def _is_archived_larry(obj):
                         return True
     return False
 
-def _is_plain_group(obj):
-    "True if a larry can be saved in obj, a group that is not a larry."
-    if isinstance(obj, h5py.Group) and not _is_archived_larry(obj):
-        return not [key for key in obj if key == 'x' or key.isdigit()]
-    return False
+def _check_room(f, key, ndim):
+    "Raise KeyError if an object that is not a larry is in the way of a save."
+    if key not in f:
+        return
+    obj = f[key]
+    if not isinstance(obj, h5py.Group):
+        raise KeyError('key (%s) is not a larry.' % key)
+    replace = 0
+    if _is_archived_larry(obj):
+        replace = len(obj['x'].shape)
+    elif 'x' in obj:
+        raise KeyError('key (%s) is not a larry.' % key)
+    for i in range(replace, ndim):
+        if str(i) in obj:
+            raise KeyError('%s/%d is in the way of the larry.' % (key, i))
 
 def _create_nested_groups(f, path):
     "Create a nested set of groups."
-- 
2.43.0


From 902fdf64612b4273564840167f055af60c3b3bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 28/36] fix: refuse to archive tuple labels, which would come
 back as lists

---
 la/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/la/io.py b/la/io.py
index 289c18c..8a8d61c 100644
--- a/la/io.py
+++ b/la/io.py
@@ -728,7 +728,10 @@ def _list2array(x):
         x = list(map(datetime2tuple, x))
         datetime_type = 'datetime'
         dtype = ','.join(["i4" for i in range(len(x[0]))])
-    return np.asarray(x, dtype=dtype), datetime_type
+    arr = np.asarray(x, dtype=dtype)
+    if arr.ndim != 1:
+        raise TypeError('Labels that are sequences cannot be archived.')
+    return arr, datetime_type
 
 def _openfile(file):
     """
-- 
2.43.0


From 761dcce2653f8ed436a728c4a2d8ca9c1ba5e365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:12 +0000
Subject: [PATCH 29/36] fix: index into a lara with a sequence that selects
 nothing

---
 la/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/la/io.py b/la/io.py
index 8a8d61c..c68edfb 100644
--- a/la/io.py
+++ b/la/io.py
@@ -340,8 +340,10 @@ class lara(object):
             self.x = f[self.key]['x']
             try:
                 lar = self._larry_getitem(index)
-            except (AttributeError, TypeError, ValueError):
-                # h5py does not support this type of indexing; Numpy might
+            except (AttributeError, TypeError, ValueError, NameError):
+                # h5py does not support this type of indexing; Numpy might.
+                # (h5py raises UnboundLocalError, a NameError, for some
+                # empty selections.)
                 self.x = self.x[:]
                 lar = self._larry_getitem(index)
         finally:
-- 
2.43.0


From 475ccd68ac82364e83c7f3865731bbfb6fa1f961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:02 +0000
Subject: [PATCH 30/36] fix: negative numbers in a sequence that indexes a lara
 no longer reorder the data

---
 la/io.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/la/io.py b/la/io.py
index c68edfb..39b2746 100644
--- a/la/io.py
+++ b/la/io.py
@@ -7,7 +7,7 @@ import sys
 import numpy as np
 import h5py
 from la.external.prettytable import indent
-from la.util.misc import randstring
+from la.util.misc import isscalar, randstring
 
 from la import larry
 
@@ -338,6 +338,7 @@ class lara(object):
         f = h5py.File(self.filename, 'r')
         try:
             self.x = f[self.key]['x']
+            index = _positive_index(index, self.x.shape)
             try:
                 lar = self._larry_getitem(index)
             except (AttributeError, TypeError, ValueError, NameError):
@@ -359,6 +360,7 @@ class lara(object):
         f = h5py.File(self.filename)
         try:
             self.x = f[self.key]['x']
+            index = _positive_index(index, self.x.shape)
             self._larry_setitem(index, value)
         finally:
             self.x = None
@@ -388,6 +390,23 @@ class lara(object):
         "Number of elements."
         return np.prod(self.shape, dtype=int)
 
+def _positive_index(index, shape):
+    "Replace the negative numbers in the sequences of `index`."
+    # h5py refuses sequences that are not in increasing order. But it looks
+    # at [-2, 0] as increasing and then uses the elements in the order 0, -2.
+    if type(index) is tuple:
+        index = [list(idx) if type(idx) is tuple else idx for idx in index]
+        index[:len(shape)] = [_positive_index(idx, (n,)) for idx, n in
+                                                         zip(index, shape)]
+        index = tuple(index)
+    elif type(index) is list and len(shape) > 0:
+        n = shape[0]
+        index = [i + n if isscalar(i) and -n <= i < 0 else i for i in index]
+    elif type(index) is np.ndarray and index.dtype.kind == 'i':
+        n = shape[0]
+        index = np.where((index < 0) & (index >= -n), index + n, index)
+    return index
+
 # Archive functions ---------------------------------------------------------
 
 def save(file, lar, key):
-- 
2.43.0


From 55435f4a7d95e6b51cba91c5bd2aec441505ce25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 31/36] fix: refuse to archive labels with a trailing null or a
 time zone, which were lost

---
 la/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/la/io.py b/la/io.py
index 39b2746..a4132e7 100644
--- a/la/io.py
+++ b/la/io.py
@@ -738,6 +738,11 @@ def _list2array(x):
         msg = 'Elements of a label along any one dimension must be of the '
         msg += 'same type.'
         raise TypeError(msg)
+    if type0 == str and any([i.endswith('\0') for i in x]):
+        raise ValueError('Labels that end in a null cannot be archived.')
+    if type0 in (datetime.time, datetime.datetime):
+        if any([i.tzinfo is not None for i in x]):
+            raise ValueError('Labels with a time zone cannot be archived.')
     if type0 == datetime.date:
         x = list(map(datetime.date.toordinal, x))
         datetime_type = 'date'
-- 
2.43.0


From 2e6be5d62faca39030e639b9c8c1760153a09fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:01 +0000
Subject: [PATCH 32/36] fix: lrange with a float step could fail in reshape

Roundoff can give np.arange one element more than the size of the larry:
la.lrange(3, start=0.1, step=0.1) raised ValueError.
---
 la/flarry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/la/flarry.py b/la/flarry.py
index dd9a93a..3e7660c 100644
--- a/la/flarry.py
+++ b/la/flarry.py
@@ -1863,7 +1863,9 @@ def lrange(shape=None, label=None, start=0, step=1, dtype=None):
            raise ValueError("Either `label` or `shape` must be supplied.")
     total = np.product(shape)
     data = np.arange(start=start, stop=step*total+start, step=step,
-                     dtype=dtype).reshape(shape)
+                     dtype=dtype)
+    # With a float step roundoff can give np.arange one element too many
+    data = data[:total].reshape(shape)
     return larry(data, label)
 
 def empty(shape=None, label=None, dtype=None, order='C'):
-- 
2.43.0


From 471b266f0f2a147a2d626fee0dd0e1fb810cf5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:00 +0000
Subject: [PATCH 33/36] fix: indexing with a sequence does not share label
 lists with the source

---
 la/deflarry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index ad149d6..3102bc4 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -1826,7 +1826,7 @@ class larry(object):
                         msg = 'I do not recognize the way you are indexing'
                         raise IndexError(msg)
                 else:
-                    lab = self.label[ax]
+                    lab = list(self.label[ax])
                     allscalar = False
                 if lab is not None:
                     label.append(lab)
@@ -1840,7 +1840,7 @@ class larry(object):
             x = self.x[index]
             validate = False
         elif typidx is list:
-            label = list(self.label)
+            label = self.copylabel()
             lab = [label[0][int(i)] for i in index]
             if len(set(lab)) != len(lab):
                 raise IndexError("Duplicate labels along axis 0.")
-- 
2.43.0


From 3370074de442b697832afaa407a63c0d2befcc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 34/36] fix: isint recognises unsigned NumPy integers

---
 la/util/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/la/util/misc.py b/la/util/misc.py
index a9ab98a..a86200b 100644
--- a/la/util/misc.py
+++ b/la/util/misc.py
@@ -60,7 +60,7 @@ def isint(x):
     False     
                 
     """
-    return np.issubdtype(type(x), int)
+    return np.issubdtype(type(x), np.integer)
     
 def isfloat(x):
     """Returns True if input is a float; False otherwise.
-- 
2.43.0


From db864e78c5eebcbdd6861774534fd805c21f0143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:45 +0000
Subject: [PATCH 35/36] fix: tofile writes floats with all their digits

---
 la/deflarry.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 3102bc4..03806a8 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -4901,7 +4901,7 @@ class larry(object):
         if ndim == 1:
 
             for i in range(self.size):
-                line = [str(self.label[0][i]), str(self.x[i]) + '\n']
+                line = [_tostr(self.label[0][i]), _tostr(self.x[i]) + '\n']
                 line = delimiter.join(line)
                 f.write(line)
 
@@ -4911,16 +4911,16 @@ class larry(object):
             f.write(delimiter)
             line = []
             for i in range(self.shape[1]):
-                line.append(str(self.label[1][i]))
+                line.append(_tostr(self.label[1][i]))
             line = delimiter.join(line)
             line += '\n'
             f.write(line)
 
             # Row labels and array data
             for i in range(self.shape[0]):
-                line = [str(self.label[0][i])]
+                line = [_tostr(self.label[0][i])]
                 for j in range(self.shape[1]):
-                    line.append(str(self.x[i,j]))
+                    line.append(_tostr(self.x[i,j]))
                 line = delimiter.join(line)
                 line += '\n'
                 f.write(line)
@@ -5145,6 +5145,14 @@ class Lix(object):
         else:
             raise IndexError('Unsupported indexing operation.')
 
+# Conversion support functions -----------------------------------------------
+
+def _tostr(value):
+    "Same as str(value) but keeps all the digits of a float."
+    if isinstance(value, (float, np.floating)):
+        return repr(float(value))
+    return str(value)
+
 # Indexing support functions -------------------------------------------------
 
 def _scalar_first(x, index):
-- 
2.43.0


From 0219b27c6ad08acbba77d19537972a1cf9f53918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:54 +0000
Subject: [PATCH 36/36] fix: y.lix[['a', 'b'], :] used the caller's list as
 label of its result

---
 la/deflarry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/la/deflarry.py b/la/deflarry.py
index 03806a8..355466f 100644
--- a/la/deflarry.py
+++ b/la/deflarry.py
@@ -5057,7 +5057,7 @@ class Lix(object):
                 if typ == list:
                     idx2 = labels2indices(y.label[ax], idx)
                     if len(idx) > 1:
-                        label.append(idx)
+                        label.append(list(idx))
                     index2.append(idx2)
                 elif typ == slice:
                     s = slicemaker(idx, y.labelindex, ax)
-- 
2.43.0

