From 117930885448e6d00bf6c3839ff08285a9b8fa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:18 +0000
Subject: [PATCH 01/65] fix: add each snapshot of an Athena xdmf collection
 only once

---
 viscid/readers/athena_xdmf.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/viscid/readers/athena_xdmf.py b/viscid/readers/athena_xdmf.py
index 7f221fc..c79042d 100644
--- a/viscid/readers/athena_xdmf.py
+++ b/viscid/readers/athena_xdmf.py
@@ -44,9 +44,8 @@ class AthenaFileXDMF(athena.AthenaFile, xdmf.FileXDMF):  # pylint: disable=abstr
                                                name="AthenaXDMFTemporalCollection")
 
             for fname in self._collection:
-                grids = self._parse_file(fname, data_temporal)
-                for _grid in grids:
-                    data_temporal.add(_grid)
+                # _parse_file also adds the grids to data_temporal
+                self._parse_file(fname, data_temporal)
             data_temporal.activate(0)
             self.add(data_temporal)
             self.activate(0)
-- 
2.43.0


From c331101f304dcbca4e13659310c815e6baf3e13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:18 +0000
Subject: [PATCH 02/65] fix: give members of an xdmf collection the times of
 its time list

---
 viscid/readers/xdmf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index a9d9255..d8844d7 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -186,7 +186,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
             for i, subgrid in enumerate(el.findall("./Grid")):
                 t = times[i] if (times is not None and i < len(times)) else time
                 # print(subgrid, grd, t)
-                self._parse_grid(subgrid, parent_node=grd, time=time)
+                self._parse_grid(subgrid, parent_node=grd, time=t)
             if len(grd.children) > 0:
                 grd.activate(0)
 
-- 
2.43.0


From 2dcf63f318d2b194d2d578ce94105ce4f32aba76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:18 +0000
Subject: [PATCH 03/65] fix: pass assume_mhd_crds on to the snapshots of a
 Fortran collection

---
 viscid/readers/openggcm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/readers/openggcm.py b/viscid/readers/openggcm.py
index 2bbeb21..ef80955 100644
--- a/viscid/readers/openggcm.py
+++ b/viscid/readers/openggcm.py
@@ -784,7 +784,8 @@ class GGCMFileFortran(GGCMFile, ContainerFile):  # pylint: disable=abstract-meth
                                           grid_type=self._grid_type,
                                           crds=self._crds,
                                           fld_templates=self._fld_templates,
-                                          file_wrapper=_fwrapper)
+                                          file_wrapper=_fwrapper,
+                                          assume_mhd_crds=self.assume_mhd_crds)
                 data_temporal.add(f)
             data_temporal.activate(0)
             self.add(data_temporal)
-- 
2.43.0


From 2c360116dc7b4636c6f15eef956e960a41103f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 04/65] fix: keep the table of open files consistent over
 reloads, shared children and failed loads

Reloading a collection lost its other files, unloading a file emptied it for
the files that still refer to it, failed loads were remembered as None, and
different selections of a run's time steps were taken for the same file.
---
 viscid/bucket.py               | 53 +++++++++++++++++------
 viscid/dataset.py              |  5 ++-
 viscid/readers/athena_bin.py   |  2 +
 viscid/readers/athena_tab.py   |  2 +
 viscid/readers/gkeyll.py       |  2 +
 viscid/readers/openggcm.py     |  2 +
 viscid/readers/vfile.py        | 65 +++++++++++++++++++++++++---
 viscid/readers/vfile_bucket.py | 79 ++++++++++++++++++++++------------
 8 files changed, 161 insertions(+), 49 deletions(-)

diff --git a/viscid/bucket.py b/viscid/bucket.py
index cd75cb2..32a8bd9 100755
--- a/viscid/bucket.py
+++ b/viscid/bucket.py
@@ -27,6 +27,10 @@ class Bucket(object):
     _handles = None  # keys are hashable items, values are list of handles
     _items = None  # keys are handles, values are actual items
 
+    # keys are hashable items that were added in their own right, ie, not only
+    # by reference, values are their index handles (None if they don't have one)
+    _own = None
+
     # if index handle, set_item adds this number as a handle and increments it
     # this is useful for hiding loads that are not user initiated, such as
     # an xdmf file loading an h5 file under the covers
@@ -44,11 +48,13 @@ class Bucket(object):
             self._hash_lookup = OrderedDict()
             self._handles = OrderedDict()
             self._items = OrderedDict()
+            self._own = OrderedDict()
         else:
             self._ref_count = {}
             self._hash_lookup = {}
             self._handles = {}
             self._items = {}
+            self._own = {}
 
     @staticmethod
     def _make_hashable(item):
@@ -80,8 +86,13 @@ class Bucket(object):
         # make sure we have a hashable "item" for doing reverse
         # lookups of handles using an item
         hashable_item = self._make_hashable(item)
-        if hashable_item not in self._hash_lookup:
-            if index_handle:
+        if not _add_ref:
+            # an item that was only added by reference so far can now also be
+            # wanted in its own right
+            _add_ref = hashable_item not in self._own
+            index = self._own.setdefault(hashable_item, None)
+            if index_handle and index is None:
+                self._own[hashable_item] = self._int_counter
                 handles += [self._int_counter]
                 self._int_counter += 1
 
@@ -119,6 +130,7 @@ class Bucket(object):
             if len(handles_added) == 0:
                 logger.error("No valid handles given, item '{0}' not added to "
                              "bucket".format(hashable_item))
+                self._own.pop(hashable_item, None)
 
             else:
                 self._handles[hashable_item] = handles_added
@@ -139,6 +151,7 @@ class Bucket(object):
         del self._hash_lookup[hashable_item]
         del self._handles[hashable_item]
         del self._ref_count[hashable_item]
+        self._own.pop(hashable_item, None)
 
     def _remove_item_by_handle(self, handle):
         self._remove_item(self._items[handle])
@@ -150,23 +163,37 @@ class Bucket(object):
         """ remove item by handle, raises KeyError if handle is not found """
         self.remove_item(self._items[handle])
 
-    def remove_reference(self, item, _ref_count=1):
+    def remove_reference(self, item, _ref_count=None):
+        """Release an item, and remove it if nothing else refers to it
+
+        Args:
+            item: an item, or one of its handles
+            _ref_count (int): number of references to remove that were
+                made with set_item(..., _add_ref=True). If not given,
+                release the item in its own right
+
+        Returns:
+            True if item is no longer in the bucket
+        """
         hashable_item = self._make_hashable(item)
-        try:
-            self._ref_count[hashable_item] -= _ref_count
-        except KeyError:
+        if hashable_item not in self._ref_count:
+            if not self.contains_handle(item):
+                return True
             item = self[item]
             hashable_item = self._make_hashable(item)
-            if _ref_count:
-                self._ref_count[hashable_item] -= _ref_count
-            else:
-                self._ref_count[hashable_item] = 0
 
-        # FIXME: unload_all_files breaks this assert check... probably a bug
-        # assert self._ref_count[hashable_item] >= 0, \
-        #     "problem with bucket ref counting {0}".format(hashable_item)
+        if _ref_count is None:
+            _ref_count = 1 if hashable_item in self._own else 0
+            index = self._own.pop(hashable_item, None)
+            if index is not None and self._items.get(index) is item:
+                self._handles[hashable_item].remove(index)
+                del self._items[index]
+        self._ref_count[hashable_item] -= _ref_count
+
         if self._ref_count[hashable_item] <= 0:
             self._remove_item(item)
+            return True
+        return False
 
     def remove_all_items(self):
         """ unload all items """
diff --git a/viscid/dataset.py b/viscid/dataset.py
index 3dfd009..cd5432f 100644
--- a/viscid/dataset.py
+++ b/viscid/dataset.py
@@ -239,6 +239,7 @@ class Dataset(tree.Node):
             self.tear_down_child(child)
             child.remove_all_items()
         self.children = Bucket(ordered=True)
+        self.active_child = None
 
     def activate(self, child_handle):
         """ it may not look like it, but this will recursively look
@@ -499,9 +500,9 @@ class DatasetTemporal(Dataset):
             self.tear_down_child(child[1])
             child[1].remove_all_items()
         self.children = []
+        self.active_child = None
 
-    def clear_cache(self):
-        """Clear all childrens' caches"""
+    def _clear_cache(self):
         for child in self.children:
             child[1].clear_cache()
 
diff --git a/viscid/readers/athena_bin.py b/viscid/readers/athena_bin.py
index 3f9a2a8..567b729 100644
--- a/viscid/readers/athena_bin.py
+++ b/viscid/readers/athena_bin.py
@@ -30,6 +30,8 @@ class AthenaBinFile(athena.AthenaFile, ContainerFile):  # pylint: disable=abstra
     var_type = None
     _crds = None
 
+    _reread_attrs = ('_crds', '_fwrapper')
+
     def __init__(self, fname, crds=None, float_type_name=None, var_type=None,
                  **kwargs):
         """
diff --git a/viscid/readers/athena_tab.py b/viscid/readers/athena_tab.py
index af7f3e4..d691b77 100644
--- a/viscid/readers/athena_tab.py
+++ b/viscid/readers/athena_tab.py
@@ -24,6 +24,8 @@ class AthenaTabFile(athena.AthenaFile, ContainerFile):  # pylint: disable=abstra
     _fld_list = None
     _crds = None
 
+    _reread_attrs = ('_crds', '_fld_list')
+
     def __init__(self, fname, crds=None, fld_list=None, **kwargs):
         # if there is no parent bucket we need to new one up for children
         self._fld_list = fld_list
diff --git a/viscid/readers/gkeyll.py b/viscid/readers/gkeyll.py
index 3a9099b..b3cb614 100644
--- a/viscid/readers/gkeyll.py
+++ b/viscid/readers/gkeyll.py
@@ -215,6 +215,8 @@ class GkeyllFile(FileHDF5, ContainerFile):  # pylint: disable=abstract-method
     _crds = None
     _fld_templates = None
 
+    _reread_attrs = ('_crds', '_fld_templates')
+
     def __init__(self, fname, crds=None, fld_templates=None, **kwargs):
         assert HAS_H5PY
         self._crds = crds
diff --git a/viscid/readers/openggcm.py b/viscid/readers/openggcm.py
index ef80955..c5701f3 100644
--- a/viscid/readers/openggcm.py
+++ b/viscid/readers/openggcm.py
@@ -696,6 +696,8 @@ class GGCMFileFortran(GGCMFile, ContainerFile):  # pylint: disable=abstract-meth
     _fld_templates = None
     grid2 = None
 
+    _reread_attrs = ('_crds', '_fwrapper', '_fld_templates')
+
     # you can override this in your viscidrc file with:
     #   "readers.openggcm.GGCMFileFortran.assume_mhd_crds": true
     # But chances are, fortran (jrrle/fortbin) files are in 'mhd' crds and
diff --git a/viscid/readers/vfile.py b/viscid/readers/vfile.py
index f5ab7dc..f02e391 100644
--- a/viscid/readers/vfile.py
+++ b/viscid/readers/vfile.py
@@ -6,6 +6,7 @@
 
 from __future__ import print_function
 # import sys
+from copy import copy
 from operator import attrgetter
 import os
 import re
@@ -88,6 +89,15 @@ class VFile(Dataset):
     load_time = None
     handle_name = None  # set in VFileBucket.load_files
 
+    # True if this file has to be reloaded before it can be used again, for
+    # instance since the last attempt to reload it did not succeed
+    needs_reload = False
+    _load_arg = None  # whatever was given to the constructor as fname
+    _pristine = None  # instance attributes before anything was loaded
+    # attributes that hold things read from the file; these are also given
+    # to the constructor when a collection shares them among its snapshots
+    _reread_attrs = ()
+
     fname = None
     dirname = None
 
@@ -110,6 +120,9 @@ class VFile(Dataset):
 
         self.parent_bucket = parent_bucket
 
+        self._load_arg = list(fname) if isinstance(fname, (list, tuple)) else fname
+        self._pristine = dict(self.__dict__)
+        self._pristine['_info'] = dict(self._info)
         self.load(fname)
 
     def load(self, fname):
@@ -121,17 +134,55 @@ class VFile(Dataset):
         self.load_time = time()
         self._parse()
 
-    def reload(self):
+    def _release(self):
+        """Let go of everything that was read from the file"""
         self._clear_cache()
         self.remove_all_items()
-        self.load(self.fname)
+
+    def _reset(self):
+        """Go back to the state before the file was loaded"""
+        state = dict(self._pristine)
+        state['_info'] = dict(self._pristine['_info'])
+        for name in ('parents', 'handle_name', '_pristine', 'children',
+                     'active_child'):
+            state[name] = getattr(self, name)
+        self.__dict__.clear()
+        self.__dict__.update(state)
+
+    def reload(self):
+        """Read the file again, as if it were loaded for the first time"""
+        self._release()
+        self._reset()
+        for name in self._reread_attrs:
+            setattr(self, name, None)
+        self.needs_reload = True
+        self.load(copy(self._load_arg))
+        self.needs_reload = False
+
+    @staticmethod
+    def _normalized_fnames(fnames):
+        if not isinstance(fnames, (list, tuple)):
+            fnames = [fnames]
+        return [os.path.abspath(os.path.expanduser(os.path.expandvars(fname)))
+                for fname in fnames]
+
+    def is_made_from(self, fnames):
+        """True if this file is the result of loading fnames"""
+        return (self._normalized_fnames(fnames) ==
+                self._normalized_fnames(self._load_arg))
 
     def unload(self, **kwargs):
-        """Really unload a file, don't just clear the cache"""
-        self._clear_cache()
-        self.remove_all_items()
-        if self.parent_bucket:
-            self.parent_bucket.remove_reference(self, **kwargs)
+        """Really unload a file, don't just clear the cache
+
+        Note:
+            If other files still refer to this one, it stays loaded
+            until they are unloaded too.
+        """
+        unused = True
+        if self.parent_bucket is not None:
+            unused = self.parent_bucket.remove_reference(self, **kwargs)
+        if unused:
+            self._release()
 
     def __exit__(self, exc_type, value, traceback):
         self.unload()
diff --git a/viscid/readers/vfile_bucket.py b/viscid/readers/vfile_bucket.py
index 207f1d9..4b39481 100644
--- a/viscid/readers/vfile_bucket.py
+++ b/viscid/readers/vfile_bucket.py
@@ -113,13 +113,13 @@ class VFileBucket(Bucket):
             for group in groups:
                 f = None
 
-                handle_name = ftype.collective_name(group)
+                handle_name = self._find_handle_name(ftype, group)
 
-                try:
+                if handle_name in self:
                     f = self[handle_name]
-                    if force_reload:
+                    if force_reload or f.needs_reload:
                         f.reload()
-                except KeyError:
+                else:
                     try:
                         f = ftype(group, parent_bucket=self, **kwargs)
                         f.handle_name = handle_name
@@ -139,8 +139,9 @@ class VFileBucket(Bucket):
                         # re-raise the last expection
                         raise
 
-                self.set_item([handle_name], f, index_handle=index_handle,
-                              _add_ref=_add_ref)
+                if f is not None:
+                    self.set_item([handle_name], f, index_handle=index_handle,
+                                  _add_ref=_add_ref)
                 file_lst.append(f)
 
         if len(file_lst) == 0:
@@ -148,10 +149,26 @@ class VFileBucket(Bucket):
                            "correct?".format(orig_fnames))
         return file_lst
 
+    def _find_handle_name(self, ftype, group):
+        """Find the name for a group of files
+
+        Different groups of files can have the same collective name, for
+        instance different selections of a run's time steps. These are
+        different files, so only one of them can use the name as is.
+        """
+        collective_name = ftype.collective_name(group)
+        handle_name = collective_name
+        i = 1
+        while handle_name in self and not self[handle_name].is_made_from(group):
+            i += 1
+            handle_name = "{0}#{1}".format(collective_name, i)
+        return handle_name
+
     def remove_item(self, item, do_unload=True):
         if do_unload:
             item.unload()
-        super(VFileBucket, self).remove_item(item)
+        if self.contains_item(item):
+            super(VFileBucket, self).remove_item(item)
 
     def remove_item_by_handle(self, handle, do_unload=True):
         self.remove_item(self[handle], do_unload=do_unload)
@@ -159,10 +176,7 @@ class VFileBucket(Bucket):
     def remove_all_items(self, do_unload=True):
         if do_unload:
             for val in list(self.values()):
-                try:
-                    val.unload()
-                except KeyError:
-                    pass
+                val.unload()
         super(VFileBucket, self).remove_all_items()
 
     def __getitem__(self, handle):
@@ -194,8 +208,13 @@ class ContainerFile(VFile):  # pylint: disable=abstract-method
             self.child_bucket = parent_bucket
         self._child_files = []
         self._child_ref_count = {}
-        super(ContainerFile, self).__init__(fname, parent_bucket=parent_bucket,
-                                            **kwargs)
+        try:
+            super(ContainerFile, self).__init__(fname,
+                                                parent_bucket=parent_bucket,
+                                                **kwargs)
+        except Exception:
+            self._release_child_files()
+            raise
 
     def _load_child_file(self, fname, **kwargs):
         """Add file to self.child_bucket and remember it for when I unload"""
@@ -208,24 +227,30 @@ class ContainerFile(VFile):  # pylint: disable=abstract-method
                 self._child_ref_count[f.handle_name] = 1
         return f
 
+    def _release_child_files(self):
+        child_files, self._child_files = self._child_files, []
+        ref_count, self._child_ref_count = self._child_ref_count, {}
+        for child in child_files:
+            child.unload(_ref_count=ref_count[child.handle_name])
+
+    def _release(self):
+        super(ContainerFile, self)._release()
+        self._release_child_files()
+
     def reload(self):
-        for child_handle in self._child_ref_count.keys():
-            self.child_bucket[child_handle].reload()
+        self.needs_reload = True
+        child_files = self._child_files
+        self._release()
+        # children that are still used by something else have to be read
+        # again too if they are still part of this file
+        for child in child_files:
+            if self.child_bucket.contains_item(child):
+                child.needs_reload = True
         super(ContainerFile, self).reload()
 
-    def unload(self, **kwargs):
-        for child_handle in self._child_ref_count.keys():
-            ref_count = self._child_ref_count[child_handle]
-            if "count" in kwargs:
-                raise RuntimeError()
-            if "_ref_count" in kwargs:
-                raise RuntimeError()
-            self.child_bucket[child_handle].unload(_ref_count=ref_count)
-        super(ContainerFile, self).unload()
-
     def clear_cache(self):
-        for child_handle in self._child_ref_count.keys():
-            self.child_bucket[child_handle].clear_cache()
+        for child in self._child_files:
+            child.clear_cache()
         super(ContainerFile, self).clear_cache()
 
 ##
-- 
2.43.0


From a9d9231baf3b5c9220d3ad73cdad03e73e7fc825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 05/65] fix: raise when a jrrle file is torn or can't be read

The Fortran reader stopped the interpreter, overran its buffers or gave
uninitialized values, and opening a missing file created it.
---
 viscid/readers/_fortfile.F90 |   7 +-
 viscid/readers/_jrrle.f90    | 169 +++++++++++++++++++++--------------
 viscid/readers/ggcm_jrrle.py |   8 +-
 3 files changed, 115 insertions(+), 69 deletions(-)

diff --git a/viscid/readers/_fortfile.F90 b/viscid/readers/_fortfile.F90
index 5458915..ab8b627 100644
--- a/viscid/readers/_fortfile.F90
+++ b/viscid/readers/_fortfile.F90
@@ -83,9 +83,10 @@
     !f2py intent(in) funit
     integer debug
     !f2py integer optional debug=0
+    integer ios
     if(debug.gt.0) print*,"Rewinding unit:",funit
 
-    rewind(funit)
+    rewind(funit,iostat=ios)
   end subroutine frewind
 
 
@@ -95,6 +96,7 @@
     !f2py intent(in) funit
     integer debug
     !f2py integer optional debug=0
+    integer ios
 
     if(debug.gt.1) print*,"backspacing unit:",funit
 
@@ -130,7 +132,8 @@
     endif
 
     call freefileunit(uu,funit)
-    open(unit=funit,file=fname,status='UNKNOWN',form='FORMATTED',access=access_method,IOSTAT=openstat)
+    ! files are only ever read, so don't create them if they don't exist
+    open(unit=funit,file=fname,status='OLD',action='READ',form='FORMATTED',access=access_method,IOSTAT=openstat)
 
     if (openstat.ne.0) then
       funit = -1 * openstat
diff --git a/viscid/readers/_jrrle.f90 b/viscid/readers/_jrrle.f90
index 96ee2ce..ddf0257 100644
--- a/viscid/readers/_jrrle.f90
+++ b/viscid/readers/_jrrle.f90
@@ -14,41 +14,49 @@ subroutine inquire_next(found_field,IU,ndim,nx,ny,nz,it,varname,tstring)
   !f2py intent(out) ndim,nx,ny,nz,it
   integer :: found_field
   !f2py intent(out) found_field
+  ! found_field is 1 if there is another field, 0 if there are no more fields,
+  ! and -1 if the meta-data could not be read
+  integer :: i,ios
 
   nx=-1;ny=-1;nz=-1;
   ndim=0
   found_field=0
 
   do while(.true.)
-     read(IU,'(A)',end=888,err=888) buff
+     read(IU,'(A)',end=888,err=777) buff
      if(buff.eq.'FIELD-1D-1')then
         found_field=1
         ndim=1
-        read(IU,'(A)') varname
-        read(IU,'(A)') tstring
-        read(IU,*)it,nx
+        read(IU,'(A)',end=777,err=777) varname
+        read(IU,'(A)',end=777,err=777) tstring
+        read(IU,*,end=777,err=777)it,nx
         exit
      elseif(buff.eq.'FIELD-2D-1')then
         found_field=1
         ndim=2
-        read(IU,'(A)') varname
-        read(IU,'(A)') tstring
-        read(IU,*)it,nx,ny
+        read(IU,'(A)',end=777,err=777) varname
+        read(IU,'(A)',end=777,err=777) tstring
+        read(IU,*,end=777,err=777)it,nx,ny
         exit
      elseif(buff.eq.'FIELD-3D-1')then
         found_field=1
         ndim=3
-        read(IU,'(A)') varname
-        read(IU,'(A)') tstring
-        read(IU,*)it,nx,ny,nz
+        read(IU,'(A)',end=777,err=777) varname
+        read(IU,'(A)',end=777,err=777) tstring
+        read(IU,*,end=777,err=777)it,nx,ny,nz
         exit
      endif
   enddo
   !Get back to the beginning of this field
-  backspace(IU)
-  backspace(IU)
-  backspace(IU)
-  backspace(IU)
+  do i=1,4
+     backspace(IU,iostat=ios)
+     if(ios.ne.0) goto 777
+  enddo
+  goto 888
+
+777 continue
+  found_field=-1
+
 888 continue
 
   !  print*,ndim,nx,ny,nz,it,varname,tstring
@@ -80,37 +88,41 @@ subroutine read_jrrle1d(iu,a1,nx,l1,read_ascii,success)
   integer nn
   character*80 rec
 
+  success=0
   nn = nx
   rid=0.0
   if((iu.lt.0).or.(iu.gt.32768))then
      write(0,*)'Exception: Ambiguous I/O unit number.'
      return
   endif
-  success=0
   !==============================================
   m=LEN(l1)
   call end0(l1,m)
 100 continue
   read(iu,1000,end=190,err=190) rec
   if(rec(1:10).eq.'FIELD-1D-1') then
-     read(iu,1000,end=190) rec
+     read(iu,1000,end=190,err=190) rec
      if((l1(1:m).ne.rec(1:m))) goto 100
      l1=rec
-     read(iu,1000,end=190) rec
-     read(iu,*,end=190)it,nn
+     read(iu,1000,end=190,err=190) rec
+     read(iu,*,end=190,err=190)it,nn
+     if(nn.ne.nx) goto 190
+     nn = nx
      call rdn2(iu,a1,nn,rec,it,rid)
 
      ! see if we have fullascii
      if (read_ascii .or. nn.ne.nx) then
-       read(iu,'(a)')rec
+       read(iu,'(a)',end=190,err=190)rec
        if(rec(2:17).eq.'fullasciifollows') then
          ! write(0,*)'reading:  ',rec(2:17)
-         do i=1,nx; read(iu,*)a1(i); enddo
+         do i=1,nx; read(iu,*,end=190,err=190)a1(i); enddo
+         nn = nx
        else
-         backspace(iu)
+         backspace(iu,err=190)
        endif
      endif
 
+     ! nn is only nx if all the data could be read
      if(nn.eq.nx)then
         success = 1
      endif
@@ -118,7 +130,6 @@ subroutine read_jrrle1d(iu,a1,nx,l1,read_ascii,success)
   endif
   goto 100
 190 continue
-  success=0
 
 1000 format(A)
   return
@@ -149,46 +160,49 @@ subroutine read_jrrle2d(iu,a1,nx,l1,read_ascii,success)
   integer nn,nx1,ny1
   character*80 rec
 
+  success=0
   nn = nx
   rid=0.0
   if((iu.lt.0).or.(iu.gt.32768))then
      write(0,*)'Exception: Ambiguous I/O unit number.'
      return
   endif
-  success=0
   !==============================================
   m=LEN(l1)
   call end0(l1,m)
 100 continue
   read(iu,1000,end=190,err=190) rec
   if(rec(1:10).eq.'FIELD-2D-1') then
-     read(iu,1000,end=190) rec
+     read(iu,1000,end=190,err=190) rec
      if((l1(1:m).ne.rec(1:m))) goto 100
      l1=rec
-     read(iu,1000,end=190) rec
-     read(iu,*,end=190)it,nx1,ny1
+     read(iu,1000,end=190,err=190) rec
+     read(iu,*,end=190,err=190)it,nx1,ny1
+     if(nx1*ny1.ne.nx) goto 190
+     nn = nx
      call rdn2(iu,a1,nn,rec,it,rid)
 
-    ! see if we have fullascii
-    if (read_ascii .or. nn.ne.nx) then
-      read(iu,'(a)')rec
-      if(rec(2:17).eq.'fullasciifollows') then
-        ! write(0,*)'reading:  ',rec(2:17)
-        do i=1,nx; read(iu,*)a1(i); enddo
-      else
-        backspace(iu)
-      endif
-    endif
+     ! see if we have fullascii
+     if (read_ascii .or. nn.ne.nx) then
+       read(iu,'(a)',end=190,err=190)rec
+       if(rec(2:17).eq.'fullasciifollows') then
+         ! write(0,*)'reading:  ',rec(2:17)
+         do i=1,nx; read(iu,*,end=190,err=190)a1(i); enddo
+         nn = nx
+       else
+         backspace(iu,err=190)
+       endif
+     endif
 
-    if(nx1*ny1.eq.nx)then
-      success = 1
-    endif
+     ! nn is only nx if all the data could be read
+     if(nn.eq.nx)then
+        success = 1
+     endif
     return
   endif
   goto 100
 
 190 continue
-  success=0
 
 1000 format(A)
   return
@@ -219,45 +233,48 @@ subroutine read_jrrle3d(iu,a1,nx,l1,read_ascii,success)
   integer nn,nx1,ny1,nz1
   character*80 rec
 
+  success=0
   nn = nx
   rid=0.0
   if((iu.lt.0).or.(iu.gt.32768))then
      write(0,*)'Exception: Ambiguous I/O unit number.'
      return
   endif
-  success=0
   !==============================================
   m=LEN(l1)
   call end0(l1,m)
 100 continue
   read(iu,1000,end=190,err=190) rec
   if(rec(1:10).eq.'FIELD-3D-1') then
-     read(iu,1000,end=190) rec
+     read(iu,1000,end=190,err=190) rec
      if((l1(1:m).ne.rec(1:m))) goto 100
      l1=rec
-     read(iu,1000,end=190) rec
-     read(iu,*,end=190)it,nx1,ny1,nz1
+     read(iu,1000,end=190,err=190) rec
+     read(iu,*,end=190,err=190)it,nx1,ny1,nz1
+     if(nx1*ny1*nz1.ne.nx) goto 190
+     nn = nx
      call rdn2(iu,a1,nn,rec,it,rid)
 
      ! see if we have fullascii
      if (read_ascii .or. nn.ne.nx) then
-       read(iu,'(a)')rec
-         if(rec(2:17).eq.'fullasciifollows') then
+       read(iu,'(a)',end=190,err=190)rec
+       if(rec(2:17).eq.'fullasciifollows') then
          ! write(0,*)'reading:  ',rec(2:17)
-         do i=1,nx; read(iu,*)a1(i); enddo
+         do i=1,nx; read(iu,*,end=190,err=190)a1(i); enddo
+         nn = nx
        else
-         backspace(iu)
+         backspace(iu,err=190)
        endif
      endif
 
-     if((nx1*ny1*nz1.eq.nx))then
+     ! nn is only nx if all the data could be read
+     if(nn.eq.nx)then
         success = 1
      endif
      return
   endif
   goto 100
 190 continue
-  success=0
 
 1000 format(A)
   return
@@ -378,12 +395,27 @@ subroutine rdn2( fileNo,a,n,cid,it,rid )
   character*8 cid
   character*4 did
   character*8 nid
+  character*80 header
+  integer nid_asint,ios
   real a1(0:63)
   integer intRec1(0:63),intRec2(0:63),i3(0:63)
   integer q
   integer fileNo
 
-  read( UNIT=fileNo,FMT='(a4,a8,3e14.7,i8,a)',ERR=100,END=900 ) &
+  read( UNIT=fileNo,FMT='(a)',ERR=900,END=900 ) header
+
+  ! try read again, if we don't have WRN2 data
+  if( header(1:4).ne.'WRN2' ) then
+     goto 100
+  endif
+
+  ! the part of the header up to it is always 62 characters long, so if it's
+  ! shorter then it's torn
+  if( len_trim(header).lt.62 ) then
+     goto 900
+  endif
+
+  read( header,FMT='(a4,a8,3e14.7,i8,a)',ERR=900,END=900 ) &
        did,nid,zmin,zmax,rid,it,cid
   ! The format of the header record is as follows:
   ! 1, 4 char string                                    ( did )
@@ -396,16 +428,12 @@ subroutine rdn2( fileNo,a,n,cid,it,rid )
   ! the jrrle format, so we need to assume that the value passed in as
   ! `n` is correct, or else all is lost
   if (nid.ne."********") then
-    read(nid,'(i8)') nid_asint
-    if (nid_asint.ne.n) then
+    read(nid,'(i8)',iostat=ios) nid_asint
+    if (ios.ne.0 .or. nid_asint.ne.n) then
       write(0,*)'rdn2: nid (nid_asint) .ne. n ', nid, nid_asint, n
+      n=-2
+      return
     endif
-    n = nid_asint
-  endif
-
-  ! try read again, if we don't have WRN2 data
-  if( did.ne.'WRN2' ) then
-     goto 100
   endif
 
   ! data array is constant, initialize a and return
@@ -479,7 +507,7 @@ subroutine rdn2( fileNo,a,n,cid,it,rid )
   ! there was no rle data (ascii only?)
 100 continue
   n=-1
-  backspace(fileNo)
+  backspace(fileNo,iostat=ios)
   return
 
   ! io error occured
@@ -556,6 +584,14 @@ subroutine wrndec(fileNo,expandedDatOut,n)
      ! this is repeated nRep times
      j  = j + 1
      hexChar = ICHAR( asciiDat(j:j) )
+
+     ! error the record is torn, or longer than 64 chars
+     if( nRep.lt.1 .or. hexChar.eq.32 .or. i+nRep.gt.63 ) then
+        write(0,*)'wrndec: bad repeat count or n gt 63'
+        n=-5
+        return
+     endif
+
      do q=1,nRep
         i = i + 1
         expandedDat(i) = hexChar
@@ -563,6 +599,11 @@ subroutine wrndec(fileNo,expandedDatOut,n)
 
      ! otherwise it is 7 bit ascii, and apears only once
   else
+     if( i.ge.63 ) then
+        write(0,*)'wrndec: n gt 63'
+        n=-5
+        return
+     endif
      i = i + 1
      expandedDat(i) = hexChar
   endif
@@ -572,14 +613,10 @@ subroutine wrndec(fileNo,expandedDatOut,n)
 
 190 continue
 
-  ! error we expect field to be 64 chars if its more then this
-  ! there is a problem, bail
   n=i
-  if( n.gt.63 ) then
-     write(0,*)'wrndec: n gt 63, n=',n
+  if( n.lt.0 ) then
+     write(0,*)'wrndec: empty record'
      n=-5
-     write(0,'(a)')'rec:'
-     write(0,'(a)')asciiDat
      return
   endif
 
diff --git a/viscid/readers/ggcm_jrrle.py b/viscid/readers/ggcm_jrrle.py
index 2e636eb..9568728 100644
--- a/viscid/readers/ggcm_jrrle.py
+++ b/viscid/readers/ggcm_jrrle.py
@@ -46,7 +46,10 @@ class JrrleFileWrapper(FortranFile):
         """
         meta = self.inquire(fld_name)
         arr = np.empty(meta['dims'], dtype='float32', order='F')
-        self._read_func[ndim - 1](self.unit, arr, fld_name, read_ascii)
+        success = self._read_func[ndim - 1](self.unit, arr, fld_name, read_ascii)
+        if not success:
+            raise IOError("Can't read field '{0}' from file '{1}'"
+                          "".format(fld_name, self.filename))
         return meta, arr
 
     def inquire_all_fields(self, reinquire=False):
@@ -106,6 +109,9 @@ class JrrleFileWrapper(FortranFile):
         found_field, ndim, nx, ny, nz, it = _jrrle.inquire_next(self._unit,
                                                                 varname,
                                                                 tstring)
+        if found_field < 0:
+            raise IOError("Can't read the meta data of a field in file '{0}'"
+                          "".format(self.filename))
         varname = str(np.char.decode(varname)).strip()
         tstring = str(np.char.decode(tstring)).strip()
 
-- 
2.43.0


From 9fdb22ba15eb31bfe47a20c34f9fc6fde395403e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 06/65] fix: raise when a grid2, fortbin, Athena bin or Athena
 tab file is incomplete

Short reads gave truncated coordinates and data, a wrong data offset, or a
time of 0.0, and a torn fortbin header was taken for the end of the file.
---
 viscid/readers/athena_bin.py   | 33 ++++++++++++++----------
 viscid/readers/athena_tab.py   |  7 +++--
 viscid/readers/ggcm_fortbin.py | 47 +++++++++++++++++++---------------
 viscid/readers/openggcm.py     | 26 ++++++++++---------
 4 files changed, 65 insertions(+), 48 deletions(-)

diff --git a/viscid/readers/athena_bin.py b/viscid/readers/athena_bin.py
index 567b729..138e08c 100644
--- a/viscid/readers/athena_bin.py
+++ b/viscid/readers/athena_bin.py
@@ -240,8 +240,7 @@ class AthenaBinFileWrapper(object):
 
         fld_size_bytes = self.count * self._float_dtype.itemsize
         self._file.seek(self._loc_after_header + fld_id * fld_size_bytes)
-        data = np.fromfile(self._file, dtype=self._float_dtype,
-                           count=self.count)
+        data = self._read_array(self._float_dtype, self.count)
         # return ndarray as native endian
         return data.astype(self._float_dtype.name)
 
@@ -257,9 +256,11 @@ class AthenaBinFileWrapper(object):
             try:
                 if self._endian is None:
                     self._read_file_header()
-            except IOError as e:
+            except Exception:
+                # nothing from a broken header can be used
+                self._endian = None
                 self.close()
-                raise e
+                raise
 
     @property
     def isopen(self):
@@ -278,12 +279,19 @@ class AthenaBinFileWrapper(object):
     def __exit__(self, exc_type, value, traceback):
         self.close()
 
+    def _read_array(self, dtype, n):
+        arr = np.fromfile(self._file, dtype=dtype, count=n)
+        if len(arr) != n:
+            raise IOError("Athena binary file is incomplete: {0}"
+                          "".format(self.filename))
+        return arr
+
     def _read_file_header(self):
         """load up the file's meta data"""
         self._file.seek(0, 0)
 
-        coordsys = np.fromfile(self._file, dtype="<i", count=1)[0]
-        dims = np.fromfile(self._file, dtype="<i", count=5)
+        coordsys = self._read_array("<i4", 1)[0]
+        dims = self._read_array("<i4", 5)
 
         # if nvar makes sense, we were right, use little endian
         if dims[3] < 1000:
@@ -300,10 +308,10 @@ class AthenaBinFileWrapper(object):
         self._float_dtype = np.dtype(self._endian + self.float_type_name)
 
         # ignore self_gravity and particles flags for now
-        _, _ = np.fromfile(self._file, dtype=dtyp_int, count=2)
+        _, _ = self._read_array(dtyp_int, 2)
 
         # ignore gamm1 and cs for now
-        _, _ = np.fromfile(self._file, dtype=self._float_dtype, count=2)
+        _, _ = self._read_array(self._float_dtype, 2)
 
         # determine field names from hints about how athena was run
         # for BAROTROPIC EOS HDYRO: NVAR = 4 + NSCALARS
@@ -328,11 +336,10 @@ class AthenaBinFileWrapper(object):
         fld_names.extend((str(i) for i in range(nprim_flds, nvars)))
         self.fld_names = fld_names
 
-        self.time, self.dt = np.fromfile(self._file, dtype=self._float_dtype,
-                                         count=2)
-        x = np.fromfile(self._file, dtype=self._float_dtype, count=nx)
-        y = np.fromfile(self._file, dtype=self._float_dtype, count=ny)
-        z = np.fromfile(self._file, dtype=self._float_dtype, count=nz)
+        self.time, self.dt = self._read_array(self._float_dtype, 2)
+        x = self._read_array(self._float_dtype, nx)
+        y = self._read_array(self._float_dtype, ny)
+        z = self._read_array(self._float_dtype, nz)
 
         if self.keep_crd_clist:
             self.crd_clist = [('z', z.astype(self._float_dtype.name)),
diff --git a/viscid/readers/athena_tab.py b/viscid/readers/athena_tab.py
index d691b77..1712607 100644
--- a/viscid/readers/athena_tab.py
+++ b/viscid/readers/athena_tab.py
@@ -117,7 +117,7 @@ class AthenaTabFile(athena.AthenaFile, ContainerFile):  # pylint: disable=abstra
     @staticmethod
     def parse_header(fname):
         meta = {}
-        t = 0.0
+        t = None
         dims = []
         fld_names = []
 
@@ -128,7 +128,7 @@ class AthenaTabFile(athena.AthenaFile, ContainerFile):  # pylint: disable=abstra
                 if line.startswith('Nx'):
                     dims.append(int(line.split('=')[1]))
                 if "Time" in line:
-                    t = re.search(r"Time\s*=\s*([0-9\.]+)", line).groups()[0]
+                    t = re.search(r"Time\s*=\s*([-+0-9\.eE]+)", line).groups()[0]
                 # il y a level & domain for SMR outptut, but i'm ignoring them
 
                 fns = re.split(r"\[[0-9]+\]=", line)
@@ -137,6 +137,9 @@ class AthenaTabFile(athena.AthenaFile, ContainerFile):  # pylint: disable=abstra
                     # take off empty first element and strip the rest
                     fld_names = [fn.strip() for fn in fns[1:]]
 
+            if t is None:
+                raise IOError("Athena tab file has no time, it's probably "
+                              "incomplete: {0}".format(fname))
             meta['time'] = float(t)
             # these dims are xyz... this is not the standard 'fortran ordering'
             meta['dims'] = dims
diff --git a/viscid/readers/ggcm_fortbin.py b/viscid/readers/ggcm_fortbin.py
index 405fdcf..f04d150 100644
--- a/viscid/readers/ggcm_fortbin.py
+++ b/viscid/readers/ggcm_fortbin.py
@@ -65,6 +65,9 @@ class GGCMFortbinFileWrapper(object):
         self._file.seek(meta['file_position'] + meta['header_size'])
         data = np.fromfile(self._file, dtype=np.dtype(self._endian + 'f'),
                            count=meta['nelem'])
+        if len(data) != meta['nelem']:
+            raise IOError("Can't read field '{0}' from file '{1}'"
+                          "".format(fld_name, self.filename))
         return meta, data.reshape(meta['dims'], order='F')
 
     def inquire_all_fields(self, reinquire=False):
@@ -77,20 +80,21 @@ class GGCMFortbinFileWrapper(object):
 
         self._file.seek(0)
         while not self.seen_all_fields:
-            self.inquire_next()
-            self._file.seek(self.file_meta['nbytes'], 1)
+            _, meta = self.inquire_next()
+            if meta is not None:
+                self._file.seek(meta['nbytes'], 1)
 
     def inquire(self, fld_name):
         try:
             meta = self.fields_seen[fld_name]
-            self.seek(meta['file_position'])
+            self._file.seek(meta['file_position'])
             return meta
         except KeyError:
             try:
                 last_added = next(reversed(self.fields_seen))
                 # go to the last seen field and go one field past it
-                self.seek(self.fields_seen[last_added]['file_position'] +
-                          self.file_meta['nbytes'])
+                self._file.seek(self.fields_seen[last_added]['file_position'] +
+                                self.fields_seen[last_added]['nbytes'])
             except StopIteration:
                 self._file.seek(0)
 
@@ -98,7 +102,8 @@ class GGCMFortbinFileWrapper(object):
                 found_fld_name, meta = self.inquire_next()
                 if found_fld_name == fld_name:
                     return meta
-                self._file.seek(self.file_meta['nbytes'], 1)
+                if meta is not None:
+                    self._file.seek(meta['nbytes'], 1)
 
             raise KeyError("file '{0}' has no field '{1}'"
                            "".format(self.filename, fld_name))
@@ -117,10 +122,7 @@ class GGCMFortbinFileWrapper(object):
         if not self.isopen:
             raise RuntimeError("file is not open")
 
-        try:
-            fld_name, meta = self._read_header()
-        except IOError:
-            fld_name, meta = None, None
+        fld_name, meta = self._read_header()
 
         if not fld_name:
             self.seen_all_fields = True
@@ -137,9 +139,9 @@ class GGCMFortbinFileWrapper(object):
             try:
                 if self._endian is None or self._file_meta is None:
                     self._read_file_header()
-            except IOError as e:
+            except Exception:
                 self.close()
-                raise e
+                raise
 
     @property
     def isopen(self):
@@ -162,16 +164,15 @@ class GGCMFortbinFileWrapper(object):
         """load up the file's meta data"""
         assert self._file.tell() == 0
         _, meta = self._read_header(data_size=data_size)
+        if meta is None:
+            raise IOError("No fields in file: {0}".format(self.filename))
         self._file_meta = meta
 
     def _read_header(self, data_size=4):
         """read a field's header; returns None, None if EOF
-        Raises:
-            Both of the following are raised if there are no more
-            fields in a file (although it'll more likely be an IOError)
 
-            IOError: couldn't detect endian
-            struct.error: not enough lines in file to get a header
+        Raises:
+            IOError: couldn't detect endian, or header is incomplete
         """
         if not self.isopen:
             raise RuntimeError("Trying to read header, but file is closed.")
@@ -179,7 +180,9 @@ class GGCMFortbinFileWrapper(object):
         try:
             pos = self._file.tell()
             endian_marker = self._file.read(4)
-            if endian_marker == struct.pack('<i', 2):
+            if not endian_marker:
+                return None, None
+            elif endian_marker == struct.pack('<i', 2):
                 self._endian = '<'
             elif endian_marker == struct.pack('>i', 2):
                 self._endian = '>'
@@ -192,8 +195,9 @@ class GGCMFortbinFileWrapper(object):
             dims = struct.unpack(self._endian + '{0}i'.format(ndim),
                                  self._file.read(4 * ndim))
 
-            fld_name = self._file.read(80).decode().strip()
-            asciitime = self._file.read(80).decode()
+            fld_name, asciitime = struct.unpack('80s80s', self._file.read(160))
+            fld_name = fld_name.decode().strip()
+            asciitime = asciitime.decode()
 
             header_size = 4 + 4 + 4 + (4 * ndim) + (2 * 80)
             nelem = np.prod(dims)
@@ -214,7 +218,8 @@ class GGCMFortbinFileWrapper(object):
             else:
                 return fld_name, fld_meta
         except struct.error:
-            return None, None
+            raise IOError("Header of a field is incomplete in fortbin file: "
+                          "{0}".format(self.filename))
 
 
 class FortbinDataWrapper(vfile.DataWrapper):
diff --git a/viscid/readers/openggcm.py b/viscid/readers/openggcm.py
index c5701f3..6e27ac0 100644
--- a/viscid/readers/openggcm.py
+++ b/viscid/readers/openggcm.py
@@ -842,18 +842,7 @@ class GGCMFileFortran(GGCMFile, ContainerFile):  # pylint: disable=abstract-meth
                           "{0}".format(self.fname))
 
         # load the cell centered grid
-        with open(self.grid2, 'r') as fin:
-            nx = int(next(fin).split()[0])
-            gx = list(islice(fin, 0, nx, 1))
-            gx = np.array(gx, dtype='f4')
-
-            ny = int(next(fin).split()[0])
-            gy = list(islice(fin, 0, ny, 1))
-            gy = np.array(gy, dtype='f4')
-
-            nz = int(next(fin).split()[0])
-            gz = list(islice(fin, 0, nz, 1))
-            gz = np.array(gz, dtype='f4')
+        gx, gy, gz = self._read_grid2_crds(self.grid2)
 
         xnc = np.empty(len(gx) + 1, dtype=gx.dtype)
         ync = np.empty(len(gy) + 1, dtype=gy.dtype)
@@ -887,6 +876,19 @@ class GGCMFileFortran(GGCMFile, ContainerFile):  # pylint: disable=abstract-meth
 
         return wrap_crds("nonuniform_cartesian", crdlst, units='Re')
 
+    @staticmethod
+    def _read_grid2_crds(fname):
+        crds = []
+        with open(fname, 'r') as fin:
+            for _ in range(3):
+                line = next(fin, '').split()
+                n = int(line[0]) if line else 0
+                crd = np.array(list(islice(fin, 0, n, 1)), dtype='f4')
+                if n == 0 or len(crd) != n:
+                    raise IOError("grid2 file is incomplete: {0}".format(fname))
+                crds.append(crd)
+        return crds
+
     # def _parse_many(fnames):
     #     pass
 
-- 
2.43.0


From 9ebb9dd32804d68df5fe9746180c643ac6d74358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 07/65] fix: take a failing read of a jrrle record for what it
 is

The Fortran runtime can take it for the end of an empty record, and the
reader then never got to the end of the file.
---
 viscid/readers/_fortfile_wrapper.py |   5 +-
 viscid/readers/_jrrle.f90           | 117 +++++++++++++++++-----------
 viscid/readers/ggcm_jrrle.py        |   9 ++-
 3 files changed, 84 insertions(+), 47 deletions(-)

diff --git a/viscid/readers/_fortfile_wrapper.py b/viscid/readers/_fortfile_wrapper.py
index 3ede731..69ec815 100644
--- a/viscid/readers/_fortfile_wrapper.py
+++ b/viscid/readers/_fortfile_wrapper.py
@@ -82,7 +82,10 @@ class FortranFile(object):
         _jrrle.frewind(self._unit, debug=self.debug)
 
     def advance_one_line(self):
-        return _jrrle.fadvance_one_line(self._unit, debug=self.debug)
+        success = _jrrle.fadvance_one_line(self._unit, debug=self.debug)
+        if not success:
+            raise IOError("Can't read from '{0}'".format(self.filename))
+        return success
 
     def backspace(self):
         _jrrle.fbackspace(self._unit, debug=self.debug)
diff --git a/viscid/readers/_jrrle.f90 b/viscid/readers/_jrrle.f90
index ddf0257..279ed1e 100644
--- a/viscid/readers/_jrrle.f90
+++ b/viscid/readers/_jrrle.f90
@@ -16,43 +16,39 @@ subroutine inquire_next(found_field,IU,ndim,nx,ny,nz,it,varname,tstring)
   !f2py intent(out) found_field
   ! found_field is 1 if there is another field, 0 if there are no more fields,
   ! and -1 if the meta-data could not be read
-  integer :: i,ios
+  integer :: ios
+  INTEGER*8 :: pos
 
   nx=-1;ny=-1;nz=-1;
   ndim=0
   found_field=0
 
   do while(.true.)
-     read(IU,'(A)',end=888,err=777) buff
-     if(buff.eq.'FIELD-1D-1')then
+     call tell(IU,pos)
+     call next_record(IU,buff,ios)
+     if(ios.lt.0) goto 888
+     if(ios.gt.0) goto 777
+     if(buff.eq.'FIELD-1D-1') ndim=1
+     if(buff.eq.'FIELD-2D-1') ndim=2
+     if(buff.eq.'FIELD-3D-1') ndim=3
+     if(ndim.gt.0)then
         found_field=1
-        ndim=1
-        read(IU,'(A)',end=777,err=777) varname
-        read(IU,'(A)',end=777,err=777) tstring
-        read(IU,*,end=777,err=777)it,nx
-        exit
-     elseif(buff.eq.'FIELD-2D-1')then
-        found_field=1
-        ndim=2
-        read(IU,'(A)',end=777,err=777) varname
-        read(IU,'(A)',end=777,err=777) tstring
-        read(IU,*,end=777,err=777)it,nx,ny
-        exit
-     elseif(buff.eq.'FIELD-3D-1')then
-        found_field=1
-        ndim=3
-        read(IU,'(A)',end=777,err=777) varname
-        read(IU,'(A)',end=777,err=777) tstring
-        read(IU,*,end=777,err=777)it,nx,ny,nz
+        call next_record(IU,varname,ios)
+        if(ios.ne.0) goto 777
+        call next_record(IU,tstring,ios)
+        if(ios.ne.0) goto 777
+        call next_record(IU,buff,ios)
+        if(ios.ne.0) goto 777
+        if(ndim.eq.1) read(buff,*,iostat=ios)it,nx
+        if(ndim.eq.2) read(buff,*,iostat=ios)it,nx,ny
+        if(ndim.eq.3) read(buff,*,iostat=ios)it,nx,ny,nz
+        if(ios.ne.0) goto 777
         exit
      endif
   enddo
   !Get back to the beginning of this field
-  do i=1,4
-     backspace(IU,iostat=ios)
-     if(ios.ne.0) goto 777
-  enddo
-  goto 888
+  call seek(IU,pos,0,ios)
+  if(ios.eq.0) goto 888
 
 777 continue
   found_field=-1
@@ -63,6 +59,27 @@ subroutine inquire_next(found_field,IU,ndim,nx,ny,nz,it,varname,tstring)
 
 end subroutine inquire_next
 
+!----------------------------------------------------------------
+subroutine next_record(IU,rec,ios)
+  ! read the next whole record; ios is 0 on success, < 0 at the end of the
+  ! file and > 0 if the record could not be read, or not up to its end
+  !----------------------------------------------------------------
+  IMPLICIT NONE
+  integer :: IU,ios
+  !f2py intent(in) IU
+  !f2py intent(out) ios
+  character(Len=80) :: rec
+  !f2py intent(inout) rec
+  INTEGER*8 :: pos0,pos1
+
+  call tell(IU,pos0)
+  read(IU,'(A)',iostat=ios) rec
+  if(ios.ne.0) return
+  ! the runtime can take a failing read for the end of a record
+  call tell(IU,pos1)
+  if(pos0.lt.0 .or. pos1-pos0.le.len_trim(rec)) ios=1
+end subroutine next_record
+
 !----------------------------------------------------------------
 subroutine read_jrrle1d(iu,a1,nx,l1,read_ascii,success)
   !----------------------------------------------------------------
@@ -82,7 +99,7 @@ subroutine read_jrrle1d(iu,a1,nx,l1,read_ascii,success)
 
   !locals
   integer i
-  integer it
+  integer it,ios
   integer m
   real rid
   integer nn
@@ -99,13 +116,18 @@ subroutine read_jrrle1d(iu,a1,nx,l1,read_ascii,success)
   m=LEN(l1)
   call end0(l1,m)
 100 continue
-  read(iu,1000,end=190,err=190) rec
+  call next_record(iu,rec,ios)
+  if(ios.ne.0) goto 190
   if(rec(1:10).eq.'FIELD-1D-1') then
-     read(iu,1000,end=190,err=190) rec
+     call next_record(iu,rec,ios)
+     if(ios.ne.0) goto 190
      if((l1(1:m).ne.rec(1:m))) goto 100
      l1=rec
-     read(iu,1000,end=190,err=190) rec
-     read(iu,*,end=190,err=190)it,nn
+     call next_record(iu,rec,ios)
+     if(ios.ne.0) goto 190
+     call next_record(iu,rec,ios)
+     if(ios.ne.0) goto 190
+     read(rec,*,end=190,err=190)it,nn
      if(nn.ne.nx) goto 190
      nn = nx
      call rdn2(iu,a1,nn,rec,it,rid)
@@ -131,7 +153,6 @@ subroutine read_jrrle1d(iu,a1,nx,l1,read_ascii,success)
   goto 100
 190 continue
 
-1000 format(A)
   return
 end subroutine read_jrrle1d
 
@@ -154,7 +175,7 @@ subroutine read_jrrle2d(iu,a1,nx,l1,read_ascii,success)
 
   !locals
   integer i
-  integer it
+  integer it,ios
   integer m
   real rid
   integer nn,nx1,ny1
@@ -171,13 +192,18 @@ subroutine read_jrrle2d(iu,a1,nx,l1,read_ascii,success)
   m=LEN(l1)
   call end0(l1,m)
 100 continue
-  read(iu,1000,end=190,err=190) rec
+  call next_record(iu,rec,ios)
+  if(ios.ne.0) goto 190
   if(rec(1:10).eq.'FIELD-2D-1') then
-     read(iu,1000,end=190,err=190) rec
+     call next_record(iu,rec,ios)
+     if(ios.ne.0) goto 190
      if((l1(1:m).ne.rec(1:m))) goto 100
      l1=rec
-     read(iu,1000,end=190,err=190) rec
-     read(iu,*,end=190,err=190)it,nx1,ny1
+     call next_record(iu,rec,ios)
+     if(ios.ne.0) goto 190
+     call next_record(iu,rec,ios)
+     if(ios.ne.0) goto 190
+     read(rec,*,end=190,err=190)it,nx1,ny1
      if(nx1*ny1.ne.nx) goto 190
      nn = nx
      call rdn2(iu,a1,nn,rec,it,rid)
@@ -204,7 +230,6 @@ subroutine read_jrrle2d(iu,a1,nx,l1,read_ascii,success)
 
 190 continue
 
-1000 format(A)
   return
 end subroutine read_jrrle2d
 
@@ -227,7 +252,7 @@ subroutine read_jrrle3d(iu,a1,nx,l1,read_ascii,success)
 
   !locals
   integer i
-  integer it
+  integer it,ios
   integer m
   real rid
   integer nn,nx1,ny1,nz1
@@ -244,13 +269,18 @@ subroutine read_jrrle3d(iu,a1,nx,l1,read_ascii,success)
   m=LEN(l1)
   call end0(l1,m)
 100 continue
-  read(iu,1000,end=190,err=190) rec
+  call next_record(iu,rec,ios)
+  if(ios.ne.0) goto 190
   if(rec(1:10).eq.'FIELD-3D-1') then
-     read(iu,1000,end=190,err=190) rec
+     call next_record(iu,rec,ios)
+     if(ios.ne.0) goto 190
      if((l1(1:m).ne.rec(1:m))) goto 100
      l1=rec
-     read(iu,1000,end=190,err=190) rec
-     read(iu,*,end=190,err=190)it,nx1,ny1,nz1
+     call next_record(iu,rec,ios)
+     if(ios.ne.0) goto 190
+     call next_record(iu,rec,ios)
+     if(ios.ne.0) goto 190
+     read(rec,*,end=190,err=190)it,nx1,ny1,nz1
      if(nx1*ny1*nz1.ne.nx) goto 190
      nn = nx
      call rdn2(iu,a1,nn,rec,it,rid)
@@ -276,7 +306,6 @@ subroutine read_jrrle3d(iu,a1,nx,l1,read_ascii,success)
   goto 100
 190 continue
 
-1000 format(A)
   return
 end subroutine read_jrrle3d
 
diff --git a/viscid/readers/ggcm_jrrle.py b/viscid/readers/ggcm_jrrle.py
index 9568728..17a33f6 100644
--- a/viscid/readers/ggcm_jrrle.py
+++ b/viscid/readers/ggcm_jrrle.py
@@ -66,7 +66,8 @@ class JrrleFileWrapper(FortranFile):
             # last_seen, meta = self.inquire_next()
             # if meta is not None:
             #     print(last_seen, "lives at", meta["file_position"])
-            self.advance_one_line()
+            if not self.seen_all_fields:
+                self.advance_one_line()
 
     def inquire(self, fld_name):
         try:
@@ -85,7 +86,8 @@ class JrrleFileWrapper(FortranFile):
                 found_fld_name, meta = self.inquire_next()
                 if found_fld_name == fld_name:
                     return meta
-                self.advance_one_line()
+                if not self.seen_all_fields:
+                    self.advance_one_line()
 
             raise KeyError("file '{0}' has no field '{1}'"
                            "".format(self.filename, fld_name))
@@ -121,6 +123,9 @@ class JrrleFileWrapper(FortranFile):
 
         if varname in self.fields_seen:
             meta = self.fields_seen[varname]
+            if meta['file_position'] != self.tell():
+                raise IOError("Can't find the position of field '{0}' in file "
+                              "'{1}'".format(varname, self.filename))
         else:
             dims = tuple(x for x in (nx, ny, nz) if x > 0)
 
-- 
2.43.0


From 2acb3aafacb94fc387ad15b3b31621e0df4ec2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 08/65] fix: don't let a reload of a file find the children of
 its earlier load

---
 viscid/readers/vfile.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/viscid/readers/vfile.py b/viscid/readers/vfile.py
index f02e391..686809a 100644
--- a/viscid/readers/vfile.py
+++ b/viscid/readers/vfile.py
@@ -121,8 +121,8 @@ class VFile(Dataset):
         self.parent_bucket = parent_bucket
 
         self._load_arg = list(fname) if isinstance(fname, (list, tuple)) else fname
-        self._pristine = dict(self.__dict__)
-        self._pristine['_info'] = dict(self._info)
+        # lists and dicts are filled while loading, so remember copies
+        self._pristine = self._copy_state(self.__dict__)
         self.load(fname)
 
     def load(self, fname):
@@ -139,10 +139,14 @@ class VFile(Dataset):
         self._clear_cache()
         self.remove_all_items()
 
+    @staticmethod
+    def _copy_state(state):
+        return dict((name, copy(val) if isinstance(val, (list, dict)) else val)
+                    for name, val in state.items())
+
     def _reset(self):
         """Go back to the state before the file was loaded"""
-        state = dict(self._pristine)
-        state['_info'] = dict(self._pristine['_info'])
+        state = self._copy_state(self._pristine)
         for name in ('parents', 'handle_name', '_pristine', 'children',
                      'active_child'):
             state[name] = getattr(self, name)
-- 
2.43.0


From 61788258ff4116c44859cb77494cbb2ace316a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:14 +0000
Subject: [PATCH 09/65] fix: let streamlines be calculated again after a
 calculation failed

---
 viscid/cython/streamline.pyx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/viscid/cython/streamline.pyx b/viscid/cython/streamline.pyx
index e3fb67a..014f26e 100644
--- a/viscid/cython/streamline.pyx
+++ b/viscid/cython/streamline.pyx
@@ -264,10 +264,12 @@ def calc_streamlines(vfield, seed, nr_procs=1, force_subprocess=False,
         raise RuntimeError("Another process is doing streamlines in this "
                            "global memory space")
     _global_fld = fld
-    grid_iter = izip(chunk_sizes, repeat(seed), seed_slices)
-    r = parallel.map(nr_procs, _do_streamline_star, grid_iter, args_kw=kwargs,
-                     threads=threads, force_subprocess=force_subprocess)
-    _global_fld = None
+    try:
+        grid_iter = izip(chunk_sizes, repeat(seed), seed_slices)
+        r = parallel.map(nr_procs, _do_streamline_star, grid_iter, args_kw=kwargs,
+                         threads=threads, force_subprocess=force_subprocess)
+    finally:
+        _global_fld = None
 
     # rearrange the output to be the exact same as if we just called
     # _py_streamline straight up (like for nr_procs == 1)
-- 
2.43.0


From a011de4bfcffa3faf516d15a00f73c79df52237b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:14 +0000
Subject: [PATCH 10/65] fix: honour the size argument of the chunk functions

---
 viscid/parallel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/viscid/parallel.py b/viscid/parallel.py
index 0d146cd..0474c85 100644
--- a/viscid/parallel.py
+++ b/viscid/parallel.py
@@ -80,7 +80,7 @@ def chunk_list(seq, nchunks, size=None):
     nel = len(seq)
 
     if size is not None:
-        nchunks = int(ceil(nel / nchunks))
+        nchunks = int(ceil(nel / size))
 
     ret = chunk_slices(nel, nchunks)
     for i in range(nchunks):
@@ -111,7 +111,7 @@ def chunk_slices(nel, nchunks, size=None):
         True
     """
     if size is not None:
-        nchunks = int(ceil(nel / nchunks))
+        nchunks = int(ceil(nel / size))
 
     nlong = nel % nchunks  # nshort guarenteed < nchunks
     lenshort = nel // nchunks
@@ -169,7 +169,7 @@ def chunk_sizes(nel, nchunks, size=None):
         True
     """
     if size is not None:
-        nchunks = int(ceil(nel / nchunks))
+        nchunks = int(ceil(nel / size))
 
     nlong = nel % nchunks  # nshort guarenteed < nchunks
     lenshort = nel // nchunks
-- 
2.43.0


From da67c04e027b1eb11bf3ebb016e1ede5f54d0270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:38 +0000
Subject: [PATCH 11/65] fix: leave a caller's pool usable and no workers of our
 own behind in parallel.map

---
 viscid/parallel.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/viscid/parallel.py b/viscid/parallel.py
index 0474c85..f9edcb6 100644
--- a/viscid/parallel.py
+++ b/viscid/parallel.py
@@ -220,10 +220,19 @@ def map(nr_procs, func, args_iter, args_kw=None, timeout=1e8,
     else:
         p, r = map_async(nr_procs, func, args_iter, args_kw=args_kw,
                          daemonic=daemonic, threads=threads, pool=pool)
-        ret = r.get(int(timeout))
-        # in principle this join should return almost immediately since
-        # we already called r.get
-        p.join()
+        try:
+            ret = r.get(timeout)
+        except BaseException:
+            # don't leave workers of our own behind
+            if pool is None:
+                p.terminate()
+            raise
+        finally:
+            # in principle this join should return almost immediately since
+            # we already called r.get, but a pool that was given is not ours
+            # to close
+            if pool is None:
+                p.join()
 
     return ret
 
-- 
2.43.0


From 6c654317237a2db471f121b569c6db533bf3bff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 12/65] fix: make non-daemonic pools work with current Pythons

---
 viscid/parallel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/viscid/parallel.py b/viscid/parallel.py
index f9edcb6..a63acae 100644
--- a/viscid/parallel.py
+++ b/viscid/parallel.py
@@ -34,7 +34,10 @@ class NoDaemonPool(multiprocessing.pool.Pool):  # pylint: disable=W0223
     """ I am vulnerable to armies of undead worker processes, chances
     are you don't actually want to use me
     """
-    Process = NoDaemonProcess
+    @staticmethod
+    def Process(*args, **kwargs):  # pylint: disable=unused-argument
+        # newer versions of Python give a context as first argument
+        return NoDaemonProcess(**kwargs)
 
 
 class _MapThread(threading.Thread):
-- 
2.43.0


From f79913ae242abe2eed408dd46dd8136f529c74a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:00 +0000
Subject: [PATCH 13/65] fix: read vector fields with flat layout back from npz
 files

---
 viscid/readers/numpy_binary.py | 2 +-
 viscid/readers/vfile.py        | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/viscid/readers/numpy_binary.py b/viscid/readers/numpy_binary.py
index 15be125..1c685c8 100644
--- a/viscid/readers/numpy_binary.py
+++ b/viscid/readers/numpy_binary.py
@@ -68,7 +68,7 @@ class NPZDataWrapper(vfile.DataWrapper):
         raise NotImplementedError()
 
     def len(self):
-        return self.wrap_func("len")
+        return self.shape[0]
 
     def __getitem__(self, item):
         return self.wrap_func("__getitem__", item)
diff --git a/viscid/readers/vfile.py b/viscid/readers/vfile.py
index 686809a..da66280 100644
--- a/viscid/readers/vfile.py
+++ b/viscid/readers/vfile.py
@@ -57,6 +57,9 @@ class DataWrapper(object):
     def len(self):
         raise NotImplementedError()
 
+    def __len__(self):
+        return self.shape[0]
+
     def __getitem__(self, item):
         raise NotImplementedError()
 
-- 
2.43.0


From cf92482b2d43fc653db807677f8c46e0b4fd1251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 14/65] fix: don't keep half filled coordinates after a failed
 read

---
 viscid/coordinate.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 718297f..b9b5b93 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -378,7 +378,12 @@ class StructuredCrds(Coordinates):
     def _crds(self):
         "!!! BIG NOTE: THIS PROPERTY IS STILL PRIVATE !!!"
         if self._Pcrds is None:
-            self._fill_crds_dict()
+            try:
+                self._fill_crds_dict()
+            except BaseException:
+                # don't keep a half filled dict, crds may be read from disk
+                self._Pcrds = None
+                raise
         return self._Pcrds
 
     def clear_crds(self):
-- 
2.43.0


From 70e506abcbae7906c9bb87ec6263131ed46c7802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 15/65] fix: let a jrrle field be found again once an
 incomplete file is complete

---
 viscid/readers/ggcm_jrrle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viscid/readers/ggcm_jrrle.py b/viscid/readers/ggcm_jrrle.py
index 17a33f6..4c55c16 100644
--- a/viscid/readers/ggcm_jrrle.py
+++ b/viscid/readers/ggcm_jrrle.py
@@ -89,6 +89,9 @@ class JrrleFileWrapper(FortranFile):
                 if not self.seen_all_fields:
                     self.advance_one_line()
 
+            # don't take this for granted, the file could be incomplete now
+            self.seen_all_fields = False
+            self.fields_seen = OrderedDict()
             raise KeyError("file '{0}' has no field '{1}'"
                            "".format(self.filename, fld_name))
 
-- 
2.43.0


From 374522cd76852b2be7d05adba7121e10d30ebb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 16/65] fix: replace saved files as a whole so a failed save
 leaves no half of one

---
 viscid/readers/hdf5.py         | 10 ++++++---
 viscid/readers/numpy_binary.py |  7 +++---
 viscid/readers/vfile.py        | 39 ++++++++++++++++++++++++++++++++++
 3 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/viscid/readers/hdf5.py b/viscid/readers/hdf5.py
index 3e72c2d..0a0d566 100755
--- a/viscid/readers/hdf5.py
+++ b/viscid/readers/hdf5.py
@@ -1,4 +1,5 @@
 from __future__ import print_function
+from io import BytesIO
 import os
 
 import numpy as np
@@ -255,8 +256,10 @@ class FileHDF5(vfile.VFile):
         crd_shape = [len(arr) for arr in crd_arrs]
         time = fld0.time
 
-        # write arrays to the hdf5 file
-        with h5py.File(fname, 'w') as f:
+        # write arrays to the hdf5 file, in memory since a write that fails
+        # inside of hdf5 can take python down with it
+        h5image = BytesIO()
+        with h5py.File(h5image, 'w') as f:
             for axis_name, arr in zip(crd_names, crd_arrs):
                 loc = cls._CRDS_GROUP + '/' + axis_name
                 if do_compression:
@@ -293,7 +296,8 @@ class FileHDF5(vfile.VFile):
         # now write an xdmf file
         xdmf_fname = os.path.splitext(fname)[0] + ".xdmf"
         relh5fname = "./" + os.path.basename(fname)
-        with open(xdmf_fname, 'w') as f:
+        with vfile.open_replacements((fname, 'wb'), (xdmf_fname, 'w')) as (h5f, f):
+            h5f.write(h5image.getvalue())
             xloc = cls._CRDS_GROUP + '/' + crd_names[0]
             yloc = cls._CRDS_GROUP + '/' + crd_names[1]
             zloc = cls._CRDS_GROUP + '/' + crd_names[2]
diff --git a/viscid/readers/numpy_binary.py b/viscid/readers/numpy_binary.py
index 1c685c8..3955846 100644
--- a/viscid/readers/numpy_binary.py
+++ b/viscid/readers/numpy_binary.py
@@ -190,9 +190,10 @@ class FileNumpyNPZ(vfile.VFile):
         for center, names_lst in fld_names.items():
             fld_dict[cls._KEY_FLDS[center.lower()]] = np.array(names_lst)
 
-        if fname.endswith(".npz"):
-            fname = fname[:-4]
-        np.savez(fname, **fld_dict)
+        if not fname.endswith(".npz"):
+            fname += ".npz"
+        with vfile.open_replacements((fname, 'wb')) as (f,):
+            np.savez(f, **fld_dict)
 
 ##
 ## EOF
diff --git a/viscid/readers/vfile.py b/viscid/readers/vfile.py
index da66280..789fd5e 100644
--- a/viscid/readers/vfile.py
+++ b/viscid/readers/vfile.py
@@ -6,6 +6,7 @@
 
 from __future__ import print_function
 # import sys
+from contextlib import contextmanager
 from copy import copy
 from operator import attrgetter
 import os
@@ -30,6 +31,44 @@ def serialize_subclasses(root, _lst=None):
     return _lst
 
 
+@contextmanager
+def open_replacements(*targets):
+    """Write new versions of files, all of them or none
+
+    Targets are tuples of file name and mode, this yields a list of
+    files to write to. What lies at the given names is only replaced
+    once everything was written. If one of the files refers to the
+    others, name it last; even if the process dies in here, it never
+    lies next to another version of the files it refers to.
+    """
+    fnames = [os.path.realpath(fname) for fname, _ in targets]
+    tmp_fnames = ["{0}.{1}.tmp".format(fname, os.getpid()) for fname in fnames]
+    replace = getattr(os, "replace", os.rename)
+    files = []
+    try:
+        for fname, tmp_fname, (_, mode) in zip(fnames, tmp_fnames, targets):
+            if os.path.exists(fname):
+                open(fname, 'r+b').close()  # it has to be writeable
+            files.append(open(tmp_fname, mode))
+        yield files
+        for f in files:
+            f.flush()
+            os.fsync(f.fileno())
+            f.close()
+        if len(fnames) > 1 and os.path.exists(fnames[-1]):
+            os.remove(fnames[-1])
+        for fname, tmp_fname in zip(fnames, tmp_fnames):
+            replace(tmp_fname, fname)
+    finally:
+        for f, tmp_fname in zip(files, tmp_fnames):
+            try:
+                f.close()
+            except (IOError, OSError):
+                pass
+            if os.path.exists(tmp_fname):
+                os.remove(tmp_fname)
+
+
 class DataWrapper(object):
     _hypersliceable = False  # can read slices from disk
 
-- 
2.43.0


From f62afc751e8045103a31812e3284eb49fc1d5bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 17/65] fix: don't empty a file that is still used when another
 file it is part of goes

---
 viscid/readers/vfile.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/viscid/readers/vfile.py b/viscid/readers/vfile.py
index 789fd5e..29bc895 100644
--- a/viscid/readers/vfile.py
+++ b/viscid/readers/vfile.py
@@ -179,7 +179,13 @@ class VFile(Dataset):
     def _release(self):
         """Let go of everything that was read from the file"""
         self._clear_cache()
-        self.remove_all_items()
+        super(VFile, self).remove_all_items()
+
+    def remove_all_items(self):
+        # a dataset that this file is part of may be emptied while something
+        # else still uses this file, then it has to stay as it is
+        if self.parent_bucket is None or not self.parent_bucket.contains_item(self):
+            super(VFile, self).remove_all_items()
 
     @staticmethod
     def _copy_state(state):
-- 
2.43.0


From fa82d2ff1332ceb8fb21fbf4555042207f938b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:21 +0000
Subject: [PATCH 18/65] fix: find an open selection of a run's files under
 whatever name it has

---
 viscid/readers/vfile_bucket.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/viscid/readers/vfile_bucket.py b/viscid/readers/vfile_bucket.py
index 4b39481..d68d0e9 100644
--- a/viscid/readers/vfile_bucket.py
+++ b/viscid/readers/vfile_bucket.py
@@ -15,8 +15,12 @@ class VFileBucket(Bucket):
     if you need more than one manager
     """
 
+    # how many names were made from a collective name, see _find_handle_name
+    _nr_names = None
+
     def __init__(self, **kwargs):
         super(VFileBucket, self).__init__(ordered=True, **kwargs)
+        self._nr_names = {}
 
     # This routine is just sort of confusing
     # def add(self, fname, file):
@@ -157,12 +161,19 @@ class VFileBucket(Bucket):
         different files, so only one of them can use the name as is.
         """
         collective_name = ftype.collective_name(group)
-        handle_name = collective_name
-        i = 1
-        while handle_name in self and not self[handle_name].is_made_from(group):
+        unused_names = []
+        i = 0
+        while i < self._nr_names.get(collective_name, 0) or not unused_names:
             i += 1
-            handle_name = "{0}#{1}".format(collective_name, i)
-        return handle_name
+            handle_name = collective_name
+            if i > 1:
+                handle_name = "{0}#{1}".format(collective_name, i)
+            if handle_name not in self:
+                unused_names.append(handle_name)
+            elif self[handle_name].is_made_from(group):
+                return handle_name
+        self._nr_names[collective_name] = i
+        return unused_names[0]
 
     def remove_item(self, item, do_unload=True):
         if do_unload:
-- 
2.43.0


From b38a33e70d8e4a7c6bb1374426fd4c9cf8dd2ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 19/65] fix: don't unload the files of a time series when
 listing its times

---
 viscid/dataset.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/viscid/dataset.py b/viscid/dataset.py
index cd5432f..96862a3 100644
--- a/viscid/dataset.py
+++ b/viscid/dataset.py
@@ -573,12 +573,14 @@ class DatasetTemporal(Dataset):
             # here, the context manager will unload the file when done, but
             # that's not what we wanted here, we wanted to just clear caches
             if resolved:
-                what = child[1].resolve().get_grid()
+                with child[1].resolve().get_grid() as target:
+                    yield target
             else:
-                what = child[1]
-
-            with what as target:
-                yield target
+                # this may be a file, or one that still has to be resolved
+                try:
+                    yield child[1]
+                finally:
+                    child[1].clear_cache()
 
     def get_times(self, sel=slice(None), val_endpoint=True, interior=False,
                   tdunit='s', tol=100):
-- 
2.43.0


From 5f520bdd9787db717b297f79e3dd3ab5c8f898c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 20/65] fix: don't scramble field data that has another shape
 than its coordinates

---
 viscid/field.py              | 12 ++++++++----
 viscid/readers/athena_bin.py | 11 ++++++++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 79b3089..6175a8e 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1001,11 +1001,15 @@ class Field(tree.Leaf):
         self.shape better still be using the crds shape corrected for
         node / cell centering
         """
-        if list(arr.shape) == self.shape:
+        if list(arr.shape) == list(self.shape):
             return arr
-        else:
-            ret = arr.reshape(self.shape)
-            return ret
+        # flat data and missing dimensions of length 1 are fine, anything else
+        # would scramble data that doesn't belong to these coordinates
+        dims = [n for n in arr.shape if n != 1]
+        if len(dims) > 1 and dims != [n for n in self.shape if n != 1]:
+            raise ValueError("Data of field '{0}' has shape {1} instead of {2}"
+                             "".format(self.name, arr.shape, tuple(self.shape)))
+        return arr.reshape(self.shape)
 
     def _detect_layout(self, dat, native=True):
         """ returns LAYOUT_XXX, this just looks at len(dat) or dat.shape
diff --git a/viscid/readers/athena_bin.py b/viscid/readers/athena_bin.py
index 138e08c..36b73ab 100644
--- a/viscid/readers/athena_bin.py
+++ b/viscid/readers/athena_bin.py
@@ -254,8 +254,8 @@ class AthenaBinFileWrapper(object):
         if self._file is None:
             self._file = open(self.filename, 'rb')
             try:
-                if self._endian is None:
-                    self._read_file_header()
+                # every time, since it says where to find the data
+                self._read_file_header()
             except Exception:
                 # nothing from a broken header can be used
                 self._endian = None
@@ -388,7 +388,12 @@ class AthenaBinDataWrapper(vfile.DataWrapper):
 
     def __array__(self, *args, **kwargs):
         with self.file_wrapper as f:
-            arr = f.read_field(self.fld_number).reshape(self.expected_shape)
+            arr = f.read_field(self.fld_number)
+            if f.shape != tuple(self.expected_shape):
+                raise IOError("Field '{0}' in file '{1}' has shape {2} instead "
+                              "of {3}".format(self.fld_name, self.filename,
+                                              f.shape, self.expected_shape))
+            arr = arr.reshape(self.expected_shape)
         return arr.astype(self.dtype)
 
     def read_direct(self, *args, **kwargs):
-- 
2.43.0


From 8c4628ebda0baa365cbfda795558e7c3936ba120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 21/65] fix: notice when a jrrle field isn't what it was when
 it was found

---
 viscid/readers/ggcm_jrrle.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/viscid/readers/ggcm_jrrle.py b/viscid/readers/ggcm_jrrle.py
index 4c55c16..38e4b26 100644
--- a/viscid/readers/ggcm_jrrle.py
+++ b/viscid/readers/ggcm_jrrle.py
@@ -71,8 +71,11 @@ class JrrleFileWrapper(FortranFile):
 
     def inquire(self, fld_name):
         try:
-            meta = self.fields_seen[fld_name]
-            self.seek(meta['file_position'])
+            self.seek(self.fields_seen[fld_name]['file_position'])
+            found_fld_name, meta = self.inquire_next()
+            if found_fld_name != fld_name:
+                raise IOError("Field '{0}' is no longer where it was in file "
+                              "'{1}'".format(fld_name, self.filename))
             return meta
         except KeyError:
             try:
@@ -124,14 +127,14 @@ class JrrleFileWrapper(FortranFile):
             self.seen_all_fields = True
             return None, None
 
+        dims = tuple(x for x in (nx, ny, nz) if x > 0)
+
         if varname in self.fields_seen:
             meta = self.fields_seen[varname]
-            if meta['file_position'] != self.tell():
-                raise IOError("Can't find the position of field '{0}' in file "
+            if meta['file_position'] != self.tell() or meta['dims'] != dims:
+                raise IOError("Field '{0}' is no longer what it was in file "
                               "'{1}'".format(varname, self.filename))
         else:
-            dims = tuple(x for x in (nx, ny, nz) if x > 0)
-
             meta = dict(timestr=tstring,
                         inttime=it,
                         ndim=ndim,
-- 
2.43.0


From 5d8286295a9a684022435a84501833882a85c53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 22/65] fix: give a cell centered slice with a negative start
 its coordinates

The coordinates of field[-3:] were those of one cell less than selected, so
reading the data of the slice failed or its coordinates were wrong.
---
 viscid/coordinate.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index b9b5b93..e4cae6d 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -699,6 +699,13 @@ class StructuredCrds(Coordinates):
 
                     sliced_clist_item = [axis, crd_nc, crd_cc]
 
+                elif (cc and slc.start is not None and slc.start < 0 and
+                      (slc.step is None or slc.step > 0)):
+                    # negative indices count from the last cell, and there
+                    # is one more node than there are cells
+                    start, stop, _ = slc.indices(len(crd_arrs_cc[i]))
+                    slc = slice(start, stop + 1, slc.step)
+
                 elif cc and slc.stop is not None:
                     if slc.stop >= 0:
                         if slc.step is None or slc.step > 0:
-- 
2.43.0


From 510a0a97fcd54c55734a55d1f44842f41d5fa4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:50 +0000
Subject: [PATCH 23/65] fix: don't scramble vector fields that are read with
 another layout than their file's

With force_vector_layout, fields from zyx ordered files had their component
axis transposed as a spatial one, and slices of a lazy field sliced the wrong
axes.
---
 viscid/field.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/viscid/field.py b/viscid/field.py
index 6175a8e..85d6180 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -872,7 +872,12 @@ class Field(tree.Leaf):
                     # spatial_transpose = list(range(len(self.shape)))
                     spatial_transpose = list(range(len(self._src_data.shape)))
                     if self.nr_comps > 0:
-                        nr_comp = self.nr_comp
+                        # where the components are in the source, which may
+                        # not be where self.layout wants them
+                        if self._detect_layout(self._src_data) == LAYOUT_FLAT:
+                            nr_comp = 0
+                        else:
+                            nr_comp = len(spatial_transpose) - 1
                         spatial_transpose.remove(nr_comp)
                         spatial_transpose = spatial_transpose[::-1]
                         spatial_transpose.insert(nr_comp, nr_comp)
@@ -1136,6 +1141,9 @@ class Field(tree.Leaf):
         slced_dat = None
 
         hypersliceable = getattr(self._src_data, "_hypersliceable", False)
+        if hypersliceable and self.nr_comps:
+            # the source can't be sliced if self.layout will move components
+            hypersliceable = self.layout == self._detect_layout(self._src_data)
         single_comp_slc = hasattr(comp_slc, "__index__")
         cc = (self.iscentered("Cell") or self.iscentered("Face") or
               self.iscentered("Edge"))
-- 
2.43.0


From daedf285ddfc4b6374575d90f5b7989a6ccc7fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:44 +0000
Subject: [PATCH 24/65] fix: make slices of fields that aren't in memory those
 of fields that are

Negative indices on reflected axes and slices past the end raised when they
were read from a file and not when the data was loaded; iloc and loc put
spatial selections of vector fields on the wrong axes.
---
 viscid/coordinate.py | 14 +++++++-------
 viscid/field.py      |  3 ---
 viscid/sliceutil.py  | 11 +++++++++--
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index e4cae6d..ea75853 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -685,6 +685,13 @@ class StructuredCrds(Coordinates):
 
                 sliced_clist_item = None
 
+                if (cc and slc.start is not None and slc.start < 0 and
+                    (slc.step is None or slc.step > 0)):
+                    # negative indices count from the last cell, and there
+                    # is one more node than there are cells
+                    start = max(slc.start + len(crd_arrs_cc[i]), 0)
+                    slc = slice(start, slc.stop, slc.step)
+
                 # if using step on a cell centered field, we need to figure
                 # stuff out, since the data && crd slices can't be the same,
                 # and it's not as simple as just adding 1 b/c of the stride
@@ -699,13 +706,6 @@ class StructuredCrds(Coordinates):
 
                     sliced_clist_item = [axis, crd_nc, crd_cc]
 
-                elif (cc and slc.start is not None and slc.start < 0 and
-                      (slc.step is None or slc.step > 0)):
-                    # negative indices count from the last cell, and there
-                    # is one more node than there are cells
-                    start, stop, _ = slc.indices(len(crd_arrs_cc[i]))
-                    slc = slice(start, stop + 1, slc.step)
-
                 elif cc and slc.stop is not None:
                     if slc.stop >= 0:
                         if slc.step is None or slc.step > 0:
diff --git a/viscid/field.py b/viscid/field.py
index 85d6180..7d908d7 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -456,9 +456,6 @@ class _FldSlcProxy(object):
             else:
                 sel.append(self._floatify(it))
 
-        if self.parent.nr_comps and len(sel) >= self.parent.nr_comp:
-            sel.insert(self.parent.nr_comp, slice(None))
-
         return tuple(sel)
 
     def __getitem__(self, item):
diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index 806637a..7b5be51 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -848,8 +848,8 @@ def make_fwd_slice(shape, slices, reverse=None, cull_second=True):
     is coming through sshfs.
 
     Note:
-        The only restriction on slices is that neither start nor stop
-        can be outide the range [-L, L].
+        The only restriction on slices with a negative step is that
+        neither start nor stop can be outide the range [-L, L].
 
     Args:
         shape: shape of the array that is to be sliced
@@ -920,6 +920,11 @@ def make_fwd_slice(shape, slices, reverse=None, cull_second=True):
             if stop < 0:
                 stop += L
 
+            if step > 0:
+                # like numpy, cut selections off at the ends
+                start = min(max(start, 0), L)
+                stop = min(max(stop, 0), L)
+
             # sanity check the start/stop since we're gunna be playing
             # fast and loose with them
             if start < 0 or stop < 0:
@@ -973,6 +978,8 @@ def make_fwd_slice(shape, slices, reverse=None, cull_second=True):
         elif isinstance(slc, (int, np.integer)):
             second_slc[i] = None
             if rev:
+                if slc < 0:
+                    slc += L
                 slc = (L - 1) - slc
 
         elif slc == np.newaxis:
-- 
2.43.0


From b713f3200089343cd8e8a7c81666dadab97d8341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:44 +0000
Subject: [PATCH 25/65] fix: keep data and coordinates of reflected fields
 together

Changing the centering, coordinates or number of dimensions of a field that
is reflected on read gave unreflected data with reflected coordinates if the
data wasn't in memory, and put it into the original field, too. Renaming axes
with adjust_crds renamed those of the original.
---
 viscid/field.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index 7d908d7..587130c 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1596,6 +1596,21 @@ class Field(tree.Leaf):
             raise NotImplementedError("can only give field as cell or node")
         return fld
 
+    def _keep_reflections(self, new_crds):
+        """Make crds, given in the reflected frame, go with our source data
+
+        Data of a field is reflected when it's read, so crds that replace
+        ours have to ask for the same reflections.
+        """
+        reflect_axes = self._src_crds.reflect_axes
+        if reflect_axes:
+            # reflecting reflected crds gives the crds of the source
+            crds = type(new_crds)(new_crds.get_clist(),
+                                  reflect_axes=reflect_axes)
+            new_crds = type(new_crds)(crds.get_clist(),
+                                      reflect_axes=reflect_axes)
+        return new_crds
+
     def as_cell_centered(self, default_width=1e-5):
         """Convert field to cell centered field without discarding
         any data; this goes through hacky pains to make sure the data
@@ -1606,6 +1621,7 @@ class Field(tree.Leaf):
         elif self.iscentered('node'):
             # construct new crds
             new_crds = self._src_crds.nc2cc(default_width=default_width)
+            new_crds = self._keep_reflections(new_crds)
 
             # this is similar to a shell copy, but it's intimately
             # linked to self as a parent
@@ -1652,6 +1668,7 @@ class Field(tree.Leaf):
             # crds_cc = self.get_crds_cc()
             new_clist = self._src_crds.get_clist(center="cell")
             new_crds = type(self._src_crds)(new_clist)
+            new_crds = self._keep_reflections(new_crds)
 
             # this is similar to a shell copy, but it's intimately
             # linked to self as a parent
@@ -1708,7 +1725,12 @@ class Field(tree.Leaf):
             newcrds = self.crds.atleast_3d(xl, xh, cc=_cc)
             ctx = {'crds': newcrds}
 
-            if self.is_loaded:
+            # source data goes with newcrds only if it needn't be transformed
+            src_is_xyz = (not self.meta.get("zyx_native", False) and
+                          not self._src_crds.reflect_axes and
+                          self.post_reshape_transform_func is None)
+
+            if self.is_loaded or not src_is_xyz:
                 if _cc:
                     new_shape = newcrds.shape_cc
                 else:
@@ -1768,7 +1790,7 @@ class Field(tree.Leaf):
             for ax in self.crds.axes:
                 adjustments[ax] = adj
 
-        axes = self.crds.axes
+        axes = list(self.crds.axes)
         crd_arrs_nc = self.get_crds_nc()
         # crd_arrs_cc = self.get_crds_cc()
 
@@ -1791,6 +1813,7 @@ class Field(tree.Leaf):
         crd_type = crd_type.replace('nonuniform', 'AUTO')
         crd_type = crd_type.replace('uniform', 'AUTO')
         new_crds = viscid.arrays2crds(crd_arrs_nc, crd_type=crd_type, crd_names=axes)
+        new_crds = self._keep_reflections(new_crds)
         ret = self.shell_copy(crds=new_crds)
 
         return ret
-- 
2.43.0


From 7dec18a1e197eaef3014a1949f2146a4f6cc9c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:31 +0000
Subject: [PATCH 26/65] fix: give fields of Gkeyll files the time of their
 snapshot

---
 viscid/readers/gkeyll.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/readers/gkeyll.py b/viscid/readers/gkeyll.py
index b3cb614..1d7890e 100644
--- a/viscid/readers/gkeyll.py
+++ b/viscid/readers/gkeyll.py
@@ -368,7 +368,8 @@ class GkeyllFile(FileHDF5, ContainerFile):  # pylint: disable=abstract-method
             h5_data = H5pyDataWrapper(self.fname, "StructGridField",
                                       comp_dim=-1, comp_idx=i)
             fld = field.wrap_field(h5_data, self._crds, meta['fld_name'],
-                                   center="cell", pretty_name=meta['pretty_name'])
+                                   center="cell", pretty_name=meta['pretty_name'],
+                                   time=time)
             _grid.add_field(fld)
         _grid.set_info('field_type', self.get_info('field_type'))
         return _grid
-- 
2.43.0


From 941006dbd3fa2c9346655e20ce48cc4d28a77544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 27/65] fix: accept slices without a stop in file names, as
 documented

---
 viscid/vutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/vutil.py b/viscid/vutil.py
index da5e442..af75e71 100644
--- a/viscid/vutil.py
+++ b/viscid/vutil.py
@@ -556,7 +556,7 @@ def slice_globbed_filenames(glob_pattern):
     dtime_re = sliceutil.RE_DTIME_SLC_GROUP
     number_re = r"[-+]?[0-9]*\.?[0-9]+[fjFJ]?|[-+]?[0-9+]"
     el_re = r"(?:{0}|{1})".format(dtime_re, number_re)
-    slc_re = r"\[({0})?(:({0}))?(:[-+]?[0-9]*)?\]".format(el_re)
+    slc_re = r"\[({0})?(:({0})?)?(:[-+]?[0-9]*)?\]".format(el_re)
     n_slices = len(re.findall(slc_re, glob_pattern))
 
     if n_slices > 1:
-- 
2.43.0


From ad6e6c2c5e2184b1815ea7dc2d3cbf218c72526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 28/65] fix: use a file once when several of the given names
 match it

---
 viscid/readers/vfile_bucket.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viscid/readers/vfile_bucket.py b/viscid/readers/vfile_bucket.py
index d68d0e9..c98435b 100644
--- a/viscid/readers/vfile_bucket.py
+++ b/viscid/readers/vfile_bucket.py
@@ -84,7 +84,8 @@ class VFileBucket(Bucket):
             # Is it necessary to recall abspath here? We did it before
             # the glob to make sure it didn't start with a '.' since that
             # tells glob not to fill wildcards
-        fnames = globbed_fnames
+        # a file is loaded once, no matter how many of the names match it
+        fnames = list(OrderedDict.fromkeys(globbed_fnames))
 
         # detect file types
         types_detected = OrderedDict()
-- 
2.43.0


From 29d7fea6aece667f90d2ffdefc7bb88dc92bfdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 29/65] fix: warn if one of several files to load does not
 exist

---
 viscid/readers/vfile_bucket.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/readers/vfile_bucket.py b/viscid/readers/vfile_bucket.py
index c98435b..5d58029 100644
--- a/viscid/readers/vfile_bucket.py
+++ b/viscid/readers/vfile_bucket.py
@@ -72,6 +72,8 @@ class VFileBucket(Bucket):
             slglob = slice_globbed_filenames(fname)
             if isinstance(slglob, string_types):
                 slglob = [slglob]
+            if not slglob and len(fnames) > 1:
+                logger.warning("There is no file '{0}'".format(fname))
             globbed_fnames += slglob
             # print(">>", fname)
             # print("==", globbed_fnames)
-- 
2.43.0


From 0d5e6f1b936945b45cb708cd35e82802289fd9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 30/65] fix: let snapshots be selected by time if all times are
 integers

---
 viscid/dataset.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/viscid/dataset.py b/viscid/dataset.py
index 96862a3..48a7582 100644
--- a/viscid/dataset.py
+++ b/viscid/dataset.py
@@ -517,6 +517,13 @@ class DatasetTemporal(Dataset):
     #############################################################################
     ## here begins a slew of functions that make specifying a time / time slice
     ## super general
+    def _child_times(self):
+        times = np.array([child[0] for child in self.children])
+        if issubclass(times.dtype.type, np.integer):
+            # slicing by location is only for axes that aren't integers
+            times = times.astype('f8')
+        return times
+
     def _slice_time(self, sel=slice(None), val_endpoint=True, interior=False,
                     tdunit='s', tol=100):
         """
@@ -528,7 +535,7 @@ class DatasetTemporal(Dataset):
         Returns:
             list of slices (containing integers only) or ints
         """
-        times = np.array([child[0] for child in self.children])
+        times = self._child_times()
 
         try:
             basetime = self.basetime
@@ -602,7 +609,7 @@ class DatasetTemporal(Dataset):
             you will want to use :py:func:`get_times` and pull out the
             first and last values.
         """
-        times = np.array([child[0] for child in self.children])
+        times = self._child_times()
 
         try:
             basetime = self.basetime
-- 
2.43.0


From 477d1ac6f3e49a20b853cbf8e2a0d156dfb2f807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 31/65] fix: don't leave out included snapshots that exist but
 can't be read

---
 viscid/compat/_xdmf_include.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/viscid/compat/_xdmf_include.py b/viscid/compat/_xdmf_include.py
index 2217ce9..563329f 100644
--- a/viscid/compat/_xdmf_include.py
+++ b/viscid/compat/_xdmf_include.py
@@ -4,6 +4,7 @@
 # limited support for XPointers.
 
 import copy
+import errno
 from xml.etree import ElementTree
 try:
     from urlparse import urljoin  # pylint: disable=E0611
@@ -44,8 +45,10 @@ def _xdmf_default_loader(href, parse, encoding=None, parser=None):
             if not encoding:
                 encoding = 'utf-8'
             data = data.decode(encoding)
-    except IOError:
+    except IOError as e:
         # as far as I care, if a file doesn't exist, that's ok
+        if e.errno != errno.ENOENT:
+            raise
         data = None
     return data
 
-- 
2.43.0


From 4c146e7ef1ccc734ddb6777913f3504b8d1907ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 32/65] fix: refuse Athena binary files whose header makes no
 sense

---
 viscid/readers/athena_bin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viscid/readers/athena_bin.py b/viscid/readers/athena_bin.py
index 36b73ab..995d808 100644
--- a/viscid/readers/athena_bin.py
+++ b/viscid/readers/athena_bin.py
@@ -303,6 +303,9 @@ class AthenaBinFileWrapper(object):
 
         nx, ny, nz = dims[:3]
         nvars, nscalars = dims[3:5]  # pylint: disable=unused-variable
+        if min(dims[:3]) < 1 or not 0 <= nscalars <= nvars < 1000:
+            raise IOError("Athena binary file has an invalid header: {0}"
+                          "".format(self.filename))
 
         dtyp_int = np.dtype(self._endian + "i4")  # 32bit int
         self._float_dtype = np.dtype(self._endian + self.float_type_name)
-- 
2.43.0


From 84cf71d4ba1a432bb38bf7e71bce7fff5951be62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 33/65] fix: clear the caches of the patches of an AMR grid

---
 viscid/amr_grid.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/viscid/amr_grid.py b/viscid/amr_grid.py
index d47079c..49db810 100644
--- a/viscid/amr_grid.py
+++ b/viscid/amr_grid.py
@@ -213,6 +213,12 @@ class AMRGrid(Grid):
     def xh_cc(self):
         raise NotImplementedError("You probably want xh_nc for an amr grid")
 
+    def clear_cache(self):
+        """clear the cache of the fields of all patches"""
+        for grid in self._src_grids:
+            grid.clear_cache()
+        super(AMRGrid, self).clear_cache()
+
     # def _make_amr_field(self):
     #     fld = AMRField()
 
-- 
2.43.0


From 0fc654146d1fbe505375c8ebda50f935a94a2c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 34/65] fix: clear the caches of snapshots that were resolved
 on demand

---
 viscid/dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viscid/dataset.py b/viscid/dataset.py
index 48a7582..e078afa 100644
--- a/viscid/dataset.py
+++ b/viscid/dataset.py
@@ -233,6 +233,9 @@ class Dataset(tree.Node):
     def clear_cache(self):
         """Clear all childrens' caches"""
         self._clear_cache()
+        if self.active_child is not None:
+            # what a deferred child was resolved to isn't among our children
+            self.active_child.clear_cache()
 
     def remove_all_items(self):
         for child in self.children:
-- 
2.43.0


From 38b3cead835906b2550a8406968c51ef93b57296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:41 +0000
Subject: [PATCH 35/65] fix: read what can be read if a data file of an xdmf
 file is missing

---
 viscid/readers/ggcm_xdmf.py | 2 +-
 viscid/readers/xdmf.py      | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/viscid/readers/ggcm_xdmf.py b/viscid/readers/ggcm_xdmf.py
index 669da9e..367a4b1 100644
--- a/viscid/readers/ggcm_xdmf.py
+++ b/viscid/readers/ggcm_xdmf.py
@@ -104,7 +104,7 @@ class GGCMFileXDMF(openggcm.GGCMFile, xdmf.FileXDMF):  # pylint: disable=abstrac
             try:
                 timestr = self._child_files[0].find_item('openggcm*/time_str')
                 basetime, _ = self.parse_timestring(timestr.decode())
-            except (KeyError, ValueError):
+            except (IndexError, KeyError, ValueError):
                 # if no basetime found, then use the special no dip tilt time
                 # this is a selfish hack in that old files that I saved
                 # will usually use this as basetime
diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index d8844d7..9d9f18a 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -11,7 +11,7 @@ import numpy as np
 from viscid.compat import element_tree
 from viscid import logger
 from viscid.readers.vfile_bucket import ContainerFile
-from viscid.readers.hdf5 import FileLazyHDF5
+from viscid.readers.hdf5 import FileLazyHDF5, H5pyDataWrapper
 from viscid import amr_grid
 from viscid import coordinate
 
@@ -449,7 +449,11 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
                 fname = os.path.join(self.dirname, fname)
             h5file = self._load_child_file(fname, index_handle=False,
                                            file_type=FileLazyHDF5)
-            arr = h5file.get_data(loc)
+            if h5file is None:
+                # only reading this data can't work without its file
+                arr = H5pyDataWrapper(fname, loc)
+            else:
+                arr = h5file.get_data(loc)
             return arr, attrs
 
         if fmt == "Binary":
-- 
2.43.0


From c7fa0587824090006f4f51b5c380a5d4f1a3a96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:48 +0000
Subject: [PATCH 36/65] fix: take a log file that was cut off for what is
 complete in it

---
 viscid/readers/ggcm_logfile.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/viscid/readers/ggcm_logfile.py b/viscid/readers/ggcm_logfile.py
index 6876e21..b9570a9 100644
--- a/viscid/readers/ggcm_logfile.py
+++ b/viscid/readers/ggcm_logfile.py
@@ -60,6 +60,9 @@ class GGCMLogFile(vfile.VFile):  # pylint: disable=W0223
                 return not s.strip().startswith(('cp=', 'step='))
             lines_iter = itertools.takewhile(is_timestep, f)
             for line in lines_iter:
+                if not line.endswith("\n"):
+                    # the file was cut off here, and so was the value
+                    break
                 line = line.strip()
                 if armed:
                     try:
@@ -86,8 +89,8 @@ class GGCMLogFile(vfile.VFile):  # pylint: disable=W0223
                             # "parameter  | value"
                             # "-----------|------"
                             # ignore them
-                            next(lines_iter)
-                            next(lines_iter)
+                            next(lines_iter, None)
+                            next(lines_iter, None)
                     except AttributeError:
                         # not the start of a new class view, that's ok
                         pass
-- 
2.43.0


From f24ea1acc1dd539384d9acd958caf69ea91f0aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 37/65] fix: let fields of unsigned, boolean and complex type
 that were saved to hdf5 be read

---
 viscid/readers/hdf5.py | 1 +
 viscid/readers/xdmf.py | 9 ++++-----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/viscid/readers/hdf5.py b/viscid/readers/hdf5.py
index 0a0d566..1cb4a63 100755
--- a/viscid/readers/hdf5.py
+++ b/viscid/readers/hdf5.py
@@ -319,6 +319,7 @@ class FileHDF5(vfile.VFile):
             for name, fld in flds.items():
                 fld = fld.as_flat().T
                 dt = fld.dtype.name.rstrip("0123456789").title()
+                dt = {"Uint": "UInt", "Bool": "UChar"}.get(dt, dt)
                 precision = fld.dtype.itemsize
                 fld_dim_str = " ".join([str(l) for l in fld.shape])
                 loc = cls._FLD_GROUPS[fld.center.lower()] + '/' + name
diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index 9d9f18a..4044afe 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -426,14 +426,13 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
         if dimensions:
             dimensions = [int(d) for d in dimensions.split(' ')]
 
-        numbertype = attrs["NumberType"]
-        precision = attrs["Precision"]
-        nptype = np.dtype({'Float': 'f', 'Int': 'i', 'UInt': 'u',
-                           'Char': 'i', 'UChar': 'u'}[numbertype] + str(precision))
-
         fmt = attrs["Format"]
 
         if fmt == "XML":
+            numbertype = attrs["NumberType"]
+            precision = attrs["Precision"]
+            nptype = np.dtype({'Float': 'f', 'Int': 'i', 'UInt': 'u',
+                               'Char': 'i', 'UChar': 'u'}[numbertype] + str(precision))
             arr = np.fromstring(item.text, sep=' ', dtype=nptype)
             if dimensions and not keep_flat:
                 arr = arr.reshape(dimensions)
-- 
2.43.0


From b415112fd809c3e8b547bf1308988c8ebe5c0061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 38/65] fix: escape the names of fields and files in xdmf files

---
 viscid/readers/hdf5.py | 7 ++++---
 viscid/readers/xdmf.py | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/viscid/readers/hdf5.py b/viscid/readers/hdf5.py
index 1cb4a63..47faea9 100755
--- a/viscid/readers/hdf5.py
+++ b/viscid/readers/hdf5.py
@@ -1,6 +1,7 @@
 from __future__ import print_function
 from io import BytesIO
 import os
+from xml.sax.saxutils import escape
 
 import numpy as np
 
@@ -295,7 +296,7 @@ class FileHDF5(vfile.VFile):
 
         # now write an xdmf file
         xdmf_fname = os.path.splitext(fname)[0] + ".xdmf"
-        relh5fname = "./" + os.path.basename(fname)
+        relh5fname = escape("./" + os.path.basename(fname))
         with vfile.open_replacements((fname, 'wb'), (xdmf_fname, 'w')) as (h5f, f):
             h5f.write(h5image.getvalue())
             xloc = cls._CRDS_GROUP + '/' + crd_names[0]
@@ -324,10 +325,10 @@ class FileHDF5(vfile.VFile):
                 fld_dim_str = " ".join([str(l) for l in fld.shape])
                 loc = cls._FLD_GROUPS[fld.center.lower()] + '/' + name
                 s = cls._XDMF_TEMPLATE_ATTRIBUTE.format(
-                    fld_name=name,
+                    fld_name=escape(name, {'"': "&quot;"}),
                     fld_type=fld.fldtype, center=fld.center.title(),
                     dtype=dt, precision=precision, fld_dims=fld_dim_str,
-                    h5fname=relh5fname, fld_loc=loc)
+                    h5fname=relh5fname, fld_loc=escape(loc))
                 f.write(s)
 
             f.write(cls._XDMF_TEMPLATE_GRID_END)
diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index 4044afe..34d3bd5 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -439,7 +439,8 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
             return arr, attrs
 
         if fmt == "HDF":
-            fname, loc = item.text.strip().split(':')
+            # what is read from can have colons in it, too
+            fname, loc = item.text.strip().split(':', 1)
 
             # FIXME: startswith '/' is unix path name specific
             if self.h5_root_dir is not None:
-- 
2.43.0


From 24163bd55eedb551af3289f2fcdc2a656d3b75df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 39/65] fix: let fields without a time that were saved to hdf5
 be read

---
 viscid/readers/hdf5.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/viscid/readers/hdf5.py b/viscid/readers/hdf5.py
index 47faea9..2be506a 100755
--- a/viscid/readers/hdf5.py
+++ b/viscid/readers/hdf5.py
@@ -177,7 +177,8 @@ class FileHDF5(vfile.VFile):
 <Xdmf xmlns:xi='http://www.w3.org/2001/XInclude' Version='2.0'>
 <Domain>
 <Grid GridType="Collection" CollectionType="Spatial">
-  <Time Type="Single" Value="{time}" />
+"""
+    _XDMF_TEMPLATE_TIME = """  <Time Type="Single" Value="{time}" />
 """
     _XDMF_TEMPLATE_RECTILINEAR_GRID_BEGIN = """
   <Grid Name="{grid_name}" GridType="Uniform">
@@ -303,7 +304,9 @@ class FileHDF5(vfile.VFile):
             yloc = cls._CRDS_GROUP + '/' + crd_names[1]
             zloc = cls._CRDS_GROUP + '/' + crd_names[2]
             dim_str = " ".join([str(l) for l in crd_shape][::-1])
-            f.write(cls._XDMF_TEMPLATE_BEGIN.format(time=time))
+            f.write(cls._XDMF_TEMPLATE_BEGIN)
+            if time is not None:
+                f.write(cls._XDMF_TEMPLATE_TIME.format(time=time))
             s = cls._XDMF_TEMPLATE_RECTILINEAR_GRID_BEGIN.format(
                 grid_name="vgrid", crd_dims=dim_str, h5fname=relh5fname,
                 xdim=crd_shape[0], ydim=crd_shape[1], zdim=crd_shape[2],
-- 
2.43.0


From 2a78391975b011ec4d824803c2a5bcd5a958ed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 40/65] fix: don't let fields replace the coordinates in npz
 files

---
 viscid/readers/numpy_binary.py | 5 +++++
 viscid/readers/xdmf.py         | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/viscid/readers/numpy_binary.py b/viscid/readers/numpy_binary.py
index 3955846..4c48128 100644
--- a/viscid/readers/numpy_binary.py
+++ b/viscid/readers/numpy_binary.py
@@ -183,7 +183,12 @@ class FileNumpyNPZ(vfile.VFile):
         for key in cls._KEY_FLDS.keys():
             fld_names[key.lower()] = []
 
+        reserved = axis_names + [cls._KEY_CRDS] + list(cls._KEY_FLDS.values())
         for name, fld in flds.items():
+            if name in reserved:
+                raise ValueError("A field of an npz file can't be called '{0}', "
+                                 "that is what something else in the file is "
+                                 "called".format(name))
             fld_names[fld.center.lower()].append(name)
             fld_dict[name] = fld.data
 
diff --git a/viscid/readers/xdmf.py b/viscid/readers/xdmf.py
index 34d3bd5..42175a7 100755
--- a/viscid/readers/xdmf.py
+++ b/viscid/readers/xdmf.py
@@ -439,7 +439,7 @@ class FileXDMF(ContainerFile):  # pylint: disable=abstract-method
             return arr, attrs
 
         if fmt == "HDF":
-            # what is read from can have colons in it, too
+            # the name of a dataset can have colons in it, too
             fname, loc = item.text.strip().split(':', 1)
 
             # FIXME: startswith '/' is unix path name specific
-- 
2.43.0


From 70c7ec1a1959414535803be7539ed04d687f1d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 41/65] fix: keep times that are given as dates or durations

---
 viscid/tree.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/viscid/tree.py b/viscid/tree.py
index 5ba358b..9ea9dea 100644
--- a/viscid/tree.py
+++ b/viscid/tree.py
@@ -25,8 +25,6 @@ class Node(object):
             info = dict()
         self._info = info
 
-        self.time = time
-
         if parents is None:
             parents = []
         if not isinstance(parents, (list, tuple)):
@@ -35,6 +33,8 @@ class Node(object):
 
         self._info.update(kwargs)
 
+        self.time = time
+
     def prepare_child(self, obj):
         if self not in obj.parents:
             obj.parents.append(self)
@@ -236,7 +236,8 @@ class Node(object):
             val = val.total_seconds()
         elif viscid.is_timedelta_like(val, conservative=True):
             val = viscid.as_timedelta(val).total_seconds()
-        elif val is not None:
+
+        if val is not None:
             self.set_info('time', float(val))
 
     def time_as_timedelta64(self):
-- 
2.43.0


From e089b22d5df1795232bc04e7c8f57703b5d42155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 42/65] fix: find attributes of parents

---
 viscid/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/tree.py b/viscid/tree.py
index 9ea9dea..5085103 100644
--- a/viscid/tree.py
+++ b/viscid/tree.py
@@ -197,7 +197,7 @@ class Node(object):
         """
         def _condition(_node, _):
             return (hasattr(_node, attr_name) and
-                    getattr(parent, attr_name) is not NotImplemented)
+                    getattr(_node, attr_name) is not NotImplemented)
         parent = self._parent_bfs(_condition)
         if parent is not None:
             return getattr(parent, attr_name)
-- 
2.43.0


From a3292cdd31ff7cad9ac5e4ed77d7a6da73a9c5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 43/65] fix: keep the shape of vector fields in step when their
 layout is set

---
 viscid/field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viscid/field.py b/viscid/field.py
index 587130c..c3de4b9 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -615,6 +615,7 @@ class Field(tree.Leaf):
                 self.clear_cache()
         self.deep_meta["force_layout"] = new_layout
         self._layout = None
+        self._nr_comp = None
 
     @property
     def nr_dims(self):
-- 
2.43.0


From 2de7585802d490e33e9145a2dc6400f099f30b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:38 +0000
Subject: [PATCH 44/65] fix: let threads share coordinates that are filled in
 on first use

---
 viscid/coordinate.py | 86 ++++++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 43 deletions(-)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index ea75853..72cf546 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -377,14 +377,12 @@ class StructuredCrds(Coordinates):
     @property
     def _crds(self):
         "!!! BIG NOTE: THIS PROPERTY IS STILL PRIVATE !!!"
-        if self._Pcrds is None:
-            try:
-                self._fill_crds_dict()
-            except BaseException:
-                # don't keep a half filled dict, crds may be read from disk
-                self._Pcrds = None
-                raise
-        return self._Pcrds
+        crds = self._Pcrds
+        if crds is None:
+            # a half filled dict is never seen by others, since crds may be
+            # read from disk and be used by several threads
+            crds = self._Pcrds = self._make_crds_dict()
+        return crds
 
     def clear_crds(self):
         self._src_crds_nc = {}
@@ -463,10 +461,10 @@ class StructuredCrds(Coordinates):
                                                  cull_second=cull_second)
         return first, second
 
-    def _fill_crds_dict(self):
+    def _make_crds_dict(self):
         """ do the math to calc node, cell, face, edge crds from
         the src crds """
-        self._Pcrds = {}
+        crds = {}
 
         # get node centered crds from the src crds
         sfx = self._CENTER["node"]
@@ -490,11 +488,11 @@ class StructuredCrds(Coordinates):
             # ====================================================================
 
             flatarr, openarr = self._ogrid_single(ind, arr)
-            self._Pcrds[axis.lower()] = flatarr
-            self._Pcrds[axis.upper()] = openarr
+            crds[axis.lower()] = flatarr
+            crds[axis.upper()] = openarr
             # now with suffix
-            self._Pcrds[axis.lower() + sfx] = flatarr
-            self._Pcrds[axis.upper() + sfx] = openarr
+            crds[axis.lower() + sfx] = flatarr
+            crds[axis.upper() + sfx] = openarr
 
         # recalculate all cell centers, and refresh face / edges
         sfx = self._CENTER["cell"]
@@ -504,48 +502,49 @@ class StructuredCrds(Coordinates):
                 ccarr = self._src_crds_cc[a]
             else:
                 # doing the cc math this way also works for datetime objects
-                if len(self._Pcrds[a]) == 1:
-                    ccarr = self._Pcrds[a]
+                if len(crds[a]) == 1:
+                    ccarr = crds[a]
                 else:
-                    ccarr = self._Pcrds[a][:-1] + 0.5 * (self._Pcrds[a][1:] -
-                                                         self._Pcrds[a][:-1])
+                    ccarr = crds[a][:-1] + 0.5 * (crds[a][1:] -
+                                                  crds[a][:-1])
             flatarr, openarr = self._ogrid_single(a, ccarr)
-            self._Pcrds[a + sfx] = flatarr
-            self._Pcrds[a.upper() + sfx] = openarr
+            crds[a + sfx] = flatarr
+            crds[a.upper() + sfx] = openarr
 
-        # ok, so this is a little recursive, but it's ok since we set
-        # _Pcrds above, note however that now we only have nc and cc
-        # crds in _Pcrds
-        crds_nc = self.get_crds_nc()
-        crds_nc_shaped = self.get_crds_nc(shaped=True)
-        crds_cc = self.get_crds_cc()
-        crds_cc_shaped = self.get_crds_cc(shaped=True)
+        sfx = self._CENTER["node"]
+        crds_nc = [crds[a + sfx] for a in self.axes]
+        crds_nc_shaped = [crds[a.upper() + sfx] for a in self.axes]
+        sfx = self._CENTER["cell"]
+        crds_cc = [crds[a + sfx] for a in self.axes]
+        crds_cc_shaped = [crds[a.upper() + sfx] for a in self.axes]
 
         # store references to face and edge centers while we're here
         sfx = self._CENTER["face"]
         for i, a in enumerate(self.axes):
-            self._Pcrds[a + sfx] = [None] * len(self.axes)
-            self._Pcrds[a.upper() + sfx] = [None] * len(self.axes)
+            crds[a + sfx] = [None] * len(self.axes)
+            crds[a.upper() + sfx] = [None] * len(self.axes)
             for j, d in enumerate(self.axes):  # pylint: disable=W0612
                 if i == j:
-                    self._Pcrds[a + sfx][j] = crds_nc[i][:-1]
-                    self._Pcrds[a.upper() + sfx][j] = self._sm1(crds_nc_shaped[i])
+                    crds[a + sfx][j] = crds_nc[i][:-1]
+                    crds[a.upper() + sfx][j] = self._sm1(crds_nc_shaped[i])
                 else:
-                    self._Pcrds[a + sfx][j] = crds_cc[i]
-                    self._Pcrds[a.upper() + sfx][j] = crds_cc_shaped[i]
+                    crds[a + sfx][j] = crds_cc[i]
+                    crds[a.upper() + sfx][j] = crds_cc_shaped[i]
 
         # same as face, but swap nc with cc
         sfx = self._CENTER["edge"]
         for i, a in enumerate(self.axes):
-            self._Pcrds[a + sfx] = [None] * 3
-            self._Pcrds[a.upper() + sfx] = [None] * 3
+            crds[a + sfx] = [None] * 3
+            crds[a.upper() + sfx] = [None] * 3
             for j in range(3):
                 if i != j:
-                    self._Pcrds[a + sfx][j] = crds_nc[i][:-1]
-                    self._Pcrds[a.upper() + sfx][j] = self._sm1(crds_nc_shaped[i])
+                    crds[a + sfx][j] = crds_nc[i][:-1]
+                    crds[a.upper() + sfx][j] = self._sm1(crds_nc_shaped[i])
                 else:
-                    self._Pcrds[a + sfx][j] = crds_cc[i]
-                    self._Pcrds[a.upper() + sfx][j] = crds_cc_shaped[i]
+                    crds[a + sfx][j] = crds_cc[i]
+                    crds[a.upper() + sfx][j] = crds_cc_shaped[i]
+
+        return crds
 
     @staticmethod
     def _sm1(a):
@@ -1412,12 +1411,13 @@ class UniformCrds(StructuredCrds):
                 lst.append([ax, list(ls_args)])
         return lst
 
-    def _fill_crds_dict(self):
+    def _make_crds_dict(self):
         assert len(self._nc_linspace_args) == len(self._axes)
-        self._src_crds_nc = {}
+        src_crds_nc = {}
         for ax, p in zip(self._axes, self._nc_linspace_args):
-            self._src_crds_nc[ax] = np.linspace(p[0], p[1], p[2]).astype(self.dtype)
-        return super(UniformCrds, self)._fill_crds_dict()
+            src_crds_nc[ax] = np.linspace(p[0], p[1], p[2]).astype(self.dtype)
+        self._src_crds_nc = src_crds_nc
+        return super(UniformCrds, self)._make_crds_dict()
 
 
 class NonuniformCrds(StructuredCrds):
-- 
2.43.0


From cd0574fc63aab4086f2559762b6a42d42c0e627e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:38 +0000
Subject: [PATCH 45/65] fix: stay inside a patch's coordinates when coming from
 a larger one

---
 viscid/cython/cycalc.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/cython/cycalc.pyx b/viscid/cython/cycalc.pyx
index 76c2f28..13a3ecd 100644
--- a/viscid/cython/cycalc.pyx
+++ b/viscid/cython/cycalc.pyx
@@ -266,6 +266,8 @@ cdef inline int closest_preceeding_ind(FusedField fld, int m, int d, real_t valu
         i = <int> floor((fld.nm1[d]) * frac)
         ind = int_min(int_max(i, 0), fld.nm2[d])
     else:
+        # the cached index may come from a patch that has more points
+        startidx = int_max(int_min(startidx, n - 1), 0)
         found_ind = 0
         if fld.crds[m, d, startidx] <= value:
             i = startidx
-- 
2.43.0


From 969a0d631ce6175f7678d2c44e69129781ff2b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:38 +0000
Subject: [PATCH 46/65] fix: let each streamline through patches start on its
 own

---
 viscid/cython/cyamr.pxd      |  1 +
 viscid/cython/cyamr.pyx      | 32 ++++++++++++++++++--------------
 viscid/cython/streamline.pyx | 16 +++++++++++-----
 3 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/viscid/cython/cyamr.pxd b/viscid/cython/cyamr.pxd
index 518daeb..8df1ef1 100644
--- a/viscid/cython/cyamr.pxd
+++ b/viscid/cython/cyamr.pxd
@@ -49,6 +49,7 @@ ctypedef fused FusedAMRField:
 
 
 cdef make_cyamrfield(vfield)
+cdef int find_patch(FusedAMRField amrfld, int active_idx, real_t x[3])
 cdef CyField activate_patch(FusedAMRField amrfld, real_t x[3])
 
 ##
diff --git a/viscid/cython/cyamr.pyx b/viscid/cython/cyamr.pyx
index 4de6038..203303e 100644
--- a/viscid/cython/cyamr.pyx
+++ b/viscid/cython/cyamr.pyx
@@ -175,31 +175,28 @@ cdef inline int _contains_patch(FusedAMRField amrfld, int ipatch, real_t x[3]):
             return 0
     return 1
 
-cdef CyField activate_patch(FusedAMRField amrfld, real_t x[3]):
-    cdef int active_idx, j, k, ineighbor, closest
+cdef int find_patch(FusedAMRField amrfld, int active_idx, real_t x[3]):
+    """Index of the patch that contains x, starting with patch active_idx
+    and its neighbors; amrfld is not changed, so threads can share it"""
+    cdef int j, k, ineighbor, closest
     cdef real_t rsq, closest_rsq
 
     if amrfld.nr_patches == 1:
-        return amrfld.active_patch
+        return 0
     else:
-        active_idx = amrfld.active_patch_index
         if _contains_patch[FusedAMRField, real_t](amrfld, active_idx, x):
-            return amrfld.active_patch
+            return active_idx
 
         # search neighbors of the current active patch
         for ineighbor in range(amrfld.nr_neighbors[active_idx]):
             j = amrfld.neighbors[active_idx, ineighbor]
             if _contains_patch[FusedAMRField, real_t](amrfld, j, x):
-                amrfld.active_patch = amrfld.patches[j]
-                amrfld.active_patch_index = j
-                return amrfld.active_patch
+                return j
 
         # search all patches
         for j in range(amrfld.nr_patches):
             if _contains_patch[FusedAMRField, real_t](amrfld, j, x):
-                amrfld.active_patch = amrfld.patches[j]
-                amrfld.active_patch_index = j
-                return amrfld.active_patch
+                return j
 
         # TODO: find closest patch?
         closest = 0
@@ -211,9 +208,16 @@ cdef CyField activate_patch(FusedAMRField amrfld, real_t x[3]):
             if rsq < closest_rsq:
                 closest_rsq = rsq
                 closest = j
-        amrfld.active_patch = amrfld.patches[closest]
-        amrfld.active_patch_index = closest
-        return amrfld.active_patch
+        return closest
+
+cdef CyField activate_patch(FusedAMRField amrfld, real_t x[3]):
+    cdef int j = find_patch[FusedAMRField, real_t](
+        amrfld, amrfld.active_patch_index, x)
+
+    if j != amrfld.active_patch_index:
+        amrfld.active_patch = amrfld.patches[j]
+        amrfld.active_patch_index = j
+    return amrfld.active_patch
 
 ##
 ## EOF
diff --git a/viscid/cython/streamline.pyx b/viscid/cython/streamline.pyx
index 014f26e..f3a78b8 100644
--- a/viscid/cython/streamline.pyx
+++ b/viscid/cython/streamline.pyx
@@ -40,7 +40,7 @@ from libc.time cimport time_t, time, clock_t, clock, CLOCKS_PER_SEC
 cimport numpy as cnp
 
 from viscid.cython.cyfield cimport MAX_FLOAT, real_t
-from viscid.cython.cyamr cimport FusedAMRField, make_cyamrfield, activate_patch
+from viscid.cython.cyamr cimport FusedAMRField, make_cyamrfield, find_patch
 from viscid.cython.cyfield cimport CyField, FusedField, make_cyfield
 from viscid.cython.integrate cimport (_c_euler1, _c_rk2, _c_rk4,
                                       _c_euler1a, _c_rk12, _c_rk45)
@@ -360,8 +360,9 @@ def _py_streamline(FusedAMRField amrfld, FusedField active_patch,
         real_t c_obound1[3]
         real_t min_dx[3]
 
-        int nr_patch = amrfld.active_patch_index
-        FusedField patch = amrfld.active_patch
+        # NOTE: these are local since amrfld is shared among threads
+        int nr_patch = 0
+        FusedField patch = active_patch
 
         # just for c
         int (*integrate_func)(FusedField fld, real_t x[3], real_t *ds, real_t *dt,
@@ -538,6 +539,10 @@ def _py_streamline(FusedAMRField amrfld, FusedField active_patch,
 
                 it = line_ends[i]
 
+                # the patch to start in depends on the seed point alone, and
+                # not on the streamlines that happened to come before
+                nr_patch = 0
+
                 done = _C_END_NONE
                 while 0 <= it and it < maxit2:
                     nr_segs += 1
@@ -550,8 +555,9 @@ def _py_streamline(FusedAMRField amrfld, FusedField active_patch,
                         # to be no gil-less way to change the active patch
                         # in cython the way things are currently structured
                         with gil:
-                            activate_patch[FusedAMRField, real_t](amrfld, s)
-                            patch = amrfld.active_patch
+                            nr_patch = find_patch[FusedAMRField, real_t](
+                                amrfld, nr_patch, s)
+                            patch = amrfld.patches[nr_patch]
 
                     # cache the most recent step segment in an easy-to-access
                     # place in case we want to shorten the segment to conform
-- 
2.43.0


From ce75adae784dbf33af692bbc17b23e8f0ad04198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 47/65] fix: make frames with given subplot parameters

---
 viscid/multiplot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viscid/multiplot.py b/viscid/multiplot.py
index 93ea059..732879b 100644
--- a/viscid/multiplot.py
+++ b/viscid/multiplot.py
@@ -52,6 +52,7 @@ def make_multiplot(vfile, plot_func=None, nr_procs=1, time_slice=":", **kwargs):
     args_kw = kwargs.copy()
     args_kw["first_run"] = True
     args_kw["first_run_result"] = None
+    r = [None]
 
     if "subplot_params" not in args_kw.get("kwopts", {}):
         r = parallel.map(1, plot_func, [next(grid_iter)], args_kw=args_kw,
-- 
2.43.0


From 222adb9f50cdf7dabd1d09febd19dad1e86600a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 48/65] fix: leave the options of multiplots as they are

---
 viscid/multiplot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viscid/multiplot.py b/viscid/multiplot.py
index 732879b..8c395b0 100644
--- a/viscid/multiplot.py
+++ b/viscid/multiplot.py
@@ -109,6 +109,8 @@ def _do_multiplot(tind, grid, plot_vars=None, global_popts=None, kwopts=None,
 
     this_row = -1
     for i, fld_meta in enumerate(plot_vars):
+        # the options are still needed for other frames as they are
+        fld_meta = [fld_meta[0], dict(fld_meta[1])]
         if not fld_meta[0].startswith('^'):
             this_row += 1
             same_axis = False
-- 
2.43.0


From e2380b0abbc2fcd40ffc1015692a7a3c27b44b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 49/65] fix: don't draw a frame into what is left of one that
 failed

---
 viscid/multiplot.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/viscid/multiplot.py b/viscid/multiplot.py
index 8c395b0..e321296 100644
--- a/viscid/multiplot.py
+++ b/viscid/multiplot.py
@@ -63,9 +63,18 @@ def make_multiplot(vfile, plot_func=None, nr_procs=1, time_slice=":", **kwargs):
     args_kw["first_run_result"] = r[0]
     parallel.map(nr_procs, plot_func, grid_iter, args_kw=args_kw)
 
-def _do_multiplot(tind, grid, plot_vars=None, global_popts=None, kwopts=None,
-                  share_axes=False, show=False, subplot_params=None,
-                  first_run_result=None, first_run=False, **kwargs):
+def _do_multiplot(*args, **kwargs):
+    try:
+        return _draw_multiplot(*args, **kwargs)
+    except BaseException:
+        # don't leave half a frame for the next one to be drawn into
+        import matplotlib.pyplot as plt
+        plt.clf()
+        raise
+
+def _draw_multiplot(tind, grid, plot_vars=None, global_popts=None, kwopts=None,
+                    share_axes=False, show=False, subplot_params=None,
+                    first_run_result=None, first_run=False, **kwargs):
     from viscid.plot import vpyplot as vlt
     import matplotlib.pyplot as plt
 
-- 
2.43.0


From 09fdab2ba3b51cad902997b24d671466afffcb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 50/65] fix: let grids of jrrle files be given to other
 processes

---
 viscid/readers/ggcm_jrrle.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/viscid/readers/ggcm_jrrle.py b/viscid/readers/ggcm_jrrle.py
index 38e4b26..5f8227c 100644
--- a/viscid/readers/ggcm_jrrle.py
+++ b/viscid/readers/ggcm_jrrle.py
@@ -27,9 +27,6 @@ class JrrleFileWrapper(FortranFile):
     seen_all_fields = None
 
     def __init__(self, filename):
-        self._read_func = [_jrrle.read_jrrle1d, _jrrle.read_jrrle2d,
-                           _jrrle.read_jrrle3d]
-
         self.fields_seen = OrderedDict()
         self.seen_all_fields = False
         super(JrrleFileWrapper, self).__init__(filename)
@@ -46,7 +43,9 @@ class JrrleFileWrapper(FortranFile):
         """
         meta = self.inquire(fld_name)
         arr = np.empty(meta['dims'], dtype='float32', order='F')
-        success = self._read_func[ndim - 1](self.unit, arr, fld_name, read_ascii)
+        read_func = [_jrrle.read_jrrle1d, _jrrle.read_jrrle2d,
+                     _jrrle.read_jrrle3d][ndim - 1]
+        success = read_func(self.unit, arr, fld_name, read_ascii)
         if not success:
             raise IOError("Can't read field '{0}' from file '{1}'"
                           "".format(fld_name, self.filename))
-- 
2.43.0


From 793792fd4de343d60ad789b093dc54ef65fc06cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:03 +0000
Subject: [PATCH 51/65] fix: let grids of VPIC files be given to other
 processes

---
 viscid/readers/vpic.py | 144 +++++++++++++++++++++--------------------
 1 file changed, 75 insertions(+), 69 deletions(-)

diff --git a/viscid/readers/vpic.py b/viscid/readers/vpic.py
index b63ff2e..5bb6f54 100644
--- a/viscid/readers/vpic.py
+++ b/viscid/readers/vpic.py
@@ -246,11 +246,16 @@ class VPIC_Grid(grid.Grid):
         return data
 
 
+# these are here since they are found by name when they are unpickled
+VPICFieldDescr = namedtuple("VPICFieldDescr",
+                            ["name", "kind", "n_comps", "dtype", "off"])
+VPICFieldSet = namedtuple("VPICFieldSet",
+                          ["dir", "basename", "descr"])
+
+
 class _VPICGlobalFile(object):
-    VPICFieldDescr = namedtuple("VPICFieldDescr",
-                                ["name", "kind", "n_comps", "dtype", "off"])
-    VPICFieldSet = namedtuple("VPICFieldSet",
-                              ["dir", "basename", "descr"])
+    VPICFieldDescr = VPICFieldDescr
+    VPICFieldSet = VPICFieldSet
 
     _keywords = {
         "DATA_HEADER_SIZE": "i",
@@ -462,79 +467,80 @@ class VPIC_File(vfile.VFile):  # pylint: disable=abstract-method
                             for _xl, _xh, _n in zip(xl, xh, _gfile.ldims + 1)]
                     block_crds += [coordinate.arrays2crds(arrs)]
 
-        file_wrapper_cls = VPIC_BinFileWrapper
-        data_wrapper_cls = VPIC_DataWrapper
-
         # normal grid creation would scale like
         # n_patches * n_timesteps * n_fields, which could take a long while,
-        # so lets make a closure to defer grid creation
-        parent_node = self # FIXME: is this correct?
-
-        def spatial_dset_callback(time):
-            dset_spatial = Dataset()
-            dset_spatial.time = time
-
-            for i, crds in enumerate(block_crds):
-                _grid = self._make_grid(parent_node, name="<VPIC_Gridt {0}>".format(i))
-                # _grid = VPIC_Grid()
-                _grid.set_crds(crds)
-
-                for fs in [_gfile.fields] + _gfile.species:
-                    bin_fname = ("{0}/T.{1}/{2}.{3}.{4}"
-                                 "".format(fs.dir, time, fs.basename, time, i))
-                    # file_wrapper is a lazy proxy for the whole binary file...
-                    # ie, something that knows how to seek etc.
-                    bin_fname = os.path.join(self.dirname, bin_fname)
-                    file_wrapper = file_wrapper_cls(bin_fname)
-
-                    for descr in fs.descr:
-                        fld_name = descr.name
-                        if fs.basename != 'fields':
-                            fld_name += " ({0})".format(fs.basename)
-
-                        for icomp in range(descr.n_comps):
-                            if descr.n_comps == 1:
-                                _fld_name = fld_name
-                            else:
-                                if descr.n_comps == 3:
-                                    comps = 'XYZ'
-                                elif descr.n_comps == 6:
-                                    comps = ['XX', 'YY', 'ZZ', 'YZ', 'ZX', 'XY']
-                                else:
-                                    comps = 'ABCDEFGHIJKLMN'
-                                _fld_name = '{0} {1}'.format(fld_name, comps[icomp])
-                            # data is a lazy proxy for an ndarray
-                            # FIXME: the data type is in descr?
-                            data = data_wrapper_cls(file_wrapper, _fld_name,
-                                                    _gfile.ldims,
-                                                    icomp + descr.off,
-                                                    np.dtype(np.float32))
-                            # FIXME: center actually varies depending on the variable
-                            # here cc is used for every field for convenience; perhaps
-                            # this can be done properly, i.e., setting center
-                            # differently for different variables.
-                            _fld = self._make_field(_grid, "Scalar", _fld_name,
-                                                    crds, data, time=time,
-                                                    center='cell')
-                            _grid.add_field(_fld)
-
-                dset_spatial.add(_grid)
-
-            _amr_grid, is_amr = amr_grid.dataset_to_amr_grid(dset_spatial,
-                                                             self.last_amr_skeleton)
-            if is_amr:
-                self.last_amr_skeleton = _amr_grid.skeleton
-
-            return _amr_grid
-
+        # so lets defer grid creation (not with a closure, since grids that
+        # are given to another process have to be pickled)
         for time in time_list:
-            data_temporal.add_deferred(time, spatial_dset_callback,
-                                       callback_args=(time,))
+            data_temporal.add_deferred(time, self._make_time,
+                                       callback_args=(time, _gfile, block_crds))
 
         data_temporal.activate(0)
         self.add(data_temporal)
         self.activate(0)
 
+    def _make_time(self, time, gfile, block_crds):
+        """Make the grid of a single time step"""
+        file_wrapper_cls = VPIC_BinFileWrapper
+        data_wrapper_cls = VPIC_DataWrapper
+        parent_node = self # FIXME: is this correct?
+
+        dset_spatial = Dataset()
+        dset_spatial.time = time
+
+        for i, crds in enumerate(block_crds):
+            _grid = self._make_grid(parent_node, name="<VPIC_Gridt {0}>".format(i))
+            # _grid = VPIC_Grid()
+            _grid.set_crds(crds)
+
+            for fs in [gfile.fields] + gfile.species:
+                bin_fname = ("{0}/T.{1}/{2}.{3}.{4}"
+                             "".format(fs.dir, time, fs.basename, time, i))
+                # file_wrapper is a lazy proxy for the whole binary file...
+                # ie, something that knows how to seek etc.
+                bin_fname = os.path.join(self.dirname, bin_fname)
+                file_wrapper = file_wrapper_cls(bin_fname)
+
+                for descr in fs.descr:
+                    fld_name = descr.name
+                    if fs.basename != 'fields':
+                        fld_name += " ({0})".format(fs.basename)
+
+                    for icomp in range(descr.n_comps):
+                        if descr.n_comps == 1:
+                            _fld_name = fld_name
+                        else:
+                            if descr.n_comps == 3:
+                                comps = 'XYZ'
+                            elif descr.n_comps == 6:
+                                comps = ['XX', 'YY', 'ZZ', 'YZ', 'ZX', 'XY']
+                            else:
+                                comps = 'ABCDEFGHIJKLMN'
+                            _fld_name = '{0} {1}'.format(fld_name, comps[icomp])
+                        # data is a lazy proxy for an ndarray
+                        # FIXME: the data type is in descr?
+                        data = data_wrapper_cls(file_wrapper, _fld_name,
+                                                gfile.ldims,
+                                                icomp + descr.off,
+                                                np.dtype(np.float32))
+                        # FIXME: center actually varies depending on the variable
+                        # here cc is used for every field for convenience; perhaps
+                        # this can be done properly, i.e., setting center
+                        # differently for different variables.
+                        _fld = self._make_field(_grid, "Scalar", _fld_name,
+                                                crds, data, time=time,
+                                                center='cell')
+                        _grid.add_field(_fld)
+
+            dset_spatial.add(_grid)
+
+        _amr_grid, is_amr = amr_grid.dataset_to_amr_grid(dset_spatial,
+                                                         self.last_amr_skeleton)
+        if is_amr:
+            self.last_amr_skeleton = _amr_grid.skeleton
+
+        return _amr_grid
+
 
 class VPIC_BinFileWrapper(object):
     """A File-like object for interfacing with VPIC binary files"""
-- 
2.43.0


From 9b8471c5c400d906e2da0af7bc37aa178429c2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:18 +0000
Subject: [PATCH 52/65] fix: accept SphericalPatch's own default angles

---
 viscid/seed.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/viscid/seed.py b/viscid/seed.py
index bb837c8..0eba4ad 100644
--- a/viscid/seed.py
+++ b/viscid/seed.py
@@ -1290,7 +1290,8 @@ class SphericalPatch(SeedGen):
         else:
             r = np.linalg.norm(p1)
 
-        if np.sin(max_alpha)**2 + np.sin(max_beta)**2 > 1:
+        # 45 and 45 degrees are ok, whichever way they are rounded
+        if np.sin(max_alpha)**2 + np.sin(max_beta)**2 > 1.0 + 1e-9:
             raise ValueError("Invalid alpha/beta ranges, if you want "
                              "something with more angular coverage you'll "
                              "need a SphericalCap")
@@ -1320,7 +1321,8 @@ class SphericalPatch(SeedGen):
         arr = np.zeros((3, pts_local.shape[1]), dtype=self.dtype)
         arr[0, :] = self.r * np.sin(pts_local[0, :])
         arr[1, :] = self.r * np.sin(pts_local[1, :])
-        arr[2, :] = np.sqrt(self.r**2 - arr[0, :]**2 - arr[1, :]**2)
+        arr[2, :] = np.sqrt(np.maximum(self.r**2 - arr[0, :]**2 - arr[1, :]**2,
+                                       0.0))
         rot_pts = np.einsum("ij,jk->ik", self.get_rotation(), arr)
         return self.p0.reshape((3, 1)) + rot_pts
 
-- 
2.43.0


From 57145c889cc450c02a031c762d917a5e979e1dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:18 +0000
Subject: [PATCH 53/65] fix: only use cached magnetopause info that is right

---
 viscid/calculator/mpause.py | 39 +++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/viscid/calculator/mpause.py b/viscid/calculator/mpause.py
index ee819bd..0ecc807 100644
--- a/viscid/calculator/mpause.py
+++ b/viscid/calculator/mpause.py
@@ -3,6 +3,7 @@
 
 from __future__ import print_function, division
 import os
+import zlib
 
 import numpy as np
 import viscid
@@ -14,6 +15,7 @@ __all__ = ["paraboloid", "paraboloid_normal", "fit_paraboloid",
 _dtf = 'f8'
 _paraboloid_dt = np.dtype([('x0', _dtf), ('y0', _dtf), ('z0', _dtf),
                            ('ax', _dtf), ('ay', _dtf), ('az', _dtf)])
+_default_mp_slc = "x=5.5j:11.0j, y=-4.0j:4.0j, z=-3.6j:3.6j"
 
 
 def paraboloid(y, z, x0, y0, z0, ax, ay, az):
@@ -71,7 +73,7 @@ def fit_paraboloid(fld, p0=(9.0, 0.0, 0.0, 1.0, -1.0, -1.0), tolerance=0.0):
     return parab
 
 def get_mp_info(pp, b, j, e, cache=True, cache_dir=None,
-                slc="x=5.5j:11.0j, y=-4.0j:4.0j, z=-3.6j:3.6j",
+                slc=_default_mp_slc,
                 fit="mp_xloc", fit_p0=(9.0, 0.0, 0.0, 1.0, -1.0, -1.0)):
     """Get info about m-pause as flattened fields
 
@@ -125,12 +127,22 @@ def get_mp_info(pp, b, j, e, cache=True, cache_dir=None,
     if not cache_dir:
         cache_dir = pp.find_info("_viscid_dirname", "./")
     run_name = pp.find_info("run", None)
-    if cache and run_name:
-        t = pp.time
+    t = pp.time
+    if cache and run_name and t is not None:
         mp_fname = "{0}/{1}.mpause.{2:06.0f}".format(cache_dir, run_name, t)
+        # the results of other arguments belong to another file
+        if slc != _default_mp_slc:
+            mp_fname += ".{0:08x}".format(zlib.crc32(str(slc).encode()) & 0xffffffff)
+        if e is None:
+            mp_fname += ".noe"
     else:
         mp_fname = ""
 
+    crd_system = viscid.as_crd_system(b, None)
+    if crd_system != 'gse':
+        raise RuntimeError("get_mp_info can't work in MHD crds, "
+                           "switch to GSE please")
+
     try:
         force = cache.strip().lower() == "force"
     except AttributeError:
@@ -142,20 +154,19 @@ def get_mp_info(pp, b, j, e, cache=True, cache_dir=None,
 
         mp_info = {}
         with viscid.load_file(mp_fname + ".xdmf") as dat:
+            if dat.get_grid().time != t:
+                raise IOError("the cache is that of another time")
             fld_names = ["mp_xloc", "mp_sheath_edge", "mp_sphere_edge",
                          "mp_width", "mp_shear", "pp_max", "pp_max_xloc",
                          "epar_max", "epar_max_xloc"]
             for fld_name in fld_names:
                 mp_info[fld_name] = dat[fld_name]["x=0"]
+                mp_info[fld_name].set_info("crd_system", crd_system)
 
-    except (IOError, KeyError):
+    except Exception:  # pylint: disable=broad-except
+        # there is no cache, or one that can't be read for whatever reason
         mp_info = {}
 
-        crd_system = viscid.as_crd_system(b, None)
-        if crd_system != 'gse':
-            raise RuntimeError("get_mp_info can't work in MHD crds, "
-                               "switch to GSE please")
-
         if j.nr_patches == 1:
             pp_block = pp[slc]
             b_block = b[slc]
@@ -263,7 +274,15 @@ def get_mp_info(pp, b, j, e, cache=True, cache_dir=None,
 
         # cache new fields to disk
         if mp_fname:
-            viscid.save_fields(mp_fname + ".h5", list(mp_info.values()))
+            try:
+                viscid.save_fields(mp_fname + ".h5", list(mp_info.values()))
+            except Exception as exc:  # pylint: disable=broad-except
+                viscid.logger.warning("Could not cache magnetopause info in "
+                                      "'%s': %s", mp_fname + ".h5", exc)
+
+        # 2d fields, like those from the cache
+        for name in mp_info:
+            mp_info[name] = mp_info[name]["x=0"]
 
     try:
         _paraboloid_params = fit_paraboloid(mp_info[fit], p0=fit_p0)
-- 
2.43.0


From c3939ef788d086e40d76c3a104ad04c548c5d96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:19 +0000
Subject: [PATCH 54/65] fix: only use cached separators that are right

---
 viscid/calculator/separator.py | 36 +++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/viscid/calculator/separator.py b/viscid/calculator/separator.py
index cc7bab3..31a2f67 100644
--- a/viscid/calculator/separator.py
+++ b/viscid/calculator/separator.py
@@ -2,6 +2,7 @@
 
 from __future__ import division, print_function
 from itertools import count
+import zlib
 
 import numpy as np
 import viscid
@@ -17,7 +18,10 @@ __all__ = ["trace_separator", "topology_bitor_clusters", "get_sep_pts_bitor",
            "get_sep_pts_bisect"]
 
 
-def trace_separator(grid, b_slcstr="x=-25j:15j, y=-30j:30j, z=-15j:15j",
+_default_b_slcstr = "x=-25j:15j, y=-30j:30j, z=-15j:15j"
+
+
+def trace_separator(grid, b_slcstr=_default_b_slcstr,
                     r=1.0, plot=False, trace_opts=None, cache=True,
                     cache_dir=None):
     """Trace a separator line from most dawnward null
@@ -48,18 +52,29 @@ def trace_separator(grid, b_slcstr="x=-25j:15j, y=-30j:30j, z=-15j:15j",
     """
     if not cache_dir:
         cache_dir = grid.find_info("_viscid_dirname", "./")
-    run_name = grid.find_info("run")
-    sep_fname = "{0}/{1}.sep.{2:06.0f}".format(cache_dir, run_name, grid.time)
+    run_name = grid.find_info("run", None)
+    if cache and run_name and grid.time is not None:
+        sep_fname = "{0}/{1}.sep.{2:06.0f}".format(cache_dir, run_name, grid.time)
+        # the results of other arguments belong to another file
+        args = (b_slcstr, r, sorted((trace_opts or {}).items()))
+        if args != (_default_b_slcstr, 1.0, []):
+            sep_fname += ".{0:08x}".format(zlib.crc32(repr(args).encode()) & 0xffffffff)
+    else:
+        sep_fname = ""
 
     try:
-        if isinstance(cache, string_types) and cache.strip().lower() == "force":
+        force = isinstance(cache, string_types) and cache.strip().lower() == "force"
+        if force or not sep_fname:
             raise IOError()
         with np.load(sep_fname + ".npz") as dat:
+            if dat['time'] != grid.time:
+                raise IOError("the cache is that of another time")
             sep_iter = (f for f in dat.files if f.startswith("arr_"))
             _it = sorted(sep_iter, key=lambda s: int(s[len("arr_"):]))
             seps = [dat[n] for n in _it]
             nulls = dat['nulls']
-    except IOError:
+    except Exception:  # pylint: disable=broad-except
+        # there is no cache, or one that can't be read for whatever reason
         _b = grid['b'][b_slcstr]
 
         _, nulls = viscid.find_nulls(_b['x=-30j:15j'], ibound=5.0)
@@ -123,8 +138,15 @@ def trace_separator(grid, b_slcstr="x=-25j:15j, y=-30j:30j, z=-15j:15j",
             # print("sep", sep)
             seps.append(np.stack(sep, axis=1))
 
-        if cache:
-            np.savez_compressed(sep_fname, *seps, nulls=nulls)
+        if sep_fname:
+            try:
+                # a file that was left unfinished could be readable
+                from viscid.readers.vfile import open_replacements
+                with open_replacements((sep_fname + ".npz", 'wb')) as (f,):
+                    np.savez_compressed(f, *seps, nulls=nulls, time=grid.time)
+            except Exception as exc:  # pylint: disable=broad-except
+                viscid.logger.warning("Could not cache separators in '%s': %s",
+                                      sep_fname + ".npz", exc)
     return seps, nulls
 
 def topology_bitor_clusters(fld, min_depth=1, max_depth=10, multiple=True,
-- 
2.43.0


From e7cca0986091b763552148e165391a9689ff9e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:07 +0000
Subject: [PATCH 55/65] fix: don't let an rc file keep viscid from being
 imported

---
 viscid/_rc.py | 85 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 57 insertions(+), 28 deletions(-)

diff --git a/viscid/_rc.py b/viscid/_rc.py
index 76561d1..38514bd 100644
--- a/viscid/_rc.py
+++ b/viscid/_rc.py
@@ -62,41 +62,70 @@ def set_attribute(path, value):
     return obj
 
 
+def _parse_rc_file(f):
+    try:
+        import yaml
+        return yaml.safe_load(f)
+    except ImportError:
+        try:
+            return vjson.load(f)
+        except ValueError as e:
+            tb = traceback.format_exc()
+            tb = '\n'.join(' ' * 4 + line_ for line_ in tb.split('\n'))
+            m = ("{0}\n{1}\n"
+                 "JSON parsing of {2} failed. If the file is using "
+                 "Yaml syntax, please install PyYaml."
+                 "".format(tb, str(e), f.name))
+            raise ValueError(m)
+
+
 def load_rc_file(fname):
-    touched_objects = []
+    """Apply the settings in an rc file
+
+    Nothing in that file keeps Viscid from being imported; what can't be
+    used is skipped with a warning.
+    """
     try:
         with open(os.path.expanduser(os.path.expandvars(fname)), 'r') as f:
-            try:
-                import yaml
-                rc_obj = yaml.safe_load(f)
-            except ImportError:
-                try:
-                    rc_obj = vjson.load(f)
-                except ValueError as e:
-                    tb = traceback.format_exc()
-                    tb = '\n'.join(' ' * 4 + line_ for line_ in tb.split('\n'))
-                    m = ("{0}\n{1}\n"
-                         "JSON parsing of {2} failed. If the file is using "
-                         "Yaml syntax, please install PyYaml."
-                         "".format(tb, str(e), f.name))
-                    raise ValueError(m)
-
-        for path, val in rc_obj.items():
-            try:
-                touched_objects.append(set_attribute(path, val))
-            except RCPathError as e:
-                viscid.logger.warning("from rc file; {0}\n"
-                                      "If this isn't a typeo then the "
-                                      "functionality may have moved."
-                                      "".format(str(e)))
+            rc_obj = _parse_rc_file(f)
     except IOError:
-        pass
+        return
+    except Exception as e:  # pylint: disable=broad-except
+        viscid.logger.warning("rc file {0} can't be parsed; {1}"
+                              "".format(fname, str(e)))
+        return
+
+    if rc_obj is None:
+        return
+    if not hasattr(rc_obj, "items"):
+        viscid.logger.warning("rc file {0} contains no dictionary"
+                              "".format(fname))
+        return
 
-    for obj in set(touched_objects):
+    touched_objects = []
+    for path, val in rc_obj.items():
+        try:
+            obj = set_attribute(path, val)
+        except RCPathError as e:
+            viscid.logger.warning("from rc file; {0}\n"
+                                  "If this isn't a typeo then the "
+                                  "functionality may have moved."
+                                  "".format(str(e)))
+        except Exception as e:  # pylint: disable=broad-except
+            viscid.logger.warning("from rc file; can't set '{0}'; {1}"
+                                  "".format(path, str(e)))
+        else:
+            if not any(obj is o for o in touched_objects):
+                touched_objects.append(obj)
+
+    for obj in touched_objects:
+        if not hasattr(obj, "post_rc_actions"):
+            continue
         try:
             obj.post_rc_actions()
-        except AttributeError:
-            pass
+        except Exception as e:  # pylint: disable=broad-except
+            viscid.logger.warning("from rc file; can't apply the settings of "
+                                  "'{0}'; {1}".format(obj, str(e)))
 
 ##
 ## EOF
-- 
2.43.0


From 64f1d7ef7f9982ab76e416d04ad4c7bcce767dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:07 +0000
Subject: [PATCH 56/65] fix: apply the usable mpl_style settings next to
 unusable ones

---
 viscid/plot/mpl_style.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/viscid/plot/mpl_style.py b/viscid/plot/mpl_style.py
index 641dd25..3ba6257 100644
--- a/viscid/plot/mpl_style.py
+++ b/viscid/plot/mpl_style.py
@@ -119,25 +119,44 @@ try:
             if show_warning:
                 logger.debug("Upgrade to matplotlib >= 1.5.0 to use style sheets")
 
+    def _apply_each(items, func):
+        """call func(key, value) for all items, warn about unusable ones"""
+        if not isinstance(items, dict):
+            logger.warning("rc parameters should be a dictionary, not {0!r}"
+                           "".format(items))
+            return
+        for key, value in items.items():
+            try:
+                func(key, value)
+            except Exception as e:  # pylint: disable=broad-except
+                logger.warning("matplotlib rc parameter {0!r} can't be set; "
+                               "{1}".format(key, e))
+
     def post_rc_actions(show_warning=True):
         try:
             from matplotlib import style
 
-            if u"viscid-default" not in use_styles:
-                use_styles.insert(0, u"viscid-default")
+            styles = use_styles
+            if not isinstance(styles, list):
+                # these come from the user's rc file
+                logger.warning("use_styles should be a list, not {0!r}"
+                               "".format(styles))
+                styles = []
+            if u"viscid-default" not in styles:
+                styles.insert(0, u"viscid-default")
 
-            for s in use_styles:
+            for s in styles:
                 try:
                     style.use(s)
-                except ValueError as e:
+                except Exception as e:  # pylint: disable=broad-except
                     logger.warning(str(e))
         except ImportError:
             if show_warning and use_styles:
                 logger.warning("Upgrade to matplotlib >= 1.5.0 to use style sheets")
 
-        matplotlib.rcParams.update(rc_params)
-        for group, params in rc.items():
-            matplotlib.rc(group, **params)
+        _apply_each(rc_params, matplotlib.rcParams.__setitem__)
+        _apply_each(rc, lambda group, params: _apply_each(
+            params, lambda key, value: matplotlib.rc(group, **{key: value})))
 
     inject_viscid_styles()
     post_rc_actions(show_warning=False)
-- 
2.43.0


From 7a1ff731eab148203183251977587cb8ac266965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:51 +0000
Subject: [PATCH 57/65] fix: leave the names of fields alone that Athena's
 derived fields are made of

---
 viscid/readers/athena.py | 44 ++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/viscid/readers/athena.py b/viscid/readers/athena.py
index 08684e0..195c60e 100644
--- a/viscid/readers/athena.py
+++ b/viscid/readers/athena.py
@@ -57,6 +57,14 @@ def athena_collective_name_from_group(detector, fnames):
 
 
 class AthenaGrid(grid.Grid):
+    @staticmethod
+    def _named(f, name, pretty_name):
+        """f by another name, the grid's own fields keep theirs"""
+        f = f.shell_copy(force=True)
+        f.name = name
+        f.pretty_name = pretty_name
+        return f
+
     def _get_rr(self):
         return self['d']
 
@@ -72,81 +80,63 @@ class AthenaGrid(grid.Grid):
             f = self['B1c']
         except KeyError:
             f = self['B1']
-        f.name = "bx"
-        f.pretty_name = "$B_x$"
-        return f
+        return self._named(f, "bx", "$B_x$")
 
     def _get_by(self):
         try:
             f = self['B2c']
         except KeyError:
             f = self['B2']
-        f.name = "by"
-        f.pretty_name = "$B_y$"
-        return f
+        return self._named(f, "by", "$B_y$")
 
     def _get_bz(self):
         try:
             f = self['B3c']
         except KeyError:
             f = self['B3']
-        f.name = "bz"
-        f.pretty_name = "$B_z$"
-        return f
+        return self._named(f, "bz", "$B_z$")
 
     def _get_vx(self):
         try:
             f = self['V1']
         except KeyError:
             f = self['M1'] / self['d']
-        f.name = "vx"
-        f.pretty_name = "$V_x$"
-        return f
+        return self._named(f, "vx", "$V_x$")
 
     def _get_vy(self):
         try:
             f = self['V2']
         except KeyError:
             f = self['M2'] / self['d']
-        f.name = "vy"
-        f.pretty_name = "$V_y$"
-        return f
+        return self._named(f, "vy", "$V_y$")
 
     def _get_vz(self):
         try:
             f = self['V3']
         except KeyError:
             f = self['M3'] / self['d']
-        f.name = "bz"
-        f.pretty_name = "$V_z$"
-        return f
+        return self._named(f, "bz", "$V_z$")
 
     def _get_mx(self):
         try:
             f = self['M1']
         except KeyError:
             f = self['V1'] * self['d']
-        f.name = "mx"
-        f.pretty_name = "$M_x$"
-        return f
+        return self._named(f, "mx", "$M_x$")
 
     def _get_my(self):
         try:
             f = self['M2']
         except KeyError:
             f = self['V2'] * self['d']
-        f.name = "my"
-        f.pretty_name = "$M_y$"
-        return f
+        return self._named(f, "my", "$M_y$")
 
     def _get_mz(self):
         try:
             f = self['M3']
         except KeyError:
             f = self['V3'] * self['d']
-        f.name = "mz"
-        f.pretty_name = "$M_z$"
-        return f
+        return self._named(f, "mz", "$M_z$")
 
     def _get_jx(self):
         f = self['j'].component_fields()[0]
-- 
2.43.0


From fa51a6beb41e7fabb3810cd2981c32f5ade2a5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:51 +0000
Subject: [PATCH 58/65] fix: tell AMR layouts apart that only differ in their
 upper corners

---
 viscid/amr_grid.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/viscid/amr_grid.py b/viscid/amr_grid.py
index 49db810..9421389 100644
--- a/viscid/amr_grid.py
+++ b/viscid/amr_grid.py
@@ -137,9 +137,8 @@ class AMRSkeleton(object):
                 return False
             if not np.allclose(my_patch.xl, grid.crds.xl_nc):
                 return False
-            # if n and xl match... do i need to check xh?
-            # if not np.allclose(my_patch.xh, grid.crds.xh_nc):
-            #     return False
+            if not np.allclose(my_patch.xh, grid.crds.xh_nc):
+                return False
         # t1 = default_timer()
         # print(">> compatable   {0:g} secs".format(t1 - t0))
         return True
-- 
2.43.0


From 4012fd332ce71e5b974209f9cf2feb317c4ad7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:51 +0000
Subject: [PATCH 59/65] fix: never give two files that threads load at the same
 time one number

---
 viscid/bucket.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/viscid/bucket.py b/viscid/bucket.py
index 32a8bd9..7e4a863 100755
--- a/viscid/bucket.py
+++ b/viscid/bucket.py
@@ -2,11 +2,16 @@
 
 from __future__ import print_function
 import sys
+from threading import Lock
 
 # from viscid.vutil import tree_prefix
 from viscid.compat import OrderedDict
 from viscid import logger
 
+# threads that add items at the same time may not take the same number
+_index_lock = Lock()
+
+
 class Bucket(object):
     """ This is basically a glorified dict
 
@@ -92,9 +97,11 @@ class Bucket(object):
             _add_ref = hashable_item not in self._own
             index = self._own.setdefault(hashable_item, None)
             if index_handle and index is None:
-                self._own[hashable_item] = self._int_counter
-                handles += [self._int_counter]
-                self._int_counter += 1
+                with _index_lock:
+                    index = self._int_counter
+                    self._int_counter += 1
+                self._own[hashable_item] = index
+                handles += [index]
 
         handles_added = []
         for h in handles:
-- 
2.43.0


From 1ed50a2e6746358119e9556c643b85a877631348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:51 +0000
Subject: [PATCH 60/65] fix: reflect coordinates that were used before their
 axes were said to be reflected

---
 viscid/coordinate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viscid/coordinate.py b/viscid/coordinate.py
index 72cf546..0470e4f 100644
--- a/viscid/coordinate.py
+++ b/viscid/coordinate.py
@@ -373,6 +373,7 @@ class StructuredCrds(Coordinates):
         if not val:
             val = []
         self._reflect_axes = val
+        self.clear_cache()
 
     @property
     def _crds(self):
-- 
2.43.0


From 9fdcb61cca63cb1f10cd13cb146143150b96c48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:51 +0000
Subject: [PATCH 61/65] fix: slice vectors of files in mhd coordinates without
 reading all of them first

---
 viscid/field.py            | 9 +++++----
 viscid/readers/openggcm.py | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/viscid/field.py b/viscid/field.py
index c3de4b9..3309c50 100644
--- a/viscid/field.py
+++ b/viscid/field.py
@@ -1241,11 +1241,12 @@ class Field(tree.Leaf):
                 # post-reshape-transform
                 if self.post_reshape_transform_func is not None:
                     if cc:
-                        target_shape = crds.shape_cc
+                        target_shape = list(crds.shape_cc)
                     else:
-                        target_shape = crds.shape_nc
-                    if nr_comp is not None:
-                        target_shape.insert(nr_comp, -1)
+                        target_shape = list(crds.shape_nc)
+                    if nr_comp is not None and not single_comp_slc:
+                        target_shape.insert(0 if nr_comp == 0 else
+                                            len(target_shape), -1)
                     slced_dat = self.post_reshape_transform_func(
                         self, crds, slced_dat.reshape(target_shape),
                         comp_slc=comp_slc, **self.transform_func_kwargs)
diff --git a/viscid/readers/openggcm.py b/viscid/readers/openggcm.py
index 6e27ac0..424ce2b 100644
--- a/viscid/readers/openggcm.py
+++ b/viscid/readers/openggcm.py
@@ -160,7 +160,7 @@ def mhd2gse_field_vector(fld, crds, arr, comp_slc=None,
     factor = np.array([-1.0, -1.0, 1.0], dtype=arr.dtype).reshape(shp)
     if comp_slc is not None:
         tmpslc = [slice(None) if s == 1 else comp_slc for s in shp]
-        factor = factor[tmpslc]
+        factor = factor[tuple(tmpslc)]
     # print("** factor", factor.shape, factor.flatten())
     if copy_on_transform:
         if _has_numexpr:
-- 
2.43.0


From 4cb90f9a88bcffe81b6e33295fc8b1032fec131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:11 +0000
Subject: [PATCH 62/65] fix: let go of child files when a load is interrupted

---
 viscid/readers/vfile_bucket.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viscid/readers/vfile_bucket.py b/viscid/readers/vfile_bucket.py
index 5d58029..4f67efc 100644
--- a/viscid/readers/vfile_bucket.py
+++ b/viscid/readers/vfile_bucket.py
@@ -226,7 +226,7 @@ class ContainerFile(VFile):  # pylint: disable=abstract-method
             super(ContainerFile, self).__init__(fname,
                                                 parent_bucket=parent_bucket,
                                                 **kwargs)
-        except Exception:
+        except BaseException:
             self._release_child_files()
             raise
 
-- 
2.43.0


From c2eab9551d299e019b363be7b8e44f468aeafa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:11 +0000
Subject: [PATCH 63/65] fix: load a run whose log file has mangled values

---
 viscid/readers/ggcm_logfile.py | 2 +-
 viscid/readers/openggcm.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/viscid/readers/ggcm_logfile.py b/viscid/readers/ggcm_logfile.py
index b9570a9..1b40df1 100644
--- a/viscid/readers/ggcm_logfile.py
+++ b/viscid/readers/ggcm_logfile.py
@@ -98,7 +98,7 @@ class GGCMLogFile(vfile.VFile):  # pylint: disable=W0223
         try:
             mhd_type = _info["ggcm_mhd_fld_mhd_type"]
             _info["ggcm_mhd_fld_mhd_type_str"] = MHD_TYPES[mhd_type]
-        except (IndexError, KeyError):
+        except (IndexError, KeyError, TypeError):
             _info["ggcm_mhd_fld_mhd_type_str"] = "UNKNOWN"
 
         self.info = _info
diff --git a/viscid/readers/openggcm.py b/viscid/readers/openggcm.py
index 424ce2b..d2aa37d 100644
--- a/viscid/readers/openggcm.py
+++ b/viscid/readers/openggcm.py
@@ -264,7 +264,7 @@ class GGCMGrid(grid.Grid):
                     crd_system = "gse"
                 else:
                     crd_system = "other"
-            except KeyError as e:
+            except (AttributeError, IndexError, KeyError, TypeError, ValueError) as e:
                 logger.warning("Could not determine coordiname system; "
                                "either the logfile is mangled, or "
                                "the libmrc options I'm using in infer "
-- 
2.43.0


From 3c738509789ac612b6032e3f61276704fe257f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:11 +0000
Subject: [PATCH 64/65] fix: select by lists, as documented

---
 viscid/sliceutil.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viscid/sliceutil.py b/viscid/sliceutil.py
index 7b5be51..1270a07 100644
--- a/viscid/sliceutil.py
+++ b/viscid/sliceutil.py
@@ -354,6 +354,7 @@ def standardize_value(sel, bool_argwhere=False):
         _warn_deprecated_float(sel)
         sel = 1j * sel
     elif isinstance(sel, (list, np.ndarray)):
+        sel = np.asarray(sel)
         assert len(sel.shape) == 1
         assert isinstance(sel[0], (int, bool, np.integer, np.complex,
                                    np.complexfloating, np.bool_))
-- 
2.43.0


From e7e7ecd162cb57e12cf6af76a70028e05376e63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:23 +0000
Subject: [PATCH 65/65] fix: keep files that others refer to in the table when
 they are removed from it

---
 viscid/readers/vfile_bucket.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/viscid/readers/vfile_bucket.py b/viscid/readers/vfile_bucket.py
index 4f67efc..93d2b3e 100644
--- a/viscid/readers/vfile_bucket.py
+++ b/viscid/readers/vfile_bucket.py
@@ -181,6 +181,9 @@ class VFileBucket(Bucket):
     def remove_item(self, item, do_unload=True):
         if do_unload:
             item.unload()
+            if (item.parent_bucket is self and
+                self._handles.get(self._make_hashable(item))):
+                return  # other files still refer to it
         if self.contains_item(item):
             super(VFileBucket, self).remove_item(item)
 
-- 
2.43.0

