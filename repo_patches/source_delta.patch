From 36697ce265c028a12725139657b32bef1ea91222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 001/111] fix: use numpy.floating (numpy.float no longer exists
 in numpy >= 1.24)

---
 pyconform/flownodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index f38615b..a23b969 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -124,7 +124,7 @@ class DataNode(FlowNode):
         """
         # Determine type and upcast, if necessary
         array = PhysArray(data)
-        if issubclass(array.dtype.type, numpy.float) and array.dtype.itemsize < 8:
+        if issubclass(array.dtype.type, numpy.floating) and array.dtype.itemsize < 8:
             array = array.astype(numpy.float64)
 
         # Store data
@@ -262,7 +262,7 @@ class ReadNode(FlowNode):
             data = ncvar[index12]
 
             # Upconvert, if possible
-            if issubclass(ncvar.dtype.type, numpy.float) and ncvar.dtype.itemsize < 8:
+            if issubclass(ncvar.dtype.type, numpy.floating) and ncvar.dtype.itemsize < 8:
                 data = data.astype(numpy.float64)
 
             # Read the positive attribute, if available
-- 
2.43.0


From b20582af3ea2944112cf806ac8aba126e11ff5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 002/111] fix: do not negate an operand in place when aligning
 opposite positive directions

---
 pyconform/physarray.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index d6b1ca0..4e66489 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -433,7 +433,10 @@ class PhysArray(numpy.ma.MaskedArray):
             elif self.positive == "down":
                 other.down()
         else:
+            # Flip a copy, because 'other' can be a view of data owned by the caller
+            other = other.copy()
             other.flip()
+        return other
 
     def _check_inplace_(self, other):
         other = PhysArray(other)
@@ -451,8 +454,7 @@ class PhysArray(numpy.ma.MaskedArray):
 
     def _add_sub_init_(self, other):
         other = self._broadcast_(PhysArray(other)).convert(self.units)
-        self._match_positive_(other)
-        return other
+        return self._match_positive_(other)
 
     def __add__(self, other):
         result = PhysArray(self)
@@ -507,8 +509,7 @@ class PhysArray(numpy.ma.MaskedArray):
 
     def _mul_div_init_(self, other):
         other = self._broadcast_(PhysArray(other))
-        self._match_positive_(other)
-        return other
+        return self._match_positive_(other)
 
     def __mul__(self, other):
         result = PhysArray(self)
-- 
2.43.0


From 7c5f217f2cdc8a9671752ee2fb0b48810cd5677a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 003/111] fix: keep the positive direction of an array when its
 units are converted

---
 pyconform/physarray.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index 4e66489..fa962cd 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -217,7 +217,11 @@ class PhysArray(numpy.ma.MaskedArray):
             )
             new_name = "convert({}, from={}, to={})".format(obj.name, u1_str, u2_str)
             return PhysArray(
-                new_array, name=new_name, units=u2, dimensions=obj.dimensions
+                new_array,
+                name=new_name,
+                units=u2,
+                dimensions=obj.dimensions,
+                positive=obj.positive,
             )
         elif isinstance(obj, numpy.ma.MaskedArray):
             return numpy.ma.MaskedArray(
-- 
2.43.0


From abd4f46975a798dad6ce0762040e4ce7faa6aba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 004/111] fix: up() and down() must not negate their argument's
 data in place

---
 pyconform/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 0be9232..182103e 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -411,7 +411,7 @@ class PositiveUpFunction(Function):
     def __getitem__(self, index):
         data_r = self.arguments[0]
         data = data_r if is_constant(data_r) else data_r[index]
-        return PhysArray(data).up()
+        return PhysArray(data).copy().up()
 
 
 class PositiveDownFunction(Function):
@@ -423,7 +423,7 @@ class PositiveDownFunction(Function):
     def __getitem__(self, index):
         data_r = self.arguments[0]
         data = data_r if is_constant(data_r) else data_r[index]
-        return PhysArray(data).down()
+        return PhysArray(data).copy().down()
 
 
 class ChangeUnitsFunction(Function):
-- 
2.43.0


From edc234d07966a6316422256cbedb7b3a0827eb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 005/111] fix: limit() must not modify its argument's data in
 place

---
 pyconform/functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 182103e..9f05858 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -505,6 +505,10 @@ class LimitFunction(Function):
         if above_val is None and below_val is None:
             return data
 
+        # Work on a copy, because the data can be owned by another node
+        if isinstance(data, PhysArray):
+            data = data.copy()
+
         above_str = ""
         if above_val is not None:
             above_ind = where(data > above_val)
-- 
2.43.0


From 609d367f2a635e5fd09c995623165ca37c2f8449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 006/111] fix: mean() and sum() over several dimensions reduce
 each named dimension, with the right operation

---
 pyconform/functions.py | 9 ++-------
 pyconform/physarray.py | 8 ++++----
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 9f05858..ced5952 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -322,13 +322,8 @@ class SumFunction(Function):
     def __getitem__(self, index):
         data = self.arguments[0][index]
         dimensions = self.arguments[1:]
-        indims = []
-        for d in dimensions:
-            # print d, 'in', data.dimensions, '?'
-            if d in data.dimensions:
-                # print 'will append ', data.dimensions.index(d)
-                indims.append(data.dimensions.index(d))
-        return np.sum(data, indims[0])
+        indims = [d for d in dimensions if d in data.dimensions]
+        return data.sum(dimensions=indims)
 
 
 class MinFunction(Function):
diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index fa962cd..db7b7df 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -646,8 +646,8 @@ class PhysArray(numpy.ma.MaskedArray):
         elif isinstance(axis, (list, tuple)):
             dims = tuple(self.dimensions[i] for i in axis)
             meanval = self.view(numpy.ma.MaskedArray)
-            for a in axis:
-                meanval = meanval.mean(axis=a)
+            if len(axis) > 0:
+                meanval = meanval.mean(axis=tuple(axis))
         else:
             raise TypeError("Axis must be given as an integer, list or tuple")
         new_dims = tuple(d for d in self.dimensions if d not in dims)
@@ -678,8 +678,8 @@ class PhysArray(numpy.ma.MaskedArray):
         elif isinstance(axis, (list, tuple)):
             dims = tuple(self.dimensions[i] for i in axis)
             sumval = self.view(numpy.ma.MaskedArray)
-            for a in axis:
-                sumval = sumval.mean(axis=a)
+            if len(axis) > 0:
+                sumval = sumval.sum(axis=tuple(axis))
         else:
             raise TypeError("Axis must be given as an integer, list or tuple")
         new_dims = tuple(d for d in self.dimensions if d not in dims)
-- 
2.43.0


From 2f1d5f846b673868e70a50b0bd46bd22ac677a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 007/111] fix: min() and max() work on data of any dimensions
 and keep its units and positive direction

---
 pyconform/functions.py | 41 ++++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index ced5952..a58de29 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -341,23 +341,21 @@ class MinFunction(Function):
     def __getitem__(self, index):
         data = self.arguments[0][index]
         dimensions = self.arguments[1:]
-        indims = []
-        if index is None:
-            return PhysArray(
-                np.zeros((0, 0, 0)),
-                dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
-            )
-        for d in dimensions:
-            if d in data.dimensions:
-                indims.append(data.dimensions.index(d))
+        indims = tuple(
+            data.dimensions.index(d) for d in dimensions if d in data.dimensions
+        )
+        new_dims = [d for d in data.dimensions if d not in dimensions]
         new_name = "min({},{})".format(data.name, dimensions)
-        m = np.amin(data, axis=indims[0])
+        if index is None:
+            m = np.zeros((0,) * len(new_dims), dtype=data.dtype)
+        else:
+            m = data.view(np.ma.MaskedArray).min(axis=indims)
         return PhysArray(
             m,
             name=new_name,
             positive=data.positive,
             units=data.units,
-            dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
+            dimensions=new_dims,
         )
 
 
@@ -376,24 +374,21 @@ class MaxFunction(Function):
     def __getitem__(self, index):
         data = self.arguments[0][index]
         dimensions = self.arguments[1:]
-        indims = []
-        if index is None:
-            return PhysArray(
-                np.zeros((0, 0, 0)),
-                units=data.units,
-                dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
-            )
-        for d in dimensions:
-            if d in data.dimensions:
-                indims.append(data.dimensions.index(d))
+        indims = tuple(
+            data.dimensions.index(d) for d in dimensions if d in data.dimensions
+        )
+        new_dims = [d for d in data.dimensions if d not in dimensions]
         new_name = "max({},{})".format(data.name, dimensions[0])
-        m = np.amax(data, axis=indims[0])
+        if index is None:
+            m = np.zeros((0,) * len(new_dims), dtype=data.dtype)
+        else:
+            m = data.view(np.ma.MaskedArray).max(axis=indims)
         return PhysArray(
             m,
             name=new_name,
             positive=data.positive,
             units=data.units,
-            dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
+            dimensions=new_dims,
         )
 
 
-- 
2.43.0


From 193cb8ae8ec38fff0c95ec6c8e2f189c65e0c2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 008/111] fix: apply valid_min/valid_max of 0, and mask only
 the values outside the valid range

---
 pyconform/flownodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index a23b969..5146738 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -542,20 +542,20 @@ class ValidateNode(FlowNode):
         ok_max_mean_abs = self.attributes.get("ok_max_mean_abs", None)
 
         # Validate minimum
-        if valid_min:
+        if valid_min is not None and valid_min != "":
             dmin = numpy.min(indata)
             if dmin < valid_min:
                 msg = "valid_min: {} < {} ({!r})".format(dmin, valid_min, self.label)
                 warn(msg, ValidationWarning)
-                indata = numpy.ma.masked_where(indata <= valid_min, indata)
+                indata = numpy.ma.masked_where(indata < valid_min, indata)
 
         # Validate maximum
-        if valid_max:
+        if valid_max is not None and valid_max != "":
             dmax = numpy.max(indata)
             if dmax > valid_max:
                 msg = "valid_max: {} > {} ({!r})".format(dmax, valid_max, self.label)
                 warn(msg, ValidationWarning)
-                indata = numpy.ma.masked_where(indata >= valid_max, indata)
+                indata = numpy.ma.masked_where(indata > valid_max, indata)
 
         # Compute mean of the absolute value, if necessary
         if ok_min_mean_abs or ok_max_mean_abs:
-- 
2.43.0


From e63e4ce4ec20e11d80382f95eef8e209c901f6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 009/111] fix: chdims() must translate an index given by the
 new dimension names

---
 pyconform/functions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index a58de29..b2a1bd7 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -540,6 +540,12 @@ class RenameDimensionsFunction(Function):
         super(RenameDimensionsFunction, self).__init__(data, *dims)
 
     def __getitem__(self, index):
+        dims = self.arguments[1:]
+        if isinstance(index, dict) and not is_constant(self.arguments[0]):
+            # The index refers to the new dimension names
+            old_dims = self.arguments[0][None].dimensions
+            new_dims = dims[: len(old_dims)] + old_dims[len(dims) :]
+            index = {o: index[n] for o, n in zip(old_dims, new_dims) if n in index}
         data = (
             self.arguments[0]
             if is_constant(self.arguments[0])
@@ -547,7 +553,6 @@ class RenameDimensionsFunction(Function):
         )
         if len(self.arguments) == 1:
             return data
-        dims = self.arguments[1:]
         dim_names = ", ".join([repr(dim) for dim in dims])
         new_name = "chdims({!s}, {!s})".format(getname(data), dim_names)
         new_dims = list(data.dimensions)
-- 
2.43.0


From 3197ef22928ecec41be7df49601441850e56774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:03 +0000
Subject: [PATCH 010/111] fix: a data flow without any string-defined variable
 no longer fails to build

---
 pyconform/dataflow.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index dbf0db6..acd5231 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -189,14 +189,13 @@ class DataFlow(object):
     def _compute_dimension_maps_(self, definfos):
         # Each output variable FlowNode must be mapped to its output dimensions.
         # To aid with this, we sort by number of dimensions:
-        nodeorder = list(
-            zip(
-                *sorted(
-                    (len(self._ods.variables[vname].dimensions), vname)
-                    for vname in definfos
-                )
+        nodeorder = [
+            vname
+            for _, vname in sorted(
+                (len(self._ods.variables[vname].dimensions), vname)
+                for vname in definfos
             )
-        )[1]
+        ]
 
         # Now, we construct the dimension maps
         i2omap = {}
-- 
2.43.0


From 3c8668894eabcb714915aa3b412a2f0b47510941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 011/111] fix: xconform no longer imports the imp module,
 removed in Python 3.12

---
 pyconform/cli/xconform.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyconform/cli/xconform.py b/pyconform/cli/xconform.py
index 5dd4f8f..f74a968 100755
--- a/pyconform/cli/xconform.py
+++ b/pyconform/cli/xconform.py
@@ -14,9 +14,11 @@ LICENSE: See the LICENSE.rst file for details
 from argparse import ArgumentParser, ArgumentTypeError
 from collections import OrderedDict
 from glob import glob
-from imp import load_source
+from importlib.machinery import SourceFileLoader
+from importlib.util import module_from_spec, spec_from_loader
 from json import load as json_load
 from os.path import exists
+from sys import modules
 from warnings import simplefilter
 
 from asaptools.partition import Duplicate
@@ -27,6 +29,14 @@ from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc
 from pyconform.flownodes import ValidationWarning
 
 
+def load_source(name, path):
+    loader = SourceFileLoader(name, path)
+    module = module_from_spec(spec_from_loader(name, loader))
+    modules[name] = module
+    loader.exec_module(module)
+    return module
+
+
 def chunk(arg):
     try:
         name, size_str = arg.split(",")
-- 
2.43.0


From f488e5675b2cf8eff883d884dce98c50ebd5fbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 012/111] fix: xconform without input files ends on every rank,
 not only on the manager

---
 pyconform/cli/xconform.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pyconform/cli/xconform.py b/pyconform/cli/xconform.py
index f74a968..babd349 100755
--- a/pyconform/cli/xconform.py
+++ b/pyconform/cli/xconform.py
@@ -182,19 +182,20 @@ def main(argv=None):
     # Sync
     scomm.sync()
 
+    # Gather the list of input files
+    infiles = []
+    for infile in args.infiles:
+        infiles.extend(glob(infile))
+
+    # If no input files, stop here (on all nodes)
+    if len(infiles) == 0:
+        if scomm.is_manager():
+            print("Standardization file validated.")
+        return
+
     # Continue setup only on manager node
     if scomm.is_manager():
 
-        # Gather the list of input files
-        infiles = []
-        for infile in args.infiles:
-            infiles.extend(glob(infile))
-
-        # If no input files, stop here
-        if len(infiles) == 0:
-            print("Standardization file validated.")
-            return
-
         # Parse the input Dataset
         print(
             "Creating input dataset descriptor from {} input files...".format(
-- 
2.43.0


From 56dcc9f7e22983dd2a4915c44eba68ce4a627775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 013/111] fix: variables with the same dimensions in a
 different order are not the same variable

---
 pyconform/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 4c743ae..3b74329 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -318,7 +318,7 @@ class VariableDesc(object):
             return False
         if self.datatype != other.datatype:
             return False
-        if self.dimensions.keys() != other.dimensions.keys():
+        if tuple(self.dimensions) != tuple(other.dimensions):
             return False
         return True
 
-- 
2.43.0


From 15c578ba4ebc805e3267663e1461d9ac807c294a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 014/111] fix: add the bounds and coordinates of bounds and
 coordinates variables to a file too

---
 pyconform/datasets.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 3b74329..4c0cda8 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -944,9 +944,10 @@ class OutputDatasetDesc(DatasetDesc):
                         vlist[mvname] = vdesc
 
             # Loop through the current list of variables and check for any "bounds" or "coordinates" attributes
-            mvnames = set()
-            for vname in vlist:
-                vdesc = vlist[vname]
+            # (including those of the bounds and coordinates variables themselves)
+            tocheck = list(vlist.values())
+            for vdesc in tocheck:
+                mvnames = []
                 if "bounds" in vdesc.attributes:
                     mvname = vdesc.attributes["bounds"]
                     if mvname not in variables:
@@ -956,7 +957,7 @@ class OutputDatasetDesc(DatasetDesc):
                                 "found"
                             ).format(vdesc.name, mvname)
                         )
-                    mvnames.add(mvname)
+                    mvnames.append(mvname)
                 if "coordinates" in vdesc.attributes:
                     for mvname in vdesc.attributes["coordinates"].split():
                         if mvname not in variables:
@@ -966,12 +967,13 @@ class OutputDatasetDesc(DatasetDesc):
                                     "found"
                                 ).format(vdesc.name, mvname)
                             )
-                        mvnames.add(mvname)
+                        mvnames.append(mvname)
 
-            # Add the bounds and coordinates to the list of variables
-            for mvname in mvnames:
-                if mvname not in vlist:
-                    vlist[mvname] = variables[mvname]
+                # Add the bounds and coordinates to the list of variables
+                for mvname in mvnames:
+                    if mvname not in vlist:
+                        vlist[mvname] = variables[mvname]
+                        tocheck.append(variables[mvname])
 
             # Create the file descriptor
             fdict["variables"] = [vlist[vname] for vname in vlist]
-- 
2.43.0


From 03b84d7d8fb7d8f606fbc5a9b01597dc999a6924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 015/111] fix: join() of a slice with a negative integer, and
 of an empty slice with an integer

---
 pyconform/indexing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/indexing.py b/pyconform/indexing.py
index 843c71c..d30f4d8 100644
--- a/pyconform/indexing.py
+++ b/pyconform/indexing.py
@@ -139,7 +139,7 @@ def join(shape0, index1, index2):
         if isinstance(i1, slice):
             i2 = idx2_l.pop(0)
             start1, stop1, step1 = i1.indices(l0)
-            l1 = (abs(stop1 - start1) - 1) // abs(step1) + 1
+            l1 = len(range(start1, stop1, step1))
             if isinstance(i2, slice):
                 if (stop1 - start1) * step1 > 0:
                     start2, stop2, step2 = i2.indices(l1)
@@ -157,7 +157,7 @@ def join(shape0, index1, index2):
             else:
                 if i2 < -l1 or i2 >= l1:
                     raise IndexError("Second index out of range in array")
-                idx12.append(start1 + i2 * step1)
+                idx12.append(start1 + (i2 + l1 if i2 < 0 else i2) * step1)
         else:
             if i1 < -l0 or i1 >= l0:
                 raise IndexError("First index out of range in array")
-- 
2.43.0


From 65b4dfa96cfc0c78741a6c579799cfde1de7766c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 016/111] fix: MIP table axes are found by dimension name (str,
 not bytes)

---
 pyconform/miptableparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index 09895db..3cc8c29 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -249,7 +249,7 @@ class ParseExcel(object):
                         variables[vn]["coordinates"] = (
                             variables[vn]["dimensions"].strip().replace(" ", "|")
                         )
-                        dims = variables[vn]["dimensions"].encode("utf-8").split()
+                        dims = variables[vn]["dimensions"].split()
                         for dim in dims:
                             if dim not in axes.keys():
                                 axes[dim] = {}
@@ -326,7 +326,7 @@ class ParseCmorTable(object):
                 )
                 variables[var]["frequency"] = mt["Header"]["frequency"]
                 variables[var]["coordinates"] = v["dimensions"].replace(" ", "|")
-                dims = v["dimensions"].encode("utf-8").split()
+                dims = v["dimensions"].split()
                 for dim in dims:
                     if dim not in axes.keys() and dim in mt["axis_entry"].keys():
                         axes[dim] = mt["axis_entry"][dim]
-- 
2.43.0


From f1b920ef744babf6f2498434b0994e5387a654c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 017/111] fix: read all variables of every CMOR table, not
 those of the first table

---
 pyconform/miptableparser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index 3cc8c29..e169eb1 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -311,12 +311,12 @@ class ParseCmorTable(object):
             with open(t) as f:
                 mt = json.load(f)
 
-            if len(v_list) == 0:
-                v_list = list(mt["variable_entry"].keys())
+            # Without a user-supplied list, take all of the variables of each table
+            names = v_list if len(v_list) > 0 else list(mt["variable_entry"].keys())
 
             variables = {}
             axes = {}
-            for var in v_list:
+            for var in names:
                 v = mt["variable_entry"][var]
                 variables[var] = v
                 variables[var]["variable_id"] = var
-- 
2.43.0


From 6cc0541a3776093277d2d041d85ab1a3d4d12801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 018/111] fix: mapdates handles time values that are not whole
 days

---
 pyconform/mapdates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 01f7c84..2f0060c 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -84,8 +84,8 @@ def __get_time_info__(f, io):
     #                                          calendar=att['calendar']))).timetuple())
     # tn = (parser.parse(str(cf_units.num2date(dn, att['units'],
     #                                          calendar=att['calendar']))).timetuple())
-    date_info["t0"] = cal_unit.convert(d0, stand_cal)
-    date_info["tn"] = cal_unit.convert(dn, stand_cal)
+    date_info["t0"] = cal_unit.convert(float(d0), stand_cal)
+    date_info["tn"] = cal_unit.convert(float(dn), stand_cal)
     date_info["cnt"] = j
     average = (date_info["t0"] + date_info["tn"]) / 2
     date_info["units"] = att["units"]
-- 
2.43.0


From dcdd27046b4d55e24f38abccdf35dda7e703435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 019/111] fix: mapdates detects gaps of whole years in monthly
 data

---
 pyconform/mapdates.py | 90 +++++++++++++++----------------------------
 1 file changed, 32 insertions(+), 58 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 2f0060c..cad34d0 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -106,6 +106,14 @@ def __get_time_info__(f, io):
     return average, date_info
 
 
+def __month_number__(time, units, calendar):
+    """
+    Returns the number of the month (counted over all years) in which a time falls.
+    """
+    date = cf_units.num2date(time, units, calendar=calendar)
+    return date.year * 12 + date.month
+
+
 def __check_date_alignment__(keys, date_info):
     """
     Evaluates the dates between files to verify that
@@ -120,50 +128,35 @@ def __check_date_alignment__(keys, date_info):
     t_step = date_info[keys[0]]["t_step"]
 
     if date_info[keys[0]]["t_per"] == "mon":
-        date = parser.parse(
-            str(
-                cf_units.num2date(
-                    date_info[keys[0]]["tn"],
-                    date_info[keys[0]]["units"],
-                    calendar=date_info[keys[0]]["calendar"],
-                )
+        next_val = (
+            __month_number__(
+                date_info[keys[0]]["tn"],
+                date_info[keys[0]]["units"],
+                date_info[keys[0]]["calendar"],
             )
-        ).timetuple()
-        if date[1] == 12:
-            next_val = 1
-        else:
-            next_val = date[1] + 1
-
+            + 1
+        )
     else:
         next_val = prev_last + t_step
 
     for i in range(1, len(keys)):
         if date_info[keys[i]]["t_per"] == "mon":
-            new_date = parser.parse(
-                str(
-                    cf_units.num2date(
-                        date_info[keys[i]]["t0"],
+            new_val = __month_number__(
+                date_info[keys[i]]["t0"],
+                date_info[keys[i]]["units"],
+                date_info[keys[i]]["calendar"],
+            )
+            if next_val == new_val:
+                next_val = (
+                    __month_number__(
+                        date_info[keys[i]]["tn"],
                         date_info[keys[i]]["units"],
-                        calendar=date_info[keys[i]]["calendar"],
+                        date_info[keys[i]]["calendar"],
                     )
+                    + 1
                 )
-            ).timetuple()
-            if next_val == new_date[1]:
-                date = parser.parse(
-                    str(
-                        cf_units.num2date(
-                            date_info[keys[i]]["tn"],
-                            date_info[keys[i]]["units"],
-                            calendar=date_info[keys[i]]["calendar"],
-                        )
-                    )
-                ).timetuple()
-                if date[1] == 12:
-                    next_val = 1
-                else:
-                    next_val = date[1] + 1
             else:
-                print("Disconnect? Expected: ", next_val, " Got: ", new_date[1])
+                print("Disconnect? Expected: ", next_val, " Got: ", new_val)
                 return 1
         else:
             if next_val == date_info[keys[i]]["t0"]:
@@ -202,36 +195,17 @@ def __check_date_alignment_in_file__(date):
     # requires looking into the month length array to get correct day #'s
     # between slices.
     if t_per == "mon":
-        if t_per == "mon":
-            date1 = parser.parse(
-                str(cf_units.num2date(t[0], date["units"], calendar=date["calendar"]))
-            ).timetuple()
-            if date1[1] == 12:
-                next_val = 1
-            else:
-                next_val = date1[1] + 1
+        next_val = __month_number__(t[0], date["units"], date["calendar"]) + 1
         for i in range(1, len(t)):
-            new_date = parser.parse(
-                str(cf_units.num2date(t[i], date["units"], calendar=date["calendar"]))
-            ).timetuple()
-            if next_val == new_date[1]:
-                date1 = parser.parse(
-                    str(
-                        cf_units.num2date(
-                            t[i], date["units"], calendar=date["calendar"]
-                        )
-                    )
-                ).timetuple()
-                if date1[1] == 12:
-                    next_val = 1
-                else:
-                    next_val = date1[1] + 1
+            new_val = __month_number__(t[i], date["units"], date["calendar"])
+            if next_val == new_val:
+                next_val = new_val + 1
             else:
                 print(
                     "Disconnect? Expected: ",
                     next_val,
                     " Got: ",
-                    new_date[1],
+                    new_val,
                     " around time step: ",
                     i,
                 )
-- 
2.43.0


From 197a176c70a3c8dd18f675740c7d7316a20074d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 020/111] fix: mapdates compares files in the units to which
 their dates were converted

---
 pyconform/mapdates.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index cad34d0..3e4a961 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -35,7 +35,8 @@ def __get_time_info__(f, io):
     """
     date_info = {}
     _tc, _dim, att = io.get_var_info(f, "time")
-    stand_cal = cf_units.Unit("days since 1-1-1 0:0:0", calendar=att["calendar"])
+    stand_units = "days since 1-1-1 0:0:0"
+    stand_cal = cf_units.Unit(stand_units, calendar=att["calendar"])
     cal_unit = cf_units.Unit(att["units"], calendar=att["calendar"])
     if "bounds" in att.keys():
         # print 'Using bounds'
@@ -79,6 +80,9 @@ def __get_time_info__(f, io):
         t_per = "UNKNOWN"
     date_info["t_per"] = t_per
     date_info["t_step"] = t_step
+    date_info["t_step_days"] = cal_unit.convert(float(d2), stand_cal) - (
+        cal_unit.convert(float(d1), stand_cal)
+    )
     # Get first and last dates
     # t0 = (parser.parse(str(cf_units.num2date(d0, att['units'],
     #                                          calendar=att['calendar']))).timetuple())
@@ -86,6 +90,7 @@ def __get_time_info__(f, io):
     #                                          calendar=att['calendar']))).timetuple())
     date_info["t0"] = cal_unit.convert(float(d0), stand_cal)
     date_info["tn"] = cal_unit.convert(float(dn), stand_cal)
+    date_info["stand_units"] = stand_units
     date_info["cnt"] = j
     average = (date_info["t0"] + date_info["tn"]) / 2
     date_info["units"] = att["units"]
@@ -125,13 +130,13 @@ def __check_date_alignment__(keys, date_info):
             first/last step(t0 and tn), slice counts(cnt).
     """
     prev_last = date_info[keys[0]]["tn"]
-    t_step = date_info[keys[0]]["t_step"]
+    t_step = date_info[keys[0]]["t_step_days"]
 
     if date_info[keys[0]]["t_per"] == "mon":
         next_val = (
             __month_number__(
                 date_info[keys[0]]["tn"],
-                date_info[keys[0]]["units"],
+                date_info[keys[0]]["stand_units"],
                 date_info[keys[0]]["calendar"],
             )
             + 1
@@ -143,14 +148,14 @@ def __check_date_alignment__(keys, date_info):
         if date_info[keys[i]]["t_per"] == "mon":
             new_val = __month_number__(
                 date_info[keys[i]]["t0"],
-                date_info[keys[i]]["units"],
+                date_info[keys[i]]["stand_units"],
                 date_info[keys[i]]["calendar"],
             )
             if next_val == new_val:
                 next_val = (
                     __month_number__(
                         date_info[keys[i]]["tn"],
-                        date_info[keys[i]]["units"],
+                        date_info[keys[i]]["stand_units"],
                         date_info[keys[i]]["calendar"],
                     )
                     + 1
-- 
2.43.0


From 681d8e2f0c6c8ab17c06e2d4a234c41de992351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 021/111] fix: mapdates does not lose a file that has the same
 average date as another

---
 pyconform/mapdates.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 3e4a961..8a5c920 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -256,12 +256,13 @@ def get_files_in_order(files, alignment=True):
     counts = []
     file_list = []
 
-    for fl in files:
+    for i, fl in enumerate(files):
         fn = os.path.basename(fl)
         f = ncdf.open_file(fl)
         ave, date = __get_time_info__(f, ncdf)
         date["fn"] = fn
-        date_info[ave] = date
+        # Files can have the same average
+        date_info[(ave, i)] = date
         if alignment:
             error = __check_date_alignment_in_file__(date)
             if error != 0:
-- 
2.43.0


From 590c2b5df6a7babc561808b07a7a53bd81b760dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 022/111] fix: climIO's netCDF4 port copies the attributes of a
 variable, and accepts a compression level

---
 pyconform/climIO.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index e0a0697..e65ddd6 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -401,7 +401,7 @@ class NetCDF4PyPort(object):
         if "netcdf4c" in ncformat:
             Format = "NETCDF4_CLASSIC"
             if ncformat[-1].isdigit():
-                self.compressionLevel = ncformat[-1]
+                self.compressionLevel = int(ncformat[-1])
         elif ncformat == "netcdf4":
             Format = "NETCDF4_CLASSIC"
         elif ncformat == "netcdf":
@@ -454,11 +454,15 @@ class NetCDF4PyPort(object):
                 tuple(dims),
                 zlib=True,
                 complevel=int(self.compressionLevel),
+                fill_value=attrib.get("_FillValue"),
             )
         else:
-            var = new_file.createVariable(var_name, typeCode, tuple(dims))
-        for att in attrib:
-            var.setncattr(var_name, att)
+            var = new_file.createVariable(
+                var_name, typeCode, tuple(dims), fill_value=attrib.get("_FillValue")
+            )
+        for k, v in attrib.items():
+            if k != "_FillValue":
+                var.setncattr(k, v)
         return var
 
     def get_var_info(self, template_file, var_name):
-- 
2.43.0


From 2a9fc7aa29217d10bdd4bfa6e8247b6db8ce7682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 023/111] fix: climIO's netCDF4 port writes data with the
 precision of the variable

---
 pyconform/climIO.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index e65ddd6..e3b2d06 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -564,12 +564,7 @@ class NetCDF4PyPort(object):
             var_name (str): The name of the variable.
             index (int): Optional.  The time index to write.  Default time index is set to 0.
         """
-        import numpy as np
-
-        if all_vars[var_name].datatype == "i":
-            t = np.long
-        else:
-            t = np.float32
+        t = all_vars[var_name].dtype
 
         if not values.shape:
             if index == -99:
-- 
2.43.0


From 5623c094602ecf619c88edbb6b09eae8c5cc2504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 024/111] fix: reject a data flow that maps one input dimension
 to two output dimensions

---
 pyconform/dataflow.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index acd5231..75ec4e0 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -218,6 +218,12 @@ class DataFlow(object):
             if len(unmapped_out) == 0:
                 continue
             for out_dim, inp_dim in zip(unmapped_out, unmapped_inp):
+                if inp_dim in i2omap:
+                    err_msg = (
+                        "Cannot map dimension {!r} to dimension {!r} in output variable "
+                        "{}: already mapped to dimension {!r}"
+                    ).format(inp_dim, out_dim, vname, i2omap[inp_dim])
+                    raise ValueError(err_msg)
                 o2imap[out_dim] = inp_dim
                 i2omap[inp_dim] = out_dim
 
-- 
2.43.0


From 5bdc021db0e529e06fdbdf740df7d973836c61d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 025/111] fix: vardeps reads definitions that contain an equals
 sign

---
 pyconform/cli/vardeps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/vardeps.py b/pyconform/cli/vardeps.py
index ede2fe6..8984625 100755
--- a/pyconform/cli/vardeps.py
+++ b/pyconform/cli/vardeps.py
@@ -117,7 +117,7 @@ def main(argv=None):
                 line = line.strip()
                 if "#" in line:
                     line = line.split("#")[0].strip()
-                split = line.split("=")
+                split = line.split("=", 1)
                 if len(split) == 2:
                     vardefs[split[0].strip()] = split[1].strip()
                 elif len(line) > 0:
-- 
2.43.0


From ba063b25198ceb8a399eb4f034afd9d298a18449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 026/111] fix: vardeps lists dependencies without a realm, and
 specifications without dependencies

---
 pyconform/cli/vardeps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/cli/vardeps.py b/pyconform/cli/vardeps.py
index 8984625..4743f42 100755
--- a/pyconform/cli/vardeps.py
+++ b/pyconform/cli/vardeps.py
@@ -82,7 +82,7 @@ def print_columnar(x, textwidth=10000000, indent=0, header=""):
         indent = len(hrstrp)
     else:
         hrstrp = "{: <{indent}}".format(header, indent=indent)
-    Lmax = max(len(str(i)) for i in x)
+    Lmax = max([len(str(i)) for i in x] + [0])
     Nc = (textwidth - indent + 3) // (Lmax + 3)
     Nr = len(x) // Nc + int(len(x) % Nc > 0)
     A = [x[i::Nr] for i in range(Nr)]
@@ -152,7 +152,7 @@ def main(argv=None):
                 vdeps = variable_search(parsing.parse_definition(vardefs[var]))
                 alldeps.update(vdeps)
                 fheader = (
-                    " [{},{}]".format(varfreqs[var], varrealm[var])
+                    " [{},{}]".format(varfreqs[var], varrealm.get(var, ""))
                     if var in varfreqs
                     else ""
                 )
-- 
2.43.0


From ea7d2eb095e62c385cdf812b30867870003a95bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 027/111] fix: monthtoyear_noleap functions use integer
 division for array sizes

---
 pyconform/modules/commonfunctions.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 7edc5f1..31e2a00 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -224,12 +224,12 @@ class monthtoyear_noleapFunction(Function):
 
         if len(data.dimensions) == 3:
             a = np.ma.zeros(
-                (data.data.shape[0] / 12, data.data.shape[1], data.data.shape[2])
+                (data.data.shape[0] // 12, data.data.shape[1], data.data.shape[2])
             )
         elif len(data.dimensions) == 4:
             a = np.ma.zeros(
                 (
-                    data.data.shape[0] / 12,
+                    data.data.shape[0] // 12,
                     data.data.shape[1],
                     data.data.shape[2],
                     data.data.shape[3],
@@ -242,7 +242,7 @@ class monthtoyear_noleapFunction(Function):
 
         days_in_month = np.array([31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31])
 
-        for i in range(time / 12):
+        for i in range(time // 12):
             start = i * 12
             a[i, ...] = np.ma.average(
                 dataD[start : start + 12, ...], axis=0, weights=days_in_month
@@ -293,9 +293,9 @@ class monthtoyear_noleap_timeFunction(Function):
 
         time_bnds = p_time_bnds.data
 
-        b = np.zeros((time_bnds.shape[0] / 12))
+        b = np.zeros((time_bnds.shape[0] // 12))
         time = time_bnds.shape[0]
-        for i in range(time / 12):
+        for i in range(time // 12):
             start = i * 12
             end = (i * 12) + 11
             b[i] = ((time_bnds[start][0] + time_bnds[end][1]) / 2) - 365
@@ -332,9 +332,9 @@ class monthtoyear_noleap_timebndsFunction(Function):
             )
 
         time_bound = p_time_bound.data
-        b = np.zeros((time_bound.shape[0] / 12, 2))
+        b = np.zeros((time_bound.shape[0] // 12, 2))
 
-        for i in range(len(time_bound) / 12):
+        for i in range(len(time_bound) // 12):
             b[i][0] = time_bound[i * 12][0] - 365
             b[i][1] = time_bound[(i * 12) + 11][1] - 365
         new_name = "monthtoyear_noleap_timebnds({})".format(p_time_bound.name)
-- 
2.43.0


From 0430a4317d3cf7c03acf6c1f95d7f78ee95ef909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 028/111] fix: hemisphere() uses integer indices

---
 pyconform/modules/commonfunctions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 31e2a00..7bd7bbf 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1050,21 +1050,21 @@ class hemisphereFunction(Function):
         # dim0?
         if dim in p_data.dimensions[0]:
             if ">" in dr:
-                return p_data[(data.shape[0] / 2) : data.shape[0], :, :]
+                return p_data[(data.shape[0] // 2) : data.shape[0], :, :]
             elif "<" in dr:
-                return p_data[0 : (data.shape[0] / 2), :, :]
+                return p_data[0 : (data.shape[0] // 2), :, :]
         # dim1?
         if dim in p_data.dimensions[1]:
             if ">" in dr:
-                return p_data[:, (data.shape[1] / 2) : data.shape[1], :]
+                return p_data[:, (data.shape[1] // 2) : data.shape[1], :]
             elif "<" in dr:
-                return p_data[:, 0 : (data.shape[1] / 2), :]
+                return p_data[:, 0 : (data.shape[1] // 2), :]
         # dim2?
         if dim in p_data.dimensions[2]:
             if ">" in dr:
-                return p_data[:, :, (data.shape[2] / 2) : data.shape[2]]
+                return p_data[:, :, (data.shape[2] // 2) : data.shape[2]]
             elif "<" in dr:
-                return p_data[:, :, 0 : (data.shape[2] / 2)]
+                return p_data[:, :, 0 : (data.shape[2] // 2)]
 
 
 class cice_whereFunction(Function):
-- 
2.43.0


From 54a2f3fe5fa5949c43e5539ad723557a9635f64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 029/111] fix: a unit conversion does not truncate integer data

---
 pyconform/physarray.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index db7b7df..d293b49 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -206,8 +206,12 @@ class PhysArray(numpy.ma.MaskedArray):
         u1 = units1 if isinstance(units1, Unit) else Unit(units1)
         u2 = units2 if isinstance(units2, Unit) else Unit(units2)
         if isinstance(obj, PhysArray):
+            # Keep the precision of floating-point data, but never truncate integers
+            isfloat = issubclass(obj.dtype.type, numpy.floating)
             new_array = numpy.ma.MaskedArray(
-                units1.convert(obj.data, units2), mask=obj.mask, dtype=obj.dtype
+                units1.convert(obj.data, units2),
+                mask=obj.mask,
+                dtype=obj.dtype if isfloat else None,
             )
             u1_str = "{}".format(u1) + (
                 "|{}".format(u1.calendar) if u1.calendar else ""
-- 
2.43.0


From 324be65664082e83147c499b9af49a8be05d4b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 030/111] fix: a request along an output dimension is not
 applied to an input dimension of that name

---
 pyconform/flownodes.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 5146738..1681e11 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -382,7 +382,13 @@ class MapNode(FlowNode):
             inp_index = None
 
         elif isinstance(index, dict):
-            inp_index = dict((self._o2imap.get(d, d), i) for d, i in index.items())
+            # Skip output dimensions that happen to have the name of an input
+            # dimension that is mapped to another output dimension
+            inp_index = dict(
+                (self._o2imap.get(d, d), i)
+                for d, i in index.items()
+                if d in self._o2imap or d not in self._i2omap
+            )
 
         else:
             out_index = index_tuple(index, len(inp_dims))
-- 
2.43.0


From ace4eb9d199fbed7c2a23d45b7acfc0c887c5982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 031/111] fix: apply the index of a definition that refers to a
 variable given by data

---
 pyconform/dataflow.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index 75ec4e0..83e7c95 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -134,12 +134,13 @@ class DataFlow(object):
     def _construct_flow_(self, obj, datnodes={}):
         if isinstance(obj, VarType):
             vname = obj.key
+            indices = numpy.index_exp[tuple(obj.ind)] if len(obj.ind) > 0 else ()
             if vname in self._ids.variables:
-                indices = numpy.index_exp[tuple(obj.ind)] if len(obj.ind) > 0 else ()
                 return ReadNode(self._ids.variables[vname], index=indices)
 
             elif vname in datnodes:
-                return datnodes[vname]
+                datnode = datnodes[vname]
+                return datnode if len(obj.ind) == 0 else DataNode(datnode[indices])
 
             else:
                 raise VariableNotFoundError(
-- 
2.43.0


From c548e7451c9ceb8e617e5173ee5ffd6cf011b36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 032/111] fix: an empty chunk of data is refused rather than
 silently not written

---
 pyconform/flownodes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 1681e11..b35e20f 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -1014,6 +1014,15 @@ class WriteNode(FlowNode):
                     vdata = vnode[rchunk]
                     if isinstance(vdata, CharArray):
                         vdata = vdata.stretch(ncvar.shape[-1])
+                    if vdata.size == 0 and all(
+                        len(range(*chunk[d].indices(gdims[d]))) > 0
+                        for d in vdesc.dimensions
+                    ):
+                        raise IndexError(
+                            "No data for chunk {} of variable {!r} in file {!r}".format(
+                                wchunk, vname, self.label
+                            )
+                        )
                     ncvar[wchunk] = vdata
                     vchunks[vname].add(repr(wchunk))
 
-- 
2.43.0


From 946144ff145eba8185d058d4260d1db51e701c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 033/111] fix: refuse chunk sizes that are not positive

---
 pyconform/dataflow.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index 83e7c95..6cf32a0 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -363,6 +363,12 @@ class DataFlow(object):
                         odname, odsize
                     )
                 )
+            if odsize < 1:
+                raise ValueError(
+                    ("Chunk size invalid for output dimension {!r}: " "{}").format(
+                        odname, odsize
+                    )
+                )
 
         # Check that we are not chunking over any "sum-like" dimensions
         sumlike_chunk_dims = sorted(d for d in chunks if d in self._sumlike_dimensions)
-- 
2.43.0


From d7ea6e917f1310d7abe805857177a3aa8660065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 034/111] fix: data that does not have the lengths of its
 output dimensions is refused, not repeated

---
 pyconform/flownodes.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index b35e20f..0b95291 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -1014,14 +1014,19 @@ class WriteNode(FlowNode):
                     vdata = vnode[rchunk]
                     if isinstance(vdata, CharArray):
                         vdata = vdata.stretch(ncvar.shape[-1])
-                    if vdata.size == 0 and all(
-                        len(range(*chunk[d].indices(gdims[d]))) > 0
+                    vshape = tuple(
+                        len(range(*chunk[d].indices(gdims[d])))
                         for d in vdesc.dimensions
+                    )
+                    if any(
+                        n != m and not (m > 0 and vdesc.dimensions[d].unlimited)
+                        for d, n, m in zip(vdesc.dimensions, vshape, vdata.shape)
                     ):
                         raise IndexError(
-                            "No data for chunk {} of variable {!r} in file {!r}".format(
-                                wchunk, vname, self.label
-                            )
+                            (
+                                "Data of shape {} cannot be written to chunk {} of "
+                                "variable {!r} in file {!r}"
+                            ).format(vdata.shape, wchunk, vname, self.label)
                         )
                     ncvar[wchunk] = vdata
                     vchunks[vname].add(repr(wchunk))
-- 
2.43.0


From cd9998249cae5e006d417e2eb038aa0c7cbd6a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 035/111] fix: data is cast to the declared type after its
 units are converted, so that no conversion is truncated

---
 pyconform/flownodes.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 0b95291..21cac35 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -497,20 +497,6 @@ class ValidateNode(FlowNode):
         # Get the data to validate
         indata = self.inputs[0][index]
 
-        # Check datatype, and cast as necessary
-        if self._vdesc.dtype is None:
-            odtype = indata.dtype
-        else:
-            odtype = self._vdesc.dtype
-        if numpy.can_cast(indata.dtype, odtype, casting="same_kind"):
-            indata = indata.astype(odtype)
-        else:
-            raise TypeError(
-                ("Cannot cast datatype {!s} to {!s} in ValidateNode " "{!r}").format(
-                    indata.dtype, odtype, self.label
-                )
-            )
-
         # Check that units match as expected, otherwise convert
         if "units" in self.attributes:
             ounits = Unit(
@@ -528,6 +514,20 @@ class ValidateNode(FlowNode):
                         )
                         raise err.__class__(err_msg)
 
+        # Check datatype, and cast as necessary
+        if self._vdesc.dtype is None:
+            odtype = indata.dtype
+        else:
+            odtype = self._vdesc.dtype
+        if numpy.can_cast(indata.dtype, odtype, casting="same_kind"):
+            indata = indata.astype(odtype)
+        else:
+            raise TypeError(
+                ("Cannot cast datatype {!s} to {!s} in ValidateNode " "{!r}").format(
+                    indata.dtype, odtype, self.label
+                )
+            )
+
         # Check that the dimensions match as expected
         if self.dimensions != indata.dimensions:
             indata = indata.transpose(self.dimensions)
-- 
2.43.0


From ad5529d2f9cdd70324a8c8ac04e5a41c2b2150ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 036/111] fix: only an unlimited dimension that is written in
 one piece takes data of another length

---
 pyconform/flownodes.py | 3 ++-
 pyconform/functions.py | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 21cac35..e2d5970 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -1019,7 +1019,8 @@ class WriteNode(FlowNode):
                         for d in vdesc.dimensions
                     )
                     if any(
-                        n != m and not (m > 0 and vdesc.dimensions[d].unlimited)
+                        n != m
+                        and not (m > 0 and n == gdims[d] and vdesc.dimensions[d].unlimited)
                         for d, n, m in zip(vdesc.dimensions, vshape, vdata.shape)
                     ):
                         raise IndexError(
diff --git a/pyconform/functions.py b/pyconform/functions.py
index b2a1bd7..9e70563 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -502,16 +502,16 @@ class LimitFunction(Function):
         above_str = ""
         if above_val is not None:
             above_ind = where(data > above_val)
-            if len(above_ind) > 0:
+            if len(above_ind) > 0 and len(above_ind[0]) > 0:
                 data[above_ind] = above_val
-                above_str = ", above={}".format(above_val)
+            above_str = ", above={}".format(above_val)
 
         below_str = ""
         if below_val is not None:
             below_ind = where(data < below_val)
-            if len(below_ind) > 0:
+            if len(below_ind) > 0 and len(below_ind[0]) > 0:
                 data[below_ind] = below_val
-                below_str = ", below={}".format(below_val)
+            below_str = ", below={}".format(below_val)
 
         new_name = "limit({}{}{})".format(data.name, above_str, below_str)
         return PhysArray(data, name=new_name)
-- 
2.43.0


From 5e5406e633d6e89c27dbb01a475ea8da63b03199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 037/111] fix: limit() with limits that are not integers does
 not truncate them for integer data

---
 pyconform/functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 9e70563..d20212b 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -498,6 +498,10 @@ class LimitFunction(Function):
         # Work on a copy, because the data can be owned by another node
         if isinstance(data, PhysArray):
             data = data.copy()
+            if data.dtype.kind in "iu" and not all(
+                float(v).is_integer() for v in (above_val, below_val) if v is not None
+            ):
+                data = data.astype(float)
 
         above_str = ""
         if above_val is not None:
-- 
2.43.0


From bf2e4542e662da86ad574e352a38c3e56b0aa4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 038/111] fix: a single item of a PhysArray keeps its name,
 units and positive direction

---
 pyconform/physarray.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index d293b49..3541e2c 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -375,8 +375,18 @@ class PhysArray(numpy.ma.MaskedArray):
                 d for i, d in zip(idx, self.dimensions) if isinstance(i, slice)
             )
             if dimensions != self.dimensions:
+                item = super(PhysArray, self).__getitem__(idx)
+                if isinstance(item, PhysArray):
+                    return PhysArray(item, dimensions=dimensions)
+                # A single item of the array has no metadata of its own
+                if item is numpy.ma.masked:
+                    item = numpy.ma.masked_all((), dtype=self.dtype)
                 return PhysArray(
-                    super(PhysArray, self).__getitem__(idx), dimensions=dimensions
+                    item,
+                    name=self.name,
+                    units=self.units,
+                    dimensions=dimensions,
+                    positive=self.positive,
                 )
             else:
                 return super(PhysArray, self).__getitem__(idx)
-- 
2.43.0


From bd23730f35be6847cc6bf4bc4b48c86dec26a645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 039/111] fix: data is not converted to the units that were
 inherited from it

---
 pyconform/flownodes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index e2d5970..ba56d8c 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -502,7 +502,12 @@ class ValidateNode(FlowNode):
             ounits = Unit(
                 self.attributes["units"], calendar=self.attributes.get("calendar", None)
             )
-            if ounits != indata.units:
+            # Inherited units are known by their (rounded) string
+            inherited = (
+                str(ounits) == str(indata.units)
+                and ounits.calendar == indata.units.calendar
+            )
+            if ounits != indata.units and not inherited:
                 if index is None:
                     indata.units = ounits
                 else:
-- 
2.43.0


From 07b9109265310b1ebaace283a2835a11b09e3b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 040/111] fix: flipping the positive direction keeps the units
 (the offset of temperatures)

---
 pyconform/physarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index 3541e2c..5f4e244 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -334,8 +334,9 @@ class PhysArray(numpy.ma.MaskedArray):
         Does nothing if the positive attribute is not set (i.e., equals None)
         """
         if self.positive is not None:
-            nm = self.name
+            nm, units = self.name, self.units
             self *= -1
+            self.units = units
             self.positive = "up" if self.positive == "down" else "down"
             self.name = "{}({})".format(self.positive, nm)
         return self
-- 
2.43.0


From 91b6643b11d3cb32754e375c29459464b3199922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 041/111] fix: the negation of a single masked item keeps its
 units, name and positive direction

---
 pyconform/physarray.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index 5f4e244..e86ebf7 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -515,6 +515,19 @@ class PhysArray(numpy.ma.MaskedArray):
         self.name = "({}-{})".format(self.name, other.name)
         return self
 
+    def __neg__(self):
+        result = super(PhysArray, self).__neg__()
+        if result is numpy.ma.masked:
+            # A single masked item has no metadata of its own
+            result = PhysArray(
+                numpy.ma.masked_all((), dtype=self.dtype),
+                name=self.name,
+                units=self.units,
+                dimensions=self.dimensions,
+                positive=self.positive,
+            )
+        return result
+
     def _units_op_(self, val, op):
         sunits = self.units
         try:
-- 
2.43.0


From de8f072314ada0245fb29453423609bf66b21aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 042/111] fix: the mean of a variable without valid data is not
 checked against its limits

---
 pyconform/flownodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index ba56d8c..dc21e0c 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -570,7 +570,10 @@ class ValidateNode(FlowNode):
 
         # Compute mean of the absolute value, if necessary
         if ok_min_mean_abs or ok_max_mean_abs:
-            mean_abs = numpy.mean(numpy.abs(indata))
+            if numpy.ma.count(indata) > 0:
+                mean_abs = numpy.mean(numpy.abs(indata))
+            else:
+                mean_abs = numpy.ma.masked
 
         # Validate minimum mean abs
         if ok_min_mean_abs:
-- 
2.43.0


From 974af5daa2f10b6c1e8321999f09f7f28ec4f7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 043/111] fix: sqrt() of units without a root reports them

---
 pyconform/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index d20212b..e5cb149 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -267,7 +267,7 @@ class SquareRootFunction(Function):
                 units = data_info.units.root(2)
             except:
                 raise UnitsError(
-                    "sqrt: Cannot take square-root of units {!r}".format(data.units)
+                    "sqrt: Cannot take square-root of units {!r}".format(data_info.units)
                 )
             self._units = units
         else:
-- 
2.43.0


From 6f6b02d83a797ecb287c49786758d9c338890c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 044/111] fix: max() of no dimensions is the identity, as min()
 is

---
 pyconform/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index e5cb149..63eca15 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -378,7 +378,7 @@ class MaxFunction(Function):
             data.dimensions.index(d) for d in dimensions if d in data.dimensions
         )
         new_dims = [d for d in data.dimensions if d not in dimensions]
-        new_name = "max({},{})".format(data.name, dimensions[0])
+        new_name = "max({},{})".format(data.name, dimensions)
         if index is None:
             m = np.zeros((0,) * len(new_dims), dtype=data.dtype)
         else:
-- 
2.43.0


From 2ed7df0271803ec7a16de8268b99e3599335646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 045/111] fix: chdims() names the remaining dimensions after an
 integer index

---
 pyconform/functions.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 63eca15..7c77ff3 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -545,11 +545,13 @@ class RenameDimensionsFunction(Function):
 
     def __getitem__(self, index):
         dims = self.arguments[1:]
-        if isinstance(index, dict) and not is_constant(self.arguments[0]):
-            # The index refers to the new dimension names
+        old_dims = new_dims = ()
+        if not is_constant(self.arguments[0]):
             old_dims = self.arguments[0][None].dimensions
             new_dims = dims[: len(old_dims)] + old_dims[len(dims) :]
-            index = {o: index[n] for o, n in zip(old_dims, new_dims) if n in index}
+            if isinstance(index, dict):
+                # The index refers to the new dimension names
+                index = {o: index[n] for o, n in zip(old_dims, new_dims) if n in index}
         data = (
             self.arguments[0]
             if is_constant(self.arguments[0])
@@ -559,7 +561,7 @@ class RenameDimensionsFunction(Function):
             return data
         dim_names = ", ".join([repr(dim) for dim in dims])
         new_name = "chdims({!s}, {!s})".format(getname(data), dim_names)
-        new_dims = list(data.dimensions)
-        dlen = min(len(dims), len(new_dims))
-        new_dims[:dlen] = dims[:dlen]
+        # Dimensions removed by the index do not take a new name
+        renamed = dict(zip(old_dims, new_dims))
+        new_dims = [renamed.get(d, d) for d in data.dimensions]
         return PhysArray(data, name=new_name, dimensions=new_dims)
-- 
2.43.0


From 438654f247c1d4c64a697eee264f02d47bc3e251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 046/111] fix: a MapNode answers requests with integer indices

The dimensions of the answer were those of the whole data, so that a request
with an integer index was refused.
---
 pyconform/flownodes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index dc21e0c..6179a2f 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -405,7 +405,12 @@ class MapNode(FlowNode):
             name = "map({}, from=[{}], to=[{}])".format(
                 inp_info.name, idims_str, odims_str
             )
-        return PhysArray(self.inputs[0][inp_index], name=name, dimensions=out_dims)
+        inp_data = self.inputs[0][inp_index]
+        return PhysArray(
+            inp_data,
+            name=name,
+            dimensions=tuple(self._i2omap.get(d, d) for d in inp_data.dimensions),
+        )
 
 
 class ValidateNode(FlowNode):
-- 
2.43.0


From 5a79b4909aa93e36e384c4fd416f3025b033cdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 047/111] fix: a ValidateNode answers requests for no data

The minimum and maximum of an empty part were computed, which fails.
---
 pyconform/flownodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 6179a2f..02f50e1 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -547,8 +547,8 @@ class ValidateNode(FlowNode):
         if positive is not None and indata.positive != positive:
             indata.flip()
 
-        # Do not validate if index is None (nothing to validate)
-        if index is None:
+        # Do not validate if there is no data (nothing to validate)
+        if index is None or indata.size == 0:
             return indata
 
         # Testing parameters
-- 
2.43.0


From 5ec09c0f36a1ccc5f8d3a948745d67462814167a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:06 +0000
Subject: [PATCH 048/111] fix: printed definitions keep quotes of strings and
 negative bases, so that they parse to the same expression

---
 pyconform/parsing.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pyconform/parsing.py b/pyconform/parsing.py
index f35f720..11e8fcf 100644
--- a/pyconform/parsing.py
+++ b/pyconform/parsing.py
@@ -8,6 +8,7 @@ Copyright 2017-2020, University Corporation for Atmospheric Research
 LICENSE: See the LICENSE.rst file for details
 """
 
+import re
 from collections import namedtuple
 
 from ply import lex, yacc
@@ -57,11 +58,22 @@ def ind_str(index):
         return str(index)
 
 
+def arg_str(arg):
+    if isinstance(arg, str):
+        quote = "'" if re.search(r'(?<!\\)(\\\\)*"', arg) else '"'
+        return quote + arg + quote
+    else:
+        return str(arg)
+
+
 def op_str(self):
     if len(self.args) == 1:
         return "({}{})".format(self.key, self.args[0])
     elif len(self.args) == 2:
-        return "({}{}{})".format(self.args[0], self.key, self.args[1])
+        left, right = (str(a) for a in self.args)
+        if self.key == "**" and left.startswith("-"):
+            left = "({})".format(left)
+        return "({}{}{})".format(left, self.key, right)
 
 
 OpType = namedtuple("OpType", ["key", "args"])
@@ -73,8 +85,8 @@ FuncType.__new__.__defaults__ = (None, [], {})
 FuncType.__str__ = lambda self: "{}({})".format(
     self.key,
     ",".join(
-        [str(a) for a in self.args]
-        + ["{}={}".format(k, self.kwds[k]) for k in self.kwds]
+        [arg_str(a) for a in self.args]
+        + ["{}={}".format(k, arg_str(self.kwds[k])) for k in self.kwds]
     ),
 )
 
-- 
2.43.0


From 1fdca56dae76aba1b8be2d2070b0c641b66c0edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 049/111] fix: a function that inherits from two functions is
 defined once

---
 pyconform/functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 7c77ff3..f81da49 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -215,9 +215,10 @@ __OPERATORS__ = {
 
 
 def _all_subclasses_(cls):
-    return cls.__subclasses__() + [
+    found = cls.__subclasses__() + [
         c for s in cls.__subclasses__() for c in _all_subclasses_(s)
     ]
+    return list(dict.fromkeys(found))
 
 
 def find_function(key):
-- 
2.43.0


From 46349a3d5c6cb22d6f2a874e158023c7b8a1f325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:29 +0000
Subject: [PATCH 050/111] fix: a file left open by a failed execution is not
 finished by the next one

---
 pyconform/flownodes.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 02f50e1..9cb1b3c 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -917,6 +917,19 @@ class WriteNode(FlowNode):
             if exists(tmp_fname):
                 rename(tmp_fname, self.label)
 
+    def _discard_(self):
+        """
+        Discard the file associated with the WriteNode, if it was left open
+        """
+        if self._file is not None:
+            unfinished = self._file
+            self._idims = set()
+            self._file = None
+            try:
+                unfinished.close()
+            except RuntimeError:
+                pass
+
     @staticmethod
     def _chunk_iter_(dsizes, chunks={}):
         if not isinstance(dsizes, OrderedDict):
@@ -992,6 +1005,9 @@ class WriteNode(FlowNode):
             deflate (int): Override the output file deflate level with given value
         """
 
+        # Discard what an earlier execution that failed may have left open
+        self._discard_()
+
         # Open the file and write the header information
         self._open_(deflate=deflate)
 
-- 
2.43.0


From 9ac715349be2a6c719e30e9b5cab0cf191c44793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:43 +0000
Subject: [PATCH 051/111] fix: date ranges in file names follow times that are
 inverted in the file

---
 pyconform/flownodes.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 9cb1b3c..e5b08b9 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -737,6 +737,10 @@ class WriteNode(FlowNode):
             t1 = tnode[0:1]
             t2 = tnode[-1:]
 
+            # The times are in the opposite order in the file, if their dimension is inverted
+            if self._is_inverted_(tuple(self._filedesc.variables[tnode.label].dimensions)):
+                t1, t2 = t2, t1
+
             while "{" in fname:
                 beg = fname.find("{")
                 end = fname.find("}", beg)
@@ -763,6 +767,24 @@ class WriteNode(FlowNode):
 
         return fname
 
+    def _is_inverted_(self, dims):
+        """
+        Determine if a coordinate along given dimensions is inverted when written to the file
+
+        Parameters:
+            dims (tuple): Names of the dimensions
+
+        Returns:
+            bool: True, if the direction of the coordinate is not the one requested
+        """
+        for vnode in self.inputs:
+            vdims = tuple(self._filedesc.variables[vnode.label].dimensions)
+            if len(vdims) == 1 and vdims == dims and "axis" in vnode.attributes:
+                if "direction" in vnode.attributes:
+                    if WriteNode._direction_(vnode[:]) != vnode.attributes["direction"]:
+                        return True
+        return False
+
     def enable_history(self):
         """
         Enable writing of the history attribute to the file
-- 
2.43.0


From f1bf343811b141420eb61122f4c44d5e7af2661a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:18 +0000
Subject: [PATCH 052/111] fix: the last step of a file with time bounds begins
 at its own lower bound

---
 pyconform/mapdates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 8a5c920..610a71d 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -45,7 +45,7 @@ def __get_time_info__(f, io):
         d0 = tb[0, 0]
         d1 = tb[1, 0]
         d2 = tb[2, 0]
-        dn = tb[j - 1, 1] - 1
+        dn = tb[j - 1, 0]
         time = tb[:, 0]
     else:
         # print 'Using time'
-- 
2.43.0


From d302d878d0776dd1c7a9442ca295ec414d974358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:18 +0000
Subject: [PATCH 053/111] fix: mapdates reads dates of all calendars, whatever
 their fractions of seconds

---
 pyconform/mapdates.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 610a71d..9da6670 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -11,7 +11,6 @@ LICENSE: See the LICENSE.rst file for details
 import os
 
 import cf_units
-from dateutil import parser
 
 from . import climIO
 
@@ -59,12 +58,8 @@ def __get_time_info__(f, io):
     date_info["time"] = time
 
     # Get second and third time bounds to figure out the time period
-    t1 = parser.parse(
-        str(cf_units.num2date(d1, att["units"], calendar=att["calendar"]))
-    ).timetuple()
-    t2 = parser.parse(
-        str(cf_units.num2date(d2, att["units"], calendar=att["calendar"]))
-    ).timetuple()
+    t1 = cf_units.num2date(d1, att["units"], calendar=att["calendar"]).timetuple()
+    t2 = cf_units.num2date(d2, att["units"], calendar=att["calendar"]).timetuple()
     # Get time difference between the steps
     t_step = d2 - d1
     h = t2[3] - t1[3]
-- 
2.43.0


From 6b750df05a7218b282ac33939431d86e735b88d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:18 +0000
Subject: [PATCH 054/111] fix: mapdates compares times that are no binary
 fractions up to rounding

---
 pyconform/mapdates.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 9da6670..daf63b1 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -114,6 +114,13 @@ def __month_number__(time, units, calendar):
     return date.year * 12 + date.month
 
 
+def __is_close__(t1, t2, t_step):
+    """
+    Returns whether two times are the same, but for the rounding of their floating-point values.
+    """
+    return abs(t1 - t2) <= 1e-3 * abs(t_step)
+
+
 def __check_date_alignment__(keys, date_info):
     """
     Evaluates the dates between files to verify that
@@ -159,7 +166,7 @@ def __check_date_alignment__(keys, date_info):
                 print("Disconnect? Expected: ", next_val, " Got: ", new_val)
                 return 1
         else:
-            if next_val == date_info[keys[i]]["t0"]:
+            if __is_close__(next_val, date_info[keys[i]]["t0"], t_step):
                 # print "Looks
                 # okay",date_info[keys[i]]['t0'],'-',date_info[keys[i]]['tn']
                 prev_last = date_info[keys[i]]["tn"]
@@ -214,7 +221,7 @@ def __check_date_alignment_in_file__(date):
     # slices.
     else:
         for i in range(1, len(t)):
-            if prev_time + t_step == t[i]:
+            if __is_close__(prev_time + t_step, t[i], t_step):
                 # Time step looks okay
                 prev_time = t[i]
             else:
-- 
2.43.0


From 19af98848fd22a1b1e17cc9b020d0d76c0bbb14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 055/111] fix: mapdates accepts yearly data with leap years

---
 pyconform/mapdates.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index daf63b1..c8db555 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -106,11 +106,13 @@ def __get_time_info__(f, io):
     return average, date_info
 
 
-def __month_number__(time, units, calendar):
+def __period_number__(t_per, time, units, calendar):
     """
-    Returns the number of the month (counted over all years) in which a time falls.
+    Returns the number of the year or of the month (counted over all years) in which a time falls.
     """
     date = cf_units.num2date(time, units, calendar=calendar)
+    if t_per == "year":
+        return date.year
     return date.year * 12 + date.month
 
 
@@ -134,9 +136,10 @@ def __check_date_alignment__(keys, date_info):
     prev_last = date_info[keys[0]]["tn"]
     t_step = date_info[keys[0]]["t_step_days"]
 
-    if date_info[keys[0]]["t_per"] == "mon":
+    if date_info[keys[0]]["t_per"] in ("mon", "year"):
         next_val = (
-            __month_number__(
+            __period_number__(
+                date_info[keys[0]]["t_per"],
                 date_info[keys[0]]["tn"],
                 date_info[keys[0]]["stand_units"],
                 date_info[keys[0]]["calendar"],
@@ -147,15 +150,17 @@ def __check_date_alignment__(keys, date_info):
         next_val = prev_last + t_step
 
     for i in range(1, len(keys)):
-        if date_info[keys[i]]["t_per"] == "mon":
-            new_val = __month_number__(
+        if date_info[keys[i]]["t_per"] in ("mon", "year"):
+            new_val = __period_number__(
+                date_info[keys[i]]["t_per"],
                 date_info[keys[i]]["t0"],
                 date_info[keys[i]]["stand_units"],
                 date_info[keys[i]]["calendar"],
             )
             if next_val == new_val:
                 next_val = (
-                    __month_number__(
+                    __period_number__(
+                        date_info[keys[i]]["t_per"],
                         date_info[keys[i]]["tn"],
                         date_info[keys[i]]["stand_units"],
                         date_info[keys[i]]["calendar"],
@@ -198,13 +203,13 @@ def __check_date_alignment_in_file__(date):
     t = date["time"]
     prev_time = t[0]
 
-    # If the time period in monthly, then the time difference between slices is not uniform and
+    # If the time period in monthly or yearly, then the time difference between slices is not uniform and
     # requires looking into the month length array to get correct day #'s
     # between slices.
-    if t_per == "mon":
-        next_val = __month_number__(t[0], date["units"], date["calendar"]) + 1
+    if t_per in ("mon", "year"):
+        next_val = __period_number__(t_per, t[0], date["units"], date["calendar"]) + 1
         for i in range(1, len(t)):
-            new_val = __month_number__(t[i], date["units"], date["calendar"])
+            new_val = __period_number__(t_per, t[i], date["units"], date["calendar"])
             if next_val == new_val:
                 next_val = new_val + 1
             else:
-- 
2.43.0


From a9a18d5eb4cd81d51572d81b1291f9836155fa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 056/111] fix: netCDF4 port opens existing files for reading
 only

---
 pyconform/climIO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index e3b2d06..1c6005f 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -347,7 +347,7 @@ class NetCDF4PyPort(object):
         Returns:
             open_file (netCDF4.Dataset): A pointer to a netCDF4.Dataset object.
         """
-        open_file = netCDF4.Dataset(file_name, "r+")
+        open_file = netCDF4.Dataset(file_name, "r")
         return open_file
 
     def read_slice(self, open_file, var, index, all_values=False):
-- 
2.43.0


From dd2b43c5b0f6e022e22f33d0c58ef9b9595d143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 057/111] fix: netCDF4 port reads attributes named like
 properties of variables

---
 pyconform/climIO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index 1c6005f..61cce2a 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -487,7 +487,7 @@ class NetCDF4PyPort(object):
 
         attribs = {}
         for n in var_hndl.ncattrs():
-            attribs[n] = var_hndl.__getattribute__(n)
+            attribs[n] = var_hndl.getncattr(n)
 
         return typeCode, dimnames, attribs
 
-- 
2.43.0


From d016be0e580e7b11b6ffeef530c42c11d7b77c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:44 +0000
Subject: [PATCH 058/111] fix: netCDF4 port compresses each file as it was
 asked to when created

---
 pyconform/climIO.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index 61cce2a..e6c5306 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -334,7 +334,7 @@ class PyNioPort(object):
 class NetCDF4PyPort(object):
     def __init__(self):
         super(NetCDF4PyPort, self).__init__()
-        self.compressionLevel = 0
+        self.compressionLevels = {}
 
     def open_file(self, file_name):
         """
@@ -397,11 +397,14 @@ class NetCDF4PyPort(object):
         Returns:
             new_file (netCDF4.Dataset): A pointer to a netCDF4.Dataset object.
         """
+        compressionLevel = 0
         # The netcdf output format
         if "netcdf4c" in ncformat:
             Format = "NETCDF4_CLASSIC"
             if ncformat[-1].isdigit():
-                self.compressionLevel = int(ncformat[-1])
+                compressionLevel = int(ncformat[-1])
+            else:
+                compressionLevel = 1
         elif ncformat == "netcdf4":
             Format = "NETCDF4_CLASSIC"
         elif ncformat == "netcdf":
@@ -421,6 +424,7 @@ class NetCDF4PyPort(object):
         # Open new output file
         new_file = netCDF4.Dataset(new_file_name, "w", format=Format)
         new_file.history = hist_string
+        self.compressionLevels[new_file.filepath()] = compressionLevel
 
         return new_file
 
@@ -447,13 +451,14 @@ class NetCDF4PyPort(object):
         Returns:
             var (netCDF4.Variable): Returns a netCDF4.Variable object.
         """
-        if self.compressionLevel > 0:
+        compressionLevel = self.compressionLevels.get(new_file.filepath(), 0)
+        if compressionLevel > 0:
             var = new_file.createVariable(
                 var_name,
                 typeCode,
                 tuple(dims),
                 zlib=True,
-                complevel=int(self.compressionLevel),
+                complevel=compressionLevel,
                 fill_value=attrib.get("_FillValue"),
             )
         else:
-- 
2.43.0


From ac0cbee21fcc413e9b96a7759144ab7b96fa904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:05 +0000
Subject: [PATCH 059/111] fix: netCDF4 port writes times at the index given

---
 pyconform/climIO.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyconform/climIO.py b/pyconform/climIO.py
index e6c5306..1462431 100644
--- a/pyconform/climIO.py
+++ b/pyconform/climIO.py
@@ -578,7 +578,10 @@ class NetCDF4PyPort(object):
                 all_vars[var_name][index] = values.astype(t)
         else:
             if "time" == var_name:
-                all_vars[var_name][0] = values[0].astype(t)
+                if index == -99:
+                    all_vars[var_name][0] = values[0].astype(t)
+                else:
+                    all_vars[var_name][index] = values[0].astype(t)
             else:
                 if index == -99:
                     all_vars[var_name][0, :] = values[:].astype(t)
-- 
2.43.0


From e354709b16488f2478a2670e1cb3314aa52eaf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:27 +0000
Subject: [PATCH 060/111] fix: validating a scalar does not relabel the data it
 was given

---
 pyconform/flownodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index e5b08b9..34ba873 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -514,7 +514,7 @@ class ValidateNode(FlowNode):
             )
             if ounits != indata.units and not inherited:
                 if index is None:
-                    indata.units = ounits
+                    indata = PhysArray(indata, units=ounits)
                 else:
                     try:
                         indata = indata.convert(ounits)
-- 
2.43.0


From 00d7881b51a4588cb2300e0e4d5289aaa836a371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:53 +0000
Subject: [PATCH 061/111] fix: times converted between reference dates may be
 scalars and may be masked

---
 pyconform/physarray.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index e86ebf7..0fd44c8 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -208,9 +208,12 @@ class PhysArray(numpy.ma.MaskedArray):
         if isinstance(obj, PhysArray):
             # Keep the precision of floating-point data, but never truncate integers
             isfloat = issubclass(obj.dtype.type, numpy.floating)
+            # Dates need at least one dimension, and what is masked has no date
+            mask = numpy.ma.getmaskarray(obj)
+            data = numpy.where(mask, obj.dtype.type(0), getdata(obj))
             new_array = numpy.ma.MaskedArray(
-                units1.convert(obj.data, units2),
-                mask=obj.mask,
+                numpy.reshape(u1.convert(numpy.atleast_1d(data), u2), obj.shape),
+                mask=mask,
                 dtype=obj.dtype if isfloat else None,
             )
             u1_str = "{}".format(u1) + (
-- 
2.43.0


From 7fe35fb127d9db19eaf101ef2d49f542ff7cf76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:21 +0000
Subject: [PATCH 062/111] fix: chunits() takes units that were computed

---
 pyconform/functions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index f81da49..3fdbedd 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -428,17 +428,17 @@ class ChangeUnitsFunction(Function):
         dunits = Unit(1) if is_constant(data) else data[None].units
         dcal = dunits.calendar
         if dunits.is_time_reference():
-            dunit, dref = [s.strip() for s in dunits.origin.split("since")]
+            dunit, dref = [s.strip() for s in str(dunits).split("since")]
         else:
-            dunit = dunits.origin
+            dunit = dunits
             dref = None
 
         uobj = Unit(units) if is_constant(units) else units[None].units
         ucal = uobj.calendar
         if uobj.is_time_reference():
-            uunit, uref = [s.strip() for s in uobj.origin.split("since")]
+            uunit, uref = [s.strip() for s in str(uobj).split("since")]
         else:
-            uunit = uobj.origin
+            uunit = uobj
             uref = None
 
         unit = dunit if units is None else uunit
@@ -458,7 +458,7 @@ class ChangeUnitsFunction(Function):
             raise ValueError("chunits: Calendar must be a string, if given")
 
         if ref is None:
-            self._newunits = Unit(unit, calendar=cal)
+            self._newunits = unit
         else:
             self._newunits = Unit("{} since {}".format(unit, ref), calendar=cal)
 
-- 
2.43.0


From bf9b138aecaa6ecae204c42d6fb7cd0afe2c8020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:47 +0000
Subject: [PATCH 063/111] fix: vardeps ends well when no input variable is
 needed

---
 pyconform/cli/vardeps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyconform/cli/vardeps.py b/pyconform/cli/vardeps.py
index 4743f42..690995f 100755
--- a/pyconform/cli/vardeps.py
+++ b/pyconform/cli/vardeps.py
@@ -165,7 +165,8 @@ def main(argv=None):
 
     print()
     print("Complete Specification Requires the Following Input Variables:")
-    print_columnar(sorted(alldeps), indent=3)
+    if alldeps:
+        print_columnar(sorted(alldeps), indent=3)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From ffa21fc058341d3d537da1c27fa1e5ccc7b14b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:33 +0000
Subject: [PATCH 064/111] fix: vardeps lists the variables of indices as well

---
 pyconform/cli/vardeps.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyconform/cli/vardeps.py b/pyconform/cli/vardeps.py
index 690995f..546aca5 100755
--- a/pyconform/cli/vardeps.py
+++ b/pyconform/cli/vardeps.py
@@ -65,6 +65,11 @@ def variable_search(obj, vars=None):
         vars = set()
     if isinstance(obj, parsing.VarType):
         vars.add(obj.key)
+        for ind in obj.ind:
+            vars = variable_search(ind, vars=vars)
+    elif isinstance(obj, slice):
+        for arg in (obj.start, obj.stop, obj.step):
+            vars = variable_search(arg, vars=vars)
     elif isinstance(obj, parsing.OpType):
         for arg in obj.args:
             vars = variable_search(arg, vars=vars)
-- 
2.43.0


From 9d4b9a1a8c6b4d2bea2f20af62bcd7edbf3b6295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:42 +0000
Subject: [PATCH 065/111] fix: a bad override deflate level is refused before
 any file is opened

---
 pyconform/dataflow.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index 6cf32a0..23f48a6 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -382,6 +382,13 @@ class DataFlow(object):
                     ": {}".format(", ".join(sumlike_chunk_dims))
                 )
 
+        # Check the override deflate level, before any file is opened
+        if deflate is not None:
+            if not isinstance(deflate, int):
+                raise TypeError("Override deflate value must be an integer")
+            if deflate < 0 or deflate > 9:
+                raise TypeError("Override deflate value range from 0 to 9")
+
         # Create the simple communicator, if necessary
         if scomm is None:
             scomm = create_comm(serial=bool(serial))
-- 
2.43.0


From 64b1490aad78b5480d82fad6b5ed082838822e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:25 +0000
Subject: [PATCH 066/111] fix: data with fewer or more dimensions than the
 variable declares is refused, not silently truncated

---
 pyconform/datasets.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 4c0cda8..f425b50 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -855,6 +855,12 @@ class OutputDatasetDesc(DatasetDesc):
                         DimensionDesc(d, stringlen=(sldim == d)) for d in vdims
                     )
                 else:
+                    if len(vdims) != len(vshape):
+                        err_msg = (
+                            "Variable {!r} in dataset {!r} has dimensions {} but is "
+                            "defined by data of shape {}"
+                        ).format(vname, name, tuple(vdims), tuple(vshape))
+                        raise ValueError(err_msg)
                     vkwds["dimensions"] = tuple(
                         DimensionDesc(d, size=s, stringlen=(sldim == d))
                         for d, s in zip(vdims, vshape)
-- 
2.43.0


From 347d9470540b0525f79986dc800799d40de3d220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:37 +0000
Subject: [PATCH 067/111] fix: strings of at most one character given in the
 specification keep their string-length dimension

---
 pyconform/dataflow.py | 2 ++
 pyconform/datasets.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index 23f48a6..65986a6 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -106,6 +106,8 @@ class DataFlow(object):
             if not isinstance(vdesc.definition, str):
                 if vdesc.datatype == "char":
                     vdata = numpy.asarray(vdesc.definition, dtype="S")
+                    if vdata.dtype.itemsize == 1 and vdata.ndim < len(vdesc.dimensions):
+                        vdata = vdata.reshape(vdata.shape + (1,))
                 else:
                     vdata = numpy.asarray(vdesc.definition, dtype=vdesc.dtype)
                 vunits = vdesc.cfunits()
diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index f425b50..35708fa 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -855,6 +855,9 @@ class OutputDatasetDesc(DatasetDesc):
                         DimensionDesc(d, stringlen=(sldim == d)) for d in vdims
                     )
                 else:
+                    if vkwds["datatype"] == "char" and len(vdims) == len(vshape) + 1:
+                        # Strings of at most one character
+                        vshape += (1,)
                     if len(vdims) != len(vshape):
                         err_msg = (
                             "Variable {!r} in dataset {!r} has dimensions {} but is "
-- 
2.43.0


From 93189c059ec1db3cd03cbff5368fe3108a487383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:46 +0000
Subject: [PATCH 068/111] fix: numbers are not cast to characters, nor
 characters to numbers

---
 pyconform/flownodes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 34ba873..42dafde 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -20,7 +20,7 @@ from netCDF4 import Dataset
 from pyconform.datasets import FileDesc, VariableDesc
 from pyconform.functions import Function
 from pyconform.indexing import align_index, index_str, index_tuple, join
-from pyconform.physarray import CharArray, PhysArray
+from pyconform.physarray import CharArray, PhysArray, ischartype
 
 
 class ValidationWarning(Warning):
@@ -529,7 +529,9 @@ class ValidateNode(FlowNode):
             odtype = indata.dtype
         else:
             odtype = self._vdesc.dtype
-        if numpy.can_cast(indata.dtype, odtype, casting="same_kind"):
+        if ischartype(indata) == (numpy.dtype(odtype).char in ("S", "U")) and (
+            numpy.can_cast(indata.dtype, odtype, casting="same_kind")
+        ):
             indata = indata.astype(odtype)
         else:
             raise TypeError(
-- 
2.43.0


From a795374343849f6b476c0a6dccb8d2e25013acdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:46 +0000
Subject: [PATCH 069/111] fix: strings are padded to the length of their chunk,
 not of the whole string dimension

---
 pyconform/flownodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 42dafde..d85cebe 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -1065,12 +1065,12 @@ class WriteNode(FlowNode):
                 # written
                 if repr(wchunk) not in vchunks[vname]:
                     vdata = vnode[rchunk]
-                    if isinstance(vdata, CharArray):
-                        vdata = vdata.stretch(ncvar.shape[-1])
                     vshape = tuple(
                         len(range(*chunk[d].indices(gdims[d])))
                         for d in vdesc.dimensions
                     )
+                    if isinstance(vdata, CharArray):
+                        vdata = vdata.stretch(vshape[-1])
                     if any(
                         n != m
                         and not (m > 0 and n == gdims[d] and vdesc.dimensions[d].unlimited)
-- 
2.43.0


From 3fae22cc8f03d0a11c60b9990b372fe6fd5dcb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:53 +0000
Subject: [PATCH 070/111] fix: bounds of years and of climatological months use
 the name of the bounds dimension they are given

---
 pyconform/modules/commonfunctions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 7bd7bbf..ae589b5 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -136,8 +136,8 @@ class oclim_timeFunction(Function):
 class oclim_timebndsFunction(Function):
     key = "oclim_timebnds"
 
-    def __init__(self, time, bdim="bnds"):
-        super(oclim_timebndsFunction, self).__init__(time, bdim="d2")
+    def __init__(self, time, bdim="d2"):
+        super(oclim_timebndsFunction, self).__init__(time, bdim=bdim)
 
     def __getitem__(self, index):
         p_time = self.arguments[0][index]
@@ -314,8 +314,8 @@ class monthtoyear_noleap_timeFunction(Function):
 class monthtoyear_noleap_timebndsFunction(Function):
     key = "monthtoyear_noleap_timebnds"
 
-    def __init__(self, time_bound, bdim="bnds"):
-        super(monthtoyear_noleap_timebndsFunction, self).__init__(time_bound, bdim="d2")
+    def __init__(self, time_bound, bdim="d2"):
+        super(monthtoyear_noleap_timebndsFunction, self).__init__(time_bound, bdim=bdim)
 
     def __getitem__(self, index):
         p_time_bound = self.arguments[0][index]
-- 
2.43.0


From 11179ffbb4280d89c4b875e6af0f7b5d6e3e23dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:53 +0000
Subject: [PATCH 071/111] fix: means over years and months do not take fill
 values for data

---
 pyconform/modules/commonfunctions.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index ae589b5..41f82af 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -23,6 +23,11 @@ class ZonalMeanFunction(Function):
         return mean(data, axis=3)
 
 
+def _filled_(data):
+    """The values of an array, missing ones as 1e20, so that a mean over them is missing"""
+    return np.where(np.ma.getmaskarray(data), 1e20, np.ma.getdata(data))
+
+
 class OclimFunction(Function):
     key = "oclim"
 
@@ -68,7 +73,7 @@ class OclimFunction(Function):
             )
 
         dim_count = len(data.dimensions)
-        dataD = data.data
+        dataD = _filled_(data)
 
         for i in range(12):
             a[i, ...] = np.ma.mean(dataD[i::12, ...], axis=0)
@@ -238,7 +243,7 @@ class monthtoyear_noleapFunction(Function):
 
         dim_count = len(data.dimensions)
         time = data.data.shape[0]
-        dataD = data.data
+        dataD = _filled_(data)
 
         days_in_month = np.array([31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31])
 
@@ -522,7 +527,7 @@ class YeartoMonth_dataFunction(Function):
                 ],
             )
 
-        data = p_data.data
+        data = _filled_(p_data)
         time = p_time.data
         lat = p_lat.data
         lon = p_lon.data
@@ -577,7 +582,7 @@ class YeartoMonth_data3DFunction(Function):
                 ],
             )
 
-        data = p_data.data
+        data = _filled_(p_data)
         time = p_time.data
         lat = p_lat.data
         lon = p_lon.data
-- 
2.43.0


From 99dfbbc5c1b4557bcb69fe6486e53a2c56e64514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:53 +0000
Subject: [PATCH 072/111] fix: the climatology of a month without data is
 missing, not NaN

---
 pyconform/modules/commonfunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 41f82af..dd91b7b 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -76,7 +76,8 @@ class OclimFunction(Function):
         dataD = _filled_(data)
 
         for i in range(12):
-            a[i, ...] = np.ma.mean(dataD[i::12, ...], axis=0)
+            # Without a step in this month there is no mean
+            a[i, ...] = np.ma.mean(dataD[i::12, ...], axis=0) if i < len(dataD) else 1e20
 
         a[a >= 1e16] = 1e20
         a = np.ma.masked_values(a, 1e20)
-- 
2.43.0


From a9f37342b5d20e6ab28d19c8d456654033735345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:53 +0000
Subject: [PATCH 073/111] fix: a climatological month ends with its last step,
 whatever the number of steps

---
 pyconform/modules/commonfunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index dd91b7b..e6de8b8 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -179,7 +179,8 @@ class oclim_timebndsFunction(Function):
 
         for i in range(11, -1, -1):
             b[i][0] = time[i] - monLens[i]
-            b[i][1] = time[-(12 - i)]
+            # The last step of this month (the last year may not be complete)
+            b[i][1] = time[i::12][-1]
         new_name = "oclim_timebnds({})".format(p_time.name)
 
         return PhysArray(
-- 
2.43.0


From 19a37c6f621efd772bbfa401e92d18ac09eb7dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:54 +0000
Subject: [PATCH 074/111] fix: bounds() of integer data are not truncated to
 integers

---
 pyconform/modules/commonfunctions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index e6de8b8..e07c873 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -389,7 +389,9 @@ class BoundsFunction(Function):
         bdim = self.keywords["bdim"]
         location = self.keywords["location"]
 
-        bnds = PhysArray([1, 1], dimensions=(bdim,))
+        # Middles of integers are not integers
+        one = 1.0 if self._compute_idata and location == 1 else 1
+        bnds = PhysArray([one, one], dimensions=(bdim,))
         new_data = PhysArray(
             data * bnds, name="bounds({})".format(data.name), units=data.units
         )
-- 
2.43.0


From dbcfbcbde38e0f0532fc55693c1db4e95320c301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:54 +0000
Subject: [PATCH 075/111] fix: bounds() converts the interfaces to the units of
 the data, and does not truncate them

---
 pyconform/modules/commonfunctions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index e07c873..b720c21 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -424,7 +424,8 @@ class BoundsFunction(Function):
             idata = self.keywords["idata"][islice]
 
             ifc_len = len(data) + 1
-            ifc_data = empty(ifc_len, dtype=data.dtype)
+            idata = idata.convert(data.units)
+            ifc_data = empty(ifc_len, dtype=np.result_type(data, idata))
             if len(idata) == ifc_len:
                 ifc_data[:] = idata.data[:]
             elif len(idata) == ifc_len - 2:
@@ -444,6 +445,7 @@ class BoundsFunction(Function):
                     "{}".format(len(idata), ifc_len, ifc_len - 2)
                 )
 
+            new_data = new_data.astype(ifc_data.dtype)
             new_data[:, 0] = ifc_data[:-1]
             new_data[:, 1] = ifc_data[1:]
 
-- 
2.43.0


From c17fcbedf44f104b6cb9a26179bb246a3db7229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:54 +0000
Subject: [PATCH 076/111] fix: bounds() of a part of an axis are that part of
 the bounds of the axis

---
 pyconform/modules/commonfunctions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index b720c21..a6d98d0 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -385,6 +385,12 @@ class BoundsFunction(Function):
             # self.add_sumlike_dimensions(idata_info.dimensions[0])
 
     def __getitem__(self, index):
+        # The bounds of a part of the axis are this part of the bounds
+        if index is not None:
+            return self._bounds_(())[index]
+        return self._bounds_(None)
+
+    def _bounds_(self, index):
         data = self.arguments[0][index]
         bdim = self.keywords["bdim"]
         location = self.keywords["location"]
@@ -418,10 +424,7 @@ class BoundsFunction(Function):
             return new_data
 
         else:
-            ddim = data.dimensions[0]
-            dslice = index[ddim] if ddim in index else slice(None)
-            islice = slice(None, None, dslice.step)
-            idata = self.keywords["idata"][islice]
+            idata = self.keywords["idata"][()]
 
             ifc_len = len(data) + 1
             idata = idata.convert(data.units)
-- 
2.43.0


From a9fc3d48782925c01b408317e00f501a82234bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:54 +0000
Subject: [PATCH 077/111] fix: yearly data spread over months has its units
 before it has data

---
 pyconform/modules/commonfunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index a6d98d0..7e08f76 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -534,6 +534,7 @@ class YeartoMonth_dataFunction(Function):
                     p_lat.dimensions[0],
                     p_lon.dimensions[0],
                 ],
+                units=p_data.units,
             )
 
         data = _filled_(p_data)
@@ -589,6 +590,7 @@ class YeartoMonth_data3DFunction(Function):
                     p_lat.dimensions[0],
                     p_lon.dimensions[0],
                 ],
+                units=p_data.units,
             )
 
         data = _filled_(p_data)
-- 
2.43.0


From 444ca19720d4768b32705e5275b626d63ff49e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:54 +0000
Subject: [PATCH 078/111] fix: yearly data spread over months has as many
 months as its times

---
 pyconform/modules/commonfunctions.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 7e08f76..e81f2e6 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -542,10 +542,8 @@ class YeartoMonth_dataFunction(Function):
         lat = p_lat.data
         lon = p_lon.data
 
-        if time[0] == 0:
-            a = np.ma.zeros(((len(time) - 1) * 12, len(lat), len(lon)))
-        else:
-            a = np.ma.zeros((len(time) * 12, len(lat), len(lon)))
+        # Years that are marked at 0 are left out
+        a = np.ma.zeros((np.count_nonzero(time) * 12, len(lat), len(lon)))
 
         k = 0
         for i in range(len(time)):
@@ -599,10 +597,8 @@ class YeartoMonth_data3DFunction(Function):
         lon = p_lon.data
         v = p_v.data
 
-        if time[0] == 0:
-            a = np.ma.zeros(((len(time) - 1) * 12, len(v), len(lat), len(lon)))
-        else:
-            a = np.ma.zeros((len(time) * 12, len(v), len(lat), len(lon)))
+        # Years that are marked at 0 are left out
+        a = np.ma.zeros((np.count_nonzero(time) * 12, len(v), len(lat), len(lon)))
 
         k = 0
         for i in range(len(time)):
@@ -663,23 +659,20 @@ class YeartoMonth_timeFunction(Function):
             31.0,
         ]
 
-        a = np.zeros((len(time) * 12))
+        # Years that are marked at 0 are left out
+        b = np.zeros((np.count_nonzero(time) * 12))
 
         k = 0
         for i in range(len(time)):
             prev = 0
             if time[i] != 0:
                 for j in range(12):
-                    a[((k * 12) + j)] = float(
+                    b[((k * 12) + j)] = float(
                         (time[i] - 365) + prev + float(monLens[j] / 2.0)
                     )
                     prev += monLens[j]
                 k += 1
 
-        if a[-1] == 0 and not np.all(a == 0):
-            b = np.resize(a, ((len(time) - 1) * 12))
-        else:
-            b = a
         new_name = "yeartomonth_time({})".format(p_time.name)
 
         return PhysArray(
-- 
2.43.0


From c2aded52d16ab91e1f4cf051049d6ab392565489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:54 +0000
Subject: [PATCH 079/111] fix: yearly data spread over months is matched with
 its axes by name

---
 pyconform/modules/commonfunctions.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index e81f2e6..0d36e96 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -537,7 +537,8 @@ class YeartoMonth_dataFunction(Function):
                 units=p_data.units,
             )
 
-        data = _filled_(p_data)
+        dims = (p_time.dimensions[0], p_lat.dimensions[0], p_lon.dimensions[0])
+        data = _filled_(p_data.transpose(dims))
         time = p_time.data
         lat = p_lat.data
         lon = p_lon.data
@@ -591,7 +592,13 @@ class YeartoMonth_data3DFunction(Function):
                 units=p_data.units,
             )
 
-        data = _filled_(p_data)
+        dims = (
+            p_time.dimensions[0],
+            p_v.dimensions[0],
+            p_lat.dimensions[0],
+            p_lon.dimensions[0],
+        )
+        data = _filled_(p_data.transpose(dims))
         time = p_time.data
         lat = p_lat.data
         lon = p_lon.data
-- 
2.43.0


From 70114b5a4086c4961a10bcaf176b5c0f26b777ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:04 +0000
Subject: [PATCH 080/111] fix: means over years and months keep the positive
 direction

---
 pyconform/modules/commonfunctions.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 0d36e96..dc44b3e 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -52,11 +52,13 @@ class OclimFunction(Function):
                         data.dimensions[2],
                     ],
                     units=data.units,
+                    positive=data.positive,
                 )
             elif len(data.dimensions) == 4:
                 return PhysArray(
                     np.zeros((0, 0, 0, 0)),
                     units=data.units,
+                    positive=data.positive,
                     dimensions=[
                         data.dimensions[0],
                         data.dimensions[1],
@@ -87,6 +89,7 @@ class OclimFunction(Function):
                 a,
                 name=new_name,
                 units=data.units,
+                positive=data.positive,
                 dimensions=[data.dimensions[0], data.dimensions[1], data.dimensions[2]],
             )
         elif dim_count == 4:
@@ -94,6 +97,7 @@ class OclimFunction(Function):
                 a,
                 name=new_name,
                 units=data.units,
+                positive=data.positive,
                 dimensions=[
                     data.dimensions[0],
                     data.dimensions[1],
@@ -216,11 +220,13 @@ class monthtoyear_noleapFunction(Function):
                         data.dimensions[2],
                     ],
                     units=data.units,
+                    positive=data.positive,
                 )
             elif len(data.dimensions) == 4:
                 return PhysArray(
                     np.zeros((0, 0, 0, 0)),
                     units=data.units,
+                    positive=data.positive,
                     dimensions=[
                         data.dimensions[0],
                         data.dimensions[1],
@@ -263,6 +269,7 @@ class monthtoyear_noleapFunction(Function):
                 a,
                 name=new_name,
                 units=data.units,
+                positive=data.positive,
                 dimensions=[data.dimensions[0], data.dimensions[1], data.dimensions[2]],
             )
         elif dim_count == 4:
@@ -270,6 +277,7 @@ class monthtoyear_noleapFunction(Function):
                 a,
                 name=new_name,
                 units=data.units,
+                positive=data.positive,
                 dimensions=[
                     data.dimensions[0],
                     data.dimensions[1],
@@ -535,6 +543,7 @@ class YeartoMonth_dataFunction(Function):
                     p_lon.dimensions[0],
                 ],
                 units=p_data.units,
+                positive=p_data.positive,
             )
 
         dims = (p_time.dimensions[0], p_lat.dimensions[0], p_lon.dimensions[0])
@@ -564,6 +573,7 @@ class YeartoMonth_dataFunction(Function):
             name=new_name,
             dimensions=[p_time.dimensions[0], p_lat.dimensions[0], p_lon.dimensions[0]],
             units=p_data.units,
+            positive=p_data.positive,
         )
 
 
@@ -590,6 +600,7 @@ class YeartoMonth_data3DFunction(Function):
                     p_lon.dimensions[0],
                 ],
                 units=p_data.units,
+                positive=p_data.positive,
             )
 
         dims = (
@@ -630,6 +641,7 @@ class YeartoMonth_data3DFunction(Function):
                 p_lon.dimensions[0],
             ],
             units=p_data.units,
+            positive=p_data.positive,
         )
 
 
-- 
2.43.0


From e99ffc23fd945fcd73d929bfc25ad8394bb58da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:42 +0000
Subject: [PATCH 081/111] fix: a part of the means over years or months is
 taken from all times

---
 pyconform/modules/commonfunctions.py | 62 ++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 18 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index dc44b3e..8193036 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -28,7 +28,31 @@ def _filled_(data):
     return np.where(np.ma.getmaskarray(data), 1e20, np.ma.getdata(data))
 
 
-class OclimFunction(Function):
+class _AllTimes_(object):
+    """Mixin for functions of whole time axes: a part of the result needs all times"""
+
+    # Argument with the time dimension (its first one)
+    _time_argument = 0
+
+    def __getitem__(self, index):
+        if isinstance(index, dict):
+            return self._all_(())[index]
+        return self._all_(index)
+
+
+class _AllTimesOfData_(_AllTimes_):
+    """Mixin for such functions of data, which is taken in parts along other dimensions"""
+
+    def __getitem__(self, index):
+        if isinstance(index, dict):
+            tdim = self.arguments[self._time_argument][None].dimensions[0]
+            rest = {d: index[d] for d in index if d != tdim}
+            part = {d: index[d] for d in index if d == tdim}
+            return self._all_(rest)[part]
+        return self._all_(index)
+
+
+class OclimFunction(_AllTimesOfData_, Function):
     key = "oclim"
 
     def __init__(self, data):
@@ -37,7 +61,7 @@ class OclimFunction(Function):
         if not isinstance(data_info, PhysArray):
             raise TypeError("oclim: Data must be a PhysArray")
 
-    def __getitem__(self, index):
+    def _all_(self, index):
 
         data = self.arguments[0][index]
         new_name = "oclim({})".format(data.name)
@@ -109,13 +133,13 @@ class OclimFunction(Function):
         return a
 
 
-class oclim_timeFunction(Function):
+class oclim_timeFunction(_AllTimes_, Function):
     key = "oclim_time"
 
     def __init__(self, time_bnds):
         super(oclim_timeFunction, self).__init__(time_bnds)
 
-    def __getitem__(self, index):
+    def _all_(self, index):
         p_time_bnds = self.arguments[0][index]
 
         if index is None:
@@ -143,13 +167,13 @@ class oclim_timeFunction(Function):
         )
 
 
-class oclim_timebndsFunction(Function):
+class oclim_timebndsFunction(_AllTimes_, Function):
     key = "oclim_timebnds"
 
     def __init__(self, time, bdim="d2"):
         super(oclim_timebndsFunction, self).__init__(time, bdim=bdim)
 
-    def __getitem__(self, index):
+    def _all_(self, index):
         p_time = self.arguments[0][index]
         bdim = self.keywords["bdim"]
 
@@ -196,7 +220,7 @@ class oclim_timebndsFunction(Function):
         )
 
 
-class monthtoyear_noleapFunction(Function):
+class monthtoyear_noleapFunction(_AllTimesOfData_, Function):
     key = "monthtoyear_noleap"
 
     def __init__(self, data):
@@ -205,7 +229,7 @@ class monthtoyear_noleapFunction(Function):
         if not isinstance(data_info, PhysArray):
             raise TypeError("monthtoyear_noleap: Data must be a PhysArray")
 
-    def __getitem__(self, index):
+    def _all_(self, index):
 
         data = self.arguments[0][index]
         new_name = "monthtoyear_noleap({})".format(data.name)
@@ -289,13 +313,13 @@ class monthtoyear_noleapFunction(Function):
         return a1
 
 
-class monthtoyear_noleap_timeFunction(Function):
+class monthtoyear_noleap_timeFunction(_AllTimes_, Function):
     key = "monthtoyear_noleap_time"
 
     def __init__(self, time_bnds):
         super(monthtoyear_noleap_timeFunction, self).__init__(time_bnds)
 
-    def __getitem__(self, index):
+    def _all_(self, index):
         p_time_bnds = self.arguments[0][index]
 
         if index is None:
@@ -326,13 +350,13 @@ class monthtoyear_noleap_timeFunction(Function):
         )
 
 
-class monthtoyear_noleap_timebndsFunction(Function):
+class monthtoyear_noleap_timebndsFunction(_AllTimes_, Function):
     key = "monthtoyear_noleap_timebnds"
 
     def __init__(self, time_bound, bdim="d2"):
         super(monthtoyear_noleap_timebndsFunction, self).__init__(time_bound, bdim=bdim)
 
-    def __getitem__(self, index):
+    def _all_(self, index):
         p_time_bound = self.arguments[0][index]
         bdim = self.keywords["bdim"]
 
@@ -522,13 +546,14 @@ class AgeofAirFunction(Function):
         return PhysArray(a, name=new_name, units="yr")
 
 
-class YeartoMonth_dataFunction(Function):
+class YeartoMonth_dataFunction(_AllTimesOfData_, Function):
     key = "yeartomonth_data"
+    _time_argument = 1
 
     def __init__(self, data, time, lat, lon):
         super(YeartoMonth_dataFunction, self).__init__(data, time, lat, lon)
 
-    def __getitem__(self, index):
+    def _all_(self, index):
         p_data = self.arguments[0][index]
         p_time = self.arguments[1][index]
         p_lat = self.arguments[2][index]
@@ -577,13 +602,14 @@ class YeartoMonth_dataFunction(Function):
         )
 
 
-class YeartoMonth_data3DFunction(Function):
+class YeartoMonth_data3DFunction(_AllTimesOfData_, Function):
     key = "yeartomonth_data3D"
+    _time_argument = 1
 
     def __init__(self, data, time, lat, lon, v):
         super(YeartoMonth_data3DFunction, self).__init__(data, time, lat, lon, v)
 
-    def __getitem__(self, index):
+    def _all_(self, index):
         p_data = self.arguments[0][index]
         p_time = self.arguments[1][index]
         p_lat = self.arguments[2][index]
@@ -645,13 +671,13 @@ class YeartoMonth_data3DFunction(Function):
         )
 
 
-class YeartoMonth_timeFunction(Function):
+class YeartoMonth_timeFunction(_AllTimes_, Function):
     key = "yeartomonth_time"
 
     def __init__(self, time):
         super(YeartoMonth_timeFunction, self).__init__(time)
 
-    def __getitem__(self, index):
+    def _all_(self, index):
         p_time = self.arguments[0][index]
 
         if index is None:
-- 
2.43.0


From 4b47a7753c42f7cfb34b224c16e432cb5b91f871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:21 +0000
Subject: [PATCH 082/111] fix: data longer than its dimension is not cut
 silently when the dimension is inverted

---
 pyconform/flownodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index d85cebe..afd00ec 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -998,7 +998,10 @@ class WriteNode(FlowNode):
             c = chunk[d]
             if d in idims:
                 ub = s if c.stop is None else c.stop
-                ichunk[d] = slice(s - c.start - 1, s - ub - 1 if ub < s else None, -1)
+                # The first chunk ends where the data ends, as the last chunk does
+                # when it is not inverted, so that data that is too long is noticed
+                lb = s - c.start - 1 if c.start > 0 else None
+                ichunk[d] = slice(lb, s - ub - 1 if ub < s else None, -1)
             else:
                 ichunk[d] = c
         return ichunk
-- 
2.43.0


From 09f704529fd7fef1fe3f31ea8e0ea9a850676c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:17 +0000
Subject: [PATCH 083/111] fix: only header lines begin a section of a
 definition file, and a repeated one continues it

---
 pyconform/cli/iconform.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 3d61371..5b75ff0 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -11,6 +11,7 @@ LICENSE: See the LICENSE.rst file for details
 import argparse
 import json
 import os
+import re
 import sys
 import uuid
 
@@ -138,16 +139,14 @@ def load(defs, key=None):
     for line in defs:
         input_glob = None
         line = line.strip()
-        # hanle comments
+        # handle comments and the headers of sections
         if "#" in line:
-            if "TABLE" in line:
-                key = line.split(":")[1].strip()
-                def_dict[key] = {}
-                ig_dict[key] = {}
-            if "Coords" in line:
-                key = "Coords_" + line.split(":")[1].strip()
-                def_dict[key] = {}
-                ig_dict[key] = {}
+            header = re.match(r"#+\s*(TABLE|Coords)\s*:(.*)", line)
+            if header and key != "ga":
+                prefix = "Coords_" if header.group(1) == "Coords" else ""
+                key = prefix + header.group(2).split("#")[0].strip()
+                def_dict.setdefault(key, {})
+                ig_dict.setdefault(key, {})
             if len(line.split("#")) == 2:
                 input_glob = line.split("#")[1]
             line = line.split("#")[0].strip()
-- 
2.43.0


From 1e6c3a7c9507146738c5cbfd3355d9161820a001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:17 +0000
Subject: [PATCH 084/111] fix: requested variables of tables without
 definitions are reported as missing

---
 pyconform/cli/iconform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 5b75ff0..6412820 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -728,6 +728,7 @@ def create_output(
                 else:
                     print("missing:", v)
             else:
+                print("missing:", v)
                 AllMissing[t].append(v)
 
         ReqSpec["variables"] = var_list
-- 
2.43.0


From 229e09552c62fbf9b3b41264c871dbc164de2c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:17 +0000
Subject: [PATCH 085/111] fix: requested variables without dimensions have no
 dimensions

---
 pyconform/cli/iconform.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 6412820..1f52fed 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -557,10 +557,8 @@ def defineVar(v, varName, attr, table_info, definition, ig, experiment, out_dir)
         if v["requested"] != "":
             var["definition"] = v["requested"]
     if "coordinates" in v.keys():
-        var["dimensions"] = list(reversed(v["coordinates"].split("|")))
-        var["attributes"]["coordinates"] = " ".join(
-            list(reversed(v["coordinates"].split("|")))
-        )
+        var["dimensions"] = [d for d in reversed(v["coordinates"].split("|")) if d]
+        var["attributes"]["coordinates"] = " ".join(var["dimensions"])
         # var["attributes"].pop('coordinates')
     else:
         var["dimensions"] = []
-- 
2.43.0


From cf82e93409b18994c3cf378504690e2bac296b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:17 +0000
Subject: [PATCH 086/111] fix: external_variables need not be among the global
 attributes

---
 pyconform/cli/iconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 1f52fed..3b8b9d5 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -249,7 +249,7 @@ def fill_missing_glob_attributes(attr, table, v, grids):
                 elif "variable_id" in a and "variable_id" in v.keys():
                     attr["variable_id"] = v["variable_id"]
 
-    if "FILL" in attr["external_variables"]:
+    if "FILL" in attr.get("external_variables", ""):
         attr.pop("external_variables")
 
     if "branch_method" in attr.keys():
-- 
2.43.0


From 336b6bfc8d0752cc7a350baf773a085cd7cbbbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:17 +0000
Subject: [PATCH 087/111] fix: specifications are generated without grid
 descriptions for all realms

---
 pyconform/cli/iconform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 3b8b9d5..fafd853 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -372,7 +372,8 @@ def fill_missing_glob_attributes(attr, table, v, grids):
                 attr["further_info_url"] = "https://furtherinfo.es-doc.org/" + info_url
     if "grid" in attr.keys():
         if len(attr["realm"]) > 0:
-            attr["grid"] = grids[attr["realm"].split()[0]]
+            if attr["realm"].split()[0] in grids:
+                attr["grid"] = grids[attr["realm"].split()[0]]
         else:
             attr["grid"] = "CAN NOT FIND GRID - NO REALM IN DATAREQ"
 
@@ -388,9 +389,9 @@ def defineVar(v, varName, attr, table_info, definition, ig, experiment, out_dir)
 
     attributes = dict(attr)
 
+    grids = {}
     if "grids" in attributes.keys():
         p1 = attributes["grids"].split(";")
-        grids = {}
         for p in p1:
             g = p.split(":")[1]
             for model in p.split(":")[0].split(","):
-- 
2.43.0


From cbb775084777e573dc4a0569260d4c280aef7e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:44 +0000
Subject: [PATCH 088/111] fix: global attributes that are not strings can be
 given

---
 pyconform/cli/iconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index fafd853..6066260 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -175,7 +175,7 @@ def load(defs, key=None):
 def fill_missing_glob_attributes(attr, table, v, grids):
 
     for a, d in attr.items():
-        if d is not None:
+        if isinstance(d, str):
             if "__FILL__" in d:
                 if "activity_id" in a and "activity_id" in table:
                     attr["activity_id"] = table["activity_id"]
-- 
2.43.0


From 1b92e5c3172852b617e496412aaeb04ec4b3eeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:44 +0000
Subject: [PATCH 089/111] fix: a blank global attribute does not replace
 another one whose name it contains

---
 pyconform/cli/iconform.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 6066260..3d1127a 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -177,15 +177,15 @@ def fill_missing_glob_attributes(attr, table, v, grids):
     for a, d in attr.items():
         if isinstance(d, str):
             if "__FILL__" in d:
-                if "activity_id" in a and "activity_id" in table:
+                if a == "activity_id" and "activity_id" in table:
                     attr["activity_id"] = table["activity_id"]
-                elif "creation_date" in a:
+                elif a == "creation_date":
                     attr["creation_date"] = ""
-                elif "data_specs_version" in a and "data_specs_version" in table:
+                elif a == "data_specs_version" and "data_specs_version" in table:
                     attr["data_specs_version"] = table["data_specs_version"]
-                elif "experiment" in a and "experiment" in table:
+                elif a == "experiment" and "experiment" in table:
                     attr["experiment"] = table["experiment"]
-                elif "external_variables" in a:
+                elif a == "external_variables":
                     if "cell_measures" in v.keys():
                         if "areacello" in v["cell_measures"]:
                             if (
@@ -238,15 +238,15 @@ def fill_missing_glob_attributes(attr, table, v, grids):
                                     attr["external_variables"] + " volcello"
                                 )
 
-                elif "frequency" in a:
+                elif a == "frequency":
                     attr["frequency"] = v["frequency"]
-                elif "realm" in a and "realm" in v.keys():
+                elif a == "realm" and "realm" in v.keys():
                     attr["realm"] = v["realm"]
-                elif "table_id" in a:
+                elif a == "table_id":
                     attr["table_id"] = v["mipTable"]
-                elif "tracking_id" in a:
+                elif a == "tracking_id":
                     attr["tracking_id"] = "hdl:21.14100/" + str(uuid.uuid4())
-                elif "variable_id" in a and "variable_id" in v.keys():
+                elif a == "variable_id" and "variable_id" in v.keys():
                     attr["variable_id"] = v["variable_id"]
 
     if "FILL" in attr.get("external_variables", ""):
-- 
2.43.0


From e42873033aba70dec2ae49c194d8ee5df6ea89e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:44 +0000
Subject: [PATCH 090/111] fix: variables are named by their tables in generated
 specifications

---
 pyconform/cli/iconform.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 3d1127a..4a62b48 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -681,9 +681,7 @@ def create_output(
                     )
                     if ts_key not in TableSpec.keys():
                         TableSpec[ts_key] = {}
-                    TableSpec[ts_key][
-                        var_list[v]["file"]["attributes"]["variable_id"]
-                    ] = var_list[v]
+                    TableSpec[ts_key][d["variable_id"]] = var_list[v]
                     t_realm = "NoRealm"
                     for k1, v1 in definitions.items():
                         if "Coords" in k1:
-- 
2.43.0


From c36ab6e2991d2ce851672566be9d080c4ed3834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:44 +0000
Subject: [PATCH 091/111] fix: coordinates are those of the realm of a
 variable, whatever the order of the definition file

---
 pyconform/cli/iconform.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 4a62b48..1c513fb 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -687,6 +687,11 @@ def create_output(
                         if "Coords" in k1:
                             if k1.split("_")[1] in realm:
                                 t_realm = k1.split("_")[1].strip()
+                    # The coordinates of a realm itself go before those of similar names
+                    for r in d["realm"].split():
+                        if "Coords_" + r in definitions.keys():
+                            t_realm = r
+                            break
                     for dim in var_list[v]["dimensions"]:
                         if (
                             dim not in TableSpec[ts_key].keys()
-- 
2.43.0


From 33cbdbef085078da0e6aa8dee74d5823c8d61ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:44 +0000
Subject: [PATCH 092/111] fix: axes without a type can be requested

---
 pyconform/cli/iconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 1c513fb..4e3477c 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -585,7 +585,7 @@ def defineAxes(v, name):
 
     # put everything into a variable dictionary
     var["attributes"] = v2
-    if "type" in v.keys():
+    if v.get("type"):
         var["datatype"] = data_types[v["type"]]
     if "requested" in v.keys():
         if v["requested"] != "":
-- 
2.43.0


From 965fa941fc2732d3deb6227d4d5e3ed6009ee48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 093/111] fix: all of several global attribute files are used

---
 pyconform/cli/iconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/iconform.py b/pyconform/cli/iconform.py
index 4e3477c..1b7bb9e 100755
--- a/pyconform/cli/iconform.py
+++ b/pyconform/cli/iconform.py
@@ -890,7 +890,7 @@ def main(argv=None):
                     attributes.update(ga)
                 else:
                     with open(gaFile) as y_attributes:
-                        attributes = load(y_attributes, key="ga")["ga"]
+                        attributes.update(load(y_attributes, key="ga")["ga"])
             else:
                 if args.globalAttrFile and not os.path.isfile(args.globalAttrFile):
                     print(
-- 
2.43.0


From 8acd66a0c31835cc4922bfebad578d0f8a97510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 094/111] fix: variables requested from several tables need not
 be in all of them

---
 pyconform/miptableparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyconform/miptableparser.py b/pyconform/miptableparser.py
index e169eb1..a674cb6 100644
--- a/pyconform/miptableparser.py
+++ b/pyconform/miptableparser.py
@@ -317,6 +317,9 @@ class ParseCmorTable(object):
             variables = {}
             axes = {}
             for var in names:
+                if var not in mt["variable_entry"]:
+                    print("Can not add variable: " + var + " is not in " + t)
+                    continue
                 v = mt["variable_entry"][var]
                 variables[var] = v
                 variables[var]["variable_id"] = var
-- 
2.43.0


From 2f894341aff5ca5524d7f9fe04953c2d624114ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:29 +0000
Subject: [PATCH 095/111] fix: POP_bottom_layer gives dimensions, units and
 missing cells to its result

---
 pyconform/modules/commonfunctions.py | 58 ++++++++++++++++++++++++----
 1 file changed, 51 insertions(+), 7 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 8193036..1240886 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -52,6 +52,31 @@ class _AllTimesOfData_(_AllTimes_):
         return self._all_(index)
 
 
+class _Whole_(object):
+    """Mixin for functions of whole fields, which are taken in parts along time only"""
+
+    # Argument with the time dimension (its first one)
+    _data_argument = -1
+
+    def __getitem__(self, index):
+        if isinstance(index, dict):
+            tdim = self.arguments[self._data_argument][None].dimensions[0]
+            if isinstance(index.get(tdim), slice):
+                rest = {d: index[d] for d in index if d != tdim}
+                return self._all_({tdim: index[tdim]})[rest]
+        return self._all_(None) if index is None else self._all_(())[index]
+
+
+def _masked_(data):
+    """The values of an array, without dimensions and units"""
+    return np.ma.array(data.data, mask=np.ma.getmaskarray(data))
+
+
+def _levels_(KMT):
+    """The numbers of levels of columns (without a number: none)"""
+    return np.ma.filled(_masked_(KMT), 0).astype(int)
+
+
 class OclimFunction(_AllTimesOfData_, Function):
     key = "oclim"
 
@@ -729,13 +754,18 @@ class YeartoMonth_timeFunction(_AllTimes_, Function):
         )
 
 
-class POP_bottom_layerFunction(Function):
+class POP_bottom_layerFunction(_Whole_, Function):
     key = "POP_bottom_layer"
 
     def __init__(self, KMT, data):
         super(POP_bottom_layerFunction, self).__init__(KMT, data)
+        data_info = data if is_constant(data) else data[None]
+        if not isinstance(data_info, PhysArray):
+            raise TypeError("POP_bottom_layer: data must be a PhysArray")
+        if len(data_info.dimensions) != 4:
+            raise DimensionsError("POP_bottom_layer: data can only be 4D")
 
-    def __getitem__(self, index):
+    def _all_(self, index):
         p_KMT = self.arguments[0][index]
         p_data = self.arguments[1][index]
 
@@ -747,20 +777,34 @@ class POP_bottom_layerFunction(Function):
                     p_data.dimensions[2],
                     p_data.dimensions[3],
                 ],
+                units=p_data.units,
+                positive=p_data.positive,
             )
 
-        data = p_data.data
-        KMT = p_KMT.data
+        data = _masked_(p_data)
+        KMT = _levels_(p_KMT.transpose(p_data.dimensions[2:]))
 
-        a = np.zeros((p_data.shape[0], p_data.shape[2], p_data.shape[3]))
+        # Columns without levels have no bottom layer
+        a = np.ma.masked_all((p_data.shape[0], p_data.shape[2], p_data.shape[3]))
 
         for j in range(KMT.shape[0]):
             for i in range(KMT.shape[1]):
-                a[:, j, i] = data[:, KMT[j, i] - 1, j, i]
+                if KMT[j, i] > 0:
+                    a[:, j, i] = data[:, KMT[j, i] - 1, j, i]
 
         new_name = "POP_bottom_layer({}{})".format(p_KMT.name, p_data.name)
 
-        return PhysArray(a, name=new_name, units=p_data.units)
+        return PhysArray(
+            a,
+            name=new_name,
+            units=p_data.units,
+            positive=p_data.positive,
+            dimensions=[
+                p_data.dimensions[0],
+                p_data.dimensions[2],
+                p_data.dimensions[3],
+            ],
+        )
 
 
 class diff_axis1_ind0bczero_4dFunction(Function):
-- 
2.43.0


From 03a07a42085590e4ca7f6134fdc0e5f727861fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:29 +0000
Subject: [PATCH 096/111] fix: functions of ocean levels keep missing cells and
 direction, and parts of their results are those of the whole

---
 pyconform/modules/commonfunctions.py | 36 +++++++++++++++-------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 1240886..f091aed 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -807,7 +807,7 @@ class POP_bottom_layerFunction(_Whole_, Function):
         )
 
 
-class diff_axis1_ind0bczero_4dFunction(Function):
+class diff_axis1_ind0bczero_4dFunction(_Whole_, Function):
     key = "diff_axis1_ind0bczero_4d"
 
     def __init__(self, KMT, new_coord_var, data):
@@ -818,7 +818,7 @@ class diff_axis1_ind0bczero_4dFunction(Function):
         if len(data_info.dimensions) != 4:
             raise DimensionsError("diff_axis1_ind0bczero_4d: data can only be 4D")
 
-    def __getitem__(self, index):
+    def _all_(self, index):
         p_KMT = self.arguments[0][index]
         p_new_coord_var = self.arguments[1][index]
         p_data = self.arguments[2][index]
@@ -827,18 +827,20 @@ class diff_axis1_ind0bczero_4dFunction(Function):
             a = np.zeros((0, 0, 0, 0))
             fv = 1e20
         else:
-            KMT = p_KMT.data
-            data = p_data.data
+            KMT = _levels_(p_KMT.transpose(p_data.dimensions[2:]))
+            data = _masked_(p_data)
+            if p_new_coord_var.shape != (p_data.shape[1],):
+                raise DimensionsError("diff_axis1_ind0bczero_4d: levels do not fit")
 
-            a = np.empty((p_data.shape))
+            a = np.ma.empty((p_data.shape))
             a[:, 0, :, :] = data[:, 0, :, :]
-            a[:, 1:, :, :] = np.diff(data, axis=1)
+            a[:, 1:, :, :] = data[:, 1:, :, :] - data[:, :-1, :, :]
 
             # fv = data.fill_value
             fv = 1e20
             for t in range(p_data.shape[0]):
                 for k in range(p_data.shape[1]):
-                    a[t, k, :, :] = np.where(k < KMT, a[t, k, :, :], fv)
+                    a[t, k, :, :] = np.ma.where(k < KMT, a[t, k, :, :], fv)
 
         ma_a = np.ma.masked_values(a, fv)
         new_name = "{}({}{}{})".format(
@@ -851,10 +853,10 @@ class diff_axis1_ind0bczero_4dFunction(Function):
             p_data.dimensions[2],
             p_data.dimensions[3],
         ]
-        return PhysArray(ma_a, name=new_name, units=new_units, dimensions=new_dims)
+        return PhysArray(ma_a, name=new_name, units=new_units, dimensions=new_dims, positive=p_data.positive)
 
 
-class rsdoabsorbFunction(Function):
+class rsdoabsorbFunction(_Whole_, Function):
     key = "rsdoabsorb"
 
     def __init__(self, KMT, z_t, QSW_3D):
@@ -865,7 +867,7 @@ class rsdoabsorbFunction(Function):
         if len(QSW_3D_info.dimensions) != 4:
             raise DimensionsError("rsdoabsorb: QSW_3D can only be 4D")
 
-    def __getitem__(self, index):
+    def _all_(self, index):
         p_KMT = self.arguments[0][index]
         p_z_t = self.arguments[1][index]
         p_QSW_3D = self.arguments[2][index]
@@ -874,10 +876,12 @@ class rsdoabsorbFunction(Function):
             a = np.zeros((0, 0, 0, 0))
             fv = 1e20
         else:
-            KMT = p_KMT.data
-            QSW_3D = p_QSW_3D.data
+            KMT = _levels_(p_KMT.transpose(p_QSW_3D.dimensions[2:]))
+            QSW_3D = _masked_(p_QSW_3D)
+            if p_z_t.shape != (p_QSW_3D.shape[1],):
+                raise DimensionsError("rsdoabsorb: levels do not fit")
 
-            a = np.empty((p_QSW_3D.shape))
+            a = np.ma.empty((p_QSW_3D.shape))
 
             nlev = p_QSW_3D.shape[1]
             # fv = QSW_3D.fill_value
@@ -885,14 +889,14 @@ class rsdoabsorbFunction(Function):
             for t in range(p_QSW_3D.shape[0]):
                 for k in range(p_QSW_3D.shape[1]):
                     if k < nlev - 1:
-                        a[t, k, :, :] = np.where(
+                        a[t, k, :, :] = np.ma.where(
                             k < KMT - 1,
                             QSW_3D[t, k, :, :] - QSW_3D[t, k + 1, :, :],
                             QSW_3D[t, k, :, :],
                         )
                     else:
                         a[t, k, :, :] = QSW_3D[t, k, :, :]
-                    a[t, k, :, :] = np.where(k < KMT, a[t, k, :, :], fv)
+                    a[t, k, :, :] = np.ma.where(k < KMT, a[t, k, :, :], fv)
 
         ma_a = np.ma.masked_values(a, fv)
         new_name = "{}({}{}{})".format(self.key, p_KMT.name, p_z_t.name, p_QSW_3D.name)
@@ -903,7 +907,7 @@ class rsdoabsorbFunction(Function):
             p_QSW_3D.dimensions[2],
             p_QSW_3D.dimensions[3],
         ]
-        return PhysArray(ma_a, name=new_name, units=new_units, dimensions=new_dims)
+        return PhysArray(ma_a, name=new_name, units=new_units, dimensions=new_dims, positive=p_QSW_3D.positive)
 
 
 class POP_surf_meanFunction(Function):
-- 
2.43.0


From ad66b2352ee05b6d44e68d3bcee3f1dde80cbe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:29 +0000
Subject: [PATCH 097/111] fix: ocean means are over the valid cells of whole
 fields, and have units

---
 pyconform/modules/commonfunctions.py | 65 +++++++++++++++-------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index f091aed..fd1169d 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -910,7 +910,7 @@ class rsdoabsorbFunction(_Whole_, Function):
         return PhysArray(ma_a, name=new_name, units=new_units, dimensions=new_dims, positive=p_QSW_3D.positive)
 
 
-class POP_surf_meanFunction(Function):
+class POP_surf_meanFunction(_Whole_, Function):
     key = "POP_surf_mean"
 
     def __init__(self, KMT, TAREA, FIELD):
@@ -921,31 +921,36 @@ class POP_surf_meanFunction(Function):
         if len(FIELD_info.dimensions) != 3:
             raise DimensionsError("POP_surf_mean: FIELD can only be 3D")
 
-    def __getitem__(self, index):
+    def _all_(self, index):
         p_KMT = self.arguments[0][index]
         p_TAREA = self.arguments[1][index]
         p_FIELD = self.arguments[2][index]
 
         if index is None:
-            return PhysArray(np.zeros((0,)), dimensions=[p_FIELD.dimensions[0]])
+            return PhysArray(
+                np.zeros((0,)),
+                dimensions=[p_FIELD.dimensions[0]],
+                units=p_FIELD.units,
+                positive=p_FIELD.positive,
+            )
 
-        KMT = p_KMT.data
-        TAREA = p_TAREA.data
-        FIELD = p_FIELD.data
+        KMT = _levels_(p_KMT.transpose(p_FIELD.dimensions[-2:]))
+        TAREA = _masked_(p_TAREA.transpose(p_FIELD.dimensions[-2:]))
+        FIELD = _masked_(p_FIELD)
 
-        a = np.empty((p_FIELD.shape[0],))
+        a = np.ma.empty((p_FIELD.shape[0],))
         for t in range(p_FIELD.shape[0]):
-            a[t] = np.sum(np.where(KMT > 0, TAREA * FIELD[t, :, :], 0.0))
-        denom = np.sum(np.where(KMT > 0, TAREA, 0.0))
-        a[:] *= 1.0 / denom
+            # Mean over the valid cells of the ocean
+            f = np.ma.masked_where(KMT <= 0, TAREA * FIELD[t, :, :])
+            a[t] = np.ma.sum(f) / np.ma.sum(np.ma.array(TAREA, mask=f.mask))
 
         new_name = "{}({}{}{})".format(self.key, p_KMT.name, p_TAREA.name, p_FIELD.name)
         new_units = p_FIELD.units
         new_dims = [p_FIELD.dimensions[0]]
-        return PhysArray(a, name=new_name, units=new_units, dimensions=new_dims)
+        return PhysArray(a, name=new_name, units=new_units, dimensions=new_dims, positive=p_FIELD.positive)
 
 
-class POP_3D_meanFunction(Function):
+class POP_3D_meanFunction(_Whole_, Function):
     key = "POP_3D_mean"
 
     def __init__(self, KMT, dz, TAREA, FIELD):
@@ -956,38 +961,40 @@ class POP_3D_meanFunction(Function):
         if len(FIELD_info.dimensions) != 4:
             raise DimensionsError("POP_3D_mean: FIELD can only be 4D")
 
-    def __getitem__(self, index):
+    def _all_(self, index):
         p_KMT = self.arguments[0][index]
         p_dz = self.arguments[1][index]
         p_TAREA = self.arguments[2][index]
         p_FIELD = self.arguments[3][index]
 
         if index is None:
-            return PhysArray(np.zeros((0,)), dimensions=[p_FIELD.dimensions[0]])
+            return PhysArray(
+                np.zeros((0,)),
+                dimensions=[p_FIELD.dimensions[0]],
+                units=p_FIELD.units,
+                positive=p_FIELD.positive,
+            )
 
-        KMT = p_KMT.data
-        dz = p_dz.data
-        TAREA = p_TAREA.data
-        FIELD = p_FIELD.data
+        KMT = _levels_(p_KMT.transpose(p_FIELD.dimensions[-2:]))
+        dz = _masked_(p_dz.transpose(p_FIELD.dimensions[1:2]))
+        TAREA = _masked_(p_TAREA.transpose(p_FIELD.dimensions[-2:]))
+        FIELD = _masked_(p_FIELD)
 
-        a = np.empty((p_FIELD.shape[0],))
+        a = np.ma.empty((p_FIELD.shape[0],))
         for t in range(p_FIELD.shape[0]):
-            a[t] = 0.0
-            for k in range(p_FIELD.shape[1]):
-                a[t] += dz[k] * np.sum(
-                    np.where(k < KMT, TAREA * FIELD[t, k, :, :], 0.0)
-                )
-        denom = 0.0
-        for k in range(p_FIELD.shape[1]):
-            denom += dz[k] * np.sum(np.where(k < KMT, TAREA, 0.0))
-        a[:] *= 1.0 / denom
+            # Mean over the valid cells of the ocean
+            k = np.arange(p_FIELD.shape[1])[:, None, None]
+            w = np.ma.masked_where(
+                np.ma.getmaskarray(FIELD[t]) | (k >= KMT), dz[:, None, None] * TAREA
+            )
+            a[t] = np.ma.sum(w * FIELD[t]) / np.ma.sum(w)
 
         new_name = "{}({}{}{}{})".format(
             self.key, p_KMT.name, p_dz.name, p_TAREA.name, p_FIELD.name
         )
         new_units = p_FIELD.units
         new_dims = [p_FIELD.dimensions[0]]
-        return PhysArray(a, name=new_name, units=new_units, dimensions=new_dims)
+        return PhysArray(a, name=new_name, units=new_units, dimensions=new_dims, positive=p_FIELD.positive)
 
 
 class sftofFunction(Function):
-- 
2.43.0


From a1c1e51610f173fed6be3d059d9ed525d55de4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:29 +0000
Subject: [PATCH 098/111] fix: the sea fraction has units, and none where there
 is no number of levels

---
 pyconform/modules/commonfunctions.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index fd1169d..8007afd 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -997,27 +997,35 @@ class POP_3D_meanFunction(_Whole_, Function):
         return PhysArray(a, name=new_name, units=new_units, dimensions=new_dims, positive=p_FIELD.positive)
 
 
-class sftofFunction(Function):
+class sftofFunction(_Whole_, Function):
     key = "sftof"
 
     def __init__(self, KMT):
         super(sftofFunction, self).__init__(KMT)
+        KMT_info = KMT if is_constant(KMT) else KMT[None]
+        if not isinstance(KMT_info, PhysArray):
+            raise TypeError("sftof: KMT must be a PhysArray")
+        if len(KMT_info.dimensions) != 2:
+            raise DimensionsError("sftof: KMT can only be 2D")
 
-    def __getitem__(self, index):
+    def _all_(self, index):
         p_KMT = self.arguments[0][index]
 
         if index is None:
             return PhysArray(
-                np.zeros((0, 0)), dimensions=[p_KMT.dimensions[0], p_KMT.dimensions[1]]
+                np.zeros((0, 0)),
+                dimensions=[p_KMT.dimensions[0], p_KMT.dimensions[1]],
+                units=p_KMT.units,
+                positive=p_KMT.positive,
             )
 
-        KMT = p_KMT.data
+        KMT = _masked_(p_KMT)
 
-        a = np.zeros((KMT.shape[0], KMT.shape[1]))
+        a = np.ma.array(np.zeros(KMT.shape), mask=np.ma.getmaskarray(KMT))
 
         for j in range(KMT.shape[0]):
             for i in range(KMT.shape[1]):
-                if KMT[j, i] > 0:
+                if KMT[j, i] is not np.ma.masked and KMT[j, i] > 0:
                     a[j, i] = 1
 
         new_name = "sftof({})".format(p_KMT.name)
@@ -1027,6 +1035,7 @@ class sftofFunction(Function):
             name=new_name,
             dimensions=[p_KMT.dimensions[0], p_KMT.dimensions[1]],
             units=p_KMT.units,
+            positive=p_KMT.positive,
         )
 
 
-- 
2.43.0


From c020e166955f052161f589261d8b39658bd79112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:29 +0000
Subject: [PATCH 099/111] fix: sums over ocean layers are over valid cells of
 whole fields

---
 pyconform/modules/commonfunctions.py | 50 ++++++++++++++++++----------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 8007afd..6c4c881 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1039,29 +1039,34 @@ class sftofFunction(_Whole_, Function):
         )
 
 
-class POP_bottom_layer_multaddFunction(Function):
+class POP_bottom_layer_multaddFunction(_Whole_, Function):
     key = "POP_bottom_layer_multadd"
 
     def __init__(self, KMT, data1, data2):
         super(POP_bottom_layer_multaddFunction, self).__init__(KMT, data1, data2)
+        data2_info = data2 if is_constant(data2) else data2[None]
+        if not isinstance(data2_info, PhysArray):
+            raise TypeError("POP_bottom_layer_multadd: data must be a PhysArray")
+        if len(data2_info.dimensions) != 4:
+            raise DimensionsError("POP_bottom_layer_multadd: data can only be 4D")
 
-    def __getitem__(self, index):
+    def _all_(self, index):
         p_KMT = self.arguments[0][index]
         p_data1 = self.arguments[1][index]
         p_data2 = self.arguments[2][index]
 
-        data1 = p_data1.data
-        data2 = p_data2.data
-        KMT = p_KMT.data
+        data1 = _masked_(p_data1.transpose(p_data2.dimensions[1:2]))
+        data2 = _masked_(p_data2)
+        KMT = _levels_(p_KMT.transpose(p_data2.dimensions[2:]))
 
-        a1 = np.zeros((p_data2.shape[0], p_data2.shape[2], p_data2.shape[3]))
-        a2 = np.zeros((p_data2.shape[0]))
+        a1 = np.ma.masked_all((p_data2.shape[0], p_data2.shape[2], p_data2.shape[3]))
+        a2 = np.ma.zeros((p_data2.shape[0]))
 
         for t in range(p_data2.shape[0]):
             for j in range(KMT.shape[0]):
                 for i in range(KMT.shape[1]):
                     k = KMT[j, i] - 1
-                    if data2[t, k, j, i] < 1e16:
+                    if k >= 0:
                         a1[t, j, i] = data1[k] * data2[t, k, j, i]
                         # print a1[t,j,i],data1[k],data2[t,k,j,i]
         for t in range(p_data2.shape[0]):
@@ -1073,24 +1078,33 @@ class POP_bottom_layer_multaddFunction(Function):
         )
         new_units = p_data1.units * p_data2.units
         return PhysArray(
-            a2, name=new_name, dimensions=[p_data2.dimensions[0]], units=new_units
+            a2,
+            name=new_name,
+            dimensions=[p_data2.dimensions[0]],
+            units=new_units,
+            positive=p_data2.positive,
         )
 
 
-class POP_layer_sum_multFunction(Function):
+class POP_layer_sum_multFunction(_Whole_, Function):
     key = "POP_layer_sum_mult"
 
     def __init__(self, KMT, data1, data2):
         super(POP_layer_sum_multFunction, self).__init__(KMT, data1, data2)
+        data2_info = data2 if is_constant(data2) else data2[None]
+        if not isinstance(data2_info, PhysArray):
+            raise TypeError("POP_layer_sum_mult: data must be a PhysArray")
+        if len(data2_info.dimensions) != 4:
+            raise DimensionsError("POP_layer_sum_mult: data can only be 4D")
 
-    def __getitem__(self, index):
+    def _all_(self, index):
         p_KMT = self.arguments[0][index]
         p_data1 = self.arguments[1][index]
         p_data2 = self.arguments[2][index]
 
-        data1 = p_data1.data
-        data2 = p_data2.data
-        KMT = p_KMT.data
+        data1 = _masked_(p_data1.transpose(p_data2.dimensions[1:2]))
+        data2 = _masked_(p_data2)
+        KMT = _levels_(p_KMT.transpose(p_data2.dimensions[2:]))
 
         a1 = np.zeros((p_data2.shape[0], p_data2.shape[2], p_data2.shape[3]))
 
@@ -1100,10 +1114,9 @@ class POP_layer_sum_multFunction(Function):
         for t in range(p_data2.shape[0]):
             for j in range(KMT.shape[0]):
                 for i in range(KMT.shape[1]):
-                    if KMT[j, i] > 0:
-                        a1[t, j, i] = 0.0
-                        for k in range(min(KMT[j, i], p_data2.shape[1])):
-                            a1[t, j, i] += data1[k] * data2[t, k, j, i]
+                    layers = data1[: KMT[j, i]] * data2[t, : KMT[j, i], j, i]
+                    if KMT[j, i] > 0 and np.ma.count(layers) > 0:
+                        a1[t, j, i] = np.ma.sum(layers)
                     else:
                         a1[t, j, i] = fv
 
@@ -1121,6 +1134,7 @@ class POP_layer_sum_multFunction(Function):
                 p_data2.dimensions[3],
             ],
             units=new_units,
+            positive=p_data2.positive,
         )
 
 
-- 
2.43.0


From bd71c7dd693d454b3cf2a06735c32c7cecfc402a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:29 +0000
Subject: [PATCH 100/111] fix: masked_invalid and burntFraction give
 dimensions, units and missing cells to their results

---
 pyconform/modules/commonfunctions.py | 34 ++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 6c4c881..742b834 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1143,6 +1143,11 @@ class masked_invalidFunction(Function):
 
     def __init__(self, data):
         super(masked_invalidFunction, self).__init__(data)
+        data_info = data if is_constant(data) else data[None]
+        if not isinstance(data_info, PhysArray):
+            raise TypeError("masked_invalid: data must be a PhysArray")
+        if len(data_info.dimensions) != 3:
+            raise DimensionsError("masked_invalid: data can only be 3D")
 
     def __getitem__(self, index):
         p_data = self.arguments[0][index]
@@ -1155,15 +1160,23 @@ class masked_invalidFunction(Function):
                     p_data.dimensions[1],
                     p_data.dimensions[2],
                 ],
+                units=p_data.units,
+                positive=p_data.positive,
             )
 
-        data = p_data.data
+        data = _masked_(p_data)
 
         a = np.ma.masked_invalid(data)
 
         new_name = "masked_invalid({})".format(p_data.name)
 
-        return PhysArray(a, name=new_name, units=p_data.units)
+        return PhysArray(
+            a,
+            name=new_name,
+            units=p_data.units,
+            positive=p_data.positive,
+            dimensions=p_data.dimensions,
+        )
 
 
 class hemisphereFunction(Function):
@@ -1417,6 +1430,11 @@ class burntFractionFunction(Function):
 
     def __init__(self, data):
         super(burntFractionFunction, self).__init__(data)
+        data_info = data if is_constant(data) else data[None]
+        if not isinstance(data_info, PhysArray):
+            raise TypeError("burntFraction: data must be a PhysArray")
+        if len(data_info.dimensions) != 3:
+            raise DimensionsError("burntFraction: data can only be 3D")
 
     def __getitem__(self, index):
         p_data = self.arguments[0][index]
@@ -1429,9 +1447,11 @@ class burntFractionFunction(Function):
                     p_data.dimensions[1],
                     p_data.dimensions[2],
                 ],
+                units=p_data.units,
+                positive=p_data.positive,
             )
 
-        data = p_data.data
+        data = _masked_(p_data)
 
         ml = [31.0, 28.0, 31.0, 30.0, 31.0, 30.0, 31.0, 31.0, 30.0, 31.0, 30.0, 31.0]
 
@@ -1451,7 +1471,13 @@ class burntFractionFunction(Function):
         a[a >= 1e16] = 1e20
         new_name = "burntFraction({})".format(p_data.name)
 
-        return PhysArray(a, name=new_name, units=p_data.units)
+        return PhysArray(
+            a,
+            name=new_name,
+            units=p_data.units,
+            positive=p_data.positive,
+            dimensions=p_data.dimensions,
+        )
 
 
 class reduce_luFunction(Function):
-- 
2.43.0


From 1a5b6d2dfc52b343618be064e00bd51ff5570f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:29 +0000
Subject: [PATCH 101/111] fix: every year of a burnt fraction begins with
 January, wherever a part of it begins

---
 pyconform/modules/commonfunctions.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 742b834..856b365 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1425,7 +1425,7 @@ class cice_regionsFunction(Function):
         )
 
 
-class burntFractionFunction(Function):
+class burntFractionFunction(_AllTimesOfData_, Function):
     key = "burntFraction"
 
     def __init__(self, data):
@@ -1436,7 +1436,7 @@ class burntFractionFunction(Function):
         if len(data_info.dimensions) != 3:
             raise DimensionsError("burntFraction: data can only be 3D")
 
-    def __getitem__(self, index):
+    def _all_(self, index):
         p_data = self.arguments[0][index]
 
         if index is None:
@@ -1461,14 +1461,13 @@ class burntFractionFunction(Function):
         for t in range(0, data.shape[0]):
             for x in range(0, data.shape[1]):
                 for y in range(0, data.shape[2]):
-                    if data[t, x, y] < 1e16:
+                    if data[t, x, y] is not np.ma.masked:
                         a[t, x, y] = data[t, x, y] * ml[i] * 86400 * 100
                     else:
-                        a[t, x, y] = 1e20
+                        a[t, x, y] = np.ma.masked
             i += 1
             if i == 12:
-                i = 1
-        a[a >= 1e16] = 1e20
+                i = 0
         new_name = "burntFraction({})".format(p_data.name)
 
         return PhysArray(
-- 
2.43.0


From 52caa5237b8144763ca52880fe347df24dcf74f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:58 +0000
Subject: [PATCH 102/111] fix: soil pools are of the same units and dimensions,
 and keep missing cells

---
 pyconform/modules/commonfunctions.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 856b365..dbe46bf 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1518,23 +1518,34 @@ class reduce_luFunction(Function):
         )
 
 
-class get_soilpoolsFunction(Function):
+class get_soilpoolsFunction(_Whole_, Function):
     key = "get_soilpools"
+    _data_argument = 0
 
     def __init__(self, p_data1, p_data2, p_data3, p_soilpool):
         super(get_soilpoolsFunction, self).__init__(
             p_data1, p_data2, p_data3, p_soilpool
         )
+        for p_data in (p_data1, p_data2, p_data3):
+            data_info = p_data if is_constant(p_data) else p_data[None]
+            if not isinstance(data_info, PhysArray):
+                raise TypeError("get_soilpools: data must be PhysArrays")
+            if len(data_info.dimensions) != 3:
+                raise DimensionsError("get_soilpools: data can only be 3D")
 
-    def __getitem__(self, index):
+    def _all_(self, index):
         p_data1 = self.arguments[0][index]
         p_data2 = self.arguments[1][index]
         p_data3 = self.arguments[2][index]
         p_soilpool = self.arguments[3][index]
 
-        data1 = p_data1.data
-        data2 = p_data2.data
-        data3 = p_data3.data
+        data1 = _masked_(p_data1)
+        data2, data3 = (
+            _masked_(p_data.convert(p_data1.units).transpose(p_data1.dimensions))
+            for p_data in (p_data2, p_data3)
+        )
+        if index is not None and p_soilpool.shape != (3,):
+            raise DimensionsError("get_soilpools: there must be 3 soil pools")
 
         data = np.ma.zeros((data1.shape[0], 3, data1.shape[1], data1.shape[2]))
 
@@ -1542,9 +1553,6 @@ class get_soilpoolsFunction(Function):
         data[:, 1, :, :] = data2
         data[:, 2, :, :] = data3
 
-        data[data >= 1e16] = 1e20
-        data = np.ma.masked_values(data, 1e20)
-
         new_name = "soilpools({}{}{}{})".format(
             p_data1.name, p_data2.name, p_data3.name, p_soilpool.name
         )
@@ -1558,6 +1566,7 @@ class get_soilpoolsFunction(Function):
                 p_data1.dimensions[2],
             ],
             units=p_data1.units,
+            positive=p_data1.positive,
         )
 
 
-- 
2.43.0


From 0524c8f2eb4594da2325d0a82fdbda199044f253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:58 +0000
Subject: [PATCH 103/111] fix: reduced land uses keep missing cells and
 direction

---
 pyconform/modules/commonfunctions.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index dbe46bf..7a15755 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1479,17 +1479,25 @@ class burntFractionFunction(_AllTimesOfData_, Function):
         )
 
 
-class reduce_luFunction(Function):
+class reduce_luFunction(_Whole_, Function):
     key = "reduce_lu"
+    _data_argument = 0
 
     def __init__(self, p_data, p_lu):
         super(reduce_luFunction, self).__init__(p_data, p_lu)
+        data_info = p_data if is_constant(p_data) else p_data[None]
+        if not isinstance(data_info, PhysArray):
+            raise TypeError("reduce_lu: data must be a PhysArray")
+        if len(data_info.dimensions) != 4:
+            raise DimensionsError("reduce_lu: data can only be 4D")
 
-    def __getitem__(self, index):
+    def _all_(self, index):
         p_data = self.arguments[0][index]
         p_lu = self.arguments[1][index]
 
-        data = p_data.data
+        data = _masked_(p_data)
+        if index is not None and p_lu.shape != (4,):
+            raise DimensionsError("reduce_lu: there must be 4 kinds of land use")
 
         data2 = np.ma.zeros((data.shape[0], 4, data.shape[2], data.shape[3]))
 
@@ -1502,8 +1510,6 @@ class reduce_luFunction(Function):
                     data2[t, 3, x, y] = (
                         data[t, 6, x, y] + data[t, 7, x, y] + data[t, 8, x, y]
                     )
-        data2[data2 >= 1e16] = 1e20
-
         new_name = "reduce_lu({}{})".format(p_data.name, p_lu.name)
         return PhysArray(
             data2,
@@ -1515,6 +1521,7 @@ class reduce_luFunction(Function):
                 p_data.dimensions[3],
             ],
             units=p_data.units,
+            positive=p_data.positive,
         )
 
 
-- 
2.43.0


From 373e7d5b80085ce8cb207a904d90e4489e7892b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:58 +0000
Subject: [PATCH 104/111] fix: expanded series keep missing cells and direction

---
 pyconform/modules/commonfunctions.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 7a15755..cb4676e 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1638,18 +1638,24 @@ class get_nonwoodyvegFunction(Function):
         )
 
 
-class expand_latlonFunction(Function):
+class expand_latlonFunction(_Whole_, Function):
     key = "expand_latlon"
+    _data_argument = 0
 
     def __init__(self, p_data1, p_lat, p_lon):
         super(expand_latlonFunction, self).__init__(p_data1, p_lat, p_lon)
+        data_info = p_data1 if is_constant(p_data1) else p_data1[None]
+        if not isinstance(data_info, PhysArray):
+            raise TypeError("expand_latlon: data must be a PhysArray")
+        if len(data_info.dimensions) != 1:
+            raise DimensionsError("expand_latlon: data can only be 1D")
 
-    def __getitem__(self, index):
+    def _all_(self, index):
         p_data1 = self.arguments[0][index]
         p_lat = self.arguments[1][index]
         p_lon = self.arguments[2][index]
 
-        data1 = p_data1.data
+        data1 = _masked_(p_data1)
         lat = p_lat.data
         lon = p_lon.data
 
@@ -1659,9 +1665,6 @@ class expand_latlonFunction(Function):
             for y in range(lon.shape[0]):
                 data[:, x, y] = data1
 
-        data[data >= 1e16] = 1e20
-        data = np.ma.masked_values(data, 1e20)
-
         new_name = "expand_latlon({}{}{})".format(p_data1.name, p_lat.name, p_lon.name)
         return PhysArray(
             data,
@@ -1672,6 +1675,7 @@ class expand_latlonFunction(Function):
                 p_lon.dimensions[0],
             ],
             units=p_data1.units,
+            positive=p_data1.positive,
         )
 
 
-- 
2.43.0


From 2f8bb082680cfd921a5f95e7effe845481682672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:58 +0000
Subject: [PATCH 105/111] fix: hemispheres are halves of whole fields

---
 pyconform/modules/commonfunctions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index cb4676e..6488deb 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1184,8 +1184,16 @@ class hemisphereFunction(Function):
 
     def __init__(self, data, dim="dim", dr="dr"):
         super(hemisphereFunction, self).__init__(data, dim=dim, dr=dr)
+        data_info = data if is_constant(data) else data[None]
+        if not isinstance(data_info, PhysArray):
+            raise TypeError("hemisphere: data must be a PhysArray")
+        if len(data_info.dimensions) != 3:
+            raise DimensionsError("hemisphere: data can only be 3D")
 
     def __getitem__(self, index):
+        return self._all_(None) if index is None else self._all_(())[index]
+
+    def _all_(self, index):
         p_data = self.arguments[0][index]
         dim = self.keywords["dim"]
         dr = self.keywords["dr"]
-- 
2.43.0


From 10b31e8ab0c4f153f96dfd0c90ea854db4a63567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:58 +0000
Subject: [PATCH 106/111] fix: cice_where takes the values of each time, and
 keeps units and direction

---
 pyconform/modules/commonfunctions.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 6488deb..ea344ec 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1220,37 +1220,50 @@ class hemisphereFunction(Function):
                 return p_data[:, :, 0 : (data.shape[2] // 2)]
 
 
-class cice_whereFunction(Function):
+class cice_whereFunction(_Whole_, Function):
     key = "cice_where"
+    _data_argument = 0
 
     def __init__(self, a1, condition, a2, var, value):
         super(cice_whereFunction, self).__init__(a1, condition, a2, var, value)
+        data_info = a1 if is_constant(a1) else a1[None]
+        if not isinstance(data_info, PhysArray):
+            raise TypeError("cice_where: data must be a PhysArray")
+        if len(data_info.dimensions) != 3:
+            raise DimensionsError("cice_where: data can only be 3D")
 
-    def __getitem__(self, index):
+    def _all_(self, index):
         a1 = self.arguments[0][index]
         condition = self.arguments[1]
         a2 = self.arguments[2]
         var = self.arguments[3][index]
+        if set(var.dimensions) == set(a1.dimensions[1:]):
+            var = var.transpose(a1.dimensions[1:])
+        else:
+            var = var.transpose(a1.dimensions)
         value = self.arguments[4]
 
         if index is None:
             return PhysArray(
                 a1.data,
                 dimensions=[a1.dimensions[0], a1.dimensions[1], a1.dimensions[2]],
+                units=var.units,
+                positive=var.positive,
             )
 
         a = np.ma.zeros(a1.shape)
         for t in range(a1.data.shape[0]):
+            values = var if len(var.dimensions) == 2 else var[t, :, :]
             if ">=" in condition:
-                a[t, :, :] = np.ma.where(a1[t, :, :] >= a2, var, value)
+                a[t, :, :] = np.ma.where(a1[t, :, :] >= a2, values, value)
             elif "<=" in condition:
-                a[t, :, :] = np.ma.where(a1[t, :, :] <= a2, var, value)
+                a[t, :, :] = np.ma.where(a1[t, :, :] <= a2, values, value)
             elif "==" in condition:
-                a[t, :, :] = np.ma.where(a1[t, :, :] == a2, var, value)
+                a[t, :, :] = np.ma.where(a1[t, :, :] == a2, values, value)
             elif "<" in condition:
-                a[t, :, :] = np.ma.where(a1[t, :, :] < a2, var, value)
+                a[t, :, :] = np.ma.where(a1[t, :, :] < a2, values, value)
             elif ">" in condition:
-                a[t, :, :] = np.ma.where(a1[t, :, :] > a2, var, value)
+                a[t, :, :] = np.ma.where(a1[t, :, :] > a2, values, value)
 
         new_name = "cice_where()".format()
         return PhysArray(
@@ -1258,6 +1271,7 @@ class cice_whereFunction(Function):
             name=new_name,
             dimensions=[a1.dimensions[0], a1.dimensions[1], a1.dimensions[2]],
             units=var.units,
+            positive=var.positive,
         )
 
 
-- 
2.43.0


From 0d1af0137b52ed071cac4ee61a80c26b90733554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:28 +0000
Subject: [PATCH 107/111] fix: values of land units and plant types are gridded
 with dimensions, direction and missing cells, also in parts

---
 .../modules/CLM_landunit_to_CMIP6_Lut.py      | 83 ++++++++++++++-----
 pyconform/modules/CLM_pft_to_CMIP6_vegtype.py | 31 +++++--
 2 files changed, 87 insertions(+), 27 deletions(-)

diff --git a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
index 3101987..d204ae1 100644
--- a/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
+++ b/pyconform/modules/CLM_landunit_to_CMIP6_Lut.py
@@ -6,7 +6,7 @@ import sys
 import numpy as np
 
 from pyconform.functions import Function
-from pyconform.physarray import PhysArray
+from pyconform.physarray import DimensionsError, PhysArray
 
 
 class CLM_landunit_to_CMIP6_Lut_Function(Function):
@@ -50,6 +50,15 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
         )
 
     def __getitem__(self, index):
+        # A part needs the whole grid, but for its times
+        if isinstance(index, dict):
+            tdim = self.arguments[2][None].dimensions[0]
+            if isinstance(index.get(tdim), slice):
+                rest = {d: index[d] for d in index if d != tdim}
+                return self._all_({tdim: index[tdim]})[rest]
+        return self._all_(None) if index is None else self._all_(())[index]
+
+    def _all_(self, index):
 
         pEFLX_LH_TOT = self.arguments[0][index]
         vegType = self.arguments[1]
@@ -67,28 +76,32 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
         pland1d_wtgcell = self.arguments[13][index]
         landUse = self.arguments[14][index]
 
+        # The values of the landunits at all times
+        pEFLX_LH_TOT = pEFLX_LH_TOT.transpose(
+            pntim.dimensions + pland1d_lon.dimensions
+        )
+        dims = pntim.dimensions + pnlat.dimensions + pnlon.dimensions
+        all_dims = dims[:1] + landUse.dimensions + dims[1:]
+
         if index is None:
             if "all" in vegType:
                 return PhysArray(
-                    np.zeros((0, 4, 0, 0)),
-                    dimensions=[
-                        pntim.dimensions[0],
-                        landUse.dimensions[0],
-                        pnlat.dimensions[0],
-                        pnlon.dimensions[0],
-                    ],
+                    np.zeros((0, 0, 0, 0)),
+                    dimensions=all_dims,
+                    units=pEFLX_LH_TOT.units,
+                    positive=pEFLX_LH_TOT.positive,
                 )
             else:
                 return PhysArray(
                     np.zeros((0, 0, 0)),
-                    dimensions=[
-                        pntim.dimensions[0],
-                        pnlat.dimensions[0],
-                        pnlon.dimensions[0],
-                    ],
+                    dimensions=dims,
+                    units=pEFLX_LH_TOT.units,
+                    positive=pEFLX_LH_TOT.positive,
                 )
 
-        EFLX_LH_TOT = pEFLX_LH_TOT.data
+        EFLX_LH_TOT = np.where(
+            np.ma.getmaskarray(pEFLX_LH_TOT), 1e36, np.ma.getdata(pEFLX_LH_TOT)
+        )
         ntim = pntim.data
         nlat = pnlat.data
         nlon = pnlon.data
@@ -117,6 +130,10 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
         # Will contain landunit variables for veg, crop, pasture, and urban on 2d grid
         # varo_lut_temp = np.full([len(ntim),4,len(nlat),len(nlon)],fill_value=missing)
         # varo_lut = np.ma.masked_values(varo_lut_temp, missing)
+        if landUse.shape != (4,):
+            raise DimensionsError(
+                "CLM_landunit_to_CMIP6_Lut: there must be 4 kinds of land use"
+            )
         varo_lut = np.zeros([len(ntim), 4, len(nlat), len(nlon)])
         # Set pasture to fill value
         varo_lut[:, pasture, :, :] = 1e20
@@ -234,23 +251,49 @@ class CLM_landunit_to_CMIP6_Lut_Function(Function):
 
         if "crop" in vegType:
             return PhysArray(
-                mvaro_lut[:, crop, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, crop, :, :],
+                name=new_name,
+                dimensions=dims,
+                units=pEFLX_LH_TOT.units,
+                positive=pEFLX_LH_TOT.positive,
             )
         elif "veg" in vegType:
             return PhysArray(
-                mvaro_lut[:, veg, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, veg, :, :],
+                name=new_name,
+                dimensions=dims,
+                units=pEFLX_LH_TOT.units,
+                positive=pEFLX_LH_TOT.positive,
             )
         elif "urban" in vegType:
             return PhysArray(
-                mvaro_lut[:, urban, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, urban, :, :],
+                name=new_name,
+                dimensions=dims,
+                units=pEFLX_LH_TOT.units,
+                positive=pEFLX_LH_TOT.positive,
             )
         elif "pasture" in vegType:
             return PhysArray(
-                mvaro_lut[:, pasture, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, pasture, :, :],
+                name=new_name,
+                dimensions=dims,
+                units=pEFLX_LH_TOT.units,
+                positive=pEFLX_LH_TOT.positive,
             )
         elif "nlut" in vegType:
             return PhysArray(
-                mvaro_lut[:, nlut, :, :], name=new_name, units=pEFLX_LH_TOT.units
+                mvaro_lut[:, nlut, :, :],
+                name=new_name,
+                dimensions=dims,
+                units=pEFLX_LH_TOT.units,
+                positive=pEFLX_LH_TOT.positive,
             )
         elif "all" in vegType:
-            return PhysArray(mvaro_lut, name=new_name, units=pEFLX_LH_TOT.units)
+            return PhysArray(
+                mvaro_lut,
+                name=new_name,
+                dimensions=all_dims,
+                units=pEFLX_LH_TOT.units,
+                positive=pEFLX_LH_TOT.positive,
+            )
diff --git a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
index 9717b97..e1bd25c 100644
--- a/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
+++ b/pyconform/modules/CLM_pft_to_CMIP6_vegtype.py
@@ -57,6 +57,15 @@ class CLM_pft_to_CMIP6_vegtype_Function(Function):
         )
 
     def __getitem__(self, index):
+        # A part needs the whole grid, but for its times
+        if isinstance(index, dict):
+            tdim = self.arguments[2][None].dimensions[0]
+            if isinstance(index.get(tdim), slice):
+                rest = {d: index[d] for d in index if d != tdim}
+                return self._all_({tdim: index[tdim]})[rest]
+        return self._all_(None) if index is None else self._all_(())[index]
+
+    def _all_(self, index):
 
         pGPP = self.arguments[0][index]
 
@@ -79,17 +88,19 @@ class CLM_pft_to_CMIP6_vegtype_Function(Function):
         ppfts1d_wtgcell = self.arguments[16][index]
         ppfts1d_wtlunit = self.arguments[17][index]
 
+        # The values of the pfts at all times
+        pGPP = pGPP.transpose(ptime.dimensions + ppfts1d_lon.dimensions)
+        dims = ptime.dimensions + plat.dimensions + plon.dimensions
+
         if index is None:
             return PhysArray(
                 np.zeros((0, 0, 0)),
-                dimensions=[
-                    ptime.dimensions[0],
-                    plat.dimensions[0],
-                    plon.dimensions[0],
-                ],
+                dimensions=dims,
+                units=pGPP.units,
+                positive=pGPP.positive,
             )
 
-        GPP = pGPP.data
+        GPP = np.where(np.ma.getmaskarray(pGPP), 1e36, np.ma.getdata(pGPP))
         time = ptime.data
         lat = plat.data
         lon = plon.data
@@ -264,7 +275,13 @@ class CLM_pft_to_CMIP6_vegtype_Function(Function):
         varo_vegType[varo_vegType >= 1e16] = 1e20
         ma_varo_vegType = np.ma.masked_values(varo_vegType, 1e20)
 
-        return PhysArray(ma_varo_vegType, name=new_name, units=pGPP.units)
+        return PhysArray(
+            ma_varo_vegType,
+            name=new_name,
+            dimensions=dims,
+            units=pGPP.units,
+            positive=pGPP.positive,
+        )
 
 
 def main(argv=None):
-- 
2.43.0


From db5d5972e26e4ace54a4117a6dfa2749ba86b3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:13 +0000
Subject: [PATCH 108/111] fix: zonal means are not made of parts along the
 dimension that is reduced

---
 pyconform/modules/commonfunctions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index ea344ec..a1b81bf 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -17,6 +17,7 @@ class ZonalMeanFunction(Function):
         data_info = data if is_constant(data) else data[None]
         if not isinstance(data_info, PhysArray):
             raise TypeError("mean: Data must be a PhysArray")
+        self.add_sumlike_dimensions(*data_info.dimensions[3:4])
 
     def __getitem__(self, index):
         data = self.arguments[0][index]
-- 
2.43.0


From 1d8e06f1042572c9da0bec07806131ce0e0da37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:13 +0000
Subject: [PATCH 109/111] fix: ages of air have whole years, dimensions and
 missing cells, also in parts

---
 pyconform/modules/commonfunctions.py | 39 ++++++++++++++++------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index a1b81bf..584e6f0 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -520,34 +520,33 @@ class AgeofAirFunction(Function):
         super(AgeofAirFunction, self).__init__(spc_zm, date, time, lat, lev)
 
     def __getitem__(self, index):
+        return self._all_(None) if index is None else self._all_(())[index]
+
+    def _all_(self, index):
         p_spc_zm = self.arguments[0][index]
         p_date = self.arguments[1][index]
         p_time = self.arguments[2][index]
         p_lat = self.arguments[3][index]
         p_lev = self.arguments[4][index]
 
+        dims = p_time.dimensions + p_lev.dimensions + p_lat.dimensions
+        p_spc_zm = p_spc_zm.transpose(dims)
+
         if index is None:
-            return PhysArray(
-                np.zeros((0, 0, 0)),
-                dimensions=[
-                    p_time.dimensions[0],
-                    p_lev.dimensions[0],
-                    p_lat.dimensions[0],
-                ],
-            )
+            return PhysArray(np.zeros((0, 0, 0)), dimensions=dims, units="yr")
 
-        spc_zm = p_spc_zm.data
+        spc_zm = _masked_(p_spc_zm)
         date = p_date.data
         time = p_time.data
         lat = p_lat.data
         lev = p_lev.data
 
-        a = np.zeros((len(time), len(lev), len(lat)))
+        a = np.ma.zeros((len(time), len(lev), len(lat)))
 
         # Unpack month and year.  Adjust to compensate for the output
         # convention in h0 files
-        year = date / 10000
-        month = date / 100 % 100
+        year = date // 10000
+        month = date // 100 % 100
         # day = date - 10000 * year - 100 * month
 
         month = month - 1
@@ -558,18 +557,26 @@ class AgeofAirFunction(Function):
 
         timeyr = year + (month - 0.5) / 12.0
 
+        # Times at which the reference is known
         spc_ref = spc_zm[:, 0, 0]
-        for iy in range(len(lat)):
+        known = ~np.ma.getmaskarray(spc_ref)
+        if not known.any():
+            a[...] = np.ma.masked
+        for iy in range(len(lat) if known.any() else 0):
             for iz in range(len(lev)):
                 spc_local = spc_zm[:, iz, iy]
-                time0 = np.interp(spc_local, spc_ref, timeyr)
-                a[:, iz, iy] = timeyr - time0
+                time0 = np.interp(
+                    spc_local.filled(0), spc_ref[known].filled(), timeyr[known]
+                )
+                a[:, iz, iy] = np.ma.array(
+                    timeyr - time0, mask=np.ma.getmaskarray(spc_local)
+                )
 
         new_name = "ageofair({}{}{}{}{})".format(
             p_spc_zm.name, p_date.name, p_time.name, p_lat.name, p_lev.name
         )
 
-        return PhysArray(a, name=new_name, units="yr")
+        return PhysArray(a, name=new_name, units="yr", dimensions=dims)
 
 
 class YeartoMonth_dataFunction(_AllTimesOfData_, Function):
-- 
2.43.0


From 9eb73bdbfdbf651554f55abcd358d62c9406b77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:13 +0000
Subject: [PATCH 110/111] fix: land use of non-woody vegetation has dimensions,
 direction and missing cells, also in parts

---
 pyconform/modules/commonfunctions.py | 46 +++++++++++++++++++---------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 584e6f0..2501d76 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1607,30 +1607,48 @@ class get_soilpoolsFunction(_Whole_, Function):
         )
 
 
-class get_nonwoodyvegFunction(Function):
+class get_nonwoodyvegFunction(_Whole_, Function):
     key = "get_nonwoodyveg"
+    _data_argument = 0
 
     def __init__(self, p_pct_nat_pft, p_pct_crop, p_landfrac, p_landUse):
         super(get_nonwoodyvegFunction, self).__init__(
             p_pct_nat_pft, p_pct_crop, p_landfrac, p_landUse
         )
 
-    def __getitem__(self, index):
+    def _all_(self, index):
         p_pct_nat_pft = self.arguments[0][index]
         p_pct_crop = self.arguments[1][index]
         p_landfrac = self.arguments[2][index]
         p_landUse = self.arguments[3][index]
 
-        pct_nat_pft = p_pct_nat_pft.data
-        pct_crop = p_pct_crop.data
-        landfrac = p_landfrac.data
+        if len(p_pct_nat_pft.dimensions) != 4 or len(p_pct_crop.dimensions) != 4:
+            raise DimensionsError("get_nonwoodyveg: percentages can only be 4D")
+        dims = p_pct_nat_pft.dimensions
+        new_dims = [dims[0], p_landUse.dimensions[0], dims[2], dims[3]]
+        p_landfrac = p_landfrac.transpose(dims[2:])
+
+        if index is None:
+            return PhysArray(
+                np.zeros((0, 0, 0, 0)),
+                dimensions=new_dims,
+                units=p_pct_nat_pft.units,
+                positive=p_pct_nat_pft.positive,
+            )
+        if p_landUse.shape != (4,):
+            raise DimensionsError("get_nonwoodyveg: there must be 4 kinds of land use")
+        if p_pct_nat_pft.shape[1] < 15 or p_pct_crop.shape[1] < 2:
+            raise DimensionsError("get_nonwoodyveg: there must be 15 pfts and 2 crops")
+
+        pct_nat_pft = _filled_(p_pct_nat_pft)
+        pct_crop = _masked_(
+            p_pct_crop.transpose((dims[0], p_pct_crop.dimensions[1], dims[2], dims[3]))
+        )
+        landfrac = _filled_(p_landfrac)
 
         data = np.ma.zeros(
             (p_pct_nat_pft.shape[0], 4, p_pct_nat_pft.shape[2], p_pct_nat_pft.shape[3])
         )
-        if index is None:
-            return data
-
         data[:, 0, :, :] = (
             pct_nat_pft[:, 12, :, :]
             + pct_nat_pft[:, 13, :, :]
@@ -1641,7 +1659,9 @@ class get_nonwoodyvegFunction(Function):
                 for j in range(p_pct_nat_pft.shape[3]):
                     if landfrac[i, j] <= 1.0:
                         data[t, 1, i, j] = 0.0
-                        if pct_crop[t, 1, i, j] > 0.0:
+                        if pct_crop[t, 1, i, j] is np.ma.masked:
+                            data[t, 2, i, j] = 1e20
+                        elif pct_crop[t, 1, i, j] > 0.0:
                             data[t, 2, i, j] = 100.0
                         else:
                             data[t, 2, i, j] = 0.0
@@ -1658,13 +1678,9 @@ class get_nonwoodyvegFunction(Function):
         return PhysArray(
             data,
             name=new_name,
-            dimensions=[
-                p_pct_nat_pft.dimensions[0],
-                p_landUse.dimensions[0],
-                p_pct_nat_pft.dimensions[1],
-                p_pct_nat_pft.dimensions[2],
-            ],
+            dimensions=new_dims,
             units=p_pct_nat_pft.units,
+            positive=p_pct_nat_pft.positive,
         )
 
 
-- 
2.43.0


From 05f28999b457761e8ad220d01e1870d3440e9564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:13 +0000
Subject: [PATCH 111/111] fix: basins have dimensions, direction and missing
 cells, also in parts

---
 pyconform/modules/commonfunctions.py | 32 ++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/pyconform/modules/commonfunctions.py b/pyconform/modules/commonfunctions.py
index 2501d76..99a12e4 100644
--- a/pyconform/modules/commonfunctions.py
+++ b/pyconform/modules/commonfunctions.py
@@ -1725,18 +1725,34 @@ class expand_latlonFunction(_Whole_, Function):
         )
 
 
-class ocean_basinFunction(Function):
+class ocean_basinFunction(_Whole_, Function):
     key = "ocean_basin"
+    _data_argument = 0
 
     def __init__(self, p_data1, p_comp, p_basin):
         super(ocean_basinFunction, self).__init__(p_data1, p_comp, p_basin)
 
-    def __getitem__(self, index):
+    def _all_(self, index):
         p_data1 = self.arguments[0][index]
         p_comp = self.arguments[1]
         p_basin = self.arguments[2][index]
 
-        data1 = p_data1.data
+        dims = p_data1.dimensions
+        if len(dims) != 5:
+            raise DimensionsError("ocean_basin: data can only be 5D")
+        new_dims = [dims[0], dims[4], dims[3], p_basin.dimensions[0]]
+
+        if index is None:
+            return PhysArray(
+                np.zeros((0, 0, 0, 0)),
+                dimensions=new_dims,
+                units=p_data1.units,
+                positive=p_data1.positive,
+            )
+        if p_basin.shape != (3,):
+            raise DimensionsError("ocean_basin: there must be 3 basins")
+
+        data1 = _filled_(p_data1)
         comp = int(p_comp)
         basin = p_basin.data
 
@@ -1749,6 +1765,8 @@ class ocean_basinFunction(Function):
                 for y in range(data1.shape[3]):
                     data[t, x, y, 0] = data1[t, 1, comp, y, x]
                     data[t, x, y, 1] = data1[t, 0, comp, y, x] - data1[t, 1, comp, y, x]
+                    if data1[t, 1, comp, y, x] >= 1e16:
+                        data[t, x, y, 1] = 1e20
                     data[t, x, y, 2] = data1[t, 0, comp, y, x]
 
         data[data >= 1e16] = 1e20
@@ -1758,13 +1776,9 @@ class ocean_basinFunction(Function):
         return PhysArray(
             data,
             name=new_name,
-            dimensions=[
-                p_data1.dimensions[0],
-                p_data1.dimensions[4],
-                p_data1.dimensions[3],
-                p_basin.dimensions[0],
-            ],
+            dimensions=new_dims,
             units=p_data1.units,
+            positive=p_data1.positive,
         )
 
 
-- 
2.43.0

