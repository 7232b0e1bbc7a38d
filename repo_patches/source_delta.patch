From 210bd29a608c7288d42718fb46d7393028225258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 01/41] fix: use numpy.floating where numpy.float (removed in
 NumPy 1.24) made DataNode and ReadNode fail

---
 pyconform/flownodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index f38615b..a23b969 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -124,7 +124,7 @@ class DataNode(FlowNode):
         """
         # Determine type and upcast, if necessary
         array = PhysArray(data)
-        if issubclass(array.dtype.type, numpy.float) and array.dtype.itemsize < 8:
+        if issubclass(array.dtype.type, numpy.floating) and array.dtype.itemsize < 8:
             array = array.astype(numpy.float64)
 
         # Store data
@@ -262,7 +262,7 @@ class ReadNode(FlowNode):
             data = ncvar[index12]
 
             # Upconvert, if possible
-            if issubclass(ncvar.dtype.type, numpy.float) and ncvar.dtype.itemsize < 8:
+            if issubclass(ncvar.dtype.type, numpy.floating) and ncvar.dtype.itemsize < 8:
                 data = data.astype(numpy.float64)
 
             # Read the positive attribute, if available
-- 
2.43.0


From 0ca04bf4c5af6ab8f83e6b6e821e9abaf96dd03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 02/41] fix: load user modules with importlib in xconform (the
 imp module was removed in Python 3.12)

---
 pyconform/cli/xconform.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pyconform/cli/xconform.py b/pyconform/cli/xconform.py
index 5dd4f8f..3036d5a 100755
--- a/pyconform/cli/xconform.py
+++ b/pyconform/cli/xconform.py
@@ -11,10 +11,11 @@ COPYRIGHT: 2017-2020, University Corporation for Atmospheric Research
 LICENSE: See the LICENSE.rst file for details
 """
 
+import sys
 from argparse import ArgumentParser, ArgumentTypeError
 from collections import OrderedDict
 from glob import glob
-from imp import load_source
+from importlib.util import module_from_spec, spec_from_file_location
 from json import load as json_load
 from os.path import exists
 from warnings import simplefilter
@@ -27,6 +28,17 @@ from pyconform.datasets import InputDatasetDesc, OutputDatasetDesc
 from pyconform.flownodes import ValidationWarning
 
 
+def load_source(name, path):
+    """
+    Load (and register) a user-defined module from a source file path
+    """
+    spec = spec_from_file_location(name, path)
+    module = module_from_spec(spec)
+    sys.modules[name] = module
+    spec.loader.exec_module(module)
+    return module
+
+
 def chunk(arg):
     try:
         name, size_str = arg.split(",")
-- 
2.43.0


From 98474f613eaef6bf8f0f83c6181cedb06ee489af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 03/41] fix: mean and sum over several dimensions used the
 wrong axes (and sum averaged)

---
 pyconform/functions.py | 9 ++-------
 pyconform/physarray.py | 8 ++++----
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 0be9232..4e98697 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -322,13 +322,8 @@ class SumFunction(Function):
     def __getitem__(self, index):
         data = self.arguments[0][index]
         dimensions = self.arguments[1:]
-        indims = []
-        for d in dimensions:
-            # print d, 'in', data.dimensions, '?'
-            if d in data.dimensions:
-                # print 'will append ', data.dimensions.index(d)
-                indims.append(data.dimensions.index(d))
-        return np.sum(data, indims[0])
+        indims = [d for d in dimensions if d in data.dimensions]
+        return data.sum(dimensions=indims)
 
 
 class MinFunction(Function):
diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index d6b1ca0..e9b005d 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -641,8 +641,8 @@ class PhysArray(numpy.ma.MaskedArray):
         elif isinstance(axis, (list, tuple)):
             dims = tuple(self.dimensions[i] for i in axis)
             meanval = self.view(numpy.ma.MaskedArray)
-            for a in axis:
-                meanval = meanval.mean(axis=a)
+            if len(axis) > 0:
+                meanval = meanval.mean(axis=tuple(axis))
         else:
             raise TypeError("Axis must be given as an integer, list or tuple")
         new_dims = tuple(d for d in self.dimensions if d not in dims)
@@ -673,8 +673,8 @@ class PhysArray(numpy.ma.MaskedArray):
         elif isinstance(axis, (list, tuple)):
             dims = tuple(self.dimensions[i] for i in axis)
             sumval = self.view(numpy.ma.MaskedArray)
-            for a in axis:
-                sumval = sumval.mean(axis=a)
+            if len(axis) > 0:
+                sumval = sumval.sum(axis=tuple(axis))
         else:
             raise TypeError("Axis must be given as an integer, list or tuple")
         new_dims = tuple(d for d in self.dimensions if d not in dims)
-- 
2.43.0


From 6af9309876fad966aca816e48ee36a5f35510fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 04/41] fix: unit conversion dropped the positive direction of
 the data

---
 pyconform/physarray.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index e9b005d..cfeb0fe 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -217,7 +217,11 @@ class PhysArray(numpy.ma.MaskedArray):
             )
             new_name = "convert({}, from={}, to={})".format(obj.name, u1_str, u2_str)
             return PhysArray(
-                new_array, name=new_name, units=u2, dimensions=obj.dimensions
+                new_array,
+                name=new_name,
+                units=u2,
+                dimensions=obj.dimensions,
+                positive=obj.positive,
             )
         elif isinstance(obj, numpy.ma.MaskedArray):
             return numpy.ma.MaskedArray(
-- 
2.43.0


From 155580f434abb6d8c343370921b17555ee5fb2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 05/41] fix: unit conversion of integer data truncated the
 converted values

---
 pyconform/physarray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index cfeb0fe..a973b88 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -206,8 +206,9 @@ class PhysArray(numpy.ma.MaskedArray):
         u1 = units1 if isinstance(units1, Unit) else Unit(units1)
         u2 = units2 if isinstance(units2, Unit) else Unit(units2)
         if isinstance(obj, PhysArray):
+            new_dtype = obj.dtype if issubclass(obj.dtype.type, numpy.floating) else None
             new_array = numpy.ma.MaskedArray(
-                units1.convert(obj.data, units2), mask=obj.mask, dtype=obj.dtype
+                units1.convert(obj.data, units2), mask=obj.mask, dtype=new_dtype
             )
             u1_str = "{}".format(u1) + (
                 "|{}".format(u1.calendar) if u1.calendar else ""
-- 
2.43.0


From aedbc0019372c5bfc587f0d55626f3395f0002d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 06/41] fix: functions applied to data variables modified the
 stored data in place

---
 pyconform/flownodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index a23b969..98826b0 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -137,7 +137,8 @@ class DataNode(FlowNode):
         """
         Compute and retrieve the data associated with this FlowNode operation
         """
-        return self._data[index]
+        # Return a copy, because consumers may modify their input data in place
+        return self._data[index].copy()
 
 
 class ReadNode(FlowNode):
-- 
2.43.0


From 3aa8ae08f11a6d2ac6de8567962981b93cef6e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:36 +0000
Subject: [PATCH 07/41] fix: limits of zero were not validated, and valid data
 at a limit were masked depending on the chunking

---
 pyconform/flownodes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 98826b0..22bfdad 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -542,21 +542,21 @@ class ValidateNode(FlowNode):
         ok_min_mean_abs = self.attributes.get("ok_min_mean_abs", None)
         ok_max_mean_abs = self.attributes.get("ok_max_mean_abs", None)
 
-        # Validate minimum
-        if valid_min:
+        # Validate minimum (an empty string means that no limit is given)
+        if valid_min is not None and valid_min != "":
             dmin = numpy.min(indata)
             if dmin < valid_min:
                 msg = "valid_min: {} < {} ({!r})".format(dmin, valid_min, self.label)
                 warn(msg, ValidationWarning)
-                indata = numpy.ma.masked_where(indata <= valid_min, indata)
+                indata = numpy.ma.masked_where(indata < valid_min, indata)
 
-        # Validate maximum
-        if valid_max:
+        # Validate maximum (an empty string means that no limit is given)
+        if valid_max is not None and valid_max != "":
             dmax = numpy.max(indata)
             if dmax > valid_max:
                 msg = "valid_max: {} > {} ({!r})".format(dmax, valid_max, self.label)
                 warn(msg, ValidationWarning)
-                indata = numpy.ma.masked_where(indata >= valid_max, indata)
+                indata = numpy.ma.masked_where(indata > valid_max, indata)
 
         # Compute mean of the absolute value, if necessary
         if ok_min_mean_abs or ok_max_mean_abs:
-- 
2.43.0


From f70578c214f315d06f98aa7def7a1d955fe74725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 08/41] fix: a failed write left the output file open, so
 executing again failed or continued with stale state

---
 pyconform/flownodes.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 22bfdad..017d82f 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -974,6 +974,31 @@ class WriteNode(FlowNode):
             deflate (int): Override the output file deflate level with given value
         """
 
+        try:
+            self._execute_(chunks=chunks, deflate=deflate)
+        except:
+            # Never publish (or continue with) a partially written file
+            self._discard_()
+            raise
+
+    def _discard_(self):
+        """
+        Drop the file associated with the WriteNode, without publishing it
+        """
+        ncfile = self._file
+        self._file = None
+        self._idims = set()
+        if ncfile is not None and ncfile.isopen():
+            try:
+                ncfile.close()
+            except (OSError, RuntimeError):
+                pass
+
+    def _execute_(self, chunks={}, deflate=None):
+        """
+        Execute the writing of the WriteNode file at once (see 'execute')
+        """
+
         # Open the file and write the header information
         self._open_(deflate=deflate)
 
-- 
2.43.0


From f1ba6f5bd9d1a072cc2688cdd5484b5ac3689b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 09/41] fix: validating a standardization file with several MPI
 processes waited forever

---
 pyconform/cli/xconform.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pyconform/cli/xconform.py b/pyconform/cli/xconform.py
index 3036d5a..215bf9e 100755
--- a/pyconform/cli/xconform.py
+++ b/pyconform/cli/xconform.py
@@ -192,18 +192,19 @@ def main(argv=None):
         for infile in args.infiles:
             infiles.extend(glob(infile))
 
-        # If no input files, stop here
+        # If no input files, there is nothing more to do
         if len(infiles) == 0:
             print("Standardization file validated.")
-            return
+            inpds = None
 
         # Parse the input Dataset
-        print(
-            "Creating input dataset descriptor from {} input files...".format(
-                len(infiles)
+        else:
+            print(
+                "Creating input dataset descriptor from {} input files...".format(
+                    len(infiles)
+                )
             )
-        )
-        inpds = InputDatasetDesc(filenames=infiles)
+            inpds = InputDatasetDesc(filenames=infiles)
 
     else:
         inpds = None
@@ -214,6 +215,10 @@ def main(argv=None):
     # Sync and continue process on all nodes
     scomm.sync()
 
+    # If no input files, stop here (on all nodes)
+    if inpds is None:
+        return
+
     # Check for warn/error
     if args.error:
         simplefilter("error", ValidationWarning)
-- 
2.43.0


From d82500a886f7515a9f8ca6f619874fd9ffc6bb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 10/41] fix: chunk sizes less than 1 published empty files or
 failed after writing started

---
 pyconform/dataflow.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index dbf0db6..ddc25b9 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -357,6 +357,12 @@ class DataFlow(object):
                         odname, odsize
                     )
                 )
+            if odsize < 1:
+                raise ValueError(
+                    ("Chunk size invalid for output dimension {!r}: " "{}").format(
+                        odname, odsize
+                    )
+                )
 
         # Check that we are not chunking over any "sum-like" dimensions
         sumlike_chunk_dims = sorted(d for d in chunks if d in self._sumlike_dimensions)
-- 
2.43.0


From 6284f422cc68f25cd08159cb72cd760455ec5d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 11/41] fix: of two output files with the same (date-parsed)
 name, one was silently lost

---
 pyconform/dataflow.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index ddc25b9..a8fbeaf 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -297,6 +297,10 @@ class DataFlow(object):
             else:
                 vnodes = tuple(self._valnodes[vname] for vname in fdesc.variables)
                 wnode = WriteNode(fdesc, inputs=vnodes)
+                if wnode.label in writenodes:
+                    raise ValueError(
+                        "More than one output file is named {!r}".format(wnode.label)
+                    )
                 writenodes[wnode.label] = wnode
         return writenodes
 
-- 
2.43.0


From e6f4733b7bf4d23aced12eb5111b375d731e9470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 12/41] fix: debug mode removed entries from the chunks of the
 caller

---
 pyconform/dataflow.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index a8fbeaf..a317cb8 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -372,6 +372,7 @@ class DataFlow(object):
         sumlike_chunk_dims = sorted(d for d in chunks if d in self._sumlike_dimensions)
         if len(sumlike_chunk_dims) > 0:
             if debug:
+                chunks = chunks.copy()
                 for d in sumlike_chunk_dims:
                     chunks.pop(d)
             else:
-- 
2.43.0


From 771257e8d509e452343808b6ab2ca021d2b4c94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 13/41] fix: chunking over a dimension renamed with chdims did
 not select the chunk

---
 pyconform/functions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 4e98697..4f51d71 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -541,6 +541,12 @@ class RenameDimensionsFunction(Function):
         super(RenameDimensionsFunction, self).__init__(data, *dims)
 
     def __getitem__(self, index):
+        dims = self.arguments[1:]
+        if isinstance(index, dict) and not is_constant(self.arguments[0]):
+            # The index is given in terms of the new dimension names
+            old_dims = self.arguments[0][None].dimensions
+            new_dims = tuple(dims[: len(old_dims)]) + tuple(old_dims[len(dims) :])
+            index = {o: index[n] for o, n in zip(old_dims, new_dims) if n in index}
         data = (
             self.arguments[0]
             if is_constant(self.arguments[0])
@@ -548,7 +554,6 @@ class RenameDimensionsFunction(Function):
         )
         if len(self.arguments) == 1:
             return data
-        dims = self.arguments[1:]
         dim_names = ", ".join([repr(dim) for dim in dims])
         new_name = "chdims({!s}, {!s})".format(getname(data), dim_names)
         new_dims = list(data.dimensions)
-- 
2.43.0


From 5629c802fe03c24ecb6b44a4c5124ae9a5dee3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 14/41] fix: limits given to limit() were truncated when
 applied to integer data

---
 pyconform/functions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index 4f51d71..cd0b529 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -500,6 +500,11 @@ class LimitFunction(Function):
         if above_val is None and below_val is None:
             return data
 
+        # Limits may not be representable in the datatype of integer data
+        if isinstance(data, PhysArray) and data.dtype.kind in "iu":
+            if isinstance(above_val, float) or isinstance(below_val, float):
+                data = data.astype(np.float64)
+
         above_str = ""
         if above_val is not None:
             above_ind = where(data > above_val)
-- 
2.43.0


From ff4540ddb3cecb8c8ace355047a15db9a97d000a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 15/41] fix: arithmetic on short integer input data overflowed
 silently

---
 pyconform/flownodes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 017d82f..9311932 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -265,6 +265,11 @@ class ReadNode(FlowNode):
             # Upconvert, if possible
             if issubclass(ncvar.dtype.type, numpy.floating) and ncvar.dtype.itemsize < 8:
                 data = data.astype(numpy.float64)
+            elif (
+                issubclass(data.dtype.type, numpy.signedinteger)
+                and data.dtype.itemsize < 8
+            ):
+                data = data.astype(numpy.int64)
 
             # Read the positive attribute, if available
             pos = attrs.get("positive", None)
-- 
2.43.0


From 7a39789432d0530373fa5b363b060ee104940a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 16/41] fix: min and max ignored the given dimensions unless
 the data had four dimensions

---
 pyconform/functions.py | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index cd0b529..a01d6bc 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -341,23 +341,20 @@ class MinFunction(Function):
     def __getitem__(self, index):
         data = self.arguments[0][index]
         dimensions = self.arguments[1:]
-        indims = []
-        if index is None:
-            return PhysArray(
-                np.zeros((0, 0, 0)),
-                dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
-            )
-        for d in dimensions:
-            if d in data.dimensions:
-                indims.append(data.dimensions.index(d))
+        indims = [d for d in dimensions if d in data.dimensions]
+        axis = tuple(data.dimensions.index(d) for d in indims)
+        outdims = [d for d in data.dimensions if d not in indims]
         new_name = "min({},{})".format(data.name, dimensions)
-        m = np.amin(data, axis=indims[0])
+        if index is None:
+            m = np.zeros((0,) * len(outdims), dtype=data.dtype)
+        else:
+            m = data.view(np.ma.MaskedArray).min(axis=axis)
         return PhysArray(
             m,
             name=new_name,
             positive=data.positive,
             units=data.units,
-            dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
+            dimensions=outdims,
         )
 
 
@@ -376,24 +373,20 @@ class MaxFunction(Function):
     def __getitem__(self, index):
         data = self.arguments[0][index]
         dimensions = self.arguments[1:]
-        indims = []
-        if index is None:
-            return PhysArray(
-                np.zeros((0, 0, 0)),
-                units=data.units,
-                dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
-            )
-        for d in dimensions:
-            if d in data.dimensions:
-                indims.append(data.dimensions.index(d))
+        indims = [d for d in dimensions if d in data.dimensions]
+        axis = tuple(data.dimensions.index(d) for d in indims)
+        outdims = [d for d in data.dimensions if d not in indims]
         new_name = "max({},{})".format(data.name, dimensions[0])
-        m = np.amax(data, axis=indims[0])
+        if index is None:
+            m = np.zeros((0,) * len(outdims), dtype=data.dtype)
+        else:
+            m = data.view(np.ma.MaskedArray).max(axis=axis)
         return PhysArray(
             m,
             name=new_name,
             positive=data.positive,
             units=data.units,
-            dimensions=[data.dimensions[0], data.dimensions[2], data.dimensions[3]],
+            dimensions=outdims,
         )
 
 
-- 
2.43.0


From dc772e5188cefda5b2c2c403b69c942f8b4ad913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 17/41] fix: a job in which every output is skipped (or none is
 computed) failed with an IndexError

---
 pyconform/dataflow.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index a317cb8..77a15ea 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -189,14 +189,13 @@ class DataFlow(object):
     def _compute_dimension_maps_(self, definfos):
         # Each output variable FlowNode must be mapped to its output dimensions.
         # To aid with this, we sort by number of dimensions:
-        nodeorder = list(
-            zip(
-                *sorted(
-                    (len(self._ods.variables[vname].dimensions), vname)
-                    for vname in definfos
-                )
+        nodeorder = [
+            vname
+            for _, vname in sorted(
+                (len(self._ods.variables[vname].dimensions), vname)
+                for vname in definfos
             )
-        )[1]
+        ]
 
         # Now, we construct the dimension maps
         i2omap = {}
-- 
2.43.0


From f1ea4835d056ac1c39443eecd206571c4dbd47c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 18/41] fix: executing again after a failed close was refused,
 because the temporary file was still regarded as open

---
 pyconform/flownodes.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 9311932..11a5243 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -9,7 +9,7 @@ LICENSE: See the LICENSE.rst file for details
 
 from collections import OrderedDict
 from datetime import datetime
-from os import makedirs, rename
+from os import makedirs, remove, rename
 from os.path import dirname, exists
 from warnings import warn
 
@@ -999,6 +999,12 @@ class WriteNode(FlowNode):
             except (OSError, RuntimeError):
                 pass
 
+            # If closing failed, the library still regards the temporary file as open
+            try:
+                remove("{}{}".format(self.label, self._tmp_ext))
+            except OSError:
+                pass
+
     def _execute_(self, chunks={}, deflate=None):
         """
         Execute the writing of the WriteNode file at once (see 'execute')
-- 
2.43.0


From 072786e4a3b258ee2fec768baa2656cddfeaf9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 19/41] fix: a classic-format file whose last write failed was
 published incomplete, and success was reported

---
 pyconform/flownodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 11a5243..4bf6bd9 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -897,6 +897,8 @@ class WriteNode(FlowNode):
         Close the file associated with the WriteNode
         """
         if self._file is not None:
+            # Closing a classic-format file does not report errors of its last write
+            self._file.sync()
             self._file.close()
             self._idims = set()
             self._file = None
-- 
2.43.0


From 898a29921c1696242ca6a6d564a3482aa604d9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 20/41] fix: of two files with the same average date,
 get_files_in_order silently lost one

---
 pyconform/mapdates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 01f7c84..a7b9728 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -282,7 +282,7 @@ def get_files_in_order(files, alignment=True):
         f = ncdf.open_file(fl)
         ave, date = __get_time_info__(f, ncdf)
         date["fn"] = fn
-        date_info[ave] = date
+        date_info[(ave, fl)] = date
         if alignment:
             error = __check_date_alignment_in_file__(date)
             if error != 0:
-- 
2.43.0


From 7143d06cb2637848878f5b2991d7633aec76e7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 21/41] fix: get_files_in_order failed on floating point times
 (numpy scalars cannot be converted)

---
 pyconform/mapdates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index a7b9728..e5e36a8 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -84,8 +84,8 @@ def __get_time_info__(f, io):
     #                                          calendar=att['calendar']))).timetuple())
     # tn = (parser.parse(str(cf_units.num2date(dn, att['units'],
     #                                          calendar=att['calendar']))).timetuple())
-    date_info["t0"] = cal_unit.convert(d0, stand_cal)
-    date_info["tn"] = cal_unit.convert(dn, stand_cal)
+    date_info["t0"] = cal_unit.convert(float(d0), stand_cal)
+    date_info["tn"] = cal_unit.convert(float(dn), stand_cal)
     date_info["cnt"] = j
     average = (date_info["t0"] + date_info["tn"]) / 2
     date_info["units"] = att["units"]
-- 
2.43.0


From 3b9dbc752755d3a6e452a37deb9c37b45b58a3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 22/41] fix: contiguous files of hours, or with bounds not of a
 day, were reported as having gaps

---
 pyconform/mapdates.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index e5e36a8..732746f 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -45,6 +45,7 @@ def __get_time_info__(f, io):
         d1 = tb[1, 0]
         d2 = tb[2, 0]
         dn = tb[j - 1, 1] - 1
+        d_next = tb[j - 1, 1]
         time = tb[:, 0]
     else:
         # print 'Using time'
@@ -54,6 +55,7 @@ def __get_time_info__(f, io):
         d1 = tb[1]
         d2 = tb[2]
         dn = tb[j - 1]
+        d_next = dn + (d2 - d1)
         time = tb[:]
     date_info["time"] = time
 
@@ -86,6 +88,11 @@ def __get_time_info__(f, io):
     #                                          calendar=att['calendar']))).timetuple())
     date_info["t0"] = cal_unit.convert(float(d0), stand_cal)
     date_info["tn"] = cal_unit.convert(float(dn), stand_cal)
+    # Where the next file must start, and how far from it a date may be (rounding)
+    date_info["next"] = cal_unit.convert(float(d_next), stand_cal)
+    date_info["tol"] = 1e-3 * (
+        cal_unit.convert(float(d2), stand_cal) - cal_unit.convert(float(d1), stand_cal)
+    )
     date_info["cnt"] = j
     average = (date_info["t0"] + date_info["tn"]) / 2
     date_info["units"] = att["units"]
@@ -116,9 +123,6 @@ def __check_date_alignment__(keys, date_info):
         date_info (dict): Contains file information, such as time period(t_per), time step(t_step),
             first/last step(t0 and tn), slice counts(cnt).
     """
-    prev_last = date_info[keys[0]]["tn"]
-    t_step = date_info[keys[0]]["t_step"]
-
     if date_info[keys[0]]["t_per"] == "mon":
         date = parser.parse(
             str(
@@ -135,7 +139,7 @@ def __check_date_alignment__(keys, date_info):
             next_val = date[1] + 1
 
     else:
-        next_val = prev_last + t_step
+        next_val = date_info[keys[0]]["next"]
 
     for i in range(1, len(keys)):
         if date_info[keys[i]]["t_per"] == "mon":
@@ -166,11 +170,10 @@ def __check_date_alignment__(keys, date_info):
                 print("Disconnect? Expected: ", next_val, " Got: ", new_date[1])
                 return 1
         else:
-            if next_val == date_info[keys[i]]["t0"]:
+            if abs(next_val - date_info[keys[i]]["t0"]) <= date_info[keys[i]]["tol"]:
                 # print "Looks
                 # okay",date_info[keys[i]]['t0'],'-',date_info[keys[i]]['tn']
-                prev_last = date_info[keys[i]]["tn"]
-                next_val = prev_last + t_step
+                next_val = date_info[keys[i]]["next"]
             else:
                 print(
                     "Disconnect? Expected: ",
@@ -240,7 +243,7 @@ def __check_date_alignment_in_file__(date):
     # slices.
     else:
         for i in range(1, len(t)):
-            if prev_time + t_step == t[i]:
+            if abs(prev_time + t_step - t[i]) <= 1e-3 * abs(t_step):
                 # Time step looks okay
                 prev_time = t[i]
             else:
-- 
2.43.0


From 3c779ae5afd19f1a96f563dc4d07b9cc84e4ea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 23/41] fix: a gap of whole years between or within monthly
 files was not detected

---
 pyconform/mapdates.py | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 732746f..63c6a51 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -133,10 +133,7 @@ def __check_date_alignment__(keys, date_info):
                 )
             )
         ).timetuple()
-        if date[1] == 12:
-            next_val = 1
-        else:
-            next_val = date[1] + 1
+        next_val = date[0] * 12 + date[1] + 1
 
     else:
         next_val = date_info[keys[0]]["next"]
@@ -152,7 +149,7 @@ def __check_date_alignment__(keys, date_info):
                     )
                 )
             ).timetuple()
-            if next_val == new_date[1]:
+            if next_val == new_date[0] * 12 + new_date[1]:
                 date = parser.parse(
                     str(
                         cf_units.num2date(
@@ -162,10 +159,7 @@ def __check_date_alignment__(keys, date_info):
                         )
                     )
                 ).timetuple()
-                if date[1] == 12:
-                    next_val = 1
-                else:
-                    next_val = date[1] + 1
+                next_val = date[0] * 12 + date[1] + 1
             else:
                 print("Disconnect? Expected: ", next_val, " Got: ", new_date[1])
                 return 1
@@ -209,15 +203,12 @@ def __check_date_alignment_in_file__(date):
             date1 = parser.parse(
                 str(cf_units.num2date(t[0], date["units"], calendar=date["calendar"]))
             ).timetuple()
-            if date1[1] == 12:
-                next_val = 1
-            else:
-                next_val = date1[1] + 1
+            next_val = date1[0] * 12 + date1[1] + 1
         for i in range(1, len(t)):
             new_date = parser.parse(
                 str(cf_units.num2date(t[i], date["units"], calendar=date["calendar"]))
             ).timetuple()
-            if next_val == new_date[1]:
+            if next_val == new_date[0] * 12 + new_date[1]:
                 date1 = parser.parse(
                     str(
                         cf_units.num2date(
@@ -225,10 +216,7 @@ def __check_date_alignment_in_file__(date):
                         )
                     )
                 ).timetuple()
-                if date1[1] == 12:
-                    next_val = 1
-                else:
-                    next_val = date1[1] + 1
+                next_val = date1[0] * 12 + date1[1] + 1
             else:
                 print(
                     "Disconnect? Expected: ",
-- 
2.43.0


From 63bc4e20e5a47e6047f2b2021d40fd6e02c0031e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 24/41] fix: dates of monthly files were compared with the
 wrong units

---
 pyconform/mapdates.py | 51 +++++++++++++++++++------------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 63c6a51..a73e69a 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -15,6 +15,17 @@ from dateutil import parser
 
 from . import climIO
 
+STANDARD_UNITS = "days since 1-1-1 0:0:0"
+
+
+def __get_date__(value, units, calendar):
+    """
+    Returns the date (year, month, day, ...) of a time value.
+    """
+    return parser.parse(
+        str(cf_units.num2date(value, units, calendar=calendar))
+    ).timetuple()
+
 
 def __get_time_info__(f, io):
     """
@@ -35,7 +46,7 @@ def __get_time_info__(f, io):
     """
     date_info = {}
     _tc, _dim, att = io.get_var_info(f, "time")
-    stand_cal = cf_units.Unit("days since 1-1-1 0:0:0", calendar=att["calendar"])
+    stand_cal = cf_units.Unit(STANDARD_UNITS, calendar=att["calendar"])
     cal_unit = cf_units.Unit(att["units"], calendar=att["calendar"])
     if "bounds" in att.keys():
         # print 'Using bounds'
@@ -124,15 +135,9 @@ def __check_date_alignment__(keys, date_info):
             first/last step(t0 and tn), slice counts(cnt).
     """
     if date_info[keys[0]]["t_per"] == "mon":
-        date = parser.parse(
-            str(
-                cf_units.num2date(
-                    date_info[keys[0]]["tn"],
-                    date_info[keys[0]]["units"],
-                    calendar=date_info[keys[0]]["calendar"],
-                )
-            )
-        ).timetuple()
+        date = __get_date__(
+            date_info[keys[0]]["tn"], STANDARD_UNITS, date_info[keys[0]]["calendar"]
+        )
         next_val = date[0] * 12 + date[1] + 1
 
     else:
@@ -140,25 +145,15 @@ def __check_date_alignment__(keys, date_info):
 
     for i in range(1, len(keys)):
         if date_info[keys[i]]["t_per"] == "mon":
-            new_date = parser.parse(
-                str(
-                    cf_units.num2date(
-                        date_info[keys[i]]["t0"],
-                        date_info[keys[i]]["units"],
-                        calendar=date_info[keys[i]]["calendar"],
-                    )
-                )
-            ).timetuple()
+            new_date = __get_date__(
+                date_info[keys[i]]["t0"], STANDARD_UNITS, date_info[keys[i]]["calendar"]
+            )
             if next_val == new_date[0] * 12 + new_date[1]:
-                date = parser.parse(
-                    str(
-                        cf_units.num2date(
-                            date_info[keys[i]]["tn"],
-                            date_info[keys[i]]["units"],
-                            calendar=date_info[keys[i]]["calendar"],
-                        )
-                    )
-                ).timetuple()
+                date = __get_date__(
+                    date_info[keys[i]]["tn"],
+                    STANDARD_UNITS,
+                    date_info[keys[i]]["calendar"],
+                )
                 next_val = date[0] * 12 + date[1] + 1
             else:
                 print("Disconnect? Expected: ", next_val, " Got: ", new_date[1])
-- 
2.43.0


From 6310a538647ae6afeabab822ff9db038b57702b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 25/41] fix: get_files_in_order failed on dates that only exist
 in the calendar of the file (30 February)

---
 pyconform/mapdates.py | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index a73e69a..68d6c08 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -11,7 +11,6 @@ LICENSE: See the LICENSE.rst file for details
 import os
 
 import cf_units
-from dateutil import parser
 
 from . import climIO
 
@@ -22,9 +21,7 @@ def __get_date__(value, units, calendar):
     """
     Returns the date (year, month, day, ...) of a time value.
     """
-    return parser.parse(
-        str(cf_units.num2date(value, units, calendar=calendar))
-    ).timetuple()
+    return cf_units.num2date(value, units, calendar=calendar).timetuple()
 
 
 def __get_time_info__(f, io):
@@ -71,12 +68,8 @@ def __get_time_info__(f, io):
     date_info["time"] = time
 
     # Get second and third time bounds to figure out the time period
-    t1 = parser.parse(
-        str(cf_units.num2date(d1, att["units"], calendar=att["calendar"]))
-    ).timetuple()
-    t2 = parser.parse(
-        str(cf_units.num2date(d2, att["units"], calendar=att["calendar"]))
-    ).timetuple()
+    t1 = __get_date__(d1, att["units"], att["calendar"])
+    t2 = __get_date__(d2, att["units"], att["calendar"])
     # Get time difference between the steps
     t_step = d2 - d1
     h = t2[3] - t1[3]
@@ -195,23 +188,12 @@ def __check_date_alignment_in_file__(date):
     # between slices.
     if t_per == "mon":
         if t_per == "mon":
-            date1 = parser.parse(
-                str(cf_units.num2date(t[0], date["units"], calendar=date["calendar"]))
-            ).timetuple()
+            date1 = __get_date__(t[0], date["units"], date["calendar"])
             next_val = date1[0] * 12 + date1[1] + 1
         for i in range(1, len(t)):
-            new_date = parser.parse(
-                str(cf_units.num2date(t[i], date["units"], calendar=date["calendar"]))
-            ).timetuple()
+            new_date = __get_date__(t[i], date["units"], date["calendar"])
             if next_val == new_date[0] * 12 + new_date[1]:
-                date1 = parser.parse(
-                    str(
-                        cf_units.num2date(
-                            t[i], date["units"], calendar=date["calendar"]
-                        )
-                    )
-                ).timetuple()
-                next_val = date1[0] * 12 + date1[1] + 1
+                next_val = new_date[0] * 12 + new_date[1] + 1
             else:
                 print(
                     "Disconnect? Expected: ",
-- 
2.43.0


From 9dbde2efc300d7f80b7e0509386753459f09d386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:38 +0000
Subject: [PATCH 26/41] fix: limit() replaced every scalar (zero-dimensional)
 value by the limit

---
 pyconform/functions.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyconform/functions.py b/pyconform/functions.py
index a01d6bc..df0c95a 100644
--- a/pyconform/functions.py
+++ b/pyconform/functions.py
@@ -481,6 +481,13 @@ class LimitFunction(Function):
     def __init__(self, data, below=None, above=None):
         super(LimitFunction, self).__init__(data, below=below, above=above)
 
+    @staticmethod
+    def _find_(condition):
+        # Scalars cannot be indexed with the locations where a condition is met
+        if np.ndim(condition) == 0:
+            return () if np.ma.filled(condition, False) else None
+        return where(condition)
+
     def __getitem__(self, index):
         data = (
             self.arguments[0]
@@ -500,15 +507,15 @@ class LimitFunction(Function):
 
         above_str = ""
         if above_val is not None:
-            above_ind = where(data > above_val)
-            if len(above_ind) > 0:
+            above_ind = self._find_(data > above_val)
+            if above_ind is not None:
                 data[above_ind] = above_val
                 above_str = ", above={}".format(above_val)
 
         below_str = ""
         if below_val is not None:
-            below_ind = where(data < below_val)
-            if len(below_ind) > 0:
+            below_ind = self._find_(data < below_val)
+            if below_ind is not None:
                 data[below_ind] = below_val
                 below_str = ", below={}".format(below_val)
 
-- 
2.43.0


From e73141a920d92073d1d0a1bedeabfe53da80168d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:38 +0000
Subject: [PATCH 27/41] fix: missing scalar values lost their units when
 negated and could not be modified

---
 pyconform/physarray.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index a973b88..f58885a 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -122,6 +122,9 @@ class PhysArray(numpy.ma.MaskedArray):
     def __new__(
         cls, indata, name=None, units=None, dimensions=None, positive="", **kwds
     ):
+        # The masked constant is shared and read-only, so make an array of its own
+        if indata is numpy.ma.masked:
+            indata = numpy.ma.MaskedArray(0.0, mask=True)
         makwds = {k: kwds[k] for k in ["dtype"] if k in kwds}
         obj = numpy.ma.asarray(indata, **makwds).view(cls)
         if obj.dtype.char in ("S", "U"):
@@ -440,6 +443,16 @@ class PhysArray(numpy.ma.MaskedArray):
         else:
             other.flip()
 
+    def __neg__(self):
+        # The negative of a masked scalar is the masked constant
+        return PhysArray(
+            super(PhysArray, self).__neg__(),
+            name=self.name,
+            units=self.units,
+            dimensions=self.dimensions,
+            positive=self.positive,
+        )
+
     def _check_inplace_(self, other):
         other = PhysArray(other)
         sdims = set(self.dimensions)
-- 
2.43.0


From d0671906f68ba2cc27d53002d0176b2fd664a30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:47 +0000
Subject: [PATCH 28/41] fix: an empty or capitalized positive attribute
 inverted the sign of data with a direction

---
 pyconform/flownodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 4bf6bd9..81073e9 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -532,9 +532,9 @@ class ValidateNode(FlowNode):
         if self.dimensions != indata.dimensions:
             indata = indata.transpose(self.dimensions)
 
-        # Check the positive attribute, if specified
+        # Check the positive attribute, if specified (an empty string means that it is not)
         positive = self.attributes.get("positive", None)
-        if positive is not None and indata.positive != positive:
+        if positive and indata.positive != str(positive).lower():
             indata.flip()
 
         # Do not validate if index is None (nothing to validate)
-- 
2.43.0


From 73806a256181f1bf6c9a77a279e5a10cb3f60bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:56 +0000
Subject: [PATCH 29/41] fix: a NaN in the data kept values outside of the
 declared limits from being found

---
 pyconform/flownodes.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 81073e9..478660f 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -489,6 +489,13 @@ class ValidateNode(FlowNode):
         """
         return tuple(self._vdesc.dimensions.keys())
 
+    @staticmethod
+    def _present_(data):
+        # The smallest and largest value of data that contain a NaN would be NaN, too
+        if data.dtype.kind == "f":
+            return numpy.ma.masked_where(numpy.isnan(data), data)
+        return data
+
     def __getitem__(self, index):
         """
         Compute and retrieve the data associated with this FlowNode operation
@@ -549,7 +556,7 @@ class ValidateNode(FlowNode):
 
         # Validate minimum (an empty string means that no limit is given)
         if valid_min is not None and valid_min != "":
-            dmin = numpy.min(indata)
+            dmin = numpy.min(self._present_(indata))
             if dmin < valid_min:
                 msg = "valid_min: {} < {} ({!r})".format(dmin, valid_min, self.label)
                 warn(msg, ValidationWarning)
@@ -557,7 +564,7 @@ class ValidateNode(FlowNode):
 
         # Validate maximum (an empty string means that no limit is given)
         if valid_max is not None and valid_max != "":
-            dmax = numpy.max(indata)
+            dmax = numpy.max(self._present_(indata))
             if dmax > valid_max:
                 msg = "valid_max: {} > {} ({!r})".format(dmax, valid_max, self.label)
                 warn(msg, ValidationWarning)
-- 
2.43.0


From b48370d5f0b1739a44333af2a90d9e36cb689bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:11 +0000
Subject: [PATCH 30/41] fix: input files with short steps whose times are in
 different units were put in the wrong order

With bounds, the date of the last step of a file was taken to be one unit of its
time coordinate (a day, an hour, a second) before the end of the last step, so that
the average that orders the files depended on the unit.
---
 pyconform/mapdates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/mapdates.py b/pyconform/mapdates.py
index 68d6c08..a1b33ec 100644
--- a/pyconform/mapdates.py
+++ b/pyconform/mapdates.py
@@ -52,7 +52,7 @@ def __get_time_info__(f, io):
         d0 = tb[0, 0]
         d1 = tb[1, 0]
         d2 = tb[2, 0]
-        dn = tb[j - 1, 1] - 1
+        dn = tb[j - 1, 0]
         d_next = tb[j - 1, 1]
         time = tb[:, 0]
     else:
-- 
2.43.0


From 33361875153946e7bf9f8bcea5c442fc28453c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:04 +0000
Subject: [PATCH 31/41] fix: vardeps reported no dependencies of variables with
 a frequency but without a realm

---
 pyconform/cli/vardeps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/vardeps.py b/pyconform/cli/vardeps.py
index ede2fe6..cf894d9 100755
--- a/pyconform/cli/vardeps.py
+++ b/pyconform/cli/vardeps.py
@@ -152,7 +152,7 @@ def main(argv=None):
                 vdeps = variable_search(parsing.parse_definition(vardefs[var]))
                 alldeps.update(vdeps)
                 fheader = (
-                    " [{},{}]".format(varfreqs[var], varrealm[var])
+                    " [{},{}]".format(varfreqs[var], varrealm.get(var, ""))
                     if var in varfreqs
                     else ""
                 )
-- 
2.43.0


From 3e71c7dcec67b59a9d3e420b1580eba00b043e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:04 +0000
Subject: [PATCH 32/41] fix: vardeps ignored the definitions with keyword
 arguments of a definitions file

---
 pyconform/cli/vardeps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/vardeps.py b/pyconform/cli/vardeps.py
index cf894d9..776cfee 100755
--- a/pyconform/cli/vardeps.py
+++ b/pyconform/cli/vardeps.py
@@ -117,7 +117,7 @@ def main(argv=None):
                 line = line.strip()
                 if "#" in line:
                     line = line.split("#")[0].strip()
-                split = line.split("=")
+                split = line.split("=", 1)
                 if len(split) == 2:
                     vardefs[split[0].strip()] = split[1].strip()
                 elif len(line) > 0:
-- 
2.43.0


From abf15e551528a1a3cd3c5e6a5bc991d27babfe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:21 +0000
Subject: [PATCH 33/41] fix: vardeps failed when none of the variables has
 dependencies

---
 pyconform/cli/vardeps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyconform/cli/vardeps.py b/pyconform/cli/vardeps.py
index 776cfee..9d23421 100755
--- a/pyconform/cli/vardeps.py
+++ b/pyconform/cli/vardeps.py
@@ -165,7 +165,8 @@ def main(argv=None):
 
     print()
     print("Complete Specification Requires the Following Input Variables:")
-    print_columnar(sorted(alldeps), indent=3)
+    if len(alldeps) > 0:
+        print_columnar(sorted(alldeps), indent=3)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 93b161a5efea2664798d77e89d09c53acf26a31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:35 +0000
Subject: [PATCH 34/41] fix: which file a variable was read from depended on
 the order of the directory

---
 pyconform/cli/xconform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyconform/cli/xconform.py b/pyconform/cli/xconform.py
index 215bf9e..bb8a7b6 100755
--- a/pyconform/cli/xconform.py
+++ b/pyconform/cli/xconform.py
@@ -190,7 +190,7 @@ def main(argv=None):
         # Gather the list of input files
         infiles = []
         for infile in args.infiles:
-            infiles.extend(glob(infile))
+            infiles.extend(sorted(glob(infile)))
 
         # If no input files, there is nothing more to do
         if len(infiles) == 0:
-- 
2.43.0


From 04cf0d831e10af1f1d91b4cc26ac8f7441a7c862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:11 +0000
Subject: [PATCH 35/41] fix: chunking over the length of strings failed

---
 pyconform/flownodes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyconform/flownodes.py b/pyconform/flownodes.py
index 478660f..ba68760 100644
--- a/pyconform/flownodes.py
+++ b/pyconform/flownodes.py
@@ -1053,7 +1053,9 @@ class WriteNode(FlowNode):
                 if repr(wchunk) not in vchunks[vname]:
                     vdata = vnode[rchunk]
                     if isinstance(vdata, CharArray):
-                        vdata = vdata.stretch(ncvar.shape[-1])
+                        # Only to the end of the chunk, if the string length is chunked
+                        strlen = gdims[tuple(vdesc.dimensions)[-1]]
+                        vdata = vdata.stretch(len(range(*wchunk[-1].indices(strlen))))
                     ncvar[wchunk] = vdata
                     vchunks[vname].add(repr(wchunk))
 
-- 
2.43.0


From d0276e618db70eb964f9b23fd4d4cb9ed1f2dff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:49 +0000
Subject: [PATCH 36/41] fix: strings of one character lost their string length
 dimension

---
 pyconform/dataflow.py | 2 ++
 pyconform/datasets.py | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index 77a15ea..9417d71 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -106,6 +106,8 @@ class DataFlow(object):
             if not isinstance(vdesc.definition, str):
                 if vdesc.datatype == "char":
                     vdata = numpy.asarray(vdesc.definition, dtype="S")
+                    if vdata.itemsize == 1 and vdata.ndim + 1 == len(vdesc.dimensions):
+                        vdata = vdata.reshape(vdata.shape + (1,))
                 else:
                     vdata = numpy.asarray(vdesc.definition, dtype=vdesc.dtype)
                 vunits = vdesc.cfunits()
diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index 4c743ae..b9a6cca 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -850,6 +850,10 @@ class OutputDatasetDesc(DatasetDesc):
             if "dimensions" in vdict:
                 vdims = vdict["dimensions"]
                 sldim = vdims[-1] if vkwds["datatype"] == "char" else None
+                if vshape is not None:
+                    # Strings of one character are not given a dimension of their own
+                    if sldim is not None and len(vdims) == len(vshape) + 1:
+                        vshape = vshape + (1,)
                 if vshape is None:
                     vkwds["dimensions"] = tuple(
                         DimensionDesc(d, stringlen=(sldim == d)) for d in vdims
-- 
2.43.0


From b25c9897d0d900986a047e15f006197c8ce8f50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:50 +0000
Subject: [PATCH 37/41] fix: data with another number of dimensions than
 declared was accepted, and dimensions dropped

---
 pyconform/datasets.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyconform/datasets.py b/pyconform/datasets.py
index b9a6cca..9c07cbf 100644
--- a/pyconform/datasets.py
+++ b/pyconform/datasets.py
@@ -854,6 +854,12 @@ class OutputDatasetDesc(DatasetDesc):
                     # Strings of one character are not given a dimension of their own
                     if sldim is not None and len(vdims) == len(vshape) + 1:
                         vshape = vshape + (1,)
+                    if len(vdims) != len(vshape):
+                        err_msg = (
+                            "Data of variable {!r} in dataset {!r} has shape {}, but "
+                            "dimensions {}"
+                        ).format(vname, name, vshape, tuple(vdims))
+                        raise ValueError(err_msg)
                 if vshape is None:
                     vkwds["dimensions"] = tuple(
                         DimensionDesc(d, stringlen=(sldim == d)) for d in vdims
-- 
2.43.0


From fdf9dfd94e61d500557c0b8519758588c3012c84 Mon Sep 17 00:00:00 2001
From: dst <dst@local>
Date: Fri, 20 Nov 2026 04:54:32 +0000
Subject: [PATCH 38/41] fix: strings were transposed when the dimensions were
 given as a tuple

---
 pyconform/physarray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index f58885a..0a04156 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -804,6 +804,8 @@ class CharArray(PhysArray):
         return new_self
 
     def transpose(self, *dims):
+        if len(dims) == 1 and isinstance(dims[0], (list, tuple)):
+            dims = tuple(dims[0])
         if set(dims) == set(self.dimensions) and dims[-1] != self.dimensions[-1]:
             raise DimensionsError(
                 "The last dimension of a CharArray must always be the string length. "
-- 
2.43.0


From 57b44c4c3e475bb4d7303fc2269d5c253ef60989 Mon Sep 17 00:00:00 2001
From: dst <dst@local>
Date: Fri, 20 Nov 2026 05:44:37 +0000
Subject: [PATCH 39/41] fix: whether the mean of data with a NaN was missing
 depended on the chunking

---
 pyconform/physarray.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyconform/physarray.py b/pyconform/physarray.py
index 0a04156..bf38aa9 100644
--- a/pyconform/physarray.py
+++ b/pyconform/physarray.py
@@ -663,6 +663,9 @@ class PhysArray(numpy.ma.MaskedArray):
                 meanval = meanval.mean(axis=tuple(axis))
         else:
             raise TypeError("Axis must be given as an integer, list or tuple")
+        if len(dims) > 0 and meanval is not numpy.ma.masked:
+            # NumPy masks a mean that is NaN only if any other data are masked
+            meanval = numpy.ma.masked_invalid(meanval)
         new_dims = tuple(d for d in self.dimensions if d not in dims)
         dim_str = ",".join(str(d) for d in dims)
         return PhysArray(
-- 
2.43.0


From 1b0db9f37c83c53ba8fd95ef985de48c52a83692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:08 +0000
Subject: [PATCH 40/41] fix: refuse two output files whose names are spelled
 differently but are the same file

---
 pyconform/dataflow.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index 9417d71..de4c599 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -16,6 +16,7 @@ Copyright 2017-2020, University Corporation for Atmospheric Research
 LICENSE: See the LICENSE.rst file for details
 """
 
+from os.path import realpath
 from warnings import warn
 
 import numpy
@@ -284,6 +285,7 @@ class DataFlow(object):
 
     def _create_write_nodes_(self):
         writenodes = {}
+        outpaths = set()
         for fname in self._ods.files:
             fdesc = self._ods.files[fname]
             vmissing = tuple(
@@ -298,10 +300,12 @@ class DataFlow(object):
             else:
                 vnodes = tuple(self._valnodes[vname] for vname in fdesc.variables)
                 wnode = WriteNode(fdesc, inputs=vnodes)
-                if wnode.label in writenodes:
+                outpath = realpath(wnode.label)
+                if outpath in outpaths:
                     raise ValueError(
                         "More than one output file is named {!r}".format(wnode.label)
                     )
+                outpaths.add(outpath)
                 writenodes[wnode.label] = wnode
         return writenodes
 
-- 
2.43.0


From 59a926521d1cf33a403bc77a8ee16d138e29f08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:16 +0000
Subject: [PATCH 41/41] fix: refuse an output file that is one of the input
 files

---
 pyconform/dataflow.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyconform/dataflow.py b/pyconform/dataflow.py
index de4c599..b70680b 100644
--- a/pyconform/dataflow.py
+++ b/pyconform/dataflow.py
@@ -285,6 +285,7 @@ class DataFlow(object):
 
     def _create_write_nodes_(self):
         writenodes = {}
+        inppaths = {realpath(fname) for fname in self._ids.files}
         outpaths = set()
         for fname in self._ods.files:
             fdesc = self._ods.files[fname]
@@ -305,6 +306,10 @@ class DataFlow(object):
                     raise ValueError(
                         "More than one output file is named {!r}".format(wnode.label)
                     )
+                if outpath in inppaths:
+                    raise ValueError(
+                        "Output file {!r} is one of the input files".format(wnode.label)
+                    )
                 outpaths.add(outpath)
                 writenodes[wnode.label] = wnode
         return writenodes
-- 
2.43.0

