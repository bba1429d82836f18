From 946400adf34ff4e6f8ef80b10bf6f8d94514d24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 001/143] fix: write arrays without elements to hspy and zspy
 files

---
 rsciio/_hierarchical.py | 8 ++++++--
 rsciio/hspy/_api.py     | 7 +++++--
 rsciio/zspy/_api.py     | 4 ++++
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index aba0587..a359694 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -746,10 +746,14 @@ class HierarchicalWriter:
             :py:meth:`h5py.Group.require_dataset` or
             :py:meth:`zarr.hierarchy.Group.require_dataset` method.
         """ % SHOW_PROGRESSBAR_DOC
-        if chunks is None:
+        if 0 in data.shape:
+            # There is nothing to chunk and a chunk can't have a size of 0
+            chunks = True
+        elif chunks is None:
             if is_dask_array(data):
                 # For lazy dataset, by default, we use the current dask chunking
-                chunks = tuple([c[0] for c in data.chunks])
+                # (the first chunk can be empty)
+                chunks = tuple([c[0] if c[0] else max(c) for c in data.chunks])
             else:
                 # If signal_axes=None, use automatic h5py chunking, otherwise
                 # optimise the chunking to contain at least one signal per chunk
diff --git a/rsciio/hspy/_api.py b/rsciio/hspy/_api.py
index 097cd4b..e938b37 100644
--- a/rsciio/hspy/_api.py
+++ b/rsciio/hspy/_api.py
@@ -118,6 +118,10 @@ class HyperspyWriter(HierarchicalWriter):
                 dset,
             ]
 
+        if 0 in data[0].shape:
+            # nothing to write
+            return
+
         for i, (data_, dset_) in enumerate(zip(data, dset)):
             if is_dask_array(data_):
                 if data_.chunks != dset_.chunks:
@@ -130,8 +134,7 @@ class HyperspyWriter(HierarchicalWriter):
                     )
                 # for performance reason, we write the data later, with all data
                 # at the same time in a single `dask.array.store` call
-            # "write_direct" doesn't play well with empty array
-            elif data_.flags.c_contiguous and data_.shape != (0,):
+            elif data_.flags.c_contiguous:
                 dset_.write_direct(data_)
             else:
                 dset_[:] = data_
diff --git a/rsciio/zspy/_api.py b/rsciio/zspy/_api.py
index 473c6ac..d17ae8f 100644
--- a/rsciio/zspy/_api.py
+++ b/rsciio/zspy/_api.py
@@ -143,6 +143,10 @@ class ZspyWriter(HierarchicalWriter):
             dset = [
                 dset,
             ]
+        if 0 in data[0].shape:
+            # nothing to write
+            return
+
         for i, (data_, dset_) in enumerate(zip(data, dset)):
             if is_dask_array(data_):
                 if data_.chunks != dset_.chunks:
-- 
2.43.0


From cd8b49fafd6d42baba44b799d69e9356cdefb82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 002/143] fix: keep the order of sequences of more than 10
 elements in hspy and zspy metadata

---
 rsciio/_hierarchical.py | 54 ++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index a359694..3a2132c 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -19,6 +19,7 @@
 import ast
 import datetime
 import logging
+import re
 import warnings
 
 import h5py
@@ -41,6 +42,19 @@ _logger = logging.getLogger(__name__)
 # ragged arrays in hdf5 with dimensionality higher than 1
 
 
+def _values_sorted_by_index(dictionary):
+    """
+    Return the values of a dictionary, whose keys are (or end with) the index
+    of the element in a sequence, in the order of the sequence.
+    """
+    # Pad the index, because the lexicographic order is different from the
+    # order of the sequence when there are more than 10 elements.
+    def index(item):
+        return re.sub(r"\d+", lambda m: m.group().zfill(20), item[0])
+
+    return [value for _, value in sorted(dictionary.items(), key=index)]
+
+
 def flatten_data(x, is_hdf5=False):
     new_data = np.empty(shape=x.shape, dtype=object)
     shapes = np.empty(shape=x.shape, dtype=object)
@@ -380,17 +394,12 @@ class HierarchicalReader:
                 break
         if len(axes) != len(exp["data"].shape):  # broke from the previous loop
             try:
-                axes = [
-                    i
-                    for k, i in sorted(
-                        iter(
-                            self._group2dict(
-                                group["_list_" + str(len(exp["data"].shape)) + "_axes"],
-                                lazy=lazy,
-                            ).items()
-                        )
+                axes = _values_sorted_by_index(
+                    self._group2dict(
+                        group["_list_" + str(len(exp["data"].shape)) + "_axes"],
+                        lazy=lazy,
                     )
-                ]
+                )
             except KeyError:
                 raise IOError(not_valid_format)
         exp["axes"] = axes
@@ -634,27 +643,16 @@ class HierarchicalReader:
                         data_ = np.array(data_)
                     dictionary[kn] = data_
                 elif key.startswith("_hspy_AxesManager_"):
-                    dictionary[key] = [
-                        i
-                        for k, i in sorted(
-                            iter(self._group2dict(group[key], lazy=lazy).items())
-                        )
-                    ]
+                    dictionary[key] = _values_sorted_by_index(
+                        self._group2dict(group[key], lazy=lazy)
+                    )
                 elif key.startswith("_list_"):
-                    dictionary[key[7 + key[6:].find("_") :]] = [
-                        i
-                        for k, i in sorted(
-                            iter(self._group2dict(group[key], lazy=lazy).items())
-                        )
-                    ]
+                    dictionary[key[7 + key[6:].find("_") :]] = _values_sorted_by_index(
+                        self._group2dict(group[key], lazy=lazy)
+                    )
                 elif key.startswith("_tuple_"):
                     dictionary[key[8 + key[7:].find("_") :]] = tuple(
-                        [
-                            i
-                            for k, i in sorted(
-                                iter(self._group2dict(group[key], lazy=lazy).items())
-                            )
-                        ]
+                        _values_sorted_by_index(self._group2dict(group[key], lazy=lazy))
                     )
                 else:
                     dictionary[key] = {}
-- 
2.43.0


From f2840e0c4ab08dcf8ad0eff769f3e8b563613eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:13 +0000
Subject: [PATCH 003/143] fix: write numpy string and boolean scalars in hspy
 and zspy metadata

---
 rsciio/_hierarchical.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index 3a2132c..6a6057b 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -899,7 +899,12 @@ class HierarchicalWriter:
                     group.attrs[key] = value.decode()
 
             elif isinstance(value, str):
-                group.attrs[key] = value
+                # h5py doesn't support np.str_
+                group.attrs[key] = str(value)
+
+            elif isinstance(value, np.bool_):
+                # zarr doesn't support np.bool_
+                group.attrs[key] = bool(value)
 
             elif isinstance(value, list):
                 if len(value):
-- 
2.43.0


From fdc82ab2fbebf34e832cb4aa04da47fa8841b4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 004/143] fix: metadata-only updates of hspy and zspy files
 leave no stale value of another type

---
 rsciio/_hierarchical.py | 58 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 10 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index 6a6057b..0b6bdc1 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -877,14 +877,45 @@ class HierarchicalWriter:
             for model in model_group.values():
                 model.attrs["_signal"] = group.name
 
+    def _get_existing_names(self, group):
+        """
+        Return the attributes and members of a group, as a dictionary of the sets
+        of their (kind, name) by the key of the dictionary from which they have
+        been written.
+        """
+        names = {}
+        for name in group.attrs.keys():
+            key = re.sub(r"^(_list_empty_|_tuple_empty_|_bs_)", "", name)
+            names.setdefault(key, set()).add(("attribute", name))
+        for name in group.keys():
+            if isinstance(group[name], self.Dataset):
+                key = re.sub(r"^(_list_|_tuple_|_ragged_shapes_)", "", name)
+            else:
+                key = re.sub(r"^(_list|_tuple)_\d+_", "", name)
+            names.setdefault(key, set()).add(("member", name))
+        return names
+
     def dict2group(self, dictionary, group, **kwds):
         "Recursive writer of dicts and signals"
+        # When updating a file, the name under which a value has been saved
+        # depends on its type: what isn't overwritten by the new value needs to
+        # be deleted.
+        existing_names = self._get_existing_names(group)
         for key, value in dictionary.items():
             _logger.debug("Saving item: {}".format(key))
+            written = {("attribute", key)}
             if isinstance(value, dict):
+                if ("member", key) in existing_names.get(key, ()) and isinstance(
+                    group[key], self.Dataset
+                ):
+                    del group[key]
                 self.dict2group(value, group.require_group(key), **kwds)
+                written = {("member", key)}
             elif isinstance(value, (np.ndarray, self.Dataset)) or is_dask_array(value):
                 self.overwrite_dataset(group, value, key, **kwds)
+                written = {("member", key)}
+                if value.dtype == np.dtype("O"):
+                    written.add(("member", f"_ragged_shapes_{key}"))
 
             elif value is None:
                 group.attrs[key] = "_None_"
@@ -895,6 +926,7 @@ class HierarchicalWriter:
                     # supported by hdf5)
                     value.index(b"\x00")
                     group.attrs["_bs_" + key] = np.void(value)
+                    written = {("attribute", "_bs_" + key)}
                 except ValueError:
                     group.attrs[key] = value.decode()
 
@@ -906,17 +938,14 @@ class HierarchicalWriter:
                 # zarr doesn't support np.bool_
                 group.attrs[key] = bool(value)
 
-            elif isinstance(value, list):
+            elif isinstance(value, (list, tuple)):
+                _type = "_list_" if isinstance(value, list) else "_tuple_"
                 if len(value):
-                    self.parse_structure(key, group, value, "_list_", **kwds)
+                    name = self.parse_structure(key, group, value, _type, **kwds)
+                    written = {("member", name)}
                 else:
-                    group.attrs["_list_empty_" + key] = "_None_"
-
-            elif isinstance(value, tuple):
-                if len(value):
-                    self.parse_structure(key, group, value, "_tuple_", **kwds)
-                else:
-                    group.attrs["_tuple_empty_" + key] = "_None_"
+                    group.attrs[f"{_type}empty_{key}"] = "_None_"
+                    written = {("attribute", f"{_type}empty_{key}")}
 
             else:
                 try:
@@ -927,6 +956,11 @@ class HierarchicalWriter:
                         f"information in the file: {key} : {value}"
                     )
 
+            for kind, name in existing_names.get(key, set()) - written:
+                container = group.attrs if kind == "attribute" else group
+                if name in container:
+                    del container[name]
+
     def parse_structure(self, key, group, value, _type, **kwds):
         try:
             # Here we check if there are any signals in the container, as
@@ -940,11 +974,13 @@ class HierarchicalWriter:
             tmp = np.array([[0]])
 
         if np.issubdtype(tmp.dtype, object) or tmp.ndim != 1:
+            name = _type + str(len(value)) + "_" + key
             self.dict2group(
                 dict(zip([str(i) for i in range(len(value))], value)),
-                group.require_group(_type + str(len(value)) + "_" + key),
+                group.require_group(name),
                 **kwds,
             )
+            return name
         elif np.issubdtype(tmp.dtype, np.dtype("U")):
             if _type + key in group:
                 del group[_type + key]
@@ -956,3 +992,5 @@ class HierarchicalWriter:
             if _type + key in group:
                 del group[_type + key]
             group.create_dataset(_type + key, data=tmp, **kwds)
+
+        return _type + key
-- 
2.43.0


From c52b594504483e10906893c1796ee1b030909830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:57 +0000
Subject: [PATCH 005/143] fix: don't destroy hspy and zspy files overwritten
 with lazy data read from them

---
 rsciio/hspy/_api.py | 38 +++++++++++++++++++++-----------------
 rsciio/zspy/_api.py | 28 ++++++++++++++++++++++++++++
 2 files changed, 49 insertions(+), 17 deletions(-)

diff --git a/rsciio/hspy/_api.py b/rsciio/hspy/_api.py
index e938b37..cafaf5e 100644
--- a/rsciio/hspy/_api.py
+++ b/rsciio/hspy/_api.py
@@ -70,6 +70,16 @@ def _close_tracked_handles(filename):
             handle.close()
 
 
+def _is_file_of_handle(filename, handle):
+    """Whether *filename* is the file opened with *handle*."""
+    if not isinstance(handle, h5py.File):
+        return False
+    try:
+        return os.path.samefile(filename, handle.filename)
+    except OSError:
+        return False
+
+
 not_valid_format = "The file is not a valid HyperSpy hdf5 file"
 
 current_file_version = None  # Format version of the file being read
@@ -251,24 +261,18 @@ def file_writer(
         # Use shuffle by default to improve compression
         kwds["shuffle"] = True
 
-    folder = signal["tmp_parameters"].get("original_folder", "")
-    fname = signal["tmp_parameters"].get("original_filename", "")
-    ext = signal["tmp_parameters"].get("original_extension", "")
-    if ext and not ext.startswith("."):
-        # add a dot if not present
-        ext = f".{ext}"
-    original_path = Path(folder, f"{fname}{ext}")
-
     f = None
-    if signal["attributes"]["_lazy"] and Path(filename).absolute() == original_path:
-        f = file.get_file_handle(signal["data"], warn=False)
-        if f is not None and f.mode == "r":
-            # when the file is read only, force to reopen it in writing mode
-            raise OSError(
-                "File opened in read only mode. To overwrite file "
-                "with lazy signal, use `mode='a'` when loading the "
-                "signal."
-            )
+    if is_dask_array(signal["data"]):
+        source = file.get_file_handle(signal["data"], warn=False)
+        if _is_file_of_handle(filename, source):
+            f = source
+            if f.mode == "r":
+                # when the file is read only, force to reopen it in writing mode
+                raise OSError(
+                    "File opened in read only mode. To overwrite file "
+                    "with lazy signal, use `mode='a'` when loading the "
+                    "signal."
+                )
 
     if f is None:
         # with "write_dataset=False", we need mode='a', otherwise the dataset
diff --git a/rsciio/zspy/_api.py b/rsciio/zspy/_api.py
index d17ae8f..c5f9d96 100644
--- a/rsciio/zspy/_api.py
+++ b/rsciio/zspy/_api.py
@@ -17,6 +17,7 @@
 # along with RosettaSciIO. If not, see <https://www.gnu.org/licenses/#GPL>.
 
 import logging
+import os
 import zipfile
 from collections.abc import MutableMapping
 
@@ -164,6 +165,25 @@ class ZspyWriter(HierarchicalWriter):
                 da.store(data, dset, lock=False)
 
 
+def _is_source(store, data):
+    """Whether the data are dask array reading from the zarr store."""
+    if not is_dask_array(data):
+        return False
+    for key in data.dask.keys():
+        source = getattr(data.dask[key], "store", None)
+        if source is None:
+            continue
+        if source is store:
+            return True
+        try:
+            if os.path.samefile(source.path, store.path):
+                return True
+        except (AttributeError, OSError, TypeError):
+            # not in a file or the file doesn't exist
+            pass
+    return False
+
+
 def file_writer(
     filename,
     signal,
@@ -244,6 +264,14 @@ def file_writer(
                 "The `store_type` argument must be one of 'local' or 'zip'."
             )
 
+    if write_dataset and _is_source(store, signal["data"]):
+        # The source would be deleted before reading it
+        raise OSError(
+            "A file can't be overwritten with the lazy signal, which has been "
+            "loaded from this file. Save the signal to another file, or use "
+            "`write_dataset=False` to update the file without its dataset."
+        )
+
     mode = "w" if write_dataset else "a"
 
     _logger.debug(f"File mode: {mode}")
-- 
2.43.0


From 039cf49ffa25bb64a8137488dfe5c1982252ade7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 006/143] fix: semper writer stores the units of each axis
 instead of those of the first axis three times

---
 rsciio/semper/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 9d0739f..90ae6d5 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -325,9 +325,9 @@ class SemperFormat(object):
         label["TITLE"][:, : len(title)] = [ord(s) for s in title]
         xunit = self.units[0] if self.units[0] is not None else ""
         label["XUNIT"][:, : len(xunit)] = [ord(c) for c in xunit]
-        yunit = self.units[0] if self.units[0] is not None else ""
+        yunit = self.units[1] if self.units[1] is not None else ""
         label["YUNIT"][:, : len(yunit)] = [ord(c) for c in yunit]
-        zunit = self.units[0] if self.units[0] is not None else ""
+        zunit = self.units[2] if self.units[2] is not None else ""
         label["ZUNIT"][:, : len(zunit)] = [ord(c) for c in zunit]
         return label
 
-- 
2.43.0


From c5fd3a0a24861edf167a9d15b95e1adf0e109103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 007/143] fix: semper writer stores half precision and
 big-endian data as the type declared in the header

---
 rsciio/semper/_api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 90ae6d5..77a136a 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -446,6 +446,9 @@ class SemperFormat(object):
         """
         nlay, nrow, ncol = self.data.shape
         data, iform = self._check_format(self.data)
+        # The records are always written as the little-endian form of the
+        # type declared in the header
+        data = data.astype(np.dtype(self.IFORM_DICT[iform]).newbyteorder("<"))
         title = self.title if self.title is not None else ""
         with open(filename, "wb") as f:
             if not skip_header:
@@ -483,7 +486,7 @@ class SemperFormat(object):
             # Write picture data:
             for k in range(nlay):
                 for j in range(nrow):
-                    row = self.data[k, j, :]
+                    row = data[k, j, :]
                     # Record length = bytes per entry * ncol:
                     record_length = np.dtype(self.IFORM_DICT[iform]).itemsize * ncol
                     f.write(
-- 
2.43.0


From 3506c0a47c9d214cc0fcbc8ccf071f4ae43e7d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 008/143] fix: semper calibration of arrays with dimensions of
 size 1 stays with its axis

---
 rsciio/semper/_api.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 77a136a..8f50e9d 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -521,10 +521,12 @@ class SemperFormat(object):
         smetadata = DTBox(signal["metadata"], box_dots=True)
         assert len(data.shape) <= 3, "Only up to 3-dimensional datasets can be handled!"
         scales, offsets, units = [1.0] * 3, [0.0] * 3, [None] * 3  # Defaults!
-        for i in range(len(data.shape)):
-            scales[i] = signal["axes"][i]["scale"]
-            offsets[i] = signal["axes"][i]["offset"]
-            units[i] = signal["axes"][i]["units"]
+        # Dimensions of size 1 are squeezed when reading
+        axes = [axis for axis in signal["axes"] if axis["size"] > 1]
+        for i, axis in enumerate(axes):
+            scales[i] = axis["scale"]
+            offsets[i] = axis["offset"]
+            units[i] = axis["units"]
         # Make sure data is 3D!
         data = data[tuple(None for _ in range(3 - len(data.shape)))]
         signal_dimension = len(
-- 
2.43.0


From 28a761ef1ae161ead0e06358870de424aa0a6048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 009/143] fix: semper files with non-ASCII titles can be read
 back

---
 rsciio/semper/_api.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index 8f50e9d..ba5ee05 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -463,19 +463,20 @@ class SemperFormat(object):
                 header["ICLASS"] = self.metadata.get("ICLASS", 6)  # 6: Undefined!
                 header["IFORM"] = iform
                 # IVERSN: 2; ILABEL:1 (True)
-                header["IFLAG"] = 2 * 10000 + 1000 + len(title)
+                encoded_title = title.encode()
+                header["IFLAG"] = 2 * 10000 + 1000 + len(encoded_title)
                 # Write header:
                 f.write(struct.pack("<i", 12))  # record length, 4 byte format!
                 f.write(header.tobytes())
                 f.write(struct.pack("<i", 12))  # record length, 4 byte format!
                 # Write title:
-                if len(title) > 0:
+                if len(encoded_title) > 0:
                     f.write(
-                        struct.pack("<i", len(title))
+                        struct.pack("<i", len(encoded_title))
                     )  # record length, 4 byte format!
-                    f.write(title.encode())
+                    f.write(encoded_title)
                     f.write(
-                        struct.pack("<i", len(title))
+                        struct.pack("<i", len(encoded_title))
                     )  # record length, 4 byte format!
                 # Create label:
                 label = self._get_label()
-- 
2.43.0


From f09ccf86af951cd39f9bad1a000cdfd0e18e5ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 010/143] fix: npy files in fortran order are read correctly
 when lazy

---
 rsciio/numpy/_api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsciio/numpy/_api.py b/rsciio/numpy/_api.py
index af5f39a..0ba059e 100644
--- a/rsciio/numpy/_api.py
+++ b/rsciio/numpy/_api.py
@@ -117,6 +117,9 @@ def file_reader(filename, lazy=False, chunks="auto", navigation_axes=None, **kwa
     """
     if lazy:
         offset, shape, dtype = inspect_npy_file(filename)
+        if np.load(filename, mmap_mode="r").flags.fnc:
+            # array saved in fortran order
+            kwargs.setdefault("order", "F")
         data = file.memmap_distributed(
             filename,
             offset=offset,
-- 
2.43.0


From e5487ccda038bd8eb32bfd7eb71a88b8e9bcd75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 011/143] fix: compressed and fortran ordered prz files are
 read correctly when lazy

---
 rsciio/pantarhei/_api.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index c5816bf..a2ee470 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -26,6 +26,7 @@ import zipfile
 from datetime import datetime as dt
 from pathlib import Path
 
+import dask.array as da
 import numpy as np
 
 from rsciio._docstrings import (
@@ -110,6 +111,14 @@ def file_reader(
             with zf.open("data.npy") as f:
                 offset_in_npy, shape, dtype_str = inspect_npy_bytes(f)
 
+            with zf.open("data.npy") as f:
+                version = np.lib.format.read_magic(f)
+                if version == (1, 0):
+                    read_header = np.lib.format.read_array_header_1_0
+                else:
+                    read_header = np.lib.format.read_array_header_2_0
+                _, fortran_order, _ = read_header(f)
+
         with open(filename, "rb") as f:
             # data_info.header_offset points to the local file header
             f.seek(data_info.header_offset)
@@ -122,14 +131,20 @@ def file_reader(
             # Add the offset within the .npy file itself
             offset = zip_data_offset + offset_in_npy
 
-        data = memmap_distributed(
-            filename,
-            offset=offset,
-            shape=shape,
-            dtype=np.dtype(dtype_str),
-            chunks=chunks,
-            **kwargs,
-        )
+        if data_info.compress_type == zipfile.ZIP_STORED:
+            if fortran_order:
+                kwargs.setdefault("order", "F")
+            data = memmap_distributed(
+                filename,
+                offset=offset,
+                shape=shape,
+                dtype=np.dtype(dtype_str),
+                chunks=chunks,
+                **kwargs,
+            )
+        else:
+            # compressed data can't be memory mapped
+            data = da.from_array(prz_file["data"], chunks=chunks)
     else:
         data = prz_file["data"]
 
-- 
2.43.0


From 50a612e808fcb0c5bbd7bf7464b2fa8d0d3aa0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 012/143] fix: prz files holding a single spectrum, 4D spectra
 or dimensions of size 1 can be read back

---
 rsciio/pantarhei/_api.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index a2ee470..c079cca 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -212,10 +212,9 @@ def import_pr(data, meta_data, filename=None):
     if content_type is None:
         if data_type in ("Stack", "3D"):
             content_type = [None, None, "Index"]
-        elif data_type == "1D" and data_dimensions == 3:
-            content_type = [None, "PlotIndex", "Index"]
         elif data_type == "1D":
-            content_type = [None, "PlotIndex"]
+            content_type = [None, "PlotIndex"][:data_dimensions]
+            content_type += ["Index" for _ in range(data_dimensions - 2)]
         elif data_dimensions >= 3:
             content_type = [
                 None,
@@ -248,7 +247,9 @@ def import_pr(data, meta_data, filename=None):
     trivial_indices = [
         i
         for i, _ in enumerate(content_type_np_order)
-        if data.shape[i] == 1 and "Index" in content_type_np_order[i]
+        if data.shape[i] == 1
+        and content_type_np_order[i] is not None
+        and "Index" in content_type_np_order[i]
     ]
 
     content_type_np_order = [
-- 
2.43.0


From a583d8302c5fe99c97b71a097384302a054604ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 013/143] fix: prz writer keeps the order of scan and other
 navigation axes

---
 rsciio/pantarhei/_api.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index c079cca..1aafb49 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -572,8 +572,8 @@ def get_metadata_from_axes_info(axes_info, pixel_factors=None):
     axis_name_to_content_type = {
         "Energy loss": "Energy",
         "Energy": "Energy",
-        "ScanX": "ScanY",
-        "ScanY": "ScanX",
+        "ScanX": "ScanX",
+        "ScanY": "ScanY",
     }
     nr_axes = len(axes_info)
     imported_calibs = [None] * nr_axes
@@ -633,6 +633,12 @@ def get_metadata_from_axes_info(axes_info, pixel_factors=None):
     if any(imported_calibs):
         axes_meta_data["inherited.calib"] = imported_calibs[::-1]
     if any(content_types):
+        # A navigation axis without known name is an index, otherwise it would
+        # be moved behind the known axes when reading
+        content_types = [
+            "Index" if content_type is None and navigate else content_type
+            for content_type, navigate in zip(content_types, navigate_axes)
+        ]
         axes_meta_data["content.types"] = content_types[::-1]
     else:
         if len([nav for nav in navigate_axes if not nav]) == 1:
-- 
2.43.0


From 02df5103c46ea76c2678bf1a367089ecef386f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 014/143] fix: ripple files with a depth of 1 can be read back
 and undefined units stay undefined

---
 rsciio/ripple/_api.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsciio/ripple/_api.py b/rsciio/ripple/_api.py
index f4f8214..ba626dc 100644
--- a/rsciio/ripple/_api.py
+++ b/rsciio/ripple/_api.py
@@ -575,7 +575,8 @@ def file_writer(filename, signal, encoding="latin-1"):
         "data-type": data_type,
         "data-length": data_length,
         "byte-order": byte_order,
-        "record-by": record_by,
+        # a depth of 1 is only valid when it isn't recorded by vector or image
+        "record-by": record_by if depth > 1 else "dont-care",
         "signal": signal_type,
         "date": date,
         "time": time,
@@ -588,7 +589,9 @@ def file_writer(filename, signal, encoding="latin-1"):
         if eval(key) > 1:
             keys_dictionary[f"{key}-scale"] = eval(f"{key}_axis['scale']")
             keys_dictionary[f"{key}-origin"] = eval(f"{key}_axis['offset']")
-            keys_dictionary[f"{key}-units"] = eval(f"{key}_axis['units']")
+            units = eval(f"{key}_axis['units']")
+            # The reader converts back "<undefined>" to None
+            keys_dictionary[f"{key}-units"] = "<undefined>" if units is None else units
             keys_dictionary[f"{key}-name"] = eval(f"{key}_axis['name']")
     if signal_type == "EELS":
         mp = md.get("Acquisition_instrument.TEM")
-- 
2.43.0


From 4829d444cdc495459dfdf7ea3c8c64ba5263eeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 015/143] =?UTF-8?q?fix:=20mrcz=20writer=20converts=20the?=
 =?UTF-8?q?=20pixel=20size=20of=20axes=20in=20=C2=B5m=20and=20=C3=85?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 rsciio/mrcz/_api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsciio/mrcz/_api.py b/rsciio/mrcz/_api.py
index 2e478ac..d979e5a 100644
--- a/rsciio/mrcz/_api.py
+++ b/rsciio/mrcz/_api.py
@@ -55,6 +55,8 @@ _POP_FROM_HEADER = [
 # Hyperspy uses an unusual mixed Fortran- and C-ordering scheme
 _READ_ORDER = [1, 2, 0]
 _WRITE_ORDER = [0, 1, 2]
+# Spelling of the units understood by mrcz, others are taken as nm
+_UNITS_TO_MRCZ = {"µm": "\\mum", "μm": "\\mum", "um": "\\mum", "Å": "\\AA", "Å": "\\AA"}
 
 
 # API changes in mrcz 0.5
@@ -213,6 +215,7 @@ def file_writer(
 
     # Get pixelsize and pixelunits from the axes
     pixelunits = signal["axes"][-1]["units"]
+    pixelunits = _UNITS_TO_MRCZ.get(pixelunits, pixelunits)
     pixelsize = [signal["axes"][I_]["scale"] for I_ in _WRITE_ORDER]
 
     # Strip out voltage from meta-data
-- 
2.43.0


From cba0c2005b4a868f1f3408f1ef54a03d87600b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 016/143] fix: ripple files holding a single value can be read
 back

---
 rsciio/ripple/_api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsciio/ripple/_api.py b/rsciio/ripple/_api.py
index ba626dc..ef7f380 100644
--- a/rsciio/ripple/_api.py
+++ b/rsciio/ripple/_api.py
@@ -255,12 +255,13 @@ def read_raw(rpl_info, filename, chunks="auto"):
     data = file.memmap_distributed(
         filename,
         offset=offset,
-        shape=shape,
+        # a single value can't be mapped without dimension
+        shape=shape or (1,),
         dtype=data_type,
         chunks=chunks,
     )
 
-    return data
+    return data.reshape(shape) if not shape else data
 
 
 @distributed_keyword_deprecation
-- 
2.43.0


From c54dd6c413eb60b6d620dd3c73c1999a5c578d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 017/143] fix: mrc files with dimensions of size 1 can be read
 back

---
 rsciio/mrcz/_api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsciio/mrcz/_api.py b/rsciio/mrcz/_api.py
index d979e5a..2fc0629 100644
--- a/rsciio/mrcz/_api.py
+++ b/rsciio/mrcz/_api.py
@@ -112,6 +112,9 @@ def file_reader(filename, lazy=False, mmap_mode="c", endianness="<", **kwds):
         filename, endian=mrcz_endian, useMemmap=lazy, pixelunits="nm", **kwds
     )
 
+    # mrcz squeezes dimensions of size 1
+    data = data.reshape(mrcz_header["dimensions"])
+
     # Create the axis objects for each axis
     names = ["y", "x", "z"]
     navigate = [False, False, True]
-- 
2.43.0


From e2b34d8058dce4f72461a8691d4877fd42e8631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 018/143] fix: mrcz writer stores big-endian double precision
 data unaltered

---
 rsciio/mrcz/_api.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsciio/mrcz/_api.py b/rsciio/mrcz/_api.py
index 2fc0629..b89235d 100644
--- a/rsciio/mrcz/_api.py
+++ b/rsciio/mrcz/_api.py
@@ -215,6 +215,9 @@ def file_writer(
     mrcz_endian = "le" if endianness == "<" else "be"
 
     md = DTBox(signal["metadata"], box_dots=True)
+    # mrcz casts double precision correctly only in native byte order
+    data = signal["data"]
+    data = data.astype(data.dtype.newbyteorder("="), copy=False)
 
     # Get pixelsize and pixelunits from the axes
     pixelunits = signal["axes"][-1]["units"]
@@ -228,7 +231,7 @@ def file_writer(
     gain = md.get("Signal.Noise_properties.Variance_linear_model.gain_factor", 1.0)
     if do_async:
         _mrcz.asyncWriteMRC(
-            signal["data"],
+            data,
             filename,
             meta=md,
             endian=mrcz_endian,
@@ -243,7 +246,7 @@ def file_writer(
         )
     else:
         _mrcz.writeMRC(
-            signal["data"],
+            data,
             filename,
             meta=md,
             endian=mrcz_endian,
-- 
2.43.0


From 0c2ff1bf0bb59649437652da62635bd0c1926410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 019/143] fix: prz writer keeps the content types of re-saved
 files

---
 rsciio/pantarhei/_api.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index 1aafb49..b44c2fe 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -574,6 +574,11 @@ def get_metadata_from_axes_info(axes_info, pixel_factors=None):
         "Energy": "Energy",
         "ScanX": "ScanX",
         "ScanY": "ScanY",
+        "CameraX": "CameraX",
+        "CameraY": "CameraY",
+        "Index": "Index",
+        "PlotIndex": "PlotIndex",
+        "Pixel": "Pixel",
     }
     nr_axes = len(axes_info)
     imported_calibs = [None] * nr_axes
-- 
2.43.0


From e31b54cd6a04f5963007f7b7962a26d202d1d2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 020/143] fix: prz writer stores EELS data in the energy
 direction expected by the reader

---
 rsciio/pantarhei/_api.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index b44c2fe..a20f7a7 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -172,6 +172,8 @@ def file_writer(filename: str | Path, signal: dict) -> None:
             file=f,
             data=data,
             meta_data=[meta_data],
+            # can be read without unpickling
+            meta_data_json=json.dumps([meta_data], default=lambda x: x.tolist()),
             file_format_version=2,
             data_model=[{}],
         )
@@ -384,6 +386,17 @@ def export_pr(signal):
     axes_meta_data = get_metadata_from_axes_info(axes_info, pixel_factors=pixel_factors)
     meta_data.update(axes_meta_data)
 
+    # The energy axis of EELS data is stored in reversed direction, see `import_pr`
+    content_types = meta_data.get("content.types") or []
+    if meta_data.get("filter.mode") == "EELS" and len(content_types) == data.ndim:
+        flip_axis = [i for i, c in enumerate(content_types[::-1]) if c == "Energy"]
+        data = np.flip(data, flip_axis)
+        for i in flip_axis:
+            calib = meta_data.get("inherited.calib", [None] * data.ndim)[-1 - i]
+            if calib and "offset" in calib:
+                # offset in pixels
+                calib["offset"] = -(calib["offset"] + data.shape[i] - 1)
+
     return data, meta_data
 
 
-- 
2.43.0


From 0735ee9b980f2533cf75ad06daf17cff3ca1aefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 021/143] fix: chunks holding a single scan position can be
 computed with memory mapped position lists

---
 rsciio/utils/_distributed.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rsciio/utils/_distributed.py b/rsciio/utils/_distributed.py
index d08c1df..7639f9a 100644
--- a/rsciio/utils/_distributed.py
+++ b/rsciio/utils/_distributed.py
@@ -161,7 +161,11 @@ def slice_memmap(slices, file, dtypes, shape, key=None, positions=False, **kwarg
     numpy.ndarray
         Array of the data from the memory mapped file sliced using the provided slice.
     """
-    slices_ = np.squeeze(slices)[()]
+    if positions:
+        # keep the navigation dimensions of size 1 of the chunk
+        slices_ = np.asarray(slices)[..., 0, 0]
+    else:
+        slices_ = np.squeeze(slices)[()]
     data = np.memmap(file, dtypes, shape=shape, **kwargs)
     if key is not None:
         data = data[key]
-- 
2.43.0


From 008647f165a9119ee99eb99e5b525fdb77ae5109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 022/143] fix: children of indented XML elements are converted
 instead of the indentation

---
 rsciio/utils/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/utils/xml.py b/rsciio/utils/xml.py
index a0eff22..2cf9456 100644
--- a/rsciio/utils/xml.py
+++ b/rsciio/utils/xml.py
@@ -305,7 +305,7 @@ def xml2dtb(et, dictree):
         Box object to be populated.
 
     """
-    if et.text:
+    if et.text and not len(et):
         dictree.set_item(et.tag, et.text)
         return
     else:
-- 
2.43.0


From 96b7d07f7014a75ee8d8fd52f9622d21befbbe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 023/143] fix: quoted text of single XML elements is evaluated
 once as any other text

---
 rsciio/utils/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/utils/xml.py b/rsciio/utils/xml.py
index 2cf9456..bd93d41 100644
--- a/rsciio/utils/xml.py
+++ b/rsciio/utils/xml.py
@@ -253,7 +253,7 @@ class XmlToDict:
                     dd_node[key].append(val)
             d_node = {
                 et_node.tag: {
-                    key: self.eval(val[0]) if len(val) == 1 else val
+                    key: val[0] if len(val) == 1 else val
                     for key, val in dd_node.items()
                 }
             }
-- 
2.43.0


From 454b8758eae631b6221e125a5e11828f0afee94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 024/143] fix: XML elements to flatten without children or
 attributes are kept instead of raising

---
 rsciio/utils/xml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/utils/xml.py b/rsciio/utils/xml.py
index bd93d41..6148e98 100644
--- a/rsciio/utils/xml.py
+++ b/rsciio/utils/xml.py
@@ -286,7 +286,8 @@ class XmlToDict:
                 elif et_node.attrib:
                     d_node[et_node.tag][self.dub_text_str] = self.eval(text)
         for tag in self.tags_to_flatten:
-            if tag in d_node:
+            # an element without content has nothing to place one level shallower
+            if isinstance(d_node.get(tag), dict):
                 return d_node[tag]
         return d_node
 
-- 
2.43.0


From dbbe428a1b5d18db946775ebbd1975089af90533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 025/143] fix: serial dates keep the fraction of a second and
 dates before 1900

---
 rsciio/utils/_date_time.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsciio/utils/_date_time.py b/rsciio/utils/_date_time.py
index b2aa1fb..4f51245 100644
--- a/rsciio/utils/_date_time.py
+++ b/rsciio/utils/_date_time.py
@@ -56,7 +56,7 @@ def datetime_to_serial_date(dt):
         dt = dt.replace(tzinfo=tz.tzutc())
     origin = datetime.datetime(1899, 12, 30, tzinfo=tz.tzutc())
     delta = dt - origin
-    return float(delta.days) + (float(delta.seconds) / 86400.0)
+    return delta.days + (delta.seconds + delta.microseconds / 1e6) / 86400.0
 
 
 def serial_date_to_datetime(serial):
@@ -64,7 +64,8 @@ def serial_date_to_datetime(serial):
     # Excel date&time format
     origin = datetime.datetime(1899, 12, 30, tzinfo=tz.tzutc())
     secs = (serial % 1.0) * 86400
-    delta = datetime.timedelta(int(serial), secs)
+    # the fraction of a day counts from the start of the day, also before the origin
+    delta = datetime.timedelta(int(serial // 1), secs)
     return origin + delta
 
 
-- 
2.43.0


From eb76f245b8aad8083de25823f5e5c362530ccf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 026/143] fix: blockfile line scans and single patterns have
 the axes of their dimensions, eager and lazy

---
 rsciio/blockfile/_api.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index dbe12a5..246e71a 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -286,7 +286,7 @@ def file_reader(filename, lazy=False, chunks="auto", endianness="<"):
         f.seek(offset2)
         data = np.fromfile(f, dtype=frame_dtype)["data"]
         try:
-            data = data.reshape(navigation_shape + signal_shape).squeeze()
+            data = data.reshape(navigation_shape + signal_shape)
         except ValueError:
             warnings.warn(
                 "Blockfile header dimensions larger than file size! "
@@ -295,7 +295,7 @@ def file_reader(filename, lazy=False, chunks="auto", endianness="<"):
             # Data is stored DP by DP:
             pw = [(0, np.prod(navigation_shape) - data.shape[0]), (0, 0)]
             data = np.pad(data, pw, mode="constant")
-            data = data.reshape(navigation_shape + signal_shape).squeeze()
+            data = data.reshape(navigation_shape + signal_shape)
     else:
         frame_dtype = np.dtype(
             [
@@ -327,19 +327,21 @@ def file_reader(filename, lazy=False, chunks="auto", endianness="<"):
         },
         "Signal": {"signal_type": "diffraction"},
     }
+    # Line scans and single patterns don't have the navigation axes of length 1
+    kept = [i for i in range(data.ndim) if data.shape[i] != 1 or not navigate[i]]
+    data = data.reshape([data.shape[i] for i in kept])
     # Create the axis objects for each axis
-    dim = data.ndim
     axes = [
         {
-            "size": data.shape[i],
-            "index_in_array": i,
+            "size": data.shape[index],
+            "index_in_array": index,
             "name": names[i],
             "scale": scales[i],
             "offset": 0.0,
             "units": units[i],
             "navigate": navigate[i],
         }
-        for i in range(dim)
+        for index, i in enumerate(kept)
     ]
 
     dictionary = {
-- 
2.43.0


From 3aabda58a58e77e798a6b6b4ed51f578b76ba2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 027/143] fix: blockfile headers are written with the requested
 endianness

---
 rsciio/blockfile/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index 246e71a..4d45a9e 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -97,7 +97,7 @@ def get_header_dtype_list(endianness="<"):
 
 def get_default_header(endianness="<"):
     """Returns a header pre-populated with default values."""
-    dt = np.dtype(get_header_dtype_list())
+    dt = np.dtype(get_header_dtype_list(endianness))
     header = np.zeros((1,), dtype=dt)
     header["ID"][0] = "IMGBLO".encode()
     header["MAGIC"][0] = magics[0]
-- 
2.43.0


From cf505873975f1c886cafe52368f94370b4a4341f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 028/143] fix: blockfile navigator option works for line scans

---
 rsciio/blockfile/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index 4d45a9e..9908e41 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -446,7 +446,7 @@ def file_writer(
         np.zeros((zero_pad,), np.byte).tofile(f)
         # Write virtual bright field
         if navigator is None:
-            navigator = np.zeros((signal["data"].shape[0], signal["data"].shape[1]))
+            navigator = np.zeros(signal["data"].shape[:-2])
         elif isinstance(navigator, str) and (navigator == "navigator"):
             if smetadata.get("_HyperSpy._sig_navigator", False):
                 navigator = smetadata["_HyperSpy._sig_navigator.data"]
@@ -455,7 +455,7 @@ def file_writer(
         elif hasattr(navigator, "shape"):
             # Is numpy array-like
             # check that the shape is ok
-            if navigator.shape != signal["data"].shape[:2]:
+            if navigator.shape != signal["data"].shape[:-2]:
                 raise ValueError(
                     "Size of the provided `navigator` does not match the "
                     "navigation dimensions of the dataset."
-- 
2.43.0


From 28947b338047ac28739bfafa22b5da847a4b78f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 029/143] fix: tvips files with a single frame are read

---
 rsciio/tvips/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 666bfc2..fd8ceba 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -426,7 +426,7 @@ def file_reader(
         units = ["s", DPU, DPU]
         names = ["time", "dy", "dx"]
         times = np.concatenate([i["timestamp"] + i["ms"] / 1000 for i in all_metadata])
-        timescale = 1 if times.shape[0] <= 0 else times[1] - times[0]
+        timescale = 1 if times.shape[0] <= 1 else times[1] - times[0]
         scales = [timescale, SDP, SDP]
         offsets = [times[0], offsety, offsetx]
         # Create the axis objects for each axis
-- 
2.43.0


From fc7c59422408e359c40643d12936e9921a238698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 030/143] fix: single images can be written to tvips files

---
 rsciio/tvips/_api.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index fd8ceba..a86cea0 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -545,7 +545,7 @@ def file_writer(
     metadata = DTBox(signal["metadata"], box_dots=True)
     signal_dim = len([axis for axis in axes if not axis["navigate"]])
     nav_shape = [axis["size"] for axis in axes if axis["navigate"]]
-    num_frames = np.prod(nav_shape) if nav_shape else 0
+    num_frames = int(np.prod(nav_shape)) if nav_shape else 1
     if signal_dim != 2:
         raise ValueError("Only Signal2D supported for writing to TVIPS file.")
     fnb, ext = os.path.splitext(filename)
@@ -575,7 +575,8 @@ def file_writer(
     # workaround for timestamp not working on Windows, see https://bugs.python.org/issue37527
     BEGIN = datetime(1970, 1, 1, 0).replace(tzinfo=timezone.utc)
     timestamp = (time_dt_utc - BEGIN).total_seconds()
-    if num_frames:
+    time_increment = 1
+    if nav_shape:
         nav_units = signal["axes"][-3]["units"]
         nav_increment = signal["axes"][-3]["scale"]
         try:
@@ -583,7 +584,7 @@ def file_writer(
 
             time_increment = (nav_increment * _UREG(nav_units)).to("ms").magnitude
         except (AttributeError, pint.UndefinedUnitError, pint.DimensionalityError):
-            time_increment = 1
+            pass
     # imaging or diffraction
     if mode is None:
         mode = _guess_image_mode(signal)
@@ -595,12 +596,11 @@ def file_writer(
     stageb = metadata.get("Acquisition_instrument.TEM.tilt_beta", 0)
     # TODO: is fcurrent actually beam current??
     fcurrent = metadata.get("Acquisition_instrument.TEM.beam_current", 0)
-    frames_to_save = num_frames if num_frames else 1
+    frames_to_save = num_frames
     current_frame = 0
     file_index = 0
     data = signal["data"]
-    if num_frames:
-        fdata = data.reshape((num_frames, axes[-2]["size"], axes[-1]["size"]))
+    fdata = data.reshape((num_frames, axes[-2]["size"], axes[-1]["size"]))
     while frames_to_save != 0:
         suffix = "_" + (f"{file_index}".zfill(3))
         filename = fnb + suffix + ext
-- 
2.43.0


From 207382a52b3a7fafcd43f35731ff12de84ffd1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 031/143] fix: big endian data is written little endian to
 tvips files

---
 rsciio/tvips/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index a86cea0..ab368c0 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -166,7 +166,8 @@ def _get_frame_record_dtype_from_signal(signal, extra_bytes=0):
         fhdtype.append(("extra", bytes, extra_bytes))
     dimx = signal["axes"][-1]["size"]
     dimy = signal["axes"][-2]["size"]
-    fhdtype.append(("data", signal["data"].dtype, (dimy, dimx)))
+    # tvips files are little endian
+    fhdtype.append(("data", signal["data"].dtype.newbyteorder("<"), (dimy, dimx)))
     dt = np.dtype(fhdtype)
     return dt
 
-- 
2.43.0


From 0c6ecbf0ed101b6d5ec18db025f33def58340d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 032/143] fix: NeXus axes with decreasing coordinates keep
 their direction

---
 rsciio/nexus/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index c854948..0de0e80 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -252,8 +252,8 @@ def _get_nav_list(data, dataentry):
                                     "size": data.shape[ind_in_array],
                                     "index_in_array": ind_in_array,
                                     "name": ax,
-                                    "scale": abs(dataentry[ax][1] - dataentry[ax][0]),
-                                    "offset": min(dataentry[ax][0], dataentry[ax][-1]),
+                                    "scale": dataentry[ax][1] - dataentry[ax][0],
+                                    "offset": dataentry[ax][0],
                                     "units": units,
                                     "navigate": navigation,
                                 }
-- 
2.43.0


From 438628e59f3e94ecad76306ba892c3346cae46ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 033/143] fix: numpy and complex scalars in the metadata can be
 written to NeXus files

---
 rsciio/nexus/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 0de0e80..57ac474 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -1049,7 +1049,7 @@ def _write_nexus_groups(dictionary, group, skip_keys=None, **kwds):
             else:
                 data = _parse_to_file(value)
                 overwrite_dataset(group, data, key, chunks=None, **kwds)
-        elif isinstance(value, (int, float, str, bytes)):
+        elif isinstance(value, (int, float, complex, str, bytes, np.number, np.bool_)):
             group.create_dataset(key, data=_parse_to_file(value))
         else:
             if value is not None and key not in group:
-- 
2.43.0


From 44cc5b3f540c657ee28b5c6cc70f4cbfd49d5840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 034/143] fix: empty units are empty in EMD NCEM files

---
 rsciio/emd/_emd_ncem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/emd/_emd_ncem.py b/rsciio/emd/_emd_ncem.py
index dc548a5..aa5cd92 100644
--- a/rsciio/emd/_emd_ncem.py
+++ b/rsciio/emd/_emd_ncem.py
@@ -533,7 +533,7 @@ class EMD_NCEM:
                 name = ""
             dim.attrs["name"] = name
             units = axis["units"]
-            if units is None:
+            if not units:
                 units = ""
             else:
                 units = "[{}]".format("_".join(list(units)))
-- 
2.43.0


From f3bcfae7f479ee14957772046e8f8d706052b6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 035/143] fix: NeXus files return the whole General metadata,
 not the title only

---
 rsciio/nexus/_api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 57ac474..0f628ca 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -615,7 +615,10 @@ def file_reader(
                                     oma["original_metadata"][k]["axes"] = hyper_ax
                         if "hyperspy_metadata" in oma:
                             hyper_metadata = oma["hyperspy_metadata"]
-                            hyper_metadata.update(dictionary["metadata"])
+                            # the title is the name of the NXdata group
+                            hyper_metadata.setdefault("General", {}).update(
+                                dictionary["metadata"]["General"]
+                            )
                             dictionary["metadata"] = hyper_metadata
         else:
             dictionary["original_metadata"] = {}
-- 
2.43.0


From e48ed35b788ec435da11db44116bcdfda98aa2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 036/143] fix: units and scale of each axis in tiff files
 written by rosettasciio are not replaced by those of the ImageJ tags

---
 rsciio/tiff/_api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index 97eeba4..e7a877b 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -913,12 +913,13 @@ def _parse_scale_unit(
     else:
         scales, offsets, units = _axes_defaults()
         # Axes descriptors can be additionally parsed from digital micrograph or imagej-style files
+        if _is_imagej(tiff):
+            scales, offsets, units = _add_axes_imagej(tiff, op, scales, offsets, units)
+        # imagej has one unit for all axes and a limited precision
         if _is_digital_micrograph(op):
             scales, offsets, units = _add_axes_digital_micrograph(
                 op, scales, offsets, units
             )
-        if _is_imagej(tiff):
-            scales, offsets, units = _add_axes_imagej(tiff, op, scales, offsets, units)
 
         scales, offsets, units = _order_axes_by_name(names, scales, offsets, units)
 
-- 
2.43.0


From 0f33ffe9a8236e8a4a0f2c18594ded90e7de9318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 037/143] fix: the red channel of images with equal green and
 blue channels is compared before reading them as grey

---
 rsciio/image/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index 303160c..bbd08a1 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -272,7 +272,7 @@ def _read_data(filename, **kwds):
     if len(dc.shape) > 2:
         # It may be a grayscale image that was saved in the RGB or RGBA
         # format
-        if (dc[:, :, 1] == dc[:, :, 2]).all() and (dc[:, :, 1] == dc[:, :, 2]).all():
+        if (dc[:, :, 0] == dc[:, :, 1]).all() and (dc[:, :, 1] == dc[:, :, 2]).all():
             dc = dc[:, :, 0]
         else:
             # HyperSpy uses struct arrays to store RGB data
-- 
2.43.0


From 9e078e173fdcc3e517172e4c48f6cb8a1e3538bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 038/143] fix: images can be read lazily

---
 rsciio/image/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index bbd08a1..ced529c 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -240,8 +240,9 @@ def file_reader(filename, lazy=False, **kwds):
         from dask import delayed
         from dask.array import from_delayed
 
+        dc = _read_data(filename, **kwds)
         val = delayed(_read_data, pure=True)(filename, **kwds)
-        dc = from_delayed(val, shape=val.shape, dtype=val.dtype)
+        dc = from_delayed(val, shape=dc.shape, dtype=dc.dtype)
     else:
         dc = _read_data(filename, **kwds)
 
-- 
2.43.0


From 36e31935b1a51316a0efb8fa4f99f7a3ad11d1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 039/143] fix: images with a width or height of 1 can be read

---
 rsciio/image/_api.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index ced529c..a97e760 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -269,7 +269,12 @@ file_reader.__doc__ %= (FILENAME_DOC, LAZY_DOC, RETURNS_DOC)
 
 
 def _read_data(filename, **kwds):
-    dc = np.squeeze(iio.imread(filename))
+    dc = iio.imread(filename)
+    # remove the dimensions of length 1 but those of the image
+    while dc.ndim > 2 and dc.shape[-1] == 1:
+        dc = dc[..., 0]
+    while dc.ndim > 2 and dc.shape[0] == 1 and (dc.ndim > 3 or dc.shape[-1] > 4):
+        dc = dc[0]
     if len(dc.shape) > 2:
         # It may be a grayscale image that was saved in the RGB or RGBA
         # format
-- 
2.43.0


From e9ef7606a3862b5c6078c8f16ed9273f31c258c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 040/143] fix: transparency of grey images is not dropped

---
 rsciio/image/_api.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rsciio/image/_api.py b/rsciio/image/_api.py
index a97e760..534f17e 100644
--- a/rsciio/image/_api.py
+++ b/rsciio/image/_api.py
@@ -278,7 +278,11 @@ def _read_data(filename, **kwds):
     if len(dc.shape) > 2:
         # It may be a grayscale image that was saved in the RGB or RGBA
         # format
-        if (dc[:, :, 0] == dc[:, :, 1]).all() and (dc[:, :, 1] == dc[:, :, 2]).all():
+        if (
+            (dc[:, :, 0] == dc[:, :, 1]).all()
+            and (dc[:, :, 1] == dc[:, :, 2]).all()
+            and (dc[:, :, 3:] == np.iinfo(dc.dtype).max).all()
+        ):
             dc = dc[:, :, 0]
         else:
             # HyperSpy uses struct arrays to store RGB data
-- 
2.43.0


From 66ac5ad079d9c763be5e70e2c5a7dfd748908a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 041/143] fix: writing an MSA file changes neither the signal
 nor later calls

---
 rsciio/msa/_api.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 5be67ff..b1dcda9 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -420,7 +420,7 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
     FORMAT = "EMSA/MAS Spectral Data File"
     md = DTBox(signal["metadata"], box_dots=True)
     if signal["original_metadata"].get("FORMAT", None) == FORMAT:
-        loc_kwds = signal["original_metadata"]
+        loc_kwds = dict(signal["original_metadata"])
         if format is not None:
             loc_kwds["DATATYPE"] = format
         else:
@@ -507,11 +507,12 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
             loc_kwds[key] = value
 
     for key, dic in keywords.items():
-        if dic["mapped_to"] is not None:
+        mapped_to = dic["mapped_to"]
+        if mapped_to is not None:
             if "SEM" in md.Signal.signal_type:
-                dic["mapped_to"] = dic["mapped_to"].replace("TEM", "SEM")
-            if dic["mapped_to"] in md:
-                loc_kwds[key] = eval("md.%s" % dic["mapped_to"])
+                mapped_to = mapped_to.replace("TEM", "SEM")
+            if mapped_to in md:
+                loc_kwds[key] = md[mapped_to]
 
     with open(filename, "w", encoding=encoding, errors="ignore") as f:
         # Remove the following keys from loc_kwds if they are in
-- 
2.43.0


From b1f6aea1f914bad4d416629aa709d557043c8730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 042/143] fix: the date and time of the metadata are written to
 MSA files

---
 rsciio/msa/_api.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index b1dcda9..1e917c1 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -429,15 +429,16 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
     else:
         if format is None:
             format = "Y"
-        if "General.date" in md:
-            date = dt.strptime(md.General.date, "%Y-%m-%d")
-            date_str = date.strftime("%d-%m-%Y")
-            day, month, year = date_str.split("-")
-            month = US_MONTHS_D2A[month]
-            loc_kwds["DATE"] = "-".join((day, month, year))
-        if "General.item" in md:
-            time = dt.strptime(md.General.time, "%H:%M:%S")
-            loc_kwds["TIME"] = time.strftime("%H:%M")
+    if "General.date" in md:
+        date = dt.strptime(md.General.date, "%Y-%m-%d")
+        date_str = date.strftime("%d-%m-%Y")
+        day, month, year = date_str.split("-")
+        month = US_MONTHS_D2A[month]
+        loc_kwds["DATE"] = "-".join((day, month, year))
+    if "General.time" in md:
+        time = dt.fromisoformat(f"1970-01-01T{md.General.time}")
+        # The standard does not include seconds, but some files have them
+        loc_kwds["TIME"] = time.strftime("%H:%M:%S" if time.second else "%H:%M")
     if md.Signal.signal_type in ["EDS_SEM", "EDS_TEM"]:
         loc_kwds["SIGNALTYPE"] = "EDS"
     elif md.Signal.signal_type in ["EELS"]:
-- 
2.43.0


From 2a42ada8e14ad512bf8861602caf0ad625064bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 043/143] fix: counts are written to MSA files with all their
 digits

---
 rsciio/msa/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 1e917c1..d593139 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -544,11 +544,11 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
                 axis_dict["size"]
             )
             for x, y in zip(axis, signal["data"]):
-                f.write("%g%s%g" % (x, separator, y))
+                f.write("%s%s%s" % (x, separator, y))
                 f.write("\u000d\u000a")
         elif format == "Y":
             for y in signal["data"]:
-                f.write("%f%s" % (y, separator))
+                f.write("%s%s" % (y, separator))
                 f.write("\u000d\u000a")
         else:
             raise ValueError("format must be one of: None, 'XY' or 'Y'")
-- 
2.43.0


From 67c145e1f97544c0e03588932b09b5df7e16ba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 044/143] fix: MSA values containing ': ', keywords with
 several dashes and blank lines can be read

---
 rsciio/msa/_api.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index d593139..bf8b65b 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -186,9 +186,10 @@ def parse_msa_string(string, filename=None):
     data_section = False
     for line in string:
         if data_section is False:
-            if line[0] == "#":
+            if line.startswith("#"):
                 try:
-                    key, value = line.split(": ")
+                    # The value can contain ": " as well
+                    key, value = line.split(": ", 1)
                     value = value.rstrip()
                 except ValueError:
                     key = line
@@ -205,7 +206,7 @@ def parse_msa_string(string, filename=None):
                     data_section = True
         else:
             # Read the data
-            if line[0] != "#" and line.strip():
+            if not line.startswith("#") and line.strip():
                 line_ = line.replace(",", " ").strip().split()
                 if parameters["DATATYPE"] == "XY":
                     y.append(float(line_[1]))
@@ -226,7 +227,7 @@ def parse_msa_string(string, filename=None):
         # Some parameters names can contain the units information
         # e.g. #AZIMANGLE-dg: 90.
         if "-" in parameter:
-            clean_par, units = parameter.split("-")
+            clean_par, units = parameter.split("-", 1)
             clean_par, units = clean_par.strip(), units.strip()
         else:
             clean_par, units = parameter, None
-- 
2.43.0


From 4ad56615b0435f7d6d182f152c601e9cb58ee8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:03 +0000
Subject: [PATCH 045/143] fix: spaces at the line breaks of long MSA titles are
 kept

---
 rsciio/msa/_api.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index bf8b65b..f329a97 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -532,8 +532,15 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
                 and len(value) > 0
             ):
                 # Split the value into multiple lines if it is too long, and write each line with the same keyword
-                for i in range(0, len(value), 64):
-                    f.write("#%-12s: %s\u000d\u000a" % (keyword, value[i : i + 64]))
+                value = value.rstrip()
+                start = 0
+                while start < len(value):
+                    end = min(start + 64, len(value))
+                    # Trailing spaces of a line are not read, start the next line with them
+                    while end > start + 1 and value[end - 1].isspace():
+                        end -= 1
+                    f.write("#%-12s: %s\u000d\u000a" % (keyword, value[start:end]))
+                    start = end
             else:
                 f.write("#%-12s: %s\u000d\u000a" % (keyword, value))
 
-- 
2.43.0


From 333514fc4764b920b9d281d309208a6a106cc21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:16 +0000
Subject: [PATCH 046/143] fix: instrument metadata of EDS_SEM spectra is read
 from MSA files as it was written

---
 rsciio/msa/_api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index f329a97..075456e 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -337,6 +337,10 @@ def parse_msa_string(string, filename=None):
                 signal_type += "_TEM"
             else:
                 signal_type += "_SEM"
+                if mapped.has_item("Acquisition_instrument.TEM"):
+                    # Same mapping as in the file writer
+                    instrument = mapped["Acquisition_instrument"]
+                    instrument["SEM"] = instrument.pop("TEM")
 
     mapped.set_item("Signal.signal_type", signal_type)
     if "YUNITS" in parameters.keys():
-- 
2.43.0


From 0e4300f7d85a31ee88b3ff66e0d5256775566064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:13 +0000
Subject: [PATCH 047/143] fix: signals can be added to an HSPY file with
 mode='a'

---
 rsciio/hspy/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/hspy/_api.py b/rsciio/hspy/_api.py
index cafaf5e..c31f266 100644
--- a/rsciio/hspy/_api.py
+++ b/rsciio/hspy/_api.py
@@ -277,7 +277,7 @@ def file_writer(
     if f is None:
         # with "write_dataset=False", we need mode='a', otherwise the dataset
         # will be flushed with using 'w' mode
-        mode = kwds.get("mode", "w" if write_dataset else "a")
+        mode = kwds.pop("mode", "w" if write_dataset else "a")
         if mode != "a" and not write_dataset:
             raise ValueError("`mode='a'` is required to use `write_dataset=False`.")
         if mode in ("w", "w-", "x"):
-- 
2.43.0


From f9c3834512cf10ebef4c3fbf00a7d624b0ced224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:35 +0000
Subject: [PATCH 048/143] fix: ragged data replace and are replaced by other
 data in HSPY files

---
 rsciio/_hierarchical.py |  3 +++
 rsciio/hspy/_api.py     | 10 +++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index 0b6bdc1..43dc237 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -763,6 +763,9 @@ class HierarchicalWriter:
             data = data.astype(np.dtype("S"))
 
         if data.dtype != np.dtype("O"):
+            if f"_ragged_shapes_{key}" in group:
+                # The data to overwrite is ragged
+                del group[f"_ragged_shapes_{key}"]
             got_data = False
             while not got_data:
                 try:
diff --git a/rsciio/hspy/_api.py b/rsciio/hspy/_api.py
index c31f266..0219dfc 100644
--- a/rsciio/hspy/_api.py
+++ b/rsciio/hspy/_api.py
@@ -167,8 +167,16 @@ class HyperspyWriter(HierarchicalWriter):
                 test_data = test_data.compute()
             dtype = test_data.dtype
 
+        dtype = h5py.vlen_dtype(dtype)
+        if key in group and (
+            getattr(group[key], "shape", None) != data.shape
+            or h5py.check_vlen_dtype(group[key].dtype) != h5py.check_vlen_dtype(dtype)
+        ):
+            # The existing dataset can't hold the data
+            del group[key]
+
         dset = group.require_dataset(
-            key, data.shape, dtype=h5py.vlen_dtype(dtype), chunks=chunks, **kwds
+            key, data.shape, dtype=dtype, chunks=chunks, **kwds
         )
         return dset
 
-- 
2.43.0


From 3e2192d798bff5e0d68453989550a5f989d60f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 049/143] fix: files with ragged arrays in their metadata
 (markers) can be read lazily

---
 rsciio/_hierarchical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsciio/_hierarchical.py b/rsciio/_hierarchical.py
index 43dc237..830be81 100644
--- a/rsciio/_hierarchical.py
+++ b/rsciio/_hierarchical.py
@@ -636,9 +636,11 @@ class HierarchicalReader:
                             # let "wrong" binary string fail somewhere else...
                             pass
                     elif lazy:
-                        import dask.array as da
+                        # ragged arrays are already read as dask array
+                        if not is_dask_array(data_):
+                            import dask.array as da
 
-                        data_ = da.from_array(data_, chunks=data_.chunks)
+                            data_ = da.from_array(data_, chunks=data_.chunks)
                     else:
                         data_ = np.array(data_)
                     dictionary[kn] = data_
-- 
2.43.0


From 2daa50856a7c485d671c91991dab94999e6e7237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 050/143] fix: frame_shifts can cover more frames than are read
 from JEOL pts files

---
 rsciio/jeol/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 15ceefc..f8a9dfa 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -481,7 +481,7 @@ def _read_pts(
             frame_shifts = np.zeros((max_frame, 3), dtype=np.int16)
 
         if len(frame_shifts[0]) == 2:  # fill z with 0
-            fr = np.zeros((max_frame, 3), dtype=np.int16)
+            fr = np.zeros((max(max_frame, len(frame_shifts)), 3), dtype=np.int16)
             fr[: len(frame_shifts), 0:2] = np.asarray(frame_shifts)
             frame_shifts = fr
 
-- 
2.43.0


From 1dbdc7f45500736f2135a54021efab7d6b6361e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 051/143] fix: number of frames read from JEOL pts files when
 frame_list is given

---
 rsciio/jeol/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index f8a9dfa..c557b87 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -526,7 +526,7 @@ def _read_pts(
                 {
                     "index_in_array": 0,
                     "name": "Frame",
-                    "size": sweep,
+                    "size": data.shape[0],
                     "offset": 0,
                     "scale": pixel_time * height * width / 1e3,
                     "units": "s",
@@ -799,7 +799,7 @@ def _readcube(
             EM_dtype = np.uint32
         n_frames = 1
     else:
-        n_frames = sweep + 1
+        n_frames = len(frame_list)
 
     if lazy:
         hypermap = np.zeros((n_frames), dtype=EM_dtype)  # dummy variable, not used
-- 
2.43.0


From 0157f827dcc3776957af3cfda02529b02b4d7f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 052/143] fix: axes of the S(T)EM image read from JEOL pts
 files are signal axes

---
 rsciio/jeol/_api.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index c557b87..cd615e4 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -555,9 +555,7 @@ def _read_pts(
                 },
             ]
         )
-        axes = axes_em.copy()
-        for ax in axes:
-            ax["navigate"] = True
+        axes = [{**ax, "navigate": True} for ax in axes_em]
         axes.append(
             {
                 "name": "Energy",
-- 
2.43.0


From 31399110b1b4020e6ef090dea0962d9b15bd051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 053/143] fix: S(T)EM image of JEOL pts files which are not
 square after downsampling

---
 rsciio/jeol/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index cd615e4..49c8db0 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -805,7 +805,7 @@ def _readcube(
     else:
         hypermap = np.zeros((n_frames, height, width, channel_number), dtype=SI_dtype)
 
-    em_image = np.zeros((n_frames, width, height), dtype=EM_dtype)
+    em_image = np.zeros((n_frames, height, width), dtype=EM_dtype)
 
     max_value = np.iinfo(SI_dtype).max
 
-- 
2.43.0


From 8fb8d4e3d402510ca7c6be507702c3ea39c885e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 054/143] fix: JEOL pts files are read lazily as they are
 eagerly (incomplete frames, downsampling, shifts)

---
 rsciio/jeol/_api.py | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 49c8db0..a4fbbdb 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -937,7 +937,7 @@ def _readcube(
     # for lazy loading
     from rsciio.utils._fei_stream_readers import DenseSliceCOO
 
-    length = np.sum([len(d) for d in data_list])
+    length = sum(len(d) for d in data_list)
     # length = number of data points
 
     # v : [[frame_no, y, x, energy_channel, 1], ....]
@@ -946,7 +946,7 @@ def _readcube(
     frame_count = 0
     for d in data_list:
         # d : data points in one frame
-        d = np.asarray(d)
+        d = np.asarray(d, dtype=int).reshape(-1, 3)
         # check if the pixels are in the valid data cube
         # (frame_shifts make partially integrated area at the rim)
         valid_cube = np.where(
@@ -972,15 +972,20 @@ def _readcube(
         data_shape = [frame_count, height, width, channel_number]
         ar_s = DenseSliceCOO(v[0:4], v[4], shape=data_shape)
     if sum_frames:
-        em_image = em_image[0]
+        em_image = em_image[0, :height, :width]
+    else:
+        em_image = em_image[:frame_count, :height, :width]
 
     import dask.array as da
 
+    # the automatic chunking of dask doesn't support empty arrays
+    chunks = "auto" if 0 not in data_shape else data_shape
+
     return (
-        da.from_array(ar_s, asarray=False),
+        da.from_array(ar_s, chunks=chunks, asarray=False),
         em_image,
         has_em_image,
-        sweep,
+        frame_num,
         frame_start_index,
         valid,
         max_shift,
@@ -1104,7 +1109,7 @@ def _readframe_dense(
 @jit_ifnumba(cache=True)
 def _readframe_lazy(
     rawdata,
-    _1,
+    countup,
     _2,
     em_image,
     width,
@@ -1127,7 +1132,7 @@ def _readframe_lazy(
     ----------
     rawdata : numpy.ndarray of uint16
         slice of one frame raw data from whole raw data
-    _1 : dummy parameter, not used
+    countup : 1 for summing up the SEM/TEM image, -1 to cancel selected frame
     _2 : dummy parameter, not used
     em_image : numpy.ndarray(width, height), dtype = np.uint16 or np.uint32
         numpy.ndarray to store decoded SEM/TEM image.
@@ -1163,41 +1168,45 @@ def _readframe_lazy(
     """
     data = []
     previous_x = 0
-    previous_y = 0
+    previous_y = -1
     MAX_VAL = 4096
     count = 0
     valid = False
     has_em_image = False
+    x = 0
+    y = 0
     for value in rawdata:
-        count += 1
         value_type = value & 0xF000
         value &= 0xFFF
         if value_type == 0x8000:
-            previous_x = value
             x = value // width_norm + dx
             if x >= width:
                 x = -1
+            previous_x = value
         elif value_type == 0x9000:
+            y = value // height_norm + dy
             if value < previous_y:
                 break
             previous_y = value
-            y = value // height_norm + dy
-            if y >= width:
+            if y >= height:
                 y = -1
         elif value_type == 0xA000 and x >= 0 and y >= 0:
-            em_image[y, x] += value
+            em_image[y, x] += value * countup
             has_em_image = True
         elif value_type == 0xB000:  # spectrum image
             z = value // rebin_energy + dz
-            if 0 <= z and z < channel_number:
+            if z < channel_number and x >= 0 and y >= 0 and z >= 0:
                 data.append([y, x, z])
-    if previous_y == MAX_VAL - height_norm and (
-        previous_x == MAX_VAL - width_norm or not has_em_image
+        count += 1
+    if previous_y >= MAX_VAL - height_norm and (
+        previous_x >= MAX_VAL - width_norm or not has_em_image
     ):
         # if the STEM-ADF/SEM-BF image is not included in pts file,
         # maximum value of x is usually smaller than max_x,
         # (sometimes no x-ray events occur in a last few pixels.)
         # So, only the y value is checked
+        #
+        # > is need when downsampling is specified
         valid = True
     return count, data, has_em_image, valid, previous_y // height_norm
 
-- 
2.43.0


From 8f2d474019f6a015f1de915a4928d7e223455144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:01 +0000
Subject: [PATCH 055/143] fix: packed complex DigitalMicrograph images are read
 lazily with order='F' as they are eagerly

---
 rsciio/digitalmicrograph/_api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 7df7ede..8161f24 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -631,6 +631,7 @@ class ImageObject(object):
 
         if lazy:
             shape = list(self.shape)
+            order = self.order
             if self.imdict.ImageData.DataType in (8, 23):
                 raise ValueError(
                     "Lazy loading of RGBA images is not supported. "
@@ -640,13 +641,15 @@ class ImageObject(object):
                 )
             if self.imdict.ImageData.DataType in (27, 28):  # Packed complex
                 shape[-1] = int(shape[-1] / 2 + 1)
+                # the order doesn't apply to the packed data
+                order = "C"
             data = memmap_distributed(
                 self.filename,
                 offset=self.imdict.ImageData.Data.offset,
                 shape=tuple(shape),
                 dtype=np.dtype(self.dtype),
                 chunks=chunks,
-                order=self.order,
+                order=order,
             )
         else:
             need_to_close = False
-- 
2.43.0


From e8adfe996b85efcda1c75e007f5861559dbafe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 056/143] fix: axes of delmic datasets without scale
 information have a size

---
 rsciio/delmic/_api.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rsciio/delmic/_api.py b/rsciio/delmic/_api.py
index c0da4b7..0d1b34e 100644
--- a/rsciio/delmic/_api.py
+++ b/rsciio/delmic/_api.py
@@ -286,6 +286,11 @@ def make_axes(acq: h5py.Group) -> List[Dict[str, Any]]:
         except Exception as ex:  # pragma: no cover
             _logger.warning("Failed to parse axis %s: %s", axis_name, ex)
 
+    # Axes without (usable) scale information still have a size
+    for axis_dict, size in zip(axes, image.shape):
+        if "axis" not in axis_dict:
+            axis_dict.setdefault("size", size)
+
     return axes
 
 
-- 
2.43.0


From 1df1407ea55f1f47620e3379e2948cb2cc50ea0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 057/143] fix: last column of packed complex DigitalMicrograph
 images of odd width

---
 rsciio/digitalmicrograph/_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 8161f24..57ca5a4 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -681,7 +681,9 @@ class ImageObject(object):
     def unpack_new_packed_complex(self, data):
         packed_shape = (self.shape[0], int(self.shape[1] / 2 + 1))
         data = data.reshape(packed_shape)
-        return np.hstack((data[:, ::-1], np.conjugate(data[:, 1:-1])))
+        # The last column (Nyquist frequency) is not repeated for even widths
+        stop = -1 if self.shape[1] % 2 == 0 else None
+        return np.hstack((data[:, ::-1], np.conjugate(data[:, 1:stop])))
 
     def unpack_packed_complex(self, tmpdata):
         shape = self.shape
-- 
2.43.0


From 41a45cc8493b7e2894d9c84e6b881d9d23f35275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 058/143] fix: index_in_array, scale and offset of the axes
 read from exif tags

---
 rsciio/utils/_image.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rsciio/utils/_image.py b/rsciio/utils/_image.py
index 95d88de..44fd24e 100644
--- a/rsciio/utils/_image.py
+++ b/rsciio/utils/_image.py
@@ -61,10 +61,12 @@ def _parse_axes_from_metadata(exif_tags, sizes):
             "name": name,
             "units": unit,
             "size": size,
-            "scale": fields_of_views[i] / size,
-            "offset": offsets[i],
-            "index_in_array": i,
+            # the exif tags are rational numbers
+            "scale": float(fields_of_views[i] / size),
+            "offset": float(offsets[i]),
+            "index_in_array": 1 - i,
         }
+        # the exif tags are in the order (x, y)
         for i, name, size in zip([1, 0], ["y", "x"], sizes)
     ]
 
-- 
2.43.0


From f3d29d4b5796f1ea60d0dce0ab849a9230393dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 059/143] fix: original_filename of quadstar and tofwerk files
 is a file name, not a path

---
 rsciio/quadstar/_api.py | 5 +++--
 rsciio/tofwerk/_api.py  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/rsciio/quadstar/_api.py b/rsciio/quadstar/_api.py
index db0a739..3c2396d 100644
--- a/rsciio/quadstar/_api.py
+++ b/rsciio/quadstar/_api.py
@@ -41,6 +41,7 @@ prefix followed by interleaved (mass label, intensity) float32 pairs.
 import datetime
 import logging
 import struct
+from pathlib import Path
 
 import numpy as np
 
@@ -325,7 +326,7 @@ def _read_sac_file(filename, buf, gen, base_datetime, use_uniform_signal_axis):
 
         metadata = {
             "General": {
-                "original_filename": str(filename),
+                "original_filename": Path(filename).name,
             },
             "Signal": {
                 "signal_type": "MS",
@@ -500,7 +501,7 @@ def _read_sbc_file(filename, buf, gen, base_datetime, use_uniform_signal_axis):
 
     metadata = {
         "General": {
-            "original_filename": str(filename),
+            "original_filename": Path(filename).name,
         },
         "Signal": {
             "signal_type": "MS",
diff --git a/rsciio/tofwerk/_api.py b/rsciio/tofwerk/_api.py
index 4b07463..53e63ad 100644
--- a/rsciio/tofwerk/_api.py
+++ b/rsciio/tofwerk/_api.py
@@ -485,7 +485,7 @@ def _build_metadata(
     metadata = {
         "General": {
             "title": stem,
-            "original_filename": str(filename),
+            "original_filename": Path(filename).name,
         },
         "Signal": signal_meta,
         "Acquisition_instrument": {
-- 
2.43.0


From 52c88bd342bde5ba0f83ea30bfe75e522d6314e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 060/143] fix: index_in_array of the axes of EELS spectrum
 images in Velox emd files

---
 rsciio/emd/_emd_velox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/emd/_emd_velox.py b/rsciio/emd/_emd_velox.py
index 6b9f1c1..e3b8c38 100644
--- a/rsciio/emd/_emd_velox.py
+++ b/rsciio/emd/_emd_velox.py
@@ -760,7 +760,7 @@ class FeiEMDReader(object):
                             "scale": scale_y,
                             "size": data_cube.shape[0],
                             "units": x_unit,
-                            "index_in_array": 1,
+                            "index_in_array": 0,
                             "navigate": True,
                         },
                         {
@@ -769,7 +769,7 @@ class FeiEMDReader(object):
                             "scale": scale_x,
                             "size": data_cube.shape[1],
                             "units": x_unit,
-                            "index_in_array": 0,
+                            "index_in_array": 1,
                             "navigate": True,
                         },
                     ]
-- 
2.43.0


From 76178262914c59e0378764237e9a1b3f999b4fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 061/143] fix: scale of the time axis of tvips files whose
 first frames have the same time stamp

---
 rsciio/tvips/_api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index ab368c0..e715a4d 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -427,7 +427,10 @@ def file_reader(
         units = ["s", DPU, DPU]
         names = ["time", "dy", "dx"]
         times = np.concatenate([i["timestamp"] + i["ms"] / 1000 for i in all_metadata])
-        timescale = 1 if times.shape[0] <= 1 else times[1] - times[0]
+        timescale = times[1] - times[0] if times.shape[0] > 1 else 1
+        if timescale == 0:
+            # no usable time stamps
+            timescale = 1
         scales = [timescale, SDP, SDP]
         offsets = [times[0], offsety, offsetx]
         # Create the axis objects for each axis
-- 
2.43.0


From a217c8fd1528a77131fe986fc798fa78a959d08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 062/143] fix: writing blockfiles does not change the axes of
 the signal which is written

---
 rsciio/blockfile/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index 9908e41..2a42025 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -124,7 +124,7 @@ def get_header_from_signal(signal, endianness="<"):
         note = ""
     # The navigation and signal units are 'nm' and 'cm', respectively, so we
     # convert the units accordingly before saving the signal
-    axes = signal["axes"]
+    axes = [axis.copy() for axis in signal["axes"]]
     sig_axes = [axis for axis in axes if not axis["navigate"]]
     nav_axes = [axis for axis in axes if axis["navigate"]]
     for axis in sig_axes:
-- 
2.43.0


From d2539be570e196d7137356a86112a396945def2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 063/143] fix: lazy signals are computed when they are written
 to msa files

---
 rsciio/msa/_api.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsciio/msa/_api.py b/rsciio/msa/_api.py
index 075456e..8a16611 100644
--- a/rsciio/msa/_api.py
+++ b/rsciio/msa/_api.py
@@ -550,16 +550,18 @@ def file_writer(filename, signal, format="Y", separator=", ", encoding="latin-1"
 
         f.write("#%-12s: Spectral Data Starts Here\u000d\u000a" % "SPECTRUM")
 
+        # compute lazy data once
+        data = np.asarray(signal["data"])
         if format == "XY":
             axis_dict = signal["axes"][0]
             axis = axis_dict["offset"] + axis_dict["scale"] * np.arange(
                 axis_dict["size"]
             )
-            for x, y in zip(axis, signal["data"]):
+            for x, y in zip(axis, data):
                 f.write("%s%s%s" % (x, separator, y))
                 f.write("\u000d\u000a")
         elif format == "Y":
-            for y in signal["data"]:
+            for y in data:
                 f.write("%s%s" % (y, separator))
                 f.write("\u000d\u000a")
         else:
-- 
2.43.0


From 698a2a27ad1d9e1de78659524676b608e8461514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 064/143] fix: pantarhei reads files with the extension PRZ

---
 rsciio/pantarhei/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/pantarhei/_api.py b/rsciio/pantarhei/_api.py
index a20f7a7..dfb813d 100644
--- a/rsciio/pantarhei/_api.py
+++ b/rsciio/pantarhei/_api.py
@@ -77,7 +77,7 @@ def file_reader(
 
     %s
     """
-    if Path(filename).suffix != ".prz":
+    if Path(filename).suffix.lower() != ".prz":
         raise ValueError("Only prz files are supported")
 
     # Load metadata
-- 
2.43.0


From 14788e44b0780d30fc5ed6d1d924daeacbb73923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 065/143] fix: numpy files are written with the name which is
 given when the extension is NPY

---
 rsciio/numpy/_api.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rsciio/numpy/_api.py b/rsciio/numpy/_api.py
index 0ba059e..b1163f7 100644
--- a/rsciio/numpy/_api.py
+++ b/rsciio/numpy/_api.py
@@ -17,6 +17,8 @@
 # along with RosettaSciIO. If not, see <https://www.gnu.org/licenses/#GPL>.
 
 
+from pathlib import Path
+
 import numpy as np
 
 from rsciio._docstrings import (
@@ -76,7 +78,12 @@ def file_writer(filename, signal, **kwargs):
     if is_dask_array(array):
         raise TypeError("Lazy signal are not supported for writing to npy files.")
 
-    np.save(filename, array, **kwargs)
+    if Path(filename).suffix.lower() == ".npy":
+        # use open file to avoid numpy adding a npy extension to "NPY"
+        with open(filename, "wb") as f:
+            np.save(f, array, **kwargs)
+    else:
+        np.save(filename, array, **kwargs)
 
 
 file_writer.__doc__ %= (
-- 
2.43.0


From 6a5e01e8d9a59e123bc22f44499235b52214cb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 066/143] fix: writing images (without navigation dimension) to
 mrcz files

---
 rsciio/mrcz/_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/mrcz/_api.py b/rsciio/mrcz/_api.py
index b89235d..83125b8 100644
--- a/rsciio/mrcz/_api.py
+++ b/rsciio/mrcz/_api.py
@@ -222,7 +222,9 @@ def file_writer(
     # Get pixelsize and pixelunits from the axes
     pixelunits = signal["axes"][-1]["units"]
     pixelunits = _UNITS_TO_MRCZ.get(pixelunits, pixelunits)
-    pixelsize = [signal["axes"][I_]["scale"] for I_ in _WRITE_ORDER]
+    pixelsize = [axis["scale"] for axis in signal["axes"]]
+    # mrcz expects three dimensions and stores images as a stack of one image
+    pixelsize = [1.0] * (len(_WRITE_ORDER) - len(pixelsize)) + pixelsize
 
     # Strip out voltage from meta-data
     voltage = md.get("Acquisition_instrument.TEM.beam_energy")
-- 
2.43.0


From 84e964ab0b052996b8697932e194096a0c5626c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 067/143] fix: endless loop when reading empty dens files

---
 rsciio/dens/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/dens/_api.py b/rsciio/dens/_api.py
index fed247d..87f16ed 100644
--- a/rsciio/dens/_api.py
+++ b/rsciio/dens/_api.py
@@ -59,7 +59,8 @@ def file_reader(filename, lazy=False):
     with open(filename, "rt") as f:
         # Strip leading, empty lines
         line = str(f.readline())
-        while line.strip() == "" and not f.closed:
+        # an empty string is the end of the file
+        while line != "" and line.strip() == "":
             line = str(f.readline())
         try:
             date, version = line.split("\t")
-- 
2.43.0


From a10af7eb4590d908ad34e5deffed2bcf8c8813a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 068/143] fix: truncated quadstar SBC files are refused instead
 of being read from the wrong place

---
 rsciio/quadstar/_api.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rsciio/quadstar/_api.py b/rsciio/quadstar/_api.py
index 3c2396d..4837fc3 100644
--- a/rsciio/quadstar/_api.py
+++ b/rsciio/quadstar/_api.py
@@ -435,7 +435,12 @@ def _read_sbc_file(filename, buf, gen, base_datetime, use_uniform_signal_axis):
     for i in range(num_cycles):
         offset = i * stride + prefix_size
         cycle_buf = data_buf[offset : offset + mass_data_size]
-        intensities[i, :] = np.frombuffer(cycle_buf, dtype="<f4")[1::2]
+        cycle = np.frombuffer(cycle_buf, dtype="<f4")
+        # The data are located from the end of the file: the masses tell whether
+        # this is right, which is not the case for truncated files
+        if not (np.diff(cycle[0::2]) > 0).all() or (cycle[0::2] != masses).any():
+            raise ValueError("Invalid SBC file: inconsistent masses, truncated file?")
+        intensities[i, :] = cycle[1::2]
 
     # Extract per-cycle time offsets from prefix (first 4 bytes = seconds).
     timestamps = np.empty(num_cycles, dtype=np.float64)
-- 
2.43.0


From b27fd394d6cc0defd033d2ce27ea4f678755845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 069/143] fix: truncated renishaw files are refused instead of
 being read with fewer channels

---
 rsciio/renishaw/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/renishaw/_api.py b/rsciio/renishaw/_api.py
index 79bf4ce..f3de386 100644
--- a/rsciio/renishaw/_api.py
+++ b/rsciio/renishaw/_api.py
@@ -491,6 +491,8 @@ class WDFReader(object):
                 f"Supported types: {list(TypeNames.keys())}"
             )
         data = np.fromfile(self._file_obj, dtype=TypeNames[type], count=size)
+        if data.size < size:
+            raise EOFError("Unexpected end of file, the file is truncated.")
         ## convert unsigned ints to ints
         ## because int + uint = float -> problems with indexing
         if type in ["uint8", "uint16", "uint32", "uint64"] and convert:
-- 
2.43.0


From f140f53e07c00892096fcab771c47d941d707ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 070/143] fix: crash of the compiled decoder of bruker
 hypermaps when the file is truncated

---
 rsciio/bruker/_api.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index 0b14870..0589ed0 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -61,6 +61,14 @@ Falling back to slow python only backend."""
 x2d = XmlToDict(dub_attr_pre_str="XmlClass", tags_to_flatten="ClassInstance")
 
 
+def _read_exactly(fn, length):
+    """Read from an open file, the decoders of the hypermap rely on complete chunks."""
+    data = fn.read(length)
+    if len(data) != length:
+        raise EOFError("Unexpected end of file, the file is truncated.")
+    return data
+
+
 class Container:
     pass
 
@@ -199,13 +207,13 @@ class SFSTreeItem:
         with open(self.sfs.filename, "rb") as fn:
             for idx in range(first, last - 1):
                 fn.seek(self.pointers[idx])
-                yield fn.read(self.sfs.usable_chunk)
+                yield _read_exactly(fn, self.sfs.usable_chunk)
             fn.seek(self.pointers[last - 1])
             last_stuff = self.size % self.sfs.usable_chunk
             if last_stuff != 0:
-                yield fn.read(last_stuff)
+                yield _read_exactly(fn, last_stuff)
             else:
-                yield fn.read(self.sfs.usable_chunk)
+                yield _read_exactly(fn, self.sfs.usable_chunk)
 
     def setup_compression_metadata(self):
         """parse and setup the number of compression chunks
-- 
2.43.0


From 539d2fefee744f04517eb37722047296cb18a7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 071/143] fix: truncated ser files are refused instead of being
 filled with uninitialised memory

---
 rsciio/tia/_api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index b516bb2..1f3747e 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -353,9 +353,12 @@ def load_ser_file(filename):
             dtype=np.dtype(data_dtype_list + tag_dtype_list),
         )
         for i, offset in enumerate(data_offset_array):
-            data[i] = np.fromfile(
+            element = np.fromfile(
                 f, dtype=np.dtype(data_dtype_list + tag_dtype_list), count=1
             )
+            if element.size == 0:
+                raise EOFError("Unexpected end of file, the ser file is truncated.")
+            data[i] = element[0]
             f.seek(offset)
         _logger.info("Data info:")
         log_struct_array_values(data[0])
-- 
2.43.0


From f2b918458e21c80ea7394cd7eb39351d185433fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 072/143] fix: original_filename of EELS spectrum images in
 Velox emd files is a file name, not a path

---
 rsciio/emd/_emd_velox.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/emd/_emd_velox.py b/rsciio/emd/_emd_velox.py
index e3b8c38..e16d536 100644
--- a/rsciio/emd/_emd_velox.py
+++ b/rsciio/emd/_emd_velox.py
@@ -811,7 +811,10 @@ class FeiEMDReader(object):
 
             # tidy up dictionary
             md = {
-                "General": {"title": "EELS", "original_filename": self.filename},
+                "General": {
+                    "title": "EELS",
+                    "original_filename": os.path.split(self.filename)[1],
+                },
                 "Signal": {"signal_type": "EELS"},
             }
             eels_dict["data"] = data_cube
-- 
2.43.0


From d4e1f64a6a252f42caa34e4f5734ba3bd73878de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 073/143] fix: ser files whose header or offsets are truncated
 are refused

---
 rsciio/tia/_api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index 1f3747e..6af2b83 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -318,6 +318,8 @@ def load_ser_file(filename):
     _logger.info("Opening the file: %s", filename)
     with open(filename, "rb") as f:
         header = np.fromfile(f, dtype=np.dtype(get_header_dtype_list(f)), count=1)
+        if header.size == 0:
+            raise EOFError("Unexpected end of file, the ser file is truncated.")
         _logger.info("Header info:")
         log_struct_array_values(header[0])
 
@@ -343,6 +345,8 @@ def load_ser_file(filename):
             data_offset_array = np.fromfile(
                 f, dtype="<u8", count=header["ValidNumberElements"][0]
             )
+        if data_offset_array.size < header["ValidNumberElements"][0]:
+            raise EOFError("Unexpected end of file, the ser file is truncated.")
         data_dtype_list, shape = get_data_dtype_list(
             f, data_offset, guess_record_by(header["DataTypeID"])
         )
-- 
2.43.0


From 2d033f70d0202989913d48276790d0f4b52844aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:33 +0000
Subject: [PATCH 074/143] fix: scale of the width axis of bruker hypermaps
 whose pixels are not square

---
 rsciio/bruker/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index 0589ed0..db15cc6 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -1478,7 +1478,7 @@ For more information, check the 'Installing RosettaSciIO' section in the documen
                         "name": "width",
                         "size": hypermap.shape[1],
                         "offset": 0,
-                        "scale": obj_bcf.header.y_res * downsample,
+                        "scale": obj_bcf.header.x_res * downsample,
                         "units": obj_bcf.header.units,
                         "navigate": True,
                     },
-- 
2.43.0


From 0d09be4cc57e28bb73cf37ebefbee70ed623edda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 075/143] fix: 32-bit packed counts of bruker hypermaps
 (compiled decoder) are read at the right offsets

---
 rsciio/bruker/unbcf_fast.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/bruker/unbcf_fast.pyx b/rsciio/bruker/unbcf_fast.pyx
index 6292b36..b320914 100644
--- a/rsciio/bruker/unbcf_fast.pyx
+++ b/rsciio/bruker/unbcf_fast.pyx
@@ -257,7 +257,7 @@ cdef void unpack_instructed(channel_t[:, :, :] dest, int x, int y,
             else:
                 for i in range(head.channels):
                     if (i+channel) < cutoff:
-                        val32 = read_32(&src[offset + i*2])
+                        val32 = read_32(&src[offset + i*4])
                         dest[y, x, i+channel] += <channel_t>(val32 + gain)
                 length = <int>(head.channels * head.size // 2)
             offset += length
-- 
2.43.0


From 4bae0b63c3922108df4f449d7fa894f0e063a48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 076/143] fix: number of chunks of the file tree of bruker SFS
 containers

---
 rsciio/bruker/_api.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index db15cc6..7c79574 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -340,9 +340,9 @@ class SFS_reader:
         """
         with open(self.filename, "rb") as fn:
             # check if file tree do not exceed one chunk:
-            n_file_tree_chunks = ceil(
-                (self.n_tree_items * 0x200) / (self.chunksize - 0x20)
-            )
+            # (items do not span over chunks)
+            tree_items_in_chunk = (self.chunksize - 0x20) // 0x200
+            n_file_tree_chunks = ceil(self.n_tree_items / tree_items_in_chunk)
             if n_file_tree_chunks == 1:
                 # file tree do not exceed one chunk in bcf:
                 fn.seek(self.chunksize * self.tree_address + 0x138)
@@ -350,7 +350,6 @@ class SFS_reader:
             else:
                 temp_str = io.BytesIO()
                 tree_address = self.tree_address
-                tree_items_in_chunk = (self.chunksize - 0x20) // 0x200
                 for i in range(n_file_tree_chunks):
                     # jump to tree/list address:
                     fn.seek(self.chunksize * tree_address + 0x118)
-- 
2.43.0


From 47d2490a6f34ab42d4c38d8597032c394623c213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 077/143] fix: frame time of downsampled JEOL pts data

---
 rsciio/jeol/_api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index a4fbbdb..ff281f8 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -387,6 +387,9 @@ def _read_pts(
         width_norm = int(4096 / width * downsample_width)
         height_norm = int(4096 / height * downsample_height)
 
+        # number of pixels scanned per frame
+        frame_pixels = width * height
+
         width = int(width / downsample_width)
         height = int(height / downsample_height)
 
@@ -528,7 +531,7 @@ def _read_pts(
                     "name": "Frame",
                     "size": data.shape[0],
                     "offset": 0,
-                    "scale": pixel_time * height * width / 1e3,
+                    "scale": pixel_time * frame_pixels / 1e3,
                     "units": "s",
                     "navigate": True,
                 }
-- 
2.43.0


From edd6055a97eecd26944cf57a2285f02e522ef606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 078/143] fix: offsets of the axes of JEOL pts data read with
 frame_shifts

---
 rsciio/jeol/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index ff281f8..6006890 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -543,7 +543,7 @@ def _read_pts(
                 {
                     "name": "y",
                     "size": height,
-                    "offset": origin[1],
+                    "offset": origin[0] * yscale,
                     "scale": yscale,
                     "units": units,
                     "navigate": False,
@@ -551,7 +551,7 @@ def _read_pts(
                 {
                     "name": "x",
                     "size": width,
-                    "offset": origin[0],
+                    "offset": origin[1] * xscale,
                     "scale": xscale,
                     "units": units,
                     "navigate": False,
-- 
2.43.0


From 49df2f8072c78eb50a1bba3d21cb0b2cbd26b32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 079/143] fix: the array of frame_shifts passed to the JEOL
 reader is not modified

---
 rsciio/jeol/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 6006890..cf6e206 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -812,7 +812,8 @@ def _readcube(
 
     max_value = np.iinfo(SI_dtype).max
 
-    frame_shifts = np.asarray(frame_shifts)
+    # copy, because it is changed below
+    frame_shifts = np.array(frame_shifts)
     frame_list = np.asarray(frame_list)
     max_shift = frame_shifts[frame_list].max(axis=0)
     min_shift = frame_shifts[frame_list].min(axis=0)
-- 
2.43.0


From 5980e0d8c95f02dc476ac8b5da30e0dbbd1b7861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 080/143] fix: JEOL pts frames interrupted at the beginning of
 the last line are incomplete

---
 rsciio/jeol/_api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index cf6e206..23aae3d 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -1065,6 +1065,7 @@ def _readframe_dense(
     valid = False
     MAX_VAL = 4096
     previous_y = -1
+    previous_x = -1
     x = 0
     y = 0
     for value in rawdata:
@@ -1080,6 +1081,7 @@ def _readframe_dense(
             if value < previous_y:
                 break
             previous_y = value
+            previous_x = -1
             if y >= height:
                 y = -1
         elif value_type == 0xA000 and x >= 0 and y >= 0:
@@ -1192,6 +1194,7 @@ def _readframe_lazy(
             if value < previous_y:
                 break
             previous_y = value
+            previous_x = -1
             if y >= height:
                 y = -1
         elif value_type == 0xA000 and x >= 0 and y >= 0:
-- 
2.43.0


From fd2b5b238294aa117d48feacb530dc04d74f4dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 081/143] fix: incomplete frames of downsampled JEOL pts data
 are recognised

---
 rsciio/jeol/_api.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index 23aae3d..a64e6ef 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -386,6 +386,9 @@ def _read_pts(
         # on the downsampling and the size of the navigation space
         width_norm = int(4096 / width * downsample_width)
         height_norm = int(4096 / height * downsample_height)
+        # distance between pixels in the stream
+        width_step = int(4096 / width)
+        height_step = int(4096 / height)
 
         # number of pixels scanned per frame
         frame_pixels = width * height
@@ -506,6 +509,8 @@ def _read_pts(
             channel_number,
             width_norm,
             height_norm,
+            width_step,
+            height_step,
             rebin_energy,
             SI_dtype,
             sweep,
@@ -732,6 +737,8 @@ def _readcube(
     channel_number,
     width_norm,
     height_norm,
+    width_step,
+    height_step,
     rebin_energy,
     SI_dtype,
     sweep,
@@ -759,6 +766,8 @@ def _readcube(
             The number of channels.
         width_norm, height_norm : int
             Rebin factor of the navigation dimension.
+        width_step, height_step : int
+            Distance between pixels in the stream.
         rebin_energy : int
             Rebin factor of the energy dimension.
         sweep : int
@@ -869,6 +878,8 @@ def _readcube(
             channel_number,
             width_norm,
             height_norm,
+            width_step,
+            height_step,
             rebin_energy,
             fs[1],
             fs[0],
@@ -898,6 +909,8 @@ def _readcube(
                     channel_number,
                     width_norm,
                     height_norm,
+                    width_step,
+                    height_step,
                     rebin_energy,
                     fs[1],
                     fs[0],
@@ -1008,6 +1021,8 @@ def _readframe_dense(
     channel_number,
     width_norm,
     height_norm,
+    width_step,
+    height_step,
     rebin_energy,
     dx,
     dy,
@@ -1037,6 +1052,8 @@ def _readframe_dense(
         scanning step
     height_norm : int
         scanning step
+    width_step, height_step : int
+        scanning step without downsampling
     rebin_energy : int
         Binning parameter along energy axis. Must be 2^n.
     dx, dy, dz : int
@@ -1099,15 +1116,13 @@ def _readframe_dense(
                     )
         count += 1
 
-    if previous_y >= MAX_VAL - height_norm and (
-        previous_x >= MAX_VAL - width_norm or not has_em_image
+    if previous_y >= MAX_VAL - height_step and (
+        previous_x >= MAX_VAL - width_step or not has_em_image
     ):
         # if the STEM-ADF/SEM-BF image is not included in pts file,
         # maximum value of x is usually smaller than max_x,
         # (sometimes no x-ray events occur in a last few pixels.)
         # So, only the y value is checked
-        #
-        # > is need when downsampling is specified
         valid = True
     return count, 0, has_em_image, valid, previous_y // height_norm
 
@@ -1123,6 +1138,8 @@ def _readframe_lazy(
     channel_number,
     width_norm,
     height_norm,
+    width_step,
+    height_step,
     rebin_energy,
     dx,
     dy,
@@ -1150,6 +1167,8 @@ def _readframe_lazy(
         scanning step
     height_norm : int
         scanning step
+    width_step, height_step : int
+        scanning step without downsampling
     rebin_energy : int
         Binning parameter along energy axis. Must be 2^n.
     dx, dy, dz : int
@@ -1205,15 +1224,13 @@ def _readframe_lazy(
             if z < channel_number and x >= 0 and y >= 0 and z >= 0:
                 data.append([y, x, z])
         count += 1
-    if previous_y >= MAX_VAL - height_norm and (
-        previous_x >= MAX_VAL - width_norm or not has_em_image
+    if previous_y >= MAX_VAL - height_step and (
+        previous_x >= MAX_VAL - width_step or not has_em_image
     ):
         # if the STEM-ADF/SEM-BF image is not included in pts file,
         # maximum value of x is usually smaller than max_x,
         # (sometimes no x-ray events occur in a last few pixels.)
         # So, only the y value is checked
-        #
-        # > is need when downsampling is specified
         valid = True
     return count, data, has_em_image, valid, previous_y // height_norm
 
-- 
2.43.0


From e471cc5ad1396dba374984cd524de7975cf47a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 082/143] fix: JEOL pts frames listed behind an incomplete or
 absent one in frame_list are read

---
 rsciio/jeol/_api.py | 49 ++++++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index a64e6ef..d77350b 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -888,7 +888,7 @@ def _readcube(
         )
         has_em_image = has_em_image or has_em
         if length == 0:  # no data
-            break
+            continue
         if valid or not only_valid_data:
             # accept last frame
             if lazy:
@@ -897,30 +897,29 @@ def _readcube(
             target_frame_num += frame_step
         else:
             # incomplete data, not accepted
-            if sum_frames:
-                # subtract signal counts of last frame
-                _ = readframe(
-                    rawdata[p_start:],
-                    -1,
-                    hypermap[target_frame_num],
-                    em_image[target_frame_num],
-                    width,
-                    height,
-                    channel_number,
-                    width_norm,
-                    height_norm,
-                    width_step,
-                    height_step,
-                    rebin_energy,
-                    fs[1],
-                    fs[0],
-                    fs[2],
-                    max_value,
-                )
-                _logger.info(
-                    "The last frame (sweep) is incomplete because the acquisition stopped during this frame. The partially acquired frame is ignored. Use 'sum_frames=False, only_valid_data=False' to read all frames individually, including the last partially completed frame."
-                )
-            break
+            # subtract signal counts of this frame
+            _ = readframe(
+                rawdata[p_start:],
+                -1,
+                hypermap[target_frame_num],
+                em_image[target_frame_num],
+                width,
+                height,
+                channel_number,
+                width_norm,
+                height_norm,
+                width_step,
+                height_step,
+                rebin_energy,
+                fs[1],
+                fs[0],
+                fs[2],
+                max_value,
+            )
+            _logger.info(
+                "The last frame (sweep) is incomplete because the acquisition stopped during this frame. The partially acquired frame is ignored. Use 'sum_frames=False, only_valid_data=False' to read all frames individually, including the last partially completed frame."
+            )
+            continue
 
         p_start += length
         if frame_num < frame_start_index.size:
-- 
2.43.0


From b6c385f0eddcc00bc6b86ced283d7a1fc454e265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:15 +0000
Subject: [PATCH 083/143] fix: overflow of the SEM/STEM image of downsampled
 JEOL pts data and of repeated frames

---
 rsciio/jeol/_api.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rsciio/jeol/_api.py b/rsciio/jeol/_api.py
index d77350b..548708b 100644
--- a/rsciio/jeol/_api.py
+++ b/rsciio/jeol/_api.py
@@ -800,16 +800,17 @@ def _readcube(
 
     # In case of sum_frames, spectrum image and SEM/STEM image are summing up to the same frame number.
     # To avoid overflow on integration of SEM/STEM image, data type of np.uint32 is selected
-    # for 16 frames and over. (range of image intensity in each frame is 0-4095 (0-0xfff))
-    EM_dtype = np.uint16
+    # when 16 values and over are summed, over frames and over pixels if downsampling.
+    # (range of image intensity in each frame is 0-4095 (0-0xfff))
+    n_values = (width_norm // width_step) * (height_norm // height_step)
     frame_step = 1
     if sum_frames:
         frame_step = 0
-        if sweep >= 16:
-            EM_dtype = np.uint32
+        n_values *= max(sweep, len(frame_list))
         n_frames = 1
     else:
         n_frames = len(frame_list)
+    EM_dtype = np.uint32 if n_values >= 16 else np.uint16
 
     if lazy:
         hypermap = np.zeros((n_frames), dtype=EM_dtype)  # dummy variable, not used
-- 
2.43.0


From d483f4a33bb4f2e68938323628fead171d2a4318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 084/143] fix: reading quantum detector mib files from a
 pathlib.Path

---
 rsciio/quantumdetector/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index 92f9c6a..b4dd4ad 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -123,7 +123,8 @@ class MIBProperties:
         """
 
         # read the first header from the start of the file or buffer
-        if isinstance(path, str):
+        if isinstance(path, (str, Path)):
+            path = str(path)
             try:
                 with open(path, "rb") as f:
                     head = f.read(384).decode().split(",")
-- 
2.43.0


From b4026019acf0e33f98df6877222a3e274ec8df17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 085/143] fix: reading quad quantum detector mib data from a
 buffer

---
 rsciio/quantumdetector/_api.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index b4dd4ad..7e33385 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -163,8 +163,11 @@ class MIBProperties:
         # test if quad and read full quad header
         if head[2] == "00768":
             # read quad data
-            with open(self.path, "rb") as f:
-                head = f.read(768).decode().split(",")
+            if self.buffer:
+                head = path[:768].decode().split(",")
+            else:
+                with open(self.path, "rb") as f:
+                    head = f.read(768).decode().split(",")
             self.head_size = 768
             self.assembly_size = "quad"
 
-- 
2.43.0


From fe0705a39b50070fa0073ef9b106d7952e6e43d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 086/143] fix: first_frame when reading quantum detector mib
 data from a buffer

---
 rsciio/quantumdetector/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index 7e33385..870cd79 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -334,7 +334,8 @@ def load_mib_data(
             path,
             dtype=merlin_frame_dtype,
             count=mib_prop.xy,
-            offset=mib_prop.offset,
+            # take into account first_frame
+            offset=mib_prop.offset + merlin_frame_dtype.itemsize * first_frame,
         ).reshape(navigation_shape)
         headers = buffer["header"]
         data = buffer["data"]
-- 
2.43.0


From 07186e5cc08869ebcd11fa77c0550909815a2bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 087/143] fix: last_frame of interrupted quantum detector mib
 scans

---
 rsciio/quantumdetector/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index 870cd79..74595f4 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -279,7 +279,7 @@ def load_mib_data(
             if first_frame == 0 and len(navigation_shape) > 1:
                 navigation_shape = (
                     navigation_shape[0],
-                    frame_number_in_file // navigation_shape[0],
+                    number_of_frames_to_load // navigation_shape[0],
                 )[::-1]
             else:
                 navigation_shape = (number_of_frames_to_load,)
-- 
2.43.0


From cbd69952a97b80bd6c8b7a4d77f33d13a268ef71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 088/143] fix: last frame with max_index=-1 in parse_exposures
 and parse_timestamps

---
 rsciio/quantumdetector/_api.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index 74595f4..d03bc19 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -423,8 +423,8 @@ def parse_exposures(headers, max_index=10000):
     if isinstance(headers, bytes):
         headers = [headers]
 
-    if max_index > 1:
-        max_index = min(max_index, len(headers))
+    if max_index < 0:
+        max_index = len(headers)
 
     # exposure time are in ns
     return [
@@ -472,8 +472,8 @@ def parse_timestamps(headers, max_index=10000):
     if isinstance(headers, bytes):
         headers = [headers]
 
-    if max_index > 1:
-        max_index = min(max_index, len(headers))
+    if max_index < 0:
+        max_index = len(headers)
 
     return [header.decode().split(",")[-4] for header in headers[:max_index]]
 
-- 
2.43.0


From 4e365c22aad21eb5ee185421a106d0f72832f244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 089/143] fix: name of the hdr file of quantum detector mib
 files

---
 rsciio/quantumdetector/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index d03bc19..88b0b64 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -535,7 +535,7 @@ def file_reader(
     """
     mib_prop = MIBProperties()
     mib_prop.parse_file(filename)
-    hdr_filename = str(filename).replace(".mib", ".hdr")
+    hdr_filename = Path(filename).with_suffix(".hdr")
 
     original_metadata = {"mib_properties": vars(mib_prop)}
 
-- 
2.43.0


From 52990ea32b6b6610cc5caaaf0277a9668825cf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 090/143] fix: quantum detector hdr files with 0 frames per
 trigger

---
 rsciio/quantumdetector/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index 88b0b64..1919af7 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -576,7 +576,7 @@ def file_reader(
                 if len(indices) > 0 and len(indices[0]) > 0:
                     frame_per_trigger = indices[0][0] + 1
 
-        if frames_number == 0:
+        if frames_number == 0 or frame_per_trigger == 0:
             # Some hdf files have the "Frames per Trigger (Number)": 0
             # in this case, we don't reshape
             # Possibly for "continuous and indefinite" acquisition
-- 
2.43.0


From 74fe79a87fb610bfadd3d8a83799c3ba889ae12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 091/143] fix: data of big endian mrc files

---
 rsciio/mrc/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index fd91f8e..658eb67 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -208,7 +208,7 @@ def get_std_dtype_list(endianness="<"):
         ("ND2", end + "u2"),
         ("VD1", end + "u2"),
         ("VD2", end + "u2"),
-        ("TILTANGLES", (np.float32, 6)),
+        ("TILTANGLES", (end + "f4", 6)),
         ("XORIGIN", end + "f4"),
         ("YORIGIN", end + "f4"),
         ("ZORIGIN", end + "f4"),
@@ -594,7 +594,7 @@ def file_reader(
         filename,
         offset=f.tell(),
         shape=shape[::-1],
-        dtype=get_data_type(std_header["MODE"]),
+        dtype=get_data_type(std_header["MODE"]).newbyteorder(endianness),
         positions=positions,
         chunks=chunks,
     )
-- 
2.43.0


From 2e7c39a85a3b5aad253682e23c751d4dd0cea703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 092/143] fix: scales of the axes of Direct Electron mrc files

---
 rsciio/mrc/_api.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index 658eb67..c4cfec2 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -347,9 +347,9 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
     ):  # nav-shape is not None for pos files
         axes_scales = np.array(
             [
-                float(
-                    original_metadata.get("Scan - Time (seconds)", 1)
-                    + original_metadata.get("Scan - Repeat Delay (seconds)", 1)
+                (
+                    float(original_metadata.get("Scan - Time (seconds)", 1))
+                    + float(original_metadata.get("Scan - Repeat Delay (seconds)", 0))
                 ),
                 float(original_metadata.get("Specimen Pixel Size Y (nanometers)", 1)),
                 float(original_metadata.get("Specimen Pixel Size X (nanometers)", 1)),
@@ -358,7 +358,6 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
                 float(original_metadata.get("Diffraction Pixel Size X", 1)),
             ]
         )
-        axes_scales[axes_scales != -1] = 1
         axes_units = ["sec", "nm", "nm", "times", "nm^-1", "nm^-1"]
         axes_names = ["time", "y", "x", "repeats", "ky", "kx"]
         if original_metadata.get("Scan - ROI Enable", "Disable") == "Enable":
@@ -398,8 +397,8 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
             axes_scales = np.array(
                 [
                     sec_per_frame,
-                    original_metadata.get("Diffraction Pixel Size Y", 1),
-                    original_metadata.get("Diffraction Pixel Size X", 1),
+                    float(original_metadata.get("Diffraction Pixel Size Y", 1)),
+                    float(original_metadata.get("Diffraction Pixel Size X", 1)),
                 ]
             )
             axes_units = ["sec", "nm^-1", "nm^-1"]
@@ -408,8 +407,8 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
             axes_scales = np.array(
                 [
                     sec_per_frame,
-                    original_metadata.get("Specimen Pixel Size Y (nanometers)", 1),
-                    original_metadata.get("Specimen Pixel Size X (nanometers)", 1),
+                    float(original_metadata.get("Specimen Pixel Size Y (nanometers)", 1)),
+                    float(original_metadata.get("Specimen Pixel Size X (nanometers)", 1)),
                 ]
             )
             axes_units = ["sec", "nm", "nm"]
-- 
2.43.0


From 5ea496bc9a231a29b46ef6dcabc3277dfded5232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 093/143] fix: axes of mrc files with dimensions of size one

---
 rsciio/mrc/_api.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index c4cfec2..1a8374c 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -675,24 +675,30 @@ def file_reader(
                 scales.insert(0, 1)
                 offsets.insert(0, 0)
 
-        # create the axis objects for each axis
-        dim = len(data.shape)
+        # create the axis objects for each axis, singleton dimensions have been removed
+        dimensions = [i for i, s in enumerate(shape[::-1]) if s != 1]
         axes = [
             {
-                "size": data.shape[i],
-                "index_in_array": i,
-                "name": names[i + nav_axis_to_add + 3 - dim],
-                "scale": scales[i + nav_axis_to_add + 3 - dim],
-                "offset": offsets[i + nav_axis_to_add + 3 - dim],
-                "units": units[i + nav_axis_to_add + 3 - dim],
-                "navigate": navigate[i + nav_axis_to_add + 3 - dim],
+                "size": data.shape[index],
+                "index_in_array": index,
+                "name": names[i],
+                "scale": scales[i],
+                "offset": offsets[i],
+                "units": units[i],
+                "navigate": navigate[i],
             }
-            for i in range(dim)
+            for index, i in enumerate(dimensions)
         ]
     else:
-        axes = metadata_axes
-        for ax, s in zip(axes, shape[::-1]):
+        sizes = shape[::-1]
+        if len(metadata_axes) != len(sizes):
+            # singleton dimensions have been removed
+            sizes = [s for s in sizes if s != 1]
+        for ax, s in zip(metadata_axes, sizes):
             ax["size"] = s  # Update the size of the axes
+        axes = [ax for ax in metadata_axes if ax["size"] != 1]
+        for index, ax in enumerate(axes):
+            ax["index_in_array"] = index
 
     dictionary = {
         "data": data,
-- 
2.43.0


From 74a7989ea14e954b809554c184893e8fa69f89fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 094/143] fix: axes and positions of Direct Electron mrc files
 of scans along a path

---
 rsciio/mrc/_api.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index 1a8374c..51d3bc1 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -277,7 +277,7 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
     filename : str
         The filename of the metadata file.
     nav_shape : tuple
-        The shape of the navigation axes.
+        The shape of the navigation axes (x, y, time).
 
     Returns
     -------
@@ -303,12 +303,13 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
     in_stem_mode = int(original_metadata.get("Instrument Project TEMorSTEM Mode", -1))
     scanning = original_metadata.get("Scan - Enable", "Disable") == "Enable"
     raster = original_metadata.get("Scan - Type", "Raster") == "Raster"
+    repeats = 1
 
     if scanning and not raster:
         if scan_pos_file is None:
             raise ValueError("Scan position file is required for non-raster scans.")
         positions = np.loadtxt(scan_pos_file, delimiter=",", dtype=int)[:, ::-1]
-        nav_shape = (positions[:, 0].max() + 1, positions[:, 1].max() + 1)
+        nav_shape = (positions[:, 1].max() + 1, positions[:, 0].max() + 1)
         unique_pos, inverse, counts = np.unique(
             positions, axis=0, return_counts=True, return_inverse=True
         )
@@ -320,11 +321,6 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
             positions = np.hstack((positions, rep))
             for i in range(len(positions)):
                 positions[inverse == i, 2] = np.arange(len(inverse[inverse == i]))
-            nav_shape = (
-                repeats,
-                nav_shape[0],
-                nav_shape[1],
-            )  # repeat the scan positions
     else:
         positions = None
 
@@ -367,12 +363,9 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
             sizex = int(original_metadata.get("Scan - Size X", 1))
             sizey = int(original_metadata.get("Scan - Size Y", 1))
         if nav_shape is not None and len(nav_shape) == 3:
-            time = nav_shape[0]
-            sizey = nav_shape[1]
-            sizex = nav_shape[2]
+            sizex, sizey, time = nav_shape
         elif nav_shape is not None and len(nav_shape) == 2:
-            sizex = nav_shape[1]
-            sizey = nav_shape[0]
+            sizex, sizey = nav_shape
             time = 1
         elif nav_shape is not None and len(nav_shape) == 1:
             sizex = nav_shape[0]
@@ -383,8 +376,14 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
         sizekx = int(original_metadata.get("Image Size X (pixels)", -1))
         sizeky = int(original_metadata.get("Image Size Y (pixels)", -1))
         navigate = [True, True, True, True, False, False]
-        axes_shapes = [time, sizey, sizex, 1, sizeky, sizekx]
-        nav_shape = tuple([shape for shape in [time, sizex, sizey, 1] if shape != 1])
+        axes_shapes = [time, sizey, sizex, repeats, sizeky, sizekx]
+        if positions is not None:
+            # the positions are given along y, x and the repeats
+            nav_shape = (sizex, sizey)
+            if repeats > 1:
+                nav_shape = (repeats,) + nav_shape
+        else:
+            nav_shape = tuple([s for s in [sizex, sizey, time] if s != 1])
     else:
         navigate = [True, False, False]
 
-- 
2.43.0


From 1bf71c5bcd5dd45e58914301db3aac516b6f183c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 095/143] fix: arina data of detectors which are not square

---
 rsciio/arina/_api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsciio/arina/_api.py b/rsciio/arina/_api.py
index a900fb5..d8b6733 100644
--- a/rsciio/arina/_api.py
+++ b/rsciio/arina/_api.py
@@ -109,12 +109,12 @@ def file_reader(
         dtype_scan = np.dtype(np.uint16)
 
     if flatfield is not None:
-        array_3D = np.empty((nimages, width, height), dtype=np.float32)
+        array_3D = np.empty((nimages, height, width), dtype=np.float32)
         _logger.info("Dataset will be converted to float32 due to flatfield correction")
     elif dtype:
-        array_3D = np.empty((nimages, width, height), dtype=dtype)
+        array_3D = np.empty((nimages, height, width), dtype=dtype)
     else:
-        array_3D = np.empty((nimages, width, height), dtype=dtype_scan)
+        array_3D = np.empty((nimages, height, width), dtype=dtype_scan)
 
     image_index = 0
 
-- 
2.43.0


From ee2187bcf47c858cb101fff6351f80cb8b4d4c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 096/143] fix: Direct Electron mrc files of scans of one
 position

---
 rsciio/mrc/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/mrc/_api.py b/rsciio/mrc/_api.py
index 51d3bc1..7af94ae 100644
--- a/rsciio/mrc/_api.py
+++ b/rsciio/mrc/_api.py
@@ -308,7 +308,8 @@ def read_de_metadata_file(filename, nav_shape=None, scan_pos_file=None):
     if scanning and not raster:
         if scan_pos_file is None:
             raise ValueError("Scan position file is required for non-raster scans.")
-        positions = np.loadtxt(scan_pos_file, delimiter=",", dtype=int)[:, ::-1]
+        positions = np.loadtxt(scan_pos_file, delimiter=",", dtype=int, ndmin=2)
+        positions = positions[:, ::-1]
         nav_shape = (positions[:, 1].max() + 1, positions[:, 0].max() + 1)
         unique_pos, inverse, counts = np.unique(
             positions, axis=0, return_counts=True, return_inverse=True
-- 
2.43.0


From 96f5bba6daeca25172aa120adc08be9cb6fe6f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 097/143] fix: scale of impulse data of up to three rows

---
 rsciio/impulse/_api.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rsciio/impulse/_api.py b/rsciio/impulse/_api.py
index 617cde1..662ba12 100644
--- a/rsciio/impulse/_api.py
+++ b/rsciio/impulse/_api.py
@@ -123,7 +123,7 @@ class ImpulseCSV:
         self._data_dictionary = dict()
         for i, (name, name_dtype) in enumerate(zip(self.column_names, names)):
             if name == "Experiment time":
-                self.time_axis = data[name_dtype]
+                self.time_axis = np.atleast_1d(data[name_dtype])
             elif name == "MixValve":
                 mixvalvedatachanged = data[name_dtype]
                 for index, item in enumerate(data[name_dtype]):
@@ -135,7 +135,7 @@ class ImpulseCSV:
                 mixvalvedatachangedint = np.array(mixvalvedatachanged, dtype=np.int32)
                 self._data_dictionary[name] = mixvalvedatachangedint
             else:
-                self._data_dictionary[name] = data[name_dtype]
+                self._data_dictionary[name] = np.atleast_1d(data[name_dtype])
 
     def _read_metadatafile(self):
         # Locate the experiment metadata file
@@ -170,12 +170,15 @@ class ImpulseCSV:
             raise IOError(invalid_filenaming_error)
 
     def _get_axes(self):
+        intervals = np.diff(self.time_axis[1:-1])
+        if intervals.size == 0:
+            intervals = np.diff(self.time_axis)
         return [
             {
                 "size": self.time_axis.shape[0],
                 "index_in_array": 0,
                 "name": "Time",
-                "scale": np.diff(self.time_axis[1:-1]).mean(),
+                "scale": intervals.mean() if intervals.size > 0 else 1,
                 "offset": 0,
                 "units": "Seconds",
                 "navigate": False,
-- 
2.43.0


From e1510f17ed0c21d576b06bc23a00015431c93266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:06 +0000
Subject: [PATCH 098/143] fix: empty ranges of frames of quantum detector mib
 files

---
 rsciio/quantumdetector/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/quantumdetector/_api.py b/rsciio/quantumdetector/_api.py
index 1919af7..8edd039 100644
--- a/rsciio/quantumdetector/_api.py
+++ b/rsciio/quantumdetector/_api.py
@@ -264,7 +264,7 @@ def load_mib_data(
     first_frame, last_frame, _ = slice(first_frame, last_frame).indices(
         frame_number_in_file
     )
-    number_of_frames_to_load = int(last_frame - first_frame)
+    number_of_frames_to_load = max(int(last_frame - first_frame), 0)
 
     if navigation_shape is None:
         # Use number_of_frames_to_load to support slicing range of frames
-- 
2.43.0


From e945d85679cd65adf74c2799a1f8f8a45d52d886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 099/143] fix: DigitalMicrograph tags which are arrays of
 arrays

---
 rsciio/digitalmicrograph/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 57ca5a4..b068670 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -178,12 +178,12 @@ class DigitalMicrographReader(object):
                             )
                         elif enc_eltype == 20:  # Array of arrays
                             _logger.debug("Reading array of arrays")
-                            el_length, enc_eltype = self.parse_array_definition()
+                            el_length, el_eltype = self.parse_array_definition()
                             size = self.read_l_or_q(self.f, "big")
                             data = self.read_array(
                                 size=size,
                                 enc_eltype=enc_eltype,
-                                extra={"size": el_length},
+                                extra={"size": el_length, "enc_eltype": el_eltype},
                                 skip=skip,
                             )
 
-- 
2.43.0


From 1b6fbcdde6297a5ab4f499cc11078f697c8b9d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 100/143] fix: DigitalMicrograph files without images have no
 signals

---
 rsciio/digitalmicrograph/_api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index b068670..7ade03f 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -428,11 +428,11 @@ class DigitalMicrographReader(object):
 
         Returns
         -------
-        dict, None
+        list of dict
 
         """
         if "ImageList" not in self.tags_dict:
-            return None
+            return []
         if "Thumbnails" in self.tags_dict:
             thumbnail_idx = [
                 tag["ImageIndex"] for key, tag in self.tags_dict["Thumbnails"].items()
@@ -1310,7 +1310,7 @@ def file_reader(filename, lazy=False, order=None, optimize=True, chunks="auto"):
             for imdict in dm.get_image_dictionaries()
         ]
         imd = []
-        del dm.tags_dict["ImageList"]
+        dm.tags_dict.pop("ImageList", None)
         dm.tags_dict["ImageList"] = {}
 
         for image in images:
-- 
2.43.0


From b81911c03127b3b2c2edd29cdd24567862454fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 101/143] fix: pixels of big-endian DigitalMicrograph files

---
 rsciio/digitalmicrograph/_api.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 7ade03f..95aeccf 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -595,7 +595,13 @@ class ImageObject(object):
             27: "complex64",  # not numpy: 8-Byte packed complex (FFT data)
             28: "complex128",  # not numpy: 16-Byte packed complex (FFT data)
         }
-        return imdtype_dict[self.imdict.ImageData.DataType]
+        dtype = np.dtype(imdtype_dict[self.imdict.ImageData.DataType])
+        if self.imdict.ImageData.Data.endian == "big":
+            if dtype.names:
+                # 4-byte integers 0xAARRGGBB
+                return np.dtype([(name, "u1") for name in "ARGB"])
+            return dtype.newbyteorder(">")
+        return dtype
 
     @property
     def signal_type(self):
-- 
2.43.0


From f5443e79428008c48d2b464c9c1cc98da4191808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 102/143] fix: old packed complex DigitalMicrograph images can
 be read lazily

---
 rsciio/digitalmicrograph/_api.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 95aeccf..08e19a3 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -25,9 +25,11 @@ import logging
 import os
 from copy import deepcopy
 
+import dask.array as da
 import dateutil.parser
 import numpy as np
 from box import Box
+from dask import delayed
 
 import rsciio.utils._readfile as iou
 from rsciio._docstrings import CHUNKS_READ_DOC, FILENAME_DOC, LAZY_DOC, RETURNS_DOC
@@ -649,6 +651,9 @@ class ImageObject(object):
                 shape[-1] = int(shape[-1] / 2 + 1)
                 # the order doesn't apply to the packed data
                 order = "C"
+            elif self.imdict.ImageData.DataType == 5:  # Old packed complex
+                shape = [self.size]
+                chunks = (self.size,)
             data = memmap_distributed(
                 self.filename,
                 offset=self.imdict.ImageData.Data.offset,
@@ -673,7 +678,13 @@ class ImageObject(object):
         if self.imdict.ImageData.DataType in (27, 28):  # New packed complex
             return self.unpack_new_packed_complex(data)
         elif self.imdict.ImageData.DataType == 5:  # Old packed compled
-            return self.unpack_packed_complex(data)
+            if lazy:
+                return da.from_delayed(
+                    delayed(self.unpack_packed_complex)(data, self.shape),
+                    shape=self.shape,
+                    dtype="complex64",
+                )
+            return self.unpack_packed_complex(data, self.shape)
         elif self.imdict.ImageData.DataType in (8, 23):  # ABGR
             # Reorder the fields
             data = data[["R", "G", "B", "A"]].astype(
@@ -691,15 +702,15 @@ class ImageObject(object):
         stop = -1 if self.shape[1] % 2 == 0 else None
         return np.hstack((data[:, ::-1], np.conjugate(data[:, 1:stop])))
 
-    def unpack_packed_complex(self, tmpdata):
-        shape = self.shape
+    @staticmethod
+    def unpack_packed_complex(tmpdata, shape):
         if shape[0] != shape[1] or len(shape) > 2:
             raise IOError(
                 "Unable to read this DM file in packed complex format. "
                 "Please report the issue to the HyperSpy developers providing "
                 "the file if possible"
             )
-        N = int(self.shape[0] / 2)  # think about a 2Nx2N matrix
+        N = int(shape[0] / 2)  # think about a 2Nx2N matrix
         # create an empty 2Nx2N ndarray of complex
         data = np.zeros(shape, dtype="complex64")
 
-- 
2.43.0


From 58c5d5876694b47168a686f5a9cf8e76de533497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:01 +0000
Subject: [PATCH 103/143] fix: DigitalMicrograph files with brackets in the
 names of tags can be read

---
 rsciio/digitalmicrograph/_api.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 08e19a3..9a6fd47 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -103,10 +103,10 @@ class DigitalMicrographReader(object):
             _logger.debug("Reading tag name at address: %s", self.f.tell())
             tag_header = self.parse_tag_header()
             tag_name = tag_header["tag_name"]
-            if "." in tag_name:
-                # remove '.' from tag_name to avoid conflict with flattened
-                # syntax of box.Box
-                tag_name = tag_name.replace(".", "")
+            for character in ".[]":
+                # remove '.' and brackets from tag_name to avoid conflict with
+                # flattened syntax of box.Box
+                tag_name = tag_name.replace(character, "")
 
             skip = True if (group_name == "ImageData" and tag_name == "Data") else False
             _logger.debug("Tag name: %s", tag_name[:20])
-- 
2.43.0


From 5ea7992f849ef46f0b5c2456821f1852cff38713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 104/143] fix: DigitalMicrograph images with a tag named source
 which were not made by the stack builder

---
 rsciio/digitalmicrograph/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/digitalmicrograph/_api.py b/rsciio/digitalmicrograph/_api.py
index 9a6fd47..3fee47b 100644
--- a/rsciio/digitalmicrograph/_api.py
+++ b/rsciio/digitalmicrograph/_api.py
@@ -907,7 +907,8 @@ class ImageObject(object):
             return None
 
     def get_mapping(self):
-        if "source" in self.imdict.ImageTags.keys():
+        source = self.imdict.ImageTags.get("source")
+        if isinstance(source, dict) and "Tags at creation" in source:
             # For stack created with the stack builder plugin
             tags_path = "ImageList.TagGroup0.ImageTags.source.Tags at creation"
             image_tags_dict = self.imdict.ImageTags.source["Tags at creation"]
-- 
2.43.0


From ec30ac1634519ff54b056a08bf9865ffb278d7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:57 +0000
Subject: [PATCH 105/143] fix: single precision and constant data are not
 spoiled by the normalisation in Digital Surf files

---
 rsciio/digitalsurf/_api.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index c8fa496..2469917 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -989,9 +989,14 @@ class DigitalSurfHandler(object):
         """Normalize float data on a 32 bits int scale. Inherently lossy
         but that's how things are with mountainsmap files."""
 
-        Zoffset_f = np.nanmin(data)
-        Zmax_f = np.nanmax(data)
+        # The single precision is too small for the range of 32 bits ints
+        data = data.astype(np.float64)
         is_nan = np.any(np.isnan(data))
+        if np.all(np.isnan(data)):
+            Zoffset_f = Zmax_f = 0.0
+        else:
+            Zoffset_f = np.nanmin(data)
+            Zmax_f = np.nanmax(data)
 
         if is_special and is_nan:
             Zmin = -(2 ** (32 - 1)) + 2
@@ -1001,7 +1006,10 @@ class DigitalSurfHandler(object):
             Zmax = 2**32 + Zmin - 1
 
         Zscale = (Zmax_f - Zoffset_f) / (Zmax - Zmin)
-        data_int = (data - Zoffset_f) / Zscale + Zmin
+        if Zscale == 0:
+            # Constant data: any non-zero scale can be used
+            Zscale = 1.0
+        data_int = np.clip((data - Zoffset_f) / Zscale + Zmin, Zmin, Zmax)
 
         if is_special and is_nan:
             data_int[np.isnan(data)] = Zmin - 2
-- 
2.43.0


From b13d7554d1772aaa9f86a4b2fe6fa4251cd8b66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:57 +0000
Subject: [PATCH 106/143] fix: the axes of Digital Surf spectra agree with the
 shape of the data

---
 rsciio/digitalsurf/_api.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index 2469917..0fd9900 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -1419,12 +1419,16 @@ class DigitalSurfHandler(object):
             self.signal_dict["axes"].append(self._build_Yax(hypdic, ind=0, nav=True))
 
         # Add the signal axis_src to the signal dict
-        self.signal_dict["axes"].append(self._build_Xax(hypdic, ind=1, nav=False))
+        self.signal_dict["axes"].append(
+            self._build_Xax(hypdic, ind=len(self.signal_dict["axes"]), nav=False)
+        )
 
         # We reshape the data in the correct format.
-        # Edit: the data is now squeezed for unneeded dimensions
+        # Edit: the dimension of the lines is removed for a single spectrum
         data_shape = (hypdic["_19_Number_of_Lines"], hypdic["_18_Number_of_Points"])
-        data_array = np.squeeze(hypdic["_62_points"].reshape(data_shape, order="C"))
+        data_array = hypdic["_62_points"].reshape(data_shape, order="C")
+        if hypdic["_19_Number_of_Lines"] == 1:
+            data_array = data_array[0]
 
         self.signal_dict["data"] = data_array
 
-- 
2.43.0


From 20a9a1e3212e5f61cd93e5a9856aed78db59fd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:57 +0000
Subject: [PATCH 107/143] fix: values above 32767 of series of RGB images in
 Digital Surf files

---
 rsciio/digitalsurf/_api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index 0fd9900..c1a7d5d 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -851,9 +851,9 @@ class DigitalSurfHandler(object):
         self.objtype_split = []
         for d in tmp_data_split:
             self.data_split += [
-                d["R"].astype(np.int16).copy(),
-                d["G"].astype(np.int16).copy(),
-                d["B"].astype(np.int16).copy(),
+                d["R"].astype(np.int32),
+                d["G"].astype(np.int32),
+                d["B"].astype(np.int32),
             ]
             # self.objtype_split += [12,10,10]
         self.objtype_split = [12, 10, 10] * self.Taxis["size"]
-- 
2.43.0


From 5a58a8fb7ab1b1187cd48a5c5b406694ff36826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:57 +0000
Subject: [PATCH 108/143] fix: undefined names and units of axes are not
 written as None in Digital Surf files

---
 rsciio/digitalsurf/_api.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index c1a7d5d..198b27d 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -1115,14 +1115,14 @@ class DigitalSurfHandler(object):
         self._work_dict["_21_X_Spacing"]["value"] = self.Xaxis.get("scale", 0.0)
         self._work_dict["_22_Y_Spacing"]["value"] = self.Yaxis.get("scale", 0.0)
         self._work_dict["_23_Z_Spacing"]["value"] = Zscale
-        self._work_dict["_24_Name_of_X_Axis"]["value"] = self.Xaxis.get("name", "")
-        self._work_dict["_25_Name_of_Y_Axis"]["value"] = self.Yaxis.get("name", "")
+        self._work_dict["_24_Name_of_X_Axis"]["value"] = self.Xaxis.get("name") or ""
+        self._work_dict["_25_Name_of_Y_Axis"]["value"] = self.Yaxis.get("name") or ""
         self._work_dict["_26_Name_of_Z_Axis"]["value"] = Zname
-        self._work_dict["_27_X_Step_Unit"]["value"] = self.Xaxis.get("units", "")
-        self._work_dict["_28_Y_Step_Unit"]["value"] = self.Yaxis.get("units", "")
+        self._work_dict["_27_X_Step_Unit"]["value"] = self.Xaxis.get("units") or ""
+        self._work_dict["_28_Y_Step_Unit"]["value"] = self.Yaxis.get("units") or ""
         self._work_dict["_29_Z_Step_Unit"]["value"] = Zunit
-        self._work_dict["_30_X_Length_Unit"]["value"] = self.Xaxis.get("units", "")
-        self._work_dict["_31_Y_Length_Unit"]["value"] = self.Yaxis.get("units", "")
+        self._work_dict["_30_X_Length_Unit"]["value"] = self.Xaxis.get("units") or ""
+        self._work_dict["_31_Y_Length_Unit"]["value"] = self.Yaxis.get("units") or ""
         self._work_dict["_32_Z_Length_Unit"]["value"] = Zunit
         self._work_dict["_33_X_Unit_Ratio"]["value"] = 1
         self._work_dict["_34_Y_Unit_Ratio"]["value"] = 1
@@ -1188,8 +1188,8 @@ class DigitalSurfHandler(object):
         self._work_dict["_55_Z_Offset"]["value"] = Zoffset
         self._work_dict["_56_T_Spacing"]["value"] = self.Taxis.get("scale", 0.0)
         self._work_dict["_57_T_Offset"]["value"] = self.Taxis.get("offset", 0.0)
-        self._work_dict["_58_T_Axis_Name"]["value"] = self.Taxis.get("name", "")
-        self._work_dict["_59_T_Step_Unit"]["value"] = self.Taxis.get("units", "")
+        self._work_dict["_58_T_Axis_Name"]["value"] = self.Taxis.get("name") or ""
+        self._work_dict["_59_T_Step_Unit"]["value"] = self.Taxis.get("units") or ""
 
         self._work_dict["_60_Comment"]["value"] = comment
 
-- 
2.43.0


From ab7c91186e67081b93a1baf6c19b653f7b7becf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:57 +0000
Subject: [PATCH 109/143] fix: the original metadata of every object of a
 Digital Surf file is of this object

---
 rsciio/digitalsurf/_api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index 198b27d..236132a 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -1710,16 +1710,16 @@ class DigitalSurfHandler(object):
         original_metadata_dict = {}
 
         # Iteration over Number of data objects
-        for i in range(self._N_data_objects):
+        for i in range(max(self._N_data_objects, 1)):
             # Iteration over the Number of Data channels
             for j in range(max(self._N_data_channels, 1)):
                 # Creating a dictionary key for each object
-                k = (i + 1) * (j + 1)
+                k = i * max(self._N_data_channels, 1) + j
                 key = "Object_{:d}_Channel_{:d}".format(i, j)
                 original_metadata_dict.update({key: {}})
 
                 # We load one full object header
-                a = self._list_sur_file_content[k - 1]
+                a = self._list_sur_file_content[k]
 
                 # Save it as original metadata dictionary
                 headerdict = {
-- 
2.43.0


From a09389745628f01c3c5051a7f301bd2e3854cc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:57 +0000
Subject: [PATCH 110/143] fix: the bytes of the private zone are written to
 Digital Surf files

---
 rsciio/digitalsurf/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index 236132a..921521f 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -2154,11 +2154,11 @@ class DigitalSurfHandler(object):
 
     def _unpack_private(self, file, encoding="latin-1"):
         privatesize = self._get_work_dict_key_value("_51_Private_size")
-        return self._get_str(file, privatesize, encoding)
+        return self._get_bytes(file, privatesize)
 
     def _pack_private(self, file, val, encoding="latin-1"):
         privatesize = self._get_work_dict_key_value("_51_Private_size")
-        self._set_str(file, val, privatesize)
+        self._set_bytes(file, val, privatesize)
 
     def _is_data_int(
         self,
-- 
2.43.0


From 209e771d322348a9ba351773f72d99c64f445d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:36 +0000
Subject: [PATCH 111/143] fix: values of Digital Surf surfaces with integer
 spacing and offset

---
 rsciio/digitalsurf/_api.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index 921521f..824570a 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -2175,10 +2175,9 @@ class DigitalSurfHandler(object):
                 "_23_Z_Spacing"
             ) / self._get_work_dict_key_value("_35_Z_Unit_Ratio")
             offset = self._get_work_dict_key_value("_55_Z_Offset")
-            if float(scale).is_integer() and float(offset).is_integer():
-                return True
-            else:
-                return False
+            Zmin = self._get_work_dict_key_value("_16_Zmin")
+            # The offset is stored in single precision
+            return scale == 1 and offset == np.float32(Zmin)
         else:
             return False
 
@@ -2286,7 +2285,7 @@ class DigitalSurfHandler(object):
         offset = self._get_work_dict_key_value("_55_Z_Offset")
 
         # Packing data into ints or float, with or without scaling.
-        if self._is_data_int():
+        if self._is_data_int() and not np.any(nm):
             pass  # Case left here for future modification
         elif self._is_data_scaleint():
             _points = (_points.astype(float) - Zmin) * scale + offset
-- 
2.43.0


From 714499e9114303bd42491b335ccd90ea82ea113b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:36 +0000
Subject: [PATCH 112/143] fix: signals with only a date or only a time can be
 written to Digital Surf files

---
 rsciio/digitalsurf/_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index 824570a..4e2cc09 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -1136,10 +1136,12 @@ class DigitalSurfHandler(object):
         dt: datetime.datetime = get_date_time_from_metadata(
             metadata, formatting="datetime"
         )
-        if dt is not None:
+        # Only the date or only the time can be defined
+        if isinstance(dt, (datetime.datetime, datetime.time)):
             self._work_dict["_40_Seconds"]["value"] = dt.second
             self._work_dict["_41_Minutes"]["value"] = dt.minute
             self._work_dict["_42_Hours"]["value"] = dt.hour
+        if isinstance(dt, datetime.date):
             self._work_dict["_43_Day"]["value"] = dt.day
             self._work_dict["_44_Month"]["value"] = dt.month
             self._work_dict["_45_Year"]["value"] = dt.year
-- 
2.43.0


From 2e942f8324e890dc765b56972b17636a621055c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:36 +0000
Subject: [PATCH 113/143] fix: comments of Digital Surf files with equal signs
 in the values and empty comments

---
 rsciio/digitalsurf/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index 4e2cc09..720571f 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -104,7 +104,7 @@ def parse_metadata(cmt: str, prefix: str = "$", delimiter: str = "=") -> dict:
                 if key_main is None:
                     key_main = "UNTITLED"
                     dict_md[key_main] = {}
-                key, *li_value = line.split(delimiter)
+                key, *li_value = line.split(delimiter, 1)
                 # Key is also stripped from beginning or end whitespace
                 key = key[len(prefix) :].strip()
                 str_value = li_value[0] if len(li_value) > 0 else ""
@@ -1982,7 +1982,7 @@ class DigitalSurfHandler(object):
                 if candidate and isinstance(candidate, dict):
                     return candidate
                 # dict casting for non-none but non-dict candidate
-                elif candidate is not None:
+                elif candidate is not None and not isinstance(candidate, dict):
                     return {"Parsed": candidate}
                 # else none candidate, or empty dict -> do nothing
             # Finally, if valid fields are present but no candidate
-- 
2.43.0


From c7990832c822767e1227eb0d7cd5949647515d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:36 +0000
Subject: [PATCH 114/143] fix: integer surfaces read from Digital Surf files
 can be changed

---
 rsciio/digitalsurf/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index 720571f..af46b2a 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -2299,7 +2299,7 @@ class DigitalSurfHandler(object):
             _points[nm] = np.nan  # Ints have no nans
 
         # Return the points, rescaled
-        return _points
+        return np.require(_points, requirements="W")
 
     def _pack_data(self, file, val, encoding="latin-1"):
         """This needs to be special because it writes until the end of file."""
-- 
2.43.0


From 633350e441e761be6a3a71c3dc9cfc43459b051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:10 +0000
Subject: [PATCH 115/143] fix: big-endian integers can be written to Digital
 Surf files

---
 rsciio/digitalsurf/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/digitalsurf/_api.py b/rsciio/digitalsurf/_api.py
index af46b2a..9424153 100644
--- a/rsciio/digitalsurf/_api.py
+++ b/rsciio/digitalsurf/_api.py
@@ -915,6 +915,8 @@ class DigitalSurfHandler(object):
         Returns:
             tuple[int,int,int,float,float,np.ndarray[int]]: pointsize, Zmin, Zmax, Zscale, Zoffset, data_int
         """
+        # The byte order does not matter
+        data = data.astype(data.dtype.newbyteorder("="), copy=False)
         data_type = data.dtype
 
         if np.issubdtype(data_type, np.complexfloating):
-- 
2.43.0


From 34c0d3db0dc3a2f2fe63fd54abbcd4e000b3244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:09 +0000
Subject: [PATCH 116/143] fix: memory mapping of a file with an offset and
 without shape

---
 rsciio/utils/_distributed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/utils/_distributed.py b/rsciio/utils/_distributed.py
index 7639f9a..ba73ff7 100644
--- a/rsciio/utils/_distributed.py
+++ b/rsciio/utils/_distributed.py
@@ -252,7 +252,7 @@ def memmap_distributed(
 
     if shape is None:
         unit_size = np.dtype(dtype).itemsize
-        shape = int(os.path.getsize(filename) / unit_size)
+        shape = (os.path.getsize(filename) - offset) // unit_size
     if not isinstance(shape, tuple):
         shape = (shape,)
 
-- 
2.43.0


From b56096f1cbfcc7e913bf69b533477d6d2a98a317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:09 +0000
Subject: [PATCH 117/143] fix: memory mapping of frames of structured dtype at
 arbitrary positions

---
 rsciio/utils/_distributed.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/utils/_distributed.py b/rsciio/utils/_distributed.py
index ba73ff7..66d4c68 100644
--- a/rsciio/utils/_distributed.py
+++ b/rsciio/utils/_distributed.py
@@ -268,7 +268,10 @@ def memmap_distributed(
         )
         drop_axes = None
         use_positions = True
-        shape = (len(positions),) + shape[-2:]  # update the shape to be linear
+        # update the shape to be linear, the frames can be given by the dtype
+        shape = (len(positions),) + (shape + sub_array_shape)[-2:][
+            : 2 - len(sub_array_shape)
+        ]
     else:
         # Separates slices into appropriately sized chunks.
         chunked_slices, data_chunks = get_chunk_slice(
-- 
2.43.0


From 7ccdd9e7b124f26edaf5528b4af34820f5510508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:54 +0000
Subject: [PATCH 118/143] fix: bruker hypermaps whose last pixel ends at the
 end of a block (python decoder)

---
 rsciio/bruker/_api.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsciio/bruker/_api.py b/rsciio/bruker/_api.py
index 7c79574..8ae7a67 100644
--- a/rsciio/bruker/_api.py
+++ b/rsciio/bruker/_api.py
@@ -1122,14 +1122,14 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
     offset = 0x1A0
     size = size_chnk
     for line_cnt in range(height):
-        if (offset + 4) >= size:
+        if (offset + 4) > size:
             size = size_chnk + size - offset
             buffer1 = buffer1[offset:] + next(iter_data)
             offset = 0
         line_head = strct_unp("<i", buffer1[offset : offset + 4])[0]
         offset += 4
         for dummy1 in range(line_head):
-            if (offset + 22) >= size:
+            if (offset + 22) > size:
                 size = size_chnk + size - offset
                 buffer1 = buffer1[offset:] + next(iter_data)
                 offset = 0
@@ -1160,7 +1160,7 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
                 ceil(width / dwn_factor) * (line_cnt // dwn_factor)
             )
             offset += 22
-            if (offset + data_size2) >= size:
+            if (offset + data_size2) > size:
                 buffer1 = buffer1[offset:] + next(iter_data)
                 size = size_chnk + size - offset
                 offset = 0
@@ -1235,7 +1235,7 @@ def py_parse_hypermap(virtual_file, shape, dtype, downsample=1):
                 if n_of_pulses > 0:
                     add_s = strct_unp("<I", buffer1[offset : offset + 4])[0]
                     offset += 4
-                    if (offset + add_s) >= size:
+                    if (offset + add_s) > size:
                         buffer1 = buffer1[offset:] + next(iter_data)
                         size = size_chnk + size - offset
                         offset = 0
-- 
2.43.0


From 7026b40fe4bd8e40838f561e4b557a644ecc0db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:06 +0000
Subject: [PATCH 119/143] fix: datasets selected by key or path in NeXus files
 are read in the order of the file

---
 rsciio/nexus/_api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 0f628ca..a695522 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -828,8 +828,9 @@ def _find_data(group, search_keys=None, hardlinks_only=False, absolute_path=None
             [j for j in nx_datasets if any(s in j for s in search_keys)]
         )
 
-    matched_nexus = list(matched_nexus)
-    matched_hdf = list(matched_hdf)
+    # in the order of the file
+    matched_nexus = [j for j in nx_datasets if j in matched_nexus]
+    matched_hdf = [j for j in hdf_datasets if j in matched_hdf]
 
     return matched_nexus, matched_hdf
 
-- 
2.43.0


From 16ab2ae21005212f463925797e24cb990083cf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:06 +0000
Subject: [PATCH 120/143] fix: external links in NeXus files are ignored when
 only hard links are read

---
 rsciio/nexus/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index a695522..d3dad55 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -179,7 +179,7 @@ def _getlink(h5group, rootkey, key):
     if rootkey != "/":
         if isinstance(h5group, h5py.Group):
             _link = h5group.get(key, getlink=True)
-            if isinstance(_link, h5py.SoftLink):
+            if isinstance(_link, (h5py.SoftLink, h5py.ExternalLink)):
                 _target = _link.path
         if "target" in h5group.attrs.keys():
             _target = _parse_from_file(h5group.attrs["target"])
-- 
2.43.0


From f2f3e2ae45f0e32c0197e6d2e9d58eb98ce29989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:06 +0000
Subject: [PATCH 121/143] fix: use_default of NeXus files selects exactly the
 default dataset, if there is one

---
 rsciio/nexus/_api.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index d3dad55..234262c 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -545,17 +545,14 @@ def file_reader(
                 rootlist = list(original_metadata.keys())
                 rootlist.remove("attrs")
                 if rootlist and len(rootlist) == 1:
-                    nxentry == rootlist[0]
-            if nxentry:
-                if "default" in original_metadata[nxentry]["attrs"]:
-                    nxdata = original_metadata[nxentry]["attrs"]["default"]
+                    nxentry = rootlist[0]
+            if isinstance(original_metadata.get(nxentry), dict):
+                nxdata = original_metadata[nxentry].get("attrs", {}).get("default")
             if nxentry and nxdata:
                 nxdata = "/" + nxentry + "/" + nxdata
-            if nxdata:
-                hdf_data_paths = []
-                nexus_data_paths = [
-                    nxpath for nxpath in nexus_data_paths if nxdata in nxpath
-                ]
+        # without default, the file is loaded according to the other arguments
+        hdf_data_paths = []
+        nexus_data_paths = [nxpath for nxpath in nexus_data_paths if nxdata == nxpath]
 
     # if no default found then search for the data as normal
     if not nexus_data_paths and not hdf_data_paths:
-- 
2.43.0


From 3b8e0eb38d5fc72fbc4b9d6d3747f39f67d858c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:14 +0000
Subject: [PATCH 122/143] fix: empty sequences in the metadata are written to
 NeXus files

---
 rsciio/nexus/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 234262c..91ff48e 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -1037,7 +1037,7 @@ def _write_nexus_groups(dictionary, group, skip_keys=None, **kwds):
                     value, group.require_group(key), skip_keys=skip_keys, **kwds
                 )
         if isinstance(value, (list, tuple, np.ndarray)) or is_dask_array(value):
-            if all(isinstance(v, dict) for v in value):
+            if len(value) and all(isinstance(v, dict) for v in value):
                 # a list of dictionary is from the axes of HyperSpy signal
                 for i, ax_dict in enumerate(value):
                     ax_key = "_axes_" + str(i)
-- 
2.43.0


From 4150fab4cdbb31cb1d492862321649c05104adf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:14 +0000
Subject: [PATCH 123/143] fix: sequences of non-ASCII texts in the metadata can
 be written to NeXus files

---
 rsciio/nexus/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 91ff48e..13c4743 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -128,7 +128,7 @@ def _parse_to_file(value):
     if isinstance(totest, (list, tuple)):
         totest = np.array(value)
     if isinstance(totest, np.ndarray) and totest.dtype.char == "U":
-        toreturn = np.array(totest).astype("S")
+        toreturn = np.char.encode(totest, "utf-8")
     elif isinstance(totest, np.ndarray) or is_dask_array(totest):
         toreturn = totest
     if isinstance(totest, str):
-- 
2.43.0


From d2cc04dcf252fc6e4f58efed2ce5aea9307ee456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:53 +0000
Subject: [PATCH 124/143] fix: NeXus files with empty datasets can be read

---
 rsciio/nexus/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 13c4743..6ccfc15 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -83,10 +83,10 @@ def _parse_from_file(value, lazy=False):
     """
     toreturn = value
     if isinstance(value, h5py.Dataset):
-        if value.size < 2:
+        if value.size == 1:
             toreturn = value[...].item()
         else:
-            if lazy:
+            if lazy and value.size:
                 import dask.array as da
 
                 if value.chunks:
-- 
2.43.0


From ef6ba77e37272e49fa478ab567fa04ec307c9c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:53 +0000
Subject: [PATCH 125/143] fix: arrays without dimension in the metadata can be
 written to NeXus files

---
 rsciio/nexus/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/nexus/_api.py b/rsciio/nexus/_api.py
index 6ccfc15..3d9524e 100644
--- a/rsciio/nexus/_api.py
+++ b/rsciio/nexus/_api.py
@@ -1036,6 +1036,8 @@ def _write_nexus_groups(dictionary, group, skip_keys=None, **kwds):
                 _write_nexus_groups(
                     value, group.require_group(key), skip_keys=skip_keys, **kwds
                 )
+        if isinstance(value, np.ndarray) and value.ndim == 0:
+            value = value[()]
         if isinstance(value, (list, tuple, np.ndarray)) or is_dask_array(value):
             if len(value) and all(isinstance(v, dict) for v in value):
                 # a list of dictionary is from the axes of HyperSpy signal
-- 
2.43.0


From 171e43f614d564927ecb09c854909c03a3085d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:42 +0000
Subject: [PATCH 126/143] fix: the pixel size of TVIPS files is that of the
 images, not of the scan

---
 rsciio/tvips/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index e715a4d..5197a0c 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -113,7 +113,7 @@ def _get_main_header_from_signal(signal, version=2, frame_header_extra_bytes=0):
     # original pixel scale
     mode = _guess_image_mode(signal)
     axes = signal["axes"]
-    scale = axes[0]["scale"]
+    scale = axes[-1]["scale"]
     offsetx = axes[-1]["offset"]
     offsety = axes[-2]["offset"]
     unit = axes[-2]["units"]
-- 
2.43.0


From 9e934def21f7d7b979f6f80c52da359970ee0726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:42 +0000
Subject: [PATCH 127/143] fix: stage tilts are written to TVIPS files

---
 rsciio/tvips/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 5197a0c..12e1e8f 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -596,8 +596,8 @@ def file_writer(
     stagex = metadata.get("Acquisition_instrument.TEM.Stage.x", 0)
     stagey = metadata.get("Acquisition_instrument.TEM.Stage.y", 0)
     stagez = metadata.get("Acquisition_instrument.TEM.Stage.z", 0)
-    stagea = metadata.get("Acquisition_instrument.TEM.tilt_alpha", 0)
-    stageb = metadata.get("Acquisition_instrument.TEM.tilt_beta", 0)
+    stagea = metadata.get("Acquisition_instrument.TEM.Stage.tilt_alpha", 0)
+    stageb = metadata.get("Acquisition_instrument.TEM.Stage.tilt_beta", 0)
     # TODO: is fcurrent actually beam current??
     fcurrent = metadata.get("Acquisition_instrument.TEM.beam_current", 0)
     frames_to_save = num_frames
-- 
2.43.0


From ca34152bd76c668dc7ec6931dc731f9b188ef043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:42 +0000
Subject: [PATCH 128/143] fix: dates of TVIPS files are in UTC in every local
 time zone

---
 rsciio/tvips/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tvips/_api.py b/rsciio/tvips/_api.py
index 12e1e8f..5b13eff 100644
--- a/rsciio/tvips/_api.py
+++ b/rsciio/tvips/_api.py
@@ -447,7 +447,7 @@ def file_reader(
             }
             for i in range(dim)
         ]
-    dtobj = datetime.fromtimestamp(all_metadata[0]["timestamp"][0])
+    dtobj = datetime.fromtimestamp(all_metadata[0]["timestamp"][0], tz=timezone.utc)
     date = dtobj.date().isoformat()
     time = dtobj.time().isoformat()
     current = all_metadata[0]["fcurrent"][0]
-- 
2.43.0


From fde42f5234290db2f92965d1a8367fc55e0b62b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:20 +0000
Subject: [PATCH 129/143] fix: times of Velox files in local time zones west of
 Greenwich or with daylight saving time

---
 rsciio/emd/_emd_velox.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rsciio/emd/_emd_velox.py b/rsciio/emd/_emd_velox.py
index e16d536..9f931a1 100644
--- a/rsciio/emd/_emd_velox.py
+++ b/rsciio/emd/_emd_velox.py
@@ -878,7 +878,7 @@ class FeiEMDReader(object):
             date, time = self._convert_datetime(unix_time).split("T")
             meta_gen["date"] = date
             meta_gen["time"] = time
-            meta_gen["time_zone"] = self._get_local_time_zone()
+            meta_gen["time_zone"] = self._get_local_time_zone(unix_time)
         except UnboundLocalError:
             # Error seems to come from h5py, covered in the test suite
             # Added in https://github.com/hyperspy/hyperspy/pull/1831
@@ -895,7 +895,7 @@ class FeiEMDReader(object):
         mapping = {
             "Acquisition.AcquisitionStartDatetime.DateTime": (
                 "General.time_zone",
-                lambda x: self._get_local_time_zone(),
+                self._get_local_time_zone,
             ),
             "Optics.AccelerationVoltage": (
                 "Acquisition_instrument.TEM.beam_energy",
@@ -999,10 +999,11 @@ class FeiEMDReader(object):
         # Since we don't know the actual time zone of where the data have been
         # acquired, we convert the datetime to the local time for convenience
         dt = datetime.fromtimestamp(float(unix_time), tz=tz.tzutc())
-        return dt.astimezone(tz.tzlocal()).isoformat().split("+")[0]
+        return dt.astimezone(tz.tzlocal()).replace(tzinfo=None).isoformat()
 
-    def _get_local_time_zone(self):
-        return tz.tzlocal().tzname(datetime.today())
+    def _get_local_time_zone(self, unix_time):
+        dt = datetime.fromtimestamp(float(unix_time), tz=tz.tzutc())
+        return dt.astimezone(tz.tzlocal()).tzname()
 
 
 # Below some information we have got from FEI about the format of the stream:
-- 
2.43.0


From d48bc59c8bb22c9d1eea5761dcbc9766857c2c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:41 +0000
Subject: [PATCH 130/143] fix: EDS signals without acquisition metadata can be
 written to ripple files

---
 rsciio/ripple/_api.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rsciio/ripple/_api.py b/rsciio/ripple/_api.py
index ef7f380..426bba1 100644
--- a/rsciio/ripple/_api.py
+++ b/rsciio/ripple/_api.py
@@ -604,10 +604,8 @@ def file_writer(filename, signal, encoding="latin-1"):
             if "Detector.EELS.collection_angle" in mp:
                 keys_dictionary["collection-angle"] = mp.Detector.EELS.collection_angle
     if "EDS" in signal_type:
-        if signal_type == "EDS_SEM":
-            mp = md.Acquisition_instrument.SEM
-        elif signal_type == "EDS_TEM":
-            mp = md.Acquisition_instrument.TEM
+        instrument = "SEM" if signal_type == "EDS_SEM" else "TEM"
+        mp = md.get(f"Acquisition_instrument.{instrument}", {})
         if "beam_energy" in mp:
             keys_dictionary["beam-energy"] = mp.beam_energy
         if "Detector.EDS.elevation_angle" in mp:
-- 
2.43.0


From bf12412dfa8da2e8f94159c561a13b428ffd5e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:15 +0000
Subject: [PATCH 131/143] fix: metadata of EDS_SEM signals in ripple files
 belongs to the scanning electron microscope

---
 rsciio/ripple/_api.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/rsciio/ripple/_api.py b/rsciio/ripple/_api.py
index 426bba1..eb60a12 100644
--- a/rsciio/ripple/_api.py
+++ b/rsciio/ripple/_api.py
@@ -407,46 +407,45 @@ def file_reader(
         },
         box_dots=True,
     )
+    # The metadata of scanning electron microscopes is in its own node
+    microscope = "SEM" if rpl_info["signal"] == "EDS_SEM" else "TEM"
+    instrument = f"Acquisition_instrument.{microscope}"
     if "convergence-angle" in rpl_info:
         mp.set_item(
-            "Acquisition_instrument.TEM.convergence_angle",
+            f"{instrument}.convergence_angle",
             rpl_info["convergence-angle"],
         )
     if "tilt-stage" in rpl_info:
-        mp.set_item(
-            "Acquisition_instrument.TEM.Stage.tilt_alpha", rpl_info["tilt-stage"]
-        )
+        mp.set_item(f"{instrument}.Stage.tilt_alpha", rpl_info["tilt-stage"])
     if "collection-angle" in rpl_info:
         mp.set_item(
-            "Acquisition_instrument.TEM.Detector.EELS." + "collection_angle",
+            f"{instrument}.Detector.EELS.collection_angle",
             rpl_info["collection-angle"],
         )
     if "beam-energy" in rpl_info:
-        mp.set_item("Acquisition_instrument.TEM.beam_energy", rpl_info["beam-energy"])
+        mp.set_item(f"{instrument}.beam_energy", rpl_info["beam-energy"])
     if "elevation-angle" in rpl_info:
         mp.set_item(
-            "Acquisition_instrument.TEM.Detector.EDS.elevation_angle",
+            f"{instrument}.Detector.EDS.elevation_angle",
             rpl_info["elevation-angle"],
         )
     if "azimuth-angle" in rpl_info:
         mp.set_item(
-            "Acquisition_instrument.TEM.Detector.EDS.azimuth_angle",
+            f"{instrument}.Detector.EDS.azimuth_angle",
             rpl_info["azimuth-angle"],
         )
     if "energy-resolution" in rpl_info:
         mp.set_item(
-            "Acquisition_instrument.TEM.Detector.EDS." + "energy_resolution_MnKa",
+            f"{instrument}.Detector.EDS.energy_resolution_MnKa",
             rpl_info["energy-resolution"],
         )
     if "detector-peak-width-ev" in rpl_info:
         mp.set_item(
-            "Acquisition_instrument.TEM.Detector.EDS." + "energy_resolution_MnKa",
+            f"{instrument}.Detector.EDS.energy_resolution_MnKa",
             rpl_info["detector-peak-width-ev"],
         )
     if "live-time" in rpl_info:
-        mp.set_item(
-            "Acquisition_instrument.TEM.Detector.EDS.live_time", rpl_info["live-time"]
-        )
+        mp.set_item(f"{instrument}.Detector.EDS.live_time", rpl_info["live-time"])
 
     units = [None if unit == "<undefined>" else unit for unit in units]
 
-- 
2.43.0


From e1f6a91df81722ee8793a0469b82d24f482aebb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:15 +0000
Subject: [PATCH 132/143] fix: signals with an incomplete date can be written
 to Semper files

---
 rsciio/semper/_api.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/rsciio/semper/_api.py b/rsciio/semper/_api.py
index ba5ee05..98885ab 100644
--- a/rsciio/semper/_api.py
+++ b/rsciio/semper/_api.py
@@ -80,6 +80,7 @@ from datetime import datetime
 from functools import partial
 
 import numpy as np
+from dateutil import parser as dateparser
 
 from rsciio._docstrings import (
     FILENAME_DOC,
@@ -543,14 +544,19 @@ class SemperFormat(object):
         data, iform = cls._check_format(data)
         title = smetadata.General.to_dict().get("title", None)
         metadata = OrderedDict()
-        if "date" in smetadata.General.keys() and "time" in smetadata.General.keys():
-            dt = "%s %s" % (smetadata.General.date, smetadata.General.time)
-        else:
-            dt = "%s" % datetime.now()
+        # The date needs to be complete, otherwise the current one is used
+        date = smetadata.General.get("date")
+        time = smetadata.General.get("time")
+        dt = datetime.now()
+        if date and time:
+            try:
+                dt = dateparser.parse("%s %s" % (date, time))
+            except ValueError:
+                _logger.warning("The date '%s %s' is not understood.", date, time)
 
         metadata.update(
             {
-                "DATE": "%s" % dt.split(".")[0],
+                "DATE": "{}-{}-{} {}:{}:{}".format(*dt.timetuple()[:6]),
                 "ICLASS": iclass,
                 "IFORM": iform,
                 "IVERSN": 2,  # Current standard
-- 
2.43.0


From fe80a18b7d36a9f42fe0152da5a848db77098202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:20 +0000
Subject: [PATCH 133/143] fix: notes of blockfiles are written with the
 encoding they are read with

---
 rsciio/blockfile/_api.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rsciio/blockfile/_api.py b/rsciio/blockfile/_api.py
index 2a42025..c67e2da 100644
--- a/rsciio/blockfile/_api.py
+++ b/rsciio/blockfile/_api.py
@@ -437,10 +437,9 @@ def file_writer(
     with open(filename, "wb") as f:
         # Write header
         header.tofile(f)
-        # Write header note field:
-        if len(note) > int(header["Data_offset_1"][0]) - f.tell():
-            note = note[: int(header["Data_offset_1"][0]) - f.tell() - len(note)]
-        f.write(note.encode())
+        # Write header note field, with the encoding used for reading:
+        note = note.encode("latin1", errors="replace")
+        f.write(note[: int(header["Data_offset_1"][0]) - f.tell()])
         # Zero pad until next data block
         zero_pad = int(header["Data_offset_1"][0]) - f.tell()
         np.zeros((zero_pad,), np.byte).tofile(f)
-- 
2.43.0


From e05d37b73f73aef9510cfa351dc1bc4d34b8856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:56 +0000
Subject: [PATCH 134/143] fix: width and height of the pixels of FEI, TVIPS and
 Olympus tiff files were exchanged

---
 rsciio/tiff/_api.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index e7a877b..258aad4 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -417,7 +417,10 @@ def _load_data(handle, is_rgb, memmap=None, **kwds):
 
 
 def _axes_defaults():
-    """Get default axes dictionaries, with offsets and scales"""
+    """Get default axes dictionaries, with offsets and scales
+
+    As in DigitalMicrograph files, "x" is the height and "y" the width.
+    """
     axes_labels = ["x", "y", "z"]
     scales = {axis: 1.0 for axis in axes_labels}
     offsets = {axis: 0.0 for axis in axes_labels}
@@ -468,8 +471,8 @@ def _axes_fei(tiff, op, shape, names):
     except KeyError:
         del op["FEI_SFEG"]
     try:
-        scales["x"] = float(op["fei_metadata"]["Scan"]["PixelWidth"])
-        scales["y"] = float(op["fei_metadata"]["Scan"]["PixelHeight"])
+        scales["y"] = float(op["fei_metadata"]["Scan"]["PixelWidth"])
+        scales["x"] = float(op["fei_metadata"]["Scan"]["PixelHeight"])
         units.update({"x": "m", "y": "m"})
     except KeyError:
         _logger.debug(
@@ -477,10 +480,10 @@ def _axes_fei(tiff, op, shape, names):
             "from 'IRBeam' metadata"
         )
         try:
-            scales["x"] = float(op["fei_metadata"]["IRBeam"]["HFW"]) / float(
+            scales["y"] = float(op["fei_metadata"]["IRBeam"]["HFW"]) / float(
                 op["fei_metadata"]["Image"]["ResolutionX"]
             )
-            scales["y"] = float(op["fei_metadata"]["IRBeam"]["VFW"]) / float(
+            scales["x"] = float(op["fei_metadata"]["IRBeam"]["VFW"]) / float(
                 op["fei_metadata"]["Image"]["ResolutionY"]
             )
             units.update({"x": "m", "y": "m"})
@@ -536,8 +539,8 @@ def _axes_tvips(tiff, op, shape, names):
 
     if "PixelSizeX" in op["TVIPS"] and "PixelSizeY" in op["TVIPS"]:
         _logger.debug("getting TVIPS scale from PixelSizeX")
-        scales["x"] = op["TVIPS"]["PixelSizeX"]
-        scales["y"] = op["TVIPS"]["PixelSizeY"]
+        scales["y"] = op["TVIPS"]["PixelSizeX"]
+        scales["x"] = op["TVIPS"]["PixelSizeY"]
         units.update({"x": "nm", "y": "nm"})
     else:
         _logger.debug("getting TVIPS scale from XYResolution")
@@ -566,8 +569,8 @@ def _axes_olympus_sis(page, tiff, op, shape, names):
         except Exception:
             pass
     op["Olympus_SIS_metadata"] = sis_metadata
-    scales["x"] = round(float(sis_metadata["pixelsizex"]), 15)
-    scales["y"] = round(float(sis_metadata["pixelsizey"]), 15)
+    scales["y"] = round(float(sis_metadata["pixelsizex"]), 15)
+    scales["x"] = round(float(sis_metadata["pixelsizey"]), 15)
     units.update({"x": "m", "y": "m"})
 
     scales, offsets, units = _order_axes_by_name(names, scales, offsets, units)
-- 
2.43.0


From 65e4c36f179a02c7ffe869acd65b9a8c64830c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:56 +0000
Subject: [PATCH 135/143] fix: quantities with non-ASCII units can be written
 to tiff files

---
 rsciio/tiff/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/tiff/_api.py b/rsciio/tiff/_api.py
index 258aad4..10a9df5 100644
--- a/rsciio/tiff/_api.py
+++ b/rsciio/tiff/_api.py
@@ -992,8 +992,8 @@ def _get_dm_kwargs_extratag(signal, scales, units, offsets, nav_dim):
         intensity_units = md["Signal"].get("quantity", "")
         extratags.extend(
             [
-                (65022, "s", 3, intensity_units, False),
-                (65023, "s", 3, intensity_units, False),
+                (65022, "s", 3, intensity_units.encode("latin-1"), False),
+                (65023, "s", 3, intensity_units.encode("latin-1"), False),
             ]
         )
     dic = md.get("Signal.Noise_properties.Variance_linear_model", None)
-- 
2.43.0


From 94c28c1ecef7454dd28683f5980908914d817e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:23 +0000
Subject: [PATCH 136/143] fix: the byte order of EDAX maps applies to the
 counts when they are not read lazily

---
 rsciio/edax/_api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rsciio/edax/_api.py b/rsciio/edax/_api.py
index 33d49eb..fd95b43 100644
--- a/rsciio/edax/_api.py
+++ b/rsciio/edax/_api.py
@@ -851,7 +851,10 @@ def si_reader(
     else:
         with open(filename, "rb") as f:
             data = np.fromfile(
-                f, dtype=data_type, offset=data_offset, count=nx * ny * nz
+                f,
+                dtype=np.dtype(f"{endianness}{data_type}"),
+                offset=data_offset,
+                count=nx * ny * nz,
             )
             data = data.reshape((ny, nx, nz))
 
-- 
2.43.0


From 8788bfd221ceb6c0f135d7f7a8c64a5a1b09c713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:23 +0000
Subject: [PATCH 137/143] fix: EDAX line scans of one spectrum or one channel
 can be read

---
 rsciio/edax/_api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsciio/edax/_api.py b/rsciio/edax/_api.py
index fd95b43..5b2c54f 100644
--- a/rsciio/edax/_api.py
+++ b/rsciio/edax/_api.py
@@ -910,7 +910,7 @@ def si_reader(
     nav_units = "µm"
 
     if linescan:
-        data = data.squeeze()[:nSpectra, :]
+        data = data.reshape((ny * nx, nz))[:nSpectra, :]
         if csv_fname is None:
             csv_basename = os.path.splitext(filename)[0] + ".csv"
             csv_path = os.path.dirname(filename)
@@ -940,7 +940,8 @@ def si_reader(
                     spatial_axis.append(float(row["Distance (nm)"]))
                     nav_units = "nm"
                 spatial_axis_offset = spatial_axis[0]
-                spatial_axis_calibration = spatial_axis[1] - spatial_axis[0]
+                if len(spatial_axis) > 1:
+                    spatial_axis_calibration = spatial_axis[1] - spatial_axis[0]
 
             original_metadata["csv_header"] = csv_header
 
-- 
2.43.0


From 29dd2ac793bbd5c60ad8cfb8049f161347e951b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:23 +0000
Subject: [PATCH 138/143] fix: offset of the axes of TIA files in the units of
 their scale

---
 rsciio/tia/_api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index 6af2b83..f18976a 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -647,9 +647,11 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
         if axis["units"] == "meters":
             axis["units"] = "nm"
             axis["scale"] *= 10**9
+            axis["offset"] *= 10**9
         elif axis["units"] == "1/meters":
             axis["units"] = "1 / nm"
             axis["scale"] /= 10**9
+            axis["offset"] /= 10**9
 
     # Remove Nones from array_shape caused by squeezing size 1 dimensions
     array_shape = [dim for dim in array_shape if dim is not None]
-- 
2.43.0


From bd6b97cf8f1949a4a791120ab7ba6641952eac1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:23 +0000
Subject: [PATCH 139/143] fix: TIA maps of images with one row

---
 rsciio/tia/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index f18976a..99bb797 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -552,7 +552,7 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
             idim = 1 + i if order == "C" else ndim - i
             if (
                 record_by == "spectrum"
-                or header["Dim-%i_DimensionSize" % (i + 1)][0] != 1
+                or header["Dim-%i_DimensionSize" % idim][0] != 1
             ):
                 units = (
                     header["Dim-%i_Units" % (idim)][0].decode("utf-8")
-- 
2.43.0


From 2caff4c5962e81e10eaa9a0fcccf61337894e640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:23 +0000
Subject: [PATCH 140/143] fix: date and units of every TIA file are those of
 its own object in the emi file

---
 rsciio/tia/_api.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index 99bb797..d0e4d0f 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -262,11 +262,16 @@ def emi_reader(filename, lazy=False, only_valid_data=True, dump_xml=False):
     for f in ser_files:
         _logger.info("Opening %s", f)
         try:
-            sers.extend(ser_reader(f, objects, lazy, only_valid_data))
+            # Each ser file has its own object in the emi file
+            index = int(os.path.splitext(f)[0].split("_")[-1]) - 1
+            sers.extend(
+                ser_reader(
+                    f, objects[index : index + 1] or None, lazy, only_valid_data
+                )
+            )
         except IOError:  # Probably a single spectrum that we don't support
             continue
 
-        index = int(os.path.splitext(f)[0].split("_")[-1]) - 1
         op = DTBox(sers[-1]["original_metadata"], box_dots=True)
 
         # defend against condition where more ser files are present than object
-- 
2.43.0


From 39939d1be4148295fbb362415efcecc8908277e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:23 +0000
Subject: [PATCH 141/143] fix: Jobin Yvon files without filter or hole can be
 read

---
 rsciio/jobinyvon/_api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsciio/jobinyvon/_api.py b/rsciio/jobinyvon/_api.py
index 3501146..89289a7 100644
--- a/rsciio/jobinyvon/_api.py
+++ b/rsciio/jobinyvon/_api.py
@@ -652,14 +652,14 @@ class JobinYvonXMLReader:
         ## convert filter range from percentage (0-100) to (0-1)
         try:
             laser["Filter"]["optical_density"] /= 100
-        except KeyError:  # pragma: no cover
+        except TypeError:  # pragma: no cover
             pass  # pragma: no cover
 
         ## convert entrance_hole_width to mm
         try:
             spectrometer["entrance_slit_width"] /= 100
             spectrometer["pinhole"] = spectrometer["entrance_slit_width"]
-        except KeyError:  # pragma: no cover
+        except TypeError:  # pragma: no cover
             pass  # pragma: no cover
 
         self.metadata = {
-- 
2.43.0


From e9e27a4482c8345923d70210ade03f8d61dab529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:54 +0000
Subject: [PATCH 142/143] fix: energy offset of TIA spectra calibrated at
 another channel than the first

---
 rsciio/tia/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsciio/tia/_api.py b/rsciio/tia/_api.py
index d0e4d0f..66dddfd 100644
--- a/rsciio/tia/_api.py
+++ b/rsciio/tia/_api.py
@@ -599,7 +599,8 @@ def ser_reader(filename, objects=None, lazy=False, only_valid_data=True):
     if record_by == "spectrum":
         axes.append(
             {
-                "offset": data["CalibrationOffset"][0],
+                "offset": data["CalibrationOffset"][0]
+                - data["CalibrationElement"][0] * data["CalibrationDelta"][0],
                 "scale": data["CalibrationDelta"][0],
                 "size": data["ArrayLength"][0],
                 "index_in_array": header["NumberDimensions"][0],
-- 
2.43.0


From 65ce417376fcf4d80050ea4ad4c8eb5a6b9d6b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:50 +0000
Subject: [PATCH 143/143] fix: notes of Protochips files without notes were
 False for every sample

---
 rsciio/protochips/_api.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rsciio/protochips/_api.py b/rsciio/protochips/_api.py
index 0cb8838..2fa4087 100644
--- a/rsciio/protochips/_api.py
+++ b/rsciio/protochips/_api.py
@@ -161,7 +161,11 @@ class ProtochipsCSV(object):
         self._data_dictionary = dict()
         for i, name, name_dtype in zip(range(len(names)), self.column_name, names):
             if name == "Notes":
-                self.notes = data[name_dtype].astype(str)
+                self.notes = data[name_dtype]
+                if self.notes.dtype == bool:
+                    # a column without any note is read as booleans
+                    self.notes = np.full(self.notes.shape, "")
+                self.notes = self.notes.astype(str)
             elif name == "Time":
                 self.time_axis = data[name_dtype]
             else:
-- 
2.43.0

