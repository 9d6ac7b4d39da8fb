From 83d00904d8a16ddbc0eeb8a19e8175eb5fbc00d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:23 +0000
Subject: [PATCH 01/62] fix: trains() leaves out keys with no data for a train,
 like train_from_id

---
 karabo_data/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 6cd3495..16da71a 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1282,6 +1282,9 @@ class TrainIterator:
                 group = key.partition('.')[0]
                 firsts, counts = file.get_index(source, group)
                 first, count = firsts[pos], counts[pos]
+                if not count:
+                    continue
+
                 if count == 1:
                     source_data[key] = ds[first]
                 else:
-- 
2.43.0


From bd89c3f479910f3d80278d3881f51bd392e8bf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 02/62] fix: get_data_counts for control sources

---
 karabo_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 16da71a..bf96a9d 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -498,7 +498,7 @@ class DataCollection:
 
         for f in self._source_index[source]:
             if source in self.control_sources:
-                counts = np.ones(f.train_ids, dtype=np.uint64)
+                counts = np.ones(len(f.train_ids), dtype=np.uint64)
             else:
                 group = key.partition('.')[0]
                 _, counts = f.get_index(source, group)
-- 
2.43.0


From abbeadeb14f036ab213454a20757eb1aa2690d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 03/62] fix: reading data when one file has no trains

---
 karabo_data/read_machinery.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index 855bc35..67c2618 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -124,6 +124,9 @@ def contiguous_regions(condition):
     a 2D array where the first column is the start index of the region and the
     second column is the end index."""
 
+    if condition.size == 0:
+        return np.zeros((0, 2), dtype=np.intp)
+
     # Find the indicies of changes in "condition"
     d = np.diff(condition)
     idx, = d.nonzero()
-- 
2.43.0


From 3a33997b7bd67bb293aace7174e6e69577e67278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 04/62] fix: get_array with an empty region of interest

---
 karabo_data/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index bf96a9d..e54afbc 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -698,6 +698,9 @@ class DataCollection:
                 self._expand_trainids(chunk.counts, chunk.train_ids)
             )
 
+            if res[dest_slice].size == 0:
+                continue  # ROI selects nothing; h5py can't read 0 elements
+
             slices = (chunk.slice,) + roi
             chunk.dataset.read_direct(res[dest_slice], source_sel=slices)
 
-- 
2.43.0


From 7b833a263ec562423d2229f0dc671af7896fd3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 05/62] fix: get_array labels the trains even if there is no
 data

---
 karabo_data/reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index e54afbc..e805fea 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -710,9 +710,10 @@ class DataCollection:
         dims = ['trainId'] + extra_dims
 
         # Train ID index
-        coords = {}
-        if dest_dim0:
+        if chunks_trainids:
             coords = {'trainId': np.concatenate(chunks_trainids)}
+        else:
+            coords = {'trainId': np.zeros(0, dtype=np.uint64)}
 
         return xarray.DataArray(res, dims=dims, coords=coords)
 
-- 
2.43.0


From 41d9323ede3b907501130779fa5a8a2d4e3451ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 06/62] fix: get_dask_array where some file has no data for the
 selected trains

---
 karabo_data/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index e805fea..80f5397 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -746,7 +746,8 @@ class DataCollection:
 
         chunks_darrs = []
         for chunk in chunks:
-            chunk_dim0 = int(np.sum(chunk.counts))
+            # Dask doesn't accept a chunk size of 0 for non-empty datasets
+            chunk_dim0 = max(int(np.sum(chunk.counts)), 1)
             chunk_shape = (chunk_dim0,) + chunk.dataset.shape[1:]
             itemsize = chunk.dataset.dtype.itemsize
 
-- 
2.43.0


From bb75192ddcf5c571f5ba96e7e0f0b8abe7f7a303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:44 +0000
Subject: [PATCH 07/62] fix: get_data_counts where some file has no trains

---
 karabo_data/reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 80f5397..b3701c4 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -504,7 +504,9 @@ class DataCollection:
                 _, counts = f.get_index(source, group)
             seq_series.append(pd.Series(counts, index=f.train_ids))
 
-        ser = pd.concat(sorted(seq_series, key=lambda s: s.index[0]))
+        # Files without any trains don't contribute (and can't be sorted)
+        seq_series = [s for s in seq_series if len(s)] or seq_series[:1]
+        ser = pd.concat(sorted(seq_series, key=lambda s: s.index[0] if len(s) else 0))
         # Select out only the train IDs of interest
         train_ids = ser.index.intersection(self.train_ids)
         return ser.loc[train_ids]
-- 
2.43.0


From c2133efd8c1fa975ef5af6406e5c23b35bbcf7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:38 +0000
Subject: [PATCH 08/62] fix: get_series where some file has no data

---
 karabo_data/reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index b3701c4..331f70b 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -571,7 +571,9 @@ class DataCollection:
         else:
             raise Exception("Unknown source category")
 
-        ser = pd.concat(sorted(seq_series, key=lambda s: s.index[0]))
+        # Files without any data don't contribute (and can't be sorted)
+        seq_series = [s for s in seq_series if len(s)] or seq_series[:1]
+        ser = pd.concat(sorted(seq_series, key=lambda s: s.index[0] if len(s) else 0))
 
         # Select out only the train IDs of interest
         if isinstance(ser.index, pd.MultiIndex):
-- 
2.43.0


From 1a531a071bee3bbf25799147c0b0cb99941be6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:38 +0000
Subject: [PATCH 09/62] fix: get_series with pulse IDs, where files differ or
 data is 1D

---
 karabo_data/reader.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 331f70b..7520226 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -549,23 +549,30 @@ class DataCollection:
 
         elif source in self.instrument_sources:
             data_path = "/INSTRUMENT/{}/{}".format(source, key.replace('.', '/'))
+            group = key.partition('.')[0]
+            indexes = {}
             for f in self._source_index[source]:
-                group = key.partition('.')[0]
                 firsts, counts = f.get_index(source, group)
                 trainids = self._expand_trainids(counts, f.train_ids)
+                indexes[f] = pd.Index(trainids, name='trainId')
+
+            # If any file has several entries for a train, all files need an
+            # index including pulse IDs, so they can be joined together.
+            by_pulse = not all(index.is_unique for index in indexes.values())
 
-                index = pd.Index(trainids, name='trainId')
-                data = f.file[data_path][:]
-                if not index.is_unique:
+            for f, index in indexes.items():
+                data = f.file[data_path][: len(index)]
+                # Raw pulse-oriented data has a spurious extra dimension
+                if data.ndim == 2 and data.shape[1] == 1:
+                    data = data[:, 0]
+                if by_pulse:
                     pulse_id = f.file['/INSTRUMENT/{}/{}/pulseId'.format(source, group)]
-                    pulse_id = pulse_id[: len(index), 0]
+                    pulse_id = pulse_id[: len(index)]
+                    if pulse_id.ndim == 2 and pulse_id.shape[1] == 1:
+                        pulse_id = pulse_id[:, 0]
                     index = pd.MultiIndex.from_arrays(
-                        [trainids, pulse_id], names=['trainId', 'pulseId']
+                        [index, pulse_id], names=['trainId', 'pulseId']
                     )
-                    # Does pulse-oriented data always have an extra dimension?
-                    assert data.shape[1] == 1
-                    data = data[:, 0]
-                data = data[: len(index)]
 
                 seq_series.append(pd.Series(data, name=name, index=index))
         else:
-- 
2.43.0


From 6222ace7da06b7627a6e243aadf25c2e67411077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 10/62] fix: raise TypeError for an unknown selection type

---
 karabo_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 7520226..398d86d 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -820,7 +820,7 @@ class DataCollection:
                 for (src_glob, key_glob) in selection
             )
         else:
-            TypeError("Unknown selection type: {}".format(type(selection)))
+            raise TypeError("Unknown selection type: {}".format(type(selection)))
 
         return dict(res)
 
-- 
2.43.0


From 28b334ccece1f0149cc10064b6b4d6801be847a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 11/62] fix: select with a dict of sources & empty sets, and
 don't bring back dropped keys

---
 karabo_data/reader.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 398d86d..0e19b43 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -803,7 +803,7 @@ class DataCollection:
         return DataCollection(files, selection=selection, train_ids=train_ids)
 
     def _expand_selection(self, selection):
-        res = defaultdict(set)
+        res = {}
         if isinstance(selection, dict):
             # {source: {key1, key2}}
             # {source: {}} -> all keys for this source
@@ -811,7 +811,14 @@ class DataCollection:
                 if source not in self.all_sources:
                     raise SourceNameError(source)
 
-                res[source].update(keys or None)
+                if keys:
+                    for key in keys:
+                        if key not in self.keys_for_source(source):
+                            raise PropertyNameError(key, source)
+                    res[source] = set(keys)
+                else:
+                    # All the keys which are currently selected
+                    res[source] = self.selection[source]
 
         elif isinstance(selection, list):
             # selection = [('src_glob', 'key_glob'), ...]
@@ -822,7 +829,7 @@ class DataCollection:
         else:
             raise TypeError("Unknown selection type: {}".format(type(selection)))
 
-        return dict(res)
+        return res
 
     def _select_glob(self, source_glob, key_glob):
         source_re = re.compile(fnmatch.translate(source_glob))
-- 
2.43.0


From 9192495a52e58ff416832084aab484e237a80ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 12/62] fix: selecting all keys of a source doesn't bring back
 dropped keys

---
 karabo_data/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 0e19b43..89a65bc 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -848,7 +848,8 @@ class DataCollection:
                 continue
 
             if key_glob == '*':
-                matched[source] = None
+                # All the keys which are currently selected
+                matched[source] = self.selection[source]
             else:
                 r = ctrl_key_re if source in self.control_sources else key_re
                 keys = set(filter(r.match, self.keys_for_source(source)))
-- 
2.43.0


From be56541d2564d5e6cc225b08ee75809de2b485df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 13/62] fix: select each train only once with by_index[[...]]

---
 karabo_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 89a65bc..6a042f6 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -991,7 +991,7 @@ class DataCollection:
                 )
         elif isinstance(tr, by_index) and isinstance(tr.value, (list, np.ndarray)):
             # Select a list of trains by index in this collection
-            new_train_ids = sorted([self.train_ids[i] for i in tr.value])
+            new_train_ids = sorted({self.train_ids[i] for i in tr.value})
         else:
             raise TypeError(type(train_range))
 
-- 
2.43.0


From 5d87ed6a8d9eb4bd9081f6c89fcf1c3c85f45bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 14/62] fix: select_trains by ID with a bound in a gap between
 train IDs

---
 karabo_data/read_machinery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index 67c2618..a9b1cf8 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -84,7 +84,7 @@ def _tid_to_slice_ix(tid, train_ids, stop=False):
     else:
         # This train ID is within the run, but doesn't have an entry.
         # Find the first ID in the run greater than the one given.
-        return (train_ids > tid).nonzero()[0][0]
+        return (np.asarray(train_ids) > tid).nonzero()[0][0]
 
 
 class DataChunk:
-- 
2.43.0


From e90c2eb20deebbf7e3e4030c8abf49cbdf84aba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:14 +0000
Subject: [PATCH 15/62] fix: opening a run works whatever is wrong with its
 cached files map

---
 karabo_data/run_files_map.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/karabo_data/run_files_map.py b/karabo_data/run_files_map.py
index 0f768ce..69cdc28 100644
--- a/karabo_data/run_files_map.py
+++ b/karabo_data/run_files_map.py
@@ -9,6 +9,10 @@ import time
 
 SCRATCH_ROOT_DIR = "/gpfs/exfel/exp/"
 
+# Information stored for each file
+ENTRY_FIELDS = {'filename', 'mtime', 'size', 'train_ids',
+                'control_sources', 'instrument_sources'}
+
 log = logging.getLogger(__name__)
 
 def atomic_dump(obj, path, **kwargs):
@@ -23,12 +27,11 @@ def atomic_dump(obj, path, **kwargs):
     try:
         with open(fd, 'w') as f:
             json.dump(obj, f, **kwargs)
+        os.replace(tmp_filename, path)
     except:
         os.unlink(tmp_filename)
         raise
 
-    os.replace(tmp_filename, path)
-
 
 class RunFilesMap:
     """Cached data about HDF5 files in a run directory
@@ -86,13 +89,20 @@ class RunFilesMap:
                 with open(path) as f:
                     loaded_data = json.load(f)
 
+                if not isinstance(loaded_data, list):
+                    raise ValueError("files map is not a list")
+
                 self.cache_file = path
                 log.debug("Loaded cached files map from %s", path)
                 break
-            except (FileNotFoundError, json.JSONDecodeError):
-                pass
+            except (OSError, ValueError):
+                # Missing, unreadable or damaged: ValueError covers JSON and
+                # text decoding errors
+                loaded_data = []
 
         for info in loaded_data:
+            if not (isinstance(info, dict) and ENTRY_FIELDS.issubset(info)):
+                continue
             filename = info['filename']
             try:
                 st = os.stat(osp.join(self.directory, filename))
@@ -128,8 +138,8 @@ class RunFilesMap:
         """Save the cache if needed
 
         This skips writing the cache out if all the data files already have
-        valid cache entries. It also silences permission errors from writing
-        the cache file.
+        valid cache entries. It also silences errors (e.g. permissions) from
+        writing the cache file.
         """
         need_save = False
 
@@ -168,7 +178,7 @@ class RunFilesMap:
                 try:
                     os.makedirs(osp.dirname(path), exist_ok=True)
                     atomic_dump(save_data, path, indent=2)
-                except PermissionError:
+                except OSError:
                     continue
                 else:
                     dt = time.monotonic() - t0
-- 
2.43.0


From e1476cef55da51b03c5375aa15b14081dcbcfd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:46 +0000
Subject: [PATCH 16/62] fix: reading control data from files where some trains
 have no entry

---
 karabo_data/reader.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 6a042f6..c0744be 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -332,10 +332,14 @@ class DataCollection:
     def _check_data_missing(self, tid) -> bool:
         """Return True if a train does not have data for all sources"""
         for source in self.control_sources:
-            file, _ = self._find_data(source, tid)
+            file, pos = self._find_data(source, tid)
             if file is None:
                 return True
 
+            _, counts = file.get_index(source, '')
+            if counts[pos] == 0:
+                return True
+
         for source in self.instrument_sources:
             file, pos = self._find_data(source, tid)
             if file is None:
@@ -430,9 +434,13 @@ class DataCollection:
             if file is None:
                 continue
 
+            firsts, counts = file.get_index(source, '')
+            if not counts[pos]:
+                continue
+
             for key in self.keys_for_source(source):
                 path = '/CONTROL/{}/{}'.format(source, key.replace('.', '/'))
-                source_data[key] = file.file[path][pos]
+                source_data[key] = file.file[path][firsts[pos]]
 
         for source in self.instrument_sources:
             source_data = res[source] = {
@@ -498,10 +506,10 @@ class DataCollection:
 
         for f in self._source_index[source]:
             if source in self.control_sources:
-                counts = np.ones(len(f.train_ids), dtype=np.uint64)
+                group = ''
             else:
                 group = key.partition('.')[0]
-                _, counts = f.get_index(source, group)
+            _, counts = f.get_index(source, group)
             seq_series.append(pd.Series(counts, index=f.train_ids))
 
         # Files without any trains don't contribute (and can't be sorted)
@@ -542,8 +550,12 @@ class DataCollection:
         if source in self.control_sources:
             data_path = "/CONTROL/{}/{}".format(source, key.replace('.', '/'))
             for f in self._source_index[source]:
-                data = f.file[data_path][: len(f.train_ids), ...]
-                index = pd.Index(f.train_ids, name='trainId')
+                # Normally 1 entry per train, but DataCollection.write() can
+                # make files where a control source lacks some trains.
+                _, counts = f.get_index(source, '')
+                trainids = self._expand_trainids(counts, f.train_ids)
+                data = f.file[data_path][: len(trainids), ...]
+                index = pd.Index(trainids, name='trainId')
 
                 seq_series.append(pd.Series(data, name=name, index=index))
 
@@ -1290,10 +1302,12 @@ class TrainIterator:
                 'metadata': {'source': source, 'timestamp.tid': tid}
             }
             for key in self.data.keys_for_source(source):
-                _, pos, ds = self._find_data(source, key, tid)
+                file, pos, ds = self._find_data(source, key, tid)
                 if ds is None:
                     continue
-                source_data[key] = ds[pos]
+                firsts, counts = file.get_index(source, '')
+                if counts[pos]:
+                    source_data[key] = ds[firsts[pos]]
 
         for source in self.data.instrument_sources:
             source_data = res[source] = {
-- 
2.43.0


From b5dfae339a2f6a55da3267ecde51a06c2cd0ab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:46 +0000
Subject: [PATCH 17/62] fix: write control data which is missing for some
 trains

---
 karabo_data/writer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/karabo_data/writer.py b/karabo_data/writer.py
index 585a6a6..2996bfb 100644
--- a/karabo_data/writer.py
+++ b/karabo_data/writer.py
@@ -17,7 +17,6 @@ class FileWriter:
 
     def add_control_dataset(self, source, key):
         a = self.data.get_array(source, key)
-        assert a.shape[0] == len(self.data.train_ids)
         path = 'CONTROL/{}/{}'.format(source, key.replace('.', '/'))
         self.file[path] = a.values
         self._make_control_index(source, a.coords['trainId'].values)
-- 
2.43.0


From 285ae391b87e4d8bb68c2e1391fbbea8c5c4b252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:46 +0000
Subject: [PATCH 18/62] fix: get_virtual_dataset for a field without data in
 the selected trains

---
 karabo_data/writer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/karabo_data/writer.py b/karabo_data/writer.py
index 2996bfb..300d1a8 100644
--- a/karabo_data/writer.py
+++ b/karabo_data/writer.py
@@ -20,6 +20,7 @@ class FileWriter:
         path = 'CONTROL/{}/{}'.format(source, key.replace('.', '/'))
         self.file[path] = a.values
         self._make_control_index(source, a.coords['trainId'].values)
+        return path
 
     def _make_control_index(self, source, data_tids):
         # Original files contain exactly 1 entry per train for control data,
@@ -40,6 +41,7 @@ class FileWriter:
         path = 'INSTRUMENT/{}/{}'.format(source, key.replace('.', '/'))
         self.file[path] = a.values
         self._make_instrument_index(source, key, a.coords['trainId'].values)
+        return path
 
     def _make_instrument_index(self, source, key, data_tids):
         index_path = source + '/' + key.partition('.')[0]
@@ -157,7 +159,8 @@ class VirtualFileWriter(FileWriter):
     def add_control_dataset(self, source, key):
         layout, train_ids = self._assemble_data(source, key)
         if not layout:
-            return  # No data
+            # No data: make an empty, non-virtual dataset
+            return super().add_control_dataset(source, key)
 
         path = 'CONTROL/{}/{}'.format(source, key.replace('.', '/'))
         self.file.create_virtual_dataset(path, layout)
@@ -168,7 +171,8 @@ class VirtualFileWriter(FileWriter):
     def add_instrument_dataset(self, source, key):
         layout, train_ids = self._assemble_data(source, key)
         if not layout:
-            return  # No data
+            # No data: make an empty, non-virtual dataset
+            return super().add_instrument_dataset(source, key)
 
         path = 'INSTRUMENT/{}/{}'.format(source, key.replace('.', '/'))
         self.file.create_virtual_dataset(path, layout)
-- 
2.43.0


From 3155329a1eb6b6da3977fe80842b857a68684473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:46 +0000
Subject: [PATCH 19/62] fix: a run opened by a relative path doesn't depend on
 the working directory

---
 karabo_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index c0744be..6b9ed86 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -76,7 +76,7 @@ class FileAccess:
     _format_version = None
 
     def __init__(self, filename, _cache_info=None):
-        self.filename = filename
+        self.filename = osp.abspath(filename)
 
         if _cache_info:
             self.train_ids = _cache_info['train_ids']
-- 
2.43.0


From db2fdab0439b499f2333ee99498908867f3b6339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:06 +0000
Subject: [PATCH 20/62] fix: validating a run without an up to date cache entry
 for each file

---
 karabo_data/validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index e669a59..b0c74f5 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -191,6 +191,8 @@ class RunValidator:
         cache = RunFilesMap(self.run_dir)
         for f_access in self.run.files:
             f_cache = cache.get(f_access.filename)
+            if f_cache is None:
+                continue  # Not cached, or outdated: not a problem
             if (
                     f_cache['control_sources'] != f_access.control_sources
                  or f_cache['instrument_sources'] != f_access.instrument_sources
-- 
2.43.0


From e7db43c82a2a5cd2c13ffa5c4a01ec5860f17269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:06 +0000
Subject: [PATCH 21/62] fix: validating a file without trains

---
 karabo_data/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index b0c74f5..7a33d88 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -120,7 +120,7 @@ class FileValidator:
 def check_index_contiguous(firsts, counts, record):
     probs = []
 
-    if firsts[0] != 0:
+    if firsts.size > 0 and firsts[0] != 0:
         record("Index doesn't start at 0")
 
     gaps = firsts[1:].astype(np.int64) - (firsts + counts)[:-1]
-- 
2.43.0


From 99b8883c10d4549e47fcd8c7bff671bdcabc79f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:06 +0000
Subject: [PATCH 22/62] fix: validation reports an index or source it cannot
 read, rather than failing

---
 karabo_data/validation.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index 7a33d88..9ea4e74 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -73,11 +73,23 @@ class FileValidator:
     def check_indices(self):
         for src in self.file.instrument_sources:
             src_groups = set()
-            for key in self.file.get_keys(src):
+            try:
+                keys = self.file.get_keys(src)
+            except Exception as e:
+                self.record(
+                    "Could not find data", dataset='INSTRUMENT/' + src, error=e
+                )
+                continue
+            for key in keys:
                 ds_path = 'INSTRUMENT/{}/{}'.format(src, key.replace('.', '/'))
                 group = key.split('.', 1)[0]
                 src_groups.add((src, group))
-                first, count = self.file.get_index(src, group)
+                try:
+                    first, count = self.file.get_index(src, group)
+                except Exception:
+                    continue  # Recorded below
+                if first.shape != count.shape:
+                    continue  # Recorded below
                 data_dim0 = self.file.file[ds_path].shape[0]
                 if np.any((first + count) > data_dim0):
                     max_end = (first + count).max()
@@ -90,7 +102,11 @@ class FileValidator:
 
             for src, group in src_groups:
                 record = partial(self.record, dataset='INDEX/{}/{}'.format(src, group))
-                first, count = self.file.get_index(src, group)
+                try:
+                    first, count = self.file.get_index(src, group)
+                except Exception as e:
+                    record("Could not read index", error=e)
+                    continue
 
                 if (first.ndim != 1) or (count.ndim != 1):
                     record(
@@ -106,6 +122,7 @@ class FileValidator:
                         first_shape=first.shape,
                         count_shape=count.shape,
                     )
+                    continue
 
                 if first.shape != self.file.train_ids.shape:
                     record(
-- 
2.43.0


From cec095552891347542cc7a015cced4ddc6ffb180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 23/62] fix: validation finds huge values in an index

---
 karabo_data/validation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index 9ea4e74..eafd01a 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -91,8 +91,11 @@ class FileValidator:
                 if first.shape != count.shape:
                     continue  # Recorded below
                 data_dim0 = self.file.file[ds_path].shape[0]
-                if np.any((first + count) > data_dim0):
-                    max_end = (first + count).max()
+                # Check first & count separately as well, as huge (unsigned)
+                # values could overflow when they are added
+                ends = np.maximum(np.maximum(first, count), first + count)
+                if np.any(ends > data_dim0):
+                    max_end = ends.max()
                     self.record(
                         'Index referring to data ({}) outside dataset ({})'.format(
                             max_end, data_dim0
-- 
2.43.0


From 57859034b4ef549393b6e015b4f161415e2b2132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:32 +0000
Subject: [PATCH 24/62] fix: validate the indexes of control sources

---
 karabo_data/validation.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index eafd01a..c1d923e 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -71,18 +71,21 @@ class FileValidator:
                 )
 
     def check_indices(self):
-        for src in self.file.instrument_sources:
+        for src in self.file.all_sources:
+            is_control = src in self.file.control_sources
+            section = 'CONTROL' if is_control else 'INSTRUMENT'
             src_groups = set()
             try:
                 keys = self.file.get_keys(src)
             except Exception as e:
                 self.record(
-                    "Could not find data", dataset='INSTRUMENT/' + src, error=e
+                    "Could not find data", dataset='{}/{}'.format(section, src), error=e
                 )
                 continue
             for key in keys:
-                ds_path = 'INSTRUMENT/{}/{}'.format(src, key.replace('.', '/'))
-                group = key.split('.', 1)[0]
+                ds_path = '{}/{}/{}'.format(section, src, key.replace('.', '/'))
+                # Control data has a single index for all keys
+                group = '' if is_control else key.split('.', 1)[0]
                 src_groups.add((src, group))
                 try:
                     first, count = self.file.get_index(src, group)
@@ -104,7 +107,7 @@ class FileValidator:
                     )
 
             for src, group in src_groups:
-                record = partial(self.record, dataset='INDEX/{}/{}'.format(src, group))
+                record = partial(self.record, dataset='INDEX/{}/{}'.format(src, group).rstrip('/'))
                 try:
                     first, count = self.file.get_index(src, group)
                 except Exception as e:
-- 
2.43.0


From 25f14cc5c2aee0798da602b2a207d759d1cb30b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:45 +0000
Subject: [PATCH 25/62] fix: validate each file in a run where files have
 conflicting data

---
 karabo_data/validation.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index c1d923e..2eec590 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -179,7 +179,14 @@ class RunValidator:
             else:
                 files.append(fa)
 
-        self.run = DataCollection(files)
+        self.files = files
+        self.conflict = None
+        try:
+            self.run = DataCollection(files)
+        except ValueError as e:
+            # Same source & train in different files. Check each file anyway.
+            self.run = None
+            self.conflict = e
         self.problems = []
 
     def validate(self):
@@ -190,6 +197,7 @@ class RunValidator:
     def run_checks(self):
         self.problems = []
         self.check_files_openable()
+        self.check_conflicts()
         self.check_files()
         self.check_files_map()
         return self.problems
@@ -198,13 +206,19 @@ class RunValidator:
         for path, err in self.files_excluded:
             self.problems.append(dict(msg="Could not open file", file=path, error=err))
 
-        if not self.run.files:
+        if not self.files:
             self.problems.append(
                 dict(msg="No usable files found", directory=self.run_dir)
             )
 
+    def check_conflicts(self):
+        if self.conflict is not None:
+            self.problems.append(
+                dict(msg=str(self.conflict), directory=self.run_dir)
+            )
+
     def check_files(self):
-        for f in self.run.files:
+        for f in self.files:
             fv = FileValidator(f)
             self.problems.extend(fv.run_checks())
 
@@ -212,7 +226,7 @@ class RunValidator:
         # Outdated cache entries we can detect with the file's stat() are not a
         # problem. Loading the cache file will discard those automatically.
         cache = RunFilesMap(self.run_dir)
-        for f_access in self.run.files:
+        for f_access in self.files:
             f_cache = cache.get(f_access.filename)
             if f_cache is None:
                 continue  # Not cached, or outdated: not a problem
-- 
2.43.0


From b6b188d65873713cfddfae2898c8a229be2fe62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:45 +0000
Subject: [PATCH 26/62] fix: karabo-data-validate with the path of a file it
 cannot open

---
 karabo_data/validation.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index 2eec590..684538f 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -6,7 +6,7 @@ import numpy as np
 import os
 import sys
 
-from .reader import DataCollection, H5File, FileAccess
+from .reader import DataCollection, FileAccess
 from .run_files_map import RunFilesMap
 
 
@@ -255,7 +255,15 @@ def main(argv=None):
         validator = RunValidator(path)
     else:
         print("Checking file:", path)
-        validator = FileValidator(H5File(path).files[0])
+        try:
+            file = FileAccess(path)
+        except Exception as e:
+            print("Validation failed!")
+            print(str(ValidationError([
+                dict(msg="Could not open file", file=path, error=e)
+            ])))
+            return 1
+        validator = FileValidator(file)
 
     try:
         validator.validate()
-- 
2.43.0


From ee7fb03c7aade681d896710ace1bb75259606d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:09 +0000
Subject: [PATCH 27/62] fix: detector get_array where trains are missing for
 some modules

---
 karabo_data/components.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index e1c0c35..bcbe145 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -7,6 +7,7 @@ import re
 import xarray
 
 from .exceptions import SourceNameError
+from .read_machinery import contiguous_regions
 from .reader import DataCollection, by_id, by_index
 
 log = logging.getLogger(__name__)
@@ -229,22 +230,16 @@ class MPxDetectorBase:
             group = key.partition('.')[0]
             firsts, counts = f.get_index(source, group)
 
-            for chunk_tids in self.train_id_chunks:
-                if chunk_tids[-1] < f.train_ids[0] or chunk_tids[0] > f.train_ids[-1]:
-                    # No overlap
-                    continue
-                first_tid = max(chunk_tids[0], f.train_ids[0])
-                first_train_idx = np.nonzero(f.train_ids == first_tid)[0][0]
-                last_tid = min(chunk_tids[-1], f.train_ids[-1])
-                last_train_idx = np.nonzero(f.train_ids == last_tid)[0][0]
-                chunk_firsts = firsts[first_train_idx : last_train_idx + 1]
-                chunk_counts = counts[first_train_idx : last_train_idx + 1]
+            # The file may lack some trains which other modules have
+            selected = np.isin(f.train_ids, self.train_ids)
+            for _from, _to in contiguous_regions(selected):
+                chunk_firsts = firsts[_from:_to]
+                chunk_counts = counts[_from:_to]
                 data_slice = slice(
                     chunk_firsts[0], int(chunk_firsts[-1] + chunk_counts[-1])
                 )
                 trainids = np.repeat(
-                    np.arange(first_tid, last_tid + 1, dtype=np.uint64),
-                    chunk_counts.astype(np.intp),
+                    f.train_ids[_from:_to], chunk_counts.astype(np.intp)
                 )
                 pulse_id = f.file['/INSTRUMENT/{}/{}/pulseId'.format(source, group)][
                     data_slice
-- 
2.43.0


From b27e5a2776a058b35decf68d3e2bb91636eee0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:09 +0000
Subject: [PATCH 28/62] fix: refuse negative numbers in pulse selections

---
 karabo_data/components.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index bcbe145..f1dd811 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -65,9 +65,9 @@ def _check_pulse_selection(pulses):
 
     # Convert everything except slices to numpy arrays
     elif isinstance(pulses.value, int):
-        val = np.array([val], dtype=np.uint64)
+        val = np.array([val])
     else:
-        val = np.asarray(val, dtype=np.uint64)
+        val = np.asarray(val)
 
     if (val < 0).any():
         if isinstance(pulses, by_id):
@@ -75,7 +75,7 @@ def _check_pulse_selection(pulses):
         else:
             raise NotImplementedError("Negative pulse indices not supported")
 
-    return type(pulses)(val)
+    return type(pulses)(val.astype(np.uint64))
 
 
 class MPxDetectorBase:
-- 
2.43.0


From 921468fb97a3348a04560828c4199b02518ea540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:30 +0000
Subject: [PATCH 29/62] fix: pulse selections with numbers out of order or
 repeated

---
 karabo_data/components.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index f1dd811..3f92da1 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -75,7 +75,8 @@ def _check_pulse_selection(pulses):
         else:
             raise NotImplementedError("Negative pulse indices not supported")
 
-    return type(pulses)(val.astype(np.uint64))
+    # Sorted & without repeats, as h5py needs increasing positions
+    return type(pulses)(np.unique(val).astype(np.uint64))
 
 
 class MPxDetectorBase:
-- 
2.43.0


From 8047b48b39c48a3f6409d28b6cf9d7695181ecf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:39 +0000
Subject: [PATCH 30/62] fix: detector modules without files for the selected
 trains

---
 karabo_data/components.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/karabo_data/components.py b/karabo_data/components.py
index 3f92da1..3ea71db 100644
--- a/karabo_data/components.py
+++ b/karabo_data/components.py
@@ -97,7 +97,6 @@ class MPxDetectorBase:
 
         data = data.select([(src, '*') for src in source_to_modno])
         self.detector_name = detector_name
-        self.source_to_modno = source_to_modno
 
         # pandas' missing-data handling converts the data to floats if there
         # are any gaps - so fill them with 0s and convert back to uint64.
@@ -117,6 +116,12 @@ class MPxDetectorBase:
         self.frames_per_train = data_count_values.pop()
         self.data = self._select_trains(data, mod_data_counts, min_modules)
 
+        # Leave out modules which have no files for the selected trains
+        self.source_to_modno = source_to_modno = {
+            s: m for (s, m) in source_to_modno.items()
+            if s in self.data.instrument_sources
+        }
+
         # This should be a reversible 1-to-1 mapping
         self.modno_to_source = {m: s for (s, m) in source_to_modno.items()}
         assert len(self.modno_to_source) == len(self.source_to_modno)
-- 
2.43.0


From 23a561a7ac21d9d03b390311625ca22f432ed35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:04 +0000
Subject: [PATCH 31/62] fix: stack_detector_data fills missing integer data
 with 0, as documented

---
 karabo_data/stacking.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karabo_data/stacking.py b/karabo_data/stacking.py
index 6eb920f..248fb36 100644
--- a/karabo_data/stacking.py
+++ b/karabo_data/stacking.py
@@ -53,7 +53,7 @@ def stack_data(train, data, axis=-3, xcept=()):
     return np.stack(ordered_arrays, axis=axis)
 
 
-def stack_detector_data(train, data, axis=-3, modules=16, fillvalue=np.nan,
+def stack_detector_data(train, data, axis=-3, modules=16, fillvalue=None,
                         real_array=True):
     """Stack data from detector modules in a train.
 
@@ -117,6 +117,8 @@ def stack_detector_data(train, data, axis=-3, modules=16, fillvalue=np.nan,
 
     dtype = dtypes.pop()
     shape = shapes.pop()
+    if fillvalue is None:
+        fillvalue = np.nan if dtype.kind in 'fc' else 0
     stack = StackView(
         modno_arrays, modules, shape, dtype, fillvalue, stack_axis=axis
     )
-- 
2.43.0


From e2653b432932bfdc979340ea00f35ce071185298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:04 +0000
Subject: [PATCH 32/62] fix: check module numbers when indexing stacked
 detector data

---
 karabo_data/stacking.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karabo_data/stacking.py b/karabo_data/stacking.py
index 248fb36..410b204 100644
--- a/karabo_data/stacking.py
+++ b/karabo_data/stacking.py
@@ -169,7 +169,9 @@ class StackView:
         modno = slices[self._stack_axis]
         mod_slices = slices[:self._stack_axis] + slices[self._stack_axis + 1:]
 
-        if isinstance(modno, int):
+        if isinstance(modno, (int, np.integer)):
+            if not (-self._nmodules <= modno < self._nmodules):
+                raise IndexError(modno)
             if modno < 0:
                 modno += self._nmodules
             return self._get_single_mod(modno, mod_slices)
@@ -184,8 +186,6 @@ class StackView:
         try:
             mod_data = self._data[modno]
         except KeyError:
-            if modno >= self._nmodules:
-                raise IndexError(modno)
             mod_data = np.full(self._mod_shape, self._fillvalue, self.dtype)
             self._data[modno] = mod_data
 
-- 
2.43.0


From 35c1081b9c51234f03b9022dedc55e14acc73aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:04 +0000
Subject: [PATCH 33/62] fix: slicing stacked detector data keeps the modules on
 their axis

---
 karabo_data/stacking.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/karabo_data/stacking.py b/karabo_data/stacking.py
index 410b204..344fa46 100644
--- a/karabo_data/stacking.py
+++ b/karabo_data/stacking.py
@@ -196,8 +196,11 @@ class StackView:
         new_data = {modno: self._get_single_mod(modno, mod_slices)
                     for modno in self._data}
         new_mod_shape = list(new_data.values())[0].shape
+        # Indexing with an integer drops a dimension
+        dropped = sum(isinstance(s, (int, np.integer))
+                      for s in mod_slices[:self._stack_axis])
         return StackView(new_data, self._nmodules, new_mod_shape, self.dtype,
-                         self._fillvalue)
+                         self._fillvalue, stack_axis=self._stack_axis - dropped)
 
     def asarray(self):
         """Copy this data into a real numpy array
-- 
2.43.0


From 541e1b775e495fb55da9bea08200fc64ff1a6f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:51 +0000
Subject: [PATCH 34/62] fix: ValueError stacking detector data with mismatched
 shapes, if some are scalars

---
 karabo_data/stacking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/stacking.py b/karabo_data/stacking.py
index 344fa46..ff4d667 100644
--- a/karabo_data/stacking.py
+++ b/karabo_data/stacking.py
@@ -105,7 +105,7 @@ def stack_detector_data(train, data, axis=-3, modules=16, fillvalue=None,
         raise ValueError("Arrays have mismatched dtypes: {}".format(dtypes))
     if len(shapes) > 1:
         s1, s2, *_ = sorted(shapes)
-        if len(shapes) > 2 or (s1[0] != 0) or (s1[1:] != s2[1:]):
+        if len(shapes) > 2 or (s1[:1] != (0,)) or (s1[1:] != s2[1:]):
             raise ValueError("Arrays have mismatched shapes: {}".format(shapes))
         empty_mods = {n for n, a in modno_arrays.items() if a.shape == s1}
         for modno in empty_mods:
-- 
2.43.0


From a7d602125687a824a76841341a9a803d322b4db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:01 +0000
Subject: [PATCH 35/62] fix: pixel size of an AGIPD geometry from quadrant
 positions in other units

---
 karabo_data/geometry2/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index e2e2a47..167f215 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -654,8 +654,8 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
                            + x_orient * tile_width * a
                 tiles.append(GeometryFragment(
                     corner_pos=np.array([corner_x, corner_y, 0.]),
-                    ss_vec=np.array([x_orient, 0, 0]) * unit,
-                    fs_vec=np.array([0, y_orient, 0]) * unit,
+                    ss_vec=np.array([x_orient, 0, 0]) * cls.pixel_size,
+                    fs_vec=np.array([0, y_orient, 0]) * cls.pixel_size,
                     ss_pixels=cls.frag_ss_pixels,
                     fs_pixels=cls.frag_fs_pixels,
                 ))
-- 
2.43.0


From a730214dc67e7957aa8f52296e7d67ac79d3217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:01 +0000
Subject: [PATCH 36/62] fix: position_modules_interpolate with coordinates in
 metres

---
 karabo_data/geometry2/__init__.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 167f215..4c723ce 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -802,19 +802,21 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
             for j, (tile, tile_data) in enumerate(zip(module, tiles_data)):
                 # We store (x, y, z), but numpy indexing, and hence affine_transform,
                 # work like [y, x]. Rearrange the numbers:
-                fs_vec_yx = tile.fs_vec[:2][::-1]
-                ss_vec_yx = tile.ss_vec[:2][::-1]
+                # They are in metres, and we want pixels of the output.
+                fs_vec_yx = tile.fs_vec[:2][::-1] / self.pixel_size
+                ss_vec_yx = tile.ss_vec[:2][::-1] / self.pixel_size
 
                 # Offset by centre to make all coordinates positive
-                corner_pos_yx = tile.corner_pos[:2][::-1] + centre
+                corner_pos_yx = tile.corner_pos[:2][::-1] / self.pixel_size + centre
 
                 # Make the rotation matrix
                 rotn = np.stack((ss_vec_yx, fs_vec_yx), axis=-1)
 
                 # affine_transform takes a mapping from *output* to *input*.
-                # So we reverse the forward transformation.
+                # So we reverse the forward transformation. The centre of
+                # pixel [0, 0] is half a pixel from the corner in each direction.
                 transform = np.linalg.inv(rotn)
-                offset = np.dot(rotn, corner_pos_yx)  # this seems to work, but is it right?
+                offset = np.dot(transform, 0.5 - corner_pos_yx) - 0.5
 
                 affine_transform(
                     tile_data,
-- 
2.43.0


From a54ff798e052f3eb8f0d67abafb6c808f9bf7bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:01 +0000
Subject: [PATCH 37/62] fix: plot comparing AGIPD geometries, with coordinates
 in metres

---
 karabo_data/geometry2/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 4c723ce..10816d6 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -721,23 +721,24 @@ class AGIPD_1MGeometry(DetectorGeometryBase):
         arrows = []
         for p, module in enumerate(self.modules):
             for a, fragment in enumerate(module):
-                corners = fragment.corners()[:, :2]  # Drop the Z dimension
+                # Drop the Z dimension & convert metres to pixels
+                corners = fragment.corners()[:, :2] / self.pixel_size
                 corner1, corner1_opp = corners[0], corners[2]
 
                 rects.append(Polygon(corners))
                 if a in {0, 7}:
-                    cx, cy, _ = fragment.centre()
+                    cx, cy, _ = fragment.centre() / self.pixel_size
                     ax.text(cx, cy, str(a),
                             verticalalignment='center',
                             horizontalalignment='center')
                 elif a == 4:
-                    cx, cy, _ = fragment.centre()
+                    cx, cy, _ = fragment.centre() / self.pixel_size
                     ax.text(cx, cy, 'p{}'.format(p),
                             verticalalignment='center',
                             horizontalalignment='center')
 
                 panel2 = other.modules[p][a]
-                corners2 = panel2.corners()[:, :2]
+                corners2 = panel2.corners()[:, :2] / self.pixel_size
                 corner2, corner2_opp = corners2[0], corners2[2]
                 dx, dy = corner2 - corner1
                 if not (dx == dy == 0):
-- 
2.43.0


From 5cff34a30376f0675508a971f0f14e1e9295db80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:01 +0000
Subject: [PATCH 38/62] fix: LPDGeometry with positions in other units

---
 karabo_data/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/geometry.py b/karabo_data/geometry.py
index 7157a40..8ce32e6 100644
--- a/karabo_data/geometry.py
+++ b/karabo_data/geometry.py
@@ -75,7 +75,7 @@ class GeometryFragment:
     @classmethod
     def from_h5_group(cls, group, unit=1e-3):
         children = {
-            key: GeometryFragment.from_h5_group(val)
+            key: GeometryFragment.from_h5_group(val, unit=unit)
             for (key, val) in group.items()
             if isinstance(val, h5py.Group)
         }
-- 
2.43.0


From 48867d79cde65b238725170ab7dae14f67a7bfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:01 +0000
Subject: [PATCH 39/62] fix: small numbers in pixel vectors in CrystFEL
 geometry files

---
 karabo_data/geometry2/crystfel_fmt.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/karabo_data/geometry2/crystfel_fmt.py b/karabo_data/geometry2/crystfel_fmt.py
index ace71a3..1609d24 100644
--- a/karabo_data/geometry2/crystfel_fmt.py
+++ b/karabo_data/geometry2/crystfel_fmt.py
@@ -45,9 +45,13 @@ PANEL_TEMPLATE = """
 def _crystfel_format_vec(vec):
     """Convert an array of 3 numbers to CrystFEL format like "+1.0x -0.1y"
     """
-    s = '{:+}x {:+}y'.format(*vec[:2])
+    def fmt(num):
+        # Not scientific notation (1e-05), because the - breaks parsing
+        return np.format_float_positional(num, sign=True, trim='0')
+
+    s = '{}x {}y'.format(fmt(vec[0]), fmt(vec[1]))
     if vec[2] != 0:
-        s += ' {:+}z'.format(vec[2])
+        s += ' {}z'.format(fmt(vec[2]))
     return s
 
 
-- 
2.43.0


From db5a160fb1ad28266a3a6cc048328a01d3dd6fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:01 +0000
Subject: [PATCH 40/62] fix: coffset in CrystFEL geometry files is in metres

---
 karabo_data/geometry2/__init__.py     | 3 ++-
 karabo_data/geometry2/crystfel_fmt.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 10816d6..79aa108 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -33,7 +33,8 @@ class GeometryFragment:
     @classmethod
     def from_panel_dict(cls, d):
         res = d['res']
-        corner_pos = np.array([d['cnx'], d['cny'], d['coffset']]) / res
+        # corner_x & corner_y are in pixels, but coffset is in metres
+        corner_pos = np.array([d['cnx'] / res, d['cny'] / res, d['coffset']])
         ss_vec = np.array([d['ssx'], d['ssy'], d['ssz']]) / res
         fs_vec = np.array([d['fsx'], d['fsy'], d['fsz']]) / res
         ss_pixels = d['max_ss'] - d['min_ss'] + 1
diff --git a/karabo_data/geometry2/crystfel_fmt.py b/karabo_data/geometry2/crystfel_fmt.py
index 1609d24..4a7d1b7 100644
--- a/karabo_data/geometry2/crystfel_fmt.py
+++ b/karabo_data/geometry2/crystfel_fmt.py
@@ -77,7 +77,7 @@ def frag_to_crystfel(fragment, p, a, ss_slice, fs_slice, dims, pixel_size):
         fs_vec=_crystfel_format_vec(fragment.fs_vec/ pixel_size),
         corner_x=c[0],
         corner_y=c[1],
-        coffset=c[2],
+        coffset=fragment.corner_pos[2],  # In metres
     )
 
 def write_crystfel_geom(self, filename, *,
-- 
2.43.0


From 3f6ad65041c99d8fa06f45b919767e3f8d38c0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:18 +0000
Subject: [PATCH 41/62] fix: use --source and --key options of
 karabo-bridge-serve-files

---
 karabo_data/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index df25cdb..59cc34b 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -260,4 +260,4 @@ def main(argv=None):
     )
     args = ap.parse_args(argv)
 
-    serve_files(args.path, args.port)
+    serve_files(args.path, args.port, source_glob=args.source, key_glob=args.key)
-- 
2.43.0


From 613fd0488f9679e44430503d3118e72632482d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:18 +0000
Subject: [PATCH 42/62] fix: stream numpy bool scalars

---
 karabo_data/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index 59cc34b..ee01116 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -145,7 +145,7 @@ class ZMQStreamer:
             for key, value in props.items():
                 if isinstance(value, np.ndarray):
                     arrays.append((key, value))
-                elif isinstance(value, np.number):
+                elif isinstance(value, np.generic):
                     # Convert numpy type to native Python type
                     main_data[key] = value.item()
                 else:
-- 
2.43.0


From 65c20ff20a887edf84d59305b548ad7378d99c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:18 +0000
Subject: [PATCH 43/62] fix: stream arrays of variable length strings

---
 karabo_data/export.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index ee01116..77fc26c 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -143,7 +143,10 @@ class ZMQStreamer:
             main_data = {}
             arrays = []
             for key, value in props.items():
-                if isinstance(value, np.ndarray):
+                if isinstance(value, np.ndarray) and value.dtype.hasobject:
+                    # e.g. variable length strings: there's no array of bytes
+                    main_data[key] = value.tolist()
+                elif isinstance(value, np.ndarray):
                     arrays.append((key, value))
                 elif isinstance(value, np.generic):
                     # Convert numpy type to native Python type
-- 
2.43.0


From f0702280f5170aca5690a515aaf570e835e9b5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:18 +0000
Subject: [PATCH 44/62] fix: send metadata in bridge protocol 1.0, and don't
 modify it for dummy timestamps

---
 karabo_data/export.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index 77fc26c..f749955 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -131,12 +131,18 @@ class ZMQStreamer:
                 'timestamp.sec': sec,
                 'timestamp.frac': frac,
             }
-            for src in data.keys():
-                if 'timestamp' not in metadata[src]:
-                    metadata[src].update(update_dummy)
+            # Don't modify the dicts we were given
+            metadata = {
+                src: md if 'timestamp' in md else dict(md, **update_dummy)
+                for (src, md) in metadata.items()
+            }
 
         if self.protocol_version == '1.0':
-            return [self.pack(data)]
+            # In this version, the metadata goes inside the data
+            return [self.pack({
+                src: dict(props, metadata=metadata[src]) if metadata.get(src) else props
+                for (src, props) in data.items()
+            })]
 
         msg = []
         for src, props in sorted(data.items()):
-- 
2.43.0


From 48d1bd44f6a0eed07b9537e27c4c4bde2e6b5225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:18 +0000
Subject: [PATCH 45/62] fix: serve_files sends all the data before stopping,
 and stopping doesn't hang

---
 karabo_data/export.py | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/karabo_data/export.py b/karabo_data/export.py
index f749955..e7be0a8 100644
--- a/karabo_data/export.py
+++ b/karabo_data/export.py
@@ -12,7 +12,7 @@ program. If not, see <https://opensource.org/licenses/BSD-3-Clause>
 
 from argparse import ArgumentParser
 import os.path as osp
-from queue import Queue
+from queue import Empty, Queue
 from threading import Event, Thread
 from time import time
 
@@ -24,6 +24,9 @@ from .reader import RunDirectory, H5File
 
 __all__ = ['ZMQStreamer', 'serve_files']
 
+POLL_INTERVAL = 0.1  # How often to check if we should stop (seconds)
+LINGER = 10  # How long to wait for the last data to be sent on stopping (seconds)
+
 
 class REPInterface(Thread):
     def __init__(self, context, port, buffer):
@@ -39,13 +42,27 @@ class REPInterface(Thread):
             interface.bind('tcp://*:{}'.format(self.port))
 
             while not self.stopped():
+                # Don't block in waiting for a request, so we can be stopped
+                if not interface.poll(POLL_INTERVAL * 1000):
+                    continue
                 req = interface.recv()
                 if req != b'next':
                     raise RuntimeError('Unknown request:', req)
-                interface.send_multipart(self.buffer.get())
+                data = self.next_data()
+                if data is not None:
+                    interface.send_multipart(data)
+                    self.buffer.task_done()
         finally:
-            interface.setsockopt(zmq.LINGER, 0)
-            interface.close()
+            # The last data handed to ZeroMQ may not have been sent yet
+            interface.close(linger=LINGER * 1000)
+
+    def next_data(self):
+        """Get the next data to send, or None if stopped while waiting for it"""
+        while not self.stopped():
+            try:
+                return self.buffer.get(timeout=POLL_INTERVAL)
+            except Empty:
+                pass
 
     def stop(self):
         self._stop_event.set()
@@ -117,6 +134,17 @@ class ZMQStreamer:
             self._interface.stop()
             self._interface.join()
             self._interface = None
+            # Wait for any data which is being sent (up to LINGER)
+            self._context.term()
+            self._context = zmq.Context()
+
+    def _wait_sent(self):
+        """Wait until all data fed in has been sent to a client"""
+        while self._interface.is_alive():
+            with self._buffer.all_tasks_done:
+                if self._buffer.unfinished_tasks == 0:
+                    return
+                self._buffer.all_tasks_done.wait(POLL_INTERVAL)
 
     def _serialize(self, data, metadata=None):
         if not metadata:
@@ -252,6 +280,7 @@ def serve_files(path, port, source_glob='*', key_glob='*', **kwargs):
     for tid, train_data in data.trains():
         if train_data:
             streamer.feed(train_data)
+    streamer._wait_sent()
     streamer.stop()
 
 
-- 
2.43.0


From 9555d2282cadcf124b6e5c9f9e8f5d1bbc0c7b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:26 +0000
Subject: [PATCH 46/62] fix: lsxfel with several paths including files of
 control data

---
 karabo_data/lsxfel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/lsxfel.py b/karabo_data/lsxfel.py
index 2e20ab6..66977f0 100644
--- a/karabo_data/lsxfel.py
+++ b/karabo_data/lsxfel.py
@@ -55,7 +55,7 @@ def summarise_file(path):
             len(h5file.train_ids), dinfo['frames_per_train'], dinfo['total_frames']
         ))
     else:
-        print("  {} trains, {} sources".format(ntrains, len(h5file.sources)))
+        print("  {} trains, {} sources".format(ntrains, len(h5file.all_sources)))
 
 
 def describe_run(path):
-- 
2.43.0


From bac6b1b01fbb03567af609d364fa1693e4fd6f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:26 +0000
Subject: [PATCH 47/62] fix: lsxfel for files with other names

---
 karabo_data/read_machinery.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index a9b1cf8..9ccfb6b 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -177,7 +177,9 @@ class FilenameInfo:
     def __init__(self, path):
         self.basename = osp.basename(path)
         nameparts = self.basename[:-3].split('-')
-        assert len(nameparts) == 4, self.basename
+        if len(nameparts) != 4:
+            self.description = "Unknown data source"
+            return
         rawcorr, runno, datasrc, segment = nameparts
         m = re.match(r'([A-Z]+)(\d+)', datasrc)
 
@@ -192,7 +194,7 @@ class FilenameInfo:
                 self._rawcorr_descr.get(rawcorr, '?'), name, moduleno
             )
         else:
-            self.description = "Unknown data source ({})", datasrc
+            self.description = "Unknown data source ({})".format(datasrc)
 
 
 def find_proposal(propno):
-- 
2.43.0


From 577ce77729f045830e3b210811ae050b91914deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:26 +0000
Subject: [PATCH 48/62] fix: lsxfel shows the name of a folder given with a
 trailing slash

---
 karabo_data/lsxfel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/karabo_data/lsxfel.py b/karabo_data/lsxfel.py
index 66977f0..25a6012 100644
--- a/karabo_data/lsxfel.py
+++ b/karabo_data/lsxfel.py
@@ -59,7 +59,7 @@ def summarise_file(path):
 
 
 def describe_run(path):
-    basename = os.path.basename(path)
+    basename = os.path.basename(os.path.abspath(path))
     print(basename, ": Run directory")
     print()
 
@@ -68,7 +68,7 @@ def describe_run(path):
 
 
 def summarise_run(path, indent=''):
-    basename = os.path.basename(path)
+    basename = os.path.basename(os.path.abspath(path))
 
     # Accessing all the files in a run can be slow. To get the number of trains,
     # pick one set of segments (time slices of data from the same source).
@@ -144,7 +144,7 @@ def main(argv=None):
     else:
         exit_code = 0
         for path in paths:
-            basename = os.path.basename(path)
+            basename = os.path.basename(os.path.abspath(path))
 
             if os.path.isdir(path):
                 contents = os.listdir(path)
-- 
2.43.0


From 2d98ceccffc3652826f8fa81b83723a8530ab911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:26 +0000
Subject: [PATCH 49/62] fix: info() for data without trains

---
 karabo_data/reader.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 6b9ed86..9b04fe4 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1080,11 +1080,14 @@ class DataCollection:
         """Show information about the selected data.
         """
         # time info
-        first_train = self.train_ids[0]
-        last_train = self.train_ids[-1]
         train_count = len(self.train_ids)
-        span_sec = (last_train - first_train) / 10
-        span_txt = str(datetime.timedelta(seconds=span_sec))
+        if train_count == 0:
+            first_train = last_train = span_txt = '-'
+        else:
+            first_train = self.train_ids[0]
+            last_train = self.train_ids[-1]
+            span_sec = (last_train - first_train) / 10
+            span_txt = str(datetime.timedelta(seconds=span_sec))
 
         detector_modules = {}
         for source in self.detector_sources:
-- 
2.43.0


From 6e070dc4e9eafb7e9c12accf0ca83345d1484789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:26 +0000
Subject: [PATCH 50/62] fix: train_info() shows only selected sources

---
 karabo_data/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 9b04fe4..7968747 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1180,7 +1180,9 @@ class DataCollection:
             raise ValueError("train {} not found in run.".format(train_id))
         files = [f for f in self.files if train_id in f.train_ids]
         ctrl = set().union(*[f.control_sources for f in files])
+        ctrl &= self.control_sources
         inst = set().union(*[f.instrument_sources for f in files])
+        inst &= self.instrument_sources
 
         # disp
         print('Train [{}] information'.format(train_id))
-- 
2.43.0


From 567ecce1a76a757efdcb29c78a5e59d98a3d0ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:39 +0000
Subject: [PATCH 51/62] fix: detector_info() where the first file has no
 frames, or trains vary

---
 karabo_data/reader.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index 7968747..cb87b1c 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -1140,17 +1140,18 @@ class DataCollection:
         - 'total_frames' (estimated assuming all trains have data)
         """
         source_files = self._source_index[source]
-        file0 = sorted(source_files, key=lambda fa: fa.filename)[0]
-
-        _, counts = file0.get_index(source, 'image')
-        counts = set(np.unique(counts))
-        counts.discard(0)
+        for file0 in sorted(source_files, key=lambda fa: fa.filename):
+            _, counts = file0.get_index(source, 'image')
+            counts = set(np.unique(counts))
+            counts.discard(0)
+            if counts:
+                break  # If a file has no frames, look in the next one
 
         if len(counts) > 1:
             warn("Varying number of frames per train: %s" % counts)
 
         if counts:
-            fpt = int(counts.pop())
+            fpt = int(max(counts))
         else:
             fpt = 0
 
-- 
2.43.0


From f04bd878370d3c81920dda42e8f3a6276d02ed82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:56 +0000
Subject: [PATCH 52/62] fix: check that the data for get_dask_array() is
 selected

---
 karabo_data/reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index cb87b1c..fa80b15 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -762,6 +762,7 @@ class DataCollection:
             Key of parameter within that device, e.g. "image.data".
         """
         import dask.array as da
+        self._check_field(source, key)
         chunks = sorted(
             self._find_data_chunks(source, key),
             key=lambda x: x.train_ids[0] if x.train_ids.size else 0,
-- 
2.43.0


From a091afd72c41d8cbfb7c64a09cbb3fa312e6bf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:56 +0000
Subject: [PATCH 53/62] fix: SourceNameError from keys_for_source() and
 detector_info()

---
 karabo_data/reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/karabo_data/reader.py b/karabo_data/reader.py
index fa80b15..3d7571b 100644
--- a/karabo_data/reader.py
+++ b/karabo_data/reader.py
@@ -317,6 +317,8 @@ class DataCollection:
         combine two runs where the source was configured differently, the
         result can be unpredictable.
         """
+        if not (source in self.control_sources or source in self.instrument_sources):
+            raise SourceNameError(source)
         selected_keys = self.selection[source]
         if selected_keys is not None:
             return selected_keys
@@ -1140,6 +1142,8 @@ class DataCollection:
         - 'frames_per_train' (estimated from one file)
         - 'total_frames' (estimated assuming all trains have data)
         """
+        if source not in self.all_sources:
+            raise SourceNameError(source)
         source_files = self._source_index[source]
         for file0 in sorted(source_files, key=lambda fa: fa.filename):
             _, counts = file0.get_index(source, 'image')
-- 
2.43.0


From 37cb1987ccef8d1a03fc49adc288f8a1e56bef9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:26 +0000
Subject: [PATCH 54/62] fix: QuickView with data passed in

---
 karabo_data/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index 7ad4850..c85b46c 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -51,7 +51,7 @@ class QuickView:
     _current_index = 0
 
     def __init__(self, data=None):
-        if data:
+        if data is not None:
             self.data = data
 
     @property
-- 
2.43.0


From 8228e05687877c4bf47d1130d009e772916eeecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:26 +0000
Subject: [PATCH 55/62] fix: set the position of QuickView

---
 karabo_data/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index c85b46c..7615b78 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -63,7 +63,7 @@ class QuickView:
         if self._data is not None:
             if 0 <= pos < len(self):
                 self._current_index = pos
-                self.show()
+                self.display()
             else:
                 err = "value should be 0 < value < " "{}".format(self._data.shape[0])
                 raise ValueError(err)
-- 
2.43.0


From ec9153b0dcfec1e84dfe1ff367702412a02b8dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:26 +0000
Subject: [PATCH 56/62] fix: QuickView.next() at the last image

---
 karabo_data/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index 7615b78..b091821 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -82,7 +82,7 @@ class QuickView:
         self.display()
 
     def next(self):
-        if self._current_index < len(self):
+        if self._current_index < len(self) - 1:
             self._current_index += 1
             self.display()
 
-- 
2.43.0


From 92b79c1a29bc0caad8b139acd5f29b881eaed5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:26 +0000
Subject: [PATCH 57/62] fix: QuickView.previous() as documented

---
 karabo_data/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index b091821..2dbdbc3 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -91,6 +91,8 @@ class QuickView:
             self._current_index -= 1
             self.display()
 
+    previous = prev
+
     def display(self, index=None):
         import matplotlib.pyplot as plot
 
-- 
2.43.0


From 54af30cab68fcabb337b56b1366098967dfcc760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:26 +0000
Subject: [PATCH 58/62] fix: hdf5_to_cbf() with a header

---
 karabo_data/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index 2dbdbc3..dc2e228 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -140,6 +140,6 @@ def hdf5_to_cbf(in_h5file, cbf_filename, index, header=None):
     paths = list(tmpf["METADATA/dataSourceId"])
     image_path = [p for p in paths if p.endswith(b"image")][0]
     images = tmpf[image_path + b"/data"]
-    cbf_out = numpy_to_cbf(images, index=index)
+    cbf_out = numpy_to_cbf(images, index=index, header=header)
     cbf_out.write(cbf_filename)
     print("Convert {} index {} to {}".format(in_h5file, index, cbf_filename))
-- 
2.43.0


From 3d8df243ec80fe63ac35d2cd8bc78cfd262a3cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:26 +0000
Subject: [PATCH 59/62] fix: hdf5_to_cbf() for file format 1.0

---
 karabo_data/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/karabo_data/utils.py b/karabo_data/utils.py
index dc2e228..3b26744 100644
--- a/karabo_data/utils.py
+++ b/karabo_data/utils.py
@@ -137,7 +137,9 @@ def numpy_to_cbf(np_array, index=0, header=None):
 def hdf5_to_cbf(in_h5file, cbf_filename, index, header=None):
     """Conversion from HDF5 file to cbf binary image file"""
     tmpf = h5py.File(in_h5file, 'r')
-    paths = list(tmpf["METADATA/dataSourceId"])
+    metadata = tmpf["METADATA"]
+    # The list of data sources moved in file format 1.0
+    paths = list(metadata.get("dataSources", metadata)["dataSourceId"])
     image_path = [p for p in paths if p.endswith(b"image")][0]
     images = tmpf[image_path + b"/data"]
     cbf_out = numpy_to_cbf(images, index=index, header=header)
-- 
2.43.0


From a5692c0a12d4c367ec6e47a55b0bc91da36df759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 60/62] fix: data_coords_to_positions() with unsigned 64 bit
 module numbers

---
 karabo_data/geometry2/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karabo_data/geometry2/__init__.py b/karabo_data/geometry2/__init__.py
index 79aa108..0daef1c 100644
--- a/karabo_data/geometry2/__init__.py
+++ b/karabo_data/geometry2/__init__.py
@@ -578,7 +578,7 @@ class DetectorGeometryBase:
         tilenos, tile_ss, tile_fs = self._module_coords_to_tile(slow_scan, fast_scan)
 
         # The indexes of the relevant tiles in the arrays assembled above
-        all_tiles_ix = (module_no * self.n_tiles_per_module) + tilenos
+        all_tiles_ix = (module_no.astype(np.intp) * self.n_tiles_per_module) + tilenos
 
         # Select the relevant tile geometry for each set of coordinates
         coords_tile_corner = tiles_corner_pos[all_tiles_ix]
-- 
2.43.0


From d40c92499416ac351d54e70ea54aeb7932f20160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 61/62] fix: validating run directories with glob characters in
 the path

---
 karabo_data/validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/karabo_data/validation.py b/karabo_data/validation.py
index 684538f..64070a2 100644
--- a/karabo_data/validation.py
+++ b/karabo_data/validation.py
@@ -1,6 +1,6 @@
 from argparse import ArgumentParser
 from functools import partial
-from glob import glob
+from glob import escape, glob
 import h5py
 import numpy as np
 import os
@@ -171,7 +171,7 @@ class RunValidator:
         self.files_excluded = []
         self.run_dir = run_dir
 
-        for path in glob(os.path.join(run_dir, '*.h5')):
+        for path in glob(os.path.join(escape(run_dir), '*.h5')):
             try:
                 fa = FileAccess(path)
             except Exception as e:
-- 
2.43.0


From 511ddf2ed592a8ca978afa444dc9bba45b0fefe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:07 +0000
Subject: [PATCH 62/62] fix: selecting trains by ID in data without trains
 raises ValueError

---
 karabo_data/read_machinery.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/karabo_data/read_machinery.py b/karabo_data/read_machinery.py
index 9ccfb6b..5185446 100644
--- a/karabo_data/read_machinery.py
+++ b/karabo_data/read_machinery.py
@@ -64,6 +64,10 @@ def _tid_to_slice_ix(tid, train_ids, stop=False):
     if tid is None:
         return None
 
+    if len(train_ids) == 0:
+        raise ValueError("Train ID {} cannot be found: no trains in this data"
+                         .format(tid))
+
     try:
         return train_ids.index(tid)
     except ValueError:
-- 
2.43.0

