From eaf3dde3c9107b6fbc907464bc301b52696aee53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:52 +0000
Subject: [PATCH 01/27] fix: don't evict pooled writers while the pool is under
 capacity

---
 mabel/data/writers/internals/writer_pool.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mabel/data/writers/internals/writer_pool.py b/mabel/data/writers/internals/writer_pool.py
index 16dbefb..805bf50 100644
--- a/mabel/data/writers/internals/writer_pool.py
+++ b/mabel/data/writers/internals/writer_pool.py
@@ -85,9 +85,10 @@ class WriterPool:
             return row.get("last_access")
 
         # evict the oldest items, evicting can be time consuming so we're going to limit the
-        evictees = sorted(self.writers, key=_inner_sort_key, reverse=False)[
-            : len(self.writers) - self.pool_size
-        ][: self.pool_size]
+        over_capacity = max(len(self.writers) - self.pool_size, 0)
+        evictees = sorted(self.writers, key=_inner_sort_key, reverse=False)[:over_capacity][
+            : self.pool_size
+        ]
         return [writer.get("identity") for writer in evictees]
 
     def get_stale_writers(self, seconds_since_last_use):
-- 
2.43.0


From 7e00c6d305b12dbab4fab1721bf2896495e6e17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:52 +0000
Subject: [PATCH 02/27] fix: don't lose streamed records when committing an
 evicted writer fails

---
 mabel/data/writers/internals/writer_pool.py |  4 +++-
 mabel/data/writers/stream_writer.py         | 24 ++++++++++++++++++---
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/mabel/data/writers/internals/writer_pool.py b/mabel/data/writers/internals/writer_pool.py
index 805bf50..840fedd 100644
--- a/mabel/data/writers/internals/writer_pool.py
+++ b/mabel/data/writers/internals/writer_pool.py
@@ -63,8 +63,10 @@ class WriterPool:
                 )
             else:
                 writer = writers[0]
-                self.writers = [w for w in self.writers if w.get("identity") != identity]
+                # only let go of the writer once its records are committed, if the
+                # commit fails it stays in the pool, with its records, to be retried
                 writer.get("writer").commit()
+                self.writers = [w for w in self.writers if w.get("identity") != identity]
         finally:
             lock.release()
 
diff --git a/mabel/data/writers/stream_writer.py b/mabel/data/writers/stream_writer.py
index e158d7f..03f4f55 100644
--- a/mabel/data/writers/stream_writer.py
+++ b/mabel/data/writers/stream_writer.py
@@ -157,6 +157,7 @@ class StreamWriter(Writer):
         return writes
 
     def finalize(self, **kwargs):
+        failure = None
         self.run_pool_attendant = False
         with lock:
             for blob_writer_identity in self.writer_pool.writers:
@@ -166,11 +167,28 @@ class StreamWriter(Writer):
                     )
                     self.writer_pool.remove_writer(blob_writer_identity["identity"])
                 except Exception as err:
-                    get_logger().debug(
+                    get_logger().error(
                         f"Error finalizing `{blob_writer_identity}`, {type(err).__name__} - {err}"
                     )
+                    failure = failure or err
+        # writers which couldn't be committed are still in the pool, tell the caller
+        # so finalize can be tried again
+        if failure:
+            raise failure
         return super().finalize()
 
+    def _evict_writer(self, blob_writer_identity):
+        """
+        Commit and remove a writer from the pool, a failure here can't be allowed to
+        stop the attendant, the writer is still in the pool so will be tried again
+        """
+        try:
+            self.writer_pool.remove_writer(blob_writer_identity)
+        except Exception as err:
+            get_logger().error(
+                f"Error evicting `{blob_writer_identity}`, {type(err).__name__} - {err}"
+            )
+
     def pool_attendant(self):
         """
         Writer Pool Management
@@ -184,13 +202,13 @@ class StreamWriter(Writer):
                     get_logger().debug(
                         f"Evicting {blob_writer_identity} from the writer pool due to inactivity - limit is {self.idle_timeout_seconds} seconds, poolsize={len(self.writer_pool.writers)}"
                     )
-                    self.writer_pool.remove_writer(blob_writer_identity)
+                    self._evict_writer(blob_writer_identity)
                 # if we're over capacity, evict the LRU writers
                 for blob_writer_identity in self.writer_pool.nominate_writers_to_evict():
                     get_logger().debug(
                         f"Evicting {blob_writer_identity} from the writer pool due the pool being over its {self.writer_pool_capacity} capacity, poolsize={len(self.writer_pool.writers)}"
                     )
-                    self.writer_pool.remove_writer(blob_writer_identity)
+                    self._evict_writer(blob_writer_identity)
 
             time.sleep(0.1)
 
-- 
2.43.0


From 264a0837f666d4b0929e2e6e1ad5edcc4cf6e6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:17 +0000
Subject: [PATCH 03/27] fix: never reuse a blob name when the clock is coarse
 or steps back

---
 .../data/writers/internals/base_inner_writer.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mabel/data/writers/internals/base_inner_writer.py b/mabel/data/writers/internals/base_inner_writer.py
index 71f56bc..c55d673 100644
--- a/mabel/data/writers/internals/base_inner_writer.py
+++ b/mabel/data/writers/internals/base_inner_writer.py
@@ -8,6 +8,7 @@ The primary activity is contained in the .commit() method.
 
 import abc
 import os
+import threading
 import time
 import uuid
 from functools import lru_cache
@@ -16,6 +17,20 @@ from mabel.utils import paths
 
 STEM = "{stem}"
 
+_stamp_lock = threading.Lock()
+_last_stamp = 0
+
+
+def _next_stamp():
+    """
+    The system clock may be coarse, or be put back, a blob's name must still never be used
+    again by this process, so never give the same or an earlier time twice.
+    """
+    global _last_stamp
+    with _stamp_lock:
+        _last_stamp = max(time.time_ns(), _last_stamp + 1)
+        return _last_stamp
+
 
 class BaseInnerWriter(abc.ABC):
     def __init__(self, **kwargs):
@@ -37,7 +52,7 @@ class BaseInnerWriter(abc.ABC):
         self.filename_without_bucket = path + STEM + self.extension
 
     def _build_path(self):
-        blob_id = f"{time.time_ns():x}-{self._get_node()}"
+        blob_id = f"{_next_stamp():x}-{self._get_node()}"
         return self.filename.replace(STEM, f"{blob_id}")
 
     @lru_cache(1)
-- 
2.43.0


From 9a6ac4f384a5f0617a7a499bcb70ad466c59098e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:39 +0000
Subject: [PATCH 04/27] fix: disk blobs appear whole or not at all

---
 mabel/adapters/disk/disk_writer.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mabel/adapters/disk/disk_writer.py b/mabel/adapters/disk/disk_writer.py
index 3e9ce7e..0c09567 100644
--- a/mabel/adapters/disk/disk_writer.py
+++ b/mabel/adapters/disk/disk_writer.py
@@ -22,8 +22,18 @@ class DiskWriter(BaseInnerWriter):
             bucket, path, stem, ext = paths.get_parts(blob_name)
 
             os.makedirs(bucket + "/" + path, exist_ok=True)
-            with open(blob_name, mode="wb") as file:
-                file.write(byte_data)
+
+            # write to a name readers ignore and then rename, so a blob which can't be
+            # written in full (or hasn't been yet) is never mistaken for a good one
+            folder, name = os.path.split(blob_name)
+            part_name = os.path.join(folder, f".{name}.part")
+            try:
+                with open(part_name, mode="wb") as file:
+                    file.write(byte_data)
+                os.replace(part_name, blob_name)
+            except Exception:
+                paths.silent_remove(part_name)
+                raise
 
             return blob_name
         except Exception as err:  # pragma: no cover
-- 
2.43.0


From 4485f7f7ac34cdfed05c7de792165914748cb2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:44 +0000
Subject: [PATCH 05/27] fix: a record whose append raised isn't kept in the
 Parquet write-ahead buffer

---
 mabel/data/writers/internals/blob_writer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mabel/data/writers/internals/blob_writer.py b/mabel/data/writers/internals/blob_writer.py
index 2ad72a9..23e041e 100644
--- a/mabel/data/writers/internals/blob_writer.py
+++ b/mabel/data/writers/internals/blob_writer.py
@@ -53,13 +53,15 @@ class BlobWriter(object):
             self.append = self.text_append
 
     def arrow_append(self, record: dict = {}):
-        self.records_in_buffer += 1
-        self.wal.append(record)  # type:ignore
-        # if this write would exceed the blob size, close it
-        if self.wal.nbytes() > self.maximum_blob_size:
+        # if the blob has exceeded the blob size, close it - do this before adding the
+        # record so if the commit fails we've not kept a record we're going to refuse
+        if self.records_in_buffer > 0 and self.wal.nbytes() > self.maximum_blob_size:
             self.commit()
             self.open_buffer()
 
+        self.wal.append(record)  # type:ignore
+        self.records_in_buffer += 1
+
         return self.records_in_buffer
 
     def text_append(self, record: dict = {}):
-- 
2.43.0


From f415e61ea91e803de7572902f16c12a1d85480da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 06/27] fix: write BACKOUT records of Parquet streams as JSONL,
 they can't be Parquet

---
 mabel/data/writers/internals/writer_pool.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mabel/data/writers/internals/writer_pool.py b/mabel/data/writers/internals/writer_pool.py
index 840fedd..ff8bdf6 100644
--- a/mabel/data/writers/internals/writer_pool.py
+++ b/mabel/data/writers/internals/writer_pool.py
@@ -40,11 +40,15 @@ class WriterPool:
             return writer.get("writer")
 
     def create_writer(self, identity):
+        kwargs = self.kwargs
+        if identity.endswith("/BACKOUT/") and kwargs.get("format") == "parquet":
+            # these records don't conform to the schema so can't be written to Parquet
+            kwargs = {**kwargs, "format": "jsonl"}
         # instantiate a new writer
         new_writer = {
             "identity": identity,
             "last_access": time.time(),
-            "writer": BlobWriter(dataset=identity, **self.kwargs),
+            "writer": BlobWriter(dataset=identity, **kwargs),
         }
         return new_writer
 
-- 
2.43.0


From 839dc549eae0534d656455721a8841d2265b6ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 07/27] fix: time writer idleness with a clock that can't be
 put forward or back

---
 mabel/data/writers/internals/writer_pool.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mabel/data/writers/internals/writer_pool.py b/mabel/data/writers/internals/writer_pool.py
index ff8bdf6..7203950 100644
--- a/mabel/data/writers/internals/writer_pool.py
+++ b/mabel/data/writers/internals/writer_pool.py
@@ -29,7 +29,7 @@ class WriterPool:
             # if a writer with the specified identity exists then return it
             # update the last_access status so we can determin the LRU
             writer = [w for w in self.writers if w["identity"] == identity].pop()
-            writer["last_access"] = time.time()
+            writer["last_access"] = time.monotonic()
             return writer["writer"]
         except IndexError:
             # if no writer was found, create a new one and add to the pool.
@@ -47,7 +47,7 @@ class WriterPool:
         # instantiate a new writer
         new_writer = {
             "identity": identity,
-            "last_access": time.time(),
+            "last_access": time.monotonic(),
             "writer": BlobWriter(dataset=identity, **kwargs),
         }
         return new_writer
@@ -99,7 +99,7 @@ class WriterPool:
 
     def get_stale_writers(self, seconds_since_last_use):
         """get the identities of writers which haven't been accessed recently"""
-        now = time.time()
+        now = time.monotonic()
         stale_writers = [
             writer.get("identity")
             for writer in self.writers
-- 
2.43.0


From 676ffc562e66376d9f34cfc1e7d1536102050dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 08/27] fix: write a record to a partition once when several of
 its values name it

---
 mabel/data/writers/stream_writer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mabel/data/writers/stream_writer.py b/mabel/data/writers/stream_writer.py
index 03f4f55..ee595ec 100644
--- a/mabel/data/writers/stream_writer.py
+++ b/mabel/data/writers/stream_writer.py
@@ -142,13 +142,17 @@ class StreamWriter(Writer):
             # save the result to a set otherwise it's not a cartesian product
             value_combinations = {i for i in itertools.product(*values)}
 
-            # for every variation in the cartesian product
+            # for every variation in the cartesian product, values which differ can
+            # still be for the same partition, so dedupe them
+            identities = set()
             for values in value_combinations:  # type:ignore
                 this_identity = identity
                 # do the actual replacing of the placeholders
                 for k, v in zip(placeholders, values):
                     this_identity = this_identity.replace("{" + k + "}", text.sanitize(str(v)))
+                identities.add(this_identity)
 
+            for this_identity in identities:
                 # get the writer and save the record
                 blob_writer = self.writer_pool.get_writer(this_identity)
                 blob_writer.append(record)
-- 
2.43.0


From 9aa4e29f94e17b8ee920618bf7ec8e43154456b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 09/27] fix: resume from a cursor when blobs have been added
 since

---
 mabel/data/readers/internals/cursor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/cursor.py b/mabel/data/readers/internals/cursor.py
index 8d6ab80..dc023d6 100644
--- a/mabel/data/readers/internals/cursor.py
+++ b/mabel/data/readers/internals/cursor.py
@@ -57,7 +57,10 @@ class Cursor:
         blob_map = bitarray()
         blob_map.frombytes(map_bytes)
         self.read_blobs = [
-            self.readable_blobs[i] for i in range(len(self.readable_blobs)) if blob_map[i]
+            # there may be more blobs now than there were when the cursor was created
+            self.readable_blobs[i]
+            for i in range(min(len(self.readable_blobs), len(blob_map)))
+            if blob_map[i]
         ]
 
     def next_blob(self, previous_blob=None):
-- 
2.43.0


From 84971b37b7f995a255efdbc6975ad64748c77889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 10/27] fix: don't mix partition folders when the name of one
 starts with another's

---
 mabel/data/readers/internals/base_inner_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index 65bb7e8..8a46345 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -172,7 +172,8 @@ class BaseInnerReader(abc.ABC):
                     partitioned_blobs = [
                         blob
                         for blob in cycle_blobs
-                        if f"{chosen_partition}/{partitioned_folder}" in blob
+                        if chosen_partition == ""
+                        or f"/{chosen_partition}/{partitioned_folder}/" in f"{blob}/"
                     ]
 
                     # Work out if there's an as_at part
-- 
2.43.0


From b466d651f823c406e66f23710f6874e18c5b9ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 11/27] fix: name GCS blobs without the bucket before the first
 commit too

---
 mabel/adapters/google/google_cloud_storage_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/adapters/google/google_cloud_storage_writer.py b/mabel/adapters/google/google_cloud_storage_writer.py
index f15d32b..2d5ad10 100644
--- a/mabel/adapters/google/google_cloud_storage_writer.py
+++ b/mabel/adapters/google/google_cloud_storage_writer.py
@@ -32,6 +32,7 @@ class GoogleCloudStorageWriter(BaseInnerWriter):
             ConnectionResetError, ProtocolError, InternalServerError, TooManyRequests
         )
         self.retry = retry.Retry(predicate)
+        self.filename = self.filename_without_bucket
 
     def commit(self, byte_data, override_blob_name=None):
         # this means we're testing
@@ -40,7 +41,6 @@ class GoogleCloudStorageWriter(BaseInnerWriter):
         else:  # pragma: no cover
             client = storage.Client(credentials=self.credentials)
         self.gcs_bucket = client.get_bucket(self.bucket)
-        self.filename = self.filename_without_bucket
 
         # if we've been given the filename, use that, otherwise get the
         # name from the path builder
-- 
2.43.0


From ef83fe892360164f311b7a757b3d658098e1c215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 12/27] fix: list each MinIO folder once, not once for every
 hour in the range

---
 mabel/adapters/minio/minio_reader.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/mabel/adapters/minio/minio_reader.py b/mabel/adapters/minio/minio_reader.py
index 5d3fffc..fab3c5b 100644
--- a/mabel/adapters/minio/minio_reader.py
+++ b/mabel/adapters/minio/minio_reader.py
@@ -4,7 +4,6 @@ MinIo Reader - also works with AWS
 
 from ...data.readers.internals.base_inner_reader import BaseInnerReader
 from ...errors import MissingDependencyError
-from ...utils import dates
 from ...utils import paths
 
 try:
@@ -35,15 +34,12 @@ class MinIoReader(BaseInnerReader):
 
     def get_blobs_at_path(self, path):
         bucket, object_path, _, _ = paths.get_parts(path)
-        for cycle_date in dates.date_range(self.start_date, self.end_date):
-            cycle_path = paths.build_path(path=object_path, date=cycle_date)
-            blobs = self.minio.list_objects(bucket_name=bucket, prefix=cycle_path, recursive=True)
-
-            yield from [
-                bucket + "/" + blob.object_name
-                for blob in blobs
-                if not blob.object_name.endswith("/")
-            ]
+        # the path is for one date already, the dates are iterated by the base reader
+        blobs = self.minio.list_objects(bucket_name=bucket, prefix=object_path, recursive=True)
+
+        yield from [
+            bucket + "/" + blob.object_name for blob in blobs if not blob.object_name.endswith("/")
+        ]
 
     def get_blob_bytes(self, blob_name: str) -> bytes:
         try:
-- 
2.43.0


From 201fa3021309efc90d87f09617d4639a431b9a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 13/27] fix: read an empty DictSet back from disk

---
 mabel/data/internals/storage_classes/storage_class_disk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mabel/data/internals/storage_classes/storage_class_disk.py b/mabel/data/internals/storage_classes/storage_class_disk.py
index 21a5631..89ac70e 100644
--- a/mabel/data/internals/storage_classes/storage_class_disk.py
+++ b/mabel/data/internals/storage_classes/storage_class_disk.py
@@ -52,6 +52,9 @@ class StorageClassDisk(BaseStorageClass):
         """
         MMAP is by far the fastest way to read files in Python.
         """
+        if self.length == 0:
+            # we can't mmap an empty file
+            return
         with open(self.file, mode="rb") as file_obj:
             with mmap.mmap(file_obj.fileno(), length=0, access=mmap.ACCESS_READ) as mmap_obj:
                 line = mmap_obj.readline()
-- 
2.43.0


From 43118c3ef8332753e06832eb8c8b634e43cf9f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 14/27] fix: don't drop empty records from compressed memory
 DictSets

---
 .../storage_classes/storage_class_compressed_memory.py        | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mabel/data/internals/storage_classes/storage_class_compressed_memory.py b/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
index f6671a3..d2cd137 100644
--- a/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
+++ b/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
@@ -63,9 +63,7 @@ class StorageClassCompressedMemory(BaseStorageClass):
         else:
             for batch in self.batches:
                 records = self.parse_json(self.decompressor.decompress(batch))
-                for record in records:
-                    if record:
-                        yield record
+                yield from records
 
     def __iter__(self):
         self.iterator = iter(self._inner_reader())
-- 
2.43.0


From 2180956ea229c76b34d724791abd8101ff16dc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 15/27] fix: get_items works for all DictSets, whatever their
 persistence

---
 mabel/data/internals/dictset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 9536f78..eaf2549 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -41,6 +41,7 @@ from mabel.data.internals.dnf_filters import DnfFilters
 from mabel.data.internals.dumb_iterator import DumbIterator
 from mabel.data.internals.expression import Expression
 from mabel.data.internals.group_by import GroupBy
+from mabel.data.internals.storage_classes import BaseStorageClass
 from mabel.data.internals.storage_classes import StorageClassCompressedMemory
 from mabel.data.internals.storage_classes import StorageClassDisk
 from mabel.data.internals.storage_classes import StorageClassMemory
@@ -327,7 +328,7 @@ class DictSet(object):
 
         # if there's no direct access to items, cycle through them
         # yielding the items we want
-        if self.storage_class in (STORAGE_CLASS.DISK, STORAGE_CLASS.COMPRESSED_MEMORY):
+        if isinstance(self._iterator, BaseStorageClass):
             for r in self._iterator._inner_reader(*locations):
                 yield r
             return
@@ -338,7 +339,7 @@ class DictSet(object):
             return
 
         if self.storage_class == STORAGE_CLASS.NO_PERSISTANCE:
-            for i, r in iter(self._iterator):
+            for i, r in enumerate(iter(self._iterator)):
                 if i in locations:
                     yield r
 
-- 
2.43.0


From 8b875a1fa9978318dce7fca539333cc7cd076b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:33 +0000
Subject: [PATCH 16/27] fix: a persisted DictSet can be iterated more than once

---
 mabel/data/internals/dictset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index eaf2549..4d98a9d 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -116,6 +116,9 @@ class DictSet(object):
         """
         Wrap the iterator in a Iterable object
         """
+        if isinstance(self._iterator, BaseStorageClass):
+            # the records have been persisted, so every iteration is from the first of them
+            iter(self._iterator)
         if not hasattr(self._iterator, "__iter__"):  # pragma:no cover
             self._iterator = DumbIterator(self._iterator)
         return self
-- 
2.43.0


From 52fc8ffe03d1a20b81accaf563dc89c49e715dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:33 +0000
Subject: [PATCH 17/27] fix: a day with nothing that can be read isn't fresh
 data

---
 mabel/data/readers/reader.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/mabel/data/readers/reader.py b/mabel/data/readers/reader.py
index c61ef60..57e195a 100644
--- a/mabel/data/readers/reader.py
+++ b/mabel/data/readers/reader.py
@@ -231,16 +231,27 @@ class _LowLevelReader(object):
             self.select = pass_thru
 
     def _create_line_reader(self):
-        # get list of blobs handles as_at, by and frames
-        blob_list = self.reader_class.get_list_of_blobs()
+        def list_blobs():
+            # get list of blobs handles as_at, by and frames
+            blob_list = self.reader_class.get_list_of_blobs()
+            # Build lists of blobs we have handlers for, based on the file extensions
+            supported_blobs = [b for b in blob_list if f".{ b.split('.')[-1] }" in KNOWN_EXTENSIONS]
+            readable_blobs = [
+                b
+                for b in supported_blobs
+                if KNOWN_EXTENSIONS[f".{b.split('.')[-1]}"][2] == EXTENSION_TYPE.DATA
+            ]
+            return supported_blobs, readable_blobs
+
+        supported_blobs, readable_blobs = list_blobs()
 
         # Handle stepping back if the option is set
         if self.freshness_limit > datetime.timedelta(seconds=1):
-            while not bool(blob_list) and self.freshness_limit >= datetime.timedelta(
+            while not bool(readable_blobs) and self.freshness_limit >= datetime.timedelta(
                 days=self.reader_class.days_stepped_back
             ):
                 self.reader_class.step_back_a_day()
-                blob_list = self.reader_class.get_list_of_blobs()
+                supported_blobs, readable_blobs = list_blobs()
             if self.freshness_limit < datetime.timedelta(days=self.reader_class.days_stepped_back):
                 message = f"No data found in last {self.freshness_limit} - aborting ({self.reader_class.dataset})"
                 get_logger().warning(message)
@@ -250,14 +261,6 @@ class _LowLevelReader(object):
                     f"Read looked back {self.reader_class.days_stepped_back} day(s) to {self.reader_class.start_date}, limit is {self.freshness_limit} ({self.reader_class.dataset})"
                 )
 
-        # Build lists of blobs we have handlers for, based on the file extensions
-        supported_blobs = [b for b in blob_list if f".{ b.split('.')[-1] }" in KNOWN_EXTENSIONS]
-        readable_blobs = [
-            b
-            for b in supported_blobs
-            if KNOWN_EXTENSIONS[f".{b.split('.')[-1]}"][2] == EXTENSION_TYPE.DATA
-        ]
-
         # Log debug information or an error if there's no blobs to read
         message = f"Reader found {len(readable_blobs)} sources to read data from in `{self.reader_class.dataset}`."
         if len(readable_blobs) == 0:
-- 
2.43.0


From fdd47ece7fecc51f24812a87e446a30994a369ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 18/27] fix: multiprocess reads return the records as read and
 always end

---
 .../readers/internals/multiprocess_wrapper.py | 123 ++++++------------
 1 file changed, 38 insertions(+), 85 deletions(-)

diff --git a/mabel/data/readers/internals/multiprocess_wrapper.py b/mabel/data/readers/internals/multiprocess_wrapper.py
index 94de6ba..a1e3602 100644
--- a/mabel/data/readers/internals/multiprocess_wrapper.py
+++ b/mabel/data/readers/internals/multiprocess_wrapper.py
@@ -6,76 +6,27 @@ When a reliable use case for multiprocessing is identified it may be included in
 automatic running of the data accesses.
 """
 
-import datetime
 import logging
 import multiprocessing
 import os
+import pickle  # nosec - only used between this process and processes it started
 import time
 from multiprocessing import Queue
 from queue import Empty
 
 import lz4.frame
 
-from .parsers import json
-
-TERMINATE_SIGNAL = -1
-MAXIMUM_SECONDS_PROCESSES_CAN_RUN = 600
-
-
-def fix_dict(obj: dict) -> dict:
-    def fix_fields(dt):
-        dt_type = type(dt)
-        if dt_type in (int, float, bool, str):
-            return dt
-        if hasattr(dt, "mini"):
-            return dt.mini.decode("UTF8")
-        if dt_type == dict:
-            return str(fix_dict(dt))
-        if dt_type in (list, tuple, set):
-            return str([fix_fields(i) for i in dt])
-        if dt_type in (datetime.date, datetime.datetime):
-            return dt.isoformat()
-        if dt_type == bytes:
-            return dt.decode("UTF8")
-        return str(dt)
-
-    if not isinstance(obj, dict):
-        return obj  # type:ignore
-
-    for key in obj.keys():
-        obj[key] = fix_fields(obj[key])
-    return obj
-
-
-def serialize(ob):
-    import orjson
-
-    return orjson.dumps(fix_dict(ob))
+MAXIMUM_SECONDS_WITHOUT_A_REPLY = 600
 
 
 def _inner_process(func, source_queue, reply_queue):  # pragma: no cover
-    try:
-        source = source_queue.get(timeout=1)
-    except Empty:  # pragma: no cover
-        source = TERMINATE_SIGNAL
-
-    while source != TERMINATE_SIGNAL:
-        # non blocking wait - this isn't thread aware in that it can trivially
-        # have race conditions, but it will apply a simple back-off so we're
-        # not exhausting memory when we know we should wait
-        while reply_queue.full():
-            time.sleep(1)
+    # the parent ends this process when there's nothing left to do
+    while True:
+        source = source_queue.get()
         # the empty list here is where the list of indicies should go
-        reply_queue.put(
-            lz4.frame.compress(b"\n".join(map(serialize, func(source, [])))),
-            timeout=30,
-        )
-        source = None
-        while source is None:
-            try:
-                source = source_queue.get(timeout=1)
-            except Empty:  # pragma: no cover
-                source = None
+        records = list(func(source, []))
+        # this waits when there's no room for the reply, so we're not exhausting memory
+        reply_queue.put(lz4.frame.compress(pickle.dumps(records)))
 
 
 def processed_reader(func, items_to_read, support_files):  # pragma: no cover
@@ -106,36 +57,38 @@ def processed_reader(func, items_to_read, support_files):  # pragma: no cover
         process.start()
         process_pool.append(process)
 
-    process_start_time = time.time()
     item_index = slots
+    received = 0
+    last_reply = time.monotonic()
 
-    while (
-        any({p.is_alive() for p in process_pool})
-        or not reply_queue.empty()
-        or not send_queue.empty()
-    ):
-        try:
-            records = reply_queue.get(timeout=1)
-            yield from map(json, [r for r in lz4.frame.decompress(records).split(b"\n") if r])
+    try:
+        # there's exactly one reply for each item
+        while received < len(items_to_read):
+            try:
+                records = reply_queue.get(timeout=1)
+            except Empty:
+                # don't return some of the records as if they were all of them
+                if not all(p.is_alive() for p in process_pool):
+                    raise RuntimeError("A reader process ended before it had read its data.")
+                if time.monotonic() - last_reply > MAXIMUM_SECONDS_WITHOUT_A_REPLY:
+                    raise TimeoutError(
+                        f"Reader processes gave no reply for {MAXIMUM_SECONDS_WITHOUT_A_REPLY} seconds."
+                    )
+                continue
+            received += 1
             if item_index < len(items_to_read):
                 send_queue.put_nowait(items_to_read[item_index])
                 item_index += 1
-            else:
-                send_queue.put_nowait(TERMINATE_SIGNAL)
-
-        except Empty:  # nosec
-            if time.time() - process_start_time > MAXIMUM_SECONDS_PROCESSES_CAN_RUN:
-                logging.error(
-                    f"Sending TERMINATE to long running multi-processed processes after {MAXIMUM_SECONDS_PROCESSES_CAN_RUN} seconds total run time"
-                )
-                break
-        except GeneratorExit:
-            logging.error("GENERATOR EXIT DETECTED")
-            break
-
-    reply_queue.close()
-    send_queue.close()
-    reply_queue.join_thread()
-    send_queue.join_thread()
-    for process in process_pool:
-        process.join()
+            yield from pickle.loads(lz4.frame.decompress(records))  # nosec
+            last_reply = time.monotonic()
+    except GeneratorExit:
+        logging.error("GENERATOR EXIT DETECTED")
+        raise
+    finally:
+        for process in process_pool:
+            process.terminate()
+        for process in process_pool:
+            process.join()
+        for queue in (reply_queue, send_queue):
+            queue.cancel_join_thread()
+            queue.close()
-- 
2.43.0


From f2105eb4ee6db5a40620367dff8732473ddb82a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:23 +0000
Subject: [PATCH 19/27] fix: disk writers committing the same marker don't
 share a part file

---
 mabel/adapters/disk/disk_writer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mabel/adapters/disk/disk_writer.py b/mabel/adapters/disk/disk_writer.py
index 0c09567..baf12eb 100644
--- a/mabel/adapters/disk/disk_writer.py
+++ b/mabel/adapters/disk/disk_writer.py
@@ -1,4 +1,5 @@
 import os
+import uuid
 
 from orso.logging import get_logger
 
@@ -24,9 +25,10 @@ class DiskWriter(BaseInnerWriter):
             os.makedirs(bucket + "/" + path, exist_ok=True)
 
             # write to a name readers ignore and then rename, so a blob which can't be
-            # written in full (or hasn't been yet) is never mistaken for a good one
+            # written in full (or hasn't been yet) is never mistaken for a good one, the
+            # name is our own as writers may be writing the same marker
             folder, name = os.path.split(blob_name)
-            part_name = os.path.join(folder, f".{name}.part")
+            part_name = os.path.join(folder, f".{name}.{uuid.uuid4().hex}.part")
             try:
                 with open(part_name, mode="wb") as file:
                     file.write(byte_data)
-- 
2.43.0


From 98ce5ebcf098ca7e16bfff46008d9da35e94f771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:44 +0000
Subject: [PATCH 20/27] fix: a folder that can't be listed isn't read as if it
 were empty

---
 mabel/adapters/disk/disk_reader.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mabel/adapters/disk/disk_reader.py b/mabel/adapters/disk/disk_reader.py
index f064d63..fe795cb 100644
--- a/mabel/adapters/disk/disk_reader.py
+++ b/mabel/adapters/disk/disk_reader.py
@@ -1,3 +1,6 @@
+import os
+import pathlib
+
 from ...data.readers.internals.base_inner_reader import BUFFER_SIZE
 from ...data.readers.internals.base_inner_reader import BaseInnerReader
 
@@ -10,10 +13,15 @@ class DiskReader(BaseInnerReader):
         super().__init__(**kwargs)
 
     def get_blobs_at_path(self, path):
-        if path.exists():
-            blobs = path.rglob("*")
-            return [blob.as_posix() for blob in blobs if blob.is_file()]
-        return []
+        def on_error(error):
+            # a folder we can't list isn't an empty folder
+            if not isinstance(error, (FileNotFoundError, NotADirectoryError)):
+                raise error
+
+        blobs = []
+        for folder, _, names in os.walk(path, onerror=on_error):
+            blobs.extend(pathlib.Path(folder, name) for name in names)
+        return [blob.as_posix() for blob in blobs if blob.is_file()]
 
     def get_blob_bytes(self, blob_name: str) -> bytes:
         with open(blob_name, "rb") as f:
-- 
2.43.0


From 78a081470e459dae3590a0ee594f34879f31dc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:16 +0000
Subject: [PATCH 21/27] fix: BACKOUT is a folder, don't skip data with the word
 in its partition's value

---
 mabel/data/readers/internals/base_inner_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index 8a46345..262a212 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -99,8 +99,9 @@ class BaseInnerReader(abc.ABC):
                 cycle_blobs = list(self.get_blobs_at_path(path=cycle_path))
 
                 # Remove any BACKOUT data - this is essentially a DEAD LETTER queue
-                # so we don't want to include in when reading
-                cycle_blobs = [blob for blob in cycle_blobs if "BACKOUT" not in blob]
+                # so we don't want to include in when reading, it's a folder of its own, the
+                # word can also be part of a partition's value (by_name/name=BACKOUT)
+                cycle_blobs = [blob for blob in cycle_blobs if "BACKOUT" not in blob.split("/")]
 
                 # The partitions are stored in folders with the prefix 'by_', as in,
                 # partitioned **by** field name
-- 
2.43.0


From 82d86f6bef8fd5cb83827a73f216fa4024c65e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:32 +0000
Subject: [PATCH 22/27] fix: garbage collection while a blob is being named
 can't deadlock its thread

---
 mabel/data/writers/internals/base_inner_writer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mabel/data/writers/internals/base_inner_writer.py b/mabel/data/writers/internals/base_inner_writer.py
index c55d673..fe481cb 100644
--- a/mabel/data/writers/internals/base_inner_writer.py
+++ b/mabel/data/writers/internals/base_inner_writer.py
@@ -17,7 +17,8 @@ from mabel.utils import paths
 
 STEM = "{stem}"
 
-_stamp_lock = threading.Lock()
+# reentrant, writers which are garbage collected commit so this can interrupt itself
+_stamp_lock = threading.RLock()
 _last_stamp = 0
 
 
@@ -28,7 +29,8 @@ def _next_stamp():
     """
     global _last_stamp
     with _stamp_lock:
-        _last_stamp = max(time.time_ns(), _last_stamp + 1)
+        now = time.time_ns()
+        _last_stamp = now if now > _last_stamp else _last_stamp + 1
         return _last_stamp
 
 
-- 
2.43.0


From 58f0ed6e5848f044c8ade95a7622de62b3c45486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:24 +0000
Subject: [PATCH 23/27] fix: C06: a batch reported as failed stays failed when
 writing its last blob fails too

---
 mabel/data/writers/batch_writer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mabel/data/writers/batch_writer.py b/mabel/data/writers/batch_writer.py
index 6f3a351..d27c08d 100644
--- a/mabel/data/writers/batch_writer.py
+++ b/mabel/data/writers/batch_writer.py
@@ -104,6 +104,10 @@ class BatchWriter(Writer):
 
     def finalize(self, **kwargs):
 
+        # note a failure first, writing the last blob may fail and a later call succeed
+        if kwargs.get("has_failure", False):
+            self.seen_failures = True
+
         final = super().finalize()
 
         has_failure = bool(kwargs.get("has_failure", False))
-- 
2.43.0


From 7b96a465fecbab1976f865a57a70f959eb55b307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:24 +0000
Subject: [PATCH 24/27] fix: C13: a frame doesn't include the blobs of frames
 whose names begin with its own

---
 mabel/data/readers/internals/base_inner_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index 262a212..f493406 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -216,7 +216,7 @@ class BaseInnerReader(abc.ABC):
                             partitioned_blobs = [
                                 blob
                                 for blob in partitioned_blobs
-                                if (as_at in blob) and ("/frame.complete" not in blob)
+                                if (f"/{as_at}/" in blob) and ("/frame.complete" not in blob)
                             ]
 
                     blobs += partitioned_blobs
-- 
2.43.0


From 22b22fd909e39707677913e86b92d34424eb3374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:26 +0000
Subject: [PATCH 25/27] fix: records orjson can't write are read back as they
 were written

They are written by the standard json library, but were read by orjson which makes
floats of integers over 64 bits and fails on half surrogate pairs, which also lost
the rest of the blob.
---
 mabel/data/readers/internals/parsers.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/parsers.py b/mabel/data/readers/internals/parsers.py
index 93280f6..1bf5cbf 100644
--- a/mabel/data/readers/internals/parsers.py
+++ b/mabel/data/readers/internals/parsers.py
@@ -1,8 +1,22 @@
+import json as standard_json
+import re
+
 import orjson
 
 pass_thru = lambda x: x
 
-json = orjson.loads
+# a number this long may be too big for orjson, which silently turns it into a float
+LONG_NUMBER = re.compile(rb"\d{19}")
+
+
+def json(ds):
+    # what orjson can't write is written by the standard library, so it needs to read it
+    if not LONG_NUMBER.search(ds):
+        try:
+            return orjson.loads(ds)
+        except orjson.JSONDecodeError:
+            pass
+    return standard_json.loads(ds)
 
 
 def pass_thru_block(ds):
-- 
2.43.0


From 1694a61cb39d1a0d3f1b6e00b83120e869b4ff50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:26 +0000
Subject: [PATCH 26/27] fix: C07: a Reader returns records which have no fields

---
 mabel/data/readers/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/reader.py b/mabel/data/readers/reader.py
index 57e195a..594dab6 100644
--- a/mabel/data/readers/reader.py
+++ b/mabel/data/readers/reader.py
@@ -15,6 +15,7 @@ from mabel.data.readers.internals.multiprocess_wrapper import processed_reader
 from mabel.data.readers.internals.parallel_reader import EXTENSION_TYPE
 from mabel.data.readers.internals.parallel_reader import KNOWN_EXTENSIONS
 from mabel.data.readers.internals.parallel_reader import ParallelReader
+from mabel.data.readers.internals.parallel_reader import no_filter
 from mabel.data.readers.internals.parallel_reader import pass_thru
 from mabel.errors import DataNotFoundError
 from mabel.errors import InvalidCombinationError
@@ -272,7 +273,7 @@ class _LowLevelReader(object):
         parallel = ParallelReader(
             reader=self.reader_class,
             columns=self.select,
-            filters=self.filters or pass_thru,
+            filters=self.filters or no_filter,
             override_format=self.override_format,
         )
 
-- 
2.43.0


From 2ac6537faeb2b71821ced0dc2442bf8ed4a4e833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:40 +0000
Subject: [PATCH 27/27] fix: C16: a dataset with as_at_ within its name can be
 read

---
 mabel/data/readers/internals/base_inner_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index f493406..d7ec5ef 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -177,9 +177,10 @@ class BaseInnerReader(abc.ABC):
                         or f"/{chosen_partition}/{partitioned_folder}/" in f"{blob}/"
                     ]
 
-                    # Work out if there's an as_at part
+                    # Work out if there's an as_at part, it's the start of a folder's name,
+                    # other names can have it as part of them (was_at_home)
                     as_ats = {
-                        self._extract_as_at(blob) for blob in partitioned_blobs if "as_at_" in blob
+                        self._extract_as_at(blob) for blob in partitioned_blobs if "/as_at_" in blob
                     }
                     if as_ats:
                         as_ats = sorted(as_ats)
-- 
2.43.0

