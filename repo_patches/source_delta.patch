From 3562e9962bf560dc002ec14227ef1549e40a7669 Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 01/39] fix: an interrupted Shelf transaction could be read as
 complete ones

The placeholder for the length of a transaction was 0, which is also the
length of a complete, empty, transaction.  After a crash between writing the
records and writing the length, the records were parsed as transactions.
---
 durus/shelf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/durus/shelf.py b/durus/shelf.py
index e1416b9..a1e8762 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -195,7 +195,10 @@ class Shelf (object):
         """
         self.file.seek_end()
         start = self.file.tell()
-        write_int8(self.file, 0)
+        # Until all of the records have been written, the length is one that no
+        # file can have, so an interrupted transaction is not taken for (a
+        # sequence of) complete ones.
+        write_int8(self.file, 2**64 - 1)
         result = []
         index = {}
         try:
-- 
2.43.0


From 177e7e657abb57646d3938bc5d87992b0a28968d Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 02/39] fix: detect a Shelf file that is truncated within its
 last record

---
 durus/shelf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/durus/shelf.py b/durus/shelf.py
index a1e8762..adfa55a 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -301,6 +301,10 @@ def read_transaction_offsets(file, repair=False):
     try:
         transaction_length = read_int8(file)
         transaction_end = transaction_start + 8 + transaction_length
+        file.seek(0, 2) # seek end
+        if file.tell() < transaction_end:
+            raise ShortRead
+        file.seek(transaction_start + 8)
         transaction_offsets = {}
         while file.tell() < transaction_end:
             position = file.tell()
-- 
2.43.0


From 202d7ca5e280cfbd65a3df2b69296cc47dcf142b Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 03/39] fix: revert a Shelf transaction when writing its length
 fails

---
 durus/shelf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/durus/shelf.py b/durus/shelf.py
index adfa55a..e23e1c5 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -210,15 +210,15 @@ class Shelf (object):
                 write_int8(self.file, len(name) + len(value))
                 write(self.file, name)
                 write(self.file, value)
+            end = self.file.tell()
+            self.file.seek(start)
+            write_int8(self.file, end - start - 8)
+            self.file.seek(end)
         except:
             # Revert before raising.
             self.file.seek(start)
             self.file.truncate()
             raise
-        end = self.file.tell()
-        self.file.seek(start)
-        write_int8(self.file, end - start - 8)
-        self.file.seek(end)
         self.memory_index.update(index)
         return result
 
-- 
2.43.0


From 68d05b08045a0b06a9906590fff2a99f35927d20 Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 04/39] fix: FileStorage commits were not synced to disk

FileStorage2, and both packers, already did this.
---
 durus/file_storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/durus/file_storage.py b/durus/file_storage.py
index 5fed0ca..a159b11 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -79,6 +79,8 @@ class FileStorage (Storage):
 
     def end(self, handle_invalidations=None):
         self.shelf.store(iteritems(self.pending_records))
+        self.shelf.get_file().flush()
+        self.shelf.get_file().fsync()
         if is_logging(20):
             shelf_file = self.shelf.get_file()
             shelf_file.seek_end()
-- 
2.43.0


From a2a77fc148a2f7ffe9958980f6d97021917fda0c Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 05/39] fix: FileStorage2 stored the records of an abandoned
 commit with the next one

---
 durus/file_storage2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 63e4500..9cf2bf4 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -134,7 +134,7 @@ class FileStorage2(Storage):
         return self._read_block()
 
     def begin(self):
-        pass
+        self.pending_records.clear()
 
     def store(self, oid, record):
         """Add a record during a commit."""
-- 
2.43.0


From a8bcce49a69d28b97103d3de03574594764168a1 Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 06/39] fix: a FileStorage2 commit that failed left part of a
 transaction in the file

---
 durus/file_storage2.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 9cf2bf4..06e36f2 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -148,9 +148,17 @@ class FileStorage2(Storage):
         """Complete a commit.
         """
         index = {}
-        for z in self._write_transaction(
-            self.fp, self._generate_pending_records(), index):
-            pass
+        self.fp.seek(0, 2)
+        start = self.fp.tell()
+        try:
+            for z in self._write_transaction(
+                self.fp, self._generate_pending_records(), index):
+                pass
+        except:
+            # Revert before raising.
+            self.fp.seek(start)
+            self.fp.truncate()
+            raise
         self.fp.flush()
         self.fp.fsync()
         if is_logging(20):
-- 
2.43.0


From 55afd045b1fd4f549e78c48dade94ccd28644fe2 Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 07/39] fix: a failed commit left new objects marked as stored

---
 durus/connection.py | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index 9045761..9aa1f1a 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -2,7 +2,7 @@
 $URL$
 $Id$
 """
-from durus.error import ConflictError, WriteConflictError, ReadConflictError
+from durus.error import WriteConflictError, ReadConflictError
 from durus.error import DurusKeyError
 from durus.logger import log
 from durus.persistent import ConnectionBase
@@ -261,25 +261,30 @@ class Connection (ConnectionBase):
             assert not self.invalid_oids, "still conflicted: missing abort()"
             self.storage.begin()
             new_objects = {}
-            for oid, changed_object in iteritems(self.changed):
-                writer = ObjectWriter(self)
-                try:
-                    for obj in writer.gen_new_objects(changed_object):
-                        oid = obj._p_oid
-                        if oid in new_objects:
-                            continue
-                        elif oid not in self.changed:
-                            new_objects[oid] = obj
-                            self.cache[oid] = obj
-                        data, refs = writer.get_state(obj)
-                        self.storage.store(oid, pack_record(oid, data, refs))
-                        obj._p_set_status_saved()
-                finally:
-                    writer.close()
+            objects_found = []
             try:
+                for oid, changed_object in iteritems(self.changed):
+                    writer = ObjectWriter(self)
+                    try:
+                        for obj in writer.gen_new_objects(changed_object):
+                            oid = obj._p_oid
+                            if oid in new_objects:
+                                continue
+                            elif oid not in self.changed:
+                                new_objects[oid] = obj
+                                self.cache[oid] = obj
+                            data, refs = writer.get_state(obj)
+                            self.storage.store(
+                                oid, pack_record(oid, data, refs))
+                            obj._p_set_status_saved()
+                    finally:
+                        objects_found.extend(writer.objects_found)
+                        writer.close()
                 self.storage.end(self._handle_invalidations)
-            except ConflictError:
-                for oid, obj in iteritems(new_objects):
+            except:
+                # Nothing was stored.  The new objects are new again.
+                for obj in objects_found:
+                    oid = obj._p_oid
                     obj._p_oid = None
                     del self.cache[oid]
                     obj._p_set_status_unsaved()
-- 
2.43.0


From 93d7c126024bf6bb2e43f1e9512b35ef984a9972 Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 08/39] fix: a reopened SqliteStorage allocated an oid that is
 in use

---
 durus/sqlite_storage.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 03f1998..290f85f 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -84,14 +84,15 @@ class SqliteStorage(Storage):
 
     def _get_last_oid(self):
         """() -> int
-        Return the highest OID in the database as integer.
+        Return the lowest OID, as integer, that is above all of the OIDs in
+        the database.
         """
         c = self._conn.cursor()
         c.execute('SELECT max(id) FROM objects')
         v = c.fetchone()
-        if v is None:
+        if v is None or v[0] is None:
             return 0
-        return v[0]
+        return v[0] + 1
 
     def load(self, oid):
         """(str) -> str
@@ -259,3 +260,4 @@ class SqliteStorage(Storage):
             for oid, record in items:
                 yield record
         self._store_records(gen_recs(oid_records))
+        self._last_oid = self._get_last_oid()
-- 
2.43.0


From 72ed615a7df36d103e82eba8095d2574c5a1525f Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 09/39] fix: SqliteStorage could not generate all of its
 records

---
 durus/sqlite_storage.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 290f85f..b5a0e2a 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -14,7 +14,7 @@ import collections
 from durus.logger import log, is_logging
 from durus.serialize import pack_record, unpack_record, split_oids
 from durus.storage import Storage
-from durus.utils import int8_to_str, str_to_int8, iteritems, as_bytes
+from durus.utils import int8_to_str, str_to_int8, as_bytes
 import durus.connection
 
 
@@ -147,13 +147,14 @@ class SqliteStorage(Storage):
 
     def _gen_records(self):
         c = self._conn.cursor()
-        c.execute('SELECT (id, data, refs) FROM objects ORDER BY id')
+        c.execute('SELECT id, data, refs FROM objects ORDER BY id')
         for oid, data, refs in c.fetchall():
-            yield int8_to_str(oid), pack_record(oid, data, refs)
+            oid = int8_to_str(oid)
+            yield oid, pack_record(oid, data, refs)
 
     def gen_oid_record(self, start_oid=None, **other):
         if start_oid is None:
-            for item in iteritems(self._gen_records()):
+            for item in self._gen_records():
                 yield item
         else:
             todo = [start_oid]
-- 
2.43.0


From 55b4fc57c2070d08b58283c12ed3ad6f2fa88944 Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 10/39] fix: adding to a small IntSet could raise an IndexError

---
 durus/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/utils.py b/durus/utils.py
index ff84210..ccd36ef 100644
--- a/durus/utils.py
+++ b/durus/utils.py
@@ -521,7 +521,7 @@ class IntSet (object):
 
     def add(self, n):
         if n >= self.bit_array.get_size():
-            self.bit_array.set_size(int(n * 1.2))
+            self.bit_array.set_size(max(n + 1, int(n * 1.2)))
         self.bit_array[n] = 1
 
     def __contains__(self, n):
-- 
2.43.0


From 4bc9f0a007d9c2da52a64a7f84f881c7afca997d Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 11/39] fix: a failed ClientStorage.bulk_load left responses
 unread

---
 durus/client_storage.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/durus/client_storage.py b/durus/client_storage.py
index dc14845..668f662 100644
--- a/durus/client_storage.py
+++ b/durus/client_storage.py
@@ -125,7 +125,17 @@ class ClientStorage (Storage):
         num_oids, remainder = divmod(len(oid_str), 8)
         assert remainder == 0, remainder
         write_all(self.s, 'B', int4_to_str(num_oids), oid_str)
-        records = [self._get_load_response(oid) for oid in oids]
+        # Read every response, even if one of them is an error, so that the
+        # next response read from the socket is for the next request.
+        records = []
+        error = None
+        for oid in split_oids(oid_str):
+            try:
+                records.append(self._get_load_response(oid))
+            except (ReadConflictError, DurusKeyError) as e:
+                error = error or e
+        if error is not None:
+            raise error
         for record in records:
             yield record
 
-- 
2.43.0


From a0c2740c7282be9a0288cca4bd2dbfbea3b14ab7 Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 12/39] fix: an invalidation of a changed, unaccessed object
 was not a conflict

---
 durus/connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index 9aa1f1a..08465cf 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -304,11 +304,11 @@ class Connection (ConnectionBase):
             obj = self.cache.get(oid)
             if obj is None:
                 continue
-            if obj._p_serial == self.transaction_serial:
+            if (obj._p_serial == self.transaction_serial or
+                oid in self.changed):
                 conflicts.append(oid)
                 self.invalid_oids.add(oid)
             elif not obj._p_is_ghost():
-                assert oid not in self.changed
                 obj._p_set_status_ghost()
         if conflicts:
             if read_oid is None:
-- 
2.43.0


From 040c0fcc6c8705ca51eb647c2697952677bea203 Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 13/39] fix: SqliteStorage pack could remove an object just
 made reachable

---
 durus/sqlite_storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index b5a0e2a..fa921f0 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -238,8 +238,8 @@ class SqliteStorage(Storage):
                 if oid not in alive:
                     dead.add(oid)
             self.pack_extra = None
-            # safe to yield now, we have finished identifying dead objects
-            yield None
+            # We can't yield before the dead objects are removed: a commit
+            # could make one of them reachable again.
             self._delete(dead)
             yield "finished %s, %d live objects, %d removed" % (
                     datetime.now(), len(alive), len(dead))
-- 
2.43.0


From d758a6febf16b8da7751c7393b2fbd6c40e9597c Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 14/39] fix: SqliteStorage pack did not invalidate the objects
 it removed

---
 durus/sqlite_storage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index fa921f0..b8135c2 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -241,6 +241,7 @@ class SqliteStorage(Storage):
             # We can't yield before the dead objects are removed: a commit
             # could make one of them reachable again.
             self._delete(dead)
+            self.invalid.update(dead)
             yield "finished %s, %d live objects, %d removed" % (
                     datetime.now(), len(alive), len(dead))
         return packer()
-- 
2.43.0


From a4469f0de9b96ef7f7f1fc05f36da4f9b91cebdd Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 15/39] fix: the state pickle could be followed by part of the
 compressed one

---
 durus/serialize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/durus/serialize.py b/durus/serialize.py
index 4fdc4be..4fd09b3 100644
--- a/durus/serialize.py
+++ b/durus/serialize.py
@@ -188,6 +188,7 @@ class ObjectReader (object):
                 pass # let the unpickler try anyway.
             else:
                 s.write(decompressed)
+                s.truncate()
                 s.seek(position)
         if load:
             return unpickler.load()
-- 
2.43.0


From c4e804edfe5a9b51251a1a6856eac07f110f5120 Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 16/39] fix: str() of a DurusKeyError raised an AttributeError

---
 durus/error.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/error.py b/durus/error.py
index 30632b8..07c5236 100644
--- a/durus/error.py
+++ b/durus/error.py
@@ -11,7 +11,7 @@ class DurusKeyError (KeyError, DurusError):
     """Key not found in database."""
 
     def __str__(self):
-        first_oid = self.oids[0]
+        first_oid = self.args[0]
         return str(first_oid and str_to_int8(first_oid))
 
 
-- 
2.43.0


From 471772ef82bac31ad9838f2d884372e52552061a Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 17/39] fix: a packer that has nothing to do must be an
 iterator

---
 durus/file_storage2.py  | 2 +-
 durus/sqlite_storage.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 06e36f2..3b8739b 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -271,7 +271,7 @@ class FileStorage2(Storage):
         assert not self.fp.is_temporary()
         assert not self.fp.is_readonly()
         if self.pack_extra is not None or self.pending_records:
-            return ()
+            return iter(())
         else:
             self.pack_extra = []
             return self._packer()
diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index b8135c2..ccd7c4b 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -204,7 +204,7 @@ class SqliteStorage(Storage):
             self.pack_extra is not None or
             self.is_temporary() or
             self.is_readonly()):
-            return [x for x in []] # Don't pack.
+            return (x for x in []) # Don't pack.
         self.pack_extra = []
         alive = set() # will contain OIDs of all reachable from root
         def packer():
-- 
2.43.0


From 557a8b89b94e5f2f6989ed22fb818ab83ca2dfa0 Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 18/39] fix: a commit whose client is gone did not invalidate
 other clients

---
 durus/storage_server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 44804bf..68999e0 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -416,12 +416,13 @@ class StorageServer (object):
             self._report_load_record()
             log(20, 'Committed %3s objects %s bytes at %s',
                 len(oids), len(tdata), datetime.now())
-            write(s, STATUS_OKAY)
+            # This comes before the response, because the write may fail.
             client.unused_oids -= oid_set
             for c in self.clients:
                 if c is not client:
                     c.invalid.update(oids)
             self.bytes_since_pack += len(tdata) + 8
+            write(s, STATUS_OKAY)
 
     def _report_load_record(self):
         if self.load_record and is_logging(5):
-- 
2.43.0


From f6e7b516b253af162c7bad4bce7cf85f8a7d164b Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 19/39] fix: a malformed commit from one client stopped the
 server

---
 durus/storage_server.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 68999e0..cf26890 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -390,6 +390,8 @@ class StorageServer (object):
         i = 0
         oids = []
         while i < len(tdata):
+            if len(tdata) - i < 12:
+                raise ClientError("malformed commit")
             rlen = str_to_int4(tdata[i:i+4])
             i += 4
             oid = tdata[i:i+8]
@@ -399,9 +401,13 @@ class StorageServer (object):
                 class_name = extract_class_name(record)
                 log(10, '  oid=%-6s rlen=%-6s %s',
                     str_to_int8(oid), rlen, class_name)
-            self.storage.store(oid, record)
+            try:
+                self.storage.store(oid, record)
+            except ValueError:
+                raise ClientError("invalid oid: %r" % oid)
             oids.append(oid)
-        assert i == len(tdata)
+        if i != len(tdata):
+            raise ClientError("malformed commit")
         oid_set = set(oids)
         for other_client in self.clients:
             if other_client is not client:
-- 
2.43.0


From fdbf0049dc7267bedd9a225a4d3203380fceb1cc Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 20/39] fix: FileStorage pack did not invalidate the highest
 oids it removed

---
 durus/file_storage.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/durus/file_storage.py b/durus/file_storage.py
index a159b11..a61485b 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -156,6 +156,12 @@ class FileStorage (Storage):
                 if self.shelf.get_position(oid) is not None:
                     assert shelf.get_position(oid) is None
                     self.invalid.add(oid)
+            # The new offset map ends after the highest oid that it holds.
+            for oid in self.shelf:
+                hole = str_to_int8(oid)
+                yield hole
+                if hole >= shelf.get_offset_map().get_array_size():
+                    self.invalid.add(oid)
             yield "invalidations identified %s" % datetime.now()
             for oid in self.pack_extra:
                 seen.discard(str_to_int8(oid))
-- 
2.43.0


From 3bfe4acb28169ca353a93b746c5212e6f024369c Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 21/39] fix: a crash in a pack could leave no file at the
 storage's path

---
 durus/file.py          | 21 +++++++++++++++++++--
 durus/file_storage.py  |  7 ++++---
 durus/file_storage2.py |  7 +++----
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/durus/file.py b/durus/file.py
index 8b941b6..06866cb 100755
--- a/durus/file.py
+++ b/durus/file.py
@@ -71,12 +71,29 @@ class File (object):
         assert not self.is_temporary()
         self.obtain_lock()
         self.close()
-        if exists(name):
-            os.unlink(name)
+        if os.name == 'nt' and exists(name):
+            os.unlink(name) # Elsewhere, os.rename() replaces the file.
         os.rename(old_name, name)
         self.file = open(name, 'r+b')
         self.obtain_lock()
 
+    def link(self, name):
+        """
+        Make name another name for this file.  If that is not possible,
+        rename this file.
+        """
+        assert not self.is_temporary()
+        self.obtain_lock()
+        if os.name != 'nt':
+            if exists(name):
+                os.unlink(name)
+            try:
+                os.link(self.get_name(), name)
+                return
+            except OSError:
+                pass
+        self.rename(name)
+
     def obtain_lock(self):
         """
         Make sure that we have an exclusive lock on self.file before
diff --git a/durus/file_storage.py b/durus/file_storage.py
index a61485b..f9b8d63 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -169,10 +169,11 @@ class FileStorage (Storage):
                 shelf.store(self.gen_oid_record(start_oid=oid, seen=seen))
             file.flush()
             file.fsync()
-            if not self.shelf.get_file().is_temporary():
-                self.shelf.get_file().rename(file_path + '.prepack')
-                self.shelf.get_file().close()
+            # There is a complete file at file_path at all times.
+            old_file = self.shelf.get_file()
+            old_file.link(file_path + '.prepack')
             shelf.get_file().rename(file_path)
+            old_file.close()
             self.shelf = shelf
             self.pack_extra = None
             yield "finished %s" % datetime.now()
diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 3b8739b..fd4c93f 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -251,11 +251,10 @@ class FileStorage2(Storage):
         self._write_index(packed, index)
         packed.flush()
         packed.fsync()
-        if self.fp.is_temporary():
-            self.fp.close()
-        else:
-            self.fp.rename(prepack_name)
+        # There is a complete file at name at all times.
+        self.fp.link(prepack_name)
         packed.rename(name)
+        self.fp.close()
         self.fp = packed
         for oid in self.index:
             if oid not in index:
-- 
2.43.0


From d76de01f58f2ef297b661051d59c00a6dc3aa817 Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 22/39] fix: BTree deletion could corrupt the tree when merging
 nodes

---
 durus/btree.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/durus/btree.py b/durus/btree.py
index 1b51ac2..4dd94a5 100644
--- a/durus/btree.py
+++ b/durus/btree.py
@@ -238,15 +238,16 @@ class BNode(PersistentObject):
                     self.items[p] = extreme
                 else:
                     # Case 2c.
-                    extreme = upper_sibling.get_min_item()
-                    upper_sibling.delete(extreme[0])
-                    node.items = node.items + [extreme] + upper_sibling.items
+                    node.items = (
+                        node.items + [self.items[p]] + upper_sibling.items
+                    )
                     if not node.is_leaf():
                         node.nodes = node.nodes + upper_sibling.nodes
-                    node._count += upper_sibling._count
-                    self._count -= 1
+                    node._count += upper_sibling._count + 1
                     del self.items[p]
                     del self.nodes[p + 1]
+                    node.delete(key)
+                    self._count -= 1
                 self._p_note_change()
             else:
                 if not is_big(node):
-- 
2.43.0


From 749ab0546f94db02a70dd72da10d6178b0a5cff5 Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 23/39] fix: BTree deletion could fail depending on the counts
 of BNodes

---
 durus/btree.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/durus/btree.py b/durus/btree.py
index 4dd94a5..819b1b7 100644
--- a/durus/btree.py
+++ b/durus/btree.py
@@ -207,7 +207,8 @@ class BNode(PersistentObject):
         """
         def is_big(node):
             # Precondition for recursively calling node.delete(key).
-            return node and len(node.items) >= node.minimum_degree
+            return (node is not None and
+                    len(node.items) >= node.minimum_degree)
         p = self.get_position(key)
         matches = p < len(self.items) and self.items[p][0] == key
         if self.is_leaf():
@@ -220,8 +221,11 @@ class BNode(PersistentObject):
                 raise KeyError(key)
         else:
             node = self.nodes[p]
-            lower_sibling = p > 0 and self.nodes[p - 1]
-            upper_sibling = p < len(self.nodes) - 1 and self.nodes[p + 1]
+            lower_sibling = upper_sibling = None
+            if p > 0:
+                lower_sibling = self.nodes[p - 1]
+            if p < len(self.nodes) - 1:
+                upper_sibling = self.nodes[p + 1]
             if matches:
                 # Case 2.
                 if is_big(node):
@@ -273,7 +277,7 @@ class BNode(PersistentObject):
                             node.nodes.append(upper_sibling.nodes[0])
                             del upper_sibling.nodes[0]
                         upper_sibling._p_note_change()
-                    elif lower_sibling:
+                    elif lower_sibling is not None:
                         # Case 3b1: Merge with lower_sibling
                         node.items = (
                             lower_sibling.items
-- 
2.43.0


From 47ca00fdd025f9a351c53bf0bcb45f0ec8a27106 Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 24/39] fix: the counts of BNodes did not follow a node that
 was moved

---
 durus/btree.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/durus/btree.py b/durus/btree.py
index 819b1b7..b88c045 100644
--- a/durus/btree.py
+++ b/durus/btree.py
@@ -263,7 +263,10 @@ class BNode(PersistentObject):
                         del lower_sibling.items[-1]
                         lower_sibling._count -= 1
                         if not node.is_leaf():
-                            node.nodes.insert(0, lower_sibling.nodes[-1])
+                            moved = lower_sibling.nodes[-1]
+                            node.nodes.insert(0, moved)
+                            node._count += moved._count
+                            lower_sibling._count -= moved._count
                             del lower_sibling.nodes[-1]
                         lower_sibling._p_note_change()
                     elif is_big(upper_sibling):
@@ -274,7 +277,10 @@ class BNode(PersistentObject):
                         del upper_sibling.items[0]
                         upper_sibling._count -= 1
                         if not node.is_leaf():
-                            node.nodes.append(upper_sibling.nodes[0])
+                            moved = upper_sibling.nodes[0]
+                            node.nodes.append(moved)
+                            node._count += moved._count
+                            upper_sibling._count -= moved._count
                             del upper_sibling.nodes[0]
                         upper_sibling._p_note_change()
                     elif lower_sibling is not None:
-- 
2.43.0


From a2ab67120e6bc3141484593e6a0b0218677fc6ab Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 25/39] fix: deleting a missing key could make a BTree appear
 to be empty

---
 durus/btree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/durus/btree.py b/durus/btree.py
index b88c045..c39b093 100644
--- a/durus/btree.py
+++ b/durus/btree.py
@@ -470,6 +470,8 @@ class BTree(PersistentObject, collections.abc.MutableMapping):
         return item[1]
 
     def __delitem__(self, key):
+        if self.root.search(key) is None:
+            raise KeyError(key) # Leave the tree as it is.
         self.root.delete(key)
 
     def clear(self):
-- 
2.43.0


From 2242a4eca24ba0051a04b77a04c8a6530677f3e6 Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 26/39] fix: an attribute name with a surrogate crashed the C
 PersistentBase

---
 durus/_persistent.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/durus/_persistent.c b/durus/_persistent.c
index c61a3ff..6949e68 100644
--- a/durus/_persistent.c
+++ b/durus/_persistent.c
@@ -170,6 +170,8 @@ pb_getattro(PersistentBaseObject *self, PyObject *name)
 		PyErr_SetString(PyExc_TypeError, "attribute name must be a string");
 		return NULL;
     }
+	if (sname == NULL)
+		return NULL;
 	if (load_triggering_name(sname)) {
 		if (!pb_load(self))
 			return NULL;
@@ -189,6 +191,8 @@ pb_setattro(PersistentBaseObject *self, PyObject *name, PyObject *value)
 		PyErr_SetString(PyExc_TypeError, "attribute name must be a string");
         return -1;
 	}
+	if (sname == NULL)
+		return -1;
 	if (load_triggering_name(sname)) {
 		if (self->p_status != UNSAVED) {
 			if (!call_method((PyObject *)self, "_p_note_change", NULL))
-- 
2.43.0


From b6b6a21b4314bc4d988fa98035991919be146dfd Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 27/39] fix: PersistentSet.difference_update() failed when
 given the set itself

---
 durus/persistent_set.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/durus/persistent_set.py b/durus/persistent_set.py
index 96b7686..64e9d90 100644
--- a/durus/persistent_set.py
+++ b/durus/persistent_set.py
@@ -158,6 +158,8 @@ class PersistentSet (PersistentObject, collections.abc.MutableSet):
 
     def difference_update(self, other):
         self._p_note_change()
+        if other is self:
+            other = self.s
         return self.s.difference_update(other)
 
     def intersection(self, *others):
-- 
2.43.0


From c81ba75540659706d8acd97f171bdba8964b75f9 Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 28/39] fix: data of a failed write stayed in the buffer and
 was written later

---
 durus/file.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/durus/file.py b/durus/file.py
index 06866cb..1174a99 100755
--- a/durus/file.py
+++ b/durus/file.py
@@ -23,11 +23,11 @@ class File (object):
                 if readonly:
                     self.file = open(name, 'rb')
                 else:
-                    self.file = open(name, 'r+b')
+                    self.file = open(name, 'r+b', 0)
             else:
                 if readonly:
                     raise OSError('No "%s" found.' % name)
-                self.file = open(name, 'w+b')
+                self.file = open(name, 'w+b', 0)
         if readonly:
             assert self.is_readonly()
         self.has_lock = False
@@ -74,7 +74,7 @@ class File (object):
         if os.name == 'nt' and exists(name):
             os.unlink(name) # Elsewhere, os.rename() replaces the file.
         os.rename(old_name, name)
-        self.file = open(name, 'r+b')
+        self.file = open(name, 'r+b', 0)
         self.obtain_lock()
 
     def link(self, name):
@@ -130,7 +130,11 @@ class File (object):
 
     def write(self, s):
         self.obtain_lock()
-        self.file.write(s)
+        # The file is not buffered: after an error, a buffer would keep the
+        # data and write it later.
+        n = self.file.write(s)
+        while n < len(s):
+            n += self.file.write(s[n:])
         # This flush helps the file knows where it ends.
         self.file.flush()
 
-- 
2.43.0


From 482f5356beef617c1b79c2a82fb63a6fef5cfb51 Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 29/39] fix: Shelf.store reverts when the write of the length
 fails

---
 durus/shelf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/durus/shelf.py b/durus/shelf.py
index e23e1c5..694d635 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -195,13 +195,13 @@ class Shelf (object):
         """
         self.file.seek_end()
         start = self.file.tell()
-        # Until all of the records have been written, the length is one that no
-        # file can have, so an interrupted transaction is not taken for (a
-        # sequence of) complete ones.
-        write_int8(self.file, 2**64 - 1)
         result = []
         index = {}
         try:
+            # Until all of the records have been written, the length is one
+            # that no file can have, so an interrupted transaction is not taken
+            # for (a sequence of) complete ones.
+            write_int8(self.file, 2**64 - 1)
             for name, value in name_value_sequence:
                 new_position = self.file.tell()
                 old_position = self.get_position(name)
-- 
2.43.0


From c43c29b5c0224a4736262e6c9e9182fbf09f97bf Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 30/39] fix: StorageServer refuses records that are malformed
 or of another oid

---
 durus/storage_server.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index cf26890..6abe7b6 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -397,6 +397,11 @@ class StorageServer (object):
             oid = tdata[i:i+8]
             record = tdata[i+8:i+rlen]
             i += rlen
+            if record[:8] != oid or len(record) < 12:
+                raise ClientError("malformed commit")
+            refs_length = len(record) - 12 - str_to_int4(record[8:12])
+            if refs_length < 0 or refs_length % 8 != 0:
+                raise ClientError("malformed commit")
             if logging_debug:
                 class_name = extract_class_name(record)
                 log(10, '  oid=%-6s rlen=%-6s %s',
-- 
2.43.0


From 001a2d7be11c1f503f5bd325e4bc054c5762b90c Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 31/39] fix: the records of a failed commit kept the server
 from packing

---
 durus/storage_server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 6abe7b6..68ad019 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -315,7 +315,11 @@ class StorageServer (object):
         handler = getattr(self, 'handle_%s' % command_code, None)
         if handler is None:
             raise ClientError('No such command code: %r' % command_code)
-        handler(s)
+        try:
+            handler(s)
+        except Exception:
+            self.storage.begin() # Forget the records of a failed commit.
+            raise
 
     def _find_client(self, s):
         for client in self.clients:
-- 
2.43.0


From 7dd2a5af2832ebf05ae3211ad1692031ab499474 Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 32/39] fix: SqliteStorage reverts a commit that fails

---
 durus/sqlite_storage.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index ccd7c4b..34749d8 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -122,9 +122,14 @@ class SqliteStorage(Storage):
                     # ensure object and refs are marked alive and not removed
                     self.pack_extra.append(oid)
         c = self._conn.cursor()
-        c.executemany('INSERT OR REPLACE INTO objects (id, data, refs)'
-                      ' VALUES (?, ?, ?)', gen_items(records))
-        self._commit()
+        try:
+            c.executemany('INSERT OR REPLACE INTO objects (id, data, refs)'
+                          ' VALUES (?, ?, ?)', gen_items(records))
+            self._commit()
+        except:
+            # Revert before raising.
+            self._conn.rollback()
+            raise
 
     def end(self, handle_invalidations=None):
         self._store_records(self.pending_records)
-- 
2.43.0


From 33a591839ec705636119b05ef1b7cb2d11db43f6 Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 22:47:12 +0000
Subject: [PATCH 33/39] fix: FileStorage2 and SqliteStorage refuse records of
 oids that were never allocated

---
 durus/file_storage2.py  | 5 +++++
 durus/sqlite_storage.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index fd4c93f..e644143 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -138,6 +138,11 @@ class FileStorage2(Storage):
 
     def store(self, oid, record):
         """Add a record during a commit."""
+        n = str_to_int8(oid)
+        if n > max(self.oid, 0):
+            self.begin()
+            raise ValueError("oid %r is a surprise" % oid)
+        self.oid = max(self.oid, n)
         self.pending_records[oid] = record
 
     def _generate_pending_records(self):
diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 34749d8..4ca1e97 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -111,6 +111,11 @@ class SqliteStorage(Storage):
 
     def store(self, oid, record):
         """(str, str)"""
+        n = str_to_int8(oid)
+        if n > max(self._last_oid - 1, 0):
+            self.begin()
+            raise ValueError("oid %r is a surprise" % oid)
+        self._last_oid = max(self._last_oid, n + 1)
         self.pending_records.append(record)
 
     def _store_records(self, records):
-- 
2.43.0


From 567056f82bde809c2646488dd19fa92d8992b880 Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 34/39] fix: FileStorage2.create_from_records left the storage
 without its index

---
 durus/file_storage2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index e644143..f2f1973 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -352,3 +352,6 @@ class FileStorage2(Storage):
         self._write_index(self.fp, index)
         self.fp.flush()
         self.fp.fsync()
+        self.index = index
+        for oid in index:
+            self.oid = max(self.oid, str_to_int8(oid))
-- 
2.43.0


From 11e8548139fa688c93245b182a5b239568fb928b Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 35/39] fix: the records of a failed commit kept the storage
 from packing

---
 durus/connection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/durus/connection.py b/durus/connection.py
index 08465cf..7594f7d 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -283,6 +283,7 @@ class Connection (ConnectionBase):
                 self.storage.end(self._handle_invalidations)
             except:
                 # Nothing was stored.  The new objects are new again.
+                self.storage.begin() # Forget the records.
                 for obj in objects_found:
                     oid = obj._p_oid
                     obj._p_oid = None
-- 
2.43.0


From 3536503ab760fe7cf5027396d3f56aab90c598dc Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 36/39] fix: FileStorage announced the objects that a pack
 removes before they were gone

---
 durus/file_storage.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/durus/file_storage.py b/durus/file_storage.py
index f9b8d63..d744a89 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -150,18 +150,19 @@ class FileStorage (Storage):
             shelf = Shelf(file)
             yield "base written %s" % datetime.now()
             # Invalidate oids that have been removed.
+            removed = set()
             for hole in shelf.get_offset_map().gen_holes():
                 yield hole
                 oid = int8_to_str(hole)
                 if self.shelf.get_position(oid) is not None:
                     assert shelf.get_position(oid) is None
-                    self.invalid.add(oid)
+                    removed.add(oid)
             # The new offset map ends after the highest oid that it holds.
             for oid in self.shelf:
                 hole = str_to_int8(oid)
                 yield hole
                 if hole >= shelf.get_offset_map().get_array_size():
-                    self.invalid.add(oid)
+                    removed.add(oid)
             yield "invalidations identified %s" % datetime.now()
             for oid in self.pack_extra:
                 seen.discard(str_to_int8(oid))
@@ -176,6 +177,8 @@ class FileStorage (Storage):
             old_file.close()
             self.shelf = shelf
             self.pack_extra = None
+            # These are gone now, not before.
+            self.invalid.update(removed)
             yield "finished %s" % datetime.now()
         return packer()
 
-- 
2.43.0


From 34558b6a3e297f876d6b4c537d9101c68e146049 Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 37/39] fix: FileStorage pack announced the removal of objects
 that it kept

---
 durus/file_storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/durus/file_storage.py b/durus/file_storage.py
index d744a89..f819993 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -178,7 +178,8 @@ class FileStorage (Storage):
             self.shelf = shelf
             self.pack_extra = None
             # These are gone now, not before.
-            self.invalid.update(removed)
+            self.invalid.update(
+                oid for oid in removed if shelf.get_position(oid) is None)
             yield "finished %s" % datetime.now()
         return packer()
 
-- 
2.43.0


From 8d0e1d594b51acccddffece6e42c7998d58235d3 Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 38/39] fix: SqliteStorage.load() of a very large oid is a
 KeyError

---
 durus/sqlite_storage.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 4ca1e97..f65a9d5 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -99,8 +99,11 @@ class SqliteStorage(Storage):
         Return object record identified by 'oid'.
         """
         c = self._conn.cursor()
-        c.execute('SELECT id, data, refs FROM objects WHERE id = ?',
-                (str_to_int8(oid),))
+        try:
+            c.execute('SELECT id, data, refs FROM objects WHERE id = ?',
+                    (str_to_int8(oid),))
+        except OverflowError:
+            raise KeyError(oid) # SQLite has no integer that large.
         v = c.fetchone()
         if v is None:
             raise KeyError(oid)
@@ -193,8 +196,11 @@ class SqliteStorage(Storage):
 
     def _get_refs(self, oid):
         c = self._conn.cursor()
-        c.execute('SELECT refs FROM objects WHERE id = ?',
-                (str_to_int8(oid),))
+        try:
+            c.execute('SELECT refs FROM objects WHERE id = ?',
+                    (str_to_int8(oid),))
+        except OverflowError:
+            raise KeyError(oid) # SQLite has no integer that large.
         v = c.fetchone()
         if v is None:
             raise KeyError(oid)
-- 
2.43.0


From a62c4d692df1015c9a309d87a45bbfce74031fc3 Mon Sep 17 00:00:00 2001
From: verifier <verifier@example.com>
Date: Thu, 19 Nov 2026 23:14:19 +0000
Subject: [PATCH 39/39] fix: a record without a class name could stop a server
 that logs its loads

---
 durus/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/serialize.py b/durus/serialize.py
index 4fd09b3..888a298 100644
--- a/durus/serialize.py
+++ b/durus/serialize.py
@@ -52,7 +52,7 @@ def extract_class_name(record):
         oid, state, refs = unpack_record(record)
         return state.split(NEWLINE, 2)[1]
     except IndexError:
-        return "?"
+        return as_bytes("?")
 
 if sys.version < "3":
     def method(a, b):
-- 
2.43.0

