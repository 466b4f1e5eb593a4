From 0936981b3b4ee45015c8bdd34b411cd1dbc637fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 01/51] fix: disk storage replaces vector and metadata
 atomically and durably

A crash or I/O error during a store or update left a truncated vector file, or a
vector paired with other metadata. Both now live in one file that is written
completely, flushed and renamed into place; metadata files written by earlier
versions are still read.
---
 src/valori/storage/disk.py | 57 +++++++++++++++++++++-----------------
 src/valori/utils/atomic.py | 48 ++++++++++++++++++++++++++++++++
 2 files changed, 79 insertions(+), 26 deletions(-)
 create mode 100644 src/valori/utils/atomic.py

diff --git a/src/valori/storage/disk.py b/src/valori/storage/disk.py
index 2b6b0c1..71446f1 100644
--- a/src/valori/storage/disk.py
+++ b/src/valori/storage/disk.py
@@ -10,6 +10,7 @@ from typing import Any, Dict, List, Optional, Tuple
 import numpy as np
 
 from ..exceptions import StorageError
+from ..utils.atomic import atomic_write, fsync_dir
 from .base import StorageBackend
 
 
@@ -59,18 +60,12 @@ class DiskStorage(StorageBackend):
 
             # Store vector
             vector_path = self.vectors_dir / f"{safe_id}.npy"
-            np.save(vector_path, vector)
-
-            # Store metadata
-            if metadata is not None:
-                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-                with open(metadata_path, "wb") as f:
-                    pickle.dump(metadata, f)
-            else:
-                # Remove metadata file if exists
-                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-                if metadata_path.exists():
-                    metadata_path.unlink()
+            self._write_entry(vector_path, vector, metadata)
+
+            # Remove metadata file of an earlier version if exists
+            metadata_path = self.metadata_dir / f"{safe_id}.pkl"
+            if metadata_path.exists():
+                metadata_path.unlink()
 
             self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
             return True
@@ -91,9 +86,16 @@ class DiskStorage(StorageBackend):
             if not vector_path.exists():
                 return None
 
-            vector = np.load(vector_path)
+            with open(vector_path, "rb") as f:
+                vector = np.load(f)
+
+                # Load metadata
+                try:
+                    metadata = pickle.load(f)
+                    return vector, metadata
+                except EOFError:
+                    pass  # written by an earlier version, metadata is in its own file
 
-            # Load metadata
             metadata = None
             metadata_path = self.metadata_dir / f"{safe_id}.pkl"
             if metadata_path.exists():
@@ -118,6 +120,7 @@ class DiskStorage(StorageBackend):
             vector_deleted = False
             if vector_path.exists():
                 vector_path.unlink()
+                fsync_dir(self.vectors_dir)
                 vector_deleted = True
 
             # Delete metadata file
@@ -149,18 +152,12 @@ class DiskStorage(StorageBackend):
                 return False
 
             # Update vector
-            np.save(vector_path, vector)
-
-            # Update metadata
-            if metadata is not None:
-                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-                with open(metadata_path, "wb") as f:
-                    pickle.dump(metadata, f)
-            else:
-                # Remove metadata file
-                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-                if metadata_path.exists():
-                    metadata_path.unlink()
+            self._write_entry(vector_path, vector, metadata)
+
+            # Remove metadata file of an earlier version
+            metadata_path = self.metadata_dir / f"{safe_id}.pkl"
+            if metadata_path.exists():
+                metadata_path.unlink()
 
             return True
 
@@ -217,6 +214,14 @@ class DiskStorage(StorageBackend):
         """Close the disk storage backend."""
         self._initialized = False
 
+    def _write_entry(
+        self, vector_path: Path, vector: np.ndarray, metadata: Optional[Dict]
+    ) -> None:
+        """Write vector and metadata to one file, replacing it all at once."""
+        with atomic_write(vector_path) as f:
+            np.save(f, vector, allow_pickle=False)
+            pickle.dump(metadata, f)
+
     def _sanitize_id(self, id: str) -> str:
         """Sanitize ID for use as filename."""
         # Replace invalid characters with underscores
diff --git a/src/valori/utils/atomic.py b/src/valori/utils/atomic.py
new file mode 100644
index 0000000..c401fd5
--- /dev/null
+++ b/src/valori/utils/atomic.py
@@ -0,0 +1,48 @@
+"""
+Crash-safe file replacement for the valori vector database.
+"""
+
+import os
+from contextlib import contextmanager
+from pathlib import Path
+from typing import IO, Iterator, Union
+
+
+def fsync_dir(path: Union[str, Path]) -> None:
+    """Make creations, renames and removals in a directory durable."""
+    if os.name == "nt":  # directories cannot be opened there
+        return
+
+    fd = os.open(path, os.O_RDONLY)
+    try:
+        os.fsync(fd)
+    finally:
+        os.close(fd)
+
+
+@contextmanager
+def atomic_write(path: Union[str, Path], mode: str = "wb") -> Iterator[IO]:
+    """
+    Open a file for writing that replaces `path` only once it is complete.
+
+    The content goes to a temporary file next to the target, is flushed to disk and
+    then renamed. If writing fails, or the process dies, the target keeps its previous
+    content.
+    """
+    path = Path(path)
+    tmp_path = path.with_name(path.name + ".tmp")
+
+    try:
+        with open(tmp_path, mode) as f:
+            yield f
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(tmp_path, path)
+    except Exception:
+        try:
+            tmp_path.unlink()
+        except OSError:
+            pass
+        raise
+
+    fsync_dir(path.parent)
-- 
2.43.0


From b966ec0d6a4b97a0c09de134c9f6551b409829a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 02/51] fix: disk storage keeps ids with special characters
 apart

Replacing characters by underscores made different ids share one file, and
list_vectors returned ids that were never stored.
---
 src/valori/storage/disk.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/valori/storage/disk.py b/src/valori/storage/disk.py
index 71446f1..3fbfe50 100644
--- a/src/valori/storage/disk.py
+++ b/src/valori/storage/disk.py
@@ -6,6 +6,7 @@ import os
 import pickle
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Tuple
+from urllib.parse import quote, unquote
 
 import numpy as np
 
@@ -171,7 +172,7 @@ class DiskStorage(StorageBackend):
 
         try:
             vector_files = list(self.vectors_dir.glob("*.npy"))
-            vector_ids = [f.stem for f in vector_files]
+            vector_ids = [unquote(f.stem) for f in vector_files]
 
             if limit is not None:
                 vector_ids = vector_ids[:limit]
@@ -224,6 +225,8 @@ class DiskStorage(StorageBackend):
 
     def _sanitize_id(self, id: str) -> str:
         """Sanitize ID for use as filename."""
-        # Replace invalid characters with underscores
-        safe_id = "".join(c if c.isalnum() or c in "._-" else "_" for c in id)
+        # Percent-encode invalid characters, so that different IDs stay different
+        safe_id = "".join(
+            c if c.isalnum() or c in "._-" else quote(c, safe="") for c in id
+        )
         return safe_id
-- 
2.43.0


From b3b43043d8e6a48e4960b99814b09b5ae24dc2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:25 +0000
Subject: [PATCH 03/51] fix: disk storage reports a failed directory read
 instead of an empty listing

pathlib's glob swallows OSError, so an I/O error made every vector disappear.
---
 src/valori/storage/disk.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/valori/storage/disk.py b/src/valori/storage/disk.py
index 3fbfe50..f5ef242 100644
--- a/src/valori/storage/disk.py
+++ b/src/valori/storage/disk.py
@@ -40,7 +40,7 @@ class DiskStorage(StorageBackend):
             self.metadata_dir.mkdir(parents=True, exist_ok=True)
 
             # Count existing vectors
-            self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
+            self._vector_count = len(self._vector_files())
             self._initialized = True
 
         except Exception as e:
@@ -68,7 +68,7 @@ class DiskStorage(StorageBackend):
             if metadata_path.exists():
                 metadata_path.unlink()
 
-            self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
+            self._vector_count = len(self._vector_files())
             return True
 
         except Exception as e:
@@ -130,7 +130,7 @@ class DiskStorage(StorageBackend):
                 metadata_path.unlink()
 
             if vector_deleted:
-                self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
+                self._vector_count = len(self._vector_files())
                 return True
             return False
 
@@ -171,7 +171,7 @@ class DiskStorage(StorageBackend):
             raise StorageError("Storage backend not initialized")
 
         try:
-            vector_files = list(self.vectors_dir.glob("*.npy"))
+            vector_files = self._vector_files()
             vector_ids = [unquote(f.stem) for f in vector_files]
 
             if limit is not None:
@@ -215,6 +215,11 @@ class DiskStorage(StorageBackend):
         """Close the disk storage backend."""
         self._initialized = False
 
+    def _vector_files(self) -> List[Path]:
+        """List the vector files; unlike glob, a failing directory read raises."""
+        names = os.listdir(self.vectors_dir)
+        return [self.vectors_dir / name for name in names if name.endswith(".npy")]
+
     def _write_entry(
         self, vector_path: Path, vector: np.ndarray, metadata: Optional[Dict]
     ) -> None:
-- 
2.43.0


From 284c0a7818d1170e68f8105e04ea4d7d15361434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 04/51] fix: hybrid storage drops its memory copy when a write
 fails

A store or update whose disk write failed part-way could leave the disk with the
new and the memory tier with the old vector.
---
 src/valori/storage/hybrid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/valori/storage/hybrid.py b/src/valori/storage/hybrid.py
index 473cb7b..0574705 100644
--- a/src/valori/storage/hybrid.py
+++ b/src/valori/storage/hybrid.py
@@ -77,6 +77,8 @@ class HybridStorage(StorageBackend):
                 return disk_success
 
         except Exception as e:
+            # The disk may hold the old or the new version now; let reads find out
+            self.memory_storage.delete_vector(id)
             raise StorageError(f"Failed to store vector {id}: {str(e)}")
 
     def retrieve_vector(self, id: str) -> Optional[Tuple[np.ndarray, Optional[Dict]]]:
@@ -146,6 +148,8 @@ class HybridStorage(StorageBackend):
                 return disk_success
 
         except Exception as e:
+            # The disk may hold the old or the new version now; let reads find out
+            self.memory_storage.delete_vector(id)
             raise StorageError(f"Failed to update vector {id}: {str(e)}")
 
     def list_vectors(self, limit: Optional[int] = None) -> List[str]:
-- 
2.43.0


From 0bd6c77d85fd1d0650abcb3c8e9d0757da827d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 05/51] fix: memory storage shares no metadata with its callers

Nested metadata was shared with the caller on store, and the stored dictionary
itself was handed out on retrieve. Metadata that cannot be copied, or encoded for
the size statistics, no longer leaves a half-applied entry behind.
---
 src/valori/storage/memory.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/valori/storage/memory.py b/src/valori/storage/memory.py
index 433825e..c686a87 100644
--- a/src/valori/storage/memory.py
+++ b/src/valori/storage/memory.py
@@ -2,6 +2,7 @@
 In-memory storage backend for the valori vector database.
 """
 
+import copy
 from threading import RLock
 from typing import Any, Dict, List, Optional, Tuple
 
@@ -48,12 +49,15 @@ class MemoryStorage(StorageBackend):
 
         try:
             with self.lock:
+                # Copy first, so that a failing copy changes nothing
+                metadata = copy.deepcopy(metadata)
+
                 # Store vector
                 self.vectors[id] = vector.copy()
 
                 # Store metadata
                 if metadata is not None:
-                    self.metadata[id] = metadata.copy()
+                    self.metadata[id] = metadata
                 else:
                     self.metadata.pop(id, None)  # Remove if exists
 
@@ -62,7 +66,7 @@ class MemoryStorage(StorageBackend):
                 self._memory_usage = sum(
                     vector.nbytes for vector in self.vectors.values()
                 ) + sum(
-                    len(str(meta).encode("utf-8")) for meta in self.metadata.values()
+                    len(str(meta).encode("utf-8", "replace")) for meta in self.metadata.values()
                 )
 
                 return True
@@ -79,7 +83,7 @@ class MemoryStorage(StorageBackend):
                 return None
 
             vector = self.vectors[id].copy()
-            metadata = self.metadata.get(id)
+            metadata = copy.deepcopy(self.metadata.get(id))
             return vector, metadata
 
     def delete_vector(self, id: str) -> bool:
@@ -98,7 +102,7 @@ class MemoryStorage(StorageBackend):
                     self._memory_usage = sum(
                         vector.nbytes for vector in self.vectors.values()
                     ) + sum(
-                        len(str(meta).encode("utf-8"))
+                        len(str(meta).encode("utf-8", "replace"))
                         for meta in self.metadata.values()
                     )
 
@@ -119,12 +123,15 @@ class MemoryStorage(StorageBackend):
                 if id not in self.vectors:
                     return False
 
+                # Copy first, so that a failing copy changes nothing
+                metadata = copy.deepcopy(metadata)
+
                 # Update vector
                 self.vectors[id] = vector.copy()
 
                 # Update metadata
                 if metadata is not None:
-                    self.metadata[id] = metadata.copy()
+                    self.metadata[id] = metadata
                 else:
                     self.metadata.pop(id, None)
 
@@ -132,7 +139,7 @@ class MemoryStorage(StorageBackend):
                 self._memory_usage = sum(
                     vector.nbytes for vector in self.vectors.values()
                 ) + sum(
-                    len(str(meta).encode("utf-8")) for meta in self.metadata.values()
+                    len(str(meta).encode("utf-8", "replace")) for meta in self.metadata.values()
                 )
 
                 return True
-- 
2.43.0


From 2a1de4449611f036e9246d601da8f9f9b1b45224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:44 +0000
Subject: [PATCH 06/51] fix: client serialises operations of concurrent callers

Index structures are not thread-safe: concurrent inserts, searches and deletes
through one client (as the parallel batch insert does) lost vectors or raised.
---
 src/valori/client.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/valori/client.py b/src/valori/client.py
index a664e39..fea7710 100644
--- a/src/valori/client.py
+++ b/src/valori/client.py
@@ -2,6 +2,8 @@
 High-level client for the Valori vector database.
 """
 
+from functools import wraps
+from threading import RLock
 from typing import Any, Dict, List, Optional, Union
 
 import numpy as np
@@ -14,6 +16,17 @@ from .quantization.base import Quantizer
 from .storage.base import StorageBackend
 
 
+def _synchronized(method):
+    """Let one thread at a time use the client; indices are not thread-safe."""
+
+    @wraps(method)
+    def wrapper(self, *args, **kwargs):
+        with self._lock:
+            return method(self, *args, **kwargs)
+
+    return wrapper
+
+
 class VectorDBClient:
     """
     High-level client for interacting with the Valori vector database.
@@ -46,7 +59,9 @@ class VectorDBClient:
         self.persistence_manager = persistence_manager
         self.config = config or {}
         self._initialized = False
+        self._lock = RLock()
 
+    @_synchronized
     def initialize(self) -> None:
         """Initialize all components."""
         try:
@@ -63,6 +78,7 @@ class VectorDBClient:
         except Exception as e:
             raise ValoriError(f"Failed to initialize client: {str(e)}")
 
+    @_synchronized
     def insert(
         self, vectors: np.ndarray, metadata: Optional[List[Dict]] = None
     ) -> List[str]:
@@ -72,6 +88,7 @@ class VectorDBClient:
 
         return self.index.insert(vectors, metadata)
 
+    @_synchronized
     def search(self, query_vector: np.ndarray, k: int = 10) -> List[Dict]:
         """Search for similar vectors."""
         if not self._initialized:
@@ -79,6 +96,7 @@ class VectorDBClient:
 
         return self.index.search(query_vector, k)
 
+    @_synchronized
     def delete(self, ids: List[str]) -> bool:
         """Delete vectors by their IDs."""
         if not self._initialized:
@@ -86,6 +104,7 @@ class VectorDBClient:
 
         return self.index.delete(ids)
 
+    @_synchronized
     def update(
         self, id: str, vector: np.ndarray, metadata: Optional[Dict] = None
     ) -> bool:
@@ -95,6 +114,7 @@ class VectorDBClient:
 
         return self.index.update(id, vector, metadata)
 
+    @_synchronized
     def get_stats(self) -> Dict[str, Any]:
         """Get database statistics."""
         if not self._initialized:
@@ -113,6 +133,7 @@ class VectorDBClient:
 
         return stats
 
+    @_synchronized
     def close(self) -> None:
         """Close the client and all components."""
         if self.persistence_manager:
-- 
2.43.0


From 0e94142a5855211db05c2cc403d1fa6405b09364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:32 +0000
Subject: [PATCH 07/51] fix: flat index rejects unusable vectors and recovers
 from failed calls

---
 src/valori/indices/base.py | 27 +++++++++++++++++++-
 src/valori/indices/flat.py | 50 +++++++++++++++++++++++++++++++++++++-
 2 files changed, 75 insertions(+), 2 deletions(-)

diff --git a/src/valori/indices/base.py b/src/valori/indices/base.py
index 92fe8dd..907b1fc 100644
--- a/src/valori/indices/base.py
+++ b/src/valori/indices/base.py
@@ -3,11 +3,13 @@ Base index interface for the valori vector database.
 """
 
 from abc import ABC, abstractmethod
-from typing import Any, Dict, List, Optional
+from typing import Any, Dict, List, Optional, Set
 
 import numpy as np
 
+from ..exceptions import ValoriIndexError
 from ..storage.base import StorageBackend
+from ..utils.validation import validate_vector
 
 
 class Index(ABC):
@@ -23,6 +25,8 @@ class Index(ABC):
         self.config = config
         self.storage_backend: Optional[StorageBackend] = None
         self._initialized = False
+        # IDs whose last change may have failed half-way; re-read before next use
+        self._unsure: Set[str] = set()
 
     def is_initialized(self) -> bool:
         """Check if the index is initialized."""
@@ -107,3 +111,24 @@ class Index(ABC):
     def close(self) -> None:
         """Close the index and clean up resources."""
         pass
+
+    def _resync(self) -> None:
+        """Re-read vectors whose last change failed, so index and storage agree."""
+        for vector_id in list(self._unsure):
+            result = self.storage_backend.retrieve_vector(vector_id)
+            self._sync_entry(vector_id, None if result is None else result[0])
+            self._unsure.discard(vector_id)
+
+    def _sync_entry(self, vector_id: str, vector: Optional[np.ndarray]) -> None:
+        """Make the index hold exactly this vector under the ID (None: no entry)."""
+        raise NotImplementedError
+
+    def _check_vector(self, vector: np.ndarray, dimension: Optional[int]) -> None:
+        """Reject a vector that later searches could not handle."""
+        validate_vector(vector)
+        if vector.dtype.kind not in "biuf":
+            raise ValoriIndexError(f"Unsupported vector dtype: {vector.dtype}")
+        if dimension is not None and len(vector) != dimension:
+            raise ValoriIndexError(
+                f"Vector dimension mismatch: expected {dimension}, got {len(vector)}"
+            )
diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index 94af9ce..2cfd0fe 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -34,6 +34,8 @@ class FlatIndex(Index):
         """Initialize the flat index with storage backend."""
         self.storage_backend = storage_backend
         self._initialized = True
+        self.vector_cache.clear()
+        self._unsure.clear()
 
         # Load existing vectors if any
         try:
@@ -42,6 +44,7 @@ class FlatIndex(Index):
             self.vector_ids = existing_ids
             self._vector_count = len(self.vector_ids)
         except Exception as e:
+            self._initialized = False
             raise ValoriIndexError(f"Failed to initialize flat index: {str(e)}")
 
     def insert(
@@ -61,6 +64,11 @@ class FlatIndex(Index):
             if sb is None:
                 raise ValoriIndexError("Index storage backend not configured")
 
+            self._resync()
+            dimension = self._dimension()
+            for vector in vectors:
+                self._check_vector(vector, dimension)
+
             for i, vector in enumerate(vectors):
                 # Generate unique ID
                 vector_id = str(uuid.uuid4())
@@ -71,11 +79,13 @@ class FlatIndex(Index):
                 )
 
                 # Store in backend
+                self._unsure.add(vector_id)
                 sb.store_vector(vector_id, vector, vector_metadata)
 
                 # Add to index
                 self.vector_ids.append(vector_id)
                 self.vector_cache[vector_id] = vector.copy()
+                self._unsure.discard(vector_id)
 
                 inserted_ids.append(vector_id)
 
@@ -94,6 +104,8 @@ class FlatIndex(Index):
             raise ValoriIndexError("Query vector must be 1D")
 
         try:
+            self._resync()
+
             if not self.vector_ids:
                 return []
 
@@ -171,8 +183,11 @@ class FlatIndex(Index):
             if sb is None:
                 raise ValoriIndexError("Index storage backend not configured")
 
+            self._resync()
+
             for vector_id in ids:
                 # Remove from storage
+                self._unsure.add(vector_id)
                 if not sb.delete_vector(vector_id):
                     success = False
 
@@ -182,6 +197,7 @@ class FlatIndex(Index):
 
                 # Remove from cache
                 self.vector_cache.pop(vector_id, None)
+                self._unsure.discard(vector_id)
 
             self._vector_count = len(self.vector_ids)
             return success
@@ -202,11 +218,17 @@ class FlatIndex(Index):
             if sb is None:
                 raise ValoriIndexError("Index storage backend not configured")
 
+            self._resync()
+            self._check_vector(vector, self._dimension(exclude=id))
+
+            self._unsure.add(id)
             if not sb.update_vector(id, vector, metadata):
+                self._unsure.discard(id)
                 return False
 
             # Update cache
             self.vector_cache[id] = vector.copy()
+            self._unsure.discard(id)
 
             return True
 
@@ -218,10 +240,12 @@ class FlatIndex(Index):
         if not self._initialized:
             return {"status": "not_initialized"}
 
+        self._resync()
+
         return {
             "index_type": "flat",
             "metric": self.metric,
-            "vector_count": self._vector_count,
+            "vector_count": len(self.vector_ids),
             "cache_size": len(self.vector_cache),
             "initialized": self._initialized,
         }
@@ -230,5 +254,29 @@ class FlatIndex(Index):
         """Close the flat index."""
         self.vector_cache.clear()
         self.vector_ids.clear()
+        self._unsure.clear()
         self._vector_count = 0
         self._initialized = False
+
+    def _dimension(self, exclude: Optional[str] = None) -> Optional[int]:
+        """Dimension of the indexed vectors (None if there is no other vector)."""
+        for vector_id in self.vector_ids:
+            if vector_id == exclude:
+                continue
+            if vector_id in self.vector_cache:
+                return len(self.vector_cache[vector_id])
+            result = self.storage_backend.retrieve_vector(vector_id)
+            if result is not None:
+                return len(result[0])
+        return None
+
+    def _sync_entry(self, vector_id: str, vector: Optional[np.ndarray]) -> None:
+        """Make the index hold exactly this vector under the ID (None: no entry)."""
+        self.vector_cache.pop(vector_id, None)
+        if vector is None:
+            if vector_id in self.vector_ids:
+                self.vector_ids.remove(vector_id)
+            return
+        if vector_id not in self.vector_ids:
+            self.vector_ids.append(vector_id)
+        self.vector_cache[vector_id] = vector
-- 
2.43.0


From 8c8283302076a1290f5bc4566cd051ff51a0884b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:32 +0000
Subject: [PATCH 08/51] fix: HNSW search skips emptied levels, returns no
 duplicates; recovers from failed calls

---
 src/valori/indices/hnsw.py | 46 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index e42f079..b96ee84 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -47,6 +47,10 @@ class HNSWIndex(Index):
 
         # Initialize level 0
         self.levels = [{}]
+        self.vectors.clear()
+        self.max_level = 0
+        self._vector_count = 0
+        self._unsure.clear()
 
         # Load existing vectors if any
         try:
@@ -58,6 +62,7 @@ class HNSWIndex(Index):
                     vector, _ = result
                     self._insert_vector_internal(vector_id, vector)
         except Exception as e:
+            self._initialized = False
             raise ValoriIndexError(f"Failed to initialize HNSW index: {str(e)}")
 
     def insert(
@@ -73,6 +78,11 @@ class HNSWIndex(Index):
         try:
             inserted_ids = []
 
+            self._resync()
+            dimension = self._dimension()
+            for vector in vectors:
+                self._check_vector(vector, dimension)
+
             for i, vector in enumerate(vectors):
                 # Generate unique ID
                 vector_id = str(uuid.uuid4())
@@ -86,10 +96,12 @@ class HNSWIndex(Index):
                 sb = self.storage_backend
                 if sb is None:
                     raise ValoriIndexError("Index storage backend not configured")
+                self._unsure.add(vector_id)
                 sb.store_vector(vector_id, vector, vector_metadata)
 
                 # Insert into HNSW graph
                 self._insert_vector_internal(vector_id, vector)
+                self._unsure.discard(vector_id)
 
                 inserted_ids.append(vector_id)
 
@@ -107,6 +119,8 @@ class HNSWIndex(Index):
             raise ValoriIndexError("Query vector must be 1D")
 
         try:
+            self._resync()
+
             if not self.vectors:
                 return []
 
@@ -115,6 +129,8 @@ class HNSWIndex(Index):
 
             # Start from top level
             current_level = min(self.max_level, len(self.levels) - 1)
+            while current_level > 0 and not self.levels[current_level]:
+                current_level -= 1  # Deletes can leave upper levels empty
             candidates = []
 
             # Find entry point at highest level
@@ -130,7 +146,7 @@ class HNSWIndex(Index):
 
             # Traverse down levels
             while current_level > 0:
-                new_candidates = []
+                new_candidates = list(candidates)
                 for node_id, _ in candidates:
                     if node_id in self.levels[current_level]:
                         for neighbor_id in self.levels[current_level][node_id]:
@@ -141,6 +157,7 @@ class HNSWIndex(Index):
                                 new_candidates.append((neighbor_id, distance))
 
                 # Keep best candidates
+                new_candidates = list(dict(new_candidates).items())
                 new_candidates.sort(key=lambda x: x[1])
                 candidates = new_candidates[: self.ef_search]
                 current_level -= 1
@@ -160,6 +177,7 @@ class HNSWIndex(Index):
                 candidates.extend(final_candidates)
 
             # Sort and return top k
+            candidates = list(dict(candidates).items())
             candidates.sort(key=lambda x: x[1])
             top_k = candidates[:k]
 
@@ -195,13 +213,17 @@ class HNSWIndex(Index):
             if sb is None:
                 raise ValoriIndexError("Index storage backend not configured")
 
+            self._resync()
+
             for vector_id in ids:
                 # Remove from storage
+                self._unsure.add(vector_id)
                 if not sb.delete_vector(vector_id):
                     success = False
 
                 # Remove from graph
                 self._remove_vector_internal(vector_id)
+                self._unsure.discard(vector_id)
 
             return success
 
@@ -221,12 +243,18 @@ class HNSWIndex(Index):
             if sb is None:
                 raise ValoriIndexError("Index storage backend not configured")
 
+            self._resync()
+            self._check_vector(vector, self._dimension(exclude=id))
+
+            self._unsure.add(id)
             if not sb.update_vector(id, vector, metadata):
+                self._unsure.discard(id)
                 return False
 
             # Update in graph
             if id in self.vectors:
                 self.vectors[id] = vector.copy()
+            self._unsure.discard(id)
 
             return True
 
@@ -238,6 +266,8 @@ class HNSWIndex(Index):
         if not self._initialized:
             return {"status": "not_initialized"}
 
+        self._resync()
+
         return {
             "index_type": "hnsw",
             "metric": self.metric,
@@ -254,10 +284,24 @@ class HNSWIndex(Index):
         """Close the HNSW index."""
         self.vectors.clear()
         self.levels.clear()
+        self._unsure.clear()
         self.max_level = 0
         self._vector_count = 0
         self._initialized = False
 
+    def _dimension(self, exclude: Optional[str] = None) -> Optional[int]:
+        """Dimension of the indexed vectors (None if there is no other vector)."""
+        for vector_id, vector in self.vectors.items():
+            if vector_id != exclude:
+                return len(vector)
+        return None
+
+    def _sync_entry(self, vector_id: str, vector: Optional[np.ndarray]) -> None:
+        """Make the index hold exactly this vector under the ID (None: no entry)."""
+        self._remove_vector_internal(vector_id)
+        if vector is not None:
+            self._insert_vector_internal(vector_id, vector)
+
     def _insert_vector_internal(self, vector_id: str, vector: np.ndarray) -> None:
         """Internal method to insert vector into HNSW graph."""
         self.vectors[vector_id] = vector.copy()
-- 
2.43.0


From 01c9b1728f2134c14c5503e96a5271daa16c79f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:32 +0000
Subject: [PATCH 09/51] fix: IVF index rejects unusable vectors and recovers
 from failed calls

---
 src/valori/indices/ivf.py | 59 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 58 insertions(+), 1 deletion(-)

diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index d93643f..3939ce5 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -41,6 +41,11 @@ class IVFIndex(Index):
         """Initialize the IVF index with storage backend."""
         self.storage_backend = storage_backend
         self._initialized = True
+        self.centroids = None
+        self.clusters.clear()
+        self.vectors_cache.clear()
+        self._trained = False
+        self._unsure.clear()
 
         # Load existing vectors if any
         try:
@@ -53,6 +58,7 @@ class IVFIndex(Index):
             if len(self.vector_ids) >= self.n_clusters:
                 self._train_index()
         except Exception as e:
+            self._initialized = False
             raise ValoriIndexError(f"Failed to initialize IVF index: {str(e)}")
 
     def insert(
@@ -68,6 +74,11 @@ class IVFIndex(Index):
         try:
             inserted_ids = []
 
+            self._resync()
+            dimension = self._dimension()
+            for vector in vectors:
+                self._check_vector(vector, dimension)
+
             for i, vector in enumerate(vectors):
                 # Generate unique ID
                 vector_id = str(uuid.uuid4())
@@ -81,6 +92,7 @@ class IVFIndex(Index):
                 sb = self.storage_backend
                 if sb is None:
                     raise ValoriIndexError("Index storage backend not configured")
+                self._unsure.add(vector_id)
                 sb.store_vector(vector_id, vector, vector_metadata)
 
                 # Add to index
@@ -98,6 +110,7 @@ class IVFIndex(Index):
                 for vector_id in inserted_ids:
                     self._add_to_cluster(vector_id, self.vectors_cache[vector_id])
 
+            self._unsure.difference_update(inserted_ids)
             return inserted_ids
 
         except Exception as e:
@@ -112,6 +125,8 @@ class IVFIndex(Index):
             raise ValoriIndexError("Query vector must be 1D")
 
         try:
+            self._resync()
+
             if not self.vector_ids:
                 return []
 
@@ -185,12 +200,15 @@ class IVFIndex(Index):
         try:
             success = True
 
+            self._resync()
+
             for vector_id in ids:
                 sb = self.storage_backend
                 if sb is None:
                     raise ValoriIndexError("Index storage backend not configured")
 
                 # Remove from storage
+                self._unsure.add(vector_id)
                 if not sb.delete_vector(vector_id):
                     success = False
 
@@ -205,6 +223,7 @@ class IVFIndex(Index):
                 for cluster_id, vector_list in self.clusters.items():
                     if vector_id in vector_list:
                         vector_list.remove(vector_id)
+                self._unsure.discard(vector_id)
 
             self._vector_count = len(self.vector_ids)
             return success
@@ -224,8 +243,13 @@ class IVFIndex(Index):
             if sb is None:
                 raise ValoriIndexError("Index storage backend not configured")
 
+            self._resync()
+            self._check_vector(vector, self._dimension(exclude=id))
+
             # Update in storage
+            self._unsure.add(id)
             if not sb.update_vector(id, vector, metadata):
+                self._unsure.discard(id)
                 return False
 
             # Update cache
@@ -234,6 +258,7 @@ class IVFIndex(Index):
             # If trained, update cluster assignment
             if self._trained:
                 self._update_cluster_assignment(id, vector)
+            self._unsure.discard(id)
 
             return True
 
@@ -245,6 +270,8 @@ class IVFIndex(Index):
         if not self._initialized:
             return {"status": "not_initialized"}
 
+        self._resync()
+
         cluster_stats = {}
         for cluster_id, vector_list in self.clusters.items():
             cluster_stats[f"cluster_{cluster_id}"] = len(vector_list)
@@ -254,7 +281,7 @@ class IVFIndex(Index):
             "metric": self.metric,
             "n_clusters": self.n_clusters,
             "n_probes": self.n_probes,
-            "vector_count": self._vector_count,
+            "vector_count": len(self.vector_ids),
             "trained": self._trained,
             "cluster_stats": cluster_stats,
             "cache_size": len(self.vectors_cache),
@@ -267,10 +294,40 @@ class IVFIndex(Index):
         self.clusters.clear()
         self.vector_ids.clear()
         self.vectors_cache.clear()
+        self._unsure.clear()
         self._vector_count = 0
         self._trained = False
         self._initialized = False
 
+    def _dimension(self, exclude: Optional[str] = None) -> Optional[int]:
+        """Dimension of the indexed vectors (None if any is possible)."""
+        if self._trained and self.centroids is not None:
+            return len(self.centroids[0])
+        for vector_id in self.vector_ids:
+            if vector_id == exclude:
+                continue
+            if vector_id in self.vectors_cache:
+                return len(self.vectors_cache[vector_id])
+            result = self.storage_backend.retrieve_vector(vector_id)
+            if result is not None:
+                return len(result[0])
+        return None
+
+    def _sync_entry(self, vector_id: str, vector: Optional[np.ndarray]) -> None:
+        """Make the index hold exactly this vector under the ID (None: no entry)."""
+        self.vectors_cache.pop(vector_id, None)
+        for vector_list in self.clusters.values():
+            if vector_id in vector_list:
+                vector_list.remove(vector_id)
+        if vector is None:
+            if vector_id in self.vector_ids:
+                self.vector_ids.remove(vector_id)
+            return
+        if vector_id not in self.vector_ids:
+            self.vector_ids.append(vector_id)
+        self.vectors_cache[vector_id] = vector
+        self._add_to_cluster(vector_id, vector)
+
     def _train_index(self) -> None:
         """Train the IVF index by clustering existing vectors."""
         if len(self.vector_ids) < self.n_clusters:
-- 
2.43.0


From 556d2cc4ba845f709767f9670a9df8c5b0458b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 10/51] fix: LSH index validates before changing anything and
 copies metadata

---
 src/valori/indices/lsh.py | 43 +++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 2f21dc0..67eb474 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -5,6 +5,7 @@ Implements Locality Sensitive Hashing for approximate nearest neighbor search
 with configurable hash functions and parameters.
 """
 
+import copy
 import hashlib
 from collections import defaultdict
 from typing import Any, Dict, List, Optional, Tuple, Union
@@ -58,6 +59,9 @@ class LSHIndex(Index):
 
     def initialize(self, storage_backend: Optional[StorageBackend] = None) -> None:
         """Initialize the LSH index."""
+        # Start empty: the index does not persist its vectors
+        self.clear()
+
         # Initialize hash tables
         self.hash_tables = [defaultdict(list) for _ in range(self.num_hash_tables)]
         self._initialized = True
@@ -81,20 +85,19 @@ class LSHIndex(Index):
                 "Number of vectors must match number of metadata items"
             )
 
+        if len(vectors) == 0:
+            return []
+
+        # Validate everything before changing anything
+        for vector in vectors:
+            self._check_vector(vector, self.dimension or vectors.shape[1])
+        metadata = copy.deepcopy(list(metadata))
+
         # Set dimension on first add
         if self.dimension is None:
             self.dimension = vectors.shape[1]
             self._generate_projections()
 
-        if vectors.shape[1] != self.dimension:
-            raise ValoriIndexError(
-                f"Vector dimension mismatch: expected {self.dimension}, got {vectors.shape[1]}"
-            )
-
-        # Validate vectors
-        for vector in vectors:
-            validate_vector(vector, self.dimension, self.dimension)
-
         assigned_ids = []
 
         for i, vector in enumerate(vectors):
@@ -103,7 +106,7 @@ class LSHIndex(Index):
 
             # Store vector and metadata
             self.vectors.append(vector.copy())
-            self.metadata.append(metadata[i].copy())
+            self.metadata.append(metadata[i])
 
             # Generate hash codes for all hash tables
             assert vector is not None
@@ -180,7 +183,7 @@ class LSHIndex(Index):
                         {
                             "id": candidate_id,
                             "distance": float(distance),
-                            "metadata": self.metadata[candidate_id],
+                            "metadata": copy.deepcopy(self.metadata[candidate_id]),
                         }
                     )
 
@@ -199,7 +202,7 @@ class LSHIndex(Index):
             raise ValoriIndexError("Index not initialized")
 
         for vector_id in ids:
-            if vector_id < len(self.vectors):
+            if 0 <= vector_id < len(self.vectors):
                 # Remove from hash tables
                 vector = self.vectors[vector_id]
                 if vector is None:
@@ -219,11 +222,14 @@ class LSHIndex(Index):
 
     def delete(self, ids: List[str]) -> bool:
         """Delete vectors by their string IDs (base Index API)."""
+        if not self._initialized:
+            raise ValoriIndexError("Index not initialized")
         try:
             int_ids = []
             for s in ids:
                 try:
-                    int_ids.append(int(s))
+                    if str(int(s)) == str(s):
+                        int_ids.append(int(s))
                 except ValueError:
                     continue
             self.remove(int_ids)
@@ -239,9 +245,15 @@ class LSHIndex(Index):
             raise ValoriIndexError("Index not initialized")
         try:
             vector_id = int(id)
-            if vector_id >= len(self.vectors) or self.vectors[vector_id] is None:
+            if str(vector_id) != str(id) or not 0 <= vector_id < len(self.vectors):
+                return False
+            if self.vectors[vector_id] is None:
                 return False
 
+            # Validate everything before changing anything
+            self._check_vector(vector, self.dimension)
+            metadata = copy.deepcopy(metadata)
+
             # Remove old hashes
             old_vector = self.vectors[vector_id]
             old_hashes = self._hash_vector(old_vector)
@@ -255,7 +267,7 @@ class LSHIndex(Index):
             # Store new vector and metadata
             self.vectors[vector_id] = vector.copy()
             if metadata is not None:
-                self.metadata[vector_id] = metadata.copy()
+                self.metadata[vector_id] = metadata
 
             # Add new hashes
             new_hashes = self._hash_vector(self.vectors[vector_id])
@@ -272,6 +284,7 @@ class LSHIndex(Index):
         self.metadata.clear()
         self.hash_tables = [defaultdict(list) for _ in range(self.num_hash_tables)]
         self._next_id = 0
+        self.dimension = None
 
     def get_stats(self) -> Dict[str, Any]:
         """Get index statistics."""
-- 
2.43.0


From e978ec1eb029078d9d20f1b8b56c7b59ce815430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:01 +0000
Subject: [PATCH 11/51] fix: Annoy index keeps removed vectors removed and
 stays aligned on failures

---
 src/valori/indices/annoy.py | 60 ++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index c33b854..ef12453 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -5,6 +5,7 @@ Implements Annoy (Approximate Nearest Neighbors Oh Yeah) for fast
 approximate nearest neighbor search using random projection trees.
 """
 
+import copy
 import os
 import tempfile
 from typing import Any, Dict, List, Optional, Union
@@ -108,7 +109,7 @@ class AnnoyIndex(Index):
             True if successful
         """
         try:
-            int_ids = [int(id) for id in ids]
+            int_ids = [int(id) for id in ids if str(int(id)) == str(id)]
             self.remove(int_ids)
             return True
         except Exception as e:
@@ -130,20 +131,22 @@ class AnnoyIndex(Index):
         """
         try:
             int_id = int(id)
-            if int_id >= len(self.vectors):
+            if str(int_id) != str(id) or not 0 <= int_id < len(self.vectors):
+                raise ValoriIndexError(f"Vector ID not found: {id}")
+            if self.vectors[int_id] is None:
                 raise ValoriIndexError(f"Vector ID not found: {id}")
 
             if metadata is None:
                 metadata = self.metadata[int_id]
 
-            # Remove old vector
-            self.remove([int_id])
+            # Validate everything before changing anything
+            self._check_vector(vector, self.dimension)
+            metadata = copy.deepcopy(metadata)
 
-            # Add new vector (but reuse the same ID by temporarily modifying _next_id)
-            old_next_id = self._next_id
-            self._next_id = int_id
-            self.add(vector.reshape(1, -1), [metadata])
-            self._next_id = old_next_id
+            # Replace in place (Annoy refuses this once the index is built)
+            self._annoy_index.add_item(int_id, vector.astype(np.float32))
+            self.vectors[int_id] = vector.copy()
+            self.metadata[int_id] = metadata
 
             return True
         except Exception as e:
@@ -168,32 +171,31 @@ class AnnoyIndex(Index):
                 "Number of vectors must match number of metadata items"
             )
 
+        if len(vectors) == 0:
+            return []
+
+        # Validate everything before changing anything
+        for vector in vectors:
+            self._check_vector(vector, self.dimension or vectors.shape[1])
+        metadata = copy.deepcopy(list(metadata))
+
         # Set dimension on first add
         if self.dimension is None:
             self.dimension = vectors.shape[1]
             self._create_annoy_index()
 
-        if vectors.shape[1] != self.dimension:
-            raise ValoriIndexError(
-                f"Vector dimension mismatch: expected {self.dimension}, got {vectors.shape[1]}"
-            )
-
-        # Validate vectors
-        for vector in vectors:
-            validate_vector(vector, self.dimension, self.dimension)
-
         assigned_ids = []
 
         for i, vector in enumerate(vectors):
             vector_id = self._next_id
+
+            # Add to Annoy index (fails if it is already built)
+            self._annoy_index.add_item(vector_id, vector.astype(np.float32))
             self._next_id += 1
 
             # Store vector and metadata
             self.vectors.append(vector.copy())
-            self.metadata.append(metadata[i].copy())
-
-            # Add to Annoy index
-            self._annoy_index.add_item(vector_id, vector.astype(np.float32))
+            self.metadata.append(metadata[i])
 
             assigned_ids.append(vector_id)
 
@@ -256,15 +258,18 @@ class AnnoyIndex(Index):
             self.search_k if self.search_k > 0 else self.num_trees * len(self.vectors)
         )
 
-        # Search for nearest neighbors
+        # Search for nearest neighbors; removed vectors are still in the trees
+        removed = sum(1 for v in self.vectors if v is None)
         neighbor_ids, distances = self._annoy_index.get_nns_by_vector(
-            query_vector, k, search_k=search_k, include_distances=True
+            query_vector, k + removed, search_k=search_k, include_distances=True
         )
 
         # Convert to results format
         results = []
         for neighbor_id, distance in zip(neighbor_ids, distances):
-            if neighbor_id < len(self.vectors):
+            if len(results) >= k:
+                break
+            if neighbor_id < len(self.vectors) and self.vectors[neighbor_id] is not None:
                 # Convert distance to similarity based on metric
                 similarity = self._distance_to_similarity(distance)
 
@@ -272,7 +277,7 @@ class AnnoyIndex(Index):
                     {
                         "id": neighbor_id,
                         "distance": similarity,
-                        "metadata": self.metadata[neighbor_id],
+                        "metadata": copy.deepcopy(self.metadata[neighbor_id]),
                     }
                 )
 
@@ -291,7 +296,7 @@ class AnnoyIndex(Index):
             raise ValoriIndexError("Index not initialized")
 
         for vector_id in ids:
-            if vector_id < len(self.vectors):
+            if 0 <= vector_id < len(self.vectors):
                 # Mark as removed (Annoy doesn't support efficient removal)
                 self.vectors[vector_id] = None
                 self.metadata[vector_id] = None
@@ -301,6 +306,7 @@ class AnnoyIndex(Index):
         self.vectors.clear()
         self.metadata.clear()
         self._next_id = 0
+        self.dimension = None
         self._built = False
 
         if self._annoy_index is not None:
-- 
2.43.0


From d1ef42d56f196dc0d354583d742a76a826837fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:29 +0000
Subject: [PATCH 12/51] fix: tensor persistence and vector export replace files
 atomically and durably

---
 src/valori/persistence/tensor.py | 22 ++++++++++++----------
 src/valori/utils/atomic.py       |  6 ++++++
 src/valori/utils/helpers.py      |  8 +++++---
 3 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/valori/persistence/tensor.py b/src/valori/persistence/tensor.py
index bf96d23..e495787 100644
--- a/src/valori/persistence/tensor.py
+++ b/src/valori/persistence/tensor.py
@@ -9,6 +9,7 @@ from typing import Any, Dict, Optional, Tuple
 import numpy as np
 
 from ..exceptions import PersistenceError
+from ..utils.atomic import atomic_write, npz_path
 from .base import PersistenceManager
 
 
@@ -46,7 +47,7 @@ class TensorPersistence(PersistenceManager):
             file_path = self.data_dir / path
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
-            with open(file_path, "wb") as f:
+            with atomic_write(file_path) as f:
                 pickle.dump(state, f, protocol=pickle.HIGHEST_PROTOCOL)
 
             self._save_count += 1
@@ -81,17 +82,18 @@ class TensorPersistence(PersistenceManager):
             raise PersistenceError("Persistence manager not initialized")
 
         try:
-            file_path = self.data_dir / path
+            file_path = npz_path(self.data_dir / path)
 
             # Ensure directory exists
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
-            if self.compression:
-                # Save with compression
-                np.savez_compressed(file_path, vectors=vectors, ids=np.array(ids))
-            else:
-                # Save without compression
-                np.savez(file_path, vectors=vectors, ids=np.array(ids))
+            with atomic_write(file_path) as f:
+                if self.compression:
+                    # Save with compression
+                    np.savez_compressed(f, vectors=vectors, ids=np.array(ids))
+                else:
+                    # Save without compression
+                    np.savez(f, vectors=vectors, ids=np.array(ids))
 
             self._save_count += 1
             return True
@@ -105,7 +107,7 @@ class TensorPersistence(PersistenceManager):
             raise PersistenceError("Persistence manager not initialized")
 
         try:
-            file_path = self.data_dir / path
+            file_path = npz_path(self.data_dir / path)
 
             if not file_path.exists():
                 return None, None
@@ -132,7 +134,7 @@ class TensorPersistence(PersistenceManager):
             # Ensure directory exists
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
-            with open(file_path, "wb") as f:
+            with atomic_write(file_path) as f:
                 pickle.dump(index_data, f, protocol=pickle.HIGHEST_PROTOCOL)
 
             self._save_count += 1
diff --git a/src/valori/utils/atomic.py b/src/valori/utils/atomic.py
index c401fd5..a9e704d 100644
--- a/src/valori/utils/atomic.py
+++ b/src/valori/utils/atomic.py
@@ -46,3 +46,9 @@ def atomic_write(path: Union[str, Path], mode: str = "wb") -> Iterator[IO]:
         raise
 
     fsync_dir(path.parent)
+
+
+def npz_path(path: Union[str, Path]) -> Path:
+    """The file that numpy's savez functions write for a path."""
+    path = Path(path)
+    return path if path.name.endswith(".npz") else path.with_name(path.name + ".npz")
diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index 1fcc271..0baf74b 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -15,6 +15,7 @@ from typing import Any, Dict, List, Optional, Tuple, Union
 import numpy as np
 
 from ..exceptions import ValidationError
+from .atomic import atomic_write, npz_path
 from .validation import validate_vector
 
 
@@ -270,10 +271,11 @@ def save_vectors_to_file(
     filepath = Path(filepath)
 
     if format == "npz":
-        np.savez_compressed(filepath, vectors=vectors, metadata=metadata)
+        with atomic_write(npz_path(filepath)) as f:
+            np.savez_compressed(f, vectors=vectors, metadata=metadata)
 
     elif format == "pickle":
-        with open(filepath, "wb") as f:
+        with atomic_write(filepath) as f:
             pickle.dump({"vectors": vectors, "metadata": metadata}, f)
 
     elif format == "json":
@@ -283,7 +285,7 @@ def save_vectors_to_file(
             "metadata": metadata,
             "shape": vectors.shape,
         }
-        with open(filepath, "w") as f:
+        with atomic_write(filepath, "w") as f:
             json.dump(data, f, indent=2)
 
     else:
-- 
2.43.0


From d9a16f4649c403ce535994f524cc817f4f7f1ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:29 +0000
Subject: [PATCH 13/51] fix: incremental persistence keeps operation ids
 unique, log intact and files atomic

---
 src/valori/persistence/incremental.py | 69 ++++++++++++++++++++++-----
 1 file changed, 56 insertions(+), 13 deletions(-)

diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index ffb8653..0aecaf6 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -3,14 +3,17 @@ Incremental persistence implementation for the valori vector database.
 """
 
 import json
+import os
 import pickle
+import re
 from datetime import datetime
 from pathlib import Path
-from typing import Any, Dict, Optional, Tuple
+from typing import Any, Dict, List, Optional, Tuple
 
 import numpy as np
 
 from ..exceptions import PersistenceError
+from ..utils.atomic import atomic_write, fsync_dir, npz_path
 from .base import PersistenceManager
 
 
@@ -44,9 +47,13 @@ class IncrementalPersistence(PersistenceManager):
             # Initialize log file if it doesn't exist
             if not self.log_file.exists():
                 self.log_file.touch()
+            fsync_dir(self.data_dir)
 
             # Load checkpoint info
             self._load_checkpoint_info()
+            self._operation_count = max(
+                self._operation_count, self._next_operation_id()
+            )
 
             self._initialized = True
         except Exception as e:
@@ -62,7 +69,7 @@ class IncrementalPersistence(PersistenceManager):
         try:
             # Create checkpoint
             checkpoint_path = self.data_dir / f"checkpoint_{self._operation_count}.pkl"
-            with open(checkpoint_path, "wb") as f:
+            with atomic_write(checkpoint_path) as f:
                 pickle.dump(state, f, protocol=pickle.HIGHEST_PROTOCOL)
 
             # Update checkpoint info
@@ -85,13 +92,13 @@ class IncrementalPersistence(PersistenceManager):
 
         try:
             # Find latest checkpoint
-            checkpoint_files = list(self.data_dir.glob("checkpoint_*.pkl"))
-            if not checkpoint_files:
+            checkpoint_numbers = self._checkpoint_numbers()
+            if not checkpoint_numbers:
                 return None
 
             # Sort by operation count
-            checkpoint_files.sort(key=lambda x: int(x.stem.split("_")[1]))
-            latest_checkpoint = checkpoint_files[-1]
+            checkpoint_numbers.sort()
+            latest_checkpoint = self.data_dir / f"checkpoint_{checkpoint_numbers[-1]}.pkl"
 
             with open(latest_checkpoint, "rb") as f:
                 state = pickle.load(f)
@@ -110,11 +117,12 @@ class IncrementalPersistence(PersistenceManager):
             raise PersistenceError("Persistence manager not initialized")
 
         try:
-            file_path = self.data_dir / path
+            file_path = npz_path(self.data_dir / path)
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
             # Save vectors
-            np.savez(file_path, vectors=vectors, ids=np.array(ids))
+            with atomic_write(file_path) as f:
+                np.savez(f, vectors=vectors, ids=np.array(ids))
 
             # Log operation
             self._log_operation(
@@ -137,7 +145,7 @@ class IncrementalPersistence(PersistenceManager):
             raise PersistenceError("Persistence manager not initialized")
 
         try:
-            file_path = self.data_dir / path
+            file_path = npz_path(self.data_dir / path)
 
             if not file_path.exists():
                 return None, None
@@ -161,7 +169,7 @@ class IncrementalPersistence(PersistenceManager):
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
             # Save index data
-            with open(file_path, "wb") as f:
+            with atomic_write(file_path) as f:
                 pickle.dump(index_data, f, protocol=pickle.HIGHEST_PROTOCOL)
 
             # Log operation
@@ -245,11 +253,17 @@ class IncrementalPersistence(PersistenceManager):
                 "operation_id": self._operation_count,
             }
 
-            with open(self.log_file, "a") as f:
-                f.write(json.dumps(log_entry) + "\n")
+            record = (json.dumps(log_entry) + "\n").encode()
 
+            # Whatever happens below, this ID must not be used again
             self._operation_count += 1
 
+            with open(self.log_file, "ab+") as f:
+                self._drop_torn_record(f)
+                f.write(record)
+                f.flush()
+                os.fsync(f.fileno())
+
             # Create checkpoint if needed
             if (
                 self._operation_count - self._last_checkpoint
@@ -260,6 +274,35 @@ class IncrementalPersistence(PersistenceManager):
         except Exception as e:
             raise PersistenceError(f"Failed to log operation: {str(e)}")
 
+    def _drop_torn_record(self, f) -> None:
+        """Cut off a record that a crash or a failed write left incomplete."""
+        size = f.seek(0, os.SEEK_END)
+        if size == 0:
+            return
+        f.seek(size - 1)
+        if f.read(1) != b"\n":
+            f.seek(0)
+            f.truncate(f.read().rfind(b"\n") + 1)
+
+    def _checkpoint_numbers(self) -> List[int]:
+        """Numbers of the checkpoints in the data directory."""
+        matches = (
+            re.fullmatch(r"checkpoint_(\d+)\.pkl", name)
+            for name in os.listdir(self.data_dir)
+        )
+        return [int(match.group(1)) for match in matches if match]
+
+    def _next_operation_id(self) -> int:
+        """First operation ID that neither the log nor a checkpoint uses."""
+        next_id = max(self._checkpoint_numbers(), default=-1) + 1
+        with open(self.log_file, "rb") as f:
+            for line in f:
+                try:
+                    next_id = max(next_id, json.loads(line)["operation_id"] + 1)
+                except (ValueError, KeyError, TypeError):
+                    continue  # incomplete record
+        return next_id
+
     def _create_checkpoint(self) -> None:
         """Create a new checkpoint."""
         try:
@@ -280,7 +323,7 @@ class IncrementalPersistence(PersistenceManager):
                 "timestamp": datetime.now().isoformat(),
             }
 
-            with open(self.checkpoint_file, "w") as f:
+            with atomic_write(self.checkpoint_file, "w") as f:
                 json.dump(checkpoint_info, f)
 
         except Exception as e:
-- 
2.43.0


From 1804ad832719d08300365813ef95489b0d79f07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:29 +0000
Subject: [PATCH 14/51] fix: parallel batch ids in input order, batch search
 counts failures once, monitor restarts after failure

---
 src/valori/utils/batch_manager.py | 39 ++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index 962c213..15f6e6e 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -140,6 +140,7 @@ class BatchManager:
                 batch_queries = query_vectors[i : i + self.batch_size]
 
                 batch_results = []
+                batch_failed = 0
                 for query in batch_queries:
                     try:
                         results = client.search(query, k=k)
@@ -147,6 +148,7 @@ class BatchManager:
 
                     except Exception as e:
                         batch_results.append([])
+                        batch_failed += 1
                         self._stats["failed_items"] = (
                             int(self._stats.get("failed_items", 0) or 0) + 1
                         )
@@ -157,7 +159,7 @@ class BatchManager:
                 all_results.extend(batch_results)
                 self._stats["processed_items"] = int(
                     self._stats.get("processed_items", 0) or 0
-                ) + len(batch_queries)
+                ) + (len(batch_queries) - batch_failed)
 
                 if show_progress:
                     self._print_progress()
@@ -194,7 +196,7 @@ class BatchManager:
         self._stats["total_items"] = len(vectors)
         self._stats["start_time"] = time.time()
 
-        all_ids = []
+        ids_by_batch: Dict[int, List[int]] = {}
 
         # Create batches
         batches = []
@@ -233,7 +235,7 @@ class BatchManager:
                         if self.error_callback:
                             self.error_callback(error, batches[batch_id])
                     else:
-                        all_ids.extend(batch_ids)
+                        ids_by_batch[batch_id] = batch_ids
                         self._stats["processed_items"] = int(
                             self._stats.get("processed_items", 0) or 0
                         ) + len(batch_ids)
@@ -249,7 +251,8 @@ class BatchManager:
         finally:
             self._stats["end_time"] = time.time()
 
-        return all_ids
+        # Batches finish in any order; return the IDs in input order
+        return [id for batch_id in sorted(ids_by_batch) for id in ids_by_batch[batch_id]]
 
     def _print_progress(self):
         """Print progress information."""
@@ -362,24 +365,28 @@ class ResourceMonitor:
         self.monitor_thread: Optional[threading.Thread] = None
         self.resource_data = []
         self.start_time = None
+        self._lock = threading.Lock()
 
     def start_monitoring(self, interval: float = 1.0):
         """Start resource monitoring."""
-        if self.monitoring:
-            return
-
-        self.monitoring = True
-        self.start_time = time.time()
-        self.monitor_thread = threading.Thread(
-            target=self._monitor_loop, args=(interval,), daemon=True
-        )
-        self.monitor_thread.start()
+        with self._lock:
+            # A sampler that failed has ended, although nobody stopped it
+            if self.monitoring and self.monitor_thread.is_alive():
+                return
+
+            self.monitoring = True
+            self.start_time = time.time()
+            self.monitor_thread = threading.Thread(
+                target=self._monitor_loop, args=(interval,), daemon=True
+            )
+            self.monitor_thread.start()
 
     def stop_monitoring(self):
         """Stop resource monitoring."""
-        self.monitoring = False
-        if self.monitor_thread:
-            self.monitor_thread.join()
+        with self._lock:
+            self.monitoring = False
+            if self.monitor_thread:
+                self.monitor_thread.join()
 
     def _monitor_loop(self, interval: float):
         """Resource monitoring loop."""
-- 
2.43.0


From a7141957252da9e224dd412113ffa38a366bb30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 15/51] fix: pipeline hands its parser configuration to the
 registry and can be reinitialized

---
 src/valori/processors/pipeline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valori/processors/pipeline.py b/src/valori/processors/pipeline.py
index e578735..1d5f0c9 100644
--- a/src/valori/processors/pipeline.py
+++ b/src/valori/processors/pipeline.py
@@ -31,10 +31,11 @@ class ProcessingPipeline:
         try:
             # Initialize parser registry
             parser_config = self.config.get("parsers", {})
-            self.parser_registry = ParserRegistry(parser_config)
+            self.parser_registry = ParserRegistry({"parsers": parser_config})
             self.parser_registry.initialize()
 
             # Initialize processors in order
+            self.processors.clear()
             processor_configs = self.config.get("processors", {})
 
             # Add cleaning processor if configured
-- 
2.43.0


From a490fe1c09d6352c0f2b855b062fb046ad99f46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 16/51] fix: stopword cleaning falls back when the nltk corpus
 is missing

---
 src/valori/processors/cleaning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/processors/cleaning.py b/src/valori/processors/cleaning.py
index abd7117..eec7a8b 100644
--- a/src/valori/processors/cleaning.py
+++ b/src/valori/processors/cleaning.py
@@ -49,7 +49,7 @@ class CleaningProcessor(DocumentProcessor):
                 from nltk.corpus import stopwords
 
                 self._stopwords = set(stopwords.words(self.stopwords_language))
-            except ImportError:
+            except (ImportError, LookupError):
                 # Fallback to basic English stopwords
                 self._stopwords = {
                     "a",
-- 
2.43.0


From c5d762fd533f552f57b83efc12c85a245dd0f409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 17/51] fix: embedding cache shares no arrays with its callers

---
 src/valori/processors/embedding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valori/processors/embedding.py b/src/valori/processors/embedding.py
index 873450f..ee2c511 100644
--- a/src/valori/processors/embedding.py
+++ b/src/valori/processors/embedding.py
@@ -149,7 +149,7 @@ class EmbeddingProcessor(DocumentProcessor):
             cache_key = self._get_cache_key(text)
             if cache_key in self._cache:
                 self._cache_hits += 1
-                return self._cache[cache_key]
+                return self._cache[cache_key].copy()
 
         # Generate embedding
         if self.model_type == "sentence_transformers":
@@ -168,7 +168,7 @@ class EmbeddingProcessor(DocumentProcessor):
         # Cache embedding
         if self.cache_embeddings:
             cache_key = self._get_cache_key(text)
-            self._cache[cache_key] = embedding
+            self._cache[cache_key] = embedding.copy()
 
         self._texts_processed += 1
         self._embeddings_generated += 1
-- 
2.43.0


From 1800a1744bd14942b34a311240bd570c54a2cdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:30 +0000
Subject: [PATCH 18/51] fix: disk statistics count the stored vectors also
 after a failed write

---
 src/valori/storage/disk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/storage/disk.py b/src/valori/storage/disk.py
index f5ef242..5d9c2df 100644
--- a/src/valori/storage/disk.py
+++ b/src/valori/storage/disk.py
@@ -196,7 +196,7 @@ class DiskStorage(StorageBackend):
 
             return {
                 "backend_type": "disk",
-                "vector_count": self._vector_count,
+                "vector_count": len(self._vector_files()),
                 "data_directory": str(self.data_dir),
                 "disk_usage_bytes": total_size,
                 "disk_usage_mb": total_size / (1024 * 1024),
-- 
2.43.0


From 356f0a95102f10dd5953915f491389453f088e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 19/51] fix: Annoy index refuses changes that would corrupt its
 built trees

---
 src/valori/indices/annoy.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index ef12453..d897dd1 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -143,7 +143,8 @@ class AnnoyIndex(Index):
             self._check_vector(vector, self.dimension)
             metadata = copy.deepcopy(metadata)
 
-            # Replace in place (Annoy refuses this once the index is built)
+            # Replace in place (not possible once the index is built)
+            self._check_not_built()
             self._annoy_index.add_item(int_id, vector.astype(np.float32))
             self.vectors[int_id] = vector.copy()
             self.metadata[int_id] = metadata
@@ -178,18 +179,20 @@ class AnnoyIndex(Index):
         for vector in vectors:
             self._check_vector(vector, self.dimension or vectors.shape[1])
         metadata = copy.deepcopy(list(metadata))
+        self._check_not_built()
 
         # Set dimension on first add
         if self.dimension is None:
             self.dimension = vectors.shape[1]
             self._create_annoy_index()
+            self._built = False  # An empty build does not cover these vectors
 
         assigned_ids = []
 
         for i, vector in enumerate(vectors):
             vector_id = self._next_id
 
-            # Add to Annoy index (fails if it is already built)
+            # Add to Annoy index
             self._annoy_index.add_item(vector_id, vector.astype(np.float32))
             self._next_id += 1
 
@@ -334,6 +337,11 @@ class AnnoyIndex(Index):
             "initialized": self._initialized,
         }
 
+    def _check_not_built(self) -> None:
+        """Annoy corrupts its trees when items are added to a built index."""
+        if self._built and self._annoy_index is not None:
+            raise ValoriIndexError("Index is immutable after build()")
+
     def _create_annoy_index(self) -> None:
         """Create the Annoy index instance."""
         # Annoy library AnnoyIndex constructor only accepts dimension and metric
-- 
2.43.0


From 97b74e482bb0a054956de31735a4b93149b92bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:15 +0000
Subject: [PATCH 20/51] fix: temporary file of an atomic write cannot be
 another saved path

---
 src/valori/utils/atomic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/utils/atomic.py b/src/valori/utils/atomic.py
index a9e704d..7e4b1c4 100644
--- a/src/valori/utils/atomic.py
+++ b/src/valori/utils/atomic.py
@@ -30,7 +30,7 @@ def atomic_write(path: Union[str, Path], mode: str = "wb") -> Iterator[IO]:
     content.
     """
     path = Path(path)
-    tmp_path = path.with_name(path.name + ".tmp")
+    tmp_path = path.with_name("." + path.name + ".valori-tmp")
 
     try:
         with open(tmp_path, mode) as f:
-- 
2.43.0


From 018dbd2e93318d8ec6930a29696bc4629a25eeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:21 +0000
Subject: [PATCH 21/51] fix: PDF parser reports an I/O error instead of
 dropping the page

---
 src/valori/parsers/pdf_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/valori/parsers/pdf_parser.py b/src/valori/parsers/pdf_parser.py
index ef00c0e..f0ca508 100644
--- a/src/valori/parsers/pdf_parser.py
+++ b/src/valori/parsers/pdf_parser.py
@@ -2,6 +2,7 @@
 PDF parser for the valori vector database.
 """
 
+import io
 from pathlib import Path
 from typing import Any, Dict, List, Union
 
@@ -56,9 +57,11 @@ class PDFParser(DocumentParser):
             if file_size > self.max_file_size:
                 raise ParsingError(f"File too large: {file_size} bytes")
 
-            # Read PDF
+            # Read the whole file first: an I/O error must not look like a page
+            # that cannot be processed
             with open(file_path, "rb") as file:
-                pdf_reader = PyPDF2.PdfReader(file)
+                content = io.BytesIO(file.read())
+                pdf_reader = PyPDF2.PdfReader(content)
 
                 # Extract text from all pages
                 text_parts = []
-- 
2.43.0


From 8a38f3192bf33183d98c414f2aba5b3a25980be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:21 +0000
Subject: [PATCH 22/51] fix: embedding cache may be cleared while another
 thread reads it

---
 src/valori/processors/embedding.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/valori/processors/embedding.py b/src/valori/processors/embedding.py
index ee2c511..1bca38d 100644
--- a/src/valori/processors/embedding.py
+++ b/src/valori/processors/embedding.py
@@ -147,9 +147,11 @@ class EmbeddingProcessor(DocumentProcessor):
         # Check cache
         if self.cache_embeddings:
             cache_key = self._get_cache_key(text)
-            if cache_key in self._cache:
+            # One lookup only: another thread may clear the cache
+            cached = self._cache.get(cache_key)
+            if cached is not None:
                 self._cache_hits += 1
-                return self._cache[cache_key].copy()
+                return cached.copy()
 
         # Generate embedding
         if self.model_type == "sentence_transformers":
-- 
2.43.0


From 54d250ecdd594eb0eef38199cb06c01d1863c67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 23/51] fix: JSON export restores the shape of empty arrays

---
 src/valori/utils/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index 0baf74b..34dbe38 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -321,6 +321,8 @@ def load_vectors_from_file(
         with open(filepath, "r") as f:
             data = json.load(f)
             vectors = np.array(data["vectors"])
+            if "shape" in data:  # nested lists lose the shape of empty arrays
+                vectors = vectors.reshape(data["shape"])
             metadata = data["metadata"]
 
     else:
-- 
2.43.0


From d766e7530410aa309581d0939aa291ba745a0270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 24/51] fix: hybrid storage with a memory limit of 0 keeps
 nothing in memory

---
 src/valori/storage/hybrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valori/storage/hybrid.py b/src/valori/storage/hybrid.py
index 0574705..847bd4e 100644
--- a/src/valori/storage/hybrid.py
+++ b/src/valori/storage/hybrid.py
@@ -69,7 +69,7 @@ class HybridStorage(StorageBackend):
 
                     if current_count < self.memory_limit:
                         self.memory_storage.store_vector(id, vector, metadata)
-                    else:
+                    elif self.memory_limit > 0:
                         # Remove oldest vector from memory (simple LRU approximation)
                         self._evict_from_memory()
                         self.memory_storage.store_vector(id, vector, metadata)
@@ -103,7 +103,7 @@ class HybridStorage(StorageBackend):
 
                     if current_count < self.memory_limit:
                         self.memory_storage.store_vector(id, vector, metadata)
-                    else:
+                    elif self.memory_limit > 0:
                         # Evict and promote
                         self._evict_from_memory()
                         self.memory_storage.store_vector(id, vector, metadata)
-- 
2.43.0


From f83ce6e9991533f355d550dbca744df83c7a220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 25/51] fix: initializing a trained quantizer again leaves it
 untrained

---
 src/valori/quantization/product.py | 1 +
 src/valori/quantization/saq.py     | 1 +
 src/valori/quantization/scalar.py  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/valori/quantization/product.py b/src/valori/quantization/product.py
index 9482521..220a5fa 100644
--- a/src/valori/quantization/product.py
+++ b/src/valori/quantization/product.py
@@ -35,6 +35,7 @@ class ProductQuantizer(Quantizer):
         self.centroids = None
         self.dim = None
         self.subvector_dim = None
+        self._trained = False
         self._initialized = True
 
     def train(self, vectors: np.ndarray) -> None:
diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index e70bfb5..fb94446 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -68,6 +68,7 @@ class SAQQuantizer(Quantizer):
         self.segment_quantizers = []
         self.full_precision_vectors = None
         self.dim = None
+        self._trained = False
         self._initialized = True
 
     def train(self, vectors: np.ndarray) -> None:
diff --git a/src/valori/quantization/scalar.py b/src/valori/quantization/scalar.py
index cb05203..8782841 100644
--- a/src/valori/quantization/scalar.py
+++ b/src/valori/quantization/scalar.py
@@ -37,6 +37,7 @@ class ScalarQuantizer(Quantizer):
         self.scale = None
         self.zero_point = None
         self.dim = None
+        self._trained = False
         self._initialized = True
 
     def train(self, vectors: np.ndarray) -> None:
-- 
2.43.0


From ce07f9bfd140a6dde0687be3fad1e1d9e48059bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 26/51] fix: SAQ segments follow the configured number in every
 training

---
 src/valori/quantization/saq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index fb94446..68aa4b2 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -157,8 +157,8 @@ class SAQQuantizer(Quantizer):
         # Dynamic programming for optimal segmentation
         # This minimizes quantization error given bit budget
         # Make sure we don't allocate more segments than dimensions
-        if self.n_segments > dim:
-            self.n_segments = dim
+        # (from the configured number: an earlier training may have lowered it)
+        self.n_segments = min(self.config.get("n_segments", 8), dim)
 
         dp = np.full((self.n_segments + 1, dim + 1), np.inf)
         dp[0, 0] = 0
-- 
2.43.0


From 4256c80ec25f8a7c732bde78c17cfa800846c371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 27/51] fix: a failed training never leaves a quantizer half
 replaced

---
 src/valori/quantization/product.py | 27 +++++++++++++++------------
 src/valori/quantization/saq.py     |  3 +++
 src/valori/quantization/scalar.py  |  2 +-
 3 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/valori/quantization/product.py b/src/valori/quantization/product.py
index 220a5fa..86ea2d2 100644
--- a/src/valori/quantization/product.py
+++ b/src/valori/quantization/product.py
@@ -48,37 +48,35 @@ class ProductQuantizer(Quantizer):
 
         try:
             n_vectors, dim = vectors.shape
-            self.dim = int(dim)
+            dim = int(dim)
 
             # Check if dimension is divisible by m
-            if self.dim % self.m != 0:
+            if dim % self.m != 0:
                 raise QuantizationError(
-                    f"Vector dimension {self.dim} must be divisible by m={self.m}"
+                    f"Vector dimension {dim} must be divisible by m={self.m}"
                 )
 
-            self.subvector_dim = int(self.dim // self.m)
+            subvector_dim = int(dim // self.m)
 
             # Determine effective number of clusters (can't exceed n_vectors)
             effective_k = int(min(self.k, max(1, n_vectors)))
-            self.effective_k = effective_k
 
             # Initialize centroids array (use float32 to match input dtype)
             # centroids shape may use effective_k which can be <= self.k
-            self.centroids = np.zeros(
-                (self.m, effective_k, self.subvector_dim), dtype=np.float32
+            centroids = np.zeros(
+                (self.m, effective_k, subvector_dim), dtype=np.float32
             )
 
             # Train each subvector separately
             for i in range(self.m):
-                assert self.subvector_dim is not None
-                start_idx = i * self.subvector_dim
-                end_idx = (i + 1) * self.subvector_dim
+                start_idx = i * subvector_dim
+                end_idx = (i + 1) * subvector_dim
                 subvectors = vectors[:, start_idx:end_idx]
 
                 # If effective_k is 1, just take the mean as the single centroid
                 if effective_k <= 1:
                     centroid = np.mean(subvectors, axis=0).astype(np.float32)
-                    self.centroids[i, 0] = centroid
+                    centroids[i, 0] = centroid
                     continue
 
                 # Perform K-means clustering on subvectors
@@ -86,10 +84,15 @@ class ProductQuantizer(Quantizer):
                 kmeans.fit(subvectors)
 
                 # Store centroids as float32
-                self.centroids[i, : kmeans.cluster_centers_.shape[0]] = (
+                centroids[i, : kmeans.cluster_centers_.shape[0]] = (
                     kmeans.cluster_centers_.astype(np.float32)
                 )
 
+            # Only a complete training replaces the previous code book
+            self.dim = dim
+            self.subvector_dim = subvector_dim
+            self.effective_k = effective_k
+            self.centroids = centroids
             self._trained = True
 
         except Exception as e:
diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index 68aa4b2..1120603 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -92,6 +92,9 @@ class SAQQuantizer(Quantizer):
 
             start_time = time.time()
 
+            # A training that fails leaves no usable code book behind
+            self._trained = False
+
             n_vectors, dim = vectors.shape
             self.dim = int(dim)
 
diff --git a/src/valori/quantization/scalar.py b/src/valori/quantization/scalar.py
index 8782841..3747e87 100644
--- a/src/valori/quantization/scalar.py
+++ b/src/valori/quantization/scalar.py
@@ -51,7 +51,6 @@ class ScalarQuantizer(Quantizer):
         try:
             # Set dimension and compute min and max values for each dimension
             n_vectors, dim = vectors.shape
-            self.dim = int(dim)
             min_vals = np.min(vectors, axis=0)
             max_vals = np.max(vectors, axis=0)
 
@@ -66,6 +65,7 @@ class ScalarQuantizer(Quantizer):
             zero_pt = np.zeros_like(min_vals, dtype=np.int32)
 
             # Assign back to attributes (now narrowed)
+            self.dim = int(dim)
             self.min_values = min_vals
             self.max_values = max_vals
             self.scale = scales
-- 
2.43.0


From 4fdaafd054dd2d4b957fde6288562175378155c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:28 +0000
Subject: [PATCH 28/51] fix: creating vectors from files when none can be
 processed returns no rows

---
 src/valori/utils/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index 34dbe38..85c0486 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -115,7 +115,7 @@ def create_vectors_from_files(
     pipeline.close()
 
     if not all_vectors:
-        return np.array([]).reshape(0, -1), []
+        return np.empty((0, 0), dtype=np.float32), []
 
     return np.array(all_vectors), all_metadata
 
-- 
2.43.0


From eac3923246a9190a90903e69cc79604fea84769f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:16 +0000
Subject: [PATCH 29/51] fix: the zero embedding of an empty text has the
 dimension of the model

---
 src/valori/processors/embedding.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/valori/processors/embedding.py b/src/valori/processors/embedding.py
index 1bca38d..4aaca20 100644
--- a/src/valori/processors/embedding.py
+++ b/src/valori/processors/embedding.py
@@ -142,7 +142,7 @@ class EmbeddingProcessor(DocumentProcessor):
         """Generate embedding for a single text."""
         if not text or not text.strip():
             # Return zero vector for empty text
-            return np.zeros(384)  # Default dimension
+            return np.zeros(self._embedding_dimension())
 
         # Check cache
         if self.cache_embeddings:
@@ -177,6 +177,19 @@ class EmbeddingProcessor(DocumentProcessor):
 
         return embedding
 
+    def _embedding_dimension(self) -> int:
+        """Dimension of the model's embeddings."""
+        if self.model_type == "sentence_transformers":
+            dimension = getattr(self._model, "get_sentence_embedding_dimension", None)
+            if dimension is not None:
+                return dimension() or 384
+        elif self.model_type == "openai":
+            return 1536  # text-embedding-ada-002
+        elif self.model_type == "huggingface":
+            return self._model.config.hidden_size
+
+        return 384  # Default dimension
+
     def _generate_sentence_transformer_embedding(self, text: str) -> np.ndarray:
         """Generate embedding using SentenceTransformers."""
         embedding = self._model.encode(text, convert_to_numpy=True)
-- 
2.43.0


From 19039c187b2fd7ae5996c021e8c3cfeb97c9d1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:19 +0000
Subject: [PATCH 30/51] fix: databases created over texts or images can be
 searched when the index needs a build

---
 src/valori/factory.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index d697224..a5e60c7 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -172,6 +172,10 @@ def create_semantic_search_db(
     # Add vectors
     client.insert(vectors, metadata)
 
+    # Some indices have to be built before they can be searched
+    if hasattr(client.index, "build"):
+        client.index.build()
+
     return client
 
 
@@ -210,6 +214,10 @@ def create_image_search_db(
     # Add vectors
     client.insert(vectors, metadata)
 
+    # Some indices have to be built before they can be searched
+    if hasattr(client.index, "build"):
+        client.index.build()
+
     return client
 
 
-- 
2.43.0


From bac526836edf12025d859f4f6311dd4c141e89a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 31/51] fix: a progress tracker over no items can be finished

---
 src/valori/utils/batch_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index 15f6e6e..20c4eed 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -334,7 +334,7 @@ class ProgressTracker:
 
     def _print_progress(self):
         """Print progress information."""
-        progress = self.current / self.total
+        progress = self.current / self.total if self.total else 1.0
         percentage = progress * 100
 
         elapsed = time.time() - self.start_time
-- 
2.43.0


From 74cf626f52e3235546669fd295a546eb60c3b026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 32/51] fix: memory and timing instrumentation never changes
 the outcome of the call

---
 src/valori/utils/debugging.py |  7 ++++---
 src/valori/utils/helpers.py   | 39 +++++++++++++++++++----------------
 2 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index 975934f..d496272 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -59,7 +59,8 @@ class PerformanceProfiler:
 
             process = psutil.Process()
             return process.memory_info().rss / 1024 / 1024
-        except ImportError:
+        except Exception:
+            # A failed reading must not disturb the measured operation
             return 0.0
 
     def get_summary(self) -> Dict[str, Any]:
@@ -367,8 +368,8 @@ def debug_function(func):
     @functools.wraps(func)
     def wrapper(*args, **kwargs):
         # Get function info
-        func_name = func.__name__
-        module = func.__module__
+        func_name = getattr(func, "__name__", repr(func))
+        module = getattr(func, "__module__", None)
 
         # Log function call
         print(f"\n🔍 DEBUG: Calling {module}.{func_name}")
diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index 85c0486..af0071b 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -339,36 +339,39 @@ def timing_decorator(func):
         start_time = time.time()
         result = func(*args, **kwargs)
         end_time = time.time()
-        print(f"{func.__name__} took {end_time - start_time:.4f} seconds")
+        name = getattr(func, "__name__", repr(func))
+        print(f"{name} took {end_time - start_time:.4f} seconds")
         return result
 
     return wrapper
 
 
+def _memory_usage_mb() -> Optional[float]:
+    """Memory of this process in MB, None if it cannot be read."""
+    try:
+        import psutil
+
+        return psutil.Process().memory_info().rss / 1024 / 1024
+    except Exception:
+        return None
+
+
 def memory_usage_decorator(func):
     """Decorator to monitor memory usage."""
 
     @wraps(func)
     def wrapper(*args, **kwargs):
-        try:
-            import psutil
-
-            process = psutil.Process()
-
-            # Get memory before
-            mem_before = process.memory_info().rss / 1024 / 1024  # MB
-
-            result = func(*args, **kwargs)
-
-            # Get memory after
-            mem_after = process.memory_info().rss / 1024 / 1024  # MB
-
-            print(f"{func.__name__} memory usage: {mem_after - mem_before:.2f} MB")
-            return result
+        mem_before = _memory_usage_mb()
+        result = func(*args, **kwargs)
+        mem_after = _memory_usage_mb()
 
-        except ImportError:
+        if mem_before is None or mem_after is None:
             print("psutil not available for memory monitoring")
-            return func(*args, **kwargs)
+        else:
+            name = getattr(func, "__name__", repr(func))
+            print(f"{name} memory usage: {mem_after - mem_before:.2f} MB")
+
+        return result
 
     return wrapper
 
-- 
2.43.0


From 2fcb2dcf6a5d5ad3615ae5f38264b341fd34d989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 33/51] fix: profiling the same operation from several threads
 loses no measurement

---
 src/valori/utils/debugging.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index d496272..ea00bc7 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -41,10 +41,8 @@ class PerformanceProfiler:
             duration = end_time - start_time
             memory_delta = end_memory - start_memory
 
-            if operation_name not in self.measurements:
-                self.measurements[operation_name] = []
-
-            self.measurements[operation_name].append(
+            # One step: several threads may measure the same operation
+            self.measurements.setdefault(operation_name, []).append(
                 {
                     "duration": duration,
                     "memory_delta": memory_delta,
@@ -67,7 +65,10 @@ class PerformanceProfiler:
         """Get performance summary."""
         summary = {}
 
-        for operation, measurements in self.measurements.items():
+        for operation, measurements in list(self.measurements.items()):
+            measurements = list(measurements)  # Other threads may add to it
+            if not measurements:
+                continue
             durations = [m["duration"] for m in measurements]
             memory_deltas = [m["memory_delta"] for m in measurements]
 
@@ -111,7 +112,8 @@ class PerformanceProfiler:
 
     def save_report(self, filepath: Union[str, Path]):
         """Save performance report to file."""
-        report = {"summary": self.get_summary(), "raw_data": self.measurements}
+        raw_data = {name: list(m) for name, m in list(self.measurements.items())}
+        report = {"summary": self.get_summary(), "raw_data": raw_data}
 
         with open(filepath, "w") as f:
             json.dump(report, f, indent=2, default=str)
-- 
2.43.0


From 58abd482f8496f685ebd92a171cf111428388147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 34/51] fix: the index inspector copes with HNSW vectors and
 deleted vectors

---
 src/valori/utils/debugging.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index ea00bc7..0b8ad98 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -455,6 +455,10 @@ class IndexInspector:
     def _inspect_vectors(self) -> Dict[str, Any]:
         """Inspect stored vectors."""
         vectors = getattr(self.index, "vectors", [])
+        if isinstance(vectors, dict):
+            vectors = vectors.values()
+        # Deleted vectors leave an empty place in some indices
+        vectors = [vector for vector in vectors if vector is not None]
         if not vectors:
             return {"count": 0}
 
-- 
2.43.0


From 47a85af084750467481764c0cfd3308cc124d0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:08 +0000
Subject: [PATCH 35/51] fix: log records reach the console once and at the
 configured level

get_logger gave every logger a console handler of its own, which duplicated
each record once setup_logging had been called, kept loggers at INFO, and gave
two handlers to a logger first used by two threads at once.
---
 src/valori/utils/logging.py | 48 ++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/valori/utils/logging.py b/src/valori/utils/logging.py
index af6b49d..9b8e415 100644
--- a/src/valori/utils/logging.py
+++ b/src/valori/utils/logging.py
@@ -4,8 +4,13 @@ Logging utilities for the valori vector database.
 
 import logging
 import sys
+import threading
 from pathlib import Path
-from typing import Any, Dict, Optional
+from typing import Any, Dict, List, Optional, Tuple
+
+# Console handlers given to loggers before logging was set up
+_default_handlers: List[Tuple[logging.Logger, logging.Handler]] = []
+_default_handlers_lock = threading.Lock()
 
 
 def get_logger(name: str, level: str = "INFO") -> logging.Logger:
@@ -21,25 +26,28 @@ def get_logger(name: str, level: str = "INFO") -> logging.Logger:
     """
     logger = logging.getLogger(name)
 
-    # Don't add handlers if they already exist
-    if logger.handlers:
-        return logger
+    # One thread at a time, or a logger first used by two would get two handlers
+    with _default_handlers_lock:
+        # Don't add handlers if records reach one already, possibly of a parent
+        if logger.hasHandlers():
+            return logger
 
-    # Set level
-    numeric_level = getattr(logging, level.upper(), logging.INFO)
-    logger.setLevel(numeric_level)
+        # Set level
+        numeric_level = getattr(logging, level.upper(), logging.INFO)
+        logger.setLevel(numeric_level)
 
-    # Create formatter
-    formatter = logging.Formatter(
-        "%(asctime)s - %(name)s - %(levelname)s - %(message)s",
-        datefmt="%Y-%m-%d %H:%M:%S",
-    )
+        # Create formatter
+        formatter = logging.Formatter(
+            "%(asctime)s - %(name)s - %(levelname)s - %(message)s",
+            datefmt="%Y-%m-%d %H:%M:%S",
+        )
 
-    # Create console handler
-    console_handler = logging.StreamHandler(sys.stdout)
-    console_handler.setLevel(numeric_level)
-    console_handler.setFormatter(formatter)
-    logger.addHandler(console_handler)
+        # Create console handler
+        console_handler = logging.StreamHandler(sys.stdout)
+        console_handler.setLevel(numeric_level)
+        console_handler.setFormatter(formatter)
+        logger.addHandler(console_handler)
+        _default_handlers.append((logger, console_handler))
 
     return logger
 
@@ -81,6 +89,12 @@ def setup_logging(config: Optional[Dict[str, Any]] = None) -> None:
     # Clear existing handlers
     root_logger.handlers.clear()
 
+    # From now on the root handlers and level apply to these loggers as well
+    while _default_handlers:
+        logger, handler = _default_handlers.pop()
+        logger.removeHandler(handler)
+        logger.setLevel(logging.NOTSET)
+
     # Create console handler
     console_handler = logging.StreamHandler(sys.stdout)
     console_handler.setLevel(level)
-- 
2.43.0


From dcfb0bdb38932ce62a0b70f0ed81551479fee316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:08 +0000
Subject: [PATCH 36/51] fix: setting up debug logging again replaces the
 earlier handlers

---
 src/valori/utils/debugging.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index 0b8ad98..af20b94 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -414,6 +414,11 @@ def setup_logging(level: str = "INFO", log_file: Optional[str] = None):
     logger = logging.getLogger("valori")
     logger.setLevel(log_level)
 
+    # A repeated setup replaces the handlers of the previous one
+    for handler in list(logger.handlers):
+        logger.removeHandler(handler)
+        handler.close()
+
     # Console handler
     console_handler = logging.StreamHandler()
     console_handler.setFormatter(formatter)
-- 
2.43.0


From 3980ff3f8643efca4e7cc90f21c890b0a79f0783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:08 +0000
Subject: [PATCH 37/51] fix: get_config finds index groups and storage types
 and returns copies

---
 src/valori/configs.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/valori/configs.py b/src/valori/configs.py
index 1cb2eba..2a1ec0f 100644
--- a/src/valori/configs.py
+++ b/src/valori/configs.py
@@ -5,6 +5,7 @@ This module provides ready-to-use configurations for common use cases,
 making it easy to get started with the vector database.
 """
 
+import copy
 from typing import Any, Dict, List, Optional
 
 # Index configurations for different scenarios
@@ -366,10 +367,11 @@ def get_config(category: str, name: str) -> Dict[str, Any]:
 
     Args:
         category: Configuration category (index, storage, document, etc.)
-        name: Configuration name
+        name: Configuration name; for "index" also the name of a subcategory,
+            for "storage" also the storage type
 
     Returns:
-        Configuration dictionary
+        Configuration dictionary (a copy, which the caller may change)
     """
     config_map = {
         "index": INDEX_CONFIGS,
@@ -388,12 +390,16 @@ def get_config(category: str, name: str) -> Dict[str, Any]:
     # Handle nested categories
     if category == "index":
         for subcategory, configs in category_configs.items():
+            if name == subcategory:
+                return copy.deepcopy(configs)
             if name in configs:
-                return configs[name]
-    else:
-        if name not in category_configs:
-            raise ValueError(f"Unknown {category} config: {name}")
-        return category_configs[name]
+                return copy.deepcopy(configs[name])
+    elif name in category_configs:
+        return copy.deepcopy(category_configs[name])
+    elif category == "storage":
+        for config in category_configs.values():
+            if name == config["type"]:
+                return copy.deepcopy(config)
 
     raise ValueError(f"Unknown {category} config: {name}")
 
@@ -462,7 +468,7 @@ def get_recommended_config(
     """
     # Select index configuration
     if num_vectors < 1000:
-        index_config = get_config("index", "small_dataset")
+        index_config = get_config("index", "small_dataset")["flat"]
         index_name = "flat"
     elif num_vectors < 100000:
         if use_case == "speed":
-- 
2.43.0


From 4f3c68693986da99902cf8155b0463cc5180606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:08 +0000
Subject: [PATCH 38/51] fix: databases created from a template do not share its
 configuration

---
 src/valori/factory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index a5e60c7..10f610e 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -5,6 +5,7 @@ This module provides convenient factory functions to create pre-configured
 vector database instances for common use cases.
 """
 
+import copy
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Tuple, Union
 
@@ -411,7 +412,8 @@ def create_from_template(template_name: str, **overrides) -> VectorDBClient:
             f"Unknown template: {template_name}. Available: {list(TEMPLATES.keys())}"
         )
 
-    config = TEMPLATES[template_name].copy()
+    # The database keeps its configuration; templates must not change with it
+    config = copy.deepcopy(TEMPLATES[template_name])
     config.update(overrides)
 
     return create_vector_db(**config)
-- 
2.43.0


From 466a930f75c3eb088e562309bd36c6e46daa94f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:08 +0000
Subject: [PATCH 39/51] fix: create_vector_db works without num_vectors and
 dimension

---
 src/valori/factory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index 10f610e..a8ba80c 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -49,7 +49,9 @@ def create_vector_db(
         else:
             index_config["config"] = {}
     else:
-        index_config = get_recommended_index_config(num_vectors, dimension, use_case)
+        index_config = get_recommended_index_config(
+            num_vectors or 0, dimension or 0, use_case
+        )
 
     # Create index
     index = _create_index(index_config["type"], index_config["config"])
-- 
2.43.0


From f461c537faa10858eebdfd9cd9d526b4a97cf2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:08 +0000
Subject: [PATCH 40/51] fix: HNSW presets use the parameter name the index
 reads

---
 src/valori/configs.py       | 4 ++--
 src/valori/factory.py       | 6 +++---
 src/valori/utils/helpers.py | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/valori/configs.py b/src/valori/configs.py
index 2a1ec0f..b632991 100644
--- a/src/valori/configs.py
+++ b/src/valori/configs.py
@@ -30,7 +30,7 @@ INDEX_CONFIGS: Dict[str, Any] = {
         },
         "hnsw_balanced": {
             "metric": "cosine",
-            "M": 16,
+            "m": 16,
             "ef_construction": 200,
             "ef_search": 50,
             "description": "Balanced speed and accuracy",
@@ -88,7 +88,7 @@ INDEX_CONFIGS: Dict[str, Any] = {
         },
         "hnsw_fast": {
             "metric": "cosine",
-            "M": 8,
+            "m": 8,
             "ef_construction": 100,
             "ef_search": 20,
             "description": "Fast HNSW configuration",
diff --git a/src/valori/factory.py b/src/valori/factory.py
index a8ba80c..61266cb 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -128,7 +128,7 @@ def create_document_db(
     elif index_type == "hnsw":
         db_config["index_config"] = {
             "metric": "cosine",
-            "M": 16,
+            "m": 16,
             "ef_construction": 200,
             "ef_search": 50,
         }
@@ -264,7 +264,7 @@ def create_hybrid_search_db(
         "num_vectors": len(vectors),
         "index_config": {
             "metric": "cosine",
-            "M": 16,
+            "m": 16,
             "ef_construction": 200,
             "ef_search": 50,
         },
@@ -390,7 +390,7 @@ TEMPLATES = {
         "storage_type": "memory",
         "index_config": {
             "metric": "cosine",
-            "M": 16,
+            "m": 16,
             "ef_construction": 200,
             "ef_search": 50,
         },
diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index af0071b..46218df 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -406,7 +406,7 @@ def get_recommended_index_config(
                 "type": "hnsw",
                 "config": {
                     "metric": "cosine",
-                    "M": 16,
+                    "m": 16,
                     "ef_construction": 200,
                     "ef_search": 50,
                 },
-- 
2.43.0


From 539fef6b2bbd1c905a2a485501c6ef37adce9e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:08 +0000
Subject: [PATCH 41/51] fix: create_hybrid_search_db builds the index

---
 src/valori/factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index 61266cb..ccfe7f3 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -276,6 +276,10 @@ def create_hybrid_search_db(
     # Add vectors
     client.insert(vectors, combined_metadata)
 
+    # Some indices have to be built before they can be searched
+    if hasattr(client.index, "build"):
+        client.index.build()
+
     return client
 
 
-- 
2.43.0


From d614f70405079a326e2bbff2c89844d3c7650c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:14 +0000
Subject: [PATCH 42/51] fix: Annoy index can build on disk again after clear
 and re-initialization

---
 src/valori/indices/annoy.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index d897dd1..7c99828 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -73,9 +73,7 @@ class AnnoyIndex(Index):
             self.storage_backend = storage_backend
 
         if self.build_on_disk:
-            # Create temporary file for on-disk building
-            fd, self._temp_file = tempfile.mkstemp(suffix=".annoy")
-            os.close(fd)
+            self._create_temp_file()
 
         self._initialized = True
 
@@ -217,6 +215,7 @@ class AnnoyIndex(Index):
         if self._annoy_index is not None:
             if self.build_on_disk:
                 # Build on disk
+                self._create_temp_file()
                 self._annoy_index.build(self.num_trees)
                 self._annoy_index.save(self._temp_file)
 
@@ -316,9 +315,7 @@ class AnnoyIndex(Index):
             self._annoy_index.unload()
             self._annoy_index = None
 
-        if self._temp_file and os.path.exists(self._temp_file):
-            os.unlink(self._temp_file)
-            self._temp_file = None
+        self._remove_temp_file()
 
     def get_stats(self) -> Dict[str, Any]:
         """Get index statistics."""
@@ -337,6 +334,18 @@ class AnnoyIndex(Index):
             "initialized": self._initialized,
         }
 
+    def _create_temp_file(self) -> None:
+        """Create the temporary file for on-disk building, if there is none."""
+        if self._temp_file is None:
+            fd, self._temp_file = tempfile.mkstemp(suffix=".annoy")
+            os.close(fd)
+
+    def _remove_temp_file(self) -> None:
+        """Remove the temporary file of on-disk building."""
+        temp_file, self._temp_file = self._temp_file, None
+        if temp_file and os.path.exists(temp_file):
+            os.unlink(temp_file)
+
     def _check_not_built(self) -> None:
         """Annoy corrupts its trees when items are added to a built index."""
         if self._built and self._annoy_index is not None:
@@ -429,13 +438,7 @@ class AnnoyIndex(Index):
 
     def close(self) -> None:
         """Close the index and clean up resources."""
-        if self._annoy_index is not None:
-            self._annoy_index.unload()
-            self._annoy_index = None
-
-        if self._temp_file and os.path.exists(self._temp_file):
-            os.unlink(self._temp_file)
-            self._temp_file = None
-
-        self.clear()
-        self._initialized = False
+        try:
+            self.clear()
+        finally:
+            self._initialized = False
-- 
2.43.0


From 37590e4b659adc8a3466ff2fa18b9970c07e88da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:14 +0000
Subject: [PATCH 43/51] fix: Annoy index can be built again after a failed
 build

---
 src/valori/indices/annoy.py | 42 ++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index 7c99828..bd58d88 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -211,20 +211,29 @@ class AnnoyIndex(Index):
         if self.dimension is None and len(self.vectors) > 0:
             raise ValoriIndexError("No dimension set for vectors")
 
+        self._check_not_built()
+
         # Only build if there's an annoy index instance
         if self._annoy_index is not None:
-            if self.build_on_disk:
-                # Build on disk
-                self._create_temp_file()
-                self._annoy_index.build(self.num_trees)
-                self._annoy_index.save(self._temp_file)
-
-                # Reload from disk
-                self._annoy_index.unload()
-                self._annoy_index.load(self._temp_file)
-            else:
-                # Build in memory
-                self._annoy_index.build(self.num_trees)
+            try:
+                if self.build_on_disk:
+                    # Build on disk
+                    self._create_temp_file()
+                    self._annoy_index.build(self.num_trees)
+                    self._annoy_index.save(self._temp_file)
+
+                    # Reload from disk
+                    self._annoy_index.unload()
+                    self._annoy_index.load(self._temp_file)
+                else:
+                    # Build in memory
+                    self._annoy_index.build(self.num_trees)
+            except Exception as e:
+                # Back to the state before, so that the build can be repeated
+                self._annoy_index = self._annoy_items(
+                    self.dimension, self.metric, self.vectors
+                )
+                raise ValoriIndexError(f"Failed to build Annoy index: {str(e)}")
 
         self._built = True
 
@@ -356,6 +365,15 @@ class AnnoyIndex(Index):
         # Annoy library AnnoyIndex constructor only accepts dimension and metric
         self._annoy_index = self.annoy.AnnoyIndex(self.dimension, self.metric)
 
+    def _annoy_items(self, dimension, metric, vectors):
+        """Create an Annoy index instance, not built yet, with the given vectors."""
+        annoy_index = self.annoy.AnnoyIndex(dimension, metric)
+        for i, vector in enumerate(vectors):
+            if vector is None:
+                vector = np.zeros(dimension)  # Removed, never returned by a search
+            annoy_index.add_item(i, vector.astype(np.float32))
+        return annoy_index
+
     def _distance_to_similarity(self, distance: float) -> float:
         """Convert Annoy distance to similarity score."""
         if self.metric == "angular":
-- 
2.43.0


From 36e1e61d1119ee45690e12fc2b98265f9da03594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:14 +0000
Subject: [PATCH 44/51] fix: Annoy index keeps vectors and metadata over save
 and load, atomically

---
 src/valori/indices/annoy.py | 155 +++++++++++++++++++++++++++++-------
 1 file changed, 125 insertions(+), 30 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index bd58d88..021deef 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -6,13 +6,17 @@ approximate nearest neighbor search using random projection trees.
 """
 
 import copy
+import json
 import os
+import pickle
 import tempfile
+import zlib
 from typing import Any, Dict, List, Optional, Union
 
 import numpy as np
 
 from ..exceptions import ValoriIndexError
+from ..utils.atomic import atomic_write, fsync_dir
 from ..utils.validation import validate_vector
 from .base import Index
 
@@ -404,55 +408,146 @@ class AnnoyIndex(Index):
         if not self._built:
             raise ValoriIndexError("Index not built. Call build() before saving.")
 
-        if self._annoy_index is not None:
-            # Save the Annoy index
-            self._annoy_index.save(filepath)
+        filepath = str(filepath)
+        tmp_path = filepath + ".valori-tmp"
 
-            # Also save metadata alongside the index
-            import json
-
-            metadata_path = filepath + ".meta"
-            metadata = {
+        try:
+            # Save the Annoy index
+            if self._annoy_index is None:
+                open(tmp_path, "wb").close()
+            else:
+                self._save_trees(tmp_path)
+
+            # Annoy only stores the trees, save everything else alongside the index.
+            # These files count; trees of another save are recognized by the checksum.
+            state = {
                 "dimension": self.dimension,
                 "metric": self.metric,
                 "num_trees": self.num_trees,
+                "checksum": self._checksum(tmp_path),
+                "vectors": self.vectors,
+                "metadata": self.metadata,
             }
-            with open(metadata_path, "w") as f:
-                json.dump(metadata, f)
+            with atomic_write(filepath + ".data") as f:
+                pickle.dump(state, f, protocol=pickle.HIGHEST_PROTOCOL)
+
+            meta = {k: state[k] for k in ("dimension", "metric", "num_trees")}
+            with atomic_write(filepath + ".meta", "w") as f:
+                json.dump(meta, f)
+
+            os.replace(tmp_path, filepath)
+            fsync_dir(os.path.dirname(filepath) or ".")
+        except Exception as e:
+            if os.path.exists(tmp_path):
+                os.unlink(tmp_path)
+            raise ValoriIndexError(f"Failed to save Annoy index: {str(e)}")
 
     def load(self, filepath: str) -> None:
         """Load the index from disk."""
         if not self._initialized:
             raise ValoriIndexError("Index not initialized")
 
+        filepath = str(filepath)
         if not os.path.exists(filepath):
             raise ValoriIndexError(f"Index file not found: {filepath}")
 
-        # Load metadata first
-        import json
+        # Read everything before changing anything
+        try:
+            try:
+                with open(filepath + ".data", "rb") as f:
+                    state = pickle.load(f)
+                annoy_index = self._load_trees(filepath, state)
+            except FileNotFoundError:
+                # Saved by an earlier version: trees without metadata
+                state = self._load_meta(filepath + ".meta")
+                annoy_index = self.annoy.AnnoyIndex(state["dimension"], state["metric"])
+                annoy_index.load(filepath)
+                items = range(annoy_index.get_n_items())
+                state["vectors"] = [
+                    np.array(annoy_index.get_item_vector(i)) for i in items
+                ]
+                state["metadata"] = [{} for _ in items]
+        except ValoriIndexError:
+            raise
+        except Exception as e:
+            raise ValoriIndexError(f"Failed to load Annoy index: {str(e)}")
+
+        if self._annoy_index is not None:
+            self._annoy_index.unload()
+        self._annoy_index = annoy_index
+        self.dimension = state["dimension"]
+        self.metric = state["metric"]
+        self.num_trees = state["num_trees"]
+        self.vectors = state["vectors"]
+        self.metadata = state["metadata"]
+        self._next_id = len(self.vectors)
+        self._built = True
+
+    def _save_trees(self, filepath: str) -> None:
+        """Write the trees to a file."""
+        try:
+            self._annoy_index.save(filepath)
+            with open(filepath, "rb+") as f:
+                os.fsync(f.fileno())
+        except Exception:
+            if self._annoy_index.get_n_items() != len(self.vectors):
+                # Annoy has lost its trees
+                self._built = False
+                self._annoy_index = self._annoy_items(
+                    self.dimension, self.metric, self.vectors
+                )
+                self.build()
+            raise
+
+    def _load_trees(self, filepath: str, state: Dict[str, Any]):
+        """Load the trees that belong to a saved state."""
+        if state["dimension"] is None:
+            return None
+
+        if self._checksum(filepath) == state["checksum"]:
+            annoy_index = self.annoy.AnnoyIndex(state["dimension"], state["metric"])
+            annoy_index.load(filepath)
+            return annoy_index
+
+        # A save was interrupted, its trees are missing
+        annoy_index = self._annoy_items(
+            state["dimension"], state["metric"], state["vectors"]
+        )
+        annoy_index.build(state["num_trees"])
+        return annoy_index
 
-        metadata_path = filepath + ".meta"
+    def _load_meta(self, metadata_path: str) -> Dict[str, Any]:
+        """Load the description of the trees saved by an earlier version."""
         if os.path.exists(metadata_path):
             with open(metadata_path, "r") as f:
-                metadata = json.load(f)
-                self.dimension = metadata.get("dimension")
-                self.metric = metadata.get("metric", self.metric)
-                # num_trees already set from config during init
-        else:
-            # Fallback: if no metadata file, try to infer from index properties
-            # This is a limitation - we need the dimension to create AnnoyIndex
-            if self.dimension is None:
-                raise ValoriIndexError(
-                    f"Cannot load index without dimension info. "
-                    f"Metadata file not found: {metadata_path}"
-                )
+                meta = json.load(f)
+            return {
+                "dimension": meta.get("dimension"),
+                "metric": meta.get("metric", self.metric),
+                "num_trees": meta.get("num_trees", self.num_trees),
+            }
 
-        self._create_annoy_index()
-        self._annoy_index.load(filepath)
-        self._built = True
+        # Fallback: if no metadata file, try to infer from index properties
+        # This is a limitation - we need the dimension to create AnnoyIndex
+        if self.dimension is None:
+            raise ValoriIndexError(
+                f"Cannot load index without dimension info. "
+                f"Metadata file not found: {metadata_path}"
+            )
+        return {
+            "dimension": self.dimension,
+            "metric": self.metric,
+            "num_trees": self.num_trees,
+        }
 
-        # Note: When loading from disk, we lose the original vectors and metadata
-        # This is a limitation of Annoy - it only stores the tree structure
+    @staticmethod
+    def _checksum(filepath: str) -> int:
+        """Get the checksum of a file."""
+        checksum = 0
+        with open(filepath, "rb") as f:
+            for chunk in iter(lambda: f.read(1 << 20), b""):
+                checksum = zlib.crc32(chunk, checksum)
+        return checksum
 
     def close(self) -> None:
         """Close the index and clean up resources."""
-- 
2.43.0


From b9d8f82c8ca8fc80060bb67bf38b2f549cbd7bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:37 +0000
Subject: [PATCH 45/51] fix: flat cosine distances of tiny float32 vectors were
 all 1

---
 src/valori/indices/flat.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index 2cfd0fe..fdda6e4 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -140,7 +140,12 @@ class FlatIndex(Index):
 
             # Compute similarities/distances
             if self.metric == "cosine":
-                similarities = cosine_similarity([query_vector], vectors_array)[0]
+                # In double precision: scikit-learn takes float32 vectors with a
+                # norm below 1e-6 for zero vectors
+                similarities = cosine_similarity(
+                    np.asarray([query_vector], dtype=np.float64),
+                    np.asarray(vectors_array, dtype=np.float64),
+                )[0]
                 # Convert to distances (1 - similarity for sorting)
                 distances = 1 - similarities
             elif self.metric == "euclidean":
-- 
2.43.0


From 97b113d76cb8e3d3bdac1602dcac19432da473df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:17 +0000
Subject: [PATCH 46/51] fix: non-ASCII characters late in a long text file were
 replaced

---
 src/valori/parsers/text_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/valori/parsers/text_parser.py b/src/valori/parsers/text_parser.py
index 84fe890..b7e9ede 100644
--- a/src/valori/parsers/text_parser.py
+++ b/src/valori/parsers/text_parser.py
@@ -57,6 +57,9 @@ class TextParser(DocumentParser):
                     raw_data = f.read()
                     detected = chardet.detect(raw_data)
                     encoding = detected.get("encoding", "utf-8")
+                    if encoding == "ascii" and not raw_data.isascii():
+                        # chardet only looks at the beginning of long files
+                        encoding = "utf-8"
             else:
                 encoding = self.encoding
 
-- 
2.43.0


From 8ba9e568e62b092c2a662dc9000073a87dc93380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:25 +0000
Subject: [PATCH 47/51] fix: distances between integer or float16 vectors
 wrapped around or overflowed

---
 src/valori/indices/hnsw.py | 3 +++
 src/valori/indices/ivf.py  | 3 +++
 src/valori/indices/lsh.py  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index b96ee84..7ffafc5 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -363,6 +363,9 @@ class HNSWIndex(Index):
 
     def _compute_distance(self, vec1: np.ndarray, vec2: np.ndarray) -> float:
         """Compute distance between two vectors."""
+        # Integer vectors would wrap around and half precision overflow
+        vec1 = np.asarray(vec1, dtype=np.float64)
+        vec2 = np.asarray(vec2, dtype=np.float64)
         if self.metric == "cosine":
             # Cosine distance
             dot_product = np.dot(vec1, vec2)
diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index 3939ce5..9e3b201 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -452,6 +452,9 @@ class IVFIndex(Index):
 
     def _compute_distance(self, vec1: np.ndarray, vec2: np.ndarray) -> float:
         """Compute distance between two vectors."""
+        # Integer vectors would wrap around and half precision overflow
+        vec1 = np.asarray(vec1, dtype=np.float64)
+        vec2 = np.asarray(vec2, dtype=np.float64)
         if self.metric == "cosine":
             # Cosine distance
             dot_product = np.dot(vec1, vec2)
diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 67eb474..8423311 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -389,6 +389,9 @@ class LSHIndex(Index):
 
     def _compute_distance(self, vector1: np.ndarray, vector2: np.ndarray) -> float:
         """Compute distance between two vectors."""
+        # Integer vectors would wrap around and half precision overflow
+        vector1 = np.asarray(vector1, dtype=np.float64)
+        vector2 = np.asarray(vector2, dtype=np.float64)
         if self.metric == "cosine":
             # Cosine similarity
             dot_product = np.dot(vector1, vector2)
-- 
2.43.0


From c000a4792ed227154c513ee661301ffb98c1675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:00 +0000
Subject: [PATCH 48/51] fix: an IVF search could look in other clusters than
 the one holding a vector

Training assigned vectors to clusters by Euclidean distance whatever the metric, while searches pick clusters by the index metric: with cosine a search for a stored vector itself could miss it.
---
 src/valori/indices/ivf.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index 9e3b201..0477768 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -361,20 +361,17 @@ class IVFIndex(Index):
 
             # Perform K-means clustering
             kmeans = KMeans(n_clusters=self.n_clusters, random_state=42, n_init=10)
-            cluster_labels = kmeans.fit_predict(vectors_array)
+            kmeans.fit(vectors_array)
 
             # Store centroids
             self.centroids = kmeans.cluster_centers_
+            self._trained = True
 
-            # Build clusters
+            # Build clusters. By the index metric, as searches choose the clusters
+            # to look into (K-means knows Euclidean distances only)
             self.clusters.clear()
-            for i, vector_id in enumerate(valid_ids):
-                cluster_id = cluster_labels[i]
-                if cluster_id not in self.clusters:
-                    self.clusters[cluster_id] = []
-                self.clusters[cluster_id].append(vector_id)
-
-            self._trained = True
+            for vector_id, vector in zip(valid_ids, vectors):
+                self._add_to_cluster(vector_id, vector)
 
         except Exception as e:
             raise ValoriIndexError(f"Failed to train IVF index: {str(e)}")
-- 
2.43.0


From 04e7461242a4c2b9b2691289a4d0a73dbf6fabe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:06 +0000
Subject: [PATCH 49/51] fix: the release tool did not delete the old files it
 was told to delete

Answering the question with yes only had listed them; they stayed in dist/
and were uploaded with the new ones.
---
 scripts/release.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/release.py b/scripts/release.py
index cb4912e..7757331 100644
--- a/scripts/release.py
+++ b/scripts/release.py
@@ -200,6 +200,7 @@ def main(argv=None):
             if resp not in ("y", "yes"):
                 print("Aborting per user request.")
                 return 1
+            clean_old_dists(root, name, version)
 
     if args.dry_run:
         print("Dry-run complete. Exiting.")
-- 
2.43.0


From 8d4cc3ded6511ad5c230fded8653a08fe3fa0eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:06 +0000
Subject: [PATCH 50/51] fix: the clean-up of dist/ removed files of packages
 whose name begins alike

valori-tools-1.0.tar.gz counted as an old file of valori.
---
 scripts/clean_dist.py | 2 +-
 scripts/release.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/clean_dist.py b/scripts/clean_dist.py
index 4022a18..2a1cee7 100644
--- a/scripts/clean_dist.py
+++ b/scripts/clean_dist.py
@@ -71,7 +71,7 @@ def main():
         # Only target common distribution file extensions
         if not p.name.endswith((".whl", ".tar.gz", ".zip", ".tar.bz2")):
             continue
-        if p.name.startswith(f"{name}-") and keep_token not in p.name:
+        if re.match(re.escape(name) + r"-\d", p.name) and keep_token not in p.name:
             removed.append(p)
 
     if not removed:
diff --git a/scripts/release.py b/scripts/release.py
index 7757331..f1f6742 100644
--- a/scripts/release.py
+++ b/scripts/release.py
@@ -78,7 +78,7 @@ def clean_old_dists(
             continue
         if not p.name.endswith((".whl", ".tar.gz", ".zip", ".tar.bz2")):
             continue
-        if p.name.startswith(f"{name}-") and keep_token not in p.name:
+        if re.match(re.escape(name) + r"-\d", p.name) and keep_token not in p.name:
             removed.append(p)
 
     if not removed:
-- 
2.43.0


From 4a8770d989d3bb48ff0549eac1f58d4af679e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:04 +0000
Subject: [PATCH 51/51] fix: create_document_db ignored the index configuration
 it was given

The defaults for annoy and hnsw replaced it; the other factories let the
caller's configuration win.
---
 src/valori/factory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index ccfe7f3..45570b7 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -119,7 +119,9 @@ def create_document_db(
     db_config = {"index_type": index_type, "storage_type": "memory", **kwargs}
 
     # Default index config for document search
-    if index_type == "annoy":
+    if "index_config" in kwargs:
+        db_config["index_config"] = kwargs["index_config"]
+    elif index_type == "annoy":
         db_config["index_config"] = {
             "metric": "angular",
             "num_trees": 20,
-- 
2.43.0

