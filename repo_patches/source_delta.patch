From b8e4fb68ab05280c2a2a2334a14df5041520dd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 01/53] fix: hash encoded strings, xxhash no longer accepts str

---
 mixtera/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mixtera/utils/utils.py b/mixtera/utils/utils.py
index a879db4..c8f258c 100644
--- a/mixtera/utils/utils.py
+++ b/mixtera/utils/utils.py
@@ -106,7 +106,7 @@ def hash_list(string_list: list[str]) -> int:
     concatenated_string = "\0".join(string_list)
 
     # Compute the hash using xxhash
-    hash_result = xxhash.xxh64_intdigest(concatenated_string)
+    hash_result = xxhash.xxh64_intdigest(concatenated_string.encode("utf-8"))
 
     return hash_result
 
@@ -142,7 +142,7 @@ def hash_dict(d: dict[str, list[str]]) -> int:
     concatenated_string = "\0".join(concatenated_items)
 
     # Compute the hash using xxhash
-    hash_result = xxhash.xxh64_intdigest(concatenated_string)
+    hash_result = xxhash.xxh64_intdigest(concatenated_string.encode("utf-8"))
 
     return hash_result
 
-- 
2.43.0


From d0b55a0561b15b89260e4c9f25178811c714cb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 02/53] fix: fetch query results with to_arrow_table, DuckDB 2
 removed fetch_arrow_table

---
 mixtera/core/query/query.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/query/query.py b/mixtera/core/query/query.py
index d92c269..d4aa21e 100644
--- a/mixtera/core/query/query.py
+++ b/mixtera/core/query/query.py
@@ -108,7 +108,7 @@ class Query:
 
         # First, we need to get the column names from the base query
         columns_query = f"SELECT * FROM ({base_query}) LIMIT 0"
-        columns = conn.execute(columns_query, parameters).fetch_arrow_table().column_names
+        columns = conn.execute(columns_query, parameters).to_arrow_table().column_names
 
         # Determine group columns (all columns except 'sample_id')
         group_cols = ["dataset_id", "file_id"] + sorted(
@@ -152,7 +152,7 @@ class Query:
 
         self.results = QueryResult(
             mdc,
-            mdc._connection.execute(full_query, parameters).fetch_arrow_table(),
+            mdc._connection.execute(full_query, parameters).to_arrow_table(),
             mixture,
             query_log_dir=query_log_dir,
         )
-- 
2.43.0


From ac26244fb828a0dab6a2dbe068dc558dc8c4f38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 03/53] fix: arbitrary mixture could loop forever once some
 keys were exhausted

---
 mixtera/core/query/query_result.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 7686459..0c52ebb 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -511,11 +511,15 @@ class QueryResult:
                     self._persist_mixture_log()
 
                 chunk = None
+                num_skipped = 0
                 while len(empty_key_idx) < len(chunker_index_keys) and chunk is None:
                     chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)
                     if chunker_index_keys_idx in empty_key_idx:
                         # Note that this can be removed but needs some adjustments in the tests (only impacts ordering)
-                        chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)
+                        # Steps of two may never reach a key that still has data, hence visit every key after a while.
+                        num_skipped += 1
+                        if num_skipped <= len(chunker_index_keys):
+                            chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)
                         continue
 
                     key = chunker_index_keys[chunker_index_keys_idx]
-- 
2.43.0


From 20d1b6f5c19bd547a9b114d9fe2b77a3d9a2f386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 04/53] fix: best effort mixture divided by zero when only
 zero-weight keys had data left

---
 mixtera/core/query/query_result.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 0c52ebb..451c703 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -448,7 +448,11 @@ class QueryResult:
 
                                     total_mixture_size_remaining = sum(mixture[key] for key in target_keys)
 
-                                    ratios = [mixture[key] / total_mixture_size_remaining for key in target_keys]
+                                    if total_mixture_size_remaining > 0:
+                                        ratios = [mixture[key] / total_mixture_size_remaining for key in target_keys]
+                                    else:
+                                        # Only keys with (rounded) weight 0 are left, treat them equally
+                                        ratios = [1.0 / len(target_keys) for _ in target_keys]
 
                                     samples_to_distribute = distribute_by_ratio(num_missing_samples, ratios)
 
-- 
2.43.0


From 95afb85316839286532d63f1426603ac1a5339a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 05/53] fix: zero-weight or finished keys put empty ranges into
 chunks

---
 mixtera/core/query/query_result.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 451c703..07a6301 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -359,6 +359,8 @@ class QueryResult:
                     # Sort to guarantee same handling for semantically same mixtures
                     for mixture_key in sorted(remaining_sizes.keys()):
                         # logger.debug(f"Handling key {mixture_key}, remaining sizes: {remaining_sizes}")
+                        if remaining_sizes[mixture_key] == 0:
+                            continue  # Avoid putting empty ranges of this key into the chunk
 
                         for component_key, iterator in sorted(component_iterators.items(), key=lambda x: x[0]):
                             # logger.debug(f"Checking component key {component_key}")
-- 
2.43.0


From e9005b2d7b28dcdc720f3546e14fb182cdcd0b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 06/53] fix: retrying a chunk ignored the mixture that was
 updated in the meantime

---
 mixtera/core/query/query_result.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 07a6301..5c2d0df 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -506,7 +506,8 @@ class QueryResult:
                 else:
                     logger.debug("Not enough data, ending chunk generation")
                     no_success_counter += 1
-                    yield None
+                    # The mixture might have been updated until we are asked again
+                    base_mixture, target_chunk_index = yield None
             else:
                 if previous_mixture is not None or current_chunk_index == 0:
                     logger.debug("Obtained new None mixture.")
-- 
2.43.0


From 238c69740a90dca670459b2940734f26594932f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 07/53] fix: checkpoints taken after unsuccessful tries or the
 end of the data could not be restored

---
 mixtera/core/query/query_result.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 5c2d0df..8848e75 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -341,7 +341,8 @@ class QueryResult:
                             last_mixture._mixing_alg = None
 
                     if not self._is_replay:
-                        self._mixture_log.append((current_chunk_index, deepcopy(base_mixture)))
+                        # Number of calls so far, which only differs from the chunk index after unsuccessful tries
+                        self._mixture_log.append((self._num_returns_gen, deepcopy(base_mixture)))
 
                     self._persist_mixture_log()
                     self._update_key_id_map()
@@ -514,7 +515,7 @@ class QueryResult:
                     mixture_id += 1
                     previous_mixture = None
                     if not self._is_replay:
-                        self._mixture_log.append((current_chunk_index, base_mixture))
+                        self._mixture_log.append((self._num_returns_gen, base_mixture))
                     self._persist_mixture_log()
 
                 chunk = None
@@ -593,8 +594,9 @@ class QueryResult:
                     self._num_returns_gen == 0
                 ), f"Generator was not reset properly. Got {self._num_returns_gen} returns."
 
-            self._num_returns_gen += 1
             result = self._generator.send((self._mixture, chunk_target_index))
+            # Unsuccessful tries count (they have an effect on the generator and need to be replayed), the end does not
+            self._num_returns_gen += 1
             if result is None:
                 # In case we reach end of chunks (for now),
                 # next time (e.g. due to updated mixture) we try again to fetch the same ID.
@@ -706,6 +708,8 @@ class QueryResult:
         logger.debug(f"Starting to replay {num_chunks_replay} chunks.")
         mixture_log = self._mixture_log
         self._is_replay = True
+        stop_on_none = self.stop_on_none
+        self.stop_on_none = False  # Unsuccessful tries are replayed as well
 
         mixture_log_index = 0
         num_mixture_changes = len(mixture_log)
@@ -746,7 +750,7 @@ class QueryResult:
 
         logger.debug("Finished chunk replay.")
         assert self._num_returns_gen == num_chunks_replay
-        assert self._index.get_obj().value == num_chunks_replay
+        self.stop_on_none = stop_on_none
         self._is_replay = False
 
     @classmethod
-- 
2.43.0


From dc4103f50b25c22fa652fbf654ada7efaa5fa13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 08/53] fix: mixture log kept a reference to schedules with an
 arbitrary entry, replay used a later step

---
 mixtera/core/query/query_result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 8848e75..a7b33a7 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -515,7 +515,7 @@ class QueryResult:
                     mixture_id += 1
                     previous_mixture = None
                     if not self._is_replay:
-                        self._mixture_log.append((self._num_returns_gen, base_mixture))
+                        self._mixture_log.append((self._num_returns_gen, deepcopy(base_mixture)))
                     self._persist_mixture_log()
 
                 chunk = None
-- 
2.43.0


From 270c01347c1192028b57cdcd31405c4cdcaa564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 09/53] fix: checkpoint of a query that is not cached failed
 because its directory did not exist

---
 mixtera/core/query/chunk_distributor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index b0be975..ab1b9ec 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -382,6 +382,7 @@ class ChunkDistributor:
                 directory_to_copy = self._cached_query
             else:
                 logger.debug("Query has not been cached - pickling now. This may take some time.")
+                (chkpnt_dir / "queryresult").mkdir(parents=True)
                 self._query_result.to_cache(chkpnt_dir / "queryresult")
             logger.debug("Handled pickling of QueryResult.")
 
-- 
2.43.0


From ab87b02c0a2dbf2408ab621b86d903483a1a5fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 10/53] fix: restore used the mixture and domain ids of the
 persisted query result instead of those of the job

---
 mixtera/core/query/chunk_distributor.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index ab1b9ec..752a920 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -10,6 +10,7 @@ from typing import Any, Generator
 import dill
 from loguru import logger
 
+from mixtera.core.query.mixture import Mixture, MixtureKey
 from mixtera.core.query.query_result import QueryResult
 from mixtera.core.query.result_chunk import ResultChunk
 
@@ -409,6 +410,11 @@ class ChunkDistributor:
 
         returns_gen = self._query_result._num_returns_gen
 
+        # The current mixture might not have been used for a chunk yet (then, it is not part of the log),
+        # and the ids might not be those of the persisted QueryResult, e.g., if another job has cached it.
+        current_mixture = deepcopy(self._query_result._mixture)
+        key_id_map = deepcopy(self._query_result._key_id_map)
+
         logger.debug("Spinning up the persisting process.")
 
         self._checkpoint_info[checkpoint_id]["process"] = None
@@ -422,6 +428,8 @@ class ChunkDistributor:
                 state_to_save,
                 mixture_log,
                 returns_gen,
+                current_mixture,
+                key_id_map,
                 worker_sample_ids,
                 directory_to_copy,
             ),
@@ -436,6 +444,8 @@ class ChunkDistributor:
         state_to_save: dict[str, Any],
         mixture_log: list[tuple[int, Any]],
         num_returns_gen: int,
+        current_mixture: Mixture,
+        key_id_map: dict[MixtureKey, int],
         worker_sample_ids: dict[tuple[int, int], int],
         directory_to_copy: Path | None,
     ) -> None:
@@ -504,7 +514,14 @@ class ChunkDistributor:
             logger.info(f"Checkpointing the mixture log and num returns with num returns = {num_returns_gen}")
             with open(checkpoint_path / "query_result_state.pkl", "wb") as f:
                 dill.dump(
-                    {"num_returns_gen": num_returns_gen, "mixture_log": mixture_log}, f, protocol=dill.HIGHEST_PROTOCOL
+                    {
+                        "num_returns_gen": num_returns_gen,
+                        "mixture_log": mixture_log,
+                        "mixture": current_mixture,
+                        "key_id_map": key_id_map,
+                    },
+                    f,
+                    protocol=dill.HIGHEST_PROTOCOL,
                 )
 
             logger.debug("Wrote checkpoint.")
@@ -604,7 +621,11 @@ class ChunkDistributor:
         query_result._query_log_dir = query_log_dir
         if query_log_dir is not None:
             query_log_dir.mkdir(exist_ok=True)
+        if "key_id_map" in query_result_state:
+            query_result._key_id_map = query_result_state["key_id_map"]
         query_result.replay(query_result_state["num_returns_gen"])
+        if "mixture" in query_result_state:
+            query_result._mixture = query_result_state["mixture"]
 
         logger.debug("Instantiating class.")
 
-- 
2.43.0


From 5330016ea3dfef1357ec412e319eaea86b00750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 11/53] fix: a restored local run without data loader workers
 could not take checkpoints anymore

---
 mixtera/core/query/chunk_distributor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 752a920..1331dbf 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -368,6 +368,7 @@ class ChunkDistributor:
             "next_chunk": deepcopy(self._next_chunk),
             "_dp_groups": self._dp_groups,
             "_num_workers": self._num_workers,
+            "_og_num_workers": self._og_num_workers,
             "_nodes_per_group": self._nodes_per_group,
             "_checkpoint_id_counter": self._checkpoint_id_counter.value,
         }
@@ -632,7 +633,7 @@ class ChunkDistributor:
         chunk_distributor = cls(
             dp_groups=state["_dp_groups"],
             nodes_per_group=state["_nodes_per_group"],
-            num_workers=state["_num_workers"],
+            num_workers=state.get("_og_num_workers", state["_num_workers"]),
             query_result=query_result,
             job_id=job_id,
         )
-- 
2.43.0


From 808cf5c0ad58b2608fd6dd9392b52490f8ab0c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 12/53] fix: a failed checkpoint prevented all later
 checkpoints and was never reported as failed

---
 mixtera/core/query/chunk_distributor.py | 33 ++++++++++++++++---------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 1331dbf..b87813d 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -277,18 +277,24 @@ class ChunkDistributor:
             self._nodes_reported.add(key)
 
             if len(self._nodes_reported) == self._dp_groups * self._nodes_per_group:
-                # All nodes have reported; proceed to validation and checkpointing
-                worker_sample_ids = self._validate_checkpoint_state()
-
-                # Start checkpointing process
-                # By having this in the lock,
-                # we ensure we finish the checkpoint in-memory copy first before handling the next request.
-                self._start_checkpointing(checkpoint_id, worker_sample_ids, chkpnt_dir)
-
-                # Reset for next checkpoint, afterwards release the lock, allowing potentially for the next request.
-                self._worker_statuses = {}
-                self._nodes_reported = set()
-                self._current_checkpoint_id = None
+                try:
+                    # All nodes have reported; proceed to validation and checkpointing
+                    worker_sample_ids = self._validate_checkpoint_state()
+
+                    # Start checkpointing process
+                    # By having this in the lock,
+                    # we ensure we finish the checkpoint in-memory copy first before handling the next request.
+                    self._start_checkpointing(checkpoint_id, worker_sample_ids, chkpnt_dir)
+                except Exception:
+                    # Let the nodes that already wait for this checkpoint know
+                    self._checkpoint_info[checkpoint_id] = {"status": "failed"}
+                    raise
+                finally:
+                    # Reset for next checkpoint, afterwards release the lock, allowing potentially for the next request.
+                    # This also holds if this checkpoint failed, otherwise we can never checkpoint again.
+                    self._worker_statuses = {}
+                    self._nodes_reported = set()
+                    self._current_checkpoint_id = None
 
         return checkpoint_id
 
@@ -553,6 +559,9 @@ class ChunkDistributor:
         if checkpoint_info is None or not checkpoint_info:
             return False  # no checkpoint in progress
 
+        if checkpoint_info.get("status") == "failed":
+            raise RuntimeError(f"Checkpoint {checkpoint_id} failed.")
+
         if "process" not in checkpoint_info or checkpoint_info["process"] is None:
             return False  # No checkpoint in progress
 
-- 
2.43.0


From e9d172f0e4c6c09c454f7e103a9afc7ce4c5883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 13/53] fix: failed, crashed or overlapping first checkpoint
 left later checkpoints without a complete query result

---
 mixtera/core/query/chunk_distributor.py | 36 ++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index b87813d..7b52f3c 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -89,6 +89,7 @@ class ChunkDistributor:
         self._checkpoint_info: dict[str, dict[str, Any]] = {}  # Info for each checkpoint process on its status
         self._current_checkpoint_id: str | None = None
         self._cached_query = cached_query
+        self._owns_query_dir = False  # Whether the QueryResult in the checkpoint directory is ours
 
     def next_chunk_for(
         self, dp_group: int, node_id: int, worker_id: int, deserialize: bool
@@ -383,15 +384,23 @@ class ChunkDistributor:
         # the QueryResult will be pickled when we start another process.
         # This means we cannot store the result in another process - the expensive operation is the pickling.
         directory_to_copy = None
-        if self._checkpoint_id_counter.value == 1:
-            logger.debug("This is the first checkpoint.")
-            if self._cached_query is not None:
+        query_dir = chkpnt_dir / "queryresult"
+        if not self._owns_query_dir and query_dir.exists():
+            raise RuntimeError(f"{query_dir} exists, i.e., there already are checkpoints of another run of this job.")
+        self._owns_query_dir = True
+
+        # Usually, this holds for the first checkpoint only. However, it might have failed or still be in progress.
+        if not query_dir.exists():
+            logger.debug("The QueryResult has not been persisted yet.")
+            if self._cached_query is not None and self._cached_query.exists():
                 logger.debug("Copying cached QueryResult to setup initial checkpoint in subprocess.")
                 directory_to_copy = self._cached_query
             else:
                 logger.debug("Query has not been cached - pickling now. This may take some time.")
-                (chkpnt_dir / "queryresult").mkdir(parents=True)
-                self._query_result.to_cache(chkpnt_dir / "queryresult")
+                tmp_dir = self._prepare_tmp_query_dir(chkpnt_dir, checkpoint_id)
+                tmp_dir.mkdir(parents=True)
+                self._query_result.to_cache(tmp_dir)
+                tmp_dir.rename(query_dir)
             logger.debug("Handled pickling of QueryResult.")
 
         if hasattr(self._query_result, "_mixture") and self._query_result._mixture is not None:
@@ -444,6 +453,13 @@ class ChunkDistributor:
         self._checkpoint_info[checkpoint_id]["process"] = p
         p.start()
 
+    @staticmethod
+    def _prepare_tmp_query_dir(chkpnt_dir: Path, checkpoint_id: str) -> Path:
+        # The QueryResult directory needs to appear atomically: All checkpoints of a job rely on its contents.
+        tmp_dir = chkpnt_dir / f"queryresult.{checkpoint_id}"
+        shutil.rmtree(tmp_dir, ignore_errors=True)
+        return tmp_dir
+
     @staticmethod
     def _persist_checkpoint_process(
         checkpoint_id: str,
@@ -476,7 +492,14 @@ class ChunkDistributor:
         try:
             if directory_to_copy is not None:
                 logger.debug("Starting to copy directory in process.")
-                shutil.copytree(directory_to_copy, chkpnt_dir / "queryresult")
+                tmp_dir = ChunkDistributor._prepare_tmp_query_dir(chkpnt_dir, checkpoint_id)
+                shutil.copytree(directory_to_copy, tmp_dir)
+                try:
+                    tmp_dir.rename(chkpnt_dir / "queryresult")
+                except OSError:
+                    if not (chkpnt_dir / "queryresult").exists():
+                        raise
+                    shutil.rmtree(tmp_dir)  # Another checkpoint of this run has been faster
                 logger.debug("Directory copied..")
 
             assert (
@@ -657,6 +680,7 @@ class ChunkDistributor:
         chunk_distributor._current_checkpoint_id = None
         chunk_distributor._worker_statuses = {}
         chunk_distributor._nodes_reported = set()
+        chunk_distributor._owns_query_dir = True
         chunk_distributor._checkpoint_id_counter.value = state["_checkpoint_id_counter"]
 
         # Update the _checkpoint_id_counter.value to avoid overwriting existing checkpoints
-- 
2.43.0


From 03f63acaa9a1452f77e3de74452c8ca7a2e1d9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 14/53] fix: the inferred mixture depended on the enumeration
 order of the index

---
 mixtera/core/datacollection/index/index_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/datacollection/index/index_utils.py b/mixtera/core/datacollection/index/index_utils.py
index 1bd6659..e951042 100644
--- a/mixtera/core/datacollection/index/index_utils.py
+++ b/mixtera/core/datacollection/index/index_utils.py
@@ -19,7 +19,8 @@ def infer_mixture_from_chunkerindex(chunker_index: ChunkerIndex) -> tuple[int, d
         )
         return mass
 
-    for property_combination, partition_entry in chunker_index.items():
+    # The order in which the index enumerates its keys is arbitrary, but the order of the mixture is observable
+    for property_combination, partition_entry in sorted(chunker_index.items(), key=lambda item: item[0]):
         partition_mass = calculate_partition_mass(partition_entry)
         partition_masses[property_combination] = partition_mass
         total_count += partition_mass
-- 
2.43.0


From a98f08a50ee7845730f207fadab2dc9216e3b39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 15/53] fix: properties named like internal columns of the
 interval query gave wrong results

---
 mixtera/core/datacollection/index/parser/metadata_parser.py | 4 +++-
 mixtera/core/query/query.py                                 | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/mixtera/core/datacollection/index/parser/metadata_parser.py b/mixtera/core/datacollection/index/parser/metadata_parser.py
index a7eaf67..ea28659 100644
--- a/mixtera/core/datacollection/index/parser/metadata_parser.py
+++ b/mixtera/core/datacollection/index/parser/metadata_parser.py
@@ -31,7 +31,9 @@ class MetadataParser(ABC):
         self.file_id: int = file_id
         self.metadata: list[dict] = []
         self.property_map = {prop.name: prop for prop in self.get_properties()}
-        self._internal_keys = set(["file_id", "dataset_id"])
+        self._internal_keys = set(
+            ["file_id", "dataset_id", "sample_id", "group_id", "interval_start", "interval_end", "mixtera_internal_diff"]
+        )
         for key in self.property_map.keys():
             if key in self._internal_keys:
                 raise RuntimeError(f"Property {key} is a Mixtera-internal key. It should not be in properties.")
diff --git a/mixtera/core/query/query.py b/mixtera/core/query/query.py
index d4aa21e..6a8e708 100644
--- a/mixtera/core/query/query.py
+++ b/mixtera/core/query/query.py
@@ -127,18 +127,18 @@ class Query:
             SELECT
                 *,
                 sample_id - LAG(sample_id, 1, sample_id)
-                    OVER (PARTITION BY {partition_clause} ORDER BY sample_id) AS diff
+                    OVER (PARTITION BY {partition_clause} ORDER BY sample_id) AS mixtera_internal_diff
             FROM base_data
         ),
         intervals AS (
             SELECT
                 {', '.join(group_cols)},
-                SUM(CASE WHEN diff != 1 THEN 1 ELSE 0 END)
+                SUM(CASE WHEN mixtera_internal_diff != 1 THEN 1 ELSE 0 END)
                     OVER (PARTITION BY {partition_clause} ORDER BY sample_id) AS group_id,
                 MIN(sample_id) as interval_start,
                 MAX(sample_id) + 1 as interval_end
             FROM grouped_samples
-            GROUP BY {partition_clause}, diff, sample_id
+            GROUP BY {partition_clause}, mixtera_internal_diff, sample_id
         )
         SELECT
             {', '.join(group_cols)},
-- 
2.43.0


From 5a6792db263bdb909dc6a3e8d0c6a75073b0f930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 16/53] fix: concurrent registrations and queries shared one
 database connection and failed or mixed up their data

---
 .../datacollection/mixtera_data_collection.py | 24 +++++++++----------
 mixtera/core/query/query.py                   |  5 ++--
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index 7f7dd4a..dad3288 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -122,7 +122,7 @@ class MixteraDataCollection:
 
     def _vacuum(self) -> None:
         logger.info("Vacuuming the DuckDB.")
-        self._connection.execute("VACUUM")
+        self._connection.cursor().execute("VACUUM")
         logger.info("Vacuumd.")
 
     def get_db_version(self) -> int:
@@ -135,11 +135,8 @@ class MixteraDataCollection:
 
     def _db_incr_version(self) -> None:
         assert self._connection, "Not connected to db!"
-        current_version = self.get_db_version()
         cur = self._connection.cursor()
-        new_version = current_version + 1
-        cur.execute("UPDATE version SET version_number = ? WHERE id = 1", (new_version,))
-        self._connection.commit()
+        cur.execute("UPDATE version SET version_number = version_number + 1 WHERE id = 1")
 
     def register_dataset(
         self,
@@ -250,7 +247,9 @@ class MixteraDataCollection:
         df_files = pl.DataFrame(
             [(dataset_id, str(loc)) for loc in locs], schema=["dataset_id", "location"], orient="row"
         )
-        self._connection.register("df_files", df_files)
+        # Registrations and queries may run concurrently, a connection only supports one operation at a time
+        conn = self._connection.cursor()
+        conn.register("df_files", df_files)
         logger.info(f"Inserting {len(locs)} files for dataset id = {dataset_id}")
 
         try:
@@ -260,7 +259,7 @@ class MixteraDataCollection:
             SELECT dataset_id, location FROM df_files
             RETURNING id, location;
             """
-            result = self._connection.execute(insert_query).fetchall()
+            result = conn.execute(insert_query).fetchall()
 
             # Create a mapping from location to id
             id_map = {loc: fid for fid, loc in result}
@@ -272,9 +271,8 @@ class MixteraDataCollection:
             logger.error(f"DuckDB error during insertion of files: {err}")
             return []
         finally:
-            self._connection.unregister("df_files")
+            conn.unregister("df_files")
 
-        self._connection.commit()
         self._db_incr_version()
         return file_ids
 
@@ -369,16 +367,16 @@ class MixteraDataCollection:
         # It is important to specify the columns in the insertion query
         # Otherwise we do not guarantee that the values silently land in a different column.
         columns = ", ".join(all_columns)
+        conn = self._connection.cursor()
         try:
-            self._connection.register("samples_data", table)
-            self._connection.execute(f"INSERT INTO samples ({columns}) SELECT {columns} FROM samples_data")
-            self._connection.commit()
+            conn.register("samples_data", table)
+            conn.execute(f"INSERT INTO samples ({columns}) SELECT {columns} FROM samples_data")
             logger.debug("Data inserted successfully.")
         except Exception as e:
             logger.error(f"Error during data insertion using PyArrow Table: {e}")
             raise
         finally:
-            self._connection.unregister("samples_data")
+            conn.unregister("samples_data")
 
     def check_dataset_exists(self, identifier: str) -> bool:
         try:
diff --git a/mixtera/core/query/query.py b/mixtera/core/query/query.py
index 6a8e708..30dd343 100644
--- a/mixtera/core/query/query.py
+++ b/mixtera/core/query/query.py
@@ -79,7 +79,8 @@ class Query:
             mixture_log: A path where the mixture over time should be logged
         """
         logger.debug(f"Executing query locally with chunk size {mixture.chunk_size}")
-        conn = mdc._connection
+        # Other threads may use the connection concurrently (e.g., to register datasets)
+        conn = mdc._connection.cursor()
 
         # -- BEGIN INNER SELECTION QUERY GENERATION  -- #
         # Fetch the table schema
@@ -152,7 +153,7 @@ class Query:
 
         self.results = QueryResult(
             mdc,
-            mdc._connection.execute(full_query, parameters).to_arrow_table(),
+            conn.execute(full_query, parameters).to_arrow_table(),
             mixture,
             query_log_dir=query_log_dir,
         )
-- 
2.43.0


From 2eb954904b88014ac467dae73e3459fc40253a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 17/53] fix: a query executed while datasets changed was cached
 as if it reflected the new contents

---
 mixtera/core/client/local/local_stub.py |  3 ++-
 mixtera/core/query/query_cache.py       | 12 ++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/mixtera/core/client/local/local_stub.py b/mixtera/core/client/local/local_stub.py
index 442476f..a7bb6f6 100644
--- a/mixtera/core/client/local/local_stub.py
+++ b/mixtera/core/client/local/local_stub.py
@@ -89,8 +89,9 @@ class LocalStub(MixteraClient):
             query.results._key_id_map = {}  # reset map to trigger update of mixture id map
             query.results.update_mixture(args.mixture)
         else:
+            db_version = self._mdc.get_db_version()
             query.execute(self._mdc, args.mixture, self.mixture_log_directory / query.job_id)
-            cache_path = self._query_cache.cache_query(query)
+            cache_path = self._query_cache.cache_query(query, db_version)
         return self._register_query(
             query, args.mixture, args.dp_groups, args.nodes_per_group, args.num_workers, cache_path
         )
diff --git a/mixtera/core/query/query_cache.py b/mixtera/core/query/query_cache.py
index c909cc2..3d975d0 100644
--- a/mixtera/core/query/query_cache.py
+++ b/mixtera/core/query/query_cache.py
@@ -23,7 +23,15 @@ class QueryCache:
         query_string = str(query)
         return hashlib.sha256(query_string.encode()).hexdigest()
 
-    def cache_query(self, query: Query) -> None | Path:
+    def cache_query(self, query: Query, db_version: int | None = None) -> None | Path:
+        """
+        Stores the results of an executed query.
+
+        Args:
+            query: The executed query.
+            db_version: The version of the database before the query has been executed. As datasets may be registered
+                or removed during the execution, only this version ensures that outdated results are not used.
+        """
         if not self.enabled:
             return None
 
@@ -41,7 +49,7 @@ class QueryCache:
         query_dir.mkdir()
 
         # Prepare the cache metadata
-        db_ver = self._mdc.get_db_version()
+        db_ver = self._mdc.get_db_version() if db_version is None else db_version
         cache_obj = {"db_version": db_ver, "query_str": str(query)}
 
         # Save the metadata
-- 
2.43.0


From 3dd6548ccc833dcdf55068078bf108ba29ab3fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:36 +0000
Subject: [PATCH 18/53] fix: a crash while caching a query result left an entry
 that was used although it is incomplete

---
 mixtera/core/query/query_cache.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mixtera/core/query/query_cache.py b/mixtera/core/query/query_cache.py
index 3d975d0..48e949b 100644
--- a/mixtera/core/query/query_cache.py
+++ b/mixtera/core/query/query_cache.py
@@ -52,14 +52,16 @@ class QueryCache:
         db_ver = self._mdc.get_db_version() if db_version is None else db_version
         cache_obj = {"db_version": db_ver, "query_str": str(query)}
 
-        # Save the metadata
-        meta_path = query_dir / "meta.pkl"
-        with meta_path.open("wb") as f:
-            pickle.dump(cache_obj, f, protocol=pickle.HIGHEST_PROTOCOL)
-
         # Call the to_cache method on query.results to serialize it
         query.results.to_cache(query_dir)
 
+        # Save the metadata last and atomically: entries without it are incomplete and not used
+        meta_path = query_dir / "meta.pkl"
+        tmp_meta_path = query_dir / "meta.pkl.tmp"
+        with tmp_meta_path.open("wb") as f:
+            pickle.dump(cache_obj, f, protocol=pickle.HIGHEST_PROTOCOL)
+        os.replace(tmp_meta_path, meta_path)
+
         logger.debug(f"QueryResult saved to {query_dir}")
         return query_dir
 
-- 
2.43.0


From b2697b12d15456c99c8edc826903099d2d645739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 19/53] fix: first checkpoint copied the cached result although
 another job had replaced it

---
 mixtera/core/query/chunk_distributor.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 7b52f3c..3c9fd03 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -89,6 +89,7 @@ class ChunkDistributor:
         self._checkpoint_info: dict[str, dict[str, Any]] = {}  # Info for each checkpoint process on its status
         self._current_checkpoint_id: str | None = None
         self._cached_query = cached_query
+        self._cached_query_meta = self._read_cached_query_meta()
         self._owns_query_dir = False  # Whether the QueryResult in the checkpoint directory is ours
 
     def next_chunk_for(
@@ -392,7 +393,7 @@ class ChunkDistributor:
         # Usually, this holds for the first checkpoint only. However, it might have failed or still be in progress.
         if not query_dir.exists():
             logger.debug("The QueryResult has not been persisted yet.")
-            if self._cached_query is not None and self._cached_query.exists():
+            if self._cached_query_meta is not None and self._cached_query_meta == self._read_cached_query_meta():
                 logger.debug("Copying cached QueryResult to setup initial checkpoint in subprocess.")
                 directory_to_copy = self._cached_query
             else:
@@ -453,6 +454,14 @@ class ChunkDistributor:
         self._checkpoint_info[checkpoint_id]["process"] = p
         p.start()
 
+    def _read_cached_query_meta(self) -> bytes | None:
+        # Identifies what is currently stored in the cache directory. If the cached query became invalid,
+        # e.g., since a dataset has been registered, another job might replace it with another result.
+        if self._cached_query is None or not self._cached_query.exists():
+            return None
+        meta_path = self._cached_query / "meta.pkl"
+        return meta_path.read_bytes() if meta_path.exists() else b""
+
     @staticmethod
     def _prepare_tmp_query_dir(chkpnt_dir: Path, checkpoint_id: str) -> Path:
         # The QueryResult directory needs to appear atomically: All checkpoints of a job rely on its contents.
-- 
2.43.0


From dbeae1bc47ecf973a07d12b7abc6acf28d2f7cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:09 +0000
Subject: [PATCH 20/53] fix: failed or interrupted registrations and removals
 of datasets left parts of them behind

---
 .../datacollection/mixtera_data_collection.py | 148 ++++++++++++------
 mixtera/network/server/server.py              |   3 +-
 2 files changed, 106 insertions(+), 45 deletions(-)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index dad3288..8573542 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -1,7 +1,9 @@
 import os
+import threading
+from contextlib import contextmanager
 from multiprocessing import Pool
 from pathlib import Path
-from typing import Any, Callable, List, Type
+from typing import Any, Callable, Iterator, List, Type
 
 import dill
 import duckdb
@@ -31,7 +33,14 @@ def process_file_for_metadata(
     return (file_id, metadata_parser.metadata)
 
 
+class _RegistrationFailed(Exception):
+    pass
+
+
 class MixteraDataCollection:
+    _write_lock = threading.Lock()  # Datasets may be registered and removed concurrently
+    _transaction: tuple[int, duckdb.DuckDBPyConnection] | None = None  # thread id and cursor of the current transaction
+
     def __init__(self, directory: Path) -> None:
         if not directory.exists():
             raise RuntimeError(f"Directory {directory} does not exist.")
@@ -50,6 +59,7 @@ class MixteraDataCollection:
             self._connection = self._load_db_from_disk()
 
         self._configure_duckdb()
+        self._finish_removals()
         self._vacuum()
 
     def _configure_duckdb(self) -> None:
@@ -120,14 +130,46 @@ class MixteraDataCollection:
         logger.info("Database initialized.")
         return conn
 
+    def _cursor(self) -> duckdb.DuckDBPyConnection:
+        # Registrations and queries may run concurrently, a connection only supports one operation at a time
+        transaction = self._transaction
+        if transaction is not None and transaction[0] == threading.get_ident():
+            return transaction[1]
+        return self._connection.cursor()
+
+    @contextmanager
+    def _atomic(self) -> Iterator[duckdb.DuckDBPyConnection]:
+        """
+        Everything that the current thread writes to the database within this context is committed when leaving it,
+        and neither visible to others before nor after an exception or crash. Requires holding the _write_lock.
+        """
+        cur = self._connection.cursor()
+        cur.begin()
+        self._transaction = (threading.get_ident(), cur)
+        try:
+            yield cur
+            cur.commit()
+        except BaseException:
+            cur.rollback()
+            raise
+        finally:
+            self._transaction = None
+
+    def _finish_removals(self) -> None:
+        # A registered dataset has at least one file, see remove_dataset
+        try:
+            self._connection.cursor().execute("DELETE FROM datasets WHERE id NOT IN (SELECT dataset_id FROM files)")
+        except duckdb.Error as err:
+            logger.warning(f"Could not finish the removal of datasets, will be retried later: {err}")
+
     def _vacuum(self) -> None:
         logger.info("Vacuuming the DuckDB.")
-        self._connection.cursor().execute("VACUUM")
+        self._cursor().execute("VACUUM")
         logger.info("Vacuumd.")
 
     def get_db_version(self) -> int:
         assert self._connection, "Not connected to db!"
-        cur = self._connection.cursor()
+        cur = self._cursor()
         cur.execute("SELECT version_number FROM version WHERE id = 1")
         version = cur.fetchone()
         assert version, "Could not fetch version from DB!"
@@ -135,7 +177,7 @@ class MixteraDataCollection:
 
     def _db_incr_version(self) -> None:
         assert self._connection, "Not connected to db!"
-        cur = self._connection.cursor()
+        cur = self._cursor()
         cur.execute("UPDATE version SET version_number = version_number + 1 WHERE id = 1")
 
     def register_dataset(
@@ -145,6 +187,29 @@ class MixteraDataCollection:
         dtype: Type[Dataset],
         parsing_func: Callable[[str], str],
         metadata_parser_type: str,
+    ) -> bool:
+        # A dataset is registered completely or not at all, even if we fail or crash in between.
+        with self._write_lock:
+            self._finish_removals()
+            try:
+                with self._atomic():
+                    if not self._register_dataset(identifier, loc, dtype, parsing_func, metadata_parser_type):
+                        raise _RegistrationFailed()
+            except _RegistrationFailed:
+                return False
+
+        self._vacuum()
+
+        logger.info("Finished dataset registration.")
+        return True
+
+    def _register_dataset(
+        self,
+        identifier: str,
+        loc: str,
+        dtype: Type[Dataset],
+        parsing_func: Callable[[str], str],
+        metadata_parser_type: str,
     ) -> bool:
         if (dataset_id := self._insert_dataset_into_table(identifier, loc, dtype, parsing_func)) == -1:
             return False
@@ -193,9 +258,6 @@ class MixteraDataCollection:
         logger.info("All tasks finished.")
 
         self._db_incr_version()
-        self._vacuum()
-
-        logger.info("Finished dataset registration.")
         return True
 
     def _insert_dataset_into_table(
@@ -222,9 +284,8 @@ class MixteraDataCollection:
 
         try:
             query = "INSERT INTO datasets (name, location, type, parsing_func) VALUES (?, ?, ?, ?) RETURNING id;"
-            cur = self._connection.cursor()
+            cur = self._cursor()
             result = cur.execute(query, (identifier, loc, type_id, serialized_parsing_func)).fetchone()
-            self._connection.commit()
 
             if result is None:
                 logger.error("result is None without any DuckDB error. This should not happen.")
@@ -247,8 +308,7 @@ class MixteraDataCollection:
         df_files = pl.DataFrame(
             [(dataset_id, str(loc)) for loc in locs], schema=["dataset_id", "location"], orient="row"
         )
-        # Registrations and queries may run concurrently, a connection only supports one operation at a time
-        conn = self._connection.cursor()
+        conn = self._cursor()
         conn.register("df_files", df_files)
         logger.info(f"Inserting {len(locs)} files for dataset id = {dataset_id}")
 
@@ -277,7 +337,7 @@ class MixteraDataCollection:
         return file_ids
 
     def _add_columns_to_samples_table(self, properties: list[MetadataProperty]) -> None:
-        cur = self._connection.cursor()
+        cur = self._cursor()
 
         # Fetch all existing column names once
         cur.execute("SELECT name FROM pragma_table_info('samples');")
@@ -314,8 +374,6 @@ class MixteraDataCollection:
                 alter_query = f"ALTER TABLE samples ADD COLUMN {prop.name} {column_type} {nullable_str};"
                 cur.execute(alter_query)
 
-            self._connection.commit()
-
     def _insert_samples_with_metadata(
         self, dataset_id: int, results: list[tuple[int, list[dict]]], properties: list[MetadataProperty]
     ) -> None:
@@ -367,7 +425,7 @@ class MixteraDataCollection:
         # It is important to specify the columns in the insertion query
         # Otherwise we do not guarantee that the values silently land in a different column.
         columns = ", ".join(all_columns)
-        conn = self._connection.cursor()
+        conn = self._cursor()
         try:
             conn.register("samples_data", table)
             conn.execute(f"INSERT INTO samples ({columns}) SELECT {columns} FROM samples_data")
@@ -380,8 +438,8 @@ class MixteraDataCollection:
 
     def check_dataset_exists(self, identifier: str) -> bool:
         try:
-            query = "SELECT COUNT(*) from datasets WHERE name = ?;"
-            cur = self._connection.cursor()
+            query = "SELECT COUNT(*) from datasets WHERE name = ? AND id IN (SELECT dataset_id FROM files);"
+            cur = self._cursor()
             result = cur.execute(query, (identifier,)).fetchone()
         except duckdb.Error as err:
             logger.error(f"A DuckDB error occurred during selection: {err}")
@@ -396,8 +454,8 @@ class MixteraDataCollection:
 
     def list_datasets(self) -> List[str]:
         try:
-            query = "SELECT name from datasets;"
-            cur = self._connection.cursor()
+            query = "SELECT name from datasets WHERE id IN (SELECT dataset_id FROM files) ORDER BY id;"
+            cur = self._cursor()
             result = cur.execute(query).fetchall()
         except duckdb.Error as err:
             logger.error(f"A DuckDB error occurred during selection: {err}")
@@ -411,27 +469,28 @@ class MixteraDataCollection:
             return False
 
         try:
-            delete_samples_query = """
-            DELETE FROM samples
-            WHERE dataset_id IN (
-                SELECT id FROM datasets WHERE name = ?
-            );
-            """
-            cur = self._connection.cursor()
-            cur.execute(delete_samples_query, (identifier,))
-
-            delete_files_query = """
-            DELETE FROM files
-            WHERE dataset_id IN (
-                SELECT id FROM datasets WHERE name = ?
-            );
-            """
-            cur.execute(delete_files_query, (identifier,))
-
-            delete_dataset_query = "DELETE FROM datasets WHERE name = ?;"
-            cur.execute(delete_dataset_query, (identifier,))
-            self._connection.commit()
-            self._db_incr_version()
+            with self._write_lock:
+                # DuckDB does not support removing the dataset in the same transaction as the files referencing it.
+                # Datasets without files do not exist anymore, in case we fail or crash in between.
+                with self._atomic() as cur:
+                    delete_samples_query = """
+                    DELETE FROM samples
+                    WHERE dataset_id IN (
+                        SELECT id FROM datasets WHERE name = ?
+                    );
+                    """
+                    cur.execute(delete_samples_query, (identifier,))
+
+                    delete_files_query = """
+                    DELETE FROM files
+                    WHERE dataset_id IN (
+                        SELECT id FROM datasets WHERE name = ?
+                    );
+                    """
+                    cur.execute(delete_files_query, (identifier,))
+                    self._db_incr_version()
+
+                self._finish_removals()
         except duckdb.Error as err:
             logger.error(f"A DuckDB error occurred during deletion: {err}")
             return False
@@ -444,7 +503,7 @@ class MixteraDataCollection:
                 "SELECT files.id, files.dataset_id, files.location, datasets.type"
                 + " from files JOIN datasets ON files.dataset_id = datasets.id;"
             )
-            cur = self._connection.cursor()
+            cur = self._cursor()
             result = cur.execute(query).fetchall()
         except duckdb.Error as err:
             logger.error(f"A DuckDB error occurred during selection: {err}")
@@ -455,7 +514,7 @@ class MixteraDataCollection:
     def _get_dataset_func_by_id(self, did: int) -> Callable[[str], str]:
         try:
             query = "SELECT parsing_func from datasets WHERE id = ?;"
-            cur = self._connection.cursor()
+            cur = self._cursor()
             result = cur.execute(query, (did,)).fetchone()
         except duckdb.Error as err:
             logger.error(f"Error while selecting parsing_func for did {did}")
@@ -469,7 +528,7 @@ class MixteraDataCollection:
     def _get_dataset_type_by_id(self, did: int) -> Type[Dataset]:
         try:
             query = "SELECT type from datasets WHERE id = ?;"
-            cur = self._connection.cursor()
+            cur = self._cursor()
             result = cur.execute(query, (did,)).fetchone()
         except duckdb.Error as err:
             logger.error(f"Error while selecting parsing_func for did {did}")
@@ -488,7 +547,7 @@ class MixteraDataCollection:
     def _get_file_path_by_id(self, fid: int) -> str:
         try:
             query = "SELECT location from files WHERE id = ?;"
-            cur = self._connection.cursor()
+            cur = self._cursor()
             result = cur.execute(query, (fid,)).fetchone()
         except duckdb.Error as err:
             logger.error(f"Error while selecting location for fid {fid}")
@@ -594,6 +653,7 @@ class MixteraDataCollection:
         # We cannot pickle the DuckDB connection.
         d = dict(self.__dict__)
         del d["_connection"]
+        d.pop("_transaction", None)
         return d
 
     def __setstate__(self, state: dict) -> None:
diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index 5aa9572..ddcecfc 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -314,7 +314,8 @@ class MixteraServer:
             writer (asyncio.StreamWriter): The stream writer to write data to the client.
         """
         identifier = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        success = self._local_stub.remove_dataset(identifier)
+        # The removal waits for registrations that are in progress, other clients must not wait for them
+        success = await asyncio.to_thread(self._local_stub.remove_dataset, identifier)
         await write_int(int(success), NUM_BYTES_FOR_IDENTIFIERS, writer)
 
     async def _add_property(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
-- 
2.43.0


From 5611f8804194700280eb5dcfeecf0c3fdeaf3ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 21/53] fix: multi-valued properties were stored as strings if
 another dataset had the property with single values

---
 .../datacollection/mixtera_data_collection.py    | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index 8573542..2fa29da 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -339,10 +339,18 @@ class MixteraDataCollection:
     def _add_columns_to_samples_table(self, properties: list[MetadataProperty]) -> None:
         cur = self._cursor()
 
-        # Fetch all existing column names once
-        cur.execute("SELECT name FROM pragma_table_info('samples');")
-        existing_columns = set(row[0] for row in cur.fetchall())
-        columns_to_add = [prop for prop in properties if prop.name not in existing_columns]
+        # Fetch all existing columns once (names are not case-sensitive in DuckDB)
+        cur.execute("SELECT name, type FROM pragma_table_info('samples');")
+        existing_columns = {row[0].lower(): row[1] for row in cur.fetchall()}
+        columns_to_add = [prop for prop in properties if prop.name.lower() not in existing_columns]
+
+        for prop in properties:
+            # DuckDB would silently convert between lists and their string representation
+            column_type = existing_columns.get(prop.name.lower(), None)
+            if column_type is not None and column_type.endswith("[]") != prop.multiple:
+                raise RuntimeError(
+                    f"Property {prop.name} (multiple = {prop.multiple}) already exists with type {column_type}."
+                )
 
         if columns_to_add:
             for prop in columns_to_add:
-- 
2.43.0


From 5d92856480f55e2888b63fc2b30f8861a50c868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:02 +0000
Subject: [PATCH 22/53] fix: both of two concurrent removals of a dataset were
 reported as successful

---
 mixtera/core/datacollection/mixtera_data_collection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index 2fa29da..c7372be 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -472,12 +472,12 @@ class MixteraDataCollection:
         return [dataset[0] for dataset in result]
 
     def remove_dataset(self, identifier: str) -> bool:
-        if not self.check_dataset_exists(identifier):
-            logger.error(f"Dataset {identifier} does not exist.")
-            return False
-
         try:
             with self._write_lock:
+                if not self.check_dataset_exists(identifier):
+                    logger.error(f"Dataset {identifier} does not exist.")
+                    return False
+
                 # DuckDB does not support removing the dataset in the same transaction as the files referencing it.
                 # Datasets without files do not exist anymore, in case we fail or crash in between.
                 with self._atomic() as cur:
-- 
2.43.0


From 97ab78a412fafa7f459980c5b1f57596f65d9d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:49 +0000
Subject: [PATCH 23/53] fix: windowed streaming looped forever if only domains
 without a share in the window were left

---
 mixtera/core/query/result_chunk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index 728d208..704fa6d 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -440,6 +440,10 @@ class ResultChunk:
                 if nothing_yielded_window:
                     break
 
+            if items_yielded == 0:
+                # Only keys without a share in the window are left. Let them participate (relevant for best effort).
+                element_counts = [(property_key, max(count, 1)) for property_key, count in element_counts]
+
     def _iterate_overall_mixture(
         self, active_iterators: dict[MixtureKey, Iterator[Sample]]
     ) -> Iterator[tuple[int, Sample]]:
-- 
2.43.0


From fbead5d06d8257f7084e5a1568f23bb66bb1c9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:49 +0000
Subject: [PATCH 24/53] fix: windows deviated from the mixture of the chunk due
 to float rounding and in chunks smaller than the chunk size

---
 mixtera/core/query/result_chunk.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index 704fa6d..19f2704 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -478,10 +478,10 @@ class ResultChunk:
         """
         assert isinstance(self._mixture, dict), "Mixture must be defined for windowed reading, this should not happen."
 
-        # Determine the per-property combination batch counts
-        initial_counts = [
-            (key, int(self._window_size * (value / self._chunk_size))) for key, value in self._mixture.items()
-        ]
+        # Determine the per-property combination batch counts. The chunk might have fewer samples than the chunk size
+        # (end of data), and we need exact integer arithmetic (e.g., int(49 * (1 / 49)) == 0).
+        total_samples = sum(self._mixture.values())
+        initial_counts = [(key, self._window_size * value // total_samples) for key, value in self._mixture.items()]
         total_counts = sum(count for _, count in initial_counts)
         remainder = self._window_size - total_counts
 
-- 
2.43.0


From f344d838e5c13c270842a9b2b9f3966a0ad087b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 25/53] fix: errors while prefetching the first item were
 swallowed and a first item of None ended the stream

---
 mixtera/utils/prefetch_iterator.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mixtera/utils/prefetch_iterator.py b/mixtera/utils/prefetch_iterator.py
index 8aae563..b528c14 100644
--- a/mixtera/utils/prefetch_iterator.py
+++ b/mixtera/utils/prefetch_iterator.py
@@ -10,14 +10,16 @@ class PrefetchFirstItemIterator(Iterator[T]):
         self.prefetch_event = Event()
         self.first_item_consumed = False
         self.first_item: T | None = None
+        self.prefetch_exception: BaseException | None = None
         self.prefetch_thread = Thread(target=self._prefetch)
         self.prefetch_thread.start()
 
     def _prefetch(self) -> None:
         try:
             self.first_item = next(self.iterator)
-        except StopIteration:
-            self.first_item = None
+        except BaseException as ex:  # pylint: disable=broad-exception-caught
+            # Includes StopIteration. Handed to the consumer, which would otherwise never learn about it.
+            self.prefetch_exception = ex
         finally:
             self.prefetch_event.set()
 
@@ -25,9 +27,9 @@ class PrefetchFirstItemIterator(Iterator[T]):
         if not self.first_item_consumed:
             self.prefetch_event.wait()
             self.first_item_consumed = True
-            if self.first_item is not None:
-                return self.first_item
+            if self.prefetch_exception is not None:
+                raise self.prefetch_exception
 
-            raise StopIteration()
+            return self.first_item  # type: ignore[return-value]
 
         return next(self.iterator)
-- 
2.43.0


From 551544ccf69e30ecd8ef7f0266c2b4a6ddd3b14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:21 +0000
Subject: [PATCH 26/53] fix: consumers of the threaded tokenization waited
 forever if reading or tokenizing failed

---
 mixtera/utils/tokenizing_iterator.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mixtera/utils/tokenizing_iterator.py b/mixtera/utils/tokenizing_iterator.py
index 5ff8a71..baad225 100644
--- a/mixtera/utils/tokenizing_iterator.py
+++ b/mixtera/utils/tokenizing_iterator.py
@@ -129,6 +129,7 @@ class ThreadedTokenizingIterator:
         self.eos = False
         self.yielded_samples = 0
 
+        self.exception: BaseException | None = None
         self.lock = threading.Lock()
         self.condition = threading.Condition(self.lock)
         self.background_thread = threading.Thread(target=self.prefetch_loop)
@@ -138,6 +139,16 @@ class ThreadedTokenizingIterator:
         return self
 
     def prefetch_loop(self) -> None:
+        try:
+            self._prefetch_all()
+        except BaseException as ex:  # pylint: disable=broad-exception-caught
+            # Handed to the consumer, which would otherwise wait for data forever.
+            with self.lock:
+                self.exception = ex
+                self.eos = True
+                self.condition.notify_all()
+
+    def _prefetch_all(self) -> None:
         while not self.eos:
             texts = []
             local_eos = False
@@ -187,6 +198,9 @@ class ThreadedTokenizingIterator:
                     return chunk
 
                 if self.eos:
+                    if self.exception is not None:
+                        raise self.exception
+
                     if self.yielded_samples == 0 and current_length > 0 and self.at_least_one_sample:
                         # Pad the remaining tokens to reach the desired length
                         needed_tokens = self.sequence_length + 1 - current_length
-- 
2.43.0


From 565df7dcd3017fddfefb4dea5adebcf9cc0e2f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:27 +0000
Subject: [PATCH 27/53] fix: a sample with the text END_OF_STREAM ended the
 stream of its parallel reader

---
 mixtera/core/query/result_chunk.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index 19f2704..fc042b9 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -34,7 +34,8 @@ Workloads = list[Workload]
 Sample = str | list[int]
 
 MULTIPROCESSING_TIMEOUT = 90
-END_OF_STREAM_OBJECT = "END_OF_STREAM"
+# Not a string, such that no sample can be mistaken for it
+END_OF_STREAM_OBJECT = ("END_OF_STREAM",)
 
 original_start = mp.Process.start
 
-- 
2.43.0


From c8fa4a2dc1e6c9bed9f65701dd4124097b00df54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:27 +0000
Subject: [PATCH 28/53] fix: samples of a crashed reader process were silently
 missing from the stream

---
 mixtera/core/query/result_chunk.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index fc042b9..dac041e 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -370,13 +370,15 @@ class ResultChunk:
                 try:
                     instance = queue.get(timeout=MULTIPROCESSING_TIMEOUT)
                 except Empty as exc:
-                    if not proc.is_alive():
-                        proc.join()
-                        processes_to_remove.append((queue, proc))
-                        continue
-                    raise RuntimeError(
-                        "Queue timeout reached but process is still alive. Something went wrong."
-                    ) from exc
+                    if proc.is_alive():
+                        raise RuntimeError(
+                            "Queue timeout reached but process is still alive. Something went wrong."
+                        ) from exc
+                    # The process might have finished right after our timeout, i.e., look for its last items.
+                    try:
+                        instance = queue.get(timeout=1)
+                    except Empty:
+                        raise RuntimeError("A reader process terminated before handing over all its samples.") from exc
                 if instance == END_OF_STREAM_OBJECT:
                     proc.join()
                     processes_to_remove.append((queue, proc))
-- 
2.43.0


From c2e5628b46ff080f397ee171e5901f93bebe2354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:27 +0000
Subject: [PATCH 29/53] fix: reader processes were left behind if a chunk was
 not read to its end

---
 mixtera/core/query/result_chunk.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index dac041e..0b51112 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -137,6 +137,7 @@ class ResultChunk:
         self._tokenization_overlap = True
 
         self._iterator: Iterator[tuple[int, int, Sample]] | None = None
+        self._reader_processes: list[mp.Process] = []
 
     def configure_result_streaming(self, client: "MixteraClient", args: "ResultStreamingArgs") -> None:
         """
@@ -265,14 +266,25 @@ class ResultChunk:
         Returns:
             An iterator over the samples
         """
+        self._reader_processes = []
         active_iterators: dict[MixtureKey, Iterator[Sample]] = self._init_active_iterators()
+        reader_processes, pid = self._reader_processes, os.getpid()
         if self._mixture_type in {"token", "window"}:
             yield_source = self._iterate_window_mixture(active_iterators)
         else:
             yield_source = self._iterate_overall_mixture(active_iterators)
 
-        for idx, (key_id, sample) in enumerate(islice(yield_source, self._samples_to_skip, None)):
-            yield idx + self._samples_to_skip, key_id, sample
+        try:
+            for idx, (key_id, sample) in enumerate(islice(yield_source, self._samples_to_skip, None)):
+                yield idx + self._samples_to_skip, key_id, sample
+        finally:
+            # We might stop before all samples have been read (e.g., strict windows, consumer does not need more).
+            # Readers with samples left never exit by themselves, and would block the exit of our process.
+            if pid == os.getpid():
+                for proc in reader_processes:
+                    if proc.is_alive():
+                        proc.terminate()
+                    proc.join()
 
     def _init_active_iterators(self) -> dict[MixtureKey, Iterator[Sample]]:
         """
@@ -294,6 +306,8 @@ class ResultChunk:
                 workloads, process_counts
             )
 
+            self._reader_processes = [proc for readers in processes.values() for _, proc in readers]
+
             active_iterators = {
                 property_name: self._get_iterator_for_workload_mt(process)
                 for property_name, process in processes.items()
-- 
2.43.0


From 1731fed43edad5f033d535c071b0abe28f448e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:58 +0000
Subject: [PATCH 30/53] fix: messages cut off by a closed connection were
 received as None, e.g., as the regular end of the data

---
 mixtera/network/network_utils.py | 37 ++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/mixtera/network/network_utils.py b/mixtera/network/network_utils.py
index 869a749..e451091 100644
--- a/mixtera/network/network_utils.py
+++ b/mixtera/network/network_utils.py
@@ -48,6 +48,16 @@ async def read_bytes(num_bytes: int, reader: asyncio.StreamReader, timeout: floa
     return buffer
 
 
+async def _read_payload(num_bytes: int, reader: asyncio.StreamReader, timeout: float = 10.0) -> bytearray:
+    """
+    Reads the payload that follows a size header. In contrast to `read_bytes`, a connection that is closed before the
+    first byte is an error, since we are in the middle of a message.
+    """
+    if (data := await read_bytes(num_bytes, reader, timeout=timeout)) is None:
+        raise ConnectionError(f"Connection closed while we still have {num_bytes} bytes to read.")
+    return data
+
+
 async def write_bytes_obj(
     data: bytes | None, size_bytes: int, writer: asyncio.StreamWriter, drain: bool = True
 ) -> None:
@@ -93,21 +103,21 @@ async def read_bytes_obj(size_bytes: int, reader: asyncio.StreamReader, timeout:
         reader (asyncio.StreamReader): The stream reader to read the data from.
 
     Returns:
-        bytes | None: The read bytes object, or None if the size header indicated zero length
-                      or if an error occurred during reading.
+        bytes | None: The read bytes object, or None if the size header indicated zero length.
 
     Raises:
+        ConnectionError: If the connection is closed before the whole object (or None) has been received.
         asyncio.TimeoutError: If a timeout occurs while reading (inherited from read_int and read_bytes).
 
     Note:
         The size header is expected to be in big-endian format.
     """
 
-    if (obj_size := await read_int(size_bytes, reader, timeout=timeout)) is not None:
-        if obj_size == 0:
-            return None
-        return await read_bytes(obj_size, reader, timeout=timeout)
-    return None
+    if (obj_size := await read_int(size_bytes, reader, timeout=timeout)) is None:
+        raise ConnectionError("Connection closed before an object was received.")
+    if obj_size == 0:
+        return None
+    return await _read_payload(obj_size, reader, timeout=timeout)
 
 
 async def read_int(num_bytes: int, reader: asyncio.StreamReader, timeout: float = 10.0) -> Optional[int]:
@@ -156,8 +166,7 @@ async def read_utf8_string(size_bytes: int, reader: asyncio.StreamReader, timeou
         asyncio.TimeoutError: If the timeout is exceeded before `num_bytes` could be read.
     """
     if (string_size := await read_int(size_bytes, reader, timeout=timeout)) is not None:
-        if (string_data := await read_bytes(string_size, reader, timeout=timeout)) is not None:
-            return string_data.decode("utf-8")
+        return (await _read_payload(string_size, reader, timeout=timeout)).decode("utf-8")
     return None
 
 
@@ -203,14 +212,14 @@ async def read_pickeled_object(size_bytes: int, reader: asyncio.StreamReader) ->
         size_bytes (int): The size of the header in bytes.
         reader (asyncio.StreamReader): The stream reader from which to read.
     Returns:
-        Optional[str]: The read string. None, if error occurs.
+        Any: The object.
     Raises:
+        ConnectionError: If the connection is closed before the whole object has been received.
         asyncio.TimeoutError: If the timeout is exceeded before `num_bytes` could be read.
     """
-    if (obj_size := await read_int(size_bytes, reader)) is not None:
-        if (obj_data := await read_bytes(obj_size, reader)) is not None:
-            return dill.loads(obj_data)
-    return None
+    if (obj_size := await read_int(size_bytes, reader)) is None:
+        raise ConnectionError("Connection closed before an object was received.")
+    return dill.loads(await _read_payload(obj_size, reader))
 
 
 async def write_float(data: float, writer: asyncio.StreamWriter, drain: bool = True) -> None:
-- 
2.43.0


From ec3be57d6a3996cf3ce6c49347ecc2c400e31fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:58 +0000
Subject: [PATCH 31/53] fix: errors during a request led to a pointless
 reconnect and a misleading error about the connection generator

---
 mixtera/network/connection/server_connection.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/mixtera/network/connection/server_connection.py b/mixtera/network/connection/server_connection.py
index 27d1435..bdc683a 100644
--- a/mixtera/network/connection/server_connection.py
+++ b/mixtera/network/connection/server_connection.py
@@ -102,10 +102,9 @@ class ServerConnection:
             A tuple containing the StreamReader and StreamWriter objects if the connection is successful,
             or (None, None) if the connection ultimately fails after the maximum number of retries.
         """
-        yielded = False
         reader = writer = None
+        attempts = -1
         try:
-            attempts = -1
             async for attempt in AsyncRetrying(
                 stop=stop_after_attempt(max_retries),
                 wait=wait_random_exponential(multiplier=1, min=2, max=60),
@@ -120,13 +119,14 @@ class ServerConnection:
                         raise RuntimeError("reader or writer are None.")
 
                     writer.get_extra_info("socket").setsockopt(socket.SOL_SOCKET, socket.SO_KEEPALIVE, 1)
-                    yield reader, writer
-                    yielded = True
 
         except Exception as e:  # pylint: disable=broad-exception-caught
             logger.error(f"[attempts = {attempts}] Error while connecting to server: {e}")
-            yield None, None
-            yielded = True
+            reader = writer = None
+
+        # Only connecting is retried. Errors while communicating are for the caller.
+        try:
+            yield reader, writer
         finally:
             if writer is not None:
                 try:
@@ -135,9 +135,6 @@ class ServerConnection:
                 except Exception as e:  # pylint: disable=broad-exception-caught
                     logger.error(f"Error closing connection: {e}")
 
-        if not yielded:
-            yield None, None
-
     async def _execute_query(self, query: "Query", args: "QueryExecutionArgs") -> bool:
         """
         Asynchronously executes a query on the server and receives a confirmation of success.
-- 
2.43.0


From 219dfdc16469ee52c20d50f067d1325be13b73e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:54 +0000
Subject: [PATCH 32/53] fix: metadata parsers defined within an indented block
 could not be registered at a server

---
 mixtera/network/connection/server_connection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mixtera/network/connection/server_connection.py b/mixtera/network/connection/server_connection.py
index bdc683a..2e1850a 100644
--- a/mixtera/network/connection/server_connection.py
+++ b/mixtera/network/connection/server_connection.py
@@ -1,6 +1,7 @@
 import asyncio
 import inspect
 import socket
+import textwrap
 from contextlib import asynccontextmanager
 from typing import TYPE_CHECKING, Any, AsyncGenerator, Callable, Generator, Iterable, Optional, Type
 
@@ -389,7 +390,8 @@ class ServerConnection:
             await write_utf8_string(identifier, NUM_BYTES_FOR_IDENTIFIERS, writer)
 
             # Announce metadata parser class
-            await write_utf8_string(inspect.getsource(parser), NUM_BYTES_FOR_SIZES, writer)
+            # (the class may be defined within an indented block)
+            await write_utf8_string(textwrap.dedent(inspect.getsource(parser)), NUM_BYTES_FOR_SIZES, writer)
 
             return bool(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader))
 
-- 
2.43.0


From 26adb63de80ccc173abeff2ebc033377872e2a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:54 +0000
Subject: [PATCH 33/53] fix: the server confirmed feedback for jobs that do not
 exist

---
 mixtera/network/server/server.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index ddcecfc..b7a1abb 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -431,9 +431,8 @@ class MixteraServer:
         feedback.losses = await read_numpy_array(NUM_BYTES_FOR_IDENTIFIERS, NUM_BYTES_FOR_SIZES, reader)
         feedback.counts = await read_numpy_array(NUM_BYTES_FOR_IDENTIFIERS, NUM_BYTES_FOR_SIZES, reader)
 
-        self._local_stub.process_feedback(job_id, feedback)
+        success = self._local_stub.process_feedback(job_id, feedback)
 
-        success = True
         await write_int(int(success), NUM_BYTES_FOR_IDENTIFIERS, writer)
 
     async def _dispatch_client(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
-- 
2.43.0


From 85f7f1c693cbb90a1d702e24ce53f101b7166d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:33 +0000
Subject: [PATCH 34/53] fix: repeating the execution of a job at a server
 changed the reported state of the existing job

---
 mixtera/network/server/server.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index b7a1abb..2e43d73 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -5,6 +5,7 @@ import sys
 import traceback
 import typing
 import uuid
+from collections import Counter
 from pathlib import Path
 
 from loguru import logger
@@ -57,6 +58,8 @@ class MixteraServer:
         self._register_query_lock = asyncio.Lock()
         self._dataset_registration: dict[str, bool] = {}
         self._query_registration: dict[str, bool] = {}
+        # How many executions and restorations of each job have been accepted, but did not finish yet
+        self._pending_jobs: Counter[str] = Counter()
 
     async def _register_query(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
         """
@@ -85,7 +88,15 @@ class MixteraServer:
         )
 
         query: Query = await read_pickeled_object(NUM_BYTES_FOR_SIZES, reader)
+        if self._pending_jobs[query.job_id] > 0 or query.job_id in self._local_stub._training_query_map:
+            # The state of the existing job is not affected. The missing job id tells the client that we did not start.
+            logger.warning(f"We already have a query for job {query.job_id}!")
+            await write_utf8_string("", NUM_BYTES_FOR_IDENTIFIERS, writer)
+            return
+
         logger.debug(f"Received query = {str(query)}. Launching execution task.")
+        self._query_registration.pop(query.job_id, None)  # There might be a previous failed execution.
+        self._pending_jobs[query.job_id] += 1
         asyncio.create_task(self._background_register_query(query, args))
         await write_utf8_string(query.job_id, NUM_BYTES_FOR_IDENTIFIERS, writer)
 
@@ -100,6 +111,8 @@ class MixteraServer:
             except Exception:  # pylint: disable=broad-exception-caught
                 logger.error(f"Background query registration failed: {traceback.format_exc()}")
                 self._query_registration[query.job_id] = False
+            finally:
+                self._pending_jobs[query.job_id] -= 1
 
     async def _read_file(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
         """
@@ -390,6 +403,7 @@ class MixteraServer:
         chkpnt_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
 
         self._query_registration.pop(job_id, None)  # Otherwise, we immediately return True.
+        self._pending_jobs[job_id] += 1
 
         asyncio.create_task(self._background_restore_checkpoint(job_id, chkpnt_id))
         await write_utf8_string(job_id, NUM_BYTES_FOR_IDENTIFIERS, writer)
@@ -407,6 +421,8 @@ class MixteraServer:
             except Exception:  # pylint: disable=broad-exception-caught
                 logger.error(f"Background checkpoint restoration failed: {traceback.format_exc()}")
                 self._query_registration[job_id] = False
+            finally:
+                self._pending_jobs[job_id] -= 1
 
     async def _check_query_registration(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
         """
@@ -415,7 +431,9 @@ class MixteraServer:
         """
         job_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
         success = self._query_registration.get(job_id, None)
-        if success is True:
+        if self._pending_jobs[job_id] > 0:
+            status = 0
+        elif success is True:
             status = 1
         elif success is False and job_id in self._query_registration:
             status = 2
-- 
2.43.0


From 817051eeded469ea5512bfbe02ae795d46071958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:41 +0000
Subject: [PATCH 35/53] fix: requests cut off by a disappearing client were
 executed with missing values

---
 mixtera/network/server/server.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index 2e43d73..5bbb5f6 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -35,6 +35,21 @@ from mixtera.network.network_utils import (
 from mixtera.network.server_task import ServerTask
 
 
+class _RequestReader:
+    """
+    Reads the remainder of a request. A client that disappears in the middle of its request must not lead to the
+    request being executed with missing values.
+    """
+
+    def __init__(self, reader: asyncio.StreamReader) -> None:
+        self._reader = reader
+
+    async def read(self, n: int = -1) -> bytes:
+        if len(data := await self._reader.read(n)) == 0 and n != 0:
+            raise ConnectionError("Client closed the connection within its request.")
+        return data
+
+
 class MixteraServer:
     def __init__(self, directory: Path, host: str, port: int):
         """
@@ -471,6 +486,7 @@ class MixteraServer:
                 return
 
             task = ServerTask(task_int)
+            reader = typing.cast(asyncio.StreamReader, _RequestReader(reader))
             if task == ServerTask.REGISTER_QUERY:
                 await self._register_query(reader, writer)
             elif task == ServerTask.QUERY_EXEC_STATUS:
-- 
2.43.0


From 74f4ff036fccab17389ea15968b7081206aa2e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:50 +0000
Subject: [PATCH 36/53] fix: requesting data of a job that does not exist (yet)
 blocked the server for all clients

---
 mixtera/network/server/server.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index 5bbb5f6..3164628 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -160,9 +160,12 @@ class MixteraServer:
         node_id = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
         worker_id = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
 
-        async with self._chunk_distributor_map_lock:
-            if job_id not in self._chunk_distributor_map:
-                self._chunk_distributor_map[job_id] = self._local_stub._get_query_chunk_distributor(job_id)
+        if job_id not in self._chunk_distributor_map:
+            # This waits for jobs that do not exist (yet), other clients must not wait for them
+            distributor = await asyncio.to_thread(self._local_stub._get_query_chunk_distributor, job_id)
+            async with self._chunk_distributor_map_lock:
+                # Might have been set by a concurrent request or by restoring a checkpoint in the meantime
+                self._chunk_distributor_map.setdefault(job_id, distributor)
 
         next_chunk = None
         try:
@@ -181,7 +184,10 @@ class MixteraServer:
             writer (asyncio.StreamWriter): The stream writer to write data to the client.
         """
         job_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        dataset_dict, parsing_dict, file_path_dict = self._local_stub._get_result_metadata(job_id)
+        # This waits for jobs that do not exist (yet), other clients must not wait for them
+        dataset_dict, parsing_dict, file_path_dict = await asyncio.to_thread(
+            self._local_stub._get_result_metadata, job_id
+        )
 
         meta = {
             "dataset_type": dataset_dict,
-- 
2.43.0


From e6732cd0c397c46429f39773e97a3ce9e90821ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:19 +0000
Subject: [PATCH 37/53] fix: failing connections were reported as the end of
 the data, as empty files and dataset lists, or as a restored checkpoint

---
 .../network/connection/server_connection.py   | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/mixtera/network/connection/server_connection.py b/mixtera/network/connection/server_connection.py
index 2e1850a..3af7d39 100644
--- a/mixtera/network/connection/server_connection.py
+++ b/mixtera/network/connection/server_connection.py
@@ -61,7 +61,7 @@ class ServerConnection:
             file_path (str): The path of the file to be fetched from the server.
 
         Returns:
-            The content of the file as a string, or None if the connection fails.
+            The content of the file as a string, or None if the server cannot provide it or the connection fails.
         """
         async with self._connect_to_server() as (reader, writer):
             if reader is None or writer is None:
@@ -81,10 +81,12 @@ class ServerConnection:
 
         Yields:
             The lines of the file as an iterable, line by line.
-            An empty iterator if the connection fails.
+
+        Raises:
+            ConnectionError: If the server cannot provide the file or the connection fails.
         """
         if (lines := run_async_until_complete(self._fetch_file(file_path))) is None:
-            return
+            raise ConnectionError(f"Could not fetch file {file_path} from the server.")
 
         yield from lines.split("\n")
 
@@ -220,13 +222,15 @@ class ServerConnection:
             job_id (str): The identifier of the job for which the next result chunk is requested.
 
         Returns:
-            An ResultChunk object representing the next result chunk,
-            or None if there are no more results or the connection fails.
+            An ResultChunk object representing the next result chunk, or None if there are no more results.
+
+        Raises:
+            ConnectionError: If the connection fails.
         """
         async with self._connect_to_server() as (reader, writer):
 
             if reader is None or writer is None:
-                return None
+                raise ConnectionError("Could not connect to the server to get the next result chunk.")
 
             # Announce we want to get a result chunk
             await write_int(int(ServerTask.GET_NEXT_RESULT_CHUNK), NUM_BYTES_FOR_IDENTIFIERS, writer)
@@ -420,7 +424,7 @@ class ServerConnection:
         async with self._connect_to_server() as (reader, writer):
 
             if reader is None or writer is None:
-                return False
+                raise ConnectionError("Could not connect to the server to check for the dataset.")
 
             # Announce we want to check if a dataset exists
             await write_int(int(ServerTask.CHECK_DATASET_EXISTS), NUM_BYTES_FOR_IDENTIFIERS, writer)
@@ -428,7 +432,10 @@ class ServerConnection:
             # Announce dataset identifier
             await write_utf8_string(identifier, NUM_BYTES_FOR_IDENTIFIERS, writer)
 
-            return bool(await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader))
+            if (exists := await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)) is None:
+                raise ConnectionError(f"The server did not answer whether dataset {identifier} exists.")
+
+            return bool(exists)
 
     def list_datasets(self) -> list[str]:
         """
@@ -449,7 +456,7 @@ class ServerConnection:
         async with self._connect_to_server() as (reader, writer):
 
             if reader is None or writer is None:
-                return []
+                raise ConnectionError("Could not connect to the server to list the datasets.")
 
             # Announce we want to list datasets
             await write_int(int(ServerTask.LIST_DATASETS), NUM_BYTES_FOR_IDENTIFIERS, writer)
@@ -665,7 +672,7 @@ class ServerConnection:
     async def _restore_checkpoint(self, job_id: str, chkpnt_id: str) -> None:
         async with self._connect_to_server() as (reader, writer):
             if reader is None or writer is None:
-                return
+                raise ConnectionError("Could not connect to the server to restore the checkpoint.")
 
             # Announce we want to restore a checkpoint
             await write_int(int(ServerTask.RESTORE_CHECKPOINT), NUM_BYTES_FOR_IDENTIFIERS, writer)
@@ -677,9 +684,9 @@ class ServerConnection:
             server_job_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
 
             if job_id != server_job_id:
-                logger.error(f"Instead of {job_id}, server returned {server_job_id}...")
-            else:
-                logger.info("Successfully initiated checkpoint restore at server.")
+                raise RuntimeError(f"Instead of {job_id}, server returned {server_job_id}...")
+
+            logger.info("Successfully initiated checkpoint restore at server.")
 
     def receive_feedback(self, job_id: str, feedback: ClientFeedback) -> bool:
         return run_async_until_complete(self._receive_feedback(job_id, feedback))
-- 
2.43.0


From b69a9c367ff4eac278f7afc7482853b771b686f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:00 +0000
Subject: [PATCH 38/53] fix: a mixture kept its old number of rows when a
 schedule or dynamic mixture adjusted its chunk size

---
 mixtera/core/query/mixture/dynamic_mixture.py   |  3 +++
 mixtera/core/query/mixture/inferring_mixture.py |  9 ++++++++-
 mixtera/core/query/mixture/mixture.py           | 15 ++++++++++++++-
 mixtera/core/query/mixture/mixture_schedule.py  |  4 ++++
 mixtera/core/query/mixture/static_mixture.py    |  7 +++++--
 5 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/mixtera/core/query/mixture/dynamic_mixture.py b/mixtera/core/query/mixture/dynamic_mixture.py
index cc9db86..1683533 100644
--- a/mixtera/core/query/mixture/dynamic_mixture.py
+++ b/mixtera/core/query/mixture/dynamic_mixture.py
@@ -53,6 +53,9 @@ class DynamicMixture(Mixture):
             }
         )
 
+    def _chunk_size_changed(self) -> None:
+        self._current_mixture.chunk_size = self.chunk_size
+
     def mixture_in_rows(self) -> dict[MixtureKey, int]:
         return self._current_mixture.mixture_in_rows()
 
diff --git a/mixtera/core/query/mixture/inferring_mixture.py b/mixtera/core/query/mixture/inferring_mixture.py
index 6d9f3c8..5694210 100644
--- a/mixtera/core/query/mixture/inferring_mixture.py
+++ b/mixtera/core/query/mixture/inferring_mixture.py
@@ -21,6 +21,11 @@ class InferringMixture(Mixture):
     def __init__(self, chunk_size: int, strict: bool = True) -> None:
         super().__init__(chunk_size, strict=strict)
         self._mixture: dict[MixtureKey, int] = {}
+        self._weights: dict[MixtureKey, float] = {}
+
+    def _chunk_size_changed(self) -> None:
+        if self._weights:
+            self._mixture = StaticMixture.parse_user_mixture(self.chunk_size, self._weights)
 
     def mixture_in_rows(self) -> dict[MixtureKey, int]:
         return self._mixture
@@ -40,11 +45,13 @@ class InferringMixture(Mixture):
             ), f"Inconsistent state: total = 0, inferred_mixture_dict = {inferred_mixture_dict}"
             logger.warning("Cannot infer mixture since chunker index is empty.")
             self._mixture = {}
+            self._weights = {}
             return
 
         assert (
             total > 0 and len(inferred_mixture_dict.keys()) > 0
         ), f"Inconsistent state: total = {total}, inferred_mixture_dict={inferred_mixture_dict}"
 
-        self._mixture = StaticMixture.parse_user_mixture(self.chunk_size, inferred_mixture_dict)
+        self._weights = inferred_mixture_dict
+        self._mixture = StaticMixture.parse_user_mixture(self.chunk_size, self._weights)
         logger.info("Mixture inferred.")
diff --git a/mixtera/core/query/mixture/mixture.py b/mixtera/core/query/mixture/mixture.py
index 84caef4..658e917 100644
--- a/mixtera/core/query/mixture/mixture.py
+++ b/mixtera/core/query/mixture/mixture.py
@@ -21,10 +21,23 @@ class Mixture(ABC):
             chunk_size: the size of a chunk in number of instances
             strict: best_effort mode if False, strict mode if True
         """
-        self.chunk_size = chunk_size
+        self._chunk_size = chunk_size
         self.current_step = 0
         self.strict = strict
 
+    @property
+    def chunk_size(self) -> int:
+        """The size of a chunk in number of instances"""
+        return self._chunk_size
+
+    @chunk_size.setter
+    def chunk_size(self, chunk_size: int) -> None:
+        self._chunk_size = chunk_size
+        self._chunk_size_changed()
+
+    def _chunk_size_changed(self) -> None:
+        """Called when an enclosing mixture adjusts the chunk size, such that the number of rows can follow."""
+
     def __str__(self) -> str:
         """String representation of this mixture object."""
         return f'{{"mixture": "base_mixture", "chunk_size": {self.chunk_size}, "strict": {self.strict}}}'
diff --git a/mixtera/core/query/mixture/mixture_schedule.py b/mixtera/core/query/mixture/mixture_schedule.py
index b8f3a0f..e609bd2 100644
--- a/mixtera/core/query/mixture/mixture_schedule.py
+++ b/mixtera/core/query/mixture/mixture_schedule.py
@@ -43,6 +43,10 @@ class MixtureSchedule(Mixture):
         self.schedule = sorted(schedule, key=lambda entry: entry.start_step)
         self.current_step = 0
 
+    def _chunk_size_changed(self) -> None:
+        for entry in self.schedule:
+            entry.mixture.chunk_size = self.chunk_size
+
     def mixture_in_rows(self) -> dict[MixtureKey, int]:
         """
         Returns the mixture dictionary for the current training step.
diff --git a/mixtera/core/query/mixture/static_mixture.py b/mixtera/core/query/mixture/static_mixture.py
index 0eadf6d..2306b65 100644
--- a/mixtera/core/query/mixture/static_mixture.py
+++ b/mixtera/core/query/mixture/static_mixture.py
@@ -33,9 +33,12 @@ class StaticMixture(Mixture):
             raise ValueError(f"Your mixture sums up to {total_weight} != 1.0")
 
         # Renormalize to reduce deviance from 1.0 further
-        mixture = {key: val / total_weight for key, val in mixture.items()}
+        self._weights = {key: val / total_weight for key, val in mixture.items()}
 
-        self._mixture = StaticMixture.parse_user_mixture(chunk_size, mixture)
+        self._mixture = StaticMixture.parse_user_mixture(chunk_size, self._weights)
+
+    def _chunk_size_changed(self) -> None:
+        self._mixture = StaticMixture.parse_user_mixture(self.chunk_size, self._weights)
 
     @staticmethod
     def parse_user_mixture(chunk_size: int, user_mixture: dict[MixtureKey, float]) -> dict[MixtureKey, int]:
-- 
2.43.0


From e38adb154e6824ff2b2b5d63d4995fe516f6d4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:44 +0000
Subject: [PATCH 39/53] fix: hierarchical mixtures did not reject invalid
 weights, gave all rounding differences to one component, and lost repeated
 components

---
 .../mixture/hierarchical_static_mixture.py    | 43 ++++---------------
 1 file changed, 8 insertions(+), 35 deletions(-)

diff --git a/mixtera/core/query/mixture/hierarchical_static_mixture.py b/mixtera/core/query/mixture/hierarchical_static_mixture.py
index 0cb51df..3ce6ac6 100644
--- a/mixtera/core/query/mixture/hierarchical_static_mixture.py
+++ b/mixtera/core/query/mixture/hierarchical_static_mixture.py
@@ -1,11 +1,8 @@
 from dataclasses import dataclass
-from typing import TYPE_CHECKING, List
+from typing import List
 
-from mixtera.core.query.mixture.mixture import Mixture
 from mixtera.core.query.mixture.mixture_key import MixtureKey
-
-if TYPE_CHECKING:
-    from mixtera.core.datacollection.index import ChunkerIndex
+from mixtera.core.query.mixture.static_mixture import StaticMixture
 
 
 @dataclass
@@ -21,7 +18,7 @@ class Component:
     submixture: None | MixtureNode = None
 
 
-class HierarchicalStaticMixture(Mixture):
+class HierarchicalStaticMixture(StaticMixture):
     """Mixture class that simply stores a predefined mixture.
     Different from StaticMixture it receives the mixture combinations in a hierarchical manner."""
 
@@ -35,41 +32,17 @@ class HierarchicalStaticMixture(Mixture):
             ex: HierarchicalMixture(property_name="topic", components=[Component(value="law", weight=0.5),
             Component(values=["medicine"], weight=0.5)])
         """
-        super().__init__(chunk_size, strict=strict)
-        self._mixture = self.parse_mixture_node(chunk_size, mixture)
-
-    def __str__(self) -> str:
-        """String representation of this mixture object."""
-        return f'{{"mixture": {self._mixture}, "chunk_size": {self.chunk_size}, "strict": {self.strict}}}'
-
-    def parse_mixture_node(self, chunk_size: int, user_mixture: MixtureNode) -> dict[MixtureKey, int]:
-        formatted_user_mixture = self.convert_to_mixture_key_format(user_mixture)
-        for key, val in formatted_user_mixture.items():
-            assert val >= 0, "Mixture values must be non-negative."
-            assert isinstance(key, MixtureKey), "Mixture keys must be of type MixtureKey."
-
-        mixture = {key: int(chunk_size * val) for key, val in formatted_user_mixture.items()}
-
-        # Ensure approximation errors do not affect final chunk size
-        if (diff := chunk_size - sum(mixture.values())) > 0:
-            mixture[list(mixture.keys())[0]] += diff
-
-        return mixture
+        super().__init__(chunk_size, self.convert_to_mixture_key_format(mixture), strict=strict)
 
     def convert_to_mixture_key_format(self, mixture: MixtureNode) -> dict[MixtureKey, float]:
-        mixture_keys = {}
+        mixture_keys: dict[MixtureKey, float] = {}
         for component in mixture.components:
             if component.submixture is not None:
                 result = self.convert_to_mixture_key_format(component.submixture)
                 for key, value in result.items():
                     key.add_property(mixture.property_name, component.values)
-                    mixture_keys[key] = value * component.weight
+                    mixture_keys[key] = mixture_keys.get(key, 0) + value * component.weight
             else:
-                mixture_keys[MixtureKey({mixture.property_name: component.values})] = component.weight
+                key = MixtureKey({mixture.property_name: component.values})
+                mixture_keys[key] = mixture_keys.get(key, 0) + component.weight
         return mixture_keys
-
-    def mixture_in_rows(self) -> dict[MixtureKey, int]:
-        return self._mixture
-
-    def process_index(self, chunker_index: "ChunkerIndex") -> None:
-        del chunker_index
-- 
2.43.0


From c78484df539dbed135441ad3fbb5e3851b93527a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:12 +0000
Subject: [PATCH 40/53] fix: mixture keys with numbers were unusable, hashing
 reordered the user's lists, and repeated values made a different key

---
 mixtera/core/query/mixture/mixture_key.py | 10 +++++-----
 mixtera/utils/utils.py                    | 16 +++++++---------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/mixtera/core/query/mixture/mixture_key.py b/mixtera/core/query/mixture/mixture_key.py
index 9fc72a1..772804f 100644
--- a/mixtera/core/query/mixture/mixture_key.py
+++ b/mixtera/core/query/mixture/mixture_key.py
@@ -60,15 +60,15 @@ class MixtureKey:
                 return self_key < other_key
 
             # Property names are the same, compare number of values
-            len_self_values = len(self.properties[self_key])
-            len_other_values = len(other.properties[other_key])
+            len_self_values = len(set(self.properties[self_key]))
+            len_other_values = len(set(other.properties[other_key]))
             if len_self_values != len_other_values:
                 return len_self_values < len_other_values
 
         # Compare property values lexicographically
         for key in self_keys:
-            self_values = sorted(map(str, self.properties[key]))
-            other_values = sorted(map(str, other.properties[key]))
+            self_values = sorted(set(map(str, self.properties[key])))
+            other_values = sorted(set(map(str, other.properties[key])))
             if self_values != other_values:
                 return self_values < other_values
 
@@ -82,7 +82,7 @@ class MixtureKey:
 
     def __str__(self) -> str:
         #  We sort the properties to ensure that the string representation is deterministic
-        return ";".join([f'{k}:{":".join([str(x) for x in sorted(v)])}' for k, v in sorted(self.properties.items())])
+        return ";".join([f'{k}:{":".join(sorted({str(x) for x in v}))}' for k, v in sorted(self.properties.items())])
 
     def __repr__(self) -> str:
         return str(self)
diff --git a/mixtera/utils/utils.py b/mixtera/utils/utils.py
index c8f258c..de9477d 100644
--- a/mixtera/utils/utils.py
+++ b/mixtera/utils/utils.py
@@ -100,10 +100,8 @@ def hash_list(string_list: list[str]) -> int:
         An integer hash value.
     """
     # Sort the list of strings to ensure deterministic hashing
-    string_list.sort()
-
-    # Concatenate the strings using a separator unlikely to occur in the strings
-    concatenated_string = "\0".join(string_list)
+    # (without touching the caller's list)
+    concatenated_string = "\0".join(sorted(string_list))
 
     # Compute the hash using xxhash
     hash_result = xxhash.xxh64_intdigest(concatenated_string.encode("utf-8"))
@@ -111,9 +109,10 @@ def hash_list(string_list: list[str]) -> int:
     return hash_result
 
 
-def hash_dict(d: dict[str, list[str]]) -> int:
+def hash_dict(d: dict[str, list[str | int | float]]) -> int:
     """
-    Generate a hash from a dictionary with string keys and list of strings as values using xxhash.
+    Generate a hash from a dictionary with string keys and list of values using xxhash.
+    Neither the order nor repetitions of the values matter.
 
     Args:
         d: A dictionary to be hashed.
@@ -125,9 +124,8 @@ def hash_dict(d: dict[str, list[str]]) -> int:
 
     # Process each key in sorted order for deterministic hashing
     for key in sorted(d.keys()):
-        # Get and sort the list of strings associated with the key
-        value_list = d[key]
-        value_list.sort()
+        # Get and sort the distinct values associated with the key (without touching the caller's list)
+        value_list = sorted({str(value) for value in d[key]})
 
         # Concatenate the sorted list of strings with a separator
         concatenated_values = "\0".join(value_list)
-- 
2.43.0


From 31e1956a25aa706943a298be867e253b1cb9cb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:22 +0000
Subject: [PATCH 41/53] fix: later entries of a mixture schedule never learned
 about the data, the ids and the losses (inferring entries became arbitrary,
 dynamic ones never changed)

---
 .../core/query/mixture/mixture_schedule.py    | 42 ++++++++++++++++++-
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/query/mixture/mixture_schedule.py b/mixtera/core/query/mixture/mixture_schedule.py
index e609bd2..8bf362c 100644
--- a/mixtera/core/query/mixture/mixture_schedule.py
+++ b/mixtera/core/query/mixture/mixture_schedule.py
@@ -1,6 +1,7 @@
 from dataclasses import dataclass
 from typing import TYPE_CHECKING
 
+import numpy as np
 from loguru import logger
 
 from mixtera.core.query.mixture import Mixture, MixtureKey
@@ -29,6 +30,7 @@ class MixtureSchedule(Mixture):
             schedule: A list of ScheduleEntry indicating the mixture to use at each training step.
         """
         super().__init__(chunk_size)
+        self._key_id_map: dict[MixtureKey, int] | None = None
         if len(schedule) == 0:
             raise RuntimeError("An empty schedule is tried to be set.")
 
@@ -58,12 +60,48 @@ class MixtureSchedule(Mixture):
 
     def process_index(self, chunker_index: "ChunkerIndex") -> None:
         """
-        Inform the current mixture about the overall chunker index.
+        Inform the mixtures about the overall chunker index.
 
         Args:
             chunker_index: The chunker index.
         """
-        self.current_mixture.process_index(chunker_index)
+        # Not only the current one, since we are not called again when the next entry starts
+        for entry in self.schedule:
+            entry.mixture.process_index(chunker_index)
+
+    def process_id_map(self, key_id_map: dict[MixtureKey, int]) -> None:
+        """
+        Inform the current mixture about the ids of the keys.
+        The keys of later entries might not have an id yet, these entries are informed when they are needed.
+
+        Args:
+            key_id_map: The global map from keys to ids.
+        """
+        self._key_id_map = key_id_map
+        self._forward_id_map()
+
+    def _forward_id_map(self) -> bool:
+        """Forwards the id map to the current mixture, if it has all its keys. Returns whether it does."""
+        key_id_map, mixture = self._key_id_map, self.current_mixture
+        if key_id_map is None or not all(key in key_id_map for key in mixture.mixture_in_rows()):
+            return False
+
+        mixture.process_id_map(key_id_map)
+        return True
+
+    def _update_training_step(self, training_steps: int) -> None:
+        super()._update_training_step(training_steps)
+        for entry in self.schedule:
+            entry.mixture._update_training_step(training_steps)
+
+    def _process_losses(self, losses: np.ndarray, counts: np.ndarray, mixture_id: int) -> None:
+        # If the current mixture has keys without an id, it has not been used for any chunk yet.
+        if self._forward_id_map():
+            self.current_mixture._process_losses(losses, counts, mixture_id)
+
+    def write_logs(self) -> None:
+        for entry in self.schedule:
+            entry.mixture.write_logs()
 
     @property
     def current_mixture(self) -> Mixture:
-- 
2.43.0


From b194e13f7b6e5c10692b00937b3a6787468216d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:37 +0000
Subject: [PATCH 42/53] fix: mixture schedules treated best-effort entries as
 strict

---
 mixtera/core/query/mixture/mixture_schedule.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mixtera/core/query/mixture/mixture_schedule.py b/mixtera/core/query/mixture/mixture_schedule.py
index 8bf362c..3c44815 100644
--- a/mixtera/core/query/mixture/mixture_schedule.py
+++ b/mixtera/core/query/mixture/mixture_schedule.py
@@ -44,6 +44,7 @@ class MixtureSchedule(Mixture):
 
         self.schedule = sorted(schedule, key=lambda entry: entry.start_step)
         self.current_step = 0
+        self.strict = self.current_mixture.strict
 
     def _chunk_size_changed(self) -> None:
         for entry in self.schedule:
@@ -93,6 +94,7 @@ class MixtureSchedule(Mixture):
         super()._update_training_step(training_steps)
         for entry in self.schedule:
             entry.mixture._update_training_step(training_steps)
+        self.strict = self.current_mixture.strict
 
     def _process_losses(self, losses: np.ndarray, counts: np.ndarray, mixture_id: int) -> None:
         # If the current mixture has keys without an id, it has not been used for any chunk yet.
-- 
2.43.0


From a78ab6d04698cd669c9bcc11faec94d700092b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:12 +0000
Subject: [PATCH 43/53] fix: ADO failed on reports that do not mention all
 known domains and on domains that appear after the first fit

---
 mixtera/core/algo/ado/ado.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mixtera/core/algo/ado/ado.py b/mixtera/core/algo/ado/ado.py
index cb006d6..9921c81 100644
--- a/mixtera/core/algo/ado/ado.py
+++ b/mixtera/core/algo/ado/ado.py
@@ -594,9 +594,16 @@ class AdoDynamicMixing(DynamicMixingAlgorithm):
             counts: A numpy array of counts per domain.
         """
         # We first need to catch the number of internal domains, otherwise we will not trigger the following condition.
-        num_incoming_domains = len(losses)
         num_internal_domains = len(self.losses)
 
+        # A report might not cover all domains that have been reported before or that are part of the initial mixture
+        num_missing_domains = max(num_internal_domains, len(self.initial_mixture)) - len(losses)
+        if num_missing_domains > 0:
+            losses = np.concatenate([losses, np.zeros(num_missing_domains, dtype=losses.dtype)])
+            counts = np.concatenate([counts, np.zeros(num_missing_domains, dtype=counts.dtype)])
+
+        num_incoming_domains = len(losses)
+
         if self.log_counts is not None:
             self.log_counts.append(counts.tolist())
 
@@ -617,6 +624,9 @@ class AdoDynamicMixing(DynamicMixingAlgorithm):
                 self.pi_bar_t_minus_1 = np.concatenate(
                     [self.pi_bar_t_minus_1, np.zeros(size_diff, dtype=self.pi_bar_t_minus_1.dtype)]
                 )
+            if self.scaling_law_params is not None:
+                # Until the next fit, there is too little data for the new domains
+                self.scaling_law_params = np.concatenate([self.scaling_law_params, np.full((size_diff, 3), -1.0)])
 
         # Keep track of per-step counts and losses
         # Adjust the lengths if necessary
@@ -635,8 +645,6 @@ class AdoDynamicMixing(DynamicMixingAlgorithm):
         self.per_step_losses.append(per_step_losses)
 
         if self.use_same_step_size:
-            num_valid_domains: int = np.sum(self.counts > 0)
-            assert num_valid_domains > 0
             total_tokens = counts.sum()
             increment = np.zeros_like(counts, dtype=counts.dtype)
             increment[self.counts > 0] = int(total_tokens)
-- 
2.43.0


From 2a8d860ceb6cdc753345ba1b44dfe59beb3cfa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:04 +0000
Subject: [PATCH 44/53] fix: loading a partly consumed query result lost the
 feedback its dynamic mixture had received since the last change

---
 mixtera/core/query/query_result.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index a7b33a7..e83cc64 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -806,6 +806,9 @@ class QueryResult:
             query_result._query_log_dir.mkdir(exist_ok=True)
 
         if num_chunks_replay > 0 and replay:
+            current_mixture = query_result._mixture
             query_result.replay(num_chunks_replay)
+            # The current mixture might have been updated since the last chunk (then, it is not part of the log)
+            query_result._mixture = current_mixture
 
         return query_result
-- 
2.43.0


From 67c6ecf23b3592559458a36a3aeea40de8c41a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:14 +0000
Subject: [PATCH 45/53] fix: datasets with an enum option that contains a quote
 could not be registered

---
 mixtera/core/datacollection/mixtera_data_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index c7372be..91e0bc2 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -367,7 +367,7 @@ class MixteraDataCollection:
                     if result is None or result[0] == 0:
                         # It is important to sort here,
                         # otherwise across runs (e.g., in unit tests), we get inconsistent ordering.
-                        enum_values = "', '".join(sorted(prop.enum_options))
+                        enum_values = "', '".join(option.replace("'", "''") for option in sorted(prop.enum_options))
                         create_enum_query = f"CREATE TYPE {enum_type_name} AS ENUM ('{enum_values}');"
                         cur.execute(create_enum_query)
                     column_type = f"{enum_type_name}[]" if prop.multiple else enum_type_name
-- 
2.43.0


From c12fde582ffe8fe04c571116108393e50b362969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:14 +0000
Subject: [PATCH 46/53] fix: the ImageNet parser stored None as the class label
 of samples without a label

---
 mixtera/core/datacollection/index/parser/parser_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/datacollection/index/parser/parser_collection.py b/mixtera/core/datacollection/index/parser/parser_collection.py
index def585b..a5993ac 100644
--- a/mixtera/core/datacollection/index/parser/parser_collection.py
+++ b/mixtera/core/datacollection/index/parser/parser_collection.py
@@ -75,11 +75,11 @@ class ImagenetWebDatasetMetadataParser(MetadataParser):
         ]
 
     def parse(self, line_number: int, payload: Any, **kwargs: Optional[dict[Any, Any]]) -> None:
-        class_label = str(payload.get(".cls"))
+        class_label = payload.get(".cls")
         if class_label is None:
             raise RuntimeError("Property 'class_label' is not nullable and is missing.")
 
-        self.add_metadata(sample_id=line_number, class_label=class_label)
+        self.add_metadata(sample_id=line_number, class_label=str(class_label))
 
 
 class FineWebMetadataParser(MetadataParser):
-- 
2.43.0


From d5a443c741f9eafc55476aba07cbced50f16ff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:50 +0000
Subject: [PATCH 47/53] fix: the native chunk index corrupted domains whose
 values contain separators or are empty, lost intervals of domains listed in
 several orders

---
 .../core/query/chunker/include/chunker.hpp    |  9 ++-
 mixtera/core/query/chunker/src/chunker.cpp    | 78 ++++++++-----------
 2 files changed, 38 insertions(+), 49 deletions(-)

diff --git a/mixtera/core/query/chunker/include/chunker.hpp b/mixtera/core/query/chunker/include/chunker.hpp
index 735787e..5cf288a 100644
--- a/mixtera/core/query/chunker/include/chunker.hpp
+++ b/mixtera/core/query/chunker/include/chunker.hpp
@@ -9,6 +9,7 @@
 
 #include <string>
 #include <unordered_map>
+#include <utility>
 #include <vector>
 
 #include "absl/container/flat_hash_map.h"
@@ -50,7 +51,9 @@ template <typename T1, typename T2>
 using MapT = absl::flat_hash_map<T1, T2>;
 
 // TODO(#142): We should template this in the integer type.
-using MixtureKeyCpp = std::string;
+// Property names (in column order) with their sorted, distinct values. This is structured instead of a concatenated
+// string because both names and values can contain any character.
+using MixtureKeyCpp = std::vector<std::pair<std::string, std::vector<std::string>>>;
 using Interval = std::pair<int64_t, int64_t>;
 using FileIntervals = MapT<int64_t, std::vector<Interval>>;
 using DatasetFiles = MapT<int64_t, FileIntervals>;
@@ -64,11 +67,13 @@ std::vector<std::string> fetch_property_columns(const arrow::Table& table);
 std::vector<ChunkerIndexCpp> calc_thread_chunker_indices(py::object& py_table, uint32_t num_threads);
 ChunkerIndexCpp merge_chunker_indices(std::vector<ChunkerIndexCpp>* thread_chunker_indices);
 ChunkerIndexCpp merge_chunker_indices_impl(std::vector<ChunkerIndexCpp>* thread_chunker_indices);
-py::dict string_key_to_property_dict(const MixtureKeyCpp& key);
+py::dict key_to_property_dict(const MixtureKeyCpp& key);
 py::object build_py_chunker_index(ChunkerIndexCpp* merged_chunker_index);
 
 void merge_sorted_intervals_inplace(std::vector<Interval>& target_intervals, std::vector<Interval>& source_intervals);
 
+void sort_intervals(ChunkerIndexCpp& chunker_index);
+
 void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::vector<std::string>& property_columns,
                    ChunkerIndexCpp& local_chunker_index);
 
diff --git a/mixtera/core/query/chunker/src/chunker.cpp b/mixtera/core/query/chunker/src/chunker.cpp
index 9af4868..ca41fb3 100644
--- a/mixtera/core/query/chunker/src/chunker.cpp
+++ b/mixtera/core/query/chunker/src/chunker.cpp
@@ -10,6 +10,7 @@
 #include <pybind11/stl.h>
 #include <spdlog/spdlog.h>
 
+#include <algorithm>
 #include <indicators/block_progress_bar.hpp>
 #include <indicators/cursor_control.hpp>
 #include <indicators/progress_bar.hpp>
@@ -90,6 +91,19 @@ void merge_sorted_intervals_inplace(std::vector<Interval>& target_intervals, std
   std::inplace_merge(target_intervals.begin(), target_intervals.begin() + m, target_intervals.end());
 }
 
+void sort_intervals(ChunkerIndexCpp& chunker_index) {
+  // The rows are sorted by group, but rows that list the values of a domain in different orders are different groups.
+  for (auto& [key, datasets] : chunker_index) {
+    for (auto& [dataset_id, files] : datasets) {
+      for (auto& [file_id, intervals] : files) {
+        if (!std::is_sorted(intervals.begin(), intervals.end())) {
+          std::sort(intervals.begin(), intervals.end());
+        }
+      }
+    }
+  }
+}
+
 // Helper function to process a range of rows
 void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::vector<std::string>& property_columns,
                    ChunkerIndexCpp& local_chunker_index) {
@@ -117,9 +131,8 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
     }
 
     for (uint64_t i = 0; i < num_rows; ++i) {
-      std::string key;
+      MixtureKeyCpp key;
 
-      bool first_prop = true;
       for (size_t j = 0; j < property_columns.size(); ++j) {
         auto array = property_arrays[j];
         const std::string& col_name = property_columns[j];
@@ -128,12 +141,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
           continue;
         }
 
-        if (!first_prop) {
-          key += ";";
-        }
-        first_prop = false;
-
-        key += col_name + ":";
+        std::vector<std::string> values;
 
         auto type_id = array->type_id();
 
@@ -148,7 +156,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
               auto str_array = arrow::internal::checked_pointer_cast<arrow::LargeStringArray>(array);
               value = str_array->GetString(i);
             }
-            key += value;
+            values.push_back(std::move(value));
 
             // Handle LIST and LARGE_LIST types
           } else if (type_id == arrow::Type::LIST || type_id == arrow::Type::LARGE_LIST) {
@@ -182,10 +190,6 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
               FAIL(fmt::format("Invalid offset/length for LIST column '{}' at row {}", col_name, i));
             }
 
-            // Build values string
-            std::string values_str;
-            bool first_value = true;
-
             const auto value_type_id = value_array->type_id();
 
             // Handle STRING and LARGE_STRING elements within the list
@@ -202,11 +206,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
                   auto str_values = arrow::internal::checked_pointer_cast<arrow::LargeStringArray>(value_array);
                   val = str_values->GetString(k);
                 }
-                if (!first_value) {
-                  values_str += ",";
-                }
-                first_value = false;
-                values_str += val;
+                values.push_back(std::move(val));
               }
 
               // Handle DICTIONARY elements within the list
@@ -248,11 +248,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
                                    col_name, dict->type()->ToString()));
                 }
 
-                if (!first_value) {
-                  values_str += ",";
-                }
-                first_value = false;
-                values_str += val;
+                values.push_back(std::move(val));
               }
 
             } else {
@@ -260,7 +256,9 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
                                value_array->type()->ToString()));
             }
 
-            key += values_str;
+            // Neither the order nor repetitions of the values matter for the domain of a sample
+            std::sort(values.begin(), values.end());
+            values.erase(std::unique(values.begin(), values.end()), values.end());
 
             // Handle DICTIONARY type
           } else if (type_id == arrow::Type::DICTIONARY) {
@@ -298,7 +296,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
                                dict->type()->ToString()));
             }
 
-            key += value;
+            values.push_back(std::move(value));
 
           } else {
             FAIL(fmt::format("Unsupported array type in column '{}' at row {}. Type: {}", col_name, i,
@@ -308,6 +306,8 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
           spdlog::error(fmt::format("Exception at row {}, column {}: {}", i, col_name, e.what()));
           throw;
         }
+
+        key.emplace_back(col_name, std::move(values));
       }
 
       // Retrieve interval data and store it
@@ -422,6 +422,7 @@ std::vector<ChunkerIndexCpp> calc_thread_chunker_indices(py::object& py_table, u
             // After processing, release the batch
             batches[b].reset();
           }
+          sort_intervals(thread_chunker_indices[t]);
         } catch (const std::exception& e) {
           spdlog::error("Exception in thread {}: {}", t, e.what());
           {
@@ -529,28 +530,11 @@ ChunkerIndexCpp merge_chunker_indices(std::vector<ChunkerIndexCpp>* thread_chunk
   return merged_chunker_index;
 }
 
-py::dict string_key_to_property_dict(const MixtureKeyCpp& key) {
-  // Parse the C++ key string into a properties dictionary for Python
-  // Expected format: "prop1:val1,val2;prop2:val3"
+py::dict key_to_property_dict(const MixtureKeyCpp& key) {
+  // Convert the C++ key into a properties dictionary for Python
   py::dict py_properties;
-  std::stringstream ss_props(key);
-  std::string prop_pair;
-  while (std::getline(ss_props, prop_pair, ';')) {
-    size_t colon_pos = prop_pair.find(':');
-    if (colon_pos == std::string::npos) {
-      continue;
-    }
-    std::string prop_name = prop_pair.substr(0, colon_pos);
-    std::string values_str = prop_pair.substr(colon_pos + 1);
-
-    // Split values by ','
-    std::vector<std::string> values;
-    std::stringstream ss_values(values_str);
-    std::string value;
-    while (std::getline(ss_values, value, ',')) {
-      values.push_back(value);
-    }
-    py_properties[py::cast(prop_name)] = py::cast(std::move(values));
+  for (const auto& [prop_name, values] : key) {
+    py_properties[py::cast(prop_name)] = py::cast(values);
   }
   return py_properties;
 }
@@ -587,7 +571,7 @@ py::object build_py_chunker_index(ChunkerIndexCpp* merged_chunker_index) {
     ++it;
     merged_chunker_index->erase(current_it);  // We remove while iterating to reduce memory usage.
 
-    py::object py_mixture_key = MixtureKey_class(string_key_to_property_dict(key));
+    py::object py_mixture_key = MixtureKey_class(key_to_property_dict(key));
 
     // The insertion order here is irrelevant. When we iterate over this in Python, we sort by keys.
     py::dict py_datasets;
-- 
2.43.0


From 24d66240fac73c77ab3c4a2c1760c52296096825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:34 +0000
Subject: [PATCH 48/53] fix: feedback for prefetched samples failed once any
 data loader worker had finished its stream

---
 mixtera/core/client/local/local_stub.py   |  3 +++
 mixtera/core/client/mixtera_client.py     | 10 +++++++---
 mixtera/core/client/server/server_stub.py |  4 +++-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/mixtera/core/client/local/local_stub.py b/mixtera/core/client/local/local_stub.py
index a7bb6f6..f0ac4e4 100644
--- a/mixtera/core/client/local/local_stub.py
+++ b/mixtera/core/client/local/local_stub.py
@@ -168,6 +168,7 @@ class LocalStub(MixteraClient):
                 mixture,
             )
 
+        self._reset_current_mixture_id()
         logger.info(f"Registered query {str(query)} for job {query.job_id}, with mixture {mixture}")
 
         return True
@@ -213,6 +214,8 @@ class LocalStub(MixteraClient):
                 mixture if mixture is not None else distri._query_result._mixture,
             )
 
+        self._reset_current_mixture_id()
+
     def process_feedback(self, job_id: str, feedback: ClientFeedback) -> bool:
         if job_id not in self._training_query_map:
             logger.warning(f"There is no job with the id: {job_id}!")
diff --git a/mixtera/core/client/mixtera_client.py b/mixtera/core/client/mixtera_client.py
index b7648c9..871c5bd 100644
--- a/mixtera/core/client/mixtera_client.py
+++ b/mixtera/core/client/mixtera_client.py
@@ -147,6 +147,11 @@ class MixteraClient(ABC):
 
         return None if val < 0 else val
 
+    def _reset_current_mixture_id(self) -> None:
+        # To be called whenever a job starts, since its mixture IDs are unrelated to those of previous jobs.
+        with self.current_mixture_id_val.get_lock():
+            self.current_mixture_id_val.get_obj().value = -1
+
     @abstractmethod
     def register_dataset(
         self,
@@ -288,9 +293,8 @@ class MixteraClient(ABC):
             )
             yield from result_chunk
 
-        with self.current_mixture_id_val.get_lock():
-            self.current_mixture_id_val.get_obj().value = -1
-            # logger.debug("Reset current mixture ID to -1.")
+        # We do not reset the mixture ID here. Other workers may still be streaming,
+        # and the training still reports feedback for samples that the data loader has prefetched.
 
     @abstractmethod
     def _stream_result_chunks(
diff --git a/mixtera/core/client/server/server_stub.py b/mixtera/core/client/server/server_stub.py
index 3025a9a..6a55d71 100644
--- a/mixtera/core/client/server/server_stub.py
+++ b/mixtera/core/client/server/server_stub.py
@@ -71,6 +71,7 @@ class ServerStub(MixteraClient):
             logger.error("Could not register query at server!")
             return False
 
+        self._reset_current_mixture_id()
         logger.info(f"Started query registration for job {query.job_id} at server!")
 
         return True
@@ -133,7 +134,8 @@ class ServerStub(MixteraClient):
         return self.server_connection.checkpoint_completed(job_id, chkpnt_id, on_disk)
 
     def restore_checkpoint(self, job_id: str, chkpnt_id: str) -> None:
-        return self.server_connection.restore_checkpoint(job_id, chkpnt_id)
+        self.server_connection.restore_checkpoint(job_id, chkpnt_id)
+        self._reset_current_mixture_id()
 
     def wait_for_execution(self, job_id: str) -> bool:
         logger.info("Waiting for query execution at server to finish.")
-- 
2.43.0


From c4cc7a428f10ce79c394d9dabb38bdc4fe3ac934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:34 +0000
Subject: [PATCH 49/53] fix: continuing from a checkpoint repeated the last
 sample that each data loader worker had handed over

---
 mixtera/torch/mixtera_torch_dataset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mixtera/torch/mixtera_torch_dataset.py b/mixtera/torch/mixtera_torch_dataset.py
index e8819e2..95af201 100644
--- a/mixtera/torch/mixtera_torch_dataset.py
+++ b/mixtera/torch/mixtera_torch_dataset.py
@@ -135,7 +135,7 @@ class MixteraTorchDataset(IterableDataset):
         )
 
         _randid = random.randint(0, 99)
-        # Initialize status_array, indicating for each worker which sample they are currently handling in the chunk
+        # Initialize status_array, indicating for each worker how many samples of the current chunk it has handed over
         status_dtype = np.int64
         array_shape = (self.num_workers,)  # One index per worker
         status_array_size = self.num_workers * status_dtype(0).nbytes
@@ -264,7 +264,8 @@ class MixteraTorchDataset(IterableDataset):
             self._res_str_args.worker_id = self.worker_id
 
             for sample_chnk_idx, key_id, sample in self._client.stream_results(self._res_str_args):
-                status_array[self.worker_id] = sample_chnk_idx
+                # How many samples of this chunk have been handed over, i.e., where to continue from a checkpoint
+                status_array[self.worker_id] = sample_chnk_idx + 1
                 yield self._yield_func(key_id, sample)
 
             with self.completion_lock:
-- 
2.43.0


From cad70857fb123c546475f4fa45f46a4a5484a2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:22 +0000
Subject: [PATCH 50/53] fix: a checkpoint taken before all workers of a
 restored job continued failed or repeated samples

---
 mixtera/core/query/chunk_distributor.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 3c9fd03..35dd586 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -526,17 +526,23 @@ class ChunkDistributor:
                     for worker_id in range(state_to_save["_num_workers"]):
                         chunk: ResultChunk | SerializedResultChunk
 
-                        next_chunk = (
-                            state_to_save["next_chunk"][dp_group][node][worker_id] - state_to_save["_num_workers"]
-                        )
-                        if next_chunk >= 0:
+                        upcoming_chunk = state_to_save["next_chunk"][dp_group][node][worker_id]
+                        next_chunk = upcoming_chunk - state_to_save["_num_workers"]
+                        chunk_cache = state_to_save["chunk_cache"][dp_group]
+                        if upcoming_chunk in chunk_cache and next_chunk not in chunk_cache:
+                            # We have been restored from a checkpoint, and this worker has not requested its chunk yet
+                            logger.debug(f"dp={dp_group}, node={node}, w={worker_id} still waits for {upcoming_chunk}")
+                        elif next_chunk >= 0:
                             state_to_save["next_chunk"][dp_group][node][worker_id] = next_chunk
                             state_to_save["chunk_usage"][dp_group][next_chunk] = 0
                             chunk = state_to_save["chunk_cache"][dp_group][next_chunk]
                             is_serialized = isinstance(chunk, SerializedResultChunk)
                             if is_serialized:
                                 chunk = dill.loads(chunk)
-                            chunk._samples_to_skip = worker_sample_ids[(dp_group, worker_id)]
+                            # If a restored worker has not handed over any sample, its reported status is 0
+                            chunk._samples_to_skip = max(
+                                chunk._samples_to_skip, worker_sample_ids[(dp_group, worker_id)]
+                            )
                             chunk = dill.dumps(chunk) if is_serialized else chunk
                             state_to_save["chunk_cache"][dp_group][next_chunk] = chunk
                         else:
-- 
2.43.0


From ee14e951baf77244ed9c80be903dfc49aa3c5047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:46 +0000
Subject: [PATCH 51/53] fix: a training process without data loader workers
 could not checkpoint after its data ended

---
 mixtera/torch/mixtera_torch_dataset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mixtera/torch/mixtera_torch_dataset.py b/mixtera/torch/mixtera_torch_dataset.py
index 95af201..a3fe197 100644
--- a/mixtera/torch/mixtera_torch_dataset.py
+++ b/mixtera/torch/mixtera_torch_dataset.py
@@ -64,6 +64,7 @@ class MixteraTorchDataset(IterableDataset):
         self._query_execution_args = query_execution_args
         self._status_shm = _status_shm
         self._comp_shm = _comp_shm
+        self._last_worker_status: list[int] | None = None  # To still be able to checkpoint after cleaning up
         self._checkpoint_path = checkpoint_path
         self.requires_callback = False
         self._return_key_id = return_key_id
@@ -204,6 +205,7 @@ class MixteraTorchDataset(IterableDataset):
         try:
             if self._status_shm is not None:
                 any_close = True
+                self._last_worker_status = self.worker_status
                 self._status_shm.close()
                 if unlink:
                     self._status_shm.unlink()
@@ -238,8 +240,8 @@ class MixteraTorchDataset(IterableDataset):
 
     @property
     def worker_status(self) -> list[int] | None:
-        if self._status_shm is None:
-            return None
+        if self._status_shm is None or self._status_shm.buf is None:
+            return self._last_worker_status
 
         try:
             return np.ndarray((self.num_workers,), dtype=np.int64, buffer=self._status_shm.buf).tolist()
-- 
2.43.0


From ef3b4679c2ba71ecd4a52359f21a9ea94b3ee709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:07 +0000
Subject: [PATCH 52/53] fix: iterating the Hugging Face data set with data
 loader workers failed at the end of the data

---
 mixtera/hf/mixtera_hf_dataset.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mixtera/hf/mixtera_hf_dataset.py b/mixtera/hf/mixtera_hf_dataset.py
index 62a7889..5e325c7 100644
--- a/mixtera/hf/mixtera_hf_dataset.py
+++ b/mixtera/hf/mixtera_hf_dataset.py
@@ -179,7 +179,5 @@ class MixteraHFDataset(datasets.IterableDataset):
             assert self._ex_iterable._dp_group_id == 0
 
         yield from super().__iter__()
-        logger.info(
-            f"[{self._ex_iterable._dp_group_id}-{self._ex_iterable._node_id}-{self._ex_iterable.worker_id}]"
-            + " Finished yielding."
-        )
+        # Note that self._ex_iterable itself is not sharded, i.e., it does not know its worker id.
+        logger.info(f"[{self._ex_iterable._dp_group_id}-{self._ex_iterable._node_id}] Finished yielding.")
-- 
2.43.0


From 81789125610db034a548f63f8711270edb2c4bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:45 +0000
Subject: [PATCH 53/53] fix: restoring a run after a schedule changed only the
 strictness of its mixture replayed other chunks

---
 mixtera/core/query/query_result.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index e83cc64..2df0817 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -307,6 +307,7 @@ class QueryResult:
                 return
 
         previous_mixture = None
+        previous_strict = None
         base_mixture, target_chunk_index = yield
         # We allow to re-query the latest chunk after not being able to generate one,
         # e.g., due to dynamic mixture changes.
@@ -323,10 +324,13 @@ class QueryResult:
 
             chunk_success = False
             if mixture:
-                if previous_mixture != mixture:
+                # A change of only the strictness is no new mixture, but affects the chunks and needs to be replayed
+                if previous_mixture != mixture or previous_strict != is_strict:
                     logger.debug(f"Obtained new mixture: {mixture}")
-                    mixture_id += 1
+                    if previous_mixture != mixture:
+                        mixture_id += 1
                     previous_mixture = deepcopy(mixture)
+                    previous_strict = is_strict
 
                     if len(self._mixture_log) > 0:
                         last_mixture = self._mixture_log[-1][1]
-- 
2.43.0

