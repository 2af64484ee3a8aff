From 172d341cd45fb12eb0f120dec41c8239c1364a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:50 +0000
Subject: [PATCH 01/57] fix: report read errors of the text file reader to its
 consumer

An error in a background read was dropped. The consumer either missed lines
or waited forever. The error is now raised from the iteration.
---
 .../deepgnn/graph_engine/_adl_reader.py       | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/_adl_reader.py b/src/python/deepgnn/graph_engine/_adl_reader.py
index d2417e6..e22f868 100644
--- a/src/python/deepgnn/graph_engine/_adl_reader.py
+++ b/src/python/deepgnn/graph_engine/_adl_reader.py
@@ -191,21 +191,29 @@ class TextFileIterator:
             len_to_read = self.get_length_to_read()
             sub_len = len_to_read // self.thread_count
             last_id = self.thread_count - 1
-            for thread_idx in range(last_id):
+            futures = [
                 pool.submit(
                     _read_block_worker,
                     thread_idx,
                     self.offset + (thread_idx * sub_len),
                     sub_len,
                 )
+                for thread_idx in range(last_id)
+            ]
 
-            pool.submit(
-                _read_block_worker,
-                last_id,
-                self.offset + (last_id * sub_len),
-                len_to_read - last_id * sub_len,
+            futures.append(
+                pool.submit(
+                    _read_block_worker,
+                    last_id,
+                    self.offset + (last_id * sub_len),
+                    len_to_read - last_id * sub_len,
+                )
             )
 
+        # raise errors from sub block readers, otherwise their lines are lost.
+        for future in futures:
+            future.result()
+
         # merge the prefix and suffix between blocks.
         # first we get the head block of the block list,
         # then we will concat each block after the head into head block.
@@ -254,6 +262,13 @@ class TextFileIterator:
         return 0
 
     def _read_block(self):
+        try:
+            self._read_all_blocks()
+        except Exception as e:
+            # let the consumer know that there is no more data because of an error.
+            self.outputs.put(FetchDone(exception=e))
+
+    def _read_all_blocks(self):
         while not self.stop:
             # try to read some data from current file using multi-threading
             block = self._read_block_by_threads()
@@ -380,6 +395,9 @@ class TextFileIterator:
             self.outputs.task_done()
             # if the head is finish indicator, convert the remaining unprocessed bytes to string and return
             if type(head) is FetchDone:
+                if head.exception_info is not None:
+                    self.end = True
+                    raise head.exception_info
                 if len(self.remain_bytes) != 0:
                     line = self.remain_bytes.decode("utf-8").strip("\r\n")
                     if len(line) > 0:
-- 
2.43.0


From ef02eefd1086148e6891528e048f135b2e40612c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:07 +0000
Subject: [PATCH 02/57] fix: byte-range text reader delivers its range on every
 iteration

The remaining length was consumed by the first pass, so a second pass was empty.
---
 src/python/deepgnn/graph_engine/_adl_reader.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/_adl_reader.py b/src/python/deepgnn/graph_engine/_adl_reader.py
index e22f868..af15ee6 100644
--- a/src/python/deepgnn/graph_engine/_adl_reader.py
+++ b/src/python/deepgnn/graph_engine/_adl_reader.py
@@ -479,9 +479,8 @@ class TextFileSplitIterator(TextFileIterator):
         if self.total_read_length == -1:
             return self.length
 
-        read = min(self.total_read_length, self.length)
-        self.total_read_length -= read
-        return read
+        end = self.worker_offset + self.total_read_length
+        return max(0, min(end - self.offset, self.length))
 
     def get_offset(self) -> int:
         return self.worker_offset
-- 
2.43.0


From 6d776f37c8336d111bed07bef5072fac30808841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:36:05 +0000
Subject: [PATCH 03/57] fix: prefetch generator ends once and reports late
 query errors

An empty sampler made the second call block forever. A query error that
arrived after the sampler had ended was returned as a result.
---
 src/python/deepgnn/graph_engine/prefetch.py | 27 +++++++++------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/prefetch.py b/src/python/deepgnn/graph_engine/prefetch.py
index 6cd7040..36f3103 100644
--- a/src/python/deepgnn/graph_engine/prefetch.py
+++ b/src/python/deepgnn/graph_engine/prefetch.py
@@ -152,8 +152,10 @@ class Generator:
         collate_fn: Optional[Callable] = None,
     ):
         """Initialize generator."""
-        self.count = 0
+        # number of results to return, known after the sampler ends.
+        self.count: Optional[int] = None
         self.index = 0
+        self.finished = False
         self.outputs: Queue[Tuple[np.ndarray]] = Queue(prefetch_size)
         self.max_workers = max_workers
         self.pool = ThreadPoolExecutor(max_workers=max_workers)
@@ -190,25 +192,20 @@ class Generator:
 
     def __next__(self):
         """Parse the queue and get the "count" queue item. Use it to decide terminate the iteration or not."""
-        if self.count > 0 and self.index == self.count + 1:
-            raise StopIteration
-
-        item = self.outputs.get()
-        self.outputs.task_done()
-        self.index += 1
-        if type(item) is FetchDone:
+        while not self.finished and self.index != self.count:
+            item = self.outputs.get()
+            self.outputs.task_done()
+            if type(item) is not FetchDone:
+                self.index += 1
+                return item
             if item.exception_info is not None:
+                self.finished = True
                 get_logger().error(item.exception_info)
                 raise Exception(item.exception_info)
             self.count = item.count
-            if self.index == self.count + 1:
-                raise StopIteration
-
-            item = self.outputs.get()
-            self.outputs.task_done()
-            self.index += 1
 
-        return item
+        self.finished = True
+        raise StopIteration
 
     def _drain_outputs(self):
         while self.outputs.qsize() > 0:
-- 
2.43.0


From b41a2e9cb09936122e1e23471942d85f92fec979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:21 +0000
Subject: [PATCH 04/57] fix: let QueueDispatcher finish when it runs converters
 in threads

Threads share the input queues with the dispatcher, so closing them before
the converters were done made the converters fail, and threads cannot be
terminated.
---
 src/python/deepgnn/graph_engine/snark/dispatcher.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/dispatcher.py b/src/python/deepgnn/graph_engine/snark/dispatcher.py
index 74c9e2a..42b59ea 100755
--- a/src/python/deepgnn/graph_engine/snark/dispatcher.py
+++ b/src/python/deepgnn/graph_engine/snark/dispatcher.py
@@ -272,6 +272,7 @@ class QueueDispatcher(Dispatcher):
         self.folder = str(folder)
         self.skip_node_sampler = skip_node_sampler
         self.skip_edge_sampler = skip_edge_sampler
+        self.use_threads = use_threads
         process = process or converter_process
         parallel_func = mp.Process  # type: ignore
         if use_threads:
@@ -331,7 +332,6 @@ class QueueDispatcher(Dispatcher):
         """Wrapup conversion."""
         for i in self.active_partitions:
             self.q_in[i].put(FLAG_ALL_DONE)
-            self.q_in[i].close()
 
         for _ in self.active_partitions:
             flag, output = self.q_out.get()
@@ -348,6 +348,9 @@ class QueueDispatcher(Dispatcher):
             self.partitions.append(output["partition"])
 
             assert flag == FLAG_WORKER_FINISHED_PROCESSING
+        # threads share these queues with the dispatcher, so close them after the work is done.
+        for i in self.active_partitions:
+            self.q_in[i].close()
         self.q_out.close()
 
         for p in self.partitions:
@@ -384,8 +387,9 @@ class QueueDispatcher(Dispatcher):
                     ):
                         pass
 
-        for p in self.processes:
-            p.terminate()
+        if not self.use_threads:
+            for p in self.processes:
+                p.terminate()
 
     def prop(self, name: str) -> typing.Any:
         """Properties relevant for conversion.
-- 
2.43.0


From 9580b2cf5d5cbc24649d6045a8630209bfd549a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:21 +0000
Subject: [PATCH 05/57] fix: keep timestamps equal to 0 when writing temporal
 graphs

A removal time of 0 was stored as -1 (never removed).
---
 .../deepgnn/graph_engine/snark/converter/writers.py       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/converter/writers.py b/src/python/deepgnn/graph_engine/snark/converter/writers.py
index 0ea7a9d..7515f75 100644
--- a/src/python/deepgnn/graph_engine/snark/converter/writers.py
+++ b/src/python/deepgnn/graph_engine/snark/converter/writers.py
@@ -102,8 +102,8 @@ class BinaryWriter:
                         self.node_type_count.append(0)
                     self.node_type_num = type_num_value
                 # Fill defaults for a new node
-                node_created_at = created_at or 0
-                node_removed_at = removed_at or -1
+                node_created_at = 0 if created_at is None else created_at
+                node_removed_at = -1 if removed_at is None else removed_at
                 self.node_writer.add(
                     src,
                     typ,
@@ -146,8 +146,8 @@ class BinaryWriter:
                     or node_removed_at == -1
                     or removed_at <= node_removed_at
                 ), f"Edge ({src}, {dst}, {typ}) was deleted[{removed_at}] after source node[{node_removed_at}]."
-                created_at = created_at or node_created_at
-                removed_at = removed_at or node_removed_at
+                created_at = node_created_at if created_at is None else created_at
+                removed_at = node_removed_at if removed_at is None else removed_at
                 self.edge_writer.add(
                     dst,
                     typ,
-- 
2.43.0


From a7a6816c76f58301b1632ed4e97d34a8ce64e1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:21 +0000
Subject: [PATCH 06/57] fix: merge converter metadata with actual partition ids
 and types

Weights of partitions from one worker were added up, partitions were
renumbered in file name order, and types or features known only to some
of the workers were lost. Missing sampling tables are created empty.
---
 .../deepgnn/graph_engine/snark/meta_merger.py | 92 ++++++++++++-------
 1 file changed, 61 insertions(+), 31 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/meta_merger.py b/src/python/deepgnn/graph_engine/snark/meta_merger.py
index ad5f082..46383fb 100644
--- a/src/python/deepgnn/graph_engine/snark/meta_merger.py
+++ b/src/python/deepgnn/graph_engine/snark/meta_merger.py
@@ -9,6 +9,7 @@ import json
 import fsspec
 
 from deepgnn.graph_engine._base import get_fs
+from deepgnn.graph_engine.snark.meta import _Element, _get_element_alias_path
 
 # Content of sample meta.json
 
@@ -17,10 +18,10 @@ from deepgnn.graph_engine._base import get_fs
 # binary_version          equal
 # node_count              additive
 # edge_count              additive
-# node_type_count         equal
-# edge_type_count         equal
-# node_feature_count      equal
-# edge_feature_count      equal
+# node_type_count         max
+# edge_type_count         max
+# node_feature_count      max
+# edge_feature_count      max
 # node weight             additive
 # edge weight             additive
 # node count              additive
@@ -55,27 +56,51 @@ class Meta:
         self.node_feature_count = meta["node_feature_count"]
         self.edge_feature_count = meta["edge_feature_count"]
         self.partition_count = len(meta["partitions"])
-        self.node_weights = [[0.0] * self.node_type_count] * self.partition_count
-        self.edge_weights = [[0.0] * self.edge_type_count] * self.partition_count
-        for j, id in enumerate(meta["partitions"]):
-            for i in range(self.node_type_count):
-                self.node_weights[j][i] += meta["partitions"][id]["node_weight"][i]
-            for i in range(self.edge_type_count):
-                self.edge_weights[j][i] += meta["partitions"][id]["edge_weight"][i]
+        self.partition_ids = sorted(int(id) for id in meta["partitions"])
+        self.node_weights = [
+            list(meta["partitions"][str(id)]["node_weight"])
+            for id in self.partition_ids
+        ]
+        self.edge_weights = [
+            list(meta["partitions"][str(id)]["edge_weight"])
+            for id in self.partition_ids
+        ]
 
         self.node_count_per_type = meta["node_count_per_type"]
         self.edge_count_per_type = meta["edge_count_per_type"]
         self.watermark = meta["watermark"]
 
-    def get_partition(self, offset):
-        """Return the sub content of meta info."""
+    def get_partitions(self, node_type_count: int, edge_type_count: int):
+        """Return the sub content of meta info, padded with missing types."""
         return {
-            f"{offset + i}": {
-                "node_weight": self.node_weights[i],
-                "edge_weight": self.edge_weights[i],
+            f"{id}": {
+                "node_weight": _pad(self.node_weights[i], node_type_count),
+                "edge_weight": _pad(self.edge_weights[i], edge_type_count),
             }
-            for i in range(self.partition_count)
-        }, offset + self.partition_count
+            for i, id in enumerate(self.partition_ids)
+        }
+
+
+def _pad(values: list, count: int) -> list:
+    return values + [0] * (count - len(values))
+
+
+def _fill_missing_alias_tables(fs, output_dir: str, meta_list: List[Meta]):
+    """Add empty tables for types known only to the other workers."""
+    for element, field in (
+        (_Element.NODE, "node_type_count"),
+        (_Element.EDGE, "edge_type_count"),
+    ):
+        if not fs.glob(os.path.join(output_dir, f"{element.value}_*_*.alias")):
+            continue  # tables were skipped by converters.
+        type_count = max(getattr(m, field) for m in meta_list)
+        for m in meta_list:
+            for id in m.partition_ids:
+                for tp in range(getattr(m, field), type_count):
+                    with fs.open(
+                        _get_element_alias_path(element, output_dir, tp, id), "wb"
+                    ):
+                        pass
 
 
 def merge(fs, output_dir: str, meta_list: List[Meta]):
@@ -83,31 +108,36 @@ def merge(fs, output_dir: str, meta_list: List[Meta]):
     assert all(
         map(lambda x: x.version == meta_list[0].version, meta_list)
     ), "All partitions must have the same binary version"
+    ids = [id for m in meta_list for id in m.partition_ids]
+    if len(ids) != len(set(ids)):
+        raise ValueError(f"Partitions {sorted(ids)} must belong to a single meta file")
+    node_type_count = max(i.node_type_count for i in meta_list)
+    edge_type_count = max(i.edge_type_count for i in meta_list)
     content = {
         "binary_data_version": meta_list[0].version,
         "node_count": sum([i.node_count for i in meta_list]),
         "edge_count": sum([i.edge_count for i in meta_list]),
-        "node_type_count": meta_list[0].node_type_count,
-        "edge_type_count": meta_list[0].edge_type_count,
-        "node_feature_count": int(meta_list[0].node_feature_count),
-        "edge_feature_count": int(meta_list[0].edge_feature_count),
-        "watermark": int(meta_list[0].watermark),
+        "node_type_count": node_type_count,
+        "edge_type_count": edge_type_count,
+        "node_feature_count": max(int(i.node_feature_count) for i in meta_list),
+        "edge_feature_count": max(int(i.edge_feature_count) for i in meta_list),
+        "watermark": max(int(i.watermark) for i in meta_list),
     }
-    offset = 0
-    content["partitions"] = {}
+    partitions = {}
     for i in meta_list:
-        data, offset = i.get_partition(offset)
-        content["partitions"].update(data)
+        partitions.update(i.get_partitions(node_type_count, edge_type_count))
+    content["partitions"] = {id: partitions[id] for id in sorted(partitions, key=int)}
 
     content["node_count_per_type"] = [
-        sum([i.node_count_per_type[count] for i in meta_list])
-        for count in range(int(meta_list[0].node_type_count))
+        sum(c)
+        for c in zip(*(_pad(i.node_count_per_type, node_type_count) for i in meta_list))
     ]
     content["edge_count_per_type"] = [
-        sum([i.edge_count_per_type[count] for i in meta_list])
-        for count in range(int(meta_list[0].edge_type_count))
+        sum(c)
+        for c in zip(*(_pad(i.edge_count_per_type, edge_type_count) for i in meta_list))
     ]
 
+    _fill_missing_alias_tables(fs, output_dir, meta_list)
     with fs.open("{}/meta.json".format(output_dir), "w") as file:
         file.write(json.dumps(content))
 
-- 
2.43.0


From d53bc7775f9333f341519f075c82d0e08f1ff195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:21 +0000
Subject: [PATCH 07/57] fix: give every converter worker a share of the
 partitions

With an uneven split the last workers got no partitions and silently
skipped their part of the input. Fewer partitions than workers is an error.
---
 .../deepgnn/graph_engine/snark/convert.py     | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/convert.py b/src/python/deepgnn/graph_engine/snark/convert.py
index 855f82a..dba344d 100755
--- a/src/python/deepgnn/graph_engine/snark/convert.py
+++ b/src/python/deepgnn/graph_engine/snark/convert.py
@@ -4,7 +4,6 @@
 """Conversion functions to internal binary format."""
 from typing import Optional
 import multiprocessing as mp
-import math
 from operator import add
 import fsspec
 import json
@@ -84,12 +83,17 @@ class MultiWorkersConverter:
         self.fs, _ = get_fs(graph_path)
 
         # calculate the partition offset and count of this worker.
-        self.partition_count = (
-            int(math.ceil(partition_count / worker_count)) if not self._debug else 1
-        )
-        self.partition_offset = self.partition_count * worker_index
-        if self.partition_offset + self.partition_count > partition_count:
-            self.partition_count = partition_count - self.partition_offset
+        if self._debug:
+            self.partition_count = 1
+            self.partition_offset = 0
+        else:
+            if partition_count < worker_count:
+                raise ValueError(
+                    f"Number of partitions {partition_count} must be at least the number of workers {worker_count}"
+                )
+            base, extra = divmod(partition_count, worker_count)
+            self.partition_count = base + (1 if worker_index < extra else 0)
+            self.partition_offset = base * worker_index + min(worker_index, extra)
 
         if self.dispatcher is None and not self._debug:
             # when converting data in HDFS make sure to turn it off: https://hdfs3.readthedocs.io/en/latest/limitations.html
@@ -111,9 +115,6 @@ class MultiWorkersConverter:
 
     def convert(self):
         """Convert function."""
-        if self.partition_count <= 0:
-            return
-
         get_logger().info(
             f"worker {self.worker_index} try to generate partition: {self.partition_offset} - {self.partition_count + self.partition_offset}"
         )
-- 
2.43.0


From 485853e20a174ce293162fd1933a8c56bfbba933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:21 +0000
Subject: [PATCH 08/57] fix: remove metadata of an earlier conversion before
 overwriting its files

A conversion interrupted half way left the old metadata next to partly
rewritten partitions.
---
 .../deepgnn/graph_engine/snark/convert.py     | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/convert.py b/src/python/deepgnn/graph_engine/snark/convert.py
index dba344d..78adb9d 100755
--- a/src/python/deepgnn/graph_engine/snark/convert.py
+++ b/src/python/deepgnn/graph_engine/snark/convert.py
@@ -95,6 +95,15 @@ class MultiWorkersConverter:
             self.partition_count = base + (1 if worker_index < extra else 0)
             self.partition_offset = base * worker_index + min(worker_index, extra)
 
+        # Metadata of a previous conversion can't describe files which are about to be overwritten.
+        out_fs, _ = get_fs(output_dir)
+        for path in {f"{output_dir}/meta.json", self._meta_path()}:
+            try:
+                if out_fs.exists(path):
+                    out_fs.rm(path)
+            except FileNotFoundError:
+                pass  # removed by another worker.
+
         if self.dispatcher is None and not self._debug:
             # when converting data in HDFS make sure to turn it off: https://hdfs3.readthedocs.io/en/latest/limitations.html
             use_threads = True
@@ -113,6 +122,12 @@ class MultiWorkersConverter:
                 watermark=watermark,
             )
 
+    def _meta_path(self) -> str:
+        return "{}/meta{}.json".format(
+            self.output_dir,
+            "" if self.worker_count == 1 else f"_{self.worker_index}",
+        )
+
     def convert(self):
         """Convert function."""
         get_logger().info(
@@ -196,13 +211,7 @@ class MultiWorkersConverter:
         mjson["edge_count_per_type"] = edge_count_per_type
         mjson["watermark"] = -1 if self.watermark is None else self.watermark
 
-        with fs.open(
-            "{}/meta{}.json".format(
-                self.output_dir,
-                "" if self.worker_count == 1 else f"_{self.worker_index}",
-            ),
-            "w",
-        ) as file:
+        with fs.open(self._meta_path(), "w") as file:
             file.write(json.dumps(mjson))
 
 
-- 
2.43.0


From 564baff2cd748e9565181139b1bb52edb354aaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:38 +0000
Subject: [PATCH 09/57] fix: release sync files and server processes when
 closing a backend

Closing failed with FileNotFoundError when a server had not started, after a
start-up timeout or when called twice, and left lock files behind.
Closing a forked copy stopped the server of the parent process.
A server process now removes its own lock file and unloads its data before it exits.
---
 .../backends/snark/synchronized.py             | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
index c2e5192..a674a7b 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
@@ -42,7 +42,8 @@ def _check_lock_file(folder: str, index: int, extension: str):
 
 def _delete_lock_file(folder: str, index: int, extension: str):
     path = pathlib.Path(folder, f"snark_{index}.{extension}")
-    os.remove(path)
+    # A lock file might be missing if its owner failed to start or was already closed.
+    path.unlink(missing_ok=True)
 
 
 class SupportsReset:
@@ -183,16 +184,18 @@ class _ServerProcess(mp.Process):
     def run(self):
         """Start a GE server."""
         self._server = self._ktr()
-        _create_lock_file(self.sync_path, self.id, "server")
-        self._stop_event.wait()
+        if not self._stop_event.is_set():
+            _create_lock_file(self.sync_path, self.id, "server")
+            self._stop_event.wait()
+            _delete_lock_file(self.sync_path, self.id, "server")
         get_logger().info(f"Shutting down server #{self.id}")
+        self._server.reset()
 
     def join(self, timeout: Optional[float] = None):
         """Stop the GE server."""
         self._wait_for_clients(timeout)
         self._stop_event.set()
-        if self._server is not None:
-            self._server.reset()
+        super().join(timeout)
 
 
 class SynchronizedServer:
@@ -218,6 +221,7 @@ class SynchronizedServer:
 
     def reset(self):
         """Unload server from memory."""
+        # Forked copies don't own the server process.
+        if os.getpid() != self.original_pid:
+            return
         self._server_process.join(timeout=self.timeout)
-        if os.getpid() == self.original_pid:
-            _delete_lock_file(self.sync_path, self.id, "server")
-- 
2.43.0


From 2e7423143d1aba36cb0b4fe0ed79dafe9e65570f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:38 +0000
Subject: [PATCH 10/57] fix: count partitions from the parsed graph metadata

The number of graph servers was read from the eighth line of meta.json,
but converters write the file as a single line, so start-up failed with IndexError.
---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 4791eea..dd4d5b9 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -183,9 +183,8 @@ class SnarkDistributedBackend(GraphEngineBackend):
             # TODO(alsamylk): provide a better metadata reader in snark
             with open(os.path.join(options.data_dir, "meta.json"), "r") as meta:
                 # Use a simple heuristic: number of original partitions, but cap it at 4
-                # to avoid extreme cases. Partition count is written on 7th line.
-                lines = meta.readlines()
-                options.num_ge = min(int(lines[7]), 4)
+                # to avoid extreme cases.
+                options.num_ge = min(len(json.load(meta)["partitions"]), 4)
 
         # Use explicitly set index if it was provided
         if options.server_idx is not None:
-- 
2.43.0


From 77477ed885953bd7032e5abac26bc7dd6619fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:38 +0000
Subject: [PATCH 11/57] fix: do not reorder the worker list of the launcher

Finding the server index sorted the list of worker hosts in place, which
changed the meaning of the task index for everybody else using the list.
---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index dd4d5b9..264f805 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -289,9 +289,8 @@ class SnarkDistributedBackend(GraphEngineBackend):
 
     def _extract_server_index(self, workers: List[str], index: int) -> Optional[int]:
         curr_worker = workers[index]
-        workers.sort()
         seen_hosts = set()
-        for worker in workers:
+        for worker in sorted(workers):
             host = worker.rsplit(":", 1)[0]
             if curr_worker != worker:
                 seen_hosts.add(host)
-- 
2.43.0


From d260af203fe00218c1c58b78bdb947ab6814a37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:48 +0000
Subject: [PATCH 12/57] fix: order discovered server addresses by server index

Workers listed published addresses in directory order, so they could disagree
on the address of a server and pick up addresses left by an earlier run.
---
 .../deepgnn/graph_engine/backends/snark/client.py  | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 264f805..438d5fb 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -3,7 +3,6 @@
 """Backend implementation of C++ graph engine."""
 import json
 import os
-import glob
 import threading
 from typing import Optional, Tuple, List
 import socket
@@ -164,6 +163,7 @@ class SnarkDistributedBackend(GraphEngineBackend):
             options.ge_start_timeout,
             _AddressReader,
             address_folder,
+            world_size,
         )
         options.servers = client.client.servers()
         client.reset()
@@ -394,16 +394,20 @@ class _AddressFinder:
 # Read all addresses from path.
 # _AddressReader must be wrapped by SynchronizedClient to wait all servers.
 class _AddressReader:
-    def __init__(self, path: str):
-        self._servers: List[str] = []
-        for file_name in glob.glob(os.path.join(path, "*.servername")):
+    def __init__(self, path: str, world_size: int):
+        servers: List[Tuple[int, str]] = []
+        for rank in range(world_size):
+            # Don't use a list of files in the folder: it might contain names from previous runs.
+            file_name = os.path.join(path, str(rank) + ".servername")
             with open(file_name, "r", newline=os.linesep) as f:
                 # First line is the address and the second - server index.
                 raw = f.readlines()
                 assert len(raw) == 2
                 server_idx = int(raw[1])
                 if server_idx >= 0:
-                    self._servers.append(raw[0].rstrip(os.linesep))
+                    servers.append((server_idx, raw[0].rstrip(os.linesep)))
+        # Every worker should use the same order and find a server by its index.
+        self._servers: List[str] = [address for _, address in sorted(servers)]
 
     def servers(self) -> List[str]:
         return self._servers
-- 
2.43.0


From 8672ff1e02ecf7cd5680ff667fd02729a96a82fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:52:48 +0000
Subject: [PATCH 13/57] fix: register a graph client before starting the server
 of its worker

A server stops when no client is registered. A worker that saw all servers
could close before a slower worker had registered its client, which then waited
for a server that was already gone. Discovery also cleans up after a timeout.
---
 .../graph_engine/backends/snark/client.py     | 45 ++++++++++---------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 438d5fb..47fb0fc 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -108,6 +108,17 @@ class SnarkDistributedBackend(GraphEngineBackend):
             )
 
         os.makedirs(sync_dir, exist_ok=True)
+        # Register the client first: servers of other workers stop when there are no clients left.
+        assert client_rank is not None, "Client rank should be always initialized"
+        self._client = SynchronizedClient(  # type: ignore
+            sync_dir,
+            client_rank,
+            len(options.servers),
+            options.ge_start_timeout,
+            DistributedClient,
+            options.servers,
+            options.ssl_cert,
+        )
         if server_index >= 0:
             self._server = SynchronizedServer(
                 sync_dir,
@@ -123,16 +134,6 @@ class SnarkDistributedBackend(GraphEngineBackend):
                 config_path=options.config_path,
                 stream=options.stream,
             )
-        assert client_rank is not None, "Client rank should be always initialized"
-        self._client = SynchronizedClient(  # type: ignore
-            sync_dir,
-            client_rank,
-            len(options.servers),
-            options.ge_start_timeout,
-            DistributedClient,
-            options.servers,
-            options.ssl_cert,
-        )
 
     def _check_servers_option(
         self,
@@ -147,27 +148,29 @@ class SnarkDistributedBackend(GraphEngineBackend):
         address_folder = os.path.join(options.model_dir, "sync", "addresses")
         os.makedirs(sync_folder, exist_ok=True)
         os.makedirs(address_folder, exist_ok=True)
-        server = SynchronizedServer(
+        client = SynchronizedClient(
             sync_folder,
             client_rank,
+            world_size,
             options.ge_start_timeout,
-            _AddressFinder,
+            _AddressReader,
             address_folder,
-            client_rank,
-            server_idx,
+            world_size,
         )
-        client = SynchronizedClient(
+        server = SynchronizedServer(
             sync_folder,
             client_rank,
-            world_size,
             options.ge_start_timeout,
-            _AddressReader,
+            _AddressFinder,
             address_folder,
-            world_size,
+            client_rank,
+            server_idx,
         )
-        options.servers = client.client.servers()
-        client.reset()
-        server.reset()
+        try:
+            options.servers = client.client.servers()
+        finally:
+            client.reset()
+            server.reset()
         get_logger().warning(
             f"GE servers were not specified. Starting them on {options.servers}"
         )
-- 
2.43.0


From d13c584f19308bd76119d52456e79979bbb848df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:25:25 +0000
Subject: [PATCH 14/57] fix: upload every written chunk and stop all uploader
 threads on close

An empty write ended an upload thread early. Close could block forever or lose data when an upload process had died.
---
 .../deepgnn/graph_engine/adl_uploader.py      | 35 +++++++++++++------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/adl_uploader.py b/src/python/deepgnn/graph_engine/adl_uploader.py
index c015f0e..25eb538 100644
--- a/src/python/deepgnn/graph_engine/adl_uploader.py
+++ b/src/python/deepgnn/graph_engine/adl_uploader.py
@@ -76,7 +76,7 @@ class MultiThreadsAdlDataWriter:
         out_file = None
         while True:
             chunk = self.data_queue.get()
-            if not chunk:
+            if chunk is None:
                 if out_file:
                     out_file.close()
                 self.data_queue.task_done()
@@ -111,10 +111,11 @@ class MultiThreadsAdlDataWriter:
             for thread in self.threads:
                 thread.start()
 
+            # The monitor thread can stop uploading right away.
+            self.started = True
             self.daemon_thread.daemon = True
             self.daemon_thread.start()
 
-            self.started = True
             self.logger.info(
                 f"[uploader processor-{self.process_idx}] started successfully."
             )
@@ -125,9 +126,9 @@ class MultiThreadsAdlDataWriter:
             self.logger.info(f"[uploader processor-{self.process_idx}] stop...")
             self.started = False
 
-            for thread in self.threads:
-                if thread.is_alive():
-                    self.data_queue.put(None)
+            # Any thread can take a stop flag, so every thread needs its own one.
+            for _ in self.threads:
+                self.data_queue.put(None)
 
             for thread in self.threads:
                 thread.join()
@@ -213,7 +214,7 @@ class AdlDataWriter:
         )
         while True:
             chunk = self.data_queues[process_idx].get()
-            if not chunk or not uploader.is_alive():
+            if chunk is None or not uploader.is_alive():
                 break
             uploader.enqueue(chunk)
 
@@ -223,7 +224,15 @@ class AdlDataWriter:
     def write(self, embed):
         """Write data to processing queue."""
         chunk = bytes(embed, "utf-8")
-        self.data_queues[self.total_chunk % len(self.processes)].put(chunk)
+        data_queue = self.data_queues[self.total_chunk % len(self.processes)]
+        while True:
+            try:
+                data_queue.put(chunk, timeout=1)
+                break
+            except queue.Full:
+                # Nobody reads the queue after uploading was stopped early.
+                if not self.is_running:
+                    raise
         self.total_chunk += 1
 
     def writelines(self, embeds):
@@ -255,10 +264,11 @@ class AdlDataWriter:
     def _start_uploading(self):
         for process in self.processes:
             process.start()
+        # The monitor thread can stop uploading right away.
+        self.is_running = True
         self.daemon_thread.daemon = True
         self.daemon_thread.start()
 
-        self.is_running = True
         self.logger.info("[AdlUploader] started successfully.")
 
     def close(self):
@@ -268,8 +278,13 @@ class AdlDataWriter:
             self.is_running = False
 
             for i in range(len(self.processes)):
-                if self.processes[i].is_alive():
-                    self.data_queues[i].put(None)
+                # A process might exit early without reading its queue.
+                while self.processes[i].is_alive():
+                    try:
+                        self.data_queues[i].put(None, timeout=1)
+                        break
+                    except queue.Full:
+                        continue
 
             for process in self.processes:
                 process.join()
-- 
2.43.0


From e8d40c6d85963570428afd5e34d6e76ec5069080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:25:25 +0000
Subject: [PATCH 15/57] fix: give every process its own range of nodes and keep
 drop_last for edge files

The range node sampler handed the same nodes to several processes and padded with ids beyond the range. The edge file sampler with features ignored drop_last.
---
 src/python/deepgnn/graph_engine/samplers.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index 96c5dd0..a03cf16 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -429,6 +429,7 @@ class FileEdgeSampler(BaseSampler):
                 ),
                 np.zeros(shape=(self.feature_dim), dtype=np.float32),
             ],
+            drop_last=self.drop_last,
             data_parallel_num=self.data_parallel_num,
             data_parallel_index=self.data_parallel_index,
         )
@@ -542,8 +543,7 @@ class _RangeNodeIterator(_GEIterator):
 
         last = self.first + self.batch_size * self.data_parallel_num
         res = np.arange(self.first, last, step=self.data_parallel_num)
-        if last > self.last:
-            res[(self.last - self.first) // self.data_parallel_num :] = self.backfill_id
+        res[res >= self.last] = self.backfill_id
 
         self.first += self.num_workers * self.batch_size * self.data_parallel_num
         return res
@@ -572,13 +572,21 @@ class RangeNodeSampler(BaseSampler):
             data_parallel_index=data_parallel_index,
             data_parallel_num=data_parallel_num,
         )
-        self.start_id = first + worker_index * batch_size
+        assert first + worker_index * batch_size < last
+        self.first = first
         self.last = last
-        assert self.start_id < self.last
+        self.worker_index = worker_index
         self.batch_size = batch_size
         self.num_workers = num_workers
         self.backfill_id = backfill_id
 
+    @property
+    def start_id(self) -> int:
+        """Return first id of the worker, every batch takes ids for all data parallel replicas."""
+        return (
+            self.first + self.worker_index * self.batch_size * self.data_parallel_num
+        )
+
     def __iter__(self) -> _RangeNodeIterator:
         """Return a new range iterator."""
         return _RangeNodeIterator(
-- 
2.43.0


From 3e0b7cd93f311267ed89417fd971f6ee5688227d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:25:25 +0000
Subject: [PATCH 16/57] fix: download all graph files or fail

Timestamp files and partitions on a second remote store were left out. A listing error was taken for an empty folder.
---
 .../deepgnn/graph_engine/snark/_downloader.py | 85 ++++++++-----------
 1 file changed, 34 insertions(+), 51 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/_downloader.py b/src/python/deepgnn/graph_engine/snark/_downloader.py
index 6b84c13..68ddea8 100644
--- a/src/python/deepgnn/graph_engine/snark/_downloader.py
+++ b/src/python/deepgnn/graph_engine/snark/_downloader.py
@@ -4,6 +4,7 @@
 """Downoad graph data to a temporary folder."""
 from typing import List, Union, Tuple
 import tempfile
+from fnmatch import fnmatchcase
 
 from deepgnn.graph_engine._base import get_fs
 from fsspec.implementations.local import LocalFileSystem
@@ -39,64 +40,46 @@ def download_graph_data(path: str, partitions: List[Tuple[str, int]]) -> GraphPa
     data_path = tempfile.TemporaryDirectory(suffix="_snark")
     fs.get(mt._get_meta_path(path, fs.sep), mt._get_meta_path(data_path.name))
     graph_meta = mt.Meta(data_path.name)
-    lpath = []
-    for i in range(len(partitions)):
-        partition_path, partition_index = partitions[i]
+    local_partitions = list(partitions)
+    for i, (partition_path, partition_index) in enumerate(partitions):
         fs, _ = get_fs(partition_path)
         if isinstance(fs, LocalFileSystem):
             continue
 
-        lpath.append(mt._get_node_map_path(partition_path, partition_index, -1, fs.sep))
-        lpath.append(
-            mt._get_neighbors_index_path(partition_path, partition_index, -1, fs.sep)
-        )
-        lpath.append(
-            mt._get_element_index_path(
-                mt._Element.NODE, partition_path, partition_index, -1, fs.sep
-            )
-        )
-        lpath.append(
-            mt._get_element_index_path(
-                mt._Element.EDGE, partition_path, partition_index, -1, fs.sep
-            )
-        )
-        if graph_meta._node_feature_count > 0:
-            lpath.append(
-                mt._get_element_features_data_path(
-                    mt._Element.NODE, partition_path, partition_index, -1, fs.sep
-                )
-            )
-            lpath.append(
-                mt._get_element_features_index_path(
-                    mt._Element.NODE, partition_path, partition_index, -1, fs.sep
-                )
-            )
-        if graph_meta._edge_feature_count > 0:
-            lpath.append(
-                mt._get_element_features_data_path(
-                    mt._Element.EDGE, partition_path, partition_index, -1, fs.sep
-                )
-            )
-            lpath.append(
-                mt._get_element_features_index_path(
-                    mt._Element.EDGE, partition_path, partition_index, -1, fs.sep
+        required = [
+            mt._get_node_map_path(partition_path, partition_index, -1, fs.sep),
+            mt._get_neighbors_index_path(partition_path, partition_index, -1, fs.sep),
+        ]
+        # Alias tables and timestamps might not be created.
+        optional = []
+        for element, feature_count in (
+            (mt._Element.NODE, graph_meta._node_feature_count),
+            (mt._Element.EDGE, graph_meta._edge_feature_count),
+        ):
+            args = (element, partition_path, partition_index, -1, fs.sep)
+            required.append(mt._get_element_index_path(*args))
+            if feature_count > 0:
+                required.append(mt._get_element_features_data_path(*args))
+                required.append(mt._get_element_features_index_path(*args))
+            optional.append(mt._get_element_timestamps_path(*args))
+            optional.append(
+                mt._get_element_alias_path(
+                    element, partition_path, -1, partition_index, fs.sep
                 )
             )
 
-        # Use pattern matching to skip downloading alias tables if they were not created
-        lpath.append(
-            mt._get_element_alias_path(
-                mt._Element.NODE, partition_path, -1, partition_index, fs.sep
-            )
-        )
-
-        lpath.append(
-            mt._get_element_alias_path(
-                mt._Element.EDGE, partition_path, -1, partition_index, fs.sep
-            )
-        )
+        # List files explicitly, pattern matching in fsspec omits files if listing fails.
+        files = fs.ls(partition_path, detail=False)
+        lpath = []
+        for pattern in required + optional:
+            name_pattern = pattern.split(fs.sep)[-1]
+            matches = [f for f in files if fnmatchcase(f.split(fs.sep)[-1], name_pattern)]
+            if len(matches) == 0 and pattern in required:
+                raise FileNotFoundError(f"No files matching {pattern}")
+            lpath.extend(matches)
 
-        partitions[i] = (data_path.name, partition_index)
+        fs.get(lpath, data_path.name)
+        local_partitions[i] = (data_path.name, partition_index)
 
-    fs.get(lpath, data_path.name)
+    partitions[:] = local_partitions
     return GraphPath(data_path)
-- 
2.43.0


From 1b151cac351b02e8f52020067f3ef7a14d873dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:25:41 +0000
Subject: [PATCH 17/57] fix: read feature data into memory storage in release
 builds

The read was inside an assert, so builds without asserts served zeros.
---
 src/cc/lib/graph/storage.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/storage.h b/src/cc/lib/graph/storage.h
index 2699159..1fe324d 100644
--- a/src/cc/lib/graph/storage.h
+++ b/src/cc/lib/graph/storage.h
@@ -85,7 +85,11 @@ template <typename T> struct MemoryStorage : BaseStorage<T>
         m_data.resize(size);
 
         snark::platform_fseek(file_ptr, 0L, SEEK_SET);
-        assert(size == fread(m_data.data(), 1, size, file_ptr) && "Failed to read node features data");
+        // Don't read inside an assert: it is compiled out in release builds.
+        if (size != fread(m_data.data(), 1, size, file_ptr))
+        {
+            m_logger->log_fatal("Failed to read features data");
+        }
 
         fclose(file_ptr);
     }
-- 
2.43.0


From 0a7aeed6429f26a26a3082b066f8a8d4c9b382c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:28:12 +0000
Subject: [PATCH 18/57] fix: do not copy from a vector while appending to it
 when a server loads its node map

The indices of a node found in several partitions were read from released memory after a reallocation.
---
 src/cc/lib/distributed/graph_engine.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/distributed/graph_engine.cc b/src/cc/lib/distributed/graph_engine.cc
index dd75504..5219a89 100644
--- a/src/cc/lib/distributed/graph_engine.cc
+++ b/src/cc/lib/distributed/graph_engine.cc
@@ -763,11 +763,16 @@ void GraphEngineServiceImpl::ReadNodeMap(std::filesystem::path path, std::string
             auto old_count = m_counts[old_offset];
             m_node_map[pair[0]] = m_internal_indices.size();
 
-            std::copy_n(std::begin(m_internal_indices) + old_offset, old_count, std::back_inserter(m_internal_indices));
+            // Resize before copying: appending may reallocate and invalidate the source iterators.
+            const auto old_size = m_internal_indices.size();
+            m_internal_indices.resize(old_size + old_count);
+            std::copy_n(std::begin(m_internal_indices) + old_offset, old_count,
+                        std::begin(m_internal_indices) + old_size);
             m_internal_indices.emplace_back(pair[1]);
 
+            m_partitions_indices.resize(old_size + old_count);
             std::copy_n(std::begin(m_partitions_indices) + old_offset, old_count,
-                        std::back_inserter(m_partitions_indices));
+                        std::begin(m_partitions_indices) + old_size);
             m_partitions_indices.emplace_back(index);
 
             std::fill_n(std::back_inserter(m_counts), old_count + 1, old_count + 1);
-- 
2.43.0


From a334053ba8b42bc6221c9b2560d7249eaa0959b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:31:36 +0000
Subject: [PATCH 19/57] fix: do not skip an edge type when a lower one is
 requested but absent

---
 src/cc/lib/graph/partition.cc | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index e8da9aa..2702228 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -666,22 +666,14 @@ size_t NeighborIndexIterator(uint64_t internal_id, std::optional<Timestamp> node
 
     size_t result = 0;
     size_t curr_type = 0;
-    for (size_t i = offset; i < offset + nb_count; ++i)
+    for (size_t i = offset; i < offset + nb_count && curr_type < edge_types.size();)
     {
-        for (; curr_type < edge_types.size() && edge_types[curr_type] < m_edge_types[i]; ++curr_type)
-        {
-        }
-        if (curr_type == edge_types.size())
-        {
-            break;
-        }
-        for (; i < offset + nb_count && edge_types[curr_type] > m_edge_types[i]; ++i)
+        if (edge_types[curr_type] < m_edge_types[i])
         {
+            ++curr_type;
+            continue;
         }
-        if (i == offset + nb_count)
-        {
-            break;
-        }
+
         // Find satisfying edge type, if exists
         if (m_edge_types[i] == edge_types[curr_type])
         {
@@ -691,6 +683,7 @@ size_t NeighborIndexIterator(uint64_t internal_id, std::optional<Timestamp> node
             result += last - start;
             func(start, last, i);
         }
+        ++i;
     }
     return result;
 }
-- 
2.43.0


From 22a3ee9cf9b6bb67df7550fb89c94c655d8475e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:31:36 +0000
Subject: [PATCH 20/57] fix: do not read an empty dense feature from storage

---
 src/cc/lib/graph/partition.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 2702228..45ca69d 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -495,6 +495,13 @@ void Partition::GetNodeFeature(uint64_t internal_id, std::optional<Timestamp> no
         Timestamp feature_ts = 0;
         auto data_offset = m_node_feature_index[feature_index_offset + feature_id];
         auto stored_size = m_node_feature_index[feature_index_offset + feature_id + 1] - data_offset;
+        // Check if the feature is empty
+        if (stored_size == 0)
+        {
+            curr += feature_size;
+            continue;
+        }
+
         if (node_ts.has_value())
         {
             std::tie(data_offset, stored_size, feature_ts) =
@@ -965,6 +972,13 @@ void Partition::GetEdgeFeature(uint64_t internal_src_node_id, NodeId input_edge_
 
         auto data_offset = m_edge_feature_index[feature_index_offset + f_id];
         auto stored_size = m_edge_feature_index[feature_index_offset + f_id + 1] - data_offset;
+        // Check if the feature is empty
+        if (stored_size == 0)
+        {
+            curr = std::fill_n(curr, f_size, 0);
+            continue;
+        }
+
         Timestamp feature_ts = 0;
 
         if (edge_ts.has_value())
-- 
2.43.0


From 08994088753263bc2e3b96c09af30bad63c1116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:31:36 +0000
Subject: [PATCH 21/57] fix: string features of edges without stored features
 are empty

---
 src/cc/lib/graph/partition.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 45ca69d..7f4c230 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -1060,7 +1060,7 @@ void Partition::GetEdgeStringFeature(uint64_t internal_src_node_id, NodeId input
 
     auto file_ptr = m_edge_features->start();
     auto has_edge_features = EdgeFeatureOffset(internal_src_node_id, input_edge_dst, input_edge_type);
-    if (!has_edge_features.has_value())
+    if (!has_edge_features.has_value() || m_edge_feature_offset.empty() || m_edge_feature_index.empty())
     {
         return;
     }
-- 
2.43.0


From 2249d22c03bf7698592822116cffc771c07c692c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:31:36 +0000
Subject: [PATCH 22/57] fix: count and sample only edges present at the
 requested time

---
 src/cc/lib/graph/partition.cc | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 7f4c230..b2e21c9 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -698,37 +698,24 @@ size_t NeighborIndexIterator(uint64_t internal_id, std::optional<Timestamp> node
 namespace
 {
 
-auto find_start(const std::span<const std::pair<Timestamp, Timestamp>> &range, Timestamp ts)
+// Edges are ordered by creation time, so edges removed early are mixed with edges still present.
+bool is_alive(const std::pair<Timestamp, Timestamp> &interval, Timestamp ts)
 {
-    if (range.empty())
-    {
-        return std::end(range);
-    }
-
-    if (range.front().first <= ts && (range.front().second > ts || range.front().second == -1))
-    {
-        return std::begin(range);
-    }
+    return interval.first <= ts && (interval.second > ts || interval.second == -1);
+}
 
-    ts = std::max(ts, range.front().second);
-    return std::lower_bound(
-        std::begin(range), std::end(range), ts,
-        [](const std::pair<Timestamp, Timestamp> &a, int x) { return a.second != -1 && a.second <= x; });
+auto find_start(const std::span<const std::pair<Timestamp, Timestamp>> &range, Timestamp ts)
+{
+    return std::find_if(std::begin(range), std::end(range),
+                        [ts](const std::pair<Timestamp, Timestamp> &a) { return is_alive(a, ts); });
 }
 
 using cspan_it = std::span<const std::pair<Timestamp, Timestamp>>::iterator;
 
 cspan_it find_last(const std::span<const std::pair<Timestamp, Timestamp>> &range, Timestamp ts)
 {
-    if (range.front().first > ts)
-    {
-        return std::begin(range);
-    }
-
-    auto last = range.front().second;
-    return std::upper_bound(
-        std::begin(range), std::end(range), ts,
-        [last](Timestamp ts, const std::pair<Timestamp, Timestamp> &a) { return a.second > last || a.first > ts; });
+    return std::find_if(std::begin(range), std::end(range),
+                        [ts](const std::pair<Timestamp, Timestamp> &a) { return !is_alive(a, ts); });
 }
 
 } // anonymous namespace
@@ -1542,6 +1529,7 @@ void Partition::UniformSampleNeighborWithoutReplacement(bool return_edge_created
                 const auto local_pos =
                     size_t((lst - std::begin(it_subspan)) + it_dist); // equivavlent of lst - std::begin(timestamp_span)
                 timestamp_span = timestamp_span.subspan(local_pos);
+                first += local_pos;
             }
         }
         else
-- 
2.43.0


From 64fdc583f23bb9087cfacc76ef95c1ca519b0f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:31:36 +0000
Subject: [PATCH 23/57] fix: last created neighbors leave out edges removed at
 the requested time

---
 src/cc/lib/graph/partition.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index b2e21c9..7496555 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -828,7 +828,7 @@ size_t Partition::LastNCreatedNeighbors(bool return_edge_created_ts, uint64_t in
         for (size_t index = start; index < last; ++index)
         {
             auto &ts = m_edge_timestamps[index];
-            if ((ts.second != -1 && ts.second < timestamp) || ts.first > timestamp)
+            if ((ts.second != -1 && ts.second <= timestamp) || ts.first > timestamp)
             {
                 continue;
             }
-- 
2.43.0


From e0ad46692a3e99bea5d290a6cdff95a0dc4003d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:36:05 +0000
Subject: [PATCH 24/57] fix: sample all requested edge types when a lower one
 is absent

---
 src/cc/lib/graph/partition.cc | 77 ++++++++++++-----------------------
 1 file changed, 27 insertions(+), 50 deletions(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 7496555..348d94f 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -1093,6 +1093,31 @@ void Partition::GetEdgeStringFeature(uint64_t internal_src_node_id, NodeId input
     }
 }
 
+// Advance neighbor_type_index(for edges coming out of the current node) and in_edge_type_index(requested edge
+// types) until underlying types match.
+bool advance_edge_types(size_t &in_edge_type_index, size_t &neighbor_type_index,
+                        const std::span<const Type> &in_edge_types, const std::vector<Type> &neighbor_types,
+                        size_t last_type)
+{
+    while (in_edge_type_index < in_edge_types.size() && neighbor_type_index < last_type)
+    {
+        if (in_edge_types[in_edge_type_index] < neighbor_types[neighbor_type_index])
+        {
+            ++in_edge_type_index;
+        }
+        else if (in_edge_types[in_edge_type_index] > neighbor_types[neighbor_type_index])
+        {
+            ++neighbor_type_index;
+        }
+        else
+        {
+            return true;
+        }
+    }
+
+    return false;
+}
+
 void Partition::SampleNeighbor(bool return_edge_created_ts, int64_t seed, uint64_t internal_node_id,
                                std::optional<Timestamp> node_ts, std::span<const Type> in_edge_types, uint64_t count,
                                std::span<NodeId> out_nodes, std::span<Type> out_types, std::span<float> out_weights,
@@ -1127,17 +1152,7 @@ void Partition::SampleNeighbor(bool return_edge_created_ts, int64_t seed, uint64
     const auto last_type = offset + nb_count;
     for (size_t i = offset; i < last_type; ++i)
     {
-        for (; curr_type < in_edge_types.size() && in_edge_types[curr_type] < m_edge_types[i]; ++curr_type)
-        {
-        }
-        if (curr_type == in_edge_types.size())
-        {
-            break;
-        }
-        for (; i < last_type && in_edge_types[curr_type] > m_edge_types[i]; ++i)
-        {
-        }
-        if (i == last_type)
+        if (!advance_edge_types(curr_type, i, in_edge_types, m_edge_types, last_type))
         {
             break;
         }
@@ -1209,18 +1224,7 @@ void Partition::SampleNeighbor(bool return_edge_created_ts, int64_t seed, uint64
     const auto overwrite_rate = total_weight / out_partition;
     for (size_t i = offset; i < offset + nb_count; ++i)
     {
-        for (; curr_type < in_edge_types.size() && in_edge_types[curr_type] < m_edge_types[i]; ++curr_type)
-        {
-        }
-        if (curr_type == in_edge_types.size())
-        {
-            break;
-        }
-
-        for (; i < last_type && in_edge_types[curr_type] > m_edge_types[i]; ++i)
-        {
-        }
-        if (i == last_type)
+        if (!advance_edge_types(curr_type, i, in_edge_types, m_edge_types, last_type))
         {
             break;
         }
@@ -1363,33 +1367,6 @@ void Partition::UniformSampleNeighbor(bool without_replacement, bool return_edge
     }
 }
 
-// Advance neighbor_type_index(for edges coming out of the current node) and in_edge_type_index(requested edge
-// types) until underlying types match.
-bool advance_edge_types(size_t &in_edge_type_index, size_t &neighbor_type_index,
-                        const std::span<const Type> &in_edge_types, const std::vector<Type> &neighbor_types,
-                        size_t last_type)
-{
-    for (; in_edge_type_index < in_edge_types.size() &&
-           in_edge_types[in_edge_type_index] < neighbor_types[neighbor_type_index];
-         ++in_edge_type_index)
-    {
-    }
-    if (in_edge_type_index == in_edge_types.size())
-    {
-        return false;
-    }
-    for (; neighbor_type_index < last_type && in_edge_types[in_edge_type_index] > neighbor_types[neighbor_type_index];
-         ++neighbor_type_index)
-    {
-    }
-    if (neighbor_type_index >= last_type)
-    {
-        return false;
-    }
-
-    return neighbor_types[neighbor_type_index] == in_edge_types[in_edge_type_index];
-}
-
 void Partition::UniformSampleNeighborWithReplacement(bool return_edge_created_ts, uint64_t internal_id,
                                                      std::optional<Timestamp> node_ts,
                                                      std::span<const Type> in_edge_types, uint64_t count,
-- 
2.43.0


From 9bf53c2506282bec18e5a1d2620782a0c6647e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:38:27 +0000
Subject: [PATCH 25/57] fix: do not write past creation times when a node has
 more neighbors than requested

---
 src/cc/lib/graph/graph.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/graph/graph.cc b/src/cc/lib/graph/graph.cc
index 95de988..576fe41 100644
--- a/src/cc/lib/graph/graph.cc
+++ b/src/cc/lib/graph/graph.cc
@@ -538,8 +538,9 @@ void Graph::UniformSampleNeighbor(bool without_replacement, bool return_edge_cre
 
             if (fill_edge_ts_by_partition)
             {
-                std::fill(std::begin(out_nb_ts) + (timestamps.empty() ? 0 : neighbors_total_count[node_index]),
-                          std::end(out_nb_ts), snark::PLACEHOLDER_TIMESTAMP);
+                const size_t filled = std::min<size_t>(count, neighbors_total_count[node_index]);
+                std::fill(std::begin(out_nb_ts) + (timestamps.empty() ? 0 : filled), std::end(out_nb_ts),
+                          snark::PLACEHOLDER_TIMESTAMP);
             }
         }
     }
-- 
2.43.0


From aa33df4eda4f2c2ef4a603ca760f699cae584e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:43:52 +0000
Subject: [PATCH 26/57] fix: wait for replies of all servers before reporting a
 failed call

---
 src/cc/lib/distributed/client.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cc/lib/distributed/client.cc b/src/cc/lib/distributed/client.cc
index 0299b09..4fe9cbc 100644
--- a/src/cc/lib/distributed/client.cc
+++ b/src/cc/lib/distributed/client.cc
@@ -48,6 +48,11 @@ struct AsyncClientCall
 
 void WaitForFutures(std::vector<std::future<void>> &futures)
 {
+    // Calls write to the stack of the caller, so all of them have to complete before an error is reported.
+    for (auto &f : futures)
+    {
+        f.wait();
+    }
     for (auto &f : futures)
     {
         f.get();
-- 
2.43.0


From e50a28f343e3c3d96b0e622730aae5f9d0868290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:45:09 +0000
Subject: [PATCH 27/57] fix: report a failed request for last created neighbors
 instead of terminating

---
 src/cc/lib/py_graph.cc | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index d92d181..9625405 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -857,25 +857,25 @@ int32_t LastNCreatedNeighbor(PyGraph *py_graph, bool return_edge_created_ts, Nod
         return 0;
     }
 
-    // try
-    // {
-    py_graph->graph->client->LastNCreated(
-        return_edge_created_ts, std::span(reinterpret_cast<snark::NodeId *>(in_node_ids), in_node_ids_size),
-        std::span(reinterpret_cast<snark::Type *>(in_edge_types), in_edge_types_size),
-        std::span(reinterpret_cast<snark::Timestamp *>(timestamps), in_node_ids_size), count,
-        std::span(reinterpret_cast<snark::NodeId *>(out_neighbor_ids), out_size),
-        std::span(reinterpret_cast<snark::Type *>(out_types), out_size),
-        std::span(reinterpret_cast<float *>(out_weights), out_size),
-        std::span(reinterpret_cast<Timestamp *>(out_timestamps), out_size), default_node_id, default_weight,
-        default_edge_type, default_timestamp);
+    try
+    {
+        py_graph->graph->client->LastNCreated(
+            return_edge_created_ts, std::span(reinterpret_cast<snark::NodeId *>(in_node_ids), in_node_ids_size),
+            std::span(reinterpret_cast<snark::Type *>(in_edge_types), in_edge_types_size),
+            std::span(reinterpret_cast<snark::Timestamp *>(timestamps), in_node_ids_size), count,
+            std::span(reinterpret_cast<snark::NodeId *>(out_neighbor_ids), out_size),
+            std::span(reinterpret_cast<snark::Type *>(out_types), out_size),
+            std::span(reinterpret_cast<float *>(out_weights), out_size),
+            std::span(reinterpret_cast<Timestamp *>(out_timestamps), out_size), default_node_id, default_weight,
+            default_edge_type, default_timestamp);
 
-    return 0;
-    // }
-    // catch (const std::exception &e)
-    // {
-    //     RAW_LOG_ERROR("Exception while selecting last n created neighbors: %s", e.what());
-    //     return 1;
-    // }
+        return 0;
+    }
+    catch (const std::exception &e)
+    {
+        RAW_LOG_ERROR("Exception while selecting last n created neighbors: %s", e.what());
+        return 1;
+    }
 }
 
 // Expected length of out_node_ids buffer is (walk_length + 1) * in_node_ids_size
-- 
2.43.0


From d531f82137e5f4fc99a6538b1ce0c3f2aa3493d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:45:09 +0000
Subject: [PATCH 28/57] fix: report a failed connection instead of terminating

---
 src/cc/lib/py_graph.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index 9625405..f92c991 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -306,10 +306,19 @@ int32_t CreateRemoteClient(PyGraph *py_graph, const char *output_folder, const c
         channels.emplace_back(grpc::CreateCustomChannel(connection[i], creds, args));
     }
 
-    py_graph->graph->client =
-        std::make_unique<snark::GRPCClient>(std::move(channels), uint32_t(num_threads), uint32_t(num_threads_per_cq));
-    py_graph->graph->client->WriteMetadata(output_folder);
-    return 0;
+    try
+    {
+        py_graph->graph->client = std::make_unique<snark::GRPCClient>(std::move(channels), uint32_t(num_threads),
+                                                                      uint32_t(num_threads_per_cq));
+        py_graph->graph->client->WriteMetadata(output_folder);
+        return 0;
+    }
+    catch (const std::exception &e)
+    {
+        RAW_LOG_ERROR("Exception while connecting to servers: %s", e.what());
+        py_graph->graph.reset();
+        return 1;
+    }
 }
 
 std::vector<snark::FeatureMeta> ExtractFeatureInfo(Feature *features, size_t features_size)
-- 
2.43.0


From 2f681372879e4796f8281500886d13f22aaa6d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:45:09 +0000
Subject: [PATCH 29/57] fix: a random walk fails when neighbors cannot be
 fetched

---
 src/cc/lib/py_graph.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index f92c991..17ec2ce 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -944,8 +944,11 @@ int32_t RandomWalk(PyGraph *py_graph, int64_t seed, float p, float q, NodeID def
         weights.resize(0);
         types.resize(0);
         edge_created_ts.resize(0);
-        GetNeighborsInternal(py_graph, false, curr_nodes.data(), curr_nodes.size(), timestamps, in_edge_types,
-                             in_edge_types_size, curr_counts.data(), neighbors, types, weights, edge_created_ts);
+        if (GetNeighborsInternal(py_graph, false, curr_nodes.data(), curr_nodes.size(), timestamps, in_edge_types,
+                                 in_edge_types_size, curr_counts.data(), neighbors, types, weights, edge_created_ts))
+        {
+            return 1;
+        }
         size_t nb_offset = 0;
         for (size_t index = 0; index < in_node_ids_size; ++index)
         {
-- 
2.43.0


From 46d3f9d380218fb9dd4ee09782d729acb9c4a169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:45:09 +0000
Subject: [PATCH 30/57] fix: personalized page rank fails when neighbors cannot
 be fetched

---
 src/cc/lib/py_graph.cc | 43 ++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index 17ec2ce..5eaaae0 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -1054,8 +1054,8 @@ typedef struct
 } NB_Count_Cache;
 
 // Cache neighbor counts for each node in the input list.
-void lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache, const std::vector<NodeID> &neighbors,
-                            Type *in_edge_types, size_t in_edge_types_size, Timestamp *timestamps)
+int32_t lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache, const std::vector<NodeID> &neighbors,
+                               Type *in_edge_types, size_t in_edge_types_size, Timestamp *timestamps)
 {
     assert(cache.node_ids.empty());
     assert(cache.counts.empty());
@@ -1092,14 +1092,17 @@ void lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache, const std:
 
     if (cache.node_ids.empty())
     {
-        return;
+        return 0;
     }
 
     const size_t request_nodes_size = cache.node_ids.size();
     cache.counts.resize(request_nodes_size);
-    NeighborCount(py_graph, cache.node_ids.data(), request_nodes_size,
-                  timestamps == nullptr ? timestamps : cache.timestamps.data(), in_edge_types, in_edge_types_size,
-                  cache.counts.data());
+    if (NeighborCount(py_graph, cache.node_ids.data(), request_nodes_size,
+                      timestamps == nullptr ? timestamps : cache.timestamps.data(), in_edge_types, in_edge_types_size,
+                      cache.counts.data()))
+    {
+        return 1;
+    }
     for (size_t i = 0; i < request_nodes_size; ++i)
     {
         const auto timestamp = timestamps == nullptr ? -1 : timestamps[i];
@@ -1109,12 +1112,13 @@ void lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache, const std:
     cache.node_ids.clear();
     cache.counts.clear();
     cache.nb_index.clear();
+    return 0;
 }
 
 // Cache neighbor lists for each node in the input list.
-void lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
-                           absl::flat_hash_set<std::pair<NodeID, Timestamp>> input, Type *in_edge_types,
-                           size_t in_edge_types_size, Timestamp *timestamps)
+int32_t lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
+                              absl::flat_hash_set<std::pair<NodeID, Timestamp>> input, Type *in_edge_types,
+                              size_t in_edge_types_size, Timestamp *timestamps)
 {
     assert(cache.node_ids.empty());
     for (auto node_ts : input)
@@ -1134,9 +1138,12 @@ void lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
     if (!cache.node_ids.empty())
     {
         cache.nb_counts.resize(cache.node_ids.size());
-        GetNeighborsInternal(py_graph, false, cache.node_ids.data(), cache.node_ids.size(), mutable_timestamps,
-                             in_edge_types, in_edge_types_size, cache.nb_counts.data(), cache.nb_ids, cache.nb_types,
-                             cache.nb_weights, cache.edge_created_ts);
+        if (GetNeighborsInternal(py_graph, false, cache.node_ids.data(), cache.node_ids.size(), mutable_timestamps,
+                                 in_edge_types, in_edge_types_size, cache.nb_counts.data(), cache.nb_ids,
+                                 cache.nb_types, cache.nb_weights, cache.edge_created_ts))
+        {
+            return 1;
+        }
         assert(cache.edge_created_ts.empty());
 
         auto nb_offset = std::begin(cache.nb_ids);
@@ -1162,11 +1169,15 @@ void lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
         cache.nb_ids.emplace_back(nt.first);
     }
 
-    lookup_neighbor_counts(py_graph, cache, cache.nb_ids, in_edge_types, in_edge_types_size, mutable_timestamps);
+    if (lookup_neighbor_counts(py_graph, cache, cache.nb_ids, in_edge_types, in_edge_types_size, mutable_timestamps))
+    {
+        return 1;
+    }
     cache.timestamps.clear();
     cache.nb_types.clear();
     cache.nb_weights.clear();
     cache.nb_ids.clear();
+    return 0;
 }
 
 } // namespace
@@ -1211,7 +1222,11 @@ int32_t PPRSampleNeighbor(PyGraph *py_graph, NodeID *in_node_ids, size_t in_node
                 new_nodes.insert({node_id, timestamps == nullptr ? -1 : timestamps[node_index]});
             }
         }
-        lookup_neighbor_lists(py_graph, nb_cache, std::move(new_nodes), in_edge_types, in_edge_types_size, timestamps);
+        if (lookup_neighbor_lists(py_graph, nb_cache, std::move(new_nodes), in_edge_types, in_edge_types_size,
+                                  timestamps))
+        {
+            return 1;
+        }
         for (size_t node_index = 0; node_index < in_node_ids_size; ++node_index)
         {
             if (q[node_index].empty())
-- 
2.43.0


From d455b203781bc6e35c5fb51c53c5c17d6a89153a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:45:09 +0000
Subject: [PATCH 31/57] fix: personalized page rank looks up every neighbor
 with its own timestamp

---
 src/cc/lib/py_graph.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index 5eaaae0..666b173 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -1164,11 +1164,17 @@ int32_t lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
     cache.node_ids.clear();
     cache.nb_ids.clear();
     cache.nb_ids.reserve(input.size());
+    cache.timestamps.clear();
     for (const auto &nt : input)
     {
         cache.nb_ids.emplace_back(nt.first);
+        if (timestamps != nullptr)
+        {
+            cache.timestamps.emplace_back(nt.second);
+        }
     }
 
+    mutable_timestamps = timestamps == nullptr ? nullptr : cache.timestamps.data();
     if (lookup_neighbor_counts(py_graph, cache, cache.nb_ids, in_edge_types, in_edge_types_size, mutable_timestamps))
     {
         return 1;
-- 
2.43.0


From dc1e364d7aee5b51f16f3d5a00b15cc2d4274a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:04:50 +0000
Subject: [PATCH 32/57] fix: do not write past the output when sampling without
 replacement

---
 src/cc/lib/graph/sampler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/graph/sampler.cc b/src/cc/lib/graph/sampler.cc
index 6fb1904..7f7fc17 100644
--- a/src/cc/lib/graph/sampler.cc
+++ b/src/cc/lib/graph/sampler.cc
@@ -101,7 +101,7 @@ void SamplerImpl<Partition, element>::Sample(int64_t seed, std::span<Type> out_t
             // Make sure we don't sample too little.
             if (left - type_count > m_type_min[i])
             {
-                type_count = m_type_max[i];
+                type_count = std::min(left - m_type_min[i], m_type_max[i]);
             }
         }
 
@@ -121,7 +121,7 @@ void SamplerImpl<Partition, element>::Sample(int64_t seed, std::span<Type> out_t
                 // Make sure we don't sample too little and handle larger than sample size output buffer.
                 if (left_items - item_count > m_partition_min[i][p])
                 {
-                    item_count = m_partition_max[i][p];
+                    item_count = std::min(left_items - m_partition_min[i][p], m_partition_max[i][p]);
                 }
             }
 
-- 
2.43.0


From b63626123a46be66c166cb31287e38206f1764a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:05:18 +0000
Subject: [PATCH 33/57] fix: sample edges with the requested strategy

---
 src/python/deepgnn/graph_engine/snark/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index 58dea18..36db38f 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -84,7 +84,7 @@ class Client(Graph):
         """Return an array of edges with a specified type."""
         assert size > 0
 
-        key = str(edge_types)
+        key = _sampling_map[strategy] + str(edge_types)
         if key not in self.edge_samplers:
             self.edge_samplers[key] = client.EdgeSampler(
                 self.graph, self.__check_types(edge_types), _sampling_map[strategy]
-- 
2.43.0


From eb544b2a7ade47243fcd2eb322d1c50821d0e6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:06:44 +0000
Subject: [PATCH 34/57] fix: sample without replacement from servers no more
 than they have

---
 src/cc/lib/distributed/client.cc | 36 ++++++++++++++++++++++++++++++--
 src/cc/lib/distributed/client.h  |  3 +++
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/distributed/client.cc b/src/cc/lib/distributed/client.cc
index 4fe9cbc..c89cf06 100644
--- a/src/cc/lib/distributed/client.cc
+++ b/src/cc/lib/distributed/client.cc
@@ -889,6 +889,25 @@ void GRPCClient::UniformSampleNeighbor(bool without_replacement, bool return_edg
     }
 }
 
+namespace
+{
+// Keep the number of elements requested from a shard within what this shard and the next ones can return.
+size_t LimitShardCount(size_t count, size_t left, size_t shard, std::span<const size_t> limits)
+{
+    if (limits.empty())
+    {
+        return count;
+    }
+
+    const size_t next_limits = std::accumulate(std::begin(limits) + shard + 1, std::end(limits), size_t(0));
+    if (left > next_limits)
+    {
+        count = std::max(count, left - next_limits);
+    }
+    return std::min(count, limits[shard]);
+}
+} // namespace
+
 uint64_t GRPCClient::CreateSampler(bool is_edge, CreateSamplerRequest_Category category, std::span<Type> types)
 {
     snark::CreateSamplerRequest request;
@@ -921,12 +940,19 @@ uint64_t GRPCClient::CreateSampler(bool is_edge, CreateSamplerRequest_Category c
 
     WaitForFutures(futures);
 
+    std::vector<size_t> sub_sampler_limits;
+    if (category == CreateSamplerRequest_Category_UNIFORM_WITHOUT_REPLACEMENT)
+    {
+        sub_sampler_limits.assign(std::begin(sub_sampler_weights), std::end(sub_sampler_weights));
+    }
+
     // Adjust weights for future sampling.
     conditional_probabilities(sub_sampler_weights);
     std::lock_guard l(m_sampler_mutex);
     uint64_t sampler_id = m_sampler_ids.size();
     m_sampler_ids.emplace_back(std::move(sub_sampler_ids));
     m_sampler_weights.emplace_back(std::move(sub_sampler_weights));
+    m_sampler_limits.emplace_back(std::move(sub_sampler_limits));
     return sampler_id;
 }
 
@@ -941,11 +967,13 @@ void GRPCClient::SampleNodes(int64_t seed, uint64_t sampler_id, std::span<NodeId
 
     std::span<const float> weights;
     std::span<const uint64_t> sampler_ids;
+    std::span<const size_t> limits;
     {
         std::lock_guard l(m_sampler_mutex);
         weights = std::span(m_sampler_weights[sampler_id].data(), m_sampler_stubs.size());
 
         sampler_ids = std::span(m_sampler_ids[sampler_id].data(), m_sampler_stubs.size());
+        limits = std::span(std::as_const(m_sampler_limits[sampler_id]));
     }
 
     snark::Xoroshiro128PlusGenerator gen(seed);
@@ -961,7 +989,8 @@ void GRPCClient::SampleNodes(int64_t seed, uint64_t sampler_id, std::span<NodeId
         }
 
         auto *call = new AsyncClientCall();
-        const size_t element_count = boost::random::binomial_distribution<int32_t>(left, weights[shard])(gen);
+        const size_t element_count = LimitShardCount(
+            boost::random::binomial_distribution<int32_t>(left, weights[shard])(gen), left, shard, limits);
         left -= element_count;
 
         request.set_seed(subseed(gen));
@@ -996,10 +1025,12 @@ void GRPCClient::SampleEdges(int64_t seed, uint64_t sampler_id, std::span<NodeId
 
     std::span<const float> weights;
     std::span<const uint64_t> sampler_ids;
+    std::span<const size_t> limits;
     {
         std::lock_guard l(m_sampler_mutex);
         weights = std::span(m_sampler_weights[sampler_id].data(), m_sampler_stubs.size());
         sampler_ids = std::span(m_sampler_ids[sampler_id].data(), m_sampler_stubs.size());
+        limits = std::span(std::as_const(m_sampler_limits[sampler_id]));
     }
 
     snark::Xoroshiro128PlusGenerator gen(seed);
@@ -1010,7 +1041,8 @@ void GRPCClient::SampleEdges(int64_t seed, uint64_t sampler_id, std::span<NodeId
     for (size_t shard = 0; shard < m_sampler_stubs.size() && left > 0; ++shard)
     {
         auto *call = new AsyncClientCall();
-        const size_t shard_count = boost::random::binomial_distribution<int32_t>(left, weights[shard])(gen);
+        const size_t shard_count = LimitShardCount(
+            boost::random::binomial_distribution<int32_t>(left, weights[shard])(gen), left, shard, limits);
         left -= shard_count;
 
         request.set_seed(subseed(gen));
diff --git a/src/cc/lib/distributed/client.h b/src/cc/lib/distributed/client.h
index 3000450..7a8affc 100644
--- a/src/cc/lib/distributed/client.h
+++ b/src/cc/lib/distributed/client.h
@@ -97,6 +97,9 @@ class GRPCClient final
     std::vector<std::vector<uint64_t>> m_sampler_ids;
     std::vector<std::vector<float>> m_sampler_weights;
 
+    // Number of elements every shard can return, only set for sampling without replacement.
+    std::vector<std::vector<size_t>> m_sampler_limits;
+
     std::function<void()> AsyncCompleteRpc(size_t i);
     grpc::CompletionQueue *NextCompletionQueue();
 
-- 
2.43.0


From c23507d5acd3e0ba01a483a8aa8132d17f2b3c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:07:28 +0000
Subject: [PATCH 35/57] fix: create samplers on servers without partitions

---
 src/cc/lib/graph/sampler.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/cc/lib/graph/sampler.cc b/src/cc/lib/graph/sampler.cc
index 7f7fc17..4ff12ff 100644
--- a/src/cc/lib/graph/sampler.cc
+++ b/src/cc/lib/graph/sampler.cc
@@ -54,7 +54,10 @@ SamplerImpl<Partition, element>::SamplerImpl(std::vector<snark::Type> types,
         // Aggregate max number of elements can be sampled from the remaining partitions.
         // E.g. if there are 3 partitions with 5, 6 and 7 elements, then
         // m_partition_max should be [13, 7, 0]
-        std::partial_sum(last, last + m_partition_max.back().size() - 1, m_partition_min.back().rbegin() + 1);
+        if (!m_partition_max.back().empty())
+        {
+            std::partial_sum(last, last + m_partition_max.back().size() - 1, m_partition_min.back().rbegin() + 1);
+        }
 
         m_type_weights.emplace_back(total_weight);
         m_type_max.emplace_back(total_weight);
@@ -66,7 +69,10 @@ SamplerImpl<Partition, element>::SamplerImpl(std::vector<snark::Type> types,
     auto last = m_type_max.rbegin();
 
     // Similar calculation as for partiotion, but for types.
-    std::partial_sum(last, last + m_type_max.size() - 1, m_type_min.rbegin() + 1);
+    if (!m_type_max.empty())
+    {
+        std::partial_sum(last, last + m_type_max.size() - 1, m_type_min.rbegin() + 1);
+    }
 }
 
 // First find out how many element of a specific type to sample with
@@ -76,7 +82,7 @@ SamplerImpl<Partition, element>::SamplerImpl(std::vector<snark::Type> types,
 template <typename Partition, SamplerElement element>
 void SamplerImpl<Partition, element>::Sample(int64_t seed, std::span<Type> out_types, std::span<NodeId> out, ...) const
 {
-    if (m_partitions.empty())
+    if (m_partitions.empty() || m_partitions.front()->empty())
     {
         return;
     }
-- 
2.43.0


From 1104827a3cf8d4c3cf26875214be4e195cf8f86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:13:48 +0000
Subject: [PATCH 36/57] fix: do not serve data of a failed read from disk
 storage

---
 src/cc/lib/graph/storage.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/storage.h b/src/cc/lib/graph/storage.h
index 1fe324d..9fc3db1 100644
--- a/src/cc/lib/graph/storage.h
+++ b/src/cc/lib/graph/storage.h
@@ -325,7 +325,11 @@ template <typename T> struct DiskStorage final : BaseStorage<T>
 
         snark::platform_fseek(file_ptr, offset, SEEK_SET);
 
-        output_ptr += fread(&(*output_ptr), sizeof(T), size, file_ptr);
+        if (size != fread(&(*output_ptr), sizeof(T), size, file_ptr))
+        {
+            m_logger->log_fatal("Failed to read data from file");
+        }
+        output_ptr += size;
 
         return output_ptr;
     }
-- 
2.43.0


From 418165337a46ea418b58ae42353a1d547a99f615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:15:28 +0000
Subject: [PATCH 37/57] fix: a server reports requests for unknown samplers
 instead of crashing

---
 src/cc/lib/distributed/graph_sampler.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cc/lib/distributed/graph_sampler.cc b/src/cc/lib/distributed/graph_sampler.cc
index 6bc2321..1f4f16d 100644
--- a/src/cc/lib/distributed/graph_sampler.cc
+++ b/src/cc/lib/distributed/graph_sampler.cc
@@ -79,6 +79,11 @@ grpc::Status GraphSamplerServiceImpl::Sample(::grpc::ServerContext *context, con
     snark::Sampler *sampler;
     {
         std::lock_guard l(m_mutex);
+        // Clients might use samplers they created before server restarted.
+        if (request->sampler_id() >= m_samplers.size())
+        {
+            return grpc::Status(grpc::StatusCode::FAILED_PRECONDITION, "Unknown sampler");
+        }
         sampler = m_samplers[request->sampler_id()].get();
     }
 
-- 
2.43.0


From ddf0566b4cdc40695316b9d743fde056abeb339f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:15:37 +0000
Subject: [PATCH 38/57] fix: a server sends the status of every call to the
 client

---
 src/cc/lib/distributed/call_data.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/cc/lib/distributed/call_data.cc b/src/cc/lib/distributed/call_data.cc
index ac46389..d9fcba1 100644
--- a/src/cc/lib/distributed/call_data.cc
+++ b/src/cc/lib/distributed/call_data.cc
@@ -62,9 +62,9 @@ void EdgeFeaturesCallData::Proceed()
     else if (m_status == PROCESS)
     {
         new EdgeFeaturesCallData(m_service, m_cq, m_service_impl);
-        m_service_impl.GetEdgeFeatures(&m_ctx, &m_request, &m_reply);
+        const auto status = m_service_impl.GetEdgeFeatures(&m_ctx, &m_request, &m_reply);
         m_status = FINISH;
-        m_responder.Finish(m_reply, grpc::Status::OK, this);
+        m_responder.Finish(m_reply, status, this);
     }
     else
     {
@@ -233,9 +233,9 @@ void CreateSamplerCallData::Proceed()
     else if (m_status == PROCESS)
     {
         new CreateSamplerCallData(m_service, m_cq, m_service_impl);
-        m_service_impl.Create(&m_ctx, &m_request, &m_reply);
+        const auto status = m_service_impl.Create(&m_ctx, &m_request, &m_reply);
         m_status = FINISH;
-        m_responder.Finish(m_reply, grpc::Status::OK, this);
+        m_responder.Finish(m_reply, status, this);
     }
     else
     {
@@ -261,9 +261,9 @@ void SampleElementsCallData::Proceed()
     else if (m_status == PROCESS)
     {
         new SampleElementsCallData(m_service, m_cq, m_service_impl);
-        m_service_impl.Sample(&m_ctx, &m_request, &m_reply);
+        const auto status = m_service_impl.Sample(&m_ctx, &m_request, &m_reply);
         m_status = FINISH;
-        m_responder.Finish(m_reply, grpc::Status::OK, this);
+        m_responder.Finish(m_reply, status, this);
     }
     else
     {
@@ -289,9 +289,9 @@ void GetMetadataCallData::Proceed()
     else if (m_status == PROCESS)
     {
         new GetMetadataCallData(m_service, m_cq, m_service_impl);
-        m_service_impl.GetMetadata(&m_ctx, &m_request, &m_reply);
+        const auto status = m_service_impl.GetMetadata(&m_ctx, &m_request, &m_reply);
         m_status = FINISH;
-        m_responder.Finish(m_reply, grpc::Status::OK, this);
+        m_responder.Finish(m_reply, status, this);
     }
     else
     {
@@ -375,9 +375,9 @@ void EdgeSparseFeaturesCallData::Proceed()
     else if (m_status == PROCESS)
     {
         new EdgeSparseFeaturesCallData(m_service, m_cq, m_service_impl);
-        m_service_impl.GetEdgeSparseFeatures(&m_ctx, &m_request, &m_reply);
+        const auto status = m_service_impl.GetEdgeSparseFeatures(&m_ctx, &m_request, &m_reply);
         m_status = FINISH;
-        m_responder.Finish(m_reply, grpc::Status::OK, this);
+        m_responder.Finish(m_reply, status, this);
     }
     else
     {
@@ -433,9 +433,9 @@ void EdgeStringFeaturesCallData::Proceed()
     else if (m_status == PROCESS)
     {
         new EdgeStringFeaturesCallData(m_service, m_cq, m_service_impl);
-        m_service_impl.GetEdgeStringFeatures(&m_ctx, &m_request, &m_reply);
+        const auto status = m_service_impl.GetEdgeStringFeatures(&m_ctx, &m_request, &m_reply);
         m_status = FINISH;
-        m_responder.Finish(m_reply, grpc::Status::OK, this);
+        m_responder.Finish(m_reply, status, this);
     }
     else
     {
-- 
2.43.0


From e468ecb857013c297a861f12bce8d8de220f0337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:18:26 +0000
Subject: [PATCH 39/57] fix: do not release a callback of a native call in
 progress

---
 src/python/deepgnn/graph_engine/snark/client.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index c82129b..877cb63 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -86,6 +86,13 @@ class _DEEP_GRAPH(Structure):
 
 
 class _ErrCallback:
+    # ctypes doesn't hold a reference to the callback of a call in progress, so
+    # callbacks have to outlive new clients and samplers describing functions again.
+    _callbacks: Dict[str, "_ErrCallback"] = {}
+
+    def __new__(cls, method: str):
+        return cls._callbacks.setdefault(method, super().__new__(cls))
+
     def __init__(self, method: str):
         self.method = method
 
-- 
2.43.0


From 312331e0881ed9ff9650cbaab8442bc4cfd618e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:19:51 +0000
Subject: [PATCH 40/57] fix: do not release a callback of a server call in
 progress

---
 src/python/deepgnn/graph_engine/snark/server.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/snark/server.py b/src/python/deepgnn/graph_engine/snark/server.py
index a4ef3fb..93b3773 100644
--- a/src/python/deepgnn/graph_engine/snark/server.py
+++ b/src/python/deepgnn/graph_engine/snark/server.py
@@ -26,6 +26,13 @@ class _SERVER(Structure):
 
 
 class _ErrCallback:
+    # ctypes doesn't hold a reference to the callback of a call in progress, so
+    # callbacks have to outlive other servers describing functions again.
+    _callbacks: Dict[str, "_ErrCallback"] = {}
+
+    def __new__(cls, method: str):
+        return cls._callbacks.setdefault(method, super().__new__(cls))
+
     def __init__(self, method: str):
         self.method = method
 
-- 
2.43.0


From a4d828840af4b66e4e1c99c409a5134ed71ebe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:38:55 +0000
Subject: [PATCH 41/57] fix: do not reuse ids of samplers created before a
 server restart

---
 src/cc/lib/distributed/graph_sampler.cc | 12 +++++++-----
 src/cc/lib/distributed/graph_sampler.h  |  4 ++++
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/cc/lib/distributed/graph_sampler.cc b/src/cc/lib/distributed/graph_sampler.cc
index 1f4f16d..aaff72b 100644
--- a/src/cc/lib/distributed/graph_sampler.cc
+++ b/src/cc/lib/distributed/graph_sampler.cc
@@ -3,6 +3,7 @@
 
 #include "src/cc/lib/distributed/graph_sampler.h"
 #include "src/cc/lib/graph/sampler.h"
+#include <chrono>
 #include <cstdio>
 #include <thread>
 
@@ -11,8 +12,8 @@ namespace snark
 
 GraphSamplerServiceImpl::GraphSamplerServiceImpl(snark::Metadata metadata, std::vector<std::string> partition_paths,
                                                  std::vector<size_t> partition_indices, std::shared_ptr<Logger> logger)
-    : m_metadata(std::move(metadata)), m_partition_indices(std::move(partition_indices)),
-      m_patrition_paths(std::move(partition_paths))
+    : m_first_sampler_id(std::chrono::system_clock::now().time_since_epoch().count()), m_metadata(std::move(metadata)),
+      m_partition_indices(std::move(partition_indices)), m_patrition_paths(std::move(partition_paths))
 {
     if (!logger)
     {
@@ -61,7 +62,7 @@ grpc::Status GraphSamplerServiceImpl::Create(::grpc::ServerContext *context, con
     response->set_weight(sampler->Weight());
     {
         std::lock_guard l(m_mutex);
-        response->set_sampler_id(m_samplers.size());
+        response->set_sampler_id(m_first_sampler_id + m_samplers.size());
         m_samplers.emplace_back(std::move(sampler));
     }
 
@@ -80,11 +81,12 @@ grpc::Status GraphSamplerServiceImpl::Sample(::grpc::ServerContext *context, con
     {
         std::lock_guard l(m_mutex);
         // Clients might use samplers they created before server restarted.
-        if (request->sampler_id() >= m_samplers.size())
+        const auto index = request->sampler_id() - m_first_sampler_id;
+        if (index >= m_samplers.size())
         {
             return grpc::Status(grpc::StatusCode::FAILED_PRECONDITION, "Unknown sampler");
         }
-        sampler = m_samplers[request->sampler_id()].get();
+        sampler = m_samplers[index].get();
     }
 
     const auto count = request->count();
diff --git a/src/cc/lib/distributed/graph_sampler.h b/src/cc/lib/distributed/graph_sampler.h
index 1e08e83..7e9bfbc 100644
--- a/src/cc/lib/distributed/graph_sampler.h
+++ b/src/cc/lib/distributed/graph_sampler.h
@@ -41,6 +41,10 @@ class GraphSamplerServiceImpl final : public snark::GraphSampler::Service
     absl::flat_hash_map<snark::CreateSamplerRequest_Category, std::shared_ptr<snark::SamplerFactory>>
         m_edge_sampler_factory;
     std::vector<std::unique_ptr<snark::Sampler>> m_samplers;
+
+    // Start of the id range, different for every instance of a service, so ids from
+    // a server that was restarted are not mistaken for samplers created later.
+    const uint64_t m_first_sampler_id;
     snark::Metadata m_metadata;
     std::vector<size_t> m_partition_indices;
     std::vector<std::string> m_patrition_paths;
-- 
2.43.0


From 58f78ad83918634b46fd14716c68559a8b5500b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:29:10 +0000
Subject: [PATCH 42/57] fix: let random walks return to the node before when it
 is a neighbor

---
 src/cc/lib/py_graph.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index 666b173..e8e6ebc 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -963,9 +963,13 @@ int32_t RandomWalk(PyGraph *py_graph, int64_t seed, float p, float q, NodeID def
             {
                 const auto node = neighbors[nb_offset];
                 const auto weight = weights[nb_offset];
-                // Skip parent node, because it was added above.
+                // Skip parent node, if it was added above.
                 if (node == past_nodes[index])
                 {
+                    if (parent == std::end(t_nbs[index]))
+                    {
+                        transition_node_prob.emplace_back(node, weight / p);
+                    }
                     continue;
                 }
 
-- 
2.43.0


From c130fde4c89620a455ce5ff761ab641ca1b1a707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:29:10 +0000
Subject: [PATCH 43/57] fix: do not wait for clients again after a server was
 asked to stop

---
 .../deepgnn/graph_engine/backends/snark/synchronized.py       | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
index a674a7b..315d844 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
@@ -193,7 +193,9 @@ class _ServerProcess(mp.Process):
 
     def join(self, timeout: Optional[float] = None):
         """Stop the GE server."""
-        self._wait_for_clients(timeout)
+        # Python joins processes again on exit, clients had their time by then.
+        if not self._stop_event.is_set():
+            self._wait_for_clients(timeout)
         self._stop_event.set()
         super().join(timeout)
 
-- 
2.43.0


From 2be4b39cbec589713b7f60307c53f1c925f53bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:15:58 +0000
Subject: [PATCH 44/57] fix: write torch checkpoints to a temporary file first

A trainer stopped in the middle of a save left a truncated checkpoint under
its final name. Every restart picked it as the newest one and failed.
---
 src/python/deepgnn/pytorch/training/trainer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/pytorch/training/trainer.py b/src/python/deepgnn/pytorch/training/trainer.py
index 61943bc..6639055 100644
--- a/src/python/deepgnn/pytorch/training/trainer.py
+++ b/src/python/deepgnn/pytorch/training/trainer.py
@@ -450,7 +450,10 @@ class Trainer:
         }
         if hasattr(self.model, "init_parameters"):
             output.update({"init_parameters": self.model.init_parameters})
-        torch.save(output, save_path)
+        # Interrupted save must not leave a broken checkpoint behind.
+        tmp_path = os.path.join(f"{self.args.save_path}", "checkpoint.tmp")
+        torch.save(output, tmp_path)
+        os.replace(tmp_path, save_path)
         self.logger.info(self._wrap_log(f"Saved checkpoint to {save_path}."))
         rotate_checkpoints(self.args.save_path, self.args.max_saved_ckpts)
 
-- 
2.43.0


From 00893df2f6ad7a209ae9435cef4c103b4a3952a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:17:52 +0000
Subject: [PATCH 45/57] fix: order torch checkpoints by number

Names were compared as text, so the checkpoint of epoch 1000 counted as older
than the one of epoch 999. It was deleted first and never loaded.
---
 src/python/deepgnn/pytorch/common/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/pytorch/common/utils.py b/src/python/deepgnn/pytorch/common/utils.py
index 5d77340..6d964fd 100644
--- a/src/python/deepgnn/pytorch/common/utils.py
+++ b/src/python/deepgnn/pytorch/common/utils.py
@@ -131,7 +131,7 @@ def get_sorted_checkpoints(
     model_dir: str, perfix: str = PREFIX_CHECKPOINT, sort_ckpt_by_mtime: bool = False
 ) -> List[str]:
     """Return model checkpoints."""
-    ordering_and_checkpoint_path = []
+    ordering_and_checkpoint_path: List[Tuple] = []
 
     glob_checkpoints = [str(x) for x in Path(model_dir).glob(f"{perfix}-*")]
 
@@ -141,7 +141,9 @@ def get_sorted_checkpoints(
         else:
             regex_match = re.match(f".*{perfix}-([0-9\\-]+)", path)
             if regex_match and regex_match.groups():
-                ordering_and_checkpoint_path.append((regex_match.groups()[0], path))
+                # Compare numbers: names get longer after epoch 999.
+                order = [int(n) for n in regex_match.groups()[0].split("-") if n]
+                ordering_and_checkpoint_path.append((order, path))
 
     return [checkpoint[1] for checkpoint in sorted(ordering_and_checkpoint_path)]
 
-- 
2.43.0


From 2417778f3333289ca2639f424567f5ccef48869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:24:56 +0000
Subject: [PATCH 46/57] fix: share the last horovod updates of an epoch with
 all workers

A worker with fewer batches than others stopped applying updates once it ran
out of data. Its model stayed behind, and when it was the first worker the
checkpoint of the epoch missed these updates.
---
 src/python/deepgnn/pytorch/training/trainer.py     | 5 +++++
 src/python/deepgnn/pytorch/training/trainer_hvd.py | 8 +++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/pytorch/training/trainer.py b/src/python/deepgnn/pytorch/training/trainer.py
index 6639055..c7f5885 100644
--- a/src/python/deepgnn/pytorch/training/trainer.py
+++ b/src/python/deepgnn/pytorch/training/trainer.py
@@ -186,10 +186,15 @@ class Trainer:
                 break
 
         # Epoch finishes.
+        self._finish_epoch()
         self.step = 0
         if self.rank == 0 and epoch % self.args.save_ckpt_by_epochs == 0:
             self._save_checkpoint(epoch + 1)
 
+    def _finish_epoch(self):
+        """Synchronize workers before the checkpoint of an epoch is saved."""
+        pass
+
     def _train_one_step(self, model: BaseModel, data: Dict, epoch: int):
         self._increment_step()
         self._prepare_data(data)
diff --git a/src/python/deepgnn/pytorch/training/trainer_hvd.py b/src/python/deepgnn/pytorch/training/trainer_hvd.py
index 514ca03..597b973 100644
--- a/src/python/deepgnn/pytorch/training/trainer_hvd.py
+++ b/src/python/deepgnn/pytorch/training/trainer_hvd.py
@@ -60,9 +60,11 @@ class HVDTrainer(FP16Trainer):
             op=hvd.Average,
         )
 
-    def _train_one_epoch(self, model: BaseModel, epoch: int):
-        super()._train_one_epoch(model, epoch)
-        hvd.join()
+    def _finish_epoch(self):
+        # Workers with less data miss the last updates of the epoch.
+        last_rank = hvd.join()
+        hvd.broadcast_optimizer_state(self.optimizer, root_rank=last_rank)
+        hvd.broadcast_parameters(self.model.state_dict(), root_rank=last_rank)
 
     def _inference(self, model: BaseModel):
         super()._inference(model)
-- 
2.43.0


From 62199cd694ce4ec8c2db2beb0adfce125ef59f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:36:28 +0000
Subject: [PATCH 47/57] fix: use the right window size for skip-grams

---
 src/python/deepgnn/graph_engine/graph_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/graph_ops.py b/src/python/deepgnn/graph_engine/graph_ops.py
index 231f5c7..aad957c 100644
--- a/src/python/deepgnn/graph_engine/graph_ops.py
+++ b/src/python/deepgnn/graph_engine/graph_ops.py
@@ -82,7 +82,7 @@ def gen_skipgrams(
         # each path
         for j in range(0, path_len):
             left_start = max(0, j - left_win_size)
-            right_end = min(path_len - 1, j + left_win_size)
+            right_end = min(path_len - 1, j + right_win_size)
             for k in range(left_start, right_end + 1):
                 if k == j:
                     continue
-- 
2.43.0


From 29119390f6468eeb6dc370a74313f7df37064833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:36:38 +0000
Subject: [PATCH 48/57] fix: pass the default edge type to weighted neighbor
 sampling

---
 src/python/deepgnn/graph_engine/snark/local.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index 36db38f..a408b61 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -120,6 +120,7 @@ class Client(Graph):
                 count,
                 default_node,
                 default_weight,
+                default_edge_type,
                 seed=int(random.getrandbits(64)),
                 timestamps=timestamps,
                 return_edge_created_ts=return_edge_created_ts,
-- 
2.43.0


From 93788f93c9a795373027483dc74b100eb994dfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:37:21 +0000
Subject: [PATCH 49/57] fix: load the partitions given to a local client

---
 src/python/deepgnn/graph_engine/snark/local.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index a408b61..5961efa 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -37,9 +37,7 @@ class Client(Graph):
         if len(partitions) == 0:
             self.logger.info("Partitions not set, defaulting to [0]")
             partitions = [0]
-        partitions_with_paths = [
-            (path, partition) for partition in range(len(partitions))
-        ]
+        partitions_with_paths = [(path, partition) for partition in partitions]
         self.logger.info(
             f"Graph data path: {path}. Partitions {partitions}. Storage type {storage_type}. Config path {config_path}. Stream {stream}."
         )
-- 
2.43.0


From 23f35b3e26e17665cfa202ff6e38800ac231bfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:02:28 +0000
Subject: [PATCH 50/57] fix: download datasets under a temporary name

An interrupted download left a truncated file that later runs and other
workers took for the complete one. Two workers creating the folder at once
could also fail.
---
 src/python/deepgnn/graph_engine/data/data_util.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/data/data_util.py b/src/python/deepgnn/graph_engine/data/data_util.py
index 6e64d62..faf492e 100644
--- a/src/python/deepgnn/graph_engine/data/data_util.py
+++ b/src/python/deepgnn/graph_engine/data/data_util.py
@@ -18,13 +18,17 @@ from deepgnn.graph_engine.snark.local import Client
 
 def download_file(url: str, data_dir: str, name: str):
     """Create dir and download data."""
-    if not os.path.exists(data_dir):
-        os.makedirs(data_dir)
+    os.makedirs(data_dir, exist_ok=True)
 
     fname = os.path.join(data_dir, name)
     if not os.path.exists(fname):
         logging.info(f"download: {fname}")
-        urllib.request.urlretrieve(url, fname)
+        # Give the file its name only when it is complete: other workers and
+        # later runs use whatever they find under it.
+        with tempfile.TemporaryDirectory(dir=data_dir) as temp_dir:
+            temp_name = os.path.join(temp_dir, name)
+            urllib.request.urlretrieve(url, temp_name)
+            os.replace(temp_name, fname)
 
 
 def get_edge_list_node(
-- 
2.43.0


From 91fe29e2b5fa8ecb7efa18fbeb18db4340e71c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:02:28 +0000
Subject: [PATCH 51/57] fix: do not cache error answers of web servers

The status of the download request was not checked, so the text of an
error page was stored as the model file.
---
 .../deepgnn/pytorch/encoding/twinbert/deepspeed/file_utils.py    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/deepgnn/pytorch/encoding/twinbert/deepspeed/file_utils.py b/src/python/deepgnn/pytorch/encoding/twinbert/deepspeed/file_utils.py
index 1a14203..302e31b 100755
--- a/src/python/deepgnn/pytorch/encoding/twinbert/deepspeed/file_utils.py
+++ b/src/python/deepgnn/pytorch/encoding/twinbert/deepspeed/file_utils.py
@@ -169,6 +169,7 @@ def s3_get(url, temp_file):
 
 def http_get(url, temp_file):
     req = requests.get(url, stream=True)
+    req.raise_for_status()
     content_length = req.headers.get('Content-Length')
     total = int(content_length) if content_length is not None else None
     progress = tqdm(unit="B", total=total)
-- 
2.43.0


From 06eddcb007e1bf4717a705d30352405bec64be2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:02:28 +0000
Subject: [PATCH 52/57] fix: put complete files into the model file cache

The file was copied to its cached name piece by piece and its metadata
followed later, so a killed job left a truncated file, or one without
metadata, that every later run used. Other workers could see it as well.
Two workers creating the folder at once could also fail.
---
 .../encoding/twinbert/deepspeed/file_utils.py | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/python/deepgnn/pytorch/encoding/twinbert/deepspeed/file_utils.py b/src/python/deepgnn/pytorch/encoding/twinbert/deepspeed/file_utils.py
index 302e31b..e4d99fa 100755
--- a/src/python/deepgnn/pytorch/encoding/twinbert/deepspeed/file_utils.py
+++ b/src/python/deepgnn/pytorch/encoding/twinbert/deepspeed/file_utils.py
@@ -190,8 +190,7 @@ def get_from_cache(url, cache_dir=None):
     if sys.version_info[0] == 3 and isinstance(cache_dir, Path):
         cache_dir = str(cache_dir)
 
-    if not os.path.exists(cache_dir):
-        os.makedirs(cache_dir)
+    os.makedirs(cache_dir, exist_ok=True)
 
     # Get eTag to add to filename, if it exists.
     if url.startswith("s3://"):
@@ -229,14 +228,20 @@ def get_from_cache(url, cache_dir=None):
 
             logger.info("copying %s to cache at %s", temp_file.name,
                         cache_path)
-            with open(cache_path, 'wb') as cache_file:
-                shutil.copyfileobj(temp_file, cache_file)
-
-            logger.info("creating metadata file for %s", cache_path)
-            meta = {'url': url, 'etag': etag}
-            meta_path = cache_path + '.json'
-            with open(meta_path, 'w', encoding="utf-8") as meta_file:
-                json.dump(meta, meta_file)
+            # Other processes use the file as soon as it has its name, so it gets
+            # the name when it is complete and its metadata is in place.
+            with tempfile.TemporaryDirectory(dir=cache_dir) as copy_dir:
+                copy_path = os.path.join(copy_dir, filename)
+                with open(copy_path, 'wb') as cache_file:
+                    shutil.copyfileobj(temp_file, cache_file)
+
+                logger.info("creating metadata file for %s", cache_path)
+                meta = {'url': url, 'etag': etag}
+                with open(copy_path + '.json', 'w', encoding="utf-8") as meta_file:
+                    json.dump(meta, meta_file)
+
+                os.replace(copy_path + '.json', cache_path + '.json')
+                os.replace(copy_path, cache_path)
 
             logger.info("removing temp file %s", temp_file.name)
 
-- 
2.43.0


From 453559dc01a6f4c4cd94cc493de513d3d9acb1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:55:05 +0000
Subject: [PATCH 53/57] fix: stream graphs from folders whose names contain the
 neighbors prefix

---
 src/cc/lib/distributed/graph_engine.cc | 3 ++-
 src/cc/lib/graph/graph.cc              | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/distributed/graph_engine.cc b/src/cc/lib/distributed/graph_engine.cc
index 5219a89..0bf6413 100644
--- a/src/cc/lib/distributed/graph_engine.cc
+++ b/src/cc/lib/distributed/graph_engine.cc
@@ -72,7 +72,8 @@ GraphEngineServiceImpl::GraphEngineServiceImpl(snark::Metadata metadata, std::ve
             for (auto &full : filenames)
             {
                 // Use files with neighbor lists to detect eligible suffixes.
-                auto loc = full.find(neighbors_prefix);
+                // Skip over parent folders, their names can contain the prefix too.
+                auto loc = full.find(neighbors_prefix, full.find_last_of('/') + 1);
                 if (loc != std::string::npos &&
                     int(partitions[partition_index]) == stoi(full.substr(loc + neighbors_prefix_len)))
                 {
diff --git a/src/cc/lib/graph/graph.cc b/src/cc/lib/graph/graph.cc
index 576fe41..7797e2e 100644
--- a/src/cc/lib/graph/graph.cc
+++ b/src/cc/lib/graph/graph.cc
@@ -81,7 +81,8 @@ Graph::Graph(Metadata metadata, std::vector<std::string> paths, std::vector<uint
             for (auto &full : filenames)
             {
                 // Use files with neighbor lists to detect eligible suffixes.
-                auto loc = full.find(neighbors_prefix);
+                // Skip over parent folders, their names can contain the prefix too.
+                auto loc = full.find(neighbors_prefix, full.find_last_of('/') + 1);
                 if (loc != std::string::npos &&
                     int(partitions[partition_index]) == stoi(full.substr(loc + neighbors_prefix_len)))
                 {
-- 
2.43.0


From 93e11d4ce28aa70b433ae7d9121c7f8ede66101a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 13:00:08 +0000
Subject: [PATCH 54/57] fix: read streamed files completely when the storage
 returns them in pieces

---
 src/cc/lib/graph/hdfs_wrap.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/cc/lib/graph/hdfs_wrap.cc b/src/cc/lib/graph/hdfs_wrap.cc
index 158f3b5..0619839 100644
--- a/src/cc/lib/graph/hdfs_wrap.cc
+++ b/src/cc/lib/graph/hdfs_wrap.cc
@@ -233,14 +233,11 @@ void HDFSConnection::read(hdfsFile_so readFile, int64_t read_size, void *output)
     {
         read_size_curr = static_cast<int32_t>(std::min(read_size - acc_read, static_cast<int64_t>(BUFFER_SIZE)));
         curr_read = hdfs_bindings->hdfsRead_so(fs, readFile, m_buffer, read_size_curr);
-        if (curr_read < read_size_curr)
-            curr_read +=
-                hdfs_bindings->hdfsRead_so(fs, readFile, static_cast<void *>(static_cast<char *>(m_buffer) + curr_read),
-                                           read_size_curr - curr_read);
-        if (curr_read != read_size_curr)
+        // Fewer bytes than requested can be returned any number of times, 0 means end of file and -1 an error.
+        if (curr_read <= 0)
             RAW_LOG_FATAL("file %s : Stopped reading after %li bytes, expected %li bytes!", m_data_path.c_str(),
                           acc_read, read_size);
-        memcpy(dst, src, read_size_curr);
+        memcpy(dst, src, curr_read);
         dst += curr_read;
         acc_read += curr_read;
     }
-- 
2.43.0


From b99f1b38422dff756ccdf189930585bafddd03b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 13:03:18 +0000
Subject: [PATCH 55/57] fix: load weighted edge samplers from the folder of
 their partition

---
 src/cc/lib/graph/sampler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/graph/sampler.cc b/src/cc/lib/graph/sampler.cc
index 4ff12ff..72609f9 100644
--- a/src/cc/lib/graph/sampler.cc
+++ b/src/cc/lib/graph/sampler.cc
@@ -369,10 +369,10 @@ WeightedEdgeSamplerPartition::WeightedEdgeSamplerPartition(Metadata meta, Type t
         logger = std::make_shared<snark::GLogger>();
     }
     std::shared_ptr<BaseStorage<uint8_t>> edge_weights;
-    if (!is_hdfs_path(meta.m_path))
+    if (!is_hdfs_path(partition_path))
     {
         edge_weights =
-            std::make_shared<DiskStorage<uint8_t>>(meta.m_path, partition_index, tp, open_edge_alias, logger);
+            std::make_shared<DiskStorage<uint8_t>>(partition_path, partition_index, tp, open_edge_alias, logger);
     }
     else
     {
-- 
2.43.0


From d84f1fade254c5d00841be211bc3e4b0911ac488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 13:04:38 +0000
Subject: [PATCH 56/57] fix: report failing listings and file sizes of streamed
 graphs

---
 src/cc/lib/graph/hdfs_wrap.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/hdfs_wrap.cc b/src/cc/lib/graph/hdfs_wrap.cc
index 0619839..50004be 100644
--- a/src/cc/lib/graph/hdfs_wrap.cc
+++ b/src/cc/lib/graph/hdfs_wrap.cc
@@ -182,6 +182,8 @@ int64_t HDFSConnection::get_file_size(const char *path, const char *host, int po
     if (hdfs_bindings->hdfsExists_so(fs, path) != 0)
         RAW_LOG_FATAL("File does not exist '%s' error with: %s", path, strerror(errno));
     auto file_info = hdfs_bindings->hdfsGetPathInfo_so(fs, path);
+    if (file_info == nullptr)
+        RAW_LOG_FATAL("Failed to get size of '%s' error with: %s", path, strerror(errno));
     auto read_size = (file_info->mSize);
     hdfs_bindings->hdfsFreeFileInfo_so(file_info, 1);
     return read_size;
@@ -189,8 +191,16 @@ int64_t HDFSConnection::get_file_size(const char *path, const char *host, int po
 
 std::vector<std::string> HDFSConnection::list_directory(const char *full_path)
 {
-    int n_items = 1;
+    int n_items = 0;
+    errno = 0;
     auto directory_infos = hdfs_bindings->hdfsListDirectory_so(fs, full_path, &n_items);
+    // Empty directories return null as well, only errors set errno.
+    if (directory_infos == nullptr)
+    {
+        if (errno != 0)
+            RAW_LOG_FATAL("Failed to list '%s' error with: %s", full_path, strerror(errno));
+        return {};
+    }
 
     std::vector<std::string> output;
     for (int i = 0; i < n_items; i++)
-- 
2.43.0


From d5b0a47638cfdf0f22634f46b7250e980d582888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 13:07:18 +0000
Subject: [PATCH 57/57] fix: parse metadata of streamed graphs in memory
 instead of a shared temporary file

---
 src/cc/lib/graph/metadata.cc | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/cc/lib/graph/metadata.cc b/src/cc/lib/graph/metadata.cc
index 81d1e43..e3cd057 100644
--- a/src/cc/lib/graph/metadata.cc
+++ b/src/cc/lib/graph/metadata.cc
@@ -25,6 +25,7 @@ Metadata::Metadata(std::filesystem::path path, std::string config_path, bool ski
     {
         logger = std::make_shared<GLogger>();
     }
+    json meta;
     if (is_hdfs_path(path))
 #ifndef SNARK_PLATFORM_LINUX
         logger->log_fatal("HDFS streaming only supported on Linux!");
@@ -32,22 +33,14 @@ Metadata::Metadata(std::filesystem::path path, std::string config_path, bool ski
     {
         auto full_path = path / "meta.json";
         auto buffer = read_hdfs<char>(full_path.string(), m_config_path);
-
-        path = std::filesystem::temp_directory_path();
-        auto meta_write = open_meta(path, "w", logger);
-        for (uint64_t i = 0; i < buffer.size(); ++i)
-        {
-            if (fprintf(meta_write, "%c", buffer[i]) <= 0)
-            {
-                exit(errno);
-            }
-        }
-        fclose(meta_write);
+        meta = json::parse(buffer);
     }
 #endif
-
-    std::ifstream f(path / "meta.json");
-    json meta = json::parse(f);
+    else
+    {
+        std::ifstream f(path / "meta.json");
+        meta = json::parse(f);
+    }
 
     std::string version_full = meta["binary_data_version"];
     version_full.erase(0, 1);
-- 
2.43.0

