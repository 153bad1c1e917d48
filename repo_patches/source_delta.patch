From ac890b2f27ebc9bd974e7906a103997239188576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:53:19 +0000
Subject: [PATCH 01/83] fix: keep weights of partitions separate when merging
 metadata

The weight rows of all partitions written by one converter were the same
list object, so every partition got the sum of all of them.
---
 src/python/deepgnn/graph_engine/snark/meta_merger.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/meta_merger.py b/src/python/deepgnn/graph_engine/snark/meta_merger.py
index ad5f082..4b8d412 100644
--- a/src/python/deepgnn/graph_engine/snark/meta_merger.py
+++ b/src/python/deepgnn/graph_engine/snark/meta_merger.py
@@ -55,8 +55,12 @@ class Meta:
         self.node_feature_count = meta["node_feature_count"]
         self.edge_feature_count = meta["edge_feature_count"]
         self.partition_count = len(meta["partitions"])
-        self.node_weights = [[0.0] * self.node_type_count] * self.partition_count
-        self.edge_weights = [[0.0] * self.edge_type_count] * self.partition_count
+        self.node_weights = [
+            [0.0] * self.node_type_count for _ in range(self.partition_count)
+        ]
+        self.edge_weights = [
+            [0.0] * self.edge_type_count for _ in range(self.partition_count)
+        ]
         for j, id in enumerate(meta["partitions"]):
             for i in range(self.node_type_count):
                 self.node_weights[j][i] += meta["partitions"][id]["node_weight"][i]
-- 
2.43.0


From 6d4905ebc1a78ae4787792649ff1fad082884f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:53:32 +0000
Subject: [PATCH 02/83] fix: merge metadata files in the order of workers

Files were merged in lexicographic order, so with more than 10 workers
partition weights ended up under ids of other partitions.
---
 src/python/deepgnn/graph_engine/snark/meta_merger.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/snark/meta_merger.py b/src/python/deepgnn/graph_engine/snark/meta_merger.py
index 4b8d412..bd3e7fc 100644
--- a/src/python/deepgnn/graph_engine/snark/meta_merger.py
+++ b/src/python/deepgnn/graph_engine/snark/meta_merger.py
@@ -128,6 +128,8 @@ def merge_metadata_files(meta_path: str):
     if len(total_files) == 0:
         return
 
+    # Partitions are numbered in the order of workers: meta_2 goes before meta_10.
+    total_files.sort(key=lambda f: (len(f), f))
     meta_list = [Meta(fs, f) for f in total_files]
     merge(fs, meta_path, meta_list)
 
-- 
2.43.0


From 0835bae56ef3e874c22252787f54798756c8605a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:57:19 +0000
Subject: [PATCH 03/83] fix: let QueueDispatcher finish when it runs on threads

join() called terminate() on threading.Thread objects and failed after all
the data was written, so metadata was never produced.
---
 src/python/deepgnn/graph_engine/snark/dispatcher.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/dispatcher.py b/src/python/deepgnn/graph_engine/snark/dispatcher.py
index 74c9e2a..7f12636 100755
--- a/src/python/deepgnn/graph_engine/snark/dispatcher.py
+++ b/src/python/deepgnn/graph_engine/snark/dispatcher.py
@@ -385,7 +385,9 @@ class QueueDispatcher(Dispatcher):
                         pass
 
         for p in self.processes:
-            p.terminate()
+            # threads can't be terminated, they are daemons and exit on their own.
+            if isinstance(p, mp.Process):
+                p.terminate()
 
     def prop(self, name: str) -> typing.Any:
         """Properties relevant for conversion.
-- 
2.43.0


From 47d9ea64b1094160acbf7da055a3d64bafa136e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:57:27 +0000
Subject: [PATCH 04/83] fix: split text files into lines at line feeds only

str.splitlines also splits at other unicode separators, so a record with
such a character in a string feature was cut into several broken records.
---
 src/python/deepgnn/graph_engine/_adl_reader.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/_adl_reader.py b/src/python/deepgnn/graph_engine/_adl_reader.py
index d2417e6..87d20d8 100644
--- a/src/python/deepgnn/graph_engine/_adl_reader.py
+++ b/src/python/deepgnn/graph_engine/_adl_reader.py
@@ -17,6 +17,12 @@ from deepgnn.graph_engine._base import get_fs
 LINE_DELIMITER = int.from_bytes(b"\n", "little")
 
 
+def _split_lines(data) -> List[str]:
+    # Unlike str.splitlines, keep other unicode line separators inside of a line.
+    lines = data.decode("utf-8").replace("\r\n", "\n").replace("\r", "\n").split("\n")
+    return lines if lines[-1] else lines[:-1]
+
+
 # A indicator which is put to the queue with the count.
 # __next__ function in iterable will get each queue item
 # till reach the end which is specified by this indicator.
@@ -182,10 +188,8 @@ class TextFileIterator:
                     sub_block[last_delim_index + 1 :]
                 )
                 if last_delim_index != first_delim_index:
-                    decoded_buf[index]["lines"] = (
+                    decoded_buf[index]["lines"] = _split_lines(
                         sub_block[first_delim_index + 1 : last_delim_index]
-                        .decode("utf-8")
-                        .splitlines()
                     )
 
             len_to_read = self.get_length_to_read()
@@ -237,9 +241,7 @@ class TextFileIterator:
             if cur_buf["suffix"] is not None:
                 if head_block["suffix"] is not None:
                     # there is '\n' in head block, concat the current prefix and head's suffix and decode.
-                    head_block["lines"].extend(
-                        head_buf.decode("utf-8").splitlines(False)
-                    )
+                    head_block["lines"].extend(_split_lines(head_buf))
 
                 # concat lines in current block into head block
                 head_block["lines"].extend(cur_buf["lines"])
@@ -391,9 +393,7 @@ class TextFileIterator:
 
             if head["suffix"] is not None:
                 if len(self.remain_bytes) > 0:
-                    self.remain_lines.extend(
-                        self.remain_bytes.decode("utf-8").splitlines(False)
-                    )
+                    self.remain_lines.extend(_split_lines(self.remain_bytes))
                 self.remain_lines.extend(head["lines"])
                 self.remain_bytes = head["suffix"]
 
-- 
2.43.0


From ae0b904a263ef2f5fd808ab0034b644a458782e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:58:22 +0000
Subject: [PATCH 05/83] fix: report errors of text file readers

A failed read or an undecodable block was ignored by the reading threads:
the lines were silently dropped or the file was treated as finished.
---
 .../deepgnn/graph_engine/_adl_reader.py       | 29 +++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/_adl_reader.py b/src/python/deepgnn/graph_engine/_adl_reader.py
index 87d20d8..bb985bb 100644
--- a/src/python/deepgnn/graph_engine/_adl_reader.py
+++ b/src/python/deepgnn/graph_engine/_adl_reader.py
@@ -195,21 +195,29 @@ class TextFileIterator:
             len_to_read = self.get_length_to_read()
             sub_len = len_to_read // self.thread_count
             last_id = self.thread_count - 1
-            for thread_idx in range(last_id):
+            futures = [
                 pool.submit(
                     _read_block_worker,
                     thread_idx,
                     self.offset + (thread_idx * sub_len),
                     sub_len,
                 )
+                for thread_idx in range(last_id)
+            ]
 
-            pool.submit(
-                _read_block_worker,
-                last_id,
-                self.offset + (last_id * sub_len),
-                len_to_read - last_id * sub_len,
+            futures.append(
+                pool.submit(
+                    _read_block_worker,
+                    last_id,
+                    self.offset + (last_id * sub_len),
+                    len_to_read - last_id * sub_len,
+                )
             )
 
+        # raise errors from reading threads, otherwise their lines are lost.
+        for future in futures:
+            future.result()
+
         # merge the prefix and suffix between blocks.
         # first we get the head block of the block list,
         # then we will concat each block after the head into head block.
@@ -256,6 +264,12 @@ class TextFileIterator:
         return 0
 
     def _read_block(self):
+        try:
+            self._read_files()
+        except Exception as e:
+            self.outputs.put(FetchDone(exception=e))
+
+    def _read_files(self):
         while not self.stop:
             # try to read some data from current file using multi-threading
             block = self._read_block_by_threads()
@@ -382,6 +396,9 @@ class TextFileIterator:
             self.outputs.task_done()
             # if the head is finish indicator, convert the remaining unprocessed bytes to string and return
             if type(head) is FetchDone:
+                if head.exception_info is not None:
+                    self.end = True
+                    raise head.exception_info
                 if len(self.remain_bytes) != 0:
                     line = self.remain_bytes.decode("utf-8").strip("\r\n")
                     if len(line) > 0:
-- 
2.43.0


From b23edcbd6277b9a8fcb398b9a79195be74471e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:05:23 +0000
Subject: [PATCH 06/83] fix: keep input queues of QueueDispatcher open until
 workers finish

With threads the dispatcher closed the very queue objects the workers were
reading from, so conversion failed with a closed queue.
---
 src/python/deepgnn/graph_engine/snark/dispatcher.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/dispatcher.py b/src/python/deepgnn/graph_engine/snark/dispatcher.py
index 7f12636..3adbba2 100755
--- a/src/python/deepgnn/graph_engine/snark/dispatcher.py
+++ b/src/python/deepgnn/graph_engine/snark/dispatcher.py
@@ -331,7 +331,6 @@ class QueueDispatcher(Dispatcher):
         """Wrapup conversion."""
         for i in self.active_partitions:
             self.q_in[i].put(FLAG_ALL_DONE)
-            self.q_in[i].close()
 
         for _ in self.active_partitions:
             flag, output = self.q_out.get()
@@ -348,6 +347,9 @@ class QueueDispatcher(Dispatcher):
             self.partitions.append(output["partition"])
 
             assert flag == FLAG_WORKER_FINISHED_PROCESSING
+        # threads share queues with the dispatcher: close them only after all work is done.
+        for i in self.active_partitions:
+            self.q_in[i].close()
         self.q_out.close()
 
         for p in self.partitions:
-- 
2.43.0


From 2a9130dfaa66ae34a2141c0c3eef5581254bfc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:06:12 +0000
Subject: [PATCH 07/83] fix: don't replace ids of the last batch of a range
 with padding

With several data parallel readers the number of valid ids in the last batch
was rounded down, so an id of the range was overwritten by the backfill id.
---
 src/python/deepgnn/graph_engine/samplers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index 96c5dd0..0aa3da3 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -543,7 +543,8 @@ class _RangeNodeIterator(_GEIterator):
         last = self.first + self.batch_size * self.data_parallel_num
         res = np.arange(self.first, last, step=self.data_parallel_num)
         if last > self.last:
-            res[(self.last - self.first) // self.data_parallel_num :] = self.backfill_id
+            count = math.ceil((self.last - self.first) / self.data_parallel_num)
+            res[count:] = self.backfill_id
 
         self.first += self.num_workers * self.batch_size * self.data_parallel_num
         return res
-- 
2.43.0


From f31bf22e5d251b17fd73d84661b3ea8b50d181c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:06:12 +0000
Subject: [PATCH 08/83] fix: give workers disjoint parts of a range with data
 parallel readers

Workers started one batch apart, although every worker advances by batches of
all its data parallel readers: ids were returned by several workers.
---
 src/python/deepgnn/graph_engine/samplers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index 0aa3da3..84e2f21 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -573,13 +573,21 @@ class RangeNodeSampler(BaseSampler):
             data_parallel_index=data_parallel_index,
             data_parallel_num=data_parallel_num,
         )
-        self.start_id = first + worker_index * batch_size
+        self.first = first
+        self.worker_index = worker_index
         self.last = last
         assert self.start_id < self.last
         self.batch_size = batch_size
         self.num_workers = num_workers
         self.backfill_id = backfill_id
 
+    @property
+    def start_id(self) -> int:
+        """First id of this worker, batches of all data parallel readers of previous workers are skipped."""
+        return (
+            self.first + self.worker_index * self.batch_size * self.data_parallel_num
+        )
+
     def __iter__(self) -> _RangeNodeIterator:
         """Return a new range iterator."""
         return _RangeNodeIterator(
-- 
2.43.0


From 2706739c4be1e1f82147eed95e53be66f98e7d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:06:12 +0000
Subject: [PATCH 09/83] fix: respect drop_last in FileEdgeSampler with edge
 features

---
 src/python/deepgnn/graph_engine/samplers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index 84e2f21..9299b22 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -429,6 +429,7 @@ class FileEdgeSampler(BaseSampler):
                 ),
                 np.zeros(shape=(self.feature_dim), dtype=np.float32),
             ],
+            drop_last=self.drop_last,
             data_parallel_num=self.data_parallel_num,
             data_parallel_index=self.data_parallel_index,
         )
-- 
2.43.0


From fbc637f058224024b805fad52d8fd5ea6a7594ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:06:12 +0000
Subject: [PATCH 10/83] fix: make CSVNodeSampler iterable for several epochs

The sampler ignored the number of epochs, returned nothing when it was
iterated again, and its length missed the last batch for data parallel readers.
---
 src/python/deepgnn/graph_engine/samplers.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index 9299b22..f3f4804 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -718,14 +718,16 @@ class CSVNodeSampler(BaseSampler):
 
         self.node_list: np.ndarray = np.array(node_list)
         self.cur_batch = 0
+        self.left_epochs = epoch
         self.count = (
-            (len(node_list) + self.batch_size - 1)
-            // (self.batch_size * self.data_parallel_num)
+            math.ceil(len(node_list) / (self.batch_size * self.data_parallel_num))
             * epoch
         )
 
     def __iter__(self):
-        """No-op."""
+        """Start iteration from beginning."""
+        self.cur_batch = 0
+        self.left_epochs = self.epochs
         return self
 
     def __next__(self) -> np.ndarray:
@@ -735,7 +737,11 @@ class CSVNodeSampler(BaseSampler):
             + self.data_parallel_index
         )
         if start_pos >= len(self.node_list):
-            raise StopIteration
+            self.left_epochs -= 1
+            start_pos = self.data_parallel_index
+            if self.left_epochs <= 0 or start_pos >= len(self.node_list):
+                raise StopIteration
+            self.cur_batch = 0
         self.cur_batch += 1
         end_pos = (
             self.cur_batch * self.batch_size * self.data_parallel_num
-- 
2.43.0


From dc47370e85421ec7520999b7d4dfd3adfd7284b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:08:13 +0000
Subject: [PATCH 11/83] fix: don't return a batch of padding from
 TextFileSampler without data

An empty input, or one with less lines than a batch and drop_last set,
produced a batch made of empty strings.
---
 src/python/deepgnn/graph_engine/samplers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index f3f4804..8c52e7c 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -933,6 +933,9 @@ class TextFileSampler(BaseSampler):
                 self.end = True
                 break
 
+        if len(self.buf) == 0:
+            raise StopIteration
+
         if self.shuffle and new_added:
             random.shuffle(self.buf)
 
-- 
2.43.0


From 6ed562f4fa8a8ea35a459a5ec915c00550f3dc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:09:27 +0000
Subject: [PATCH 12/83] fix: don't block on a finished prefetch generator
 without samples

The first next() call raised StopIteration for an empty sampler, but any
following call waited forever for a new item.
---
 src/python/deepgnn/graph_engine/prefetch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/prefetch.py b/src/python/deepgnn/graph_engine/prefetch.py
index 6cd7040..31a9966 100644
--- a/src/python/deepgnn/graph_engine/prefetch.py
+++ b/src/python/deepgnn/graph_engine/prefetch.py
@@ -152,7 +152,8 @@ class Generator:
         collate_fn: Optional[Callable] = None,
     ):
         """Initialize generator."""
-        self.count = 0
+        # number of samples is unknown until the sampler is exhausted.
+        self.count = -1
         self.index = 0
         self.outputs: Queue[Tuple[np.ndarray]] = Queue(prefetch_size)
         self.max_workers = max_workers
@@ -190,7 +191,7 @@ class Generator:
 
     def __next__(self):
         """Parse the queue and get the "count" queue item. Use it to decide terminate the iteration or not."""
-        if self.count > 0 and self.index == self.count + 1:
+        if self.count >= 0 and self.index == self.count + 1:
             raise StopIteration
 
         item = self.outputs.get()
-- 
2.43.0


From 013e729e56ae9f261e7385cae6c4997129ac2d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:11:25 +0000
Subject: [PATCH 13/83] fix: raise query errors placed after the end marker in
 prefetch

A query failing after the sampler was exhausted put its error in the
queue behind the marker with the number of samples. The generator
returned that error object as if it was a query result.
---
 src/python/deepgnn/graph_engine/prefetch.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/prefetch.py b/src/python/deepgnn/graph_engine/prefetch.py
index 31a9966..e2e5681 100644
--- a/src/python/deepgnn/graph_engine/prefetch.py
+++ b/src/python/deepgnn/graph_engine/prefetch.py
@@ -202,12 +202,8 @@ class Generator:
                 get_logger().error(item.exception_info)
                 raise Exception(item.exception_info)
             self.count = item.count
-            if self.index == self.count + 1:
-                raise StopIteration
-
-            item = self.outputs.get()
-            self.outputs.task_done()
-            self.index += 1
+            # next item might be an exception of the last queries.
+            return next(self)
 
         return item
 
-- 
2.43.0


From fb4530865dbdb608971eaaad6512ee6febe38349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:23:40 +0000
Subject: [PATCH 14/83] fix: use the right window size to generate skipgrams

The size of the output is computed from both windows, but pairs were
generated with the left one on both sides: the function failed or
returned uninitialized values when windows are different.
---
 src/python/deepgnn/graph_engine/graph_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/graph_ops.py b/src/python/deepgnn/graph_engine/graph_ops.py
index 231f5c7..aad957c 100644
--- a/src/python/deepgnn/graph_engine/graph_ops.py
+++ b/src/python/deepgnn/graph_engine/graph_ops.py
@@ -82,7 +82,7 @@ def gen_skipgrams(
         # each path
         for j in range(0, path_len):
             left_start = max(0, j - left_win_size)
-            right_end = min(path_len - 1, j + left_win_size)
+            right_end = min(path_len - 1, j + right_win_size)
             for k in range(left_start, right_end + 1):
                 if k == j:
                     continue
-- 
2.43.0


From 6f7e3e3968fad6f5cf6ec6fa7d82c77bc884c703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:25:17 +0000
Subject: [PATCH 15/83] fix: read number of partitions from json metadata in
 backend

Metadata is stored as json in a single line, a backend without servers
failed to start looking for the partition count on the 7th line.
---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 4791eea..dd4d5b9 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -183,9 +183,8 @@ class SnarkDistributedBackend(GraphEngineBackend):
             # TODO(alsamylk): provide a better metadata reader in snark
             with open(os.path.join(options.data_dir, "meta.json"), "r") as meta:
                 # Use a simple heuristic: number of original partitions, but cap it at 4
-                # to avoid extreme cases. Partition count is written on 7th line.
-                lines = meta.readlines()
-                options.num_ge = min(int(lines[7]), 4)
+                # to avoid extreme cases.
+                options.num_ge = min(len(json.load(meta)["partitions"]), 4)
 
         # Use explicitly set index if it was provided
         if options.server_idx is not None:
-- 
2.43.0


From 11b887f72ee6d91e0be386bd43d5e511af79e1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:25:17 +0000
Subject: [PATCH 16/83] fix: order discovered servers by their index

Workers listed addresses in the order of a directory scan, so a server
could bind to an address of another one and workers could disagree on
the list of servers.
---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index dd4d5b9..9de0032 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -396,7 +396,7 @@ class _AddressFinder:
 # _AddressReader must be wrapped by SynchronizedClient to wait all servers.
 class _AddressReader:
     def __init__(self, path: str):
-        self._servers: List[str] = []
+        addresses: List[Tuple[int, str]] = []
         for file_name in glob.glob(os.path.join(path, "*.servername")):
             with open(file_name, "r", newline=os.linesep) as f:
                 # First line is the address and the second - server index.
@@ -404,7 +404,9 @@ class _AddressReader:
                 assert len(raw) == 2
                 server_idx = int(raw[1])
                 if server_idx >= 0:
-                    self._servers.append(raw[0].rstrip(os.linesep))
+                    addresses.append((server_idx, raw[0].rstrip(os.linesep)))
+        # Position of an address is the index of the server using it on every worker.
+        self._servers: List[str] = [address for _, address in sorted(addresses)]
 
     def servers(self) -> List[str]:
         return self._servers
-- 
2.43.0


From e1ffa744a07ef494bedff85651d2ec488027fa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:25:17 +0000
Subject: [PATCH 17/83] fix: don't reorder worker hosts in options to find a
 server index

Sorting in place changed the list of hosts passed by users: task index
pointed to another worker after the first backend was created.
---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 9de0032..cee6e5c 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -289,9 +289,8 @@ class SnarkDistributedBackend(GraphEngineBackend):
 
     def _extract_server_index(self, workers: List[str], index: int) -> Optional[int]:
         curr_worker = workers[index]
-        workers.sort()
         seen_hosts = set()
-        for worker in workers:
+        for worker in sorted(workers):
             host = worker.rsplit(":", 1)[0]
             if curr_worker != worker:
                 seen_hosts.add(host)
-- 
2.43.0


From 80f36e87b69717d5d3cc2c1864e33a337143dd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:26:04 +0000
Subject: [PATCH 18/83] fix: allow to close a client that failed to connect

A client deletes its sync file when servers didn't start in time. Closing
a backend after that failed on the missing file and left its server
running.
---
 .../deepgnn/graph_engine/backends/snark/synchronized.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
index c2e5192..3e56475 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/synchronized.py
@@ -41,8 +41,8 @@ def _check_lock_file(folder: str, index: int, extension: str):
 
 
 def _delete_lock_file(folder: str, index: int, extension: str):
-    path = pathlib.Path(folder, f"snark_{index}.{extension}")
-    os.remove(path)
+    # The file might be already deleted: clients delete it when they fail to connect.
+    pathlib.Path(folder, f"snark_{index}.{extension}").unlink(missing_ok=True)
 
 
 class SupportsReset:
-- 
2.43.0


From 8892b3667108cf73e0fda83ef2a38c0d5687288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:02:31 +0000
Subject: [PATCH 19/83] fix: create client before server when discovering
 addresses of workers

A worker stops its address server when it doesn't see any clients. A slower
worker that has started its server but has not created a client yet was left
without addresses and failed to connect.
---
 .../graph_engine/backends/snark/client.py        | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index cee6e5c..b808b9e 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -148,22 +148,24 @@ class SnarkDistributedBackend(GraphEngineBackend):
         address_folder = os.path.join(options.model_dir, "sync", "addresses")
         os.makedirs(sync_folder, exist_ok=True)
         os.makedirs(address_folder, exist_ok=True)
-        server = SynchronizedServer(
+        # Create a client first: other workers stop their address servers when
+        # they don't see any clients.
+        client = SynchronizedClient(
             sync_folder,
             client_rank,
+            world_size,
             options.ge_start_timeout,
-            _AddressFinder,
+            _AddressReader,
             address_folder,
-            client_rank,
-            server_idx,
         )
-        client = SynchronizedClient(
+        server = SynchronizedServer(
             sync_folder,
             client_rank,
-            world_size,
             options.ge_start_timeout,
-            _AddressReader,
+            _AddressFinder,
             address_folder,
+            client_rank,
+            server_idx,
         )
         options.servers = client.client.servers()
         client.reset()
-- 
2.43.0


From c2c9f105c497b7c460929e1e57e32025d449bfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:05:03 +0000
Subject: [PATCH 20/83] fix: keep zero removal times of nodes and edges

---
 src/python/deepgnn/graph_engine/snark/converter/writers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/converter/writers.py b/src/python/deepgnn/graph_engine/snark/converter/writers.py
index 0ea7a9d..c2a87b2 100644
--- a/src/python/deepgnn/graph_engine/snark/converter/writers.py
+++ b/src/python/deepgnn/graph_engine/snark/converter/writers.py
@@ -103,7 +103,7 @@ class BinaryWriter:
                     self.node_type_num = type_num_value
                 # Fill defaults for a new node
                 node_created_at = created_at or 0
-                node_removed_at = removed_at or -1
+                node_removed_at = -1 if removed_at is None else removed_at
                 self.node_writer.add(
                     src,
                     typ,
@@ -147,7 +147,7 @@ class BinaryWriter:
                     or removed_at <= node_removed_at
                 ), f"Edge ({src}, {dst}, {typ}) was deleted[{removed_at}] after source node[{node_removed_at}]."
                 created_at = created_at or node_created_at
-                removed_at = removed_at or node_removed_at
+                removed_at = node_removed_at if removed_at is None else removed_at
                 self.edge_writer.add(
                     dst,
                     typ,
-- 
2.43.0


From 24edad23957834e2a67d2bc231658b2b1f4b9669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:07:32 +0000
Subject: [PATCH 21/83] fix: do not read missing offsets when looking up
 variable-length edge features of a graph without edge features

---
 src/cc/lib/graph/partition.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index e8da9aa..7a01278 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -1053,7 +1053,7 @@ void Partition::GetEdgeStringFeature(uint64_t internal_src_node_id, NodeId input
 
     auto file_ptr = m_edge_features->start();
     auto has_edge_features = EdgeFeatureOffset(internal_src_node_id, input_edge_dst, input_edge_type);
-    if (!has_edge_features.has_value())
+    if (!has_edge_features.has_value() || m_edge_feature_offset.empty() || m_edge_feature_index.empty())
     {
         return;
     }
-- 
2.43.0


From 0e5ea1851e64a27feb4a401e230b3513ea1e32ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:07:32 +0000
Subject: [PATCH 22/83] fix: keep partition lists intact when a server loads a
 node stored in several partitions

---
 src/cc/lib/distributed/graph_engine.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/distributed/graph_engine.cc b/src/cc/lib/distributed/graph_engine.cc
index dd75504..47a72ce 100644
--- a/src/cc/lib/distributed/graph_engine.cc
+++ b/src/cc/lib/distributed/graph_engine.cc
@@ -763,11 +763,16 @@ void GraphEngineServiceImpl::ReadNodeMap(std::filesystem::path path, std::string
             auto old_count = m_counts[old_offset];
             m_node_map[pair[0]] = m_internal_indices.size();
 
-            std::copy_n(std::begin(m_internal_indices) + old_offset, old_count, std::back_inserter(m_internal_indices));
+            const auto old_internal_size = m_internal_indices.size();
+            m_internal_indices.resize(old_internal_size + old_count);
+            std::copy_n(std::begin(m_internal_indices) + old_offset, old_count,
+                        std::begin(m_internal_indices) + old_internal_size);
             m_internal_indices.emplace_back(pair[1]);
 
+            const auto old_size = m_partitions_indices.size();
+            m_partitions_indices.resize(old_size + old_count);
             std::copy_n(std::begin(m_partitions_indices) + old_offset, old_count,
-                        std::back_inserter(m_partitions_indices));
+                        std::begin(m_partitions_indices) + old_size);
             m_partitions_indices.emplace_back(index);
 
             std::fill_n(std::back_inserter(m_counts), old_count + 1, old_count + 1);
-- 
2.43.0


From 38e02f5199ac864f33994490f7d10f162a4bcd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:09:29 +0000
Subject: [PATCH 23/83] fix: find edges of every requested type when a node
 lacks some of the smaller requested types

---
 src/cc/lib/graph/partition.cc | 34 ++--------------------------------
 1 file changed, 2 insertions(+), 32 deletions(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 7a01278..49c7cc8 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -675,13 +675,6 @@ size_t NeighborIndexIterator(uint64_t internal_id, std::optional<Timestamp> node
         {
             break;
         }
-        for (; i < offset + nb_count && edge_types[curr_type] > m_edge_types[i]; ++i)
-        {
-        }
-        if (i == offset + nb_count)
-        {
-            break;
-        }
         // Find satisfying edge type, if exists
         if (m_edge_types[i] == edge_types[curr_type])
         {
@@ -1140,13 +1133,6 @@ void Partition::SampleNeighbor(bool return_edge_created_ts, int64_t seed, uint64
         {
             break;
         }
-        for (; i < last_type && in_edge_types[curr_type] > m_edge_types[i]; ++i)
-        {
-        }
-        if (i == last_type)
-        {
-            break;
-        }
 
         if (m_edge_types[i] == in_edge_types[curr_type])
         {
@@ -1223,14 +1209,6 @@ void Partition::SampleNeighbor(bool return_edge_created_ts, int64_t seed, uint64
             break;
         }
 
-        for (; i < last_type && in_edge_types[curr_type] > m_edge_types[i]; ++i)
-        {
-        }
-        if (i == last_type)
-        {
-            break;
-        }
-
         if (total_weight == 0 || left_over_neighbors == 0)
         {
             break;
@@ -1369,8 +1347,8 @@ void Partition::UniformSampleNeighbor(bool without_replacement, bool return_edge
     }
 }
 
-// Advance neighbor_type_index(for edges coming out of the current node) and in_edge_type_index(requested edge
-// types) until underlying types match.
+// Advance in_edge_type_index(requested edge types) to the type of edges coming out of the current node and check if
+// underlying types match.
 bool advance_edge_types(size_t &in_edge_type_index, size_t &neighbor_type_index,
                         const std::span<const Type> &in_edge_types, const std::vector<Type> &neighbor_types,
                         size_t last_type)
@@ -1384,14 +1362,6 @@ bool advance_edge_types(size_t &in_edge_type_index, size_t &neighbor_type_index,
     {
         return false;
     }
-    for (; neighbor_type_index < last_type && in_edge_types[in_edge_type_index] > neighbor_types[neighbor_type_index];
-         ++neighbor_type_index)
-    {
-    }
-    if (neighbor_type_index >= last_type)
-    {
-        return false;
-    }
 
     return neighbor_types[neighbor_type_index] == in_edge_types[in_edge_type_index];
 }
-- 
2.43.0


From 1672ef1f9b2144dce582eccba4e3e97692835f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:11:00 +0000
Subject: [PATCH 24/83] fix: allow empty features at the end of a file when
 features are read from disk

---
 src/cc/lib/graph/storage.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cc/lib/graph/storage.h b/src/cc/lib/graph/storage.h
index 2699159..a6694d7 100644
--- a/src/cc/lib/graph/storage.h
+++ b/src/cc/lib/graph/storage.h
@@ -310,6 +310,9 @@ template <typename T> struct DiskStorage final : BaseStorage<T>
     typename std::span<T>::iterator read(uint64_t offset, uint64_t size, typename std::span<T>::iterator output_ptr,
                                          std::shared_ptr<FilePtr> file_ptr_temp) const override
     {
+        if (size == 0)
+            return output_ptr;
+
         FILE *file_ptr = **file_ptr_temp;
 
         if (file_ptr == nullptr)
-- 
2.43.0


From 76180af62f4df6d73e2a64c8c83efa724aa8cb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:14:59 +0000
Subject: [PATCH 25/83] fix: read features into memory in builds without
 assertions too

---
 src/cc/lib/graph/storage.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/storage.h b/src/cc/lib/graph/storage.h
index a6694d7..b316cdb 100644
--- a/src/cc/lib/graph/storage.h
+++ b/src/cc/lib/graph/storage.h
@@ -85,7 +85,10 @@ template <typename T> struct MemoryStorage : BaseStorage<T>
         m_data.resize(size);
 
         snark::platform_fseek(file_ptr, 0L, SEEK_SET);
-        assert(size == fread(m_data.data(), 1, size, file_ptr) && "Failed to read node features data");
+        if (size != fread(m_data.data(), 1, size, file_ptr))
+        {
+            m_logger->log_fatal("Failed to read features data");
+        }
 
         fclose(file_ptr);
     }
-- 
2.43.0


From 9dba306bdf87c2dd1dd08636782305229fe0a751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:21:18 +0000
Subject: [PATCH 26/83] fix: count and sample edges visible at a moment without
 relying on their order by removal time

Timestamps were also truncated to 32 bits during the search.
---
 src/cc/lib/graph/partition.cc | 31 ++++++++-----------------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 49c7cc8..7a35544 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -691,37 +691,22 @@ size_t NeighborIndexIterator(uint64_t internal_id, std::optional<Timestamp> node
 namespace
 {
 
-auto find_start(const std::span<const std::pair<Timestamp, Timestamp>> &range, Timestamp ts)
+bool is_visible(const std::pair<Timestamp, Timestamp> &lifetime, Timestamp ts)
 {
-    if (range.empty())
-    {
-        return std::end(range);
-    }
-
-    if (range.front().first <= ts && (range.front().second > ts || range.front().second == -1))
-    {
-        return std::begin(range);
-    }
+    return lifetime.first <= ts && (lifetime.second > ts || lifetime.second == -1);
+}
 
-    ts = std::max(ts, range.front().second);
-    return std::lower_bound(
-        std::begin(range), std::end(range), ts,
-        [](const std::pair<Timestamp, Timestamp> &a, int x) { return a.second != -1 && a.second <= x; });
+// Edges of a node are not ordered by their removal time, so we can't use binary search to find visible ones.
+auto find_start(const std::span<const std::pair<Timestamp, Timestamp>> &range, Timestamp ts)
+{
+    return std::find_if(std::begin(range), std::end(range), [ts](const auto &a) { return is_visible(a, ts); });
 }
 
 using cspan_it = std::span<const std::pair<Timestamp, Timestamp>>::iterator;
 
 cspan_it find_last(const std::span<const std::pair<Timestamp, Timestamp>> &range, Timestamp ts)
 {
-    if (range.front().first > ts)
-    {
-        return std::begin(range);
-    }
-
-    auto last = range.front().second;
-    return std::upper_bound(
-        std::begin(range), std::end(range), ts,
-        [last](Timestamp ts, const std::pair<Timestamp, Timestamp> &a) { return a.second > last || a.first > ts; });
+    return std::find_if_not(std::begin(range), std::end(range), [ts](const auto &a) { return is_visible(a, ts); });
 }
 
 } // anonymous namespace
-- 
2.43.0


From 66191adc0ead8b8579507cdbb7f41d399b5442a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:22:04 +0000
Subject: [PATCH 27/83] fix: do not take values of the next feature for a
 missing feature at a moment

---
 src/cc/lib/graph/partition.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 7a35544..d75dea6 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -35,6 +35,12 @@ std::tuple<uint64_t, uint64_t, Timestamp> deserialize_temporal_feature(uint64_t
                                                                        std::shared_ptr<snark::FilePtr> file_ptr,
                                                                        Timestamp timestamp)
 {
+    // Feature is missing.
+    if (stored_size == 0)
+    {
+        return std::make_tuple(initial_offset, 0, -1);
+    }
+
     uint32_t timestamps_size = 0;
     auto timestamps_size_output = std::span(reinterpret_cast<uint8_t *>(&timestamps_size), 4);
     storage->read(initial_offset, timestamps_size_output.size(), std::begin(timestamps_size_output), file_ptr);
-- 
2.43.0


From 9b1ba0e93d41599210ebd32d1c721291e20e2b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:22:42 +0000
Subject: [PATCH 28/83] fix: use creation time of a node or an edge for values
 of their features without creation time

---
 src/python/deepgnn/graph_engine/snark/decoders.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index c224f96..bd551ea 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -338,8 +338,10 @@ class JsonDecoder(Decoder):
         count = data[0:4].view(dtype=np.int32)
         count[0] = interval_count
         temporal_metadata = data[4:].view(dtype=np.int64)
-        for idx, it in enumerate(sorted(item, key=lambda x: x["created_at"])):
-            temporal_metadata[idx] = int(it["created_at"])
+        for idx, it in enumerate(
+            sorted(item, key=lambda x: x.get("created_at", created_at))
+        ):
+            temporal_metadata[idx] = int(it.get("created_at", created_at))
             temporal_metadata[idx + interval_count] = data.size
             vals = np.array(it["values"], dtype=self.convert_map[key]).view(
                 dtype=np.byte
@@ -433,7 +435,7 @@ class JsonDecoder(Decoder):
             yield edge["src_id"], edge["dst_id"], edge["edge_type"], edge[
                 "weight"
             ], created_at, removed_at, self._pull_features(
-                edge, node_created_at, node_removed_at
+                edge, created_at, removed_at
             )
 
 
-- 
2.43.0


From efae5e396c21fab452a9fca2d877fe4df5cbae60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:23:34 +0000
Subject: [PATCH 29/83] fix: support dated values of binary and sparse features
 in json input

---
 .../deepgnn/graph_engine/snark/decoders.py     | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index bd551ea..7119e6b 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -9,6 +9,8 @@ from typing import TypeVar, Iterator, Tuple, Optional, List, Union
 
 import numpy as np
 
+from deepgnn.graph_engine.snark.converter.writers import convert_features
+
 
 class Decoder(abc.ABC):
     """Interface to convert one line of text into node object."""
@@ -343,9 +345,19 @@ class JsonDecoder(Decoder):
         ):
             temporal_metadata[idx] = int(it.get("created_at", created_at))
             temporal_metadata[idx + interval_count] = data.size
-            vals = np.array(it["values"], dtype=self.convert_map[key]).view(
-                dtype=np.byte
-            )
+            if key.startswith("sparse"):
+                vals = (
+                    np.array(it["coordinates"], dtype=np.int64),
+                    np.array(
+                        it["values"],
+                        dtype=self.convert_map[key.replace("sparse_", "")],
+                    ),
+                )
+            elif key == "binary_feature":
+                vals = "".join(it["values"])
+            else:
+                vals = np.array(it["values"], dtype=self.convert_map[key])
+            vals = np.frombuffer(convert_features([vals])[0] or b"", dtype=np.byte)
             data = np.concatenate((data, vals))
             temporal_metadata = data[4:original_len].view(dtype=np.int64)
             if "removed_at" in it:
-- 
2.43.0


From 9ba3d5b934195967e9c6522046c735c21edceed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:33:15 +0000
Subject: [PATCH 30/83] fix: do not write past the output when sampling without
 replacement from more edges than requested at a moment

---
 src/cc/lib/graph/graph.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/graph.cc b/src/cc/lib/graph/graph.cc
index 95de988..9ac744f 100644
--- a/src/cc/lib/graph/graph.cc
+++ b/src/cc/lib/graph/graph.cc
@@ -538,7 +538,8 @@ void Graph::UniformSampleNeighbor(bool without_replacement, bool return_edge_cre
 
             if (fill_edge_ts_by_partition)
             {
-                std::fill(std::begin(out_nb_ts) + (timestamps.empty() ? 0 : neighbors_total_count[node_index]),
+                std::fill(std::begin(out_nb_ts) +
+                              (timestamps.empty() ? 0 : std::min<size_t>(neighbors_total_count[node_index], count)),
                           std::end(out_nb_ts), snark::PLACEHOLDER_TIMESTAMP);
             }
         }
-- 
2.43.0


From ccfc9c9a41f373ed344cfaef6a9eecc0d2938753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:33:51 +0000
Subject: [PATCH 31/83] fix: sample without replacement from the right edges at
 a moment when visible edges are not adjacent

---
 src/cc/lib/graph/partition.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index d75dea6..c5c7fac 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -1495,6 +1495,7 @@ void Partition::UniformSampleNeighborWithoutReplacement(bool return_edge_created
                 }
                 const auto local_pos =
                     size_t((lst - std::begin(it_subspan)) + it_dist); // equivavlent of lst - std::begin(timestamp_span)
+                first += local_pos;
                 timestamp_span = timestamp_span.subspan(local_pos);
             }
         }
-- 
2.43.0


From d19e2b150e1d05e4e65dd2578fff5ac569995729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:34:25 +0000
Subject: [PATCH 32/83] fix: remember the number of merged neighbors when
 sampling without replacement from several servers

---
 src/cc/lib/graph/reservoir.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/reservoir.cc b/src/cc/lib/graph/reservoir.cc
index 6ceaa32..d8751c3 100644
--- a/src/cc/lib/graph/reservoir.cc
+++ b/src/cc/lib/graph/reservoir.cc
@@ -137,7 +137,7 @@ void WithoutReplacementMerge::add(size_t n, std::function<void(size_t, size_t)>
     }
 
     // Randomly shuffle the indices of the left and right reservoirs to determine final indices.
-    size_t left_size = m_seen;
+    size_t left_size = std::min(m_seen, m_k);
     size_t right_size = std::min(n, m_k);
     std::vector<size_t> left_indices(left_size);
     std::vector<size_t> right_indices(right_size);
@@ -169,6 +169,7 @@ void WithoutReplacementMerge::add(size_t n, std::function<void(size_t, size_t)>
             ++right_index;
         }
     }
+    m_seen += n;
 }
 
 void WithoutReplacementMerge::reset()
-- 
2.43.0


From d37564dc189df4c149e2acd461a868c219e679b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:52:38 +0000
Subject: [PATCH 33/83] fix: pick every subset of neighbors with the same
 probability when merging samples of servers

---
 src/cc/lib/graph/reservoir.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/reservoir.cc b/src/cc/lib/graph/reservoir.cc
index d8751c3..0b7a0aa 100644
--- a/src/cc/lib/graph/reservoir.cc
+++ b/src/cc/lib/graph/reservoir.cc
@@ -97,7 +97,8 @@ void sample_n(It first, It last, size_t n, snark::Xoroshiro128PlusGenerator &gen
     total_elements -= 1;
     for (size_t i = 0; i < total_elements; ++i)
     {
-        std::uniform_int_distribution<size_t> dist(i + 1, total_elements);
+        // An element must be able to keep its place, unless all of them are picked and only their order changes.
+        std::uniform_int_distribution<size_t> dist(n <= total_elements ? i : i + 1, total_elements);
         std::swap(first[i], first[dist(gen)]);
     }
 }
-- 
2.43.0


From 42ef60e2ab53ec43b671a75bd940fd261b1462d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:03:03 +0000
Subject: [PATCH 34/83] fix: sample nodes and edges when last servers have no
 elements of requested types

---
 src/cc/lib/graph/sampler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/sampler.cc b/src/cc/lib/graph/sampler.cc
index 6fb1904..dcdddd3 100644
--- a/src/cc/lib/graph/sampler.cc
+++ b/src/cc/lib/graph/sampler.cc
@@ -646,7 +646,8 @@ void conditional_probabilities(std::vector<float> &probs)
     for (auto p = std::rbegin(probs); p != std::rend(probs); p++)
     {
         sum_weight += *p;
-        *p /= sum_weight;
+        // There might be nothing to sample from the last elements.
+        *p = sum_weight > 0 ? *p / sum_weight : 0;
     }
 }
 
-- 
2.43.0


From 9f92906ae667e06aec2d57ff3c916b0fc475f3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:07:54 +0000
Subject: [PATCH 35/83] fix: do not ask servers for more elements than they
 have when sampling without replacement

---
 src/cc/lib/distributed/client.cc | 29 +++++++++++++++++++++++++++--
 src/cc/lib/distributed/client.h  |  1 +
 src/cc/lib/graph/sampler.cc      | 18 ++++++++++++++++++
 src/cc/lib/graph/sampler.h       |  5 +++++
 4 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/distributed/client.cc b/src/cc/lib/distributed/client.cc
index 0299b09..b670eb9 100644
--- a/src/cc/lib/distributed/client.cc
+++ b/src/cc/lib/distributed/client.cc
@@ -54,6 +54,19 @@ void WaitForFutures(std::vector<std::future<void>> &futures)
     }
 }
 
+// Number of elements to sample from a server when `left` elements are not sampled yet. Counts are
+// total numbers of elements available on servers, set only for sampling without replacement.
+size_t SampleCount(size_t left, std::span<const float> weights, std::span<const size_t> counts, size_t shard,
+                   snark::Xoroshiro128PlusGenerator &gen)
+{
+    if (counts.empty())
+    {
+        return boost::random::binomial_distribution<int32_t>(left, weights[shard])(gen);
+    }
+    const auto rest = std::accumulate(std::begin(counts) + shard + 1, std::end(counts), size_t(0));
+    return snark::without_replacement_count(left, counts[shard], rest, gen);
+}
+
 template <typename SparseRequest, typename NextCompletionQueue>
 void GetSparseFeature(const SparseRequest &request,
                       std::vector<std::unique_ptr<snark::GraphEngine::Stub>> &engine_stubs, size_t input_size,
@@ -916,12 +929,20 @@ uint64_t GRPCClient::CreateSampler(bool is_edge, CreateSamplerRequest_Category c
 
     WaitForFutures(futures);
 
+    // Weights of samplers without replacement are numbers of elements.
+    std::vector<size_t> sub_sampler_counts;
+    if (category == CreateSamplerRequest_Category_UNIFORM_WITHOUT_REPLACEMENT)
+    {
+        sub_sampler_counts.assign(std::begin(sub_sampler_weights), std::end(sub_sampler_weights));
+    }
+
     // Adjust weights for future sampling.
     conditional_probabilities(sub_sampler_weights);
     std::lock_guard l(m_sampler_mutex);
     uint64_t sampler_id = m_sampler_ids.size();
     m_sampler_ids.emplace_back(std::move(sub_sampler_ids));
     m_sampler_weights.emplace_back(std::move(sub_sampler_weights));
+    m_sampler_counts.emplace_back(std::move(sub_sampler_counts));
     return sampler_id;
 }
 
@@ -935,10 +956,12 @@ void GRPCClient::SampleNodes(int64_t seed, uint64_t sampler_id, std::span<NodeId
     std::vector<SampleReply> replies(m_sampler_stubs.size());
 
     std::span<const float> weights;
+    std::span<const size_t> counts;
     std::span<const uint64_t> sampler_ids;
     {
         std::lock_guard l(m_sampler_mutex);
         weights = std::span(m_sampler_weights[sampler_id].data(), m_sampler_stubs.size());
+        counts = std::span(m_sampler_counts[sampler_id].data(), m_sampler_counts[sampler_id].size());
 
         sampler_ids = std::span(m_sampler_ids[sampler_id].data(), m_sampler_stubs.size());
     }
@@ -956,7 +979,7 @@ void GRPCClient::SampleNodes(int64_t seed, uint64_t sampler_id, std::span<NodeId
         }
 
         auto *call = new AsyncClientCall();
-        const size_t element_count = boost::random::binomial_distribution<int32_t>(left, weights[shard])(gen);
+        const size_t element_count = SampleCount(left, weights, counts, shard, gen);
         left -= element_count;
 
         request.set_seed(subseed(gen));
@@ -990,10 +1013,12 @@ void GRPCClient::SampleEdges(int64_t seed, uint64_t sampler_id, std::span<NodeId
     std::vector<SampleReply> replies(m_sampler_stubs.size());
 
     std::span<const float> weights;
+    std::span<const size_t> counts;
     std::span<const uint64_t> sampler_ids;
     {
         std::lock_guard l(m_sampler_mutex);
         weights = std::span(m_sampler_weights[sampler_id].data(), m_sampler_stubs.size());
+        counts = std::span(m_sampler_counts[sampler_id].data(), m_sampler_counts[sampler_id].size());
         sampler_ids = std::span(m_sampler_ids[sampler_id].data(), m_sampler_stubs.size());
     }
 
@@ -1005,7 +1030,7 @@ void GRPCClient::SampleEdges(int64_t seed, uint64_t sampler_id, std::span<NodeId
     for (size_t shard = 0; shard < m_sampler_stubs.size() && left > 0; ++shard)
     {
         auto *call = new AsyncClientCall();
-        const size_t shard_count = boost::random::binomial_distribution<int32_t>(left, weights[shard])(gen);
+        const size_t shard_count = SampleCount(left, weights, counts, shard, gen);
         left -= shard_count;
 
         request.set_seed(subseed(gen));
diff --git a/src/cc/lib/distributed/client.h b/src/cc/lib/distributed/client.h
index 3000450..70d9f3d 100644
--- a/src/cc/lib/distributed/client.h
+++ b/src/cc/lib/distributed/client.h
@@ -96,6 +96,7 @@ class GRPCClient final
     std::mutex m_sampler_mutex;
     std::vector<std::vector<uint64_t>> m_sampler_ids;
     std::vector<std::vector<float>> m_sampler_weights;
+    std::vector<std::vector<size_t>> m_sampler_counts;
 
     std::function<void()> AsyncCompleteRpc(size_t i);
     grpc::CompletionQueue *NextCompletionQueue();
diff --git a/src/cc/lib/graph/sampler.cc b/src/cc/lib/graph/sampler.cc
index dcdddd3..ec1e91d 100644
--- a/src/cc/lib/graph/sampler.cc
+++ b/src/cc/lib/graph/sampler.cc
@@ -628,6 +628,24 @@ void SampleWithReplacement(int64_t seed, std::vector<std::span<const NodeId>> po
     }
 }
 
+size_t without_replacement_count(size_t count, size_t size, size_t rest, Xoroshiro128PlusGenerator &gen)
+{
+    size_t picked = 0;
+    for (count = std::min(count, size + rest); count > 0; --count)
+    {
+        if (boost::random::uniform_int_distribution<size_t>(1, size + rest)(gen) <= size)
+        {
+            ++picked;
+            --size;
+        }
+        else
+        {
+            --rest;
+        }
+    }
+    return picked;
+}
+
 void conditional_probabilities(std::vector<float> &probs)
 {
     // Conditional probabilities for sequential sampling: after we are done with
diff --git a/src/cc/lib/graph/sampler.h b/src/cc/lib/graph/sampler.h
index 0da46d1..fca95fa 100644
--- a/src/cc/lib/graph/sampler.h
+++ b/src/cc/lib/graph/sampler.h
@@ -18,6 +18,7 @@
 #include "logger.h"
 #include "metadata.h"
 #include "types.h"
+#include "xoroshiro.h"
 
 namespace snark
 {
@@ -26,6 +27,10 @@ namespace snark
 // multinomial sampling from partitions.
 void conditional_probabilities(std::vector<float> &w);
 
+// How many of `count` elements picked without replacement from `size + rest` elements are among
+// the first `size` ones.
+size_t without_replacement_count(size_t count, size_t size, size_t rest, Xoroshiro128PlusGenerator &gen);
+
 // https://en.wikipedia.org/wiki/Reservoir_sampling
 // Complexity: O(k * (1 + log(N/k)))
 // Another possible implementation Format-Preserving Encryption
-- 
2.43.0


From e1d4d28349c74960256eb92f2f9827b1c2cb643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:12:19 +0000
Subject: [PATCH 36/83] fix: do not draw more elements of a type or partition
 than requested when sampling without replacement

---
 src/cc/lib/graph/sampler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/graph/sampler.cc b/src/cc/lib/graph/sampler.cc
index ec1e91d..cc0df4f 100644
--- a/src/cc/lib/graph/sampler.cc
+++ b/src/cc/lib/graph/sampler.cc
@@ -101,7 +101,7 @@ void SamplerImpl<Partition, element>::Sample(int64_t seed, std::span<Type> out_t
             // Make sure we don't sample too little.
             if (left - type_count > m_type_min[i])
             {
-                type_count = m_type_max[i];
+                type_count = std::min(left - m_type_min[i], m_type_max[i]);
             }
         }
 
@@ -121,7 +121,7 @@ void SamplerImpl<Partition, element>::Sample(int64_t seed, std::span<Type> out_t
                 // Make sure we don't sample too little and handle larger than sample size output buffer.
                 if (left_items - item_count > m_partition_min[i][p])
                 {
-                    item_count = m_partition_max[i][p];
+                    item_count = std::min(left_items - m_partition_min[i][p], m_partition_max[i][p]);
                 }
             }
 
-- 
2.43.0


From c56013791701feceaa3fedc184b848308c32d674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:20:44 +0000
Subject: [PATCH 37/83] fix: skip edges removed at the requested time when
 selecting last created neighbors

---
 src/cc/lib/graph/partition.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index c5c7fac..98ad3dc 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -825,7 +825,7 @@ size_t Partition::LastNCreatedNeighbors(bool return_edge_created_ts, uint64_t in
         for (size_t index = start; index < last; ++index)
         {
             auto &ts = m_edge_timestamps[index];
-            if ((ts.second != -1 && ts.second < timestamp) || ts.first > timestamp)
+            if ((ts.second != -1 && ts.second <= timestamp) || ts.first > timestamp)
             {
                 continue;
             }
-- 
2.43.0


From dd1d3583a34bfaa048ede2ddadc1886a43d631fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:21:55 +0000
Subject: [PATCH 38/83] fix: make steps of random walks only along existing
 edges

---
 src/cc/lib/py_graph.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index d92d181..49e2ab0 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -940,11 +940,14 @@ int32_t RandomWalk(PyGraph *py_graph, int64_t seed, float p, float q, NodeID def
         size_t nb_offset = 0;
         for (size_t index = 0; index < in_node_ids_size; ++index)
         {
-            // Look up parent transitional probability via map to find edge weight.
-            auto parent = t_nbs[index].find(curr_nodes[index]);
-            if (parent != std::end(t_nbs[index]))
+            // There is no parent on the first step, so every neighbor has the same factor.
+            const bool has_parent = curr_step > 0;
+            for (size_t nb_index = nb_offset; has_parent && nb_index < nb_offset + curr_counts[index]; ++nb_index)
             {
-                transition_node_prob.emplace_back(past_nodes[index], parent->second / p);
+                if (neighbors[nb_index] == past_nodes[index])
+                {
+                    transition_node_prob.emplace_back(past_nodes[index], weights[nb_index] / p);
+                }
             }
 
             for (size_t nb_index = 0; nb_index < curr_counts[index]; ++nb_index, ++nb_offset)
@@ -952,7 +955,7 @@ int32_t RandomWalk(PyGraph *py_graph, int64_t seed, float p, float q, NodeID def
                 const auto node = neighbors[nb_offset];
                 const auto weight = weights[nb_offset];
                 // Skip parent node, because it was added above.
-                if (node == past_nodes[index])
+                if (has_parent && node == past_nodes[index])
                 {
                     continue;
                 }
-- 
2.43.0


From 1ce8b09a550f0aafe0e1226e002df1ecd756bb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:22:31 +0000
Subject: [PATCH 39/83] fix: look up neighbor counts at the right times when
 ranking neighbors of temporal graphs

---
 src/cc/lib/py_graph.cc | 50 ++++++++++--------------------------------
 1 file changed, 12 insertions(+), 38 deletions(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index 49e2ab0..f497013 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -1034,7 +1034,6 @@ typedef struct
     absl::flat_hash_map<std::pair<NodeID, Timestamp>, std::vector<NodeID>> lookup_neighbors;
     std::vector<NodeID> node_ids;
     std::vector<Timestamp> timestamps;
-    std::vector<size_t> nb_index;
     std::vector<uint64_t> counts;
 
     std::vector<NodeID> nb_ids;
@@ -1045,40 +1044,23 @@ typedef struct
 } NB_Count_Cache;
 
 // Cache neighbor counts for each node in the input list.
-void lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache, const std::vector<NodeID> &neighbors,
-                            Type *in_edge_types, size_t in_edge_types_size, Timestamp *timestamps)
+void lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache,
+                            const absl::flat_hash_set<std::pair<NodeID, Timestamp>> &neighbors, Type *in_edge_types,
+                            size_t in_edge_types_size, bool use_timestamps)
 {
     assert(cache.node_ids.empty());
     assert(cache.counts.empty());
-    assert(cache.nb_index.empty());
+    assert(cache.timestamps.empty());
 
-    // It is better to keep unique nodes off cache object, because internal buckets reuse between requests leads to
-    // slower performance.
-    absl::flat_hash_set<std::pair<NodeID, Timestamp>> unique_nodes;
-    for (size_t nb_index = 0; nb_index < neighbors.size(); ++nb_index)
+    for (const auto &node_ts : neighbors)
     {
-        const auto node_id = neighbors[nb_index];
-        const auto timestamp = timestamps == nullptr ? -1 : timestamps[nb_index];
-        auto it = cache.lookup_count.find({node_id, timestamp});
-        if (it != cache.lookup_count.end())
+        if (cache.lookup_count.find(node_ts) != std::end(cache.lookup_count))
         {
             continue;
         }
-        else
-        {
-            if (unique_nodes.find({node_id, timestamp}) == std::end(unique_nodes))
-            {
-                const auto new_index = cache.node_ids.size();
-                cache.node_ids.emplace_back(node_id);
-                if (timestamps != nullptr)
-                {
-                    timestamps[new_index] = timestamp;
-                }
-                unique_nodes.emplace(node_id, timestamp);
-            }
 
-            cache.nb_index.emplace_back(nb_index);
-        }
+        cache.node_ids.emplace_back(node_ts.first);
+        cache.timestamps.emplace_back(node_ts.second);
     }
 
     if (cache.node_ids.empty())
@@ -1089,17 +1071,16 @@ void lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache, const std:
     const size_t request_nodes_size = cache.node_ids.size();
     cache.counts.resize(request_nodes_size);
     NeighborCount(py_graph, cache.node_ids.data(), request_nodes_size,
-                  timestamps == nullptr ? timestamps : cache.timestamps.data(), in_edge_types, in_edge_types_size,
+                  use_timestamps ? cache.timestamps.data() : nullptr, in_edge_types, in_edge_types_size,
                   cache.counts.data());
     for (size_t i = 0; i < request_nodes_size; ++i)
     {
-        const auto timestamp = timestamps == nullptr ? -1 : timestamps[i];
-        cache.lookup_count[{cache.node_ids[i], timestamp}] = cache.counts[i];
+        cache.lookup_count[{cache.node_ids[i], cache.timestamps[i]}] = cache.counts[i];
     }
 
     cache.node_ids.clear();
+    cache.timestamps.clear();
     cache.counts.clear();
-    cache.nb_index.clear();
 }
 
 // Cache neighbor lists for each node in the input list.
@@ -1146,15 +1127,8 @@ void lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
     }
 
     cache.node_ids.clear();
-    cache.nb_ids.clear();
-    cache.nb_ids.reserve(input.size());
-    for (const auto &nt : input)
-    {
-        cache.nb_ids.emplace_back(nt.first);
-    }
-
-    lookup_neighbor_counts(py_graph, cache, cache.nb_ids, in_edge_types, in_edge_types_size, mutable_timestamps);
     cache.timestamps.clear();
+    lookup_neighbor_counts(py_graph, cache, input, in_edge_types, in_edge_types_size, timestamps != nullptr);
     cache.nb_types.clear();
     cache.nb_weights.clear();
     cache.nb_ids.clear();
-- 
2.43.0


From a3eb4b0d0bbd1b3332781633142dc22eba7d7043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:30:03 +0000
Subject: [PATCH 40/83] fix: allow to pickle distributed clients

---
 src/python/deepgnn/graph_engine/snark/distributed.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/distributed.py b/src/python/deepgnn/graph_engine/snark/distributed.py
index fca4834..20710c4 100644
--- a/src/python/deepgnn/graph_engine/snark/distributed.py
+++ b/src/python/deepgnn/graph_engine/snark/distributed.py
@@ -48,12 +48,12 @@ class Client(ge_snark.Client):
 
     def __reduce__(self):
         """On serialize reload as new client."""
+        return _deserialize, (self._servers, self._ssl_cert)
 
-        def deserialize(*args):
-            get_logger().setLevel(logging.ERROR)
-            return Client(*args)
 
-        return deserialize, (self._servers, self._ssl_cert)
+def _deserialize(*args) -> Client:
+    get_logger().setLevel(logging.ERROR)
+    return Client(*args)
 
 
 class Server:
-- 
2.43.0


From 26a7175c8975b4ea6e56c50b8ba3d2af4e22a01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:30:03 +0000
Subject: [PATCH 41/83] fix: load requested partitions in local client

---
 src/python/deepgnn/graph_engine/snark/local.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index 58dea18..78706e9 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -37,9 +37,7 @@ class Client(Graph):
         if len(partitions) == 0:
             self.logger.info("Partitions not set, defaulting to [0]")
             partitions = [0]
-        partitions_with_paths = [
-            (path, partition) for partition in range(len(partitions))
-        ]
+        partitions_with_paths = [(path, partition) for partition in partitions]
         self.logger.info(
             f"Graph data path: {path}. Partitions {partitions}. Storage type {storage_type}. Config path {config_path}. Stream {stream}."
         )
-- 
2.43.0


From 1dc1e8ea6b90dca85a23b3e282fe8fd7429c8c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:30:03 +0000
Subject: [PATCH 42/83] fix: keep edge samplers of different strategies apart

---
 src/python/deepgnn/graph_engine/snark/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index 78706e9..c7914a6 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -82,7 +82,7 @@ class Client(Graph):
         """Return an array of edges with a specified type."""
         assert size > 0
 
-        key = str(edge_types)
+        key = _sampling_map[strategy] + str(edge_types)
         if key not in self.edge_samplers:
             self.edge_samplers[key] = client.EdgeSampler(
                 self.graph, self.__check_types(edge_types), _sampling_map[strategy]
-- 
2.43.0


From e3a6bf0daca228933a59304b46ee02da204e3ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:30:03 +0000
Subject: [PATCH 43/83] fix: use default edge type when sampling neighbors by
 weight

---
 src/python/deepgnn/graph_engine/snark/local.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index c7914a6..5961efa 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -118,6 +118,7 @@ class Client(Graph):
                 count,
                 default_node,
                 default_weight,
+                default_edge_type,
                 seed=int(random.getrandbits(64)),
                 timestamps=timestamps,
                 return_edge_created_ts=return_edge_created_ts,
-- 
2.43.0


From 83ddff1f464dad1c45b2ad93978b2b52ceeded71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:41:53 +0000
Subject: [PATCH 44/83] fix: report failures of servers when selecting last
 created neighbors

---
 src/cc/lib/py_graph.cc | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index f497013..99e6f87 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -857,25 +857,25 @@ int32_t LastNCreatedNeighbor(PyGraph *py_graph, bool return_edge_created_ts, Nod
         return 0;
     }
 
-    // try
-    // {
-    py_graph->graph->client->LastNCreated(
-        return_edge_created_ts, std::span(reinterpret_cast<snark::NodeId *>(in_node_ids), in_node_ids_size),
-        std::span(reinterpret_cast<snark::Type *>(in_edge_types), in_edge_types_size),
-        std::span(reinterpret_cast<snark::Timestamp *>(timestamps), in_node_ids_size), count,
-        std::span(reinterpret_cast<snark::NodeId *>(out_neighbor_ids), out_size),
-        std::span(reinterpret_cast<snark::Type *>(out_types), out_size),
-        std::span(reinterpret_cast<float *>(out_weights), out_size),
-        std::span(reinterpret_cast<Timestamp *>(out_timestamps), out_size), default_node_id, default_weight,
-        default_edge_type, default_timestamp);
+    try
+    {
+        py_graph->graph->client->LastNCreated(
+            return_edge_created_ts, std::span(reinterpret_cast<snark::NodeId *>(in_node_ids), in_node_ids_size),
+            std::span(reinterpret_cast<snark::Type *>(in_edge_types), in_edge_types_size),
+            std::span(reinterpret_cast<snark::Timestamp *>(timestamps), in_node_ids_size), count,
+            std::span(reinterpret_cast<snark::NodeId *>(out_neighbor_ids), out_size),
+            std::span(reinterpret_cast<snark::Type *>(out_types), out_size),
+            std::span(reinterpret_cast<float *>(out_weights), out_size),
+            std::span(reinterpret_cast<Timestamp *>(out_timestamps), out_size), default_node_id, default_weight,
+            default_edge_type, default_timestamp);
 
-    return 0;
-    // }
-    // catch (const std::exception &e)
-    // {
-    //     RAW_LOG_ERROR("Exception while selecting last n created neighbors: %s", e.what());
-    //     return 1;
-    // }
+        return 0;
+    }
+    catch (const std::exception &e)
+    {
+        RAW_LOG_ERROR("Exception while selecting last n created neighbors: %s", e.what());
+        return 1;
+    }
 }
 
 // Expected length of out_node_ids buffer is (walk_length + 1) * in_node_ids_size
-- 
2.43.0


From e4da0903172fef470067dff92a14c67f53bb6aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:57:38 +0000
Subject: [PATCH 45/83] fix: wait for all servers before reporting a failed
 request

---
 src/cc/lib/distributed/client.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cc/lib/distributed/client.cc b/src/cc/lib/distributed/client.cc
index b670eb9..bbd7564 100644
--- a/src/cc/lib/distributed/client.cc
+++ b/src/cc/lib/distributed/client.cc
@@ -48,6 +48,12 @@ struct AsyncClientCall
 
 void WaitForFutures(std::vector<std::future<void>> &futures)
 {
+    // Callbacks use local variables of callers, wait for all of them before throwing an exception.
+    for (auto &f : futures)
+    {
+        f.wait();
+    }
+
     for (auto &f : futures)
     {
         f.get();
-- 
2.43.0


From 98754b04713b695ee636541f7b21cccf9f6d3a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:58:26 +0000
Subject: [PATCH 46/83] fix: limit delays between attempts by maximum backoff

---
 src/python/deepgnn/graph_engine/snark/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index c82129b..e083fd7 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -1430,7 +1430,7 @@ class DistributedGraph(MemoryGraph):
             wait=wait_exponential(
                 multiplier=retry_ops["backoff_multiplier"],
                 min=retry_ops["initial_backoff"],
-                max=retry_ops["max_attempts"],
+                max=retry_ops["max_backoff"],
             ),
             before=before_log(get_logger(), logging.DEBUG),
             after=after_log(get_logger(), logging.WARNING),
-- 
2.43.0


From f832e29c7fd6a9326724c0ac0a8a2dab32bf9c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:59:45 +0000
Subject: [PATCH 47/83] fix: report failures of servers during random walks

---
 src/cc/lib/py_graph.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index 99e6f87..5a5f274 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -935,8 +935,13 @@ int32_t RandomWalk(PyGraph *py_graph, int64_t seed, float p, float q, NodeID def
         weights.resize(0);
         types.resize(0);
         edge_created_ts.resize(0);
-        GetNeighborsInternal(py_graph, false, curr_nodes.data(), curr_nodes.size(), timestamps, in_edge_types,
-                             in_edge_types_size, curr_counts.data(), neighbors, types, weights, edge_created_ts);
+        const auto res = GetNeighborsInternal(py_graph, false, curr_nodes.data(), curr_nodes.size(), timestamps,
+                                              in_edge_types, in_edge_types_size, curr_counts.data(), neighbors, types,
+                                              weights, edge_created_ts);
+        if (res != 0)
+        {
+            return res;
+        }
         size_t nb_offset = 0;
         for (size_t index = 0; index < in_node_ids_size; ++index)
         {
-- 
2.43.0


From 6e15c4d5ec61e83b1d19053aa0824b297d81c1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:02:58 +0000
Subject: [PATCH 48/83] fix: report failures of servers when ranking neighbors

---
 src/cc/lib/py_graph.cc                        | 45 ++++++++++++-------
 .../deepgnn/graph_engine/snark/client.py      |  3 +-
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/cc/lib/py_graph.cc b/src/cc/lib/py_graph.cc
index 5a5f274..143c404 100644
--- a/src/cc/lib/py_graph.cc
+++ b/src/cc/lib/py_graph.cc
@@ -1049,9 +1049,9 @@ typedef struct
 } NB_Count_Cache;
 
 // Cache neighbor counts for each node in the input list.
-void lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache,
-                            const absl::flat_hash_set<std::pair<NodeID, Timestamp>> &neighbors, Type *in_edge_types,
-                            size_t in_edge_types_size, bool use_timestamps)
+int32_t lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache,
+                               const absl::flat_hash_set<std::pair<NodeID, Timestamp>> &neighbors, Type *in_edge_types,
+                               size_t in_edge_types_size, bool use_timestamps)
 {
     assert(cache.node_ids.empty());
     assert(cache.counts.empty());
@@ -1070,14 +1070,18 @@ void lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache,
 
     if (cache.node_ids.empty())
     {
-        return;
+        return 0;
     }
 
     const size_t request_nodes_size = cache.node_ids.size();
     cache.counts.resize(request_nodes_size);
-    NeighborCount(py_graph, cache.node_ids.data(), request_nodes_size,
-                  use_timestamps ? cache.timestamps.data() : nullptr, in_edge_types, in_edge_types_size,
-                  cache.counts.data());
+    const auto res = NeighborCount(py_graph, cache.node_ids.data(), request_nodes_size,
+                                   use_timestamps ? cache.timestamps.data() : nullptr, in_edge_types,
+                                   in_edge_types_size, cache.counts.data());
+    if (res != 0)
+    {
+        return res;
+    }
     for (size_t i = 0; i < request_nodes_size; ++i)
     {
         cache.lookup_count[{cache.node_ids[i], cache.timestamps[i]}] = cache.counts[i];
@@ -1086,12 +1090,13 @@ void lookup_neighbor_counts(PyGraph *py_graph, NB_Count_Cache &cache,
     cache.node_ids.clear();
     cache.timestamps.clear();
     cache.counts.clear();
+    return 0;
 }
 
 // Cache neighbor lists for each node in the input list.
-void lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
-                           absl::flat_hash_set<std::pair<NodeID, Timestamp>> input, Type *in_edge_types,
-                           size_t in_edge_types_size, Timestamp *timestamps)
+int32_t lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
+                              absl::flat_hash_set<std::pair<NodeID, Timestamp>> input, Type *in_edge_types,
+                              size_t in_edge_types_size, Timestamp *timestamps)
 {
     assert(cache.node_ids.empty());
     for (auto node_ts : input)
@@ -1111,9 +1116,14 @@ void lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
     if (!cache.node_ids.empty())
     {
         cache.nb_counts.resize(cache.node_ids.size());
-        GetNeighborsInternal(py_graph, false, cache.node_ids.data(), cache.node_ids.size(), mutable_timestamps,
-                             in_edge_types, in_edge_types_size, cache.nb_counts.data(), cache.nb_ids, cache.nb_types,
-                             cache.nb_weights, cache.edge_created_ts);
+        const auto res = GetNeighborsInternal(py_graph, false, cache.node_ids.data(), cache.node_ids.size(),
+                                              mutable_timestamps, in_edge_types, in_edge_types_size,
+                                              cache.nb_counts.data(), cache.nb_ids, cache.nb_types, cache.nb_weights,
+                                              cache.edge_created_ts);
+        if (res != 0)
+        {
+            return res;
+        }
         assert(cache.edge_created_ts.empty());
 
         auto nb_offset = std::begin(cache.nb_ids);
@@ -1133,10 +1143,10 @@ void lookup_neighbor_lists(PyGraph *py_graph, NB_Count_Cache &cache,
 
     cache.node_ids.clear();
     cache.timestamps.clear();
-    lookup_neighbor_counts(py_graph, cache, input, in_edge_types, in_edge_types_size, timestamps != nullptr);
     cache.nb_types.clear();
     cache.nb_weights.clear();
     cache.nb_ids.clear();
+    return lookup_neighbor_counts(py_graph, cache, input, in_edge_types, in_edge_types_size, timestamps != nullptr);
 }
 
 } // namespace
@@ -1181,7 +1191,12 @@ int32_t PPRSampleNeighbor(PyGraph *py_graph, NodeID *in_node_ids, size_t in_node
                 new_nodes.insert({node_id, timestamps == nullptr ? -1 : timestamps[node_index]});
             }
         }
-        lookup_neighbor_lists(py_graph, nb_cache, std::move(new_nodes), in_edge_types, in_edge_types_size, timestamps);
+        const auto res = lookup_neighbor_lists(py_graph, nb_cache, std::move(new_nodes), in_edge_types,
+                                               in_edge_types_size, timestamps);
+        if (res != 0)
+        {
+            return res;
+        }
         for (size_t node_index = 0; node_index < in_node_ids_size; ++node_index)
         {
             if (q[node_index].empty())
diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index e083fd7..0696fd2 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -1138,7 +1138,8 @@ class MemoryGraph:
         etypes_arr = TypeArray(*edge_types)
         result_nodes = np.full((len(nodes), count), default_node, dtype=np.int64)
         result_weights = np.full((len(nodes), count), default_weight, dtype=np.float32)
-        self.lib.PPRSampleNeighbor(
+        self._retryer(
+            self.lib.PPRSampleNeighbor,
             self.g_,
             nodes.ctypes.data_as(POINTER(c_int64)),
             c_size_t(nodes.size),
-- 
2.43.0


From 2768e11471aaa942208c0dc057a0907ebd0cf306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:03:41 +0000
Subject: [PATCH 49/83] fix: reject requests to samplers unknown to a server

---
 src/cc/lib/distributed/call_data.cc     | 4 ++--
 src/cc/lib/distributed/client.cc        | 5 +++++
 src/cc/lib/distributed/graph_sampler.cc | 4 ++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/distributed/call_data.cc b/src/cc/lib/distributed/call_data.cc
index ac46389..aaa1c26 100644
--- a/src/cc/lib/distributed/call_data.cc
+++ b/src/cc/lib/distributed/call_data.cc
@@ -261,9 +261,9 @@ void SampleElementsCallData::Proceed()
     else if (m_status == PROCESS)
     {
         new SampleElementsCallData(m_service, m_cq, m_service_impl);
-        m_service_impl.Sample(&m_ctx, &m_request, &m_reply);
+        const auto status = m_service_impl.Sample(&m_ctx, &m_request, &m_reply);
         m_status = FINISH;
-        m_responder.Finish(m_reply, grpc::Status::OK, this);
+        m_responder.Finish(m_reply, status, this);
     }
     else
     {
diff --git a/src/cc/lib/distributed/client.cc b/src/cc/lib/distributed/client.cc
index bbd7564..f42b636 100644
--- a/src/cc/lib/distributed/client.cc
+++ b/src/cc/lib/distributed/client.cc
@@ -1035,6 +1035,11 @@ void GRPCClient::SampleEdges(int64_t seed, uint64_t sampler_id, std::span<NodeId
 
     for (size_t shard = 0; shard < m_sampler_stubs.size() && left > 0; ++shard)
     {
+        if (sampler_ids[shard] == empty_sampler_id)
+        {
+            continue;
+        }
+
         auto *call = new AsyncClientCall();
         const size_t shard_count = SampleCount(left, weights, counts, shard, gen);
         left -= shard_count;
diff --git a/src/cc/lib/distributed/graph_sampler.cc b/src/cc/lib/distributed/graph_sampler.cc
index 6bc2321..23e11c5 100644
--- a/src/cc/lib/distributed/graph_sampler.cc
+++ b/src/cc/lib/distributed/graph_sampler.cc
@@ -79,6 +79,10 @@ grpc::Status GraphSamplerServiceImpl::Sample(::grpc::ServerContext *context, con
     snark::Sampler *sampler;
     {
         std::lock_guard l(m_mutex);
+        if (request->sampler_id() >= m_samplers.size())
+        {
+            return grpc::Status(grpc::StatusCode::FAILED_PRECONDITION, "Failed to find sampler");
+        }
         sampler = m_samplers[request->sampler_id()].get();
     }
 
-- 
2.43.0


From cadcc18d0e42f5df4c58511938f6a6a9376c9f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:30:14 +0000
Subject: [PATCH 50/83] fix: keep order of variable-length features of nodes
 stored in several partitions

---
 src/cc/lib/graph/partition.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 98ad3dc..75dec97 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -5,6 +5,7 @@
 #include <cstdio>
 #include <cstring>
 #include <limits>
+#include <numeric>
 #include <queue>
 #include <span>
 #include <string>
@@ -642,16 +643,17 @@ void Partition::GetNodeStringFeature(uint64_t internal_node_id, std::optional<Ti
             continue;
         }
 
-        // Overwrite old string features.
-        if (feature_flags[feature_index] >= 0)
-        {
-            const auto new_size = out_values.size() - out_dimensions[feature_index];
-            out_values.resize(new_size);
-        }
+        // Other partitions might have already added an old value of this feature and values of the next features.
+        const auto next_values = std::accumulate(std::begin(out_dimensions) + feature_index + 1,
+                                                 std::end(out_dimensions), int64_t(0));
+        const auto position = std::end(out_values) - next_values;
+        std::vector<uint8_t> tail(position, std::end(out_values));
+        out_values.erase(position - out_dimensions[feature_index], std::end(out_values));
 
         feature_flags[feature_index] = feature_ts;
         deserialize_string_features(data_offset, stored_size, m_node_features, file_ptr, out_dimensions[feature_index],
                                     out_values);
+        out_values.insert(std::end(out_values), std::begin(tail), std::end(tail));
     }
 }
 
-- 
2.43.0


From b9aef910f4cd165807a45051bafe317157e219b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:30:20 +0000
Subject: [PATCH 51/83] fix: use own timestamps of variable-length features in
 replies of servers

---
 src/cc/lib/distributed/graph_engine.cc | 16 ++++++----------
 src/cc/lib/graph/merger.h              |  4 +---
 2 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/cc/lib/distributed/graph_engine.cc b/src/cc/lib/distributed/graph_engine.cc
index 47a72ce..b25a836 100644
--- a/src/cc/lib/distributed/graph_engine.cc
+++ b/src/cc/lib/distributed/graph_engine.cc
@@ -335,6 +335,7 @@ grpc::Status GraphEngineServiceImpl::GetNodeStringFeatures(::grpc::ServerContext
     auto *reply_dimensions = response->mutable_dimensions();
 
     reply_dimensions->Resize(int(features_size * nodes_size), 0);
+    response->mutable_timestamps()->Resize(int(features_size * nodes_size), -1);
     auto dimensions = std::span(reply_dimensions->mutable_data(), reply_dimensions->size());
     std::vector<uint8_t> values;
     absl::InlinedVector<Timestamp, 1024> feature_flags(features.size());
@@ -361,11 +362,8 @@ grpc::Status GraphEngineServiceImpl::GetNodeStringFeatures(::grpc::ServerContext
                 features, std::span(feature_flags), dims_span, values);
         }
 
-        if (std::any_of(std::begin(feature_flags), std::end(feature_flags),
-                        [](snark::Timestamp ts) { return ts >= 0; }))
-        {
-            response->mutable_timestamps()->Add(std::begin(feature_flags), std::end(feature_flags));
-        }
+        std::copy(std::begin(feature_flags), std::end(feature_flags),
+                  response->mutable_timestamps()->begin() + features_size * node_offset);
     }
 
     response->mutable_values()->append(std::begin(values), std::end(values));
@@ -385,6 +383,7 @@ grpc::Status GraphEngineServiceImpl::GetEdgeStringFeatures(::grpc::ServerContext
     const auto features_size = features.size();
     auto *reply_dimensions = response->mutable_dimensions();
     reply_dimensions->Resize(int(features_size * len), 0);
+    response->mutable_timestamps()->Resize(int(features_size * len), -1);
     auto dimensions = std::span(reply_dimensions->mutable_data(), reply_dimensions->size());
     std::vector<uint8_t> values;
     absl::InlinedVector<Timestamp, 1024> feature_flags(features.size());
@@ -409,11 +408,8 @@ grpc::Status GraphEngineServiceImpl::GetEdgeStringFeatures(::grpc::ServerContext
                 features, std::span(feature_flags), dimensions.subspan(features_size * edge_offset, features_size),
                 values);
         }
-        if (std::any_of(std::begin(feature_flags), std::end(feature_flags),
-                        [](snark::Timestamp ts) { return ts >= 0; }))
-        {
-            response->mutable_timestamps()->Add(std::begin(feature_flags), std::end(feature_flags));
-        }
+        std::copy(std::begin(feature_flags), std::end(feature_flags),
+                  response->mutable_timestamps()->begin() + features_size * edge_offset);
     }
 
     response->mutable_values()->append(std::begin(values), std::end(values));
diff --git a/src/cc/lib/graph/merger.h b/src/cc/lib/graph/merger.h
index 08661a0..b9c4024 100644
--- a/src/cc/lib/graph/merger.h
+++ b/src/cc/lib/graph/merger.h
@@ -143,7 +143,6 @@ void UpdateStringFeatureIndex(StringFeaturesReply &reply, std::mutex &mtx,
     }
 
     int64_t value_offset = 0;
-    int64_t ts_index = 0;
     for (int64_t feature_index = 0; feature_index < reply.dimensions().size(); ++feature_index)
     {
         const auto dim = reply.dimensions(feature_index);
@@ -153,8 +152,7 @@ void UpdateStringFeatureIndex(StringFeaturesReply &reply, std::mutex &mtx,
         }
 
         std::lock_guard lock(mtx);
-        const auto ts = reply.timestamps(ts_index);
-        ++ts_index;
+        const auto ts = reply.timestamps(feature_index);
         if (std::get<2>(response_index[feature_index]) <= ts)
         {
             response_index[feature_index] = {shard, value_offset, ts};
-- 
2.43.0


From 08db6914ec524102751c1316638d4b2675663686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:30:48 +0000
Subject: [PATCH 52/83] fix: drop all coordinates of a sparse feature replaced
 by a newer one

---
 src/cc/lib/graph/partition.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index 75dec97..f554d00 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -578,7 +578,13 @@ void Partition::GetNodeSparseFeature(uint64_t internal_node_id, std::optional<Ti
         // Overwrite old string features.
         if (feature_flags[feature_index] >= 0)
         {
-            const auto new_indices_size = out_indices[feature_index].size() - out_dimensions[feature_index] - 1;
+            const size_t coordinate_size = out_dimensions[feature_index] + 1;
+            auto new_indices_size = out_indices[feature_index].size();
+            while (new_indices_size >= coordinate_size &&
+                   out_indices[feature_index][new_indices_size - coordinate_size] == prefix)
+            {
+                new_indices_size -= coordinate_size;
+            }
             out_indices[feature_index].resize(new_indices_size);
             const auto new_values_size = out_values[feature_index].size() - values_sizes[feature_index];
             out_values[feature_index].resize(new_values_size);
-- 
2.43.0


From 28f7ef1a3b1b99004879be88711a1b896ae897de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:30:48 +0000
Subject: [PATCH 53/83] fix: pick the latest values of sparse features stored
 on several servers

---
 src/cc/lib/graph/merger.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/cc/lib/graph/merger.h b/src/cc/lib/graph/merger.h
index b9c4024..1ccd5e3 100644
--- a/src/cc/lib/graph/merger.h
+++ b/src/cc/lib/graph/merger.h
@@ -114,17 +114,16 @@ void UpdateSparseFeatureIndex(SparseFeaturesReply &reply, std::vector<snark::Spa
         {
             const auto item_index = reply.indices(node_offset);
             auto &response_index_item = response_index[item_index * feature_count + feature_index];
-            if (reply.timestamps(item_index * feature_count + feature_index) <= response_index_item.timestamp ||
-                (response_index_item.shard >= 0 && response_index_item.shard != int(shard)))
+            if (response_index_item.shard != int(shard))
             {
-                continue;
-            }
+                // Pick the latest value across all shards.
+                const auto ts = reply.timestamps(item_index * feature_count + feature_index);
+                if (ts <= response_index_item.timestamp)
+                {
+                    continue;
+                }
 
-            if (response_index_item.index_count == 0)
-            {
-                response_index_item.shard = shard;
-                response_index_item.index_offset = node_offset;
-                response_index_item.value_offset = value_offset;
+                response_index_item = {int(shard), int(node_offset), 0, int(value_offset), 0, ts};
             }
             response_index_item.index_count += feature_dim;
             response_index_item.value_count += value_increment;
-- 
2.43.0


From 71ebfb78ac3faea05a0956a918be4293b17d24a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:33:34 +0000
Subject: [PATCH 54/83] fix: look for dense features missing in one partition
 in the other ones

---
 src/cc/lib/graph/partition.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cc/lib/graph/partition.cc b/src/cc/lib/graph/partition.cc
index f554d00..2ac0b21 100644
--- a/src/cc/lib/graph/partition.cc
+++ b/src/cc/lib/graph/partition.cc
@@ -502,6 +502,13 @@ void Partition::GetNodeFeature(uint64_t internal_id, std::optional<Timestamp> no
         Timestamp feature_ts = 0;
         auto data_offset = m_node_feature_index[feature_index_offset + feature_id];
         auto stored_size = m_node_feature_index[feature_index_offset + feature_id + 1] - data_offset;
+        // Feature is empty, but another partition might have it.
+        if (stored_size == 0)
+        {
+            curr += feature_size;
+            continue;
+        }
+
         if (node_ts.has_value())
         {
             std::tie(data_offset, stored_size, feature_ts) =
-- 
2.43.0


From 32cbf3eef9691f50225485799cdfb742ef1771c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:37:40 +0000
Subject: [PATCH 55/83] fix: load partitions consisting of several files

---
 src/cc/lib/distributed/graph_engine.cc | 2 +-
 src/cc/lib/graph/graph.cc              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/distributed/graph_engine.cc b/src/cc/lib/distributed/graph_engine.cc
index b25a836..68a447e 100644
--- a/src/cc/lib/distributed/graph_engine.cc
+++ b/src/cc/lib/distributed/graph_engine.cc
@@ -86,7 +86,7 @@ GraphEngineServiceImpl::GraphEngineServiceImpl(snark::Metadata metadata, std::ve
         for (size_t i = 0; i < suffixes.size(); ++i)
         {
             m_partitions.emplace_back(m_metadata, paths[partition_index], suffixes[i], storage_type);
-            ReadNodeMap(paths[partition_index], suffixes[i], partition_index);
+            ReadNodeMap(paths[partition_index], suffixes[i], uint32_t(m_partitions.size() - 1));
         }
     }
 }
diff --git a/src/cc/lib/graph/graph.cc b/src/cc/lib/graph/graph.cc
index 9ac744f..dc8bb66 100644
--- a/src/cc/lib/graph/graph.cc
+++ b/src/cc/lib/graph/graph.cc
@@ -96,7 +96,7 @@ Graph::Graph(Metadata metadata, std::vector<std::string> paths, std::vector<uint
         for (size_t i = 0; i < suffixes.size(); ++i)
         {
             m_partitions.emplace_back(m_metadata, paths[partition_index], suffixes[i], storage_type);
-            ReadNodeMap(paths[partition_index], suffixes[i], partition_index);
+            ReadNodeMap(paths[partition_index], suffixes[i], uint32_t(m_partitions.size() - 1));
         }
     }
 }
-- 
2.43.0


From 5119e7e74bdb293befe6b1bd4e344d1f45625248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:37:40 +0000
Subject: [PATCH 56/83] fix: read samplers of edges from the folder of their
 partition

---
 src/cc/lib/graph/sampler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc/lib/graph/sampler.cc b/src/cc/lib/graph/sampler.cc
index cc0df4f..673e8a2 100644
--- a/src/cc/lib/graph/sampler.cc
+++ b/src/cc/lib/graph/sampler.cc
@@ -363,10 +363,10 @@ WeightedEdgeSamplerPartition::WeightedEdgeSamplerPartition(Metadata meta, Type t
         logger = std::make_shared<snark::GLogger>();
     }
     std::shared_ptr<BaseStorage<uint8_t>> edge_weights;
-    if (!is_hdfs_path(meta.m_path))
+    if (!is_hdfs_path(partition_path))
     {
         edge_weights =
-            std::make_shared<DiskStorage<uint8_t>>(meta.m_path, partition_index, tp, open_edge_alias, logger);
+            std::make_shared<DiskStorage<uint8_t>>(partition_path, partition_index, tp, open_edge_alias, logger);
     }
     else
     {
-- 
2.43.0


From cc312206f581f98413b6328efb689c04ae17228b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:49:25 +0000
Subject: [PATCH 57/83] fix: let threads create samplers while others use them

Functions of the library were described again for every sampler, while
other threads could be inside of the same functions. The process crashed.
---
 src/python/deepgnn/graph_engine/snark/_lib.py   | 5 ++---
 src/python/deepgnn/graph_engine/snark/client.py | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/_lib.py b/src/python/deepgnn/graph_engine/snark/_lib.py
index 02a33b8..2b15675 100644
--- a/src/python/deepgnn/graph_engine/snark/_lib.py
+++ b/src/python/deepgnn/graph_engine/snark/_lib.py
@@ -3,7 +3,6 @@
 
 import os
 import platform
-import functools
 
 if platform.system() == "Windows":
     from ctypes import WinDLL  # type: ignore
@@ -22,8 +21,8 @@ _LIB_PATH = os.path.join(os.path.dirname(__file__), _LIB_FILE_NAME)
 _SNARK_LIB_PATH_ENV_KEY = "SNARK_LIB_PATH"
 
 
-# Use lru_cache for to load library only once in thread safe mode.
-@functools.lru_cache(maxsize=1)
+# The library itself is loaded only once. Every caller gets own object, because it describes
+# functions of the object and they might be in use by other threads.
 def _get_c_lib():
     global _LIB_PATH
 
diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index 0696fd2..ccb0bdb 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -1479,7 +1479,7 @@ class NodeSampler:
         self.types = types
         self.ns_ = _DEEP_GRAPH()
         self.graph = g
-        self.lib = g.lib
+        self.lib = _get_c_lib()
 
         sampler_func = {
             "weighted": self.lib.CreateWeightedNodeSampler,
@@ -1594,7 +1594,7 @@ class EdgeSampler:
         self.types = types
         self.es_ = _DEEP_GRAPH()
         self.graph = g
-        self.lib = g.lib
+        self.lib = _get_c_lib()
         sampler_func = {
             "weighted": self.lib.CreateWeightedEdgeSampler,
             "uniform": self.lib.CreateUniformEdgeSampler,
-- 
2.43.0


From 0fe8778c2abf3e9cf0c380f8185ee82f773110ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:27 +0000
Subject: [PATCH 58/83] fix: accept TSV neighbors without an edge type

The decoder fills in missing columns of a neighbor and uses type 0 when the
type is empty. Sorting the neighbors of a node read the type before that and
raised an error.
---
 src/python/deepgnn/graph_engine/snark/decoders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index 7119e6b..5568d30 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -545,7 +545,8 @@ class TsvDecoder(Decoder):
         neighbors = columns[4].split("|")
 
         def order(edge):
-            edge_items = edge.split(",")
+            edge_items = (edge + ",").split(",")
+            edge_items[1] = edge_items[1] or "0"
             return int(edge_items[1]), int(edge_items[0])
 
         for n in sorted(neighbors, key=order):
-- 
2.43.0


From c6f8142fe48886d2dac371bc9ce4c74a18ce612c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:21 +0000
Subject: [PATCH 59/83] fix: draw the same elements from the same seed on every
 run

Uniform samplers took their elements from a hash set. Its order is different
in every process, so a fixed seed did not give the same samples.
---
 src/cc/lib/graph/sampler.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cc/lib/graph/sampler.cc b/src/cc/lib/graph/sampler.cc
index 673e8a2..af6419b 100644
--- a/src/cc/lib/graph/sampler.cc
+++ b/src/cc/lib/graph/sampler.cc
@@ -346,6 +346,8 @@ UniformNodeSamplerPartition<WithReplacement>::UniformNodeSamplerPartition(Metada
     {
         m_records.emplace_back(node);
     }
+    // Iteration order of the set is different on every run.
+    std::sort(std::begin(m_records), std::end(m_records));
     m_weight = m_records.size();
 }
 
@@ -535,7 +537,10 @@ UniformEdgeSamplerPartition<WithReplacement>::UniformEdgeSamplerPartition(Metada
 
     m_src.reserve(edge_set.size());
     m_dst.reserve(edge_set.size());
-    for (const auto &edge : edge_set)
+    // Iteration order of the set is different on every run.
+    std::vector<std::pair<NodeId, NodeId>> edges(std::begin(edge_set), std::end(edge_set));
+    std::sort(std::begin(edges), std::end(edges));
+    for (const auto &edge : edges)
     {
         m_src.emplace_back(edge.first);
         m_dst.emplace_back(edge.second);
-- 
2.43.0


From 1da75e7ce3ac5a79c5e2aa71738c006486e626e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:21 +0000
Subject: [PATCH 60/83] fix: download timestamps of temporal graphs

Files with lifetimes of edges were not copied from remote storage, and loading
a temporal graph from there ended the process.
---
 src/python/deepgnn/graph_engine/snark/_downloader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/snark/_downloader.py b/src/python/deepgnn/graph_engine/snark/_downloader.py
index 6b84c13..0109234 100644
--- a/src/python/deepgnn/graph_engine/snark/_downloader.py
+++ b/src/python/deepgnn/graph_engine/snark/_downloader.py
@@ -60,6 +60,12 @@ def download_graph_data(path: str, partitions: List[Tuple[str, int]]) -> GraphPa
                 mt._Element.EDGE, partition_path, partition_index, -1, fs.sep
             )
         )
+        if graph_meta.watermark >= 0:
+            lpath.append(
+                mt._get_element_timestamps_path(
+                    mt._Element.EDGE, partition_path, partition_index, -1, fs.sep
+                )
+            )
         if graph_meta._node_feature_count > 0:
             lpath.append(
                 mt._get_element_features_data_path(
-- 
2.43.0


From 752a7c9f93f53d6cce055bc2f7bb268ce6d90e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:21 +0000
Subject: [PATCH 61/83] fix: load partitions from different locations

A graph with metadata on a local disk and partitions in remote storage was not
downloaded. Partitions of several storages were all requested from the last
one.
---
 src/python/deepgnn/graph_engine/snark/_downloader.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/_downloader.py b/src/python/deepgnn/graph_engine/snark/_downloader.py
index 0109234..251719e 100644
--- a/src/python/deepgnn/graph_engine/snark/_downloader.py
+++ b/src/python/deepgnn/graph_engine/snark/_downloader.py
@@ -32,20 +32,21 @@ class GraphPath:
 
 
 def download_graph_data(path: str, partitions: List[Tuple[str, int]]) -> GraphPath:
-    """Download graph data to a temp folder if path is remote. If path is local, nothing is done."""
+    """Download remote graph data to a temp folder. If all paths are local, nothing is done."""
     fs, _ = get_fs(path)
-    if isinstance(fs, LocalFileSystem):
+    locations = [fs] + [get_fs(location)[0] for location, _ in partitions]
+    if all(isinstance(location, LocalFileSystem) for location in locations):
         return GraphPath(path)
     data_path = tempfile.TemporaryDirectory(suffix="_snark")
     fs.get(mt._get_meta_path(path, fs.sep), mt._get_meta_path(data_path.name))
     graph_meta = mt.Meta(data_path.name)
-    lpath = []
     for i in range(len(partitions)):
         partition_path, partition_index = partitions[i]
         fs, _ = get_fs(partition_path)
         if isinstance(fs, LocalFileSystem):
             continue
 
+        lpath = []
         lpath.append(mt._get_node_map_path(partition_path, partition_index, -1, fs.sep))
         lpath.append(
             mt._get_neighbors_index_path(partition_path, partition_index, -1, fs.sep)
@@ -103,6 +104,6 @@ def download_graph_data(path: str, partitions: List[Tuple[str, int]]) -> GraphPa
         )
 
         partitions[i] = (data_path.name, partition_index)
+        fs.get(lpath, data_path.name)
 
-    fs.get(lpath, data_path.name)
     return GraphPath(data_path)
-- 
2.43.0


From 54182acb5b0c79d3f39de22da27d3d346dc5fc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:31 +0000
Subject: [PATCH 62/83] fix: load every partition of citation datasets

---
 src/python/deepgnn/graph_engine/data/data_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/data/data_util.py b/src/python/deepgnn/graph_engine/data/data_util.py
index 6e64d62..222437f 100644
--- a/src/python/deepgnn/graph_engine/data/data_util.py
+++ b/src/python/deepgnn/graph_engine/data/data_util.py
@@ -108,7 +108,7 @@ class Dataset(Client):
         self._build_graph_impl(
             self.input_location, self.output_dir, train_node_ratio, random_selection
         )
-        super().__init__(self.output_dir, partitions=[0])
+        super().__init__(self.output_dir, partitions=list(range(num_partitions)))
 
     def _build_graph_impl(
         self,
-- 
2.43.0


From 06b03872b2a4dc993e34f861d59bf4f0a285a820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:54:39 +0000
Subject: [PATCH 63/83] fix: estimate clustering of any graph

---
 .../deepgnn/graph_engine/snark/preprocess/sampler/metric.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py b/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py
index 1a12496..04b4697 100644
--- a/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py
+++ b/src/python/deepgnn/graph_engine/snark/preprocess/sampler/metric.py
@@ -51,8 +51,8 @@ def average_clustering(input_graph: nx.digraph, trials: int) -> float:
     g = nx.to_undirected(input_graph)
     n = len(g)
     triangles = 0
-    nodes = g.nodes()
-    for i in [random.randint(0, n) for _ in range(trials)]:
+    nodes = list(g.nodes())
+    for i in [random.randint(0, n - 1) for _ in range(trials)]:
         nbrs = list(g[nodes[i]])
         if len(nbrs) < 2:
             continue
-- 
2.43.0


From 569f46a62766ba36bbab99db3d89bded8400f7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:54:39 +0000
Subject: [PATCH 64/83] fix: reduce graphs to the requested number of nodes

---
 .../graph_engine/snark/preprocess/sampler/forest_fire.py  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/snark/preprocess/sampler/forest_fire.py b/src/python/deepgnn/graph_engine/snark/preprocess/sampler/forest_fire.py
index 758144f..2960fc8 100644
--- a/src/python/deepgnn/graph_engine/snark/preprocess/sampler/forest_fire.py
+++ b/src/python/deepgnn/graph_engine/snark/preprocess/sampler/forest_fire.py
@@ -59,6 +59,14 @@ def __forest_fire_helper(
                 chosen_successor = random.sample(successor, num_successor)
                 chosen_predecessor = random.sample(predecessor, num_predecessor)
 
+                if initial_node not in sample and len(sample) == sample_size - 1:
+                    # The last place is for this node, others must be burned already.
+                    chosen_successor = [n for n in chosen_successor if n in sample]
+                    chosen_predecessor = [n for n in chosen_predecessor if n in sample]
+
+                if not (chosen_successor or chosen_predecessor):
+                    sample.add_node(initial_node)
+
                 for succ in chosen_successor:
                     if len(sample.nodes()) < sample_size:
                         sample.add_edge(initial_node, succ)
-- 
2.43.0


From 8e6f6b37d2af1e8a8b422c03d374aaa8d169a8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:45 +0000
Subject: [PATCH 65/83] fix: upload texts after an empty one

---
 src/python/deepgnn/graph_engine/adl_uploader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/adl_uploader.py b/src/python/deepgnn/graph_engine/adl_uploader.py
index c015f0e..27b8d48 100644
--- a/src/python/deepgnn/graph_engine/adl_uploader.py
+++ b/src/python/deepgnn/graph_engine/adl_uploader.py
@@ -76,7 +76,7 @@ class MultiThreadsAdlDataWriter:
         out_file = None
         while True:
             chunk = self.data_queue.get()
-            if not chunk:
+            if chunk is None:
                 if out_file:
                     out_file.close()
                 self.data_queue.task_done()
@@ -213,7 +213,7 @@ class AdlDataWriter:
         )
         while True:
             chunk = self.data_queues[process_idx].get()
-            if not chunk or not uploader.is_alive():
+            if chunk is None or not uploader.is_alive():
                 break
             uploader.enqueue(chunk)
 
-- 
2.43.0


From 44a051321ac85973e502757922d6180113d95940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:45 +0000
Subject: [PATCH 66/83] fix: read False as false in flags of the converter
 command

---
 src/python/deepgnn/graph_engine/snark/convert.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/convert.py b/src/python/deepgnn/graph_engine/snark/convert.py
index 855f82a..ddff3a8 100755
--- a/src/python/deepgnn/graph_engine/snark/convert.py
+++ b/src/python/deepgnn/graph_engine/snark/convert.py
@@ -209,6 +209,7 @@ if __name__ == "__main__":
     # import here for special usage of the module.
     import argparse
     import deepgnn.graph_engine.snark.decoders as decoders
+    from deepgnn.arg_types import str2bool
 
     parser = argparse.ArgumentParser(
         description="Convert graph from euler json format to the deepgnn binary."
@@ -235,13 +236,13 @@ if __name__ == "__main__":
     )
     parser.add_argument(
         "--skip_node_sampler",
-        type=bool,
+        type=str2bool,
         default=False,
         help="Skip generation of node alias tables for node sampling",
     )
     parser.add_argument(
         "--skip_edge_sampler",
-        type=bool,
+        type=str2bool,
         default=False,
         help="Skip generation of edge alias tables for edge sampling",
     )
-- 
2.43.0


From bb5f84ffdf21baeff692d6df16bab638fcb1f4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:09 +0000
Subject: [PATCH 67/83] fix: accept the number of partitions in the command of
 the cora dataset

---
 src/python/deepgnn/graph_engine/data/cora.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/data/cora.py b/src/python/deepgnn/graph_engine/data/cora.py
index 38c21c6..e4279ae 100644
--- a/src/python/deepgnn/graph_engine/data/cora.py
+++ b/src/python/deepgnn/graph_engine/data/cora.py
@@ -108,7 +108,7 @@ if __name__ == "__main__":
     parser.add_argument("--data_dir", default=f"{tempfile.gettempdir()}/cora", type=str)
     parser.add_argument("--train_node_ratio", default=1.0, type=float)
     parser.add_argument("--random_selection", action="store_true")
-    parser.add_argument("--num_partitions", default=1)
+    parser.add_argument("--num_partitions", default=1, type=int)
     args = parser.parse_args()
 
     g = CoraFull(
-- 
2.43.0


From 6ac5b16a0195483f923120363bf552870c24fa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:45 +0000
Subject: [PATCH 68/83] fix: order checkpoints by modification time when the
 trainer is asked to

---
 src/python/deepgnn/pytorch/training/trainer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/pytorch/training/trainer.py b/src/python/deepgnn/pytorch/training/trainer.py
index 61943bc..36913c6 100644
--- a/src/python/deepgnn/pytorch/training/trainer.py
+++ b/src/python/deepgnn/pytorch/training/trainer.py
@@ -452,12 +452,18 @@ class Trainer:
             output.update({"init_parameters": self.model.init_parameters})
         torch.save(output, save_path)
         self.logger.info(self._wrap_log(f"Saved checkpoint to {save_path}."))
-        rotate_checkpoints(self.args.save_path, self.args.max_saved_ckpts)
+        rotate_checkpoints(
+            self.args.save_path,
+            self.args.max_saved_ckpts,
+            sort_ckpt_by_mtime=self.args.sort_ckpt_by_mtime,
+        )
 
     def _load_checkpoint(self, ckpt_path: Optional[str] = None):
         if not ckpt_path:
             # Search and sort checkpoints from model path.
-            ckpts = get_sorted_checkpoints(self.args.model_dir)
+            ckpts = get_sorted_checkpoints(
+                self.args.model_dir, sort_ckpt_by_mtime=self.args.sort_ckpt_by_mtime
+            )
             ckpt_path = ckpts[-1] if len(ckpts) > 0 else None
 
         if ckpt_path is not None:
-- 
2.43.0


From 38e8186997ac6af32ae720cc781f7db2a8353cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:02 +0000
Subject: [PATCH 69/83] fix: order checkpoints by epoch and step when they
 outgrow their padding

---
 src/python/deepgnn/pytorch/common/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/pytorch/common/utils.py b/src/python/deepgnn/pytorch/common/utils.py
index 5d77340..7018866 100644
--- a/src/python/deepgnn/pytorch/common/utils.py
+++ b/src/python/deepgnn/pytorch/common/utils.py
@@ -131,7 +131,7 @@ def get_sorted_checkpoints(
     model_dir: str, perfix: str = PREFIX_CHECKPOINT, sort_ckpt_by_mtime: bool = False
 ) -> List[str]:
     """Return model checkpoints."""
-    ordering_and_checkpoint_path = []
+    ordering_and_checkpoint_path: List[tuple] = []
 
     glob_checkpoints = [str(x) for x in Path(model_dir).glob(f"{perfix}-*")]
 
@@ -141,7 +141,9 @@ def get_sorted_checkpoints(
         else:
             regex_match = re.match(f".*{perfix}-([0-9\\-]+)", path)
             if regex_match and regex_match.groups():
-                ordering_and_checkpoint_path.append((regex_match.groups()[0], path))
+                # Epochs and steps can have more digits than their names are padded to.
+                order = [int(x) for x in regex_match.groups()[0].split("-") if x]
+                ordering_and_checkpoint_path.append((order, path))
 
     return [checkpoint[1] for checkpoint in sorted(ordering_and_checkpoint_path)]
 
-- 
2.43.0


From d4ca9c7c5b43cbcc4fd4e941bc5bdd0b93110fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:11 +0000
Subject: [PATCH 70/83] fix: compute the F1 score of a single sample

---
 src/python/deepgnn/pytorch/common/metrics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/pytorch/common/metrics.py b/src/python/deepgnn/pytorch/common/metrics.py
index 0612657..0b1117c 100644
--- a/src/python/deepgnn/pytorch/common/metrics.py
+++ b/src/python/deepgnn/pytorch/common/metrics.py
@@ -25,7 +25,11 @@ class F1Score(BaseMetric):
     def compute(self, scores: torch.Tensor, labels: torch.Tensor) -> torch.Tensor:
         """Passthrough to scikit."""
         return torch.tensor(
-            f1_score(labels.squeeze(), scores.detach().cpu().numpy(), average="micro")
+            f1_score(
+                labels.reshape(scores.shape),
+                scores.detach().cpu().numpy(),
+                average="micro",
+            )
         )
 
 
-- 
2.43.0


From 5103758f47c40de7750dda682f05f084479b83b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:17 +0000
Subject: [PATCH 71/83] fix: evaluate all data during training at the last step
 of an epoch

---
 src/python/deepgnn/pytorch/training/trainer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/pytorch/training/trainer.py b/src/python/deepgnn/pytorch/training/trainer.py
index 36913c6..31af7a2 100644
--- a/src/python/deepgnn/pytorch/training/trainer.py
+++ b/src/python/deepgnn/pytorch/training/trainer.py
@@ -315,7 +315,8 @@ class Trainer:
                     preds.append(pred.detach().cpu())
                     labels.append(label.detach().cpu())
 
-                if self._should_stop():
+                # Steps of training don't limit evaluation during training.
+                if self.args.mode != TrainMode.TRAIN and self._should_stop():
                     break
 
         if self.args.use_per_step_metrics:
-- 
2.43.0


From c2f4967651febb905cdf76035d7d0e6cf417b3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:27 +0000
Subject: [PATCH 72/83] fix: allow different numbers of neighbors per layer in
 sage encoder

---
 src/python/deepgnn/pytorch/encoding/gnn_encoder_sage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/pytorch/encoding/gnn_encoder_sage.py b/src/python/deepgnn/pytorch/encoding/gnn_encoder_sage.py
index 9a97f59..5580535 100644
--- a/src/python/deepgnn/pytorch/encoding/gnn_encoder_sage.py
+++ b/src/python/deepgnn/pytorch/encoding/gnn_encoder_sage.py
@@ -103,7 +103,7 @@ class SageEncoder(nn.Module):
         if isinstance(neigh_feats_unique, dict):
             neigh_feats_unique["neighbor_feats"] = neigh_feats_unique[
                 "neighbor_feats"
-            ].reshape((-1, self.num_sample, feature_dim))
+            ].reshape((len(neigh_nodes_unique), -1, feature_dim))
             context["neighbor_feats"] = {
                 "node_feats": neigh_feats_unique["node_feats"][idx],
                 "neighbor_feats": neigh_feats_unique["neighbor_feats"][idx].reshape(
-- 
2.43.0


From 144ce802ab5234304183b4b5b086bc26d7a03fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:34 +0000
Subject: [PATCH 73/83] fix: keep dimensions of size one in lgcl encoder

---
 src/python/deepgnn/pytorch/encoding/gnn_encoder_lgcl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/pytorch/encoding/gnn_encoder_lgcl.py b/src/python/deepgnn/pytorch/encoding/gnn_encoder_lgcl.py
index e979a06..403b8c6 100644
--- a/src/python/deepgnn/pytorch/encoding/gnn_encoder_lgcl.py
+++ b/src/python/deepgnn/pytorch/encoding/gnn_encoder_lgcl.py
@@ -96,7 +96,7 @@ class LgclEncoder(nn.Module):
                 seq = self.acts[layer](
                     getattr(self, f"{LgclEncoder.LGCL_PREFIX}_{layer}_{hop}_1")(seq)
                 )
-                seq = torch.squeeze(seq)
+                seq = torch.squeeze(seq, -1)
 
                 if self.residual == MODEL_RESIDUAL_ADD:
                     if samples[hop].shape[-1] != seq.shape[-1]:
-- 
2.43.0


From 3bdfc32e261c96cf8c74d413387b8a7c5c5083d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:43 +0000
Subject: [PATCH 74/83] fix: add features of the same hop in residual of lgcl
 encoder

---
 src/python/deepgnn/pytorch/encoding/gnn_encoder_lgcl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/pytorch/encoding/gnn_encoder_lgcl.py b/src/python/deepgnn/pytorch/encoding/gnn_encoder_lgcl.py
index 403b8c6..fe4c03e 100644
--- a/src/python/deepgnn/pytorch/encoding/gnn_encoder_lgcl.py
+++ b/src/python/deepgnn/pytorch/encoding/gnn_encoder_lgcl.py
@@ -104,7 +104,7 @@ class LgclEncoder(nn.Module):
                             self, f"{LgclEncoder.ADD_RES}_{str(layer)}"
                         )(samples[hop])
                     else:
-                        seq = seq + samples[0]
+                        seq = seq + samples[hop]
                 elif self.residual == MODEL_RESIDUAL_CONCAT:
                     seq = torch.cat([seq, samples[hop]], dim=-1)
 
-- 
2.43.0


From 3fdc1bc9dbcb558371c971b9c9876148d86d5d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:06 +0000
Subject: [PATCH 75/83] fix: extract tokens of neighbors from features
 tokenized offline

---
 src/python/deepgnn/pytorch/encoding/feature_encoder.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/python/deepgnn/pytorch/encoding/feature_encoder.py b/src/python/deepgnn/pytorch/encoding/feature_encoder.py
index d253407..0df64b6 100644
--- a/src/python/deepgnn/pytorch/encoding/feature_encoder.py
+++ b/src/python/deepgnn/pytorch/encoding/feature_encoder.py
@@ -175,14 +175,8 @@ class TwinBERTFeatureEncoder(FeatureEncoder):
             ):
                 context[key] = {}
                 assert data.shape[-1] >= self.max_seq_len
-                encoder_seq = data[:, : -self.max_seq_len]
-                encoder_mask = data[:, -self.max_seq_len :]
-                context[key][ENCODER_SEQ] = np.reshape(
-                    encoder_seq, list(data.shape[:-1]) + list(encoder_seq.shape[1:])
-                )
-                context[key][ENCODER_MASK] = np.reshape(
-                    encoder_mask, list(data.shape[:-1]) + list(encoder_mask.shape[1:])
-                )
+                context[key][ENCODER_SEQ] = data[..., : -self.max_seq_len]
+                context[key][ENCODER_MASK] = data[..., -self.max_seq_len :]
 
     def transform(self, context: dict):
         """Transform binary or int64 features."""
-- 
2.43.0


From e673ef601044347487e9be39674d8eeaa3d9d8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:32 +0000
Subject: [PATCH 76/83] fix: encode texts cut inside of a character

---
 src/python/deepgnn/pytorch/encoding/feature_encoder.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/python/deepgnn/pytorch/encoding/feature_encoder.py b/src/python/deepgnn/pytorch/encoding/feature_encoder.py
index 0df64b6..dbf4761 100644
--- a/src/python/deepgnn/pytorch/encoding/feature_encoder.py
+++ b/src/python/deepgnn/pytorch/encoding/feature_encoder.py
@@ -2,6 +2,7 @@
 # Licensed under the MIT License.
 """Common feature encoders."""
 import argparse
+import codecs
 import itertools
 import operator
 import numpy as np
@@ -138,11 +139,9 @@ class TwinBERTFeatureEncoder(FeatureEncoder):
                     flatten = np.copy(np.reshape(data, [-1, sentence_len]))
 
                     for sentence in flatten:
-                        sentence = (
-                            bytearray(sentence)
-                            .decode(encoding="utf-8")
-                            .strip("\0 \t\n")
-                        )
+                        # The last character might be cut by the feature dimension.
+                        sentence, _ = codecs.utf_8_decode(bytearray(sentence))
+                        sentence = sentence.strip("\0 \t\n")
                         seq, mask = self._tokenize_single_sentence(sentence)
                         encoder_seq.append(seq)
                         encoder_mask.append(mask)
-- 
2.43.0


From 0085048c13349e162a2cd14117ce8ce2630449eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:32 +0000
Subject: [PATCH 77/83] fix: report output dimension of multi type encoder
 without downscaling

---
 src/python/deepgnn/pytorch/encoding/feature_encoder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/pytorch/encoding/feature_encoder.py b/src/python/deepgnn/pytorch/encoding/feature_encoder.py
index dbf4761..c0e3fef 100644
--- a/src/python/deepgnn/pytorch/encoding/feature_encoder.py
+++ b/src/python/deepgnn/pytorch/encoding/feature_encoder.py
@@ -240,7 +240,9 @@ class MultiTypeFeatureEncoder(FeatureEncoder):
         super(MultiTypeFeatureEncoder, self).__init__(
             feature_type=feature_type,
             feature_dim=TwinBERTFeatureEncoder.get_feature_dim(feature_type, config),
-            embed_dim=config[DOWNSCALE],
+            embed_dim=config[DOWNSCALE]
+            if config[DOWNSCALE] > 0
+            else config["hidden_size"],
         )
 
         self.share_encoder = share_encoder
-- 
2.43.0


From b23baa81ba090312137fe2499b59c34ee74a3a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:38 +0000
Subject: [PATCH 78/83] fix: return term tensors of texts in nested contexts

---
 src/python/deepgnn/pytorch/encoding/feature_encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/pytorch/encoding/feature_encoder.py b/src/python/deepgnn/pytorch/encoding/feature_encoder.py
index c0e3fef..6a957f1 100644
--- a/src/python/deepgnn/pytorch/encoding/feature_encoder.py
+++ b/src/python/deepgnn/pytorch/encoding/feature_encoder.py
@@ -218,7 +218,7 @@ class TwinBERTFeatureEncoder(FeatureEncoder):
                             tuple(list(seq.shape)[:-1] + [output_value.shape[-1]])
                         )
                 else:
-                    self.forward(context[key], pooler_index)
+                    self.forward(context[key], pooler_index, output_encoded_layer)
 
 
 class MultiTypeFeatureEncoder(FeatureEncoder):
-- 
2.43.0


From 7fbeebfea0c03231f722cfd6e619a1c380a2b309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:48 +0000
Subject: [PATCH 79/83] fix: end polynomial decay when warmup takes all steps

---
 src/python/deepgnn/pytorch/common/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/pytorch/common/optimization.py b/src/python/deepgnn/pytorch/common/optimization.py
index 8ba3709..2926f8e 100644
--- a/src/python/deepgnn/pytorch/common/optimization.py
+++ b/src/python/deepgnn/pytorch/common/optimization.py
@@ -224,7 +224,7 @@ def get_polynomial_decay_schedule_with_warmup(
     def lr_lambda(current_step: int):
         if current_step < num_warmup_steps:
             return float(current_step) / float(max(1, num_warmup_steps))
-        elif current_step > num_training_steps:
+        elif current_step >= num_training_steps:
             return lr_end / lr_init  # as LambdaLR multiplies by lr_init
         else:
             lr_range = lr_init - lr_end
-- 
2.43.0


From 7de9b4df972ee2b49f078821a9266f220f281467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:27 +0000
Subject: [PATCH 80/83] fix: compute loss of a batch with a single node or
 class

---
 src/python/deepgnn/pytorch/modeling/base_model.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/python/deepgnn/pytorch/modeling/base_model.py b/src/python/deepgnn/pytorch/modeling/base_model.py
index b128be1..ced4b3f 100644
--- a/src/python/deepgnn/pytorch/modeling/base_model.py
+++ b/src/python/deepgnn/pytorch/modeling/base_model.py
@@ -155,9 +155,9 @@ class BaseSupervisedModel(BaseModel):
     ) -> Tuple[torch.Tensor, torch.Tensor, torch.Tensor]:
         """Cross entropy loss for a list of nodes."""
         if isinstance(context, dict):
-            labels = context["label"].squeeze()  # type: ignore
+            labels = context["label"]  # type: ignore
         elif isinstance(context, torch.Tensor):
-            labels = context.squeeze()  # type: ignore
+            labels = context  # type: ignore
         else:
             raise TypeError("Invalid input type.")
         device = labels.device
@@ -167,15 +167,17 @@ class BaseSupervisedModel(BaseModel):
         # in latest stable version. Revisit this part after updating pytorch with the fix included.
         # issue: https://github.com/pytorch/pytorch/issues/32343
         # fix: https://github.com/pytorch/pytorch/pull/37864
-        labels = labels.cpu().numpy().argmax(1)
+        # A batch might consist of a single node or class, keep one row of labels per node.
+        labels = labels.cpu().numpy()
+        labels = labels.reshape(-1, labels.shape[-1]).argmax(1)
         scores = self.get_score(context)
         return (
             self.xent(
                 scores,
-                Variable(torch.tensor(labels.squeeze(), dtype=torch.int64).to(device)),
+                Variable(torch.tensor(labels, dtype=torch.int64).to(device)),
             ),
             scores.argmax(dim=1),
-            torch.tensor(labels.squeeze(), dtype=torch.int64),
+            torch.tensor(labels, dtype=torch.int64),
         )
 
     def forward(
-- 
2.43.0


From 8d2f0de4bf8888caf46bbb7ebc591e6409d9a69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:56 +0000
Subject: [PATCH 81/83] fix: keep weights of edges when normalizing sparse
 adjacency

---
 src/python/deepgnn/tf/nn/gcn_conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/tf/nn/gcn_conv.py b/src/python/deepgnn/tf/nn/gcn_conv.py
index 6471bf8..81b0c62 100644
--- a/src/python/deepgnn/tf/nn/gcn_conv.py
+++ b/src/python/deepgnn/tf/nn/gcn_conv.py
@@ -18,7 +18,7 @@ def gcn_norm_adj(adj: tf.Tensor) -> tf.Tensor:
         d_inv = tf.where(tf.math.is_inf(d_inv), tf.zeros_like(d_inv), d_inv)
         d_inv_src = tf.nn.embedding_lookup(d_inv, edges[:, 0])
         d_inv_dst = tf.nn.embedding_lookup(d_inv, edges[:, 1])
-        edge_weight = d_inv_src * d_inv_dst
+        edge_weight = d_inv_src * edges_value * d_inv_dst
         sp_adj = tf.sparse.SparseTensor(edges, edge_weight, dense_shape=adj_shape)
         return sp_adj
     else:
-- 
2.43.0


From c277e19677f472def318151220e18741ac7536af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:56 +0000
Subject: [PATCH 82/83] fix: create bias of sage aggregators with dimension of
 their output

---
 src/python/deepgnn/tf/nn/sage_conv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/deepgnn/tf/nn/sage_conv.py b/src/python/deepgnn/tf/nn/sage_conv.py
index a957c9d..8e277b9 100644
--- a/src/python/deepgnn/tf/nn/sage_conv.py
+++ b/src/python/deepgnn/tf/nn/sage_conv.py
@@ -40,7 +40,7 @@ class MeanAggregator(tf.keras.layers.Layer):
         if self.enable_bias:
             self.bias = self.add_weight(
                 name="bias",
-                shape=[self.out_dim],
+                shape=[self.output_dim * (2 if self.concat else 1)],
                 initializer="zeros",
                 dtype=tf.float32,
                 trainable=True,
@@ -110,7 +110,7 @@ class MaxPoolingAggregator(tf.keras.layers.Layer):
         if self.enable_bias:
             self.bias = self.add_weight(
                 name="bias",
-                shape=[self.out_dim],
+                shape=[self.output_dim * (2 if self.concat else 1)],
                 initializer="zeros",
                 dtype=tf.float32,
                 trainable=True,
@@ -175,7 +175,7 @@ class LSTMAggregator(tf.keras.layers.Layer):
         if self.enable_bias:
             self.bias = self.add_weight(
                 name="bias",
-                shape=[self.out_dim],
+                shape=[self.output_dim * (2 if self.concat else 1)],
                 initializer="zeros",
                 dtype=tf.float32,
                 trainable=True,
@@ -208,7 +208,7 @@ class LSTMAggregator(tf.keras.layers.Layer):
             output = tf.add_n([from_self, from_neig])
 
         if self.enable_bias:
-            output += self.vars["bias"]
+            output += self.bias
         if self.act is not None:
             output = self.act(output)
         return output
-- 
2.43.0


From 30a37683e1a175a3b91662d1a238e75b440c44d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:55 +0000
Subject: [PATCH 83/83] fix: iterate datasets of files without a graph backend

---
 src/python/deepgnn/graph_engine/graph_dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/deepgnn/graph_engine/graph_dataset.py b/src/python/deepgnn/graph_engine/graph_dataset.py
index ec7ba6c..b7a9a3a 100644
--- a/src/python/deepgnn/graph_engine/graph_dataset.py
+++ b/src/python/deepgnn/graph_engine/graph_dataset.py
@@ -90,6 +90,7 @@ class DeepGNNDataset:
 
     def init_graph_client(self):
         """Create graph client."""
+        self.graph = None  # type: ignore
         if self.backend is not None:
             self.graph = self.backend.graph
 
-- 
2.43.0

