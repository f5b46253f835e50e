From b0ad13c040a778963cb6c39f7cbd6877597035dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:46 +0000
Subject: [PATCH 01/34] fix: find the blocks that depend on a region for any
 context and any ROI

get_subgraph_blocks(read_roi=True) grew the region by the block context the
wrong way around, such that upstream() and downstream() disagreed for
asymmetric contexts. Regions without any block raised a TypeError, and what
overhanging blocks write past the total ROI was ignored.
---
 daisy/dependency_graph.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index 9d38bdb..f1ddffe 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -504,15 +504,27 @@ class BlockwiseDependencyGraph:
             # if we want to get blocks whose read_roi overlaps with sub_roi
             # simply grow the sub_roi by the block context. That way we
             # only need to check if a blocks read_roi overlaps with sub_roi.
-            # This is the same behavior as when we want write_roi overlap
+            # This is the same behavior as when we want write_roi overlap.
+            # A block reads past the end of its write_roi by the upper context,
+            # thus blocks *before* sub_roi are reached by the upper context
+            # (and blocks after sub_roi by the lower context).
             sub_roi = sub_roi.grow(
-                self.read_write_context[0], self.read_write_context[1]
+                self.read_write_context[1], self.read_write_context[0]
+            )
+
+        # blocks might write past the end of total_write_roi, if they are
+        # allowed to overhang
+        covered_roi = self.total_write_roi
+        if self.fit == "overhang":
+            covered_roi = covered_roi.grow(
+                0, -covered_roi.shape % self.block_write_roi.shape
             )
 
-        # TODO: handle unsatisfiable sub_rois
-        # i.e. sub_roi is outside of *total_write_roi
+        # no block is in sub_roi, if sub_roi is outside of the covered ROI
         # after accounting for padding
-        sub_roi = sub_roi.intersect(self.total_write_roi)
+        if not covered_roi.intersects(sub_roi):
+            return []
+        sub_roi = sub_roi.intersect(covered_roi)
 
         # get sub_roi relative to the write roi
         begin = sub_roi.begin - self.total_write_roi.offset
-- 
2.43.0


From 1f0b480c3180250d84faee79bc04efa7ce1e7188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:46 +0000
Subject: [PATCH 02/34] fix: count every orphaned block only once

A block that was orphaned by one failure can leave the boundary of the ready
surface and was reported (and counted) again if another one of its upstream
blocks failed later. The task was then never considered to be done.
---
 daisy/ready_surface.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/daisy/ready_surface.py b/daisy/ready_surface.py
index e014d30..6550b4e 100644
--- a/daisy/ready_surface.py
+++ b/daisy/ready_surface.py
@@ -26,6 +26,11 @@ class ReadySurface:
         self.surface = set()
         self.boundary = set()
 
+        # all nodes that have been orphaned so far. A node that was orphaned
+        # can leave the boundary and enter it again if another one of its
+        # upstream nodes fails.
+        self.orphans = set()
+
     def mark_success(self, node):
         """
         Update surface and boundary to account for a `node` marked as a
@@ -131,7 +136,11 @@ class ReadySurface:
         if len(list(self.upstream(node))) == 0:
             self.boundary.remove(node)
 
-        return orphans
+        # do not report nodes that were already orphaned by another failure
+        new_orphans = orphans - self.orphans
+        self.orphans |= new_orphans
+
+        return new_orphans
 
     def __add_to_boundary(self, node):
         up_nodes = self.upstream(node)
-- 
2.43.0


From 85d76dbc6c6f2d0b4b9b342da6904f75853fe3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:46 +0000
Subject: [PATCH 03/34] fix: schedule blocks that read only from where no
 upstream task writes

Those blocks have no dependencies, but were never ready since only tasks
without upstream tasks had root blocks.
---
 daisy/dependency_graph.py | 41 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index f1ddffe..be9b5af 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -627,10 +627,49 @@ class DependencyGraph:
 
     def roots(self):
         root_tasks = self.root_tasks()
-        return {
+        roots = {
             task_id: (self.num_roots(task_id), self.root_gen(task_id))
             for task_id in root_tasks
         }
+        for task_id in self.task_ids:
+            if task_id not in roots:
+                blocks = self.__independent_blocks(task_id)
+                if len(blocks) > 0:
+                    roots[task_id] = (len(blocks), iter(blocks))
+        return roots
+
+    def __independent_blocks(self, task_id):
+        """Get the blocks of a task with upstream tasks that do not depend on
+        any other block, i.e., that read only from where no upstream task
+        writes."""
+
+        graph = self.task_dependency_graphs[task_id]
+        if graph.num_blocks == 0:
+            return []
+
+        # If the first and the last block depend on the same upstream task,
+        # so do all blocks in between. In this case there is no need to
+        # enumerate them.
+        begin = graph.total_write_roi.begin
+        end = graph.total_write_roi.end
+        if graph.fit == "valid":
+            end -= graph.total_write_roi.shape % graph.block_write_roi.shape
+        corner_blocks = [
+            block
+            for corner in (begin, end - 1)
+            for block in graph.get_subgraph_blocks(Roi(corner, (1,) * corner.dims))
+        ]
+        for upstream_task in self.upstream_tasks[task_id]:
+            upstream_graph = self.task_dependency_graphs[upstream_task]
+            if all(
+                len(upstream_graph.get_subgraph_blocks(block.read_roi)) > 0
+                for block in corner_blocks
+            ):
+                return []
+
+        return [
+            block for block in graph.root_gen() if len(self.upstream(block)) == 0
+        ]
 
     def __add_task(self, task):
         if task.task_id not in self.task_map:
-- 
2.43.0


From dc1b2c04eec6c12700eb4db337cc5fb58d2d5b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:24 +0000
Subject: [PATCH 04/34] fix: accept tasks without any block

A total ROI that is too small for a single block raised an IndexError (with
read_write_conflict), or resulted in a positive number of blocks if it was too
small in an even number of dimensions.
---
 daisy/dependency_graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index be9b5af..062ae5e 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -177,13 +177,14 @@ class BlockwiseDependencyGraph:
         return fit_block
 
     def num_roots(self):
-        return self._num_level_blocks(0)
+        # there is no level at all, if no block fits
+        return self._num_level_blocks(0) if self.num_levels > 0 else 0
 
     def _num_level_blocks(self, level):
         level_offset = self._level_offsets[level]
 
         axis_blocks = [
-            (e - lo + s - r) // s
+            max(0, (e - lo + s - r) // s)
             for lo, e, s, r in zip(
                 level_offset,
                 self.total_write_roi.shape,
-- 
2.43.0


From 34fe68f69cd1daad5ac95a9dbc742833e0ed5d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:24 +0000
Subject: [PATCH 05/34] fix: do not stop the serial server early if all ready
 blocks are skipped

Skipping blocks can make blocks of downstream tasks ready, which were then
never processed.
---
 daisy/serial_server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daisy/serial_server.py b/daisy/serial_server.py
index e241862..678a7f5 100644
--- a/daisy/serial_server.py
+++ b/daisy/serial_server.py
@@ -34,6 +34,10 @@ class SerialServer(ServerObservee):
                     if block is not None:
                         break
                 if block is None:
+                    if len(scheduler.get_ready_tasks()) > 0:
+                        # all ready blocks were skipped, but others became
+                        # ready because of that
+                        continue
                     break
                 if block.task_id not in started_tasks:
                     self.notify_task_start(
-- 
2.43.0


From 195961ff06d77d0436892dd489052776729e970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:24 +0000
Subject: [PATCH 06/34] fix: let retried blocks succeed in the serial server

A block that failed once kept the status FAILED and was considered as failed
in all retries, unless the process function explicitly set another status.
---
 daisy/serial_server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/daisy/serial_server.py b/daisy/serial_server.py
index 678a7f5..5eb8516 100644
--- a/daisy/serial_server.py
+++ b/daisy/serial_server.py
@@ -47,6 +47,8 @@ class SerialServer(ServerObservee):
                 self.notify_acquire_block(
                     block.task_id, scheduler.task_states[block.task_id]
                 )
+                # the block might have failed in an earlier attempt
+                block.status = BlockStatus.PROCESSING
                 process_funcs[block.task_id](block)
                 if not block.status == BlockStatus.FAILED:
                     # unless explicitly set to failed, we assume the block is successful
-- 
2.43.0


From 7c41ca50916b6b1ddef64c1c1c2f0c190d05057a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:24 +0000
Subject: [PATCH 07/34] fix: run_blockwise returns False if blocks failed

As documented, the result is True only if all blocks were successfully run.
Failed and orphaned blocks were considered to be done as well.
---
 daisy/convenience.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daisy/convenience.py b/daisy/convenience.py
index b668f2b..4ddfb4e 100644
--- a/daisy/convenience.py
+++ b/daisy/convenience.py
@@ -57,4 +57,7 @@ def _run_blockwise(tasks, stop_event):
     server = Server(stop_event=stop_event)
     cl_monitor = CLMonitor(server)  # noqa
     task_states = server.run_blockwise(tasks)
-    return all(task_state.is_done() for task_state in task_states.values())
+    return all(
+        task_state.completed_count == task_state.total_block_count
+        for task_state in task_states.values()
+    )
-- 
2.43.0


From 731de763c5e0a1ca1e9b4e522ea517e588a4b950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:05 +0000
Subject: [PATCH 08/34] fix: notify observers of all finished tasks in the
 serial server

Tasks whose last blocks were skipped (or orphaned, or that have no blocks) were
never reported as done.
---
 daisy/serial_server.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/daisy/serial_server.py b/daisy/serial_server.py
index 5eb8516..76eb829 100644
--- a/daisy/serial_server.py
+++ b/daisy/serial_server.py
@@ -34,6 +34,8 @@ class SerialServer(ServerObservee):
                     if block is not None:
                         break
                 if block is None:
+                    # skipped blocks might have completed a task
+                    self._notify_done_tasks(scheduler, process_funcs, finished_tasks)
                     if len(scheduler.get_ready_tasks()) > 0:
                         # all ready blocks were skipped, but others became
                         # ready because of that
@@ -59,16 +61,14 @@ class SerialServer(ServerObservee):
                     block.task_id, scheduler.task_states[block.task_id]
                 )
 
-                if scheduler.task_states[block.task_id].is_done():
-                    self.notify_task_done(
-                        block.task_id, scheduler.task_states[block.task_id]
-                    )
-                    finished_tasks.add(block.task_id)
-                    started_tasks.remove(block.task_id)
-                    del process_funcs[block.task_id]
-
-            if len(process_funcs) == 0:
-                break
+                self._notify_done_tasks(scheduler, process_funcs, finished_tasks)
 
         self.notify_server_exit()
         return scheduler.task_states
+
+    def _notify_done_tasks(self, scheduler, task_ids, finished_tasks):
+        for task_id in task_ids:
+            task_state = scheduler.task_states[task_id]
+            if task_id not in finished_tasks and task_state.is_done():
+                self.notify_task_done(task_id, task_state)
+                finished_tasks.add(task_id)
-- 
2.43.0


From 7519a638c7a17f967f5d0154d68adef8952540ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:41 +0000
Subject: [PATCH 09/34] fix: deliver block failures with any exception

Exceptions that can not be unpickled (e.g., because their constructor has
several arguments, or they are defined in the main module of the worker) shut
down the server. Exceptions that can not be pickled were not reported.
---
 daisy/messages/message.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/daisy/messages/message.py b/daisy/messages/message.py
index cbc362c..809695e 100644
--- a/daisy/messages/message.py
+++ b/daisy/messages/message.py
@@ -1,5 +1,6 @@
 from daisy.tcp import TCPMessage
 import logging
+import pickle
 
 logger = logging.getLogger(__name__)
 
@@ -19,3 +20,23 @@ class ExceptionMessage(Message):
 
     def __init__(self, exception):
         self.exception = exception
+
+    def __getstate__(self):
+        # Not every exception survives pickling, and not every pickled
+        # exception can be unpickled on the other side. Neither should affect
+        # the delivery of the message.
+        state = self.__dict__.copy()
+        try:
+            pickled_exception = pickle.dumps(self.exception)
+        except Exception:
+            pickled_exception = None
+        state["exception"] = (pickled_exception, repr(self.exception))
+        return state
+
+    def __setstate__(self, state):
+        pickled_exception, exception_repr = state["exception"]
+        try:
+            exception = pickle.loads(pickled_exception)
+        except Exception:
+            exception = RuntimeError(exception_repr)
+        self.__dict__.update(state, exception=exception)
-- 
2.43.0


From 24ecb766203aa2ea5aaf7cf4e17de09a50bc7242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:41 +0000
Subject: [PATCH 10/34] fix: propagate exceptions of workers that can not be
 pickled

The error queue silently dropped those exceptions. Since the worker exits
normally after an exception, nothing restarted it and the server waited
forever.
---
 daisy/worker.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/daisy/worker.py b/daisy/worker.py
index 6e48529..6b984a0 100644
--- a/daisy/worker.py
+++ b/daisy/worker.py
@@ -3,6 +3,7 @@ import daisy.logging as daisy_logging
 import logging
 import multiprocessing
 import os
+import pickle
 import queue
 import dill
 
@@ -102,6 +103,11 @@ class Worker:
         except Exception as e:
             logger.error("%s received exception: %s", self, e)
             if self.error_queue:
+                try:
+                    pickle.loads(pickle.dumps(e))
+                except Exception:
+                    # the queue would silently drop this exception
+                    e = RuntimeError(repr(e))
                 try:
                     self.error_queue.put(e, timeout=1)
                 except queue.Full:
-- 
2.43.0


From 24d327d854d1aa959134c0620cfd2f45b19b8320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:41 +0000
Subject: [PATCH 11/34] fix: report a lost block only once

A block that timed out and whose client disconnected raised a KeyError.
---
 daisy/block_bookkeeper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daisy/block_bookkeeper.py b/daisy/block_bookkeeper.py
index 5b5ad67..dbb02a3 100644
--- a/daisy/block_bookkeeper.py
+++ b/daisy/block_bookkeeper.py
@@ -75,7 +75,7 @@ class BlockBookkeeper:
                 lost_block_ids.append(block_id)
 
             # did processing time out?
-            if self.processing_timeout is not None:
+            elif self.processing_timeout is not None:
                 if time.time() - log.time_sent > self.processing_timeout:
                     lost_block_ids.append(block_id)
 
-- 
2.43.0


From 72de4871683e96af406f12761bbfa93a57dca617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:41 +0000
Subject: [PATCH 12/34] fix: answer delayed block requests of all tasks

Delayed requests for a task without ready blocks were delayed again over and
over, without ever looking at the delayed requests for other tasks, even if
they had ready blocks.
---
 daisy/server.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/daisy/server.py b/daisy/server.py
index 011c38f..517c735 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -93,6 +93,12 @@ class Server(ServerObservee):
             if self.pending_requests[task_id].empty():
                 continue
 
+            # a request that would only be delayed again must not keep us from
+            # answering requests for other tasks
+            task_state = self.scheduler.task_states[task_id]
+            if task_state.ready_count == 0 and task_state.pending_count > 0:
+                continue
+
             logger.debug("Answering delayed request for task %s", task_id)
             return self.pending_requests[task_id].get()
 
-- 
2.43.0


From a81ed91e629d98f257bdc81c9c485324b155d707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:41 +0000
Subject: [PATCH 13/34] fix: do not hand out blocks to clients that are gone

A delayed request of a client that disconnected in the meantime was answered
with a block, which was then immediately lost and counted as a failed attempt.
---
 daisy/server.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daisy/server.py b/daisy/server.py
index 517c735..abc5420 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -131,6 +131,11 @@ class Server(ServerObservee):
     def _handle_acquire_block(self, message):
         logger.debug("Received block request for task %s", message.task_id)
 
+        if message.stream.closed():
+            # this client is gone, do not waste an attempt to process a block
+            logger.debug("Client %s is gone, ignoring request", message.stream)
+            return
+
         task_state = self.scheduler.task_states[message.task_id]
 
         logger.debug("Current task state: %s", task_state)
-- 
2.43.0


From 101c68ad0099a91690920befc05a122545d65610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:41 +0000
Subject: [PATCH 14/34] fix: replace failing workers only if they are part of
 the pool

A worker that is not (or no longer) part of the pool can not be stopped, but
an additional worker was started for it.
---
 daisy/task_worker_pools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/daisy/task_worker_pools.py b/daisy/task_worker_pools.py
index e37b90a..30ebc7e 100644
--- a/daisy/task_worker_pools.py
+++ b/daisy/task_worker_pools.py
@@ -67,5 +67,6 @@ class TaskWorkerPools(ServerObserver):
 
             self.failure_counts[task_id][worker_id] = 0
             worker_pool = self.worker_pools[task_id]
-            worker_pool.stop(worker_id)
-            worker_pool.inc_num_workers(1)
+            if worker_id in worker_pool.workers:
+                worker_pool.stop(worker_id)
+                worker_pool.inc_num_workers(1)
-- 
2.43.0


From 113b27aa152e6e2923bf715758d61a0c0de7a13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:41 +0000
Subject: [PATCH 15/34] fix: end acquire_block if the server is gone before the
 request was sent

This is treated in the same way as if the server went away while waiting for
the reply.
---
 daisy/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daisy/client.py b/daisy/client.py
index 3fa6fa0..e0c3175 100644
--- a/daisy/client.py
+++ b/daisy/client.py
@@ -69,9 +69,9 @@ class Client:
     @contextmanager
     def acquire_block(self):
         """API for client to get a new block."""
-        self.tcp_client.send_message(AcquireBlock(self.task_id))
         message = None
         try:
+            self.tcp_client.send_message(AcquireBlock(self.task_id))
             while message is None:
                 message = self.tcp_client.get_message(timeout=0.1)
         except StreamClosedError:
-- 
2.43.0


From 029f6898d36157e1cbe861d486eb3883e0506d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:13 +0000
Subject: [PATCH 16/34] fix: allow enumerating the roots of tasks without any
 block

---
 daisy/dependency_graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daisy/dependency_graph.py b/daisy/dependency_graph.py
index 062ae5e..e66637c 100644
--- a/daisy/dependency_graph.py
+++ b/daisy/dependency_graph.py
@@ -223,7 +223,8 @@ class BlockwiseDependencyGraph:
                 raise RuntimeError("Unreachable!")
 
     def root_gen(self):
-        blocks = self.level_blocks(level=0)
+        # there is no level at all, if no block fits
+        blocks = self.level_blocks(level=0) if self.num_levels > 0 else []
         for block in blocks:
             yield self.fit_block(block)
 
-- 
2.43.0


From 23e3eaa6ef9353d47283114a09b2bbc022849194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:29 +0000
Subject: [PATCH 17/34] fix: do not lose the output of workers that get
 terminated

Workers are usually terminated by the server as soon as the last block is
returned. Output that was not flushed at that time did not make it into the
worker's log files.
---
 daisy/logging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daisy/logging.py b/daisy/logging.py
index 5067934..4a3e106 100644
--- a/daisy/logging.py
+++ b/daisy/logging.py
@@ -63,7 +63,8 @@ def redirect_stdouterr(basename, mode="w"):
 
 
 def _file_reopen(filename, mode, file_obj):
-    new = open(filename, mode)
+    # line-buffered, to not lose output if this process gets terminated
+    new = open(filename, mode, buffering=1)
     newfd = new.fileno()
     targetfd = file_obj.fileno()
     os.close(targetfd)
-- 
2.43.0


From b7c1fcfc7eee336853c6700a1e99ce59f2472960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:49 +0000
Subject: [PATCH 18/34] fix: do not accept clients after the server
 disconnected

The server kept listening after a run was over. Clients that connected late
waited forever for an answer to their request.
---
 daisy/tcp/tcp_server.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/daisy/tcp/tcp_server.py b/daisy/tcp/tcp_server.py
index aee63e4..fd602c6 100644
--- a/daisy/tcp/tcp_server.py
+++ b/daisy/tcp/tcp_server.py
@@ -27,6 +27,7 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
         self.message_queue = queue.Queue()
         self.exception_queue = queue.Queue()
         self.client_streams = set()
+        self.disconnected = False
 
         # find empty port, start listening
         for i in range(max_port_tries):
@@ -68,7 +69,10 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
             return None
 
     def disconnect(self):
-        """Close all open streams to clients."""
+        """Stop accepting connections and close all open streams to clients."""
+
+        self.disconnected = True
+        self.ioloop.add_callback(self.stop)
 
         streams = list(self.client_streams)  # avoid set change error
         for stream in streams:
@@ -96,6 +100,12 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
 
         self.client_streams.add(stream)
 
+        if self.disconnected:
+            # nobody would answer messages from this client
+            stream.close()
+            self.client_streams.remove(stream)
+            return
+
         while True:
             try:
                 message = await stream._get_message()
-- 
2.43.0


From 0ef3b0c229e7517dd3d32bc0258564a673bf8d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:56 +0000
Subject: [PATCH 19/34] fix: clean up if a task can not be started

An exception in the init callback of one of the first tasks left the streams
to clients that connected already open, and they waited forever.
---
 daisy/server.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/daisy/server.py b/daisy/server.py
index abc5420..b50bb4e 100644
--- a/daisy/server.py
+++ b/daisy/server.py
@@ -54,9 +54,8 @@ class Server(ServerObservee):
             task.task_id: Queue() for task in tasks
         }
 
-        self._recruit_workers()
-
         try:
+            self._recruit_workers()
             self._event_loop()
         finally:
             logger.debug("Stopping worker pools...")
-- 
2.43.0


From 3330918ba83db89aa97e7c7d6c017d185d682d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:50 +0000
Subject: [PATCH 20/34] fix: raise queue.Empty errors of workers

---
 daisy/worker_pool.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/daisy/worker_pool.py b/daisy/worker_pool.py
index d400dbb..02a35fd 100644
--- a/daisy/worker_pool.py
+++ b/daisy/worker_pool.py
@@ -97,10 +97,12 @@ class WorkerPool:
 
         try:
             error = self.error_queue.get(block=False)
-            logger.debug("Got error: %s", error)
-            raise error
         except queue.Empty:
-            pass
+            return
+
+        # not inside the try block, the error itself might be queue.Empty
+        logger.debug("Got error: %s", error)
+        raise error
 
     def reap_dead_workers(self):
         """Detect worker processes that have exited. Dead workers
-- 
2.43.0


From fc064df0c0b4ad139f455ca1fedfdb62c8886365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:40 +0000
Subject: [PATCH 21/34] fix: follow the upstream tasks of each task once

run_blockwise collected the upstream tasks of a task again every time it was
reached, which takes time exponential in the number of layers of tasks.
---
 daisy/convenience.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daisy/convenience.py b/daisy/convenience.py
index 4ddfb4e..408f1d2 100644
--- a/daisy/convenience.py
+++ b/daisy/convenience.py
@@ -31,7 +31,7 @@ def run_blockwise(tasks, multiprocessing=True):
         if task.task_id not in task_ids:
             task_ids.add(task.task_id)
             all_tasks.append(task)
-        tasks.extend(task.upstream_tasks)
+            tasks.extend(task.upstream_tasks)
 
     tasks = all_tasks
 
-- 
2.43.0


From 140a2e1f85d6cad56de5812152b2a1971c9c2e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:11 +0000
Subject: [PATCH 22/34] fix: notice ^C that is received by another thread than
 the main thread

---
 daisy/convenience.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/daisy/convenience.py b/daisy/convenience.py
index 408f1d2..fea676b 100644
--- a/daisy/convenience.py
+++ b/daisy/convenience.py
@@ -47,6 +47,10 @@ def run_blockwise(tasks, multiprocessing=True):
         with ThreadPool(processes=1) as pool:
             result = pool.apply_async(_run_blockwise, args=(tasks, stop_event))
             try:
+                # The signal of ^C might be received by another thread, which
+                # does not interrupt a wait without timeout in this one.
+                while not result.ready():
+                    result.wait(timeout=0.1)
                 return result.get()
             except KeyboardInterrupt:
                 stop_event.set()
-- 
2.43.0


From cf6d046b2cfcd47d6a27fd4ec6c5e46824d9c31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:03 +0000
Subject: [PATCH 23/34] fix: try other ports if the first one can not be used

The first failure to listen raised an AttributeError instead of trying again, or
of raising NoFreePort after the last try.
---
 daisy/tcp/tcp_server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/daisy/tcp/tcp_server.py b/daisy/tcp/tcp_server.py
index fd602c6..08e13c8 100644
--- a/daisy/tcp/tcp_server.py
+++ b/daisy/tcp/tcp_server.py
@@ -36,10 +36,10 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
                 break
 
             except OSError:
-                if i == self.max_port_tries - 1:
+                if i == max_port_tries - 1:
                     raise NoFreePort(
                         "Could not find a free port after %d tries "
-                        % self.max_port_tries
+                        % max_port_tries
                     )
 
         self.address = self._get_address(host)
-- 
2.43.0


From 58329a87154fd76df502fda36b67039adbe6fa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:03 +0000
Subject: [PATCH 24/34] fix: accept connections in the IO loop of the server

The server listened in the IO loop of the thread that created it, which is the
running one only if this thread created it. A server created later by another
thread never accepted a connection.
---
 daisy/tcp/tcp_server.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/daisy/tcp/tcp_server.py b/daisy/tcp/tcp_server.py
index 08e13c8..ff0cd10 100644
--- a/daisy/tcp/tcp_server.py
+++ b/daisy/tcp/tcp_server.py
@@ -6,6 +6,7 @@ import logging
 import queue
 import socket
 import tornado.tcpserver
+from tornado.netutil import bind_sockets
 
 logger = logging.getLogger(__name__)
 
@@ -32,7 +33,7 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
         # find empty port, start listening
         for i in range(max_port_tries):
             try:
-                self.listen(0)  # 0 == random port
+                sockets = bind_sockets(0)  # 0 == random port
                 break
 
             except OSError:
@@ -42,7 +43,10 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
                         % max_port_tries
                     )
 
-        self.address = self._get_address(host)
+        # accept connections in our IO loop (and not in the one of this thread)
+        self.ioloop.add_callback(self.add_sockets, sockets)
+
+        self.address = self._get_address(sockets[0].getsockname()[1], host)
 
     def get_message(self, timeout=None):
         """Get a message that was sent to this server.
@@ -137,11 +141,15 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
         except queue.Empty:
             return
 
-    def _get_address(self, host=None):
+    def _get_address(self, port, host=None):
         """Get the host and port of the tcp server.
 
         Args:
 
+            port (int):
+
+                The port the server listens on.
+
             host (str, optional):
 
                 If given, use this as the server host address. If not given,
@@ -151,9 +159,6 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
                 is not connectable (e.g., blocked by a macOS firewall).
         """
 
-        sock = self._sockets[list(self._sockets.keys())[0]]
-        port = sock.getsockname()[1]
-
         if host is not None:
             return (host, port)
 
-- 
2.43.0


From 27411c9a32ded0fdbbed16acad654e238cb87c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:03 +0000
Subject: [PATCH 25/34] fix: close streams in the thread of the IO loop

Streams of tornado are not thread-safe, closing one in the thread of the server
while the IO loop handles it left the IO loop with a broken state.
---
 daisy/tcp/tcp_stream.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/daisy/tcp/tcp_stream.py b/daisy/tcp/tcp_stream.py
index 767f834..01eb1f2 100644
--- a/daisy/tcp/tcp_stream.py
+++ b/daisy/tcp/tcp_stream.py
@@ -48,12 +48,10 @@ class TCPStream(IOLooper):
 
     def close(self):
         """Close this stream."""
-        try:
-            self.stream.close()
-        except Exception:
-            pass
-        finally:
-            self.stream = None
+        stream, self.stream = self.stream, None
+        if stream is not None:
+            # not thread-safe, to be called in the thread of the IO loop
+            self.ioloop.add_callback(stream.close)
 
     def closed(self):
         """True if this stream was closed."""
-- 
2.43.0


From f3df92ab648bf68cda805797f11e5ee4eaa2ba43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:03 +0000
Subject: [PATCH 26/34] fix: do not leave an IO loop behind with every run

Each call of run_blockwise forgot the IO loop of the previous one, whose thread
and file descriptors remained until the process had no more.
---
 daisy/convenience.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/daisy/convenience.py b/daisy/convenience.py
index fea676b..bdfe752 100644
--- a/daisy/convenience.py
+++ b/daisy/convenience.py
@@ -1,7 +1,6 @@
 from .cl_monitor import CLMonitor
 from .server import Server
 from .serial_server import SerialServer
-from .tcp import IOLooper
 from multiprocessing.pool import ThreadPool
 from multiprocessing import Event
 
@@ -43,7 +42,6 @@ def run_blockwise(tasks, multiprocessing=True):
     else:
         stop_event = Event()
 
-        IOLooper.clear()
         with ThreadPool(processes=1) as pool:
             result = pool.apply_async(_run_blockwise, args=(tasks, stop_event))
             try:
-- 
2.43.0


From c480c1f9e76774241ac1239aa9e9042a2268b4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:56 +0000
Subject: [PATCH 27/34] fix: close the streams of clients that disconnected

The server kept the socket of every client that disconnected properly until the
end of the process, and waited forever for blocks such a client still had.
The stream is closed after everything the client sent before was handled, so
that blocks it returned are not considered lost.
---
 daisy/tcp/tcp_server.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/daisy/tcp/tcp_server.py b/daisy/tcp/tcp_server.py
index ff0cd10..3278f48 100644
--- a/daisy/tcp/tcp_server.py
+++ b/daisy/tcp/tcp_server.py
@@ -67,7 +67,12 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
         self._check_for_errors()
 
         try:
-            return self.message_queue.get(block=True, timeout=timeout)
+            message = self.message_queue.get(block=True, timeout=timeout)
+            while isinstance(message, NotifyClientDisconnect):
+                self.client_streams.discard(message.stream)
+                message.stream.close()
+                message = self.message_queue.get(block=True, timeout=timeout)
+            return message
 
         except queue.Empty:
             return None
@@ -117,9 +122,10 @@ class TCPServer(tornado.tcpserver.TCPServer, IOLooper):
                 if isinstance(message, NotifyClientDisconnect):
                     # client notifies that it disconnects, send a response
                     # indicating we are no longer using this stream and break
-                    # out of event loop
-                    stream.send_message(AckClientDisconnect())
-                    self.client_streams.remove(stream)
+                    # out of event loop (the stream is closed after all
+                    # previous messages from this client have been received)
+                    await stream._send_message(AckClientDisconnect())
+                    self.message_queue.put(message)
                     return
 
                 else:
-- 
2.43.0


From af978c7024a76d0af4d8806f4af97306f62f5315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:10 +0000
Subject: [PATCH 28/34] fix: do not wrap logging handlers again with every run

---
 daisy/cl_monitor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/daisy/cl_monitor.py b/daisy/cl_monitor.py
index 55a0d18..59345d0 100644
--- a/daisy/cl_monitor.py
+++ b/daisy/cl_monitor.py
@@ -69,7 +69,8 @@ class CLMonitor(ServerObserver):
 
     def _is_tty_stream_handler(self, handler):
         return (
-            hasattr(handler, "stream")
+            not isinstance(handler, TqdmLoggingHandler)  # already wrapped
+            and hasattr(handler, "stream")
             and hasattr(handler.stream, "isatty")
             and handler.stream.isatty()
         )
-- 
2.43.0


From 97ad2bc5174d0b221d6e16966aceb4f54b15d7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:33 +0000
Subject: [PATCH 29/34] fix: pass on context values with any characters

---
 daisy/context.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/daisy/context.py b/daisy/context.py
index b53dec0..baf02df 100644
--- a/daisy/context.py
+++ b/daisy/context.py
@@ -1,6 +1,7 @@
 import copy
 import logging
 import os
+from urllib.parse import unquote
 from .logging import get_log_basedir
 
 logger = logging.getLogger(__name__)
@@ -16,7 +17,10 @@ class Context:
         return copy.deepcopy(self)
 
     def to_env(self):
-        return ":".join("%s=%s" % (k, v) for k, v in self.__dict.items())
+        return ":".join(
+            "%s=%s" % (self.__escape(k), self.__escape(v))
+            for k, v in self.__dict.items()
+        )
 
     def __setitem__(self, k, v):
         k = str(k)
@@ -51,6 +55,16 @@ class Context:
 
         for token in tokens:
             k, v = token.split("=")
-            context[k] = v
+            context.__dict[unquote(k)] = unquote(v)
 
         return context
+
+    @staticmethod
+    def __escape(value):
+        """Escape the characters that separate variables in `to_env`. Task IDs,
+        hostnames, and log directories can contain them."""
+
+        value = str(value)
+        for c in "%=:":  # "%" has to be the first one
+            value = value.replace(c, "%%%02X" % ord(c))
+        return value
-- 
2.43.0


From e7abebfe73f652fd47ab71fa2b849d73d79b0813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:28 +0000
Subject: [PATCH 30/34] fix: do not log to a directory None inside of workers

---
 daisy/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/daisy/client.py b/daisy/client.py
index e0c3175..8776550 100644
--- a/daisy/client.py
+++ b/daisy/client.py
@@ -57,7 +57,9 @@ class Client:
             self.context = Context.from_env()
         logger.debug("Client context: %s", self.context)
 
-        set_log_basedir(self.context["logdir"])
+        logdir = self.context["logdir"]
+        # environment variables are strings
+        set_log_basedir(None if logdir == "None" else logdir)
         self.host = self.context["hostname"]
         self.port = int(self.context["port"])
         self.worker_id = int(self.context["worker_id"])
-- 
2.43.0


From b88e79c307befb300e17c03e9d0947dff61e1169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:47 +0000
Subject: [PATCH 31/34] fix: streams that are closed by another thread are just
 closed

closed() looked at self.stream twice. If the IO loop noticed the end of a
connection in between, a lost client ended the whole run with an AttributeError.
---
 daisy/tcp/tcp_stream.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/daisy/tcp/tcp_stream.py b/daisy/tcp/tcp_stream.py
index 01eb1f2..7ee0141 100644
--- a/daisy/tcp/tcp_stream.py
+++ b/daisy/tcp/tcp_stream.py
@@ -55,9 +55,8 @@ class TCPStream(IOLooper):
 
     def closed(self):
         """True if this stream was closed."""
-        if self.stream is None:
-            return True
-        return self.stream.closed()
+        stream = self.stream  # might be set to None at any time
+        return stream is None or stream.closed()
 
     async def _send_message(self, message):
         if self.stream is None:
-- 
2.43.0


From e647fe742b0ee542fe7ae1b39e01b399526cc2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:47 +0000
Subject: [PATCH 32/34] fix: raise NotConnected if the server disconnects while
 sending

send_message() and disconnect() looked at self.stream twice, the connection
might be lost in between. This raised an AttributeError.
---
 daisy/tcp/tcp_client.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/daisy/tcp/tcp_client.py b/daisy/tcp/tcp_client.py
index e72f439..ae687f2 100644
--- a/daisy/tcp/tcp_client.py
+++ b/daisy/tcp/tcp_client.py
@@ -1,4 +1,4 @@
-from .exceptions import NotConnected
+from .exceptions import NotConnected, StreamClosedError
 from .io_looper import IOLooper
 from .tcp_stream import TCPStream
 from .internal_messages import AckClientDisconnect, NotifyClientDisconnect
@@ -57,12 +57,16 @@ class TCPClient(IOLooper):
     def disconnect(self):
         """Gracefully close the connection to the server."""
 
-        if not self.connected():
+        stream = self.stream  # might be set to None at any time
+        if stream is None:
             logger.warn("Called disconnect() on disconnected client")
             return
 
         logger.debug("Notifying server of disconnect...")
-        self.stream.send_message(NotifyClientDisconnect())
+        try:
+            stream.send_message(NotifyClientDisconnect())
+        except StreamClosedError:
+            logger.debug("Server disconnected already")
 
         while self.connected():
             time.sleep(0.1)
@@ -85,10 +89,11 @@ class TCPClient(IOLooper):
 
         self._check_for_errors()
 
-        if not self.connected():
+        stream = self.stream  # might be set to None at any time
+        if stream is None:
             raise NotConnected()
 
-        self.stream.send_message(message)
+        stream.send_message(message)
 
     def get_message(self, timeout=None):
         """Get a message that was sent to this client.
-- 
2.43.0


From 07c43191505e20ad3e636faf04192817ca5a2cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:47 +0000
Subject: [PATCH 33/34] fix: do not raise in clients if the server is gone

acquire_block() yields None if the server is gone, but only if this was
noticed at certain times. It raised StreamClosedError or NotConnected if the
server ended while a block was processed (e.g., because another client
returned the last block, or between the two messages that tell about the
failure of the last block), and in all following calls.
---
 daisy/client.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/daisy/client.py b/daisy/client.py
index 8776550..d6d2b1f 100644
--- a/daisy/client.py
+++ b/daisy/client.py
@@ -11,6 +11,7 @@ from .messages import (
 )
 from contextlib import contextmanager
 from daisy.tcp import TCPClient, StreamClosedError
+from daisy.tcp.exceptions import NotConnected
 import logging
 
 logger = logging.getLogger(__name__)
@@ -76,7 +77,7 @@ class Client:
             self.tcp_client.send_message(AcquireBlock(self.task_id))
             while message is None:
                 message = self.tcp_client.get_message(timeout=0.1)
-        except StreamClosedError:
+        except (StreamClosedError, NotConnected):
             logger.debug("TCP stream was closed, server is probably down")
             yield
             return
@@ -92,7 +93,7 @@ class Client:
                     block.status = BlockStatus.SUCCESS
             except Exception as e:
                 block.status = BlockStatus.FAILED
-                self.tcp_client.send_message(BlockFailed(e, block, self.context))
+                self._report(BlockFailed(e, block, self.context))
                 logger.exception("Block %s failed in worker %d", block, self.worker_id)
             finally:
                 # if we somehow got here without setting the block status to
@@ -110,4 +111,11 @@ class Client:
 
     def release_block(self, block):
         logger.debug("Releasing block %s", block.block_id)
-        self.tcp_client.send_message(ReleaseBlock(block))
+        self._report(ReleaseBlock(block))
+
+    def _report(self, message):
+        try:
+            self.tcp_client.send_message(message)
+        except (StreamClosedError, NotConnected):
+            # e.g., because the block that failed was the last one
+            logger.debug("TCP stream was closed, server is probably down")
-- 
2.43.0


From f84f2e0f3bb19cf1dfe147337514aab30e875e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:01 +0000
Subject: [PATCH 34/34] fix: start only one IO loop per process

Two threads that created the first servers or clients of a process at the same
time (e.g., by calling run_blockwise) could both create an IO loop. Streams of
one loop were then written to in the thread of the other one, which duplicated
or lost messages, or raised "threads can only be started once".
---
 daisy/tcp/io_looper.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/daisy/tcp/io_looper.py b/daisy/tcp/io_looper.py
index 5eb526f..9a8b9bf 100644
--- a/daisy/tcp/io_looper.py
+++ b/daisy/tcp/io_looper.py
@@ -22,6 +22,9 @@ class IOLooper:
     threads: Dict[int, threading.Thread] = {}
     ioloops: Dict[int, tornado.ioloop.IOLoop] = {}
 
+    # one lock per process, since it might be held while this process is forked
+    locks: Dict[int, threading.Lock] = {}
+
     @staticmethod
     def clear():
         IOLooper.threads = {}
@@ -30,17 +33,18 @@ class IOLooper:
     def __init__(self):
         pid = os.getpid()
 
-        if pid not in IOLooper.threads:
-            logger.debug("Creating new IOLoop for process %d...", pid)
-            self.ioloop = tornado.ioloop.IOLoop()
-            self.ioloops[pid] = self.ioloop
-
-            logger.debug("Starting io loop for process %d...", pid)
-            IOLooper.threads[pid] = threading.Thread(
-                target=self.ioloop.start, daemon=True
-            )
-            IOLooper.threads[pid].start()
-
-        else:
-            logger.debug("Reusing IOLoop for process %d...", pid)
-            self.ioloop = self.ioloops[pid]
+        with IOLooper.locks.setdefault(pid, threading.Lock()):
+            if pid not in IOLooper.threads:
+                logger.debug("Creating new IOLoop for process %d...", pid)
+                self.ioloop = tornado.ioloop.IOLoop()
+                self.ioloops[pid] = self.ioloop
+
+                logger.debug("Starting io loop for process %d...", pid)
+                IOLooper.threads[pid] = threading.Thread(
+                    target=self.ioloop.start, daemon=True
+                )
+                IOLooper.threads[pid].start()
+
+            else:
+                logger.debug("Reusing IOLoop for process %d...", pid)
+                self.ioloop = self.ioloops[pid]
-- 
2.43.0

