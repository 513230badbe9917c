From 1005d72a5e4779519a32865454005a4649e38730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:39 +0000
Subject: [PATCH 01/29] fix: copy buffers without a whole aligned block
 correctly in parallel_memcopy

---
 unidist/core/backends/mpi/core/memory/_memory.pyx | 3 +++
 unidist/core/backends/mpi/core/memory/memory.cpp  | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/unidist/core/backends/mpi/core/memory/_memory.pyx b/unidist/core/backends/mpi/core/memory/_memory.pyx
index af43c07..945388c 100644
--- a/unidist/core/backends/mpi/core/memory/_memory.pyx
+++ b/unidist/core/backends/mpi/core/memory/_memory.pyx
@@ -19,6 +19,9 @@ def parallel_memcopy(const uint8_t[:] src, uint8_t[:] dst, int memcopy_threads):
     memcopy_threads : int
         Number of threads to write.
     """
+    if len(src) == 0:
+        # There is nothing to copy and no first element to take the address of.
+        return
     with nogil:
         memory.parallel_memcopy(&dst[0],
                                 &src[0],
diff --git a/unidist/core/backends/mpi/core/memory/memory.cpp b/unidist/core/backends/mpi/core/memory/memory.cpp
index 5eba543..27c62f8 100644
--- a/unidist/core/backends/mpi/core/memory/memory.cpp
+++ b/unidist/core/backends/mpi/core/memory/memory.cpp
@@ -29,6 +29,12 @@ namespace unidist {
     std::vector<std::thread> threadpool(num_threads);
     uint8_t *left = pointer_logical_and(src + block_size - 1, ~(block_size - 1));
     uint8_t *right = pointer_logical_and(src + nbytes, ~(block_size - 1));
+    if (right <= left) {
+      // There is not a single whole block between the aligned addresses,
+      // so there is nothing to be divided between the threads.
+      std::memcpy(dst, src, nbytes);
+      return;
+    }
     int64_t num_blocks = (right - left) / block_size;
 
     // Update right address
-- 
2.43.0


From e012b9ea6d63c29525fe9506683c5febd333abf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:39 +0000
Subject: [PATCH 02/29] fix: get of a list with repeated remote references does
 not hang

---
 unidist/core/backends/mpi/core/controller/api.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index 2352392..c390e60 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -415,9 +415,13 @@ def get(data_ids):
     is_list = isinstance(data_ids, list)
     if not is_list:
         data_ids = [data_ids]
-    remote_data_ids = [
-        data_id for data_id in data_ids if not object_store.contains(data_id)
-    ]
+    # Every remote object has to be requested only once
+    # since an owner replies to the repeated requests with the only message.
+    remote_data_ids = list(
+        dict.fromkeys(
+            data_id for data_id in data_ids if not object_store.contains(data_id)
+        )
+    )
     # Remote data gets available in the local store inside `request_worker_data`
     if remote_data_ids:
         request_worker_data(remote_data_ids)
-- 
2.43.0


From 103007642d7d6ed7998b1f8e5359dffaa7fb3788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:39 +0000
Subject: [PATCH 03/29] fix: deserialization does not consume the cached
 serialized data

---
 unidist/core/backends/mpi/core/serialization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/serialization.py b/unidist/core/backends/mpi/core/serialization.py
index cb6d4d2..7a7c2d8 100755
--- a/unidist/core/backends/mpi/core/serialization.py
+++ b/unidist/core/backends/mpi/core/serialization.py
@@ -121,7 +121,9 @@ class ComplexDataSerializer:
     PICKLE_THRESHOLD = MpiPickleThreshold.get()
 
     def __init__(self, buffers=None, buffer_count=None):
-        self.buffers = buffers if buffers else []
+        # The list of buffers gets consumed during deserialization,
+        # so we make a copy to not affect the cached serialized data.
+        self.buffers = list(buffers) if buffers else []
         self.buffer_count = list(buffer_count) if buffer_count else []
         self._callback_counter = 0
 
-- 
2.43.0


From 0090fea46685349fd36dfa086e1097707a3f454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:31 +0000
Subject: [PATCH 04/29] fix: report failed tasks as completed and keep workers
 alive when results cannot be stored

---
 .../backends/mpi/core/worker/task_store.py    | 173 +++++++++---------
 1 file changed, 84 insertions(+), 89 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index f9be5c5..2683152 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -205,6 +205,81 @@ class TaskStore:
         else:
             return arg, False
 
+    def _put_outputs(self, output_data_ids, output_values):
+        """
+        Put the results of a task/actor-task into the storage.
+
+        Parameters
+        ----------
+        output_data_ids : unidist.core.backends.mpi.core.common.MpiDataID, list or None
+            Output data ID(s) to store the results with.
+        output_values : object
+            The results of the task.
+
+        Returns
+        -------
+        list
+            A list of the completed data IDs.
+        """
+        if output_data_ids is None:
+            return []
+        local_store = LocalObjectStore.get_instance()
+        shared_store = SharedObjectStore.get_instance()
+        if isinstance(output_data_ids, (list, tuple)):
+            output_values = list(output_values)
+            if len(output_values) < len(output_data_ids):
+                raise ValueError(
+                    f"The task was expected to return {len(output_data_ids)} objects, "
+                    f"but it returned {len(output_values)}."
+                )
+        else:
+            output_data_ids = [output_data_ids]
+            output_values = [output_values]
+        # Make sure that all the values can be serialized before storing any of them
+        outputs = [
+            (output_id, value, serialize_complex_data(value))
+            for output_id, value in zip(output_data_ids, output_values)
+        ]
+        for output_id, value, serialized_data in outputs:
+            if shared_store.is_allocated() and shared_store.should_be_shared(
+                serialized_data
+            ):
+                shared_store.put(output_id, serialized_data)
+            else:
+                local_store.cache_serialized_data(output_id, serialized_data)
+            local_store.put(output_id, value)
+        return list(output_data_ids)
+
+    def _put_exception(self, output_data_ids, exception):
+        """
+        Put the exception raised by a task/actor-task into the storage instead of its results.
+
+        Parameters
+        ----------
+        output_data_ids : unidist.core.backends.mpi.core.common.MpiDataID, list or None
+            Output data ID(s) to store the exception with.
+        exception : Exception
+            The exception raised by the task.
+
+        Returns
+        -------
+        list
+            A list of the completed data IDs.
+        """
+        if output_data_ids is None:
+            return []
+        if not isinstance(output_data_ids, (list, tuple)):
+            output_data_ids = [output_data_ids]
+        # The traceback refers to the frames, which refer to the data IDs,
+        # so the stored exception would prevent them from being collected.
+        exception.__traceback__ = None
+        local_store = LocalObjectStore.get_instance()
+        object_store = ObjectStore.get_instance()
+        for output_id in output_data_ids:
+            if not object_store.contains(output_id):
+                local_store.put(output_id, exception)
+        return list(output_data_ids)
+
     def execute_received_task(self, output_data_ids, task, args, kwargs):
         """
         Execute a task/actor-task and handle results.
@@ -224,9 +299,6 @@ class TaskStore:
         -----
         Exceptions are stored in output data IDs as value.
         """
-        local_store = LocalObjectStore.get_instance()
-        shared_store = SharedObjectStore.get_instance()
-        completed_data_ids = []
         # Note that if a task is coroutine,
         # the local store or the shared store will contain output data
         # only once the task is complete.
@@ -254,52 +326,14 @@ class TaskStore:
                     )
                     w_logger.debug("- End task execution -")
 
+                    completed_data_ids = self._put_outputs(
+                        output_data_ids, output_values
+                    )
+
                 except Exception as e:
                     w_logger.debug("Exception - {}".format(e))
 
-                    if (
-                        isinstance(output_data_ids, (list, tuple))
-                        and len(output_data_ids) > 1
-                    ):
-                        for output_id in output_data_ids:
-                            local_store.put(output_id, e)
-                    else:
-                        local_store.put(output_data_ids, e)
-                else:
-                    if output_data_ids is not None:
-                        if (
-                            isinstance(output_data_ids, (list, tuple))
-                            and len(output_data_ids) > 1
-                        ):
-                            completed_data_ids = [None] * len(output_data_ids)
-                            for idx, (output_id, value) in enumerate(
-                                zip(output_data_ids, output_values)
-                            ):
-                                serialized_data = serialize_complex_data(value)
-                                local_store.put(output_id, value)
-                                if (
-                                    shared_store.is_allocated()
-                                    and shared_store.should_be_shared(serialized_data)
-                                ):
-                                    shared_store.put(output_id, serialized_data)
-                                else:
-                                    local_store.cache_serialized_data(
-                                        output_id, serialized_data
-                                    )
-                                completed_data_ids[idx] = output_id
-                        else:
-                            serialized_data = serialize_complex_data(output_values)
-                            local_store.put(output_data_ids, output_values)
-                            if (
-                                shared_store.is_allocated()
-                                and shared_store.should_be_shared(serialized_data)
-                            ):
-                                shared_store.put(output_data_ids, serialized_data)
-                            else:
-                                local_store.cache_serialized_data(
-                                    output_data_ids, serialized_data
-                                )
-                            completed_data_ids = [output_data_ids]
+                    completed_data_ids = self._put_exception(output_data_ids, e)
 
                 RequestStore.get_instance().check_pending_get_requests(output_data_ids)
                 # Monitor the task execution
@@ -343,52 +377,13 @@ class TaskStore:
                 )
                 w_logger.debug("- End task execution -")
 
+                completed_data_ids = self._put_outputs(output_data_ids, output_values)
+
             except Exception as e:
                 w_logger.debug("Exception - {}".format(e))
 
-                if (
-                    isinstance(output_data_ids, (list, tuple))
-                    and len(output_data_ids) > 1
-                ):
-                    for output_id in output_data_ids:
-                        local_store.put(output_id, e)
-                else:
-                    local_store.put(output_data_ids, e)
-            else:
-                if output_data_ids is not None:
-                    if (
-                        isinstance(output_data_ids, (list, tuple))
-                        and len(output_data_ids) > 1
-                    ):
-                        completed_data_ids = [None] * len(output_data_ids)
-                        for idx, (output_id, value) in enumerate(
-                            zip(output_data_ids, output_values)
-                        ):
-                            serialized_data = serialize_complex_data(value)
-                            local_store.put(output_id, value)
-                            if (
-                                shared_store.is_allocated()
-                                and shared_store.should_be_shared(serialized_data)
-                            ):
-                                shared_store.put(output_id, serialized_data)
-                            else:
-                                local_store.cache_serialized_data(
-                                    output_id, serialized_data
-                                )
-                            completed_data_ids[idx] = output_id
-                    else:
-                        serialized_data = serialize_complex_data(output_values)
-                        local_store.put(output_data_ids, output_values)
-                        if (
-                            shared_store.is_allocated()
-                            and shared_store.should_be_shared(serialized_data)
-                        ):
-                            shared_store.put(output_data_ids, serialized_data)
-                        else:
-                            local_store.cache_serialized_data(
-                                output_data_ids, serialized_data
-                            )
-                        completed_data_ids = [output_data_ids]
+                completed_data_ids = self._put_exception(output_data_ids, e)
+
             RequestStore.get_instance().check_pending_get_requests(output_data_ids)
             # Monitor the task execution.
             # We use a blocking send here because we have to wait for
-- 
2.43.0


From b4d73be3027c5af8d944455b75399b6da66e807b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:43 +0000
Subject: [PATCH 05/29] fix: raise the exception of a failed task on every get

---
 unidist/core/backends/mpi/core/controller/api.py    | 9 +++++++++
 unidist/core/backends/mpi/core/controller/common.py | 6 ------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index c390e60..164d81a 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -4,6 +4,7 @@
 
 """High-level API of MPI backend."""
 
+import copy
 import os
 import sys
 import atexit
@@ -434,6 +435,14 @@ def get(data_ids):
     # if all the tasks were completed
     garbage_collector.regular_cleanup()
 
+    local_store = LocalObjectStore.get_instance()
+    for data_id, value in zip(data_ids, values):
+        # An exception that came from a task should be raised every time its data ID is requested
+        if isinstance(value, Exception) and local_store.contains_data_owner(data_id):
+            # We raise a copy because the traceback refers to the frames, which refer to the data ID,
+            # so the stored exception would prevent the data ID from being collected.
+            raise copy.copy(value)
+
     return values if is_list else values[0]
 
 
diff --git a/unidist/core/backends/mpi/core/controller/common.py b/unidist/core/backends/mpi/core/controller/common.py
index 6d6f368..dd6596f 100644
--- a/unidist/core/backends/mpi/core/controller/common.py
+++ b/unidist/core/backends/mpi/core/controller/common.py
@@ -215,13 +215,9 @@ def request_worker_data(data_ids):
         async_operations.extend(h_list)
 
     data_count = 0
-    # If some dataids raise an exception it will be captured in exception_raised variable and raised after the while loop ends.
-    exception_raised = None
     while data_count < len(data_ids):
         # Remote data gets available in the local store inside `pull_data`
         complex_data = pull_data(mpi_state.global_comm)
-        if isinstance(complex_data["data"], Exception) and exception_raised is None:
-            exception_raised = complex_data["data"]
         data_id = complex_data["id"]
         if data_id in data_ids:
             data_count += 1
@@ -229,8 +225,6 @@ def request_worker_data(data_ids):
             raise RuntimeError(
                 f"DataID {data_id} isn't in the requested list {data_ids}"
             )
-    if exception_raised:
-        raise exception_raised
 
 
 def _push_local_data(dest_rank, data_id, is_blocking_op, is_serialized):
-- 
2.43.0


From 2ee6169b9d7295279ca5af40acbeea60429d9428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:10 +0000
Subject: [PATCH 06/29] fix: compare submitted and executed tasks per submitter
 before cleanup

---
 .../backends/mpi/core/controller/actor.py     |  4 +++
 .../core/backends/mpi/core/monitor/loop.py    | 26 +++++++++++++------
 unidist/core/backends/mpi/core/worker/loop.py |  2 ++
 .../backends/mpi/core/worker/task_store.py    | 14 +++++++---
 4 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/unidist/core/backends/mpi/core/controller/actor.py b/unidist/core/backends/mpi/core/controller/actor.py
index cb994e6..795f7a3 100644
--- a/unidist/core/backends/mpi/core/controller/actor.py
+++ b/unidist/core/backends/mpi/core/controller/actor.py
@@ -61,6 +61,10 @@ class ActorMethod:
             is_serialized=False,
         )
         async_operations.extend(h_list)
+
+        # Track the task execution
+        garbage_collector.increment_task_counter()
+
         return output_id
 
 
diff --git a/unidist/core/backends/mpi/core/monitor/loop.py b/unidist/core/backends/mpi/core/monitor/loop.py
index 7787133..cc8c75e 100755
--- a/unidist/core/backends/mpi/core/monitor/loop.py
+++ b/unidist/core/backends/mpi/core/monitor/loop.py
@@ -4,6 +4,8 @@
 
 """Monitoring process."""
 
+from collections import defaultdict
+
 try:
     import mpi4py
 except ImportError:
@@ -33,7 +35,8 @@ class TaskCounter:
     __instance = None
 
     def __init__(self):
-        self.task_counter = 0
+        # Number of executed tasks {submitter rank : count}
+        self.task_counter = defaultdict(int)
 
     @classmethod
     def get_instance(cls):
@@ -48,9 +51,16 @@ class TaskCounter:
             cls.__instance = TaskCounter()
         return cls.__instance
 
-    def increment(self):
-        """Increment task counter by one."""
-        self.task_counter += 1
+    def increment(self, submitter_rank):
+        """
+        Increment the counter of executed tasks submitted by the process by one.
+
+        Parameters
+        ----------
+        submitter_rank : int
+            Rank of the process that submitted the task.
+        """
+        self.task_counter[submitter_rank] += 1
 
 
 class DataIDTracker:
@@ -195,11 +205,11 @@ def monitor_loop():
         )
         # Proceed the request
         if operation_type == common.Operation.TASK_DONE:
-            task_counter.increment()
-            output_data_ids = communication.mpi_recv_object(
+            operation_data = communication.mpi_recv_object(
                 mpi_state.global_comm, source_rank
             )
-            data_id_tracker.add_to_completed(output_data_ids)
+            task_counter.increment(operation_data["submitter"])
+            data_id_tracker.add_to_completed(operation_data["data_ids"])
             wait_handler.process_wait_requests()
         elif operation_type == common.Operation.WAIT:
             # TODO: WAIT request can be received from several workers,
@@ -215,7 +225,7 @@ def monitor_loop():
             # We use a blocking send here because the receiver is waiting for the result.
             communication.mpi_send_object(
                 mpi_state.global_comm,
-                task_counter.task_counter,
+                task_counter.task_counter[source_rank],
                 source_rank,
             )
         elif operation_type == common.Operation.RESERVE_SHARED_MEMORY:
diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 5515ff5..66200a6 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -113,6 +113,7 @@ async def worker_loop():
         if operation_type == common.Operation.EXECUTE:
             request = pull_data(mpi_state.global_comm, source_rank)
             if not ready_to_shutdown_posted:
+                request["submitter"] = source_rank
                 # Execute the task if possible
                 pending_request = task_store.process_task_request(request)
                 if pending_request:
@@ -191,6 +192,7 @@ async def worker_loop():
                 handler = request["handler"]
                 actor_method = getattr(actor_map[handler], method_name)
                 request["task"] = actor_method
+                request["submitter"] = source_rank
 
                 # Execute the actor task if possible
                 pending_actor_request = task_store.process_task_request(request)
diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index 2683152..38b0b8e 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -280,7 +280,9 @@ class TaskStore:
                 local_store.put(output_id, exception)
         return list(output_data_ids)
 
-    def execute_received_task(self, output_data_ids, task, args, kwargs):
+    def execute_received_task(
+        self, output_data_ids, task, args, kwargs, submitter_rank
+    ):
         """
         Execute a task/actor-task and handle results.
 
@@ -294,6 +296,8 @@ class TaskStore:
             Positional arguments to be passed in the `task`.
         kwargs : dict
             Keyword arguments to be passed in the `task`.
+        submitter_rank : int
+            Rank of the process that submitted the task.
 
         Notes
         -----
@@ -345,7 +349,7 @@ class TaskStore:
                 communication.send_simple_operation(
                     communication.MPIState.get_instance().global_comm,
                     common.Operation.TASK_DONE,
-                    completed_data_ids,
+                    {"data_ids": completed_data_ids, "submitter": submitter_rank},
                     root_monitor,
                 )
 
@@ -394,7 +398,7 @@ class TaskStore:
             communication.send_simple_operation(
                 communication.MPIState.get_instance().global_comm,
                 common.Operation.TASK_DONE,
-                completed_data_ids,
+                {"data_ids": completed_data_ids, "submitter": submitter_rank},
                 root_monitor,
             )
 
@@ -447,7 +451,9 @@ class TaskStore:
             request["kwargs"] = kwargs
             return request
         else:
-            self.execute_received_task(output_ids, task, args, kwargs)
+            self.execute_received_task(
+                output_ids, task, args, kwargs, request["submitter"]
+            )
             if output_ids is not None:
                 RequestStore.get_instance().check_pending_get_requests(output_ids)
                 RequestStore.get_instance().check_pending_wait_requests(output_ids)
-- 
2.43.0


From dc22d4d16d5cebc07a9be0ff693f61bacde7fc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:22 +0000
Subject: [PATCH 07/29] fix: separate the buffers of blocking get replies from
 other transfers

A worker that executes a task and calls get() receives the reply while
other operations from the same process may be in flight. Their buffers
used the same tag, so the reply could be mixed up with them.
---
 unidist/core/backends/mpi/core/common.py       |  4 ++++
 .../core/backends/mpi/core/communication.py    | 18 ++++++++++--------
 .../backends/mpi/core/controller/common.py     |  6 ++++--
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/unidist/core/backends/mpi/core/common.py b/unidist/core/backends/mpi/core/common.py
index 8e61ab7..77dde88 100755
--- a/unidist/core/backends/mpi/core/common.py
+++ b/unidist/core/backends/mpi/core/common.py
@@ -104,12 +104,16 @@ class MPITag:
     OBJECT_BLOCKING : int, default: 114
         The tag for send/recv of a regular Python object
         to indicate the blocking get request.
+    BUFFER_BLOCKING : int, default: 115
+        The tag for send/recv of a buffer-like object
+        to indicate the blocking get request.
     """
 
     OPERATION = 111
     OBJECT = 112
     BUFFER = 113
     OBJECT_BLOCKING = 114
+    BUFFER_BLOCKING = 115
 
 
 class MetadataPackage(ImmutableDict):
diff --git a/unidist/core/backends/mpi/core/communication.py b/unidist/core/backends/mpi/core/communication.py
index a864e66..1d58d80 100755
--- a/unidist/core/backends/mpi/core/communication.py
+++ b/unidist/core/backends/mpi/core/communication.py
@@ -651,14 +651,14 @@ def _send_complex_data_impl(comm, s_data, raw_buffers, dest_rank, info_package):
     Notes
     -----
     The special tags are used for this communication, namely,
-    ``common.MPITag.OBJECT`` and ``common.MPITag.BUFFER``.
+    ``common.MPITag.OBJECT_BLOCKING`` and ``common.MPITag.BUFFER_BLOCKING``.
     """
     # wrap to dict for sending and correct deserialization of the object by the recipient
     comm.send(dict(info_package), dest=dest_rank, tag=common.MPITag.OBJECT_BLOCKING)
     with pkl5._bigmpi as bigmpi:
-        comm.Send(bigmpi(s_data), dest=dest_rank, tag=common.MPITag.BUFFER)
+        comm.Send(bigmpi(s_data), dest=dest_rank, tag=common.MPITag.BUFFER_BLOCKING)
         for sbuf in raw_buffers:
-            comm.Send(bigmpi(sbuf), dest=dest_rank, tag=common.MPITag.BUFFER)
+            comm.Send(bigmpi(sbuf), dest=dest_rank, tag=common.MPITag.BUFFER_BLOCKING)
 
 
 def send_complex_data(comm, data, dest_rank, is_serialized=False):
@@ -813,7 +813,7 @@ def isend_complex_data(comm, data, dest_rank, is_serialized=False):
     return handlers, s_data, raw_buffers, buffer_count
 
 
-def recv_complex_data(comm, source_rank, info_package):
+def recv_complex_data(comm, source_rank, info_package, tag=common.MPITag.BUFFER):
     """
     Receive the data that may consist of different user provided complex types, lambdas and buffers.
 
@@ -827,6 +827,8 @@ def recv_complex_data(comm, source_rank, info_package):
         Source MPI process to receive data from.
     info_package : unidist.core.backends.mpi.core.common.MetadataPackage
         Required information to deserialize data.
+    tag : common.MPITag, default: common.MPITag.BUFFER
+        Message tag of the buffers.
 
     Returns
     -------
@@ -835,16 +837,16 @@ def recv_complex_data(comm, source_rank, info_package):
 
     Notes
     -----
-    The special tags are used for this communication, namely,
-    ``common.MPITag.OBJECT`` and ``common.MPITag.BUFFER``.
+    The special tags are used for this communication, namely, ``common.MPITag.BUFFER``
+    or ``common.MPITag.BUFFER_BLOCKING`` if the data is a reply to the blocking get request.
     """
     msgpack_buffer = bytearray(info_package["s_data_len"])
     buffer_count = info_package["buffer_count"]
     raw_buffers = list(map(bytearray, info_package["raw_buffers_len"]))
     with pkl5._bigmpi as bigmpi:
-        comm.Recv(bigmpi(msgpack_buffer), source=source_rank, tag=common.MPITag.BUFFER)
+        comm.Recv(bigmpi(msgpack_buffer), source=source_rank, tag=tag)
         for rbuf in raw_buffers:
-            comm.Recv(bigmpi(rbuf), source=source_rank, tag=common.MPITag.BUFFER)
+            comm.Recv(bigmpi(rbuf), source=source_rank, tag=tag)
 
     return deserialize_complex_data(msgpack_buffer, raw_buffers, buffer_count)
 
diff --git a/unidist/core/backends/mpi/core/controller/common.py b/unidist/core/backends/mpi/core/controller/common.py
index dd6596f..b937b6a 100644
--- a/unidist/core/backends/mpi/core/controller/common.py
+++ b/unidist/core/backends/mpi/core/controller/common.py
@@ -133,8 +133,10 @@ def pull_data(comm, owner_rank=None):
             comm, tag=common.MPITag.OBJECT_BLOCKING
         )
         owner_rank = source
+        buffer_tag = common.MPITag.BUFFER_BLOCKING
     else:
         info_package = communication.mpi_recv_object(comm, owner_rank)
+        buffer_tag = common.MPITag.BUFFER
     if info_package["package_type"] == common.MetadataPackage.SHARED_DATA:
         local_store = LocalObjectStore.get_instance()
         shared_store = SharedObjectStore.get_instance()
@@ -155,7 +157,7 @@ def pull_data(comm, owner_rank=None):
     elif info_package["package_type"] == common.MetadataPackage.LOCAL_DATA:
         local_store = LocalObjectStore.get_instance()
         data = communication.recv_complex_data(
-            comm, owner_rank, info_package=info_package
+            comm, owner_rank, info_package=info_package, tag=buffer_tag
         )
         data_id = info_package["id"]
         local_store.put(data_id, data)
@@ -165,7 +167,7 @@ def pull_data(comm, owner_rank=None):
         }
     elif info_package["package_type"] == common.MetadataPackage.TASK_DATA:
         return communication.recv_complex_data(
-            comm, owner_rank, info_package=info_package
+            comm, owner_rank, info_package=info_package, tag=buffer_tag
         )
     else:
         raise ValueError("Unexpected package of data info!")
-- 
2.43.0


From cfc619473495aa550a7cc022e1972c54a307fc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:03 +0000
Subject: [PATCH 08/29] fix: check all pending requests of a worker once new
 data becomes available

Requests that depend on a result of an async actor method of the same
worker were never checked again, as well as requests of the other kind
(task/actor task) than the one that had just been executed.
---
 unidist/core/backends/mpi/core/worker/loop.py | 12 ++++-------
 .../backends/mpi/core/worker/task_store.py    | 21 +++++++++++++++++++
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 66200a6..6b50364 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -120,7 +120,7 @@ async def worker_loop():
                     task_store.put(pending_request)
                 else:
                     # Check pending requests. Maybe some data became available.
-                    task_store.check_pending_tasks()
+                    task_store.check_all_pending_tasks()
 
         elif operation_type == common.Operation.GET:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
@@ -142,9 +142,7 @@ async def worker_loop():
                 request_store.discard_data_request(request["id"])
 
                 # Check pending requests. Maybe some data became available.
-                task_store.check_pending_tasks()
-                # Check pending actor requests also.
-                task_store.check_pending_actor_tasks()
+                task_store.check_all_pending_tasks()
 
         elif operation_type == common.Operation.PUT_OWNER:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
@@ -164,9 +162,7 @@ async def worker_loop():
             request_store.discard_data_request(result["id"])
 
             # Check pending requests. Maybe some data became available.
-            task_store.check_pending_tasks()
-            # Check pending actor requests also.
-            task_store.check_pending_actor_tasks()
+            task_store.check_all_pending_tasks()
 
         elif operation_type == common.Operation.WAIT:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
@@ -200,7 +196,7 @@ async def worker_loop():
                     task_store.put_actor(pending_actor_request)
                 else:
                     # Check pending requests. Maybe some data became available.
-                    task_store.check_pending_actor_tasks()
+                    task_store.check_all_pending_tasks()
 
         elif operation_type == common.Operation.CLEANUP:
             cleanup_list = communication.recv_serialized_data(
diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index 38b0b8e..6b5be12 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -120,6 +120,25 @@ class TaskStore:
                     updated_list.append(pending_request)
             self._pending_actor_tasks_list = updated_list
 
+    def check_all_pending_tasks(self):
+        """
+        Check all pending task and actor task execution requests and process all ready ones.
+
+        Notes
+        -----
+        A result of a processed request can be a dependency of other pending requests.
+        """
+        while True:
+            pending_count = len(self._pending_tasks_list) + len(
+                self._pending_actor_tasks_list
+            )
+            self.check_pending_tasks()
+            self.check_pending_actor_tasks()
+            if pending_count == len(self._pending_tasks_list) + len(
+                self._pending_actor_tasks_list
+            ):
+                break
+
     def clear_pending_actor_tasks(self):
         """
         Clear a list of pending actor task execution requests.
@@ -352,6 +371,8 @@ class TaskStore:
                     {"data_ids": completed_data_ids, "submitter": submitter_rank},
                     root_monitor,
                 )
+                # Check pending requests. Maybe some of them depend on the results.
+                self.check_all_pending_tasks()
 
             async_task = asyncio.create_task(execute())
             # Add task to the set. This creates a strong reference.
-- 
2.43.0


From 5603b3060be40a5ddb888c109cd45f7a352ecb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:37 +0000
Subject: [PATCH 09/29] fix: keep get requests for results of async actor
 methods until they complete

A request received before the coroutine had been started was removed from
the storage once the coroutine had been started, so the requester hung.
---
 .../core/backends/mpi/core/worker/request_store.py   | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/request_store.py b/unidist/core/backends/mpi/core/worker/request_store.py
index 89703cf..36bd5ba 100644
--- a/unidist/core/backends/mpi/core/worker/request_store.py
+++ b/unidist/core/backends/mpi/core/worker/request_store.py
@@ -146,18 +146,18 @@ class RequestStore:
         def check_request(data_id):
             # Check non-blocking data requests for one of the workers
             if data_id in self._nonblocking_get_requests:
-                ranks_with_get_request = self._nonblocking_get_requests[data_id]
+                # The request will be saved again if the data is not available yet
+                # (e.g. the task is a coroutine that is not complete).
+                ranks_with_get_request = self._nonblocking_get_requests.pop(data_id)
                 for rank_num in ranks_with_get_request:
-                    # Data is already in DataMap, so not problem here
                     self.process_get_request(rank_num, data_id, is_blocking_op=False)
-                del self._nonblocking_get_requests[data_id]
             # Check blocking data requests for other of the workers
             if data_id in self._blocking_get_requests:
-                ranks_with_get_request = self._blocking_get_requests[data_id]
+                # The request will be saved again if the data is not available yet
+                # (e.g. the task is a coroutine that is not complete).
+                ranks_with_get_request = self._blocking_get_requests.pop(data_id)
                 for rank_num in ranks_with_get_request:
-                    # Data is already in DataMap, so not problem here
                     self.process_get_request(rank_num, data_id, is_blocking_op=True)
-                del self._blocking_get_requests[data_id]
 
         if isinstance(data_ids, (list, tuple)):
             for data_id in data_ids:
-- 
2.43.0


From 9e10a2d0a82f3dfc02130010a92731b0572a6f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:48 +0000
Subject: [PATCH 10/29] fix: execute actor methods in the order they were
 submitted in

A method with unresolved data dependencies was overtaken by the methods
submitted after it.
---
 unidist/core/backends/mpi/core/worker/loop.py       | 11 ++++-------
 unidist/core/backends/mpi/core/worker/task_store.py | 11 +++++++++++
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 6b50364..2d4b130 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -190,13 +190,10 @@ async def worker_loop():
                 request["task"] = actor_method
                 request["submitter"] = source_rank
 
-                # Execute the actor task if possible
-                pending_actor_request = task_store.process_task_request(request)
-                if pending_actor_request:
-                    task_store.put_actor(pending_actor_request)
-                else:
-                    # Check pending requests. Maybe some data became available.
-                    task_store.check_all_pending_tasks()
+                # Execute the actor task if possible. The task should go after
+                # pending ones to keep the order the tasks were submitted in.
+                task_store.put_actor(request)
+                task_store.check_all_pending_tasks()
 
         elif operation_type == common.Operation.CLEANUP:
             cleanup_list = communication.recv_serialized_data(
diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index 6b5be12..f252222 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -109,14 +109,25 @@ class TaskStore:
         Check a list of pending actor task execution requests and process all ready tasks.
 
         Task is ready if all data dependencies are resolved.
+
+        Notes
+        -----
+        Tasks of an actor get processed in the order they were submitted in by a process,
+        i.e. a task with unresolved data dependencies holds the following ones.
         """
         w_logger.debug("Check pending actor tasks")
 
         if self._pending_actor_tasks_list:
             updated_list = []
+            held_actors = set()
             for request in self._pending_actor_tasks_list:
+                actor_key = (request["handler"], request["submitter"])
+                if actor_key in held_actors:
+                    updated_list.append(request)
+                    continue
                 pending_request = self.process_task_request(request)
                 if pending_request:
+                    held_actors.add(actor_key)
                     updated_list.append(pending_request)
             self._pending_actor_tasks_list = updated_list
 
-- 
2.43.0


From 388d80a61613692e06835932594514a7a8866815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:55 +0000
Subject: [PATCH 11/29] fix: keep actor tasks that come before their actor has
 been created

A handle of an actor can be passed to a task on another worker, whose
calls may reach the worker of the actor before the creation request.
---
 unidist/core/backends/mpi/core/worker/loop.py | 45 ++++++++++++++-----
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 2d4b130..13c1c39 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -5,6 +5,7 @@
 """Worker MPI process task processing functionality."""
 
 import asyncio
+from collections import defaultdict
 from functools import wraps, partial
 
 try:
@@ -37,6 +38,8 @@ log_file = "{}.log".format(logger_name)
 w_logger = common.get_logger(logger_name, log_file)
 # Actors map {handle : actor}
 actor_map = {}
+# Actor tasks that came before their actor has been created {handle : [requests]}
+early_actor_requests = defaultdict(list)
 
 
 # -------------- #
@@ -69,6 +72,27 @@ def async_wrap(func):
     return run
 
 
+def process_actor_request(request):
+    """
+    Process a request for execution of an actor method.
+
+    Parameters
+    ----------
+    request : dict
+        Actor task execution request with arguments.
+    """
+    task_store = TaskStore.get_instance()
+    # Prepare the data
+    # Actor method here is a data id so we have to retrieve it from the storage
+    method_name = ObjectStore.get_instance().get(request["task"])
+    request["task"] = getattr(actor_map[request["handler"]], method_name)
+
+    # Execute the actor task if possible. The task should go after
+    # pending ones to keep the order the tasks were submitted in.
+    task_store.put_actor(request)
+    task_store.check_all_pending_tasks()
+
+
 # ---------------------------- #
 # Worker event processing loop #
 # ---------------------------- #
@@ -86,7 +110,6 @@ async def worker_loop():
     ``unidist.core.backends.mpi.core.common.Operations`` defines a set of supported operations.
     """
     task_store = TaskStore.get_instance()
-    object_store = ObjectStore.get_instance()
     local_store = LocalObjectStore.get_instance()
     request_store = RequestStore.get_instance()
     async_operations = AsyncOperations.get_instance()
@@ -178,22 +201,19 @@ async def worker_loop():
                 kwargs = request["kwargs"]
                 handler = request["handler"]
                 actor_map[handler] = cls(*args, **kwargs)
+                # Process the tasks submitted by other processes
+                # that came before the actor has been created
+                for actor_request in early_actor_requests.pop(handler, []):
+                    process_actor_request(actor_request)
 
         elif operation_type == common.Operation.ACTOR_EXECUTE:
             request = pull_data(mpi_state.global_comm, source_rank)
             if not ready_to_shutdown_posted:
-                # Prepare the data
-                # Actor method here is a data id so we have to retrieve it from the storage
-                method_name = object_store.get(request["task"])
-                handler = request["handler"]
-                actor_method = getattr(actor_map[handler], method_name)
-                request["task"] = actor_method
                 request["submitter"] = source_rank
-
-                # Execute the actor task if possible. The task should go after
-                # pending ones to keep the order the tasks were submitted in.
-                task_store.put_actor(request)
-                task_store.check_all_pending_tasks()
+                if request["handler"] in actor_map:
+                    process_actor_request(request)
+                else:
+                    early_actor_requests[request["handler"]].append(request)
 
         elif operation_type == common.Operation.CLEANUP:
             cleanup_list = communication.recv_serialized_data(
@@ -205,6 +225,7 @@ async def worker_loop():
         elif operation_type == common.Operation.CANCEL:
             task_store.clear_pending_tasks()
             task_store.clear_pending_actor_tasks()
+            early_actor_requests.clear()
             request_store.clear_get_requests()
             request_store.clear_wait_requests()
             async_operations.finish()
-- 
2.43.0


From 8757c6d2f081367b35fa8a4e847fea3252b0fc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:07 +0000
Subject: [PATCH 12/29] fix: a failing actor constructor does not stop the
 worker

The exception is raised by every method of the actor instead, as well as
the exception caused by a missing method.
---
 unidist/core/backends/mpi/core/worker/loop.py | 45 ++++++++++++++++++-
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 13c1c39..03dbb0d 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -72,6 +72,39 @@ def async_wrap(func):
     return run
 
 
+class FailedActor:
+    """
+    Class that stands for an actor whose constructor raised an exception.
+
+    Parameters
+    ----------
+    exception : Exception
+        The exception raised by the constructor.
+    """
+
+    def __init__(self, exception):
+        self._exception = exception
+
+    def __getattr__(self, name):
+        raise self._exception
+
+
+def raise_exception(exception, *args, **kwargs):
+    """
+    Raise `exception` instead of executing an actor method.
+
+    Parameters
+    ----------
+    exception : Exception
+        The exception to raise.
+    *args : iterable
+        Positional arguments of the method.
+    **kwargs : dict
+        Keyword arguments of the method.
+    """
+    raise exception
+
+
 def process_actor_request(request):
     """
     Process a request for execution of an actor method.
@@ -85,7 +118,11 @@ def process_actor_request(request):
     # Prepare the data
     # Actor method here is a data id so we have to retrieve it from the storage
     method_name = ObjectStore.get_instance().get(request["task"])
-    request["task"] = getattr(actor_map[request["handler"]], method_name)
+    try:
+        request["task"] = getattr(actor_map[request["handler"]], method_name)
+    except Exception as e:
+        # Report the exception as a result of the task
+        request["task"] = partial(raise_exception, e)
 
     # Execute the actor task if possible. The task should go after
     # pending ones to keep the order the tasks were submitted in.
@@ -200,7 +237,11 @@ async def worker_loop():
                 args = request["args"]
                 kwargs = request["kwargs"]
                 handler = request["handler"]
-                actor_map[handler] = cls(*args, **kwargs)
+                try:
+                    actor_map[handler] = cls(*args, **kwargs)
+                except Exception as e:
+                    # The exception will be raised by every method of the actor
+                    actor_map[handler] = FailedActor(e)
                 # Process the tasks submitted by other processes
                 # that came before the actor has been created
                 for actor_request in early_actor_requests.pop(handler, []):
-- 
2.43.0


From 7a3cdafe109730b536e55f389339b9b78898c4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:43 +0000
Subject: [PATCH 13/29] fix: copy the buffers of task arguments before sending
 them

The communication is asynchronous, so the arguments modified after
.remote() reached the worker in the modified state.
---
 unidist/core/backends/mpi/core/communication.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/communication.py b/unidist/core/backends/mpi/core/communication.py
index 1d58d80..d0152a6 100755
--- a/unidist/core/backends/mpi/core/communication.py
+++ b/unidist/core/backends/mpi/core/communication.py
@@ -799,7 +799,9 @@ def isend_complex_data(comm, data, dest_rank, is_serialized=False):
     else:
         serialized_data = serialize_complex_data(data)
         s_data = serialized_data["s_data"]
-        raw_buffers = serialized_data["raw_buffers"]
+        # We make a copy to avoid data corruption since the user may modify
+        # the original data before the communication is complete.
+        raw_buffers = [buf.tobytes() for buf in serialized_data["raw_buffers"]]
         buffer_count = serialized_data["buffer_count"]
         info_package = common.MetadataPackage.get_task_info(
             len(s_data), [len(sbuf) for sbuf in raw_buffers], buffer_count
-- 
2.43.0


From cb9b829ed8583fd19de40fc0baf1507f36d625bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:15 +0000
Subject: [PATCH 14/29] fix: report overflow of the shared object store to the
 process that stores

The monitor stopped with MemoryError and the whole program hung. Now the
requester gets the exception, the partially occupied memory is released and
the worker falls back to sending the data directly when it replies to
a request.
---
 unidist/core/backends/mpi/core/communication.py   | 10 +++++++++-
 .../core/backends/mpi/core/controller/common.py   | 10 +++++++++-
 unidist/core/backends/mpi/core/monitor/loop.py    | 15 +++++++++------
 .../mpi/core/monitor/shared_memory_manager.py     | 15 +++++++++++----
 4 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/unidist/core/backends/mpi/core/communication.py b/unidist/core/backends/mpi/core/communication.py
index d0152a6..a8056c0 100755
--- a/unidist/core/backends/mpi/core/communication.py
+++ b/unidist/core/backends/mpi/core/communication.py
@@ -1071,6 +1071,11 @@ def send_reserve_operation(comm, data_id, data_size):
     -------
     dict
         Reservation info about the allocated range in shared memory.
+
+    Raises
+    ------
+    MemoryError
+        If there is not enough shared memory.
     """
     mpi_state = MPIState.get_instance()
     operation_type = common.Operation.RESERVE_SHARED_MEMORY
@@ -1087,4 +1092,7 @@ def send_reserve_operation(comm, data_id, data_size):
         operation_data,
         mpi_state.get_monitor_by_worker_rank(),
     )
-    return mpi_recv_object(comm, mpi_state.get_monitor_by_worker_rank())
+    response = mpi_recv_object(comm, mpi_state.get_monitor_by_worker_rank())
+    if isinstance(response, MemoryError):
+        raise response
+    return response
diff --git a/unidist/core/backends/mpi/core/controller/common.py b/unidist/core/backends/mpi/core/controller/common.py
index b937b6a..45fd7b9 100644
--- a/unidist/core/backends/mpi/core/controller/common.py
+++ b/unidist/core/backends/mpi/core/controller/common.py
@@ -397,10 +397,18 @@ def push_data(dest_rank, value, is_blocking_op=False):
         elif local_store.contains(data_id):
             data = local_store.get(data_id)
             serialized_data = serialize_complex_data(data)
+            is_shared = False
             if shared_store.is_allocated() and shared_store.should_be_shared(
                 serialized_data
             ):
-                shared_store.put(data_id, serialized_data)
+                try:
+                    shared_store.put(data_id, serialized_data)
+                    is_shared = True
+                except MemoryError:
+                    logger.debug(
+                        "Not enough shared memory for {} id".format(data_id._id)
+                    )
+            if is_shared:
                 _push_shared_data(dest_rank, data_id, is_blocking_op)
             else:
                 local_store.cache_serialized_data(data_id, serialized_data)
diff --git a/unidist/core/backends/mpi/core/monitor/loop.py b/unidist/core/backends/mpi/core/monitor/loop.py
index cc8c75e..8ea381b 100755
--- a/unidist/core/backends/mpi/core/monitor/loop.py
+++ b/unidist/core/backends/mpi/core/monitor/loop.py
@@ -231,15 +231,18 @@ def monitor_loop():
         elif operation_type == common.Operation.RESERVE_SHARED_MEMORY:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
             reservation_info = shm_manager.get(request["id"])
-            if reservation_info is None:
-                reservation_info = shm_manager.put(request["id"], request["size"])
-                is_first_request = True
-            else:
-                is_first_request = False
+            is_first_request = reservation_info is None
+            try:
+                if is_first_request:
+                    reservation_info = shm_manager.put(request["id"], request["size"])
+                response = {**reservation_info, "is_first_request": is_first_request}
+            except MemoryError as e:
+                # The exception should be raised in the requester
+                response = e
 
             communication.mpi_send_object(
                 mpi_state.global_comm,
-                data={**reservation_info, "is_first_request": is_first_request},
+                data=response,
                 dest_rank=source_rank,
             )
         elif operation_type == common.Operation.REQUEST_SHARED_DATA:
diff --git a/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py b/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py
index 17d0063..c070af4 100644
--- a/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py
+++ b/unidist/core/backends/mpi/core/monitor/shared_memory_manager.py
@@ -175,10 +175,17 @@ class SharedMemoryManager:
             )
         first_index, last_index = self.free_memory.occupy(memory_len)
         service_index, _ = self.free_service_indexes.occupy(SharedObjectStore.INFO_SIZE)
-        if first_index is None:
-            raise MemoryError("Overflow memory")
-        if service_index is None:
-            raise MemoryError("Overflow service memory")
+        if first_index is None or service_index is None:
+            # Release what has been occupied to not lose it
+            if first_index is not None:
+                self.free_memory.release(first_index, last_index)
+            if service_index is not None:
+                self.free_service_indexes.release(
+                    service_index, service_index + SharedObjectStore.INFO_SIZE
+                )
+            raise MemoryError(
+                "Overflow memory" if first_index is None else "Overflow service memory"
+            )
 
         reservation_info = ImmutableDict(
             {
-- 
2.43.0


From 3a90602ad772b42a02312f48a9a6b7b8855cbe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:16 +0000
Subject: [PATCH 15/29] fix: do not reuse shared memory while objects read from
 it are in use

Arrays are deserialized from the shared memory without copying. The memory
was considered free once the reference had been collected, though the array
itself might still be in use and got overwritten.
---
 .../backends/mpi/core/shared_object_store.py  | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/unidist/core/backends/mpi/core/shared_object_store.py b/unidist/core/backends/mpi/core/shared_object_store.py
index 4aff7c4..dffb1a8 100644
--- a/unidist/core/backends/mpi/core/shared_object_store.py
+++ b/unidist/core/backends/mpi/core/shared_object_store.py
@@ -4,6 +4,7 @@
 
 """`SharedObjectStore` functionality."""
 
+import ctypes
 import os
 import sys
 import time
@@ -279,7 +280,7 @@ class SharedObjectStore:
         splited_id = str(data_id).replace(")", "").split("_")
         return int(splited_id[1]), int(splited_id[3])
 
-    def _increment_ref_number(self, data_id, service_index):
+    def _increment_ref_number(self, data_id, service_index, referrer=None):
         """
         Increment the number of references to indicate to the monitor that this data is being used.
 
@@ -288,10 +289,12 @@ class SharedObjectStore:
         data_id : unidist.core.backends.mpi.core.common.MpiDataID
         service_index : int
             The service buffer index.
+        referrer : object, default: None
+            The object that uses the data. If ``None``, `data_id` is the referrer.
 
         Notes
         -----
-        This function create `weakref.finalizer' with decrement function which will be called after data_id collecting.
+        This function create `weakref.finalizer' with decrement function which will be called after referrer collecting.
         """
         if MPI.Is_finalized():
             return
@@ -311,7 +314,10 @@ class SharedObjectStore:
             )
         self.finalizers.append(
             weakref.finalize(
-                data_id, self._decrement_ref_number, str(data_id), service_index
+                data_id if referrer is None else referrer,
+                self._decrement_ref_number,
+                str(data_id),
+                service_index,
             )
         )
 
@@ -452,11 +458,13 @@ class SharedObjectStore:
         raw_buffers = []
         for raw_buffer_len in buffer_lens:
             raw_last_index = prev_last_index + raw_buffer_len
-            raw_buffers.append(
+            # The deserialized objects use the shared memory directly and may outlive the data ID,
+            # so every buffer they refer to is a referrer of the shared data on its own.
+            raw_buffer = (ctypes.c_byte * raw_buffer_len).from_buffer(
                 self.shared_buffer[prev_last_index:raw_last_index]
-                .cast("b")
-                .toreadonly()
             )
+            self._increment_ref_number(data_id, service_index, raw_buffer)
+            raw_buffers.append(memoryview(raw_buffer).toreadonly())
             prev_last_index = raw_last_index
 
         data = deserialize_complex_data(s_data, raw_buffers, buffer_count)
-- 
2.43.0


From 60616d44307bfe9928903040ea9825e31887a16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:35 +0000
Subject: [PATCH 16/29] fix: workers keep receiving and drop async tasks while
 getting ready to shutdown

---
 unidist/core/backends/mpi/core/worker/loop.py | 39 ++++++++++++++-----
 .../backends/mpi/core/worker/task_store.py    | 18 +++++++++
 2 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 03dbb0d..92601d4 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -130,6 +130,23 @@ def process_actor_request(request):
     task_store.check_all_pending_tasks()
 
 
+async def post_ready_to_shutdown():
+    """
+    Finish all async MPI routines and tell ``Monitor`` the worker is ready to shutdown.
+
+    Notes
+    -----
+    The routines are finished apart from the worker loop, which should go on receiving
+    since other workers may be waiting for completion of their sends to this worker.
+    """
+    await async_wrap(AsyncOperations.get_instance().finish)()
+    communication.mpi_send_operation(
+        mpi_state.global_comm,
+        common.Operation.READY_TO_SHUTDOWN,
+        mpi_state.get_monitor_by_worker_rank(communication.MPIRank.ROOT),
+    )
+
+
 # ---------------------------- #
 # Worker event processing loop #
 # ---------------------------- #
@@ -216,13 +233,17 @@ async def worker_loop():
                 )
 
         elif operation_type == common.Operation.PUT_SHARED_DATA:
-            result = pull_data(mpi_state.global_comm, source_rank)
+            if not ready_to_shutdown_posted:
+                result = pull_data(mpi_state.global_comm, source_rank)
 
-            # Clear cached request to another worker, if data_id became available
-            request_store.discard_data_request(result["id"])
+                # Clear cached request to another worker, if data_id became available
+                request_store.discard_data_request(result["id"])
 
-            # Check pending requests. Maybe some data became available.
-            task_store.check_all_pending_tasks()
+                # Check pending requests. Maybe some data became available.
+                task_store.check_all_pending_tasks()
+            else:
+                # Shared memory can not be requested from ``Monitor`` any longer
+                communication.mpi_recv_object(mpi_state.global_comm, source_rank)
 
         elif operation_type == common.Operation.WAIT:
             request = communication.mpi_recv_object(mpi_state.global_comm, source_rank)
@@ -266,14 +287,12 @@ async def worker_loop():
         elif operation_type == common.Operation.CANCEL:
             task_store.clear_pending_tasks()
             task_store.clear_pending_actor_tasks()
+            task_store.cancel_background_tasks()
             early_actor_requests.clear()
             request_store.clear_get_requests()
             request_store.clear_wait_requests()
-            async_operations.finish()
-            communication.mpi_send_operation(
-                mpi_state.global_comm,
-                common.Operation.READY_TO_SHUTDOWN,
-                mpi_state.get_monitor_by_worker_rank(communication.MPIRank.ROOT),
+            task_store.background_tasks.add(
+                asyncio.create_task(post_ready_to_shutdown())
             )
             ready_to_shutdown_posted = True
         elif operation_type == common.Operation.SHUTDOWN and ready_to_shutdown_posted:
diff --git a/unidist/core/backends/mpi/core/worker/task_store.py b/unidist/core/backends/mpi/core/worker/task_store.py
index f252222..bc9e74c 100644
--- a/unidist/core/backends/mpi/core/worker/task_store.py
+++ b/unidist/core/backends/mpi/core/worker/task_store.py
@@ -158,6 +158,21 @@ class TaskStore:
 
         self._pending_actor_tasks_list.clear()
 
+    def cancel_background_tasks(self):
+        """
+        Cancel started async tasks.
+
+        Notes
+        -----
+        The results of the cancelled tasks will not be stored.
+        """
+        w_logger.debug("Cancel background tasks")
+
+        background_tasks = list(self.background_tasks)
+        self.background_tasks.clear()
+        for async_task in background_tasks:
+            async_task.cancel()
+
     def request_worker_data(self, dest_rank, data_id):
         """
         Send GET operation with data request to destination worker.
@@ -354,6 +369,9 @@ class TaskStore:
                     # Execute user task
                     f_to_execute = functools.partial(task, *args, **kwargs)
                     output_values = await f_to_execute()
+                    if asyncio.current_task() not in self.background_tasks:
+                        # The task has been cancelled
+                        return
 
                     w_logger.info(
                         "Task evaluation time: {}".format(time.perf_counter() - start)
-- 
2.43.0


From 72f8199a6741aaa26a166aa00bff1ee19a7e4b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:06 +0000
Subject: [PATCH 17/29] fix: wait of the multiprocessing backend returns the
 references that are ready

References were skipped or popped at wrong positions, waiting was done for the
first reference only and exceptions of failed tasks were raised.
---
 .../core/backends/pymp/core/object_store.py   | 23 ++++++++-----------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/unidist/core/backends/pymp/core/object_store.py b/unidist/core/backends/pymp/core/object_store.py
index 8af83c8..9780de5 100644
--- a/unidist/core/backends/pymp/core/object_store.py
+++ b/unidist/core/backends/pymp/core/object_store.py
@@ -129,19 +129,14 @@ class ObjectStore:
             data_ids = [data_ids]
 
         ready = list()
-        not_ready = list()
-
-        for idx, data_id in enumerate(data_ids[:]):
-            if not isinstance(self.store_delayed[data_id], Delayed):
-                ready.append(data_ids.pop(idx))
-
-            if len(ready) == num_returns:
-                break
-
-        not_ready = data_ids
-
-        while len(ready) != num_returns:
-            self.get(not_ready[0])
-            ready.append(not_ready.pop(0))
+        not_ready = list(data_ids)
+
+        while len(ready) < num_returns and not_ready:
+            for data_id in not_ready[:]:
+                if len(ready) == num_returns:
+                    break
+                if not isinstance(self.store_delayed[data_id], Delayed):
+                    ready.append(data_id)
+                    not_ready.remove(data_id)
 
         return ready, not_ready
-- 
2.43.0


From 88851d8e56166774e67b3f23b3cde3fd929378d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:06 +0000
Subject: [PATCH 18/29] fix: bytes objects are not unpickled by get of the
 multiprocessing backend

---
 .../core/backends/pymp/core/object_store.py   | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/unidist/core/backends/pymp/core/object_store.py b/unidist/core/backends/pymp/core/object_store.py
index 9780de5..4fc36ce 100644
--- a/unidist/core/backends/pymp/core/object_store.py
+++ b/unidist/core/backends/pymp/core/object_store.py
@@ -16,6 +16,20 @@ class Delayed:
     pass
 
 
+class SerializedCallable:
+    """
+    Class-type that holds a serialized callable object in the object storage.
+
+    Parameters
+    ----------
+    data : bytes
+        Serialized callable object.
+    """
+
+    def __init__(self, data):
+        self.data = data
+
+
 class ObjectStore:
     """
     Class that stores objects and provides access to these from different processes.
@@ -66,7 +80,9 @@ class ObjectStore:
         """
         data_id = DataID() if data_id is None else data_id
 
-        self.store_delayed[data_id] = pkl.dumps(data) if callable(data) else data
+        self.store_delayed[data_id] = (
+            SerializedCallable(pkl.dumps(data)) if callable(data) else data
+        )
         return data_id
 
     def get(self, data_ids):
@@ -101,7 +117,11 @@ class ObjectStore:
             if isinstance(value, Exception):
                 raise value
 
-            values[idx] = pkl.loads(value) if isinstance(value, bytes) else value
+            values[idx] = (
+                pkl.loads(value.data)
+                if isinstance(value, SerializedCallable)
+                else value
+            )
 
         return values if is_list else values[0]
 
-- 
2.43.0


From 84c35693561b3365fa7dd238fa258ce1b065f120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:35 +0000
Subject: [PATCH 19/29] fix: worker of the multiprocessing backend survives
 results that can't be stored

---
 .../backends/pymp/core/process_manager.py     | 47 ++++++++++++++-----
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/unidist/core/backends/pymp/core/process_manager.py b/unidist/core/backends/pymp/core/process_manager.py
index 07037af..ea55298 100644
--- a/unidist/core/backends/pymp/core/process_manager.py
+++ b/unidist/core/backends/pymp/core/process_manager.py
@@ -39,25 +39,48 @@ class Worker(Process):
             task = pkl.loads(task)
 
             data_ids = task.data_ids
+            if data_ids is None:
+                data_ids = []
+            elif not isinstance(data_ids, list):
+                data_ids = [data_ids]
+            stored = 0
             try:
                 value = task()
+                values = [value] if len(data_ids) == 1 else value
+                for data_id, val in zip(data_ids, values) if data_ids else ():
+                    self._obj_store.put(val, data_id)
+                    stored += 1
+                if stored < len(data_ids):
+                    raise ValueError(
+                        f"Task returned {stored} objects, {len(data_ids)} are expected."
+                    )
             except Exception as e:
-                if isinstance(data_ids, list) and len(data_ids) > 1:
-                    for i, data_id in enumerate(data_ids):
-                        self._obj_store.store_delayed[data_id] = e
-                else:
-                    self._obj_store.store_delayed[data_ids] = e
-            else:
-                if data_ids is not None:
-                    if isinstance(data_ids, list) and len(data_ids) > 1:
-                        for data_id, val in zip(data_ids, value):
-                            self._obj_store.store_delayed[data_id] = val
-                    else:
-                        self._obj_store.store_delayed[data_ids] = value
+                # objects that have been stored may be already in use
+                for data_id in data_ids[stored:]:
+                    self._store_exception(e, data_id)
             finally:
                 self.task_queue.task_done()
         return
 
+    def _store_exception(self, exception, data_id):
+        """
+        Store `exception` as the result associated with `data_id`.
+
+        Parameters
+        ----------
+        exception : Exception
+            Exception to be stored.
+        data_id : unidist.core.backends.common.data_id.DataID
+            ``DataID`` associated with the result.
+        """
+        try:
+            self._obj_store.store_delayed[data_id] = exception
+        except Exception:
+            # exception object can't be transferred to other processes
+            self._obj_store.store_delayed[data_id] = RuntimeError(
+                f"{type(exception).__name__}: {exception}"
+            )
+
     def add_task(self, task):
         """
         Add `task` to `self.task_queue`.
-- 
2.43.0


From 90353fc6f0091d96704693bbf1c15561d349f272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:08 +0000
Subject: [PATCH 20/29] fix: deleting an actor of the multiprocessing backend
 keeps its submitted calls

---
 unidist/core/backends/pymp/core/actor.py      | 17 ++++++--
 .../backends/pymp/core/process_manager.py     | 41 ++++++++++++++++++-
 2 files changed, 54 insertions(+), 4 deletions(-)

diff --git a/unidist/core/backends/pymp/core/actor.py b/unidist/core/backends/pymp/core/actor.py
index 8a5b75e..98b43ca 100644
--- a/unidist/core/backends/pymp/core/actor.py
+++ b/unidist/core/backends/pymp/core/actor.py
@@ -107,7 +107,9 @@ class Actor:
         manager.start()
 
         self._cls_obj = manager.WrappedClass(*args, **kwargs)
-        self._worker, self._worker_id = ProcessManager.get_instance().grab_worker()
+        process_manager = ProcessManager.get_instance()
+        self._worker, self._worker_id = process_manager.grab_worker()
+        process_manager.hold_actor(self._worker_id, self._cls_obj)
 
     def __getattr__(self, name):
         """
@@ -142,7 +144,16 @@ class Actor:
         """
         Destructor of the actor.
 
-        Free worker, grabbed from the workers pool.
+        Free worker, grabbed from the workers pool. The process holding the state
+        of the actor is kept until the methods submitted earlier are executed.
         """
         if self._worker_id is not None:
-            ProcessManager.get_instance().free_worker(self._worker_id)
+            process_manager = ProcessManager.get_instance()
+            try:
+                data_id = self._obj_store.put(Delayed())
+                self._worker.add_task(pkl.dumps(Task(bool, data_id, self._obj_store)))
+                process_manager.retire_actor(self._worker_id, data_id)
+            except (OSError, EOFError):
+                # the object storage has been stopped at exit of the program
+                pass
+            process_manager.free_worker(self._worker_id)
diff --git a/unidist/core/backends/pymp/core/process_manager.py b/unidist/core/backends/pymp/core/process_manager.py
index ea55298..e6bd474 100644
--- a/unidist/core/backends/pymp/core/process_manager.py
+++ b/unidist/core/backends/pymp/core/process_manager.py
@@ -12,7 +12,7 @@ from multiprocessing import (
 
 from unidist.config import CpuCount
 from unidist.core.backends.common.data_id import DataID
-from unidist.core.backends.pymp.core.object_store import ObjectStore
+from unidist.core.backends.pymp.core.object_store import ObjectStore, Delayed
 
 
 class Worker(Process):
@@ -116,6 +116,8 @@ class ProcessManager:
                 num_workers = CpuCount.get()
             self.workers = [None] * num_workers
             self.grabbed_workers = [None] * num_workers
+            self._held_actors = {}
+            self._retired_actors = []
             self.__class__._worker_id = 0
 
             obj_store = ObjectStore.get_instance()
@@ -182,6 +184,43 @@ class ProcessManager:
         """
         self.grabbed_workers[idx] = False
 
+    def hold_actor(self, idx, cls_obj):
+        """
+        Keep `cls_obj` of an actor, which the worker by index `idx` is grabbed by.
+
+        Parameters
+        ----------
+        idx : int
+            Index of the worker grabbed by the actor.
+        cls_obj : multiprocessing.managers.BaseProxy
+            Proxy of the object holding the state of the actor.
+
+        Notes
+        -----
+        The process holding the state of the actor is stopped as soon as `cls_obj` is
+        collected, whereas methods of a deleted actor can still be in the task queue.
+        """
+        self._held_actors[idx] = cls_obj
+
+    def retire_actor(self, idx, data_id):
+        """
+        Keep the state of a deleted actor until `data_id` is finished.
+
+        Parameters
+        ----------
+        idx : int
+            Index of the worker grabbed by the actor.
+        data_id : unidist.core.backends.common.data_id.DataID
+            ``DataID`` of the last task submitted to the worker of the actor.
+        """
+        self._retired_actors.append((self._held_actors.pop(idx), data_id))
+        store_delayed = ObjectStore.get_instance().store_delayed
+        self._retired_actors = [
+            (obj, id_)
+            for obj, id_ in self._retired_actors
+            if isinstance(store_delayed[id_], Delayed)
+        ]
+
     def submit(self, task):
         """
         Add `task` to task queue of one of workers using round-robin.
-- 
2.43.0


From e8e0cb5a2753613969a839a64b3803091db947dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:05 +0000
Subject: [PATCH 21/29] fix: tasks waiting for other tasks do not keep the job
 from shutting down

A worker executing a task that waits for results of nested tasks never got
a response once the worker it waits for had been cancelled.
---
 .../core/backends/mpi/core/controller/api.py  |  8 ++--
 unidist/core/backends/mpi/core/worker/loop.py |  2 +
 .../backends/mpi/core/worker/request_store.py | 41 ++++++++++++++++++-
 3 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index 164d81a..86d5d88 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -318,13 +318,14 @@ def shutdown():
         mpi_state = communication.MPIState.get_instance()
         # Send shutdown commands to all ranks
         for rank_id in mpi_state.workers:
-            # We use a blocking send here because we have to wait for
-            # completion of the communication, which is necessary for the pipeline to continue.
-            communication.mpi_send_operation(
+            # We use a non-blocking send here because a worker may not receive the command
+            # until other workers respond to the task it is executing.
+            handler = communication.mpi_isend_operation(
                 mpi_state.global_comm,
                 common.Operation.CANCEL,
                 rank_id,
             )
+            async_operations.extend([(handler, None)])
             logger.debug("Shutdown rank {}".format(rank_id))
         # Make sure that monitor has sent the shutdown signal to all workers.
         op_type = communication.mpi_recv_object(
@@ -333,6 +334,7 @@ def shutdown():
         )
         if op_type != common.Operation.SHUTDOWN:
             raise ValueError(f"Got wrong operation type {op_type}.")
+        async_operations.finish()
         SharedObjectStore.get_instance().finalize()
         if not MPI.Is_finalized():
             MPI.Finalize()
diff --git a/unidist/core/backends/mpi/core/worker/loop.py b/unidist/core/backends/mpi/core/worker/loop.py
index 92601d4..c29b627 100644
--- a/unidist/core/backends/mpi/core/worker/loop.py
+++ b/unidist/core/backends/mpi/core/worker/loop.py
@@ -205,6 +205,8 @@ async def worker_loop():
                 request_store.process_get_request(
                     request["source"], request["id"], request["is_blocking_op"]
                 )
+            elif request is not None and request["is_blocking_op"]:
+                request_store.refuse_get_request(request["source"], request["id"])
 
         elif operation_type == common.Operation.PUT_DATA:
             request = pull_data(mpi_state.global_comm, source_rank)
diff --git a/unidist/core/backends/mpi/core/worker/request_store.py b/unidist/core/backends/mpi/core/worker/request_store.py
index 36bd5ba..3a96f8e 100644
--- a/unidist/core/backends/mpi/core/worker/request_store.py
+++ b/unidist/core/backends/mpi/core/worker/request_store.py
@@ -8,6 +8,7 @@ import unidist.core.backends.mpi.core.common as common
 import unidist.core.backends.mpi.core.communication as communication
 from unidist.core.backends.mpi.core.controller.common import push_data
 from unidist.core.backends.mpi.core.object_store import ObjectStore
+from unidist.core.backends.mpi.core.serialization import serialize_complex_data
 
 
 mpi_state = communication.MPIState.get_instance()
@@ -123,10 +124,48 @@ class RequestStore:
         self._data_requests.discard(data_id)
 
     def clear_get_requests(self):
-        """Clear blocking and non-blocking get requests."""
+        """
+        Clear blocking and non-blocking get requests.
+
+        Notes
+        -----
+        Blocking get requests of other workers are refused.
+        """
+        for data_id, ranks in self._blocking_get_requests.items():
+            for rank in ranks:
+                self.refuse_get_request(rank, data_id)
         self._blocking_get_requests.clear()
         self._nonblocking_get_requests.clear()
 
+    def refuse_get_request(self, source_rank, data_id):
+        """
+        Send an exception in response to blocking GET operation request of another worker.
+
+        Parameters
+        ----------
+        source_rank : int
+            Rank number to send the exception to.
+        data_id : unidist.core.backends.mpi.core.common.MpiDataID
+            An ID to data that was requested.
+
+        Notes
+        -----
+        The task the worker is executing would wait for the data forever otherwise,
+        and the worker would never shutdown.
+        """
+        if source_rank == communication.MPIRank.ROOT:
+            return
+        operation_data = serialize_complex_data(
+            RuntimeError(f"{data_id} can't be retrieved because of shutdown")
+        )
+        operation_data["id"] = data_id
+        communication.send_complex_data(
+            communication.MPIState.get_instance().global_comm,
+            operation_data,
+            source_rank,
+            is_serialized=True,
+        )
+
     def clear_wait_requests(self):
         """Clear blocking wait requests requests."""
         self._blocking_wait_requests.clear()
-- 
2.43.0


From f26cf1266d107a967f04b1eb47c68f85ce3951ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:26 +0000
Subject: [PATCH 22/29] fix: wait for the shutdown signal of the monitor of the
 root host

The monitor that sends the signal is not necessarily rank 1 if processes
of several hosts are ranked in a round-robin fashion.
---
 unidist/core/backends/mpi/core/controller/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index 86d5d88..b41d5f1 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -330,7 +330,7 @@ def shutdown():
         # Make sure that monitor has sent the shutdown signal to all workers.
         op_type = communication.mpi_recv_object(
             mpi_state.global_comm,
-            communication.MPIRank.MONITOR,
+            mpi_state.get_monitor_by_worker_rank(communication.MPIRank.ROOT),
         )
         if op_type != common.Operation.SHUTDOWN:
             raise ValueError(f"Got wrong operation type {op_type}.")
-- 
2.43.0


From b13179f0c38b093948944626f59c1ec43e7169d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:36 +0000
Subject: [PATCH 23/29] fix: all monitors process cleanup requests in the same
 order

Cleanup of the shared memory is a collective operation of the monitors of all hosts
but requests of several processes could come to the monitors in different orders,
or come to a part of the monitors only when the job is shutting down.
---
 .../mpi/core/controller/garbage_collector.py  |  4 +++-
 .../core/backends/mpi/core/monitor/loop.py    | 19 +++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/controller/garbage_collector.py b/unidist/core/backends/mpi/core/controller/garbage_collector.py
index 58b015b..75c76bd 100644
--- a/unidist/core/backends/mpi/core/controller/garbage_collector.py
+++ b/unidist/core/backends/mpi/core/controller/garbage_collector.py
@@ -58,7 +58,9 @@ class GarbageCollector:
         # Cache serialized list of data IDs
         s_cleanup_list = SimpleDataSerializer().serialize_pickle(cleanup_list)
         async_operations = AsyncOperations.get_instance()
-        for rank_id in mpi_state.workers + mpi_state.monitor_processes:
+        # The monitor of the root host passes the request on to other monitors
+        root_monitor = mpi_state.get_monitor_by_worker_rank(communication.MPIRank.ROOT)
+        for rank_id in mpi_state.workers + [root_monitor]:
             if rank_id != mpi_state.global_rank:
                 h_list = communication.isend_serialized_operation(
                     mpi_state.global_comm,
diff --git a/unidist/core/backends/mpi/core/monitor/loop.py b/unidist/core/backends/mpi/core/monitor/loop.py
index 8ea381b..0e95a59 100755
--- a/unidist/core/backends/mpi/core/monitor/loop.py
+++ b/unidist/core/backends/mpi/core/monitor/loop.py
@@ -15,9 +15,11 @@ except ImportError:
 
 import unidist.core.backends.mpi.core.common as common
 import unidist.core.backends.mpi.core.communication as communication
+from unidist.core.backends.mpi.core.async_operations import AsyncOperations
 from unidist.core.backends.mpi.core.monitor.shared_memory_manager import (
     SharedMemoryManager,
 )
+from unidist.core.backends.mpi.core.serialization import SimpleDataSerializer
 from unidist.core.backends.mpi.core.shared_object_store import SharedObjectStore
 
 # TODO: Find a way to move this after all imports
@@ -186,6 +188,8 @@ def monitor_loop():
     data_id_tracker = DataIDTracker.get_instance()
     shared_store = SharedObjectStore.get_instance()
     shm_manager = SharedMemoryManager()
+    async_operations = AsyncOperations.get_instance()
+    root_monitor = mpi_state.get_monitor_by_worker_rank(communication.MPIRank.ROOT)
 
     # Barrier to check if monitor process is ready to start the communication loop
     mpi_state.global_comm.Barrier()
@@ -268,6 +272,21 @@ def monitor_loop():
             cleanup_list = communication.recv_serialized_data(
                 mpi_state.global_comm, source_rank
             )
+            if mpi_state.global_rank == root_monitor:
+                # Several processes can request cleanup at the same time.
+                # All monitors should process the requests in the same order
+                # because the cleanup is a collective operation.
+                s_cleanup_list = SimpleDataSerializer().serialize_pickle(cleanup_list)
+                for rank_id in mpi_state.monitor_processes:
+                    if rank_id != root_monitor:
+                        h_list = communication.isend_serialized_operation(
+                            mpi_state.global_comm,
+                            common.Operation.CLEANUP,
+                            s_cleanup_list,
+                            rank_id,
+                        )
+                        async_operations.extend(h_list)
+                async_operations.finish()
             cleanup_list = [common.MpiDataID(*tpl) for tpl in cleanup_list]
             shm_manager.clear(cleanup_list)
         elif operation_type == common.Operation.READY_TO_SHUTDOWN:
-- 
2.43.0


From 5237fcfc45dff25f67264cdf7dd4a494f543030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:58 +0000
Subject: [PATCH 24/29] fix: environment variables of workers can have any
 values

Quotes and backslashes in values broke the start of spawned processes
or changed the values.
---
 unidist/core/backends/mpi/core/controller/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unidist/core/backends/mpi/core/controller/api.py b/unidist/core/backends/mpi/core/controller/api.py
index b41d5f1..c14c1d4 100644
--- a/unidist/core/backends/mpi/core/controller/api.py
+++ b/unidist/core/backends/mpi/core/controller/api.py
@@ -188,7 +188,7 @@ def init():
                 if option == MpiRuntimeEnv.env_vars:
                     for env_var_name, env_var_value in value.items():
                         env_vars += [
-                            f"os.environ['{env_var_name}'] = '{env_var_value}'"
+                            f"os.environ[{env_var_name!r}] = {str(env_var_value)!r}"
                         ]
             py_str += env_vars
         py_str += ["unidist.init()"]
-- 
2.43.0


From 242dcffb2d14d751c857a407f71104f5c76796f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:24 +0000
Subject: [PATCH 25/29] fix: put any object as a whole on Dask

Client.scatter treats lists, tuples, sets and dicts as collections of
objects: put of a tuple, set or dict returned an object that get could not
handle, and the keys of a dict were used as global Dask keys.
---
 unidist/core/backends/dask/backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/dask/backend.py b/unidist/core/backends/dask/backend.py
index 0685fa2..68fbce6 100644
--- a/unidist/core/backends/dask/backend.py
+++ b/unidist/core/backends/dask/backend.py
@@ -95,7 +95,9 @@ class DaskBackend(Backend):
         distributed.client.Future
             Dask Future matching to data.
         """
-        return get_client().scatter(data, hash=False)
+        # ``scatter`` spreads the elements of a collection over separate futures,
+        # so `data` is wrapped in a list to be stored as a whole.
+        return get_client().scatter([data], hash=False)[0]
 
     @staticmethod
     def wait(futures, num_returns=1):
-- 
2.43.0


From 54eb2f053f615acc12b1acd5a3a3cdf2b756c86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:47 +0000
Subject: [PATCH 26/29] fix: complete every call of a Dask actor

A call was made by one task and its result was taken by another one. When
the scheduler placed the latter on another worker, the pending actor future
had to be pickled, which is impossible, and the call never completed. Calls
whose results were dropped, or whose actor was dropped right after them,
were not executed at all.
---
 unidist/core/backends/dask/actor.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/unidist/core/backends/dask/actor.py b/unidist/core/backends/dask/actor.py
index 73d87c7..5e3851b 100644
--- a/unidist/core/backends/dask/actor.py
+++ b/unidist/core/backends/dask/actor.py
@@ -4,7 +4,7 @@
 
 """Actor specific functionality using Dask backend."""
 
-from distributed.client import get_client
+from distributed.client import fire_and_forget, get_client
 
 from unidist.core.base.actor import Actor, ActorMethod
 from unidist.core.base.object_ref import ObjectRef
@@ -17,8 +17,8 @@ class DaskActorMethod(ActorMethod):
 
     Parameters
     ----------
-    cls : distributed.actor.Actor
-        An actor class from which method `method_name` will be called.
+    cls : distributed.client.Future
+        Future of an actor from which method `method_name` will be called.
     method_name : str
         The name of the method to be called.
     """
@@ -67,24 +67,27 @@ class DaskActorMethod(ActorMethod):
         for k, v in kwargs.items():
             unwrapped_kwargs[k] = unwrap_object_refs(v)
 
+        # The task waits for the result of the call since a pending actor future
+        # cannot be sent to the worker a dependent task may be executed on.
         future = client.submit(
             lambda actor_cls, method, *args, **kwargs: getattr(actor_cls, method)(
                 *args, **kwargs
-            ),
+            ).result(),
             self._cls,
             self._method_name,
             *unwrapped_args,
             **unwrapped_kwargs,
             pure=False,
         )
+        # The call has to be made, and the actor has to stay alive until then,
+        # even if the result isn't needed. Otherwise Dask drops both.
+        fire_and_forget(future)
 
         if num_returns == 1:
-            return ObjectRef(client.submit(lambda f: f.result(), future, pure=False))
+            return ObjectRef(future)
         elif num_returns > 1:
             return [
-                ObjectRef(
-                    client.submit(lambda f, i: f.result()[i], future, i, pure=False)
-                )
+                ObjectRef(client.submit(lambda f, i: f[i], future, i, pure=False))
                 for i in range(num_returns)
             ]
         elif num_returns == 0:
@@ -103,7 +106,7 @@ class DaskActor(Actor):
         The number of CPUs to reserve for the lifetime of the actor.
     resources : dict
         Custom resources to reserve for the lifetime of the actor.
-    actor_handle : None or distributed.actor.Actor
+    actor_handle : None or distributed.client.Future
         Used for proper serialization/deserialization via `__reduce__`.
     """
 
@@ -215,7 +218,9 @@ class DaskActor(Actor):
 
         client = get_client()
 
-        self._actor_handle = client.submit(
-            self._cls, *args, **kwargs, actor=True
-        ).result()
+        # The handle is a future so that every call depends on the actor and
+        # keeps it alive until the call is done.
+        self._actor_handle = client.submit(self._cls, *args, **kwargs, actor=True)
+        # Wait until the actor is created.
+        self._actor_handle.result()
         return self
-- 
2.43.0


From ac7b20f7752e1552eec5003c67692efcf63a824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:47 +0000
Subject: [PATCH 27/29] fix: execute Dask tasks without results

Dask cancels a task whose future is dropped, so calls with num_returns=0
were mostly not executed at all.
---
 unidist/core/backends/dask/remote_function.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unidist/core/backends/dask/remote_function.py b/unidist/core/backends/dask/remote_function.py
index 8102948..37d50ec 100644
--- a/unidist/core/backends/dask/remote_function.py
+++ b/unidist/core/backends/dask/remote_function.py
@@ -4,7 +4,7 @@
 
 """An implementation of ``RemoteFunction`` interface using Dask."""
 
-from distributed.client import get_client
+from distributed.client import fire_and_forget, get_client
 
 from unidist.core.base.object_ref import ObjectRef
 from unidist.core.base.remote_function import RemoteFunction
@@ -91,4 +91,6 @@ class DaskRemoteFunction(RemoteFunction):
                 for i in range(num_returns)
             ]
         elif num_returns == 0:
+            # Otherwise Dask cancels the task as soon as `future` is collected.
+            fire_and_forget(future)
             return None
-- 
2.43.0


From e6e915c15e16854c4651b2a4931ca979c99b6925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:04 +0000
Subject: [PATCH 28/29] fix: count the threads of all Dask workers in num_cpus

---
 unidist/core/backends/dask/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unidist/core/backends/dask/backend.py b/unidist/core/backends/dask/backend.py
index 68fbce6..486817f 100644
--- a/unidist/core/backends/dask/backend.py
+++ b/unidist/core/backends/dask/backend.py
@@ -153,7 +153,7 @@ class DaskBackend(Backend):
         -------
         int
         """
-        return len(get_client().ncores())
+        return sum(get_client().ncores().values())
 
     @staticmethod
     def cluster_resources():
-- 
2.43.0


From 4a4a8f54af4ec3f294b96ad0db7e9652201c15b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:29 +0000
Subject: [PATCH 29/29] fix: serialize the data of an operation before the
 operation is sent

---
 .../core/backends/mpi/core/communication.py   | 93 +++++++++++--------
 1 file changed, 56 insertions(+), 37 deletions(-)

diff --git a/unidist/core/backends/mpi/core/communication.py b/unidist/core/backends/mpi/core/communication.py
index a8056c0..dc37d72 100755
--- a/unidist/core/backends/mpi/core/communication.py
+++ b/unidist/core/backends/mpi/core/communication.py
@@ -754,38 +754,27 @@ def _isend_complex_data_impl(comm, s_data, raw_buffers, dest_rank, info_package)
     return handlers
 
 
-def isend_complex_data(comm, data, dest_rank, is_serialized=False):
+def _prepare_complex_data(data, is_serialized):
     """
-    Send the data that consists of different user provided complex types, lambdas and buffers in a non-blocking way.
-
-    Non-blocking asynchronous interface.
+    Prepare the data and the metadata to be sent.
 
     Parameters
     ----------
-    comm : object
-        MPI communicator object.
     data : object
         Data object to send.
-    dest_rank : int
-        Target MPI process to transfer data.
-    is_serialized : bool, default: False
-        `operation_data` is already serialized or not.
+    is_serialized : bool
+        `data` is already serialized or not.
 
     Returns
     -------
-    list
-        A list of pairs, ``MPI_Isend`` handler and associated data to send.
     object
         A serialized msgpack data.
     list
         A list of pickle buffers.
     list
         A list of buffers amount for each object.
-
-    Notes
-    -----
-    The special tags are used for this communication, namely,
-    ``common.MPITag.OBJECT`` and ``common.MPITag.BUFFER``.
+    common.MetadataPackage
+        Required information to deserialize data on a receiver side.
     """
     if is_serialized:
         s_data = data["s_data"]
@@ -807,6 +796,46 @@ def isend_complex_data(comm, data, dest_rank, is_serialized=False):
             len(s_data), [len(sbuf) for sbuf in raw_buffers], buffer_count
         )
 
+    return s_data, raw_buffers, buffer_count, info_package
+
+
+def isend_complex_data(comm, data, dest_rank, is_serialized=False):
+    """
+    Send the data that consists of different user provided complex types, lambdas and buffers in a non-blocking way.
+
+    Non-blocking asynchronous interface.
+
+    Parameters
+    ----------
+    comm : object
+        MPI communicator object.
+    data : object
+        Data object to send.
+    dest_rank : int
+        Target MPI process to transfer data.
+    is_serialized : bool, default: False
+        `operation_data` is already serialized or not.
+
+    Returns
+    -------
+    list
+        A list of pairs, ``MPI_Isend`` handler and associated data to send.
+    object
+        A serialized msgpack data.
+    list
+        A list of pickle buffers.
+    list
+        A list of buffers amount for each object.
+
+    Notes
+    -----
+    The special tags are used for this communication, namely,
+    ``common.MPITag.OBJECT`` and ``common.MPITag.BUFFER``.
+    """
+    s_data, raw_buffers, buffer_count, info_package = _prepare_complex_data(
+        data, is_serialized
+    )
+
     # MPI communication
     handlers = _isend_complex_data_impl(
         comm, s_data, raw_buffers, dest_rank, info_package
@@ -961,32 +990,22 @@ def isend_complex_operation(
     The special tags are used for this communication, namely,
     ``common.MPITag.OPERATION``, ``common.MPITag.OBJECT`` and ``common.MPITag.BUFFER``.
     """
+    # Serialize the data before the operation type is sent, otherwise a failure
+    # of the serialization would leave the receiver waiting for the data
+    s_data, raw_buffers, buffer_count, info_package = _prepare_complex_data(
+        operation_data, is_serialized
+    )
+
     # Send operation type
     handlers = []
     h1 = mpi_isend_operation(comm, operation_type, dest_rank)
     handlers.append((h1, None))
 
     # Send operation data
-    if is_serialized:
-        # Send already serialized data
-        s_data = operation_data["s_data"]
-        raw_buffers = operation_data["raw_buffers"]
-        buffer_count = operation_data["buffer_count"]
-        # pop `data_id` out of the dict because it will be send as part of metadata package
-        data_id = operation_data.pop("id")
-        info_package = common.MetadataPackage.get_local_info(
-            data_id, len(s_data), [len(sbuf) for sbuf in raw_buffers], buffer_count
-        )
-        h2_list = _isend_complex_data_impl(
-            comm, s_data, raw_buffers, dest_rank, info_package
-        )
-        handlers.extend(h2_list)
-    else:
-        # Serialize and send the data
-        h2_list, s_data, raw_buffers, buffer_count = isend_complex_data(
-            comm, operation_data, dest_rank
-        )
-        handlers.extend(h2_list)
+    h2_list = _isend_complex_data_impl(
+        comm, s_data, raw_buffers, dest_rank, info_package
+    )
+    handlers.extend(h2_list)
     return handlers, {
         "s_data": s_data,
         "raw_buffers": raw_buffers,
-- 
2.43.0

