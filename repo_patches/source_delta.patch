From e1567e6bccc40ec888f9b8597991cfd02e85f3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 01/50] fix: backoff reports the last exception even when it is
 falsy

---
 aiomisc/backoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/backoff.py b/aiomisc/backoff.py
index 341aa7c..c17ff95 100644
--- a/aiomisc/backoff.py
+++ b/aiomisc/backoff.py
@@ -136,7 +136,7 @@ def asyncbackoff(
             try:
                 return await asyncio.wait_for(run(), timeout=deadline)
             except Exception:
-                if last_exc:
+                if last_exc is not None:
                     raise last_exc
                 raise
 
-- 
2.43.0


From a8f3d1029fb5dd0c60857cbb78c37a2d588ef980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 02/50] fix: pool must not hand out an instance whose check
 raised

---
 aiomisc/pool.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aiomisc/pool.py b/aiomisc/pool.py
index c09942c..05b7c80 100644
--- a/aiomisc/pool.py
+++ b/aiomisc/pool.py
@@ -152,11 +152,11 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
             result = await self._check_instance(instance)
         except Exception:
             log.exception("Check instance %r failed", instance)
+            result = False
+
+        if not result:
             self.__recycle_instance(instance)
-        else:
-            if not result:
-                self.__recycle_instance(instance)
-                return await self.__acquire()
+            return await self.__acquire()
 
         self._used.add(instance)
         return instance
-- 
2.43.0


From fe23e45424475b029112988aa858363120953f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 03/50] fix: pool gives the slot back when creating an instance
 fails

---
 aiomisc/pool.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aiomisc/pool.py b/aiomisc/pool.py
index 05b7c80..5691d77 100644
--- a/aiomisc/pool.py
+++ b/aiomisc/pool.py
@@ -133,7 +133,12 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
     async def __create_new_instance(self) -> None:
         await self._semaphore.acquire()
 
-        instance: Any = await self._create_instance()
+        try:
+            instance: Any = await self._create_instance()
+        except BaseException:
+            self._semaphore.release()
+            raise
+
         self._len += 1
 
         if self._recycle:
-- 
2.43.0


From 9d0731c4b16b10f819c17aa623019a052b729b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 04/50] fix: pool does not lose an instance when its check is
 cancelled

---
 aiomisc/pool.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aiomisc/pool.py b/aiomisc/pool.py
index 5691d77..b6c40a6 100644
--- a/aiomisc/pool.py
+++ b/aiomisc/pool.py
@@ -153,17 +153,21 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
 
         instance = await self._instances.get()
 
+        self._used.add(instance)
+
         try:
             result = await self._check_instance(instance)
         except Exception:
             log.exception("Check instance %r failed", instance)
             result = False
+        except BaseException:
+            self.__recycle_instance(instance)
+            raise
 
         if not result:
             self.__recycle_instance(instance)
             return await self.__acquire()
 
-        self._used.add(instance)
         return instance
 
     async def __release(self, instance: Any) -> None:
-- 
2.43.0


From b780aa6a69e8b44d764f87efeb94838ce3cb7274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 05/50] fix: pool wakes up a waiting acquirer when a slot
 becomes free

---
 aiomisc/pool.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/aiomisc/pool.py b/aiomisc/pool.py
index b6c40a6..6ab2e15 100644
--- a/aiomisc/pool.py
+++ b/aiomisc/pool.py
@@ -56,6 +56,8 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
         "_tasks",
         "_len",
         "_used",
+        "_waiters",
+        "_wakeup",
     ) + EventLoopMixin.__slots__
 
     _tasks: Set[Any]
@@ -74,6 +76,11 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
         self._semaphore = asyncio.Semaphore(maxsize)
         self._len = 0
 
+        # Number of acquirers which are waiting for an instance and
+        # the mark which tells them that an instance might be created.
+        self._waiters = 0
+        self._wakeup = object()
+
         self._recycle = recycle
 
         self._tasks = set()
@@ -119,9 +126,15 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
     def __len__(self) -> int:
         return self._len
 
+    def __free_slot(self) -> None:
+        self._semaphore.release()
+
+        if self._waiters > self._instances.qsize():
+            self._instances.put_nowait(self._wakeup)
+
     def __recycle_instance(self, instance: Any) -> None:
         self._len -= 1
-        self._semaphore.release()
+        self.__free_slot()
         if instance in self._recycle_times:
             self._recycle_times.pop(instance)
 
@@ -136,7 +149,7 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
         try:
             instance: Any = await self._create_instance()
         except BaseException:
-            self._semaphore.release()
+            self.__free_slot()
             raise
 
         self._len += 1
@@ -151,7 +164,14 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
         if not self._semaphore.locked():
             await self.__create_new_instance()
 
-        instance = await self._instances.get()
+        self._waiters += 1
+        try:
+            instance = await self._instances.get()
+        finally:
+            self._waiters -= 1
+
+        if instance is self._wakeup:
+            return await self.__acquire()
 
         self._used.add(instance)
 
@@ -188,10 +208,13 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
 
         while self._instances.qsize():
             try:
-                instances.append(self._instances.get_nowait())
+                instance = self._instances.get_nowait()
             except asyncio.QueueEmpty:
                 break
 
+            if instance is not self._wakeup:
+                instances.append(instance)
+
         async def log_exception(coro: Awaitable[Any]) -> None:
             try:
                 await coro
-- 
2.43.0


From f46ddeccdbffa0f7e997c4fffc4fb505ec9bd025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 06/50] fix: pool close destroys instances which wait for
 recycling

---
 aiomisc/pool.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aiomisc/pool.py b/aiomisc/pool.py
index 6ab2e15..e3d12bc 100644
--- a/aiomisc/pool.py
+++ b/aiomisc/pool.py
@@ -215,6 +215,10 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
             if instance is not self._wakeup:
                 instances.append(instance)
 
+        while self._recycle_bin.qsize():
+            instances.append(self._recycle_bin.get_nowait())
+            self._recycle_bin.task_done()
+
         async def log_exception(coro: Awaitable[Any]) -> None:
             try:
                 await coro
@@ -223,6 +227,8 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
 
         await asyncio.wait_for(
             asyncio.gather(
+                # an instance which is being destroyed by the recycler
+                self._recycle_bin.join(),
                 *[
                     self.__create_task(
                         log_exception(self._destroy_instance(instance)),
-- 
2.43.0


From 19c4ef102870a8fac2ae00f8f3d59131f1faeeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 07/50] fix: stopped periodic callback must not forget its new
 run after a restart

---
 aiomisc/periodic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aiomisc/periodic.py b/aiomisc/periodic.py
index 78ad86d..193b665 100644
--- a/aiomisc/periodic.py
+++ b/aiomisc/periodic.py
@@ -58,8 +58,10 @@ class PeriodicCallback(EventLoopMixin):
             suppress_exceptions=suppress_exceptions,
         )
 
-        def clean_task(_: Any) -> None:
-            self._task = None
+        def clean_task(task: asyncio.Future) -> None:
+            # the callback might have been started again meanwhile
+            if self._task is task:
+                self._task = None
 
         self._task.add_done_callback(clean_task)
 
-- 
2.43.0


From b4552d093accbfdbd298531c8d691c5311f6370f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:05 +0000
Subject: [PATCH 08/50] fix: cancelling one reader of a context key must not
 cancel the other readers

---
 aiomisc/context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiomisc/context.py b/aiomisc/context.py
index cb8de04..cf73e1f 100644
--- a/aiomisc/context.py
+++ b/aiomisc/context.py
@@ -33,7 +33,9 @@ class Context:
 
     def __getitem__(self, item: Any) -> Any:
         self._statistic.get += 1
-        return self._storage[item]
+        # the future is shared by all readers, cancelling one of them
+        # must not affect the others
+        return asyncio.shield(self._storage[item])
 
     def __setitem__(self, item: Any, value: Any) -> None:
         self._statistic.set += 1
-- 
2.43.0


From c49db02c79c24ed83d818cd98b21d011eb2ae49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:20 +0000
Subject: [PATCH 09/50] fix: services are not stopped twice when interrupts
 race with each other or with the exit

---
 aiomisc/entrypoint.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index d8b5cda..855ad14 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -178,6 +178,8 @@ class Entrypoint:
         self._tasks: MutableSet[asyncio.Task] = WeakSet()
         self._thread_pool: Optional[ExecutorType] = None
         self._closing: Optional[asyncio.Event] = None
+        self._stopping = False
+        self._stop_lock: Optional[asyncio.Lock] = None
 
         if catch_signals is None and is_main_thread():
             # Apply default catch signals only if the entrypoint is creating
@@ -302,6 +304,17 @@ class Entrypoint:
             return loop.shutdown_default_executor()
 
     async def _stop(self, exc: Exception) -> None:
+        self._stopping = True
+
+        if self._stop_lock is None:
+            self._stop_lock = asyncio.Lock()
+
+        # leaving the entrypoint may race with an interrupt,
+        # the services must not be stopped twice
+        async with self._stop_lock:
+            await self._shutdown(exc)
+
+    async def _shutdown(self, exc: Exception) -> None:
         loop = self.loop
 
         for handler in self._signal_handlers:
@@ -412,6 +425,11 @@ class Entrypoint:
         self.loop.call_soon_threadsafe(self._on_interrupt, loop)
 
     def _on_interrupt(self, loop: asyncio.AbstractEventLoop) -> None:
+        if self._stopping:
+            return
+
+        self._stopping = True
+
         log.warning("Interrupt signal received, shutting down...")
         task = loop.create_task(
             self._stop(RuntimeError("Interrupt signal received")),
-- 
2.43.0


From cdf78a418806465b2b79a744eeb3dea82f24173d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:20 +0000
Subject: [PATCH 10/50] fix: signal receivers may change the signal while it is
 being called

---
 aiomisc/signal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiomisc/signal.py b/aiomisc/signal.py
index 24d3106..ec60c77 100644
--- a/aiomisc/signal.py
+++ b/aiomisc/signal.py
@@ -36,7 +36,8 @@ class Signal:
         self._receivers.discard(receiver)  # type: ignore
 
     async def call(self, *args: Any, **kwargs: Any) -> None:
-        for receiver in self._receivers:
+        # receivers may connect or disconnect while the call is in progress
+        for receiver in tuple(self._receivers):
             await receiver(*args, **kwargs)
 
     def copy(self) -> "Signal":
-- 
2.43.0


From 4415675f623e539ce934bc4e205d44e0083a7ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 11/50] fix: a call in a thread which raised a falsy exception
 did not fail

---
 aiomisc/thread_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index 26919f0..099bbc4 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -73,7 +73,7 @@ def _set_workitem_result(
     if future.done():
         return
 
-    if exception:
+    if exception is not None:
         future.set_exception(exception)
     else:
         future.set_result(result)
-- 
2.43.0


From 4fd36bfdee5a375c4c2f2682801f7267b7de0533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 12/50] fix: thread pool shutdown settles pending calls in
 their event loop's thread

---
 aiomisc/thread_pool.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index 099bbc4..ea8d565 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -6,6 +6,7 @@ import threading
 import time
 import warnings
 from concurrent.futures import ThreadPoolExecutor as ThreadPoolExecutorBase
+from contextlib import suppress
 from dataclasses import dataclass, field
 from functools import partial, wraps
 from multiprocessing import cpu_count
@@ -271,11 +272,9 @@ class ThreadPoolExecutor(ThreadPoolExecutorBase):
 
             self.__tasks.close()
 
-            while futures:
-                future = futures.pop()
-                if future.done():
-                    continue
-                future.set_exception(ThreadPoolException("Pool closed"))
+            # futures may be settled only in the thread of their event loop
+            for future in tuple(futures):
+                self._reject(future, ThreadPoolException("Pool closed"))
 
             if not wait:
                 return None
@@ -291,6 +290,18 @@ class ThreadPoolExecutor(ThreadPoolExecutorBase):
                     )
                     return None
 
+    @staticmethod
+    def _reject(future: asyncio.Future, exception: Exception) -> None:
+        loop = future.get_loop()
+
+        if loop is asyncio._get_running_loop():
+            return _set_workitem_result(future, None, exception)
+
+        with suppress(RuntimeError):    # the loop is closed
+            loop.call_soon_threadsafe(
+                _set_workitem_result, future, None, exception,
+            )
+
     def _adjust_thread_count(self) -> None:
         pool_size = len(self.__pool)
         new_threads_count = (
-- 
2.43.0


From 77b89d0daef6aac255cb030862aae0eced4bf6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 13/50] fix: threaded iterator must not lose what was put just
 before it ended

---
 aiomisc/iterator_wrapper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index e39e9ae..32cbb7f 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -122,11 +122,14 @@ class FromThreadChannel:
 
     def __await__(self) -> Any:
         while True:
+            # Must be read before the queue, otherwise an item which was put
+            # just before closing might be lost.
+            is_closed = self.is_closed
             try:
                 res = self.queue.get()
                 return res
             except QueueEmpty:
-                if self.is_closed:
+                if is_closed:
                     raise ChannelClosed
 
                 sleep_time = self._compute_sleep_time()
-- 
2.43.0


From d9c5a49320e73d69fb284032be9eca5e657e9c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 14/50] fix: closing a threaded iterator unblocks its producer

---
 aiomisc/iterator_wrapper.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index 32cbb7f..7d39bee 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -98,6 +98,13 @@ class FromThreadChannel:
     ) -> None:
         self.close()
 
+    def clear(self) -> None:
+        try:
+            while True:
+                self.queue.get()
+        except QueueEmpty:
+            return
+
     def put(self, item: Any) -> None:
         if self.is_closed:
             raise ChannelClosed
@@ -216,6 +223,8 @@ class IteratorWrapper(AsyncIterator, EventLoopMixin):
 
     def close(self) -> Awaitable[None]:
         self.__channel.close()
+        # The producer might be waiting for a free slot in the queue
+        self.__channel.clear()
         return asyncio.ensure_future(self.wait_closed())
 
     async def wait_closed(self) -> None:
-- 
2.43.0


From 199c53cf14f58757bc23b349569681b2ce3cfb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 15/50] fix: closing of a not started threaded iterator must
 not hang

---
 aiomisc/iterator_wrapper.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index 7d39bee..4ba8af4 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -157,7 +157,6 @@ class IteratorWrapperStatistic(Statistic):
 class IteratorWrapper(AsyncIterator, EventLoopMixin):
     __slots__ = (
         "__channel",
-        "__close_event",
         "__gen_func",
         "__gen_task",
         "_statistic",
@@ -174,7 +173,6 @@ class IteratorWrapper(AsyncIterator, EventLoopMixin):
         self._loop = loop
         self.executor = executor
 
-        self.__close_event = asyncio.Event()
         self.__channel: FromThreadChannel = FromThreadChannel(maxsize=max_size)
         self.__gen_task: Optional[asyncio.Future] = None
         self.__gen_func: Callable = gen_func
@@ -219,7 +217,6 @@ class IteratorWrapper(AsyncIterator, EventLoopMixin):
                 self.__channel.put((e, True))
             finally:
                 self._statistic.started -= 1
-                self.loop.call_soon_threadsafe(self.__close_event.set)
 
     def close(self) -> Awaitable[None]:
         self.__channel.close()
@@ -228,9 +225,13 @@ class IteratorWrapper(AsyncIterator, EventLoopMixin):
         return asyncio.ensure_future(self.wait_closed())
 
     async def wait_closed(self) -> None:
-        await self.__close_event.wait()
-        if self.__gen_task:
-            await asyncio.gather(self.__gen_task, return_exceptions=True)
+        if self.__gen_task is None:
+            # The iteration was never started, so there is nothing to wait
+            return
+        # Cancelling of the waiter must not cancel the waiting of the others
+        await asyncio.gather(
+            asyncio.shield(self.__gen_task), return_exceptions=True,
+        )
 
     def _run(self) -> Any:
         return self.loop.run_in_executor(
-- 
2.43.0


From 8bd5965cf58c991bebcf3aa161437e6f6e388ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 16/50] fix: leaving the context of a threaded iterator waits
 for its producer

---
 aiomisc/iterator_wrapper.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index 4ba8af4..2a136ad 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -270,9 +270,6 @@ class IteratorWrapper(AsyncIterator, EventLoopMixin):
         self, exc_type: Any, exc_val: Any,
         exc_tb: Any,
     ) -> None:
-        if self.closed:
-            return
-
         await self.close()
 
 
-- 
2.43.0


From a71dd10656edf6d46e761f99ca313bca52410126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 17/50] fix: a thread which waits for a cancelled coroutine
 must not hang

---
 aiomisc/thread_pool.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index ea8d565..86b6c69 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -476,9 +476,12 @@ class CoroutineWaiter:
         self.__exception: Optional[BaseException] = None
 
     def _on_result(self, task: asyncio.Future) -> None:
-        self.__exception = task.exception()
-        if self.__exception is None:
-            self.__result = task.result()
+        if task.cancelled():
+            self.__exception = asyncio.CancelledError()
+        else:
+            self.__exception = task.exception()
+            if self.__exception is None:
+                self.__result = task.result()
         self.__event.set()
 
     def _awaiter(self) -> None:
-- 
2.43.0


From c4c37d141bd19b4ea80de57ccb42e2dd68488503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 18/50] fix: aggregator must not reuse a batch all calls of
 which were cancelled

---
 aiomisc/aggregate.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aiomisc/aggregate.py b/aiomisc/aggregate.py
index 19a2372..3afcae1 100644
--- a/aiomisc/aggregate.py
+++ b/aiomisc/aggregate.py
@@ -143,6 +143,13 @@ class AggregatorAsync(EventLoopMixin, Generic[V, R]):
                 future.set_exception(exc)
 
     async def aggregate(self, arg: V) -> R:
+        if (
+            self._first_call_at is not None and
+            self._first_call_at + self._leeway < self.loop.time()
+        ):
+            # All calls of this batch were cancelled and nobody closed it
+            self._clear()
+
         if self._first_call_at is None:
             self._first_call_at = self.loop.time()
         first_call_at = self._first_call_at
-- 
2.43.0


From 24c109bdc79b5dbc4c880c8a1a133654859f0cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 19/50] fix: pool does not destroy an instance twice which is
 released while closing

---
 aiomisc/pool.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/aiomisc/pool.py b/aiomisc/pool.py
index e3d12bc..5b52baf 100644
--- a/aiomisc/pool.py
+++ b/aiomisc/pool.py
@@ -5,7 +5,7 @@ from collections import defaultdict
 from random import random
 from typing import (
     Any, AsyncContextManager, Awaitable, Callable, Coroutine, DefaultDict,
-    Generic, NoReturn, Optional, Set, TypeVar, Union,
+    Generic, List, NoReturn, Optional, Set, TypeVar, Union,
 )
 
 from .compat import EventLoopMixin
@@ -61,7 +61,7 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
     ) + EventLoopMixin.__slots__
 
     _tasks: Set[Any]
-    _used: Set[Any]
+    _used: List[Any]
     _instances: asyncio.Queue
     _recycle_bin: asyncio.Queue
 
@@ -84,7 +84,7 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
         self._recycle = recycle
 
         self._tasks = set()
-        self._used = set()
+        self._used = []
 
         self._create_lock = asyncio.Lock()
         self._recycle_times: DefaultDict[float, Any] = defaultdict(
@@ -132,15 +132,24 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
         if self._waiters > self._instances.qsize():
             self._instances.put_nowait(self._wakeup)
 
+    def __unuse(self, instance: Any) -> bool:
+        for index, item in enumerate(self._used):
+            if item is instance:
+                del self._used[index]
+                return True
+
+        # close() took it over and destroys it
+        return False
+
     def __recycle_instance(self, instance: Any) -> None:
+        if not self.__unuse(instance):
+            return
+
         self._len -= 1
         self.__free_slot()
         if instance in self._recycle_times:
             self._recycle_times.pop(instance)
 
-        if instance in self._used:
-            self._used.discard(instance)
-
         self._recycle_bin.put_nowait(instance)
 
     async def __create_new_instance(self) -> None:
@@ -173,7 +182,7 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
         if instance is self._wakeup:
             return await self.__acquire()
 
-        self._used.add(instance)
+        self._used.append(instance)
 
         try:
             result = await self._check_instance(instance)
@@ -191,13 +200,12 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
         return instance
 
     async def __release(self, instance: Any) -> None:
-        self._used.discard(instance)
-
         if self._recycle and self._recycle_times[instance] < self.loop.time():
             self.__recycle_instance(instance)
             return
 
-        self._instances.put_nowait(instance)
+        if self.__unuse(instance):
+            self._instances.put_nowait(instance)
 
     def acquire(self) -> AsyncContextManager[T]:
         return ContextManager(self.__acquire, self.__release)
-- 
2.43.0


From 60e364f78441e29c5a90c05f342b544ddeeabb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:53 +0000
Subject: [PATCH 20/50] fix: stop of a UDP server cancels the handlers of late
 datagrams

---
 aiomisc/service/udp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aiomisc/service/udp.py b/aiomisc/service/udp.py
index 1fadcb2..5adcfd2 100644
--- a/aiomisc/service/udp.py
+++ b/aiomisc/service/udp.py
@@ -112,3 +112,5 @@ class UDPServer(SimpleServer):
         await super().stop(exc)
         if self._transport:
             self._transport.close()
+            # datagrams which came while the others were being cancelled
+            await super().stop(exc)
-- 
2.43.0


From 7087fb87d09683d3accd6a80089ba83e425f045b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:53 +0000
Subject: [PATCH 21/50] fix: stop of a TCP or TLS server must not wait for its
 clients

Since Python 3.12 Server.wait_closed() waits until the connections of all
clients are closed, which nobody did. Besides, clients which came while
the handlers were being cancelled were not cancelled.
---
 aiomisc/service/base.py | 10 +++++++++-
 aiomisc/service/tcp.py  |  6 ++++++
 aiomisc/service/tls.py  |  8 +++++++-
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/aiomisc/service/base.py b/aiomisc/service/base.py
index f342574..c2532e7 100644
--- a/aiomisc/service/base.py
+++ b/aiomisc/service/base.py
@@ -1,7 +1,9 @@
 import asyncio
+import weakref
 from abc import ABC, ABCMeta, abstractmethod
 from typing import (
-    Any, Coroutine, Dict, Generator, Optional, Set, Tuple, TypeVar, Union,
+    Any, Coroutine, Dict, Generator, MutableSet, Optional, Set, Tuple, TypeVar,
+    Union,
 )
 
 from ..context import Context, get_context
@@ -128,6 +130,7 @@ class SimpleServer(TaskStoreBase):
     def __init__(self, **kwargs: Any):
         self.server: Optional[asyncio.AbstractServer] = None
         self.tasks: Set[asyncio.Task] = set()
+        self._writers: MutableSet[asyncio.StreamWriter] = weakref.WeakSet()
         super().__init__(**kwargs)
 
     @abstractmethod
@@ -139,6 +142,11 @@ class SimpleServer(TaskStoreBase):
 
         if self.server:
             self.server.close()
+            # clients which came while the others were being cancelled
+            await super().stop(exc)
+
+        for writer in tuple(self._writers):
+            writer.close()
 
 
 class SimpleClient(TaskStoreBase):
diff --git a/aiomisc/service/tcp.py b/aiomisc/service/tcp.py
index 850c92b..a7e5448 100644
--- a/aiomisc/service/tcp.py
+++ b/aiomisc/service/tcp.py
@@ -59,6 +59,12 @@ class TCPServer(SimpleServer):
         self, reader: asyncio.StreamReader,
         writer: asyncio.StreamWriter,
     ) -> Any:
+        if self.server is not None and not self.server.is_serving():
+            # has been accepted just before the listener was closed
+            writer.close()
+            return None
+
+        self._writers.add(writer)
         return self.create_task(self.__client_handler(reader, writer))
 
     async def start(self) -> None:
diff --git a/aiomisc/service/tls.py b/aiomisc/service/tls.py
index cd1f59c..1a5013a 100644
--- a/aiomisc/service/tls.py
+++ b/aiomisc/service/tls.py
@@ -157,7 +157,13 @@ class TLSServer(SimpleServer):
     def make_client_handler(
         self, reader: asyncio.StreamReader,
         writer: asyncio.StreamWriter,
-    ) -> asyncio.Task:
+    ) -> Optional[asyncio.Task]:
+        if self.server is not None and not self.server.is_serving():
+            # has been accepted just before the listener was closed
+            writer.close()
+            return None
+
+        self._writers.add(writer)
         return self.create_task(self.__client_handler(reader, writer))
 
     @abstractmethod
-- 
2.43.0


From c48e4aa4b86d913e93270115c25e7a51b9d6c04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:02 +0000
Subject: [PATCH 22/50] fix: stopping a TCP client ends it at once, in any
 phase

A robust client slept for reconnect_timeout when it got cancelled, and no
client could be stopped while it was waiting for its next attempt.
---
 aiomisc/service/tcp.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/aiomisc/service/tcp.py b/aiomisc/service/tcp.py
index a7e5448..ec50138 100644
--- a/aiomisc/service/tcp.py
+++ b/aiomisc/service/tcp.py
@@ -151,6 +151,10 @@ class TCPClient(SimpleClient, ABC):
         raise NotImplementedError
 
     async def start(self) -> None:
+        # a task, since stop() cancels tasks, whatever they are waiting for
+        await self.create_task(self._communicate())
+
+    async def _communicate(self) -> None:
         reader, writer = await self.connect()
         self.loop.call_soon(self.start_event.set)
         try:
@@ -165,7 +169,7 @@ class RobustTCPClient(TCPClient, ABC):
     reconnect_timeout: TimeoutType = 5
     connected: asyncio.Event
 
-    async def start(self) -> None:
+    async def _communicate(self) -> None:
         self.connected = asyncio.Event()
 
         while True:
@@ -178,15 +182,14 @@ class RobustTCPClient(TCPClient, ABC):
 
                 await self.create_task(self.handle_connection(reader, writer))
                 self.connected.clear()
-            except asyncio.CancelledError:
-                raise
             except Exception:
                 log.exception(
                     "Error when handle TCP connection, "
                     "reconnecting after %.3f seconds",
                     self.reconnect_timeout,
                 )
-            finally:
-                if not self.connected.is_set():
-                    return
-                await asyncio.sleep(self.reconnect_timeout)
+
+            if not self.connected.is_set():
+                return
+
+            await asyncio.sleep(self.reconnect_timeout)
-- 
2.43.0


From 02c4e1d4773ec64adbd691e414ff2b47455fb958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:29 +0000
Subject: [PATCH 23/50] fix: leaving the context of a file uses the executor of
 the file

---
 aiomisc/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiomisc/io.py b/aiomisc/io.py
index a95f49b..198a5d3 100644
--- a/aiomisc/io.py
+++ b/aiomisc/io.py
@@ -127,8 +127,8 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
         if self.fp is None:
             raise RuntimeError("file is not opened")
 
-        await self.loop.run_in_executor(
-            None, self.fp.__exit__, exc_type, exc_val, exc_tb,
+        await self.__execute_in_thread(
+            self.fp.__exit__, exc_type, exc_val, exc_tb,
         )
 
     def __del__(self) -> None:
-- 
2.43.0


From 22942f53f4845839ef6536a7cfbae5b39682cc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 24/50] fix: do not request SO_REUSEPORT for the worker pool
 unix socket

---
 aiomisc/worker_pool.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index e4280bd..1181f93 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -60,6 +60,8 @@ class WorkerPool:
                 socket.AF_UNIX,
                 socket.SOCK_STREAM,
                 address=path,
+                reuse_addr=False,
+                reuse_port=False,
             )
             self.address = path
             chmod(path, 0o600)
-- 
2.43.0


From 99bf1449ecc64a9ec06de072a95c7c686e02f0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 25/50] fix: read and write whole packets in the worker
 protocol

---
 aiomisc_worker/protocol.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/aiomisc_worker/protocol.py b/aiomisc_worker/protocol.py
index 4721870..9232b8a 100644
--- a/aiomisc_worker/protocol.py
+++ b/aiomisc_worker/protocol.py
@@ -45,10 +45,18 @@ class FileIOProtocol(Protocol):
         self.fd = fd
 
     def _read(self, size: int) -> bytes:
-        return self.fd.read(size)
+        with io.BytesIO() as fp:
+            while fp.tell() < size:
+                chunk = self.fd.read(size - fp.tell())
+                if not chunk:
+                    raise ConnectionError("Unexpected end of file")
+                fp.write(chunk)
+            return fp.getvalue()
 
     def _write(self, data: bytes) -> None:
-        self.fd.write(data)
+        view = memoryview(data)
+        while view:
+            view = view[self.fd.write(view):]
 
 
 class SocketIOProtocol(Protocol):
@@ -67,7 +75,7 @@ class SocketIOProtocol(Protocol):
             return fp.getvalue()
 
     def _write(self, data: bytes) -> None:
-        self.sock.send(data)
+        self.sock.sendall(data)
 
 
 class AsyncProtocol:
@@ -94,5 +102,5 @@ class AsyncProtocol:
         return pickle.loads(payload_bytes)
 
     def close(self) -> None:
-        if not self.writer.can_write_eof():
+        if self.writer.can_write_eof():
             self.writer.write_eof()
-- 
2.43.0


From 627a3ade79ebb181b0dd09a4b164778658a18304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 26/50] fix: worker process survives late cancel signals and
 bad payloads

---
 aiomisc_worker/worker.py | 78 +++++++++++++++++++++++++++++-----------
 1 file changed, 57 insertions(+), 21 deletions(-)

diff --git a/aiomisc_worker/worker.py b/aiomisc_worker/worker.py
index beeb7ea..ec5b88b 100644
--- a/aiomisc_worker/worker.py
+++ b/aiomisc_worker/worker.py
@@ -7,14 +7,37 @@ import signal
 import socket
 import sys
 from types import TracebackType
-from typing import Any, Optional, Type
+from typing import Any, Callable, Optional, Type
 
-from . import SIGNAL, AddressType, PacketTypes
+from . import SIGNAL, AddressType, PacketTypes, T
 from .protocol import ADDRESS_FAMILY, SocketIOProtocol
 
 
+class CancelState:
+    """
+    The pool sends a signal to the worker process when the running call was
+    cancelled. It's delivered at any moment, so it interrupts a user function
+    only. When it comes while the request is still being received,
+    the request will not be executed at all.
+    """
+    executing: bool = False
+    requested: bool = False
+
+
+def call(func: Callable[..., T], args: Any, kwargs: Any) -> T:
+    CancelState.executing = True
+    try:
+        if CancelState.requested:
+            raise asyncio.CancelledError
+        return func(*args, **kwargs)
+    finally:
+        CancelState.executing = False
+
+
 def execute(protocol: SocketIOProtocol) -> None:
     pid = os.getpid()
+    payload: Any
+
     try:
         packet_type, func, args, kwargs = protocol.receive()
         logging.debug(
@@ -22,38 +45,51 @@ def execute(protocol: SocketIOProtocol) -> None:
         )
     except ConnectionError:
         raise
+    except Exception as e:
+        logging.exception("Can not load the request")
+        packet_type, payload = PacketTypes.EXCEPTION, e
+    else:
+        if packet_type != PacketTypes.REQUEST:
+            raise RuntimeError("Unexpected request")
 
-    if packet_type != packet_type.REQUEST:
-        raise RuntimeError("Unexpected request")
-
+        try:
+            payload = call(func, args, kwargs)
+            packet_type = PacketTypes.RESULT
+        except asyncio.CancelledError:
+            logging.exception(
+                "Request cancelled for %r", func, extra={"pid": pid},
+            )
+            packet_type = PacketTypes.CANCELLED
+            payload = asyncio.CancelledError
+        except Exception as e:
+            logging.exception("Exception when processing request")
+            packet_type, payload = PacketTypes.EXCEPTION, e
+
+    CancelState.requested = False
     try:
-        protocol.send((
-            PacketTypes.RESULT,
-            func(*args, **kwargs),
-        ))
-    except asyncio.CancelledError:
-        logging.exception(
-            "Request cancelled for %r", func, extra={"pid": pid},
-        )
-        protocol.send((
-            PacketTypes.CANCELLED,
-            asyncio.CancelledError,
-        ))
-    except (ConnectionError, ConnectionResetError):
+        protocol.send((packet_type, payload))
+    except ConnectionError:
         logging.warning(
             "IPC connection error, worker PID: %d exiting.", pid,
             extra={"pid": pid},
         )
         raise
     except Exception as e:
-        logging.exception("Exception when processing request")
+        # Nothing has been written because the payload is not picklable
+        logging.exception("Can not send the answer")
         protocol.send((
-            PacketTypes.EXCEPTION, e,
+            PacketTypes.EXCEPTION,
+            RuntimeError(
+                f"Can not send {type(payload)!r} "
+                f"from the worker process: {e!r}",
+            ),
         ))
 
 
 def on_cancel_signal(*_: Any) -> None:
-    raise asyncio.CancelledError
+    if CancelState.executing:
+        raise asyncio.CancelledError
+    CancelState.requested = True
 
 
 signal.signal(SIGNAL, on_cancel_signal)
-- 
2.43.0


From 567a5f49dc6a22348b679a644dff5c9a59c42395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 27/50] fix: replace a worker process which was finished by a
 task

---
 aiomisc_worker/forking.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/aiomisc_worker/forking.py b/aiomisc_worker/forking.py
index 5999d40..470a3f5 100644
--- a/aiomisc_worker/forking.py
+++ b/aiomisc_worker/forking.py
@@ -56,7 +56,12 @@ def fork(worker_id: bytes, cookie: bytes, address: AddressType) -> None:
     # In child process
     PROCESSES = {}
     signal.signal(INT_SIGNAL, DEFAULT_SIGNAL_HANDLER)
-    worker(address, cookie, worker_id)
+    try:
+        worker(address, cookie, worker_id)
+    except SystemExit as e:
+        # A task has finished the process, unlike when the pool
+        # was closed, a replacement must be started.
+        raise SystemExit(e.code or 1)
     raise SystemExit(0)
 
 
@@ -107,14 +112,15 @@ def main() -> int:
             pid, status = os.wait()
         except KeyboardInterrupt:
             return exit(0)
+        except ChildProcessError:
+            # All workers have lost the pool
+            return 0
 
         log_func = log.debug if status == 0 else log.warning
         log_func("Worker PID: %d exited with status %d", pid, status)
 
-        if status == 0:
-            continue
         worker_id = PROCESSES.pop(pid, None)
-        if worker_id is None:
+        if status == 0 or worker_id is None:
             continue
         fork(worker_id, cookie, address)
     return 0
-- 
2.43.0


From 46999fd0df7c94078f8779351aff012fccaf087f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 28/50] fix: worker pool never loses calls nor disturbs foreign
 ones

Calls after or blocked during close hang, a cancel signal could hit the
next task of the worker, a dead idle worker takes a task, and a payload
which is not picklable closes the healthy worker forever.
---
 aiomisc/worker_pool.py | 155 ++++++++++++++++++++++++++---------------
 1 file changed, 100 insertions(+), 55 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index 1181f93..5c67e23 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -2,8 +2,10 @@ import asyncio
 import hashlib
 import hmac
 import os
+import signal
 import socket
 import sys
+from contextlib import suppress
 from inspect import Traceback
 from multiprocessing import ProcessError
 from os import chmod, urandom
@@ -130,6 +132,8 @@ class WorkerPool:
         self.__loop: Optional[asyncio.AbstractEventLoop] = None
         self.__futures: Set[asyncio.Future] = set()
         self.__task_store: Set[asyncio.Task] = set()
+        # Futures of the calls which are being executed by the workers
+        self.__executing: Dict[asyncio.Future, int] = {}
         self.__closing = False
         self.__closing_lock = asyncio.Lock()
         self._statistic = WorkerPoolStatistic(name=statistic_name)
@@ -146,8 +150,55 @@ class WorkerPool:
             self.__loop = asyncio.get_running_loop()
         return self.__loop
 
+    def __check_digest(self, worker_id: bytes, digest: bytes) -> bool:
+        expected_digest = hmac.HMAC(
+            self.__cookie,
+            worker_id,
+            digestmod=hashlib.sha256,
+        ).digest()
+
+        if hmac.compare_digest(expected_digest, digest):
+            return True
+
+        log.debug("Bad digest %r expected %r", digest, expected_digest)
+        return False
+
+    @staticmethod
+    def __kill_worker(pid: int, sig: int) -> None:
+        log.debug("Sending %r to worker PID: %d", sig, pid)
+        with suppress(ProcessLookupError):
+            os.kill(pid, sig)
+
+    @staticmethod
+    def __set_result(
+        future: asyncio.Future, packet_type: PacketTypes, payload: Any,
+    ) -> None:
+        if future.done():
+            log.debug("Result future %r already done, skipping", future)
+        elif packet_type == PacketTypes.RESULT:
+            future.set_result(payload)
+        elif packet_type in (PacketTypes.EXCEPTION, PacketTypes.CANCELLED):
+            try:
+                future.set_exception(payload)
+            except TypeError as e:
+                future.set_exception(e)
+        else:
+            future.set_exception(
+                ProcessError(f"Unexpected packet {packet_type!r}"),
+            )
+
     async def __handle_client(
         self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter,
+    ) -> None:
+        try:
+            await self.__handle_worker(reader, writer)
+        except (asyncio.IncompleteReadError, ConnectionError):
+            log.debug("Worker connection has been lost", exc_info=True)
+        finally:
+            writer.close()
+
+    async def __handle_worker(
+        self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter,
     ) -> None:
         proto = AsyncProtocol(reader, writer)
         packet_type, worker_id, digest, pid = await proto.receive()
@@ -155,37 +206,27 @@ class WorkerPool:
         async with self.__closing_lock:
             if self.__closing:
                 proto.close()
+                return
 
-        if packet_type == PacketTypes.BAD_INITIALIZER:
-            packet_type, exc = await proto.receive()
-            if packet_type != PacketTypes.EXCEPTION:
-                await proto.send(PacketTypes.BAD_PACKET)
-            else:
-                set_exception(self.__futures, exc)
-            await self.close()
-            return
-
-        if packet_type != PacketTypes.AUTH:
+        if packet_type not in (PacketTypes.BAD_INITIALIZER, PacketTypes.AUTH):
             await proto.send(PacketTypes.BAD_PACKET)
-            if writer.can_write_eof():
-                writer.write_eof()
             return
 
         if worker_id not in self.worker_ids:
             log.error("Unknown worker with id %r", worker_id)
             return
 
-        expected_digest = hmac.HMAC(
-            self.__cookie,
-            worker_id,
-            digestmod=hashlib.sha256,
-        ).digest()
-
-        if expected_digest != digest:
+        if not self.__check_digest(worker_id, digest):
             await proto.send(PacketTypes.AUTH_FAIL)
-            if writer.can_write_eof():
-                writer.write_eof()
-            log.debug("Bad digest %r expected %r", digest, expected_digest)
+            return
+
+        if packet_type == PacketTypes.BAD_INITIALIZER:
+            packet_type, exc = await proto.receive()
+            if packet_type != PacketTypes.EXCEPTION:
+                await proto.send(PacketTypes.BAD_PACKET)
+            else:
+                set_exception(self.__futures, exc)
+            await self.close()
             return
 
         await proto.send(PacketTypes.AUTH_OK)
@@ -203,30 +244,21 @@ class WorkerPool:
 
                 (
                     func, args, kwargs, result_future, process_future,
-                ) = await self.tasks.get()
+                ) = task = await self.tasks.get()
 
                 if process_future.done() or result_future.done():
                     continue
 
+                if reader.at_eof() or writer.is_closing():
+                    # The worker has gone while waiting for the task
+                    self.tasks.put_nowait(task)
+                    break
+
                 try:
                     process_future.set_result(pid)
+                    self.__executing[result_future] = pid
                     await proto.send((PacketTypes.REQUEST, func, args, kwargs))
                     packet_type, payload = await proto.receive()
-
-                    if result_future.done():
-                        log.debug(
-                            "Result future %r already done, skipping",
-                            result_future,
-                        )
-                        continue
-
-                    if packet_type == PacketTypes.RESULT:
-                        result_future.set_result(payload)
-                    elif packet_type in (
-                        PacketTypes.EXCEPTION, PacketTypes.CANCELLED,
-                    ):
-                        result_future.set_exception(payload)
-                    del packet_type, payload
                 except (asyncio.IncompleteReadError, ConnectionError):
                     if not result_future.done():
                         result_future.set_exception(
@@ -234,14 +266,21 @@ class WorkerPool:
                         )
                     break
                 except Exception as e:
-                    if not result_future.done():
-                        result_future.set_exception(e)
+                    # The request or the answer can not be serialized
+                    packet_type, payload = PacketTypes.EXCEPTION, e
+                finally:
+                    signalled = (
+                        self.__executing.pop(result_future, None) is None
+                    )
+
+                if signalled and packet_type != PacketTypes.CANCELLED:
+                    # The cancel signal has come too late, and may interrupt
+                    # the next task. The supervisor will replace the process.
+                    self.__kill_worker(pid, signal.SIGTERM)
+                    break
 
-                    if not writer.is_closing():
-                        if writer.can_write_eof():
-                            writer.write_eof()
-                        writer.close()
-                    raise
+                self.__set_result(result_future, packet_type, payload)
+                del packet_type, payload
         finally:
             self._statistic.processes -= 1
             self.pids.discard(pid)
@@ -320,21 +359,27 @@ class WorkerPool:
         self, func: Callable[..., T],
         *args: Any, **kwargs: Any,
     ) -> T:
+        if self.__closing:
+            raise RuntimeError("Pool closed")
+
         result_future = self.__create_future()
         process_future = self.__create_future()
 
-        await self.tasks.put((
-            func, args, kwargs, result_future, process_future,
-        ))
-
-        pid: int = await process_future
-
         try:
+            # The queue might be full, this task will be cancelled on close
+            await self.__task(
+                self.tasks.put((
+                    func, args, kwargs, result_future, process_future,
+                )),
+            )
+            await process_future
             return await result_future
-        except asyncio.CancelledError:
-            log.debug("Sending %r to worker PID: %d", SIGNAL, pid)
-            os.kill(pid, SIGNAL)
-            raise
+        finally:
+            process_future.cancel()
+            result_future.cancel()
+            pid = self.__executing.pop(result_future, None)
+            if pid is not None:
+                self.__kill_worker(pid, SIGNAL)
 
     async def __aenter__(self) -> "WorkerPool":
         await self.start()
-- 
2.43.0


From 789995f9dd8cd4841e7ebfca0aeba7f4dc0e7242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 29/50] fix: report the initializer failure which is not
 picklable

---
 aiomisc_worker/worker.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aiomisc_worker/worker.py b/aiomisc_worker/worker.py
index ec5b88b..f8c2008 100644
--- a/aiomisc_worker/worker.py
+++ b/aiomisc_worker/worker.py
@@ -3,6 +3,7 @@ import hashlib
 import hmac
 import logging
 import os
+import pickle
 import signal
 import socket
 import sys
@@ -141,6 +142,11 @@ def worker(address: AddressType, cookie: bytes, worker_id: bytes) -> None:
 def bad_initializer(
     address: AddressType, cookie: bytes, worker_id: bytes, exc: BaseException,
 ) -> None:
+    try:
+        pickle.loads(pickle.dumps(exc))
+    except Exception:
+        exc = RuntimeError(f"Initializer has been failed with {exc!r}")
+
     with socket.socket(ADDRESS_FAMILY, socket.SOCK_STREAM) as sock:
         sock.connect(address)
         proto = SocketIOProtocol(sock)
-- 
2.43.0


From 517f9dc5854d40c606140b767d801ef6768e5187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 30/50] fix: a cancel signal never interrupts the worker after
 the function

---
 aiomisc_worker/worker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiomisc_worker/worker.py b/aiomisc_worker/worker.py
index f8c2008..451028b 100644
--- a/aiomisc_worker/worker.py
+++ b/aiomisc_worker/worker.py
@@ -26,8 +26,8 @@ class CancelState:
 
 
 def call(func: Callable[..., T], args: Any, kwargs: Any) -> T:
-    CancelState.executing = True
     try:
+        CancelState.executing = True
         if CancelState.requested:
             raise asyncio.CancelledError
         return func(*args, **kwargs)
@@ -89,6 +89,7 @@ def execute(protocol: SocketIOProtocol) -> None:
 
 def on_cancel_signal(*_: Any) -> None:
     if CancelState.executing:
+        CancelState.executing = False
         raise asyncio.CancelledError
     CancelState.requested = True
 
-- 
2.43.0


From 942965b3257c6a16e844f3951ea93b6561e628b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:59 +0000
Subject: [PATCH 31/50] fix: distinguish the cancel signal from CancelledError
 of the function

---
 aiomisc_worker/worker.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/aiomisc_worker/worker.py b/aiomisc_worker/worker.py
index 451028b..b55838f 100644
--- a/aiomisc_worker/worker.py
+++ b/aiomisc_worker/worker.py
@@ -56,12 +56,16 @@ def execute(protocol: SocketIOProtocol) -> None:
         try:
             payload = call(func, args, kwargs)
             packet_type = PacketTypes.RESULT
-        except asyncio.CancelledError:
+        except asyncio.CancelledError as e:
             logging.exception(
                 "Request cancelled for %r", func, extra={"pid": pid},
             )
-            packet_type = PacketTypes.CANCELLED
-            payload = asyncio.CancelledError
+            if CancelState.requested:
+                packet_type = PacketTypes.CANCELLED
+                payload = asyncio.CancelledError
+            else:
+                # Raised by the function itself
+                packet_type, payload = PacketTypes.EXCEPTION, e
         except Exception as e:
             logging.exception("Exception when processing request")
             packet_type, payload = PacketTypes.EXCEPTION, e
@@ -88,10 +92,10 @@ def execute(protocol: SocketIOProtocol) -> None:
 
 
 def on_cancel_signal(*_: Any) -> None:
+    CancelState.requested = True
     if CancelState.executing:
         CancelState.executing = False
         raise asyncio.CancelledError
-    CancelState.requested = True
 
 
 signal.signal(SIGNAL, on_cancel_signal)
-- 
2.43.0


From a440ea401af35cebf557a19195b45f74eeeee2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 32/50] fix: DNS tree returns the prefix the found value
 belongs to

---
 aiomisc/service/dns/tree.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aiomisc/service/dns/tree.py b/aiomisc/service/dns/tree.py
index 1b32eec..fe638b7 100644
--- a/aiomisc/service/dns/tree.py
+++ b/aiomisc/service/dns/tree.py
@@ -39,7 +39,8 @@ class RadixTree(Generic[T]):
 
     def find_prefix(self, key: K) -> Optional[Tuple[K, T]]:
         node = self.root
-        longest_prefix: List[str] = []
+        path: List[str] = []
+        longest_prefix: K = ()
         value = None
         part: Hashable
         if node.value is not None:
@@ -47,8 +48,9 @@ class RadixTree(Generic[T]):
         for part in key:
             if part in node.children:
                 node = node.children[part]
-                longest_prefix.append(part)
+                path.append(part)
                 if node.value is not None:
+                    longest_prefix = tuple(path)
                     value = node.value
             else:
                 break
@@ -56,4 +58,4 @@ class RadixTree(Generic[T]):
         if value is None:
             return None
 
-        return tuple(longest_prefix), value
+        return longest_prefix, value
-- 
2.43.0


From 93169b185ff3748e9add7a5f3da505bc7d10b262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:35 +0000
Subject: [PATCH 33/50] fix: DNS zones enclose whole labels only, the root zone
 works

---
 aiomisc/service/dns/store.py | 5 +++--
 aiomisc/service/dns/zone.py  | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/aiomisc/service/dns/store.py b/aiomisc/service/dns/store.py
index bd3d976..51aed78 100644
--- a/aiomisc/service/dns/store.py
+++ b/aiomisc/service/dns/store.py
@@ -36,7 +36,7 @@ class DNSStore:
         if not name.endswith("."):
             name += "."
         zone_tuple = self.get_zone_for_name(name)
-        if not zone_tuple:
+        if zone_tuple is None:
             return ()
         zone = self.zones.search(zone_tuple)
         return zone.get_records(name, record_type) if zone is not None else ()
@@ -48,7 +48,8 @@ class DNSStore:
 
     @staticmethod
     def get_reverse_tuple(zone_name: str) -> Tuple[str, ...]:
-        return tuple(zone_name.strip(".").split("."))[::-1]
+        name = zone_name.strip(".")
+        return tuple(name.split("."))[::-1] if name else ()
 
     def replace(
         self, zones_data: Mapping[str, Iterable[DNSRecord]],
diff --git a/aiomisc/service/dns/zone.py b/aiomisc/service/dns/zone.py
index 8ed501c..37041cb 100644
--- a/aiomisc/service/dns/zone.py
+++ b/aiomisc/service/dns/zone.py
@@ -45,7 +45,11 @@ class DNSZone:
         return tuple(self.records.get((name, record_type), ()))
 
     def check_record(self, record: DNSRecord) -> bool:
-        return record.name.endswith(self.name)
+        if self.name == ".":
+            return record.name.endswith(".")
+        return (
+            record.name == self.name or record.name.endswith(f".{self.name}")
+        )
 
     def replace(self, records: Iterable[DNSRecord]) -> None:
         """
-- 
2.43.0


From d4ec01586bc5edb2820156d847af5fb8b84aebdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:35 +0000
Subject: [PATCH 34/50] fix: DNS names are case-insensitive

---
 aiomisc/service/dns/store.py |  3 ++-
 aiomisc/service/dns/zone.py  | 22 +++++++++++++++-------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/aiomisc/service/dns/store.py b/aiomisc/service/dns/store.py
index 51aed78..3ec19be 100644
--- a/aiomisc/service/dns/store.py
+++ b/aiomisc/service/dns/store.py
@@ -48,7 +48,8 @@ class DNSStore:
 
     @staticmethod
     def get_reverse_tuple(zone_name: str) -> Tuple[str, ...]:
-        name = zone_name.strip(".")
+        # DNS names are case-insensitive (RFC 4343)
+        name = zone_name.strip(".").lower()
         return tuple(name.split("."))[::-1] if name else ()
 
     def replace(
diff --git a/aiomisc/service/dns/zone.py b/aiomisc/service/dns/zone.py
index 37041cb..6d27f18 100644
--- a/aiomisc/service/dns/zone.py
+++ b/aiomisc/service/dns/zone.py
@@ -27,10 +27,10 @@ class DNSZone:
             raise ValueError(
                 f"Record {record.name} does not belong to zone {self.name}",
             )
-        self.records[(record.name, record.type)].add(record)
+        self.records[self.get_key(record.name, record.type)].add(record)
 
     def remove_record(self, record: DNSRecord) -> None:
-        key = (record.name, record.type)
+        key = self.get_key(record.name, record.type)
         if key in self.records:
             self.records[key].discard(record)
             if self.records[key]:
@@ -42,13 +42,21 @@ class DNSZone:
     ) -> Sequence[DNSRecord]:
         if not name.endswith("."):
             name += "."
-        return tuple(self.records.get((name, record_type), ()))
+        return tuple(self.records.get(self.get_key(name, record_type), ()))
+
+    @staticmethod
+    def get_key(
+        name: str, record_type: RecordType,
+    ) -> Tuple[str, RecordType]:
+        # DNS names are case-insensitive (RFC 4343)
+        return name.lower(), record_type
 
     def check_record(self, record: DNSRecord) -> bool:
-        if self.name == ".":
-            return record.name.endswith(".")
+        record_name, zone_name = record.name.lower(), self.name.lower()
+        if zone_name == ".":
+            return record_name.endswith(".")
         return (
-            record.name == self.name or record.name.endswith(f".{self.name}")
+            record_name == zone_name or record_name.endswith(f".{zone_name}")
         )
 
     def replace(self, records: Iterable[DNSRecord]) -> None:
@@ -67,5 +75,5 @@ class DNSZone:
                     f"Record {record.name} does not "
                     f"belong to zone {self.name}",
                 )
-            new_records[(record.name, record.type)].add(record)
+            new_records[self.get_key(record.name, record.type)].add(record)
         self.records = new_records
-- 
2.43.0


From e870b481faa2876228a91d4222f15b01a23c2eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:35 +0000
Subject: [PATCH 35/50] fix: DNS records of all types can be put into a zone

---
 aiomisc/service/dns/records.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/aiomisc/service/dns/records.py b/aiomisc/service/dns/records.py
index 34ddf25..ab6618b 100644
--- a/aiomisc/service/dns/records.py
+++ b/aiomisc/service/dns/records.py
@@ -72,9 +72,17 @@ class DNSClass(enum.IntEnum):
     ASTERISK = 255
 
 
+def freeze(value: Any) -> Hashable:
+    if isinstance(value, (list, tuple)):
+        return tuple(map(freeze, value))
+    if isinstance(value, bytearray):
+        return bytes(value)
+    return value
+
+
 class RD(dnslib.RD, Hashable, ABC):
     def __hash__(self) -> int:
-        return hash(self.data)
+        return hash(freeze([getattr(self, name) for name in self.attrs]))
 
     @classmethod
     @abstractmethod
@@ -212,6 +220,8 @@ class SRV(dnslib.SRV, RD):
 
 
 class CAA(dnslib.CAA, RD):
+    attrs = ("flags", "tag", "value")
+
     @classmethod
     def create(
         cls, name: str, flags: int, tag: str, value: str,
@@ -314,6 +324,8 @@ class HTTPS(dnslib.HTTPS, RD):
 
 
 class LOC(dnslib.LOC, RD):
+    attrs = ("_lat", "_lon", "_alt", "_siz", "_hp", "_vp")
+
     @classmethod
     def create(
         cls, name: str, latitude: float, longitude: float,
-- 
2.43.0


From 38c8bcc0b8d307c138e076e59569bb196fbd4430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:35 +0000
Subject: [PATCH 36/50] fix: DNS records with text arguments can be sent

---
 aiomisc/service/dns/records.py | 63 ++++++++++++++++++++++++++++++++++
 1 file changed, 63 insertions(+)

diff --git a/aiomisc/service/dns/records.py b/aiomisc/service/dns/records.py
index ab6618b..666b7e9 100644
--- a/aiomisc/service/dns/records.py
+++ b/aiomisc/service/dns/records.py
@@ -80,6 +80,10 @@ def freeze(value: Any) -> Hashable:
     return value
 
 
+def to_bytes(value: Any) -> bytes:
+    return value.encode() if isinstance(value, str) else value
+
+
 class RD(dnslib.RD, Hashable, ABC):
     def __hash__(self) -> int:
         return hash(freeze([getattr(self, name) for name in self.attrs]))
@@ -236,6 +240,18 @@ class CAA(dnslib.CAA, RD):
 
 
 class NAPTR(dnslib.NAPTR, RD):
+    def to_dnslib(self) -> dnslib.NAPTR:
+        return dnslib.NAPTR(
+            self.order, self.preference, to_bytes(self.flags),
+            to_bytes(self.service), to_bytes(self.regexp), self.replacement,
+        )
+
+    def pack(self, buffer: dnslib.DNSBuffer) -> None:
+        self.to_dnslib().pack(buffer)
+
+    def __repr__(self) -> str:
+        return repr(self.to_dnslib())
+
     @classmethod
     def create(
         cls, name: str, order: int, preference: int, flags: str,
@@ -278,6 +294,19 @@ class DNSKEY(dnslib.DNSKEY, RD):
 
 
 class RRSIG(dnslib.RRSIG, RD):
+    def to_dnslib(self) -> dnslib.RRSIG:
+        return dnslib.RRSIG(
+            self.covered, self.algorithm, self.labels, self.orig_ttl,
+            self.sig_exp, self.sig_inc, self.key_tag, self.name,
+            to_bytes(self.sig),
+        )
+
+    def pack(self, buffer: dnslib.DNSBuffer) -> None:
+        self.to_dnslib().pack(buffer)
+
+    def __repr__(self) -> str:
+        return repr(self.to_dnslib())
+
     @classmethod
     def create(
         cls, name: str, type_covered: int, algorithm: int, labels: int,
@@ -296,6 +325,20 @@ class RRSIG(dnslib.RRSIG, RD):
 
 
 class NSEC(dnslib.NSEC, RD):
+    def to_dnslib(self) -> dnslib.NSEC:
+        return dnslib.NSEC(
+            self.label, [
+                rrtype if isinstance(rrtype, str) else dnslib.QTYPE[rrtype]
+                for rrtype in self.rrlist
+            ],
+        )
+
+    def pack(self, buffer: dnslib.DNSBuffer) -> None:
+        self.to_dnslib().pack(buffer)
+
+    def __repr__(self) -> str:
+        return repr(self.to_dnslib())
+
     @classmethod
     def create(
         cls, name: str, next_domain: str,
@@ -310,6 +353,26 @@ class NSEC(dnslib.NSEC, RD):
 
 
 class HTTPS(dnslib.HTTPS, RD):
+    def to_dnslib(self) -> dnslib.HTTPS:
+        target = self.target
+        if isinstance(target, str):
+            target = dnslib.DNSLabel(target).label
+
+        params = []
+        for param in self.params:
+            if isinstance(param, str):
+                key, _, value = param.encode().partition(b"=")
+                param = self.zf_parse_param(key, value)
+            params.append(param)
+
+        return dnslib.HTTPS(self.priority, target, params)
+
+    def pack(self, buffer: dnslib.DNSBuffer) -> None:
+        self.to_dnslib().pack(buffer)
+
+    def __repr__(self) -> str:
+        return repr(self.to_dnslib())
+
     @classmethod
     def create(
         cls, name: str, priority: int, target: str,
-- 
2.43.0


From 2d653655e3de19ea1144efa9bd36c8ead34602fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:35 +0000
Subject: [PATCH 37/50] fix: TCP DNS server reads whole requests

---
 aiomisc/service/dns/service.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/aiomisc/service/dns/service.py b/aiomisc/service/dns/service.py
index 28d6895..74cd3f1 100644
--- a/aiomisc/service/dns/service.py
+++ b/aiomisc/service/dns/service.py
@@ -114,10 +114,7 @@ class TCPDNSServer(DNSServer, TCPServer):
                 if not data:
                     break
                 length = TCP_HEADER_STRUCT.unpack(data)[0]
-                packet = await reader.read(length)
-
-                if not data:
-                    break
+                packet = await reader.readexactly(length)
 
                 reply_body, _ = self.handle_request(data=packet, addr=addr)
 
-- 
2.43.0


From ec5b758f8e53fa3a606896209a2278eddf345a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:35 +0000
Subject: [PATCH 38/50] fix: DNS replies fit the announced size and are cut at
 a record

---
 aiomisc/service/dns/service.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/aiomisc/service/dns/service.py b/aiomisc/service/dns/service.py
index 74cd3f1..2912543 100644
--- a/aiomisc/service/dns/service.py
+++ b/aiomisc/service/dns/service.py
@@ -15,6 +15,11 @@ from .store import DNSStore
 log = logging.getLogger(__name__)
 
 
+UDP_MIN_SIZE = 512
+UDP_MAX_SIZE = 65507
+TCP_MAX_SIZE = 65535
+
+
 class DNSServer:
     store: DNSStore
 
@@ -58,14 +63,20 @@ class DNSServer:
                 self.__proto__, addr, reply,
             )
 
+            max_size = TCP_MAX_SIZE
+            if should_truncate:
+                # Values lower than 512 must be treated as 512 (RFC 6891)
+                max_size = min(
+                    max(edns_max_size or 0, UDP_MIN_SIZE), UDP_MAX_SIZE,
+                )
+
             reply_body = reply.pack()
 
-            if len(reply_body) > 512:
+            while len(reply_body) > max_size and reply.rr:
+                # Only the whole records should be sent
                 reply.header.tc = 1
+                del reply.rr[len(reply.rr) * max_size // len(reply_body):]
                 reply_body = reply.pack()
-
-            if should_truncate:
-                reply_body = reply_body[:edns_max_size]
         except Exception as e:
             log.exception(
                 "Failed to process %s request from %r: %s",
-- 
2.43.0


From ff259aca9a8fd4bc749e60e378b0579b7d560ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:47 +0000
Subject: [PATCH 39/50] fix: threaded log handler never blocks the application
 and keeps accepted records

---
 aiomisc/log.py | 57 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index 14a1bf6..d81297f 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -4,7 +4,7 @@ import threading
 import traceback
 import warnings
 from contextlib import suppress
-from queue import Empty, Queue
+from queue import Empty, Full, Queue
 from socket import socket
 from typing import (
     Any, Callable, Dict, Iterable, List, Optional, Tuple, Type, Union,
@@ -43,10 +43,16 @@ class ThreadedHandler(logging.Handler):
         self._thread.start()
 
     def close(self) -> None:
-        self._queue.put(None)
-        del self._queue
-        self.flush()
-        self._close_event.set()
+        # Serialized with the ``emit``, so nothing is accepted afterwards
+        self.acquire()
+        try:
+            if not self._close_event.is_set():
+                self._close_event.set()
+                with suppress(Full):
+                    self._queue.put_nowait(None)
+                self.flush()
+        finally:
+            self.release()
         super().close()
 
     def flush(self) -> None:
@@ -54,29 +60,38 @@ class ThreadedHandler(logging.Handler):
         self._flush_event.set()
 
     def emit(self, record: logging.LogRecord) -> None:
+        if self._close_event.is_set():
+            return
         if self._buffered:
-            self._queue.put_nowait(record)
+            try:
+                self._queue.put_nowait(record)
+            except Full:
+                self._statistic.errors += 1
+                self.handleError(record)
+                return
         else:
             self._queue.put(record)
         self._statistic.records += 1
 
     def _in_thread(self) -> None:
         queue = self._queue
-        while not self._close_event.is_set():
-            self._flush_event.wait(self._flush_interval)
-            try:
-                self.acquire()
-                while True:
-                    record = queue.get(timeout=self._flush_interval)
-                    if record is None:
-                        return
-                    with suppress(Exception):
-                        self._target.handle(record)
-            except Empty:
-                pass
-            finally:
-                self.release()
-        self._statistic.threads -= 1
+        closing = False
+        try:
+            while not closing:
+                self._flush_event.wait(self._flush_interval)
+                # All accepted records are already in the queue when closing
+                closing = self._close_event.is_set()
+                try:
+                    while True:
+                        record = queue.get(timeout=self._flush_interval)
+                        if record is None:
+                            return
+                        with suppress(Exception):
+                            self._target.handle(record)
+                except Empty:
+                    pass
+        finally:
+            self._statistic.threads -= 1
 
 
 def suppressor(
-- 
2.43.0


From 1ea5ec1341b19b465269789e67811168c2e077d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:13 +0000
Subject: [PATCH 40/50] fix: JSON log formatter never fails on a record

---
 aiomisc_log/formatter/json.py | 53 +++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/aiomisc_log/formatter/json.py b/aiomisc_log/formatter/json.py
index 6f8a526..4006077 100644
--- a/aiomisc_log/formatter/json.py
+++ b/aiomisc_log/formatter/json.py
@@ -3,7 +3,7 @@ import logging
 import sys
 import traceback
 from types import MappingProxyType
-from typing import IO, Any, Callable, Dict, List, Optional, Union
+from typing import IO, Any, Callable, Dict, Optional, Union
 
 
 try:
@@ -18,10 +18,41 @@ JSONObjType = Dict[str, Any]
 DumpsType = Callable[[JSONObjType, Any], str]
 
 
+def _safe(func: Callable[[Any], str], obj: Any) -> str:
+    try:
+        return func(obj)
+    except Exception:
+        return f"<unprintable {type(obj).__name__} object>"
+
+
+def _jsonable(obj: Any, depth: int = 32) -> Any:
+    """ Replaces everything that can not be serialized by its ``repr`` """
+    if obj is None or isinstance(obj, (bool, str)):
+        return obj
+    if depth > 0 and isinstance(obj, dict):
+        return {
+            key if isinstance(key, str) else _safe(repr, key):
+            _jsonable(value, depth - 1) for key, value in obj.items()
+        }
+    if depth > 0 and isinstance(obj, (list, tuple)):
+        return [_jsonable(value, depth - 1) for value in obj]
+    try:
+        if isinstance(obj, (int, float)):
+            json.dumps(obj, allow_nan=False)
+            return obj
+    except ValueError:
+        pass
+    return _safe(repr, obj)
+
+
 def _dump_json(obj: JSONObjType, *args: Any, **kwargs: Any) -> str:
     kwargs["default"] = repr
     kwargs["ensure_ascii"] = False
-    return json.dumps(obj, *args, **kwargs)
+    kwargs["allow_nan"] = False
+    try:
+        return json.dumps(obj, *args, **kwargs)
+    except Exception:
+        return json.dumps(_jsonable(obj), *args, **kwargs)
 
 
 class JSONLogFormatter(logging.Formatter):
@@ -71,8 +102,8 @@ class JSONLogFormatter(logging.Formatter):
 
             v = record_dict.get(key)
 
-            if not isinstance(v, field_type):
-                v = field_type(v)
+            if v is not None and not isinstance(v, field_type):
+                v = _safe(field_type, v)
 
             data[mapping] = v
 
@@ -81,7 +112,7 @@ class JSONLogFormatter(logging.Formatter):
                 continue
             elif key in self.FIELD_MAPPING:
                 continue
-            elif key[0] == "_":
+            elif isinstance(key, str) and key.startswith("_"):
                 continue
 
             record_value: Any = record_dict[key]
@@ -91,15 +122,21 @@ class JSONLogFormatter(logging.Formatter):
 
             data[key] = record_value
 
-        args: List[Any] = data.pop("args", [])
+        args: Any = data.pop("args", ())
+
+        # Like the ``record.getMessage`` does
+        if not isinstance(args, tuple):
+            args = (args,)
 
         for idx, item in enumerate(args):
-            data["argument_%d" % idx] = str(item)
+            data["argument_%d" % idx] = _safe(str, item)
 
         payload = {
             "@fields": data,
             "msg": self.formatMessage(record),
-            "level": self.LEVELS[record.levelno],
+            "level": self.LEVELS.get(
+                record.levelno, record.levelname.lower(),
+            ),
         }   # type: JSONObjType
 
         if self.datefmt:
-- 
2.43.0


From 88303a10572226b6a3029b2a3564cca231573637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:13 +0000
Subject: [PATCH 41/50] fix: Sentry transport reports every event once and
 always closes

---
 aiomisc/service/raven.py | 111 +++++++++++++++++++++++++--------------
 1 file changed, 73 insertions(+), 38 deletions(-)

diff --git a/aiomisc/service/raven.py b/aiomisc/service/raven.py
index 0e59c0e..5d695f8 100644
--- a/aiomisc/service/raven.py
+++ b/aiomisc/service/raven.py
@@ -22,6 +22,8 @@ from aiomisc.utils import TimeoutType
 
 
 log = logging.getLogger(__name__)
+# Ignored by the ``SentryHandler``
+error_log = logging.getLogger("sentry.errors.transport")
 
 
 __doc__ = """
@@ -86,6 +88,7 @@ class AioHttpTransportBase(
             self._client_session = self._client_session_factory()
 
         self._closing = False
+        self._closed = False
 
     @property
     def keepalive(self) -> bool:
@@ -113,6 +116,7 @@ class AioHttpTransportBase(
             session = self._client_session_factory()
 
         resp = None
+        error: Optional[BaseException] = None
 
         try:
             resp = await session.post(
@@ -128,21 +132,26 @@ class AioHttpTransportBase(
                         retry_after = int(resp.headers.get("retry-after", "0"))
                     except (ValueError, TypeError):
                         retry_after = 0
-                    errorback(RateLimited(msg, retry_after))
+                    error = RateLimited(msg, retry_after)
                 else:
-                    errorback(APIError(msg, code))
-            else:
-                callback()
-        except asyncio.CancelledError:
+                    error = APIError(msg, code)
+        except asyncio.CancelledError as exc:
             # do not mute asyncio.CancelledError
+            error = exc
             raise
         except Exception as exc:
-            errorback(exc)
+            error = exc
         finally:
-            if resp is not None:
-                resp.release()
-            if not self.keepalive:
-                await session.close()
+            try:
+                if resp is not None:
+                    resp.release()
+                if not self.keepalive:
+                    await session.close()
+            finally:
+                if error is None:
+                    callback()
+                else:
+                    errorback(error)
 
     @abc.abstractmethod
     def _async_send(
@@ -155,6 +164,19 @@ class AioHttpTransportBase(
     async def _close(self) -> None:  # pragma: no cover
         pass
 
+    async def _abort(self) -> None:
+        """ Drops everything what has not been sent by the ``_close`` """
+
+    def _schedule_send(
+        self, url: str, data: Any, headers: Mapping,
+        success_cb: Callable[[], Any], failure_cb: Callable[[Any], Any],
+    ) -> None:
+        if self._closed:
+            failure_cb(RuntimeError(f"{self.__class__.__name__} is closed"))
+            return
+
+        self._async_send(url, data, headers, success_cb, failure_cb)
+
     def async_send(
         self, url: str, data: Any, headers: Mapping,
         success_cb: Callable[[], Any], failure_cb: Callable[[Any], Any],
@@ -164,7 +186,7 @@ class AioHttpTransportBase(
             return
 
         self._loop.call_soon_threadsafe(
-            self._async_send, url, data, headers, success_cb, failure_cb,
+            self._schedule_send, url, data, headers, success_cb, failure_cb,
         )
 
     async def _close_coro(
@@ -172,6 +194,7 @@ class AioHttpTransportBase(
         *,
         timeout: Optional[TimeoutType] = None,
     ) -> None:
+        self._closed = True
         try:
             await asyncio.wait_for(
                 self._close(), timeout=timeout,
@@ -179,8 +202,11 @@ class AioHttpTransportBase(
         except asyncio.TimeoutError:
             pass
         finally:
-            if self.keepalive:
-                await self._client_session.close()
+            try:
+                await self._abort()
+            finally:
+                if self.keepalive:
+                    await self._client_session.close()
 
     def close(self, *, timeout: Optional[TimeoutType] = None) -> Awaitable[Any]:
         if self._closing:
@@ -217,7 +243,11 @@ class AioHttpTransport(AioHttpTransportBase):
             return_exceptions=True,
         )
 
-        assert len(self._tasks) == 0
+    async def _abort(self) -> None:
+        tasks = list(self._tasks)
+        for task in tasks:
+            task.cancel()
+        await asyncio.gather(*tasks, return_exceptions=True)
 
 
 class QueuedAioHttpTransport(AioHttpTransportBase):
@@ -250,6 +280,9 @@ class QueuedAioHttpTransport(AioHttpTransportBase):
                 await self._do_send(
                     url, data, headers, success_cb, failure_cb,
                 )
+            except Exception:
+                # Failed callback must not stop the following events
+                error_log.exception("Error while sending the event")
             finally:
                 self._queue.task_done()
 
@@ -264,6 +297,7 @@ class QueuedAioHttpTransport(AioHttpTransportBase):
         except asyncio.QueueFull:
             skipped = self._queue.get_nowait()
             self._queue.task_done()
+            self._queue.put_nowait(payload)
 
             *_, errorback = skipped
 
@@ -271,35 +305,34 @@ class QueuedAioHttpTransport(AioHttpTransportBase):
                 RuntimeError("QueuedAioHttpTransport internal queue is full"),
             )
 
-            self._queue.put_nowait(payload)
-
     async def _close(self) -> None:
-        try:
-            self._queue.put_nowait(...)
-        except asyncio.QueueFull:
-            skipped = self._queue.get_nowait()
-            self._queue.task_done()
-
-            *_, failure_cb = skipped
-
-            failure_cb(
-                RuntimeError("QueuedAioHttpTransport internal queue was full"),
-            )
-
-            self._queue.put_nowait(...)
-
+        await self._queue.put(...)
         await asyncio.gather(
             *self._workers,
             return_exceptions=True,
         )
 
-        assert len(self._workers) == 0
-        assert self._queue.qsize() == 1
-        try:
-            assert self._queue.get_nowait() is ...
-        finally:
+    async def _abort(self) -> None:
+        workers = list(self._workers)
+        for worker in workers:
+            worker.cancel()
+        await asyncio.gather(*workers, return_exceptions=True)
+
+        while not self._queue.empty():
+            skipped = self._queue.get_nowait()
             self._queue.task_done()
 
+            if skipped is ...:
+                continue
+
+            *_, failure_cb = skipped
+            try:
+                failure_cb(
+                    RuntimeError(f"{self.__class__.__name__} is closed"),
+                )
+            except Exception:
+                error_log.exception("Error while dropping the event")
+
 
 class QueuedKeepaliveAioHttpTransport(QueuedAioHttpTransport):
     DNS_CACHE_TTL = 600
@@ -342,9 +375,11 @@ class QueuedKeepaliveAioHttpTransport(QueuedAioHttpTransport):
             connector_owner=False,
         )
 
-    async def _close(self) -> None:
-        await super()._close()
-        await self.connector.close()
+    async def _abort(self) -> None:
+        try:
+            await super()._abort()
+        finally:
+            await self.connector.close()
 
 
 class RavenSender(Service):
-- 
2.43.0


From 290d2c739feeb3fe061f1ae7019d2708dfd42598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:13 +0000
Subject: [PATCH 42/50] fix: statistics keep inherited metrics and assigned
 values

---
 aiomisc/counters.py     | 35 ++++++++++++++++++++---------------
 aiomisc/process_pool.py |  4 +++-
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/aiomisc/counters.py b/aiomisc/counters.py
index d191f6a..64825ab 100644
--- a/aiomisc/counters.py
+++ b/aiomisc/counters.py
@@ -68,28 +68,21 @@ class MetaStatistic(type):
             if not issubclass(base_class, AbstractStatistic):
                 continue
 
-            if not hasattr(base_class, "__annotations__"):
-                continue
-
-            for prop, kind in base_class.__annotations__.items():
-                if kind not in (int, float):
-                    continue
-
-                if prop.startswith("_"):
-                    continue
-
-                metrics.add(prop)
+            metrics.update(getattr(base_class, "__metrics__", ()))
 
         for prop, kind in klass.__annotations__.items():
             if kind not in (int, float):
                 continue
 
+            if prop.startswith("_"):
+                continue
+
             metrics.add(prop)
 
         klass.__metrics__ = frozenset(metrics)
+        klass.__instances__ = WeakSet()
 
         if klass.__metrics__:
-            klass.__instances__ = WeakSet()
             CLASS_STORE.add(klass)
 
         return klass
@@ -107,6 +100,17 @@ class Statistic(AbstractStatistic, metaclass=MetaStatistic):
 
         self.__instances__.add(self)
 
+    def __setattr__(self, name: str, value: Any) -> None:
+        if name in self.__metrics__:
+            if not isinstance(value, Metric):
+                # Keep the metric and replace its value only
+                self._counter[name] = value
+                return
+            if value.counter is not self._counter or value.name != name:
+                self._counter[name] = value.counter[value.name]
+                return
+        super().__setattr__(name, value)
+
 
 @dataclass(frozen=True)
 class StatisticResult:
@@ -126,12 +130,13 @@ class StatisticResult:
 def get_statistics(
     *kind: Type[Statistic],
 ) -> Generator[Any, Tuple[Statistic, str, int], None]:
-    for klass in CLASS_STORE:
+    # Objects might be created or removed while the caller is iterating
+    for klass in tuple(CLASS_STORE):
         if kind and not issubclass(klass, kind):
             continue
 
-        for instance in klass.__instances__:
-            for metric, value in instance._counter.items():
+        for instance in tuple(klass.__instances__):
+            for metric, value in tuple(instance._counter.items()):
                 yield StatisticResult(
                     kind=klass,
                     name=instance.name,
diff --git a/aiomisc/process_pool.py b/aiomisc/process_pool.py
index 32b6ca4..b9cbcac 100644
--- a/aiomisc/process_pool.py
+++ b/aiomisc/process_pool.py
@@ -84,7 +84,9 @@ class ProcessPoolExecutor(ProcessPoolExecutorBase, EventLoopMixin):
         """
         Callback for statistic
         """
-        if future.exception():
+        if future.cancelled():
+            return
+        if future.exception() is not None:
             self._statistic.error += 1
         else:
             self._statistic.success += 1
-- 
2.43.0


From 19a9e377d3045a2cd3910f54ad9c2050b13c4ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:13 +0000
Subject: [PATCH 43/50] fix: restored service has its context and start event

---
 aiomisc/service/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aiomisc/service/base.py b/aiomisc/service/base.py
index c2532e7..7d4495b 100644
--- a/aiomisc/service/base.py
+++ b/aiomisc/service/base.py
@@ -48,6 +48,10 @@ class Service(metaclass=ServiceMeta):
 
     _instance_params: Dict[str, Any]
 
+    # a restored service does not pass through the ``__init__``
+    __context: Optional[Context] = None
+    __start_event: Optional[asyncio.Event] = None
+
     def __new__(cls, *args: Any, **kwargs: Any) -> "Service":
         instance = super().__new__(cls)
         instance._instance_params = {}
@@ -59,8 +63,6 @@ class Service(metaclass=ServiceMeta):
             raise AttributeError("Absent attributes", lost_kw)
 
         self._set_params(**kwargs)
-        self.__context: Optional[Context] = None
-        self.__start_event: Optional[asyncio.Event] = None
 
     def __getattr__(self, key: str) -> Any:
         try:
-- 
2.43.0


From 36ecc7bfb0340077e811d7414583af7b624d9f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:06 +0000
Subject: [PATCH 44/50] fix: watchdog service announces stopping in time and no
 readiness after a failed start

---
 aiomisc/entrypoint.py         |  4 ++++
 aiomisc/service/sdwatchdog.py | 12 +++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index 855ad14..e1f586a 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -172,6 +172,7 @@ class Entrypoint:
         self.__passed_services: FrozenSet[Service] = frozenset(services)
 
         self._services: Set[Service] = set()
+        self._not_started: Set[Service] = set()
         self._debug = debug
         self._loop = loop
         self._loop_owner = False
@@ -363,8 +364,10 @@ class Entrypoint:
 
     async def start_services(self, *svc: Service) -> None:
         await self.pre_start.call(entrypoint=self, services=svc)
+        self._not_started.update(svc)
         try:
             await asyncio.gather(*[self._start_service(s) for s in svc])
+            self._not_started.difference_update(svc)
         finally:
             await self.post_start.call(entrypoint=self, services=svc)
 
@@ -396,6 +399,7 @@ class Entrypoint:
 
             for s in svc:
                 self._services.discard(s)
+                self._not_started.discard(s)
 
             await self.post_stop.call(entrypoint=self, services=svc)
 
diff --git a/aiomisc/service/sdwatchdog.py b/aiomisc/service/sdwatchdog.py
index 5e7e533..c9d984f 100644
--- a/aiomisc/service/sdwatchdog.py
+++ b/aiomisc/service/sdwatchdog.py
@@ -22,7 +22,7 @@ def _get_watchdog_interval() -> Optional[TimeoutType]:
 
 def _get_socket_addr() -> Optional[str]:
     addr = os.getenv("NOTIFY_SOCKET")
-    if addr is None:
+    if not addr:
         return None
     if addr[0] == "@":
         addr = "\0" + addr[1:]
@@ -128,7 +128,13 @@ async def _pre_start(*, services: Tuple[Service, ...], **__: Any) -> None:
             await service.send(f"STATUS=Starting {len(services)} services")
 
 
-async def _post_start(*, services: Tuple[Service, ...], **__: Any) -> None:
+async def _post_start(
+    *, entrypoint: Any, services: Tuple[Service, ...], **__: Any,
+) -> None:
+    if not entrypoint._not_started.isdisjoint(services):
+        # the start has failed, there is nothing to be ready
+        return
+
     for service in filter_services(services):
         await service.send(f"STATUS=Started {len(services)} services")
         await service.send("READY=1")
@@ -137,11 +143,11 @@ async def _post_start(*, services: Tuple[Service, ...], **__: Any) -> None:
 async def _pre_stop(*, services: Tuple[Service, ...], **__: Any) -> None:
     for service in filter_services(services):
         await service.send(f"STATUS=Stopping {len(services)} services")
+        await service.send("STOPPING=1")
 
 
 async def _post_stop(*, services: Tuple[Service, ...], **_: Any) -> None:
     for service in filter_services(services):
-        await service.send("STOPPING=1")
         await service.disconnect()
 
 
-- 
2.43.0


From 4528f873413c222e4e968f34a317b278764e879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:06 +0000
Subject: [PATCH 45/50] fix: TLS servers verify required client certificates
 during the handshake

---
 aiomisc/service/tls.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aiomisc/service/tls.py b/aiomisc/service/tls.py
index 1a5013a..810d63b 100644
--- a/aiomisc/service/tls.py
+++ b/aiomisc/service/tls.py
@@ -90,8 +90,6 @@ class SSLOptions(SSLOptionsBase):
         if self.require_client_cert:
             log.debug("Set server-side cert verification")
             context.verify_mode = ssl.VerifyMode.CERT_REQUIRED
-            # Post-handshake authentication is required
-            context.post_handshake_auth = True
         else:
             # Disable server-side cert verification
             context.check_hostname = False
-- 
2.43.0


From 81e979ac60a549ea1256e3660c333d836bb3c742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:06 +0000
Subject: [PATCH 46/50] fix: TLS clients verify the certificate of the server
 unless told not to

---
 aiomisc/service/tls.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/aiomisc/service/tls.py b/aiomisc/service/tls.py
index 810d63b..a1e2ef0 100644
--- a/aiomisc/service/tls.py
+++ b/aiomisc/service/tls.py
@@ -65,8 +65,17 @@ class SSLOptions(SSLOptionsBase):
         )
 
     def create_context(self) -> ssl.SSLContext:
+        if self.ca:
+            log.debug("Loading CA from %s", self.ca)
+            if not self.ca.exists():
+                raise FileNotFoundError(
+                    "CA file doesn't exists", str(self.ca.resolve()),
+                )
+
+        # the authorities known to the system are trusted
+        # only when there is no configured one
         context = ssl.create_default_context(
-            purpose=self.purpose,
+            purpose=self.purpose, cafile=str(self.ca) if self.ca else None,
         )
 
         # Disable compression to prevent CRIME attacks
@@ -79,19 +88,14 @@ class SSLOptions(SSLOptionsBase):
         if not self.verify:
             context.check_hostname = False
 
-        if self.ca:
-            log.debug("Loading CA from %s", self.ca)
-            if not self.ca.exists():
-                raise FileNotFoundError(
-                    "CA file doesn't exists", str(self.ca.resolve()),
-                )
-            context.load_verify_locations(cafile=str(self.ca))
-
         if self.require_client_cert:
             log.debug("Set server-side cert verification")
             context.verify_mode = ssl.VerifyMode.CERT_REQUIRED
+        elif self.purpose is ssl.Purpose.SERVER_AUTH and self.verify:
+            log.debug("Set client-side cert verification")
+            context.verify_mode = ssl.VerifyMode.CERT_REQUIRED
         else:
-            # Disable server-side cert verification
+            # Disable cert verification
             context.check_hostname = False
             context.verify_mode = ssl.VerifyMode.CERT_NONE
 
-- 
2.43.0


From fd6508c347a94afa521c585652a09d6f25642055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:32 +0000
Subject: [PATCH 47/50] fix: unhandled error hook reports cancelled futures,
 falsy exceptions and items named like record attributes

---
 aiomisc/log.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index d81297f..ef84422 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -121,6 +121,10 @@ def wrap_logging_handler(
 
 
 class UnhandledLoopHook(aiomisc_log.UnhandledHook):
+    _RECORD_ATTRIBUTES = frozenset(
+        logging.makeLogRecord({}).__dict__,
+    ) | {"message", "asctime"}
+
     @staticmethod
     def _fill_transport_extra(
         transport: Optional[asyncio.Transport],
@@ -156,13 +160,17 @@ class UnhandledLoopHook(aiomisc_log.UnhandledHook):
             context.pop("source_traceback", None) or []
         )
 
-        if exception is None:
-            if future is not None:
-                exception = future.exception()
-            elif task is not None and task.done():
-                exception = task.exception()
-
-        extra = context
+        for source in (future, task):
+            if exception is not None:
+                break
+            if source is not None and source.done() and not source.cancelled():
+                exception = source.exception()
+
+        # The names of attributes of the record itself can not be overwritten
+        extra = {
+            f"context_{key}" if key in self._RECORD_ATTRIBUTES else key: value
+            for key, value in context.items()
+        }
         if handle is not None:
             extra["handle"] = repr(handle)
         if protocol is not None:
@@ -171,7 +179,12 @@ class UnhandledLoopHook(aiomisc_log.UnhandledHook):
             extra["sock"] = repr(sock)
 
         self._fill_transport_extra(transport, extra)
-        self.logger.exception(message, exc_info=exception, extra=extra)
+        self.logger.exception(
+            message, extra=extra,
+            exc_info=exception is not None and (
+                type(exception), exception, exception.__traceback__,
+            ),
+        )
         if source_tb:
             self.logger.error("".join(traceback.format_list(source_tb)))
 
-- 
2.43.0


From 3cc35088dea64cea23ecaefe018d24a0f01bd8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:32 +0000
Subject: [PATCH 48/50] fix: process service terminates its process when the
 start is cancelled, fails or is overtaken by the stop, and reports a process
 which died early

---
 aiomisc/service/process.py | 149 ++++++++++++++++++++++---------------
 1 file changed, 90 insertions(+), 59 deletions(-)

diff --git a/aiomisc/service/process.py b/aiomisc/service/process.py
index 8313aee..4121d67 100644
--- a/aiomisc/service/process.py
+++ b/aiomisc/service/process.py
@@ -2,8 +2,8 @@ import logging
 import os
 import signal
 from abc import ABC, abstractmethod
+from contextlib import suppress
 from multiprocessing import Event, Process, synchronize
-from threading import Lock
 from typing import Any, Callable, Dict, Optional
 
 from aiomisc.periodic import PeriodicCallback
@@ -30,6 +30,15 @@ def _process_inner(
         stop_event.set()
 
 
+def _wait_for_start(
+    process: Process, start_event: synchronize.Event, poll_interval: float,
+) -> bool:
+    while not start_event.wait(poll_interval):
+        if not process.is_alive():
+            return start_event.is_set()
+    return True
+
+
 class ProcessService(Service):
     name: Optional[str] = None
     process: Process
@@ -37,7 +46,7 @@ class ProcessService(Service):
 
     _process_start_event: synchronize.Event
     _process_stop_event: synchronize.Event
-    _lock: Lock
+    _PROCESS_START_POLL_INTERVAL: float = 0.1
 
     def get_process_kwargs(self) -> Dict[str, Any]:
         return {}
@@ -46,50 +55,52 @@ class ProcessService(Service):
     def in_process(self) -> Any:
         pass
 
-    def _is_alive(self) -> bool:
-        with self._lock:
-            if not hasattr(self, "process"):
-                return False
-            if not self.process.pid:
-                return False
-            return self.process.is_alive()
-
     async def start(self) -> Any:
-        self._lock = Lock()
         self._process_start_event = Event()
         self._process_stop_event = Event()
 
-        with self._lock:
-            log_level = (
-                log.getEffectiveLevel()
-                if LOG_LEVEL is None
-                else LOG_LEVEL.get()
-            )
-            log_format = (
-                LogFormat.default()
-                if LOG_FORMAT is None
-                else LOG_FORMAT.get().value
-            )
+        log_level = (
+            log.getEffectiveLevel()
+            if LOG_LEVEL is None
+            else LOG_LEVEL.get()
+        )
+        log_format = (
+            LogFormat.default()
+            if LOG_FORMAT is None
+            else LOG_FORMAT.get()
+        )
 
-            process = Process(
-                target=_process_inner,
-                args=(
-                    self.in_process,
-                    log_level,
-                    log_format,
-                    self._process_start_event,
-                    self._process_stop_event,
-                ),
-                kwargs=self.get_process_kwargs(),
-                name=self.name,
-            )
+        process = Process(
+            target=_process_inner,
+            args=(
+                self.in_process,
+                log_level,
+                log_format,
+                self._process_start_event,
+                self._process_stop_event,
+            ),
+            kwargs=self.get_process_kwargs(),
+            name=self.name,
+        )
 
-            process.start()
+        process.start()
+        # From now on it must be terminated by the ``stop``
+        self.process = process
 
-            await self.loop.run_in_executor(
-                None, self._process_start_event.wait,
+        try:
+            started = await self.loop.run_in_executor(
+                None, _wait_for_start, process, self._process_start_event,
+                self._PROCESS_START_POLL_INTERVAL,
+            )
+        except BaseException:
+            await self._terminate()
+            raise
+
+        if not started:
+            raise RuntimeError(
+                f"The process of {self!r} exited with code "
+                f"{process.exitcode!r} before it has been started",
             )
-            self.process = process
 
     def __repr__(self) -> str:
         pid: Optional[int] = None
@@ -100,33 +111,45 @@ class ProcessService(Service):
             self.__class__.__name__, hex(id(self)), self.name, pid,
         )
 
-    async def stop(self, exception: Optional[Exception] = None) -> Any:
-        if not self._is_alive():
+    async def _terminate(self) -> None:
+        if not hasattr(self, "process"):
             return
 
         process = self.process
+        stop_event = self._process_stop_event
         del self.process
 
-        if not process.pid:
+        if not process.is_alive():
             return
 
-        os.kill(process.pid, signal.SIGINT)
-        stop_result: bool = await self.loop.run_in_executor(
-            None, self._process_stop_event.wait, self.process_stop_timeout,
-        )
+        killed = False
+        try:
+            with suppress(ProcessLookupError):
+                os.kill(process.pid, signal.SIGINT)     # type: ignore
 
-        if stop_result:
             await self.loop.run_in_executor(
                 None, process.join, self.process_stop_timeout,
             )
-
-        if not stop_result and process.is_alive():
-            process.kill()
+            if process.is_alive() and stop_event.is_set():
+                # The function is done, only the process has to be finished
+                await self.loop.run_in_executor(
+                    None, process.join, self.process_stop_timeout,
+                )
+        finally:
+            if process.is_alive():
+                killed = True
+                process.kill()
+
+        if killed:
             log.warning(
                 f"The process {process.pid} didn't stop for "
                 f"{self.process_stop_timeout} seconds "
                 "and had been killed.",
             )
+            await self.loop.run_in_executor(None, process.join)
+
+    async def stop(self, exception: Optional[Exception] = None) -> Any:
+        await self._terminate()
 
 
 class RespawningProcessService(ProcessService, ABC):
@@ -135,28 +158,36 @@ class RespawningProcessService(ProcessService, ABC):
     _supervisor: PeriodicCallback
 
     async def __supervise(self) -> None:
-        if not hasattr(self, "process"):
-            return
+        if hasattr(self, "process"):
+            process = self.process
 
-        if await self.loop.run_in_executor(None, self.process.is_alive):
-            return
+            if await self.loop.run_in_executor(None, process.is_alive):
+                return
 
-        log.info(
-            "Process in service %r exited with code %r, respawning.",
-            self, self.process.exitcode,
-        )
+            log.info(
+                "Process in service %r exited with code %r, respawning.",
+                self, process.exitcode,
+            )
         await super().start()
 
     async def start(self) -> None:
         await super().start()
+
+        if not hasattr(self, "process"):
+            # It has been stopped in the meantime
+            return
+
         self._supervisor = PeriodicCallback(self.__supervise)
         self._supervisor.start(
             self.process_poll_timeout,
         )
 
     async def stop(self, exception: Optional[Exception] = None) -> Any:
-        await self._supervisor.stop(return_exceptions=True)
-        await super().stop(exception)
+        try:
+            if hasattr(self, "_supervisor"):
+                await self._supervisor.stop(return_exceptions=True)
+        finally:
+            await super().stop(exception)
 
 
 __all__ = ("ProcessService", "RespawningProcessService")
-- 
2.43.0


From e69e9e56c669a3609f54570fab5a58b62b982334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:22 +0000
Subject: [PATCH 49/50] fix: memory tracer service stops its periodic callback

---
 aiomisc/service/tracer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aiomisc/service/tracer.py b/aiomisc/service/tracer.py
index 5260ebe..a0861df 100644
--- a/aiomisc/service/tracer.py
+++ b/aiomisc/service/tracer.py
@@ -98,4 +98,5 @@ class MemoryTracer(Service):
         return self.log_diff(differences)
 
     async def stop(self, exception: Optional[Exception] = None) -> None:
+        await self._tracer.stop(return_exceptions=True)
         tracemalloc.stop()
-- 
2.43.0


From 9780512a36bacee5e89cc6d1286682af07b5ddb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:46 +0000
Subject: [PATCH 50/50] fix: Sentry transport closes when the callback of a
 cancelled event fails

---
 aiomisc/service/raven.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aiomisc/service/raven.py b/aiomisc/service/raven.py
index 5d695f8..59d8947 100644
--- a/aiomisc/service/raven.py
+++ b/aiomisc/service/raven.py
@@ -150,6 +150,12 @@ class AioHttpTransportBase(
             finally:
                 if error is None:
                     callback()
+                elif isinstance(error, asyncio.CancelledError):
+                    # Failed callback must not hide the cancellation
+                    try:
+                        errorback(error)
+                    except Exception:
+                        error_log.exception("Error while dropping the event")
                 else:
                     errorback(error)
 
-- 
2.43.0

