From 487a8736d275cf5035f85fd0edf9cf5acb193cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:59 +0000
Subject: [PATCH 01/37] fix: keep the remaining waiters when a timed condition
 wait expires

When the waiter at the head of the list timed out, the whole list was
dropped and the other waiters could no longer be signalled. Unlink only
the expired waiter.
---
 src/kern/sync/hev-task-cond.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kern/sync/hev-task-cond.c b/src/kern/sync/hev-task-cond.c
index a8a6c77..7dedb3b 100644
--- a/src/kern/sync/hev-task-cond.c
+++ b/src/kern/sync/hev-task-cond.c
@@ -77,7 +77,7 @@ hev_task_cond_timedwait (HevTaskCond *self, HevTaskMutex *mutex,
         if (node.next)
             node.next->prev = node.prev;
         if (self->waiters == &node)
-            self->waiters = NULL;
+            self->waiters = node.next;
         return -1;
     }
 
-- 
2.43.0


From 354b4ff5a61d16596df4fe9322d6b523d9bdb7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:48 +0000
Subject: [PATCH 02/37] fix: forget the joiner when a join has completed

The joiner pointer was never reset, so every later join of the same task
failed, and a task that was run again woke a task that no longer joined
it, which may have ended.
---
 src/kern/task/hev-task.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index 164a318..abd8990 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -206,6 +206,8 @@ hev_task_join (HevTask *task)
         hev_task_yield (HEV_TASK_WAITIO);
     }
 
+    task->joiner = NULL;
+
     return 0;
 }
 
-- 
2.43.0


From 96cc819ea79cd7c7195f315324aea8e5073e309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:18 +0000
Subject: [PATCH 03/37] fix: wake the joiner when a task ends by hev_task_exit

Only a task that returned from its entry woke the task joining it. A task
joining one that called hev_task_exit waited forever.
---
 src/kern/task/hev-task.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index abd8990..3ee092b 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -187,6 +187,11 @@ hev_task_run (HevTask *self, HevTaskEntry entry, void *data)
 EXPORT_SYMBOL void
 hev_task_exit (void)
 {
+    HevTask *self = hev_task_self ();
+
+    if (self->joiner)
+        hev_task_wakeup (self->joiner);
+
     hev_task_system_kill_current_task ();
 }
 
-- 
2.43.0


From d55fa0edf4012d0744ba1f1c2f6ee81433fc2de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:03 +0000
Subject: [PATCH 04/37] fix: close the reactor descriptor when it cannot be set
 up

---
 src/kern/io/hev-task-io-reactor.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kern/io/hev-task-io-reactor.c b/src/kern/io/hev-task-io-reactor.c
index 8abf1d3..4f0d698 100644
--- a/src/kern/io/hev-task-io-reactor.c
+++ b/src/kern/io/hev-task-io-reactor.c
@@ -32,12 +32,14 @@ hev_task_io_reactor_new (void)
 
     flags = fcntl (self->fd, F_GETFD);
     if (flags < 0) {
+        close (self->fd);
         hev_free (self);
         return NULL;
     }
 
     flags |= FD_CLOEXEC;
     if (fcntl (self->fd, F_SETFD, flags) < 0) {
+        close (self->fd);
         hev_free (self);
         return NULL;
     }
-- 
2.43.0


From 7d28a53f0bc4e6dc177cb9d8c1a06889a6eb7c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:03 +0000
Subject: [PATCH 05/37] fix: restore signal handling when the stack detector
 cannot be set up

If one of the steps failed, the steps that had succeeded stayed in effect:
the alternate signal stack pointed into freed memory and the handler
remained installed.
---
 src/lib/misc/hev-task-stack-detector.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lib/misc/hev-task-stack-detector.c b/src/lib/misc/hev-task-stack-detector.c
index ee0e55c..2f181e4 100644
--- a/src/lib/misc/hev-task-stack-detector.c
+++ b/src/lib/misc/hev-task-stack-detector.c
@@ -82,7 +82,6 @@ hev_task_stack_detector_new (void)
 {
     HevTaskStackDetector *self;
     struct sigaction sa;
-    int res = 0;
     stack_t ss;
 
     self = malloc (sizeof (HevTaskStackDetector));
@@ -97,14 +96,19 @@ hev_task_stack_detector_new (void)
     sa.sa_sigaction = signal_handler;
     sigemptyset (&sa.sa_mask);
 
-    res |= setaltstack (&ss, &self->oss);
-    res |= sigaction (SIGBUS, &sa, &self->bus_sa);
-    res |= sigaction (SIGSEGV, &sa, &self->segv_sa);
-    if (res < 0)
+    if (setaltstack (&ss, &self->oss) < 0)
         goto free;
+    if (sigaction (SIGBUS, &sa, &self->bus_sa) < 0)
+        goto rest_stack;
+    if (sigaction (SIGSEGV, &sa, &self->segv_sa) < 0)
+        goto rest_bus;
 
     return self;
 
+rest_bus:
+    sigaction (SIGBUS, &self->bus_sa, NULL);
+rest_stack:
+    setaltstack (&self->oss, NULL);
 free:
     free (self);
 exit:
-- 
2.43.0


From f4d24a22cc3005f0f29078fc90c0935d474b8030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:03 +0000
Subject: [PATCH 06/37] fix: notice when the task system context cannot be set

pthread_setspecific returns a positive error number, so its failure went
unnoticed and the context was used without being set.
---
 src/kern/core/hev-task-system.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kern/core/hev-task-system.c b/src/kern/core/hev-task-system.c
index 10f5761..25b20fe 100644
--- a/src/kern/core/hev-task-system.c
+++ b/src/kern/core/hev-task-system.c
@@ -62,7 +62,7 @@ hev_task_system_init (void)
     if (!context)
         goto exit;
 
-    if (hev_task_system_set_context (context) < 0)
+    if (hev_task_system_set_context (context) != 0)
         goto free_context;
 
     context->reactor = hev_task_io_reactor_new ();
-- 
2.43.0


From 5d6d257217aad23eb5ab377d5b9df27797048f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:03 +0000
Subject: [PATCH 07/37] fix: leave no allocator behind when initialisation
 fails

A second initialisation replaced the allocator of the running system
before it was refused, and a failed one kept the allocator it had made.
---
 src/kern/core/hev-task-system.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/kern/core/hev-task-system.c b/src/kern/core/hev-task-system.c
index 25b20fe..20887a6 100644
--- a/src/kern/core/hev-task-system.c
+++ b/src/kern/core/hev-task-system.c
@@ -46,6 +46,11 @@ hev_task_system_init (void)
     HevMemoryAllocator *allocator = NULL;
     HevTaskSystemContext *context;
 
+    pthread_once (&key_once, pthread_key_creator);
+
+    if (hev_task_system_get_context ())
+        goto exit;
+
 #ifdef ENABLE_MEMALLOC_SLICE
     allocator = hev_memory_allocator_slice_new ();
 #endif
@@ -53,14 +58,9 @@ hev_task_system_init (void)
     if (allocator)
         hev_memory_allocator_unref (allocator);
 
-    pthread_once (&key_once, pthread_key_creator);
-
-    if (hev_task_system_get_context ())
-        goto exit;
-
     context = hev_malloc0 (sizeof (HevTaskSystemContext));
     if (!context)
-        goto exit;
+        goto free_allocator;
 
     if (hev_task_system_set_context (context) != 0)
         goto free_context;
@@ -87,6 +87,10 @@ rest_context:
     hev_task_system_set_context (NULL);
 free_context:
     hev_free (context);
+free_allocator:
+    allocator = hev_memory_allocator_set_default (NULL);
+    if (allocator)
+        hev_memory_allocator_unref (allocator);
 exit:
     return -1;
 }
-- 
2.43.0


From 339ae0e7e3e6ebcaa1385269f320f7bfadb8e17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:03 +0000
Subject: [PATCH 08/37] fix: fail an allocation when there is no memory for the
 default allocator

hev_malloc and its relatives used the default allocator without checking
that it could be created.
---
 src/mem/api/hev-memory-allocator-api.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mem/api/hev-memory-allocator-api.c b/src/mem/api/hev-memory-allocator-api.c
index cdc5b25..d60cbca 100644
--- a/src/mem/api/hev-memory-allocator-api.c
+++ b/src/mem/api/hev-memory-allocator-api.c
@@ -20,6 +20,9 @@ hev_malloc (size_t size)
     HevMemoryAllocator *allocator;
 
     allocator = hev_memory_allocator_default ();
+    if (!allocator)
+        return NULL;
+
     return hev_memory_allocator_alloc (allocator, size);
 }
 
@@ -30,6 +33,9 @@ hev_malloc0 (size_t size)
     void *data;
 
     allocator = hev_memory_allocator_default ();
+    if (!allocator)
+        return NULL;
+
     data = hev_memory_allocator_alloc (allocator, size);
     if (data)
         memset (data, 0, size);
@@ -47,6 +53,9 @@ hev_calloc (size_t nmemb, size_t size)
 
     size *= nmemb;
     allocator = hev_memory_allocator_default ();
+    if (!allocator)
+        return NULL;
+
     data = hev_memory_allocator_alloc (allocator, size);
     if (data)
         memset (data, 0, size);
@@ -59,6 +68,9 @@ hev_realloc (void *ptr, size_t size)
     HevMemoryAllocator *allocator;
 
     allocator = hev_memory_allocator_default ();
+    if (!allocator)
+        return NULL;
+
     return hev_memory_allocator_realloc (allocator, ptr, size);
 }
 
-- 
2.43.0


From f76d0cef0a67a3f10dedc81e3443fd77d5e0967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:41 +0000
Subject: [PATCH 09/37] fix: do not lose an allocator that cannot be made the
 default

When the thread-specific slot could not be set, the allocator meant to be
the default was neither used nor released.
---
 src/mem/base/hev-memory-allocator.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mem/base/hev-memory-allocator.c b/src/mem/base/hev-memory-allocator.c
index 7262928..6e2186d 100644
--- a/src/mem/base/hev-memory-allocator.c
+++ b/src/mem/base/hev-memory-allocator.c
@@ -35,7 +35,10 @@ hev_memory_allocator_default (void)
     allocator = pthread_getspecific (key);
     if (!allocator) {
         allocator = hev_memory_allocator_simple_new ();
-        pthread_setspecific (key, allocator);
+        if (allocator && pthread_setspecific (key, allocator) != 0) {
+            hev_memory_allocator_unref (allocator);
+            return NULL;
+        }
     }
 
     return allocator;
@@ -49,7 +52,8 @@ hev_memory_allocator_set_default (HevMemoryAllocator *allocator)
     pthread_once (&key_once, pthread_key_creator);
 
     old_allocator = pthread_getspecific (key);
-    pthread_setspecific (key, allocator);
+    if (pthread_setspecific (key, allocator) != 0)
+        return allocator;
 
     return old_allocator;
 }
-- 
2.43.0


From 4750ecb4dced366d6cda8a334d659932751a26eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:41 +0000
Subject: [PATCH 10/37] fix: do not mark the guard of a heap stack that could
 not be allocated

---
 src/kern/task/hev-task-stack-heap.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kern/task/hev-task-stack-heap.c b/src/kern/task/hev-task-stack-heap.c
index 63d9ffc..91a4a10 100644
--- a/src/kern/task/hev-task-stack-heap.c
+++ b/src/kern/task/hev-task-stack-heap.c
@@ -70,8 +70,10 @@ hev_task_stack_new (int size)
 
     size += STACK_OVERFLOW_DETECTION_SIZE;
     self = hev_malloc (sizeof (HevTaskStack) + size);
-    if (self)
-        self->size = size;
+    if (!self)
+        return NULL;
+
+    self->size = size;
 
     hev_task_stack_detection_mark (self);
     return self;
-- 
2.43.0


From 09d6be3489cf2c2a3a92c93b64b3f0fa8949233b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:41 +0000
Subject: [PATCH 11/37] fix: give heap stacks the requested size

The header and the alignment of the bottom were taken from the requested
size, so the stack was up to 19 bytes smaller than asked for.
---
 src/kern/task/hev-task-stack-heap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kern/task/hev-task-stack-heap.c b/src/kern/task/hev-task-stack-heap.c
index 91a4a10..d43cb4f 100644
--- a/src/kern/task/hev-task-stack-heap.c
+++ b/src/kern/task/hev-task-stack-heap.c
@@ -68,7 +68,8 @@ hev_task_stack_new (int size)
 {
     HevTaskStack *self;
 
-    size += STACK_OVERFLOW_DETECTION_SIZE;
+    /* make room for the header and the alignment of the bottom */
+    size += sizeof (HevTaskStack) + STACK_OVERFLOW_DETECTION_SIZE + 15;
     self = hev_malloc (sizeof (HevTaskStack) + size);
     if (!self)
         return NULL;
-- 
2.43.0


From 7ce428a3b3987103b51a550e1ae0fb6af2f5b444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:16 +0000
Subject: [PATCH 12/37] fix: carry into the seconds when the expiry hits a full
 second

A nanosecond field of exactly 1000000000 was left as is, the timer was
refused by the system and the process aborted.
---
 src/kern/time/hev-task-timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kern/time/hev-task-timer.c b/src/kern/time/hev-task-timer.c
index cf212cc..b4ab061 100644
--- a/src/kern/time/hev-task-timer.c
+++ b/src/kern/time/hev-task-timer.c
@@ -60,7 +60,7 @@ hev_task_timer_get_expire (struct timespec *expire, unsigned int microseconds)
 
     expire->tv_sec += microseconds / 1000000;
     expire->tv_nsec += (microseconds % 1000000) * 1000;
-    if (expire->tv_nsec > 1000000000L) {
+    if (expire->tv_nsec >= 1000000000L) {
         expire->tv_sec++;
         expire->tv_nsec -= 1000000000L;
     }
-- 
2.43.0


From f9fe00e9522e8830893c56bc947712b6fc6a071f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:02 +0000
Subject: [PATCH 13/37] fix: keep sleep times in 64-bit microseconds

hev_task_sleep multiplied the milliseconds by 1000 in 32 bits, so that a
sleep of 4294968 ms or more ended early.
---
 src/kern/task/hev-task.c       | 11 ++++++++++-
 src/kern/time/hev-task-timer.c | 11 +++++------
 src/kern/time/hev-task-timer.h |  4 ++--
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index 3ee092b..36a14ad 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -154,7 +154,16 @@ hev_task_yield (HevTaskYieldType type)
 EXPORT_SYMBOL unsigned int
 hev_task_sleep (unsigned int milliseconds)
 {
-    return hev_task_usleep (milliseconds * 1000) / 1000;
+    HevTaskSystemContext *ctx;
+    uint64_t microseconds;
+
+    if (milliseconds == 0)
+        return 0;
+
+    ctx = hev_task_system_get_context ();
+    microseconds = (uint64_t)milliseconds * 1000;
+    return hev_task_timer_wait (ctx->timer, microseconds, ctx->current_task) /
+           1000;
 }
 
 EXPORT_SYMBOL unsigned int
diff --git a/src/kern/time/hev-task-timer.c b/src/kern/time/hev-task-timer.c
index b4ab061..5ce2f06 100644
--- a/src/kern/time/hev-task-timer.c
+++ b/src/kern/time/hev-task-timer.c
@@ -53,7 +53,7 @@ hev_task_timer_node_compare (HevTaskTimerNode *a, HevTaskTimerNode *b)
 }
 
 static inline void
-hev_task_timer_get_expire (struct timespec *expire, unsigned int microseconds)
+hev_task_timer_get_expire (struct timespec *expire, uint64_t microseconds)
 {
     if (clock_gettime (CLOCK_MONOTONIC, expire) < 0)
         abort ();
@@ -66,7 +66,7 @@ hev_task_timer_get_expire (struct timespec *expire, unsigned int microseconds)
     }
 }
 
-static inline unsigned int
+static inline uint64_t
 hev_task_timer_get_time (const struct timespec *expire)
 {
     struct timespec curr;
@@ -86,12 +86,11 @@ hev_task_timer_get_time (const struct timespec *expire)
     if (sec < 0)
         return 0;
 
-    return (sec * 1000000) + (nsec / 1000);
+    return ((uint64_t)sec * 1000000) + (nsec / 1000);
 }
 
-unsigned int
-hev_task_timer_wait (HevTaskTimer *self, unsigned int microseconds,
-                     HevTask *task)
+uint64_t
+hev_task_timer_wait (HevTaskTimer *self, uint64_t microseconds, HevTask *task)
 {
     HevTaskTimerNode curr_node, *node = &curr_node;
     HevRBTreeNode **new = &self->sort_tree.base.root, *parent = NULL;
diff --git a/src/kern/time/hev-task-timer.h b/src/kern/time/hev-task-timer.h
index 68d100a..a7536f1 100644
--- a/src/kern/time/hev-task-timer.h
+++ b/src/kern/time/hev-task-timer.h
@@ -24,7 +24,7 @@ struct _HevTaskTimer
 HevTaskTimer *hev_task_timer_new (void);
 void hev_task_timer_destroy (HevTaskTimer *self);
 
-unsigned int hev_task_timer_wait (HevTaskTimer *self, unsigned int milliseconds,
-                                  HevTask *task);
+uint64_t hev_task_timer_wait (HevTaskTimer *self, uint64_t microseconds,
+                              HevTask *task);
 
 #endif /* __HEV_TASK_TIMER_H__ */
-- 
2.43.0


From 693a0b745c0ee5acc58cda05bbbb6fee53f2dfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:37:20 +0000
Subject: [PATCH 14/37] fix: refuse block sizes the slice allocator cannot
 represent

Sizes of 2^38 bytes or more were cut to the index of a small slice and could
be served from the cache. Resizing to a size just below SIZE_MAX wrapped to
an empty block.
---
 src/mem/slice/hev-memory-allocator-slice.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mem/slice/hev-memory-allocator-slice.c b/src/mem/slice/hev-memory-allocator-slice.c
index 4e14210..0bb8440 100644
--- a/src/mem/slice/hev-memory-allocator-slice.c
+++ b/src/mem/slice/hev-memory-allocator-slice.c
@@ -88,7 +88,7 @@ _hev_memory_allocator_alloc (HevMemoryAllocator *allocator, size_t size)
 {
     HevMemoryAllocatorSlice *self = (HevMemoryAllocatorSlice *)allocator;
     HevMemorySlice *slice, **owner;
-    int index;
+    size_t index;
 
     size = ALIGN_UP (size, CACHED_SLICE_ALIGN);
     index = size / CACHED_SLICE_ALIGN;
@@ -140,7 +140,7 @@ _hev_memory_allocator_realloc (HevMemoryAllocator *allocator, void *ptr,
                                size_t size)
 {
     HevMemorySlice *slice;
-    int index;
+    size_t index;
 
     if (0 == size) {
         _hev_memory_allocator_free (allocator, ptr);
@@ -149,6 +149,8 @@ _hev_memory_allocator_realloc (HevMemoryAllocator *allocator, void *ptr,
 
     slice = (HevMemorySlice *)ptr - 1;
     size = ALIGN_UP (size, CACHED_SLICE_ALIGN);
+    if (0 == size)
+        return NULL;
     index = size / CACHED_SLICE_ALIGN;
 
     slice = realloc (slice, sizeof (HevMemorySlice) + size);
-- 
2.43.0


From 11188fcb006f36e563e7ab656bbee765c4bc0356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:37:20 +0000
Subject: [PATCH 15/37] fix: check the array size in hev_calloc for overflow

---
 src/mem/api/hev-memory-allocator-api.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mem/api/hev-memory-allocator-api.c b/src/mem/api/hev-memory-allocator-api.c
index d60cbca..4d85356 100644
--- a/src/mem/api/hev-memory-allocator-api.c
+++ b/src/mem/api/hev-memory-allocator-api.c
@@ -51,6 +51,9 @@ hev_calloc (size_t nmemb, size_t size)
     if (!nmemb || !size)
         return NULL;
 
+    if (nmemb > (size_t)-1 / size)
+        return NULL;
+
     size *= nmemb;
     allocator = hev_memory_allocator_default ();
     if (!allocator)
-- 
2.43.0


From 96bd95750b2bda6767884f4e6698977acaea0f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:37:20 +0000
Subject: [PATCH 16/37] fix: refuse circular buffer capacities that overflow

---
 src/lib/io/buffer/hev-circular-buffer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/io/buffer/hev-circular-buffer.c b/src/lib/io/buffer/hev-circular-buffer.c
index 4d78c1d..e89135e 100644
--- a/src/lib/io/buffer/hev-circular-buffer.c
+++ b/src/lib/io/buffer/hev-circular-buffer.c
@@ -27,6 +27,9 @@ hev_circular_buffer_new (size_t max_size)
 {
     HevCircularBuffer *self;
 
+    if (max_size > (size_t)-1 - sizeof (HevCircularBuffer))
+        return NULL;
+
     self = hev_malloc (sizeof (HevCircularBuffer) + max_size);
     if (!self)
         return NULL;
-- 
2.43.0


From f944732e7fd78be1a0f5c06d959eea31f8e81230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:37:53 +0000
Subject: [PATCH 17/37] fix: offer no space in a circular buffer of capacity
 zero

The position was computed modulo the capacity before the buffer was found
to be full, which divides by zero.
---
 src/lib/io/buffer/hev-circular-buffer.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/buffer/hev-circular-buffer.c b/src/lib/io/buffer/hev-circular-buffer.c
index e89135e..80624eb 100644
--- a/src/lib/io/buffer/hev-circular-buffer.c
+++ b/src/lib/io/buffer/hev-circular-buffer.c
@@ -102,13 +102,16 @@ hev_circular_buffer_read_finish (HevCircularBuffer *self, size_t size)
 EXPORT_SYMBOL int
 hev_circular_buffer_writing (HevCircularBuffer *self, struct iovec *iov)
 {
-    size_t wp = (self->rp + self->use_size) % self->max_size;
-    size_t upper_size = self->max_size - wp;
+    size_t wp;
+    size_t upper_size;
     size_t spc_size = self->max_size - self->use_size;
 
     if (self->use_size == self->max_size)
         return 0;
 
+    wp = (self->rp + self->use_size) % self->max_size;
+    upper_size = self->max_size - wp;
+
     iov[0].iov_base = self->data + wp;
     if (spc_size <= upper_size) {
         iov[0].iov_len = spc_size;
-- 
2.43.0


From 8deb1197977f65de25c5b99d060c3ee9a98aee98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:37:53 +0000
Subject: [PATCH 18/37] fix: refuse channel sizes that overflow

The memory for the messages was computed in 32 bits and could come out
smaller than the messages need.
---
 src/kern/itc/hev-task-channel.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index 3855471..3023393 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -28,12 +28,23 @@ hev_task_channel_new_with_buffers (HevTaskChannel **chan1,
                                    unsigned int buffers)
 {
     HevTaskChannel *c1, *c2;
-    unsigned int buffers_size;
-    unsigned int data_size = 0;
+    size_t item_size = sizeof (HevTaskChannelBuffer);
+    size_t buffers_size;
+    size_t data_size = 0;
+
+    if (buffers > 0) {
+        if (size > (size_t)-1 - item_size)
+            goto err0;
+        item_size += size;
+    }
+    if (buffers >= ((size_t)-1 - sizeof (HevTaskChannel)) / item_size)
+        goto err0;
 
     buffers += 1;
+    if (buffers == 0)
+        goto err0;
     if (buffers > 1)
-        data_size = size * buffers;
+        data_size = (size_t)size * buffers;
     buffers_size = sizeof (HevTaskChannelBuffer) * buffers;
 
     c1 = hev_malloc (sizeof (HevTaskChannel) + buffers_size + data_size);
@@ -60,8 +71,10 @@ hev_task_channel_new_with_buffers (HevTaskChannel **chan1,
         unsigned int i;
 
         for (i = 0; i < buffers; i++) {
-            c1->buffers[i].data = (void *)c1->buffers + buffers_size + size * i;
-            c2->buffers[i].data = (void *)c2->buffers + buffers_size + size * i;
+            c1->buffers[i].data =
+                (void *)c1->buffers + buffers_size + (size_t)size * i;
+            c2->buffers[i].data =
+                (void *)c2->buffers + buffers_size + (size_t)size * i;
         }
     }
 
-- 
2.43.0


From 700d321bc291bb412f5f86ff416e21c06d9a5189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:32 +0000
Subject: [PATCH 19/37] fix: remember the tasks waiting on a channel per
 direction and only while they wait

A reader and a writer waiting on the same end shared one field, so that one
of them was never woken. The field also kept pointing to tasks that had long
stopped waiting and might have been released, and these were woken.
---
 src/kern/itc/hev-task-channel-private.h       |  3 +-
 .../itc/hev-task-channel-select-private.h     |  4 +++
 src/kern/itc/hev-task-channel-select.c        |  4 +--
 src/kern/itc/hev-task-channel.c               | 29 ++++++++++++-------
 4 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/kern/itc/hev-task-channel-private.h b/src/kern/itc/hev-task-channel-private.h
index 7ca6487..3991173 100644
--- a/src/kern/itc/hev-task-channel-private.h
+++ b/src/kern/itc/hev-task-channel-private.h
@@ -52,7 +52,8 @@ struct _HevTaskChannel
     } write;
     HevListNode chan_node;
 
-    HevTask *task;
+    HevTask *rd_task;
+    HevTask *wr_task;
     HevTaskChannelSelect *select;
 
     unsigned int rd_idx;
diff --git a/src/kern/itc/hev-task-channel-select-private.h b/src/kern/itc/hev-task-channel-select-private.h
index 13ce324..f7129e1 100644
--- a/src/kern/itc/hev-task-channel-select-private.h
+++ b/src/kern/itc/hev-task-channel-select-private.h
@@ -39,6 +39,8 @@ hev_task_channel_select_add_read (HevTaskChannelSelect *self,
 
     chan->read.used = 1;
     hev_list_add_tail (&self->read_list, &chan->read.node);
+    if (self->task)
+        hev_task_wakeup (self->task);
 }
 
 static inline void
@@ -61,6 +63,8 @@ hev_task_channel_select_add_write (HevTaskChannelSelect *self,
 
     chan->write.used = 1;
     hev_list_add_tail (&self->write_list, &chan->write.node);
+    if (self->task)
+        hev_task_wakeup (self->task);
 }
 
 static inline void
diff --git a/src/kern/itc/hev-task-channel-select.c b/src/kern/itc/hev-task-channel-select.c
index 5993882..e92bfb5 100644
--- a/src/kern/itc/hev-task-channel-select.c
+++ b/src/kern/itc/hev-task-channel-select.c
@@ -33,7 +33,6 @@ EXPORT_SYMBOL void
 hev_task_channel_select_add (HevTaskChannelSelect *self, HevTaskChannel *chan)
 {
     chan->select = self;
-    chan->task = hev_task_self ();
 
     hev_list_add_tail (&self->chan_list, &chan->chan_node);
     if (hev_task_channel_is_readable (chan))
@@ -49,7 +48,6 @@ hev_task_channel_select_del (HevTaskChannelSelect *self, HevTaskChannel *chan)
     hev_task_channel_select_del_write (self, chan);
     hev_list_del (&self->chan_list, &chan->chan_node);
 
-    chan->task = NULL;
     chan->select = NULL;
 }
 
@@ -63,12 +61,14 @@ hev_task_channel_select (HevTaskChannelSelect *self, HevList *list, int timeout)
         return NULL;
 
     while (!(node = hev_list_first (list)) && milliseconds) {
+        WRITE_ONCE (self->task, hev_task_self ());
         barrier ();
         if (timeout < 0)
             hev_task_yield (HEV_TASK_WAITIO);
         else
             milliseconds = hev_task_sleep (milliseconds);
         barrier ();
+        WRITE_ONCE (self->task, NULL);
     }
 
     return node;
diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index 3023393..8dd4844 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -112,11 +112,15 @@ hev_task_channel_destroy (HevTaskChannel *self)
 {
     if (self->peer) {
         self->peer->peer = NULL;
-        if (self->peer->task)
-            hev_task_wakeup (self->peer->task);
+        if (self->peer->rd_task)
+            hev_task_wakeup (self->peer->rd_task);
+        if (self->peer->wr_task)
+            hev_task_wakeup (self->peer->wr_task);
     }
-    if (self->task)
-        hev_task_wakeup (self->task);
+    if (self->rd_task)
+        hev_task_wakeup (self->rd_task);
+    if (self->wr_task)
+        hev_task_wakeup (self->wr_task);
 
     hev_task_channel_unref (self);
 }
@@ -161,8 +165,9 @@ hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
         if (!hev_task_channel_is_active (self))
             goto out;
 
-        WRITE_ONCE (self->task, hev_task_self ());
+        WRITE_ONCE (self->rd_task, hev_task_self ());
         hev_task_yield (HEV_TASK_WAITIO);
+        WRITE_ONCE (self->rd_task, NULL);
     }
 
     barrier ();
@@ -180,8 +185,8 @@ hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
         if (peer) {
             if (peer->select)
                 hev_task_channel_select_add_write (peer->select, peer);
-            if (peer->task)
-                hev_task_wakeup (peer->task);
+            if (peer->wr_task)
+                hev_task_wakeup (peer->wr_task);
         }
     }
 
@@ -211,8 +216,9 @@ hev_task_channel_write (HevTaskChannel *self, const void *buffer, size_t count)
         if (!hev_task_channel_is_active (self))
             goto out1;
 
-        WRITE_ONCE (self->task, hev_task_self ());
+        WRITE_ONCE (self->wr_task, hev_task_self ());
         hev_task_yield (HEV_TASK_WAITIO);
+        WRITE_ONCE (self->wr_task, NULL);
     }
 
     barrier ();
@@ -232,8 +238,8 @@ hev_task_channel_write (HevTaskChannel *self, const void *buffer, size_t count)
     if (peer->use_count == 0) {
         if (peer->select)
             hev_task_channel_select_add_read (peer->select, peer);
-        if (peer->task)
-            hev_task_wakeup (peer->task);
+        if (peer->rd_task)
+            hev_task_wakeup (peer->rd_task);
     }
 
     peer->use_count++;
@@ -248,8 +254,9 @@ hev_task_channel_write (HevTaskChannel *self, const void *buffer, size_t count)
             break;
         }
 
-        WRITE_ONCE (self->task, hev_task_self ());
+        WRITE_ONCE (self->wr_task, hev_task_self ());
         hev_task_yield (HEV_TASK_WAITIO);
+        WRITE_ONCE (self->wr_task, NULL);
     }
 
     barrier ();
-- 
2.43.0


From 4e2788131c0b94c47336eaa11787ef7026da26c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:45 +0000
Subject: [PATCH 20/37] fix: report a channel as writable again whenever it
 gets room

---
 src/kern/itc/hev-task-channel.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/kern/itc/hev-task-channel.c b/src/kern/itc/hev-task-channel.c
index 8dd4844..184cd78 100644
--- a/src/kern/itc/hev-task-channel.c
+++ b/src/kern/itc/hev-task-channel.c
@@ -182,15 +182,14 @@ hev_task_channel_read (HevTaskChannel *self, void *buffer, size_t count)
     if (self->use_count == self->max_count) {
         HevTaskChannel *peer = self->peer;
 
-        if (peer) {
-            if (peer->select)
-                hev_task_channel_select_add_write (peer->select, peer);
-            if (peer->wr_task)
-                hev_task_wakeup (peer->wr_task);
-        }
+        if (peer && peer->wr_task)
+            hev_task_wakeup (peer->wr_task);
     }
 
     self->use_count--;
+    if (self->peer && self->peer->select &&
+        hev_task_channel_is_select_writable (self))
+        hev_task_channel_select_add_write (self->peer->select, self->peer);
     if (self->select && !hev_task_channel_is_readable (self))
         hev_task_channel_select_del_read (self->select, self);
 
-- 
2.43.0


From 5c0db56ee9c1acbabf23f391727684fd11d44cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:31 +0000
Subject: [PATCH 21/37] fix: hand on the address size, control size and flags
 of a received message

---
 src/lib/io/socket/hev-task-io-socket.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib/io/socket/hev-task-io-socket.c b/src/lib/io/socket/hev-task-io-socket.c
index 7ca7ca5..7eb8e6f 100644
--- a/src/lib/io/socket/hev-task-io-socket.c
+++ b/src/lib/io/socket/hev-task-io-socket.c
@@ -290,6 +290,12 @@ retry:
         goto retry;
     }
 
+    if (s >= 0 && !size) {
+        msg->msg_namelen = mh.msg_namelen;
+        msg->msg_controllen = mh.msg_controllen;
+        msg->msg_flags = mh.msg_flags;
+    }
+
     if (!(flags & MSG_WAITALL))
         return s;
 
@@ -313,6 +319,10 @@ retry:
 
         mh.msg_iov += i;
         mh.msg_iovlen -= i;
+        mh.msg_name = NULL;
+        mh.msg_namelen = 0;
+        mh.msg_control = NULL;
+        mh.msg_controllen = 0;
 
         goto retry;
     }
-- 
2.43.0


From 9cacc8be4654cff59598af49242307c6dcf6d4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:03:06 +0000
Subject: [PATCH 22/37] fix: send the control data of a message only once

---
 src/lib/io/socket/hev-task-io-socket.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/io/socket/hev-task-io-socket.c b/src/lib/io/socket/hev-task-io-socket.c
index 7eb8e6f..c70bac5 100644
--- a/src/lib/io/socket/hev-task-io-socket.c
+++ b/src/lib/io/socket/hev-task-io-socket.c
@@ -387,6 +387,8 @@ retry:
 
         mh.msg_iov += i;
         mh.msg_iovlen -= i;
+        mh.msg_control = NULL;
+        mh.msg_controllen = 0;
 
         goto retry;
     }
-- 
2.43.0


From bb3792347327621ab579dbd914e71e4c1951ce2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:19 +0000
Subject: [PATCH 23/37] fix: pass the mode on when opening an unnamed temporary
 file

---
 src/lib/io/basic/hev-task-io.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/basic/hev-task-io.c b/src/lib/io/basic/hev-task-io.c
index 51000f3..a8b4997 100644
--- a/src/lib/io/basic/hev-task-io.c
+++ b/src/lib/io/basic/hev-task-io.c
@@ -42,12 +42,23 @@ struct _HevTaskIOSplicer
 #endif /* !ENABLE_IO_SPLICE_SYSCALL */
 };
 
+static int
+task_io_open_needs_mode (int flags)
+{
+#ifdef O_TMPFILE
+    if ((O_TMPFILE & flags) == O_TMPFILE)
+        return 1;
+#endif /* O_TMPFILE */
+
+    return O_CREAT & flags;
+}
+
 EXPORT_SYMBOL int
 hev_task_io_open (const char *pathname, int flags, ...)
 {
     flags |= O_NONBLOCK;
 
-    if (O_CREAT & flags) {
+    if (task_io_open_needs_mode (flags)) {
         int fd;
         va_list ap;
 
@@ -72,7 +83,7 @@ hev_task_io_openat (int dirfd, const char *pathname, int flags, ...)
 {
     flags |= O_NONBLOCK;
 
-    if (O_CREAT & flags) {
+    if (task_io_open_needs_mode (flags)) {
         int fd;
         va_list ap;
 
-- 
2.43.0


From 62276deea661a15b3b3313b790ba772cce244ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:29 +0000
Subject: [PATCH 24/37] fix: keep the caller's descriptor when duplicating it
 onto itself fails

---
 src/lib/io/basic/hev-task-io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/basic/hev-task-io.c b/src/lib/io/basic/hev-task-io.c
index a8b4997..ef5de59 100644
--- a/src/lib/io/basic/hev-task-io.c
+++ b/src/lib/io/basic/hev-task-io.c
@@ -125,7 +125,8 @@ hev_task_io_dup2 (int oldfd, int newfd)
         return -1;
 
     if (0 > ioctl (newfd, FIONBIO, (char *)&nonblock)) {
-        close (newfd);
+        if (newfd != oldfd)
+            close (newfd);
         return -2;
     }
 
-- 
2.43.0


From d102ccac6565568feab620a11afe91e5f90446f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:42:16 +0000
Subject: [PATCH 25/37] fix: round the remaining sleep time up

hev_task_sleep and hev_task_usleep return zero only if the requested time
has elapsed. Rounding the rest down made them return zero up to a unit
early, so timed waits and polls ended before their time.
---
 src/kern/task/hev-task.c       | 5 +++--
 src/kern/time/hev-task-timer.c | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kern/task/hev-task.c b/src/kern/task/hev-task.c
index 36a14ad..259d4a9 100644
--- a/src/kern/task/hev-task.c
+++ b/src/kern/task/hev-task.c
@@ -162,8 +162,9 @@ hev_task_sleep (unsigned int milliseconds)
 
     ctx = hev_task_system_get_context ();
     microseconds = (uint64_t)milliseconds * 1000;
-    return hev_task_timer_wait (ctx->timer, microseconds, ctx->current_task) /
-           1000;
+    microseconds =
+        hev_task_timer_wait (ctx->timer, microseconds, ctx->current_task);
+    return (microseconds + 999) / 1000;
 }
 
 EXPORT_SYMBOL unsigned int
diff --git a/src/kern/time/hev-task-timer.c b/src/kern/time/hev-task-timer.c
index 5ce2f06..ffbf6bc 100644
--- a/src/kern/time/hev-task-timer.c
+++ b/src/kern/time/hev-task-timer.c
@@ -86,7 +86,7 @@ hev_task_timer_get_time (const struct timespec *expire)
     if (sec < 0)
         return 0;
 
-    return ((uint64_t)sec * 1000000) + (nsec / 1000);
+    return ((uint64_t)sec * 1000000) + (nsec + 999) / 1000;
 }
 
 uint64_t
-- 
2.43.0


From d9ea9f29557c7444a4d116bea1697c241d3082c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:42:17 +0000
Subject: [PATCH 26/37] fix: poll before waiting for descriptor events

Readiness that is already there may not be reported as an event again,
for instance for a descriptor that cannot be waited for, and a failing
poll call must not wait at all.
---
 src/lib/io/poll/hev-task-io-poll.c | 39 +++++++++++++++---------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/lib/io/poll/hev-task-io-poll.c b/src/lib/io/poll/hev-task-io-poll.c
index d82421a..48b56d9 100644
--- a/src/lib/io/poll/hev-task-io-poll.c
+++ b/src/lib/io/poll/hev-task-io-poll.c
@@ -15,30 +15,29 @@
 EXPORT_SYMBOL int
 hev_task_io_poll (HevTaskIOPollFD fds[], unsigned int nfds, int timeout)
 {
+    HevTask *task = hev_task_self ();
+    unsigned int i;
     int res;
 
-    if (timeout == 0) {
-        res = poll (fds, nfds, 0);
-    } else {
-        HevTask *task = hev_task_self ();
-        unsigned int i;
+    res = poll (fds, nfds, 0);
+    if (timeout == 0 || res != 0)
+        return res;
 
-        for (i = 0; i < nfds; i++) {
-            if (hev_task_mod_fd (task, fds[i].fd, fds[i].events) < 0)
-                hev_task_add_fd (task, fds[i].fd, fds[i].events);
-        }
+    for (i = 0; i < nfds; i++) {
+        if (hev_task_mod_fd (task, fds[i].fd, fds[i].events) < 0)
+            hev_task_add_fd (task, fds[i].fd, fds[i].events);
+    }
 
-        if (timeout > 0) {
-            do {
-                timeout = hev_task_sleep (timeout);
-                res = poll (fds, nfds, 0);
-            } while (timeout > 0 && res == 0);
-        } else {
-            do {
-                hev_task_yield (HEV_TASK_WAITIO);
-                res = poll (fds, nfds, 0);
-            } while (res == 0);
-        }
+    if (timeout > 0) {
+        do {
+            timeout = hev_task_sleep (timeout);
+            res = poll (fds, nfds, 0);
+        } while (timeout > 0 && res == 0);
+    } else {
+        do {
+            hev_task_yield (HEV_TASK_WAITIO);
+            res = poll (fds, nfds, 0);
+        } while (res == 0);
     }
 
     return res;
-- 
2.43.0


From 85b4db718e0a2a3c1e68e5aeaa642336c15b1808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:42:17 +0000
Subject: [PATCH 27/37] fix: register all events of polled descriptors or fail

A descriptor listed twice kept the events of its last entry only, ignored
entries with a negative descriptor were registered, and a failed
registration left the task waiting for events that never come.
---
 src/lib/io/poll/hev-task-io-poll.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/poll/hev-task-io-poll.c b/src/lib/io/poll/hev-task-io-poll.c
index 48b56d9..d041b6e 100644
--- a/src/lib/io/poll/hev-task-io-poll.c
+++ b/src/lib/io/poll/hev-task-io-poll.c
@@ -7,6 +7,8 @@
  ============================================================================
  */
 
+#include <errno.h>
+
 #include "kern/task/hev-task.h"
 #include "lib/misc/hev-compiler.h"
 
@@ -16,7 +18,7 @@ EXPORT_SYMBOL int
 hev_task_io_poll (HevTaskIOPollFD fds[], unsigned int nfds, int timeout)
 {
     HevTask *task = hev_task_self ();
-    unsigned int i;
+    unsigned int i, j;
     int res;
 
     res = poll (fds, nfds, 0);
@@ -24,8 +26,21 @@ hev_task_io_poll (HevTaskIOPollFD fds[], unsigned int nfds, int timeout)
         return res;
 
     for (i = 0; i < nfds; i++) {
-        if (hev_task_mod_fd (task, fds[i].fd, fds[i].events) < 0)
-            hev_task_add_fd (task, fds[i].fd, fds[i].events);
+        unsigned int events = fds[i].events;
+
+        if (fds[i].fd < 0)
+            continue;
+
+        for (j = 0; j < i; j++) {
+            if (fds[j].fd == fds[i].fd)
+                events |= fds[j].events;
+        }
+
+        if (hev_task_mod_fd (task, fds[i].fd, events) < 0) {
+            /* EPERM: always ready for the same events, nothing to wait for */
+            if (hev_task_add_fd (task, fds[i].fd, events) < 0 && errno != EPERM)
+                return -1;
+        }
     }
 
     if (timeout > 0) {
-- 
2.43.0


From 6aa45670788ed50bb1d3490e5b46ce193aef6013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:58:09 +0000
Subject: [PATCH 28/37] fix: skip empty parts of vectored reads and writes in
 the buffer cio

An empty part ended the request: with an empty first part a read returned
zero, which means the end of the stream, although bytes were there.
---
 src/lib/cio/buffer/hev-task-cio-buffer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/cio/buffer/hev-task-cio-buffer.c b/src/lib/cio/buffer/hev-task-cio-buffer.c
index 1af7e63..c6b197a 100644
--- a/src/lib/cio/buffer/hev-task-cio-buffer.c
+++ b/src/lib/cio/buffer/hev-task-cio-buffer.c
@@ -219,6 +219,9 @@ _hev_task_cio_buffer_readv (HevTaskCIO *base, const struct iovec *iov,
         const struct iovec *v = &iov[i];
         ssize_t res;
 
+        if (!v->iov_len)
+            continue;
+
         res = _hev_task_cio_buffer_read (base, v->iov_base, v->iov_len);
         if (res <= 0) {
             if (size)
@@ -249,6 +252,9 @@ _hev_task_cio_buffer_writev (HevTaskCIO *base, const struct iovec *iov,
         const struct iovec *v = &iov[i];
         ssize_t res;
 
+        if (!v->iov_len)
+            continue;
+
         res = _hev_task_cio_buffer_write (base, v->iov_base, v->iov_len);
         if (res <= 0) {
             if (size)
-- 
2.43.0


From cb4d1b784b64ea040702f6584c580c37135ab443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:58:09 +0000
Subject: [PATCH 29/37] fix: do not lose errors behind partial vectored
 transfers of the buffer cio

When a part had emptied (or filled) the buffer, the next part asked the
layer below again and its failure was dropped in favour of the byte count.
Return the bytes moved so far first, so that the failure is seen by the
next call.
---
 src/lib/cio/buffer/hev-task-cio-buffer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/cio/buffer/hev-task-cio-buffer.c b/src/lib/cio/buffer/hev-task-cio-buffer.c
index c6b197a..748513f 100644
--- a/src/lib/cio/buffer/hev-task-cio-buffer.c
+++ b/src/lib/cio/buffer/hev-task-cio-buffer.c
@@ -221,6 +221,8 @@ _hev_task_cio_buffer_readv (HevTaskCIO *base, const struct iovec *iov,
 
         if (!v->iov_len)
             continue;
+        if (size && !hev_circular_buffer_get_use_size (self->rbuf))
+            break;
 
         res = _hev_task_cio_buffer_read (base, v->iov_base, v->iov_len);
         if (res <= 0) {
@@ -254,6 +256,9 @@ _hev_task_cio_buffer_writev (HevTaskCIO *base, const struct iovec *iov,
 
         if (!v->iov_len)
             continue;
+        if (size && hev_circular_buffer_get_use_size (self->wbuf) ==
+                        hev_circular_buffer_get_max_size (self->wbuf))
+            break;
 
         res = _hev_task_cio_buffer_write (base, v->iov_base, v->iov_len);
         if (res <= 0) {
-- 
2.43.0


From 4a6e0a9190701b373c00a29233a9347820715bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:58:26 +0000
Subject: [PATCH 30/37] fix: flush the buffer cio until the layer below would
 block

A partial write of the layer below was reported as would-block, so the
task waited for an event although the layer could take more.
---
 src/lib/cio/buffer/hev-task-cio-buffer.c | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/lib/cio/buffer/hev-task-cio-buffer.c b/src/lib/cio/buffer/hev-task-cio-buffer.c
index 748513f..cba6342 100644
--- a/src/lib/cio/buffer/hev-task-cio-buffer.c
+++ b/src/lib/cio/buffer/hev-task-cio-buffer.c
@@ -147,20 +147,17 @@ _hev_task_cio_buffer_flush (HevTaskCIOBuffer *self)
     if (!self->wbuf)
         return 0;
 
-    iovcnt = hev_circular_buffer_reading (self->wbuf, iov);
-    if (iovcnt == 0)
-        return 0;
-
-    res = hev_task_cio_next_writev (base, iov, iovcnt);
-    if (res < 0)
-        return res;
+    while ((iovcnt = hev_circular_buffer_reading (self->wbuf, iov))) {
+        res = hev_task_cio_next_writev (base, iov, iovcnt);
+        if (res < 0)
+            return res;
 
-    hev_circular_buffer_read_finish (self->wbuf, res);
+        if (res == 0) {
+            base->err = EAGAIN;
+            return -1;
+        }
 
-    res = hev_circular_buffer_get_use_size (self->wbuf);
-    if (res) {
-        base->err = EAGAIN;
-        return -1;
+        hev_circular_buffer_read_finish (self->wbuf, res);
     }
 
     return 0;
-- 
2.43.0


From b95458e9cf3f9efbd7e387e91e0ce083fff693df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:01:37 +0000
Subject: [PATCH 31/37] fix: flush the output chain until it is done while
 splicing

The result of flushing was ignored. Bytes that the output could not take
at once stayed in a buffering layer: the splice waited without ever
flushing them again, or ended without them.
---
 src/lib/cio/base/hev-task-cio.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/lib/cio/base/hev-task-cio.c b/src/lib/cio/base/hev-task-cio.c
index f64cd73..abd4ebd 100644
--- a/src/lib/cio/base/hev-task-cio.c
+++ b/src/lib/cio/base/hev-task-cio.c
@@ -426,12 +426,12 @@ retry:
 static int
 task_cio_splice (HevCircularBuffer *buf, HevTaskCIO *i, HevTaskCIO *o)
 {
+    HevTaskCIOClass *kptr = HEV_OBJECT_GET_CLASS (i);
     struct iovec iov[2];
     int res = 1, iovc;
 
     iovc = hev_circular_buffer_writing (buf, iov);
     if (iovc) {
-        HevTaskCIOClass *kptr = HEV_OBJECT_GET_CLASS (i);
         ssize_t s = kptr->readv (i, iov, iovc);
         if (0 >= s) {
             if ((0 > s) && (i->err == EAGAIN))
@@ -443,22 +443,23 @@ task_cio_splice (HevCircularBuffer *buf, HevTaskCIO *i, HevTaskCIO *o)
         }
     }
 
+    kptr = HEV_OBJECT_GET_CLASS (o);
     iovc = hev_circular_buffer_reading (buf, iov);
     if (iovc) {
-        HevTaskCIOClass *kptr = HEV_OBJECT_GET_CLASS (o);
         ssize_t s = kptr->writev (o, iov, iovc);
         if (0 >= s) {
             if ((0 > s) && (o->err == EAGAIN))
-                res = 0;
-            else
-                res = -1;
-        } else {
-            hev_circular_buffer_read_finish (buf, s);
-            kptr->ctrl (o, HEV_TASK_CIO_CTRL_FLUSH, 0, NULL);
-            res = 1;
+                return 0;
+            return -1;
         }
+        hev_circular_buffer_read_finish (buf, s);
+        res = 1;
     }
 
+    o->err = 0;
+    if (kptr->ctrl (o, HEV_TASK_CIO_CTRL_FLUSH, 0, NULL) < 0 && o->err)
+        res = (o->err == EAGAIN) ? 0 : -1;
+
     return res;
 }
 
-- 
2.43.0


From 4f9338d383019b81f858fac56dc22c1a2023211c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:05:38 +0000
Subject: [PATCH 32/37] fix: close a descriptor used for both directions only
 once

Closing it again may close a descriptor another thread has opened in the
meantime.
---
 src/lib/cio/fd/hev-task-cio-fd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/cio/fd/hev-task-cio-fd.c b/src/lib/cio/fd/hev-task-cio-fd.c
index 4d0ffb9..78ca7bf 100644
--- a/src/lib/cio/fd/hev-task-cio-fd.c
+++ b/src/lib/cio/fd/hev-task-cio-fd.c
@@ -126,7 +126,7 @@ _hev_task_cio_fd_destruct (HevObject *base)
 
     if (self->fdi >= 0)
         close (self->fdi);
-    if (self->fdo >= 0)
+    if (self->fdo >= 0 && self->fdo != self->fdi)
         close (self->fdo);
 
     HEV_TASK_CIO_TYPE->destruct (base);
-- 
2.43.0


From 75e730bef358f669d84f62addf308d658f76c84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:05:38 +0000
Subject: [PATCH 33/37] fix: release the next cio instead of destroying it

A layer that somebody else holds a reference to was freed together with
the chain above it.
---
 src/lib/cio/base/hev-task-cio.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lib/cio/base/hev-task-cio.h b/src/lib/cio/base/hev-task-cio.h
index 71979f6..5bf973c 100644
--- a/src/lib/cio/base/hev-task-cio.h
+++ b/src/lib/cio/base/hev-task-cio.h
@@ -670,7 +670,7 @@ hev_task_cio_next_ctrl (HevTaskCIO *self, int ctrl, long larg, void *parg)
  * hev_task_cio_next_destruct:
  * @self: a #HevTaskCIO
  *
- * Call next #HevTaskCIO destruct.
+ * Release the reference to next #HevTaskCIO.
  *
  * Since: 5.3
  */
@@ -678,13 +678,11 @@ static inline void
 hev_task_cio_next_destruct (HevTaskCIO *self)
 {
     HevTaskCIO *next = self->next;
-    HevObjectClass *nkptr;
 
     if (!next)
         return;
 
-    nkptr = HEV_OBJECT_GET_CLASS (next);
-    nkptr->destruct (HEV_OBJECT (next));
+    hev_object_unref (HEV_OBJECT (next));
 }
 
 #ifdef __cplusplus
-- 
2.43.0


From 787160afa0efd931b20ca23f2002a54cdb246ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:10:48 +0000
Subject: [PATCH 34/37] fix: order the last unref of an atomic object after
 other threads' use

A thread dropping its reference with a relaxed decrement did not make its
accesses to the object visible to the thread that destroys it.
---
 src/lib/object/hev-object-atomic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/object/hev-object-atomic.c b/src/lib/object/hev-object-atomic.c
index 4d93ba7..326e755 100644
--- a/src/lib/object/hev-object-atomic.c
+++ b/src/lib/object/hev-object-atomic.c
@@ -47,7 +47,7 @@ _hev_object_atomic_ref (HevObject *base, int ref)
         return;
     }
 
-    rc = atomic_fetch_sub_explicit (rcp, 1, memory_order_relaxed);
+    rc = atomic_fetch_sub_explicit (rcp, 1, memory_order_acq_rel);
     if (rc > 1)
         return;
 
-- 
2.43.0


From 57ccf23ad2dbf4a21595eafa778663499bc2506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:22:11 +0000
Subject: [PATCH 35/37] fix: report and recover from a failed start of the aide
 thread

A thread creation error, a reactor that could not be created in the new thread
and a second thread initialising at the same time were mistaken for success,
waited for ever or failed. Create the reactor before the thread, under the
mutex.
---
 src/kern/aide/hev-task-aide.c | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/kern/aide/hev-task-aide.c b/src/kern/aide/hev-task-aide.c
index 95bc00c..0e979d9 100644
--- a/src/kern/aide/hev-task-aide.c
+++ b/src/kern/aide/hev-task-aide.c
@@ -19,18 +19,12 @@
 #include "hev-task-aide.h"
 
 static pthread_t thread;
-static pthread_cond_t cond = PTHREAD_COND_INITIALIZER;
 static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
 static HevTaskIOReactor *reactor;
 
 static void *
 hev_task_aide_entry (void *data)
 {
-    pthread_mutex_lock (&mutex);
-    reactor = hev_task_io_reactor_new ();
-    pthread_cond_signal (&cond);
-    pthread_mutex_unlock (&mutex);
-
     for (;;) {
         HevTaskIOReactorWaitEvent events[256];
         int i, count;
@@ -54,17 +48,19 @@ hev_task_aide_entry (void *data)
 int
 hev_task_aide_init (void)
 {
-    int res = -1;
-
-    if (reactor)
-        return 0;
+    int res = 0;
 
     pthread_mutex_lock (&mutex);
     if (!reactor) {
-        res = pthread_create (&thread, NULL, hev_task_aide_entry, NULL);
-        if (0 == res) {
-            while (!reactor)
-                pthread_cond_wait (&cond, &mutex);
+        res = -1;
+        reactor = hev_task_io_reactor_new ();
+        if (reactor) {
+            if (0 == pthread_create (&thread, NULL, hev_task_aide_entry, NULL)) {
+                res = 0;
+            } else {
+                hev_task_io_reactor_destroy (reactor);
+                reactor = NULL;
+            }
         }
     }
     pthread_mutex_unlock (&mutex);
-- 
2.43.0


From 2e2d471d505f43e9735e04baa426e5c44c8c7eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:22:11 +0000
Subject: [PATCH 36/37] fix: free the DNS proxy only after the server stopped
 using it

The server thread goes back to reading from its end of the pair after each
answer, while the proxy could be freed and the descriptor closed and reused.
---
 src/lib/dns/hev-task-dns-proxy.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/lib/dns/hev-task-dns-proxy.c b/src/lib/dns/hev-task-dns-proxy.c
index 3310e5d..45afc58 100644
--- a/src/lib/dns/hev-task-dns-proxy.c
+++ b/src/lib/dns/hev-task-dns-proxy.c
@@ -101,7 +101,13 @@ hev_task_dns_server_handler (unsigned int revents, void *data)
         int res;
 
         res = read (proxy->work.fd, &sync, sizeof (sync));
-        if (0 >= res)
+        if (0 == res) {
+            /* the proxy may be freed as soon as the descriptor is closed */
+            hev_task_aide_del (&proxy->work);
+            close (proxy->work.fd);
+            break;
+        }
+        if (0 > res)
             break;
 
         switch (proxy->call->type) {
@@ -181,8 +187,21 @@ exit:
 void
 hev_task_dns_proxy_destroy (HevTaskDNSProxy *self)
 {
-    hev_task_aide_del (&self->work);
-    close (self->work.fd);
+    /* the server may still use the proxy, wait until it closes its end */
+    shutdown (self->fd, SHUT_WR);
+
+    for (;;) {
+        struct pollfd pfd;
+        char sync;
+        int res = read (self->fd, &sync, sizeof (sync));
+        if ((0 <= res) || (EAGAIN != errno))
+            break;
+
+        pfd.fd = self->fd;
+        pfd.events = POLLIN;
+        poll (&pfd, 1, -1);
+    }
+
     close (self->fd);
     hev_free (self);
 }
-- 
2.43.0


From fc26a2de9948115069aa0877fa8d0282b68c86a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:58:11 +0000
Subject: [PATCH 37/37] fix: take the default action on a fault if there was no
 handler before

The stack overflow handler called the previous action's handler even when
it was SIG_DFL or SIG_IGN, which are not functions.  The previous action is
put back instead, so the fault is handled by it when it occurs again.
---
 src/lib/misc/hev-task-stack-detector.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib/misc/hev-task-stack-detector.c b/src/lib/misc/hev-task-stack-detector.c
index 2f181e4..61b7155 100644
--- a/src/lib/misc/hev-task-stack-detector.c
+++ b/src/lib/misc/hev-task-stack-detector.c
@@ -48,6 +48,7 @@ signal_handler (int signo, siginfo_t *si, void *unused)
     HevTaskSystemContext *context = hev_task_system_get_context ();
     HevListNode *node = hev_list_first (&context->all_tasks);
     HevTaskStackDetector *self = context->stack_detector;
+    struct sigaction *sa;
 
     for (; node; node = hev_list_node_next (node)) {
         HevTask *task = container_of (node, HevTask, list_node);
@@ -67,14 +68,22 @@ signal_handler (int signo, siginfo_t *si, void *unused)
 
     switch (signo) {
     case SIGBUS:
-        self->bus_sa.sa_sigaction (signo, si, unused);
+        sa = &self->bus_sa;
         break;
     case SIGSEGV:
-        self->segv_sa.sa_sigaction (signo, si, unused);
+        sa = &self->segv_sa;
         break;
     default:
         return;
     }
+
+    if (sa->sa_handler == SIG_DFL || sa->sa_handler == SIG_IGN) {
+        /* not a function, the action is taken when the fault occurs again */
+        sigaction (signo, sa, NULL);
+        return;
+    }
+
+    sa->sa_sigaction (signo, si, unused);
 }
 
 HevTaskStackDetector *
-- 
2.43.0

