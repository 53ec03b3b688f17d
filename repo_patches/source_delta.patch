From 4ed7206c6c48e1891df42030d94de917fa467732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 01/40] fix: ggggc_allocateDescriptorDescriptor held a raw lock
 across a collection and returned a stale pointer

---
 allocator.c | 21 +++++++++++----------
 globals.c   |  2 +-
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/allocator.c b/allocator.c
index dfb161f..b2b40d5 100644
--- a/allocator.c
+++ b/allocator.c
@@ -229,14 +229,8 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
     if (ddSize != size)
         ddd = ggggc_allocateDescriptorDescriptor(ddSize);
 
-    /* otherwise, need to allocate one. First lock the space */
-    ggc_mutex_lock_raw(&ggggc_descriptorDescriptorsLock);
-    if (ggggc_descriptorDescriptors[size]) {
-        ggc_mutex_unlock(&ggggc_descriptorDescriptorsLock);
-        return ggggc_descriptorDescriptors[size];
-    }
-
-    /* allocate the descriptor descriptor */
+    /* allocate the descriptor descriptor. This may collect, so it can't be done
+     * while holding the lock. */
     ret = (struct GGGGC_Descriptor *) ggggc_mallocRaw(&ddd, ddSize);
 
     /* make it correct */
@@ -253,15 +247,22 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
     ret->tags[GGGGC_OFFSETOF(struct GGGGC_Descriptor *, user)] = 0;
 #endif
 
-    /* put it in the list */
+    /* put it in the list, unless somebody else got there first */
+    ggc_mutex_lock_raw(&ggggc_descriptorDescriptorsLock);
+    if (ggggc_descriptorDescriptors[size]) {
+        ggc_mutex_unlock(&ggggc_descriptorDescriptorsLock);
+        return ggggc_descriptorDescriptors[size];
+    }
     ggggc_descriptorDescriptors[size] = ret;
     ggc_mutex_unlock(&ggggc_descriptorDescriptorsLock);
     {
         GGC_PUSH_1(ggggc_descriptorDescriptors[size]);
         GGC_GLOBALIZE();
+        GGC_POP();
     }
 
-    return ret;
+    /* pushing yields, so ret may be stale by now */
+    return ggggc_descriptorDescriptors[size];
 }
 
 /* allocate a descriptor for an object of the given size in words with the
diff --git a/globals.c b/globals.c
index 136fb25..20150fa 100644
--- a/globals.c
+++ b/globals.c
@@ -25,4 +25,4 @@ ggc_thread_local struct GGGGC_Pool *ggggc_pool0;
 struct GGGGC_Pool *ggggc_gens[GGGGC_GENERATIONS];
 struct GGGGC_Pool *ggggc_pools[GGGGC_GENERATIONS];
 struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_WORDS_PER_POOL/GGGGC_BITS_PER_WORD+sizeof(struct GGGGC_Descriptor)];
-ggc_mutex_t ggggc_descriptorDescriptorsLock;
+ggc_mutex_t ggggc_descriptorDescriptorsLock = GGC_MUTEX_INITIALIZER;
-- 
2.43.0


From d1c3ab1d75a4c1b1a84b4e20ed1279bac99139a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 02/40] fix: ggggc_allocateDescriptorSlot held a raw lock
 across a collection

---
 allocator.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/allocator.c b/allocator.c
index b2b40d5..04ab8b3 100644
--- a/allocator.c
+++ b/allocator.c
@@ -423,20 +423,27 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDA(ggc_size_t size)
 /* allocate a descriptor from a descriptor slot */
 struct GGGGC_Descriptor *ggggc_allocateDescriptorSlot(struct GGGGC_DescriptorSlot *slot)
 {
+    struct GGGGC_Descriptor *descriptor;
+
     if (slot->descriptor) return slot->descriptor;
+
+    /* allocating may collect, so it can't be done while holding the lock */
+    descriptor = ggggc_allocateDescriptor(slot->size, slot->pointers);
+
+    /* fill the slot, unless somebody else got there first */
     ggc_mutex_lock_raw(&slot->lock);
     if (slot->descriptor) {
         ggc_mutex_unlock(&slot->lock);
         return slot->descriptor;
     }
-
-    slot->descriptor = ggggc_allocateDescriptor(slot->size, slot->pointers);
+    slot->descriptor = descriptor;
     ggc_mutex_unlock(&slot->lock);
 
     /* make the slot descriptor a root */
     {
         GGC_PUSH_1(slot->descriptor);
         GGC_GLOBALIZE();
+        GGC_POP();
     }
 
     return slot->descriptor;
-- 
2.43.0


From eb02a9d018f8627ddd6ab1c6d9ee8d350d4dee17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 03/40] fix: ggggc_globalize left its roots registered twice,
 and did not check malloc

---
 roots.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/roots.c b/roots.c
index 75b7db0..59dc2d2 100644
--- a/roots.c
+++ b/roots.c
@@ -35,6 +35,10 @@ void ggggc_globalize()
     /* make a global copy */
     gPointerStack = (struct GGGGC_PointerStack *)
         malloc(sizeof(struct GGGGC_PointerStack) + ggggc_pointerStack->size * sizeof(void *));
+    if (!gPointerStack) {
+        perror("malloc");
+        abort();
+    }
     gPointerStack->next = NULL;
     gPointerStack->size = ggggc_pointerStack->size;
     memcpy(gPointerStack->pointers, ggggc_pointerStack->pointers, ggggc_pointerStack->size * sizeof(void *));
@@ -48,6 +52,10 @@ void ggggc_globalize()
     }
     ggggc_pointerStackGlobals->next = gPointerStack;
     ggggc_pointerStackGlobals = gPointerStack;
+
+    /* the global copy takes over the roots: No root may be listed twice, or a
+     * compaction would update it twice */
+    ggggc_pointerStack->size = 0;
 }
 
 #ifdef __cplusplus
-- 
2.43.0


From 1e655742bdc9e4266eaa4972457a8d751b9662f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 04/40] fix: ggggc_newPool left survivors and finalizers
 uninitialized or stale

---
 allocator.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/allocator.c b/allocator.c
index 04ab8b3..b3cc939 100644
--- a/allocator.c
+++ b/allocator.c
@@ -126,6 +126,10 @@ struct GGGGC_Pool *ggggc_newPool(int mustSucceed)
     ret->next = NULL;
     ret->free = ret->start;
     ret->end = (ggc_size_t *) ((unsigned char *) ret + GGGGC_POOL_BYTES);
+    ret->survivors = 0;
+#ifdef GGGGC_FEATURE_FINALIZERS
+    ret->finalizers = NULL;
+#endif
 
     return ret;
 }
-- 
2.43.0


From 5342d91344a33c5d759df215c212eb4f4e4f663c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 05/40] fix: the JIT pointer stacks of blocked threads were
 never scanned

---
 threads.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/threads.c b/threads.c
index 4065b26..58ca759 100644
--- a/threads.c
+++ b/threads.c
@@ -60,6 +60,9 @@ static void *ggggcThreadWrapper(void *arg)
 
 static ggc_thread_local struct GGGGC_PoolList blockedPoolListNode;
 static ggc_thread_local struct GGGGC_PointerStackList blockedPointerStackListNode;
+#ifdef GGGGC_FEATURE_JITPSTACK
+static ggc_thread_local struct GGGGC_JITPointerStackList blockedJITPointerStackListNode;
+#endif
 
 /* call this before blocking */
 void ggc_pre_blocking()
@@ -80,6 +83,12 @@ void ggc_pre_blocking()
     blockedPointerStackListNode.pointerStack = ggggc_pointerStack;
     blockedPointerStackListNode.next = ggggc_blockedThreadPointerStacks;
     ggggc_blockedThreadPointerStacks = &blockedPointerStackListNode;
+#ifdef GGGGC_FEATURE_JITPSTACK
+    blockedJITPointerStackListNode.cur = ggc_jitPointerStack;
+    blockedJITPointerStackListNode.top = ggc_jitPointerStackEnd;
+    blockedJITPointerStackListNode.next = ggggc_blockedThreadJITPointerStacks;
+    ggggc_blockedThreadJITPointerStacks = &blockedJITPointerStackListNode;
+#endif
 
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 }
@@ -89,6 +98,9 @@ void ggc_post_blocking()
 {
     struct GGGGC_PoolList *plCur;
     struct GGGGC_PointerStackList *pslCur;
+#ifdef GGGGC_FEATURE_JITPSTACK
+    struct GGGGC_JITPointerStackList *jpslCur;
+#endif
 
     /* get a lock on the thread count etc */
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0);
@@ -125,6 +137,20 @@ void ggc_post_blocking()
         }
 
     }
+#ifdef GGGGC_FEATURE_JITPSTACK
+    if (ggggc_blockedThreadJITPointerStacks == &blockedJITPointerStackListNode) {
+        ggggc_blockedThreadJITPointerStacks = ggggc_blockedThreadJITPointerStacks->next;
+
+    } else {
+        for (jpslCur = ggggc_blockedThreadJITPointerStacks; jpslCur->next; jpslCur = jpslCur->next) {
+            if (jpslCur->next == &blockedJITPointerStackListNode) {
+                jpslCur->next = jpslCur->next->next;
+                break;
+            }
+        }
+
+    }
+#endif
 
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 }
-- 
2.43.0


From 7c4e3f3d43c6f581404001c9d77d0fbd25577561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 06/40] fix: a failed ggc_thread_create left the world barrier
 waiting for a thread that does not exist

---
 threads/posix.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/threads/posix.c b/threads/posix.c
index 34f6449..821981e 100644
--- a/threads/posix.c
+++ b/threads/posix.c
@@ -46,6 +46,7 @@ int ggc_thread_create(
         GGC_ThreadArg arg
 ) {
     ThreadInfo ti = NULL;
+    int err;
 
     GGC_PUSH_2(arg, ti);
 
@@ -63,8 +64,16 @@ int ggc_thread_create(
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
     /* spawn the pthread */
-    if ((errno = pthread_create(thread, NULL, ggggcThreadWrapper, ti)))
+    if ((err = pthread_create(thread, NULL, ggggcThreadWrapper, ti))) {
+        /* it will never reach the thread barrier, so take it out again */
+        while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
+            GGC_YIELD();
+        ggc_barrier_destroy(&ggggc_worldBarrier);
+        ggc_barrier_init(&ggggc_worldBarrier, --ggggc_threadCount);
+        ggc_mutex_unlock(&ggggc_worldBarrierLock);
+        errno = err;
         return -1;
+    }
 
     return 0;
 }
-- 
2.43.0


From ba310f74e054348f3525d21b65cbda3409389240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 07/40] fix: ggc_barrier_wait reported failure to one of the
 threads

---
 threads/posix.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/threads/posix.c b/threads/posix.c
index 821981e..73f5924 100644
--- a/threads/posix.c
+++ b/threads/posix.c
@@ -29,9 +29,16 @@ int func \
 }
 
 #if _POSIX_BARRIERS
+/* one of the waiting threads is told so by a special, nonzero success value */
+static int barrierWait(pthread_barrier_t *barrier)
+{
+    int err = pthread_barrier_wait(barrier);
+    return (err == PTHREAD_BARRIER_SERIAL_THREAD) ? 0 : err;
+}
+
 BLOCKING(
     ggc_barrier_wait(void *barrier),
-    pthread_barrier_wait((pthread_barrier_t *) barrier)
+    barrierWait((pthread_barrier_t *) barrier)
 )
 #endif
 
-- 
2.43.0


From b8796d0ed1b43f239c22de23fffa9c21f1e237db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 08/40] fix: ggc_sem_wait was declared but not defined for
 pthreads

---
 threads/posix.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/threads/posix.c b/threads/posix.c
index 73f5924..e5c1917 100644
--- a/threads/posix.c
+++ b/threads/posix.c
@@ -47,6 +47,11 @@ BLOCKING(
     pthread_mutex_lock(mutex)
 )
 
+BLOCKING(
+    ggc_sem_wait(ggc_sem_t *sem),
+    (sem_wait(sem) ? errno : 0)
+)
+
 int ggc_thread_create(
         ggc_thread_t *thread,
         void (*func)(GGC_ThreadArg),
-- 
2.43.0


From d17d1b8f8e2feb4a53fe38538a4d9a93937f005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 09/40] fix: tagging with JIT pointer stacks did not compile,
 and compaction updated tagged values

---
 collector/gembc.c      | 4 ++--
 collector/portablems.c | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index b2e5496..ee4fd91 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -509,7 +509,7 @@ collect:
     for (jpslCur = ggggc_rootJITPointerStackList; jpslCur; jpslCur = jpslCur->next) {
         for (jpsCur = jpslCur->cur; jpsCur < jpslCur->top; jpsCur++) {
 #ifndef GGGGC_FEATURE_EXTTAG
-            if (!IS_TAGGED(*((void *) jpsCur)))
+            if (!IS_TAGGED(*jpsCur))
                 TOSEARCH_ADD(jpsCur);
 #else
             int wordIdx;
@@ -987,7 +987,7 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
     for (jpslCur = ggggc_rootJITPointerStackList; jpslCur; jpslCur = jpslCur->next) {
         for (jpsCur = jpslCur->cur; jpsCur < jpslCur->top; jpsCur++) {
 #ifndef GGGGC_FEATURE_EXTTAG
-            if (*jpsCur)
+            if (*jpsCur && !IS_TAGGED(*jpsCur))
                 FOLLOW_COMPACTED_OBJECT(*jpsCur);
 #else
             int wordIdx;
diff --git a/collector/portablems.c b/collector/portablems.c
index 9893de6..3ba4825 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -585,8 +585,8 @@ void ggggc_collect0(unsigned char gen)
     for (jpslCur = ggggc_rootJITPointerStackList; jpslCur; jpslCur = jpslCur->next) {
         for (jpsCur = jpslCur->cur; jpsCur < jpslCur->top; jpsCur++) {
 #ifndef GGGGC_FEATURE_EXTTAG
-            if (*jpsCur && !IS_TAGGED(*((void *) jpsCur)))
-                mark(*jpsCur);
+            if (*jpsCur && !IS_TAGGED(*jpsCur))
+                mark((struct GGGGC_Header *) *jpsCur);
 #else
             int wordIdx;
             size_t tags = *((ggc_size_t *) jpsCur);
@@ -600,7 +600,7 @@ void ggggc_collect0(unsigned char gen)
                 jpsCur++;
                 /* Lowest bit indicates pointer */
                 if ((tag & 0x1) == 0 && *jpsCur)
-                    mark(*jpsCur);
+                    mark((struct GGGGC_Header *) *jpsCur);
             }
 #endif /* GGGGC_FEATURE_EXTTAG */
         }
-- 
2.43.0


From a2e4f4bf6737301a9098eeb614550312ccc67d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 10/40] fix: portablems finalizers with JIT pointer stacks did
 not compile

---
 collector/portablems.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/collector/portablems.c b/collector/portablems.c
index 3ba4825..1de2b18 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -201,6 +201,9 @@ struct GGGGC_Pool *ggggc_poolOf(void *obj)
 {
     struct GGGGC_PoolList *plCur, pool0Node;
     struct GGGGC_PointerStackList pointerStackNode;
+#ifdef GGGGC_FEATURE_JITPSTACK
+    struct GGGGC_JITPointerStackList jitPointerStackNode;
+#endif
 
     /* hopefully it's a local pool, so we can simply find it */
     struct GGGGC_Pool *pool;
@@ -212,7 +215,12 @@ struct GGGGC_Pool *ggggc_poolOf(void *obj)
     /* Not a local pool. We have to stop the world to scan all the other
      * threads' pools, and in portablems, the only way to do that is a complete
      * collection. */
-    stopTheWorld(&pool0Node, &pointerStackNode);
+    stopTheWorld(
+        &pool0Node, &pointerStackNode
+#ifdef GGGGC_FEATURE_JITPSTACK
+        , &jitPointerStackNode
+#endif
+    );
 
     for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
         for (pool = plCur->pool; pool; pool = pool->next) {
-- 
2.43.0


From d0d7062813bd4fe0cfc6d8048971d35b5f7bc926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 11/40] fix: portablems with memory corruption checks overwrote
 the size of freed descriptors while sweeping

---
 collector/portablems.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/collector/portablems.c b/collector/portablems.c
index 1de2b18..208d273 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -27,8 +27,14 @@
 
 /* Free list. Free list elements are stored as [0, size in words, next]. */
 struct FreeListNode {
-    ggc_size_t zero, size;
+    ggc_size_t zero;
+#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
+    struct FreeListNode *next;
+#endif
+    ggc_size_t size; /* must be in the same location as a descriptor's size */
+#ifndef GGGGC_DEBUG_MEMORY_CORRUPTION
     struct FreeListNode *next;
+#endif
 };
 static ggc_thread_local struct FreeListNode *freeList = NULL;
 
-- 
2.43.0


From ebaea824794b4254414257b1db9ee898766cb043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 12/40] fix: portablems memory corruption checks dereferenced
 tagged values

---
 collector/portablems.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/collector/portablems.c b/collector/portablems.c
index 208d273..a1b5b34 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -289,7 +289,8 @@ static void memoryCorruptionCheckObj(const char *when, struct GGGGC_Header *obj)
             {
                 /* it's a pointer */
                 struct GGGGC_Header *nobj = (struct GGGGC_Header *) objVp[curWord];
-                if (nobj && nobj->ggggc_memoryCorruptionCheck != GGGGC_MEMORY_CORRUPTION_VAL) {
+                if (nobj && !IS_TAGGED(nobj) &&
+                    nobj->ggggc_memoryCorruptionCheck != GGGGC_MEMORY_CORRUPTION_VAL) {
                     fprintf(stderr, "GGGGC: Memory corruption (%s nested)!\n", when);
                     abort();
                 }
@@ -353,7 +354,7 @@ static void memoryCorruptionCheck(const char *when)
             ggc_size_t i;
             for (i = 0; i < psCur->size; i++) {
                 struct GGGGC_Header *obj = *((struct GGGGC_Header **) psCur->pointers[i]);
-                if (obj)
+                if (obj && !IS_TAGGED(obj))
                     memoryCorruptionCheckObj(when, obj);
             }
         }
-- 
2.43.0


From 8fdb754859734873a321f3f986b2f983831281c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 13/40] fix: GGC_PUSH_N did not set the number of pushed
 pointers

---
 ggggc/push.h | 1 +
 pushgen.c    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ggggc/push.h b/ggggc/push.h
index a1bdb02..a268ac3 100644
--- a/ggggc/push.h
+++ b/ggggc/push.h
@@ -778,6 +778,7 @@ do { \
         alloca(sizeof(struct GGGGC_PointerStack) + sizeof(void *) * ggggc_n); \
     void *ggggc_pptrs[] = (void*[]) pptrs; \
     ggggc_pstack_cur->next = ggggc_pointerStack; \
+    ggggc_pstack_cur->size = ggggc_n; \
     memcpy(ggggc_pstack_cur->pointers, ggggc_pptrs, sizeof(void *) * ggggc_n); \
     ggggc_pstack_cur->pointers[ggggc_n] = NULL; \
     ggggc_pointerStack = ggggc_pstack_cur; \
diff --git a/pushgen.c b/pushgen.c
index ebe3daa..65873a4 100644
--- a/pushgen.c
+++ b/pushgen.c
@@ -83,6 +83,7 @@ int main()
            "        alloca(sizeof(struct GGGGC_PointerStack) + sizeof(void *) * ggggc_n); \\\n"
            "    void *ggggc_pptrs[] = (void*[]) pptrs; \\\n"
            "    ggggc_pstack_cur->next = ggggc_pointerStack; \\\n"
+           "    ggggc_pstack_cur->size = ggggc_n; \\\n"
            "    memcpy(ggggc_pstack_cur->pointers, ggggc_pptrs, sizeof(void *) * ggggc_n); \\\n"
            "    ggggc_pstack_cur->pointers[ggggc_n] = NULL; \\\n"
            "    ggggc_pointerStack = ggggc_pstack_cur; \\\n"
-- 
2.43.0


From bf8249ef21436b6eda126918558b82309b5df19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 14/40] fix: GGC_PUSH_N did not compile

---
 ggggc/push.h | 2 +-
 pushgen.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ggggc/push.h b/ggggc/push.h
index a268ac3..104af1e 100644
--- a/ggggc/push.h
+++ b/ggggc/push.h
@@ -776,7 +776,7 @@ do { \
     struct GGGGC_PointerStack *ggggc_pstack_cur = \
         (struct GGGGC_PointerStack *) \
         alloca(sizeof(struct GGGGC_PointerStack) + sizeof(void *) * ggggc_n); \
-    void *ggggc_pptrs[] = (void*[]) pptrs; \
+    void *ggggc_pptrs[] = pptrs; \
     ggggc_pstack_cur->next = ggggc_pointerStack; \
     ggggc_pstack_cur->size = ggggc_n; \
     memcpy(ggggc_pstack_cur->pointers, ggggc_pptrs, sizeof(void *) * ggggc_n); \
diff --git a/pushgen.c b/pushgen.c
index 65873a4..53c55a1 100644
--- a/pushgen.c
+++ b/pushgen.c
@@ -81,7 +81,7 @@ int main()
            "    struct GGGGC_PointerStack *ggggc_pstack_cur = \\\n"
            "        (struct GGGGC_PointerStack *) \\\n"
            "        alloca(sizeof(struct GGGGC_PointerStack) + sizeof(void *) * ggggc_n); \\\n"
-           "    void *ggggc_pptrs[] = (void*[]) pptrs; \\\n"
+           "    void *ggggc_pptrs[] = pptrs; \\\n"
            "    ggggc_pstack_cur->next = ggggc_pointerStack; \\\n"
            "    ggggc_pstack_cur->size = ggggc_n; \\\n"
            "    memcpy(ggggc_pstack_cur->pointers, ggggc_pptrs, sizeof(void *) * ggggc_n); \\\n"
-- 
2.43.0


From 3bac3ee1266635c690122612427902ba56bdfad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 15/40] fix: GGC_PTR shifted an int, losing pointer members
 past the 31st word

---
 ggggc/gc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ggggc/gc.h b/ggggc/gc.h
index 6870515..d8925d0 100644
--- a/ggggc/gc.h
+++ b/ggggc/gc.h
@@ -229,7 +229,7 @@ static type ## __descriptorSlotConstructor type ## __descriptorSlotConstructorIn
 #define GGGGC_OFFSETOF(type, member) \
     ((ggc_size_t) &((type) 0)->member ## __ptr / sizeof(ggc_size_t))
 #define GGC_PTR(type, member) \
-    | (1<<GGGGC_OFFSETOF(type, member))
+    | ((ggc_size_t)1<<GGGGC_OFFSETOF(type, member))
 #define GGC_NO_PTRS | 0
 
 /* macros for array types */
-- 
2.43.0


From 1675a273b10d0f14e1a1076f3292acdda160dced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 16/40] fix: GGC_LENGTH named a member that does not exist

---
 ggggc/gc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ggggc/gc.h b/ggggc/gc.h
index d8925d0..b16e5cb 100644
--- a/ggggc/gc.h
+++ b/ggggc/gc.h
@@ -353,7 +353,7 @@ static type ## __descriptorSlotConstructor type ## __descriptorSlotConstructorIn
 #define GGC_RAP(object, index)  GGGGC_RP(object, a__ptrs[(index)])
 #define GGC_RAD(object, index)  GGGGC_RD(object, a__data[(index)])
 #define GGC_RUP(object)         ((object)->header.descriptor__ptr->user__ptr)
-#define GGC_LENGTH(object)      ((object)->header.descriptor__ptr->length)
+#define GGC_LENGTH(object)      ((object)->length)
 
 /* because the write barrier forces you to use identifiers, an identifier
  * version of NULL */
-- 
2.43.0


From 1c7bf7c64e456a890b1b2427a66829aa15980ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 17/40] fix: ggggc_allocateDescriptor read past its one pointer
 word for objects with more words than that

---
 allocator.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/allocator.c b/allocator.c
index b3cc939..4e787c9 100644
--- a/allocator.c
+++ b/allocator.c
@@ -273,9 +273,27 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorDescriptor(ggc_size_t size)
  * given pointer layout */
 struct GGGGC_Descriptor *ggggc_allocateDescriptor(ggc_size_t size, ggc_size_t pointers)
 {
-    ggc_size_t pointersA[1];
+    ggc_size_t *pointersA;
+    ggc_size_t dPWords, i;
+    struct GGGGC_Descriptor *ret;
+
+    /* we were only given the first word of pointers, but need one bit for every
+     * word in the object */
+    dPWords = GGGGC_DESCRIPTOR_WORDS_REQ(size);
+    if (dPWords <= 1)
+        return ggggc_allocateDescriptorL(size, &pointers);
+
+    pointersA = (ggc_size_t *) malloc(sizeof(ggc_size_t) * dPWords);
+    if (!pointersA) {
+        perror("malloc");
+        abort();
+    }
     pointersA[0] = pointers;
-    return ggggc_allocateDescriptorL(size, pointersA);
+    for (i = 1; i < dPWords; i++) pointersA[i] = 0;
+
+    ret = ggggc_allocateDescriptorL(size, pointersA);
+    free(pointersA);
+    return ret;
 }
 
 /* descriptor allocator when more than one word is required to describe the
-- 
2.43.0


From 3c85afc15712a95cdb02843cccee973c6ce677b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 18/40] fix: the descriptor descriptor table was too small for
 external tags

---
 ggggc-internals.h | 2 +-
 globals.c         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ggggc-internals.h b/ggggc-internals.h
index 8f8f058..bc84806 100644
--- a/ggggc-internals.h
+++ b/ggggc-internals.h
@@ -107,7 +107,7 @@ extern struct GGGGC_Pool *ggggc_gens[GGGGC_GENERATIONS];
 extern struct GGGGC_Pool *ggggc_pools[GGGGC_GENERATIONS];
 
 /* descriptor descriptors */
-extern struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_WORDS_PER_POOL/GGGGC_BITS_PER_WORD+sizeof(struct GGGGC_Descriptor)];
+extern struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_DESCRIPTOR_WORDS_REQ(GGGGC_WORDS_PER_POOL)+sizeof(struct GGGGC_Descriptor)];
 
 /* and a lock for the descriptor descriptors */
 extern ggc_mutex_t ggggc_descriptorDescriptorsLock;
diff --git a/globals.c b/globals.c
index 20150fa..8dd68e0 100644
--- a/globals.c
+++ b/globals.c
@@ -24,5 +24,5 @@ ggc_thread_local struct GGGGC_Pool *ggggc_gen0;
 ggc_thread_local struct GGGGC_Pool *ggggc_pool0;
 struct GGGGC_Pool *ggggc_gens[GGGGC_GENERATIONS];
 struct GGGGC_Pool *ggggc_pools[GGGGC_GENERATIONS];
-struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_WORDS_PER_POOL/GGGGC_BITS_PER_WORD+sizeof(struct GGGGC_Descriptor)];
+struct GGGGC_Descriptor *ggggc_descriptorDescriptors[GGGGC_DESCRIPTOR_WORDS_REQ(GGGGC_WORDS_PER_POOL)+sizeof(struct GGGGC_Descriptor)];
 ggc_mutex_t ggggc_descriptorDescriptorsLock = GGC_MUTEX_INITIALIZER;
-- 
2.43.0


From 7eafc28a6f71de68fcae4d34050ee9dcfeb583d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 19/40] fix: ggggc_allocateDescriptorT read past the end of the
 tags of undersized objects

---
 allocator.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/allocator.c b/allocator.c
index 4e787c9..de9f373 100644
--- a/allocator.c
+++ b/allocator.c
@@ -364,11 +364,9 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorL(ggc_size_t size, const ggc_si
 struct GGGGC_Descriptor *ggggc_allocateDescriptorT(ggc_size_t size, const unsigned char *tags)
 {
     struct GGGGC_Descriptor *dd, *ret;
-    ggc_size_t dPWords, dSize;
+    ggc_size_t dPWords, dSize, tagsSize = size;
 
     /* check for minimum size */
-    /* FIXME: Theoretically if our minimum size straddled a word length, this
-     * would cause us to read past the end of pointers */
     if (size < GGGGC_MINIMUM_OBJECT_SIZE)
         size = GGGGC_MINIMUM_OBJECT_SIZE;
 
@@ -389,7 +387,8 @@ struct GGGGC_Descriptor *ggggc_allocateDescriptorT(ggc_size_t size, const unsign
 
     /* and set it up */
     if (tags) {
-        memcpy(ret->tags, tags, size);
+        memset(ret->tags, 1, size); /* any extra words are not pointers */
+        memcpy(ret->tags, tags, tagsSize);
         ret->tags[0] = 0; /* first word is always the descriptor pointer */
     } else {
         ret->tags[0] = 1;
-- 
2.43.0


From a2f067a87aec78b883adf9f48fa04c93d18a7be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 20/40] fix: allocating an object larger than a pool collected
 forever

---
 collector/gembc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/collector/gembc.c b/collector/gembc.c
index ee4fd91..3e01c4a 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -97,6 +97,11 @@ retry:
         ggggc_pool0 = pool = pool->next;
         goto retry;
 
+    } else if (size > (ggc_size_t) (pool->end - pool->start)) {
+        /* no amount of collection will ever make space for this */
+        fprintf(stderr, "GGGGC: object too large for a pool\n");
+        abort();
+
     } else {
         /* need to collect, which means we need to actually be a GC-safe function */
         GGC_PUSH_1(*descriptor);
-- 
2.43.0


From ef32c7641db2b7051d8fa78b8ff01fd2fdd2c1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 21/40] fix: the malloc allocator returned with its lock held
 when out of memory

---
 allocator/malloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/allocator/malloc.c b/allocator/malloc.c
index 1aab88b..26936a7 100644
--- a/allocator/malloc.c
+++ b/allocator/malloc.c
@@ -37,6 +37,7 @@ static void *allocPool(int mustSucceed)
                 perror("malloc");
                 abort();
             }
+            ggc_mutex_unlock(&poolLock);
             return NULL;
         }
         spaceEnd = space + GGGGC_POOL_BYTES * i;
-- 
2.43.0


From f9659d8051f5f73f37bebaeafc127de2c95df5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 22/40] fix: the mmap allocator did not recognize failure

---
 allocator/mmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocator/mmap.c b/allocator/mmap.c
index d78474e..7fe376c 100644
--- a/allocator/mmap.c
+++ b/allocator/mmap.c
@@ -23,7 +23,7 @@ static void *allocPool(int mustSucceed)
 
     /* allocate enough space that we can align it later */
     space = (unsigned char *) mmap(NULL, GGGGC_POOL_BYTES*2, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANON, -1, 0);
-    if (space == NULL) {
+    if (space == (unsigned char *) MAP_FAILED) {
         if (mustSucceed) {
             perror("mmap");
             abort();
-- 
2.43.0


From 125a7902bde8c174aba8637f3144683a3dfb01d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 23/40] fix: the sbrk allocator ignored failure to align, and
 was not thread safe

---
 allocator/sbrk.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/allocator/sbrk.c b/allocator/sbrk.c
index 3ef2478..0d393bd 100644
--- a/allocator/sbrk.c
+++ b/allocator/sbrk.c
@@ -61,8 +61,11 @@ static void mallocBump()
 
 static void *allocPool(int mustSucceed)
 {
-    void *ret;
-    size_t offset = poolOffset();
+    static ggc_mutex_t poolLock = GGC_MUTEX_INITIALIZER;
+    void *ret = NULL;
+    size_t offset;
+
+    ggc_mutex_lock_raw(&poolLock);
 
     mallocBump();
 
@@ -70,10 +73,13 @@ static void *allocPool(int mustSucceed)
     if (offset != 0) {
         /* align manually */
         fprintf(stderr, "WARNING: Wasting %d bytes\n", (int) offset);
-        sbrk(offset);
+        ret = sbrk(offset);
     }
 
-    ret = sbrk(GGGGC_POOL_BYTES);
+    if (ret != (void *) -1)
+        ret = sbrk(GGGGC_POOL_BYTES);
+    ggc_mutex_unlock(&poolLock);
+
     if (ret == (void *) -1) {
         if (mustSucceed) {
             perror("sbrk");
-- 
2.43.0


From 3e2e2a29f141be6323a680e6237653de0ac7e950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 24/40] fix: TOSEARCH_NEXT did not check malloc

---
 ggggc-internals.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ggggc-internals.h b/ggggc-internals.h
index bc84806..85f06b3 100644
--- a/ggggc-internals.h
+++ b/ggggc-internals.h
@@ -135,6 +135,10 @@ struct ToSearch {
 #define TOSEARCH_NEXT() do { \
     if (!toSearch->next) { \
         struct ToSearch *tsn = (struct ToSearch *) malloc(sizeof(struct ToSearch)); \
+        if (tsn == NULL) { \
+            perror("malloc"); \
+            abort(); \
+        } \
         toSearch->next = tsn; \
         tsn->prev = toSearch; \
         tsn->next = NULL; \
-- 
2.43.0


From 4cfd71ed842f21a52d41591d08f85347ca5a8894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 25/40] fix: card handling touched memory past the end of, or
 the wrong card in, a completely full pool

---
 collector/gembc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 3e01c4a..aeae141 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -547,7 +547,7 @@ collect:
                         ADD_OBJECT_POINTERS(obj, obj->descriptor__ptr);
                         obj = (struct GGGGC_Header *)
                             ((ggc_size_t) obj + obj->descriptor__ptr->size * sizeof(ggc_size_t));
-                        if (obj->descriptor__ptr == NULL) break;
+                        if ((ggc_size_t *) obj >= poolCur->end || obj->descriptor__ptr == NULL) break;
                     }
                 }
             }
@@ -1273,7 +1273,7 @@ void ggggc_postCompact(struct GGGGC_Pool *pool)
     /* and perhaps set firstObject for the free space */
     if (pool->gen) {
         card = GGGGC_CARD_OF(pool->free);
-        if (card != lastCard)
+        if (card != lastCard && pool->free < pool->end)
             pool->firstObject[card] = ((ggc_size_t) pool->free & GGGGC_CARD_INNER_MASK) / sizeof(ggc_size_t);
     }
 #endif
-- 
2.43.0


From 2834a2828e875d4f8941edf79fabc712d00b6cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 26/40] fix: GGC_ListShift returned the list node instead of
 the element

---
 collections/list.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/collections/list.c b/collections/list.c
index 9c8b384..6480469 100644
--- a/collections/list.c
+++ b/collections/list.c
@@ -176,6 +176,7 @@ void GGC_ListUnshiftList(GGC_List to, GGC_List from)
 void *GGC_ListShift(GGC_List list)
 {
     GGC_ListNode node = NULL, head = NULL;
+    void *ret = NULL;
     ggc_size_t len;
 
     GGC_PUSH_2(list, node);
@@ -189,9 +190,11 @@ void *GGC_ListShift(GGC_List list)
 
         len = GGC_RD(list, length) - 1;
         GGC_WD(list, length, len);
+
+        ret = GGC_RP(node, el);
     }
 
-    return node;
+    return ret;
 }
 
 /* insert an element after the specified one, in the given list */
-- 
2.43.0


From 15b9c29c8e030b39444b4d58569298e01d28869d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 27/40] fix: splicing an empty list corrupted the target list

---
 collections/list.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/collections/list.c b/collections/list.c
index 6480469..3f1f6c7 100644
--- a/collections/list.c
+++ b/collections/list.c
@@ -70,6 +70,11 @@ void GGC_ListPushList(GGC_List to, GGC_List from)
         return;
     }
 
+    if (!GGC_RP(from, head)) {
+        /* the source list is empty, so there's nothing to append */
+        return;
+    }
+
     /* they both exist, so we actually need to append */
     tolen = GGC_RD(to, length);
     fromlen = GGC_RD(from, length);
@@ -146,6 +151,11 @@ void GGC_ListUnshiftList(GGC_List to, GGC_List from)
         return;
     }
 
+    if (!GGC_RP(from, head)) {
+        /* the source list is empty, so there's nothing to prepend */
+        return;
+    }
+
     /* they both exist, so we actually need to prepend */
     tolen = GGC_RD(to, length);
     fromlen = GGC_RD(from, length);
@@ -226,6 +236,11 @@ void GGC_ListInsertAfterList(GGC_List to, GGC_ListNode after, GGC_List from)
 
     GGC_PUSH_6(to, after, from, head, tail, next);
 
+    if (!GGC_RP(from, head)) {
+        /* the source list is empty, so there's nothing to insert */
+        return;
+    }
+
     /* pull them out of the old list */
     fromlen = GGC_RD(from, length);
     head = GGC_RP(from, head);
-- 
2.43.0


From a7b1a3219c638044c0db9570842251ed0db02fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 28/40] fix: inserting after the last node of a list did not
 update its tail

---
 collections/list.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collections/list.c b/collections/list.c
index 3f1f6c7..201b0f2 100644
--- a/collections/list.c
+++ b/collections/list.c
@@ -221,6 +221,8 @@ void GGC_ListInsertAfter(GGC_List list, GGC_ListNode after, void *value)
     next = GGC_RP(after, next);
     GGC_WP(node, next, next);
     GGC_WP(after, next, node);
+    if (!next)
+        GGC_WP(list, tail, node);
 
     len = GGC_RD(list, length) + 1;
     GGC_WD(list, length, len);
@@ -254,6 +256,8 @@ void GGC_ListInsertAfterList(GGC_List to, GGC_ListNode after, GGC_List from)
     next = GGC_RP(after, next);
     GGC_WP(after, next, head);
     GGC_WP(tail, next, next);
+    if (!next)
+        GGC_WP(to, tail, tail);
 
     /* then set the length properly */
     tolen = GGC_RD(to, length) + fromlen;
-- 
2.43.0


From 3e9339ef8209a7b461540cab4c75769aac2a38c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 29/40] fix: finalizer functions did not pop their roots
 without automatic cleanup

---
 allocator.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/allocator.c b/allocator.c
index de9f373..d0782e0 100644
--- a/allocator.c
+++ b/allocator.c
@@ -504,6 +504,8 @@ void ggggc_finalize(void *obj, ggc_finalizer_t finalizer)
     next = (GGGGC_FinalizerEntry) pool->finalizers;
     GGC_WP(entry, next, next);
     pool->finalizers = entry;
+
+    return;
 }
 
 /* and function for running finalizers */
@@ -523,6 +525,8 @@ void ggggc_runFinalizers(GGGGC_FinalizerEntry finalizers)
 
         finalizer = GGC_RP(finalizer, next);
     }
+
+    return;
 }
 #endif /* GGGGC_FEATURE_FINALIZERS */
 
-- 
2.43.0


From 5734a0fb3e4d33874c9bff883407d80df4539432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:08 +0000
Subject: [PATCH 30/40] fix: gembc finalizers ran while their objects were
 alive, and were lost or left dangling

---
 allocator.c       |   5 ++
 collector/gembc.c | 220 +++++++++++++++++++++++++++++++---------------
 2 files changed, 156 insertions(+), 69 deletions(-)

diff --git a/allocator.c b/allocator.c
index d0782e0..86bc5eb 100644
--- a/allocator.c
+++ b/allocator.c
@@ -92,7 +92,12 @@ struct GGGGC_Pool *ggggc_newPool(int mustSucceed)
 {
     struct GGGGC_Pool *ret;
 #ifdef GGGGC_DEBUG_TINY_HEAP
+#ifdef GGGGC_FEATURE_FINALIZERS
+    /* pending finalizers take as much space as the objects themselves */
+    static ggc_thread_local int allocationsLeft = GGGGC_GENERATIONS * 2;
+#else
     static ggc_thread_local int allocationsLeft = GGGGC_GENERATIONS;
+#endif
 
     if (allocationsLeft-- <= 0) {
         allocationsLeft = 0;
diff --git a/collector/gembc.c b/collector/gembc.c
index aeae141..93d654e 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -176,8 +176,6 @@ void *ggggc_malloc(struct GGGGC_Descriptor *descriptor)
 /* full collection */
 #ifdef GGGGC_FEATURE_FINALIZERS
 #define COLLECT_FULL_ARGS \
-    GGGGC_FinalizerEntry *survivingFinalizersOut, \
-    GGGGC_FinalizerEntry *survivingFinalizersTailOut, \
     GGGGC_FinalizerEntry *readyFinalizersOut
 #else
 #define COLLECT_FULL_ARGS void
@@ -256,8 +254,9 @@ void ggggc_postCompact(struct GGGGC_Pool *);
 static struct ToSearch toSearchList;
 
 #ifdef GGGGC_FEATURE_FINALIZERS
-/* macro to handle the finalizers for a given pool */
-#define FINALIZER_POOL() do { \
+/* macro to handle the finalizers for a given pool. OBJ_SURVIVES is the test for
+ * whether an object (obj) survives the current collection. */
+#define FINALIZER_POOL(OBJ_SURVIVES) do { \
     finalizer = (GGGGC_FinalizerEntry) poolCur->finalizers; \
     poolCur->finalizers = NULL; \
     while (finalizer) { \
@@ -269,7 +268,7 @@ static struct ToSearch toSearchList;
         \
         /* grab the object */ \
         obj = (struct GGGGC_Header *) finalizer->obj__ptr; \
-        if (IS_FORWARDED_OBJECT(obj)) { \
+        if (OBJ_SURVIVES) { \
             /* it survived, keep the finalizer */ \
             finalizer->next__ptr = survivingFinalizers; \
             survivingFinalizers = finalizer; \
@@ -286,6 +285,31 @@ static struct ToSearch toSearchList;
         finalizer = nextFinalizer; \
     } \
 } while(0)
+
+/* put (possibly partially moved) finalizers back into a pool */
+static void restoreFinalizers(GGGGC_FinalizerEntry finalizers)
+{
+    struct GGGGC_Header *obj;
+    struct GGGGC_Pool *pool;
+    GGGGC_FinalizerEntry tail;
+
+    if (!finalizers) return;
+
+    /* find the first and last actual finalizer */
+    obj = (struct GGGGC_Header *) finalizers;
+    FOLLOW_FORWARDED_OBJECT(obj);
+    finalizers = tail = (GGGGC_FinalizerEntry) obj;
+    while (tail->next__ptr) {
+        obj = (struct GGGGC_Header *) tail->next__ptr;
+        FOLLOW_FORWARDED_OBJECT(obj);
+        tail = (GGGGC_FinalizerEntry) obj;
+    }
+
+    /* and put them before any that are already there */
+    pool = GGGGC_POOL_OF(finalizers);
+    tail->next__ptr = (GGGGC_FinalizerEntry) pool->finalizers;
+    pool->finalizers = (void *) finalizers;
+}
 #endif /* GGGGC_FEATURE_FINALIZERS */
 
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
@@ -493,7 +517,7 @@ collect:
     ) {
         ggggc_collectFull(
 #ifdef GGGGC_FEATURE_FINALIZERS
-            &survivingFinalizers, &survivingFinalizersTail, &readyFinalizers
+            &readyFinalizers
 #endif
         );
         goto postCollect;
@@ -560,6 +584,9 @@ collect:
 #endif
 
     /* now test all our pointers */
+#ifdef GGGGC_FEATURE_FINALIZERS
+search:
+#endif
     while (toSearch->used) {
         void **ptr;
         struct GGGGC_Header *obj;
@@ -596,15 +623,10 @@ collect:
             nobj = (struct GGGGC_Header *) ggggc_mallocGen1(descriptor->size, gen + 1);
             if (!nobj) {
 #ifdef GGGGC_FEATURE_FINALIZERS
-                /* preserve all finalizers */
-                if (survivingFinalizers) {
-                    poolCur = GGGGC_POOL_OF(survivingFinalizers);
-                    poolCur->finalizers = survivingFinalizers;
-                    survivingFinalizersTail->next__ptr = readyFinalizers;
-                } else if (readyFinalizers) {
-                    poolCur = GGGGC_POOL_OF(readyFinalizers);
-                    poolCur->finalizers = readyFinalizers;
-                }
+                /* preserve all finalizers. They're partially moved, so the next
+                 * collection will sort them all again. */
+                restoreFinalizers(survivingFinalizers);
+                restoreFinalizers(readyFinalizers);
                 survivingFinalizers = survivingFinalizersTail =
                     readyFinalizers = NULL;
 #endif
@@ -637,40 +659,44 @@ collect:
         }
 #endif
 
+    }
+
 #ifdef GGGGC_FEATURE_FINALIZERS
-        /* perhaps check finalizers */
-        if (!toSearch->used && !finalizersChecked) {
-            GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
+    /* everything reachable has been moved, so check finalizers */
+    if (!finalizersChecked) {
+        GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
+        struct GGGGC_Header *obj;
 
-            finalizersChecked = 1;
+        finalizersChecked = 1;
 
-            /* add all the finalizers themselves */
-            for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
-                for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
-                }
+        /* sort all the finalizers. Objects in later generations survive. */
+        for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
+            for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
+                FINALIZER_POOL(GGGGC_GEN_OF(obj) > gen || IS_FORWARDED_OBJECT(obj));
             }
-            for (genCur = 1; genCur <= gen; genCur++) {
-                for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
-                }
+        }
+        for (genCur = 1; genCur <= gen; genCur++) {
+            for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
+                FINALIZER_POOL(GGGGC_GEN_OF(obj) > gen || IS_FORWARDED_OBJECT(obj));
             }
-
-            /* then make sure the finalizer queues get promoted */
-            TOSEARCH_ADD(&survivingFinalizers);
-            TOSEARCH_ADD(&survivingFinalizersTail);
-            TOSEARCH_ADD(&readyFinalizers);
         }
-#endif /* GGGGC_FEATURE_FINALIZERS */
+
+        /* then make sure the finalizer queues get promoted */
+        TOSEARCH_ADD(&survivingFinalizers);
+        TOSEARCH_ADD(&survivingFinalizersTail);
+        TOSEARCH_ADD(&readyFinalizers);
+        goto search;
     }
+#endif /* GGGGC_FEATURE_FINALIZERS */
 #endif /* GGGGC_GENERATIONS > 1 */
 
 postCollect:
 
 #ifdef GGGGC_FEATURE_FINALIZERS
-    /* preserve surviving finalizers */
+    /* preserve surviving finalizers, with any that are already there */
     if (survivingFinalizers) {
         poolCur = GGGGC_POOL_OF(survivingFinalizers);
+        survivingFinalizersTail->next__ptr = (GGGGC_FinalizerEntry) poolCur->finalizers;
         poolCur->finalizers = survivingFinalizers;
     }
 #endif
@@ -836,6 +862,48 @@ static struct BreakTableEl *findBreakTableEntry(struct BreakTableEl *breakTable,
     }
 }
 
+#ifdef GGGGC_FEATURE_FINALIZERS
+/* sort a pool's finalizers, after marking, into those for surviving objects,
+ * which stay with the pool that the finalizer is in, and those which are ready
+ * to run. The finalizers or their objects may have been forwarded by an
+ * interrupted collection. */
+static void sortMarkedFinalizers(struct GGGGC_Pool *pool, GGGGC_FinalizerEntry *ready)
+{
+    GGGGC_FinalizerEntry finalizer, nextFinalizer;
+
+    finalizer = (GGGGC_FinalizerEntry) pool->finalizers;
+    pool->finalizers = NULL;
+    while (finalizer) {
+        struct GGGGC_Pool *finalizerPool;
+        struct GGGGC_Header *obj;
+
+        obj = (struct GGGGC_Header *) finalizer;
+        FOLLOW_FORWARDED_OBJECT(obj);
+        finalizer = (GGGGC_FinalizerEntry) obj;
+        nextFinalizer = finalizer->next__ptr;
+
+        /* grab the object */
+        obj = (struct GGGGC_Header *) finalizer->obj__ptr;
+        FOLLOW_FORWARDED_OBJECT(obj);
+
+        if (IS_MARKED(obj)) {
+            /* it survived, keep the finalizer */
+            finalizerPool = GGGGC_POOL_OF(finalizer);
+            finalizer->next__ptr = (GGGGC_FinalizerEntry) finalizerPool->finalizers;
+            finalizerPool->finalizers = (void *) finalizer;
+
+        } else {
+            /* object died, add this to ready finalizers */
+            finalizer->next__ptr = *ready;
+            *ready = finalizer;
+
+        }
+
+        finalizer = nextFinalizer;
+    }
+}
+#endif /* GGGGC_FEATURE_FINALIZERS */
+
 /* perform a full, in-place collection */
 void ggggc_collectFull(COLLECT_FULL_ARGS)
 {
@@ -852,8 +920,7 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
 #endif
 #ifdef GGGGC_FEATURE_FINALIZERS
     int finalizersChecked = 0;
-    GGGGC_FinalizerEntry survivingFinalizers, survivingFinalizersTail, readyFinalizers;
-    survivingFinalizers = survivingFinalizersTail = readyFinalizers = NULL;
+    GGGGC_FinalizerEntry readyFinalizers = NULL;
 #endif
 
     TOSEARCH_INIT();
@@ -895,6 +962,9 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
 #endif /* GGGGC_FEATURE_JITPSTACK */
 
     /* now mark */
+#ifdef GGGGC_FEATURE_FINALIZERS
+search:
+#endif
     while (toSearch->used) {
         void **ptr;
         struct GGGGC_Header *obj;
@@ -925,33 +995,40 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
             /* add its pointers */
             ADD_OBJECT_POINTERS(obj, descriptor);
         }
+    }
 
 #ifdef GGGGC_FEATURE_FINALIZERS
-        /* possibly start handling finalizers */
-        if (!toSearch->used && !finalizersChecked) {
-            GGGGC_FinalizerEntry finalizer = NULL, nextFinalizer = NULL;
-
-            finalizersChecked = 1;
+    /* everything reachable has been marked, so check finalizers */
+    if (!finalizersChecked) {
+        finalizersChecked = 1;
 
-            /* add all the finalizers themselves */
-            for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
-                for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
-                }
+        /* sort all the finalizers */
+        for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
+            for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
+                sortMarkedFinalizers(poolCur, &readyFinalizers);
             }
-            for (genCur = 1; genCur < GGGGC_GENERATIONS; genCur++) {
-                for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
-                    FINALIZER_POOL();
-                }
+        }
+        for (genCur = 1; genCur < GGGGC_GENERATIONS; genCur++) {
+            for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
+                sortMarkedFinalizers(poolCur, &readyFinalizers);
             }
+        }
 
-            /* then make sure the finalizer queues get promoted */
-            TOSEARCH_ADD(&survivingFinalizers);
-            TOSEARCH_ADD(&survivingFinalizersTail);
-            TOSEARCH_ADD(&readyFinalizers);
+        /* then make sure the finalizer queues survive */
+        for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
+            for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
+                TOSEARCH_ADD(&poolCur->finalizers);
+            }
         }
-#endif /* GGGGC_FEATURE_FINALIZERS */
+        for (genCur = 1; genCur < GGGGC_GENERATIONS; genCur++) {
+            for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
+                TOSEARCH_ADD(&poolCur->finalizers);
+            }
+        }
+        TOSEARCH_ADD(&readyFinalizers);
+        goto search;
     }
+#endif /* GGGGC_FEATURE_FINALIZERS */
 
     /* find all our sizes, for later compaction */
     for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
@@ -1015,17 +1092,24 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
 #endif /* GGGGC_FEATURE_JITPSTACK */
 
 #ifdef GGGGC_FEATURE_FINALIZERS
-#define F(finalizer) do { \
-    if (finalizer) { \
-        void *ptr = (void *) (finalizer); \
-        FOLLOW_COMPACTED_OBJECT(ptr); \
-        (finalizer) = (GGGGC_FinalizerEntry) ptr; \
-    } \
-} while(0)
-    F(survivingFinalizers);
-    F(survivingFinalizersTail);
-    F(readyFinalizers);
-#undef F
+    /* including the finalizer queues */
+    for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
+        for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {
+            if (poolCur->finalizers)
+                FOLLOW_COMPACTED_OBJECT(poolCur->finalizers);
+        }
+    }
+    for (genCur = 1; genCur < GGGGC_GENERATIONS; genCur++) {
+        for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {
+            if (poolCur->finalizers)
+                FOLLOW_COMPACTED_OBJECT(poolCur->finalizers);
+        }
+    }
+    if (readyFinalizers) {
+        void *ptr = (void *) readyFinalizers;
+        FOLLOW_COMPACTED_OBJECT(ptr);
+        readyFinalizers = (GGGGC_FinalizerEntry) ptr;
+    }
 #endif
 
     for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {
@@ -1063,8 +1147,6 @@ void ggggc_collectFull(COLLECT_FULL_ARGS)
 #endif
 
 #ifdef GGGGC_FEATURE_FINALIZERS
-    *survivingFinalizersOut = survivingFinalizers;
-    *survivingFinalizersTailOut = survivingFinalizersTail;
     *readyFinalizersOut = readyFinalizers;
 #endif
 }
-- 
2.43.0


From c5eb6910e1e0f0ccb9756dd139cf4277cd863907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 31/40] fix: portablems memory corruption checks treated swept
 free space as objects

---
 collector/portablems.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/collector/portablems.c b/collector/portablems.c
index a1b5b34..3f7b692 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -668,20 +668,23 @@ void ggggc_collect0(unsigned char gen)
     /* sweep our own heap */
     sweep(ggggc_gen0);
 
+    restartTheWorld();
+
+    /* clear our freelist */
+    clearFreeList();
+
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
+    /* the sizes of free space are only in place now, and only for our own heap */
     {
         struct FreeListNode *f;
+        struct GGGGC_Pool *poolCur;
         for (f = freeList; f; f = f->next)
             memset(f + 1, 0, f->size * sizeof(ggc_size_t) - sizeof(struct FreeListNode));
+        for (poolCur = ggggc_gen0; poolCur; poolCur = poolCur->next)
+            memoryCorruptionCheckPool("post-collection", poolCur);
     }
-    memoryCorruptionCheck("post-collection");
 #endif
 
-    restartTheWorld();
-
-    /* clear our freelist */
-    clearFreeList();
-
 #ifdef GGGGC_FEATURE_FINALIZERS
     /* run any finalizers */
     if (readyFinalizers)
-- 
2.43.0


From bd21348e18e34f00bc7c5d123948427693d43320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:31 +0000
Subject: [PATCH 32/40] fix: gen-barriers.c initialised a mutex by assigning an
 initializer, which does not compile

---
 gen-barriers.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gen-barriers.c b/gen-barriers.c
index c0363a2..a0e68e3 100644
--- a/gen-barriers.c
+++ b/gen-barriers.c
@@ -23,7 +23,9 @@ int ggc_barrier_destroy(ggc_barrier_t *barrier)
 
 int ggc_barrier_init(ggc_barrier_t *barrier, unsigned long ct)
 {
-    barrier->lock = GGC_MUTEX_INITIALIZER;
+    /* the initializer may not be an expression */
+    static const ggc_mutex_t unlocked = GGC_MUTEX_INITIALIZER;
+    barrier->lock = unlocked;
     barrier->cur = 0;
     barrier->ct = ct;
     ggc_sem_init(&barrier->waiters, 0);
-- 
2.43.0


From 062450631dd3a81d3b649d3ff4210a85c5d65c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:37 +0000
Subject: [PATCH 33/40] fix: the world barrier was initialised for, and
 destroyed with, no threads

pthread_barrier_init fails for a count of 0, so a program whose only counted
thread blocked destroyed a barrier that was never initialised (SIGFPE in glibc).
---
 threads.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/threads.c b/threads.c
index 58ca759..6b6039b 100644
--- a/threads.c
+++ b/threads.c
@@ -49,7 +49,8 @@ static void *ggggcThreadWrapper(void *arg)
     while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)
         GGC_YIELD();
     ggc_barrier_destroy(&ggggc_worldBarrier);
-    ggc_barrier_init(&ggggc_worldBarrier, --ggggc_threadCount);
+    if (--ggggc_threadCount)
+        ggc_barrier_init(&ggggc_worldBarrier, ggggc_threadCount);
     ggc_mutex_unlock(&ggggc_worldBarrierLock);
 
     /* and give back its pools */
@@ -74,7 +75,8 @@ void ggc_pre_blocking()
     /* take ourselves out of contention */
     if (ggggc_threadCount == (ggc_size_t) -1) ggggc_threadCount = 1;
     else ggc_barrier_destroy(&ggggc_worldBarrier);
-    ggc_barrier_init(&ggggc_worldBarrier, --ggggc_threadCount);
+    if (--ggggc_threadCount)
+        ggc_barrier_init(&ggggc_worldBarrier, ggggc_threadCount);
 
     /* add our roots and pools */
     blockedPoolListNode.pool = ggggc_gen0;
@@ -108,8 +110,8 @@ void ggc_post_blocking()
      * applicable. Perhaps something would be more ideal than a spin-loop
      * though. */
 
-    /* add ourselves back to the world barrier */
-    ggc_barrier_destroy(&ggggc_worldBarrier);
+    /* add ourselves back to the world barrier. There's no barrier for 0. */
+    if (ggggc_threadCount) ggc_barrier_destroy(&ggggc_worldBarrier);
     ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);
 
     /* remove our roots and pools from the list */
-- 
2.43.0


From ad3fc32bfa3fdd6afdee785d1c118fe078095b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:39 +0000
Subject: [PATCH 34/40] fix: don't read past the end of a pool when compacting
 an odd-sized chunk

---
 collector/gembc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index 93d654e..d029fe2 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -1245,7 +1245,7 @@ void ggggc_compact(struct GGGGC_Pool *pool)
             *btEnd++ = *bt++;
 
             /* and copy in the data */
-            for (j = 0; j < sizeof(struct BreakTableEl) / sizeof(ggc_size_t); j++)
+            for (j = 0; j < sizeof(struct BreakTableEl) / sizeof(ggc_size_t) && i + j < chSize; j++)
                 pool->free[i+j] = cur[i+j];
         }
 
-- 
2.43.0


From 8aac111041badffe27fa54e60b524b1b3e82477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:08 +0000
Subject: [PATCH 35/40] fix: compaction's debug checks reject a break table
 that exactly fits

---
 collector/gembc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collector/gembc.c b/collector/gembc.c
index d029fe2..1e4be2f 100644
--- a/collector/gembc.c
+++ b/collector/gembc.c
@@ -1258,14 +1258,14 @@ void ggggc_compact(struct GGGGC_Pool *pool)
 
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
         if ((ggc_size_t *) bt < pool->free) abort();
-        if ((ggc_size_t *) btEnd >= cur + fchSize) abort();
+        if ((ggc_size_t *) btEnd > cur + fchSize) abort();
 #endif
 
         if (cur >= pool->end) break;
     }
 
 #ifdef GGGGC_DEBUG_MEMORY_CORRUPTION
-    if ((ggc_size_t *) btEnd >= pool->end) abort();
+    if ((ggc_size_t *) btEnd > pool->end) abort();
 #endif
 
     pool->breakTableSize = btEnd - bt;
-- 
2.43.0


From 0be13a7f011819651fdcfd16186430aacfce6c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:10 +0000
Subject: [PATCH 36/40] fix: GGC_NULL could not be stored in a reference in C++

---
 ggggc/gc.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ggggc/gc.h b/ggggc/gc.h
index b16e5cb..dc39f15 100644
--- a/ggggc/gc.h
+++ b/ggggc/gc.h
@@ -357,7 +357,11 @@ static type ## __descriptorSlotConstructor type ## __descriptorSlotConstructorIn
 
 /* because the write barrier forces you to use identifiers, an identifier
  * version of NULL */
+#ifdef __cplusplus
+static decltype(nullptr) const ggggc_null = nullptr;
+#else
 static void * const ggggc_null = NULL;
+#endif
 #define GGC_NULL ggggc_null
 
 /* allocate an object */
-- 
2.43.0


From 5e1c0c27f910ae196410cb42ff4f6bd51da2858e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:25 +0000
Subject: [PATCH 37/40] fix: portablems with finalizers did not compile as C++

---
 collector/portablems.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collector/portablems.c b/collector/portablems.c
index 3f7b692..c0168df 100644
--- a/collector/portablems.c
+++ b/collector/portablems.c
@@ -655,7 +655,7 @@ void ggggc_collect0(unsigned char gen)
         struct GGGGC_Pool *pool;
         for (pool = plCur->pool; pool; pool = pool->next) {
             if (pool->finalizers)
-                mark(pool->finalizers);
+                mark((struct GGGGC_Header *) pool->finalizers);
         }
     }
     if (readyFinalizers)
-- 
2.43.0


From 7a927e6eb408957dc1bf6d63e8504aff21501a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:33 +0000
Subject: [PATCH 38/40] fix: ggggc_poolOf was declared where it is not defined

---
 ggggc/gc.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ggggc/gc.h b/ggggc/gc.h
index dc39f15..2630639 100644
--- a/ggggc/gc.h
+++ b/ggggc/gc.h
@@ -108,9 +108,11 @@ typedef char ggggc_size_t_check
 #define GGGGC_POOL_OF(ptr) ((struct GGGGC_Pool *) ((ggc_size_t) (ptr) & GGGGC_POOL_OUTER_MASK))
 
 #else
-/* need a helper function to find a pool */
+/* need a helper function to find a pool (only finalizers need it) */
+#ifdef GGGGC_FEATURE_FINALIZERS
 struct GGGGC_Pool *ggggc_poolOf(void *ptr);
 #define GGGGC_POOL_OF(ptr) (ggggc_poolOf((void *) (ptr)))
+#endif
 
 #endif
 #define GGGGC_GEN_OF(ptr) (GGGGC_POOL_OF(ptr)->gen)
-- 
2.43.0


From a72048d04f877bb43da468a916c497a43d0e7eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:33 +0000
Subject: [PATCH 39/40] fix: ggggc_newPoolProto was declared but never defined

---
 ggggc-internals.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/ggggc-internals.h b/ggggc-internals.h
index 85f06b3..fff7dba 100644
--- a/ggggc-internals.h
+++ b/ggggc-internals.h
@@ -32,9 +32,6 @@ void *ggggc_mallocRaw(struct GGGGC_Descriptor **descriptor, ggc_size_t size);
 /* allocate and initialize a pool */
 struct GGGGC_Pool *ggggc_newPool(int mustSucceed);
 
-/* allocate and initialize a pool, based on a prototype */
-struct GGGGC_Pool *ggggc_newPoolProto(struct GGGGC_Pool *pool);
-
 /* heuristically expand a pool list if it has too many survivors
  * poolList: Pool list to expand
  * newPool: Function to allocate a new pool based on a prototype pool
-- 
2.43.0


From 426e4222d6894cddd11187716ccd65e72cb16928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:24 +0000
Subject: [PATCH 40/40] fix: GGC_MapGet never found a null key

---
 collections/map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/map.c b/collections/map.c
index 3a9efe7..d331580 100644
--- a/collections/map.c
+++ b/collections/map.c
@@ -35,7 +35,7 @@ int GGC_MapGet(GGC_Map map, void *key, void **value, ggc_map_hash_t hash, ggc_ma
     entry = GGC_RAP(GGC_RP(map, entries), hashV);
     while (entry) {
         keyCmp = GGC_RP(entry, key);
-        if (keyCmp && cmp(key, keyCmp) == 0) {
+        if (cmp(key, keyCmp) == 0) {
             *value = GGC_RP(entry, value);
             return 1;
         }
-- 
2.43.0

