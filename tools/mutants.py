"""(name, properties which should notice ('-': behaviour is preserved), [(file, old, new)])"""
G = 'collector/gembc.c'; P = 'collector/portablems.c'; A = 'allocator.c'; T = 'threads.c'; X = 'threads/posix.c'; R = 'roots.c'; I = 'ggggc-internals.h'
GC = 'ggggc/gc.h'; L = 'collections/list.c'; MP = 'collections/map.c'; LH = 'ggggc/collections/list.h'; MH = 'ggggc/collections/map.h'; UH = 'ggggc/collections/unit.h'
M = []


def m(name, want, *edits):
    M.append((name, want, list(edits)))


# ---- C17
m('17-freepools-nolock', 'C17 C12', (A, "        ggc_mutex_lock_raw(&freePoolsLock);\n        if (freePoolsHead) {", "        if (freePoolsHead) {"), (A, "        ggc_mutex_unlock(&freePoolsLock);\n    }\n\n    /* otherwise", "    }\n\n    /* otherwise"))
m('17-norecheck', 'C17', (A, "        if (freePoolsHead) {\n            ret = freePoolsHead;\n            freePoolsHead = freePoolsHead->next;\n            if (!freePoolsHead) freePoolsTail = NULL;\n        }", "        ret = freePoolsHead;\n        freePoolsHead = freePoolsHead->next;\n        if (!freePoolsHead) freePoolsTail = NULL;"))
m('17-unlock-early', 'C17', (A, "    while (pool->next) pool = pool->next;\n    freePoolsTail = pool;\n    ggc_mutex_unlock(&freePoolsLock);", "    ggc_mutex_unlock(&freePoolsLock);\n    while (pool->next) pool = pool->next;\n    freePoolsTail = pool;"))
m('17-lock-late', 'C17', (A, "    ggc_mutex_lock_raw(&freePoolsLock);\n    if (freePoolsHead) {\n        freePoolsTail->next = pool;", "    if (freePoolsHead) {\n        ggc_mutex_lock_raw(&freePoolsLock);\n        freePoolsTail->next = pool;"), (A, "    } else {\n        freePoolsHead = pool;", "    } else {\n        ggc_mutex_lock_raw(&freePoolsLock);\n        freePoolsHead = pool;"))
m('17-slot-hold', 'C17', (A, "    /* allocating may collect, so it can't be done while holding the lock */\n    descriptor = ggggc_allocateDescriptor(slot->size, slot->pointers);\n", ""), (A, "    ggc_mutex_lock_raw(&slot->lock);", "    ggc_mutex_lock_raw(&slot->lock);\n    descriptor = ggggc_allocateDescriptor(slot->size, slot->pointers);\n"))
m('17-slot-norecheck', 'C17', (A, "    if (slot->descriptor) {\n        ggc_mutex_unlock(&slot->lock);\n        return slot->descriptor;\n    }\n", ""))
m('17-slot-noreturnunlock', 'C17', (A, "    if (slot->descriptor) {\n        ggc_mutex_unlock(&slot->lock);\n        return slot->descriptor;\n    }\n", "    if (slot->descriptor)\n        return slot->descriptor;\n"))
m('17-dd-push-locked', 'C17', (A, "    ggggc_descriptorDescriptors[size] = ret;\n    ggc_mutex_unlock(&ggggc_descriptorDescriptorsLock);\n    {\n        GGC_PUSH_1(ggggc_descriptorDescriptors[size]);\n        GGC_GLOBALIZE();\n        GGC_POP();\n    }\n", "    ggggc_descriptorDescriptors[size] = ret;\n    {\n        GGC_PUSH_1(ggggc_descriptorDescriptors[size]);\n        GGC_GLOBALIZE();\n        GGC_POP();\n    }\n    ggc_mutex_unlock(&ggggc_descriptorDescriptorsLock);\n"))
m('17-pre-noyield', 'C17', (T, "    while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)\n        GGC_YIELD();\n\n    /* take ourselves", "    while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0);\n\n    /* take ourselves"))
m('17-create-rawlock', 'C17', (X, "    while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)\n        GGC_YIELD();\n    if (ggggc_threadCount", "    ggc_mutex_lock_raw(&ggggc_worldBarrierLock);\n    if (ggggc_threadCount"))
m('17-malloc-lost', 'C17', ('allocator/malloc.c', "            ggc_mutex_unlock(&poolLock);\n            return NULL;", "            return NULL;"))
m('17-sbrk-lost', 'C17', ('allocator/sbrk.c', "    if (ret != (void *) -1)\n        ret = sbrk(GGGGC_POOL_BYTES);\n    ggc_mutex_unlock(&poolLock);\n\n    if (ret == (void *) -1) {", "    if (ret != (void *) -1)\n        ret = sbrk(GGGGC_POOL_BYTES);\n    if (ret != (void *) -1) ggc_mutex_unlock(&poolLock);\n\n    if (ret == (void *) -1) {"))
m('17-roots-hold', 'C17', (G, "        ggc_mutex_unlock(&ggggc_rootsLock);\n\n        /* wait for the barrier once to allow collection */\n        ggc_barrier_wait_raw(&ggggc_worldBarrier);", "        /* wait for the barrier once to allow collection */\n        ggc_barrier_wait_raw(&ggggc_worldBarrier);\n        ggc_mutex_unlock(&ggggc_rootsLock);\n"))
m('17-fin-locked', 'C17', (G, "    ggc_mutex_unlock(&ggggc_worldBarrierLock);\n\n#ifdef GGGGC_FEATURE_FINALIZERS\n    /* run our finalizers */\n    if (readyFinalizers)\n        ggggc_runFinalizers(readyFinalizers);\n#endif", "#ifdef GGGGC_FEATURE_FINALIZERS\n    /* run our finalizers */\n    if (readyFinalizers)\n        ggggc_runFinalizers(readyFinalizers);\n#endif\n    ggc_mutex_unlock(&ggggc_worldBarrierLock);\n"))
m('17-post-yield', 'C17', (T, "    while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0);", "    while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0) GGC_YIELD();"))
m('17-genbar-leak', 'C17', ('gen-barriers.c', "        barrier->cur = 0;\n        ggc_mutex_unlock(&barrier->lock);\n        return 0;", "        barrier->cur = 0;\n        return 0;"))
# ---- C14/15/16/07
m('15-noinit', 'C15', (T, "    ggc_barrier_destroy(&ggggc_worldBarrier);\n    ggc_barrier_init(&ggggc_worldBarrier, --ggggc_threadCount);\n    ggc_mutex_unlock(&ggggc_worldBarrierLock);\n\n    /* and give", "    --ggggc_threadCount;\n    ggc_mutex_unlock(&ggggc_worldBarrierLock);\n\n    /* and give"))
m('15-fail', 'C15', (X, "        ggc_barrier_destroy(&ggggc_worldBarrier);\n        ggc_barrier_init(&ggggc_worldBarrier, --ggggc_threadCount);\n        ggc_mutex_unlock(&ggggc_worldBarrierLock);\n        errno = err;", "        errno = err;\n        ggc_mutex_unlock(&ggggc_worldBarrierLock);"))
m('16-noremove', 'C16', (T, "            if (pslCur->next == &blockedPointerStackListNode) {\n                pslCur->next = pslCur->next->next;\n                break;", "            if (pslCur->next == &blockedPointerStackListNode) {\n                pslCur->next = NULL;\n                break;"))
m('16-remove-skip', 'C16', (T, "        for (plCur = ggggc_blockedThreadPool0s; plCur->next; plCur = plCur->next) {", "        for (plCur = ggggc_blockedThreadPool0s->next; plCur->next; plCur = plCur->next) {"))
m('16-errno', 'C16', (X, "    errno = err; \\\n", "    if (errno == 0) errno = err; \\\n"))
# ---- behaviour preserved
m('r-freegen-helper', '-', (A, "    while (pool->next) pool = pool->next;\n    freePoolsTail = pool;\n    ggc_mutex_unlock(&freePoolsLock);", "    freePoolsTail = lastPool(pool);\n    ggc_mutex_unlock(&freePoolsLock);"), (A, "/* free a generation (used when a thread exits) */", "static struct GGGGC_Pool *lastPool(struct GGGGC_Pool *p)\n{\n    for (; p->next; p = p->next);\n    return p;\n}\n/* free a generation (used when a thread exits) */"))
m('r-lockhelper', '-', (T, "/* call this before blocking */", "static void takeWorld(void)\n{\n    for (;;) {\n        if (ggc_mutex_trylock(&ggggc_worldBarrierLock) == 0) return;\n        if (ggggc_stopTheWorld) ggggc_yield();\n    }\n}\n/* call this before blocking */"), (T, "    while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)\n        GGC_YIELD();\n\n    /* take ourselves", "    takeWorld();\n    /* take ourselves"))
m('r-post-rawlock', '-', (T, "    while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0);", "    ggc_mutex_lock_raw(&ggggc_worldBarrierLock);"))
m('r-slot', '-', (A, "    if (slot->descriptor) {\n        ggc_mutex_unlock(&slot->lock);\n        return slot->descriptor;\n    }\n    slot->descriptor = descriptor;\n    ggc_mutex_unlock(&slot->lock);\n\n    /* make the slot descriptor a root */\n    {\n        GGC_PUSH_1(slot->descriptor);\n        GGC_GLOBALIZE();\n        GGC_POP();\n    }\n", "    {\n    int mine = !slot->descriptor;\n    if (mine)\n        slot->descriptor = descriptor;\n    ggc_mutex_unlock(&slot->lock);\n    if (mine) {\n        GGC_PUSH_1(slot->descriptor);\n        GGC_GLOBALIZE();\n        GGC_POP();\n    }\n    }\n"))
m('r-newpool-alwayslock', '-', (A, "    if (freePoolsHead) {\n        ggc_mutex_lock_raw(&freePoolsLock);\n        if (freePoolsHead) {\n            ret = freePoolsHead;\n            freePoolsHead = freePoolsHead->next;\n            if (!freePoolsHead) freePoolsTail = NULL;\n        }\n        ggc_mutex_unlock(&freePoolsLock);\n    }", "    ggc_mutex_lock_raw(&freePoolsLock);\n    ret = freePoolsHead;\n    if (ret) {\n        freePoolsHead = ret->next;\n        if (freePoolsHead == NULL) freePoolsTail = NULL;\n    }\n    ggc_mutex_unlock(&freePoolsLock);"))
m('r-post-unlink', '-', (T, "    if (ggggc_blockedThreadPool0s == &blockedPoolListNode) {\n        ggggc_blockedThreadPool0s = ggggc_blockedThreadPool0s->next;\n\n    } else {\n        for (plCur = ggggc_blockedThreadPool0s; plCur->next; plCur = plCur->next) {\n            if (plCur->next == &blockedPoolListNode) {\n                plCur->next = plCur->next->next;\n                break;\n            }\n        }\n\n    }", "    {\n        struct GGGGC_PoolList **plp = &ggggc_blockedThreadPool0s;\n        while (*plp && *plp != &blockedPoolListNode) plp = &(*plp)->next;\n        if (*plp) *plp = blockedPoolListNode.next;\n        (void) plCur;\n    }"))
m('15-zero-wrapper', 'C15', (T, "    if (--ggggc_threadCount)\n        ggc_barrier_init(&ggggc_worldBarrier, ggggc_threadCount);\n    ggc_mutex_unlock", "    ggc_barrier_init(&ggggc_worldBarrier, --ggggc_threadCount);\n    ggc_mutex_unlock"))
m('15-zero-pre', 'C15', (T, "    if (--ggggc_threadCount)\n        ggc_barrier_init(&ggggc_worldBarrier, ggggc_threadCount);\n\n", "    ggc_barrier_init(&ggggc_worldBarrier, --ggggc_threadCount);\n\n"))
m('15-zero-post', 'C15', (T, "    if (ggggc_threadCount) ggc_barrier_destroy", "    ggc_barrier_destroy"))
m('15-zero-post2', 'C15', (T, "    if (ggggc_threadCount) ggc_barrier_destroy", "    if (ggggc_threadCount > 1) ggc_barrier_destroy"))
m('15-dec-twice', 'C15', (T, "    if (--ggggc_threadCount)\n        ggc_barrier_init(&ggggc_worldBarrier, ggggc_threadCount);\n\n", "    if (--ggggc_threadCount > 1)\n        ggc_barrier_init(&ggggc_worldBarrier, ggggc_threadCount);\n\n"))

# ---- C20, C01 on lists
m('20-push-tailnull', 'C20', (L, "    if (tail)\n        GGC_WP(tail, next, node);\n    else\n        GGC_WP(list, head, node);\n    GGC_WP(list, tail, node);", "    if (tail)\n        GGC_WP(tail, next, node);\n    else {\n        GGC_WP(list, head, node);\n    }\n    if (tail) GGC_WP(list, tail, node);"))
m('20-push-nolen', 'C20', (L, "    len = GGC_RD(list, length) + 1;\n    GGC_WD(list, length, len);\n\n    return;\n}\n\n/* push a list to the end", "    len = GGC_RD(list, length);\n    GGC_WD(list, length, len);\n\n    return;\n}\n\n/* push a list to the end"))
m('20-pushlist-keepfrom', 'C20', (L, "    /* and reset the old list */\n    GGC_WD(from, length, 0);\n    head = NULL;\n    GGC_WP(from, head, head);\n    GGC_WP(from, tail, head);\n", "    /* and reset the old list */\n    GGC_WD(from, length, 0);\n    head = NULL;\n    GGC_WP(from, head, head);\n"))
m('20-shift-len', 'C20', (L, "        len = GGC_RD(list, length) - 1;\n        GGC_WD(list, length, len);\n\n        ret", "        len = GGC_RD(list, length) - 1;\n        if (head)\n            GGC_WD(list, length, len);\n\n        ret"))
m('20-toarray-short', 'C20', (L, "         i < GGC_RD(list, length) && curn;", "         i + 1 < GGC_RD(list, length) && curn;"))
m('20-toarray-off', 'C20', (L, "         GGC_WAP(ret, i, cur);", "         if (i < 1000) GGC_WAP(ret, i, cur);"))
m('20-toarray-size', 'C20', (L, "GGC_NEW_PA(GGC_voidp, GGC_RD(list, length));", "GGC_NEW_PA(GGC_voidp, GGC_RD(list, length)+1);"))
m('20-toarray-alt', 'C20', (L, "i++, curn = GGC_RP(curn, next)) {", "i++, curn = (i == 100) ? curn : GGC_RP(curn, next)) {"))
m('20-inslist-len', 'C20', (L, "    tolen = GGC_RD(to, length) + fromlen;", "    tolen = next ? GGC_RD(to, length) + fromlen : GGC_RD(to, length);"))
m('20-unshiftlist-swap', 'C20', (L, "    head = GGC_RP(to, head);\n    tail = GGC_RP(from, tail);", "    head = GGC_RP(from, head);\n    tail = GGC_RP(to, tail);"))
m('01-push-value', 'C01 C20', (L, "GGC_PUSH_4(list, value, node, tail);", "GGC_PUSH_3(list, node, tail);"))
m('01-unshift-head', 'C01 C20', (L, "GGC_PUSH_4(list, value, head, node);", "GGC_PUSH_3(list, value, node);"))
m('01-mapput-key', 'C01', (MP, "    GGC_PUSH_9(map, key, value, keyCmp, valueCmp, entry, nextEntry, prevEntry,\n        newEntries);", "    GGC_PUSH_8(map, value, keyCmp, valueCmp, entry, nextEntry, prevEntry,\n        newEntries);"))
m('01-mapput-new', 'C01', (MP, "        newEntries = GGC_NEW_PA(GGC_MapEntry, newSize);\n", "        newEntries = GGC_NEW_PA(GGC_MapEntry, newSize);\n        {GGC_MapEntryArray ne = newEntries; hashV = hash(key); newEntries = ne;}\n"))
m('01-mapget-key', 'C01', (MP, "GGC_PUSH_4(map, entry, key, keyCmp);", "GGC_PUSH_3(map, entry, keyCmp);"))
m('01-clone', 'C01', (MP, "GGC_PUSH_10(map, ret, oldEntries, newEntries, oldEntry, oldNextEntry, newEntry, newNextEntry, key, value);", "GGC_PUSH_9(map, ret, newEntries, oldEntry, oldNextEntry, newEntry, newNextEntry, key, value);"))
m('01-dd-stale', 'C01', (A, "    /* pushing yields, so ret may be stale by now */\n    return ggggc_descriptorDescriptors[size];", "    return ret;"))
m('01-finalize-obj', 'C01', (A, "    GGC_PUSH_3(obj, entry, next);", "    GGC_PUSH_2(entry, next);"))
m('01-runfin', 'C01 C19', (A, "    GGC_PUSH_3(finalizers, finalizer, obj);\n\n    finalizer = finalizers;", "    GGC_PUSH_2(finalizers, obj);\n\n    finalizer = finalizers;"))

# ---- C03
GE = 'ggggc/gc-gembc.h'
m('03-gen1', 'C03', (GE, "    if (ggggc_pool->gen) { \\", "    if (ggggc_pool->gen > 1) { \\"))
m('03-value', 'C03', (GE, "    ggggc_size_t ggggc_o = (ggc_size_t) (object); \\".replace('ggggc_size_t', 'ggc_size_t'), "    ggc_size_t ggggc_o = (ggc_size_t) (value); \\"))
m('03-cond', 'C03', (GE, "    if (ggggc_pool->gen) { \\", "    if (ggggc_pool->gen && (value)) { \\"))
m('03-card', 'C03', (GE, "ggggc_pool->remember[GGGGC_CARD_OF(ggggc_o)] = 1;", "ggggc_pool->remember[GGGGC_CARD_OF(ggggc_o) & ~(ggc_size_t) 1] = 1;"))
m('03-wup', 'C03', (GC, "    GGGGC_WP(ggggc_desc, user__ptr, value); \\", "    ggggc_desc->user__ptr = (value); \\"))
m('03-wup-obj', 'C03', (GC, "    GGGGC_WP(ggggc_desc, user__ptr, value); \\", "    GGGGC_WP(object, header.descriptor__ptr->user__ptr, value); \\"))
m('03-wap', 'C03', (GC, "#define GGC_WAP(object, index, value) GGGGC_WP(object, a__ptrs[(index)], value)", "#define GGC_WAP(object, index, value) ((object)->a__ptrs[(index)] = (value))"))
m('03-cxx', 'C03', (GC, "                    GGC_WP(that, name, x); \\", "                    that->name ## __ptr = x; \\"))
m('03-cxxput', 'C03', (GC, "            GGC_WAP(p, idx, val);", "            p->a__ptrs[idx] = val;"))
m('03-list', 'C03', (L, "    GGC_WP(list, head, node);\n    if (!head)", "    list->head__ptr = node;\n    if (!head)"))
m('03-map', 'C03', (MP, "                GGC_WP(entry, next, prevEntry);\n", "                entry->next__ptr = prevEntry;\n"))
m('03-late', 'C03', (L, "    node = GGC_NEW(GGC_ListNode);\n    GGC_WP(node, el, value);\n", "    node = GGC_NEW(GGC_ListNode);\n    GGC_YIELD();\n    node->el__ptr = value;\n"))
m('03-fresh-ok', '-', (L, "    node = GGC_NEW(GGC_ListNode);\n    GGC_WP(node, el, value);\n", "    node = GGC_NEW(GGC_ListNode);\n    node->el__ptr = value;\n"))
m('03-order-ok', '-', (GE, "    (object)->member = (value); \\\n} while(0)\n#else", "} while(0)\n#else"), (GE, "    if (ggggc_pool->gen) { \\", "    (object)->member = (value); \\\n    if (ggggc_pool->gen) { \\"))
m('03-always-ok', '-', (GE, "    if (ggggc_pool->gen) { \\", "    { \\"))
# ---- C02
PH = 'ggggc/push.h'
m('02-entry9', 'C02', (PH, "    ggggc_pstack_cur->pointers[8] = &(ggggc_ptr_i); \\\n    ggggc_pstack_cur->pointers[9] = NULL; \\", "    ggggc_pstack_cur->pointers[8] = &(ggggc_ptr_h); \\\n    ggggc_pstack_cur->pointers[9] = NULL; \\"))
m('02-size5', 'C02', (PH, "    ggggc_pstack_cur->size = 5; \\", "    ggggc_pstack_cur->size = 4; \\"))
m('02-early', 'C02', (PH, "    ggggc_pstack_cur->pointers[0] = &(ggggc_ptr_a); \\\n    ggggc_pstack_cur->pointers[1] = &(ggggc_ptr_b); \\\n    ggggc_pstack_cur->pointers[2] = &(ggggc_ptr_c); \\\n    ggggc_pstack_cur->pointers[3] = NULL; \\\n    ggggc_pointerStack = ggggc_pstack_cur; \\", "    ggggc_pstack_cur->pointers[0] = &(ggggc_ptr_a); \\\n    ggggc_pointerStack = ggggc_pstack_cur; \\\n    ggggc_pstack_cur->pointers[1] = &(ggggc_ptr_b); \\\n    ggggc_pstack_cur->pointers[2] = &(ggggc_ptr_c); \\\n    ggggc_pstack_cur->pointers[3] = NULL; \\"))
m('02-noyield', 'C02', (PH, "    ggggc_pstack_cur->pointers[1] = NULL; \\\n    ggggc_pointerStack = ggggc_pstack_cur; \\\n    GGC_YIELD(); \\", "    ggggc_pstack_cur->pointers[1] = NULL; \\\n    ggggc_pointerStack = ggggc_pstack_cur; \\"))
m('02-ctor', 'C02', (GC, "            ps.ps.size = 1;", "            ps.ps.size = 0;"))
m('02-copy', 'C02', (GC, "        inline GGC<T>(const GGC<T> &other) : GGC<T>(other.ptr) {}", "        inline GGC<T>(const GGC<T> &other) : ptr{other.ptr}, ps(other.ps) { ps.ps.next = ggggc_pointerStack; ggggc_pointerStack = &ps.ps; }"))
m('02-dtor', 'C02', (GC, "            if (ggggc_pointerStack != &ps.ps)\n                abort();\n            ggggc_pointerStack = ggggc_pointerStack->next;", "            if (ggggc_pointerStack != &ps.ps)\n                ggggc_pointerStack = ggggc_pointerStack->next;"))
m('02-localpush', 'C02', (GC, "    ~GGGGC_LocalPush() {\n        GGGGC_POP();\n    }", "    ~GGGGC_LocalPush() {\n    }"))
m('02-return', 'C02', (GC, "        ((ggggc_pointerStack = ggggc_pointerStack->next), 0) : \\", "        0 : \\"))
m('02-glob-size', 'C02', (R, "memcpy(gPointerStack->pointers, ggggc_pointerStack->pointers, ggggc_pointerStack->size * sizeof(void *));", "memcpy(gPointerStack->pointers, ggggc_pointerStack->pointers, gPointerStack->size * sizeof(void *) / 2);"))
m('02-glob-last', 'C02', (R, "    ggggc_pointerStackGlobals = gPointerStack;\n", ""))
m('02-glob-next', 'C02', (R, "    gPointerStack->next = NULL;", "    gPointerStack->next = ggggc_pointerStack->next;"))
m('02-glob-find', 'C02', (R, "        while (cur->next) cur = cur->next;", "        while (cur->next && cur->next->next) cur = cur->next;"))
m('02-fin-pop', 'C02', (G, "        GGC_POP();\n", ""))
m('02-list-manual', 'C02', (L, "GGC_PUSH_4(list, value, node, tail);", "GGC_PUSH_MANUAL_4(list, value, node, tail);"))
m('02-nottls', 'C02', ('globals.c', "ggc_thread_local struct GGGGC_PointerStack *ggggc_pointerStack, *ggggc_pointerStackGlobals;", "struct GGGGC_PointerStack *ggggc_pointerStack, *ggggc_pointerStackGlobals;"), (GC, "extern ggc_thread_local struct GGGGC_PointerStack *ggggc_pointerStack, *ggggc_pointerStackGlobals;", "extern struct GGGGC_PointerStack *ggggc_pointerStack, *ggggc_pointerStackGlobals;"))
m('02-glob-prepend-ok', '-', (R, "        struct GGGGC_PointerStack *cur = ggggc_pointerStack;\n        while (cur->next) cur = cur->next;\n        ggggc_pointerStackGlobals = cur;", "        struct GGGGC_PointerStack *cur;\n        for (cur = ggggc_pointerStack; cur->next; ) {\n            struct GGGGC_PointerStack *nx = cur->next;\n            cur = nx;\n        }\n        ggggc_pointerStackGlobals = cur;"))
m('02-glob-loop-ok', '-', (R, "    memcpy(gPointerStack->pointers, ggggc_pointerStack->pointers, ggggc_pointerStack->size * sizeof(void *));", "    { ggc_size_t gi, gn = ggggc_pointerStack->size; for (gi = 0; gi < gn; gi++) gPointerStack->pointers[gi] = ggggc_pointerStack->pointers[gi]; }"))
m('02-order-ok', '-', (PH, "    ggggc_pstack_cur->next = ggggc_pointerStack; \\\n    ggggc_pstack_cur->size = 2; \\\n    ggggc_pstack_cur->pointers[0] = &(ggggc_ptr_a); \\\n    ggggc_pstack_cur->pointers[1] = &(ggggc_ptr_b); \\", "    ggggc_pstack_cur->pointers[1] = &(ggggc_ptr_a); \\\n    ggggc_pstack_cur->pointers[0] = &(ggggc_ptr_b); \\\n    ggggc_pstack_cur->size = 2; \\\n    ggggc_pstack_cur->next = ggggc_pointerStack; \\"))
# ---- C12
m('12-next', 'C12', (A, "    ret->next = NULL;\n    ret->free", "    ret->free"))
m('12-free', 'C12', (A, "    ret->free = ret->start;\n", "    if (!ret->free) ret->free = ret->start;\n"))
m('12-surv', 'C12', (A, "    ret->survivors = 0;\n", ""))
m('12-fin', 'C12', (A, "    ret->finalizers = NULL;\n", ""))
m('12-tail', 'C12', (A, "            if (!freePoolsHead) freePoolsTail = NULL;\n", ""), (A, "    if (freePoolsHead) {\n        freePoolsTail->next = pool;", "    if (freePoolsTail) {\n        freePoolsTail->next = pool;"))
m('12-rem', 'C12', (G, "        memset(ret->remember, 0, GGGGC_CARDS_PER_POOL);", "        memset(ret->remember, 0, GGGGC_CARDS_PER_POOL / 8);"))
m('12-rem2', 'C12', (G, "    if (gen > 0)\n        memset", "    if (gen > 1)\n        memset"))
m('12-gen', 'C12', (G, "    ret->gen = gen;\n", "    if (!ret->gen) ret->gen = gen;\n"))
m('12-fo', 'C12', (G, "    ret->firstObject[GGGGC_CARD_OF(ret->start)] =\n        (((ggc_size_t) ret->start) & GGGGC_CARD_INNER_MASK) / sizeof(ggc_size_t);\n", ""))
m('12-fo2', 'C12', (G, "    ret->firstObject[GGGGC_CARD_OF(ret->start)] =\n", "    ret->firstObject[0] =\n"))
m('12-tail2', 'C12', (A, "    freePoolsTail = pool;\n    ggc_mutex_unlock(&freePoolsLock);", "    if (!freePoolsTail) freePoolsTail = pool;\n    ggc_mutex_unlock(&freePoolsLock);"))
m('12-overwrite', 'C12', (A, "            pool->next = newPool(poolList);\n            pool = pool->next;\n            if (!pool) break;", "            poolList->next = newPool(poolList);\n            pool = poolList->next;\n            if (!pool) break;"))
m('12-onlyhead', 'C12', (A, "        freePoolsTail->next = pool;\n    } else {", "        pool->next = freePoolsHead;\n        freePoolsHead = pool;\n    } else {"))
m('12-proto', 'C12', (G, "    return ggggc_newPoolGen(proto->gen, 0);", "    return ggggc_newPoolGen(0, 0);"))
m('12-wronggen', 'C12', (G, "ggggc_pools[gen] = pool = ggggc_newPoolGen(gen, 1);", "ggggc_pools[gen] = pool = ggggc_newPoolGen(1, 1);"))
m('12-end', 'C12', (A, "    ret->end = (ggc_size_t *) ((unsigned char *) ret + GGGGC_POOL_BYTES);", "    if (!ret->end) ret->end = (ggc_size_t *) ((unsigned char *) ret + GGGGC_POOL_BYTES);"))
m('12-helper-ok', '-', (A, "    ret->next = NULL;\n    ret->free = ret->start;", "    { struct GGGGC_Pool *p2 = ret; p2->free = &p2->start[0]; p2->next = 0; }"))
m('12-prepend-ok', '-', (A, "    ggc_mutex_lock_raw(&freePoolsLock);\n    if (freePoolsHead) {\n        freePoolsTail->next = pool;\n    } else {\n        freePoolsHead = pool;\n    }\n    while (pool->next) pool = pool->next;\n    freePoolsTail = pool;\n    ggc_mutex_unlock(&freePoolsLock);", "    struct GGGGC_Pool *last;\n    for (last = pool; last->next; last = last->next);\n    ggc_mutex_lock_raw(&freePoolsLock);\n    last->next = freePoolsHead;\n    if (!freePoolsHead) freePoolsTail = last;\n    freePoolsHead = pool;\n    ggc_mutex_unlock(&freePoolsLock);"))
m('12-expand-ok', '-', (A, "        for (i = 0; i < poolCt; i++) {\n            pool->next = newPool(poolList);\n            pool = pool->next;\n            if (!pool) break;\n        }", "        struct GGGGC_Pool *fresh;\n        for (i = poolCt; i > 0; i--) {\n            fresh = newPool(poolList);\n            if (!fresh) break;\n            pool->next = fresh;\n            pool = fresh;\n        }"))
m('12-remalways-ok', '-', (G, "    if (gen > 0)\n        memset(ret->remember, 0, GGGGC_CARDS_PER_POOL);", "    memset(ret->remember, 0, sizeof(ret->remember));"))
# ---- C07: extended tags
FT = "            for (wordIdx = 0; wordIdx < sizeof(ggc_size_t); wordIdx++) {\n"
FB = """            int wordIdx;
            size_t tags = *((ggc_size_t *) jpsCur);
            for (wordIdx = 0; wordIdx < sizeof(ggc_size_t); wordIdx++) {
                unsigned char tag = tags & 0xFF;
                tags >>= 8;
                if (tag == 0xFF) {
                    /* End-of-tags tag */
                    break;
                }
                jpsCur++;
                /* Lowest bit indicates pointer */
                if ((tag & 0x1) == 0 && *jpsCur)
                    %s
            }
"""
FA = FB % 'TOSEARCH_ADD(jpsCur);'; FU = FB % 'FOLLOW_COMPACTED_OBJECT(*jpsCur);'
for nm, o in (('a', FA), ('u', FU)):
    m('07-tags7' + nm, 'C07', (G, o, o.replace('sizeof(ggc_size_t);', 'sizeof(ggc_size_t) - 1;')))
    m('07-tagbit' + nm, 'C07', (G, o, o.replace('(tag & 0x1)', '(tag & 0x3)')))
    m('07-tagend' + nm, 'C07', (G, o, o.replace('tag == 0xFF', '(tag & 0xFE) == 0xFE')))
    m('07-taginc' + nm, 'C07', (G, o, o.replace("                jpsCur++;\n", "").replace("                tags >>= 8;\n", "                tags >>= 8;\n                jpsCur++;\n")))
    m('07-tagshift' + nm, 'C07', (G, o, o.replace("                tags >>= 8;\n", "").replace("                jpsCur++;\n", "                jpsCur++;\n                if (tag & 1) tags >>= 8;\n")))
    m('07r-tagw' + nm, '-', (G, o, o.replace("for (wordIdx = 0; wordIdx < sizeof(ggc_size_t); wordIdx++) {", "wordIdx = 0;\n while (wordIdx != 8) {").replace("                jpsCur++;\n", "                wordIdx++;\n                jpsCur++;\n").replace('(tag & 0x1) == 0 && *jpsCur', '*jpsCur && !(tag & 1)')))
    m('07r-tagb' + nm, '-', (G, o, o.replace("size_t tags = *((ggc_size_t *) jpsCur);", "unsigned char *tagp = (unsigned char *) jpsCur;").replace("unsigned char tag = tags & 0xFF;\n                tags >>= 8;", "unsigned char tag = tagp[wordIdx];")))
m('07-ptags7', 'C07', (P, FT, FT.replace(');', ') - 1;').replace('sizeof(ggc_size_t;', 'sizeof(ggc_size_t);')))
# ---- C04
m('04-zero-words', 'C04', (G, "memset(ret, 0, size * sizeof(ggc_size_t));", "memset(ret, 0, size * sizeof(ggc_size_t) - sizeof(ggc_size_t));"))
m('04-zero-cap', 'C04', (G, "memset(ret, 0, size * sizeof(ggc_size_t));", "memset(ret, 0, (unsigned short) (size * sizeof(ggc_size_t)));"))
m('04-gt', 'C04', (G, "    /* do we have enough space? */\n    if (pool->end - pool->free >= size) {\n        /* good, allocate here */\n        ret = (struct GGGGC_Header *) pool->free;\n        pool->free += size;\n\n        /* and clear", "    /* do we have enough space? */\n    if (pool->end - pool->free >= size - 1) {\n        /* good, allocate here */\n        ret = (struct GGGGC_Header *) pool->free;\n        pool->free += size;\n\n        /* and clear"))
m('04-int', 'C04', (G, "    if (pool->end - pool->free >= size) {\n        /* good, allocate here */\n        ret = (struct GGGGC_Header *) pool->free;\n        pool->free += size;\n\n        /* and clear", "    if (pool->end - pool->free >= (size & 0xFFFF)) {\n        /* good, allocate here */\n        ret = (struct GGGGC_Header *) pool->free;\n        pool->free += size;\n\n        /* and clear"))
m('04-adv', 'C04', (G, "        pool->free += size;\n\n        /* and clear", "        pool->free += size - (size > 100);\n\n        /* and clear"))
m('04-nopush', 'C04 C01', (G, "        GGC_PUSH_1(*descriptor);\n        ggggc_collect0(0);\n        GGC_POP();", "        ggggc_collect0(0);"))
#m('04-canary', 'C04', (G, "    ret->ggggc_memoryCorruptionCheck = GGGGC_MEMORY_CORRUPTION_VAL;\n#endif\n\n    } else if", "    ;\n#endif\n\n    } else if"), )
m('04-toolarge', 'C04', (G, "size > (ggc_size_t) (pool->end - pool->start)", "size > (ggc_size_t) (pool->end - pool->free)"))
m('04-toolarge2', 'C04', (G, "size > (ggc_size_t) (pool->end - pool->start)", "size > GGGGC_WORDS_PER_POOL"))
m('04-gen0lost', 'C04', (G, "ggggc_gen0 = ggggc_pool0 = pool = ggggc_newPoolGen(0, 1);", "ggggc_pool0 = pool = ggggc_newPoolGen(0, 1);"))
m('04-may', 'C04', (G, "ggggc_gen0 = ggggc_pool0 = pool = ggggc_newPoolGen(0, 1);", "ggggc_gen0 = ggggc_pool0 = pool = ggggc_newPoolGen(0, 0);"))
m('04-stale', 'C04 C01', (G, "    struct GGGGC_Header *ret = (struct GGGGC_Header *) ggggc_mallocRaw(&descriptor, descriptor->size);\n    ret->descriptor__ptr = descriptor;", "    struct GGGGC_Descriptor *d2 = descriptor; struct GGGGC_Header *ret = (struct GGGGC_Header *) ggggc_mallocRaw(&descriptor, descriptor->size);\n    ret->descriptor__ptr = d2;"))
m('04-pa', 'C04', (A, "ggggc_allocateDescriptorPA(sz + 1 + sizeof(struct GGGGC_Header)/sizeof(ggc_size_t));", "ggggc_allocateDescriptorPA(sz + sizeof(struct GGGGC_Header)/sizeof(ggc_size_t));"))
m('04-pa-dbg', 'C04', (A, "ggggc_allocateDescriptorPA(sz + 1 + sizeof(struct GGGGC_Header)/sizeof(ggc_size_t));", "ggggc_allocateDescriptorPA(sz + 2);"))
m('04-da-round', 'C04', (A, "((nmemb*size)+sizeof(ggc_size_t)-1)/sizeof(ggc_size_t)", "(nmemb*size)/sizeof(ggc_size_t)"))
m('04-da-round2', 'C04', (A, "((nmemb*size)+sizeof(ggc_size_t)-1)/sizeof(ggc_size_t)", "nmemb*((size+4)/sizeof(ggc_size_t))"))
m('04-da-len', 'C04', (A, "    ret->length = nmemb;", "    ret->length = nmemb*size;"))
m('04-g1', 'C04', (G, "    if (pool->end - pool->free >= size) {\n        ggc_size_t retCard, freeCard;", "    if (pool->end - pool->free + 1 >= size) {\n        ggc_size_t retCard, freeCard;"))
m('04-pms3', 'C04', (P, "(*freeListCur)->size >= size + 4", "(*freeListCur)->size >= size + 2"))
m('04-pmsnext', 'C04', (P, "            next->size = (*freeListCur)->size - size;", "            next->size = (*freeListCur)->size;"))
#m('04-pmsorder', 'C04', (P, "            next->next = (*freeListCur)->next;\n            next->size = (*freeListCur)->size - size;\n            next->zero = 0;", "            next->zero = 0;\n            next->size = (*freeListCur)->size - size;\n            next->next = (*freeListCur)->next;"))
m('04-pmszero', 'C04', (P, "            next->zero = 0;\n", ""))
m('04-pmspool', 'C04', (P, "                pool->next = ggggc_gen0;\n", ""))
m('04-pmsdrop', 'C04', (P, "            *freeListCur = (*freeListCur)->next;\n            break;", "            freeList = (*freeListCur)->next;\n            break;"))
m('04-pmsnode', 'C04', (P, "    node->next = freeList;\n    freeList = node;", "    node->next = NULL;\n    freeList = node;"))
m('04-pmssize', 'C04', (P, "    node->size = pool->end - pool->start;", "    node->size = GGGGC_WORDS_PER_POOL;"))
m('04-newda', 'C04', (GC, "((GGC_ ## type ## _Array) ggggc_mallocDataArray((size), sizeof(type)))", "((GGC_ ## type ## _Array) ggggc_mallocDataArray((size), sizeof(ggc_size_t)))"))
m('04-newpa', 'C04', (GC, "((type ## Array) ggggc_mallocPointerArray((size)))", "((type ## Array) ggggc_mallocPointerArray((size)-1))"))
m('04r-flip', '-', (G, "    if (pool->end - pool->free >= size) {\n        /* good, allocate here */\n        ret = (struct GGGGC_Header *) pool->free;\n        pool->free += size;\n\n        /* and clear", "    if (!(pool->free + size > pool->end)) {\n        /* good, allocate here */\n        ret = (struct GGGGC_Header *) pool->free;\n        pool->free = pool->free + size;\n\n        /* and clear"))
m('04r-loop', '-', (G, "        memset(ret, 0, size * sizeof(ggc_size_t));\n\n#ifdef GGGGC_DEBUG_M", "        memset((void *) ret, 0, size << 3);\n\n#ifdef GGGGC_DEBUG_M"))
m('04r-pms', '-', (P, "(*freeListCur)->size >= size + 4", "(*freeListCur)->size > size + 3"), (P, "    node->next = freeList;\n    freeList = node;", "    struct FreeListNode *o = freeList; freeList = node;\n    node->next = o;"))
m('04r-pms3', '-', (P, "(*freeListCur)->size >= size + 4", "(*freeListCur)->size >= size + 3"))
m('04r-da', '-', (A, "    ggc_size_t sz = ((nmemb*size)+sizeof(ggc_size_t)-1)/sizeof(ggc_size_t);", "    ggc_size_t bytes = nmemb*size; ggc_size_t sz = bytes/sizeof(ggc_size_t);\n if (bytes % sizeof(ggc_size_t)) sz++;"))
m('04r-memloop', '-', (G, "        memset(ret, 0, size * sizeof(ggc_size_t));\n\n#ifdef GGGGC_DEBUG_M", "        { ggc_size_t zi; for (zi = 0; zi < size; zi++) ((ggc_size_t *) (void *) ret)[zi] = 0; }\n\n#ifdef GGGGC_DEBUG_M"))
# ---- C09
m('09-gen2', 'C09', (G, "    for (genCur = gen + 1; genCur < GGGGC_GENERATIONS; genCur++) {\n        for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {\n            for (i", "    for (genCur = gen + 1; genCur <= gen + 1; genCur++) {\n        for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {\n            for (i"))
m('09-cards', 'C09', (G, "i < GGGGC_CARDS_PER_POOL; i++) {\n                if (poolCur->remember", "i < GGGGC_CARDS_PER_POOL - 1; i++) {\n                if (poolCur->remember"))
m('09-freecond', 'C09', (G, "if ((ggc_size_t *) obj >= poolCur->end || obj->descriptor__ptr == NULL) break;", "if (obj->descriptor__ptr == NULL) break;"))
m('09-nullcond', 'C09', (G, "if ((ggc_size_t *) obj >= poolCur->end || obj->descriptor__ptr == NULL) break;", "if ((ggc_size_t *) obj >= poolCur->end) break;"))
m('09-firstonly', 'C09', (G, "while (GGGGC_CARD_OF(obj) == i) {", "if (GGGGC_CARD_OF(obj) == i) do {"), (G, "obj->descriptor__ptr == NULL) break;\n                    }", "obj->descriptor__ptr == NULL) break;\n                    } while (0);"))
m('09-clear-early', 'C09', (G, "                if (poolCur->remember[i]) {\n", "                if (poolCur->remember[i]) {\n                    poolCur->remember[i] = 0;\n"))
m('09-restart-skip', 'C09', (G, "    /* add our remembered sets to the to-search list */\n    for (genCur = gen + 1;", "    /* add our remembered sets to the to-search list */\n    if (!finalizersChecked2)\n    for (genCur = gen + 1;"), (G, "collect:\n\n    /* possibly", "    ;int finalizersChecked2 = 0;\ncollect:\n\n    /* possibly"), (G, "                gen += 1;\n                TOSEARCH_INIT();", "                gen += 1; finalizersChecked2 = 1;\n                TOSEARCH_INIT();"))
m('09-noclear', 'C09', (G, "                memset(poolCur->remember, 0, GGGGC_CARDS_PER_POOL);\n                poolCur->free", "                poolCur->free"))
m('09-clearfull', 'C09', (G, "    if (gen < GGGGC_GENERATIONS - 1) {\n        for (plCur", "    if (gen <= GGGGC_GENERATIONS - 1) {\n        for (plCur"))
m('09-clearall', 'C09', (G, "        for (poolCur = ggggc_gens[gen+1]; poolCur; poolCur = poolCur->next) {\n            memset(poolCur->remember, 0, GGGGC_CARDS_PER_POOL);\n        }", "        for (genCur = gen+1; genCur < GGGGC_GENERATIONS; genCur++)\n        for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {\n            memset(poolCur->remember, 0, GGGGC_CARDS_PER_POOL);\n        }"))
m('09r-noclear1', '-', (G, "        for (poolCur = ggggc_gens[gen+1]; poolCur; poolCur = poolCur->next) {\n            memset(poolCur->remember, 0, GGGGC_CARDS_PER_POOL);\n        }", ""))
m('09-fo-cond', 'C09', (G, "if (retCard != freeCard && pool->free < pool->end)", "if (freeCard == retCard + 1 && pool->free < pool->end)"))
m('09-fo-cond2', 'C09', (G, "if (retCard != freeCard && pool->free < pool->end)", "if (pool->free < pool->end)"))
m('09-fo-val', 'C09', (G, "((ggc_size_t) pool->free & GGGGC_CARD_INNER_MASK) / sizeof(ggc_size_t);\n\n        /* and clear the next", "((ggc_size_t) ret & GGGGC_CARD_INNER_MASK) / sizeof(ggc_size_t);\n\n        /* and clear the next"))
m('09-fo-all', 'C09', (G, "if (retCard != freeCard && pool->free < pool->end)", "if (retCard != freeCard)"))
m('09-end', 'C09', (G, "        if (pool->free < pool->end) *pool->free = 0;", ""))
m('09-pc-clear', 'C09', (G, "    if (pool->gen) memset(pool->remember, 0, GGGGC_CARDS_PER_POOL);", "    if (pool->gen == 1) memset(pool->remember, 0, GGGGC_CARDS_PER_POOL);"))
m('09-pc-clear2', 'C09', (G, "    if (pool->gen) memset(pool->remember, 0, GGGGC_CARDS_PER_POOL);", "    if (pool->gen) memset(pool->remember, 0, GGGGC_CARDS_PER_POOL / 8);"))
m('09-pc-last', 'C09', (G, "card = 0, lastCard = (ggc_size_t) -1;", "card = 0, lastCard = 0;"))
m('09-pc-last1', 'C09', (G, "card = 0, lastCard = (ggc_size_t) -1;", "card = 0, lastCard = GGGGC_CARD_OF(pool->start);"))
m('09-pc-nolast', 'C09', (G, "                lastCard = card;\n", ""))
m('09-pc-desc', 'C09', (G, "            if (GGGGC_POOL_OF(obj[0])->gen < pool->gen)\n                pool->remember[card] = 1;", ";"))
m('09-pc-word', 'C09', (G, "                    if (GGGGC_POOL_OF(obj[curWord])->gen < pool->gen)\n                        pool->remember[card] = 1;", "                    if (curWord && GGGGC_POOL_OF(obj[curWord])->gen < pool->gen)\n                        pool->remember[card] = 1;"))
m('09-pc-word0', 'C09', (G, "                    if (GGGGC_POOL_OF(obj[curWord])->gen < pool->gen)\n", "                    if (GGGGC_POOL_OF(obj[curWord])->gen == 0 && pool->gen == 1)\n"))
m('09-pc-card', 'C09', (G, "                    if (GGGGC_POOL_OF(obj[curWord])->gen < pool->gen)\n                        pool->remember[card] = 1;", "                    if (GGGGC_POOL_OF(obj[curWord])->gen < pool->gen)\n                        pool->remember[GGGGC_CARD_OF(obj+curWord)] = 1;"))
m('09-pc-free', 'C09', (G, "        card = GGGGC_CARD_OF(pool->free);\n        if (card != lastCard && pool->free < pool->end)", "        card = GGGGC_CARD_OF(pool->free);\n        if (pool->free < pool->end)"))
m('09-pc-free2', 'C09', (G, "        card = GGGGC_CARD_OF(pool->free);\n        if (card != lastCard && pool->free < pool->end)", "        card = GGGGC_CARD_OF(pool->free);\n        if (card == lastCard + 1 && pool->free < pool->end)"))
m('09-np-fo', 'C09', (G, "        (((ggc_size_t) ret->start) & GGGGC_CARD_INNER_MASK) / sizeof(ggc_size_t);\n#endif\n\n    return ret;", "        0;\n#endif\n\n    return ret;"))
m('09-np-rem', 'C09', (G, "    if (gen > 0)\n        memset(ret->remember", "    if (gen > 1)\n        memset(ret->remember"))
m('09r-for', '-', (G, "while (GGGGC_CARD_OF(obj) == i) {", "for (;;) {\n if (GGGGC_CARD_OF(obj) != i) break;"))
m('09r-pc', '-', (G, "            card = GGGGC_CARD_OF(obj);\n            if (card != lastCard) {\n                pool->firstObject[card]", "            card = GGGGC_CARD_OF(obj);\n            if (lastCard != card) {\n                lastCard = card; pool->firstObject[card]"), (G, "                lastCard = card;\n            }\n        }\n#endif\n\n        /* get", "            }\n        }\n#endif\n\n        /* get"))
m('09r-pc2', '-', (G, "                    FOLLOW_COMPACTED_OBJECT(obj[curWord]);\n", "                    void *ref = obj[curWord]; FOLLOW_COMPACTED_OBJECT(ref); obj[curWord] = (ggc_size_t *) ref;\n"), (G, "if (GGGGC_POOL_OF(obj[curWord])->gen < pool->gen)", "if (pool->gen > GGGGC_POOL_OF(ref)->gen)"))
m('09r-mg', '-', (G, "        if (retCard != freeCard && pool->free < pool->end)\n            pool->firstObject", "        if (pool->free < pool->end && freeCard > retCard)\n            pool->firstObject"))
m('09r-pre', '-', (G, "    if (pool->gen) memset(pool->remember, 0, GGGGC_CARDS_PER_POOL);", "    memset(pool->remember, 0, sizeof(pool->remember));"))
m('09r-help', '-', (G, "void ggggc_postCompact(struct GGGGC_Pool *pool)\n{", "static void cardSet(struct GGGGC_Pool *pool, ggc_size_t card) { pool->remember[card] = 1; }\nvoid ggggc_postCompact(struct GGGGC_Pool *pool)\n{"), (G, "                        pool->remember[card] = 1;", "                        cardSet(pool, card);"), (G, "            if (GGGGC_POOL_OF(obj[0])->gen < pool->gen)\n                pool->remember[card] = 1;", "            if (GGGGC_POOL_OF(obj[0])->gen < pool->gen)\n                cardSet(pool, card);"))

# C10
m('10-nomove-follow', 'C10', (G, "            FOLLOW_FORWARDED_OBJECT(obj);\n            *ptr = obj;\n        }", "            FOLLOW_FORWARDED_OBJECT(obj);\n        }"))
m('10-genof', 'C10', (G, "if (GGGGC_GEN_OF(obj) <= gen) {", "if (GGGGC_GEN_OF(obj) < gen + 1 && GGGGC_GEN_OF(*ptr) == gen) {"))
m('10-genof2', 'C10', (G, "if (GGGGC_GEN_OF(obj) <= gen) {", "if (GGGGC_GEN_OF(obj) == 0) {"))
m('10-copysize', 'C10', (G, "memcpy(nobj, obj, descriptor->size * sizeof(ggc_size_t));\n\n            /* mark it as forwarded", "memcpy(nobj, obj, (descriptor->size - 1) * sizeof(ggc_size_t));\n\n            /* mark it as forwarded"))
m('10-fwdfirst', 'C10', (G, "            memcpy(nobj, obj, descriptor->size * sizeof(ggc_size_t));\n\n            /* mark it as forwarded */\n            obj->descriptor__ptr = (struct GGGGC_Descriptor *) (((ggc_size_t) nobj) | 1);", "            obj->descriptor__ptr = (struct GGGGC_Descriptor *) (((ggc_size_t) nobj) | 1);\n            memcpy(nobj, obj, descriptor->size * sizeof(ggc_size_t));"))
m('10-noredirect', 'C10', (G, "*ptr = obj = nobj;", "obj = nobj;"))
m('10-noinitws', 'C10', (G, "gen += 1;\n                TOSEARCH_INIT();", "gen += 1;"))
m('10-nogen', 'C10', (G, "gen += 1;\n                TOSEARCH_INIT();", "gen += 2;\n                TOSEARCH_INIT();"))
m('10-size', 'C10', (G, "ggggc_mallocGen1(descriptor->size, gen + 1);", "ggggc_mallocGen1(descriptor->size, GGGGC_GEN_OF(obj) + 1);"))
m('10-addobj', 'C10', (G, "ADD_OBJECT_POINTERS(obj, obj->descriptor__ptr);\n        }\n\n#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION\n        /* check for post", "if (GGGGC_GEN_OF(obj) < GGGGC_GENERATIONS - 1) ADD_OBJECT_POINTERS(obj, obj->descriptor__ptr);\n        }\n\n#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION\n        /* check for post"))
m('10-pool0', 'C10', (G, "                poolCur->free = poolCur->start;\n            }\n        }\n        ggggc_pool0 = ggggc_gen0;\n#if", "                poolCur->free = poolCur->start;\n            }\n        }\n#if"))
m('10-emptyfirst', 'C10', (G, "            for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {\n                poolCur->free = poolCur->start;", "            for (poolCur = plCur->pool; poolCur && poolCur->free != poolCur->start; poolCur = poolCur->next) {\n                poolCur->free = poolCur->start;"))
m('10-pools', 'C10', (G, "                poolCur->free = poolCur->start;\n            }\n            ggggc_pools[genCur] = ggggc_gens[genCur];", "                poolCur->free = poolCur->start;\n            }"))
m('10-leg1', 'C10', (G, "        for (genCur = 1; genCur <= gen; genCur++) {\n            for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {\n                memset", "        for (genCur = 1; genCur < gen; genCur++) {\n            for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {\n                memset"))
m('10-postgen', 'C10', (G, "    if (gen < GGGGC_GENERATIONS - 1) {\n        for (plCur", "    if (gen < GGGGC_GENERATIONS - 1 && ggggc_threadCount == 1) {\n        for (plCur"))
m('10-cont', 'C10', (G, "            *ptr = obj;\n        }\n\n        /* does it need to be moved? */", "            *ptr = obj;\n            continue;\n        }\n\n        /* does it need to be moved? */"))
m('10-pools-all', 'C10', (G, "            ggggc_pools[genCur] = ggggc_gens[genCur];\n        }\n\n        /* and the rem", "        }\n        for (genCur = 1; genCur < GGGGC_GENERATIONS; genCur++) ggggc_pools[genCur] = ggggc_gens[genCur];\n\n        /* and the rem"))
m('10-ok-loopcopy', '-', (G, "            memcpy(nobj, obj, descriptor->size * sizeof(ggc_size_t));\n\n            /* mark it as forwarded", "            { ggc_size_t w; for (w = 0; w < descriptor->size; w++) ((void **) nobj)[w] = ((void **) obj)[w]; }\n\n            /* mark it as forwarded"))
m('10-ok-order', '-', (G, "            *ptr = obj = nobj;\n", "            *ptr = nobj;\n            obj = (struct GGGGC_Header *) *ptr;\n"))
m('10-ok-invert', '-', (G, "        if (obj == NULL) continue;\n\n#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION\n        /* check for pre", "        if (!obj) { continue; }\n\n#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION\n        /* check for pre"))
m('10-ok-always', '-', (G, "        if (IS_FORWARDED_OBJECT(obj)) {\n            FOLLOW_FORWARDED_OBJECT(obj);\n            *ptr = obj;\n        }", "        FOLLOW_FORWARDED_OBJECT(obj);\n        *ptr = obj;"))

# C11
m('11-mark-nofollow', 'C11', (G, "*ptr = (void *) ((ggc_size_t) obj | lastMark);", ";"))
m('11-mark-lastmark', 'C11', (G, "*ptr = (void *) ((ggc_size_t) obj | lastMark);", "*ptr = (void *) obj;"))
m('11-mark-count', 'C11', (G, "                sortMarkedFinalizers(poolCur, &readyFinalizers);\n            }\n        }\n        for (genCur = 1; genCur < GGGGC_GENERATIONS; genCur++)", "                sortMarkedFinalizers(poolCur, &readyFinalizers);\n            }\n        }\n        for (genCur = 1; genCur < GGGGC_GENERATIONS; genCur++)"), (G, "    for (genCur = 1; genCur < GGGGC_GENERATIONS; genCur++) {\n        for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {\n            ggggc_countUsed(poolCur);", "    for (genCur = 1; genCur < GGGGC_GENERATIONS; genCur++) {\n        for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {\n            ggggc_countUsed(poolCur);\n            if (poolCur->breakTableSize == (ggc_size_t) (poolCur->free - poolCur->start)) break;"))
m('11-compact-mixed', 'C11', (G, "            ggggc_countUsed(poolCur);\n        }\n    }\n    \n    /* perform compaction */\n    for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {\n        for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {\n            ggggc_compact(poolCur);\n        }\n    }\n", "            ggggc_countUsed(poolCur);\n        }\n    }\n    \n    /* perform compaction */\n"), (G, "        for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {\n            ggggc_countUsed(poolCur);\n", "        for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {\n            ggggc_countUsed(poolCur);\n            ggggc_compact(poolCur);\n"))
m('11-post-own', 'C11', (G, "    for (plCur = ggggc_rootPool0List; plCur; plCur = plCur->next) {\n        for (poolCur = plCur->pool; poolCur; poolCur = poolCur->next) {\n            ggggc_postCompact(poolCur);\n        }\n    }", "    for (poolCur = ggggc_gen0; poolCur; poolCur = poolCur->next) {\n            ggggc_postCompact(poolCur);\n    }"))
m('11-free0', 'C11', (G, "            if (poolCur->free < poolCur->end) *poolCur->free = 0;\n        }\n        ggggc_pools", "        }\n        ggggc_pools"))
m('11-free0b', 'C11', (G, "            if (poolCur->free < poolCur->end) *poolCur->free = 0;\n        }\n        ggggc_pools", "            *poolCur->free = 0;\n        }\n        ggggc_pools"))
m('11-pool0', 'C11', (G, "    /* reset the pools */\n    ggggc_pool0 = ggggc_gen0;", "    /* reset the pools */"))
m('11-cu-forward', 'C11', (G, "            if (IS_FORWARDED_OBJECT(obj)) {\n                /* we'll need to find its descriptor */\n                FOLLOW_FORWARDED_OBJECT(obj);", "            if (IS_FORWARDED_OBJECT(obj)) {\n                /* we'll need to find its descriptor */\n                obj = (struct GGGGC_Header *) (((ggc_size_t) obj->descriptor__ptr) & (ggc_size_t) ~1);"))
m('11-cu-marked', 'C11', (G, "            next += MARKED_DESCRIPTOR(obj)->size;", "            next += obj->descriptor__ptr->size;"))
m('11-cu-unmark', 'C11', (G, "             next += ((struct GGGGC_Header *) next)->descriptor__ptr->size) {\n            UNMARK((struct GGGGC_Header *) next);\n        }", "             next += MARKED_DESCRIPTOR((struct GGGGC_Header *) next)->size) {\n            if (next != cur) UNMARK((struct GGGGC_Header *) next);\n        }"))
m('11-cu-end', 'C11', (G, "        if (next >= pool->free) next = pool->end;\n", ""))
m('11-cu-size', 'C11', (G, "        cur[-1] = next - cur;\n        cur = next;", "        cur[-1] = next - cur - (next >= pool->end);\n        cur = next;"))
m('11-co-bt', 'C11', (G, "        btEnd->newL = pool->free;\n        btEnd++;\n        pool->free += chSize;", "        pool->free += chSize;\n        btEnd->newL = pool->free;\n        btEnd++;"))
m('11-co-last', 'C11', (G, "        if (cur + chSize < pool->end)\n            fchSize = cur[chSize];", "        if (cur + chSize <= pool->end)\n            fchSize = cur[chSize];"))
m('11-co-nosort', 'C11', (G, "    qsort(bt, pool->breakTableSize, sizeof(struct BreakTableEl), breakTableComparator);", "    if (pool->breakTableSize > 8) qsort(bt, pool->breakTableSize / 2, sizeof(struct BreakTableEl), breakTableComparator);"))
m('11-co-cmp', 'C11', (G, "    if (l->orig < r->orig) {\n        return -1;\n    } else if (l->orig > r->orig) {\n        return 1;\n    }\n    return 0;", "    return (int) (l->orig - r->orig);"))
m('11-co-oob', 'C11', (G, "sizeof(ggc_size_t) && i + j < chSize; j++)", "sizeof(ggc_size_t); j++)"))
m('11-co-tabfree', 'C11', (G, "    pool->breakTableSize = btEnd - bt;\n    pool->breakTable = bt;", "    pool->breakTableSize = btEnd - bt;\n    pool->breakTable = btEnd - pool->breakTableSize + 1;"))
m('11-find-last', 'C11', (G, "            if (cur == breakTableSize - 1 ||\n                breakTable[cur+1].orig > loc)", "            if (cur == breakTableSize - 1 ||\n                breakTable[cur+1].orig >= loc)"))
m('11-pc-desc', 'C11', (G, "        FOLLOW_COMPACTED_DESCRIPTOR(descriptor);\n\n        /* and walk", "        if (obj != (ggc_size_t **) pool->start) FOLLOW_COMPACTED_DESCRIPTOR(descriptor);\n\n        /* and walk"))
m('11-pc-else', 'C11', (G, "            FOLLOW_COMPACTED_OBJECT(obj[0]);\n", ""))
m('11-full-cond', 'C11', (G, "gen >= GGGGC_GENERATIONS - 1\n#else", "gen >= GGGGC_GENERATIONS\n#else"))
m('11-clear-after', 'C11', (G, "    if (gen < GGGGC_GENERATIONS - 1) {\n        for (plCur", "    if (gen < GGGGC_GENERATIONS) {\n        for (plCur"))
m('11-mark-order', 'C11', (G, "            struct GGGGC_Descriptor *descriptor = obj->descriptor__ptr;\n\n            /* then mark it */\n            MARK(obj);", "            struct GGGGC_Descriptor *descriptor;\n\n            /* then mark it */\n            MARK(obj);\n            descriptor = UNMARK_PTR(struct GGGGC_Descriptor, obj->descriptor__ptr);\n            if (IS_MARKED(&descriptor->header)) goto marked_;"), (G, "            /* add its pointers */\n            ADD_OBJECT_POINTERS(obj, descriptor);\n        }\n    }\n\n#ifdef GGGGC_FEATURE_FINALIZERS\n    /* everything reachable has been marked", "            /* add its pointers */\n            ADD_OBJECT_POINTERS(obj, descriptor);\n            marked_:;\n        }\n    }\n\n#ifdef GGGGC_FEATURE_FINALIZERS\n    /* everything reachable has been marked"))
m('11-ok-memmove', '-', (G, "            for (j = 0; j < sizeof(struct BreakTableEl) / sizeof(ggc_size_t) && i + j < chSize; j++)\n                pool->free[i+j] = cur[i+j];", "            pool->free[i] = cur[i];\n            if (i + 1 < chSize) pool->free[i+1] = cur[i+1];"))
m('11-ok-cmp', '-', (G, "    if (l->orig < r->orig) {\n        return -1;\n    } else if (l->orig > r->orig) {\n        return 1;\n    }\n    return 0;", "    return (l->orig > r->orig) - (l->orig < r->orig);"))
m('11-ok-bsearch', '-', (G, "    ggc_size_t cur = breakTableSize / 2;\n    ggc_size_t step = cur / 2;\n\n    if (breakTableSize == 0) return NULL;\n    if (step == 0) step = 1;\n", "    ggc_size_t cur = breakTableSize / 2;\n    ggc_size_t step = cur / 2;\n    { ggc_size_t lo = 0, hi = breakTableSize;\n      while (lo < hi) { ggc_size_t mid = lo + (hi - lo) / 2; if (breakTable[mid].orig <= loc) lo = mid + 1; else hi = mid; }\n      return lo ? &breakTable[lo - 1] : NULL; }\n"))
m('11-ok-post', '-', (G, "    for (genCur = 1; genCur < GGGGC_GENERATIONS; genCur++) {\n        for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {\n            ggggc_postCompact(poolCur);\n        }\n    }", "    for (genCur = GGGGC_GENERATIONS - 1; genCur >= 1; genCur--) {\n        for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {\n            ggggc_postCompact(poolCur);\n        }\n    }"))
m('11-ok-count', '-', (G, "    pool->breakTableSize = cur - pool->start;\n    if (cur >= pool->end) return;", "    next = cur;\n    pool->breakTableSize = (ggc_size_t) (next - pool->start);\n    if (!(next < pool->end)) return;"))

# C13: mark and sweep
m('13-mark-nodesc', 'C13', (P, "        TOSEARCH_ADD(descriptor);\n", "        if (descriptor->size > 4) TOSEARCH_ADD(descriptor);\n"))
m('13-mark-skip', 'C13', (P, "            for (curWord = 1; curWord < descriptor->size; curWord++) {\n#ifndef GGGGC_FEATURE_EXTTAG\n                if (curWord % GGGGC_BITS_PER_WORD == 0)\n                    curDescription = descriptor->pointers[++curDescriptorWord];", "            for (curWord = 1; curWord < descriptor->size - 1; curWord++) {\n#ifndef GGGGC_FEATURE_EXTTAG\n                if (curWord % GGGGC_BITS_PER_WORD == 0)\n                    curDescription = descriptor->pointers[++curDescriptorWord];"))
m('13-mark-tag', 'C13', (P, "if (objVp[curWord] && !IS_TAGGED(objVp[curWord]))", "if (objVp[curWord])"))
m('13-mark-word', 'C13', (P, "curDescription = descriptor->pointers[++curDescriptorWord];", "curDescription = descriptor->pointers[curDescriptorWord++];"))
m('13-mark-ext', 'C13', (P, "                if ((descriptor->tags[curWord] & 1) == 0)\n", "                if (descriptor->tags[curWord] == 0)\n"))
m('13-sw-size', 'C13', (P, "                cur.fl->zero = descriptor->size;\n", "                cur.fl->zero = cur.fl->size = descriptor->size;\n"))
m('13-sw-coal', 'C13', (P, "if (cur.w == ((ggc_size_t *) lastFree) + lastFree->zero) {", "if (cur.w <= ((ggc_size_t *) lastFree) + lastFree->zero + 3 && cur.w > (ggc_size_t *) lastFree) {"))
m('13-sw-coalsize', 'C13', (P, "lastFree->zero += cur.fl->zero;", "lastFree->size += cur.fl->zero, lastFree->zero += cur.fl->zero;"))
m('13-sw-end', 'C13', (P, "    if (lastFree)\n        lastFree->next = NULL;\n", ""))
m('13-sw-unmark', 'C13', (P, "                cur.obj->descriptor__ptr = descriptor;\n                cur.w += descriptor->size;", "                if (lastFree || pool->survivors > 4) cur.obj->descriptor__ptr = descriptor;\n                cur.w += descriptor->size;"))
m('13-sw-was', 'C13', (P, "            if (cur.fl->zero == 0) {", "            if (cur.fl->zero == 0 && pool->survivors) {"))
m('13-clr-size', 'C13', (P, "        fln->size = fln->zero;\n        fln->zero = 0;\n", "        fln->size = fln->zero;\n        if (fln->next) fln->zero = 0;\n"))
m('13-clr-early', 'C13', (P, "    restartTheWorld();\n\n    /* clear our freelist */\n    clearFreeList();", "    clearFreeList();\n\n    restartTheWorld();"))
m('13-sweep-early', 'C13', (P, "    ggc_barrier_wait_raw(&ggggc_worldBarrier);\n\n    /* sweep our own heap */\n    sweep(ggggc_gen0);", "    /* sweep our own heap */\n    sweep(ggggc_gen0);\n    ggc_barrier_wait_raw(&ggggc_worldBarrier);"))
m('13-y-early', 'C13', (P, "        /* wait until marking is done */\n        ggc_barrier_wait_raw(&ggggc_worldBarrier);\n\n        /* local sweep */\n        sweep(ggggc_gen0);", "        /* local sweep */\n        sweep(ggggc_gen0);\n\n        /* wait until marking is done */\n        ggc_barrier_wait_raw(&ggggc_worldBarrier);"))
m('13-y-clr', 'C13', (P, "        /* and continue */\n        ggc_barrier_wait_raw(&ggggc_worldBarrier);\n\n        /* we can clear our freelist independently */\n        clearFreeList();", "        /* we can clear our freelist independently */\n        clearFreeList();\n\n        /* and continue */\n        ggc_barrier_wait_raw(&ggggc_worldBarrier);"))
m('13-y-nosweep', 'C13', (P, "        /* local sweep */\n        sweep(ggggc_gen0);", "        /* local sweep */\n        if (ggggc_gen0 && ggggc_gen0->next) sweep(ggggc_gen0);"))
m('13-grow', 'C13', (P, "            pool->next = ggggc_gen0;\n            ggggc_gen0 = pool;\n            total", "            ggggc_gen0 = pool;\n            total"))
m('13-grow-after', 'C13', (P, "    for (fln = freeList; fln; fln = fln->next) {\n        fln->size = fln->zero;\n        fln->zero = 0;\n    }\n", ""), (P, "            total -= GGGGC_POOL_BYTES;\n        }\n    }\n", "            total -= GGGGC_POOL_BYTES;\n        }\n    }\n    for (fln = freeList; fln; fln = fln->next) {\n        fln->size = fln->zero;\n        fln->zero = 0;\n    }\n"))
m('13-node', 'C13', (P, "#ifndef GGGGC_DEBUG_MEMORY_CORRUPTION\n    struct FreeListNode *next;\n#endif\n};", "};"), (P, "    ggc_size_t zero;\n#ifdef GGGGC_DEBUG_MEMORY_CORRUPTION\n    struct", "    ggc_size_t zero;\n    struct"), (P, "    struct FreeListNode *next;\n#endif\n    ggc_size_t size;", "    struct FreeListNode *next;\n    ggc_size_t size;"))
m('13-ok-mark', '-', (P, "        if (descriptorI & 1) {\n            /* already marked */\n            continue;\n        }\n\n        /* mark it */\n        descriptorI |= 1;\n        obj->descriptor__ptr = (struct GGGGC_Descriptor *) (void *) descriptorI;\n\n        /* mark its descriptor */\n        TOSEARCH_ADD(descriptor);\n", "        if (descriptorI & 1)\n            continue;\n        TOSEARCH_ADD(descriptor);\n        obj->descriptor__ptr = (struct GGGGC_Descriptor *) (void *) (descriptorI + 1);\n"))
m('13-ok-coal', '-', (P, "            if (lastFree) {\n                if (cur.w == ((ggc_size_t *) lastFree) + lastFree->zero) {\n                    /* coalesce (remember, size is currently in the zero slot) */\n                    lastFree->zero += cur.fl->zero;\n                } else {\n                    /* free separately */\n                    lastFree->next = cur.fl;\n                    lastFree = cur.fl;\n                }\n            } else {\n                freeList = lastFree = cur.fl;\n            }\n", "            if (lastFree && cur.w == ((ggc_size_t *) lastFree) + lastFree->zero) {\n                lastFree->zero += cur.fl->zero;\n            } else {\n                if (lastFree) lastFree->next = cur.fl; else freeList = cur.fl;\n                lastFree = cur.fl;\n            }\n"))
m('13-ok-nocoal', '-', (P, "                if (cur.w == ((ggc_size_t *) lastFree) + lastFree->zero) {\n                    /* coalesce (remember, size is currently in the zero slot) */\n                    lastFree->zero += cur.fl->zero;\n                } else {", "                {"))
m('13-ok-front', '-', (P, "            /* free this object */\n            if (lastFree) {\n                if (cur.w == ((ggc_size_t *) lastFree) + lastFree->zero) {\n                    /* coalesce (remember, size is currently in the zero slot) */\n                    lastFree->zero += cur.fl->zero;\n                } else {\n                    /* free separately */\n                    lastFree->next = cur.fl;\n                    lastFree = cur.fl;\n                }\n            } else {\n                freeList = lastFree = cur.fl;\n            }\n\n            /* and continue */\n            cur.w = ((ggc_size_t *) lastFree) + lastFree->zero;", "            cur.fl->next = freeList;\n            freeList = cur.fl;\n            cur.w += cur.fl->zero;"), (P, "    if (lastFree)\n        lastFree->next = NULL;\n", "    (void) lastFree;\n"))
m('13-ok-clr', '-', (P, "    for (fln = freeList; fln; fln = fln->next) {\n        fln->size = fln->zero;\n        fln->zero = 0;\n    }", "    fln = freeList;\n    while (fln) {\n        ggc_size_t sz = fln->zero;\n        fln->zero = 0;\n        fln->size = sz;\n        fln = fln->next;\n    }"))
m('13-ok-count', '-', (P, "                pool->survivors += descriptor->size;\n", "                survivors += descriptor->size;\n"), (P, "        survivors += pool->survivors;\n", ""))

# C19: finalizers
m('19-reg-order', 'C19', (A, "    pool = GGGGC_POOL_OF(entry);\n    next = (GGGGC_FinalizerEntry) pool->finalizers;\n    GGC_WP(entry, next, next);\n    pool->finalizers = entry;", "    pool = GGGGC_POOL_OF(entry);\n    next = (GGGGC_FinalizerEntry) pool->finalizers;\n    pool->finalizers = entry;\n    if (next) GGC_WP(next, next, entry);"))
m('19-reg-pool', 'C19', (A, "    pool = GGGGC_POOL_OF(entry);\n", "    pool = GGGGC_POOL_OF(obj);\n"))
m('19-run-skip', 'C19', (A, "        finalizer = GGC_RP(finalizer, next);\n    }", "        finalizer = GGC_RP(finalizer, next);\n        if (finalizer && GGC_RP(finalizer, obj) == obj) finalizer = GGC_RP(finalizer, next);\n    }"))
m('19-keep-list', 'C19', (G, "    poolCur->finalizers = NULL; \\\n", ""))
m('19-tail', 'C19', (G, "        survivingFinalizersTail->next__ptr = (GGGGC_FinalizerEntry) poolCur->finalizers;\n", ""))
m('19-nochk-fwd', 'C19', (G, "        if (IS_FORWARDED_OBJECT(obj)) \\\n            FOLLOW_FORWARDED_OBJECT(obj); \\\n        finalizer = (GGGGC_FinalizerEntry) obj; \\\n", "        finalizer = (GGGGC_FinalizerEntry) obj; \\\n"))
m('19-restore-ready', 'C19', (G, "                restoreFinalizers(readyFinalizers);\n", ""))
m('19-restore-tail', 'C19', (G, "    tail->next__ptr = (GGGGC_FinalizerEntry) pool->finalizers;\n    pool->finalizers = (void *) finalizers;", "    if (!tail->next__ptr) tail->next__ptr = NULL;\n    pool->finalizers = (void *) finalizers;"))
m('19-notail', 'C19', (G, "        TOSEARCH_ADD(&survivingFinalizersTail);\n", ""))
m('19-noready', 'C19', (G, "        TOSEARCH_ADD(&readyFinalizers);\n        goto search;", "        if (!survivingFinalizers) TOSEARCH_ADD(&readyFinalizers);\n        goto search;"))
m('19-gens', 'C19', (G, "        for (genCur = 1; genCur <= gen; genCur++) {\n            for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {\n                FINALIZER_POOL(", "        for (genCur = 1; genCur < gen; genCur++) {\n            for (poolCur = ggggc_gens[genCur]; poolCur; poolCur = poolCur->next) {\n                FINALIZER_POOL("))
m('19-old', 'C19', (G, "FINALIZER_POOL(GGGGC_GEN_OF(obj) > gen || IS_FORWARDED_OBJECT(obj));", "FINALIZER_POOL(IS_FORWARDED_OBJECT(obj));"))
m('19-full-once', 'C19', (G, "        TOSEARCH_ADD(&readyFinalizers);\n    }", "    }"))
m('19-full-add', 'C19', (G, "                TOSEARCH_ADD(&poolCur->finalizers);", "                if (poolCur == ggggc_gen0) TOSEARCH_ADD(&poolCur->finalizers);"))
m('19-full-follow', 'C19', (G, "        readyFinalizers = (GGGGC_FinalizerEntry) ptr;\n", ""))
m('19-full-head', 'C19', (G, "            if (poolCur->finalizers)\n                FOLLOW_COMPACTED_OBJECT(poolCur->finalizers);", "            if (poolCur->finalizers && ((GGGGC_FinalizerEntry) poolCur->finalizers)->next__ptr)\n                FOLLOW_COMPACTED_OBJECT(poolCur->finalizers);"))
m('19-sort-pool', 'C19', (G, "            finalizerPool = GGGGC_POOL_OF(finalizer);\n", "            finalizerPool = pool;\n"))
m('19-run-early', 'C19', (P, "    restartTheWorld();\n\n    /* clear our freelist */", "#ifdef GGGGC_FEATURE_FINALIZERS\n    if (readyFinalizers)\n        ggggc_runFinalizers(readyFinalizers);\n    readyFinalizers = NULL;\n#endif\n    restartTheWorld();\n\n    /* clear our freelist */"))
m('19-pms-list', 'C19', (P, "            pool->finalizers = (void *) survivingFinalizers;", "            if (survivingFinalizers) pool->finalizers = (void *) survivingFinalizers;"))
m('19-pms-markpool', 'C19', (P, "            if (pool->finalizers)\n                mark(pool->finalizers);", "            if (pool->finalizers && pool == ggggc_gen0)\n                mark(pool->finalizers);"))
m('19-pms-first', 'C19', (P, "                if (((ggc_size_t) (void *) obj->descriptor__ptr) & 1) {\n                    /* It's", "                if (((ggc_size_t) (void *) obj->descriptor__ptr) & 1 || readyFinalizers) {\n                    /* It's"))
m('19-pms-early', 'C19', (P, "                    /* Unmarked. Finalize this. */", "                    /* Unmarked. Finalize this. */\n                    mark(obj);"))
m('19-ok-order', '-', (G, "            finalizer->next__ptr = survivingFinalizers; \\\n            survivingFinalizers = finalizer; \\\n            if (!survivingFinalizersTail) \\\n                survivingFinalizersTail = finalizer; \\\n", "            if (!survivingFinalizersTail) \\\n                survivingFinalizersTail = finalizer; \\\n            finalizer->next__ptr = survivingFinalizers; \\\n            survivingFinalizers = finalizer; \\\n"))
m('19-ok-append', '-', (G, "            finalizer->next__ptr = survivingFinalizers; \\\n            survivingFinalizers = finalizer; \\\n            if (!survivingFinalizersTail) \\\n                survivingFinalizersTail = finalizer; \\\n", "            finalizer->next__ptr = NULL; \\\n            if (survivingFinalizersTail) survivingFinalizersTail->next__ptr = finalizer; \\\n            else survivingFinalizers = finalizer; \\\n            survivingFinalizersTail = finalizer; \\\n"))
m('19-ok-run', '-', (A, "    finalizer = finalizers;\n    while (finalizer) {\n        obj", "    for (finalizer = finalizers; finalizer;) {\n        obj"))
m('19-ok-post', '-', (G, "    if (survivingFinalizers) {\n        poolCur = GGGGC_POOL_OF(survivingFinalizers);\n        survivingFinalizersTail->next__ptr = (GGGGC_FinalizerEntry) poolCur->finalizers;\n        poolCur->finalizers = survivingFinalizers;\n    }", "    while (survivingFinalizers) {\n        GGGGC_FinalizerEntry nx = survivingFinalizers->next__ptr;\n        poolCur = GGGGC_POOL_OF(survivingFinalizers);\n        survivingFinalizers->next__ptr = (GGGGC_FinalizerEntry) poolCur->finalizers;\n        poolCur->finalizers = survivingFinalizers;\n        survivingFinalizers = nx;\n    }"))
m('19-ok-pms', '-', (P, "            finalizer = (GGGGC_FinalizerEntry) pool->finalizers;\n            for (; finalizer; finalizer = nextFinalizer) {", "            for (finalizer = (GGGGC_FinalizerEntry) pool->finalizers; finalizer; finalizer = nextFinalizer) {"))

# C22: back-ends
AM, AP, AS, AL, AO = ('allocator/%s.c' % x for x in ('malloc', 'mmap', 'sbrk', 'malign', 'portable'))
m('22-mm-full', 'C22', (AP, "space == (unsigned char *) MAP_FAILED", "space == NULL"))
m('22-mm-size', 'C22', (AP, "mmap(NULL, GGGGC_POOL_BYTES*2,", "mmap(NULL, GGGGC_POOL_BYTES+4096,"))
m('22-mm-trim', 'C22', (AP, "munmap(aspace + GGGGC_POOL_BYTES, space", "munmap(aspace + GGGGC_POOL_BYTES - 4096, space"))
m('22-mm-len', 'C22', (AP, "space + GGGGC_POOL_BYTES - aspace)", "aspace - space)"))
m('22-mm-align', 'C22', (AP, "space + GGGGC_POOL_BYTES - 1)", "space)"))
m('22-ma-fit', 'C22', (AM, "space + GGGGC_POOL_BYTES > spaceEnd", "space > spaceEnd"))
m('22-ma-eq', 'C22', (AM, "space + GGGGC_POOL_BYTES > spaceEnd", "space >= spaceEnd"))
m('22-ma-one', 'C22', (AM, "i >= 2; i /= 2", "i >= 1; i /= 2"))
m('22-ma-end', 'C22', (AM, "spaceEnd = space + GGGGC_POOL_BYTES * i;", "spaceEnd = space + GGGGC_POOL_BYTES * 16;"))
m('22-ma-order', 'C22', (AM, "        spaceEnd = space + GGGGC_POOL_BYTES * i;\n\n        /* align it */\n        space = (unsigned char *) GGGGC_POOL_OF(space + GGGGC_POOL_BYTES - 1);", "        space = (unsigned char *) GGGGC_POOL_OF(space + GGGGC_POOL_BYTES - 1);\n        spaceEnd = space + GGGGC_POOL_BYTES * i;"))
m('22-ma-lock', 'C22', (AM, "            ggc_mutex_unlock(&poolLock);\n            return NULL;", "            return NULL;"))
m('22-ma-unlockearly', 'C22', (AM, "    space += GGGGC_POOL_BYTES;\n    ggc_mutex_unlock(&poolLock);\n\n    return ret;", "    space += GGGGC_POOL_BYTES;\n    ggc_mutex_unlock(&poolLock);\n\n    return space - GGGGC_POOL_BYTES;"))
m('22-ma-locklate', 'C22', (AM, "    ret = (struct GGGGC_Pool *) space;\n    space += GGGGC_POOL_BYTES;\n    ggc_mutex_unlock(&poolLock);", "    ggc_mutex_unlock(&poolLock);\n    ret = (struct GGGGC_Pool *) space;\n    ggc_mutex_lock_raw(&poolLock);\n    space += GGGGC_POOL_BYTES;\n    ggc_mutex_unlock(&poolLock);"))
m('22-ma-nolock', 'C22 C17', (AM, "    ggc_mutex_lock_raw(&poolLock);\n", ""), (AM, "    ggc_mutex_unlock(&poolLock);\n\n    return ret;", "    return ret;"), (AM, "            ggc_mutex_unlock(&poolLock);\n            return NULL;", "            return NULL;"))
m('22-ma-nomsg', 'C22', (AM, "                perror(\"malloc\");\n", ""))
m('22-sb-null', 'C22', (AS, "    if (ret == (void *) -1) {", "    if (!ret) {"))
m('22-sb-cond', 'C22', (AS, "    if (ret != (void *) -1)\n        ret = sbrk(GGGGC_POOL_BYTES);", "    ret = sbrk(GGGGC_POOL_BYTES);"))
m('22-sb-stale', 'C22', (AS, "    mallocBump();\n\n    offset = poolOffset();", "    offset = poolOffset();\n    mallocBump();\n"))
m('22-sb-free', 'C22', (AS, "        void **next = (void **) list[0];\n        free(list);\n        list = next;", "        free(list);\n        list = (void **) list[0];"))
m('22-sb-twice', 'C22', (AS, "        next[0] = list;\n", ""))
m('22-sb-nolock', 'C22 C17', (AS, "    ggc_mutex_lock_raw(&poolLock);\n\n    mallocBump();\n", "    mallocBump();\n    ggc_mutex_lock_raw(&poolLock);\n"))
m('22-sb-race', 'C22 C17', (AS, "    if (offset != 0) {", "    ggc_mutex_unlock(&poolLock);\n    ggc_mutex_lock_raw(&poolLock);\n    if (offset != 0) {"))
m('22-pm-null', 'C22', (AL, "        return NULL;\n", ""))
m('22-pm-align', 'C22', (AL, "posix_memalign(&ret, GGGGC_POOL_BYTES, GGGGC_POOL_BYTES)", "posix_memalign(&ret, GGGGC_CARD_BYTES, GGGGC_POOL_BYTES)"))
m('22-pm-size', 'C22', (AL, "posix_memalign(&ret, GGGGC_POOL_BYTES, GGGGC_POOL_BYTES)", "posix_memalign(&ret, GGGGC_POOL_BYTES, GGGGC_POOL_BYTES - GGGGC_CARD_BYTES)"))
m('22-pm-must', 'C22', (AL, "        if (mustSucceed) {", "        if (mustSucceed && errno != ENOMEM) {"))
m('22-pm-abort', 'C22', (AL, "            abort();\n        }", "            abort();\n        }\n        abort();"))
m('22-po-must', 'C22', (AO, "if (!ret && mustSucceed) {", "if (!ret && !mustSucceed) {"))
m('22-po-size', 'C22', (AO, "malloc(GGGGC_POOL_BYTES)", "malloc(GGGGC_POOL_BYTES - sizeof(struct GGGGC_Pool))"))
m('22-must-pass', 'C22', (A, "allocPool(mustSucceed);", "allocPool(0);"))
m('22-nullret', 'C22', (A, "    if (!ret) return NULL;\n\n    /* set it up */", "    /* set it up */"))
m('22-gen-null', 'C22', (G, "    if (!ret) return ret;\n", ""))
m('22-tiny', 'C22', (A, "    if (allocationsLeft-- <= 0) {\n        allocationsLeft = 0;\n        if (mustSucceed) {", "    if (allocationsLeft-- <= 0) {\n        allocationsLeft = 0;\n        if (mustSucceed > 1) {"))
m('22-ok-loop', '-', (AM, "        for (i = 16; i >= 2; i /= 2) {\n            space = (unsigned char *) malloc(GGGGC_POOL_BYTES * i);\n            if (space) break;\n        }", "        i = 16;\n        space = NULL;\n        while (!space && i >= 2) {\n            space = (unsigned char *) malloc(GGGGC_POOL_BYTES * i);\n            if (!space) i /= 2;\n        }"))
m('22-ok-local', '-', (AM, "    ret = (struct GGGGC_Pool *) space;\n    space += GGGGC_POOL_BYTES;\n    ggc_mutex_unlock(&poolLock);", "    ret = space;\n    space = (unsigned char *) ret + GGGGC_POOL_BYTES;\n    ggc_mutex_unlock(&poolLock);"))
m('22-ok-unlockfirst', '-', (AM, "        if (!space) {\n            if (mustSucceed) {\n                perror(\"malloc\");\n                abort();\n            }\n            ggc_mutex_unlock(&poolLock);\n            return NULL;\n        }", "        if (!space) {\n            ggc_mutex_unlock(&poolLock);\n            if (mustSucceed) {\n                perror(\"malloc\");\n                abort();\n            }\n            return NULL;\n        }"))
m('22-ok-mm', '-', (AP, "    ret = GGGGC_POOL_OF(space + GGGGC_POOL_BYTES - 1);\n    aspace = (unsigned char *) ret;", "    aspace = (unsigned char *) (((size_t) space + GGGGC_POOL_BYTES - 1) & ~((size_t) GGGGC_POOL_BYTES - 1));\n    ret = (struct GGGGC_Pool *) aspace;"))
m('22-ok-mmcond', '-', (AP, "    munmap(aspace + GGGGC_POOL_BYTES, space + GGGGC_POOL_BYTES - aspace);", "    if (space + 2 * GGGGC_POOL_BYTES > aspace + GGGGC_POOL_BYTES)\n        munmap(aspace + GGGGC_POOL_BYTES, (space + 2 * GGGGC_POOL_BYTES) - (aspace + GGGGC_POOL_BYTES));"))
m('22-ok-pm', '-', (AL, "    void *ret;\n    if ((errno = posix_memalign(&ret, GGGGC_POOL_BYTES, GGGGC_POOL_BYTES))) {", "    void *ret = NULL;\n    int err = posix_memalign(&ret, GGGGC_POOL_BYTES, GGGGC_POOL_BYTES);\n    if (err) {\n        errno = err;"))
m('22-ok-sb', '-', (AS, "    size_t offset = GGGGC_POOL_BYTES - ((size_t) brk & GGGGC_POOL_INNER_MASK);\n    if (offset == GGGGC_POOL_BYTES)\n        return 0;\n    else\n        return offset;", "    size_t over = (size_t) brk & GGGGC_POOL_INNER_MASK;\n    return over ? GGGGC_POOL_BYTES - over : 0;"))
m('22-ok-sb2', '-', (AS, "    if (ret != (void *) -1)\n        ret = sbrk(GGGGC_POOL_BYTES);\n    ggc_mutex_unlock(&poolLock);\n\n    if (ret == (void *) -1) {\n        if (mustSucceed) {\n            perror(\"sbrk\");\n            abort();\n        } else {\n            return NULL;\n        }\n    }\n    return ret;", "    if (ret != (void *) -1)\n        ret = sbrk(GGGGC_POOL_BYTES);\n    ggc_mutex_unlock(&poolLock);\n\n    if (ret != (void *) -1)\n        return ret;\n    if (!mustSucceed)\n        return NULL;\n    fputs(\"sbrk failed\\n\", stderr);\n    abort();"))

# C06: descriptors built at run time
m('06-min', 'C06', (A, "    if (size < GGGGC_MINIMUM_OBJECT_SIZE)\n        size = GGGGC_MINIMUM_OBJECT_SIZE;\n\n    /* the size of the descriptor */\n    if (pointers)", "    /* the size of the descriptor */\n    if (pointers)"))
m('06-dd-min', 'C06', (A, "    if (size < GGGGC_MINIMUM_OBJECT_SIZE)\n        size = GGGGC_MINIMUM_OBJECT_SIZE;\n\n    /* check if we already", "    /* check if we already"))
m('06-dsize', 'C06', (A, "    dSize = GGGGC_WORD_SIZEOF(struct GGGGC_Descriptor) + dPWords - 1;\n\n    /* get a descriptor-descriptor for the descriptor we're about to allocate */\n    dd = ggggc_allocateDescriptorDescriptor(dSize);\n\n    /* use that to allocate the descriptor */\n    ret = (struct GGGGC_Descriptor *) ggggc_mallocRaw(&dd, dd->size);\n    ret->header.descriptor__ptr = dd;\n    ret->size = size;\n\n    /* and set it up */\n#ifndef", "    dSize = GGGGC_WORD_SIZEOF(struct GGGGC_Descriptor) + dPWords - (dPWords > 1 ? 2 : 1);\n\n    /* get a descriptor-descriptor for the descriptor we're about to allocate */\n    dd = ggggc_allocateDescriptorDescriptor(dSize);\n\n    /* use that to allocate the descriptor */\n    ret = (struct GGGGC_Descriptor *) ggggc_mallocRaw(&dd, dd->size);\n    ret->header.descriptor__ptr = dd;\n    ret->size = size;\n\n    /* and set it up */\n#ifndef"))
m('06-bit0', 'C06', (A, "        ret->pointers[0] |= 1; /* first word is always the descriptor pointer */\n", ""))
m('06-rest', 'C06', (A, "    for (i = 1; i < dPWords; i++) pointersA[i] = 0;", "    for (i = 1; i < dPWords; i++) pointersA[i] = pointers;"))
m('06-rest2', 'C06', (A, "    for (i = 1; i < dPWords; i++) pointersA[i] = 0;", "    for (i = 1; i + 1 < dPWords; i++) pointersA[i] = 0;"))
m('06-copy1', 'C06', (A, "memcpy(ret->pointers, pointers, sizeof(ggc_size_t) * dPWords);", "memcpy(ret->pointers, pointers, sizeof(ggc_size_t) * (dPWords > 2 ? 2 : dPWords));"))
m('06-pa-len', 'C06', (A, "pointers[i] = (ggc_size_t) -1;", "pointers[i] = (ggc_size_t) -2;"))
m('06-pa-keep', 'C06', (A, "        ((ggc_size_t)1<<((((ggc_size_t) (void *) &((GGC_voidpArray) 0)->length)/sizeof(ggc_size_t))))\n        );", "        0);"))
m('06-pa-fill', 'C06', (A, "for (i = 0; i < dPWords; i++) pointers[i] = (ggc_size_t) -1;", "for (i = 0; i < dPWords && i < 2; i++) pointers[i] = (ggc_size_t) -1;\n    for (; i < dPWords; i++) pointers[i] = 0;"))
m('06-dd-user', 'C06', (A, "ret->pointers[0] = GGGGC_DESCRIPTOR_DESCRIPTION;", "ret->pointers[0] = 1;"))
m('06-dd-tags', 'C06', (A, "    ret->tags[GGGGC_OFFSETOF(struct GGGGC_Descriptor *, user)] = 0;\n", ""))
m('06-dd-all', 'C06', (A, "ret->pointers[0] = GGGGC_DESCRIPTOR_DESCRIPTION;", "ret->pointers[0] = (ggc_size_t) -1;"))
m('06-dd-self', 'C06', (A, "    if (ddSize != size)\n        ret->header.descriptor__ptr = ddd;\n    else\n        ret->header.descriptor__ptr = ret;", "    ret->header.descriptor__ptr = ddd ? ddd : ggggc_descriptorDescriptors[ddSize];"))
m('06-dd-late', 'C06', (A, "    if (ggggc_descriptorDescriptors[size]) {\n        ggc_mutex_unlock(&ggggc_descriptorDescriptorsLock);\n        return ggggc_descriptorDescriptors[size];\n    }\n", ""))
m('06-dd-ret', 'C06', (A, "    /* pushing yields, so ret may be stale by now */\n    return ggggc_descriptorDescriptors[size];", "    return ret;"))
m('06-dd-noroot', 'C06', (A, "        GGC_PUSH_1(ggggc_descriptorDescriptors[size]);\n        GGC_GLOBALIZE();", "        GGC_PUSH_1(ggggc_descriptorDescriptors[size]);\n        if (size <= GGGGC_WORD_SIZEOF(struct GGGGC_Descriptor)) GGC_GLOBALIZE();"))
m('06-dd-wrongroot', 'C06', (A, "GGC_PUSH_1(ggggc_descriptorDescriptors[size]);", "GGC_PUSH_1(ret);"))
m('06-slot-noroot', 'C06', (A, "        GGC_PUSH_1(slot->descriptor);\n        GGC_GLOBALIZE();", "        GGC_PUSH_1(slot->descriptor);\n        if (slot->pointers) GGC_GLOBALIZE();"))
m('06-slot-late', 'C06', (A, "    ggc_mutex_lock_raw(&slot->lock);\n    if (slot->descriptor) {\n        ggc_mutex_unlock(&slot->lock);\n        return slot->descriptor;\n    }\n", "    ggc_mutex_lock_raw(&slot->lock);\n"))
m('06-slot-nolock', 'C06 C17', (A, "    slot->descriptor = descriptor;\n    ggc_mutex_unlock(&slot->lock);", "    ggc_mutex_unlock(&slot->lock);\n    slot->descriptor = descriptor;"))
m('06-slot-ptrs', 'C06', (A, "ggggc_allocateDescriptor(slot->size, slot->pointers);", "ggggc_allocateDescriptor(slot->size, slot->pointers & ~(ggc_size_t)0 >> 1);"))
m('06-slot-stale', 'C06', (A, "        GGC_GLOBALIZE();\n        GGC_POP();\n    }\n\n    return slot->descriptor;", "        GGC_GLOBALIZE();\n        GGC_POP();\n    }\n\n    return descriptor;"))
m('06-t-rest', 'C06', (A, "        memset(ret->tags, 1, size); /* any extra words are not pointers */\n        memcpy(ret->tags, tags, tagsSize);", "        memcpy(ret->tags, tags, tagsSize < 8 ? tagsSize : tagsSize & ~(ggc_size_t)7);"))
m('06-l-curm', 'C06', (A, "            if (!curM) {\n                curP = pointers[++pi];\n                curM = 1;\n            }", "            if (!curM) {\n                curP = pointers[pi = 0];\n                curM = 1;\n            }"))
m('06-arr', 'C06 C04', (A, "ggggc_allocateDescriptorPA(sz + 1 + sizeof(struct GGGGC_Header)/sizeof(ggc_size_t));", "ggggc_allocateDescriptorPA(sz + sizeof(struct GGGGC_Header)/sizeof(ggc_size_t));"))
m('06-data', 'C06 C04', (A, "((nmemb*size)+sizeof(ggc_size_t)-1)/sizeof(ggc_size_t)", "(nmemb*size)/sizeof(ggc_size_t)"))
m('06-table', 'C06', ('globals.c', "ggggc_descriptorDescriptors[GGGGC_DESCRIPTOR_WORDS_REQ(GGGGC_WORDS_PER_POOL)+sizeof(struct GGGGC_Descriptor)]", "ggggc_descriptorDescriptors[GGGGC_WORDS_PER_POOL/GGGGC_BITS_PER_WORD]"), ('ggggc-internals.h', "ggggc_descriptorDescriptors[GGGGC_DESCRIPTOR_WORDS_REQ(GGGGC_WORDS_PER_POOL)+sizeof(struct GGGGC_Descriptor)]", "ggggc_descriptorDescriptors[GGGGC_WORDS_PER_POOL/GGGGC_BITS_PER_WORD]"))
m('06-ok-helper', '-', (A, "    slot->descriptor = descriptor;\n    ggc_mutex_unlock(&slot->lock);\n\n    /* make", "    if (1) {\n        struct GGGGC_DescriptorSlot *s2 = slot;\n        s2->descriptor = descriptor;\n        ggc_mutex_unlock(&s2->lock);\n    }\n\n    /* make"))
m('06-ok-loop', '-', (A, "    for (i = 1; i < dPWords; i++) pointersA[i] = 0;", "    memset(pointersA + 1, 0, (dPWords - 1) * sizeof(ggc_size_t));"))
m('06-ok-loop2', '-', (A, "        memcpy(ret->pointers, pointers, sizeof(ggc_size_t) * dPWords);\n", "        { ggc_size_t k; for (k = 0; k < dPWords; k++) ret->pointers[k] = pointers[k]; }\n"))
m('06-ok-calloc', '-', (A, "    pointersA = (ggc_size_t *) malloc(sizeof(ggc_size_t) * dPWords);", "    pointersA = (ggc_size_t *) calloc(dPWords, sizeof(ggc_size_t));"))
m('06-ok-pa', '-', (A, "    for (i = 0; i < dPWords; i++) pointers[i] = (ggc_size_t) -1;", "    memset(pointers, 0xFF, sizeof(ggc_size_t) * dPWords);"))
m('06-ok-pamalloc', '-', (A, "#ifdef alloca\n    pointers", "#ifdef alloca_not\n    pointers"), (A, "#ifndef alloca\n    free", "#ifndef alloca_not\n    free"))
m('06-ok-once', '-', (A, "    if (ggggc_descriptorDescriptors[size]) {\n        ggc_mutex_unlock(&ggggc_descriptorDescriptorsLock);\n        return ggggc_descriptorDescriptors[size];\n    }\n    ggggc_descriptorDescriptors[size] = ret;\n    ggc_mutex_unlock(&ggggc_descriptorDescriptorsLock);\n    {", "    ddd = ggggc_descriptorDescriptors[size];\n    if (!ddd)\n        ggggc_descriptorDescriptors[size] = ret;\n    ggc_mutex_unlock(&ggggc_descriptorDescriptorsLock);\n    if (!ddd) {"))
m('06-ok-minfn', '-', (A, "    if (size < GGGGC_MINIMUM_OBJECT_SIZE)\n        size = GGGGC_MINIMUM_OBJECT_SIZE;\n\n    /* check if we already", "    size = (size < GGGGC_MINIMUM_OBJECT_SIZE) ? GGGGC_MINIMUM_OBJECT_SIZE : size;\n\n    /* check if we already"))
# C05
LHH, MHH, UHH = 'ggggc/collections/list.h', 'ggggc/collections/map.h', 'ggggc/collections/unit.h'
GH = 'ggggc/gc.h'
m('05-int', 'C05', (GH, "| ((ggc_size_t)1<<GGGGC_OFFSETOF(type, member))", "| (1u<<GGGGC_OFFSETOF(type, member))"))
m('05-size', 'C05', (GH, "(sizeof(struct type ## __ggggc_struct) + sizeof(ggc_size_t) - 1) / sizeof(ggc_size_t), \\\n        ((ggc", "sizeof(struct type ## __ggggc_struct *) / sizeof(ggc_size_t), \\\n        ((ggc"))
m('05-off', 'C05', (GH, "((ggc_size_t) &((type) 0)->member ## __ptr / sizeof(ggc_size_t))", "(((ggc_size_t) &((type) 0)->member ## __ptr / sizeof(ggc_size_t)) & 31)"))
m('05-ctor', 'C05', (GH, "#if defined(__GNUC__) && !defined(GGGGC_NO_GNUC_CONSTRUCTOR)\n#define GGGGC_DESCRIPTORS_CONSTRUCTED\n#define GGGGC_DESCRIPTOR_CONSTRUCTOR(type) \\\nstatic void __attribute__((constructor))", "#if defined(__GNUC__) && !defined(GGGGC_NO_GNUC_CONSTRUCTOR)\n#define GGGGC_DESCRIPTORS_CONSTRUCTED\n#define GGGGC_DESCRIPTOR_CONSTRUCTOR(type) \\\nstatic void __attribute__((used))"))
m('05-cxxinst', 'C05', (GH, "static type ## __descriptorSlotConstructor type ## __descriptorSlotConstructorInstance; \\\n", "\n"))
m('05-list-el', 'C05', (LHH, "    GGC_PTR(GGC_ListNode, el)\n", ""))
m('05-list-elm', 'C05', (LHH, "    GGC_PTR(type ## ListNode, el) \\\n", ""))
m('05-list-tail', 'C05', (LHH, "    GGC_PTR(type ## List, tail) \\\n", ""))
m('05-map-order', 'C05', (MHH, "    GGC_MPTR(typeK, key); \\\n    GGC_MPTR(typeV, value); \\\n", "    GGC_MPTR(typeV, value); \\\n    GGC_MPTR(typeK, key); \\\n"))
m('05-map-key', 'C05', (MHH, "    GGC_PTR(GGC_MapEntry, key)\n", ""))
m('05-map-data', 'C05', (MHH, "    GGC_MPTR(GGC_MapEntryArray, entries);", "    GGC_MDATA(GGC_MapEntryArray, entries);"), (MHH, "    GGC_PTR(GGC_Map, entries)", "    GGC_NO_PTRS"))
m('05-thread', 'C05', ('threads.c', "    GGC_PTR(ThreadInfo, arg)", "    GGC_NO_PTRS"))
m('05-tharg', 'C05', (GH, "    GGC_PTR(GGC_ThreadArg, parg)", "    GGC_NO_PTRS"))
m('05-da', 'C05', (GH, "        ggc_size_t length; \\\n        type a__data[1]; \\\n", "        type a__data[1]; \\\n        ggc_size_t length; \\\n"))
m('05-pa', 'C05', (GH, "        ggc_size_t length; \\\n        type a__ptrs[1]; \\\n", "        unsigned length; \\\n        type a__ptrs[1]; \\\n"))
m('05-new', 'C05', (GH, "#define GGC_NEW(type) ((type) GGC_NEW_FROM_DESCRIPTOR(type ## __descriptorSlot.descriptor))", "#define GGC_NEW(type) ((type) GGC_NEW_FROM_DESCRIPTOR(GGC_ThreadArg__descriptorSlot.descriptor))"))
m('05-packed', '-', (GH, "#define GGGGC_OFFSETOF(type, member) \\\n    ((ggc_size_t) &((type) 0)->member ## __ptr / sizeof(ggc_size_t))", "#define GGGGC_OFFSETOF(type, member) \\\n    ((ggc_size_t) (void *) &((type) 0)->member ## __ptr >> 3)"))
m('05-ok-size', '-', (GH, "(sizeof(struct type ## __ggggc_struct) + sizeof(ggc_size_t) - 1) / sizeof(ggc_size_t), \\\n        ((ggc", "1 + (sizeof(struct type ## __ggggc_struct) - 1) / sizeof(ggc_size_t), \\\n        ((ggc"))
m('05-ok-ctor', '-', (GH, "    ggggc_allocateDescriptorSlot(&type ## __descriptorSlot); \\\n}\n\n#elif", "    struct GGGGC_DescriptorSlot *slot = &type ## __descriptorSlot; \\\n    ggggc_allocateDescriptorSlot(slot); \\\n}\n\n#elif"))
m('05-ok-order', '-', (LHH, "    GGC_PTR(GGC_ListNode, next)\n    GGC_PTR(GGC_ListNode, el)\n", "    GGC_PTR(GGC_ListNode, el)\n    GGC_PTR(GGC_ListNode, next)\n"))
# C18
TH, PX = 'threads.c', 'threads/posix.c'
m('18-ok-nopush', '-', (TH, "    GGC_PUSH_1(ti);\n\n    GGC_RD(ti, func)(GGC_RP(ti, arg));", "    GGC_RD(ti, func)(GGC_RP(ti, arg));\n    GGC_YIELD();"))
m('18-oldarg', 'C18', (TH, "    ThreadInfo ti = (ThreadInfo) arg;\n    GGC_PUSH_1(ti);\n\n    GGC_RD(ti, func)(GGC_RP(ti, arg));", "    ThreadInfo ti = (ThreadInfo) arg;\n    GGC_ThreadArg ta = GGC_RP(ti, arg);\n    GGC_PUSH_1(ti);\n\n    GGC_RD(ti, func)(ta);"))
m('18-earlygen0', 'C18', (TH, "    ThreadInfo ti = (ThreadInfo) arg;\n", "    ThreadInfo ti = (ThreadInfo) arg;\n    struct GGGGC_Pool *pools = ggggc_gen0;\n"), (TH, "    ggggc_freeGeneration(ggggc_gen0);", "    ggggc_freeGeneration(pools);"))
m('18-earlyfree', 'C18', (TH, "    /* now remove this thread from the thread barrier */\n", "    ggggc_freeGeneration(ggggc_gen0);\n    /* now remove this thread from the thread barrier */\n"), (TH, "    /* and give back its pools */\n    ggggc_freeGeneration(ggggc_gen0);\n", ""))
m('18-lastfree', 'C18', (TH, "    if (--ggggc_threadCount)\n        ggc_barrier_init(&ggggc_worldBarrier, ggggc_threadCount);\n    ggc_mutex_unlock(&ggggc_worldBarrierLock);\n\n    /* and give", "    if (--ggggc_threadCount)\n        ggc_barrier_init(&ggggc_worldBarrier, ggggc_threadCount);\n    else { ggc_mutex_unlock(&ggggc_worldBarrierLock); return 0; }\n    ggc_mutex_unlock(&ggggc_worldBarrierLock);\n\n    /* and give"))
m('18-pool0', 'C18', (TH, "ggggc_freeGeneration(ggggc_gen0);", "ggggc_freeGeneration(ggggc_pool0);"))
m('18-yieldafter', 'C18', (TH, "    /* and give back its pools */\n", "    GGC_YIELD();\n"))
m('18-twice', 'C18', (TH, "    GGC_RD(ti, func)(GGC_RP(ti, arg));\n", "    GGC_RD(ti, func)(GGC_RP(ti, arg));\n    if (!ggggc_gen0) GGC_RD(ti, func)(GGC_RP(ti, arg));\n"))
m('18-wrongarg', 'C18', (TH, "    GGC_RD(ti, func)(GGC_RP(ti, arg));\n", "    GGC_RD(ti, func)((GGC_ThreadArg) (void *) ti);\n"))
m('18-argbefore', 'C18', (PX, "    GGC_WP(ti, arg, arg);\n", "    if (func) GGC_WP(ti, arg, arg);\n"))
m('18-noarg', 'C18', (PX, "    GGC_WP(ti, arg, arg);\n", "    if (!arg) GGC_WP(ti, arg, arg);\n"))
m('18-lateti', 'C18 C01', (PX, "    /* update our thread barrier */\n    while", "    void *tip = ti;\n    while"), (PX, "ggggcThreadWrapper, ti)", "ggggcThreadWrapper, tip)"))
m('18-latecount', 'C18 C15', (PX, "    ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);\n    ggc_mutex_unlock(&ggggc_worldBarrierLock);\n\n    /* spawn", "    ggc_barrier_init(&ggggc_worldBarrier, ++ggggc_threadCount);\n    ggc_mutex_unlock(&ggggc_worldBarrierLock);\n    GGC_YIELD();\n\n    /* spawn"))
m('18-ok-locals', '-', (TH, "    GGC_RD(ti, func)(GGC_RP(ti, arg));\n", "    {\n        ggggc_threadFunc fn = GGC_RD(ti, func);\n        GGC_ThreadArg ta = GGC_RP(ti, arg);\n        fn(ta);\n    }\n"))
m('18-ok-helper', '-', (TH, "    /* now remove this thread from the thread barrier */\n    while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)\n        GGC_YIELD();\n    ggc_barrier_destroy(&ggggc_worldBarrier);\n    if (--ggggc_threadCount)\n        ggc_barrier_init(&ggggc_worldBarrier, ggggc_threadCount);\n    ggc_mutex_unlock(&ggggc_worldBarrierLock);\n\n    /* and give", "    leaveWorld();\n\n    /* and give"), (TH, "/* general purpose thread wrapper */", "static void leaveWorld(void)\n{\n    ggc_size_t left;\n    while (ggc_mutex_trylock(&ggggc_worldBarrierLock) != 0)\n        GGC_YIELD();\n    ggc_barrier_destroy(&ggggc_worldBarrier);\n    left = --ggggc_threadCount;\n    if (left != 0)\n        ggc_barrier_init(&ggggc_worldBarrier, left);\n    ggc_mutex_unlock(&ggggc_worldBarrierLock);\n}\n\n/* general purpose thread wrapper */"))
m('18-ok-order', '-', (PX, "    GGC_WD(ti, func, func);\n    GGC_WP(ti, arg, arg);\n", "    GGC_WP(ti, arg, arg);\n    GGC_WD(ti, func, func);\n"))
m('18-ok-gen0', '-', (TH, "    ggggc_freeGeneration(ggggc_gen0);", "    {\n        struct GGGGC_Pool *mine = ggggc_gen0;\n        if (mine) ggggc_freeGeneration(mine);\n        ggggc_gen0 = NULL;\n    }"))
# C23
m('23-poolof', 'C23', ('collector/portablems.c', "#ifdef GGGGC_FEATURE_FINALIZERS\nstruct GGGGC_Pool *ggggc_poolOf", "#if defined(GGGGC_FEATURE_FINALIZERS) && !defined(GGGGC_FEATURE_TAGGING)\nstruct GGGGC_Pool *ggggc_poolOf"))
m('23-internals', 'C23', ('ggggc-internals.h', "extern struct GGGGC_Pool *ggggc_pools[GGGGC_GENERATIONS];", "extern struct GGGGC_Pool *ggggc_pools[GGGGC_GENERATIONS+1];"))
m('23-cxxcast', 'C23', (A, "ret = (struct GGGGC_Pool *) allocPool", "ret = allocPool"))
m('23-none', 'C23', ('ggggc/threads-none.h', "#define ggc_sem_wait_raw(x)             0\n", ""))
m('23-maplist', 'C23', (MHH, "    GGC_MDATA(ggc_size_t, size); \\\n", "    GGC_MDATA(unsigned, size); \\\n"))
m('20-typed-unshift', 'C20', (LHH, "    GGC_ListUnshift((GGC_List) list, value);", "    GGC_ListPush((GGC_List) list, value);"))
m('20-typed-swap', 'C20', (LHH, "    GGC_ListUnshiftList((GGC_List) to, (GGC_List) from);", "    GGC_ListUnshiftList((GGC_List) from, (GGC_List) to);"))
m('20-typed-order', 'C05 C20', (LHH, "    GGC_MPTR(type ## ListNode, head); \\\n    GGC_MPTR(type ## ListNode, tail); \\\n", "    GGC_MPTR(type ## ListNode, tail); \\\n    GGC_MPTR(type ## ListNode, head); \\\n"))
# C21
m('21-get-null', 'C21', (MP, "        if (cmp(key, keyCmp) == 0) {\n            *value", "        if (keyCmp && cmp(key, keyCmp) == 0) {\n            *value"))
m('21-get-first', 'C21', (MP, "    while (entry) {\n        keyCmp = GGC_RP(entry, key);\n        if (cmp(key, keyCmp) == 0) {\n            *value", "    if (entry) {\n        keyCmp = GGC_RP(entry, key);\n        if (cmp(key, keyCmp) == 0) {\n            *value"))
m('21-get-ident', 'C21', (MP, "        if (cmp(key, keyCmp) == 0) {\n            *value", "        if (key == keyCmp) {\n            *value"))
m('21-get-zero', 'C21', (MP, "            *value = GGC_RP(entry, value);\n            return 1;", "            *value = GGC_RP(entry, value);\n            return *value != NULL;"))
m('21-get-stop', 'C21', (MP, "            return 1;\n        }\n        entry = GGC_RP(entry, next);", "            return 1;\n        }\n        if (hash(keyCmp) == hashV) break;\n        entry = GGC_RP(entry, next);"))
m('21-get-sign', 'C21', (MP, "        if (cmp(key, keyCmp) == 0) {\n            *value", "        if (cmp(key, keyCmp) <= 0) {\n            *value"))
m('21-put-oldsize', 'C21', (MP, "    GGC_PUSH_9(map, key", "    size_t hash0 = 0;\n    GGC_PUSH_9(map, key"), (MP, "    newUsed = GGC_RD(map, used);\n", "    newUsed = GGC_RD(map, used);\n    hash0 = hash(key) % GGC_RD(map, size);\n"), (MP, "    hashV = hash(key) % GGC_RD(map, size);\n\n    /* look", "    hashV = hash0;\n\n    /* look"))
m('21-grow-tail', 'C21', (MP, "                GGC_WP(entry, next, prevEntry);\n", "                if (!nextEntry) prevEntry = NULL;\n                GGC_WP(entry, next, prevEntry);\n"))
m('21-grow-oldbucket', 'C21', (MP, "                hashV = hash(keyCmp) % newSize;\n", "                hashV = hash(keyCmp) % newSize;\n                if (hashV >= 3 * (newSize / 4)) hashV -= newSize / 2;\n"))
m('21-grow-nofull', 'C21', (MP, "        for (i = 0; i < GGC_RD(map, size); i++) {", "        for (i = 0; i < newSize / 2 - 1; i++) {"))
m('21-grow-late', 'C21', (MP, "        GGC_WD(map, size, newSize);\n        GGC_WP(map, entries, newEntries);\n    }\n\n    /* figure", "        GGC_WP(map, entries, newEntries);\n    }\n\n    /* figure"))
m('21-put-nocount', 'C21', (MP, "    newUsed++;\n", "    if (!nextEntry) newUsed++;\n"))
m('21-put-dup', 'C21', (MP, "            GGC_WP(entry, value, value);\n            return;", "            if (value) { GGC_WP(entry, value, value); return; }"))
m('21-put-chain', 'C21', (MP, "    GGC_WP(entry, next, nextEntry);\n", "    if (cmp(key, key) == 0 && nextEntry && hashV) GGC_WP(entry, next, nextEntry);\n"))
m('21-put-keynew', 'C21', (MP, "            GGC_WP(entry, value, value);\n            return;", "            GGC_WP(entry, value, value);\n            GGC_WP(entry, key, value);\n            return;"))
m('21-clone-share', 'C21', (MP, "                if (oldNextEntry)\n                    newNextEntry = GGC_NEW(GGC_MapEntry);", "                if (oldNextEntry)\n                    newNextEntry = oldNextEntry;"))
m('21-clone-table', 'C21', (MP, "    GGC_WP(ret, entries, newEntries);\n\n    return ret;", "    if (!used) newEntries = oldEntries;\n    GGC_WP(ret, entries, newEntries);\n\n    return ret;"))
m('21-clone-used', 'C21', (MP, "    GGC_WD(ret, used, used);\n", "    used = used < 2 ? used : size / 2;\n    GGC_WD(ret, used, used);\n"))
m('21-clone-last', 'C21', (MP, "    for (i = 0; i < size; i++) {\n        oldEntry", "    for (i = 0; i + 1 < size; i++) {\n        oldEntry"))
m('21-clone-value', 'C21', (MP, "                value = GGC_RP(oldEntry, value);\n", "                value = GGC_RP(oldEntry, value);\n                if (!oldNextEntry && oldEntry != GGC_RAP(oldEntries, i)) value = NULL;\n"))
m('21-ok-thresh', '-', (MP, "    if (newUsed > GGC_RD(map, size) / 2) {", "    if (newUsed * 4 > GGC_RD(map, size) * 3) {"))
m('21-ok-start', '-', (MP, "        GGC_WD(map, size, 4);\n        newEntries = GGC_NEW_PA(GGC_MapEntry, 4);", "        GGC_WD(map, size, 8);\n        newEntries = GGC_NEW_PA(GGC_MapEntry, 8);"))
m('21-ok-tail', '-', (MP, "    GGC_WP(entry, next, nextEntry);\n    GGC_WP(entry, key, key);\n    GGC_WP(entry, value, value);\n    GGC_WAP(newEntries, hashV, entry);\n", "    GGC_WP(entry, key, key);\n    GGC_WP(entry, value, value);\n    if (!nextEntry) {\n        GGC_WAP(newEntries, hashV, entry);\n    } else {\n        while ((prevEntry = GGC_RP(nextEntry, next)) != NULL) nextEntry = prevEntry;\n        GGC_WP(nextEntry, next, entry);\n    }\n"))
m('21-ok-helper', '-', (MP, "/* put an element in a map */\n", "static GGC_MapEntry find(GGC_Map map, void *key, ggc_map_hash_t hash, ggc_map_cmp_t cmp)\n{\n    GGC_MapEntry entry = NULL;\n    void *other = NULL;\n    size_t at;\n    GGC_PUSH_4(map, key, entry, other);\n    at = hash(key) % GGC_RD(map, size);\n    for (entry = GGC_RAP(GGC_RP(map, entries), at); entry; entry = GGC_RP(entry, next)) {\n        other = GGC_RP(entry, key);\n        if (cmp(key, other) == 0) return entry;\n    }\n    return NULL;\n}\n\n/* put an element in a map */\n"),
  (MP, "    /* look over current entries */\n    entry = GGC_RAP(GGC_RP(map, entries), hashV);\n    while (entry) {\n        /* entry found. Does it match? */\n        keyCmp = GGC_RP(entry, key);\n        if (cmp(key, keyCmp) == 0) {\n            /* yes. Just update the value */\n            GGC_WP(entry, value, value);\n            return;\n        }\n        entry = GGC_RP(entry, next);\n    }\n", "    entry = find(map, key, hash, cmp);\n    if (entry) {\n        GGC_WP(entry, value, value);\n        return;\n    }\n"))
m('21-ok-order', '-', (MP, "                GGC_WP(newEntry, next, newNextEntry);\n                key = GGC_RP(oldEntry, key);\n                GGC_WP(newEntry, key, key);\n", "                key = GGC_RP(oldEntry, key);\n                GGC_WP(newEntry, key, key);\n                GGC_WP(newEntry, next, newNextEntry);\n"))
m('21-ok-early', '-', (MP, "    hashV = hash(key) % GGC_RD(map, size);\n    entry = GGC_RAP(GGC_RP(map, entries), hashV);\n    while (entry) {\n        keyCmp = GGC_RP(entry, key);\n        if (cmp(key, keyCmp) == 0) {", "    hashV = hash(key);\n    hashV %= GGC_RD(map, size);\n    for (entry = GGC_RAP(GGC_RP(map, entries), hashV); entry;) {\n        keyCmp = GGC_RP(entry, key);\n        if (!cmp(key, keyCmp)) {"))
m('21-typed-hash', 'C21', (MHH, "               (ggc_map_hash_t) (hash), (ggc_map_cmp_t) (cmp)); \\\n} \\\nstatic name name", "               (ggc_map_hash_t) (cmp), (ggc_map_cmp_t) (hash)); \\\n} \\\nstatic name name"))
m('21-typed-kv', 'C21', (MHH, "    GGC_MapPut((GGC_Map) map, key, value, \\", "    GGC_MapPut((GGC_Map) map, value, key, \\"))
m('21-typed-clone', 'C21', (MHH, "    return (name) GGC_MapClone((GGC_Map) map); \\", "    return map ? (name) GGC_MapClone((GGC_Map) map) : map; \\"))
m('21-typed-members', 'C21', (MHH, "    GGC_MPTR(typeK, key); \\\n    GGC_MPTR(typeV, value); \\", "    GGC_MPTR(typeV, value); \\\n    GGC_MPTR(typeK, key); \\"))
