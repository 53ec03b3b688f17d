#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Library code never uses an object reference made stale by a collection",
     "Wherever the library itself (descriptor creation, allocation entry points, collections, finalizer and thread support) keeps a reference to a collected object across any operation that may trigger or wait for a collection (an allocation, a yield, a blocking call, a user callback), that reference is registered as a root for the whole interval and is re-read from its registered variable afterwards. A reference loaded before such an operation is never dereferenced, stored, passed on or returned after it.",
     ["schedules", "histories", "programs"],
     "Every allocation history and every thread schedule: a collection may strike at each allocation or yield, and objects may move there.",
     "A stale reference only misbehaves when a collection lands exactly in the window; with 16 MB pools the tests hit almost none of the windows, and the vacated memory usually still holds the old bytes.",
     ["allocator.c", "collections/list.c", "collections/map.c", "threads/posix.c", "threads.c", "collector/gembc.c", "collector/portablems.c"],
     [("GGC_PUSH_* registration before every allocation", "collections/*.c, allocator.c, threads/posix.c"), ("descriptor protected by address in the raw allocator", "collector/*.c ggggc_mallocRaw")],
     [("ggggc_pointerStack", "registered root variables", "globals.c")],
     ["return values and object graph of every public function"])

prop("C02", "Root registration is exact, published complete, and popped on every exit",
     "Each push form registers exactly the variables it is given, as one complete frame that becomes visible to the collector only once it is filled in, and then offers a yield. Each frame is removed exactly once, in LIFO order, on every way out of its scope, in each of the supported cleanup modes (GNU cleanup, C++ destructor, manual pop, redefined return), so after any library call the thread's root stack is what it was before. Globalizing the top frame leaves a permanent copy of all of its entries reachable from the stack's bottom.",
     ["programs", "histories", "configurations"],
     "All push arities and forms, all exit paths of all library functions, all cleanup modes.",
     "Tests use only some arities and two cleanup modes, and a leaked or short frame is invisible until a later collection reads the dead stack slot.",
     ["ggggc/push.h", "pushgen.c", "ggggc/gc.h", "roots.c", "allocator.c"],
     [("GGC_PUSH_n / GGC_PUSH_MANUAL_n / GGC_PUSH_N", "ggggc/push.h"), ("GGGGC_LOCAL_PUSH, GGGGC_LocalPush, class GGC", "ggggc/gc.h"), ("ggggc_globalize", "roots.c")],
     [("ggggc_pointerStack", "top frame", "globals.c"), ("ggggc_pointerStackGlobals", "bottom-most frame", "globals.c")])

prop("C03", "Every reference store into an old object passes the write barrier",
     "With more than one generation, every reference store that mutator code can make through the public write forms (member, array element, descriptor user pointer, C++ member and array wrappers) or that library code makes into an object that may already have been promoted marks the card of the written object in the remembered set of that object's own pool whenever its generation is above the youngest. The mark is not conditional on anything but the generation, and the store itself always happens.",
     ["programs", "histories", "configurations"],
     "Every write form and every store site in the library, whatever the generation of the written object.",
     "A missed card only loses an object if the written object is old, the target is young, nothing else refers to it and a minor collection comes before a full one.",
     ["ggggc/gc-gembc.h", "ggggc/gc.h", "allocator.c", "collections/list.c", "collections/map.c", "threads/posix.c"],
     [("GGGGC_WP barrier", "ggggc/gc-gembc.h"), ("GGC_WP/GGC_WAP/GGC_WUP, C++ operator=, GGCPA::put", "ggggc/gc.h")],
     [("GGGGC_Pool.remember", "card marks per pool", "ggggc/gc-gembc.h")])

prop("C04", "Allocation returns private, zeroed, correctly headed memory of the full size",
     "An allocation returns memory that lies wholly inside one pool's free space, that no later allocation will return, that is zero for its full length, and that carries its descriptor (and canary in the debugging build) when the typed entry points return; if there is no room in any pool of the thread it collects with the caller's descriptor protected, and retries. Arrays carry their length, and an array of n elements has room for n elements after its header, with all of a pointer array's elements traced and none of a data array's.",
     ["inputs", "histories", "configurations"],
     "All sizes and fill states of pools and free lists.",
     "Tests allocate a few small sizes; overlap at a pool's last words, or recycled non-zero memory, needs exact fill levels and only shows as corruption much later.",
     ["collector/gembc.c", "collector/portablems.c", "allocator.c"],
     [("ggggc_mallocRaw, ggggc_malloc", "collector/*.c"), ("ggggc_mallocPointerArray, ggggc_mallocDataArray", "allocator.c")],
     [("GGGGC_Pool.free/end", "bump range", "ggggc/gc.h"), ("freeList", "portablems free list", "collector/portablems.c")])

prop("C05", "Declared types are described exactly to the collector",
     "For every type declared with the type macros, by the library or through its list, map, unit and user-type macros, the static descriptor gives the object's true size in words and marks as references exactly the members declared as references, in every feature configuration and language mode, wherever in the object those members lie.",
     ["programs", "configurations"],
     "All type declarations made through the macros, members at any offset, all configurations.",
     "Tests declare types with at most a handful of members, all at small offsets; a member the descriptor misses only matters when that member is the only path to an object at a collection.",
     ["ggggc/gc.h", "ggggc/collections/list.h", "ggggc/collections/map.h", "ggggc/collections/unit.h", "ggggc-internals.h", "threads.c"],
     [("GGC_TYPE/GGC_MPTR/GGC_MDATA/GGC_END_TYPE/GGC_PTR", "ggggc/gc.h")],
     [("X__descriptorSlot", "size and reference bitmap", "generated by GGC_DESCRIPTOR")])

prop("C06", "Descriptors built at run time describe exactly what was asked for",
     "A descriptor built at run time records the requested size (raised to the collector's minimum), holds a complete reference map for every word of that size, always marks the descriptor word itself when anything is marked, and has itself room for that map. Descriptors are in turn described so that their own descriptor and their user pointer are traced and nothing else is; a slot or size class is given one descriptor, created once under its lock and kept alive as a root.",
     ["inputs", "schedules", "configurations"],
     "All sizes, in particular more words than one bitmap word holds, and concurrent first use.",
     "Tests build descriptors of at most a few words from one thread and never use the user pointer or the tagged variant.",
     ["allocator.c", "ggggc/gc.h", "globals.c"],
     [("ggggc_allocateDescriptor{,L,T,PA,DA,Slot,Descriptor}", "allocator.c"), ("GGGGC_DESCRIPTOR_DESCRIPTION, GGGGC_DESCRIPTOR_WORDS_REQ", "ggggc/gc.h")],
     [("ggggc_descriptorDescriptors", "descriptor of descriptors by size", "globals.c")])

prop("C07", "Every registered root is scanned and updated by every collection",
     "Each collection, minor or full, in either collector, takes as roots every entry of every frame of every root stack: those of the collecting thread, of each thread stopped for the collection, and of each thread blocked outside it, and likewise every entry of the JIT stacks where that feature is on. Only null and user-tagged (or tag-marked non-pointer) entries may be skipped, and a compacting collection updates each such entry to the object's new address under the same conditions.",
     ["schedules", "histories", "programs", "configurations"],
     "Any number of threads, frames and entries, in any mix of running and blocked threads.",
     "Tests have few threads, no JIT stack content and no tagged values; a root missed in one phase needs an object reachable only from it.",
     ["collector/gembc.c", "collector/portablems.c", "threads.c"],
     [("root loops of ggggc_collect0 and ggggc_collectFull", "collector/gembc.c"), ("root loops of ggggc_collect0", "collector/portablems.c"), ("ggggc_yield feeding roots", "collector/*.c"), ("ggc_pre_blocking", "threads.c")],
     [("ggggc_rootPointerStackList, ggggc_rootPool0List, ggggc_rootJITPointerStackList", "roots of the running collection", "globals.c")])

prop("C08", "Tracing visits exactly the reference words of an object, for any size",
     "Wherever a collector enumerates an object's references (marking, copying, remembered cards, pointer update), it treats word i of the object as a reference exactly when the object's descriptor says so for word i, for every i below the object's size and with the descriptor reference itself always included; only null and user-tagged values are skipped. This holds for objects of any size and for the word-tag descriptor format as well as the bitmap.",
     ["inputs", "programs", "configurations"],
     "All object sizes and reference maps, including maps that span several words.",
     "Test objects have under 64 words apart from pointer arrays, whose map is all ones, so misaligned or mis-shifted maps are never visible.",
     ["collector/gembc.c", "collector/portablems.c"],
     [("ADD_OBJECT_POINTERS, ggggc_postCompact", "collector/gembc.c"), ("mark", "collector/portablems.c")],
     [("GGGGC_Descriptor.pointers / tags", "reference map", "ggggc/gc.h")])

prop("C09", "The remembered set covers every old-to-young reference at each minor collection",
     "A minor collection scans every object on every remembered card of every pool of every generation above the ones it collects, starting from the recorded first object of the card. First-object records and card marks are maintained whenever objects are placed in or moved within an old generation, card marks are cleared only once the generations they guard against have been emptied, and after a compaction every card holding a reference to a younger generation is marked again.",
     ["histories", "programs", "configurations"],
     "All sequences of minor and full collections, generation counts and object placements relative to cards.",
     "The tests' graphs are mostly reachable from the stack as well; a lost card needs an old object as the only holder of a young one, and a wrong first-object record needs particular card alignment.",
     ["collector/gembc.c"],
     [("remembered-set loop and clearing in ggggc_collect0", "collector/gembc.c"), ("ggggc_mallocGen1, ggggc_newPoolGen", "collector/gembc.c"), ("ggggc_postCompact", "collector/gembc.c")],
     [("GGGGC_Pool.remember / firstObject / gen", "card table", "ggggc/gc-gembc.h")])

prop("C10", "Promotion copies each live object once and redirects every reference to it",
     "When a minor collection moves an object it copies all of its words to a fresh object of the same size in the next generation, leaves a forwarding reference only after the copy, rewrites the reference through which the object was found, and queues the copy's own references; a reference to an object that has already moved is redirected to the existing copy. Objects above the collected generations are not moved, and running out of room in the target generation turns into a collection of that generation as well, never into a lost or half-moved object.",
     ["histories", "programs"],
     "All object graphs (shared, cyclic, long) and fill levels of the target generation.",
     "The order of steps and the failure path only show with particular sharing and at the moment the old generation fills up.",
     ["collector/gembc.c"],
     [("test loop of ggggc_collect0", "collector/gembc.c")],
     [("descriptor__ptr low bits", "forwarded and marked tags", "collector/gembc.c")])

prop("C11", "A full collection marks, slides and re-points all pools before resuming",
     "A full collection marks everything reachable, following forwarding left by an interrupted promotion, and then runs each of its passes (sizing, compaction, pointer update, pool reset) over every pool of every thread and of every generation, completing a pass over all pools before the next begins. No mark or forwarding tag is left in a live object when the mutators resume, and every reference in every surviving object is updated.",
     ["histories", "programs", "configurations"],
     "All heaps: any number of threads, pools and generations.",
     "Most test heaps have one pool per generation, and a skipped pool or pass order only matters with references between pools.",
     ["collector/gembc.c"],
     [("ggggc_collectFull, ggggc_countUsed, ggggc_compact, ggggc_postCompact", "collector/gembc.c")],
     [("GGGGC_Pool.breakTable", "relocation table", "ggggc/gc-gembc.h")])

prop("C12", "Pools are fully initialised on every acquisition and never shared",
     "A pool handed out, whether new or recycled, has all of its bookkeeping set for its new use (links, bounds, survivor count, generation, first-object record, remembered set, finalizer list) whatever it held before. The list of free pools loses none and hands out none twice, under any interleaving of threads taking and returning pools, and pool lists only ever grow by properly linked pools.",
     ["histories", "schedules", "configurations"],
     "All recycling histories and interleavings.",
     "Tests recycle pools only at thread exit and rarely reuse them; stale fields matter only after reuse.",
     ["allocator.c", "collector/gembc.c", "collector/portablems.c"],
     [("ggggc_newPool, ggggc_freeGeneration, ggggc_expandPoolList", "allocator.c"), ("ggggc_newPoolGen", "collector/gembc.c"), ("ggggc_newPoolFree", "collector/portablems.c")],
     [("freePoolsHead/freePoolsTail", "free pools", "allocator.c"), ("struct GGGGC_Pool", "per-pool bookkeeping", "ggggc/gc.h")])

prop("C13", "Mark-and-sweep keeps marked objects and frees exactly the rest",
     "In the mark-and-sweep collector a sweep walks each pool of its thread from start to end, keeps and unmarks every marked object, and turns every unmarked object and every existing free area into free-list space of the right size, merging only adjacent areas. The allocator hands out from the free list only areas of exactly the needed size or large enough to leave a valid free area, and always leaves the list linked; free areas stay distinguishable from objects at all times outside the collection.",
     ["histories", "inputs", "configurations"],
     "All heap layouts and allocation sizes.",
     "The tests exercise two or three object sizes, so odd remainders and adjacent-merge cases hardly occur, and none checks that memory was reclaimed.",
     ["collector/portablems.c"],
     [("ggggc_mallocRaw, mark, sweep, clearFreeList, ggggc_newPoolFree", "collector/portablems.c")],
     [("freeList", "thread's free areas", "collector/portablems.c")])

prop("C14", "The stop-the-world handshake keeps mutators out of the whole collection",
     "A collection holds the world lock from before it raises the stop request until after the last thread has been released, reads or changes heap and roots only after every counted thread has reached the barrier and published its pools and root stacks, and releases them only after its work is done. A yielding thread publishes its pools and stacks between the first and second rendezvous, takes part in exactly as many rendezvous as the collecting thread, and touches no heap state in between except its own sweep in its assigned phase.",
     ["schedules"],
     "All interleavings of any number of threads.",
     "Only two of the eight test programs use threads; a reordering opens a window of a few instructions.",
     ["collector/gembc.c", "collector/portablems.c"],
     [("ggggc_collect0, ggggc_yield", "collector/*.c")],
     [("ggggc_stopTheWorld, ggggc_worldBarrier, ggggc_worldBarrierLock, ggggc_rootsLock", "handshake state", "globals.c")])

prop("C15", "The world barrier always counts exactly the threads that can reach it",
     "The number of threads the world barrier waits for changes only together with the barrier's re-initialisation to the new count, under the world lock, with the old barrier destroyed first unless there was none yet. It goes up before a new thread can run and back down if that thread could not be started, goes down once for each thread that ends or blocks, and up once for each that resumes.",
     ["schedules", "fault_sequences", "histories"],
     "All sequences of thread creation, failed creation, blocking and exit.",
     "Thread creation never fails in the tests, and a miscount only hangs or breaks the next collection.",
     ["threads.c", "threads/posix.c", "collector/gembc.c", "collector/portablems.c"],
     [("ggggcThreadWrapper, ggc_pre_blocking, ggc_post_blocking", "threads.c"), ("ggc_thread_create", "threads/posix.c")],
     [("ggggc_threadCount, ggggc_worldBarrier", "who must rendezvous", "globals.c")])

prop("C16", "A thread blocked in a library call stays visible to the collector throughout",
     "Every blocking library operation (lock, barrier, semaphore, join) leaves the counted world before it blocks and re-enters it after, on every path and exactly once, and performs the underlying operation exactly once with its outcome reported faithfully: 0 on success, -1 with errno set on failure. While it is out, all of the thread's roots (pools, root stack, and JIT stack where enabled) are listed for collections to scan, and on return precisely its own entries are removed.",
     ["schedules", "fault_sequences", "configurations"],
     "All interleavings of blocking threads and collections; success and failure of the blocking call.",
     "Tests only join threads that hold few roots, and never look at results or at several blocked threads at once.",
     ["threads.c", "threads/posix.c", "gen-barriers.c"],
     [("ggc_pre_blocking, ggc_post_blocking", "threads.c"), ("BLOCKING wrappers", "threads/posix.c")],
     [("ggggc_blockedThreadPool0s, ggggc_blockedThreadPointerStacks, ggggc_blockedThreadJITPointerStacks", "roots of blocked threads", "globals.c")])

prop("C17", "Locks are always released, guard their data, and cannot wedge a collection",
     "Each internal lock is acquired and released in matched pairs on every path out of every function, error paths included, and never acquired again by its holder; shared lists and counters (free pools, roots, blocked-thread lists, thread count, descriptor tables) are changed only under their lock. No thread waits uninterruptibly for a lock whose holder may be waiting for a collection: such locks are taken by trying and yielding, or are never held across a point that can collect.",
     ["schedules", "fault_sequences"],
     "All interleavings and failure paths.",
     "A deadlock here needs a collection to begin in a window of one allocation while another thread waits for the same lock.",
     ["allocator.c", "threads.c", "threads/posix.c", "collector/gembc.c", "collector/portablems.c", "allocator/malloc.c"],
     [("ggc_mutex_lock_raw / trylock+yield / unlock pairs", "all of the library")],
     [("ggggc_worldBarrierLock, ggggc_rootsLock, freePoolsLock, ggggc_descriptorDescriptorsLock, slot locks", "internal locks", "globals.c, allocator.c")])

prop("C18", "Thread start-up and exit hand over references and heap without losing either",
     "The argument of a new thread is kept reachable from before the thread exists until its function has received it, and the function is called exactly once with it. A finished thread gives up its root frame and its pools only after it has left the counted world, its pools go back for reuse exactly once, and no object another thread can still reach is in a pool given back.",
     ["schedules", "histories"],
     "All interleavings of thread start, collection and exit.",
     "The window between creation and the new thread's first push is a few instructions; recycled pools are rarely reused in the tests.",
     ["threads.c", "threads/posix.c"],
     [("ggggcThreadWrapper", "threads.c"), ("ggc_thread_create", "threads/posix.c")],
     [("ThreadInfo", "function and argument in transit", "threads.c")])

prop("C19", "Each finalizer runs once, after its object died, on an intact object",
     "A registered finalizer is kept as long as its object survives, through any number of minor and full collections, and is queued exactly once when a collection finds the object otherwise unreachable; the object, the entry and everything they refer to stay valid until it has run. Finalizers run only after the world has been restarted, and no collection drops, duplicates or leaves dangling any pending entry.",
     ["histories", "programs", "configurations"],
     "All sequences of registrations and collections, minor, full, and escalating from one to the other.",
     "One test program registers finalizers and only checks that a counter returns to zero, which premature finalization satisfies.",
     ["allocator.c", "collector/gembc.c", "collector/portablems.c"],
     [("ggggc_finalize, ggggc_runFinalizers", "allocator.c"), ("FINALIZER_POOL and its call sites", "collector/gembc.c"), ("finalizer pass of ggggc_collect0", "collector/portablems.c")],
     [("GGGGC_Pool.finalizers", "pending entries", "ggggc/gc.h")])

prop("C20", "List operations keep every list well formed and lose or repeat no element",
     "After every list operation, on empty, one-element and longer lists alike, a list's head, tail, links and length describe one and the same sequence: empty means no head, no tail and length 0; otherwise the tail is the last node reachable from the head. Each operation yields exactly the sequence its description says: pushing and inserting add the value at that place, list versions move all of the source's elements in order and leave the source empty, shifting removes and returns the first element or nothing, and array conversion gives the elements in order.",
     ["inputs", "histories"],
     "All list lengths, insertion places and operation sequences.",
     "The list test pushes and shifts only, checks nothing but crashes, and never uses list splicing or insertion at the tail.",
     ["collections/list.c", "ggggc/collections/list.h"],
     [("GGC_List*", "collections/list.c")],
     [("GGC_List.head/tail/length", "list state", "ggggc/collections/list.h")])

prop("C21", "A map returns the last value put under a key and nothing else",
     "A lookup returns a value exactly when an entry with an equal key was put, and then the latest one; putting an existing key replaces its value in place, putting a new one adds exactly one entry, and neither disturbs other keys. Growing the table keeps every entry in the bucket its hash selects for the new size, and a clone has the same entries in its own nodes and shares no mutable part with the original.",
     ["inputs", "histories"],
     "All key sets, hash functions (including colliding ones), sizes around growth, and clone timing.",
     "The map test uses one hash, never clones, never overwrites under collision and never looks up a missing key in a full bucket.",
     ["collections/map.c", "ggggc/collections/map.h"],
     [("GGC_MapGet, GGC_MapPut, GGC_MapClone", "collections/map.c")],
     [("GGC_Map.size/used/entries", "map state", "ggggc/collections/map.h")])

prop("C22", "Every pool back-end yields aligned, disjoint pools or reports failure",
     "Whichever memory back-end is configured, a request for a pool returns a whole pool, aligned to the pool size where the collector relies on alignment, disjoint from every other pool, or reports failure: it ends the program with a message when the pool is indispensable and returns nothing otherwise. A failure is recognised by the back-end's own failure value and leaves no lock held and no half-updated state behind.",
     ["configurations", "fault_sequences", "schedules"],
     "All back-ends; failure of the system call at any request; concurrent requests.",
     "Memory never runs out in the tests, two of the back-ends are compiled in no test configuration, and one is never used with threads.",
     ["allocator/malign.c", "allocator/malloc.c", "allocator/mmap.c", "allocator/portable.c", "allocator/sbrk.c", "allocator.c"],
     [("allocPool", "allocator/*.c")],
     [("space/spaceEnd", "carved region", "allocator/malloc.c")])

prop("C23", "Every supported configuration compiles and defines the whole declared API",
     "Each combination of collector, feature switches, generation count, back-end, language and cleanup mode that the headers offer type-checks, every function and variable the headers declare in a configuration is defined in it with that very type, and every public macro expands to valid code when used as documented. Offsets and sizes that different parts of the code rely on to coincide do so in each of them.",
     ["configurations", "programs"],
     "The full cross product of build switches, and all documented macros.",
     "The test matrix turns on one feature at a time with one switch at a time, uses a fraction of the macros, and links only functions some test calls.",
     ["ggggc/gc.h", "ggggc/threads-posix.h", "ggggc-internals.h", "collector/gembc.c", "collector/portablems.c", "globals.c"],
     [("feature switches", "ggggc/gc.h")],
     [])

prop("C24", "Compaction relocates each surviving object to the address references are given",
     "For every layout of live and dead objects in a pool, sliding compaction moves each live object's words unchanged to a new place without overwriting unmoved data or the relocation table, and looking up any old address in the sorted relocation table gives exactly the object's new address.",
     ["inputs", "histories"],
     "All pool layouts, in particular minimum-size gaps and odd object sizes.",
     "The relation between rolling table entries and copied words depends on every gap and object size; tests see a handful of layouts.",
     ["collector/gembc.c"],
     [("ggggc_countUsed, ggggc_compact, findBreakTableEntry", "collector/gembc.c")],
     [("GGGGC_Pool.breakTable/breakTableSize", "relocation table", "ggggc/gc-gembc.h")])

prop("C25", "Unreachable memory is eventually reclaimed and the heap stays proportionate",
     "Garbage is reclaimed within a bounded number of collections, so a program whose live data stays bounded runs in bounded memory, and growth of a generation follows the survivor ratio.",
     ["histories", "programs"],
     "All long-running programs.",
     "Tests run for seconds and do not watch memory.",
     ["collector/gembc.c", "collector/portablems.c", "allocator.c"],
     [("ggggc_expandPoolList, clearFreeList, sweep", "allocator.c, collector/portablems.c")],
     [])

prop("C26", "A requested collection or allocation finishes in bounded time",
     "Once every other thread yields or blocks within a bounded time, a collection starts and completes within a bound proportional to the heap, and every allocation that can be satisfied returns.",
     ["schedules", "histories"],
     "All schedules under fairness.",
     "Progress under every schedule cannot be observed by running some schedules.",
     ["collector/gembc.c", "collector/portablems.c", "threads.c"],
     [("trylock and yield loops", "collector/*.c, threads.c")],
     [])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
