"""What each check claims: (technique, level note). NA: why a property is not
claimed."""
COMMON = ' Trusts clang 18, the LLVM normalisation passes, and the C semantics of the analysed configurations (x86-64, the configuration matrix in DESIGN.md).'
CLAIMS = {
 'C01': ('flow-sensitive dataflow over IR: staleness of reference values across collection points, with tracking of the registered root frames',
         'All paths of every library function that can reach a collection; a reference SSA value live across one must be re-read from a variable that was in a published frame for the whole interval.' + COMMON),
'C02': ('flow-sensitive abstract interpretation of the root stack and the frames in automatic storage, over drivers instantiating every push form and over every library function that touches the stack',
         'Every push macro (1 to 16, manual, N), every scope exit form in each cleanup mode, the C++ wrappers; ggggc_globalize interpreted over stacks of any depth. The redefined-return mode pops one frame per return, as documented; scopes nested with returns inside are outside that mode.' + COMMON),
 'C03': ('flow-sensitive dataflow over IR: every reference store paired with the generation test and card mark of its own object',
         'Every public write form instantiated by drivers (members near and far, arrays, user pointers, C++ wrappers) and every reference store in the library; values compared symbolically.' + COMMON),
'C04': ('abstract interpretation of the allocators over symbolic pools and free lists; every path\'s outcome compared, in a finite set of situation classes, with what the bounds ask for',
         'Allocation entry points, both young allocators, the promoting allocator, arrays and every allocation macro; outcomes are evaluated at representatives of each class of (free space, size, card position), the paths themselves are symbolic.' + COMMON),
 'C05': ('comparison of the compiled constant descriptor of every declared type with the layout of its structure in the compiler\'s debug information, and of every use and construction of descriptor slots',
         'All types of the library and about a hundred types of the driver, with references at every describable word, members of odd sizes, and all collection macros, in 13 configurations and both languages. Types declared by programs not analysed are covered through the macros only.' + COMMON),
 'C06': ('abstract interpretation of every descriptor builder, with the builders it calls, in a constant domain at sizes and reference patterns on each side of every boundary, with collections moving what they may and another thread filling the place before any lock is taken',
         'Seven builders and the two array allocators in twelve configurations; 13 (thorough: 33) sizes around map-word boundaries, 5-6 reference patterns each; the result and the whole chain of descriptors above it are compared with what was asked for.' + COMMON),
 'C07': ('dataflow over IR: traversal contexts of every root walk (list cursors, counted loops) with the exact guards of each addition and update',
         'For every analysed configuration: every entry of every frame of every listed stack is added before the search and updated by compaction, guarded by nothing but null and tag tests; the lists themselves are published by every thread (typestate over the safepoint functions).' + COMMON),
 'C08': ('abstract interpretation of the object-scan loops in a finite domain (bit position, relative map-word index), run to a fixed point',
         'For objects of every size: word i is visited exactly under its own descriptor bit or tag, the null test and the tag test.' + COMMON),
'C09': ('dataflow over IR: exact guards and ranges of the remembered-card walk and the card bookkeeping of the update pass; abstract interpretation of the promoting allocator',
         'Card walk, card clearing and rebuilding for pools of any content, by symbolic guards; the first-object record of the promoting allocator over symbolic pool bounds, evaluated at representatives of each card situation. That the card walk is complete for a marked card rests on C03 and on the first-object invariant, each side of which is checked separately.' + COMMON),
'C10': ('abstract interpretation of one round of the search loop, and of the end of a collection, on a small symbolic heap covering every kind of referent',
         'Every kind of referent (null, in place, forwarded once and twice; every generation; with and without references; copy possible or not), all paths of the round; the end of the collection over several threads and pools. That rounds are taken until the worklist is empty is C07/C08; descriptors with other layouts are C08.' + COMMON),
 'C11': ('abstract interpretation of each pass of the full collection on small symbolic heaps, all arrangements up to a bound; dataflow over IR for the root scan and update',
         'One round of marking for every kind of referent; sizing and compaction for every arrangement of up to 4-5 live, dead and moved objects (6-7 in the thorough tier), relocation lookup for tables of up to 17 (33) entries at every position, the update of objects for one object of each layout in pools of each generation; pass order over several threads, pools and generations. Larger arrangements are covered only as far as the loops treat each object alike.' + COMMON),
 'C12': ('shape analysis: abstract interpretation of the pool operations over summarised pool lists, with the free list replaced by an arbitrary one whenever its lock is taken',
         'New and recycled pools, free and generation lists of any length, every back-end; the concurrent part rests on the lock: the free list is havocked at each acquisition.' + COMMON),
 'C13': ('abstract interpretation of one round of the marking search over every kind of object, and of whole collections on small symbolic heaps, all arrangements up to a bound; layout facts',
         'One round of marking for every kind of object (any number of marks and searches); sweeping and free-list rebuilding for every arrangement of up to 3 (thorough: 5) live, dead and free areas plus dead descriptors before and after what they describe, over one to three pools, in the collecting and in the yielding thread; the allocator over symbolic free lists of up to 3 areas.' + COMMON),
 'C14': ('typestate: path-sensitive automaton of the handshake (world lock, stop flag, rendezvous number, publication) over every participating function',
         'All paths of every function that takes part; heap and root accesses classified by provenance; publication of thread lists by typestate. The barrier is taken to behave as documented (its own code is checked under C16).' + COMMON),
 'C15': ('typestate: counting automaton over all paths of every function that changes the thread count or the world barrier',
         'All paths, including thread-creation failure; count and barrier size change together under the world lock.' + COMMON),
 'C16': ('typestate over the blocking wrappers (pre, operation, post, result) and path enumeration of the result value',
         'All paths of every public blocking operation in every configuration including the mutex and condition fall-back of semaphores and barriers.' + COMMON),
 'C17': ('typestate and effect analysis: lock pairing, held-lock sets, collection effects through the call graph, spin loops, guarded-by and lock order',
         'All paths of every function that takes a lock, with the internal lock objects found by their accesses; data guarded by each lock listed by the shared globals accessed.' + COMMON),
 'C18': ('abstract interpretation of thread creation and of the function threads start in, over all paths, with references made stale at every point a collection is possible, and typestate of count, function call and hand-back',
         'Every path of creation (success and failure) and of the start function, lock contention and yields included (a busy lock is met at most once per place). That nothing another thread can reach is in the pools given back does not hold: two known findings.' + COMMON),
 'C19': ('abstract interpretation of registration, running, and whole minor, full and mark-and-sweep collections on small symbolic heaps with finalizers',
         'Thirteen heap shapes (dead, live, shared, cyclic, several entries per object, entries of other threads and older generations), each with the copying interrupted at every point, and with every kind of partly moved heap for the full collection; the passes of compaction are replaced by their effect here (they are decided under C11). Heaps are bounded; copying, marking and sorting are interpreted from the current source.' + COMMON),
 'C20': ('shape analysis: abstract interpretation over summarised list shapes (empty, one, many nodes with folded middle and symbolic lengths)',
         'Every list operation of every list unit, over all initial shapes including aliased and empty lists.' + COMMON),
 'C21': ('abstract interpretation of the map operations over tables which keep the invariant, keys known up to equality and hash; call matching for the typed functions',
         'Lookup, putting and cloning from tables of 0, 4 and 8 (thorough: also 16) buckets with up to five entries, colliding and not, on both sides of growth, with null keys and values; that each operation keeps the invariant carries it to every history, for tables of those sizes.' + COMMON),
 'C23': ('type-checking of every unit and of a use of the whole API over a covering array of the switches, and comparison of declarations with definitions and of layouts between units',
         'A 3-wise (thorough: 4-wise) covering array of twelve switches: collector, four features, generations, debugging, GNU features, threads, allocator, sizes, compiler and language; about 200 (800) configurations. Windows and Mac OS code cannot be compiled here.' + COMMON),
 'C22': ('abstract interpretation of the back-ends over blocks of memory known up to their position relative to a pool boundary (congruence domain), in sequences of requests with every pattern of system failures, and with another request interleaved wherever no lock forbids it',
         'Five back-ends and the tiny-heap mode, sequences of 3 to 20 requests, 1 to 6 (thorough: 12) positions of the granted memory, failures of 1 to 4 consecutive system calls at two to five points. The Windows back-end cannot be compiled here.' + COMMON),
}
NA = {
 'C24': 'quantifies over arbitrary heap layouts: that the sliding copy never overwrites unmoved data or the relocation table, and that the sorted table lookup inverts the move, depends on run-time object positions and sizes which no static argument in reach bounds; the structural clauses of compaction are checked under C11',
 'C25': 'quantifies over unbounded run-time histories of allocation and survival ratios (liveness and space); no finite-path static rule decides it without becoming a proxy for the present heuristics',
 'C26': 'a liveness and termination bound over schedules and heap contents; the structural deadlock causes are checked under C14, C15 and C17',
}
