import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    P.append(d)
A='lib/h/ce/atomic_std.h'
p('C01','Atomic operations are indivisible and linearizable',
 'For every type the atomic API accepts (booleans, 1-8 byte integers, pointers, floats and doubles, trivially copyable aggregates up to 16 bytes) every concurrent history of load, store, exchange, compare-exchange and fetch-add/sub/xor/and/or on one atomic object is linearizable: no update is lost, doubled or torn, and exchange and every fetch operation return exactly the value their own update replaced. A compare-exchange fails only when the stored value differs from the expected one, then reports the value it saw through the expected argument, and on success leaves the expected argument and everything outside the object untouched. This holds under any preemption, including when a weak hardware compare-exchange fails spuriously.',
 ['schedules','inputs','fault_sequences'],'all interleavings of 2-5 threads performing random operation sequences on shared atomics of every supported type, with spurious weak-CAS failures',
 'test/atomic.cpp runs each operation once on one thread; no test ever has two threads, so lost updates, torn values and wrong return values under contention are invisible.',
 [A,'lib/h/ce/atomic.h'],[('atomic operation wrappers and float/pointer fetch-add polyfill',A+' atomic_load..atomic_fetch_or')])
p('C02','Atomics are sequentially consistent and publish earlier plain writes',
 'All atomic operations of all threads, on any set of atomic objects, take effect in one single total order consistent with each thread\'s program order, so store-buffering, load-buffering, message-passing and independent-reads outcomes impossible under interleaving never occur. Plain data written before an atomic write (store, exchange, successful compare-exchange or fetch operation) is visible, without a data race, to any thread that reads that written value with any atomic operation.',
 ['schedules','inputs'],'all schedules and all reads-from choices the C++ memory model allows the compiled orderings, over randomly composed litmus programs and hand-written locks built from every pair of operations',
 'The tests are single-threaded; memory-ordering weakening compiles, passes every test and on x86 hardware rarely shows.',
 [A],[('sequentially consistent default orderings of every wrapper',A)])
p('C03','A thread mutex excludes and hands over everything written under it',
 'Between a successful acquire (blocking or try) of a thread mutex and its release no other thread successfully acquires the same mutex, for any number of threads and mutexes, any interleaving and any storage the mutex was placed in. Everything a thread wrote before releasing is visible to the next thread that acquires, without a data race; distinct mutexes never exclude each other or touch memory outside their own storage.',
 ['schedules','histories'],'all interleavings of 2-6 threads acquiring, try-acquiring and releasing up to 3 mutexes built in dirty memory, with destroy/reconstruct cycles',
 'test/mutex.cpp takes each mutex once on one thread.',
 ['lib/mutex_std.cpp','lib/h/ce/mutex.h'],[('construct/acquire/try/release wrappers','lib/mutex_std.cpp'),('opaque storage size','lib/h/ce/mutex.h')])
p('C04','Thread mutex acquire makes progress; try-acquire never blocks',
 'A blocked acquire of a thread mutex always returns once the holder has released it and threads keep running, so that any program in which every holder releases finishes: no wake-up is lost and no thread is left waiting. Try-acquire never waits: it returns false while any thread holds the mutex and true when the mutex is free, and a failed try changes nothing: the holder can still release and others can still acquire.',
 ['schedules','fault_sequences'],'all interleavings, holder stalls of arbitrary length inside the critical section, and try storms',
 'The tests have no second thread to block, stall or wake.',
 ['lib/mutex_std.cpp'],[('acquire/try/release wrappers','lib/mutex_std.cpp')])
p('C05','A shared mutex never mixes a writer with anyone else',
 'While a thread holds a shared mutex exclusively (by acquire or try-acquire) no other thread holds it in either mode, and while any thread holds it shared no thread holds it exclusively, for any mix of blocking and try operations of both modes and any interleaving. Everything written under an exclusive hold is visible without a data race to later exclusive and shared holders, and reads under a shared hold happen before the writes of the next exclusive holder.',
 ['schedules','histories'],'all interleavings of 2-6 threads mixing both modes, blocking and try, under reader-preferring, writer-preferring and barging lock policies',
 'test/mutex.cpp takes the shared mutex once on one thread.',
 ['lib/mutex_std.cpp','lib/h/ce/mutex.h'],[('shared mutex wrappers','lib/mutex_std.cpp')])
p('C06','Readers of a shared mutex coexist and every waiter makes progress',
 'Several threads can hold a shared mutex in shared mode at the same time: a shared acquire or shared try succeeds while only readers hold the lock and no writer is waiting, and exclusive try fails then. Every blocked acquire of either mode returns once all conflicting holders have released, neither try operation ever waits, and a failed try changes nothing.',
 ['schedules','fault_sequences'],'all interleavings with holder stalls, try storms, transient EAGAIN from the reader-count limit and reader/writer preference policies',
 'No test has two simultaneous readers, a waiter or a failing try.',
 ['lib/mutex_std.cpp'],[('shared mutex wrappers','lib/mutex_std.cpp')])
p('C07','A rational-rate clock never drifts, whatever the polling pattern',
 'For a clock of rate Fn/Fd ticks per second, after a reset and any sequence of polls at any instants, the sum of the returned tick counts, and the running tick count, equal floor(counts elapsed since reset * Fn / (counter frequency * Fd)) exactly, as long as no intermediate product of one second\'s counts exceeds 64 bits. Stalls, bursts of polls within one tick, several seconds between polls, counter wrap-around and mixing the two poll functions never add, lose or duplicate a tick.',
 ['histories','schedules','inputs','configurations'],'all poll histories, stall patterns, start counter values (including near wrap-around), counter frequencies and many compile-time rates',
 'test/clock.cpp polls a 60 Hz clock for half a second of real time and is itself excluded as flaky; drift, long gaps and large residues are never reached.',
 ['lib/h/ce/clock.h'],[('elapsed(): whole/fract/residual arithmetic','lib/h/ce/clock.h elapsed')])
p('C08','Monotonic timestamps never go back and measure true elapsed time',
 'The monotonic timestamp never decreases along any thread or between threads ordered by synchronization, and the difference of two readings equals the elapsed hardware time between the calls times the reported monotonic frequency, to within the duration of the calls. This is unaffected by wall-clock steps, wall-clock leaps in either direction, clock-rate slewing by time daemons, thread migration, preemption anywhere in the call, and how long the machine has been up.',
 ['schedules','fault_sequences','histories'],'all schedules and all sequences of wall-clock steps, slews, stalls and uptimes from seconds to over a hundred years',
 'The test reads two timestamps microseconds apart on an undisturbed machine.',
 ['lib/os_posix.cpp'],[('monotonic_timestamp / monotonic_frequency','lib/os_posix.cpp')])
p('C09','Sleep never ends early, even when interrupted',
 'A sleep of n nanoseconds returns no earlier than n nanoseconds after it was called, for every n from zero to years, even when signals interrupt it any number of times at any instants and the wall clock is stepped meanwhile. It also returns within bounded overshoot: once interruptions stop it returns no later than the requested time plus the timer latency and the time its interruptions themselves took, and never restarts the full interval.',
 ['fault_sequences','schedules','inputs'],'all durations, all patterns of signal interruption, timer latency and wall-clock steps during the sleep',
 'No test interrupts a sleep or checks how long it lasted; the clock test that depends on it is excluded as flaky.',
 ['lib/os_posix.cpp'],[('sleep_ns','lib/os_posix.cpp')])
p('C10','Debug output arrives exactly once, whole and in order',
 'Every text a thread passes to debug output appears on the error stream byte for byte, exactly once and in that thread\'s order, before the call returns, no matter how the stream splits, delays or interrupts the transfer (short writes, interrupted calls) and no matter what other threads print. If the stream fails hard, what appears is a prefix of the text with nothing duplicated or reordered and the caller is not blocked for ever; null and empty texts print nothing, and a crash right after the call loses nothing.',
 ['fault_sequences','schedules','crash_points'],'all texts up to 64 KiB, all patterns of short writes, EINTR and hard errors, all interleavings of printing threads and all crash points',
 'The tests print to an always-willing stderr and never look at what arrived.',
 ['lib/os_posix.cpp','lib/os.cpp'],[('debug_out','lib/os_posix.cpp')])
p('C11','Each structured log record is exact, complete and level-tagged',
 'A log statement emits, in the emitting thread\'s order, exactly one line of the documented form: the letter of its level (fatal F, error E, warn W, note N, info I, debug D, spam S, more or unknown M), then braces holding "$" with the level name followed by every logged expression as a quoted "source text": "value text" pair in source order, terminated by a newline. The values are those at the time of the call whatever other threads do and however the stream splits or interrupts the transfer: the bytes a thread puts on the stream are exactly its own records, although pieces of records that threads emit at the same time may interleave on a shared stream.',
 ['schedules','fault_sequences','inputs'],'all interleavings of threads logging different value types, levels and expression lists while the stream injects short writes and interruptions',
 'The tests emit log records to stderr and never read them back, on one thread.',
 ['lib/os.cpp','lib/h/ce/ce.h'],[('os::log record formatting','lib/os.cpp log'),('call_log_hook / names parser / as_string','lib/h/ce/ce.h')])
p('C12','A failed check is fully reported before it traps; passing checks are silent',
 'When an assertion, verification or rejection check fails on any thread, its report - the failure banner and a line naming file, line, kind, the checked expression, the argument texts and the argument values - has completely reached the error stream before the program breaks into the debugger, and it does break even if the stream refuses the report. If a debugger resumes, the statement yields the check\'s truth value and execution continues; a check that holds prints nothing, never breaks and evaluates its condition exactly once. The same pairs also go to the log, as one record of level fatal. A program that installs its own hooks is given the same pairs; if its error hook declines, the check yields its truth value without breaking (except CE_ERROR), and with checks configured to level 0 they only evaluate their condition, once.',
 ['crash_points','fault_sequences','schedules'],'all check kinds and argument lists failing on any thread at any point, with short, interrupted and failing writes, death at the trap or debugger resume',
 'Failing checks abort a test binary, so the tests only contain passing ones (the failing block is compiled out).',
 ['lib/os.cpp','lib/h/ce/ce.h'],[('CE_AFFIRM / error_hook / call_error_hook','lib/h/ce/ce.h'),('os::error','lib/os.cpp')])
p('C13','Mapping a file is all-or-nothing and leaks nothing',
 'Opening, mapping and closing files either succeeds and presents exactly the file\'s bytes, or reports failure with the caller\'s span emptied (zero size, null data); a view the caller never received is never left mapped, and after unmapping and closing no handle, mapping or view remains, whichever system call fails at whichever point. On a platform whose file support is absent every such call fails closed in the same way - false, empty span - without touching the system, and repeated failure is stable.',
 ['fault_sequences','schedules','inputs'],'all failure points of every system call involved, file sizes including zero and over 4 GiB, repeated and concurrent use, dirty output spans',
 'No test opens or maps a file, and real system calls do not fail on demand.',
 ['lib/os_posix.cpp','lib/os_win32.cpp'],[('open_file/close_file/map_span/unmap_span','lib/os_win32.cpp, lib/os_posix.cpp')])
p('C14','Clients sharing one pool keep independent, lossless queues',
 'Any number of queues drawn from one pool by any interleaving of (mutually excluded) clients behave as independent double-ended lists: head inserts and tail appends appear in order, removal always takes the current head, and an item stays intact until it is removed. Capacity is conserved: the pool hands out exactly its capacity minus one live nodes, an insert fails only when all of them are in use and then changes nothing, removed or freed nodes are reusable at once, and no node is ever in two places.',
 ['histories','schedules'],'all interleavings of clients pushing, popping, allocating and freeing, with pools from 2 to 65536 nodes repeatedly driven to exhaustion and back',
 'test/pool.cpp runs one three-element queue in a 1024-node pool; reuse, interleaving and exhaustion are never reached.',
 ['lib/h/ce/pool.h'],[('free list and circular queues','lib/h/ce/pool.h')])
p('C15','A shared dictionary behaves as one map for every client',
 'A dictionary shared by clients under a shared mutex behaves like a sequential map from key to latest bound value: find succeeds exactly for the keys bound so far, for every key value including zero, and then refers to that key\'s value; binding an existing key replaces its value in place, keeping size and every other reference valid. Binding a new key fails, changing nothing, only when capacity minus one distinct keys are bound, and the entry reference returned for a key never changes.',
 ['histories','schedules','inputs'],'all interleavings of binding and looking-up clients, all key values including 0 and extremes, capacities from 2 up, driven to exhaustion',
 'test/dictionary.cpp binds three fixed hashed keys once.',
 ['lib/h/ce/dictionary.h'],[('find / bind','lib/h/ce/dictionary.h')])
p('C16','A shared priority queue delivers every item once, smallest first',
 'A bounded min priority queue shared by mutually excluded producers and consumers returns on each dequeue the smallest item present, delivers each accepted item exactly once, and rejects an enqueue exactly when it is full, changing nothing. Used as a timer queue it therefore never fires a timer before an earlier one nor loses or repeats one, whatever the interleaving of arming and firing.',
 ['histories','schedules'],'all interleavings of producers and consumers, item values with many ties and extremes, capacities 1 to 64 driven through empty and full',
 'No test touches the priority queue.',
 ['lib/h/ce/ce.h'],[('heap_raise / heap_lower / min_priority_queue','lib/h/ce/ce.h')])
p('C17','Bulk containers construct and destroy each element exactly once',
 'For every history of append, append-n, resize, clear, ordered and unordered removal, copy construction, copy assignment and destruction of bulk containers, by any interleaving of mutually excluded clients, exactly the elements within the reported size are alive: none is constructed twice, assigned before construction, leaked, or destroyed twice, including for element types without a default constructor. Contents equal a reference sequence, iteration, indexing, spans and back() show exactly it, operations beyond capacity or range fail and change nothing, and removal keeps order (ordered) or moves the last element in (unordered).',
 ['histories','schedules'],'all operation histories over several containers and element types (default-constructible, not, trivial), capacities driven to full and empty',
 'The tests check one fixed script of one element type.',
 ['lib/h/ce/ce.h'],[('bulk / construct_at / destroy_at / construct_copy / assign_items','lib/h/ce/ce.h')])
p('C18','Library functions keep no hidden shared state',
 'Threads that call any library functions at the same time on their own distinct arguments and objects never influence one another: each thread\'s results equal those of the same calls made alone, under any preemption at any instruction, and no two such calls race on memory. This covers text conversion and formatting, reflection and names, hashing and checksums, random generators, sorting and searching, math and geometry, Morton queries, decoding, triangulation meshes, containers and clocks.',
 ['schedules','programs'],'all interleavings, preempted at single memory accesses, of threads running random programs over the whole header and library API on private objects',
 'Every test is single-threaded; a static scratch buffer or cache passes all of them.',
 ['lib/h/ce/ce.h','lib/to_text.cpp','lib/to_text_from_integer.h','lib/h/ce/math.h','lib/h/ce/sort.h','lib/h/ce/zorder.h','lib/h/ce/lziii.h','lib/h/ce/nameof.h','lib/h/ce/cdt.h','lib/h/ce/io.h','lib/h/ce/pool.h','lib/h/ce/dictionary.h','lib/h/ce/clock.h'],[('absence of static mutable storage','all headers and lib/*.cpp')])
p('C19','Const operations on shared objects are safe for concurrent readers',
 'Any number of threads may use the const (read-only) operations of one shared object at the same time - dictionary lookups, mesh location and traversal, container and span iteration, sorted and Morton searches, bit tests, queue inspection, reflection tables - and each gets the answer a lone reader would get, with no write to the shared object and no data race. A reader overlapping other readers never sees a transient state.',
 ['schedules'],'all interleavings, preempted at single memory accesses, of 2-5 readers of shared objects of every container kind',
 'Every test is single-threaded; a lookup that caches or reorders internally passes all of them.',
 ['lib/h/ce/dictionary.h','lib/h/ce/cdt.h','lib/h/ce/pool.h','lib/h/ce/ce.h','lib/h/ce/sort.h','lib/h/ce/zorder.h'],[('const member functions','dictionary find, cdt locate/edges/faces, pool is_empty, bulk begin/end, bitset operator[]')])
p('C20','Triangulation replicas fed the same commands are identical',
 'The mesh is a deterministic state machine: replicas that apply the same sequence of reset, point, edge and fill commands with the same hints hold identical meshes after every command and return identical results, whatever the prior contents of their memory, their addresses, the threads that apply them, the moments they are preempted, or a crash that makes one restart from a byte copy (snapshot) or replay the log from the start. Queries (location, traversal) never change a mesh, and they return the same answer on every replica.',
 ['schedules','crash_points','histories'],'all command logs on small and large extents with random hints, all replica speeds and interleavings, crash-restart from any snapshot or from scratch, dirty memory',
 'test/cdt.cpp resets one statically zeroed mesh and locates one point.',
 ['lib/h/ce/cdt.h'],[('reset / insert_point / insert_edge / fill / locate','lib/h/ce/cdt.h')])
p('C21','Checksums are chunking-independent and catch stream corruption',
 'The 32-bit CRC of a stream is the same however it is cut into chunks by short reads, and whether chunks are fed as bytes, 32-bit or 64-bit little-endian words, for every polynomial; FNV hashes likewise continue across chunks. A receiver comparing CRC-32C detects every single, double or triple bit flip, every corrupted burst of at most 32 bits, and accepts every undamaged stream.',
 ['inputs','fault_sequences'],'all stream contents up to 4 KiB, all chunkings and word widths, all burst and bit-flip placements, and interleaved streams on several threads',
 'The only checks of the CRC are three constants in a block that is compiled out.',
 ['lib/h/ce/ce.h'],[('crc32 overloads and tables','lib/h/ce/ce.h crc32'),('fnv1a','lib/h/ce/ce.h hash')])
p('C22','Reflected state survives save, crash and restore exactly',
 'A value saved through the reflection visitor and read back through a visitor of the same shape is restored exactly: every bound member, array element, list element and vector component is visited once, in declaration order, under its own name, with array and class brackets balanced and a list\'s size presented before its elements. With checksummed checkpoints written alternately to two slots of a disk that tears, loses or reorders unsynced writes at any crash point, recovery always yields the last acknowledged checkpoint or a newer complete one, never a mixture.',
 ['crash_points','fault_sequences','histories'],'all values of several nested reflected types, all crash points and torn/lost/short write patterns of the simulated disk, repeated crash-recovery cycles',
 'test/io.cpp prints two fixed values to text and never reads anything back.',
 ['lib/h/ce/io.h','lib/h/ce/ce.h'],[('io::item/items, reflection<>','lib/h/ce/io.h'),('names_t','lib/h/ce/io.h'),('crc32','lib/h/ce/ce.h')])
p('C23','A triangulation stays a valid mesh, even when it runs out of room',
 'After any history of point insertions (duplicates, points on vertices or edges, points out of range of existing triangles, any hint) the mesh is a consistent triangulation: every face has three distinct vertices in one fixed orientation, neighbouring faces name each other across each edge, faces tile the square without overlap, and every unconstrained edge is locally Delaunay. An insertion that cannot be carried out because the mesh is full, or because the point lies on or outside the rim of the square, reports failure and leaves the mesh unchanged and usable; location with any hint, valid or stale, returns the one face containing the point, and the node where a point would be inserted is the face, edge or vertex it lies on. The face view, the edge view and single entries show the same mesh, with exactly one primary side per edge.',
 ['histories','fault_sequences'],'all insertion histories over small, large and degenerate coordinate sets, all hints including stale and out-of-range ones, capacities from 5 vertices up driven to exhaustion',
 'test/cdt.cpp inserts nothing.',
 ['lib/h/ce/cdt.h'],[('insert_point_at_node / flip / locate','lib/h/ce/cdt.h')])
p('C24','Constrained edges persist and fill stops exactly at them',
 'After any history of point insertions, edge insertions and fills, with any coordinates of the square including its corners and rim, the triangulation stays consistent, every edge insertion ends, and the ends of every edge whose insertion reported success are joined by an unbroken chain of constrained edges along the straight line between them (exactly along it where it crosses no constraint; where edges cross they split each other at a vertex rounded to the coordinate grid), and stay joined there however many points and edges are inserted later and wherever they cross. An edge that crosses no constraint is accepted while the mesh has room; one along an existing edge or across a single edge that can give way is accepted without new vertices. A fill changes exactly the faces reachable from its starting point without crossing a constraint or a face that already has the value, and a point later inserted into a uniformly filled region leaves the region\'s value unchanged; edge insertions and fills that run out of room report failure and leave a consistent mesh.',
 ['histories','fault_sequences'],'all command histories over small, large and degenerate coordinate sets (collinear, crossing, duplicate and zero-length edges), all hints, capacities driven to exhaustion',
 'test/cdt.cpp inserts no edge and fills nothing.',
 ['lib/h/ce/cdt.h'],[('insert_edge / restore / fill','lib/h/ce/cdt.h')])
# --- not applicable
def na(id,title,statement,qtext,why,files,mech): p(id,title,statement,['inputs'],qtext,why,files,mech)
na('C30','Sorting yields an ordered permutation; binary searches are exact',
 'Sorting any array orders it and permutes its elements; lower and upper bound return the exact partition points of any sorted array.','all arrays','tests sort a few fixed arrays',['lib/h/ce/sort.h'],[('intro_sort, lower_bound, upper_bound','lib/h/ce/sort.h')])
na('C31','Numbers convert to exact shortest text within the measured size',
 'Every integer converts to its exact decimal text, floats to round-trip text, and no conversion writes more characters than the measure for its type.','all values of all types','tests convert a handful of values',['lib/to_text.cpp','lib/to_text_from_integer.h','lib/h/ce/ce.h'],[('to_text / measure','lib/h/ce/ce.h')])
na('C32','Base64 and lz decoders invert their encodings within bounds',
 'Decoding a valid base64 or lz stream yields exactly the original bytes, and the size functions predict the decoded size.','all valid encodings','no test decodes anything non-trivial',['lib/h/ce/ce.h','lib/h/ce/lziii.h'],[('base64::decode, lziii::decode','lib/h/ce')])
na('C33','Enum and type names round-trip',
 'The name of every named enumerator converts back to that enumerator, unknown values and names map to the documented fallback, and type names are exact.','all enumerators up to 255','tests check two enums',['lib/h/ce/nameof.h'],[('nameof / as_enum','lib/h/ce/nameof.h')])
na('C34','Exactly one triangle contains any point; polygon tests agree',
 'With the simulation-of-simplicity predicate any point lies inside exactly one triangle of a planar mesh, and the polygon test equals the winding number for all in-range inputs.','all points and polygons in range','tests sample one grid',['lib/h/ce/math.h','lib/h/ce/ce.h'],[('inside / in_polygon','lib/h/ce')])
na('C35','Morton box queries return exactly the points in the box',
 'A box query over sorted Morton codes returns each matching code once, in order, and nothing else beyond the documented 16-bit granularity.','all sorted code arrays and boxes','no test queries',['lib/h/ce/zorder.h'],[('z_query','lib/h/ce/zorder.h')])
na('C36','Fixed-point trigonometry and range tests are accurate',
 'Rotation, polar conversion, square root, hypotenuse and ball-edge range tests are accurate to their documented precision over their whole input range.','all inputs in range','tests sample a few angles',['lib/h/ce/math.h'],[('cordic, isqrt, in_range_*','lib/h/ce/math.h')])
na('C37','Random generators match their published sequences and stay in range',
 'Each generator produces the published sequence for its seed, ranged draws stay in range and the unbiased draw is uniform.','all seeds','tests check one histogram',['lib/h/ce/ce.h'],[('xoroshiro, pcg, next_ranged, next_unbiased','lib/h/ce/ce.h')])
na('C38','Bit sets read back exactly what was set',
 'For every index, setting, clearing and testing a bit affects that bit alone and set-all and clear-all affect every bit.','all indices and sizes','no test uses bitset',['lib/h/ce/ce.h'],[('bitset','lib/h/ce/ce.h')])
na('C39','Macro argument names are split exactly as written',
 'The expression list of a log statement is split into its top-level expressions for any nesting of brackets, quotes and escapes, without overrunning its buffer.','all expression texts','tests log a few expressions and never read them back',['lib/h/ce/ce.h'],[('names parser','lib/h/ce/ce.h')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
