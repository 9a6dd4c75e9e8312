# property -> (oracle, bounds of the quick tier); used for the evidence and for DESIGN.md
B = {
"C01": ("vector vs. array model",
    "programs of 3–4 operations (write, push, pop, resize with/without shrink, flush, read, clear) on vectors of 7–13 elements with 1–2 pages in cache and both pagers; symbolic index over three pages; copies, swaps, iterators, the rest of the interface (at, front, back, reverse iterators, page queries), buffered readers and writers at every offset up to 8; export_files of a flushed vector"),
"C05": ("stack vs. array model",
    "programs of 4 bursts of operations for normal, grow-shrink, grow-shrink2 and migrating stacks, 1–2 blocks per page, pools of several sizes"),
"C06": ("queue vs. array model",
    "programs of 4 bursts of push/pop, five pool configurations, several queues sharing one pool"),
"C07": ("deque vs. array model",
    "programs of 4 operations on a ring of 4 elements that doubles and resizes; all pairs of iterator positions at every rotation, ring sizes that are no power of two; pairs of deques compared, swapped, cleared"),
"C08": ("sequence vs. array model, streams in both directions",
    "programs of 3 bursts, three pool sizes; the smallest pool is a known finding"),
"C09": ("sorted multiset model with permutation tags",
    "fixed insert/extract programs that reach the external mergers and level overflow, symbolic keys at the sampled positions (mask), plus all programs of 5–6 elements"),
"C10": ("sorted multiset model with permutation tags",
    "programs of 3 operations (push bursts, bulk sessions, bulk pops, limit sessions) after 0–60 preloaded elements, 1–2 insertion heaps, tiny memory so that spilling and external merges occur, symbolic keys; 1–3 threads, schedules with up to 1–2 preemptions"),
"C11": ("sorted-map model incl. live iterators",
    "programs over maps of 0–24 preloaded entries, leaves of 2–8 entries so that splits, fusions and root changes occur, symbolic keys; pairs of maps compared and swapped while iterators on both are alive"),
"C12": ("map model",
    "programs over preloaded maps with small buffers, colliding and extreme hash values, forced rehashes, bulk insertion; pairs of maps swapped while iterators (also with open readers) are alive"),
"C02": ("the file holds, element by element, what a plain array does",
    "vectors of 9–16 elements (4 per block) on syscall, mmap and linuxaio files, programs of 2–3 (thorough 4) operations incl. resize, shrink, flush, clear, close and reopen by file size; sort, ksort, stable_ksort and random_shuffle on ranges of 38–40 elements that start and end inside and at blocks"),
"C14": ("order, permutation, untouched border elements",
    "ranges of up to 40 elements that start and end inside and at blocks, memory for 2 to 16 blocks (in memory, and one to four merge passes), four states of the page cache, symbolic keys at two or three positions and sort of all-symbolic small ranges"),
"C15": ("as C14",
    "ksort"),
"C16": ("as C14 plus stability",
    "stable_ksort, 5–28 elements, memory for 6 to 16 blocks"),
"C17": ("order and permutation of the produced stream",
    "runs_creator variants, runs_merger, sort, sorter with 0–40 elements and memory for a few blocks, so that one to three merge levels occur; rewinding and clearing sorters"),
"C13": ("array model: the operation computed directly on the elements modulo 256",
    "products: 7 algorithms x 3 schedulers, shapes up to 9x10x9 elements (5 blocks per side, so that Strassen levels, padding and odd splits occur), both operands transposed or not, one or two symbolic elements, memory for 6 blocks (90 for the multi-level algorithm); programs of 3 operations on two 3x3 or 3x4 matrices; vectors and outer products up to 5x4; 3 iterator steps; element type of 1 KiB, 2x2 blocks; BLAS not linked; operations while an iterator of the same matrix holds a block are outside"),
"C26": ("contents of each block and is_initialized after each operation",
    "programs of 3 (thorough 4) operations (read, write, overwrite, two blocks at once, nested, deinitialize, extract and initialize, time step) on 3–4 blocks with memory for 2–3, also with blocks kept acquired across operations and (lfd) operations beyond the prediction, after which all blocks are read before and after a flush; prefetching also with one preemption and race detection for programs of 2 operations"),
"C27": ("each request completes once, handler once, waiters return",
    "programs of 4 requests on several files and queue types, up to 3 threads, shutdown at any point, one or two preemptions"),
"C28": ("cancel true ⇒ not served; false ⇒ served once",
    "one or two preemptions, three requests"),
"C30": ("fault ledger: who waits gets the exception",
    "two operations, up to two faults out of short, EINTR, EIO, ENOSPC"),
"C33": ("as C27 with an AIO model of the kernel",
    "two requests, short and failing completions, all orders of completion, submissions refused with EAGAIN"),
"C40": ("field by field expectation computed from the grammar",
    "one line: all fields without options, all single options with a symbolic digit, all pairs of 29 option spellings on 3 (thorough 5) implementations, fresh and reused objects; files of 2–3 lines of 6 kinds; the places where a configuration file is looked for (STXXLCFG, ./.stxxl, $HOME, default disk, each present or absent, host-specific names), configurations built by the program, from several sources"),
"C41": ("no lost wake-up, no early return",
    "two to three threads, two preemptions, spurious wake-ups"),
"C22": ("ledger of live extents",
    "programs of 4 allocations/releases with device of 0 or 4 blocks, with and without growth and device failures; three symbolic regions freed in any order; symbolic sizes"),
"C23": ("ledger per device, strategy semantics, disk named by the strategy",
    "programs of 3 operations for six strategies on 1–3 disks; symbolic index for the cycle property; offsets 0–7; all schedules with one preemption of three concurrent pairs"),
"C29": ("byte-array oracle",
    "programs of 3 operations for 8 file configurations; concurrent disjoint requests with one or two preemptions; write-ahead buffers (wbtl) with a backend of any speed, 7–9 writes"),
"C24": ("last written contents per block id",
    "programs of 2–4 operations on 2–3 blocks; one preemption for length 2"),
"C25": ("sequence oracle; schedule invariants",
    "up to five blocks, all orders"),
"C18": ("element-wise oracle",
    "all ranges within 9 elements, some in 19; all state of the page cache"),
"C19": ("element-wise oracle",
    "all ranges within 13 elements, selected in 21"),
"C20": ("permutation by tags, border elements, leak of blocks",
    "up to 44 elements; generator values unconstrained for the first calls"),
"C21": ("order, stability, permutation, iterator positions; rank oracle; minimum oracle",
    "up to five sequences with 3–6 elements in total (all length splits), symbolic keys; winner trees of up to four players, three operations"),
"C45": ("permutation and position bound",
    "5–7 blocks on 1–3 disks with 1–7 buffers, symbolic disk numbers (thorough: 10 blocks)"),
"C47": ("sequential result, data races",
    "two or three threads, up to 5 elements symbolic, all schedules with one preemption for the small cases"),
"C34": ("counter and interval model with concrete clock steps",
    "4 (thorough 5) events with symbolic 32 bit sizes; 2–3 threads with 1–2 preemptions and race detection; 2–3 requests per file implementation with cancellation"),
"C35": ("64 bit arithmetic", "all values; eight groups of operations on both types"),
"C36": ("list model; cursor within the buffer", "two varints of any value; readers over all buffers of 0, 1, 3 and 6 bytes, two reads; programs of 3 writes"),
"C37": ("table of who refers to what", "programs of 3 operations on three pointers; two threads, two preemptions"),
"C38": ("reference parser (options and positional parameters of every type but double); text comparison for usage, results and verbose output",
    "command lines of up to 2 (thorough 3) of 19 kinds of tokens with symbolic digits, 4 sets of parameters; descriptions of 6 characters, names of 4–80 characters; instruction limit per path decides termination"),
"C39": ("reference parser", "numbers of 1–3 digits with every unit and default unit, all texts of up to four characters"),
"C42": ("definitions of the functions", "all 64/32 bit arguments; ranges of up to five elements"),
"C43": ("address arithmetic, contents, live memory", "three allocations of six sizes and three sizes of meta information, alignments 64, 512, 4096"),
"C44": ("vector, list and priority models", "programs of 3 (swap_vector) and 4 (queues) operations"),
}
