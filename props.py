# The properties; gen.py writes them to properties.jsonl.
PROPS = []
def prop(id, title, statement, over, forall, tests, files, mech, see, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, tests=tests, files=files, mech=mech, see=see, na=na))
I = "include/stxxl/bits/"
prop("C01", "External vector: every element reads back as last written",
  "Whatever sequence of element writes, reads, iterator accesses, flushes, appends, removals and resizes a program performs, reading position i of an external vector yields the value last stored there, size() is the number of elements the operations imply, and paging never mixes up, loses or resurrects elements. This holds for every page size, number of cached pages and replacement strategy.",
  ["inputs", "histories", "configurations"], "all element values and all operation sequences up to the stated length, over page sizes, cache sizes and pagers",
  "test_vector fixes one pattern of sequential fills and one random walk; the eviction, dirty-page and uninitialised-page cases depend on the order of accesses relative to page boundaries.",
  [I + "containers/vector.h", I + "containers/pager.h"], [("page table and dirty flags", "vector::const_element, element, read_page, write_page"), ("pager", "lru_pager, random_pager")], ["operator[], at, front, back, size, const and mutable iterators"])
prop("C02", "A vector bound to a file keeps the file equal to its contents",
  "A vector constructed on a file treats the file as an array of its elements: opening an existing file yields the stored elements with the size given or, without a size, the size the file has; and after the vector is destroyed the file contains exactly size() elements, each as last written, whatever sequence of writes, appends, resizes, flushes, closes and reopens happened. External algorithms applied to the vector or to any range of it (sort, ksort, stable_ksort, random_shuffle) leave their result in the file too, and elements outside the range unchanged.",
  ["inputs", "histories", "configurations"], "all element values, all operation programs up to the stated length, all three file implementations, ranges at all kinds of block offsets",
  "test_export, test_vector_resize and test_sort write a file once in order; partly filled last blocks, evicted pages, reopening and sorting a range that starts inside a block of a file are not sampled.",
  [I + "containers/vector.h", I + "mng/bid.h", I + "algo/sort.h", I + "algo/ksort.h"], [("file mode of the vector", "vector(file*, size), ~vector, size_from_file_length, resize"), ("result blocks of external sorting stay in the file", "sort_blocks, ksort_blocks")], ["vector::get_file, file contents after destruction"])
prop("C05", "Stacks are LIFO across memory/disk block boundaries",
  "For every interleaving of pushes and pops, every stack variant (normal, grow-shrink, grow-shrink with pools, migrating) returns elements in last-in first-out order with unchanged contents, reports the exact size, and gives back all external blocks when destroyed.",
  ["inputs", "histories", "configurations"], "all element values and operation sequences up to the stated length, over all variants, block and pool sizes",
  "test_stack pushes and pops long monotone runs; oscillation around a block border, where blocks are spilled and prefetched, is hit at one alignment only.",
  [I + "containers/stack.h"], [("cache halves", "normal_stack::push/pop"), ("write-behind and prefetch", "grow_shrink_stack, grow_shrink_stack2"), ("migration", "migrating_stack")], ["top, size, empty"])
prop("C06", "External queue is FIFO for every push/pop interleaving",
  "For every interleaving of push, pop and in-place change of front and back, the external queue delivers elements in first-in first-out order with unchanged contents, front(), back() and size() are exact, and all its blocks are released. This holds for all pool sizes and prefetch settings, also when queues share pools or are swapped.",
  ["inputs", "histories", "configurations"], "all element values and operation sequences up to the stated length, over pool sizes and prefetch aggressiveness",
  "test_queue compares one long random run with the default pools; alternation near a block border with tiny pools is not reached.",
  [I + "containers/queue.h", I + "mng/read_write_pool.h"], [("front/back block hand-over", "queue::push, queue::pop")], ["front, back, size, pop"])
prop("C07", "External deque behaves as a double-ended sequence",
  "For every sequence of pushes and pops at both ends, element updates and iterator walks, the external deque holds exactly the expected elements in order, including when its circular buffer wraps around or grows; iterators move by any distance and order like positions, deques compare like sequences, and swap exchanges the contents.",
  ["inputs", "histories"], "all element values and operation sequences up to the stated length",
  "test_deque does one random run that rarely wraps the circular buffer around before it doubles.",
  [I + "containers/deque.h"], [("circular buffer and doubling", "deque::double_array, push_front, push_back")], ["operator[], front, back, begin..end, size"])
prop("C08", "External sequence: ends and streams agree with contents",
  "For every sequence of pushes and pops at both ends, the external sequence holds exactly the expected elements; its forward and reverse streams deliver all of them once, in order and in reverse order, without changing the sequence.",
  ["inputs", "histories", "configurations"], "all element values and operation sequences up to the stated length, over pool sizes",
  "test_sequence does one random run with default pools; the cases where front and back share a block are rare in it.",
  [I + "containers/sequence.h"], [("block deque with pools", "sequence::push_front/push_back/pop_front/pop_back, stream, reverse_stream")], ["front, back, size, stream, reverse_stream"])
prop("C09", "Priority queue returns every element once, smallest first",
  "For every interleaving of push and pop with arbitrary (also equal) keys, top() of the external priority queue is a smallest contained element, every pushed element is returned exactly once with its contents unchanged, and size() is exact. This holds through all levels: insertion heap, delete buffer, group buffers, internal and external mergers.",
  ["inputs", "histories", "configurations"], "all key values on the symbolic positions and operation counts up to the stated bounds, over merger and buffer configurations",
  "test_priority_queue pushes two fixed key patterns and drains the queue; merges triggered after partial drains, with ties, are not sampled.",
  [I + "containers/priority_queue.h", I + "containers/pq_helpers.h", I + "containers/pq_mergers.h", I + "containers/pq_losertree.h", I + "containers/pq_ext_merger.h", I + "containers/pq_int_merger.h"],
  [("refill of delete and group buffers", "priority_queue::refill_delete_buffer, refill_group_buffer"), ("mergers", "loser_tree, ext_merger")], ["top, pop, size, empty"])
prop("C10", "Parallel priority queue returns every element once, smallest first",
  "For every sequence of push, bulk_push sessions, bulk_pop, bulk_pop_limit and limit sessions, pop and top, with any number of insertion heaps and threads and arbitrary (also equal) keys, the parallel priority queue delivers every inserted element exactly once, a smallest remaining one first, bulk operations deliver only what they were asked for, and size() is exact between sessions. This holds while data moves through insertion heaps, internal arrays, external arrays, merges and the extract buffer.",
  ["inputs", "histories", "configurations", "schedules"], "all key values on the symbolic positions and operation programs up to the stated length, over numbers of heaps, amounts of memory, preloads and threads",
  "test_ppq pushes distinct or pseudo-random keys with a comfortable amount of memory and one order of operations; ties over block borders, emptied internal arrays and limit sessions with spilling heaps are not reached.",
  [I + "containers/parallel_priority_queue.h", I + "parallel.h", I + "common/winner_tree.h"],
  [("flushing heaps into internal and external arrays", "parallel_priority_queue::flush_insertion_heap(s), flush_internal_arrays"), ("minima tree", "minima_tree"), ("bulk extraction and limit sessions", "bulk_pop, bulk_pop_limit, limit_begin/limit_push/limit_pop"), ("merging of external arrays", "check_external_level, merge_external_arrays")], ["top, pop, bulk_pop output", "size"])
prop("C11", "External map behaves as a sorted map for every operation history",
  "For every sequence of insert, insert with hint, operator[], erase by key and by iterator, find, lower_bound, upper_bound, equal_range, clear, swap, bulk construction and iteration, the external map holds exactly the expected keys in order with the mapped values last written; iterators stay attached to their element; size() is exact, and dropping the map releases its blocks. This holds for every node, leaf and cache size.",
  ["inputs", "histories", "configurations"], "all key values of the operations and operation sequences up to the stated length, over bulk-built and grown trees, node cache sizes and prefetching",
  "test_map compares one random history against std::map; splits, fusions and balances on the borders of tiny caches and with tied positions are not reached.",
  [I + "containers/btree/btree.h", I + "containers/btree/leaf.h", I + "containers/btree/node.h", I + "containers/btree/node_cache.h", I + "containers/btree/iterator.h", I + "containers/btree/iterator_map.h", I + "containers/map.h"],
  [("splits, fusions, balances", "normal_leaf, normal_node"), ("root growth and shrinking", "btree::insert_into_root, fuse_or_balance"), ("node cache with pinning", "node_cache"), ("iterator fix-up", "iterator_map")], ["find, operator[], begin..end, size, lower_bound, upper_bound"])
prop("C12", "External unordered_map behaves as a map for every operation history",
  "For every sequence of insert, insert_oblivious, operator[], erase, erase_oblivious, find, count, bulk insertion, clear, swap and rehash-triggering growth, the external hash map holds exactly the expected keys with their last written values, size() is exact and iteration delivers every element once. This holds whatever the hash function does (also when many keys collide) and for every buffer size.",
  ["inputs", "histories", "configurations"], "all key values of the operations and operation sequences up to the stated length, over hash functions with and without collisions, buffer and sub-block sizes",
  "test_hash_map runs one random history with a good hash function; deletions recorded only in the buffer, colliding hash values and iteration during buffered changes are combined in few ways.",
  [I + "containers/hash_map/hash_map.h", I + "containers/hash_map/block_cache.h", I + "containers/hash_map/iterator.h", I + "containers/hash_map/iterator_map.h", I + "containers/hash_map/util.h"],
  [("internal buffer with deletion marks", "hash_map::insert, erase, _find_key_internal/_external"), ("rehash merges buffer and disk", "hash_map::_rebuild_buckets, hashed_values_stream"), ("sub-block cache", "block_cache")], ["find, operator[], begin..end, size"])
SORTED = "all key values on the symbolic positions, over range borders, amounts of memory, disks and key patterns"
prop("C13", "Matrix arithmetic in external memory gives the mathematical results",
  "Sums, differences, scalar products, matrix products by every multiplication algorithm under every scheduling algorithm, products with vectors, outer products and transposition of stxxl::matrix give exactly the results of the mathematical operation over the element type, leave their operands unchanged, and treat untouched blocks as zeros. This holds for every shape (not only multiples of the block side), transposed operands and every amount of internal memory the algorithm needs. Copies are independent; iterators in both orders visit every element once, give and set the element at their position, and may be copied and assigned between matrices. Nothing stays allocated.",
  ["inputs", "histories", "configurations"], "all values of the symbolic elements and all programs and positions up to the stated bounds, over shapes, transpositions, zero blocks, algorithms and memory sizes",
  "test_matrix multiplies square matrices with trivially structured contents by the default algorithm and compares a few sums; transposed operands, paddings, zero blocks, the other algorithms, shared copies and assignment of iterators are not covered.",
  [I + "containers/matrix.h", I + "containers/matrix_arithmetic.h", I + "containers/matrix_low_level.h", I + "mng/block_scheduler.h"], [("element operations and zero blocks", "matrix_operations::element_op"), ("multiplication", "recursive_multiply_and_add, strassen_winograd_*, feedable_strassen_winograd"), ("iterators", "matrix_iterator, const_matrix_iterator")], ["elements of the matrices, positions of iterators"])
prop("C14", "External sort yields the ordered permutation of the range",
  "stxxl::sort leaves the elements of the given range ordered by the comparator, as a permutation of what was there (no element lost, duplicated or altered, also with equal keys), leaves everything outside the range untouched even inside a partially covered first or last block, and does not leak blocks. This holds for every range, key distribution, and sufficient amount of memory.",
  ["inputs", "configurations"], SORTED, "test_sort sorts random data in a few sizes; multi-pass merging with tiny memory, ties and ranges that start or end inside a block are sampled in one way each.",
  [I + "algo/sort.h", I + "algo/sort_helper.h", I + "algo/losertree.h", I + "algo/inmemsort.h", I + "algo/run_cursor.h", I + "algo/adaptor.h"], [("run formation", "sort_local::create_runs"), ("merging", "sort_local::merge_runs"), ("partial blocks at the ends", "stxxl::sort")], ["contents of the vector"])
prop("C15", "External integer-key sort yields the ordered permutation of the range",
  "stxxl::ksort leaves the elements of the given range in ascending key order as a permutation of what was there, and everything outside the range untouched, for every range, key distribution and sufficient amount of memory.",
  ["inputs", "configurations"], SORTED, "test_ksort uses uniformly random keys over whole vectors; classification borders and clustered keys are not sampled.",
  [I + "algo/ksort.h", I + "algo/intksort.h", I + "algo/losertree.h", I + "algo/run_cursor.h"], [("two-level radix classification", "ksort_local::create_runs, intksort.h"), ("merging", "ksort_local::merge_runs")], ["contents of the vector"])
prop("C16", "Stable integer-key sort orders the range and keeps ties in order",
  "stxxl::stable_ksort leaves the elements of the given range in ascending key order, equal keys in their original order, as a permutation of what was there, and everything outside the range untouched, for every key distribution whose buckets fit in memory (larger buckets are rejected).",
  ["inputs", "configurations"], SORTED, "test_stable_ksort only checks that the keys of uniformly random elements ascend; stability, clustered keys, empty buckets and partial ranges are not covered.",
  [I + "algo/stable_ksort.h", I + "algo/intksort.h", I + "mng/buf_istream.h", I + "mng/buf_writer.h", I + "mng/buf_ostream.h"], [("distribution into buckets", "stable_ksort_local::distribute"), ("bucket sorting", "stable_ksort, l1sort")], ["contents of the vector"])
prop("C17", "Stream sorting and the sorter deliver every input once, in order",
  "The streaming sorters (sort, runs_creator for streams, push and pre-sorted sequences, runs_merger) and the sorter container deliver each pushed element exactly once and unchanged in comparator order, report exact sizes, can be rewound, reused and merged again, and release their blocks. This holds for every input length and memory size, including inputs that fit in memory and recursive merging.",
  ["inputs", "histories", "configurations"], "all key values on the symbolic positions, over input lengths, amounts of memory and disks", "test_sorter, test_stream and test_stream1 use a few sizes with random keys; lengths at block and run borders and merging with the minimum of memory are not sampled.",
  ["include/stxxl/bits/stream/sort_stream.h", "include/stxxl/bits/stream/sorted_runs.h", "include/stxxl/bits/containers/sorter.h"], [("run formation and small-input path", "basic_runs_creator, runs_creator<use_push>, runs_creator<from_sorted_sequences>"), ("recursive merging", "basic_runs_merger::merge_recursively")], ["operator*, operator++, empty, size, rewind"])
IOF = ["lib/io/request_with_state.cpp", "lib/io/request_with_waiters.cpp", "lib/io/request.cpp", "lib/io/serving_request.cpp", "lib/io/request_queue_impl_qwqr.cpp", "lib/io/request_queue_impl_1q.cpp", "lib/io/request_queue_impl_worker.cpp", I + "io/request_operations.h", I + "io/disk_queues.h"]
prop("C26", "Swappable blocks keep their contents under every scheduling algorithm",
  "A block acquired from a block_scheduler has the contents it had when it was last released dirty (or that of the external block it was initialized with), whatever blocks were evicted, written back, read ahead, deinitialized or moved in between, and blocks in use never share memory. This holds for the online LRU algorithm and, after a simulation run recorded the accesses, for the offline longest-forward-distance and the prefetching algorithm, also when algorithms are switched; is_initialized is exact in simulation and execution, extracted external blocks hold the contents, and all memory and disk blocks are given back.",
  ["inputs", "histories", "schedules"], "all block contents and access programs up to the stated length for the three algorithms, and thread schedules of the prefetching writes and reads within the preemption bound",
  "test_block_scheduler runs one fixed sequence per algorithm and leaves out the prefetching algorithm; which block is evicted, still being written or already read ahead depends on the order of accesses and on the I/O threads.",
  [I + "mng/block_scheduler.h", I + "common/addressable_queues.h"], [("state of a block", "swappable_block"), ("algorithms", "block_scheduler_algorithm_online_lru, _simulation, _offline_lfd, _offline_lru_prefetching")], ["acquire, release, extract_external_block, is_initialized"])
prop("C27", "Every asynchronous request completes exactly once",
  "For every interleaving of clients, disk worker threads and completion handlers, each submitted request is performed exactly once, its completion handler runs exactly once, and all threads waiting for it (wait, wait_any, wait_all, poll) return, and only after the transfer has taken effect. Reads deliver the contents of the device and writes reach it, also for requests pending when a queue is shut down, without deadlock, lost wake-up or unsynchronised access.",
  ["schedules", "inputs", "histories"], "all schedules with the stated number of preemptions at synchronisation operations, all request programs up to the stated length, and all data",
  "test_io and friends run one uncontrolled schedule; the races between completion, waiting and shutdown are a few instructions wide.", IOF,
  [("state change and notification", "request_with_state::completed, request_with_waiters::notify_waiters"), ("worker", "request_queue_impl_qwqr::worker, request_queue_impl_1q::worker"), ("waiting for several requests", "wait_any, wait_all, poll_any")], ["request::wait, poll", "device contents", "completion handler calls"])
prop("C28", "Cancelling a request either prevents it or has no effect",
  "For every interleaving, cancelling a request succeeds at most once; if it reports success the transfer does not happen, the completion handler does not run and waiting for the request returns; if it reports failure the request is performed as if it had not been cancelled. Cancelling never deadlocks or disturbs other requests or the file.",
  ["schedules", "histories"], "all schedules with the stated number of preemptions, cancelling from one or several threads while the request is pending, in service or done",
  "test_cancel cancels requests in one uncontrolled schedule.", IOF, [("removal from the queue", "request_queue_impl_qwqr::cancel_request, request_queue_impl_1q::cancel_request"), ("completion of cancelled requests", "request_with_state::cancel")], ["return value of cancel", "device contents", "completion handler calls"])
prop("C30", "I/O errors are reported to those who wait, never swallowed",
  "If a transfer fails or is cut short by the operating system, waiting for or polling that request throws an I/O error, every time and in every schedule, and the other requests are unaffected. A request that reports no error has transferred all its bytes.",
  ["schedules", "fault_sequences"], "all schedules with the stated number of preemptions, and every placement of the stated number of failed, interrupted or short system calls",
  "The tests never see a failing device; only an out-of-space case is provoked by hand.", IOF + ["lib/io/ufs_file_base.cpp", "lib/io/syscall_file.cpp"], [("error hand-over", "serving_request::serve, request::error_occured, check_errors"), ("short transfers", "syscall_file::serve")], ["request::wait, poll"])
prop("C33", "Linux AIO requests complete exactly once with the right data",
  "For every interleaving of clients, the posting and waiting threads and the kernel's completions, each request on a linuxaio file is transferred and completed exactly once with the right data at the right offset, cancelled requests are not performed, failed or incomplete transfers are reported as I/O errors, and destruction of the queue performs what is pending without deadlock.",
  ["schedules", "fault_sequences", "histories"], "all schedules with the stated number of preemptions, completion orders, bounded numbers of kernel failures, queue lengths",
  "test_linuxaio reads and writes a file in one schedule, with a kernel that neither rejects, shortens nor reorders requests.", ["lib/io/linuxaio_queue.cpp", "lib/io/linuxaio_request.cpp", "lib/io/linuxaio_file.cpp"],
  [("posting and completion", "linuxaio_queue::post_requests, wait_requests, handle_events"), ("cancelling", "linuxaio_queue::cancel_request"), ("transfer", "linuxaio_request::fill_control_block, post, completed")], ["request::wait", "device contents"])
prop("C40", "Disk configuration lines mean what they say",
  "Every line of a disk configuration is either rejected with an exception or yields exactly the path, size, file implementation and options written there (later options override earlier ones), independent of what the object held before; regular disks are numbered before flash disks, each in the order given, and automatic device ids never repeat. Without an explicit configuration the documented places are searched in their order and the first existing file decides.",
  ["inputs", "configurations"], "all combinations of the line's fields, sizes with every unit and digit, and up to two options out of all spellings on every file implementation; files of up to 3 lines",
  "The tests parse about ten fixed lines.",
  ["lib/mng/config.cpp", I + "mng/config.h"], [("line", "disk_config::parse_line"), ("options", "disk_config::parse_fileio"), ("file", "config::load_config_file, add_disk, get_next_device_id")], ["disk_config fields", "config::disk, regular_disk_range, flash_range"])
prop("C41", "Semaphores, switches and state variables never lose a wake-up",
  "For every schedule, a semaphore lets through exactly as many threads as its value and the releases allow; threads waiting for a switch or a state variable return if and only if the awaited value was set, however many threads wait and even if condition variables wake up spuriously.",
  ["schedules"], "all schedules of the stated numbers of threads with the stated number of preemptions and spurious wake-ups, whichever waiter the system wakes",
  "The tests use these primitives only indirectly, in one schedule, and condition variables practically never wake up spuriously.", [I + "common/semaphore.h", I + "common/onoff_switch.h", I + "common/state.h", I + "common/condition_variable.h", I + "common/mutex.h"],
  [("guarded waiting loops", "semaphore, onoff_switch::wait_for_on, state::wait_for")], ["which threads return"])
prop("C22", "The disk allocator's regions never overlap, leak or get lost",
  "Regions handed out by the disk allocator lie within the device and never overlap, freed space is merged with its neighbours and reused before the device grows, and free, used and total bytes are exact after every operation. Freeing space that is free already is reported and changes nothing. A device that must not grow is never enlarged: allocation fails then, and a failed allocation leaves nothing allocated.",
  ["histories", "inputs", "fault_sequences"], "all sequences of allocations and deallocations up to the stated length, arbitrary region borders in them, with and without autogrow and with failing devices",
  "The tests allocate blocks of one size and free all of them; fragmentation, exhaustion and invalid deallocations are sampled by one scenario.",
  [I + "mng/disk_allocator.h", "lib/mng/disk_allocator.cpp"], [("free list", "disk_allocator::add_free_region, new_blocks, grow_file")], ["offsets of new_blocks", "get_free_bytes, get_used_bytes, get_total_bytes"])
prop("C23", "Blocks go to the right disks and are owned by one user at a time",
  "The block manager hands out valid blocks that no other live block overlaps, on exactly the disks the allocation strategy names, keeps the contents of a block until it is freed, and counts current, total and maximum allocation exactly, also when used by several threads. Every strategy stays within its range of disks; all but the fully random one use every disk of the range once per cycle; disk and flash ranges contain exactly the devices of that kind. A failed allocation leaves nothing allocated.",
  ["histories", "schedules", "configurations"], "all sequences of allocations and deallocations up to the stated length over strategies and numbers of disks, all positions in a strategy's sequence, and all schedules with the stated number of preemptions",
  "The tests use one or two disks in one thread; distribution over disks, strategies, partial failure and concurrent use are not checked.",
  [I + "mng/block_manager.h", "lib/mng/block_manager.cpp", I + "mng/block_alloc.h", I + "mng/block_alloc_interleaved.h", I + "mng/config.h", "lib/mng/config.cpp"],
  [("distribution", "block_manager::new_blocks_int"), ("strategies", "striping, FR, SR, RC, RC_disk, RC_flash, single_disk, interleaved_*")], ["new_blocks, delete_block", "get_current_allocation, get_total_bytes, get_free_bytes"])
prop("C29", "Every file implementation stores data exactly where it was written",
  "For every sequence of writes, reads, resizes, discards and size queries, each file implementation (syscall, mmap, memory, file-per-block, write-back behind, simulated disk, linuxaio) returns on reads the bytes last written at that offset, changes no other bytes, and reports the right size; data beyond the end is not invented where the file says it is an error. This holds as well for concurrent requests to disjoint regions.",
  ["histories", "inputs", "schedules", "configurations"], "all data, all sequences of operations up to the stated length on several offsets, and all schedules of two requests with the stated number of preemptions",
  "test_io_sizes and test_io write and read one pattern sequentially with few file types; overlapping rewrites, holes, shrinking and concurrent requests are not covered.",
  ["lib/io/ufs_file_base.cpp", "lib/io/syscall_file.cpp", "lib/io/mmap_file.cpp", "lib/io/mem_file.cpp", "lib/io/fileperblock_file.cpp", "lib/io/wbtl_file.cpp", "lib/io/simdisk_file.cpp", "lib/io/create_file.cpp"],
  [("transfer loops", "syscall_file::serve, mmap_file::serve, mem_file::serve, fileperblock_file::serve"), ("translation and write buffer", "wbtl_file::swrite, sread, get_next_write_block")], ["aread, awrite", "size, set_size"])
prop("C24", "Block pools: a read delivers what was last written, and no buffer gets lost",
  "For every sequence of writes, reads, hints, invalidations, resizes and swaps on a read-write pool, or on a write pool and a prefetch pool used on their own, a read of a block delivers the contents last written to that block whether they are still in the write pool, being prefetched, prefetched before the write or on disk; a hint is taken exactly if there is a free buffer; the number of buffers changes only by resizing, and after the pools are destroyed every write has reached the disk.",
  ["histories", "schedules", "inputs"], "all operation sequences up to the stated length on two or three blocks, all element values, several pool sizes, and all schedules with one preemption for shorter sequences",
  "test_read_write_pool writes and reads two blocks in one order; the overlap of a pending write, a hint and a second write is a matter of order and timing.",
  [I + "mng/read_write_pool.h", I + "mng/write_pool.h", I + "mng/prefetch_pool.h"], [("consistency between the pools", "read_write_pool::write, hint, read"), ("pending writes", "write_pool::steal, steal_request, check_all_busy"), ("hints", "prefetch_pool::hint, read, invalidate")], ["read, write, hint, steal, add, resize_*, size_*"])
prop("C25", "Buffered block streams, writers and prefetchers preserve contents and order",
  "Elements written through a buffered output stream come back from the forward and the reverse buffered input stream in exactly (reverse) order, for every number of elements, buffers and allocation strategy; blocks handed to a buffered writer in any order end up at the place they were written to, at the latest after flush or destruction; a block prefetcher delivers the blocks in consumption order for every admissible prefetch order, and runs the completion handler once per block; every computed prefetch schedule is a permutation that never needs more buffers than there are.",
  ["inputs", "histories", "schedules", "configurations"], "all element values, all write orders and admissible prefetch orders of up to four blocks, all disk assignments of up to six blocks, and all schedules with one preemption for small cases",
  "test_buf_streams and test_prefetch_pool use one size and order; the schedule is only checked for the orders random allocation happens to give.",
  [I + "mng/buf_istream.h", I + "mng/buf_istream_reverse.h", I + "mng/buf_ostream.h", I + "mng/buf_writer.h", I + "mng/block_prefetcher.h", "lib/algo/async_schedule.cpp"], [("write buffers", "buffered_writer::write, flush"), ("prefetching", "block_prefetcher::pull_block, block_consumed"), ("schedule", "compute_prefetch_schedule, simulate_async_write")], ["buf_istream, buf_istream_reverse, buf_ostream, buffered_writer, block_prefetcher"])
prop("C18", "Stream sources, operators and materialize compute the element-wise results",
  "A stream created from a range of an external vector delivers exactly the elements of the range in order, whatever part of them was only in the page cache; transform, make_tuple, choose and unique combine exactly corresponding elements, end with the shortest input and never touch an exhausted input; materialize stores the elements in order from the given position, stops at the end of the stream or the range, returns the end of what it wrote, and leaves all other elements of the vector unchanged.",
  ["inputs", "histories", "configurations"], "all element values, all ranges of the stated lengths relative to the block boundaries, all input lengths, several states of the page cache",
  "test_stream and test_materialize use fixed ranges and whole vectors; partial blocks at either end and pages that are dirty in the cache matter.",
  [I + "stream/stream.h", I + "stream/choose.h", I + "stream/unique.h"], [("vector sources", "vector_iterator2stream, vector_iterator2stream_sr"), ("sinks", "materialize"), ("operators", "transform, make_tuple, choose, unique")], ["streamify, materialize", "stream operators"])
prop("C19", "Scan algorithms touch exactly their range",
  "for_each visits every element of the range once and in order; for_each_m applies the functor to each element once and stores the results; generate stores the results of exactly one generator call per element in order; find returns the first match or the end. Elements outside the range keep their values, and later operations on the vector see all the changes, whatever was in the page cache before.",
  ["inputs", "histories", "configurations"], "all element values, functor parameters and search values, all ranges of the stated vectors, several states of the page cache and numbers of buffers",
  "test_scan runs over complete vectors; the copied borders of partial blocks and cached pages are not covered.",
  [I + "algo/scan.h", I + "containers/vector.h"], [("block-wise loops and borders", "for_each, for_each_m, generate, find"), ("coherence with the page cache", "vector_iterator::flush, block_externally_updated")], ["for_each, for_each_m, generate, find"])
prop("C20", "random_shuffle permutes exactly the given range",
  "After random_shuffle the range holds a permutation of its former elements, everything outside the range is unchanged and all temporary blocks are released, for every generator, memory size and position of the range, including the case of buckets that do not fit into memory.",
  ["inputs", "configurations", "histories"], "all element values, the first calls of the generator unconstrained, ranges and sizes as stated, including the recursive case",
  "test_random_shuffle shuffles one large vector with one generator and checks the sum.",
  [I + "algo/random_shuffle.h"], [("distribution and recursion", "random_shuffle")], ["random_shuffle"])
prop("C21", "Merging, selection and tournament trees order all elements, stably if asked",
  "For every set of sorted sequences, sequential multiway merging delivers the requested number of smallest elements in order, a permutation of what it took, stable if the stable variant is used, advances the sequence iterators by exactly what it took, and reads no element outside the sequences. multiseq_partition and multiseq_selection split at exactly the requested rank, ties going to the sequences with smaller numbers; a winner tree always names the smallest of its current players through activation, deactivation, replaying and growing.",
  ["inputs", "histories", "configurations"], "all key values of up to five sequences with all lengths within the stated totals, all four merge algorithms, with and without sentinels, all ranks, and all sequences of operations on winner trees of up to four players",
  "test_parallel and the multiway-merge tests draw random sequences of distinct-looking keys; ties across sequences, empty sequences and partial lengths are rare there.",
  [I + "parallel/multiway_merge.h", I + "parallel/merge.h", I + "parallel/losertree.h", I + "parallel/multiseq_selection.h", I + "parallel/tags.h", I + "common/winner_tree.h"], [("merging", "sequential_multiway_merge, multiway_merge_3_variant, multiway_merge_4_variant, multiway_merge_loser_tree"), ("selection", "multiseq_partition, multiseq_selection"), ("tournament tree", "winner_tree::play_initial, notify_change, activate_player, double_num_slots")], ["multiway_merge, multiway_merge_stable", "multiseq_partition", "winner_tree"])
prop("C45", "Prefetch schedules fetch every block before it is needed",
  "For every assignment of blocks to disks, number of disks and number of prefetch buffers m, compute_prefetch_schedule yields a permutation of the blocks in which every block i appears before position m + i, so a consumer that reads the blocks in order with m buffers never waits for a block that is not yet requested.",
  ["inputs", "configurations"], "all disk assignments (including blocks without a disk) of sequences up to the stated length, over numbers of disks and buffers",
  "test_asch checks random assignments only for being a permutation.",
  ["lib/algo/async_schedule.cpp", I + "algo/async_schedule.h"], [("simulation of the reverse writes", "simulate_async_write"), ("order", "compute_prefetch_schedule")], ["out_first"])
prop("C47", "Parallel merging and sorting give the sequential result with any team of threads",
  "Parallel multiway merge and parallel multiway mergesort, run by teams of several threads, with exact or sampling splitters, complete or partial output length and any key distribution, write exactly the sequence the sequential algorithm would write (elements that compare equal may swap in the unstable variants), advance the input iterators accordingly, never touch memory outside the input and output ranges, and contain no data race between the threads of the team.",
  ["inputs", "schedules", "configurations"], "all key values, sequence lengths as stated, two or three threads, both splitting strategies, and for the stated cases all schedules with one preemption",
  "test_parallel runs with whatever number of threads the machine has on random data; partial output and equal keys at the splitters are not covered.",
  [I + "parallel/multiway_merge.h", I + "parallel/multiway_mergesort.h", I + "parallel/multiseq_selection.h"], [("splitting", "parallel_multiway_merge, multiway_merge_exact_splitting, multiway_merge_sampling_splitting"), ("mergesort", "parallel_sort_mwms, parallel_sort_mwms_pu")], ["parallel_multiway_merge", "parallel_sort_mwms"])
prop("C34", "I/O statistics count exactly what was transferred",
  "For every history of requests on any number of threads, the I/O statistics count every served read and write once with its size, cached accesses separately, cancelled requests not at all; request, parallel and waiting times are the sums and unions of the intervals in which requests and waits were open; differences of two snapshots describe exactly what happened in between.",
  ["inputs", "histories", "schedules"], "all sizes; all histories of up to the stated number of events; all interleavings of two or three threads with the stated number of preemptions; requests on five file implementations",
  "The tests print statistics without checking them.",
  ["lib/io/iostats.cpp", I + "io/iostats.h", "lib/io/linuxaio_request.cpp", "lib/io/syscall_file.cpp", "lib/io/mem_file.cpp", "lib/io/mmap_file.cpp"], [("counters under locks", "stats::read_started, write_finished, wait_started"), ("snapshots", "stats_data"), ("cancellation", "linuxaio_request::completed")], ["stats and stats_data getters"])
prop("C35", "40 and 48 bit integers behave like integers modulo 2^40 and 2^48",
  "For all values, uint40 and uint48 keep what they are given, compare, increment, decrement and add exactly modulo their range, have the right extremal values and digits, occupy exactly five and six bytes and do not disturb their neighbours in arrays.",
  ["inputs"], "all values of both types and of the 32 bit integers they are constructed from",
  "test_uint_types checks a dozen values around the 32 bit border.", [I + "common/uint_types.h"], [("carry between halves", "uint_pair::operator ++, --, +=, <")], ["u64(), comparisons, numeric_limits"])
prop("C36", "Binary buffers give back what was put in; readers never leave the buffer",
  "Items, strings and variable length integers put into a binary buffer come back in order and equal, in the shortest encoding and with the stated padding; readers over arbitrary bytes either deliver data lying within the buffer or report an underflow or overflow, and never read outside or move beyond the end.",
  ["inputs", "histories"], "all 32 and 64 bit values, all buffers of the stated lengths with arbitrary content, all programs of writes and reads up to the stated length",
  "test_binary_buffer writes one fixed sequence and reads it back; corrupt input is never read.", [I + "common/binary_buffer.h"], [("varint coding", "binary_buffer::put_varint, binary_reader::get_varint"), ("bounds", "binary_reader::check_available, binary_buffer::dynalloc")], ["get, get_string, get_varint", "exceptions"])
prop("C37", "Counted objects live exactly as long as someone refers to them",
  "Through every sequence of assignments, copies, swaps and resets of counting pointers, an object exists exactly as long as a pointer to it does, reference counts and unique() are exact, and an atomically counted object shared by several threads is destroyed exactly once, after its last use. Shared pointers kept as raw bytes in external memory keep their object alive until unwrapped.",
  ["histories", "schedules"], "all programs up to the stated length over three pointers, including self-assignment, and all schedules of two threads with the stated number of preemptions",
  "test_counting_ptr runs one sequence in one thread.", [I + "common/counting_ptr.h", I + "common/external_shared_ptr.h"], [("counting", "counting_ptr::inc_reference, dec_reference"), ("atomic counting", "atomic_counted_object")], ["destruction of the object", "get_reference_count, unique"])
prop("C38", "Command line parser stores exactly what was given",
  "For every command line, cmdline_parser accepts it exactly if every option is known, every option that needs an argument has a valid one and the required parameters are present; then each variable holds the value given (the last one, lists collect all), others keep their defaults. On errors and for -h the usage text is printed, with every description complete, whatever names, descriptions and line breaks look like.",
  ["inputs", "configurations"], "all command lines of up to the stated number of tokens of a vocabulary that covers every kind of option and parameter; all digits; all descriptions of up to 6 letters, blanks and line breaks and all widths of names around the line width",
  "test_cmdline runs a handful of command lines.",
  ["lib/common/cmdline.cpp", I + "common/cmdline.h"], [("token loop", "cmdline_parser::process"), ("wrapping", "cmdline_parser::output_wrap, print_usage"), ("values", "argument_*::process")], ["return value of process", "the variables", "usage text"])
prop("C39", "Sizes with units are read exactly, other text is refused",
  "parse_SI_IEC_size accepts exactly a number followed by an optional SI or IEC unit, scales by the right power of 1000 or 1024, applies the default unit only when none is given, and refuses every other text.",
  ["inputs"], "all texts up to the stated length, all digits, all units and all default units",
  "Configuration files and command lines contain whatever users type; the tests try a dozen spellings.", ["lib/common/utils.cpp", I + "common/utils.h"], [("parsing", "parse_SI_IEC_size")], ["return value", "the size"])
prop("C42", "Integer helpers are exact over their whole range",
  "ilog2_floor, ilog2_ceil, round_up_to_power_of_two, rounding up to a multiple and div_ceil are exact for every argument, including zero, powers of two and the largest values; is_heap and is_sorted decide exactly what their names say.",
  ["inputs"], "all 64 and 32 bit arguments (division: all 24 bit numerators and divisors up to 9), ranges of up to five elements",
  "The tests check small arguments; block and buffer sizes derived from these helpers go wrong at powers of two or beyond 32 bit.", [I + "common/utils.h", I + "common/is_heap.h", I + "common/is_sorted.h"], [("rounding", "round_up_to_power_of_two, div_ceil"), ("logarithms", "ilog2_floor, ilog2_ceil")], ["results"])
prop("C43", "Aligned allocation is aligned, disjoint and returns all memory",
  "For every size and size of meta information, aligned_alloc returns memory aligned behind the meta information, of the requested size, overlapping no other allocation; aligned_dealloc returns all of it.",
  ["inputs", "histories"], "sizes around the alignment and zero, with and without meta information, alignments 64, 512 and 4096, with and without shrinking",
  "test_aligned allocates a few sizes; an overlap shows only if neighbouring memory happens to be in use.", [I + "common/aligned_alloc.h"], [("placement", "aligned_alloc")], ["address, contents, live heap memory"])
prop("C44", "Small containers inside the library keep their contents",
  "swap_vector behaves like a vector through every sequence of pushes, erasures, resizes, removals and swaps; simple_vector keeps its elements through resizing and swapping; addressable FIFO and priority queues deliver in insertion order and priority order with updates and removals by handle.",
  ["histories", "inputs"], "all programs of operations up to the stated length, symbolic priorities",
  "test_swap_vector runs one program; priority queue, prefetch and pool code rely on these containers in every state.", [I + "common/swap_vector.h", I + "common/simple_vector.h", I + "common/addressable_queues.h"], [("erasing by swapping", "swap_vector::erase, swap_remove_if"), ("handles", "addressable_fifo_queue, addressable_priority_queue")], ["contents, order"])
