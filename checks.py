# property -> jobs.  A job runs one harness entry for each parameter set in q (quick) or t (thorough).
ASSUME = ["clang 18 lowers the sources faithfully at -O1 with assertions enabled (the configuration the tests use)",
          "system calls, threads and OpenMP behave as the models in rt/ and engine/ state (POSIX semantics, faults and schedules within the stated budgets, sequentially consistent memory plus happens-before race detection)",
          "memory allocation succeeds", "values and histories lie within the stated bounds"]
CHECKS = {}
def check(pid, *jobs, **kw): CHECKS[pid] = dict(jobs=list(jobs), **kw)
def J(h, entry, q=None, t=None, **kw): return dict(h=h, entry=entry, q=q or [[]], t=t, **kw)
P = lambda *a: [list(a)]
X = lambda pre, rng, post=(): [list(pre) + [i] + list(post) for i in rng]
check("C01", J("h_vector", "vec_ops", q=[[k, 3, n, 1, o] for k, n in ((0, 7), (1, 13), (2, 13)) for o in range(11)] ),
      J("h_vector", "vec_resizes", q=[[k, 4, o] for k in (0,1) for o in range(10)]), J("h_vector","vec_index"), J("h_vector","vec_copyswap"), J("h_vector","vec_iter"), J("h_vector","vec_bufrw", q=[[0],[1]]), J("h_vector", "vec_api", q=[[k, 3, 5, o] for k in (0, 1) for o in range(11)]), J("h_vector", "vec_content"), J("h_vector", "vec_export"))

check("C05", J("h_stack", "stack_ext", q=[[k, 4, o] for k in range(6) for o in range(4)]), J("h_stack", "stack_pool", q=[[c, 4, o] for c in range(8) for o in (0, 1, 2)]), J("h_stack", "stack_copyswap"))
check("C06", J("h_queue", "queue_ops", q=[[c, 4, o] for c in range(5) for o in range(4)], t=[[c, 5, o] for c in range(5) for o in range(4)]), J("h_queue", "queue_shared", q=[[2, o] for o in range(4)]))
check("C07", J("h_queue", "deque_ops", q=[[4, o] for o in (0,1,2,3,4,5,14)]), J("h_queue", "deque_iter", q=[[0], [3], [5], [6], [7]]), J("h_queue", "deque_two", q=[[a] for a in (0, 1, 2)]))
check("C08", J("h_queue", "seq_ops", q=[[c, 3, o] for c in range(3) for o in range(12)]), J("h_queue", "seq_two", q=[[0], [1]]), J("h_queue", "seq_minpool"))
check("C09", J("h_pq", "pq_prog", q=[[v, 40, 0, 4, 0, 1] for v in range(3)] + [[v, a, b, c, m] for v in range(3) for a, b, c, m in ((12, 5, 8, 0x21), (26, 6, 6, 0x2000010), (33, 3, 4, 0x80001), (18, 0, 18, 0x8020))]), J("h_pq", "pq_any", q=[[5],[6]]), J("h_pq", "pq_dup", q=[[5, 5, o] for o in range(4)], t=[[6, 5, o] for o in range(4)]))
check("C11", J("h_map", "map_ops", q=[[h, n, 4, 1, o, 1] for h in range(6) for n in (0, 5, 24) for o in range(10)] + [[2, 90, 3, 1, o] for o in (0, 1, 5)] + [[4, 160, 4, 1, 0]] + [[h, n, c, 2, o] for h, n, c in ((0, 4, 4), (2, 6, 3), (4, 8, 3)) for o in (0, 1, 5, 6, 9)]), J("h_map", "map_free"), J("h_map", "map_shrink", q=[[h, 36, d] for h in (0, 3) for d in range(3)] + [[h, 170, d, 3, 3 + (h < 1)] for h in range(3) for d in range(3)]), J("h_map", "map_churn", q=[[0, 60, 7, 11, 4], [2, 80, 13, 9, 3], [1, 50, 1, 49, 3], [4, 90, 89, 7, 3]]), J("h_map", "map_misc", q=[[3], [1]]), J("h_map", "map_two", q=[[1, 1], [0, 1, 1], [2, 0, 1], [2, 2, 1], [1, 3, 1], [3, 2, 1]]))
check("C12", J("h_umap", "umap_ops", q=[[n, b, sh, 1, o, o & 1, 1] for n, b, sh in ((0, 4, 1), (6, 4, 0), (9, 3, 3), (14, 20, 8), (12, 3, 6)) for o in range(13)] + [[n, b, sh, 2, o, o & 1, 1, 0, 0, 1] for n, b, sh in ((6, 3, 8), (8, 4, 10)) for o in (0, 1, 2, 4, 5, 6, 7)]), J("h_umap", "umap_empty"), J("h_umap", "umap_bulk", q=[[6, 0, 3, 1], [0, 1, 3, 4, 0], [9, 3, 2, 3]]), J("h_umap", "umap_swap"), J("h_umap", "umap_two", q=[[6, 1, 3, 0], [9, 2, 0, 0], [9, 4, 6, 2], [6, 0, 9, 3], [20, 4, 3, 0], [24, 5, 0, 0]]))
SV = [(20, 0, 20, 4), (23, 0, 23, 5), (24, 3, 22, 4), (24, 2, 24, 4), (27, 5, 23, 12), (40, 1, 39, 8), (9, 2, 7, 16), (44, 3, 40, 8), (44, 4, 37, 6), (24, 2, 21, 2), (24, 2, 21, 3), (16, 0, 16, 3)]
check("C13", J("h_matrix", "mat_mul", q=[[a, s, 3, 4, 3, 6, 2, 0] for a in range(7) for s in range(3)] + [[a, s, h, k, w, 90 if a == 3 else 6, sa, 1 - sa, z] for a in range(7) for s in range(3) for h, k, w, sa, z in ((7, 7, 7, 1, 0), (9, 10, 9, 0, 0x10204))] + [[a, s, h, k, w, 90 if a == 3 else 5, 1, 0, z] for a in range(7) for s in (0, 2) for h, k, w, z in ((1, 9, 2, 0), (8, 3, 8, 0x0303), (3, 8, 7, 0x31))]),
    J("h_matrix", "mat_prog", q=[[3, 3, 3, 4, o] for o in range(14)] + [[2, 3, 4, 3, 99, 0x201]], t=[[3, h, w, 4, o, z] for h, w, z in ((3, 3, 0), (3, 4, 0x201), (5, 5, 0x1001)) for o in range(14)]),
    J("h_matrix", "mat_vec", q=[[3, 5, 3], [5, 4, 3]]),
    J("h_matrix", "mat_iter", q=[[4, 3, o] for o in range(9)], t=[[4, 4, o] for o in range(9)]))
check("C14", J("h_sort", "sort_vector", q=[[al, n, a, b, M, (1 << a) | (b < 30) << b // 2 | (1 << (b - 1)), how, d] for al in (0, 1) for n, a, b, M in SV for how, d in ((0, 1), (3, 2))]))
check("C15", J("h_sort", "sort_vector", q=[[2, n, a, b, M, (1 << a) | (b < 30) << b // 2 | (1 << (b - 1)), how, d] for n, a, b, M in SV for how, d in ((0, 1), (3, 2))]))
check("C16", J("h_sort", "sort_stable", q=[[0, n, a, b, M, ma, how, d] for n, a, b, M, ma, how in ((20, 0, 20, 12, 0x80001, 0), (23, 0, 23, 12, 0x400100, 0), (24, 3, 22, 12, 0x100010, 0), (24, 2, 21, 12, 4, 3), (9, 2, 7, 16, 0x1c, 0), (18, 0, 17, 12, 0x80001, 3), (5, 1, 1, 12, 0, 0), (28, 3, 24, 9, 8, 0), (12, 0, 12, 6, 0x801, 0)) for d in (1, 2) if d == 1 or M == 16]))
check("C17", J("h_sort", "sort_stream", q=[[k, n, M, m, how, d] for k in range(5) for n, M, m in ((0, 8, 0), (1, 8, 1), (8, 8, 7), (21, 8, 0x40200), (40, 8, 0x2000001), (37, 12, 0x1000100000)) for how, d in ((0, 1),)] + [[k, 26, 14, 0x200010, 2, 2] for k in range(5)]), J("h_sort", "sort_abandon", q=[[k, 8, m] for k in (3, 9, 20) for m in (0, 1)] + [[k, 8, 2] for k in (4, 13, 27, 40)]), J("h_sort", "sort_sorter", q=[[20, 8, 0x401], [5, 8, 7, 2, 1], [33, 8, 0x100001, 3], [0, 8, 0]]))
check("C27", J("h_io", "io_prog", q=[[4, 1, o, p] for o in (0, 1) for p in range(3)]), J("h_io", "io_threads", q=[[k, 1] for k in (0, 1, 2, 4)]), J("h_io", "io_shutdown", q=[[k, 2, 2, r] for k in (0, 1) for r in (1, 3)]), J("h_io", "io_any", q=[[k, 2, 2] for k in range(3)]+[[0, 2, 1, 1]]))
check("C28", J("h_io", "io_threads", q=[[3, 1]]), J("h_io", "io_any", q=[[3, 2, 2]]), J("h_io", "io_shutdown", q=[[k, 2, 2, r, 1] for k in (0, 1) for r in (1, 3)] + [[k, 3, 1, r, 1, 1] for k in (0, 1) for r in (0, 7)]))
check("C41", J("h_io", "sync_prims", q=[[k, 2] for k in range(5)]))
check("C33", J("h_aio", "aio_prog", q=[[2, 1, l, a] for l in (1, 2) for a in range(5)] + [[2, 1, 2, 0, 1, 4], [2, 1, 2, 1, 1, 1], [2, 1, 2, 0, 1, 32], [2, 1, 2, 4, 1, 32]]))
check("C29", J("h_file", "file_ops", q=[[k, 3, o] for k in range(8) for o in range(6) if not (k >= 5 and o in (2, 3)) and not (k == 7 and o == 4) and not (k in (5, 6) and o == 5)]), J("h_file", "file_eof"), J("h_file", "file_conc", q=[[k, s, 1 + (k < 7)] for k, s in ((0, 0), (0, 1), (0, 3), (1, 1), (4, 1), (7, 2), (7, 0))]), J("h_file", "file_lag", q=[[7, 7, 1], [9, 5, 0], [8, 4, 1]]))
check("C30", J("h_io", "io_error", q=[[2, 2, 0], [2, 2, 1]]), J("h_file", "file_faults", q=[[k, 2, 31, 2] for k in (0, 1, 2, 3, 5, 6)]))
check("C22", J("h_mng", "alloc_ops", q=[[4, g, o, c, 0] for g in (0, 1) for o in (0, 1) for c in (0, 4)] + [[3, 1, o, 2, 1] for o in (0, 1)]), J("h_mng", "alloc_sym", q=[[2, 1], [3, 0], [3, 1]]), J("h_mng", "alloc_fit"))
check("C23", J("h_mng", "bm_ops", q=[[s, d, 3, 0, g, 2] for s in range(6) for d, g in ((1, 1), (2, 0), (3, 1))]), J("h_mng", "strategies", q=[[i] for i in range(6)]), J("h_mng", "placement", q=[[i] for i in range(8)]), J("h_mng", "flash_disks"), J("h_mng", "bm_threads", q=[[i, 1] for i in range(3)]))
check("C24", J("h_pool", "pool_ops", q=[[p, w, 3 + (p == 1), o] for p, w in ((1, 1), (0, 2), (2, 1)) for o in range(8)] + [[1, 1, 2, o, 1] for o in range(3)], t=[[p, w, 4, o] for p, w in ((1, 1), (0, 2), (2, 1), (2, 3)) for o in range(8)] + [[1, 1, 3, o, 1] for o in range(3)]), J("h_pool", "pool_single", t=[[5]]), J("h_pool", "pool_inflight", q=[[k, 2] for k in range(4)]))
check("C25", J("h_pool", "streams", q=[[L, D, N, al, m] for L, D, N, al, m in ((4, 2, 3, 0, 0x81), (1, 1, 2, 0, 3), (5, 1, 5, 2, 0x201), (5, 3, 2, 1, 0x10))] + [[2, 2, 2, 0, 1, 1]]), J("h_pool", "writer", q=[[4, 3, 2], [4, 2, 1], [4, 5, 9], [2, 2, 1, 1]]), J("h_pool", "prefetcher", q=[[4, 2], [4, 1], [3, 5], [3, 2, 1]]), J("h_pool", "schedule", q=[[5, 2], [4, 1], [5, 3], [2, 3]], t=[[6, 3], [7, 2]]))
check("C19", J("h_stream", "scan_ops", q=[[al, n, 99, 0, 99, d, nb] for al in range(4) for n, d, nb in ((13, 1, 0), (9, 2, 3))] + [[al, 21, 5, 19, 2, 1, 2] for al in range(4)] + [[al, 9, 99, 0, 99, 2, 2 if al == 1 else 1] for al in range(4)]))
check("C18", J("h_stream", "stream_mat", q=[[al, 9, 99, 0, 0, 99] for al in range(4)] + [[al, 9, 99, 0, 0, 99, 2, 1] for al in (0, 1)] + [[al, 19, 3, 13, k, 2, 2, 3] for al in (0, 1) for k in (8, 12)]), J("h_stream", "stream_src", q=[[al, 9, 99, 0, 99, 1 + (al & 1), 0, 1] for al in range(5)] + [[al, 9, 99, 0, 99, 2, 1, 1] for al in range(5)]), J("h_stream", "stream_ops", q=[[al, 3] for al in range(14)]))
check("C20", J("h_stream", "shuffle", q=[[11, 2, 9, 7, 2, 0], [11, 0, 11, 7, 2, 1, 2], [12, 4, 12, 9, 3, 2, 1, 1], [0, 0, 0, 7], [6, 3, 3, 7], [8, 4, 4, 7], [3, 0, 3, 7, 6, 0, 1, 2], [40, 3, 38, 7, 1, 5], [44, 0, 44, 7, 1, 99]]))
check("C21", J("h_par", "mw_merge", q=[[a, s, e, k, 0, 4 if k < 4 else 3] for a in range(4) for s in (0, 1) for e in (0, 1) for k in (1, 2, 3, 4, 5)] + [[a, s, 0, 3, 222, 6] for a in (0, 2) for s in (0, 1)]), J("h_par", "multiseq", q=[[1, 0, 4], [2, 0, 4], [3, 0, 3], [3, 221, 5], [2, 32, 5], [4, 1111, 4]], t=[[1, 0, 5], [2, 0, 6], [3, 0, 4], [3, 221, 5], [2, 52, 7], [4, 1111, 4]]), J("h_par", "winner", q=[[n, 3, o] for n in (1, 2) for o in (0, 4)] + [[3, 3, 0], [3, 2, 4], [4, 2, 4], [4, 2, 0]], t=[[n, 3, o] for n in (1, 2, 3, 4) for o in (0, 4)] + [[2, 4, 0]]))
check("C47", J("h_par", "mw_merge", q=[[1, s, 0, 2, l, 9, T, sp, n] for s in (0, 1) for T in (1, 2) for sp in (0, 1) for l, n in ((10, 0), (12, 1), (1, 98))] + [[1, s, 0, k, l, 9, T, sp, n] for s in (0, 1) for T in (2, 3) for sp in (0, 1) for k, l, n in ((2, 23, 99), (3, 212, 98), (4, 1111, 99))] + [[1, s, 0, 2, 22, 9, 2, sp, 98, 1] for s in (0, 1) for sp in (0, 1)]), J("h_par", "mwms", q=[[5, s, sp, T] for s in (0, 1) for sp in (0, 1) for T in (1, 2, 3)] + [[3, s, sp, 2, 1] for s in (0, 1) for sp in (0, 1)]))
check("C10", J("h_ppq", "ppq", q=[[h, r, 3, 0, 9, p, op, 1, mo] for h, r, p, mo in ((1, 20, 0, 0), (1, 20, 33, 1), (1, 24, 33, 4), (2, 24, 17, 0), (2, 28, 60, 0), (2, 24, 33, 2), (1, 20, 33, 3)) for op in range(7)] + [[2, 24, 2, 0, 9, 21, op, 2] for op in range(7)] + [[1, 24, 2, 0x1001, 5, 12, op] for op in range(7)], t=[[h, r, 3, 0, 9, p, op, 1, mo] for h, r in ((1, 20), (1, 30), (2, 24), (2, 28)) for p in (0, 17, 33, 60) for op in range(7) for mo in range(5)] + [[2, 28, 4, 0, 9, 33, op, 1, 0] for op in range(7)]), J("h_ppq", "ppq_threads", q=[[2, 2, 1, 6], [2, 5, 1, 3], [3, 5, 1, 0]], t=[[2, 5, 2, 3]]))
check("C35", J("h_util", "uint_pair", q=[[0], [1]]))
check("C36", J("h_util", "varint", q=[[0, 0], [1, 1]], t=[[0, 0], [1, 0]]), J("h_util", "reader_any", q=[[n, 2] for n in (0, 1, 3, 6)], t=[[n, 3] for n in (0, 1, 3, 6, 11)]), J("h_util", "binbuf", q=[[3]], t=[[4]]), J("h_util", "binbuf_misc", q=[[3]], t=[[5]]))
check("C37", J("h_util", "count_ptr", q=[[3]], t=[[4]]), J("h_util", "count_threads", q=[[2]], t=[[4]]), J("h_util", "ext_shared"))
check("C39", J("h_util", "si_units", q=[[1], [2], [3]], t=[[4], [6]]), J("h_util", "si_any", q=[[0], [1], [2], [3], [4]], t=[[5]]))
check("C42", J("h_util", "int_utils", q=[[i] for i in range(4)]), J("h_util", "predicates", q=[[n] for n in range(6)]))
check("C43", J("h_util", "aligned", q=[[0], [1], [2]]))
check("C44", J("h_util", "swap_vec", q=[[3]], t=[[4]]), J("h_util", "simple_vec"), J("h_util", "addr_queues", q=[[0, 4], [1, 4]], t=[[0, 5], [1, 5]]))
check("C38", J("h_misc", "cmdline", q=[[2, k] for k in range(4)], t=[[3, k] for k in range(4)]), J("h_misc", "cmdline_params", q=[[2, k] for k in range(5)] + [[3, k, 1] for k in range(5)], t=[[3, k] for k in range(5)] + [[4, k, 1] for k in range(5)]), J("h_misc", "usage", q=[[n, 6] for n in (4, 60, 66, 68, 70, 71, 72, 73, 74, 80)] + [[4, 4, 1]], steps=3000000))
check("C40", J("h_misc", "diskcfg", q=[[0], [1]] + [[2, im] for im in range(3)], t=[[2, im] for im in range(5)]), J("h_misc", "cfgfile", q=[[2], [3]], t=[[4]]), J("h_misc", "cfgfind"), J("h_misc", "cfgprog", q=[[3]], t=[[4]]))
check("C45", J("h_misc", "sched", q=[[2, 6, 2], [2, 6, 3], [2, 7, 4], [3, 5, 2], [3, 6, 4], [1, 5, 2], [2, 5, 3, 1], [2, 5, 7], [3, 3, 2], [2, 6, 1]], t=[[2, 10, 4], [3, 8, 4], [3, 7, 3, 1], [4, 6, 3]]))
check("C34", J("h_stats", "stats_prog", q=[[4, o] for o in range(14)], t=[[5, o] for o in range(14)]), J("h_stats", "stats_threads", q=[[2, 2, 0], [2, 2, 1], [2, 1, 0], [3, 1, 0]], t=[[3, 2, 0], [3, 2, 1]]), J("h_stats", "stats_io", q=[[k, 2] for k in range(5)], t=[[k, 3] for k in range(5)]))
check("C02", J("h_vfile", "vf_prog", q=[[0, n, p, 3, o, b] for n, p, b in ((9, 0, 0), (13, 1, 0), (16, 1, 1)) for o in range(9)] + [[k, 9, 1, 2] for k in (1, 2)], t=[[k, n, p, 4, o, b] for k in (0, 1) for n, p, b in ((9, 0, 0), (13, 1, 0), (16, 1, 1)) for o in range(9)]), J("h_vfile", "vf_sort", q=[[alg, n, a, b, M, 0x21, h] for alg in (0, 1, 2) for n, a, b, M, h in ((40, 0, 40, 8, 0), (38, 0, 38, 8, 0), (40, 3, 40, 8, 1), (40, 4, 37, 8, 2), (40, 5, 38, 8, 0))] + [[3, 40, a, b, 12, 0x21, 0] for a, b in ((0, 40), (3, 40), (5, 38))]))
check("C26", J("h_bsched", "bs_prog", q=[[0, 3, 2, 3, o] for o in range(8)] + [[1, 3, 2, 3, o] for o in range(8)] + [[2, 3, 2, 3, o] for o in range(8)] + [[a, 4, 2, 3, o, 7, 4] for a in (1, 2) for o in (0, 1, 3)] + [[2, 3, 2, 2, o, 2, 3, 1] for o in (0, 1)] + [[2, 3, 2, 4, o, 0] for o in (3, 8)] + [[a, 3, 2, 3, o, 0] for a in (0, 1) for o in (1, 3, 8)] + [[1, 3, 2, 3, o, 0, 0, 0, 1] for o in (1, 3, 8)], t=[[a, n, m, 4, o, 7, p] for a in (0, 1, 2) for n, m, p in ((3, 2, 0), (4, 3, 3)) for o in range(8)] + [[2, 3, 2, 2, o, 7, 3, 1] for o in range(8)] + [[a, 3, 2, 4, o, 0] for a in (0, 1, 2) for o in (1, 2, 3, 4, 8)] + [[2, 3, 2, 2, o, 0, 3, 1] for o in (3, 8)]))
