// parallel_priority_queue: whatever is pushed comes out exactly once, smallest first, with every combination of operations.
#include "hx.h"
#include <omp.h>
#include <stxxl/bits/containers/parallel_priority_queue.h>
#include <stxxl/bits/io/disk_queues.h>
typedef tagged<1024> T; // four per block
typedef cmp_greater<T> C;
typedef stxxl::parallel_priority_queue<T, C, STXXL_DEFAULT_ALLOC_STRATEGY, 4096, 1 << 20> Q;
struct model {
    std::vector<uint32_t> key; std::vector<char> live; size_t n; vp_u64 mask; int mode; model(vp_u64 m, int mo) : n(0), mask(m), mode(mo) {}
    T make() { unsigned i = key.size(); uint32_t k = mode == 1 ? (i % 3) * 9000 : mode == 2 ? 90000 - i * 700 : mode == 3 ? i * 700 : mode == 4 ? 9000 : ((i * 11 + 5) % 32) * 1000 + 500; if ((mask >> (i & 63)) & 1) { k = vp_u32("key"); vp_assume(k != 0xffffffffu); } key.push_back(k); live.push_back(1); ++n; return T(k, i); }
    T make(uint32_t k) { unsigned i = key.size(); key.push_back(k); live.push_back(1); ++n; return T(k, i); }
    void take(const T& t) { uint32_t g = (uint32_t)vp_concretize(t.tag); CHECKM(g < key.size(), "only elements that were pushed come out"); CHECKM(live[g], "no element comes out twice"); CHECKM(t.key == key[g] && t.ok(), "the element is unchanged");
        bool ok = true; for (size_t i = 0; i < key.size(); ++i) if (live[i]) ok &= key[i] >= t.key; CHECKM(ok, "the top element is the smallest of those contained"); --live[g]; --n; }
    bool below(uint32_t l) { for (size_t i = 0; i < key.size(); ++i) if (live[i] && key[i] < l) return true; return false; }
};
static void pops(Q& q, model& m, int n) { for (int j = 0; j < n && m.n; ++j) { CHECK(q.size() == m.n && !q.empty()); m.take(q.top()); q.pop(); } CHECK(q.size() == m.n && q.empty() == (m.n == 0)); }
// params: heaps, memory in blocks, operations, mask of symbolic keys, elements per burst, preloaded, first operation
VP_HARNESS(ppq) {
    int heaps = (int)vp_param(0, 1), ram = (int)vp_param(1, 24), len = (int)vp_param(2, 3), burst = (int)vp_param(4, 9), pre = (int)vp_param(5, 0), first = (int)vp_param(6, -1), threads = (int)vp_param(7, 1); hx_disks(1); omp_set_num_threads(threads);
    { Q q(C(), ram * 4096ul, 1.5f, 2, heaps, 4096, 6 * 1024); model m(vp_param(3, 0), (int)vp_param(8, 0));
      for (int i = 0; i < pre; ++i) { q.push(m.make(), i % heaps); CHECK(q.size() == m.n); }
      for (int s = 0; s < len; ++s) {
          int op = s == 0 && first >= 0 ? first : (int)vp_choice("op", 7);
          switch (op) {
          case 0: for (int i = 0; i < burst; ++i) q.push(m.make(), i % heaps); break;
          case 1: if (!m.n) vp_assume(0); pops(q, m, 1 + 3 * (int)vp_choice("pops", 3)); break;
          case 2: { int n = burst; q.bulk_push_begin(n); for (int i = 0; i < n; ++i) q.bulk_push(m.make(), i % heaps); q.bulk_push_end(); break; }
          case 3: { if (!m.n) vp_assume(0); std::vector<T> out; size_t k = 1 + 2 * vp_choice("bulk", 3), had = m.n; q.bulk_pop(out, k); CHECKM(out.size() <= std::min(k, had) && out.size() > 0, "a bulk of at most the requested size, and something at least"); for (size_t i = 0; i < out.size(); ++i) m.take(out[i]); break; }
          case 4: { if (!m.n) vp_assume(0); uint32_t lim = vp_choice("limit", 2) ? 9000 : 22000; size_t maxi = vp_choice("max", 2) ? 100 : 3; for (int guard = 0; ; ++guard) { CHECKM(guard < 60, "bulk_pop_limit makes progress"); std::vector<T> out; bool full = q.bulk_pop_limit(out, T(lim, 0), maxi); CHECK(out.size() <= maxi); for (size_t i = 0; i < out.size(); ++i) { CHECKM(out[i].key < lim, "only elements below the limit"); m.take(out[i]); } if (full) break; } CHECKM(!m.below(lim), "all elements below the limit are delivered"); break; }
          case 5: { uint32_t lim = vp_choice("limit", 2) ? 9000 : 22000; int n = vp_choice("pushes", 2) ? 2 : 7; q.limit_begin(T(lim, 0), n); int pushed = 0; for (int k = 0; k < (n == 2 ? 7 : 30); ++k) { const T& t = q.limit_top(); if (t.key >= lim) { CHECKM(!m.below(lim), "the limit is delivered after everything below it"); break; } m.take(t); q.limit_pop(); if (!pushed) CHECK(q.size() == m.n); if (pushed < n && (n == 7 || k % 2)) { q.limit_push(m.make(lim + 700 * (k + 1)), pushed % heaps); ++pushed; } } q.limit_end(); break; }
          default: if (m.n) { T t = q.top(); T u = q.top(); CHECK(t.tag == u.tag); q.push(m.make()); CHECK(q.size() == m.n); for (int j = vp_choice("same", 2) ? 0 : 3; j < 9; ++j) { uint32_t g = (uint32_t)vp_concretize(q.top().tag); CHECK(g < m.live.size() && m.live[g]); q.push(q.top(), j % heaps); ++m.live[g]; ++m.n; } } break; }
          CHECK(q.size() == m.n && q.empty() == (m.n == 0));
      }
      vp_cover("filled"); pops(q, m, 1000); CHECK(q.empty());
    }
    HX_NOLEAK(); vp_cover("end");
}
// several threads push concurrently during a bulk
// params: threads, elements per thread, preemptions, preloaded
VP_HARNESS(ppq_threads) {
    int th = (int)vp_param(0, 2), n = (int)vp_param(1, 2), pre = (int)vp_param(3, 0); hx_disks(1); omp_set_num_threads(th); stxxl::stats::get_instance(); stxxl::disk_queues::get_instance();
    { Q q(C(), 30 * 4096ul, 1.5f, 2, th, 4096, 6 * 1024); model m(0, 0); for (int i = 0; i < pre; ++i) q.push(m.make(), i % th);
      std::vector<T> in; for (int i = 0; i < th * n; ++i) in.push_back(m.make());
      vp_explore(1, (int)vp_param(2, 1)); q.bulk_push_begin(th * n);
      #pragma omp parallel
      { int t = omp_get_thread_num(); for (int i = 0; i < n; ++i) q.bulk_push(in[t * n + i], (unsigned)t); }
      q.bulk_push_end(); vp_explore(0, 0); vp_cover("pushed"); CHECK(q.size() == m.n); pops(q, m, 1000); CHECK(q.empty()); }
    HX_NOLEAK(); vp_cover("end");
}
