// Block pools, prefetching and buffered streams: every read delivers the contents last written to that block.
#include "hx.h"
#include <stxxl/bits/mng/typed_block.h>
#include <stxxl/bits/mng/read_write_pool.h>
#include <stxxl/bits/mng/block_prefetcher.h>
#include <stxxl/bits/mng/buf_istream.h>
#include <stxxl/bits/mng/buf_istream_reverse.h>
#include <stxxl/bits/mng/buf_ostream.h>
#include <stxxl/bits/mng/buf_writer.h>
#include <stxxl/bits/algo/async_schedule.h>
#include <stxxl/bits/io/disk_queues.h>
typedef elem<2048> E2; typedef stxxl::typed_block<4096, E2> blk; typedef blk::bid_type bid;
struct val { uint32_t v, t; val() : v(0), t(0) {} val(uint32_t v, uint32_t t) : v(v), t(t) {} };  // one symbolic and one concrete element per block
static void fill(blk& b, val x) { b[0] = E2(x.v); b[1] = E2(x.t); }
static void same(const blk& b, val x) { CHECKM(b[0].key == x.v && b[1].key == x.t, "a read delivers what was last written to the block"); CHECKM(b[0].ok() & b[1].ok(), "block contents are intact"); }
static void put(const bid& b, val v) { blk* x = new blk; fill(*x, v); stxxl::request_ptr r = x->write(b); r->wait(); delete x; }
static void expect(const bid& b, val v) { blk* x = new blk; stxxl::request_ptr r = x->read(b); r->wait(); same(*x, v); delete x; }
enum { NB = 3 };
// params: prefetch blocks, write blocks, operations, first operation, preemptions
VP_HARNESS(pool_ops) {
    int np = vp_param(0, 1), nw = vp_param(1, 1), K = vp_param(2, 4), P = vp_param(4, 0); hx_disks(2); stxxl::block_manager* m = stxxl::block_manager::get_instance(); stxxl::disk_queues::get_instance();
    {
        bid b[NB]; val v[NB]; m->new_blocks(stxxl::striping(), b, b + NB); for (int i = 0; i < NB; ++i) put(b[i], v[i] = val(vp_u32("init"), 1000 * i));
        stxxl::read_write_pool<blk>* p = new stxxl::read_write_pool<blk>(np, nw); if (P) vp_explore(1, P);
        for (int k = 0; k < K; ++k) {
            int op = k == 0 && vp_param(3, 99) != 99 ? (int)vp_param(3, 0) : (int)vp_choice("op", P ? 4 : 8), i = op >= 5 ? 0 : (int)vp_choice("block", NB - (P != 0)); vp_u64 total = p->size_write() + p->size_prefetch();
            switch (op) {
            case 0: { blk* w = p->steal(); fill(*w, v[i] = val(vp_u32("new"), 10 * k)); p->write(w, b[i]); CHECKM(w == NULL, "a written block belongs to the pool"); break; }
            case 1: { blk* w = p->steal(); w->elem[0] = E2(77); stxxl::request_ptr r = p->read(w, b[i]); r->wait(); same(*w, v[i]); p->add(w); CHECK(w == NULL); break; }
            case 2: { vp_u64 f = p->free_size_prefetch(), q = p->busy_size_prefetch(); bool in = p->in_prefetching(b[i]), h = p->hint(b[i]); CHECKM(h == (in || f > 0), "a hint is taken if there is a free block"); CHECK(p->in_prefetching(b[i]) == h && p->busy_size_prefetch() == q + (h && !in)); break; }
            case 3: { bool in = p->in_prefetching(b[i]); CHECK(p->invalidate(b[i]) == in); CHECK(!p->in_prefetching(b[i])); break; }
            case 4: { if (p->poll_hint(b[i])) { CHECK(p->in_prefetching(b[i])); stxxl::request_ptr r = p->find_hint(b[i]); CHECK(r.valid() && r->poll()); } else vp_yield(); break; }
            case 5: { p->resize_write(2); CHECK(p->size_write() == 2 || p->size_write() > 2); total = p->size_write() + p->size_prefetch(); break; }
            case 6: { vp_u64 w = p->size_write(); p->resize_prefetch(np + 1); CHECK(p->size_write() == w); total = p->size_write() + p->size_prefetch(); break; }
            default: { stxxl::read_write_pool<blk> o(1, 1); std::swap(*p, o); std::swap(o, *p); break; }
            }
            CHECKM(p->size_write() + p->size_prefetch() == total, "no buffer of the pools gets lost");
        }
        for (int i = 0; i < NB; ++i) { blk* w = p->steal(); stxxl::request_ptr r = p->read(w, b[i]); r->wait(); same(*w, v[i]); p->add(w); }
        delete p; if (P) vp_explore(0, 0); for (int i = 0; i < NB; ++i) expect(b[i], v[i]); m->delete_blocks(&b[0], &b[0] + NB);
    }
    HX_NOLEAK(); vp_cover("end");
}
// a buffer given back by the pools is not touched by any request any more; params: what, preemptions
VP_HARNESS(pool_inflight) {
    int k = (int)vp_param(0, 0); hx_disks(1); stxxl::block_manager* m = stxxl::block_manager::get_instance(); stxxl::disk_queues::get_instance(); stxxl::stats::get_instance();
    { bid b[2]; val v[2], own(vp_u32("own"), 4242); m->new_blocks(stxxl::striping(), b, b + 2); for (int i = 0; i < 2; ++i) put(b[i], v[i] = val(vp_u32("init"), 1000 * i));
      stxxl::read_write_pool<blk>* p = new stxxl::read_write_pool<blk>(1, 1); blk* w = 0; vp_explore(1, (int)vp_param(1, 1));
      if (k == 0) { CHECK(p->hint(b[0])); CHECK(p->invalidate(b[0])); w = p->steal_prefetch(); }                                  // cancelled or interrupted prefetch
      else if (k == 1) { w = p->steal(); fill(*w, v[0] = val(vp_u32("new"), 7)); p->write(w, b[0]); w = p->steal(); }              // buffer of a pending write
      else if (k == 2) { w = p->steal(); fill(*w, v[0] = val(vp_u32("new"), 7)); p->write(w, b[0]); CHECK(p->hint(b[0])); CHECK(p->invalidate(b[0])); w = p->steal_prefetch(); } // pending write handed to the prefetch pool
      else { CHECK(p->hint(b[0])); w = p->steal(); fill(*w, v[0] = val(vp_u32("new"), 7)); p->write(w, b[0]); w = new blk; stxxl::request_ptr r = p->read(w, b[0]); r->wait(); same(*w, v[0]); } // write to a block being prefetched
      fill(*w, own); for (int i = 0; i < 3; ++i) vp_yield(); same(*w, own); vp_explore(0, 0); same(*w, own); delete w; delete p; for (int i = 0; i < 2; ++i) expect(b[i], v[i]); m->delete_blocks(&b[0], &b[0] + 2); }
    HX_NOLEAK(); vp_cover("end");
}
// write pool and prefetch pool used on their own; params: operations
VP_HARNESS(pool_single) {
    int K = vp_param(0, 4); hx_disks(1); stxxl::block_manager* m = stxxl::block_manager::get_instance();
    { bid b[2]; val v[2]; m->new_blocks(stxxl::striping(), b, b + 2); for (int i = 0; i < 2; ++i) put(b[i], v[i] = val(vp_u32("init"), 1000 * i));
      stxxl::write_pool<blk>* w = new stxxl::write_pool<blk>(2); stxxl::prefetch_pool<blk>* p = new stxxl::prefetch_pool<blk>(1);
      for (int k = 0; k < K; ++k) { int op = (int)vp_choice("op", 5), i = (int)vp_choice("block", 2);
        if (op == 0) { blk* x = w->steal(); fill(*x, v[i] = val(vp_u32("new"), 500 + 10 * k)); stxxl::request_ptr r = w->write(x, b[i]); CHECK(w->has_request(b[i])); if (p->in_prefetching(b[i])) p->invalidate(b[i]); }
        else if (op == 1) { std::pair<blk*, stxxl::request_ptr> q = w->steal_request(b[i]); CHECKM(!w->has_request(b[i]), "a block has at most one valid pending write"); if (q.first) { q.second->wait(); same(*q.first, v[i]); w->add(q.first); } }
        else if (op == 2) { if (w->has_request(b[i])) vp_assume(0); p->hint(b[i]); }
        else if (op == 3) { if (w->has_request(b[i])) vp_assume(0); blk* x = p->free_size() ? p->steal() : new blk; stxxl::request_ptr r = p->read(x, b[i]); r->wait(); same(*x, v[i]); p->add(x); if (p->size() > 1) { CHECK(p->resize(1) <= 2); } }
        else w->resize(1 + i);
        CHECK(w->size() >= 1); }
      delete p; delete w; for (int i = 0; i < 2; ++i) expect(b[i], v[i]); m->delete_blocks(&b[0], &b[0] + 2); }
    HX_NOLEAK(); vp_cover("end");
}
// params: blocks, disks, buffers, strategy, symbolic positions, preemptions
VP_HARNESS(streams) {
    int L = vp_param(0, 4), D = vp_param(1, 2), N = vp_param(2, 3), al = vp_param(3, 0), P = vp_param(5, 0); vp_u64 mask = vp_param(4, 1); hx_disks(D); if (al) stxxl::set_seed((unsigned)vp_choice("seed", 3)); stxxl::block_manager* m = stxxl::block_manager::get_instance(); stxxl::disk_queues::get_instance(); stxxl::stats::get_instance();
    std::vector<bid> b(L); switch (al) { case 0: m->new_blocks(stxxl::striping(), b.begin(), b.end()); break; case 1: m->new_blocks(stxxl::FR(), b.begin(), b.end()); break; default: m->new_blocks(stxxl::single_disk(0), b.begin(), b.end()); }
    std::vector<uint32_t> v; for (int i = 0; i < 2 * L; ++i) v.push_back((mask >> i) & 1 ? vp_u32("x") : 100 + i); int cut = (int)vp_choice("odd", 2); if (P) vp_explore(1, P);
    { stxxl::buf_ostream<blk, std::vector<bid>::iterator> o(b.begin(), N); for (int i = 0; i < 2 * L - cut; ++i) if (i % 3 == 2) { *o = E2(v[i]); CHECK(o.current().key == v[i]); ++o; } else o << E2(v[i]); if (cut) { if (vp_choice("flush", 2)) o.flush(); else { o.fill(E2(5)); } } }
    int n = 2 * L - cut; if (vp_choice("reverse", 2)) { stxxl::buf_istream_reverse<blk, std::vector<bid>::iterator> s(b.begin(), b.end(), N); if (cut) ++s; E2 e; for (int i = n; i-- > 0; ) { CHECKM(s.current().key == v[i] && (*s).key == v[i], "a reverse stream delivers the elements in reverse order"); if (i & 1) s >> e; else { e = *s; ++s; } CHECK(e.key == v[i]); CHECK(e.ok()); } }
    else { int stop = (int)vp_choice("stop", 2) ? n / 2 : n; stxxl::buf_istream<blk, std::vector<bid>::iterator> s(b.begin(), b.end(), N); E2 e; for (int i = 0; i < stop; ++i) { CHECKM(s.current().key == v[i] && (*s).key == v[i], "a stream delivers the elements in order"); if (i & 1) s >> e; else { e = *s; ++s; } CHECK(e.key == v[i]); CHECK(e.ok()); } }
    if (P) vp_explore(0, 0); m->delete_blocks(b.begin(), b.end()); HX_NOLEAK(); vp_cover("end");
}
// blocks handed to a buffered writer in any order end up where they belong; params: blocks, buffers, batch, preemptions
VP_HARNESS(writer) {
    int L = vp_param(0, 4), N = vp_param(1, 3), B = vp_param(2, 2), P = vp_param(3, 0); hx_disks(2); stxxl::block_manager* m = stxxl::block_manager::get_instance(); stxxl::disk_queues::get_instance(); stxxl::stats::get_instance(); std::vector<bid> b(L); m->new_blocks(stxxl::striping(), b.begin(), b.end()); val v[8]; bool w[8] = { false };
    int mid = (int)vp_choice("flush_at", L + 1), perm[8]; for (int k = 0; k < L; ++k) { perm[k] = (int)vp_choice("block", L); if (w[perm[k]]) vp_assume(0); w[perm[k]] = true; } if (P) vp_explore(1, P);
    { stxxl::buffered_writer<blk> o(N, B); blk* f = o.get_free_block(); for (int k = 0; k < L; ++k) { int i = perm[k]; fill(*f, v[i] = val(vp_u32("new"), 10 * i)); f = o.write(f, b[i]); if (k + 1 == mid) { o.flush(); if (vp_choice("look", 2)) for (int j = 0; j <= k; ++j) expect(b[perm[j]], v[perm[j]]); f = o.get_free_block(); } fill(*f, val(9, 9)); } }
    if (P) vp_explore(0, 0); for (int i = 0; i < L; ++i) expect(b[i], v[i]); m->delete_blocks(b.begin(), b.end()); HX_NOLEAK(); vp_cover("end");
}
static int g_calls; struct count { void operator () (stxxl::request*) { ++g_calls; } };
// prefetcher with every admissible order; params: blocks, buffers, preemptions
VP_HARNESS(prefetcher) {
    int L = vp_param(0, 4), N = vp_param(1, 2), P = vp_param(2, 0); hx_disks(2); stxxl::block_manager* m = stxxl::block_manager::get_instance(); stxxl::disk_queues::get_instance(); stxxl::stats::get_instance(); std::vector<bid> b(L); m->new_blocks(stxxl::striping(), b.begin(), b.end()); val x[8]; for (int i = 0; i < L; ++i) put(b[i], x[i] = val(vp_u32("init"), 10 * i));
    stxxl::int_type seq[8]; bool w[8] = { false }; for (int k = 0; k < L; ++k) { int i = (int)vp_choice("seq", L); if (w[i] || k >= N + i) vp_assume(0); w[i] = true; seq[k] = i; } int stop = (int)vp_choice("stop", 2) ? 1 : L; if (P) vp_explore(1, P);
    { stxxl::block_prefetcher<blk, std::vector<bid>::iterator> p(b.begin(), b.end(), seq, N, stxxl::completion_handler(count())); CHECK(!p.empty()); blk* c = p.pull_block(); for (int i = 0; i < stop; ++i) { CHECK((int)p.pos() == i + 1); CHECK(p.empty() == (i + 1 == L)); same(*c, x[i]); fill(*c, val(3, 3)); bool more = p.block_consumed(c); CHECK(more == (i + 1 < L)); } }
    if (P) vp_explore(0, 0); CHECKM(stop < L || g_calls == L, "the completion handler runs once per block"); m->delete_blocks(b.begin(), b.end()); HX_NOLEAK(); vp_cover("end");
}
// prefetch schedules: a permutation that never needs more buffers than there are; params: blocks, disks
VP_HARNESS(schedule) {
    int L = vp_param(0, 5), D = vp_param(1, 2), M = 1 + (int)vp_choice("m", L + 1); stxxl::int_type d[12], o[12], pos[12]; 
    for (int i = 0; i < L; ++i) { unsigned x = (unsigned)vp_sym("disk", 8); vp_assume(x <= (unsigned)D); d[i] = x == (unsigned)D ? (stxxl::int_type)stxxl::file::DEFAULT_DEVICE_ID : (stxxl::int_type)x; o[i] = -1; pos[i] = -1; }
    stxxl::compute_prefetch_schedule(d, d + L, o, M, D);
    for (int i = 0; i < L; ++i) { CHECKM(o[i] >= 0 && o[i] < L, "the schedule contains valid blocks only"); stxxl::int_type q = (stxxl::int_type)vp_concretize(o[i]); CHECKM(pos[q] == -1, "the schedule is a permutation"); pos[q] = i; }
    for (int i = 0; i < L; ++i) CHECKM(pos[i] < M + i, "a block is fetched before it is needed, with the buffers available by then");
    vp_cover("end");
}
