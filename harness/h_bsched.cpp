// Block scheduler: swappable blocks keep their contents, whatever the caching algorithm evicts and prefetches.
#include "hx.h"
#include <stxxl/bits/mng/block_scheduler.h>
typedef uint32_t val; typedef stxxl::swappable_block<val, 1024> SB; typedef stxxl::block_scheduler<SB> BS; typedef BS::internal_block_type IB; typedef BS::external_block_type EB; typedef BS::swappable_block_identifier_type id_t_;
struct op { int k, i, j; val x; };
struct st { bool init; val v; IB* held; };
static void put(IB& b, val x) { b[0] = x; b[1023] = ~x; }
static void chk(IB& b, val x) { CHECKM(b[0] == x, "an acquired block has the contents last released dirty"); CHECKM(b[1023] == ~x, "an acquired block is complete"); }
// one run of the program; with sim the returned blocks are not to be touched
static void run(BS& bs, std::vector<id_t_>& id, std::vector<st>& m, const std::vector<op>& p, bool sim) {
    for (size_t s = 0; s < p.size(); ++s) { const op& o = p[s]; id_t_ a = id[o.i], b = id[o.j]; st& A = m[o.i]; st& B = m[o.j]; CHECK(bs.is_simulating() == sim);
        CHECKM(bs.is_initialized(a) == A.init, "is_initialized tells whether a block has contents");
        switch (o.k) {
        case 0: { IB& x = bs.acquire(a); if (!sim) { CHECK(&x == &bs.get_internal_block(a)); if (A.init) { chk(x, A.v); vp_observe(x[0]); } } bs.release(a, false); break; }
        case 1: { IB& x = bs.acquire(a); if (!sim) { if (A.init) chk(x, A.v); put(x, o.x); } bs.release(a, true); A.init = true; A.v = o.x; break; }
        case 2: { IB& x = bs.acquire(a, true); if (!sim) put(x, o.x); bs.release(a, true); A.init = true; A.v = o.x; break; }
        case 3: { IB& x = bs.acquire(a); IB& y = bs.acquire(b); if (!sim) { CHECKM(&x != &y, "blocks in use do not share memory"); if (A.init) chk(x, A.v); if (B.init) chk(y, B.v); put(y, o.x); if (A.init) chk(x, A.v); } bs.release(a, false); if (!sim) chk(y, o.x); bs.release(b, true); B.init = true; B.v = o.x; break; }
        case 4: bs.deinitialize(a); A.init = false; break;
        case 5: { EB e = bs.extract_external_block(a); if (!sim) { CHECKM(e.valid(), "an extracted block is on disk"); IB t; t.read(e)->wait(); chk(t, A.v); } CHECK(!bs.is_initialized(a)); A.init = false; bs.initialize(b, e); B.init = true; B.v = A.v; break; }
        case 6: { IB& x = bs.acquire(a); bs.acquire(a); if (!sim) { if (A.init) chk(x, A.v); put(x, o.x); } bs.release(a, true); if (!sim) chk(bs.get_internal_block(a), o.x); bs.release(a, false); A.init = true; A.v = o.x; break; }
        case 8: if (A.held) { if (!sim) { chk(*A.held, A.v); put(*A.held, o.x); } bs.release(a, true); A.init = true; A.v = o.x; A.held = 0; } else { IB& x = bs.acquire(a); A.held = &x; if (!sim) { if (A.init) chk(x, A.v); else put(x, A.v); for (size_t i = 0; i < m.size(); ++i) if ((int)i != o.i && m[i].held) { CHECKM(m[i].held != &x, "blocks in use do not share memory"); chk(*m[i].held, m[i].v); } } A.init = true; } break;
        case 9: { bs.free_swappable_block(a); A.init = false; id[o.i] = bs.allocate_swappable_block(); CHECKM(id[o.i] == a, "the identifier is used again"); CHECK(!bs.is_initialized(a)); break; }
        default: bs.explicit_timestep(); break;
        } }
}
// programs in which blocks stay acquired across other operations
static bool draw_held(std::vector<op>& p, std::vector<bool> in, int len, int nb, int first, int mem) {
    static const int K[] = { 0, 1, 2, 3, 4, 5, 8, 9 }; std::vector<bool> held(nb, false); int h = 0;
    for (int s = 0; s < len; ++s) { op o; o.k = s == 0 && first < 99 ? first : K[vp_choice("op", 7)]; o.i = (int)vp_choice("i", nb); o.j = (o.i + 1) % nb; int a = o.i, b = o.j; o.x = o.k != 0 && o.k != 4 && o.k != 5 ? vp_u32("x") : 0;
        int need = o.k == 4 || o.k == 5 || o.k == 9 ? 0 : !held[a] + (o.k == 3 ? !held[b] : 0); if (h + need > mem) return false;
        switch (o.k) { case 1: case 2: in[a] = true; break; case 3: in[b] = true; break; case 4: case 9: if (held[a]) return false; in[a] = false; break; case 5: if (!in[a] || in[b] || held[a] || held[b]) return false; in[a] = false; in[b] = true; break; case 8: in[a] = true; h += held[a] ? -1 : 1; held[a] = !held[a]; break; }
        p.push_back(o); }
    for (int a = 0; a < nb; ++a) if (held[a]) { op o; o.k = 8; o.i = a; o.j = (a + 1) % nb; o.x = 7; p.push_back(o); }
    return true;
}
static bool draw(std::vector<op>& p, std::vector<bool> in, int len, int nb, int first, int nk, int mem) {
    if (nk == 0) return draw_held(p, in, len, nb, first, mem);
    for (int s = 0; s < len; ++s) { op o; o.k = s == 0 && first < 99 ? first : (int)vp_choice("op", nk); o.i = (int)vp_choice("i", nb); o.j = (o.i + 1) % nb; o.x = o.k >= 1 && o.k <= 6 && o.k != 4 && o.k != 5 ? vp_u32("x") : 0;
        switch (o.k) { case 1: case 2: case 6: in[o.i] = true; break; case 3: in[o.j] = true; break; case 4: in[o.i] = false; break; case 5: if (!in[o.i] || in[o.j]) return false; in[o.i] = false; in[o.j] = true; break; }
        p.push_back(o); }
    return true;
}
// params: algorithm (0 online, 1 offline lfd, 2 offline prefetching), blocks, blocks of memory, length, first operation, operations in use, blocks written before, preemptions, operations not predicted
VP_HARNESS(bs_prog) {
    int alg = (int)vp_param(0, 0), nb = (int)vp_param(1, 3), mem = (int)vp_param(2, 2), len = (int)vp_param(3, 3), pre = (int)vp_param(6, 0); hx_disks(2); std::vector<op> p; std::vector<bool> in(nb, false); for (int i = 0; i < pre; ++i) in[i] = true;
    if (!draw(p, in, len, nb, (int)vp_param(4, 99), (int)vp_param(5, 7), mem)) vp_assume(0);
    { BS bs(mem * sizeof(IB)); std::vector<id_t_> id; std::vector<st> m(nb); for (int i = 0; i < nb; ++i) { id.push_back(bs.allocate_swappable_block()); m[i].init = false; m[i].v = 0; m[i].held = 0; }
      for (int i = 0; i < pre; ++i) { IB& x = bs.acquire(id[i], true); m[i].v = vp_u32("p"); put(x, m[i].v); m[i].init = true; bs.release(id[i], true); }
      if (vp_param(7, 0)) vp_explore(1, (int)vp_param(7, 0));
      if (alg == 0) run(bs, id, m, p, false);
      else { std::vector<st> c = m; stxxl::block_scheduler_algorithm_simulation<SB>* sim = new stxxl::block_scheduler_algorithm_simulation<SB>(bs); delete bs.switch_algorithm_to(sim); { std::vector<op> q(p); for (int d = (int)vp_param(8, 0); d > 0 && !q.empty(); --d) q.pop_back(); run(bs, id, c, q, true); }
          if (alg == 1) delete bs.switch_algorithm_to(new stxxl::block_scheduler_algorithm_offline_lfd<SB>(sim)); else delete bs.switch_algorithm_to(new stxxl::block_scheduler_algorithm_offline_lru_prefetching<SB>(sim));
          run(bs, id, m, p, false); delete bs.switch_algorithm_to(new stxxl::block_scheduler_algorithm_online_lru<SB>(bs)); }
      for (int r = 0; r < 2; ++r) { for (int i = 0; i < nb; ++i) { CHECK(bs.is_initialized(id[i]) == m[i].init); if (m[i].init) { IB& x = bs.acquire(id[i]); chk(x, m[i].v); bs.release(id[i], false); } } if (!r) bs.flush(); }
      for (int i = 0; i < nb; ++i) bs.free_swappable_block(id[i]); id_t_ again = bs.allocate_swappable_block(); CHECK(again < (id_t_)nb && !bs.is_initialized(again)); bs.free_swappable_block(again);
      vp_explore(0, 0); vp_cover("end"); }
    HX_NOLEAK();
}
