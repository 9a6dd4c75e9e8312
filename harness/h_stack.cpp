// Stacks: every program of pushes and pops behaves like an in-memory LIFO sequence.
#include "hx.h"
#include <stxxl/stack>
typedef elem<2048> E2; // two elements per block
typedef std::vector<uint32_t> model;
template <class S> static void same_top(S& s, const model& m) {
    CHECK(s.size() == m.size()); CHECK(s.empty() == m.empty());
    if (!m.empty()) { const S& c = s; const E2& e = c.top(); CHECKM(e.key == m.back(), "top() is the element pushed last"); CHECKM(e.ok(), "payload intact"); CHECK(s.top().key == m.back()); }
}
template <class S> static void push(S& s, model& m) { uint32_t x = vp_u32("x"); s.push(E2(x)); m.push_back(x); }
template <class S> static void pop(S& s, model& m) { s.pop(); m.pop_back(); }
template <class S> static void drain(S& s, model& m) { while (!m.empty()) { same_top(s, m); vp_observe(s.top().key); pop(s, m); } same_top(s, m); }
// runs of pushes and pops whose lengths straddle block, page and cache borders
template <class S> static void runs(S& s, model& m, int len, const int* k, int nk) {
    for (int i = 0; i < len; ++i) {
        int op = i == 0 && vp_param(2, 99) != 99 ? vp_param(2, 0) : vp_choice("op", 2 * nk + 1); int n = k[op % nk];
        if (op == 2 * nk) { if (m.empty()) vp_assume(0); uint32_t x = vp_u32("t"); s.top() = E2(x); m.back() = x; }
        else if (op < nk) for (int j = 0; j < n; ++j) { push(s, m); same_top(s, m); }
        else for (int j = 0; j < n; ++j) { if (m.empty()) vp_assume(0); pop(s, m); same_top(s, m); }
    }
    vp_cover("end");
}
static const int K1[] = { 1, 2, 3, 5 }, K2[] = { 1, 3, 4, 9 };
#define GEN(ext, beh, bpp, crit, al) stxxl::STACK_GENERATOR<E2, stxxl::ext, stxxl::beh, bpp, 4096, std::stack<E2>, crit, stxxl::al>::result
template <class S> static void simple(const int* k) { hx_disks(2); { S s; model m; runs(s, m, vp_param(1, 4), k, 4); drain(s, m); } HX_NOLEAK(); }
VP_HARNESS(stack_ext) {
    switch (vp_param(0, 0)) {
    case 0: simple<GEN(external, normal, 1, 7, striping)>(K1); break;
    case 1: simple<GEN(external, normal, 2, 7, RC)>(K2); break;
    case 2: simple<GEN(external, grow_shrink, 1, 7, striping)>(K1); break;
    case 3: simple<GEN(external, grow_shrink, 2, 7, SR)>(K2); break;
    case 4: simple<GEN(migrating, normal, 1, 7, striping)>(K1); break;
    case 5: simple<GEN(migrating, grow_shrink, 1, 5, FR)>(K1); break;
    }
}
// grow_shrink_stack2 shares a block pool and prefetches; hints must never change what is read
VP_HARNESS(stack_pool) {
    hx_disks(1);
    {
        typedef GEN(external, grow_shrink2, 1, 7, striping) S; int cfg = vp_param(0, 0);
        stxxl::read_write_pool<S::block_type> pool(cfg & 1 ? 2 : 1, cfg & 2 ? 3 : 1); size_t blocks = pool.size_write() + pool.size_prefetch();
        {
        S s(pool, cfg & 4 ? 2 : cfg & 1); model m;
        for (int i = 0; i < (int)vp_param(1, 3); ++i) {
            int op = i == 0 && vp_param(2, 99) != 99 ? vp_param(2, 0) : vp_choice("op", 8);
            if (op < 3) for (int j = 0; j < (op == 2 ? 5 : op + 1); ++j) { push(s, m); same_top(s, m); }
            else if (op < 6) for (int j = 0; j < (op == 5 ? 4 : op - 2); ++j) { if (m.empty()) vp_assume(0); pop(s, m); same_top(s, m); }
            else { s.set_prefetch_aggr(op == 6 ? 0 : 2); CHECK(s.get_prefetch_aggr() == (op == 6 ? 0u : 2u)); }
        }
        vp_cover("end");
        // a second stack on the same pool must not see blocks of the first
        { S t(pool, 1); model n; for (int j = 0; j < 7; ++j) push(t, n); same_top(s, m); if (vp_choice("keep", 2)) drain(t, n); }
        drain(s, m);
        }
        CHECKM(pool.size_write() + pool.size_prefetch() == blocks, "stacks give the pool's blocks back");
    }
    HX_NOLEAK();
}
// swap with a stack that is destroyed first
template <class S> static void swap_inner(S& b, S* pa, int na, int nb) {
    model x, y; for (int i = 0; i < nb; ++i) push(b, y);
    { S& a = *pa; for (int i = 0; i < na; ++i) push(a, x); std::swap(a, b); x.swap(y); same_top(a, x); same_top(b, y); for (int i = 0; i < 3; ++i) { push(a, x); push(b, y); } if (vp_choice("drain", 2)) drain(a, x); delete pa; }
    for (int i = 0; i < 5; ++i) push(b, y); drain(b, y); push(b, y); same_top(b, y);
}
// copy construction preserves order, swap exchanges contents
VP_HARNESS(stack_copyswap) {
    hx_disks(1);
    {
        typedef GEN(external, normal, 1, 7, striping) N; typedef GEN(external, grow_shrink, 1, 7, striping) G; typedef GEN(migrating, normal, 1, 5, striping) M;
        int na = vp_choice("na", 8), nb = vp_choice("nb", 6);
        switch (vp_choice("kind", 9)) {
        case 0: { N a, b; model x, y; for (int i = 0; i < na; ++i) push(a, x); for (int i = 0; i < nb; ++i) push(b, y); a.swap(b); x.swap(y); push(a, x); drain(a, x); drain(b, y); break; }
        case 1: { G a, b; model x, y; for (int i = 0; i < na; ++i) push(a, x); for (int i = 0; i < nb; ++i) push(b, y); std::swap(a, b); x.swap(y); push(a, x); drain(a, x); drain(b, y); break; }
        case 2: { M a, b; model x, y; for (int i = 0; i < na; ++i) push(a, x); for (int i = 0; i < nb; ++i) push(b, y); a.swap(b); x.swap(y); push(a, x); CHECK(a.internal() != a.external()); drain(a, x); drain(b, y); break; }
        case 3: { std::stack<E2> a; model x; for (int i = 0; i < na; ++i) push(a, x); N c(a); for (int i = 0; i < nb; ++i) push(c, x); drain(c, x); break; }
        case 5: { N b; swap_inner(b, new N, na, nb); break; }
        case 6: { G b; swap_inner(b, new G, na, nb); break; }
        case 7: { M b; swap_inner(b, new M, na, nb); break; }
        case 8: { typedef GEN(external, grow_shrink2, 1, 7, striping) P; stxxl::read_write_pool<P::block_type> p1(1, 1), p2(1, 2); P b(p1, 1); swap_inner(b, new P(p2, 0), na, nb); break; }
        case 4: { std::stack<E2> a; model x; for (int i = 0; i < na; ++i) push(a, x); G c(a); for (int i = 0; i < nb; ++i) push(c, x); drain(c, x); break; }
        }
        vp_cover("end");
    }
    HX_NOLEAK();
}
