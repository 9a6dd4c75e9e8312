// priority_queue: whatever is pushed comes out exactly once, smallest first.
#include "hx.h"
#include <stxxl/priority_queue>
typedef tagged<1024> T; // four per block
typedef cmp_greater<T> C;
template <class T> struct C2 { bool operator () (const T& a, const T& b) const { return a.key > b.key; } static T min_value() { return T(0xffffffffu, 0); } };
typedef C2<T> CT;
struct model {
    std::vector<uint32_t> key; std::vector<char> live; size_t n; model() : n(0) {}
    unsigned add(uint32_t k) { key.push_back(k); live.push_back(1); ++n; return key.size() - 1; }
    void take(const T& t) { // t must be a live element and minimal
        uint32_t g = (uint32_t)vp_concretize(t.tag); CHECKM(g < key.size(), "only elements that were pushed come out"); CHECKM(live[g], "no element comes out twice"); CHECKM(t.key == key[g], "key unchanged"); CHECKM(t.ok(), "payload unchanged");
        int ok = 1; for (size_t i = 0; i < key.size(); ++i) if (live[i]) ok &= key[i] >= t.key; CHECKM(ok, "the top element is the smallest of those contained"); --live[g]; --n;
    }
};
// keys: those of the symbolic set are free, the others a fixed scattered sequence
static uint32_t nextkey(unsigned i, vp_u64 mask) { if ((mask >> i) & 1) { uint32_t k = vp_u32("key"); vp_assume(k != 0xffffffffu); return k; } return ((i * 11 + 5) % 32) * 1000 + 500; }
template <class Q> static void push(Q& q, model& m, unsigned& i, vp_u64 mask, int n) { for (int j = 0; j < n; ++j, ++i) { uint32_t k = nextkey(i, mask); q.push(T(k, m.add(k))); CHECK(q.size() == m.n); } }
template <class Q> static void pop(Q& q, model& m, int n) { for (int j = 0; j < n && m.n; ++j) { CHECK(q.size() == m.n); CHECK(!q.empty()); m.take(q.top()); q.pop(); } }
template <class Q> static void run(Q& q, int a, int b, int c, vp_u64 mask) {
    model m; unsigned i = 0; push(q, m, i, mask, a); pop(q, m, b); push(q, m, i, mask, c); pop(q, m, 1); push(q, m, i, mask, 2); vp_cover("filled"); pop(q, m, 1000); CHECK(q.empty()); CHECK(q.size() == 0); vp_cover("end");
}
//                          delete buffer, N, int arity, int groups, block, ext arity, ext groups
typedef stxxl::priority_queue<stxxl::priority_queue_config<T, CT, 2, 3, 4, 1, 4096, 2, 2> > Q1;
typedef stxxl::priority_queue<stxxl::priority_queue_config<T, CT, 2, 2, 4, 2, 4096, 2, 1> > Q2;
typedef stxxl::priority_queue<stxxl::priority_queue_config<T, CT, 1, 4, 4, 1, 4096, 4, 2> > Q3;
template <class Q> static void go(int a, int b, int c, vp_u64 mask, int pool) {
    hx_disks(2);
    { typename Q::pool_type p(pool ? 4 : 2, pool ? 6 : 3); size_t blocks = p.size_write() + p.size_prefetch(); { Q q(p); run(q, a, b, c, mask); } CHECKM(p.size_write() + p.size_prefetch() == blocks, "the queue gives the pool's blocks back"); }
    HX_NOLEAK();
}
VP_HARNESS(pq_prog) {
    int a = vp_param(1, 12), b = vp_param(2, 5), c = vp_param(3, 8); vp_u64 mask = vp_param(4, 0);
    if (vp_param(5, 0)) { a = 1 + vp_choice("a", vp_param(1, 24)); b = vp_choice("b", a + 1); c = vp_choice("c", vp_param(3, 6)); }
    switch (vp_param(0, 0)) { case 0: go<Q1>(a, b, c, mask, 0); break; case 1: go<Q2>(a, b, c, mask, 1); break; default: go<Q3>(a, b, c, mask, 0); }
}
// the argument of push() may be the top element itself; params: operations, symbolic keys
VP_HARNESS(pq_dup) {
    hx_disks(1);
    { Q1::pool_type p(2, 3); Q1 q(p); model m; unsigned i = 0; push(q, m, i, vp_param(1, 3), 1 + (int)vp_choice("fill", 4)); int len = (int)vp_param(0, 5);
      for (int s = 0; s < len; ++s) { int op = s == 0 && vp_param(2, 99) != 99 ? (int)vp_param(2, 0) : (int)vp_choice("op", 4); if (op == 0) push(q, m, i, vp_param(1, 3), 1); else if (op == 1) { if (m.n < 2) vp_assume(0); pop(q, m, 1); } else for (int j = 0; j < (op == 2 ? 1 : 3); ++j) { uint32_t g = (uint32_t)vp_concretize(q.top().tag); CHECK(g < m.live.size() && m.live[g]); q.push(q.top()); ++m.live[g]; ++m.n; CHECK(q.size() == m.n); } }
      vp_cover("filled"); pop(q, m, 1000); CHECK(q.empty()); }
    HX_NOLEAK(); vp_cover("end");
}
// single operations in any order, all keys free
VP_HARNESS(pq_any) {
    hx_disks(1);
    { Q1::pool_type p(2, 3); Q1 q(p); model m; int len = vp_param(0, 7); for (int s = 0; s < len; ++s) { if (!m.n || (s < (int)vp_param(2, 0) ? 0 : vp_choice("op", 2) == 0)) { unsigned i = m.key.size(); push(q, m, i, ~0ull, 1); } else pop(q, m, 1); } vp_cover("end"); pop(q, m, 1000); CHECK(q.empty()); }
    HX_NOLEAK();
}
