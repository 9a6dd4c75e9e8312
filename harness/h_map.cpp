// B+-tree map against a sorted-vector model: pre-states of every shape, then operations with free keys.
#include "hx.h"
#include <stxxl/map>
struct K : elem<512> { K() { key = 0xdeadbee0u; } K(uint32_t k) : elem<512>(k) {} }; // fan-out 7 (6 + overflow slot); defined initial value: the leaf compares with the slot behind its last element and discards the result
struct D { uint32_t v; unsigned char pad[284]; D() { v = 0; } D(uint32_t x) : v(x) { pad[0] = (unsigned char)(x * 5 + 3); pad[283] = (unsigned char)(x ^ 0x3c); } bool ok() const { return (pad[0] == (unsigned char)(v * 5 + 3)) & (pad[283] == (unsigned char)(v ^ 0x3c)); } };
template <class O> O& operator << (O& o, const D& d) { return o << d.v, o; }
typedef cmp_less<K> C;
typedef stxxl::map<K, D, C, 4096, 4096> M; // leaf: 4 + overflow slot
typedef M::value_type VT;
struct model {
    std::vector<uint32_t> k, v;
    int lower(uint32_t x) const { size_t i = 0; while (i < k.size() && k[i] < x) ++i; return (int)i; }
    bool has(int i, uint32_t x) const { return i < (int)k.size() && k[i] == x; }
    void ins(int i, uint32_t x, uint32_t y) { k.insert(k.begin() + i, x); v.insert(v.begin() + i, y); }
    void del(int i) { k.erase(k.begin() + i); v.erase(v.begin() + i); }
};
static void same(M& t, const model& m, int how) { // compare the whole content
    CHECKM(t.size() == m.k.size(), "size() counts the stored keys"); CHECK(t.empty() == m.k.empty());
    if (how == 0) { size_t n = 0; int ok = 1; for (M::iterator i = t.begin(); i != t.end(); ++i, ++n) { if (n >= m.k.size()) vp_fail("iteration delivers more elements than stored"); ok &= (*i).first.key == m.k[n]; ok &= (*i).first.ok(); ok &= (*i).second.v == m.v[n]; ok &= (*i).second.ok(); } CHECKM(n == m.k.size(), "iteration delivers every element"); CHECKM(ok, "iteration delivers the stored pairs in ascending key order"); }
    else if (how == 1) { const M& c = t; size_t n = 0; int ok = 1; for (M::const_iterator i = c.begin(); i != c.end(); ++i, ++n) { if (n >= m.k.size()) vp_fail("const iteration delivers more elements than stored"); ok &= ((*i).first.key == m.k[n]) & ((*i).second.v == m.v[n]); } CHECKM(n == m.k.size(), "const iteration delivers every element"); CHECKM(ok, "const iteration in ascending key order"); }
    else { size_t n = m.k.size(); int ok = 1; for (M::reverse_iterator i = t.rbegin(); i != t.rend(); ++i) { if (!n) vp_fail("reverse iteration delivers more elements than stored"); --n; ok &= ((*i).first.key == m.k[n]) & ((*i).second.v == m.v[n]); } CHECKM(n == 0, "reverse iteration delivers every element"); CHECKM(ok, "reverse iteration in descending key order"); }
}
// is the iterator at model position i?
static void at(M& t, const model& m, M::iterator it, int i) { if (i >= (int)m.k.size()) { CHECKM(it == t.end(), "iterator is end()"); return; } CHECKM(it != t.end(), "iterator designates an element"); CHECKM((*it).first.key == m.k[i], "iterator designates the right key"); CHECKM((*it).second.v == m.v[i], "iterator designates the right value"); }
static void cat(const M& t, const model& m, M::const_iterator it, int i) { if (i >= (int)m.k.size()) { CHECKM(it == t.end(), "const iterator is end()"); return; } CHECKM(it != t.end(), "const iterator designates an element"); CHECKM((*it).first.key == m.k[i], "const iterator designates the right key"); CHECKM((*it).second.v == m.v[i], "const iterator designates the right value"); }
static void oneop(M& t, model& m, int op) {
    uint32_t x = vp_u32("k"); vp_assume(x != 0xffffffffu); K key(x);
    if (op == 0) { uint32_t y = vp_u32("v"); std::pair<M::iterator, bool> r = t.insert(VT(key, D(y))); int i = m.lower(x); bool had = m.has(i, x); CHECKM(r.second == !had, "insert reports whether the key was new"); if (!had) m.ins(i, x, y); at(t, m, r.first, i); }
    else if (op == 1) { size_t r = t.erase(key); int i = m.lower(x); bool had = m.has(i, x); CHECKM(r == (had ? 1u : 0u), "erase(key) reports how many were removed"); if (had) m.del(i); }
    else if (op == 2) { M::iterator it = t.find(key); const M& c = t; M::const_iterator ct = c.find(key); int i = m.lower(x); if (!m.has(i, x)) i = m.k.size(); at(t, m, it, i); cat(t, m, ct, i); CHECK(t.count(key) == (i < (int)m.k.size() ? 1u : 0u)); }
    else if (op == 3) { M::iterator it = t.lower_bound(key); const M& c = t; M::const_iterator ct = c.lower_bound(key); int i = m.lower(x); at(t, m, it, i); cat(t, m, ct, i); M::iterator u = t.upper_bound(key); M::const_iterator cu = c.upper_bound(key); int j = i + m.has(i, x); at(t, m, u, j); cat(t, m, cu, j); std::pair<M::iterator, M::iterator> e = t.equal_range(key); at(t, m, e.first, i); at(t, m, e.second, j); }
    else if (op == 4) { uint32_t y = vp_u32("v"); t[key] = D(y); int i = m.lower(x); if (m.has(i, x)) m.v[i] = y; else m.ins(i, x, y); }
    else if (op == 5) { M::iterator it = t.lower_bound(key); int i = m.lower(x); if (i >= (int)m.k.size()) vp_assume(0); t.erase(it); m.del(i); }
    else if (op == 6) { M::iterator h = t.lower_bound(key); uint32_t y = vp_u32("v"); M::iterator r = t.insert(h, VT(key, D(y))); int i = m.lower(x); if (!m.has(i, x)) m.ins(i, x, y); at(t, m, r, i); }
    else if (op == 7) { M::iterator it = t.lower_bound(key); int i = m.lower(x); uint32_t y = vp_u32("v"); if (i >= (int)m.k.size()) vp_assume(0); (*it).second = D(y); m.v[i] = y; ++it; at(t, m, it, i + 1); --it; at(t, m, it, i); if (i > 0) { --it; at(t, m, it, i - 1); it++; at(t, m, it, i); } }
    else if (op == 8) { uint32_t x2 = vp_u32("k2"); vp_assume(x2 != 0xffffffffu && x2 >= x); M::iterator a = t.lower_bound(key), b = t.lower_bound(K(x2)); int i = m.lower(x), j = m.lower(x2); t.erase(a, b); while (j > i) m.del(--j); }
    else if (op == 9) { // an iterator kept across a modification of another element
        uint32_t x2 = vp_u32("k2"); vp_assume(x2 != 0xffffffffu); uint32_t y = vp_u32("v"); if (m.k.empty()) vp_assume(0); int i = vp_choice("pos", (m.k.size() + 2) / 3) * 3; M::iterator it = t.find(K(m.k[i])); uint32_t w = m.k[i]; vp_assume(w != x2);
        if (vp_choice("mod", 2)) { t.insert(VT(K(x2), D(y))); int j = m.lower(x2); if (!m.has(j, x2)) m.ins(j, x2, y); } else { t.erase(K(x2)); int j = m.lower(x2); if (m.has(j, x2)) m.del(j); }
        at(t, m, it, m.lower(w)); }
}
// pre-state: n keys 1000*(i+1), built in the given way
static M* build(model& m, int how, int n, int cache) {
    for (int i = 0; i < n; ++i) { m.k.push_back(1000 * (i + 1)); m.v.push_back(i * 3 + 7); }
    if (how == 3 || how == 4) { std::vector<VT> a; for (int i = 0; i < n; ++i) a.push_back(VT(K(m.k[i]), D(m.v[i]))); double f = how == 3 ? 1.0 : 0.5; return new M(a.begin(), a.end(), 4096 * cache, 4096 * cache, true, f, f); }
    if (how == 5) { std::vector<VT> a; for (int i = n - 1; i >= 0; --i) a.push_back(VT(K(m.k[i]), D(m.v[i]))); return new M(a.begin(), a.end(), 4096 * cache, 4096 * cache); }
    M* t = new M((stxxl::unsigned_type)4096 * cache, (stxxl::unsigned_type)4096 * cache);
    for (int i = 0; i < n; ++i) { int j = how == 0 ? i : how == 1 ? n - 1 - i : (i * 7 + 3) % n; CHECK(t->insert(VT(K(m.k[j]), D(m.v[j]))).second); }
    return t;
}
// params: how, n, cache, len, first op
VP_HARNESS(map_ops) {
    hx_disks(1);
    { model m; M* t = build(m, vp_param(0, 0), vp_param(1, 10), vp_param(2, 4)); int len = vp_param(3, 2);
      for (int s = 0; s < len; ++s) oneop(*t, m, s == 0 && vp_param(4, 99) != 99 ? (int)vp_param(4, 0) : (int)vp_choice("op", 10));
      vp_cover("end"); same(*t, m, 0); if (vp_param(5, 0)) { same(*t, m, 1); same(*t, m, 2); }
      delete t; }
    HX_NOLEAK();
}
// all keys free
VP_HARNESS(map_free) {
    hx_disks(1);
    { model m; M* t = new M((stxxl::unsigned_type)4096 * 4, (stxxl::unsigned_type)4096 * 4); int n = vp_param(0, 3); for (int s = 0; s < n; ++s) oneop(*t, m, 0); oneop(*t, m, 1); vp_cover("end"); same(*t, m, 0); delete t; }
    HX_NOLEAK();
}
// shrink from n keys to few: erase positions chosen by stride, then one free operation
VP_HARNESS(map_shrink) {
    hx_disks(2);
    { model m; int n = vp_param(1, 40); M* t = build(m, vp_param(0, 0), n, (int)vp_param(4, 5)); int dir = vp_param(2, 0), keep = vp_choice("keep", vp_param(3, 8)); 
      while ((int)m.k.size() > keep) { int i = dir == 0 ? 0 : dir == 1 ? m.k.size() - 1 : (m.k.size() * 5 + 2) / 7 % m.k.size(); CHECK(t->erase(K(m.k[i])) == 1); m.del(i); CHECK(t->size() == m.k.size()); }
      same(*t, m, 0); oneop(*t, m, vp_choice("op", 6)); vp_cover("end"); same(*t, m, 2); if (vp_choice("clear", 2)) { t->clear(); m.k.clear(); m.v.clear(); same(*t, m, 0); oneop(*t, m, 0); same(*t, m, 1); } delete t; }
    HX_NOLEAK();
}
// grow, thin out, refill between the remaining keys, thin out again: nodes split, fuse and balance at every level; then free operations. params: how, n, strides of the erasures and insertions, cache
VP_HARNESS(map_churn) {
    hx_disks(2);
    { model m; int n = (int)vp_param(1, 60), a = (int)vp_param(2, 7), b = (int)vp_param(3, 11); M* t = build(m, (int)vp_param(0, 0), n, (int)vp_param(4, 4)); int frac = 2 + (int)vp_choice("frac", 3);
      for (int r = 0; r < 2; ++r) {
          for (int i = 0; i < n; ++i) { int j = (i * a + r) % n; if (j % frac == 0) continue; uint32_t k = 1000 * (j + 1) + r * 300; int p = m.lower(k); bool had = m.has(p, k); CHECKM(t->erase(K(k)) == (had ? 1u : 0u), "erase(key) reports how many were removed"); if (had) m.del(p); } same(*t, m, r ? 2 : 0);
          for (int i = 0; i < n; ++i) { int j = (i * b + 2) % n; uint32_t k = 1000 * (j + 1) + 300; int p = m.lower(k); bool had = m.has(p, k); CHECKM(t->insert(VT(K(k), D(j))).second == !had, "insert reports whether the key was new"); if (!had) m.ins(p, k, j); } same(*t, m, r ? 0 : 1); }
      uint32_t x = vp_u32("k"); vp_assume(x != 0xffffffffu && x > 1000u * (n - 3)); int p = m.lower(x); bool had = m.has(p, x);
      if (vp_choice("op", 2)) { CHECKM(t->erase(K(x)) == (had ? 1u : 0u), "erase(key) reports how many were removed"); if (had) m.del(p); } else { CHECKM(t->insert(VT(K(x), D(5))).second == !had, "insert reports whether the key was new"); if (!had) m.ins(p, x, 5); }
      vp_cover("end"); same(*t, m, 0); delete t; }
    HX_NOLEAK();
}
VP_HARNESS(map_misc) { // swap-free helpers: prefetching toggles, bulk insert, iteration with updates
    hx_disks(1);
    { model m; M* t = build(m, vp_param(0, 3), vp_param(1, 14), 4); if (vp_choice("pf", 2)) t->disable_prefetching(); else t->enable_prefetching();
      size_t n = 0; for (M::iterator i = t->begin(); i != t->end(); ++i, ++n) { uint32_t y = vp_u32("y"); (*i).second = D(y); m.v[n] = y; }
      std::vector<VT> a; uint32_t x = vp_u32("k"), y = vp_u32("v"); vp_assume(x != 0xffffffffu); a.push_back(VT(K(x), D(y))); a.push_back(VT(K(5500), D(1))); t->insert(a.begin(), a.end());
      int i = m.lower(x); if (!m.has(i, x)) m.ins(i, x, y); i = m.lower(5500); if (!m.has(i, 5500)) m.ins(i, 5500, 1); vp_cover("end"); same(*t, m, 0); same(*t, m, 1); same(*t, m, 2); delete t; }
    HX_NOLEAK();
}
// two maps: comparison, exchange of contents with iterators alive on both, then further operations on both

namespace std { static bool operator == (const VT& a, const VT& b) { return (a.first.key == b.first.key) & (a.second.v == b.second.v); } static bool operator < (const VT& a, const VT& b) { return a.first.key < b.first.key || (a.first.key == b.first.key && a.second.v < b.second.v); } }
static int mcmp(const model& a, const model& b) { for (size_t i = 0; i < a.k.size() && i < b.k.size(); ++i) { if (a.k[i] != b.k[i]) return a.k[i] < b.k[i] ? -1 : 1; if (a.v[i] != b.v[i]) return a.v[i] < b.v[i] ? -1 : 1; } return a.k.size() < b.k.size() ? -1 : a.k.size() > b.k.size(); }
static void mcompare(const M& t, const model& m, const M& u, const model& l) { int c = mcmp(m, l); CHECKM((t == u) == (c == 0) && (t != u) == (c != 0), "maps are equal exactly if they hold the same pairs"); CHECKM((t < u) == (c < 0) && (t > u) == (c > 0) && (t <= u) == (c <= 0) && (t >= u) == (c >= 0), "maps are ordered lexicographically"); }
VP_HARNESS(map_two) {
    hx_disks(1);
    {
        static const int N[] = { 0, 3, 9, 20 }; model m, l; int n1 = N[vp_param(0, 1)], n2 = N[vp_param(1, 1)], lo = (int)vp_param(2, 0); M* t = build(m, 0, n1, 4); M* u = build(l, 2, n2, 5);
        for (int r = 0; r < (lo && n2 ? 1 : 2); ++r) { uint32_t x = vp_u32("k"), y = vp_u32("v"); vp_assume(x != 0xffffffffu); if (lo) vp_assume(x < 1000); M* w = r ? u : t; model& q = r ? l : m; (*w)[K(x)] = D(y); int i = q.lower(x); if (q.has(i, x)) q.v[i] = y; else q.ins(i, x, y); }
        mcompare(*t, m, *u, l); CHECK(t->key_comp()(K(1), K(2)) && !t->key_comp()(K(2), K(1))); CHECK(t->value_comp()(VT(K(1), D(5)), VT(K(2), D(3))) && !t->value_comp()(VT(K(2), D(1)), VT(K(1), D(7))));
        { int i = (int)m.k.size() / 2, j = (int)l.k.size() - 1; M::iterator a = t->begin(), b, e = t->end(), z; for (int s = 0; s < i; ++s) a++; b = u->find(K(l.k[j])); M::iterator f = u->end(); M::const_iterator cb = b; z = a; CHECK(z == a && a == z); if (i > 0) { z--; CHECK(z != a); ++z; CHECK(z == a); }
          if (vp_choice("std", 2)) std::swap(*t, *u); else t->swap(*u); std::swap(m, l);
          at(*u, l, a, i); at(*u, l, z, i); at(*t, m, b, j); cat(*t, m, cb, j); CHECKM(e == u->end() && f == t->end(), "end iterators follow the contents"); a->second = D(77); l.v[i] = 77; at(*u, l, z, i);
          if (vp_choice("more", 2)) { uint32_t x = vp_u32("k3"); uint32_t w = l.k[i], w2 = m.k[j]; vp_assume(x != 0xffffffffu && x != w && x != w2); if (lo) vp_assume(x > 1000 && x < 3000); t->insert(VT(K(x), D(4))); int p = m.lower(x); if (!m.has(p, x)) m.ins(p, x, 4); if (lo) { x = l.k[0]; vp_assume(x != w); } u->erase(K(x)); p = l.lower(x); if (l.has(p, x)) l.del(p); at(*u, l, a, l.lower(w)); at(*u, l, z, l.lower(w)); at(*t, m, b, m.lower(w2)); cat(*t, m, cb, m.lower(w2)); } }
        mcompare(*t, m, *u, l); if (lo) oneop(*t, m, (int)vp_choice("op", 2)); same(*t, m, 0); same(*u, l, 1); CHECK((t->crend() == t->crbegin()) == m.k.empty()); CHECK(t->cbegin() == ((const M*)t)->begin() && t->cend() == ((const M*)t)->end());
        vp_cover("end"); if (vp_choice("first", 2)) { delete t; same(*u, l, 2); delete u; } else { u->clear(); delete u; same(*t, m, 2); delete t; }
    }
    HX_NOLEAK();
}
