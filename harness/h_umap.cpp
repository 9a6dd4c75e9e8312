// External hash map against an association-list model.
#include "hx.h"
#include <stxxl/unordered_map>
struct D { uint32_t v; unsigned char pad[1004]; D() { v = 0xd0d0d0d0u; pad[0] = 0; } D(uint32_t x) : v(x) { pad[0] = (unsigned char)(x * 5 + 3); pad[1003] = (unsigned char)(x ^ 0x3c); } bool ok() const { return (pad[0] == (unsigned char)(v * 5 + 3)) & (pad[1003] == (unsigned char)(v ^ 0x3c)); } };
typedef uint32_t K;
// four hash classes, one of them with the largest hash value; keys of one class collide
struct H { size_t operator () (K k) const { return (k & 3) == 0 ? 0 : (k & 3) == 1 ? 0x4000000000000000ull : (k & 3) == 2 ? 0x9000000000000000ull : ~0ull; } };
struct C { bool operator () (K a, K b) const { return a < b; } K min_value() const { return 0; } K max_value() const { return 0xffffffffu; } };
typedef stxxl::unordered_map<K, D, H, C, 4096, 2> M; // 4 values per subblock, 8 per block
typedef M::value_type VT;
struct model {
    std::vector<uint32_t> k, v;
    int find(uint32_t x) const { for (size_t i = 0; i < k.size(); ++i) if (k[i] == x) return i; return -1; }
    void put(uint32_t x, uint32_t y) { int i = find(x); if (i < 0) { k.push_back(x); v.push_back(y); } else v[i] = y; }
    int del(uint32_t x) { int i = find(x); if (i < 0) return 0; k.erase(k.begin() + i); v.erase(v.begin() + i); return 1; }
};
static void at(M& t, const model& m, M::iterator it, uint32_t x) { int i = m.find(x); if (i < 0) CHECKM(it == t.end(), "a missing key is not found"); else { CHECKM(it != t.end(), "a stored key is found"); CHECKM((*it).first == x, "iterator designates the key"); CHECKM((*it).second.v == m.v[i], "iterator designates the stored value"); CHECK((*it).second.ok()); } }
static void cat(const M& t, const model& m, M::const_iterator it, uint32_t x) { int i = m.find(x); if (i < 0) CHECKM(it == t.end(), "a missing key is not found (const)"); else { CHECKM(it != t.end(), "a stored key is found (const)"); CHECKM((*it).first == x, "const iterator designates the key"); CHECKM((*it).second.v == m.v[i], "const iterator designates the stored value"); } }
static void same(M& t, const model& m, int how) {
    std::vector<char> seen(m.k.size(), 0); size_t n = 0;
    if (how & 1) { const M& c = t; for (M::const_iterator i = c.begin(); i != c.end(); ++i, ++n) { int j = m.find((*i).first); CHECKM(j >= 0, "const iteration delivers stored keys only"); CHECKM(!seen[j], "const iteration delivers no key twice"); seen[j] = 1; CHECKM((*i).second.v == m.v[j], "const iteration delivers stored values"); } }
    else for (M::iterator i = t.begin(); i != t.end(); ++i, ++n) { int j = m.find((*i).first); CHECKM(j >= 0, "iteration delivers stored keys only"); CHECKM(!seen[j], "iteration delivers no key twice"); seen[j] = 1; CHECKM((*i).second.v == m.v[j], "iteration delivers stored values"); CHECK((*i).second.ok()); }
    CHECKM(n == m.k.size(), "iteration delivers every element"); CHECKM(t.size() == m.k.size(), "size() counts the stored keys"); CHECK(t.empty() == m.k.empty());
}
static void oneop(M& t, model& m, int op) {
    uint32_t x = vp_u32("k"); vp_assume(x != 0xffffffffu); if (vp_param(9, 0)) vp_assume((x & 3) == 1); uint32_t y = op == 2 || op == 3 || op == 4 ? 0 : vp_u32("v");
    if (op == 0) { int i = m.find(x); std::pair<M::iterator, bool> r = t.insert(VT(x, D(y))); CHECKM(r.second == (i < 0), "insert reports whether the key was new"); if (i < 0) m.put(x, y); at(t, m, r.first, x); }
    else if (op == 1) { M::iterator r = t.insert_oblivious(VT(x, D(y))); m.put(x, y); at(t, m, r, x); }
    else if (op == 2) { at(t, m, t.find(x), x); }
    else if (op == 3) { const M& c = t; cat(t, m, c.find(x), x); CHECK(c.count(x) == (m.find(x) >= 0 ? 1u : 0u)); }
    else if (op == 4) { size_t r = t.erase(x); CHECKM(r == (size_t)m.del(x), "erase(key) reports how many were removed"); }
    else if (op == 5) { t.erase_oblivious(x); m.del(x); }
    else if (op == 6) { t[x] = D(y); m.put(x, y); }
    else if (op == 7) { M::iterator it = t.find(x); if (m.find(x) < 0) vp_assume(0); t.erase(it); m.del(x); }
    else if (op == 8) { M::iterator it = t.find(x); if (m.find(x) < 0) vp_assume(0); (*it).second = D(y); m.put(x, y); t.rehash(vp_choice("n", 3) * 2 + 1); at(t, m, it, x); }
    else if (op == 9) { // an iterator kept across other operations
        if (m.k.empty()) vp_assume(0); uint32_t w = m.k[vp_choice("pos", m.k.size())]; vp_assume(w != x); bool cf = vp_choice("constfind", 2); M::iterator it = cf ? t.begin() : t.find(w); if (cf) while ((*it).first != w) ++it;
        int a = vp_choice("mod", 4); if (a == 0) { if (m.find(x) < 0) m.put(x, y); t.insert(VT(x, D(y))); } else if (a == 1) { t.insert_oblivious(VT(x, D(y))); m.put(x, y); } else if (a == 2) { t.erase(x); m.del(x); } else { t.find(x); }
        at(t, m, it, w); (*it).second = D(y + 1); m.put(w, y + 1); }
    else if (op == 10) { const M& c = t; std::pair<M::iterator, M::iterator> r = t.equal_range(x); at(t, m, r.first, x); std::pair<M::const_iterator, M::const_iterator> q = c.equal_range(x); cat(t, m, q.first, x); }
    else if (op == 11) { t.clear(); m.k.clear(); m.v.clear(); CHECK(t.begin() == t.end()); t.insert(VT(x, D(y))); m.put(x, y); }
    else if (op == 12) { t.opt_load_factor(0.5f); t.max_buffer_size(2 * (sizeof(VT) + 8)); if (m.find(x) < 0) m.put(x, y); t.insert(VT(x, D(y))); }
}
// n keys: first part written to disk, the rest stays in the buffer; some of either part deleted again
static M* build(model& m, int n, int buf, int shape) {
    M* t = new M(shape & 1 ? 3 : 0); t->max_buffer_size((sizeof(VT) + 8) * 1000); int ext = shape & 4 ? n : n * 2 / 3;
    for (int i = 0; i < n; ++i) { uint32_t k = (shape & 8 ? i * 4 + 1 : i) * 10 + (shape & 8 ? 0 : i % 4) + 100; k = shape & 8 ? (k & ~3u) + 1 : k; t->insert(VT(k, D(i))); m.put(k, i); if (i + 1 == ext) t->rehash(shape & 2 ? 2 : 1); }
    if (n > 3) for (int i = n - 1; i >= 0; i -= 3) { uint32_t k = m.k[i]; CHECK(t->erase(k) == 1); m.del(k); }
    if (shape & 2 && m.k.size() > 1) { uint32_t k = m.k[1]; t->insert_oblivious(VT(k, D(77))); m.put(k, 77); }
    t->max_buffer_size((sizeof(VT) + 8) * buf); return t;
}
// params: n, buffered nodes, shape, len, first op
VP_HARNESS(umap_ops) {
    hx_disks(1); stxxl::hash_map::tuning::get_instance()->blockcache_size = 4; stxxl::hash_map::tuning::get_instance()->prefetch_page_size = 1;
    { model m; M* t = build(m, vp_param(0, 6), vp_param(1, 4), vp_param(2, 0)); int len = vp_param(3, 1);
      for (int s = 0; s < len; ++s) oneop(*t, m, s == 0 && vp_param(4, 99) != 99 ? (int)vp_param(4, 0) : (int)vp_choice("op", 13));
      vp_cover("end"); same(*t, m, vp_param(5, 0)); if (vp_param(6, 0)) { t->rehash(1); same(*t, m, 1); }
      delete t; }
    HX_NOLEAK();
}
VP_HARNESS(umap_empty) { // lookups and removals on a map that never held anything, or that became empty
    hx_disks(1); stxxl::hash_map::tuning::get_instance()->blockcache_size = 4;
    { model m; M* t = new M(vp_choice("n", 2)); uint32_t x = vp_u32("x"); if (vp_choice("was", 2)) { t->insert(VT(5, D(1))); t->erase(5); if (vp_choice("re", 2)) t->rehash(0); }
      int op = vp_choice("op", 6); oneop(*t, m, op == 5 ? 6 : op == 0 ? 1 : op); vp_cover("end"); same(*t, m, 0); delete t; }
    HX_NOLEAK();
}
// bulk insertion into a map that holds values on disk and in the buffer; swap
VP_HARNESS(umap_bulk) {
    hx_disks(1); stxxl::hash_map::tuning::get_instance()->blockcache_size = 4;
    { model m; M* t = build(m, vp_param(0, 6), 4, vp_param(1, 0)); std::vector<std::pair<K, D> > a; int n = vp_param(2, 3); vp_u64 mask = vp_param(3, 1);
      for (int i = 0; i < n; ++i) { uint32_t x = 100 + 7 * i, y = vp_u32("v"); if ((mask >> i) & 1) { x = vp_u32("k"); vp_assume(x != 0xffffffffu); } for (int j = 0; j < i; ++j) vp_assume(x != a[j].first); a.push_back(std::make_pair(x, D(y))); }
      for (int i = 0; i < n; ++i) m.put(a[i].first, a[i].second.v);
      M::iterator it = t->end(); uint32_t w = 0; if (!m.k.empty() && vp_param(0, 6)) { w = m.k[0]; it = t->find(w); }
      t->insert(a.begin(), a.end(), 32 * 1024 * 1024); vp_cover("end"); if (w) at(*t, m, it, w); same(*t, m, 0); oneop(*t, m, vp_param(4, 4)); same(*t, m, 1); delete t; }
    HX_NOLEAK();
}
VP_HARNESS(umap_swap) {
    hx_disks(1); stxxl::hash_map::tuning::get_instance()->blockcache_size = 4;
    { model m, n; M* t = build(m, 6, 8, 1); M* u = build(n, vp_choice("n", 2) * 3, 8, 0); uint32_t w = m.k[0]; M::iterator it = t->find(w); t->swap(*u); m.k.swap(n.k); m.v.swap(n.v); CHECKM((*it).first == w, "iterators follow swapped contents"); oneop(*t, m, vp_choice("op", 7)); oneop(*u, n, 4); vp_cover("end"); same(*t, m, 0); same(*u, n, 1); delete t; same(*u, n, 0); delete u; }
    HX_NOLEAK();
}
// exchange of two maps while iterators are alive, some of them in the middle of a traversal of external memory
static int rest(M& t, const model& m, M::iterator i, std::vector<uint32_t>& got) { int n = 0; for (; i != t.end(); ++i, ++n) { uint32_t k = (*i).first; int j = m.find(k); CHECKM(j >= 0, "the traversal delivers stored keys"); CHECKM((*i).second.v == m.v[j], "the traversal delivers stored values"); got.push_back(k); if (n > 40) vp_fail("the traversal does not end"); } return n; }
VP_HARNESS(umap_two) {
    hx_disks(1); stxxl::hash_map::tuning::get_instance()->blockcache_size = 4; stxxl::hash_map::tuning::get_instance()->prefetch_page_size = 1;
    { model m, n; M* t = build(m, vp_param(0, 6), 8, vp_param(1, 1)); M* u = build(n, vp_param(2, 3), 8, vp_param(3, 0)); int adv = (int)vp_choice("advance", 3), read = (int)vp_choice("read", 2);
      { std::vector<uint32_t> all, a, b; M::iterator it = t->begin(), e = t->end(); for (int i = 0; i < adv; ++i) { if (it == t->end()) vp_assume(0); ++it; } if (it == t->end()) vp_assume(0); if (read) { std::vector<uint32_t> x; rest(*t, m, it, x); } rest(*t, m, it, all); uint32_t w = (*it).first; M::iterator jt = u->begin(); uint32_t z = 0; if (jt != u->end()) z = (*jt).first; M::const_iterator ct = it; M::iterator kt = t->find(w);
        if (vp_choice("std", 2)) std::swap(*t, *u); else t->swap(*u); m.k.swap(n.k); m.v.swap(n.v);
        at(*u, n, it, w); CHECKM(it == u->find(w) && kt == it && e == u->end(), "iterators follow the exchanged contents"); cat(*u, n, ct, w); if (z) { at(*t, m, jt, z); CHECK(jt == t->begin()); } (*it).second = D(9); n.put(w, 9);
        uint32_t x = vp_u32("k"); vp_assume(x != 0xffffffffu && x != w); bool mod = vp_choice("mod", 2); if (mod) { u->erase(x); n.del(x); } at(*u, n, it, w); at(*u, n, kt, w);
        if (all.size() > 1 && vp_choice("later", 2)) { uint32_t l = all.back(); vp_assume(l != x); (*u->find(l)).second = D(8); n.put(l, 8); }
        if (vp_choice("early", 2)) { same(*t, m, 1); delete t; t = 0; }
        ++it; rest(*u, n, it, a); if (!mod) { CHECKM(a.size() + 1 == all.size(), "the traversal continues where it was"); for (size_t i = 0; i < a.size(); ++i) CHECK(a[i] == all[i + 1]); } it = kt; at(*u, n, it, w); }
      vp_cover("end"); if (t) same(*t, m, 0); same(*u, n, 1); CHECK(!u->bucket_count() || u->bucket(7) < u->bucket_count()); if (t && vp_choice("first", 2)) { delete t; t = 0; same(*u, n, 0); } delete u; if (t) { same(*t, m, 0); delete t; } }
    HX_NOLEAK();
}
