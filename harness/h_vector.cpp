#include "hx.h"
#include <stxxl/vector>
typedef elem<2048> E2; // two per block
struct M { std::vector<uint32_t> v; std::vector<char> k; void resize(size_t n) { v.resize(n); k.resize(n, 0); for (size_t i = 0; i < n; ++i) {} } void set(size_t i, uint32_t x) { v[i] = x; k[i] = 1; } };
template <class V> static void verify(V& v, M& m) {
    CHECK(v.size() == m.v.size()); CHECK(v.empty() == m.v.empty()); CHECK(v.capacity() >= v.size());
    const V& c = v; for (size_t i = 0; i < m.v.size(); ++i) if (m.k[i]) { const E2& e = c[i]; CHECKM(e.key == m.v[i], "element read back equals element written"); CHECKM(e.ok(), "payload intact"); vp_observe(e.key); }
}
// ---- any program of accesses, growth and shrinkage behaves like an in-memory array
template <class V> static void ops(int len, size_t n0, bool fill) {
    hx_disks(2);
    {
        V v(n0); M m; m.resize(n0); if (fill) for (size_t i = 0; i < n0; ++i) { uint32_t x = 1000 + i; v[i] = E2(x); m.set(i, x); }
        for (int s = 0; s < len; ++s) {
            int op = s == 0 && vp_param(4, 99) != 99 ? vp_param(4, 0) : vp_choice("op", 11); size_t n = m.v.size();
            switch (op) {
            case 0: case 1: case 2: { if (!n) return; size_t i = op == 0 ? 0 : op == 1 ? n / 2 : n - 1; uint32_t x = vp_u32("x"); v[i] = E2(x); m.set(i, x); break; }
            case 3: { uint32_t x = vp_u32("x"); v.push_back(E2(x)); m.resize(n + 1); m.set(n, x); break; }
            case 4: if (!n) return; v.pop_back(); m.v.pop_back(); m.k.pop_back(); break;
            case 5: { size_t t = n + 5; v.resize(t); m.resize(t); break; }
            case 6: { size_t t = n / 2; v.resize(t); m.resize(t); break; }
            case 7: { size_t t = n / 3; v.resize(t, true); m.resize(t); break; }
            case 8: v.flush(); break;
            case 9: { if (!n) return; const V& c = v; size_t i = n / 3; if (m.k[i]) CHECK(c[i].key == m.v[i]); break; }
            case 10: v.clear(); m.v.clear(); m.k.clear(); break;
            }
        }
        verify(v, m); vp_cover("end");
    }
    HX_NOLEAK();
}
VP_HARNESS(vec_ops) {
    typedef stxxl::VECTOR_GENERATOR<E2, 1, 2, 4096>::result V1; typedef stxxl::VECTOR_GENERATOR<E2, 2, 2, 4096, stxxl::SR>::result V2; typedef stxxl::VECTOR_GENERATOR<E2, 2, 2, 4096, stxxl::striping, stxxl::random>::result V3;
    int len = vp_param(1, 3), n = vp_param(2, 7); bool f = vp_param(3, 1);
    switch (vp_param(0, 0)) { case 0: ops<V1>(len, n, f); break; case 1: ops<V2>(len, n, f); break; default: ops<V3>(len, n, f); }
}
// ---- size changes: shrinking and growing in any order keeps every element below the smallest size intact
template <class V> static void resizes(int len) {
    hx_disks(1);
    {
        static const int sz[] = { 2, 6, 12, 20 };
        V v(20); M m; m.resize(20); for (int i = 0; i < 20; ++i) { v[i] = E2(500 + i); m.set(i, 500 + i); }
        for (int s = 0; s < len; ++s) {
            int op = s == 0 && vp_param(2, 99) != 99 ? vp_param(2, 0) : vp_choice("op", 10); size_t n = m.v.size();
            if (op < 8) { size_t t = sz[op / 2]; if (t == n) return; v.resize(t, op & 1); m.resize(t); }
            else if (op == 8) { v[n - 1] = E2(7000 + s); m.set(n - 1, 7000 + s); }
            else { v[0] = E2(8000 + s); m.set(0, 8000 + s); }
        }
        verify(v, m); vp_cover("end");
    }
    HX_NOLEAK();
}
VP_HARNESS(vec_resizes) {
    typedef stxxl::VECTOR_GENERATOR<E2, 1, 2, 4096>::result V1; typedef stxxl::VECTOR_GENERATOR<E2, 2, 3, 4096>::result V2;
    if (vp_param(0, 0)) resizes<V2>(vp_param(1, 4)); else resizes<V1>(vp_param(1, 4));
}
// ---- arbitrary index (symbolic), write then evict then read
VP_HARNESS(vec_index) {
    hx_disks(1);
    {
        typedef stxxl::VECTOR_GENERATOR<uint32_t, 1, 2, 4096>::result V; V v(3000); // three pages of 1024
        size_t i = vp_range("i", 0, 2999), j = vp_range("j", 0, 2999); vp_assume(((i & 1023) <= 1) | ((i & 1023) >= 1022)); vp_assume(((j & 1023) <= 1) | ((j & 1023) >= 1022)); uint32_t x = vp_u32("x"), y = vp_u32("y");
        v[5] = 1; v[1030] = 2; v[2050] = 3; vp_assume((i != 5) & (i != 1030) & (i != 2050) & (j != 5) & (j != 1030) & (j != 2050));
        v[i] = x; v[j] = y; CHECK(v[5] == 1); CHECK(v[1030] == 2); CHECK(v[2050] == 3);
        const V& c = v; CHECK(c[j] == y); CHECK(c[i] == (i == j ? y : x)); vp_cover("end");
    }
    HX_NOLEAK();
}
// ---- copy, assignment, swap, comparison
VP_HARNESS(vec_copyswap) {
    hx_disks(2);
    {
        typedef stxxl::VECTOR_GENERATOR<E2, 1, 2, 4096>::result V;
        size_t na = vp_choice("na", 7), nb = vp_choice("nb", 4); V a(na), b(nb); M ma, mb; ma.resize(na); mb.resize(nb);
        for (size_t i = 0; i < na; ++i) { uint32_t x = vp_u32("a"); a[i] = E2(x); ma.set(i, x); }
        for (size_t i = 0; i < nb; ++i) { uint32_t x = vp_u32("b"); b[i] = E2(x); mb.set(i, x); }
        switch (vp_choice("op", 5)) {
        case 0: a.swap(b); std::swap(ma, mb); break;
        case 1: { V c(a); if (na) c[0] = E2(9); CHECK(c.size() == na); for (size_t i = 1; i < na; ++i) CHECK(c[i].key == ma.v[i]); if (na) { a[na - 1] = E2(11); ma.set(na - 1, 11); } break; }
        case 2: a = b; ma = mb; if (nb) { b[0] = E2(3); mb.set(0, 3); } break;
        case 3: std::swap(a, b); std::swap(ma, mb); break;
        case 4: { bool eq = na == nb; for (size_t i = 0; eq && i < na; ++i) eq = ma.v[i] == mb.v[i]; CHECK((a == b) == eq); CHECK((a != b) == !eq);
                bool lt = std::lexicographical_compare(ma.v.begin(), ma.v.end(), mb.v.begin(), mb.v.end()); CHECK((a < b) == lt); break; }
        }
        verify(a, ma); verify(b, mb); vp_cover("end");
    }
    HX_NOLEAK();
}
// ---- iterators walk the same sequence as indices, forwards, backwards and in jumps
VP_HARNESS(vec_iter) {
    hx_disks(1);
    {
        typedef stxxl::VECTOR_GENERATOR<E2, 2, 2, 4096>::result V; const int n = 13; V v(n); for (int i = 0; i < n; ++i) v[i] = E2(i * 3);
        int i = vp_choice("i", n), j = vp_choice("j", n); V::iterator a = v.begin() + i, b = v.end() - (n - j);
        CHECK(a - b == i - j); CHECK((a < b) == (i < j)); CHECK((a == b) == (i == j)); CHECK((a <= b) == (i <= j)); CHECK((a > b) == (i > j)); CHECK((a >= b) == (i >= j)); CHECK((a != b) == (i != j));
        CHECK(a->key == (uint32_t)i * 3); CHECK(a[j - i].key == (uint32_t)j * 3);
        V::iterator c = a; c += j - i; CHECK(c == b); CHECK((*c).key == (uint32_t)j * 3); c -= j - i; CHECK(c == a);
        if (i + 1 < n) { CHECK((++c)->key == (uint32_t)(i + 1) * 3); CHECK((c--)->key == (uint32_t)(i + 1) * 3); CHECK((c++)->key == (uint32_t)i * 3); --c; CHECK(c == a); }
        *b = E2(777); CHECK(v[j].key == 777); V::const_iterator k = v.begin(); k += i; CHECK(k->key == (i == j ? 777u : i * 3u)); CHECK(k - v.begin() == i); CHECK(k.block_offset() == (unsigned)i % 2);
        V::reverse_iterator r = v.rbegin() + i; CHECK(r->key == (n - 1 - i == j ? 777u : (n - 1 - i) * 3u)); 
        int s = 0; for (V::const_iterator q = v.begin(); q != v.end(); ++q, ++s) CHECK(q->key == (s == j ? 777u : s * 3u)); CHECK(s == n); vp_cover("end");
    }
    HX_NOLEAK();
}
// ---- buffered readers and writers see exactly what element access sees
template <class V> static void bufrw() {
    hx_disks(1);
    {
        int n = vp_choice("n", 8) , w0 = vp_choice("w0", 4), wn = vp_choice("wn", 8), nb = 1 + vp_choice("nb", 2); if (w0 > n) return;
        V v(n); M m; m.resize(n); for (int i = 0; i < n; ++i) { v[i] = E2(100 + i); m.set(i, 100 + i); }
        { typename V::bufwriter_type w(v.begin() + w0, nb); for (int i = 0; i < wn; ++i) { uint32_t x = vp_u32("x"); w << E2(x); if (w0 + i >= (int)m.v.size()) m.resize(w0 + i + 1); m.set(w0 + i, x); } w.finish(); }
        verify(v, m);
        int r0 = vp_choice("r0", 3); if (r0 > (int)m.v.size()) return; int i = r0;
        { typename V::bufreader_type r(v.begin() + r0, v.end(), nb); for (; !r.empty(); ++r, ++i) { CHECK(i < (int)m.v.size()); CHECK(r.size() == m.v.size() - i); CHECK(r->key == m.v[i]); } } CHECK(i == (int)m.v.size());
        { typename V::bufreader_reverse_type r(v.begin() + r0, v.end(), nb); for (i = m.v.size(); !r.empty(); ++r) { --i; CHECK(i >= r0); CHECK((*r).key == m.v[i]); } } CHECK(i == r0);
        vp_cover("end");
    }
    HX_NOLEAK();
}
VP_HARNESS(vec_bufrw) { if (vp_param(0, 0)) bufrw<stxxl::VECTOR_GENERATOR<E2, 2, 2, 4096>::result>(); else bufrw<stxxl::VECTOR_GENERATOR<E2, 1, 1, 4096>::result>(); }
// ---- element access by every route, reserve, and blocks changed behind the vector's back as documented (flush, write block, block_externally_updated)
template <class V> static void api(int len, int n0) {
    hx_disks(2);
    {
        typedef typename V::block_type B; V v(n0); M m; m.resize(n0); B* b = new B; for (int i = 0; i < n0; ++i) { v[i] = E2(1000 + i); m.set(i, 1000 + i); }
        for (int s = 0; s < len; ++s) {
            int op = s == 0 && vp_param(3, 99) != 99 ? vp_param(3, 0) : vp_choice("op", 11); size_t n = m.v.size(); uint32_t x = op < 7 ? vp_u32("x") : 0; const V& c = v;
            if (op < 7 && op != 3 && !n) return;
            switch (op) {
            case 0: v.at(n / 2) = E2(x); m.set(n / 2, x); if (m.k[0]) { CHECKM(c.at(0).key == m.v[0] && c.front().key == m.v[0], "front and at agree with what was written"); } break;
            case 1: v.front() = E2(x); m.set(0, x); if (m.k[n - 1]) CHECKM(c.back().key == m.v[n - 1] && v.back().key == m.v[n - 1], "back is the last element"); break;
            case 2: v.back() = E2(x); m.set(n - 1, x); CHECK(c.front().key == m.v[0] || !m.k[0]); break;
            case 3: v.push_back(E2(x)); m.resize(n + 1); m.set(n, x); break;
            case 4: { typename V::reverse_iterator r = v.rbegin(); r += n / 2; *r = E2(x); m.set(n - 1 - n / 2, x); int k = 0; for (typename V::const_reverse_iterator q = c.rbegin(); q != c.rend(); ++q, ++k) if (m.k[n - 1 - k]) CHECKM(q->key == m.v[n - 1 - k], "reverse iterators walk backwards"); CHECK(k == (int)n); break; }
            case 5: { v.flush(); size_t i = vp_choice("at", 2) ? n - 1 : 0; typename V::iterator it = v.begin() + i; size_t o = i - i % 2; b->read(*it.bid())->wait(); for (size_t j = o; j < o + 2 && j < n; ++j) if (m.k[j]) CHECKM((*b)[j - o].key == m.v[j] && (*b)[j - o].ok(), "after a flush the blocks on disk hold the elements"); (*b)[i - o] = E2(x); m.set(i, x); b->write(*it.bid())->wait(); it.block_externally_updated(); break; }
            case 6: { typename V::const_iterator it = c.begin(); it += n / 3; v.flush(); size_t i = n / 3; b->read(*it.bid())->wait(); (*b)[i % 2] = E2(x); b->write(*it.bid())->wait(); it.block_externally_updated(); m.set(i, x); break; }
            case 7: { size_t r = v.capacity() + vp_choice("more", 3); v.reserve(r); CHECKM(v.capacity() >= r, "reserve reserves"); CHECKM(v.size() == n, "reserve keeps the size"); CHECK(v.raw_capacity() == v.capacity() / 2 * 4096); break; }
            case 8: { size_t t = n / 2; v.resize(t, vp_choice("shrink", 2)); m.resize(t); break; }
            case 9: { size_t t = n + 3; v.resize(t, vp_choice("shrink", 2)); m.resize(t); break; }
            default: { unsigned hits = 0; for (size_t i = 0; i < n; i += 2) hits += c.is_element_cached(i); CHECKM(hits <= V::page_size * v.numpages() && v.numpages() == (unsigned)vp_param(4, 2), "no more elements are cached than fit into the cache"); if (n) { const E2& e = c[n - 1]; CHECK(!m.k[n - 1] || e.key == m.v[n - 1]); CHECKM(c.is_element_cached(n - 1), "an element just read is cached"); } break; }
            }
        }
        CHECK((size_t)(v.end() - v.begin()) == m.v.size() && (size_t)(v.cend() - v.cbegin()) == m.v.size()); verify(v, m);
        if (m.v.size()) { typename V::bufreader_type r(v); size_t i = 0; for (typename V::bufreader_type::bufreader_iterator q = r.begin(); q != r.end(); ++q, ++i) { if (m.k[i]) CHECKM(q->key == m.v[i] && (*q).ok(), "the buffered reader's iterator delivers the elements"); if (i == 2) break; } if (vp_choice("rewind", 2)) { r.rewind(); for (i = 0; !r.empty(); ++i) { E2 e; r >> e; if (m.k[i]) CHECKM(e.key == m.v[i], "a rewound reader starts again"); } CHECK(i == m.v.size()); } }
        delete b; vp_cover("end");
    }
    HX_NOLEAK();
}
VP_HARNESS(vec_api) { typedef stxxl::VECTOR_GENERATOR<E2, 1, 2, 4096>::result V1; typedef stxxl::VECTOR_GENERATOR<E2, 2, 2, 4096>::result V2; int len = vp_param(1, 3), n = vp_param(2, 5); if (vp_param(0, 0)) api<V2>(len, n); else api<V1>(len, n); }
// ---- blocks written by the program become the contents of a vector; contents exported to files
VP_HARNESS(vec_content) {
    hx_disks(2); typedef stxxl::VECTOR_GENERATOR<E2, 2, 2, 4096>::result V; typedef V::block_type B; int n = vp_choice("n", 10), nb = (n + 1) / 2; uint32_t x = vp_u32("x"); 
    { B* b = new B; std::vector<stxxl::BID<4096> > ids(nb); stxxl::block_manager::get_instance()->new_blocks(stxxl::striping(), ids.begin(), ids.end());
      for (int i = 0; i < nb; ++i) { for (int j = 0; j < 2; ++j) (*b)[j] = E2(2 * i + j == n - 1 ? x : 50 + 2 * i + j); b->write(ids[i])->wait(); }
      V v; M m; if (vp_choice("used", 2)) { v.push_back(E2(1)); v.resize(0, true); } v.set_content(ids.begin(), ids.end(), n); m.resize(n); for (int i = 0; i < n; ++i) m.set(i, i == n - 1 ? x : 50 + i);
      if (n && vp_choice("write", 2)) { v[n / 2] = E2(7); m.set(n / 2, 7); } if (vp_choice("append", 2)) { v.push_back(E2(8)); m.resize(n + 1); m.set(n, 8); } verify(v, m); delete b; }
    HX_NOLEAK(); vp_cover("end");
}
VP_HARNESS(vec_export) {
    vp_format = 1; { stxxl::config* c = stxxl::config::get_instance(); stxxl::disk_config d("/tmp/vpexp", 0, vp_choice("impl", 2) ? "fileperblock_mmap" : "fileperblock_syscall"); d.direct = stxxl::disk_config::DIRECT_OFF; d.autogrow = true; d.delete_on_exit = false; c->add_disk(d); }
    typedef stxxl::VECTOR_GENERATOR<E2, 1, 2, 4096>::result V; int n = 1 + (int)vp_choice("n", 6); uint32_t x = vp_u32("x"); 
    { V v(n); for (int i = 0; i < n; ++i) v[i] = E2(i == n / 2 ? x : 20 + i); v.flush(); v.export_files("out"); }
    for (int f = 0; f * 2 < n; ++f) { std::string p("/tmp/out00000000"); p += (char)('0' + f); size_t len = n - 2 * f < 2 ? 2048 : 4096; CHECKM(vp_file_size(p.c_str()) == len, "an exported file has the size of its elements"); E2 e[2]; CHECK(vp_file_get(p.c_str(), 0, (void*)e, len) == len); for (size_t j = 0; j * 2048 < len; ++j) { CHECKM(e[j].key == (2 * f + (int)j == n / 2 ? x : 20u + 2 * f + j), "exported files hold the elements in order"); CHECK(e[j].ok()); } }
    vp_cover("end");
}
