// Basic data types and helpers of stxxl/bits/common.
#include "hx.h"
#include <stxxl/bits/common/uint_types.h>
#include <stxxl/bits/common/binary_buffer.h>
#include <stxxl/bits/common/utils.h>
#include <stxxl/bits/common/counting_ptr.h>
#include <stxxl/bits/common/aligned_alloc.h>
#include <stxxl/bits/common/swap_vector.h>
#include <stxxl/bits/common/simple_vector.h>
#include <stxxl/bits/common/addressable_queues.h>
#include <stxxl/bits/common/is_heap.h>
#include <stxxl/bits/common/is_sorted.h>
#include <stxxl/bits/common/external_shared_ptr.h>
#include <pthread.h>
#include <stdexcept>
#include <memory>
#include <limits>
using stxxl::uint64; using stxxl::uint32;
// ---- 40 and 48 bit integers behave like 64 bit integers modulo 2^40 and 2^48
template <class U> static void upair(unsigned bits) {
    const uint64 M = (~0ull) >> (64 - bits); uint64 x = vp_u64s("x"), y = vp_u64s("y"); vp_assume(x <= M && y <= M); U a(x), b(y);
    CHECK(sizeof(U) == bits / 8); CHECKM(a.u64() == x && a.ull() == x && (uint64)a == x, "a value comes back unchanged");
    switch (vp_choice("op", 8)) {
    case 0: { U c(a); ++c; CHECKM(c.u64() == ((x + 1) & M), "increment is exact"); --c; CHECKM(c == a, "decrement undoes increment"); break; }
    case 1: { U c(a); --c; CHECKM(c.u64() == ((x - 1) & M), "decrement is exact"); ++c; CHECKM(c.u64() == x, "increment undoes decrement"); break; }
    case 2: { U c(a); c += b; CHECKM(c.u64() == ((x + y) & M), "addition is exact"); U d(b); d += a; CHECKM(c == d, "addition commutes"); break; }
    case 3: CHECKM((a < b) == (x < y), "order"); CHECKM((a <= b) == (x <= y), "order"); CHECKM((a > b) == (x > y), "order"); CHECKM((a >= b) == (x >= y), "order"); CHECKM((a == b) == (x == y), "order"); CHECKM((a != b) == (x != y), "order"); break;
    case 4: { uint32 s = vp_u32("s"); U c(s); CHECKM(c.u64() == s, "unsigned 32 bit values are kept"); int t = (int)vp_u32("t"); U d(t); CHECKM(d.u64() == ((uint64)(stxxl::int64)t & M), "signed 32 bit values are kept modulo the range"); break; }
    case 5: { CHECK(U::min().u64() == 0 && U::max().u64() == M && std::numeric_limits<U>::max().u64() == M && std::numeric_limits<U>::min().u64() == 0); CHECKM((a <= U::max()) & (a >= U::min()), "extremal values"); CHECK((int)std::numeric_limits<U>::digits == (int)bits && (int)U::digits == (int)bits && (int)U::bytes == (int)bits / 8); break; }
    case 6: { U v[3]; v[0] = U(0u); v[2] = U(0u); v[1] = a; CHECKM(v[0].u64() == 0 && v[2].u64() == 0 && v[1].u64() == x, "neighbours in an array do not overlap"); v[1] = U::max(); CHECK(v[0].u64() == 0 && v[2].u64() == 0); break; }
    default: { typename U::low_type l = vp_u32("l"); typename U::high_type h = (typename U::high_type)vp_u32("h"); U c(l, h); CHECKM(c.u64() == (((uint64)h << 32) | l), "construction from halves"); c = b; CHECK(c.u64() == y); } }
    vp_cover("end");
}
VP_HARNESS(uint_pair) { if (vp_param(0, 0)) upair<stxxl::uint48>(48); else upair<stxxl::uint40>(40); }
// ---- variable length integers
static int groups(uint64 v) { int n = 1; while (v >= 128) { v >>= 7; ++n; } return n; }
VP_HARNESS(varint) {
    stxxl::binary_buffer bb; bool wide = vp_param(0, 0); uint64 v = wide ? vp_u64s("v") : vp_u32("v"), w = wide ? vp_u64s("w") : vp_u32("w"); if (vp_param(1, 0)) vp_assume(w < 300);
    if (wide) bb.put_varint((stxxl::uint64)v).put_varint((stxxl::uint64)w); else bb.put_varint((stxxl::uint32)v).put_varint((stxxl::uint32)w);
    CHECKM((int)bb.size() == groups(v) + groups(w), "the encoding is as short as possible"); bb.put<unsigned char>(0xa5);
    stxxl::binary_reader r(bb); if (wide) { CHECKM(r.get_varint64() == v, "variable length integers survive"); CHECKM(r.get_varint64() == w, "variable length integers survive"); } else { CHECKM(r.get_varint() == v, "variable length integers survive"); CHECKM(r.get_varint() == w, "variable length integers survive"); }
    CHECK(r.get<unsigned char>() == 0xa5 && r.empty()); vp_cover("end");
}
// arbitrary bytes never make the reader leave its buffer
VP_HARNESS(reader_any) {
    int n = (int)vp_param(0, 6); unsigned char* d = (unsigned char*)malloc(n ? n : 1); for (int i = 0; i < n; ++i) d[i] = vp_u8("d"); stxxl::binary_reader r(d, n); int last = 0;
    for (int k = 0; k < (int)vp_param(1, 3); ++k) { bool under = false; size_t c = r.curr(); 
        try { switch (vp_choice("op", 7)) { case 0: r.get_varint(); break; case 1: r.get_varint64(); break; case 2: { std::string s = r.get_string(); CHECKM(s.size() <= r.curr() - c, "a string lies within the buffer"); break; } case 3: { size_t m = vp_choice("m", 2) ? (size_t)vp_u64s("skip") : (size_t)vp_u8("skip"); r.skip(m); CHECKM((r.curr() >= c) & (r.curr() - c == m), "skipping moves forwards"); break; } case 4: { stxxl::binary_buffer_ref b = r.get_binary_buffer_ref(); CHECKM(((const char*)b.data() >= (const char*)d) & ((size_t)((const char*)b.data() - (const char*)d) + b.size() <= (size_t)n), "a sub-buffer lies within the buffer"); break; } case 5: r.get<unsigned short>(); break; default: r.get<unsigned char>(); } }
        catch (std::underflow_error&) { under = true; } catch (std::overflow_error&) { under = true; }
        CHECKM(r.curr() <= (size_t)n, "the cursor stays within the buffer"); if (under) { vp_cover("error"); break; } }
    free(d); vp_cover("end");
}
// the rest of the buffer interface: filling in place, detaching, clearing, comparing, rewinding
VP_HARNESS(binbuf_misc) {
    int n = (int)vp_param(0, 4); stxxl::binary_buffer bb; size_t cap = vp_choice("reserve", 2) ? 3 : 0; if (cap) bb.alloc(cap); CHECK(bb.size() == 0 && bb.capacity() == cap); std::vector<unsigned char> m; unsigned char src[8];
    int k = (int)vp_choice("k", n + 1); for (int i = 0; i < k; ++i) { src[i] = vp_u8("b"); m.push_back(src[i]); }
    switch (vp_choice("how", 5)) { case 0: bb.append(src, k); break; case 1: for (int i = 0; i < k; ++i) bb.put<unsigned char>(src[i]); break; case 2: bb.alloc(8); memcpy(bb.data(), src, k); bb.set_size(k); CHECK(bb.capacity() == 8); break; case 3: bb.put<unsigned char>(1); bb.assign(src, k); break; default: { stxxl::binary_buffer c(src, k); bb.put<unsigned char>(1); bb = c; } }
    CHECKM(bb.size() == m.size() && bb.capacity() >= bb.size(), "size"); for (size_t i = 0; i < m.size(); ++i) CHECKM((unsigned char)bb.data()[i] == m[i], "contents"); CHECK(bb.str().size() == m.size());
    unsigned char oth[8]; int j = (int)vp_choice("j", n + 1); bool eq = j == k; for (int i = 0; i < j; ++i) { oth[i] = vp_u8("c"); } for (int i = 0; i < j && i < k; ++i) eq &= oth[i] == src[i]; stxxl::binary_buffer_ref a(bb), b(oth, j); CHECKM((a == b) == eq && (a != b) == !eq, "buffers are equal exactly if they hold the same bytes");
    stxxl::binary_reader r(bb); int skip = (int)vp_choice("skip", k + 1); r.skip(skip); CHECK(r.curr() == (size_t)skip && r.empty() == (skip == k)); for (int i = 0; i <= k + 1; ++i) CHECKM(r.cursor_available(i) == (i <= k - skip), "what is available"); r.rewind(); CHECK(r.curr() == 0); { std::string s = r.read((size_t)k); CHECK(s.size() == (size_t)k && r.empty()); for (int i = 0; i < k; ++i) CHECKM((unsigned char)s[i] == m[i], "reading after a rewind"); }
    unsigned char back[8]; r.rewind(); r.read(back, k); for (int i = 0; i < k; ++i) CHECK(back[i] == m[i]);
    switch (vp_choice("end", 4)) { case 0: { const char* d = bb.detach(); CHECK(bb.size() == 0 && bb.capacity() == 0 && bb.data() == 0); for (int i = 0; i < k; ++i) CHECKM((unsigned char)d[i] == m[i], "detached memory keeps the contents"); free((void*)d); break; }
    case 1: { size_t c = bb.capacity(); bb.clear(); CHECK(bb.size() == 0 && bb.capacity() == c); break; } case 2: bb.dealloc(); CHECK(bb.size() == 0 && bb.capacity() == 0 && bb.data() == 0); break; default: bb.put_string(std::string("ab")); CHECK(bb.size() == (size_t)k + 3); bb.set_size(k); }
    { unsigned char x = vp_u8("x"); size_t o = bb.size(); bb.put<unsigned char>(x); CHECK(bb.size() == o + 1 && (unsigned char)bb.data()[o] == x); } { stxxl::binary_buffer e, f(e); CHECK(f.size() == 0); CHECK(stxxl::binary_buffer_ref(e).size() == 0); } vp_cover("end");
}
// programs of writes come back in order
VP_HARNESS(binbuf) {
    int len = (int)vp_param(0, 4); stxxl::binary_buffer bb; if (vp_choice("reserve", 2)) bb.alloc(3); struct { int op; uint64 v; } t[8]; std::string s("stxxl"), big(600, 'x');
    for (int i = 0; i < len; ++i) { t[i].op = (int)vp_choice("op", 7); size_t old = bb.size();
        switch (t[i].op) { case 0: t[i].v = vp_u8("v"); bb.put<unsigned char>((unsigned char)t[i].v); break; case 1: t[i].v = vp_u32("v"); bb.put<uint32>((uint32)t[i].v); break; case 2: t[i].v = vp_u64s("v"); bb.put<uint64>(t[i].v); break;
        case 3: bb.put_string(s); CHECK(bb.size() == old + 1 + s.size()); break; case 4: bb.put_string(big); break; case 5: bb.align(4); CHECKM(bb.size() % 4 == 0 && bb.size() >= old && bb.size() < old + 4, "alignment"); t[i].v = bb.size() - old; break; default: { stxxl::binary_buffer o; o.put<unsigned char>(7).put<unsigned char>(9); bb.append(o); } }
        CHECK(bb.size() <= bb.capacity()); }
    stxxl::binary_buffer copy; if (bb.size()) copy = bb; stxxl::binary_reader r(bb.size() ? copy : bb); if (bb.size()) { CHECKM(stxxl::binary_buffer_ref(copy) == stxxl::binary_buffer_ref(bb), "copies are equal"); CHECK(copy.str() == bb.str()); }
    for (int i = 0; i < len; ++i) switch (t[i].op) { case 0: CHECKM(r.get<unsigned char>() == t[i].v, "values come back in order"); break; case 1: CHECKM(r.get<uint32>() == t[i].v, "values come back in order"); break; case 2: CHECKM(r.get<uint64>() == t[i].v, "values come back in order"); break;
        case 3: CHECKM(r.get_string() == s, "strings come back"); break; case 4: CHECKM(r.get_string() == big, "strings come back"); break; case 5: for (unsigned k = 0; k < t[i].v; ++k) CHECKM(r.get<unsigned char>() == 0, "padding is zero"); break; default: CHECK(r.get<unsigned char>() == 7 && r.get<unsigned char>() == 9); }
    CHECK(r.empty()); bool thrown = false; try { r.get<unsigned char>(); } catch (std::underflow_error&) { thrown = true; } CHECKM(thrown, "reading beyond the end is reported"); vp_cover("end");
}
// ---- sizes with units
static const struct { const char* t; uint64 f; } UNIT[] = { { "", 1 }, { "b", 1 }, { "B", 1 }, { "k", 1000ull }, { "K", 1000ull }, { "kB", 1000ull }, { "Ki", 1024ull }, { "KiB", 1024ull }, { "m", 1000000ull }, { "Mi", 1048576ull }, { " MiB", 1048576ull }, { "g", 1000000000ull }, { "GiB", 1073741824ull }, { " T", 1000000000000ull }, { "TiB ", 1099511627776ull }, { "P", 1000000000000000ull }, { "pib", 1125899906842624ull } };
VP_HARNESS(si_units) {
    const int NU = sizeof(UNIT) / sizeof(UNIT[0]); int u = (int)vp_choice("unit", NU); static const struct { char c; uint64 f; } DEF[] = { { 0, 1 }, { 'k', 1000 }, { 'K', 1024 }, { 'm', 1000000 }, { 'M', 1048576 }, { 'g', 1000000000 }, { 'G', 1073741824 }, { 'T', 1099511627776ull }, { 'p', 1000000000000000ull }, { 't', 1000000000000ull }, { 'P', 1125899906842624ull } };
    int d = u == 0 ? (int)vp_choice("default", 11) : u % 11; int n = (int)vp_param(0, 1); char t[16]; uint64 v = 0; for (int i = 0; i < n; ++i) { unsigned char c = vp_u8("digit"); vp_assume(c >= '0' && c <= '9'); t[i] = (char)c; v = v * 10 + (c - '0'); } strcpy(t + n, UNIT[u].t);
    uint64 size = 77; CHECKM(stxxl::parse_SI_IEC_size(std::string(t), size, DEF[d].c), "a size with a unit is accepted"); CHECKM(size == v * (u == 0 ? DEF[d].f : UNIT[u].f), "the size is scaled by its unit"); vp_cover("end");
}
// arbitrary text: accepted exactly if it is a number followed by a unit
static bool ref_parse(const char* p, uint64& v) {
    while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p; if (*p == '+' || *p == '-') vp_assume(0); if (!(*p >= '0' && *p <= '9')) return false; v = 0; while (*p >= '0' && *p <= '9') v = v * 10 + (*p++ - '0'); while (*p == ' ') ++p; int k = 0;
    for (int i = 0; i < 5; ++i) if (*p == "kmgtp"[i] || *p == "KMGTP"[i]) { k = i + 1; ++p; break; } uint64 base = 1000; if (k && (*p == 'i' || *p == 'I')) base = 1024, ++p; if (*p == 'b' || *p == 'B') ++p; while (*p == ' ') ++p; for (; k; --k) v *= base; return *p == 0;
}
VP_HARNESS(si_any) {
    int n = (int)vp_param(0, 3); char t[8]; for (int i = 0; i < n; ++i) { unsigned char c = vp_u8("c"); vp_assume(c != 0); t[i] = (char)c; } t[n] = 0; uint64 a = 0, b = 0; bool ok = stxxl::parse_SI_IEC_size(std::string(t, n), a), ref = ref_parse(t, b);
    CHECKM(ok == ref, "text is accepted exactly if it is a number with a unit"); if (ok && ref) CHECKM(a == b, "the value"); vp_cover("end");
}
// ---- integer helpers
VP_HARNESS(int_utils) {
    uint64 x = vp_u64s("x"); uint32 y = vp_u32("y");
    switch (vp_param(0, 0)) {
    case 0: { vp_assume(x > 0); unsigned f = stxxl::ilog2_floor(x); CHECKM(f < 64 && (x >> f) == 1, "floor of the logarithm"); unsigned c = stxxl::ilog2_ceil(x); CHECKM(c == f || c == f + 1, "ceiling"); CHECKM((c == f) == ((x & (x - 1)) == 0), "ceiling of the logarithm"); break; }
    case 1: { vp_assume(x <= (1ull << 63)); uint64 p = stxxl::round_up_to_power_of_two(x); if (x == 0) CHECK(p == 0); else { CHECKM((p & (p - 1)) == 0 && p >= x, "a power of two that is not smaller"); CHECKM(p / 2 < x, "the smallest one"); } vp_assume(y <= (1u << 31)); uint32 q = stxxl::round_up_to_power_of_two(y); if (y) CHECK((q & (q - 1)) == 0 && q >= y && q / 2 < y); break; }
    case 2: { unsigned k = (unsigned)vp_choice("k", 40); vp_assume(x < (1ull << 63)); uint64 r = stxxl::round_up_to_power_of_two(x, k); CHECKM((r & ((1ull << k) - 1)) == 0 && r >= x && r - x < (1ull << k), "rounded up to a multiple"); break; }
    default: { unsigned d = 1 + (unsigned)vp_choice("d", 9); uint32 z = vp_u32("z") & 0xffffff; uint32 q = stxxl::div_ceil(z, (uint32)d); CHECKM(q * d >= z && q * d - z < d, "division rounding up"); } }
    vp_cover("end");
}
// ---- counting pointers
static int g_live; struct obj : stxxl::counted_object { int v; obj(int v_) : v(v_) { ++g_live; } obj(const obj& o) : stxxl::counted_object(o), v(o.v) { ++g_live; } ~obj() { --g_live; } };
VP_HARNESS(count_ptr) {
    typedef stxxl::counting_ptr<obj> P; typedef stxxl::const_counting_ptr<obj> CP; int len = (int)vp_param(0, 4);
    { P p[3]; CP c; int id[4] = { -1, -1, -1, -1 }, next = 0, val[16];
      for (int k = 0; k < len; ++k) { int i = (int)vp_choice("i", 3), op = (int)vp_choice("op", 8), j = op == 1 || op == 2 ? (int)vp_choice("j", 3) : 0;
          switch (op) { case 0: val[next] = 10 + k; p[i] = P(new obj(10 + k)); id[i] = next++; break; case 1: p[i] = p[j]; id[i] = id[j]; break; case 2: p[i].swap(p[j]); std::swap(id[i], id[j]); break;
          case 3: p[i] = P(); id[i] = -1; break; case 4: { P t(p[i]); p[i] = t.get(); break; } case 5: { bool sole = true; for (int q = 0; q < 4; ++q) if (q != i && id[q] == id[i]) sole = false; CHECKM(p[i].unique() == (id[i] >= 0 && sole), "unique() tells whether there is one pointer"); p[i].unify(); if (id[i] >= 0 && !sole) { val[next] = val[id[i]]; id[i] = next++; } break; }
          case 6: c = p[i]; id[3] = id[i]; break; default: *(&p[i]) = p[i].get(); }
          int live = 0; for (int a = 0; a < next; ++a) { bool any = false; int n = 0; for (int q = 0; q < 4; ++q) if (id[q] == a) { any = true; ++n; } live += any; for (int q = 0; q < 3; ++q) if (id[q] == a) CHECKM(p[q]->v == val[a] && (int)p[q]->get_reference_count() == n, "the object and its count are right"); }
          CHECKM(g_live == live, "an object lives exactly as long as there are pointers to it"); for (int q = 0; q < 3; ++q) CHECK(p[q].empty() == (id[q] < 0) && p[q].valid() == (id[q] >= 0)); CHECK(c.valid() == (id[3] >= 0)); }
    }
    CHECKM(g_live == 0, "nothing is left"); vp_cover("end");
}
static int g_dead; struct aobj : stxxl::atomic_counted_object { int v; aobj() : v(5) {} ~aobj() { v = 0; ++g_dead; } };
typedef stxxl::counting_ptr<aobj> AP; static AP* g_share[2];
static void* t_ref(void* a) { int i = (int)(size_t)a; { AP x(*g_share[i]); AP y; y = x; CHECKM(y->v == 5, "a referenced object is alive"); x = AP(); CHECK(y->v == 5); } delete g_share[i]; return 0; }
VP_HARNESS(count_threads) {
    { AP p(new aobj); g_share[0] = new AP(p); g_share[1] = new AP(p); } pthread_t t; vp_explore(1, (int)vp_param(0, 2)); pthread_create(&t, 0, t_ref, (void*)1); t_ref(0); pthread_join(t, 0); vp_explore(0, 0);
    CHECKM(g_dead == 1, "the object is destroyed exactly once"); vp_cover("end");
}
VP_HARNESS(ext_shared) { // a shared pointer kept as raw bytes
    typedef stxxl::counting_ptr<obj> P; typedef stxxl::external_shared_ptr<P> X; { X* raw = (X*)malloc(2 * sizeof(X)); { P p(new obj(3)); X a(p); memcpy((void*)raw, (void*)&a, sizeof(X)); } CHECKM(g_live == 1, "wrapping keeps the object alive"); X b; memcpy((void*)&b, (void*)raw, sizeof(X)); { P q = b.get(); CHECK(q->v == 3 && q->get_reference_count() == 2); } CHECK(b == *raw); memcpy((void*)(raw + 1), (void*)&b, sizeof(X)); raw[1].unwrap(); CHECKM(g_live == 0, "unwrapping releases it"); free(raw); } vp_cover("end");
}
// ---- aligned memory
template <size_t A> static void aal() {
    static const size_t SZ[] = { 0, 1, A - 1, A, A + 1, 3 * A }; static const size_t ME[] = { 0, 8, 64 }; vp_u64 heap = vp_live_heap(); void* p[3]; size_t n[3]; stxxl::aligned_alloc_settings<int>::may_use_realloc = vp_choice("realloc", 2);
    for (int i = 0; i < 3; ++i) { n[i] = SZ[i == 2 ? 1 : (size_t)vp_choice("size", 6)]; size_t m = i == 2 ? 0 : ME[vp_choice("meta", 3)]; unsigned char* q = (unsigned char*)stxxl::aligned_alloc<A>(n[i], m); p[i] = q; CHECKM((size_t)(q + m) % A == 0, "the memory is aligned"); if (n[i]) { q[m ? m : 0] = q[m ? m : 0]; q[0] = (unsigned char)(10 + i); q[n[i] - 1] = (unsigned char)(10 + i); if (m) q[n[i] + 0] = q[n[i] + 0]; } }
    for (int i = 0; i < 3; ++i) if (n[i]) CHECKM(((unsigned char*)p[i])[0] == 10 + i && ((unsigned char*)p[i])[n[i] - 1] == 10 + i, "allocations do not overlap");
    for (int i = 0; i < 3; ++i) stxxl::aligned_dealloc<A>(p[i]); stxxl::aligned_dealloc<A>(0); CHECKM(vp_live_heap() == heap, "all memory is returned"); vp_cover("end");
}
VP_HARNESS(aligned) { switch (vp_param(0, 0)) { case 0: aal<512>(); break; case 1: aal<4096>(); break; default: aal<64>(); } }
// ---- vectors that swap instead of copying
struct mo { int v; mo() : v(0) {} mo(int x) : v(x) {} void swap(mo& o) { std::swap(v, o.v); } private: mo(const mo&); mo& operator = (const mo&); }; static void swap(mo& a, mo& b) { a.swap(b); }
struct odd { int k; bool operator () (const mo& m) const { return m.v % 2 == k; } };
VP_HARNESS(swap_vec) {
    typedef stxxl::swap_vector<mo> V; int len = (int)vp_param(0, 4); V v; std::vector<int> m; int seq = 1;
    for (int k = 0; k < len; ++k) {
        switch (vp_choice("op", 7)) {
        case 0: case 1: for (int r = 0; r < 2; ++r) { mo x(seq); v.swap_back(x); m.push_back(seq++); } break;
        case 2: { if (m.empty()) vp_assume(0); size_t i = vp_choice("i", m.size()); V::iterator it = v.erase(v.begin() + i); CHECK(it == v.begin() + i); m.erase(m.begin() + i); break; }
        case 3: { size_t a = vp_choice("a", m.size() + 1), b = a + vp_choice("b", m.size() - a + 1); if (a == b) vp_assume(0); v.erase(v.begin() + a, v.begin() + b); m.erase(m.begin() + a, m.begin() + b); break; }
        case 4: { size_t n = vp_choice("n", 3) * 2; if (n > m.size()) { size_t o = m.size(); v.resize(n); m.resize(n); for (; o < n; ++o) { v[o].v = seq; m[o] = seq++; } } else { v.resize(n); m.resize(n); } break; }
        case 5: { odd p; p.k = (int)vp_choice("odd", 2); V::iterator e = stxxl::swap_remove_if(v.begin(), v.end(), p); size_t o = 0; for (size_t i = 0; i < m.size(); ++i) if (m[i] % 2 != p.k) m[o++] = m[i]; m.resize(o); CHECK((size_t)(e - v.begin()) == o); v.erase(e, v.end()); break; }
        default: { V w(1, 3); w[0].v = 99; v.swap(w); CHECK(v.size() == 1 && v[0].v == 99 && w.size() == m.size()); std::swap(v, w); if (vp_choice("clear", 2)) { v.clear(); m.clear(); } break; } }
        CHECK(v.size() == m.size() && v.empty() == m.empty() && v.capacity() >= v.size()); for (size_t i = 0; i < m.size(); ++i) CHECKM(v[i].v == m[i], "the elements are those of a vector"); if (!m.empty()) CHECK(v.front().v == m.front() && v.back().v == m.back() && v.end() - v.begin() == (long)m.size());
    }
    vp_cover("end");
}
VP_HARNESS(simple_vec) {
    size_t n = vp_choice("n", 4), k = vp_choice("k", 5); stxxl::simple_vector<uint32> v(n), w; CHECK(v.size() == n && w.size() == 0 && w.begin() == w.end()); uint32 x[5]; for (size_t i = 0; i < n; ++i) v[i] = x[i] = vp_u32("x"); if (vp_choice("swap", 2)) { w.swap(v); CHECK(v.size() == 0); std::swap(v, w); }
    v.resize(k); CHECK(v.size() == k); for (size_t i = 0; i < k && i < n; ++i) CHECKM(v[i] == x[i], "resizing keeps the elements"); if (k) { v.memzero(); for (size_t i = 0; i < k; ++i) CHECK(v[i] == 0); } vp_cover("end");
}
// ---- addressable queues
VP_HARNESS(addr_queues) {
    int len = (int)vp_param(1, 5); std::vector<std::pair<int, int> > m; // (priority, key)
    if (vp_param(0, 0) == 0) { stxxl::addressable_fifo_queue<int> q; typedef stxxl::addressable_fifo_queue<int>::handle H; H h[4]; bool in[4] = { false };
        for (int s = 0; s < len; ++s) { int op = (int)vp_choice("op", 4), k = op == 3 ? 0 : (int)vp_choice("key", 4); size_t pos = m.size(); for (size_t i = 0; i < m.size(); ++i) if (m[i].second == k) pos = i; bool has = pos < m.size();
            if (op == 0) { std::pair<H, bool> r = q.insert(k); CHECKM(r.second == !has, "insert tells whether the key is new"); h[k] = r.first; if (has) m.erase(m.begin() + pos); m.push_back(std::make_pair(0, k)); }
            else if (op == 1) { CHECKM(q.erase(k) == has, "erase tells whether the key was there"); if (has) m.erase(m.begin() + pos); } else if (op == 2) { if (!has) vp_assume(0); q.erase(h[k]); m.erase(m.begin() + pos); } else { if (m.empty()) vp_assume(0); CHECK(q.top() == m[0].second); CHECKM(q.pop() == m[0].second, "the oldest key leaves first"); m.erase(m.begin()); }
            CHECK(q.empty() == m.empty()); if (!m.empty()) CHECKM(q.top() == m[0].second, "the oldest key is on top"); } (void)in; }
    else { typedef stxxl::addressable_priority_queue<int, unsigned> Q; Q q; Q::handle h[4]; unsigned pr[4]; bool in[4] = { false };
        for (int s = 0; s < len; ++s) { int op = (int)vp_choice("op", 4), k = op == 3 ? 0 : (int)vp_choice("key", 3); 
            if (op == 0) { unsigned p = vp_u8("prio"); std::pair<Q::handle, bool> r = q.insert(k, p); CHECKM(r.second == !in[k], "insert tells whether the key is new"); h[k] = r.first; in[k] = true; pr[k] = p; }
            else if (op == 1) { CHECKM(q.erase(k) == in[k], "erase tells whether the key was there"); in[k] = false; } else if (op == 2) { if (!in[k]) vp_assume(0); q.erase(h[k]); in[k] = false; } else { if (q.empty()) vp_assume(0); int t = q.pop(); CHECK(in[t]); for (int j = 0; j < 3; ++j) if (in[j] && j != t) CHECKM((pr[t] < pr[j]) | ((pr[t] == pr[j]) & (t < j)), "the smallest priority leaves first"); in[t] = false; }
            bool any = in[0] || in[1] || in[2]; CHECK(q.empty() == !any); if (any) { int t = q.top(); CHECK(in[t]); for (int j = 0; j < 3; ++j) if (in[j]) CHECKM(pr[t] <= pr[j], "the smallest priority is on top"); } } }
    vp_cover("end");
}
VP_HARNESS(predicates) {
    int n = (int)vp_param(0, 4); uint32 x[8]; for (int i = 0; i < n; ++i) x[i] = vp_u8("x"); bool heap = true, sorted = true; for (int i = 1; i < n; ++i) { if (x[(i - 1) / 2] < x[i]) heap = false; if (x[i] < x[i - 1]) sorted = false; }
    CHECKM(stxxl::is_heap(x, x + n, std::less<uint32>()) == heap, "is_heap"); CHECKM(stxxl::is_sorted(x, x + n, std::less<uint32>()) == sorted, "is_sorted"); vp_cover("end");
}
