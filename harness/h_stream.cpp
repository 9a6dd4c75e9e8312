// Scan algorithms, streaming operations and random shuffle on external vectors.
#include "hx.h"
#include <stxxl/vector>
#include <stxxl/stream>
#include <stxxl/scan>
#include <stxxl/random_shuffle>
#include <stxxl/random>
typedef elem<1024> E4; // four per block
template <class V> static uint32_t val(int i) { return 1000 + 10 * i; }
typedef stxxl::VECTOR_GENERATOR<E4, 2, 2, 4096>::result V;
// expected contents: mirror of the vector
struct mir { // fresh: the elements exist, but nothing was written yet
    std::vector<uint32_t> x; std::vector<char> known; V& v; mir(V& v_, int n, bool fresh = false) : known(n, !fresh), v(v_) { if (fresh) { v.resize(n); x.resize(n, 0); return; } for (int i = 0; i < n; ++i) { x.push_back(i % 5 == 2 ? vp_u32("init") : 1000 + i); v.push_back(E4(x[i])); } }
    void verify() { CHECK(v.size() == x.size()); const V& c = v; for (size_t i = 0; i < x.size(); ++i) if (i >= known.size() || known[i]) { CHECKM(c[i].key == x[i], "the vector holds exactly the expected elements"); CHECKM(c[i].ok(), "elements are intact"); } }
};
struct collect { std::vector<uint32_t>* o; collect(std::vector<uint32_t>* p) : o(p) {} void operator () (const E4& e) { o->push_back(e.key); CHECK(e.ok()); } };
struct modify { uint32_t k; int n; modify(uint32_t k_) : k(k_), n(0) {} void operator () (E4& e) { e = E4(e.key ^ k); ++n; } };
struct gen { typedef E4 value_type; int* n; uint32_t s; gen(int* n_, uint32_t s_) : n(n_), s(s_) {} E4 operator () () { int i = (*n)++; return E4(i == 1 ? s : 5000 + i); } };
// how the vector is cached when the algorithm starts: 0 as filled, 1 flushed, 2 some pages read and written again
static void prestate(V& v, mir& m, int how) { if (!m.known.empty() && !m.known[0]) return; if (how == 1) v.flush(); if (how == 2 && v.size() > 2) { v.flush(); size_t i = v.size() / 2; v[i] = E4(m.x[i] = 77); const V& c = v; CHECK(c[0].key == m.x[0]); v[v.size() - 1] = E4(m.x[v.size() - 1] = 78); } }
// params: algorithm, length, begin, end, prestate, disks, buffers
VP_HARNESS(scan_ops) {
    int al = vp_param(0, 0), n = vp_param(1, 11), a = vp_param(2, 2), b = vp_param(3, 9), nb = vp_param(6, 0); hx_disks(vp_param(5, 1)); if (b > n) b = n;
    if (a == 99) { a = (int)vp_choice("begin", n + 1); b = a + (int)vp_choice("length", n - a + 1); }
    { V* v = new V; int st = vp_param(4, 0) == 99 ? (int)vp_choice("state", al == 2 ? 4 : 3) : (int)vp_param(4, 0); mir m(*v, n, st == 3); prestate(*v, m, st); int cnt = 0;
      if (al == 0) { std::vector<uint32_t> o; stxxl::for_each(v->begin() + a, v->begin() + b, collect(&o), nb); CHECKM(o == std::vector<uint32_t>(m.x.begin() + a, m.x.begin() + b), "for_each visits each element once, in order"); }
      else if (al == 1) { uint32_t k = vp_u32("xor"); modify r = stxxl::for_each_m(v->begin() + a, v->begin() + b, modify(k), nb); CHECK(r.n == b - a); for (int i = a; i < b; ++i) m.x[i] ^= k; }
      else if (al == 2) { uint32_t s = vp_u32("gen"); stxxl::generate(v->begin() + a, v->begin() + b, gen(&cnt, s), nb); CHECKM(cnt == b - a, "generate calls the generator once per element"); for (int i = a; i < b; ++i) { m.x[i] = i - a == 1 ? s : 5000 + (i - a); m.known[i] = 1; } }
      else { uint32_t s = vp_u32("needle"); V::iterator r = stxxl::find(v->begin() + a, v->begin() + b, E4(s), nb); int p = (int)(r - v->begin()); CHECK(p >= a && p <= b); for (int i = a; i < p; ++i) CHECKM(m.x[i] != s, "find returns the first match"); CHECKM(p == b || m.x[p] == s, "find returns a match or the end"); }
      if (n) { int w = (int)vp_choice("afterwards", 3); if (w == 1) { (*v)[n / 2] = E4(m.x[n / 2] = 4711); m.known[n / 2] = 1; } if (w == 2) { v->push_back(E4(4712)); m.x.push_back(4712); } }
      m.verify(); delete v; }
    HX_NOLEAK(); vp_cover("end");
}
struct src { // stream of n values
    typedef E4 value_type; int i, n; uint32_t s; E4 cur; src(int n_, uint32_t s_) : i(0), n(n_), s(s_) { cur = E4(at(0)); } uint32_t at(int j) { return j == 1 ? s : 9000 + j; }
    const E4& operator * () const { vp_check(i < n, "a stream is not dereferenced at its end"); return cur; } const E4* operator -> () const { return &cur; } src& operator ++ () { vp_check(i < n, "a stream is not advanced beyond its end"); ++i; cur = E4(at(i)); return *this; } bool empty() const { return i == n; }
};
// params: variant, length, begin, room, elements, prestate, disks, buffers
VP_HARNESS(stream_mat) {
    int al = vp_param(0, 0), n = vp_param(1, 11), a = vp_param(2, 2), room = vp_param(3, 6), k = vp_param(4, 5), nb = vp_param(7, 0); hx_disks(vp_param(6, 1));
    if (a == 99) { a = (int)vp_choice("begin", n + 1); room = (int)vp_choice("room", n - a + 1); k = (int)vp_choice("elements", (al & 1) ? n + 2 : room + 1); }
    { V* v = new V; int st = vp_param(5, 0) == 99 ? (int)vp_choice("state", 4) : (int)vp_param(5, 0); mir m(*v, n, st == 3); prestate(*v, m, st); src s(k, vp_u32("x")); int w = (al & 1) ? (k < room ? k : room) : k, r = 0; for (int i = 0; i < w; ++i) { m.x[a + i] = s.at(i); m.known[a + i] = 1; }
      switch (al) {
      case 0: r = (int)(stxxl::stream::materialize(s, v->begin() + a, nb) - v->begin()) - a; break;
      case 1: r = (int)(stxxl::stream::materialize(s, v->begin() + a, v->begin() + (a + room), nb) - v->begin()) - a; break;
      case 2: { std::vector<E4> o(k); r = (int)(stxxl::stream::materialize(s, o.begin()) - o.begin()); for (int i = 0; i < r; ++i) (*v)[a + i] = o[i]; break; }
      case 3: { std::vector<E4> o(room); r = (int)(stxxl::stream::materialize(s, o.begin(), o.end()) - o.begin()); for (int i = 0; i < r; ++i) (*v)[a + i] = o[i]; break; } }
      CHECKM(r == w, "materialize returns the end of the written range"); CHECKM(s.i == w, "materialize consumes exactly what it stores"); stxxl::stream::discard(s); CHECK(s.empty());
      if (n) { int u = (int)vp_choice("afterwards", 2); if (u) { (*v)[n / 2] = E4(m.x[n / 2] = 4711); m.known[n / 2] = 1; } }
      m.verify(); delete v; }
    HX_NOLEAK(); vp_cover("end");
}
// params: source, length, begin, end, prestate, disks, buffers
template <class S> static void drain(S& s, mir& m, int a, int b) { for (int i = a; i < b; ++i) { CHECKM(!s.empty(), "a stream delivers the whole range"); CHECKM((*s).key == m.x[i] && s->key == m.x[i], "a stream delivers the elements in order"); CHECK((*s).ok()); ++s; } CHECKM(s.empty(), "a stream ends where the range ends"); }
VP_HARNESS(stream_src) {
    int al = vp_param(0, 0), n = vp_param(1, 11), a = vp_param(2, 2), b = vp_param(3, 9), nb = vp_param(6, 0); hx_disks(vp_param(5, 1)); if (b > n) b = n;
    if (a == 99) { a = (int)vp_choice("begin", n + 1); b = a + (int)vp_choice("length", n - a + 1); }
    { V* v = new V; mir m(*v, n); prestate(*v, m, vp_param(4, 0) == 99 ? (int)vp_choice("state", 3) : (int)vp_param(4, 0)); const V& c = *v; int cut = vp_param(7, 0) ? (int)vp_choice("stop", 2) : 0; if (cut) { stxxl::stream::vector_iterator2stream<V::iterator> s(v->begin() + a, v->begin() + b, nb); if (a < b) ++s; }
      if (al == 0) { stxxl::stream::vector_iterator2stream<V::iterator> s(v->begin() + a, v->begin() + b, nb); drain(s, m, a, b); }
      if (al == 1) { v->flush(); stxxl::stream::vector_iterator2stream<V::const_iterator> s(c.begin() + a, c.begin() + b, nb); drain(s, m, a, b); }
      if (al == 2) { stxxl::stream::vector_iterator2stream_sr<V::iterator> s(v->begin() + a, v->begin() + b, nb); drain(s, m, a, b); }
      if (al == 3) { stxxl::stream::iterator2stream<V::const_iterator> s(c.begin() + a, c.begin() + b); drain(s, m, a, b); }
      if (al == 4) { V::bufreader_type r(v->begin() + a, v->begin() + b); stxxl::stream::streamify_traits<V::iterator>::stream_type s = stxxl::stream::streamify(v->begin() + a, v->begin() + b, nb); drain(s, m, a, b); }
      m.verify(); delete v; }
    HX_NOLEAK(); vp_cover("end");
}
// plain streams of integers for the stream operators
struct is { typedef uint32_t value_type; const uint32_t* p; int i, n; is(const uint32_t* p_, int n_) : p(p_), i(0), n(n_) {} const uint32_t& operator * () const { vp_check(i < n, "an operator does not read an exhausted input"); return p[i]; } const uint32_t* operator -> () const { return &**this; } is& operator ++ () { vp_check(i < n, "an operator does not advance an exhausted input"); ++i; return *this; } bool empty() const { return i == n; } };
struct op6 { typedef uint32_t value_type; uint32_t c; 
    uint32_t operator () (uint32_t a) { return (a ^ c) + 1; } uint32_t operator () (uint32_t a, uint32_t b) { return a + 3 * b; } uint32_t operator () (uint32_t a, uint32_t b, uint32_t d) { return a + 3 * b + 5 * d; }
    uint32_t operator () (uint32_t a, uint32_t b, uint32_t d, uint32_t e) { return a + 3 * b + 5 * d + 7 * e; } uint32_t operator () (uint32_t a, uint32_t b, uint32_t d, uint32_t e, uint32_t f) { return a + 3 * b + 5 * d + 7 * e + 9 * f; }
    uint32_t operator () (uint32_t a, uint32_t b, uint32_t d, uint32_t e, uint32_t f, uint32_t g) { return a + 3 * b + 5 * d + 7 * e + 9 * f + 11 * g; } };
struct eqmod { bool operator () (uint32_t a, uint32_t b) const { return (a & 0xff) == (b & 0xff); } };
template <class S> static void drain_ints(S& s, const std::vector<uint32_t>& e) { for (size_t i = 0; i < e.size(); ++i) { CHECKM(!s.empty(), "no result is missing"); CHECKM(*s == e[i] && *(s.operator -> ()) == e[i], "results are computed from the corresponding inputs"); ++s; } CHECKM(s.empty(), "no result is invented"); }
// params: operator, length
VP_HARNESS(stream_ops) {
    using namespace stxxl::stream; int al = vp_param(0, 0), n = vp_param(1, 3); uint32_t x[6][8]; int len[6]; int arity = al < 6 ? al + 1 : al < 11 ? al - 4 : 1; int shortest = 99;
    for (int j = 0; j < arity; ++j) { len[j] = arity <= 3 ? (int)vp_choice("n", n + 1) : n; for (int i = 0; i < len[j]; ++i) x[j][i] = vp_u32("x"); } if (arity > 3) { int j = (int)vp_choice("which", arity); len[j] = (int)vp_choice("n", n + 1); } for (int j = 0; j < arity; ++j) if (len[j] < shortest) shortest = len[j];
    is s0(x[0], len[0]), s1(x[1], len[1]), s2(x[2], len[2]), s3(x[3], len[3]), s4(x[4], len[4]), s5(x[5], len[5]); op6 f; f.c = 5; std::vector<uint32_t> e;
    for (int i = 0; i < shortest; ++i) { uint32_t r = al == 0 ? (x[0][i] ^ 5) + 1 : 0; if (al && al < 6) for (int j = 0; j < arity; ++j) r += (2 * j + 1) * x[j][i]; e.push_back(r); }
    switch (al) {
    case 0: { transform<op6, is> t(f, s0); drain_ints(t, e); break; }
    case 1: { transform<op6, is, is> t(f, s0, s1); drain_ints(t, e); break; }
    case 2: { transform<op6, is, is, is> t(f, s0, s1, s2); drain_ints(t, e); break; }
    case 3: { transform<op6, is, is, is, is> t(f, s0, s1, s2, s3); drain_ints(t, e); break; }
    case 4: { transform<op6, is, is, is, is, is> t(f, s0, s1, s2, s3, s4); drain_ints(t, e); break; }
    case 5: { transform<op6, is, is, is, is, is, is> t(f, s0, s1, s2, s3, s4, s5); drain_ints(t, e); break; }
#define COMP(m, j) CHECKM(t->m == x[j][i] && (*t).m == x[j][i], "tuples consist of the corresponding inputs")
    case 6: { stxxl::stream::make_tuple<is, is> t(s0, s1); int i = 0; for ( ; !t.empty(); ++t, ++i) { COMP(first, 0); COMP(second, 1); } CHECK(i == shortest); break; }
    case 7: { stxxl::stream::make_tuple<is, is, is> t(s0, s1, s2); int i = 0; for ( ; !t.empty(); ++t, ++i) { COMP(first, 0); COMP(second, 1); COMP(third, 2); } CHECK(i == shortest); break; }
    case 8: { stxxl::stream::make_tuple<is, is, is, is> t(s0, s1, s2, s3); int i = 0; for ( ; !t.empty(); ++t, ++i) { COMP(first, 0); COMP(second, 1); COMP(third, 2); COMP(fourth, 3); } CHECK(i == shortest); break; }
    case 9: { stxxl::stream::make_tuple<is, is, is, is, is> t(s0, s1, s2, s3, s4); int i = 0; for ( ; !t.empty(); ++t, ++i) { COMP(first, 0); COMP(second, 1); COMP(third, 2); COMP(fourth, 3); COMP(fifth, 4); } CHECK(i == shortest); break; }
    case 10: { typedef stxxl::stream::make_tuple<is, is, is, is, is, is> T6; T6 t(s0, s1, s2, s3, s4, s5); int c = (int)vp_choice("component", 6); std::vector<uint32_t> w; for (int i = 0; i < shortest; ++i) w.push_back(x[c][i]);
        switch (c) { case 0: { choose<T6, 1> k(t); drain_ints(k, w); break; } case 1: { choose<T6, 2> k(t); drain_ints(k, w); break; } case 2: { choose<T6, 3> k(t); drain_ints(k, w); break; } case 3: { choose<T6, 4> k(t); drain_ints(k, w); break; } case 4: { choose<T6, 5> k(t); drain_ints(k, w); break; } default: { choose<T6, 6> k(t); drain_ints(k, w); break; } } break; }
    case 11: { std::vector<uint32_t> w; for (int i = 0; i < len[0]; ++i) if (!i || x[0][i] != x[0][i - 1]) w.push_back(x[0][i]); unique<is> u(s0); drain_ints(u, w); break; }
    case 12: { std::vector<uint32_t> w; for (int i = 0; i < len[0]; ++i) { x[0][i] &= 0x1ff; if (w.empty() || (x[0][i] & 0xff) != (w.back() & 0xff)) w.push_back(x[0][i]); } eqmod q; unique<is, eqmod> u(s0, q); int k = 0; for ( ; !u.empty(); ++u, ++k) { CHECK(k < (int)w.size()); CHECKM((*u & 0xff) == (w[k] & 0xff), "unique yields one element of each group"); } CHECK(k == (int)w.size()); break; }
    default: { int cnt = 0; struct g { typedef uint32_t value_type; int* c; uint32_t operator () () { return 3 + (*c)++; } } q; q.c = &cnt; generator2stream<g> s(q); for (int i = 0; i < n; ++i) { CHECK(!s.empty()); CHECK(*s == 3u + i && *s.operator -> () == 3u + i); ++s; } CHECK(cnt == n + 1); } }
    vp_cover("end");
}
struct rng { int calls, sym; uint32_t s; rng(int k, uint32_t seed) : calls(0), sym(k), s(seed) {} vp_u64 operator () (vp_u64 n) { if (n == 0) vp_fail("a random number below zero is requested"); if (calls++ < sym) return vp_choice("random", n); s = s * 1103515245u + 12345u; return (s >> 16) % n; } };
// params: n, begin, end, M in blocks, choices, seed, disks, prestate
VP_HARNESS(shuffle) {
    int n = vp_param(0, 11), a = vp_param(1, 2), b = vp_param(2, 9), M = vp_param(3, 7); hx_disks(vp_param(6, 1));
    { typedef stxxl::VECTOR_GENERATOR<E4, 2, 2, 4096>::result W; W* v = new W; mir m(*v, n); prestate(*v, m, vp_param(7, 0)); 
      if (vp_param(5, 0) == 99) stxxl::random_shuffle(v->begin() + a, v->begin() + b, M * 4096); else { rng r(vp_param(4, 2), vp_param(5, 0)); stxxl::random_shuffle(v->begin() + a, v->begin() + b, r, M * 4096); }
      std::vector<char> seen(n, 0); const W& c = *v; CHECK((int)v->size() == n); for (int i = 0; i < n; ++i) { CHECK(c[i].ok()); if (i < a || i >= b) { CHECKM(c[i].key == m.x[i], "elements outside the range stay untouched"); continue; }
          uint32_t k = c[i].key; bool found = false; for (int j = a; j < b && !found; ++j) if (!seen[j] && (vp_is_symbolic(k) ? vp_is_symbolic(m.x[j]) : !vp_is_symbolic(m.x[j])) && k == m.x[j]) { seen[j] = 1; found = true; } CHECKM(found, "the result is a permutation of the range"); }
      delete v; }
    HX_NOLEAK(); vp_cover("end");
}
