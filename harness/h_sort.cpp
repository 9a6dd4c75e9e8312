// sort, ksort, stable_ksort, stream sorting and the sorter: the output is the ordered permutation of the input.
#define STXXL_L2_SIZE 64 // several sub-buckets for small inputs
#include "hx.h"
#include <stxxl/vector>
#include <stxxl/sort>
#include <stxxl/ksort>
#include <stxxl/stable_ksort>
#include <stxxl/stream>
#include <stxxl/sorter>
#include <stxxl/random>
#include <stxxl/scan>
struct T : tagged<1024> { // four per block
    T() {} T(uint32_t k, uint32_t t) : tagged<1024>(k, t) {}
    key_type key_() const { return key; }
};
template <class O> O& operator << (O& o, const T& e) { return o << e.key, o; }
struct C { bool operator () (const T& a, const T& b) const { return a.key < b.key; } static T min_value() { return T(0, 0xaaaa); } static T max_value() { return T(0xffffffffu, 0xbbbb); } };
struct CD { bool operator () (const T& a, const T& b) const { return b.key < a.key; } static T min_value() { return T(0xffffffffu, 0xbbbb); } static T max_value() { return T(0, 0xaaaa); } };
struct KE { typedef uint32_t key_type; key_type operator () (const T& a) const { return a.key; } static T min_value() { return T(0, 0xaaaa); } static T max_value() { return T(0xffffffffu, 0xbbbb); } };
// stable_ksort wants a member function key()
struct SK { typedef uint32_t key_type; uint32_t k, tag; unsigned char pad[1016]; SK() {} SK(uint32_t k_, uint32_t t) : k(k_), tag(t) { pad[1015] = (unsigned char)(t * 3 + 1); } key_type key() const { return k; } bool ok() const { return pad[1015] == (unsigned char)(tag * 3 + 1); } };
template <class O> O& operator << (O& o, const SK& e) { return o << e.k, o; }
typedef std::vector<uint32_t> keys;
static uint32_t filler(int i, int n, int how) { switch (how) { case 0: return ((i * 7 + 3) % 13 + 1) * 0x10000000u; case 1: return (i + 1) * 0x01000000u; case 2: return (n - i) * 0x01000000u; default: return 0x40000000u + (i & 1); } }
static uint32_t mkkey(int i, int n, vp_u64 mask, int how, bool dup) { if ((mask >> i) & 1) { uint32_t k = vp_u32("key"); vp_assume(k != 0 && k != 0xffffffffu); return k; } return filler(i, n, how); }
// the first cnt outputs are a permutation of the inputs [a,b) in order
struct verify {
    const keys& in; std::vector<char> seen; bool desc, stable; bool first; uint32_t lastk, lastt; int cnt;
    verify(const keys& i, bool d = false, bool s = false) : in(i), seen(i.size(), 0), desc(d), stable(s), first(true), lastk(0), lastt(0), cnt(0) {}
    void operator () (uint32_t k, uint32_t tag, bool ok) {
        uint32_t t = (uint32_t)vp_concretize(tag); CHECKM(t < in.size(), "only input elements appear in the output"); CHECKM(!seen[t], "no input element appears twice"); seen[t] = 1; ++cnt;
        CHECKM(k == in[t], "keys are unchanged"); CHECKM(ok, "payload is unchanged");
        if (!first) { CHECKM(desc ? k <= lastk : lastk <= k, "the output is ordered"); if (stable) CHECKM((lastk != k) | (lastt < t), "equal keys keep their relative order"); }
        first = false; lastk = k; lastt = t; vp_observe(t);
    }
};
typedef stxxl::VECTOR_GENERATOR<T, 1, 3, 4096>::result V;
typedef stxxl::VECTOR_GENERATOR<SK, 1, 3, 4096>::result VS;
static const keys& nothing() { static keys k; return k; }
// params: algorithm, n, begin, end, M in blocks, key mask, filler, disks
VP_HARNESS(sort_vector) {
    int alg = vp_param(0, 0), n = vp_param(1, 20), a = vp_param(2, 0), b = vp_param(3, 20), M = vp_param(4, 8); vp_u64 mask = vp_param(5, 3); int how = vp_param(6, 0);
    hx_disks(vp_param(7, 1));
    {
        V v(n); keys in; for (int i = 0; i < n; ++i) { uint32_t k = mkkey(i, n, mask, how, false); in.push_back(k); v[i] = T(k, i); } v.flush();
        if (alg == 0) stxxl::sort(v.begin() + a, v.begin() + b, C(), M * 4096); else if (alg == 1) stxxl::sort(v.begin() + a, v.begin() + b, CD(), M * 4096); else stxxl::ksort(v.begin() + a, v.begin() + b, KE(), M * 4096);
        vp_cover("end"); CHECKM(v.size() == (size_t)n, "the vector keeps its size"); const V& c = v;
        for (int i = 0; i < a; ++i) { CHECKM(c[i].tag == (uint32_t)i && c[i].key == in[i], "elements before the range are untouched"); CHECK(c[i].ok()); }
        for (int i = b; i < n; ++i) { CHECKM(c[i].tag == (uint32_t)i && c[i].key == in[i], "elements behind the range are untouched"); CHECK(c[i].ok()); }
        verify f(in, alg == 1); for (int i = a; i < b; ++i) { T t = c[i]; f(t.key, t.tag, t.ok()); CHECKM(t.tag >= (uint32_t)a && t.tag < (uint32_t)b, "elements stay within the range"); }
    }
    HX_NOLEAK();
}
VP_HARNESS(sort_stable) {
    int n = vp_param(1, 20), a = vp_param(2, 0), b = vp_param(3, 20), M = vp_param(4, 10); vp_u64 mask = vp_param(5, 3); int how = vp_param(6, 0);
    hx_disks(vp_param(7, 1));
    {
        VS v(n); keys in; for (int i = 0; i < n; ++i) { uint32_t k = mkkey(i, n, mask, how, false); in.push_back(k); v[i] = SK(k, i); } v.flush();
        stxxl::stable_ksort(v.begin() + a, v.begin() + b, M * 4096); vp_cover("end"); const VS& c = v;
        for (int i = 0; i < a; ++i) CHECKM(c[i].tag == (uint32_t)i && c[i].k == in[i], "elements before the range are untouched");
        for (int i = b; i < n; ++i) CHECKM(c[i].tag == (uint32_t)i && c[i].k == in[i], "elements behind the range are untouched");
        verify f(in, false, true); for (int i = a; i < b; ++i) { SK t = c[i]; f(t.k, t.tag, t.ok()); CHECKM(t.tag >= (uint32_t)a && t.tag < (uint32_t)b, "elements stay within the range"); }
    }
    HX_NOLEAK();
}
// ---- streams
struct src { typedef T value_type; const keys& k; size_t i; mutable T cur; src(const keys& k_) : k(k_), i(0) {} bool empty() const { return i == k.size(); } const T& operator * () const { cur = T(k[i], i); return cur; } const T* operator -> () const { return &**this; } src& operator ++ () { ++i; return *this; } };
static void fill(keys& in, int n, vp_u64 mask, int how) { for (int i = 0; i < n; ++i) in.push_back(mkkey(i, n, mask, how, false)); }
template <class S> static void drain(S& s, const keys& in, bool desc = false) { verify f(in, desc); for ( ; !s.empty(); ++s) { T t = *s; CHECKM((*s).tag == (&*s)->tag && s->tag == t.tag, "the current element can be read repeatedly"); f(t.key, t.tag, t.ok()); } CHECKM(f.cnt == (int)in.size(), "every input element is delivered"); }
// params: kind, n, M in blocks, mask, filler, disks
VP_HARNESS(sort_stream) {
    int kind = vp_param(0, 0), n = vp_param(1, 20), M = vp_param(2, 8); keys in; hx_disks(vp_param(5, 1)); fill(in, n, vp_param(3, 3), vp_param(4, 0));
    {
        if (kind == 0) { src s(in); stxxl::stream::sort<src, C, 4096> st(s, C(), M * 4096); vp_cover("end"); drain(st, in); }
        else if (kind == 1) { // runs from a stream, merged separately
            typedef stxxl::stream::runs_creator<src, CD, 4096> RC; src s(in); RC rc(s, CD(), M * 4096); stxxl::stream::runs_merger<RC::sorted_runs_type, CD> rm(rc.result(), CD(), M * 4096); vp_cover("end"); drain(rm, in, true); }
        else if (kind == 2) { // push interface
            typedef stxxl::stream::runs_creator<stxxl::stream::use_push<T>, C, 4096> RC; RC rc(C(), M * 4096); for (int i = 0; i < n; ++i) rc.push(T(in[i], i)); CHECK(rc.size() == (size_t)n); stxxl::stream::runs_merger<RC::sorted_runs_type, C> rm(rc.result(), C(), M * 4096); vp_cover("end"); drain(rm, in); }
        else if (kind == 3) { // sorted sequences pushed one by one
            typedef stxxl::stream::runs_creator<stxxl::stream::from_sorted_sequences<T>, C, 4096> RC; RC rc(C(), M * 4096); int i = 0; uint32_t last = 0; bool open = false; for ( ; i < n; ++i) { if (open && (in[i] < last || i % 7 == 0)) { rc.finish(); open = false; } rc.push(T(in[i], i)); open = true; last = in[i]; } if (open) rc.finish(); stxxl::stream::runs_merger<RC::sorted_runs_type, C> rm(rc.result(), C(), M * 4096); vp_cover("end"); drain(rm, in); }
        else if (kind == 4) { // merging twice from the same runs
            typedef stxxl::stream::runs_creator<stxxl::stream::use_push<T>, C, 4096> RC; RC rc(C(), M * 4096); for (int i = 0; i < n; ++i) rc.push(T(in[i], i)); RC::sorted_runs_type r = rc.result(); { stxxl::stream::runs_merger<RC::sorted_runs_type, C> m1(r, C(), M * 4096); drain(m1, in); } vp_cover("end"); }
    }
    HX_NOLEAK();
}
VP_HARNESS(sort_sorter) { // push, sort, iterate, rewind, clear, reuse
    typedef stxxl::sorter<T, C, 4096> S; int n = vp_param(0, 20), M = vp_param(1, 8); hx_disks(1);
    { S s(C(), M * 4096); keys in; fill(in, n, vp_param(2, 3), vp_param(3, 0)); for (int i = 0; i < n; ++i) { s.push(T(in[i], i)); CHECKM(s.size() == (size_t)i + 1, "size() counts the pushed elements"); }
      if (vp_choice("how", 2)) s.sort(); else s.sort_reuse(); CHECK(s.size() == (size_t)n); { verify f(in); int stop = vp_param(4, 0) && n ? (int)vp_choice("stop", n + 1) : n; for ( ; !s.empty() && f.cnt < stop; ++s) { T t = *s; f(t.key, t.tag, t.ok()); CHECKM(s.size() == (size_t)(n - f.cnt + 1), "size() counts the remaining elements"); } CHECK(f.cnt == stop); CHECK(s.empty() == (stop == n)); }
      s.rewind(); { verify f(in); for ( ; !s.empty(); ++s) { T t = *s; f(t.key, t.tag, t.ok()); } CHECKM(f.cnt == n, "after rewind() everything is delivered again"); }
      s.clear(); CHECK(s.size() == 0); keys in2; fill(in2, n / 2, 2, 1); for (int i = 0; i < n / 2; ++i) s.push(T(in2[i], i)); if (vp_choice("fin", 2)) s.finish(); s.sort(); vp_cover("end"); drain(s, in2);
      if (vp_choice("again", 2)) { s.finish_clear(); s.clear(); CHECK(s.size() == 0); s.push(T(5, 0)); keys one(1, 5); s.sort(); drain(s, one); } }
    HX_NOLEAK();
}
// a sorter (or runs creator) that is cleared or destroyed in the input state, while its runs are being written. params: n, M in blocks, sorter or runs creator
VP_HARNESS(sort_abandon) {
    typedef stxxl::sorter<T, C, 4096> S; typedef stxxl::stream::runs_creator<stxxl::stream::use_push<T>, C, 4096> RC; int n = (int)vp_param(0, 20), M = (int)vp_param(1, 8); hx_disks(1); keys in; fill(in, n, 1, 0);
    if (vp_param(2, 0) == 0) {
        S* s = new S(C(), M * 4096); for (int i = 0; i < n; ++i) s->push(T(in[i], i));
        switch (vp_choice("end", 4)) {
        case 0: delete s; s = 0; break;
        case 1: s->clear(); CHECK(s->size() == 0); break;
        case 2: s->finish(); CHECKM(s->size() == (size_t)n, "size() counts the pushed elements"); s->clear(); CHECK(s->size() == 0); break;
        default: s->finish_clear(); s->clear(); CHECK(s->size() == 0); }
        if (s) { keys in2; int k = (int)vp_choice("k", 3) * (n / 2); fill(in2, k, 2, 1); for (int i = 0; i < k; ++i) s->push(T(in2[i], i)); CHECKM(s->size() == (size_t)k, "size() counts the pushed elements"); if (vp_choice("sort", 2)) { s->sort(); drain(*s, in2); } delete s; }
    } else if (vp_param(2, 0) == 2) { // the output is abandoned in the middle
        int stop = (int)vp_choice("stop", 4) * n / 3; verify f(in);
        if (vp_choice("stream", 2)) { src q(in); typedef stxxl::stream::sort<src, C, 4096> ST; ST* st = new ST(q, C(), M * 4096); for (; f.cnt < stop; ++*st) { T t = **st; f(t.key, t.tag, t.ok()); } delete st; }
        else { S* s = new S(C(), M * 4096, (M + 2) * 4096); for (int i = 0; i < n; ++i) s->push(T(in[i], i)); if (vp_choice("mem", 2)) { s->set_merger_memory_to_use(M * 4096); s->sort_reuse(); } else s->sort((M + 1) * 4096); for (; f.cnt < stop; ++*s) { T t = **s; f((*s)->key, t.tag, t.ok()); }
            switch (vp_choice("end", 4)) { case 0: break; case 1: s->sort(); drain(*s, in); break; case 2: s->clear(); CHECK(s->size() == 0); s->push(T(9, 0)); s->sort(); { keys one(1, 9); drain(*s, one); } break; default: s->finish_clear(); } delete s; }
    } else {
        RC* rc = new RC(C(), M * 4096); for (int i = 0; i < n; ++i) rc->push(T(in[i], i)); keys* e = &in; keys in2;
        switch (vp_choice("end", 4)) {
        case 0: delete rc; rc = 0; break;
        case 1: rc->clear(); fill(in2, (int)vp_choice("k", 3) * (n / 2), 2, 1); e = &in2; for (size_t i = 0; i < in2.size(); ++i) rc->push(T(in2[i], i)); break;
        case 2: rc->deallocate(); break;
        default: rc->result(); rc->allocate(); e = &in2; }
        if (rc) { CHECK(rc->size() == e->size()); if (vp_choice("merge", 2)) { stxxl::stream::runs_merger<RC::sorted_runs_type, C> m(rc->result(), C(), M * 4096); if (vp_choice("first", 2)) { delete rc; rc = 0; } drain(m, *e); } delete rc; }
    }
    vp_cover("end"); HX_NOLEAK();
}
