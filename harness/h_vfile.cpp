// Vectors that live in a file.
#include "hx.h"
#include <stxxl/vector>
#include <stxxl/sort>
#include <stxxl/ksort>
#include <stxxl/stable_ksort>
#include <stxxl/random>
#include <stxxl/scan>
#include <stxxl/bits/algo/random_shuffle.h>
#include <stxxl/bits/io/create_file.h>
using stxxl::file;
struct T : tagged<1024> { T() {} T(uint32_t k, uint32_t t) : tagged<1024>(k, t) {} };   // four per block
template <class O> O& operator << (O& o, const T& e) { return o << e.key, o; }
struct C { bool operator () (const T& a, const T& b) const { return a.key < b.key; } static T min_value() { return T(0, 0xaaaa); } static T max_value() { return T(0xffffffffu, 0xbbbb); } };
struct KE { typedef uint32_t key_type; key_type operator () (const T& a) const { return a.key; } static T min_value() { return T(0, 0xaaaa); } static T max_value() { return T(0xffffffffu, 0xbbbb); } };
struct SK { typedef uint32_t key_type; uint32_t k, tag; unsigned char pad[1016]; SK() {} SK(uint32_t k_, uint32_t t) : k(k_), tag(t) { pad[1015] = (unsigned char)(t * 3 + 1); } key_type key() const { return k; } bool ok() const { return pad[1015] == (unsigned char)(tag * 3 + 1); } };
static file* mk(int kind, bool fresh, int mode = file::RDWR) { static const char* const impl[] = { "syscall", "mmap", "linuxaio" }; stxxl::disk_config c("/tmp/vpvec", 0, impl[kind]); c.direct = stxxl::disk_config::DIRECT_OFF; c.queue = 0; return stxxl::create_file(c, mode | (fresh ? file::CREAT | file::TRUNC : 0), file::NO_ALLOCATOR); }
struct M { std::vector<uint32_t> v; std::vector<char> k; void resize(size_t n) { v.resize(n); k.resize(n, 0); } void set(size_t i, uint32_t x) { v[i] = x; k[i] = 1; } };
// the file holds the elements back to back
static void file_holds(const M& m) {
    CHECKM(vp_file_size("/tmp/vpvec") == m.v.size() * sizeof(T), "the file is as long as the vector"); 
    for (size_t i = 0; i < m.v.size(); ++i) if (m.k[i]) { T t; CHECK(vp_file_get("/tmp/vpvec", i * sizeof(T), &t, sizeof t) == sizeof t); CHECKM(t.key == m.v[i], "the file holds the element last written"); CHECKM(t.ok(), "the file holds the whole element"); }
}
// params: kind, n, pages, length of program
typedef stxxl::VECTOR_GENERATOR<T, 2, 2, 4096>::result V22; typedef stxxl::VECTOR_GENERATOR<T, 1, 1, 4096>::result V11; typedef stxxl::VECTOR_GENERATOR<T, 1, 3, 4096>::result V;
template <class VT> static void prog() {
    int kind = (int)vp_param(0, 0), n0 = (int)vp_param(1, 9), len = (int)vp_param(3, 3); hx_disks(1); M m;
    {   file* f = mk(kind, true); bool bs = vp_param(5, 0); { VT v(f, bs ? 0 : n0); for (int i = 0; i < n0; ++i) { if (bs) { v.push_back(T(100 + i, i)); m.resize(i + 1); } else { if (!i) m.resize(n0); v[i] = T(100 + i, i); } m.set(i, 100 + i); } CHECK(v.get_file() == f && v.size() == (size_t)n0); } delete f; file_holds(m); }
    {   file* f = mk(kind, false); VT* v = vp_choice("size", 2) ? new VT(f) : new VT(f, n0); CHECKM(v->size() == (size_t)n0, "the size is taken from the file"); int fresh = 1000;
        for (int s = 0; s < len; ++s) { int op = s == 0 && vp_param(4, 99) < 9 ? (int)vp_param(4, 0) : (int)vp_choice("op", 9); size_t n = m.v.size();
            switch (op) {
            case 0: case 1: { if (!n) vp_assume(0); size_t i = op ? n - 1 : n / 2; uint32_t x = vp_u32("x"); (*v)[i] = T(x, fresh++); m.set(i, x); break; }
            case 2: { uint32_t x = vp_u32("x"); v->push_back(T(x, fresh++)); m.resize(n + 1); m.set(n, x); break; }
            case 3: v->resize(n / 2); m.resize(n / 2); break;
            case 4: v->resize(n / 3, true); m.resize(n / 3); break;
            case 5: v->resize(n + 6); m.resize(n + 6); break;
            case 6: v->flush(); break;
            case 7: { delete v; delete f; file_holds(m); f = mk(kind, false); v = new VT(f); CHECKM(v->size() == n, "a reopened vector has its old size"); break; }
            default: v->clear(); m.resize(0); break; }
        }
        const VT& c = *v; CHECK(c.size() == m.v.size()); for (size_t i = 0; i < m.v.size(); ++i) if (m.k[i]) { const T& e = c[i]; CHECKM(e.key == m.v[i], "element read back equals element written"); CHECK(e.ok()); vp_observe(e.key); }
        delete v; delete f; file_holds(m); }
    {   file* f = mk(kind, false, file::RDONLY); f->close_remove(); delete f; CHECKM(vp_file_size("/tmp/vpvec") == ~0ull, "a removed file is gone"); }
    vp_cover("end"); HX_NOLEAK();
}
VP_HARNESS(vf_prog) { if (vp_param(2, 0)) prog<V22>(); else prog<V11>(); }
// params: algorithm, n, begin, end, M in blocks, key mask, filler
static uint32_t filler(int i, int n, int how) { switch (how) { case 0: return ((i * 7 + 3) % 13 + 1) * 0x10000000u; case 1: return (i + 1) * 0x01000000u; default: return (n - i) * 0x01000000u; } }
template <class VT> struct algs { static void go(VT& v, int alg, int a, int b, int MB) { if (alg == 0) stxxl::sort(v.begin() + a, v.begin() + b, C(), MB * 4096); else if (alg == 1) stxxl::ksort(v.begin() + a, v.begin() + b, KE(), MB * 4096); else stxxl::random_shuffle(v.begin() + a, v.begin() + b, MB * 4096); } };
typedef stxxl::VECTOR_GENERATOR<SK, 1, 3, 4096>::result VS;
template <> struct algs<VS> { static void go(VS& v, int, int a, int b, int MB) { stxxl::stable_ksort(v.begin() + a, v.begin() + b, MB * 4096); } };
static uint32_t key_of(const T& t) { return t.key; } static uint32_t key_of(const SK& t) { return t.k; }
template <class VT, class T> static void vsort() {
    int alg = (int)vp_param(0, 0), n = (int)vp_param(1, 40), a = (int)vp_param(2, 0), b = (int)vp_param(3, 40), MB = (int)vp_param(4, 4); vp_u64 mask = vp_param(5, 3); hx_disks(1); std::vector<uint32_t> in; std::vector<char> seen(n, 0);
    {   file* f = mk(0, true); { VT v(f, n); for (int i = 0; i < n; ++i) { uint32_t k; if ((mask >> i) & 1) { k = vp_u32("key"); vp_assume(k != 0 && k != 0xffffffffu); } else k = filler(i, n, (int)vp_param(6, 0)); in.push_back(k); v[i] = T(k, i); }
        algs<VT>::go(v, alg, a, b, MB);
        const VT& c = v; for (int i = 0; i < n; i += 5) { T t = c[i]; CHECKM(t.tag < (uint32_t)n && t.ok(), "elements are intact after the algorithm"); } if (vp_param(7, 0)) { T t = c[a]; v[a] = t; } } delete f; }
    CHECKM(vp_file_size("/tmp/vpvec") == n * sizeof(T), "the file keeps its size"); uint32_t last = 0;
    for (int i = 0; i < n; ++i) { T t; vp_file_get("/tmp/vpvec", i * sizeof(T), &t, sizeof t); if (i < a || i >= b) CHECKM(t.tag == (uint32_t)i && key_of(t) == in[i], "the file keeps elements outside the range"); uint32_t g = (uint32_t)vp_concretize(t.tag); CHECKM(g < (uint32_t)n && !seen[g], "the file holds every element once"); seen[g] = 1; CHECKM(key_of(t) == in[g], "elements are unchanged in the file"); CHECK(t.ok()); if (i > a && i < b && alg != 2) CHECKM(last <= key_of(t), "the range is in order in the file"); last = key_of(t); }
    vp_cover("end"); HX_NOLEAK();
}
VP_HARNESS(vf_sort) { if (vp_param(0, 0) == 3) vsort<VS, SK>(); else vsort<V, T>(); }
