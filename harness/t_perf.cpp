#include "hx.h"
#include <stxxl/vector>
VP_HARNESS(perf) {
    hx_disks(1);
    typedef stxxl::VECTOR_GENERATOR<uint32_t, 1, 2, 4096>::result V;
    V v(20000);
    for (int i = 0; i < 20000; ++i) v[i] = i;
    uint64_t s = 0; for (int i = 0; i < 20000; ++i) s += v[i];
    CHECK(s == 19999ull * 10000);  vp_cover("end");
}
#include <stxxl/sort>
struct cmp { bool operator()(uint32_t a, uint32_t b) const { return a < b; } uint32_t min_value() const { return 0; } uint32_t max_value() const { return ~0u; } };
VP_HARNESS(sortsym) {
    hx_disks(1);
    typedef stxxl::VECTOR_GENERATOR<uint32_t, 1, 2, 4096>::result V;
    int n = vp_param(0, 5);
    V v(n); std::vector<uint32_t> r(n);
    for (int i = 0; i < n; ++i) v[i] = r[i] = vp_u32("x");
    stxxl::sort(v.begin(), v.end(), cmp(), 64 * 1024);
    for (int i = 0; i + 1 < n; ++i) CHECK(v[i] <= v[i+1]);
    uint32_t a = 0, b = 0; for (int i = 0; i < n; ++i) { a += r[i]; b += v[i]; vp_observe(v[i]); }
    CHECK(a == b);
     vp_cover("end");
}
