#include "hx.h"
#include <stxxl/vector>
VP_HARNESS(vec_basic) {
    hx_disks(1);
    typedef stxxl::VECTOR_GENERATOR<uint32_t, 1, 2, 4096>::result V;
    V v(3000);
    vp_u64 i = vp_range("i", 0, 2999), j = vp_range("j", 0, 2999); uint32_t x = vp_u32("x");
    v[10] = 5; v[2000] = 6;
    i = 1000 + vp_choice("w", 3); 
    v[i] = x; v[2999] = 7;
    CHECK(v[i] == x); CHECK(v[10] == 5); CHECK(v[2000] == 6);
    vp_observe(v[i]); vp_cover("end");
}
