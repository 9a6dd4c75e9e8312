// Helpers shared by the harnesses.
#ifndef HX_H
#define HX_H
#include "vp.h"
#include <stxxl/bits/config.h>
#include <stxxl/bits/mng/config.h>
#include <stxxl/bits/mng/block_manager.h>
#include <stxxl/bits/mng/typed_block.h>
#include <stxxl/bits/io/iostats.h>
#include <vector>
#include <algorithm>
#include <utility>
extern "C" void vp_run_atexit(void);
// n in-memory disks (or another file implementation) that grow on demand
static inline void hx_disks(int n = 1, size_t size = 0, const char* impl = "memory") {
    stxxl::config* c = stxxl::config::get_instance();
    for (int i = 0; i < n; ++i) { std::string p("disk"); p += char('0' + i); stxxl::disk_config d(p, size, impl); d.autogrow = true; c->add_disk(d); }
    stxxl::block_manager::get_instance();
}
static inline vp_u64 hx_alloc() { return stxxl::block_manager::get_instance()->get_current_allocation(); }
// at the end of a harness nothing may be left allocated on the disks
// serve whatever is still queued for the disks (requests are served in order): nobody may have left a request behind that uses memory freed since
static inline void hx_settle() {
    stxxl::block_manager* bm = stxxl::block_manager::get_instance(); unsigned n = stxxl::config::get_instance()->disks_number(); typedef stxxl::typed_block<4096, unsigned> B; B* b = new B;
    for (unsigned d = 0; d < n; ++d) { B::bid_type bid; bm->new_block(stxxl::single_disk(d), bid); (*b)[0] = 77; b->write(bid)->wait(); (*b)[0] = 0; b->read(bid)->wait(); CHECKM((*b)[0] == 77, "a block reads back as written"); bm->delete_block(bid); } delete b;
}
#define HX_NOLEAK() do { CHECKM(hx_alloc() == 0, "all external blocks are released when the objects are destroyed"); hx_settle(); } while (0)
// element with a payload, so that a 4 KiB block holds few elements; the payload is a function of the key
template <unsigned N> struct elem {
    typedef uint32_t key_type; uint32_t key; unsigned char pad[N - 4];
    elem() {}
    elem(uint32_t k) : key(k) { pad[0] = (unsigned char)(k * 7 + 1); pad[N - 5] = (unsigned char)(k ^ 0x5a); }
    bool ok() const { return (pad[0] == (unsigned char)(key * 7 + 1)) & (pad[N - 5] == (unsigned char)(key ^ 0x5a)); }
    bool operator == (const elem& o) const { return key == o.key; }
    bool operator != (const elem& o) const { return key != o.key; }
    bool operator < (const elem& o) const { return key < o.key; }
    bool operator > (const elem& o) const { return key > o.key; }
};
// element identity separate from the key, for stability and permutation checks
template <unsigned N> struct tagged {
    typedef uint32_t key_type; uint32_t key, tag; unsigned char pad[N - 8];
    tagged() {}
    tagged(uint32_t k, uint32_t t) : key(k), tag(t) { pad[N - 9] = (unsigned char)(t * 3 + 1); }
    bool ok() const { return pad[N - 9] == (unsigned char)(tag * 3 + 1); }
};
template <class O, unsigned N> O& operator << (O& o, const elem<N>& e) { return o << e.key, o; }
template <class O, unsigned N> O& operator << (O& o, const tagged<N>& e) { return o << e.key, o; }
template <class T> struct cmp_less { // ascending
    typedef T first_argument_type; typedef T second_argument_type; typedef bool result_type;
    bool operator () (const T& a, const T& b) const { return a.key < b.key; }
    static T min_value() { return T(0); }
    static T max_value() { return T(0xffffffffu); }
};
template <class T> struct cmp_greater { // priority queues: smallest on top
    bool operator () (const T& a, const T& b) const { return a.key > b.key; }
    static T min_value() { return T(0xffffffffu); }
};
#endif
