// Block management layer: disk allocator, block manager, allocation strategies.
#include "hx.h"
#include <stxxl/bits/mng/block_alloc_interleaved.h>
#include <stxxl/bits/mng/typed_block.h>
#include <stxxl/bits/io/disk_queues.h>
#include <stxxl/bits/io/disk_queued_file.h>
#include <pthread.h>
typedef long long i64;
// a device that only knows its size
struct nulldev : stxxl::disk_queued_file {
    i64 sz; int fail; int fails; nulldev() : stxxl::disk_queued_file(0, 0), sz(0), fail(-1), fails(0) {}
    void serve(void*, offset_type, size_type, stxxl::request::request_type) {}
    void set_size(offset_type n) { if (fail-- == 0) { ++fails; throw stxxl::io_error("set_size"); } sz = n; } offset_type size() { return sz; } void lock() {} const char* io_type() const { return "null"; }
};
enum { S = 4096 };
typedef stxxl::BID<S> bid1; typedef stxxl::BID<2 * S> bid2;
struct ext { i64 o, n; bool used; };
static ext L[40]; static int nL;
static i64 live() { i64 t = 0; for (int i = 0; i < nL; ++i) if (L[i].used) t += L[i].n; return t; }
static void claim(i64 o, i64 n, i64 total) { CHECKM(o >= 0 && o + n <= total, "an allocated block lies within the device"); for (int i = 0; i < nL; ++i) if (L[i].used) CHECKM(o + n <= L[i].o || L[i].o + L[i].n <= o, "allocated blocks never overlap"); L[nL].o = o; L[nL].n = n; L[nL++].used = true; }
static void audit(stxxl::disk_allocator& a, nulldev& d) { CHECKM(a.get_total_bytes() == d.sz, "the device has the size the allocator assumes"); CHECKM(a.get_used_bytes() == live() && a.get_free_bytes() == d.sz - live(), "free and used bytes are exact"); }
static stxxl::disk_config dcfg(i64 size, bool grow) { stxxl::disk_config c("x", size, "memory"); c.autogrow = grow; return c; }
// params: operations, autogrow, first operation, disk blocks
VP_HARNESS(alloc_ops) {
    int K = vp_param(0, 5); bool grow = vp_param(1, 1); int cap = (int)vp_param(3, 4); bool failing = vp_param(4, 0);
    nulldev d; {
        stxxl::disk_config c = dcfg(cap * S, grow); stxxl::disk_allocator a(&d, c); audit(a, d); CHECK(d.sz == cap * S);
        for (int k = 0; k < K; ++k) {
            int op = k == 0 && vp_param(2, 99) != 99 ? (int)vp_param(2, 0) : (int)vp_choice("op", 3);
            if (op <= 1) { // 1..3 blocks of the small or 1..2 of the large size
                int n = 1 + (int)vp_choice("n", op ? 2 : 3); i64 before = a.get_free_bytes(), tot = d.sz, want = (i64)n * (op ? 2 * S : S); bool thrown = false; if (failing) d.fail = (int)vp_choice("fail", 2) ? -1 : 0;
                if (op == 0) { stxxl::BIDArray<S> b(n); try { a.new_blocks(b); } catch (const stxxl::bad_ext_alloc&) { thrown = true; } catch (const stxxl::io_error&) { thrown = true; CHECK(d.fails); } if (!thrown) for (int i = 0; i < n; ++i) claim(b[i].offset, S, d.sz); }
                else { stxxl::BIDArray<2 * S> b(n); try { a.new_blocks(b); } catch (const stxxl::bad_ext_alloc&) { thrown = true; } catch (const stxxl::io_error&) { thrown = true; CHECK(d.fails); } if (!thrown) for (int i = 0; i < n; ++i) claim(b[i].offset, 2 * S, d.sz); }
                d.fail = -1;
                if (thrown) { CHECKM(failing || (!grow && before < want), "an allocation fails only if the device is full and must not grow"); CHECKM(failing || d.sz == tot, "a failed allocation does not grow the device"); }
                else if (!grow && before < want) CHECKM(false, "a full device that must not grow does not provide space"); }
            else { if (!nL) vp_assume(0); int i = (int)vp_choice("which", nL); if (!L[i].used) { // freeing twice is detected as long as the space was not given out again
                        bool again = false; for (int j = 0; j < nL; ++j) if (L[j].used && L[j].o < L[i].o + L[i].n && L[i].o < L[j].o + L[j].n) again = true; if (again) vp_assume(0);
                        bool thrown = false; try { if (L[i].n == S) { bid1 b(&d, L[i].o); a.delete_block(b); } else { bid2 b(&d, L[i].o); a.delete_block(b); } } catch (const stxxl::bad_ext_alloc&) { thrown = true; } CHECKM(thrown, "freeing a block twice is reported"); vp_cover("double free"); }
                else { L[i].used = false; if (L[i].n == S) { bid1 b(&d, L[i].o); a.delete_block(b); } else { bid2 b(&d, L[i].o); a.delete_block(b); } } }
            audit(a, d);
        }
        for (int i = 0; i < nL; ++i) if (L[i].used) { L[i].used = false; if (L[i].n == S) { bid1 b(&d, L[i].o); a.delete_block(b); } else { bid2 b(&d, L[i].o); a.delete_block(b); } }
        audit(a, d); i64 tot = d.sz; int n = (int)(tot / S); // all space is free again: it is available without growing, in one piece
        stxxl::BIDArray<S> b(n); if (n) a.new_blocks(b); for (int i = 0; i < n; ++i) CHECKM(b[i].offset == (i64)i * S, "adjacent freed regions are merged"); CHECKM(d.sz == tot, "freed space is reused before the device grows"); for (int i = 0; i < n; ++i) claim(b[i].offset, S, d.sz); audit(a, d);
    }
    CHECKM(d.sz == cap * S, "the device returns to its configured size"); vp_cover("end");
}
// regions of arbitrary position and size are freed in any order; params: regions
VP_HARNESS(alloc_sym) {
    int n = vp_param(0, 3); enum { T = 64 * S }; nulldev d; stxxl::disk_config c = dcfg(T, false); stxxl::disk_allocator a(&d, c);
    { stxxl::BIDArray<S> b(64); a.new_blocks(b); CHECK(a.get_free_bytes() == 0); }
    vp_u64 cut[6]; cut[0] = 0; cut[n] = T; for (int i = 1; i < n; ++i) { cut[i] = vp_u64s("cut"); vp_assume(cut[i] > cut[i - 1] && cut[i] < T); }
    bool done[6] = { false }; i64 fr = 0;
    for (int k = 0; k < n; ++k) { int i = (int)vp_choice("which", n); if (done[i]) vp_assume(0); done[i] = true; i64 o = (i64)cut[i], l = (i64)(cut[i + 1] - cut[i]); stxxl::BID<0> b(&d, o, (unsigned)l); a.delete_block(b); fr += l; CHECKM(a.get_free_bytes() == fr, "free bytes are exact");
        if (k == 0 && vp_param(1, 0)) { // an overlapping region is refused
            vp_u64 x = vp_u64s("x"), y = vp_u64s("y"); vp_assume(x < y && y <= T && x < cut[i + 1] && y > cut[i]); bool thrown = false; stxxl::BID<0> z(&d, (i64)x, (unsigned)(y - x)); try { a.delete_block(z); } catch (const stxxl::bad_ext_alloc&) { thrown = true; } CHECKM(thrown, "freeing space that is already free is reported"); CHECKM(a.get_free_bytes() == fr, "and changes nothing"); } }
    stxxl::BIDArray<S> b(64); a.new_blocks(b); for (int i = 0; i < 64; ++i) CHECKM(b[i].offset == (i64)i * S, "adjacent freed regions are merged"); CHECK(a.get_free_bytes() == 0); vp_cover("end");
}
// first fit with symbolic request sizes; params: requests
VP_HARNESS(alloc_fit) {
    int n = vp_param(0, 3); enum { T = 64 * S }; nulldev d; stxxl::disk_config c = dcfg(T, false); stxxl::disk_allocator a(&d, c); vp_u64 o[8], l[8]; i64 used = 0;
    for (int k = 0; k < n; ++k) { l[k] = vp_u64s("len"); vp_assume(l[k] > 0 && l[k] <= T); stxxl::BID<0> b(0, 0, (unsigned)l[k]); bool thrown = false; if (used + (i64)l[k] > T) thrown = true; else { 
            // a single region of unusual size can fail only for lack of contiguous space, which is checked beforehand here
            if (k >= 2) { i64 lo = (i64)(o[1] + l[1]); if (T - lo < (i64)l[k]) vp_assume(0); } a.new_blocks(&b, &b + 1); }
        if (thrown) vp_assume(0);
        o[k] = (vp_u64)b.offset; used += (i64)l[k]; CHECKM(o[k] + l[k] <= T, "an allocated block lies within the device"); for (int j = 0; j < k; ++j) CHECKM((o[j] + l[j] <= o[k]) | (o[k] + l[k] <= o[j]), "allocated blocks never overlap"); CHECKM(a.get_used_bytes() == used, "free and used bytes are exact");
        if (k == 1) { stxxl::BID<0> z(&d, (i64)o[0], (unsigned)l[0]); a.delete_block(z); used -= (i64)l[0]; l[0] = 0; } }
    vp_cover("end");
}
// ---- block manager
struct blk { typedef bid1 bid_type; };
static int g_seed(int n) { int s = (int)vp_choice("seed", n); stxxl::set_seed((unsigned)(s * 7919 + 1)); return s; }
template <class St> static void bm(int D, int K, int first, bool grow, int cap) {
    stxxl::config* cf = stxxl::config::get_instance(); for (int i = 0; i < D; ++i) { std::string p("disk"); p += char('0' + i); stxxl::disk_config d(p, cap * S, "memory"); d.autogrow = grow; cf->add_disk(d); }
    g_seed(2); stxxl::block_manager* m = stxxl::block_manager::get_instance(); St st; bid1 b[24]; bool used[24]; int n = 0; vp_u64 total = 0, mx = 0;
    CHECK(m->get_total_bytes() == (vp_u64)D * cap * S);
    for (int k = 0; k < K; ++k) {
        int op = k == 0 && first != 99 ? first : (int)vp_choice("op", 2);
        if (op == 0) { int q = 1 + (int)vp_choice("n", 4); vp_u64 cur = m->get_current_allocation(), fr = m->get_free_bytes(), tt = m->get_total_bytes(); bool thrown = false;
            try { m->new_blocks(st, b + n, b + n + q, (stxxl::unsigned_type)n); } catch (const stxxl::bad_ext_alloc&) { thrown = true; }
            if (thrown) { CHECKM(!grow, "an allocation fails only if a device is full and must not grow"); CHECKM(m->get_current_allocation() == cur && m->get_free_bytes() == fr && m->get_total_bytes() == tt, "a failed allocation leaves nothing allocated"); vp_cover("full"); }
            else { for (int i = n; i < n + q; ++i) { used[i] = true; CHECKM(b[i].valid() && b[i].is_managed(), "blocks are valid"); CHECKM(b[i].offset >= 0 && b[i].offset + S <= (i64)b[i].storage->size(), "an allocated block lies within its device"); for (int j = 0; j < i; ++j) if (used[j] && b[j].storage == b[i].storage) CHECKM(b[j].offset + S <= b[i].offset || b[i].offset + S <= b[j].offset, "allocated blocks never overlap"); } n += q; total += (vp_u64)q * S; } }
        else { if (!n) vp_assume(0); int i = (int)vp_choice("which", n); if (!used[i]) vp_assume(0); m->delete_block(b[i]); used[i] = false; }
        vp_u64 lv = 0; for (int i = 0; i < n; ++i) lv += used[i] ? S : 0; if (lv > mx) mx = lv;
        CHECKM(m->get_current_allocation() == lv && m->get_total_allocation() == total && m->get_maximum_allocation() == mx, "the allocation statistics are exact"); CHECKM(m->get_total_bytes() - m->get_free_bytes() == lv, "free bytes are exact");
    }
    for (int i = 0; i < n; ++i) if (used[i]) m->delete_block(b[i]); CHECK(m->get_current_allocation() == 0); vp_cover("end"); vp_run_atexit(); 
}
// params: strategy, disks, operations, first, autogrow, capacity of a disk in blocks
VP_HARNESS(bm_ops) {
    int D = vp_param(1, 2), K = vp_param(2, 3), f = vp_param(3, 99), cap = vp_param(5, 2); bool g = vp_param(4, 1);
    switch (vp_param(0, 0)) { case 0: bm<stxxl::striping>(D, K, f, g, cap); break; case 1: bm<stxxl::FR>(D, K, f, g, cap); break; case 2: bm<stxxl::SR>(D, K, f, g, cap); break; case 3: bm<stxxl::RC>(D, K, f, g, cap); break; case 4: bm<stxxl::single_disk>(D, K, f, g, cap); break; default: bm<stxxl::RC_disk>(D, K, f, g, cap); }
}
// the strategies stay within their range of disks and, except for the fully random one, use every disk once per cycle
static void same_disk(vp_u64 a, vp_u64 b, vp_u64 e, const char*) { CHECKM((a >= b) & (a < e), "a strategy stays within its disks"); }
static vp_u64 g_i;
template <class St> static void cycle(const St& s, vp_u64 b, vp_u64 e, int stride) {
    vp_u64 i = g_i; vp_u64 a = s(i); same_disk(a, b, e, ""); unsigned D = (unsigned)(e - b);
    for (unsigned j = 1; j < D; ++j) CHECKM(s(i + j * stride) != a, "consecutive blocks go to different disks"); CHECKM(s(i + D * stride) == a, "disks are used in turn");
}
VP_HARNESS(strategies) {
    int w = vp_param(0, 0); vp_u64 D = 1 + vp_choice("disks", 4), b = vp_choice("begin", D), e = b + 1 + vp_choice("n", D - b); hx_disks((int)D); g_seed(3); const int R = 3; vp_u64 i = vp_choice("hi", 2) * 1000003 + vp_sym("i", 8); g_i = i;
    switch (w) {
    case 0: { stxxl::striping s(b, e); cycle(s, b, e, 1); cycle(stxxl::striping(), 0, D, 1); stxxl::interleaved_striping t(R, s); cycle(t, b, e, R); break; }
    case 1: { stxxl::SR s(b, e); cycle(s, b, e, 1); cycle(stxxl::SR(), 0, D, 1); stxxl::interleaved_SR t(R, s); cycle(t, b, e, R); break; }
    case 2: { stxxl::RC s(b, e); cycle(s, b, e, 1); cycle(stxxl::RC(), 0, D, 1); stxxl::interleaved_RC t(R, s); cycle(t, b, e, R); break; }
    case 3: { stxxl::FR s(b, e); for (int k = 0; k < 4; ++k) same_disk(s(i), b, e, ""); stxxl::interleaved_FR t(R, s); for (int k = 0; k < 4; ++k) same_disk(t(i), b, e, ""); break; }
    case 4: { stxxl::single_disk s(b); same_disk(s(i), b, b + 1, ""); stxxl::first_disk_only t(R, s); same_disk(t(i), b, b + 1, ""); stxxl::offset_allocator<stxxl::striping> o(2, stxxl::striping(b, e)); CHECK(o.get_offset() == 2); CHECKM(o(i) == stxxl::striping(b, e)(i + 2), "an offset shifts the sequence"); break; }
    default: { stxxl::RC_disk s; cycle(s, 0, D, 1); break; }
    }
    vp_cover("end");
}
// flash devices and disks: the strategies for either kind use all of them and nothing else
VP_HARNESS(flash_disks) {
    stxxl::config* c = stxxl::config::get_instance(); int D = 1 + (int)vp_choice("disks", 3), fl = 0; for (int i = 0; i < D; ++i) { std::string p("d"); p += char('0' + i); stxxl::disk_config d(p, 0, "memory"); d.flash = vp_choice("flash", 2); fl += d.flash; c->add_disk(d); }
    stxxl::block_manager::get_instance(); std::pair<unsigned, unsigned> r = c->regular_disk_range(), f = c->flash_range();
    CHECKM(r.second - r.first == (unsigned)(D - fl) && f.second - f.first == (unsigned)fl && r.second <= (unsigned)D && f.second <= (unsigned)D, "the ranges of disks and flash devices have the right sizes"); bool ok = true;
    for (unsigned i = r.first; i < r.second; ++i) ok &= !c->disk(i).flash; for (unsigned i = f.first; i < f.second; ++i) ok &= c->disk(i).flash; CHECKM(ok, "the ranges contain the right kind of device");
    CHECKM(c->get_max_device_id() == (unsigned)D, "every device gets an own id"); g_seed(3); g_i = vp_sym("i", 8); if (fl) { stxxl::RC_flash a; cycle(a, f.first, f.second, 1); cycle(stxxl::RC_flash(f.first, f.second), f.first, f.second, 1); } if (D > fl) { stxxl::RC_disk a; cycle(a, r.first, r.second, 1); } vp_cover("end");
}
// ---- concurrent allocation; params: scenario, preemptions
static stxxl::block_manager* g_m; static bid1 g_b[2]; static unsigned char* g_buf[3];
static void wr(bid1& b, unsigned char* p, unsigned char v) { p[0] = v; p[S - 1] = v; stxxl::request_ptr r = b.storage->awrite(p, b.offset, S); r->wait(); }
static void rd(bid1& b, unsigned char* p, unsigned char v) { p[0] = p[S - 1] = 0; stxxl::request_ptr r = b.storage->aread(p, b.offset, S); r->wait(); CHECKM(p[0] == v && p[S - 1] == v, "a block keeps its contents until it is freed"); }
static void* t_free(void*) { g_m->delete_block(g_b[0]); return 0; }
static void* t_alloc(void*) { g_m->new_block(stxxl::striping(), g_b[1]); return 0; }
static void* t_stat(void*) { vp_u64 u = g_m->get_total_bytes(); CHECK(u % S == 0); u = g_m->get_free_bytes(); CHECK(u % S == 0); return 0; }
VP_HARNESS(bm_threads) {
    int sc = vp_param(0, 0), P = vp_param(1, 1); stxxl::config* cf = stxxl::config::get_instance(); stxxl::disk_config dc("disk0", S, "memory"); dc.autogrow = true; cf->add_disk(dc); g_m = stxxl::block_manager::get_instance(); for (int i = 0; i < 3; ++i) { g_buf[i] = (unsigned char*)stxxl::aligned_alloc<S>(S); memset(g_buf[i], 0, S); }
    stxxl::disk_queues::get_instance(); stxxl::striping st; bid1 b[3]; g_m->new_block(st, g_b[0]); wr(g_b[0], g_buf[0], 1); pthread_t t;
    vp_explore(1, P); static void* (*const fn[])(void*) = { t_free, t_alloc, t_stat }; pthread_create(&t, 0, fn[sc], 0);
    g_m->new_block(st, b[1]); wr(b[1], g_buf[1], 2); 
    rd(b[1], g_buf[1], 2); pthread_join(t, 0); vp_explore(0, 0); rd(b[1], g_buf[1], 2);
    if (sc) rd(g_b[0], g_buf[0], 1); if (sc == 1) { CHECKM(g_b[1].offset != b[1].offset && g_b[1].offset != g_b[0].offset && b[1].offset != g_b[0].offset, "allocated blocks never overlap"); }
    vp_u64 n = sc == 0 ? 1 : sc == 1 ? 3 : 2; CHECKM(g_m->get_current_allocation() == n * S, "the allocation statistics are exact"); CHECKM(g_m->get_total_bytes() - g_m->get_free_bytes() == n * S, "free bytes are exact"); vp_cover("end");
}
// ---- every block goes to the disk the strategy names for its index; params: strategy
template <class St> static void placed(const St& s, bool exact, vp_u64 b, vp_u64 e) {
    stxxl::block_manager* m = stxxl::block_manager::get_instance(); unsigned off = (unsigned)vp_choice("offset", 8); int n = 1 + (int)vp_choice("n", 3); bid1 x[3];
    if (n == 1 && vp_choice("single", 2)) m->new_block(s, x[0], off); else m->new_blocks(s, x, x + n, off);
    for (int i = 0; i < n; ++i) { CHECKM(x[i].valid() && x[i].storage, "blocks are valid"); unsigned d = (unsigned)x[i].storage->get_allocator_id(); if (exact) CHECKM(d == s(off + i), "every block goes to the disk the strategy names for its index"); else CHECKM(d >= b && d < e, "blocks stay within the disks of the strategy"); for (int j = 0; j < i; ++j) CHECKM(x[i].storage != x[j].storage || x[i].offset != x[j].offset, "allocated blocks never overlap"); }
    m->delete_blocks(&x[0], &x[0] + n); CHECK(m->get_current_allocation() == 0); vp_cover("end");
}
VP_HARNESS(placement) {
    int w = vp_param(0, 0); vp_u64 D = 1 + vp_choice("disks", 4), b = vp_choice("begin", D), e = b + 1 + vp_choice("k", D - b); hx_disks((int)D); g_seed(2);
    switch (w) {
    case 0: placed(stxxl::striping(b, e), true, b, e); break; case 1: placed(stxxl::SR(b, e), true, b, e); break; case 2: placed(stxxl::RC(b, e), true, b, e); break;
    case 3: placed(stxxl::FR(b, e), false, b, e); break; case 4: placed(stxxl::single_disk(b), true, b, e); break; case 5: placed(stxxl::interleaved_striping(3, stxxl::striping(b, e)), true, b, e); break;
    case 6: placed(stxxl::interleaved_RC(2, stxxl::RC(b, e)), true, b, e); break; default: placed(stxxl::offset_allocator<stxxl::striping>(3, stxxl::striping(b, e)), true, b, e); }
}
