// Linux AIO queue and requests under every schedule and completion order.
#include "hx.h"
#include <stxxl/bits/io/linuxaio_file.h>
#include <stxxl/bits/io/linuxaio_queue.h>
#include <stxxl/bits/io/linuxaio_request.h>
#include <stxxl/bits/io/disk_queues.h>
#include <stxxl/bits/io/request_operations.h>
using stxxl::request_ptr; using stxxl::request; using stxxl::file;
enum { B = 64 };
static int g_done[16];
struct on_done { int i; on_done(int i_) : i(i_) {} void operator () (request*) { CHECKM(g_done[i] == 0, "the completion handler runs at most once"); g_done[i]++; } };
struct buf { unsigned char d[B]; void set(unsigned char v) { for (int i = 0; i < B; ++i) d[i] = (unsigned char)(v + i); } bool is(unsigned char v) const { int x = 0; for (int i = 0; i < B; ++i) x |= d[i] ^ (unsigned char)(v + i); return x == 0; } };
// params: requests, preemptions, queue length, action, faults
VP_HARNESS(aio_prog) {
    int n = vp_param(0, 2), P = vp_param(1, 1), act = vp_param(3, 0), faults = vp_param(4, 0); stxxl::stats::get_instance(); unsigned char sv = vp_u8("data");
    { unsigned char z[4 * B]; for (int i = 0; i < 4 * B; ++i) z[i] = (unsigned char)(i % B + 9); vp_file_set("/f", z, 4 * B); }
    {
        stxxl::linuxaio_file f("/f", file::RDWR | file::CREAT, -2, file::NO_ALLOCATOR, 0, vp_param(2, 2)); buf io[4]; request_ptr r[4]; bool gone = false; int rd = act == 1 ? 3 : 1;
        vp_explore(1, P); vp_signal_choice = 1; vp_io_fault_budget = faults; vp_io_fault_kinds = vp_param(5, 5);
        for (int i = 0; i < n; ++i) { bool re = (rd >> i) & 1; io[i].set((unsigned char)(re ? 0 : sv + i)); r[i] = re ? f.aread(&io[i], i * B, B, on_done(i)) : f.awrite(&io[i], i * B, B, on_done(i)); }
        if (act == 2) gone = r[n - 1]->cancel();
        if (act == 3) { size_t k = stxxl::wait_any(r, n); CHECK(k < (size_t)n); CHECKM(r[k]->poll(), "wait_any returns a completed request"); }
        int bad = 0, ok[4];
        if (act == 4) { // destroying the queues performs everything
            vp_run_atexit(); for (int i = 0; i < n; ++i) CHECKM(g_done[i] == 1, "destroying the queue performs all pending requests"); }
        for (int i = 0; i < n; ++i) { ok[i] = 1; try { if (act == 4) { CHECK(r[i]->poll()); } else r[i]->wait(); } catch (const stxxl::io_error&) { ++bad; ok[i] = 0; } CHECKM(g_done[i] == !(gone && i == n - 1), "every request is completed exactly once unless it was cancelled"); }
        CHECKM(bad == vp_io_faults, "exactly the failed transfers are reported");
        vp_explore(0, 0); vp_io_fault_budget = 0; if (act == 4) { for (int i = 0; i < n; ++i) r[i] = request_ptr(); }
        for (int i = 0; i < n; ++i) { bool re = (rd >> i) & 1; buf b; vp_file_get("/f", i * B, &b, B); if (!ok[i]) continue; if (g_done[i]) { CHECKM(b.is((unsigned char)(re ? 9 : sv + i)), "a completed write is on the device"); if (re) CHECKM(io[i].is(9), "a completed read delivered the contents"); } else CHECKM(b.is(9), "a cancelled write does not reach the device"); }
        for (int i = 0; i < n; ++i) { r[i] = request_ptr(); }
        if (act != 4) vp_run_atexit(); // stops the queue: the reference of the last event is dropped
        CHECKM(f.get_request_nref() == 0, "no request refers to the file any more"); vp_cover("end");
    }
}
