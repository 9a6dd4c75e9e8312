// Asynchronous request layer under every thread schedule (bounded preemptions): completion, waiting, cancelling, queue shutdown.
#include "hx.h"
#include <stxxl/bits/io/mem_file.h>
#include <stxxl/bits/io/disk_queues.h>
#include <stxxl/bits/io/request_operations.h>
#include <stxxl/bits/io/request_queue_impl_1q.h>
#include <stxxl/bits/io/request_queue_impl_qwqr.h>
#include <stxxl/bits/io/serving_request.h>
#include <stxxl/bits/io/completion_handler.h>
#include <stxxl/bits/common/semaphore.h>
#include <stxxl/bits/common/onoff_switch.h>
#include <stxxl/bits/common/state.h>
#include <pthread.h>
using stxxl::request_ptr; using stxxl::request; using stxxl::file;
enum { B = 64 };
// a device whose transfers are slow (other threads may run) and may fail with an I/O error
struct dev : stxxl::mem_file {
    int fail_at, served, active; unsigned type_ok;
    dev(int q = 0) : stxxl::mem_file(q), fail_at(-1), served(0), active(0) {}
    void serve(void* b, offset_type o, size_type n, request::request_type t) { int me = served++; vp_sched_point(); if (me == fail_at) throw stxxl::io_error("device error"); stxxl::mem_file::serve(b, o, n, t); }
};
static int g_done[16]; static request* g_req[16];
struct on_done { int i; on_done(int i_) : i(i_) {} void operator () (request* r) { CHECKM(g_done[i] == 0, "the completion handler runs at most once"); g_done[i]++; g_req[i] = r; } };
struct buf { unsigned char d[B]; void set(unsigned char v) { for (int i = 0; i < B; ++i) d[i] = (unsigned char)(v + i); } bool is(unsigned char v) const { int x = 0; for (int i = 0; i < B; ++i) x |= d[i] ^ (unsigned char)(v + i); return x == 0; } };
static void init() { stxxl::stats::get_instance(); stxxl::disk_queues::get_instance(); }

// one client; params: operations, preemptions, first operation, priority
VP_HARNESS(io_prog) {
    int K = vp_param(0, 4), P = vp_param(1, 2); init();
    {
        dev f; f.set_size(4 * B); buf store[4]; { buf z; for (int i = 0; i < 4; ++i) { z.set(i * 10); request_ptr r = f.awrite(&z, i * B, B); r->wait(); store[i] = z; } }
        static const stxxl::request_queue::priority_op pri[3] = { stxxl::request_queue::NONE, stxxl::request_queue::READ, stxxl::request_queue::WRITE };
        stxxl::disk_queues::get_instance()->set_priority_op(pri[vp_param(3, 0)]);
        unsigned char sv = vp_u8("data"); buf io[6]; request_ptr r[6]; int slot[6], n = 0; bool wr[6], cancelled[6]; unsigned char val[6];
        vp_explore(1, P);
        for (int k = 0; k < K; ++k) {
            int op = k == 0 && vp_param(2, 99) != 99 ? (int)vp_param(2, 0) : (int)vp_choice("op", 5);
            if (op <= 1) { // read or write of the next slot; no two pending requests touch the same slot
                if (n >= 4) vp_assume(0); slot[n] = n; wr[n] = op == 1; cancelled[n] = false; val[n] = (unsigned char)(sv + n);
                if (op == 1) { io[n].set(val[n]); r[n] = f.awrite(&io[n], slot[n] * B, B, on_done(n)); } else { io[n].set(0xee); r[n] = f.aread(&io[n], slot[n] * B, B, on_done(n)); }
                ++n; }
            else if (n == 0) vp_assume(0);
            else if (op == 2) { r[0]->wait(); CHECKM(g_done[0] == !cancelled[0], "wait() returns after the request was completed"); }
            else if (op == 3) { if (cancelled[n - 1]) vp_assume(0); cancelled[n - 1] = r[n - 1]->cancel(); }
            else if (r[n - 1]->poll()) { r[n - 1]->wait(); CHECKM(g_done[n - 1] == !cancelled[n - 1], "poll() reports completed requests only"); }
        }
        for (int i = 0; i < n; ++i) { r[i]->wait(); CHECKM(g_done[i] == !cancelled[i], "every request is completed exactly once unless it was cancelled"); CHECKM(r[i]->poll(), "a completed request polls as completed");
            if (cancelled[i]) { if (!wr[i]) { CHECKM(io[i].is(0xee), "a cancelled read leaves the buffer alone"); } } else if (wr[i]) store[slot[i]].set(val[i]); else CHECKM(io[i].is((unsigned char)(i * 10)), "a read delivers the contents of the file"); }
        for (int i = 0; i < n; ++i) r[i] = request_ptr();
        vp_explore(0, 0);
        for (int i = 0; i < 4; ++i) { buf b; request_ptr q = f.aread(&b, i * B, B); q->wait(); CHECKM(memcmp(&b, &store[i], B) == 0, "exactly the completed writes are on the device"); }
        CHECKM(f.get_request_nref() == 0, "no request refers to the file any more"); vp_cover("end");
    }
}
// wait_any / wait_all / poll_any / cancel_all over n requests; params: which, n, preemptions
VP_HARNESS(io_any) {
    int which = vp_param(0, 0), n = vp_param(1, 2), P = vp_param(2, 2); init();
    {
        dev f; f.set_size(4 * B); buf io[4]; request_ptr r[4]; for (int i = 0; i < n; ++i) io[i].set((unsigned char)(7 * i + 1));
        { buf z; z.set(0); request_ptr q = f.awrite(&z, 3 * B, B); q->wait(); }
        vp_explore(1, P); vp_spurious_budget = vp_param(3, 0);
        for (int i = 0; i < n; ++i) r[i] = f.awrite(&io[i], i * B, B, on_done(i));
        if (which == 0) { size_t k = stxxl::wait_any(r, n); CHECKM(k < (size_t)n, "wait_any returns one of the requests"); CHECKM(r[k]->poll(), "wait_any returns a completed request"); r[k]->wait(); CHECK(g_done[k] == 1); }
        else if (which == 1) { stxxl::wait_all(r, n); for (int i = 0; i < n; ++i) CHECKM(g_done[i] == 1, "wait_all returns after all requests were completed"); }
        else if (which == 2) { size_t k = 99; bool any = stxxl::poll_any(r, n, k); CHECKM(any == (k < (size_t)n), "poll_any"); if (any) { r[k]->wait(); CHECKM(g_done[k] == 1, "poll_any returns a completed request"); } }
        else { long c = stxxl::cancel_all(r, r + n); stxxl::wait_all(r, n); int d = 0; for (int i = 0; i < n; ++i) d += g_done[i]; CHECKM(c + d == n, "cancel_all counts the requests that were not performed"); }
        stxxl::wait_all(r, n); vp_explore(0, 0); int d = 0; for (int i = 0; i < n; ++i) { if (which != 3) CHECK(g_done[i] == 1); } vp_cover("end"); (void)d;
    }
}
// a failing transfer: wait() and poll() report the error every time, other requests are not affected
VP_HARNESS(io_error) {
    int n = vp_param(0, 2), P = vp_param(1, 1); init();
    {
        dev f; f.set_size(4 * B); buf io[4]; request_ptr r[4]; { buf z; z.set(0); request_ptr q = f.awrite(&z, 3 * B, B); q->wait(); } f.served = 0; f.fail_at = (int)vp_choice("fail", n); int bad = 0;
        for (int i = 0; i < n; ++i) io[i].set((unsigned char)(7 * i + 1));
        vp_explore(1, P);
        for (int i = 0; i < n; ++i) r[i] = f.awrite(&io[i], i * B, B, on_done(i));
        if (vp_param(2, 0)) { // waiting for any of them
            try { stxxl::wait_any(r, n); } catch (const stxxl::io_error&) { ++bad; } bad = 0; }
        for (int i = 0; i < n; ++i) { bool e = false; try { r[i]->wait(); } catch (const stxxl::io_error&) { e = true; } CHECKM(e == (i == f.fail_at), "wait() throws io_error exactly for the failed request"); bad += e;
            bool e2 = false; try { CHECK(r[i]->poll()); } catch (const stxxl::io_error&) { e2 = true; } CHECKM(e2 == e, "poll() reports the error as well"); CHECKM(g_done[i] == 1, "the completion handler also runs for failed requests"); }
        vp_explore(0, 0); CHECK(bad == 1); CHECKM(f.get_request_nref() == 0, "no request refers to the file any more"); vp_cover("end");
    }
}
// clients in several threads
static dev* g_f; static request_ptr g_shared; static int g_ok;
struct client { int id; buf b; };
static dev* g_fs[2]; static void* first_use_main(void* p) { client* c = (client*)p; c->b.set((unsigned char)(c->id * 3 + 1)); request_ptr r = g_fs[c->id]->awrite(&c->b, 0, B, on_done(c->id)); r->wait(); CHECKM(g_done[c->id] == 1, "wait() returns after the request was completed"); buf q; request_ptr s = g_fs[c->id]->aread(&q, 0, B, on_done(2 + c->id)); if (!s->cancel()) { s->wait(); CHECKM(memcmp(&q, &c->b, B) == 0, "a read delivers what the same thread wrote"); } else s->wait(); return 0; }
static void* client_main(void* p) { client* c = (client*)p; c->b.set((unsigned char)(c->id * 3)); request_ptr r = g_f->awrite(&c->b, c->id * B, B, on_done(c->id)); r->wait(); CHECKM(g_done[c->id] == 1, "wait() returns after the request was completed"); buf q; request_ptr s = g_f->aread(&q, c->id * B, B); s->wait(); CHECKM(memcmp(&q, &c->b, B) == 0, "a read delivers what the same thread wrote"); return 0; }
static void* waiter_main(void*) { request_ptr r = g_shared; r->wait(); CHECKM(g_done[0] == 1, "wait() returns after the request was completed"); ++g_ok; return 0; }
static void* any_main(void*) { request_ptr r[1] = { g_shared }; CHECK(stxxl::wait_any(r, 1) == 0); CHECKM(r[0]->poll(), "wait_any returns a completed request"); ++g_ok; return 0; }
static void* cancel_main(void*) { request_ptr r = g_shared; if (r->cancel()) g_ok = 100; return 0; }
VP_HARNESS(io_threads) {
    int kind = vp_param(0, 0), P = vp_param(1, 2); init();
    { dev f; g_f = &f; f.set_size(4 * B); { buf z; z.set(0); request_ptr q = f.awrite(&z, 3 * B, B); q->wait(); } pthread_t t[2]; 
      if (kind == 0) { client c[2]; c[0].id = 0; c[1].id = 1; vp_explore(1, P); for (int i = 0; i < 2; ++i) pthread_create(&t[i], 0, client_main, &c[i]); for (int i = 0; i < 2; ++i) pthread_join(t[i], 0); vp_explore(0, 0); }
      else if (kind == 4) { dev f1(1), f2(2); g_fs[0] = &f1; g_fs[1] = &f2; f1.set_size(B); f2.set_size(B); client c[2]; c[0].id = 0; c[1].id = 1; vp_explore(1, P); for (int i = 0; i < 2; ++i) pthread_create(&t[i], 0, first_use_main, &c[i]); stxxl::disk_queues::get_instance()->set_priority_op(stxxl::request_queue::READ); for (int i = 0; i < 2; ++i) pthread_join(t[i], 0); vp_explore(0, 0); CHECK(stxxl::disk_queues::get_instance()->get_queue(1) != stxxl::disk_queues::get_instance()->get_queue(2)); CHECKM(f1.get_request_nref() == 0 && f2.get_request_nref() == 0, "no request refers to the file any more"); }
      else { buf b; b.set(5); vp_explore(1, P); vp_signal_choice = 1; g_shared = f.awrite(&b, 0, B, on_done(0)); for (int i = 0; i < 2; ++i) pthread_create(&t[i], 0, kind == 3 ? cancel_main : i == 0 || kind == 1 ? waiter_main : any_main, 0);
        if (kind == 3) { g_shared->wait(); } for (int i = 0; i < 2; ++i) pthread_join(t[i], 0); g_shared->wait(); vp_explore(0, 0);
        if (kind == 3) CHECKM((g_ok == 100) == (g_done[0] == 0), "a request is either cancelled or performed"); else CHECKM(g_ok == 2, "all waiting threads are released"); g_shared = request_ptr(); }
      CHECKM(f.get_request_nref() == 0, "no request refers to the file any more"); vp_cover("end"); }
}
// queues used directly: all requests submitted before the queue is destroyed are performed exactly once
struct my_req : stxxl::serving_request { my_req(const stxxl::completion_handler& h, file* f, void* b, offset_type o, size_type n, request_type t) : stxxl::serving_request(h, f, b, o, n, t) {} void give_up() { completed(true); } };
template <class Q> static void shutdown(int n, int P, int reads, int cancel, int same = 0) { // same: all requests go to the same location, cancelling any of them
    int c = same ? (int)vp_choice("which", n) : n - 1, last = -1, st = same ? 0 : B;
    dev f; f.set_size(4 * B); buf io[4]; request_ptr r[4]; { stxxl::mem_file& m = f; buf z; z.set(9); for (int i = 0; i < 4; ++i) m.stxxl::mem_file::serve(&z, i * B, B, request::WRITE); }
    bool gone = false;
    vp_explore(1, P);
    { Q q;
      for (int i = 0; i < n; ++i) { bool rd = (reads >> i) & 1; io[i].set((unsigned char)(rd ? 0 : 20 + i)); r[i] = request_ptr(new my_req(on_done(i), &f, &io[i], i * st, B, rd ? request::READ : request::WRITE)); q.add_request(r[i]); }
      if (cancel) { gone = q.cancel_request(r[c]); if (gone) ((my_req*)r[c].get())->give_up(); bool again = q.cancel_request(r[c]); CHECKM(!again, "a request is cancelled only once"); } }
    vp_explore(0, 0);
    for (int i = 0; i < n; ++i) if (!(gone && i == c)) last = i;
    for (int i = 0; i < n; ++i) { CHECKM(g_done[i] == !(gone && i == c), "destroying the queue performs all pending requests"); CHECK(r[i]->poll()); buf b; f.stxxl::mem_file::serve(&b, i * st, B, request::READ); bool rd = (reads >> i) & 1; if (g_done[i]) { CHECKM(b.is((unsigned char)(rd ? 9 : 20 + (same ? last : i))), "device contents"); if (rd) CHECKM(io[i].is(9), "read contents"); } else CHECKM(io[i].is((unsigned char)(rd ? 0 : 20 + i)) && (rd || b.is((unsigned char)(same && last >= 0 ? 20 + last : 9))), "a cancelled write does not reach the device"); }
    CHECKM(f.get_request_nref() == 0, "no request refers to the file any more"); vp_cover("end");
}
VP_HARNESS(io_shutdown) { init(); if (vp_param(0, 0) == 0) shutdown<stxxl::request_queue_impl_qwqr>(vp_param(1, 2), vp_param(2, 2), vp_param(3, 1), vp_param(4, 0), vp_param(5, 0)); else shutdown<stxxl::request_queue_impl_1q>(vp_param(1, 2), vp_param(2, 2), vp_param(3, 1), vp_param(4, 0), vp_param(5, 0)); }

// ---- synchronisation primitives
static stxxl::semaphore* g_sem; static stxxl::onoff_switch* g_sw; static stxxl::state<int>* g_st; static int g_cnt, g_max, g_cur;
static void* sem_down(void*) { (*g_sem)--; ++g_cur; if (g_cur > g_max) g_max = g_cur; vp_sched_point(); --g_cur; ++g_cnt; (*g_sem)++; return 0; }
static void* sem_take(void*) { (*g_sem)--; ++g_cnt; return 0; }
static void* sem_give(void*) { (*g_sem)++; return 0; }
static void* sw_on(void*) { vp_sched_point(); ++g_cnt; g_sw->on(); return 0; }
static void* sw_wait(void*) { g_sw->wait_for_on(); CHECKM(g_cnt == 1, "wait_for_on() returns only after the switch was turned on"); return 0; }
static void* sw_off(void*) { vp_sched_point(); ++g_cnt; g_sw->off(); return 0; }
static void* st_wait(void*) { g_st->wait_for(2); CHECKM(g_cnt == 2, "wait_for() returns only when the state was reached"); ++g_max; return 0; }
VP_HARNESS(sync_prims) {
    int kind = vp_param(0, 0), P = vp_param(1, 3), n = vp_param(2, 3); vp_signal_choice = 1; pthread_t t[6]; vp_spurious_budget = vp_param(3, 1);
    stxxl::semaphore sem(kind == 0 ? 2 : 0); stxxl::onoff_switch sw(kind == 3); stxxl::state<int> st(0); g_sem = &sem; g_sw = &sw; g_st = &st;
    vp_explore(1, P);
    if (kind == 0) { for (int i = 0; i < n; ++i) pthread_create(&t[i], 0, sem_down, 0); for (int i = 0; i < n; ++i) pthread_join(t[i], 0); CHECKM(g_max <= 2, "a semaphore lets at most its value of threads in"); CHECK(g_cnt == n); }
    else if (kind == 1) { for (int i = 0; i < 2; ++i) pthread_create(&t[i], 0, sem_take, 0); for (int i = 2; i < 4; ++i) pthread_create(&t[i], 0, sem_give, 0); for (int i = 0; i < 4; ++i) pthread_join(t[i], 0); CHECKM(g_cnt == 2, "no wake-up of a semaphore is lost"); }
    else if (kind == 2) { pthread_create(&t[0], 0, sw_wait, 0); pthread_create(&t[1], 0, sw_on, 0); for (int i = 0; i < 2; ++i) pthread_join(t[i], 0); CHECK(sw.is_on()); }
    else if (kind == 3) { pthread_create(&t[1], 0, sw_off, 0); sw.wait_for_off(); CHECKM(g_cnt == 1, "wait_for_off() returns only after the switch was turned off"); pthread_join(t[1], 0); CHECK(!sw.is_on()); }
    else { for (int i = 0; i < 2; ++i) pthread_create(&t[i], 0, st_wait, 0); g_cnt = 1; st.set_to(1); vp_sched_point(); g_cnt = 2; st.set_to(2); for (int i = 0; i < 2; ++i) pthread_join(t[i], 0); CHECKM(g_max == 2, "all threads waiting for a state are released"); CHECK(st() == 2); }
    vp_explore(0, 0); vp_cover("end");
}
