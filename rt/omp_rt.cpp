// OpenMP run time on top of the harness threads, for the guest (clang: __kmpc_*) and the native replay (gcc: GOMP_*).
// Teams have omp_set_num_threads() threads, 1 by default; worker threads are kept for later regions.
#ifndef VP_NATIVE
#include <parallel/settings.h>
#endif
#include <stdarg.h>
#include <stdint.h>
#include "vp.h"
#ifndef VP_NATIVE
namespace __gnu_parallel {
static _Settings* vp_st;
const _Settings& _Settings::get() throw () { if (!vp_st) vp_st = new _Settings(); return *vp_st; }
void _Settings::set(_Settings& s) throw () { get(); *vp_st = s; }
}
#endif
struct vp_team { int n, arrived, gen, singles, done; void (* run)(int, void*); void* arg; int64_t lo, hi; int loops; };
struct vp_ctx { vp_team* t; int id, singles, req, loops; };
struct vp_worker { vp_team* job; int id; };
static vp_ctx vp_cx[64]; static vp_worker vp_wk[32]; static int vp_nwk, vp_maxt = 1, vp_nested, vp_red;
static vp_ctx& vp_me() { return vp_cx[vp_thread_self()]; }
static void* vp_work(void* a) {
    vp_worker* w = (vp_worker*)a;
    for ( ; ; ) { while (!w->job) vp_thread_block(w); vp_hb_acquire(w); vp_team* t = w->job; vp_ctx& c = vp_me(); c.t = t; c.id = w->id; c.singles = c.req = c.loops = 0; t->run(w->id, t->arg); c.t = 0; vp_hb_release(t); w->job = 0; t->done++; vp_thread_wake(t, -1); }
    return 0;
}
static void vp_parallel(void (* run)(int, void*), void* arg, int n) {
    vp_ctx& c = vp_me(); vp_ctx save = c; if (n <= 0) n = save.req ? save.req : vp_maxt; if (save.t && save.t->n > 1 && !vp_nested) n = 1;
    vp_team t = { n, 0, 0, 0, 0, run, arg, 0, 0, 0 }; c.t = &t; c.id = c.singles = c.req = c.loops = 0;
    for (int i = 1; i < n; ++i) { int k = 0; while (k < vp_nwk && vp_wk[k].job) ++k; bool fresh = k == vp_nwk; if (fresh && ++vp_nwk > 32) vp_fail("too many threads for the OpenMP model"); vp_hb_release(&vp_wk[k]); vp_wk[k].id = i; vp_wk[k].job = &t; if (fresh) vp_thread_create(vp_work, &vp_wk[k]); else { vp_thread_wake(&vp_wk[k], -1); vp_sched_point(); } }
    run(0, arg); while (t.done < n - 1) vp_thread_block(&t); if (n > 1) vp_hb_acquire(&t); vp_me() = save; vp_me().req = 0;
}
static void vp_barrier() { vp_team* t = vp_me().t; if (!t || t->n == 1) return; vp_hb_release(&t->gen); if (++t->arrived == t->n) { t->arrived = 0; ++t->gen; vp_thread_wake(&t->gen, -1); } else { int g = t->gen; while (t->gen == g) vp_thread_block(&t->gen); } vp_hb_acquire(&t->gen); vp_sched_point(); }
static int vp_single() { vp_ctx& c = vp_me(); if (!c.t || c.t->n == 1) return 1; vp_sched_point(); if (c.singles++ == c.t->singles) { ++c.t->singles; return 1; } return 0; }
static void vp_lock(int* l) { vp_sched_point(); while (*l) vp_thread_block(l); vp_hb_acquire(l); *l = 1; }
static void vp_unlock(int* l) { vp_hb_release(l); *l = 0; vp_thread_wake(l, -1); vp_sched_point(); }
extern "C" {
int omp_get_max_threads() { return vp_me().req ? vp_me().req : vp_maxt; } int omp_get_num_threads() { vp_ctx& c = vp_me(); return c.t ? c.t->n : 1; } int omp_get_thread_num() { return vp_me().t ? vp_me().id : 0; }
void omp_set_num_threads(int n) { vp_maxt = n; } int omp_get_nested() { return vp_nested; } void omp_set_nested(int n) { vp_nested = n; } int omp_in_parallel() { vp_ctx& c = vp_me(); return c.t && c.t->n > 1; } int omp_get_num_procs() { return vp_maxt; } int omp_get_max_active_levels() { return 1; } void omp_set_dynamic(int) {} double omp_get_wtime() { return 0; }
#ifdef VP_NATIVE
struct vp_gp { void (* fn)(void*); void* data; }; static void vp_grun(int, void* p) { ((vp_gp*)p)->fn(((vp_gp*)p)->data); }
void GOMP_parallel(void (* fn)(void*), void* data, unsigned n, unsigned) { vp_gp g = { fn, data }; vp_parallel(vp_grun, &g, (int)n); }
void GOMP_barrier() { vp_barrier(); } bool GOMP_single_start() { return vp_single() != 0; }
static int vp_gcrit; void GOMP_critical_start() { vp_lock(&vp_gcrit); } void GOMP_critical_end() { vp_unlock(&vp_gcrit); } void GOMP_critical_name_start(void** p) { vp_lock((int*)p); } void GOMP_critical_name_end(void** p) { vp_unlock((int*)p); }
void GOMP_atomic_start() { vp_lock(&vp_red); } void GOMP_atomic_end() { vp_unlock(&vp_red); }
#else
typedef void* P; struct vp_kp { P f; int n; P a[16]; };
static void vp_krun(int tid, void* q) {
    vp_kp* k = (vp_kp*)q; P f = k->f; P* a = k->a; int z = tid, b = 0;
    switch (k->n) {
    case 0: ((void (*)(int*, int*))f)(&z, &b); return;
    case 1: ((void (*)(int*, int*, P))f)(&z, &b, a[0]); return;
    case 2: ((void (*)(int*, int*, P, P))f)(&z, &b, a[0], a[1]); return;
    case 3: ((void (*)(int*, int*, P, P, P))f)(&z, &b, a[0], a[1], a[2]); return;
    case 4: ((void (*)(int*, int*, P, P, P, P))f)(&z, &b, a[0], a[1], a[2], a[3]); return;
    case 5: ((void (*)(int*, int*, P, P, P, P, P))f)(&z, &b, a[0], a[1], a[2], a[3], a[4]); return;
    case 6: ((void (*)(int*, int*, P, P, P, P, P, P))f)(&z, &b, a[0], a[1], a[2], a[3], a[4], a[5]); return;
    case 7: ((void (*)(int*, int*, P, P, P, P, P, P, P))f)(&z, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6]); return;
    case 8: ((void (*)(int*, int*, P, P, P, P, P, P, P, P))f)(&z, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); return;
    case 9: ((void (*)(int*, int*, P, P, P, P, P, P, P, P, P))f)(&z, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); return;
    case 10: ((void (*)(int*, int*, P, P, P, P, P, P, P, P, P, P))f)(&z, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]); return;
    case 11: ((void (*)(int*, int*, P, P, P, P, P, P, P, P, P, P, P))f)(&z, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10]); return;
    case 12: ((void (*)(int*, int*, P, P, P, P, P, P, P, P, P, P, P, P))f)(&z, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]); return;
    default: vp_fail("parallel region with too many captured variables for the model");
    }
}
int __kmpc_global_thread_num(void*) { return vp_thread_self(); }
void __kmpc_fork_call(void*, int n, P f, ...) { vp_kp k; k.f = f; k.n = n; va_list ap; va_start(ap, f); for (int i = 0; i < n && i < 16; ++i) k.a[i] = va_arg(ap, P); va_end(ap); vp_parallel(vp_krun, &k, 0); }
void __kmpc_push_num_threads(void*, int, int n) { vp_me().req = n; }
void __kmpc_barrier(void*, int) { vp_barrier(); }
int __kmpc_single(void*, int) { return vp_single(); } void __kmpc_end_single(void*, int) {}
int __kmpc_master(void*, int) { return omp_get_thread_num() == 0; } void __kmpc_end_master(void*, int) {}
int __kmpc_masked(void*, int, int) { return omp_get_thread_num() == 0; } void __kmpc_end_masked(void*, int) {}
void __kmpc_critical(void*, int, void* l) { vp_lock((int*)l); } void __kmpc_end_critical(void*, int, void* l) { vp_unlock((int*)l); } void __kmpc_critical_with_hint(void*, int, void* l, uint32_t) { vp_lock((int*)l); }
void __kmpc_flush(void*) {}
static vp_ctx vp_ser[64]; void __kmpc_serialized_parallel(void*, int) { vp_ser[vp_thread_self()] = vp_me(); vp_me().t = 0; } void __kmpc_end_serialized_parallel(void*, int) { vp_me() = vp_ser[vp_thread_self()]; }
int __kmpc_reduce(void*, int, int, long, void*, void (*)(void*, void*), void*) { vp_lock(&vp_red); return 1; } void __kmpc_end_reduce(void*, int, void*) { vp_unlock(&vp_red); vp_barrier(); }
int __kmpc_reduce_nowait(void*, int, int, long, void*, void (*)(void*, void*), void*) { vp_lock(&vp_red); return 1; } void __kmpc_end_reduce_nowait(void*, int, void*) { vp_unlock(&vp_red); }
// static schedule: contiguous parts, the first ones longer, as gcc divides them
#define STAT(S, T, ST) void __kmpc_for_static_init_ ## S(void*, int, int sched, int* last, T* lo, T* hi, ST* st, ST incr, ST) { \
        ST lb = (ST)*lo, ub = (ST)*hi; int n = omp_get_num_threads(), id = omp_get_thread_num(); if (n == 1) { *last = 1; return; } if (sched != 34) vp_fail("unsupported loop schedule"); \
        ST trip = incr == 1 ? ub - lb + 1 : incr > 0 ? (ub - lb) / incr + 1 : (lb - ub) / -incr + 1, q = trip / n, r = trip % n, b = q * id + (id < r ? id : r), e = b + q + (id < r); \
        *lo = (T)(lb + b * incr); *hi = (T)(lb + (e - 1) * incr); *last = e == trip && e > b; *st = trip; }
STAT(4, int32_t, int32_t) STAT(4u, uint32_t, int32_t) STAT(8, int64_t, int64_t) STAT(8u, uint64_t, int64_t)
void __kmpc_for_static_fini(void*, int) {}
// dynamic schedule: a team of one thread gets everything
#define DISP(S, T, ST) void __kmpc_dispatch_init_ ## S(void*, int, int, T lb, T ub, ST, ST) { vp_ctx& c = vp_me(); if (c.t && c.t->n > 1) vp_fail("dynamic loop schedule in a team of several threads"); static vp_team solo; vp_team* t = c.t ? c.t : &solo; t->lo = lb; t->hi = ub; t->loops = 1; } \
    int __kmpc_dispatch_next_ ## S(void*, int, int* last, T* lb, T* ub, ST* st) { vp_ctx& c = vp_me(); vp_team* t = c.t; if (!t || !t->loops || (T)t->lo > (T)t->hi) return 0; t->loops = 0; *lb = (T)t->lo; *ub = (T)t->hi; *st = 1; *last = 1; return 1; }
DISP(4, int32_t, int32_t) DISP(4u, uint32_t, int32_t) DISP(8, int64_t, int64_t) DISP(8u, uint64_t, int64_t)
#endif
}
