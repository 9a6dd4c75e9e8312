// Native replay: runs one harness of the really compiled code on recorded
// input values.  usage: prog HARNESS INPUTFILE [params...]
// Threads are coroutines on one OS thread, scheduled by the recorded choices.
#include "vp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>
#include <unistd.h>
#include <pthread.h>
#include <fcntl.h>
#include <signal.h>
#include <execinfo.h>
#include <vector>
#include <string>
#include <typeinfo>
#include <exception>
#include <cxxabi.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#define FIBERS 1
#else
#define FIBERS 0
#endif
// flavour that confirms data races: everything but this file and env.cpp is built with -fsanitize=thread
extern "C" { void* __tsan_create_fiber(unsigned) __attribute__ ((weak)); void* __tsan_get_current_fiber(void) __attribute__ ((weak)); void __tsan_switch_to_fiber(void*, unsigned) __attribute__ ((weak)); }
namespace __cxxabiv1 { struct vp_ehg { void* caught; unsigned uncaught; }; }
int vp_format = 1; extern "C" pthread_t __real_pthread_self(void);
static std::vector<vp_u64> g_in; static std::vector<std::string> g_names; static size_t g_pos; static std::vector<vp_u64> g_par;
static vp_u64 g_hash = 1469598103934665603ull, g_nobs = 0;
struct reg { const char* n; void (* f)(); }; static reg g_regs[512]; static int g_nregs;
vp_reg::vp_reg(const char* n, void (* f)()) { g_regs[g_nregs].n = n; g_regs[g_nregs++].f = f; }
static void finish(int code, const char* what, const char* msg) {
    char b[1400]; int n = snprintf(b, sizeof b, "VP-RESULT %s obs=%016llx nobs=%llu used=%zu %s\n", what, g_hash, g_nobs, g_pos, msg); fputs(b, stdout); fflush(0); _exit(code);
}
static vp_u64 next(const char* name, unsigned bits) {
    if (g_pos < g_in.size()) { std::string& r = g_names[g_pos]; size_t h = r.rfind('#'); if (r.substr(0, h) != name) { finish(78, "diverged", (std::string("expected input ") + r + " but the code asked for " + name).c_str()); }
        vp_u64 v = g_in[g_pos++]; return bits >= 64 ? v : v & ((1ull << bits) - 1); }
    g_pos++; return 0;
}
extern "C" {
vp_u64 vp_sym(const char* n, unsigned b) { return next(n, b); }
vp_u64 vp_choice(const char* n, vp_u64 k) { vp_u64 v = next(n, 32); return v < k ? v : k - 1; }
void vp_assume(int c) { if (!c) finish(77, "assumed-away", ""); }
void vp_check(int c, const char* m) { if (!c) finish(42, "check", m); }
void vp_fail(const char* m) { finish(42, "check", m); abort(); }
void vp_cover(const char*) {}
void vp_observe(vp_u64 v) { g_nobs++; for (int b = 0; b < 8; ++b) { g_hash ^= (v >> (8 * b)) & 255; g_hash *= 1099511628211ull; } }
vp_u64 vp_param(unsigned i, vp_u64 d) { return i < g_par.size() ? g_par[i] : d; }
vp_u64 vp_concretize(vp_u64 v) { return v; }
int vp_is_symbolic(vp_u64) { return 0; }
int vp_native(void) { return 1; }
vp_u64 vp_live_heap(void) { return 0; }
void vp_debug(const char*, vp_u64) {}
void vp_done(void) { finish(0, "ok", ""); abort(); }
// ---------------------------------------------------------------- threads
struct thr { ucontext_t uc; int status; const void* block; void* (* fn)(void*); void* arg; vp_u64 ret; char* stack; size_t ssz; void* eh[2]; void* fake; void* tsan; };
static thr* g_t[64]; static int g_n, g_cur; static int g_explore, g_pre;
static const void* JOIN(int id) { return (const void*)(0x100000000ull + id); }
static void init0() { if (!g_n) { g_t[0] = (thr*)calloc(1, sizeof(thr)); g_n = 1; 
} }
static unsigned g_slice; static bool g_mainfirst;
static void switchTo(int id) {
    if (id == g_cur) return; ++g_slice; thr* a = g_t[g_cur]; thr* b = g_t[id]; g_cur = id;
    void** eh = (void**)abi::__cxa_get_globals(); a->eh[0] = eh[0]; a->eh[1] = eh[1]; eh[0] = b->eh[0]; eh[1] = b->eh[1];
#if FIBERS
    static const void* s0b; static size_t s0s; if (!s0s && a == g_t[0]) { pthread_attr_t at; void* sb; size_t ss; pthread_getattr_np(__real_pthread_self(), &at); pthread_attr_getstack(&at, &sb, &ss); pthread_attr_destroy(&at); s0b = sb; s0s = ss; }
    __sanitizer_start_switch_fiber(&a->fake, b->stack ? b->stack : (const char*)s0b, b->stack ? b->ssz : s0s);
#endif
    if (__tsan_create_fiber) { if (!a->tsan) a->tsan = __tsan_get_current_fiber(); if (!b->tsan) b->tsan = __tsan_create_fiber(0); __tsan_switch_to_fiber(b->tsan, 1); }
    swapcontext(&a->uc, &b->uc);
#if FIBERS
    __sanitizer_finish_switch_fiber(g_t[g_cur]->fake, 0, 0);
#endif
}
static int pick(int* o, int n) { if (n == 1 || !g_explore) return o[0]; vp_u64 v = next("sched", 8); return o[v < (vp_u64)n ? v : 0]; }
static void schedPick() {
    int o[64], n = 0; for (int k = 1; k <= g_n; ++k) { int i = (g_cur + k) % g_n; if (g_t[i]->status == 0) o[n++] = i; }
    if (!n) finish(43, "deadlock", "all threads blocked");
    switchTo(pick(o, n));
}
static void preempt() {
    if (!g_explore && g_cur && g_mainfirst && g_t[0]->status == 0) { switchTo(0); return; }
    if (!g_explore || g_pre <= 0) return; int o[64], n = 0; o[n++] = g_cur; for (int k = 1; k < g_n; ++k) { int i = (g_cur + k) % g_n; if (g_t[i]->status == 0) o[n++] = i; }
    if (n < 2) return; int c = pick(o, n); if (c != g_cur) { g_pre--; switchTo(c); }
}
static void entry() {
#if FIBERS
    __sanitizer_finish_switch_fiber(0, 0, 0);
#endif
    thr* t = g_t[g_cur]; vp_hb_acquire((char*)g_t + g_cur);
    t->ret = (vp_u64)t->fn(t->arg); vp_hb_release((char*)g_t + g_cur);
    t->status = 2; for (int i = 0; i < g_n; ++i) if (g_t[i]->status == 1 && g_t[i]->block == JOIN(g_cur)) g_t[i]->status = 0;
    schedPick(); abort();
}
int vp_thread_create(void* (* fn)(void*), void* arg) {
    init0(); int id = g_n++; vp_hb_release((char*)g_t + id); thr* t = g_t[id] = (thr*)calloc(1, sizeof(thr)); t->fn = fn; t->arg = arg; t->ssz = 1 << 20; t->stack = (char*)malloc(t->ssz);
    getcontext(&t->uc); t->uc.uc_stack.ss_sp = t->stack; t->uc.uc_stack.ss_size = t->ssz; t->uc.uc_link = 0; makecontext(&t->uc, (void (*)())entry, 0); if (__tsan_create_fiber) t->tsan = __tsan_create_fiber(0);
    preempt(); return id;
}
int vp_thread_self(void) { return g_cur; }
void vp_thread_block(const void* a) { init0(); g_t[g_cur]->status = 1; g_t[g_cur]->block = a; schedPick(); }
void vp_thread_wake(const void* a, int n) { init0(); int w[64], k = 0; for (int i = 0; i < g_n; ++i) if (g_t[i]->status == 1 && g_t[i]->block == a) w[k++] = i; if (!k) return; if (n > 0) g_t[w[n >= 1000 ? (n - 1000) % k : 0]]->status = 0; else while (k) g_t[w[--k]]->status = 0; }
vp_u64 vp_thread_join(int id) { init0(); if (id < 0 || id >= g_n) vp_fail("join of unknown thread"); while (g_t[id]->status != 2) { g_t[g_cur]->status = 1; g_t[g_cur]->block = JOIN(id); schedPick(); } vp_hb_acquire((char*)g_t + id); return g_t[id]->ret; }
void vp_explore(int on, int p) { g_explore = on; g_pre = p; }
extern void __tsan_acquire(void*) __attribute__ ((weak)); extern void __tsan_release(void*) __attribute__ ((weak));
void vp_hb_acquire(const void* a) { if (__tsan_acquire) __tsan_acquire((void*)a); }
void vp_hb_release(const void* a) { if (__tsan_release) __tsan_release((void*)a); }
void vp_races(int) {}
void vp_sched_point(void) { init0(); preempt(); }
unsigned vp_slice(void) { return g_slice; }
void vp_give_way(void) { init0(); for (int k = 1; k < g_n; ++k) { int i = (g_cur + k) % g_n; if (g_t[i]->status == 0) { switchTo(i); return; } } }
void vp_yield(void) { init0(); int o[64], n = 0; for (int k = 1; k <= g_n; ++k) { int i = (g_cur + k) % g_n; if (g_t[i]->status == 0) o[n++] = i; } switchTo(pick(o, n)); }
static void (* g_ae[64])(void); static int g_nae;
int __wrap_atexit(void (* f)(void)) { g_ae[g_nae++] = f; return 0; }
void vp_run_atexit(void) { while (g_nae) g_ae[--g_nae](); }
#ifdef VP_ALLOC
// replay without a sanitizer: fresh memory has a fixed non-zero content
#endif
}
static void onsig(int s) { finish(44, s == SIGABRT ? "abort" : s == SIGALRM ? "hang" : "signal", strsignal(s)); }
static void onterm() {
    const char* n = "unknown"; if (std::type_info* t = abi::__cxa_current_exception_type()) n = t->name();
    std::string m = n; try { throw; } catch (std::exception& e) { m += ": "; m += e.what(); } catch (...) {}
    for (size_t i = 0; i < m.size(); ++i) if (m[i] == '\n') m[i] = ' ';
    finish(45, "uncaught-exception", m.substr(0, 600).c_str());
}
int main(int argc, char** argv) {
    if (argc < 3) return 2; std::set_terminate(onterm);
    static char alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
    int sg[] = { SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGALRM }; for (int s : sg) { if (FIBERS && (s == SIGSEGV || s == SIGBUS || s == SIGFPE)) continue; struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK; sigaction(s, &sa, 0); }
    alarm(60);
    if (FILE* f = fopen(argv[2], "r")) { char n[256]; unsigned long long v; while (fscanf(f, "%255s %llu", n, &v) == 2) { g_names.push_back(n); g_in.push_back(v); } fclose(f); }
    for (int i = 3; i < argc; ++i) g_par.push_back(strtoull(argv[i], 0, 10));
    g_mainfirst = false; for (char** e = environ; *e; ++e) if (!strcmp(*e, "VP_MAINFIRST=1")) g_mainfirst = true; init0();
    for (int i = 0; i < g_nregs; ++i) if (!strcmp(g_regs[i].n, argv[1])) { g_regs[i].f(); finish(0, "ok", ""); }
    fprintf(stderr, "no harness %s\n", argv[1]); return 2;
}
