// Harness interface.  Implemented by the symbolic executor (guest) and by
// rt/native.cpp (concrete replay against natively compiled code).
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
extern "C" {
typedef unsigned long long vp_u64;
vp_u64 vp_sym(const char* name, unsigned bits);      // fresh symbolic value
vp_u64 vp_choice(const char* name, vp_u64 n);         // fork over 0..n-1
void vp_assume(int c);
void vp_check(int c, const char* msg);
void vp_fail(const char* msg) __attribute__ ((noreturn));
void vp_cover(const char* name);                     // reachability witness
void vp_observe(vp_u64 v);                           // compared between engine and native replay
vp_u64 vp_param(unsigned i, vp_u64 dflt);
vp_u64 vp_concretize(vp_u64 v);
int vp_is_symbolic(vp_u64 v);
int vp_native(void);                                 // 1 in native replay
vp_u64 vp_live_heap(void);
void vp_explore(int on, int preemptions);
void vp_debug(const char* s, vp_u64 v);
void vp_done(void) __attribute__ ((noreturn));
int vp_thread_create(void* (* fn)(void*), void* arg);
int vp_thread_self(void);
void vp_thread_block(const void* addr);
void vp_thread_wake(const void* addr, int n);
vp_u64 vp_thread_join(int id);
void vp_sched_point(void);
void vp_hb_acquire(const void* a);                   // synchronises with earlier vp_hb_release(a)
void vp_hb_release(const void* a);
void vp_races(int on);                               // report unsynchronised conflicting accesses
void vp_yield(void);
void vp_give_way(void);                              // run the next runnable thread
unsigned vp_slice(void);                             // number of context switches so far
vp_u64 vp_file_size(const char* path);               // model file system: size, ~0 if absent
void vp_file_set(const char* path, const void* data, size_t n);
size_t vp_file_get(const char* path, size_t off, void* data, size_t n);
unsigned vp_files_open(void);
extern char* (* vp_getenv_hook)(const char*);         // the environment (empty if null)
extern int vp_format;                                // render integers/strings into string streams
extern int vp_io_fault_budget, vp_io_fault_kinds;    // 1 short 2 EINTR 4 EIO 8 ENOSPC 16 zero-length
extern int vp_spurious_budget;                       // spurious wakeups of condition variables
extern int vp_signal_choice;                         // which waiter a cond_signal wakes is a choice
extern int vp_io_calls, vp_io_faults;
}
static inline vp_u64 vp_range(const char* name, vp_u64 lo, vp_u64 hi) { vp_u64 v = vp_sym(name, 64); vp_assume(v >= lo && v <= hi); return v; }
static inline unsigned char vp_u8(const char* name) { return (unsigned char)vp_sym(name, 8); }
static inline unsigned vp_u32(const char* name) { return (unsigned)vp_sym(name, 32); }
static inline vp_u64 vp_u64s(const char* name) { return vp_sym(name, 64); }
#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
#define CHECK(c) vp_check((c) ? 1 : 0, #c " (" __FILE__ ":" VP_STR(__LINE__) ")")
#define CHECKM(c, m) vp_check((c) ? 1 : 0, m " [" #c "]")
#ifdef VP_NATIVE
struct vp_reg { vp_reg(const char* n, void (* f)()); };
#define VP_HARNESS(name) static void name(); static vp_reg vp_reg_ ## name(#name, name); static void name()
#else
#define VP_HARNESS(name) extern "C" void name()
#endif
#endif
