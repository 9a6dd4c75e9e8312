// Environment model shared by the symbolic executor and the native replay:
// POSIX threads over the cooperative scheduler, a small POSIX file system with
// fault injection, clock and process environment.  Every symbol __wrap_X
// replaces X (engine: undefined symbols; native: ld --wrap).
#include "vp.h"
#include <errno.h>
#include <pthread.h>
#include <string.h>
#include <stdlib.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <linux/aio_abi.h>

extern "C" {
int vp_io_fault_budget = 0, vp_io_fault_kinds = 0, vp_spurious_budget = 0, vp_signal_choice = 0, vp_io_calls = 0, vp_io_faults = 0;

// ------------------------------------------------------------------ threads
struct vp_mutex { int locked; int owner; int waiters; unsigned slice; int rounds; };
// the scheduler is fair: a thread that keeps locking the same mutex without ever blocking is made to give way
static void fair(vp_mutex* m) { unsigned s = vp_slice(); if (m->slice != s) { m->slice = s; m->rounds = 0; } if (++m->rounds > 12) { m->rounds = 0; vp_give_way(); } }
struct vp_cond { int waiters; int sig; };
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t*) { memset(m, 0, sizeof(vp_mutex)); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* mm) { vp_mutex* m = (vp_mutex*)mm; if (m->locked) return EBUSY; return 0; }
static void lock_raw(vp_mutex* m) {
    while (m->locked) { m->waiters++; vp_thread_block(m); m->waiters--; }
    m->locked = 1; m->owner = vp_thread_self(); vp_hb_acquire(m);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* mm) { fair((vp_mutex*)mm); vp_sched_point(); lock_raw((vp_mutex*)mm); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* mm) { vp_sched_point(); vp_mutex* m = (vp_mutex*)mm; if (m->locked) return EBUSY; m->locked = 1; m->owner = vp_thread_self(); vp_hb_acquire(m); return 0; }
static void unlock_raw(vp_mutex* m) {
    if (!m->locked || m->owner != vp_thread_self()) vp_fail("mutex unlocked by a thread that does not hold it");
    vp_hb_release(m); m->locked = 0; if (m->waiters) vp_thread_wake(m, -1);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* mm) { unlock_raw((vp_mutex*)mm); vp_sched_point(); return 0; }
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof(vp_cond)); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t* cc) { vp_cond* c = (vp_cond*)cc; if (c->waiters) vp_fail("condition variable destroyed while a thread waits on it"); return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t* cc, pthread_mutex_t* mm) {
    vp_cond* c = (vp_cond*)cc; vp_mutex* m = (vp_mutex*)mm;
    unlock_raw(m);
    if (vp_spurious_budget > 0 && vp_choice("spurious", 2)) { vp_spurious_budget--; vp_sched_point(); lock_raw(m); return 0; }
    c->waiters++; vp_thread_block(c); c->waiters--; lock_raw(m); return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t* cc) { vp_cond* c = (vp_cond*)cc; if (c->waiters) vp_thread_wake(c, vp_signal_choice && c->waiters > 1 ? 1000 + (int)vp_choice("signal", c->waiters) : 1); vp_sched_point(); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t* cc) { vp_cond* c = (vp_cond*)cc; if (c->waiters) vp_thread_wake(c, -1); vp_sched_point(); return 0; }
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t*, void* (* fn)(void*), void* arg) { *t = (pthread_t)(vp_thread_create(fn, arg) + 1); return 0; }
int __wrap_pthread_join(pthread_t t, void** r) { vp_u64 v = vp_thread_join((int)t - 1); if (r) *r = (void*)v; return 0; }
pthread_t __wrap_pthread_self(void) { return (pthread_t)(vp_thread_self() + 1); }
int __wrap_pthread_detach(pthread_t) { return 0; }

// ------------------------------------------------------------------ clock, process
static long vp_clock_us = 1000000;
int __wrap_gettimeofday(struct timeval* tv, void*) { vp_clock_us += 1; tv->tv_sec = vp_clock_us / 1000000; tv->tv_usec = vp_clock_us % 1000000; return 0; }
int __wrap_usleep(unsigned us) { vp_clock_us += us; vp_yield(); return 0; }
unsigned __wrap_sleep(unsigned s) { vp_clock_us += s * 1000000L; vp_yield(); return 0; }
int __wrap_getpid(void) { return 4711; }
char* (* vp_getenv_hook)(const char*);
char* __wrap_getenv(const char* n) { return vp_getenv_hook ? vp_getenv_hook(n) : 0; }
long __wrap_sysconf(int) { return 4096; }

// ------------------------------------------------------------------ files
enum { NI = 24, NF = 48, NC = 512, CS = 4096 };
struct inode { char path[192]; int used; int links; int opens; size_t size; char* chunk[NC]; };
struct fdesc { int used; int ino; long pos; int flags; };
static inode* I[NI]; static fdesc F[NF];
static int find(const char* p) { for (int i = 0; i < NI; ++i) if (I[i] && I[i]->links && strcmp(I[i]->path, p) == 0) return i; return -1; }
static int mkino(const char* p) { for (int i = 0; i < NI; ++i) if (!I[i]) { I[i] = (inode*)calloc(1, sizeof(inode)); I[i]->links = 1; I[i]->used = 1; size_t k = 0; while (p[k] && k < 191) { I[i]->path[k] = p[k]; ++k; } I[i]->path[k] = 0; return i; } return -1; }
static void reap(int i) { if (I[i] && !I[i]->links && !I[i]->opens) { for (int c = 0; c < NC; ++c) free(I[i]->chunk[c]); free(I[i]); I[i] = 0; } }
static void setsize(inode* n, size_t s) {
    if (s < n->size) { // zero the cut part so that a later extension reads zeros
        size_t e = n->size; for (size_t c = s / CS; c < NC && c * CS < e; ++c) { if (!n->chunk[c]) continue; size_t o = c * CS < s ? s - c * CS : 0; memset(n->chunk[c] + o, 0, CS - o); } }
    n->size = s;
}
static void put(inode* n, size_t off, const char* b, size_t k) {
    while (k) { size_t c = off / CS, o = off % CS, m = CS - o < k ? CS - o : k; if (c >= NC) vp_fail("model file too large"); if (!n->chunk[c]) n->chunk[c] = (char*)calloc(1, CS); memcpy(n->chunk[c] + o, b, m); off += m; b += m; k -= m; }
    if (off > n->size) n->size = off;
}
static void get(inode* n, size_t off, char* b, size_t k) {
    while (k) { size_t c = off / CS, o = off % CS, m = CS - o < k ? CS - o : k; if (c < NC && n->chunk[c]) memcpy(b, n->chunk[c] + o, m); else memset(b, 0, m); off += m; b += m; k -= m; }
}
vp_u64 vp_file_size(const char* p) { int i = find(p); return i < 0 ? ~0ull : I[i]->size; }
void vp_file_set(const char* p, const void* d, size_t n) { int i = find(p); if (i < 0) i = mkino(p); setsize(I[i], 0); put(I[i], 0, (const char*)d, n); }
size_t vp_file_get(const char* p, size_t off, void* d, size_t n) { int i = find(p); if (i < 0 || off >= I[i]->size) return 0; if (n > I[i]->size - off) n = I[i]->size - off; get(I[i], off, (char*)d, n); return n; }
unsigned vp_files_open(void) { unsigned n = 0; for (int i = 0; i < NF; ++i) n += F[i].used; return n; }

int __wrap_open64(const char* path, int flags, ...) {
    int i = find(path);
    if (i < 0) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } i = mkino(path); if (i < 0) { errno = ENFILE; return -1; } }
    else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (flags & O_TRUNC) setsize(I[i], 0);
    for (int f = 3; f < NF; ++f) if (!F[f].used) { F[f].used = 1; F[f].ino = i; F[f].pos = 0; F[f].flags = flags; I[i]->opens++; return f; }
    errno = EMFILE; return -1;
}
int __wrap_open(const char* path, int flags, ...) { return __wrap_open64(path, flags, 0); }
static bool bad(int f) { if (f < 3 || f >= NF || !F[f].used) { errno = EBADF; return true; } return false; }
int __wrap_close(int f) { if (bad(f)) return -1; F[f].used = 0; int i = F[f].ino; I[i]->opens--; reap(i); return 0; }
long __wrap_lseek64(int f, long off, int wh) { vp_sched_point(); if (bad(f)) return -1; long b = wh == 0 ? 0 : wh == 1 ? F[f].pos : (long)I[F[f].ino]->size; if (b + off < 0) { errno = EINVAL; return -1; } return F[f].pos = b + off; }
long __wrap_lseek(int f, long off, int wh) { return __wrap_lseek64(f, off, wh); }
// decide the fate of one transfer of n bytes: returns bytes to move, or -1 with errno
static long fate(size_t n, bool wr) {
    vp_io_calls++;
    if (n == 0 || vp_io_fault_budget <= 0) return (long)n;
    int opt[8], k = 0; opt[k++] = 0;
    for (int b = 0; b < 5; ++b) if ((vp_io_fault_kinds >> b & 1) && !(b == 0 && n < 2) && !(b == 3 && !wr)) opt[k++] = 1 << b;
    int c = opt[vp_choice("iofault", k)]; if (!c) return (long)n;
    vp_io_fault_budget--; vp_io_faults++;
    if (c == 1) { switch (n > 2 ? vp_choice("short", 3) : 0) { case 0: return 1; case 1: return (long)(n / 2); default: return (long)n - 1; } }
    if (c == 16) return 0;
    errno = c == 2 ? EINTR : c == 4 ? EIO : ENOSPC; return -1;
}
long __wrap_read(int f, void* b, size_t n) {
    if (bad(f)) return -1; if ((F[f].flags & 3) == O_WRONLY) { errno = EBADF; return -1; }
    inode* x = I[F[f].ino]; if ((size_t)F[f].pos >= x->size) { vp_io_calls++; return 0; } if (n > x->size - F[f].pos) n = x->size - F[f].pos;
    vp_sched_point(); long k = fate(n, false); if (k <= 0) return k; get(x, F[f].pos, (char*)b, k); F[f].pos += k; return k;
}
long __wrap_write(int f, const void* b, size_t n) {
    if (bad(f)) return -1; if ((F[f].flags & 3) == O_RDONLY) { errno = EBADF; return -1; }
    vp_sched_point(); long k = fate(n, true); if (k <= 0) return k; put(I[F[f].ino], F[f].pos, (const char*)b, k); F[f].pos += k; return k;
}
long __wrap_pread64(int f, void* b, size_t n, long off) { if (bad(f)) return -1; long s = F[f].pos; F[f].pos = off; long r = __wrap_read(f, b, n); F[f].pos = s; return r; }
long __wrap_pwrite64(int f, const void* b, size_t n, long off) { if (bad(f)) return -1; long s = F[f].pos; F[f].pos = off; long r = __wrap_write(f, b, n); F[f].pos = s; return r; }
int __wrap_ftruncate64(int f, long n) { if (bad(f)) return -1; setsize(I[F[f].ino], n); return 0; }
int __wrap_truncate64(const char* p, long n) { int i = find(p); if (i < 0) { errno = ENOENT; return -1; } setsize(I[i], n); return 0; }
int __wrap_fsync(int f) { return bad(f) ? -1 : 0; }
int __wrap_fdatasync(int f) { return bad(f) ? -1 : 0; }
static void fillst(struct stat* s, int i) { memset(s, 0, sizeof *s); s->st_ino = i + 100; s->st_dev = 7; s->st_mode = S_IFREG | 0644; s->st_size = I[i]->size; s->st_nlink = I[i]->links; }
int __wrap_fstat64(int f, struct stat* s) { if (bad(f)) return -1; fillst(s, F[f].ino); return 0; }
int __wrap_stat64(const char* p, struct stat* s) { int i = find(p); if (i < 0) { errno = ENOENT; return -1; } fillst(s, i); return 0; }
int __wrap_unlink(const char* p) { int i = find(p); if (i < 0) { errno = ENOENT; return -1; } I[i]->links = 0; reap(i); return 0; }
int __wrap_remove(const char* p) { return __wrap_unlink(p); }
int __wrap_rename(const char* a, const char* b) { int i = find(a); if (i < 0) { errno = ENOENT; return -1; } int j = find(b); if (j == i) return 0; if (j >= 0) { I[j]->links = 0; reap(j); } size_t k = 0; while (b[k] && k < 191) { I[i]->path[k] = b[k]; ++k; } I[i]->path[k] = 0; return 0; }
int __wrap_access(const char* p, int) { if (find(p) < 0) { errno = ENOENT; return -1; } return 0; }
int __wrap_fcntl64(int f, int cmd, ...) { if (bad(f)) return -1; if (cmd == F_GETFL) return F[f].flags; return 0; }
int __wrap_fcntl(int f, int cmd, ...) { return __wrap_fcntl64(f, cmd); }
int __wrap_ioctl(int, unsigned long, ...) { errno = ENOTTY; return -1; }
// shared mappings: private copy written back on unmap (one mapping at a time per range)
struct mapping { char* p; size_t len; int ino; size_t off; int prot; };
static mapping M[32];
void* __wrap_mmap64(void*, size_t len, int prot, int flags, int f, long off) {
    if (flags & MAP_ANONYMOUS) { return calloc(1, len); }
    if (bad(f) || len == 0 || (off & 4095)) { if (!(off & 4095) && len) return MAP_FAILED; errno = EINVAL; return MAP_FAILED; }
    if (vp_io_fault_budget > 0 && (vp_io_fault_kinds & 4) && vp_choice("mmapfault", 2)) { vp_io_fault_budget--; vp_io_faults++; errno = ENOMEM; return MAP_FAILED; }
    for (int i = 0; i < 32; ++i) if (!M[i].p) { char* p = (char*)malloc(len); get(I[F[f].ino], off, p, len); M[i].p = p; M[i].len = len; M[i].ino = F[f].ino; M[i].off = off; M[i].prot = prot; I[F[f].ino]->opens++; vp_io_calls++; return p; }
    errno = ENOMEM; return MAP_FAILED;
}
int __wrap_munmap(void* p, size_t len) {
    for (int i = 0; i < 32; ++i) if (M[i].p == p) { if (len != M[i].len) vp_fail("munmap with a different length");
        if (M[i].prot & PROT_WRITE) { inode* x = I[M[i].ino]; size_t k = M[i].off >= x->size ? 0 : x->size - M[i].off; if (k > len) k = len; put(x, M[i].off, M[i].p, k); }
        free(M[i].p); M[i].p = 0; I[M[i].ino]->opens--; reap(M[i].ino); return 0; }
    errno = EINVAL; return -1;
}
// ------------------------------------------------------------------ Linux AIO
struct aio_slot { struct iocb* cb; int state; struct io_event ev; }; // 1 queued 2 done
struct aio_ctx { int used; unsigned max; aio_slot s[16]; };
static aio_ctx A[8];
static int aio_take(aio_ctx* a, struct io_event* ev) { // completes one queued request (choice of which)
    int q[16], k = 0; for (int i = 0; i < 16; ++i) if (a->s[i].state) q[k++] = i; if (!k) return 0;
    int i = q[k > 1 ? vp_choice("aio", k) : 0]; struct iocb* cb = a->s[i].cb; a->s[i].state = 0; a->s[i].cb = 0; vp_hb_acquire((void*)(a - A + 1));
    ev->data = cb->aio_data; ev->obj = (uint64_t)cb; ev->res2 = 0;
    long r = cb->aio_lio_opcode == IOCB_CMD_PREAD ? __wrap_pread64(cb->aio_fildes, (void*)cb->aio_buf, cb->aio_nbytes, cb->aio_offset) : __wrap_pwrite64(cb->aio_fildes, (const void*)cb->aio_buf, cb->aio_nbytes, cb->aio_offset);
    ev->res = r < 0 ? -errno : r; return 1;
}
long __wrap_syscall(long nr, ...) {
    int na = nr == SYS_io_setup ? 2 : nr == SYS_io_destroy ? 1 : nr == SYS_io_getevents ? 4 : 3; long a0, a1 = 0, a2 = 0, a3 = 0;
    va_list ap; va_start(ap, nr); a0 = va_arg(ap, long); if (na > 1) a1 = va_arg(ap, long); if (na > 2) a2 = va_arg(ap, long); if (na > 3) a3 = va_arg(ap, long); va_end(ap);
    vp_sched_point(); if (nr == SYS_io_submit) vp_hb_release((void*)a0);
    switch (nr) {
    case SYS_io_setup: for (int i = 0; i < 8; ++i) if (!A[i].used) { memset(&A[i], 0, sizeof A[i]); A[i].used = 1; A[i].max = (unsigned)a0; *(aio_context_t*)a1 = i + 1; return 0; } errno = EAGAIN; return -1;
    case SYS_io_destroy: if (a0 < 1 || a0 > 8 || !A[a0 - 1].used) { errno = EINVAL; return -1; } A[a0 - 1].used = 0; return 0;
    case SYS_io_submit: { aio_ctx* c = &A[a0 - 1]; struct iocb** v = (struct iocb**)a2; int n = 0;
        // the kernel may refuse while earlier events have not been fetched
        if (vp_io_fault_budget > 0 && (vp_io_fault_kinds & 32)) { int busy = 0; for (int j = 0; j < 16; ++j) busy |= c->s[j].state; if (busy && vp_choice("aioagain", 2)) { vp_io_fault_budget--; errno = EAGAIN; return -1; } }
        for (; n < a1; ++n) { int j = 0; while (j < 16 && c->s[j].state) ++j; if (j == 16 || (unsigned)j >= c->max) break; c->s[j].state = 1; c->s[j].cb = v[n]; } if (!n) { errno = EAGAIN; return -1; } vp_thread_wake(c, -1); return n; }
    case SYS_io_cancel: { aio_ctx* c = &A[a0 - 1]; for (int j = 0; j < 16; ++j) if (c->s[j].state == 1 && c->s[j].cb == (struct iocb*)a1) { if (vp_choice("aiocancel", 2)) { struct io_event* ev = (struct io_event*)a2; ev->data = c->s[j].cb->aio_data; ev->obj = (uint64_t)c->s[j].cb; ev->res = -ECANCELED; ev->res2 = 0; c->s[j].state = 0; return 0; } errno = EAGAIN; return -1; } errno = EINVAL; return -1; }
    case SYS_io_getevents: { aio_ctx* c = &A[a0 - 1]; struct io_event* ev = (struct io_event*)a3; long n = 0; for (;;) { while (n < a2 && (n < a1 || a1 == 0) && aio_take(c, ev + n)) ++n; if (n >= a1) { int left = 0; for (int j = 0; j < 16; ++j) left |= c->s[j].state; if (left && n < a2 && vp_choice("aiomore", 2)) aio_take(c, ev + n), ++n; return n; } if (n) return n; vp_thread_block(c); } }
    }
    errno = ENOSYS; return -1;
}
} // extern "C"
