// File implementations over the model file system: a file is an array of bytes; faults of the operating system; concurrent use.
#include "hx.h"
#include <stxxl/bits/io/mem_file.h>
#include <stxxl/bits/io/syscall_file.h>
#include <stxxl/bits/io/mmap_file.h>
#include <stxxl/bits/io/linuxaio_file.h>
#include <stxxl/bits/io/simdisk_file.h>
#include <stxxl/bits/io/wbtl_file.h>
#include <stxxl/bits/io/fileperblock_file.h>
#include <stxxl/bits/io/disk_queues.h>
#include <stxxl/bits/io/create_file.h>
#include <stxxl/bits/common/aligned_alloc.h>
#include <pthread.h>
using stxxl::request_ptr; using stxxl::request; using stxxl::file;
enum { U = 4096, NU = 5 };
enum kind { SYSCALL, MMAP, AIO, SIMDISK, MEM, FPB_SYSCALL, FPB_MMAP, WBTL };
static file* mk(int k, const char* path, int mode, int q = 0) {
    switch (k) {
    case SYSCALL: return new stxxl::syscall_file(path, mode, q);
    case MMAP: return new stxxl::mmap_file(path, mode, q);
    case AIO: return new stxxl::linuxaio_file(path, mode, file::DEFAULT_LINUXAIO_QUEUE, file::NO_ALLOCATOR, file::DEFAULT_DEVICE_ID, 2);
    case SIMDISK: return new stxxl::sim_disk_file(path, mode, q);
    case MEM: return new stxxl::mem_file(q);
    case FPB_SYSCALL: return new stxxl::fileperblock_file<stxxl::syscall_file>(path, mode, q);
    case FPB_MMAP: return new stxxl::fileperblock_file<stxxl::mmap_file>(path, mode, q);
    default: return new stxxl::wbtl_file(new stxxl::mem_file(q + 10), 2 * U, 2, q);
    }
}
static void init() { vp_format = 1; stxxl::stats::get_instance(); stxxl::disk_queues::get_instance(); stxxl::config* c = stxxl::config::get_instance(); (void)c; }
// contents of one unit: 8 marked bytes, the rest is derived from them
struct unit { vp_u64 a; unsigned char mid; vp_u64 z; bool def; };
struct page { unsigned char* p; page(int n = 1) { p = (unsigned char*)stxxl::aligned_alloc<U>(n * U); } ~page() { stxxl::aligned_dealloc<U>(p); } };
static void fill(unsigned char* p, const unit& u) { memset(p, 0x11, U); memcpy(p, &u.a, 8); p[U / 2] = u.mid; memcpy(p + U - 8, &u.z, 8); }
static void same(const unsigned char* p, const unit& u, const char*) { vp_u64 a, z; memcpy(&a, p, 8); memcpy(&z, p + U - 8, 8); CHECKM(((a == u.a) & (z == u.z) & (p[U / 2] == u.mid)), "a read returns the bytes written last"); }
static unit fresh() { unit u; u.a = vp_u64s("a"); u.z = vp_u64s("z"); u.mid = vp_u8("m"); u.def = true; return u; }
static const unit ZERO = { 0, 0, 0, true };
static void put(file* f, unit* m, int i, int n) { page b(n); for (int j = 0; j < n; ++j) { m[i + j] = fresh(); fill(b.p + j * U, m[i + j]); } request_ptr r = f->awrite(b.p, (file::offset_type)i * U, n * U); r->wait(); }
static void get(file* f, unit* m, int i, int n) { page b(n); memset(b.p, 0xee, n * U); request_ptr r = f->aread(b.p, (file::offset_type)i * U, n * U); r->wait(); for (int j = 0; j < n; ++j) if (m[i + j].def) { same(b.p + j * U, m[i + j], ""); if (m[i + j].a == ZERO.a || b.p[100] != 0x11) {} } }
// params: kind, operations, first operation
VP_HARNESS(file_ops) {
    int k = vp_param(0, 0), K = vp_param(1, 3); init(); bool fpb = k == FPB_SYSCALL || k == FPB_MMAP, zeros = k <= SIMDISK, blocky = fpb || k == WBTL;
    int mode = file::CREAT | file::RDWR | (vp_param(3, 0) ? file::DIRECT : 0);
    {
        file* f = mk(k, "f0", mode); file* g = mk(k, "f1", mode); unit m[NU + 3], h[NU + 3]; for (int i = 0; i < NU + 3; ++i) { m[i] = h[i] = ZERO; m[i].def = h[i].def = zeros; }
        int sz = k == WBTL ? 2 * NU + 4 : 3; f->set_size((file::offset_type)sz * U); g->set_size((file::offset_type)sz * U); put(g, h, 0, 1); int lim = k == WBTL ? NU : sz;
        CHECKM(f->size() == (file::offset_type)sz * U, "size() is the size set");
        for (int s = 0; s < K; ++s) {
            int op = s == 0 && vp_param(2, 99) != 99 ? (int)vp_param(2, 0) : (int)vp_choice("op", 6);
            if (op == 0) { int i = (int)vp_choice("i", lim); put(f, m, i, 1); }
            else if (op == 1) { int i = (int)vp_choice("i", lim); get(f, m, i, 1); }
            else if (op == 2) { if (blocky) vp_assume(0); int i = (int)vp_choice("i", lim - 1); put(f, m, i, 2); }
            else if (op == 3) { if (blocky || lim < 2) vp_assume(0); int i = (int)vp_choice("i", lim - 1); get(f, m, i, 2); }
            else if (op == 4) { if (k == WBTL) vp_assume(0); int n = (k == SIMDISK ? sz : 2) + (int)vp_choice("n", NU - (k == SIMDISK ? sz : 2) + 1); f->set_size((file::offset_type)n * U); CHECKM(f->size() == (file::offset_type)n * U, "size() is the size set"); if (!fpb) { for (int i = n; i < NU + 1; ++i) { m[i] = ZERO; m[i].def = zeros; } } sz = lim = n; }
            else { int i = (int)vp_choice("i", lim); bool d = m[i].def && fpb; if (fpb && !d) vp_assume(0); f->discard((file::offset_type)i * U, U); if (!zeros) m[i].def = false; }
        }
        for (int i = 0; i < lim; ++i) if (m[i].def || !blocky) get(f, m, i, 1);
        get(g, h, 0, 1);
        if (k <= SIMDISK || fpb) { // persistence
            for (int i = fpb ? lim : 0; i < NU + 1; ++i) if (fpb) m[i].def = m[i].def; 
            delete f; f = mk(k, "f0", file::CREAT | file::RDWR); if (!fpb) CHECKM(f->size() == (file::offset_type)sz * U, "a closed file keeps its size"); for (int i = 0; i < lim; ++i) if (m[i].def) get(f, m, i, 1);
        }
        CHECKM(f->get_request_nref() == 0, "no request refers to the file any more");
        if (k <= SIMDISK) { f->close_remove(); CHECKM(vp_file_size("f0") == ~0ull, "close_remove() deletes the file"); CHECKM(vp_file_size("f1") != ~0ull, "other files are kept"); }
        delete f; delete g; CHECKM(vp_files_open() == 0, "all files are closed"); vp_cover("end");
    }
}
// faults of system calls: a request that reports no error has transferred everything.  params: kind, budget, kinds, requests
VP_HARNESS(file_faults) {
    int k = vp_param(0, 0), R = vp_param(3, 2); init();
    {
        file* f = mk(k, "f0", file::CREAT | file::RDWR); bool fpb = k == FPB_SYSCALL || k == FPB_MMAP; f->set_size(3 * U); unit m[4]; for (int i = 0; i < 4; ++i) { m[i] = ZERO; m[i].def = !fpb; } put(f, m, 1, 1); bool maybe[4] = { false, false, false, false };
        vp_io_fault_budget = vp_param(1, 1); vp_io_fault_kinds = vp_param(2, 31); int errs = 0;
        for (int s = 0; s < R; ++s) {
            int op = (int)vp_choice("op", 2), i = (int)vp_choice("i", 2); page b; bool bad = false;
            if (op == 0) { unit u = fresh(); fill(b.p, u); try { request_ptr r = f->awrite(b.p, (file::offset_type)i * U, U); r->wait(); } catch (const stxxl::io_error&) { bad = true; } if (bad) maybe[i] = true; else { maybe[i] = false; m[i] = u; } }
            else { memset(b.p, 0xee, U); try { request_ptr r = f->aread(b.p, (file::offset_type)i * U, U); r->wait(); } catch (const stxxl::io_error&) { bad = true; } if (!bad && !maybe[i] && m[i].def) same(b.p, m[i], ""); }
            errs += bad;
        }
        CHECKM(errs <= vp_io_faults, "a request fails only if the system reported a failure");
        vp_io_fault_budget = 0; for (int i = 0; i < 2; ++i) if (!maybe[i] && m[i].def) get(f, m, i, 1);
        CHECKM(f->get_request_nref() == 0, "no request refers to the file any more"); delete f; CHECKM(vp_files_open() == 0, "all files are closed"); vp_cover("end"); if (errs) vp_cover("error");
    }
}
// reads at the end of the file.  params: unit of transfer
VP_HARNESS(file_eof) {
    init(); {
        enum { S = 40 }; stxxl::syscall_file f("f0", file::CREAT | file::RDWR, 0); unsigned char d[S], b[S], e[2 * S]; for (int i = 0; i < S; ++i) d[i] = vp_u8("d"); f.set_size(S); request_ptr r = f.awrite(d, 0, S); r->wait();
        int o = (int)vp_choice("offset", S), n = 1 + (int)vp_choice("bytes", 2 * S - 1); memset(e, 0xee, sizeof e); r = f.aread(e, o, n); r->wait();
        bool ok = true; for (int i = 0; i < n; ++i) ok &= e[i] == (o + i < S ? d[o + i] : 0); CHECKM(ok, "reading past the end of a file delivers its bytes followed by zeros"); for (int i = n; i < 2 * S; ++i) CHECKM(e[i] == 0xee, "no byte is written behind the buffer");
        (void)b; vp_cover("end"); }
}
// concurrent use.  params: kind, scenario, preemptions
static file* g_f; static unit g_m[8];
static void* size_main(void*) { file::offset_type s = g_f->size(); CHECKM(s == 3 * U || s == 4 * U || s == 9 * U, "size() under concurrent transfers"); return 0; }
static void* grow_main(void*) { g_f->set_size(4 * U); return 0; }
static void* discard_main(void*) { g_f->discard(0, U); g_m[0].def = false; return 0; }
static void* serve_main(void*) { page b; fill(b.p, g_m[2]); g_f->serve(b.p, 2 * U, U, request::WRITE); return 0; }
VP_HARNESS(file_conc) {
    int k = vp_param(0, 0), sc = vp_param(1, 0), P = vp_param(2, 2); init(); {
        file* f = g_f = mk(k, "f0", file::CREAT | file::RDWR); f->set_size((k == WBTL ? 9 : 3) * U); for (int i = 0; i < 8; ++i) g_m[i] = ZERO; put(f, g_m, 0, 1); put(f, g_m, 1, 1);
        page b, c; g_m[2] = fresh(); unit w = fresh(); fill(c.p, w);
        static void* (*const fn[])(void*) = { size_main, grow_main, discard_main, serve_main }; pthread_t t;
        bool late = k == WBTL && sc == 0; if (!late) vp_explore(1, P); pthread_create(&t, 0, fn[sc], 0);
        request_ptr r1 = f->aread(b.p, 1 * U, U), r2 = f->awrite(c.p, (k == WBTL ? 3 : 0) * U, U); r1->wait(); r2->wait(); pthread_join(t, 0); vp_explore(0, 0);
        same(b.p, g_m[1], ""); g_m[k == WBTL ? 3 : 0] = w; get(f, g_m, 1, 1); get(f, g_m, k == WBTL ? 3 : 0, 1); if (sc == 3) get(f, g_m, 2, 1);
        if (sc == 1) CHECKM(f->size() == 4 * U, "size() is the size set");
        r1 = r2 = request_ptr(); if (k == WBTL) { put(f, g_m, 4, 1); if (late) vp_explore(1, P); put(f, g_m, 5, 1); } delete f; vp_explore(0, 0); vp_run_atexit(); vp_cover("end"); }
}
// a backend that serves writes as late as it likes; params: units written, written again from, preemptions
VP_HARNESS(file_lag) {
    int n = (int)vp_param(0, 7), again = (int)vp_param(1, 3), P = (int)vp_param(2, 1); init(); {
        file* f = mk(WBTL, "f0", file::CREAT | file::RDWR); f->set_size(12 * U); unit m[12]; page b; vp_explore(1, P);
        for (int i = 0; i < n; ++i) { int j = i < again ? i : i - again; m[j] = fresh(); fill(b.p, m[j]); f->serve(b.p, j * U, U, request::WRITE); }
        for (int i = 0; i < n && i < again; ++i) { f->serve(b.p, i * U, U, request::READ); same(b.p, m[i], "a slow backend"); }
        delete f; vp_explore(0, 0); vp_run_atexit(); vp_cover("end"); }
}
