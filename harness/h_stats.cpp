// I/O statistics.
#include "hx.h"
#include <stxxl/bits/io/iostats.h>
#include <stxxl/bits/io/linuxaio_file.h>
#include <stxxl/bits/io/disk_queues.h>
#include <stxxl/bits/io/request_operations.h>
#include <stxxl/bits/io/create_file.h>
#include <pthread.h>
#include <unistd.h>
using stxxl::stats; using stxxl::stats_data; using stxxl::int64; using stxxl::file; using stxxl::request_ptr; using stxxl::request;
struct model { unsigned r, w, cr, cw; int64 vr, vw, cvr, cvw; double tr, tw, pr, pw, pio, tq, tqr, tqw; int ar, aw, qr, qw; };
static void adv(model& m, double dt) { m.tr += m.ar * dt; m.tw += m.aw * dt; if (m.ar) m.pr += dt; if (m.aw) m.pw += dt; if (m.ar + m.aw) m.pio += dt; m.tq += (m.qr + m.qw) * dt; m.tqr += m.qr * dt; m.tqw += m.qw * dt; }
static bool near(double a, double b) { double d = a - b; return d < 1e-4 && d > -1e-4; }
static void same(const stats_data& s, const model& m, const model& z) {
    CHECKM(s.get_reads() == m.r - z.r && s.get_writes() == m.w - z.w, "requests are counted"); CHECKM(s.get_read_volume() == m.vr - z.vr, "bytes read are counted"); CHECKM(s.get_written_volume() == m.vw - z.vw, "bytes written are counted");
    CHECKM(s.get_cached_reads() == m.cr - z.cr && s.get_cached_writes() == m.cw - z.cw, "cached requests are counted"); CHECKM(s.get_cached_read_volume() == m.cvr - z.cvr, "cached bytes read"); CHECKM(s.get_cached_written_volume() == m.cvw - z.cvw, "cached bytes written");
    CHECKM(near(s.get_read_time(), m.tr - z.tr) && near(s.get_write_time(), m.tw - z.tw), "time spent in requests adds up"); CHECKM(near(s.get_pread_time(), m.pr - z.pr) && near(s.get_pwrite_time(), m.pw - z.pw), "parallel read and write time counts overlapping requests once"); CHECKM(near(s.get_pio_time(), m.pio - z.pio), "parallel I/O time counts overlapping requests once");
    CHECKM(near(s.get_io_wait_time(), m.tq - z.tq), "wait time"); CHECKM(near(s.get_wait_read_time(), m.tqr - z.tqr) && near(s.get_wait_write_time(), m.tqw - z.tqw), "wait time is attributed to reading and writing"); }
// params: events, first
VP_HARNESS(stats_prog) {
    int n = (int)vp_param(0, 4), snap = (int)vp_choice("snap", n + 1); stats& s = *stats::get_instance(); model m, z; memset(&m, 0, sizeof m); z = m; stats_data b(s);
    for (int i = 0; i < n; ++i) { if (i == snap) { b = stats_data(s); z = m; }
        usleep(i & 1 ? 3000 : 50000); adv(m, i & 1 ? .003 : .05); unsigned sz = vp_u32("bytes"); int op = i == 0 && vp_param(1, 99) < 14 ? (int)vp_param(1, 0) : (int)vp_choice("op", 14);
        switch (op) { case 0: { int64 o = s.get_read_volume(); s.read_started(sz); if (i == 0) CHECKM((s.get_read_volume() >= (int64)(sz & 0xffff)) & (s.get_read_volume() >= o), "the volume grows with the size of the request"); } ++m.r; m.vr += sz; ++m.ar; break; case 1: vp_assume(m.ar); s.read_finished(); --m.ar; break; case 2: s.write_started(sz); ++m.w; m.vw += sz; ++m.aw; break; case 3: vp_assume(m.aw); s.write_finished(); --m.aw; break;
        case 4: vp_assume(m.ar); s.read_canceled(sz); --m.ar; --m.r; m.vr -= sz; break; case 5: vp_assume(m.aw); s.write_canceled(sz); --m.aw; --m.w; m.vw -= sz; break; case 6: s.read_cached(sz); ++m.cr; m.cvr += sz; break; case 7: s.write_cached(sz); ++m.cw; m.cvw += sz; break;
        case 8: s.wait_started(stats::WAIT_OP_READ); ++m.qr; break; case 9: vp_assume(m.qr); s.wait_finished(stats::WAIT_OP_READ); --m.qr; break; case 10: s.wait_started(vp_choice("any", 2) ? stats::WAIT_OP_ANY : stats::WAIT_OP_WRITE); ++m.qw; break; case 11: vp_assume(m.qw); s.wait_finished(stats::WAIT_OP_WRITE); --m.qw; break;
        case 13: vp_assume(m.ar + m.aw + m.qr + m.qw == 0); s.reset(); memset(&m, 0, sizeof m); z = m; b = stats_data(s); break;
        default: { bool w = vp_choice("write", 2); stats::scoped_read_write_timer t(sz, w); t.start(sz); if (vp_choice("stop", 2)) { t.stop(); t.stop(); } if (w) ++m.w, m.vw += sz; else ++m.r, m.vr += sz; break; } } }
    { model none; memset(&none, 0, sizeof none); // close what is open so that all time is accounted for
      usleep(7000); adv(m, .007); while (m.ar) { s.read_finished(); --m.ar; } while (m.aw) { s.write_finished(); --m.aw; } while (m.qr) { s.wait_finished(stats::WAIT_OP_READ); --m.qr; } while (m.qw) { s.wait_finished(stats::WAIT_OP_WRITE); --m.qw; }
      same(stats_data(s), m, none); if (z.ar + z.aw + z.qr + z.qw == 0) { same(stats_data(s) - b, m, z); same(b + (stats_data(s) - b), m, none); } }
    vp_cover("end");
}
// threads update the counters concurrently
static void* worker(void* p) { int k = (int)(long)p; stats& s = *stats::get_instance(); if (k & 1) { s.read_started(10); s.read_finished(); s.write_started(100); s.write_finished(); s.wait_started(stats::WAIT_OP_READ); s.wait_finished(stats::WAIT_OP_READ); } else { s.write_started(7); s.read_started(3); s.write_canceled(7); s.read_canceled(3); s.read_cached(5); s.write_cached(6); stats::scoped_wait_timer w(stats::WAIT_OP_WRITE); } return 0; }
VP_HARNESS(stats_threads) {
    int T = (int)vp_param(0, 2); stats& s = *stats::get_instance(); pthread_t t[4]; vp_explore(1, (int)vp_param(1, 2)); for (int i = 0; i < T; ++i) pthread_create(&t[i], 0, worker, (void*)(long)(i + vp_param(2, 0))); for (int i = 0; i < T; ++i) pthread_join(t[i], 0); vp_explore(0, 0);
    unsigned odd = 0, even = 0; for (int i = 0; i < T; ++i) ((i + vp_param(2, 0)) & 1 ? odd : even)++;
    CHECKM(s.get_reads() == odd && s.get_writes() == odd, "no request is lost in the counters"); CHECKM(s.get_read_volume() == 10 * odd && s.get_written_volume() == 100 * odd, "no bytes are lost in the counters"); CHECKM(s.get_cached_reads() == even && s.get_cached_writes() == even && s.get_cached_read_volume() == 5 * even && s.get_cached_written_volume() == 6 * even, "no cached bytes are lost"); vp_cover("end");
}
// real requests: every served request is counted once with its size
VP_HARNESS(stats_io) {
    int kind = (int)vp_param(0, 0), n = (int)vp_param(1, 3); static const char* const impl[] = { "syscall", "memory", "mmap", "linuxaio", "fileperblock_syscall" }; enum { B = 4096 };
    stats& s = *stats::get_instance(); { stxxl::disk_config cfg("/tmp/vpstat", 0, impl[kind]); cfg.direct = stxxl::disk_config::DIRECT_OFF; cfg.queue = 0; file* f = stxxl::create_file(cfg, file::RDWR | file::CREAT, file::NO_ALLOCATOR); f->set_size(8 * B);
        static char b[2 * B] __attribute__ ((aligned(4096))); memset(b, 1, 2 * B); stats_data before(s); unsigned r = 0, w = 0; int64 vr = 0, vw = 0;
        for (int i = 0; i < n; ++i) { bool wr = vp_choice("write", 2); unsigned sz = vp_choice("two", 2) && kind != 4 ? 2 * B : B; request_ptr q = wr ? f->awrite(b, 2 * B * (i % 3), sz) : f->aread(b, 2 * B * (i % 3), sz); bool gone = vp_choice("cancel", 2) && q->cancel(); if (!gone) q->wait(); if (!gone) { if (wr) ++w, vw += sz; else ++r, vr += sz; } else vp_cover("cancelled"); }
        stats_data d = stats_data(s) - before; CHECKM(d.get_reads() == r && d.get_writes() == w, "every served request is counted once"); CHECKM(d.get_read_volume() == vr && d.get_written_volume() == vw, "bytes transferred"); f->close_remove(); delete f; }
    vp_cover("end");
}
