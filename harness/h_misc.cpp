// Prefetch schedules, command line parser, disk configuration.
#include "hx.h"
#include <stxxl/bits/algo/async_schedule.h>
#include <stxxl/bits/common/cmdline.h>
#include <stxxl/bits/mng/config.h>
#include <stxxl/bits/io/file.h>
#include <sstream>
#include <fstream>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <stdexcept>
#include <fcntl.h>
#include <sys/stat.h>
using stxxl::uint64; using stxxl::uint32; using stxxl::int_type;
// ---- C45: a schedule is a permutation, and no block has to wait for one further than m blocks ahead
VP_HARNESS(sched) {
    int D = (int)vp_param(0, 2), L = (int)vp_param(1, 6), m = (int)vp_param(2, 2); bool dflt = vp_param(3, 0); int_type disk[40], out[40]; int pos[40];
    for (int i = 0; i < L; ++i) { vp_u64 d = vp_sym("disk", 32); if (dflt) vp_assume((d < (vp_u64)D) | (d == (vp_u64)(unsigned)stxxl::file::DEFAULT_DEVICE_ID)); else vp_assume(d < (vp_u64)D); disk[i] = (int_type)d; out[i] = -1; pos[i] = -1; } out[L] = 77;
    stxxl::compute_prefetch_schedule(disk, disk + L, out, m, D); CHECK(out[L] == 77);
    for (int i = 0; i < L; ++i) { CHECKM(out[i] >= 0 && out[i] < L, "the schedule names existing blocks"); CHECKM(pos[out[i]] == -1, "every block is scheduled once"); pos[out[i]] = i; }
    for (int j = 0; j < L; ++j) CHECKM(pos[j] < m + j, "a block is fetched before the buffers run out");
    vp_cover("end");
}
// ---- C38: command line parser against a reference
enum { T_F, T_N, T_NUM, T_U, T_B, T_C, T_S, T_STR, T_L, T_END, T_UNKS, T_UNKL, T_WORD, T_DIGIT, T_BYTES, T_BIG, T_DASH, T_EMPTY, T_HELP, T_COUNT };
struct cl_model { bool f; int n; unsigned u; uint64 b; uint32 c; std::string s, in; std::vector<std::string> l, many; unsigned cnt; cl_model() : f(false), n(-3), u(4), b(5), c(6), s("dflt"), in("-"), cnt(9) {} };
static char digit_tok[2]; static int digit_val;
static const char* tok_text(int t) {
    static const char* x[] = { "-f", "-n", "--num", "--size-u", "--bytes", "-c", "-s", "--str", "-l", "---", "-q", "--unknown", "word", 0, "2KiB", "5GiB", "-", "", "--help" };
    return t == T_DIGIT ? digit_tok : x[t];
}
static bool tok_bytes(int t, uint64& v) { if (t == T_DIGIT) v = digit_val; else if (t == T_BYTES) v = 2048; else if (t == T_BIG) v = 5ull << 30; else return false; return true; }
static bool ref_opt(cl_model& m, int o, const int* t, int& i, int n) {   // i: next token
    if (o == T_F) { m.f = true; return true; }
    if (i >= n) return false; int a = t[i];
    if (o == T_N || o == T_NUM || o == T_U) { if (a == T_BYTES || a == T_BIG) vp_assume(0); if (a != T_DIGIT) return false; if (o == T_U) m.u = digit_val; else m.n = digit_val; }
    else if (o == T_B) { uint64 v; if (!tok_bytes(a, v)) return false; m.b = v; }
    else if (o == T_C) { uint64 v; if (!tok_bytes(a, v) || v != (uint32)v) return false; m.c = (uint32)v; }
    else if (o == T_L) m.l.push_back(tok_text(a)); else m.s = tok_text(a);
    ++i; return true;
}
// params: 0: <in> [cnt], 1: <many ...>, 2: none, 3: <in> <many ...>
static bool ref(cl_model& m, int kind, const int* t, int n) {
    for (int i = 0; i < n; ++i) if (t[i] == T_HELP) return false; // help wins, nothing is set
    bool end = false; int par = 0; bool got_in = false, got_many = false;
    for (int i = 0; i < n; ) { int a = t[i]; const char* x = tok_text(a);
        if (x[0] == '-' && !end) { ++i; if (a == T_END) end = true; else if (a == T_UNKS || a == T_UNKL) return false; else if (a == T_DASH) {} else if (!ref_opt(m, a, t, i, n)) return false; continue; }
        int what = kind == 0 ? (par == 0 ? 1 : par == 1 ? 2 : 0) : kind == 1 ? 3 : kind == 2 ? 0 : par == 0 ? 1 : 3;
        if (what == 0) return false;
        if (what == 1) { m.in = x; got_in = true; ++par; } else if (what == 2) { if (a == T_BYTES || a == T_BIG) vp_assume(0); if (a != T_DIGIT) return false; m.cnt = digit_val; ++par; } else { m.many.push_back(x); got_many = true; } ++i; }
    return (kind == 0 || kind == 3 ? got_in : true) && (kind == 1 || kind == 3 ? got_many : true);
}
VP_HARNESS(cmdline) {
    int len = (int)vp_param(0, 3), kind = (int)vp_param(1, 0); int t[6]; const char* argv[8]; argv[0] = "prog"; vp_format = 1;
    vp_u64 d = vp_sym("digit", 8); vp_assume(d < 10); digit_val = (int)d; digit_tok[0] = (char)('0' + d); digit_tok[1] = 0;
    int n = (int)vp_choice("n", len + 1); for (int i = 0; i < n; ++i) { t[i] = (int)vp_choice("tok", T_COUNT); argv[i + 1] = tok_text(t[i]); } argv[n + 1] = 0;
    cl_model m, r; stxxl::cmdline_parser cp; cp.set_description("Some program."); cp.set_author("somebody"); cp.set_verbose_process(false);
    cp.add_flag('f', "flag", m.f, "a flag"); cp.add_int('n', "num", m.n, "a number"); cp.add_uint(0, "size-u", m.u, "an unsigned number"); cp.add_bytes(0, "bytes", m.b, "a size"); cp.add_bytes('c', "bytes32", m.c, "a small size"); cp.add_string('s', "str", "<text>", m.s, "a string"); cp.add_stringlist('l', "list", m.l, "strings");
    if (kind == 0 || kind == 3) cp.add_param_string("in", m.in, "input"); if (kind == 0) cp.add_opt_param_uint("cnt", m.cnt, "count"); if (kind == 1 || kind == 3) cp.add_param_stringlist("many", m.many, "names");
    bool want = ref(r, kind, t, n); std::ostringstream os; bool got = cp.process(n + 1, argv, os);
    CHECKM(got == want, "the command line is accepted exactly if it is valid");
    if (got) { vp_cover("accepted"); CHECKM(m.f == r.f, "flag"); CHECKM(m.n == r.n && m.u == r.u && m.cnt == r.cnt, "integers"); CHECKM(m.b == r.b && m.c == r.c, "byte sizes"); CHECKM(m.s == r.s && m.in == r.in, "strings"); CHECKM(m.l == r.l && m.many == r.many, "lists"); bool dash = false, end = false; for (int i = 0; i < n; ++i) { if (t[i] == T_DASH) dash = true; if (t[i] == T_END) end = true; } if (!dash && !end) CHECKM(os.str().empty(), "nothing is printed for a valid command line"); }
    else CHECKM(os.str().find("Usage: prog") != std::string::npos, "the usage is shown on errors");
    vp_format = 0; vp_cover("end");
}
// positional parameters of every type, required and optional, followed by an optional list
VP_HARNESS(cmdline_params) {
    static const int TOKS[] = { T_DIGIT, T_BYTES, T_BIG, T_WORD, T_F, T_END, T_N };
    static const char* const TYPE[] = { "integer", "unsigned integer", "bytes", "bytes", "string" };
    int len = (int)vp_param(0, 3), ty0 = (int)vp_param(1, 0), fmt = (int)vp_param(2, 0); int t[6]; const char* argv[8]; argv[0] = "prog"; vp_format = 1;
    vp_u64 d = vp_sym("digit", 8); vp_assume(d < 10); digit_val = (int)d; digit_tok[0] = (char)('0' + d); digit_tok[1] = 0;
    int ty[2] = { ty0, (int)vp_choice("type", 5) }; bool req[2]; req[0] = vp_choice("required", 2); req[1] = req[0] && vp_choice("required2", 2); int list = (int)vp_choice("list", 2); // 1: optional list, 0: none
    int n = fmt ? len : (int)vp_choice("n", len + 1); for (int i = 0; i < n; ++i) { t[i] = TOKS[vp_choice("tok", fmt ? 4 : sizeof TOKS / sizeof *TOKS)]; argv[i + 1] = tok_text(t[i]); } argv[n + 1] = 0;
    bool f = false; int num = -1; int vi[2] = { -5, -6 }; unsigned vu[2] = { 15, 16 }; uint64 vb[2] = { 25, 26 }; uint32 vc[2] = { 35, 36 }; std::string vs[2] = { "a0", "a1" }; std::vector<std::string> vl;
    bool rf = false; int rnum = -1; int ri[2] = { -5, -6 }; unsigned ru[2] = { 15, 16 }; uint64 rb[2] = { 25, 26 }; uint32 rc[2] = { 35, 36 }; std::string rs[2] = { "a0", "a1" }; std::vector<std::string> rl;
    stxxl::cmdline_parser cp; cp.set_verbose_process(fmt); cp.add_flag('f', "flag", f, "a flag"); cp.add_int('n', "num", num, "a number");
    for (int i = 0; i < 2; ++i) { std::string nm(i ? "second" : "first"), ds(i ? "the second" : "the first");
        if (req[i]) switch (ty[i]) { case 0: cp.add_param_int(nm, vi[i], ds); break; case 1: cp.add_param_uint(nm, vu[i], ds); break; case 2: cp.add_param_bytes(nm, vb[i], ds); break; case 3: cp.add_param_bytes(nm, vc[i], ds); break; default: cp.add_param_string(nm, vs[i], ds); }
        else switch (ty[i]) { case 0: cp.add_opt_param_int(nm, vi[i], ds); break; case 1: cp.add_opt_param_uint(nm, vu[i], ds); break; case 2: cp.add_opt_param_bytes(nm, vb[i], ds); break; case 3: cp.add_opt_param_bytes(nm, vc[i], ds); break; default: cp.add_opt_param_string(nm, vs[i], ds); } }
    if (list) cp.add_opt_param_stringlist("more", vl, "the rest");
    bool want = true, end = false; int par = 0;
    for (int i = 0; i < n && want; ++i) { int a = t[i];
        if (!end && a == T_F) { rf = true; continue; }
        if (!end && a == T_END) { end = true; continue; }
        if (!end && a == T_N) { if (i + 1 >= n || t[i + 1] != T_DIGIT) { if (i + 1 < n && (t[i + 1] == T_BYTES || t[i + 1] == T_BIG)) vp_assume(0); want = false; break; } rnum = digit_val; ++i; continue; }
        if (par < 2) { uint64 v; switch (ty[par]) {
            case 0: case 1: if (a == T_BYTES || a == T_BIG) vp_assume(0); if (a != T_DIGIT) want = false; else if (ty[par] == 0) ri[par] = digit_val; else ru[par] = digit_val; break;
            case 2: if (!tok_bytes(a, v)) want = false; else rb[par] = v; break;
            case 3: if (!tok_bytes(a, v) || v != (uint32)v) want = false; else rc[par] = (uint32)v; break;
            default: rs[par] = tok_text(a); } ++par; }
        else if (list) rl.push_back(tok_text(a)); else want = false; }
    if (want && ((req[0] && par < 1) || (req[1] && par < 2))) want = false;
    std::ostringstream os; bool got = cp.process(n + 1, argv, os);
    CHECKM(got == want, "the command line is accepted exactly if it is valid");
    if (got) { vp_cover("accepted"); CHECKM(f == rf && num == rnum, "options");
        for (int i = 0; i < 2; ++i) { CHECKM(vi[i] == ri[i], "int parameter"); CHECKM(vu[i] == ru[i], "unsigned parameter"); CHECKM(vb[i] == rb[i], "size parameter"); CHECKM(vc[i] == rc[i], "32-bit size parameter"); CHECKM(vs[i] == rs[i], "string parameter"); } CHECKM(vl == rl, "the list gets the rest");
        if (!fmt) CHECKM(os.str().empty(), "nothing is printed for a valid command line");
        else { std::ostringstream pr; cp.print_result(pr); std::string o = pr.str(), vo = os.str();
            for (int i = 0; i < 2; ++i) { std::ostringstream x, nm; nm << (i ? "second" : "first"); switch (ty[i]) { case 0: x << ri[i]; break; case 1: x << ru[i]; break; case 2: x << rb[i]; break; case 3: x << rc[i]; break; default: x << '"' << rs[i] << '"'; }
                size_t at = o.find("  " + nm.str()); CHECKM(at != std::string::npos, "print_result lists each parameter"); std::string ln = o.substr(at, o.find('\n', at) - at); CHECKM(ln.find("(" + std::string(TYPE[ty[i]]) + ")") != std::string::npos, "with its type"); CHECKM(ln.size() >= x.str().size() && ln.substr(ln.size() - x.str().size()) == x.str(), "and its value");
                if (par > i) CHECKM(vo.find("Parameter " + nm.str() + " set to " + x.str() + ".") != std::string::npos, "verbose processing reports the values"); }
            if (list) { std::string ls = "["; for (size_t k = 0; k < rl.size(); ++k) ls += (k ? ",\"" : "\"") + rl[k] + '"'; ls += ']'; CHECKM(o.find(ls) != std::string::npos, "lists are printed"); } } }
    else CHECKM(os.str().find("Usage: prog") != std::string::npos, "the usage is shown on errors");
    vp_format = 0; vp_cover("end");
}
// the usage text contains every description completely and is printed for every length of names
static std::string squeeze(const std::string& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) if (s[i] != ' ' && s[i] != '\n') r += s[i]; return r; }
VP_HARNESS(usage) {
    int nlen = (int)vp_param(0, 8), dl = (int)vp_param(1, 6); vp_format = 1; if (vp_native()) alarm(5); std::string desc, name(nlen, 'o');
    for (int i = 0; i < dl; ++i) { static const char c[] = { 'x', ' ', '\n' }; desc += c[vp_choice("c", 3)]; }
    bool opt = vp_choice("opt", 2); bool v = false; std::string w; stxxl::cmdline_parser cp; if (vp_param(2, 0)) cp.set_description(std::string(70, 'y') + " " + desc + " " + std::string(90, 'z'));
    if (opt) cp.add_flag(0, name, v, desc); else cp.add_opt_param_string(name, w, desc);
    const char* argv[] = { "prog", "-h", 0 }; std::ostringstream os; CHECK(!cp.process(2, argv, os)); std::string o = os.str();
    CHECKM(squeeze(o).find(squeeze((opt ? "--" : "") + name + (opt ? "" : "") + desc)) != std::string::npos, "the usage contains the whole description");
    if (nlen < 60) { size_t col = 0; for (size_t i = 0; i < o.size(); ++i) { if (o[i] == '\n') col = 0; else CHECKM(++col <= 80, "lines are wrapped"); } }
    vp_format = 0; vp_cover("end");
}
// ---- C40: disk configuration
static const struct { const char* text; int impl; /* -1 any, else bit mask of allowed io_impl */ int what; int val; bool bad; } OPT[] = {
    { "", -1, 0, 0, false }, { "autogrow", -1, 1, 1, false }, { "noautogrow", -1, 1, 0, false }, { "autogrow=on", -1, 1, 1, false }, { "autogrow=off", -1, 1, 0, false }, { "autogrow=yes", -1, 1, 1, false }, { "autogrow=no", -1, 1, 0, false }, { "autogrow=maybe", -1, 1, 0, true },
    { "delete", -1, 2, 1, false }, { "delete_on_exit", -1, 2, 1, false }, { "direct", -1, 3, 2, false }, { "nodirect", -1, 3, 0, false }, { "direct=on", -1, 3, 2, false }, { "direct=off", -1, 3, 0, false }, { "direct=try", -1, 3, 1, false }, { "direct=yes", -1, 3, 2, false }, { "direct=no", -1, 3, 0, false }, { "direct=x", -1, 3, 0, true },
    { "queue=", ~2, 4, 0, false }, { "queue=a", -1, 4, 0, true }, { "queue_length=", 2, 5, 0, false }, { "device_id=", -1, 6, 0, false }, { "devid=", -1, 6, 0, false }, { "devid=1q", -1, 6, 0, true },
    { "raw_device", 1, 7, 1, false }, { "unlink", 1 | 2 | 4 | 16, 8, 1, false }, { "unlink_on_open", 1 | 2 | 4 | 16, 8, 1, false }, { "color=red", -1, 0, 0, true }, { "flush", -1, 0, 0, true } };
static const char* const IMPL[] = { "syscall", "linuxaio", "mmap", "memory", "wbtl" };
VP_HARNESS(diskcfg) {
    int nopt = (int)vp_param(0, 2), fixed_impl = (int)vp_param(1, 99), NO = sizeof OPT / sizeof *OPT; vp_format = 1;
    stxxl::disk_config c; bool used = vp_choice("used", 2);
    if (used) { c.parse_line(std::string("flash=/old,1G,syscall noautogrow delete direct queue=3 devid=4 raw_device unlink")); CHECK(c.flash && c.path == "/old" && !c.autogrow && c.delete_on_exit && c.direct == 2 && c.queue == 3 && c.device_id == 4 && c.raw_device && c.unlink_on_open && c.size == 1000000000ull); }
    bool all = nopt == 0; int kind = (int)vp_choice("kind", all ? 4 : 2), pth = all ? (int)vp_choice("path", 3) : 1, im = fixed_impl < 5 ? fixed_impl : (int)vp_choice("impl", 5), dig = nopt > 1 ? 7 : (int)vp_sym("digit", 8); vp_assume(dig >= 0 && dig < 10); int sz = all ? (int)vp_choice("size", 6) : 0;
    std::string ds(1, (char)('0' + dig)), line = kind == 0 ? "disk=" : kind == 1 ? "flash=" : kind == 2 ? "disc=" : "disk"; bool bad = kind >= 2; std::string path = pth == 0 ? "" : pth == 1 ? "/data/stxxl" : "/d/###.x"; line += path + ",";
    static const char* const unit[] = { "", "KiB", "G", " MiB", "x", "" }; static const uint64 mul[] = { 1 << 20, 1024, 1000000000ull, 1 << 20, 0, 0 }; if (sz == 4) bad = true; line += (sz == 5 ? std::string() : ds) + unit[sz]; if (sz == 5) bad = true; uint64 size = mul[sz] * (uint64)dig;
    line += std::string(",") + (all && vp_choice("lead", 2) ? " " : "") + IMPL[im]; bool autogrow = true, del = false, raw = false, unl = false; int direct = 1, queue = stxxl::file::DEFAULT_QUEUE, ql = 0; unsigned dev = stxxl::file::DEFAULT_DEVICE_ID; if (dig == 0) del = true;
    for (int i = 0; i < nopt; ++i) { int o = (int)vp_choice("o", NO); line += std::string(" ") + OPT[o].text; int v = OPT[o].val; if (OPT[o].text[0] && OPT[o].text[std::string(OPT[o].text).size() - 1] == '=') { line += "1"; line += ds; v = 10 + dig; }
        if (OPT[o].bad || !(OPT[o].impl & (1 << im))) { bad = true; continue; }
        switch (OPT[o].what) { case 1: autogrow = v; break; case 2: del = true; break; case 3: direct = v; break; case 4: queue = v; break; case 5: ql = v; break; case 6: dev = (unsigned)v; break; case 7: raw = true; break; case 8: unl = true; break; default: break; } }
    bool thrown = false; try { c.parse_line(line); } catch (std::exception&) { thrown = true; }
    CHECKM(thrown == bad, "exactly the invalid lines are rejected");
    if (!thrown) { CHECKM(c.flash == (kind == 1), "disk or flash"); CHECKM(c.size == size, "size"); CHECKM(c.io_impl == IMPL[im], "file implementation"); CHECKM(c.autogrow == autogrow, "autogrow"); CHECKM(c.delete_on_exit == del, "delete on exit"); CHECKM((int)c.direct == direct, "direct"); CHECKM(c.queue == queue, "queue"); CHECKM(c.device_id == dev, "device id"); CHECKM(c.raw_device == raw, "raw device"); CHECKM(c.unlink_on_open == unl, "unlink"); CHECKM(c.queue_length == ql, "queue length");
        if (pth < 2) CHECKM(c.path == path, "path"); else { CHECK(c.path.find('#') == std::string::npos); CHECKM(c.path == "/d/" + stxxl::to_str(getpid()) + ".x", "process id in the path"); }
        if (!c.flash) { stxxl::disk_config e; e.path = c.path; e.io_impl = c.fileio_string(); e.parse_fileio(); CHECKM(e.io_impl == c.io_impl && e.autogrow == c.autogrow && e.direct == c.direct && e.queue == c.queue && e.device_id == c.device_id && e.raw_device == c.raw_device && e.unlink_on_open == c.unlink_on_open && e.delete_on_exit == c.delete_on_exit && e.queue_length == c.queue_length, "the printed options parse to the same configuration"); }
        vp_cover("accepted"); }
    vp_format = 0; vp_cover("end");
}
// configuration files
VP_HARNESS(cfgfile) {
    int len = (int)vp_param(0, 3); vp_format = 0; char fn[64] = "/tmp/vp_stxxl_cfg"; int fd = -1; if (vp_native()) { strcpy(fn, "/tmp/vp_stxxl_cfg_XXXXXX"); fd = mkstemp(fn); }
    std::string text; std::vector<std::string> reg, fl; bool bad = false; static const char* const L[] = { "disk=/vpnone/a", "flash=/vpnone/b", "# disk=/vpnone/c", "", "disk=/vpnone/d", "disc=/vpnone/e" };
    for (int i = 0; i < len; ++i) { int k = (int)vp_choice("line", 6); std::string p = L[k]; p += (char)('0' + i); if (k == 3) p = ""; else p += ",7,memory"; if (i + 1 < len || vp_choice("newline", 2)) p += "\n"; text += p;
        if (bad) continue; std::string path = L[k]; size_t e = path.find('='); if (k == 0 || k == 4) reg.push_back(path.substr(e + 1) + (char)('0' + i)); else if (k == 1) fl.push_back(path.substr(e + 1) + (char)('0' + i)); else if (k == 5) bad = true; }
    if (vp_native()) { FILE* f = fdopen(fd, "w"); if (f) { fwrite(text.data(), 1, text.size(), f); fclose(f); } } else vp_file_set(fn, text.data(), text.size());
    if (reg.empty() && fl.empty()) bad = true; stxxl::config* c = stxxl::config::get_instance(); bool thrown = false; try { c->load_config_file(fn); } catch (std::exception&) { thrown = true; } if (vp_native()) unlinkat(AT_FDCWD, fn, 0);
    CHECKM(thrown == bad, "exactly the invalid configuration files are rejected");
    if (!thrown) { if (vp_choice("add", 2)) { stxxl::disk_config x("/vpnone/x", 7 << 20, "memory"); x.flash = vp_choice("flash", 2); c->add_disk(x); (x.flash ? fl : reg).push_back("/vpnone/x"); }
        CHECKM(c->disks_number() == reg.size() + fl.size(), "every disk is configured once"); for (size_t i = 0; i < reg.size() + fl.size(); ++i) { CHECKM(c->disk_path(i) == (i < reg.size() ? reg[i] : fl[i - reg.size()]), "regular disks come first, each kind in order"); CHECKM(c->disk(i).flash == (i >= reg.size()), "kind of disk"); CHECKM(c->disk_size(i) == 7u << 20, "size"); }
        CHECKM(c->regular_disk_range() == std::make_pair(0u, (unsigned)reg.size()), "range of regular disks"); CHECKM(c->flash_range() == std::make_pair((unsigned)reg.size(), (unsigned)(reg.size() + fl.size())), "range of flash disks"); CHECKM(c->total_size() == (uint64)(reg.size() + fl.size()) * (7u << 20), "total size");
        unsigned id = (unsigned)vp_u8("id"); unsigned a = c->get_next_device_id(); c->update_max_device_id(id); unsigned b = c->get_next_device_id(); CHECKM((b > a) & (b > id) & (c->get_max_device_id() == b + 1), "automatic device ids are fresh"); vp_cover("accepted"); }
    vp_cover("end");
}

// which configuration is used when the program gives none
static const char* g_env[3]; extern "C" char* vp_getenv_model(const char* n) { static const char* const N[] = { "STXXLCFG", "HOSTNAME", "HOME" }; for (int i = 0; i < 3; ++i) if (strcmp(n, N[i]) == 0) return (char*)g_env[i]; return 0; }
static void cfg_write(const std::string& p, int i) { std::string t = "disk=/vpnone/f"; t += (char)('0' + i); t += ",7,memory delete\n"; if (vp_native()) { FILE* f = fopen(p.c_str(), "w"); if (f) { fwrite(t.data(), 1, t.size(), f); fclose(f); } } else vp_file_set(p.c_str(), t.data(), t.size()); }
VP_HARNESS(cfgfind) {
    vp_format = 0; char d[64] = "/vphome"; if (vp_native()) { strcpy(d, "/tmp/vp_stxxl_home_XXXXXX"); if (!mkdtemp(d) || chdir(d)) vp_fail("scratch directory"); }
    std::string dir(d), home = dir, other = dir + "/cfg", cwd = "."; if (vp_native()) { home = dir + "/h"; mkdir(home.c_str(), 0700); }
    std::string cand[5] = { other, "./.stxxl.host", "./.stxxl", home + "/.stxxl.host", home + "/.stxxl" }; bool env[3], use[5];
    for (int i = 0; i < 3; ++i) env[i] = vp_choice("env", 2);
    vp_getenv_hook = vp_getenv_model; g_env[0] = env[0] ? other.c_str() : 0; g_env[1] = env[1] ? "host" : 0; g_env[2] = env[2] ? home.c_str() : 0;
    int want = -1; for (int i = 0; i < 5; ++i) { use[i] = vp_choice("exists", 2); if (use[i]) cfg_write(cand[i], i); bool looked = i == 0 ? env[0] : i == 1 ? env[1] : i == 2 ? true : i == 3 ? env[1] && env[2] : env[2]; if (use[i] && looked && want < 0) want = i; }
    static const char* const F[] = { "/vpnone/f0", "/vpnone/f1", "/vpnone/f2", "/vpnone/f3", "/vpnone/f4", "/var/tmp/stxxl" }; for (int i = 0; i < 6; ++i) vp_file_set(F[i], "x", 1);
    stxxl::config* c = stxxl::config::get_instance(); size_t n = c->disks_number();
    if (vp_native()) { for (int i = 0; i < 5; ++i) unlinkat(AT_FDCWD, cand[i].c_str(), 0); unlinkat(AT_FDCWD, home.c_str(), AT_REMOVEDIR); unlinkat(AT_FDCWD, "stxxl.log", 0); unlinkat(AT_FDCWD, "stxxl.errlog", 0); if (chdir("/")) {} unlinkat(AT_FDCWD, d, AT_REMOVEDIR); }
    CHECKM(n == 1, "one disk is configured"); CHECKM(c->regular_disk_range() == std::make_pair(0u, 1u), "a regular disk"); CHECKM(c->flash_range() == std::make_pair(1u, 1u), "no flash disk");
    const stxxl::disk_config& k = c->disk(0); CHECKM(k.path == F[want < 0 ? 5 : want], "the first existing configuration file is used, else the default"); CHECKM(k.autogrow, "growing"); CHECKM(k.delete_on_exit, "deleted at exit"); CHECKM(!k.flash && !k.raw_device && !k.unlink_on_open, "an ordinary file");
    if (want < 0) { CHECKM(k.io_impl == "syscall" && k.size == 1000u << 20, "the default disk"); vp_cover("default"); } else CHECKM(k.io_impl == "memory" && k.size == 7u << 20, "the disk of the file");
    CHECKM(c->get_next_device_id() == 0 && c->get_next_device_id() == 1, "device ids count from zero"); vp_run_atexit(); for (int i = 0; i < 6; ++i) CHECKM((vp_file_size(F[i]) == ~0ull) == (i == (want < 0 ? 5 : want)), "exactly the files of disks with delete_on_exit are removed at exit"); vp_cover("end");
}
// disk_config built by the program, configuration read from several sources
VP_HARNESS(cfgprog) {
    vp_format = 0; static const char* const O[] = { "", " autogrow=off", " delete", " direct=on", " queue=3", " devid=4", " unlink" }; int o = (int)vp_choice("option", 7); bool line = vp_choice("line", 2);
    std::string l = line ? "disk=/p,9,syscall" : "syscall"; l += O[o]; if (vp_choice("none", 2)) { stxxl::disk_config e; CHECKM(e.path.empty() && e.size == 0 && !e.flash, "an empty configuration"); CHECKM(e.autogrow && !e.delete_on_exit && e.direct == stxxl::disk_config::DIRECT_TRY && e.queue == stxxl::file::DEFAULT_QUEUE && e.device_id == stxxl::file::DEFAULT_DEVICE_ID && !e.raw_device && !e.unlink_on_open && e.queue_length == 0, "defaults"); }
    stxxl::disk_config k = line ? stxxl::disk_config(l) : stxxl::disk_config("/p", 9u << 20, l);
    CHECKM(k.path == "/p" && k.size == 9u << 20 && k.io_impl == "syscall" && !k.flash && !k.raw_device && k.queue_length == 0, "path, size and implementation as given");
    CHECKM(k.autogrow == (o != 1) && k.delete_on_exit == (o == 2) && k.direct == (o == 3 ? stxxl::disk_config::DIRECT_ON : stxxl::disk_config::DIRECT_TRY) && k.queue == (o == 4 ? 3 : (int)stxxl::file::DEFAULT_QUEUE) && k.device_id == (o == 5 ? 4 : (unsigned)stxxl::file::DEFAULT_DEVICE_ID) && k.unlink_on_open == (o == 6), "the options given, defaults otherwise");
    stxxl::config* c = stxxl::config::get_instance(); std::vector<char> reg, fl; int n = (int)vp_param(0, 3); char id = '0';
    for (int i = 0; i < n; ++i) { int w = (int)vp_choice("source", 4); 
        if (w < 2) { std::string p = "/vpnone/"; p += id; stxxl::disk_config x(p, 7 << 20, "memory"); x.flash = w; c->add_disk(x); (w ? fl : reg).push_back(id++); continue; }
        char fn[64] = "/tmp/vp_stxxl_cfg"; int fd = -1; if (vp_native()) { strcpy(fn, "/tmp/vp_stxxl_cfg_XXXXXX"); fd = mkstemp(fn); }
        std::string t; for (int j = 0; j < 2; ++j) { bool f = j == 0 ? w == 2 : w == 3; t += f ? "flash=/vpnone/" : "disk=/vpnone/"; t += id; t += ",7,memory\n"; (f ? fl : reg).push_back(id++); }
        if (vp_native()) { FILE* f = fdopen(fd, "w"); if (f) { fwrite(t.data(), 1, t.size(), f); fclose(f); } } else vp_file_set(fn, t.data(), t.size());
        c->load_config_file(fn); if (vp_native()) unlinkat(AT_FDCWD, fn, 0); }
    CHECKM(c->disks_number() == reg.size() + fl.size(), "every disk is configured once"); CHECKM(c->regular_disk_range() == std::make_pair(0u, (unsigned)reg.size()), "range of regular disks"); CHECKM(c->flash_range() == std::make_pair((unsigned)reg.size(), (unsigned)(reg.size() + fl.size())), "range of flash disks");
    for (size_t i = 0; i < reg.size() + fl.size(); ++i) { CHECKM(c->disk_path(i)[8] == (i < reg.size() ? reg[i] : fl[i - reg.size()]), "regular disks come first, each kind in order"); CHECKM(c->disk(i).flash == (i >= reg.size()), "kind of disk"); } vp_cover("end");
}
