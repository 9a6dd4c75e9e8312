// Matrices in external memory: arithmetic, iterators, transposition, shared copies, every multiplication and scheduling algorithm.
#define STXXL_DEFAULT_BLOCK_SIZE(type) 4096
#include "hx.h"
#include <stxxl/vector>
#include <stxxl/bits/containers/matrix.h>
// arithmetic modulo 256; four values per block, so that matrices of a few elements consist of several blocks
struct val {
    unsigned char v, chk; unsigned char pad[1022];
    val() : v(0), chk(0x5a) {} val(int x) : v((unsigned char)x), chk(0x5a) {}
    bool ok() const { return chk == 0x5a; }
    val& operator += (const val& o) { v = (unsigned char)(v + o.v); return *this; } val& operator -= (const val& o) { v = (unsigned char)(v - o.v); return *this; } val& operator *= (const val& o) { v = (unsigned char)(v * o.v); return *this; }
    val operator + (const val& o) const { return val(v + o.v); } val operator - (const val& o) const { return val(v - o.v); } val operator * (const val& o) const { return val(v * o.v); }
    val operator - () const { return val(-(int)v); } val operator + () const { return *this; }
};
static_assert(sizeof(val) == 1024, "four values per block");
typedef stxxl::matrix<val, 2> M; typedef stxxl::block_scheduler<stxxl::matrix_swappable_block<val, 2> > BS; typedef stxxl::column_vector<val> CV; typedef stxxl::row_vector<val> RV; typedef unsigned char u8;
struct mod { // the matrix as an array
    int h, w; std::vector<u8> d; mod(int h_ = 0, int w_ = 0) : h(h_), w(w_), d(h_ * w_, 0) {} u8& at(int r, int c) { return d[r * w + c]; } u8 at(int r, int c) const { return d[r * w + c]; }
    mod t() const { mod x(w, h); for (int r = 0; r < h; ++r) for (int c = 0; c < w; ++c) x.at(c, r) = at(r, c); return x; }
    mod mul(const mod& o) const { mod x(h, o.w); for (int r = 0; r < h; ++r) for (int c = 0; c < o.w; ++c) { u8 s = 0; for (int k = 0; k < w; ++k) s = (u8)(s + at(r, k) * o.at(k, c)); x.at(r, c) = s; } return x; }
};
static void same(const M& m, const mod& x, const char*) {
    CHECK(m.get_height() == x.h && m.get_width() == x.w); int i = 0;
    for (M::const_row_major_iterator it = m.cbegin(); !it.empty(); ++it, ++i) { CHECK(it.get_row() == i / x.w && it.get_col() == i % x.w); const val& v = *it; CHECKM(v.v == x.d[i], "every element has the value of the mathematical operation"); CHECKM(v.ok(), "elements are complete"); vp_observe(v.v); }
    CHECKM(i == x.h * x.w, "an iterator visits every element");
}
// cells: a few blocks stay zero (bit pattern), the others get small numbers, some cells are symbolic
static void fill(M& m, mod& x, int seed, vp_u64 zero, int syms, bool colmajor) {
    int bw = (x.w + 1) / 2, n = 0;
    for (int r = 0; r < x.h; ++r) for (int c = 0; c < x.w; ++c) { if ((zero >> ((r / 2 * bw + c / 2) & 63)) & 1) continue; ++n; x.at(r, c) = (u8)((r * 5 + c * 3 + seed) * 11 % 29 + 1); }
    for (int s = 0; s < syms && n; ++s) { int k = (int)((seed * 7 + s * 13) % n); for (int i = 0; i < x.h * x.w; ++i) if (x.d[i] && k-- == 0) { x.d[i] = vp_u8("x"); break; } }
    if (colmajor) { for (M::col_major_iterator it = m.begin(); !it.empty(); ++it) if (!((zero >> ((it.get_row() / 2 * bw + it.get_col() / 2) & 63)) & 1)) *it = val(x.at(it.get_row(), it.get_col())); }
    else for (M::row_major_iterator it = m.begin(); !it.empty(); ++it) if (!((zero >> ((it.get_row() / 2 * bw + it.get_col() / 2) & 63)) & 1)) *it = val(x.at(it.get_row(), it.get_col()));
}
// params: multiplication algorithm, scheduling algorithm, height, inner, width, blocks of memory, symbolic cells of the left / right matrix, zero pattern
VP_HARNESS(mat_mul) {
    int alg = (int)vp_param(0, 1), sch = (int)vp_param(1, 2), h = (int)vp_param(2, 3), k = (int)vp_param(3, 4), w = (int)vp_param(4, 3), mem = (int)vp_param(5, 4), sa = (int)vp_param(6, 2), sb = (int)vp_param(7, 0); vp_u64 zero = vp_param(8, 0); hx_disks(1);
    { BS bs((stxxl::int_type)mem * 4096); bool ta = vp_choice("ta", 2), tb = vp_choice("tb", 2); M a(bs, ta ? k : h, ta ? h : k), b(bs, tb ? w : k, tb ? k : w); mod x(ta ? k : h, ta ? h : k), y(tb ? w : k, tb ? k : w);
      fill(a, x, 1, zero, sa, ta); fill(b, y, 4, zero >> 8, sb, tb); if (ta) { a.transpose(); x = x.t(); } if (tb) { b.transpose(); y = y.t(); }
      mod z = x.mul(y); { M c = a.multiply(b, alg, sch); same(c, z, "every multiplication algorithm gives the product"); } vp_cover("end");
      same(a, x, "the factors are unchanged"); same(b, y, "the factors are unchanged"); }
    HX_NOLEAK();
}
static void put(M& m, mod& x) { int k = (int)vp_choice("cell", 3), r = k == 0 ? 0 : x.h - 1, c = k == 1 ? 0 : x.w - 1; u8 v = vp_u8("v"); *m(r, c) = val(v); x.at(r, c) = v; }
// programs on two square or rectangular matrices; params: length, height, width, blocks of memory, first operation, zero pattern
VP_HARNESS(mat_prog) {
    int len = (int)vp_param(0, 3), h = (int)vp_param(1, 3), w = (int)vp_param(2, 3), mem = (int)vp_param(3, 4), first = (int)vp_param(4, 99); vp_u64 zero = vp_param(5, 0); hx_disks(1);
    { BS bs((stxxl::int_type)mem * 4096); M a(bs, h, w), b(bs, h, w); mod x(h, w), y(h, w); same(a, x, "a new matrix is zero"); fill(a, x, 1, zero, 1, false); fill(b, y, 4, zero >> 8, 1, true);
      for (int s = 0; s < len; ++s) { bool fit = x.h == y.h && x.w == y.w;
          switch (s == 0 && first < 99 ? (vp_u64)first : vp_choice("op", s + 1 < len || len < 3 ? 14 : 9)) {
          case 0: put(a, x); break;
          case 1: vp_assume(fit); a += b; for (int i = 0; i < h * w; ++i) x.d[i] = (u8)(x.d[i] + y.d[i]); break;
          case 2: vp_assume(fit); a -= b; for (int i = 0; i < h * w; ++i) x.d[i] = (u8)(x.d[i] - y.d[i]); break;
          case 3: a *= val(3); for (int i = 0; i < h * w; ++i) x.d[i] = (u8)(x.d[i] * 3); break;
          case 4: a.transpose(); x = x.t(); break;
          case 5: a.set_zero(); x = mod(x.h, x.w); break;
          case 6: a = b; x = y; break;
          case 7: { vp_assume(fit); M c = a + b; mod z = x; for (int i = 0; i < h * w; ++i) z.d[i] = (u8)(x.d[i] + y.d[i]); same(c, z, "sum"); a = c; x = z; break; }
          case 8: { vp_assume(fit); M c = b - a; mod z = y; for (int i = 0; i < h * w; ++i) z.d[i] = (u8)(y.d[i] - x.d[i]); same(c, z, "difference"); b = c; y = z; break; }
          case 9: { M c = a * val(5); mod z = x; for (int i = 0; i < h * w; ++i) z.d[i] = (u8)(x.d[i] * 5); same(c, z, "scalar product"); break; }
          case 10: { M c(a); mod z = x; put(c, z); same(c, z, "a copy is independent of the original"); same(a, x, "the original is independent of its copy"); if (vp_choice("from", 2)) { put(a, x); same(c, z, "a copy is independent of the original"); } break; }
          case 11: { vp_assume(x.w == y.h); M c = a * b; same(c, x.mul(y), "product"); vp_assume(y.w == y.h); b *= b; y = y.mul(y); break; }
          case 12: std::swap(x, y); { M c(a); a = b; b = c; } break;
          default: switch (vp_choice("self", 4)) { // a matrix as both operands
              case 0: a += a; for (int i = 0; i < h * w; ++i) x.d[i] = (u8)(2 * x.d[i]); break;
              case 1: { M c(a); a -= a; same(c, x, "copy"); x = mod(x.h, x.w); same(a + a, x, "sum"); break; }
              case 2: vp_assume(x.w == x.h); a *= a; x = x.mul(x); break;
              default: { M& r = a; a = r; M c = a - a; same(c, mod(x.h, x.w), "difference"); break; } } break;
          }
          same(a, x, "every operation has its documented result"); }
      same(b, y, "operands are unchanged"); vp_cover("end"); }
    HX_NOLEAK();
}
// matrix times vector, vector times matrix, vector times vector, vector arithmetic; params: height, width, memory, zero pattern
VP_HARNESS(mat_vec) {
    int h = (int)vp_param(0, 3), w = (int)vp_param(1, 5), mem = (int)vp_param(2, 3); hx_disks(1);
    { BS bs((stxxl::int_type)mem * 4096); bool t = vp_choice("t", 2); M a(bs, t ? w : h, t ? h : w); mod x(t ? w : h, t ? h : w); fill(a, x, 2, vp_param(3, 0), 2, false); if (t) { a.transpose(); x = x.t(); }
      CV c(w), c2(h); RV r(h), r2(w); mod y(w, 1), z(1, h), y2(h, 1), z2(1, w); for (int i = 0; i < w; ++i) { y.d[i] = (u8)(i * 3 + 1); c[i] = val(y.d[i]); z2.d[i] = i == 1 ? vp_u8("z") : (u8)(i + 2); r2[i] = val(z2.d[i]); }
      for (int i = 0; i < h; ++i) { z.d[i] = (u8)(i * 5 + 2); r[i] = val(z.d[i]); y2.d[i] = i == 1 ? vp_u8("y") : (u8)(7 - i); c2[i] = val(y2.d[i]); }
      switch (vp_choice("op", 5)) {
      case 0: { CV o = a * c; mod e = x.mul(y); CHECK(o.size() == (size_t)h); for (int i = 0; i < h; ++i) CHECKM(o[i].v == e.d[i], "matrix times column vector"); break; }
      case 1: { RV o = a.multiply_from_left(r); mod e = z.mul(x); CHECK(o.size() == (size_t)w); for (int i = 0; i < w; ++i) CHECKM(o[i].v == e.d[i], "row vector times matrix"); break; }
      case 2: { M o(bs, c2, r2); mod e(h, w); for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) e.at(i, j) = (u8)(y2.d[i] * z2.d[j]); same(o, e, "outer product"); M o2(bs, c, r); mod f(w, h); for (int i = 0; i < w; ++i) for (int j = 0; j < h; ++j) f.at(i, j) = (u8)(y.d[i] * z.d[j]); same(o * o2, e.mul(f), "product of outer products"); break; }
      case 3: { CV o = c2 + c2; o -= c2; CV p = o * val(3) - c2; p += o; p *= val(2); for (int i = 0; i < h; ++i) CHECKM(p[i].v == (u8)(6 * y2.d[i]), "column vector arithmetic"); val d = r * c2; u8 s = 0; for (int i = 0; i < h; ++i) s = (u8)(s + z.d[i] * y2.d[i]); CHECKM(d.v == s, "scalar product of vectors"); break; }
      default: { RV o = r2 + r2; o -= r2; RV p = o * val(3) - r2; p += o; p *= val(2); for (int i = 0; i < w; ++i) CHECKM(p[i].v == (u8)(6 * z2.d[i]), "row vector arithmetic"); p.set_zero(); for (int i = 0; i < w; ++i) CHECK(p[i].v == 0); }
      }
      same(a, x, "operands are unchanged"); vp_cover("end"); }
    HX_NOLEAK();
}
// iterators: moved, copied, assigned (also between matrices) with and without an acquired block; params: memory, steps, first
VP_HARNESS(mat_iter) {
    int mem = (int)vp_param(0, 4), len = (int)vp_param(1, 3), first = (int)vp_param(2, 99); hx_disks(1); const int h = 3, w = 4;
    { BS bs((stxxl::int_type)mem * 4096); M m[2] = { M(bs, h, w), M(bs, h, w) }; mod x[2] = { mod(h, w), mod(h, w) }; fill(m[0], x[0], 1, 0, 1, false); fill(m[1], x[1], 9, 2, 1, false);
      { M::row_major_iterator a = m[0](0, 0), b = m[1](0, 0); struct pos { int k, r, c; } p = { 0, 0, 0 }, q = { 1, 0, 0 };
        for (int s = 0; s < len; ++s) {
            switch (s == 0 && first < 99 ? (vp_u64)first : vp_choice("op", 9)) {
            case 0: { vp_assume(p.r >= 0); u8 v = vp_u8("v"); *a = val(v); x[p.k].at(p.r, p.c) = v; break; }
            case 1: vp_assume(p.r >= 0); ++a; if (++p.c == w) { p.c = 0; if (++p.r == h) p.r = p.c = -1; } break;
            case 2: vp_assume(p.r >= 0); --a; if (--p.c < 0) { p.c = w - 1; if (--p.r < 0) p.r = p.c = -1; } break;
            case 3: { int k = (int)vp_choice("cell", 4); p.r = k < 2 ? 0 : h - 1; p.c = k % 2 ? w - 1 : 1; a.set_pos(p.r, p.c); break; }
            case 4: { vp_assume(p.r >= 0); M::col_major_iterator d(a); int r = p.r, c = p.c; ++d; if (++r == h) { r = 0; if (++c == w) r = c = -1; } CHECK(d.get_row() == r && d.get_col() == c && d.empty() == (r < 0)); if (r >= 0) { CHECK((*d).v == x[p.k].at(r, c)); --d; CHECK(d == a); } break; }
            case 5: a = b; p = q; break;
            case 6: { M::row_major_iterator c(a); pos o = p; a = b; b = c; p = q; q = o; break; }
            case 7: { vp_assume(q.r >= 0); CHECKM((*b).v == x[q.k].at(q.r, q.c), "an iterator gives the element at its position"); break; }
            default: { M::const_row_major_iterator c(a); CHECK(c.get_row() == p.r && c.get_col() == p.c && c.empty() == (p.r < 0)); if (p.r >= 0) { CHECKM((*c).v == x[p.k].at(p.r, p.c), "a constant iterator gives the element at its position"); ++c; if (!c.empty()) (void)*c; } break; }
            }
            CHECKM(a.get_row() == p.r && a.get_col() == p.c && a.empty() == (p.r < 0), "the position of an iterator"); if (p.r >= 0 && vp_choice("see", 2)) { CHECKM((*a).v == x[p.k].at(p.r, p.c), "an iterator gives the element at its position"); }
        } }
      same(m[0], x[0], "iterators write to their matrix"); same(m[1], x[1], "iterators write to their matrix"); vp_cover("end"); }
    HX_NOLEAK();
}
