#include "expr.h"
#include <unordered_set>
#include <algorithm>
using namespace std;
vector<VarInfo> g_vars;
Z3_context g_z3 = nullptr;
u64 g_exprCount = 0;

static vector<Expr*> g_tab(1 << 20, nullptr);
static Expr* g_arena = nullptr; static size_t g_arenaLeft = 0;

static Expr* allocExpr() {
  if (!g_arenaLeft) { g_arenaLeft = 16384; g_arena = (Expr*)malloc(sizeof(Expr) * g_arenaLeft); if (!g_arena) abort(); }
  g_arenaLeft--; return g_arena++;
}
static u64 hashKey(Kind k, unsigned w, u64 c, E a, E b, E d) {
  u64 h = k * 0x9E3779B97F4A7C15ull + w * 0xC2B2AE3D27D4EB4Full + c * 0x165667B19E3779F9ull;
  h ^= (h >> 29); h += (u64)a * 0xD6E8FEB86659FD93ull; h ^= h >> 32; h += (u64)b * 0xA0761D6478BD642Full; h ^= h >> 31;
  h += (u64)d * 0xE7037ED1A0B428DBull; h ^= h >> 33; return h * 0x9E3779B97F4A7C15ull >> 20;
}
static void knownBits(Kind k, unsigned w, u64 c, E a, E b, E d, u64& z, u64& o) {
  u64 m = maskw(w); z = o = 0;
  switch (k) {
    case K_CONST: o = c; z = ~c & m; break;
    case K_AND: o = a->o & b->o; z = a->z | b->z; break;
    case K_OR: o = a->o | b->o; z = a->z & b->z; break;
    case K_XOR: o = (a->o & b->z) | (a->z & b->o); z = (a->z & b->z) | (a->o & b->o); break;
    case K_SHL: if (b->kind == K_CONST) { u64 s = b->cval; if (s >= w) z = m; else { o = (a->o << s) & m; z = ((a->z << s) | maskw(s) * (s != 0)) & m; } } break;
    case K_LSHR: if (b->kind == K_CONST) { u64 s = b->cval; if (s >= w) z = m; else { o = a->o >> s; z = ((a->z >> s) | ~(m >> s)) & m; } } break;
    case K_CONCAT: o = (a->o << b->width) | b->o; z = (a->z << b->width) | b->z; break;
    case K_EXTRACT: o = (a->o >> c) & m; z = (a->z >> c) & m; break;
    case K_ZEXT: o = a->o; z = a->z | (m & ~maskw(a->width)); break;
    case K_ITE: o = b->o & d->o; z = b->z & d->z; break;
    default: break;
  }
}
static E intern0(Kind k, unsigned w, u64 c, E a, E b, E d);
E mkConst(u64 v, unsigned w);
static E intern(Kind k, unsigned w, u64 c, E a = nullptr, E b = nullptr, E d = nullptr) {
  E e = intern0(k, w, c, a, b, d);
  if (k != K_CONST && (e->z | e->o) == maskw(w)) return mkConst(e->o, w);
  return e;
}
static E intern0(Kind k, unsigned w, u64 c, E a, E b, E d) {
  u64 h = hashKey(k, w, c, a, b, d);
  Expr** s = &g_tab[h & (g_tab.size() - 1)];
  for (Expr* e = *s; e; e = e->next)
    if (e->kind == k && e->width == w && e->cval == c && e->k[0] == a && e->k[1] == b && e->k[2] == d) return e;
  Expr* e = allocExpr();
  e->kind = k; e->width = (u8)w; e->cval = c; e->k[0] = a; e->k[1] = b; e->k[2] = d;
  e->nk = d ? 3 : b ? 2 : a ? 1 : 0; e->flags = ((a ? a->flags : 0) | (b ? b->flags : 0) | (d ? d->flags : 0)) & 1; e->id = (u32)g_exprCount++; e->z3 = nullptr; e->epoch = 0; e->val = 0;
  u64 m = maskw(w), um = m;
  switch (k) {
    case K_CONST: um = c; break;
    case K_ZEXT: um = a->umax; break;
    case K_AND: um = min(a->umax, b->umax); break;
    case K_ITE: um = max(b->umax, d->umax); break;
    case K_LSHR: um = b->kind == K_CONST ? (b->cval >= w ? 0 : a->umax >> b->cval) : a->umax; break;
    case K_UDIV: um = b->kind == K_CONST && b->cval ? a->umax / b->cval : m; break;
    case K_UREM: um = b->kind == K_CONST && b->cval ? min(a->umax, b->cval - 1) : m; break;
    case K_EXTRACT: um = c == 0 ? min(m, a->umax) : min(m, a->umax >> c); break;
    case K_ADD: { unsigned __int128 t = (unsigned __int128)a->umax + b->umax; um = t <= m ? (u64)t : m; break; }
    case K_MUL: { unsigned __int128 t = (unsigned __int128)a->umax * b->umax; um = t <= m ? (u64)t : m; break; }
    case K_SHL: if (b->kind == K_CONST && b->cval < w) { unsigned __int128 t = (unsigned __int128)a->umax << b->cval; um = t <= m ? (u64)t : m; } break;
    case K_OR: case K_XOR: { u64 t = a->umax | b->umax; int n = t ? 64 - __builtin_clzll(t) : 0; um = min(m, maskw(n)); if (n == 0) um = 0; break; }
    case K_CONCAT: um = b->width >= 64 ? m : ((a->umax << b->width) | maskw(b->width)); break;
    default: break;
  }
  knownBits(k, w, c, a, b, d, e->z, e->o); um = min(um, ~e->z & m);
  e->umax = um;
  e->next = *s; *s = e;
  if (g_exprCount > g_tab.size()) {
    vector<Expr*> nt(g_tab.size() * 4, nullptr);
    for (Expr* x : g_tab) while (x) { Expr* n = x->next; u64 hh = hashKey(x->kind, x->width, x->cval, x->k[0], x->k[1], x->k[2]);
      x->next = nt[hh & (nt.size() - 1)]; nt[hh & (nt.size() - 1)] = x; x = n; }
    g_tab.swap(nt);
  }
  return e;
}
E mkConst(u64 v, unsigned w) { return intern(K_CONST, w, v & maskw(w)); }
static unordered_map<string, u32> g_varIdx;
E mkVar(const string& name, unsigned w, bool undef) {
  string key = name + ":" + to_string(w);
  auto it = g_varIdx.find(key);
  if (it != g_varIdx.end()) return g_vars[it->second].e;
  u32 i = g_vars.size(); g_varIdx[key] = i;
  E e = intern(K_VAR, w, i);
  g_vars.push_back({name, w, undef, e});
  return e;
}
u64 evalBin(Kind k, u64 a, u64 b, unsigned w) {
  u64 m = maskw(w);
  switch (k) {
    case K_ADD: return (a + b) & m; case K_SUB: return (a - b) & m; case K_MUL: return (a * b) & m;
    case K_UDIV: return b ? a / b : m; case K_UREM: return b ? a % b : a;
    case K_SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (u64)(x / y) & m; }
    case K_SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
    case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
    case K_SHL: return b >= w ? 0 : (a << b) & m; case K_LSHR: return b >= w ? 0 : a >> b;
    case K_ASHR: return (u64)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
    case K_EQ: return a == b; case K_ULT: return a < b; case K_ULE: return a <= b;
    case K_SLT: return sx(a, w) < sx(b, w); case K_SLE: return sx(a, w) <= sx(b, w);
    default: fprintf(stderr, "evalBin?\n"); abort();
  }
}
static inline bool isC(E e) { return e->kind == K_CONST; }
static inline bool isCmp(Kind k) { return k >= K_EQ && k <= K_SLE; }
E mkNot(E a) {
  if (isC(a)) return mkConst(!a->cval, 1);
  if (a->kind == K_EQ && a->width == 1 && a->k[0]->width == 1 && isC(a->k[0]) && a->k[0]->cval == 0) return a->k[1];
  if (a->kind == K_ULT) return mkBin(K_ULE, a->k[1], a->k[0]);
  if (a->kind == K_ULE) return mkBin(K_ULT, a->k[1], a->k[0]);
  if (a->kind == K_SLT) return mkBin(K_SLE, a->k[1], a->k[0]);
  if (a->kind == K_SLE) return mkBin(K_SLT, a->k[1], a->k[0]);
  return intern(K_EQ, 1, 0, mkConst(0, 1), a);
}
bool g_keepArith = false; // bytes of a stored sum stay parts of that sum, so that loading it again restores the sum
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->width) return a;
  if (isC(a)) return mkConst(a->cval >> lo, w);
  switch (a->kind) {
    case K_EXTRACT: return mkExtract(a->k[0], lo + a->cval, w);
    case K_CONCAT: {
      unsigned lw = a->k[1]->width;
      if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
      if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
      return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
    }
    case K_ZEXT: {
      unsigned kw = a->k[0]->width;
      if (lo >= kw) return mkConst(0, w);
      if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
      return mkZext(mkExtract(a->k[0], lo, kw - lo), w);
    }
    case K_SEXT: { unsigned kw = a->k[0]->width; if (lo + w <= kw) return mkExtract(a->k[0], lo, w); if (lo == 0) return mkSext(a->k[0], w); break; }
    case K_ITE: if (isC(a->k[1]) || isC(a->k[2])) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w)); break;
    case K_AND: case K_OR: case K_XOR: if (isC(a->k[0]) || isC(a->k[1])) return mkBin(a->kind, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w)); break;
    case K_ADD: case K_SUB: case K_MUL: if (lo == 0 && !g_keepArith) return mkBin(a->kind, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
    case K_LSHR: if (isC(a->k[1]) && lo + w + a->k[1]->cval <= a->width) return mkExtract(a->k[0], lo + a->k[1]->cval, w); break;
    case K_SHL: if (isC(a->k[1])) { u64 s = a->k[1]->cval; if (s < a->width) { if (lo >= s) return mkExtract(a->k[0], lo - s, w); if (lo + w <= s) return mkConst(0, w); } } break;
    default: break;
  }
  if (lo < 64 && (a->umax >> lo) == 0) return mkConst(0, w);
  return intern(K_EXTRACT, w, lo, a);
}
E mkZext(E a, unsigned w) {
  if (a->width == w) return a;
  if (isC(a)) return mkConst(a->cval, w);
  if (a->kind == K_ZEXT) return mkZext(a->k[0], w);
  if (a->kind == K_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w));
  return intern(K_ZEXT, w, 0, a);
}
E mkSext(E a, unsigned w) {
  if (a->width == w) return a;
  if (isC(a)) return mkConst((u64)sx(a->cval, a->width), w);
  if (a->kind == K_SEXT) return mkSext(a->k[0], w);
  if (a->umax <= (maskw(a->width) >> 1)) return mkZext(a, w);
  if (a->kind == K_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
  return intern(K_SEXT, w, 0, a);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->width + lo->width;
  if (w > 64) { fprintf(stderr, "concat too wide %u\n", w); abort(); }
  if (isC(hi) && isC(lo)) return mkConst((hi->cval << lo->width) | lo->cval, w);
  if (isC(hi) && hi->cval == 0) return mkZext(lo, w);
  if (hi->kind == K_EXTRACT && lo->kind == K_EXTRACT && hi->k[0] == lo->k[0] && hi->cval == lo->cval + lo->width) {
    bool o = g_keepArith; g_keepArith = true; E r = mkExtract(hi->k[0], lo->cval, w); g_keepArith = o; return r; }
  // byte split of value whose low part simplified to the bare operand
  if (hi->kind == K_EXTRACT && hi->k[0]->kind == K_SEXT && hi->cval == lo->width && hi->k[0]->k[0] == lo) return mkExtract(hi->k[0], 0, w);
  if (hi->kind == K_ZEXT && hi->k[0]->kind == K_EXTRACT && lo->kind == K_EXTRACT && hi->k[0]->k[0] == lo->k[0] && hi->k[0]->cval == lo->cval + lo->width)
    return mkZext(mkConcat(hi->k[0], lo), w);
  if (hi->kind == K_ITE && lo->kind == K_ITE && hi->k[0] == lo->k[0]) return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
  if (lo->kind == K_CONCAT && hi->kind == K_EXTRACT) { // (x[..]) ++ (x[..] ++ rest)
    E m = lo->k[0];
    if (m->kind == K_EXTRACT && m->k[0] == hi->k[0] && hi->cval == m->cval + m->width) return mkConcat(mkConcat(hi, m), lo->k[1]);
  }
  return intern(K_CONCAT, w, 0, hi, lo);
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->cval ? a : b;
  if (a == b) return a;
  if (a->width == 1) {
    if (isC(a) && isC(b)) return a->cval ? c : mkNot(c);
    if (isC(a)) return a->cval ? mkBin(K_OR, c, b) : mkBin(K_AND, mkNot(c), b);
    if (isC(b)) return b->cval ? mkBin(K_OR, mkNot(c), a) : mkBin(K_AND, c, a);
  }
  if (a->kind == K_ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
  if (b->kind == K_ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
  return intern(K_ITE, a->width, 0, c, a, b);
}
static bool noUW(E a, E b) { return (unsigned __int128)a->umax + b->umax <= maskw(a->width); }
E mkBin(Kind k, E a, E b) {
  unsigned w = a->width;
  unsigned rw = isCmp(k) ? 1 : w;
  if (isC(a) && isC(b)) return mkConst(evalBin(k, a->cval, b->cval, w), rw);
  // canonical: constants on the left for commutative ops (EQ/ADD/MUL/AND/OR/XOR)
  bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ;
  if (comm && (isC(b) || (!isC(a) && a->id > b->id))) { E t = a; a = b; b = t; }
  u64 m = maskw(w);
  switch (k) {
    case K_ADD:
      if (isC(a)) {
        if (!a->cval) return b;
        if (b->kind == K_ADD && isC(b->k[0])) return mkBin(K_ADD, mkConst(a->cval + b->k[0]->cval, w), b->k[1]);
        if (b->kind == K_ITE && isC(b->k[1]) && isC(b->k[2])) return mkIte(b->k[0], mkBin(k, a, b->k[1]), mkBin(k, a, b->k[2]));
        if (b->kind == K_SUB && isC(b->k[0])) return mkBin(K_SUB, mkConst(a->cval + b->k[0]->cval, w), b->k[1]);
      } else {
        if (b->kind == K_ADD && isC(b->k[0])) return mkBin(K_ADD, b->k[0], mkBin(K_ADD, a, b->k[1]));
        if (a->kind == K_ADD && isC(a->k[0])) return mkBin(K_ADD, a->k[0], mkBin(K_ADD, a->k[1], b));
        if (b->kind == K_SUB && b->k[1] == a) return b->k[0];
        if (a->kind == K_SUB && a->k[1] == b) return a->k[0];
      }
      break;
    case K_SUB:
      if (a == b) return mkConst(0, w);
      if (isC(b)) return mkBin(K_ADD, mkConst(0 - b->cval, w), a);
      if (a->kind == K_ADD && a->k[0] == b) return a->k[1];
      if (a->kind == K_ADD && a->k[1] == b) return a->k[0];
      if (a->kind == K_ADD && isC(a->k[0])) return mkBin(K_ADD, a->k[0], mkBin(K_SUB, a->k[1], b));
      if (b->kind == K_ADD && isC(b->k[0])) return mkBin(K_ADD, mkConst(0 - b->k[0]->cval, w), mkBin(K_SUB, a, b->k[1]));
      break;
    case K_MUL:
      if (isC(a)) {
        if (a->cval == 0) return a; if (a->cval == 1) return b;
        if ((a->cval & (a->cval - 1)) == 0) return mkBin(K_SHL, b, mkConst(__builtin_ctzll(a->cval), w));
        if (b->kind == K_MUL && isC(b->k[0])) return mkBin(K_MUL, mkConst(a->cval * b->k[0]->cval, w), b->k[1]);
        if (b->kind == K_ITE && isC(b->k[1]) && isC(b->k[2])) return mkIte(b->k[0], mkBin(k, a, b->k[1]), mkBin(k, a, b->k[2]));
      }
      break;
    case K_UDIV:
      if (isC(b)) { if (b->cval == 1) return a; if (b->cval && a->umax < b->cval) return mkConst(0, w);
        if (b->cval && (b->cval & (b->cval - 1)) == 0) return mkBin(K_LSHR, a, mkConst(__builtin_ctzll(b->cval), w)); }
      if (isC(b) && b->cval) { int n = 64 - __builtin_clzll(a->umax | b->cval); if (n + 8 <= (int)w) return mkZext(mkBin(k, mkExtract(a, 0, n), mkConst(b->cval, n)), w); }
      break;
    case K_UREM:
      if (isC(b)) { if (b->cval == 1) return mkConst(0, w); if (b->cval && a->umax < b->cval) return a;
        if (b->cval && (b->cval & (b->cval - 1)) == 0) return mkBin(K_AND, a, mkConst(b->cval - 1, w)); }
      if (isC(b) && b->cval) {
        if (a->kind == K_ADD && isC(a->k[0]) && a->k[0]->cval >= b->cval && noUW(a->k[0], a->k[1])) return mkBin(K_UREM, mkBin(K_ADD, mkConst(a->k[0]->cval % b->cval, w), a->k[1]), b);
        int n = 64 - __builtin_clzll(a->umax | b->cval); if (n + 8 <= (int)w) return mkZext(mkBin(k, mkExtract(a, 0, n), mkConst(b->cval, n)), w);
      }
      break;
    case K_SDIV: if (isC(b) && b->cval == 1) return a;
      if (isC(b) && sx(b->cval, w) > 0 && a->umax <= (m >> 1)) return mkBin(K_UDIV, a, b);
      break;
    case K_SREM:
      if (isC(b) && sx(b->cval, w) > 0 && a->umax <= (m >> 1)) return mkBin(K_UREM, a, b);
      break;
    case K_AND:
      if (a == b) return a;
      if (isC(a)) {
        if (!a->cval) return a; if (a->cval == m || !(~a->cval & m & ~b->z)) return b;
        if (b->kind == K_AND && isC(b->k[0])) return mkBin(K_AND, mkConst(a->cval & b->k[0]->cval, w), b->k[1]);
        if ((a->cval & (a->cval + 1)) == 0) { // low mask
          unsigned n = __builtin_popcountll(a->cval);
          if (b->umax <= a->cval) return b;
          return mkZext(mkExtract(b, 0, n), w);
        }
        if (b->kind == K_ZEXT) { u64 km = maskw(b->k[0]->width); return mkZext(mkBin(K_AND, mkConst(a->cval & km, b->k[0]->width), b->k[0]), w); }
        if (b->kind == K_ITE && isC(b->k[1]) && isC(b->k[2])) return mkIte(b->k[0], mkBin(k, a, b->k[1]), mkBin(k, a, b->k[2]));
      }
      if (w == 1) { if (a == mkNot(b)) return mkConst(0, 1); }
      if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->k[0]->width == b->k[0]->width) return mkZext(mkBin(k, a->k[0], b->k[0]), w);
      break;
    case K_OR:
      if (a == b) return a;
      if (isC(a)) { if (!a->cval) return b; if (a->cval == m) return a;
        if (b->kind == K_ITE && isC(b->k[1]) && isC(b->k[2])) return mkIte(b->k[0], mkBin(k, a, b->k[1]), mkBin(k, a, b->k[2])); }
      if (w == 1) { if (a == mkNot(b)) return mkConst(1, 1); }
      if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->k[0]->width == b->k[0]->width) return mkZext(mkBin(k, a->k[0], b->k[0]), w);
      // disjoint (x << n) | zext(y) => concat
      for (int i = 0; i < 2; ++i) { E s = i ? b : a, z = i ? a : b;
        if (s->kind == K_SHL && isC(s->k[1]) && s->k[1]->cval < w && z->umax < (1ull << s->k[1]->cval) && s->k[1]->cval > 0) {
          unsigned n = s->k[1]->cval; return mkConcat(mkExtract(s->k[0], 0, w - n), mkExtract(z, 0, n)); } }
      break;
    case K_XOR:
      if (a == b) return mkConst(0, w);
      if (isC(a)) { if (!a->cval) return b; if (w == 1) return mkNot(b);
        if (b->kind == K_XOR && isC(b->k[0])) return mkBin(K_XOR, mkConst(a->cval ^ b->k[0]->cval, w), b->k[1]);
        if (b->kind == K_ITE && isC(b->k[1]) && isC(b->k[2])) return mkIte(b->k[0], mkBin(k, a, b->k[1]), mkBin(k, a, b->k[2])); }
      break;
    case K_SHL:
      if (isC(b)) { if (!b->cval) return a; if (b->cval >= w) return mkConst(0, w);
        if (a->kind == K_SHL && isC(a->k[1])) { u64 s = a->k[1]->cval + b->cval; return s >= w ? mkConst(0, w) : mkBin(K_SHL, a->k[0], mkConst(s, w)); } }
      if (isC(a) && !a->cval) return a;
      break;
    case K_LSHR:
      if (isC(b)) { if (!b->cval) return a; if (b->cval >= w) return mkConst(0, w);
        return mkZext(mkExtract(a, b->cval, w - b->cval), w); }
      if (isC(a) && !a->cval) return a;
      break;
    case K_ASHR:
      if (isC(b)) { u64 s = b->cval >= w ? w - 1 : b->cval; if (!s) return a; return mkSext(mkExtract(a, s, w - s), w); }
      if (a->umax <= (m >> 1)) return mkBin(K_LSHR, a, b);
      break;
    case K_EQ:
      if (a == b) return mkConst(1, 1);
      if ((a->o & b->z) | (a->z & b->o)) return mkConst(0, 1);
      if (isC(a)) {
        if (w == 1) return a->cval ? b : mkNot(b);
        if (a->cval > b->umax) return mkConst(0, 1);
        switch (b->kind) {
          case K_ZEXT: return mkBin(K_EQ, mkConst(a->cval, b->k[0]->width), b->k[0]);
          case K_SEXT: { unsigned kw = b->k[0]->width; E c = mkConst(a->cval, kw); if (((u64)sx(c->cval, kw) & m) != a->cval) return mkConst(0, 1); return mkBin(K_EQ, c, b->k[0]); }
          case K_ADD: if (isC(b->k[0])) return mkBin(K_EQ, mkConst(a->cval - b->k[0]->cval, w), b->k[1]); break;
          case K_SUB: if (isC(b->k[0])) return mkBin(K_EQ, mkConst(b->k[0]->cval - a->cval, w), b->k[1]); if (a->cval == 0) return mkBin(K_EQ, b->k[0], b->k[1]); break;
          case K_XOR: if (isC(b->k[0])) return mkBin(K_EQ, mkConst(a->cval ^ b->k[0]->cval, w), b->k[1]); if (a->cval == 0) return mkBin(K_EQ, b->k[0], b->k[1]); break;
          case K_ITE: if (isC(b->k[1]) || isC(b->k[2])) return mkIte(b->k[0], mkBin(K_EQ, a, b->k[1]), mkBin(K_EQ, a, b->k[2])); break;
          case K_CONCAT: return mkBin(K_AND, mkBin(K_EQ, mkConst(a->cval >> b->k[1]->width, b->k[0]->width), b->k[0]), mkBin(K_EQ, mkConst(a->cval, b->k[1]->width), b->k[1]));
          case K_OR: if (a->cval == 0) return mkBin(K_AND, mkBin(K_EQ, a, b->k[0]), mkBin(K_EQ, a, b->k[1])); break;
          case K_SHL: if (isC(b->k[1])) { u64 s = b->k[1]->cval; if (a->cval & maskw(s)) return mkConst(0, 1); return mkBin(K_EQ, mkConst(a->cval >> s, w - s), mkExtract(b->k[0], 0, w - s)); } break;
          default: break;
        }
      } else {
        if (a->kind == K_ZEXT && b->kind == K_ZEXT) {
          E x = a->k[0], y = b->k[0];
          if (x->width == y->width) return mkBin(K_EQ, x, y);
          if (x->width < y->width) return mkBin(K_EQ, mkZext(x, y->width), y);
          return mkBin(K_EQ, x, mkZext(y, x->width));
        }
        if (a->kind == K_SEXT && b->kind == K_SEXT && a->k[0]->width == b->k[0]->width) return mkBin(K_EQ, a->k[0], b->k[0]);
        if (a->kind == K_ADD && b->kind == K_ADD && a->k[0] == b->k[0]) return mkBin(K_EQ, a->k[1], b->k[1]);
        if (a->kind == K_CONCAT && b->kind == K_CONCAT && a->k[0]->width == b->k[0]->width)
          return mkBin(K_AND, mkBin(K_EQ, a->k[0], b->k[0]), mkBin(K_EQ, a->k[1], b->k[1]));
      }
      break;
    case K_ULT:
      if (a == b) return mkConst(0, 1);
      if (isC(b)) { if (!b->cval) return mkConst(0, 1); if (a->umax < b->cval) return mkConst(1, 1); if (b->cval == 1) return mkBin(K_EQ, mkConst(0, w), a); }
      if (isC(a)) { if (a->cval >= b->umax) return mkConst(0, 1); }
      if (w == 1) return mkBin(K_AND, mkNot(a), b);
      goto ucmp;
    case K_ULE:
      if (a == b) return mkConst(1, 1);
      if (isC(a)) { if (!a->cval) return mkConst(1, 1); if (a->cval > b->umax) return mkConst(0, 1); }
      if (isC(b)) { if (a->umax <= b->cval) return mkConst(1, 1); if (b->cval == 0) return mkBin(K_EQ, mkConst(0, w), a); }
      if (w == 1) return mkBin(K_OR, mkNot(a), b);
    ucmp: {
      E x = a->kind == K_ZEXT ? a->k[0] : nullptr, y = b->kind == K_ZEXT ? b->k[0] : nullptr;
      if (x && y) { unsigned nw = max(x->width, y->width); return mkBin(k, mkZext(x, nw), mkZext(y, nw)); }
      if (x && isC(b) && b->cval <= maskw(x->width)) return mkBin(k, x, mkConst(b->cval, x->width));
      if (y && isC(a) && a->cval <= maskw(y->width)) return mkBin(k, mkConst(a->cval, y->width), y);
      if (a->kind == K_ITE && isC(b) && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkBin(k, a->k[1], b), mkBin(k, a->k[2], b));
      if (b->kind == K_ITE && isC(a) && isC(b->k[1]) && isC(b->k[2])) return mkIte(b->k[0], mkBin(k, a, b->k[1]), mkBin(k, a, b->k[2]));
      // c1 + x < c2 with no wrap
      if (a->kind == K_ADD && isC(a->k[0]) && isC(b) && noUW(a->k[0], a->k[1])) {
        if (b->cval < a->k[0]->cval) return mkConst(0, 1);
        return mkBin(k, a->k[1], mkConst(b->cval - a->k[0]->cval, w)); }
      if (b->kind == K_ADD && isC(b->k[0]) && isC(a) && noUW(b->k[0], b->k[1])) {
        if (a->cval < b->k[0]->cval) return mkConst(1, 1);
        return mkBin(k, mkConst(a->cval - b->k[0]->cval, w), b->k[1]); }
      break; }
    case K_SLT: case K_SLE: {
      if (a == b) return mkConst(k == K_SLE, 1);
      u64 h = m >> 1;
      if (a->umax <= h && b->umax <= h) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
      if (isC(b) && sx(b->cval, w) <= 0 && a->umax <= h) { // a>=0
        if (k == K_SLT) return mkConst(0, 1);
        return b->cval == 0 ? mkBin(K_EQ, b, a) : mkConst(0, 1);
      }
      if (isC(a) && sx(a->cval, w) < 0 && b->umax <= h) return mkConst(1, 1);
      if (a->kind == K_SEXT && b->kind == K_SEXT && a->k[0]->width == b->k[0]->width) return mkBin(k, a->k[0], b->k[0]);
      if (a->kind == K_SEXT && isC(b) && ((u64)sx(b->cval, a->k[0]->width) & m) == b->cval) return mkBin(k, a->k[0], mkConst(b->cval, a->k[0]->width));
      if (b->kind == K_SEXT && isC(a) && ((u64)sx(a->cval, b->k[0]->width) & m) == a->cval) return mkBin(k, mkConst(a->cval, b->k[0]->width), b->k[0]);
      if (a->kind == K_ITE && isC(b) && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkBin(k, a->k[1], b), mkBin(k, a->k[2], b));
      if (b->kind == K_ITE && isC(a) && isC(b->k[1]) && isC(b->k[2])) return mkIte(b->k[0], mkBin(k, a, b->k[1]), mkBin(k, a, b->k[2]));
      break; }
    default: break;
  }
  return intern(k, rw, 0, a, b);
}
static u32 g_epoch = 0;
static u64 evalRec(E e, const vector<u64>& m) {
  if (e->kind == K_CONST) return e->cval;
  if (e->epoch == g_epoch) return e->val;
  u64 v;
  switch (e->kind) {
    case K_VAR: v = e->cval < m.size() ? m[e->cval] & maskw(e->width) : 0; break;
    case K_CONCAT: v = (evalRec(e->k[0], m) << e->k[1]->width) | evalRec(e->k[1], m); break;
    case K_EXTRACT: v = (evalRec(e->k[0], m) >> e->cval) & maskw(e->width); break;
    case K_ZEXT: v = evalRec(e->k[0], m); break;
    case K_SEXT: v = (u64)sx(evalRec(e->k[0], m), e->k[0]->width) & maskw(e->width); break;
    case K_ITE: v = evalRec(e->k[0], m) ? evalRec(e->k[1], m) : evalRec(e->k[2], m); break;
    default: v = evalBin(e->kind, evalRec(e->k[0], m), evalRec(e->k[1], m), e->k[0]->width); break;
  }
  e->epoch = g_epoch; e->val = v; return v;
}
u64 evalE(E e, const vector<u64>& model) { ++g_epoch; return evalRec(e, model); }
void collectVars(E e, vector<u32>& out) {
  unordered_set<E> seen; vector<E> st{e};
  while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue;
    if (x->kind == K_VAR) out.push_back(x->cval);
    for (int i = 0; i < x->nk; ++i) st.push_back(x->k[i]); }
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(g_z3, a); return a; } // the context only protects the last result
static Z3_ast bit(int v) { static Z3_ast k[2]; if (!k[v]) { Z3_sort s = Z3_mk_bv_sort(g_z3, 1); Z3_inc_ref(g_z3, Z3_sort_to_ast(g_z3, s)); k[v] = keep(Z3_mk_unsigned_int64(g_z3, v, s)); } return k[v]; }
static Z3_ast b2v(Z3_ast b) { keep(b); Z3_ast o = bit(1), z = bit(0); return keep(Z3_mk_ite(g_z3, b, o, z)); } // bool -> bv1
// toZ3: width-1 expressions are Z3 Booleans, others bit-vectors.
static Z3_ast asBV(E e) { Z3_ast a = toZ3(e); return e->width == 1 ? b2v(a) : a; }
Z3_ast toZ3(E e) {
  if (e->z3) return e->z3;
  Z3_context c = g_z3; Z3_ast r = nullptr;
  #define BV(i) asBV(e->k[i])
  switch (e->kind) {
    case K_CONST: r = e->width == 1 ? (e->cval ? Z3_mk_true(c) : Z3_mk_false(c)) : Z3_mk_unsigned_int64(c, e->cval, Z3_mk_bv_sort(c, e->width)); break;
    case K_VAR: { Z3_symbol s = Z3_mk_int_symbol(c, (int)e->cval); r = Z3_mk_const(c, s, e->width == 1 ? Z3_mk_bool_sort(c) : Z3_mk_bv_sort(c, e->width)); break; }
    case K_EQ: if (e->k[0]->width == 1) { E z = e->k[0];
        if (z->kind == K_CONST) r = z->cval ? toZ3(e->k[1]) : Z3_mk_not(c, toZ3(e->k[1])); else r = Z3_mk_iff(c, toZ3(e->k[0]), toZ3(e->k[1])); }
      else r = Z3_mk_eq(c, BV(0), BV(1)); break;
    case K_ULT: r = Z3_mk_bvult(c, BV(0), BV(1)); break; case K_ULE: r = Z3_mk_bvule(c, BV(0), BV(1)); break;
    case K_SLT: r = Z3_mk_bvslt(c, BV(0), BV(1)); break; case K_SLE: r = Z3_mk_bvsle(c, BV(0), BV(1)); break;
    case K_AND: if (e->width == 1) { Z3_ast a[2] = {toZ3(e->k[0]), toZ3(e->k[1])}; r = Z3_mk_and(c, 2, a); } else r = Z3_mk_bvand(c, BV(0), BV(1)); break;
    case K_OR: if (e->width == 1) { Z3_ast a[2] = {toZ3(e->k[0]), toZ3(e->k[1])}; r = Z3_mk_or(c, 2, a); } else r = Z3_mk_bvor(c, BV(0), BV(1)); break;
    case K_XOR: if (e->width == 1) r = Z3_mk_xor(c, toZ3(e->k[0]), toZ3(e->k[1])); else r = Z3_mk_bvxor(c, BV(0), BV(1)); break;
    case K_ITE: r = Z3_mk_ite(c, toZ3(e->k[0]), toZ3(e->k[1]), toZ3(e->k[2])); break;
    default: {
      Z3_ast v;
      switch (e->kind) {
        case K_ADD: v = Z3_mk_bvadd(c, BV(0), BV(1)); break; case K_SUB: v = Z3_mk_bvsub(c, BV(0), BV(1)); break;
        case K_MUL: v = Z3_mk_bvmul(c, BV(0), BV(1)); break; case K_UDIV: v = Z3_mk_bvudiv(c, BV(0), BV(1)); break;
        case K_SDIV: v = Z3_mk_bvsdiv(c, BV(0), BV(1)); break; case K_UREM: v = Z3_mk_bvurem(c, BV(0), BV(1)); break;
        case K_SREM: v = Z3_mk_bvsrem(c, BV(0), BV(1)); break;
        case K_SHL: v = Z3_mk_bvshl(c, BV(0), BV(1)); break; case K_LSHR: v = Z3_mk_bvlshr(c, BV(0), BV(1)); break;
        case K_ASHR: v = Z3_mk_bvashr(c, BV(0), BV(1)); break;
        case K_CONCAT: v = Z3_mk_concat(c, BV(0), BV(1)); break;
        case K_EXTRACT: v = Z3_mk_extract(c, e->cval + e->width - 1, e->cval, BV(0)); break;
        case K_ZEXT: v = Z3_mk_zero_ext(c, e->width - e->k[0]->width, BV(0)); break;
        case K_SEXT: v = Z3_mk_sign_ext(c, e->width - e->k[0]->width, BV(0)); break;
        default: abort();
      }
      if (e->width == 1) { keep(v); Z3_ast o = bit(1); v = Z3_mk_eq(c, v, o); } // keep first: bit() allocates
      r = v;
    }
  }
  Z3_inc_ref(c, r);
  e->z3 = r; return r;
}
string exprStr(E e, int d) {
  static const char* n[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","concat","extract","zext","sext","ite"};
  if (e->kind == K_CONST) return to_string(e->cval);
  if (e->kind == K_VAR) return g_vars[e->cval].name;
  if (!d) return "..";
  string s = string("(") + n[e->kind]; if (e->kind == K_EXTRACT) s += "@" + to_string(e->cval) + "w" + to_string(e->width);
  for (int i = 0; i < e->nk; ++i) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}
