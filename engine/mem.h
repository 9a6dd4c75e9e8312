// Paged, copy-on-write guest memory with a per-byte shadow.
#pragma once
#include "expr.h"
enum { SH_NONE = 0, SH_UNINIT = 1, SH_CONC = 2, SH_SYM = 3, SH_RO = 4 };
struct Page {
  u32 rc; u8 data[4096]; u8 sh[4096]; E* sym;
};
struct Leaf { u32 rc; Page* p[512]; };
extern Page* g_uninitPage;
struct Memory {
  std::vector<Leaf*> l1;
  u64 heapTop = 0x10000000ull;
  Memory() {}
  Memory(const Memory& o) : l1(o.l1), heapTop(o.heapTop) { for (Leaf* l : l1) if (l) l->rc++; }
  Memory& operator=(const Memory&) = delete;
  ~Memory() { for (Leaf* l : l1) dropLeaf(l); }
  static void dropPage(Page* p) { if (p && --p->rc == 0) { free(p->sym); free(p); } }
  static void dropLeaf(Leaf* l) { if (l && --l->rc == 0) { for (Page* p : l->p) dropPage(p); free(l); } }
  inline Page* rd(u64 a) const {
    u64 i = a >> 21; if (i >= l1.size()) return nullptr; Leaf* l = l1[i]; return l ? l->p[(a >> 12) & 511] : nullptr;
  }
  Leaf* wleaf(u64 a) {
    u64 i = a >> 21;
    if (i >= l1.size()) l1.resize(i + 1, nullptr);
    Leaf*& l = l1[i];
    if (!l) { l = (Leaf*)calloc(1, sizeof(Leaf)); l->rc = 1; }
    else if (l->rc > 1) { Leaf* n = (Leaf*)malloc(sizeof(Leaf)); memcpy(n, l, sizeof(Leaf)); n->rc = 1; for (Page* p : n->p) if (p) p->rc++; l->rc--; l = n; }
    return l;
  }
  inline Page* wr(u64 a) {
    u64 i = a >> 21;
    if (i < l1.size() && l1[i] && l1[i]->rc == 1) { Page* p = l1[i]->p[(a >> 12) & 511]; if (p && p->rc == 1) return p; }
    return wrSlow(a);
  }
  Page* wrSlow(u64 a) {
    Leaf* l = wleaf(a); Page*& p = l->p[(a >> 12) & 511];
    if (!p) { p = (Page*)calloc(1, sizeof(Page)); p->rc = 1; }
    else if (p->rc > 1) {
      Page* n = (Page*)malloc(sizeof(Page)); memcpy(n, p, offsetof(Page, sym)); n->rc = 1; n->sym = nullptr;
      if (p->sym) { n->sym = (E*)malloc(sizeof(E) * 4096); memcpy(n->sym, p->sym, sizeof(E) * 4096); }
      p->rc--; p = n;
    }
    return p;
  }
  static E* symOf(Page* p) { if (!p->sym) p->sym = (E*)calloc(4096, sizeof(E)); return p->sym; }
  // set shadow of [a,a+n) to s (allocation / release)
  void setShadow(u64 a, u64 n, u8 s) {
    while (n) {
      u64 o = a & 4095, c = std::min<u64>(n, 4096 - o);
      if (c == 4096 && (s == SH_NONE || s == SH_UNINIT)) {
        Leaf* l = wleaf(a); Page*& p = l->p[(a >> 12) & 511]; dropPage(p);
        if (s == SH_NONE) p = nullptr; else { p = g_uninitPage; p->rc++; }
      } else {
        if (!(s == SH_NONE && !rd(a))) memset(wr(a)->sh + o, s, c);
      }
      a += c; n -= c;
    }
  }
  // check that [a,a+n) is allocated (and writable); returns false otherwise
  bool ok(u64 a, u64 n, bool write) const {
    while (n) {
      u64 o = a & 4095, c = std::min<u64>(n, 4096 - o);
      Page* p = rd(a); if (!p) return false;
      if (p != g_uninitPage) for (u64 i = 0; i < c; ++i) { u8 s = p->sh[o + i]; if (!(s & 3) || (write && (s & SH_RO))) return false; }
      a += c; n -= c;
    }
    return true;
  }
  inline u8 shadow(u64 a) const { Page* p = rd(a); return p ? p->sh[a & 4095] : 0; }
  void putConc(u64 a, const void* src, u64 n) { // caller checked
    const u8* s = (const u8*)src;
    while (n) { u64 o = a & 4095, c = std::min<u64>(n, 4096 - o); Page* p = wr(a); memcpy(p->data + o, s, c); memset(p->sh + o, SH_CONC, c); a += c; s += c; n -= c; }
  }
  void fill(u64 a, u8 v, u64 n) {
    while (n) { u64 o = a & 4095, c = std::min<u64>(n, 4096 - o); Page* p = wr(a); memset(p->data + o, v, c); memset(p->sh + o, SH_CONC, c); a += c; n -= c; }
  }
  void putSymByte(u64 a, E e) { Page* p = wr(a); u64 o = a & 4095; 
    if (e->kind == K_CONST) { p->data[o] = (u8)e->cval; p->sh[o] = SH_CONC; } else { p->sh[o] = SH_SYM; symOf(p)[o] = e; } }
  void copyFwd(u64 d, u64 s, u64 n) { // non overlapping
    while (n) {
      u64 so = s & 4095, dof = d & 4095, c = std::min<u64>(n, std::min<u64>(4096 - so, 4096 - dof));
      Page* q = rd(s); Page* p = wr(d); q = rd(s);
      memcpy(p->data + dof, q->data + so, c);
      for (u64 i = 0; i < c; ++i) p->sh[dof + i] = q->sh[so + i] & 3;
      if (q->sym) { E* t = symOf(p); memcpy(t + dof, q->sym + so, c * sizeof(E)); }
      s += c; d += c; n -= c;
    }
  }
  void copy(u64 d, u64 s, u64 n) {
    if (d == s || !n) return;
    if (d + n <= s || s + n <= d) { copyFwd(d, s, n); return; }
    // overlapping: bounce through a scratch area outside the guest map
    u64 tmp = 0x8000000ull; // reserved scratch window
    u64 done = 0; 
    // copy in an order that is safe in small steps
    if (d < s) { while (done < n) { u64 c = std::min<u64>(n - done, 2048); setShadow(tmp, c, SH_UNINIT); copyFwd(tmp, s + done, c); copyFwd(d + done, tmp, c); done += c; } }
    else { u64 left = n; while (left) { u64 c = std::min<u64>(left, 2048); left -= c; setShadow(tmp, c, SH_UNINIT); copyFwd(tmp, s + left, c); copyFwd(d + left, tmp, c); } }
    setShadow(tmp, 4096, SH_NONE);
  }
};
