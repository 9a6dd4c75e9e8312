// FIFO queue, deque, sequence: programs of operations against in-memory models.
#define STXXL_DEFAULT_BLOCK_SIZE(type) 8192 // a ring of four elements to begin with
#include "hx.h"
#include <stxxl/queue>
#include <stxxl/deque>
#include <stxxl/sequence>
#include <deque>
typedef elem<2048> E2;
typedef std::deque<uint32_t> model;
template <class Q> static void ends(Q& q, const model& m) {
    CHECK(q.size() == m.size()); CHECK(q.empty() == m.empty());
    if (!m.empty()) { const Q& c = q; CHECKM(c.front().key == m.front(), "front() is the oldest element"); CHECK(c.front().ok()); CHECKM(c.back().key == m.back(), "back() is the newest element"); CHECK(c.back().ok()); }
}
typedef stxxl::queue<E2, 4096> Q;
template <class X> static void qpush(X& q, model& m) { uint32_t x = vp_u32("x"); q.push(E2(x)); m.push_back(x); }
template <class X> static void qpop(X& q, model& m) { q.pop(); m.pop_front(); }
static void qops(Q& q, model& m, int len, int p) {
    static const int k[] = { 1, 2, 3, 5 };
    for (int i = 0; i < len; ++i) {
        int op = i == 0 && vp_param(p, 99) != 99 ? vp_param(p, 0) : vp_choice("op", 12);
        if (op < 4) for (int j = 0; j < k[op]; ++j) { qpush(q, m); ends(q, m); }
        else if (op < 8) for (int j = 0; j < k[op - 4]; ++j) { if (m.empty()) vp_assume(0); qpop(q, m); ends(q, m); }
        else if (op == 8) { if (m.empty()) vp_assume(0); uint32_t x = vp_u32("f"); q.front() = E2(x); m.front() = x; }
        else if (op == 9) { if (m.empty()) vp_assume(0); uint32_t x = vp_u32("b"); q.back() = E2(x); m.back() = x; }
        else if (op == 11) { if (m.empty()) vp_assume(0); int a = (int)vp_choice("same", 2); uint32_t x = a ? m.back() : m.front(); q.push(a ? q.back() : q.front()); m.push_back(x); ends(q, m); } // the argument is an element of the queue
        else q.set_prefetch_aggr(i & 1 ? 0 : 2);
    }
}
static void qdrain(Q& q, model& m) { while (!m.empty()) { vp_observe(q.front().key); qpop(q, m); ends(q, m); } }
VP_HARNESS(queue_ops) { // pool sizes and prefetch depth from the parameter
    hx_disks(2); int c = vp_param(0, 0);
    { Q* q = c == 0 ? new Q() : c == 1 ? new Q((stxxl::unsigned_type)2, (stxxl::unsigned_type)1, 0) : c == 2 ? new Q((stxxl::unsigned_type)3, (stxxl::unsigned_type)2, 2) : c == 3 ? new Q((stxxl::unsigned_type)1, (stxxl::unsigned_type)0) : new Q(1); model m;
      qops(*q, m, vp_param(1, 4), 2); vp_cover("end"); qdrain(*q, m); delete q; }
    HX_NOLEAK();
}
VP_HARNESS(queue_shared) { // two queues on one pool, swap, destruction while blocks are outstanding
    hx_disks(1);
    {
        stxxl::read_write_pool<Q::block_type> pool(2, 4); {
        Q a(pool, 1); model m; qops(a, m, vp_param(0, 2), 1);
        { Q b(pool, 2); model n; int k = vp_choice("nb", 10); for (int i = 0; i < k; ++i) qpush(b, n); if (vp_choice("swap", 2)) { a.swap(b); m.swap(n); } if (vp_choice("pop", 2)) while (n.size() > 3) { qpop(b, n); ends(b, n); } ends(a, m); if (!n.empty()) { ends(b, n); } }
        for (int i = 0; i < 5; ++i) qpush(a, m); vp_cover("end"); qdrain(a, m); }
        CHECKM(pool.size_write() + pool.size_prefetch() == 6, "queues give the pool's blocks back");
    }
    HX_NOLEAK();
}
// ---- sequence: a double-ended queue with streams
typedef stxxl::sequence<E2, 4096> S;
static void sends(S& q, const model& m) { ends(q, m); }
static void sops(S& q, model& m, int len, int p) {
    static const int k[] = { 1, 2, 5 };
    for (int i = 0; i < len; ++i) {
        int op = i == 0 && vp_param(p, 99) != 99 ? vp_param(p, 0) : vp_choice("op", 14); int n = k[op % 3];
        if (op == 12) { if (m.empty()) vp_assume(0); uint32_t x = vp_u32("f"), y = vp_u32("b"); q.front() = E2(x); m.front() = x; q.back() = E2(y); m.back() = y; continue; }
        if (op == 13) { if (m.empty()) vp_assume(0); int a = (int)vp_choice("same", 4); uint32_t x = a & 1 ? m.back() : m.front(); const E2& e = a & 1 ? q.back() : q.front(); if (a & 2) { q.push_back(e); m.push_back(x); } else { q.push_front(e); m.push_front(x); } sends(q, m); continue; } // the argument is an element of the sequence
        for (int j = 0; j < n; ++j) {
            if (op < 3) { uint32_t x = vp_u32("x"); q.push_back(E2(x)); m.push_back(x); } else if (op < 6) { uint32_t x = vp_u32("x"); q.push_front(E2(x)); m.push_front(x); }
            else { if (m.empty()) vp_assume(0); if (op < 9) { q.pop_back(); m.pop_back(); } else { q.pop_front(); m.pop_front(); } }
            sends(q, m);
        }
    }
}
VP_HARNESS(seq_ops) {
    hx_disks(2); int c = vp_param(0, 0);
    { S* q = c == 0 ? new S() : c == 1 ? new S((stxxl::unsigned_type)2, (stxxl::unsigned_type)1, 0) : new S((stxxl::unsigned_type)4, (stxxl::unsigned_type)2, 2); model m; sops(*q, m, vp_param(1, 3), 2); vp_cover("end");
      if (c != 1) { S::stream s = q->get_stream(); size_t i = 0; for (; !s.empty(); ++s, ++i) { CHECK(i < m.size()); CHECKM((*s).key == m[i], "stream yields the sequence in order"); vp_observe((*s).key); } CHECK(i == m.size()); }
      if (c != 1) { S::reverse_stream s = q->get_reverse_stream(); size_t i = m.size(); for (; !s.empty(); ++s) { CHECK(i > 0); --i; CHECKM((*s).key == m[i], "reverse stream yields the sequence backwards"); } CHECK(i == 0); }
      bool back = vp_choice("back", 2); while (!m.empty()) { if (back) { q->pop_back(); m.pop_back(); } else { q->pop_front(); m.pop_front(); } sends(*q, m); } delete q; }
    HX_NOLEAK();
}
// ---- deque on a vector ring buffer
typedef stxxl::deque<E2, stxxl::VECTOR_GENERATOR<E2, 1, 2, 4096>::result> D;
VP_HARNESS(deque_ops) {
    hx_disks(1);
    {
        D d; model m; int len = vp_param(0, 4); static const int k[] = { 1, 2, 5 };
        for (int i = 0; i < len; ++i) {
            int op = i == 0 && vp_param(1, 99) != 99 ? vp_param(1, 0) : vp_choice("op", 15); int n = k[op % 3];
            if (op == 12) { if (m.empty()) vp_assume(0); uint32_t x = vp_u32("w"); size_t j = m.size() / 2; d[j] = E2(x); m[j] = x; continue; }
            if (op == 13) { d.clear(); m.clear(); continue; }
            if (op == 14) { size_t t = m.size() + 3; d.resize(t); while (m.size() < t) { m.push_back(0); d[m.size() - 1] = E2(0); } continue; }
            for (int j = 0; j < n; ++j) {
                if (op < 3) { uint32_t x = vp_u32("x"); d.push_back(E2(x)); m.push_back(x); } else if (op < 6) { uint32_t x = vp_u32("x"); d.push_front(E2(x)); m.push_front(x); }
                else { if (m.empty()) vp_assume(0); if (op < 9) { d.pop_back(); m.pop_back(); } else { d.pop_front(); m.pop_front(); } }
                ends(d, m);
            }
        }
        vp_cover("end"); const D& c = d; for (size_t i = 0; i < m.size(); ++i) { CHECKM(c[i].key == m[i], "indexed access"); CHECK(c[i].ok()); vp_observe(c[i].key); }
        { size_t i = 0; for (D::const_iterator it = c.begin(); it != c.end(); ++it, ++i) { CHECK(i < m.size()); CHECKM(it->key == m[i], "iteration in order"); } CHECK(i == m.size()); CHECK(c.end() - c.begin() == (long)m.size()); }
        { size_t i = m.size(); for (D::iterator it = d.end(); it != d.begin(); ) { --it; --i; CHECK(it->key == m[i]); } CHECK(i == 0); }
        { size_t i = 0; for (D::reverse_iterator it = d.rbegin(); it != d.rend(); ++it, ++i) { CHECK(it->key == m[m.size() - 1 - i]); } CHECK(i == m.size()); }
    }
    HX_NOLEAK();
}
// iterators of a deque at every rotation of the ring: distances, order, jumps in both directions, mixed constness, standard algorithms
template <class I, class J> static void pair_ops(const I& a, const J& b, long i, long j) {
    CHECKM((a == b) == (i == j) && (a != b) == (i != j), "iterators are equal exactly at equal positions"); CHECKM((a < b) == (i < j) && (a > b) == (i > j) && (a <= b) == (i <= j) && (a >= b) == (i >= j), "the order of iterators is the order of positions"); CHECKM(b - a == j - i, "the distance of iterators");
}
template <class I> static void jump_ops(I b, const model& m, long i, long j) {
    I x = b; x += i; I y = x; y += j - i; CHECKM(y - b == j, "+= moves by a distance of either sign"); y = x; y -= i - j; CHECKM(y - b == j, "-= moves by a distance of either sign");
    CHECKM((x + (j - i)) - b == j && (x - (i - j)) - b == j, "+ and - move by a distance of either sign");
    if (j < (long)m.size()) { CHECKM(x[j - i].key == m[j], "indexed access through an iterator"); const I z = x + (j - i); CHECKM((*z).key == m[j] && z->key == m[j], "access through a constant iterator object"); }
    I p = x; if (i < (long)m.size()) { I o = p++; CHECKM(o - b == i && p - b == i + 1, "postfix increment"); o = p--; CHECKM(o - b == i + 1 && p - b == i, "postfix decrement"); o = ++p; CHECKM(o == p && p - b == i + 1, "prefix increment"); o = --p; CHECKM(o == p && p - b == i, "prefix decrement"); }
}
VP_HARNESS(deque_iter) {
    hx_disks(1);
    {
        int grow = vp_param(0, 0); D d; model m; // grow: the ring gets a size which is not a power of two
        int back = (int)vp_choice("back", 4), front = (int)vp_choice("front", 4), pop = (int)vp_choice("pop", 2);
        if (grow) { d.resize(grow); for (int i = 0; i < grow; ++i) if (grow & 1) d.pop_back(); else d.pop_front(); }
        for (int i = 0; i < back; ++i) { uint32_t x = vp_u32("x"); d.push_back(E2(x)); m.push_back(x); } for (int i = 0; i < front; ++i) { uint32_t x = vp_u32("x"); d.push_front(E2(x)); m.push_front(x); }
        if (pop) { if (m.empty()) vp_assume(0); d.pop_front(); m.pop_front(); }
        const D& c = d; long n = (long)m.size(); CHECK(d.end() - d.begin() == n && c.end() - c.begin() == n && d.cend() - d.cbegin() == n);
        for (long i = 0; i <= n; ++i) for (long j = 0; j <= n; ++j) {
            D::iterator a = d.begin() + i, b = d.begin() + j; D::const_iterator ca = c.begin() + i, cb = d.cbegin() + j; pair_ops(a, b, i, j); pair_ops(ca, cb, i, j); pair_ops(a, cb, i, j); pair_ops(ca, b, i, j); D::const_iterator conv = a; pair_ops(conv, cb, i, j);
            jump_ops(d.begin(), m, i, j); jump_ops(c.begin(), m, i, j); }
        { long i = n; for (D::const_reverse_iterator r = c.rbegin(); r != c.rend(); ++r) { --i; CHECKM(r->key == m[i], "reverse iteration"); } CHECK(i == 0); CHECK(d.crend() - d.crbegin() == n && d.rend() - d.rbegin() == n); }
        if (n) { CHECK(c.rbegin()[n - 1].key == m[0]); uint32_t x = vp_u32("y"); D::iterator it = d.end(); std::advance(it, -(long)((n + 1) / 2)); *it = E2(x); m[n / 2] = x; CHECKM(c[n / 2].key == x, "writing through an iterator"); std::reverse(d.begin(), d.end()); std::reverse(m.begin(), m.end()); for (long i = 0; i < n; ++i) CHECKM(c[i].key == m[i] && c[i].ok(), "reversed"); }
        vp_cover("end");
    }
    HX_NOLEAK();
}
namespace stxxl { static bool operator == (const E2& a, const E2& b) { return a.key == b.key; } static bool operator < (const E2& a, const E2& b) { return a.key < b.key; } }
VP_HARNESS(deque_two) { // comparison and exchange of two deques
    hx_disks(1);
    {
        D d, e(vp_choice("n", 2)); model m, k(e.size(), 0); if (e.size()) { uint32_t x = vp_u32("x"); e[0] = E2(x); k[0] = x; } int a = (int)vp_param(0, 2), b = (int)vp_choice("b", 3), f = (int)vp_choice("f", 2), f2 = (int)vp_choice("f2", 2);
        for (int i = 0; i < a; ++i) { uint32_t x = vp_u32("x"); if (f) { d.push_front(E2(x)); m.push_front(x); } else { d.push_back(E2(x)); m.push_back(x); } }
        for (int i = 0; i < b; ++i) { uint32_t x = vp_u32("x"); if (f2) { e.push_front(E2(x)); k.push_front(x); } else { e.push_back(E2(x)); k.push_back(x); } }
        for (int r = 0; r < 3; ++r) {
            const D& c = d; const D& g = e; CHECKM((c == g) == (m == k), "deques are equal exactly if they hold equal sequences"); CHECKM((c < g) == (m < k), "deques are ordered lexicographically"); ends(d, m); ends(e, k);
            for (size_t i = 0; i < m.size(); ++i) CHECK(c[i].key == m[i]); for (size_t i = 0; i < k.size(); ++i) CHECK(g[i].key == k[i]);
            if (r == 0) { if (vp_choice("std", 2)) std::swap(d, e); else d.swap(e); std::swap(m, k); uint32_t x = vp_u32("x"); d.push_back(E2(x)); m.push_back(x); }
            if (r == 1) { if (vp_choice("clear", 2)) { d.clear(); m.clear(); CHECK(d.empty() && d.begin() == d.end()); } uint32_t x = vp_u32("x"); d.push_front(E2(x)); m.push_front(x); } }
        vp_cover("end");
    }
    HX_NOLEAK();
}
VP_HARNESS(seq_two) { // two sequences, on one pool or on pools of their own, exchanged in the middle; streams of the exchanged sequences
    hx_disks(2); int shared = vp_param(0, 0);
    { stxxl::read_write_pool<S::block_type> pool(2, 8); S* a = shared ? new S(pool, 1) : new S((stxxl::unsigned_type)6, (stxxl::unsigned_type)2, 1); S* b = shared ? new S(pool, 0) : new S(); model m, n; static const int k[] = { 0, 1, 3, 6 };
      for (int r = 0; r < 2; ++r) { int c = k[vp_choice("n", 4)]; bool f = vp_choice("front", 2); S& q = r ? *b : *a; model& w = r ? n : m; for (int i = 0; i < c; ++i) { uint32_t x = vp_u32("x"); if (f) { q.push_front(E2(x)); w.push_front(x); } else { q.push_back(E2(x)); w.push_back(x); } } if (c && vp_choice("pop", 2)) { if (f) { q.pop_back(); w.pop_back(); } else { q.pop_front(); w.pop_front(); } } }
      a->swap(*b); m.swap(n); sends(*a, m); sends(*b, n); uint32_t x = vp_u32("x"); a->push_front(E2(x)); m.push_front(x); uint32_t y = vp_u32("x"); b->push_back(E2(y)); n.push_back(y); sends(*a, m); sends(*b, n); vp_cover("end");
      { S::stream s = a->get_stream(); S::stream t = b->get_stream(); size_t i = 0; for (; !s.empty(); ++s, ++i) { CHECK(i < m.size()); CHECKM((*s).key == m[i] && (*s).ok(), "stream yields the sequence in order"); if (i < n.size()) { CHECK(!t.empty()); CHECKM((*t).key == n[i], "two streams at a time"); ++t; } } CHECK(i == m.size()); }
      if (vp_choice("first", 2)) { delete a; a = 0; } while (!n.empty()) { b->pop_back(); n.pop_back(); sends(*b, n); } delete b; if (a) { while (!m.empty()) { a->pop_front(); m.pop_front(); sends(*a, m); } delete a; } }
    HX_NOLEAK();
}
VP_HARNESS(seq_minpool) { // the smallest pool the constructor accepts
    hx_disks(1);
    {
        S q((stxxl::unsigned_type)2, (stxxl::unsigned_type)vp_choice("p", 2)); model m; int n = vp_choice("n", 9); for (int i = 0; i < n; ++i) { uint32_t x = vp_u32("x"); q.push_back(E2(x)); m.push_back(x); }
        size_t i = 0; { S::stream s = q.get_stream(); for (; !s.empty(); ++s, ++i) CHECK((*s).key == m[i]); } CHECK(i == m.size()); vp_cover("end");
    }
    HX_NOLEAK();
}
