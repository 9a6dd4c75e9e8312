// Merging, splitting and sorting of in-memory sequences: sequential and parallel multiway merge, multisequence selection, tournament trees.
#include "hx.h"
#include <stxxl/bits/parallel.h>
#include <stxxl/bits/parallel/multiway_mergesort.h>
#include <stxxl/bits/parallel/multiseq_selection.h>
#include <stxxl/bits/common/winner_tree.h>
#include <omp.h>
using stxxl::parallel::SETTINGS;
struct K { uint32_t k, tag; K() : k(0), tag(0xffff) {} K(uint32_t k_, uint32_t t) : k(k_), tag(t) {} };
struct lt { bool operator () (const K& a, const K& b) const { return a.k < b.k; } };
typedef std::vector<std::pair<K*, K*> > seqs; enum { ROOM = 8 };
// k sorted sequences with symbolic keys; the lengths come from the parameter (decimal digits) or are all chosen with the given sum
struct input {
    K s[8][ROOM + 1]; int len[8], k, total; seqs q;
    input(int k_, int lens, int most, bool nonempty = false) : k(k_), total(0) {
        for (int i = 0; i < k; ++i) { len[i] = lens ? (lens % 10) : (int)vp_choice("len", most - total + 1); lens /= 10; if (nonempty && !len[i]) vp_assume(0); total += len[i]; uint32_t last = 0;
            for (int j = 0; j < len[i]; ++j) { uint32_t x = vp_u32("key"); vp_assume(x != 0xffffffffu); vp_assume(x >= last); s[i][j] = K(last = x, 10 * i + j); } s[i][len[i]] = K(0xffffffffu, 999); }
        for (int i = 0; i < k; ++i) q.push_back(std::make_pair(s[i], s[i] + len[i]));
    }
    const K& at(uint32_t tag) { return s[tag / 10][tag % 10]; }
};
static void check_merge(input& in, const K* out, int n, bool stable, bool advanced) {
    int used[8] = { 0 }; bool seen[80] = { false };
    for (int i = 0; i < n; ++i) { uint32_t t = (uint32_t)vp_concretize(out[i].tag); CHECKM(t < 80 && (int)(t / 10) < in.k && (int)(t % 10) < in.len[t / 10], "only input elements are merged"); CHECKM(!seen[t], "no element is merged twice"); seen[t] = true; CHECK(out[i].k == in.at(t).k); used[t / 10]++;
        if (i) { CHECKM(out[i - 1].k <= out[i].k, "the merged sequence is sorted"); uint32_t p = out[i - 1].tag; if (stable) CHECKM((out[i - 1].k != out[i].k) | (p < t), "a stable merge keeps the order of equal elements"); } }
    for (int s = 0; s < in.k; ++s) for (int j = 0; j < in.len[s]; ++j) if (!seen[10 * s + j] && n) CHECKM(out[n - 1].k <= in.s[s][j].k, "the smallest elements are merged");
    if (advanced) for (int s = 0; s < in.k; ++s) { CHECKM(in.q[s].first == in.s[s] + used[s], "the sequences are advanced to the first element that was not merged"); CHECK(in.q[s].second == in.s[s] + in.len[s]); }
}
// params: algorithm, stable, sentinels, k, lengths, most elements, threads (0 sequential), splitting, merge at most
VP_HARNESS(mw_merge) {
    int al = vp_param(0, 1), st = vp_param(1, 0), se = vp_param(2, 0), k = vp_param(3, 3), T = vp_param(6, 0); input in(k, vp_param(4, 0), vp_param(5, 4)); if (vp_param(9, 0)) { vp_explore(1, vp_param(9, 0)); }
    const SETTINGS::MultiwayMergeAlgorithm A[] = { SETTINGS::BUBBLE, SETTINGS::LOSER_TREE, SETTINGS::LOSER_TREE_COMBINED, SETTINGS::LOSER_TREE_SENTINEL };
    SETTINGS::multiway_merge_algorithm = A[al]; SETTINGS::multiway_merge_splitting = vp_param(7, 0) ? SETTINGS::SAMPLING : SETTINGS::EXACT; SETTINGS::multiway_merge_minimal_n = T ? 0 : 1000; SETTINGS::num_threads = T ? T : 1; SETTINGS::merge_oversampling = 1; SETTINGS::force_parallel = T > 0; if (T) omp_set_num_threads(T);
    int n = vp_param(8, 99) == 99 ? (int)vp_choice("n", in.total + 1) : vp_param(8, 99) == 98 ? in.total : (int)vp_param(8, 0); if (n > in.total) vp_assume(0); K out[40];
    K* e = se ? st ? stxxl::potentially_parallel::multiway_merge_stable_sentinels(in.q.begin(), in.q.end(), out, (long)n, lt()) : stxxl::potentially_parallel::multiway_merge_sentinels(in.q.begin(), in.q.end(), out, (long)n, lt())
                 : st ? stxxl::potentially_parallel::multiway_merge_stable(in.q.begin(), in.q.end(), out, (long)n, lt()) : stxxl::potentially_parallel::multiway_merge(in.q.begin(), in.q.end(), out, (long)n, lt());
    if (vp_param(9, 0)) vp_explore(0, 0); CHECKM(e == out + n, "merge returns the end of the output"); CHECKM(out[n].tag == 0xffff, "nothing is written beyond the requested length"); check_merge(in, out, n, st != 0, true); vp_cover("end");
}
// params: k, lengths, most elements
VP_HARNESS(multiseq) {
    input in(vp_param(0, 3), vp_param(1, 0), vp_param(2, 5), true); if (!in.total) vp_assume(0); long r = (long)vp_choice("rank", in.total + 1); std::vector<K*> o(in.k); stxxl::parallel::multiseq_partition(in.q.begin(), in.q.end(), r, o.begin(), lt());
    long left = 0; for (int i = 0; i < in.k; ++i) { CHECKM(o[i] >= in.s[i] && o[i] <= in.s[i] + in.len[i], "splitters lie within their sequences"); left += o[i] - in.s[i]; } CHECKM(left == r, "exactly rank elements are on the left side");
    for (int i = 0; i < in.k; ++i) for (int j = 0; j < in.k; ++j) if (o[i] > in.s[i] && o[j] < in.s[j] + in.len[j]) { const K& a = o[i][-1], & b = *o[j]; CHECKM(a.k <= b.k, "no element on the left is greater than one on the right"); if (i > j) CHECKM(a.k < b.k, "equal elements are taken from sequences with smaller numbers first"); }
    if (r < in.total) { long off = -1; K x = stxxl::parallel::multiseq_selection<K>(in.q.begin(), in.q.end(), r, off, lt()); long less = 0, eq = 0; for (int i = 0; i < in.k; ++i) for (int j = 0; j < in.len[i]; ++j) { if (in.s[i][j].k < x.k) ++less; else if (in.s[i][j].k == x.k) ++eq; } CHECKM(less <= r && r < less + eq, "the selected element has the requested rank"); CHECKM(off == r - less, "the offset is the rank among the equal elements"); }
    vp_cover("end");
}
// params: n, stable, splitting, threads, preemptions, oversampling
VP_HARNESS(mwms) {
    int n = vp_param(0, 5), st = vp_param(1, 0), T = vp_param(3, 2), P = vp_param(4, 0); SETTINGS::sort_splitting = vp_param(2, 0) ? SETTINGS::SAMPLING : SETTINGS::EXACT; SETTINGS::sort_mwms_oversampling = vp_param(5, 2); omp_set_num_threads(T); K x[16], y[16]; for (int i = 0; i < n; ++i) y[i] = x[i] = K(i == vp_param(6, 99) ? 5 : vp_u32("key"), i); x[n] = K(0, 4711); if (P) vp_explore(1, P);
    if (st) stxxl::parallel::parallel_sort_mwms<true>(x, x + n, lt(), T); else stxxl::parallel::parallel_sort_mwms<false>(x, x + n, lt(), T); if (P) vp_explore(0, 0);
    bool seen[16] = { false }; for (int i = 0; i < n; ++i) { uint32_t t = (uint32_t)vp_concretize(x[i].tag); CHECKM(t < (uint32_t)n && !seen[t], "the result is a permutation"); seen[t] = true; CHECK(x[i].k == y[t].k); if (i) { CHECKM(x[i - 1].k <= x[i].k, "the result is sorted"); if (st) CHECKM((x[i - 1].k != x[i].k) | (x[i - 1].tag < t), "a stable sort keeps the order of equal elements"); } }
    CHECK(x[n].tag == 4711); vp_cover("end");
}
struct wless { uint32_t* v; bool operator () (stxxl::unsigned_type a, stxxl::unsigned_type b) const { return v[a] < v[b]; } };
// params: players, operations, first operation
VP_HARNESS(winner) {
    int n = vp_param(0, 3), K2 = vp_param(1, 3); uint32_t v[16]; bool on[16] = { false }; wless w = { v }; for (int i = 0; i < 16; ++i) v[i] = 0; stxxl::winner_tree<wless> t(n, w); int max = 2 * n < 12 ? 2 * n : 12;
    for (int k = 0; k < K2; ++k) {
        int op = k == 0 && vp_param(2, 99) != 99 ? (int)vp_param(2, 0) : (int)vp_choice("op", 7);
        switch (op) {
        case 0: { int i = (int)vp_choice("player", max); v[i] = vp_u32("value"); on[i] = true; t.activate_player(i); break; }
        case 1: { int i = (int)vp_choice("player", max); if (!on[i]) vp_assume(0); on[i] = false; t.deactivate_player(i); break; }
        case 2: { int i = (int)vp_choice("player", max); if (!on[i]) vp_assume(0); v[i] = vp_u32("value"); t.notify_change(i); break; }
        case 3: { if (t.empty()) vp_assume(0); v[t.top()] = vp_u32("value"); t.replay_on_pop(); break; }
        case 4: { int m = 1 + (int)vp_choice("players", n + 1); t.resize_and_rebuild(0 + m); for (int i = 0; i < 16; ++i) { on[i] = i < m; if (on[i]) v[i] = vp_u32("value"); } t.rebuild(); break; }
        case 5: { t.resize_and_clear(n); for (int i = 0; i < 16; ++i) on[i] = false; break; }
        default: { int i = (int)vp_choice("player", max), j = (int)vp_choice("player", max); if (i == j || !on[i] || !on[j]) vp_assume(0); on[i] = on[j] = false; t.deactivate_player_step(i); t.deactivate_player_step(j); t.replay_on_deactivations(i); t.replay_on_deactivations(j); } }
        bool any = false; for (int i = 0; i < 16; ++i) any |= on[i]; CHECKM(t.empty() == !any, "the tree is empty if no player is active"); CHECK(t.num_slots() >= 1);
        if (any) { stxxl::unsigned_type p = t.top(); CHECKM(p < 16 && on[p], "the winner is an active player"); for (int i = 0; i < 16; ++i) if (on[i]) CHECKM(v[p] <= v[i], "no active player beats the winner"); }
    }
    vp_cover("end");
}
