// symx: symbolic executor for LLVM 18 bitcode (see DESIGN.md).
#include <unistd.h>
#include "mem.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <functional>
#include <map>
#include <set>
#include <unordered_set>
#include <deque>
#include <memory>
#include <chrono>
#include <cmath>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <sys/resource.h>
using namespace llvm;
using std::string; using std::vector; using std::map; using std::set; using std::shared_ptr; using std::unordered_map;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
Page* g_uninitPage;

struct V { u64 c; E e; };
static inline V C(u64 c) { return V{c, nullptr}; }
static inline V fromE(E e) { if (e->kind == K_CONST) return V{e->cval, nullptr}; return V{0, e}; }
static inline E toE(const V& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ---------------------------------------------------------------- predecoded code
enum Op : u8 {
  O_BIN, O_ICMP, O_FBIN, O_FCMP, O_FNEG, O_SELECT, O_BR, O_CONDBR, O_SWITCH, O_RET, O_CALL, O_CALLI, O_BUILTIN, O_RESUME, O_UNREACH,
  O_LPAD, O_ALLOCA, O_LOAD, O_STORE, O_GEP, O_TRUNC, O_ZEXT, O_SEXT, O_MOVE, O_FPCAST, O_XVAL, O_RMW, O_CAS, O_NOP, O_UNSUP, O_MULTI, O_SHUF, O_EXTELEM, O_INSELEM
};
struct Leafty { u32 off; u16 w; u8 fp; }; // bit width; fp: 0 int 1 float 2 double 3 x86_fp80
struct Move { u32 dst, src; };
struct Edge { u32 pc; vector<Move> mv; };
struct Func;
struct Builtin;
struct SwCase { u64 v; u32 edge; };
struct LClause { int kind; u64 ti; }; // 0 catch, 1 filter
struct Inst {
  Op op; u8 sub; u16 w; u32 dst, a, b, c; u64 imm;
  vector<u32>* ops; vector<Leafty>* lv; vector<SwCase>* cases; vector<Edge>* edges; vector<LClause>* cl;
  Func* fn; const Builtin* bi; const Instruction* ll; u16 w2; u16 n; bool invoke; bool cleanup; u8 race; // 1 plain access of the code under test, 2 atomic
};
struct Func {
  Function* F; string name; bool decoded = false; bool isDecl = false; u64 addr; u32 nregs = 0; u32 nargs = 0; // slots
  vector<Inst> code; vector<V> consts; const Builtin* bi = nullptr; set<const DISubprogram*> sps; bool executed = false; u32 entry = 0;
  bool vararg = false; vector<u32> argw;
};
static const u32 CB = 0x80000000u;

struct Frame { Func* f; u32 pc; u32 base; u64 sp; u64 va; };
struct Exc { u64 obj; };
struct Thread {
  vector<Frame> fr; vector<V> regs; u64 sp; u64 spLimit; int status = 0; // 0 runnable 1 blocked 2 done
  u64 blockOn = 0; V lpPtr, lpSel; vector<u64> caught; u64 adj = 0; u64 retval = 0;
};
struct ModelT { vector<u64> v; };
// happens-before race detection: per-thread and per-sync-object vector clocks, shadow of the accesses since exploration began
typedef vector<u32> VC;
static void vcJoin(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); ++i) if (a[i] < b[i]) a[i] = b[i]; }
struct Acc { u16 tid; u8 mask; bool wr; u32 clk; const Instruction* at; };
struct SPage { vector<Acc> g[64]; };
struct State {
  Memory mem; vector<Thread> th; int cur = 0; vector<E> pc; std::unordered_set<E>* dummy = nullptr;
  vector<u64> model; vector<u32> inputs; // var indices in creation order
  unordered_map<E, u64> subst; u64 steps = 0; u32 nsym = 0, nundef = 0; u32 depth = 0;
  bool explore = false; int preempt = 0; u32 slice = 0; vector<VC> tvc; map<u64, VC> svc; unordered_map<u64, std::shared_ptr<SPage>> shadow; bool pendingPC = false; vector<V> obs;
  vector<string> covers; u64 id = 0; string note; u64 liveHeap = 0; map<u64,u64> tls; bool undefInPC = false; u64 schedPts = 0;
};
static u64 g_stateIds = 0;

// ---------------------------------------------------------------- globals
static LLVMContext g_ctx; static std::unique_ptr<Module> g_M; static const DataLayout* g_DL;
static unordered_map<const Function*, Func*> g_funcs; static unordered_map<u64, Func*> g_funcAt; static unordered_map<const GlobalVariable*, u64> g_gaddr;
static unordered_map<string, u64> g_extAddr;
static std::deque<Func> g_fstore;
static vector<State*> g_stack;
static State* S; // current
static Memory* g_initMem;
struct Opts { string bc, entry = "harness_main", out, param; double timeout = 600; u64 maxSteps = 200000000ull; u64 maxPaths = 1000000000ull; int solverTimeout = 60000; bool verbose = false; int nsamples = 8; vector<i64> params; string replay; int maxViol = 1; u64 seed = 1; bool bfs=false; u64 maxMem = 0; bool ignoreLive=false; bool splitIndex = true; } opt;
struct Stats { u64 order = 0, paths = 0, killed = 0, steps = 0, forks = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, modelHits = 0, states = 1, checks = 0, checkQueries=0, undefReads = 0, constChecks = 0, maxDepth = 0, switches = 0; double solver = 0; u64 incomplete = 0; } st;
static set<string> g_coversReached, g_coversDeclared; static double g_t0;
static vector<i64> g_replayVals; static bool g_replay = false;
struct Violation { string kind, msg, where, trace; vector<std::pair<string,u64>> inputs; bool undef; u64 obs; vector<string> covers; };
static vector<Violation> g_viol; static vector<string> g_unsup;
struct Sample { vector<std::pair<string,u64>> in; u64 obs, nobs; bool cmp = true; };
static vector<Sample> g_samples;
struct KillPath { int kind; }; // 0 silent(assume) 1 done 2 violation 3 unsupported/incomplete
struct Retry {};  // instruction must be re-executed (state was constrained)

static string locOf(const Instruction* I) {
  if (!I) return "?"; const DebugLoc& dl = I->getDebugLoc(); if (!dl) return I->getFunction()->getName().str();
  string s; const DILocation* L = dl.get();
  while (L) { s += (s.empty() ? "" : " <- ") + L->getFilename().str() + ":" + std::to_string(L->getLine()); if (L->getScope()) s += "(" + L->getScope()->getSubprogram()->getName().str() + ")"; L = L->getInlinedAt(); }
  return s;
}
static string backtrace() {
  string s; if (!S || S->th.empty()) return s; Thread& t = S->th[S->cur];
  for (int i = (int)t.fr.size() - 1; i >= 0 && i > (int)t.fr.size() - 25; --i) {
    Frame& f = t.fr[i]; const Instruction* I = f.pc < f.f->code.size() ? f.f->code[f.pc].ll : nullptr;
    s += "  #" + std::to_string(t.fr.size() - 1 - i) + " " + llvm::demangle(f.f->name).substr(0, 160) + " at " + locOf(I) + "\n";
  }
  return s;
}
static vector<std::pair<string,u64>> inputsOf(const vector<u64>& model) {
  vector<std::pair<string,u64>> r; for (u32 v : S->inputs) r.push_back({g_vars[v].name, v < model.size() ? model[v] & maskw(g_vars[v].width) : 0}); return r;
}
static void reportViolation(const string& kind, const string& msg, const vector<u64>& model, bool undef) {
  Violation v; v.kind = kind; v.msg = msg; v.where = S->th.empty() || S->th[S->cur].fr.empty() ? "" : locOf(S->th[S->cur].fr.back().f->code[std::min<size_t>(S->th[S->cur].fr.back().pc, S->th[S->cur].fr.back().f->code.size()-1)].ll);
  v.trace = backtrace(); v.inputs = inputsOf(model); v.undef = undef || S->undefInPC; v.obs = 0; v.covers = S->covers;
  g_viol.push_back(v);
  if (opt.verbose) { fprintf(stderr, "VIOLATION %s: %s at %s\n%s", kind.c_str(), msg.c_str(), v.where.c_str(), v.trace.c_str()); for (auto& p : v.inputs) fprintf(stderr, "   %s = %llu\n", p.first.c_str(), (unsigned long long)p.second); }
}
[[noreturn]] static void fail(const string& kind, const string& msg) { reportViolation(kind, msg, S->model, false); throw KillPath{2}; }
[[noreturn]] static void unsup(const string& msg) { string m = msg + " at " + (S && !S->th.empty() && !S->th[S->cur].fr.empty() ? backtrace() : ""); if (g_unsup.size() < 20) g_unsup.push_back(m); if (opt.verbose) fprintf(stderr, "UNSUPPORTED %s\n", m.c_str()); throw KillPath{3}; }

// ---------------------------------------------------------------- solver
static bool g_slow = getenv("SYMX_SLOW") != nullptr; static Z3_solver g_solver; static vector<E> g_asserted;
static void solverInit() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); g_z3 = Z3_mk_context_rc(cfg); Z3_del_config(cfg);
  const char* lg = getenv("SYMX_LOGIC");
  g_solver = lg && *lg ? Z3_mk_solver_for_logic(g_z3, Z3_mk_string_symbol(g_z3, lg)) : Z3_mk_simple_solver(g_z3); Z3_solver_inc_ref(g_z3, g_solver);
  Z3_params p = Z3_mk_params(g_z3); Z3_params_inc_ref(g_z3, p); Z3_params_set_uint(g_z3, p, Z3_mk_string_symbol(g_z3, "timeout"), opt.solverTimeout); 
  Z3_solver_set_params(g_z3, g_solver, p); Z3_params_dec_ref(g_z3, p);
}
static void solverSync(const vector<E>& pc) {
  size_t n = 0; while (n < pc.size() && n < g_asserted.size() && pc[n] == g_asserted[n]) n++;
  if (g_asserted.size() > n) { Z3_solver_pop(g_z3, g_solver, g_asserted.size() - n); g_asserted.resize(n); }
  for (; n < pc.size(); ++n) { Z3_solver_push(g_z3, g_solver); Z3_solver_assert(g_z3, g_solver, toZ3(pc[n])); g_asserted.push_back(pc[n]); }
}
// Order reasoning ahead of the bit-level solver: comparisons on the path between the same
// terms form a graph; a condition contradicted by its transitive closure is unsatisfiable.
struct Order {
  struct Edge { E to; bool strict; };
  std::unordered_map<E, vector<Edge>> g[2]; vector<E> consts[2]; bool any = false;
  void lit(int d, E a, E b, bool strict) { any = true; g[d][a].push_back({b, strict}); for (E x : {a, b}) if (x->kind == K_CONST && std::find(consts[d].begin(), consts[d].end(), x) == consts[d].end()) consts[d].push_back(x); }
  void add(E e) {
    switch (e->kind) {
      case K_ULT: lit(0, e->k[0], e->k[1], true); break; case K_ULE: lit(0, e->k[0], e->k[1], false); break;
      case K_SLT: lit(1, e->k[0], e->k[1], true); break; case K_SLE: lit(1, e->k[0], e->k[1], false); break;
      case K_EQ: if (e->k[0]->width > 1) for (int d = 0; d < 2; ++d) { lit(d, e->k[0], e->k[1], false); lit(d, e->k[1], e->k[0], false); } break;
      case K_AND: if (e->width == 1) { add(e->k[0]); add(e->k[1]); } break;
      default: break;
    }
  }
  static bool clt(int d, E a, E b) { return d ? sx(a->cval, a->width) < sx(b->cval, b->width) : a->cval < b->cval; }
  // 2: a < b follows, 1: a <= b follows, 0: unknown
  int reach(int d, E a, E b) {
    if (a == b) return 1;
    std::unordered_map<E, int> seen; vector<std::pair<E, int>> st{{a, 1}}; int best = 0; seen[a] = 1;
    while (!st.empty()) {
      auto [x, s] = st.back(); st.pop_back();
      if (x == b || (x->kind == K_CONST && b->kind == K_CONST && x->width == b->width && (x->cval == b->cval || clt(d, x, b)))) { int r = s == 2 || (x != b && x->cval != b->cval) ? 2 : 1; if (r > best) best = r; if (best == 2) return 2; }
      auto go = [&](E y, bool strict) { int ns = s == 2 || strict ? 2 : 1; int& z = seen[y]; if (z < ns) { z = ns; st.push_back({y, ns}); } };
      auto it = g[d].find(x); if (it != g[d].end()) for (auto& e : it->second) go(e.to, e.strict);
      if (x->kind == K_CONST) for (E c : consts[d]) if (c != x && c->width == x->width && clt(d, x, c)) go(c, true);
    }
    return best;
  }
  // 1 true, 0 false, -1 unknown on this path
  int tri(E e, int depth = 0) {
    if (e->kind == K_CONST) return e->cval != 0; if (depth > 200) return -1;
    switch (e->kind) {
      case K_ULT: case K_SLT: { int d = e->kind == K_SLT; if (reach(d, e->k[0], e->k[1]) == 2) return 1; if (reach(d, e->k[1], e->k[0])) return 0; return -1; }
      case K_ULE: case K_SLE: { int d = e->kind == K_SLE; if (reach(d, e->k[0], e->k[1])) return 1; if (reach(d, e->k[1], e->k[0]) == 2) return 0; return -1; }
      case K_EQ: if (e->k[0]->width == 1) { int a = tri(e->k[0], depth + 1), b = tri(e->k[1], depth + 1); return a < 0 || b < 0 ? -1 : a == b; }
        { int a = reach(0, e->k[0], e->k[1]), b = reach(0, e->k[1], e->k[0]); if (a == 2 || b == 2) return 0; if (a == 1 && b == 1) return 1; return -1; }
      case K_AND: if (e->width == 1) { int a = tri(e->k[0], depth + 1); if (a == 0) return 0; int b = tri(e->k[1], depth + 1); if (b == 0) return 0; return a == 1 && b == 1 ? 1 : -1; } return -1;
      case K_OR: if (e->width == 1) { int a = tri(e->k[0], depth + 1); if (a == 1) return 1; int b = tri(e->k[1], depth + 1); if (b == 1) return 1; return a == 0 && b == 0 ? 0 : -1; } return -1;
      default: return -1;
    }
  }
};
static bool orderUnsat(State* s, E cond) { Order o; for (E e : s->pc) o.add(e); if (!o.any) return false; return o.tri(cond) == 0; }
// is pc & cond satisfiable?  fills model
static bool solveSat(State* s, E cond, vector<u64>* model) {
  { double t = now(); bool u = orderUnsat(s, cond); st.solver += now() - t; if (u) { st.queries++; st.order++; st.unsat++; return false; } }
  solverSync(s->pc); double t = now(); st.queries++;
  Z3_solver_push(g_z3, g_solver); Z3_solver_assert(g_z3, g_solver, toZ3(cond));
  if (g_slow && getenv("SYMX_SLOW")[0] == '2') { FILE* f = fopen("/tmp/lastq", "w"); fprintf(f, "%s\n", exprStr(cond, 12).c_str()); for (E e : s->pc) fprintf(f, "pc %s\n", exprStr(e, 12).c_str()); fclose(f); }
  Z3_lbool r = Z3_solver_check(g_z3, g_solver); bool res = false;
  if (r == Z3_L_TRUE) {
    st.sat++; res = true;
    if (model) {
      Z3_model m = Z3_solver_get_model(g_z3, g_solver); Z3_model_inc_ref(g_z3, m);
      vector<u64> mv = s->model;
      unsigned nc = Z3_model_get_num_consts(g_z3, m);
      for (unsigned i = 0; i < nc; ++i) {
        Z3_func_decl d = Z3_model_get_const_decl(g_z3, m, i); Z3_symbol sy = Z3_get_decl_name(g_z3, d);
        if (Z3_get_symbol_kind(g_z3, sy) != Z3_INT_SYMBOL) continue; unsigned vi = Z3_get_symbol_int(g_z3, sy);
        Z3_ast v = Z3_model_get_const_interp(g_z3, m, d); if (!v) continue; uint64_t u = 0;
        if (g_vars[vi].width == 1) u = Z3_get_bool_value(g_z3, v) == Z3_L_TRUE; else if (!Z3_get_numeral_uint64(g_z3, v, &u)) continue;
        if (mv.size() <= vi) mv.resize(vi + 1, 0); mv[vi] = u;
      }
      Z3_model_dec_ref(g_z3, m);
      // sanity: the model must satisfy the query
      bool okm = evalE(cond, mv); for (size_t i = 0; okm && i < s->pc.size(); ++i) okm = evalE(s->pc[i], mv);
      if (!okm) { fprintf(stderr, "INTERNAL: solver model does not satisfy query %s\n", exprStr(cond).c_str()); g_unsup.push_back("internal: model mismatch"); }
      *model = mv;
    }
  } else if (r == Z3_L_FALSE) st.unsat++;
  Z3_solver_pop(g_z3, g_solver, 1);
  st.solver += now() - t;
  if (g_slow && now() - t > 1) fprintf(stderr, "SLOW %.1fs pc=%zu cond=%s\n%s", now() - t, s->pc.size(), exprStr(cond, 9).substr(0, 1500).c_str(), backtrace().c_str());
  if (r == Z3_L_UNDEF) { st.unknown++; unsup("solver timeout"); }
  return res;
}
static void addPC(State* s, E c) {
  if (c->kind == K_CONST) return;
  if (c->kind == K_AND && c->width == 1) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; }
  s->pc.push_back(c); if (c->flags & 1) { if (!s->undefInPC && getenv("SYMX_UNDEF")) fprintf(stderr, "undef in path condition at %s\n", backtrace().c_str()); s->undefInPC = true; }
  if (c->kind == K_EQ && c->k[0]->kind == K_CONST && c->k[0]->width > 1) s->subst[c->k[1]] = c->k[0]->cval;
  s->subst[c] = 1; s->subst[mkNot(c)] = 0;
}
static E simp(State* s, E e) { auto it = s->subst.find(e); return it == s->subst.end() ? e : mkConst(it->second, e->width); }
static State* forkState(State* s) {
  State* n = new State(*s); n->id = ++g_stateIds; st.forks++; st.states++; n->depth++; if (n->depth > st.maxDepth) st.maxDepth = n->depth; return n;
}
static bool evalM(State* s, E e) { return evalE(e, s->model) != 0; }
// decide a width-1 expression on the current path: returns the direction the
// current state takes; if both feasible pushes the other state (same pc) with the negation.
static bool branchOn(E c) {
  c = simp(S, c);
  if (c->kind == K_CONST) return c->cval;
  bool d = evalM(S, c); st.modelHits++;
  E pos = d ? c : mkNot(c), neg = d ? mkNot(c) : c;
  vector<u64> m;
  if (solveSat(S, neg, &m)) { State* o = forkState(S); addPC(o, neg); o->model = m; g_stack.push_back(o); }
  addPC(S, pos); return d;
}
static u64 concretize(const V& v, unsigned w) {
  if (!v.e) return v.c;
  E e = simp(S, v.e); if (e->kind == K_CONST) return e->cval;
  u64 x = evalE(e, S->model); E eq = mkBin(K_EQ, mkConst(x, w), e);
  if (eq->kind == K_CONST) return x;
  E ne = mkNot(eq); vector<u64> m;
  if (solveSat(S, ne, &m)) { State* o = forkState(S); addPC(o, ne); o->model = m; g_stack.push_back(o); }
  addPC(S, eq); S->subst[v.e] = x; return x;
}
static E newVar(const string& name, unsigned w, bool undef) {
  string nm = name + "#" + std::to_string(undef ? S->nundef++ : S->nsym++);
  E e = mkVar((undef ? "undef:" : "") + nm, w, undef); if (undef) const_cast<Expr*>(e)->flags |= 1;
  if (!undef) S->inputs.push_back(e->cval);
  if (S->model.size() <= e->cval) S->model.resize(e->cval + 1, 0);
  S->model[e->cval] = 0;
  if (!undef && g_replay) {
    size_t i = S->inputs.size() - 1; u64 x = i < g_replayVals.size() ? (u64)g_replayVals[i] : 0; S->model[e->cval] = x & maskw(w);
    return mkConst(x, w);
  }
  return e;
}
// fork over n alternatives of a fresh choice variable; returns the alternative of the current state
static u64 choose(const string& name, u64 n) {
  if (n <= 1) return 0;
  E v = newVar(name, 8, false); if (v->kind == K_CONST) return v->cval < n ? v->cval : n - 1;
  return v->cval; // not reached through this path
}

// ---------------------------------------------------------------- memory access
static string addrDesc(u64 a) { char b[64]; snprintf(b, 64, "0x%llx", (unsigned long long)a); return b; }
[[noreturn]] static void memFail(u64 a, u64 n, bool w) {
  string k = a < 0x1000 ? "null-deref" : "memory";
  fail(k, string("invalid ") + (w ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + addrDesc(a));
}
static V loadInt(u64 a, unsigned bits) {
  unsigned n = (bits + 7) / 8; u64 o = a & 4095;
  if (o + n <= 4096) {
    Page* p = S->mem.rd(a); if (!p) memFail(a, n, false);
    u64 sh = 0; memcpy(&sh, p->sh + o, n); u64 m3 = 0x0303030303030303ull & maskw(n * 8);
    if ((sh & m3) == (0x0202020202020202ull & m3)) { u64 v = 0; memcpy(&v, p->data + o, n); return C(v & maskw(bits)); }
  }
  E r = nullptr;
  for (unsigned i = 0; i < n; ++i) {
    u64 x = a + i; Page* p = S->mem.rd(x); u8 s = p ? p->sh[x & 4095] & 3 : 0; E b;
    if (s == SH_NONE) memFail(a, n, false);
    if (s == SH_CONC) b = mkConst(p->data[x & 4095], 8);
    else if (s == SH_SYM) b = p->sym[x & 4095];
    else { st.undefReads++; b = newVar("u", 8, true); if (b->kind != K_CONST) S->mem.putSymByte(x, b); }
    r = r ? mkConcat(b, r) : b;
  }
  if (bits < n * 8) r = mkExtract(r, 0, bits);
  if (r->kind == K_EXTRACT && r->cval == 0) r = mkExtract(r->k[0], 0, r->width);
  return fromE(r);
}
static void storeInt(u64 a, const V& v, unsigned bits) {
  unsigned n = (bits + 7) / 8; u64 o = a & 4095;
  if (o + n <= 4096) {
    Page* p = S->mem.rd(a); if (!p) memFail(a, n, true);
    for (unsigned i = 0; i < n; ++i) { u8 s = p->sh[o + i]; if (!(s & 3) || (s & SH_RO)) memFail(a, n, true); }
    if (!v.e) { p = S->mem.wr(a); u64 c = v.c; memcpy(p->data + o, &c, n); memset(p->sh + o, SH_CONC, n); return; }
  } else if (!S->mem.ok(a, n, true)) memFail(a, n, true);
  E e = toE(v, bits); if (bits < n * 8) e = mkZext(e, n * 8);
  g_keepArith = true; for (unsigned i = 0; i < n; ++i) S->mem.putSymByte(a + i, mkExtract(e, i * 8, 8)); g_keepArith = false;
}
static VC& myVC() { if (S->tvc.size() <= (size_t)S->cur) S->tvc.resize(S->cur + 1); VC& v = S->tvc[S->cur]; if (v.size() <= (size_t)S->cur) { v.resize(S->cur + 1); v[S->cur] = 1; } return v; }
static void hbRelease(u64 a) { VC& v = myVC(); vcJoin(S->svc[a], v); v[S->cur]++; }
static void hbAcquire(u64 a) { auto it = S->svc.find(a); if (it != S->svc.end()) vcJoin(myVC(), it->second); else myVC(); }
static void raceAccess(u64 a, u64 n, bool wr, const Instruction* at) {
  if (!n) return; VC& me = myVC(); u16 t = S->cur; u32 clk = me[t];
  for (u64 g = a >> 3; g <= (a + n - 1) >> 3; ++g) {
    u64 lo = g << 3; u8 mask = 0xff; if (a > lo) mask &= 0xff << (a - lo); if (a + n < lo + 8) mask &= 0xff >> (lo + 8 - a - n);
    auto& sp = S->shadow[g >> 6]; if (!sp) sp = std::make_shared<SPage>();
    vector<Acc>& v = sp->g[g & 63]; bool have = false;
    for (Acc& x : v) if (x.mask & mask) {
      if (x.tid == t) { if (x.wr == wr && x.clk == clk && x.mask == mask) have = true; continue; }
      if ((x.wr || wr) && x.clk > (x.tid < me.size() ? me[x.tid] : 0)) fail("data-race", string(wr ? "write" : "read") + " without synchronisation after a " + (x.wr ? "write" : "read") + " of thread " + std::to_string(x.tid) + " at " + locOf(x.at));
    }
    if (have) continue;
    if (sp.use_count() > 1) { sp = std::make_shared<SPage>(*sp); }
    vector<Acc>& w = sp->g[g & 63]; bool put = false;
    for (Acc& x : w) if (x.tid == t && x.wr == wr && (x.mask & ~mask) == 0) { x.clk = clk; x.mask = mask; x.at = at; put = true; break; }
    if (!put) w.push_back(Acc{t, mask, wr, clk, at});
  }
}
static void raceForget(u64 a, u64 n) { for (u64 g = a >> 3; g <= (a + n + 7) >> 3; ++g) { auto it = S->shadow.find(g >> 6); if (it == S->shadow.end()) { g |= 63; continue; } if (it->second->g[g & 63].empty()) continue; if (it->second.use_count() > 1) it->second = std::make_shared<SPage>(*it->second); it->second->g[g & 63].clear(); } }
static bool g_races = true;
static bool g_mainFirst = false;
#define RACING (S->explore && g_races)
static u64 gmalloc(u64 n) {
  if (n > (1ull << 30)) return 0;
  u64 top = S->mem.heapTop; u64 a = n >= 2048 ? ((top + 4095) & ~4095ull) + 16 + 32 : top + 32; a = (a + 15) & ~15ull;
  S->mem.heapTop = a + n + 32 + 16;
  // hidden header: size and live mark just below the block
  Page* p = S->mem.wr(a - 16); memcpy(p->data + ((a - 16) & 4095), &n, 8); u64 mark = 0xA110C8EDull; memcpy(p->data + ((a - 8) & 4095), &mark, 8);
  S->mem.setShadow(a, n ? n : 0, SH_UNINIT); S->liveHeap++; return a;
}
static u64 hdr(u64 a, u64 off) { Page* p = S->mem.rd(a - off); u64 v = 0; if (p) memcpy(&v, p->data + ((a - off) & 4095), 8); return v; }
static void gfree(u64 a) {
  if (!a) return;
  if (hdr(a, 8) != 0xA110C8EDull) fail("memory", (hdr(a, 8) == 0xF4EEDull ? "double free of " : "invalid free of ") + addrDesc(a));
  u64 n = hdr(a, 16); Page* p = S->mem.wr(a - 8); u64 mark = 0xF4EEDull; memcpy(p->data + ((a - 8) & 4095), &mark, 8);
  // keep header page alive; only release payload
  S->mem.setShadow(a, n, SH_NONE); S->liveHeap--;
}
static string cstr(u64 a) { string s; for (int i = 0; i < 4096; ++i) { V v = loadInt(a + i, 8); u64 c = v.e ? evalE(v.e, S->model) : v.c; if (!c) break; s += (char)c; } return s; }

// ---------------------------------------------------------------- types
static void flatten(Type* T, u32 off, vector<Leafty>& out) {
  if (auto* I = dyn_cast<IntegerType>(T)) { if (I->getBitWidth() > 64) { unsigned w = I->getBitWidth(); for (unsigned i = 0; i < w; i += 64) out.push_back({off + i / 8, (u16)std::min(64u, w - i), 9}); } else out.push_back({off, (u16)I->getBitWidth(), 0}); return; }
  if (T->isPointerTy()) { out.push_back({off, 64, 0}); return; }
  if (T->isFloatTy()) { out.push_back({off, 32, 1}); return; }
  if (T->isDoubleTy()) { out.push_back({off, 64, 2}); return; }
  if (T->isX86_FP80Ty()) { out.push_back({off, 64, 3}); return; }
  if (auto* A = dyn_cast<ArrayType>(T)) { u64 sz = g_DL->getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); ++i) flatten(A->getElementType(), off + i * sz, out); return; }
  if (auto* X = dyn_cast<FixedVectorType>(T)) { u64 sz = g_DL->getTypeSizeInBits(X->getElementType()) / 8; if (!sz) sz = 1; for (unsigned i = 0; i < X->getNumElements(); ++i) flatten(X->getElementType(), off + i * sz, out); return; }
  if (auto* ST = dyn_cast<StructType>(T)) { const StructLayout* L = g_DL->getStructLayout(ST); for (unsigned i = 0; i < ST->getNumElements(); ++i) flatten(ST->getElementType(i), off + L->getElementOffset(i), out); return; }
  if (T->isVoidTy() || T->isMetadataTy() || T->isTokenTy() || T->isLabelTy()) return;
  fprintf(stderr, "flatten: unsupported type\n"); abort();
}
static u32 nslots(Type* T) { vector<Leafty> v; flatten(T, 0, v); return v.size(); }
static u32 slotIndex(Type* T, ArrayRef<unsigned> idx, Type** outT) {
  u32 s = 0;
  for (unsigned i : idx) {
    if (auto* ST = dyn_cast<StructType>(T)) { for (unsigned j = 0; j < i; ++j) s += nslots(ST->getElementType(j)); T = ST->getElementType(i); }
    else if (auto* A = dyn_cast<ArrayType>(T)) { s += i * nslots(A->getElementType()); T = A->getElementType(); }
  }
  *outT = T; return s;
}

// ---------------------------------------------------------------- globals and constants
static u64 g_globTop = 0x400000; 
static Func* getFunc(Function* F) {
  auto it = g_funcs.find(F); if (it != g_funcs.end()) return it->second;
  g_fstore.emplace_back(); Func* f = &g_fstore.back(); f->F = F; f->name = F->getName().str(); f->isDecl = F->isDeclaration(); f->addr = 0x10000 + g_funcAt.size() * 16; f->vararg = F->isVarArg();
  g_funcs[F] = f; g_funcAt[f->addr] = f; return f;
}
static u64 allocGlobal(u64 size, u64 align) { if (align < 16) align = 16; g_globTop = (g_globTop + align - 1) & ~(align - 1); u64 a = g_globTop; g_globTop += size + 32; if (g_globTop > 0x1000000) { fprintf(stderr, "globals overflow\n"); abort(); } return a; }
static u64 globalAddr(const GlobalValue* G);
static void constBytes(const Constant* K, vector<V>& out); // flattened slots
static V constVal(const Constant* K) { vector<V> o; constBytes(K, o); return o.at(0); }
static u64 constExprInt(const Constant* K) {
  if (auto* CI = dyn_cast<ConstantInt>(K)) return CI->getZExtValue();
  if (isa<ConstantPointerNull>(K) || isa<UndefValue>(K)) return 0;
  if (auto* G = dyn_cast<GlobalValue>(K)) return globalAddr(G);
  if (auto* CE = dyn_cast<ConstantExpr>(K)) {
    unsigned w = CE->getType()->isPointerTy() ? 64 : CE->getType()->getScalarSizeInBits(); u64 m = maskw(w);
    switch (CE->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); auto* G = cast<GEPOperator>(CE); if (!G->accumulateConstantOffset(*g_DL, off)) abort(); return constExprInt(CE->getOperand(0)) + off.getSExtValue(); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::AddrSpaceCast: return constExprInt(CE->getOperand(0)) & m;
      case Instruction::Add: return (constExprInt(CE->getOperand(0)) + constExprInt(CE->getOperand(1))) & m;
      case Instruction::Sub: return (constExprInt(CE->getOperand(0)) - constExprInt(CE->getOperand(1))) & m;
      case Instruction::Xor: return (constExprInt(CE->getOperand(0)) ^ constExprInt(CE->getOperand(1))) & m;
      case Instruction::ICmp: { u64 a = constExprInt(CE->getOperand(0)), b = constExprInt(CE->getOperand(1)); switch (CE->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_ULE: return a <= b; default: abort(); } }
      default: fprintf(stderr, "const expr op %s\n", CE->getOpcodeName()); abort();
    }
  }
  if (auto* DE = dyn_cast<DSOLocalEquivalent>(K)) return globalAddr(DE->getGlobalValue());
  string s; raw_string_ostream os(s); K->print(os); fprintf(stderr, "const? %s\n", s.c_str()); abort();
}
static void constBytes(const Constant* K, vector<V>& out) {
  Type* T = K->getType();
  if (isa<UndefValue>(K) || isa<ConstantAggregateZero>(K)) { u32 n = nslots(T); for (u32 i = 0; i < n; ++i) out.push_back(C(0)); return; }
  if (auto* CI = dyn_cast<ConstantInt>(K)) { unsigned w = CI->getBitWidth(); if (w <= 64) out.push_back(C(CI->getZExtValue())); else for (unsigned i = 0; i < w; i += 64) out.push_back(C(CI->getValue().extractBitsAsZExtValue(std::min(64u, w - i), i))); return; }
  if (auto* CF = dyn_cast<ConstantFP>(K)) {
    if (T->isX86_FP80Ty()) { APFloat f = CF->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); double d = f.convertToDouble(); u64 u; memcpy(&u, &d, 8); out.push_back(C(u)); return; }
    out.push_back(C(CF->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
  if (auto* CA = dyn_cast<ConstantAggregate>(K)) { for (unsigned i = 0; i < CA->getNumOperands(); ++i) constBytes(CA->getOperand(i), out); return; }
  if (auto* CD = dyn_cast<ConstantDataSequential>(K)) { for (unsigned i = 0; i < CD->getNumElements(); ++i) constBytes(CD->getElementAsConstant(i), out); return; }
  out.push_back(C(constExprInt(K)));
}
static vector<std::pair<const GlobalVariable*, u64>> g_pendingInit;
static u64 globalAddr(const GlobalValue* G) {
  if (auto* F = dyn_cast<Function>(G)) return getFunc(const_cast<Function*>(F))->addr;
  if (auto* A = dyn_cast<GlobalAlias>(G)) return constExprInt(A->getAliasee());
  auto* GV = cast<GlobalVariable>(G); auto it = g_gaddr.find(GV); if (it != g_gaddr.end()) return it->second;
  u64 sz = GV->getValueType()->isSized() ? g_DL->getTypeAllocSize(GV->getValueType()).getFixedValue() : 64; if (!GV->hasInitializer()) sz = std::max<u64>(sz, 256);
  u64 a = allocGlobal(sz, GV->getAlign() ? GV->getAlign()->value() : 16); g_gaddr[GV] = a; g_pendingInit.push_back({GV, a});
  if (!GV->hasInitializer()) g_extAddr[GV->getName().str()] = a;
  return a;
}
static void initGlobals(Memory& M) {
  for (auto& G : g_M->globals()) if (!G.getName().starts_with("llvm.")) globalAddr(&G);
  for (size_t i = 0; i < g_pendingInit.size(); ++i) {
    auto* GV = g_pendingInit[i].first; u64 a = g_pendingInit[i].second;
    u64 sz = GV->getValueType()->isSized() ? g_DL->getTypeAllocSize(GV->getValueType()).getFixedValue() : 64; if (!GV->hasInitializer()) sz = std::max<u64>(sz, 256);
    M.setShadow(a, sz, SH_UNINIT); M.fill(a, 0, sz);
    if (GV->hasInitializer()) {
      const Constant* I = GV->getInitializer();
      if (!isa<ConstantAggregateZero>(I) && !isa<UndefValue>(I)) {
        if (auto* CD = dyn_cast<ConstantDataSequential>(I)) { StringRef r = CD->getRawDataValues(); M.putConc(a, r.data(), r.size()); }
        else { vector<Leafty> l; flatten(GV->getValueType(), 0, l); vector<V> v; constBytes(I, v); if (l.size() != v.size()) { fprintf(stderr, "init mismatch %s\n", GV->getName().str().c_str()); abort(); }
          for (size_t j = 0; j < l.size(); ++j) { u64 c = v[j].c; M.putConc(a + l[j].off, &c, (l[j].w + 7) / 8); } }
      }
      if (GV->isConstant()) for (u64 j = 0; j < sz; ++j) { Page* p = M.wr(a + j); p->sh[(a + j) & 4095] |= SH_RO; }
    }
  }
  g_pendingInit.clear();
}

// ---------------------------------------------------------------- builtins
struct Ctx { Inst* I; V* a; u32 n; V ret; V ret2; bool pushed = false; };
typedef std::function<void(Ctx&)> BFn;
struct Builtin { string name; BFn fn; };
static unordered_map<string, Builtin*> g_bi;
static const Builtin* findBuiltin(const string& n, Function* F);
static const Builtin* intrinsicBuiltin(Function* F, const CallBase* CBI);

// ---------------------------------------------------------------- predecode
struct Decoder {
  Func* f; unordered_map<const Value*, u32> slot; unordered_map<const Constant*, u32> cslot; unordered_map<const BasicBlock*, u32> bbpc; u32 nr = 0;
  u32 operand(const Value* v) {
    if (auto* K = dyn_cast<Constant>(v)) {
      auto it = cslot.find(K); if (it != cslot.end()) return it->second;
      u32 i = f->consts.size() | CB; vector<V> o; constBytes(K, o); for (auto& x : o) f->consts.push_back(x); cslot[K] = i; return i;
    }
    auto it = slot.find(v); if (it != slot.end()) return it->second;
    if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return CB;
    fprintf(stderr, "operand?\n"); v->print(errs()); abort();
  }
  u32 constSlot(u64 c) { u32 i = f->consts.size() | CB; f->consts.push_back(C(c)); return i; }
  Inst mk(Op op, const Instruction* I) { Inst x; memset((void*)&x, 0, sizeof x); x.op = op; x.ll = I; if (I && slot.count(I)) x.dst = slot[I]; return x; }
  Edge edge(const BasicBlock* from, const BasicBlock* to) {
    Edge e; e.pc = bbpc[to];
    for (auto& P : to->phis()) { u32 d = slot[&P], s = operand(P.getIncomingValueForBlock(from)); u32 n = nslots(P.getType()); for (u32 i = 0; i < n; ++i) e.mv.push_back({d + i, s + i}); }
    return e;
  }
  void decode() {
    Function* F = f->F; 
    if (auto* sp = F->getSubprogram()) f->sps.insert(sp);
    for (auto& A : F->args()) { slot[&A] = nr; nr += nslots(A.getType()); } f->nargs = nr;
    for (auto& B : *F) for (auto& I : B) { u32 n = nslots(I.getType()); slot[&I] = nr; nr += n; }
    f->nregs = nr + 1;
    // pcs
    u32 pc = 0; for (auto& B : *F) { bbpc[&B] = pc; for (auto& I : B) if (!isa<PHINode>(I) && !isa<DbgInfoIntrinsic>(I)) pc++; }
    f->code.reserve(pc);
    for (auto& B : *F) for (auto& I : B) {
      if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
      if (const DILocation* L = I.getDebugLoc().get()) { for (; L; L = L->getInlinedAt()) if (L->getScope()) if (auto* sp = L->getScope()->getSubprogram()) f->sps.insert(sp); }
      f->code.push_back(one(I));
      { Inst& x = f->code.back(); x.race = 0; const DILocation* L = I.getDebugLoc().get(); StringRef fn = L ? L->getFilename() : StringRef();
        if (L && !fn.contains("/rt/") && !fn.contains("harness/") && !fn.starts_with("rt/")) x.race = 1;
        bool at = false; if (auto* l = dyn_cast<LoadInst>(&I)) at = l->isAtomic(); else if (auto* w = dyn_cast<StoreInst>(&I)) at = w->isAtomic(); else at = isa<AtomicRMWInst>(&I) || isa<AtomicCmpXchgInst>(&I);
        if (at) x.race = 2; }
    }
    f->decoded = true;
  }
  static unsigned tw(Type* T) { if (T->isPointerTy()) return 64; return T->getScalarSizeInBits(); }
  Inst one(Instruction& I) {
    unsigned opc = I.getOpcode();
    if (I.getType()->isVectorTy() || (I.getNumOperands() && I.getOperand(0)->getType()->isVectorTy() && !isa<CallBase>(I) && !isa<StoreInst>(I))) return vec(I);
    switch (opc) {
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        Inst x = mk(O_BIN, &I); x.w = tw(I.getType()); x.a = operand(I.getOperand(0)); x.b = operand(I.getOperand(1)); x.sub = binKind(opc); if (x.w > 64) { x.op = x.w == 128 ? O_MULTI : O_UNSUP; x.imm = 1; } return x; }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { Inst x = mk(O_FBIN, &I); x.w = I.getType()->isFloatTy() ? 32 : 64; x.sub = opc; x.a = operand(I.getOperand(0)); x.b = operand(I.getOperand(1)); return x; }
      case Instruction::FNeg: { Inst x = mk(O_FNEG, &I); x.w = I.getType()->isFloatTy() ? 32 : 64; x.a = operand(I.getOperand(0)); return x; }
      case Instruction::ICmp: { Inst x = mk(O_ICMP, &I); x.w = tw(I.getOperand(0)->getType()); x.sub = cast<ICmpInst>(I).getPredicate(); x.a = operand(I.getOperand(0)); x.b = operand(I.getOperand(1)); if (x.w > 64) { x.op = x.w == 128 ? O_MULTI : O_UNSUP; x.imm = 2; } return x; }
      case Instruction::FCmp: { Inst x = mk(O_FCMP, &I); x.w = I.getOperand(0)->getType()->isFloatTy() ? 32 : 64; x.sub = cast<FCmpInst>(I).getPredicate(); x.a = operand(I.getOperand(0)); x.b = operand(I.getOperand(1)); return x; }
      case Instruction::Select: { Inst x = mk(O_SELECT, &I); x.n = nslots(I.getType()); x.lv = new vector<Leafty>; flatten(I.getType(), 0, *x.lv); x.a = operand(I.getOperand(0)); x.b = operand(I.getOperand(1)); x.c = operand(I.getOperand(2)); return x; }
      case Instruction::Br: { auto& BI = cast<BranchInst>(I); Inst x = mk(BI.isConditional() ? O_CONDBR : O_BR, &I); x.edges = new vector<Edge>; for (unsigned i = 0; i < BI.getNumSuccessors(); ++i) x.edges->push_back(edge(I.getParent(), BI.getSuccessor(i))); if (BI.isConditional()) x.a = operand(BI.getCondition()); return x; }
      case Instruction::Switch: { auto& SI = cast<SwitchInst>(I); Inst x = mk(O_SWITCH, &I); x.w = tw(SI.getCondition()->getType()); x.a = operand(SI.getCondition()); x.edges = new vector<Edge>; x.cases = new vector<SwCase>;
        x.edges->push_back(edge(I.getParent(), SI.getDefaultDest())); for (auto& c : SI.cases()) { x.cases->push_back({c.getCaseValue()->getZExtValue(), (u32)x.edges->size()}); x.edges->push_back(edge(I.getParent(), c.getCaseSuccessor())); } return x; }
      case Instruction::Ret: { Inst x = mk(O_RET, &I); if (I.getNumOperands()) { x.n = nslots(I.getOperand(0)->getType()); x.a = operand(I.getOperand(0)); } return x; }
      case Instruction::Unreachable: return mk(O_UNREACH, &I);
      case Instruction::Resume: { Inst x = mk(O_RESUME, &I); x.a = operand(I.getOperand(0)); return x; }
      case Instruction::LandingPad: { auto& L = cast<LandingPadInst>(I); Inst x = mk(O_LPAD, &I); x.cleanup = L.isCleanup(); x.cl = new vector<LClause>; for (unsigned i = 0; i < L.getNumClauses(); ++i) { if (L.isCatch(i)) x.cl->push_back({0, constExprInt(L.getClause(i))}); else x.cl->push_back({1, 0}); } return x; }
      case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); Inst x = mk(O_ALLOCA, &I); x.imm = g_DL->getTypeAllocSize(A.getAllocatedType()); x.a = operand(A.getArraySize()); x.w2 = std::max<u64>(16, A.getAlign().value()); return x; }
      case Instruction::Load: { auto& L = cast<LoadInst>(I); Inst x = mk(O_LOAD, &I); x.a = operand(L.getPointerOperand()); x.lv = new vector<Leafty>; flatten(L.getType(), 0, *x.lv); x.n = x.lv->size(); x.w = x.n ? (*x.lv)[0].w : 0; return x; }
      case Instruction::Store: { auto& L = cast<StoreInst>(I); Inst x = mk(O_STORE, &I); x.a = operand(L.getPointerOperand()); x.b = operand(L.getValueOperand()); x.lv = new vector<Leafty>; flatten(L.getValueOperand()->getType(), 0, *x.lv); x.n = x.lv->size(); x.w = x.n ? (*x.lv)[0].w : 0; return x; }
      case Instruction::GetElementPtr: return gep(I);
      case Instruction::Trunc: { Inst x = mk(O_TRUNC, &I); x.w = tw(I.getType()); x.w2 = tw(I.getOperand(0)->getType()); x.a = operand(I.getOperand(0)); if (x.w > 64) x.op = O_UNSUP; if (x.w2 > 64) { x.w2 = 64; if (x.w == 64) x.op = O_MOVE, x.n = 1; } return x; }
      case Instruction::ZExt: case Instruction::SExt: { Inst x = mk(opc == Instruction::ZExt ? O_ZEXT : O_SEXT, &I); x.w = tw(I.getType()); x.w2 = tw(I.getOperand(0)->getType()); x.a = operand(I.getOperand(0)); if (x.w > 64) { x.op = x.w == 128 && x.w2 <= 64 ? O_MULTI : O_UNSUP; x.imm = opc == Instruction::ZExt ? 3 : 4; } return x; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: { unsigned a = tw(I.getOperand(0)->getType()), b = tw(I.getType()); Inst x = mk(b < a ? O_TRUNC : b > a ? O_ZEXT : O_MOVE, &I); x.n = 1; x.w = b; x.w2 = a; x.a = operand(I.getOperand(0)); return x; }
      case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: { Inst x = mk(O_MOVE, &I); x.n = nslots(I.getType()); x.a = operand(I.getOperand(0)); return x; }
      case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: {
        Inst x = mk(O_FPCAST, &I); x.sub = opc; x.a = operand(I.getOperand(0)); x.w2 = I.getOperand(0)->getType()->isFloatingPointTy() ? (I.getOperand(0)->getType()->isFloatTy() ? 32 : 64) : tw(I.getOperand(0)->getType());
        x.w = I.getType()->isFloatingPointTy() ? (I.getType()->isFloatTy() ? 32 : 64) : tw(I.getType()); return x; }
      case Instruction::ExtractValue: { auto& X = cast<ExtractValueInst>(I); Type* T; u32 s = slotIndex(X.getAggregateOperand()->getType(), X.getIndices(), &T); Inst x = mk(O_MOVE, &I); x.n = nslots(T); x.a = operand(X.getAggregateOperand()) + s; return x; }
      case Instruction::InsertValue: { auto& X = cast<InsertValueInst>(I); Type* T; u32 s = slotIndex(X.getType(), X.getIndices(), &T); Inst x = mk(O_XVAL, &I); x.a = operand(X.getAggregateOperand()); x.b = operand(X.getInsertedValueOperand()); x.n = nslots(X.getType()); x.w2 = nslots(T); x.imm = s; return x; }
      case Instruction::AtomicRMW: { auto& X = cast<AtomicRMWInst>(I); Inst x = mk(O_RMW, &I); x.a = operand(X.getPointerOperand()); x.b = operand(X.getValOperand()); x.sub = X.getOperation(); x.w = tw(X.getValOperand()->getType()); return x; }
      case Instruction::AtomicCmpXchg: { auto& X = cast<AtomicCmpXchgInst>(I); Inst x = mk(O_CAS, &I); x.a = operand(X.getPointerOperand()); x.b = operand(X.getCompareOperand()); x.c = operand(X.getNewValOperand()); x.w = tw(X.getNewValOperand()->getType()); return x; }
      case Instruction::Fence: return mk(O_NOP, &I);
      case Instruction::Call: case Instruction::Invoke: return call(cast<CallBase>(I));
      default: return mk(O_UNSUP, &I);
    }
  }
  static u8 binKind(unsigned opc) {
    switch (opc) { case Instruction::Add: return K_ADD; case Instruction::Sub: return K_SUB; case Instruction::Mul: return K_MUL; case Instruction::UDiv: return K_UDIV; case Instruction::SDiv: return K_SDIV; case Instruction::URem: return K_UREM; case Instruction::SRem: return K_SREM;
      case Instruction::And: return K_AND; case Instruction::Or: return K_OR; case Instruction::Xor: return K_XOR; case Instruction::Shl: return K_SHL; case Instruction::LShr: return K_LSHR; default: return K_ASHR; }
  }
  Inst vec(Instruction& I) {
    if (isa<LoadInst>(I)) { auto& L = cast<LoadInst>(I); Inst x = mk(O_LOAD, &I); x.a = operand(L.getPointerOperand()); x.lv = new vector<Leafty>; flatten(L.getType(), 0, *x.lv); x.n = x.lv->size(); x.w = (*x.lv)[0].w; return x; }
    if (isa<BinaryOperator>(I) && I.getType()->isIntOrIntVectorTy()) { Inst x = mk(O_BIN, &I); x.n = cast<FixedVectorType>(I.getType())->getNumElements(); x.w = I.getType()->getScalarSizeInBits(); x.a = operand(I.getOperand(0)); x.b = operand(I.getOperand(1)); x.sub = binKind(I.getOpcode()); return x; }
    if (isa<BinaryOperator>(I)) { Inst x = mk(O_FBIN, &I); x.n = cast<FixedVectorType>(I.getType())->getNumElements(); x.w = I.getType()->getScalarType()->isFloatTy() ? 32 : 64; x.sub = I.getOpcode(); x.a = operand(I.getOperand(0)); x.b = operand(I.getOperand(1)); return x; }
    if (isa<ICmpInst>(I)) { Inst x = mk(O_ICMP, &I); x.n = cast<FixedVectorType>(I.getType())->getNumElements(); x.w = tw(I.getOperand(0)->getType()->getScalarType()); x.sub = cast<ICmpInst>(I).getPredicate(); x.a = operand(I.getOperand(0)); x.b = operand(I.getOperand(1)); return x; }
    if (isa<ExtractElementInst>(I)) { Inst x = mk(O_EXTELEM, &I); x.a = operand(I.getOperand(0)); x.b = operand(I.getOperand(1)); return x; }
    if (isa<InsertElementInst>(I)) { Inst x = mk(O_INSELEM, &I); x.a = operand(I.getOperand(0)); x.b = operand(I.getOperand(1)); x.c = operand(I.getOperand(2)); x.n = cast<FixedVectorType>(I.getType())->getNumElements(); return x; }
    if (auto* SV = dyn_cast<ShuffleVectorInst>(&I)) { Inst x = mk(O_SHUF, &I); x.a = operand(I.getOperand(0)); x.b = operand(I.getOperand(1)); u32 n0 = nslots(I.getOperand(0)->getType()); x.ops = new vector<u32>; for (int m : SV->getShuffleMask()) x.ops->push_back(m < 0 ? x.a : (u32)m < n0 ? x.a + m : x.b + (m - n0)); x.n = x.ops->size(); return x; }
    if (isa<CastInst>(I)) { if (I.getOpcode() == Instruction::BitCast) { vector<Leafty> a, b; flatten(I.getOperand(0)->getType(), 0, a); flatten(I.getType(), 0, b); if (a.size() == b.size()) { Inst x = mk(O_MOVE, &I); x.n = a.size(); x.a = operand(I.getOperand(0)); return x; } }
      if (I.getOpcode() == Instruction::PtrToInt || I.getOpcode() == Instruction::IntToPtr) { Inst x = mk(O_MOVE, &I); x.n = nslots(I.getType()); x.a = operand(I.getOperand(0)); return x; }
      if (I.getOpcode() == Instruction::ZExt || I.getOpcode() == Instruction::SExt || I.getOpcode() == Instruction::Trunc) { Inst x = mk(I.getOpcode() == Instruction::ZExt ? O_ZEXT : I.getOpcode() == Instruction::SExt ? O_SEXT : O_TRUNC, &I); x.n = nslots(I.getType()); x.w = I.getType()->getScalarSizeInBits(); x.w2 = I.getOperand(0)->getType()->getScalarSizeInBits(); x.a = operand(I.getOperand(0)); return x; } }
    if (isa<SelectInst>(I) && !I.getOperand(0)->getType()->isVectorTy()) { Inst x = mk(O_SELECT, &I); x.n = nslots(I.getType()); x.lv = new vector<Leafty>; flatten(I.getType(), 0, *x.lv); x.a = operand(I.getOperand(0)); x.b = operand(I.getOperand(1)); x.c = operand(I.getOperand(2)); return x; }
    if (isa<CallBase>(I)) return call(cast<CallBase>(I));
    if (isa<FreezeInst>(I)) { Inst x = mk(O_MOVE, &I); x.n = nslots(I.getType()); x.a = operand(I.getOperand(0)); return x; }
    return mk(O_UNSUP, &I);
  }
  Inst gep(Instruction& I) {
    Inst x = mk(O_GEP, &I); x.a = operand(I.getOperand(0)); x.ops = new vector<u32>; i64 off = 0; // ops: (operand, scale lo, width)
    for (auto it = gep_type_begin(&I), e = gep_type_end(&I); it != e; ++it) {
      Value* ix = it.getOperand();
      if (StructType* T = it.getStructTypeOrNull()) { off += g_DL->getStructLayout(T)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
      i64 sz = g_DL->getTypeAllocSize(it.getIndexedType());
      if (auto* CI = dyn_cast<ConstantInt>(ix)) { off += CI->getSExtValue() * sz; continue; }
      x.ops->push_back(operand(ix)); x.ops->push_back((u32)sz); x.ops->push_back(tw(ix->getType()));
    }
    x.imm = (u64)off; return x;
  }
  Inst call(CallBase& CBI) {
    Function* F = CBI.getCalledFunction();
    Value* callee = CBI.getCalledOperand()->stripPointerCasts(); if (!F) F = dyn_cast<Function>(callee); if (!F) if (auto* GA = dyn_cast<GlobalAlias>(callee)) F = dyn_cast<Function>(GA->getAliaseeObject());
    if (isa<InlineAsm>(callee)) return mk(O_NOP, &CBI);
    Inst x = mk(O_CALL, &CBI); x.ops = new vector<u32>; x.n = nslots(CBI.getType()); x.lv = new vector<Leafty>;
    for (auto& A : CBI.args()) { u32 o = operand(A.get()); Type* T = A->getType(); vector<Leafty> l; if (T->isMetadataTy()) { x.ops->push_back(CB); x.lv->push_back({0,0,0}); if (f->consts.empty()) f->consts.push_back(C(0)); continue; } flatten(T, 0, l); for (u32 i = 0; i < l.size(); ++i) { x.ops->push_back(o + i); x.lv->push_back(l[i]); } }
    if (auto* II = dyn_cast<InvokeInst>(&CBI)) { x.invoke = true; x.edges = new vector<Edge>{edge(CBI.getParent(), II->getNormalDest()), edge(CBI.getParent(), II->getUnwindDest())}; }
    if (!F) { x.op = O_CALLI; x.a = operand(CBI.getCalledOperand()); return x; }
    if (F->isIntrinsic()) { x.op = O_BUILTIN; x.bi = intrinsicBuiltin(F, &CBI); x.w = CBI.getType()->isVoidTy() ? 0 : tw(CBI.getType()); if (!x.bi) { x.op = O_UNSUP; } return x; }
    x.fn = getFunc(F);
    if (const Builtin* b = findBuiltin(x.fn->name, F)) { x.op = O_BUILTIN; x.bi = b; }
    else if (F->isDeclaration()) { // maybe a modelled replacement
      if (Function* W = g_M->getFunction("__wrap_" + x.fn->name)) x.fn = getFunc(W); else x.op = O_UNSUP;
    }
    return x;
  }
};
static void decodeFunc(Func* f) { Decoder d; d.f = f; d.decode(); }

// ---------------------------------------------------------------- execution helpers
static Thread* T; static Frame* FR; static V* R; static const V* KON;
static inline void refresh() { T = &S->th[S->cur]; FR = &T->fr.back(); R = T->regs.data() + FR->base; KON = FR->f->consts.data(); }
static inline const V& get(u32 o) { return (o & CB) ? KON[o & ~CB] : R[o]; }
static void pushCall(Func* f, const V* args, u32 n, const vector<Leafty>* lv = nullptr) {
  if (f->isDecl) unsup("call to undefined function " + f->name);
  if (!f->decoded) decodeFunc(f);
  f->executed = true;
  Frame nf; nf.f = f; nf.pc = 0; nf.base = T->fr.empty() ? 0 : FR->base + FR->f->nregs; nf.sp = T->sp; nf.va = 0;
  if (T->fr.size() > 4000) fail("stack-overflow", "recursion depth");
  if (T->regs.size() < nf.base + f->nregs) T->regs.resize((nf.base + f->nregs) * 2);
  V* d = T->regs.data() + nf.base; u32 k = std::min(n, f->nargs); for (u32 i = 0; i < k; ++i) d[i] = args[i];
  if (f->vararg && n > f->nargs) { // spill the variadic arguments
    u64 a = (T->sp + 31) & ~15ull; u32 m = n - f->nargs; S->mem.setShadow(a, m * 8, SH_UNINIT); for (u32 i = 0; i < m; ++i) { V v = args[f->nargs + i]; if (v.e && v.e->width < 64) v = fromE(mkZext(v.e, 64)); storeInt(a + i * 8, v, 64); } nf.va = a; T->sp = a + m * 8 + 16;
  } else if (f->vararg) nf.va = T->sp;
  T->fr.push_back(nf); refresh();
}
static inline void takeEdge(const Edge& e) {
  size_t n = e.mv.size();
  if (n == 1) R[e.mv[0].dst] = get(e.mv[0].src);
  else if (n) { V tmp[256]; V* t = n <= 256 ? tmp : new V[n]; for (size_t i = 0; i < n; ++i) t[i] = get(e.mv[i].src); for (size_t i = 0; i < n; ++i) R[e.mv[i].dst] = t[i]; if (t != tmp) delete[] t; }
  FR->pc = e.pc;
}
static void popFrame() { // release the guest stack of the top frame
  u64 sp = FR->sp; if (T->sp > sp) S->mem.setShadow(sp, T->sp - sp, SH_NONE); T->sp = sp; T->fr.pop_back();
}
static void schedPick(bool curBlocked);
static void threadDone();
static size_t g_stopDepth = 0;
static void doReturn(const V* vals, u32 n) {
  V tmp[8]; V* t = n <= 8 ? tmp : new V[n]; for (u32 i = 0; i < n; ++i) t[i] = vals[i];
  popFrame();
  if (T->fr.empty()) { T->retval = n ? t[0].c : 0; if (t != tmp) delete[] t; threadDone(); return; }
  refresh(); if (g_stopDepth && T->fr.size() == g_stopDepth) throw KillPath{5};
  Inst& I = FR->f->code[FR->pc];
  u32 k = std::min<u32>(n, I.n); for (u32 i = 0; i < k; ++i) R[I.dst + i] = t[i];
  if (t != tmp) delete[] t;
  if (I.invoke) takeEdge((*I.edges)[0]); else FR->pc++;
}
// ---------------------------------------------------------------- exceptions
static u64 rd64(u64 a) { V v = loadInt(a, 64); return v.e ? evalE(v.e, S->model) : v.c; }
static u64 g_vtClass, g_vtSi, g_vtVmi;
static u64 ext(const char* n) { auto it = g_extAddr.find(n); return it == g_extAddr.end() ? 0 : it->second; }
static string tiName(u64 ti) { if (!ti) return "..."; return cstr(rd64(ti + 8)); }
// bases of a type: list of (ti, offset(or vtable offset), virtual, public)
struct BaseI { u64 ti; i64 off; bool virt, pub; };
static void basesOf(u64 ti, vector<BaseI>& out) {
  u64 vp = rd64(ti);
  if (g_vtSi && vp == g_vtSi + 16) out.push_back({rd64(ti + 16), 0, false, true});
  else if (g_vtVmi && vp == g_vtVmi + 16) { u64 n = loadInt(ti + 20, 32).c; for (u64 i = 0; i < n; ++i) { u64 b = rd64(ti + 24 + i * 16); i64 of = (i64)rd64(ti + 32 + i * 16); out.push_back({b, of >> 8, (bool)(of & 1), (bool)(of & 2)}); } }
}
static bool tiEq(u64 a, u64 b) { return a == b || (a && b && tiName(a) == tiName(b)); }
static bool upcast(u64 ti, u64 want, u64 obj, u64& res) {
  if (tiEq(ti, want)) { res = obj; return true; }
  vector<BaseI> bs; basesOf(ti, bs);
  for (auto& b : bs) { u64 o; if (b.virt) o = obj + (obj ? (i64)rd64(rd64(obj) + b.off) : 0); else o = obj + b.off; if (upcast(b.ti, want, o, res)) return true; }
  return false;
}
static u64 tiId(u64 ti) { return ti ? (ti >> 4) & 0x7fffffff : 0x7ffffff0; }
static void unwind(u64 obj) { // top frame has raised: find a landing pad in frames below *including* the current one
  u64 ti = rd64(obj - 32);
  // phase 1
  bool handled = false;
  for (int i = (int)T->fr.size() - 1; i >= 0 && !handled; --i) {
    Frame& f = T->fr[i]; Inst& I = f.f->code[f.pc]; if (!I.invoke) continue;
    Inst& L = f.f->code[(*I.edges)[1].pc]; if (L.op != O_LPAD) continue;
    for (auto& c : *L.cl) { u64 r; if (c.kind == 0 && (!c.ti || upcast(ti, c.ti, obj, r))) { handled = true; break; } if (c.kind == 1) break; }
  }
  if (!handled) fail("uncaught-exception", "uncaught exception of type " + llvm::demangle("_ZTI" + tiName(ti)));
  for (;;) {
    Inst& I = FR->f->code[FR->pc];
    if (I.invoke && (I.op == O_CALL || I.op == O_CALLI || I.op == O_BUILTIN || I.op == O_UNSUP)) {
      Inst& L = FR->f->code[(*I.edges)[1].pc]; u64 sel = 0; bool land = L.cleanup; u64 adj = obj;
      for (auto& c : *L.cl) { u64 r; if (c.kind == 0 && (!c.ti || upcast(ti, c.ti, obj, r))) { sel = tiId(c.ti); adj = c.ti ? r : obj; land = true; break; } }
      if (land) { takeEdge((*I.edges)[1]); T->lpPtr = C(obj); T->lpSel = C(sel); if (sel) T->adj = adj; return; }
    }
    popFrame(); if (T->fr.empty()) fail("uncaught-exception", "exception left thread"); refresh();
  }
}
// ---------------------------------------------------------------- scheduling
static vector<int> runnable() { vector<int> r; for (size_t i = 0; i < S->th.size(); ++i) if (S->th[i].status == 0) r.push_back(i); return r; }
// choose among options; forks when exploring.
static int schedChoose(const vector<int>& o) {
  if (o.size() == 1 || !S->explore) return o[0];
  E v = newVar("sched", 8, false); S->schedPts++;
  if (v->kind == K_CONST) return o[v->cval < o.size() ? v->cval : 0];
  for (size_t i = o.size() - 1; i >= 1; --i) {
    State* n = forkState(S); n->model[v->cval] = i; addPC(n, mkBin(K_EQ, mkConst(i, 8), v)); if (n->cur != o[i]) n->slice++; n->cur = o[i]; g_stack.push_back(n);
  }
  S->model[v->cval] = 0; addPC(S, mkBin(K_EQ, mkConst(0, 8), v));
  return o[0];
}
static void deadlock() {
  string m; for (size_t i = 0; i < S->th.size(); ++i) { auto& t = S->th[i]; if (t.status == 1 && !t.fr.empty()) { int c = S->cur; S->cur = i; m += "thread " + std::to_string(i) + ":\n" + backtrace(); S->cur = c; } }
  fail("deadlock", "all threads blocked\n" + m);
}
static void schedPick(bool) { // the current thread cannot run
  vector<int> o; int n = S->th.size(); for (int k = 1; k <= n; ++k) { int i = (S->cur + k) % n; if (S->th[i].status == 0) o.push_back(i); }
  if (o.empty()) deadlock();
  int was = S->cur; st.switches++; S->cur = schedChoose(o); if (S->cur != was) S->slice++; refresh();
}
static void preemptPoint() { // FR->pc already advanced past the point
  if (!S->explore && g_mainFirst && S->cur != 0 && S->th[0].status == 0) { S->cur = 0; S->slice++; refresh(); return; } // other threads run only while the main thread waits
  if (!S->explore || S->preempt <= 0) return;
  vector<int> o{S->cur}; int n = S->th.size(); for (int k = 1; k < n; ++k) { int i = (S->cur + k) % n; if (S->th[i].status == 0) o.push_back(i); }
  if (o.size() < 2) return;
  // forks inherit budget-1 when they switch away
  S->preempt--; int keep = S->cur; int c = schedChoose(o); if (c == keep) S->preempt++; else { S->cur = c; S->slice++; }
  refresh();
}
static void threadDone() {
  T->status = 2;
  if (S->cur == 0) throw KillPath{1};
  for (auto& t : S->th) if (t.status == 1 && t.blockOn == 0x100000000ull + S->cur) { t.status = 0; t.blockOn = 0; }
  schedPick(true);
}
#include "builtins.inc"

// ---------------------------------------------------------------- interpreter
static double asD(const V& v, unsigned w) { u64 c = v.e ? concretize(v, w) : v.c; if (w == 32) { float f; u32 u = c; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static V fromD(double d, unsigned w) { if (w == 32) { float f = d; u32 u; memcpy(&u, &f, 4); return C(u); } u64 u; memcpy(&u, &d, 8); return C(u); }
static V binop(u8 k, const V& a, const V& b, unsigned w, Inst& I) {
  if (k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM) {
    if (!b.e) { if (!b.c) fail("div-by-zero", "division by zero"); }
    else { E z = mkBin(K_EQ, mkConst(0, w), b.e); if (branchOn(z)) fail("div-by-zero", "division by zero"); }
  }
  if (!a.e && !b.e) {
    switch (k) { case K_ADD: return C((a.c + b.c) & maskw(w)); case K_SUB: return C((a.c - b.c) & maskw(w)); case K_AND: return C(a.c & b.c); default: return C(evalBin((Kind)k, a.c, b.c, w)); }
  }
  return fromE(mkBin((Kind)k, toE(a, w), toE(b, w)));
}
static V icmp(u8 p, const V& a, const V& b, unsigned w) {
  if (!a.e && !b.e) {
    switch (p) { case CmpInst::ICMP_EQ: return C(a.c == b.c); case CmpInst::ICMP_NE: return C(a.c != b.c); case CmpInst::ICMP_ULT: return C(a.c < b.c); case CmpInst::ICMP_ULE: return C(a.c <= b.c); case CmpInst::ICMP_UGT: return C(a.c > b.c); case CmpInst::ICMP_UGE: return C(a.c >= b.c);
      case CmpInst::ICMP_SLT: return C(sx(a.c, w) < sx(b.c, w)); case CmpInst::ICMP_SLE: return C(sx(a.c, w) <= sx(b.c, w)); case CmpInst::ICMP_SGT: return C(sx(a.c, w) > sx(b.c, w)); default: return C(sx(a.c, w) >= sx(b.c, w)); }
  }
  E x = toE(a, w), y = toE(b, w);
  switch (p) { case CmpInst::ICMP_EQ: return fromE(mkBin(K_EQ, x, y)); case CmpInst::ICMP_NE: return fromE(mkNot(mkBin(K_EQ, x, y))); case CmpInst::ICMP_ULT: return fromE(mkBin(K_ULT, x, y)); case CmpInst::ICMP_ULE: return fromE(mkBin(K_ULE, x, y)); case CmpInst::ICMP_UGT: return fromE(mkBin(K_ULT, y, x)); case CmpInst::ICMP_UGE: return fromE(mkBin(K_ULE, y, x));
    case CmpInst::ICMP_SLT: return fromE(mkBin(K_SLT, x, y)); case CmpInst::ICMP_SLE: return fromE(mkBin(K_SLE, x, y)); case CmpInst::ICMP_SGT: return fromE(mkBin(K_SLT, y, x)); default: return fromE(mkBin(K_SLE, y, x)); }
}
static u64 ptrOf(const V& v) { return v.e ? concretize(v, 64) : v.c; }
// enumerate the feasible values of e under the path condition, up to max; false if more
static bool enumValues(E e, unsigned max, vector<u64>& out) {
  E block = mkConst(1, 1); u64 x = evalE(e, S->model);
  for (;;) {
    out.push_back(x); if (out.size() > max) return false;
    block = mkBin(K_AND, block, mkNot(mkBin(K_EQ, mkConst(x, e->width), e))); vector<u64> m;
    if (!solveSat(S, block, &m)) return true; x = evalE(e, m);
  }
}
static void doLoad(Inst& I) {
  const V& p = get(I.a);
  if (!p.e) { if (I.n == 1) { R[I.dst] = loadInt(p.c, I.w); return; } for (u32 i = 0; i < I.n; ++i) R[I.dst + i] = loadInt(p.c + (*I.lv)[i].off, (*I.lv)[i].w); return; }
  if (I.n == 1 && I.w > 1) {
    E e = simp(S, p.e); if (e->kind == K_CONST) { R[I.dst] = loadInt(e->cval, I.w); return; }
    vector<u64> vals;
    if (enumValues(e, 64, vals)) {
      bool ok = true; for (u64 a : vals) if (!S->mem.ok(a, (I.w + 7) / 8, false)) ok = false;
      if (ok) { E r = nullptr; for (u64 a : vals) { E x = toE(loadInt(a, I.w), I.w); r = r ? mkIte(mkBin(K_EQ, mkConst(a, 64), e), x, r) : x; } R[I.dst] = fromE(r); return; }
    }
  }
  u64 a = concretize(p, 64); for (u32 i = 0; i < I.n; ++i) R[I.dst + i] = loadInt(a + (*I.lv)[i].off, (*I.lv)[i].w);
}
static inline void callBuiltin(Inst& I, const Builtin* b) {
  static thread_local V args[512]; u32 n = I.ops->size(); for (u32 i = 0; i < n; ++i) args[i] = get((*I.ops)[i]);
  Ctx c; c.I = &I; c.a = args; c.n = n; c.ret = C(0); c.ret2 = C(0); b->fn(c);
  if (c.pushed) return;
  if (I.n >= 1) R[I.dst] = c.ret; if (I.n >= 2) R[I.dst + 1] = c.ret2;
  if (I.invoke) takeEdge((*I.edges)[0]); else FR->pc++;
}
static const Builtin* g_sym_bi;
static u64 g_tick = 0;
static void run1() { // run the current state until it ends or is put aside
  refresh();
  for (;;) {
    Inst& I = FR->f->code[FR->pc]; S->steps++; st.steps++;
    if ((++g_tick & 0xffff) == 0) {
      if (S->steps > opt.maxSteps) fail("hang", "instruction budget per path exceeded");
      if (now() - g_t0 > opt.timeout) { st.incomplete++; throw KillPath{4}; }
      if (opt.maxMem && (g_tick & 0xfffff) == 0) { FILE* sf = fopen("/proc/self/statm", "r"); if (sf) { unsigned long a = 0, b = 0; if (fscanf(sf, "%lu %lu", &a, &b) == 2 && b * 4096ull > opt.maxMem) { fclose(sf); if (g_unsup.size() < 20) g_unsup.push_back("memory limit"); st.incomplete++; throw KillPath{4}; } fclose(sf); } }
    }
    switch (I.op) {
      case O_BIN: { if (!I.n) R[I.dst] = binop(I.sub, get(I.a), get(I.b), I.w, I); else for (u32 i = 0; i < I.n; ++i) R[I.dst + i] = binop(I.sub, get(I.a + i), get(I.b + i), I.w, I); FR->pc++; break; }
      case O_ICMP: { if (!I.n) R[I.dst] = icmp(I.sub, get(I.a), get(I.b), I.w); else for (u32 i = 0; i < I.n; ++i) R[I.dst + i] = icmp(I.sub, get(I.a + i), get(I.b + i), I.w); FR->pc++; break; }
      case O_FBIN: { u32 n = I.n ? I.n : 1; for (u32 i = 0; i < n; ++i) { double a = asD(get(I.a + i), I.w), b = asD(get(I.b + i), I.w), r; switch (I.sub) { case Instruction::FAdd: r = a + b; break; case Instruction::FSub: r = a - b; break; case Instruction::FMul: r = a * b; break; case Instruction::FDiv: r = a / b; break; default: r = fmod(a, b); } R[I.dst + i] = fromD(r, I.w); } FR->pc++; break; }
      case O_FNEG: R[I.dst] = fromD(-asD(get(I.a), I.w), I.w); FR->pc++; break;
      case O_FCMP: { double a = asD(get(I.a), I.w), b = asD(get(I.b), I.w); bool un = std::isnan(a) || std::isnan(b); bool r; switch (I.sub) { case CmpInst::FCMP_OEQ: r = !un && a == b; break; case CmpInst::FCMP_OGT: r = a > b; break; case CmpInst::FCMP_OGE: r = a >= b; break; case CmpInst::FCMP_OLT: r = a < b; break; case CmpInst::FCMP_OLE: r = a <= b; break; case CmpInst::FCMP_ONE: r = !un && a != b; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || a == b; break; case CmpInst::FCMP_UGT: r = un || a > b; break; case CmpInst::FCMP_UGE: r = un || a >= b; break; case CmpInst::FCMP_ULT: r = un || a < b; break; case CmpInst::FCMP_ULE: r = un || a <= b; break; case CmpInst::FCMP_UNE: r = un || a != b; break; case CmpInst::FCMP_TRUE: r = true; break; default: r = false; } R[I.dst] = C(r); FR->pc++; break; }
      case O_SELECT: {
        const V& c = get(I.a);
        if (!c.e) { u32 s = c.c ? I.b : I.c; if (I.n == 1) R[I.dst] = get(s); else for (u32 i = 0; i < I.n; ++i) R[I.dst + i] = get(s + i); }
        else {
          E ce = simp(S, c.e); bool fp = false; for (auto& l : *I.lv) if (l.fp) fp = true;
          // merging pointers into an if-then-else only defers the fork; fork right away instead
          bool ptr = I.ll->getType()->isPointerTy();
          if (ce->kind == K_CONST) { u32 s = ce->cval ? I.b : I.c; for (u32 i = 0; i < I.n; ++i) R[I.dst + i] = get(s + i); }
          else if (fp || ptr || (I.n == 1 && (*I.lv)[0].w >= 8 && !get(I.b).e && !get(I.c).e)) { u32 s = branchOn(ce) ? I.b : I.c; for (u32 i = 0; i < I.n; ++i) R[I.dst + i] = get(s + i); }
          else for (u32 i = 0; i < I.n; ++i) { unsigned w = (*I.lv)[i].w; R[I.dst + i] = fromE(mkIte(ce, toE(get(I.b + i), w), toE(get(I.c + i), w))); }
        }
        FR->pc++; break; }
      case O_BR: takeEdge((*I.edges)[0]); break;
      case O_CONDBR: { const V& c = get(I.a); bool b = c.e ? branchOn(c.e) : c.c; takeEdge((*I.edges)[b ? 0 : 1]); break; }
      case O_SWITCH: {
        const V& c = get(I.a); u32 e = 0;
        if (!c.e) { for (auto& k : *I.cases) if (k.v == c.c) { e = k.edge; break; } }
        else { E x = simp(S, c.e); if (x->kind == K_CONST) { for (auto& k : *I.cases) if (k.v == x->cval) { e = k.edge; break; } }
          else { // follow the model; fork the remaining alternatives by exclusion
            u64 v = evalE(x, S->model); const SwCase* hit = nullptr; for (auto& k : *I.cases) if (k.v == v) hit = &k;
            E cond; if (hit) { cond = mkConst(0, 1); for (auto& k : *I.cases) if ((*I.edges)[k.edge].pc == (*I.edges)[hit->edge].pc && (*I.edges)[k.edge].mv.empty()) cond = mkBin(K_OR, cond, mkBin(K_EQ, mkConst(k.v, I.w), x)); if (cond->kind == K_CONST) cond = mkBin(K_EQ, mkConst(hit->v, I.w), x); e = hit->edge; }
            else { cond = mkConst(1, 1); for (auto& k : *I.cases) cond = mkBin(K_AND, cond, mkNot(mkBin(K_EQ, mkConst(k.v, I.w), x))); }
            branchOn(cond); } }
        takeEdge((*I.edges)[e]); break; }
      case O_RET: { V tmp[16]; u32 n = I.n; if (n > 16) unsup("wide return"); for (u32 i = 0; i < n; ++i) tmp[i] = get(I.a + i); doReturn(tmp, n); break; }
      case O_CALL: { static V args[512]; u32 n = I.ops->size(); for (u32 i = 0; i < n; ++i) args[i] = get((*I.ops)[i]); pushCall(I.fn, args, n, I.lv); break; }
      case O_CALLI: {
        u64 p = ptrOf(get(I.a)); auto it = g_funcAt.find(p); if (it == g_funcAt.end()) fail("memory", "call through invalid function pointer " + addrDesc(p));
        Func* f = it->second; const Builtin* b = findBuiltin(f->name, f->F);
        if (b) { callBuiltin(I, b); break; }
        static V args[512]; u32 n = I.ops->size(); for (u32 i = 0; i < n; ++i) args[i] = get((*I.ops)[i]);
        if (f->isDecl) { if (Function* W = g_M->getFunction("__wrap_" + f->name)) f = getFunc(W); }
        pushCall(f, args, n, I.lv); break; }
      case O_BUILTIN: callBuiltin(I, I.bi); break;
      case O_RESUME: { u64 obj = get(I.a).c; popFrame(); if (T->fr.empty()) fail("uncaught-exception", "resume out of thread"); refresh(); unwind(obj); break; }
      case O_LPAD: R[I.dst] = T->lpPtr; R[I.dst + 1] = T->lpSel; FR->pc++; break;
      case O_UNREACH: fail("unreachable", "unreachable instruction executed");
      case O_ALLOCA: { u64 n = ptrOf(get(I.a)); u64 sz = I.imm * n; u64 a = (T->sp + 16 + I.w2 - 1) & ~(u64)(I.w2 - 1); if (a + sz + 16 > T->spLimit) fail("stack-overflow", "guest stack exhausted"); S->mem.setShadow(a, sz, SH_UNINIT); if (RACING) raceForget(a, sz); T->sp = a + sz; R[I.dst] = C(a); FR->pc++; break; }
      case O_LOAD: doLoad(I); if (I.race && (RACING || I.race == 2)) { u64 a = ptrOf(get(I.a)); if (I.race == 2) hbAcquire(a); else { const Leafty& e = (*I.lv)[I.n - 1]; raceAccess(a, e.off + (e.w + 7) / 8, false, I.ll); } } FR->pc++; break;
      case O_STORE: { u64 a = ptrOf(get(I.a)); if (I.race && (RACING || I.race == 2)) { if (I.race == 2) hbRelease(a); else { const Leafty& e = (*I.lv)[I.n - 1]; raceAccess(a, e.off + (e.w + 7) / 8, true, I.ll); } } if (I.n == 1) storeInt(a, get(I.b), I.w); else for (u32 i = 0; i < I.n; ++i) storeInt(a + (*I.lv)[i].off, get(I.b + i), (*I.lv)[i].w); FR->pc++; break; }
      case O_GEP: {
        const V& b = get(I.a); V r = b; if (!b.e) r.c += I.imm; else if (I.imm) r = fromE(mkBin(K_ADD, b.e, mkConst(I.imm, 64)));
        for (size_t i = 0; i < I.ops->size(); i += 3) { const V& x = get((*I.ops)[i]); i64 sz = (int32_t)(*I.ops)[i + 1]; unsigned w = (*I.ops)[i + 2];
          // a symbolic index would make every later access fork; split on its values here
          if (x.e && opt.splitIndex) r = r.e ? fromE(mkBin(K_ADD, r.e, mkConst((u64)(sx(concretize(x, w), w) * sz), 64))) : C(r.c + (u64)(sx(concretize(x, w), w) * sz));
          else if (!x.e && !r.e) r.c += (u64)(sx(x.c, w) * sz);
          else { E ix = mkSext(toE(x, w), 64); r = fromE(mkBin(K_ADD, toE(r, 64), mkBin(K_MUL, ix, mkConst((u64)sz, 64)))); } }
        R[I.dst] = r; FR->pc++; break; }
      case O_TRUNC: { u32 n = I.n ? I.n : 1; for (u32 i = 0; i < n; ++i) { const V& x = get(I.a + i); R[I.dst + i] = x.e ? fromE(mkExtract(x.e, 0, I.w)) : C(x.c & maskw(I.w)); } FR->pc++; break; }
      case O_ZEXT: { u32 n = I.n ? I.n : 1; for (u32 i = 0; i < n; ++i) { const V& x = get(I.a + i); R[I.dst + i] = x.e ? fromE(mkZext(x.e, I.w)) : x; } FR->pc++; break; }
      case O_SEXT: { u32 n = I.n ? I.n : 1; for (u32 i = 0; i < n; ++i) { const V& x = get(I.a + i); R[I.dst + i] = x.e ? fromE(mkSext(x.e, I.w)) : C((u64)sx(x.c, I.w2) & maskw(I.w)); } FR->pc++; break; }
      case O_MOVE: { if (I.n == 1) R[I.dst] = get(I.a); else { for (u32 i = 0; i < I.n; ++i) R[I.dst + i] = get(I.a + i); } FR->pc++; break; }
      case O_FPCAST: {
        const V& x = get(I.a); V r;
        switch (I.sub) {
          case Instruction::FPTrunc: case Instruction::FPExt: r = fromD(asD(x, I.w2), I.w); break;
          case Instruction::FPToSI: r = C((u64)(i64)asD(x, I.w2) & maskw(I.w)); break;
          case Instruction::FPToUI: { double d = asD(x, I.w2); r = C((u64)d & maskw(I.w)); break; }
          case Instruction::SIToFP: { u64 c = x.e ? concretize(x, I.w2) : x.c; i64 v = sx(c, I.w2); r = I.w == 32 ? fromD((float)v, 32) : fromD((double)v, 64); break; }
          default: { u64 c = x.e ? concretize(x, I.w2) : x.c; r = I.w == 32 ? fromD((float)c, 32) : fromD((double)c, 64); break; }
        }
        R[I.dst] = r; FR->pc++; break; }
      case O_XVAL: { for (u32 i = 0; i < I.n; ++i) R[I.dst + i] = (i >= I.imm && i < I.imm + I.w2) ? get(I.b + (i - I.imm)) : get(I.a + i); FR->pc++; break; }
      case O_SHUF: { V t[64]; for (u32 i = 0; i < I.n; ++i) t[i] = get((*I.ops)[i]); for (u32 i = 0; i < I.n; ++i) R[I.dst + i] = t[i]; FR->pc++; break; }
      case O_EXTELEM: R[I.dst] = get(I.a + ptrOf(get(I.b))); FR->pc++; break;
      case O_INSELEM: { u64 k = ptrOf(get(I.c)); for (u32 i = 0; i < I.n; ++i) R[I.dst + i] = i == k ? get(I.b) : get(I.a + i); FR->pc++; break; }
      case O_RMW: {
        u64 a = ptrOf(get(I.a)); hbAcquire(a); hbRelease(a); V old = loadInt(a, I.w); const V& v = get(I.b); V nv;
        switch (I.sub) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = binop(K_ADD, old, v, I.w, I); break; case AtomicRMWInst::Sub: nv = binop(K_SUB, old, v, I.w, I); break; case AtomicRMWInst::And: nv = binop(K_AND, old, v, I.w, I); break; case AtomicRMWInst::Or: nv = binop(K_OR, old, v, I.w, I); break; case AtomicRMWInst::Xor: nv = binop(K_XOR, old, v, I.w, I); break; default: unsup("atomicrmw"); }
        storeInt(a, nv, I.w); R[I.dst] = old; FR->pc++; break; }
      case O_CAS: { u64 a = ptrOf(get(I.a)); hbAcquire(a); hbRelease(a); V old = loadInt(a, I.w); V eq = icmp(CmpInst::ICMP_EQ, old, get(I.b), I.w); bool t = eq.e ? branchOn(eq.e) : eq.c; if (t) storeInt(a, get(I.c), I.w); R[I.dst] = old; R[I.dst + 1] = C(t); FR->pc++; break; }
      case O_NOP: FR->pc++; break;
      case O_MULTI: { // 128-bit integers, concrete only
        auto g = [&](u32 o, u32 n) { unsigned __int128 r = 0; for (u32 i = 0; i < n; ++i) { const V& x = get(o + i); r |= (unsigned __int128)(x.e ? concretize(x, x.e->width) : x.c) << (64 * i); } return r; };
        if (I.imm == 3 || I.imm == 4) { const V& x = get(I.a); if (I.imm == 3) { R[I.dst] = x.e ? fromE(mkZext(x.e, 64)) : x; R[I.dst + 1] = C(0); } else { u64 c = x.e ? concretize(x, I.w2) : x.c; i64 v = sx(c, I.w2); R[I.dst] = C((u64)v); R[I.dst + 1] = C(v < 0 ? ~0ull : 0); } FR->pc++; break; }
        unsigned __int128 a = g(I.a, 2), b = g(I.b, 2), r = 0;
        if (I.imm == 1) {
          if ((I.sub == K_UDIV || I.sub == K_SDIV || I.sub == K_UREM || I.sub == K_SREM) && !b) fail("div-by-zero", "division by zero");
          switch (I.sub) { case K_ADD: r = a + b; break; case K_SUB: r = a - b; break; case K_MUL: r = a * b; break; case K_UDIV: r = a / b; break; case K_UREM: r = a % b; break; case K_SDIV: r = (__int128)a / (__int128)b; break; case K_SREM: r = (__int128)a % (__int128)b; break; case K_AND: r = a & b; break; case K_OR: r = a | b; break; case K_XOR: r = a ^ b; break; case K_SHL: r = b < 128 ? a << b : 0; break; case K_LSHR: r = b < 128 ? a >> b : 0; break; default: r = (unsigned __int128)((__int128)a >> (b < 128 ? (int)b : 127)); }
          R[I.dst] = C((u64)r); R[I.dst + 1] = C((u64)(r >> 64));
        } else { bool q; __int128 sa = a, sb = b; switch (I.sub) { case CmpInst::ICMP_EQ: q = a == b; break; case CmpInst::ICMP_NE: q = a != b; break; case CmpInst::ICMP_ULT: q = a < b; break; case CmpInst::ICMP_ULE: q = a <= b; break; case CmpInst::ICMP_UGT: q = a > b; break; case CmpInst::ICMP_UGE: q = a >= b; break; case CmpInst::ICMP_SLT: q = sa < sb; break; case CmpInst::ICMP_SLE: q = sa <= sb; break; case CmpInst::ICMP_SGT: q = sa > sb; break; default: q = sa >= sb; } R[I.dst] = C(q); }
        FR->pc++; break; }
      case O_UNSUP: { string s; raw_string_ostream os(s); I.ll->print(os); unsup("instruction" + s.substr(0, 200)); }
    }
  }
}

// ---------------------------------------------------------------- driver
static string jesc(const string& s) { string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32) o += ' '; else o += c; } return o; }
static u64 g_rng = 88172645463325252ull; static u64 rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng; }
static void pathDone() {
  st.paths++; for (auto& c : S->covers) g_coversReached.insert(c);
  if (S->undefInPC) return; // outcome depends on indeterminate memory: cannot be replayed natively
  Sample s; s.in = inputsOf(S->model); u64 h = 1469598103934665603ull; for (auto& o : S->obs) { if (o.e && (o.e->flags & 1)) s.cmp = false; u64 x = o.e ? evalE(o.e, S->model) : o.c; for (int b = 0; b < 8; ++b) { h ^= (x >> (8 * b)) & 255; h *= 1099511628211ull; } } s.obs = h; s.nobs = S->obs.size();
  // the observation hash is only comparable when every observed value was concrete or evaluated under the model (it is)
  if ((int)g_samples.size() < opt.nsamples) g_samples.push_back(s); else { u64 k = rnd() % st.paths; if (k < (u64)opt.nsamples) g_samples[k] = s; }
}
int main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) {
    string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
    if (a == "--entry") opt.entry = nx(); else if (a == "--out") opt.out = nx(); else if (a == "--timeout") opt.timeout = atof(nx().c_str()); else if (a == "--max-steps") opt.maxSteps = strtoull(nx().c_str(), 0, 10);
    else if (a == "--solver-timeout") opt.solverTimeout = atoi(nx().c_str()); else if (a == "-v") opt.verbose = true; else if (a == "--main-first") g_mainFirst = true; else if (a == "--no-split-index") opt.splitIndex = false; else if (a == "--param") opt.params.push_back(atoll(nx().c_str())); else if (a == "--samples") opt.nsamples = atoi(nx().c_str());
    else if (a == "--replay") { g_replay = true; std::ifstream f(nx()); string n; unsigned long long v; while (f >> n >> v) g_replayVals.push_back((i64)v); } else if (a == "--seed") opt.seed = strtoull(nx().c_str(), 0, 10); else if (a == "--max-viol") opt.maxViol = atoi(nx().c_str()); else if (a == "--max-mem") opt.maxMem = strtoull(nx().c_str(), 0, 10) << 20;
    else opt.bc = a;
  }
  g_t0 = now(); for (u64 i = 0; i < opt.seed % 17; ++i) rnd();
  SMDiagnostic err; g_M = parseIRFile(opt.bc, err, g_ctx); if (!g_M) { err.print("symx", errs()); return 3; }
  g_DL = &g_M->getDataLayout();
  g_uninitPage = (Page*)calloc(1, sizeof(Page)); g_uninitPage->rc = 1 << 20; memset(g_uninitPage->sh, SH_UNINIT, 4096);
  solverInit(); initBuiltins();
  S = new State; S->th.emplace_back(); { Thread& t = S->th[0]; t.sp = 0x1000000; t.spLimit = t.sp + 0x1ff000; }
  for (auto& F : *g_M) getFunc(&F);
  initGlobals(S->mem);
  g_vtClass = ext("_ZTVN10__cxxabiv117__class_type_infoE"); g_vtSi = ext("_ZTVN10__cxxabiv120__si_class_type_infoE"); g_vtVmi = ext("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
  Function* EF = g_M->getFunction(opt.entry); if (!EF) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); return 3; }
  // constructors first: call them from a synthetic worklist
  vector<std::pair<u32, Func*>> ctors;
  if (auto* GC = g_M->getGlobalVariable("llvm.global_ctors")) if (GC->hasInitializer()) if (auto* A = dyn_cast<ConstantArray>(GC->getInitializer())) for (unsigned i = 0; i < A->getNumOperands(); ++i) { auto* s = cast<ConstantStruct>(A->getOperand(i)); if (auto* F = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) ctors.push_back({(u32)cast<ConstantInt>(s->getOperand(0))->getZExtValue(), getFunc(F)}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  T = &S->th[0];
  Func* drv = getFunc(EF);
  // entry frame at the bottom, constructors stacked above it (run first)
  T = &S->th[0]; pushCall(drv, nullptr, 0);
  // model constructor calls as frames that return into the frame below: use a trampoline flag
  int status = 0;
  for (auto& c : ctors) { g_stopDepth = 1; pushCall(c.second, nullptr, 0); try { run1(); } catch (KillPath& k) { if (k.kind != 5) { fprintf(stderr, "symx: constructor %s failed\n", c.second->name.c_str()); for (auto& u : g_unsup) fprintf(stderr, "%s\n", u.c_str()); status = 3; break; } } refresh(); FR->pc = 0; }
  g_stopDepth = 0;
  if (!status) {
    g_stack.push_back(S);
    while (!g_stack.empty()) {
      S = g_stack.back(); g_stack.pop_back();
      int k = 1;
      try { run1(); } catch (KillPath& kp) { k = kp.kind; }
      if (k == 1) pathDone(); else if (k == 0) st.killed++; else if (k == 3) st.incomplete++;
      delete S; S = nullptr;
      if (k == 4 || now() - g_t0 > opt.timeout) { st.incomplete += g_stack.size(); break; }
      if ((int)g_viol.size() >= opt.maxViol) break;
    }
  }
  // ---- report
  FILE* o = opt.out.empty() ? stdout : fopen(opt.out.c_str(), "w");
  set<string> fns; u64 insts = 0; for (auto& f : g_fstore) if (f.executed) { insts += f.code.size(); for (auto* sp : f.sps) { string fn = sp->getFilename().str(); if (fn.find("/repo/") != string::npos || fn.find("stxxl") != string::npos) { size_t p = fn.find("stxxl/bits/"); if (p == string::npos) p = fn.find("lib/"); fns.insert(sp->getName().str() + " @ " + (p == string::npos ? fn : fn.substr(p)) + ":" + std::to_string(sp->getLine())); } } }
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  fprintf(o, "{\n \"entry\": \"%s\", \"paths\": %llu, \"assumed_away\": %llu, \"incomplete\": %llu, \"states\": %llu, \"forks\": %llu, \"max_depth\": %llu, \"instructions\": %llu, \"encoded_insts\": %llu,\n", opt.entry.c_str(), (unsigned long long)st.paths, (unsigned long long)st.killed, (unsigned long long)st.incomplete, (unsigned long long)st.states, (unsigned long long)st.forks, (unsigned long long)st.maxDepth, (unsigned long long)st.steps, (unsigned long long)insts);
  fprintf(o, " \"order_decided\": %llu, \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"solver_s\": %.3f, \"wall_s\": %.3f, \"checks\": %llu, \"const_checks\": %llu, \"check_queries\": %llu, \"undef_reads\": %llu, \"switches\": %llu, \"exprs\": %llu, \"rss_mb\": %ld,\n", (unsigned long long)st.order, (unsigned long long)st.queries, (unsigned long long)st.sat, (unsigned long long)st.unsat, (unsigned long long)st.unknown, st.solver, now() - g_t0, (unsigned long long)st.checks, (unsigned long long)st.constChecks, (unsigned long long)st.checkQueries, (unsigned long long)st.undefReads, (unsigned long long)st.switches, (unsigned long long)g_exprCount, ru.ru_maxrss / 1024);
  fprintf(o, " \"covers\": ["); bool first = true; for (auto& c : g_coversReached) { fprintf(o, "%s\"%s\"", first ? "" : ", ", jesc(c).c_str()); first = false; } fprintf(o, "],\n");
  fprintf(o, " \"unsupported\": ["); first = true; for (auto& c : g_unsup) { fprintf(o, "%s\"%s\"", first ? "" : ", ", jesc(c).c_str()); first = false; } fprintf(o, "],\n");
  fprintf(o, " \"functions\": ["); first = true; for (auto& c : fns) { fprintf(o, "%s\"%s\"", first ? "" : ", ", jesc(c).c_str()); first = false; } fprintf(o, "],\n");
  auto inp = [&](const vector<std::pair<string,u64>>& in) { fprintf(o, "["); bool f = true; for (auto& p : in) { fprintf(o, "%s[\"%s\", %llu]", f ? "" : ", ", jesc(p.first).c_str(), (unsigned long long)p.second); f = false; } fprintf(o, "]"); };
  fprintf(o, " \"samples\": ["); first = true; for (auto& s : g_samples) { fprintf(o, "%s{\"cmp\": %s, \"obs\": \"%016llx\", \"nobs\": %llu, \"inputs\": ", first ? "" : ",\n   ", s.cmp ? "true" : "false", (unsigned long long)s.obs, (unsigned long long)s.nobs); inp(s.in); fprintf(o, "}"); first = false; } fprintf(o, "],\n");
  fprintf(o, " \"violations\": ["); first = true; for (auto& v : g_viol) { fprintf(o, "%s{\"kind\": \"%s\", \"msg\": \"%s\", \"where\": \"%s\", \"undef\": %s, \"trace\": \"%s\", \"inputs\": ", first ? "" : ",\n   ", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.where).c_str(), v.undef ? "true" : "false", jesc(v.trace).c_str()); inp(v.inputs); fprintf(o, "}"); first = false; } fprintf(o, "]\n}\n");
  if (o != stdout) fclose(o);
  fflush(nullptr);
  _exit(status ? status : g_viol.empty() ? 0 : 1);
}
