// Engine-level primitives: the vp_* harness interface, memory functions,
// the C++ exception ABI, LLVM intrinsics and floating-point functions.
static void BI(const string& n, BFn f) { g_bi[n] = new Builtin{n, f}; }
static u64 argc_(Ctx& c, u32 i) { return concretize(c.a[i], c.a[i].e ? c.a[i].e->width : 64); }
static void advance(Ctx& c) { c.pushed = true; Inst& I = *c.I; if (I.invoke) takeEdge((*I.edges)[0]); else FR->pc++; }
static void setRetIn(State* n, Inst& I, u64 v) {
  Thread& t = n->th[n->cur]; Frame& f = t.fr.back(); t.regs[f.base + I.dst] = C(v);
  if (I.invoke) { const Edge& e = (*I.edges)[0]; vector<V> tmp; for (auto& m : e.mv) tmp.push_back((m.src & CB) ? f.f->consts[m.src & ~CB] : t.regs[f.base + m.src]); for (size_t i = 0; i < tmp.size(); ++i) t.regs[f.base + e.mv[i].dst] = tmp[i]; f.pc = e.pc; } else f.pc++;
}
static void doMemcpy(u64 d, u64 s, u64 n) {
  if (!n) return; if (!S->mem.ok(s, n, false)) memFail(s, n, false); if (!S->mem.ok(d, n, true)) memFail(d, n, true); S->mem.copy(d, s, n);
}
static void doMemset(u64 d, const V& v, u64 n) {
  if (!n) return; if (!S->mem.ok(d, n, true)) memFail(d, n, true);
  if (!v.e) S->mem.fill(d, (u8)v.c, n); else { E b = mkExtract(v.e, 0, 8); for (u64 i = 0; i < n; ++i) S->mem.putSymByte(d + i, b); }
}
static E truth(const V& v) { unsigned w = v.e->width; return w == 1 ? v.e : mkNot(mkBin(K_EQ, mkConst(0, w), v.e)); }
static E byteAt(u64 a) { V v = loadInt(a, 8); return toE(v, 8); }
static void fmath1(const char* n, double (*f)(double)) { BI(n, [f](Ctx& c) { double x; u64 u = argc_(c, 0); memcpy(&x, &u, 8); x = f(x); memcpy(&u, &x, 8); c.ret = C(u); }); }
static void fmath2(const char* n, double (*f)(double, double)) { BI(n, [f](Ctx& c) { double x, y; u64 u = argc_(c, 0), w = argc_(c, 1); memcpy(&x, &u, 8); memcpy(&y, &w, 8); x = f(x, y); memcpy(&u, &x, 8); c.ret = C(u); }); }

static void initBuiltins() {
  // ---- harness interface
  BI("vp_sym", [](Ctx& c) { string n = cstr(argc_(c, 0)); unsigned w = argc_(c, 1); E v = newVar(n, w, false); c.ret = fromE(mkZext(v, 64)); });
  BI("vp_choice", [](Ctx& c) {
    string n = cstr(argc_(c, 0)); u64 k = argc_(c, 1); E v = newVar(n, 32, false);
    if (v->kind == K_CONST) { c.ret = C(v->cval); return; }
    for (u64 i = k; i-- > 1; ) { State* o = forkState(S); o->model[v->cval] = i; addPC(o, mkBin(K_EQ, mkConst(i, 32), v)); setRetIn(o, *c.I, i); g_stack.push_back(o); }
    S->model[v->cval] = 0; addPC(S, mkBin(K_EQ, mkConst(0, 32), v)); c.ret = C(0); });
  BI("vp_assume", [](Ctx& c) {
    V v = c.a[0]; if (!v.e) { if (!(v.c & 0xffffffff)) throw KillPath{0}; return; }
    E t = simp(S, truth(v)); if (t->kind == K_CONST) { if (!t->cval) throw KillPath{0}; return; }
    if (!evalM(S, t)) { vector<u64> m; if (!solveSat(S, t, &m)) throw KillPath{0}; S->model = m; }
    addPC(S, t); });
  BI("vp_check", [](Ctx& c) {
    V v = c.a[0]; string msg = cstr(argc_(c, 1)); st.checks++;
    if (!v.e) { st.constChecks++; if (!(v.c & 0xffffffff)) fail("check", msg); return; }
    E t = simp(S, truth(v)); if (t->kind == K_CONST) { st.constChecks++; if (!t->cval) fail("check", msg); return; }
    bool ud = t->flags & 1;
    if (!evalM(S, t)) { reportViolation("check", msg, S->model, ud); throw KillPath{2}; }
    vector<u64> m; st.checkQueries++; if (solveSat(S, mkNot(t), &m)) { reportViolation("check", msg, m, ud); throw KillPath{2}; }
    addPC(S, t); });
  BI("vp_fail", [](Ctx& c) { fail("check", cstr(argc_(c, 0))); });
  BI("vp_cover", [](Ctx& c) { string s = cstr(argc_(c, 0)); if (std::find(S->covers.begin(), S->covers.end(), s) == S->covers.end()) S->covers.push_back(s); });
  BI("vp_observe", [](Ctx& c) { V v = c.a[0]; S->obs.push_back(v); });
  BI("vp_param", [](Ctx& c) { u64 i = argc_(c, 0); c.ret = C(i < opt.params.size() ? (u64)opt.params[i] : argc_(c, 1)); });
  BI("vp_concretize", [](Ctx& c) { c.ret = C(argc_(c, 0)); });
  BI("vp_is_symbolic", [](Ctx& c) { c.ret = C(c.a[0].e != nullptr); });
  BI("vp_native", [](Ctx& c) { c.ret = C(0); });
  BI("vp_live_heap", [](Ctx& c) { c.ret = C(S->liveHeap); });
  BI("vp_explore", [](Ctx& c) { S->explore = argc_(c, 0); S->preempt = argc_(c, 1); });
  BI("vp_debug", [](Ctx& c) { string s = cstr(argc_(c, 0)); V v = c.a[1]; fprintf(stderr, "[debug] %s %s\n", s.c_str(), v.e ? exprStr(v.e).c_str() : std::to_string((i64)v.c).c_str()); });
  BI("vp_done", [](Ctx& c) { throw KillPath{1}; });
  // ---- threads
  BI("vp_thread_create", [](Ctx& c) {
    u64 fp = argc_(c, 0); V arg = c.a[1]; auto it = g_funcAt.find(fp); if (it == g_funcAt.end()) fail("memory", "bad thread entry");
    int id = S->th.size(); c.ret = C(id); advance(c); // S->th may reallocate
    R[c.I->dst] = C(id);
    { VC& me = myVC(); VC ch = me; if ((int)ch.size() <= id) ch.resize(id + 1); ch[id] = 1; if ((int)S->tvc.size() <= id) S->tvc.resize(id + 1); S->tvc[id] = ch; S->tvc[S->cur][S->cur]++; }
    int cur = S->cur; S->th.emplace_back(); Thread& t = S->th.back(); t.sp = 0x1000000 + (u64)id * 0x200000; t.spLimit = t.sp + 0x1ff000; if (id >= 50) unsup("too many threads");
    S->cur = id; T = &t; pushCall(it->second, &arg, 1); S->cur = cur; refresh(); preemptPoint(); });
  BI("vp_hb_acquire", [](Ctx& c) { hbAcquire(argc_(c, 0)); });
  BI("vp_hb_release", [](Ctx& c) { hbRelease(argc_(c, 0)); });
  BI("vp_races", [](Ctx& c) { g_races = argc_(c, 0); });
  BI("vp_thread_self", [](Ctx& c) { c.ret = C(S->cur); });
  BI("vp_thread_block", [](Ctx& c) { u64 a = argc_(c, 0); advance(c); T->status = 1; T->blockOn = a; schedPick(true); });
  BI("vp_thread_wake", [](Ctx& c) { u64 a = argc_(c, 0); i64 n = (int)argc_(c, 1);
    // FIFO for n==1 among waiters unless exploring, where the woken thread is a choice
    vector<int> w; for (size_t i = 0; i < S->th.size(); ++i) if (S->th[i].status == 1 && S->th[i].blockOn == a) w.push_back(i);
    if (n < 0) { for (int i : w) { S->th[i].status = 0; S->th[i].blockOn = 0; } return; }
    if (!w.empty()) { int i = w[n >= 1000 ? (n - 1000) % w.size() : 0]; S->th[i].status = 0; S->th[i].blockOn = 0; } });
  BI("vp_thread_join", [](Ctx& c) { u64 id = argc_(c, 0); if (id >= S->th.size()) fail("memory", "join of unknown thread"); if (S->th[id].status == 2) { if (id < S->tvc.size()) { VC o = S->tvc[id]; vcJoin(myVC(), o); } c.ret = C(S->th[id].retval); return; }
    T->status = 1; T->blockOn = 0x100000000ull + id; c.pushed = true; schedPick(true); });
  BI("vp_sched_point", [](Ctx& c) { advance(c); preemptPoint(); });
  BI("vp_slice", [](Ctx& c) { c.ret = C(S->slice); });
  BI("vp_give_way", [](Ctx& c) { advance(c); int n = S->th.size(); for (int k = 1; k < n; ++k) { int i = (S->cur + k) % n; if (S->th[i].status == 0) { S->cur = i; S->slice++; refresh(); break; } } });
  BI("vp_yield", [](Ctx& c) { advance(c); vector<int> o; int n = S->th.size(); for (int k = 1; k <= n; ++k) { int i = (S->cur + k) % n; if (S->th[i].status == 0) o.push_back(i); } int was = S->cur; S->cur = schedChoose(o); if (S->cur != was) S->slice++; refresh(); });
  // ---- heap
  BI("malloc", [](Ctx& c) { c.ret = C(gmalloc(argc_(c, 0))); });
  BI("calloc", [](Ctx& c) { u64 a = argc_(c, 0), b = argc_(c, 1); u64 p = gmalloc(a * b); if (p) S->mem.fill(p, 0, a * b); c.ret = C(p); });
  BI("free", [](Ctx& c) { gfree(argc_(c, 0)); });
  BI("realloc", [](Ctx& c) { u64 p = argc_(c, 0), n = argc_(c, 1); if (!p) { c.ret = C(gmalloc(n)); return; } u64 o = hdr(p, 16); if (hdr(p, 8) != 0xA110C8EDull) fail("memory", "realloc of invalid pointer");
    if (n && n <= o) { Page* g = S->mem.wr(p - 16); memcpy(g->data + ((p - 16) & 4095), &n, 8); S->mem.setShadow(p + n, o - n, SH_NONE); c.ret = C(p); return; } // like glibc: shrinking stays in place
    u64 q = gmalloc(n); if (!q) { c.ret = C(0); return; } u64 k = std::min(o, n); S->mem.copyFwd(q, p, k); gfree(p); c.ret = C(q); });
  auto memal = [](Ctx& c, u64 al, u64 n) { u64 top = S->mem.heapTop; S->mem.heapTop = (top + al + 64) / al * al + al - 32; (void)n; u64 p = gmalloc(n < 2048 ? n : n); return p; };
  (void)memal;
  BI("posix_memalign", [](Ctx& c) { u64 pp = argc_(c, 0), al = argc_(c, 1), n = argc_(c, 2); // place so that the block is aligned
    u64 top = S->mem.heapTop; u64 want = ((top + 64 + al - 1) / al) * al; S->mem.heapTop = want - 32; u64 p;
    { u64 a = want; S->mem.heapTop = a + n + 48; Page* pg = S->mem.wr(a - 16); memcpy(pg->data + ((a - 16) & 4095), &n, 8); pg = S->mem.wr(a - 8); u64 mark = 0xA110C8EDull; memcpy(pg->data + ((a - 8) & 4095), &mark, 8); S->mem.setShadow(a, n, SH_UNINIT); S->liveHeap++; p = a; }
    storeInt(pp, C(p), 64); c.ret = C(0); });
  BI("malloc_usable_size", [](Ctx& c) { u64 p = argc_(c, 0); c.ret = C(p ? hdr(p, 16) : 0); });
  // ---- memory functions
  BI("memcpy", [](Ctx& c) { u64 d = argc_(c, 0), s = argc_(c, 1), n = argc_(c, 2); doMemcpy(d, s, n); if (c.I->race && RACING) { raceAccess(s, n, false, c.I->ll); raceAccess(d, n, true, c.I->ll); } c.ret = C(d); });
  g_bi["memmove"] = g_bi["memcpy"];
  BI("memset", [](Ctx& c) { u64 d = argc_(c, 0), n = argc_(c, 2); doMemset(d, c.a[1], n); if (c.I->race && RACING) raceAccess(d, n, true, c.I->ll); c.ret = C(d); });
  BI("memcmp", [](Ctx& c) { u64 a = argc_(c, 0), b = argc_(c, 1), n = argc_(c, 2); E r = nullptr; vector<std::pair<E,E>> bs;
    for (u64 i = 0; i < n; ++i) { E x = byteAt(a + i), y = byteAt(b + i); if (x == y) continue; bs.push_back({x, y}); if (x->kind == K_CONST && y->kind == K_CONST) break; }
    r = mkConst(0, 32); for (size_t i = bs.size(); i-- > 0; ) { E x = bs[i].first, y = bs[i].second; r = mkIte(mkBin(K_EQ, x, y), r, mkBin(K_SUB, mkZext(x, 32), mkZext(y, 32))); }
    c.ret = fromE(r); });
  g_bi["bcmp"] = g_bi["memcmp"];
  // ---- process end
  BI("abort", [](Ctx& c) { fail("abort", "abort() called"); });
  BI("_ZSt9terminatev", [](Ctx& c) { fail("terminate", "std::terminate() called"); });
  BI("__cxa_pure_virtual", [](Ctx& c) { fail("abort", "pure virtual call"); });
  BI("__assert_fail", [](Ctx& c) { fail("assert", cstr(argc_(c, 0)) + " at " + cstr(argc_(c, 1)) + ":" + std::to_string(argc_(c, 2))); });
  BI("exit", [](Ctx& c) { fail("exit", "exit() called"); }); g_bi["_exit"] = g_bi["exit"];
  BI("__cxa_atexit", [](Ctx& c) { c.ret = C(0); });
  // ---- exceptions
  BI("__cxa_allocate_exception", [](Ctx& c) { u64 n = argc_(c, 0); u64 p = gmalloc(n + 32); S->liveHeap--; S->mem.fill(p, 0, 32); c.ret = C(p + 32); });
  BI("__cxa_free_exception", [](Ctx& c) { });
  BI("__cxa_throw", [](Ctx& c) { u64 o = argc_(c, 0), ti = argc_(c, 1), d = argc_(c, 2); storeInt(o - 32, C(ti), 64); storeInt(o - 24, C(d), 64); storeInt(o - 16, C(0), 64); storeInt(o - 8, C(0), 64); c.pushed = true; unwind(o); });
  BI("__cxa_begin_catch", [](Ctx& c) { u64 o = argc_(c, 0); storeInt(o - 16, C(rd64(o - 16) + 1), 64); T->caught.push_back(o); c.ret = C(T->adj ? T->adj : o); T->adj = 0; });
  BI("__cxa_get_exception_ptr", [](Ctx& c) { u64 o = argc_(c, 0); c.ret = C(T->adj ? T->adj : o); });
  BI("__cxa_end_catch", [](Ctx& c) {
    if (T->caught.empty()) return; u64 o = T->caught.back(); T->caught.pop_back(); u64 n = rd64(o - 16); if (n) storeInt(o - 16, C(n - 1), 64);
    if (rd64(o - 8)) { storeInt(o - 8, C(0), 64); return; } // was rethrown
    u64 d = rd64(o - 24); if (n == 1 && d) { auto it = g_funcAt.find(d); if (it != g_funcAt.end() && !it->second->isDecl) { V a = C(o); c.pushed = true; pushCall(it->second, &a, 1); } } });
  BI("__cxa_rethrow", [](Ctx& c) { if (T->caught.empty()) fail("terminate", "rethrow without exception"); u64 o = T->caught.back(); storeInt(o - 8, C(1), 64); c.pushed = true; unwind(o); });
  BI("__cxa_call_unexpected", [](Ctx& c) { fail("terminate", "unexpected exception"); });
  BI("_ZSt18uncaught_exceptionv", [](Ctx& c) { c.ret = C(0); }); BI("_ZSt19uncaught_exceptionsv", [](Ctx& c) { c.ret = C(0); });
  BI("__dynamic_cast", [](Ctx& c) {
    u64 p = argc_(c, 0), dst = argc_(c, 2); if (!p) { c.ret = C(0); return; }
    u64 vp = rd64(p); i64 off = (i64)rd64(vp - 16); u64 ti = rd64(vp - 8); u64 full = p + off, r;
    c.ret = C(upcast(ti, dst, full, r) ? r : 0); });
  // ---- floating point
  fmath1("sqrt", sqrt); fmath1("log", log); fmath1("log2", log2); fmath1("log10", log10); fmath1("exp", exp); fmath1("ceil", ceil); fmath1("floor", floor); fmath1("fabs", fabs); fmath1("round", round); fmath1("trunc", trunc); fmath1("sin", sin); fmath1("cos", cos);
  fmath2("pow", pow); fmath2("fmod", fmod);
}
static const Builtin* findBuiltin(const string& n, Function* F) {
  auto it = g_bi.find(n); if (it == g_bi.end()) return nullptr; return it->second;
}
static V minmax(const V& a, const V& b, unsigned w, int p, bool pickA) {
  V c = p == 0 ? V{(u64)(a.c < b.c), nullptr} : V{(u64)(sx(a.c, w) < sx(b.c, w)), nullptr};
  if (a.e || b.e) { E x = toE(a, w), y = toE(b, w); E lt = mkBin(p == 0 ? K_ULT : K_SLT, x, y); return fromE(pickA ? mkIte(lt, x, y) : mkIte(lt, y, x)); }
  return pickA ? (c.c ? a : b) : (c.c ? b : a);
}
static const Builtin* intrinsicBuiltin(Function* F, const CallBase* CBI) {
  static map<string, Builtin*> cache; string n = F->getName().str(); auto it = cache.find(n); if (it != cache.end()) return it->second;
  BFn f; unsigned w = CBI->getType()->isVoidTy() || CBI->getType()->isStructTy() ? (CBI->arg_size() ? Decoder::tw(CBI->getArgOperand(0)->getType()) : 0) : Decoder::tw(CBI->getType());
  bool vecT = CBI->getType()->isVectorTy();
  switch (F->getIntrinsicID()) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::var_annotation: case Intrinsic::prefetch: case Intrinsic::vaend: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stackrestore: f = [](Ctx& c) {}; break;
    case Intrinsic::stacksave: f = [](Ctx& c) { c.ret = C(0); }; break;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: f = [](Ctx& c) { u64 d = argc_(c, 0), s = argc_(c, 1), n = argc_(c, 2); doMemcpy(d, s, n); if (c.I->race && RACING) { raceAccess(s, n, false, c.I->ll); raceAccess(d, n, true, c.I->ll); } }; break;
    case Intrinsic::memset: f = [](Ctx& c) { u64 d = argc_(c, 0), n = argc_(c, 2); doMemset(d, c.a[1], n); if (c.I->race && RACING) raceAccess(d, n, true, c.I->ll); }; break;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation: f = [](Ctx& c) { c.ret = c.a[0]; }; break;
    case Intrinsic::is_constant: f = [](Ctx& c) { c.ret = C(0); }; break;
    case Intrinsic::objectsize: f = [](Ctx& c) { c.ret = C(~0ull); }; break;
    case Intrinsic::trap: case Intrinsic::debugtrap: f = [](Ctx& c) { fail("abort", "trap"); }; break;
    case Intrinsic::eh_typeid_for: f = [](Ctx& c) { c.ret = C(tiId(argc_(c, 0))); }; break;
    case Intrinsic::vastart: f = [](Ctx& c) { u64 l = argc_(c, 0); storeInt(l, C(48), 32); storeInt(l + 4, C(304), 32); storeInt(l + 8, C(FR->va), 64); storeInt(l + 16, C(0), 64); }; break;
    case Intrinsic::vacopy: f = [](Ctx& c) { u64 d = argc_(c, 0), s = argc_(c, 1); doMemcpy(d, s, 24); }; break;
    case Intrinsic::umin: f = [w](Ctx& c) { c.ret = minmax(c.a[0], c.a[1], w, 0, true); }; break;
    case Intrinsic::umax: f = [w](Ctx& c) { c.ret = minmax(c.a[0], c.a[1], w, 0, false); }; break;
    case Intrinsic::smin: f = [w](Ctx& c) { c.ret = minmax(c.a[0], c.a[1], w, 1, true); }; break;
    case Intrinsic::smax: f = [w](Ctx& c) { c.ret = minmax(c.a[0], c.a[1], w, 1, false); }; break;
    case Intrinsic::abs: f = [w](Ctx& c) { V a = c.a[0]; if (!a.e) { c.ret = C((sx(a.c, w) < 0 ? 0 - a.c : a.c) & maskw(w)); return; } c.ret = fromE(mkIte(mkBin(K_SLT, a.e, mkConst(0, w)), mkBin(K_SUB, mkConst(0, w), a.e), a.e)); }; break;
    case Intrinsic::bswap: f = [w](Ctx& c) { V a = c.a[0]; if (!a.e) { u64 r = 0; for (unsigned i = 0; i < w / 8; ++i) r |= ((a.c >> (8 * i)) & 255) << (w - 8 - 8 * i); c.ret = C(r); return; } E r = nullptr; for (unsigned i = 0; i < w / 8; ++i) { E b = mkExtract(a.e, 8 * i, 8); r = r ? mkConcat(r, b) : b; } c.ret = fromE(r); }; break;
    case Intrinsic::ctpop: f = [w](Ctx& c) { V a = c.a[0]; if (!a.e) { c.ret = C(__builtin_popcountll(a.c)); return; } E r = mkConst(0, w); for (unsigned i = 0; i < w; ++i) r = mkBin(K_ADD, r, mkZext(mkExtract(a.e, i, 1), w)); c.ret = fromE(r); }; break;
    case Intrinsic::ctlz: f = [w](Ctx& c) { V a = c.a[0]; if (!a.e) { c.ret = C(a.c ? __builtin_clzll(a.c) - (64 - w) : w); return; } E r = mkConst(w, w); for (unsigned i = 0; i < w; ++i) r = mkIte(mkExtract(a.e, i, 1), mkConst(w - 1 - i, w), r); c.ret = fromE(r); }; break;
    case Intrinsic::cttz: f = [w](Ctx& c) { V a = c.a[0]; if (!a.e) { c.ret = C(a.c ? __builtin_ctzll(a.c) : w); return; } E r = mkConst(w, w); for (unsigned i = w; i-- > 0; ) r = mkIte(mkExtract(a.e, i, 1), mkConst(i, w), r); c.ret = fromE(r); }; break;
    case Intrinsic::fshl: case Intrinsic::fshr: { bool l = F->getIntrinsicID() == Intrinsic::fshl; f = [w, l](Ctx& c) { V s = c.a[2]; u64 k = (s.e ? concretize(s, w) : s.c) % w; if (!k) { c.ret = l ? c.a[0] : c.a[1]; return; } E a = toE(c.a[0], w), b = toE(c.a[1], w); unsigned sh = l ? k : w - k; c.ret = fromE(mkConcat(mkExtract(a, 0, w - sh), mkExtract(b, w - sh, sh))); }; break; }
    case Intrinsic::uadd_with_overflow: f = [w](Ctx& c) { E a = toE(c.a[0], w), b = toE(c.a[1], w); E r = mkBin(K_ADD, a, b); c.ret = fromE(r); c.ret2 = fromE(mkBin(K_ULT, r, a)); }; break;
    case Intrinsic::usub_with_overflow: f = [w](Ctx& c) { E a = toE(c.a[0], w), b = toE(c.a[1], w); c.ret = fromE(mkBin(K_SUB, a, b)); c.ret2 = fromE(mkBin(K_ULT, a, b)); }; break;
    case Intrinsic::sadd_with_overflow: f = [w](Ctx& c) { E a = toE(c.a[0], w), b = toE(c.a[1], w), z = mkConst(0, w); E r = mkBin(K_ADD, a, b); c.ret = fromE(r); E ov = mkBin(K_AND, mkBin(K_EQ, mkBin(K_SLT, a, z), mkBin(K_SLT, b, z)), mkNot(mkBin(K_EQ, mkBin(K_SLT, r, z), mkBin(K_SLT, a, z)))); c.ret2 = fromE(ov); }; break;
    case Intrinsic::ssub_with_overflow: f = [w](Ctx& c) { E a = toE(c.a[0], w), b = toE(c.a[1], w), z = mkConst(0, w); E r = mkBin(K_SUB, a, b); c.ret = fromE(r); E ov = mkBin(K_AND, mkNot(mkBin(K_EQ, mkBin(K_SLT, a, z), mkBin(K_SLT, b, z))), mkNot(mkBin(K_EQ, mkBin(K_SLT, r, z), mkBin(K_SLT, a, z)))); c.ret2 = fromE(ov); }; break;
    case Intrinsic::umul_with_overflow: f = [w](Ctx& c) { V x = c.a[0], y = c.a[1]; if (!x.e && !y.e) { unsigned __int128 p = (unsigned __int128)x.c * y.c; c.ret = C((u64)p & maskw(w)); c.ret2 = C(p > maskw(w)); return; }
        E a = toE(x, w), b = toE(y, w); if (w <= 32) { E p = mkBin(K_MUL, mkZext(a, 2 * w), mkZext(b, 2 * w)); c.ret = fromE(mkExtract(p, 0, w)); c.ret2 = fromE(mkNot(mkBin(K_EQ, mkConst(0, w), mkExtract(p, w, w)))); return; }
        if (y.e && !x.e) std::swap(x, y), std::swap(a, b); u64 k = y.e ? concretize(y, w) : y.c; c.ret = fromE(mkBin(K_MUL, a, mkConst(k, w))); c.ret2 = k ? fromE(mkBin(K_ULT, mkConst(maskw(w) / k, w), a)) : C(0); }; break;
    case Intrinsic::smul_with_overflow: f = [w](Ctx& c) { V x = c.a[0], y = c.a[1]; if (x.e || y.e) { x = C(concretize(x, w)); y = C(concretize(y, w)); } __int128 p = (__int128)sx(x.c, w) * sx(y.c, w); c.ret = C((u64)p & maskw(w)); c.ret2 = C(p != (__int128)sx((u64)p & maskw(w), w)); }; break;
    case Intrinsic::usub_sat: f = [w](Ctx& c) { E a = toE(c.a[0], w), b = toE(c.a[1], w); c.ret = fromE(mkIte(mkBin(K_ULT, a, b), mkConst(0, w), mkBin(K_SUB, a, b))); }; break;
    case Intrinsic::uadd_sat: f = [w](Ctx& c) { E a = toE(c.a[0], w), b = toE(c.a[1], w); E r = mkBin(K_ADD, a, b); c.ret = fromE(mkIte(mkBin(K_ULT, r, a), mkConst(maskw(w), w), r)); }; break;
#define FM1(ID, fn) case Intrinsic::ID: f = [w](Ctx& c) { u64 u = argc_(c, 0); if (w == 32) { float x; u32 v = u; memcpy(&x, &v, 4); x = fn(x); memcpy(&v, &x, 4); c.ret = C(v); } else { double x; memcpy(&x, &u, 8); x = fn(x); memcpy(&u, &x, 8); c.ret = C(u); } }; break;
    FM1(sqrt, sqrt) FM1(floor, floor) FM1(ceil, ceil) FM1(fabs, fabs) FM1(log, log) FM1(log2, log2) FM1(log10, log10) FM1(exp, exp) FM1(round, round) FM1(trunc, trunc) FM1(rint, rint) FM1(nearbyint, nearbyint)
    case Intrinsic::fmuladd: case Intrinsic::fma: f = [w](Ctx& c) { double x[3]; for (int i = 0; i < 3; ++i) { u64 u = argc_(c, i); if (w == 32) { float y; u32 v = u; memcpy(&y, &v, 4); x[i] = y; } else memcpy(&x[i], &u, 8); } double r = x[0] * x[1] + x[2]; if (w == 32) { float y = r; u32 v; memcpy(&v, &y, 4); c.ret = C(v); } else { u64 u; memcpy(&u, &r, 8); c.ret = C(u); } }; break;
    case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::pow: { auto id = F->getIntrinsicID(); f = [w, id](Ctx& c) { double x[2]; for (int i = 0; i < 2; ++i) { u64 u = argc_(c, i); if (w == 32) { float y; u32 v = u; memcpy(&y, &v, 4); x[i] = y; } else memcpy(&x[i], &u, 8); } double r = id == Intrinsic::minnum ? fmin(x[0], x[1]) : id == Intrinsic::maxnum ? fmax(x[0], x[1]) : pow(x[0], x[1]); if (w == 32) { float y = r; u32 v; memcpy(&v, &y, 4); c.ret = C(v); } else { u64 u; memcpy(&u, &r, 8); c.ret = C(u); } }; break; }
    default: cache[n] = nullptr; return nullptr;
  }
  if (vecT && !(F->getIntrinsicID() == Intrinsic::expect)) { cache[n] = nullptr; return nullptr; }
  if (w == 0 && false) return nullptr;
  Builtin* b = new Builtin{n, f}; cache[n] = b; return b;
}
