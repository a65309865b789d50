// External functions, intrinsics and the harness API.  callBuiltin returns 1 if an exception is in flight.
typedef std::function<int(State&, FnInfo*, std::vector<Val>&, DInst&, Val&)> Handler;
static std::vector<std::pair<std::string, Handler>> handlers; static std::map<std::string, int> handlerIdx; static std::vector<std::string> intrinsicNames;
static void reg(const std::string& n, Handler h) { handlerIdx[n] = handlers.size(); handlers.push_back({n, h}); if (n.compare(0, 5, "llvm.") == 0) intrinsicNames.push_back(n); }
#define H [](State& s, FnInfo* fn, std::vector<Val>& a, DInst& d, Val& rv) -> int
static uint32_t getVar(State& s, const std::string& name, uint8_t w, bool fp, int64_t ilo, int64_t ihi, double flo, double fhi, int gran, bool wild) {
  int seq = s.varSeq.size(); char buf[160]; snprintf(buf, 160, "%s|%d|%d|%lld|%lld|%.17g|%.17g|%d|%d", name.c_str(), w, fp, (long long)ilo, (long long)ihi, flo, fhi, gran, wild);
  auto key = std::make_pair(seq, std::string(buf)); auto it = varTable.find(key); uint32_t id;
  if (it == varTable.end()) { VarInfo v; v.name = name; v.w = w; v.fp = fp; v.ilo = ilo; v.ihi = ihi; v.flo = flo; v.fhi = fhi; v.gran = gran; v.wild = wild; v.e = nullptr; v.seq = seq; mkVar(v); id = gVars.size() - 1; varTable[key] = id; } else id = it->second;
  s.varSeq.push_back(id);
  if (s.model.size() <= id) s.model.resize(id + 1, 0);
  VarInfo& v = gVars[id]; uint64_t init;
  if (fp) { double x = 0; if (!wild) { x = std::min(std::max(0.0, flo), fhi); if (gran != GRAN_NONE) { double st = ldexp(1.0, gran); x = ceil(x / st) * st; if (x > fhi) x = floor(fhi / st) * st; } } init = w == 32 ? f2b((float)x) : d2b(x); (void)v; }
  else init = w == 1 ? 0 : (uint64_t)std::min(std::max<int64_t>(0, ilo), ihi) & maskw(w);
  s.model[id] = init;
  return id;
}
static double cd(const Val& v) { if (v.e) vio("unsupported", "symbolic bound"); return b2d(v.c); }
static double cf(const Val& v) { if (v.e) vio("unsupported", "symbolic bound"); return (double)b2f(v.c); }
static Val fun1(State& s, Op o, const Val& a, unsigned w) { if (!a.e) return V(evalOp(o, w, true, 0, w, a.c, 0, 0)); return VE(mk(o, w, true, a.e)); }
static Val vec1(State& s, Op o, const Val& a, unsigned w) { if (a.agg) { std::vector<Val> v; for (auto& x : a.agg->v) v.push_back(fun1(s, o, x, w)); return mkAgg(v); } return fun1(s, o, a, w); }
static Val fun2(State& s, Op o, const Val& a, const Val& b, unsigned w) { if (!a.e && !b.e) return V(evalOp(o, w, true, 0, w, a.c, b.c, 0)); return VE(mk(o, w, true, toEx(a, w, true), toEx(b, w, true))); }
static Val vec2(State& s, Op o, const Val& a, const Val& b, unsigned w) { if (a.agg) { std::vector<Val> v; for (size_t i = 0; i < a.agg->v.size(); i++) v.push_back(fun2(s, o, a.agg->v[i], b.agg->v[i], w)); return mkAgg(v); } return fun2(s, o, a, b, w); }
static Val libm(State& s, int id, const Val& a, const Val& b, unsigned w, bool two) {
  if (!a.e && (!two || !b.e)) return V(evalOp(O_LIBM, w, true, id, w, a.c, b.c, 0));
  if ((id == LM_ASIN || id == LM_ACOS) && a.e && !a.e->wild && (a.e->flo < -1 || a.e->fhi > 1)) {
    // domain split: outside [-1,1] the result is NaN
    Ex* one = mkConst(w, true, w == 32 ? f2b(1.f) : d2b(1.0)); Ex* ab = mk(O_FABS, w, true, a.e); Ex* in = mk(O_FLE, 1, false, ab, one);
    Dec k = decide(s, in); if (k == D_BOTH) throw ForkReq{in, false}; if (k == D_FALSE) return V(w == 32 ? 0x7fc00000ull : 0x7ff8000000000000ull);
    Ex* mone = mkConst(w, true, w == 32 ? f2b(-1.f) : d2b(-1.0));
    Ex* cl = mk(O_FMAX, w, true, mk(O_FMIN, w, true, a.e, one), mone);   // identity on this path, gives the interval
    return VE(mk(O_LIBM, w, true, cl, nullptr, nullptr, id));
  }
  if (id == LM_POW && !b.e) { double e = bToD(b.c, w); if (e == 2.0) return VE(mk(O_FMUL, w, true, a.e, a.e)); if (e == 1.0) return a; }
  return VE(mk(O_LIBM, w, true, toEx(a, w, true), two ? toEx(b, w, true) : nullptr, nullptr, id));
}
static Val intSel(State& s, Op cmp, const Val& a, const Val& b, unsigned w) { // a cmp b ? a : b
  if (!a.e && !b.e) return evalOp(cmp, 1, false, 0, w, a.c & maskw(w), b.c & maskw(w), 0) ? a : b;
  Ex *x = toEx(a, w, false), *y = toEx(b, w, false); return VE(mkIte(mk(cmp, 1, false, x, y), x, y));
}
static bool overflowOp(State& s, const std::string& n, std::vector<Val>& a, unsigned w, Val& rv) {
  // n like "llvm.sadd.with.overflow"
  bool sg = n[5] == 's'; std::string o = n.substr(6, 3); Op op = o == "add" ? O_ADD : o == "sub" ? O_SUB : O_MUL;
  if (!a[0].e && !a[1].e) {
    typedef __int128 i128; i128 x = sg ? (i128)sxt(a[0].c, w) : (i128)(a[0].c & maskw(w)), y = sg ? (i128)sxt(a[1].c, w) : (i128)(a[1].c & maskw(w)); i128 r = op == O_ADD ? x + y : op == O_SUB ? x - y : x * y;
    i128 lo = sg ? -((i128)1 << (w - 1)) : 0, hi = sg ? ((i128)1 << (w - 1)) - 1 : ((i128)1 << w) - 1;
    bool of; if (op == O_MUL && !sg && w == 64) { unsigned __int128 ur = (unsigned __int128)a[0].c * a[1].c; of = (ur >> 64) != 0; rv = mkAgg({V((uint64_t)ur), V(of)}); return true; }
    of = r < lo || r > hi; rv = mkAgg({V((uint64_t)r & maskw(w)), V(of)}); return true;
  }
  Ex *x = toEx(a[0], w, false), *y = toEx(a[1], w, false); Ex* r = mk(op, w, false, x, y); Ex* of;
  if (!sg) { if (op == O_ADD) of = mk(O_ULT, 1, false, r, x); else if (op == O_SUB) of = mk(O_ULT, 1, false, x, y); else { if (x->ilo >= 0 && y->ilo >= 0 && r->ilo >= 0 && (__int128)x->ihi * y->ihi < ((__int128)1 << (w - 1))) of = mkFalse(); else vio("unsupported", "umul overflow"); } }
  else { if (w > 32) { if ((__int128)x->ilo * 2 > INT64_MIN && op != O_MUL && x->ilo > INT64_MIN / 4 && x->ihi < INT64_MAX / 4 && y->ilo > INT64_MIN / 4 && y->ihi < INT64_MAX / 4) of = mkFalse(); else vio("unsupported", "overflow op"); }
    else { Ex* wr = mk(op, 64, false, mk(O_SEXT, 64, false, x), mk(O_SEXT, 64, false, y)); of = mkNot(mk(O_EQ, 1, false, wr, mk(O_SEXT, 64, false, r))); } }
  rv = mkAgg({VE(r), VE(of)}); return true;
}
static void initHandlers() {
  static bool done = false; if (done) return; done = true;
  // ---- harness API
  reg("sym_f32", H { rv = VE(gVars[getVar(s, readStr(s, a[0]), 32, true, 0, 0, cf(a[1]), cf(a[2]), GRAN_NONE, false)].e); return 0; });
  reg("sym_f64", H { rv = VE(gVars[getVar(s, readStr(s, a[0]), 64, true, 0, 0, cd(a[1]), cd(a[2]), GRAN_NONE, false)].e); return 0; });
  reg("sym_f32_grid", H { rv = VE(gVars[getVar(s, readStr(s, a[0]), 32, true, 0, 0, cf(a[1]), cf(a[2]), (int)sxt(a[3].c, 32), false)].e); return 0; });
  reg("sym_f64_grid", H { rv = VE(gVars[getVar(s, readStr(s, a[0]), 64, true, 0, 0, cd(a[1]), cd(a[2]), (int)sxt(a[3].c, 32), false)].e); return 0; });
  reg("sym_f32_any", H { rv = VE(gVars[getVar(s, readStr(s, a[0]), 32, true, 0, 0, -INFINITY, INFINITY, GRAN_NONE, true)].e); return 0; });
  reg("sym_f64_any", H { rv = VE(gVars[getVar(s, readStr(s, a[0]), 64, true, 0, 0, -INFINITY, INFINITY, GRAN_NONE, true)].e); return 0; });
  reg("sym_i32", H { if (a[1].e || a[2].e) vio("unsupported", "symbolic bound"); rv = VE(gVars[getVar(s, readStr(s, a[0]), 32, false, sxt(a[1].c, 32), sxt(a[2].c, 32), 0, 0, 0, false)].e); return 0; });
  reg("sym_i64", H { if (a[1].e || a[2].e) vio("unsupported", "symbolic bound"); rv = VE(gVars[getVar(s, readStr(s, a[0]), 64, false, (int64_t)a[1].c, (int64_t)a[2].c, 0, 0, 0, false)].e); return 0; });
  reg("sym_bool", H { rv = VE(gVars[getVar(s, readStr(s, a[0]), 1, false, 0, 1, 0, 0, 0, false)].e); return 0; });
  reg("sym_concretize", H { rv = V(concretize(s, a[0], 32)); return 0; });
  reg("sym_fork", H { if (!a[0].e) { rv = a[0]; return 0; } Dec k = decide(s, a[0].e); if (k == D_BOTH) throw ForkReq{a[0].e, true}; if (k == D_NONE) throw PathEnd{"infeasible"}; rv = V(k == D_TRUE); return 0; });
  reg("sym_assume", H { if (!a[0].e) { if (!(a[0].c & 1)) throw PathEnd{"assume"}; return 0; } if (!assume(s, a[0].e)) throw PathEnd{"assume"}; return 0; });
  reg("sym_merge", H { s.mergeMode = (int)a[0].c; return 0; });
  reg("sym_is_native", H { rv = V(0); return 0; });
  reg("sym_exit", H { throw PathEnd{"sym_exit"}; return 0; });
  reg("sym_note_d", H { if (gVerbose) std::cerr << "note " << readStr(s, a[0]) << " " << (a[1].e ? showExpr(a[1].e, 12) : std::to_string(b2d(a[1].c))) << (a[1].e ? " [" + std::to_string(a[1].e->flo) + "," + std::to_string(a[1].e->fhi) + "]" : "") << "\n"; return 0; });
  reg("sym_note_i", H { if (gVerbose) std::cerr << "note " << readStr(s, a[0]) << " " << (a[1].e ? showExpr(a[1].e, 12) : std::to_string((int64_t)a[1].c)) << "\n"; return 0; });
  reg("sym_cover", H { std::string n = readStr(s, a[0]); if (gCovers[n] == 0 && !s.modelOk) { if (!confirmModel(s)) { gCovers[n] += 0; return 0; } } if (s.modelOk) gCovers[n]++; return 0; });
  reg("sym_assert", H {
    std::string msg = readStr(s, a[1]); AssertStat& st = gAsserts[msg]; st.checks++;
    if (!a[0].e) {
      if (a[0].c & 1) { st.trivially++; st.proved++; return 0; }
      if (confirmModel(s)) { st.violated++; reportViolation(s, s.model, "assert", msg, true); } else { st.unknown++; if (gVerbose) std::cerr << "unconfirmed concrete-false assert " << msg << " pc=" << s.pc.size() << "\n"; }
      throw PathEnd{"asserted"};
    }
    Ex* n = mkNot(a[0].e); 
    if (inPc(s, a[0].e)) { st.proved++; return 0; }
    Assign m = s.model; SolveR r = solve(s.pc, n, m, true);
    if (r == S_UNSAT) { st.proved++; s.pc.push_back(a[0].e); return 0; }
    bool viol = false;
    if (r == S_SAT) {
      if (satisfies(s.pc, n, m)) viol = true;
      else { // rest of the path condition not satisfied by the model yet
        Assign keep = s.model; bool ok = s.modelOk; std::vector<Ex*> pc = s.pc; s.pc.push_back(n); s.model = m; s.modelOk = false; if (confirmModel(s)) { viol = true; m = s.model; } s.pc = pc; s.model = keep; s.modelOk = ok; }
    }
    if (viol) { st.violated++; reportViolation(s, m, "assert", msg, true); }
    else { st.unknown++; if (gVerbose) std::cerr << "unknown assert (" << r << ") " << msg << ": " << showExpr(a[0].e, gVerbose > 3 ? 20 : gVerbose > 2 ? 9 : 5) << "\n"; if (gVerbose > 2) for (Ex* e : s.pc) std::cerr << "    pc " << showExpr(e, gVerbose > 3 ? 20 : 9) << "\n"; }
    if (!assume(s, a[0].e)) throw PathEnd{"asserted"};
    return 0; });
  // ---- memory
  auto alloc = H { uint64_t n = a[0].e ? concretize(s, a[0], 64) : a[0].c; if (n > (1u << 24)) { if (n > (1ull << 40)) vio("memory", "absurd allocation size"); vio("unsupported", "huge allocation"); } rv = V(allocHeap(s, n)); return 0; };
  for (const char* n : {"_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "malloc"}) reg(n, alloc);
  reg("aligned_alloc", H { rv = V(allocHeap(s, a[1].e ? concretize(s, a[1], 64) : a[1].c)); return 0; });
  reg("posix_memalign", H { uint64_t n = a[2].e ? concretize(s, a[2], 64) : a[2].c; storeSc(s, a[0], 64, false, V(allocHeap(s, n))); rv = V(0); return 0; });
  reg("calloc", H { uint64_t n = a[0].c * a[1].c; uint64_t p = allocHeap(s, n); uint64_t id; int64_t off; Obj* o = objAt(s, p, id, off); std::fill(o->data.begin(), o->data.end(), 0); rv = V(p); return 0; });
  reg("realloc", H { uint64_t n = a[1].c; uint64_t p = allocHeap(s, n); if (a[0].c) { uint64_t id; int64_t off; Obj* o = objAt(s, a[0].c, id, off); if (!o) vio("memory", "realloc of invalid pointer"); copyMem(s, V(p), a[0], std::min<uint64_t>(n, o->size)); s.heap.set(id, Rc<Obj>()); } rv = V(p); return 0; });
  auto dealloc = H { uint64_t p = a[0].e ? concretize(s, a[0], 64) : a[0].c; if (!p) return 0; uint64_t id; int64_t off; Obj* o = objAt(s, p, id, off); if (!o || off != 0 || id >= STACK_BASE_ID) vio("memory", "invalid free / double free"); s.heap.set(id, Rc<Obj>()); return 0; };
  for (const char* n : {"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) reg(n, dealloc);
  auto mcpy = H { uint64_t n = a[2].e ? concretize(s, a[2], 64) : a[2].c; copyMem(s, a[0], a[1], n); rv = a[0]; return 0; };
  reg("llvm.memcpy", mcpy); reg("llvm.memmove", mcpy); reg("memcpy", mcpy); reg("memmove", mcpy);
  auto mset = H { uint64_t n = a[2].e ? concretize(s, a[2], 64) : a[2].c; if (!n) { rv = a[0]; return 0; } Val p = a[0]; if (p.e) p = V(concretize(s, p, 64)); Access ac = resolve(s, p, n, true); Obj* o = objW(s, ac.id); clearSym(o, ac.off, n); Val v = a[1]; if (v.e) { Ex* e = v.e; if (e->w > 8) e = mk(O_TRUNC, 8, false, e); for (uint64_t i = 0; i < n; i++) storeObj(o, ac.off + i, 8, VE(e)); } else memset(&o->data[ac.off], (int)v.c, n); rv = a[0]; return 0; };
  reg("llvm.memset", mset); reg("memset", mset);
  // ---- exceptions
  reg("__cxa_allocate_exception", H { rv = V(allocHeap(s, a[0].c + 16)); return 0; });
  reg("__cxa_free_exception", H { return 0; });
  reg("__cxa_throw", H { s.inflight.obj = a[0].c; s.inflight.ti = a[1].c; return 1; });
  reg("__cxa_begin_catch", H { s.caught.push_back(s.inflight); rv = a[0]; return 0; });
  reg("__cxa_end_catch", H { if (!s.caught.empty()) s.caught.pop_back(); return 0; });
  reg("__cxa_rethrow", H { if (s.caught.empty()) vio("exception", "rethrow"); s.inflight = s.caught.back(); s.caught.pop_back(); return 1; });
  reg("__cxa_get_exception_ptr", H { rv = a[0]; return 0; });
  reg("llvm.eh.typeid.for", H { rv = V(tiSel0(a[0].c)); return 0; });
  auto nop = H { rv = V(0); return 0; };
  reg("__cxa_guard_acquire", H { Val v = loadSc(s, a[0], 8, false); rv = V(v.c ? 0 : 1); return 0; });
  reg("__cxa_guard_release", H { storeSc(s, a[0], 8, false, V(1)); return 0; });
  for (const char* n : {"__cxa_guard_abort", "__cxa_atexit", "__cxa_thread_atexit", "puts", "printf", "fprintf", "putchar", "fputs", "fwrite", "fflush", "putc", "fputc", "vprintf", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "pthread_cond_init", "pthread_cond_destroy", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_cond_wait", "pthread_cond_timedwait", "pthread_mutex_init", "pthread_mutex_destroy", "_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableD1Ev", "_ZNSt18condition_variable10notify_allEv", "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", "_ZNSt6thread4joinEv", "_ZNSt6thread6detachEv", "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", "sched_yield", "usleep", "nanosleep", "__errno_location", "pthread_self", "feraiseexcept", "srand"}) reg(n, nop);
  reg("rand", H { rv = V(12345); return 0; });
  reg("clock", H { rv = V(1000); return 0; });  // wall-clock use for diagnostics only
  reg("pthread_mutex_lock", H { Val k = loadSc(s, addOff(a[0], 16), 32, false); int& l = s.locks[a[0].c]; if (l > 0 && !k.e && k.c == 0) vio("deadlock", "mutex locked twice by the same thread"); l++; rv = V(0); return 0; });
  reg("pthread_mutex_trylock", H { int& l = s.locks[a[0].c]; if (l > 0) { rv = V(16); return 0; } l++; rv = V(0); return 0; });
  reg("pthread_mutex_unlock", H { int& l = s.locks[a[0].c]; if (l > 0) l--; if (!l) s.locks.erase(a[0].c); rv = V(0); return 0; });
  auto dead = H { vio("abort", fn->f->getName().str()); return 0; };
  for (const char* n : {"abort", "_ZSt9terminatev", "__assert_fail", "exit", "_exit", "__cxa_pure_virtual", "_ZSt10unexpectedv", "__clang_call_terminate", "llvm.trap", "llvm.ubsantrap", "__cxa_bad_cast"}) reg(n, dead);
  // ---- libm
  struct L { const char* n; int id; bool two; };
  for (L l : std::initializer_list<L>{{"sin", LM_SIN, 0}, {"cos", LM_COS, 0}, {"tan", LM_TAN, 0}, {"asin", LM_ASIN, 0}, {"acos", LM_ACOS, 0}, {"atan", LM_ATAN, 0}, {"atan2", LM_ATAN2, 1}, {"exp", LM_EXP, 0}, {"log", LM_LOG, 0}, {"pow", LM_POW, 1}, {"fmod", LM_FMOD, 1}, {"hypot", LM_HYPOT, 1}, {"tanh", LM_TANH, 0}, {"exp2", LM_EXP2, 0}, {"log2", LM_LOG2, 0}, {"log10", LM_LOG10, 0}, {"cbrt", LM_CBRT, 0}, {"sinh", LM_SINH, 0}, {"cosh", LM_COSH, 0}}) {
    int id = l.id; bool two = l.two;
    reg(std::string(l.n), [id, two](State& s, FnInfo*, std::vector<Val>& a, DInst& d, Val& rv) { rv = libm(s, id, a[0], two ? a[1] : Val(), 64, two); return 0; });
    reg(std::string(l.n) + "f", [id, two](State& s, FnInfo*, std::vector<Val>& a, DInst& d, Val& rv) { rv = libm(s, id, a[0], two ? a[1] : Val(), 32, two); return 0; });
    std::string in = std::string("llvm.") + l.n;
    if (in == "llvm.sin" || in == "llvm.cos" || in == "llvm.pow" || in == "llvm.exp" || in == "llvm.log" || in == "llvm.exp2" || in == "llvm.log2" || in == "llvm.log10") reg(in, [id, two](State& s, FnInfo*, std::vector<Val>& a, DInst& d, Val& rv) { rv = libm(s, id, a[0], two ? a[1] : Val(), d.w, two); return 0; });
  }
  struct U { const char* n; Op o; };
  for (U u : std::initializer_list<U>{{"floor", O_FFLOOR}, {"ceil", O_FCEIL}, {"trunc", O_FTRUNC}, {"round", O_FROUND}, {"rint", O_FRINT}, {"nearbyint", O_FRINT}, {"fabs", O_FABS}, {"roundeven", O_FRINT}}) {
    Op o = u.o; std::string n = u.n;
    reg("llvm." + n, [o](State& s, FnInfo*, std::vector<Val>& a, DInst& d, Val& rv) { rv = vec1(s, o, a[0], d.w); return 0; });
    reg(n, [o](State& s, FnInfo*, std::vector<Val>& a, DInst& d, Val& rv) { rv = fun1(s, o, a[0], 64); return 0; });
    reg(n + "f", [o](State& s, FnInfo*, std::vector<Val>& a, DInst& d, Val& rv) { rv = fun1(s, o, a[0], 32); return 0; });
  }
  auto sq = [](State& s, const Val& a, unsigned w) -> Val {
    if (!a.e) return V(evalOp(O_FSQRT, w, true, 0, w, a.c, 0, 0));
    Ex* x = a.e; int aux = 0;
    if (x->flo < 0 && !x->wild && !x->nan) { Ex* neg = mk(O_FLT, 1, false, x, mkConst(w, true, 0)); Dec k = decide(s, neg); if (k == D_BOTH) throw ForkReq{neg, false}; if (k == D_TRUE) return V(w == 32 ? 0xffc00000ull : 0xfff8000000000000ull); aux = 1; }
    return VE(mk(O_FSQRT, w, true, x, nullptr, nullptr, aux)); };
  reg("llvm.sqrt", [sq](State& s, FnInfo*, std::vector<Val>& a, DInst& d, Val& rv) { if (a[0].agg) { std::vector<Val> v; for (auto& x : a[0].agg->v) v.push_back(sq(s, x, d.w)); rv = mkAgg(v); } else rv = sq(s, a[0], d.w); return 0; });
  reg("sqrt", [sq](State& s, FnInfo*, std::vector<Val>& a, DInst& d, Val& rv) { rv = sq(s, a[0], 64); return 0; });
  reg("sqrtf", [sq](State& s, FnInfo*, std::vector<Val>& a, DInst& d, Val& rv) { rv = sq(s, a[0], 32); return 0; });
  struct B2 { const char* n; Op o; };
  for (B2 u : std::initializer_list<B2>{{"llvm.minnum", O_FMIN}, {"llvm.maxnum", O_FMAX}, {"llvm.copysign", O_FCOPYSIGN}}) { Op o = u.o; reg(u.n, [o](State& s, FnInfo*, std::vector<Val>& a, DInst& d, Val& rv) { rv = vec2(s, o, a[0], a[1], d.w); return 0; }); }
  for (B2 u : std::initializer_list<B2>{{"fmin", O_FMIN}, {"fmax", O_FMAX}, {"copysign", O_FCOPYSIGN}}) { Op o = u.o;
    reg(u.n, [o](State& s, FnInfo*, std::vector<Val>& a, DInst& d, Val& rv) { rv = fun2(s, o, a[0], a[1], 64); return 0; });
    reg(std::string(u.n) + "f", [o](State& s, FnInfo*, std::vector<Val>& a, DInst& d, Val& rv) { rv = fun2(s, o, a[0], a[1], 32); return 0; }); }
  for (int w : {32, 64}) for (const char* base : {"lround", "llround", "lrint", "llrint"}) { Op o = strstr(base, "round") ? O_FROUND : O_FRINT; std::string n = std::string(base) + (w == 32 ? "f" : "");
    reg(n, [o, w](State& s, FnInfo*, std::vector<Val>& a, DInst& d, Val& rv) { Val r = fun1(s, o, a[0], w); if (!r.e) rv = V(evalOp(O_F2SI, 64, false, 0, w, r.c, 0, 0)); else rv = VE(mk(O_F2SI, 64, false, r.e)); return 0; }); }
  for (const char* n : {"llvm.lround", "llvm.llround", "llvm.lrint", "llvm.llrint"}) { Op o = strstr(n, "round") ? O_FROUND : O_FRINT; reg(n, [o](State& s, FnInfo*, std::vector<Val>& a, DInst& d, Val& rv) { unsigned w = d.I->getOperand(0)->getType()->isFloatTy() ? 32 : 64; Val r = fun1(s, o, a[0], w); if (!r.e) rv = V(evalOp(O_F2SI, 64, false, 0, w, r.c, 0, 0)); else rv = VE(mk(O_F2SI, 64, false, r.e)); return 0; }); }
  reg("llvm.fmuladd", H { auto one = [&](const Val& x, const Val& y, const Val& z) { Val m = fun2(s, O_FMUL, x, y, d.w); return fun2(s, O_FADD, m, z, d.w); }; if (a[0].agg) { std::vector<Val> v; for (size_t i = 0; i < a[0].agg->v.size(); i++) v.push_back(one(a[0].agg->v[i], a[1].agg->v[i], a[2].agg->v[i])); rv = mkAgg(v); } else rv = one(a[0], a[1], a[2]); return 0; });
  reg("llvm.smax", H { rv = intSel(s, O_SLE, a[1], a[0], d.w); if (!sameVal(rv, a[1])) {} else { } if (!a[0].e && !a[1].e) rv = V(sxt(a[0].c, d.w) >= sxt(a[1].c, d.w) ? a[0].c : a[1].c); else { Ex *x = toEx(a[0], d.w, false), *y = toEx(a[1], d.w, false); rv = VE(mkIte(mk(O_SLT, 1, false, x, y), y, x)); } return 0; });
  reg("llvm.smin", H { rv = intSel(s, O_SLT, a[0], a[1], d.w); return 0; });
  reg("llvm.umin", H { rv = intSel(s, O_ULT, a[0], a[1], d.w); return 0; });
  reg("llvm.umax", H { if (!a[0].e && !a[1].e) rv = V(std::max(a[0].c & maskw(d.w), a[1].c & maskw(d.w))); else { Ex *x = toEx(a[0], d.w, false), *y = toEx(a[1], d.w, false); rv = VE(mkIte(mk(O_ULT, 1, false, x, y), y, x)); } return 0; });
  reg("llvm.abs", H { if (!a[0].e) { int64_t x = sxt(a[0].c, d.w); rv = V((uint64_t)(x < 0 ? -x : x) & maskw(d.w)); } else { Ex* x = a[0].e; rv = VE(mkIte(mk(O_SLT, 1, false, x, mkConst(d.w, false, 0)), mk(O_SUB, d.w, false, mkConst(d.w, false, 0), x), x)); } return 0; });
  for (const char* n : {"llvm.sadd.with.overflow", "llvm.uadd.with.overflow", "llvm.ssub.with.overflow", "llvm.usub.with.overflow", "llvm.smul.with.overflow", "llvm.umul.with.overflow"}) { std::string nn = n; reg(n, [nn](State& s, FnInfo*, std::vector<Val>& a, DInst& d, Val& rv) { unsigned w = d.I->getOperand(0)->getType()->getIntegerBitWidth(); overflowOp(s, nn, a, w, rv); return 0; }); }
  reg("llvm.usub.sat", H { if (!a[0].e && !a[1].e) rv = V(a[0].c > a[1].c ? a[0].c - a[1].c : 0); else { Ex *x = toEx(a[0], d.w, false), *y = toEx(a[1], d.w, false); rv = VE(mkIte(mk(O_ULT, 1, false, x, y), mkConst(d.w, false, 0), mk(O_SUB, d.w, false, x, y))); } return 0; });
  reg("llvm.uadd.sat", H { Ex *x = toEx(a[0], d.w, false), *y = toEx(a[1], d.w, false), *r = mk(O_ADD, d.w, false, x, y); rv = VE(mkIte(mk(O_ULT, 1, false, r, x), mkConst(d.w, false, maskw(d.w)), r)); return 0; });
  reg("llvm.ctpop", H { if (a[0].e) vio("unsupported", "ctpop"); rv = V(__builtin_popcountll(a[0].c & maskw(d.w))); return 0; });
  reg("llvm.ctlz", H { if (a[0].e) vio("unsupported", "ctlz"); uint64_t x = a[0].c & maskw(d.w); rv = V(x ? __builtin_clzll(x) - (64 - d.w) : d.w); return 0; });
  reg("llvm.cttz", H { if (a[0].e) vio("unsupported", "cttz"); uint64_t x = a[0].c & maskw(d.w); rv = V(x ? __builtin_ctzll(x) : d.w); return 0; });
  reg("llvm.bswap", H { if (a[0].e) vio("unsupported", "bswap"); rv = V(__builtin_bswap64(a[0].c) >> (64 - d.w)); return 0; });
  auto fsh = [](State& s, std::vector<Val>& a, DInst& d, bool left) -> Val { if (a[2].e) vio("unsupported", "fsh"); unsigned sh = a[2].c % d.w; if (sh == 0) return left ? a[0] : a[1]; Ex *x = toEx(a[0], d.w, false), *y = toEx(a[1], d.w, false); unsigned l = left ? sh : d.w - sh; return VE(mk(O_OR, d.w, false, mk(O_SHL, d.w, false, x, mkConst(d.w, false, l)), mk(O_LSHR, d.w, false, y, mkConst(d.w, false, d.w - l)))); };
  reg("llvm.fshl", [fsh](State& s, FnInfo*, std::vector<Val>& a, DInst& d, Val& rv) { rv = fsh(s, a, d, true); return 0; });
  reg("llvm.fshr", [fsh](State& s, FnInfo*, std::vector<Val>& a, DInst& d, Val& rv) { rv = fsh(s, a, d, false); return 0; });
  reg("llvm.is.fpclass", H {
    unsigned w = d.I->getOperand(0)->getType()->isFloatTy() ? 32 : 64; unsigned m = (unsigned)a[1].c; Ex* x = toEx(a[0], w, true); Ex* r = mkFalse();
    auto k = [&](double v) { return mkConst(w, true, w == 32 ? f2b((float)v) : d2b(v)); };
    if (m & 3) r = mkOr(r, mk(O_FUNO, 1, false, x, x));
    if (m & 4) r = mkOr(r, mk(O_FEQ, 1, false, x, k(-INFINITY))); if (m & 512) r = mkOr(r, mk(O_FEQ, 1, false, x, k(INFINITY)));
    if ((m & 0x1f8) == 0x1f8) r = mkOr(r, mk(O_FLT, 1, false, mk(O_FABS, w, true, x), k(INFINITY)));
    else if (m & 0x1f8) { Ex* t = mkFalse(); Ex* ab = mk(O_FABS, w, true, x); Ex* nz = mk(O_FLT, 1, false, k(0), ab); Ex* norm = mk(O_FLE, 1, false, k(w == 32 ? 0x1p-126 : 0x1p-1022), ab); Ex* fin = mk(O_FLT, 1, false, ab, k(INFINITY)); Ex* neg = mk(O_FLT, 1, false, x, k(0));
      if ((m & 0x60) == 0x60) t = mkOr(t, mk(O_FEQ, 1, false, x, k(0))); else if (m & 0x60) vio("unsupported", "fpclass zero sign");
      if (m & 8) t = mkOr(t, mkAnd(mkAnd(norm, fin), neg)); if (m & 256) t = mkOr(t, mkAnd(mkAnd(norm, fin), mkNot(neg)));
      if (m & 16) t = mkOr(t, mkAnd(mkAnd(nz, mkNot(norm)), neg)); if (m & 128) t = mkOr(t, mkAnd(mkAnd(nz, mkNot(norm)), mkNot(neg))); r = mkOr(r, mkAnd(t, mkNot(mk(O_FUNO, 1, false, x, x)))); }
    rv = VE(r); return 0; });
  for (const char* n : {"llvm.lifetime.start", "llvm.lifetime.end", "llvm.assume", "llvm.experimental.noalias.scope.decl", "llvm.dbg.value", "llvm.dbg.declare", "llvm.dbg.label", "llvm.stackrestore", "llvm.invariant.start", "llvm.invariant.end", "llvm.prefetch", "llvm.donothing", "llvm.var.annotation", "llvm.va_start", "llvm.va_end"}) reg(n, nop);
  reg("llvm.stacksave", nop);
  reg("llvm.expect", H { rv = a[0]; return 0; }); reg("llvm.launder.invariant.group", H { rv = a[0]; return 0; }); reg("llvm.strip.invariant.group", H { rv = a[0]; return 0; }); reg("llvm.threadlocal.address", H { rv = a[0]; return 0; });
  reg("llvm.objectsize", H { rv = V(a[1].c ? 0 : ~0ull); return 0; }); reg("llvm.is.constant", nop);
  auto vred = [](const char* n, Op o, bool fp) { reg(n, [o, fp](State& s, FnInfo*, std::vector<Val>& a, DInst& d, Val& rv) { Val acc; size_t st = 0; Val* vec = &a.back(); if (fp && a.size() == 2) acc = a[0]; else { acc = vec->agg->v[0]; st = 1; } for (size_t i = st; i < vec->agg->v.size(); i++) { if (fp) acc = fun2(s, o, acc, vec->agg->v[i], d.w); else acc = VE(mk(o, d.w, false, toEx(acc, d.w, false), toEx(vec->agg->v[i], d.w, false))); } rv = acc; return 0; }); };
  vred("llvm.vector.reduce.fadd", O_FADD, true); vred("llvm.vector.reduce.fmul", O_FMUL, true); vred("llvm.vector.reduce.add", O_ADD, false); vred("llvm.vector.reduce.or", O_OR, false); vred("llvm.vector.reduce.and", O_AND, false); vred("llvm.vector.reduce.fmin", O_FMIN, true); vred("llvm.vector.reduce.fmax", O_FMAX, true);
}
#undef H
static int builtinId(const std::string& n) {
  initHandlers();
  auto it = handlerIdx.find(n); if (it != handlerIdx.end()) return it->second;
  if (n.compare(0, 5, "llvm.") == 0) { int best = -1; size_t bl = 0; for (auto& k : intrinsicNames) if (n.compare(0, k.size(), k) == 0 && n.size() > k.size() && n[k.size()] == '.' && k.size() > bl) { bl = k.size(); best = handlerIdx[k]; } return best; }
  return -1;
}
static int callBuiltin(State& s, FnInfo* fn, std::vector<Val>& a, DInst& d, Val& rv) {
  if (fn->builtin < 0) fn->builtin = builtinId(fn->f->getName().str());
  if (fn->builtin < 0) {
    std::string n = fn->f->getName().str();
    if (n.compare(0, 5, "_ZNSo") == 0 || n.compare(0, 5, "_ZStl") == 0 || n.compare(0, 6, "_ZNSi") == 0 || n.find("basic_ios") != std::string::npos || n.find("ios_base") != std::string::npos || n.compare(0, 7, "_ZSt16_") == 0) { rv = a.empty() ? V(0) : a[0]; return 0; }
    vio("unsupported", "external function " + llvm::demangle(n));
  }
  return handlers[fn->builtin].second(s, fn, a, d, rv);
}
