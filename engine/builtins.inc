// -*- C++ -*-  models of runtime functions and intrinsics
enum BI {
  BI_NONE = 0, BI_SYM_BYTES, BI_SYM_ASSUME, BI_SYM_ASSERT, BI_SYM_EQUAL, BI_SYM_REACH, BI_SYM_HASH, BI_SYM_CONC, BI_SYM_NOMERGE, BI_SYM_INIT, BI_SYM_CHOICE, BI_SYM_SAME, BI_CO_NEW, BI_CO_SWITCH, BI_SYM_NOTE,
  BI_MALLOC, BI_CALLOC, BI_REALLOC, BI_FREE, BI_NEW, BI_DELETE, BI_MEMCPY, BI_MEMMOVE, BI_MEMSET, BI_MEMCMP, BI_BCMP, BI_STRLEN, BI_MEMCHR,
  BI_UMIN, BI_UMAX, BI_SMIN, BI_SMAX, BI_ABS, BI_FSHL, BI_FSHR, BI_BSWAP, BI_CTPOP, BI_CTLZ, BI_CTTZ, BI_BITREV, BI_UADDSAT, BI_USUBSAT,
  BI_UADDO, BI_USUBO, BI_UMULO, BI_SADDO, BI_SSUBO, BI_SMULO, BI_OBJSIZE, BI_ISCONST, BI_STACKSAVE, BI_TYPEID, BI_EXPECT, BI_TRAP, BI_FMATH1, BI_FMATH2,
  BI_VECRED, BI_UCMP, BI_SCMP, BI_PTRMASK,
  BI_CXA_ALLOC, BI_CXA_THROW, BI_CXA_BEGIN, BI_CXA_END, BI_CXA_RETHROW, BI_CXA_GETPTR, BI_CXA_FREE, BI_GUARD_ACQ, BI_GUARD_REL, BI_IGNORE0, BI_UNWIND_RESUME, BI_TERMINATE,
  BI_ABORT, BI_EXIT, BI_RS_ALLOC, BI_RS_ALLOCZ, BI_RS_DEALLOC, BI_RS_REALLOC, BI_PANIC, BI_PUREVIRT, BI_ERRNO, BI_THREADID, BI_FSAT, BI_UNCAUGHT, BI_CLZI
};
static vector<string> biName; // builtin detail (full symbol), index = builtin id >> 8
static int builtinId(const string &n) {
  static const std::map<string, int> ex = {
    {"sym_bytes", BI_SYM_BYTES}, {"sym_assume", BI_SYM_ASSUME}, {"sym_assert", BI_SYM_ASSERT}, {"sym_equal", BI_SYM_EQUAL}, {"sym_reach", BI_SYM_REACH}, {"sym_hash", BI_SYM_HASH},
    {"sym_concretize", BI_SYM_CONC}, {"sym_nomerge", BI_SYM_NOMERGE}, {"sym_assert_init", BI_SYM_INIT}, {"sym_note", BI_SYM_NOTE}, {"sym_choice", BI_SYM_CHOICE}, {"sym_same", BI_SYM_SAME}, {"sym_co_new", BI_CO_NEW}, {"sym_co_switch", BI_CO_SWITCH},
    {"malloc", BI_MALLOC}, {"calloc", BI_CALLOC}, {"realloc", BI_REALLOC}, {"free", BI_FREE}, {"_Znwm", BI_NEW}, {"_Znam", BI_NEW}, {"_ZnwmSt11align_val_t", BI_NEW}, {"_ZnamSt11align_val_t", BI_NEW}, {"_ZnwmRKSt9nothrow_t", BI_NEW},
    {"_ZdlPv", BI_DELETE}, {"_ZdaPv", BI_DELETE}, {"_ZdlPvm", BI_DELETE}, {"_ZdaPvm", BI_DELETE}, {"_ZdlPvSt11align_val_t", BI_DELETE}, {"_ZdlPvmSt11align_val_t", BI_DELETE},
    {"memcpy", BI_MEMCPY}, {"memmove", BI_MEMMOVE}, {"memset", BI_MEMSET}, {"memcmp", BI_MEMCMP}, {"bcmp", BI_BCMP}, {"strlen", BI_STRLEN}, {"memchr", BI_MEMCHR},
    {"__cxa_allocate_exception", BI_CXA_ALLOC}, {"__cxa_throw", BI_CXA_THROW}, {"__cxa_begin_catch", BI_CXA_BEGIN}, {"__cxa_end_catch", BI_CXA_END}, {"__cxa_rethrow", BI_CXA_RETHROW},
    {"__cxa_get_exception_ptr", BI_CXA_GETPTR}, {"__cxa_free_exception", BI_CXA_FREE}, {"__cxa_guard_acquire", BI_GUARD_ACQ}, {"__cxa_guard_release", BI_GUARD_REL}, {"__cxa_guard_abort", BI_IGNORE0},
    {"__cxa_atexit", BI_IGNORE0}, {"atexit", BI_IGNORE0}, {"__cxa_thread_atexit", BI_IGNORE0}, {"_Unwind_Resume", BI_UNWIND_RESUME}, {"_ZSt9terminatev", BI_TERMINATE}, {"__clang_call_terminate", BI_TERMINATE},
    {"abort", BI_ABORT}, {"__assert_fail", BI_ABORT}, {"exit", BI_EXIT}, {"_exit", BI_EXIT}, {"printf", BI_IGNORE0}, {"puts", BI_IGNORE0}, {"putchar", BI_IGNORE0}, {"fprintf", BI_IGNORE0}, {"fflush", BI_IGNORE0}, {"fputs", BI_IGNORE0}, {"fwrite", BI_IGNORE0}, {"fputc", BI_IGNORE0},
    {"log2", BI_FMATH1}, {"log", BI_FMATH1}, {"log10", BI_FMATH1}, {"ceil", BI_FMATH1}, {"floor", BI_FMATH1}, {"sqrt", BI_FMATH1}, {"round", BI_FMATH1}, {"trunc", BI_FMATH1}, {"exp2", BI_FMATH1}, {"fabs", BI_FMATH1},
    {"log2f", BI_FMATH1}, {"logf", BI_FMATH1}, {"ceilf", BI_FMATH1}, {"floorf", BI_FMATH1}, {"pow", BI_FMATH2}, {"powf", BI_FMATH2}, {"fmod", BI_FMATH2},
    {"__cxa_pure_virtual", BI_PUREVIRT}, {"__errno_location", BI_ERRNO}, {"pthread_self", BI_THREADID}, {"_ZSt18uncaught_exceptionv", BI_UNCAUGHT}, {"_ZSt19uncaught_exceptionsv", BI_UNCAUGHT},
    {"rust_eh_personality", BI_ABORT}, {"explicit_bzero", BI_IGNORE0},
  };
  auto mk = [&](int k) { biName.push_back(n); return k | (int)((biName.size() - 1) << 8); };
  auto it = ex.find(n); if (it != ex.end()) return mk(it->second);
  if (n.compare(0, 5, "llvm.") == 0) {
    static const vector<std::pair<string, int>> pre = {
      {"llvm.memcpy", BI_MEMCPY}, {"llvm.memmove", BI_MEMMOVE}, {"llvm.memset", BI_MEMSET}, {"llvm.umin", BI_UMIN}, {"llvm.umax", BI_UMAX}, {"llvm.smin", BI_SMIN}, {"llvm.smax", BI_SMAX}, {"llvm.abs", BI_ABS},
      {"llvm.fshl", BI_FSHL}, {"llvm.fshr", BI_FSHR}, {"llvm.bswap", BI_BSWAP}, {"llvm.ctpop", BI_CTPOP}, {"llvm.ctlz", BI_CTLZ}, {"llvm.cttz", BI_CTTZ}, {"llvm.bitreverse", BI_BITREV},
      {"llvm.uadd.sat", BI_UADDSAT}, {"llvm.usub.sat", BI_USUBSAT}, {"llvm.uadd.with", BI_UADDO}, {"llvm.usub.with", BI_USUBO}, {"llvm.umul.with", BI_UMULO}, {"llvm.sadd.with", BI_SADDO}, {"llvm.ssub.with", BI_SSUBO}, {"llvm.smul.with", BI_SMULO},
      {"llvm.objectsize", BI_OBJSIZE}, {"llvm.is.constant", BI_ISCONST}, {"llvm.stacksave", BI_STACKSAVE}, {"llvm.eh.typeid", BI_TYPEID}, {"llvm.expect", BI_EXPECT}, {"llvm.trap", BI_TRAP}, {"llvm.ubsantrap", BI_TRAP},
      {"llvm.fptoui.sat", BI_FSAT}, {"llvm.fptosi.sat", BI_FSAT}, {"llvm.floor", BI_FMATH1}, {"llvm.ceil", BI_FMATH1}, {"llvm.log2", BI_FMATH1}, {"llvm.log.", BI_FMATH1}, {"llvm.sqrt", BI_FMATH1}, {"llvm.round", BI_FMATH1}, {"llvm.trunc", BI_FMATH1}, {"llvm.fabs", BI_FMATH1}, {"llvm.exp2", BI_FMATH1}, {"llvm.pow", BI_FMATH2},
      {"llvm.vector.reduce", BI_VECRED}, {"llvm.ucmp", BI_UCMP}, {"llvm.scmp", BI_SCMP}, {"llvm.threadlocal.address", BI_EXPECT}, {"llvm.launder", BI_EXPECT}, {"llvm.strip.inv", BI_EXPECT}, {"llvm.ptrmask", BI_PTRMASK},
    };
    for (auto &p : pre) if (n.compare(0, p.first.size(), p.first) == 0) return mk(p.second);
    return -1;
  }
  auto has = [&](const char *x) { return n.find(x) != string::npos; };
  if (has("___rust_alloc_zeroed")) return mk(BI_RS_ALLOCZ);
  if (has("___rust_alloc_error_handler")) return mk(BI_PANIC);
  if (has("___rust_alloc")) return mk(BI_RS_ALLOC);
  if (has("___rust_dealloc")) return mk(BI_RS_DEALLOC);
  if (has("___rust_realloc")) return mk(BI_RS_REALLOC);
  if (has("___rust_no_alloc_shim")) return mk(BI_IGNORE0);
  if (has("9panicking") || has("5panic") || has("unwrap_failed") || has("expect_failed") || has("handle_alloc_error") || has("slice_error_fail") || has("_fail") && has("4core")) if (n.compare(0, 2, "_R") == 0 || n.compare(0, 6, "_ZN4co") == 0) return mk(BI_PANIC);
  return -1;
}
static bool builtinForced(int id) { int k = id & 255; return k <= BI_SYM_NOTE || k == BI_TERMINATE; }
static u64 sx(u64 v, unsigned w);
static double asD(const Value &v, unsigned w); static Value fromD(double d, unsigned w);
static void checkUninit(State *s, T c, const char *what);
static vector<u64> enumerate(State *s, T t);

static void needC(State *s, Value &v, int reg) {
  if (!v.t) return;
  T k = simp(s, v.t);
  if (isC(k)) { v = {k->c, nullptr}; return; }
  if (k->op == T_ITE) throw NeedFork{k->a[0], -1};
  throw NeedFork{k, reg};
}
static std::unordered_map<u64, u64> gExc;
static void unwindFromResume(State *s) {
  Frame &f = s->fr.back(); DInst &I = f.f->code[f.pc]; Value v = I.a >= 0 ? f.regs[I.a] : f.f->consts[~I.a];
  needC(s, v, I.a);
  s->cur = {v.v, gExc[v.v]}; unwind(s);
}
static std::map<string, vector<T>> gSymTerms; // name -> byte vars
static vector<T> symTerms(const string &nm, u64 n) {
  auto &v = gSymTerms[nm];
  if (v.size() < n) {
    VSym *vs = nullptr; for (auto &y : gSyms) if (y.name == nm) vs = &y;
    if (!vs) { gSyms.push_back({nm, 0, {}}); vs = &gSyms.back(); }
    while (v.size() < n) { T t = tVar(nm + "[" + std::to_string(v.size()) + "]", 8); v.push_back(t); vs->ids.push_back(t->c); }
    vs->n = v.size();
  }
  return vector<T>(v.begin(), v.begin() + n);
}
static u64 errnoObj = 0;
static u64 gReachOK = 0;
static T leadZ(T x, unsigned w) { // count leading zeros
  T r = tConst(w, w); for (unsigned i = 0; i < w; i++) r = tIte(tExtract(x, i, 1), tConst(w, w - 1 - i), r); return r;
}
// returns 0: normal return; nonzero: control transferred
static int callBuiltin(State *s, int id, CallInfo *ci, vector<Value> &A, Value *ret) {
  int k = id & 255; const string &nm = biName[id >> 8]; auto &rg = ci->args;
  auto C = [&](unsigned i) -> u64 { needC(s, A[i], rg[i]); return A[i].v; };
  auto TT = [&](unsigned i) -> T { return val2t(A[i], ci->argw[i]); };
  unsigned w = A.empty() ? 0 : ci->argw[0];
  switch (k) {
  // ---- harness interface
  case BI_SYM_BYTES: {
    u64 p = C(0), n = C(1); string name = cstr(s, C(2)); int q = s->symc[name]++;
    writeBytes(s, p, symTerms(q ? name + "#" + std::to_string(q) : name, n)); return 0;
  }
  case BI_SYM_ASSUME: {
    T c = simp(s, tNot(tEq(TT(0), tConst(w, 0))));
    if (isTrue(c)) return 0;
    if (isFalse(c) || !may(s, c)) throw PathEnd{};
    addFact(s, c); return 0;
  }
  case BI_SYM_ASSERT: {
    string aid = cstr(s, C(1)); gAsserts[aid]++;
    T c = tNot(tEq(TT(0), tConst(w, 0)));
    if (c->flags & 1) checkUninit(s, c, "assertion");
    bool ok = proveOrReport(s, c, aid, "assertion violated: " + aid);
    if (!ok) { T k2 = simp(s, c); if (isFalse(k2) || !may(s, k2)) throw PathEnd{}; addFact(s, k2); }
    return 0;
  }
  case BI_SYM_EQUAL: {
    u64 a = C(0), b = C(1), n = C(2); string aid = cstr(s, C(3)); gAsserts[aid]++;
    auto x = readBytes(s, a, n), y = readBytes(s, b, n);
    if (x != y) { collapseBytes(x); collapseBytes(y); }
    for (u64 i = 0; i < n; i++) {
      if (x[i] == y[i]) { gAssertTrivial++; continue; }
      T c = tEq(x[i], y[i]);
      if (!proveOrReport(s, c, aid, "assertion violated: " + aid + " (byte " + std::to_string(i) + " of " + std::to_string(n) + " differs)")) { T k2 = simp(s, c); if (isFalse(k2) || !may(s, k2)) throw PathEnd{}; break; }
    }
    return 0;
  }
  case BI_SYM_REACH: {
    string aid = cstr(s, C(0));
    if (gReached[aid] == 0) { if (gInjective) S->injective = true; Model m; SatRes r = s->pc.empty() ? SAT_SAT : gInjective ? S->checkOpaqueModel(s->pc, &m) : S->checkFull(s->pc, &m); if (r == SAT_SAT) gReached[aid]++; else if (r == SAT_UNKNOWN) { if (S->checkOpaque(s->pc) != SAT_UNSAT) gNotes["reach-unconfirmed:" + aid]++; } }
    else gReached[aid]++;
    return 0;
  }
  case BI_SYM_HASH: {
    u64 fn = C(0), out = C(1), ol = C(2), in = C(3), il = C(4);
    auto b = readBytes(s, in, il);
    T app = hashApp(s, hashFnId(cstr(s, fn), il), b); vector<T> o(ol);
    for (u64 i = 0; i < ol; i++) o[i] = tHByte(app, i);
    writeBytes(s, out, o); return 0;
  }
  case BI_SYM_CONC: { ret[0] = {C(0), nullptr}; return 0; }
  case BI_SYM_NOMERGE: s->noMerge = C(0) != 0; return 0;
  case BI_SYM_INIT: {
    u64 a = C(0), n = C(1); auto b = readBytes(s, a, n); gAsserts[cstr(s, C(2))]++;
    for (auto t : b) if (t->flags & 1) checkUninit(s, t, "output byte");
    return 0;
  }
  case BI_SYM_CHOICE: { // one of n values, each explored; no merging
    string name = cstr(s, C(0)); u64 n = C(1); int q = s->symc[name]; T v = symTerms(q ? name + "#" + std::to_string(q) : name, 1)[0], k = simp(s, v);
    if (!isC(k) && n > 1) { s->noMerge = true; throw NeedFork{v, -1, (unsigned)n}; }
    if (!isC(k)) { addFact(s, tEq(v, tConst(8, 0))); k = tConst(8, 0); }
    s->symc[name]++; ret[0] = {k->c, nullptr}; return 0;
  }
  case BI_SYM_SAME: { u64 n = C(2); auto x = readBytes(s, C(0), n), y = readBytes(s, C(1), n); if (x != y) { collapseBytes(x); collapseBytes(y); } ret[0] = {(u64)(x == y), nullptr}; return 0; }
  case BI_CO_NEW: { // coroutines: only without merging and with the main routine at depth 1 (see sym_choice)
    auto it = funcByAddr.find(C(0)); if (it == funcByAddr.end()) throw Abort{"coroutine entry"}; FuncInfo *F = it->second; ensure(F); F->executed++;
    if (s->co.empty()) s->co.resize(1);
    CoStack c; Frame f; f.f = F; f.pc = 0; f.call = nullptr; f.stackBytes = 0; f.regs.assign(F->nregs, Value{0, nullptr}); f.regs[0] = A[1]; c.fr.push_back(std::move(f));
    s->co.push_back(std::move(c)); ret[0] = {s->co.size() - 1, nullptr}; return 0;
  }
  case BI_CO_SWITCH: {
    u64 to = C(0); s->noMerge = true; if (to == s->curCo) return 0; if (to >= s->co.size()) throw Abort{"coroutine id"};
    if (ci->invoke) jump(s, ci->normalEdge); else s->fr.back().pc++;
    CoStack &o = s->co[s->curCo], &n = s->co[to]; o.fr.swap(s->fr); o.caught.swap(s->caught); std::swap(o.cur, s->cur); std::swap(o.uncaught, s->uncaught); std::swap(o.stackUsed, s->stackUsed);
    n.fr.swap(s->fr); n.caught.swap(s->caught); std::swap(n.cur, s->cur); std::swap(n.uncaught, s->uncaught); std::swap(n.stackUsed, s->stackUsed); s->curCo = to; return 1;
  }
  case BI_SYM_NOTE: { string aid = cstr(s, C(0)); gNotes[aid] = A[1].t ? ~0ULL : A[1].v; return 0; }
  // ---- heap
  case BI_MALLOC: case BI_NEW: { u64 n = C(0); ret[0] = {addrOf(allocObj(s, n, K_HEAP, true)), nullptr}; return 0; }
  case BI_RS_ALLOC: { u64 n = C(0); ret[0] = {addrOf(allocObj(s, n, K_HEAP, true)), nullptr}; return 0; }
  case BI_RS_ALLOCZ: { u64 n = C(0); ret[0] = {addrOf(allocObj(s, n, K_HEAP, false)), nullptr}; return 0; }
  case BI_CALLOC: { u64 n = C(0) * C(1); ret[0] = {addrOf(allocObj(s, n, K_HEAP, false)), nullptr}; return 0; }
  case BI_FREE: case BI_DELETE: case BI_RS_DEALLOC: {
    u64 p = C(0); if (!p) return 0; Obj *o = s->mem.get(objId(p));
    if (!o || offOf(p) != 0 || o->kind != K_HEAP) memErr(s, "bad-free", "free of an invalid or already freed pointer");
    s->mem.drop(objId(p)); return 0;
  }
  case BI_REALLOC: case BI_RS_REALLOC: {
    u64 p = C(0), n = k == BI_REALLOC ? C(1) : C(3);
    u64 q = addrOf(allocObj(s, n, K_HEAP, true));
    if (p) { Obj *o = s->mem.get(objId(p)); if (!o || offOf(p)) memErr(s, "bad-free", "realloc of an invalid pointer"); copyMem(s, q, p, std::min<u64>(n, o->size)); s->mem.drop(objId(p)); }
    ret[0] = {q, nullptr}; return 0;
  }
  case BI_MEMCPY: case BI_MEMMOVE: { u64 d = C(0), a = C(1), n = C(2); 
    if (k == BI_MEMCPY && n && objId(d) == objId(a) && d != a && (d < a ? d + n > a : a + n > d)) memErr(s, "overlap", "overlapping memcpy");
    copyMem(s, d, a, n); ret[0] = {d, nullptr}; return 0; }
  case BI_MEMSET: { u64 d = C(0), n = C(2); ret[0] = {d, nullptr}; if (!n) return 0; T v = ci->argw[1] == 8 ? TT(1) : tExtract(TT(1), 0, 8); writeBytes(s, d, vector<T>(n, v)); return 0; }
  case BI_MEMCMP: case BI_BCMP: {
    u64 a = C(0), b = C(1), n = C(2); auto x = readBytes(s, a, n), y = readBytes(s, b, n);
    if (k == BI_BCMP) { T e = tTrue(); for (u64 i = 0; i < n; i++) e = tAnd(e, tEq(x[i], y[i])); ret[0] = t2val(tIte(e, tConst(32, 0), tConst(32, 1))); return 0; }
    T r = tConst(32, 0);
    for (u64 i = n; i-- > 0;) r = tIte(tEq(x[i], y[i]), r, tIte(tUlt(x[i], y[i]), tConst(32, ~0u), tConst(32, 1)));
    ret[0] = t2val(r); return 0;
  }
  case BI_STRLEN: {
    u64 a = C(0), n = 0;
    for (;; n++) { Value v = loadConc(s, a + n, 8); if (!v.t) { if (!v.v) break; continue; } T z = simp(s, tEq(v.t, tConst(8, 0))); if (isTrue(z)) break; if (isFalse(z)) continue; if (!may(s, z)) continue; throw NeedFork{z, -1}; }
    ret[0] = {n, nullptr}; return 0;
  }
  case BI_MEMCHR: {
    u64 a = C(0), c = C(1) & 255, n = C(2);
    for (u64 i = 0; i < n; i++) { Value v = loadConc(s, a + i, 8); if (!v.t) { if (v.v == c) { ret[0] = {a + i, nullptr}; return 0; } continue; } T z = simp(s, tEq(v.t, tConst(8, c))); if (isTrue(z)) { ret[0] = {a + i, nullptr}; return 0; } if (isFalse(z)) continue; throw NeedFork{z, -1}; }
    ret[0] = {0, nullptr}; return 0;
  }
  // ---- intrinsics (possibly vectors)
  case BI_UMIN: case BI_UMAX: case BI_SMIN: case BI_SMAX: {
    unsigned n = ci->nret;
    for (unsigned i = 0; i < n; i++) { T a = TT(i), b = TT(n + i); T c = (k == BI_UMIN || k == BI_UMAX) ? tUlt(a, b) : tSlt(a, b); ret[i] = t2val((k == BI_UMIN || k == BI_SMIN) ? tIte(c, a, b) : tIte(c, b, a)); }
    return 0;
  }
  case BI_UCMP: case BI_SCMP: { unsigned rw = ci->retw[0]; T a = TT(0), b = TT(1); T c = k == BI_UCMP ? tUlt(a, b) : tSlt(a, b); ret[0] = t2val(tIte(c, tConst(rw, maskw(rw)), tIte(tEq(a, b), tConst(rw, 0), tConst(rw, 1)))); return 0; }
  case BI_ABS: { T a = TT(0); ret[0] = t2val(tIte(tSlt(a, tConst(w, 0)), tNeg(a), a)); return 0; }
  case BI_FSHL: case BI_FSHR: {
    unsigned n = ci->nret;
    for (unsigned i = 0; i < n; i++) {
      T a = TT(i), b = TT(n + i), c = TT(2 * n + i);
      if (isC(c)) {
        unsigned m = c->c % w; if (k == BI_FSHR) m = (w - m) % w;
        if (k == BI_FSHR && m == 0) { ret[i] = t2val(b); continue; }
        if (m == 0) { ret[i] = t2val(a); continue; }
        if (a == b) ret[i] = t2val(tRotl(a, m));
        else ret[i] = t2val(tConcat2(tExtract(b, w - m, m), tExtract(a, 0, w - m)));
      } else {
        T m = tURem(c, tConst(w, w)); T full = tConcat2(b, a);
        if (k == BI_FSHL) { T sh = tShl(full, tZExt(m, 2 * w)); ret[i] = t2val(tExtract(sh, w, w)); }
        else { T sh = tLShr(full, tZExt(m, 2 * w)); ret[i] = t2val(tExtract(sh, 0, w)); }
      }
    }
    return 0;
  }
  case BI_BSWAP: { T a = TT(0); vector<T> b; for (unsigned i = 0; i < w / 8; i++) b.push_back(tExtract(a, w - 8 - 8 * i, 8)); ret[0] = t2val(tConcat(b)); return 0; }
  case BI_BITREV: { T a = TT(0); vector<T> b; for (unsigned i = 0; i < w; i++) b.push_back(tExtract(a, w - 1 - i, 1)); ret[0] = t2val(tConcat(b)); return 0; }
  case BI_CTPOP: { for (unsigned j = 0; j < ci->nret; j++) { T a = TT(j), r = tConst(w, 0); for (unsigned i = 0; i < w; i++) r = tAdd(r, tZExt(tExtract(a, i, 1), w)); ret[j] = t2val(r); } return 0; }
  case BI_CTLZ: { if (!A[0].t) { u64 v = A[0].v; ret[0] = {v ? (u64)__builtin_clzll(v) - (64 - w) : w, nullptr}; return 0; } ret[0] = t2val(leadZ(A[0].t, w)); return 0; }
  case BI_CTTZ: { if (!A[0].t) { ret[0] = {A[0].v ? (u64)__builtin_ctzll(A[0].v) : w, nullptr}; return 0; } T r = tConst(w, w); for (unsigned i = w; i-- > 0;) r = tIte(tExtract(A[0].t, i, 1), tConst(w, i), r); ret[0] = t2val(r); return 0; }
  case BI_UADDSAT: { T a = TT(0), b = TT(1), x = tAdd(a, b); ret[0] = t2val(tIte(tUlt(x, a), tConst(w, maskw(w)), x)); return 0; }
  case BI_USUBSAT: { T a = TT(0), b = TT(1); ret[0] = t2val(tIte(tUlt(a, b), tConst(w, 0), tSub(a, b))); return 0; }
  case BI_UADDO: { T a = TT(0), b = TT(1), x = tAdd(a, b); ret[0] = t2val(x); ret[1] = t2val(tUlt(x, a)); 
    u64 r; if (w <= 64 && !__builtin_add_overflow(a->umax, b->umax, &r) && r <= maskw(w)) { ret[1] = {0, nullptr}; return 0; }
    if (isC(a) || isC(b)) { T v = isC(a) ? b : a; u64 c = isC(a) ? a->c : b->c; ret[1] = t2val(tUlt(tConst(w, maskw(w) - c), v)); } return 0; }
  case BI_USUBO: { T a = TT(0), b = TT(1); ret[0] = t2val(tSub(a, b)); ret[1] = t2val(tUlt(a, b)); return 0; }
  case BI_UMULO: { T a = TT(0), b = TT(1); if (w > 64) throw Abort{"umul.with.overflow > 64 bits"};
    ret[0] = t2val(tMul(a, b));
    if (isC(a) || isC(b)) { T v = isC(a) ? b : a; u64 c = isC(a) ? a->c : b->c; ret[1] = t2val(c == 0 ? tFalse() : tUlt(tConst(w, maskw(w) / c), v)); }
    else { T x = tMul(tZExt(a, 2 * w), tZExt(b, 2 * w)); ret[1] = t2val(tNot(tEq(tExtract(x, w, w), tConst(w, 0)))); }
    return 0; }
  case BI_SADDO: case BI_SSUBO: { T a = TT(0), b = TT(1); T x = k == BI_SADDO ? tAdd(a, b) : tSub(a, b); T wx = k == BI_SADDO ? tAdd(tSExt(a, w + 1), tSExt(b, w + 1)) : tSub(tSExt(a, w + 1), tSExt(b, w + 1));
    if (!A[0].t && !A[1].t) { __int128 sa = (int64_t)sx(A[0].v, w), sb = (int64_t)sx(A[1].v, w), r = k == BI_SADDO ? sa + sb : sa - sb; ret[0] = t2val(x); ret[1] = {(u64)(r != (__int128)(int64_t)sx((u64)r & maskw(w), w)), nullptr}; return 0; }
    ret[0] = t2val(x); ret[1] = t2val(tNot(tEq(wx, tSExt(x, w + 1)))); return 0; }
  case BI_SMULO: { C(0); C(1); __int128 r = (__int128)(int64_t)sx(A[0].v, w) * (int64_t)sx(A[1].v, w); ret[0] = {(u64)r & maskw(w), nullptr}; ret[1] = {(u64)(r != (__int128)(int64_t)sx((u64)r & maskw(w), w)), nullptr}; return 0; }
  case BI_OBJSIZE: ret[0] = {A[1].v ? 0 : ~0ULL, nullptr}; return 0;
  case BI_ISCONST: ret[0] = {0, nullptr}; return 0;
  case BI_STACKSAVE: ret[0] = {0, nullptr}; return 0;
  case BI_TYPEID: { u64 t = C(0); ret[0] = {objId(t), nullptr}; return 0; }
  case BI_EXPECT: ret[0] = A[0]; return 0;
  case BI_PTRMASK: ret[0] = t2val(tAnd(TT(0), TT(1))); return 0;
  case BI_TRAP: reportErr(s, tTrue(), "trap", "trap instruction reached in " + topFn(s)); throw PathEnd{};
  case BI_FMATH1: {
    C(0); double x = asD(A[0], w), r; auto is = [&](const char *q) { return nm.compare(0, strlen(q), q) == 0 || nm.compare(0, strlen(q) + 5, string("llvm.") + q) == 0; };
    if (is("log2")) r = log2(x); else if (is("log10")) r = log10(x); else if (is("log")) r = log(x); else if (is("ceil")) r = ceil(x); else if (is("floor")) r = floor(x); else if (is("sqrt")) r = sqrt(x); else if (is("round")) r = round(x); else if (is("trunc")) r = trunc(x); else if (is("exp2")) r = exp2(x); else r = fabs(x);
    if (w == 32) { float fx = (float)x; if (is("log2")) r = log2f(fx); else if (is("log")) r = logf(fx); else if (is("ceil")) r = ceilf(fx); else if (is("floor")) r = floorf(fx); }
    ret[0] = fromD(r, w); return 0;
  }
  case BI_FSAT: {
    C(0); double x = asD(A[0], ci->argw[0]); unsigned rw = atoi(nm.c_str() + strlen("llvm.fptoui.sat.i")); bool sg = nm[8] == 's'; if (rw < 8 || rw > 64) throw Abort{"fpto?i.sat width"};
    if (std::isnan(x)) { ret[0] = {0, nullptr}; return 0; }
    if (sg) { double hi = ldexp(1.0, rw - 1); int64_t r = x >= hi ? (int64_t)(((u64)1 << (rw - 1)) - 1) : x < -hi ? -(int64_t)((u64)1 << (rw - 1)) : (int64_t)x; ret[0] = {(u64)r & maskw(rw), nullptr}; }
    else { double hi = ldexp(1.0, rw); u64 r = x <= -1 ? 0 : x >= hi ? maskw(rw) : x < 0 ? 0 : (u64)x; ret[0] = {r & maskw(rw), nullptr}; }
    return 0;
  }
  case BI_FMATH2: { C(0); C(1); double x = asD(A[0], w), y = asD(A[1], ci->argw[1]); ret[0] = fromD(nm.find("pow") != string::npos ? pow(x, y) : fmod(x, y), w); return 0; }
  case BI_VECRED: {
    T r = TT(0); unsigned n = A.size();
    for (unsigned i = 1; i < n; i++) { T x = TT(i); if (nm.find("reduce.add") != string::npos) r = tAdd(r, x); else if (nm.find("reduce.or") != string::npos) r = tOr(r, x); else if (nm.find("reduce.and") != string::npos) r = tAnd(r, x); else if (nm.find("reduce.xor") != string::npos) r = tXor(r, x); else throw Abort{"vector.reduce"}; }
    ret[0] = t2val(r); return 0;
  }
  // ---- exceptions
  case BI_CXA_ALLOC: { u64 n = C(0); ret[0] = {addrOf(allocObj(s, n + 64, K_HEAP, true)), nullptr}; return 0; }
  case BI_CXA_FREE: s->mem.drop(objId(C(0))); return 0;
  case BI_CXA_THROW: { u64 o = C(0), t = C(1); gExc[o] = t; s->cur = {o, t}; unwind(s); return 1; }
  case BI_CXA_BEGIN: { u64 o = C(0); s->caught.push_back({o, gExc[o]}); ret[0] = {o, nullptr}; return 0; }
  case BI_CXA_GETPTR: ret[0] = {C(0), nullptr}; return 0;
  case BI_CXA_END: if (!s->caught.empty()) s->caught.pop_back(); return 0;
  case BI_CXA_RETHROW: { if (s->caught.empty()) throw Abort{"rethrow without exception"}; s->cur = s->caught.back(); unwind(s); return 1; }
  case BI_UNWIND_RESUME: { u64 o = C(0); s->cur = {o, gExc[o]}; unwind(s); return 1; }
  case BI_TERMINATE: reportErr(s, tTrue(), "terminate", "std::terminate called in " + topFn(s)); throw PathEnd{};
  case BI_ABORT: reportErr(s, tTrue(), "abort", "abort called in " + topFn(s)); throw PathEnd{};
  case BI_EXIT: reportErr(s, tTrue(), "exit", "process exit called in " + topFn(s)); throw PathEnd{};
  case BI_PUREVIRT: reportErr(s, tTrue(), "abort", "pure virtual call in " + topFn(s)); throw PathEnd{};
  case BI_PANIC: reportErr(s, tTrue(), "panic", "Rust panic (" + L::demangle(nm) + ") in " + topFn(s)); throw PathEnd{};
  case BI_GUARD_ACQ: { u64 p = C(0); Value v = loadConc(s, p, 8); needC(s, v, -1); ret[0] = {(u64)(v.v == 0), nullptr}; return 0; }
  case BI_GUARD_REL: { u64 p = C(0); storeConc(s, p, {1, nullptr}, 8); return 0; }
  case BI_IGNORE0: ret[0] = {0, nullptr}; return 0;
  case BI_THREADID: ret[0] = {1, nullptr}; return 0;
  case BI_UNCAUGHT: ret[0] = {0, nullptr}; return 0;
  case BI_ERRNO: { if (!errnoObj) throw Abort{"errno"}; ret[0] = {errnoObj, nullptr}; return 0; }
  }
  throw Abort{"builtin " + nm};
}
