// -*- C++ -*-  loading, globals, driver, output
static void writeConst(Mem &m, u64 addr, L::Constant *c) {
  if (L::isa<L::ConstantAggregateZero>(c) || L::isa<L::ConstantPointerNull>(c)) return;
  if (L::isa<L::UndefValue>(c)) return;
  Obj *o = m.wr(objId(addr)); u64 off = offOf(addr);
  if (auto cd = L::dyn_cast<L::ConstantDataSequential>(c)) { auto r = cd->getRawDataValues(); memcpy(o->data + off, r.data(), r.size()); return; }
  if (auto cs = L::dyn_cast<L::ConstantStruct>(c)) { auto sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) writeConst(m, addr + sl->getElementOffset(i), cs->getOperand(i)); return; }
  if (auto ca = L::dyn_cast<L::ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(m, addr + i * es, ca->getOperand(i)); return; }
  if (auto cv = L::dyn_cast<L::ConstantVector>(c)) { u64 es = DL->getTypeStoreSize(cv->getType()->getElementType()); for (unsigned i = 0; i < cv->getNumOperands(); i++) writeConst(m, addr + i * es, cv->getOperand(i)); return; }
  Value v = constLeaf(c, 0); unsigned n = DL->getTypeStoreSize(c->getType());
  if (v.t) { u128 x = cval(v.t); memcpy(o->data + off, &x, n); } else memcpy(o->data + off, &v.v, std::min(n, 8u));
}
static string jesc(const string &s) { string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static string hex(const vector<uint8_t> &v) { string r; char b[3]; for (auto x : v) { snprintf(b, 3, "%02x", x); r += b; } return r; }
struct Opts { string entry = "harness", out, bc; std::map<string, string> redir; } OP;
static void runFn(State *&s, FuncInfo *F, vector<State *> &out) {
  ensure(F); F->executed++;
  Frame f; f.f = F; f.pc = 0; f.call = nullptr; f.stackBytes = 0; f.regs.assign(F->nregs, Value{0, nullptr});
  s->fr.push_back(std::move(f));
  execRegion(s, 1, -1, out);
}
static string gAbort;
static void output() {
  FILE *o = OP.out.empty() ? stdout : fopen(OP.out.c_str(), "w");
  fprintf(o, "{\n \"entry\": %s,\n \"abort\": %s,\n \"time\": %.3f,\n", jesc(OP.entry).c_str(), jesc(gAbort).c_str(), now() - tStart);
  fprintf(o, " \"solver\": {\"queries\": %llu, \"full_queries\": %llu, \"unsat\": %llu, \"sat\": %llu, \"unknown\": %llu, \"cache_hits\": %llu, \"time\": %.3f},\n", (unsigned long long)S->st.queries, (unsigned long long)S->st.fullQueries, (unsigned long long)S->st.unsat, (unsigned long long)S->st.sat, (unsigned long long)S->st.unknown, (unsigned long long)S->st.cacheHits, S->st.time);
  fprintf(o, " \"goals\": {\"by_normalisation\": %llu, \"by_case_split\": %llu, \"by_solver\": %llu},\n", (unsigned long long)gAssertTrivial, (unsigned long long)gAssertPivot, (unsigned long long)gAssertSolver);
  fprintf(o, " \"paths\": %llu, \"forks\": %llu, \"merges\": %llu, \"instructions\": %llu, \"terms\": %llu, \"hash_applications\": %zu,\n", (unsigned long long)gPaths, (unsigned long long)gForks, (unsigned long long)gMerges, (unsigned long long)gInsts, (unsigned long long)gTermCount, gHashApps.size());
  auto mp = [&](const char *nm, std::map<string, u64> &m) { fprintf(o, " \"%s\": {", nm); bool first = true; for (auto &p : m) { fprintf(o, "%s%s: %llu", first ? "" : ", ", jesc(p.first).c_str(), (unsigned long long)p.second); first = false; } fprintf(o, "},\n"); };
  mp("asserts", gAsserts); mp("reached", gReached); mp("notes", gNotes);
  fprintf(o, " \"incomplete\": ["); { bool f = true; for (auto &x : gIncomplete) { fprintf(o, "%s%s", f ? "" : ", ", jesc(x).c_str()); f = false; } } fprintf(o, "],\n");
  fprintf(o, " \"functions\": ["); { bool f = true; vector<std::pair<string, u64>> v; for (auto &p : funcs) if (p.second->executed) v.push_back({L::demangle(p.second->name), p.second->executed}); std::sort(v.begin(), v.end()); for (auto &x : v) { fprintf(o, "%s%s", f ? "" : ", ", jesc(x.first).c_str()); f = false; } } fprintf(o, "],\n");
  fprintf(o, " \"inputs\": {"); { bool f = true; for (auto &y : gSyms) { fprintf(o, "%s%s: %zu", f ? "" : ", ", jesc(y.name).c_str(), y.ids.size()); f = false; } } fprintf(o, "},\n");
  fprintf(o, " \"violations\": [");
  bool fv = true;
  for (auto &v : gViol) {
    fprintf(o, "%s\n  {\"id\": %s, \"msg\": %s, \"where\": %s, \"inputs\": {", fv ? "" : ",", jesc(v.id).c_str(), jesc(v.msg).c_str(), jesc(v.where).c_str()); fv = false;
    bool f = true;
    for (auto &y : gSyms) { vector<uint8_t> b; for (size_t i = 0; i < y.ids.size(); i++) { auto it = v.vars.find(y.name + "[" + std::to_string(i) + "]"); b.push_back(it == v.vars.end() ? 0 : it->second); } fprintf(o, "%s%s: \"%s\"", f ? "" : ", ", jesc(y.name).c_str(), hex(b).c_str()); f = false; }
    fprintf(o, "}, \"hashes\": ["); f = true;
    for (auto &h : v.hashes) { fprintf(o, "%s[%s, \"%s\", \"%s\"]", f ? "" : ", ", jesc(gHashFns[h.fn].name).c_str(), hex(h.in).c_str(), hex(h.out).c_str()); f = false; }
    fprintf(o, "]}");
  }
  fprintf(o, "]\n}\n");
  if (o != stdout) fclose(o);
}
static void *gReserve;
static void *mainThread(void *) {
  try {
    L::LLVMContext ctx; L::SMDiagnostic err;
    auto Mp = L::parseIRFile(OP.bc, err, ctx);
    if (!Mp) { err.print("llsym", L::errs()); gAbort = "cannot parse IR: " + err.getMessage().str(); return nullptr; }
    M = Mp.get(); DL = &M->getDataLayout(); gInitMem = new Mem();
    for (auto &r : OP.redir) if (auto f = M->getFunction(r.first)) if (auto g = M->getFunction(r.second)) { if (f->getFunctionType() == g->getFunctionType()) gRedir[f] = g; else gNotes["redirect-type-mismatch:" + r.first] = 1; }
    for (auto &g : M->globals()) {
      auto ty = g.getValueType(); u64 sz = ty->isSized() ? (u64)DL->getTypeAllocSize(ty) : 64; if (!g.hasInitializer()) sz = std::max<u64>(sz, 256);
      u64 id = gNextObj++; gInitMem->put(id, newObj(sz, K_GLOBAL, false)); globalAddr[&g] = addrOf(id); globalByName[g.getName().str()] = addrOf(id);
    }
    { u64 id = gNextObj++; gInitMem->put(id, newObj(8, K_GLOBAL, false)); errnoObj = addrOf(id); }
    for (auto &g : M->globals()) if (g.hasInitializer() && g.getName() != "llvm.global_ctors" && g.getName() != "llvm.used" && g.getName() != "llvm.compiler.used") writeConst(*gInitMem, globalAddr[&g], g.getInitializer());
    for (auto &g : M->globals()) if (g.isConstant() && g.hasInitializer()) gInitMem->wr(objId(globalAddr[&g]))->ro = true;
    auto ef = M->getFunction(OP.entry); if (!ef) { gAbort = "no entry " + OP.entry; return nullptr; }
    vector<std::pair<u64, L::Function *>> ctors;
    if (auto gc = M->getNamedGlobal("llvm.global_ctors")) if (auto ca = L::dyn_cast<L::ConstantArray>(gc->getInitializer())) for (auto &o : ca->operands()) { auto cs = L::cast<L::ConstantStruct>(o); if (auto f = L::dyn_cast<L::Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({L::cast<L::ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
    State *s = new State(); { Mem tmp(*gInitMem); std::swap(s->mem.pages, tmp.pages); }
    for (auto &c : ctors) { vector<State *> out; runFn(s, fi(c.second), out); if (out.size() != 1) throw Abort{"global constructors fork"}; s = out[0]; }
    gDropFinished = true; vector<State *> out; runFn(s, fi(ef), out);
    gPaths += out.size();
    for (auto x : out) delete x;
  } catch (Abort &a) { gAbort = a.why; }
  catch (PathEnd &) { gAbort = "path ended in global constructors"; }
  catch (HugeAlloc &h) { gAbort = "allocation of " + std::to_string(h.n) + " bytes"; }
  catch (std::bad_alloc &) { free(gReserve); gReserve = nullptr; gAbort = "memory limit"; }
  output();
  fflush(stdout); _exit(0);
}
int main(int argc, char **argv) {
  tStart = now(); S = new Solver(); gReserve = malloc(64 << 20); memset(gReserve, 1, 64 << 20);
  for (int i = 1; i < argc; i++) {
    string a = argv[i]; auto next = [&]() { return string(argv[++i]); };
    if (a == "--entry") OP.entry = next(); else if (a == "--out") OP.out = next(); else if (a == "--time") timeLimit = atof(next().c_str());
    else if (a == "--redirect") { string r = next(); auto p = r.find('='); OP.redir[r.substr(0, p)] = r.substr(p + 1); }
    else if (a == "--injective") gInjective = 1; else if (a == "--lanes") gLanes = true; else if (a == "-v") gVerbose = true; else if (a == "--maxviol") gMaxViol = atoi(next().c_str());
    else if (a == "--stimeout") S->timeoutMs = atoi(next().c_str());
    else OP.bc = a;
  }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ULL << 30); pthread_t th;
  if (pthread_create(&th, &at, mainThread, nullptr)) { perror("pthread"); return 3; }
  pthread_join(th, nullptr);
  output(); return 0;
}
