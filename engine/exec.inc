// -*- C++ -*-  executor (included by engine.cpp)
struct NeedFork { T t; int reg; unsigned n = 0; };      // concretise t (and register reg) by case split, then re-execute
struct Unwinding {};

static bool killIf(bool c) { if (c) throw PathEnd{}; return false; }

// post-dominators ignoring unwind edges and blocks that cannot return normally
static void computeIpdom(FuncInfo *F) {
  auto *f = (const L::Function *)F->llvmF; int n = 0; std::unordered_map<const L::BasicBlock *, int> no;
  vector<const L::BasicBlock *> bbs; for (auto &b : *f) { no[&b] = n++; bbs.push_back(&b); }
  vector<vector<int>> succ(n + 1), pred(n + 1); int EX = n;
  for (int i = 0; i < n; i++) {
    auto t = bbs[i]->getTerminator();
    if (L::isa<L::ReturnInst>(t)) succ[i].push_back(EX);
    else if (auto iv = L::dyn_cast<L::InvokeInst>(t)) succ[i].push_back(no[iv->getNormalDest()]);
    else if (L::isa<L::ResumeInst>(t) || L::isa<L::UnreachableInst>(t)) {}
    else for (auto s : L::successors(bbs[i])) succ[i].push_back(no[s]);
  }
  vector<char> canExit(n + 1, 0); canExit[EX] = 1; bool ch = true;
  while (ch) { ch = false; for (int i = 0; i < n; i++) if (!canExit[i]) for (int s : succ[i]) if (canExit[s]) { canExit[i] = 1; ch = true; break; } }
  for (int i = 0; i < n; i++) { vector<int> k; for (int s : succ[i]) if (canExit[s]) k.push_back(s); succ[i] = k; for (int s : k) pred[s].push_back(i); }
  // reverse postorder on reversed graph from EX
  vector<int> order, num(n + 1, -1); vector<char> vis(n + 1, 0);
  std::function<void(int)> dfs = [&](int v) { vis[v] = 1; for (int p : pred[v]) if (!vis[p]) dfs(p); num[v] = order.size(); order.push_back(v); };
  dfs(EX);
  vector<int> idom(n + 1, -1); idom[EX] = EX; ch = true;
  while (ch) {
    ch = false;
    for (int k = (int)order.size() - 2; k >= 0; k--) {
      int v = order[k], nd = -1;
      for (int s : succ[v]) if (idom[s] >= 0) {
        if (nd < 0) nd = s;
        else { int a = s, b = nd; while (a != b) { while (num[a] < num[b]) a = idom[a]; while (num[b] < num[a]) b = idom[b]; } nd = a; }
      }
      if (nd != idom[v]) { idom[v] = nd; ch = true; }
    }
  }
  for (int i = 0; i < n; i++) F->blocks[i].ipdom = (idom[i] < 0 || idom[i] == EX) ? -1 : idom[i];
}
static void ensure(FuncInfo *F) { if (!F->decoded) { decode(F); computeIpdom(F); } }

// ------------------------------------------------------------------ memory access
static string topFn(State *s) {
  return s->fr.empty() ? "?" : L::demangle(s->fr.back().f->name).substr(0, 80);
}
static void memErr [[noreturn]] (State *s, const string &kind, const string &msg) {
  reportErr(s, tTrue(), kind, msg + " in " + topFn(s));
  throw PathEnd{};
}
static T byteTerm(State *s, uint32_t id, Obj *o, u64 off) {
  uint8_t st = o->st[off];
  if (st == B_CONC) return tConst(8, o->data[off]);
  if (st == B_SYM) { u64 x = o->sym[off]; T t = slotT(x); return t->w == 8 ? t : tExtract(t, 8 * slotK(x), 8); }
  // uninitialised: materialise once
  T v = tVar("uninit" + std::to_string(uninitN++), 8, true);
  Obj *w = s->mem.wr(id);
  if (!w->sym) w->sym = (u64 *)calloc(w->size ? w->size : 1, 8);
  w->st[off] = B_SYM; w->sym[off] = packSlot(v, 0);
  return v;
}
static inline bool allConc(const uint8_t *st, unsigned n) {
  if (n == 8) { u64 x; memcpy(&x, st, 8); return x == 0; }
  if (n == 4) { uint32_t x; memcpy(&x, st, 4); return x == 0; }
  for (unsigned i = 0; i < n; i++) if (st[i]) return false;
  return true;
}
static Value loadConc(State *s, u64 addr, unsigned w) {
  unsigned n = (w + 7) / 8; uint32_t id = objId(addr); u64 off = offOf(addr);
  Obj *o = s->mem.get(id);
  if (!o) memErr(s, "bad-pointer", addr < 0x100000000ULL ? "load through null or invalid pointer" : "load from freed object");
  if (off + n > o->size || off > o->size) memErr(s, "oob-read", "read of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)off) + " of " + std::to_string(o->size) + "-byte object");
  if (allConc(o->st + off, n) && n <= 8) { u64 v = 0; memcpy(&v, o->data + off, n); return {v & maskw(w), nullptr}; }
  if (o->st[off] == B_SYM) {
    u64 x = o->sym[off]; T t = slotT(x);
    if (slotK(x) == 0 && t->w == 8 * n) {
      bool ok = true;
      for (unsigned i = 1; i < n && ok; i++) ok = o->st[off + i] == B_SYM && o->sym[off + i] == packSlot(t, i);
      if (ok) { if (t->w != w) return t2val(tExtract(t, 0, w)); return {0, t}; }
    }
  }
  vector<T> b(n);
  for (unsigned i = 0; i < n; i++) { b[i] = byteTerm(s, id, s->mem.get(id), off + i); }
  T t = n == 1 ? b[0] : tConcat(b);
  if (t->w != w) t = tExtract(t, 0, w);
  return t2val(t);
}
static void storeConc(State *s, u64 addr, Value v, unsigned w) {
  unsigned n = (w + 7) / 8; uint32_t id = objId(addr); u64 off = offOf(addr);
  Obj *o = s->mem.get(id);
  if (!o) memErr(s, "bad-pointer", addr < 0x100000000ULL ? "store through null or invalid pointer" : "store to freed object");
  if (off + n > o->size || off > o->size) memErr(s, "oob-write", "write of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)off) + " of " + std::to_string(o->size) + "-byte object");
  if (o->ro) memErr(s, "ro-write", "write to read-only object");
  o = s->mem.wr(id);
  if (!v.t && n <= 8) { memcpy(o->data + off, &v.v, n); memset(o->st + off, B_CONC, n); return; }
  T t = v.t ? v.t : tConst(w, v.v);
  if (isC(t)) { u128 c = cval(t); memcpy(o->data + off, &c, n); memset(o->st + off, B_CONC, n); return; }
  if (t->w != 8 * n) t = tZExt(t, 8 * n);
  if (!o->sym) o->sym = (u64 *)calloc(o->size ? o->size : 1, 8);
  // plain concatenations of bytes are stored bytewise
  if (t->op == T_CONCAT && n > 1) {
    bool bytes = true; for (unsigned i = 0; i < t->n; i++) if (t->a[i]->w % 8) { bytes = false; break; }
    if (bytes) {
      u64 p = off;
      for (unsigned i = 0; i < t->n; i++) {
        T x = t->a[i]; unsigned k = x->w / 8;
        if (isC(x)) { u128 c = cval(x); memcpy(o->data + p, &c, k); memset(o->st + p, B_CONC, k); }
        else for (unsigned j = 0; j < k; j++) { o->st[p + j] = B_SYM; o->sym[p + j] = packSlot(x, j); }
        p += k;
      }
      return;
    }
  }
  for (unsigned i = 0; i < n; i++) { o->st[off + i] = B_SYM; o->sym[off + i] = packSlot(t, i); }
}
struct SymAddr { u64 base; u64 stride; T idx; u64 count; };
// resolves a symbolic address; either returns concrete (idx==nullptr) or a table description
static SymAddr resolve(State *s, T t, int reg, unsigned n, bool write) {
  t = simp(s, t);
  if (isC(t)) return {t->c, 0, nullptr, 0};
  if (t->op == T_ITE) throw NeedFork{t->a[0], -1};
  if (objId(t->umin) != objId(t->umax)) {
    // look for an ite inside a sum
    vector<T> st{t}; 
    while (!st.empty()) { T x = st.back(); st.pop_back(); if (x->op == T_ITE && x->w == 64) throw NeedFork{x->a[0], -1}; if (x->op == T_ADD || x->op == T_CONCAT) for (unsigned i = 0; i < x->n; i++) st.push_back(x->a[i]); }
    // maybe the bound is lost: constant part names the object
    u64 base = t->op == T_ADD ? t->c : 0; Obj *o = base ? s->mem.get(objId(base)) : nullptr;
    if (!o) throw NeedFork{t, reg};
    T off = tSub(t, tConst(64, addrOf(objId(base))));
    T ok = o->size >= n ? tUle(off, tConst(64, o->size - n)) : tFalse();
    if (may(s, tNot(ok))) { reportErr(s, tNot(ok), write ? "oob-write" : "oob-read", string(write ? "write" : "read") + " beyond a " + std::to_string(o->size) + "-byte object in " + topFn(s)); addFact(s, ok); killIf(!may(s, ok)); }
    throw NeedFork{t, reg};
  }
  Obj *o = s->mem.get(objId(t->umin));
  if (!o) throw NeedFork{t, reg};
  u64 lo = addrOf(objId(t->umin)), hi = lo + o->size;
  if (t->umin < lo || t->umax + n > hi) {
    T off = tSub(t, tConst(64, lo));
    T ok = o->size >= n ? tUle(off, tConst(64, o->size - n)) : tFalse();
    ok = simp(s, ok);
    if (!isTrue(ok) && may(s, tNot(ok))) {
      reportErr(s, tNot(ok), write ? "oob-write" : "oob-read", string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes beyond a " + std::to_string(o->size) + "-byte object in " + topFn(s));
      if (!may(s, ok)) throw PathEnd{};
      addFact(s, ok);
    }
  }
  T r = tSub(t, tConst(64, t->umin)); u64 stride = 1; T idx = r;
  if (r->op == T_ADD && r->n == 1 && r->c == 0) { stride = r->coef[0]; idx = r->a[0]; }
  else if (r->op == T_CONCAT && isC(r->a[0]) && r->a[0]->c == 0) { stride = 1ULL << r->a[0]->w; idx = tExtract(r, r->a[0]->w, r->w - r->a[0]->w); }
  u64 cnt = idx->umax + 1;
  if (idx->umax > 70000 || (write && idx->umax > 5000)) throw NeedFork{t, reg};
  u64 room = (hi - n - t->umin) / stride + 1; if (cnt > room) cnt = room;
  return {t->umin, stride, idx, cnt};
}
static Value loadVal(State *s, Value addr, int reg, unsigned w) {
  if (!addr.t) return loadConc(s, addr.v, w);
  unsigned n = (w + 7) / 8;
  SymAddr A = resolve(s, addr.t, reg, n, false);
  if (!A.idx) return loadConc(s, A.base, w);
  vector<T> vals(A.count);
  for (u64 i = 0; i < A.count; i++) vals[i] = val2t(loadConc(s, A.base + i * A.stride, w), w);
  if (A.count == 1) return t2val(vals[0]);
  bool allc = w <= 64; for (auto x : vals) if (!isC(x)) { allc = false; break; }
  if (allc) {
    u64 d = (vals[1]->c - vals[0]->c) & maskw(w); bool aff = true;
    for (u64 i = 1; i < A.count && aff; i++) aff = vals[i]->c == ((vals[0]->c + i * d) & maskw(w));
    if (aff) return t2val(tAdd(tConst(w, vals[0]->c), tMul(tZExt(A.idx, w), tConst(w, d))));
  }
  unsigned bits = 0; while ((1ULL << bits) < A.count) bits++;
  std::function<T(u64, unsigned)> bld = [&](u64 lo, unsigned nb) -> T {
    if (nb == 0) return vals[lo];
    u64 half = 1ULL << (nb - 1);
    T a = bld(lo, nb - 1);
    if (lo + half >= A.count) return a;
    T b = bld(lo + half, nb - 1);
    return tIte(tExtract(A.idx, nb - 1, 1), b, a);
  };
  return t2val(bld(0, bits));
}
static void storeVal(State *s, Value addr, int reg, Value v, unsigned w) {
  if (!addr.t) return storeConc(s, addr.v, v, w);
  unsigned n = (w + 7) / 8;
  SymAddr A = resolve(s, addr.t, reg, n, true);
  if (!A.idx) return storeConc(s, A.base, v, w);
  T nv = val2t(v, w);
  for (u64 i = 0; i < A.count; i++) {
    T c = tEq(A.idx, tConst(A.idx->w, i)); if (isFalse(c)) continue;
    u64 a = A.base + i * A.stride;
    T old = val2t(loadConc(s, a, w), w);
    storeConc(s, a, t2val(tIte(c, nv, old)), w);
  }
}
static uint32_t allocObj(State *s, u64 size, Kind k, bool uninit) {
  if (size > (1u << 28)) throw Abort{"allocation of " + std::to_string(size) + " bytes"};
  uint32_t id = gNextObj++; s->mem.put(id, newObj(size, k, uninit)); return id;
}
static Obj *rangeR(State *s, u64 addr, u64 n, const char *what) {
  Obj *o = s->mem.get(objId(addr)); u64 off = offOf(addr);
  if (!o) { if (gVerbose) fprintf(stderr, "[ptr] %llx n=%llu\n", (unsigned long long)addr, (unsigned long long)n); memErr(s, "bad-pointer", string(what) + " through invalid pointer"); }
  if (off + n > o->size || off > o->size) memErr(s, string("oob-read"), string(what) + " of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)off) + " of " + std::to_string(o->size) + "-byte object");
  return o;
}
static Obj *rangeW(State *s, u64 addr, u64 n, const char *what) {
  Obj *o = s->mem.get(objId(addr)); u64 off = offOf(addr);
  if (!o) { if (gVerbose) fprintf(stderr, "[ptr] %llx n=%llu\n", (unsigned long long)addr, (unsigned long long)n); memErr(s, "bad-pointer", string(what) + " through invalid pointer"); }
  if (off + n > o->size || off > o->size) memErr(s, string("oob-write"), string(what) + " of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)off) + " of " + std::to_string(o->size) + "-byte object");
  if (o->ro) memErr(s, "ro-write", string(what) + " to read-only object");
  return s->mem.wr(objId(addr));
}
static void copyMem(State *s, u64 dst, u64 src, u64 n) {
  if (!n) return;
  rangeR(s, src, n, "copy"); Obj *d = rangeW(s, dst, n, "copy"); Obj *o = s->mem.get(objId(src));
  u64 so = offOf(src), dof = offOf(dst);
  bool anySym = o->sym && memchr(o->st + so, B_SYM, n);
  if (anySym && !d->sym) d->sym = (u64 *)calloc(d->size ? d->size : 1, 8);
  memmove(d->data + dof, o->data + so, n);
  if (anySym) memmove(d->sym + dof, o->sym + so, 8 * n);
  memmove(d->st + dof, o->st + so, n);
}
static vector<T> readBytes(State *s, u64 addr, u64 n) {
  vector<T> r(n); if (!n) return r;
  rangeR(s, addr, n, "read");
  for (u64 i = 0; i < n; i++) r[i] = byteTerm(s, objId(addr), s->mem.get(objId(addr)), offOf(addr) + i);
  return r;
}
static void writeBytes(State *s, u64 addr, const vector<T> &b) {
  if (b.empty()) return;
  Obj *o = rangeW(s, addr, b.size(), "write"); u64 off = offOf(addr);
  for (size_t i = 0; i < b.size(); i++) {
    if (isC(b[i])) { o->data[off + i] = b[i]->c; o->st[off + i] = B_CONC; }
    else { if (!o->sym) o->sym = (u64 *)calloc(o->size, 8); o->st[off + i] = B_SYM; o->sym[off + i] = packSlot(b[i], 0); }
  }
}
static string cstr(State *s, u64 a) { string r; for (;;) { Value v = loadConc(s, a++, 8); if (v.t || !v.v) break; r += (char)v.v; } return r; }

// ------------------------------------------------------------------ state fork / merge
static State *cloneState(State *s) { State *n = new State(*s); return n; }

static bool mergeObj(State *A, uint32_t id, Obj *b, T cB) {
  Obj *a = A->mem.get(id);
  if (a->size != b->size) return false;
  if (a->size == 0) return true;
  a = A->mem.wr(id);
  u64 n = a->size;
  auto symOf = [](Obj *o, u64 i) { return o->st[i] == B_SYM ? o->sym[i] : 0; };
  auto wordLen = [&](Obj *o, u64 i) -> unsigned { // full word starting at i
    if (o->st[i] != B_SYM) return 0;
    u64 x = o->sym[i]; if (slotK(x)) return 0; T t = slotT(x); unsigned k = t->w / 8;
    if (i + k > n) return 0;
    for (unsigned j = 1; j < k; j++) if (o->st[i + j] != B_SYM || o->sym[i + j] != packSlot(t, j)) return 0;
    return k;
  };
  for (u64 i = 0; i < n;) {
    bool same = a->st[i] == b->st[i] && (a->st[i] == B_CONC ? a->data[i] == b->data[i] : a->st[i] == B_SYM ? symOf(a, i) == symOf(b, i) : true);
    if (same) { i++; continue; }
    unsigned wa = wordLen(a, i), wb = wordLen(b, i), k = 1;
    auto conc = [&](Obj *o, unsigned m) { if (i + m > n) return false; for (unsigned j = 0; j < m; j++) if (o->st[i + j] != B_CONC) return false; return true; };
    if (wa > 1 && wa == wb) k = wa;
    else if (wa > 1 && wa <= 8 && conc(b, wa)) k = wa;
    else if (wb > 1 && wb <= 8 && conc(a, wb)) k = wb;
    else if (i % 8 == 0 && conc(a, 8) && conc(b, 8)) k = 8;
    else if (i % 4 == 0 && conc(a, 4) && conc(b, 4)) k = 4;
    auto word = [&](Obj *o, bool isA) -> T {
      if (k > 1) {
        if (o->st[i] == B_SYM) return slotT(o->sym[i]);
        u64 v = 0; memcpy(&v, o->data + i, k); return tConst(8 * k, v);
      }
      if (o->st[i] == B_CONC) return tConst(8, o->data[i]);
      if (o->st[i] == B_SYM) { T t = slotT(o->sym[i]); return t->w == 8 ? t : tExtract(t, 8 * slotK(o->sym[i]), 8); }
      (void)isA; return tVar("uninit" + std::to_string(uninitN++), 8, true);
    };
    if (k == 8 && wa <= 1 && wb <= 1) { // backtrack not needed: bytes before differ only if i%8==0
    }
    T x = tIte(cB, word(b, false), word(a, true));
    if (isC(x)) { u128 c = cval(x); memcpy(a->data + i, &c, k); memset(a->st + i, B_CONC, k); }
    else {
      if (!a->sym) a->sym = (u64 *)calloc(n, 8);
      for (unsigned j = 0; j < k; j++) { a->st[i + j] = B_SYM; a->sym[i + j] = packSlot(x, j); }
    }
    i += k;
  }
  return true;
}
static bool mergeable(State *A, State *B) {
  if (A->noMerge || B->noMerge || A->dead || B->dead) return false;
  if (A->fr.size() != B->fr.size() || A->caught.size() != B->caught.size()) return false;
  for (size_t i = 0; i < A->fr.size(); i++) if (A->fr[i].f != B->fr[i].f || A->fr[i].pc != B->fr[i].pc || A->fr[i].call != B->fr[i].call) return false;
  for (size_t i = 0; i < A->caught.size(); i++) if (A->caught[i].obj != B->caught[i].obj) return false;
  if (A->cur.obj != B->cur.obj) return false;
  if (A->symc != B->symc) return false;
  return true;
}
// merge B into A; in the merged state B's values hold under cB
static bool mergeInto(State *A, State *B, T cB) {
  size_t np = std::max(A->mem.pages.size(), B->mem.pages.size());
  // first pass: sizes must agree
  for (size_t p = 0; p < np; p++) {
    Page *pa = p < A->mem.pages.size() ? A->mem.pages[p] : nullptr, *pb = p < B->mem.pages.size() ? B->mem.pages[p] : nullptr;
    if (pa == pb || !pa || !pb) continue;
    for (unsigned k = 0; k < PG; k++) if (pa->o[k] && pb->o[k] && pa->o[k] != pb->o[k] && pa->o[k]->size != pb->o[k]->size) return false;
  }
  for (size_t p = 0; p < np; p++) {
    Page *pb = p < B->mem.pages.size() ? B->mem.pages[p] : nullptr;
    if (!pb) continue;
    Page *pa = p < A->mem.pages.size() ? A->mem.pages[p] : nullptr;
    if (pa == pb) continue;
    if (!pa) { if (p >= A->mem.pages.size()) A->mem.pages.resize(p + 1, nullptr); A->mem.pages[p] = pb; pb->rc++; continue; }
    for (unsigned k = 0; k < PG; k++) {
      Obj *oa = A->mem.pages[p]->o[k], *ob = pb->o[k];
      if (oa == ob || !ob) continue;
      uint32_t id = p * PG + k;
      if (!oa) { ob->rc++; A->mem.put(id, ob); continue; }
      mergeObj(A, id, ob, cB);
    }
  }
  for (size_t i = 0; i < A->fr.size(); i++) {
    Frame &fa = A->fr[i], &fb = B->fr[i];
    for (int r = 0; r < fa.f->nregs; r++) {
      Value &x = fa.regs[r], &y = fb.regs[r];
      if (x.t == y.t && x.v == y.v) continue;
      unsigned w = fa.f->regw[r];
      x = t2val(tIte(cB, val2t(y, w), val2t(x, w)));
    }
    if (fa.allocas != fb.allocas) { std::set<uint32_t> u(fa.allocas.begin(), fa.allocas.end()); for (auto q : fb.allocas) if (!u.count(q)) fa.allocas.push_back(q); }
    fa.stackBytes = std::max(fa.stackBytes, fb.stackBytes);
  }
  A->stackUsed = std::max(A->stackUsed, B->stackUsed);
  gMerges++;
  return true;
}
static T conjOf(const vector<T> &v, size_t from) { T r = tTrue(); for (size_t i = from; i < v.size(); i++) r = tAnd(r, v[i]); return r; }

struct Child { State *s; T cond; int edge; };
static bool gDropFinished = false; // finished paths of the harness are not kept
static void execRegion(State *s, size_t depth, int stopBlock, vector<State *> &out);
static bool jump(State *s, int e) {
  Frame &f = s->fr.back(); Edge &E = f.f->edges[e];
  if (E.copies.size() == 1) { auto &c = E.copies[0]; f.regs[c.first] = c.second >= 0 ? f.regs[c.second] : f.f->consts[~c.second]; }
  else if (!E.copies.empty()) {
    static vector<Value> tmp; tmp.clear();
    for (auto &c : E.copies) tmp.push_back(c.second >= 0 ? f.regs[c.second] : f.f->consts[~c.second]);
    for (size_t i = 0; i < E.copies.size(); i++) f.regs[E.copies[i].first] = tmp[i];
  }
  f.pc = f.f->blocks[E.block].start;
  return true;
}
static int curBlock(State *s) { Frame &f = s->fr.back(); return f.f->blockOf[f.pc]; }

// run children to the join point and merge; the surviving states are returned in `res`
static void forkMerge(vector<Child> &ch, size_t pcLen, size_t depth, int stopBlock, size_t d, int P, vector<State *> &out, vector<State *> &cont) {
  gForks += ch.size() - 1;
  if (ch[0].s->noMerge) {
    for (auto &c : ch) {
      if (c.edge >= 0) { jump(c.s, c.edge); if (c.s->fr.size() == depth && curBlock(c.s) == stopBlock) { out.push_back(c.s); continue; } }
      execRegion(c.s, depth, stopBlock, out);
    }
    return;
  }
  struct R { State *s; int child; };
  vector<R> rs;
  for (size_t i = 0; i < ch.size(); i++) {
    vector<State *> o;
    if (ch[i].edge >= 0) jump(ch[i].s, ch[i].edge);
    if (ch[i].edge >= 0 && P >= 0 && curBlock(ch[i].s) == P && ch[i].s->fr.size() == d) o.push_back(ch[i].s);
    else execRegion(ch[i].s, d, P, o);
    for (auto x : o) rs.push_back({x, (int)i});
  }
  // group
  struct G { State *s; T suffix; int n; bool exact; int child; };
  vector<G> gs;
  for (auto &r : rs) {
    T suf = conjOf(r.s->pc, std::min(pcLen, r.s->pc.size())); bool exact = suf == ch[r.child].cond; bool done = false;
    for (auto &g : gs) {
      if (!mergeable(g.s, r.s)) continue;
      T cB = (g.child != r.child && g.child >= 0) ? ch[r.child].cond : suf;
      if (g.child == -2) cB = exact ? ch[r.child].cond : suf;
      if (!mergeInto(g.s, r.s, cB)) { gMergeFail++; continue; }
      g.suffix = tOr(g.suffix, suf); g.n++; g.exact = g.exact && exact && g.child != r.child; g.child = -2;
      g.s->pc.resize(std::min(pcLen, g.s->pc.size()));
      delete r.s; done = true; break;
    }
    if (!done) gs.push_back({r.s, suf, 1, exact, r.child});
  }
  for (auto &g : gs) {
    if (g.n > 1) {
      g.s->pc.resize(std::min(pcLen, g.s->pc.size()));
      if (!(g.exact && g.n == (int)ch.size())) addFact(g.s, g.suffix);
      rebuildEqs(g.s);
    }
    if (g.s->fr.size() < depth) { out.push_back(g.s); continue; }
    if (g.s->fr.size() == depth && g.s->fr.size() == d && P >= 0 && P == stopBlock && g.s->fr.back().pc == g.s->fr.back().f->blocks[P].start) { out.push_back(g.s); continue; }
    cont.push_back(g.s);
  }
}

// ------------------------------------------------------------------ exceptions
static std::unordered_map<string, u64> globalByName;
static bool typeMatch(State *s, u64 thrown, u64 want) {
  if (want == 0 || thrown == want) return true;
  Value vt = loadConc(s, thrown, 64); if (vt.t) return false;
  auto is = [&](const char *n) { auto f = globalByName.find(n); return f != globalByName.end() && objId(f->second) == objId(vt.v); };
  if (is("_ZTVN10__cxxabiv120__si_class_type_infoE")) return typeMatch(s, loadConc(s, thrown + 16, 64).v, want);
  if (is("_ZTVN10__cxxabiv121__vmi_class_type_infoE")) {
    u64 n = loadConc(s, thrown + 20, 32).v;
    for (u64 i = 0; i < n; i++) if (typeMatch(s, loadConc(s, thrown + 24 + 16 * i, 64).v, want)) return true;
  }
  return false;
}
static void freeFrame(State *s) {
  Frame &f = s->fr.back();
  for (auto id : f.allocas) s->mem.drop(id);
  s->stackUsed -= f.stackBytes;
  s->fr.pop_back();
}
static vector<vector<Value>> regPool;
static void popFrame(State *s) { auto &r = s->fr.back().regs; if (regPool.size() < 64) regPool.push_back(std::move(r)); freeFrame(s); }
// s->cur is in flight; the top frame's current instruction is the throwing call
static void unwind(State *s) {
  for (;;) {
    if (s->fr.empty()) break;
    Frame &f = s->fr.back();
    if (f.pc < (int)f.f->code.size() && f.f->code[f.pc].op == I_CALL) {
      auto ci = (CallInfo *)f.f->code[f.pc].x;
      if (ci->invoke) {
        int b = f.f->edges[ci->unwindEdge].block; int q = f.f->blocks[b].start;
        while (f.f->code[q].op != I_LPAD) q++;
        auto lp = (LPad *)f.f->code[q].x; bool hit = lp->cleanup; u64 sel = 0;
        for (auto &c : lp->clauses) {
          if (c.first) { hit = true; sel = 0xfffffff; break; }
          if (typeMatch(s, s->cur.tinfo, c.second)) { hit = true; sel = c.second ? objId(c.second) : 1; break; }
        }
        if (hit) {
          jump(s, ci->unwindEdge);
          DInst &D = f.f->code[q];
          f.regs[D.dst] = {s->cur.obj, nullptr}; f.regs[D.dst + 1] = {sel, nullptr};
          return;
        }
      }
    }
    if (s->fr.size() == 1) {
      string tn = "?"; for (auto &g : globalByName) if (g.second == s->cur.tinfo) tn = L::demangle(g.first);
      reportErr(s, tTrue(), "uncaught-exception", "exception escapes: " + tn);
      throw PathEnd{};
    }
    popFrame(s);
  }
  throw PathEnd{};
}

// ------------------------------------------------------------------ builtins
#include "builtins.inc"

// ------------------------------------------------------------------ the interpreter
static inline u64 sx(u64 v, unsigned w) { return w >= 64 ? v : (u64)(((int64_t)(v << (64 - w))) >> (64 - w)); }
static T symBin(uint16_t op, T a, T b) {
  switch (op) {
  case I_ADD: return tAdd(a, b); case I_SUB: return tSub(a, b); case I_MUL: return tMul(a, b);
  case I_UDIV: return tUDiv(a, b); case I_SDIV: return tSDiv(a, b); case I_UREM: return tURem(a, b); case I_SREM: return tSRem(a, b);
  case I_SHL: return tShl(a, b); case I_LSHR: return tLShr(a, b); case I_ASHR: return tAShr(a, b);
  case I_AND: return tAnd(a, b); case I_OR: return tOr(a, b); case I_XOR: return tXor(a, b);
  case I_EQ: return tEq(a, b); case I_NE: return tNot(tEq(a, b));
  case I_ULT: return tUlt(a, b); case I_ULE: return tUle(a, b); case I_UGT: return tUlt(b, a); case I_UGE: return tUle(b, a);
  case I_SLT: return tSlt(a, b); case I_SLE: return tSle(a, b); case I_SGT: return tSlt(b, a); case I_SGE: return tSle(b, a);
  }
  abort();
}
static double asD(const Value &v, unsigned w) { if (w == 32) { float f; uint32_t x = v.v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v.v, 8); return d; }
static Value fromD(double d, unsigned w) { if (w == 32) { float f = d; uint32_t x; memcpy(&x, &f, 4); return {x, nullptr}; } u64 x; memcpy(&x, &d, 8); return {x, nullptr}; }

// cond depends on uninitialised data?
static void checkUninit(State *s, T c, const char *what) {
  if (!(c->flags & 1)) return;
  // rename uninitialised vars and ask whether the value can differ
  Subst sb; vector<T> st{c}; std::unordered_set<T> seen; 
  while (!st.empty()) { T t = st.back(); st.pop_back(); if (!seen.insert(t).second) continue; if (t->op == T_VAR && gVars[t->c].uninit) sb.memo[t] = tVar("alt", t->w, true); for (unsigned i = 0; i < t->n; i++) st.push_back(t->a[i]); }
  T c2 = sb.apply(c);
  if (c2 == c) return;
  string id = string("uninit");
  if (gViolIds.count(id)) return;
  T diff = tNot(tEq(c, c2));
  Model m; if (isFalse(diff)) return;
  if (gVerbose) { fprintf(stderr, "[uninit query] %s: %s\n", what, tStr(diff, 10).substr(0, 3000).c_str()); for (T e : s->pc) fprintf(stderr, "   pc %s\n", tStr(e, 5).substr(0, 300).c_str()); }
  if (feasibleFull(s, diff, &m)) recordViolation(s, id, string(what) + " depends on uninitialised memory in " + topFn(s), &m);
}
static u64 gEnumLimit = 5000;
static vector<u64> enumerate(State *s, T t) {
  vector<u64> vals; 
  if (t->w == 1) { if (may(s, tNot(t))) vals.push_back(0); if (may(s, t)) vals.push_back(1); return vals; }
  if (t->w <= 64 && t->umax - t->umin <= 64) {
    for (u64 v = t->umin; v <= t->umax; v++) if (may(s, tEq(t, tConst(t->w, v)))) vals.push_back(v);
    return vals;
  }
  // model enumeration (opaque)
  auto cs = relevant(s, t);
  T blocked = tTrue();
  while (vals.size() < gEnumLimit) {
    if (now() - tStart > timeLimit) throw Abort{"time limit"};
    // binary search via bits is avoided: ask for a model through interval probing
    vector<T> q = cs; q.push_back(blocked);
    // find minimal value > last by bisection on umin..umax
    u64 lo = vals.empty() ? t->umin : vals.back() + 1, hi = t->umax;
    if (lo > hi || (!vals.empty() && lo == 0)) break;
    auto feas = [&](u64 a, u64 b) { vector<T> q = cs; q.push_back(tUle(tConst(t->w, a), t)); q.push_back(tUle(t, tConst(t->w, b))); return S->checkOpaque(q) != SAT_UNSAT; };
    if (!feas(lo, hi)) break;
    while (lo < hi) { u64 mid = lo + (hi - lo) / 2; if (feas(lo, mid)) hi = mid; else lo = mid + 1; }
    vals.push_back(lo);
  }
  if (vals.size() >= gEnumLimit) throw Abort{"too many values to enumerate at " + whereStr(s)};
  return vals;
}

static void enterCall(State *s, CallInfo *ci, FuncInfo *F) {
  ensure(F);
  F->executed++;
  size_t cur = s->fr.size() - 1;
  for (int i = 0; i < F->nargs && i < (int)ci->byval.size(); i++) if (ci->byval[i] && ci->args[i] >= 0) needC(s, s->fr[cur].regs[ci->args[i]], ci->args[i]);
  Frame nf; nf.f = F; nf.pc = 0; nf.call = ci; nf.stackBytes = 0;
  if (!regPool.empty()) { nf.regs = std::move(regPool.back()); regPool.pop_back(); }
  nf.regs.assign(F->nregs, Value{0, nullptr});
  {
    Frame &f = s->fr[cur];
    if ((int)ci->args.size() < F->nargs) throw Abort{"call arity mismatch: " + F->name};
    for (int i = 0; i < F->nargs; i++) { int o = ci->args[i]; nf.regs[i] = o >= 0 ? f.regs[o] : f.f->consts[~o]; }
  }
  if (s->fr.size() > 3000) throw Abort{"call depth"};
  s->fr.push_back(std::move(nf));
  for (int i = 0; i < F->nargs && i < (int)ci->byval.size(); i++) if (ci->byval[i]) {
    uint32_t id = allocObj(s, ci->byval[i], K_STACK, true); s->fr.back().allocas.push_back(id);
    Value &v = s->fr.back().regs[i]; copyMem(s, addrOf(id), v.v, ci->byval[i]); v = {addrOf(id), nullptr};
  }
}
static void doReturn(State *s, vector<Value> &rv) {
  CallInfo *ci = s->fr.back().call;
  popFrame(s);
  if (s->fr.empty()) return;
  Frame &f = s->fr.back();
  for (unsigned i = 0; i < ci->nret && i < rv.size(); i++) f.regs[ci->dst + i] = rv[i];
  if (ci->invoke) jump(s, ci->normalEdge); else f.pc++;
}

static void execRegion(State *s, size_t depth, int stopBlock, vector<State *> &out) {
  u64 tick = 0;
  for (;;) {
    if (s->fr.size() < depth) { if (depth == 1 && gDropFinished && s->noMerge) { gPaths++; delete s; } else out.push_back(s); return; }
    try {
      // inner fast loop
      for (;;) {
        if ((++tick & 0xfffff) == 0 && now() - tStart > timeLimit) throw Abort{"time limit"};
        Frame &f = s->fr.back(); FuncInfo *F = f.f; DInst &I = F->code[f.pc]; Value *R = f.regs.data(); gInsts++;
#define V(x) ((x) >= 0 ? R[x] : F->consts[~(x)])
#define BINC(expr) { const Value &a = V(I.a), &b = V(I.b); if (!a.t && !b.t) { R[I.dst] = {(u64)(expr) & maskw(I.w), nullptr}; } else R[I.dst] = t2val(symBin(I.op, val2t(a, I.w), val2t(b, I.w))); f.pc++; break; }
#define CMPC(expr) { const Value &a = V(I.a), &b = V(I.b); if (!a.t && !b.t) { R[I.dst] = {(u64)((expr) ? 1 : 0), nullptr}; } else R[I.dst] = t2val(symBin(I.op, val2t(a, I.w), val2t(b, I.w))); f.pc++; break; }
        switch (I.op) {
        case I_NOP: f.pc++; break;
        case I_ADD: BINC(a.v + b.v)
        case I_SUB: BINC(a.v - b.v)
        case I_MUL: BINC(a.v * b.v)
        case I_AND: BINC(a.v & b.v)
        case I_OR: BINC(a.v | b.v)
        case I_XOR: BINC(a.v ^ b.v)
        case I_SHL: BINC(b.v >= I.w ? 0 : a.v << b.v)
        case I_LSHR: BINC(b.v >= I.w ? 0 : a.v >> b.v)
        case I_ASHR: BINC((u64)((int64_t)sx(a.v, I.w) >> (b.v >= I.w ? 63 : b.v)))
        case I_UDIV: case I_SDIV: case I_UREM: case I_SREM: {
          Value a = V(I.a), b = V(I.b);
          T bz = tEq(val2t(b, I.w), tConst128(I.w, 0));
          if (isTrue(bz)) { reportErr(s, tTrue(), "div-zero", "division by zero in " + topFn(s)); throw PathEnd{}; }
          if (!isC(bz) && may(s, bz)) { reportErr(s, bz, "div-zero", "division by zero in " + topFn(s)); addFact(s, tNot(bz)); }
          if (!a.t && !b.t) {
            u64 r; int64_t sa = sx(a.v, I.w), sb = sx(b.v, I.w);
            if (I.op == I_UDIV) r = a.v / b.v; else if (I.op == I_UREM) r = a.v % b.v;
            else if (sb == -1) r = I.op == I_SDIV ? (u64)(0 - (u64)sa) : 0;
            else r = I.op == I_SDIV ? sa / sb : sa % sb;
            R[I.dst] = {r & maskw(I.w), nullptr};
          } else R[I.dst] = t2val(symBin(I.op, val2t(a, I.w), val2t(b, I.w)));
          f.pc++; break;
        }
        case I_EQ: CMPC(a.v == b.v)
        case I_NE: CMPC(a.v != b.v)
        case I_ULT: CMPC(a.v < b.v)
        case I_ULE: CMPC(a.v <= b.v)
        case I_UGT: CMPC(a.v > b.v)
        case I_UGE: CMPC(a.v >= b.v)
        case I_SLT: CMPC((int64_t)sx(a.v, I.w) < (int64_t)sx(b.v, I.w))
        case I_SLE: CMPC((int64_t)sx(a.v, I.w) <= (int64_t)sx(b.v, I.w))
        case I_SGT: CMPC((int64_t)sx(a.v, I.w) > (int64_t)sx(b.v, I.w))
        case I_SGE: CMPC((int64_t)sx(a.v, I.w) >= (int64_t)sx(b.v, I.w))
        case I_COPY: R[I.dst] = V(I.a); f.pc++; break;
        case I_ZEXT: { Value a = V(I.a); if (!a.t && I.w <= 64) R[I.dst] = a; else R[I.dst] = t2val(tZExt(val2t(a, I.w2), I.w)); f.pc++; break; }
        case I_SEXT: { Value a = V(I.a); if (!a.t && I.w <= 64) R[I.dst] = {sx(a.v, I.w2) & maskw(I.w), nullptr}; else R[I.dst] = t2val(tSExt(val2t(a, I.w2), I.w)); f.pc++; break; }
        case I_TRUNC: { Value a = V(I.a); if (!a.t) R[I.dst] = {a.v & maskw(I.w), nullptr}; else R[I.dst] = t2val(tExtract(a.t, 0, I.w)); f.pc++; break; }
        case I_SELECT: {
          const Value &c = V(I.a); Value a = V(I.b), b = V(I.c);
          if (!c.t) R[I.dst] = c.v ? a : b;
          else { T ct = simp(s, c.t); R[I.dst] = t2val(tIte(ct, val2t(a, I.w), val2t(b, I.w))); }
          f.pc++; break;
        }
        case I_GEP: {
          Value a = V(I.a);
          auto gi = (GepInfo *)I.x; u64 off = I.imm; T to = nullptr;
          if (gi) for (auto &ix : gi->idx) {
            const Value &x = V(std::get<0>(ix)); unsigned iw = std::get<2>(ix);
            if (!x.t) off += sx(x.v, iw) * std::get<1>(ix);
            else { T k = tMul(tSExt(x.t, 64), tConst(64, std::get<1>(ix))); to = to ? tAdd(to, k) : k; }
          }
          if (!a.t && !to) R[I.dst] = {a.v + off, nullptr};
          else { T r = tAdd(val2t(a, 64), tConst(64, off)); if (to) r = tAdd(r, to); R[I.dst] = t2val(r); }
          f.pc++; break;
        }
        case I_LOAD: {
          Value a = V(I.a); if (I.imm) a = a.t ? t2val(tAdd(a.t, tConst(64, I.imm))) : Value{a.v + I.imm, nullptr};
          Value r = loadVal(s, a, I.imm ? -1 : I.a, I.w); s->fr.back().regs[I.dst] = r; f.pc++; break;
        }
        case I_STORE: {
          Value a = V(I.a); if (I.imm) a = a.t ? t2val(tAdd(a.t, tConst(64, I.imm))) : Value{a.v + I.imm, nullptr};
          storeVal(s, a, I.imm ? -1 : I.a, V(I.b), I.w); f.pc++; break;
        }
        case I_ALLOCA: {
          Value n = V(I.a); if (n.t) { T k = simp(s, n.t); if (isC(k)) n = {k->c, nullptr}; else throw NeedFork{n.t, I.a}; }
          u64 sz = I.imm * n.v;
          if (n.v > (1ULL << 31)) { reportErr(s, tTrue(), "stack-overflow", "stack allocation of " + std::to_string(sz) + " bytes in " + topFn(s)); throw PathEnd{}; }
          if (s->stackUsed + sz > (8u << 20)) { reportErr(s, tTrue(), "stack-overflow", "stack allocation of " + std::to_string(sz) + " bytes in " + topFn(s)); throw PathEnd{}; }
          s->stackUsed += sz; f.stackBytes += sz;
          uint32_t id = allocObj(s, sz, K_STACK, true); f.allocas.push_back(id); R[I.dst] = {addrOf(id), nullptr}; f.pc++; break;
        }
        case I_BR: {
          jump(s, I.a);
          if (s->fr.size() == depth && F->edges[I.a].block == stopBlock) { out.push_back(s); return; }
          break;
        }
        case I_CBR: {
          Value c = V(I.a); int e;
          if (!c.t) e = c.v ? I.b : I.c;
          else {
            T t = simp(s, c.t);
            if (t->flags & 1) checkUninit(s, t, "branch");
            bool mt = may(s, t), mf = mt ? may(s, tNot(t)) : true;
            if (mt && mf) {
              vector<Child> ch; size_t pl = s->pc.size(); int P = F->blocks[F->blockOf[f.pc]].ipdom; size_t d = s->fr.size();
              State *s2 = cloneState(s); addFact(s, t); addFact(s2, tNot(t));
              ch.push_back({s, t, I.b}); ch.push_back({s2, tNot(t), I.c});
              vector<State *> cont; forkMerge(ch, pl, depth, stopBlock, d, P, out, cont);
              if (cont.empty()) return;
              for (size_t i = 1; i < cont.size(); i++) execRegion(cont[i], depth, stopBlock, out);
              s = cont[0]; goto again;
            }
            e = mt ? I.b : I.c;
          }
          jump(s, e);
          if (s->fr.size() == depth && F->edges[e].block == stopBlock) { out.push_back(s); return; }
          break;
        }
        case I_SWITCH: {
          Value c = V(I.a); auto si = (SwitchInfo *)I.x; int e = si->deflt;
          if (c.t) { T k = simp(s, c.t); if (isC(k)) c = {k->c, nullptr}; else {
              if (k->flags & 1) checkUninit(s, k, "switch");
              // split per target edge
              vector<Child> ch; size_t pl = s->pc.size(); int P = F->blocks[F->blockOf[f.pc]].ipdom; size_t d = s->fr.size();
              std::map<int, T> byE; T rest = tTrue();
              for (size_t i = 0; i < si->vals.size(); i++) { T q = tEq(k, tConst(I.w, si->vals[i])); auto it = byE.find(si->edges[i]); if (it == byE.end()) byE[si->edges[i]] = q; else it->second = tOr(it->second, q); rest = tAnd(rest, tNot(q)); }
              { auto it = byE.find(si->deflt); if (it == byE.end()) byE[si->deflt] = rest; else it->second = tOr(it->second, rest); }
              vector<std::pair<int, T>> live; for (auto &p : byE) if (may(s, p.second)) live.push_back(p);
              if (live.empty()) throw PathEnd{};
              if (live.size() == 1) { addFact(s, live[0].second); e = live[0].first; jump(s, e); if (s->fr.size() == depth && F->edges[e].block == stopBlock) { out.push_back(s); return; } break; }
              for (size_t i = 0; i < live.size(); i++) { State *n = i + 1 < live.size() ? cloneState(s) : s; ch.push_back({n, live[i].second, live[i].first}); }
              for (auto &x : ch) addFact(x.s, x.cond);
              vector<State *> cont; forkMerge(ch, pl, depth, stopBlock, d, P, out, cont);
              if (cont.empty()) return;
              for (size_t i = 1; i < cont.size(); i++) execRegion(cont[i], depth, stopBlock, out);
              s = cont[0]; goto again;
          } }
          for (size_t i = 0; i < si->vals.size(); i++) if (si->vals[i] == c.v) { e = si->edges[i]; break; }
          jump(s, e);
          if (s->fr.size() == depth && F->edges[e].block == stopBlock) { out.push_back(s); return; }
          break;
        }
        case I_RET: {
          auto ops = (vector<int> *)I.x; vector<Value> rv; for (int o : *ops) rv.push_back(V(o));
          doReturn(s, rv);
          if (s->fr.size() < depth) goto again;
          if (s->fr.size() == depth && stopBlock >= 0 && s->fr.back().pc == s->fr.back().f->blocks[stopBlock].start && s->fr.back().f->blockOf[s->fr.back().pc] == stopBlock) { out.push_back(s); return; }
          break;
        }
        case I_CALL: {
          auto ci = (CallInfo *)I.x; FuncInfo *G = ci->callee;
          if (ci->indirect) {
            Value p = V(ci->calleeReg); if (p.t) { T k = simp(s, p.t); if (isC(k)) p = {k->c, nullptr}; else if (k->op == T_ITE) throw NeedFork{k->a[0], -1}; else throw NeedFork{k, ci->calleeReg}; }
            auto it = funcByAddr.find(p.v); if (it == funcByAddr.end()) memErr(s, "bad-call", "call through invalid function pointer");
            G = it->second;
          }
          if (G->builtin >= 0 && (G->isDecl || builtinForced(G->builtin))) {
            Value ret[8]; for (auto &r : ret) r = {0, nullptr};
            vector<Value> args; for (int o : ci->args) args.push_back(V(o));
            int rc = callBuiltin(s, G->builtin, ci, args, ret);
            if (rc == 0) { Frame &f2 = s->fr.back(); for (unsigned i = 0; i < ci->nret; i++) f2.regs[ci->dst + i] = ret[i]; if (ci->invoke) { jump(s, ci->normalEdge); if (s->fr.size() == depth && curBlock(s) == stopBlock && s->fr.back().pc == s->fr.back().f->blocks[stopBlock].start) { out.push_back(s); return; } } else f2.pc++; }
            else { // control transferred (unwinding)
              if (s->fr.size() < depth) goto again;
            }
            break;
          }
          if (G->isDecl) { incomplete("call to unmodelled external " + L::demangle(G->name)); throw PathEnd{}; }
          enterCall(s, ci, G);
          break;
        }
        case I_LPAD: f.pc++; break;
        case I_RESUME: { unwindFromResume(s); if (s->fr.size() < depth) goto again; break; }
        case I_UNREACHABLE: reportErr(s, tTrue(), "unreachable", "undefined behaviour (unreachable) in " + topFn(s)); throw PathEnd{};
        case I_FP: { Value a = V(I.a), b = V(I.b); needC(s, a, I.a); needC(s, b, I.b); double x = asD(a, I.w), y = asD(b, I.w), r = 0;
          switch (I.imm) { case L::Instruction::FAdd: r = x + y; break; case L::Instruction::FSub: r = x - y; break; case L::Instruction::FMul: r = x * y; break; case L::Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); }
          R[I.dst] = fromD(r, I.w); f.pc++; break; }
        case I_FNEG: { Value a = V(I.a); needC(s, a, I.a); R[I.dst] = fromD(-asD(a, I.w), I.w); f.pc++; break; }
        case I_FCMP: { Value a = V(I.a), b = V(I.b); needC(s, a, I.a); needC(s, b, I.b); double x = asD(a, I.w), y = asD(b, I.w); bool un = std::isnan(x) || std::isnan(y), r = false;
          switch ((L::CmpInst::Predicate)I.imm) { case L::CmpInst::FCMP_OEQ: r = !un && x == y; break; case L::CmpInst::FCMP_OGT: r = !un && x > y; break; case L::CmpInst::FCMP_OGE: r = !un && x >= y; break; case L::CmpInst::FCMP_OLT: r = !un && x < y; break; case L::CmpInst::FCMP_OLE: r = !un && x <= y; break; case L::CmpInst::FCMP_ONE: r = !un && x != y; break; case L::CmpInst::FCMP_ORD: r = !un; break; case L::CmpInst::FCMP_UNO: r = un; break; case L::CmpInst::FCMP_UEQ: r = un || x == y; break; case L::CmpInst::FCMP_UGT: r = un || x > y; break; case L::CmpInst::FCMP_UGE: r = un || x >= y; break; case L::CmpInst::FCMP_ULT: r = un || x < y; break; case L::CmpInst::FCMP_ULE: r = un || x <= y; break; case L::CmpInst::FCMP_UNE: r = un || x != y; break; default: r = I.imm == L::CmpInst::FCMP_TRUE; }
          R[I.dst] = {(u64)r, nullptr}; f.pc++; break; }
        case I_SITOFP: { Value a = V(I.a); needC(s, a, I.a); R[I.dst] = fromD((double)(int64_t)sx(a.v, I.w2), I.w); f.pc++; break; }
        case I_UITOFP: { Value a = V(I.a); needC(s, a, I.a); R[I.dst] = fromD((double)a.v, I.w); f.pc++; break; }
        case I_FPTOSI: { Value a = V(I.a); needC(s, a, I.a); R[I.dst] = {(u64)(int64_t)asD(a, I.w2) & maskw(I.w), nullptr}; f.pc++; break; }
        case I_FPTOUI: { Value a = V(I.a); needC(s, a, I.a); R[I.dst] = {(u64)asD(a, I.w2) & maskw(I.w), nullptr}; f.pc++; break; }
        case I_FPEXT: case I_FPTRUNC: { Value a = V(I.a); needC(s, a, I.a); R[I.dst] = fromD(asD(a, I.w2), I.w); f.pc++; break; }
        case I_RMW: {
          Value p = V(I.a), v = V(I.b); Value o = loadVal(s, p, I.a, I.w); T a = val2t(o, I.w), b = val2t(v, I.w), r;
          switch ((L::AtomicRMWInst::BinOp)I.imm) { case L::AtomicRMWInst::Xchg: r = b; break; case L::AtomicRMWInst::Add: r = tAdd(a, b); break; case L::AtomicRMWInst::Sub: r = tSub(a, b); break; case L::AtomicRMWInst::And: r = tAnd(a, b); break; case L::AtomicRMWInst::Or: r = tOr(a, b); break; case L::AtomicRMWInst::Xor: r = tXor(a, b); break; default: throw Abort{"atomicrmw"}; }
          storeVal(s, p, I.a, t2val(r), I.w); s->fr.back().regs[I.dst] = o; f.pc++; break;
        }
        case I_CMPXCHG: {
          Value p = V(I.a); T e = val2t(V(I.b), I.w), nv = val2t(V(I.c), I.w); Value o = loadVal(s, p, I.a, I.w); T eq = tEq(val2t(o, I.w), e);
          storeVal(s, p, I.a, t2val(tIte(eq, nv, val2t(o, I.w))), I.w); R = s->fr.back().regs.data(); R[I.dst] = o; R[I.dst + 1] = t2val(eq); f.pc++; break;
        }
        default: incomplete(string("unsupported instruction: ") + (I.x ? (const char *)I.x : "?") + " in " + F->name); throw PathEnd{};
        }
      }
    } catch (NeedFork &nf) {
      T t = nf.t;
      size_t pl = s->pc.size(); Frame &f = s->fr.back(); int P = f.f->blocks[f.f->blockOf[f.pc]].ipdom; size_t d = s->fr.size();
      if (t->flags & 1) checkUninit(s, t, "address or size");
      vector<u64> vals; if (nf.n) for (unsigned i = 0; i < nf.n; i++) vals.push_back(i); else vals = enumerate(s, t);
      if (vals.empty()) { gDead++; delete s; return; }
      vector<Child> ch;
      for (size_t i = 0; i < vals.size(); i++) {
        State *n = i + 1 < vals.size() ? cloneState(s) : s;
        ch.push_back({n, tEq(t, tConst(t->w, vals[i])), -1});
      }
      for (size_t i = 0; i < ch.size(); i++) { addFact(ch[i].s, ch[i].cond); if (t->op != T_VAR || true) ch[i].s->eqs.push_back({t, tConst(t->w, vals[i])}); if (nf.reg >= 0) ch[i].s->fr.back().regs[nf.reg] = {vals[i], nullptr}; }
      if (ch.size() == 1) { s = ch[0].s; goto again; }
      vector<State *> cont;
      if (s->noMerge) { for (auto &c : ch) execRegion(c.s, depth, stopBlock, out); return; }
      forkMerge(ch, pl, depth, stopBlock, d, P, out, cont);
      if (cont.empty()) return;
      for (size_t i = 1; i < cont.size(); i++) execRegion(cont[i], depth, stopBlock, out);
      s = cont[0];
    } catch (PathEnd &) { gDead++; gPaths++; delete s; return; }
    catch (HugeAlloc &h) { incomplete("allocation of " + std::to_string(h.n) + " bytes in " + topFn(s)); gDead++; gPaths++; delete s; return; }
  again:;
  }
}
#include "main.inc"
