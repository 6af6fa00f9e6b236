// llsym: symbolic execution of LLVM IR with state merging at post-dominators.
#include "ir.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/Demangle/Demangle.h>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <unordered_set>
#include <chrono>
#include <algorithm>
#include <functional>
#include <pthread.h>
#include <unistd.h>

using std::string; using std::vector;
namespace L = llvm;

static L::Module *M; static const L::DataLayout *DL;
static Solver *S;
static double tStart; static double timeLimit = 800;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static bool gVerbose = false;

// ------------------------------------------------------------------ results
struct Violation { string id, msg, where; std::map<string, u64> vars; vector<HashEntry> hashes; bool haveModel; };
static vector<Violation> gViol; static std::set<string> gViolIds;
static std::set<string> gIncomplete; static std::map<string, u64> gReached;
static std::map<string, u64> gAsserts;      // id -> number of evaluations
static u64 gAssertTrivial = 0, gAssertPivot = 0, gAssertSolver = 0, gForks = 0, gMerges = 0, gPaths = 0, gInsts = 0, gMergeFail = 0;
static std::map<string, u64> gNotes;
static int gMaxViol = 8;
struct Abort { string why; };
static void incomplete(const string &s) { if (gIncomplete.insert(s).second && gVerbose) fprintf(stderr, "[incomplete] %s\n", s.c_str()); }

// ------------------------------------------------------------------ memory
enum { B_CONC = 0, B_UNINIT = 1, B_SYM = 2 };
enum Kind : uint8_t { K_HEAP, K_STACK, K_GLOBAL, K_FUNC };
struct Obj {
  int rc; uint32_t size; Kind kind; bool ro; bool freed;
  uint8_t *data, *st; u64 *sym;
};
struct HugeAlloc { u64 n; };

static Obj *newObj(u64 size, Kind k, bool uninit) {
  if (size > (1ULL << 29)) throw HugeAlloc{size};
  Obj *o = (Obj *)malloc(sizeof(Obj) + 2 * size + 16); if (!o) throw std::bad_alloc();
  o->rc = 1; o->size = size; o->kind = k; o->ro = false; o->freed = false;
  o->data = (uint8_t *)(o + 1); o->st = o->data + size; o->sym = nullptr;
  memset(o->data, 0, size); memset(o->st, uninit ? B_UNINIT : B_CONC, size);
  return o;
}
static void unref(Obj *o) { if (o && --o->rc == 0) { free(o->sym); free(o); } }
static Obj *cloneObj(Obj *o) {
  Obj *n = (Obj *)malloc(sizeof(Obj) + 2 * (size_t)o->size + 16); if (!n) throw std::bad_alloc();
  *n = *o; n->rc = 1; n->data = (uint8_t *)(n + 1); n->st = n->data + n->size;
  memcpy(n->data, o->data, 2 * (size_t)o->size);
  if (o->sym) { n->sym = (u64 *)malloc(8 * (size_t)o->size); memcpy(n->sym, o->sym, 8 * (size_t)o->size); }
  return n;
}
static inline u64 packSlot(T t, unsigned k) { return (u64)t | ((u64)k << 56); }
static inline T slotT(u64 s) { return (T)(s & 0x00ffffffffffffffULL); }
static inline unsigned slotK(u64 s) { return s >> 56; }

static const u64 OFF0 = 0x1000;                 // object data starts here within its 4G window
static const unsigned PG = 256;
struct Page { int rc; unsigned live; Obj *o[PG]; };
static void unrefPage(Page *p) { if (p && --p->rc == 0) { for (auto o : p->o) unref(o); delete p; } }
static uint32_t gNextObj = 1;                   // monotonic: ids are unique over all states

struct Mem {
  vector<Page *> pages;
  Mem() {}
  Mem(const Mem &m) : pages(m.pages) { for (auto p : pages) if (p) p->rc++; }
  Mem &operator=(const Mem &) = delete;
  ~Mem() { for (auto p : pages) unrefPage(p); }
  Obj *get(uint32_t id) const {
    uint32_t pi = id / PG; if (pi >= pages.size() || !pages[pi]) return nullptr;
    return pages[pi]->o[id % PG];
  }
  Page *wpage(uint32_t pi) {
    if (pi >= pages.size()) pages.resize(pi + 1 + pages.size() / 8, nullptr);
    Page *p = pages[pi];
    if (!p) { p = new Page(); p->rc = 1; p->live = 0; memset(p->o, 0, sizeof p->o); pages[pi] = p; return p; }
    if (p->rc > 1) {
      Page *n = new Page(*p); n->rc = 1; for (auto o : n->o) if (o) o->rc++;
      p->rc--; pages[pi] = n; return n;
    }
    return p;
  }
  void put(uint32_t id, Obj *o) { Page *p = wpage(id / PG); if (p->o[id % PG]) { unref(p->o[id % PG]); p->live--; } p->o[id % PG] = o; if (o) p->live++; }
  void drop(uint32_t id) {
    uint32_t pi = id / PG; if (pi >= pages.size() || !pages[pi]) return;
    Page *p = wpage(pi); if (p->o[id % PG]) { unref(p->o[id % PG]); p->o[id % PG] = nullptr; p->live--; }
    if (!p->live && p->rc == 1 && pi + 1 < gNextObj / PG) { unrefPage(p); pages[pi] = nullptr; }
  }
  Obj *wr(uint32_t id) {
    Page *p = wpage(id / PG); Obj *o = p->o[id % PG];
    if (o->rc > 1) { Obj *n = cloneObj(o); o->rc--; p->o[id % PG] = n; return n; }
    return o;
  }
};
static inline u64 addrOf(uint32_t id) { return ((u64)id << 32) | OFF0; }
static inline uint32_t objId(u64 a) { return a >> 32; }
static inline u64 offOf(u64 a) { return (a & 0xffffffffULL) - OFF0; }

// ------------------------------------------------------------------ state
struct Frame {
  FuncInfo *f; int pc; vector<Value> regs; vector<uint32_t> allocas; CallInfo *call; u64 stackBytes;
};
struct Exn { u64 obj, tinfo; };
struct CoStack { vector<Frame> fr; vector<Exn> caught; Exn cur{0, 0}; int uncaught = 0; u64 stackUsed = 0; };
struct State {
  vector<CoStack> co; u64 curCo = 0;
  vector<Frame> fr; Mem mem; vector<T> pc; vector<Exn> caught; Exn cur{0, 0}; int uncaught = 0; u64 stackUsed = 0; bool dead = false;
  u64 globalsReady = 0;
  bool noMerge = false;
  std::map<string, int> symc;  // occurrences of each named input
  vector<std::pair<T, T>> eqs; // facts t==const derived from pc
};
static u64 gDead = 0;

static std::unordered_map<const L::Function *, FuncInfo *> funcs;
static std::unordered_map<u64, FuncInfo *> funcByAddr;
static std::unordered_map<const L::GlobalVariable *, u64> globalAddr;
static Mem *gInitMem;
static std::map<string, int> symCount;

struct VSym { string name; unsigned n; vector<u64> ids; };
static vector<VSym> gSyms;

static T val2t(const Value &v, unsigned w) { return v.t ? v.t : tConst(w, v.v); }
static Value t2val(T t) { if (isC(t) && t->w <= 64) return Value{t->c, nullptr}; return Value{0, t}; }

// pc helpers
static std::unordered_set<T> gKnownPiv;   // terms that some branch compared with constants
static std::unordered_map<T, T> gPivBase;     // constant-free sum -> known pivot with that sum
static T pivotOf(T t);
static void knownPivot(T p) {
  if (!gKnownPiv.insert(p).second) return;
  if (p->op == T_ADD && p->n > 1) gPivBase.emplace(tSub(p, tConst(p->w, p->c)), p);
}
static void addFact(State *s, T c) {
  if (isTrue(c)) return;
  if (c->op == T_AND && c->w == 1) { for (unsigned i = 0; i < c->n; i++) addFact(s, c->a[i]); return; }
  s->pc.push_back(c);
  { T x = c->op == T_XOR ? c->a[0] : c; if (T p = pivotOf(x)) knownPivot(p); }
  if (c->op == T_EQ && isC(c->a[1])) s->eqs.push_back({c->a[0], c->a[1]});
}
static void rebuildEqs(State *s) {
  s->eqs.clear();
  for (T c : s->pc) if (c->op == T_EQ && isC(c->a[1])) s->eqs.push_back({c->a[0], c->a[1]});
}
static T simp(State *s, T c) {
  if (isC(c)) return c;
  for (T f : s->pc) { if (f == c) return c->w == 1 ? tTrue() : c; }
  if (c->w == 1) { T n = tNot(c); for (T f : s->pc) if (f == n) return tFalse(); }
  bool useful = false;
  if (!s->eqs.empty()) useful = true; else for (T f : s->pc) if (f->w == 1) { useful = true; break; }
  if (!useful) return c;
  Subst sb;
  for (auto &p : s->eqs) sb.memo[p.first] = p.second;
  for (T f : s->pc) { sb.memo[f] = tTrue(); if (!(f->op == T_EQ && f->a[0]->w == 1)) sb.memo[tNot(f)] = tFalse(); }
  sb.opaque = true; sb.prune();
  return sb.apply(c);
}
static vector<T> relevant(State *s, T c) {
  // independence slicing over opaque leaves
  std::set<uint32_t> L(S->leaves(c).begin(), S->leaves(c).end());
  vector<T> out; vector<char> used(s->pc.size(), 0); bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s->pc.size(); i++) if (!used[i]) {
      auto &l = S->leaves(s->pc[i]); bool hit = false;
      for (auto x : l) if (L.count(x)) { hit = true; break; }
      if (hit) { used[i] = 1; L.insert(l.begin(), l.end()); out.push_back(s->pc[i]); ch = true; }
    }
  }
  return out;
}
// may c be true under pc? (over-approximate: hash outputs free)
static u64 gEnum = 0;
static bool may(State *s, T c) {
  if (isC(c)) return isTrue(c);
  auto cs = relevant(s, c); cs.push_back(c);
  // all constraints talk about one small term: decide over its feasible values
  T p = nullptr; bool one = true;
  for (T x : cs) { T q = pivotOf(x->op == T_XOR && x->w == 1 && x->n == 2 && isC(x->a[1]) ? x->a[0] : x); if (!q || (p && q != p)) { one = false; break; } p = q; }
  if (one && p) {
    static std::unordered_map<T, vector<u64>> feas;
    auto f = feas.find(p);
    if (f == feas.end()) {
      vector<u64> v; u64 hi = std::min<u64>(p->umax, maskw(p->w)); bool freev = p->op == T_VAR || p->op == T_HBYTE || (p->op == T_EXTRACT && (p->a[0]->op == T_VAR || p->a[0]->op == T_HBYTE));
      if (p->op == T_HBYTE && p->a[0]->op == T_HCASE) freev = false;
      for (u64 k = p->umin; k <= hi; k++) if (freev || S->checkOpaque({tEq(p, tConst(p->w, k))}) != SAT_UNSAT) v.push_back(k);
      f = feas.emplace(p, v).first;
    }
    for (u64 k : f->second) {
      bool ok = true; for (T x : cs) if (!isTrue(tInst(x, p, tConst(p->w, k)))) { ok = false; break; }
      if (ok) { gEnum++; return true; }
    }
    gEnum++; return false;
  }
  return S->checkOpaque(cs) != SAT_UNSAT;
}
static string whereStr(State *s) {
  string r;
  for (size_t i = s->fr.size(); i-- > 0 && r.size() < 600;) { if (!r.empty()) r += " < "; r += s->fr[i].f->name; }
  return r;
}
static void recordViolation(State *s, const string &id, const string &msg, Model *m) {
  if (!gViolIds.insert(id).second) return;
  Violation v; v.id = id; v.msg = msg; v.where = whereStr(s); v.haveModel = m != nullptr;
  if (m) {
    for (auto &sy : gSyms) for (size_t i = 0; i < sy.ids.size(); i++) { auto f = m->byId.find(sy.ids[i]); v.vars[sy.name + "[" + std::to_string(i) + "]"] = f == m->byId.end() ? 0 : f->second; }
    v.hashes = m->hashes;
  }
  gViol.push_back(v);
  fprintf(stderr, "[violation] %s: %s\n   at %s\n", id.c_str(), msg.c_str(), v.where.c_str());
  if ((int)gViol.size() >= gMaxViol) throw Abort{"violation limit"};
}
// pivots: small-domain terms compared with constants inside ite conditions, or selecting a hash case
static T peel(T x) {
  while (true) {
    if (x->op == T_ADD && x->n == 1) { x = x->a[0]; continue; }
    if (x->op == T_CONCAT) { T v = nullptr; int k = 0; for (unsigned i = 0; i < x->n; i++) if (!isC(x->a[i])) { v = x->a[i]; k++; } if (k == 1) { x = v; continue; } }
    return x;
  }
}
static T pivotOf(T t) { // comparison -> pivot
  if (t->w == 1 && t->op == T_EXTRACT) return t;
  if (!(t->op == T_EQ || t->op == T_ULT || t->op == T_ULE || t->op == T_SLT || t->op == T_SLE)) return nullptr;
  if (!isC(t->a[0]) && !isC(t->a[1])) return nullptr;
  T x = peel(isC(t->a[0]) ? t->a[1] : t->a[0]);
  if (isC(x) || x->w < 2 || x->w > 64) return nullptr;
  return std::min<u64>(x->umax, maskw(x->w)) <= 256 ? x : nullptr;
}
struct PivSet { vector<T> v; std::unordered_map<T, int> n; void add(T x) { if (n[x]++ == 0) v.push_back(x); } };
static void collectPivots(T root, PivSet &piv, bool deep, std::unordered_set<T> *sh = nullptr) {
  std::unordered_set<T> local; std::unordered_set<T> &seen = sh ? *sh : local; vector<T> st{root};
  while (!st.empty()) {
    T t = st.back(); st.pop_back();
    if (t->n == 0 || !seen.insert(t).second) continue;
    if (t->op == T_HBYTE) { if (t->a[0]->op == T_HCASE) piv.add(t->a[0]->a[0]); if (!deep) continue; }
    if (t->op == T_EXTRACT && t->w == 1) { if (gKnownPiv.count(t)) piv.add(t); }
    else if (T x = pivotOf(t)) piv.add(x);
    if (t->op == T_ITE && t->a[0]->op == T_EXTRACT && t->a[0]->w == 1) piv.add(t->a[0]);
    for (unsigned i = 0; i < t->n; i++) st.push_back(t->a[i]);
  }
}
// representative of a pivot: pivots over the same leaves that the solver proves equal share one
static u64 gUnified = 0;
static T canonPivot(T p) {
  static std::unordered_map<T, T> rep; static std::map<vector<uint32_t>, vector<T>> reg;
  auto f = rep.find(p); if (f != rep.end()) return f->second;
  auto &lv = S->leaves(p); auto &r = reg[lv];
  for (T q : r) {
    T a = p, b = q; unsigned w = std::max(a->w, b->w); T ne = tNot(tEq(tZExt(a, w), tZExt(b, w)));
    if (isFalse(ne) || (!isTrue(ne) && S->checkOpaque({ne}) == SAT_UNSAT)) { gUnified++; return rep[p] = q; }
  }
  r.push_back(p); return rep[p] = p;
}
// If every value of a small pivot gives the same term, that term (exact rewriting).
static u64 gCollapsed = 0, gLifted = 0;
static void collapseBytes(vector<T> &b) {
  for (int round = 0; round < 3; round++) {
    // group bytes by their first pivot
    std::map<T, vector<size_t>> grp; vector<T> order;
    for (size_t i = 0; i < b.size(); i++) {
      if (isC(b[i]) || b[i]->op == T_VAR || (b[i]->op == T_HBYTE && b[i]->a[0]->op == T_HASH)) continue;
      PivSet ps; collectPivots(b[i], ps, false);
      if (ps.v.empty()) continue;
      // follow the outermost condition: the newest pivot usually decides
      T best = ps.v[0]; for (T x : ps.v) if (ps.n[x] > ps.n[best]) best = x;
      if (!grp.count(best)) order.push_back(best);
      grp[best].push_back(i);
    }
    if (grp.empty()) return;
    bool any = false;
    for (T p : order) {
      auto &g = grp[p]; u64 lo = p->umin, hi = std::min<u64>(p->umax, maskw(p->w)); vector<T> first; bool same = true;
      // cheap refutation on the first byte
      { T v0 = nullptr; for (u64 v : {lo, hi}) { T x = tInst(b[g[0]], p, tConst(p->w, v)); if (!v0) v0 = x; else if (x != v0) same = false; } }
      for (u64 v = lo; v <= hi && same; v++) {
        Subst sb; sb.memo[p] = tConst(p->w, v); sb.opaque = true; sb.minId = p->id;
        for (size_t k = 0; k < g.size() && same; k++) {
          T x = sb.apply(b[g[k]]);
          if (v == lo) first.push_back(x); else if (x != first[k]) same = false;
        }
      }
      if (same) { for (size_t k = 0; k < g.size(); k++) b[g[k]] = first[k]; any = true; gCollapsed++; }
    }
    if (!any) return;
  }
}
// canonical form of a term that depends on one small pivot: a decision tree over the pivot's values
static u64 gCanon = 0;
static std::unordered_map<T, T> gCanonMemo;
static void canonTerms(vector<T> &ts) {
  std::map<T, vector<size_t>> grp; vector<T> order; std::vector<vector<T>> mem(ts.size());
  for (size_t i = 0; i < ts.size(); i++) {
    T t = ts[i];
    if (isC(t) || t->op == T_VAR || (t->op == T_HBYTE && t->a[0]->op == T_HASH) || t->w > 64) continue;
    auto f = gCanonMemo.find(t); if (f != gCanonMemo.end()) { ts[i] = f->second; continue; }
    PivSet ps; collectPivots(t, ps, false); if (ps.v.empty() || ps.v.size() > 40) { gCanonMemo[t] = t; continue; }
    T rep = nullptr; bool one = true; for (T x : ps.v) { T c = canonPivot(x); if (rep && c != rep) { one = false; break; } rep = c; }
    if (!one) continue;
    mem[i] = ps.v; if (!grp.count(rep)) order.push_back(rep); grp[rep].push_back(i);
  }
  for (T c : order) {
    auto &g = grp[c]; u64 lo = c->umin, hi = std::min<u64>(c->umax, maskw(c->w)); vector<vector<T>> tab(g.size());
    for (u64 v = lo; v <= hi; v++) {
      std::map<vector<T>, Subst> subs;
      for (size_t k = 0; k < g.size(); k++) {
        auto &ms = mem[g[k]]; auto it = subs.find(ms);
        if (it == subs.end()) { it = subs.emplace(ms, Subst()).first; Subst &sb = it->second; for (T x : ms) sb.memo[x] = tConst(x->w, v); sb.opaque = true; sb.prune(); }
        tab[k].push_back(it->second.apply(ts[g[k]]));
      }
    }
    for (size_t k = 0; k < g.size(); k++) {
      auto &t = tab[k]; std::function<T(u64, u64)> bld = [&](u64 a, u64 b) -> T {
        if (a == b) return t[a - lo];
        u64 m = a + (b - a) / 2; T x = bld(a, m), y = bld(m + 1, b); return x == y ? x : tIte(tUle(c, tConst(c->w, m)), x, y); };
      T r = bld(lo, hi); gCanon++; gCanonMemo[ts[g[k]]] = r; gCanonMemo[r] = r; ts[g[k]] = r;
    }
  }
}
static void canonBytes(vector<T> &b) {
  // operands of sums (xor) are treated one by one
  vector<T> ops; vector<std::pair<size_t, size_t>> at;
  for (T t : b) { size_t s0 = ops.size(); if (t->op == T_XOR && t->n >= 1) for (unsigned i = 0; i < t->n; i++) ops.push_back(t->a[i]); else ops.push_back(t); at.push_back({s0, ops.size()}); }
  vector<T> o2(ops); canonTerms(o2);
  for (size_t i = 0; i < b.size(); i++) {
    bool ch = false; for (size_t k = at[i].first; k < at[i].second; k++) if (o2[k] != ops[k]) ch = true;
    if (!ch) continue;
    if (at[i].second - at[i].first == 1 && b[i]->op != T_XOR) { b[i] = o2[at[i].first]; continue; }
    T r = tConst(b[i]->w, 0); for (size_t k = at[i].first; k < at[i].second; k++) r = tXor(r, o2[k]); b[i] = r;
  }
}
struct Derived { T t, p; u64 delta; };
static void directPivots(T t, PivSet &ps, vector<Derived> &dv, int d) {
  if (isC(t) || d > 8) return;
  if (gKnownPiv.count(t)) { ps.add(t); return; }
  if (t->op == T_ADD && t->n > 1 && !gPivBase.empty()) {
    auto f = gPivBase.find(t->c ? tSub(t, tConst(t->w, t->c)) : t);
    if (f != gPivBase.end()) { ps.add(f->second); dv.push_back({t, f->second, t->c - f->second->c}); return; }
  }
  if (t->op == T_EXTRACT && t->w <= 4 && t->a[0]->op == T_ADD && t->a[0]->n > 1) { ps.add(t); return; } // digit of a sum: same form whether or not a branch has compared it yet
  if (t->op == T_EXTRACT && t->w > 1 && t->w <= 8 && t->a[0]->op == T_ADD) { // another spelling of a known pivot
    static std::unordered_map<T, size_t> tried; static std::unordered_set<T> same;
    if (same.count(t)) { ps.add(t); return; }
    auto &n = tried[t]; auto &lv = S->leaves(t); static std::map<vector<uint32_t>, vector<T>> byLeaf; static std::unordered_set<T> indexed;
    if (indexed.size() != gKnownPiv.size()) for (T k : gKnownPiv) if (indexed.insert(k).second) byLeaf[S->leaves(k)].push_back(k);
    auto &bl = byLeaf[lv];
    for (; n < bl.size(); n++) if (canonPivot(bl[n]) == canonPivot(t)) { same.insert(t); ps.add(t); return; }
  }
  if (t->op == T_HBYTE || t->op == T_ITE || t->n > 4) return;
  for (unsigned i = 0; i < t->n; i++) directPivots(t->a[i], ps, dv, d + 1);
}
static int gInjective = 0;
// a byte computed from one other byte that always equals it (a decoded text of itself, say) is that byte
static T sameByte(T t) {
  static std::unordered_map<T, T> memo; if (t->w != 8 || isC(t) || t->op == T_VAR || t->op == T_HBYTE || t->sh > 2000) return t;
  auto f = memo.find(t); if (f != memo.end()) return f->second;
  T leaf = nullptr; bool ok = true; std::unordered_set<T> seen; vector<T> st{t};
  while (ok && !st.empty()) {
    T x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (seen.size() > 400) { ok = false; break; }
    if (x->op == T_VAR || x->op == T_HBYTE) { if (x->w != 8 || (leaf && leaf != x)) ok = false; leaf = x; continue; }
    for (unsigned i = 0; i < x->n; i++) st.push_back(x->a[i]);
  }
  if (!ok || !leaf) return memo[t] = t;
  for (unsigned v : {0u, 255u, 9u, 10u, 0x5au}) if (tInst(t, leaf, tConst(8, v)) != tConst(8, v)) return memo[t] = t;
  for (unsigned v = 0; v < 256; v++) if (tInst(t, leaf, tConst(8, v)) != tConst(8, v)) return memo[t] = t;
  return memo[t] = leaf;
}
static T hashApp(State *s, unsigned fn, vector<T> b) { for (T &t : b) t = sameByte(t); if (gInjective) return tHash(fn, b);
  bool cand = false; PivSet direct; vector<Derived> dv;
  for (T t : b) if (!isC(t)) directPivots(t, direct, dv, 0);
  if (direct.v.empty()) for (T t : b) if (!isC(t) && t->op != T_VAR && !(t->op == T_HBYTE && t->a[0]->op == T_HASH)) { cand = true; break; }
  if (!cand && direct.v.empty()) return tHash(fn, b);
  PivSet ps; std::unordered_set<T> seen; for (T t : b) collectPivots(t, ps, false, &seen);
  if (ps.v.empty() && direct.v.empty()) return tHash(fn, b);
  if (!ps.v.empty()) { collapseBytes(b); ps = PivSet(); seen.clear(); for (T t : b) collectPivots(t, ps, false, &seen); }
  for (T x : direct.v) ps.add(x);
  if (ps.v.empty()) return tHash(fn, b);
  vector<T> reps; std::map<T, vector<T>> members;
  for (T x : ps.v) { T c = canonPivot(x); if (!members.count(c)) reps.push_back(c); members[c].push_back(x); }
  if (reps.size() != 1) { if (getenv("DBGH")) { fprintf(stderr, "[multi] in %zu reps %zu:", b.size(), reps.size()); for (T x : reps) fprintf(stderr, " {%s}", tStr(x, 3).substr(0, 120).c_str()); fprintf(stderr, "\n"); } canonBytes(b); return tHash(fn, b); }
  T c = reps[0]; u64 hi = std::min<u64>(c->umax, maskw(c->w)); vector<T> apps; gLifted++;
  vector<size_t> hot; for (size_t i = 0; i < b.size(); i++) if (!isC(b[i]) && !(b[i]->op == T_HBYTE && b[i]->a[0]->op == T_HASH)) hot.push_back(i);
  // values excluded by the path condition are don't-care: they repeat a neighbouring entry
  vector<char> feas(hi + 1, 1);
  for (T f : s->pc) { T q = pivotOf(f->op == T_XOR && f->w == 1 && f->n == 2 && isC(f->a[1]) ? f->a[0] : f); if (q && canonPivot(q) == c) for (u64 v = 0; v <= hi; v++) if (feas[v] && isFalse(tInst(f, q, tConst(q->w, v)))) feas[v] = 0; }
  T lastApp = nullptr; u64 lead = 0;
  for (u64 v = 0; v <= hi; v++) {
    if (!feas[v]) { if (lastApp) apps.push_back(lastApp); else lead++; continue; }
    vector<T> in(b);
    for (size_t i : hot) {
      for (auto &d : dv) if (!isC(in[i])) in[i] = tInst(in[i], d.t, tConst(d.t->w, v + d.delta));
      for (T x : members[c]) in[i] = tInst(in[i], x, tConst(x->w, v));
    }
    lastApp = tHash(fn, in); while (lead) { apps.push_back(lastApp); lead--; }
    apps.push_back(lastApp);
  }
  if (!lastApp) return tHash(fn, b);
  return tHCase(c, apps);
}
static void explainDiff(T a, T b, int d) {
  if (a == b || d > 40) return;
  if (a->op == T_HBYTE && b->op == T_HBYTE && a->c == b->c && a->a[0]->op == T_HASH && b->a[0]->op == T_HASH && a->a[0]->c == b->a[0]->c) {
    T x = a->a[0], y = b->a[0]; unsigned k = 0; for (unsigned i = 0; i < x->n; i++) if (x->a[i] != y->a[i]) { if (!k++) { fprintf(stderr, "  diff input %u of %s: ", i, gHashFns[x->c].name.c_str()); explainDiff(x->a[i], y->a[i], d + 1); } }
    return;
  }
  if (a->op == T_XOR && b->op == T_XOR) { T d = tXor(a, b); vector<T> u, w; for (unsigned i = 0; i < d->n; i++) { bool inA = false; for (unsigned j = 0; j < a->n; j++) if (a->a[j] == d->a[i]) inA = true; (inA ? u : w).push_back(d->a[i]); }
    if (u.size() == 1 && w.size() == 1) return explainDiff(u[0], w[0], d ? 1 : 1); fprintf(stderr, " xor %zu/%zu ", u.size(), w.size()); for (T x : u) fprintf(stderr, " A:%s", tStr(x, 3).substr(0, 200).c_str()); for (T x : w) fprintf(stderr, " B:%s", tStr(x, 3).substr(0, 200).c_str()); fprintf(stderr, "\n"); 
    if (u.size() == w.size()) { for (T x : u) for (T y : w) { fprintf(stderr, "    pair:"); explainDiff(x, y, 35); } } return; }
  if (a->op == b->op && a->n == b->n && a->op != T_HBYTE) for (unsigned i = 0; i < a->n; i++) if (a->a[i] != b->a[i]) { fprintf(stderr, " op%d.%u ", a->op, i); return explainDiff(a->a[i], b->a[i], d + 1); }
  fprintf(stderr, " %s  VS  %s\n", tStr(a, 4).substr(0, 300).c_str(), tStr(b, 4).substr(0, 300).c_str());
}
static bool pivotProve(T c, int depth) {
  if (isTrue(c)) return true;
  if (isFalse(c) || depth == 0) return false;
  PivSet ps; collectPivots(c, ps, false); bool deep = false;
  if (ps.v.empty()) { if (c->nodes > 2000000) return false; collectPivots(c, ps, true); deep = true; }
  if (ps.v.empty()) return false;
  if (ps.v.size() > 1 && ps.v.size() < 40) { // unify equal pivots
    Subst sb; bool any = false; for (T x : ps.v) { T r = canonPivot(x); if (r != x) { sb.memo[x] = tZExt(r, x->w); any = true; } }
    if (any) { sb.opaque = !deep; sb.prune(); c = sb.apply(c); if (isTrue(c)) return true; if (isFalse(c)) return false; ps = PivSet(); collectPivots(c, ps, deep); if (ps.v.empty()) return false; }
  }
  T best = ps.v[0]; for (T x : ps.v) if (ps.n[x] > ps.n[best]) best = x;
  u64 mx = std::min<u64>(best->umax, maskw(best->w));
  for (u64 v = best->umin; v <= mx; v++) {
    Subst sb; sb.memo[best] = tConst(best->w, v); sb.opaque = !deep; sb.prune();
    T g = sb.apply(c);
    if (isTrue(g)) continue;
    if (!pivotProve(g, depth - 1)) { if (gVerbose) fprintf(stderr, "[pivot] %s = %llu leaves %s\n", tStr(best, 5).c_str(), (unsigned long long)v, tStr(g, 9).substr(0, 1500).c_str()); if (gVerbose && g->op == T_EQ) explainDiff(g->a[0], g->a[1], 0);
      if (gVerbose && g->op == T_XOR && g->n >= 2 && g->a[0]->op == T_AND && g->a[1]->op == T_AND) for (unsigned i = 0; i < g->a[0]->n; i++) for (unsigned j = 0; j < g->a[1]->n; j++) { T x = g->a[0]->a[i], y = g->a[1]->a[j]; if (x->op == T_EQ && y->op == T_EQ && x->a[0] == y->a[0]) { explainDiff(x->a[1], y->a[1], 0); return false; } }
      return false; }
    if (now() - tStart > timeLimit) return false;
  }
  return true;
}
// concrete evaluation with hash functions interpreted as pseudo-random functions: a counterexample finder
static u64 mixh(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 33); }
static u64 prHashFn(u64 fn, const vector<uint8_t> &in, unsigned idx) {
  u64 h = 0x1234567; for (char c : gHashFns[fn].name) h = mixh(h, (uint8_t)c); h = mixh(h, in.size()); for (auto x : in) h = mixh(h, x); return mixh(h, idx) >> 56;
}
static u64 prHash(void *, T app, const vector<uint8_t> &in, unsigned idx) { return prHashFn(app->c, in, idx); }
static u64 gConcrete = 0;
static void collectVars(const vector<T> &cs, vector<T> &out) {
  std::unordered_set<T> seen; vector<T> st(cs.begin(), cs.end());
  while (!st.empty()) { T t = st.back(); st.pop_back(); if (!seen.insert(t).second) continue; if (t->op == T_VAR) out.push_back(t); for (unsigned i = 0; i < t->n; i++) st.push_back(t->a[i]); }
}
// hash function with chosen values at some points
struct Repair { std::map<std::pair<u64, vector<uint8_t>>, std::map<unsigned, uint8_t>> ov; };
static u64 prHashOv(void *ctx, T app, const vector<uint8_t> &in, unsigned idx) {
  auto R = (Repair *)ctx; auto f = R->ov.find({app->c, in}); if (f != R->ov.end()) { auto g = f->second.find(idx); if (g != f->second.end()) return g->second; }
  return prHash(nullptr, app, in, idx);
}
// makes c evaluate to `want` by choosing hash output bytes (and free input bytes); false: no way found
static bool repairTerm(Eval &e, Repair &R, T c, bool want, u64 &seed, int depth) {
  if (depth > 400) return false;
  if (isC(c)) return isTrue(c) == want;
  if ((bool)e.eval(c) == want) return true;
  auto rnd = [&]() { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; };
  if (c->w == 1) switch (c->op) {
    case T_AND: if (want) { for (unsigned i = 0; i < c->n; i++) if (!repairTerm(e, R, c->a[i], true, seed, depth + 1)) return false; return true; } return repairTerm(e, R, c->a[rnd() % c->n], false, seed, depth + 1);
    case T_OR: if (!want) { for (unsigned i = 0; i < c->n; i++) if (!repairTerm(e, R, c->a[i], false, seed, depth + 1)) return false; return true; } return repairTerm(e, R, c->a[rnd() % c->n], true, seed, depth + 1);
    case T_XOR: { bool rest = false; unsigned k = rnd() % c->n, tries = 0; while (isC(c->a[k]) && tries++ < c->n) k = (k + 1) % c->n; for (unsigned i = 0; i < c->n; i++) if (i != k) rest ^= (bool)e.eval(c->a[i]); return repairTerm(e, R, c->a[k], want ^ rest, seed, depth + 1); }
    case T_ITE: { bool k = e.eval(c->a[0]); if (rnd() % 2) k = !k; return repairTerm(e, R, c->a[0], k, seed, depth + 1) && repairTerm(e, R, k ? c->a[1] : c->a[2], want, seed, depth + 1); }
    case T_EQ: if (c->a[0]->w == 1) { bool l = rnd() % 2; T x = c->a[l], y = c->a[!l]; if (isC(x)) std::swap(x, y); return repairTerm(e, R, x, (bool)e.eval(y) == want, seed, depth + 1); } break;
    default: break;
  }
  if (c->op != T_EQ || c->a[0]->w % 8 || c->a[0]->w > 2048) return false;
  if (!want) return false; // differing bytes come from other random inputs
  for (unsigned o = 0; o < c->a[0]->w; o += 8) {
    T x = tExtract(c->a[0], o, 8), y = tExtract(c->a[1], o, 8); if (x == y || e.eval(x) == e.eval(y)) continue; bool ok = false;
    for (int side = 0; side < 2 && !ok; side++, std::swap(x, y)) {
      u64 v = e.eval(y); T h = nullptr; vector<T> l; if (x->op == T_XOR) for (unsigned i = 0; i < x->n; i++) l.push_back(x->a[i]); else l.push_back(x);
      for (T t : l) if (t->op == T_HBYTE && !h) h = t;
      if (!h) continue;
      for (T t : l) if (t != h) v ^= (u64)e.eval(t);
      T app = h->a[0]; while (app->op == T_HCASE) { T b = tHByte(app->a[1 + std::min<u64>((u64)e.eval(app->a[0]), app->n - 2)], h->c); if (b->op != T_HBYTE) { app = nullptr; break; } app = b->a[0]; }
      if (!app || app->op != T_HASH) continue;
      vector<uint8_t> in; for (unsigned i = 0; i < app->n; i++) in.push_back((uint8_t)e.eval(app->a[i]));
      auto &m = R.ov[{app->c, in}]; if (m.count(h->c) && m[h->c] != (uint8_t)v) continue; m[h->c] = (uint8_t)v; ok = true;
    }
    if (!ok) return false;
  }
  return true;
}
static bool concreteSearch(State *s, T bad, Model *m, int tries) {
  vector<T> cs = s->pc; cs.push_back(bad); vector<T> vars; collectVars(cs, vars);
  u64 seed = 88172645463325252ULL + gConcrete * 977; auto rnd = [&]() { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; };
  gConcrete++; double t0 = now();
  for (int k = 0; k < tries; k++) {
    Repair R; std::unordered_map<u64, u64> vals; for (T v : vars) vals[v->c] = (k == 0 ? 0 : rnd()) & maskw(v->w);
    for (auto &q : s->eqs) if (q.first->op == T_VAR && isC(q.second)) vals[q.first->c] = q.second->c; else if (q.second->op == T_VAR && isC(q.first)) vals[q.second->c] = q.first->c;
    for (int round = 0; round < 8 && now() - t0 < 25; round++) {
      Eval e; e.hashByte = prHashOv; e.ctx = &R; e.vars = vals; T failed = nullptr;
      for (T c : cs) if (!e.eval(c)) { failed = c; break; }
      if (!failed) {
        for (T v : vars) { m->byId[v->c] = e.vars[v->c]; m->vars.push_back({gVars[v->c].name, e.vars[v->c]}); }
        for (auto &o : R.ov) { HashEntry h; h.fn = o.first.first; h.in = o.first.second; unsigned n = std::max(32u, o.second.rbegin()->first + 1); for (unsigned i = 0; i < n; i++) h.out.push_back(0); m->hashes.push_back(h); auto &out = m->hashes.back().out; for (unsigned i = 0; i < n; i++) { auto g = o.second.find(i); out[i] = g != o.second.end() ? g->second : (uint8_t)prHashFn(h.fn, h.in, i); } }
        return true;
      }
      size_t before = 0; for (auto &o : R.ov) before += o.second.size();
      bool ok = repairTerm(e, R, failed, true, seed, 0); size_t after = 0; for (auto &o : R.ov) after += o.second.size();
      if (!ok || after == before) break;
    }
    if (now() - t0 > 25) break;
  }
  return false;
}
// split a goal into conjuncts
static void conjuncts(T c, vector<T> &o) { if (c->op == T_AND && c->w == 1) for (unsigned i = 0; i < c->n; i++) conjuncts(c->a[i], o); else o.push_back(c); }
// Collision freeness: from equalities between hash outputs derive the equality of the hashed strings (and that the
// functions are the same), repeatedly.  Returns false when a contradiction is derived; out holds the derived facts.
static bool injClosure(const vector<T> &cs, vector<T> &out) {
  std::unordered_map<T, T> par; std::unordered_map<T, vector<T>> mem;
  std::function<T(T)> find = [&](T x) { auto it = par.find(x); if (it == par.end()) { par[x] = x; mem[x] = {x}; return x; } while (par[x] != x) x = par[x] = par[par[x]]; return x; };
  vector<std::pair<T, T>> q; bool bad = false;
  std::function<void(T)> put = [&](T c) {
    if (c->op == T_AND && c->w == 1) { for (unsigned i = 0; i < c->n; i++) put(c->a[i]); return; }
    if (isFalse(c)) { bad = true; return; }
    if (c->op != T_EQ) return;
    T a = c->a[0], b = c->a[1];
    if (a->w == 8) { q.push_back({a, b}); return; }
    if (a->w % 8 == 0 && a->w <= 1024) for (unsigned i = 0; i < a->w; i += 8) q.push_back({tExtract(a, i, 8), tExtract(b, i, 8)});
  };
  for (T c : cs) put(c);
  std::set<std::pair<u64, u64>> done; vector<std::pair<T, T>> hard; std::set<T> apps; std::set<std::pair<u64, u64>> tried;
  auto canon = [&](T t) { if (t->op != T_XOR) return find(t); T r = tConst(8, 0); for (unsigned i = 0; i < t->n; i++) r = tXor(r, isC(t->a[i]) ? t->a[i] : find(t->a[i])); return r; };
  std::function<void(T)> note = [&](T t) { if (t->op == T_XOR) { for (unsigned i = 0; i < t->n; i++) note(t->a[i]); } else if (t->op == T_HBYTE && t->a[0]->op == T_HASH && apps.insert(t->a[0]).second) for (unsigned i = 0; i < t->a[0]->n; i++) note(t->a[0]->a[i]); };
  while (!bad) {
    bool any = false;
    while (!q.empty() && !bad) {
      auto [a, b] = q.back(); q.pop_back(); if (a == b) continue; note(a); note(b); T a0 = a, b0 = b;
      T d = tXor(canon(a), canon(b)); // a == b  <=>  d == 0
      if (isC(d)) { if (d->c) bad = true; continue; }
      if (d->op == T_XOR && d->n == 2) { a = d->a[0]; b = d->a[1]; if (d != tXor(a0, b0)) out.push_back(tEq(a, b)); } else if (d->op != T_XOR) { a = d; b = tConst(8, 0); } else hard.push_back({a0, b0});
      T x = find(a), y = find(b); if (x == y) continue;
      if (isC(x) && isC(y)) { bad = true; break; }
      if (isC(y)) std::swap(x, y);
      par[y] = x; for (T t : mem[y]) mem[x].push_back(t); mem[y].clear(); any = true;
    }
    if (bad) break;
    if (any) { q.swap(hard); hard.clear(); if (q.size()) { // masks may have become equal
        std::map<std::pair<u64, vector<T>>, T> sig; bool cg = false;
        for (T A : apps) { vector<T> k; for (unsigned i = 0; i < A->n; i++) k.push_back(canon(A->a[i])); auto r = sig.insert({{A->c, k}, A}); T B = r.first->second; if (B != A && find(tHByte(A, 0)) != find(tHByte(B, 0))) { cg = true; for (unsigned i = 0; i < 32; i++) q.push_back({tHByte(A, i), tHByte(B, i)}); } }
        if (cg) continue; hard.swap(q); } }
    // pairs of applications whose first 32 output bytes are equal
    vector<std::pair<T, T>> found;
    for (auto &p : mem) {
      vector<T> ap; for (T t : p.second) if (t->op == T_HBYTE && t->c == 0 && t->a[0]->op == T_HASH) ap.push_back(t->a[0]);
      for (size_t i = 0; i < ap.size(); i++) for (size_t j = i + 1; j < ap.size(); j++) {
        if (ap[i] == ap[j] || done.count({std::min(ap[i]->id, ap[j]->id), std::max(ap[i]->id, ap[j]->id)})) continue;
        found.push_back({ap[i], ap[j]});
      }
    }
    bool more = false;
    for (auto &[A, B] : found) {
      bool eq = true; for (unsigned i = 0; i < 32 && eq; i++) { T x = tHByte(A, i), y = tHByte(B, i); if (x != y && find(x) != find(y)) eq = false; }
      if (!eq) continue;
      done.insert({std::min(A->id, B->id), std::max(A->id, B->id)}); more = true;
      if (A->c != B->c) { bad = true; break; } // different function or input length
      for (unsigned i = 0; i < A->n; i++) if (A->a[i] != B->a[i]) { T dx = tXor(A->a[i], B->a[i]); T e = dx->op == T_XOR ? dx->n == 2 ? tEq(dx->a[0], dx->a[1]) : tEq(A->a[i], B->a[i]) : tEq(dx, tConst(8, 0)); if (isTrue(e)) continue; if (isFalse(e)) { bad = true; break; } out.push_back(e); q.push_back({A->a[i], B->a[i]}); }
    }
    if (getenv("DBGI")) { fprintf(stderr, "round: found %zu hard %zu apps %zu\n", found.size(), hard.size(), apps.size()); for (size_t i = 0; i < hard.size() && i < 2; i++) fprintf(stderr, "  %s\n  == %s\n", tStr(hard[i].first, 5).substr(0, 900).c_str(), tStr(hard[i].second, 5).substr(0, 900).c_str()); }
    if (!more) { // masks equal by arithmetic on their address bytes: one query per pair
      std::set<std::pair<T, T>> cand;
      for (auto &h : hard) { T d = tXor(canon(h.first), canon(h.second)); if (d->op != T_XOR) continue;
        for (unsigned i = 0; i < d->n; i++) for (unsigned j = i + 1; j < d->n; j++) { T x = d->a[i], y = d->a[j]; if (x->op == T_HBYTE && y->op == T_HBYTE && x->c == y->c && x->a[0]->op == T_HASH && y->a[0]->op == T_HASH && x->a[0]->c == y->a[0]->c) cand.insert({x->a[0], y->a[0]}); } }
      bool prog = false;
      for (auto &[A, B] : cand) {
        if (!tried.insert({A->id, B->id}).second) continue;
        T eq = tTrue(); for (unsigned i = 0; i < A->n; i++) if (find(A->a[i]) != find(B->a[i])) eq = tAnd(eq, tEq(A->a[i], B->a[i]));
        if (isFalse(eq)) continue;
        vector<T> qs = cs; for (T e : out) qs.push_back(e); qs.push_back(tNot(eq));
        if (isTrue(eq) || S->checkOpaque(qs) == SAT_UNSAT) { prog = true; for (unsigned i = 0; i < 32; i++) q.push_back({tHByte(A, i), tHByte(B, i)}); }
      }
      if (!prog) break;
      for (auto &h : hard) q.push_back(h); hard.clear(); tried.clear(); continue;
    }
    for (auto &h : hard) q.push_back(h); hard.clear();
  }
  return !bad;
}
// prove c under pc; returns true if proven; otherwise records violation

// Long linear sums replaced by fresh variables of the same range: an over-approximation, so only "unsatisfiable" counts.
static bool cutProve(const vector<T> &cs) {
  std::unordered_set<T> seen; vector<T> stk(cs.begin(), cs.end()), cut;
  while (!stk.empty()) {
    T t = stk.back(); stk.pop_back(); if (!seen.insert(t).second) continue;
    if (t->op == T_ADD && t->n >= 8 && t->w <= 64) { cut.push_back(t); continue; }
    if (t->op != T_HBYTE) for (unsigned i = 0; i < t->n; i++) stk.push_back(t->a[i]);
  }
  if (cut.empty()) return false;
  static std::map<vector<u64>, T> fresh; Subst sb; sb.opaque = true; vector<T> q;
  for (T t : cut) { // sums that differ by a constant share their variable
    vector<u64> key{t->w}; for (unsigned i = 0; i < t->n; i++) { key.push_back(t->a[i]->id); key.push_back(t->coef[i]); }
    T &v = fresh[key]; if (!v) v = tVar("cut", t->w);
    T r = tAdd(v, tConst(t->w, t->c)); sb.memo[t] = r;
    if (t->umin) q.push_back(tUle(tConst(t->w, t->umin), r));
    q.push_back(tUle(r, tConst(t->w, t->umax)));
  }
  sb.prune(); for (T t : cs) q.push_back(sb.apply(t));
  return S->checkOpaque(q) == SAT_UNSAT;
}
static bool proveOrReport(State *s, T c0, const string &id, const string &msg) {
  if (gInjective) S->injective = true;
  T c = simp(s, c0);
  if (isTrue(c)) { gAssertTrivial++; return true; }
  vector<T> goals; conjuncts(c, goals);
  bool all = true;
  for (T g : goals) {
    if (now() - tStart > timeLimit) throw Abort{"time limit"};
    // opaque proof first (cheap): hash bytes free
    auto cs = relevant(s, g); cs.push_back(tNot(g));
    if (!isFalse(g)) {
      if (g->sh < 20000 && cutProve(cs)) { gAssertSolver++; continue; }
      if (g->sh < 20000 && S->checkOpaque(cs) == SAT_UNSAT) { gAssertSolver++; continue; }
      if (pivotProve(g, 3)) { gAssertPivot++; continue; }
    }
    Model m;
    if (gInjective) {
      vector<T> all2 = s->pc, der; all2.push_back(tNot(g));
      if (!injClosure(all2, der)) { gAssertSolver++; continue; }
      if (getenv("DBGI")) { for (T e : s->pc) fprintf(stderr, "  pc %s\n", tStr(e, 4).substr(0, 200).c_str()); fprintf(stderr, "  goal %s\n", tStr(g, 6).substr(0, 900).c_str()); }
      if (getenv("DBGI")) for (size_t i = 0; i < der.size(); i += 1 + der.size() / 20) fprintf(stderr, "  der %s\n", tStr(der[i], 4).substr(0, 300).c_str());
      Subst sb; sb.opaque = true;
      for (T e : der) { if (e->op == T_EQ && e->a[0]->op == T_VAR && isC(e->a[1])) sb.memo[e->a[0]] = e->a[1]; else if (e->op == T_EQ && e->a[1]->op == T_VAR && isC(e->a[0])) sb.memo[e->a[1]] = e->a[0]; all2.push_back(e); }
      if (!sb.memo.empty()) { vector<T> der2 = all2; sb.prune(); bool f = false; for (T e : der2) { T k = sb.apply(e); if (isFalse(k)) f = true; else if (!isTrue(k) && k != e) all2.push_back(k); } if (f) { gAssertSolver++; continue; } }
      SatRes r = S->checkOpaqueModel(all2, &m);
      if (gVerbose) fprintf(stderr, "[injective] %s: %zu derived equalities -> %d\n", id.c_str(), der.size(), r);
      if (r == SAT_UNSAT) { gAssertSolver++; continue; }
      if (r == SAT_SAT) recordViolation(s, id, msg, &m); else incomplete("solver returned unknown for " + id);
      all = false; break;
    }
    if (!gInjective && concreteSearch(s, tNot(g), &m, 12)) { recordViolation(s, id, msg, &m); all = false; break; }
    if (gVerbose) fprintf(stderr, "[full query] %s goal nodes=%u: %s\n", id.c_str(), g->nodes, tStr(g, 7).substr(0, 3000).c_str());
    vector<T> all2 = s->pc; all2.push_back(tNot(g));
    SatRes r = S->checkFull(all2, &m);
    if (r == SAT_UNSAT) { gAssertSolver++; continue; }
    if (r == SAT_SAT) { recordViolation(s, id, msg, &m); all = false; break; }
    incomplete("solver returned unknown for " + id); all = false; break;
  }
  return all;
}
static bool feasibleFull(State *s, T c, Model *m) {
  if (gInjective) S->injective = true;
  vector<T> cs = s->pc; cs.push_back(c);
  if (S->checkOpaque(cs) == SAT_UNSAT) return false; // already impossible with every hash value arbitrary
  SatRes r = S->checkFull(cs, m);
  if (r == SAT_UNKNOWN) incomplete("solver unknown (error feasibility) at " + whereStr(s));
  return r == SAT_SAT;
}
struct PathEnd {};
static void reportErr(State *s, T cond, const string &id, const string &msg) { // definite or conditional error
  Model m;
  if (gViolIds.count(id)) return;
  if (gVerbose) fprintf(stderr, "[error query] %s %s: %s\n", id.c_str(), msg.c_str(), tStr(cond, 8).substr(0, 2500).c_str());
  if (feasibleFull(s, cond, &m)) recordViolation(s, id, msg, &m);
}

// ------------------------------------------------------------------ decode
struct Leaf { u64 off; L::Type *ty; };
static void flatT(L::Type *t, u64 off, vector<Leaf> &o) {
  if (auto st = L::dyn_cast<L::StructType>(t)) { auto sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatT(st->getElementType(i), off + sl->getElementOffset(i), o); return; }
  if (auto at = L::dyn_cast<L::ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) flatT(at->getElementType(), off + i * es, o); return; }
  if (auto vt = L::dyn_cast<L::FixedVectorType>(t)) { u64 es = DL->getTypeStoreSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) flatT(vt->getElementType(), off + i * es, o); return; }
  if (t->isVoidTy()) return;
  o.push_back({off, t});
}
static vector<Leaf> flat(L::Type *t) { vector<Leaf> o; flatT(t, 0, o); return o; }
static unsigned wOf(L::Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  return 64;
}
static FuncInfo *fi(const L::Function *f);
static Value constLeaf(L::Constant *c, unsigned leaf);
static u64 constAddr(L::Constant *c) { Value v = constLeaf(c, 0); return v.v; }
static unsigned uninitN = 0;
static Value undefVal(unsigned w) { return Value{0, tVar("undef" + std::to_string(uninitN++), w, true)}; }
static Value constLeaf(L::Constant *c, unsigned leaf) {
  if (auto ci = L::dyn_cast<L::ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64) return {ci->getZExtValue(), nullptr};
    u128 v = ci->getValue().getRawData()[0]; if (ci->getBitWidth() > 64) v |= (u128)ci->getValue().getRawData()[1] << 64;
    return {0, tConst128(ci->getBitWidth(), v)};
  }
  if (L::isa<L::ConstantPointerNull>(c)) return {0, nullptr};
  if (L::isa<L::UndefValue>(c)) { auto l = flat(c->getType()); return undefVal(wOf(l[leaf].ty)); }
  if (auto cf = L::dyn_cast<L::ConstantFP>(c)) return {cf->getValueAPF().bitcastToAPInt().getZExtValue(), nullptr};
  if (auto f = L::dyn_cast<L::Function>(c)) return {fi(f)->addr, nullptr};
  if (auto g = L::dyn_cast<L::GlobalVariable>(c)) { auto it = globalAddr.find(g); if (it == globalAddr.end()) { fprintf(stderr, "no addr for global %s\n", g->getName().str().c_str()); abort(); } return {it->second, nullptr}; }
  if (auto ga = L::dyn_cast<L::GlobalAlias>(c)) return constLeaf(ga->getAliasee(), 0);
  if (L::isa<L::ConstantAggregateZero>(c)) { auto l = flat(c->getType()); unsigned w = wOf(l[leaf].ty); if (w > 64) return {0, tConst128(w, 0)}; return {0, nullptr}; }
  if (auto cd = L::dyn_cast<L::ConstantDataSequential>(c)) return constLeaf(cd->getElementAsConstant(leaf), 0);
  if (auto ca = L::dyn_cast<L::ConstantAggregate>(c)) {
    unsigned k = leaf;
    for (unsigned i = 0; i < ca->getNumOperands(); i++) { unsigned n = flat(ca->getOperand(i)->getType()).size(); if (k < n) return constLeaf(ca->getOperand(i), k); k -= n; }
  }
  if (auto ce = L::dyn_cast<L::ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case L::Instruction::GetElementPtr: {
      auto gep = L::cast<L::GEPOperator>(ce); L::APInt off(64, 0);
      if (!gep->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "constexpr gep\n"); abort(); }
      return {constAddr(L::cast<L::Constant>(gep->getPointerOperand())) + off.getZExtValue(), nullptr};
    }
    case L::Instruction::BitCast: case L::Instruction::PtrToInt: case L::Instruction::IntToPtr: case L::Instruction::AddrSpaceCast: {
      Value v = constLeaf(ce->getOperand(0), 0); unsigned w = wOf(ce->getType()); v.v &= maskw(w); return v; }
    case L::Instruction::Trunc: { Value v = constLeaf(ce->getOperand(0), 0); v.v &= maskw(wOf(ce->getType())); return v; }
    case L::Instruction::Add: return {constLeaf(ce->getOperand(0), 0).v + constLeaf(ce->getOperand(1), 0).v, nullptr};
    case L::Instruction::Sub: return {constLeaf(ce->getOperand(0), 0).v - constLeaf(ce->getOperand(1), 0).v, nullptr};
    case L::Instruction::ICmp: { u64 a = constAddr(ce->getOperand(0)), b = constAddr(ce->getOperand(1)); return {(u64)(ce->getPredicate() == L::CmpInst::ICMP_EQ ? a == b : a != b), nullptr}; }
    default: break;
    }
  }
  string s; L::raw_string_ostream os(s); c->print(os); fprintf(stderr, "unsupported constant %s\n", s.c_str()); abort();
}
static int builtinId(const string &n);
static std::unordered_map<const L::Function *, const L::Function *> gRedir;
static FuncInfo *fi(const L::Function *f) {
  { auto r = gRedir.find(f); if (r != gRedir.end()) f = r->second; }
  auto it = funcs.find(f); if (it != funcs.end()) return it->second;
  FuncInfo *x = new FuncInfo(); x->name = f->getName().str(); x->llvmF = (void *)f; x->isDecl = f->isDeclaration();
  u64 id = gNextObj++; x->addr = addrOf(id); funcs[f] = x; funcByAddr[x->addr] = x;
  Obj *o = newObj(1, K_FUNC, false); o->ro = true; gInitMem->put(id, o);
  x->builtin = builtinId(x->name);
  if (!x->isDecl && x->builtin >= 0 && x->name.compare(0, 4, "sym_") != 0) { /* model overrides definition only for intrinsics */ }
  return x;
}

struct Decoder {
  FuncInfo *F; const L::Function *f; std::unordered_map<const L::Value *, int> base; std::unordered_map<const L::BasicBlock *, int> bno;
  int newRegs(L::Type *t) { int b = F->nregs; for (auto &l : flat(t)) { F->regw.push_back(wOf(l.ty)); F->nregs++; } return b; }
  int op(L::Value *v, unsigned leaf = 0) {
    if (auto c = L::dyn_cast<L::Constant>(v)) { F->consts.push_back(constLeaf(c, leaf)); return ~(int)(F->consts.size() - 1); }
    auto it = base.find(v); if (it == base.end()) { fprintf(stderr, "operand?\n"); abort(); }
    return it->second + leaf;
  }
  int kconst(u64 v) { F->consts.push_back({v, nullptr}); return ~(int)(F->consts.size() - 1); }
  DInst &emit(uint16_t o, unsigned w, int dst, int a = 0, int b = 0, int c = 0) { F->code.push_back(DInst{o, (uint16_t)w, dst, a, b, c, 0, nullptr, 0}); return F->code.back(); }
  int edge(const L::BasicBlock *from, L::BasicBlock *to) {
    Edge e; e.block = bno[to];
    for (auto &ph : to->phis()) {
      L::Value *v = ph.getIncomingValueForBlock(from); unsigned n = flat(ph.getType()).size();
      for (unsigned i = 0; i < n; i++) e.copies.push_back({base[&ph] + (int)i, op(v, i)});
    }
    F->edges.push_back(e); return F->edges.size() - 1;
  }
  void run() {
    F->nargs = 0;
    for (auto &a : f->args()) { base[&a] = newRegs(a.getType()); }
    F->nargs = F->nregs;
    int nb = 0; for (auto &bb : *f) bno[&bb] = nb++;
    for (auto &bb : *f) for (auto &I : bb) if (!I.getType()->isVoidTy()) base[&I] = newRegs(I.getType());
    L::PostDominatorTree PDT(*const_cast<L::Function *>(f));
    for (auto &bb : *f) {
      Block B; B.start = F->code.size(); B.ipdom = -1;
      auto node = PDT.getNode(&bb);
      if (node && node->getIDom() && node->getIDom()->getBlock()) B.ipdom = bno[node->getIDom()->getBlock()];
      F->blocks.push_back(B);
      for (auto &I : bb) inst(const_cast<L::Instruction &>(I), &bb);
      F->blockOf.resize(F->code.size(), bno[&bb]);
    }
    F->decoded = true;
  }
  void inst(L::Instruction &I, const L::BasicBlock *bb) {
    using L::Instruction;
    int d = I.getType()->isVoidTy() ? -1 : base[&I];
    auto ty = I.getType(); auto lv = flat(ty); unsigned n = lv.size();
    auto bin = [&](uint16_t o) { for (unsigned i = 0; i < n; i++) emit(o, wOf(lv[i].ty), d + i, op(I.getOperand(0), i), op(I.getOperand(1), i)); };
    auto un = [&](uint16_t o) { auto sl = flat(I.getOperand(0)->getType()); for (unsigned i = 0; i < n; i++) { auto &x = emit(o, wOf(lv[i].ty), d + i, op(I.getOperand(0), i)); x.w2 = wOf(sl[i].ty); } };
    switch (I.getOpcode()) {
    case Instruction::Add: return bin(I_ADD); case Instruction::Sub: return bin(I_SUB); case Instruction::Mul: return bin(I_MUL);
    case Instruction::UDiv: return bin(I_UDIV); case Instruction::SDiv: return bin(I_SDIV); case Instruction::URem: return bin(I_UREM); case Instruction::SRem: return bin(I_SREM);
    case Instruction::Shl: return bin(I_SHL); case Instruction::LShr: return bin(I_LSHR); case Instruction::AShr: return bin(I_ASHR);
    case Instruction::And: return bin(I_AND); case Instruction::Or: return bin(I_OR); case Instruction::Xor: return bin(I_XOR);
    case Instruction::ICmp: {
      static const std::map<int, int> mp = {{L::CmpInst::ICMP_EQ, I_EQ}, {L::CmpInst::ICMP_NE, I_NE}, {L::CmpInst::ICMP_ULT, I_ULT}, {L::CmpInst::ICMP_ULE, I_ULE}, {L::CmpInst::ICMP_UGT, I_UGT}, {L::CmpInst::ICMP_UGE, I_UGE}, {L::CmpInst::ICMP_SLT, I_SLT}, {L::CmpInst::ICMP_SLE, I_SLE}, {L::CmpInst::ICMP_SGT, I_SGT}, {L::CmpInst::ICMP_SGE, I_SGE}};
      auto sl = flat(I.getOperand(0)->getType());
      for (unsigned i = 0; i < n; i++) emit(mp.at(L::cast<L::ICmpInst>(I).getPredicate()), wOf(sl[i].ty), d + i, op(I.getOperand(0), i), op(I.getOperand(1), i));
      return;
    }
    case Instruction::ZExt: return un(I_ZEXT); case Instruction::SExt: return un(I_SEXT); case Instruction::Trunc: return un(I_TRUNC);
    case Instruction::PtrToInt: return un(wOf(ty) < 64 ? I_TRUNC : I_COPY); case Instruction::IntToPtr: return un(I_ZEXT);
    case Instruction::Freeze: return un(I_COPY);
    case Instruction::BitCast: {
      auto sl = flat(I.getOperand(0)->getType());
      if (sl.size() == n) return un(I_COPY);
      emit(I_UNSUPPORTED, 0, d).x = (void *)"bitcast vector reshape"; return;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      emit(I_FP, wOf(ty), d, op(I.getOperand(0)), op(I.getOperand(1))).imm = I.getOpcode(); return; }
    case Instruction::FNeg: emit(I_FNEG, wOf(ty), d, op(I.getOperand(0))); return;
    case Instruction::FCmp: { auto &x = emit(I_FCMP, wOf(I.getOperand(0)->getType()), d, op(I.getOperand(0)), op(I.getOperand(1))); x.imm = L::cast<L::FCmpInst>(I).getPredicate(); return; }
    case Instruction::SIToFP: return un(I_SITOFP); case Instruction::UIToFP: return un(I_UITOFP);
    case Instruction::FPToSI: return un(I_FPTOSI); case Instruction::FPToUI: return un(I_FPTOUI);
    case Instruction::FPExt: return un(I_FPEXT); case Instruction::FPTrunc: return un(I_FPTRUNC);
    case Instruction::Select: {
      auto cl = flat(I.getOperand(0)->getType());
      for (unsigned i = 0; i < n; i++) emit(I_SELECT, wOf(lv[i].ty), d + i, op(I.getOperand(0), cl.size() == n && cl.size() > 1 ? i : 0), op(I.getOperand(1), i), op(I.getOperand(2), i));
      return;
    }
    case Instruction::GetElementPtr: {
      auto &G = L::cast<L::GetElementPtrInst>(I); u64 off = 0; auto gi = new GepInfo();
      for (auto it = L::gep_type_begin(G), e = L::gep_type_end(G); it != e; ++it) {
        L::Value *ix = it.getOperand();
        if (auto st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(L::cast<L::ConstantInt>(ix)->getZExtValue()); continue; }
        u64 es = DL->getTypeAllocSize(it.getIndexedType());
        if (auto ci = L::dyn_cast<L::ConstantInt>(ix)) { off += es * (u64)ci->getSExtValue(); continue; }
        gi->idx.push_back({op(ix), es, wOf(ix->getType())});
      }
      auto &x = emit(I_GEP, 64, d, op(G.getPointerOperand())); x.imm = off; x.x = gi->idx.empty() ? (delete gi, nullptr) : gi; return;
    }
    case Instruction::Load: {
      for (unsigned i = 0; i < n; i++) { auto &x = emit(I_LOAD, wOf(lv[i].ty), d + i, op(I.getOperand(0))); x.imm = lv[i].off; }
      return;
    }
    case Instruction::Store: {
      auto sl = flat(I.getOperand(0)->getType());
      for (unsigned i = 0; i < sl.size(); i++) { auto &x = emit(I_STORE, wOf(sl[i].ty), -1, op(I.getOperand(1)), op(I.getOperand(0), i)); x.imm = sl[i].off; }
      return;
    }
    case Instruction::Alloca: {
      auto &A = L::cast<L::AllocaInst>(I); auto &x = emit(I_ALLOCA, 64, d, op(A.getArraySize())); x.imm = DL->getTypeAllocSize(A.getAllocatedType()); return;
    }
    case Instruction::Br: {
      auto &B = L::cast<L::BranchInst>(I);
      if (B.isUnconditional()) { int e = edge(bb, B.getSuccessor(0)); emit(I_BR, 0, -1, e); }
      else { int e0 = edge(bb, B.getSuccessor(0)), e1 = edge(bb, B.getSuccessor(1)); emit(I_CBR, 1, -1, op(B.getCondition()), e0, e1); }
      return;
    }
    case Instruction::Switch: {
      auto &W = L::cast<L::SwitchInst>(I); auto si = new SwitchInfo();
      for (auto &c : W.cases()) { si->vals.push_back(c.getCaseValue()->getZExtValue()); si->edges.push_back(edge(bb, c.getCaseSuccessor())); }
      si->deflt = edge(bb, W.getDefaultDest());
      auto &x = emit(I_SWITCH, wOf(W.getCondition()->getType()), -1, op(W.getCondition())); x.x = si; return;
    }
    case Instruction::Ret: {
      auto rv = L::cast<L::ReturnInst>(I).getReturnValue(); auto ops = new vector<int>();
      if (rv) for (unsigned i = 0; i < flat(rv->getType()).size(); i++) ops->push_back(op(rv, i));
      emit(I_RET, 0, -1).x = ops; return;
    }
    case Instruction::Unreachable: emit(I_UNREACHABLE, 0, -1); return;
    case Instruction::ExtractValue: {
      auto &E = L::cast<L::ExtractValueInst>(I); L::Type *t = E.getAggregateOperand()->getType(); unsigned k = 0;
      for (unsigned ix : E.indices()) {
        if (auto st = L::dyn_cast<L::StructType>(t)) { for (unsigned i = 0; i < ix; i++) k += flat(st->getElementType(i)).size(); t = st->getElementType(ix); }
        else { auto at = L::cast<L::ArrayType>(t); k += ix * flat(at->getElementType()).size(); t = at->getElementType(); }
      }
      for (unsigned i = 0; i < n; i++) emit(I_COPY, wOf(lv[i].ty), d + i, op(E.getAggregateOperand(), k + i));
      return;
    }
    case Instruction::InsertValue: {
      auto &E = L::cast<L::InsertValueInst>(I); L::Type *t = ty; unsigned k = 0;
      for (unsigned ix : E.indices()) {
        if (auto st = L::dyn_cast<L::StructType>(t)) { for (unsigned i = 0; i < ix; i++) k += flat(st->getElementType(i)).size(); t = st->getElementType(ix); }
        else { auto at = L::cast<L::ArrayType>(t); k += ix * flat(at->getElementType()).size(); t = at->getElementType(); }
      }
      unsigned m = flat(E.getInsertedValueOperand()->getType()).size();
      for (unsigned i = 0; i < n; i++) emit(I_COPY, wOf(lv[i].ty), d + i, (i >= k && i < k + m) ? op(E.getInsertedValueOperand(), i - k) : op(E.getAggregateOperand(), i));
      return;
    }
    case Instruction::ExtractElement: { auto ci = L::dyn_cast<L::ConstantInt>(I.getOperand(1)); if (ci) { emit(I_COPY, wOf(ty), d, op(I.getOperand(0), ci->getZExtValue())); return; } break; }
    case Instruction::InsertElement: { auto ci = L::dyn_cast<L::ConstantInt>(I.getOperand(2)); if (ci) { for (unsigned i = 0; i < n; i++) emit(I_COPY, wOf(lv[i].ty), d + i, i == ci->getZExtValue() ? op(I.getOperand(1)) : op(I.getOperand(0), i)); return; } break; }
    case Instruction::ShuffleVector: {
      auto &SV = L::cast<L::ShuffleVectorInst>(I); unsigned m = flat(SV.getOperand(0)->getType()).size();
      for (unsigned i = 0; i < n; i++) { int k = SV.getMaskValue(i); if (k < 0) { F->consts.push_back(undefVal(wOf(lv[i].ty))); emit(I_COPY, wOf(lv[i].ty), d + i, ~(int)(F->consts.size() - 1)); } else emit(I_COPY, wOf(lv[i].ty), d + i, k < (int)m ? op(SV.getOperand(0), k) : op(SV.getOperand(1), k - m)); }
      return;
    }
    case Instruction::PHI: case Instruction::Fence: return;
    case Instruction::AtomicRMW: { auto &R = L::cast<L::AtomicRMWInst>(I); auto &x = emit(I_RMW, wOf(ty), d, op(R.getPointerOperand()), op(R.getValOperand())); x.imm = R.getOperation(); return; }
    case Instruction::AtomicCmpXchg: { auto &R = L::cast<L::AtomicCmpXchgInst>(I); auto &x = emit(I_CMPXCHG, wOf(R.getCompareOperand()->getType()), d, op(R.getPointerOperand()), op(R.getCompareOperand()), op(R.getNewValOperand())); (void)x; return; }
    case Instruction::LandingPad: {
      auto &P = L::cast<L::LandingPadInst>(I); auto lp = new LPad(); lp->cleanup = P.isCleanup();
      for (unsigned i = 0; i < P.getNumClauses(); i++) {
        if (P.isCatch(i)) lp->clauses.push_back({false, constAddr(P.getClause(i))});
        else lp->clauses.push_back({true, 0});
      }
      emit(I_LPAD, 0, d).x = lp; return;
    }
    case Instruction::Resume: emit(I_RESUME, 0, -1, op(I.getOperand(0), 0)); return;
    case Instruction::Call: case Instruction::Invoke: {
      auto &C = L::cast<L::CallBase>(I);
      if (C.isInlineAsm()) { if (n == 0) return; emit(I_UNSUPPORTED, 0, d).x = (void *)"inline asm"; return; }
      if (L::isa<L::DbgInfoIntrinsic>(I)) return;
      auto ci = new CallInfo(); ci->dst = d; ci->nret = n; for (auto &l : lv) ci->retw.push_back(wOf(l.ty));
      L::Value *cv = C.getCalledOperand()->stripPointerCasts();
      if (auto ga = L::dyn_cast<L::GlobalAlias>(cv)) cv = ga->getAliaseeObject();
      if (auto cf = L::dyn_cast<L::Function>(cv)) {
        if (cf->isIntrinsic()) {
          auto nm = cf->getName();
          if (nm.starts_with("llvm.lifetime") || nm.starts_with("llvm.dbg") || nm.starts_with("llvm.assume") || nm.starts_with("llvm.experimental.noalias") || nm.starts_with("llvm.invariant") || nm.starts_with("llvm.stackrestore") || nm.starts_with("llvm.prefetch") || nm.starts_with("llvm.donothing") || nm.starts_with("llvm.var.annotation")) return;
        }
        ci->callee = fi(cf);
      } else { ci->indirect = true; ci->calleeReg = op(C.getCalledOperand()); }
      for (unsigned i = 0; i < C.arg_size(); i++) {
        auto at = C.getArgOperand(i)->getType();
        if (at->isMetadataTy()) continue;
        auto al = flat(at);
        u64 bv = C.isByValArgument(i) ? DL->getTypeAllocSize(C.getParamByValType(i)) : 0;
        for (unsigned k = 0; k < al.size(); k++) { ci->args.push_back(op(C.getArgOperand(i), k)); ci->byval.push_back(bv); ci->argw.push_back(wOf(al[k].ty)); }
      }
      if (auto iv = L::dyn_cast<L::InvokeInst>(&I)) { ci->invoke = true; ci->normalEdge = edge(bb, iv->getNormalDest()); ci->unwindEdge = edge(bb, iv->getUnwindDest()); }
      emit(I_CALL, 0, d).x = ci; return;
    }
    default: break;
    }
    string s; L::raw_string_ostream os(s); I.print(os);
    emit(I_UNSUPPORTED, 0, d).x = strdup(s.c_str());
  }
};
static void decode(FuncInfo *F) { Decoder D; D.F = F; D.f = (const L::Function *)F->llvmF; D.run(); }

#include "exec.inc"
