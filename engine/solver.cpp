#include "solver.h"
#include <chrono>
#include <algorithm>
#include <unordered_set>
#include <cstdlib>
#include <cstdio>
#include <cstring>
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
Solver::Solver() {
  cfg = Z3_mk_config();
  ctx = Z3_mk_context_rc(cfg);
  Z3_set_error_handler(ctx, errh);
}
const std::vector<uint32_t> &Solver::leaves(T root) {
  auto f0 = leafMemo.find(root);
  if (f0 != leafMemo.end()) return f0->second;
  std::vector<T> st{root};
  while (!st.empty()) {
    T t = st.back();
    if (leafMemo.count(t)) { st.pop_back(); continue; }
    if (t->op == T_VAR || t->op == T_HBYTE) { leafMemo[t] = {t->id}; st.pop_back(); continue; }
    bool ready = true;
    for (unsigned i = 0; i < t->n; i++) if (!leafMemo.count(t->a[i])) { st.push_back(t->a[i]); ready = false; }
    if (!ready) continue;
    std::vector<uint32_t> r;
    for (unsigned i = 0; i < t->n; i++) { auto &l = leafMemo[t->a[i]]; r.insert(r.end(), l.begin(), l.end()); }
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
    leafMemo[t] = std::move(r);
    st.pop_back();
  }
  return leafMemo[root];
}
Z3_ast Solver::appInput(T app) {
  auto f = appArg.find(app->id);
  if (f != appArg.end()) return f->second;
  Z3_ast r = nullptr;
  for (unsigned i = 0; i < app->n; i++) { Z3_ast b = tr(app->a[i], 1); r = r ? keep(Z3_mk_concat(ctx, r, b)) : b; }
  if (!r) r = keep(Z3_mk_unsigned_int(ctx, 0, Z3_mk_bv_sort(ctx, 8)));
  appArg[app->id] = r; return r;
}
Z3_ast Solver::hashBlock(T app, unsigned blk) {
  u64 key = ((u64)app->id << 16) | blk;
  auto f = appMemo.find(key);
  if (f != appMemo.end()) return f->second;
  auto fk = std::make_pair((unsigned)app->c, blk);
  auto d = fdecl.find(fk);
  Z3_ast in = appInput(app);
  if (d == fdecl.end()) {
    Z3_sort dom = Z3_get_sort(ctx, in), rng = Z3_mk_bv_sort(ctx, 256);
    std::string nm = "H_" + gHashFns[app->c].name + "_" + std::to_string(gHashFns[app->c].inlen) + "_" + std::to_string(blk);
    Z3_func_decl fd = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, nm.c_str()), 1, &dom, rng);
    Z3_inc_ref(ctx, Z3_func_decl_to_ast(ctx, fd));
    d = fdecl.emplace(fk, fd).first;
  }
  Z3_ast r = keep(Z3_mk_app(ctx, d->second, 1, &in));
  appMemo[key] = r; return r;
}
Z3_ast Solver::tr(T root, int mode) {
  auto &M = memo[mode];
  if (M.size() < gTermCount) M.resize(gTermCount + gTermCount / 4 + 1024, nullptr);
  if (M[root->id]) return M[root->id];
  std::vector<T> st{root};
  auto bvs = [&](unsigned w) { return Z3_mk_bv_sort(ctx, w); };
  while (!st.empty()) {
    T t = st.back();
    if (M[t->id]) { st.pop_back(); continue; }
    bool ready = true;
    if (!(t->op == T_HBYTE && mode == 0))
      for (unsigned i = 0; i < t->n; i++) {
        T x = t->a[i];
        if (x->op == T_HASH) { // need its inputs
          for (unsigned j = 0; j < x->n; j++) if (!M[x->a[j]->id]) { st.push_back(x->a[j]); ready = false; }
        } else if (!M[x->id]) { st.push_back(x); ready = false; }
      }
    if (!ready) continue;
    auto A = [&](unsigned i) { return M[t->a[i]->id]; };
    auto num = [&](unsigned w, u128 v) {
      if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)v, bvs(w));
      Z3_ast hi = keep(Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), bvs(w - 64)));
      Z3_ast lo = keep(Z3_mk_unsigned_int64(ctx, (u64)v, bvs(64)));
      return Z3_mk_concat(ctx, hi, lo);
    };
    auto b2bv = [&](Z3_ast c) { keep(c); return Z3_mk_ite(ctx, c, keep(num(1, 1)), keep(num(1, 0))); };
    auto bv2b = [&](Z3_ast b) { return keep(Z3_mk_eq(ctx, b, keep(num(1, 1)))); };
    auto fold = [&](Z3_ast (*f)(Z3_context, Z3_ast, Z3_ast)) { Z3_ast r = A(0); for (unsigned i = 1; i < t->n; i++) r = keep(f(ctx, r, A(i))); return r; };
    Z3_ast r = nullptr;
    switch (t->op) {
    case T_CONST: r = num(t->w, cval(t)); break;
    case T_VAR: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("v" + std::to_string(t->c)).c_str()), bvs(t->w)); break;
    case T_ADD: {
      if (t->w > 64) { r = fold(Z3_mk_bvadd); break; }
      if (t->c) r = keep(num(t->w, t->c));
      for (unsigned i = 0; i < t->n; i++) {
        Z3_ast x = A(i);
        u64 k = t->coef[i]; u64 nk = (0 - k) & maskw(t->w);
        if (k == 1) {}
        else if (nk == 1) x = keep(Z3_mk_bvneg(ctx, x));
        else x = keep(Z3_mk_bvmul(ctx, x, keep(num(t->w, k))));
        r = r ? keep(Z3_mk_bvadd(ctx, r, x)) : x;
      }
      break;
    }
    case T_MUL: r = Z3_mk_bvmul(ctx, A(0), A(1)); break;
    case T_UDIV: r = Z3_mk_bvudiv(ctx, A(0), A(1)); break;
    case T_SDIV: r = Z3_mk_bvsdiv(ctx, A(0), A(1)); break;
    case T_UREM: r = Z3_mk_bvurem(ctx, A(0), A(1)); break;
    case T_SREM: r = Z3_mk_bvsrem(ctx, A(0), A(1)); break;
    case T_AND: r = fold(Z3_mk_bvand); break;
    case T_OR: r = fold(Z3_mk_bvor); break;
    case T_XOR: r = fold(Z3_mk_bvxor); break;
    case T_SHL: r = Z3_mk_bvshl(ctx, A(0), A(1)); break;
    case T_LSHR: r = Z3_mk_bvlshr(ctx, A(0), A(1)); break;
    case T_ASHR: r = Z3_mk_bvashr(ctx, A(0), A(1)); break;
    case T_CONCAT: { r = A(0); for (unsigned i = 1; i < t->n; i++) r = keep(Z3_mk_concat(ctx, A(i), r)); break; }
    case T_EXTRACT: r = Z3_mk_extract(ctx, t->c + t->w - 1, t->c, A(0)); break;
    case T_SEXT: r = Z3_mk_sign_ext(ctx, t->w - t->a[0]->w, A(0)); break;
    case T_EQ: r = b2bv(Z3_mk_eq(ctx, A(0), A(1))); break;
    case T_ULT: r = b2bv(Z3_mk_bvult(ctx, A(0), A(1))); break;
    case T_ULE: r = b2bv(Z3_mk_bvule(ctx, A(0), A(1))); break;
    case T_SLT: r = b2bv(Z3_mk_bvslt(ctx, A(0), A(1))); break;
    case T_SLE: r = b2bv(Z3_mk_bvsle(ctx, A(0), A(1))); break;
    case T_ITE: r = Z3_mk_ite(ctx, bv2b(A(0)), A(1), A(2)); break;
    case T_ROTL: r = Z3_mk_rotate_left(ctx, t->c, A(0)); break;
    case T_HBYTE:
      if (mode == 0) r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("h" + std::to_string(t->id)).c_str()), bvs(8));
      else { Z3_ast b = hashBlock(t->a[0], t->c / 32); unsigned k = t->c % 32; r = Z3_mk_extract(ctx, 8 * k + 7, 8 * k, b); }
      break;
    default: fprintf(stderr, "tr: bad op %d\n", t->op); abort();
    }
    M[t->id] = keep(r);
    st.pop_back();
  }
  return M[root->id];
}
static SatRes conv(Z3_lbool b) { return b == Z3_L_TRUE ? SAT_SAT : b == Z3_L_FALSE ? SAT_UNSAT : SAT_UNKNOWN; }
static Z3_ast asBool(Z3_context ctx, Z3_ast b) {
  Z3_ast one = Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)); Z3_inc_ref(ctx, one);
  Z3_ast e = Z3_mk_eq(ctx, b, one); Z3_inc_ref(ctx, e); return e;
}
static void setTimeout(Z3_context ctx, Z3_solver s, unsigned ms) {
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
  Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
}
// constraints over a single 8-bit unknown: their truth table
static bool byteTable(const std::vector<T> &cs, bool &sat) {
  T leaf = nullptr; std::unordered_set<T> seen; std::vector<T> st(cs.begin(), cs.end());
  while (!st.empty()) {
    T x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (seen.size() > 150) return false;
    if (x->op == T_VAR || x->op == T_HBYTE) { if (x->w != 8 || (leaf && leaf != x)) return false; leaf = x; continue; }
    if (x->op == T_HASH || x->op == T_HCASE || x->w > 64) return false;
    for (unsigned i = 0; i < x->n; i++) st.push_back(x->a[i]);
  }
  if (!leaf) return false;
  for (unsigned v = 0; v < 256; v++) {
    bool all = true;
    for (T c : cs) { T r = tInst(c, leaf, tConst(8, v)); if (isFalse(r)) { all = false; break; } if (!isTrue(r)) return false; }
    if (all) { sat = true; return true; }
  }
  sat = false; return true;
}
SatRes Solver::checkOpaque(const std::vector<T> &cs0) {
  std::vector<T> cs;
  for (T t : cs0) { if (isFalse(t)) return SAT_UNSAT; if (!isTrue(t)) cs.push_back(t); }
  if (cs.empty()) return SAT_SAT;
  std::vector<uint32_t> key; for (T t : cs) key.push_back(t->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto c = cache.find(key);
  if (c != cache.end()) { st.cacheHits++; return c->second; }
  double t0 = now();
  bool bsat; if (byteTable(cs, bsat)) { SatRes q = bsat ? SAT_SAT : SAT_UNSAT; st.queries++; st.time += now() - t0; if (bsat) st.sat++; else st.unsat++; return cache[key] = q; }
  Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, s);
  setTimeout(ctx, s, branchTimeoutMs);
  for (T t : cs) Z3_solver_assert(ctx, s, asBool(ctx, tr(t, 0)));
  SatRes r = conv(Z3_solver_check(ctx, s));
  Z3_solver_dec_ref(ctx, s);
  st.queries++; st.time += now() - t0;
  if (r == SAT_SAT) st.sat++; else if (r == SAT_UNSAT) st.unsat++; else st.unknown++;
  cache[key] = r;
  return r;
}
SatRes Solver::checkOpaqueModel(const std::vector<T> &cs, Model *m) {
  double t0 = now(); std::unordered_set<T> seen; std::vector<T> stk(cs.begin(), cs.end()), vars;
  while (!stk.empty()) { T t = stk.back(); stk.pop_back(); if (!seen.insert(t).second) continue; if (t->op == T_VAR) vars.push_back(t); if (t->op != T_HBYTE) for (unsigned i = 0; i < t->n; i++) stk.push_back(t->a[i]); }
  Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, s); setTimeout(ctx, s, timeoutMs);
  for (T t : cs) Z3_solver_assert(ctx, s, asBool(ctx, tr(t, 0)));
  SatRes r = conv(Z3_solver_check(ctx, s));
  if (r == SAT_SAT) {
    Z3_model mod = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, mod);
    for (T v : vars) if (v->w <= 64) { Z3_ast e = nullptr; uint64_t x = 0; Z3_model_eval(ctx, mod, tr(v, 0), true, &e); if (e) { Z3_inc_ref(ctx, e); Z3_get_numeral_uint64(ctx, e, &x); } m->vars.push_back({gVars[v->c].name, x}); m->byId[v->c] = x; }
    Z3_model_dec_ref(ctx, mod);
  }
  Z3_solver_dec_ref(ctx, s); st.queries++; st.time += now() - t0;
  if (r == SAT_SAT) st.sat++; else if (r == SAT_UNSAT) st.unsat++; else st.unknown++;
  return r;
}
SatRes Solver::checkFull(const std::vector<T> &cs0, Model *m) {
  std::vector<T> cs;
  for (T t : cs0) { if (isFalse(t)) return SAT_UNSAT; if (!isTrue(t)) cs.push_back(t); }
  double t0 = now();
  // expand hash case tables into ite chains
  for (int round = 0; round < 64; round++) {
    std::unordered_set<T> seen; std::vector<T> stk(cs.begin(), cs.end()); Subst sb; bool any = false;
    while (!stk.empty()) {
      T t = stk.back(); stk.pop_back();
      if (!seen.insert(t).second) continue;
      if (seen.size() > fullLimit) { st.unknown++; return SAT_UNKNOWN; }
      if (t->op == T_HBYTE && t->a[0]->op == T_HCASE) {
        T h = t->a[0], r = tHByte(h->a[h->n - 1], t->c);
        for (unsigned v = h->n - 2; v-- > 0;) r = tIte(tEq(h->a[0], tConst(h->a[0]->w, v)), tHByte(h->a[1 + v], t->c), r);
        sb.memo[t] = r; any = true; continue;
      }
      for (unsigned i = 0; i < t->n; i++) stk.push_back(t->a[i]);
    }
    if (!any) break;
    for (T &t : cs) t = sb.apply(t);
  }
  // collect DAG
  std::unordered_set<T> seen; std::vector<T> stk(cs.begin(), cs.end()); std::vector<T> vars; std::map<T, std::vector<unsigned>> apps;
  while (!stk.empty()) {
    T t = stk.back(); stk.pop_back();
    if (!seen.insert(t).second) continue;
    if (seen.size() > fullLimit) { st.unknown++; return SAT_UNKNOWN; }
    if (t->op == T_VAR) vars.push_back(t);
    if (t->op == T_HBYTE) { auto &v = apps[t->a[0]]; unsigned b = t->c / 32; if (std::find(v.begin(), v.end(), b) == v.end()) v.push_back(b); }
    for (unsigned i = 0; i < t->n; i++) stk.push_back(t->a[i]);
  }
  if (injective) for (auto &p : apps) if (std::find(p.second.begin(), p.second.end(), 0u) == p.second.end()) p.second.push_back(0);
  Z3_solver s = apps.empty() ? Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_UFBV"));
  Z3_solver_inc_ref(ctx, s);
  setTimeout(ctx, s, timeoutMs);
  for (T t : cs) Z3_solver_assert(ctx, s, asBool(ctx, tr(t, 1)));
  if (injective) {
    // collision freeness through left inverses: inv_f(f(x)) = x, kind(f(x)) = id(f)
    static std::map<unsigned, Z3_func_decl> inv; static Z3_func_decl kind = nullptr;
    Z3_sort b256 = Z3_mk_bv_sort(ctx, 256), b16 = Z3_mk_bv_sort(ctx, 16);
    if (!kind) { kind = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, "kind"), 1, &b256, b16); Z3_inc_ref(ctx, Z3_func_decl_to_ast(ctx, kind)); }
    for (auto &p : apps) {
      T app = p.first; unsigned fn = app->c; Z3_ast in = appInput(app), out = hashBlock(app, 0);
      if (!inv.count(fn)) { Z3_func_decl d = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, ("inv" + std::to_string(fn)).c_str()), 1, &b256, Z3_get_sort(ctx, in)); Z3_inc_ref(ctx, Z3_func_decl_to_ast(ctx, d)); inv[fn] = d; }
      Z3_ast l = keep(Z3_mk_app(ctx, inv[fn], 1, &out));
      Z3_solver_assert(ctx, s, keep(Z3_mk_eq(ctx, l, in)));
      Z3_ast k = keep(Z3_mk_app(ctx, kind, 1, &out));
      Z3_solver_assert(ctx, s, keep(Z3_mk_eq(ctx, k, keep(Z3_mk_unsigned_int64(ctx, fn, b16)))));
    }
  }
  SatRes r = conv(Z3_solver_check(ctx, s));
  if (r == SAT_SAT && m) {
    Z3_model mod = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, mod);
    auto evalBits = [&](Z3_ast a, unsigned w) {
      std::vector<uint8_t> o((w + 7) / 8, 0);
      for (unsigned i = 0; i < w; i += 64) {
        unsigned k = std::min(64u, w - i);
        Z3_ast e = (i == 0 && k == w) ? a : keep(Z3_mk_extract(ctx, i + k - 1, i, a));
        Z3_ast v = nullptr; uint64_t x = 0;
        Z3_model_eval(ctx, mod, e, true, &v);
        if (v) { Z3_inc_ref(ctx, v); Z3_get_numeral_uint64(ctx, v, &x); }
        for (unsigned j = 0; j * 8 < k; j++) o[i / 8 + j] = x >> (8 * j);
      }
      return o;
    };
    for (T v : vars) { auto o = evalBits(tr(v, 1), v->w); u64 x = 0; for (size_t i = 0; i < o.size() && i < 8; i++) x |= (u64)o[i] << (8 * i); m->vars.push_back({gVars[v->c].name, x}); m->byId[v->c] = x; }
    for (auto &p : apps) {
      HashEntry he; he.fn = p.first->c;
      unsigned n = p.first->n;
      if (n) { auto o = evalBits(appInput(p.first), 8 * n); he.in.assign(o.rbegin(), o.rend()); }
      unsigned mx = 0; for (unsigned b : p.second) mx = std::max(mx, b);
      // blocks 0..mx (unused ones: completed arbitrarily)
      for (unsigned b = 0; b <= mx; b++) { auto o = evalBits(hashBlock(p.first, b), 256); he.out.insert(he.out.end(), o.begin(), o.end()); }
      m->hashes.push_back(he);
    }
    Z3_model_dec_ref(ctx, mod);
  }
  Z3_solver_dec_ref(ctx, s);
  st.queries++; st.fullQueries++; st.time += now() - t0;
  if (r == SAT_SAT) st.sat++; else if (r == SAT_UNSAT) st.unsat++; else st.unknown++;
  return r;
}
