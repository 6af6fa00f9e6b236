#include "term.h"
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <cstdio>
#include <cassert>
#include <functional>

std::vector<VarInfo> gVars;
std::vector<HashFn> gHashFns;
std::vector<T> gHashApps;
u64 gTermCount = 0;
bool gLanes = false; // 64-bit xor/and/rotate are kept as lane operations (no splitting at constant pieces)

// ---------- arena + hash-consing ----------
static char *arenaP = nullptr, *arenaE = nullptr;
static void *aalloc(size_t n) {
  n = (n + 15) & ~size_t(15);
  if (arenaP + n > arenaE) {
    size_t sz = std::max<size_t>(n, 64u << 20);
    arenaP = (char *)malloc(sz);
    arenaE = arenaP + sz;
  }
  void *r = arenaP; arenaP += n; return r;
}
static Term **tab = nullptr;
static size_t tabCap = 0, tabN = 0;
static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h;
}
static void rehash() {
  size_t nc = tabCap ? tabCap * 2 : (1 << 20);
  Term **nt = (Term **)calloc(nc, sizeof(Term *));
  for (size_t i = 0; i < tabCap; i++) if (tab[i]) {
    size_t j = tab[i]->h & (nc - 1);
    while (nt[j]) j = (j + 1) & (nc - 1);
    nt[j] = tab[i];
  }
  free(tab); tab = nt; tabCap = nc;
}
static void setBounds(Term *t);
static T mk(uint8_t op, unsigned w, T const *a, unsigned n, u64 c = 0, u64 c2 = 0, const u64 *coef = nullptr) {
  uint64_t h = mix(mix(mix(op, w), c), c2);
  for (unsigned i = 0; i < n; i++) h = mix(h, a[i]->id);
  if (coef) for (unsigned i = 0; i < n; i++) h = mix(h, coef[i]);
  if ((tabN + 1) * 2 > tabCap) rehash();
  size_t j = h & (tabCap - 1);
  for (; tab[j]; j = (j + 1) & (tabCap - 1)) {
    Term *x = tab[j];
    if (x->h == h && x->op == op && x->w == w && x->n == n && x->c == c && x->c2 == c2) {
      bool same = true;
      for (unsigned i = 0; i < n && same; i++) if (x->a[i] != a[i]) same = false;
      if (same && coef) for (unsigned i = 0; i < n && same; i++) if (x->coef[i] != coef[i]) same = false;
      if (same) return x;
    }
  }
  Term *t = (Term *)aalloc(sizeof(Term) + n * sizeof(Term *) + (coef ? n * 8 : 0));
  t->id = gTermCount++; t->w = w; t->op = op; t->flags = 0; t->n = n; t->c = c; t->c2 = c2; t->h = h;
  t->a = (Term **)(t + 1);
  t->coef = coef ? (u64 *)(t->a + n) : nullptr;
  u64 nodes = 1;
  for (unsigned i = 0; i < n; i++) { t->a[i] = const_cast<Term *>(a[i]); t->flags |= a[i]->flags; nodes += a[i]->nodes; }
  if (coef) memcpy(t->coef, coef, n * 8);
  t->nodes = nodes > 0xffffffffu ? 0xffffffffu : nodes;
  u64 sh = 1; if (op < T_HASH) for (unsigned i = 0; i < n; i++) sh += a[i]->sh;
  t->sh = sh > 0xffffffffu ? 0xffffffffu : sh;
  setBounds(t);
  tab[j] = t; tabN++;
  return t;
}
static u64 sat_add(u64 a, u64 b) { u64 r; return __builtin_add_overflow(a, b, &r) ? ~0ULL : r; }
// Range of a linear sum with coefficients read as signed numbers.  When the whole range lies in one
// window of 2^w, the sum equals (integer sum) - q*2^w and lies in [lo,hi].
static bool addRange(const Term *t, __int128 &lo, __int128 &hi, __int128 &q) {
  __int128 mn = t->c, mx = t->c; const __int128 W = (__int128)1 << t->w, LIM = (__int128)1 << 100;
  for (unsigned i = 0; i < t->n; i++) {
    __int128 k = t->coef[i]; if (t->coef[i] >> (t->w - 1) & 1) k -= W;
    if (t->a[i]->w > 64) return false;
    __int128 x = k * (__int128)(k >= 0 ? t->a[i]->umin : t->a[i]->umax), y = k * (__int128)(k >= 0 ? t->a[i]->umax : t->a[i]->umin);
    if (k > ((__int128)1 << 60) || k < -((__int128)1 << 60)) return false;
    mn += x; mx += y; if (mn < -LIM || mx > LIM) return false;
  }
  auto fl = [&](__int128 v) { return v >= 0 ? v >> t->w : -((-v + W - 1) >> t->w); };
  q = fl(mn); if (fl(mx) != q) return false;
  lo = mn - q * W; hi = mx - q * W; return true;
}
static void setBounds(Term *t) {
  t->umin = 0; t->umax = maskw(t->w);
  if (t->w > 64 || t->w == 0) { t->umax = ~0ULL; return; }
  switch (t->op) {
  case T_CONST: t->umin = t->umax = t->c; break;
  case T_CONCAT: {
    u64 mn = 0, mx = 0; unsigned pos = 0;
    for (unsigned i = 0; i < t->n; i++) { mn |= t->a[i]->umin << pos; mx |= t->a[i]->umax << pos; pos += t->a[i]->w; if (pos >= 64) break; }
    t->umin = mn; t->umax = mx; break;
  }
  case T_ITE: t->umin = std::min(t->a[1]->umin, t->a[2]->umin); t->umax = std::max(t->a[1]->umax, t->a[2]->umax); break;
  case T_AND: { u64 m = maskw(t->w); for (unsigned i = 0; i < t->n; i++) m = std::min(m, t->a[i]->umax); t->umax = m; break; }
  case T_OR: {
    u64 m = t->a[0]->umax | t->a[1]->umax; // upper bound: next pow2-1
    if (m) m = (m >> 63) ? ~0ULL : ((2ULL << (63 - __builtin_clzll(m))) - 1);
    t->umax = std::min(m, maskw(t->w)); t->umin = std::max(t->a[0]->umin, t->a[1]->umin); break;
  }
  case T_XOR: {
    u64 m = 0; for (unsigned i = 0; i < t->n; i++) m |= t->a[i]->umax;
    if (m) m = (m >> 63) ? ~0ULL : ((2ULL << (63 - __builtin_clzll(m))) - 1);
    t->umax = std::min(m, maskw(t->w)); break;
  }
  case T_ADD: { __int128 lo, hi, q; if (addRange(t, lo, hi, q)) { t->umin = (u64)lo; t->umax = (u64)hi; } break; }
  case T_MUL: { u128 p = (u128)t->a[0]->umax * t->a[1]->umax; if (p <= maskw(t->w)) { t->umax = (u64)p; t->umin = t->a[0]->umin * t->a[1]->umin; } break; }
  case T_UDIV: if (t->a[1]->umin > 0) t->umax = t->a[0]->umax / t->a[1]->umin; break;
  case T_UREM: if (t->a[1]->umin > 0) t->umax = std::min(t->a[0]->umax, t->a[1]->umax - 1); break;
  case T_LSHR: t->umax = t->a[0]->umax >> std::min<u64>(63, t->a[1]->umin); break;
  default: break;
  }
}

unsigned hashFnId(const std::string &name, unsigned inlen) {
  for (unsigned i = 0; i < gHashFns.size(); i++) if (gHashFns[i].inlen == inlen && gHashFns[i].name == name) return i;
  gHashFns.push_back({name, inlen}); return gHashFns.size() - 1;
}
T tConst(unsigned w, u64 v) {
  static T cache[65][257];
  if (w <= 64) {
    v &= maskw(w);
    if (v < 257) { T &c = cache[w][v]; if (!c) c = mk(T_CONST, w, nullptr, 0, v); return c; }
    return mk(T_CONST, w, nullptr, 0, v);
  }
  return tConst128(w, v);
}
T tConst128(unsigned w, u128 v) {
  if (w <= 64) return tConst(w, (u64)v);
  if (w <= 128) { v &= maskw128(w); return mk(T_CONST, w, nullptr, 0, (u64)v, (u64)(v >> 64)); }
  // wider: concat of pieces
  std::vector<T> p; unsigned rem = w; 
  while (rem) { unsigned k = std::min(rem, 64u); p.push_back(tConst(k, (u64)v)); v >>= k; rem -= k; }
  return mk(T_CONCAT, w, p.data(), p.size());
}
T tTrue() { static T t = tConst(1, 1); return t; }
T tFalse() { static T t = tConst(1, 0); return t; }
T tVar(const std::string &name, unsigned w, bool uninit) {
  u64 id = gVars.size(); gVars.push_back({name, w, uninit});
  Term *t = const_cast<Term *>(mk(T_VAR, w, nullptr, 0, id));
  if (uninit) t->flags |= 1;
  return t;
}

// ---------- concat / extract ----------
static void pieces(T t, std::vector<T> &out) {
  if (t->op == T_CONCAT) for (unsigned i = 0; i < t->n; i++) out.push_back(t->a[i]);
  else out.push_back(t);
}
T tConcat(const std::vector<T> &in) {
  std::vector<T> p; p.reserve(in.size());
  for (T t : in) pieces(t, p);
  std::vector<T> o; o.reserve(p.size());
  for (T t : p) {
    if (!o.empty()) {
      T l = o.back();
      if (isC(l) && isC(t) && l->w + t->w <= 64) { o.back() = tConst(l->w + t->w, l->c | (t->c << l->w)); continue; }
      // adjacent extracts of same base
      T lb = l->op == T_EXTRACT ? l->a[0] : l; u64 ll = l->op == T_EXTRACT ? l->c : 0;
      T tb = t->op == T_EXTRACT ? t->a[0] : t; u64 tl = t->op == T_EXTRACT ? t->c : 0;
      if (lb == tb && tl == ll + l->w && (l->op == T_EXTRACT || t->op == T_EXTRACT) && !isC(lb)) {
        T e = tExtract(lb, ll, l->w + t->w);
        if (e->op != T_CONCAT) { o.back() = e; continue; }
      }
      // Same-condition ites merge when both arms are constants
      if (l->op == T_ITE && t->op == T_ITE && l->a[0] == t->a[0] && l->w + t->w <= 64 &&
          ((isC(l->a[1]) && isC(t->a[1])) || (isC(l->a[2]) && isC(t->a[2])))) {
        T a = tConcat({l->a[1], t->a[1]}), b = tConcat({l->a[2], t->a[2]});
        o.back() = tIte(l->a[0], a, b); continue;
      }
    }
    o.push_back(t);
  }
  if (o.size() == 1) return o[0];
  if (o.size() == 2 && o[0]->op == T_EXTRACT && o[1]->op == T_EXTRACT && o[0]->a[0] == o[1]->a[0] && o[1]->c == 0 &&
      o[1]->w == o[0]->c && o[0]->c + o[0]->w == o[0]->a[0]->w && o[0]->a[0]->op != T_CONCAT && o[0]->a[0]->w == o[0]->w + o[1]->w) {
    T base = o[0]->a[0]; unsigned n = o[0]->w; return mk(T_ROTL, base->w, &base, 1, n);
  }
  unsigned w = 0; bool allc = true;
  for (T t : o) { w += t->w; allc &= isC(t); }
  if (allc && w <= 128) { u128 v = 0; unsigned pos = 0; for (T t : o) { v |= cval(t) << pos; pos += t->w; } return tConst128(w, v); }
  return mk(T_CONCAT, w, o.data(), o.size());
}
T tConcat2(T lo, T hi) { std::vector<T> v{lo, hi}; return tConcat(v); }

static bool leafy(T t) { return isC(t); }
T tExtract(T a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return tConst128(w, (cval(a) >> lo) & maskw128(w));
  switch (a->op) {
  case T_EXTRACT: return tExtract(a->a[0], a->c + lo, w);
  case T_CONCAT: {
    std::vector<T> o; unsigned pos = 0;
    for (unsigned i = 0; i < a->n; i++) {
      unsigned pw = a->a[i]->w;
      unsigned s = std::max(pos, lo), e = std::min(pos + pw, lo + w);
      if (s < e) o.push_back(tExtract(a->a[i], s - pos, e - s));
      pos += pw; if (pos >= lo + w) break;
    }
    return o.size() == 1 ? o[0] : tConcat(o);
  }
  case T_ITE:
    if (leafy(a->a[1]) || leafy(a->a[2]) || a->a[1]->op == T_CONCAT || a->a[2]->op == T_CONCAT || a->a[1]->op == T_ITE || a->a[2]->op == T_ITE)
      return tIte(a->a[0], tExtract(a->a[1], lo, w), tExtract(a->a[2], lo, w));
    break;
  case T_AND: case T_OR: case T_XOR: {
    if (a->n <= 64 && a->sh <= 512 && !(gLanes && a->w == 64)) {
      T r = tExtract(a->a[0], lo, w);
      for (unsigned i = 1; i < a->n; i++) {
        T x = tExtract(a->a[i], lo, w);
        r = a->op == T_AND ? tAnd(r, x) : a->op == T_OR ? tOr(r, x) : tXor(r, x);
      }
      return r;
    }
    break;
  }
  case T_ADD:
    if (lo == 0) { // low bits of a sum
      if (w <= 64) {
        T r = tConst(w, a->c);
        if (w == 1) { for (unsigned i = 0; i < a->n; i++) if (a->coef[i] & 1) r = tXor(r, tExtract(a->a[i], 0, 1)); return r; }
        for (unsigned i = 0; i < a->n; i++) r = tAdd(r, tMul(tExtract(a->a[i], 0, w), tConst(w, a->coef[i])));
        return r;
      }
    } else if (a->w <= 64 && lo + w < a->w) {
      return tExtract(tExtract(a, 0, lo + w), lo, w);
    }
    break;
  case T_SEXT:
    if (lo + w <= a->a[0]->w) return tExtract(a->a[0], lo, w);
    if (lo == 0) return tSExt(a->a[0], w);
    break;
  case T_ROTL: {
    unsigned W = a->w, s0 = (lo + W - a->c) % W;
    if (s0 + w <= W) return tExtract(a->a[0], s0, w);
    return tConcat2(tExtract(a->a[0], s0, W - s0), tExtract(a->a[0], 0, w - (W - s0)));
  }
  case T_MUL: if (lo == 0) return tMul(tExtract(a->a[0], 0, w), tExtract(a->a[1], 0, w)); break;
  default: break;
  }
  if (a->w <= 64 && lo < 64 && a->umax < (1ULL << lo) ) return tConst(w, 0);
  if (a->w <= 64 && lo < 64) { // trim known-zero high part
    unsigned bits = a->umax ? 64 - __builtin_clzll(a->umax) : 0;
    if (bits < lo + w) {
      unsigned keep = bits - lo;
      T e = mk(T_EXTRACT, keep, &a, 1, lo);
      return tConcat2(e, tConst(w - keep, 0));
    }
  }
  return mk(T_EXTRACT, w, &a, 1, lo);
}
T tZExt(T a, unsigned w) {
  if (w == a->w) return a;
  if (w < a->w) return tExtract(a, 0, w);
  return tConcat2(a, tConst128(w - a->w, 0));
}
T tSExt(T a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a) && a->w <= 64 && w <= 64) { u64 v = a->c; if (v >> (a->w - 1) & 1) v |= ~maskw(a->w); return tConst(w, v); }
  if (isC(a)) { u128 v = cval(a); if (v >> (a->w - 1) & 1) v |= ~maskw128(a->w); return tConst128(w, v); }
  if (a->w <= 64 && a->w > 1 && a->umax < (1ULL << (a->w - 1))) return tZExt(a, w);
  if (a->op == T_SEXT) return tSExt(a->a[0], w);
  if (a->op == T_CONCAT && isC(a->a[a->n - 1])) {
    T top = a->a[a->n - 1];
    if (!((cval(top) >> (top->w - 1)) & 1)) return tZExt(a, w);
  }
  if (a->w == 1) return tIte(a, tConst128(w, ~(u128)0), tConst128(w, 0));
  if (a->op == T_ITE && (isC(a->a[1]) || isC(a->a[2]))) return tIte(a->a[0], tSExt(a->a[1], w), tSExt(a->a[2], w));
  return mk(T_SEXT, w, &a, 1);
}

// ---------- bitwise ----------
// split two terms at piece boundaries; apply f per piece
static bool hasConstPiece(T t) {
  if (t->op != T_CONCAT) return false;
  for (unsigned i = 0; i < t->n; i++) if (isC(t->a[i])) return true;
  return false;
}
template <class F> static T piecewise(T a, T b, F f) {
  std::vector<T> pa, pb, o; pieces(a, pa); pieces(b, pb);
  size_t i = 0, j = 0; unsigned oi = 0, oj = 0;
  while (i < pa.size()) {
    unsigned k = std::min(pa[i]->w - oi, pb[j]->w - oj);
    o.push_back(f(tExtract(pa[i], oi, k), tExtract(pb[j], oj, k)));
    oi += k; oj += k;
    if (oi == pa[i]->w) { i++; oi = 0; }
    if (oj == pb[j]->w) { j++; oj = 0; }
  }
  return tConcat(o);
}
// split constant c into runs for piecewise and
static T andConst(T a, u128 c) {
  unsigned w = a->w; std::vector<T> o; unsigned pos = 0;
  while (pos < w) {
    bool b = (c >> pos) & 1; unsigned e = pos;
    while (e < w && (((c >> e) & 1) != 0) == b) e++;
    o.push_back(b ? tExtract(a, pos, e - pos) : tConst128(e - pos, 0));
    pos = e;
  }
  return tConcat(o);
}
static bool isOnes(T t) { return isC(t) && cval(t) == maskw128(t->w); }
static bool isZero(T t) { return isC(t) && t->c == 0 && t->c2 == 0; }
static bool byId(T x, T y) { return x->id < y->id; }

static bool disjointBits(T a, T b) {
  // conservative: both split into pieces with zero const where the other is nonzero
  if (!hasConstPiece(a) && !hasConstPiece(b)) return false;
  std::vector<T> pa, pb; pieces(a, pa); pieces(b, pb);
  size_t i = 0, j = 0; unsigned oi = 0, oj = 0;
  while (i < pa.size()) {
    unsigned k = std::min(pa[i]->w - oi, pb[j]->w - oj);
    bool za = isC(pa[i]) && ((cval(pa[i]) >> oi) & maskw128(k)) == 0;
    bool zb = isC(pb[j]) && ((cval(pb[j]) >> oj) & maskw128(k)) == 0;
    if (!za && !zb) return false;
    oi += k; oj += k;
    if (oi == pa[i]->w) { i++; oi = 0; }
    if (oj == pb[j]->w) { j++; oj = 0; }
  }
  return true;
}

T tXor(T a, T b) {
  if (a == b) return tConst128(a->w, 0);
  if ((a->op == T_HBYTE || a->op == T_VAR) && (b->op == T_HBYTE || b->op == T_VAR)) { T v[2] = {a, b}; if (a->id > b->id) std::swap(v[0], v[1]); return mk(T_XOR, a->w, v, 2); }
  if (isZero(a)) return b;
  if (isZero(b)) return a;
  if (isC(a) && isC(b)) return tConst128(a->w, cval(a) ^ cval(b));
  if (a->w == 1 && (isC(a) || isC(b))) { // negation of a boolean
    T x = isC(a) ? b : a; // constant is 1 here
    if (x->op == T_ULT) return tUle(x->a[1], x->a[0]);
    if (x->op == T_ULE) return tUlt(x->a[1], x->a[0]);
    if (x->op == T_SLT) return tSle(x->a[1], x->a[0]);
    if (x->op == T_SLE) return tSlt(x->a[1], x->a[0]);
  }
  const bool lane = gLanes && a->w == 64;
  if (!lane && a->op == T_CONCAT && b->op == T_CONCAT && disjointBits(a, b)) return piecewise(a, b, [](T x, T y) { return isZero(x) ? y : x; });
  std::vector<T> v; v.reserve(12);
  u128 c = 0; unsigned w = a->w;
  std::function<void(T)> put = [&](T t) {
    if (isC(t)) { c ^= cval(t); return; }
    if (t->op == T_XOR) { for (unsigned i = 0; i < t->n; i++) put(t->a[i]); return; }
    if (!lane && t->op == T_CONCAT && w <= 128) { // pull constant pieces out
      u128 k = 0; unsigned pos = 0; bool any = false;
      for (unsigned i = 0; i < t->n; i++) { if (isC(t->a[i]) && !isZero(t->a[i])) { k |= cval(t->a[i]) << pos; any = true; } pos += t->a[i]->w; }
      if (any) {
        std::vector<T> o;
        for (unsigned i = 0; i < t->n; i++) o.push_back(isC(t->a[i]) ? tConst128(t->a[i]->w, 0) : t->a[i]);
        c ^= k; v.push_back(tConcat(o)); return;
      }
    }
    v.push_back(t);
  };
  put(a); put(b);
  std::vector<T> o; o.reserve(v.size() + 1);
  std::sort(v.begin(), v.end(), byId);
  for (size_t i = 0; i < v.size();) {
    if (i + 1 < v.size() && v[i] == v[i + 1]) { i += 2; continue; }
    o.push_back(v[i]); i++;
  }
  if (o.empty()) return tConst128(w, c);
  if (c) {
    // constant bits that fall on zero pieces of a single concat fold back in
    if (!lane && o.size() == 1 && o[0]->op == T_CONCAT) {
      bool fits = true; unsigned pos = 0;
      for (unsigned i = 0; i < o[0]->n; i++) { unsigned pw = o[0]->a[i]->w; if (!isC(o[0]->a[i]) && ((c >> pos) & maskw128(pw))) fits = false; pos += pw; }
      if (fits) { std::vector<T> q; pos = 0; for (unsigned i = 0; i < o[0]->n; i++) { unsigned pw = o[0]->a[i]->w; q.push_back(isC(o[0]->a[i]) ? tConst128(pw, (c >> pos) & maskw128(pw)) : o[0]->a[i]); pos += pw; } return tConcat(q); }
    }
    o.push_back(tConst128(w, c));
  }
  if (o.size() == 1) return o[0];
  return mk(T_XOR, w, o.data(), o.size());
}
T tNot(T a) { return tXor(a, tConst128(a->w, ~(u128)0)); }
T tAnd(T a, T b) {
  if (a == b) return a;
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return tConst128(a->w, cval(a) & cval(b));
    if (isZero(b)) return b;
    if (isOnes(b)) return a;
    if (!(gLanes && a->w == 64 && (a->op == T_XOR || a->op == T_AND || a->op == T_ROTL))) return andConst(a, cval(b));
  }
    if (a->w == 1) {
    if (tNot(a) == b) return tFalse();
  } else {
    // xor(ones, x) & y  ->  y ^ (x & y)
    auto neg = [](T t) { return t->op == T_XOR && isOnes(t->a[t->n - 1]); };
    if (neg(a)) return tXor(b, tAnd(tNot(a), b));
    if (neg(b)) return tXor(a, tAnd(tNot(b), a));
  }
  std::vector<T> v;
  auto put = [&](T t) { if (t->op == T_AND) for (unsigned i = 0; i < t->n; i++) v.push_back(t->a[i]); else v.push_back(t); };
  put(a); put(b);
  std::sort(v.begin(), v.end(), byId);
  v.erase(std::unique(v.begin(), v.end()), v.end());
  if (gLanes && a->w == 64) { u64 k = ~0ULL; std::vector<T> q; for (T t : v) if (isC(t)) k &= t->c; else q.push_back(t); if (!k) return tConst(64, 0); if (~k) q.push_back(tConst(64, k)); v.swap(q); if (v.empty()) return tConst(64, ~0ULL); }
  if (v.size() == 1) return v[0];
  if (a->w == 1 && v.size() <= 64) { // contradiction check
    for (T x : v) { if (x->op == T_XOR) { T nx = tNot(x); if (std::binary_search(v.begin(), v.end(), nx, byId)) return tFalse(); } }
  }
  return mk(T_AND, a->w, v.data(), v.size());
}
T tOr(T a, T b) {
  if (a == b) return a;
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return tConst128(a->w, cval(a) | cval(b));
    if (isZero(b)) return a;
    if (isOnes(b)) return b;
    // or with constant: split into runs
    std::vector<T> o; unsigned pos = 0, w = a->w; u128 c = cval(b);
    while (pos < w) {
      bool bit = (c >> pos) & 1; unsigned e = pos;
      while (e < w && (((c >> e) & 1) != 0) == bit) e++;
      o.push_back(bit ? tConst128(e - pos, ~(u128)0) : tExtract(a, pos, e - pos));
      pos = e;
    }
    return tConcat(o);
  }
  if (hasConstPiece(a) || hasConstPiece(b)) return piecewise(a, b, [](T x, T y) { return tOr(x, y); });
  if (a->w == 1) return tNot(tAnd(tNot(a), tNot(b)));
  if (a->id > b->id) std::swap(a, b);
  T v[2] = {a, b};
  return mk(T_OR, a->w, v, 2);
}

// ---------- arithmetic ----------
static bool lowBits(T t, unsigned k) { return t->w <= 64 && (k >= 64 || t->umax < (1ULL << k)); }
static T lin(unsigned w, std::vector<std::pair<T, u64>> &v, u64 c) {
  u64 m = maskw(w); c &= m;
  std::sort(v.begin(), v.end(), [](const std::pair<T, u64> &x, const std::pair<T, u64> &y) { return x.first->id < y.first->id; });
  std::vector<T> o; std::vector<u64> k;
  for (size_t i = 0; i < v.size();) {
    u64 s = 0; size_t j = i;
    while (j < v.size() && v[j].first == v[i].first) s += v[j++].second;
    s &= m;
    if (s) { o.push_back(v[i].first); k.push_back(s); }
    i = j;
  }
  if (o.empty()) return tConst(w, c);
  if (o.size() == 1 && k[0] == 1 && c == 0) return o[0];
  // common power of two
  u64 g = c; for (u64 x : k) g |= x;
  unsigned z = __builtin_ctzll(g);
  if (z > 0 && z < w) {
    std::vector<std::pair<T, u64>> q;
    for (size_t i = 0; i < o.size(); i++) q.push_back({tExtract(o[i], 0, w - z), k[i] >> z});
    T r;
    if (w - z == 1) { r = tConst(1, c >> z); for (auto &p : q) if (p.second & 1) r = tXor(r, p.first); }
    else {
      u64 c2 = c >> z; bool simple = true; for (auto &p : q) if (isC(p.first) || p.first->op == T_ADD) simple = false;
      if (simple) r = lin(w - z, q, c2);
      else { r = tConst(w - z, c2); for (auto &p : q) r = tAdd(r, tMul(p.first, tConst(w - z, p.second))); }
    }
    return tConcat2(tConst(z, 0), r);
  }
  T t = mk(T_ADD, w, o.data(), o.size(), c, 0, k.data());
  // minimal width when the sum cannot wrap
  __int128 lo, hi, q;
  if (addRange(t, lo, hi, q)) {
    unsigned b = hi > 0 ? 64 - __builtin_clzll((u64)hi) : 1; if (b < 2) b = 2;
    if (b < w) {
      bool fit = true; for (T x : o) if (!lowBits(x, b)) fit = false;
      if (fit) {
        std::vector<std::pair<T, u64>> n; bool simple = true;
        for (size_t i = 0; i < o.size(); i++) { T x = tExtract(o[i], 0, b); if (isC(x) || x->op == T_ADD) simple = false; n.push_back({x, k[i] & maskw(b)}); }
        if (simple) return tZExt(lin(b, n, c), w);
      }
    }
  }
  return t;
}
static T tConcatZ(T x, unsigned at, unsigned w) { T r = tZExt(x, w - at); return at ? tConcat2(tConst(at, 0), r) : r; }
static void linPut(T t, u64 k, std::vector<std::pair<T, u64>> &v, u64 &c) {
  if (isC(t)) { c += t->c * k; return; }
  if (t->op == T_ADD) { c += t->c * k; for (unsigned i = 0; i < t->n; i++) v.push_back({t->a[i], t->coef[i] * k}); return; }
  if (t->op == T_XOR && t->w <= 64 && isOnes(t->a[t->n - 1])) { c -= k; linPut(tXor(t, t->a[t->n - 1]), 0 - k, v, c); return; }
  // constant low/zero structure: concat(0.., x, 0..) = zext(x) * 2^s
  if (t->op == T_CONCAT && t->w <= 64) {
    unsigned nz = 0, pos = 0, at = 0; T x = nullptr;
    u64 kc = 0;
    for (unsigned i = 0; i < t->n; i++) { if (isC(t->a[i])) kc |= t->a[i]->c << pos; else { nz++; x = t->a[i]; at = pos; } pos += t->a[i]->w; }
    if (nz == 1 && kc) { c += kc * k; linPut(tConcatZ(x, at, t->w), k, v, c); return; }
    if (nz == 1 && x && !isC(x)) {
      unsigned w = t->w; u64 k2 = k << at;
      if (x->op == T_ADD && x->w > 1) {
        __int128 lo, hi, q = 0;
        bool top = at + x->w == w, exact = addRange(x, lo, hi, q);
        if (top || exact) {
          if (!exact) q = 0;
          c += k2 * (x->c - (u64)(q << x->w));
          for (unsigned i = 0; i < x->n; i++) { u64 kk = x->coef[i]; if (kk >> (x->w - 1) & 1) kk |= ~maskw(x->w); linPut(tZExt(x->a[i], w), kk * k2, v, c); }
          return;
        }
      }
      if (at > 0) { linPut(tZExt(x, w), k2, v, c); return; }
    }
  }
  v.push_back({t, k});
}
T tAdd(T a, T b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return tConst128(w, cval(a) + cval(b));
  if (isZero(a)) return b;
  if (isZero(b)) return a;
  if (w > 64) { if (a->id > b->id) std::swap(a, b); T v[2] = {a, b}; u64 k[2] = {1, 1}; return mk(T_ADD, w, v, 2, 0, 0, k); }
  if (w == 1) return tXor(a, b);
  if (disjointBits(a, b)) return piecewise(a, b, [](T x, T y) { return isZero(x) ? y : x; });
  // push constants through ites with constant arms
  if (isC(b) && a->op == T_ITE && (isC(a->a[1]) || isC(a->a[2]))) return tIte(a->a[0], tAdd(a->a[1], b), tAdd(a->a[2], b));
  if (isC(a) && b->op == T_ITE && (isC(b->a[1]) || isC(b->a[2]))) return tIte(b->a[0], tAdd(a, b->a[1]), tAdd(a, b->a[2]));
  { // constant added to a concatenation whose lowest piece is constant: no carry beyond it means the rest is unchanged
    T k = isC(a) ? a : isC(b) ? b : nullptr, x = k == a ? b : a;
    if (k && w <= 64 && x->op == T_CONCAT && x->n > 2 && isC(x->a[0])) {
      unsigned wl = x->a[0]->w; u64 lo = x->a[0]->c + (k->c & maskw(wl)), hi = ((k->c & maskw(w)) >> wl) + (wl < 64 ? lo >> wl : 0);
      if (wl < 63 && !(hi & maskw(w - wl))) { std::vector<T> p; p.push_back(tConst(wl, lo & maskw(wl))); for (unsigned i = 1; i < x->n; i++) p.push_back(x->a[i]); return tConcat(p); }
    }
  }
  std::vector<std::pair<T, u64>> v; u64 c = 0;
  linPut(a, 1, v, c); linPut(b, 1, v, c);
  return lin(w, v, c);
}
T tNeg(T a) {
  if (isC(a)) return tConst128(a->w, (u128)0 - cval(a));
  if (a->w > 64) return tAdd(tNot(a), tConst128(a->w, 1));
  if (a->w == 1) return a;
  std::vector<std::pair<T, u64>> v; u64 c = 0; linPut(a, (u64)0 - 1, v, c); return lin(a->w, v, c);
}
T tSub(T a, T b) {
  if (a == b) return tConst128(a->w, 0);
  if (isC(a) && isC(b)) return tConst128(a->w, cval(a) - cval(b));
  return tAdd(a, tNeg(b));
}
static int log2exact(u128 v) { if (!v || (v & (v - 1))) return -1; int k = 0; while (!((v >> k) & 1)) k++; return k; }
T tMul(T a, T b) {
  unsigned w = a->w;
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return tConst128(w, cval(a) * cval(b));
    if (isZero(b)) return b;
    if (cval(b) == 1) return a;
    int k = log2exact(cval(b));
    if (k >= 0 && a->op != T_ADD) return tShl(a, tConst128(w, k));
    if (a->op == T_ITE && (isC(a->a[1]) || isC(a->a[2]))) return tIte(a->a[0], tMul(a->a[1], b), tMul(a->a[2], b));
    if (w <= 64 && w > 1) { std::vector<std::pair<T, u64>> v; u64 c = 0; linPut(a, b->c, v, c); return lin(w, v, c); }
  }
  if (w == 1) return tAnd(a, b);
  if (a->id > b->id) std::swap(a, b);
  T v[2] = {a, b}; return mk(T_MUL, w, v, 2);
}
T tUDiv(T a, T b) {
  if (isC(a) && isC(b) && !isZero(b)) return tConst128(a->w, cval(a) / cval(b));
  if (isC(b)) { int k = log2exact(cval(b)); if (k >= 0) return tLShr(a, tConst128(a->w, k)); }
  if (isC(b) && a->w <= 64 && a->umax < b->c) return tConst(a->w, 0);
  T v[2] = {a, b}; return mk(T_UDIV, a->w, v, 2);
}
T tURem(T a, T b) {
  if (isC(a) && isC(b) && !isZero(b)) return tConst128(a->w, cval(a) % cval(b));
  if (isC(b)) { int k = log2exact(cval(b)); if (k >= 0) return tAnd(a, tConst128(a->w, cval(b) - 1)); }
  if (isC(b) && a->w <= 64 && a->umax < b->c) return a;
  T v[2] = {a, b}; return mk(T_UREM, a->w, v, 2);
}
static __int128 sval(T t) { u128 v = cval(t); if ((v >> (t->w - 1)) & 1) v |= ~maskw128(t->w); return (__int128)v; }
static bool nonneg(T t) { return t->w <= 64 ? t->umax < (1ULL << (t->w - 1)) : (t->op == T_CONCAT && isZero(t->a[t->n - 1])); }
T tSDiv(T a, T b) {
  if (isC(a) && isC(b) && !isZero(b)) return tConst128(a->w, (u128)(sval(a) / sval(b)));
  if (nonneg(a) && nonneg(b)) return tUDiv(a, b);
  T v[2] = {a, b}; return mk(T_SDIV, a->w, v, 2);
}
T tSRem(T a, T b) {
  if (isC(a) && isC(b) && !isZero(b)) return tConst128(a->w, (u128)(sval(a) % sval(b)));
  if (nonneg(a) && nonneg(b)) return tURem(a, b);
  T v[2] = {a, b}; return mk(T_SREM, a->w, v, 2);
}
T tShl(T a, T b) {
  if (isC(b)) {
    u128 s = cval(b); if (s >= a->w) return tConst128(a->w, 0);
    if (!s) return a;
    return tConcat2(tConst128((unsigned)s, 0), tExtract(a, 0, a->w - (unsigned)s));
  }
  T v[2] = {a, b}; return mk(T_SHL, a->w, v, 2);
}
T tLShr(T a, T b) {
  if (isC(b)) {
    u128 s = cval(b); if (s >= a->w) return tConst128(a->w, 0);
    if (!s) return a;
    return tConcat2(tExtract(a, (unsigned)s, a->w - (unsigned)s), tConst128((unsigned)s, 0));
  }
  T v[2] = {a, b}; return mk(T_LSHR, a->w, v, 2);
}
T tAShr(T a, T b) {
  if (nonneg(a)) return tLShr(a, b);
  if (isC(b)) {
    u128 s = cval(b); if (s >= a->w) s = a->w - 1;
    if (!s) return a;
    return tSExt(tExtract(a, (unsigned)s, a->w - (unsigned)s), a->w);
  }
  T v[2] = {a, b}; return mk(T_ASHR, a->w, v, 2);
}
T tRotl(T a, unsigned n) {
  unsigned w = a->w; n %= w;
  if (!n) return a;
  if (isC(a) && w <= 64) return tConst(w, (a->c << n) | (a->c >> (w - n)));
  if (a->op == T_ROTL) return tRotl(a->a[0], (a->c + n) % w);
  if (a->op == T_XOR && (a->sh <= (gLanes ? 0 : 40) || isC(a->a[a->n - 1]))) {
    if (a->sh > (gLanes ? 0 : 40)) { // only the constant part
      T k = a->a[a->n - 1]; T rest = tXor(a, k); return tXor(tRotl(rest, n), tRotl(k, n));
    }
    T r = tRotl(a->a[0], n);
    for (unsigned i = 1; i < a->n; i++) r = tXor(r, tRotl(a->a[i], n));
    return r;
  }
  if (a->op == T_CONCAT)
    return tConcat2(tExtract(a, w - n, n), tExtract(a, 0, w - n));
  return mk(T_ROTL, w, &a, 1, n);
}

// ---------- predicates ----------
T tEq(T a, T b) {
  if (a == b) return tTrue();
  if (isC(a) && isC(b)) return cval(a) == cval(b) ? tTrue() : tFalse();
  if (a->w == 1) return tNot(tXor(a, b));
  if (isC(a)) std::swap(a, b);
  if (a->w <= 64 && (a->umax < b->umin || b->umax < a->umin)) return tFalse();
  if (isC(b)) {
    if (a->op == T_ITE) {
      T x = a->a[1], y = a->a[2];
      if (isC(x) || isC(y)) {
        T ex = tEq(x, b), ey = tEq(y, b);
        return tIte(a->a[0], ex, ey);
      }
    }
    if (a->op == T_ADD && a->w <= 64 && a->n == 1 && (a->coef[0] == 1)) return tEq(a->a[0], tConst(a->w, b->c - a->c));
    if (a->op == T_ADD && a->w <= 64 && a->n == 1 && (a->coef[0] == maskw(a->w))) return tEq(a->a[0], tConst(a->w, a->c - b->c));
    if (a->op == T_SEXT) {
      T in = a->a[0]; 
      T low = tConst128(in->w, cval(b));
      if (tSExt(low, a->w) != b) return tFalse();
      return tEq(in, low);
    }
    if (a->op == T_XOR && isC(a->a[a->n - 1])) { T k = a->a[a->n - 1]; return tEq(tXor(a, k), tXor(b, k)); }
  }
  if (a->op == T_CONCAT && (isC(b) || b->op == T_CONCAT || hasConstPiece(a))) {
    T r = tTrue();
    std::vector<T> pa, pb; pieces(a, pa); pieces(b, pb);
    size_t i = 0, j = 0; unsigned oi = 0, oj = 0; std::vector<T> conj;
    while (i < pa.size()) {
      unsigned k = std::min(pa[i]->w - oi, pb[j]->w - oj);
      T e = tEq(tExtract(pa[i], oi, k), tExtract(pb[j], oj, k));
      if (isFalse(e)) return e;
      conj.push_back(e);
      oi += k; oj += k;
      if (oi == pa[i]->w) { i++; oi = 0; }
      if (oj == pb[j]->w) { j++; oj = 0; }
    }
    for (T e : conj) r = tAnd(r, e);
    return r;
  }
  if (b->op == T_CONCAT && hasConstPiece(b)) return tEq(b, a);
  if (a->op == T_ITE && b->op == T_ITE && a->a[0] == b->a[0]) return tIte(a->a[0], tEq(a->a[1], b->a[1]), tEq(a->a[2], b->a[2]));
  if (a->op == T_ITE && (a->a[1] == b || a->a[2] == b)) {
    if (a->a[1] == b) return tOr(a->a[0], tEq(a->a[2], b));
    return tOr(tNot(a->a[0]), tEq(a->a[1], b));
  }
  if (b->op == T_ITE && (b->a[1] == a || b->a[2] == a)) return tEq(b, a);
  if (a->w <= 64 && (a->op == T_ADD || b->op == T_ADD)) { // move everything to one side if it cancels
    T d = tSub(a, b);
    if (isC(d)) return isZero(d) ? tTrue() : tFalse();
  }
  if (a->id > b->id && !isC(b)) std::swap(a, b);
  T v[2] = {a, b}; return mk(T_EQ, 1, v, 2);
}
T tUlt(T a, T b) {
  if (a == b) return tFalse();
  if (isC(a) && isC(b)) return cval(a) < cval(b) ? tTrue() : tFalse();
  if (isZero(b)) return tFalse();
  if (a->w <= 64) {
    if (a->umax < b->umin) return tTrue();
    if (a->umin >= b->umax) return tFalse();
    if (isC(b) && b->c == 1) return tEq(a, tConst(a->w, 0));
    if (isZero(a)) return tNot(tEq(b, a));
    // narrow: both have zero high parts
    u64 m = std::max(a->umax, b->umax);
    unsigned bits = m ? 64 - __builtin_clzll(m) : 1;
    if (bits < a->w && (a->op == T_CONCAT || isC(a)) && (b->op == T_CONCAT || isC(b))) {
      return tUlt(tExtract(a, 0, bits), tExtract(b, 0, bits));
    }
    { // a = b + d without wrap-around: a < b is false
      auto sum = [](T x) { return x->op == T_ADD || (x->op == T_CONCAT && x->a[0]->op == T_ADD) || (x->op == T_CONCAT && x->n > 1 && x->a[1]->op == T_ADD); };
      if (!isC(a) && !isC(b) && sum(a)) {
        T d = tSub(a, b); u64 r;
        if (!__builtin_add_overflow(d->umax, b->umax, &r) && r <= maskw(a->w)) return tFalse();
      }
    }
    { // comparison of (c +/- x) with a constant
      T s = isC(b) ? a : isC(a) ? b : nullptr; __int128 lo, hi, q;
      if (s && s->op == T_ADD && s->n == 1 && (s->coef[0] == 1 || s->coef[0] == maskw(s->w)) && addRange(s, lo, hi, q)) {
        __int128 c = (__int128)s->c - (q << s->w), mxv = maskw(s->w); bool pos = s->coef[0] == 1; T x = s->a[0];
        __int128 K = isC(b) ? (__int128)b->c : (__int128)a->c;
        if (isC(b)) { // c + x < K  |  c - x < K
          if (pos) { __int128 r = K - c; return r <= 0 ? tFalse() : r > mxv ? tTrue() : tUlt(x, tConst(x->w, (u64)r)); }
          __int128 r = c - K; return r < 0 ? tTrue() : r > mxv ? tFalse() : tUlt(tConst(x->w, (u64)r), x);
        }
        if (pos) { __int128 r = K - c; return r < 0 ? tTrue() : r > mxv ? tFalse() : tUlt(tConst(x->w, (u64)r), x); }
        __int128 r = c - K; return r <= 0 ? tFalse() : r > mxv ? tTrue() : tUlt(x, tConst(x->w, (u64)r));
      }
    }
    if (a->op == T_ITE && isC(b) && (isC(a->a[1]) || isC(a->a[2]))) return tIte(a->a[0], tUlt(a->a[1], b), tUlt(a->a[2], b));
    if (b->op == T_ITE && isC(a) && (isC(b->a[1]) || isC(b->a[2]))) return tIte(b->a[0], tUlt(a, b->a[1]), tUlt(a, b->a[2]));
  }
  T v[2] = {a, b}; return mk(T_ULT, 1, v, 2);
}
T tUle(T a, T b) {
  if (a == b) return tTrue();
  if (isC(a) && isC(b)) return cval(a) <= cval(b) ? tTrue() : tFalse();
  if (a->w <= 64) {
    if (a->umax <= b->umin) return tTrue();
    if (a->umin > b->umax) return tFalse();
    if (isC(b) && b->c != maskw(b->w)) return tUlt(a, tConst(a->w, b->c + 1));
    if (isC(a) && a->c != 0) return tUlt(tConst(a->w, a->c - 1), b);
    if (isZero(a)) return tTrue();
  }
  T v[2] = {a, b}; return mk(T_ULE, 1, v, 2);
}
T tSlt(T a, T b) {
  if (a == b) return tFalse();
  if (isC(a) && isC(b)) return sval(a) < sval(b) ? tTrue() : tFalse();
  if (nonneg(a) && nonneg(b)) return tUlt(a, b);
  if (a->w == 1) return tAnd(a, tNot(b));
  if (isC(b) && sval(b) == 0) return tEq(tExtract(a, a->w - 1, 1), tTrue());
  if (isC(a) && sval(a) == -1) return tEq(tExtract(b, b->w - 1, 1), tFalse());
  if (a->op == T_ITE && isC(b) && (isC(a->a[1]) || isC(a->a[2]))) return tIte(a->a[0], tSlt(a->a[1], b), tSlt(a->a[2], b));
  if (b->op == T_ITE && isC(a) && (isC(b->a[1]) || isC(b->a[2]))) return tIte(b->a[0], tSlt(a, b->a[1]), tSlt(a, b->a[2]));
  T v[2] = {a, b}; return mk(T_SLT, 1, v, 2);
}
T tSle(T a, T b) {
  if (a == b) return tTrue();
  if (isC(a) && isC(b)) return sval(a) <= sval(b) ? tTrue() : tFalse();
  if (nonneg(a) && nonneg(b)) return tUle(a, b);
  if (a->w == 1) return tNot(tSlt(b, a));
  if (isC(b) && sval(b) != (((__int128)1 << (b->w - 1)) - 1)) return tSlt(a, tConst128(a->w, cval(b) + 1));
  if (isC(a)) { __int128 mn = -((__int128)1 << (a->w - 1)); if (sval(a) == mn) return tTrue(); return tSlt(tConst128(a->w, cval(a) - 1), b); }
  T v[2] = {a, b}; return mk(T_SLE, 1, v, 2);
}
T tIte(T c, T a, T b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == T_XOR && c->n == 2 && isC(c->a[1])) return tIte(c->a[0], b, a);
  if (a->w == 1) {
    if (isTrue(a) && isFalse(b)) return c;
    if (isFalse(a) && isTrue(b)) return tNot(c);
    if (isTrue(a)) return tOr(c, b);
    if (isFalse(a)) return tAnd(tNot(c), b);
    if (isTrue(b)) return tOr(tNot(c), a);
    if (isFalse(b)) return tAnd(c, a);
  }
  if (a->op == T_ITE && a->a[0] == c) a = a->a[1];
  if (b->op == T_ITE && b->a[0] == c) b = b->a[2];
  if (a == b) return a;
  // x==k ? k : x  -> x
  if (c->op == T_EQ && ((c->a[0] == a && c->a[1] == b) || (c->a[0] == b && c->a[1] == a))) return b;
  if (a->op == T_CONCAT || b->op == T_CONCAT) {
    // factor constant/equal pieces
    std::vector<T> pa, pb; pieces(a, pa); pieces(b, pb);
    bool useful = false;
    if (pa.size() == pb.size()) {
      bool aligned = true; size_t same = 0;
      for (size_t i = 0; i < pa.size(); i++) { if (pa[i]->w != pb[i]->w) { aligned = false; break; } if (pa[i] == pb[i]) same++; }
      if (aligned && same) useful = true;
    }
    if (!useful) { // shared zero top
      T ta = pa.back(), tb = pb.back(); if (isC(a)) ta = a; if (isC(b)) tb = b;
      if (isC(ta) && isC(tb)) {
        unsigned za = 0, zb = 0;
        while (za < ta->w && !((cval(ta) >> (ta->w - 1 - za)) & 1)) za++;
        while (zb < tb->w && !((cval(tb) >> (tb->w - 1 - zb)) & 1)) zb++;
        unsigned z = std::min(za, zb);
        if (z > 0 && z < a->w && (a->w - z) ) {
          unsigned k = a->w - z; if (k >= 8) k = (k + 7) / 8 * 8; if (k < a->w)
          return tConcat2(tIte(c, tExtract(a, 0, k), tExtract(b, 0, k)), tConst128(a->w - k, 0));
        }
      }
    }
    if (useful) return piecewise(a, b, [c](T x, T y) { return tIte(c, x, y); });
  }
  T v[3] = {c, a, b}; return mk(T_ITE, a->w, v, 3);
}
T tHash(unsigned fn, const std::vector<T> &in) {
  u64 before = gTermCount;
  T t = mk(T_HASH, 0, in.data(), in.size(), fn);
  if (gTermCount != before) gHashApps.push_back(t);
  return t;
}
T tHByte(T app, unsigned i) {
  if (i < 64) { // per-application cache (kept in the otherwise unused coef slot)
    Term *m = const_cast<Term *>(app);
    if (!m->coef) { m->coef = (u64 *)aalloc(64 * 8); memset(m->coef, 0, 64 * 8); }
    if (!m->coef[i]) m->coef[i] = (u64)mk(T_HBYTE, 8, &app, 1, i);
    return (T)m->coef[i];
  }
  return mk(T_HBYTE, 8, &app, 1, i);
}
T tHCase(T sel, const std::vector<T> &apps) {
  if (isC(sel)) return apps[sel->c < apps.size() ? sel->c : apps.size() - 1];
  bool same = true; for (T x : apps) if (x != apps[0]) same = false;
  if (same) return apps[0];
  std::vector<T> v{sel}; v.insert(v.end(), apps.begin(), apps.end());
  return mk(T_HCASE, 0, v.data(), v.size());
}
static T instRec(T t, T p, T v, Subst *sb) {
  if (t == p) return v;
  if (t->n == 0 || t->id < p->id) return t;
  if (t->op == T_HBYTE) {
    T h = t->a[0]; if (h->op != T_HCASE || h->a[0] != p) return t;
    unsigned k = v->c < h->n - 1 ? v->c : h->n - 2; return tHByte(h->a[1 + k], t->c);
  }
  if (sb) return sb->apply(t);
  if (t->op == T_ITE) { T c = instRec(t->a[0], p, v, sb); if (isC(c)) return instRec(c->c ? t->a[1] : t->a[2], p, v, sb); return tIte(c, instRec(t->a[1], p, v, sb), instRec(t->a[2], p, v, sb)); }
  T tmp[16]; bool ch = false;
  if (t->n > 16) { std::vector<T> a(t->n); for (unsigned i = 0; i < t->n; i++) { a[i] = instRec(t->a[i], p, v, sb); ch |= a[i] != t->a[i]; } return ch ? tRebuild(t, a) : t; }
  for (unsigned i = 0; i < t->n; i++) { tmp[i] = instRec(t->a[i], p, v, sb); ch |= tmp[i] != t->a[i]; }
  if (!ch) return t;
  if (t->op == T_XOR && t->n == 2) return tXor(tmp[0], tmp[1]);
  return tRebuild(t, std::vector<T>(tmp, tmp + t->n));
}
T tInst(T t, T p, T v) {
  if (t->sh <= 24) return instRec(t, p, v, nullptr);
  Subst sb; sb.memo[p] = v; sb.opaque = true; sb.minId = p->id; return sb.apply(t);
}

// ---------- rebuild / subst / eval ----------
T tRebuild(T t, const std::vector<T> &a) {
  switch (t->op) {
  case T_CONST: case T_VAR: return t;
  case T_ADD: {
    if (t->w > 64) { T r = a[0]; for (size_t i = 1; i < a.size(); i++) r = tAdd(r, a[i]); return r; }
    T r = tConst(t->w, t->c);
    for (unsigned i = 0; i < t->n; i++) r = tAdd(r, tMul(a[i], tConst(t->w, t->coef[i])));
    return r;
  }
  case T_MUL: return tMul(a[0], a[1]);
  case T_UDIV: return tUDiv(a[0], a[1]);
  case T_SDIV: return tSDiv(a[0], a[1]);
  case T_UREM: return tURem(a[0], a[1]);
  case T_SREM: return tSRem(a[0], a[1]);
  case T_AND: { T r = a[0]; for (size_t i = 1; i < a.size(); i++) r = tAnd(r, a[i]); return r; }
  case T_OR: return tOr(a[0], a[1]);
  case T_XOR: { T r = a[0]; for (size_t i = 1; i < a.size(); i++) r = tXor(r, a[i]); return r; }
  case T_SHL: return tShl(a[0], a[1]);
  case T_LSHR: return tLShr(a[0], a[1]);
  case T_ASHR: return tAShr(a[0], a[1]);
  case T_CONCAT: return tConcat(a);
  case T_EXTRACT: return tExtract(a[0], t->c, t->w);
  case T_SEXT: return tSExt(a[0], t->w);
  case T_EQ: return tEq(a[0], a[1]);
  case T_ULT: return tUlt(a[0], a[1]);
  case T_ULE: return tUle(a[0], a[1]);
  case T_SLT: return tSlt(a[0], a[1]);
  case T_SLE: return tSle(a[0], a[1]);
  case T_ITE: return tIte(a[0], a[1], a[2]);
  case T_ROTL: return tRotl(a[0], t->c);
  case T_HASH: return tHash(t->c, a);
  case T_HBYTE: return tHByte(a[0], t->c);
  case T_HCASE: return tHCase(a[0], std::vector<T>(a.begin() + 1, a.end()));
  }
  abort();
}
T Subst::apply(T root) {
  // iterative post-order
  std::vector<T> st{root};
  while (!st.empty()) {
    T t = st.back();
    if (memo.count(t)) { st.pop_back(); continue; }
    if (t->n == 0 || t->id < minId) { memo[t] = t; st.pop_back(); continue; }
    if (opaque && t->op == T_HBYTE) {
      T h = t->a[0], r = t;
      if (h->op == T_HCASE) { auto f = memo.find(h->a[0]); if (f == memo.end()) { st.push_back(h->a[0]); continue; } if (isC(f->second)) r = tHByte(h->a[1 + std::min<u64>(f->second->c, h->n - 2)], t->c); }
      memo[t] = r; st.pop_back(); continue;
    }
    if (t->op == T_ITE) { // lazy
      auto ci = memo.find(t->a[0]);
      if (ci == memo.end()) { st.push_back(t->a[0]); continue; }
      if (isC(ci->second)) {
        T k = ci->second->c ? t->a[1] : t->a[2];
        auto ki = memo.find(k);
        if (ki == memo.end()) { st.push_back(k); continue; }
        T r = ki->second; memo[t] = r; st.pop_back(); continue;
      }
    }
    bool ready = true;
    for (unsigned i = 0; i < t->n; i++) if (!memo.count(t->a[i])) { st.push_back(t->a[i]); ready = false; }
    if (!ready) continue;
    std::vector<T> a(t->n); bool ch = false;
    for (unsigned i = 0; i < t->n; i++) { a[i] = memo[t->a[i]]; ch |= a[i] != t->a[i]; }
    T r = t;
    if (ch) {
      r = tRebuild(t, a);
      auto f = memo.find(r); // one extra chance
      if (f != memo.end()) r = f->second;
    }
    memo[t] = r;
    st.pop_back();
  }
  return memo[root];
}
u128 Eval::eval(T root) {
  std::vector<T> st{root};
  while (!st.empty()) {
    T t = st.back();
    if (memo.count(t)) { st.pop_back(); continue; }
    if (t->op == T_CONST) { memo[t] = cval(t); st.pop_back(); continue; }
    if (t->op == T_VAR) { auto f = vars.find(t->c); memo[t] = f == vars.end() ? 0 : f->second; st.pop_back(); continue; }
    if (t->op == T_HBYTE && opaqueHash) { auto f = hbytes.find(t); memo[t] = f == hbytes.end() ? 0 : f->second; st.pop_back(); continue; }
    if (t->op == T_HBYTE && t->a[0]->op == T_HCASE) {
      T h = t->a[0]; auto f = memo.find(h->a[0]); if (f == memo.end()) { st.push_back(h->a[0]); continue; }
      T b = tHByte(h->a[1 + std::min<u64>((u64)f->second, h->n - 2)], t->c); auto g = memo.find(b); if (g == memo.end()) { st.push_back(b); continue; }
      u128 r = g->second; memo[t] = r; st.pop_back(); continue;
    }
    if (t->op == T_HASH) { memo[t] = 0; 
      bool ready = true; for (unsigned i = 0; i < t->n; i++) if (!memo.count(t->a[i])) { st.push_back(t->a[i]); ready = false; }
      if (!ready) { memo.erase(t); continue; }
      st.pop_back(); continue; }
    if (t->op == T_ITE) {
      auto ci = memo.find(t->a[0]);
      if (ci == memo.end()) { st.push_back(t->a[0]); continue; }
      T k = ci->second ? t->a[1] : t->a[2];
      auto ki = memo.find(k);
      if (ki == memo.end()) { st.push_back(k); continue; }
      u128 r = ki->second; memo[t] = r; st.pop_back(); continue;
    }
    bool ready = true;
    for (unsigned i = 0; i < t->n; i++) if (!memo.count(t->a[i])) { st.push_back(t->a[i]); ready = false; }
    if (!ready) continue;
    auto A = [&](unsigned i) { return memo[t->a[i]]; };
    auto S = [&](unsigned i) { u128 v = A(i); unsigned w = t->a[i]->w; if ((v >> (w - 1)) & 1) v |= ~maskw128(w); return (__int128)v; };
    u128 r = 0;
    switch (t->op) {
    case T_ADD: r = t->c; for (unsigned i = 0; i < t->n; i++) r += A(i) * t->coef[i]; break;
    case T_MUL: r = A(0) * A(1); break;
    case T_UDIV: r = A(1) ? A(0) / A(1) : ~(u128)0; break;
    case T_UREM: r = A(1) ? A(0) % A(1) : A(0); break;
    case T_SDIV: r = A(1) ? (u128)(S(0) / S(1)) : (S(0) < 0 ? 1 : ~(u128)0); break;
    case T_SREM: r = A(1) ? (u128)(S(0) % S(1)) : A(0); break;
    case T_AND: r = A(0); for (unsigned i = 1; i < t->n; i++) r &= A(i); break;
    case T_OR: r = A(0) | A(1); break;
    case T_XOR: r = A(0); for (unsigned i = 1; i < t->n; i++) r ^= A(i); break;
    case T_SHL: r = A(1) >= t->w ? 0 : A(0) << (unsigned)A(1); break;
    case T_LSHR: r = A(1) >= t->w ? 0 : A(0) >> (unsigned)A(1); break;
    case T_ASHR: r = (u128)(S(0) >> (A(1) >= t->w ? t->w - 1 : (unsigned)A(1))); break;
    case T_CONCAT: { unsigned p = 0; for (unsigned i = 0; i < t->n; i++) { if (p < 128) r |= A(i) << p; p += t->a[i]->w; } break; }
    case T_EXTRACT: r = A(0) >> t->c; break;
    case T_SEXT: r = (u128)S(0); break;
    case T_EQ: r = A(0) == A(1); break;
    case T_ULT: r = A(0) < A(1); break;
    case T_ULE: r = A(0) <= A(1); break;
    case T_SLT: r = S(0) < S(1); break;
    case T_SLE: r = S(0) <= S(1); break;
    case T_ROTL: { u64 v = A(0); r = ((v << t->c) | (v >> (t->w - t->c))); break; }
    case T_HBYTE: {
      T app = t->a[0]; std::vector<uint8_t> in(app->n);
      for (unsigned i = 0; i < app->n; i++) in[i] = (uint8_t)memo[app->a[i]];
      r = hashByte ? hashByte(ctx, app, in, t->c) : 0; break;
    }
    default: abort();
    }
    memo[t] = r & maskw128(t->w ? t->w : 1);
    st.pop_back();
  }
  return memo[root];
}
static void str(T t, int d, std::string &o) {
  static const char *nm[] = {"const","var","add","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","concat","extract","sext","eq","ult","ule","slt","sle","ite","rotl","hash","hbyte","hcase"};
  char b[64];
  if (isC(t)) { if (t->c2) snprintf(b, 64, "#%llx%016llx:%u", (unsigned long long)t->c2, (unsigned long long)t->c, t->w); else snprintf(b, 64, "#%llx:%u", (unsigned long long)t->c, t->w); o += b; return; }
  if (t->op == T_VAR) { o += gVars[t->c].name; return; }
  if (d <= 0) { snprintf(b, 64, "t%u", t->id); o += b; return; }
  o += "("; o += nm[t->op];
  if (t->op == T_EXTRACT) { snprintf(b, 64, "[%llu+%u]", (unsigned long long)t->c, t->w); o += b; }
  if (t->op == T_HBYTE || t->op == T_ROTL) { snprintf(b, 64, "[%llu]", (unsigned long long)t->c); o += b; }
  if (t->op == T_HASH) { o += "." + gHashFns[t->c].name; }
  if (t->op == T_ADD) { snprintf(b, 64, " #%llx", (unsigned long long)t->c); o += b; }
  unsigned lim = t->op == T_HASH ? 0 : t->op == T_HCASE ? 1 : 12;
  for (unsigned i = 0; i < t->n && i < lim; i++) { o += " "; if (t->coef && t->coef[i] != 1) { snprintf(b, 64, "%lld*", (long long)t->coef[i]); o += b; } str(t->a[i], d - 1, o); }
  if (t->n > lim) o += " ...";
  o += ")";
}
std::string tStr(T t, int depth) { std::string s; str(t, depth, s); return s; }
