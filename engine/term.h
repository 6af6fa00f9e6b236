// llsym: hash-consed bit-vector terms with strong local normalisation.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <unordered_map>

typedef unsigned __int128 u128;
typedef uint64_t u64;

enum TOp : uint8_t {
  T_CONST,   // width<=128, value in c (lo) / c2 (hi)
  T_VAR,     // c = var id
  T_ADD,     // n-ary linear sum: sum(args[i]*coef[i]) ; constant stored in c
  T_MUL, T_UDIV, T_SDIV, T_UREM, T_SREM,
  T_AND,     // n-ary
  T_OR,      // binary
  T_XOR,     // n-ary, optional constant in c (width<=64) as last T_CONST arg
  T_SHL, T_LSHR, T_ASHR,
  T_CONCAT,  // n-ary, args[0] = least significant
  T_EXTRACT, // c = low bit
  T_SEXT,
  T_EQ, T_ULT, T_ULE, T_SLT, T_SLE,
  T_ITE,
  T_ROTL,    // c = amount
  T_HASH,    // uninterpreted hash application: c = function id, args = input bytes; width = 0 (opaque)
  T_HBYTE,   // byte c of hash application args[0]
  T_HCASE,   // hash application selected by a small term: args[0]=selector, args[1+v]=application for value v (width 0)
};

struct Term {
  uint32_t id;
  uint16_t w;
  uint8_t op;
  uint8_t flags;      // bit0: depends on an uninitialised value
  uint32_t n;
  uint32_t nodes;     // (saturating) size hint
  uint32_t sh;        // (saturating) size without descending into hash applications
  u64 c, c2;
  u64 umax;           // unsigned upper bound (w<=64)
  u64 umin;
  Term **a;
  u64 *coef;          // for ADD
  uint64_t h;
};
typedef const Term *T;

struct VarInfo { std::string name; unsigned w; bool uninit; };
extern std::vector<VarInfo> gVars;
struct HashFn { std::string name; unsigned inlen; };
extern std::vector<HashFn> gHashFns;     // id -> name/inlen
unsigned hashFnId(const std::string &name, unsigned inlen);
extern std::vector<T> gHashApps;
extern u64 gTermCount;
extern bool gLanes;

T tConst(unsigned w, u64 v);
T tConst128(unsigned w, u128 v);
T tVar(const std::string &name, unsigned w, bool uninit = false);
T tAdd(T a, T b); T tSub(T a, T b); T tMul(T a, T b); T tNeg(T a);
T tUDiv(T a, T b); T tSDiv(T a, T b); T tURem(T a, T b); T tSRem(T a, T b);
T tAnd(T a, T b); T tOr(T a, T b); T tXor(T a, T b); T tNot(T a);
T tShl(T a, T b); T tLShr(T a, T b); T tAShr(T a, T b);
T tRotl(T a, unsigned n);
T tConcat(const std::vector<T> &lsbFirst);
T tConcat2(T lo, T hi);
T tExtract(T a, unsigned lo, unsigned w);
T tZExt(T a, unsigned w); T tSExt(T a, unsigned w);
T tEq(T a, T b); T tUlt(T a, T b); T tUle(T a, T b); T tSlt(T a, T b); T tSle(T a, T b);
T tIte(T c, T a, T b);
T tHash(unsigned fn, const std::vector<T> &in);
T tHByte(T app, unsigned i);
T tHCase(T sel, const std::vector<T> &apps);
T tInst(T t, T pivot, T val);      // replace pivot by a constant, not descending into hash applications
inline bool isC(T t) { return t->op == T_CONST; }
inline bool isTrue(T t) { return t->op == T_CONST && t->w == 1 && t->c == 1; }
inline bool isFalse(T t) { return t->op == T_CONST && t->w == 1 && t->c == 0; }
T tTrue(); T tFalse();
inline u128 cval(T t) { return ((u128)t->c2 << 64) | t->c; }
std::string tStr(T t, int depth = 6);

// Substitution with memo.  map: term -> replacement.
struct Subst {
  std::unordered_map<T, T> memo;
  bool opaque = false;             // do not descend into hash applications
  uint32_t minId = 0;              // terms older than every replaced term cannot contain one
  void prune() { uint32_t m = ~0u; for (auto &p : memo) if (p.first->id < m) m = p.first->id; minId = m; }
  T apply(T t);
};
// rebuild a node with new args
T tRebuild(T t, const std::vector<T> &args);
// evaluator
struct Eval {
  std::unordered_map<u64, u64> vars;               // var id -> value
  std::unordered_map<T, u128> memo;
  // hash byte oracle: given app term id and input bytes -> output byte
  u64 (*hashByte)(void *ctx, T app, const std::vector<uint8_t> &in, unsigned idx) = nullptr;
  void *ctx = nullptr;
  bool opaqueHash = false;
  std::unordered_map<T, u64> hbytes;               // opaque mode values
  u128 eval(T t);
};
inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline u128 maskw128(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
