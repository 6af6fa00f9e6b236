#pragma once
#include "term.h"
#include <z3.h>
#include <map>
#include <string>
enum SatRes { SAT_UNSAT = 0, SAT_SAT = 1, SAT_UNKNOWN = 2 };
struct HashEntry { unsigned fn; std::vector<uint8_t> in; std::vector<uint8_t> out; };
struct Model {
  std::vector<std::pair<std::string, u64>> vars;   // var name -> value
  std::map<u64, u64> byId;
  std::vector<HashEntry> hashes;
};
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, rewritten = 0, fullQueries = 0; double time = 0; };
struct Solver {
  Z3_context ctx; Z3_config cfg;
  SolverStats st;
  unsigned timeoutMs = 20000, branchTimeoutMs = 3000;
  size_t fullLimit = 150000; // distinct terms in a full query
  bool injective = false;  // assume hash functions are injective & range-disjoint (collision freeness)
  Solver();
  // opaque: hash bytes are free variables (over-approximation; used for branch feasibility)
  SatRes checkOpaque(const std::vector<T> &cs);
  SatRes checkOpaqueModel(const std::vector<T> &cs, Model *m);
  SatRes checkFull(const std::vector<T> &cs, Model *m);
  const std::vector<uint32_t> &leaves(T t);   // opaque leaves (sorted ids)
private:
  std::vector<Z3_ast> memo[2];
  std::unordered_map<T, std::vector<uint32_t>> leafMemo;
  std::map<std::vector<uint32_t>, SatRes> cache;
  std::map<std::pair<unsigned, unsigned>, Z3_func_decl> fdecl;
  std::map<u64, Z3_ast> appMemo; // (app id<<8|block)
  std::map<uint32_t, Z3_ast> appArg;
  Z3_ast tr(T t, int mode);
  Z3_ast hashBlock(T app, unsigned blk);
  Z3_ast appInput(T app);
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
};
