// C13: the tree pool under every explored schedule.
// P_POOL pool size, P_START first index (P_SYMSTART: any), P_PROG: what each caller does, P_DELAYS deviations from the default schedule
#include "verif_co.h"
#include "sym.h"
#include "qrl/xmssPool.h"
#include <cstring>
#include <string>
#include "xmss-alt/xmss_params.h"
#include "xmss-alt/xmss_common.h"
#ifndef P_SL
#define P_SL 48
#endif
extern "C" int model_genkeypair(eHashFunction hf, xmss_params *p, unsigned char *pk, unsigned char *sk, bds_state *st, unsigned char *seed) {
  uint8_t in[50]; memcpy(in, seed, 48); in[48] = hf; in[49] = p->h; uint8_t o[128]; sym_hash("genkey", o, 128, in, 50);
  memset(sk, 0, 4); memcpy(sk + 4, o, 128); memcpy(pk, sk + 100, 32); memcpy(pk + 32, sk + 68, 32); return 0; }
static const char *PROG[] = {P_PROG}; // N next tree, A is available, C current index
const int T = sizeof PROG / sizeof *PROG, H = 4;
static std::vector<uint8_t> base; static uint64_t start; static XmssPool *pool; static int total;
static std::vector<uint8_t> expect[16]; static int got[16];
struct Res { int n; int idx[8]; const char *bad; } res[8];
static void run(void *q) {
  long me = (long)q; Res &r = res[me]; uint64_t lastC = start; int mine = 0;
  for (const char *o = PROG[me]; *o; o++) try {
    if (*o == 'N') {
      auto t = pool->getNextTree(); if (!t) { r.bad = "tree-delivered"; return; }
      auto e = t->getExtendedSeed(); int k = -1; for (int i = 0; i < total; i++) if (e.size() == expect[i].size() && sym_same(e.data(), expect[i].data(), e.size())) { k = i; break; }
      if (k < 0) { r.bad = "tree-derived-from-base-seed-and-its-index"; return; }
      if (r.n && r.idx[r.n - 1] >= k) { r.bad = "indices-advance"; return; }
      if (t->getIndex() != 0 || t->getHeight() != H) { r.bad = "fresh-tree-of-the-pool's-height"; return; }
      r.idx[r.n++] = k; mine++;
    } else if (*o == 'A') { bool a = pool->isAvailable(); if (P_POOL == 0 && a) r.bad = "nothing-available-without-cache"; }
    else { uint64_t c = pool->getCurrentIndex(); if (c < start + mine || c > start + total || c < lastC) r.bad = "current-index-counts-issued-trees"; lastC = c; }
  } catch (...) { r.bad = "no-exception"; return; }
}
extern "C" void harness() {
  sym_nomerge(1);
  base.resize(P_SL); sym_bytes(base.data(), P_SL, "base");
#ifdef P_SYMSTART
  start = sym_u64("start"); sym_assume(start <= ~0ull - 64);
#else
  start = P_START;
#endif
  total = 0; for (auto p : PROG) for (; *p; p++) total += *p == 'N';
  for (int i = 0; i < total; i++) {
    std::vector<uint8_t> in(base); for (uint64_t k = start + i + 1; k > 0; k >>= 8) in.push_back((uint8_t)k);
    expect[i].assign(51, 0); expect[i][0] = 1; expect[i][1] = H / 2; sym_hash("shake256", expect[i].data() + 3, 48, in.data(), in.size());
  }
  verif::co_begin(P_DELAYS);
  pool = new XmssPool(base, H, start, P_POOL); verif::co_watch(pool, sizeof *pool);
  if (T == 1) run((void *)0);
  else { int id[8]; for (long i = 0; i < T; i++) id[i] = verif::co_spawn(run, (void *)i); for (int i = 0; i < T; i++) verif::co_join(id[i]); }
  for (auto &r : res) if (r.bad) { sym_assert(0, r.bad); return; }
  for (auto &r : res) for (int i = 0; i < r.n; i++) got[r.idx[i]]++;
  bool once = true; for (int i = 0; i < total; i++) once &= got[i] == 1;
  sym_assert(once, "every-index-issued-exactly-once");
  sym_assert(pool->getCurrentIndex() == start + total, "current-index-advanced-by-trees-issued");
#ifdef P_DRAIN
  verif::co_drain(); bool a = pool->isAvailable(); sym_assert(a == (P_POOL > 0), "available-once-computed");
#endif
  delete pool; verif::co_all_done();
  sym_reach("end");
}
