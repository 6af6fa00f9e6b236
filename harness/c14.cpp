// C14: vector hash helpers, iterated hash, hash-chain seeds, random seeds.
#include "spec.h"
#include "qrl/hashing.h"
#include "qrl/misc.h"
#include <string>
#ifndef VERIF_NATIVE
#include "verif_stream.h"
static size_t verif_want;
#else
extern std::string verif_urandom; extern size_t verif_want;
#endif
static Bytes arb(size_t n, const char *nm) { Bytes b(n); if (n) sym_bytes(b.data(), n, nm); return b; }
static void same(const Bytes &a, const Bytes &b, const char *id) { sym_assert(a.size() == b.size(), id); if (a.size() == b.size() && a.size()) sym_equal(a.data(), b.data(), a.size(), id); }
static Bytes H(const char *fn, size_t n, const Bytes &in) { Bytes r(n); sym_hash(fn, r.data(), n, in.data(), in.size()); return r; }
static void le32(Bytes &b, uint32_t v) { for (int i = 0; i < 4; i++) b.push_back(v >> (8 * i)); }
extern "C" void harness() {
#if P_MODE == 0
  for (size_t il : {0, 1, 31, 32, 33, 48, 64, 135, 136, 168, 200, 500}) {
    Bytes in = arb(il, "in");
    for (size_t ol : {0, 1, 31, 32, 48, 64, 96, 136, 168, 300}) { same(shake128(ol, in), H("shake128", ol, in), "shake128"); same(shake256(ol, in), H("shake256", ol, in), "shake256"); }
    same(sha2_256(in), H("sha256", 32, in), "sha256");
    Bytes e = in; for (size_t n = 1; n <= 5; n++) { e = H("sha256", 32, e); same(sha2_256_n(in, n), e, "iterated-sha256"); }
    bool t = false; try { sha2_256_n(in, 0); } catch (std::exception &) { t = true; } sym_assert(t, "zero-iterations-refused");
  }
  Bytes in = arb(77, "in"), e = in; for (size_t n = 1; n <= 300; n++) { e = H("sha256", 32, e); if (n == 100 || n == 255 || n == 256 || n == 257 || n == 300) same(sha2_256_n(in, n), e, "iterated-sha256"); }
#elif P_MODE == 1
  Bytes seed = arb(P_SL, "seed"), s0 = seed; uint32_t shift = sym_u32("shift");
  for (uint32_t n : {0u, 1u, 2u, 5u, (uint32_t)P_N}) {
    auto r = getHashChainSeed(seed, shift, n); sym_assert(r.size() == n, "chain-length"); same(seed, s0, "input-unchanged");
    for (uint32_t i = 0; i < n && i < r.size(); i++) { Bytes in = s0; le32(in, shift); le32(in, i); same(r[i], H("shake256", 32, in), "chain-seed"); }
  }
#elif P_MODE == 2 // collision free hash: equal chain seeds come from the same shift and position
  Bytes seed = arb(32, "seed"); uint32_t a = sym_u32("a"), b = sym_u32("b"); auto x = getHashChainSeed(seed, a, 260), y = getHashChainSeed(seed, b, 260);
  static const uint32_t P[] = {0, 1, 2, 16, 127, 128, 255, 256, 257, 259}; uint32_t i = P[sym_pick("i", 0, 9)], j = P[sym_pick("j", 0, 9)];
  bool eq = true; for (int k = 0; k < 32; k++) eq &= x[i][k] == y[j][k]; sym_assume(eq); sym_assert(i == j && a == b, "no-shared-input");
#else
  static const uint32_t N[] = {0, 1, 16, 32, 48, 51, 64, 100}, E[] = {0, 1, 5, 32, 100}; uint32_t n = N[sym_pick("n", 0, 7)], el = E[sym_pick("el", 0, 4)];
  std::string ent(el, 0); if (el) sym_bytes(&ent[0], el, "entropy"); std::string ent0 = ent; verif_want = n; bool t = false; Bytes r;
  try { r = getRandomSeed(n, ent); } catch (std::exception &) { t = true; }
#ifdef VERIF_NATIVE
  bool fail = verif_urandom.size() < n || (n == 0 && t);
#else
  bool fail = verif_failed; if (!fail) sym_assert(verif_urandom.size() == n, "exactly-the-requested-random-bytes");
#endif
  sym_assert(t == fail, "failing-random-source-is-an-error"); sym_assert(ent == ent0, "input-unchanged");
  if (!t) { Bytes in(verif_urandom.begin(), verif_urandom.begin() + n); in.insert(in.end(), ent0.begin(), ent0.end()); same(r, H("shake256", n, in), "random-seed"); sym_reach("seeded"); } else sym_reach("refused");
#endif
  sym_reach("end");
}
