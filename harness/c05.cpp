// C05: index discipline and exhaustion (WOTS/L-tree abstracted: leafmodel.h).
// MODE 0 fast: at every position, a jump to any 32-bit index is either legal or refused without any effect
// MODE 1 fast: the last signatures, then exhaustion
// MODE 2 plain: sign from any index to exhaustion and beyond
// MODE 3 index codec: any 32-bit index survives setIndex/getIndex on a plain key
#include "leafmodel.h"
#include "qrl/xmssFast.h"
#include "qrl/xmssBasic.h"
#ifdef P_RUST
#include "rsadapt.h"
#include "rsleaf.h"
#endif
static const uint32_t N = 1u << P_H;
static uint32_t sigIdx(const std::vector<uint8_t> &s) { return (uint32_t)s[0] << 24 | s[1] << 16 | s[2] << 8 | s[3]; }
template <class X> static bool trySign(X &x, const Bytes &m, Bytes &out) {
  try { out = x.sign(m); return true; } catch (std::exception &) { return false; }
}
static bool trySet(XmssBase &x, uint32_t v, uint32_t &r) { try { r = x.setIndex(v); return true; } catch (std::exception &) { return false; } }
template <class X> static void exhausted(X &x, const Bytes &m) {
  sym_assert(x.getIndex() == N, "index-after-last-signature"); sym_assert(x.getRemainingSignatures() == 0, "none-remaining");
  auto sk = x.getSK(); Bytes s;
  for (int k = 0; k < 3; k++) {
    sym_assert(!trySign(x, m, s), "exhausted-key-refuses-to-sign"); sym_assert(s.empty(), "no-signature-returned");
    auto sk2 = x.getSK(); sym_equal(sk2.data(), sk.data(), 132, "refusal-changes-nothing");
  }
}
template <class X> static void signOne(X &x, const Bytes &m) {
  uint32_t b = x.getIndex(); sym_assert(b < N, "index-in-range"); auto sk = x.getSK(); Bytes s;
  sym_assert(trySign(x, m, s), "signs-while-indices-remain"); sym_assert(s.size() == x.getSignatureSize(), "signature-size");
  sym_assert(sigIdx(s) == b, "signature-carries-reported-index"); sym_assert(x.getIndex() == b + 1, "index-advances-by-one");
  sym_assert(x.getRemainingSignatures() == N - b - 1, "remaining");
  auto sk2 = x.getSK(); sym_equal(sk2.data() + 4, sk.data() + 4, 128, "signing-keeps-secrets");
}
extern "C" void harness() {
  std::vector<uint8_t> seed(48); sym_bytes(seed.data(), 48, "seed"); Bytes m(3); sym_bytes(m.data(), 3, "msg");
#if P_MODE == 0
  XmssFast x(seed, P_H, (eHashFunction)P_HF, eAddrFormatType::SHA256_2X), y(seed, P_H, (eHashFunction)P_HF, eAddrFormatType::SHA256_2X);
  uint32_t cur = sym_pick("cur", P_LO, P_HI); // N means exhausted
  if (cur == N) { x.setIndex(N - 1); x.sign(m); y.setIndex(N - 1); y.sign(m); }
  else if (cur) { x.setIndex(cur); y.setIndex(cur); }
  sym_assert(x.getIndex() == cur, "reaches-position");
  uint32_t bad = sym_u32("bad"); sym_assume(bad < cur || bad >= N);
  auto sk = x.getSK(); uint32_t r = 0;
  sym_assert(!trySet(x, bad, r), "illegal-index-refused");
  sym_assert(!trySet(x, bad, r), "illegal-index-refused-again");
  auto sk2 = x.getSK(); sym_equal(sk2.data(), sk.data(), 132, "refusal-keeps-secret-key"); sym_assert(x.getIndex() == cur, "refusal-keeps-index");
  if (cur == N) { exhausted(x, m); sym_reach("end"); return; }
  uint32_t to = P_JUMP ? sym_pick("to", cur, N - 1) : cur;
  sym_assert(trySet(x, to, r) && r == to, "legal-index-accepted"); y.setIndex(to); sym_assert(x.getIndex() == to, "index-is-set");
  auto a = x.sign(m), b = y.sign(m); sym_assert(sigIdx(a) == to, "signature-carries-reported-index");
  sym_equal(a.data(), b.data(), a.size(), "refused-calls-leave-no-trace"); sym_assert(x.getIndex() == to + 1, "index-advances-by-one");
  if (to + 1 < N) { a = x.sign(m); b = y.sign(m); sym_assert(sigIdx(a) == to + 1, "signature-carries-reported-index"); sym_equal(a.data(), b.data(), a.size(), "refused-calls-leave-no-trace"); }
#elif P_MODE == 1
  XmssFast x(seed, P_H, (eHashFunction)P_HF, eAddrFormatType::SHA256_2X);
  uint32_t a = sym_pick("start", P_LO, P_HI); if (a) x.setIndex(a);
  for (uint32_t i = a; i < N; i++) signOne(x, m);
  exhausted(x, m);
  uint32_t any = sym_u32("any"), r; sym_assert(!trySet(x, any, r), "exhausted-key-cannot-be-moved"); exhausted(x, m);
#elif P_MODE == 2
  XmssBasic x(seed, P_H, (eHashFunction)P_HF, eAddrFormatType::SHA256_2X);
  uint32_t a = sym_pick("start", P_LO, P_HI); if (a) x.setIndex(a);
  for (uint32_t i = a; i < N; i++) signOne(x, m);
  exhausted(x, m);
#else
  XmssBasic x(seed, P_H, (eHashFunction)P_HF, eAddrFormatType::SHA256_2X); auto sk = x.getSK();
  sym_assert(x.getIndex() == 0, "fresh-index");
  uint32_t v = sym_u32("idx"); uint32_t r = x.setIndex(v); sym_assert(r == v, "setIndex-returns-index"); sym_assert(x.getIndex() == v, "index-roundtrip");
  auto k = x.getSK(); uint8_t be[4] = {(uint8_t)(v >> 24), (uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v};
  sym_equal(k.data(), be, 4, "index-big-endian"); sym_equal(k.data() + 4, sk.data() + 4, 128, "index-change-keeps-secrets");
  sym_assert(k.size() == 132 && x.getSecretKeySize() == 132, "sk-size");
  if (v >= N) { Bytes s; sym_assert(!trySign(x, m, s) && s.empty(), "index-past-the-end-refuses-to-sign"); sym_assert(x.getIndex() == v, "refusal-keeps-index"); }
#endif
  sym_reach("end");
}
