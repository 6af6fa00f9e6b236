// C04: conformance of keys, signatures and verification with the documented construction (spec.h).
#include "spec.h"
#include "qrl/xmssBasic.h"
#include "qrl/xmssFast.h"
#ifdef P_RUST
#include "rsadapt.h"
#endif
extern "C" void harness() {
  Spec S(P_HF, P_W, P_H);
  std::vector<uint8_t> m(P_MLEN); sym_bytes(m.data(), P_MLEN, "msg");
#if P_MODE == 0
  std::vector<uint8_t> seed(48); sym_bytes(seed.data(), 48, "seed");
#if P_FAST && defined P_RUST
  XmssFast x(seed, P_H, (eHashFunction)P_HF, eAddrFormatType::SHA256_2X, P_W);
#elif P_FAST
  XmssFast x(seed, P_H, (eHashFunction)P_HF, eAddrFormatType::SHA256_2X);
#else
  XmssBasic x(seed, P_H, (eHashFunction)P_HF, eAddrFormatType::SHA256_2X, P_W);
#endif
  uint8_t rb[96]; sym_hash("shake256", rb, 96, seed.data(), 48);
  auto t = S.tree(rb, rb + 64);
  uint8_t sk[132] = {0}; memcpy(sk + 4, rb, 96); memcpy(sk + 100, t[P_H][0].b, 32);
  uint8_t pk[67] = {P_HF, P_H / 2, 0}; memcpy(pk + 3, t[P_H][0].b, 32); memcpy(pk + 35, rb + 64, 32);
  auto xs = x.getSK(), xp = x.getPK();
  sym_assert(xs.size() == 132 && x.getSecretKeySize() == 132, "sksize"); sym_equal(xs.data(), sk, 132, "sk-is-idx-skseed-skprf-pubseed-root");
  sym_assert(xp.size() == 67 && x.getPublicKeySize() == 67, "pksize"); sym_equal(xp.data(), pk, 67, "pk-is-descriptor-root-pubseed");
  auto a = x.getSKSeed(), b = x.getSKPRF(), c = x.getPKSeed(), d = x.getRoot();
  sym_assert(a.size() == 32 && b.size() == 32 && c.size() == 32 && d.size() == 32, "part sizes");
  sym_equal(a.data(), rb, 32, "getSKSeed"); sym_equal(b.data(), rb + 32, 32, "getSKPRF"); sym_equal(c.data(), rb + 64, 32, "getPKSeed"); sym_equal(d.data(), t[P_H][0].b, 32, "getRoot");
  uint32_t idx = sym_pick("idx", P_LO, P_HI);
  if (idx) x.setIndex(idx);
  auto sig = x.sign(m); auto ss = S.sign(rb, rb + 32, rb + 64, t, idx, m.data(), m.size());
  sym_assert(ss.size() == sig.size(), "sigsize"); sym_assert(sig.size() == XmssBase::calculateSignatureBaseSize(P_W) + 32 * P_H, "sigbasesize");
  sym_equal(sig.data(), ss.data(), sig.size(), "signature");
  auto xs2 = x.getSK(); sk[0] = (idx + 1) >> 24; sk[1] = (idx + 1) >> 16; sk[2] = (idx + 1) >> 8; sk[3] = idx + 1; sym_equal(xs2.data(), sk, 132, "sk-after-sign");
#else
  std::vector<uint8_t> pk(67), sig(36 + 32 * (S.len + P_H)); sym_bytes(pk.data() + 3, 64, "pk"); sym_bytes(sig.data(), sig.size(), "sig");
  sig[0] = 0; // the library carries the index in a 32-bit field; tree heights up to 30 use at most 30 bits
  // left/right order along the path: the low P_H index bits are split into cases (P_NP patterns; 0: all of them), the rest stay symbolic
  static const uint32_t PAT[8] = {0, 0xFFFFFFFF, 0x55555555, 0xAAAAAAAA, 0x33333333, 0x99999999, 0x1, 0xFFFFFFFE};
  uint32_t lo = P_NP == 99 ? 0 : P_NP ? PAT[sym_pick("path", 0, P_NP - 1)] & ((1u << P_H) - 1) : sym_pick("path", 0, (1u << P_H) - 1);
  const uint32_t LM = (1u << P_H) - 1;
  if (P_NP != 99) sig[3] = (sig[3] & (uint8_t)~LM) | (uint8_t)lo; if (P_NP != 99 && P_H > 8) sig[2] = (sig[2] & (uint8_t)~(LM >> 8)) | (uint8_t)(lo >> 8);
  if (P_NP != 99 && P_H > 16) { sig[1] = (sig[1] & (uint8_t)~(LM >> 16)) | (uint8_t)(lo >> 16); sig[0] = lo >> 24; }
  pk[0] = P_HF; pk[1] = P_H / 2; pk[2] = sym_u8("desc2");
  N32 r = S.rootFromSig(sig.data(), pk.data() + 3, pk.data() + 35, m.data(), m.size());
  uint8_t eq = 1; for (int i = 0; i < 32; i++) eq &= r.b[i] == pk[3 + i];
  bool v = XmssBase::verify(m, sig, pk, P_W);
  sym_assert(v == (bool)eq, "accepts-iff-recomputed-root-matches");
#endif
  sym_reach("end");
}
