// C02/C05: fast traversal over whole histories against the full tree.
// MODE 0: every sign-or-skip history from 0 to the last index (symbolic choice bit per index)
// MODE 1: two jumps of any length with a signature after each;  MODE 2: signs only, stops after P_N signatures
#include "leafmodel.h"
#include "qrl/xmssFast.h"
#include "qrl/xmssBasic.h"
#ifdef P_RUST
#include "rsadapt.h"
#include "rsleaf.h"
#endif
static const uint32_t N = 1u << P_H;
static std::vector<std::vector<N32>> T; // full tree, from the library's own leaf generation via the plain algorithm
#include "xmss-alt/algsxmss.h"
static void fullTree(const uint8_t *skseed, const uint8_t *ps) {
  xmss_params p; xmss_set_params(&p, 32, P_H, 16, 2); Spec S(P_HF, 16, P_H);
  T.resize(P_H + 1); T[0].resize(N);
  for (uint32_t i = 0; i < N; i++) {
    uint32_t oa[8] = {0, 0, 0, 0, i, 0, 0, 0}, la[8] = {0, 0, 0, 1, i, 0, 0, 0};
    std::vector<uint8_t> pk(p.wots_par.keysize); N32 os = S.otsSeed(skseed, i);
#ifdef P_RUST
    rs_wots_pkgen(P_HF, pk.data(), os.b, 16, ps, oa); rs_l_tree(P_HF, T[0][i].b, pk.data(), 16, ps, la);
#else
    wots_pkgen((eHashFunction)P_HF, pk.data(), os.b, &p.wots_par, ps, oa); l_tree((eHashFunction)P_HF, &p.wots_par, T[0][i].b, pk.data(), ps, la);
#endif
  }
  for (uint32_t l = 0; l < P_H; l++) { T[l + 1].resize(N >> (l + 1)); for (uint32_t i = 0; i < (N >> (l + 1)); i++) T[l + 1][i] = S.node(T[l][2 * i], T[l][2 * i + 1], ps, Spec::ndAdr(l, i)); }
}
static void check(const std::vector<uint8_t> &sig, uint32_t idx) {
  sym_assert(sig.size() == 4 + 32 + 67 * 32 + 32 * P_H, "sigsize");
  uint8_t ib[4] = {(uint8_t)(idx >> 24), (uint8_t)(idx >> 16), (uint8_t)(idx >> 8), (uint8_t)idx};
  sym_equal(sig.data(), ib, 4, "signature-carries-reported-index");
  for (uint32_t l = 0; l < P_H; l++) sym_equal(sig.data() + 4 + 32 + 67 * 32 + 32 * l, T[l][(idx >> l) ^ 1].b, 32, "auth-path-is-sibling-path");
}
extern "C" void harness() {
  std::vector<uint8_t> seed(48); sym_bytes(seed.data(), 48, "seed");
  XmssFast x(seed, P_H, (eHashFunction)P_HF, eAddrFormatType::SHA256_2X);
  auto sk = x.getSK(); fullTree(sk.data() + 4, sk.data() + 68);
  sym_equal(x.getRoot().data(), T[P_H][0].b, 32, "root-is-full-tree-root");
  sym_assert(x.getIndex() == 0, "starts-at-0"); sym_assert(x.getNumberSignatures() == N, "capacity");
  std::vector<uint8_t> m(3); sym_bytes(m.data(), 3, "msg");
#if P_MODE == 0
  for (uint32_t i = 0; i < N; i++) {
    bool sign = sym_u8("sign") & 1;
    if (i == N - 1) sign = true;
    sym_assert(x.getIndex() == i, "index");
    sym_assert(x.getRemainingSignatures() == N - i, "remaining");
    if (sign) { auto s = x.sign(m); check(s, i); }
    else { unsigned r = x.setIndex(i + 1); sym_assert(r == i + 1, "setIndex-returns-index"); }
  }
  sym_assert(x.getIndex() == N, "index-after-last");
#elif P_MODE == 1
  uint32_t a = sym_pick("j1", P_LO, P_HI); x.setIndex(a); sym_assert(x.getIndex() == a, "index");
  check(x.sign(m), a);
  if (a + 1 < N) {
    uint32_t b = sym_pick("j2", a + 1, N - 1); x.setIndex(b); sym_assert(x.getIndex() == b, "index"); check(x.sign(m), b);
    if (b + 1 < N) { check(x.sign(m), b + 1); if (b + 2 < N) check(x.sign(m), b + 2); }
  }
#elif P_MODE == 2
  uint32_t st = N > P_N ? N - P_N : 0; if (st) x.setIndex(st);
  for (uint32_t i = st; i < N; i++) check(x.sign(m), i);
#elif P_MODE == 4 // plain and fast signer agree: public key and signature bytes at any index, after any first jump
  XmssBasic b(seed, P_H, (eHashFunction)P_HF, eAddrFormatType::SHA256_2X);
  auto pa = x.getPK(), pb = b.getPK(); sym_assert(pa.size() == 67 && pb.size() == 67, "pksize"); sym_equal(pa.data(), pb.data(), 67, "fast-pk-is-plain-pk");
  uint32_t i = sym_pick("idx", P_LO, P_HI); if (i >= 2) x.setIndex(i / 2); if (i) { x.setIndex(i); b.setIndex(i); }
  auto sa = x.sign(m), sb = b.sign(m); sym_assert(sa.size() == sb.size(), "sigsize"); sym_equal(sa.data(), sb.data(), sa.size(), "fast-signature-is-plain-signature");
  auto ka = x.getSK(), kb = b.getSK(); sym_assert(ka.size() == kb.size(), "sksize"); sym_equal(ka.data(), kb.data(), ka.size(), "fast-sk-is-plain-sk");
#else // jump straight to each index of a list, via one or two jumps, then sign twice
  uint32_t a = sym_pick("j1", 0, P_N), b;
  const uint32_t pts[] = {0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 62, 63, 64, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 510, 511, 512, 513, 767, 1000, 1021, 1022, 1023};
  b = pts[a % 33] % N; if (b) x.setIndex(b); check(x.sign(m), b); if (b + 1 < N) check(x.sign(m), b + 1);
#endif
  sym_reach("end");
}
