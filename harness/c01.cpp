// C01: sign -> verify, every index of the key, symbolic seed and message.
#include "spec.h"
#include "qrl/xmssBasic.h"
#include "qrl/xmssFast.h"
#ifdef P_RUST
#include "rsadapt.h"
#endif
#ifndef P_FIRST
#define P_FIRST 0
#endif
#ifndef P_LAST
#define P_LAST ((1u << P_H) - 1)
#endif
#ifndef P_MODE
#define P_MODE 0
#endif
#if P_MODE == 2
// WOTS+ and L-tree abstracted (C04/C07 check the real ones): a one-time key is a secret W, its signature of a digest is W and a
// tag of the digest, the key recomputed from a signature is the one-time public key exactly when the tag fits the digest
#include "xmss-alt/wots.h"
#include "xmss-alt/xmss_common.h"
static void ctx(uint8_t *o, const wots_params *p, eHashFunction hf, const unsigned char *ps, const uint32_t *addr) { o[0] = hf; o[1] = p->w; o[2] = p->w >> 8; o[3] = 0; memcpy(o + 4, ps, 32); memcpy(o + 36, addr, 20); }
static void mW(uint8_t *W, eHashFunction hf, const unsigned char *sk, const wots_params *p, const unsigned char *ps, const uint32_t *addr) { uint8_t in[88]; ctx(in, p, hf, ps, addr); memcpy(in + 56, sk, 32); sym_hash("wsec", W, 32, in, sizeof in); }
static void mP(unsigned char *pk, const uint8_t *W, eHashFunction hf, const wots_params *p, const unsigned char *ps, const uint32_t *addr) { uint8_t in[88]; ctx(in, p, hf, ps, addr); memcpy(in + 56, W, 32); memset(pk, 0, p->keysize); sym_hash("wpub", pk, 32, in, sizeof in); }
static void mT(uint8_t *t, const uint8_t *W, const unsigned char *md, eHashFunction hf, const wots_params *p, const unsigned char *ps, const uint32_t *addr) { uint8_t in[120]; ctx(in, p, hf, ps, addr); memcpy(in + 56, W, 32); memcpy(in + 88, md, 32); sym_hash("wtag", t, 32, in, sizeof in); }
extern "C" {
void model_wots_pkgen(eHashFunction hf, unsigned char *pk, const unsigned char *sk, const wots_params *p, const unsigned char *ps, uint32_t addr[8]) { uint8_t W[32]; mW(W, hf, sk, p, ps, addr); mP(pk, W, hf, p, ps, addr); addr[5] = p->len - 1; addr[6] = p->w - 2; addr[7] = 1; }
void model_l_tree(eHashFunction hf, const wots_params *p, unsigned char *leaf, unsigned char *pk, const unsigned char *ps, uint32_t addr[8]) { uint8_t in[88]; ctx(in, p, hf, ps, addr); memcpy(in + 56, pk, 32); sym_hash("ltree", leaf, 32, in, sizeof in); }
void model_wots_sign(eHashFunction hf, unsigned char *sig, const unsigned char *md, const unsigned char *sk, const wots_params *p, const unsigned char *ps, uint32_t addr[8]) { memset(sig, 0, p->keysize); mW(sig, hf, sk, p, ps, addr); mT(sig + 32, sig, md, hf, p, ps, addr); }
void model_wots_pkFromSig(eHashFunction hf, unsigned char *pk, const unsigned char *sig, const unsigned char *md, const wots_params *p, const unsigned char *ps, uint32_t addr[8]) { uint8_t t[32]; mT(t, sig, md, hf, p, ps, addr); uint8_t bad = 0; for (int i = 0; i < 32; i++) bad |= t[i] ^ sig[32 + i]; mP(pk, sig, hf, p, ps, addr); uint8_t m = -(uint8_t)(bad != 0); for (int i = 0; i < 32; i++) pk[i] ^= m; addr[5] = p->len - 1; addr[6] = p->w - 2; addr[7] = 1; }
}
#ifdef P_RUST
#include "rsleaf.h"
extern "C" void rsc_wots_pk_from_sig(uint32_t hf, uint8_t *pk, const uint8_t *sig, const uint8_t *m, uint32_t w, uint32_t len, uint32_t ks, const uint8_t *ps, uint32_t *a) { wots_params p = rsp(w, len, ks); model_wots_pkFromSig((eHashFunction)hf, pk, sig, m, &p, ps, a); }
#endif
#endif
#if P_MODE == 3
// chains abstracted compositionally: a chain value is a secret (31 bytes) and the position it has reached
#include "xmss-alt/wots.h"
extern "C" {
void model_expand_seed(eHashFunction hf, unsigned char *o, const unsigned char *seed, const uint32_t n, const uint32_t len) { for (uint32_t i = 0; i < len; i++) { uint8_t in[37]; memcpy(in, seed, 32); memcpy(in + 32, &i, 4); in[36] = hf; sym_hash("ots", o + 32 * i, 32, in, 37); o[32 * i + 31] = 0; } }
void model_gen_chain(eHashFunction hf, unsigned char *out, const unsigned char *in, unsigned start, unsigned steps, const wots_params *p, const unsigned char *ps, uint32_t addr[8]) {
  uint8_t bad = -(uint8_t)(((in[31] ^ start) | ((start + steps) >= p->w)) != 0); for (int i = 0; i < 31; i++) out[i] = in[i] ^ bad; out[31] = (uint8_t)(start + steps) ^ bad; }
}
#endif
static void one(XmssBase &x, const std::vector<uint8_t> &pk, size_t ml, uint32_t idx) {
  std::vector<uint8_t> m(ml); if (ml) sym_bytes(m.data(), ml, "msg");
  sym_assert(x.getIndex() == idx, "index"); auto sig = x.sign(m);
  sym_assert(sig.size() == x.getSignatureSize(P_W), "sigsize"); uint32_t si = (sig[0] << 24) | (sig[1] << 16) | (sig[2] << 8) | sig[3]; sym_assert(si == idx, "signature-carries-index");
  sym_assert(XmssBase::verify(m, sig, pk, P_W), "verifies");
}
extern "C" void harness() {
  std::vector<uint8_t> seed(48); sym_bytes(seed.data(), 48, "seed");
#if P_FAST && defined P_RUST
  XmssFast x(seed, P_H, (eHashFunction)P_HF, eAddrFormatType::SHA256_2X, P_W);
#elif P_FAST
  XmssFast x(seed, P_H, (eHashFunction)P_HF, eAddrFormatType::SHA256_2X);
#else
  XmssBasic x(seed, P_H, (eHashFunction)P_HF, eAddrFormatType::SHA256_2X, P_W);
#endif
  auto pk = x.getPK(); sym_assert(pk.size() == 67, "pksize");
#if P_MODE == 1
  static const size_t L[] = {P_LENS}; uint32_t i = 0; for (size_t l : L) one(x, pk, l, i++);
#elif P_MODE >= 2
  for (uint32_t i = P_FIRST; i <= P_LAST; i++) { if (i == P_FIRST && i) x.setIndex(i); one(x, pk, 3, i); }
#else
  std::vector<uint8_t> m(P_MLEN); sym_bytes(m.data(), P_MLEN, "msg");
  uint32_t idx = sym_pick("idx", P_FIRST, P_LAST);
  if (idx) x.setIndex(idx);
  auto sig = x.sign(m);
  uint32_t len1 = P_W == 4 ? 128 : P_W == 16 ? 64 : 32, len2 = P_W == 4 ? 5 : P_W == 16 ? 3 : 2;
  sym_assert(sig.size() == 36 + 32 * (len1 + len2 + P_H), "sigsize");
  sym_assert(sig.size() == x.getSignatureSize(P_W), "sigsize2");
  uint32_t si = (sig[0] << 24) | (sig[1] << 16) | (sig[2] << 8) | sig[3];
  sym_assert(si == idx, "index");
  sym_assert(XmssBase::verify(m, sig, pk, P_W), "verifies");
#endif
  sym_reach("end");
}
