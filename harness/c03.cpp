// C03: any accepted (message, signature, public key) is rejected once a single part is changed.
// Symbolic side: arbitrary accepted triple; the WOTS+ chain completion is an uninterpreted function of everything it
// reads, per chain (C04/C07 check the real one); hash functions are collision free (llsym --injective).
// Native side: a genuine key and signature, the same change.
#include "spec.h"
#include "xmss-alt/wots.h"
#include "qrl/xmssBasic.h"
#ifdef P_RUST
#include "rsadapt.h"
#endif
extern "C" void model_wots_pkFromSig(eHashFunction hf, unsigned char *pk, const unsigned char *sig, const unsigned char *msg, const wots_params *p, const unsigned char *ps, uint32_t addr[8]) {
  for (uint32_t i = 0; i < p->len; i++) {
    uint8_t in[4 + 96 + 24]; in[0] = hf; in[1] = p->w; in[2] = p->w >> 8; in[3] = 0; memcpy(in + 4, sig + 32 * i, 32); memcpy(in + 36, msg, 32); memcpy(in + 68, ps, 32); memcpy(in + 100, addr, 20); memcpy(in + 120, &i, 4);
    sym_hash("chain", pk + 32 * i, 32, in, sizeof in);
  }
  addr[5] = p->len - 1; addr[6] = p->w - 2; addr[7] = 1;
}
#ifdef P_RUST
extern "C" void rsc_wots_pk_from_sig(uint32_t hf, uint8_t *pk, const uint8_t *sig, const uint8_t *m, uint32_t w, uint32_t len, uint32_t ks, const uint8_t *ps, uint32_t *a) { wots_params p; memset(&p, 0, sizeof p); p.w = w; p.len = len; p.keysize = ks; model_wots_pkFromSig((eHashFunction)hf, pk, sig, m, &p, ps, a); }
#endif
enum { MSG, LEN, IDX, RND, CHAIN, AUTH, HASHFN, HEIGHT, ROOT, SEED };
extern "C" void harness() {
  const uint32_t len = P_W == 4 ? 133 : P_W == 16 ? 67 : 34, SIG = 36 + 32 * (len + P_H);
  Bytes m(P_MLEN), sig(SIG), pk(67); if (P_MLEN) sym_bytes(m.data(), P_MLEN, "msg");
  const uint32_t LM = (1u << P_H) - 1, lo = (uint32_t)sym_pick("path", P_LO, P_HI) & LM;
#ifdef VERIF_NATIVE
  { Bytes seed(48); sym_bytes(seed.data(), 48, "seed"); XmssBasic x(seed, P_H, (eHashFunction)P_HF, eAddrFormatType::SHA256_2X, P_W); x.setIndex(lo); sig = x.sign(m); pk = x.getPK(); }
#else
  sym_bytes(sig.data(), SIG, "sig"); sym_bytes(pk.data() + 3, 64, "pk"); pk[0] = P_HF; pk[1] = P_H / 2; pk[2] = sym_u8("d2");
  sig[0] = sig[1] = 0; sig[2] = lo >> 8; sig[3] = lo;
#endif
  const Bytes m0 = m, s0 = sig, p0 = pk;
  bool first = XmssBase::verify(m, sig, pk, P_W);
  sym_assume(first); sym_reach("accepted");
  sym_assert(m == m0 && sig == s0 && pk == p0, "inputs-unchanged");
  auto change = [&](uint8_t *p, size_t n, const char *nm) { // any other value of these bytes
    Bytes d(n); sym_bytes(d.data(), n, nm); bool none = true; for (size_t i = 0; i < n; i++) { none &= d[i] == 0; p[i] ^= d[i]; } sym_assume(!none);
  };
#if P_PART == 0
  change(m.data(), m.size(), "delta");
#elif P_PART == 1
  uint32_t n = sym_pick("newlen", 0, P_MLEN + 3); sym_assume(n != P_MLEN);
  { size_t old = m.size(); m.resize(n); if (n > old) sym_bytes(m.data() + old, n - old, "tail"); }
#elif P_PART == 2
  uint32_t ni = sym_u32("newidx"); sym_assume(ni != lo);
  { uint32_t pt = sym_pick("newpath", 0, P_NP - 1); static const uint32_t PAT[8] = {0, ~0u, 0x55555555, 0xAAAAAAAA, 0x33333333, 0x99999999, 1, 0xFFFFFFFE}; if (P_NP < 9) ni = (ni & ~LM) | (PAT[pt] & LM); else ni = (ni & ~LM) | pt; }
  sym_assume(ni != lo); for (int i = 0; i < 4; i++) sig[i] = ni >> (24 - 8 * i);
#elif P_PART == 3
  change(sig.data() + 4, 32, "delta");
#elif P_PART == 4
  change(sig.data() + 36, 32 * len, "delta");
#elif P_PART == 5
  change(sig.data() + 36 + 32 * len, 32 * P_H, "delta");
#elif P_PART == 6
  uint8_t nh = sym_pick("newhf", 0, 15); sym_assume(nh != P_HF); pk[0] = (pk[0] & 0xf0) | nh;
#elif P_PART == 7
  uint8_t nh = sym_u8("newh") & 15; sym_assume(nh * 2 != P_H); pk[1] = (pk[1] & 0xf0) | nh;
#elif P_PART == 8
  change(pk.data() + 3, 32, "delta");
#ifndef VERIF_NATIVE // the changed root is not, by accident, the root recomputed for it
  { Spec S(P_HF, P_W, P_H); uint8_t wp[32 * 134]; wots_params wpar; wots_set_params(&wpar, 32, P_W); uint32_t ad[8] = {0, 0, 0, 0, lo, 0, 0, 0};
    N32 md = S.digest(sig.data() + 4, pk.data() + 3, lo, m.data(), m.size()); model_wots_pkFromSig((eHashFunction)P_HF, wp, sig.data() + 36, md.b, &wpar, pk.data() + 35, ad);
    std::vector<N32> v(len); for (uint32_t i = 0; i < len; i++) memcpy(v[i].b, wp + 32 * i, 32); N32 x = S.ltree(v, pk.data() + 35, lo); const uint8_t *au = sig.data() + 36 + 32 * len;
    for (uint32_t l = 0; l < P_H; l++) { N32 a; memcpy(a.b, au + 32 * l, 32); uint32_t q = lo >> (l + 1); x = ((lo >> l) & 1) ? S.node(a, x, pk.data() + 35, Spec::ndAdr(l, q)) : S.node(x, a, pk.data() + 35, Spec::ndAdr(l, q)); }
    uint8_t any = 0; for (int i = 0; i < 32; i++) any |= x.b[i] ^ pk[3 + i]; sym_assume(any != 0); }
#endif
#elif P_PART == 9
  change(pk.data() + 35, 32, "delta");
#endif
  sym_reach("end");
  sym_assert(!XmssBase::verify(m, sig, pk, P_W), "changed-part-is-rejected");
}
