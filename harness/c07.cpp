// C07: WOTS+ digit encoding.  hash_f is replaced (job option redirect) by a step counter: byte 0 of a chain value is the
// number of steps applied to it; prf returns zeroes.  So byte 0 of chain i of wots_sign is the revealed position itself.
#include "spec.h"
#include "xmss-alt/wots.h"
#include "xmss-alt/hash.h"
#ifdef P_RUST
#include "rs.h"
#endif
static uint32_t gChainBase = 0; static int gCheckPos = 0;
extern "C" int model_prf(eHashFunction, unsigned char *out, const unsigned char *, const unsigned char *, unsigned int n) { memset(out, 0, n); return 0; }
extern "C" int model_hash_f(eHashFunction, unsigned char *out, const unsigned char *in, const unsigned char *, uint32_t addr[8], const unsigned int n) {
  uint8_t v = in[0] + 1, bad = in[1] | (addr[6] >= P_W - 1) | (addr[6] != in[0]); // sticky: out of the chain, or out of order
  memmove(out, in, n); out[0] = v; out[1] = bad; return 0;
}
#ifdef P_RUST // the Rust routines; the redirected Rust hash_f and prf end in the same step counter
extern "C" void rsc_prf(uint8_t *o, uint32_t n) { memset(o, 0, n); }
extern "C" void rsc_hash_f(uint8_t *o, const uint8_t *in, uint32_t *a, uint32_t n) { model_hash_f((eHashFunction)0, o, in, 0, a, n); }
#define wots_sign(hf, sig, md, sk, p, ps, a) rs_wots_sign(hf, sig, md, sk, P_W, ps, a)
#define wots_pkFromSig(hf, pk, sig, md, p, ps, a) rs_wots_pk_from_sig(hf, pk, sig, md, P_W, ps, a)
#endif
#ifdef VERIF_NATIVE
// natively the chain value at each position is computed with the real hash, and the position read back by comparison
static int position(const Spec &S, const uint8_t *v, const uint8_t *sk, const uint8_t *ps, uint32_t i) {
  N32 x = S.otsSk(sk, i); for (uint32_t p = 0; p < P_W; p++) { if (!memcmp(x.b, v, 32)) return p; if (p + 1 < P_W) x = S.F(x, ps, Spec::otsAdr(0, i, p)); } return -1;
}
#endif
static void signDigits(const Spec &S, const wots_params *p, const uint8_t *md, uint8_t *d) {
  std::vector<uint8_t> sig(p->keysize); uint8_t sk[32] = {7}, ps[32] = {9}; uint32_t addr[8] = {0};
  wots_sign((eHashFunction)P_HF, sig.data(), md, sk, p, ps, addr);
#ifdef VERIF_NATIVE
  for (uint32_t i = 0; i < S.len; i++) { int q = position(S, &sig[32 * i], sk, ps, i); sym_assert(q >= 0, "position-within-chain"); d[i] = q; }
#else
  for (uint32_t i = 0; i < S.len; i++) { d[i] = sig[32 * i]; sym_assert(!sig[32 * i + 1], "positions-in-order-and-within-chain"); }
#endif
}
extern "C" void harness() {
  Spec S(P_HF, P_W, 4); wots_params p; wots_set_params(&p, 32, P_W);
  sym_assert(p.len == S.len && p.len_1 == S.len1 && p.len_2 == S.len2 && p.log_w == S.logw && p.w == P_W && p.n == 32 && p.keysize == 32 * S.len, "parameters");
#ifdef P_RUST
  { uint32_t q[7]; rs_wots_params(32, P_W, q); sym_assert(q[0] == S.len1 && q[1] == S.len2 && q[2] == S.len && q[3] == 32 && q[4] == P_W && q[5] == S.logw && q[6] == 32 * S.len, "parameters"); }
#endif
  uint8_t md[32]; sym_bytes(md, 32, "digest"); uint8_t d[256], e[256];
#if P_MODE == 0
  signDigits(S, &p, md, d);
  for (uint32_t i = 0; i < S.len; i++) sym_assert(d[i] < P_W, "digit-below-w");
  uint32_t sum = 0, doc[256];
  S.digits(md, doc);
  for (uint32_t i = 0; i < S.len; i++) { sym_assert(d[i] == doc[i], i < S.len1 ? "message-digit" : "checksum-digit"); d[i] = doc[i]; }
  // verification completes exactly the remaining steps
  std::vector<uint8_t> sig(p.keysize), pk(p.keysize); uint8_t ps[32] = {9}; uint32_t addr[8] = {0};
#ifdef VERIF_NATIVE
  uint8_t sk[32] = {7}; std::vector<N32> top(S.len); for (uint32_t i = 0; i < S.len; i++) { N32 x = S.chain(S.otsSk(sk, i), 0, d[i], ps, 0, i); memcpy(&sig[32 * i], x.b, 32); top[i] = S.chain(x, d[i], P_W - 1, ps, 0, i); }
  wots_pkFromSig((eHashFunction)P_HF, pk.data(), sig.data(), md, &p, ps, addr);
  for (uint32_t i = 0; i < S.len; i++) sym_assert(!memcmp(top[i].b, &pk[32 * i], 32), "verification-completes-the-chain");
#else
  for (uint32_t i = 0; i < S.len; i++) sig[32 * i] = d[i];
  wots_pkFromSig((eHashFunction)P_HF, pk.data(), sig.data(), md, &p, ps, addr);
  for (uint32_t i = 0; i < S.len; i++) { sym_assert(pk[32 * i] == P_W - 1, "verification-completes-the-chain"); if (i < S.len1) sym_assert(!pk[32 * i + 1], "positions-in-order-and-within-chain"); }
#endif
#else
  // No digest dominates another, given that the revealed positions are the documented digits (MODE 0): by induction over the
  // message digits, with s and t the partial checksums of two digests none of whose digits went down.
  (void)e; const uint32_t MAX = S.len1 * (P_W - 1);
  { uint32_t s = sym_u32("s"), t = sym_u32("t"), strict = sym_u8("strict") & 1, x = sym_u32("x"), y = sym_u32("y");
    sym_assume(s <= MAX && t <= s && x < P_W && y < P_W && x <= y); if (strict) sym_assume(t < s); // digits so far differ => t < s
    uint32_t s2 = s + (P_W - 1 - x), t2 = t + (P_W - 1 - y), strict2 = strict | (x != y);
    sym_assert(t2 <= s2, "checksum-never-grows"); if (strict2) sym_assert(t2 < s2, "checksum-shrinks-when-a-digit-grows"); }
  { uint32_t s = sym_u32("S"), t = sym_u32("T"), back = 0, below = 0; sym_assume(s <= MAX && t < s);
    for (uint32_t j = 0; j < S.len2; j++) { uint32_t sh = S.logw * (S.len2 - 1 - j), p = (s >> sh) & (P_W - 1), q = (t >> sh) & (P_W - 1); back |= p << sh; below |= q < p; }
    sym_assert(back == s, "checksum-digits-encode-the-whole-checksum"); sym_assert(below, "no-digest-dominates-another"); }
#endif
  sym_reach("end");
}
