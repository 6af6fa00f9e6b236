// C16: the Rust library against the C++ library, in one program.
// MODE 0: keys, address, signature at an index (real WOTS+)   1: verdict on arbitrary signatures   2: fast key, every sign/skip history
// 3: fast key, index discipline   4: plain key over its last indices   5: key import, sizes and heights
#include "leafmodel.h"
#include "rs.h"
#include "qrl/xmssFast.h"
#include "qrl/xmssBasic.h"
#include "rsleaf.h"
#ifndef P_W
#define P_W 16
#endif
#ifndef P_H
#define P_H 4
#endif
#ifndef P_HF
#define P_HF 1
#endif
typedef std::vector<uint8_t> Bytes;
static const uint32_t LEN = P_W == 16 ? 67 : P_W == 4 ? 133 : 34, SZ = 4 + 32 + LEN * 32 + P_H * 32;
static eHashFunction HF = (eHashFunction)P_HF;
static void eq(const Bytes &a, const uint8_t *b, int64_t n, const char *id) { sym_assert(n == (int64_t)a.size(), id); sym_equal(a.data(), b, a.size(), id); }
template<class X> static void keys(X &x, int64_t (*pk)(void *, uint8_t *), int64_t (*sk)(void *, uint8_t *), int64_t (*ext)(void *, uint8_t *), int64_t (*ad)(void *, uint8_t *), void *r) {
  uint8_t b[200]; int64_t n;
  n = pk(r, b); eq(x.getPK(), b, n, "public-key"); n = sk(r, b); eq(x.getSK(), b, n, "secret-key"); n = ext(r, b); eq(x.getExtendedSeed(), b, n, "extended-seed"); n = ad(r, b); eq(x.getAddress(), b, n, "address");
}
static void sameSk(XmssFast &x, void *r) { uint8_t b[200]; int64_t n = rs_fast_sk(r, b); eq(x.getSK(), b, n, "secret-key-after"); sym_assert(rs_fast_index(r) == x.getIndex(), "index"); sym_assert(rs_fast_remaining(r) == x.getRemainingSignatures(), "remaining"); }
static void signBoth(XmssFast &x, void *r, const Bytes &m) {
  static uint8_t b[20000]; Bytes s; bool ok = true; try { s = x.sign(m); } catch (std::exception &) { ok = false; }
  int64_t n = rs_fast_sign(r, m.data(), m.size(), b, sizeof b);
  sym_assert((n >= 0) == ok, "both-sign-or-both-refuse"); if (ok) eq(s, b, n, "signature"); sameSk(x, r);
}
extern "C" void harness() {
  Bytes seed(48); sym_bytes(seed.data(), 48, "seed"); Bytes m(P_MLEN ? P_MLEN : 1); sym_bytes(m.data(), m.size(), "msg"); m.resize(P_MLEN);
#if P_MODE == 0
#if P_FAST
  XmssFast x(seed, P_H, HF, eAddrFormatType::SHA256_2X); void *r = rs_fast_new(seed.data(), 48, P_H, P_HF); sym_assert(r != 0, "constructs");
  keys(x, rs_fast_pk, rs_fast_sk, rs_fast_ext, rs_fast_address, r); sym_assert(rs_fast_sigsize(r, 16) == SZ && x.getSignatureSize() == SZ, "signature-size");
  uint32_t i = sym_pick("idx", P_LO, P_HI); if (i) { x.setIndex(i); sym_assert(rs_fast_set_index(r, i) == i, "set-index"); } signBoth(x, r, m);
#else
  XmssBasic x(seed, P_H, HF, eAddrFormatType::SHA256_2X, P_W); void *r = rs_basic_new(seed.data(), 48, P_H, P_HF, P_W); sym_assert(r != 0, "constructs");
  keys(x, rs_basic_pk, rs_basic_sk, rs_basic_ext, rs_basic_address, r); sym_assert(rs_basic_sigsize(r, P_W) == SZ && x.getSignatureSize(P_W) == SZ, "signature-size");
  uint32_t i = sym_pick("idx", P_LO, P_HI); if (i) { x.setIndex(i); sym_assert(rs_basic_set_index(r, i) == i, "set-index"); }
  static uint8_t b[20000]; auto s = x.sign(m); int64_t n = rs_basic_sign(r, m.data(), m.size(), b, sizeof b); eq(s, b, n, "signature"); n = rs_basic_sk(r, b); eq(x.getSK(), b, n, "secret-key-after");
#endif
#elif P_MODE == 1
  Bytes pk(67), sig(SZ); sym_bytes(pk.data(), 67, "pk"); sym_bytes(sig.data(), SZ, "sig"); pk[0] = P_HF; pk[1] = P_H / 2; // third byte and keys arbitrary
  sym_nomerge(1); uint32_t i = sym_pick("pattern", 0, P_NP - 1); sym_nomerge(0); uint32_t mask = (1u << P_H) - 1, pat = i == 0 ? 0 : i == 1 ? mask : (0x5a5a5a5au >> i) & mask; // left/right pattern; the upper bits stay arbitrary
  uint32_t idx = (uint32_t)sig[0] << 24 | sig[1] << 16 | sig[2] << 8 | sig[3]; idx = (idx & ~mask) | pat; sig[0] = idx >> 24; sig[1] = idx >> 16; sig[2] = idx >> 8; sig[3] = idx;
  Bytes m1 = m, m2 = m; bool v = XmssBase::verify(m1, sig, pk, P_W); int w = rs_verify(m2.data(), m2.size(), sig.data(), sig.size(), pk.data(), 67, P_W);
  sym_assert((w == 1) == v, "same-verdict"); if (v) sym_reach("accepted"); else sym_reach("rejected");
#elif P_MODE == 2
  XmssFast x(seed, P_H, HF, eAddrFormatType::SHA256_2X); void *r = rs_fast_new(seed.data(), 48, P_H, P_HF); sym_assert(r != 0, "constructs"); sameSk(x, r);
  const uint32_t N = 1u << P_H;
  for (uint32_t i = 0; i < N; i++) { bool sign = (sym_u8("sign") & 1) | (i == N - 1); if (sign) signBoth(x, r, m); else { x.setIndex(i + 1); sym_assert(rs_fast_set_index(r, i + 1) == i + 1, "set-index"); sameSk(x, r); } }
  signBoth(x, r, m); sym_assert(rs_fast_index(r) == N, "exhausted");
#elif P_MODE == 3
  XmssFast x(seed, P_H, HF, eAddrFormatType::SHA256_2X); void *r = rs_fast_new(seed.data(), 48, P_H, P_HF); sym_assert(r != 0, "constructs");
  const uint32_t N = 1u << P_H; uint32_t i = sym_pick("at", P_LO, P_HI);
  if (i < N) { x.setIndex(i); sym_assert(rs_fast_set_index(r, i) == i, "set-index"); } else { x.setIndex(N - 1); rs_fast_set_index(r, N - 1); signBoth(x, r, m); }
  sameSk(x, r); uint32_t bad = sym_u32("bad"); sym_assume(bad < i || bad >= N);
  sym_assert(rs_fast_set_index(r, bad) == -1, "illegal-index-refused"); sameSk(x, r);
  signBoth(x, r, m); signBoth(x, r, m);
#elif P_MODE == 4
  XmssBasic x(seed, P_H, HF, eAddrFormatType::SHA256_2X, P_W); void *r = rs_basic_new(seed.data(), 48, P_H, P_HF, P_W); sym_assert(r != 0, "constructs");
  keys(x, rs_basic_pk, rs_basic_sk, rs_basic_ext, rs_basic_address, r);
  const uint32_t N = 1u << P_H; uint32_t i = sym_pick("at", P_LO, P_HI); x.setIndex(i); sym_assert(rs_basic_set_index(r, i) == i, "set-index");
  static uint8_t b[20000];
  for (uint32_t k = 0; k < 3; k++) {
    Bytes s; bool ok = true; try { s = x.sign(m); } catch (std::exception &) { ok = false; }
    int64_t n = rs_basic_sign(r, m.data(), m.size(), b, sizeof b); sym_assert((n >= 0) == ok, "both-sign-or-both-refuse"); if (ok) eq(s, b, n, "signature");
    n = rs_basic_sk(r, b); eq(x.getSK(), b, n, "secret-key-after"); sym_assert(rs_basic_index(r) == x.getIndex() && rs_basic_remaining(r) == x.getRemainingSignatures(), "index");
  }
#elif P_MODE == 6 // WOTS+ and L-tree routine by routine, every digest, address and value
  wots_params wp; wots_set_params(&wp, 32, P_W); uint32_t rp[7]; rs_wots_params(32, P_W, rp);
  sym_assert(rp[0] == wp.len_1 && rp[1] == wp.len_2 && rp[2] == wp.len && rp[3] == wp.n && rp[4] == wp.w && rp[5] == wp.log_w && rp[6] == wp.keysize, "parameters"); sym_assert(wp.len == LEN, "parameters");
  Bytes md(32), sk(32), ps(32), in(LEN * 32), a(LEN * 32), b(LEN * 32); sym_bytes(md.data(), 32, "digest"); sym_bytes(sk.data(), 32, "sk"); sym_bytes(ps.data(), 32, "pubseed"); sym_bytes(in.data(), in.size(), "in");
  uint32_t A[8], B[8]; for (int i = 0; i < 8; i++) A[i] = B[i] = sym_u32("addr");
#if P_LO == 0
  wots_sign(HF, a.data(), md.data(), sk.data(), &wp, ps.data(), A); rs_wots_sign(P_HF, b.data(), md.data(), sk.data(), P_W, ps.data(), B);
#elif P_LO == 1
  wots_pkFromSig(HF, a.data(), in.data(), md.data(), &wp, ps.data(), A); rs_wots_pk_from_sig(P_HF, b.data(), in.data(), md.data(), P_W, ps.data(), B);
#elif P_LO == 2
  wots_pkgen(HF, a.data(), sk.data(), &wp, ps.data(), A); rs_wots_pkgen(P_HF, b.data(), sk.data(), P_W, ps.data(), B);
#else
  Bytes c = in; a.resize(32); b.resize(32); l_tree(HF, &wp, a.data(), in.data(), ps.data(), A); rs_l_tree(P_HF, b.data(), c.data(), P_W, ps.data(), B);
#endif
  sym_equal(a.data(), b.data(), a.size(), "output"); for (int i = 0; i < 8; i++) sym_assert(A[i] == B[i], "address");
#else
  Bytes e(51); sym_bytes(e.data(), 51, "ext"); e[0] = P_HF; e[1] = P_H / 2;
  XmssFast x(e); void *r = rs_fast_from_ext(e.data(), 51); sym_assert(r != 0, "imports"); keys(x, rs_fast_pk, rs_fast_sk, rs_fast_ext, rs_fast_address, r); signBoth(x, r, m);
  void *d = rs_fast_new_default(seed.data(), 48, P_H); sym_assert(d != 0, "default"); uint8_t b[200]; int64_t n = rs_fast_pk(d, b); sym_assert(n == 67 && b[0] == 1 && b[1] == P_H / 2, "default-is-shake128");
  const size_t bad[] = {0, 1, 3, 47, 49, 50, 52, 96}; Bytes big(100); sym_bytes(big.data(), 100, "big");
  for (size_t z : bad) { sym_assert(rs_fast_new(big.data(), z, P_H, P_HF) == 0, "seed-size"); sym_assert(rs_basic_new(big.data(), z, P_H, P_HF, 16) == 0, "seed-size"); sym_assert(rs_fast_from_ext(big.data(), z) == 0, "extended-seed-size"); }
  sym_assert(rs_fast_new(big.data(), 51, P_H, P_HF) == 0 && rs_fast_from_ext(big.data(), 48) == 0, "seed-size");
  for (uint32_t h = 0; h < 256; h++) if (h < 3 || (h & 1) || h > 30) { sym_assert(rs_fast_new(big.data(), 48, h, P_HF) == 0, "height"); sym_assert(rs_basic_new(big.data(), 48, h, P_HF, 16) == 0, "height"); }
  Bytes u(51); sym_bytes(u.data(), 51, "bad-ext"); uint8_t hh = (u[1] & 15) * 2; sym_assume((u[0] & 15) > 2 || u[0] >> 4 || u[1] >> 4 || hh < 3); sym_assert(rs_fast_from_ext(u.data(), 51) == 0, "undecodable-extended-seed-refused");
#endif
  sym_reach("end");
}
