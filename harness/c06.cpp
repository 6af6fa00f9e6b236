// C06: untrusted input is rejected safely.
// MODE 0 verify on arbitrary bytes; MODE 1 constructors; MODE 2 signature size arithmetic
#include "leafmodel.h"
#include "qrl/xmssFast.h"
#include "qrl/xmssBasic.h"
#ifdef P_RUST
#include "rsadapt.h"
#include "rsleaf.h"
#endif
static Bytes arb(size_t n, const char *nm) { Bytes b(n); if (n) sym_bytes(b.data(), n, nm); return b; }
extern "C" void harness() {
#if P_MODE == 0
  const uint32_t W = P_W, len = W == 4 ? 133 : W == 16 ? 67 : 34, base = 4 + 32 + 32 * len;
#if P_SIZES == 0 // well-sized public key, well-sized signature of each height: the real verification runs
  const uint32_t ps = 67, ss = base + 32 * P_H, ms = P_MLEN;
#elif P_SIZES == 1 // signature sizes that fit no height, or another height
  const int32_t d[] = {-(int32_t)base, -(int32_t)base + 1, -(int32_t)base + 3, -(int32_t)base + 4, -(int32_t)base + 36, -(int32_t)base + 100, -33, -32, -31, -1, 0, 1, 31, 32, 33, 64, 96, 127, 129, 32 * 5, 32 * 31, 32 * 32, 32 * 34, 32 * 62,
    32 * 254, 32 * 254 + 1, 32 * 255, 32 * 256, 32 * 258, 32 * 260, 32 * 262, 32 * 266, 32 * 512, 32 * 516};
  uint32_t k = sym_pick("size", 0, sizeof d / sizeof *d - 1);
  const uint32_t ps = 67, ss = base + d[k], ms = 1;
#else // wrong public key sizes
  const uint32_t pss[] = {0, 1, 2, 3, 4, 34, 35, 64, 65, 66, 68, 69, 99, 131}; uint32_t k = sym_pick("size", 0, 13);
  const uint32_t ps = pss[k], ss = base + 32 * 4, ms = 2;
#endif
  Bytes m = arb(ms, "msg"), sig = arb(ss, "sig"), pk = arb(ps, "pk");
#if P_SIZES == 0
  sym_nomerge(1); if (ss == base + 32 * P_H && P_H >= 4 && P_NP) { // index: representative left/right patterns
    uint32_t idx = 0; const uint32_t pat[] = {0, ~0u, 0x55555555u, 0xaaaaaaaau, 1, 0x80000000u, 0x00ffffffu, 0xff000000u};
    idx = pat[sym_pick("pat", 0, P_NP - 1)]; for (int i = 0; i < 4; i++) sig[i] = idx >> (24 - 8 * i);
  } sym_nomerge(0);
#endif
#ifdef P_HF
  if (P_HF < 3) { sym_assume((pk[0] & 15) == P_HF); pk[0] = (pk[0] & 0xf0) | P_HF; } else sym_assume((pk[0] & 15) > 2);
#endif
  Bytes m0 = m, s0 = sig, p0 = pk;
  bool r = false, thrown = false;
  try { r = XmssBase::verify(m, sig, pk, W); } catch (...) { thrown = true; }
  sym_assert(!thrown, "verify-never-throws");
  uint8_t rb = r; sym_assert_init(&rb, 1, "verdict-is-initialised"); sym_assert(rb <= 1, "verdict-is-boolean");
  sym_assert(m == m0 && sig == s0 && pk == p0, "inputs-unchanged");
  bool ok = ps == 67;
  if (ok) {
    uint32_t h = (pk[1] & 15) * 2;
    if (h < 4 || (pk[0] & 15) > 2 || (pk[0] >> 4) || ss != base + 32 * h) ok = false;
  }
  if (!ok) sym_assert(!r, "malformed-input-is-rejected");
#elif P_MODE == 1
  const uint32_t kind = sym_pick("kind", 0, 4); // 0 basic, 1 fast, 2 extended seed; 3, 4: wrong sizes
  bool thrown = false; uint8_t fmt = 0;
  if (kind < 2) {
    Bytes seed = arb(48, "seed"); uint8_t h = sym_pick("height", 0, 255), hf = sym_u8("hf");
    bool badh = h < 4 || (h & 1) || h > 30;
#ifdef P_RUST // an unknown hash function cannot be written in Rust
    sym_assume(badh);
#endif
    if (badh) sym_assume(hf < 16); else { if (h > 4 && h < 30) sym_assume(0); sym_assume(hf > 2 && hf < 16); hf = (uint8_t)sym_concretize(hf); }
    try { if (kind == 0) XmssBasic x(seed, h, (eHashFunction)hf, eAddrFormatType::SHA256_2X, 16); else XmssFast x(seed, h, (eHashFunction)hf, eAddrFormatType::SHA256_2X); } catch (std::exception &) { thrown = true; }
    sym_assert(thrown, "unsupported-height-or-hash-function-throws");
  } else if (kind == 2) {
    Bytes e = arb(51, "eseed"); sym_assume((e[0] & 15) > 2 || (e[0] >> 4) != 0 || (e[1] & 15) < 2);
    try { XmssFast x(e); } catch (std::exception &) { thrown = true; }
    sym_assert(thrown, "unsupported-extended-seed-throws");
  } else {
    const uint32_t sz[] = {0, 1, 3, 16, 32, 47, 48, 49, 50, 51, 52, 64, 96}; uint32_t n = sz[sym_pick("n", 0, 12)]; Bytes s = arb(n, "seed");
    if (kind == 3) { sym_assume(n != 51); try { XmssFast x(s); } catch (std::exception &) { thrown = true; } }
    else { sym_assume(n != 48); uint32_t b = sym_pick("b", 0, 1);
      try { if (b) XmssBasic x(s, 4, eHashFunction::SHA2_256, eAddrFormatType::SHA256_2X, 16); else XmssFast x(s, 4, eHashFunction::SHAKE_256, eAddrFormatType::SHA256_2X); } catch (std::exception &) { thrown = true; } }
    sym_assert(thrown, "wrong-seed-size-throws");
  }
#elif P_MODE == 3 // a genuine key and signature; the descriptor is then changed: an unknown scheme, hash function or height
  Bytes seed = arb(48, "seed"), m = arb(3, "msg");
  XmssBasic x(seed, P_H, (eHashFunction)P_HF, eAddrFormatType::SHA256_2X, 16);
  Bytes sig = x.sign(m), pk = x.getPK(); sym_assert(XmssBase::verify(m, sig, pk, 16), "genuine-signature-accepted");
  uint32_t kind = sym_pick("kind", 0, 2); uint8_t d0 = P_HF, d1 = pk[1]; // another known hash function: C03
  if (kind == 0) { uint8_t t = sym_u8("t"); sym_assume(t >= 1 && t < 16); d0 |= t << 4; }
  else if (kind == 1) { d0 = sym_u8("d0"); sym_assume((d0 & 15) > 2); }
  else { d1 = sym_u8("d1"); sym_assume((d1 & 15) * 2 != P_H); d0 |= sym_u8("t") << 4; }
  pk[0] = d0; pk[1] = d1; bool r = true, thrown = false;
  try { r = XmssBase::verify(m, sig, pk, 16); } catch (...) { thrown = true; }
  sym_assert(!thrown && !r, "altered-descriptor-is-rejected");
#else
  const uint32_t W = P_W, len = W == 4 ? 133 : W == 16 ? 67 : 34, base = 4 + 32 + 32 * len;
  sym_assert(XmssBase::calculateSignatureBaseSize(W) == base, "base-size");
  uint32_t n = sym_u32("n"); sym_assume(n <= base + 32 * 255); bool thrown = false; uint8_t h = 0;
  try { h = XmssBase::getHeightFromSigSize(n, W); } catch (std::exception &) { thrown = true; }
  bool good = n >= base && (n - base) % 32 == 0;
  if (good) { sym_assert(!thrown, "well-formed-size-accepted"); sym_assert(h == (n - base) / 32, "height-from-size"); }
  else sym_assert(thrown, "malformed-size-throws");
#endif
  sym_reach("end");
}
