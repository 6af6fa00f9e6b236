// The Rust library behind the C++ class interface, so that one harness decides a property for both (-DP_RUST).
#pragma once
#include "spec.h"
#include "rs.h"
#include "qrl/xmssFast.h"
#include "qrl/xmssBasic.h"
#include <stdexcept>
namespace rsn {
struct Ops {
  int64_t (*pk)(void *, uint8_t *), (*sk)(void *, uint8_t *), (*ext)(void *, uint8_t *), (*address)(void *, uint8_t *); uint32_t (*index)(void *), (*remaining)(void *);
  int64_t (*set_index)(void *, uint32_t), (*sign)(void *, const uint8_t *, size_t, uint8_t *, size_t); uint32_t (*sigsize)(void *, uint32_t); int64_t (*part)(void *, uint32_t, uint8_t *); };
#define RSOPS(t) {rs_##t##_pk, rs_##t##_sk, rs_##t##_ext, rs_##t##_address, rs_##t##_index, rs_##t##_remaining, rs_##t##_set_index, rs_##t##_sign, rs_##t##_sigsize, rs_##t##_part}
static const Ops FAST = RSOPS(fast), BASIC = RSOPS(basic);
static uint8_t gSig[20000];
class XmssBase {
protected:
  void *r; const Ops *o;
  XmssBase(void *r_, const Ops *o_) : r(r_), o(o_) { if (!r) throw std::invalid_argument("refused"); }
  Bytes get(int64_t (*f)(void *, uint8_t *)) { uint8_t b[200]; int64_t n = f(r, b); if (n < 0) throw std::invalid_argument("refused"); return Bytes(b, b + n); }
  Bytes part(uint32_t w) { uint8_t b[200]; int64_t n = o->part(r, w, b); return Bytes(b, b + n); }
public:
  Bytes getPK() { return get(o->pk); } Bytes getSK() { return get(o->sk); } Bytes getExtendedSeed() { return get(o->ext); } Bytes getAddress() { return get(o->address); }
  Bytes getSKSeed() { return part(0); } Bytes getSKPRF() { return part(1); } Bytes getPKSeed() { return part(2); } Bytes getRoot() { return part(3); } Bytes getSeed() { return part(4); } Bytes getDescriptorBytes() { return part(5); }
  uint32_t getIndex() { return o->index(r); } uint32_t getRemainingSignatures() { return o->remaining(r); } uint32_t getSignatureSize(uint32_t w = 16) { return o->sigsize(r, w); }
  uint8_t getHeight() { return part(6)[0]; } uint32_t getNumberSignatures() { return rs_nsig(o == &FAST, r); }
  uint32_t setIndex(uint32_t v) { int64_t q = o->set_index(r, v); if (q < 0) throw std::invalid_argument("refused"); return (uint32_t)q; }
  Bytes sign(const Bytes &m) { int64_t n = o->sign(r, m.data(), m.size(), gSig, sizeof gSig); if (n < 0) throw std::invalid_argument("refused"); return Bytes(gSig, gSig + n); }
  static uint32_t getSecretKeySize() { return rs_const(0); } static uint32_t getPublicKeySize() { return rs_const(1); } static uint32_t calculateSignatureBaseSize(uint32_t w = 16) { return rs_base_size(w); }
  static uint8_t getHeightFromSigSize(size_t n, uint32_t w = 16) { int q = rs_height_from_sigsize(n, w); if (q < 0) throw std::invalid_argument("refused"); return (uint8_t)q; }
  static bool verify(Bytes &m, const Bytes &s, const Bytes &pk, uint32_t w = 16) { uint8_t z = 0; return rs_verify(m.empty() ? &z : m.data(), m.size(), s.data(), s.size(), pk.data(), pk.size(), w) == 1; }
};
struct XmssFast : XmssBase {
  XmssFast(const Bytes &seed, uint8_t h, eHashFunction f = eHashFunction::SHAKE_128, eAddrFormatType = eAddrFormatType::SHA256_2X, uint32_t w = 16) : XmssBase(rs_fast_new_w(seed.data(), seed.size(), h, (uint32_t)f, w), &FAST) {}
  explicit XmssFast(const Bytes &ext) : XmssBase(rs_fast_from_ext(ext.data(), ext.size()), &FAST) {}
};
struct XmssBasic : XmssBase {
  XmssBasic(const Bytes &seed, uint8_t h, eHashFunction f, eAddrFormatType, uint32_t w = 16) : XmssBase(rs_basic_new(seed.data(), seed.size(), h, (uint32_t)f, w), &BASIC) {}
};
}
#define XmssBase rsn::XmssBase
#define XmssFast rsn::XmssFast
#define XmssBasic rsn::XmssBasic
