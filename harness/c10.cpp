// C10: descriptor, extended seed and extended public key codec.  MODE 0 codec, MODE 1 keys rebuilt from their extended seed.
#include "leafmodel.h"
#include "qrl/xmssFast.h"
#include "qrl/xmssBasic.h"
#include "qrl/qrlHelper.h"
#ifdef P_RUST
#include "rsadapt.h"
#include "rsleaf.h"
#endif
static Bytes arb(size_t n, const char *nm) { Bytes b(n); if (n) sym_bytes(b.data(), n, nm); return b; }
static int desc_fields(QRLDescriptor d, const Bytes &b) {
  sym_assert((uint32_t)d.getHashFunction() == (b[0] & 15u), "hash-function-nibble");
  sym_assert((uint32_t)d.getSignatureType() == (b[0] >> 4), "signature-type-nibble");
  sym_assert((uint32_t)d.getHeight() == (b[1] & 15u) * 2, "height-nibble");
  sym_assert((uint32_t)d.getAddrFormatType() == (b[1] >> 4), "address-format-nibble");
  Bytes e = d.getBytes(); sym_assert(e.size() == 3, "descriptor-size");
  sym_assert(e[0] == b[0] && e[1] == b[1] && e[2] == 0, "decode-encode-restores-bits");
  return 0;
}
extern "C" void harness() {
#if P_MODE == 0
  sym_assert(QRLDescriptor::getSize() == 3, "size-constant");
  { Bytes b = arb(3, "descr"); desc_fields(QRLDescriptor::fromBytes(b), b); }
  { Bytes b = arb(51, "eseed"); desc_fields(QRLDescriptor::fromExtendedSeed(b), b); }
  { Bytes b = arb(67, "epk"); desc_fields(QRLDescriptor::fromExtendedPK(b), b); }
  { uint8_t hf = sym_u8("hf"), st = sym_u8("st"), h = sym_u8("height"), af = sym_u8("af");
    sym_assume(hf < 16 && st < 16 && af < 16 && h <= 30 && !(h & 1));
    QRLDescriptor d((eHashFunction)hf, (eSignatureType)st, h, (eAddrFormatType)af);
    sym_assert((uint32_t)d.getHashFunction() == hf && (uint32_t)d.getSignatureType() == st && d.getHeight() == h && (uint32_t)d.getAddrFormatType() == af, "getters");
    Bytes e = d.getBytes(); sym_assert(e.size() == 3, "descriptor-size");
    sym_assert(e[0] == (uint8_t)(st << 4 | hf) && e[1] == (uint8_t)(af << 4 | h >> 1) && e[2] == 0, "documented-layout");
    QRLDescriptor r = QRLDescriptor::fromBytes(e);
    sym_assert((uint32_t)r.getHashFunction() == hf, "roundtrip-hash-function"); sym_assert((uint32_t)r.getSignatureType() == st, "roundtrip-signature-type");
    sym_assert(r.getHeight() == h, "roundtrip-height"); sym_assert((uint32_t)r.getAddrFormatType() == af, "roundtrip-address-format"); }
#elif P_MODE == 2 // wrong sizes
  uint32_t n = sym_pick("n", 0, 80), k = sym_pick("k", 0, 2); const uint32_t good[] = {3, 51, 67}; Bytes b = arb(n, "bytes"), b0 = b; bool thrown = false;
  try { if (k == 0) QRLDescriptor::fromBytes(b); else if (k == 1) QRLDescriptor::fromExtendedSeed(b); else QRLDescriptor::fromExtendedPK(b); } catch (std::exception &) { thrown = true; }
  sym_assert(thrown == (n != good[k]), "exactly-the-documented-size-is-accepted"); sym_assert(b == b0, "input-unchanged");
#else
  const uint32_t af = P_FAST ? P_AF : 0; Bytes seed = arb(48, "seed");
#if P_FAST
  XmssFast a(seed, P_H, (eHashFunction)P_HF, (eAddrFormatType)af);
#else
  XmssBasic a(seed, P_H, (eHashFunction)P_HF, (eAddrFormatType)af, 16);
#endif
  Bytes es = a.getExtendedSeed(), pk = a.getPK(), ds = a.getDescriptorBytes();
  sym_assert(ds.size() == 3 && ds[0] == P_HF && ds[1] == (af << 4 | P_H / 2) && ds[2] == 0, "descriptor-of-key");
  sym_assert(es.size() == 51 && pk.size() == 67, "sizes"); sym_equal(es.data(), ds.data(), 3, "extended-seed-descriptor"); sym_equal(es.data() + 3, seed.data(), 48, "extended-seed-seed");
  sym_equal(pk.data(), ds.data(), 3, "public-key-descriptor"); Bytes sk = a.getSK(), rt = a.getRoot(), ps = a.getPKSeed(), sd = a.getSeed();
  sym_assert(sk.size() == 132 && rt.size() == 32 && ps.size() == 32 && sd.size() == 48, "sizes");
  sym_equal(pk.data() + 3, rt.data(), 32, "public-key-root"); sym_equal(pk.data() + 35, ps.data(), 32, "public-key-seed"); sym_equal(sd.data(), seed.data(), 48, "seed");
  sym_assert(a.getPublicKeySize() == 67 && a.getSecretKeySize() == 132 && a.getHeight() == P_H && a.getIndex() == 0, "advertised-sizes");
  sym_equal(rt.data(), sk.data() + 100, 32, "secret-key-root"); sym_equal(ps.data(), sk.data() + 68, 32, "secret-key-public-seed");
  Bytes s1 = a.getSKSeed(), s2 = a.getSKPRF(); sym_assert(s1.size() == 32 && s2.size() == 32, "sizes"); sym_equal(s1.data(), sk.data() + 4, 32, "secret-seed"); sym_equal(s2.data(), sk.data() + 36, 32, "secret-prf");
  XmssFast b(es); Bytes pk2 = b.getPK(), sk2 = b.getSK(), es2 = b.getExtendedSeed();
  sym_assert(pk2.size() == 67 && sk2.size() == 132 && es2.size() == 51, "sizes"); sym_equal(pk2.data(), pk.data(), 67, "rebuilt-public-key"); sym_equal(sk2.data(), sk.data(), 132, "rebuilt-secret-key"); sym_equal(es2.data(), es.data(), 51, "rebuilt-extended-seed");
  sym_assert(b.getHeight() == P_H && b.getDescriptorBytes() == ds && b.getIndex() == 0, "rebuilt-descriptor"); Bytes sd2 = b.getSeed(); sym_assert(sd2.size() == 48, "sizes"); sym_equal(sd2.data(), seed.data(), 48, "rebuilt-seed");
  // fields that could differ inside b are visible through its own descriptor
#ifndef P_RUST
  QRLDescriptor q = b.getDescriptor(); sym_assert((uint32_t)q.getHashFunction() == P_HF && q.getHeight() == P_H && (uint32_t)q.getAddrFormatType() == af && (uint32_t)q.getSignatureType() == 0, "rebuilt-descriptor-fields");
#endif
  if (af == 0) { Bytes A = a.getAddress(), B = b.getAddress(), C(39);
#ifdef P_RUST
    sym_assert(rs_get_address(pk.data(), 67, C.data()) == 39, "address-size");
#else
    C = QRLHelper::getAddress(pk);
#endif
    sym_assert(A.size() == 39 && B.size() == 39 && C.size() == 39, "address-size"); sym_equal(A.data(), B.data(), 39, "rebuilt-address"); sym_equal(A.data(), C.data(), 39, "address-of-public-key"); }
  Bytes m = arb(3, "msg"); Bytes x = a.sign(m), y = b.sign(m); sym_assert(x.size() == y.size(), "signature-size"); sym_equal(x.data(), y.data(), x.size(), "rebuilt-key-signs-identically");
#endif
  sym_reach("end");
}
