// C18: the JavaScript interface, called by exported name (lib/stubs/emscripten/bind.h).
// MODE 0 XMSS keys, 1 restoring from arbitrary text, 2 address and helper functions, 3 Dilithium, 4 Kyber
#include "leafmodel.h"
#include "qrl/misc.h"
#include "qrl/hashing.h"
#include "qrl/qrlHelper.h"
#include <string>
#if P_MODE == 3
#include "jswrapper/jsdilwrapper.cpp"
#elif P_MODE == 4
#include "jswrapper/jskybwrapper.cpp"
#else
#include "jswrapper/jsqrlwrapper.cpp"
#endif
using verif_js::Val;
static Val call(const char *cls, const char *n, void *self, const Val *a) { verif_js::Fn *f = verif_js::find(cls, n); sym_assert(f != nullptr, "exported"); sym_assert(f->member == (self != nullptr), "kind-of-export"); return f->call(self, a); }
static Val fn(const char *n, const Val &a = Val(), const Val &b = Val()) { Val v[2] = {a, b}; return call("", n, nullptr, v); }
static Val sfn(const char *c, const char *n, const Val &a = Val(), const Val &b = Val(), const Val &d = Val(), const Val &e = Val(), const Val &f = Val()) { Val v[5] = {a, b, d, e, f}; return call(c, n, nullptr, v); }
static Val meth(const char *c, const Val &o, const char *n, const Val &a = Val()) { return call(c, n, o.p, &a); }
static Bytes arb(size_t n, const char *nm) { Bytes b(n); if (n) sym_bytes(b.data(), n, nm); return b; }
static void same(const Bytes &a, const Bytes &b, const char *id) { sym_assert(a.size() == b.size(), id); if (a.size() == b.size() && a.size()) sym_equal(a.data(), b.data(), a.size(), id); }
static void same(const std::string &a, const std::string &b, const char *id) { sym_assert(a.size() == b.size(), id); if (a.size() == b.size() && a.size()) sym_equal(a.data(), b.data(), a.size(), id); }
static std::string hexs(const Bytes &b) { std::string s; for (uint8_t x : b) for (int k = 0; k < 2; k++) { unsigned q = k ? x & 15 : x >> 4; s.push_back(q > 9 ? 'a' + q - 10 : '0' + q); } return s; }
// long buffers: symbolic at both ends, in the middle and at every 61st byte, a fixed pattern elsewhere
static Bytes pat(size_t n, const char *nm) { Bytes b(n); for (size_t i = 0; i < n; i++) { b[i] = (uint8_t)(i * 37 + n + i / 256); if (i < 2 || i + 2 >= n || i == n / 2 || i % 61 == 0) sym_bytes(&b[i], 1, nm); } return b; }
#if P_MODE < 2
static void sameKey(const char *cls, const Val &k, XmssBase &r, bool fast) {
  sym_assert(meth(cls, k, "getIndex").i == r.getIndex(), "index"); sym_assert(meth(cls, k, "getHeight").i == r.getHeight(), "height");
  same(meth(cls, k, "getPK").s, hexs(r.getPK()), "public-key-text"); same(meth(cls, k, "getHexSeed").s, hexs(r.getExtendedSeed()), "hex-seed");
  if (!fast) return;
  same(meth(cls, k, "getPKRaw").b, r.getPK(), "public-key"); same(meth(cls, k, "getAddressRaw").b, r.getAddress(), "address"); same(meth(cls, k, "getAddress").s, "Q" + hexs(r.getAddress()), "address-text");
  same(meth(cls, k, "getMnemonic").s, bin2mnemonic(r.getExtendedSeed()), "mnemonic");
}
#endif
#if P_MODE >= 3
// a freshly generated pair, and the module's own hex helper
static void emptyAndHelpers(const char *cls, size_t pk, size_t sk) {
  Val e = sfn(cls, "empty"); Bytes p = meth(cls, e, "getPKRaw").b, s = meth(cls, e, "getSKRaw").b; sym_assert(p.size() == pk && s.size() == sk, "generated-key-sizes");
  same(meth(cls, e, "getPK").s, hexs(p), "generated-public-key-text"); same(meth(cls, e, "getSK").s, hexs(s), "generated-secret-key-text");
  for (size_t n : {0, 1, 2, 5, 33}) { Bytes v = arb(n, "bytes"); same(fn("bin2hstr", v).s, hexs(v), "hex-text"); }
}
#endif
extern "C" void harness() {
#if P_MODE == 0
  Bytes seed = arb(48, "seed"), msg = arb(4, "msg"); const uint32_t hf = sym_pick("hf", 0, 2);
#if P_FAST
  XmssFast ref(seed, P_H, (eHashFunction)hf); Val k = sfn("Xmss", "fromParameters", seed, P_H, hf); sameKey("Xmss", k, ref, true);
  std::string adr = meth("Xmss", k, "getAddress").s; sym_assert(fn("validateAddress", adr).i == 1, "own-address-is-valid"); sym_assert(fn("validateAddressRaw", meth("Xmss", k, "getAddressRaw").b).i == 1, "own-address-is-valid");
  sym_assert(fn("getHashFunction", adr).i == hf, "address-hash-function"); sym_assert(fn("getSignatureType", adr).i == 0, "address-signature-type"); sym_assert(fn("getHeight", adr).i == P_H, "address-height");
  same(fn("getAddress", meth("Xmss", k, "getPK").s).s, adr.substr(1), "address-of-public-key"); same(fn("getAddressRaw", meth("Xmss", k, "getPKRaw").b).b, meth("Xmss", k, "getAddressRaw").b, "address-of-public-key");
  Val a = sfn("Xmss", "fromHexSeed", meth("Xmss", k, "getHexSeed").s), b = sfn("Xmss", "fromMnemonic", meth("Xmss", k, "getMnemonic").s); sameKey("Xmss", a, ref, true); sameKey("Xmss", b, ref, true);
  const uint32_t j = sym_pick("jump", 0, (1 << P_H) - 1); ref.setIndex(j); Val ji(j);
  sym_assert(meth("Xmss", k, "setIndex", ji).i == j && meth("Xmss", a, "setIndex", ji).i == j && meth("Xmss", b, "setIndex", ji).i == j, "set-index");
  Bytes s = ref.sign(msg); same(meth("Xmss", k, "sign", msg).b, s, "signature"); same(meth("Xmss", a, "sign", msg).b, s, "signature"); same(meth("Xmss", b, "sign", msg).b, s, "signature");
  sym_assert(meth("Xmss", k, "getIndex").i == j + 1, "index");
#else
  static const uint32_t WS[] = {4, 16, 256}; const uint32_t w = WS[sym_pick("w", 0, 2)];
  XmssBasic ref(seed, P_H, (eHashFunction)hf, eAddrFormatType::SHA256_2X, w); Val k = sfn("XmssBasic", "fromParameters", seed, P_H, hf, 0, w); sameKey("XmssBasic", k, ref, false);
  const uint32_t j = sym_pick("jump", 0, (1 << P_H) - 1); ref.setIndex(j); sym_assert(meth("XmssBasic", k, "setIndex", Val(j)).i == j, "set-index");
  Bytes s = ref.sign(msg); same(meth("XmssBasic", k, "sign", msg).b, s, "signature"); sym_assert(meth("XmssBasic", k, "getIndex").i == j + 1, "index");
#endif
#elif P_MODE == 1 // any extended seed, as text
#if P_SIZES == 0
  Bytes e = arb(51, "eseed"); const uint32_t how = sym_pick("how", 0, 1); { const uint32_t hf = sym_pick("hf", 0, 3), hh = sym_pick("hh", 0, 2); if (hf < 3) { sym_assume((e[0] & 15) == hf && (e[1] & 15) == hh); e[0] = (e[0] & 0xf0) | hf; } else sym_assume((e[0] & 15) > 2 && (e[1] & 15) == hh); e[1] = (e[1] & 0xf0) | hh; } bool t = false, rt = false; Val k;
  std::string text = how ? bin2mnemonic(e) : hexs(e); XmssFast *ref = nullptr; Bytes e0 = e;
  try { ref = new XmssFast(e); } catch (std::exception &) { rt = true; } try { k = sfn("Xmss", how ? "fromMnemonic" : "fromHexSeed", text); } catch (std::exception &) { t = true; }
  if (rt) { sym_assert(t, "unsupported-seed-refused"); sym_reach("refused"); }
  else if ((e0[1] >> 4) == 0) { sym_assert(!t, "supported-seed-accepted"); if (!t) { same(meth("Xmss", k, "getPKRaw").b, ref->getPK(), "public-key"); same(meth("Xmss", k, "getAddressRaw").b, ref->getAddress(), "address"); } sym_reach("restored"); }
#else
  static const uint32_t N[] = {0, 2, 4, 6, 96, 98, 100, 101, 103, 104, 105, 134}; const uint32_t n = N[sym_pick("n", 0, 11)]; std::string s(n, 0); if (n) sym_bytes(&s[0], n, "text"); bool t = false;
  try { sfn("Xmss", "fromHexSeed", s); } catch (std::exception &) { t = true; } sym_assert(t, "wrong-size-refused");
  static const uint32_t M[] = {0, 3, 6, 45, 48, 54, 57}; Bytes v = arb(M[sym_pick("m", 0, 6)], "bytes"); std::string m = bin2mnemonic(v); t = false;
  try { sfn("Xmss", "fromMnemonic", m); } catch (std::exception &) { t = true; } sym_assert(t, "wrong-size-refused");
#endif
#elif P_MODE == 2
#if P_PART == 0 // well-formed address texts of any bytes
  static const uint32_t N[] = {3, 4, 7, 38, 39, 40, 51, 67}; const uint32_t n = N[sym_pick("n", 0, 7)]; Bytes a = arb(n, "address"); std::string s = "Q" + hexs(a); Bytes d3(a.begin(), a.begin() + 3);
  sym_assert(fn("validateAddress", s).i == (uint64_t)QRLHelper::addressIsValid(a), "text-and-bytes-agree"); sym_assert(fn("validateAddressRaw", a).i == (uint64_t)QRLHelper::addressIsValid(a), "text-and-bytes-agree");
  bool rt = false; uint32_t hf = 0, st = 0, h = 0; try { auto d = QRLDescriptor::fromBytes(d3); hf = (uint32_t)d.getHashFunction(); st = (uint32_t)d.getSignatureType(); h = d.getHeight(); } catch (std::exception &) { rt = true; }
  auto field = [&](const char *nm, uint32_t e) { bool t = false; uint64_t r = 0; try { r = fn(nm, s).i; } catch (std::exception &) { t = true; } sym_assert(t == rt, "undecodable-descriptor-refused"); if (!t && !rt) sym_assert(r == e, "descriptor-field"); };
  field("getHashFunction", hf); field("getSignatureType", st); field("getHeight", h);
#elif P_PART == 1 // any text
  for (uint32_t n = 0; n <= P_N; n++) { std::string s(n, 0); if (n) sym_bytes(&s[0], n, "text"); if (n) s[0] = 'Q'; bool t = false, rt = n < 7; Bytes d; uint64_t r = 2; std::string s0 = s;
    if (!rt) try { d = hstr2bin(s.substr(1)); } catch (std::exception &) { rt = true; }
    try { r = fn("validateAddress", s).i; } catch (std::exception &) { t = true; } sym_assert(t == rt, "exactly-hex-text-accepted"); if (!t) sym_assert(r == 0, "too-short-to-be-valid"); same(s, s0, "input-unchanged"); }
#elif P_PART == 2 // public keys as text
  Bytes pk = arb(67, "pk"); bool t = false, rt = false; Bytes a; std::string r; try { a = QRLHelper::getAddress(pk); } catch (std::exception &) { rt = true; } try { r = fn("getAddress", hexs(pk)).s; } catch (std::exception &) { t = true; }
  sym_assert(t == rt, "unsupported-format-refused"); if (!t && !rt) { same(r, hexs(a), "address-text"); sym_assert(fn("validateAddress", "Q" + r).i == 1, "derived-address-is-valid"); }
  static const uint32_t N[] = {0, 1, 2, 66, 68, 132, 133, 135, 136}; const uint32_t n = N[sym_pick("n", 0, 8)]; std::string s(n, 0); if (n) sym_bytes(&s[0], n, "text"); t = false; try { fn("getAddress", s); } catch (std::exception &) { t = true; } sym_assert(t, "wrong-size-refused");
#else // helpers
  for (size_t n : {0, 1, 3, 33, 48}) {
    Bytes v = arb(n, "bytes"); same(fn("sha2_256", v).b, sha2_256(v), "sha256"); for (unsigned ol : {0u, 1u, 32u, 64u, 200u}) same(fn("shake128", Val(ol), v).b, shake128(ol, v), "shake128");
    same(fn("bin2hstr", v).s, hexs(v), "hex-text"); same(fn("hstr2bin", hexs(v)).b, v, "hex-value"); std::string s(v.begin(), v.end()); same(fn("str2bin", s).b, v, "bytes-of-string");
    if (n % 3 == 0) { std::string m = fn("bin2mnemonic", v).s; same(m, bin2mnemonic(v), "mnemonic"); same(fn("mnemonic2bin", m).b, v, "mnemonic-value"); } else { bool t = false; try { fn("bin2mnemonic", v); } catch (std::exception &) { t = true; } sym_assert(t, "only-multiples-of-three"); }
  }
  for (auto &e : emscripten::verif_enums()) { uint64_t x = e.first == "eHashFunction.SHAKE_128" ? 1 : e.first == "eHashFunction.SHAKE_256" ? 2 : 0; sym_assert(e.second == x, "enumeration-value"); }
  sym_assert(emscripten::verif_enums().size() >= 5, "enumeration-exported");
#endif
#elif P_MODE == 3
  const size_t PK = CRYPTO_PUBLICKEYBYTES, SK = CRYPTO_SECRETKEYBYTES, SB = CRYPTO_BYTES;
  Bytes pk = pat(PK, "pk"), sk = pat(SK, "sk"); Val d = sfn("Dilithium", "fromKeys", hexs(pk), hexs(sk)); Dilithium ref(pk, sk);
  same(meth("Dilithium", d, "getPKRaw").b, pk, "public-key"); same(meth("Dilithium", d, "getSKRaw").b, sk, "secret-key"); same(meth("Dilithium", d, "getPK").s, hexs(pk), "public-key-text"); same(meth("Dilithium", d, "getSK").s, hexs(sk), "secret-key-text");
  for (size_t n : {P_N}) {
    Bytes m = pat(n, "msg"); Bytes s = ref.sign(m); same(meth("Dilithium", d, "sign", hexs(m)).s, hexs(s), "signature-text"); same(sfn("Dilithium", "extract_message", hexs(s)).s, hexs(m), "message-part");
    Bytes x = pat(SB + n, "sm"), o; bool ok = Dilithium::sign_open(o, x, pk); std::string r = sfn("Dilithium", "sign_open", std::string(), hexs(x), hexs(pk)).s; if (ok) { sym_assert(r.size() >= 2 * n, "message-returned"); if (n && r.size() >= 2 * n) { std::string e = hexs(o); sym_equal(r.data(), e.data(), 2 * n, "message-returned"); } }
  }
  bool t = false; try { sfn("Dilithium", "fromKeys", hexs(Bytes(PK - 1)), hexs(sk)); } catch (std::exception &) { t = true; } sym_assert(t, "wrong-size-refused");
  emptyAndHelpers("Dilithium", PK, SK);
  t = false; try { sfn("Dilithium", "extract_message", hexs(Bytes(SB - 1))); } catch (std::exception &) { t = true; } sym_assert(t, "wrong-size-refused");
#else
  const size_t KP = KYBER_PUBLICKEYBYTES, KS = KYBER_SECRETKEYBYTES, KC = KYBER_CIPHERTEXTBYTES;
  Bytes pk = pat(KP, "pk"), sk = pat(KS, "sk"), other = pat(KP, "other"), ct = pat(KC, "ct"); Val k = sfn("Kyber", "fromKeys", hexs(pk), hexs(sk)); Kyber ref(pk, sk);
  same(meth("Kyber", k, "getPKRaw").b, pk, "public-key"); same(meth("Kyber", k, "getSKRaw").b, sk, "secret-key"); same(meth("Kyber", k, "getPK").s, hexs(pk), "public-key-text"); same(meth("Kyber", k, "getSK").s, hexs(sk), "secret-key-text");
  bool r = ref.kem_encode(other); sym_assert(meth("Kyber", k, "kem_encode", hexs(other)).i == (uint64_t)r, "encode-verdict"); same(meth("Kyber", k, "getCypherText").s, hexs(ref.getCypherText()), "ciphertext-text"); same(meth("Kyber", k, "getMyKey").s, hexs(ref.getMyKey()), "shared-key-text");
  r = ref.kem_decode(ct); sym_assert(meth("Kyber", k, "kem_decode", hexs(ct)).i == (uint64_t)r, "decode-verdict"); same(meth("Kyber", k, "getMyKey").s, hexs(ref.getMyKey()), "shared-key-text");
  emptyAndHelpers("Kyber", KP, KS);
#endif
  sym_reach("end");
}
