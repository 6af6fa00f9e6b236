// The Rust library's own codecs and helpers against the documented behaviour (C09, C10, C11, C14, C15).
#include "spec.h"
#include "rs.h"
#include <string>
static Bytes arb(size_t n, const char *nm) { Bytes b(n); if (n) sym_bytes(b.data(), n, nm); return b; }
static Bytes H(const char *fn, size_t n, const Bytes &in) { Bytes r(n); sym_hash(fn, r.data(), n, in.data(), in.size()); return r; }
static void le32(Bytes &b, uint32_t v) { for (int i = 0; i < 4; i++) b.push_back(v >> (8 * i)); }
static void same(const uint8_t *a, int64_t n, const Bytes &b, const char *id) { sym_assert(n == (int64_t)b.size(), id); if (n == (int64_t)b.size() && n) sym_equal(a, b.data(), n, id); }
static void ref(int hf, uint8_t *out, uint32_t n, uint32_t type, const Bytes &k, const uint8_t *m, size_t ml) {
  Bytes b(n + k.size() + ml); b[n - 1] = type; if (k.size()) memcpy(&b[n], k.data(), k.size()); if (ml) memcpy(&b[n + k.size()], m, ml);
  sym_hash(SPEC_HASH[hf], out, n, b.data(), b.size());
}
static uint8_t rnd[256]; static size_t rndn; static int rndcalls;
extern "C" void rs_random(uint8_t *o, size_t n) { rndcalls++; if (n > sizeof rnd) n = sizeof rnd; if (n) { sym_bytes(rnd, n, "osrng"); memcpy(o, rnd, n); } rndn = n; }
static bool decodable(const Bytes &b) { bool h = (b[0] & 15) < 3, s = (b[0] >> 4) == 0, a = (b[1] >> 4) == 0; return h & s & a; }
extern "C" void harness() {
#if P_MODE == 0 // C09: hashed strings
  const int HF = P_HF; Spec S(HF, 16, 4); uint8_t r[64], o[64 + 8]; Bytes key = arb(32, "key"), in = arb(64, "in");
  memset(o, 0xA5, sizeof o); ref(HF, r, 32, 3, key, in.data(), 32); sym_assert(rs_prf(HF, o, in.data(), key.data(), 32) == 0, "prf-succeeds"); sym_equal(o, r, 32, "prf"); for (int i = 32; i < 40; i++) sym_assert(o[i] == 0xA5, "exact-output-size");
  std::vector<uint32_t> L; for (uint32_t l = 0; l <= 300; l++) L.push_back(l); for (uint32_t l : {1000u, 4096u, 65535u, 65536u, 70000u}) L.push_back(l); Bytes k3 = arb(96, "hkey");
  for (uint32_t l : L) { Bytes m = arb(l, "msg"); memset(o, 0xA5, sizeof o); ref(HF, r, 32, 2, k3, m.data(), l); sym_assert(rs_h_msg(HF, o, m.data(), l, k3.data(), 96, 32) == 0, "hmsg-succeeds"); sym_equal(o, r, 32, "hmsg"); for (int i = 32; i < 40; i++) sym_assert(o[i] == 0xA5, "exact-output-size"); }
  uint32_t w[8]; for (auto &x : w) x = sym_u32("addr"); Spec::Adr A; memcpy(A.a, w, 32); uint32_t ad[8]; N32 x, y; memcpy(x.b, in.data(), 32); memcpy(y.b, in.data() + 32, 32);
  N32 f = S.F(x, key.data(), A), h = S.node(x, y, key.data(), A);
  memcpy(ad, w, 32); sym_assert(rs_hash_f(HF, o, in.data(), key.data(), ad, 32) == 0, "hashf-succeeds"); sym_equal(o, f.b, 32, "hashf"); for (int i = 0; i < 7; i++) sym_assert(ad[i] == w[i], "address-kept");
  memcpy(ad, w, 32); sym_assert(rs_hash_h(HF, o, in.data(), key.data(), ad, 32) == 0, "hashh-succeeds"); sym_equal(o, h.b, 32, "hashh"); for (int i = 0; i < 7; i++) sym_assert(ad[i] == w[i], "address-kept");
  static const uint32_t KL[] = {0, 1, 32, 33, 64, 96}, IL[] = {0, 1, 32, 71, 136, 168};
  for (uint32_t kl : KL) for (uint32_t il : IL) for (uint32_t n = 32; n <= 64; n += 32) {
    if (n == 64 && HF == 0) continue;
    Bytes k = arb(kl, "gkey"), m = arb(il, "gin"); uint32_t t = sym_u8("type"); memset(o, 0xA5, sizeof o);
    sym_assert(rs_core_hash(HF, o, t, k.data(), kl, m.data(), il, n) == 0, "core-succeeds"); ref(HF, r, n, t, k, m.data(), il); sym_equal(o, r, n, "core");
  }
#elif P_MODE == 1 // C09: unsupported sizes are reported
  Bytes key = arb(192, "key"), in = arb(128, "in"); uint8_t o[192]; memset(o, 0, sizeof o);
  static const uint32_t NS[] = {16, 24, 32, 33, 48, 63, 64}; uint32_t n = NS[sym_pick("n", 0, 6)], hf = sym_pick("hf", 0, 2); sym_assume(n != 32 && !(hf && n == 64));
  sym_assert(rs_core_hash(hf, o, 3, key.data(), n, in.data(), 32, n) != 0, "unsupported-core-is-reported");
  sym_assert(rs_prf(hf, o, in.data(), key.data(), n) != 0, "unsupported-prf-is-reported");
  sym_assert(rs_h_msg(hf, o, in.data(), 5, key.data(), 3 * n, n) != 0, "unsupported-hmsg-is-reported"); sym_assert(rs_h_msg(hf, o, in.data(), 5, key.data(), 64, 32) != 0, "wrong-key-length-is-reported");
#elif P_MODE == 2 // C10: descriptor codec, every content, every size
  static const uint32_t good[] = {3, 51, 67}; uint8_t o[16];
  for (uint32_t k = 0; k < 3; k++) for (uint32_t n = 0; n <= 80; n++) {
    if (n != good[k]) { Bytes b = arb(n, "bytes"); sym_assert(rs_descr_decode(b.data(), n, k, o) == 0, "exactly-the-documented-size-is-accepted"); continue; }
    Bytes b = arb(n, "descr"); int v = rs_descr_decode(b.data(), n, k, o); sym_assert((v != 0) == decodable(b), "decodable-exactly-when-every-field-is-known");
    if (v) { sym_assert(v == 3 && o[0] == (b[0] & 15) && o[1] == b[0] >> 4 && o[2] == (b[1] & 15) * 2 && o[3] == b[1] >> 4, "fields"); sym_assert(o[4] == b[0] && o[5] == b[1] && o[6] == 0, "decode-encode-restores-bits"); sym_reach("decoded"); } else sym_reach("refused");
  }
  for (uint32_t hf = 0; hf < 3; hf++) for (uint32_t h = 0; h <= 30; h += 2) {
    int v = rs_descr_new(hf, h, o); sym_assert(v == 3 && o[0] == hf && o[1] == 0 && o[2] == h && o[3] == 0, "getters"); sym_assert(o[4] == hf && o[5] == h / 2 && o[6] == 0, "documented-layout");
    uint8_t q[16]; sym_assert(rs_descr_decode(o + 4, 3, 0, q) == 3 && q[0] == hf && q[1] == 0 && q[2] == h && q[3] == 0, "roundtrip");
  }
#elif P_MODE == 3 // C11: derivation
  Bytes pk = arb(67, "pk"); uint8_t a[64], r[39], t[32]; int64_t n = rs_get_address(pk.data(), 67, a); sym_assert((n >= 0) == decodable(pk), "supported-format-succeeds");
  if (n >= 0) {
    sym_assert(n == 39, "address-size"); r[0] = pk[0]; r[1] = pk[1]; r[2] = 0; sym_hash("sha256", r + 3, 32, pk.data(), 67); sym_hash("sha256", t, 32, r, 35); memcpy(r + 35, t + 28, 4);
    sym_equal(a, r, 39, "documented-address"); sym_assert(rs_address_is_valid(a, 39) == 1, "derived-address-is-valid"); sym_reach("derived");
  } else sym_reach("refused");
  for (uint32_t z = 0; z <= 100; z++) if (z != 67) { Bytes b = arb(z, "other"); sym_assert(rs_get_address(b.data(), z, a) < 0, "wrong-size-is-refused"); }
#elif P_MODE == 4 // C11: validation
  uint32_t n = sym_pick("n", 0, 80); Bytes a = arb(n, "address"); bool v = rs_address_is_valid(a.data(), n), ok = false;
  if (n == 39) { uint8_t t[32]; sym_hash("sha256", t, 32, a.data(), 35); bool c = decodable(a); for (int i = 0; i < 4; i++) c &= t[28 + i] == a[35 + i]; ok = c; }
  sym_assert(v == ok, "valid-iff-size-format-checksum"); if (n == 39) { if (ok) sym_reach("accepted"); else sym_reach("rejected"); }
#elif P_MODE == 5 // C14: helpers
  uint8_t o[512];
  for (size_t il : {0, 1, 31, 32, 33, 48, 64, 135, 136, 168, 200, 500}) {
    Bytes in = arb(il, "in");
    for (size_t ol : {0, 1, 31, 32, 48, 64, 96, 136, 168, 300}) { same(o, rs_helper(0, ol, in.data(), il, o), H("shake128", ol, in), "shake128"); same(o, rs_helper(1, ol, in.data(), il, o), H("shake256", ol, in), "shake256"); }
    same(o, rs_helper(2, 0, in.data(), il, o), H("sha256", 32, in), "sha256");
    Bytes e = in; for (size_t n = 1; n <= 5; n++) { e = H("sha256", 32, e); same(o, rs_sha2_256_n(in.data(), il, n, o), e, "iterated-sha256"); }
    sym_assert(rs_sha2_256_n(in.data(), il, 0, o) < 0, "zero-iterations-refused");
  }
  Bytes in = arb(77, "in"), e = in; for (size_t n = 1; n <= 300; n++) { e = H("sha256", 32, e); if (n == 100 || n == 255 || n == 256 || n == 257 || n == 300) same(o, rs_sha2_256_n(in.data(), 77, n, o), e, "iterated-sha256"); }
#elif P_MODE == 6 // C14: chain seeds
  Bytes seed = arb(P_SL, "seed"); uint32_t shift = sym_u32("shift"); static uint8_t o[32 * 600 + 32];
  for (uint32_t n : {0u, 1u, 2u, 5u, 600u}) {
    int64_t c = rs_hash_chain(seed.data(), P_SL, shift, n, o); sym_assert(c == n, "chain-length");
    for (uint32_t i = 0; i < n && c == n; i++) { Bytes in = seed; le32(in, shift); le32(in, i); same(o + 32 * i, 32, H("shake256", 32, in), "chain-seed"); }
  }
#elif P_MODE == 7 // C14: random seeds
  for (uint32_t n : {0u, 1u, 16u, 32u, 48u, 51u, 64u, 100u}) for (uint32_t el : {0u, 1u, 5u, 32u, 100u}) {
    std::string ent(el, 0); if (el) sym_bytes(&ent[0], el, "entropy"); uint8_t o[128]; rndn = rndcalls = 0; int64_t c = rs_random_seed(n, (const uint8_t *)ent.data(), el, o);
    sym_assert(rndn == n && rndcalls == 1, "exactly-the-requested-random-bytes"); Bytes in(rnd, rnd + n); in.insert(in.end(), ent.begin(), ent.end()); same(o, c, H("shake256", n, in), "random-seed");
  }
#endif
  sym_reach("end");
}
