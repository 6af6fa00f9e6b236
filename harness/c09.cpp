// C09: keyed hash functions.  MODE 0: hashed strings are exactly tag || key || input; MODE 1: unsupported combinations;
// MODE 2: calls that differ anywhere hash different strings (llsym --injective).
#include "spec.h"
#include "xmss-alt/eHashFunctions.h"
#include "xmss-alt/hash.h"
int core_hash(eHashFunction, unsigned char *, const unsigned int, const unsigned char *, unsigned int, const unsigned char *, unsigned long long, unsigned int);
static Bytes arb(size_t n, const char *nm) { Bytes b(n); if (n) sym_bytes(b.data(), n, nm); return b; }
static void ref(int hf, uint8_t *out, uint32_t n, uint32_t type, const Bytes &k, const uint8_t *m, size_t ml) {
  Bytes b(n + k.size() + ml); b[n - 1] = type; if (k.size()) memcpy(&b[n], k.data(), k.size()); if (ml) memcpy(&b[n + k.size()], m, ml);
  sym_hash(SPEC_HASH[hf], out, n, b.data(), b.size());
}
extern "C" void harness() {
#if P_MODE == 0
  const int HF = P_HF; const eHashFunction hf = (eHashFunction)P_HF; Spec S(HF, 16, 4); uint8_t r[64], o[64 + 8];
  Bytes key = arb(32, "key"), in = arb(64, "in"), in0 = in, ky0 = key;
  { memset(o, 0xA5, sizeof o); int rc = prf(hf, o, in.data(), key.data(), 32); ref(HF, r, 32, 3, key, in.data(), 32); sym_assert(rc == 0, "prf-succeeds"); sym_equal(o, r, 32, "prf"); for (int i = 32; i < 40; i++) sym_assert(o[i] == 0xA5, "exact-output-size"); }
  // message hash, every listed length
  std::vector<uint32_t> L; for (uint32_t l = 0; l <= 300; l++) L.push_back(l); for (uint32_t l : {1000u, 4096u, 65535u, 65536u, 70000u}) L.push_back(l);
  Bytes k3 = arb(96, "hkey");
  for (uint32_t l : L) { Bytes m = arb(l, "msg"); memset(o, 0xA5, sizeof o); int rc = h_msg(hf, o, m.data(), l, k3.data(), 96, 32); ref(HF, r, 32, 2, k3, m.data(), l); sym_assert(rc == 0, "hmsg-succeeds"); sym_equal(o, r, 32, "hmsg"); for (int i = 32; i < 40; i++) sym_assert(o[i] == 0xA5, "exact-output-size"); }
  // chain and tree hash, any address, separate and in-place output
  uint32_t w[8]; for (auto &x : w) x = sym_u32("addr");
  Spec::Adr A; memcpy(A.a, w, 32); uint32_t ad[8];
  N32 x; memcpy(x.b, in.data(), 32); N32 y; memcpy(y.b, in.data() + 32, 32);
  N32 f = S.F(x, key.data(), A), h = S.node(x, y, key.data(), A);
  memcpy(ad, w, 32); sym_assert(hash_f(hf, o, in.data(), key.data(), ad, 32) == 0, "hashf-succeeds"); sym_equal(o, f.b, 32, "hashf");
  for (int i = 0; i < 7; i++) sym_assert(ad[i] == w[i], "address-kept");
  { Bytes b = in; memcpy(ad, w, 32); hash_f(hf, b.data(), b.data(), key.data(), ad, 32); sym_equal(b.data(), f.b, 32, "hashf-in-place"); sym_equal(b.data() + 32, in.data() + 32, 32, "hashf-in-place-rest"); }
  memcpy(ad, w, 32); memset(o, 0xA5, sizeof o); sym_assert(hash_h(hf, o, in.data(), key.data(), ad, 32) == 0, "hashh-succeeds"); sym_equal(o, h.b, 32, "hashh"); for (int i = 32; i < 40; i++) sym_assert(o[i] == 0xA5, "exact-output-size");
  for (int i = 0; i < 7; i++) sym_assert(ad[i] == w[i], "address-kept");
  { Bytes b = in; memcpy(ad, w, 32); hash_h(hf, b.data(), b.data(), key.data(), ad, 32); sym_equal(b.data(), h.b, 32, "hashh-in-place"); }
  { Bytes b = in; memcpy(ad, w, 32); hash_h(hf, b.data() + 32, b.data(), key.data(), ad, 32); sym_equal(b.data() + 32, h.b, 32, "hashh-in-place-right"); sym_equal(b.data(), in.data(), 32, "hashh-in-place-left-kept"); }
  sym_assert(in == in0 && key == ky0, "inputs-unchanged");
  // general entry point: every listed key and input length, both output sizes
  static const uint32_t KL[] = {0, 1, 32, 33, 64, 96}, IL[] = {0, 1, 32, 71, 136, 168};
  for (uint32_t kl : KL) for (uint32_t il : IL) for (uint32_t n = 32; n <= 64; n += 32) {
    if (n == 64 && HF == 0) continue;
    Bytes k = arb(kl, "gkey"), m = arb(il, "gin"); uint32_t t = sym_u8("type"); memset(o, 0xA5, sizeof o);
    sym_assert(core_hash(hf, o, t, k.data(), kl, m.data(), il, n) == 0, "core-succeeds"); ref(HF, r, n, t, k, m.data(), il); sym_equal(o, r, n, "core"); for (uint32_t i = n; i < n + 8; i++) sym_assert(o[i] == 0xA5, "exact-output-size");
  }
#elif P_MODE == 1
  Bytes key = arb(192, "key"), in = arb(128, "in"); uint8_t o[128]; memset(o, 0, sizeof o); uint32_t ad[8] = {0};
  static const uint32_t NS[] = {16, 24, 32, 33, 48, 63, 64}; uint32_t n = NS[sym_pick("n", 0, 6)], hf = sym_u32("hf");
  sym_assume(hf < 16); sym_assume(!(hf < 3 && n == 32) && !((hf == 1 || hf == 2) && n == 64)); hf = sym_concretize(hf);
  sym_assert(core_hash((eHashFunction)hf, o, 3, key.data(), n, in.data(), 32, n) != 0, "unsupported-core-is-reported");
  sym_assert(prf((eHashFunction)hf, o, in.data(), key.data(), n) != 0, "unsupported-prf-is-reported");
  sym_assert(h_msg((eHashFunction)hf, o, in.data(), 5, key.data(), 3 * n, n) != 0, "unsupported-hmsg-is-reported");
  sym_assert(hash_f((eHashFunction)hf, o, in.data(), key.data(), ad, n) != 0, "unsupported-hashf-is-reported");
  sym_assert(hash_h((eHashFunction)hf, o, in.data(), key.data(), ad, n) != 0, "unsupported-hashh-is-reported");
#else
  // two calls of any two roles: equal outputs only for equal role, key, input (and hash function)
  uint32_t h1 = sym_pick("hf1", 0, 2), h2 = sym_pick("hf2", 0, 2), r1 = sym_pick("role1", 0, 3), r2 = sym_pick("role2", 0, 3);
  Bytes k1 = arb(96, "k1"), k2 = arb(96, "k2"), a = arb(64, "a"), b = arb(64, "b"); uint32_t A[8] = {0}, B[8] = {0}; uint8_t x[32], y[32];
  for (int i = 0; i < 7; i++) { A[i] = sym_u32("addr1"); B[i] = sym_u32("addr2"); }
  auto call = [](uint32_t r, uint32_t hf, uint8_t *o, const Bytes &k, const Bytes &in, uint32_t *ad) {
    uint8_t eb[32]; for (int i = 0; i < 32; i++) eb[i] = in[i]; eHashFunction f = (eHashFunction)hf;
    if (r == 0) prf(f, o, eb, k.data(), 32); else if (r == 1) hash_f(f, o, eb, k.data(), ad, 32); else if (r == 2) hash_h(f, o, in.data(), k.data(), ad, 32); else h_msg(f, o, in.data(), P_ML, k.data(), 96, 32);
  };
  call(r1, h1, x, k1, a, A); call(r2, h2, y, k2, b, B);
  bool eq = true; for (int i = 0; i < 32; i++) eq &= x[i] == y[i];
  if (h1 != h2 || r1 != r2) sym_assert(!eq, "different-roles-or-functions-never-agree");
  else {
    bool same = true; uint32_t kn = r1 == 3 ? 96 : 32, in = r1 == 0 || r1 == 1 ? 32 : r1 == 2 ? 64 : P_ML;
    for (uint32_t i = 0; i < kn; i++) same &= k1[i] == k2[i]; for (uint32_t i = 0; i < in; i++) same &= a[i] == b[i];
    if (r1 == 1 || r1 == 2) for (int i = 0; i < 7; i++) same &= A[i] == B[i];
    sym_assume(eq); sym_assert(same, "every-byte-of-key-and-input-matters");
  }
#endif
  sym_reach("end");
}
