// C15, Rust wrappers.  The pqcrypto crates are stand-ins (lib/rust/pq.rs) whose primitives are the oracles below.
// MODE 0: Dilithium, 1: signed message splitting, 2: Kyber, 3: wrong sizes.
#include "spec.h"
#include "rs.h"
static Bytes arb(size_t n, const char *nm) { Bytes b(n); if (n) sym_bytes(b.data(), n, nm); return b; }
static void same(const Bytes &a, const Bytes &b, const char *id) { sym_assert(a.size() == b.size(), id); if (a.size() == b.size() && a.size()) sym_equal(a.data(), b.data(), a.size(), id); }
static Bytes cat(const Bytes &a, const Bytes &b) { Bytes r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
static Bytes H(const char *fn, size_t n, const Bytes &in) { Bytes r(n); sym_hash(fn, r.data(), n, in.data(), in.size()); return r; }
static bool zero4(const Bytes &v) { return ((v[0] | v[1] | v[2] | v[3]) & 255) == 0; }
const size_t PK = 2592, SK = 4864, SB = 4595, KP = 1184, KS = 2400, KC = 1088, KY = 32; static int pq_calls = 0;
extern "C" {
void rs_dil_keypair(uint8_t *pk, uint8_t *sk) { pq_calls++; sym_bytes(pk, PK, "dkp_pk"); sym_bytes(sk, SK, "dkp_sk"); }
void rs_dil_sign(uint8_t *o, const uint8_t *m, size_t n, const uint8_t *sk) { pq_calls++; Bytes s = H("dsign", SB, cat(Bytes(sk, sk + SK), Bytes(m, m + n))); memcpy(o, s.data(), SB); if (n) memcpy(o + SB, m, n); }
int rs_dil_open(uint8_t *m, const uint8_t *s, size_t n, const uint8_t *pk) { pq_calls++; Bytes v = H("dopen", 4, cat(Bytes(pk, pk + PK), Bytes(s, s + n))); bool ok = zero4(v); uint8_t keep = -ok; for (size_t i = SB; i < n; i++) m[i - SB] = s[i] & keep; return ok ? 0 : -1; }
void rs_kem_keypair(uint8_t *pk, uint8_t *sk) { pq_calls++; sym_bytes(pk, KP, "kkp_pk"); sym_bytes(sk, KS, "kkp_sk"); }
void rs_kem_enc(uint8_t *ss, uint8_t *ct, const uint8_t *pk) { pq_calls++; Bytes in(pk, pk + KP); sym_hash("kss", ss, KY, in.data(), KP); sym_hash("kct", ct, KC, in.data(), KP); }
void rs_kem_dec(uint8_t *ss, const uint8_t *ct, const uint8_t *sk) { pq_calls++; Bytes in = cat(Bytes(ct, ct + KC), Bytes(sk, sk + KS)); sym_hash("kdec", ss, KY, in.data(), in.size()); }
}
static bool split(uint32_t which, const Bytes &x, Bytes &r) { Bytes o(x.size() + 16), x0 = x; int64_t n = (int64_t)sym_concretize((uint64_t)rs_dil_extract(which, x.data(), x.size(), o.data())); same(x, x0, "input-unchanged"); if (n < 0) return false; r.assign(o.begin(), o.begin() + n); return true; }
extern "C" void harness() {
#if P_MODE == 0
  { void *d = rs_dil_default(); Bytes p(PK), s(SK); sym_assert(pq_calls == 1 && rs_dil_pk(d, p.data()) == (int64_t)PK && rs_dil_sk(d, s.data()) == (int64_t)SK, "generated-key-sizes"); }
  Bytes pk = arb(PK, "pk"), sk = arb(SK, "sk"), p(PK), s(SK); void *d = rs_dil_new(pk.data(), PK, sk.data(), SK); sym_assert(d != nullptr, "key-accepted"); if (!d) return;
  rs_dil_pk(d, p.data()); rs_dil_sk(d, s.data()); same(p, pk, "public-key-kept"); same(s, sk, "secret-key-kept");
  for (size_t n : {0, 1, 32, 100, 1000}) {
    Bytes m = arb(n, "msg"), m0 = m, g(SB + n + 8); int c = pq_calls; int64_t k = rs_dil_do_sign(d, m.data(), n, g.data()); sym_assert(pq_calls == c + 1, "one-primitive-call"); sym_assert(k == (int64_t)(SB + n), "signed-message"); g.resize(SB + n);
    same(g, cat(H("dsign", SB, cat(sk, m0)), m0), "signed-message"); same(m, m0, "input-unchanged"); Bytes a, b; sym_assert(split(1, g, a) && split(0, g, b), "split"); same(a, Bytes(g.begin(), g.begin() + SB), "signature-part"); same(b, m0, "message-part");
    Bytes x = arb(SB + n, "sm"), x0 = x, o(n + 8); c = pq_calls; k = rs_dil_do_open(x.data(), x.size(), pk.data(), o.data()); bool r = k >= 0, ok = zero4(H("dopen", 4, cat(pk, x0)));
    sym_assert(pq_calls == c + 1, "one-primitive-call"); sym_assert(r == ok, "verdict-unchanged"); same(x, x0, "input-unchanged");
    if (r) { sym_assert(k == (int64_t)n, "message-returned"); if (n) sym_equal(o.data(), x0.data() + SB, n, "message-returned"); sym_reach("accepted"); } else sym_reach("rejected");
  }
#elif P_MODE == 1
  for (size_t n : {size_t(0), size_t(1), size_t(100), SB - 1, SB, SB + 1, SB + 33, 2 * SB, 2 * SB + 5}) {
    Bytes x = arb(n, "sm"), a, b; bool ta = split(1, x, a), tb = split(0, x, b); sym_assert(ta == (n >= SB) && tb == (n >= SB), "short-signed-message-refused");
    if (n >= SB) { same(a, Bytes(x.begin(), x.begin() + SB), "signature-part"); same(b, Bytes(x.begin() + SB, x.end()), "message-part"); }
  }
#elif P_MODE == 2
  auto get = [](void *k, uint32_t w) { const size_t N[] = {KP, KS, KY, KC}; Bytes r(N[w]); sym_assert(rs_kyber_get(k, w, r.data()) == (int64_t)N[w], "sizes"); return r; };
  { void *k = rs_kyber_default(); Bytes p = get(k, 0), s = get(k, 1); same(get(k, 2), H("kss", KY, p), "shared-key"); same(get(k, 3), H("kct", KC, p), "ciphertext"); }
  Bytes pk = arb(KP, "pk"), sk = arb(KS, "sk"), other = arb(KP, "other"), ct = arb(KC, "ct"); void *k = rs_kyber_new(pk.data(), KP, sk.data(), KS); sym_assert(k != nullptr, "key-accepted"); if (!k) return; same(get(k, 0), pk, "public-key-kept"); same(get(k, 1), sk, "secret-key-kept");
  for (int rep = 0; rep < 2; rep++) {
    int c = pq_calls; rs_kyber_encode(k, other.data()); sym_assert(pq_calls == c + 1, "one-primitive-call"); same(get(k, 2), H("kss", KY, other), "shared-key"); same(get(k, 3), H("kct", KC, other), "ciphertext");
    c = pq_calls; rs_kyber_decode(k, ct.data()); sym_assert(pq_calls == c + 1, "one-primitive-call"); same(get(k, 2), H("kdec", KY, cat(ct, sk)), "decoded-key"); same(get(k, 3), H("kct", KC, other), "ciphertext");
    other = arb(KP, "other2"); ct = arb(KC, "ct2");
  }
  same(get(k, 0), pk, "public-key-kept"); same(get(k, 1), sk, "secret-key-kept");
#else
  const size_t dpk[] = {0, 1, PK - 1, PK + 1, SK, PK}, dsk[] = {0, 1, SK - 1, SK + 1, PK, SK}, kpk[] = {0, 1, KP - 1, KP + 1, KS, KP}, ksk[] = {0, 1, KS - 1, KS + 1, KP, KS};
  uint32_t kind = sym_pick("kind", 0, 1), i = sym_pick("i", 0, 5), j = sym_pick("j", 0, 5); void *o; int c = pq_calls;
  if (kind == 0) { Bytes p = arb(dpk[i], "pk"), s = arb(dsk[j], "sk"); o = rs_dil_new(p.data(), p.size(), s.data(), s.size()); } else { Bytes p = arb(kpk[i], "pk"), s = arb(ksk[j], "sk"); o = rs_kyber_new(p.data(), p.size(), s.data(), s.size()); }
  sym_assert((o != nullptr) == (i == 5 && j == 5), "wrong-key-size-refused"); if (!o) sym_assert(pq_calls == c, "primitive-not-called-with-a-wrong-key");
#endif
  sym_reach("end");
}
