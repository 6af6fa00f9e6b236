// C15: post-quantum wrappers.  MODE 0: Dilithium, 1: signed message splitting, 2: Kyber, 3: wrong sizes.
#include "spec.h"
#include "dilithium/dilithium.h"
#include "kyber/kyber.h"
extern int pq_calls;
static Bytes arb(size_t n, const char *nm) { Bytes b(n); if (n) sym_bytes(b.data(), n, nm); return b; }
static void same(const Bytes &a, const Bytes &b, const char *id) { sym_assert(a.size() == b.size(), id); if (a.size() == b.size() && a.size()) sym_equal(a.data(), b.data(), a.size(), id); }
static Bytes cat(const Bytes &a, const Bytes &b) { Bytes r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
static Bytes H(const char *fn, size_t n, const Bytes &in) { Bytes r(n); sym_hash(fn, r.data(), n, in.data(), in.size()); return r; }
static bool zero4(const Bytes &v) { return ((v[0] | v[1] | v[2] | v[3]) & 255) == 0; }
const size_t PK = CRYPTO_PUBLICKEYBYTES, SK = CRYPTO_SECRETKEYBYTES, SB = CRYPTO_BYTES, KP = KYBER_PUBLICKEYBYTES, KS = KYBER_SECRETKEYBYTES, KC = KYBER_CIPHERTEXTBYTES, KY = KYBER_SYMBYTES;
extern "C" void harness() {
#if P_MODE == 0
  { Dilithium d; Bytes p = d.getPK(), s = d.getSK(); sym_assert(pq_calls == 1 && p.size() == PK && s.size() == SK && d.getPublicKeySize() == PK && d.getSecretKeySize() == SK, "generated-key-sizes"); sym_assert_init(p.data(), PK, "generated-key"); sym_assert_init(s.data(), SK, "generated-key"); }
  Bytes pk = arb(PK, "pk"), sk = arb(SK, "sk"); Dilithium d(pk, sk); same(d.getPK(), pk, "public-key-kept"); same(d.getSK(), sk, "secret-key-kept");
  for (size_t n : {0, 1, 32, 100, 1000}) {
    Bytes m = arb(n, "msg"), m0 = m; int c = pq_calls; Bytes s = d.sign(m); sym_assert(pq_calls == c + 1, "one-primitive-call"); same(s, cat(H("dsign", SB, cat(sk, m0)), m0), "signed-message"); same(m, m0, "input-unchanged");
    same(Dilithium::extract_signature(s), Bytes(s.begin(), s.begin() + SB), "signature-part"); same(Dilithium::extract_message(s), m0, "message-part");
    Bytes x = arb(SB + n, "sm"), x0 = x, o = arb(n / 2, "out"); c = pq_calls; bool r = Dilithium::sign_open(o, x, pk); bool ok = zero4(H("dopen", 4, cat(pk, x0)));
    sym_assert(pq_calls == c + 1, "one-primitive-call"); sym_assert(r == ok, "verdict-unchanged"); same(x, x0, "input-unchanged");
    if (r) { sym_assert(o.size() >= n, "message-returned"); if (n && o.size() >= n) sym_equal(o.data(), x0.data() + SB, n, "message-returned"); sym_reach("accepted"); } else sym_reach("rejected");
  }
#elif P_MODE == 1
  for (size_t n : {size_t(0), size_t(1), size_t(100), SB - 1, SB, SB + 1, SB + 33, 2 * SB, 2 * SB + 5}) {
    Bytes x = arb(n, "sm"), x0 = x, a, b; bool ta = false, tb = false;
    try { a = Dilithium::extract_signature(x); } catch (std::exception &) { ta = true; } try { b = Dilithium::extract_message(x); } catch (std::exception &) { tb = true; }
    sym_assert(ta == (n < SB) && tb == (n < SB), "short-signed-message-refused"); same(x, x0, "input-unchanged");
    if (n >= SB) { same(a, Bytes(x0.begin(), x0.begin() + SB), "signature-part"); same(b, Bytes(x0.begin() + SB, x0.end()), "message-part"); }
  }
#elif P_MODE == 2
  { Kyber k; Bytes p = k.getPK(), s = k.getSK(); sym_assert(pq_calls == 1 && p.size() == KP && s.size() == KS, "generated-key-sizes"); sym_assert_init(p.data(), KP, "generated-key"); sym_assert_init(s.data(), KS, "generated-key"); }
  Bytes pk = arb(KP, "pk"), sk = arb(KS, "sk"), other = arb(KP, "other"), ct = arb(KC, "ct"), o0 = other, c0 = ct; Kyber k(pk, sk); same(k.getPK(), pk, "public-key-kept"); same(k.getSK(), sk, "secret-key-kept");
  for (int rep = 0; rep < 2; rep++) {
    int c = pq_calls; bool r = k.kem_encode(other); sym_assert(pq_calls == c + 1, "one-primitive-call"); sym_assert(r == zero4(H("kerr", 4, o0)), "encode-verdict"); same(k.getMyKey(), H("kss", KY, o0), "shared-key"); same(k.getCypherText(), H("kct", KC, o0), "ciphertext"); same(other, o0, "input-unchanged");
    c = pq_calls; r = k.kem_decode(ct); Bytes in = cat(c0, sk); sym_assert(pq_calls == c + 1, "one-primitive-call"); sym_assert(r == zero4(H("kderr", 4, in)), "decode-verdict"); same(k.getMyKey(), H("kdec", KY, in), "decoded-key"); same(ct, c0, "input-unchanged");
    other = arb(KP, "other2"); o0 = other; ct = arb(KC, "ct2"); c0 = ct;
  }
  same(k.getPK(), pk, "public-key-kept"); same(k.getSK(), sk, "secret-key-kept");
#else
  const size_t dpk[] = {0, 1, PK - 1, PK + 1, SK, PK}, dsk[] = {0, 1, SK - 1, SK + 1, PK, SK}, kpk[] = {0, 1, KP - 1, KP + 1, KS, KP}, ksk[] = {0, 1, KS - 1, KS + 1, KP, KS}, kct[] = {0, 1, KC - 1, KC + 1, KP, KS}, sms[] = {0, 1, SB - 1, SB, SB + 9, 100};
  uint32_t kind = sym_pick("kind", 0, 3), i = sym_pick("i", 0, 5), j = sym_pick("j", 0, 5); bool thrown = false;
  if (kind == 0) { Bytes p = arb(dpk[i], "pk"), s = arb(dsk[j], "sk"); try { Dilithium d(p, s); d.sign(Bytes(3)); } catch (std::exception &) { thrown = true; } sym_assert(thrown == (i != 5 || j != 5), "wrong-key-size-refused"); }
  else if (kind == 1) { Bytes p = arb(kpk[i], "pk"), s = arb(ksk[j], "sk"); try { Kyber k(p, s); k.kem_decode(Bytes(KC)); } catch (std::exception &) { thrown = true; } sym_assert(thrown == (i != 5 || j != 5), "wrong-key-size-refused"); }
  else if (kind == 2) { if (i == 5 && (j == 3 || j == 4)) sym_assume(0); Bytes p = arb(dpk[i], "pk"), x = arb(sms[j], "sm"), o = arb(7, "out"); int c = pq_calls; bool r = true; try { r = Dilithium::sign_open(o, x, p); } catch (std::exception &) { r = false; } sym_assert(!r, "wrong-size-refused"); sym_assert(pq_calls == c || (i == 5), "primitive-not-called-with-a-wrong-key"); }
  else { Bytes p = arb(KP, "pk"), s = arb(KS, "sk"), x = arb(kct[i], "ct"), o = arb(kpk[j], "other"); Kyber k(p, s); int c = pq_calls; bool r = true; try { r = k.kem_decode(x); } catch (std::exception &) { r = false; } sym_assert(!r && pq_calls == c, "wrong-ciphertext-size-refused");
    if (j != 5) { r = true; try { r = k.kem_encode(o); } catch (std::exception &) { r = false; } sym_assert(!r && pq_calls == c, "wrong-peer-key-size-refused"); } }
#endif
  sym_reach("end");
}
