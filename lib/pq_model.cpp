// Dilithium and Kyber primitives as oracles: every call reads its whole inputs and writes its whole outputs.
#include "sym.h"
#include <string.h>
#include <vector>
#include "dilithium/ref/api.h"
#include "kyber/ref/api.h"
typedef std::vector<uint8_t> B;
static B cat(std::initializer_list<std::pair<const uint8_t *, size_t>> l) { B r; for (auto &p : l) r.insert(r.end(), p.first, p.first + p.second); return r; }
int pq_calls = 0;
static void H(const char *fn, uint8_t *o, size_t n, const B &in) { sym_hash(fn, o, n, in.data(), in.size()); }
int crypto_sign_keypair(unsigned char *pk, unsigned char *sk) { pq_calls++; sym_bytes(pk, CRYPTO_PUBLICKEYBYTES, "dkp_pk"); sym_bytes(sk, CRYPTO_SECRETKEYBYTES, "dkp_sk"); return 0; }
int crypto_sign(unsigned char *sm, unsigned long long *smlen, const unsigned char *m, unsigned long long n, const unsigned char *sk) {
  pq_calls++; B in = cat({{sk, CRYPTO_SECRETKEYBYTES}, {m, n}}); B mm(m, m + n); H("dsign", sm, CRYPTO_BYTES, in); if (n) memcpy(sm + CRYPTO_BYTES, mm.data(), n); *smlen = n + CRYPTO_BYTES; return 0; }
int crypto_sign_open(unsigned char *m, unsigned long long *mlen, const unsigned char *sm, unsigned long long n, const unsigned char *pk) {
  pq_calls++; if (n < CRYPTO_BYTES) { if (n) memset(m, 0, n); *mlen = -1; return -1; }
  B in = cat({{pk, CRYPTO_PUBLICKEYBYTES}, {sm, n}}); uint8_t v[4]; H("dopen", v, 4, in); int r; memcpy(&r, v, 4); uint32_t k = n - CRYPTO_BYTES; uint8_t keep = -(r == 0); B msg(sm + CRYPTO_BYTES, sm + n);
  memset(m, 0, n); for (uint32_t i = 0; i < k; i++) m[i] = msg[i] & keep; *mlen = r == 0 ? k : -1ull; return r; }
int crypto_kem_keypair(unsigned char *pk, unsigned char *sk) { pq_calls++; sym_bytes(pk, KYBER_PUBLICKEYBYTES, "kkp_pk"); sym_bytes(sk, KYBER_SECRETKEYBYTES, "kkp_sk"); return 0; }
int crypto_kem_enc(unsigned char *ct, unsigned char *ss, const unsigned char *pk) { pq_calls++; B in(pk, pk + KYBER_PUBLICKEYBYTES); H("kct", ct, KYBER_CIPHERTEXTBYTES, in); H("kss", ss, KYBER_SYMBYTES, in); uint8_t v[4]; H("kerr", v, 4, in); int r; memcpy(&r, v, 4); return r; }
int crypto_kem_dec(unsigned char *ss, const unsigned char *ct, const unsigned char *sk) { pq_calls++; B in = cat({{ct, KYBER_CIPHERTEXTBYTES}, {sk, KYBER_SECRETKEYBYTES}}); H("kdec", ss, KYBER_SYMBYTES, in); uint8_t v[4]; H("kderr", v, 4, in); int r; memcpy(&r, v, 4); return r; }
