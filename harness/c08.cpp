// C08: SHAKE128/256 are FIPS 202.  MODE 0: the permutation on any state; MODE 1: both functions for listed input and output lengths, any input.
#include "sym.h"
#include <string.h>
#include <vector>
#ifdef P_RUST
extern "C" { void rs_shake128(uint8_t *, size_t, const uint8_t *, size_t); void rs_shake256(uint8_t *, size_t, const uint8_t *, size_t); }
#define SH128 rs_shake128
#define SH256 rs_shake256
#define PERM spec_permute
#else
#include "xmss-alt/fips202.h"
void KeccakF1600_StatePermute(uint64_t *);
#define SH128 shake128
#define SH256 shake256
#define PERM KeccakF1600_StatePermute
#endif
typedef std::vector<uint8_t> Bytes;
static inline uint64_t rotl(uint64_t x, unsigned n) { return n ? (x << n) | (x >> (64 - n)) : x; }
// FIPS 202 section 3.2: theta, rho, pi, chi, iota; lane (x,y) is A[x + 5y]; rotation offsets and round constants computed from their definitions
static __attribute__((noinline)) void spec_permute(uint64_t *A) {
  unsigned off[25]; off[0] = 0; { unsigned x = 1, y = 0; for (unsigned t = 0; t < 24; t++) { off[x + 5 * y] = (t + 1) * (t + 2) / 2 % 64; unsigned ny = (2 * x + 3 * y) % 5; x = y; y = ny; } }
  uint8_t lfsr = 1;
  for (int r = 0; r < 24; r++) {
    uint64_t C[5], B[25], RC = 0;
    for (int x = 0; x < 5; x++) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
    for (int x = 0; x < 5; x++) { uint64_t D = C[(x + 4) % 5] ^ rotl(C[(x + 1) % 5], 1); for (int y = 0; y < 5; y++) A[x + 5 * y] ^= D; }
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) B[y + 5 * ((2 * x + 3 * y) % 5)] = rotl(A[x + 5 * y], off[x + 5 * y]);
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x + 5 * y] = B[x + 5 * y] ^ (~B[(x + 1) % 5 + 5 * y] & B[(x + 2) % 5 + 5 * y]);
    for (int j = 0; j < 7; j++) { if (lfsr & 1) RC |= 1ull << ((1u << j) - 1); lfsr = (lfsr << 1) ^ (lfsr & 0x80 ? 0x71 : 0); }
    A[0] ^= RC;
  }
}
extern "C" void model_permute(uint64_t *A) { uint8_t in[200]; memcpy(in, A, 200); sym_hash("keccakf", (uint8_t *)A, 200, in, 200); } // long inputs: job option redirect
extern "C" void rsc_permute(uint64_t *A) { model_permute(A); }
static Bytes spec_shake(size_t rate, const Bytes &m, size_t outlen) {
  Bytes p = m; p.push_back(0x1f); while (p.size() % rate) p.push_back(0); p.back() |= 0x80;
  uint64_t A[25] = {0}; Bytes o;
  for (size_t b = 0; b < p.size(); b += rate) { for (size_t i = 0; i < rate / 8; i++) { uint64_t v; memcpy(&v, &p[b + 8 * i], 8); A[i] ^= v; } spec_permute(A); }
  while (o.size() < outlen) { uint8_t t[200]; memcpy(t, A, 200); for (size_t i = 0; i < rate && o.size() < outlen; i++) o.push_back(t[i]); if (o.size() < outlen) spec_permute(A); }
  return o;
}
static Bytes arb(size_t n, const char *nm) { Bytes b(n); if (n) sym_bytes(b.data(), n, nm); return b; }
static void one(int fn, size_t il, size_t ol) {
  const size_t rate = fn ? 136 : 168; Bytes m = arb(il, "in"), m0 = m; uint8_t *o = new uint8_t[ol];
  (fn ? SH256 : SH128)(o, ol, m.data(), il);
  Bytes r = spec_shake(rate, m0, ol); sym_equal(o, r.data(), ol, "fips202-output"); sym_equal(m.data(), m0.data(), il, "input-unchanged"); delete[] o;
}
extern "C" void harness() {
#if P_MODE == 0
  uint64_t s[25], t[25]; for (auto &x : s) x = sym_u64("lane"); memcpy(t, s, 200); PERM(s); spec_permute(t); sym_equal(s, t, 200, "permutation");
#elif P_MODE == 1 // input lengths LO..HI, outlen OL
  for (size_t l = P_LO; l <= P_HI; l++) one(P_FN, l, P_OL);
#elif P_MODE == 2 // output lengths
  for (size_t l = P_LO; l <= P_HI; l++) one(P_FN, P_IL, l);
#else // both around every block boundary
  const size_t rate = P_FN ? 136 : 168;
  for (int a = 0; a <= 3; a++) for (int da = -1; da <= 1; da++) for (int b = 0; b <= 3; b++) for (int db = -1; db <= 1; db++) {
    long il = a * (long)rate + da, ol = b * (long)rate + db; if (il < 0 || ol < 0) continue; one(P_FN, il, ol);
  }
#endif
  sym_reach("end");
}
