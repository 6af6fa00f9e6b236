// What the Rust stand-in crates (lib/rust) call: the same oracles as on the C++ side.
#include "sym.h"
#include <string.h>
extern "C" {
uint64_t rs_concretize(uint64_t x) { return sym_concretize(x); }
void rs_sha256(uint8_t *out, const uint8_t *in, size_t n) { sym_hash("sha256", out, 32, in, n); }
void rs_oracle_shake(uint32_t which, uint8_t *out, size_t ol, const uint8_t *in, size_t il) { sym_hash(which == 128 ? "shake128" : "shake256", out, ol, in, il); }
void __attribute__((weak)) rs_random(uint8_t *out, size_t n) { sym_bytes(out, n, "osrng"); }
void __attribute__((weak)) rs_dil_keypair(uint8_t *, uint8_t *) {}
void __attribute__((weak)) rs_dil_sign(uint8_t *, const uint8_t *, size_t, const uint8_t *) {}
int __attribute__((weak)) rs_dil_open(uint8_t *, const uint8_t *, size_t, const uint8_t *) { return -1; }
void __attribute__((weak)) rs_kem_keypair(uint8_t *, uint8_t *) {}
void __attribute__((weak)) rs_kem_enc(uint8_t *, uint8_t *, const uint8_t *) {}
void __attribute__((weak)) rs_kem_dec(uint8_t *, const uint8_t *, const uint8_t *) {}
}
extern "C" {
void __attribute__((weak)) rsc_wots_pkgen(uint32_t, uint8_t *, const uint8_t *, uint32_t, uint32_t, uint32_t, const uint8_t *, uint32_t *) {}
void __attribute__((weak)) rsc_l_tree(uint32_t, uint8_t *, uint8_t *, uint32_t, uint32_t, uint32_t, const uint8_t *, uint32_t *) {}
void __attribute__((weak)) rsc_wots_sign(uint32_t, uint8_t *, const uint8_t *, const uint8_t *, uint32_t, uint32_t, uint32_t, const uint8_t *, uint32_t *) {}
void __attribute__((weak)) rsc_wots_pk_from_sig(uint32_t, uint8_t *, const uint8_t *, const uint8_t *, uint32_t, uint32_t, uint32_t, const uint8_t *, uint32_t *) {}
void __attribute__((weak)) rsc_permute(uint64_t *) {}
void __attribute__((weak)) rsc_prf(uint8_t *, uint32_t) {}
void __attribute__((weak)) rsc_hash_f(uint8_t *, const uint8_t *, uint32_t *, uint32_t) {}
}
