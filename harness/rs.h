// C interface of the Rust library (lib/rust/ffi.rs)
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
void *rs_fast_new(const uint8_t *, size_t, uint8_t, uint32_t); void *rs_fast_new_default(const uint8_t *, size_t, uint8_t); void *rs_fast_from_ext(const uint8_t *, size_t);
void *rs_basic_new(const uint8_t *, size_t, uint8_t, uint32_t, uint32_t);
#define RSO(t) int64_t rs_##t##_pk(void *, uint8_t *); int64_t rs_##t##_sk(void *, uint8_t *); int64_t rs_##t##_ext(void *, uint8_t *); int64_t rs_##t##_address(void *, uint8_t *); \
  uint32_t rs_##t##_index(void *); uint32_t rs_##t##_remaining(void *); int64_t rs_##t##_set_index(void *, uint32_t); int64_t rs_##t##_sign(void *, const uint8_t *, size_t, uint8_t *, size_t); void rs_##t##_free(void *); uint32_t rs_##t##_sigsize(void *, uint32_t); int64_t rs_##t##_part(void *, uint32_t, uint8_t *);
RSO(fast) RSO(basic)
void *rs_fast_new_w(const uint8_t *, size_t, uint8_t, uint32_t, uint32_t); uint32_t rs_nsig(uint32_t, void *); uint32_t rs_const(uint32_t); uint32_t rs_base_size(uint32_t);
int rs_verify(uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t, uint32_t); int rs_height_from_sigsize(size_t, uint32_t);
int rs_descr_decode(const uint8_t *, size_t, uint32_t, uint8_t *); int rs_descr_new(uint32_t, uint8_t, uint8_t *);
int64_t rs_get_address(const uint8_t *, size_t, uint8_t *); int rs_address_is_valid(const uint8_t *, size_t);
uint32_t rs_core_hash(uint32_t, uint8_t *, uint32_t, const uint8_t *, uint32_t, const uint8_t *, uint32_t, uint32_t); uint32_t rs_prf(uint32_t, uint8_t *, const uint8_t *, const uint8_t *, uint32_t);
uint32_t rs_h_msg(uint32_t, uint8_t *, const uint8_t *, uint64_t, const uint8_t *, uint32_t, uint32_t); uint32_t rs_hash_f(uint32_t, uint8_t *, const uint8_t *, const uint8_t *, uint32_t *, uint32_t); uint32_t rs_hash_h(uint32_t, uint8_t *, const uint8_t *, const uint8_t *, uint32_t *, uint32_t);
void rs_wots_params(uint32_t, uint32_t, uint32_t *); void rs_wots_sign(uint32_t, uint8_t *, const uint8_t *, const uint8_t *, uint32_t, const uint8_t *, uint32_t *); void rs_wots_pk_from_sig(uint32_t, uint8_t *, const uint8_t *, const uint8_t *, uint32_t, const uint8_t *, uint32_t *);
void rs_wots_pkgen(uint32_t, uint8_t *, const uint8_t *, uint32_t, const uint8_t *, uint32_t *); void rs_l_tree(uint32_t, uint8_t *, uint8_t *, uint32_t, const uint8_t *, uint32_t *);
size_t rs_word_count(); const uint8_t *rs_word(size_t, size_t *); int64_t rs_bin2hstr(const uint8_t *, size_t, uint32_t, uint8_t *); int64_t rs_str2bin(const uint8_t *, size_t, uint8_t *); int64_t rs_binstr2hstr(const uint8_t *, size_t, uint32_t, uint8_t *); int64_t rs_hstr2bin(const uint8_t *, size_t, uint8_t *); int64_t rs_bin2mnemonic(const uint8_t *, size_t, uint8_t *); int64_t rs_mnemonic2bin(const uint8_t *, size_t, uint8_t *);
int64_t rs_hash_chain(const uint8_t *, size_t, uint32_t, uint32_t, uint8_t *); int64_t rs_random_seed(uint32_t, const uint8_t *, size_t, uint8_t *); int64_t rs_helper(uint32_t, size_t, const uint8_t *, size_t, uint8_t *); int64_t rs_sha2_256_n(const uint8_t *, size_t, size_t, uint8_t *);
void *rs_dil_new(const uint8_t *, size_t, const uint8_t *, size_t); void *rs_dil_default(); int64_t rs_dil_pk(void *, uint8_t *); int64_t rs_dil_sk(void *, uint8_t *); int64_t rs_dil_do_sign(void *, const uint8_t *, size_t, uint8_t *); int64_t rs_dil_do_open(const uint8_t *, size_t, const uint8_t *, uint8_t *); int64_t rs_dil_extract(uint32_t, const uint8_t *, size_t, uint8_t *);
void *rs_kyber_new(const uint8_t *, size_t, const uint8_t *, size_t); void *rs_kyber_default(); int64_t rs_kyber_get(void *, uint32_t, uint8_t *); void rs_kyber_encode(void *, const uint8_t *); void rs_kyber_decode(void *, const uint8_t *);
void *rs_pool_new(const uint8_t *, size_t, uint8_t, size_t, size_t); void *rs_pool_next(void *); size_t rs_pool_index(void *); int rs_pool_available(void *); void rs_pool_free(void *);
}
