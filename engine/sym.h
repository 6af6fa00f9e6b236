// Harness interface: interpreted by llsym, implemented by native.cpp for replay.
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void sym_bytes(void *p, size_t n, const char *name);       // fresh arbitrary bytes
void sym_assume(uint64_t c);
void sym_assert(uint64_t c, const char *id);
void sym_equal(const void *a, const void *b, size_t n, const char *id); // bytewise equality, one goal per byte
void sym_reach(const char *id);                            // vacuity witness: must be reachable
void sym_hash(const char *fn, uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen); // uninterpreted function
uint64_t sym_concretize(uint64_t v);                       // case split
void sym_nomerge(uint64_t on);                             // explore paths separately
void sym_assert_init(const void *p, size_t n, const char *id); // bytes do not depend on uninitialised memory
uint64_t sym_choice(const char *name, uint64_t n);         // any of 0..n-1, each explored on a path of its own
uint64_t sym_same(const void *a, const void *b, size_t n); // 1 when the bytes are certainly equal (identical terms)
uint64_t sym_co_new(void (*fn)(void *), void *arg);        // coroutine (must never return); 0 is the main routine
void sym_co_switch(uint64_t id);
void sym_note(const char *id, uint64_t v);
#ifdef __cplusplus
}
static inline uint8_t sym_u8(const char *n) { uint8_t v; sym_bytes(&v, 1, n); return v; }
static inline uint16_t sym_u16(const char *n) { uint16_t v; sym_bytes(&v, 2, n); return v; }
static inline uint32_t sym_u32(const char *n) { uint32_t v; sym_bytes(&v, 4, n); return v; }
static inline uint64_t sym_u64(const char *n) { uint64_t v; sym_bytes(&v, 8, n); return v; }
// case split over [lo,hi]
#ifdef VERIF_NATIVE
extern "C" uint64_t sym_pick(const char *n, uint64_t lo, uint64_t hi);
#else
static inline uint64_t sym_pick(const char *n, uint64_t lo, uint64_t hi) { uint32_t v = sym_u32(n); sym_assume(v >= lo && v <= hi); sym_nomerge(1); uint64_t r = sym_concretize(v); sym_nomerge(0); return r; }
#endif
#endif
