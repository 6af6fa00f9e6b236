// Symbolic-side definitions of the few out-of-line pieces of Rust's core/alloc the code needs (names given by checks/rustbuild.py).
#include "sym.h"
extern "C" {
void *rs_real(void *p, size_t old, size_t align, size_t n) __asm__("_RNvCs5fGHjzWXRav_7___rustc14___rust_realloc");
void *rs_all(size_t n, size_t align) __asm__("_RNvCs5fGHjzWXRav_7___rustc12___rust_alloc");
struct RawVec { size_t cap; void *ptr; };
static void grow(RawVec *v, size_t elem, size_t mincap, size_t align) {
  size_t c = v->cap * 2; if (c < v->cap + 1) c = v->cap + 1; if (c < mincap) c = mincap;
  v->ptr = v->cap ? rs_real(v->ptr, v->cap * elem, align, c * elem) : rs_all(c * elem, align); v->cap = c;
}
void rsm_grow_u8(RawVec *v) { grow(v, 1, 8, 1); }
void rsm_grow_vec(RawVec *v) { grow(v, 24, 4, 8); }
void rsm_to_lower(uint32_t *out, uint32_t c) { out[0] = c + ((c >= 'A') & (c <= 'Z')) * 32; out[1] = out[2] = 0; sym_assert(c < 128, "model-covers-ASCII-only"); }
struct Fmt { void *buf; void **vt; uint64_t opt; };
bool rsm_write_char(Fmt *f, uint32_t c) { return ((bool (*)(void *, uint32_t))f->vt[4])(f->buf, c); }
bool rsm_write_str(Fmt *f, const uint8_t *p, size_t n) { return ((bool (*)(void *, const uint8_t *, size_t))f->vt[3])(f->buf, p, n); }
}
