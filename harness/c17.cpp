// C17: the Rust tree pool.  MODE 0: trees in order; MODE 1: a height no key can have
#include "spec.h"
#include "rs.h"
#include "leafmodel.h"
#include "rsleaf.h"
#include <stdio.h>
static Bytes arb(size_t n, const char *nm) { Bytes b(n); if (n) sym_bytes(b.data(), n, nm); return b; }
static Bytes get(int64_t (*f)(void *, uint8_t *), void *x) { uint8_t b[200]; int64_t n = f(x, b); sym_assert(n >= 0, "value"); return Bytes(b, b + n); }
static void same(const Bytes &a, const Bytes &b, const char *id) { sym_assert(a.size() == b.size(), id); if (a.size() == b.size() && a.size()) sym_equal(a.data(), b.data(), a.size(), id); }
static uint8_t hexd(unsigned q) { return q > 9 ? 'a' + q - 10 : '0' + q; }
extern "C" void harness() {
  static const uint64_t START[] = {0, 7, 8, 97, 98, 252, 254, 997, 65533, 65535, 99998, 0xfffffffdull, 0xffffffffull, 999999999998ull, 0x7ffffffffffffff0ull};
  static const size_t CACHE[] = {0, 1, 2, 3, 5};
  const uint64_t start = START[sym_pick("start", 0, sizeof START / sizeof *START - 1)]; const size_t cache = CACHE[sym_pick("cache", 0, P_MODE ? 2 : 4)];
  Bytes base = arb(P_BL, "base"), b0 = base;
#if P_MODE == 0
  void *p = rs_pool_new(base.data(), base.size(), P_H, start, cache); sym_assert(p != nullptr, "pool");
  sym_assert(rs_pool_index(p) == start, "reported-index"); sym_assert(rs_pool_available(p) == (cache > 0), "tree-available");
  for (uint64_t i = 0; i < P_N; i++) {
    void *t = rs_pool_next(p); sym_assert(t != nullptr, "tree-issued"); sym_assert(rs_pool_index(p) == start + i + 1, "reported-index"); if (cache) sym_assert(rs_pool_available(p) == 1, "tree-available");
    Bytes in; for (uint8_t x : b0) { in.push_back(hexd(x >> 4)); in.push_back(hexd(x & 15)); }
    char dec[32]; int k = 0; for (uint64_t v = start + i + 1; v; v /= 10) dec[k++] = '0' + v % 10; while (k) in.push_back(dec[--k]);
    Bytes seed(32); sym_hash("sha256", seed.data(), 32, in.data(), in.size()); for (int j = 0; j < 16; j++) seed.push_back(seed[j]);
    uint8_t s[64]; int64_t n = rs_fast_part(t, 4, s); same(Bytes(s, s + n), seed, "derived-seed");
    if (i < 2) { void *e = rs_fast_new(seed.data(), 48, P_H, 1); same(get(rs_fast_pk, t), get(rs_fast_pk, e), "public-key"); same(get(rs_fast_sk, t), get(rs_fast_sk, e), "secret-key"); rs_fast_free(e); }
    sym_assert(rs_fast_index(t) == 0, "unused-tree"); rs_fast_free(t);
  }
  same(base, b0, "input-unchanged"); rs_pool_free(p);
#else
  static const uint8_t HS[] = {0, 1, 2, 3, 5, 7, 31, 32, 255}; uint8_t h = HS[sym_pick("h", 0, 8)];
  void *p = rs_pool_new(base.data(), base.size(), h, start, cache);
  if (p) for (int i = 0; i < 4; i++) sym_assert(rs_pool_next(p) == nullptr, "impossible-tree-is-an-error");
#endif
  sym_reach("end");
}
