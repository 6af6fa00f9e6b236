// Independent reference model of the documented XMSS construction (n = 32), written from RFC 8391
// and the library's documented deviations (SHAKE256 seed expansion, WOTS keys from PRF over 32-byte counters).
#pragma once
#include "sym.h"
#include <string.h>
#include <stdint.h>
#include <vector>
typedef std::vector<uint8_t> Bytes;
struct N32 { uint8_t b[32]; };
static const char *const SPEC_HASH[3] = {"sha256", "shake128", "shake256"};
struct Spec {
  int hf; uint32_t w, logw, len1, len2, len, h;
  Spec(int hf_, uint32_t w_, uint32_t h_) : hf(hf_), w(w_), h(h_) {
    logw = w == 4 ? 2 : w == 16 ? 4 : 8; len1 = 256 / logw;
    len2 = w == 4 ? 5 : w == 16 ? 3 : 2; len = len1 + len2;
  }
  // HASH(toByte(type,32) || KEY || M)
  N32 H(uint32_t type, const uint8_t *key, size_t kl, const uint8_t *m, size_t ml) const {
    Bytes b(32 + kl + ml); b[31] = type; if (kl) memcpy(&b[32], key, kl); if (ml) memcpy(&b[32 + kl], m, ml);
    N32 r; sym_hash(SPEC_HASH[hf], r.b, 32, b.data(), b.size()); return r;
  }
  N32 prf(const uint8_t *key, const uint8_t *m32) const { return H(3, key, 32, m32, 32); }
  struct Adr { uint32_t a[8] = {0, 0, 0, 0, 0, 0, 0, 0}; };
  static N32 enc(const Adr &A) { N32 r; for (int i = 0; i < 8; i++) { r.b[4 * i] = A.a[i] >> 24; r.b[4 * i + 1] = A.a[i] >> 16; r.b[4 * i + 2] = A.a[i] >> 8; r.b[4 * i + 3] = A.a[i]; } return r; }
  static N32 tob(uint64_t v) { N32 r; memset(r.b, 0, 32); for (int i = 0; i < 8; i++) r.b[31 - i] = v >> (8 * i); return r; }
  N32 F(const N32 &in, const uint8_t *ps, Adr A) const {
    A.a[7] = 0; N32 key = prf(ps, enc(A).b); A.a[7] = 1; N32 bm = prf(ps, enc(A).b);
    N32 x; for (int i = 0; i < 32; i++) x.b[i] = in.b[i] ^ bm.b[i];
    return H(0, key.b, 32, x.b, 32);
  }
  N32 node(const N32 &l, const N32 &r, const uint8_t *ps, Adr A) const {
    A.a[7] = 0; N32 key = prf(ps, enc(A).b); A.a[7] = 1; N32 b0 = prf(ps, enc(A).b); A.a[7] = 2; N32 b1 = prf(ps, enc(A).b);
    uint8_t x[64]; for (int i = 0; i < 32; i++) { x[i] = l.b[i] ^ b0.b[i]; x[32 + i] = r.b[i] ^ b1.b[i]; }
    return H(1, key.b, 32, x, 64);
  }
  static Adr otsAdr(uint32_t leaf, uint32_t chain, uint32_t pos) { Adr A; A.a[3] = 0; A.a[4] = leaf; A.a[5] = chain; A.a[6] = pos; return A; }
  static Adr ltAdr(uint32_t leaf, uint32_t lvl, uint32_t idx) { Adr A; A.a[3] = 1; A.a[4] = leaf; A.a[5] = lvl; A.a[6] = idx; return A; }
  static Adr ndAdr(uint32_t lvl, uint32_t idx) { Adr A; A.a[3] = 2; A.a[5] = lvl; A.a[6] = idx; return A; }
  N32 otsSeed(const uint8_t *skseed, uint32_t leaf) const { return prf(skseed, enc(otsAdr(leaf, 0, 0)).b); }
  N32 otsSk(const uint8_t *otsseed, uint32_t i) const { return prf(otsseed, tob(i).b); }
  // chain value after `to` steps from value x at position `from`
  N32 chain(N32 x, uint32_t from, uint32_t to, const uint8_t *ps, uint32_t leaf, uint32_t ch) const {
    for (uint32_t p = from; p < to; p++) x = F(x, ps, otsAdr(leaf, ch, p));
    return x;
  }
  // digits: first len1 base-w digits of the digest then the checksum, most significant first
  void digits(const uint8_t *md, uint32_t *d) const {
    uint32_t per = 8 / logw, cs = 0;
    for (uint32_t i = 0; i < len1; i++) { d[i] = (md[i / per] >> (logw * (per - 1 - i % per))) & (w - 1); cs += w - 1 - d[i]; }
    for (uint32_t i = 0; i < len2; i++) d[len1 + i] = (cs >> (logw * (len2 - 1 - i))) & (w - 1);
  }
  N32 ltree(std::vector<N32> v, const uint8_t *ps, uint32_t leaf) const {
    size_t l = v.size(); uint32_t lvl = 0;
    while (l > 1) {
      for (size_t i = 0; i < l / 2; i++) v[i] = node(v[2 * i], v[2 * i + 1], ps, ltAdr(leaf, lvl, i));
      if (l & 1) v[l / 2] = v[l - 1];
      l = (l + 1) / 2; lvl++;
    }
    return v[0];
  }
  N32 leaf(const uint8_t *skseed, const uint8_t *ps, uint32_t idx) const {
    N32 os = otsSeed(skseed, idx); std::vector<N32> v(len);
    for (uint32_t i = 0; i < len; i++) v[i] = chain(otsSk(os.b, i), 0, w - 1, ps, idx, i);
    return ltree(v, ps, idx);
  }
  // tree[lvl][i]
  std::vector<std::vector<N32>> tree(const uint8_t *skseed, const uint8_t *ps) const {
    std::vector<std::vector<N32>> t(h + 1); t[0].resize(1u << h);
    for (uint32_t i = 0; i < (1u << h); i++) t[0][i] = leaf(skseed, ps, i);
    for (uint32_t l = 0; l < h; l++) { t[l + 1].resize(1u << (h - l - 1)); for (uint32_t i = 0; i < (1u << (h - l - 1)); i++) t[l + 1][i] = node(t[l][2 * i], t[l][2 * i + 1], ps, ndAdr(l, i)); }
    return t;
  }
  N32 digest(const uint8_t *R, const uint8_t *root, uint64_t idx, const uint8_t *m, size_t ml) const {
    uint8_t k[96]; memcpy(k, R, 32); memcpy(k + 32, root, 32); memcpy(k + 64, tob(idx).b, 32);
    return H(2, k, 96, m, ml);
  }
  // signature = idx(4) || R || chains || auth
  Bytes sign(const uint8_t *skseed, const uint8_t *skprf, const uint8_t *ps, const std::vector<std::vector<N32>> &t, uint32_t idx, const uint8_t *m, size_t ml) const {
    Bytes s; for (int i = 3; i >= 0; i--) s.push_back(idx >> (8 * i));
    N32 R = prf(skprf, tob(idx).b); s.insert(s.end(), R.b, R.b + 32);
    N32 md = digest(R.b, t[h][0].b, idx, m, ml); uint32_t d[256]; digits(md.b, d);
    N32 os = otsSeed(skseed, idx);
    for (uint32_t i = 0; i < len; i++) { N32 c = chain(otsSk(os.b, i), 0, d[i], ps, idx, i); s.insert(s.end(), c.b, c.b + 32); }
    for (uint32_t l = 0; l < h; l++) { const N32 &a = t[l][(idx >> l) ^ 1]; s.insert(s.end(), a.b, a.b + 32); }
    return s;
  }
  // root recomputed from a signature
  N32 rootFromSig(const uint8_t *sig, const uint8_t *root, const uint8_t *ps, const uint8_t *m, size_t ml) const {
    uint64_t idx = ((uint64_t)sig[0] << 24) | (sig[1] << 16) | (sig[2] << 8) | sig[3];
    N32 md = digest(sig + 4, root, idx, m, ml); uint32_t d[256]; digits(md.b, d);
    std::vector<N32> v(len); for (uint32_t i = 0; i < len; i++) { N32 c; memcpy(c.b, sig + 36 + 32 * i, 32); v[i] = chain(c, d[i], w - 1, ps, idx, i); }
    N32 x = ltree(v, ps, idx); const uint8_t *au = sig + 36 + 32 * len;
    for (uint32_t l = 0; l < h; l++) {
      N32 a; memcpy(a.b, au + 32 * l, 32); uint64_t q = idx >> (l + 1);
      x = ((idx >> l) & 1) ? node(a, x, ps, ndAdr(l, q)) : node(x, a, ps, ndAdr(l, q));
    }
    return x;
  }
};
