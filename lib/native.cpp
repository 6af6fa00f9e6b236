// Native side of the harness interface: runs a harness against the real code on concrete inputs.
//   prog [-i inputs] [-r seed] [-m]      -m: hash primitives replaced by the counterexample's own hash function
// exit 0: no assertion failed; 1: an assertion failed; 77: an assumption did not hold
#ifndef VERIF_NATIVE
#define VERIF_NATIVE
#endif
#include "sym.h"
#include <ucontext.h>
#include <pthread.h>
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/common_interface_defs.h>
#endif
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <exception>
#include <typeinfo>
typedef uint64_t u64; typedef std::vector<uint8_t> V;
static std::map<std::string, V> gIn; static std::map<std::string, int> gCnt; static std::map<std::pair<std::string, V>, V> gTab;
static bool gRandom = false; static u64 gSeed = 1; static int gFail = 0; static bool gModel = false; static std::set<std::string> gReach;
static u64 rnd() { gSeed ^= gSeed << 13; gSeed ^= gSeed >> 7; gSeed ^= gSeed << 17; return gSeed * 0x2545F4914F6CDD1DULL; }
// ---- reference hash functions
static u64 rol(u64 x, int n) { return n ? (x << n) | (x >> (64 - n)) : x; }
static void keccakf(u64 s[25]) {
  static const int R[25] = {0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14};
  u64 lfsr = 1;
  for (int rd = 0; rd < 24; rd++) {
    u64 c[5], d, b[25];
    for (int x = 0; x < 5; x++) c[x] = s[x] ^ s[x + 5] ^ s[x + 10] ^ s[x + 15] ^ s[x + 20];
    for (int x = 0; x < 5; x++) { d = c[(x + 4) % 5] ^ rol(c[(x + 1) % 5], 1); for (int y = 0; y < 5; y++) s[x + 5 * y] ^= d; }
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) b[y + 5 * ((2 * x + 3 * y) % 5)] = rol(s[x + 5 * y], R[x + 5 * y]);
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) s[x + 5 * y] = b[x + 5 * y] ^ (~b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
    u64 rc = 0; for (int j = 0; j < 7; j++) { if (lfsr & 1) rc |= 1ULL << ((1 << j) - 1); lfsr <<= 1; if (lfsr & 0x100) lfsr ^= 0x171; }
    s[0] ^= rc;
  }
}
static void shake(unsigned rate, uint8_t *out, size_t ol, const uint8_t *in, size_t il) {
  u64 s[25] = {0}; uint8_t *b = (uint8_t *)s; size_t p = 0;
  for (size_t i = 0; i < il; i++) { b[p++] ^= in[i]; if (p == rate) { keccakf(s); p = 0; } }
  b[p] ^= 0x1f; b[rate - 1] ^= 0x80; keccakf(s); p = 0;
  for (size_t i = 0; i < ol; i++) { if (p == rate) { keccakf(s); p = 0; } out[i] = b[p++]; }
}
static uint32_t ror(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
static bool isPrime(int n) { for (int i = 2; i * i <= n; i++) if (n % i == 0) return false; return n > 1; }
static uint32_t fracBits(int p, int root) { // first 32 fractional bits of p^(1/root)
  typedef unsigned __int128 W; u64 lo = 0, hi = 1ULL << 36;
  while (lo + 1 < hi) { u64 m = (lo + hi) / 2; bool le; if (root == 2) le = (W)m * m <= (W)p << 64; else { // m^3 <= p*2^96
      W a = (W)m * m; W ah = a >> 64, al = (u64)a; W l = al * m, h = ah * m + (l >> 64); le = h < ((W)p << 32); }
    if (le) lo = m; else hi = m; }
  return (uint32_t)lo;
}
static void sha256(uint8_t *out, const uint8_t *in, size_t il) {
  static uint32_t K[64], H0[8]; static bool init = false;
  if (!init) { int n = 0; for (int p = 2; n < 64; p++) if (isPrime(p)) { if (n < 8) H0[n] = fracBits(p, 2); K[n++] = fracBits(p, 3); } init = true; }
  uint32_t h[8]; memcpy(h, H0, 32); V m(in, in + il); m.push_back(0x80); while (m.size() % 64 != 56) m.push_back(0);
  for (int i = 7; i >= 0; i--) m.push_back((u64)il * 8 >> (8 * i));
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[64]; for (int i = 0; i < 16; i++) w[i] = m[o + 4 * i] << 24 | m[o + 4 * i + 1] << 16 | m[o + 4 * i + 2] << 8 | m[o + 4 * i + 3];
    for (int i = 16; i < 64; i++) { uint32_t a = ror(w[i - 15], 7) ^ ror(w[i - 15], 18) ^ (w[i - 15] >> 3), b = ror(w[i - 2], 17) ^ ror(w[i - 2], 19) ^ (w[i - 2] >> 10); w[i] = w[i - 16] + a + w[i - 7] + b; }
    uint32_t s[8]; memcpy(s, h, 32);
    for (int i = 0; i < 64; i++) {
      uint32_t t1 = s[7] + (ror(s[4], 6) ^ ror(s[4], 11) ^ ror(s[4], 25)) + ((s[4] & s[5]) ^ (~s[4] & s[6])) + K[i] + w[i];
      uint32_t t2 = (ror(s[0], 2) ^ ror(s[0], 13) ^ ror(s[0], 22)) + ((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]));
      memmove(s + 1, s, 28); s[4] += t1; s[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) h[i] += s[i];
  }
  for (int i = 0; i < 32; i++) out[i] = h[i / 4] >> (24 - 8 * (i % 4));
}
// ---- the counterexample's hash function (same as the engine's)
static u64 mixh(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 33); }
extern "C" {
void sym_hash(const char *fn, uint8_t *out, size_t ol, const uint8_t *in, size_t il) {
  if (gModel || (strcmp(fn, "shake128") && strcmp(fn, "shake256") && strcmp(fn, "sha256"))) {
    auto f = gTab.find({fn, V(in, in + il)}); u64 h = 0x1234567; for (const char *p = fn; *p; p++) h = mixh(h, (uint8_t)*p); h = mixh(h, il);
    for (size_t i = 0; i < il; i++) h = mixh(h, in[i]);
    for (size_t i = 0; i < ol; i++) out[i] = f != gTab.end() && i < f->second.size() ? f->second[i] : (uint8_t)(mixh(h, i) >> 56);
    return;
  }
  if (!strcmp(fn, "sha256")) { uint8_t d[32]; sha256(d, in, il); for (size_t i = 0; i < ol; i++) out[i] = i < 32 ? d[i] : 0; return; }
  shake(fn[5] == '1' ? 168 : 136, out, ol, in, il);
}
void sym_bytes(void *p, size_t n, const char *name) {
  int q = gCnt[name]++; std::string k = q ? std::string(name) + "#" + std::to_string(q) : name;
  auto f = gIn.find(k); uint8_t *b = (uint8_t *)p;
  for (size_t i = 0; i < n; i++) b[i] = f != gIn.end() ? (i < f->second.size() ? f->second[i] : 0) : gRandom ? rnd() >> 40 : 0;
}
uint64_t sym_pick(const char *name, uint64_t lo, uint64_t hi) {
  uint32_t v; sym_bytes(&v, 4, name); if (gRandom) v = lo + v % (hi - lo + 1); sym_assume(v >= lo && v <= hi); return v;
}
void sym_assume(uint64_t c) { if (!c) { printf("ASSUMPTION-NOT-MET\n"); fflush(stdout); _Exit(77); } }
void sym_assert(uint64_t c, const char *id) { if (!c) { printf("ASSERTION-FAILED %s\n", id); fflush(stdout); gFail = 1; } }
void sym_equal(const void *a, const void *b, size_t n, const char *id) {
  const uint8_t *x = (const uint8_t *)a, *y = (const uint8_t *)b;
  for (size_t i = 0; i < n; i++) if (x[i] != y[i]) { printf("ASSERTION-FAILED %s (byte %zu: %02x != %02x)\n", id, i, x[i], y[i]); fflush(stdout); gFail = 1; return; }
}
void sym_reach(const char *id) { if (gReach.insert(id).second) printf("REACHED %s\n", id); }
uint64_t sym_concretize(uint64_t v) { return v; }
uint64_t sym_choice(const char *name, uint64_t n) { uint8_t v; sym_bytes(&v, 1, name); if (gRandom) v %= n; sym_assume(v < n); return v; }
uint64_t sym_same(const void *a, const void *b, size_t n) { return !memcmp(a, b, n); }
struct Co { ucontext_t c; void (*fn)(void *); void *arg; char *st; size_t sz; void *fake = nullptr; }; static std::vector<Co *> gCo; static size_t gCur = 0;
static void coDone() {
#ifdef __SANITIZE_ADDRESS__
  __sanitizer_finish_switch_fiber(gCo[gCur]->fake, nullptr, nullptr);
#endif
}
static void coEntry() { coDone(); gCo[gCur]->fn(gCo[gCur]->arg); abort(); }
static void coMain() { if (!gCo.empty()) return; Co *m = new Co(); pthread_attr_t a; pthread_getattr_np(pthread_self(), &a); void *p; pthread_attr_getstack(&a, &p, &m->sz); m->st = (char *)p; gCo.push_back(m); }
uint64_t sym_co_new(void (*fn)(void *), void *arg) { coMain(); Co *c = new Co(); c->fn = fn; c->arg = arg; c->sz = 1 << 20; c->st = (char *)malloc(c->sz); getcontext(&c->c); c->c.uc_stack.ss_sp = c->st; c->c.uc_stack.ss_size = c->sz; c->c.uc_link = nullptr; makecontext(&c->c, coEntry, 0); gCo.push_back(c); return gCo.size() - 1; }
void sym_co_switch(uint64_t id) { coMain(); if (id == gCur) return; Co *o = gCo[gCur], *n = gCo[id]; gCur = id;
#ifdef __SANITIZE_ADDRESS__
  __sanitizer_start_switch_fiber(&o->fake, n->st, n->sz);
#endif
  swapcontext(&o->c, &n->c); coDone(); }
void sym_nomerge(uint64_t) {}
void sym_note(const char *, uint64_t) {}
void sym_assert_init(const void *p, size_t n, const char *id) { static volatile uint8_t sink; const uint8_t *b = (const uint8_t *)p; for (size_t i = 0; i < n; i++) if (b[i]) sink = 1; } // branches: valgrind reports uninitialised bytes
void harness();
}
static V unhex(const char *s) { V v; while (s[0] && s[1] && s[0] != '\n') { unsigned x; sscanf(s, "%2x", &x); v.push_back(x); s += 2; } return v; }
int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "-r")) { gRandom = true; gSeed = strtoull(argv[++i], 0, 10) * 2654435761u + 12345; for (int k = 0; k < 20; k++) rnd(); }
    else if (!strcmp(argv[i], "-m")) gModel = true;
    else if (!strcmp(argv[i], "-i")) {
      FILE *f = fopen(argv[++i], "r"); if (!f) return 3; char *line = nullptr; size_t cap = 0;
      while (getline(&line, &cap, f) > 0) {
        std::vector<std::string> w; char *sv; for (char *t = strtok_r(line, " \n", &sv); t; t = strtok_r(nullptr, " \n", &sv)) w.push_back(t);
        if (w.size() >= 2 && w[0] == "in") gIn[w[1]] = w.size() > 2 ? unhex(w[2].c_str()) : V();
        if (w.size() >= 3 && w[0] == "hash") gTab[{w[1], w[2] == "-" ? V() : unhex(w[2].c_str())}] = w.size() > 3 ? unhex(w[3].c_str()) : V();
      }
      free(line); fclose(f);
    }
  }
  try { harness(); } catch (std::exception &e) { printf("UNCAUGHT-EXCEPTION %s %s\n", typeid(e).name(), e.what()); return 1; } catch (...) { printf("UNCAUGHT-EXCEPTION ?\n"); return 1; }
  printf(gFail ? "FAILED\n" : "PASSED\n"); return gFail;
}
