// Stand-in for the (absent) PicoSHA2 submodule: SHA-256 as an oracle.
#pragma once
#include <vector>
#include <iterator>
#include <cstdint>
extern "C" void sym_hash(const char *fn, uint8_t *out, size_t outlen, const uint8_t *in, size_t inlen);
namespace picosha2 {
static const size_t k_digest_size = 32;
template <typename RaIter, typename OutIter>
void hash256(RaIter first, RaIter last, OutIter first2, OutIter last2, int = 0) {
  std::vector<uint8_t> in(first, last); uint8_t out[32];
  sym_hash("sha256", out, 32, in.data(), in.size());
  for (size_t i = 0; i < 32 && first2 != last2; i++, ++first2) *first2 = out[i];
}
template <typename C> void hash256(const C &src, std::vector<uint8_t> &dst) { hash256(src.begin(), src.end(), dst.begin(), dst.end()); }
}
