// C12: mnemonics and hex strings.  In symbolic runs a dictionary word whose index is symbolic is a token (lib/symstubs/verif_stream.h);
// native runs use the words themselves.
#include "spec.h"
#include "qrl/misc.h"
#include "qrl/wordlist.h"
#include <string>
#ifndef VERIF_NATIVE
#include "verif_stream.h"
#ifdef P_RUST // the token of lib/rust/shim.rs
static std::string word(uint32_t i) { std::string r(4, 1); r[1] = 0x40 | (i & 15); r[2] = 0x40 | (i >> 4 & 15); r[3] = 0x40 | (i >> 8 & 15); return r; }
#else
static std::string word(uint32_t i) { return verif_token(i); }
#endif
#else
static std::string word(uint32_t i) { return wordlist[i]; }
#endif
static Bytes arb(size_t n, const char *nm) { Bytes b(n); if (n) sym_bytes(b.data(), n, nm); return b; }
static uint32_t word12(const Bytes &b, size_t i) { size_t p = i * 12 / 8; return i & 1 ? (b[p] & 15u) << 8 | b[p + 1] : (uint32_t)b[p] << 4 | b[p + 1] >> 4; }
#ifdef P_RUST
#include "rs.h"
static const uint8_t *up(const std::string &s) { return (const uint8_t *)s.data(); }
static std::string txt(int64_t n, const Bytes &o) { n = (int64_t)sym_concretize((uint64_t)n); if (n < 0) throw std::invalid_argument("refused"); return std::string((const char *)o.data(), n); }
static std::string rust_bin2mnemonic(const Bytes &v) { Bytes o(v.size() * 12 + 64); return txt(rs_bin2mnemonic(v.data(), v.size(), o.data()), o); }
static std::string rust_bin2hstr(const Bytes &v, uint32_t w = 0) { Bytes o(v.size() * 3 + 64); return txt(rs_bin2hstr(v.data(), v.size(), w, o.data()), o); }
static std::string rust_bin2hstr(const std::string &v, uint32_t w = 0) { Bytes o(v.size() * 3 + 64); return txt(rs_binstr2hstr(up(v), v.size(), w, o.data()), o); }
static Bytes rust_str2bin(const std::string &v) { Bytes o(v.size() + 64); std::string s = txt(rs_str2bin(up(v), v.size(), o.data()), o); return Bytes(s.begin(), s.end()); }
static bool rd(int64_t n, Bytes &r, const Bytes &o) { n = (int64_t)sym_concretize((uint64_t)n); if (n < 0) return false; r.assign(o.begin(), o.begin() + n); return true; }
static bool dec(const std::string &s, Bytes &r) { Bytes o(s.size() * 2 + 64); return rd(rs_mnemonic2bin(up(s), s.size(), o.data()), r, o); }
static bool decx(const std::string &s, Bytes &r) { Bytes o(s.size() + 64); return rd(rs_hstr2bin(up(s), s.size(), o.data()), r, o); }
#define bin2mnemonic rust_bin2mnemonic
#define bin2hstr rust_bin2hstr
#define str2bin rust_str2bin
#else
static bool dec(const std::string &s, Bytes &r) { try { r = mnemonic2bin(s); return true; } catch (std::exception &) { return false; } }
static bool decx(const std::string &s, Bytes &r) { try { r = hstr2bin(s); return true; } catch (std::exception &) { return false; } }
#endif
static void same(const std::string &a, const std::string &b, const char *id) { sym_assert(a.size() == b.size(), id); if (a.size() == b.size()) sym_equal(a.data(), b.data(), a.size(), id); }
static void sameb(const Bytes &a, const Bytes &b, const char *id) { sym_assert(a.size() == b.size(), id); if (a.size() == b.size()) sym_equal(a.data(), b.data(), a.size(), id); }
static char hexd(unsigned q) { return q > 9 ? 'a' + q - 10 : '0' + q; }
static std::string hexs(const Bytes &b) { std::string s; for (uint8_t x : b) { s.push_back(hexd(x >> 4)); s.push_back(hexd(x & 15)); } return s; }
extern "C" void harness() {
#if P_MODE == 0 // the dictionary itself: words are distinct (strictly ordered), non-empty and lower-case letters only
  sym_assert(wordlist.size() == 4096, "dictionary-size"); uint32_t bad = 0, unordered = 0;
#ifdef P_RUST // the same words in the same order
  sym_assert(rs_word_count() == 4096, "dictionary-size"); for (size_t i = 0; i < 4096; i++) { size_t n = 0; const uint8_t *w = rs_word(i, &n); if (n != wordlist[i].size() || memcmp(w, wordlist[i].data(), n)) { sym_assert(0, "rust-dictionary-is-the-same"); break; } }
#endif
  for (size_t i = 0; i < 4096; i++) { const std::string &w = wordlist[i]; if (w.empty() || w.size() > 15) bad++; for (char c : w) if (c < 'a' || c > 'z') bad++; if (i && !(wordlist[i - 1] < w)) unordered++; }
  sym_assert(bad == 0, "words-are-lower-case-letters");
  if (unordered) for (size_t i = 0; i < 4096; i++) for (size_t j = i + 1; j < 4096; j++) if (wordlist[i].size() == wordlist[j].size() && wordlist[i] == wordlist[j]) { sym_assert(0, "words-are-distinct"); i = j = 4096; }
#elif P_MODE == 1 // round trip, exact text
  for (size_t g = P_LO; g <= P_HI; g++) {
    Bytes v = arb(3 * g, "bytes"), v0 = v; std::string m = bin2mnemonic(v), e; for (size_t i = 0; i < 2 * g; i++) { if (i) e += " "; e += word(word12(v0, i)); }
    same(m, e, "mnemonic-text"); Bytes r; sym_assert(dec(m, r), "own-mnemonic-accepted"); sameb(r, v0, "mnemonic-roundtrip"); sameb(v, v0, "input-unchanged");
  }
#elif P_MODE == 2 // sizes that are not a multiple of three
  for (size_t n = 0; n <= 64; n++) { Bytes v = arb(n, "bytes"); bool t = false; try { bin2mnemonic(v); } catch (std::exception &) { t = true; } sym_assert(t == (n % 3 != 0), "only-multiples-of-three"); }
#elif P_MODE == 3 // any sequence of dictionary words, separators of all kinds
  static const char *const SEP[] = {" ", "  ", "\t", "\n", " \r\n ", "\v", "\f "};
  uint32_t k = sym_pick("words", 0, P_K), sp = sym_pick("sep", 0, 6), lead = sym_pick("lead", 0, 1), trail = sym_pick("trail", 0, 1), alt = sym_pick("alt", 0, 1);
  std::string s, norm; Bytes e; uint32_t prev = 0; if (lead) s += SEP[sp];
  for (uint32_t i = 0; i < k; i++) {
    uint32_t w = sym_u16("w") & 0xfff; if (i) { s += alt && (i & 1) ? " " : SEP[sp]; norm += " "; } s += word(w); norm += word(w);
    if (i & 1) { e.push_back(prev >> 4); e.push_back((prev & 15) << 4 | w >> 8); e.push_back(w); } prev = w;
  }
  if (trail) s += SEP[sp];
  Bytes r; bool ok = dec(s, r); sym_assert(ok == (k % 2 == 0), "even-number-of-words");
  if (ok) { sameb(r, e, "decoded-bytes"); same(bin2mnemonic(r), norm, "decode-encode-normalises"); sym_reach("decoded"); } else sym_reach("refused");
#elif P_MODE == 4 // one item is not (known to be) a dictionary word
  static const char *const NO[] = {"abackk", "Aback", "ABACK", "abac", "aback,able", "aback-able", "1", "qrl", "zzzzzz", "aback.", "\"aback\"", "abackable"};
  uint32_t k = sym_pick("words", 1, 4), at = sym_pick("at", 0, 3), which = sym_pick("which", 0, 11); sym_assume(at < k);
  std::string s; for (uint32_t i = 0; i < k; i++) { if (i) s += " "; s += i == at ? std::string(NO[which]) : word(sym_u16("w") & 0xfff); }
  Bytes r; sym_assert(!dec(s, r), "unknown-word-refused");
#elif P_MODE == 5 // two words, one is arbitrary text without separators
  uint32_t at = sym_pick("at", 0, 1), w = sym_u16("w") & 0xfff; std::string t(P_L, 0); sym_bytes(&t[0], P_L, "text"); bool clean = true;
  for (char c : t) { clean &= !(c == ' ' || (c >= 9 && c <= 13)); clean &= (uint8_t)c < 0x80;
#ifdef P_RUST
    clean &= c != 1; // the token mark
#endif
  } sym_assume(clean);
  uint32_t hit = 0; for (uint32_t i = 0; i < 4096; i++) { if (wordlist[i].size() != P_L) continue; uint32_t d = 0; for (int j = 0; j < P_L; j++) d |= (uint8_t)(wordlist[i][j] ^ t[j]); hit |= (uint32_t)-(int32_t)(d == 0) & (i + 1); }
  std::string s = at ? word(w) + " " + t : t + " " + word(w); Bytes r; bool ok = dec(s, r);
  if (hit == 0) { sym_assert(!ok, "unknown-word-refused"); sym_reach("refused"); }
  else { sym_assert(ok, "dictionary-word-accepted"); if (ok) { sym_assert(r.size() == 3, "decoded-size"); uint32_t x = at ? w : hit - 1, y = at ? hit - 1 : w; Bytes e{(uint8_t)(x >> 4), (uint8_t)((x & 15) << 4 | y >> 8), (uint8_t)y}; sameb(r, e, "decoded-bytes"); } sym_reach("decoded"); }
#elif P_MODE == 6 // arbitrary short text: separators only, or refused
  uint32_t n = sym_pick("n", 0, P_L); std::string t(n, 0); if (n) sym_bytes(&t[0], n, "text"); bool blank = true, asc = true; for (char c : t) { blank &= c == ' ' || (c >= 9 && c <= 13); asc &= (uint8_t)c < 0x80; asc &= c != 1; } sym_assume(asc);
  Bytes r; bool ok = dec(t, r); sym_assert(ok == blank, "short-text-refused"); if (ok) sym_assert(r.empty(), "blank-text-is-empty");
#elif P_MODE == 7 // hex
#ifdef P_RUST
  for (size_t n : {0, 1, 2, 3, 5, 7, 8}) {
#else
  for (size_t n : {0, 1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 33, 48, 51, 64, 67}) {
#endif
    Bytes v = arb(n, "bytes"), v0 = v; std::string h = bin2hstr(v), e = hexs(v0); same(h, e, "hex-text"); Bytes r; sym_assert(decx(h, r), "own-hex-accepted"); sameb(r, v0, "hex-roundtrip"); sameb(v, v0, "input-unchanged");
#ifdef P_RUST
    for (auto &x : v) x &= 0x7f; v0 = v; e = hexs(v0); // Rust strings are UTF-8; ASCII text
#endif
    std::string st(v0.begin(), v0.end()); same(bin2hstr(st), e, "hex-text-of-string"); sameb(str2bin(st), v0, "bytes-of-string");
    if (n == 7 || n == 8 || n == 33) for (uint32_t w = 1; w <= 9; w++) { std::string x; for (size_t i = 0; i < n; i++) { if (i && i % w == 0) x += "\n"; x += e.substr(2 * i, 2); } same(bin2hstr(v, w), x, "wrapped-hex-text"); same(bin2hstr(st, w), x, "wrapped-hex-text"); }
  }
#else // any text
  for (size_t n = P_LO; n <= P_HI; n++) {
    std::string t(n, 0); if (n) sym_bytes(&t[0], n, "text"); bool good = n % 2 == 0;
#ifdef P_RUST
    bool asc = true; for (char c : t) asc &= (uint8_t)c < 0x80; sym_assume(asc);
#endif
 Bytes e(n / 2);
    for (size_t i = 0; i + 1 < n + 1 && i < n; i++) { uint8_t c = t[i]; bool d = (uint8_t)(c - '0') < 10, l = (uint8_t)(c - 'a') < 6, u = (uint8_t)(c - 'A') < 6; good &= d | l | u; uint8_t q = d ? c - '0' : l ? c - 'a' + 10 : c - 'A' + 10; if (i / 2 < e.size()) e[i / 2] = i & 1 ? e[i / 2] | q : q << 4; }
    Bytes r; bool ok = decx(t, r); sym_assert(ok == good, "exactly-hex-digits-accepted"); if (ok) { sameb(r, e, "hex-value"); sameb(str2bin(t), Bytes(t.begin(), t.end()), "bytes-of-string"); }
  }
#endif
  sym_reach("end");
}
