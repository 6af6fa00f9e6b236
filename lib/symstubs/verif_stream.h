// Small model of the iostream classes the library uses (symbolic side only).  Text in which a dictionary word stands as
// a whole is kept as a 3-byte token (0xF5, 0x80|low 6 bits, 0x80|high 6 bits) so that a symbolic word index stays symbolic;
// job `dictionary` of C12 establishes that words are distinct, non-empty, lower-case letters only.
#pragma once
#include <string>
#include <iosfwd>
#include <array>
#include <vector>
#include <cstring>
#include <cstdint>
#include "sym.h"
extern __attribute__((weak)) const std::array<std::string, 4096> wordlist;
inline std::string verif_urandom; inline bool verif_failed = false;
static inline bool verif_is_token(const std::string &s) { return s.size() == 3 && (uint8_t)s[0] == 0xF5; }
static inline std::string verif_token(uint64_t id) { std::string r(3, 0); r[0] = (char)0xF5; r[1] = (char)(0x80 | (id & 63)); r[2] = (char)(0x80 | ((id >> 6) & 127)); return r; }
static inline uint32_t verif_token_id(const std::string &s) { return ((uint8_t)s[1] & 63) | ((uint32_t)((uint8_t)s[2] & 127) << 6); }
namespace std {
class ios_base {
public:
  typedef unsigned fmtflags; typedef unsigned openmode; typedef unsigned iostate; typedef int seekdir;
  static constexpr openmode in = 1, out = 2, binary = 4, ate = 8, app = 16, trunc = 32;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static constexpr fmtflags dec = 1, hex = 2, oct = 4, basefield = 7, uppercase = 8;
  iostate st = 0; fmtflags fl = dec; unsigned wid = 0;
  unsigned width() const { return wid; } unsigned width(unsigned w) { unsigned o = wid; wid = w; return o; }
  fmtflags flags() const { return fl; } fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl; fl = (fl & ~m) | f; return o; } fmtflags setf(fmtflags f) { fmtflags o = fl; fl |= f; return o; }
  virtual ~ios_base() {}
};
template <class C, class T> class basic_ios : public ios_base {
public:
  C fi = ' '; C widen(char c) const { return c; } C fill() const { return fi; } C fill(C c) { C o = fi; fi = c; return o; }
  bool good() const { return st == 0; } bool eof() const { return st & eofbit; } bool fail() const { return st & (failbit | badbit); } bool bad() const { return st & badbit; }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); } void clear(iostate s = 0) { st = s; } void setstate(iostate s) { st |= s; } iostate rdstate() const { return st; }
};
struct _VSetw { int n; }; inline _VSetw setw(int n) { return {n}; }
template <class C> struct _VSetfill { C c; }; template <class C> inline _VSetfill<C> setfill(C c) { return {c}; }
inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base &uppercase(ios_base &b) { b.fl |= ios_base::uppercase; return b; }
inline ios_base &nouppercase(ios_base &b) { b.fl &= ~ios_base::uppercase; return b; }
template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
public:
  std::string vbuf;
  void vput(const std::string &s) { while (this->wid > s.size()) { vbuf.push_back(this->fi); this->wid--; } this->wid = 0; vbuf += s; }
  basic_ostream &operator<<(const std::string &s) {
    if (&wordlist != nullptr) { uintptr_t d = (uintptr_t)&s - (uintptr_t)&wordlist; if (d < 4096 * sizeof(std::string) && this->wid == 0) { vbuf += verif_token(d / sizeof(std::string)); return *this; } }
    vput(s); return *this; }
  basic_ostream &operator<<(const char *s) { vput(s); return *this; }
  basic_ostream &operator<<(char c) { vput(std::string(1, c)); return *this; }
  basic_ostream &operator<<(unsigned char c) { vput(std::string(1, (char)c)); return *this; }
  basic_ostream &vnum(uint64_t v, bool neg) {
    if (this->fl & ios_base::hex) {
      // digits are computed without branching; the number of significant digits is split into cases unless padding with '0' hides it
      char d[16]; const char A = (this->fl & ios_base::uppercase) ? 'A' : 'a'; for (int i = 0; i < 16; i++) { unsigned q = (v >> (4 * i)) & 15; d[i] = (char)('0' + q + (q > 9 ? (unsigned)(A - '0' - 10) : 0u)); }
      unsigned n = 1; if (this->fi == '0' && this->wid) { n = this->wid; } while (n < 16 && (v >> (4 * n)) != 0) n++;
      std::string s; while (n) s.push_back(d[--n]); vput(s); return *this;
    }
    v = sym_concretize(v); std::string s; do { s.insert(s.begin(), (char)('0' + v % 10)); v /= 10; } while (v); if (neg) s.insert(s.begin(), '-'); vput(s); return *this;
  }
  basic_ostream &operator<<(int v) { if (this->fl & ios_base::hex) return vnum((unsigned)v, false); return v < 0 ? vnum(-(int64_t)v, true) : vnum(v, false); }
  basic_ostream &operator<<(unsigned v) { return vnum(v, false); }
  basic_ostream &operator<<(short v) { if (this->fl & ios_base::hex) return vnum((unsigned short)v, false); return *this << (int)v; }
  basic_ostream &operator<<(unsigned short v) { return vnum(v, false); }
  basic_ostream &operator<<(long v) { if (this->fl & ios_base::hex) return vnum((unsigned long)v, false); return v < 0 ? vnum(-(uint64_t)v, true) : vnum(v, false); }
  basic_ostream &operator<<(unsigned long v) { return vnum(v, false); }
  basic_ostream &operator<<(long long v) { return *this << (long)v; }
  basic_ostream &operator<<(unsigned long long v) { return vnum(v, false); }
  basic_ostream &operator<<(bool v) { return vnum(v, false); }
  basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
  basic_ostream &operator<<(_VSetw w) { this->wid = w.n; return *this; }
  basic_ostream &operator<<(_VSetfill<C> c) { this->fi = c.c; return *this; }
  basic_ostream &put(C c) { vbuf.push_back(c); return *this; }
  basic_ostream &write(const C *p, long n) { vbuf.append(p, n); return *this; }
  basic_ostream &flush() { return *this; }
};
template <class C, class T> basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { o.put('\n'); return o; }
template <class C, class T> class basic_istream : virtual public basic_ios<C, T> {
public:
  std::string vin; size_t vpos = 0, vgc = 0;
  size_t vstep() const { return (uint8_t)vin[vpos] == 0xF5 ? 3 : 1; }
  static bool vspace(char c) { return c == ' ' || (c >= 9 && c <= 13); }
  virtual void vsync() {}
  basic_istream &operator>>(std::string &w) {
    vsync(); if (this->fail()) return *this;
    if (this->eof()) { this->st |= ios_base::failbit; return *this; }
    w.clear(); while (vpos < vin.size() && vspace(vin[vpos])) vpos++;
    size_t b = vpos; while (vpos < vin.size() && !vspace(vin[vpos])) vpos += vstep();
    w.assign(vin, b, vpos - b); if (vpos >= vin.size()) { this->st |= ios_base::eofbit; } if (vpos == b) this->st |= ios_base::failbit;
    return *this;
  }
  basic_istream &operator>>(C &c) { vsync(); while (vpos < vin.size() && vspace(vin[vpos])) vpos++; if (vpos >= vin.size()) { this->st |= ios_base::eofbit | ios_base::failbit; return *this; } c = vin[vpos++]; return *this; }
  basic_istream &vgetline(std::string &w, C dl) {
    vsync(); w.clear(); if (this->st) { this->st |= ios_base::failbit; return *this; } if (vpos >= vin.size()) { this->st |= ios_base::eofbit | ios_base::failbit; return *this; }
    while (vpos < vin.size()) { if (vin[vpos] == dl) { vpos++; return *this; } size_t n = vstep(); w.append(vin, vpos, n); vpos += n; }
    this->st |= ios_base::eofbit; return *this; }
  int get() { vsync(); if (vpos >= vin.size()) { this->st |= ios_base::eofbit | ios_base::failbit; return -1; } return (unsigned char)vin[vpos++]; }
  int peek() { vsync(); if (vpos >= vin.size()) { this->st |= ios_base::eofbit; return -1; } return (unsigned char)vin[vpos]; }
  size_t gcount() const { return vgc; }
};
template <> inline basic_istream<char> &getline(basic_istream<char> &i, string &w, char d) { return i.vgetline(w, d); }
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {};
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> {
public:
  size_t given = 0;
  basic_stringstream() {} explicit basic_stringstream(const std::string &s, ios_base::openmode = 3) { this->vin = s; }
  std::string str() const { return this->vbuf; } void str(const std::string &s) { this->vin = s; this->vpos = 0; this->vbuf = s; given = 0; }
  void vsync() override { if (this->vbuf.size() > given) { this->vin.append(this->vbuf, given, std::string::npos); given = this->vbuf.size(); } }
};
template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> { public: basic_ostringstream() {} std::string str() const { return this->vbuf; } void str(const std::string &s) { this->vbuf = s; } };
template <class C, class T, class A> class basic_istringstream : public basic_istream<C, T> { public: basic_istringstream() {} explicit basic_istringstream(const std::string &s, ios_base::openmode = 1) { this->vin = s; } };
_GLIBCXX_END_NAMESPACE_CXX11
// files: opening and reading succeed or fail arbitrarily; the bytes read are arbitrary (input "urandom")
template <class C, class T> class basic_ifstream : public basic_istream<C, T> {
public:
  bool op = false; basic_ifstream() {} explicit basic_ifstream(const char *p, ios_base::openmode m = 1) { open(p, m); } explicit basic_ifstream(const std::string &p, ios_base::openmode m = 1) { open(p.c_str(), m); }
  void open(const char *p, ios_base::openmode = 1) { if (strcmp(p, "/dev/urandom") || (sym_u8("urandom-open-fails") & 1)) { this->st |= ios_base::failbit; verif_failed = true; } else op = true; }
  bool is_open() const { return op; } void close() { if (!op) this->st |= ios_base::failbit; op = false; }
  basic_ifstream &read(C *p, long n) {
    this->vgc = 0; if (this->st) { this->st |= ios_base::failbit; return *this; } uint64_t got = n;
    if (n && (sym_u8("urandom-short-read") & 1)) { uint64_t q[4] = {0, 1, (uint64_t)n / 2, (uint64_t)n - 1}; got = q[sym_pick("urandom-count", 0, 3)]; if (got >= (uint64_t)n) got = n - 1; this->st |= ios_base::eofbit | ios_base::failbit; verif_failed = true; }
    if (got) { std::string v((size_t)n, 0); sym_bytes(&v[0], n, "urandom"); memcpy(p, v.data(), got); verif_urandom.append(v, 0, got); } this->vgc = got; return *this; }
  int get() { uint8_t b; read((C *)&b, 1); return this->st ? -1 : b; }
};
inline ostream cout, cerr, clog;
}
