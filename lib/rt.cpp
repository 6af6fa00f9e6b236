// Symbolic-side definitions of the out-of-line libstdc++ pieces the code needs.
#include <stdexcept>
#include <new>
#include <string>
#include <typeinfo>
#include <system_error>
#include <cstring>
template class std::basic_string<char>;
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
__cow_string::__cow_string() {}
__cow_string::__cow_string(const std::string &) {}
__cow_string::__cow_string(const char *, size_t) {}
__cow_string::__cow_string(const __cow_string &) noexcept {}
__cow_string &__cow_string::operator=(const __cow_string &) noexcept { return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string &&) noexcept {}
__cow_string &__cow_string::operator=(__cow_string &&) noexcept { return *this; }
#define E(cls, base) \
  cls::cls(const string &m) : base(m) {} \
  cls::cls(const char *m) : base(m) {} \
  cls::~cls() noexcept {}
logic_error::logic_error(const string &) : _M_msg() {}
logic_error::logic_error(const char *) : _M_msg() {}
logic_error::logic_error(const logic_error &) noexcept {}
logic_error &logic_error::operator=(const logic_error &) noexcept { return *this; }
logic_error::logic_error(logic_error &&) noexcept {}
logic_error &logic_error::operator=(logic_error &&) noexcept { return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return "logic_error"; }
runtime_error::runtime_error(const string &) : _M_msg() {}
runtime_error::runtime_error(const char *) : _M_msg() {}
runtime_error::runtime_error(const runtime_error &) noexcept {}
runtime_error &runtime_error::operator=(const runtime_error &) noexcept { return *this; }
runtime_error::runtime_error(runtime_error &&) noexcept {}
runtime_error &runtime_error::operator=(runtime_error &&) noexcept { return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return "runtime_error"; }
E(invalid_argument, logic_error) E(domain_error, logic_error) E(length_error, logic_error) E(out_of_range, logic_error)
E(range_error, runtime_error) E(overflow_error, runtime_error) E(underflow_error, runtime_error)
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_logic_error(const char *m) { throw logic_error(m); }
void __throw_length_error(const char *m) { throw length_error(m); }
void __throw_out_of_range(const char *m) { throw out_of_range(m); }
void __throw_out_of_range_fmt(const char *m, ...) { throw out_of_range(m); }
void __throw_invalid_argument(const char *m) { throw invalid_argument(m); }
void __throw_runtime_error(const char *m) { throw runtime_error(m); }
struct __verif_bfc : exception {};
void __throw_bad_function_call() { throw __verif_bfc(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
}
char __libc_single_threaded = 1;
extern "C" {
// no branches: keeps the paths through text processing few
int strcmp(const char *a, const char *b) { for (;; a++, b++) { int x = (unsigned char)*a, y = (unsigned char)*b; if (x != y) return x - y; if (!x) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { int x = (unsigned char)*a, y = (unsigned char)*b; if (x != y) return x - y; if (!x) return 0; } return 0; }
int isdigit(int c) { return (unsigned)(c - '0') < 10u; }
int isupper(int c) { return (unsigned)(c - 'A') < 26u; }
int islower(int c) { return (unsigned)(c - 'a') < 26u; }
int isxdigit(int c) { return ((unsigned)(c - '0') < 10u) | ((unsigned)(c - 'a') < 6u) | ((unsigned)(c - 'A') < 6u); }
int isspace(int c) { return (c == ' ') | ((unsigned)(c - 9) < 5u); }
int isalpha(int c) { return ((unsigned)(c - 'a') < 26u) | ((unsigned)(c - 'A') < 26u); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int tolower(int c) { return c + 32 * ((unsigned)(c - 'A') < 26u); }
int toupper(int c) { return c - 32 * ((unsigned)(c - 'a') < 26u); }
}
