// Native replay: /dev/urandom as seen by the library is served from the counterexample's inputs.
#include "sym.h"
#include <string>
#include <cstdio>
#include <cerrno>
#include <cstring>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/syscall.h>
std::string verif_urandom; size_t verif_want = 0; static int ufd = -1, first = 1; static long left = -1;
static FILE *op(const char *nm, const char *p, const char *m) {
  bool u = !strcmp(p, "/dev/urandom"); if (u && (sym_u8("urandom-open-fails") & 1)) { errno = ENOENT; return nullptr; }
  FILE *f = ((FILE * (*)(const char *, const char *)) dlsym(RTLD_NEXT, nm))(p, m); if (f && u) { ufd = fileno(f); first = 1; left = -1; } return f; }
extern "C" FILE *fopen(const char *p, const char *m) { return op("fopen", p, m); }
extern "C" FILE *fopen64(const char *p, const char *m) { return op("fopen64", p, m); }
extern "C" ssize_t read(int fd, void *b, size_t n) {
  if (fd != ufd || fd < 0) return syscall(SYS_read, fd, b, n);
  if (first) { first = 0; if (verif_want && (sym_u8("urandom-short-read") & 1)) { long q[4] = {0, 1, (long)verif_want / 2, (long)verif_want - 1}; left = q[sym_pick("urandom-count", 0, 3)]; if (left >= (long)verif_want) left = verif_want - 1; } }
  std::string v(verif_want > n ? verif_want : n, 0); sym_bytes(&v[0], v.size(), "urandom"); size_t g = n; if (left >= 0) { if ((long)g > left) g = left; left -= g; }
  memcpy(b, v.data(), g); verif_urandom.append(v, 0, g); return g; }
