// Scheduler and happens-before race detector behind the concurrency stand-ins (lib/costubs).
// Threads are coroutines; every lock, wait, event and atomic operation on watched memory is a scheduling point. The default
// schedule runs a thread until it blocks; every deviation from it costs one of a bounded number of delays and is an explored input.
// Memory accesses of the checked translation units arrive through the compiler's thread-sanitizer instrumentation.
#include "sym.h"
#include "verif_co.h"
#include <cstdlib>
#include <cstring>
#include <new>
extern "C" char __libc_single_threaded;
#if defined(VERIF_NATIVE) && defined(__SANITIZE_ADDRESS__)
extern "C" void *__asan_region_is_poisoned(void *, size_t);
#endif
namespace verif {
struct Th { uint64_t co; void (*fn)(void *); void *arg; int kind; void *on; uint32_t gen; int done; Clock vc; };
enum { RUN, LOCK, LOCKSH, LOCKALL, EVENT, JOIN, CV, CVT };
static Th th[MAXT]; static int nth = 0, cur = 0, delays = 0, on = 0; static int allN; static uintptr_t wlo = 0, whi = 0;
static void join(Clock &a, const Clock &b) { for (int i = 0; i < nth; i++) if (a.c[i] < b.c[i]) a.c[i] = b.c[i]; }
static void tick() { th[cur].vc.c[cur]++; }
void co_fail(const char *what) { sym_assert(0, what); }
int co_self() { return cur; }
static bool freeLock(Lock *l, bool shared) { return l->owner == 0 && (shared || l->readers == 0); }
static bool canRun(int t) {
  Th &x = th[t]; if (x.done) return false;
  switch (x.kind) { case RUN: case CVT: return true; case LOCK: return freeLock((Lock *)x.on, false); case LOCKSH: return freeLock((Lock *)x.on, true);
    case LOCKALL: { Lock **l = (Lock **)x.on; for (; *l; l++) if (!freeLock(*l, false)) return false; return true; }
    case EVENT: return ((Event *)x.on)->set; case JOIN: return th[*(int *)x.on].done; case CV: return ((Waiters *)x.on)->gen != x.gen; }
  return false;
}
// the current thread is at a scheduling point (kind RUN) or has blocked: choose who continues
static void sched() {
  int c[MAXT], n = 0; for (int d = 0; d < nth; d++) { int t = (cur + d) % nth; if (canRun(t)) c[n++] = t; }
  if (n == 0) { sym_assert(0, "no-deadlock"); _Exit(1); }
  int k = 0; if (n > 1 && delays > 0) { k = (int)sym_choice("sched", n); if (k) delays--; }
  int t = c[k]; if (t != cur) { cur = t; sym_co_switch(th[t].co); }
}
static void blockOn(int kind, void *p) { if (!on) return; th[cur].kind = kind; th[cur].on = p; sched(); th[cur].kind = RUN; }
void co_yield(int) { if (on) { th[cur].kind = RUN; sched(); } }
static void entry(void *p) { int me = (int)(intptr_t)p; th[me].fn(th[me].arg); tick(); th[me].done = 1; for (;;) sched(); }
int co_spawn(void (*fn)(void *), void *arg, int) {
  if (nth >= MAXT) { co_fail("too-many-threads"); _Exit(1); }
  int t = nth++; Th &x = th[t]; x.fn = fn; x.arg = arg; x.kind = RUN; x.done = 0; x.vc = th[cur].vc; x.vc.c[t] = 1; tick(); x.co = sym_co_new(entry, (void *)(intptr_t)t); co_yield(); return t; }
void co_join(int t) { int k = t; if (!th[t].done) blockOn(JOIN, &k); join(th[cur].vc, th[t].vc); }
void co_lock(Lock *l, int rec) {
  if (!on) return;
  if (l->owner == cur + 1) { if (rec) { l->depth++; return; } co_fail("thread-locks-a-mutex-it-holds"); return; }
  blockOn(LOCK, l); l->owner = cur + 1; l->depth = 1; join(th[cur].vc, l->vc); }
bool co_trylock(Lock *l, int rec) { if (!on) return true; co_yield(); if (l->owner == cur + 1 && rec) { l->depth++; return true; } if (!freeLock(l, false)) return false; l->owner = cur + 1; l->depth = 1; join(th[cur].vc, l->vc); return true; }
void co_unlock(Lock *l) { if (!on) return; if (l->owner != cur + 1) { co_fail("mutex-unlocked-by-a-thread-not-holding-it"); return; } if (--l->depth) return; join(l->vc, th[cur].vc); tick(); l->owner = 0; co_yield(); }
void co_lock_shared(Lock *l) { if (!on) return; blockOn(LOCKSH, l); l->readers++; join(th[cur].vc, l->vc); }
bool co_trylock_shared(Lock *l) { if (!on) return true; co_yield(); if (!freeLock(l, true)) return false; l->readers++; join(th[cur].vc, l->vc); return true; }
void co_unlock_shared(Lock *l) { if (!on) return; if (l->readers <= 0) { co_fail("unlock_shared"); return; } join(l->vc, th[cur].vc); tick(); l->readers--; co_yield(); }
void co_lock_all(Lock **l, int n) { if (!on) return; blockOn(LOCKALL, l); for (int i = 0; i < n; i++) { l[i]->owner = cur + 1; l[i]->depth = 1; join(th[cur].vc, l[i]->vc); } }
void co_set(Event *e) { e->set = 1; if (!on) return; join(e->vc, th[cur].vc); tick(); co_yield(); }
void co_wait(Event *e) { if (!on) return; blockOn(EVENT, e); join(th[cur].vc, e->vc); }
bool co_test(Event *e) { if (!on) return e->set; co_yield(); if (!e->set) return false; join(th[cur].vc, e->vc); return true; }
void co_cv_wait(Waiters *w, Lock *l, bool timed) { if (!on) return; th[cur].gen = w->gen; int d = l->depth; l->depth = 0; join(l->vc, th[cur].vc); tick(); l->owner = 0; blockOn(timed ? CVT : CV, w); blockOn(LOCK, l); l->owner = cur + 1; l->depth = d; join(th[cur].vc, l->vc); }
void co_cv_notify(Waiters *w) { w->gen++; co_yield(); }
// ---- races: per 8-byte granule, up to four remembered accesses
struct Acc { int t; uint32_t clk; uint8_t mask; uint8_t wr; uint8_t at; };
struct Gran { uintptr_t g; Acc a[4]; int n; };
const int HS = 1 << 12; static Gran *tab[HS]; static int lastSlot;
static Gran *find(uintptr_t g, bool mk) {
  unsigned h = (unsigned)((g ^ (g >> 12) ^ (g >> 24) ^ (g >> 36)) * 2654435761u >> 8) % HS;
  for (int i = 0; i < 64; i++, h = (h + 1) % HS) { if (!tab[h]) { if (!mk) return nullptr; tab[h] = (Gran *)calloc(1, sizeof(Gran)); tab[h]->g = g; return tab[h]; } if (tab[h]->g == g) return tab[h]; }
  return nullptr;
}
static void acc1(uintptr_t g, uint8_t mask, bool wr, bool at) {
  Gran *x = find(g, true); if (!x) return; Clock &vc = th[cur].vc; int slot = -1;
  for (int i = 0; i < x->n; i++) { Acc &a = x->a[i];
    if (a.t == cur) { if (a.wr == wr && a.at == at && (a.mask & ~mask) == 0) slot = i; continue; }
    if ((a.mask & mask) && (a.wr || wr) && !(a.at && at) && a.clk > vc.c[a.t]) { sym_assert(0, "data-race"); return; } }
  if (slot < 0) { if (wr && mask == 0xff) { x->n = 0; slot = 0; x->n = 1; } else if (x->n < 4) slot = x->n++; else { slot = lastSlot++ & 3; } }
  x->a[slot] = Acc{cur, vc.c[cur], mask, (uint8_t)wr, (uint8_t)at};
}
static void acc(const void *p, size_t n, bool wr, bool at = false) {
  if (!on) return; uintptr_t a = (uintptr_t)p, e = a + n;
#if defined(VERIF_NATIVE) && defined(__SANITIZE_ADDRESS__)
  if (n && __asan_region_is_poisoned((void *)p, n)) { sym_assert(0, "use-after-free"); return; }
#endif
  for (uintptr_t g = a & ~7ull; g < e; g += 8) { unsigned lo = g < a ? a - g : 0, hi = g + 8 > e ? e - g : 8; acc1(g, (uint8_t)((1u << hi) - (1u << lo)), wr, at); }
}
static void forget(void *p, size_t n) { uintptr_t a = (uintptr_t)p; for (uintptr_t g = a & ~7ull; g < a + n; g += 8) if (Gran *x = find(g, false)) x->n = 0; }
// every atomic operation synchronises with the earlier ones on its location (release and acquire)
struct ALoc { uintptr_t a; Clock vc; }; static ALoc *al[256];
static void atom(const void *p, size_t n, bool wr) {
  if (!on) return; uintptr_t a = (uintptr_t)p; if (a >= wlo && a < whi) co_yield(); acc(p, n, wr, true);
  for (int i = 0; i < 256; i++) { unsigned k = (unsigned)((a >> 2) + i) & 255; if (!al[k]) { al[k] = (ALoc *)calloc(1, sizeof(ALoc)); al[k]->a = a; } if (al[k]->a == a) { join(th[cur].vc, al[k]->vc); if (wr) { join(al[k]->vc, th[cur].vc); tick(); } return; } }
}
void co_watch(const void *p, size_t n) { wlo = (uintptr_t)p; whi = wlo + n; }
void co_begin(int d) { th[0].co = 0; th[0].kind = RUN; th[0].done = 0; memset(&th[0].vc, 0, sizeof th[0].vc); th[0].vc.c[0] = 1; nth = 1; cur = 0; delays = d; on = 1; *(volatile char *)&__libc_single_threaded = 0; }
void co_drain() { for (int i = 1; i < nth; i++) co_join(i); }
void co_all_done() { co_drain(); on = 0; }
}
using namespace verif;
#ifdef VERIF_NATIVE
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); forget(p, n); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); } void operator delete(void *p, size_t) noexcept { free(p); } void operator delete[](void *p) noexcept { free(p); } void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *p) { acc(p, n, false); } void __tsan_write##n(void *p) { acc(p, n, true); } void __tsan_unaligned_read##n(void *p) { acc(p, n, false); } void __tsan_unaligned_write##n(void *p) { acc(p, n, true); } \
  void __tsan_read_write##n(void *p) { acc(p, n, true); } void __tsan_unaligned_read_write##n(void *p) { acc(p, n, true); } void __tsan_volatile_read##n(void *p) { acc(p, n, false); } void __tsan_volatile_write##n(void *p) { acc(p, n, true); } void __tsan_unaligned_volatile_read##n(void *p) { acc(p, n, false); } void __tsan_unaligned_volatile_write##n(void *p) { acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void *p, void *) { acc(p, 8, true); } void __tsan_vptr_read(void *p) { acc(p, 8, false); }
void __tsan_read_range(void *p, size_t n) { acc(p, n, false); } void __tsan_write_range(void *p, size_t n) { acc(p, n, true); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { acc(s, n, false); acc(d, n, true); return memcpy(d, s, n); } void *__tsan_memmove(void *d, const void *s, size_t n) { acc(s, n, false); acc(d, n, true); return memmove(d, s, n); } void *__tsan_memset(void *d, int c, size_t n) { acc(d, n, true); return memset(d, c, n); }
#define AT(b, T) T __tsan_atomic##b##_load(const volatile T *p, int) { atom((void *)p, sizeof(T), false); return *p; } void __tsan_atomic##b##_store(volatile T *p, T v, int) { atom((void *)p, sizeof(T), true); *p = v; } \
  T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { atom((void *)p, sizeof(T), true); T o = *p; *p = v; return o; } \
  T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { atom((void *)p, sizeof(T), true); T o = *p; *p = o + v; return o; } T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { atom((void *)p, sizeof(T), true); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { atom((void *)p, sizeof(T), true); T o = *p; *p = o & v; return o; } T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { atom((void *)p, sizeof(T), true); T o = *p; *p = o | v; return o; } T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int) { atom((void *)p, sizeof(T), true); T o = *p; *p = o ^ v; return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { atom((void *)p, sizeof(T), true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int c) { return __tsan_atomic##b##_compare_exchange_strong(p, e, v, a, c); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int, int) { atom((void *)p, sizeof(T), true); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
