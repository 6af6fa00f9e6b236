// Concurrency stand-ins: threads are coroutines, every visible operation is a scheduling point, the schedule is an input.
#pragma once
#include <cstdint>
#include <cstddef>
namespace verif {
const int MAXT = 24; // threads per run
struct Clock { uint32_t c[MAXT]; };
struct Lock { int owner; int depth; int readers; Clock vc; constexpr Lock() : owner(0), depth(0), readers(0), vc() {} };
struct Event { int set; Clock vc; constexpr Event() : set(0), vc() {} };
int co_self();
void co_yield(int preempt_ok = 1);
void co_lock(Lock *l, int recursive); bool co_trylock(Lock *l, int recursive); void co_unlock(Lock *l);
void co_lock_shared(Lock *l); bool co_trylock_shared(Lock *l); void co_unlock_shared(Lock *l);
void co_lock_all(Lock **l, int n);
void co_set(Event *e); void co_wait(Event *e); bool co_test(Event *e);
int co_spawn(void (*fn)(void *), void *arg, int cost_free = 0); void co_join(int t); // cost_free: unused
struct Waiters { uint32_t gen; constexpr Waiters() : gen(0) {} };
void co_cv_wait(Waiters *w, Lock *l, bool timed); void co_cv_notify(Waiters *w);
void co_fail(const char *what);
void co_begin(int preemptions); // harness: number of deviations from the default schedule explored
void co_watch(const void *p, size_t n); // atomics in here are scheduling points
void co_drain(); // wait for every other thread to finish
void co_all_done();             // harness: let every thread run to its end
}
