// Cooperative scheduler: threads are coroutines, and the thread sanitizer's instrumentation of the code under test
// (calls at every memory access) gives the points at which a thread may be preempted.
#pragma once
#include "vp.h"
#include <pthread.h>
extern "C" int __asan_region_is_poisoned(void*, size_t) __attribute__((weak));
namespace sched {
static int budget, points; static char* top[8]; static const char *lo, *hi; static int rt = -1; static bool on; static int blockedOn[8]; static int current; static int rounds, stalled, stalls; static int rtLimit, rtPoints; // memory accesses of an update cycle run by the harness itself
#ifndef VP_ON_LOCK
#define VP_ON_LOCK
#endif
// a preempted update thread may pause for this many turns of the others
static void preempted() { if (rounds && current == rt) { stalled = rounds; ++stalls; } vp_co_yield(); }
static void point(const void* p, size_t n, bool atomic) {
  if (!on) return; int me = current; if (me == 0) { if (rtLimit && ++rtPoints > rtLimit) { VP_CHECK(false, "an update cycle does not end while a service call is suspended"); vp_end(); } return; }
  const char* c = (const char*)p; char here; if (c >= &here - 256 && c <= top[me]) return; // the thread's own stack
  if (vp_native() && __asan_region_is_poisoned) VP_CHECK(!__asan_region_is_poisoned((void*)p, n), "a thread uses memory that was already freed (a destroyed controller or list)");
  bool shared = c >= lo && c < hi; if (!shared && (atomic || me != rt)) return; ++points;
  if (budget > 0 && vp_bool("preempt")) { --budget; preempted(); }
}
static void callback() { int me = current; if (on && me && me == rt && budget > 0 && vp_bool("preempt")) { --budget; preempted(); } }
struct Th { void (*fn)(); int id; bool done; }; static Th th[4]; static int nth; static bool waiting[8];
static void body(void* a) { Th* t = (Th*)a; char here; top[t->id] = &here + 256; t->fn(); t->done = true; }
static int add(void (*fn)()) { Th* t = &th[nth++]; t->fn = fn; t->done = false; t->id = vp_co_new(body, t); return t->id; }
static void run(int firstThread) { // round robin between yields
  on = true; int k = firstThread, idle = 0;
  for (int steps = 0;; ++steps) { bool all = true; for (int i = 0; i < nth; ++i) all = all && th[i].done; if (all) break; if (steps > 400 || idle > nth) { VP_CHECK(false, "the threads wait for each other forever"); vp_end(); }
    bool others = false; for (int i = 0; i < nth; ++i) others = others || (i != k && !th[i].done);
    if (th[k].id == rt && stalled > 0 && others) --stalled; else if (!th[k].done) { current = th[k].id; vp_co_resume(th[k].id); current = 0; idle = 0; } else ++idle; k = (k + 1) % nth; }
  on = false;
}
}
// ---- mutexes: a blocked thread yields
namespace sched { struct M { void* m; int owner, n; }; static M ms[16]; static int nms;
static M& mtx(void* m) { for (int i = 0; i < nms; ++i) if (ms[i].m == m) return ms[i]; VP_CHECK(nms < 16, "too many mutexes"); M x = {m, -1, 0}; ms[nms] = x; return ms[nms++]; }
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  VP_ON_LOCK
  sched::point(m, 1, true); sched::M& x = sched::mtx(m); int me = sched::current, tries = 0; bool rec = ((const int*)m)[4] == 1;
  if (x.n && x.owner == me) { if (!rec) VP_CHECK(false, "a thread locks a mutex it already holds"); ++x.n; return 0; }
  while (x.n) { if (++tries > 100 || me == 0) { VP_CHECK(false, "a thread waits forever for a lock"); vp_end(); } vp_co_yield(); }
  x.owner = me; x.n = 1; return 0;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { sched::point(m, 1, true); sched::M& x = sched::mtx(m); bool rec = ((const int*)m)[4] == 1; if (x.n && !(rec && x.owner == sched::current)) return 16; x.owner = sched::current; ++x.n; return 0; }
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { sched::M& x = sched::mtx(m); VP_CHECK(x.n > 0 && x.owner == sched::current, "a mutex is unlocked by a thread that does not hold it"); --x.n; sched::point(m, 1, true); return 0; }
// ---- instrumentation of the code under test
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define VP_RW(N) void __tsan_read##N(void* p) { sched::point(p, N, false); } void __tsan_write##N(void* p) { sched::point(p, N, false); } void __tsan_unaligned_read##N(void* p) { sched::point(p, N, false); } void __tsan_unaligned_write##N(void* p) { sched::point(p, N, false); } void __tsan_read_write##N(void* p) { sched::point(p, N, false); } void __tsan_unaligned_read_write##N(void* p) { sched::point(p, N, false); }
VP_RW(1) VP_RW(2) VP_RW(4) VP_RW(8) VP_RW(16)
void __tsan_vptr_read(void** p) { sched::point(p, 8, false); } void __tsan_vptr_update(void** p, void*) { sched::point(p, 8, false); }
void __tsan_read_range(void* p, long n) { sched::point(p, n, false); } void __tsan_write_range(void* p, long n) { sched::point(p, n, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { return __builtin_memcpy(d, s, n); } void* __tsan_memmove(void* d, const void* s, size_t n) { return __builtin_memmove(d, s, n); } void* __tsan_memset(void* d, int c, size_t n) { return __builtin_memset(d, c, n); }
#define VP_AT(N, T) \
  T __tsan_atomic##N##_load(const volatile T* p, int) { sched::point((const void*)p, N / 8, true); return *p; } void __tsan_atomic##N##_store(volatile T* p, T v, int) { sched::point((const void*)p, N / 8, true); *p = v; } \
  T __tsan_atomic##N##_exchange(volatile T* p, T v, int) { sched::point((const void*)p, N / 8, true); T o = *p; *p = v; return o; } T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int) { sched::point((const void*)p, N / 8, true); T o = *p; *p = o + v; return o; } T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int) { sched::point((const void*)p, N / 8, true); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int) { sched::point((const void*)p, N / 8, true); T o = *p; *p = o | v; return o; } T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int) { sched::point((const void*)p, N / 8, true); T o = *p; *p = o & v; return o; } T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int) { sched::point((const void*)p, N / 8, true); T o = *p; *p = o ^ v; return o; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { sched::point((const void*)p, N / 8, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int a, int b) { return __tsan_atomic##N##_compare_exchange_strong(p, e, v, a, b); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int, int) { sched::point((const void*)p, N / 8, true); T o = *p; if (o == e) *p = v; return o; }
VP_AT(8, uint8_t) VP_AT(16, uint16_t) VP_AT(32, uint32_t) VP_AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
