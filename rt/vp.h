// Harness API: symbolic inputs and assertions.  Implemented by the executor, and natively (vp_native.cpp) for replay.
#pragma once
#include <string>
#include <stdint.h>
extern "C" {
int64_t vp_int(const char* name, int64_t lo, int64_t hi);   // any value in [lo,hi]
int64_t vp_choice(const char* name, int64_t n);             // like vp_int(0,n-1), but enumerated (one path per value)
int64_t vp_concretize(int64_t v);
double vp_double(const char* name);                         // any bit pattern
void vp_assume(int cond);
void vp_assert(int cond, const char* msg);
void vp_reach(const char* label);                           // non-vacuity witness
void vp_end();
void vp_real_eq(double a, double b, double scale, const char* msg); // a == b over the reals (replay: up to rounding)
void vp_le(double a, double b, double scale, const char* msg);      // a <= b (over the doubles, else over the reals; replay: up to rounding)
int vp_native();
void vp_log(const char* fmt, ...);                          // replay trace only
int vp_co_new(void (*fn)(void*), void* arg);
int vp_co_resume(int id);                                   // 1 when finished
void vp_co_yield();
int vp_co_self();
long vp_heap_ops();                                         // how often heap memory was obtained or given back so far
}
static inline bool vp_bool(const char* name) { return vp_int(name, 0, 1) != 0; }
static inline int vp_pick(const char* name, int n) { return (int)vp_concretize(vp_int(name, 0, n - 1)); } // split by the solver
#define VP_CHECK(c, msg) vp_assert((c) ? 1 : 0, msg)
#define VP_ASSUME(c) vp_assume((c) ? 1 : 0)
