// Native implementation of the harness API: replays the inputs of a counterexample file ($VP_REPLAY).
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <exception>
#include <ucontext.h>
#include <unistd.h>
extern "C" {
struct In { std::string name; bool d; long long i; double f; };
static std::vector<In>* ins; static size_t pos; static bool mismatch;
static void load() {
  if (ins) return; ins = new std::vector<In>(); const char* fn = getenv("VP_REPLAY"); if (!fn) return; FILE* f = fopen(fn, "r"); if (!f) { fprintf(stderr, "cannot read %s\n", fn); _exit(78); }
  static char line[65536];
  while (fgets(line, sizeof line, f)) { if (strncmp(line, "in ", 3)) continue; char n[4096], k[8]; In x; int off = 0; if (sscanf(line + 3, "%4000s %7s %n", n, k, &off) < 2) continue; x.name = n; x.d = k[0] == 'd'; const char* v = line + 3 + off; if (x.d) { unsigned long long b = strtoull(v, nullptr, 16); memcpy(&x.f, &b, 8); x.i = 0; } else { x.i = atoll(v); x.f = 0; } ins->push_back(x); }
  fclose(f);
}
static In next(const char* name, bool d) {
  load(); if (pos < ins->size()) { In& x = (*ins)[pos++]; if (x.name == name && x.d == d) return x; fprintf(stderr, "REPLAY-MISMATCH: expected input %s, have %s\n", name, x.name.c_str()); _exit(78); }
  In z; z.name = name; z.d = d; z.i = 0; z.f = 0; return z; // inputs after the failure point are free
}
int64_t vp_int(const char* name, int64_t lo, int64_t hi) { In x = next(name, false); int64_t v = x.i; if (pos > ins->size()) v = lo; if (v < lo || v > hi) v = lo; printf("  input %s = %lld\n", name, (long long)v); return v; }
int64_t vp_choice(const char* name, int64_t n) { return vp_int(name, 0, n - 1); }
int64_t vp_concretize(int64_t v) { return v; }
double vp_double(const char* name) { In x = next(name, true); printf("  input %s = %.17g\n", name, x.f); return x.f; }
void vp_assume(int c) { if (!c) { printf("REPLAY-ASSUME: an assumption does not hold for these inputs\n"); fflush(stdout); _exit(77); } }
void vp_assert(int c, const char* m) { if (!c) { printf("REPLAY-FAIL: %s\n", m); fflush(stdout); _exit(99); } }
void vp_reach(const char* l) { printf("  reached %s\n", l); }
void vp_end() { printf("REPLAY-END\n"); fflush(stdout); _exit(0); }
void vp_real_eq(double a, double b, double scale, const char* m) { if (getenv("VP_SAMPLE") || !std::isfinite(a) || !std::isfinite(b)) return; double tol = 1e-9 * (std::fabs(scale) + std::fabs(a) + std::fabs(b) + 1e-300); if (!(std::fabs(a - b) <= tol)) { printf("REPLAY-FAIL: %s (%.17g vs %.17g)\n", m, a, b); fflush(stdout); _exit(99); } }
void vp_le(double a, double b, double scale, const char* m) { if (getenv("VP_SAMPLE") && (!std::isfinite(a) || !std::isfinite(b))) return; double tol = 1e-9 * (std::fabs(scale) + std::fabs(a) + std::fabs(b)); if (!(a <= b + tol)) { printf("REPLAY-FAIL: %s (%.17g > %.17g)\n", m, a, b); fflush(stdout); _exit(99); } }
int vp_native() { return 1; }
void vp_log(const char* fmt, ...) { va_list ap; va_start(ap, fmt); printf("  "); vprintf(fmt, ap); printf("\n"); va_end(ap); fflush(stdout); }
struct Co { ucontext_t c; void (*fn)(void*); void* arg; bool done; int resumer; char* stk; };
static std::vector<Co*>* coros; static int cur = 0;
static void init() { if (!coros) { coros = new std::vector<Co*>(); coros->push_back(new Co()); } }
static void tramp(int id) { Co* c = (*coros)[id]; c->fn(c->arg); c->done = true; cur = c->resumer; setcontext(&(*coros)[c->resumer]->c); }
int vp_co_new(void (*fn)(void*), void* arg) { init(); Co* c = new Co(); c->fn = fn; c->arg = arg; c->done = false; c->resumer = 0; c->stk = (char*)malloc(1 << 20); getcontext(&c->c); c->c.uc_stack.ss_sp = c->stk; c->c.uc_stack.ss_size = 1 << 20; c->c.uc_link = nullptr; int id = coros->size(); makecontext(&c->c, (void (*)())tramp, 1, id); coros->push_back(c); return id; }
int vp_co_resume(int id) { init(); Co* c = (*coros)[id]; if (c->done) return 1; c->resumer = cur; int me = cur; cur = id; swapcontext(&(*coros)[me]->c, &c->c); return c->done; }
void vp_co_yield() { if (cur == 0) return; Co* c = (*coros)[cur]; int me = cur; cur = c->resumer; swapcontext(&(*coros)[me]->c, &(*coros)[cur]->c); }
int vp_co_self() { return cur; }
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
static long heapOps; static void onMalloc(const volatile void*, size_t) { ++heapOps; } static void onFree(const volatile void*) { ++heapOps; }
long vp_heap_ops() { static bool on; if (!on && __sanitizer_install_malloc_and_free_hooks) { on = true; __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); } return heapOps; }
extern void vp_main();
}
int main() {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  vp_main();
  printf("REPLAY-END\n"); return 0;
}
