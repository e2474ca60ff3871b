// Environment stand-ins shared by the IR and the native builds: sleeping and clocks run harness hooks.
#include <chrono>
#include <time.h>
#include <unistd.h>
#include "vp.h"
void (*vp_sleep_hook)() = nullptr;
double (*vp_clock_hook)() = nullptr;
static int sleeps = 0;
static void onSleep() { if (vp_sleep_hook) vp_sleep_hook(); else { if (++sleeps > 50) { vp_assert(0, "a call waits forever (no one can end the wait)"); } } }
extern "C" int nanosleep(const struct timespec*, struct timespec*) { onSleep(); return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { onSleep(); return 0; }
extern "C" int sched_yield() { onSleep(); return 0; }
extern "C" int usleep(useconds_t) { onSleep(); return 0; }
static double clk() { return vp_clock_hook ? vp_clock_hook() : 0.0; }
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration_cast<duration>(std::chrono::duration<double>(clk()))); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration_cast<duration>(std::chrono::duration<double>(clk()))); }
} } }
