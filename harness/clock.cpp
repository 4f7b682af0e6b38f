// P23: clocks and delays. The clock and the sleeping calls of the system are replaced by generated ones while a case runs.
#include "harness/common.hpp"
#include "edyn/time/time.hpp"
#include <cerrno>
#include <ctime>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
using pbt::Case;
static bool fake = false; static timespec first; static bool have_first = false; static int64_t now_ns; // generated time
static int64_t slept_ns; static int interruptions, calls; static uint64_t frac;
static int64_t ns(const timespec &t) { return (int64_t)t.tv_sec * 1000000000 + t.tv_nsec; }
static timespec ts(int64_t n) { timespec t; t.tv_sec = n / 1000000000; t.tv_nsec = n % 1000000000; return t; }
static int fake_sleep(int64_t want, timespec *rem) { ++calls; if (interruptions > 0) { --interruptions; frac = frac * 6364136223846793005ull + 1442695040888963407ull; int64_t part = want > 0 ? (int64_t)((frac >> 33) % (uint64_t)want) : 0; slept_ns += part; now_ns += part; if (rem) *rem = ts(want - part); errno = EINTR; return -1; } slept_ns += want; now_ns += want; return 0; }
extern "C" {
int clock_gettime(clockid_t id, timespec *t) noexcept { if (fake) { *t = ts(now_ns); return 0; } int r = (int)syscall(SYS_clock_gettime, id, t); if (!have_first && id == CLOCK_MONOTONIC_RAW) { have_first = true; first = *t; } return r; }
int nanosleep(const timespec *t, timespec *rem) { if (fake) return fake_sleep(ns(*t), rem); return (int)syscall(SYS_nanosleep, t, rem); }
int clock_nanosleep(clockid_t id, int flags, const timespec *t, timespec *rem) { if (fake) { int r = fake_sleep((flags & TIMER_ABSTIME) ? std::max<int64_t>(0, ns(*t) - now_ns) : ns(*t), rem); return r ? EINTR : 0; } return (int)syscall(SYS_clock_nanosleep, id, flags, t, rem) ? errno : 0; }
}
struct Fake { Fake() { fake = true; } ~Fake() { fake = false; } };
static int64_t start_ns(Case &c) { // the library took its start time from the monotonic clock when the program started
    return ns(first); }
static int64_t delta(Case &c) { switch (c.draw(5)) { case 0: return (int64_t)c.draw(5) * 1000000000; case 1: return (int64_t)c.draw(4000) * 1000000; case 2: return (int64_t)c.draw(4000) * 1000000 + (int64_t)c.draw(1000000); case 3: return (int64_t)c.draw(3600 * 24 * 40) * 1000000000 + (int64_t)c.draw(1000000000); default: return (int64_t)c.draw(100000000); } }

PBT(ticks_and_counter, 60000, 1000000, "more than a second after the start") {
    if (!have_first) { edyn::ticks(); if (!have_first) { c.label("other clock"); return; } } int64_t s = start_ns(c), d1 = delta(c), d2 = d1 + delta(c); uint32_t t1, t2; uint64_t p1, p2, f; double q; { Fake on; now_ns = s + d1; t1 = edyn::ticks(); p1 = edyn::performance_counter(); now_ns = s + d2; t2 = edyn::ticks(); p2 = edyn::performance_counter(); f = edyn::performance_frequency(); q = edyn::performance_time(); } c.note("after %.6f s and %.6f s", d1 / 1e9, d2 / 1e9); c.nontrivial(d1 > 1000000000);
    if (d2 < 4200000000ll * 1000000) { REQUIRE(std::abs((int64_t)t1 - d1 / 1000000) <= 1 && std::abs((int64_t)t2 - d2 / 1000000) <= 1, "ticks %u and %u after %lld and %lld us", t1, t2, (long long)(d1 / 1000), (long long)(d2 / 1000)); REQUIRE(t2 >= t1, "ticks went backwards"); }
    REQUIRE(f > 0); REQUIRE(p2 >= p1, "counter went backwards"); long double el = (long double)(p2 - p1) / f, want = (d2 - d1) / 1e9L; REQUIRE(std::abs(el - want) <= 2.0L / f + 1e-9L, "counter advanced by %Lg s in %Lg s", el, want); REQUIRE(std::abs((long double)q - (long double)p2 / f) <= 1e-15L * (long double)q * 4 + 1e-12L, "performance_time %.9f is not the counter over the frequency", q);
}

PBT(delay_length, 60000, 1000000, "interrupted by signals") {
    uint32_t ms; switch (c.draw(5)) { case 0: ms = (uint32_t)c.draw(3); break; case 1: ms = 1000 * (uint32_t)c.draw(4); break; case 2: ms = (uint32_t)c.draw(5000); break; case 3: ms = 999 + (uint32_t)c.draw(3); break; default: ms = (uint32_t)c.draw(4000000); } interruptions = (int)c.draw(6); int in = interruptions; frac = c.draw(1u << 30); slept_ns = 0; calls = 0; timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a); if (ms > 3000 && c.chance(1, 2)) {} { Fake on; now_ns = 5000000000000 + (int64_t)c.draw(1000000000); edyn::delay(ms); } clock_gettime(CLOCK_MONOTONIC, &b); int64_t total = slept_ns + (calls ? 0 : ns(b) - ns(a)); c.note("delay %u ms with %d interruptions", ms, in); c.nontrivial(in > 0 && ms > 1);
    REQUIRE(total >= (int64_t)ms * 1000000 - 1000, "waited %lld us of %u ms", (long long)(total / 1000), ms); if (calls) REQUIRE(total <= (int64_t)ms * 1000000 + 1000000 * (1 + in), "waited %lld us of %u ms", (long long)(total / 1000), ms);
}
PBT(real_delay, 100, 1000, "at least 2 ms") { uint32_t ms = (uint32_t)c.draw(12); timespec a, b; uint32_t t0 = edyn::ticks(); clock_gettime(CLOCK_MONOTONIC, &a); double p0 = edyn::performance_time(); edyn::delay(ms); double p1 = edyn::performance_time(); clock_gettime(CLOCK_MONOTONIC, &b); uint32_t t1 = edyn::ticks(); c.nontrivial(ms > 1); double el = (ns(b) - ns(a)) / 1e6; REQUIRE(el >= ms * 0.99, "waited %g ms of %u", el, ms); REQUIRE((p1 - p0) * 1e3 <= el * 1.01 + 0.1 && (p1 - p0) * 1e3 >= ms * 0.99, "performance time advanced by %g ms in %g", (p1 - p0) * 1e3, el); REQUIRE(t1 - t0 + 2.0 >= el * 0.99, "ticks advanced by %u in %g ms", t1 - t0, el); }
