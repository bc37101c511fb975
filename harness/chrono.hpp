// Scaffolding of the timer properties: a system with a ChronoController, durations in units of 1 ms of virtual time
#ifndef VERIF_CHRONO_HPP
#define VERIF_CHRONO_HPP
#include "common.hpp"
#include "extension/ChronoController.hpp"

namespace h {
using ms                  = std::chrono::milliseconds;
constexpr int64_t MS      = 1000000;
constexpr uint64_t CV_LATE = 70000, SLEEP_LATE = 30000;

// The instrumented clock the virtual time is read with; a and b of a firing are compared with it
inline NUClear::clock::time_point at(int64_t ns) { return NUClear::clock::time_point(std::chrono::duration_cast<NUClear::clock::duration>(std::chrono::nanoseconds(ns))); }
inline int64_t clock_ns() { return std::chrono::duration_cast<std::chrono::nanoseconds>(NUClear::clock::now().time_since_epoch()).count(); }

// Late: the system wakes up that much late while the controller measures how late it is, and half as much from then on, so that
// each of the three ways in which the controller waits is used for every timer
// The clock starts at the virtual time rather than at the one at which this program was started
inline void reset_clock() { NUClear::clock::set_clock(NUClear::base_clock::now()); }

template <int Concurrency, bool Late, class... T>
void setup_chrono() {
    reset_clock();
    if (Late) { nmc::lateness(CV_LATE, SLEEP_LATE); }
    Configuration c;
    c.default_pool_concurrency = Concurrency;
    pp()                       = new PowerPlant(c);
    pp()->install<NUClear::extension::ChronoController>();
    if (Late) { nmc::lateness(CV_LATE / 2, SLEEP_LATE / 2); }
    int dummy[] = {0, (pp()->install<T>(), 0)...};
    (void) dummy;
}
// The granularity of a clock which is being polled
inline nmc::Options fine(nmc::Options o) {
    o.spin_ns = 5000;
    return o;
}
}  // namespace h
#define TIMER_SCENARIO(T, CONC, LATE, WHAT, QUICK, THOROUGH) \
    NMC_SCENARIO(#T, WHAT, (&h::setup_chrono<CONC, LATE, T>), &h::run_until_quiet<T>, QUICK, THOROUGH)
#endif
