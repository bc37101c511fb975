// Shared scaffolding of the harnesses: a PowerPlant built before the snapshot, a controller thread which waits until the
// system can make no further progress, and probes which record what the program under test does.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <memory>
#include <nuclear>
#include <thread>

#include "nmc.h"

namespace h {

using namespace NUClear;

inline PowerPlant*& pp() {
    static PowerPlant* p = nullptr;
    return p;
}

template <int I>
struct M {
    int v;
    explicit M(int v = 0) : v(v) {}
};

template <int I>
struct G {};
template <int I>
struct G2 {
    static constexpr int concurrency = 2;
};
template <int I>
struct P1 {
    static constexpr int concurrency = 1;
};
template <int I>
struct P2 {
    static constexpr int concurrency = 2;
};

template <class T>
std::unique_ptr<T> mk(int v) {
    return std::make_unique<T>(v);
}

// A region which may be entered by at most `limit` threads at once
struct Region {
    int cell;
    Region(int cell, int limit, const char* what) : cell(cell) {
        const auto n = nmc::cell_add(cell, 1);
        NMC_REQUIRE(n <= limit, "%s: %d inside, limit %d", what, int(n), limit);
        nmc::point();
    }
    ~Region() {
        nmc::cell_add(cell, -1);
    }
};

inline int count(int kind) {
    int n = 0;
    for (size_t i = 0; i < nmc::event_count(); ++i) {
        n += nmc::event_at(i).kind == kind ? 1 : 0;
    }
    return n;
}
inline int count(int kind, int64_t a) {
    int n = 0;
    for (size_t i = 0; i < nmc::event_count(); ++i) {
        n += nmc::event_at(i).kind == kind && nmc::event_at(i).a == a ? 1 : 0;
    }
    return n;
}
inline int index_of(int kind, int64_t a) {
    for (size_t i = 0; i < nmc::event_count(); ++i) {
        if (nmc::event_at(i).kind == kind && nmc::event_at(i).a == a) {
            return int(i);
        }
    }
    return -1;
}

// Kicks off activity: Startup reactions run one after the other in the main thread before any pool is running, so whatever
// is meant to be concurrent has to be triggered by messages emitted from there.
template <int I>
using K = M<100 + I>;

struct Kicked : Reactor {
    explicit Kicked(std::unique_ptr<NUClear::Environment> e) : Reactor(std::move(e)) {}
    /// f runs in the main thread, concurrently with everything else that was kicked off
    template <class F>
    void kick_main(F f) {
        on<Trigger<K<0>>, MainThread>().then(std::move(f));
        on<Startup>().then([this] { emit(mk<K<0>>(0)); });
    }
    /// f runs in the default pool
    template <int I = 1, class F>
    void kick(F f) {
        on<Trigger<K<I>>>().then(std::move(f));
        on<Startup>().then([this] { emit(mk<K<I>>(0)); });
    }
    /// f runs in a thread of its own
    template <int I = 2, class F>
    void kick_own(F f) {
        on<Trigger<K<I>>, Pool<P1<100 + I>>>().then(std::move(f));
        on<Startup>().then([this] { emit(mk<K<I>>(0)); });
    }
};

template <int Concurrency, class... T>
void setup() {
    Configuration c;
    c.default_pool_concurrency = Concurrency;
    pp()                       = new PowerPlant(c);
    int dummy[]                = {0, (pp()->install<T>(), 0)...};
    (void) dummy;
}

// Start the system; once nothing can run any more T::check() decides
template <class T>
void run_until_quiet() {
    std::thread ctl([] {
        nmc::cell_set(63, 1);
        nmc::quiesce();
        T::check();
        nmc::finish();
    });
    nmc::await_cell(63, 1);
    pp()->start();
    nmc::fail("the main thread returned although nobody asked for a shutdown");
}

// Start the system, the scenario shuts it down itself; T::check() decides after start() returned
template <class T>
void run_to_shutdown() {
    pp()->start();
    T::check();
}
template <class T>
void run_to_destruction() {
    pp()->start();
    T::check();
    delete pp();
    T::check_destroyed();
}

}  // namespace h

#define QUIET_SCENARIO(T, CONC, WHAT, QUICK, THOROUGH) \
    NMC_SCENARIO(#T, WHAT, &h::setup<CONC, T>, &h::run_until_quiet<T>, QUICK, THOROUGH)
#define SHUTDOWN_SCENARIO(T, CONC, WHAT, QUICK, THOROUGH) \
    NMC_SCENARIO(#T, WHAT, &h::setup<CONC, T>, &h::run_to_shutdown<T>, QUICK, THOROUGH)
#define REACTOR(T) explicit T(std::unique_ptr<NUClear::Environment> e) : h::Kicked(std::move(e))

#endif
