// P07: idle reactions run when their pool, or the whole system, has run dry: once per period, never missed, never early.
#include "common.hpp"
using namespace h;
using namespace NUClear::dsl::word;

// A pool which does not take part in the idle accounting, for the idle reactions themselves
struct Aside {
    static constexpr int concurrency      = 1;
    static constexpr bool counts_for_idle = false;
};
// kinds: 1 task begins, 2 task ends, 3 idle reaction (a: which)
struct Busy {
    int v;
    explicit Busy(int v) : v(v) { nmc::event(1, v); }
    ~Busy() { nmc::event(2, v); }
};
static int idles() { return count(3, 0); }
// quiet, then `f`, then quiet again: the idle reaction must have run between lo and hi times more
template <class F>
static void period(const char* what, int lo, int hi, const F& f) {
    const int before = idles();
    f();
    nmc::quiesce();
    const int n = idles() - before;
    NMC_REQUIRE(n >= lo, "%s: the idle reaction ran %d times, expected at least %d", what, n, lo);
    NMC_REQUIRE(n <= hi, "%s: the idle reaction ran %d times, expected at most %d", what, n, hi);
}

static void at_start() { NMC_REQUIRE(idles() == 1, "once the system had started the idle reaction had run %d times", idles()); }

// no idle reaction between the first and the last task of a chain whose tasks all carry v
static void in_one_piece(int v) {
    int open = 0;
    for (size_t i = 0; i < nmc::event_count(); ++i) {
        const auto e = nmc::event_at(i);
        if (e.kind == 2 && e.a == v) {
            ++open;
        }
        NMC_REQUIRE(e.kind != 3 || open == 0 || open == 3, "the system was declared idle after %d of 3 tasks of a chain", open);
    }
}

template <int Threads>
struct LocalPool {
    static constexpr int concurrency = Threads;
};

// one pool, idle reactions elsewhere; single tasks and bursts, with quiet periods between
template <int Threads>
struct Local : Kicked {
    explicit Local(std::unique_ptr<NUClear::Environment> e) : Kicked(std::move(e)) {
        on<Trigger<M<0>>, Pool<LocalPool<Threads>>>().then([](const M<0>& m) { Busy b(m.v); });
        on<Idle<Pool<LocalPool<Threads>>>, Pool<Aside>>().then([] { nmc::event(3, 0); });
    }
    static void check() {
        at_start();
        period("one task", 1, 4, [] { pp()->emit(mk<M<0>>(0)); });
        period("another task", 1, 4, [] { pp()->emit(mk<M<0>>(1)); });
        period("two tasks", 1, 6, [] { pp()->emit(mk<M<0>>(2)); pp()->emit(mk<M<0>>(3)); });
        NMC_REQUIRE(count(2) == 4, "%d of 4 tasks ran", count(2));
    }
};
using local_one = Local<1>;
using local_two = Local<2>;
QUIET_SCENARIO(local_one, 1, "a one-thread pool: four periods of idleness", nmc::preempt(2), nmc::preempt(3));
QUIET_SCENARIO(local_two, 1, "a two-thread pool: four periods of idleness", nmc::preempt(1), nmc::preempt(2));

// no idle reaction while a thread of the pool is busy
struct busy_pool : Kicked {
    REACTOR(busy_pool) {
        on<Trigger<M<0>>, Pool<LocalPool<2>>>().then([](const M<0>& m) {
            Busy b(m.v);
            if (m.v == 0) {
                nmc::await_cell(1, 1);
            }
        });
        on<Idle<Pool<LocalPool<2>>>, Pool<Aside>>().then([] { nmc::event(3, 0); });
    }
    static void check() {
        at_start();
        period("a long task", 0, 0, [] { pp()->emit(mk<M<0>>(0)); });
        period("short tasks beside the long one", 0, 0, [] { pp()->emit(mk<M<0>>(1)); });
        period("the end of the long task", 1, 1, [] { nmc::cell_set(1, 1); });
    }
};
QUIET_SCENARIO(busy_pool, 1, "a pool of two threads of which one is busy", nmc::preempt(1), nmc::preempt(2));

// work handed from pool to pool without a gap: the system as a whole is never idle in between
struct global_chain : Kicked {
    REACTOR(global_chain) {
        on<Trigger<M<0>>, Pool<LocalPool<1>>>().then([this](const M<0>& m) { Busy b(m.v); emit(mk<M<1>>(m.v)); });
        on<Trigger<M<1>>>().then([this](const M<1>& m) { Busy b(m.v); emit(mk<M<2>>(m.v)); });
        on<Trigger<M<2>>, MainThread>().then([](const M<2>& m) { Busy b(m.v); });
        on<Idle<>, Pool<Aside>>().then([] { nmc::event(3, 0); });
    }
    static void check() {
        at_start();
        period("a chain through three pools", 1, 6, [] { pp()->emit(mk<M<0>>(0)); });
        in_one_piece(0);
        period("another chain", 1, 6, [] { pp()->emit(mk<M<0>>(1)); });
        in_one_piece(1);
        NMC_REQUIRE(count(2) == 6, "%d of 6 tasks ran", count(2));
    }
};
QUIET_SCENARIO(global_chain, 1, "global idle: chains of tasks through three pools", nmc::preempt(1), nmc::preempt(2));

// a chain which starts when the system starts: idle is not announced before the chain is through
struct global_start : Kicked {
    REACTOR(global_start) {
        on<Trigger<M<0>>, Pool<LocalPool<1>>>().then([this](const M<0>& m) { Busy b(m.v); emit(mk<M<1>>(m.v)); });
        on<Trigger<M<1>>>().then([this](const M<1>& m) { Busy b(m.v); });
        on<Idle<>, Pool<Aside>>().then([] { nmc::event(3, 0); NMC_REQUIRE(count(2) == 2, "the system was declared idle after %d of 2 tasks of a chain", count(2)); });
        on<Startup>().then([this] { emit(mk<M<0>>(0)); });
    }
    static void check() { NMC_REQUIRE(idles() == 1, "the idle reaction ran %d times, expected once", idles()); }
};
QUIET_SCENARIO(global_start, 1, "global idle waits for a chain which starts with the system", nmc::preempt(2), nmc::preempt(3));

// a busy pool keeps the system from being idle, whatever the others do
struct global_busy : Kicked {
    REACTOR(global_busy) {
        on<Trigger<M<0>>, Pool<LocalPool<1>>>().then([](const M<0>& m) {
            Busy b(m.v);
            if (m.v == 0) {
                nmc::await_cell(1, 1);
            }
        });
        on<Trigger<M<1>>>().then([](const M<1>& m) { Busy b(m.v); });
        on<Idle<>, Pool<Aside>>().then([] { nmc::event(3, 0); });
    }
    static void check() {
        at_start();
        period("a long task", 0, 0, [] { pp()->emit(mk<M<0>>(0)); });
        period("tasks in another pool", 0, 0, [] { pp()->emit(mk<M<1>>(1)); pp()->emit(mk<M<1>>(2)); });
        period("the end of the long task", 1, 1, [] { nmc::cell_set(1, 1); });
    }
};
QUIET_SCENARIO(global_busy, 2, "global idle with one busy pool", nmc::preempt(1), nmc::preempt(2));

// the same with a busy thread of a pool which has another one that comes and goes
struct global_half_busy : Kicked {
    REACTOR(global_half_busy) {
        on<Trigger<M<0>>, Pool<LocalPool<2>>>().then([](const M<0>& m) {
            Busy b(m.v);
            if (m.v == 0) {
                nmc::await_cell(1, 1);
            }
        });
        on<Trigger<M<1>>>().then([](const M<1>& m) { Busy b(m.v); });
        on<Idle<>, Pool<Aside>>().then([] { nmc::event(3, 0); });
    }
    static void check() {
        at_start();
        period("a long task", 0, 0, [] { pp()->emit(mk<M<0>>(0)); });
        period("a task in the same pool", 0, 0, [] { pp()->emit(mk<M<0>>(1)); });
        period("a task in another pool", 0, 0, [] { pp()->emit(mk<M<1>>(2)); });
        period("another task in the same pool", 0, 0, [] { pp()->emit(mk<M<0>>(3)); });
        period("the end of the long task", 1, 1, [] { nmc::cell_set(1, 1); });
    }
};
QUIET_SCENARIO(global_half_busy, 1, "global idle with one busy thread of a pool of two", nmc::preempt(1), nmc::preempt(2));

// tasks which wait for a group held in another pool; multi-group tasks which wait inside their pool
template <bool Other, class... W>
struct Parked : Kicked {
    explicit Parked(std::unique_ptr<NUClear::Environment> e) : Kicked(std::move(e)) {
        on<Trigger<M<0>>, Pool<P1<5>>, Sync<G<0>>>().then([](const M<0>& m) {
            Busy b(m.v);
            nmc::await_cell(1, m.v);
        });
        on<Trigger<M<1>>, Pool<LocalPool<2>>, Sync<G<0>>, W...>().then([](const M<1>& m) { Busy b(m.v); });
        on<Trigger<M<2>>, Pool<LocalPool<2>>>().then([](const M<2>& m) { Busy b(m.v); });
        on<Idle<Pool<LocalPool<2>>>, Pool<Aside>>().then([] { nmc::event(3, 0); });
        on<Idle<>, Pool<Aside>>().then([] { nmc::event(4, 0); });
    }
    static void check() {
        at_start();
        const int before = count(4);
        pp()->emit(mk<M<0>>(1));
        nmc::quiesce();
        pp()->emit(mk<M<1>>(9));
        nmc::quiesce();
        NMC_REQUIRE(count(4) == before, "the system was declared idle while a task was running");
        if (Other) {
            // one of the pool's threads runs an unrelated task and then finds the parked one
            pp()->emit(mk<M<2>>(3));
            nmc::quiesce();
        }
        const int local = idles();
        nmc::cell_set(1, 1);
        nmc::quiesce();
        NMC_REQUIRE(count(2) == 2 + Other, "%d of %d tasks ran", count(2), 2 + Other);
        NMC_REQUIRE(count(4) > before, "the global idle reaction ran %d times after all tasks had ended", count(4) - before);
        NMC_REQUIRE(idles() > local, "the pool idle reaction was not run after the pool's last task had ended");
        // and the next round is an ordinary one
        const int global = count(4);
        period("a task afterwards", 1, 4, [] { pp()->emit(mk<M<1>>(10)); });
        NMC_REQUIRE(count(4) > global, "the global idle reaction ran %d times after one more task", count(4) - global);
    }
};
using parked_group       = Parked<false>;
using parked_multi       = Parked<false, Sync<G<1>>>;
using parked_multi_other = Parked<true, Sync<G<1>>>;
QUIET_SCENARIO(parked_multi_other, 1, "a multi-group task waits in its pool while another task comes and goes", nmc::preempt(1), nmc::preempt(2));
QUIET_SCENARIO(parked_group, 1, "a task waits for a group held by another pool", nmc::preempt(1), nmc::preempt(2));
QUIET_SCENARIO(parked_multi, 1, "a multi-group task waits in its pool", nmc::preempt(1), nmc::preempt(2));

// bound, unbound and bound again while the system runs
struct rebind : Kicked {
    ReactionHandle handle;
    REACTOR(rebind) {
        on<Trigger<M<0>>, Pool<LocalPool<1>>>().then([](const M<0>& m) { Busy b(m.v); });
        on<Trigger<M<1>>, Pool<Aside>>().then([this](const M<1>& m) {
            if (m.v == 0) {
                handle.unbind();
            }
            else if (m.v == 1) {
                handle = on<Idle<Pool<LocalPool<1>>>, Pool<Aside>>().then([] { nmc::event(3, 0); });
            }
            else if (m.v == 2) {
                handle.disable();
            }
            else {
                handle = on<Idle<>, Pool<Aside>>().then([] { nmc::event(3, 0); });
            }
        });
        handle = on<Idle<Pool<LocalPool<1>>>, Pool<Aside>>().then([] { nmc::event(3, 0); });
    }
    static void check() {
        at_start();
        period("unbinding", 0, 0, [] { pp()->emit(mk<M<1>>(0)); });
        period("a task without idle reaction", 0, 0, [] { pp()->emit(mk<M<0>>(0)); });
        nmc::quiesce();
        period("binding again", 0, 1, [] { pp()->emit(mk<M<1>>(1)); });
        period("a task after binding again", 1, 1, [] { pp()->emit(mk<M<0>>(1)); });
        period("disabling", 0, 0, [] { pp()->emit(mk<M<1>>(2)); });
        period("a task with disabled idle reaction", 0, 0, [] { pp()->emit(mk<M<0>>(2)); });
        period("binding a global one", 1, 1, [] { pp()->emit(mk<M<1>>(3)); });
        period("a task with a global one", 1, 1, [] { pp()->emit(mk<M<0>>(3)); });
    }
};
QUIET_SCENARIO(rebind, 1, "idle reactions bound, unbound and disabled at run time", nmc::preempt(1), nmc::preempt(2));

// the last tasks of two pools end at the same time; then one of them starts the other again
struct simultaneous : Kicked {
    REACTOR(simultaneous) {
        on<Trigger<M<0>>, Pool<LocalPool<1>>>().then([](const M<0>& m) { Busy b(m.v); });
        on<Trigger<M<1>>>().then([this](const M<1>& m) { Busy b(m.v); if (m.v == 1) { emit(mk<M<0>>(5)); } });
        on<Idle<>, Pool<Aside>>().then([] { nmc::event(3, 0); });
    }
    static void check() {
        at_start();
        period("one task in each of two pools", 1, 8, [] { pp()->emit(mk<M<0>>(0)); pp()->emit(mk<M<1>>(0)); });
        period("one task in each, one more from there", 1, 10, [] { pp()->emit(mk<M<0>>(0)); pp()->emit(mk<M<1>>(1)); });
    }
};
QUIET_SCENARIO(simultaneous, 1, "two pools run dry at the same time", nmc::preempt(2), nmc::preempt(3));
