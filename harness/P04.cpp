// P04: reactions run on the threads of their pool, and no more at once than the pool has threads.
#include "common.hpp"
using namespace h;

using Current = NUClear::threading::scheduler::Pool;
// pool p (0..7) as seen by the reactions: every thread belongs to exactly one pool, a pool has at most `limit` threads
struct InPool {
    int p;
    std::shared_ptr<Current> pool{Current::current()};
    InPool(int p, int limit) : p(p) {
        NMC_REQUIRE(pool != nullptr, "a thread of pool %d does not know its pool", p);
        const int t    = nmc::thread_id();
        const auto was = nmc::cell_get(20 + t);
        NMC_REQUIRE(was == 0 || was == p + 1, "thread %d ran reactions of pool %d and of pool %d", t, int(was) - 1, p);
        if (was == 0) {
            nmc::cell_set(20 + t, p + 1);
            const auto n = nmc::cell_add(10 + p, 1);
            NMC_REQUIRE(n <= limit, "pool %d used %d threads, it has %d", p, int(n), limit);
        }
        const auto n = nmc::cell_add(p, 1);
        NMC_REQUIRE(n <= limit, "%d reactions of pool %d at once, it has %d threads", int(n), p, limit);
        nmc::point();
    }
    ~InPool() {
        NMC_REQUIRE(pool == Current::current(), "the pool of the thread is another one at the end of a task");
        nmc::cell_add(p, -1);
    }
};
static void on_main() {
    NMC_REQUIRE(nmc::thread_id() == 0, "a MainThread reaction ran on thread %d", nmc::thread_id());
}

// two threads make the first use of the same pool at the same time
struct lazy_pool : Kicked {
    REACTOR(lazy_pool) {
        on<Trigger<M<0>>, Pool<P1<0>>>().then([](const M<0>& m) { InPool in(1, 1); nmc::event(1, m.v); });
        on<Trigger<M<1>>, Pool<P1<0>>>().then([](const M<1>& m) { InPool in(1, 1); nmc::event(1, m.v); });
        kick_main([this] { emit(mk<M<0>>(0)); });
        kick([this] { emit(mk<M<1>>(1)); });
    }
    static void check() { NMC_REQUIRE(count(1) == 2, "%d of 2 tasks ran", count(1)); }
};
QUIET_SCENARIO(lazy_pool, 1, "two threads make the first use of a pool at once", nmc::preempt(2), nmc::preempt(4));

// a pool of two has two threads: tasks which wait for each other both get one, a third has to wait
struct both_threads : Kicked {
    REACTOR(both_threads) {
        on<Trigger<M<0>>, Pool<P2<0>>>().then([](const M<0>& m) {
            InPool in(1, 2);
            if (m.v < 2) {
                nmc::cell_add(40, 1);
                nmc::await_cell(40, 2);
            }
            nmc::event(1, m.v);
        });
        on<Startup>().then([this] {
            emit(mk<M<0>>(0));
            emit(mk<M<0>>(1));
            emit(mk<M<0>>(2));
        });
    }
    static void check() { NMC_REQUIRE(count(1) == 3, "%d of 3 tasks ran: the pool did not use its two threads", count(1)); }
};
QUIET_SCENARIO(both_threads, 1, "a pool of two threads runs two tasks at once and never three", nmc::preempt(2), nmc::preempt(3));

struct default_two : Kicked {
    REACTOR(default_two) {
        on<Trigger<M<0>>>().then([this](const M<0>& m) {
            InPool in(0, 2);
            if (m.v < 2) {
                nmc::cell_add(40, 1);
                nmc::await_cell(40, 2);
            }
            nmc::event(1, m.v);
        });
        on<Startup>().then([this] {
            emit(mk<M<0>>(0));
            emit(mk<M<0>>(1));
            emit(mk<M<0>>(2));
        });
    }
    static void check() { NMC_REQUIRE(count(1) == 3, "%d of 3 tasks ran: the default pool did not use its two threads", count(1)); }
};
QUIET_SCENARIO(default_two, 2, "the default pool has the configured number of threads", nmc::preempt(2), nmc::preempt(3));

// messages fan out to the default, a custom and the main thread pool, from different threads, and on from there
struct affinity : Kicked {
    REACTOR(affinity) {
        on<Trigger<M<0>>>().then([this](const M<0>& m) { InPool in(0, 1); nmc::event(1, m.v); if (m.v == 0) { emit(mk<M<1>>(3)); } });
        on<Trigger<M<0>>, Pool<P1<0>>>().then([](const M<0>& m) { InPool in(1, 1); nmc::event(1, m.v); });
        on<Trigger<M<0>>, MainThread>().then([this](const M<0>& m) { InPool in(2, 1); on_main(); nmc::event(1, m.v); });
        on<Trigger<M<1>>, MainThread>().then([](const M<1>& m) { InPool in(2, 1); on_main(); nmc::event(1, m.v); });
        kick_main([this] { InPool in(2, 1); on_main(); emit(mk<M<0>>(0)); });
    }
    static void check() { NMC_REQUIRE(count(1) == 4, "%d of 4 tasks ran", count(1)); }
};
QUIET_SCENARIO(affinity, 1, "one message to three pools and on to the main thread", nmc::preempt(2), nmc::preempt(3));

// a task which has to wait for its group is handed over by a thread of another pool
struct handed_over : Kicked {
    REACTOR(handed_over) {
        on<Trigger<M<0>>, Pool<P1<0>>, Sync<G<0>>>().then([](const M<0>& m) { InPool in(1, 1); nmc::event(1, m.v); });
        on<Trigger<M<1>>, MainThread, Sync<G<0>>>().then([](const M<1>& m) { InPool in(2, 1); on_main(); nmc::event(1, m.v); });
        on<Trigger<M<2>>, Sync<G<0>>, Sync<G<1>>>().then([](const M<2>& m) { InPool in(0, 1); nmc::event(1, m.v); });
        on<Startup>().then([this] {
            emit(mk<M<0>>(0));
            emit(mk<M<1>>(1));
            emit(mk<M<2>>(2));
        });
    }
    static void check() { NMC_REQUIRE(count(1) == 3, "%d of 3 tasks ran", count(1)); }
};
QUIET_SCENARIO(handed_over, 1, "tasks of three pools share a group and are handed over", nmc::preempt(2), nmc::preempt(3));

// inline emission from two pools: inline reactions stay on the emitter's thread, the others go to their pool
struct inline_affinity : Kicked {
    REACTOR(inline_affinity) {
        on<Trigger<M<0>>, Pool<P1<0>>, Inline::NEVER>().then([](const M<0>& m) { InPool in(1, 1); nmc::event(1, m.v); });
        on<Trigger<M<0>>, Pool<P1<0>>>().then([](const M<0>& m) {
            NMC_REQUIRE(nmc::thread_id() == m.v, "a reaction emitted inline on thread %d ran on %d", m.v, nmc::thread_id());
            nmc::event(2, m.v);
        });
        on<Trigger<M<1>>, Pool<P1<0>>, Inline::ALWAYS>().then([](const M<1>& m) {
            NMC_REQUIRE(nmc::thread_id() == m.v, "an inline reaction emitted on thread %d ran on %d", m.v, nmc::thread_id());
            nmc::event(2, m.v);
        });
        kick_main([this] { InPool in(2, 1); emit<Scope::INLINE>(mk<M<0>>(nmc::thread_id())); emit(mk<M<1>>(nmc::thread_id())); });
        kick([this] { InPool in(0, 1); emit<Scope::INLINE>(mk<M<0>>(nmc::thread_id())); emit(mk<M<1>>(nmc::thread_id())); });
    }
    static void check() { NMC_REQUIRE(count(1) == 2 && count(2) == 4, "%d of 2 and %d of 4 tasks ran", count(1), count(2)); }
};
QUIET_SCENARIO(inline_affinity, 1, "inline and never-inline reactions emitted from two pools", nmc::preempt(1), nmc::preempt(2));

// a throwing task does not cost the pool its thread
struct after_throw : Kicked {
    REACTOR(after_throw) {
        on<Trigger<M<0>>, Pool<P1<0>>>().then([](const M<0>& m) {
            InPool in(1, 1);
            nmc::event(1, m.v);
            if (m.v == 0) {
                throw std::runtime_error("on purpose");
            }
        });
        on<Trigger<M<1>>, MainThread>().then([](const M<1>& m) {
            InPool in(2, 1);
            on_main();
            nmc::event(1, m.v);
            throw 5;
        });
        on<Startup>().then([this] {
            emit(mk<M<0>>(0));
            emit(mk<M<1>>(0));
            emit(mk<M<0>>(1));
            emit(mk<M<1>>(1));
        });
    }
    static void check() { NMC_REQUIRE(count(1) == 4, "%d of 4 tasks ran", count(1)); }
};
QUIET_SCENARIO(after_throw, 1, "pools go on working after exceptions", nmc::preempt(2), nmc::preempt(3));

// Always reactions each have a thread of their own, whatever their names, and leave the others to the other pools
template <int Same>
struct Forever : Kicked {
    void one(int p) {
        this->template on<Always>().then(Same ? "loop" : p == 3 ? "first loop" : "second loop", [p] {
            InPool in(p, 1);
            nmc::event(1, p);
            nmc::cell_add(50, 1);
            nmc::await_cell(50, 3);  // all of them at once
            nmc::await_cell(51, 1);
        });
    }
    explicit Forever(std::unique_ptr<NUClear::Environment> e) : Kicked(std::move(e)) {
        one(3);
        one(4);
        this->template on<Always>().then([] { InPool in(5, 1); nmc::event(1, 5); nmc::cell_add(50, 1); nmc::await_cell(50, 3); nmc::await_cell(51, 1); });
        this->template on<Trigger<M<0>>>().then([](const M<0>& m) { InPool in(0, 1); nmc::event(2, m.v); });
        this->template on<Trigger<M<0>>, Pool<P1<0>>>().then([](const M<0>& m) { InPool in(1, 1); nmc::event(2, m.v); });
        this->template on<Trigger<M<0>>, MainThread>().then([](const M<0>& m) { InPool in(2, 1); on_main(); nmc::event(2, m.v); });
        this->template on<Startup>().then([this] { this->emit(mk<M<0>>(0)); });
    }
    static void check() {
        NMC_REQUIRE(count(1) == 3, "%d of 3 Always reactions ran at once", count(1));
        NMC_REQUIRE(count(2) == 3, "%d of 3 tasks ran beside the Always reactions", count(2));
    }
};
using forever_same      = Forever<1>;
using forever_different = Forever<0>;
QUIET_SCENARIO(forever_same, 1, "Always reactions of the same name", nmc::preempt(0), nmc::preempt(1));
QUIET_SCENARIO(forever_different, 1, "Always reactions of different names", nmc::preempt(0), nmc::preempt(1));
