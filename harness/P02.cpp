// P02: every submitted task runs exactly once: nothing is lost, duplicated or left waiting when it could run.
#include "common.hpp"
using namespace h;

// Two multi-group tasks wait in one single-thread pool for a group held by another pool
struct blocked_behind_blocked : Kicked {
    REACTOR(blocked_behind_blocked) {
        on<Trigger<M<0>>, Pool<P1<0>>, Sync<G<0>>, Sync<G<2>>>().then([] { nmc::point(); nmc::event(1, 0); });
        on<Trigger<M<1>>, Pool<P1<1>>, Sync<G<0>>, Sync<G<1>>>().then([](const M<1>& m) { nmc::event(1, m.v); });
        on<Startup>().then([this] {
            emit(mk<M<0>>(0));
            emit(mk<M<1>>(1));
            emit(mk<M<1>>(2));
        });
    }
    static void check() { NMC_REQUIRE(count(1) == 3, "%d of 3 tasks ran, the rest is stranded", count(1)); }
};
QUIET_SCENARIO(blocked_behind_blocked, 1, "two multi-group tasks blocked in a one-thread pool", nmc::preempt(2), nmc::preempt(3));

// An unrelated runnable task sits behind a blocked one
struct runnable_behind_blocked : Kicked {
    REACTOR(runnable_behind_blocked) {
        on<Trigger<M<0>>, Pool<P1<0>>, Sync<G<0>>, Sync<G<2>>>().then([] {
            // holds the group until the unrelated task of the other pool has run
            nmc::await_cell(5, 1);
            nmc::event(1, 0);
        });
        on<Trigger<M<1>>, Pool<P1<1>>, Sync<G<0>>, Sync<G<1>>>().then([](const M<1>& m) { nmc::event(1, m.v); });
        on<Trigger<M<2>>, Pool<P1<1>>>().then([](const M<2>& m) { nmc::cell_set(5, 1); nmc::event(1, m.v); });
        on<Startup>().then([this] {
            emit(mk<M<0>>(0));
            emit(mk<M<1>>(1));
            emit(mk<M<2>>(2));
        });
    }
    static void check() { NMC_REQUIRE(count(1) == 3, "%d of 3 tasks ran, the rest is stranded", count(1)); }
};
QUIET_SCENARIO(runnable_behind_blocked, 1, "a runnable task queued behind a blocked one in the same pool", nmc::preempt(2), nmc::preempt(3));

// single group fast path against a multi-group task
struct fast_vs_multi : Kicked {
    REACTOR(fast_vs_multi) {
        on<Trigger<M<0>>, Sync<G<0>>>().then([] { nmc::event(1, 0); });
        on<Trigger<M<1>>, Sync<G<0>>, Sync<G<1>>>().then([] { nmc::event(1, 1); });
        on<Startup>().then([this] {
            emit(mk<M<0>>(0));
            emit(mk<M<1>>(1));
        });
        on<Startup>().then([this] { emit(mk<M<0>>(2)); });
    }
    static void check() { NMC_REQUIRE(count(1) == 3, "%d of 3 tasks ran, the rest is stranded", count(1)); }
};
QUIET_SCENARIO(fast_vs_multi, 2, "fast path tasks of a group against a multi-group task", nmc::preempt(2), nmc::preempt(4));

// a single-group submission racing the release of the token to a waiting multi-group task
struct steal_and_return : Kicked {
    REACTOR(steal_and_return) {
        on<Trigger<M<0>>, Sync<G<0>>>().then([](const M<0>& m) { nmc::event(1, m.v); });
        on<Trigger<M<1>>, Sync<G<0>>, Sync<G<1>>>().then([] { nmc::event(1, 1); });
        on<Trigger<K<0>>, MainThread>().then([this] { emit(mk<M<0>>(2)); });
        on<Trigger<K<1>>>().then([this] {
            emit(mk<M<0>>(0));
            emit(mk<M<1>>(1));
        });
        on<Startup>().then([this] {
            emit(mk<K<0>>(0));
            emit(mk<K<1>>(0));
        });
    }
    static void check() { NMC_REQUIRE(count(1) == 3, "%d of 3 tasks ran, the rest is stranded", count(1)); }
};
QUIET_SCENARIO(steal_and_return, 1, "a single-group task takes and returns the token a multi-group task waits for", nmc::preempt(3), nmc::preempt(5));

// a pool which is used for the first time while the others are being started: by a thread of one that has been started already
struct while_starting : Kicked {
    REACTOR(while_starting) {
        on<Trigger<M<0>>, Pool<P1<0>>>().then([this](const M<0>& m) { nmc::event(1, m.v); emit(mk<M<1>>(m.v + 1)); });
        on<Trigger<M<1>>, Pool<P1<1>>>().then([this](const M<1>& m) { nmc::event(1, m.v); emit(mk<M<2>>(m.v + 1)); });
        on<Trigger<M<2>>, Pool<P1<2>>, Sync<G<0>>>().then([this](const M<2>& m) { nmc::event(1, m.v); emit(mk<M<3>>(m.v + 1)); });
        on<Trigger<M<3>>, MainThread>().then([](const M<3>& m) { nmc::event(1, m.v); });
        on<Startup>().then([this] { emit(mk<M<0>>(0)); });
    }
    static void check() { for (int i = 0; i < 4; ++i) { NMC_REQUIRE(count(1, i) == 1, "task %d of a chain through pools which are made on the way ran %d times", i, count(1, i)); } }
};
QUIET_SCENARIO(while_starting, 1, "pools which are used for the first time while the system starts", nmc::preempt(2), nmc::preempt(3));
