// P06: shutdown always completes, drains the pools and never crashes.
#include "common.hpp"
using namespace h;

template <int I>
struct Keep {
    static constexpr int concurrency = 1;
    static constexpr bool persistent = true;
};
// kinds: 1 a task ran (a: which), 2 shutdown reaction, 3 start returned, 4 shutdown() returned
template <class T>
void body() {
    pp()->start();
    nmc::cell_set(62, 1);
    T::check();
}
static void ran(int v) {
    NMC_REQUIRE(nmc::cell_get(62) == 0, "user code ran after start had returned");
    nmc::event(1, v);
}
#define DOWN_SCENARIO(T, CONC, WHAT, Q, TH) NMC_SCENARIO(#T, WHAT, &h::setup<CONC, T>, &body<T>, Q, TH)

// every task queued before the request runs, on every pool
struct graceful : Kicked {
    REACTOR(graceful) {
        on<Trigger<M<0>>>().then([](const M<0>& m) { ran(m.v); });
        on<Trigger<M<1>>, Pool<P1<0>>>().then([](const M<1>& m) { ran(m.v); });
        on<Trigger<M<2>>, MainThread>().then([](const M<2>& m) { ran(m.v); });
        on<Shutdown>().then([] { nmc::event(2); });
        kick([this] {
            emit(mk<M<1>>(0));
            emit(mk<M<0>>(1));
            emit(mk<M<2>>(2));
            powerplant.shutdown();
            nmc::event(4);
        });
    }
    static void check() {
        NMC_REQUIRE(count(1) == 3, "%d of the 3 tasks queued before the shutdown ran", count(1));
        NMC_REQUIRE(count(2) == 1, "the shutdown reaction ran %d times", count(2));
    }
};
DOWN_SCENARIO(graceful, 1, "tasks queued on three pools before a graceful shutdown", nmc::preempt(2), nmc::preempt(3));

// two threads of the default pool
struct graceful_two : Kicked {
    REACTOR(graceful_two) {
        on<Trigger<M<0>>>().then([](const M<0>& m) { ran(m.v); });
        on<Shutdown>().then([] { nmc::event(2); });
        kick_main([this] {
            emit(mk<M<0>>(1));
            emit(mk<M<0>>(2));
            powerplant.shutdown();
        });
    }
    static void check() {
        NMC_REQUIRE(count(1) == 2, "%d of the 2 tasks queued before the shutdown ran", count(1));
        NMC_REQUIRE(count(2) == 1, "the shutdown reaction ran %d times", count(2));
    }
};
DOWN_SCENARIO(graceful_two, 2, "a pool of two threads is shut down by the main thread", nmc::preempt(2), nmc::preempt(3));

// two requests at once
struct two_requests : Kicked {
    REACTOR(two_requests) {
        on<Trigger<M<0>>>().then([](const M<0>& m) { ran(m.v); });
        on<Shutdown>().then([] { nmc::event(2); });
        kick_main([this] { powerplant.shutdown(); });
        kick_own([this] { emit(mk<M<0>>(0)); powerplant.shutdown(); });
    }
    static void check() {
        NMC_REQUIRE(count(2) == 1, "the shutdown reaction ran %d times", count(2));
    }
};
DOWN_SCENARIO(two_requests, 1, "two threads request the shutdown at once", nmc::preempt(2), nmc::preempt(3));

// a graceful and a forced request at once; a third one in the shutdown reaction
struct mixed_requests : Kicked {
    REACTOR(mixed_requests) {
        on<Trigger<M<0>>>().then([](const M<0>& m) { ran(m.v); });
        on<Shutdown, Inline::ALWAYS>().then([this] { nmc::event(2); powerplant.shutdown(); });
        kick_main([this] { powerplant.shutdown(); });
        kick_own([this] { emit(mk<M<0>>(0)); powerplant.shutdown(true); });
    }
    static void check() {
        NMC_REQUIRE(count(2) == 1, "the shutdown reaction ran %d times", count(2));
    }
};
DOWN_SCENARIO(mixed_requests, 1, "a graceful, a forced and a nested request", nmc::preempt(2), nmc::preempt(3));

// requested by a thread which does not belong to NUClear, while messages are still being emitted
struct from_outside : Kicked {
    REACTOR(from_outside) {
        on<Trigger<M<0>>>().then([this](const M<0>& m) {
            ran(m.v);
            if (m.v < 2) {
                emit(mk<M<0>>(m.v + 1));
            }
        });
        on<Startup>().then([this] { emit(mk<M<0>>(0)); });
        on<Shutdown>().then([] { nmc::event(2); });
    }
    static void check() { NMC_REQUIRE(count(2) == 1, "the shutdown reaction ran %d times", count(2)); }
};
static void from_outside_body() {
    std::thread t([] { pp()->shutdown(); });
    body<from_outside>();
    t.join();
}
NMC_SCENARIO("from_outside", "shutdown from a foreign thread, any time from before start on", (&h::setup<1, from_outside>), &from_outside_body, nmc::preempt(2), nmc::preempt(4));

// requested in a Startup reaction
struct in_startup : Kicked {
    REACTOR(in_startup) {
        on<Trigger<M<0>>>().then([](const M<0>& m) { ran(m.v); });
        on<Trigger<M<1>>, MainThread>().then([](const M<1>& m) { ran(m.v); });
        on<Shutdown>().then([] { nmc::event(2); });
        on<Startup>().then([this] {
            emit(mk<M<0>>(0));
            emit(mk<M<1>>(1));
            powerplant.shutdown();
        });
    }
    static void check() {
        NMC_REQUIRE(count(1) == 2, "%d of the 2 tasks queued before the shutdown ran", count(1));
        NMC_REQUIRE(count(2) == 1, "the shutdown reaction ran %d times", count(2));
    }
};
DOWN_SCENARIO(in_startup, 1, "shutdown while the system is starting", nmc::preempt(2), nmc::preempt(4));

// tasks waiting for groups when the shutdown comes
struct waiting_groups : Kicked {
    REACTOR(waiting_groups) {
        on<Trigger<M<0>>, Pool<P1<0>>, Sync<G<0>>>().then([](const M<0>& m) { ran(m.v); });
        on<Trigger<M<1>>, Sync<G<0>>>().then([](const M<1>& m) { ran(m.v); });
        on<Trigger<M<2>>, Sync<G<0>>, Sync<G<1>>>().then([](const M<2>& m) { ran(m.v); });
        kick_main([this] {
            emit(mk<M<0>>(0));
            emit(mk<M<1>>(1));
            emit(mk<M<2>>(2));
            powerplant.shutdown();
        });
    }
    static void check() { NMC_REQUIRE(count(1) == 3, "%d of the 3 tasks queued before the shutdown ran", count(1)); }
};
DOWN_SCENARIO(waiting_groups, 1, "tasks of two pools wait for a group when the shutdown is requested", nmc::preempt(2), nmc::preempt(3));

// tasks parked for other pools behind a group whose holder requests the shutdown
template <int I>
struct P3 {
    static constexpr int concurrency = 3;
};
template <class PoolA, class PoolB>
struct Parked : Kicked {
    explicit Parked(std::unique_ptr<NUClear::Environment> e) : Kicked(std::move(e)) {
        on<Trigger<M<1>>, Pool<PoolA>, Sync<G<0>>>().then([](const M<1>& m) { ran(m.v); });
        on<Trigger<M<0>>, Pool<P1<0>>, Sync<G<0>>>().then([this](const M<0>& m) {
            ran(m.v);
            emit(mk<M<1>>(1));
            emit(mk<M<2>>(2));
            powerplant.shutdown();
        });
        on<Trigger<M<2>>, Pool<PoolB>, Sync<G<0>>>().then([](const M<2>& m) { ran(m.v); });
        on<Startup>().then([this] {
            // the pools exist and may have gone to sleep before
            emit(mk<M<3>>(0));
            emit(mk<M<0>>(0));
        });
        on<Trigger<M<3>>, Pool<PoolA>>().then([](const M<3>& m) { ran(m.v); });
        on<Trigger<M<3>>, Pool<PoolB>>().then([](const M<3>& m) { ran(m.v); });
    }
    static void check() { NMC_REQUIRE(count(1) == 5, "%d of the 5 tasks queued before the shutdown ran", count(1)); }
};
using parked_single = Parked<P1<1>, P1<2>>;
DOWN_SCENARIO(parked_single, 1, "the holder of a group requests the shutdown while tasks are parked behind it for two single-thread pools", nmc::delays(2), nmc::preempt(1));

// three threads wait for the one task that is parked for their pool; the pools are stopped one after the other in the order of
// the addresses of their descriptors, so have both orders
template <class PoolA, class PoolB>
struct ParkedThree : Kicked {
    explicit ParkedThree(std::unique_ptr<NUClear::Environment> e) : Kicked(std::move(e)) {
        (void) Pool<PoolA>::descriptor();
        (void) Pool<PoolB>::descriptor();
        on<Trigger<M<0>>, Pool<P1<0>>, Sync<G<0>>>().then([this](const M<0>& m) {
            ran(m.v);
            emit(mk<M<1>>(1));
            powerplant.shutdown();
        });
        on<Trigger<M<1>>, Pool<P3<0>>, Sync<G<0>>>().then([](const M<1>& m) { ran(m.v); });
        on<Startup>().then([this] { emit(mk<M<0>>(0)); });
    }
    static void check() { NMC_REQUIRE(count(1) == 2, "%d of the 2 tasks queued before the shutdown ran", count(1)); }
};
using parked_three = ParkedThree<P1<0>, P3<0>>;
using three_parked = ParkedThree<P3<0>, P1<0>>;
DOWN_SCENARIO(parked_three, 1, "the same with one task that three threads wait for", nmc::delays(2), nmc::delays(3));
DOWN_SCENARIO(three_parked, 1, "the same with the pools in the other order", nmc::delays(2), nmc::delays(3));

// forced: the tasks waiting behind the running one are discarded
struct forced_default : Kicked {
    REACTOR(forced_default) {
        on<Trigger<M<0>>>().then([this](const M<0>& m) {
            ran(m.v);
            if (m.v == 0) {
                nmc::cell_set(1, 1);
                nmc::await_cell(2, 1);
            }
        });
        kick_own([this] {
            emit(mk<M<0>>(0));
            nmc::await_cell(1, 1);
            emit(mk<M<0>>(1));
            emit(mk<M<0>>(2));
            powerplant.shutdown(true);
            nmc::cell_set(2, 1);
            emit(mk<M<0>>(3));
        });
    }
    static void check() { NMC_REQUIRE(count(1) == 1, "%d tasks which were waiting at the forced shutdown ran", count(1) - 1); }
};
DOWN_SCENARIO(forced_default, 1, "forced shutdown with tasks waiting in the default pool", nmc::preempt(2), nmc::preempt(4));

struct forced_single : Kicked {
    REACTOR(forced_single) {
        on<Trigger<M<0>>, Pool<P1<0>>>().then([this](const M<0>& m) {
            NMC_REQUIRE(m.v == 0 || nmc::cell_get(3) == 0, "task %d was started after the forced shutdown had discarded it", m.v);
            ran(m.v);
        });
        on<Shutdown>().then([] { nmc::event(2); });
        kick([this] {
            emit(mk<M<0>>(0));
            emit(mk<M<0>>(1));
            emit(mk<M<0>>(2));
            powerplant.shutdown(true);
        });
    }
    static void check() {}
};
DOWN_SCENARIO(forced_single, 1, "forced shutdown with tasks waiting in a single-thread pool", nmc::preempt(2), nmc::preempt(4));

// forced, by a task of a single-thread pool itself, with tasks waiting behind it
struct forced_self : Kicked {
    REACTOR(forced_self) {
        on<Trigger<M<0>>, Pool<P1<0>>>().then([this](const M<0>& m) {
            ran(m.v);
            if (m.v == 0) {
                emit(mk<M<0>>(1));
                emit(mk<M<0>>(2));
                powerplant.shutdown(true);
            }
        });
        on<Trigger<M<1>>, Sync<G<0>>, Sync<G<1>>>().then([](const M<1>& m) { ran(10); });
        on<Trigger<M<1>>, Sync<G<0>>>().then([](const M<1>& m) { ran(10); });
        on<Startup>().then([this] {
            emit(mk<M<1>>(0));
            emit(mk<M<0>>(0));
        });
    }
    static void check() { NMC_REQUIRE(count(1, 1) == 0 && count(1, 2) == 0, "a task waiting behind the one which forced the shutdown ran"); }
};
DOWN_SCENARIO(forced_self, 1, "a task of a single-thread pool forces the shutdown", nmc::preempt(2), nmc::preempt(3));

// forced on the main thread while the pools are busy
struct forced_main : Kicked {
    REACTOR(forced_main) {
        on<Trigger<M<0>>>().then([this](const M<0>& m) { ran(m.v); emit(mk<M<1>>(m.v)); });
        on<Trigger<M<1>>, Pool<P1<0>>>().then([this](const M<1>& m) { ran(m.v); if (m.v < 2) { emit(mk<M<0>>(m.v + 1)); } });
        kick_main([this] { emit(mk<M<0>>(0)); powerplant.shutdown(true); });
    }
    static void check() {}
};
DOWN_SCENARIO(forced_main, 1, "forced shutdown while two pools keep each other busy", nmc::preempt(2), nmc::preempt(3));

// two single-thread pools force the shutdown at once
struct forced_twice : Kicked {
    REACTOR(forced_twice) {
        on<Trigger<M<0>>, Pool<P1<0>>>().then([this](const M<0>& m) { ran(m.v); powerplant.shutdown(true); });
        on<Trigger<M<0>>, Pool<P1<1>>>().then([this](const M<0>& m) { ran(m.v); powerplant.shutdown(true); });
        on<Startup>().then([this] { emit(mk<M<0>>(0)); });
    }
    static void check() {}
};
DOWN_SCENARIO(forced_twice, 1, "two single-thread pools force the shutdown at once", nmc::preempt(2), nmc::preempt(3));

// emissions during the shutdown, to pools in use, to a pool which has never been used, and inline
struct late : Kicked {
    REACTOR(late) {
        on<Trigger<M<0>>, Pool<P1<0>>>().then([](const M<0>& m) { ran(m.v); });
        on<Trigger<M<1>>, Pool<P1<1>>>().then([](const M<1>& m) { ran(m.v); });
        on<Trigger<M<1>>, Pool<P1<1>>, Sync<G<0>>>().then([](const M<1>& m) { ran(m.v); });
        on<Trigger<M<1>>, Pool<P1<1>>, Sync<G<0>>, Sync<G<1>>>().then([](const M<1>& m) { ran(m.v); });
        on<Trigger<M<2>>, Pool<P1<2>>>().then([](const M<2>& m) { nmc::event(5, m.v); });
        on<Startup>().then([this] { emit(mk<M<0>>(0)); });
        on<Shutdown>().then([this] {
            emit(mk<M<0>>(1));
            emit(mk<M<1>>(2));
            emit<Scope::INLINE>(mk<M<2>>(3));
            nmc::event(2);
        });
        kick_main([this] { powerplant.shutdown(); });
    }
    static void check() {
        NMC_REQUIRE(count(1, 0) == 1, "the task queued before the shutdown did not run");
        NMC_REQUIRE(count(2) == 1, "the shutdown reaction ran %d times", count(2));
        NMC_REQUIRE(count(5) == 1, "the inline emission during the shutdown ran %d times", count(5));
    }
};
DOWN_SCENARIO(late, 1, "emissions during the shutdown, also to a pool never used before", nmc::preempt(1), nmc::preempt(2));

// emissions after start has returned
struct after : Kicked {
    REACTOR(after) {
        on<Trigger<M<0>>, Pool<P1<0>>>().then([](const M<0>& m) { ran(m.v); });
        on<Trigger<M<0>>>().then([](const M<0>& m) { ran(m.v); });
        on<Trigger<M<0>>, MainThread, Sync<G<0>>>().then([](const M<0>& m) { ran(m.v); });
        on<Trigger<M<0>>, MainThread>().then([](const M<0>& m) { ran(m.v); });
        kick([this] { powerplant.shutdown(nmc::choose(2) == 1); });
    }
    static void check() {
        pp()->emit(mk<M<0>>(0));
        pp()->emit(mk<M<0>>(1));
        nmc::quiesce();
        pp()->shutdown();
        delete pp();
        NMC_REQUIRE(count(1) == 0, "a task ran after start had returned");
    }
};
DOWN_SCENARIO(after, 1, "emissions after start has returned", nmc::preempt(2), nmc::preempt(3));

// persistent pools finish last: they still serve what the others' last tasks emit
struct persistent : Kicked {
    REACTOR(persistent) {
        on<Trigger<M<0>>>().then([this](const M<0>& m) {
            ran(m.v);
            emit(mk<M<1>>(1));
        });
        on<Trigger<M<1>>, Pool<Keep<0>>>().then([this](const M<1>& m) { ran(m.v); });
        on<Startup>().then([this] { emit(mk<M<1>>(2)); });
        kick_main([this] {
            emit(mk<M<0>>(0));
            powerplant.shutdown();
        });
    }
    static void check() {
        NMC_REQUIRE(count(1, 0) == 1, "the task queued before the shutdown did not run");
        NMC_REQUIRE(count(1, 1) == 1 && count(1, 2) == 1, "the persistent pool stopped before the others had finished");
    }
};
DOWN_SCENARIO(persistent, 1, "a persistent pool serves what other pools emit while shutting down", nmc::preempt(2), nmc::preempt(3));

// shutdown on idle, with tasks of three pools
struct on_idle : Kicked {
    REACTOR(on_idle) {
        on<Trigger<M<0>>, Pool<P1<0>>>().then([this](const M<0>& m) { ran(m.v); emit(mk<M<1>>(1)); });
        on<Trigger<M<1>>>().then([](const M<1>& m) { ran(m.v); });
        on<Idle<>>().then([this] { nmc::event(3); powerplant.shutdown(); });
        on<Startup>().then([this] { emit(mk<M<0>>(0)); });
    }
    static void check() { NMC_REQUIRE(count(1) == 2, "the system shut down on idle with %d of 2 tasks run", count(1)); }
};
DOWN_SCENARIO(on_idle, 1, "shutdown when everything is idle", nmc::preempt(2), nmc::preempt(3));

// destruction with tasks left behind
struct destroyed : Kicked {
    REACTOR(destroyed) {
        on<Trigger<M<0>>, Sync<G<0>>>().then([this](const M<0>& m) { ran(m.v); });
        on<Trigger<M<1>>, Sync<G<0>>, Sync<G<1>>, Pool<P1<0>>>().then([this](const M<1>& m) { ran(m.v); });
        kick_main([this] {
            emit(mk<M<0>>(0));
            emit(mk<M<1>>(1));
            emit(mk<M<1>>(2));
            powerplant.shutdown(nmc::choose(2) == 1);
            emit(mk<M<0>>(3));
            emit(mk<M<1>>(4));
        });
    }
    static void check() { delete pp(); }
};
DOWN_SCENARIO(destroyed, 1, "the system is destroyed after a graceful or forced shutdown with tasks left over", nmc::preempt(1), nmc::preempt(2));
