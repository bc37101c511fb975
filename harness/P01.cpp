// P01: a group never runs more tasks at once than its concurrency, whatever pools, priorities and submission paths.
#include "common.hpp"
using namespace h;

// one Sync group, submitted to from two threads while its tasks run in a two thread pool
struct sync_same_pool : Kicked {
    REACTOR(sync_same_pool) {
        on<Trigger<M<0>>, Sync<G<0>>>().then([](const M<0>& m) { Region r(0, 1, "Sync group"); nmc::event(1, m.v); });
        on<Trigger<M<1>>, Sync<G<0>>>().then([](const M<1>& m) { Region r(0, 1, "Sync group"); nmc::event(1, m.v); });
        kick_main([this] { emit(mk<M<1>>(2)); });
        kick([this] {
            emit(mk<M<0>>(1));
            emit(mk<M<0>>(3));
        });
    }
    static void check() { NMC_REQUIRE(count(1) == 3, "%d of 3 tasks of a Sync group ran", count(1)); }
};
QUIET_SCENARIO(sync_same_pool, 2, "three tasks of one Sync group submitted by two threads", nmc::preempt(2), nmc::preempt(4));

// a Sync group spanning pools: the main thread, the default pool and a dedicated pool
struct sync_cross_pool : Kicked {
    REACTOR(sync_cross_pool) {
        on<Trigger<M<0>>, Sync<G<0>>, MainThread>().then([] { Region r(0, 1, "Sync group across pools"); nmc::event(1); });
        on<Trigger<M<0>>, Sync<G<0>>>().then([] { Region r(0, 1, "Sync group across pools"); nmc::event(1); });
        on<Trigger<M<0>>, Sync<G<0>>, Pool<P1<0>>>().then([] { Region r(0, 1, "Sync group across pools"); nmc::event(1); });
        kick_main([this] { emit(mk<M<0>>(2)); });
    }
    static void check() { NMC_REQUIRE(count(1) == 3, "%d of 3 tasks of a Sync group ran", count(1)); }
};
QUIET_SCENARIO(sync_cross_pool, 1, "a Sync group over the main thread, the default pool and a dedicated pool", nmc::preempt(2), nmc::preempt(4));

// the running task itself submits more work for its own group
struct sync_chain : Kicked {
    REACTOR(sync_chain) {
        on<Trigger<M<0>>, Sync<G<0>>>().then([this](const M<0>& m) {
            Region r(0, 1, "Sync group");
            nmc::event(1);
            if (m.v > 0) {
                emit(mk<M<0>>(m.v - 1));
            }
        });
        kick_main([this] { emit(mk<M<0>>(1)); });
        kick([this] { emit(mk<M<0>>(1)); });
    }
    static void check() { NMC_REQUIRE(count(1) == 4, "%d of 4 tasks of a Sync group ran", count(1)); }
};
QUIET_SCENARIO(sync_chain, 2, "tasks of a Sync group resubmit to it", nmc::preempt(2), nmc::preempt(4));

struct group2 : Kicked {
    REACTOR(group2) {
        on<Trigger<M<0>>, Group<G2<0>>>().then([](const M<0>& m) { Region r(0, 2, "Group of 2"); nmc::event(1, m.v); });
        kick_main([this] {
            emit(mk<M<0>>(1));
            emit(mk<M<0>>(2));
        });
        kick([this] {
            emit(mk<M<0>>(3));
            emit(mk<M<0>>(4));
        });
    }
    static void check() { NMC_REQUIRE(count(1) == 4, "%d of 4 tasks of a group ran", count(1)); }
};
QUIET_SCENARIO(group2, 3, "four tasks of a concurrency-2 group on a three-thread pool", nmc::preempt(1), nmc::preempt(3));

struct multi : Kicked {
    REACTOR(multi) {
        on<Trigger<M<0>>, Sync<G<0>>>().then([] { Region r(0, 1, "group A"); nmc::event(1, 0); });
        on<Trigger<M<1>>, Sync<G<1>>>().then([] { Region r(1, 1, "group B"); nmc::event(1, 1); });
        on<Trigger<M<2>>, Sync<G<0>>, Sync<G<1>>>().then([] {
            Region r(0, 1, "group A");
            Region q(1, 1, "group B");
            nmc::event(1, 2);
        });
        kick_main([this] { emit(mk<M<0>>(1)); });
        kick([this] {
            emit(mk<M<2>>(2));
            emit(mk<M<1>>(3));
        });
    }
    static void check() { NMC_REQUIRE(count(1) == 3, "%d of 3 tasks ran", count(1)); }
};
QUIET_SCENARIO(multi, 2, "tasks of group A, of group B and of both", nmc::preempt(2), nmc::preempt(4));

// multi-group tasks against each other, one of the groups having two tokens
struct multi2 : Kicked {
    REACTOR(multi2) {
        on<Trigger<M<0>>, Group<G2<0>>>().then([] { Region r(0, 2, "Group of 2"); nmc::event(1, 0); });
        on<Trigger<M<2>>, Group<G2<0>>, Sync<G<1>>>().then([] {
            Region r(0, 2, "Group of 2");
            Region q(1, 1, "group B");
            nmc::event(1, 2);
        });
        kick_main([this] {
            emit(mk<M<0>>(1));
            emit(mk<M<2>>(1));
        });
        kick([this] {
            emit(mk<M<2>>(2));
            emit(mk<M<0>>(3));
        });
    }
    static void check() { NMC_REQUIRE(count(1) == 4, "%d of 4 tasks ran", count(1)); }
};
QUIET_SCENARIO(multi2, 3, "multi-group tasks where one group has two tokens", nmc::preempt(1), nmc::preempt(3));

// inline execution takes part in the group limit too
struct sync_inline : Kicked {
    REACTOR(sync_inline) {
        on<Trigger<M<0>>, Sync<G<0>>>().then([] { Region r(0, 1, "Sync group (inline)"); nmc::event(1); });
        on<Trigger<M<1>>, Sync<G<0>>, Sync<G<1>>>().then([] { Region r(0, 1, "Sync group (inline multi)"); nmc::event(1); });
        kick_main([this] {
            emit<Scope::INLINE>(mk<M<0>>(1));
            emit<Scope::INLINE>(mk<M<1>>(1));
        });
        kick([this] {
            emit<Scope::INLINE>(mk<M<0>>(3));
            emit(mk<M<0>>(3));
        });
    }
    static void check() { NMC_REQUIRE(count(1) == 4, "%d of 4 tasks ran", count(1)); }
};
QUIET_SCENARIO(sync_inline, 1, "inline and queued tasks of one group", nmc::preempt(2), nmc::preempt(4));

// the limit survives tasks that throw
struct sync_throw : Kicked {
    REACTOR(sync_throw) {
        on<Trigger<M<0>>, Sync<G<0>>>().then([](const M<0>& m) {
            Region r(0, 1, "Sync group");
            nmc::event(1, m.v);
            if (m.v == 1) {
                throw std::runtime_error("x");
            }
        });
        kick_main([this] { emit(mk<M<0>>(1)); });
        kick([this] {
            emit(mk<M<0>>(2));
            emit(mk<M<0>>(1));
        });
    }
    static void check() { NMC_REQUIRE(count(1) == 3, "%d of 3 tasks of a Sync group ran", count(1)); }
};
QUIET_SCENARIO(sync_throw, 2, "tasks of a Sync group that throw", nmc::preempt(1), nmc::preempt(3));
