// P09: Buffer<n> and Single bound the pending tasks of a reaction, and drop nothing else.
#include "common.hpp"
using namespace h;
using namespace NUClear::dsl::word;

// kinds: 1 begin(value), 2 end(value), 3 begin of the unbounded reaction
static int pending_now() { return int(nmc::cell_get(20)); }

// Every sequence of emissions and completions, one at a time; the tasks run side by side
template <int B>
struct Seq : Kicked {
    explicit Seq(std::unique_ptr<NUClear::Environment> e) : Kicked(std::move(e)) {
        on<Trigger<M<0>>, Buffer<B>, Pool<P2<0>>>().then([](const M<0>& m) {
            nmc::event(1, m.v);
            // ends when it is told to; 1: return, 2: throw
            nmc::await_cell(1 + m.v, 1);
            nmc::event(2, m.v);
            if (nmc::cell_get(1 + m.v) == 2) {
                throw std::runtime_error("a reaction failed");
            }
        });
        on<Trigger<M<0>>, Pool<P1<1>>>().then([](const M<0>& m) { nmc::event(3, m.v); });
    }
    static void check() {
        int accepted[8], first = 0, n = 0, emitted = 0;  // pending: accepted[first..n)
        for (int i = 0; i < 6; ++i) {
            const int op = nmc::choose(first == n ? 1 : 3, "emit, return, throw");
            if (op == 0) {
                if (n - first < B) {
                    accepted[n++] = emitted;
                }
                pp()->emit(mk<M<0>>(emitted++));
            }
            else {
                nmc::cell_set(1 + accepted[first++], op);
            }
            nmc::quiesce();
            NMC_REQUIRE(count(3) == emitted, "another reaction ran %d times for %d emissions", count(3), emitted);
            for (int k = 0; k < emitted; ++k) {
                int want = 0;
                for (int j = 0; j < n; ++j) {
                    // tasks beyond the two threads of the pool are queued
                    want += accepted[j] == k && j < first + 2 ? 1 : 0;
                }
                NMC_REQUIRE(count(1, k) == want, "emission %d was run %d times, expected %d (%d pending of %d allowed)", k, count(1, k), want, n - first, B);
            }
            NMC_REQUIRE(count(2) == first, "%d tasks ended, %d should have", count(2), first);
        }
    }
};
using seq_1 = Seq<1>;
using seq_2 = Seq<2>;
using seq_3 = Seq<3>;
QUIET_SCENARIO(seq_1, 1, "Single: every sequence of 6 emissions and completions", nmc::preempt(0), nmc::preempt(1));
QUIET_SCENARIO(seq_2, 1, "Buffer<2>: every sequence of 6 emissions and completions", nmc::preempt(0), nmc::preempt(1));
QUIET_SCENARIO(seq_3, 1, "Buffer<3> in a pool of two: every sequence of 6 emissions and completions", nmc::preempt(0), nmc::preempt(1));

// Two threads emit while nothing can complete: exactly the first n are accepted
template <int B, int EachA, int EachB, class... W>
struct Together : Kicked {
    explicit Together(std::unique_ptr<NUClear::Environment> e) : Kicked(std::move(e)) {
        this->template on<Trigger<M<0>>, Buffer<B>, W...>().then([](const M<0>& m) {
            nmc::event(1, m.v);
            nmc::await_cell(1, 1);
            nmc::event(2, m.v);
        });
        this->template on<Trigger<K<0>>, MainThread>().then([this] { for (int i = 0; i < EachA; ++i) { this->emit(mk<M<0>>(i)); } });
        this->template on<Trigger<K<2>>, Pool<P1<102>>>().then([this] { for (int i = 0; i < EachB; ++i) { this->emit(mk<M<0>>(4 + i)); } });
        this->template on<Startup>().then([this] { this->emit(mk<K<0>>(0)); this->emit(mk<K<2>>(0)); });
    }
    static void check() {
        const int total = EachA + EachB;
        nmc::cell_set(1, 1);
        nmc::quiesce();
        NMC_REQUIRE(count(2) == (total < B ? total : B), "of %d simultaneous emissions %d were run, Buffer<%d> must accept exactly %d", total, count(2), B, total < B ? total : B);
        // and everything was given back
        pp()->emit(mk<M<0>>(9));
        nmc::quiesce();
        NMC_REQUIRE(count(2, 9) == 1, "an emission was dropped although nothing was pending");
    }
};
using together_single  = Together<1, 1, 1, Pool<P2<0>>>;
using together_buffer2 = Together<2, 2, 1, Pool<P2<0>>>;
using together_enough  = Together<2, 1, 1, Pool<P2<0>>>;
using together_sync    = Together<1, 1, 1, Pool<P1<0>>, Sync<G<0>>>;
QUIET_SCENARIO(together_single, 1, "Single: two threads emit at the same time", nmc::preempt(2), nmc::preempt(3));
QUIET_SCENARIO(together_buffer2, 1, "Buffer<2>: three emissions from two threads", nmc::preempt(1), nmc::preempt(2));
QUIET_SCENARIO(together_enough, 1, "Buffer<2>: two emissions from two threads are both accepted", nmc::preempt(1), nmc::preempt(2));
QUIET_SCENARIO(together_sync, 1, "Single and Sync: two threads emit at the same time", nmc::preempt(1), nmc::preempt(2));

// Emissions race with completions: never more than n at once, and what is dropped found n tasks pending
struct completing : Kicked {
    REACTOR(completing) {
        on<Trigger<M<0>>, Single, Pool<P2<0>>>().then([](const M<0>& m) {
            Region r(20, 1, "Single");
            nmc::event(1, m.v);
        });
        kick_main([this] {
            emit(mk<M<0>>(0));
            nmc::event(5, 0);
            emit(mk<M<0>>(1));
            nmc::event(5, 1);
        });
        kick_own([this] {
            emit(mk<M<0>>(2));
            nmc::event(5, 2);
        });
    }
    static void check() {
        NMC_REQUIRE(count(1) >= 1, "all of the emissions were dropped");
        for (int i = 0; i < 3; ++i) { NMC_REQUIRE(count(1, i) <= 1, "an emission was run %d times", count(1, i)); }
        const int n = count(1);
        pp()->emit(mk<M<0>>(3));
        nmc::quiesce();
        NMC_REQUIRE(count(1) == n + 1, "an emission was dropped although nothing was pending");
    }
};
QUIET_SCENARIO(completing, 1, "Single: emissions race with completions", nmc::preempt(1), nmc::preempt(2));

// A task emits its own trigger: dropped while it is running, accepted from what it causes
struct itself : Kicked {
    REACTOR(itself) {
        on<Trigger<M<0>>, Single, Pool<P2<0>>>().then([this](const M<0>& m) {
            nmc::event(1, m.v);
            emit(mk<M<0>>(10 + m.v));
            emit<Scope::INLINE>(mk<M<0>>(20 + m.v));
            nmc::event(2, m.v);
        });
    }
    static void check() {
        for (int i = 0; i < 2; ++i) {
            pp()->emit(mk<M<0>>(i));
            nmc::quiesce();
            pp()->emit<Scope::INLINE>(mk<M<0>>(2 + i));
            nmc::quiesce();
            NMC_REQUIRE(count(1) == 2 * i + 2 && count(1, i) == 1 && count(1, 2 + i) == 1, "a Single reaction which triggers itself ran %d times, expected %d", count(1), 2 * i + 2);
        }
    }
};
QUIET_SCENARIO(itself, 1, "a Single reaction which emits its own trigger, queued and inline", nmc::preempt(2), nmc::preempt(3));

// Missing data, disabled reactions and forgotten tasks do not use up the buffer
struct unused : Kicked {
    ReactionHandle handle;
    REACTOR(unused) {
        handle = on<Trigger<M<0>>, With<M<1>>, Single, Pool<P1<0>>>().then([](const M<0>& m, const M<1>& w) { nmc::event(1, m.v, w.v); });
        on<Trigger<M<2>>, Pool<P1<1>>>().then([this](const M<2>& m) { handle.enable(m.v != 0); });
    }
    static void check() {
        for (int i = 0; i < 2; ++i) { pp()->emit(mk<M<0>>(i)); }
        nmc::quiesce();
        NMC_REQUIRE(count(1) == 0, "a reaction was run without its data");
        pp()->emit(mk<M<1>>(1));
        pp()->emit(mk<M<0>>(2));
        nmc::quiesce();
        NMC_REQUIRE(count(1, 2) == 1, "an emission was dropped after emissions without data");
        pp()->emit(mk<M<2>>(0));
        nmc::quiesce();
        pp()->emit(mk<M<0>>(3));
        nmc::quiesce();
        pp()->emit(mk<M<2>>(1));
        nmc::quiesce();
        pp()->emit(mk<M<0>>(4));
        nmc::quiesce();
        NMC_REQUIRE(count(1, 3) == 0 && count(1, 4) == 1, "after disabling and enabling the emissions were run %d and %d times", count(1, 3), count(1, 4));
    }
};
QUIET_SCENARIO(unused, 1, "emissions without data and to a disabled reaction", nmc::preempt(1), nmc::preempt(2));
