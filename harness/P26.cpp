// P26: binding, unbinding and emitting concurrently is free of data races, and every emission reaches what is bound.
#include "common.hpp"
using namespace h;
using namespace NUClear::dsl::word;
using NUClear::threading::ReactionHandle;

// kinds: 1 a reaction bound from the start, 2 a reaction bound or unbound at run time
static void always_delivered(int n) {
    for (int i = 0; i < n; ++i) {
        NMC_REQUIRE(count(1, i) == 1, "message %d was delivered %d times to a reaction which was bound all the time", i, count(1, i));
    }
    for (size_t i = 0; i < nmc::event_count(); ++i) {
        if (nmc::event_at(i).kind == 2) {
            const auto e = nmc::event_at(i);
            int n2 = 0;
            for (size_t j = 0; j < nmc::event_count(); ++j) {
                n2 += nmc::event_at(j).kind == 2 && nmc::event_at(j).a == e.a && nmc::event_at(j).b == e.b ? 1 : 0;
            }
            NMC_REQUIRE(n2 == 1, "message %d was delivered %d times to one reaction", int(e.a), n2);
        }
    }
}
static bool delivered(int v, int r) {
    for (size_t j = 0; j < nmc::event_count(); ++j) {
        if (nmc::event_at(j).kind == 2 && nmc::event_at(j).a == v && nmc::event_at(j).b == r) { return true; }
    }
    return false;
}

// Binding in one thread, emissions in another, and from the binding thread afterwards
template <class... W>
struct BindEmit : Kicked {
    explicit BindEmit(std::unique_ptr<NUClear::Environment> e) : Kicked(std::move(e)) {
        this->template on<Trigger<M<0>>, W...>().then([](const M<0>& m) { nmc::event(1, m.v); });
        this->template on<Trigger<K<0>>, MainThread>().then([this] {
            this->emit(mk<M<0>>(0));
            this->emit(mk<M<0>>(1));
        });
        this->template on<Trigger<K<2>>, Pool<P1<102>>>().then([this] {
            this->template on<Trigger<M<0>>, W...>().then([](const M<0>& m) { nmc::event(2, m.v, 0); });
            this->emit(mk<M<0>>(2));
        });
        this->template on<Startup>().then([this] { this->emit(mk<K<0>>(0)); this->emit(mk<K<2>>(0)); });
    }
    static void check() {
        always_delivered(3);
        NMC_REQUIRE(delivered(2, 0), "a reaction missed a message which was emitted after it had been bound");
    }
};
using bind_emit        = BindEmit<Pool<P1<0>>>;
using bind_emit_sync   = BindEmit<Pool<P1<0>>, Sync<G<0>>>;
using bind_emit_inline = BindEmit<Inline::ALWAYS>;
QUIET_SCENARIO(bind_emit, 1, "a reaction is bound while another thread emits", nmc::preempt(1), nmc::preempt(2));
QUIET_SCENARIO(bind_emit_sync, 1, "a reaction with a group is bound while another thread emits", nmc::preempt(1), nmc::preempt(2));
QUIET_SCENARIO(bind_emit_inline, 1, "an inline reaction is bound while another thread emits", nmc::preempt(2), nmc::preempt(3));

// Unbinding in one thread, emissions in another; all positions in the list
template <int Position, class... W>
struct UnbindEmit : Kicked {
    ReactionHandle handle;
    void gone() {
        handle = this->template on<Trigger<M<0>>, W...>().then([](const M<0>& m) { nmc::event(2, m.v, 0); });
    }
    explicit UnbindEmit(std::unique_ptr<NUClear::Environment> e) : Kicked(std::move(e)) {
        if (Position == 0) { gone(); }
        this->template on<Trigger<M<0>>, W...>().then([](const M<0>& m) { nmc::event(1, m.v); });
        if (Position == 1) { gone(); }
        this->template on<Trigger<M<0>>, W...>().then([](const M<0>& m) { nmc::event(2, m.v, 1); });
        if (Position == 2) { gone(); }
        this->template on<Trigger<K<0>>, MainThread>().then([this] {
            this->emit(mk<M<0>>(0));
            this->emit(mk<M<0>>(1));
        });
        this->template on<Trigger<K<2>>, Pool<P1<102>>>().then([this] {
            handle.unbind();
            this->emit(mk<M<0>>(2));
        });
        this->template on<Startup>().then([this] { this->emit(mk<K<0>>(0)); this->emit(mk<K<2>>(0)); });
    }
    static void check() {
        always_delivered(3);
        for (int i = 0; i < 3; ++i) { NMC_REQUIRE(delivered(i, 1), "message %d was not delivered to a reaction behind the unbound one", i); }
        NMC_REQUIRE(!delivered(2, 0), "a message was delivered to a reaction which had been unbound before it was emitted");
    }
};
using unbind_first  = UnbindEmit<0, Pool<P1<0>>>;
using unbind_middle = UnbindEmit<1, Pool<P1<0>>>;
using unbind_last   = UnbindEmit<2, Inline::ALWAYS>;
QUIET_SCENARIO(unbind_first, 1, "the first of three reactions is unbound while another thread emits", nmc::preempt(1), nmc::preempt(2));
QUIET_SCENARIO(unbind_middle, 1, "the second of three reactions is unbound while another thread emits", nmc::preempt(1), nmc::preempt(2));
QUIET_SCENARIO(unbind_last, 1, "the last of three inline reactions is unbound while another thread emits", nmc::preempt(1), nmc::preempt(2));

// Two threads bind to the same type in the same reactor
struct bind_bind : Kicked {
    REACTOR(bind_bind) {
        kick_main([this] { on<Trigger<M<0>>, Pool<P1<0>>>().then([](const M<0>& m) { nmc::event(2, m.v, 0); }); });
        kick_own([this] { on<Trigger<M<0>>, Pool<P1<0>>>().then([](const M<0>& m) { nmc::event(2, m.v, 1); }); });
    }
    static void check() {
        pp()->emit(mk<M<0>>(0));
        nmc::quiesce();
        NMC_REQUIRE(count(2) == 2 && delivered(0, 0) && delivered(0, 1), "%d of 2 reactions bound at the same time are triggered", count(2));
    }
};
QUIET_SCENARIO(bind_bind, 1, "two threads bind to the same type", nmc::preempt(2), nmc::preempt(3));

// One thread binds, another one unbinds
struct bind_unbind : Kicked {
    ReactionHandle handle;
    REACTOR(bind_unbind) {
        on<Trigger<M<0>>, Pool<P1<0>>>().then([](const M<0>& m) { nmc::event(1, m.v); });
        handle = on<Trigger<M<0>>, Pool<P1<0>>>().then([](const M<0>& m) { nmc::event(2, m.v, 0); });
        kick_main([this] { on<Trigger<M<0>>, Pool<P1<0>>>().then([](const M<0>& m) { nmc::event(2, m.v, 1); }); });
        kick_own([this] { handle.unbind(); });
    }
    static void check() {
        pp()->emit(mk<M<0>>(0));
        nmc::quiesce();
        always_delivered(1);
        NMC_REQUIRE(!delivered(0, 0) && delivered(0, 1), "after binding one reaction and unbinding another: bound %d, unbound %d triggered", delivered(0, 1), delivered(0, 0));
    }
};
QUIET_SCENARIO(bind_unbind, 1, "one thread binds, another one unbinds", nmc::preempt(2), nmc::preempt(3));

// The same reaction is unbound by two threads
struct unbind_unbind : Kicked {
    ReactionHandle handle;
    REACTOR(unbind_unbind) {
        handle = on<Trigger<M<0>>, Pool<P1<0>>>().then([](const M<0>& m) { nmc::event(2, m.v, 0); });
        on<Trigger<M<0>>, Pool<P1<0>>>().then([](const M<0>& m) { nmc::event(1, m.v); });
        kick_main([this] { handle.unbind(); });
        kick_own([this] { ReactionHandle h = handle; h.unbind(); emit(mk<M<0>>(0)); });
    }
    static void check() {
        always_delivered(1);
        NMC_REQUIRE(!delivered(0, 0), "an unbound reaction was triggered");
    }
};
QUIET_SCENARIO(unbind_unbind, 1, "two threads unbind the same reaction", nmc::preempt(2), nmc::preempt(3));

// A reaction with two triggers and further data is bound while both types are emitted
struct bind_two : Kicked {
    REACTOR(bind_two) {
        on<Trigger<M<0>>, Pool<P1<0>>>().then([](const M<0>& m) { nmc::event(1, m.v); });
        on<Trigger<M<1>>, Pool<P1<0>>>().then([](const M<1>& m) { nmc::event(1, m.v); });
        on<Startup>().then([this] { emit(mk<M<0>>(0)); emit(mk<M<1>>(1)); });
        kick_main([this] { emit(mk<M<0>>(2)); emit(mk<M<1>>(3)); });
        kick_own([this] {
            on<Trigger<M<0>>, Trigger<M<1>>, Optional<With<M<2>>>, Pool<P1<0>>>().then([](const M<0>& a, const M<1>& b) { nmc::event(2, a.v * 10 + b.v, 0); });
            emit(mk<M<1>>(4));
        });
    }
    static void check() {
        for (int i = 0; i < 5; ++i) { NMC_REQUIRE(count(1, i) == 1, "message %d was delivered %d times", i, count(1, i)); }
        NMC_REQUIRE(delivered(4, 0) || delivered(24, 0), "a reaction with two triggers missed a message which was emitted after it had been bound");
    }
};
QUIET_SCENARIO(bind_two, 1, "a reaction with two triggers is bound while both are emitted", nmc::preempt(1), nmc::preempt(2));

// Reactions which bind others when they run, and are unbound by them
struct rebinding : Kicked {
    ReactionHandle handle;
    void bind(int generation) {
        handle = on<Trigger<M<0>>, Pool<P1<0>>>().then([this, generation](const M<0>& m) {
            nmc::event(2, m.v, generation);
            handle.unbind();
            if (generation < 2) { bind(generation + 1); }
        });
    }
    REACTOR(rebinding) {
        on<Trigger<M<0>>>().then([](const M<0>& m) { nmc::event(1, m.v); });
        bind(0);
        kick_main([this] { emit(mk<M<0>>(0)); });
    }
    static void check() {
        NMC_REQUIRE(count(2) == 1, "one message triggered a reaction and those it bound %d times", count(2));
        pp()->emit(mk<M<0>>(1));
        nmc::quiesce();
        pp()->emit(mk<M<0>>(2));
        nmc::quiesce();
        pp()->emit(mk<M<0>>(3));
        nmc::quiesce();
        always_delivered(4);
        NMC_REQUIRE(count(2) == 3 && delivered(0, 0) && delivered(1, 1) && delivered(2, 2), "three generations of a reaction ran %d times", count(2));
    }
};
QUIET_SCENARIO(rebinding, 1, "a reaction replaces itself each time it runs", nmc::preempt(1), nmc::preempt(2));
