// P10: reaction handles switch reactions on, off and out for good.
#include "common.hpp"
using namespace h;
using namespace NUClear::dsl::word;
using NUClear::threading::ReactionHandle;

// kinds: 1 reaction under test ran, 2 the other reaction ran, 3 a Once reaction ran, 4 an operation was made
enum { EMIT, DISABLE, ENABLE, UNBIND, SET_OFF, SET_ON, INLINE, EMIT_OTHER, OPS };

// Every sequence of operations against a model; From: 0 operations are made by the controller, 1 by a reaction
template <int N, int From>
struct Seq : Kicked {
    static ReactionHandle a, b, c;
    static void perform(int op, int v) {
        ReactionHandle copy = a;
        switch (op) {
            case EMIT: pp()->emit(mk<M<0>>(v)); break;
            case INLINE: pp()->emit<Scope::INLINE>(mk<M<0>>(v)); break;
            case DISABLE: a.disable(); break;
            case ENABLE: copy.enable(); break;
            case UNBIND: a.unbind(); break;
            case SET_OFF: copy.enable(false); break;
            case SET_ON: a.enable(true); break;
            default: pp()->emit(mk<M<1>>(v)); break;
        }
    }
    explicit Seq(std::unique_ptr<NUClear::Environment> e) : Kicked(std::move(e)) {
        using P = Pool<P1<0>>;
        b = on<Trigger<M<0>>, P>().then([](const M<0>& m) { nmc::event(2, m.v); });
        a = on<Trigger<M<0>>, Optional<With<M<1>>>, P>().then([](const std::shared_ptr<const M<0>>& m) { nmc::event(1, m->v); });
        c = on<Trigger<M<0>>, Once, P>().then([](const M<0>& m) { nmc::event(3, m.v); });
        on<Trigger<M<0>>, P>().then([](const M<0>& m) { nmc::event(2, m.v); });
        on<Trigger<M<9>>, Pool<P1<1>>>().then([](const M<9>& m) { perform(m.v / 100, m.v % 100); });
    }
    static void check() {
        bool enabled = true, bound = true;
        int want[N] = {}, emitted[N] = {}, first = -1;
        for (int i = 0; i < N; ++i) {
            const int op = nmc::choose(OPS, "emit, disable, enable, unbind, enable(false), enable(true), emit inline, emit other");
            if (op == EMIT || op == INLINE) {
                want[i]    = enabled && bound ? 1 : 0;
                emitted[i] = 1;
                first      = first < 0 ? i : first;
            }
            enabled = op == DISABLE || op == SET_OFF ? false : op == ENABLE || op == SET_ON ? true : enabled;
            bound   = bound && op != UNBIND;
            if (From) {
                pp()->emit(mk<M<9>>(op * 100 + i));
            }
            else {
                perform(op, i);
            }
            nmc::quiesce();
            NMC_REQUIRE(!bound || a.enabled() == enabled, "enabled() says %d", a.enabled());
            NMC_REQUIRE(b.enabled(), "an operation on one reaction changed another one");
            for (int k = 0; k <= i; ++k) {
                NMC_REQUIRE(count(1, k) == want[k], "message %d was delivered %d times, expected %d", k, count(1, k), want[k]);
                NMC_REQUIRE(count(2, k) == 2 * emitted[k], "message %d was delivered %d times to the two other reactions", k, count(2, k));
                NMC_REQUIRE(count(3, k) == (k == first ? 1 : 0), "the Once reaction ran %d times for message %d", count(3, k), k);
            }
        }
    }
};
template <int N, int From> ReactionHandle Seq<N, From>::a;
template <int N, int From> ReactionHandle Seq<N, From>::b;
template <int N, int From> ReactionHandle Seq<N, From>::c;
using seq_controller = Seq<4, 0>;
using seq_reaction   = Seq<4, 1>;
using seq_long       = Seq<5, 0>;
QUIET_SCENARIO(seq_controller, 1, "every sequence of 4 operations on one of two reactions", nmc::preempt(0), nmc::preempt(1));
QUIET_SCENARIO(seq_reaction, 1, "every sequence of 4 operations made by a third reaction", nmc::preempt(0), nmc::preempt(0));
QUIET_SCENARIO(seq_long, 1, "every sequence of 5 operations on one of two reactions", nmc::preempt(0), nmc::preempt(0));

// Reactions which act on their own handle or another one's while they are triggered
template <class Emission>
struct Within : Kicked {
    ReactionHandle self, other, later;
    explicit Within(std::unique_ptr<NUClear::Environment> e) : Kicked(std::move(e)) {
        using P = Pool<P1<0>>;
        self = on<Trigger<M<0>>, P>().then([this](const M<0>& m) {
            nmc::event(1, m.v);
            const int op = nmc::choose(5, "nothing, disable self, unbind self, disable the next, unbind the next");
            nmc::cell_set(1, op);
            if (op == 1) { self.disable(); }
            if (op == 2) { self.unbind(); self.unbind(); }
            if (op == 3) { later.disable(); }
            if (op == 4) { later.unbind(); }
        });
        later = on<Trigger<M<0>>, P>().then([](const M<0>& m) { nmc::event(2, m.v); });
        on<Trigger<M<0>>, P>().then([](const M<0>& m) { nmc::event(3, m.v); });
    }
    static void check() {
        Emission::emit(0);
        nmc::quiesce();
        const auto op = nmc::cell_get(1);
        NMC_REQUIRE(count(1, 0) == 1, "the first reaction ran %d times", count(1, 0));
        NMC_REQUIRE(count(2, 0) == 1 || (count(2, 0) == 0 && op >= 3), "the second reaction ran %d times", count(2, 0));
        NMC_REQUIRE(count(3, 0) == 1, "a reaction behind the one which acted on a handle ran %d times", count(3, 0));
        if (op == 1 || op == 2) {
            Emission::emit(1);
            nmc::quiesce();
            NMC_REQUIRE(count(1, 1) == 0 && count(2, 1) == 1 && count(3, 1) == 1, "after a reaction had switched itself off %d %d %d reactions ran", count(1, 1), count(2, 1), count(3, 1));
        }
    }
};
struct Queued { static void emit(int v) { pp()->emit(mk<M<0>>(v)); } };
struct Inlined { static void emit(int v) { pp()->emit<NUClear::dsl::word::emit::Inline>(mk<M<0>>(v)); } };
using within_queued = Within<Queued>;
using within_inline = Within<Inlined>;
QUIET_SCENARIO(within_queued, 1, "a reaction switches itself or the next one off", nmc::preempt(1), nmc::preempt(2));
QUIET_SCENARIO(within_inline, 1, "an inline reaction switches itself or the next one off", nmc::preempt(1), nmc::preempt(2));

// Disabling from one thread while another one emits
struct racing : Kicked {
    ReactionHandle handle;
    REACTOR(racing) {
        handle = on<Trigger<M<0>>, Pool<P1<0>>>().then([](const M<0>& m) { nmc::event(1, m.v); });
        on<Trigger<M<0>>, Pool<P1<0>>>().then([](const M<0>& m) { nmc::event(2, m.v); });
        kick_main([this] { emit(mk<M<0>>(0)); emit(mk<M<0>>(1)); });
        kick_own([this] {
            handle.disable();
            emit(mk<M<0>>(2));
            handle.enable();
            emit(mk<M<0>>(3));
        });
    }
    static void check() {
        for (int i = 0; i < 4; ++i) { NMC_REQUIRE(count(2, i) == 1, "the other reaction ran %d times for one emission", count(2, i)); }
        for (int i = 0; i < 2; ++i) { NMC_REQUIRE(count(1, i) <= 1, "a reaction ran %d times for one emission", count(1, i)); }
        NMC_REQUIRE(count(1, 2) == 0, "a disabled reaction was triggered");
        NMC_REQUIRE(count(1, 3) == 1, "an enabled reaction was triggered %d times by one emission", count(1, 3));
    }
};
QUIET_SCENARIO(racing, 1, "disabling and enabling race with emissions", nmc::preempt(1), nmc::preempt(2));

// Once reactions triggered by several threads
template <class... W>
struct OnceRace : Kicked {
    explicit OnceRace(std::unique_ptr<NUClear::Environment> e) : Kicked(std::move(e)) {
        this->template on<Trigger<M<0>>, Once, W...>().then([](const M<0>& m) { nmc::event(1, m.v); });
        this->template on<Trigger<M<0>>>().then([](const M<0>& m) { nmc::event(2, m.v); });
        this->template on<Trigger<K<0>>, MainThread>().then([this] { this->emit(mk<M<0>>(0)); });
        this->template on<Trigger<K<2>>, Pool<P1<102>>>().then([this] { this->emit(mk<M<0>>(1)); this->emit(mk<M<0>>(2)); });
        this->template on<Startup>().then([this] { this->emit(mk<K<0>>(0)); this->emit(mk<K<2>>(0)); });
    }
    static void check() {
        NMC_REQUIRE(count(1) == 1, "a Once reaction ran %d times", count(1));
        for (int i = 0; i < 3; ++i) { NMC_REQUIRE(count(2, i) == 1, "an emission triggered the other reaction %d times", count(2, i)); }
        pp()->emit(mk<M<0>>(9));
        nmc::quiesce();
        NMC_REQUIRE(count(1) == 1 && count(2, 9) == 1, "after a Once reaction had run the reactions ran %d and %d times", count(1), count(2, 9));
    }
};
using once_queued = OnceRace<Pool<P2<0>>>;
using once_inline = OnceRace<Inline::ALWAYS>;
QUIET_SCENARIO(once_queued, 1, "a Once reaction triggered by two threads", nmc::preempt(1), nmc::preempt(2));
QUIET_SCENARIO(once_inline, 1, "an inline Once reaction triggered by two threads", nmc::preempt(1), nmc::preempt(2));

// Unbinding what has been queued or is running; handles outlive their reaction
struct afterwards : Kicked {
    ReactionHandle handle;
    REACTOR(afterwards) {
        handle = on<Trigger<M<0>>, Pool<P1<0>>>().then([](const M<0>& m) {
            nmc::event(1, m.v);
            nmc::await_cell(1, 1);
            nmc::event(2, m.v);
        });
        on<Trigger<M<1>>, Pool<P1<1>>>().then([this](const M<1>& m) {
            if (m.v == 0) { handle.unbind(); }
            if (m.v == 1) { handle.unbind(); handle.enable(); handle.disable(); handle.enable(true); }
            nmc::event(3, m.v, handle ? 1 : 0);
        });
    }
    static void check() {
        pp()->emit(mk<M<0>>(0));
        pp()->emit(mk<M<0>>(1));
        nmc::quiesce();
        pp()->emit(mk<M<1>>(0));
        nmc::quiesce();
        pp()->emit(mk<M<0>>(2));
        nmc::quiesce();
        nmc::cell_set(1, 1);
        nmc::quiesce();
        NMC_REQUIRE(count(2, 0) == 1, "the task which was running when its reaction was unbound ended %d times", count(2, 0));
        NMC_REQUIRE(count(1, 2) == 0, "an unbound reaction was triggered");
        pp()->emit(mk<M<1>>(1));
        pp()->emit(mk<M<1>>(2));
        nmc::quiesce();
        pp()->emit(mk<M<0>>(3));
        nmc::quiesce();
        NMC_REQUIRE(count(1, 3) == 0, "an unbound reaction was triggered after it had been enabled");
        NMC_REQUIRE(count(3) == 3, "%d of 3 operations on a handle were made", count(3));
    }
};
QUIET_SCENARIO(afterwards, 1, "unbinding a reaction whose tasks are queued and running", nmc::preempt(1), nmc::preempt(2));

// An Always reaction which unbinds itself in its third run, by return or by exception
struct always_unbound : Kicked {
    ReactionHandle handle;
    int n = 0;
    REACTOR(always_unbound) {
        handle = on<Always>().then([this] {
            nmc::event(1, ++n);
            if (n == 3) {
                handle.unbind();
            }
            if (n >= 2 && nmc::choose(2, "return or throw") == 1) {
                throw std::runtime_error("always");
            }
        });
    }
    static void check() {
        NMC_REQUIRE(count(1) == 3, "an Always reaction which unbinds itself in its third run ran %d times", count(1));
    }
};
QUIET_SCENARIO(always_unbound, 1, "an Always reaction unbinds itself", nmc::preempt(1), nmc::preempt(2));

// Callbacks of every kind, passed in every way, still are the ones that were bound when they run
static void plain_function(const M<0>& m) { nmc::event(5, m.v); }
struct Functor {
    int id;
    void operator()(const M<0>& m) const { nmc::event(id, m.v); }
};
struct callbacks : Kicked {
    // Overwrites the stack frames of what was called before
    __attribute__((noinline)) static void scribble() {
        volatile char junk[512];
        for (auto& c : junk) { c = 0x5A; }
    }
    __attribute__((noinline)) void bind() {
        const auto constant = [](int id) { return [id](const M<0>& m) { nmc::event(id, m.v); }; };
        auto named          = constant(1);
        const auto fixed    = constant(2);
        Functor functor{3};
        const std::function<void(const M<0>&)> function = constant(6);
        on<Trigger<M<0>>>().then(named);
        on<Trigger<M<0>>>().then(fixed);
        on<Trigger<M<0>>>().then(functor);
        on<Trigger<M<0>>>().then(Functor{4});
        on<Trigger<M<0>>>().then(plain_function);
        on<Trigger<M<0>>>().then("label", function);
        on<Trigger<M<0>>>().then(&plain_function);
        functor = Functor{0};
    }
    REACTOR(callbacks) {
        bind();
        scribble();
    }
    static void check() {
        pp()->emit(mk<M<0>>(7));
        scribble();
        nmc::quiesce();
        for (int i = 1; i <= 6; ++i) {
            NMC_REQUIRE(count(i, 7) == (i == 5 ? 2 : 1), "callback %d ran %d times", i, count(i, 7));
        }
        NMC_REQUIRE(count(0) == 0, "a callback was replaced by what its name stands for now");
    }
};
QUIET_SCENARIO(callbacks, 1, "callbacks passed by name, by value, as functions and as functors", nmc::preempt(0), nmc::preempt(1));
