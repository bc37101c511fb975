// P11: inline emission and inline reactions run when, where and if they should.
#include "common.hpp"
using namespace h;
using namespace NUClear::dsl::word;
using NUClear::threading::ReactionTask;

// The reactions under test, all triggered by M<0> and bound in this order; an event of kind 10 + index is recorded for each run
enum { PLAIN, OTHER_POOL, MAIN, NEVER, ALWAYS, SYNC, MULTI, ALWAYS_POOL, THROWS, BEHIND, TWO_SLOTS, COUNT };
enum { AT_ONCE_INLINE = 1, AT_ONCE_LOCAL = 2 };
static int when(int r) {
    return r == NEVER ? 0 : r == ALWAYS || r == ALWAYS_POOL ? AT_ONCE_INLINE | AT_ONCE_LOCAL : AT_ONCE_INLINE;
}
static const char* const names[] = {"plain", "other pool", "main", "never", "always", "sync", "multi", "always pool", "throws", "behind", "two slots"};

static void identity(int r, const char* when) {
    const auto* t = ReactionTask::get_current_task();
    NMC_REQUIRE(t != nullptr && t->parent != nullptr && t->parent->identifiers->name == names[r], "%s reaction '%s' the current task is %s", when, names[r],
                t == nullptr || t->parent == nullptr ? "none" : t->parent->identifiers->name.c_str());
}
// Emit and check what ran by the time it has returned. held: a reaction whose group the caller occupies, or -1; queued: tasks
// which occupy groups may be queued, so that inline tasks may have to wait
static void emission(bool inl, int v, int held, bool queued = false) {
    const auto* before = ReactionTask::get_current_task();
    const size_t from  = nmc::event_count();
    if (inl) {
        pp()->emit<NUClear::dsl::word::emit::Inline>(mk<M<0>>(v));
    }
    else {
        pp()->emit(mk<M<0>>(v));
    }
    NMC_REQUIRE(ReactionTask::get_current_task() == before, "the current task is another one after an emission");
    int next = 0;
    const auto skip = [&](int kind) {
        while (next < COUNT
               && ((when(next) & (inl ? AT_ONCE_INLINE : AT_ONCE_LOCAL)) == 0 || next == held
                   || (queued && 10 + next != kind && (next == SYNC || next == MULTI || next == TWO_SLOTS)))) {
            ++next;
        }
    };
    for (size_t i = from; i < nmc::event_count(); ++i) {
        const auto e = nmc::event_at(i);
        if (e.kind < 10 || e.kind >= 10 + COUNT || e.a != v || e.thread != nmc::thread_id()) {
            continue;
        }
        skip(e.kind);
        NMC_REQUIRE(next < COUNT && e.kind == 10 + next, "%s emission: reaction '%s' ran on the emitting thread where '%s' should have", inl ? "inline" : "local", names[e.kind - 10],
                    next < COUNT ? names[next] : "none");
        ++next;
    }
    skip(-1);
    NMC_REQUIRE(next == COUNT, "%s emission: reaction '%s' had not run on the emitting thread when the emission returned", inl ? "inline" : "local", names[next]);
}

// values: units identify the emission, 2 and 3 are local ones; v / 100 - 1 is the reaction which makes a nested inline emission with value v % 100 + 50
struct Program : Kicked {
    void run(int r, const M<0>& m) {
        identity(r, "at the start of");
        nmc::event(10 + r, m.v);
        if (m.v >= 100 && m.v / 100 - 1 == r) {
            emission(true, m.v % 100 + 50, r == SYNC || r == MULTI ? r : -1, m.v % 10 >= 2);
        }
        identity(r, "at the end of");
    }
    template <class... W>
    void add(int r) {
        this->template on<Trigger<M<0>>, W...>().then(names[r], [this, r](const M<0>& m) { run(r, m); });
    }
    explicit Program(std::unique_ptr<NUClear::Environment> e) : Kicked(std::move(e)) {
        add<>(PLAIN);
        add<Pool<P1<0>>>(OTHER_POOL);
        add<MainThread>(MAIN);
        add<Pool<P1<0>>, Inline::NEVER>(NEVER);
        add<Inline::ALWAYS>(ALWAYS);
        add<Sync<G<0>>>(SYNC);
        add<Sync<G<1>>, Sync<G<2>>>(MULTI);
        add<Inline::ALWAYS, Pool<P1<0>>>(ALWAYS_POOL);
        on<Trigger<M<0>>>().then(names[THROWS], [](const M<0>& m) {
            identity(THROWS, "in");
            nmc::event(10 + THROWS, m.v);
            throw std::runtime_error("inline");
        });
        add<>(BEHIND);
        add<Group<G2<0>>>(TWO_SLOTS);
        on<Trigger<M<1>>>().then([](const M<1>& m) { from_reaction(m.v); });
        on<Trigger<M<2>>, Pool<P1<0>>>().then([](const M<2>& m) { from_reaction(m.v); });
        on<Trigger<M<3>>, MainThread>().then([](const M<3>& m) { from_reaction(m.v); });
    }
    static void from_reaction(int code) { emission(code >= 10000, code % 10000, -1); }
    static void check() {
        static const int nesting[] = {-1, PLAIN, ALWAYS, SYNC, MULTI, TWO_SLOTS};
        int done[2], n = 0;
        for (int i = 0; i < 2; ++i) {
            const int scope = nmc::choose(2, "local, inline");
            const int nest  = nesting[nmc::choose(6, "nested emission in none, plain, always, sync, multi, two slots")];
            const int code  = scope * 10000 + (nest + 1) * 100 + i + (scope == 0 ? 2 : 0);
            switch (nmc::choose(i == 0 ? 4 : 2, "emitted by a foreign thread, the default pool, another pool, the main thread")) {
                case 0: emission(scope == 1, code % 10000, -1); break;
                case 1: pp()->emit(mk<M<1>>(code)); break;
                case 2: pp()->emit(mk<M<2>>(code)); break;
                default: pp()->emit(mk<M<3>>(code)); break;
            }
            nmc::quiesce();
            done[n++] = code % 10000;
            for (int k = 0; k < n; ++k) {
                for (int r = 0; r < COUNT; ++r) {
                    NMC_REQUIRE(count(10 + r, done[k]) == 1, "reaction '%s' ran %d times for one emission", names[r], count(10 + r, done[k]));
                    if (done[k] >= 100) {
                        NMC_REQUIRE(count(10 + r, done[k] % 100 + 50) == 1, "reaction '%s' ran %d times for a nested emission", names[r], count(10 + r, done[k] % 100 + 50));
                    }
                }
            }
        }
    }
};
using program = Program;
QUIET_SCENARIO(program, 1, "every pair of local or inline emissions, from every kind of thread, with emissions nested in every kind of reaction", nmc::preempt(0), nmc::preempt(1));

// Inline and queued tasks compete for the same group
template <class... Groups>
struct Contended : Kicked {
    explicit Contended(std::unique_ptr<NUClear::Environment> e) : Kicked(std::move(e)) {
        this->template on<Trigger<M<0>>, Pool<P1<0>>, Groups...>().then([](const M<0>& m) {
            Region r(0, 1, "reactions of one group");
            nmc::event(1, m.v);
        });
        this->template on<Trigger<M<0>>>().then([](const M<0>& m) { nmc::event(2, m.v); });
        kick_main([this] {
            this->template emit<Scope::INLINE>(mk<M<0>>(0));
            NMC_REQUIRE(count(2, 0) == 1, "a reaction had not run when the inline emission returned");
        });
        kick([this] {
            this->template emit<Scope::INLINE>(mk<M<0>>(1));
            NMC_REQUIRE(count(2, 1) == 1, "a reaction had not run when the inline emission returned");
            this->emit(mk<M<0>>(2));
        });
    }
    static void check() {
        for (int i = 0; i < 3; ++i) {
            NMC_REQUIRE(count(1, i) == 1, "the task of emission %d ran %d times", i, count(1, i));
            NMC_REQUIRE(count(2, i) == 1, "the other task of emission %d ran %d times", i, count(2, i));
        }
    }
};
using contended_one   = Contended<Sync<G<0>>>;
using contended_multi = Contended<Sync<G<0>>, Sync<G<1>>>;
QUIET_SCENARIO(contended_one, 1, "two inline and a queued task compete for one group", nmc::preempt(1), nmc::preempt(2));
QUIET_SCENARIO(contended_multi, 1, "two inline and a queued task compete for two groups", nmc::preempt(1), nmc::preempt(2));

// The holder of a group emits inline to its own group: those tasks have to wait until it has ended, in their pools
template <class... Groups>
struct Holder : Kicked {
    explicit Holder(std::unique_ptr<NUClear::Environment> e) : Kicked(std::move(e)) {
        this->template on<Trigger<M<0>>, Groups...>().then([this](const M<0>& m) {
            Region r(0, 1, "reactions of one group");
            nmc::event(1, m.v);
            if (m.v == 0) {
                this->template emit<Scope::INLINE>(mk<M<0>>(1));
                NMC_REQUIRE(count(1, 1) == 0, "an inline task ran while its group was held by its emitter");
                this->template emit<Scope::INLINE>(mk<M<1>>(2));
                NMC_REQUIRE(count(1, 2) == 0, "an inline task ran while its group was held by its emitter");
            }
        });
        this->template on<Trigger<M<1>>, Inline::ALWAYS, Pool<P1<0>>, Groups...>().then([](const M<1>& m) {
            Region r(0, 1, "reactions of one group");
            nmc::event(1, m.v);
        });
        kick_main([this] { this->template emit<Scope::INLINE>(mk<M<0>>(0)); });
        kick([this] { this->emit(mk<M<1>>(3)); });
    }
    static void check() {
        for (int i = 0; i < 4; ++i) { NMC_REQUIRE(count(1, i) == 1, "task %d ran %d times", i, count(1, i)); }
    }
};
using holder_one   = Holder<Sync<G<0>>>;
using holder_multi = Holder<Sync<G<0>>, Sync<G<1>>>;
QUIET_SCENARIO(holder_one, 1, "the holder of a group emits inline to its group", nmc::preempt(1), nmc::preempt(2));
QUIET_SCENARIO(holder_multi, 1, "the holder of two groups emits inline to its groups", nmc::preempt(1), nmc::preempt(2));

// Several threads make inline emissions of the same type at once
struct concurrent : Kicked {
    void make(int v) {
        const int n0 = count(1, v), n1 = count(2, v);
        emit<Scope::INLINE>(mk<M<0>>(v));
        NMC_REQUIRE(count(1, v) == n0 + 1 && count(2, v) == n1 + 1, "an inline emission returned before its reactions had run");
        NMC_REQUIRE(index_of(1, v) < index_of(2, v), "inline reactions did not run in binding order");
    }
    REACTOR(concurrent) {
        on<Trigger<M<0>>>().then([](const M<0>& m) { ran(1, m.v); });
        on<Trigger<M<0>>, Inline::ALWAYS>().then([](const M<0>& m) { ran(2, m.v); });
        kick_main([this] { make(0); });
        kick([this] { make(1); });
        kick_own([this] { make(2); });
    }
    static void ran(int kind, int v) {
        nmc::event(kind, v, nmc::thread_id());
        nmc::point();
        NMC_REQUIRE(ReactionTask::get_current_task() != nullptr, "no current task");
    }
    static void check() {
        for (int i = 0; i < 3; ++i) {
            const int a = index_of(1, i), b = index_of(2, i);
            NMC_REQUIRE(count(1, i) == 1 && count(2, i) == 1, "message %d was delivered %d and %d times", i, count(1, i), count(2, i));
            NMC_REQUIRE(nmc::event_at(a).thread == nmc::event_at(b).thread, "inline reactions ran on different threads");
        }
    }
};
QUIET_SCENARIO(concurrent, 1, "three threads make inline emissions of one type", nmc::preempt(2), nmc::preempt(3));

// Inline tasks respect the words which limit a reaction
struct limited : Kicked {
    REACTOR(limited) {
        on<Trigger<M<0>>, Single>().then([this](const M<0>& m) {
            nmc::event(1, m.v);
            if (m.v == 0) { emit<Scope::INLINE>(mk<M<0>>(1)); }
        });
        on<Trigger<M<0>>, With<M<5>>>().then([](const M<0>& m, const M<5>&) { nmc::event(2, m.v); });
        on<Trigger<M<0>>, Once>().then([](const M<0>& m) { nmc::event(3, m.v); });
    }
    static void check() {
        pp()->emit<NUClear::dsl::word::emit::Inline>(mk<M<0>>(0));
        NMC_REQUIRE(count(1) == 1 && count(1, 0) == 1, "a Single reaction ran %d times: inline, and inline within itself", count(1));
        NMC_REQUIRE(count(2) == 0, "an inline reaction ran without its data");
        NMC_REQUIRE(count(3) == 1, "an inline Once reaction ran %d times", count(3));
        pp()->emit(mk<M<5>>(0));
        pp()->emit<NUClear::dsl::word::emit::Inline>(mk<M<0>>(2));
        NMC_REQUIRE(count(1, 2) == 1 && count(2, 2) == 1 && count(3) == 1, "%d %d %d inline reactions ran", count(1, 2), count(2, 2), count(3));
    }
};
QUIET_SCENARIO(limited, 1, "inline emissions to Single, With and Once reactions", nmc::preempt(1), nmc::preempt(2));

// Inline emissions while the system is being installed and after it has stopped
struct Lifecycle : Reactor {
    explicit Lifecycle(std::unique_ptr<NUClear::Environment> e) : Reactor(std::move(e)) {
        on<Trigger<M<0>>>().then([](const M<0>& m) { nmc::event(1, m.v); });
        on<Trigger<M<0>>, Inline::NEVER>().then([](const M<0>& m) { nmc::event(2, m.v); });
        on<Trigger<M<1>>, Inline::ALWAYS, Sync<G<0>>>().then([](const M<1>& m) { nmc::event(1, m.v); });
        on<Trigger<M<1>>, Inline::ALWAYS, Sync<G<0>>, Sync<G<1>>, Pool<P1<0>>>().then([](const M<1>& m) { nmc::event(1, m.v); });
        emit<Scope::INLINE>(mk<M<0>>(0));
        NMC_REQUIRE(count(1, 0) == 1 && count(2, 0) == 0, "an inline emission during installation ran %d and %d reactions", count(1, 0), count(2, 0));
        emit(mk<M<1>>(1));
        NMC_REQUIRE(count(1, 1) == 2, "an emission to inline reactions during installation ran %d of 2 reactions", count(1, 1));
        on<Shutdown>().then([this] {
            emit<Scope::INLINE>(mk<M<0>>(2));
            NMC_REQUIRE(count(1, 2) == 1, "an inline emission during the shutdown ran %d times", count(1, 2));
        });
        on<Startup>().then([this] { powerplant.shutdown(); });
    }
};
static void lifecycle_body() {
    pp()->install<Lifecycle>();
    pp()->start();
    NMC_REQUIRE(count(2, 0) == 1, "a queued task of the installation ran %d times", count(2, 0));
    const int never = count(2);
    pp()->emit<NUClear::dsl::word::emit::Inline>(mk<M<0>>(3));
    NMC_REQUIRE(count(1, 3) == 1, "an inline emission after the system had stopped ran %d times", count(1, 3));
    pp()->emit(mk<M<1>>(4));
    NMC_REQUIRE(count(1, 4) == 2, "inline reactions ran %d times after the system had stopped", count(1, 4));
    NMC_REQUIRE(count(2) == never, "a queued task ran after the system had stopped");
}
NMC_SCENARIO("lifecycle", "inline emissions during installation, shutdown and after the end", (&h::setup<1>), &lifecycle_body, nmc::preempt(1), nmc::preempt(2));

// Words which leave the choice to the others, in every position
struct Open {
    template <typename DSL>
    static NUClear::util::Inline run_inline(const ReactionTask& /*task*/) {
        return NUClear::util::Inline::NEUTRAL;
    }
};
struct Words : Kicked {
    int n = 0;
    template <class... W>
    void add(int always) {
        const int me = n++;
        this->template on<Trigger<M<0>>, Pool<P1<0>>, W...>().then([me, always](const M<0>& m) {
            const bool here = nmc::thread_id() == m.v % 100;
            const bool inl  = m.v >= 100;
            const bool want = always == 1 || (always == 0 && inl);
            NMC_REQUIRE(here == want, "%s emission: a reaction with words which make it run inline %s ran on %s", inl ? "inline" : "local",
                        always == 1 ? "always" : always == 0 ? "or not" : "never", here ? "the emitting thread" : "its pool");
            nmc::event(1, me, m.v);
        });
    }
    explicit Words(std::unique_ptr<NUClear::Environment> e) : Kicked(std::move(e)) {
        using A = Inline::ALWAYS;
        using N = Inline::NEVER;
        add<>(0);
        add<Open>(0);
        add<Open, Open>(0);
        add<A>(1);
        add<Open, A>(1);
        add<A, Open>(1);
        add<Open, Open, A>(1);
        add<Open, A, Open>(1);
        add<A, Open, Open>(1);
        add<A, A>(1);
        add<A, Open, A>(1);
        add<N>(-1);
        add<Open, N>(-1);
        add<N, Open>(-1);
        add<Open, Open, N>(-1);
        add<Open, N, Open>(-1);
        add<N, Open, Open>(-1);
        add<N, Open, N>(-1);
        nmc::cell_set(40, n);
        kick([this] { emit(mk<M<0>>(nmc::thread_id())); emit<Scope::INLINE>(mk<M<0>>(100 + nmc::thread_id())); });
    }
    static void check() {
        for (int r = 0; r < int(nmc::cell_get(40)); ++r) {
            NMC_REQUIRE(count(1, r) == 2, "reaction %d ran %d times for two emissions", r, count(1, r));
        }
    }
};
using words = Words;
QUIET_SCENARIO(words, 1, "words which decide about inline execution and words which do not, in every order", nmc::delays(1), nmc::preempt(1));
