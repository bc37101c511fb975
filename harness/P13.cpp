// P13: exceptions stay contained, and task events tell what really happened.
#include "common.hpp"
using namespace h;
using namespace NUClear::dsl::word;
using NUClear::message::ReactionEvent;
using NUClear::message::ReactionStatistics;
using NUClear::threading::ReactionTask;

// events: 20 + type a task event (a: task id, b: cause task id, c: reaction index), 30 the statistics message of a task,
// 40 the body of a task ran (a: task id, b: 1 if it throws), 41 an emission was made (a: task id of the emitter, b: value)
enum { BODY = 40 };
static int index_of_name(const ReactionStatistics& s) {
    return s.identifiers == nullptr || s.identifiers->name.size() != 2 ? -1 : s.identifiers->name[1] - '0';
}
static int64_t self() {
    const auto* t = ReactionTask::get_current_task();
    return t == nullptr ? 0 : int64_t(t->id);
}
static void observe(const ReactionEvent& e) {
    const auto& s = *e.statistics;
    if (index_of_name(s) < 0) {
        return;
    }
    nmc::event(20 + e.type, int64_t(s.target.task_id), int64_t(s.cause.task_id), index_of_name(s));
    if (e.type == ReactionEvent::STARTED || e.type == ReactionEvent::FINISHED) {
        const auto& at = e.type == ReactionEvent::STARTED ? s.started : s.finished;
        NMC_REQUIRE(at.thread.thread_id == std::this_thread::get_id(), "an event names a thread the task did not run on");
    }
    NMC_REQUIRE(e.type != ReactionEvent::STARTED || s.exception == nullptr, "a task had an exception before it ran");
    if (e.type == ReactionEvent::FINISHED) {
        bool threw = false;
        for (size_t i = 0; i < nmc::event_count(); ++i) {
            threw |= nmc::event_at(i).kind == BODY && nmc::event_at(i).a == int64_t(s.target.task_id) && nmc::event_at(i).b == 1;
        }
        NMC_REQUIRE((s.exception != nullptr) == threw, "the finishing event %s an exception, the task %s", s.exception ? "has" : "has not", threw ? "threw" : "returned");
        if (threw) {
            try {
                std::rethrow_exception(s.exception);
            }
            catch (const int& i) {
                NMC_REQUIRE(i == int(s.target.task_id), "the exception of a task is another one's");
            }
            catch (...) {
                nmc::fail("the exception of a task is another one's");
            }
        }
    }
}
// body of a reaction; mode: 1 throw
static void body(bool throws) {
    nmc::event(BODY, self(), throws);
    nmc::point();
    if (throws) {
        throw int(self());
    }
}
// what the events of one task tell; false if there are none
static void check_tasks() {
    for (size_t i = 0; i < nmc::event_count(); ++i) {
        const auto e = nmc::event_at(i);
        if (e.kind < 20 || e.kind > 24) {
            continue;
        }
        int n[5] = {}, at[5] = {}, stats = 0, bodies = 0, at_body = 0;
        for (size_t j = 0; j < nmc::event_count(); ++j) {
            const auto f = nmc::event_at(j);
            if (f.a == e.a && f.kind >= 20 && f.kind <= 24) {
                ++n[f.kind - 20];
                at[f.kind - 20] = int(j);
                NMC_REQUIRE(f.b == e.b && f.c == e.c, "the events of one task name different causes or reactions");
            }
            stats += f.kind == 30 && f.a == e.a ? 1 : 0;
            bodies += f.kind == BODY && f.a == e.a ? 1 : 0;
            at_body = f.kind == BODY && f.a == e.a ? int(j) : at_body;
        }
        const bool ran      = n[0] == 1 && n[1] == 0 && n[2] == 0 && n[3] == 1 && n[4] == 1;
        const bool rejected = n[0] == 0 && n[1] + n[2] == 1 && n[3] == 0 && n[4] == 0;
        NMC_REQUIRE(ran || rejected, "a task of reaction %d has %d created, %d missing data, %d blocked, %d started, %d finished events", int(e.c), n[0], n[1], n[2], n[3], n[4]);
        NMC_REQUIRE(bodies == (ran ? 1 : 0), "a task of reaction %d ran %d times", int(e.c), bodies);
        NMC_REQUIRE(!ran || (at[0] < at[3] && at[3] < at_body && at_body < at[4]), "the events of a task of reaction %d are out of order", int(e.c));
        NMC_REQUIRE(stats == (ran ? 1 : 0), "the statistics of a task of reaction %d were emitted %d times", int(e.c), stats);
    }
}
// number of events of a kind for reaction r caused by task `cause`
static int caused(int kind, int r, int64_t cause) {
    int n = 0;
    for (size_t i = 0; i < nmc::event_count(); ++i) {
        const auto e = nmc::event_at(i);
        n += e.kind == kind && e.c == r && e.b == cause ? 1 : 0;
    }
    return n;
}
struct Observed : Kicked {
    explicit Observed(std::unique_ptr<NUClear::Environment> e) : Kicked(std::move(e)) {
        on<Trigger<ReactionEvent>, Inline::ALWAYS>().then([](const ReactionEvent& e) { observe(e); });
        on<Trigger<ReactionStatistics>, Inline::ALWAYS>().then([](const ReactionStatistics& s) {
            if (index_of_name(s) >= 0) { nmc::event(30, int64_t(s.target.task_id)); }
        });
    }
};

// Every sequence of emissions to reactions which run, throw, are blocked, lack data, are disabled or nested
struct programs : Observed {
    static NUClear::threading::ReactionHandle off;
    explicit programs(std::unique_ptr<NUClear::Environment> e) : Observed(std::move(e)) {
        using P = Pool<P1<0>>;
        on<Trigger<M<0>>, P>().then("r0", [](const M<0>& m) { body(m.v & 1); });
        on<Trigger<M<0>>, P, Sync<G<0>>>().then("r1", [](const M<0>& m) { body(m.v & 2); });
        on<Trigger<M<0>>, With<M<1>>>().then("r2", [](const M<0>& m, const M<1>&) { body(m.v & 1); });
        off = on<Trigger<M<0>>>().then("r3", [] { body(false); });
        // holds itself while it emits, so that the second task is blocked; the others are nested and caused by this one
        on<Trigger<M<2>>, Single>().then("r4", [this](const M<2>& m) {
            if (m.v >= 10) {
                emit<Scope::INLINE>(mk<M<2>>(m.v - 10));
                emit<Scope::INLINE>(mk<M<0>>(m.v - 10));
                emit(mk<M<0>>(m.v - 10));
            }
            body(m.v & 1);
        });
        on<Trigger<M<2>>, Sync<G<0>>, Sync<G<1>>, MainThread>().then("r5", [](const M<2>& m) { body(m.v & 2); });
        on<Trigger<M<2>>, Inline::ALWAYS>().then("r6", [](const M<2>& m) { body(m.v & 1); });
    }
    static void check() {
        off.disable();
        bool data = false;
        for (int i = 0; i < 3; ++i) {
            const int op  = nmc::choose(5, "emit, emit inline, emit data, emit nested, emit nested inline");
            const int how = op == 2 ? 0 : nmc::choose(3, "nothing throws, one throws, another one throws");
            const size_t from = nmc::event_count();
            switch (op) {
                case 0: pp()->emit(mk<M<0>>(how)); break;
                case 1: pp()->emit<NUClear::dsl::word::emit::Inline>(mk<M<0>>(how)); break;
                case 2: pp()->emit(mk<M<1>>(0)); data = true; break;
                case 3: pp()->emit(mk<M<2>>(how + 10)); break;
                default: pp()->emit<NUClear::dsl::word::emit::Inline>(mk<M<2>>(how + 10)); break;
            }
            NMC_REQUIRE(ReactionTask::get_current_task() == nullptr, "a current task remains after an emission");
            nmc::quiesce();
            check_tasks();
            // what has happened in this step
            int n[5][8] = {};
            int64_t nester = -1;
            for (size_t k = from; k < nmc::event_count(); ++k) {
                const auto e = nmc::event_at(k);
                if (e.kind >= 20 && e.kind <= 24) {
                    ++n[e.kind - 20][e.c];
                    nester = e.kind == 23 && e.c == 4 ? e.a : nester;
                }
            }
            const int m0 = op < 2 ? 1 : op > 2 ? 2 : 0, m2 = op > 2 ? 2 : 0;
            const int finished[] = {m0, m0, data ? m0 : 0, 0, m2 / 2, m2, m2};
            for (int r = 0; r < 7; ++r) {
                NMC_REQUIRE(n[4][r] == finished[r] && n[3][r] == finished[r] && n[0][r] == finished[r], "reaction %d: %d of %d tasks finished", r, n[4][r], finished[r]);
                NMC_REQUIRE(n[1][r] == (r == 2 && !data ? m0 : 0), "reaction %d reported missing data %d times", r, n[1][r]);
                NMC_REQUIRE(n[2][r] == (r == 4 ? m2 / 2 : 0), "reaction %d reported %d blocked tasks", r, n[2][r]);
                const int types[] = {20, 21, 22};
                int by_nester = 0, by_nobody = 0;
                for (const int t : types) {
                    by_nester += nester < 0 ? 0 : caused(t, r, nester);
                    by_nobody += n[t - 20][r];
                }
                const int nested = op < 3 ? 0 : r < 3 ? 2 : r == 3 ? 0 : 1;
                NMC_REQUIRE(by_nester == nested, "%d tasks of reaction %d are said to be caused by the nesting task, %d were", by_nester, r, nested);
                NMC_REQUIRE(by_nobody - nested == (r == 3 ? 0 : op < 2 ? (r < 3) : op == 2 ? 0 : (r >= 4)), "%d tasks of reaction %d were caused by somebody else", by_nobody - nested, r);
            }
        }
    }
};
NUClear::threading::ReactionHandle programs::off;
QUIET_SCENARIO(programs, 1, "every sequence of 3 emissions to reactions which run, throw, are blocked, lack data or emit inline", nmc::preempt(0), nmc::delays(1));

// Several threads and pools at once
template <class... W>
struct Racing : Observed {
    explicit Racing(std::unique_ptr<NUClear::Environment> e) : Observed(std::move(e)) {
        this->template on<Trigger<M<0>>, W...>().then("r0", [](const M<0>& m) { body(m.v == 0); });
        this->template on<Trigger<M<0>>, Inline::ALWAYS>().then("r1", [](const M<0>& m) { body(m.v == 1); });
        kick_main([this] { nmc::cell_set(1, self()); this->emit(mk<M<0>>(0)); });
        kick([this] { nmc::cell_set(2, self()); this->emit(mk<M<0>>(1)); this->template emit<Scope::INLINE>(mk<M<0>>(2)); });
    }
    static void check() {
        check_tasks();
        for (int r = 0; r < 2; ++r) {
            int a = 0, b = 0;
            for (int kind = 20; kind <= 22; ++kind) {
                a += caused(kind, r, nmc::cell_get(1));
                b += caused(kind, r, nmc::cell_get(2));
            }
            NMC_REQUIRE(a == 1 && b == 2, "%d and %d tasks of reaction %d were caused by the two emitters, expected 1 and 2", a, b, r);
        }
        NMC_REQUIRE(count(BODY) == count(24), "%d tasks ran, %d finishing events", count(BODY), count(24));
    }
};
using racing_sync   = Racing<Sync<G<0>>>;
using racing_pool   = Racing<Pool<P2<0>>>;
using racing_single = Racing<Single, Pool<P1<0>>>;
QUIET_SCENARIO(racing_sync, 1, "two threads emit to a reaction in a group, tasks throw", nmc::preempt(1), nmc::preempt(2));
QUIET_SCENARIO(racing_pool, 1, "two threads emit to a reaction in a pool of two, tasks throw", nmc::preempt(1), nmc::preempt(2));
QUIET_SCENARIO(racing_single, 1, "two threads emit to a Single reaction, tasks throw", nmc::preempt(1), nmc::preempt(2));

// An observer in a pool of its own sees the events of every task in order
struct queued_observer : Kicked {
    REACTOR(queued_observer) {
        on<Trigger<ReactionEvent>, Pool<P1<1>>>().then([](const ReactionEvent& e) {
            if (index_of_name(*e.statistics) >= 0) { nmc::event(20 + e.type, int64_t(e.statistics->target.task_id), 0, index_of_name(*e.statistics)); }
        });
        on<Trigger<M<0>>, Pool<P1<0>>>().then("r0", [](const M<0>& m) { nmc::event(BODY, self(), m.v); if (m.v == 0) { throw 1; } });
        kick_main([this] { emit(mk<M<0>>(0)); emit(mk<M<0>>(1)); });
    }
    static void check() {
        NMC_REQUIRE(count(20) == 2 && count(23) == 2 && count(24) == 2 && count(BODY) == 2, "2 tasks were reported as %d created, %d started, %d finished", count(20), count(23), count(24));
        for (size_t i = 0; i < nmc::event_count(); ++i) {
            const auto e = nmc::event_at(i);
            if (e.kind == 24) { NMC_REQUIRE(index_of(20, e.a) < index_of(23, e.a) && index_of(23, e.a) < int(i), "the events of a task arrived out of order"); }
        }
    }
};
QUIET_SCENARIO(queued_observer, 1, "the events are observed by a reaction in another pool", nmc::preempt(1), nmc::preempt(2));

// Reactions in all kinds of places throw, once each, and everything goes on
struct throwing : Kicked {
    static void maybe(int k, int v) {
        nmc::event(1, k, v);
        if (v == 0 || nmc::cell_get(1) == k) {
            struct Unusual {};
            if (k % 2 == 0) { throw std::runtime_error("reaction"); }
            throw Unusual{};
        }
    }
    REACTOR(throwing) {
        on<Trigger<M<0>>>().then([](const M<0>& m) { maybe(0, m.v); });
        on<Trigger<M<0>>, Pool<P1<0>>, Sync<G<0>>>().then([](const M<0>& m) { Region r(0, 1, "group"); maybe(1, m.v); });
        on<Trigger<M<0>>, MainThread>().then([](const M<0>& m) { maybe(2, m.v); });
        on<Trigger<M<0>>, Sync<G<0>>, Sync<G<1>>>().then([](const M<0>& m) { Region r(0, 1, "group"); maybe(3, m.v); });
        on<Trigger<M<0>>, Single>().then([](const M<0>& m) { maybe(4, m.v); });
        on<Trigger<M<0>>, Inline::ALWAYS>().then([](const M<0>& m) { maybe(5, m.v); });
        on<Trigger<M<0>>, Buffer<2>, Pool<P2<0>>>().then([](const M<0>& m) { maybe(6, m.v); });
        on<Startup>().then([] { maybe(7, 0); });
        on<Idle<Pool<P1<0>>>>().then([] { maybe(8, 0); });
    }
    static void check() {
        for (int v = 0; v < 3; ++v) {
            const auto* before = ReactionTask::get_current_task();
            pp()->emit(mk<M<0>>(v));
            NMC_REQUIRE(ReactionTask::get_current_task() == before, "an exception changed the current task");
            nmc::quiesce();
            for (int k = 0; k < 7; ++k) {
                int n = 0;
                for (size_t i = 0; i < nmc::event_count(); ++i) { n += nmc::event_at(i).kind == 1 && nmc::event_at(i).a == k && nmc::event_at(i).b == v ? 1 : 0; }
                NMC_REQUIRE(n == 1, "reaction %d ran %d times for message %d, after exceptions", k, n, v);
            }
            nmc::cell_set(1, nmc::choose(7, "the reaction which throws next"));
        }
        pp()->shutdown();
    }
};
static void throwing_body() {
    nmc::cell_set(1, -1);
    std::thread ctl([] { nmc::quiesce(); throwing::check(); });
    pp()->start();
    ctl.join();
    NMC_REQUIRE(count(1, 7) == 1, "the startup reaction ran %d times", count(1, 7));
    NMC_REQUIRE(count(1, 8) >= 1, "the idle reaction never ran");
}
NMC_SCENARIO("throwing", "reactions of all kinds throw and everything goes on until the shutdown", (&h::setup<1, throwing>), &throwing_body, nmc::delays(0), nmc::delays(1));

// A word whose parts throw when the task runs
template <int Where>
struct Failing {
    struct Scope {
        bool owner{true};
        Scope() = default;
        Scope(const Scope&) = delete;
        Scope(Scope&& other) noexcept : owner(std::exchange(other.owner, false)) {}
        Scope& operator=(const Scope&) = delete;
        Scope& operator=(Scope&&) = delete;
        ~Scope() { if (owner) { nmc::event(3); } }
    };
    template <typename DSL> static Scope scope(const ReactionTask& /*task*/) {
        if (Where == 0 && nmc::cell_get(1) == 0) { throw 0; }
        nmc::event(2);
        return Scope{};
    }
    template <typename DSL> static void pre_run(ReactionTask& /*task*/) { if (Where == 1 && nmc::cell_get(1) == 0) { throw 1; } }
    template <typename DSL> static void post_run(ReactionTask& /*task*/) { nmc::event(4); if (Where == 2 && nmc::cell_get(1) == 0) { throw 2; } }
};
template <int Where>
struct Words : Observed {
    explicit Words(std::unique_ptr<NUClear::Environment> e) : Observed(std::move(e)) {
        this->template on<Trigger<M<0>>, Failing<Where>, Pool<P1<0>>, Sync<G<0>>>().then([](const M<0>&) { nmc::event(1); });
        this->template on<Trigger<M<0>>, Failing<Where>, Sync<G<0>>, Inline::ALWAYS>().then([](const M<0>&) { nmc::event(1); });
    }
    static void check() {
        for (int i = 0; i < 2; ++i) {
            nmc::cell_set(1, i);
            pp()->emit(mk<M<0>>(i));
            nmc::quiesce();
        }
        NMC_REQUIRE(count(1) == (Where == 2 ? 4 : 2), "the callbacks ran %d times", count(1));
        NMC_REQUIRE(count(2) == count(3), "%d scopes were entered and %d left", count(2), count(3));
        NMC_REQUIRE(count(4) == (Where == 2 ? 4 : 2), "post_run was called %d times", count(4));
    }
};
using word_scope = Words<0>;
using word_pre   = Words<1>;
using word_post  = Words<2>;
QUIET_SCENARIO(word_scope, 1, "the scope of a word throws", nmc::preempt(0), nmc::preempt(1));
QUIET_SCENARIO(word_pre, 1, "the pre_run of a word throws", nmc::preempt(0), nmc::preempt(1));
QUIET_SCENARIO(word_post, 1, "the post_run of a word throws", nmc::preempt(0), nmc::preempt(1));
