// P08: a reaction receives exactly the data of its emission, and nothing partial.
#include "common.hpp"
using namespace h;
using namespace NUClear::dsl::word;

// Messages which account for their construction and destruction and carry a value in two copies
template <int I>
struct D {
    int v;
    int w;
    explicit D(int v) : v(v), w(v ^ 0x55) { nmc::cell_add(40 + I, 1); }
    ~D() {
        v = w = -1;
        NMC_REQUIRE(nmc::cell_add(40 + I, -1) >= 0, "a message was destroyed twice");
    }
    D(const D&)            = delete;
    D& operator=(const D&) = delete;
    int get() const {
        NMC_REQUIRE(w == (v ^ 0x55), "a reaction holds a message which is not alive (%d %d)", v, w);
        return v;
    }
};
template <int I>
static int alive() { return int(nmc::cell_get(40 + I)); }

// A word which provides transient data, there or not as a cell says
struct Volatile {
    int v;
    explicit Volatile(int v = 0) : v(v) {}
    operator bool() const { return v != 0; }
};
struct Sampled {
    template <typename DSL>
    static Volatile get(const NUClear::threading::ReactionTask& /*task*/) { return Volatile(int(nmc::cell_get(10))); }
};
namespace NUClear { namespace dsl { namespace trait {
    template <> struct is_transient<Volatile> : std::true_type {};
}}}

// What a reaction saw is an event: kind = the reaction, a = first datum, b = second, c = third
enum { R_A = 1, R_AWB, R_AOB, R_AANDB, R_LAST2, R_LASTWITH, R_TRANSIENT, R_ARGS };
struct Expect {
    int kind;
    int64_t a, b, c;
};
static Expect expected[160];  // in the snapshot, private to each execution
static int nexpected;
static void expect(int kind, int64_t a, int64_t b = 0, int64_t c = 0) { expected[nexpected++] = Expect{kind, a, b, c}; }
// every reaction saw exactly what it should have, in order for each reaction (all run in pools of one thread)
static void compare(int kind, const char* what) {
    int n = 0;
    for (size_t i = 0; i < nmc::event_count(); ++i) {
        const auto e = nmc::event_at(i);
        if (e.kind != kind) {
            continue;
        }
        int k = 0, m = -1;
        for (int j = 0; j < nexpected; ++j) {
            if (expected[j].kind == kind && k++ == n) {
                m = j;
            }
        }
        NMC_REQUIRE(m >= 0, "%s: run %d was not expected; it saw %d %d %d", what, n, int(e.a), int(e.b), int(e.c));
        NMC_REQUIRE(expected[m].a == e.a && expected[m].b == e.b && expected[m].c == e.c,
                    "%s: run %d saw %d %d %d, expected %d %d %d", what, n, int(e.a), int(e.b), int(e.c), int(expected[m].a),
                    int(expected[m].b), int(expected[m].c));
        ++n;
    }
    for (int j = 0, k = 0; j < nexpected; ++j) {
        if (expected[j].kind == kind) {
            NMC_REQUIRE(k++ < n, "%s: run %d is missing", what, k - 1);
        }
    }
}

static int code(const std::list<std::shared_ptr<const D<0>>>& l) {
    int c = 0;
    for (const auto& p : l) { c = c * 10 + p->get(); }
    return c;
}
static int code1(const std::vector<std::shared_ptr<const D<1>>>& l) {
    int c = 0;
    for (const auto& p : l) {
        NMC_REQUIRE(p != nullptr, "Last<n, With> contains data which does not exist");
        c = c * 10 + p->get();
    }
    return c;
}

// Every sequence of N operations, compared with a model
template <int N, bool Quiet>
struct Sequences : Kicked {
    explicit Sequences(std::unique_ptr<NUClear::Environment> e) : Kicked(std::move(e)) {
        using P = Pool<P1<0>>;
        on<Trigger<D<0>>, P>().then([](const D<0>& a) { nmc::event(R_A, a.get()); });
        on<Trigger<D<0>>, With<D<1>>, P>().then([](const D<0>& a, const D<1>& b) { nmc::event(R_AWB, a.get(), b.get()); });
        on<Trigger<D<0>>, Optional<With<D<1>>>, P>().then([](const std::shared_ptr<const D<0>>& a, const std::shared_ptr<const D<1>>& b) {
            nmc::event(R_AOB, a->get(), b ? b->get() : 0);
        });
        on<Trigger<D<0>>, Trigger<D<1>>, P>().then([](const D<0>& a, const D<1>& b) { nmc::event(R_AANDB, a.get(), b.get()); });
        on<Last<2, Trigger<D<0>>>, P>().then([](const std::list<std::shared_ptr<const D<0>>>& l) { nmc::event(R_LAST2, code(l)); });
        on<Trigger<D<0>>, Last<2, With<D<1>>>, P>().then([](const D<0>& a, const std::vector<std::shared_ptr<const D<1>>>& l) {
            nmc::event(R_LASTWITH, a.get(), code1(l));
        });
        on<Trigger<D<0>>, Sampled, P>().then([](const D<0>& a, const Volatile& v) { nmc::event(R_TRANSIENT, a.get(), v.v); });
    }
    static void check() {
        nexpected = 0;
        int a = 0, b = 0, bl = 0, al = 0, tr = 0;
        for (int i = 0; i < N; ++i) {
            const int v = i + 1;
            switch (nmc::choose(5, "operation")) {
                case 1:
                case 3: {
                    b = v;
                    expect(R_AANDB, a, b);
                    if (a == 0) { --nexpected; }
                    if (!Quiet || i % 2 == 0) { pp()->emit(mk<D<1>>(v)); } else { pp()->emit<Scope::INLINE>(mk<D<1>>(v)); }
                } break;
                case 4: nmc::cell_set(10, nmc::cell_get(10) == 0 ? v : 0); break;
                default: {
                    a = v;
                    if (b != 0) {
                        expect(R_AWB, a, b);
                        expect(R_AANDB, a, b);
                    }
                    expect(R_A, a);
                    expect(R_AOB, a, b);
                    al = al % 10 * 10 + a;
                    expect(R_LAST2, al);
                    if (b != 0) {
                        bl = bl % 10 * 10 + b;
                        expect(R_LASTWITH, a, bl);
                    }
                    tr = nmc::cell_get(10) != 0 ? int(nmc::cell_get(10)) : tr;
                    if (tr != 0) { expect(R_TRANSIENT, a, tr); }
                    if (i % 2 == 0) { pp()->emit(mk<D<0>>(v)); } else { pp()->emit(std::make_unique<D<0>>(v)); }
                } break;
            }
            if (Quiet) { nmc::quiesce(); }
        }
        nmc::quiesce();
        compare(R_A, "Trigger");
        compare(R_AWB, "Trigger and With");
        compare(R_AOB, "Trigger and Optional<With>");
        compare(R_AANDB, "two Triggers");
        compare(R_LAST2, "Last<2, Trigger>");
        compare(R_LASTWITH, "Trigger and Last<2, With>");
        compare(R_TRANSIENT, "transient data");
        // the two last ones are remembered by Last, one of them is also the latest
        NMC_REQUIRE(alive<0>() <= 2, "%d messages are alive, at most 2 are still needed", alive<0>());
        NMC_REQUIRE(alive<1>() <= 3, "%d messages are alive, at most 3 are still needed", alive<1>());
    }
};
using sequences_quiet  = Sequences<4, true>;
using sequences_burst  = Sequences<5, false>;
using sequences_race   = Sequences<2, false>;
QUIET_SCENARIO(sequences_quiet, 1, "every sequence of 4 emissions of two types and changes of transient data, one at a time", nmc::preempt(0), nmc::preempt(0));
QUIET_SCENARIO(sequences_burst, 1, "every sequence of 5 emissions of two types and changes of transient data, all at once", nmc::preempt(0), nmc::preempt(0));
QUIET_SCENARIO(sequences_race, 1, "every sequence of 2 operations beside the running reactions", nmc::preempt(1), nmc::preempt(2));

// Two threads emit the triggering message; each emission is delivered with its own message
struct two_emitters : Kicked {
    REACTOR(two_emitters) {
        on<Trigger<D<0>>>().then([](const D<0>& a) { nmc::event(R_A, a.get()); });
        on<Trigger<D<0>>, Optional<With<D<1>>>, Pool<P1<0>>>().then([](const std::shared_ptr<const D<0>>& a, const std::shared_ptr<const D<1>>& b) {
            nmc::event(R_AOB, a->get(), b ? b->get() : 0);
        });
        kick_main([this] { emit(mk<D<1>>(7)); emit(mk<D<0>>(1)); });
        kick_own([this] { emit(mk<D<0>>(2)); });
    }
    static void check() {
        NMC_REQUIRE(count(R_A) == 2 && count(R_A, 1) == 1 && count(R_A, 2) == 1, "the two messages were delivered %d and %d times", count(R_A, 1), count(R_A, 2));
        NMC_REQUIRE(count(R_AOB) == 2 && count(R_AOB, 1) == 1 && count(R_AOB, 2) == 1, "the two messages were delivered %d and %d times", count(R_AOB, 1), count(R_AOB, 2));
        const auto e = nmc::event_at(index_of(R_AOB, 1));
        NMC_REQUIRE(e.b == 7, "With did not deliver the message which the emitter had emitted before");
        NMC_REQUIRE(alive<0>() == 1 && alive<1>() == 1, "%d and %d messages are alive, 1 and 1 are the latest", alive<0>(), alive<1>());
    }
};
QUIET_SCENARIO(two_emitters, 1, "two threads emit the same type", nmc::preempt(1), nmc::preempt(2));

// Two threads emit messages collected by Last
struct two_last : Kicked {
    REACTOR(two_last) {
        on<Last<2, Trigger<D<0>>>, Pool<P1<0>>>().then([](const std::list<std::shared_ptr<const D<0>>>& l) { nmc::event(R_LAST2, code(l)); });
        kick_main([this] { emit(mk<D<0>>(1)); emit(mk<D<0>>(3)); });
        kick_own([this] { emit(mk<D<0>>(2)); });
    }
    static void check() {
        NMC_REQUIRE(count(R_LAST2) == 3, "the reaction ran %d times for 3 messages", count(R_LAST2));
        // all windows together are those of one order of the three messages, in which 1 comes before 3
        bool ok = false;
        const int orders[3][3] = {{1, 2, 3}, {1, 3, 2}, {2, 1, 3}};
        for (const auto& o : orders) {
            ok = ok || (count(R_LAST2, o[0]) == 1 && count(R_LAST2, o[0] * 10 + o[1]) == 1 && count(R_LAST2, o[1] * 10 + o[2]) == 1);
        }
        int64_t w[3];
        for (size_t i = 0, n = 0; i < nmc::event_count(); ++i) {
            if (nmc::event_at(i).kind == R_LAST2 && n < 3) { w[n++] = nmc::event_at(i).a; }
        }
        NMC_REQUIRE(ok, "the windows %d %d %d belong to no order of the messages 1 2 3", int(w[0]), int(w[1]), int(w[2]));
    }
};
QUIET_SCENARIO(two_last, 1, "two threads emit messages collected by Last<2>", nmc::preempt(2), nmc::preempt(3));

// The latest message is replaced while reactions are created that read it
struct latest : Kicked {
    REACTOR(latest) {
        on<Trigger<D<0>>, With<D<1>>>().then([](const D<0>& a, const D<1>& b) { nmc::event(R_AWB, a.get(), b.get()); });
        on<Startup>().then([this] { emit(mk<D<1>>(5)); });
        kick_main([this] { emit(mk<D<1>>(6)); emit(mk<D<1>>(7)); });
        kick_own([this] { emit(mk<D<0>>(1)); emit(mk<D<0>>(2)); });
    }
    static void check() {
        NMC_REQUIRE(count(R_AWB) == 2 && count(R_AWB, 1) == 1 && count(R_AWB, 2) == 1, "%d of 2 emissions were delivered", count(R_AWB));
        const auto x = nmc::event_at(index_of(R_AWB, 1)).b, y = nmc::event_at(index_of(R_AWB, 2)).b;
        NMC_REQUIRE(x >= 5 && x <= 7 && y >= x && y <= 7, "With delivered %d and then %d", int(x), int(y));
        NMC_REQUIRE(alive<1>() == 1, "%d messages are alive, 1 is the latest", alive<1>());
    }
};
QUIET_SCENARIO(latest, 2, "the latest message is replaced while it is read", nmc::preempt(2), nmc::preempt(3));

// A chain: what a task emitted is visible to the tasks it causes
struct causal : Kicked {
    REACTOR(causal) {
        on<Trigger<D<0>>>().then([this](const D<0>& a) { emit(mk<D<1>>(a.get())); emit(mk<D<2>>(a.get())); });
        on<Trigger<D<2>>, With<D<1>>, Pool<P1<0>>>().then([](const D<2>& c, const D<1>& b) { nmc::event(R_AWB, c.get(), b.get()); });
        kick_main([this] { emit(mk<D<0>>(1)); });
        kick_own([this] { emit(mk<D<0>>(2)); });
    }
    static void check() {
        NMC_REQUIRE(count(R_AWB) == 2, "%d of 2 chains were completed", count(R_AWB));
        NMC_REQUIRE(count(R_AWB, 1) == 1 && count(R_AWB, 2) == 1, "the two chains were completed %d and %d times", count(R_AWB, 1), count(R_AWB, 2));
    }
};
QUIET_SCENARIO(causal, 2, "a task emits the data and then the trigger of another one", nmc::preempt(1), nmc::preempt(2));

// Inline reactions which emit the same types again: each level sees its own message
struct nested : Kicked {
    REACTOR(nested) {
        on<Trigger<D<0>>, Inline::ALWAYS>().then([this](const D<0>& a) {
            nmc::event(R_A, a.get());
            if (a.get() < 3) { emit<Scope::INLINE>(mk<D<0>>(a.get() + 1)); emit(mk<D<1>>(a.get())); }
            nmc::event(R_A, 10 + a.get());
        });
        on<Trigger<D<0>>, Pool<P1<0>>>().then([](const D<0>& a) { nmc::event(R_ARGS, a.get()); });
        on<Trigger<D<0>>, With<D<0>>, Inline::ALWAYS>().then([](const D<0>& a, const D<0>& b) { nmc::event(R_AWB, a.get(), b.get()); });
    }
    static void check() {
        nexpected = 0;
        pp()->emit(mk<D<0>>(1));
        nmc::quiesce();
        for (int v : {1, 2, 3, 13, 12, 11}) { expect(R_A, v); }
        for (int v : {3, 2, 1}) { expect(R_AWB, v, v); }
        compare(R_A, "nested inline reactions");
        compare(R_AWB, "a reaction after a nested emission");
        for (int v : {1, 2, 3}) { NMC_REQUIRE(count(R_ARGS, v) == 1, "message %d was delivered %d times to a queued reaction", v, count(R_ARGS, v)); }
    }
};
QUIET_SCENARIO(nested, 1, "inline reactions which emit the type that triggered them", nmc::preempt(2), nmc::preempt(3));
