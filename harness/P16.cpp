// P16: a watchdog fires exactly when it has not been serviced for its timeout.
#include <map>

#include "chrono.hpp"
using namespace h;
using namespace NUClear::dsl::word;

struct GroupA {};
struct GroupB {};
struct GroupC {};
// event 1: watchdog a fired
struct Dogs : Kicked {
    static Dogs* self;
    explicit Dogs(std::unique_ptr<NUClear::Environment> e) : Kicked(std::move(e)) { self = this; }
    NUClear::threading::ReactionHandle bind(int kind, int id) {
        const auto f = [id] { nmc::event(1, id, clock_ns()); };
        switch (kind) {
            case 0: return on<Watchdog<GroupA, 3, ms>, Priority::REALTIME>().then(f);
            case 1: return on<Watchdog<GroupB, 2, ms>, Priority::REALTIME>().then(f);
            case 2: return on<Watchdog<GroupC, 3, ms>, Priority::REALTIME>(1).then(f);
            case 3: return on<Watchdog<GroupC, 3, ms>, Priority::REALTIME>(2).then(f);
            case 4: return on<Watchdog<GroupC, 2, ms>, Priority::REALTIME>(2).then(f);
            default: return on<Watchdog<GroupC, 3, ms>, Priority::REALTIME>(std::string("2")).then(f);
        }
    }
    // The group of the watchdogs of each kind
    static int group(int kind) { return kind == 4 ? 3 : kind; }
    static int64_t period(int kind) { return kind == 1 || kind == 4 ? 2 * MS : 3 * MS; }
    static void service(int group) {
        switch (group) {
            case 0: self->emit<Scope::WATCHDOG>(self->ServiceWatchdog<GroupA>()); break;
            case 1: self->emit<Scope::WATCHDOG>(self->ServiceWatchdog<GroupB>()); break;
            case 2: self->emit<Scope::WATCHDOG>(self->ServiceWatchdog<GroupC>(1)); break;
            case 3: self->emit<Scope::WATCHDOG>(self->ServiceWatchdog<GroupC>(2)); break;
            default: self->emit<Scope::WATCHDOG>(self->ServiceWatchdog<GroupC>(std::string("2"))); break;
        }
    }
};
Dogs* Dogs::self = nullptr;

// Every program of operations on up to four watchdogs, against a model of them
template <int Ops, bool Late>
struct Program : Dogs {
    using Dogs::Dogs;
    struct Dog {
        int id, kind;
        int64_t due;
        NUClear::threading::ReactionHandle handle;
    };
    static void check() {
        static const int kinds[][3] = {{0, 1, 2}, {2, 3, 5}, {3, 4, 2}, {0, 0, 3}, {3, 3, 0}};
        const int* kind             = kinds[nmc::choose(5, "groups: A B C1, C1 C2 C'2', C2 C2' C1, A A C2, C2 C2 A")];
        Dog dogs[8];
        int n = 0, ids = 0;
        int64_t fired[64][2];
        int firings       = 0;
        const auto add    = [&](int k) { dogs[n++] = {ids, k, clock_ns() + period(k), self->bind(k, ids)}; ++ids; };
        const auto live   = [&](int g) {
            for (int i = 0; i < n; ++i) { if (group(dogs[i].kind) == g) { return true; } }
            return false;
        };
        const auto wait = [&](int64_t d) {
            const int64_t end = clock_ns() + d;
            nmc::sleep_ns(d);
            nmc::quiesce();
            for (;;) {
                int f = -1;
                for (int i = 0; i < n; ++i) {
                    if (dogs[i].due <= end && (f < 0 || dogs[i].due < dogs[f].due)) { f = i; }
                }
                if (f < 0) { break; }
                fired[firings][0]   = dogs[f].id;
                fired[firings++][1] = dogs[f].due;
                dogs[f].due += period(dogs[f].kind);
            }
        };
        add(kind[0]);
        nmc::sleep_ns(MS / 10);
        add(kind[1]);
        for (int i = 0; i < Ops; ++i) {
            const int op = nmc::choose(7, "service the first group, the second, the third, unbind the oldest, the second oldest, bind another, wait");
            if (op < 3) {
                const int g = group(kind[op]);
                if (live(g)) {
                    service(g);
                    for (int k = 0; k < n; ++k) {
                        if (group(dogs[k].kind) == g) { dogs[k].due = clock_ns() + period(dogs[k].kind); }
                    }
                }
            }
            else if (op < 5) {
                if (n > op - 3) {
                    dogs[op - 3].handle.unbind();
                    for (int k = op - 3; k + 1 < n; ++k) { dogs[k] = dogs[k + 1]; }
                    --n;
                }
            }
            else if (op == 5) {
                add(kind[(i + 2) % 3]);
            }
            wait(op == 6 ? MS * 117 / 100 : MS * 53 / 100);
        }
        wait(MS * 531 / 100);
        const int64_t tolerance = Late ? int64_t(CV_LATE + SLEEP_LATE) + 10000 : 1000;
        int k                   = 0;
        for (size_t i = 0; i < nmc::event_count(); ++i, ++k) {
            const auto e = nmc::event_at(i);
            int f        = k;
            while (f < firings && fired[f][0] != e.a) { ++f; }
            NMC_REQUIRE(f < firings, "watchdog %d fired although it had been serviced or unbound, or twice", int(e.a));
            std::swap(fired[f], fired[k]);
            NMC_REQUIRE(e.b >= fired[k][1] - 1000, "watchdog %d fired %lld ns early", int(e.a), (long long) (fired[k][1] - e.b));
            NMC_REQUIRE(e.b <= fired[k][1] + tolerance, "watchdog %d fired %lld ns late", int(e.a), (long long) (e.b - fired[k][1]));
        }
        NMC_REQUIRE(k == firings || fired[k][1] + tolerance > clock_ns(), "watchdog %d did not fire", int(fired[k][0]));
    }
};
using program      = Program<4, false>;
using program_late = Program<3, true>;
TIMER_SCENARIO(program, 1, false, "every program of 4 operations on watchdogs", nmc::delays(0), nmc::delays(0));
TIMER_SCENARIO(program_late, 1, true, "every program of 3 operations where the system wakes up late", fine(nmc::delays(0)), fine(nmc::delays(1)));

// A watchdog is serviced or unbound at the moment at which it is due, by another thread, beside another one
template <int Kind, bool Unbind>
struct Race : Dogs {
    NUClear::threading::ReactionHandle handle, other;
    explicit Race(std::unique_ptr<NUClear::Environment> e) : Dogs(std::move(e)) {
        this->template on<Trigger<M<0>>, Pool<P1<0>>>().then([this] {
            if (Unbind) { handle.unbind(); }
            else { service(group(Kind)); }
            nmc::event(2, 0, clock_ns());
        });
        kick_main([this] {
            handle = bind(Kind, 0);
            other  = bind(Kind == 1 ? 0 : 1, 1);
            this->template emit<Scope::DELAY>(mk<M<0>>(0), NUClear::clock::duration(std::chrono::nanoseconds(period(Kind))));
            this->template emit<Scope::DELAY>(mk<M<1>>(0), ms(1));
        });
        this->template on<Trigger<M<1>>>().then([] { service(Kind == 1 ? 0 : 1); });
    }
    static void check() {
        const int64_t now = clock_ns(), p = period(Kind), q = period(Kind == 1 ? 0 : 1);
        nmc::sleep_ns(uint64_t(p + MS * 19 / 10));
        nmc::quiesce();
        NMC_REQUIRE(count(2) == 1, "the message was delivered %d times", count(2));
        NMC_REQUIRE(count(1, 0) <= 1, "the watchdog fired %d times", count(1, 0));
        const int i = index_of(1, 0);
        NMC_REQUIRE(i < 0 || nmc::event_at(i).b == now + p, "the watchdog fired at the wrong time");
        NMC_REQUIRE(count(1, 1) == 1 && nmc::event_at(index_of(1, 1)).b == now + MS + q, "the other watchdog fired %d times, or at the wrong time", count(1, 1));
        const auto handled = index_of(2, 0);
        nmc::sleep_ns(uint64_t(MS * 12 / 10));
        nmc::quiesce();
        NMC_REQUIRE(Unbind ? count(1, 0) <= 1 : count(1, 0) == (i < 0 ? 1 : 1 + (now + 2 * p <= clock_ns())), "the watchdog fired %d times", count(1, 0));
    }
};
using service_race       = Race<0, false>;
using service_race_keyed = Race<3, false>;
using unbind_race        = Race<0, true>;
using unbind_race_keyed  = Race<3, true>;
TIMER_SCENARIO(service_race, 1, false, "a watchdog is serviced just when it is due", nmc::delays(1), nmc::delays(2));
TIMER_SCENARIO(service_race_keyed, 1, false, "a keyed watchdog is serviced just when it is due", nmc::delays(1), nmc::delays(2));
TIMER_SCENARIO(unbind_race, 1, false, "a watchdog is unbound just when it is due", nmc::delays(1), nmc::delays(2));
TIMER_SCENARIO(unbind_race_keyed, 1, false, "a keyed watchdog is unbound just when it is due", nmc::delays(1), nmc::delays(2));

// Binding, servicing and unbinding watchdogs of one group from several threads at once
struct Concurrent : Dogs {
    explicit Concurrent(std::unique_ptr<NUClear::Environment> e) : Dogs(std::move(e)) {
        kick_main([this] { bind(2, 0); service(2); });
        kick([this] {
            auto h = bind(3, 1);
            service(3);
            h.unbind();
        });
        kick_own([this] { bind(3, 2); });
    }
    static void check() {
        const int64_t now = clock_ns();
        nmc::sleep_ns(uint64_t(MS) * 4);
        nmc::quiesce();
        for (int i = 0; i < 3; ++i) {
            NMC_REQUIRE(count(1, i) == (i != 1), "watchdog %d fired %d times", i, count(1, i));
            NMC_REQUIRE(i == 1 || nmc::event_at(index_of(1, i)).b == now + 3 * MS, "watchdog %d fired at the wrong time", i);
        }
    }
};
using concurrent = Concurrent;
TIMER_SCENARIO(concurrent, 1, false, "watchdogs of one group are bound, serviced and unbound by several threads", nmc::delays(1), nmc::delays(2));

// The clock is paused at the very time at which a watchdog is due
struct Paused : Dogs {
    using Dogs::Dogs;
    static void check() {
        using NUClear::message::TimeTravel;
        const int kind    = nmc::choose(4, "which watchdog");
        const int64_t now = clock_ns();
        self->bind(kind, 0);
        if (nmc::choose(2, "service it first")) { service(group(kind)); }
        pp()->emit(std::make_unique<TimeTravel>(at(now + 10 * MS), nmc::choose(2, "paused, running") ? 1.0 : 0.0, TimeTravel::Action::NEAREST));
        nmc::quiesce();
        NMC_REQUIRE(count(1, 0) == 1 && nmc::event_at(index_of(1, 0)).b == now + period(kind), "the watchdog fired %d times when the clock was set to the time at which it is due", count(1, 0));
    }
};
using paused = Paused;
TIMER_SCENARIO(paused, 1, false, "time travel to the time at which a watchdog is due", nmc::delays(1), nmc::delays(2));
