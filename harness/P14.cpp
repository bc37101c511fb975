// P14: timers fire on time, in order, never early and never lost.
#include "chrono.hpp"
using namespace h;
using namespace NUClear::dsl::word;

// Every program of timer operations made by a thread which is no task: event 1 is a firing, a the timer
struct Timers : Kicked {
    static Timers* self;
    explicit Timers(std::unique_ptr<NUClear::Environment> e) : Kicked(std::move(e)) {
        self = this;
        on<Trigger<M<0>>, Priority::REALTIME>().then([](const M<0>& m) { nmc::event(1, m.v, clock_ns()); });
    }
    NUClear::threading::ReactionHandle every(int id, int64_t ns) {
        return on<Every<>, Priority::REALTIME>(std::chrono::nanoseconds(ns)).then([id] { nmc::event(1, id, clock_ns()); });
    }
};
Timers* Timers::self = nullptr;

struct Expected {
    int id;
    int64_t due;
};
static const int64_t periods[] = {2 * MS, 3 * MS};
template <int Ops, bool Late>
struct Program : Timers {
    using Timers::Timers;
    static void check() {
        const int64_t tolerance = Late ? int64_t(CV_LATE + SLEEP_LATE) + MS / 10 : 0;
        Expected expected[128];
        int n = 0, ids = 0, everies = 0;
        struct {
            NUClear::threading::ReactionHandle handle;
            int id;
            int64_t bound, period, until;
        } every[Ops];
        for (int i = 0; i < Ops; ++i) {
            const int64_t now = clock_ns();
            const int op      = nmc::choose(10, "delay -1, 0, 1, 3, at -1, +2, every 2, every 3, unbind the first every, wait");
            if (op < 4) {
                static const int d[] = {-1, 0, 1, 3};
                expected[n++]        = {ids, std::max(now, now + d[op] * MS)};
                pp()->emit<NUClear::dsl::word::emit::Delay>(mk<M<0>>(ids++), NUClear::clock::duration(ms(d[op])));
            }
            else if (op < 6) {
                static const int d[] = {-1, 2};
                expected[n++]        = {ids, std::max(now, now + d[op - 4] * MS)};
                pp()->emit<NUClear::dsl::word::emit::Delay>(mk<M<0>>(ids++), at(now + d[op - 4] * MS));
            }
            else if (op < 8) {
                every[everies].id     = ids;
                every[everies].bound  = now;
                every[everies].period = periods[op - 6];
                every[everies].until  = INT64_MAX;
                every[everies].handle = self->every(ids++, periods[op - 6]);
                ++everies;
            }
            else if (op == 8) {
                for (int k = 0; k < everies; ++k) {
                    if (every[k].until == INT64_MAX) {
                        every[k].handle.unbind();
                        every[k].until = now;
                        break;
                    }
                }
            }
            else {
                nmc::sleep_ns(uint64_t(MS) * 5 / 4);
            }
        }
        nmc::sleep_ns(uint64_t(MS) * 79 / 10);
        nmc::quiesce();
        const int64_t end = clock_ns();
        for (int k = 0; k < everies; ++k) {
            for (int64_t t = every[k].bound + every[k].period; t < std::min(end, every[k].until); t += every[k].period) {
                expected[n++] = {every[k].id, t};
            }
        }
        int64_t latest = 0;
        for (size_t i = 0; i < nmc::event_count(); ++i) {
            const auto e = nmc::event_at(i);
            // the firing this is: the earliest one expected of this timer
            int f = -1;
            for (int k = 0; k < n; ++k) {
                if (expected[k].id == e.a && (f < 0 || expected[k].due < expected[f].due)) { f = k; }
            }
            NMC_REQUIRE(f >= 0, "timer %d fired once too often", int(e.a));
            const int64_t due = expected[f].due;
            NMC_REQUIRE(e.b >= due, "timer %d fired %lld ns early", int(e.a), (long long) (due - e.b));
            NMC_REQUIRE(e.b <= due + tolerance, "timer %d fired %lld ns late", int(e.a), (long long) (e.b - due));
            NMC_REQUIRE(due >= latest, "timer %d fired %lld ns after one which was due later", int(e.a), (long long) (latest - due));
            latest      = due;
            expected[f] = expected[--n];
        }
        NMC_REQUIRE(n == 0 || expected[0].due + tolerance > end, "timer %d did not fire", expected[0].id);
    }
};
template <int Ops>
using Exact        = Program<Ops, false>;
using program      = Exact<3>;
using program_long = Exact<4>;
using program_late = Program<3, true>;
TIMER_SCENARIO(program, 1, false, "every program of 3 timer operations, exact firing times", nmc::delays(0), nmc::delays(1));
TIMER_SCENARIO(program_late, 1, true, "the same where the system wakes up late", fine(nmc::delays(0)), fine(nmc::delays(1)));
TIMER_SCENARIO(program_long, 1, false, "every program of 4 timer operations, exact firing times", nmc::delays(0), nmc::delays(0));

static bool fired_at(int id, int n, int64_t due, int64_t tolerance = 0) {
    for (size_t i = 0; i < nmc::event_count(); ++i) {
        const auto e = nmc::event_at(i);
        if (e.kind == 1 && e.a == id && n-- == 0) { return e.b >= due && e.b <= due + tolerance; }
    }
    return false;
}
static void fires_once_at(int id, int64_t due) {
    NMC_REQUIRE(count(1, id) == 1, "timer %d fired %d times", id, count(1, id));
    NMC_REQUIRE(fired_at(id, 0, due), "timer %d did not fire at the time it was due", id);
}

// Several threads add timers while the controller is going to wait, is waiting or is firing another one
static int64_t t0;
struct AddRace : Timers {
    explicit AddRace(std::unique_ptr<NUClear::Environment> e) : Timers(std::move(e)) {
        kick_main([this] {
            emit<Scope::DELAY>(mk<M<0>>(0), ms(3));
            emit<Scope::DELAY>(mk<M<0>>(1), ms(1));
        });
        kick([this] { emit<Scope::DELAY>(mk<M<0>>(2), ms(2)); });
        kick_own([this] { emit<Scope::DELAY>(mk<M<0>>(3), ms(0)); });
    }
    static void check() {
        const int64_t now = clock_ns();
        nmc::sleep_ns(uint64_t(MS) * 4);
        nmc::quiesce();
        fires_once_at(0, now + 3 * MS);
        fires_once_at(1, now + MS);
        fires_once_at(2, now + 2 * MS);
        fires_once_at(3, now);
    }
};
using add_race = AddRace;
TIMER_SCENARIO(add_race, 1, false, "three threads add timers at once", nmc::delays(2), nmc::delays(3));

// A timer is added at the very moment at which others are due, another one is removed
template <bool Own>
struct FireRace : Timers {
    NUClear::threading::ReactionHandle doomed;
    explicit FireRace(std::unique_ptr<NUClear::Environment> e) : Timers(std::move(e)) {
        this->template on<Trigger<M<1>>, Pool<P1<0>>>().then([this](const M<1>& m) {
            nmc::event(1, 10 + m.v, clock_ns());
            if (m.v == 0) { doomed.unbind(); nmc::event(2, 0); }
            else { this->template emit<Scope::DELAY>(mk<M<0>>(5), ms(1)); }
        });
        kick_main([this] {
            if (Own) {
                doomed = on<Every<>, Pool<P1<1>>>(ms(2)).then([this] {
                    nmc::event(1, 4, clock_ns());
                    doomed.unbind();
                });
            }
            else {
                doomed = every(4, 2 * MS);
            }
            this->template emit<Scope::DELAY>(mk<M<1>>(Own), ms(2));
            this->template emit<Scope::DELAY>(mk<M<1>>(1), ms(2));
            this->template emit<Scope::DELAY>(mk<M<0>>(0), ms(2));
            this->template emit<Scope::DELAY>(mk<M<0>>(1), ms(3));
        });
    }
    static void check() {
        const int64_t now = clock_ns();
        nmc::sleep_ns(uint64_t(MS) * 7);
        nmc::quiesce();
        fires_once_at(0, now + 2 * MS);
        fires_once_at(1, now + 3 * MS);
        NMC_REQUIRE(count(1, 5) == (Own ? 2 : 1) && fired_at(5, 0, now + 3 * MS), "the timer added by a reaction to another one did not fire when it was due");
        NMC_REQUIRE(count(1, 4) <= 1 && (!Own || count(1, 4) == 1), "an Every reaction fired %d times although it was unbound at its first firing", count(1, 4));
        NMC_REQUIRE(Own || count(1, 4) == 0 || fired_at(4, 0, now + 2 * MS), "an Every reaction fired after it was unbound");
    }
};
using fire_race     = FireRace<false>;
using unbind_itself = FireRace<true>;
TIMER_SCENARIO(fire_race, 1, false, "timers are added and removed while others fire", nmc::delays(1), nmc::delays(2));
TIMER_SCENARIO(unbind_itself, 1, false, "timers are added and an Every unbinds itself while others fire", nmc::delays(1), nmc::delays(2));

// What a reaction to a timer may do, in whatever thread it runs: queued or inline in the thread that runs the timers
template <class... W>
struct FromReaction : Timers {
    NUClear::threading::ReactionHandle own, other;
    explicit FromReaction(std::unique_ptr<NUClear::Environment> e) : Timers(std::move(e)) {
        this->template on<Trigger<M<1>>, W...>().then([this](const M<1>& m) {
            nmc::event(2, m.v, clock_ns());
            act(m.v);
        });
    }
    void act(int op) {
        switch (op) {
            case 0: this->template emit<Scope::DELAY>(mk<M<0>>(0), ms(1)); break;
            case 1: this->template emit<Scope::DELAY>(mk<M<0>>(0), ms(0)); break;
            case 2: every(0, 1 * MS); break;
            case 3: own.unbind(); break;
            case 4: other.unbind(); break;
            case 5: this->template emit<Scope::INLINE>(mk<M<0>>(0)); break;
            case 6: nmc::sleep_ns(uint64_t(MS) * 5 / 2); break;
            default: break;
        }
    }
    static void check() {
        FromReaction& s   = *static_cast<FromReaction*>(self);
        const int64_t now = clock_ns();
        const int op      = nmc::choose(7, "delay 1, delay 0, every 1, unbind itself, unbind another, inline emission, take 2.5");
        const bool every  = nmc::choose(2, "in a reaction to a delayed message, to an Every") == 1;
        s.other           = s.every(1, 4 * MS);
        if (every) {
            s.own = s.template on<Every<>, W...>(ms(2)).then([&s, op] {
                nmc::event(2, 7, clock_ns());
                if (count(2, 7) == 1) { s.act(op); }
            });
        }
        else {
            pp()->emit<NUClear::dsl::word::emit::Delay>(mk<M<1>>(op), NUClear::clock::duration(ms(2)));
        }
        pp()->emit<NUClear::dsl::word::emit::Delay>(mk<M<0>>(2), NUClear::clock::duration(ms(3)));
        nmc::sleep_ns(uint64_t(MS) * 51 / 10);
        nmc::quiesce();
        const int64_t tolerance = op == 6 ? 5 * MS / 2 : 0;
        NMC_REQUIRE(count(1, 2) == 1 && fired_at(2, 0, now + 3 * MS, tolerance), "a timer added before another one fired did not fire once when it was due");
        NMC_REQUIRE(count(1, 1) == (op == 4 ? 0 : 1) && (op == 4 || fired_at(1, 0, now + 4 * MS, tolerance)), "another Every reaction fired %d times", count(1, 1));
        NMC_REQUIRE(count(2) == (every && op != 3 ? 2 : 1), "the reaction ran %d times", count(2));
        const bool due[] = {true, true, true, false, false, true, false};
        const int64_t d[] = {3 * MS, 2 * MS, 3 * MS, 0, 0, 2 * MS, 0};
        NMC_REQUIRE(due[op] ? (count(1, 0) == (op == 2 ? 3 : 1) && fired_at(0, 0, now + d[op])) : count(1, 0) == 0, "a timer made by the reaction fired %d times or at the wrong time", count(1, 0));
    }
};
using from_queued = FromReaction<Priority::NORMAL>;
using from_pool   = FromReaction<Pool<P1<0>>>;
using from_inline = FromReaction<Inline::ALWAYS>;
TIMER_SCENARIO(from_queued, 1, false, "reactions to timers add and remove timers", nmc::delays(0), nmc::delays(1));
TIMER_SCENARIO(from_pool, 1, false, "reactions to timers add and remove timers in another pool", nmc::delays(0), nmc::delays(1));
TIMER_SCENARIO(from_inline, 1, false, "reactions to timers add and remove timers in the thread which runs the timers", nmc::delays(0), nmc::delays(1));

// The system stays busy beyond the times at which timers are due: they fire late, but all of them, once, in order, never early
struct Busy : Timers {
    explicit Busy(std::unique_ptr<NUClear::Environment> e) : Timers(std::move(e)) {
        kick_main([this] {
            const int64_t now = clock_ns();
            nmc::cell_set(1, now - t0);
            every(9, 2 * MS);
            emit<Scope::DELAY>(mk<M<0>>(0), ms(3));
            emit<Scope::DELAY>(mk<M<0>>(1), ms(1));
            emit<Scope::DELAY>(mk<M<0>>(2), at(now + 5 * MS));
        });
    }
    static void check() {
        const int64_t now = nmc::cell_get(1) + t0;
        nmc::sleep_ns(uint64_t(MS) * 7);
        nmc::quiesce();
        const int64_t end = clock_ns();
        int every         = 0;
        for (size_t i = 0; i < nmc::event_count(); ++i) {
            const auto e     = nmc::event_at(i);
            const int64_t due[] = {3 * MS, MS, 5 * MS};
            const int64_t d  = now + (e.a == 9 ? 2 * MS * ++every : due[e.a]);
            NMC_REQUIRE(e.b >= d, "timer %d fired early", int(e.a));
        }
        NMC_REQUIRE(index_of(1, 1) < index_of(1, 0) && index_of(1, 0) < index_of(1, 2), "timers fired in the wrong order");
        NMC_REQUIRE(count(1, 0) == 1 && count(1, 1) == 1 && count(1, 2) == 1, "a timer did not fire exactly once");
        NMC_REQUIRE(every == int((end - now) / (2 * MS)) || every == int((end - now) / (2 * MS)) - 1, "an Every reaction fired %d times in %lld ns", every, (long long) (end - now));
    }
};
using busy = Busy;
TIMER_SCENARIO(busy, 1, false, "timers become due while the threads which should fire them are busy", nmc::delays(1).with(&nmc::Options::early_time), nmc::delays(2).with(&nmc::Options::early_time));

// Timers far away, none at all, and a shutdown while they wait
struct Shutdown_ : Timers {
    explicit Shutdown_(std::unique_ptr<NUClear::Environment> e) : Timers(std::move(e)) {
        kick_main([this] {
            switch (nmc::choose(4, "no timer, one far away, one at the end of time, several")) {
                case 1: emit<Scope::DELAY>(mk<M<0>>(0), std::chrono::hours(24)); break;
                case 2: emit<Scope::DELAY>(mk<M<0>>(0), NUClear::clock::time_point::max()); break;
                case 3:
                    emit<Scope::DELAY>(mk<M<0>>(0), ms(2));
                    emit<Scope::DELAY>(mk<M<0>>(0), ms(0));
                    every(1, 1 * MS);
                    break;
                default: break;
            }
            powerplant.shutdown();
            emit<Scope::DELAY>(mk<M<0>>(1), ms(0));
        });
    }
    static void check() {
        NMC_REQUIRE(nmc::now_ns() < 100 * uint64_t(MS) + 1000000000000ull, "shutting down waited for a timer");
    }
};
using shutdown_waiting = Shutdown_;
NMC_SCENARIO("shutdown_waiting", "shutdown while timers wait", (&h::setup_chrono<1, false, Shutdown_>), &h::run_to_shutdown<Shutdown_>, nmc::delays(1), nmc::delays(2));
