// P15: the adjustable clock is consistent, and timers follow it.
#include "chrono.hpp"
using namespace h;
using namespace NUClear::dsl::word;
using NUClear::message::TimeTravel;
using Action = TimeTravel::Action;

static int64_t base_ns() { return std::chrono::duration_cast<std::chrono::nanoseconds>(NUClear::base_clock::now().time_since_epoch()).count(); }
static NUClear::clock::duration ns(int64_t n) { return std::chrono::duration_cast<NUClear::clock::duration>(std::chrono::nanoseconds(n)); }

// What the clock should show
struct Model {
    int64_t epoch = 0, base = 0;
    double rtf    = 1.0;
    int64_t show(int64_t b) const { return epoch + int64_t(double(b - base) * rtf); }
};
static const double rates[] = {1.0, 2.0, 0.5, 0.0};

// Every program of clock operations and waits
static void programs() {
    Model m;
    m.epoch = m.base = base_ns();
    for (int i = 0; i < (nmc::thorough() ? 5 : 4); ++i) {
        const int op = nmc::choose(9, "set -5, set +5 (rates 1 2 0.5 0 by position), adjust -3, +3, 0, with rates 1, 2, 0.5 and 0, wait 1, wait 1/7");
        const double rtf = rates[(op * 7 + i) % 4];
        const int64_t b  = base_ns();
        if (op < 2) {
            const int64_t target = m.show(b) + (op == 0 ? -5 : 5) * MS;
            NUClear::clock::set_clock(at(target), rtf);
            m.epoch = target, m.base = b, m.rtf = rtf;
        }
        else if (op < 6) {
            static const int d[] = {-3, 3, 0, 0};
            NUClear::clock::adjust_clock(ns(d[op - 2] * MS), op == 5 ? m.rtf : rtf);
            m.epoch = m.show(b) + d[op - 2] * MS, m.base = b, m.rtf = op == 5 ? m.rtf : rtf;
        }
        else {
            nmc::sleep_ns(op == 6 ? MS : op == 7 ? MS / 7 : 100000 * uint64_t(MS));
        }
        NMC_REQUIRE(NUClear::clock::rtf() == m.rtf, "the clock runs at the rate %f, it was set to %f", NUClear::clock::rtf(), m.rtf);
        const int64_t error = clock_ns() - m.show(base_ns());
        NMC_REQUIRE(error >= -1000 && error <= 1000, "the clock is %lld ns off", (long long) error);
    }
}
NMC_SCENARIO("programs", "every program of clock operations and waits", &reset_clock, &programs, nmc::preempt(0), nmc::preempt(0));

// A reader sees one of the settings, whole, and never an older one than before, whatever the writers are doing
template <int Readers, int Writers, int Sets>
struct Concurrent {
    static int64_t start, setting[8];
    static void body() {
        start = base_ns();
        std::thread threads[Readers + Writers];
        for (int w = 0; w < Writers; ++w) {
            threads[w] = std::thread([w] {
                for (int i = 0; i < Sets; ++i) { NUClear::clock::set_clock(at(start + (1 + w * Sets + i) * 1000000 * MS), 1.0 + (1 + w * Sets + i)); }
            });
        }
        for (int r = 0; r < Readers; ++r) {
            threads[Writers + r] = std::thread([] {
                int seen = 0;
                for (int i = 0; i < 2; ++i) {
                    const int64_t t = clock_ns();
                    const int64_t s = (t - start + 500000 * MS) / (1000000 * MS);
                    NMC_REQUIRE(s >= 0 && s <= Writers * Sets && t - start - s * 1000000 * MS >= 0 && t - start - s * 1000000 * MS < 1000 * MS,
                                "the clock showed %lld ns after the start, which it was never set to", (long long) (t - start));
                    NMC_REQUIRE(Writers > 1 || s >= seen, "the clock went back to setting %d after it had shown setting %d", int(s), seen);
                    seen = int(s);
                }
                const double rtf = NUClear::clock::rtf();
                NMC_REQUIRE(rtf >= 1 && rtf <= 1 + Writers * Sets && rtf == int(rtf) && (Writers > 1 || rtf >= 1 + seen), "the rate is %f, after setting %d had been seen", rtf, seen);
            });
        }
        for (auto& t : threads) { t.join(); }
        const int64_t s = (clock_ns() - start + 500000 * MS) / (1000000 * MS);
        NMC_REQUIRE(Writers > 1 ? s % Sets == 0 && s > 0 : s == Sets, "the clock shows setting %d at the end", int(s));
    }
};
template <int R, int W, int S>
int64_t Concurrent<R, W, S>::start = 0;
NMC_SCENARIO("one_writer", "four changes while another thread reads", &reset_clock, (&Concurrent<1, 1, 4>::body), nmc::preempt(3).with(&nmc::Options::weak), nmc::preempt(4).with(&nmc::Options::weak));
NMC_SCENARIO("two_writers", "two threads make two changes each while another one reads", &reset_clock, (&Concurrent<1, 2, 2>::body), nmc::preempt(2).with(&nmc::Options::weak), nmc::preempt(3).with(&nmc::Options::weak));
NMC_SCENARIO("two_readers", "three changes while two threads read", &reset_clock, (&Concurrent<2, 1, 3>::body), nmc::preempt(2).with(&nmc::Options::weak), nmc::preempt(3).with(&nmc::Options::weak));

// Adjustments made concurrently add up
static void adjustments() {
    const int64_t start = clock_ns();
    std::thread a([] { NUClear::clock::adjust_clock(ns(1 * MS)); NUClear::clock::adjust_clock(ns(2 * MS)); });
    std::thread b([] { NUClear::clock::adjust_clock(ns(-7 * MS)); NUClear::clock::adjust_clock(ns(40 * MS)); });
    a.join(), b.join();
    const int64_t error = clock_ns() - start - 36 * MS;
    NMC_REQUIRE(error >= -1000 && error <= 1000, "adjustments of 36 ms moved the clock by %lld ns more", (long long) error);
}
NMC_SCENARIO("adjustments", "two threads adjust the clock twice each", &reset_clock, &adjustments, nmc::preempt(3), nmc::preempt(5));

// Timers and time travel: event 1 is a firing of timer a
struct Timers : Kicked {
    static Timers* self;
    explicit Timers(std::unique_ptr<NUClear::Environment> e) : Kicked(std::move(e)) {
        self = this;
        on<Trigger<M<0>>, Priority::REALTIME>().then([](const M<0>& m) { nmc::event(1, m.v, clock_ns()); });
    }
    void every(int id, int64_t n) {
        on<Every<>, Priority::REALTIME>(std::chrono::nanoseconds(n)).then([id] { nmc::event(1, id, clock_ns()); });
    }
};
Timers* Timers::self = nullptr;
template <bool Late, int Travels>
struct Travel : Timers {
    using Timers::Timers;
    struct Timer {
        int id;
        int64_t due, period;
    };
    struct Firing {
        int id;
        int64_t due, time;
    };
    static void check() {
        Model clock;
        clock.base = base_ns(), clock.epoch = clock_ns();
        Timer timers[8];
        int n = 0, firings = 0;
        Firing fired[64];
        const auto add = [&](int id, int64_t delay, bool every) {
            timers[n++] = {id, clock.show(base_ns()) + delay, every ? delay : 0};
            if (every) { self->every(id, delay); }
            else { pp()->emit<NUClear::dsl::word::emit::Delay>(mk<M<0>>(id), ns(delay)); }
        };
        // what is due now fires now
        const auto fire = [&](int64_t base) {
            for (;;) {
                int f = -1;
                for (int i = 0; i < n; ++i) {
                    if (timers[i].due <= clock.show(base) && (f < 0 || timers[i].due < timers[f].due)) { f = i; }
                }
                if (f < 0) { break; }
                if (firings >= 64) { nmc::prune(); }
                fired[firings++] = {timers[f].id, timers[f].due, base};
                if (timers[f].period != 0) { timers[f].due += timers[f].period; }
                else { timers[f] = timers[--n]; }
            }
        };
        const auto wait = [&](int64_t d) {
            const int64_t end = base_ns() + d;
            nmc::sleep_ns(d);
            nmc::quiesce();
            for (int64_t b = end - d;;) {
                fire(b);
                // the next one
                int64_t next = INT64_MAX;
                for (int i = 0; i < n; ++i) {
                    if (clock.rtf > 0) { next = std::min(next, clock.base + int64_t(double(timers[i].due - clock.epoch) / clock.rtf + 0.999)); }
                }
                if (next > end) { break; }
                b = std::max(next, b + 1);
            }
        };
        const int which = nmc::choose(4, "timers: delay 3, every 2, both, none");
        if (which % 2 == 0) { add(0, 3 * MS, false); }
        if (which == 1 || which == 2) { add(1, 2 * MS, true); }
        for (int i = 0; i < Travels; ++i) {
            static const int64_t deltas[] = {137 * MS / 100, 531 * MS / 100, -329 * MS / 100};
            const int type      = nmc::choose(3, "relative, absolute, nearest");
            const int64_t delta = deltas[nmc::choose(3, "to +1.37, +5.31, -3.29")];
            const double rtf    = rates[nmc::choose(4, "rate 1, 2, 0.5, 0")];
            const int64_t b = base_ns(), now = clock.show(b);
            pp()->emit(std::make_unique<TimeTravel>(at(now + delta), rtf, type == 0 ? Action::RELATIVE : type == 1 ? Action::ABSOLUTE : Action::NEAREST));
            nmc::quiesce();
            int64_t target = now + delta;
            for (int k = 0; k < n; ++k) {
                if (type == 0) { timers[k].due += delta; }
                if (type == 2) { target = std::min(target, timers[k].due); }
            }
            clock.epoch = target, clock.base = b, clock.rtf = rtf;
            fire(b);
            NMC_REQUIRE(NUClear::clock::rtf() == rtf, "the clock runs at the rate %f after it was set to %f", NUClear::clock::rtf(), rtf);
            const int64_t error = clock_ns() - clock.show(base_ns());
            NMC_REQUIRE(error >= -1000 && error <= 1000, "the clock is %lld ns off after time travel", (long long) error);
            wait(MS * 171 / 100);
            if (nmc::choose(2, "add a timer due in 1 ms") == 1) { add(2 + i, MS, false); }
        }
        wait(MS * 263 / 100);
        // Slack: timers due around now may have fired or not
        const int64_t tolerance = (Late ? int64_t(CV_LATE + SLEEP_LATE) : 0) + MS / 5;
        int k = 0;
        for (size_t i = 0; i < nmc::event_count(); ++i, ++k) {
            const auto e = nmc::event_at(i);
            NMC_REQUIRE(k < firings, "timer %d fired too often", int(e.a));
            // those due at the same time fire in any order
            int f = k;
            while (f < firings && fired[f].id != e.a) { ++f; }
            NMC_REQUIRE(f < firings && fired[f].due - fired[k].due <= 1000, "timer %d fired when timer %d was due", int(e.a), fired[k].id);
            std::swap(fired[f], fired[k]);
            NMC_REQUIRE(e.b >= fired[k].due - 1000, "timer %d fired %lld ns early", int(e.a), (long long) (fired[k].due - e.b));
            const int64_t late = int64_t(e.time) - (fired[k].time - base_ns() + int64_t(nmc::now_ns()));
            NMC_REQUIRE(late >= -1000 && late <= tolerance, "timer %d fired %lld ns late", int(e.a), (long long) late);
        }
        NMC_REQUIRE(k == firings || fired[k].time + tolerance > base_ns(), "timer %d did not fire", fired[k].id);
    }
};
using travel      = Travel<false, 1>;
using travels     = Travel<false, 2>;
using travel_late = Travel<true, 2>;
TIMER_SCENARIO(travel, 1, false, "every kind of time travel with every combination of timers", nmc::delays(1), nmc::delays(2));
TIMER_SCENARIO(travels, 1, false, "every pair of time travels with every combination of timers", nmc::delays(0), nmc::delays(1));
TIMER_SCENARIO(travel_late, 1, true, "the same where the system wakes up late", fine(nmc::delays(0)), fine(nmc::delays(0)));
