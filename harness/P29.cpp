// P29: systems can be made, run and destroyed one after the other, and nothing of one is left for the next.
// Every pair of lives of two systems in one process, with a third party that keeps handles of the first one.
#include "common.hpp"

using namespace h;
using NUClear::threading::ReactionHandle;

namespace {

int generation = 0;  // of the system which exists

/// Counts the objects of a kind which exist
struct Counted {
    int cell;
    explicit Counted(int c) : cell(c) { nmc::cell_add(cell, 1); }
    Counted(const Counted& o) : cell(o.cell) { nmc::cell_add(cell, 1); }
    Counted& operator=(const Counted&) = delete;
    ~Counted() { nmc::cell_add(cell, -1); }
};
enum { CALLBACKS = 10, MESSAGES = 20 };  // cells, by generation

template <int I>
struct Msg {
    int v;
    Counted c;
    explicit Msg(int v) : v(v), c(MESSAGES + generation) {}
};
struct Cnt {};

ReactionHandle kept[4];

// every reaction notes the generation it was bound in and the value it got
struct R : Reactor {
    const int g = generation;
    int life    = 0;
    explicit R(std::unique_ptr<NUClear::Environment> e) : Reactor(std::move(e)) {
        const Counted c(CALLBACKS + g);
        const int gen = g;
        const auto f  = [c, gen](int kind) {
            return [c, gen, kind](const Msg<0>& m) {
                NMC_REQUIRE(gen == generation, "a reaction of a system which has been destroyed runs in the next one");
                nmc::event(kind, gen, m.v);
            };
        };
        kept[0] = on<Trigger<Msg<0>>>().then(f(1));
        kept[1] = on<Trigger<Msg<0>>, Sync<Cnt>>().then(f(2));
        kept[2] = on<Trigger<Msg<0>>, Pool<P1<0>>, Sync<Cnt>, Group<G2<0>>>().then(f(3));
        kept[3] = on<Trigger<Msg<0>>, Inline::ALWAYS>().then(f(4));
        on<Trigger<Msg<0>>, Once>().then(f(5));
        on<Trigger<Msg<0>>, Single, MainThread>().then(f(6));
        on<Last<2, Trigger<Msg<0>>>>().then([c, gen](const std::list<std::shared_ptr<const Msg<0>>>& l) { nmc::event(7, gen, int(l.size())); });
        on<Startup>().then([this, c] { nmc::event(8, g); emit(mk<Msg<0>>(1)); });
        on<Shutdown>().then([this, c] { nmc::event(9, g); });
        on<Trigger<Msg<1>>, MainThread, Priority::IDLE>().then([this, c](const Msg<1>& m) { powerplant.shutdown(m.v == 1); });
        emit<Scope::INITIALIZE>(mk<Msg<2>>(2));
        on<Trigger<Msg<2>>>().then([c, gen](const Msg<2>& m) { nmc::event(10, gen, m.v); });
    }
};

int runs(int kind, int g) {
    int n = 0;
    for (size_t i = 0; i < nmc::event_count(); ++i) {
        const auto e = nmc::event_at(i);
        n += e.kind == kind && e.a == g ? 1 : 0;
    }
    return n;
}

enum Life { NOT_STARTED, GRACEFUL, FORCED, QUEUED, LIVES };

void live(int g, int life, bool handles) {
    generation = g;
    Configuration c;
    c.default_pool_concurrency = 1;
    auto* p                    = new PowerPlant(c);
    NMC_REQUIRE(PowerPlant::powerplant == p, "the power plant is not the current one");
    if (handles) {
        // those of the system before
        for (auto& h : kept) {
            NMC_REQUIRE(!h, "a handle is valid although its reaction is gone");
            NMC_REQUIRE(!h.enabled(), "a reaction which is gone is enabled");
            h.disable();
            h.enable();
            h.unbind();
        }
    }
    p->install<R>();
    NMC_REQUIRE(kept[0] && kept[0].enabled(), "a new handle is not valid");
    if (life == QUEUED) {
        // left behind in the queues of pools and groups
        p->emit(mk<Msg<0>>(3));
        p->emit(mk<Msg<0>>(4));
    }
    if (life == GRACEFUL || life == FORCED) {
        p->emit(mk<Msg<1>>(life == FORCED ? 1 : 0));
        p->start();
    }
    const size_t n = nmc::event_count();
    delete p;
    NMC_REQUIRE(nmc::event_count() == n, "a reaction ran while the system was destroyed");
    NMC_REQUIRE(PowerPlant::powerplant == nullptr, "there is still a current power plant");
    generation = 9;
    NMC_REQUIRE(nmc::cell_get(CALLBACKS + g) == 0, "%d callbacks of a destroyed system still exist", int(nmc::cell_get(CALLBACKS + g)));
    // the latest message of each type stays for With
    NMC_REQUIRE(nmc::cell_get(MESSAGES + g) <= 3, "%d messages of a destroyed system still exist", int(nmc::cell_get(MESSAGES + g)));
    if (life == GRACEFUL) {
        for (int k = 1; k <= 6; ++k) {
            NMC_REQUIRE(runs(k, g) == 1, "life %d: reaction %d ran %d times for one emission", g, k, runs(k, g));
        }
        NMC_REQUIRE(runs(7, g) == 1 && runs(8, g) == 1 && runs(9, g) == 1 && runs(10, g) <= 1, "life %d: Last, Startup, Shutdown and Initialise ran %d, %d, %d and %d times",
                    g, runs(7, g), runs(8, g), runs(9, g), runs(10, g));
        for (size_t i = 0; i < nmc::event_count(); ++i) {
            const auto e = nmc::event_at(i);
            NMC_REQUIRE(e.kind != 7 || e.a != g || e.b == 1, "life %d: Last contains a message of the life before", g);
        }
    }
    if (life == FORCED) {
        NMC_REQUIRE(runs(8, g) == 1 && runs(4, g) == 1, "life %d: Startup and an inline reaction ran %d and %d times", g, runs(8, g), runs(4, g));
        for (int k = 1; k <= 7; ++k) {
            NMC_REQUIRE(runs(k, g) <= 1, "life %d: reaction %d ran %d times for one emission", g, k, runs(k, g));
        }
    }
    if (life == NOT_STARTED || life == QUEUED) {
        NMC_REQUIRE(runs(1, g) + runs(2, g) + runs(3, g) + runs(6, g) + runs(8, g) + runs(9, g) == 0, "reactions ran although the system was not started");
    }
}

void no_setup() {}

void lives() {
    const int first  = nmc::choose(LIVES, "first life");
    const int second = nmc::choose(LIVES, "second life");
    live(0, first, false);
    live(1, second, true);
    live(2, GRACEFUL, true);
}

void racing() {
    live(0, nmc::choose(2, "first life") == 0 ? GRACEFUL : FORCED, false);
    live(1, QUEUED, true);
    live(2, NOT_STARTED, true);
}

// only one at a time
void second_refused() {
    generation = 0;
    auto* p    = new PowerPlant();
    bool refused = false;
    try {
        PowerPlant q;
    }
    catch (const std::runtime_error&) {
        refused = true;
    }
    NMC_REQUIRE(refused, "a second power plant was made beside the first one");
    NMC_REQUIRE(PowerPlant::powerplant == p, "the refused power plant has replaced the first one");
    p->install<R>();
    p->emit(mk<Msg<1>>(0));
    p->start();
    NMC_REQUIRE(runs(8, 0) == 1 && runs(1, 0) == 1, "the first system does not work after a second one was refused");
    delete p;
}

}  // namespace

NMC_SCENARIO("lives", "three systems one after the other, of every kind of life", &no_setup, &lives, nmc::delays(0), nmc::delays(1).secs(1200));
NMC_SCENARIO("racing", "a system which runs and two more, with other schedules", &no_setup, &racing, nmc::delays(1), nmc::delays(2).secs(1200));
NMC_SCENARIO("one_at_a_time", "a second system beside the first one", &no_setup, &second_refused, nmc::delays(1), nmc::delays(2));
