// P12: startup runs before anything else and initial emissions are never lost.
#include "common.hpp"
using namespace h;
using namespace NUClear::dsl::word;
using NUClear::message::CommandLineArguments;

// cell 1: 1 while start() is running the startup reactions (or may already have finished them), 2 after the last of them
// events: 10 + k reaction k saw message a; 30 + k startup reaction k ran
static void on_main() { NMC_REQUIRE(nmc::thread_id() == 0, "a startup reaction ran on thread %d", nmc::thread_id()); }
static void ordinary() { NMC_REQUIRE(nmc::cell_get(1) == 2, "a task ran before the startup reactions had finished"); }

// Every program of operations in two reactors' constructors; the operations of the first startup reaction follow
enum { LOCAL, INIT, BIND, INLINED, NONE, OPS };
static int ops[6];
struct Model {
    int v, bound, how, ran[6];
};
static Model model[8];
static int bound, messages;
struct Base : Reactor {
    explicit Base(std::unique_ptr<NUClear::Environment> e) : Reactor(std::move(e)) {}
    void perform(int op) {
        Model m{messages, bound, op, {}};
        switch (op) {
            case LOCAL: model[messages++] = m; emit(mk<M<0>>(m.v)); break;
            case INIT: model[messages++] = m; emit<Scope::INITIALIZE>(mk<M<0>>(m.v)); break;
            case INLINED:
                model[messages++] = m;
                emit<Scope::INLINE>(mk<M<0>>(m.v));
                for (int k = 0; k < bound; ++k) { NMC_REQUIRE(count(10 + k, m.v) == 1, "an inline emission during installation ran reaction %d %d times", k, count(10 + k, m.v)); }
                break;
            case BIND: {
                const int k = bound++;
                on<Trigger<M<0>>>().then([k](const M<0>& m) {
                    if (model[m.v].how != INLINED) { ordinary(); }
                    nmc::event(10 + k, m.v);
                });
            } break;
            default: break;
        }
    }
};
template <int N>
struct First : Base {
    explicit First(std::unique_ptr<NUClear::Environment> e) : Base(std::move(e)) {
        on<Startup>().then([this] {
            on_main();
            nmc::event(30);
            perform(ops[4]);
        });
        for (int i = 0; i < N; ++i) { perform(ops[i]); }
    }
};
template <int N>
struct Second : Base {
    explicit Second(std::unique_ptr<NUClear::Environment> e) : Base(std::move(e)) {
        for (int i = N; i < 3; ++i) { perform(ops[i]); }
        on<Startup>().then([] {
            on_main();
            nmc::event(31);
            nmc::cell_set(1, 2);
        });
    }
};
template <int Threads>
struct Programs {
    static void body() {
        bound = messages = 0;
        for (int i = 0; i < 5; ++i) { ops[i] = i == 3 ? int(BIND) : nmc::choose(i == 4 ? 4 : OPS, "local, initialise, bind, inline, nothing"); }
        if (ops[4] == BIND) { ops[4] = NONE; }
        pp()->install<First<2>>();
        pp()->install<Second<2>>();
        // One more reactor, which everything that was deferred has to reach
        struct Last : Base {
            explicit Last(std::unique_ptr<NUClear::Environment> e) : Base(std::move(e)) { perform(BIND); }
        };
        pp()->install<Last>();
        nmc::cell_set(1, 1);
        run_until_quiet<Programs>();
    }
    static void check() {
        NMC_REQUIRE(count(30) == 1 && count(31) == 1 && index_of(30, 0) < index_of(31, 0), "the startup reactions ran %d and %d times", count(30), count(31));
        for (int v = 0; v < messages; ++v) {
            const int reach = model[v].how == INIT ? bound : model[v].bound;
            for (int k = 0; k < bound; ++k) {
                NMC_REQUIRE(count(10 + k, v) == (k < reach ? 1 : 0), "%s emission %d reached reaction %d %d times, %d reactions were bound",
                            model[v].how == INIT ? "initialise" : model[v].how == LOCAL ? "local" : "inline", v, k, count(10 + k, v), model[v].bound);
                // emissions of the same kind arrive in order where there is only one thread to deliver them
                for (int w = 0; Threads == 1 && w < v; ++w) {
                    const int a = index_of(10 + k, w), b = index_of(10 + k, v);
                    NMC_REQUIRE(a < 0 || b < 0 || model[w].how != model[v].how || a < b, "reaction %d saw emission %d before emission %d", k, v, w);
                }
            }
        }
    }
};
NMC_SCENARIO("programs", "every program of 3 operations in the constructors of two reactors and one at startup", (&h::setup<1>), &Programs<1>::body, nmc::preempt(0), nmc::preempt(1));
NMC_SCENARIO("programs_two", "the same with two threads in the default pool", (&h::setup<2>), &Programs<2>::body, nmc::delays(0), nmc::delays(1));

// Startup reactions with all kinds of words run one after the other, in order, on the main thread
struct words : Kicked {
    void ran(int k) {
        on_main();
        NMC_REQUIRE(count(1) == k, "startup reaction %d ran as number %d", k, count(1));
        nmc::event(1, k);
        emit(mk<M<0>>(k));
        emit<Scope::INLINE>(mk<M<1>>(k));
        NMC_REQUIRE(count(2, k) == 1, "an inline emission of a startup reaction ran %d times", count(2, k));
        nmc::point();
    }
    REACTOR(words) {
        on<Trigger<M<0>>, Pool<P1<0>>>().then([](const M<0>& m) { ordinary(); nmc::event(3, m.v); });
        on<Trigger<M<0>>, MainThread>().then([](const M<0>& m) { ordinary(); nmc::event(4, m.v); });
        on<Trigger<M<0>>, Priority::REALTIME>().then([](const M<0>& m) { ordinary(); nmc::event(5, m.v); });
        on<Trigger<M<1>>>().then([](const M<1>& m) { nmc::event(2, m.v); });
        on<Startup, Pool<P1<0>>>().then([this] { ran(0); });
        on<Startup, Priority::LOW, Sync<G<0>>>().then([this] { ran(1); });
        on<Startup, Single>().then([this] { ran(2); throw std::runtime_error("startup"); });
        on<Startup, MainThread, Sync<G<0>>, Sync<G<1>>>().then([this] { ran(3); });
        on<Startup, With<CommandLineArguments>>().then([this](const CommandLineArguments& args) {
            ran(4);
            NMC_REQUIRE(args.empty(), "there are command line arguments");
        });
        on<Startup, Inline::NEVER, Pool<P1<0>>>().then([] { ordinary(); nmc::event(6); });
        on<Startup, Once, Inline::ALWAYS>().then([this] { ran(5); });
        on<Startup>().then([this] { ran(6); nmc::cell_set(1, 2); });
        on<Trigger<CommandLineArguments>>().then([](const CommandLineArguments& args) {
            on_main();
            nmc::event(7, int64_t(args.size()));
        });
    }
    static void check() {
        NMC_REQUIRE(count(1) == 7, "%d of 7 startup reactions ran", count(1));
        for (int k = 0; k < 7; ++k) {
            NMC_REQUIRE(count(3, k) == 1 && count(4, k) == 1 && count(5, k) == 1, "message %d emitted at startup was delivered %d, %d and %d times", k, count(3, k), count(4, k), count(5, k));
        }
        NMC_REQUIRE(count(6) == 1, "a startup reaction which refuses inline execution ran %d times", count(6));
        NMC_REQUIRE(count(7) == 1, "the command line arguments were delivered %d times", count(7));
    }
};
QUIET_SCENARIO(words, 1, "startup reactions with pools, groups, priorities, limits and exceptions", nmc::preempt(0), nmc::preempt(1));

// A thread of its own emits while the system is started
struct foreign : Kicked {
    REACTOR(foreign) {
        on<Trigger<M<0>>, Pool<P1<0>>>().then([](const M<0>& m) { nmc::event(1, m.v); });
        on<Trigger<M<0>>, MainThread>().then([](const M<0>& m) { on_main(); nmc::event(2, m.v); });
        on<Trigger<M<0>>, Sync<G<0>>>().then([](const M<0>& m) { nmc::event(3, m.v); });
        on<Startup>().then([this] { emit(mk<M<0>>(1)); });
    }
    static void body() {
        std::thread([] { pp()->emit(mk<M<0>>(0)); }).detach();
        run_until_quiet<foreign>();
    }
    static void check() {
        for (int k = 1; k <= 3; ++k) {
            for (int v = 0; v < 2; ++v) { NMC_REQUIRE(count(k, v) == 1, "a message emitted while the system was starting was delivered %d times to reaction %d", count(k, v), k); }
        }
    }
};
NMC_SCENARIO("foreign", "a foreign thread emits to three pools while the system is started", (&h::setup<1, foreign>), &foreign::body, nmc::preempt(1), nmc::preempt(2));

// two reactions in pools which are used for the first time by tasks of the installation
struct queued : Kicked {
    REACTOR(queued) {
        on<Trigger<M<0>>, Pool<P2<0>>>().then([](const M<0>& m) { ordinary(); nmc::event(1, m.v); });
        on<Trigger<M<0>>, Pool<P1<0>>, Sync<G<0>>>().then([](const M<0>& m) { ordinary(); nmc::event(2, m.v); });
        on<Trigger<M<0>>, Sync<G<0>>>().then([](const M<0>& m) { ordinary(); nmc::event(3, m.v); });
        on<Trigger<M<0>>, Sync<G<0>>, Sync<G<1>>>().then([](const M<0>& m) { ordinary(); nmc::event(4, m.v); });
        on<Startup>().then([] { nmc::point(); nmc::cell_set(1, 2); });
        emit(mk<M<0>>(0));
        emit<Scope::INITIALIZE>(mk<M<0>>(1));
        emit(mk<M<0>>(2));
    }
    static void check() {
        for (int k = 1; k <= 4; ++k) {
            for (int v = 0; v < 3; ++v) { NMC_REQUIRE(count(k, v) == 1, "a message emitted during installation was delivered %d times to reaction %d", count(k, v), k); }
        }
    }
};
QUIET_SCENARIO(queued, 1, "tasks queued in pools and groups before the start", nmc::preempt(0), nmc::preempt(1));

// The command line
static void arguments_body() {
    static const char* argv[] = {"prog", "", "-x"};
    delete pp();
    Configuration c;
    const int argc = nmc::choose(4, "number of arguments");
    pp()           = new PowerPlant(c, argc, argv);
    struct R : Reactor {
        static void same(const CommandLineArguments& args, int kind) {
            for (size_t i = 0; i < args.size(); ++i) { NMC_REQUIRE(args[i] == argv[i], "argument %d is '%s'", int(i), args[i].c_str()); }
            nmc::event(kind, int64_t(args.size()));
        }
        explicit R(std::unique_ptr<NUClear::Environment> e) : Reactor(std::move(e)) {
            on<Trigger<CommandLineArguments>>().then([](const CommandLineArguments& args) { same(args, 1); });
            on<Startup, With<CommandLineArguments>>().then([](const CommandLineArguments& args) { same(args, 2); });
            on<Startup>().then([this] { powerplant.shutdown(); });
        }
    };
    pp()->install<R>();
    pp()->start();
    NMC_REQUIRE(count(1) == 1 && count(1, argc) == 1 && count(2, argc) == 1, "%d arguments were delivered %d and %d times", argc, count(1, argc), count(2, argc));
}
NMC_SCENARIO("arguments", "the command line is available and delivered at startup", (&h::setup<1>), &arguments_body, nmc::preempt(0), nmc::preempt(1));
