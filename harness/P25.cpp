// P25: log messages are delivered exactly when the levels in force say so.
// The whole table of levels and contexts, and threads which log at the same time.
#include <sstream>
#include <thread>

#include "common.hpp"

namespace {

using NUClear::LogLevel;
using NUClear::message::LogMessage;
using NUClear::threading::ReactionTask;

const LogLevel::Value LEVELS[] = {LogLevel::UNKNOWN, LogLevel::TRACE, LogLevel::DEBUG, LogLevel::INFO,
                                  LogLevel::WARN,    LogLevel::ERROR, LogLevel::FATAL};

// an argument which notices that it is turned into text
struct Streamed {
    int* n;
};
std::ostream& operator<<(std::ostream& os, const Streamed& s) {
    ++*s.n;
    return os << "streamed";
}

struct Got {
    int n = 0;
    int level, display;
    std::string text, name;
    const void* stats;
};
// what the handler saw last, one per thread: a log message is handled in the thread which logs
Got& got() {
    static Got g[16];
    return g[nmc::thread_id()];
}

template <class T>
struct Speaker : h::Kicked {
    explicit Speaker(std::unique_ptr<NUClear::Environment> e) : h::Kicked(std::move(e)) {}
    void levels(LogLevel display, LogLevel min) {
        log_level     = display;
        min_log_level = min;
    }
    template <LogLevel::Value L>
    void own_t(const Streamed& s) const {
        this->template log<L>("a", 1, s);
    }
    void own_r(LogLevel l, const Streamed& s) const {
        this->log(l, "a", 1, s);
    }
    const std::string& name() const {
        return reactor_name;
    }
};

template <class F>
struct ByLevel;

enum How { OWN_T, OWN_R, FREE_T, FREE_R, PLANT_T, PLANT_R, HOWS };

template <LogLevel::Value L, class S>
void call_t(const S* own, int how, const Streamed& s) {
    switch (how) {
        case OWN_T: own->template own_t<L>(s); break;
        case FREE_T: NUClear::log<L>("a", 1, s); break;
        case PLANT_T: h::pp()->log<L>("a", 1, s); break;
    }
}

// One log call with everything that must follow from it.
//   own:     the reactor whose member function is used
//   running: the reactor whose task is running on this thread, null outside of tasks
template <class S, class R>
void call(int how, LogLevel::Value l, const S* own, const R* running, int od, int om, int rd, int rm) {
    int streamed = 0;
    const Streamed s{&streamed};
    got()        = Got{};
    switch (how) {
        case OWN_R: own->own_r(l, s); break;
        case FREE_R: NUClear::log(l, "a", 1, s); break;
        case PLANT_R: h::pp()->log(l, "a", 1, s); break;
        default:
            switch (l) {
                case LogLevel::UNKNOWN: call_t<LogLevel::UNKNOWN>(own, how, s); break;
                case LogLevel::TRACE: call_t<LogLevel::TRACE>(own, how, s); break;
                case LogLevel::DEBUG: call_t<LogLevel::DEBUG>(own, how, s); break;
                case LogLevel::INFO: call_t<LogLevel::INFO>(own, how, s); break;
                case LogLevel::WARN: call_t<LogLevel::WARN>(own, how, s); break;
                case LogLevel::ERROR: call_t<LogLevel::ERROR>(own, how, s); break;
                case LogLevel::FATAL: call_t<LogLevel::FATAL>(own, how, s); break;
            }
    }
    const bool member = how == OWN_T || how == OWN_R;
    const int display = member ? od : running != nullptr ? rd : 0;
    const int min     = member ? om : running != nullptr ? rm : 0;
    const bool want   = int(l) >= display || int(l) >= min;
    const Got& g      = got();
    NMC_REQUIRE(g.n == (want ? 1 : 0),
                "level %d with display level %d and minimum level %d (call %d, own %d/%d, running %d/%d) delivered %d messages",
                int(l), display, min, how, od, om, rd, rm, g.n);
    NMC_REQUIRE(streamed == g.n, "the arguments were turned into text %d times for %d messages", streamed, g.n);
    if (want) {
        NMC_REQUIRE(g.level == int(l), "the message says level %d instead of %d", g.level, int(l));
        NMC_REQUIRE(g.display == display, "the message says display level %d instead of %d", g.display, display);
        NMC_REQUIRE(g.text == "a 1 streamed", "the text is '%s'", g.text.c_str());
        const std::string name = member ? own->name() : running != nullptr ? running->name() : std::string();
        NMC_REQUIRE(g.name == name, "the message says reactor '%s' instead of '%s'", g.name.c_str(), name.c_str());
        const auto* task = ReactionTask::get_current_task();
        const void* st   = task != nullptr ? static_cast<const void*>(task->statistics.get()) : nullptr;
        NMC_REQUIRE((task != nullptr) == (running != nullptr), "the harness is in another task than it thinks");
        NMC_REQUIRE(g.stats == st, "the message names another task");
    }
}

struct A;
struct B;
A*& a_() {
    static A* a;
    return a;
}
B*& b_() {
    static B* b;
    return b;
}

struct Handler : h::Kicked {
    REACTOR(Handler) {
        on<Trigger<LogMessage>>().then([](const LogMessage& m) {
            Got& g    = got();
            g.n++;
            g.level   = int(m.level);
            g.display = int(m.display_level);
            g.text    = m.message;
            g.name    = m.reactor_name;
            g.stats   = m.statistics.get();
        });
    }
};

struct B : Speaker<B> {
    explicit B(std::unique_ptr<NUClear::Environment> e) : Speaker<B>(std::move(e)) {
        b_() = this;
        on<Trigger<h::M<5>>>().then([](const h::M<5>&) { nmc::event(5); });
    }
};

// The table: levels of the reactor, all calls, inside of its own task, inside of another's, outside of tasks
struct A : Speaker<A> {
    int d = 0, m = 0, bd = 0, bm = 0;
    explicit A(std::unique_ptr<NUClear::Environment> e) : Speaker<A>(std::move(e)) {
        a_() = this;
        on<Trigger<h::M<3>>>().then([this] {
            const B* b = b_();
            for (const auto l : LEVELS) {
                for (int how = 0; how < HOWS; ++how) {
                    // as itself; and calling a member function of the other reactor
                    call(how, l, this, this, d, m, d, m);
                    call(how, l, b, this, bd, bm, d, m);
                }
            }
            // other levels count from the next call on
            for (int k = 1; k < 7; ++k) {
                const int d2 = (d + 2 * k) % 7, m2 = (m + 5 * k) % 7;
                levels(LEVELS[d2], LEVELS[m2]);
                for (const auto l : LEVELS) {
                    for (int how = 0; how < HOWS; ++how) {
                        call(how, l, this, this, d2, m2, d2, m2);
                    }
                }
            }
            levels(LEVELS[d], LEVELS[m]);
            nmc::event(3);
        });
        kick([this] {
            d  = nmc::choose(7, "display");
            m  = nmc::choose(7, "minimum");
            bd = nmc::choose(3, "display of the other") * 3;
            bm = nmc::choose(3, "minimum of the other") * 3;
            levels(LEVELS[d], LEVELS[m]);
            b_()->levels(LEVELS[bd], LEVELS[bm]);
            emit(h::mk<h::M<3>>(0));
        });
    }
};

struct Table : Handler {
    explicit Table(std::unique_ptr<NUClear::Environment> e) : Handler(std::move(e)) {}
    static void check() {
        NMC_REQUIRE(h::count(3) == 1, "the task did not run");
        // outside of tasks
        A* a = a_();
        for (const auto l : LEVELS) {
            for (int how = 0; how < HOWS; ++how) {
                call(how, l, a, static_cast<const A*>(nullptr), a->d, a->m, 0, 0);
            }
        }
    }
};

// a inline emission changes whose levels are in force, and changes them back; levels changed in between count at once
struct Inner : Speaker<Inner> {
    static Inner*& self() {
        static Inner* i;
        return i;
    }
    int d = 0, m = 0;
    explicit Inner(std::unique_ptr<NUClear::Environment> e) : Speaker<Inner>(std::move(e)) {
        self() = this;
        on<Trigger<h::M<4>>>().then([this] {
            for (const auto l : LEVELS) {
                call(FREE_R, l, this, this, d, m, d, m);
                call(OWN_T, l, this, this, d, m, d, m);
            }
        });
    }
};
struct Outer : Speaker<Outer> {
    int d = 0, m = 0;
    explicit Outer(std::unique_ptr<NUClear::Environment> e) : Speaker<Outer>(std::move(e)) {
        kick([this] {
            Inner* in = Inner::self();
            d         = nmc::choose(7, "display");
            m         = nmc::choose(7, "minimum");
            in->d     = nmc::choose(7, "inner display");
            in->m     = nmc::choose(7, "inner minimum");
            levels(LEVELS[d], LEVELS[m]);
            in->levels(LEVELS[in->d], LEVELS[in->m]);
            const bool thrown = false;
            (void) thrown;
            for (int round = 0; round < 2; ++round) {
                emit<Scope::INLINE>(h::mk<h::M<4>>(0));
                for (const auto l : LEVELS) {
                    call(FREE_R, l, this, this, d, m, d, m);
                    call(PLANT_T, l, this, this, d, m, d, m);
                    call(OWN_R, l, in, this, in->d, in->m, d, m);
                }
                // swapped for the second round
                std::swap(d, m);
                levels(LEVELS[d], LEVELS[m]);
            }
            nmc::event(3);
        });
    }
    static void check() {
        NMC_REQUIRE(h::count(3) == 1, "the task did not run");
    }
};
struct NestedLevels : Handler {
    explicit NestedLevels(std::unique_ptr<NUClear::Environment> e) : Handler(std::move(e)) {}
    static void check() {
        Outer::check();
    }
};

// Two handlers, of which one is in the main thread and one logs itself: every message reaches every handler once
struct Many : h::Kicked {
    static int kind(const LogMessage& m) {
        return m.message == "one" ? 1 : m.message == "two" ? 2 : m.message == "low" ? 3 : m.message == "own" ? 4 : 5;
    }
    REACTOR(Many) {
        log_level     = LogLevel::WARN;
        min_log_level = LogLevel::FATAL;
        on<Trigger<LogMessage>>().then([](const LogMessage& m) { nmc::event(10, kind(m), nmc::thread_id()); });
        on<Trigger<LogMessage>, MainThread>().then([](const LogMessage& m) { nmc::event(11, kind(m)); });
        kick<1>([this] {
            log<LogLevel::WARN>("one");
            log<LogLevel::INFO>("low");
        });
        kick_own<2>([this] {
            NUClear::log<LogLevel::ERROR>("two");
            NUClear::log<LogLevel::DEBUG>("low");
        });
    }
    static void check() {
        for (const int k : {1, 2}) {
            NMC_REQUIRE(h::count(10, k) == 1, "the handler saw message %d %d times", k, h::count(10, k));
            NMC_REQUIRE(h::count(11, k) == 1, "the handler in the main thread saw message %d %d times", k, h::count(11, k));
        }
        NMC_REQUIRE(h::count(10) == 2 && h::count(11) == 2, "messages nobody should have got");
    }
};

// Two threads log for different reactors at the same time
struct Pair : Handler {
    explicit Pair(std::unique_ptr<NUClear::Environment> e) : Handler(std::move(e)) {}
    static void check() {
        NMC_REQUIRE(h::count(3) == 2, "a task did not run");
    }
};
template <int I>
struct Side : Speaker<Side<I>> {
    explicit Side(std::unique_ptr<NUClear::Environment> e) : Speaker<Side<I>>(std::move(e)) {
        const int d = I == 0 ? 4 : 2;
        const int m = I == 0 ? 6 : 5;
        this->levels(LEVELS[d], LEVELS[m]);
        auto f = [this, d, m] {
            for (const int l : {1, 3, 5}) {
                call(FREE_R, LEVELS[l], this, this, d, m, d, m);
                nmc::point();
                call(OWN_R, LEVELS[l], this, this, d, m, d, m);
                nmc::point();
            }
            nmc::event(3);
        };
        if (I == 0) {
            this->template kick<1>(f);
        }
        else {
            this->template kick_own<2>(f);
        }
    }
};

// names and values of the levels
void names() {
    const char* want[] = {"UNKNOWN", "TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL"};
    for (int i = 0; i < 7; ++i) {
        const LogLevel l(LEVELS[i]);
        NMC_REQUIRE(std::string(l) == want[i], "the name of level %d is %s", i, std::string(l).c_str());
        NMC_REQUIRE(LogLevel(std::string(want[i])) == l, "the name of level %d is not understood", i);
        std::ostringstream os;
        os << l;
        NMC_REQUIRE(os.str() == want[i], "level %d prints as %s", i, os.str().c_str());
        for (int j = 0; j < 7; ++j) {
            const LogLevel k(LEVELS[j]);
            const auto v = LEVELS[j];
            NMC_REQUIRE((l < k) == (i < j) && (l > k) == (i > j) && (l <= k) == (i <= j) && (l >= k) == (i >= j)
                            && (l == k) == (i == j) && (l != k) == (i != j),
                        "comparing levels %d and %d", i, j);
            NMC_REQUIRE((l < v) == (i < j) && (l > v) == (i > j) && (l <= v) == (i <= j) && (l >= v) == (i >= j)
                            && (l == v) == (i == j) && (l != v) == (i != j),
                        "comparing level %d with value %d", i, j);
            NMC_REQUIRE((v < l) == (j < i) && (v > l) == (j > i) && (v <= l) == (j <= i) && (v >= l) == (j >= i)
                            && (v == l) == (i == j) && (v != l) == (i != j),
                        "comparing value %d with level %d", j, i);
        }
    }
    NMC_REQUIRE(LogLevel(std::string("nonsense")) == LogLevel::UNKNOWN, "an unknown name");
}

}  // namespace

NMC_SCENARIO("names", "names and order of the levels", nullptr, &names, nmc::preempt(0), nmc::preempt(0));
NMC_SCENARIO("table", "every combination of levels and ways to log, inside and outside of tasks", (&h::setup<1, Table, B, A>),
             &h::run_until_quiet<Table>, nmc::delays(1).secs(60), nmc::delays(2).secs(600));
NMC_SCENARIO("nested", "whose levels are in force around an inline emission", (&h::setup<1, NestedLevels, Inner, Outer>),
             &h::run_until_quiet<NestedLevels>, nmc::delays(0).secs(60), nmc::delays(0).secs(600));
NMC_SCENARIO("pair", "two threads log for different reactors", (&h::setup<1, Pair, Side<0>, Side<1>>),
             &h::run_until_quiet<Pair>, nmc::delays(2).secs(40), nmc::preempt(2).secs(600));
QUIET_SCENARIO(Many, 1, "every handler sees every delivered message once", nmc::delays(2).secs(40), nmc::preempt(2).secs(600));
