// P05: higher priority first, then submission order.
#include "common.hpp"
using namespace h;
using namespace NUClear::dsl::word;

using P_0 = Priority::IDLE;
using P_1 = Priority::LOW;
using P_2 = Priority::NORMAL;
using P_3 = Priority::HIGH;
using P_4 = Priority::REALTIME;

// task t (0..7) of level l: message value t
static constexpr int ORDER = 1;

struct Order {
    // nmc::cell 30+t: level of task t;
    static void started(int t) { nmc::event(ORDER, t, nmc::cell_get(30 + t)); }
    static void check(int n) {
        NMC_REQUIRE(count(ORDER) == n, "%d of %d tasks ran", count(ORDER), n);
        int last = -1, last_level = 99;
        for (size_t i = 0; i < nmc::event_count(); ++i) {
            const auto e = nmc::event_at(i);
            if (e.kind != ORDER) {
                continue;
            }
            NMC_REQUIRE(e.b <= last_level, "task %d of priority %d was started after task %d of priority %d", int(e.a), int(e.b), last, last_level);
            NMC_REQUIRE(e.b < last_level || e.a > last, "task %d was started before task %d of the same priority %d", last, int(e.a), int(e.b));
            last       = int(e.a);
            last_level = int(e.b);
        }
    }
};

template <class... W>
struct Levels : Kicked {
    explicit Levels(std::unique_ptr<NUClear::Environment> e) : Kicked(std::move(e)) {
        on<Trigger<M<0>>, P_0, W...>().then([](const M<0>& m) { Order::started(m.v); });
        on<Trigger<M<1>>, P_1, W...>().then([](const M<1>& m) { Order::started(m.v); });
        on<Trigger<M<2>>, P_2, W...>().then([](const M<2>& m) { Order::started(m.v); });
        on<Trigger<M<3>>, P_3, W...>().then([](const M<3>& m) { Order::started(m.v); });
        on<Trigger<M<4>>, P_4, W...>().then([](const M<4>& m) { Order::started(m.v); });
    }
    void send(int level, int t) {
        nmc::cell_set(30 + t, level);
        switch (level) {
            case 0: emit(mk<M<0>>(t)); break;
            case 1: emit(mk<M<1>>(t)); break;
            case 2: emit(mk<M<2>>(t)); break;
            case 3: emit(mk<M<3>>(t)); break;
            default: emit(mk<M<4>>(t)); break;
        }
    }
};

// Everything is queued behind a running task, by the main thread; every sequence of N priorities
template <int N, int Menu, class... W>
struct Queued : Levels<W...> {
    explicit Queued(std::unique_ptr<NUClear::Environment> e) : Levels<W...>(std::move(e)) {
        this->template on<Trigger<M<9>>, W...>().then([] {
            nmc::cell_set(1, 1);
            nmc::await_cell(2, 1);
        });
        this->template on<Startup>().then([this] { this->emit(mk<K<0>>(0)); });
        this->template on<Trigger<K<0>>, Pool<P1<7>>>().then([this] {
            this->emit(mk<M<9>>(0));
            nmc::await_cell(1, 1);
            for (int t = 0; t < N; ++t) {
                this->send(Menu == 5 ? nmc::choose(5, "priority") : 1 + nmc::choose(Menu, "priority"), t);
            }
            nmc::cell_set(2, 1);
        });
    }
    static void check() { Order::check(N); }
};
using pool_of_one  = Queued<4, 5, Pool<P1<0>>>;
using default_pool = Queued<4, 5>;
using main_thread  = Queued<3, 5, MainThread>;
using sync_two     = Queued<3, 5, Sync<G<0>>>;
using sync_pool    = Queued<3, 2, Sync<G<0>>, Pool<P2<0>>>;
using multi_group  = Queued<3, 2, Sync<G<0>>, Sync<G<1>>, Pool<P1<0>>>;
QUIET_SCENARIO(pool_of_one, 1, "every sequence of four priorities behind a running task, single-thread pool", nmc::preempt(1), nmc::preempt(2));
QUIET_SCENARIO(default_pool, 1, "every sequence of four priorities behind a running task, default pool", nmc::preempt(1), nmc::preempt(2));
QUIET_SCENARIO(main_thread, 1, "every sequence of three priorities on the main thread", nmc::preempt(1), nmc::preempt(2));
QUIET_SCENARIO(sync_two, 2, "every sequence of three priorities waiting for a Sync group, two threads", nmc::preempt(0), nmc::preempt(1));
QUIET_SCENARIO(sync_pool, 1, "the same in a pool of two threads of its own", nmc::preempt(1), nmc::preempt(2));

// Submitters race with the worker.  Task X may be started before a better task Y only if Y had not been submitted yet when
// the worker became free.
template <class... W>
struct Racing : Levels<W...> {
    static void ran(int t) {
        // previous task of this worker ended: stamp in cell 3;  cell 40+t: emit of t returned, cell 48+t: emit of t began
        const auto free_at = nmc::cell_get(3);
        nmc::cell_set(20 + t, 1);
        for (int y = 0; y < 4; ++y) {
            const auto sent = nmc::cell_get(40 + y);
            if (y == t || nmc::cell_get(20 + y) != 0 || sent == 0 || sent > free_at) {
                continue;
            }
            const auto lt = nmc::cell_get(30 + t), ly = nmc::cell_get(30 + y);
            NMC_REQUIRE(ly <= lt, "task %d of priority %d was started while task %d of priority %d was waiting", t, int(lt), y, int(ly));
            NMC_REQUIRE(ly != lt || sent > nmc::cell_get(48 + t), "task %d was started before task %d, submitted before it with the same priority %d", t, y, int(lt));
        }
        nmc::event(1, t);
        nmc::cell_set(3, nmc::cell_add(4, 1));
    }
    void put(int level, int t) {
        nmc::cell_set(30 + t, level);
        nmc::cell_set(48 + t, nmc::cell_add(4, 1));
        switch (level) {
            case 0: this->emit(mk<M<10>>(t)); break;
            case 1: this->emit(mk<M<12>>(t)); break;
            default: this->emit(mk<M<14>>(t)); break;
        }
        nmc::cell_set(40 + t, nmc::cell_add(4, 1));
    }
    explicit Racing(std::unique_ptr<NUClear::Environment> e) : Levels<W...>(std::move(e)) {
        this->template on<Trigger<M<10>>, P_0, W...>().then([](const M<10>& m) { ran(m.v); });
        this->template on<Trigger<M<12>>, P_2, W...>().then([](const M<12>& m) { ran(m.v); });
        this->template on<Trigger<M<14>>, P_4, W...>().then([](const M<14>& m) { ran(m.v); });
        this->kick_main([this] {
            put(nmc::choose(3, "priority"), 0);
            put(nmc::choose(3, "priority"), 1);
        });
        this->kick([this] {
            put(nmc::choose(3, "priority"), 2);
        });
    }
    static void check() { NMC_REQUIRE(count(1) == 3, "%d of 3 tasks ran", count(1)); }
};
using racing_single = Racing<Pool<P1<0>>>;
QUIET_SCENARIO(racing_single, 1, "two threads submit three tasks of any priority while the worker takes them", nmc::preempt(1), nmc::preempt(2));
