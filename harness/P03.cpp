// P03: the lock-free queues hand over every item exactly once, in producer order, and free everything.
#include <memory>
#include <thread>
#include <vector>

#include "nmc.h"
#include "threading/scheduler/queue/MPSCQueue.hpp"
#include "threading/scheduler/queue/TaskQueue.hpp"

namespace {

constexpr int LIVE = 60, STAMP = 61, DONE = 50, TAKEN = 51, INSIDE = 52;

// An item which owns memory, counts itself and can tell whether it is alive
struct Item {
    std::unique_ptr<int> v;
    Item() { nmc::cell_add(LIVE, 1); }
    explicit Item(int x) : v(new int(x)) { nmc::cell_add(LIVE, 1); }
    Item(Item&& o) noexcept : v(std::move(o.v)) { nmc::cell_add(LIVE, 1); }
    Item& operator=(Item&& o) noexcept {
        v = std::move(o.v);
        return *this;
    }
    ~Item() { nmc::cell_add(LIVE, -1); }
};

using MPMC = NUClear::threading::scheduler::queue::TaskQueue<Item>;
using MPSC = NUClear::threading::scheduler::queue::MPSCQueue<Item>;

// Observations, one slot per item: when its dequeue began and ended
struct Taken {
    int begin, end, by;
};

template <class Q>
struct World {
    Q* q;
    int n_items[4]{};
    Taken got[4][8]{};
    int count[4][8]{};

    void produce(int who, int n) {
        for (int i = 0; i < n; ++i) {
            q->enqueue(Item(who * 8 + i));
            nmc::cell_add(DONE, 1);
        }
    }
    // one dequeue attempt; multi: other consumers may be inside
    bool take(int by, bool single) {
        const int e0 = nmc::cell_get(DONE);
        const int b  = nmc::cell_add(STAMP, 1);
        Item it;
        const bool ok = q->try_dequeue(it);
        const int e   = nmc::cell_add(STAMP, 1);
        if (!ok) {
            if (single) {
                NMC_REQUIRE(e0 <= nmc::cell_get(TAKEN),
                            "the queue claims to be empty although %d items were enqueued and %d taken",
                            e0,
                            int(nmc::cell_get(TAKEN)));
            }
            return false;
        }
        nmc::cell_add(TAKEN, 1);
        NMC_REQUIRE(it.v != nullptr, "dequeued an empty item");
        const int w = *it.v / 8;
        const int i = *it.v % 8;
        NMC_REQUIRE(w >= 0 && w < 4 && i < n_items[w], "dequeued an item nobody sent: %d", *it.v);
        nmc::ignore_begin();
        const int times = ++count[w][i];
        got[w][i]       = Taken{b, e, by};
        nmc::ignore_end();
        NMC_REQUIRE(times == 1, "item %d of producer %d was delivered twice", i, w);
        return true;
    }
    void verify_all() {
        for (int w = 0; w < 4; ++w) {
            for (int i = 0; i < n_items[w]; ++i) {
                NMC_REQUIRE(count[w][i] == 1, "item %d of producer %d was lost", i, w);
                for (int j = i + 1; j < n_items[w]; ++j) {
                    NMC_REQUIRE(!(got[w][j].end < got[w][i].begin),
                                "item %d of producer %d was dequeued before item %d",
                                j,
                                w,
                                i);
                }
            }
        }
    }
};

template <class Q>
void scramble(Q* q, int offset) {
    // move the queue to `offset` slots into its block
    for (int i = 0; i < offset; ++i) {
        q->enqueue(Item(99));
        Item it;
        NMC_REQUIRE(q->try_dequeue(it) && *it.v == 99, "a queue with one item did not return it");
    }
}

// Producers P (items each) against consumers C, attempts each; what remains is drained at the end or left to the destructor
template <class Q, int Producers, int Items, int Consumers, int Attempts, int Preload>
void run(const std::vector<int>& offsets, bool leave, bool weak = false) {
    const auto base = nmc::live_blocks();
    {
        World<Q> w;
        w.q           = new Q();
        const int off = offsets[nmc::choose(int(offsets.size()), "offset")];
        scramble(w.q, off);
        w.n_items[0] = Preload;
        w.produce(0, Preload);
        for (int p = 1; p <= Producers; ++p) {
            w.n_items[p] = Items;
        }
        {
            std::vector<std::thread> ts;
            ts.reserve(8);
            for (int p = 1; p <= Producers; ++p) {
                ts.emplace_back([&w, p] { w.produce(p, Items); });
            }
            for (int c = 1; c < Consumers; ++c) {
                ts.emplace_back([&w, c] {
                    for (int i = 0; i < Attempts; ++i) {
                        w.take(c, false);
                    }
                });
            }
            for (int i = 0; i < Attempts; ++i) {
                // with stale reads only an enqueue which happened before (not just earlier) has to be visible
                w.take(0, Consumers == 1 && !weak);
            }
            for (auto& t : ts) {
                t.join();
            }
        }
        if (!leave) {
            while (w.take(0, true)) {
            }
            w.verify_all();
        }
        delete w.q;
    }
    NMC_REQUIRE(nmc::cell_get(LIVE) == 0, "%d items were never destroyed (or too often)", int(nmc::cell_get(LIVE)));
    NMC_REQUIRE(nmc::live_blocks() == base, "%d blocks of memory leaked", int(nmc::live_blocks() - base));
}

nmc::Options weak(int b) {
    nmc::Options o = nmc::preempt(b);
    o.weak         = true;
    return o;
}

void mpmc_boundary() { run<MPMC, 1, 3, 1, 2, 0>({62, 63}, false); }
void mpmc_producers() { run<MPMC, 2, 1, 1, 1, 0>({63, 64, 127}, false); }
void mpmc_consumers() { run<MPMC, 1, 1, 2, 1, 1>({0, 63, 64}, false); }
void mpmc_drain() { run<MPMC, 0, 0, 3, 1, 3>({61, 62, 63}, false); }
void mpmc_mixed() { run<MPMC, 2, 1, 2, 1, 1>({62, 63}, false); }
void mpmc_leave() { run<MPMC, 2, 1, 1, 1, 1>({62, 63, 64}, true); }
void mpsc_boundary() { run<MPSC, 1, 3, 1, 2, 0>({62, 63}, false); }
void mpsc_producers() { run<MPSC, 2, 1, 1, 2, 0>({63, 64, 127}, false); }
void mpsc_mixed() { run<MPSC, 2, 2, 1, 2, 0>({61, 62, 63}, false); }
void mpsc_leave() { run<MPSC, 2, 1, 1, 1, 1>({62, 63, 64}, true); }
void mpmc_weak() { run<MPMC, 1, 2, 1, 2, 0>({63}, false, true); }
void mpmc_weak2() { run<MPMC, 1, 1, 2, 1, 1>({63}, false, true); }
void mpsc_weak() { run<MPSC, 1, 2, 1, 2, 0>({63}, false, true); }

NMC_SCENARIO("mpmc_boundary", "one producer, one consumer crossing a block boundary", nullptr, &mpmc_boundary, nmc::preempt(4), nmc::preempt(7));
NMC_SCENARIO("mpmc_producers", "two producers link the next block at once", nullptr, &mpmc_producers, nmc::preempt(3), nmc::preempt(6));
NMC_SCENARIO("mpmc_consumers", "two consumers and a producer around a boundary", nullptr, &mpmc_consumers, nmc::preempt(3), nmc::preempt(5));
NMC_SCENARIO("mpmc_drain", "three consumers drain a queue across a boundary", nullptr, &mpmc_drain, nmc::preempt(3), nmc::preempt(5));
NMC_SCENARIO("mpmc_mixed", "two producers and two consumers", nullptr, &mpmc_mixed, nmc::preempt(3), nmc::preempt(4));
NMC_SCENARIO("mpmc_leave", "items left in the queue are destroyed with it", nullptr, &mpmc_leave, nmc::preempt(3), nmc::preempt(6));
NMC_SCENARIO("mpsc_boundary", "single consumer: one producer crossing a block boundary", nullptr, &mpsc_boundary, nmc::preempt(4), nmc::preempt(8));
NMC_SCENARIO("mpsc_producers", "single consumer: two producers link the next block at once", nullptr, &mpsc_producers, nmc::preempt(3), nmc::preempt(6));
NMC_SCENARIO("mpsc_mixed", "single consumer: two producers of two items", nullptr, &mpsc_mixed, nmc::preempt(3), nmc::preempt(5));
NMC_SCENARIO("mpsc_leave", "single consumer: items left in the queue are destroyed with it", nullptr, &mpsc_leave, nmc::preempt(3), nmc::preempt(6));
NMC_SCENARIO("mpmc_weak", "stale reads: one producer, one consumer", nullptr, &mpmc_weak, weak(4), weak(6));
NMC_SCENARIO("mpmc_weak2", "stale reads: two consumers", nullptr, &mpmc_weak2, weak(3), weak(4));
NMC_SCENARIO("mpsc_weak", "single consumer, stale reads", nullptr, &mpsc_weak, weak(4), weak(6));

}  // namespace
