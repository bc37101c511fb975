// P28: task scopes tell a task exactly which scope it runs in.
// Programs of nested inline emissions, exceptions and lock moves, enumerated by choices and compared with a stack.
#include "common.hpp"

namespace {

struct SX {};
struct SY {};
using X = NUClear::dsl::word::TaskScope<SX>;
using Y = NUClear::dsl::word::TaskScope<SY>;

struct Boom {};

using NUClear::threading::ReactionTask;

void expect(bool x, bool y, const char* where) {
    NMC_REQUIRE(X::in_scope() == x, "%s: the thread is %sin scope X", where, x ? "not " : "");
    NMC_REQUIRE(Y::in_scope() == y, "%s: the thread is %sin scope Y", where, y ? "not " : "");
}

struct Next {
    explicit Next(int d) : depth(d) {}
    int depth;
};
template <int I>
struct N : Next {
    using Next::Next;
};

template <bool Locks>
struct Programs : h::Kicked {
    void emit_kind(int kind, int depth) {
        using Inl = void;
        (void) sizeof(Inl*);
        switch (kind) {
            case 0: this->template emit<NUClear::dsl::word::emit::Inline>(std::make_unique<N<0>>(depth)); break;
            case 1: this->template emit<NUClear::dsl::word::emit::Inline>(std::make_unique<N<1>>(depth)); break;
            case 2: this->template emit<NUClear::dsl::word::emit::Inline>(std::make_unique<N<2>>(depth)); break;
            case 3: this->template emit<NUClear::dsl::word::emit::Inline>(std::make_unique<N<3>>(depth)); break;
        }
    }

    // takes locks by hand in a task which is in neither scope, or in one already
    void locks(bool x, bool y) {
        const ReactionTask* t = ReactionTask::get_current_task();
        {
            auto a = X::template scope<void>(*t);
            expect(true, y, "with a lock");
            switch (nmc::choose(6, "lock")) {
                case 0: break;
                case 1: {  // moved on: the new one holds it
                    {
                        auto b = std::move(a);
                        expect(true, y, "after moving the lock");
                    }
                    expect(x, y, "after the end of the new lock");
                } break;
                case 2: {  // a second lock, assigned onto the emptied one
                    auto b = std::move(a);
                    a      = std::move(b);
                    expect(true, y, "after moving the lock there and back");
                } break;
                case 3: {  // chained assignment
                    auto b          = std::move(a);
                    auto c          = std::move(b);
                    typename X::Lock& r = (a = std::move(c));
                    NMC_REQUIRE(&r == &a, "the assignment returns something else");
                    typename X::Lock& s = a;
                    a                   = std::move(s);
                    expect(true, y, "after assigning the lock to itself");
                } break;
                case 4: {  // onto an empty lock which was taken when something else was to be restored
                    {
                        auto b = X::template scope<void>(*t);
                        {
                            auto c = std::move(b);
                        }
                        expect(true, y, "after the end of an inner lock");
                        b = std::move(a);
                        expect(true, y, "after assigning the lock to an older one");
                    }
                    expect(x, y, "after the end of the lock it was assigned to");
                } break;
                case 5: {  // a lock made elsewhere is the empty one
                    auto b = X::template scope<void>(*t);
                    auto c = std::move(a);
                    a      = std::move(b);
                    expect(true, y, "after exchanging locks");
                    {
                        auto d = std::move(a);
                    }
                    expect(true, y, "after the end of the inner lock");
                } break;
            }
            if (nmc::choose(2, "inner")) {
                auto c = Y::template scope<void>(*t);
                NMC_REQUIRE(Y::in_scope(), "not in scope Y with a lock");
            }
        }
        expect(x, y, "after the lock");
    }

    void program(bool x, bool y, int depth) {
        expect(x, y, "at the start");
        // a program has so many operations in all, wherever they are
        const int budget = Locks ? (nmc::thorough() ? 4 : 3) : (nmc::thorough() ? 5 : 4);
        while (nmc::cell_get(1) < budget) {
            const int op = nmc::choose(Locks ? 7 : 6, "op");
            if (op == 0) {
                break;
            }
            nmc::cell_add(1, 1);
            if (op == 1) {
                expect(x, y, "before throwing");
                throw Boom{};
            }
            else if (op == 6) {
                locks(x, y);
            }
            else {
                emit_kind(op - 2, depth + 1);
            }
            expect(x, y, "after a nested emission");
        }
        expect(x, y, "at the end");
    }

    REACTOR(Programs) {
        using NUClear::dsl::word::Trigger;
        this->template on<Trigger<N<0>>>().then([this](const N<0>& n) { program(false, false, n.depth); });
        this->template on<Trigger<N<1>>, X>().then([this](const N<1>& n) { program(true, false, n.depth); });
        this->template on<Trigger<N<2>>, Y>().then([this](const N<2>& n) { program(false, true, n.depth); });
        this->template on<Trigger<N<3>>, X, Y>().then([this](const N<3>& n) { program(true, true, n.depth); });
        this->kick([this] {
            expect(false, false, "in the root");
            emit_kind(nmc::choose(4, "root"), 0);
            expect(false, false, "back in the root");
            // and the next task of the same thread
            this->emit(std::make_unique<h::M<7>>(0));
        });
        this->template on<Trigger<h::M<7>>>().then([] {
            expect(false, false, "in a later task");
            nmc::event(7);
        });
    }
    static void check() {
        NMC_REQUIRE(h::count(7) == 1, "the later task did not run");
        expect(false, false, "outside of tasks");
    }
};
using Nested = Programs<false>;
using Locks  = Programs<true>;

// Two threads are in different scopes at the same time; the same reaction runs in several threads
struct Threads : h::Kicked {
    REACTOR(Threads) {
        on<Trigger<h::M<0>>, X>().then([this](const h::M<0>& m) {
            expect(true, false, "X");
            nmc::point();
            expect(true, false, "X");
            if (m.v == 1) {
                emit<Scope::INLINE>(h::mk<h::M<2>>(0));
            }
            expect(true, false, "X");
            nmc::event(1);
        });
        on<Trigger<h::M<1>>, Y>().then([] {
            expect(false, true, "Y");
            nmc::point();
            expect(false, true, "Y");
            nmc::event(1);
        });
        on<Trigger<h::M<2>>>().then([] {
            expect(false, false, "neither");
            nmc::point();
            expect(false, false, "neither");
            nmc::event(1);
        });
        kick([this] {
            emit(h::mk<h::M<0>>(0));
            emit(h::mk<h::M<1>>(0));
            emit(h::mk<h::M<0>>(1));
            emit(h::mk<h::M<2>>(0));
        });
    }
    static void check() {
        NMC_REQUIRE(h::count(1) == 5, "%d of 5 tasks ran", h::count(1));
    }
};

// Network emissions and other built-in users aside: a scope also covers the condition and the epilogue of the words
// around the callback in the order they were bound, and a message emitted from a scope starts outside of it
struct Emitted : h::Kicked {
    REACTOR(Emitted) {
        on<Trigger<h::M<0>>, X>().then([this] {
            emit(h::mk<h::M<1>>(0));
            expect(true, false, "after emitting");
        });
        on<Trigger<h::M<1>>>().then([] {
            expect(false, false, "in the emitted task");
            nmc::event(1);
        });
        on<Trigger<h::M<1>>, Y>().then([] {
            expect(false, true, "in the emitted task");
            nmc::event(1);
        });
        kick([this] { emit(h::mk<h::M<0>>(0)); });
    }
    static void check() {
        NMC_REQUIRE(h::count(1) == 2, "%d of 2 tasks ran", h::count(1));
    }
};

}  // namespace

QUIET_SCENARIO(Nested, 1, "every program of nested inline emissions and exceptions", nmc::delays(0).secs(40), nmc::delays(0).secs(600));
QUIET_SCENARIO(Locks, 1, "the same with locks which are moved and assigned", nmc::delays(0).secs(40), nmc::delays(0).secs(600));
QUIET_SCENARIO(Threads, 2, "tasks in different scopes at the same time", nmc::delays(1).secs(40), nmc::delays(3).secs(600));
QUIET_SCENARIO(Emitted, 2, "tasks emitted from a scope start outside of it", nmc::delays(1).secs(30), nmc::preempt(2).secs(600));
