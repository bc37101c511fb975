// P17: IO reactions see every event of their descriptor once, and no other's.
// Pipes and streams of the virtual kernel (nmc/io.cpp), the real controller.
#include <fcntl.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <unistd.h>

#include "common.hpp"
#include "extension/IOController.hpp"

namespace {

using NUClear::extension::IOController;
using h::Region;
using NUClear::dsl::word::IO;

// Pipes which were opened before the controller (and thus before its own descriptors)
int older[4][2];
int n_older = 0;

struct Pipe {
    int r, w;
    Pipe() {
        int p[2];
        if (n_older > 0) {
            --n_older;
            r = older[n_older][0];
            w = older[n_older][1];
            return;
        }
        NMC_REQUIRE(::pipe(p) == 0, "no pipe");
        r = p[0];
        w = p[1];
    }
};
template <int N, int conc, typename... T>
void setup_older() {
    for (int i = 0; i < N; ++i) {
        NMC_REQUIRE(::pipe(older[i]) == 0, "no pipe");
    }
    n_older = N;
    h::setup<conc, T...>();
}
void put(int fd, char c = 'x') {
    NMC_REQUIRE(::write(fd, &c, 1) == 1, "could not write");
}
char get1(int fd) {
    char c = 0;
    NMC_REQUIRE(nmc::queued(fd) > 0, "a reaction runs for data which is not there");
    NMC_REQUIRE(::read(fd, &c, 1) == 1, "could not read");
    return c;
}
void expect_event(const IO::Event& e, int fd, int asked, const char* who, bool ends = false) {
    NMC_REQUIRE(e.fd == fd, "%s: the event is for descriptor %d instead of %d", who, e.fd, fd);
    NMC_REQUIRE(e.events != 0, "%s: an event without events", who);
    // the end of a stream is reported to everybody
    NMC_REQUIRE((e.events & ~(asked | (ends ? int(IO::CLOSE) : 0))) == 0, "%s: events %x, asked for %x", who, e.events, asked);
}

// A byte per run: exactly as many runs as bytes, in order, never two at once
struct Bytes : h::Kicked {
    Pipe p;
    REACTOR(Bytes) {
        on<IO, Pool<h::P2<1>>>(p.r, IO::READ).then([this](const IO::Event& e) {
            Region in(1, 1, "the reaction");
            expect_event(e, p.r, IO::READ, "reader");
            nmc::event(1, get1(p.r));
        });
        kick([this] {
            put(p.w, 'a');
            nmc::point();
            put(p.w, 'b');
            put(p.w, 'c');
        });
    }
    static void check() {
        NMC_REQUIRE(h::count(1) == 3, "%d of 3 bytes were seen", h::count(1));
        for (int i = 0; i < 3; ++i) {
            NMC_REQUIRE(h::index_of(1, 'a' + i) >= 0, "byte %d is missing", i);
        }
    }
};

// Two descriptors, two reactions in different pools
struct TwoFds : h::Kicked {
    Pipe p, q;
    REACTOR(TwoFds) {
        on<IO, Pool<h::P1<1>>>(p.r, IO::READ).then([this](const IO::Event& e) {
            expect_event(e, p.r, IO::READ, "first");
            nmc::event(1, get1(p.r));
        });
        on<IO>(q.r, IO::READ).then([this](const IO::Event& e) {
            expect_event(e, q.r, IO::READ, "second");
            nmc::event(2, get1(q.r));
        });
        kick<1>([this] {
            put(p.w);
            put(q.w);
        });
        kick_own<2>([this] {
            put(q.w);
            put(p.w);
        });
    }
    static void check() {
        NMC_REQUIRE(h::count(1) == 2 && h::count(2) == 2, "%d of 2 and %d of 2 bytes were seen", h::count(1), h::count(2));
    }
};

// Data and the end of the stream, seen by one reaction for both, or by one for each
template <bool Separate>
struct CloseSeen : h::Kicked {
    Pipe p;
    REACTOR(CloseSeen) {
        if (Separate) {
            this->template on<IO, Pool<h::P1<1>>>(p.r, IO::READ).then([this](const IO::Event& e) {
                expect_event(e, p.r, IO::READ, "reader", true);
                NMC_REQUIRE((e.events & IO::CLOSE) == 0 || !nmc::fd_open(p.w), "closed before it was closed");
                if ((e.events & IO::READ) != 0) {
                    nmc::event(1, get1(p.r));
                }
            });
            this->template on<IO>(p.r, IO::CLOSE).then([this](const IO::Event& e) {
                expect_event(e, p.r, IO::CLOSE, "closer");
                NMC_REQUIRE(!nmc::fd_open(p.w), "closed before it was closed");
                nmc::event(2);
            });
        }
        else {
            this->template on<IO, Pool<h::P1<1>>>(p.r, IO::READ | IO::CLOSE).then([this](const IO::Event& e) {
                Region in(1, 1, "the reaction");
                expect_event(e, p.r, IO::READ | IO::CLOSE, "both");
                if ((e.events & IO::READ) != 0) {
                    NMC_REQUIRE(nmc::queued(p.r) > 0, "nothing to read");
                }
                const bool closed = (e.events & IO::CLOSE) != 0;
                NMC_REQUIRE(!closed || !nmc::fd_open(p.w), "closed before it was closed");
                while (nmc::queued(p.r) > 0) {
                    nmc::event(1, get1(p.r));
                }
                if (closed) {
                    nmc::event(2);
                }
            });
        }
        this->kick([this] {
            put(p.w);
            put(p.w);
            ::close(p.w);
        });
    }
    static void check() {
        NMC_REQUIRE(h::count(2) == 1, "the end was seen %d times", h::count(2));
        NMC_REQUIRE(Separate || h::count(1) == 2, "%d of 2 bytes were seen", h::count(1));
        NMC_REQUIRE(!Separate || h::count(1) == 2, "%d of 2 bytes were seen", h::count(1));
    }
};
using CloseTogether = CloseSeen<false>;
using CloseApart    = CloseSeen<true>;

// A stream socket: reading and writing of the same descriptor
struct Stream {
    int a, b;
    Stream() {
        int s[2];
        NMC_REQUIRE(::socketpair(AF_UNIX, SOCK_STREAM, 0, s) == 0, "no socket pair");
        a = s[0];
        b = s[1];
    }
};
struct ReadWrite : h::Kicked {
    Stream s;
    ReactionHandle writer;
    REACTOR(ReadWrite) {
        on<IO, Pool<h::P1<1>>>(s.a, IO::READ).then([this](const IO::Event& e) {
            expect_event(e, s.a, IO::READ, "reader");
            nmc::event(1, get1(s.a));
        });
        writer = on<IO>(s.a, IO::WRITE).then([this](const IO::Event& e) {
            expect_event(e, s.a, IO::WRITE, "writer");
            put(s.a, 'y');
            nmc::event(2);
            if (nmc::cell_add(5, 1) == 2) {
                writer.unbind();
            }
        });
        kick_main([this] {
            put(s.b);
            put(s.b);
        });
    }
    static void check() {
        NMC_REQUIRE(h::count(1) == 2, "%d of 2 bytes were read", h::count(1));
        NMC_REQUIRE(h::count(2) >= 2, "only %d times writable", h::count(2));
    }
};

// The other end of a stream goes away: a reader gets the end of the stream once although it did not ask for it by name
struct StreamEnd : h::Kicked {
    Stream s;
    REACTOR(StreamEnd) {
        on<IO, Pool<h::P1<1>>>(s.a, IO::READ | IO::CLOSE).then([this](const IO::Event& e) {
            Region in(1, 1, "the reaction");
            expect_event(e, s.a, IO::READ | IO::CLOSE, "both");
            const bool closed = (e.events & IO::CLOSE) != 0;
            NMC_REQUIRE(!closed || !nmc::fd_open(s.b), "closed before it was closed");
            NMC_REQUIRE(closed || nmc::queued(s.a) > 0, "nothing to read");
            while (nmc::queued(s.a) > 0) {
                nmc::event(1, get1(s.a));
            }
            if (closed) {
                nmc::event(2);
            }
        });
        kick([this] {
            put(s.b);
            put(s.b);
            ::close(s.b);
        });
    }
    static void check() {
        NMC_REQUIRE(h::count(1) == 2, "%d of 2 bytes were read", h::count(1));
        NMC_REQUIRE(h::count(2) == 1, "the end was seen %d times", h::count(2));
    }
};

// Others come and go: events of the descriptor that stays are not lost, and the one that leaves gets nothing afterwards
struct ComeAndGo : h::Kicked {
    Pipe p, q;
    ReactionHandle other;
    REACTOR(ComeAndGo) {
        on<IO, Pool<h::P1<1>>>(p.r, IO::READ).then([this](const IO::Event& e) {
            expect_event(e, p.r, IO::READ, "stays");
            nmc::event(1, get1(p.r));
        });
        kick_own<2>([this] {
            other = on<IO>(q.r, IO::READ).then([this](const IO::Event& e) {
                expect_event(e, q.r, IO::READ, "goes");
                NMC_REQUIRE(nmc::cell_get(6) == 0, "a reaction got data which was written after it was unbound");
                nmc::event(2);
            });
            nmc::point();
            other.unbind();
            nmc::cell_add(6, 1);
            put(q.w);
        });
        kick<1>([this] {
            put(p.w);
            put(p.w);
        });
    }
    static void check() {
        NMC_REQUIRE(h::count(1) == 2, "%d of 2 bytes were seen", h::count(1));
        NMC_REQUIRE(h::count(2) == 0, "the other reaction ran without data");
    }
};

// A descriptor is unbound and closed, and its number is reused for another one at once
template <bool Data>
struct Reuse : h::Kicked {
    ReactionHandle first, second;
    int fd1{-1};
    REACTOR(Reuse) {
        this->kick([this] {
            Pipe p;
            fd1   = p.r;
            first = this->template on<IO, Pool<h::P1<1>>>(p.r, IO::READ).then([this](const IO::Event& e) {
                expect_event(e, fd1, IO::READ, "first");
                if (nmc::queued(e.fd) > 0 && nmc::cell_get(6) == 0) {
                    get1(e.fd);
                }
                nmc::event(1);
            });
            if (Data) {
                put(p.w);
            }
            nmc::point();
            first.unbind();
            nmc::cell_set(6, 1);
            ::close(p.r);
            Pipe n;
            NMC_REQUIRE(n.r == p.r, "the number is not reused");
            second = this->template on<IO>(n.r, IO::READ).then([n](const IO::Event& e) {
                expect_event(e, n.r, IO::READ, "second");
                nmc::event(2, get1(n.r));
            });
            nmc::point();
            put(n.w);
        });
    }
    static void check() {
        NMC_REQUIRE(h::count(1) <= (Data ? 1 : 0), "the first reaction ran %d times", h::count(1));
        NMC_REQUIRE(h::count(2) == 1, "the second reaction ran %d times", h::count(2));
    }
};
using ReuseQuiet = Reuse<false>;
using ReuseData  = Reuse<true>;

// A reaction which unbinds itself while it handles an event
struct SelfUnbind : h::Kicked {
    Pipe p, q;
    ReactionHandle self;
    REACTOR(SelfUnbind) {
        self = on<IO, Pool<h::P1<1>>>(p.r, IO::READ).then([this](const IO::Event&) {
            get1(p.r);
            self.unbind();
            nmc::event(1);
        });
        on<IO>(q.r, IO::READ).then([this](const IO::Event&) { nmc::event(2, get1(q.r)); });
        kick([this] {
            put(p.w);
            put(q.w);
            put(p.w);
            put(q.w);
        });
    }
    static void check() {
        NMC_REQUIRE(h::count(1) == 1, "the reaction which unbound itself ran %d times", h::count(1));
        NMC_REQUIRE(h::count(2) == 2, "the other saw %d of 2 bytes", h::count(2));
    }
};

// A disabled reaction misses nothing: what is still there when it is enabled is delivered then; binding another one in
// between makes no difference
template <bool Rebind>
struct Disabled : h::Kicked {
    Pipe p, q;
    ReactionHandle handle;
    REACTOR(Disabled) {
        handle = this->template on<IO, Pool<h::P1<1>>>(p.r, IO::READ).then([this](const IO::Event&) { nmc::event(1, get1(p.r)); });
        this->kick([this] {
            handle.disable();
            put(p.w);
            nmc::point();
            if (Rebind) {
                this->template on<IO>(q.r, IO::READ).then([this](const IO::Event&) { nmc::event(2, get1(q.r)); });
                put(q.w);
            }
            nmc::point();
            handle.enable();
        });
    }
    static void check() {
        NMC_REQUIRE(h::count(1) == 1, "%d of 1 bytes were seen", h::count(1));
        NMC_REQUIRE(h::count(2) == (Rebind ? 1 : 0), "the other reaction ran %d times", h::count(2));
    }
};
using DisabledOnly   = Disabled<false>;
using DisabledRebind = Disabled<true>;

// Words which refuse a task while another is active do not lose events
struct WithSingle : h::Kicked {
    Pipe p;
    REACTOR(WithSingle) {
        on<IO, Single, Pool<h::P2<1>>>(p.r, IO::READ).then([this](const IO::Event&) { nmc::event(1, get1(p.r)); });
        kick([this] {
            put(p.w);
            put(p.w);
        });
    }
    static void check() {
        NMC_REQUIRE(h::count(1) == 2, "%d of 2 bytes were seen", h::count(1));
    }
};
// A handler which throws has handled its event
struct Throws : h::Kicked {
    Pipe p;
    REACTOR(Throws) {
        on<IO, Pool<h::P1<1>>>(p.r, IO::READ).then([this](const IO::Event&) {
            nmc::event(1, get1(p.r));
            throw 1;
        });
        kick([this] {
            put(p.w);
            put(p.w);
        });
    }
    static void check() {
        NMC_REQUIRE(h::count(1) == 2, "%d of 2 bytes were seen", h::count(1));
    }
};
// Shutdown while data arrives: everything ends
struct Ends : h::Kicked {
    Pipe p;
    REACTOR(Ends) {
        on<IO, Pool<h::P1<1>>>(p.r, IO::READ).then([this](const IO::Event&) { nmc::event(1, get1(p.r)); });
        kick<1>([this] {
            put(p.w);
            powerplant.shutdown();
        });
        kick_own<2>([this] { put(p.w); });
    }
    static void check() {
        NMC_REQUIRE(h::count(1) <= 2, "more runs than bytes");
    }
};

}  // namespace

#define IO_SCENARIO(T, CONC, WHAT, QUICK, THOROUGH) \
    NMC_SCENARIO(#T, WHAT, (&h::setup<CONC, IOController, T>), &h::run_until_quiet<T>, QUICK, THOROUGH)

IO_SCENARIO(Bytes, 1, "one byte per run", nmc::delays(2).secs(10), nmc::delays(3).secs(600));
IO_SCENARIO(TwoFds, 1, "two descriptors", nmc::delays(2).secs(10), nmc::delays(3).secs(600));
IO_SCENARIO(CloseTogether, 1, "data and the end of a pipe in one reaction", nmc::delays(2).secs(10), nmc::delays(3).secs(600));
IO_SCENARIO(CloseApart, 1, "data and the end of a pipe in two reactions", nmc::delays(2).secs(10), nmc::delays(3).secs(600));
IO_SCENARIO(ReadWrite, 1, "readable and writable on one descriptor", nmc::delays(2).secs(10), nmc::delays(3).secs(600));
IO_SCENARIO(StreamEnd, 1, "the end of a stream", nmc::delays(2).secs(10), nmc::delays(3).secs(600));
IO_SCENARIO(ComeAndGo, 1, "another reaction is bound and unbound", nmc::delays(2).secs(10), nmc::delays(3).secs(600));
IO_SCENARIO(ReuseQuiet, 1, "a descriptor number is reused", nmc::delays(2).secs(10), nmc::delays(3).secs(600));
IO_SCENARIO(ReuseData, 1, "a descriptor number is reused after data arrived on it", nmc::delays(2).secs(10), nmc::delays(3).secs(600));
IO_SCENARIO(SelfUnbind, 1, "a reaction unbinds itself", nmc::delays(2).secs(10), nmc::delays(3).secs(600));
IO_SCENARIO(DisabledOnly, 1, "data arrives while the reaction is disabled", nmc::delays(2).secs(10), nmc::delays(3).secs(600));
IO_SCENARIO(DisabledRebind, 1, "and another one is bound meanwhile", nmc::delays(2).secs(10), nmc::delays(3).secs(600));
IO_SCENARIO(WithSingle, 1, "combined with Single", nmc::delays(2).secs(10), nmc::delays(3).secs(600));
IO_SCENARIO(Throws, 1, "the handler throws", nmc::delays(2).secs(10), nmc::delays(3).secs(600));
#define IO_OLDER(N, T, WHAT, QUICK, THOROUGH)                                                                       \
    NMC_SCENARIO(#T "_older" #N, WHAT ", opened before the controller", (&setup_older<N, 1, IOController, T>), \
                 &h::run_until_quiet<T>, QUICK, THOROUGH)
IO_OLDER(1, Bytes, "one byte per run", nmc::delays(2).secs(10), nmc::delays(3).secs(600));
IO_OLDER(1, TwoFds, "two descriptors, one of them", nmc::delays(2).secs(10), nmc::delays(3).secs(600));
IO_OLDER(2, TwoFds, "two descriptors", nmc::delays(2).secs(10), nmc::delays(3).secs(600));
IO_OLDER(1, CloseTogether, "data and the end of a pipe in one reaction", nmc::delays(2).secs(10), nmc::delays(3).secs(600));
IO_OLDER(1, CloseApart, "data and the end of a pipe in two reactions", nmc::delays(2).secs(10), nmc::delays(3).secs(600));
IO_OLDER(1, WithSingle, "combined with Single", nmc::delays(2).secs(10), nmc::delays(3).secs(600));
IO_OLDER(1, Throws, "the handler throws", nmc::delays(2).secs(10), nmc::delays(3).secs(600));
NMC_SCENARIO("Ends", "shutdown while data arrives", (&h::setup<1, IOController, Ends>), &h::run_to_shutdown<Ends>,
             nmc::delays(2).secs(10), nmc::delays(3).secs(600));
