// P27: a file descriptor wrapper closes its descriptor exactly once.
// Every sequence of operations on three wrappers up to a depth, on the virtual descriptors of nmc/io.cpp, against a model
// which only knows who owns what.
#include <array>
#include <fcntl.h>
#include <memory>
#include <unistd.h>

#include "common.hpp"
#include "util/FileDescriptor.hpp"

using NUClear::fd_t;
using NUClear::util::FileDescriptor;

namespace {

enum : int { ABSENT = -2, EMPTY = -1 };  // what a slot holds, otherwise an index into Model::d

struct Desc {
    int fd;
    bool has_cleanup;
    int cleanups;
    bool closed, released;
    int closes_before;  // fd numbers are reused
};

constexpr int SLOTS = 3;
struct World {
    std::array<std::unique_ptr<FileDescriptor>, SLOTS> w;
    std::array<int, SLOTS> owns{{ABSENT, ABSENT, ABSENT}};
    std::array<Desc, 16> d{};
    int n = 0;
};

void close_model(World& m, int slot) {
    if (m.owns[slot] >= 0) {
        m.d[m.owns[slot]].closed = true;
    }
    m.owns[slot] = EMPTY;
}

void compare(World& m, const char* op) {
    for (int i = 0; i < m.n; ++i) {
        const Desc& d = m.d[i];
        const int want = d.closed && d.has_cleanup ? 1 : 0;
        NMC_REQUIRE(d.cleanups == want, "%s: the clean-up of descriptor %d ran %d times, expected %d", op, i, d.cleanups, want);
        bool reused = false;
        for (int j = i + 1; j < m.n; ++j) {
            reused |= m.d[j].fd == d.fd;
        }
        if (!reused) {
            NMC_REQUIRE(nmc::fd_open(d.fd) == !d.closed,
                        "%s: descriptor %d is %s", op, i, d.closed ? "still open" : "closed although it is in use");
        }
    }
    NMC_REQUIRE(nmc::bad_closes() == 0, "%s: a descriptor which was not open has been closed", op);
    for (int s = 0; s < SLOTS; ++s) {
        if (m.owns[s] == ABSENT) {
            continue;
        }
        const bool valid = m.w[s]->valid();
        NMC_REQUIRE(valid == (m.owns[s] >= 0), "%s: wrapper %d says valid=%d", op, s, int(valid));
        const int fd = m.owns[s] >= 0 ? m.d[m.owns[s]].fd : INVALID_SOCKET;
        NMC_REQUIRE(m.w[s]->get() == fd, "%s: wrapper %d holds %d, expected %d", op, s, m.w[s]->get(), fd);
        NMC_REQUIRE(fd_t(*m.w[s]) == fd, "%s: wrapper %d converts to %d, expected %d", op, s, fd_t(*m.w[s]), fd);
    }
}

// errno left over from elsewhere must not matter
void stale_errno(int v) {
    errno = v;
}

template <bool Errno>
void sequences() {
    const int depth = nmc::thorough() ? 7 : 6;
    World m;
    for (int step = 0; step < depth; ++step) {
        // slots are interchangeable at the start: the first operation is always a construction in slot 0
        const int op = step == 0 ? nmc::choose(2, "first") : nmc::choose(8, "op");
        const int s  = step == 0 ? 0 : nmc::choose(SLOTS, "slot");
        stale_errno(Errno ? EBADF : 0);
        switch (op) {
            case 0:    // a wrapper with a clean-up
            case 1: {  // and without
                if (m.owns[s] != ABSENT) {
                    nmc::prune();
                }
                int p[2];
                NMC_REQUIRE(::pipe(p) == 0, "no pipe");
                ::close(p[1]);
                const int i = m.n++;
                m.d[i]      = Desc{p[0], op == 0, 0, false, false, 0};
                World* pm   = &m;
                if (op == 0) {
                    m.w[s].reset(new FileDescriptor(p[0], [pm, i](const fd_t& fd) {
                        NMC_REQUIRE(fd == pm->d[i].fd, "the clean-up of descriptor %d got %d", pm->d[i].fd, fd);
                        NMC_REQUIRE(nmc::fd_open(fd), "the clean-up ran after its descriptor was closed");
                        ++pm->d[i].cleanups;
                    }));
                }
                else {
                    m.w[s].reset(new FileDescriptor(p[0]));
                }
                m.owns[s] = i;
                compare(m, "construct");
            } break;
            case 2: {  // move construction
                const int from = nmc::choose(SLOTS, "from");
                if (m.owns[s] != ABSENT || m.owns[from] == ABSENT) {
                    nmc::prune();
                }
                m.w[s].reset(new FileDescriptor(std::move(*m.w[from])));
                m.owns[s]    = m.owns[from];
                m.owns[from] = EMPTY;
                compare(m, "move construction");
            } break;
            case 3: {  // move assignment, also onto itself
                const int from = nmc::choose(SLOTS, "from");
                if (m.owns[s] == ABSENT || m.owns[from] == ABSENT) {
                    nmc::prune();
                }
                FileDescriptor& r = (*m.w[s] = std::move(*m.w[from]));
                NMC_REQUIRE(&r == m.w[s].get(), "assignment returns something else");
                if (from != s) {
                    const int o = m.owns[from];
                    close_model(m, s);
                    m.owns[s]    = o;
                    m.owns[from] = EMPTY;
                }
                compare(m, from == s ? "assignment to itself" : "move assignment");
            } break;
            case 4: {  // release
                if (m.owns[s] == ABSENT) {
                    nmc::prune();
                }
                const int fd   = m.w[s]->release();
                const int want = m.owns[s] >= 0 ? m.d[m.owns[s]].fd : INVALID_SOCKET;
                NMC_REQUIRE(fd == want, "release returned %d, expected %d", fd, want);
                if (m.owns[s] >= 0) {
                    m.d[m.owns[s]].released = true;
                }
                m.owns[s] = EMPTY;
                compare(m, "release");
            } break;
            case 5:  // close
                if (m.owns[s] == ABSENT) {
                    nmc::prune();
                }
                m.w[s]->close();
                close_model(m, s);
                compare(m, "close");
                break;
            case 6:  // destruction
                if (m.owns[s] == ABSENT) {
                    nmc::prune();
                }
                m.w[s].reset();
                close_model(m, s);
                m.owns[s] = ABSENT;
                compare(m, "destruction");
                break;
            case 7:  // an empty wrapper
                if (m.owns[s] != ABSENT) {
                    nmc::prune();
                }
                m.w[s].reset(new FileDescriptor());
                m.owns[s] = EMPTY;
                compare(m, "empty construction");
                break;
        }
    }
    for (int s = 0; s < SLOTS; ++s) {
        m.w[s].reset();
        if (m.owns[s] != ABSENT) {
            close_model(m, s);
        }
    }
    for (int s = 0; s < SLOTS; ++s) {
        m.owns[s] = ABSENT;
    }
    compare(m, "the end");
    int released = 0;
    for (int i = 0; i < m.n; ++i) {
        released += m.d[i].released ? 1 : 0;
    }
    NMC_REQUIRE(nmc::open_fds() == released, "%d descriptors are open at the end, expected %d", nmc::open_fds(), released);
}

// A descriptor which was closed behind the wrapper's back is reported as invalid, and the number is not closed once more
void closed_elsewhere() {
    int p[2];
    NMC_REQUIRE(::pipe(p) == 0, "no pipe");
    int cleanups = 0;
    {
        FileDescriptor f(p[0], [&](const fd_t&) { ++cleanups; });
        NMC_REQUIRE(f.valid(), "not valid after construction");
        ::close(p[0]);
        NMC_REQUIRE(!f.valid(), "valid although the descriptor is closed");
        const int how = nmc::choose(4, "how");
        if (how == 1) {
            f.close();
        }
        else if (how == 2) {
            FileDescriptor g(std::move(f));
            NMC_REQUIRE(!g.valid(), "valid although the descriptor is closed");
        }
        else if (how == 3) {
            f = FileDescriptor(p[1]);
            NMC_REQUIRE(f.valid(), "not valid");
        }
    }
    NMC_REQUIRE(cleanups == 0, "the clean-up ran for a descriptor which was not open");
    NMC_REQUIRE(nmc::bad_closes() == 0, "a closed descriptor was closed again");
}

}  // namespace

NMC_SCENARIO("sequences",
             "every sequence of operations on three wrappers",
             nullptr,
             &sequences<false>,
             nmc::preempt(0).secs(60),
             nmc::preempt(0).secs(600));
NMC_SCENARIO("stale_errno",
             "every sequence of operations, errno is EBADF before each",
             nullptr,
             &sequences<true>,
             nmc::preempt(0).secs(60),
             nmc::preempt(0).secs(600));
NMC_SCENARIO("closed_elsewhere",
             "the descriptor is closed behind the wrapper's back",
             nullptr,
             &closed_elsewhere,
             nmc::preempt(0),
             nmc::preempt(0));
