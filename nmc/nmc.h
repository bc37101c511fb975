// nmc: a stateless model checker for multi-threaded C++ compiled with -fsanitize=thread instrumentation.
// Harness-side interface.  Everything declared here is implemented in libnmc.so, which is not instrumented.
#ifndef NMC_H
#define NMC_H
#include <cstdarg>
#include <cstddef>
#include <cstdint>

namespace nmc {

struct Options {
    int bound          = 2;      ///< deviation bound (preemptions / early timeouts / stale reads / non-FIFO wakeups)
    bool delay         = false;  ///< true: any non-default scheduling choice costs 1 (delay bounding)
                                 ///< false: choices at blocking points are free (preemption bounding)
    bool races         = true;   ///< happens-before race detection on plain memory accesses
    bool weak          = false;  ///< loads may read stale values permitted by the C++ memory model (cost 1 each)
    bool spurious      = false;  ///< spurious condition variable wakeups (cost 1 each)
    bool early_time    = false;  ///< timers may fire while threads are runnable (cost 1 each)
    bool weak_cas      = false;  ///< compare_exchange_weak may fail spuriously (cost 1 each)
    uint64_t max_steps = 50000;  ///< scheduling points per execution before it counts as non-terminating
    uint64_t max_execs = 0;      ///< 0: no limit; otherwise exploration is truncated (reported as not exhaustive)
    double max_secs    = 0;      ///< 0: no limit
    int table_log2     = 22;     ///< log2 of the visited-state table
    uint64_t spin_ns   = 100000; ///< how far time moves when only clock spinners are left
    bool expect_stuck  = false;  ///< a state with no enabled thread ends the execution quietly

    Options& with(bool Options::*f, bool v = true) {
        this->*f = v;
        return *this;
    }
    Options& secs(double s) {
        max_secs = s;
        return *this;
    }
    Options& steps(uint64_t s) {
        max_steps = s;
        return *this;
    }
    Options& table(int log2) {
        table_log2 = log2;
        return *this;
    }
};

struct Scenario {
    const char* name;
    const char* what;       ///< one line for the evidence
    void (*setup)();        ///< runs once, single threaded; its effects are part of the initial state (may be null)
    void (*body)();         ///< runs as the main thread of every execution
    Options quick;
    Options thorough;
};

inline Options preempt(int b) {
    Options o;
    o.bound = b;
    return o;
}
inline Options delays(int b) {
    Options o;
    o.bound = b;
    o.delay = true;
    return o;
}

struct Registrar {
    explicit Registrar(const Scenario& s);
};
#define NMC_CAT2(a, b) a##b
#define NMC_CAT(a, b) NMC_CAT2(a, b)
#define NMC_SCENARIO(...) static ::nmc::Registrar NMC_CAT(nmc_reg_, __COUNTER__)(::nmc::Scenario{__VA_ARGS__})

// Nondeterministic choice 0..n-1, enumerated exhaustively.  cost: deviation cost of a non-zero choice.
int choose(int n, const char* label = "", int cost = 0);
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// End this execution successfully without running the rest of it
[[noreturn]] void finish();
// End this execution without a verdict (an input combination which is not part of the space)
[[noreturn]] void prune();
// A scheduling point
void point();
// Scheduling point + ordered event on the shared log.
void event(int kind, int64_t a = 0, int64_t b = 0, int64_t c = 0);
struct Event {
    int thread;
    int kind;
    int64_t a, b, c;
    uint64_t time;
};
size_t event_count();
Event event_at(size_t i);
// Shared cells (zeroed at the start of each execution), accesses are totally ordered but are not scheduling points
int64_t cell_add(int id, int64_t d);
int64_t cell_get(int id);
void cell_set(int id, int64_t v);
int thread_id();
int thread_count();
// Wait (blocked, no spinning) until cell id >= v
void await_cell(int id, int64_t v);
uint64_t now_ns();
// Block for virtual time
void sleep_ns(uint64_t ns);
// From now on timed waits on condition variables and sleeps (not sleep_ns) wake up that much later than asked for
void lateness(uint64_t cv_ns, uint64_t sleep_ns);
// Let the clock advance for the calling thread only when everything else is blocked; returns true when every other
// thread is blocked or finished
void quiesce();
bool others_blocked();
// The virtual network and descriptors (nmc/io.cpp).  With net_manual(true) datagrams wait on a wire until the harness
// delivers or drops them.
struct WireView {
    uint32_t src_ip, dst_ip;      ///< host order, the first four bytes for IPv6
    uint16_t src_port, dst_port;  ///< host order
    uint32_t via_ip;              ///< the interface chosen for an IPv4 multicast, 0: none
    int to;                       ///< the socket which will receive it (see socket_of), -1: nobody
    const uint8_t* data;
    size_t len;
};
void net_manual(bool on);
int wire_count();
WireView wire_at(int i);
void wire_deliver(int i, bool keep = false);
void wire_drop(int i);
int socket_of(int fd);
/// puts a datagram into the queue of a socket; from and to (may be null) are sockaddr_in or sockaddr_in6
void net_inject(int fd, const void* from, const void* to, const void* data, size_t len);
int queued(int fd);
int open_fds();
bool fd_open(int fd);
int fd_closes(int fd);
int bad_closes();
/// the next n receptions of datagrams report an error
void fail_next_receive(int n);
/// the next n datagrams sent through that descriptor are refused with ENETUNREACH
void fail_next_send(int fd, int n);
/// A regular file below /nmc/
struct FileView {
    const uint8_t* data;
    size_t len;
    int opens;
    bool open;
};
FileView file(const char* name);
// coverage accounting
void cover(const char* label);
// Allocation accounting: number of live blocks allocated since the snapshot
int64_t live_blocks();
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool thorough();
// true while an exploration is executing (false during setup)
bool active();
// ignore instrumented accesses of the calling thread between begin and end
void ignore_begin();
void ignore_end();
int run_main(int argc, char** argv);
const char* arg_or(const char* key, const char* def);
}  // namespace nmc

#define NMC_REQUIRE(cond, ...)          \
    do {                                \
        if (!(cond)) {                  \
            ::nmc::fail(__VA_ARGS__);   \
        }                               \
    } while (0)

#endif
