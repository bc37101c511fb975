#ifndef NMC_ENGINE_H
#define NMC_ENGINE_H
#include <pthread.h>
#include <stdint.h>
#include <string.h>

#include <new>
#include <string>

#include "nmc.h"

namespace nmc {

static const int MAXT       = 16;
static const int MAX_TLS    = 256;
static const int MAX_DTORS  = 16;
static const int MAX_EVENTS = 4096;
static const int MAX_COVER  = 64;
static const int SPIN_MAX   = 48;
static const int HIST       = 4;
static const int MAX_LEVEL  = 14;
static const size_t MAX_TRACE = 1 << 15;
static const int FAIR_RUN     = 3000;
static const uint64_t START_NS        = 1000000000000ull;         // virtual time at the start
static const uint64_t REALTIME_OFFSET = 1700000000000000000ull - 1000000000000ull;

enum OpKind {
    OP_NONE, OP_LOAD, OP_STORE, OP_RMW, OP_CAS, OP_FENCE, OP_LOCK, OP_TRYLOCK, OP_UNLOCK, OP_WAIT, OP_RELOCK, OP_NOTIFY,
    OP_CREATE, OP_JOIN, OP_YIELD, OP_SLEEP, OP_START, OP_EXIT, OP_POINT, OP_EVENT, OP_CHOOSE, OP_GUARD, OP_IO, OP_AWAIT,
    OP_SPINCLOCK, OP_QUIESCE, OP_IOWAIT
};
enum AltKind { ALT_RUN, ALT_TIMEOUT, ALT_SPURIOUS, ALT_DATA };
enum ThreadState { T_NONE, T_RUN, T_DONE };
enum Verdict { V_NONE, V_OK, V_VIOLATION, V_PRUNED, V_PRUNED_USER, V_TRUNCATED, V_NONDET };

struct VC {
    uint32_t c[MAXT];
    void join(const VC& o) {
        for (int i = 0; i < MAXT; ++i) {
            c[i] = c[i] > o.c[i] ? c[i] : o.c[i];
        }
    }
};

struct Op {
    int kind          = OP_NONE;
    int size          = 0;
    const void* addr  = nullptr;
    const void* addr2 = nullptr;
    const void* pc    = nullptr;
    uint64_t expected = 0;
    int64_t arg       = 0;
    int64_t arg2      = 0;
    bool (*poll)(const void*) = nullptr;
};

struct Hist {
    uint64_t value;
    uint64_t wh;
    int tid;
    uint32_t clk;
    bool sc;
    bool has_sync;
    VC sync;
};

struct Obj {
    uintptr_t addr;
    uint64_t wh;
    uint64_t rsum;
    int owner;
    bool has_sync;
    uint8_t nwait;
    uint8_t wait[MAXT];
    uint16_t touched;
    uint16_t written;
    bool conflict;
    VC sync;
    int nhist;
    int hist_base;
    uint32_t seen[MAXT];
    Hist hist[HIST];
};

struct Dtor {
    void (*fn)(void*);
    void* obj;
};
struct TlsTable {
    void* p[MAX_TLS];
};

struct Thread {
    int id;
    int state;
    void* sp;
    Op pending;
    VC vc;
    VC acq_pending;
    VC rel_fence;
    bool has_acq_pending;
    bool has_rel_fence;
    uint64_t h;
    bool signalled;
    bool timed_out;
    uint64_t deadline;
    int ignore;
    // yields
    struct {
        Obj* o;
        uint64_t wh;
    } spin[SPIN_MAX];
    int nspin;
    bool spin_overflow;
    int read_streak;
    uint64_t yield_gen;
    bool forced;  // running only because nothing else could, after a yield
    // clock spinning
    int clock_reads;
    uint64_t last_clock;
    uint64_t hashed_clock;
    // exceptions
    void* cxa[1];
    unsigned cxa1;
    // start
    void* (*fn)(void*);
    void* arg;
    void* ret;
    Obj* exit_obj;
    Dtor dtors[MAX_DTORS];
    int ndtors;
    TlsTable tls;
    void reset() {
        memset(static_cast<void*>(this), 0, sizeof *this);
    }
};

struct Alt {
    int kind;
    int arg;
    int cost;
    uint64_t key;
};

struct Engine;
struct ExplorerBase {
    virtual bool visit(uint64_t key, int cost)                                    = 0;
    virtual void offer(Engine& e, size_t pos, int pick, int cost, uint64_t key)   = 0;
};

struct Engine {
    bool active  = false;
    bool in_exec = false;
    bool verbose = false;
    bool is_thorough = false;
    int cur      = 0;
    int nthreads = 1;
    uint32_t gen = 1;
    Thread th[MAXT];
    struct : Options {
        uint64_t max_time_ns = 0;
        void operator=(const Options& o) { static_cast<Options&>(*this) = o; }
    } opt;
    const Scenario* scenario = nullptr;
    uint64_t now             = START_NS;
    uint64_t setup_now       = START_NS;  ///< the time when the setup was done
    uint64_t late_cv         = 0;         ///< how late timed waits and sleeps wake up
    uint64_t late_sleep      = 0;
    uint64_t steps = 0, writes = 0, ops = 0, execs_done = 0;
    int run_length      = 0;
    uint64_t switches   = 0;
    int quiescent_ok    = -1;
    int force_yield_retry   = 0;
    uint64_t force_yield_gen = 0;
    int level_bound     = 0;
    VC sc_fence;
    // trace
    uint8_t trace[MAX_TRACE];
    uint8_t trace_n[MAX_TRACE];
    size_t tpos = 0, prefix_len = 0;
    int cost = 0;
    ExplorerBase* explore = nullptr;
    int verdict = V_NONE;
    char verdict_msg[1600];
    Event events[MAX_EVENTS];
    size_t nevents = 0;
    int64_t cells[1024];
    const char* covers[MAX_COVER];
    int ncover = 0;

    [[noreturn]] void violation(const char* msg);
    int decide(const Alt* alts, int n);
    void schedule();
    void sched(const Op& op);
    void do_yield();
    void remove_waiter(Obj& o, int t);
    std::string describe_blocked();
    void lock(void* m, const void* pc);
    void unlock(void* m, const void* pc);
    bool trylock(void* m, const void* pc);
    bool cond_wait(void* c, void* m, uint64_t deadline, const void* pc);
    void cond_notify(void* c, bool all, const void* pc);
    int create(void* (*fn)(void*), void* arg);
    void join(int id);
    uint64_t read_clock();
    void run_execution();
    void io_reset();
};

extern Engine* E;
Obj* obj(const void* p);
std::string symbolise(uintptr_t a);

}  // namespace nmc
#endif
