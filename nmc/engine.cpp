// nmc engine: cooperative scheduler, happens-before race detector, replay-based exploration with happens-before state
// caching.  Built WITHOUT instrumentation as a shared library; the program under test is instrumented with
// -fsanitize=thread and resolves its __tsan_* and pthread_* references here.
#include "engine.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <unordered_set>
#include <vector>

extern "C" char __libc_single_threaded;

namespace nmc {

Engine* E = nullptr;

// ---------------------------------------------------------------------------------------------------------- memory
// The engine's own containers must not use the model arena: operator new is replaced for the whole process, so engine
// allocations are bracketed by EngineScope, or use malloc-backed containers.
static __thread int engine_depth = 0;
struct EngineScope {
    EngineScope() { ++engine_depth; }
    ~EngineScope() { --engine_depth; }
};

static const uintptr_t REGION     = 0x200000000000ull;
static const uintptr_t ARENA_SIZE = 64ull << 20;   // per thread
static const uintptr_t STACK_SIZE = 256ull << 10;  // per thread (thread 0: 1MB)
static const uintptr_t STACK0     = 1ull << 20;
static const uintptr_t REGION_SZ  = ARENA_SIZE * MAXT;
static const uintptr_t STACKS     = REGION + REGION_SZ;
static const uintptr_t STACKS_SZ  = STACK0 * MAXT;

static uint8_t* g_valid   = nullptr;  // one byte per 8 arena bytes; 0 = unaddressable; 1..7 first k bytes, 8 all, 0xFD freed
static uintptr_t g_bump[MAXT];
static uintptr_t g_high[MAXT];  // dirty high-water mark since the last reset
static bool g_mem_ready = false;

static void mem_init() {
    if (g_mem_ready) {
        return;
    }
    g_mem_ready = true;
    void* p     = mmap(reinterpret_cast<void*>(REGION),
                   REGION_SZ + STACKS_SZ,
                   PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
                   -1,
                   0);
    if (p != reinterpret_cast<void*>(REGION)) {
        fprintf(stderr, "nmc: cannot map arena\n");
        _exit(3);
    }
    g_valid = static_cast<uint8_t*>(mmap(nullptr,
                                         REGION_SZ / 8,
                                         PROT_READ | PROT_WRITE,
                                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,
                                         -1,
                                         0));
    for (int i = 0; i < MAXT; ++i) {
        g_bump[i] = g_high[i] = REGION + i * ARENA_SIZE + 64;
    }
}

static inline bool in_arena(uintptr_t a) {
    return a - REGION < REGION_SZ;
}
static inline bool in_stacks(uintptr_t a) {
    return a - STACKS < STACKS_SZ;
}

static inline void set_valid(uintptr_t a, size_t n) {
    uint8_t* v = g_valid + ((a - REGION) >> 3);
    size_t g   = n >> 3;
    memset(v, 8, g);
    if (n & 7) {
        v[g] = uint8_t(n & 7);
    }
}

struct Header {
    uint64_t size;
    uint64_t magic;
};
static const uint64_t LIVE = 0x6e6d634c495645ull;
static const uint64_t DEAD = 0x6e6d6344454144ull;

static int64_t g_live_blocks = 0;

static void* arena_alloc(size_t n, size_t align) {
    mem_init();
    int t = E != nullptr && E->active ? E->cur : 0;
    if (align < 16) {
        align = 16;
    }
    uintptr_t p = g_bump[t] + sizeof(Header);
    p           = (p + align - 1) & ~(uintptr_t(align) - 1);
    auto* h     = reinterpret_cast<Header*>(p - sizeof(Header));
    uintptr_t e = (p + (n == 0 ? 1 : n) + 15) & ~uintptr_t(15);
    e += 16;  // red zone
    if (e > REGION + (t + 1) * ARENA_SIZE) {
        if (E != nullptr && E->active) {
            fail("model arena exhausted (allocation of %zu bytes)", n);
        }
        fprintf(stderr, "nmc: arena exhausted during setup\n");
        abort();
    }
    g_bump[t] = e;
    if (e > g_high[t]) {
        g_high[t] = e;
    }
    h->size  = n;
    h->magic = LIVE;
    set_valid(p, n);
    ++g_live_blocks;
    return reinterpret_cast<void*>(p);
}

int64_t live_blocks() {
    return g_live_blocks;
}

// -------------------------------------------------------------------------------------------------------- segments
struct Seg {
    uintptr_t begin, end;
    uint8_t* copy;
};
static std::vector<Seg>* g_segs        = nullptr;
static uintptr_t g_exe_b = 0, g_exe_e = 0;
static std::unordered_set<uintptr_t>* g_guards = nullptr;
struct SymRange {
    uintptr_t b, e;
    std::string name;
};
static std::vector<SymRange>* g_syms = nullptr;

static void load_symbols(uintptr_t base) {
    int fd = open("/proc/self/exe", O_RDONLY);
    if (fd < 0) {
        return;
    }
    struct stat st;
    fstat(fd, &st);
    auto* m = static_cast<uint8_t*>(mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0));
    close(fd);
    if (m == MAP_FAILED) {
        return;
    }
    auto* eh = reinterpret_cast<Elf64_Ehdr*>(m);
    auto* sh = reinterpret_cast<Elf64_Shdr*>(m + eh->e_shoff);
    for (int i = 0; i < eh->e_shnum; ++i) {
        if (sh[i].sh_type != SHT_SYMTAB) {
            continue;
        }
        auto* syms      = reinterpret_cast<Elf64_Sym*>(m + sh[i].sh_offset);
        size_t n        = sh[i].sh_size / sizeof(Elf64_Sym);
        const char* str = reinterpret_cast<const char*>(m + sh[sh[i].sh_link].sh_offset);
        for (size_t k = 0; k < n; ++k) {
            const char* name = str + syms[k].st_name;
            if (ELF64_ST_TYPE(syms[k].st_info) == STT_OBJECT && strncmp(name, "_ZGV", 4) == 0) {
                g_guards->insert(base + syms[k].st_value);
            }
            if ((ELF64_ST_TYPE(syms[k].st_info) == STT_FUNC || ELF64_ST_TYPE(syms[k].st_info) == STT_OBJECT)
                && syms[k].st_size > 0) {
                g_syms->push_back({base + syms[k].st_value, base + syms[k].st_value + syms[k].st_size, name});
            }
        }
    }
    munmap(m, st.st_size);
    std::sort(g_syms->begin(), g_syms->end(), [](const SymRange& a, const SymRange& b) { return a.b < b.b; });
}

std::string symbolise(uintptr_t a) {
    EngineScope s;
    char buf[512];
    auto it = std::upper_bound(g_syms->begin(), g_syms->end(), a, [](uintptr_t v, const SymRange& r) { return v < r.b; });
    if (it != g_syms->begin()) {
        --it;
        if (a >= it->b && a < it->e) {
            int status = 0;
            char* d    = abi::__cxa_demangle(it->name.c_str(), nullptr, nullptr, &status);
            std::string n = d != nullptr ? d : it->name;
            free(d);
            if (n.size() > 160) {
                n.resize(160);
            }
            snprintf(buf, sizeof buf, "%s+0x%lx", n.c_str(), long(a - it->b));
            return buf;
        }
    }
    if (in_arena(a)) {
        snprintf(buf, sizeof buf, "heap[T%d]+0x%lx", int((a - REGION) / ARENA_SIZE), long((a - REGION) % ARENA_SIZE));
    }
    else if (in_stacks(a)) {
        snprintf(buf, sizeof buf, "stack[T%d]", int((a - STACKS) / STACK0));
    }
    else {
        snprintf(buf, sizeof buf, "0x%lx", long(a));
    }
    return buf;
}

static int phdr_cb(struct dl_phdr_info* info, size_t /*size*/, void* /*data*/) {
    const bool exe    = info->dlpi_name == nullptr || info->dlpi_name[0] == 0;
    const bool stdcpp = info->dlpi_name != nullptr && strstr(info->dlpi_name, "libstdc++") != nullptr;
    static bool first = true;
    const bool is_exe = exe && first;
    if (is_exe) {
        first = false;
    }
    if (!is_exe && !stdcpp) {
        return 0;
    }
    uintptr_t relro_b = 0, relro_e = 0;
    for (int i = 0; i < info->dlpi_phnum; ++i) {
        if (info->dlpi_phdr[i].p_type == PT_GNU_RELRO) {
            relro_b = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
            relro_e = relro_b + info->dlpi_phdr[i].p_memsz;
            relro_e = (relro_e + 4095) & ~uintptr_t(4095);
        }
    }
    for (int i = 0; i < info->dlpi_phnum; ++i) {
        const auto& p = info->dlpi_phdr[i];
        if (p.p_type != PT_LOAD || (p.p_flags & PF_W) == 0) {
            continue;
        }
        uintptr_t b = info->dlpi_addr + p.p_vaddr;
        uintptr_t e = b + p.p_memsz;
        if (b < relro_e && e > relro_b) {
            if (relro_e >= e) {
                continue;
            }
            b = relro_e;
        }
        g_segs->push_back({b, e, nullptr});
        if (is_exe) {
            g_exe_b = g_exe_b == 0 ? b : std::min(g_exe_b, b);
            g_exe_e = std::max(g_exe_e, e);
        }
    }
    if (is_exe) {
        load_symbols(info->dlpi_addr);
    }
    return 0;
}

static inline bool in_exe(uintptr_t a) {
    return a - g_exe_b < g_exe_e - g_exe_b;
}
static inline bool ours(const void* p) {
    auto a = reinterpret_cast<uintptr_t>(p);
    return in_arena(a) || in_exe(a) || in_stacks(a);
}

// ---------------------------------------------------------------------------------------------------------- shadow
struct Rec {
    uint32_t clk;
    uint8_t tid;
    uint8_t mask;
    uint8_t write;
    uint8_t used;
};
struct Cell {
    uint32_t gen;
    uint32_t next;
    Rec r[7];
};
static Cell* g_shadow_arena = nullptr;
static Cell* g_shadow_exe   = nullptr;

static inline Cell* shadow(uintptr_t a) {
    if (in_arena(a)) {
        return g_shadow_arena + ((a - REGION) >> 3);
    }
    return g_shadow_exe + ((a - g_exe_b) >> 3);
}

// ------------------------------------------------------------------------------------------------------- hash utils
static inline uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t x = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2));
    x ^= x >> 32;
    x *= 0xd6e8feb86659fd93ull;
    x ^= x >> 32;
    x *= 0xd6e8feb86659fd93ull;
    x ^= x >> 32;
    return x;
}

// --------------------------------------------------------------------------------------------------------- objects
static const uint32_t OBJ_HASH = 1u << 15;
static const uint32_t OBJ_MAX  = 1u << 14;
struct ObjSlot {
    uintptr_t addr;
    uint32_t gen;
    uint32_t idx;
};
static ObjSlot* g_obj_hash = nullptr;
static Obj* g_objs         = nullptr;
static uint32_t g_nobjs    = 0;

Obj* obj(const void* p) {
    auto a     = reinterpret_cast<uintptr_t>(p);
    uint32_t h = uint32_t((a * 0x9e3779b97f4a7c15ull) >> 40) & (OBJ_HASH - 1);
    while (true) {
        ObjSlot& s = g_obj_hash[h];
        if (s.gen != E->gen) {
            if (g_nobjs >= OBJ_MAX) {
                fail("engine: too many synchronisation objects");
            }
            s.gen  = E->gen;
            s.addr = a;
            s.idx  = g_nobjs++;
            Obj& o = g_objs[s.idx];
            memset(static_cast<void*>(&o), 0, sizeof(Obj));
            o.addr  = a;
            o.owner = -1;
            o.wh    = mix(0x1234567, a);
            return &o;
        }
        if (s.addr == a) {
            return &g_objs[s.idx];
        }
        h = (h + 1) & (OBJ_HASH - 1);
    }
}

// ------------------------------------------------------------------------------------------------- conflicting objects
// A scheduling point is only needed before operations on objects which at least two threads access, one of them writing,
// in some explored execution.  g_conf is the set assumed by the current round of exploration (by hashed address, so an
// over-approximation); operations on other objects run without a scheduling point.  Objects found to be in conflict
// although they are not in the set are added, and the exploration is repeated with the larger set until none turns up.
static const uint32_t CONF_SIZE = 1u << 18;
static uint8_t* g_conf              = nullptr;  // frozen for this round
static uint8_t* g_conf_next         = nullptr;  // shared between the workers
static volatile uint32_t* g_conf_new = nullptr;
static inline uint32_t conf_index(uintptr_t a) {
    return uint32_t((a * 0x9e3779b97f4a7c15ull) >> 30) & (CONF_SIZE - 1);
}
static inline void mark_access(Obj& o, int t, bool write) {
    o.touched |= uint16_t(1u << t);
    if (write) {
        o.written |= uint16_t(1u << t);
    }
    if (!o.conflict && o.written != 0 && (o.touched & (o.touched - 1)) != 0) {
        o.conflict = true;
        uint32_t i = conf_index(o.addr);
        if (g_conf != nullptr && g_conf[i] == 0 && g_conf_next[i] == 0) {
            g_conf_next[i] = 1;
            __sync_fetch_and_add(g_conf_new, 1);
        }
    }
}

// ------------------------------------------------------------------------------------------------------ scenario registry
static std::vector<Scenario>& registry() {
    static std::vector<Scenario>* r = nullptr;
    if (r == nullptr) {
        EngineScope s;
        r = new std::vector<Scenario>();
    }
    return *r;
}
Registrar::Registrar(const Scenario& s) {
    EngineScope e;
    registry().push_back(s);
}

// ------------------------------------------------------------------------------------------------------------ fibers
extern "C" void nmc_switch(void** save, void* load);
asm(R"(
.text
.globl nmc_switch
.type nmc_switch,@function
nmc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size nmc_switch,.-nmc_switch
)");

struct CxaGlobals {
    void* caught;
    unsigned int uncaught;
};
static CxaGlobals* g_cxa = nullptr;

static void fiber_main();
static void* g_master_sp = nullptr;

static void* make_stack(int t) {
    uintptr_t top = STACKS + (t + 1) * STACK0;
    auto* sp      = reinterpret_cast<uintptr_t*>(top - 64);
    *--sp         = 0;  // fake return address of fiber_main (alignment)
    *--sp         = reinterpret_cast<uintptr_t>(&fiber_main);
    for (int i = 0; i < 6; ++i) {
        *--sp = 0;
    }
    return sp;
}

static void to_master() {
    void* dummy;
    nmc_switch(&dummy, g_master_sp);
    __builtin_unreachable();
}

// --------------------------------------------------------------------------------------------------------- reporting
[[noreturn]] void Engine::violation(const char* msg) {
    snprintf(verdict_msg, sizeof verdict_msg, "%s", msg);
    verdict = V_VIOLATION;
    active  = false;
    to_master();
    __builtin_unreachable();
}
void fail(const char* fmt, ...) {
    char buf[1500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (E == nullptr || !E->in_exec) {
        fprintf(stderr, "nmc: failure outside of an execution: %s\n", buf);
        fflush(stderr);
        _exit(3);
    }
    E->violation(buf);
}
void prune() {
    E->verdict = V_PRUNED_USER;
    E->active  = false;
    to_master();
    __builtin_unreachable();
}
static void finish_exec(int v) {
    E->verdict = v;
    E->active  = false;
    to_master();
}

void finish() {
    finish_exec(V_OK);
    __builtin_unreachable();
}

// ------------------------------------------------------------------------------------------------------------- HB ops
static inline void hb_event_read(Thread& t, Obj& o, uint64_t kind) {
    uint64_t e = mix(mix(t.h, kind), o.wh);
    t.h        = e;
    o.rsum += e;
}
static inline void hb_event_write(Thread& t, Obj& o, uint64_t kind) {
    uint64_t e = mix(mix(mix(t.h, kind), o.wh), o.rsum);
    // a thread's own writes are not what it waits for when it yields
    for (int i = 0; i < t.nspin; ++i) {
        if (t.spin[i].o == &o && t.spin[i].wh == o.wh) {
            t.spin[i].wh = e;
        }
    }
    t.h        = e;
    o.wh       = e;
    o.rsum     = 0;
    ++E->writes;
}
static inline void hb_local(Thread& t, uint64_t v) {
    t.h = mix(t.h, v);
}

void hb_acquire(Thread& t, const Obj& o) {
    if (o.has_sync) {
        t.vc.join(o.sync);
    }
}
void hb_release(Thread& t, Obj& o, bool accumulate) {
    if (accumulate && o.has_sync) {
        o.sync.join(t.vc);
    }
    else {
        o.sync = t.vc;
    }
    o.has_sync = true;
    ++t.vc.c[t.id];
}

// ------------------------------------------------------------------------------------------------------------ choosing
static const char* kind_name(int k) {
    static const char* names[] = {"none",  "load",  "store", "rmw",    "cas",    "fence", "lock",   "trylock", "unlock",
                                  "wait",  "relock", "notify", "create", "join",  "yield",  "sleep",  "start",   "exit",
                                  "point", "event", "choose", "guard",  "io",     "await",  "spinclock", "quiesce", "iowait"};
    return names[k];
}

static bool cas_will_succeed(const Op& op) {
    uint64_t cur = 0, exp = 0;
    memcpy(&cur, op.addr, op.size);
    memcpy(&exp, &op.expected, op.size);
    return cur == exp;
}

static bool is_write(const Op& op) {
    switch (op.kind) {
        case OP_LOAD:
        case OP_START:
        case OP_JOIN:
        case OP_YIELD:
        case OP_SLEEP:
        case OP_SPINCLOCK:
        case OP_QUIESCE:
        case OP_FENCE:
        case OP_POINT:
        case OP_AWAIT: return false;
        case OP_CAS: return cas_will_succeed(op);
        case OP_IO: return op.size != 0;
        default: return true;
    }
}

static bool yield_ready(const Thread& t) {
    for (int i = 0; i < t.nspin; ++i) {
        if (t.spin[i].o->wh != t.spin[i].wh) {
            return true;
        }
    }
    return t.spin_overflow || E->force_yield_gen > t.yield_gen;
}

static bool op_enabled(const Thread& t) {
    const Op& op = t.pending;
    switch (op.kind) {
        case OP_LOCK:
        case OP_GUARD: return obj(op.addr)->owner < 0;
        case OP_RELOCK:
            if (obj(op.addr2)->owner >= 0) {
                return false;
            }
            return t.signalled || t.timed_out || (t.deadline != 0 && t.deadline <= E->now);
        case OP_JOIN: return E->th[op.arg].state == T_DONE;
        case OP_YIELD: return yield_ready(t);
        case OP_SLEEP:
        case OP_SPINCLOCK: return t.deadline <= E->now;
        case OP_AWAIT: return E->cells[op.arg] >= op.arg2;
        case OP_QUIESCE: return E->quiescent_ok == t.id;
        case OP_IOWAIT: return (op.poll != nullptr && op.poll(op.addr2)) || (t.deadline != 0 && t.deadline <= E->now);
        default: return true;
    }
}

static uint64_t predicted(const Thread& t, int how, uint64_t arg) {
    // state key after thread t performs its pending operation
    const Op& op = t.pending;
    uint64_t h   = t.h;
    if (how == ALT_TIMEOUT) {
        h = mix(h, 0x7117 + arg);
    }
    else if (how == ALT_SPURIOUS) {
        h = mix(h, 0x5b5b);
    }
    const void* a = op.kind == OP_RELOCK ? op.addr2 : op.addr;
    if (a != nullptr) {
        const Obj* o = obj(a);
        h            = mix(mix(h, uint64_t(op.kind) << 32 | uint64_t(op.size)), o->wh);
        if (is_write(op)) {
            h = mix(h, o->rsum);
        }
    }
    else {
        h = mix(h, uint64_t(op.kind) << 32 | uint64_t(op.arg));
    }
    if (t.deadline != 0) {
        h = mix(h, E->now);
    }
    uint64_t sum = 0;
    for (int i = 0; i < E->nthreads; ++i) {
        sum += mix(i == t.id ? h : E->th[i].h, uint64_t(i) * 0x9e37 + 17);
    }
    return mix(sum, t.id);
}

static uint64_t state_sum() {
    uint64_t sum = 0;
    for (int i = 0; i < E->nthreads; ++i) {
        sum += mix(E->th[i].h, uint64_t(i) * 0x9e37 + 17);
    }
    return sum;
}

static void log_step(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vfprintf(stdout, fmt, ap);
    va_end(ap);
}

// Decide between n alternatives; alternative 0 is the default.  Returns the index chosen.
int Engine::decide(const Alt* alts, int n) {
    if (n == 1) {
        return 0;
    }
    if (n > 250) {
        n = 250;
    }
    int c = 0;
    if (tpos < prefix_len) {
        c = trace[tpos];
        if (c >= n || trace_n[tpos] != uint8_t(n)) {
            snprintf(verdict_msg,
                     sizeof verdict_msg,
                     "nondeterministic replay at choice %zu (%d of %d, recorded %d of %d)",
                     tpos,
                     c,
                     n,
                     c,
                     int(trace_n[tpos]));
            finish_exec(V_NONDET);
        }
        cost += alts[c].cost;
        ++tpos;
        return c;
    }
    if (tpos >= MAX_TRACE) {
        finish_exec(V_TRUNCATED);
    }
    trace[tpos]   = 0;
    trace_n[tpos] = uint8_t(n);
    if (explore != nullptr) {
        EngineScope scope;
        for (int i = n - 1; i >= 1; --i) {
            explore->offer(*this, tpos, i, cost + alts[i].cost, alts[i].key);
        }
        if (alts[0].key != 0 && !explore->visit(alts[0].key, cost + alts[0].cost)) {
            engine_depth = 0;
            finish_exec(V_PRUNED);
        }
    }
    cost += alts[0].cost;
    ++tpos;
    return 0;
}

static void switch_fiber(int from, int to) {
    Engine& e = *E;
    Thread& a = e.th[from];
    Thread& b = e.th[to];
    a.cxa[0]  = g_cxa->caught;
    a.cxa1    = g_cxa->uncaught;
    g_cxa->caught   = b.cxa[0];
    g_cxa->uncaught = b.cxa1;
    e.cur           = to;
    nmc_switch(&a.sp, b.sp);
}

static void advance_time(uint64_t to) {
    if (to > E->now) {
        E->now = to;
    }
}

// Pick the next thread to run.  The current thread has its pending operation recorded (or is blocked/done).
// Returns after the current thread has been chosen.
void Engine::schedule() {
    Alt alts[MAXT * 3];
    while (true) {
        if (++steps > opt.max_steps) {
            fail("execution does not terminate within %llu scheduling points (livelock)",
                 (unsigned long long) opt.max_steps);
        }
        Thread& c = th[cur];
        int en[MAXT];
        int ne = 0;
        // default order: current thread first, then round robin
        bool cur_enabled = c.state == T_RUN && op_enabled(c);
        for (int i = cur_enabled ? 0 : 1; i <= nthreads - (cur_enabled ? 1 : 0); ++i) {
            int t = (cur + i) % nthreads;
            if (t == cur && !cur_enabled) {
                continue;
            }
            if (th[t].state == T_RUN && (t == cur || op_enabled(th[t]))) {
                en[ne++] = t;
            }
        }
        if (ne == 0) {
            // Nothing can run: yielded threads get another go only if some time may pass or input may arrive
            uint64_t best = 0;
            for (int i = 0; i < nthreads; ++i) {
                if (th[i].state == T_RUN && th[i].deadline != 0 && !th[i].signalled) {
                    bool timed = th[i].pending.kind == OP_SLEEP || th[i].pending.kind == OP_SPINCLOCK
                                 || th[i].pending.kind == OP_IOWAIT
                                 || (th[i].pending.kind == OP_RELOCK && obj(th[i].pending.addr2)->owner < 0);
                    if (timed && (best == 0 || th[i].deadline < best)) {
                        best = th[i].deadline;
                    }
                }
            }
            // allow yielders a retry in case they poll something the engine cannot see
            if (force_yield_retry < 2) {
                bool any = false;
                for (int i = 0; i < nthreads; ++i) {
                    if (th[i].state == T_RUN && th[i].pending.kind == OP_YIELD) {
                        any = true;
                    }
                }
                if (any) {
                    ++force_yield_retry;
                    ++force_yield_gen;
                    continue;
                }
            }
            int q = -1;
            for (int i = 0; i < nthreads; ++i) {
                if (th[i].state == T_RUN && th[i].pending.kind == OP_QUIESCE) {
                    q = i;
                }
            }
            if (q >= 0) {
                quiescent_ok = q;
                continue;
            }
            if (best != 0 && best > now) {
                if (opt.max_time_ns != 0 && best > opt.max_time_ns) {
                    if (opt.expect_stuck) {
                        finish_exec(V_OK);
                    }
                    fail("no progress until virtual time %llu ns: %s",
                         (unsigned long long) best,
                         describe_blocked().c_str());
                }
                advance_time(best);
                continue;
            }
            if (opt.expect_stuck) {
                finish_exec(V_OK);
            }
            fail("deadlock: no thread can make progress: %s", describe_blocked().c_str());
        }
        int n = 0;
        // Fairness: a thread that has run for a very long time without blocking loses the default.
        // (Bounded so that busy loops which never yield cannot starve the others.)
        // threads which poll and yield take turns: anything else could starve the one they wait for, at no cost
        const bool polling  = c.state == T_RUN && c.pending.kind == OP_YIELD;
        int dflt_cost_other = cur_enabled || polling ? 1 : (opt.delay ? 1 : 0);
        bool rotate         = false;
        const bool yielding = cur_enabled && ne > 1 && c.pending.kind == OP_YIELD;
        if ((cur_enabled && ne > 1 && run_length > FAIR_RUN) || yielding) {
            rotate = true;
        }
        if (rotate) {
            // current goes last, everything else is free
            for (int i = 1; i < ne; ++i) {
                alts[n++] = {ALT_RUN, en[i], n == 0 ? 0 : (opt.delay || polling ? 1 : 0), predicted(th[en[i]], ALT_RUN, 0)};
            }
            if (yielding) {
                // the yield may return at once
                alts[n++] = {ALT_RUN, cur, 1, predicted(c, ALT_RUN, 0)};
            }
            run_length = 0;
        }
        else {
            for (int i = 0; i < ne; ++i) {
                alts[n] = {ALT_RUN, en[i], i == 0 ? 0 : dflt_cost_other, 0};
                ++n;
            }
        }
        if (opt.early_time) {
            // fire the earliest timer although threads are runnable
            int bt = -1;
            for (int i = 0; i < nthreads; ++i) {
                Thread& t = th[i];
                if (t.state == T_RUN && t.deadline > now && !t.signalled
                    && (t.pending.kind == OP_SLEEP
                        || (t.pending.kind == OP_RELOCK && obj(t.pending.addr2)->owner < 0))
                    && (bt < 0 || t.deadline < th[bt].deadline)) {
                    bt = i;
                }
            }
            if (bt >= 0) {
                alts[n++] = {ALT_TIMEOUT, bt, 1, 0};
            }
        }
        if (opt.spurious) {
            for (int i = 0; i < nthreads; ++i) {
                Thread& t = th[i];
                if (t.state == T_RUN && t.pending.kind == OP_RELOCK && !t.signalled && !t.timed_out
                    && !(t.deadline != 0 && t.deadline <= now) && obj(t.pending.addr2)->owner < 0) {
                    alts[n++] = {ALT_SPURIOUS, i, 1, 0};
                }
            }
        }
        if (n > 1 && tpos >= prefix_len && explore != nullptr) {
            for (int i = 0; i < n; ++i) {
                if (alts[i].key == 0 && cost + alts[i].cost <= level_bound) {
                    alts[i].key = predicted(th[alts[i].arg],
                                            alts[i].kind,
                                            alts[i].kind == ALT_TIMEOUT ? th[alts[i].arg].deadline : 0);
                }
            }
        }
        int pick   = decide(alts, n);
        const Alt a = alts[pick];
        int next   = a.arg;
        if (a.kind == ALT_TIMEOUT) {
            advance_time(th[next].deadline);
        }
        else if (a.kind == ALT_SPURIOUS) {
            th[next].signalled = true;
            hb_local(th[next], 0x5b5b);
            Obj* co = obj(th[next].pending.addr);
            remove_waiter(*co, next);
        }
        if (next != cur) {
            run_length = 0;
            ++switches;
            switch_fiber(cur, next);
            // when we come back we have been chosen
            return;
        }
        ++run_length;
        return;
    }
}

std::string Engine::describe_blocked() {
    EngineScope s;
    std::string r;
    for (int i = 0; i < nthreads; ++i) {
        if (th[i].state == T_DONE) {
            continue;
        }
        r += "T" + std::to_string(i) + ":" + kind_name(th[i].pending.kind);
        if (th[i].pending.addr != nullptr) {
            r += "(" + symbolise(reinterpret_cast<uintptr_t>(th[i].pending.addr)) + ")";
        }
        r += " ";
    }
    return r;
}

void Engine::remove_waiter(Obj& o, int t) {
    for (int i = 0; i < o.nwait; ++i) {
        if (o.wait[i] == t) {
            for (int k = i + 1; k < o.nwait; ++k) {
                o.wait[k - 1] = o.wait[k];
            }
            --o.nwait;
            return;
        }
    }
}

// Announce the operation and wait to be scheduled.
void Engine::sched(const Op& op) {
    Thread& t = th[cur];
    t.pending = op;
    if (t.forced && op.kind != OP_YIELD && !op_enabled(t)) {
        // left the polling loop
        t.forced          = false;
        force_yield_retry = 0;
    }
    if (op.kind != OP_SPINCLOCK && op.kind != OP_LOAD) {
        t.clock_reads = 0;
    }
    const bool plain_obj = op.addr != nullptr && op.kind <= OP_RELOCK + 1 && op.kind != OP_RELOCK && ours(op.addr);
    if (plain_obj && g_conf != nullptr && g_conf[conf_index(reinterpret_cast<uintptr_t>(op.addr))] == 0 && op_enabled(t)) {
        if (++steps > opt.max_steps) {
            fail("execution does not terminate within %llu scheduling points (livelock)",
                 (unsigned long long) opt.max_steps);
        }
    }
    else {
        schedule();
    }
    if (plain_obj) {
        mark_access(*obj(op.addr), cur, op.kind != OP_LOAD && (op.kind != OP_CAS || cas_will_succeed(op)));
    }
    else if (op.kind == OP_RELOCK) {
        mark_access(*obj(op.addr2), cur, true);
    }
    ++ops;
    if (verbose) {
        Thread& tt = th[cur];
        log_step("  step %llu T%d %s %s pc=%s\n",
                 (unsigned long long) steps,
                 cur,
                 kind_name(tt.pending.kind),
                 op.addr != nullptr ? symbolise(reinterpret_cast<uintptr_t>(op.addr)).c_str() : "",
                 symbolise(reinterpret_cast<uintptr_t>(op.pc)).c_str());
    }
}

static inline Thread& self() {
    return E->th[E->cur];
}

static inline void spin_add(Thread& t, Obj* o) {
    // for yield: remember what was read since the last yield
    for (int i = 0; i < t.nspin; ++i) {
        if (t.spin[i].o == o) {
            t.spin[i].wh = o->wh;
            return;
        }
    }
    if (t.nspin < SPIN_MAX) {
        t.spin[t.nspin].o  = o;
        t.spin[t.nspin].wh = o->wh;
        ++t.nspin;
    }
    else {
        t.spin_overflow = true;
    }
}
// what was read was not the newest value: a loop around this read has to look again
static inline void spin_stale(Thread& t, Obj* o) {
    for (int i = 0; i < t.nspin; ++i) {
        if (t.spin[i].o == o) {
            t.spin[i].wh = ~o->wh;
            return;
        }
    }
}
static inline void note_read(Thread& t, Obj* o) {
    spin_add(t, o);
    if (++t.read_streak > 500) {
        // busy loop without a yield: treat as a yield
        t.read_streak = 0;
        E->do_yield();
    }
}
static inline void note_write(Thread& t) {
    t.read_streak = 0;
    if (!t.forced) {
        E->force_yield_retry = 0;
    }
}

void Engine::do_yield() {
    Thread& t  = th[cur];
    t.yield_gen = force_yield_gen;
    Op op;
    op.kind = OP_YIELD;
    sched(op);
    Thread& u       = th[cur];
    u.forced        = force_yield_gen > u.yield_gen;
    u.nspin         = 0;
    u.spin_overflow = false;
    u.read_streak   = 0;
    hb_local(u, 0xE1D);
}

// --------------------------------------------------------------------------------------------------- race detection
static void report_race(uintptr_t a, size_t size, bool write, const Rec& other, const void* pc) {
    char buf[900];
    snprintf(buf,
             sizeof buf,
             "data race: T%d %s of %zu bytes at %s in %s conflicts with earlier %s by T%d",
             E->cur,
             write ? "write" : "read",
             size,
             symbolise(a).c_str(),
             symbolise(reinterpret_cast<uintptr_t>(pc)).c_str(),
             other.write ? "write" : "read",
             int(other.tid));
    E->violation(buf);
}

static inline void check_valid(uintptr_t a, size_t n, bool write, const void* pc) {
    uintptr_t g = (a - REGION) >> 3;
    uintptr_t l = (a + n - 1 - REGION) >> 3;
    for (uintptr_t i = g; i <= l; ++i) {
        uint8_t v = g_valid[i];
        if (v == 8) {
            continue;
        }
        uintptr_t last = i == l ? ((a + n - 1) & 7) : 7;
        if (v == 0xFD || v == 0 || last >= v) {
            char buf[700];
            snprintf(buf,
                     sizeof buf,
                     "%s: T%d %s of %zu bytes at %s in %s",
                     v == 0xFD ? "use after free" : "heap access out of bounds",
                     E->cur,
                     write ? "write" : "read",
                     n,
                     symbolise(a).c_str(),
                     symbolise(reinterpret_cast<uintptr_t>(pc)).c_str());
            E->violation(buf);
        }
    }
}

static inline void race_cell(uintptr_t a, unsigned off, unsigned n, bool write, const void* pc) {
    Cell* c      = shadow(a);
    uint8_t mask = uint8_t(((1u << n) - 1) << off);
    Thread& t    = E->th[E->cur];
    if (c->gen != E->gen) {
        c->gen  = E->gen;
        c->next = 0;
        for (auto& r : c->r) {
            r.used = 0;
        }
    }
    int slot = -1;
    for (int i = 0; i < 7; ++i) {
        Rec& r = c->r[i];
        if (!r.used) {
            if (slot < 0) {
                slot = i;
            }
            break;
        }
        if (r.tid == t.id) {
            if (r.mask == mask && r.write == write) {
                slot = i;
            }
            else if (r.mask == mask && write && !r.write) {
                slot = i;
            }
            else if (r.mask == mask && !write && r.write && r.clk == t.vc.c[t.id]) {
                // already recorded as a write in this epoch
                return;
            }
            continue;
        }
        if (!(r.mask & mask)) {
            continue;
        }
        bool ordered = t.vc.c[r.tid] >= r.clk;
        if (!ordered && (write || r.write)) {
            report_race(a + off, n, write, r, pc);
        }
        if (ordered && (write) && (r.mask & ~mask) == 0 && slot < 0) {
            slot = i;  // superseded
        }
    }
    if (slot < 0) {
        slot    = c->next;
        c->next = (c->next + 1) % 7;
    }
    c->r[slot] = {t.vc.c[t.id], uint8_t(t.id), mask, uint8_t(write), 1};
}

static inline void access(const void* p, size_t n, bool write, const void* pc) {
    if (E == nullptr || !E->active) {
        return;
    }
    auto a = reinterpret_cast<uintptr_t>(p);
    if (in_arena(a)) {
        if (n == 0) {
            return;
        }
        check_valid(a, n, write, pc);
    }
    else if (!in_exe(a)) {
        return;
    }
    if (!E->opt.races || E->th[E->cur].ignore > 0 || n == 0) {
        return;
    }
    uintptr_t e = a + n;
    while (a < e) {
        uintptr_t base = a & ~uintptr_t(7);
        unsigned off   = unsigned(a - base);
        unsigned k     = unsigned(std::min<uintptr_t>(8 - off, e - a));
        race_cell(base, off, k, write, pc);
        a += k;
    }
}

// --------------------------------------------------------------------------------------------------------- fiber body
static void run_atexit(Thread& t) {
    while (t.ndtors > 0) {
        --t.ndtors;
        auto d = t.dtors[t.ndtors];
        d.fn(d.obj);
    }
}

static void fiber_main() {
    Engine& e = *E;
    {
        Thread& t = e.th[e.cur];
        if (t.id != 0) {
            // We have just been scheduled with our OP_START
            hb_local(t, 0x57A7);
            ++e.ops;
        }
    }
    try {
        Thread& t = e.th[e.cur];
        if (t.id == 0) {
            e.scenario->body();
            finish_exec(V_OK);
        }
        else {
            t.ret = t.fn(t.arg);
        }
    }
    catch (abi::__forced_unwind&) {
        throw;
    }
    catch (const std::exception& ex) {
        fail("uncaught exception left thread T%d: %s", E->cur, ex.what());
    }
    catch (...) {
        fail("uncaught exception left thread T%d", E->cur);
    }
    Thread& t = e.th[e.cur];
    run_atexit(t);
    t.state = T_DONE;
    t.exit_obj = obj(&t);
    hb_release(t, *obj(&t), false);
    hb_event_write(t, *obj(&t), OP_EXIT);
    t.pending = Op();
    e.schedule();
    __builtin_trap();
}

// ------------------------------------------------------------------------------------------------------------ snapshot
static uint8_t* g_arena_copy   = nullptr;
static uint8_t* g_valid_copy   = nullptr;
static uintptr_t g_snap_bump   = 0;
static int64_t g_snap_live     = 0;
static TlsTable g_tls_snap;
static Dtor g_dtor_snap[MAX_DTORS];
static int g_ndtor_snap = 0;

void io_snapshot();
static void take_snapshot() {
    io_snapshot();
    g_snap_bump  = g_bump[0];
    size_t n     = g_snap_bump - REGION;
    g_arena_copy = static_cast<uint8_t*>(malloc(n));
    memcpy(g_arena_copy, reinterpret_cast<void*>(REGION), n);
    g_valid_copy = static_cast<uint8_t*>(malloc(n / 8 + 8));
    memcpy(g_valid_copy, g_valid, n / 8);
    for (auto& s : *g_segs) {
        s.copy = static_cast<uint8_t*>(malloc(s.end - s.begin));
        memcpy(s.copy, reinterpret_cast<void*>(s.begin), s.end - s.begin);
    }
    g_snap_live = g_live_blocks;
    g_tls_snap  = E->th[0].tls;
    memcpy(g_dtor_snap, E->th[0].dtors, sizeof g_dtor_snap);
    g_ndtor_snap = E->th[0].ndtors;
}

static void restore_snapshot() {
    size_t n = g_snap_bump - REGION;
    memcpy(reinterpret_cast<void*>(REGION), g_arena_copy, n);
    memcpy(g_valid, g_valid_copy, n / 8);
    for (int t = 0; t < MAXT; ++t) {
        uintptr_t b = t == 0 ? g_snap_bump : REGION + t * ARENA_SIZE;
        if (g_high[t] > b) {
            memset(reinterpret_cast<void*>(b), 0, g_high[t] - b);
            memset(g_valid + ((b - REGION) >> 3), 0, (g_high[t] - b) / 8 + 1);
        }
        g_bump[t] = g_high[t] = t == 0 ? g_snap_bump : b + 64;
    }
    for (auto& s : *g_segs) {
        memcpy(reinterpret_cast<void*>(s.begin), s.copy, s.end - s.begin);
    }
    g_live_blocks = g_snap_live;
}

// for the virtual kernel
void access_hook(const void* p, size_t n, bool write, const void* pc) {
    if (n > 0) {
        access(const_cast<void*>(p), n, write, pc);
    }
}
void hb_acquire_at(const void* p) {
    hb_acquire(self(), *obj(p));
}
void hb_release_at(const void* p) {
    hb_release(self(), *obj(p), true);
}
extern char g_io_object[8];
void hb_io_write(uint64_t kind) {
    hb_event_write(self(), *obj(g_io_object), kind);
    note_write(self());
}

// ------------------------------------------------------------------------------------------------------------- execution
void Engine::run_execution() {
    restore_snapshot();
    ++gen;
    if (gen == 0) {
        ++gen;
    }
    g_nobjs = 0;
    for (int i = 0; i < nthreads; ++i) {
        th[i].reset();
    }
    nthreads    = 1;
    cur         = 0;
    steps       = 0;
    writes      = 0;
    run_length  = 0;
    switches    = 0;
    now         = setup_now;
    tpos        = 0;
    cost        = 0;
    verdict     = V_NONE;
    nevents     = 0;
    quiescent_ok = -1;
    force_yield_retry = 0;
    force_yield_gen   = 0;
    memset(cells, 0, sizeof cells);
    ncover = 0;
    verdict_msg[0] = 0;
    io_reset();
    Thread& m = th[0];
    m.reset();
    m.id    = 0;
    m.state = T_RUN;
    m.tls   = g_tls_snap;
    memcpy(m.dtors, g_dtor_snap, sizeof g_dtor_snap);
    m.ndtors     = g_ndtor_snap;
    m.vc.c[0]    = 1;
    m.h          = 0xABCD;
    m.sp         = make_stack(0);
    g_cxa->caught   = nullptr;
    g_cxa->uncaught = 0;
    active       = true;
    in_exec      = true;
    int depth    = engine_depth;
    engine_depth = 0;
    nmc_switch(&g_master_sp, m.sp);
    engine_depth = depth;
    active       = false;
    in_exec      = false;
}

// ------------------------------------------------------------------------------------------------------------ harness API
int choose(int n, const char* label, int c) {
    Engine& e = *E;
    if (!e.active || n <= 1) {
        return 0;
    }
    std::vector<Alt>* heap = nullptr;
    Alt small[64];
    Alt* alts = small;
    if (n > 64) {
        EngineScope s;
        heap = new std::vector<Alt>(n);
        alts = heap->data();
    }
    Thread& t    = e.th[e.cur];
    uint64_t sum = 0;
    if (e.tpos >= e.prefix_len) {
        sum = state_sum();
    }
    for (int i = 0; i < n; ++i) {
        alts[i] = {ALT_DATA, i, i == 0 ? 0 : c, e.tpos >= e.prefix_len ? mix(mix(sum, 0xC0DE + i), t.h) : 0};
    }
    int r = e.decide(alts, n);
    if (heap != nullptr) {
        EngineScope s;
        delete heap;
    }
    hb_local(t, 0xC401CE + uint64_t(r));
    if (e.verbose) {
        log_step("  T%d choose %s = %d of %d\n", e.cur, label, r, n);
    }
    return r;
}

void point() {
    if (!E->active) {
        return;
    }
    Op op;
    op.kind = OP_POINT;
    op.pc   = __builtin_return_address(0);
    E->sched(op);
    hb_local(self(), OP_POINT);
}

static char g_event_obj[8];
void event(int kind, int64_t a, int64_t b, int64_t c) {
    Engine& e = *E;
    if (!e.active) {
        return;
    }
    Op op;
    op.kind = OP_EVENT;
    op.addr = g_event_obj;
    op.pc   = __builtin_return_address(0);
    e.sched(op);
    hb_local(self(), mix(mix(kind, a), mix(b, c)));
    hb_event_write(self(), *obj(g_event_obj), uint64_t(OP_EVENT) << 32);
    if (e.nevents < MAX_EVENTS) {
        e.events[e.nevents++] = {e.cur, kind, a, b, c, e.now};
    }
    else {
        fail("engine: event log overflow");
    }
    if (e.verbose) {
        log_step("  T%d EVENT %d %lld %lld %lld @%lld\n", e.cur, kind, (long long) a, (long long) b, (long long) c, (long long) (e.now - START_NS));
    }
}
size_t event_count() {
    return E->nevents;
}
Event event_at(size_t i) {
    return E->events[i];
}
int64_t cell_add(int id, int64_t d) {
    E->cells[id] += d;
    if (E->active) {
        hb_event_write(self(), *obj(&E->cells[id]), 0xCE11);
        note_write(self());
    }
    return E->cells[id];
}
int64_t cell_get(int id) {
    if (E->active) {
        hb_event_read(self(), *obj(&E->cells[id]), 0xCE12);
    }
    return E->cells[id];
}
void cell_set(int id, int64_t v) {
    E->cells[id] = v;
    if (E->active) {
        hb_local(self(), v);
        hb_event_write(self(), *obj(&E->cells[id]), 0xCE13);
        note_write(self());
    }
}
void await_cell(int id, int64_t v) {
    Op op;
    op.kind = OP_AWAIT;
    op.arg  = id;
    op.arg2 = v;
    op.pc   = __builtin_return_address(0);
    E->sched(op);
    hb_event_read(self(), *obj(&E->cells[id]), OP_AWAIT);
}
int thread_id() {
    return E->cur;
}
int thread_count() {
    return E->nthreads;
}
uint64_t now_ns() {
    return E->now;
}
void sleep_ns(uint64_t ns) {
    Engine& e = *E;
    Op op;
    op.kind           = OP_SLEEP;
    op.pc             = __builtin_return_address(0);
    e.th[e.cur].deadline = e.now + ns;
    e.sched(op);
    hb_local(self(), mix(OP_SLEEP, e.now));
    self().deadline = 0;
}
void lateness(uint64_t cv_ns, uint64_t sleep_ns) {
    E->late_cv    = cv_ns;
    E->late_sleep = sleep_ns;
}
void quiesce() {
    Op op;
    op.kind = OP_QUIESCE;
    op.pc   = __builtin_return_address(0);
    E->sched(op);
    E->quiescent_ok = -1;
    // everything that happened is visible to the quiescing thread (it stands outside of the program)
    Thread& t = self();
    uint64_t s = 0;
    for (int i = 0; i < E->nthreads; ++i) {
        s += mix(E->th[i].h, i);
        t.vc.join(E->th[i].vc);
    }
    hb_local(t, s);
}
bool others_blocked() {
    for (int i = 0; i < E->nthreads; ++i) {
        if (i != E->cur && E->th[i].state == T_RUN && op_enabled(E->th[i])) {
            return false;
        }
    }
    return true;
}
void cover(const char* label) {
    if (E->ncover < MAX_COVER) {
        E->covers[E->ncover++] = label;
    }
}
void note(const char* fmt, ...) {
    if (!E->verbose) {
        return;
    }
    va_list ap;
    va_start(ap, fmt);
    fprintf(stdout, "  T%d note: ", E->cur);
    vfprintf(stdout, fmt, ap);
    fprintf(stdout, "\n");
    va_end(ap);
}
bool thorough() {
    return E->is_thorough;
}
bool active() {
    return E != nullptr && E->active;
}
void ignore_begin() {
    ++self().ignore;
}
void ignore_end() {
    --self().ignore;
}

// ------------------------------------------------------------------------------------------------------------- atomics
static inline bool acq(int mo) {
    return mo == 1 || mo == 2 || mo == 4 || mo == 5;
}
static inline bool rel(int mo) {
    return mo == 3 || mo == 4 || mo == 5;
}

static inline bool quiet_atomic(const void* a) {
    auto p = reinterpret_cast<uintptr_t>(a);
    return in_exe(p) && g_guards->count(p & ~uintptr_t(7)) != 0;
}

// plain-access race bookkeeping for atomics: an atomic access races with unordered plain accesses only
static inline void atomic_valid(const void* p, size_t n, bool write, const void* pc) {
    auto a = reinterpret_cast<uintptr_t>(p);
    if (in_arena(a)) {
        check_valid(a, n, write, pc);
    }
}

static void hist_push(Obj& o, Thread& t, uint64_t value, int mo) {
    // keep the last HIST stores
    if (o.nhist == HIST) {
        for (int i = 1; i < HIST; ++i) {
            o.hist[i - 1] = o.hist[i];
        }
        --o.nhist;
        ++o.hist_base;
    }
    Hist& h    = o.hist[o.nhist++];
    h.value    = value;
    h.tid      = t.id;
    h.clk      = t.vc.c[t.id];
    h.sc       = mo == 5;
    h.has_sync = o.has_sync;
    h.sync     = o.sync;
    h.wh       = o.wh;
    o.seen[t.id] = uint32_t(o.hist_base + o.nhist - 1);
}

static inline void ensure_hist(Obj& o, const void* p, size_t n) {
    if (o.nhist == 0) {
        uint64_t v = 0;
        memcpy(&v, p, n);
        Hist& h    = o.hist[0];
        h.value    = v;
        h.tid      = 0;
        h.clk      = 0;
        h.sc       = false;
        h.has_sync = false;
        h.wh       = o.wh;
        o.nhist    = 1;
        o.hist_base = 0;
    }
}

template <typename T>
static T atomic_load(const volatile T* a, int mo, const void* pc) {
    auto* p = const_cast<T*>(a);
    if (E == nullptr || !E->active) {
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);
    }
    atomic_valid(p, sizeof(T), false, pc);
    bool quiet = quiet_atomic(p);
    if (!quiet) {
        Op op;
        op.kind = OP_LOAD;
        op.addr = p;
        op.size = sizeof(T);
        op.pc   = pc;
        E->sched(op);
        atomic_valid(p, sizeof(T), false, pc);
    }
    Thread& t = self();
    Obj& o    = *obj(p);
    T value   = *p;
    if (E->opt.weak && !quiet) {
        ensure_hist(o, p, sizeof(T));
        // candidates: newest first
        int cand[HIST];
        int nc = 0;
        for (int i = o.nhist - 1; i >= 0; --i) {
            cand[nc++] = i;
            // may we go older than i?  not if store i happens-before this load, or has been seen, or both are SC
            const Hist& h = o.hist[i];
            if (t.vc.c[h.tid] >= h.clk || o.seen[t.id] >= uint32_t(o.hist_base + i) + 0u
                || (mo == 5 && h.sc)) {
                if (o.seen[t.id] > uint32_t(o.hist_base + i)) {
                    --nc;
                    if (nc == 0) {
                        nc = 1;
                    }
                }
                break;
            }
        }
        int pick = 0;
        if (nc > 1) {
            Alt alts[HIST];
            uint64_t sum = E->tpos >= E->prefix_len ? state_sum() : 0;
            for (int i = 0; i < nc; ++i) {
                alts[i] = {ALT_DATA, i, i == 0 ? 0 : 1, 0};
                if (E->tpos >= E->prefix_len) {
                    alts[i].key = mix(mix(sum, 0x57A1E + i), mix(t.h, o.wh));
                }
            }
            pick = E->decide(alts, nc);
        }
        int idx      = cand[pick];
        Hist& h      = o.hist[idx];
        o.seen[t.id] = uint32_t(o.hist_base + idx);
        if (pick > 0) {
            value = T(h.value);
            if (E->verbose) {
                log_step("    (stale read: value %llu instead of %llu)\n", (unsigned long long) h.value, (unsigned long long) *p);
            }
            if (h.has_sync) {
                if (acq(mo)) {
                    t.vc.join(h.sync);
                }
                else {
                    t.acq_pending.join(h.sync);
                    t.has_acq_pending = true;
                }
            }
            t.h = mix(mix(t.h, uint64_t(OP_LOAD) << 32 | sizeof(T)), h.wh);
            note_read(t, &o);
            spin_stale(t, &o);
            return value;
        }
    }
    if (acq(mo)) {
        hb_acquire(t, o);
    }
    else if (o.has_sync) {
        t.acq_pending.join(o.sync);
        t.has_acq_pending = true;
    }
    hb_event_read(t, o, uint64_t(OP_LOAD) << 32 | sizeof(T));
    note_read(t, &o);
    return value;
}

template <typename T>
static void store_effect(Thread& t, Obj& o, int mo, bool rmw) {
    if (rel(mo)) {
        hb_release(t, o, rmw);
    }
    else {
        if (t.has_rel_fence) {
            if (rmw && o.has_sync) {
                o.sync.join(t.rel_fence);
            }
            else {
                o.sync = t.rel_fence;
            }
            o.has_sync = true;
            ++t.vc.c[t.id];
        }
        else if (!rmw) {
            o.has_sync = false;
        }
    }
}

template <typename T>
static void atomic_store(volatile T* a, T v, int mo, const void* pc) {
    auto* p = const_cast<T*>(a);
    if (E == nullptr || !E->active) {
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
        return;
    }
    atomic_valid(p, sizeof(T), true, pc);
    Op op;
    op.kind = OP_STORE;
    op.addr = p;
    op.size = sizeof(T);
    op.pc   = pc;
    E->sched(op);
    atomic_valid(p, sizeof(T), true, pc);
    Thread& t = self();
    Obj& o    = *obj(p);
    if (E->opt.weak) {
        ensure_hist(o, p, sizeof(T));
    }
    uint32_t clk_before = t.vc.c[t.id];
    store_effect<T>(t, o, mo, false);
    hb_event_write(t, o, uint64_t(OP_STORE) << 32 | sizeof(T));
    note_write(t);
    *p = v;
    if (E->opt.weak) {
        hist_push(o, t, uint64_t(v), mo);
        o.hist[o.nhist - 1].clk = clk_before;
    }
}

template <typename T, typename F>
static T atomic_rmw(volatile T* a, int mo, const void* pc, const F& f) {
    auto* p = const_cast<T*>(a);
    if (E == nullptr || !E->active) {
        T old = *p;
        *p    = f(old);
        return old;
    }
    atomic_valid(p, sizeof(T), true, pc);
    Op op;
    op.kind = OP_RMW;
    op.addr = p;
    op.size = sizeof(T);
    op.pc   = pc;
    E->sched(op);
    atomic_valid(p, sizeof(T), true, pc);
    Thread& t = self();
    Obj& o    = *obj(p);
    if (E->opt.weak) {
        ensure_hist(o, p, sizeof(T));
    }
    T old = *p;
    if (acq(mo)) {
        hb_acquire(t, o);
    }
    else if (o.has_sync) {
        t.acq_pending.join(o.sync);
        t.has_acq_pending = true;
    }
    uint32_t clk_before = t.vc.c[t.id];
    store_effect<T>(t, o, mo, true);
    hb_event_write(t, o, uint64_t(OP_RMW) << 32 | sizeof(T));
    note_write(t);
    *p = f(old);
    if (E->opt.weak) {
        hist_push(o, t, uint64_t(*p), mo);
        o.hist[o.nhist - 1].clk = clk_before;
    }
    return old;
}

template <typename T>
static bool atomic_cas(volatile T* a, T* expected, T desired, int mo, int fmo, bool weak, const void* pc) {
    auto* p = const_cast<T*>(a);
    if (E == nullptr || !E->active) {
        return __atomic_compare_exchange_n(p, expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    }
    atomic_valid(p, sizeof(T), true, pc);
    Op op;
    op.kind = OP_CAS;
    op.addr = p;
    op.size = sizeof(T);
    op.pc   = pc;
    memcpy(&op.expected, expected, sizeof(T));
    E->sched(op);
    atomic_valid(p, sizeof(T), true, pc);
    Thread& t = self();
    Obj& o    = *obj(p);
    if (E->opt.weak) {
        ensure_hist(o, p, sizeof(T));
    }
    T old       = *p;
    bool ok     = old == *expected;
    if (ok && weak && E->opt.weak_cas) {
        Alt alts[2];
        uint64_t sum = state_sum();
        alts[0]      = {ALT_DATA, 0, 0, mix(mix(sum, 0xCA5), mix(t.h, o.wh))};
        alts[1]      = {ALT_DATA, 1, 1, mix(mix(sum, 0xCA6), mix(t.h, o.wh))};
        if (E->decide(alts, 2) == 1) {
            ok = false;
            hb_local(t, 0xFA15E);
        }
    }
    int m = ok ? mo : fmo;
    if (acq(m)) {
        hb_acquire(t, o);
    }
    else if (o.has_sync) {
        t.acq_pending.join(o.sync);
        t.has_acq_pending = true;
    }
    if (ok) {
        uint32_t clk_before = t.vc.c[t.id];
        store_effect<T>(t, o, mo, true);
        hb_event_write(t, o, uint64_t(OP_CAS) << 32 | sizeof(T));
        note_write(t);
        *p = desired;
        if (E->opt.weak) {
            hist_push(o, t, uint64_t(desired), mo);
            o.hist[o.nhist - 1].clk = clk_before;
        }
        return true;
    }
    hb_event_read(t, o, uint64_t(OP_CAS) << 32 | sizeof(T));
    if (E->opt.weak) {
        o.seen[t.id] = uint32_t(o.hist_base + o.nhist - 1);
    }
    note_read(t, &o);
    *expected = old;
    return false;
}

static void atomic_fence(int mo, const void* pc) {
    if (E == nullptr || !E->active) {
        return;
    }
    Thread& t = self();
    (void) pc;
    if (acq(mo) && t.has_acq_pending) {
        t.vc.join(t.acq_pending);
    }
    if (mo == 5) {
        t.vc.join(E->sc_fence);
        E->sc_fence.join(t.vc);
    }
    if (rel(mo)) {
        t.rel_fence     = t.vc;
        t.has_rel_fence = true;
        ++t.vc.c[t.id];
    }
    hb_local(t, 0xFE4CE + mo);
}

// ------------------------------------------------------------------------------------------------------------- mutexes
void Engine::lock(void* m, const void* pc) {
    Op op;
    op.kind = OP_LOCK;
    op.addr = m;
    op.pc   = pc;
    atomic_valid(m, 8, true, pc);
    if (obj(m)->owner == cur) {
        fail("mutex locked twice by T%d (%s)", cur, symbolise(reinterpret_cast<uintptr_t>(m)).c_str());
    }
    sched(op);
    atomic_valid(m, 8, true, pc);
    Thread& t = self();
    Obj& o    = *obj(m);
    o.owner   = cur;
    hb_acquire(t, o);
    hb_event_write(t, o, uint64_t(OP_LOCK) << 32);
    note_write(t);
    spin_add(t, &o);
}
void Engine::unlock(void* m, const void* pc) {
    Thread& t = self();
    Obj& o    = *obj(m);
    atomic_valid(m, 8, true, pc);
    if (o.owner != cur) {
        fail("mutex unlocked by T%d which does not hold it (%s)", cur, symbolise(reinterpret_cast<uintptr_t>(m)).c_str());
    }
    o.owner = -1;
    hb_release(t, o, true);
    hb_event_write(t, o, uint64_t(OP_UNLOCK) << 32);
    note_write(t);
}
bool Engine::trylock(void* m, const void* pc) {
    Op op;
    op.kind = OP_TRYLOCK;
    op.addr = m;
    op.pc   = pc;
    sched(op);
    Thread& t = self();
    Obj& o    = *obj(m);
    if (o.owner >= 0) {
        hb_event_write(t, o, uint64_t(OP_TRYLOCK) << 32);
        return false;
    }
    o.owner = cur;
    hb_acquire(t, o);
    hb_event_write(t, o, uint64_t(OP_TRYLOCK) << 32);
    note_write(t);
    return true;
}

// deadline 0 = none; returns true when timed out
bool Engine::cond_wait(void* c, void* m, uint64_t deadline, const void* pc) {
    Op op;
    op.kind = OP_WAIT;
    op.addr = c;
    op.pc   = pc;
    sched(op);
    Thread& t = self();
    Obj& co   = *obj(c);
    hb_event_write(t, co, uint64_t(OP_WAIT) << 32);
    co.wait[co.nwait++] = uint8_t(cur);
    unlock(m, pc);
    t.signalled = false;
    t.timed_out = false;
    t.deadline  = deadline;
    Op r;
    r.kind  = OP_RELOCK;
    r.addr  = c;
    r.addr2 = m;
    r.pc    = pc;
    sched(r);
    Thread& u = self();
    Obj& c2   = *obj(c);
    bool to   = false;
    if (!u.signalled) {
        to = true;
        remove_waiter(c2, cur);
        hb_local(u, mix(0x7117, now));
        hb_event_write(u, c2, 0x7117);
    }
    u.deadline  = 0;
    u.signalled = false;
    Obj& mo     = *obj(m);
    mo.owner    = cur;
    hb_acquire(u, mo);
    hb_event_write(u, mo, uint64_t(OP_RELOCK) << 32);
    note_write(u);
    return to;
}
void Engine::cond_notify(void* c, bool all, const void* pc) {
    Op op;
    op.kind = OP_NOTIFY;
    op.addr = c;
    op.pc   = pc;
    atomic_valid(c, 8, true, pc);
    sched(op);
    atomic_valid(c, 8, true, pc);
    Thread& t = self();
    Obj& o    = *obj(c);
    hb_event_write(t, o, uint64_t(OP_NOTIFY) << 32 | (all ? 1 : 0));
    note_write(t);
    if (o.nwait == 0) {
        return;
    }
    if (all) {
        for (int i = 0; i < o.nwait; ++i) {
            th[o.wait[i]].signalled = true;
        }
        o.nwait = 0;
        return;
    }
    int k = 0;
    if (o.nwait > 1) {
        Alt alts[MAXT];
        uint64_t sum = state_sum();
        for (int i = 0; i < o.nwait; ++i) {
            alts[i] = {ALT_DATA, i, i == 0 ? 0 : 1, mix(mix(sum, 0x107 + o.wait[i]), t.h)};
        }
        k = decide(alts, o.nwait);
        hb_local(t, 0x107 + k);
        hb_event_write(t, o, 0x107);
    }
    int w = o.wait[k];
    remove_waiter(o, w);
    th[w].signalled = true;
}

int Engine::create(void* (*fn)(void*), void* arg) {
    Op op;
    op.kind = OP_CREATE;
    op.addr = &nthreads;
    op.pc   = __builtin_return_address(0);
    sched(op);
    Thread& t = self();
    if (nthreads >= MAXT) {
        fail("engine: too many threads");
    }
    int id = nthreads++;
    hb_event_write(t, *obj(&nthreads), uint64_t(OP_CREATE) << 32);
    note_write(t);
    Thread& n = th[id];
    n.reset();
    n.id    = id;
    n.state = T_RUN;
    n.fn    = fn;
    n.arg   = arg;
    n.sp    = make_stack(id);
    n.vc    = t.vc;
    ++t.vc.c[cur];
    n.vc.c[id]     = 1;
    n.h            = mix(t.h, id);
    n.pending      = Op();
    n.pending.kind = OP_START;
    return id;
}
void Engine::join(int id) {
    Op op;
    op.kind = OP_JOIN;
    op.arg  = id;
    op.pc   = __builtin_return_address(0);
    sched(op);
    Thread& t = self();
    t.vc.join(th[id].vc);
    hb_event_read(t, *obj(&th[id]), OP_JOIN);
    note_write(t);
}

uint64_t Engine::read_clock() {
    if (!active) {
        return now;
    }
    Thread& t = th[cur];
    if (++t.clock_reads > 12 && t.last_clock == now) {
        // spinning on the clock
        t.deadline = now + opt.spin_ns;
        Op op;
        op.kind = OP_SPINCLOCK;
        sched(op);
        Thread& u     = self();
        u.deadline    = 0;
        u.clock_reads = 0;
    }
    Thread& u    = self();
    u.last_clock = now;
    if (now != u.hashed_clock) {
        u.hashed_clock = now;
        hb_local(u, mix(0xC10C, now));
    }
    return now;
}

// --------------------------------------------------------------------------------------------------------- exploration
struct SharedHdr {
    volatile int lock;
    volatile int level;
    volatile int busy;
    volatile int stop;
    volatile int finished;
    volatile uint64_t deferred[MAX_LEVEL + 1];
    volatile uint64_t execs, complete, pruned, states, ops, truncated, cut, maxdepth, maxthreads, known_hits, userpruned;
    volatile uint64_t live_execs;
    volatile int table_full;
    volatile int capped;
    // violation
    volatile int have_violation;
    char msg[1500];
    uint32_t vlen;
    uint8_t vtrace[MAX_TRACE];
    uint8_t vtrace_n[MAX_TRACE];
    uint32_t vcost;
    // known finding hits
    volatile int nknown;
    struct {
        char msg[400];
        uint32_t len;
        volatile uint64_t hits;
        uint8_t trace[8192];
        uint8_t trace_n[8192];
    } known[16];
    // coverage labels
    volatile int ncover;
    struct {
        char label[64];
        volatile uint64_t count;
    } cover[128];
    // one complete, non-default execution, kept as a sample for the evidence
    volatile int have_sample;
    uint32_t slen;
    uint8_t strace[2048];
    uint8_t strace_n[2048];
    // donation ring
    volatile uint32_t head, tail;
    struct Slot {
        uint32_t len;
        uint32_t cost;
        uint8_t t[4096];
        uint8_t n[4096];
    } ring[256];
};

static void spin_lock(volatile int* l) {
    while (__sync_lock_test_and_set(l, 1) != 0) {
        struct timespec ts = {0, 20000};
        syscall(35 /*nanosleep*/, &ts, nullptr);
    }
}
static void spin_unlock(volatile int* l) {
    __sync_lock_release(l);
}

struct TraceBuf {
    std::vector<uint8_t> t, n;
};
struct Item {
    std::shared_ptr<TraceBuf> buf;
    uint32_t len;  // prefix length before the final choice
    uint8_t pick;
    uint8_t npick;
    uint8_t cost;
    uint64_t key;
};

struct Explorer : ExplorerBase {
    SharedHdr* sh            = nullptr;
    uint64_t* table          = nullptr;
    uint64_t table_mask      = 0;
    std::vector<Item> local;
    std::vector<std::vector<Item>> deferred;
    int level = 0;
    std::shared_ptr<TraceBuf> pending_buf;  // buffer for the execution being run
    std::vector<std::pair<uint32_t, std::pair<uint8_t, std::pair<uint8_t, uint64_t>>>> offers;
    const std::vector<std::string>* known = nullptr;

    // returns true when the state has not been visited at this or a lower cost
    bool visit(uint64_t key, int cost) override {
        uint64_t tag = key & ~uint64_t(15);
        if (tag == 0) {
            tag = 16;
        }
        uint64_t i = (key >> 20) & table_mask;
        for (int probe = 0; probe < 64; ++probe) {
            uint64_t v = __atomic_load_n(&table[i], __ATOMIC_RELAXED);
            if (v == 0) {
                uint64_t want = tag | uint64_t(cost);
                if (__sync_bool_compare_and_swap(&table[i], 0, want)) {
                    __sync_fetch_and_add(&sh->states, 1);
                    return true;
                }
                v = table[i];
            }
            if ((v & ~uint64_t(15)) == tag) {
                while (true) {
                    if (int(v & 15) <= cost) {
                        return false;
                    }
                    if (__sync_bool_compare_and_swap(&table[i], v, tag | uint64_t(cost))) {
                        return true;
                    }
                    v = table[i];
                }
            }
            i = (i + 1) & table_mask;
        }
        sh->table_full = 1;
        return true;  // no room: never prune
    }
    bool stale(uint64_t key, int cost) {
        uint64_t tag = key & ~uint64_t(15);
        if (tag == 0) {
            tag = 16;
        }
        uint64_t i = (key >> 20) & table_mask;
        for (int probe = 0; probe < 64; ++probe) {
            uint64_t v = table[i];
            if (v == 0) {
                return false;
            }
            if ((v & ~uint64_t(15)) == tag) {
                return int(v & 15) < cost;
            }
            i = (i + 1) & table_mask;
        }
        return false;
    }
    void offer(Engine& e, size_t pos, int pick, int cost, uint64_t key) override {
        if (cost > e.opt.bound) {
            __sync_fetch_and_add(&sh->cut, 1);
            return;
        }
        if (key != 0 && !visit(key, cost)) {
            return;
        }
        offers.push_back({uint32_t(pos), {uint8_t(pick), {uint8_t(cost), key}}});
    }
    void flush_offers(Engine& e) {
        if (offers.empty()) {
            return;
        }
        auto b = std::make_shared<TraceBuf>();
        size_t need = offers.back().first + 1;
        b->t.assign(e.trace, e.trace + need);
        b->n.assign(e.trace_n, e.trace_n + need);
        for (auto& o : offers) {
            Item it;
            it.buf   = b;
            it.len   = o.first;
            it.pick  = o.second.first;
            it.npick = e.trace_n[o.first];
            it.cost  = o.second.second.first;
            it.key   = o.second.second.second;
            if (it.cost <= level) {
                local.push_back(it);
            }
            else {
                deferred[it.cost].push_back(it);
                __sync_fetch_and_add(&sh->deferred[it.cost], 1);
            }
        }
        offers.clear();
    }
    void load(Engine& e, const Item& it) {
        if (it.len > 0) {
            memcpy(e.trace, it.buf->t.data(), it.len);
            memcpy(e.trace_n, it.buf->n.data(), it.len);
        }
        e.trace[it.len]   = it.pick;
        e.trace_n[it.len] = it.npick;
        e.prefix_len      = it.len + 1;
    }
    void donate() {
        if (local.size() < 2) {
            return;
        }
        uint32_t used = sh->tail - sh->head;
        if (used >= 64) {
            return;
        }
        spin_lock(&sh->lock);
        size_t give = std::min<size_t>(local.size() / 2, 32);
        size_t k    = 0;
        size_t kept = 0;
        for (; k < give && sh->tail - sh->head < 250; ++k) {
            Item& it = local[k];
            if (it.len + 1 >= 4096) {
                local[kept++] = it;
                continue;
            }
            auto& s = sh->ring[sh->tail % 256];
            s.len   = it.len + 1;
            s.cost  = it.cost;
            if (it.len > 0) {
                memcpy(s.t, it.buf->t.data(), it.len);
                memcpy(s.n, it.buf->n.data(), it.len);
            }
            s.t[it.len] = it.pick;
            s.n[it.len] = it.npick;
            ++sh->tail;
        }
        spin_unlock(&sh->lock);
        if (k > kept) {
            local.erase(local.begin() + kept, local.begin() + k);
        }
    }
    // 1 = item loaded, 0 = all done
    int next(Engine& e, bool& root) {
        bool counted = true;  // we are counted as busy
        while (true) {
            if (sh->stop) {
                return 0;
            }
            if (root) {
                root         = false;
                e.prefix_len = 0;
                return 1;
            }
            while (!local.empty()) {
                Item it = local.back();
                local.pop_back();
                if (it.key != 0 && stale(it.key, it.cost)) {
                    continue;
                }
                load(e, it);
                return 1;
            }
            // ring
            spin_lock(&sh->lock);
            if (sh->tail != sh->head) {
                auto& s = sh->ring[sh->head % 256];
                ++sh->head;
                memcpy(e.trace, s.t, s.len);
                memcpy(e.trace_n, s.n, s.len);
                e.prefix_len = s.len;
                if (!counted) {
                    ++sh->busy;
                }
                spin_unlock(&sh->lock);
                return 1;
            }
            if (counted) {
                --sh->busy;
                counted = false;
            }
            if (sh->busy == 0 && sh->level == level && sh->deferred[level] == 0) {
                // (deferred[level]: somebody has not started on its share of this level yet)
                // level finished
                int nl = level + 1;
                while (nl <= e.opt.bound && sh->deferred[nl] == 0) {
                    ++nl;
                }
                if (nl > e.opt.bound) {
                    sh->finished = 1;
                    sh->stop     = sh->stop != 0 ? sh->stop : 1;
                }
                else {
                    sh->level = nl;
                }
            }
            int lv = sh->level;
            if (lv != level && !sh->finished) {
                ++sh->busy;
                counted = true;
            }
            spin_unlock(&sh->lock);
            if (sh->finished) {
                return 0;
            }
            if (lv != level) {
                level = lv;
                local.swap(deferred[lv]);
                deferred[lv].clear();
                __sync_fetch_and_sub(&sh->deferred[lv], uint64_t(local.size()));
                e.level_bound = e.opt.bound;
                continue;
            }
            struct timespec ts = {0, 100000};
            syscall(35, &ts, nullptr);
        }
    }
};

static volatile SharedHdr* g_sh = nullptr;
static uint64_t g_last_execs    = 0;
static unsigned g_hang_secs     = 15;

static void save_violation(SharedHdr* sh, const char* msg) {
    spin_lock(&sh->lock);
    if (!sh->have_violation) {
        snprintf(sh->msg, sizeof sh->msg, "%s", msg);
        sh->vlen = uint32_t(E->tpos);
        memcpy(sh->vtrace, E->trace, E->tpos);
        memcpy(sh->vtrace_n, E->trace_n, E->tpos);
        sh->vcost          = uint32_t(E->cost);
        sh->have_violation = 1;
        sh->stop           = 2;
    }
    spin_unlock(&sh->lock);
}

static void crash_handler(int sig, siginfo_t* si, void* /*ctx*/) {
    char buf[400];
    if (sig == SIGALRM) {
        if (E != nullptr && E->execs_done != g_last_execs) {
            g_last_execs = E->execs_done;
            alarm(g_hang_secs);
            return;
        }
        snprintf(buf, sizeof buf, "execution hangs: does not end (T%d)", E != nullptr ? E->cur : -1);
    }
    else {
        snprintf(buf,
                 sizeof buf,
                 "%s in T%d (address %p)",
                 sig == SIGABRT ? "abort/terminate/assertion" : strsignal(sig),
                 E != nullptr ? E->cur : -1,
                 sig == SIGABRT ? nullptr : si->si_addr);
    }
    if (E != nullptr && E->in_exec && g_sh != nullptr) {
        save_violation(const_cast<SharedHdr*>(g_sh), buf);
        _exit(77);
    }
    fprintf(stderr, "nmc: crash outside of exploration: %s\n", buf);
    _exit(E != nullptr && E->in_exec ? 77 : 3);
}

static void install_handlers() {
    static uint8_t alt[65536];
    stack_t ss = {};
    ss.ss_sp   = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa = {};
    sa.sa_sigaction     = crash_handler;
    sa.sa_flags         = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGALRM}) {
        sigaction(s, &sa, nullptr);
    }
}

static double wall() {
    struct timespec ts;
    syscall(228 /*clock_gettime*/, 1, &ts);
    return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
}

static void worker(Explorer& x, int id, double t_end, uint64_t max_execs) {
    Engine& e     = *E;
    SharedHdr* sh = x.sh;
    bool root     = id == 0;
    e.explore     = &x;
    e.level_bound = e.opt.bound;
    alarm(g_hang_secs);
    uint64_t local_n = 0;
    while (x.next(e, root) == 1) {
        x.offers.clear();
        uint64_t ops0 = e.ops;
        e.run_execution();
        ++e.execs_done;
        ++local_n;
        x.flush_offers(e);
        __sync_fetch_and_add(&sh->execs, 1);
        __sync_fetch_and_add(&sh->ops, e.ops - ops0);
        if (e.tpos > sh->maxdepth) {
            sh->maxdepth = e.tpos;
        }
        if (uint64_t(e.nthreads) > sh->maxthreads) {
            sh->maxthreads = uint64_t(e.nthreads);
        }
        switch (e.verdict) {
            case V_OK:
                __sync_fetch_and_add(&sh->complete, 1);
                if (sh->have_sample < 1 + e.cost && e.tpos <= sizeof sh->strace) {
                    spin_lock(&sh->lock);
                    sh->have_sample = 1 + e.cost;
                    sh->slen        = uint32_t(e.tpos);
                    memcpy(sh->strace, e.trace, e.tpos);
                    memcpy(sh->strace_n, e.trace_n, e.tpos);
                    spin_unlock(&sh->lock);
                }
                break;
            case V_PRUNED: __sync_fetch_and_add(&sh->pruned, 1); break;
            case V_PRUNED_USER: __sync_fetch_and_add(&sh->userpruned, 1); break;
            case V_TRUNCATED: __sync_fetch_and_add(&sh->truncated, 1); break;
            case V_NONDET: {
                spin_lock(&sh->lock);
                snprintf(sh->msg, sizeof sh->msg, "%.1400s", e.verdict_msg);
                sh->stop = 3;
                spin_unlock(&sh->lock);
                return;
            }
            case V_VIOLATION: {
                bool is_known = false;
                for (size_t k = 0; k < x.known->size(); ++k) {
                    if (strstr(e.verdict_msg, (*x.known)[k].c_str()) != nullptr) {
                        is_known = true;
                        __sync_fetch_and_add(&sh->known_hits, 1);
                        spin_lock(&sh->lock);
                        bool found = false;
                        for (int i = 0; i < sh->nknown; ++i) {
                            if (strcmp(sh->known[i].msg, (*x.known)[k].c_str()) == 0) {
                                found = true;
                                ++sh->known[i].hits;
                            }
                        }
                        if (!found && sh->nknown < 16) {
                            auto& kn = sh->known[sh->nknown];
                            snprintf(kn.msg, sizeof kn.msg, "%s", (*x.known)[k].c_str());
                            kn.hits = 1;
                            kn.len  = uint32_t(std::min<size_t>(e.tpos, sizeof kn.trace));
                            memcpy(kn.trace, e.trace, kn.len);
                            memcpy(kn.trace_n, e.trace_n, kn.len);
                            ++sh->nknown;
                        }
                        spin_unlock(&sh->lock);
                        break;
                    }
                }
                if (!is_known) {
                    save_violation(sh, e.verdict_msg);
                    return;
                }
                break;
            }
            default: break;
        }
        for (int i = 0; i < e.ncover; ++i) {
            const char* l = e.covers[i];
            int k         = 0;
            for (; k < sh->ncover; ++k) {
                if (strcmp(sh->cover[k].label, l) == 0) {
                    __sync_fetch_and_add(&sh->cover[k].count, 1);
                    break;
                }
            }
            if (k == sh->ncover) {
                spin_lock(&sh->lock);
                for (k = 0; k < sh->ncover; ++k) {
                    if (strcmp(sh->cover[k].label, l) == 0) {
                        break;
                    }
                }
                if (k == sh->ncover && k < 128) {
                    snprintf(sh->cover[k].label, sizeof sh->cover[k].label, "%s", l);
                    sh->cover[k].count = 0;
                    ++sh->ncover;
                }
                if (k < 128) {
                    __sync_fetch_and_add(&sh->cover[k].count, 1);
                }
                spin_unlock(&sh->lock);
            }
        }
        if ((local_n & 15) == 0) {
            x.donate();
            if ((t_end != 0 && wall() > t_end) || (max_execs != 0 && sh->execs > max_execs)) {
                sh->capped = 1;
                sh->stop   = 4;
            }
        }
    }
}

static std::string json_escape(const std::string& s) {
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        }
        else if (c == '\n') {
            r += "\\n";
        }
        else if (static_cast<unsigned char>(c) < 32) {
            r += ' ';
        }
        else {
            r += c;
        }
    }
    return r;
}

static std::map<std::string, std::string>* g_args;
const char* arg_or(const char* key, const char* def) {
    auto it = g_args->find(key);
    return it == g_args->end() ? def : it->second.c_str();
}

static void warmup() {
    // touch lazily initialised library state before the snapshot
    try {
        throw 1;
    }
    catch (int) {
    }
}

static void engine_setup(const Scenario& s) {
    E->scenario = &s;
    E->cur      = 0;
    E->nthreads = 1;
    E->th[0].reset();
    E->now = START_NS;
    E->late_cv = E->late_sleep = 0;
    warmup();
    int d        = engine_depth;
    engine_depth = 0;
    if (s.setup != nullptr) {
        s.setup();
    }
    engine_depth = d;
    E->setup_now = E->now;
    take_snapshot();
}

static uint8_t* shared_bytes(size_t n) {
    return static_cast<uint8_t*>(
        mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
}

static int explore_round(const Scenario& s, const Options& o, int workers, const std::string& replay_dir, const std::string& property,
                         const std::vector<std::string>& known, FILE* json, double budget, bool final, int round, double t0, bool& again);

static int explore_scenario(const Scenario& s, const Options& o, int workers, const std::string& replay_dir, const std::string& property,
                            const std::vector<std::string>& known, FILE* json, double budget) {
    g_conf      = static_cast<uint8_t*>(calloc(1, CONF_SIZE));
    g_conf_next = shared_bytes(CONF_SIZE);
    g_conf_new  = reinterpret_cast<volatile uint32_t*>(shared_bytes(4096));
    double t0   = wall();
    int rc      = 0;
    // learning rounds at low bounds, then the real one
    Options lo  = o;
    for (int round = 0; round < 40; ++round) {
        const bool final = lo.bound >= o.bound;
        bool again       = false;
        rc               = explore_round(s, lo, workers, replay_dir, property, known, json, budget, final, round, t0, again);
        if (rc != 0) {
            break;
        }
        if (again) {
            memcpy(g_conf, g_conf_next, CONF_SIZE);
            *g_conf_new = 0;
            continue;
        }
        if (final) {
            break;
        }
        ++lo.bound;
    }
    munmap(g_conf_next, CONF_SIZE);
    munmap(const_cast<uint32_t*>(g_conf_new), 4096);
    free(g_conf);
    g_conf = nullptr;
    return rc;
}

static int explore_round(const Scenario& s, const Options& o, int workers, const std::string& replay_dir, const std::string& property,
                         const std::vector<std::string>& known, FILE* json, double budget, bool final, int round, double t0, bool& again) {
    Engine& e     = *E;
    e.opt         = o;
    size_t tabsz  = size_t(8) << o.table_log2;
    auto* sh      = static_cast<SharedHdr*>(
        mmap(nullptr, sizeof(SharedHdr), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    auto* table = static_cast<uint64_t*>(
        mmap(nullptr, tabsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    sh->busy  = workers;
    sh->level = 0;
    double lim = o.max_secs;
    if (budget > 0 && (lim == 0 || budget < lim)) {
        lim = budget;
    }
    double t_end = lim > 0 ? t0 + lim : 0;
    std::vector<pid_t> pids;
    fflush(nullptr);
    for (int w = 0; w < workers; ++w) {
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            g_sh = sh;
            install_handlers();
            engine_setup(s);
            Explorer x;
            x.sh         = sh;
            x.table      = table;
            x.table_mask = (uint64_t(1) << o.table_log2) - 1;
            x.deferred.resize(MAX_LEVEL + 2);
            x.known = &known;
            worker(x, w, t_end, o.max_execs);
            fflush(nullptr);
            _exit(0);
        }
        pids.push_back(p);
    }
    int rc = 0;
    bool died = false;
    size_t left = pids.size();
    while (left > 0) {
        int status = 0;
        pid_t p    = waitpid(-1, &status, 0);
        if (p <= 0) {
            break;
        }
        --left;
        if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
            died = true;
            if (!(WIFEXITED(status) && WEXITSTATUS(status) == 77)) {
                fprintf(stderr, "nmc: worker ended abnormally (status %x) in %s\n", status, s.name);
                rc = 3;
            }
            sh->stop = sh->stop != 0 ? sh->stop : 5;
        }
    }
    double secs = wall() - t0;
    (void) died;
    if (sh->stop == 3) {
        fprintf(stderr, "nmc: INTERNAL scenario %s: %s\n", s.name, sh->msg);
        rc = 3;
    }
    again           = *g_conf_new != 0;
    const bool more = again && round < 39 && !sh->capped && !(t_end != 0 && wall() > t_end);
    bool exhaustive = sh->finished && !sh->capped && sh->truncated == 0 && !again;
    if (sh->capped) {
        // out of time: this is the last round, whatever it covered
        final = true;
        again = false;
    }
    if (rc == 0 && !sh->have_violation && (more || !final)) {
        munmap(sh, sizeof(SharedHdr));
        munmap(table, tabsz);
        return 0;
    }
    again = false;
    std::string replay;
    if (sh->have_violation) {
        rc     = 1;
        replay = replay_dir + "/" + property + "_" + s.name + ".replay";
        FILE* f = fopen(replay.c_str(), "w");
        if (f != nullptr) {
            fprintf(f, "scenario %s\nmessage %s\nconflicts", s.name, sh->msg);
            for (uint32_t i = 0; i < CONF_SIZE; ++i) {
                if (g_conf[i] != 0) {
                    fprintf(f, " %u", i);
                }
            }
            fprintf(f, "\nchoices");
            for (uint32_t i = 0; i < sh->vlen; ++i) {
                fprintf(f, " %d/%d", sh->vtrace[i], sh->vtrace_n[i]);
            }
            fprintf(f, "\n");
            fclose(f);
        }
    }
    printf("  %-34s bound=%d%s execs=%llu complete=%llu states=%llu ops=%llu depth=%llu threads=%llu cut=%llu %.1fs %s%s\n",
           s.name,
           o.bound,
           o.delay ? "d" : "p",
           (unsigned long long) sh->execs,
           (unsigned long long) sh->complete,
           (unsigned long long) sh->states,
           (unsigned long long) sh->ops,
           (unsigned long long) sh->maxdepth,
           (unsigned long long) sh->maxthreads,
           (unsigned long long) sh->cut,
           secs,
           sh->have_violation ? "VIOLATION" : (exhaustive ? "exhausted" : "CAPPED"),
           sh->table_full ? " (table full)" : "");
    if (sh->have_violation) {
        printf("    %s\n", sh->msg);
    }
    for (int i = 0; i < sh->nknown; ++i) {
        printf("    KNOWN %s (%llu executions)\n", sh->known[i].msg, (unsigned long long) sh->known[i].hits);
    }
    if (json != nullptr) {
        fprintf(json,
                "{\"scenario\":\"%s\",\"what\":\"%s\",\"bound\":%d,\"bounding\":\"%s\",\"weak_memory\":%s,\"races\":%s,"
                "\"executions\":%llu,\"complete\":%llu,\"pruned\":%llu,\"states\":%llu,\"transitions\":%llu,"
                "\"max_choice_depth\":%llu,\"threads\":%llu,\"cut_by_bound\":%llu,\"truncated\":%llu,\"known_hits\":%llu,"
                "\"exhausted\":%s,\"seconds\":%.2f,\"violation\":%s%s%s,\"replay\":\"%s\",\"cover\":{",
                s.name,
                json_escape(s.what).c_str(),
                o.bound,
                o.delay ? "delay" : "preemption",
                o.weak ? "true" : "false",
                o.races ? "true" : "false",
                (unsigned long long) sh->execs,
                (unsigned long long) sh->complete,
                (unsigned long long) sh->pruned,
                (unsigned long long) sh->states,
                (unsigned long long) sh->ops,
                (unsigned long long) sh->maxdepth,
                (unsigned long long) sh->maxthreads,
                (unsigned long long) sh->cut,
                (unsigned long long) sh->truncated,
                (unsigned long long) sh->known_hits,
                exhaustive ? "true" : "false",
                secs,
                sh->have_violation ? "\"" : "null",
                sh->have_violation ? json_escape(sh->msg).c_str() : "",
                sh->have_violation ? "\"" : "",
                replay.c_str());
        for (int i = 0; i < sh->ncover; ++i) {
            fprintf(json, "%s\"%s\":%llu", i != 0 ? "," : "", json_escape(sh->cover[i].label).c_str(), (unsigned long long) sh->cover[i].count);
        }
        fprintf(json, "},\"sample\":\"");
        for (uint32_t i = 0; i < sh->slen; ++i) {
            fprintf(json, "%s%d/%d", i != 0 ? " " : "", sh->strace[i], sh->strace_n[i]);
        }
        fprintf(json, "\",\"known\":[");
        for (int i = 0; i < sh->nknown; ++i) {
            fprintf(json, "%s{\"match\":\"%s\",\"hits\":%llu}", i != 0 ? "," : "", json_escape(sh->known[i].msg).c_str(), (unsigned long long) sh->known[i].hits);
        }
        fprintf(json, "]}\n");
        fflush(json);
    }
    munmap(sh, sizeof(SharedHdr));
    munmap(table, tabsz);
    return rc;
}

static int replay_file(const char* path) {
    FILE* f = fopen(path, "r");
    if (f == nullptr) {
        fprintf(stderr, "nmc: cannot read %s\n", path);
        return 3;
    }
    char name[256];
    if (fscanf(f, "scenario %255s\n", name) != 1) {
        return 3;
    }
    char line[2048];
    if (fgets(line, sizeof line, f) == nullptr) {
        return 3;
    }
    size_t n = 0;
    int a, b;
    g_conf      = static_cast<uint8_t*>(calloc(1, CONF_SIZE));
    g_conf_next = static_cast<uint8_t*>(calloc(1, CONF_SIZE));
    g_conf_new  = static_cast<uint32_t*>(calloc(1, 64));
    int c       = fscanf(f, "conflicts");
    while (fscanf(f, " %d", &a) == 1) {
        g_conf[a] = 1;
    }
    c = fscanf(f, "\nchoices");
    (void) c;
    while (fscanf(f, " %d/%d", &a, &b) == 2) {
        E->trace[n]   = uint8_t(a);
        E->trace_n[n] = uint8_t(b);
        ++n;
    }
    fclose(f);
    for (auto& s : registry()) {
        if (strcmp(s.name, name) == 0) {
            E->opt         = E->is_thorough ? s.thorough : s.quick;
            install_handlers();
            engine_setup(s);
            E->prefix_len = n;
            E->verbose    = arg_or("quiet", nullptr) == nullptr;
            g_last_execs  = E->execs_done;
            alarm(unsigned(atoi(arg_or("hang", "60"))));
            E->run_execution();
            alarm(0);
            fflush(stdout);
            printf("replay of %s: %s %s\n",
                   name,
                   E->verdict == V_VIOLATION ? "VIOLATION" : (E->verdict == V_OK ? "ok" : "other"),
                   E->verdict_msg);
            return E->verdict == V_VIOLATION ? 1 : 0;
        }
    }
    fprintf(stderr, "nmc: unknown scenario %s\n", name);
    return 3;
}

int run_main(int argc, char** argv) {
    EngineScope es;
    g_args = new std::map<std::string, std::string>();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a.rfind("--", 0) == 0) {
            auto eq = a.find('=');
            if (eq == std::string::npos) {
                (*g_args)[a.substr(2)] = "1";
            }
            else {
                (*g_args)[a.substr(2, eq - 2)] = a.substr(eq + 1);
            }
        }
    }
    E->is_thorough = std::string(arg_or("tier", "quick")) == "thorough";
    if (g_args->count("list") != 0) {
        for (auto& s : registry()) {
            printf("%s\n", s.name);
        }
        return 0;
    }
    if (g_args->count("replay") != 0) {
        return replay_file(arg_or("replay", ""));
    }
    if (g_args->count("once") != 0) {
        // run the default schedule of one scenario, verbosely
        for (auto& s : registry()) {
            if (std::string(s.name) == arg_or("once", "")) {
                E->opt = E->is_thorough ? s.thorough : s.quick;
                install_handlers();
                engine_setup(s);
                E->prefix_len = 0;
                E->verbose    = arg_or("quiet", nullptr) == nullptr;
                int reps      = atoi(arg_or("reps", "1"));
                double t0     = wall();
                for (int i = 0; i < reps; ++i) {
                    E->run_execution();
                }
                double dt = wall() - t0;
                printf("once %s: verdict=%d %s steps=%llu choices=%zu threads=%d %.1f us/exec snapshot=%zu\n",
                       s.name,
                       E->verdict,
                       E->verdict_msg,
                       (unsigned long long) E->steps,
                       E->tpos,
                       E->nthreads,
                       dt / reps * 1e6,
                       size_t(g_snap_bump - REGION));
                for (int i = 0; i < E->ncover; ++i) {
                    printf("  cover %s\n", E->covers[i]);
                }
            }
        }
        return 0;
    }
    const char* only   = arg_or("scenario", nullptr);
    int workers        = atoi(arg_or("workers", "8"));
    std::string rdir   = arg_or("replay-dir", "/tmp");
    std::string prop   = arg_or("property", "X");
    double budget      = atof(arg_or("budget", "0"));
    double total       = atof(arg_or("total", "0"));
    double t_start     = wall();
    FILE* json         = nullptr;
    if (g_args->count("json") != 0) {
        json = fopen(arg_or("json", ""), "w");
    }
    std::vector<std::string> known_all;
    if (g_args->count("known") != 0) {
        FILE* f = fopen(arg_or("known", ""), "r");
        if (f != nullptr) {
            char line[600];
            while (fgets(line, sizeof line, f) != nullptr) {
                line[strcspn(line, "\n")] = 0;
                if (line[0] != 0) {
                    known_all.push_back(line);
                }
            }
            fclose(f);
        }
    }
    int worst = 0;
    for (auto& s : registry()) {
        if (only != nullptr && strstr(s.name, only) == nullptr) {
            continue;
        }
        Options o = E->is_thorough ? s.thorough : s.quick;
        if (g_args->count("bound") != 0) {
            o.bound = atoi(arg_or("bound", "2"));
        }
        if (g_args->count("secs") != 0) {
            o.max_secs = atof(arg_or("secs", "0"));
        }
        if (o.max_secs == 0) {
            o.max_secs = E->is_thorough ? 300 : 20;
        }
        if (o.table_log2 == Options().table_log2) {
            o.table_log2 = E->is_thorough ? 26 : 24;
        }
        if (total > 0) {
            double rest = total - (wall() - t_start);
            o.max_secs  = std::min(o.max_secs, std::max(rest, 2.0));
        }
        // known entries: "scenario-substring|message substring"
        std::vector<std::string> known;
        for (auto& k : known_all) {
            auto bar = k.find('|');
            if (bar != std::string::npos && (bar == 0 || std::string(s.name) == k.substr(0, bar))) {
                known.push_back(k.substr(bar + 1));
            }
        }
        int rc = explore_scenario(s, o, workers, rdir, prop, known, json, budget);
        if (rc == 3 || (rc == 1 && worst == 0)) {
            worst = rc;
        }
        fflush(stdout);
    }
    if (json != nullptr) {
        fclose(json);
    }
    return worst;
}

// -------------------------------------------------------------------------------------------------------------- startup
static void* xmap(size_t n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        fprintf(stderr, "nmc: mmap failed\n");
        _exit(3);
    }
    return p;
}

__attribute__((constructor)) static void nmc_init() {
    EngineScope s;
    __libc_single_threaded = 0;
    mem_init();
    E = new (xmap(sizeof(Engine))) Engine();
    g_obj_hash = static_cast<ObjSlot*>(xmap(sizeof(ObjSlot) * OBJ_HASH));
    g_objs     = static_cast<Obj*>(xmap(sizeof(Obj) * OBJ_MAX));
    g_segs     = new std::vector<Seg>();
    g_guards   = new std::unordered_set<uintptr_t>();
    g_syms     = new std::vector<SymRange>();
    dl_iterate_phdr(phdr_cb, nullptr);
    g_shadow_arena = static_cast<Cell*>(xmap(sizeof(Cell) * (REGION_SZ / 8)));
    g_shadow_exe   = static_cast<Cell*>(xmap(sizeof(Cell) * ((g_exe_e - g_exe_b) / 8 + 16)));
    g_cxa          = reinterpret_cast<CxaGlobals*>(abi::__cxa_get_globals());
    registry();
}

}  // namespace nmc

// =========================================================================================================== C interface
using namespace nmc;
#define PC __builtin_return_address(0)

extern "C" {

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                                  \
    void __tsan_read##n(void* a) { access(a, n, false, PC); }                  \
    void __tsan_write##n(void* a) { access(a, n, true, PC); }                  \
    void __tsan_unaligned_read##n(void* a) { access(a, n, false, PC); }        \
    void __tsan_unaligned_write##n(void* a) { access(a, n, true, PC); }        \
    void __tsan_read_write##n(void* a) { access(a, n, true, PC); }             \
    void __tsan_unaligned_read_write##n(void* a) { access(a, n, true, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_vptr_read(void** a) {
    access(a, 8, false, PC);
}
void __tsan_vptr_update(void** a, void* v) {
    if (*a != v) {
        access(a, 8, true, PC);
    }
}
void __tsan_read_range(void* a, size_t n) {
    access(a, n, false, PC);
}
void __tsan_write_range(void* a, size_t n) {
    access(a, n, true, PC);
}
void* __tsan_memcpy(void* d, const void* s, size_t n) {
    access(s, n, false, PC);
    access(d, n, true, PC);
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
    access(s, n, false, PC);
    access(d, n, true, PC);
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
    access(d, n, true, PC);
    return memset(d, c, n);
}

#define ATOMICS(bits, T)                                                                                               \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo) { return atomic_load<T>(a, mo, PC); }                    \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { atomic_store<T>(a, v, mo, PC); }                    \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) {                                                     \
        return atomic_rmw<T>(a, mo, PC, [v](T) { return v; });                                                         \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) {                                                    \
        return atomic_rmw<T>(a, mo, PC, [v](T o) { return T(o + v); });                                                \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) {                                                    \
        return atomic_rmw<T>(a, mo, PC, [v](T o) { return T(o - v); });                                                \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) {                                                    \
        return atomic_rmw<T>(a, mo, PC, [v](T o) { return T(o & v); });                                                \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) {                                                     \
        return atomic_rmw<T>(a, mo, PC, [v](T o) { return T(o | v); });                                                \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) {                                                    \
        return atomic_rmw<T>(a, mo, PC, [v](T o) { return T(o ^ v); });                                                \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) {                                                   \
        return atomic_rmw<T>(a, mo, PC, [v](T o) { return T(~(o & v)); });                                             \
    }                                                                                                                  \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) {                     \
        return atomic_cas<T>(a, c, v, mo, fmo, false, PC);                                                             \
    }                                                                                                                  \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) {                       \
        return atomic_cas<T>(a, c, v, mo, fmo, true, PC);                                                              \
    }                                                                                                                  \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) {                           \
        atomic_cas<T>(a, &c, v, mo, fmo, false, PC);                                                                   \
        return c;                                                                                                      \
    }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
    atomic_fence(mo, PC);
}
void __tsan_atomic_signal_fence(int) {}

int nmc_rc_add(volatile int* p, int v) {
    int old = *p;
    *p      = old + v;
    if (E != nullptr && E->active) {
        atomic_valid(const_cast<int*>(p), 4, true, PC);
        if (v < 0) {
            Thread& t = E->th[E->cur];
            Obj& o    = *obj(const_cast<int*>(p));
            hb_release(t, o, true);
            if (old + v == 0) {
                hb_acquire(t, o);
                hb_event_write(t, o, 0x5C);
            }
            else {
                hb_event_read(t, o, 0x5D);
            }
            if (old <= 0) {
                fail("reference count dropped below zero");
            }
        }
    }
    return old;
}

// ---- emulated TLS
struct EmutlsCtl {
    size_t size;
    size_t align;
    union {
        uintptr_t index;
        void* address;
    } u;
    void* templ;
};
static uintptr_t g_tls_next = 1;
void* __emutls_get_address(EmutlsCtl* c) {
    if (c->u.index == 0) {
        // The index is stored in the program's data segment, which is restored between executions, so derive it from a
        // table keyed by the control block's address.
        static EmutlsCtl* known[MAX_TLS];
        uintptr_t i = 1;
        for (; i < g_tls_next; ++i) {
            if (known[i] == c) {
                break;
            }
        }
        if (i == g_tls_next) {
            if (g_tls_next >= MAX_TLS) {
                fprintf(stderr, "nmc: too many TLS variables\n");
                abort();
            }
            known[g_tls_next++] = c;
        }
        c->u.index = i;
    }
    Thread& t = E->th[E->active ? E->cur : 0];
    void*& p  = t.tls.p[c->u.index];
    if (p == nullptr) {
        p = arena_alloc(c->size, c->align);
        if (c->templ != nullptr) {
            memcpy(p, c->templ, c->size);
        }
        else {
            memset(p, 0, c->size);
        }
    }
    return p;
}

int __cxa_thread_atexit(void (*fn)(void*), void* o, void* /*dso*/) {
    Thread& t = E->th[E->active ? E->cur : 0];
    if (t.ndtors < MAX_DTORS) {
        t.dtors[t.ndtors++] = {fn, o};
    }
    return 0;
}

// ---- static local guards
int __cxa_guard_acquire(uint64_t* g) {
    auto* b = reinterpret_cast<uint8_t*>(g);
    if (b[0] != 0) {
        return 0;
    }
    if (E == nullptr || !E->active) {
        b[1] = 1;
        return 1;
    }
    Op op;
    op.kind = OP_GUARD;
    op.addr = g;
    op.pc   = PC;
    E->sched(op);
    Thread& t = E->th[E->cur];
    Obj& o    = *obj(g);
    hb_acquire(t, o);
    hb_event_write(t, o, uint64_t(OP_GUARD) << 32);
    note_write(t);
    if (b[0] != 0) {
        return 0;
    }
    o.owner = E->cur;
    return 1;
}
void __cxa_guard_release(uint64_t* g) {
    auto* b = reinterpret_cast<uint8_t*>(g);
    b[0]    = 1;
    b[1]    = 0;
    if (E != nullptr && E->active) {
        Thread& t = E->th[E->cur];
        Obj& o    = *obj(g);
        o.owner   = -1;
        hb_release(t, o, true);
        hb_event_write(t, o, 0x6A);
        note_write(t);
    }
}
void __cxa_guard_abort(uint64_t* g) {
    auto* b = reinterpret_cast<uint8_t*>(g);
    b[1]    = 0;
    if (E != nullptr && E->active) {
        Thread& t = E->th[E->cur];
        Obj& o    = *obj(g);
        o.owner   = -1;
        hb_release(t, o, true);
        hb_event_write(t, o, 0x6B);
        note_write(t);
    }
}

// ---- pthread
#define REAL(name) \
    static auto real = reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))

int pthread_mutex_lock(pthread_mutex_t* m) {
    if (E != nullptr && ours(m)) {
        if (E->active) {
            E->lock(m, PC);
        }
        return 0;
    }
    REAL(pthread_mutex_lock);
    return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (E != nullptr && ours(m)) {
        if (E->active) {
            return E->trylock(m, PC) ? 0 : EBUSY;
        }
        return 0;
    }
    REAL(pthread_mutex_trylock);
    return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (E != nullptr && ours(m)) {
        if (E->active) {
            E->unlock(m, PC);
        }
        return 0;
    }
    REAL(pthread_mutex_unlock);
    return real(m);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (E != nullptr && ours(m)) {
        if (E->active && obj(m)->owner >= 0) {
            fail("mutex destroyed while locked");
        }
        return 0;
    }
    REAL(pthread_mutex_destroy);
    return real(m);
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* /*a*/) {
    memset(c, 0, sizeof *c);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
    if (E != nullptr && ours(c)) {
        if (E->active && obj(c)->nwait > 0) {
            fail("condition variable destroyed while a thread waits on it");
        }
        return 0;
    }
    REAL(pthread_cond_destroy);
    return real(c);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (E != nullptr && ours(c)) {
        E->cond_wait(c, m, 0, PC);
        return 0;
    }
    REAL(pthread_cond_wait);
    return real(c, m);
}
static uint64_t ts_ns(const struct timespec* ts) {
    return uint64_t(ts->tv_sec) * 1000000000ull + uint64_t(ts->tv_nsec);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* abs) {
    uint64_t d = 1;
    if (abs->tv_sec >= 0) {
        d = ts_ns(abs);
        if (clk == CLOCK_REALTIME) {
            d = d > REALTIME_OFFSET ? d - REALTIME_OFFSET : 1;
        }
    }
    d = (d == 0 ? 1 : d) + E->late_cv;
    if (!E->active) {
        // nobody can notify while the system is set up
        E->now = d > E->now ? d : E->now;
        return ETIMEDOUT;
    }
    return E->cond_wait(c, m, d, PC) ? ETIMEDOUT : 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* abs) {
    return pthread_cond_clockwait(c, m, CLOCK_REALTIME, abs);
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (E != nullptr && ours(c)) {
        if (E->active) {
            E->cond_notify(c, false, PC);
        }
        return 0;
    }
    REAL(pthread_cond_signal);
    return real(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (E != nullptr && ours(c)) {
        if (E->active) {
            E->cond_notify(c, true, PC);
        }
        return 0;
    }
    REAL(pthread_cond_broadcast);
    return real(c);
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if (E != nullptr && E->in_exec) {
        *t = pthread_t(E->create(fn, arg) + 1000);
        return 0;
    }
    REAL(pthread_create);
    fprintf(stderr, "nmc: thread created outside of an execution\n");
    return real(t, a, fn, arg);
}
int pthread_join(pthread_t t, void** ret) {
    E->join(int(t) - 1000);
    if (ret != nullptr) {
        *ret = E->th[int(t) - 1000].ret;
    }
    return 0;
}
int pthread_detach(pthread_t) {
    return 0;
}
pthread_t pthread_self() {
    return pthread_t(1000 + (E != nullptr && E->active ? E->cur : 0));
}
int pthread_equal(pthread_t a, pthread_t b) {
    return a == b;
}
int get_nprocs() {
    return 2;
}
int sched_get_priority_min(int) {
    return 1;
}
int sched_get_priority_max(int) {
    return 99;
}
int pthread_setschedparam(pthread_t, int, const struct sched_param*) {
    return 0;
}
int sched_yield() {
    if (E != nullptr && E->active) {
        E->do_yield();
    }
    return 0;
}
int nanosleep(const struct timespec* req, struct timespec* /*rem*/) {
    if (E != nullptr && E->active) {
        int64_t ns = int64_t(req->tv_sec) * 1000000000ll + req->tv_nsec;
        if (req->tv_sec < 0 || req->tv_nsec < 0 || req->tv_nsec > 999999999) {
            errno = EINVAL;
            return -1;
        }
        nmc::sleep_ns(uint64_t(ns) + E->late_sleep);
        return 0;
    }
    if (E != nullptr && E->in_exec | (E->scenario != nullptr)) {
        E->now += uint64_t(req->tv_sec) * 1000000000ull + uint64_t(req->tv_nsec) + E->late_sleep;
    }
    return 0;
}
int clock_nanosleep(clockid_t clk, int flags, const struct timespec* req, struct timespec* rem) {
    if (E != nullptr && E->active) {
        if (flags & TIMER_ABSTIME) {
            uint64_t d = ts_ns(req);
            if (clk == CLOCK_REALTIME) {
                d = d > REALTIME_OFFSET ? d - REALTIME_OFFSET : 1;
            }
            nmc::sleep_ns((d > E->now ? d - E->now : 0) + E->late_sleep);
            return 0;
        }
        return nanosleep(req, rem) == 0 ? 0 : errno;
    }
    return 0;
}
int usleep(unsigned us) {
    if (E != nullptr && E->active) {
        nmc::sleep_ns(uint64_t(us) * 1000);
    }
    return 0;
}
int clock_gettime(clockid_t clk, struct timespec* ts) {
    if (E != nullptr && (E->in_exec || E->scenario != nullptr) && clk != 77) {
        uint64_t n = E->read_clock();
        if (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE) {
            n += REALTIME_OFFSET;
        }
        ts->tv_sec  = time_t(n / 1000000000ull);
        ts->tv_nsec = long(n % 1000000000ull);
        return 0;
    }
    return int(syscall(228, clk, ts));
}

}  // extern "C"

// ---- allocation
void* operator new(size_t n) {
    if (engine_depth > 0) {
        return malloc(n);
    }
    return arena_alloc(n, 16);
}
void* operator new[](size_t n) {
    return operator new(n);
}
void* operator new(size_t n, const std::nothrow_t&) noexcept {
    return operator new(n);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
    return operator new(n);
}
void* operator new(size_t n, std::align_val_t a) {
    return engine_depth > 0 ? aligned_alloc(size_t(a), n) : arena_alloc(n, size_t(a));
}
void* operator new[](size_t n, std::align_val_t a) {
    return operator new(n, a);
}
static void arena_free(void* p, const void* pc) {
    if (p == nullptr) {
        return;
    }
    auto a = reinterpret_cast<uintptr_t>(p);
    if (!in_arena(a)) {
        free(p);
        return;
    }
    auto* h = reinterpret_cast<Header*>(a - sizeof(Header));
    if (E != nullptr && E->active) {
        if (h->magic != LIVE) {
            char buf[300];
            snprintf(buf, sizeof buf, "%s: T%d frees %s in %s", h->magic == DEAD ? "double free" : "bad free", E->cur, symbolise(a).c_str(), symbolise(reinterpret_cast<uintptr_t>(pc)).c_str());
            E->violation(buf);
        }
        access(p, h->size, true, pc);
        memset(g_valid + ((a - REGION) >> 3), 0xFD, (h->size + 7) / 8);
    }
    h->magic = DEAD;
    --g_live_blocks;
}
void operator delete(void* p) noexcept {
    arena_free(p, PC);
}
void operator delete[](void* p) noexcept {
    arena_free(p, PC);
}
void operator delete(void* p, size_t) noexcept {
    arena_free(p, PC);
}
void operator delete[](void* p, size_t) noexcept {
    arena_free(p, PC);
}
void operator delete(void* p, const std::nothrow_t&) noexcept {
    arena_free(p, PC);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept {
    arena_free(p, PC);
}
void operator delete(void* p, std::align_val_t) noexcept {
    arena_free(p, PC);
}
void operator delete[](void* p, std::align_val_t) noexcept {
    arena_free(p, PC);
}
void operator delete(void* p, size_t, std::align_val_t) noexcept {
    arena_free(p, PC);
}
void operator delete[](void* p, size_t, std::align_val_t) noexcept {
    arena_free(p, PC);
}
