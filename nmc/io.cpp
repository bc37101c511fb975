// A virtual kernel for the code under test: pipes, UDP and TCP sockets, poll, and a network which either delivers at once
// or leaves every datagram on a wire for the harness to deliver, lose, duplicate or reorder.
// Descriptors of the virtual kernel start at VFD; anything below is passed to the real one.
// The rules follow Linux: lowest free descriptor numbers, level-triggered poll, FIONREAD being the size of the first
// datagram, SO_REUSEPORT, membership of multicast groups per host (IP_MULTICAST_ALL).
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <ifaddrs.h>
#include <net/if.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include "engine.h"

namespace nmc {

static const int VFD      = 700;
static const int NFD      = 64;
static const int NOBJ     = 96;
static const int NQUEUE   = 96;
static const int NDG      = 1024;
static const int NWIRE    = 256;
static const size_t HEAP  = 8u << 20;
static const int STREAM   = 512;
static const int NGROUPS  = 4;

enum Kind : uint8_t { K_NONE, K_PIPE_R, K_PIPE_W, K_UDP, K_STREAM };

struct Addr {
    uint16_t family = 0;
    uint16_t port   = 0;  // network order
    uint8_t ip[16]  = {};
};
struct KObj {
    uint8_t kind;
    uint8_t refs;
    bool bound, reuse, broadcast, pktinfo, listening, connected, nonblock, shut_rd, shut_wr, mcast_if_set, own_groups;
    int family;
    int peer;  // the other end of a pipe or stream, -1 if gone
    Addr local, remote, mcast_if;
    Addr groups[NGROUPS];
    int ngroups;
    int qn;
    uint16_t queue[NQUEUE];  // datagrams or pending connections
    int len;
    uint8_t buf[STREAM];
};
struct Datagram {
    Addr src, dst;
    Addr via;  // the interface chosen for a multicast
    uint32_t off, len;
};
struct Wire {
    uint16_t dg;
    int16_t to;
};
struct Kernel {
    int nobj, ndg, nwire;
    uint32_t heap;
    uint16_t ephemeral;
    bool manual;
    int bad_closes, closes;
    int fail_recv;
    int fail_send_fd, fail_send;  // that many datagrams sent through that descriptor are refused
    int16_t fds[NFD];
    int ncloses[NFD];
    Wire wire[NWIRE];
};

// Regular files: everything below /nmc/ lives in memory.  Truncated when opened, written sequentially.
static const int FFD      = 800;
static const int NFILES   = 4;
static const size_t FSIZE = 4u << 20;
struct File {
    char name[32];
    size_t len;
    int opens;
    bool open, failed;
};
static File F[NFILES], FS[NFILES];
static uint8_t* file_data[NFILES];

static Kernel K, KS;
static KObj O[NOBJ], OS[NOBJ];
static Datagram D[NDG], DS[NDG];
static uint8_t heap[HEAP], heaps[1 << 16];
char g_io_object[8];
#define g_io_obj g_io_object
static bool g_init = false;

void access_hook(const void* p, size_t n, bool write, const void* pc);
void hb_acquire_at(const void* p);
void hb_release_at(const void* p);
void hb_io_write(uint64_t kind);

static void init() {
    if (!g_init) {
        g_init = true;
        memset(&K, 0, sizeof K);
        K.ephemeral = 40000;
        for (auto& f : K.fds) {
            f = -1;
        }
    }
}
void io_snapshot() {
    init();
    memcpy(FS, F, sizeof F);
    KS = K;
    memcpy(OS, O, sizeof(KObj) * K.nobj);
    memcpy(DS, D, sizeof(Datagram) * K.ndg);
    memcpy(heaps, heap, K.heap < sizeof heaps ? K.heap : sizeof heaps);
}
// a thread which polls again and again and finds the same is made to let the others run
static uint64_t poll_switch[MAXT];
static int poll_again[MAXT];
void Engine::io_reset() {
    memset(poll_switch, 0xFF, sizeof poll_switch);
    memset(&sc_fence, 0, sizeof sc_fence);
    init();
    memcpy(F, FS, sizeof F);
    const int n = K.nobj;
    K           = KS;
    memcpy(O, OS, sizeof(KObj) * KS.nobj);
    if (n > KS.nobj) {
        memset(static_cast<void*>(O + KS.nobj), 0, sizeof(KObj) * (n - KS.nobj));
    }
    memcpy(D, DS, sizeof(Datagram) * KS.ndg);
    memcpy(heap, heaps, KS.heap < sizeof heaps ? KS.heap : sizeof heaps);
}

static bool ours(int fd) {
    return fd >= VFD && fd < VFD + NFD;
}
// sockets and pipes are virtual as soon as the program under test runs
static bool virt() {
    return E != nullptr && (E->in_exec || E->scenario != nullptr);
}
static KObj* at(int fd) {
    init();
    return ours(fd) && K.fds[fd - VFD] >= 0 ? &O[K.fds[fd - VFD]] : nullptr;
}
static int err(int e) {
    errno = e;
    return -1;
}
static int new_obj(Kind k) {
    init();
    if (K.nobj >= NOBJ) {
        fail("engine: too many sockets");
    }
    KObj& o = O[K.nobj];
    memset(static_cast<void*>(&o), 0, sizeof o);
    o.kind = k;
    o.peer = -1;
    return K.nobj++;
}
static int new_fd(int o) {
    for (int i = 0; i < NFD; ++i) {
        if (K.fds[i] < 0) {
            K.fds[i] = int16_t(o);
            ++O[o].refs;
            return VFD + i;
        }
    }
    return err(EMFILE);
}
static void enter(const void* pc, uint64_t arg = 1) {
    if (E->active) {
        Op op;
        op.kind = OP_IO;
        op.addr = g_io_obj;
        op.size = int(arg);
        op.pc   = pc;
        E->sched(op);
        hb_io_write(uint64_t(OP_IO) << 32 | arg);
    }
}
struct WaitFor {
    struct {
        KObj* o;
        short events;
    } w[NFD + 4];
    int n;
    bool invalid;
};
static short ready(const KObj& o) {
    short r = 0;
    switch (o.kind) {
        case K_PIPE_R:
            r |= o.len > 0 ? POLLIN | POLLRDNORM : 0;
            r |= o.peer < 0 ? POLLHUP : 0;
            break;
        case K_PIPE_W:
            if (o.peer < 0) {
                r |= POLLERR | POLLOUT;
            }
            else {
                r |= O[o.peer].len < STREAM ? POLLOUT | POLLWRNORM : 0;
            }
            break;
        case K_UDP: r |= (o.qn > 0 ? POLLIN | POLLRDNORM : 0) | POLLOUT | POLLWRNORM; break;
        case K_STREAM:
            if (o.listening) {
                r |= o.qn > 0 ? POLLIN | POLLRDNORM : 0;
            }
            else if (!o.connected) {
                r |= POLLOUT | POLLHUP;
            }
            else {
                const bool eof = o.shut_rd || o.peer < 0 || O[o.peer].shut_wr;
                r |= o.len > 0 || eof ? POLLIN | POLLRDNORM : 0;
                r |= eof ? POLLRDHUP : 0;
                r |= eof && (o.shut_wr || o.peer < 0) ? POLLHUP : 0;
                r |= o.peer < 0 || O[o.peer].len < STREAM ? POLLOUT | POLLWRNORM : 0;
            }
            break;
        default: r = POLLNVAL;
    }
    return r;
}
static bool any_ready(const void* p) {
    const auto& w = *static_cast<const WaitFor*>(p);
    for (int i = 0; i < w.n; ++i) {
        if ((ready(*w.w[i].o) & (w.w[i].events | POLLERR | POLLHUP | POLLNVAL)) != 0) {
            return true;
        }
    }
    return false;
}
// false: timed out
static bool block(const WaitFor& w, int64_t timeout_ns, const void* pc) {
    if (!E->active) {
        if (any_ready(&w)) {
            return true;
        }
        if (timeout_ns < 0) {
            fail("a blocking call outside of an execution would never return");
        }
        return false;
    }
    Thread& t  = E->th[E->cur];
    t.deadline = timeout_ns >= 0 ? E->now + uint64_t(timeout_ns) : 0;
    Op op;
    op.kind  = OP_IOWAIT;
    op.addr  = g_io_obj;
    op.addr2 = &w;
    op.poll  = &any_ready;
    op.size  = 1;
    op.pc    = pc;
    E->sched(op);
    t.deadline = 0;
    hb_io_write(uint64_t(OP_IOWAIT) << 32 | 1);
    return any_ready(&w);
}
static void wait_readable(KObj& o, const void* pc) {
    WaitFor w;
    w.n    = 1;
    w.w[0] = {&o, POLLIN};
    block(w, -1, pc);
}
static void wait_writable(KObj& o, const void* pc) {
    WaitFor w;
    w.n    = 1;
    w.w[0] = {&o, POLLOUT};
    block(w, -1, pc);
}

// ---- addresses
static bool get_addr(const sockaddr* s, socklen_t n, Addr& a) {
    if (s->sa_family == AF_INET && n >= sizeof(sockaddr_in)) {
        const auto* p = reinterpret_cast<const sockaddr_in*>(s);
        a             = Addr();
        a.family      = AF_INET;
        a.port        = p->sin_port;
        memcpy(a.ip, &p->sin_addr, 4);
        return true;
    }
    if (s->sa_family == AF_INET6 && n >= sizeof(sockaddr_in6)) {
        const auto* p = reinterpret_cast<const sockaddr_in6*>(s);
        a             = Addr();
        a.family      = AF_INET6;
        a.port        = p->sin6_port;
        memcpy(a.ip, &p->sin6_addr, 16);
        return true;
    }
    return false;
}
static void put_addr(const Addr& a, sockaddr* s, socklen_t* n, const void* pc) {
    sockaddr_storage st;
    memset(&st, 0, sizeof st);
    socklen_t len = 0;
    if (a.family == AF_INET) {
        auto* p       = reinterpret_cast<sockaddr_in*>(&st);
        p->sin_family = AF_INET;
        p->sin_port   = a.port;
        memcpy(&p->sin_addr, a.ip, 4);
        len = sizeof *p;
    }
    else {
        auto* p        = reinterpret_cast<sockaddr_in6*>(&st);
        p->sin6_family = AF_INET6;
        p->sin6_port   = a.port;
        memcpy(&p->sin6_addr, a.ip, 16);
        len = sizeof *p;
    }
    const socklen_t m = *n < len ? *n : len;
    access_hook(s, m, true, pc);
    memcpy(s, &st, m);
    *n = len;
}
static int ip_len(const Addr& a) {
    return a.family == AF_INET ? 4 : 16;
}
static bool same_ip(const Addr& a, const Addr& b) {
    return a.family == b.family && memcmp(a.ip, b.ip, size_t(ip_len(a))) == 0;
}
static bool is_any(const Addr& a) {
    for (int i = 0; i < ip_len(a); ++i) {
        if (a.ip[i] != 0) {
            return false;
        }
    }
    return true;
}
static bool is_multicast(const Addr& a) {
    return a.family == AF_INET ? (a.ip[0] & 0xF0) == 0xE0 : a.ip[0] == 0xFF;
}
static bool is_loopback(const Addr& a) {
    if (a.family == AF_INET) {
        return a.ip[0] == 127;
    }
    for (int i = 0; i < 15; ++i) {
        if (a.ip[i] != 0) {
            return false;
        }
    }
    return a.ip[15] == 1;
}
static const uint8_t OWN4[4]   = {10, 0, 0, 1};
static const uint8_t OWN6[16]  = {0xfd, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1};
static const uint8_t BCAST4[4] = {10, 0, 0, 255};
static bool is_broadcast(const Addr& a) {
    static const uint8_t all[4] = {255, 255, 255, 255};
    static const uint8_t lo[4]  = {127, 255, 255, 255};
    return a.family == AF_INET && (memcmp(a.ip, all, 4) == 0 || memcmp(a.ip, BCAST4, 4) == 0 || memcmp(a.ip, lo, 4) == 0);
}
static bool is_local(const Addr& a) {
    return is_loopback(a) || (a.family == AF_INET ? memcmp(a.ip, OWN4, 4) == 0 : memcmp(a.ip, OWN6, 16) == 0);
}
static void default_source(Addr& a, const Addr& dst) {
    if (a.family == AF_INET) {
        static const uint8_t lo[4] = {127, 0, 0, 1};
        memcpy(a.ip, dst.ip[0] == 127 ? lo : OWN4, 4);
    }
    else {
        memcpy(a.ip, OWN6, 16);
        if (is_loopback(dst)) {
            memset(a.ip, 0, 16);
            a.ip[15] = 1;
        }
    }
}
static uint16_t ephemeral() {
    return htons(K.ephemeral++);
}

// ---- datagrams
static int new_datagram(const Addr& src, const Addr& dst, size_t len) {
    if (K.ndg >= NDG || K.heap + len > HEAP) {
        fail("engine: too many datagrams");
    }
    Datagram& d = D[K.ndg];
    d.src       = src;
    d.dst       = dst;
    d.off       = K.heap;
    d.len       = uint32_t(len);
    K.heap += uint32_t(len);
    return K.ndg++;
}
static void enqueue(int o, int dg) {
    KObj& s = O[o];
    if (s.refs == 0) {
        return;
    }
    if (s.qn >= NQUEUE) {
        fail("engine: socket queue overflow");
    }
    s.queue[s.qn++] = uint16_t(dg);
    if (E->active) {
        hb_release_at(&s);
    }
}
static void post(int o, int dg) {
    if (!K.manual) {
        enqueue(o, dg);
        return;
    }
    if (K.nwire >= NWIRE) {
        fail("engine: the wire is full");
    }
    K.wire[K.nwire++] = {uint16_t(dg), int16_t(o)};
}
static bool joined(const Addr& group) {
    for (int i = 0; i < K.nobj; ++i) {
        for (int g = 0; O[i].refs > 0 && g < O[i].ngroups; ++g) {
            if (same_ip(O[i].groups[g], group)) {
                return true;
            }
        }
    }
    return false;
}
static bool member(const KObj& s, const Addr& group) {
    for (int g = 0; g < s.ngroups; ++g) {
        if (same_ip(s.groups[g], group)) {
            return true;
        }
    }
    return false;
}
static bool matches(const KObj& s, const Addr& dst) {
    return s.kind == K_UDP && s.refs > 0 && s.bound && s.local.port == dst.port && s.local.family == dst.family
           && (is_any(s.local) || same_ip(s.local, dst));
}
static void route(int dg) {
    const Addr& dst = D[dg].dst;
    if (is_multicast(dst) || is_broadcast(dst)) {
        if (is_multicast(dst) && !joined(dst)) {
            return;
        }
        for (int i = 0; i < K.nobj; ++i) {
            // unless IP_MULTICAST_ALL is turned off a socket gets what any socket of the host has joined
            if (matches(O[i], dst) && !(is_multicast(dst) && O[i].own_groups && !member(O[i], dst))) {
                post(i, dg);
            }
        }
        return;
    }
    int best = -1;
    if (is_local(dst)) {
        for (int i = 0; i < K.nobj; ++i) {
            if (matches(O[i], dst) && (best < 0 || !is_any(O[i].local) || is_any(O[best].local))) {
                best = i;
            }
        }
    }
    if (best >= 0) {
        post(best, dg);
    }
    else if (K.manual) {
        post(-1, dg);
    }
}
static ssize_t send_dg(KObj& o, const Addr& to, const iovec* iov, size_t n, const void* pc) {
    size_t len = 0;
    for (size_t i = 0; i < n; ++i) {
        len += iov[i].iov_len;
        if (iov[i].iov_len > 0) {
            access_hook(iov[i].iov_base, iov[i].iov_len, false, pc);
        }
    }
    if (len > 65507) {
        return err(EMSGSIZE);
    }
    if (to.family != o.family) {
        return err(o.family == AF_INET ? EAFNOSUPPORT : EINVAL);
    }
    if (is_broadcast(to) && !o.broadcast) {
        return err(EACCES);
    }
    if (to.port == 0) {
        return err(EINVAL);
    }
    if (!o.bound) {
        o.bound        = true;
        o.local        = Addr();
        o.local.family = uint16_t(o.family);
        o.local.port   = ephemeral();
    }
    Addr src = o.local;
    if (is_any(src)) {
        default_source(src, to);
        if (is_multicast(to) && o.mcast_if_set && !is_any(o.mcast_if)) {
            memcpy(src.ip, o.mcast_if.ip, 16);
        }
    }
    const int dg = new_datagram(src, to, len);
    D[dg].via    = Addr();
    if (is_multicast(to) && o.mcast_if_set) {
        D[dg].via = o.mcast_if;
    }
    size_t p     = D[dg].off;
    for (size_t i = 0; i < n; ++i) {
        memcpy(heap + p, iov[i].iov_base, iov[i].iov_len);
        p += iov[i].iov_len;
    }
    route(dg);
    return ssize_t(len);
}

// ---- streams
static ssize_t stream_read(KObj& o, uint8_t* p, size_t n, const void* pc) {
    const size_t m = size_t(o.len) < n ? size_t(o.len) : n;
    access_hook(p, m, true, pc);
    memcpy(p, o.buf, m);
    memmove(o.buf, o.buf + m, size_t(o.len) - m);
    o.len -= int(m);
    if (E->active) {
        hb_acquire_at(&o);
    }
    return ssize_t(m);
}
static ssize_t stream_write(KObj& o, const uint8_t* p, size_t n, const void* pc) {
    const size_t room = size_t(STREAM - o.len);
    const size_t m    = room < n ? room : n;
    access_hook(p, m, false, pc);
    memcpy(o.buf + o.len, p, m);
    o.len += int(m);
    if (E->active) {
        hb_release_at(&o);
    }
    return ssize_t(m);
}
static ssize_t vread(int fd, void* p, size_t n, bool dontwait, const void* pc, bool peek = false) {
    KObj* o = at(fd);
    if (o == nullptr || o->kind == K_PIPE_W) {
        return err(EBADF);
    }
    if (o->kind == K_UDP) {
        return err(EINVAL);
    }
    if (o->kind == K_STREAM && !o->connected) {
        return err(ENOTCONN);
    }
    const auto eof = [o] { return o->shut_rd || o->peer < 0 || O[o->peer].shut_wr; };
    while (o->len == 0) {
        if (eof()) {
            return 0;
        }
        if (o->nonblock || dontwait) {
            return err(EAGAIN);
        }
        wait_readable(*o, pc);
    }
    if (peek) {
        const size_t m = size_t(o->len) < n ? size_t(o->len) : n;
        access_hook(p, m, true, pc);
        memcpy(p, o->buf, m);
        return ssize_t(m);
    }
    return stream_read(*o, static_cast<uint8_t*>(p), n, pc);
}
static ssize_t vwrite(int fd, const void* p, size_t n, const void* pc) {
    KObj* o = at(fd);
    if (o == nullptr || o->kind == K_PIPE_R) {
        return err(EBADF);
    }
    if (o->kind == K_UDP) {
        return err(EDESTADDRREQ);
    }
    if (o->kind == K_STREAM && !o->connected) {
        return err(EPIPE);
    }
    size_t done = 0;
    while (done < n) {
        if (o->peer < 0 || o->shut_wr || O[o->peer].shut_rd) {
            return done > 0 ? ssize_t(done) : err(EPIPE);
        }
        if (O[o->peer].len == STREAM) {
            if (o->nonblock) {
                return done > 0 ? ssize_t(done) : err(EAGAIN);
            }
            wait_writable(*o, pc);
            continue;
        }
        done += size_t(stream_write(O[o->peer], static_cast<const uint8_t*>(p) + done, n - done, pc));
    }
    return ssize_t(done);
}
static int vclose(int fd) {
    KObj* o = at(fd);
    if (o == nullptr) {
        ++K.bad_closes;
        return err(EBADF);
    }
    ++K.closes;
    ++K.ncloses[fd - VFD];
    K.fds[fd - VFD] = -1;
    if (--o->refs == 0) {
        if (o->peer >= 0) {
            O[o->peer].peer = -1;
            o->peer         = -1;
        }
        if (o->listening) {
            for (int i = 0; i < o->qn; ++i) {
                KObj& c = O[o->queue[i]];
                if (c.peer >= 0) {
                    O[c.peer].peer = -1;
                }
                c.peer = -1;
            }
        }
        o->qn = 0;
    }
    return 0;
}

// ---- harness interface
void net_manual(bool on) {
    init();
    K.manual = on;
}
int wire_count() {
    return K.nwire;
}
static void view(const Addr& a, uint32_t& ip, uint16_t& port) {
    uint32_t v;
    memcpy(&v, a.ip, 4);
    ip   = ntohl(v);
    port = ntohs(a.port);
}
WireView wire_at(int i) {
    const Datagram& d = D[K.wire[i].dg];
    WireView v;
    view(d.src, v.src_ip, v.src_port);
    view(d.dst, v.dst_ip, v.dst_port);
    uint16_t none;
    view(d.via, v.via_ip, none);
    v.to   = K.wire[i].to;
    v.data = heap + d.off;
    v.len  = d.len;
    return v;
}
void wire_drop(int i) {
    for (int k = i + 1; k < K.nwire; ++k) {
        K.wire[k - 1] = K.wire[k];
    }
    --K.nwire;
    if (E->active) {
        hb_io_write(0x3001 + uint64_t(i));
    }
}
void wire_deliver(int i, bool keep) {
    if (K.wire[i].to >= 0) {
        enqueue(K.wire[i].to, K.wire[i].dg);
    }
    if (E->active) {
        hb_io_write(0x2001 + uint64_t(i));
    }
    if (!keep) {
        wire_drop(i);
    }
}
int socket_of(int fd) {
    KObj* o = at(fd);
    return o == nullptr ? -1 : int(o - O);
}
void net_inject(int fd, const void* from, const void* to, const void* data, size_t len) {
    KObj* o = at(fd);
    if (o == nullptr) {
        fail("net_inject: bad descriptor");
    }
    Addr s, d;
    get_addr(static_cast<const sockaddr*>(from), sizeof(sockaddr_in6), s);
    if (to != nullptr) {
        get_addr(static_cast<const sockaddr*>(to), sizeof(sockaddr_in6), d);
    }
    else {
        d = o->local;
        if (is_any(d)) {
            default_source(d, s);
        }
    }
    const int dg = new_datagram(s, d, len);
    memcpy(heap + D[dg].off, data, len);
    enqueue(int(o - O), dg);
    if (E->active) {
        hb_io_write(0x4001);
    }
}
int queued(int fd) {
    KObj* o = at(fd);
    return o == nullptr ? -1 : o->kind == K_UDP || o->listening ? o->qn : o->len;
}
int open_fds() {
    init();
    int n = 0;
    for (auto f : K.fds) {
        n += f >= 0 ? 1 : 0;
    }
    return n;
}
bool fd_open(int fd) {
    return at(fd) != nullptr;
}
int fd_closes(int fd) {
    return ours(fd) ? K.ncloses[fd - VFD] : 0;
}
int bad_closes() {
    return K.bad_closes;
}
void fail_next_send(int fd, int n) {
    K.fail_send_fd = fd;
    K.fail_send    = n;
}
void fail_next_receive(int n) {
    K.fail_recv = n;
}
FileView file(const char* name) {
    for (int i = 0; i < NFILES; ++i) {
        if (strcmp(F[i].name, name) == 0) {
            return FileView{file_data[i], F[i].len, F[i].opens, F[i].open};
        }
    }
    return FileView{nullptr, 0, 0, false};
}
static bool our_file(FILE* f) {
    auto* p = reinterpret_cast<File*>(f);
    return p >= F && p < F + NFILES;
}
static FILE* vfopen(const char* name) {
    for (int i = 0; i < NFILES; ++i) {
        if (F[i].name[0] == 0) {
            snprintf(F[i].name, sizeof F[i].name, "%s", name);
        }
        if (strcmp(F[i].name, name) == 0) {
            if (F[i].open) {
                fail("%s is opened while it is open", name);
            }
            if (file_data[i] == nullptr) {
                file_data[i] = static_cast<uint8_t*>(
                    mmap(nullptr, FSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
            }
            F[i].open = true;
            F[i].len  = 0;
            ++F[i].opens;
            return reinterpret_cast<FILE*>(&F[i]);
        }
    }
    fail("engine: too many files");
}
static ssize_t fwrite_at(int fd, const void* p, size_t n) {
    File& f = F[fd - FFD];
    if (!f.open) {
        return err(EBADF);
    }
    if (f.len + n > FSIZE) {
        return err(ENOSPC);
    }
    memcpy(file_data[fd - FFD] + f.len, p, n);
    f.len += n;
    return ssize_t(n);
}
static bool file_fd(int fd) {
    return fd >= FFD && fd < FFD + NFILES;
}

}  // namespace nmc

using namespace nmc;
#define PC __builtin_return_address(0)

extern "C" {

static FILE* real_fopen(const char* sym, const char* name, const char* mode) {
    return reinterpret_cast<FILE* (*) (const char*, const char*)>(dlsym(RTLD_NEXT, sym))(name, mode);
}
FILE* fopen(const char* name, const char* mode) {
    return strncmp(name, "/nmc/", 5) == 0 ? vfopen(name) : real_fopen("fopen", name, mode);
}
FILE* fopen64(const char* name, const char* mode) {
    return strncmp(name, "/nmc/", 5) == 0 ? vfopen(name) : real_fopen("fopen64", name, mode);
}
int fclose(FILE* f) {
    if (our_file(f)) {
        reinterpret_cast<File*>(f)->open = false;
        return 0;
    }
    return reinterpret_cast<int (*)(FILE*)>(dlsym(RTLD_NEXT, "fclose"))(f);
}
int fflush(FILE* f) {
    if (our_file(f)) {
        return 0;
    }
    return reinterpret_cast<int (*)(FILE*)>(dlsym(RTLD_NEXT, "fflush"))(f);
}
int fileno(FILE* f) {
    if (our_file(f)) {
        return FFD + int(reinterpret_cast<File*>(f) - F);
    }
    return reinterpret_cast<int (*)(FILE*)>(dlsym(RTLD_NEXT, "fileno"))(f);
}
int setvbuf(FILE* f, char* b, int m, size_t n) {
    if (our_file(f)) {
        return 0;
    }
    return reinterpret_cast<int (*)(FILE*, char*, int, size_t)>(dlsym(RTLD_NEXT, "setvbuf"))(f, b, m, n);
}
ssize_t writev(int fd, const iovec* v, int n) {
    if (!file_fd(fd)) {
        return syscall(SYS_writev, fd, v, n);
    }
    ssize_t total = 0;
    for (int i = 0; i < n; ++i) {
        const ssize_t r = fwrite_at(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) {
            return r;
        }
        total += r;
    }
    return total;
}
off64_t lseek64(int fd, off64_t off, int whence) {
    if (!file_fd(fd)) {
        return syscall(SYS_lseek, fd, off, whence);
    }
    return off64_t(F[fd - FFD].len);
}
int pipe(int* p) {
    if (!virt()) {
        return int(syscall(SYS_pipe2, p, 0));
    }
    enter(PC, 1);
    const int r = new_obj(K_PIPE_R);
    const int w = new_obj(K_PIPE_W);
    O[r].peer   = w;
    O[w].peer   = r;
    access_hook(p, 8, true, PC);
    p[0] = new_fd(r);
    p[1] = new_fd(w);
    return p[1] < 0 ? -1 : 0;
}
int pipe2(int* p, int flags) {
    if (!virt()) {
        return int(syscall(SYS_pipe2, p, flags));
    }
    const int r = pipe(p);
    if (r == 0 && (flags & O_NONBLOCK) != 0) {
        at(p[0])->nonblock = at(p[1])->nonblock = true;
    }
    return r;
}
ssize_t read(int fd, void* p, size_t n) {
    if (!ours(fd)) {
        return syscall(SYS_read, fd, p, n);
    }
    enter(PC, 2);
    return vread(fd, p, n, false, PC);
}
ssize_t write(int fd, const void* p, size_t n) {
    if (file_fd(fd)) {
        return fwrite_at(fd, p, n);
    }
    if (!ours(fd)) {
        return syscall(SYS_write, fd, p, n);
    }
    enter(PC, 3);
    return vwrite(fd, p, n, PC);
}
int close(int fd) {
    if (!ours(fd) && !(virt() && fd == -1)) {
        return int(syscall(SYS_close, fd));
    }
    enter(PC, 4);
    return vclose(fd);
}
int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    const long arg = va_arg(ap, long);
    va_end(ap);
    if (!ours(fd)) {
        return int(syscall(SYS_fcntl, fd, cmd, arg));
    }
    enter(PC, 5);
    KObj* o = at(fd);
    if (o == nullptr) {
        return err(EBADF);
    }
    switch (cmd) {
        case F_GETFL: return (o->kind == K_PIPE_R ? O_RDONLY : o->kind == K_PIPE_W ? O_WRONLY : O_RDWR) | (o->nonblock ? O_NONBLOCK : 0);
        case F_SETFL: o->nonblock = (arg & O_NONBLOCK) != 0; return 0;
        case F_GETFD:
        case F_SETFD: return 0;
        case F_DUPFD:
        case F_DUPFD_CLOEXEC: return new_fd(int(o - O));
        default: return err(EINVAL);
    }
}
int dup(int fd) {
    if (!ours(fd)) {
        return int(syscall(SYS_dup, fd));
    }
    enter(PC, 6);
    KObj* o = at(fd);
    return o == nullptr ? err(EBADF) : new_fd(int(o - O));
}
int ioctl(int fd, unsigned long req, ...) {
    va_list ap;
    va_start(ap, req);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    if (!ours(fd) && !(virt() && fd == -1)) {
        return int(syscall(SYS_ioctl, fd, req, arg));
    }
    enter(PC, 7);
    KObj* o = at(fd);
    if (o == nullptr) {
        return err(EBADF);
    }
    if (req == FIONREAD) {
        if (o->kind == K_STREAM && o->listening) {
            return err(EINVAL);
        }
        access_hook(arg, 4, true, PC);
        *static_cast<int*>(arg) = o->kind == K_UDP ? (o->qn > 0 ? int(D[o->queue[0]].len) : 0) : o->kind == K_PIPE_W ? 0 : o->len;
        return 0;
    }
    if (req == FIONBIO) {
        o->nonblock = *static_cast<int*>(arg) != 0;
        return 0;
    }
    return err(ENOTTY);
}
int poll(struct pollfd* f, nfds_t n, int timeout) {
    bool any = false;
    for (nfds_t i = 0; i < n; ++i) {
        any |= ours(f[i].fd);
    }
    if (!any && !(virt() && n > 0)) {
        return int(syscall(SYS_poll, f, n, timeout));
    }
    if (E->active) {
        const int t    = E->cur;
        poll_again[t]  = poll_switch[t] == E->switches ? poll_again[t] + 1 : 0;
        poll_switch[t] = E->switches;
        if (poll_again[t] >= 3) {
            poll_again[t] = 0;
            E->run_length = FAIR_RUN + 1;
        }
    }
    WaitFor w;
    w.n           = 0;
    bool nval     = false;
    KObj* o[NFD + 4];
    enter(PC, 8);
    for (nfds_t i = 0; i < n; ++i) {
        access_hook(&f[i].fd, 4, false, PC);
        access_hook(&f[i].events, 2, false, PC);
        o[i] = f[i].fd < 0 ? nullptr : at(f[i].fd);
        if (o[i] != nullptr) {
            w.w[w.n++] = {o[i], f[i].events};
        }
        nval |= f[i].fd >= 0 && o[i] == nullptr;
    }
    if (!nval && timeout != 0 && !any_ready(&w)) {
        block(w, timeout < 0 ? -1 : int64_t(timeout) * 1000000, PC);
    }
    int r = 0;
    for (nfds_t i = 0; i < n; ++i) {
        access_hook(&f[i].revents, 2, true, PC);
        f[i].revents = f[i].fd < 0         ? 0
                       : o[i] == nullptr ? POLLNVAL
                                         : short(ready(*o[i]) & (f[i].events | POLLERR | POLLHUP | POLLNVAL));
        r += f[i].revents != 0 ? 1 : 0;
    }
    return r;
}
int socket(int domain, int type, int protocol) {
    if (!virt()) {
        return int(syscall(SYS_socket, domain, type, protocol));
    }
    enter(PC, 9);
    const int kind = type & 0xF;
    if ((domain != AF_INET && domain != AF_INET6) || (kind != SOCK_DGRAM && kind != SOCK_STREAM)) {
        return err(EAFNOSUPPORT);
    }
    const int o        = new_obj(kind == SOCK_DGRAM ? K_UDP : K_STREAM);
    O[o].family        = domain;
    O[o].local.family  = uint16_t(domain);
    O[o].nonblock      = (type & SOCK_NONBLOCK) != 0;
    return new_fd(o);
}
int setsockopt(int fd, int level, int opt, const void* val, socklen_t len) {
    if (!ours(fd) && !(virt() && fd == -1)) {
        return int(syscall(SYS_setsockopt, fd, level, opt, val, len));
    }
    enter(PC, 10);
    KObj* o = at(fd);
    if (o == nullptr) {
        return err(EBADF);
    }
    access_hook(val, len, false, PC);
    const bool on = len >= 4 && *static_cast<const int*>(val) != 0;
    if (level == SOL_SOCKET && opt == SO_REUSEPORT) {
        o->reuse = on;
    }
    else if (level == SOL_SOCKET && opt == SO_BROADCAST) {
        o->broadcast = on;
    }
    else if ((level == IPPROTO_IP && opt == IP_PKTINFO) || (level == IPPROTO_IPV6 && opt == IPV6_RECVPKTINFO)) {
        if ((level == IPPROTO_IP) != (o->family == AF_INET)) {
            return err(ENOPROTOOPT);
        }
        o->pktinfo = on;
    }
    else if ((level == IPPROTO_IP && opt == IP_ADD_MEMBERSHIP) || (level == IPPROTO_IPV6 && opt == IPV6_JOIN_GROUP)) {
        Addr g;
        if (level == IPPROTO_IP) {
            if (len < sizeof(ip_mreq)) {
                return err(EINVAL);
            }
            g.family = AF_INET;
            memcpy(g.ip, &static_cast<const ip_mreq*>(val)->imr_multiaddr, 4);
        }
        else {
            if (len < sizeof(ipv6_mreq)) {
                return err(EINVAL);
            }
            g.family = AF_INET6;
            memcpy(g.ip, &static_cast<const ipv6_mreq*>(val)->ipv6mr_multiaddr, 16);
        }
        if (!is_multicast(g)) {
            return err(EINVAL);
        }
        for (int i = 0; i < o->ngroups; ++i) {
            if (same_ip(o->groups[i], g)) {
                return err(EADDRINUSE);
            }
        }
        if (o->ngroups >= NGROUPS) {
            return err(ENOBUFS);
        }
        o->groups[o->ngroups++] = g;
    }
    else if ((level == IPPROTO_IP && opt == IP_MULTICAST_ALL) || (level == IPPROTO_IPV6 && opt == 29 /* IPV6_MULTICAST_ALL */)) {
        o->own_groups = !on;
    }
    else if (level == IPPROTO_IP && opt == IP_MULTICAST_IF) {
        if (len < 4) {
            return err(EINVAL);
        }
        Addr a;
        a.family = AF_INET;
        memcpy(a.ip, val, 4);
        if (!is_any(a) && !is_local(a)) {
            return err(EADDRNOTAVAIL);
        }
        o->mcast_if     = a;
        o->mcast_if_set = true;
    }
    return 0;
}
int socketpair(int domain, int type, int protocol, int* p) {
    if (!virt()) {
        return int(syscall(SYS_socketpair, domain, type, protocol, p));
    }
    enter(PC, 9);
    if (domain != AF_UNIX || (type & 0xF) != SOCK_STREAM) {
        return err(EAFNOSUPPORT);
    }
    const int a = new_obj(K_STREAM);
    const int b = new_obj(K_STREAM);
    O[a].peer   = b;
    O[b].peer   = a;
    O[a].connected = O[b].connected = O[a].bound = O[b].bound = true;
    O[a].nonblock = O[b].nonblock = (type & SOCK_NONBLOCK) != 0;
    access_hook(p, 8, true, PC);
    p[0] = new_fd(a);
    p[1] = new_fd(b);
    return p[1] < 0 ? -1 : 0;
}
int getsockopt(int fd, int level, int opt, void* val, socklen_t* len) {
    if (!ours(fd)) {
        return int(syscall(SYS_getsockopt, fd, level, opt, val, len));
    }
    enter(PC, 11);
    const KObj* o = at(fd);
    if (o == nullptr) {
        return err(EBADF);
    }
    if (o->kind != K_UDP && o->kind != K_STREAM) {
        return err(ENOTSOCK);
    }
    memset(val, 0, *len);
    int v = 0;
    if (level == SOL_SOCKET && opt == SO_TYPE) {
        v = o->kind == K_UDP ? SOCK_DGRAM : SOCK_STREAM;
    }
    else if (level == SOL_SOCKET && opt == SO_ACCEPTCONN) {
        v = o->listening ? 1 : 0;
    }
    memcpy(val, &v, *len < sizeof v ? *len : sizeof v);
    return 0;
}
int bind(int fd, const struct sockaddr* a, socklen_t n) {
    if (!ours(fd) && !(virt() && fd == -1)) {
        return int(syscall(SYS_bind, fd, a, n));
    }
    enter(PC, 12);
    KObj* o = at(fd);
    if (o == nullptr) {
        return err(EBADF);
    }
    Addr x;
    access_hook(a, n, false, PC);
    if (o->bound || !get_addr(a, n, x) || x.family != o->family) {
        return err(EINVAL);
    }
    if (!is_any(x) && !is_local(x) && !is_multicast(x) && !is_broadcast(x)) {
        return err(EADDRNOTAVAIL);
    }
    if (x.port != 0) {
        for (int i = 0; i < K.nobj; ++i) {
            const KObj& p = O[i];
            if (&p != o && p.refs > 0 && p.kind == o->kind && p.bound && !p.connected && p.local.port == x.port && p.local.family == x.family
                && (is_any(p.local) || is_any(x) || same_ip(p.local, x)) && !(p.reuse && o->reuse)) {
                return err(EADDRINUSE);
            }
        }
    }
    else {
        x.port = ephemeral();
    }
    o->local = x;
    o->bound = true;
    return 0;
}
int getsockname(int fd, struct sockaddr* a, socklen_t* n) {
    if (!ours(fd) && !(virt() && fd == -1)) {
        return int(syscall(SYS_getsockname, fd, a, n));
    }
    enter(PC, 13);
    KObj* o = at(fd);
    if (o == nullptr) {
        return err(EBADF);
    }
    put_addr(o->local, a, n, PC);
    return 0;
}
int getpeername(int fd, struct sockaddr* a, socklen_t* n) {
    if (!ours(fd)) {
        return int(syscall(SYS_getpeername, fd, a, n));
    }
    enter(PC, 14);
    KObj* o = at(fd);
    if (o == nullptr) {
        return err(EBADF);
    }
    if (!o->connected) {
        return err(ENOTCONN);
    }
    put_addr(o->remote, a, n, PC);
    return 0;
}
int listen(int fd, int backlog) {
    if (!ours(fd) && !(virt() && fd == -1)) {
        return int(syscall(SYS_listen, fd, backlog));
    }
    enter(PC, 15);
    KObj* o = at(fd);
    if (o == nullptr) {
        return err(EBADF);
    }
    if (o->kind != K_STREAM || o->connected) {
        return err(EOPNOTSUPP);
    }
    if (!o->bound) {
        o->bound      = true;
        o->local.port = ephemeral();
    }
    o->listening = true;
    return 0;
}
int connect(int fd, const struct sockaddr* a, socklen_t n) {
    if (!ours(fd) && !(virt() && fd == -1)) {
        return int(syscall(SYS_connect, fd, a, n));
    }
    enter(PC, 16);
    KObj* o = at(fd);
    Addr x;
    if (o == nullptr) {
        return err(EBADF);
    }
    if (!get_addr(a, n, x) || o->kind != K_STREAM) {
        return err(EINVAL);
    }
    if (o->connected) {
        return err(EISCONN);
    }
    for (int i = 0; i < K.nobj; ++i) {
        KObj& l = O[i];
        if (l.refs > 0 && l.listening && l.local.port == x.port && l.local.family == x.family
            && (is_any(l.local) || same_ip(l.local, x)) && is_local(x)) {
            if (!o->bound) {
                o->bound      = true;
                o->local.port = ephemeral();
            }
            if (is_any(o->local)) {
                default_source(o->local, x);
            }
            const int c    = new_obj(K_STREAM);
            O[c].family    = o->family;
            O[c].local     = x;
            O[c].remote    = o->local;
            O[c].bound     = true;
            O[c].connected = true;
            O[c].peer      = int(o - O);
            o->peer        = c;
            o->remote      = x;
            o->connected   = true;
            if (l.qn >= NQUEUE) {
                return err(ECONNREFUSED);
            }
            l.queue[l.qn++] = uint16_t(c);
            if (E->active) {
                hb_release_at(&l);
            }
            return 0;
        }
    }
    return err(ECONNREFUSED);
}
int accept(int fd, struct sockaddr* a, socklen_t* n) {
    if (!ours(fd) && !(virt() && fd == -1)) {
        return int(syscall(SYS_accept, fd, a, n));
    }
    enter(PC, 17);
    KObj* o = at(fd);
    if (o == nullptr) {
        return err(EBADF);
    }
    if (!o->listening) {
        return err(EINVAL);
    }
    while (o->qn == 0) {
        if (o->nonblock) {
            return err(EAGAIN);
        }
        if (o->refs == 0 || o->shut_rd) {
            return err(EINVAL);
        }
        wait_readable(*o, PC);
    }
    if (E->active) {
        hb_acquire_at(o);
    }
    const int c = o->queue[0];
    for (int i = 1; i < o->qn; ++i) {
        o->queue[i - 1] = o->queue[i];
    }
    --o->qn;
    if (a != nullptr) {
        put_addr(O[c].remote, a, n, PC);
    }
    return new_fd(c);
}
int accept4(int fd, struct sockaddr* a, socklen_t* n, int) {
    return accept(fd, a, n);
}
int shutdown(int fd, int how) {
    if (!ours(fd) && !(virt() && fd == -1)) {
        return int(syscall(SYS_shutdown, fd, how));
    }
    enter(PC, 18);
    KObj* o = at(fd);
    if (o == nullptr) {
        return err(EBADF);
    }
    if (o->kind != K_STREAM || (!o->connected && !o->listening)) {
        return err(ENOTCONN);
    }
    o->shut_rd |= how != SHUT_WR;
    o->shut_wr |= how != SHUT_RD;
    return 0;
}
ssize_t sendmsg(int fd, const struct msghdr* m, int flags) {
    if (!ours(fd) && !(virt() && fd == -1)) {
        return syscall(SYS_sendmsg, fd, m, flags);
    }
    enter(PC, 19);
    KObj* o = at(fd);
    if (o == nullptr) {
        return err(EBADF);
    }
    if (o->kind == K_STREAM) {
        ssize_t r = 0;
        for (size_t i = 0; i < m->msg_iovlen; ++i) {
            const ssize_t k = vwrite(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, PC);
            if (k < 0) {
                return r > 0 ? r : k;
            }
            r += k;
        }
        return r;
    }
    Addr to;
    if (m->msg_name == nullptr) {
        return err(EDESTADDRREQ);
    }
    access_hook(m->msg_name, m->msg_namelen, false, PC);
    if (!get_addr(static_cast<const sockaddr*>(m->msg_name), m->msg_namelen, to)) {
        return err(EINVAL);
    }
    if (K.fail_send > 0 && fd == K.fail_send_fd) {
        --K.fail_send;
        return err(ENETUNREACH);
    }
    return send_dg(*o, to, m->msg_iov, m->msg_iovlen, PC);
}
ssize_t sendto(int fd, const void* p, size_t n, int flags, const struct sockaddr* a, socklen_t an) {
    if (!ours(fd) && !(virt() && fd == -1)) {
        return syscall(SYS_sendto, fd, p, n, flags, a, an);
    }
    enter(PC, 20);
    KObj* o = at(fd);
    if (o == nullptr) {
        return err(EBADF);
    }
    if (o->kind == K_STREAM) {
        return vwrite(fd, p, n, PC);
    }
    Addr to;
    if (a == nullptr) {
        return err(EDESTADDRREQ);
    }
    access_hook(a, an, false, PC);
    if (!get_addr(a, an, to)) {
        return err(EINVAL);
    }
    if (K.fail_send > 0 && fd == K.fail_send_fd) {
        --K.fail_send;
        return err(ENETUNREACH);
    }
    iovec v;
    v.iov_base = const_cast<void*>(p);
    v.iov_len  = n;
    return send_dg(*o, to, &v, 1, PC);
}
ssize_t send(int fd, const void* p, size_t n, int flags) {
    return sendto(fd, p, n, flags, nullptr, 0);
}
ssize_t recvmsg(int fd, struct msghdr* m, int flags) {
    if (!ours(fd) && !(virt() && fd == -1)) {
        return syscall(SYS_recvmsg, fd, m, flags);
    }
    enter(PC, 21);
    KObj* o = at(fd);
    if (o == nullptr) {
        return err(EBADF);
    }
    if (o->kind != K_UDP) {
        ssize_t r = vread(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, (flags & MSG_DONTWAIT) != 0, PC, (flags & MSG_PEEK) != 0);
        m->msg_controllen = 0;
        m->msg_flags      = 0;
        return r;
    }
    if (K.fail_recv > 0) {
        --K.fail_recv;
        return err(ECONNREFUSED);
    }
    while (o->qn == 0) {
        if (o->nonblock || (flags & MSG_DONTWAIT) != 0) {
            return err(EAGAIN);
        }
        wait_readable(*o, PC);
    }
    if (E->active) {
        hb_acquire_at(o);
    }
    const Datagram d = D[o->queue[0]];
    if ((flags & MSG_PEEK) == 0) {
        for (int i = 1; i < o->qn; ++i) {
            o->queue[i - 1] = o->queue[i];
        }
        --o->qn;
    }
    size_t done = 0;
    for (size_t i = 0; i < m->msg_iovlen && done < d.len; ++i) {
        const size_t k = d.len - done < m->msg_iov[i].iov_len ? d.len - done : m->msg_iov[i].iov_len;
        access_hook(m->msg_iov[i].iov_base, k, true, PC);
        memcpy(m->msg_iov[i].iov_base, heap + d.off + done, k);
        done += k;
    }
    m->msg_flags = done < d.len ? MSG_TRUNC : 0;
    if (m->msg_name != nullptr) {
        put_addr(d.src, static_cast<sockaddr*>(m->msg_name), &m->msg_namelen, PC);
    }
    size_t ctl = 0;
    if (o->pktinfo && m->msg_control != nullptr) {
        if (o->family == AF_INET && m->msg_controllen >= CMSG_SPACE(sizeof(in_pktinfo))) {
            cmsghdr* c    = CMSG_FIRSTHDR(m);
            c->cmsg_level = IPPROTO_IP;
            c->cmsg_type  = IP_PKTINFO;
            c->cmsg_len   = CMSG_LEN(sizeof(in_pktinfo));
            in_pktinfo pi;
            memset(&pi, 0, sizeof pi);
            pi.ipi_ifindex = is_loopback(d.dst) ? 1 : 2;
            memcpy(&pi.ipi_addr, d.dst.ip, 4);
            memcpy(&pi.ipi_spec_dst, d.dst.ip, 4);
            memcpy(CMSG_DATA(c), &pi, sizeof pi);
            ctl = CMSG_SPACE(sizeof(in_pktinfo));
        }
        else if (o->family == AF_INET6 && m->msg_controllen >= CMSG_SPACE(sizeof(in6_pktinfo))) {
            cmsghdr* c    = CMSG_FIRSTHDR(m);
            c->cmsg_level = IPPROTO_IPV6;
            c->cmsg_type  = IPV6_PKTINFO;
            c->cmsg_len   = CMSG_LEN(sizeof(in6_pktinfo));
            in6_pktinfo pi;
            memset(&pi, 0, sizeof pi);
            pi.ipi6_ifindex = is_loopback(d.dst) ? 1 : 2;
            memcpy(&pi.ipi6_addr, d.dst.ip, 16);
            memcpy(CMSG_DATA(c), &pi, sizeof pi);
            ctl = CMSG_SPACE(sizeof(in6_pktinfo));
        }
    }
    m->msg_controllen = ctl;
    return ssize_t(done);
}
ssize_t recvfrom(int fd, void* p, size_t n, int flags, struct sockaddr* a, socklen_t* an) {
    if (!ours(fd) && !(virt() && fd == -1)) {
        return syscall(SYS_recvfrom, fd, p, n, flags, a, an);
    }
    iovec v;
    v.iov_base = p;
    v.iov_len  = n;
    msghdr m;
    memset(&m, 0, sizeof m);
    m.msg_iov     = &v;
    m.msg_iovlen  = 1;
    m.msg_name    = a;
    m.msg_namelen = an != nullptr ? *an : 0;
    const ssize_t r = recvmsg(fd, &m, flags);
    if (an != nullptr) {
        *an = m.msg_namelen;
    }
    return r;
}
ssize_t recv(int fd, void* p, size_t n, int flags) {
    return recvfrom(fd, p, n, flags, nullptr, nullptr);
}

// ---- names and interfaces
int getaddrinfo(const char* node, const char* service, const struct addrinfo*, struct addrinfo** res) {
    sockaddr_storage st;
    memset(&st, 0, sizeof st);
    socklen_t len = 0;
    const auto port = htons(uint16_t(service != nullptr ? atoi(service) : 0));
    auto* v4        = reinterpret_cast<sockaddr_in*>(&st);
    auto* v6        = reinterpret_cast<sockaddr_in6*>(&st);
    if (node == nullptr || strcmp(node, "localhost") == 0) {
        node = "127.0.0.1";
    }
    if (inet_pton(AF_INET, node, &v4->sin_addr) == 1) {
        v4->sin_family = AF_INET;
        v4->sin_port   = port;
        len            = sizeof *v4;
    }
    else if (memset(&st, 0, sizeof st), inet_pton(AF_INET6, node, &v6->sin6_addr) == 1) {
        v6->sin6_family = AF_INET6;
        v6->sin6_port   = port;
        len             = sizeof *v6;
    }
    else {
        return EAI_NONAME;
    }
    addrinfo* head = nullptr;
    for (const int type : {SOCK_RAW, SOCK_DGRAM, SOCK_STREAM}) {
        auto* a        = static_cast<addrinfo*>(calloc(1, sizeof(addrinfo) + sizeof st));
        a->ai_family   = st.ss_family;
        a->ai_socktype = type;
        a->ai_addrlen  = len;
        a->ai_addr     = reinterpret_cast<sockaddr*>(a + 1);
        memcpy(a->ai_addr, &st, sizeof st);
        a->ai_next = head;
        head       = a;
    }
    *res = head;
    return 0;
}
void freeaddrinfo(struct addrinfo* a) {
    while (a != nullptr) {
        addrinfo* n = a->ai_next;
        free(a);
        a = n;
    }
}
int getnameinfo(const struct sockaddr* s, socklen_t n, char* host, socklen_t hn, char* serv, socklen_t sn, int) {
    Addr a;
    if (!get_addr(s, n, a)) {
        return EAI_FAMILY;
    }
    if (host != nullptr && hn > 0 && inet_ntop(a.family, a.ip, host, hn) == nullptr) {
        return EAI_OVERFLOW;
    }
    if (serv != nullptr && sn > 0) {
        snprintf(serv, sn, "%d", ntohs(a.port));
    }
    return 0;
}
struct Ifs {
    struct ifaddrs a;
    sockaddr_storage addr, mask, bcast;
};
int getifaddrs(struct ifaddrs** out) {
    static const char* names[2] = {"lo", "eth0"};
    ifaddrs* head = nullptr;
    for (int i = 3; i >= 0; --i) {
        auto* f        = static_cast<Ifs*>(calloc(1, sizeof(Ifs)));
        const bool lo  = i % 2 == 0;
        f->a.ifa_name  = const_cast<char*>(names[lo ? 0 : 1]);
        f->a.ifa_flags = IFF_UP | IFF_RUNNING | (lo ? IFF_LOOPBACK : IFF_BROADCAST | IFF_MULTICAST);
        f->a.ifa_addr    = reinterpret_cast<sockaddr*>(&f->addr);
        f->a.ifa_netmask = reinterpret_cast<sockaddr*>(&f->mask);
        if (i < 2) {
            auto* p       = reinterpret_cast<sockaddr_in*>(&f->addr);
            auto* m       = reinterpret_cast<sockaddr_in*>(&f->mask);
            auto* b       = reinterpret_cast<sockaddr_in*>(&f->bcast);
            p->sin_family = m->sin_family = b->sin_family = AF_INET;
            p->sin_addr.s_addr = htonl(lo ? 0x7F000001 : 0x0A000001);
            m->sin_addr.s_addr = htonl(lo ? 0xFF000000 : 0xFFFFFF00);
            b->sin_addr.s_addr = htonl(lo ? 0x7F000001 : 0x0A0000FF);
            f->a.ifa_broadaddr = reinterpret_cast<sockaddr*>(&f->bcast);
        }
        else {
            auto* p        = reinterpret_cast<sockaddr_in6*>(&f->addr);
            auto* m        = reinterpret_cast<sockaddr_in6*>(&f->mask);
            p->sin6_family = m->sin6_family = AF_INET6;
            if (lo) {
                p->sin6_addr.s6_addr[15] = 1;
            }
            else {
                memcpy(&p->sin6_addr, OWN6, 16);
            }
            memset(&m->sin6_addr, 0xFF, lo ? 16 : 8);
        }
        f->a.ifa_next = head;
        head          = &f->a;
    }
    *out = head;
    return 0;
}
void freeifaddrs(struct ifaddrs* a) {
    while (a != nullptr) {
        ifaddrs* n = a->ifa_next;
        free(a);
        a = n;
    }
}
unsigned if_nametoindex(const char* n) {
    return strcmp(n, "lo") == 0 ? 1 : strcmp(n, "eth0") == 0 ? 2 : 0;
}
int gethostname(char* p, size_t n) {
    snprintf(p, n, "host");
    return 0;
}

}  // extern "C"
