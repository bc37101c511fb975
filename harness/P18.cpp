// P18: UDP and TCP words deliver what was sent, with its true addresses.
// Sockets of the virtual kernel (nmc/io.cpp), the real words and the real controller.
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>

#include "common.hpp"
#include "extension/IOController.hpp"

namespace {

using NUClear::extension::IOController;
using h::Region;
using NUClear::fd_t;
using NUClear::dsl::word::IO;
using NUClear::dsl::word::TCP;
using NUClear::dsl::word::UDP;
using sock_t = NUClear::util::network::sock_t;

sockaddr_in v4(const char* ip, uint16_t port) {
    sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_port   = htons(port);
    NMC_REQUIRE(inet_pton(AF_INET, ip, &a.sin_addr) == 1, "bad address");
    return a;
}
uint32_t ip_of(const sock_t& s) {
    NMC_REQUIRE(s.sock.sa_family == AF_INET, "not an IPv4 address");
    return ntohl(s.ipv4.sin_addr.s_addr);
}
uint16_t port_of(const sock_t& s) {
    return ntohs(s.sock.sa_family == AF_INET6 ? s.ipv6.sin6_port : s.ipv4.sin_port);
}
const uint32_t LO = 0x7F000001, OWN = 0x0A000001, BCAST = 0x0A0000FF, ALL = 0xFFFFFFFF;

// a client with a socket of its own
struct Client {
    int fd;
    uint16_t port{0};
    explicit Client(uint16_t p = 0, const char* ip = "0.0.0.0") : fd(::socket(AF_INET, SOCK_DGRAM, 0)) {
        int yes = 1;
        ::setsockopt(fd, SOL_SOCKET, SO_BROADCAST, &yes, sizeof yes);
        auto a = v4(ip, p);
        NMC_REQUIRE(::bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0, "client cannot bind");
        socklen_t n = sizeof a;
        ::getsockname(fd, reinterpret_cast<sockaddr*>(&a), &n);
        port = ntohs(a.sin_port);
    }
    void send(const char* ip, uint16_t to, const char* data, size_t len) {
        auto a = v4(ip, to);
        NMC_REQUIRE(::sendto(fd, data, len, 0, reinterpret_cast<sockaddr*>(&a), sizeof a) == ssize_t(len), "client cannot send");
    }
};

// Several datagrams, also empty ones, at once: one run each, in order, with its bytes and addresses
template <bool Six>
struct Burst : h::Kicked {
    static const int N = 3;
    int len[N], dst[N];
    REACTOR(Burst) {
        this->template on<UDP, Pool<h::P1<1>>>(in_port_t(5000)).then([this](const UDP::Packet& p) {
            Region in(1, 1, "the reaction");
            const int i = nmc::cell_add(5, 1) - 1;
            NMC_REQUIRE(i < N, "more runs than datagrams");
            NMC_REQUIRE(p.valid, "an invalid packet");
            NMC_REQUIRE(int(p.payload.size()) == len[i], "datagram %d has %d bytes instead of %d", i, int(p.payload.size()), len[i]);
            for (int k = 0; k < len[i]; ++k) {
                NMC_REQUIRE(p.payload[k] == char('a' + i * 7 + k), "byte %d of datagram %d is wrong", k, i);
            }
            NMC_REQUIRE(ip_of(p.local) == (dst[i] != 0 ? OWN : LO) && port_of(p.local) == 5000, "sent to %x:%d", ip_of(p.local), port_of(p.local));
            NMC_REQUIRE(ip_of(p.remote) == (dst[i] != 0 ? OWN : LO) && port_of(p.remote) == 9001 + i % 2, "sent from %x:%d", ip_of(p.remote), port_of(p.remote));
        });
        this->kick([this] {
            Client a(9001), b(9002);
            static const int lens[3] = {1, 0, 5};
            for (int i = 0; i < N; ++i) {
                len[i] = lens[nmc::choose(3, "length")];
                dst[i] = nmc::choose(i == 1 ? 2 : 1, "destination");
                char buf[5];
                for (int k = 0; k < 5; ++k) {
                    buf[k] = char('a' + i * 7 + k);
                }
                (i % 2 != 0 ? b : a).send(dst[i] != 0 ? "10.0.0.1" : "127.0.0.1", 5000, buf, size_t(len[i]));
            }
        });
    }
    static void check() {
        NMC_REQUIRE(nmc::cell_get(5) == N, "%d of %d datagrams were seen", int(nmc::cell_get(5)), N);
    }
};
using UdpBurst = Burst<false>;

// IPv6, both ends
struct UdpSix : h::Kicked {
    REACTOR(UdpSix) {
        on<UDP, Pool<h::P1<1>>>(in_port_t(5000), "::1").then([](const UDP::Packet& p) {
            NMC_REQUIRE(p.payload == std::vector<uint8_t>({'h', 'i'}), "wrong payload");
            NMC_REQUIRE(p.local.sock.sa_family == AF_INET6 && p.remote.sock.sa_family == AF_INET6, "wrong family");
            NMC_REQUIRE(port_of(p.local) == 5000 && port_of(p.remote) == 9001, "ports %d and %d", port_of(p.local), port_of(p.remote));
            in6_addr one = IN6ADDR_LOOPBACK_INIT;
            NMC_REQUIRE(memcmp(&p.local.ipv6.sin6_addr, &one, 16) == 0 && memcmp(&p.remote.ipv6.sin6_addr, &one, 16) == 0, "wrong addresses");
            nmc::event(1);
        });
        kick([this] {
            emit<Scope::UDP>(std::make_unique<std::string>("hi"), "::1", in_port_t(5000), "", in_port_t(9001));
            emit<Scope::UDP>(std::make_unique<std::string>("hi"), "::1", in_port_t(5000), "::1", in_port_t(9001));
        });
    }
    static void check() {
        NMC_REQUIRE(h::count(1) == 2, "%d of 2 datagrams were seen", h::count(1));
    }
};

// Unicast, broadcast and multicast reactions see what is meant for them and nothing else
struct UdpKinds : h::Kicked {
    REACTOR(UdpKinds) {
        on<UDP>(in_port_t(5001)).then([](const UDP::Packet& p) { got(1, 5001, p); });
        on<UDP::Broadcast>(in_port_t(5002)).then([](const UDP::Packet& p) { got(2, 5002, p); });
        on<UDP::Multicast>("239.0.0.1", in_port_t(5003)).then([](const UDP::Packet& p) { got(3, 5003, p); });
        on<UDP::Multicast>("239.0.0.2", in_port_t(5003)).then([](const UDP::Packet& p) { got(4, 5003, p); });
        kick([] {
            static const char* to[] = {"127.0.0.1", "10.0.0.1", "10.0.0.255", "255.255.255.255", "239.0.0.1", "239.0.0.2", "239.0.0.3"};
            static const uint32_t ip[] = {LO, OWN, BCAST, ALL, 0xEF000001, 0xEF000002, 0xEF000003};
            Client c(9001);
            for (int i = 0; i < 2; ++i) {
                const int t = nmc::choose(7, "destination");
                const int p = nmc::choose(4, "port");
                nmc::cell_set(1 + 2 * i, ip[t]);
                nmc::cell_set(2 + 2 * i, 5001 + p);
                const char b = char('0' + i);
                c.send(to[t], uint16_t(5001 + p), &b, 1);
            }
        });
    }
    static bool wants(int who, uint32_t ip, int port) {
        switch (who) {
            case 1: return port == 5001 && (ip == LO || ip == OWN);
            case 2: return port == 5002 && (ip == BCAST || ip == ALL);
            case 3: return port == 5003 && ip == 0xEF000001;
            default: return port == 5003 && ip == 0xEF000002;
        }
    }
    static void got(int who, int port, const UDP::Packet& p) {
        NMC_REQUIRE(p.payload.size() == 1, "wrong payload");
        const int i = p.payload[0] - '0';
        NMC_REQUIRE(i == 0 || i == 1, "wrong payload");
        const auto ip = uint32_t(nmc::cell_get(1 + 2 * i));
        NMC_REQUIRE(ip_of(p.local) == ip && port_of(p.local) == port, "reaction %d: datagram for %x:%d is shown as one for %x:%d", who, ip, int(nmc::cell_get(2 + 2 * i)), ip_of(p.local), port_of(p.local));
        NMC_REQUIRE(port_of(p.remote) == 9001, "wrong remote port");
        NMC_REQUIRE(wants(who, ip, int(nmc::cell_get(2 + 2 * i))), "reaction %d got a datagram for %x:%d", who, ip, int(nmc::cell_get(2 + 2 * i)));
        nmc::cell_add(10 + 2 * who + i, 1);
    }
    static void check() {
        for (int i = 0; i < 2; ++i) {
            for (int who = 1; who <= 4; ++who) {
                const int n = int(nmc::cell_get(10 + 2 * who + i));
                const bool w = wants(who, uint32_t(nmc::cell_get(1 + 2 * i)), int(nmc::cell_get(2 + 2 * i)));
                NMC_REQUIRE(n == (w ? 1 : 0), "reaction %d saw datagram %d %d times instead of %d", who, i, n, w ? 1 : 0);
            }
        }
    }
};

// A reception which fails delivers nothing, the next one is delivered
struct UdpError : h::Kicked {
    REACTOR(UdpError) {
        on<UDP>(in_port_t(5000)).then([](const UDP::Packet& p) {
            NMC_REQUIRE(p.payload.size() == 1, "wrong payload");
            nmc::event(1, p.payload[0]);
        });
        kick([] {
            nmc::fail_next_receive(nmc::choose(3, "failures"));
            Client c;
            c.send("127.0.0.1", 5000, "a", 1);
            nmc::point();
            c.send("127.0.0.1", 5000, "b", 1);
        });
    }
    static void check() {
        NMC_REQUIRE(h::count(1) == 2 && h::index_of(1, 'a') < h::index_of(1, 'b'), "%d of 2 datagrams were seen", h::count(1));
    }
};

// emit<Scope::UDP>: everything it can be asked for, looked at on the wire
struct EmitUdp : h::Kicked {
    REACTOR(EmitUdp) {
        kick([this] {
            nmc::net_manual(true);
            static const char* to[] = {"127.0.0.1", "10.0.0.1", "10.0.0.255", "239.1.2.3", "::1", "ff02::1", "nobody.example"};
            static const uint32_t ip[] = {LO, OWN, BCAST, 0xEF010203, 0, 0xFF020000, 0};
            static const char* from[] = {"", "127.0.0.1", "10.0.0.1", "::1", "10.9.9.9"};
            const int t        = nmc::choose(7, "to");
            const int f        = nmc::choose(5, "from");
            const uint16_t fp  = nmc::choose(2, "from port") != 0 ? 9001 : 0;
            const bool six     = t == 4 || t == 5;
            const bool ok      = t != 6 && (f == 0 || (f == 3 && six) || ((f == 1 || f == 2) && !six));
            const int before   = nmc::open_fds();
            // somebody has to listen for a multicast to be on the wire
            bool thrown        = false;
            static const int lens[3] = {0, 3, 2000};
            const int len      = lens[nmc::choose(3, "length")];
            std::string data;
            for (int i = 0; i < len; ++i) {
                data += char(i * 31);
            }
            try {
                emit<Scope::UDP>(std::make_unique<std::string>(data), to[t], in_port_t(5000), from[f], in_port_t(fp));
            }
            catch (const std::exception&) {
                thrown = true;
            }
            NMC_REQUIRE(thrown == !ok, "to %s from %s: %s", to[t], from[f], thrown ? "failed" : "should have failed");
            NMC_REQUIRE(nmc::open_fds() == before, "a socket was left open");
            NMC_REQUIRE(nmc::bad_closes() == 0, "closed something which was not open");
            NMC_REQUIRE(nmc::wire_count() == (ok ? 1 : 0), "%d datagrams on the wire", nmc::wire_count());
            if (ok) {
                const auto w = nmc::wire_at(0);
                NMC_REQUIRE(w.dst_port == 5000 && w.dst_ip == ip[t], "sent to %x:%d", w.dst_ip, w.dst_port);
                NMC_REQUIRE(fp == 0 ? w.src_port != 0 : w.src_port == fp, "sent from port %d", w.src_port);
                if (f == 1 || f == 2) {
                    NMC_REQUIRE(w.src_ip == (f == 1 ? LO : OWN), "sent from %x", w.src_ip);
                    NMC_REQUIRE(t != 3 || w.via_ip == (f == 1 ? LO : OWN), "the multicast leaves by interface %x instead of that of %s", w.via_ip, from[f]);
                }
                NMC_REQUIRE(int(w.len) == len && memcmp(w.data, data.data(), size_t(len)) == 0, "wrong payload");
            }
            nmc::event(1);
        });
        on<UDP::Multicast>("239.1.2.3", in_port_t(5000)).then([](const UDP::Packet&) {});
        on<UDP::Multicast>("ff02::1", in_port_t(5000)).then([](const UDP::Packet&) {});
    }
    static void check() {
        NMC_REQUIRE(h::count(1) == 1, "did not run");
    }
};

// A reaction which is unbound gets nothing that is sent later, its socket is closed once, and another one can have its
// port and descriptor number at once
struct UdpUnbind : h::Kicked {
    ReactionHandle first, second;
    in_port_t port{0};
    REACTOR(UdpUnbind) {
        kick([this] {
            fd_t fd1, fd2;
            std::tie(first, port, fd1) = on<UDP, Pool<h::P1<1>>>(in_port_t(0)).then([](const UDP::Packet& p) {
                NMC_REQUIRE(p.payload.size() == 1 && p.payload[0] == 'a', "the first reaction got something else");
                nmc::event(1);
            });
            Client c;
            c.send("127.0.0.1", port, "a", 1);
            nmc::point();
            first.unbind();
            NMC_REQUIRE(!nmc::fd_open(fd1) && nmc::fd_closes(fd1) == 1, "unbinding did not close the socket");
            c.send("127.0.0.1", port, "b", 1);
            in_port_t port2;
            std::tie(second, port2, fd2) = on<UDP>(port).then([](const UDP::Packet& p) {
                NMC_REQUIRE(p.payload.size() == 1 && p.payload[0] == 'c', "the second reaction got something else");
                nmc::event(2);
            });
            NMC_REQUIRE(port2 == port && fd2 == fd1, "bound to port %d instead of %d", port2, port);
            nmc::point();
            c.send("127.0.0.1", port, "c", 1);
        });
    }
    static void check() {
        NMC_REQUIRE(h::count(1) <= 1, "the first reaction ran %d times", h::count(1));
        NMC_REQUIRE(h::count(2) == 1, "the second reaction ran %d times", h::count(2));
        NMC_REQUIRE(nmc::bad_closes() == 0, "closed something which was not open");
    }
};

// Two connections, each given away once
int dial(uint16_t port, const char* ip = "127.0.0.1") {
    const int fd = ::socket(AF_INET, SOCK_STREAM, 0);
    auto a       = v4(ip, port);
    NMC_REQUIRE(::connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0, "could not connect");
    return fd;
}
uint16_t own_port(int fd) {
    sockaddr_in a;
    socklen_t n = sizeof a;
    ::getsockname(fd, reinterpret_cast<sockaddr*>(&a), &n);
    return ntohs(a.sin_port);
}
struct TcpTwo : h::Kicked {
    in_port_t port{0};
    fd_t lfd{-1};
    REACTOR(TcpTwo) {
        ReactionHandle handle;
        std::tie(handle, port, lfd) = on<TCP, Pool<h::P1<1>>>(in_port_t(0)).then([this](const TCP::Connection& c) {
            NMC_REQUIRE(nmc::fd_open(c.fd), "descriptor %d is not open", c.fd);
            NMC_REQUIRE(c.fd != lfd, "got the listening socket");
            sockaddr_in a;
            socklen_t n = sizeof a;
            NMC_REQUIRE(::getpeername(c.fd, reinterpret_cast<sockaddr*>(&a), &n) == 0, "not connected");
            NMC_REQUIRE(ntohs(a.sin_port) == port_of(c.remote) && ip_of(c.remote) == ntohl(a.sin_addr.s_addr), "remote address %x:%d", ip_of(c.remote), port_of(c.remote));
            NMC_REQUIRE(port_of(c.local) == port, "local port %d", port_of(c.local));
            NMC_REQUIRE(ip_of(c.local) == LO || ip_of(c.local) == OWN, "local address %x", ip_of(c.local));
            NMC_REQUIRE(nmc::cell_add(20 + c.fd % 20, 1) == 1, "descriptor %d was given away twice", c.fd);
            char id = 0;
            NMC_REQUIRE(::read(c.fd, &id, 1) == 1, "nothing to read");
            NMC_REQUIRE(nmc::cell_get(id) == port_of(c.remote), "the remote address is that of another connection");
            nmc::event(1, id);
        });
        kick<1>([this] { call(1, "127.0.0.1"); });
        kick_own<2>([this] { call(2, "10.0.0.1"); });
    }
    void call(int id, const char* ip) {
        const int fd = dial(port, ip);
        nmc::cell_set(id, own_port(fd));
        const char c = char(id);
        NMC_REQUIRE(::write(fd, &c, 1) == 1, "could not write");
    }
    static void check() {
        NMC_REQUIRE(h::count(1) == 2 && h::index_of(1, 1) >= 0 && h::index_of(1, 2) >= 0, "%d of 2 connections were seen", h::count(1));
        NMC_REQUIRE(nmc::bad_closes() == 0, "closed something which was not open");
    }
};

// Run for another reason, there is no connection and no packet
template <typename Word>
struct Other : h::Kicked {
    REACTOR(Other) {
        bind_it();
        this->kick([this] {
            this->emit(std::make_unique<h::M<1>>(1));
            nmc::point();
            this->emit(std::make_unique<h::M<1>>(2));
        });
    }
    void bind_it();
    static void check() {
        NMC_REQUIRE(h::count(1) == 0, "ran %d times without a connection", h::count(1));
    }
};
using TcpOther = Other<TCP>;
using UdpOther = Other<UDP>;
template <>
void TcpOther::bind_it() {
    on<TCP, Trigger<h::M<1>>>(in_port_t(0)).then([](const TCP::Connection&) { nmc::event(1); });
}
template <>
void UdpOther::bind_it() {
    on<UDP, Trigger<h::M<1>>>(in_port_t(0)).then([](const UDP::Packet&) { nmc::event(1); });
}

// Unbinding closes the listening socket once; connections made before are either given away or reset, never leaked to
// somebody else
struct TcpUnbind : h::Kicked {
    ReactionHandle first, second;
    REACTOR(TcpUnbind) {
        kick([this] {
            in_port_t port;
            fd_t fd1, fd2;
            std::tie(first, port, fd1) = on<TCP, Pool<h::P1<1>>>(in_port_t(0)).then([](const TCP::Connection& c) {
                NMC_REQUIRE(nmc::fd_open(c.fd), "descriptor %d is not open", c.fd);
                nmc::event(1);
            });
            dial(port);
            nmc::point();
            first.unbind();
            NMC_REQUIRE(nmc::fd_closes(fd1) == 1, "unbinding did not close the socket");
            in_port_t port2;
            std::tie(second, port2, fd2) = on<TCP>(port).then([](const TCP::Connection& c) {
                NMC_REQUIRE(nmc::fd_open(c.fd), "descriptor %d is not open", c.fd);
                nmc::event(2);
            });
            NMC_REQUIRE(port2 == port, "bound to port %d instead of %d", port2, port);
            nmc::point();
            dial(port);
        });
    }
    static void check() {
        NMC_REQUIRE(h::count(1) <= 1, "the first reaction ran %d times", h::count(1));
        NMC_REQUIRE(h::count(2) == 1, "the second reaction ran %d times", h::count(2));
        NMC_REQUIRE(nmc::bad_closes() == 0, "closed something which was not open");
    }
};

// A port which is taken, an address which is not ours: binding fails and leaves nothing behind
struct BindFails : h::Kicked {
    REACTOR(BindFails) {
        kick([this] {
            in_port_t port;
            ReactionHandle handle;
            fd_t fd;
            std::tie(handle, port, fd) = on<TCP>(in_port_t(0)).then([](const TCP::Connection&) {});
            const int before = nmc::open_fds();
            const int what   = nmc::choose(6, "what");
            bool thrown      = false;
            try {
                switch (what) {
                    case 0: on<TCP>(port).then([](const TCP::Connection&) {}); break;
                    case 1: on<TCP>(in_port_t(0), "10.9.9.9").then([](const TCP::Connection&) {}); break;
                    case 2: on<UDP>(in_port_t(0), "10.9.9.9").then([](const UDP::Packet&) {}); break;
                    case 3: on<UDP::Multicast>("239.0.0.1", in_port_t(5000), "::1").then([](const UDP::Packet&) {}); break;
                    case 4: on<UDP::Multicast>("10.0.0.1", in_port_t(5000)).then([](const UDP::Packet&) {}); break;
                    default: on<UDP>(in_port_t(0), "nobody.example").then([](const UDP::Packet&) {}); break;
                }
            }
            catch (const std::exception&) {
                thrown = true;
            }
            NMC_REQUIRE(thrown, "binding %d should have failed", what);
            NMC_REQUIRE(nmc::open_fds() == before && nmc::bad_closes() == 0, "binding %d left %d descriptors behind", what, nmc::open_fds() - before);
            nmc::event(1);
        });
    }
    static void check() {
        NMC_REQUIRE(h::count(1) == 1, "did not run");
    }
};

}  // namespace

#define IO_SCENARIO(T, CONC, WHAT, QUICK, THOROUGH) \
    NMC_SCENARIO(#T, WHAT, (&h::setup<CONC, IOController, T>), &h::run_until_quiet<T>, QUICK, THOROUGH)

IO_SCENARIO(UdpBurst, 1, "three datagrams of every length and order", nmc::delays(1).secs(15), nmc::delays(2).secs(900));
IO_SCENARIO(UdpSix, 1, "IPv6", nmc::delays(1).secs(10), nmc::delays(2).secs(300));
IO_SCENARIO(UdpKinds, 1, "two datagrams to any address and port", nmc::delays(1).secs(15), nmc::delays(1).secs(900));
IO_SCENARIO(UdpError, 1, "receptions fail", nmc::delays(1).secs(10), nmc::delays(2).secs(300));
IO_SCENARIO(EmitUdp, 1, "every way to emit a datagram", nmc::delays(1).secs(15), nmc::delays(1).secs(300));
IO_SCENARIO(UdpUnbind, 1, "a port changes hands", nmc::delays(2).secs(15), nmc::delays(3).secs(900));
IO_SCENARIO(TcpTwo, 1, "two connections", nmc::delays(2).secs(15), nmc::delays(3).secs(900));
IO_SCENARIO(TcpOther, 1, "a TCP reaction runs for another reason", nmc::delays(1).secs(10), nmc::delays(2).secs(300));
IO_SCENARIO(UdpOther, 1, "a UDP reaction runs for another reason", nmc::delays(1).secs(10), nmc::delays(2).secs(300));
IO_SCENARIO(TcpUnbind, 1, "a listening port changes hands", nmc::delays(2).secs(15), nmc::delays(3).secs(900));
IO_SCENARIO(BindFails, 1, "binding fails", nmc::delays(0).secs(10), nmc::delays(1).secs(300));
