// Nodes of the network library on the virtual wire, and peers made of plain sockets which can send anything.
#ifndef VERIF_NET_HPP
#define VERIF_NET_HPP
#include <arpa/inet.h>
#include <cstring>
#include <map>
#include <netinet/in.h>
#include <string>
#include <sys/socket.h>
#include <unistd.h>
#include <vector>

#include "chrono.hpp"
#include "common.hpp"
#include "extension/IOController.hpp"
#include "extension/NetworkController.hpp"
#include "extension/network/NUClearNetwork.hpp"

namespace net {

using NUClear::extension::network::NUClearNetwork;
using Bytes = std::vector<uint8_t>;

enum : uint8_t { ANNOUNCE = 1, LEAVE = 2, DATA = 3, RETX = 4, ACK = 5, NACK = 6 };
const uint32_t OWN   = 0x0A000001;  // the address of eth0
const uint16_t PORT  = 7447;
const char* const GROUP = "239.1.1.1";
// The sizes of the published wire protocol
const size_t HEADER = 5, DATA_HEADER = 20, ACK_HEADER = 11, NACK_HEADER = 9;

inline sockaddr_in addr(uint32_t ip, uint16_t port) {
    sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family      = AF_INET;
    a.sin_port        = htons(port);
    a.sin_addr.s_addr = htonl(ip);
    return a;
}
inline uint16_t port_of_fd(int fd) {
    sockaddr_in a;
    socklen_t n = sizeof a;
    NMC_REQUIRE(::getsockname(fd, reinterpret_cast<sockaddr*>(&a), &n) == 0, "the socket %d is not bound", fd);
    return ntohs(a.sin_port);
}

// What is in a packet, as documented in docs/explanation/nuclearnet.md
struct View {
    const uint8_t* p;
    size_t n;
    View(const uint8_t* p, size_t n) : p(p), n(n) {}
    bool ok() const { return n >= HEADER && p[0] == 0xE2 && p[1] == 0x98 && p[2] == 0xA2 && p[3] == 2; }
    uint8_t type() const { return p[4]; }
    template <class T>
    T at(size_t o) const {
        T v;
        NMC_REQUIRE(o + sizeof v <= n, "a packet of type %d with %d bytes has been sent", int(p[4]), int(n));
        memcpy(&v, p + o, sizeof v);
        return v;
    }
    bool data() const { return ok() && (type() == DATA || type() == RETX); }
    uint16_t id() const { return at<uint16_t>(5); }
    uint16_t no() const { return at<uint16_t>(7); }      // DATA, ACK
    uint16_t count() const { return type() == NACK ? at<uint16_t>(7) : at<uint16_t>(9); }
    bool reliable() const { return at<uint8_t>(11) != 0; }
    uint64_t hash() const { return at<uint64_t>(12); }
    const uint8_t* payload() const { return p + DATA_HEADER; }
    size_t payload_len() const { return n - DATA_HEADER; }
};

inline void put16(Bytes& b, unsigned v) {
    b.push_back(uint8_t(v));
    b.push_back(uint8_t(v >> 8));
}
inline Bytes header(uint8_t type) {
    return Bytes{0xE2, 0x98, 0xA2, 2, type};
}
inline Bytes announce(const std::string& name) {
    Bytes b = header(ANNOUNCE);
    b.insert(b.end(), name.begin(), name.end());
    b.push_back(0);
    return b;
}
inline Bytes data(uint8_t type, unsigned id, unsigned no, unsigned count, unsigned reliable, uint64_t hash, const Bytes& payload) {
    Bytes b = header(type);
    put16(b, id);
    put16(b, no);
    put16(b, count);
    b.push_back(uint8_t(reliable));
    for (int i = 0; i < 8; ++i) {
        b.push_back(uint8_t(hash >> (8 * i)));
    }
    b.insert(b.end(), payload.begin(), payload.end());
    return b;
}
inline Bytes ack(unsigned id, unsigned no, unsigned count, const Bytes& bits) {
    Bytes b = header(ACK);
    put16(b, id);
    put16(b, no);
    put16(b, count);
    b.insert(b.end(), bits.begin(), bits.end());
    return b;
}
inline Bytes nack(unsigned id, unsigned count, const Bytes& bits) {
    Bytes b = header(NACK);
    put16(b, id);
    put16(b, count);
    b.insert(b.end(), bits.begin(), bits.end());
    return b;
}

enum Kind { JOIN, LEFT, MSG };
struct Ev {
    Kind kind;
    std::string peer;
    uint16_t port;
    uint64_t hash;
    bool reliable;
    Bytes data;
    uint64_t t;
};

struct Node {
    std::string name;
    NUClearNetwork net;
    std::vector<Ev> log;
    uint64_t next_event{0};  // when the node last asked to be processed
    int data_fd{-1}, ann_fd{-1};
    uint16_t port{0};
    bool gone{false};  // it has been shut down

    Node(const std::string& name, uint16_t mtu = 1500, const char* where = GROUP, const char* bind = "") : name(name) {
        using T = NUClearNetwork::NetworkTarget;
        net.set_packet_callback([this](const T& t, const uint64_t& hash, const bool& reliable, Bytes&& d) {
            log.push_back({MSG, t.name, ntohs(t.target.ipv4.sin_port), hash, reliable, d, nmc::now_ns()});
        });
        net.set_join_callback([this](const T& t) { log.push_back({JOIN, t.name, ntohs(t.target.ipv4.sin_port), 0, false, {}, nmc::now_ns()}); });
        net.set_leave_callback([this](const T& t) { log.push_back({LEFT, t.name, ntohs(t.target.ipv4.sin_port), 0, false, {}, nmc::now_ns()}); });
        net.set_next_event_callback([this](std::chrono::steady_clock::time_point t) {
            next_event = uint64_t(std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count());
        });
        reset(mtu, where, bind);
    }
    void reset(uint16_t mtu = 1500, const char* where = GROUP, const char* bind = "") {
        net.reset(name, where, PORT, bind, mtu);
        auto fds = net.listen_fds();
        NMC_REQUIRE(fds.size() == 2, "%d sockets", int(fds.size()));
        data_fd = fds[0];
        ann_fd  = fds[1];
        port    = port_of_fd(data_fd);
    }
    void leave() {
        net.shutdown();
        gone = true;
    }
    void process() {
        if (gone) {
            return;
        }
        try {
            net.process();
        }
        catch (const std::exception& e) {
            NMC_REQUIRE(false, "%s: processing the network threw: %s", name.c_str(), e.what());
        }
    }
    void send(uint64_t hash, const Bytes& d, const std::string& to, bool reliable) {
        net.send(hash, d, to, reliable);
    }
    int count(Kind k, uint16_t p) const {
        int n = 0;
        for (const auto& e : log) {
            n += e.kind == k && e.port == p ? 1 : 0;
        }
        return n;
    }
    // joins and leaves of a peer alternate, messages come in between
    void check_alternation() const {
        std::map<uint16_t, bool> in;
        for (const auto& e : log) {
            switch (e.kind) {
                case JOIN:
                    NMC_REQUIRE(!in[e.port], "%s: %s joined twice", name.c_str(), e.peer.c_str());
                    in[e.port] = true;
                    break;
                case LEFT:
                    NMC_REQUIRE(in[e.port], "%s: %s left without having joined", name.c_str(), e.peer.c_str());
                    in[e.port] = false;
                    break;
                case MSG: NMC_REQUIRE(in[e.port], "%s: a message of %s, which has not joined", name.c_str(), e.peer.c_str()); break;
            }
        }
    }
    bool connected(uint16_t p) const {
        return count(JOIN, p) > count(LEFT, p);
    }
};

// A peer which can send any bytes
struct Raw {
    int fd;
    uint16_t port;
    Raw() : fd(::socket(AF_INET, SOCK_DGRAM, 0)) {
        auto a = addr(0, 0);
        NMC_REQUIRE(::bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0, "cannot bind");
        port = port_of_fd(fd);
    }
    void send(uint16_t to, const Bytes& b) {
        auto a = addr(OWN, to);
        NMC_REQUIRE(::sendto(fd, b.data(), b.size(), 0, reinterpret_cast<sockaddr*>(&a), sizeof a) == ssize_t(b.size()), "cannot send");
    }
    void send_group(const Bytes& b) {
        auto a = addr(0xEF010101, PORT);
        NMC_REQUIRE(::sendto(fd, b.data(), b.size(), 0, reinterpret_cast<sockaddr*>(&a), sizeof a) == ssize_t(b.size()), "cannot send");
    }
    bool receive(Bytes& b) {
        static uint8_t buf[70000];
        const ssize_t n = ::recv(fd, buf, sizeof buf, MSG_DONTWAIT);
        b.assign(buf, buf + (n < 0 ? 0 : n));
        return n >= 0;
    }
    std::vector<Bytes> drain() {
        std::vector<Bytes> r;
        Bytes b;
        while (receive(b)) {
            r.push_back(b);
        }
        return r;
    }
};

const uint64_t MS = 1000000;

// A raw peer which also listens to announcements
struct Listener {
    int fd;
    Listener() : fd(::socket(AF_INET, SOCK_DGRAM, 0)) {
        int yes = 1;
        ::setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &yes, sizeof yes);
        ::setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, &yes, sizeof yes);
        auto a = addr(0, PORT);
        NMC_REQUIRE(::bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0, "cannot bind");
        ip_mreq m;
        inet_pton(AF_INET, GROUP, &m.imr_multiaddr);
        m.imr_interface.s_addr = 0;
        NMC_REQUIRE(::setsockopt(fd, IPPROTO_IP, IP_ADD_MEMBERSHIP, &m, sizeof m) == 0, "cannot join");
    }
    // the next datagram and the port it was sent from
    bool receive(Bytes& b, uint16_t& from) {
        static uint8_t buf[70000];
        sockaddr_in a;
        socklen_t l     = sizeof a;
        const ssize_t n = ::recvfrom(fd, buf, sizeof buf, MSG_DONTWAIT, reinterpret_cast<sockaddr*>(&a), &l);
        b.assign(buf, buf + (n < 0 ? 0 : n));
        from = ntohs(a.sin_port);
        return n >= 0;
    }
    // the port of the node of that name which has announced itself since the last call, 0: none has
    uint16_t announced(const std::string& name) {
        uint16_t from = 0, found = 0;
        Bytes b;
        while (receive(b, from)) {
            found = b == announce(name) ? from : found;
        }
        return found;
    }
};

// A whole system with a NetworkController; T::drive() is the rest of the world, it runs in a thread of its own
template <int Concurrency, class T>
void setup_system() {
    h::reset_clock();
    NUClear::Configuration c;
    c.default_pool_concurrency = Concurrency;
    h::pp()                    = new NUClear::PowerPlant(c);
    h::pp()->install<NUClear::extension::ChronoController>();
    h::pp()->install<NUClear::extension::IOController>();
    h::pp()->install<NUClear::extension::NetworkController>();
    h::pp()->install<T>();
}
template <class T>
void run_driven() {
    std::thread ctl([] {
        nmc::cell_set(63, 1);
        nmc::sleep_ns(MS);
        T::drive();
        nmc::finish();
    });
    nmc::await_cell(63, 1);
    h::pp()->start();
    nmc::fail("the main thread returned although nobody asked for a shutdown");
}
// the socket of the system under test which gets data, once it is configured: found by asking it to announce itself
inline void configure(NUClear::Reactor& r, const char* name, uint16_t mtu = 1500) {
    r.emit(std::make_unique<NUClear::message::NetworkConfiguration>(name, GROUP, PORT, "", mtu));
}

}  // namespace net
#define NET_SCENARIO(T, CONC, WHAT, QUICK, THOROUGH) \
    NMC_SCENARIO(#T, WHAT, (&net::setup_system<CONC, T>), &net::run_driven<T>, QUICK, THOROUGH)
#endif
