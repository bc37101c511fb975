// P21: peers are announced once when they join and once when they leave.
// Real nodes of the network library; what they report is compared with an exact model of what reached them, for every
// sequence of announcing, leaving, sending, silence, loss, delay and reordering up to a depth, in virtual time.
#include <set>

#include "net.hpp"

namespace {

using namespace net;

const uint64_t H       = 0x1111222233334444;
const uint64_t TIMEOUT = 2000 * MS;

// What a node has to report
struct Model {
    struct Peer {
        uint16_t port;
        std::string name;
        uint64_t heard;
    };
    std::vector<Peer> in;
    std::vector<Ev> expect;
    void report(Kind k, const Peer& p) {
        expect.push_back({k, p.name, p.port, 0, false, {}, 0});
    }
    void silence() {
        for (size_t i = 0; i < in.size();) {
            if (nmc::now_ns() - in[i].heard > TIMEOUT) {
                report(LEFT, in[i]);
                in.erase(in.begin() + long(i));
            }
            else {
                ++i;
            }
        }
    }
    void packet(uint16_t from, const View& p) {
        size_t i = 0;
        while (i < in.size() && in[i].port != from) {
            ++i;
        }
        const bool known = i < in.size();
        if (p.type() == ANNOUNCE && !known) {
            const std::string name(reinterpret_cast<const char*>(p.p) + HEADER, p.n - HEADER - 1);
            if (!name.empty()) {
                in.push_back({from, name, nmc::now_ns()});
                report(JOIN, in.back());
            }
        }
        else if (p.type() == LEAVE && known) {
            report(LEFT, in[i]);
            in.erase(in.begin() + long(i));
        }
        else if (known) {
            in[i].heard = nmc::now_ns();
            if (p.type() == DATA) {
                report(MSG, in[i]);
            }
        }
    }
    void all_left() {
        for (const auto& p : in) {
            report(LEFT, p);
        }
        in.clear();
    }
};

struct Party {
    Node n;
    Model m;
    bool up{true};
    explicit Party(const std::string& name) : n(name) {}
    void check() {
        const char* const kinds[] = {"joined", "left", "sent a message"};
        // what a node hears of itself is of no interest
        std::vector<Ev> log;
        for (const auto& e : n.log) {
            if (e.port != n.port) {
                log.push_back(e);
            }
        }
        for (size_t i = 0; i < log.size() || i < m.expect.size(); ++i) {
            NMC_REQUIRE(i < m.expect.size(), "%s: %s %s, which it has not", n.name.c_str(), log[i].peer.c_str(), kinds[log[i].kind]);
            NMC_REQUIRE(i < log.size(), "%s: %s %s, which has not been reported", n.name.c_str(), m.expect[i].peer.c_str(), kinds[m.expect[i].kind]);
            const auto &a = log[i], &b = m.expect[i];
            NMC_REQUIRE(a.kind == b.kind && a.port == b.port && a.peer == b.peer,
                        "%s: reported that %s %s, but %s %s",
                        n.name.c_str(),
                        a.peer.c_str(),
                        kinds[a.kind],
                        b.peer.c_str(),
                        kinds[b.kind]);
        }
    }
    void process() {
        m.silence();
        n.process();
        check();
    }
};

struct World {
    std::vector<std::unique_ptr<Party>> parties;
    Party& add(const std::string& name) {
        parties.push_back(std::make_unique<Party>(name));
        nmc::net_manual(true);
        return *parties.back();
    }
    Party* receiver(const nmc::WireView& v) {
        for (auto& p : parties) {
            // what a node hears of itself is of no interest
            if (p->up && v.to >= 0 && v.src_port != p->n.port
                && (nmc::socket_of(p->n.data_fd) == v.to || nmc::socket_of(p->n.ann_fd) == v.to)) {
                return p.get();
            }
        }
        return nullptr;
    }
    // Every datagram is delivered, lost or delayed, in any order
    void pass(int& losses, int& delays) {
        int held = 0;
        while (nmc::wire_count() > held) {
            const auto first = nmc::wire_at(held);
            if (receiver(first) == nullptr) {
                nmc::wire_drop(held);
                continue;
            }
            const int fate = nmc::choose(1 + (losses > 0) + (delays > 0), "fate");
            if (fate == 0) {
                deliver(held);
            }
            else if (fate == 1 && losses > 0) {
                --losses;
                nmc::wire_drop(held);
            }
            else {
                --delays;
                ++held;
            }
        }
        // those which were delayed can be overtaken by each other
        if (held > 1 && nmc::choose(2, "overtake")) {
            deliver(held - 1);
        }
    }
    void deliver(int i) {
        const auto v = nmc::wire_at(i);
        Party* p     = receiver(v);
        if (p == nullptr) {
            return nmc::wire_drop(i);
        }
        p->m.silence();
        p->m.packet(v.src_port, View(v.data, v.len));
        nmc::wire_deliver(i);
        p->n.process();
        p->check();
    }
};

template <int Steps, int Losses, int Delays, bool Resets>
void history() {
    World w;
    Party& r   = w.add("R");
    Party& a   = w.add("A");
    int losses = Losses, delays = Delays;
    for (int i = 0; i < Steps; ++i) {
        nmc::sleep_ns(700 * MS);
        r.process();
        switch (nmc::choose(Resets ? 6 : 4, "A")) {
            case 0: break;
            case 1:
                if (!a.up) {
                    nmc::prune();
                }
                a.process();
                break;
            case 2:
                if (!a.up) {
                    nmc::prune();
                }
                a.n.send(H, {1, 2, 3}, "", false);
                break;
            case 3:
                if (!a.up) {
                    nmc::prune();
                }
                a.n.net.shutdown();
                a.up = false;
                break;
            case 4:
                a.m.all_left();
                a.n.reset();
                a.check();
                a.up = true;
                a.process();
                break;
            case 5:
                r.m.all_left();
                r.n.reset();
                r.check();
                r.process();
                break;
        }
        w.pass(losses, delays);
    }
    // nothing new
    nmc::sleep_ns(700 * MS);
    r.process();
    r.n.check_alternation();
    a.n.check_alternation();
}

// Exactly the timeout: the time since the last packet of a peer takes every value around it, and every kind of packet counts
void silence() {
    World w;
    Party& r = w.add("R");
    nmc::net_manual(false);
    Raw k;
    auto give = [&](const Bytes& b) {
        r.m.silence();
        r.m.packet(k.port, View(b.data(), b.size()));
        k.send(r.n.port, b);
        r.n.process();
        r.check();
    };
    give(announce("K"));
    const Bytes packets[] = {announce("K"), data(DATA, 1, 0, 1, 0, H, {1}), ack(1, 0, 1, {1}), nack(1, 1, {1})};
    for (int i = 0; i < 2; ++i) {
        const uint64_t around[] = {TIMEOUT - 1, TIMEOUT, TIMEOUT + 1, TIMEOUT / 2};
        const uint64_t d        = around[nmc::choose(4, "silence")];
        const bool look         = nmc::choose(2, "processed meanwhile") == 1;
        if (look) {
            nmc::sleep_ns(d / 2);
            r.process();
            nmc::sleep_ns(d - d / 2);
        }
        else {
            nmc::sleep_ns(d);
        }
        if (nmc::choose(2, "processed before the packet") == 1) {
            r.process();
        }
        give(packets[nmc::choose(4, "packet")]);
    }
    nmc::sleep_ns(TIMEOUT + 1);
    r.process();
    r.n.check_alternation();
}

// Several peers with any names, some of them the same
void names() {
    World w;
    Party& r = w.add("R");
    nmc::net_manual(false);
    Raw k[3];
    const std::string all[] = {"K", "", "R", std::string(200, 'x')};
    bool in[3]              = {false, false, false};
    for (int i = 0; i < 4; ++i) {
        const int who = nmc::choose(3, "who");
        Bytes b;
        if (in[who] && nmc::choose(2, "leaves")) {
            b = header(LEAVE);
        }
        else {
            b = announce(all[nmc::choose(4, "name")]);
        }
        r.m.packet(k[who].port, View(b.data(), b.size()));
        if (nmc::choose(2, "way")) {
            k[who].send(r.n.port, b);
        }
        else {
            k[who].send_group(b);
        }
        r.n.process();
        r.check();
        for (int j = 0; j < 3; ++j) {
            in[j] = r.n.connected(k[j].port);
        }
    }
}

// A node is processed only when it asked to be, or when a packet arrives: it has to keep announcing itself
template <int Packets>
void announcing() {
    Node n("N");
    std::set<uint64_t> timers;
    n.net.set_next_event_callback([&](std::chrono::steady_clock::time_point t) {
        timers.insert(uint64_t(std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count()));
    });
    Listener l;
    Raw k;
    int packets    = Packets;
    int failures   = 1;
    uint64_t last  = nmc::now_ns();
    uint64_t end   = last + 2600 * MS;
    bool processed = false;
    while (nmc::now_ns() < end) {
        bool failing = false;
        if (!processed) {
            processed = true;  // the first time it does not need to ask
        }
        else {
            NMC_REQUIRE(!timers.empty(), "the node did not ask to be processed again");
            const uint64_t t    = *timers.begin();
            const uint64_t now  = nmc::now_ns();
            const uint64_t late = nmc::choose(3, "late") * 1700000ULL;
            if (packets > 0 && nmc::choose(2, "packet")) {
                --packets;
                const uint64_t when[] = {0, 1, 2};
                const uint64_t to     = t > now ? now + (t - now) * when[nmc::choose(3, "when")] / 2 : now;
                if (to > now) {
                    nmc::sleep_ns(to - now);
                }
                const Bytes b = nmc::choose(2, "which") ? announce("K") : ack(1, 0, 1, {1});
                k.send(n.port, b);
                if (n.connected(k.port) && nmc::choose(2, "send")) {
                    n.send(H, {1}, "K", true);  // is not going to be acknowledged
                }
            }
            else {
                if (t + late > now) {
                    nmc::sleep_ns(t + late - now);
                }
                timers.erase(t);
                if (failures > 0 && nmc::choose(2, "refused")) {
                    --failures;
                    failing = true;
                    nmc::fail_next_send(n.data_fd, 1);
                }
            }
        }
        try {
            n.net.process();
        }
        catch (const std::exception&) {
            NMC_REQUIRE(failing, "processing the network threw");
            last = nmc::now_ns();  // it tried to
        }
        nmc::fail_next_send(n.data_fd, 0);
        if (l.announced("N") == n.port) {
            last = nmc::now_ns();
        }
        NMC_REQUIRE(nmc::now_ns() - last <= 1000 * MS, "the node has not announced itself for %d ms", int((nmc::now_ns() - last) / MS));
    }
}

// A whole system
template <int What>
struct System : h::Kicked {
    REACTOR(System) {
        this->template on<NUClear::dsl::word::Trigger<NUClear::message::NetworkJoin>>().then([](const NUClear::message::NetworkJoin& j) {
            const bool us = j.name == "V";
            if (!us) {
                NMC_REQUIRE(j.name == "K" && ntohs(j.address.ipv4.sin_port) == nmc::cell_get(1), "%s has joined", j.name.c_str());
                nmc::event(1, 0);
            }
        });
        this->template on<NUClear::dsl::word::Trigger<NUClear::message::NetworkLeave>>().then([](const NUClear::message::NetworkLeave& j) {
            if (j.name != "V") {
                NMC_REQUIRE(j.name == "K" && ntohs(j.address.ipv4.sin_port) == nmc::cell_get(1), "%s has left", j.name.c_str());
                nmc::event(2, 0);
            }
        });
        kick([this] { configure(*this, "V"); });
    }
    static void drive() {
        Listener l;
        Raw k;
        nmc::cell_set(1, k.port);
        auto expect = [&](int joins, int leaves, const char* when) {
            NMC_REQUIRE(h::count(1) == joins && h::count(2) == leaves, "%s: %d joins and %d leaves have been reported", when, h::count(1), h::count(2));
        };
        // nobody else has sent anything, the node announces itself
        uint16_t v = 0;
        for (int i = 0; i < 3; ++i) {
            nmc::sleep_ns(700 * MS);
            v = l.announced("V");
            NMC_REQUIRE(v != 0, "the node did not announce itself");
        }
        expect(0, 0, "alone");
        k.send(v, announce("K"));
        nmc::sleep_ns(1 * MS);
        expect(1, 0, "after the first announcement");
        bool hi = false;
        for (const auto& b : k.drain()) {
            hi |= b == announce("V");
        }
        NMC_REQUIRE(hi, "the peer was not answered");
        switch (What) {
            case 0:  // goes on, then leaves and comes back
                for (int i = 0; i < 4; ++i) {
                    nmc::sleep_ns(900 * MS);
                    k.send_group(announce("K"));
                }
                nmc::sleep_ns(1 * MS);
                expect(1, 0, "when it keeps announcing");
                k.send(v, header(LEAVE));
                k.send_group(header(LEAVE));
                nmc::sleep_ns(1 * MS);
                expect(1, 1, "when it has left");
                k.send_group(announce("K"));
                k.send(v, announce("K"));
                nmc::sleep_ns(1 * MS);
                expect(2, 1, "when it is back");
                break;
            case 1:  // is silent
                nmc::sleep_ns(1900 * MS);
                expect(1, 0, "before the timeout");
                nmc::sleep_ns(700 * MS);
                expect(1, 1, "after the timeout");
                nmc::sleep_ns(2500 * MS);
                expect(1, 1, "long after the timeout");
                k.send_group(announce("K"));
                nmc::sleep_ns(1 * MS);
                expect(2, 1, "when it is back");
                break;
            case 2: {  // the system is configured again
                const int fds = nmc::open_fds();
                h::pp()->emit(std::make_unique<NUClear::message::NetworkConfiguration>("V", GROUP, PORT, "", uint16_t(1500)));
                nmc::sleep_ns(10 * MS);
                expect(1, 1, "when it has been configured again");
                NMC_REQUIRE(nmc::open_fds() == fds, "%d descriptors are open, %d were", nmc::open_fds(), fds);
                bool left = false;
                Bytes b;
                uint16_t from = 0;
                while (l.receive(b, from)) {
                    left |= from == v && b == header(LEAVE);
                }
                NMC_REQUIRE(left, "the old node did not say goodbye");
                nmc::sleep_ns(1000 * MS);
                const uint16_t n = l.announced("V");
                NMC_REQUIRE(n != 0 && n != v, "the node did not announce itself again");
                k.send(n, announce("K"));
                nmc::sleep_ns(1 * MS);
                expect(2, 1, "in the new network");
                nmc::sleep_ns(1000 * MS);
                NMC_REQUIRE(l.announced("V") == n, "the node did not keep announcing itself");
                break;
            }
            case 3:  // there is no network for a moment
                for (int fd = 700; fd < 764; ++fd) {
                    if (nmc::fd_open(fd) && port_of(fd) == v) {
                        nmc::fail_next_send(fd, 1);
                    }
                }
                nmc::sleep_ns(700 * MS);
                l.announced("V");
                for (int i = 0; i < 3; ++i) {
                    nmc::sleep_ns(700 * MS);
                    NMC_REQUIRE(l.announced("V") == v, "the node did not announce itself again");
                    k.send_group(announce("K"));
                }
                expect(1, 0, "afterwards");
                break;
        }
        NMC_REQUIRE(nmc::bad_closes() == 0, "something was closed twice");
    }
    static uint16_t port_of(int fd) {
        sockaddr_in a;
        socklen_t n = sizeof a;
        memset(&a, 0, sizeof a);
        return ::getsockname(fd, reinterpret_cast<sockaddr*>(&a), &n) == 0 && a.sin_family == AF_INET ? ntohs(a.sin_port) : 0;
    }
};
using keeps_announcing = System<0>;
using silent           = System<1>;
using reconfigured     = System<2>;
using no_network       = System<3>;

// The system says goodbye when it is shut down
struct goodbye : h::Kicked {
    REACTOR(goodbye) {
        on<NUClear::dsl::word::Trigger<NUClear::message::NetworkJoin>>().then([](const NUClear::message::NetworkJoin& j) {
            if (j.name == "K") {
                nmc::event(1, 0);
            }
        });
        kick([this] { configure(*this, "V"); });
    }
    static void body() {
        std::thread ctl([] {
            nmc::cell_set(63, 1);
            nmc::sleep_ns(MS);
            Listener l;
            Raw k;
            nmc::sleep_ns(700 * MS);
            const uint16_t v = l.announced("V");
            NMC_REQUIRE(v != 0, "the node did not announce itself");
            if (nmc::choose(2, "connected")) {
                k.send(v, announce("K"));
                nmc::sleep_ns(1 * MS);
                NMC_REQUIRE(h::count(1) == 1, "the peer has joined %d times", h::count(1));
            }
            l.announced("V");
            h::pp()->shutdown();
            nmc::await_cell(62, 1);
            int leaves = 0, later = 0;
            Bytes b;
            uint16_t from = 0;
            while (l.receive(b, from)) {
                leaves += from == v && b == header(LEAVE) ? 1 : 0;
                later += leaves > 0 && b != header(LEAVE) ? 1 : 0;
            }
            NMC_REQUIRE(leaves == 1, "the node said goodbye %d times", leaves);
            NMC_REQUIRE(later == 0, "the node sent something after saying goodbye");
            nmc::finish();
        });
        nmc::await_cell(63, 1);
        h::pp()->start();
        nmc::cell_set(62, 1);
        ctl.join();
    }
};

}  // namespace

#define SEQ(NAME, WHAT, BODY, QUICK, THOROUGH) \
    NMC_SCENARIO(NAME, WHAT, nullptr, BODY, nmc::preempt(0).secs(QUICK).steps(2000000), nmc::preempt(0).secs(THOROUGH).steps(2000000))
SEQ("histories", "every loss", (&history<4, 9, 0, false>), 30, 300);
SEQ("histories_long", "four losses", (&history<5, 4, 0, false>), 20, 900);
SEQ("histories_reordered", "a loss and two delays", (&history<5, 1, 2, false>), 30, 900);
SEQ("histories_configured", "with nodes which are configured again", (&history<4, 1, 1, true>), 30, 900);
SEQ("silence", "around the timeout", &silence, 30, 300);
SEQ("names", "several peers", &names, 30, 300);
SEQ("announcing", "left alone", (&announcing<0>), 30, 300);
SEQ("announcing_busy", "with a packet", (&announcing<1>), 30, 600);
SEQ("announcing_busier", "with two packets", (&announcing<2>), 10, 600);
NET_SCENARIO(keeps_announcing, 1, "a whole system: a peer keeps announcing, leaves and comes back", nmc::delays(1).secs(30), nmc::delays(2).secs(900));
NET_SCENARIO(silent, 1, "a whole system: a peer is silent", nmc::delays(1).secs(30), nmc::delays(2).secs(900));
NET_SCENARIO(reconfigured, 2, "a whole system: configured again", nmc::delays(1).secs(30), nmc::delays(2).secs(900));
NET_SCENARIO(no_network, 1, "a whole system: a send fails", nmc::delays(0).secs(30), nmc::delays(1).secs(900));
NMC_SCENARIO("goodbye", "a whole system: shut down", (&net::setup_system<1, goodbye>), &goodbye::body, nmc::delays(1).secs(30), nmc::delays(2).secs(900));
