// P19: a network message arrives byte for byte as sent, or not at all.
// Real nodes of the network library; the harness holds every datagram on a wire and delivers, duplicates, drops and reorders
// them in every way within a budget.
#include "net.hpp"

namespace {

using namespace net;
using NUClear::dsl::word::NetworkSource;

const uint64_t H1 = 0x1111222233334444, H2 = 0x5555666677778888;

struct Message {
    const Node* from;
    uint64_t hash;
    bool reliable;
    Bytes data;
    int delivered, packets, lost, doubled;
    unsigned id;
};

Bytes content(int seed, size_t len) {
    Bytes b;
    for (size_t i = 0; i < len; ++i) {
        b.push_back(uint8_t(seed * 50 + int(i)));
    }
    return b;
}

struct World {
    std::vector<std::unique_ptr<Node>> nodes;
    std::vector<Message> sent;
    size_t seen{0};
    Node& add(const std::string& name, uint16_t mtu) {
        nodes.push_back(std::make_unique<Node>(name, mtu));
        return *nodes.back();
    }
    // everybody gets to know everybody else
    void connect() {
        nmc::net_manual(false);
        for (int r = 0; r < 3; ++r) {
            for (auto& n : nodes) {
                n->process();
            }
        }
        for (auto& n : nodes) {
            for (auto& m : nodes) {
                NMC_REQUIRE(n == m || n->connected(m->port), "%s has not heard of %s", n->name.c_str(), m->name.c_str());
            }
        }
        nmc::net_manual(true);
    }
    Node* at_port(uint16_t port) {
        for (auto& n : nodes) {
            if (n->port == port) {
                return n.get();
            }
        }
        return nullptr;
    }
    void send(Node& from, uint64_t hash, const Bytes& d, const std::string& to, bool reliable) {
        const int before = nmc::wire_count();
        from.send(hash, d, to, reliable);
        Message m{&from, hash, reliable, d, 0, nmc::wire_count() - before, 0, 0, 0};
        for (int i = before; i < nmc::wire_count(); ++i) {
            const auto v = nmc::wire_at(i);
            NMC_REQUIRE(View(v.data, v.len).data(), "no data packet");
            m.id = View(v.data, v.len).id();
        }
        sent.push_back(m);
    }
    Message* message_of(const nmc::WireView& v) {
        const View p(v.data, v.len);
        if (!p.data()) {
            return nullptr;
        }
        for (auto& m : sent) {
            if (m.from->port == v.src_port && m.id == p.id()) {
                return &m;
            }
        }
        return nullptr;
    }
    // what a node has been given since the last call is something that was sent
    void judge(Node& r) {
        for (; seen < r.log.size(); ++seen) {
            const auto& e = r.log[seen];
            if (e.kind != MSG) {
                continue;
            }
            Message* found = nullptr;
            for (auto& m : sent) {
                if (m.from->port == e.port && m.from->name == e.peer && m.hash == e.hash && m.reliable == e.reliable && m.data == e.data) {
                    found = &m;
                }
            }
            NMC_REQUIRE(found != nullptr, "%d bytes of type %llx were delivered as coming from %s, which nobody sent", int(e.data.size()), (unsigned long long) e.hash, e.peer.c_str());
            ++found->delivered;
            // an unreliable message of one packet is delivered again with its packet
            NMC_REQUIRE(found->delivered <= 1 + (!found->reliable ? found->doubled : 0), "a message of %d packets was delivered %d times", found->packets, found->delivered);
        }
    }
};

// Two messages, every order of their packets and acknowledgements, one duplication and one loss
template <bool TwoSenders, int Packets1, int Packets2>
void disorder() {
    World w;
    Node& r = w.add("R", 72);
    Node& a = w.add("A", 72);
    Node& b = TwoSenders ? w.add("B", 72) : a;
    w.connect();
    r.log.erase(r.log.begin(), r.log.end());
    const bool rel1 = nmc::choose(2, "first reliable") == 1, rel2 = nmc::choose(2, "second reliable") == 1;
    w.send(a, H1, content(1, size_t(4 * Packets1 - 2)), "R", rel1);
    w.send(b, nmc::choose(2, "type") ? H2 : H1, content(2, size_t(4 * Packets2 - 1)), "R", rel2);
    NMC_REQUIRE(w.sent[0].packets == Packets1 && w.sent[1].packets == Packets2, "%d and %d packets", w.sent[0].packets, w.sent[1].packets);
    int losses = 1, doubles = 1;
    while (nmc::wire_count() > 0) {
        // acknowledgements are delivered at once, P20 is about them
        int pick = -1, n = 0;
        for (int i = 0; i < nmc::wire_count() && pick < 0; ++i) {
            const auto v = nmc::wire_at(i);
            if (!View(v.data, v.len).data()) {
                pick = i;
            }
            ++n;
        }
        if (pick >= 0) {
            const int to = nmc::wire_at(pick).to;
            nmc::wire_deliver(pick);
            for (auto& x : w.nodes) {
                if (nmc::socket_of(x->data_fd) == to) {
                    x->process();
                }
            }
            continue;
        }
        pick       = nmc::choose(n, "packet");
        Message* m = w.message_of(nmc::wire_at(pick));
        NMC_REQUIRE(m != nullptr, "a packet of no message");
        const int how = nmc::choose(1 + losses + doubles, "fate");
        if (how == 0) {
            nmc::wire_deliver(pick);
        }
        else if (how == 1 && losses > 0) {
            --losses;
            ++m->lost;
            nmc::wire_drop(pick);
            continue;
        }
        else {
            --doubles;
            ++m->doubled;
            nmc::wire_deliver(pick, true);
        }
        r.process();
        w.judge(r);
    }
    for (auto& m : w.sent) {
        // a packet which was lost had a copy which was not if it was doubled
        NMC_REQUIRE(m.delivered >= 1 || m.lost > 0, "a message of %d packets without loss was not delivered", m.packets);
        NMC_REQUIRE(m.delivered == 0 || m.lost == 0 || m.doubled > 0, "an incomplete message was delivered");
    }
}

// Every size around the borders of packets, to one and to all, in order
void sizes() {
    World w;
    const int d = 1 + nmc::choose(5, "bytes per packet");
    Node& a     = w.add("A", uint16_t(68 + d));
    Node& r     = w.add("R", uint16_t(68 + 1 + nmc::choose(2, "bytes per packet of the receiver")));
    Node& s     = w.add("S", 1500);
    w.connect();
    nmc::net_manual(false);
    const size_t len = size_t(nmc::choose(8 * d + 3, "length"));
    const bool rel   = nmc::choose(2, "reliable") == 1;
    const bool all   = nmc::choose(2, "to all") == 1;
    const size_t r0 = r.log.size(), s0 = s.log.size();
    a.send(H1, content(3, len), all ? "" : "R", rel);
    for (int i = 0; i < 2; ++i) {
        r.process();
        s.process();
        a.process();
    }
    auto check = [&](Node& n, size_t from, bool wanted) {
        int c = 0;
        for (size_t i = from; i < n.log.size(); ++i) {
            const auto& e = n.log[i];
            if (e.kind == MSG) {
                ++c;
                NMC_REQUIRE(e.data == content(3, len) && e.hash == H1 && e.reliable == rel && e.port == a.port && e.peer == "A", "%d bytes (%d per packet) were delivered wrongly", int(len), d);
            }
        }
        NMC_REQUIRE(c == (wanted ? 1 : 0), "%d bytes (%d per packet) were delivered %d times to %s", int(len), d, c, n.name.c_str());
    };
    check(r, r0, true);
    check(s, s0, all);
}

// Whole datagrams of any size
void jumbo() {
    static const int mtus[] = {576, 1500, 1547, 1548, 1549, 9000, 65535};
    const int mtu = mtus[nmc::choose(7, "mtu")];
    World w;
    Node& a = w.add("A", uint16_t(mtu));
    Node& r = w.add("R", 1500);
    w.connect();
    nmc::net_manual(false);
    const int per = mtu - 68;
    static const int offs[] = {-1, 0, 1};
    const int len  = per * (nmc::choose(2, "packets")) + offs[nmc::choose(3, "offset")];
    const bool rel = nmc::choose(2, "reliable") == 1;
    if (len < 0) {
        nmc::prune();
    }
    const size_t r0 = r.log.size();
    a.send(H1, content(3, size_t(len)), "R", rel);
    r.process();
    a.process();
    NMC_REQUIRE(r.log.size() == r0 + 1 && r.log[r0].kind == MSG, "a message of %d bytes with an MTU of %d was not delivered", len, mtu);
    NMC_REQUIRE(r.log[r0].data == content(3, size_t(len)), "a message of %d bytes with an MTU of %d was delivered with %d bytes or other ones", len, mtu, int(r.log[r0].data.size()));
}

// More packets than can be counted
void too_big() {
    World w;
    Node& a = w.add("A", 72);
    Node& r = w.add("R", 72);
    w.connect();
    nmc::net_manual(false);
    const size_t len = size_t(4 * 65536) + size_t(nmc::choose(5, "more"));
    const bool rel   = nmc::choose(2, "reliable") == 1;
    const size_t r0  = r.log.size();
    try {
        a.send(H1, Bytes(len, 1), "R", rel);
    }
    catch (const std::exception&) {
    }
    r.process();
    for (size_t i = r0; i < r.log.size(); ++i) {
        NMC_REQUIRE(r.log[i].kind != MSG || r.log[i].data.size() == len, "%d of %d bytes were delivered", int(r.log[i].data.size()), int(len));
    }
    // and things go on
    a.send(H1, {1, 2}, "R", true);
    r.process();
    NMC_REQUIRE(r.log.back().kind == MSG && r.log.back().data == Bytes({1, 2}), "the next message was not delivered");
}

// An incomplete message, and much later one which got the same identifier
void reused_identifier() {
    World w;
    Node& a = w.add("A", 72);
    Node& r = w.add("R", 72);
    w.connect();
    const bool same = nmc::choose(2, "size") == 0;
    w.send(a, H1, content(1, 6), "R", false);
    NMC_REQUIRE(nmc::wire_count() == 2, "%d packets", nmc::wire_count());
    nmc::wire_drop(nmc::choose(2, "lost"));
    nmc::wire_deliver(0);
    r.process();
    w.judge(r);
    for (int i = 0; i < 65535; ++i) {
        a.send(H1, {}, "nobody", false);
    }
    // keep in touch meanwhile
    for (int i = 0; i < 30; ++i) {
        nmc::sleep_ns(600 * MS);
        nmc::net_manual(false);
        a.process();
        r.process();
        nmc::net_manual(true);
    }
    const unsigned before = w.sent[0].id;
    w.send(a, nmc::choose(2, "type") ? H2 : H1, content(2, same ? 6 : 10), "R", nmc::choose(2, "reliable") == 1);
    NMC_REQUIRE(w.sent[1].id == before, "another identifier");
    while (nmc::wire_count() > 0) {
        nmc::wire_deliver(nmc::choose(nmc::wire_count(), "packet"));
        r.process();
        w.judge(r);
        nmc::net_manual(false);
        a.process();
        nmc::net_manual(true);
    }
    NMC_REQUIRE(w.sent[1].delivered == 1, "the new message was delivered %d times", w.sent[1].delivered);
}

// Whole systems: the reactions of the type run, with the value and the sender; others do not
struct Words : h::Kicked {
    ReactionHandle second;
    REACTOR(Words) {
        on<Network<uint32_t>>().then([](const NetworkSource& s, const uint32_t& v) {
            NMC_REQUIRE(s.name == "K" && s.address.sock.sa_family == AF_INET && ntohl(s.address.ipv4.sin_addr.s_addr) == OWN, "a wrong source");
            NMC_REQUIRE(ntohs(s.address.ipv4.sin_port) == nmc::cell_get(1), "port %d", ntohs(s.address.ipv4.sin_port));
            nmc::event(s.reliable ? 2 : 1, v);
        });
        second = on<Network<uint32_t>>().then([](const uint32_t& v) { nmc::event(3, v); });
        on<Network<std::string>>().then([](const std::string& v) { nmc::event(4, int64_t(v.size())); });
        on<Trigger<uint32_t>>().then([] { nmc::fail("a message from the network triggered a local reaction"); });
        on<Trigger<h::M<1>>>().then([this] {
            second.unbind();
            nmc::cell_set(2, 1);
        });
        kick([this] { configure(*this, "V", 72); });
    }
    static void drive() {
        Listener l;
        Raw k;
        nmc::cell_set(1, k.port);
        k.send_group(announce("K"));
        nmc::sleep_ns(700 * MS);
        const uint16_t v = l.announced("V");
        NMC_REQUIRE(v != 0, "the node has not announced itself");
        k.send(v, announce("K"));
        const uint64_t h4 = NUClear::util::serialise::Serialise<uint32_t>::hash();
        const uint64_t hs = NUClear::util::serialise::Serialise<std::string>::hash();
        if (nmc::choose(2, "order")) {
            k.send(v, data(DATA, 1, 1, 2, 1, h4, {3, 4}));
            k.send(v, data(DATA, 2, 0, 1, 0, h4, {5, 0, 0, 0}));
            k.send(v, data(DATA, 1, 0, 2, 1, h4, {1, 2}));
        }
        else {
            k.send(v, data(DATA, 1, 0, 2, 1, h4, {1, 2}));
            k.send(v, data(DATA, 1, 1, 2, 1, h4, {3, 4}));
            k.send(v, data(DATA, 2, 0, 1, 0, h4, {5, 0, 0, 0}));
        }
        k.send(v, data(DATA, 3, 0, 1, 0, hs, {'a', 'b', 'c'}));
        k.send(v, data(DATA, 4, 0, 1, 0, 12345, {'a', 'b', 'c'}));
        nmc::sleep_ns(1 * MS);
        NMC_REQUIRE(h::count(2) == 1 && h::count(2, 0x04030201) == 1, "the reliable message was delivered wrongly");
        NMC_REQUIRE(h::count(1) == 1 && h::count(1, 5) == 1, "the unreliable message was delivered wrongly");
        NMC_REQUIRE(h::count(3) == 2 && h::count(3, 5) == 1 && h::count(3, 0x04030201) == 1, "the second reaction ran %d times", h::count(3));
        NMC_REQUIRE(h::count(4) == 1 && h::count(4, 3) == 1, "the text was delivered wrongly");
        h::pp()->emit(h::mk<h::M<1>>(1));
        nmc::await_cell(2, 1);
        k.send(v, data(DATA, 5, 0, 1, 0, h4, {6, 0, 0, 0}));
        nmc::sleep_ns(1 * MS);
        NMC_REQUIRE(h::count(3) == 2 && h::count(1) == 2, "after unbinding the reactions ran %d and %d times", h::count(1), h::count(3));
        // in the other direction
        k.drain();
        h::pp()->emit<NUClear::dsl::word::emit::Network>(std::make_unique<uint32_t>(0x0A0B0C0D), "K", false);
        const auto out = k.drain();
        NMC_REQUIRE(out.size() == 2, "%d packets", int(out.size()));
        NMC_REQUIRE(View(out[0].data(), out[0].size()).hash() == h4 && !View(out[0].data(), out[0].size()).reliable(), "wrong type");
        NMC_REQUIRE(Bytes(out[0].begin() + DATA_HEADER, out[0].end()) == Bytes({0x0D, 0x0C, 0x0B, 0x0A}), "wrong bytes");
    }
};

}  // namespace

NMC_SCENARIO("two_senders", "two and two packets of two senders", nullptr, (&disorder<true, 2, 2>), nmc::preempt(0).secs(30), nmc::preempt(0).secs(900));
NMC_SCENARIO("one_sender", "three packets and one of one sender", nullptr, (&disorder<false, 3, 1>), nmc::preempt(0).secs(30), nmc::preempt(0).secs(900));
NMC_SCENARIO("more_packets", "three packets of each of two senders", nullptr, (&disorder<true, 3, 3>), nmc::preempt(0).secs(20), nmc::preempt(0).secs(900));
NMC_SCENARIO("sizes", "every size up to nine packets, to one and to all", nullptr, &sizes, nmc::preempt(0).secs(30), nmc::preempt(0).secs(300));
NMC_SCENARIO("jumbo", "large packets", nullptr, &jumbo, nmc::preempt(0).secs(30), nmc::preempt(0).secs(300));
NMC_SCENARIO("too_big", "more packets than can be counted", nullptr, &too_big, nmc::preempt(0).secs(30), nmc::preempt(0).secs(300));
NMC_SCENARIO("reused_identifier", "identifiers wrap around", nullptr, &reused_identifier, nmc::preempt(0).steps(2000000).secs(30), nmc::preempt(0).steps(2000000).secs(300));
NET_SCENARIO(Words, 1, "whole systems", nmc::delays(0).secs(20), nmc::delays(1).secs(300));
