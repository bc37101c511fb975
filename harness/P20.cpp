// P20: a reliable message reaches every connected target exactly once despite loss.
// Real nodes of the network library; data packets and acknowledgements are lost, doubled, delayed and reordered in every way
// within a budget, in virtual time.
#include "net.hpp"

namespace {

using namespace net;

const uint64_t H = 0x1111222233334444, HN = 0x5555666677778888;

Bytes content(int seed, size_t len) {
    Bytes b;
    for (size_t i = 0; i < len; ++i) {
        b.push_back(uint8_t(seed * 50 + int(i)));
    }
    return b;
}

struct Budget {
    int losses, doubles, delays;
};

struct World {
    std::vector<std::unique_ptr<Node>> nodes;
    int data_packets{0};  // data which was put on the wire
    Node& add(const std::string& name, uint16_t mtu = 72) {
        nodes.push_back(std::make_unique<Node>(name, mtu));
        return *nodes.back();
    }
    void everybody() {
        for (auto& n : nodes) {
            n->process();
        }
    }
    void connect() {
        nmc::net_manual(false);
        for (int r = 0; r < 3; ++r) {
            everybody();
        }
        for (auto& n : nodes) {
            for (auto& m : nodes) {
                NMC_REQUIRE(n == m || n->connected(m->port), "%s has not heard of %s", n->name.c_str(), m->name.c_str());
            }
        }
        nmc::net_manual(true);
    }
    Node* receiver(const nmc::WireView& v) {
        for (auto& n : nodes) {
            if (!n->gone && v.to >= 0 && (nmc::socket_of(n->data_fd) == v.to || nmc::socket_of(n->ann_fd) == v.to)) {
                return n.get();
            }
        }
        return nullptr;
    }
    static bool chatter(const nmc::WireView& v) {
        const View p(v.data, v.len);
        return p.type() == ANNOUNCE || p.type() == LEAVE;
    }
    // announcements are never lost here, P21 is about them
    void pass_chatter() {
        for (int i = 0; i < nmc::wire_count();) {
            const auto v = nmc::wire_at(i);
            if (!chatter(v)) {
                ++i;
                continue;
            }
            Node* n = receiver(v);
            if (n == nullptr) {
                nmc::wire_drop(i);
            }
            else {
                nmc::wire_deliver(i);
                n->process();
                i = 0;
            }
        }
    }
    // everything on the wire is delivered, in an order and with faults of the adversary's choice
    void pass(Budget& b) {
        pass_chatter();
        int held = 0;  // packets at the front which stay for the next round
        while (nmc::wire_count() > held) {
            const int pick = held + nmc::choose(nmc::wire_count() - held > 2 ? 2 : nmc::wire_count() - held, "packet");
            const auto v   = nmc::wire_at(pick);
            Node* n        = receiver(v);
            if (n == nullptr) {
                nmc::wire_drop(pick);
                continue;
            }
            int fate = nmc::choose(1 + (b.losses > 0) + (b.doubles > 0) + (b.delays > 0 ? 1 : 0), "fate");
            if (fate > 0 && b.losses <= 0) {
                ++fate;
            }
            if (fate > 1 && b.doubles <= 0) {
                ++fate;
            }
            switch (fate) {
                case 1:
                    --b.losses;
                    nmc::wire_drop(pick);
                    continue;
                case 2:
                    --b.doubles;
                    nmc::wire_deliver(pick, true);
                    break;
                case 3:
                    --b.delays;
                    if (pick != held) {
                        nmc::prune();  // only the first one, the others can be delivered before it
                    }
                    ++held;
                    continue;
                default: nmc::wire_deliver(pick); break;
            }
            n->process();
            pass_chatter();
        }
    }
    void later(uint64_t ms) {
        nmc::sleep_ns(ms * MS);
        everybody();
    }
    // the network does not fail any more; returns whether data was sent
    bool settle(int rounds) {
        bool sent = false;
        Budget none{0, 0, 0};
        for (int i = 0; i < rounds; ++i) {
            later(600);
            for (int k = 0; k < nmc::wire_count(); ++k) {
                const auto v = nmc::wire_at(k);
                sent |= View(v.data, v.len).data();
            }
            while (nmc::wire_count() > 0) {
                Node* n = receiver(nmc::wire_at(0));
                if (n == nullptr) {
                    nmc::wire_drop(0);
                }
                else {
                    nmc::wire_deliver(0);
                    n->process();
                }
            }
        }
        return sent;
    }
};

int got(const Node& n, const Node& from, uint64_t hash, const Bytes& d, bool reliable = true) {
    int c = 0;
    for (const auto& e : n.log) {
        if (e.kind == MSG && e.hash == hash) {
            NMC_REQUIRE(e.reliable == reliable && e.port == from.port && e.data == d, "%s was given something else", n.name.c_str());
            ++c;
        }
    }
    return c;
}

// One message of P packets to T targets
template <int P, int T, int Losses, int Doubles, int Delays>
void deliver() {
    World w;
    Node& a = w.add("A");
    Node& r = w.add("R");
    if (T == 2) {
        w.add("S");
    }
    w.connect();
    const Bytes d = content(1, size_t(4 * P - 1));
    a.send(H, d, T == 1 ? "R" : "", true);
    (void) r;
    Budget b{Losses, Doubles, Delays};
    for (int round = 0; round < 3; ++round) {
        w.pass(b);
        w.later(1100);
    }
    w.settle(4);
    for (size_t i = 1; i < w.nodes.size(); ++i) {
        NMC_REQUIRE(w.nodes[i]->count(LEFT, a.port) == 0, "%s lost contact", w.nodes[i]->name.c_str());
        const int n = got(*w.nodes[i], a, H, d);
        NMC_REQUIRE(n == 1, "a reliable message of %d packets was delivered %d times to %s", P, n, w.nodes[i]->name.c_str());
    }
    NMC_REQUIRE(!w.settle(3), "data is sent although everything was acknowledged");
}

// Meanwhile there is other traffic, and the receiver has measured a short round trip
template <int Losses>
void traffic() {
    World w;
    Node& a = w.add("A");
    Node& r = w.add("R");
    w.connect();
    const int warm = nmc::choose(2, "warm up") * 6;
    nmc::net_manual(false);
    for (int i = 0; i < warm; ++i) {
        r.send(HN, {1}, "A", true);
        a.process();
        r.process();
        a.send(HN, {1}, "R", true);
        r.process();
        a.process();
    }
    nmc::net_manual(true);
    const Bytes d = content(1, 7);
    a.send(H, d, "R", true);
    Budget b{Losses, 0, 0};
    w.pass(b);
    for (int round = 0; round < 2; ++round) {
        w.later(300 + 400 * uint64_t(nmc::choose(2, "pause")));
        if (nmc::choose(2, "other")) {
            // two packets which arrive before whatever is retransmitted, or only one of them
            const int before = nmc::wire_count();
            a.send(HN, content(2, 6), "R", false);
            if (nmc::wire_count() < before + 2) {
                nmc::fail("the other message was not sent");
            }
            if (nmc::choose(2, "incomplete")) {
                nmc::wire_drop(before);
            }
            while (nmc::wire_count() > before) {
                nmc::wire_deliver(before);
                r.process();
                // acknowledgements go to the end
                if (nmc::wire_count() > before && !View(nmc::wire_at(before).data, nmc::wire_at(before).len).data()) {
                    break;
                }
            }
        }
        w.pass(b);
    }
    w.settle(4);
    const int n = got(r, a, H, d);
    NMC_REQUIRE(n == 1, "a reliable message was delivered %d times", n);
    NMC_REQUIRE(!w.settle(3), "data is sent although everything was acknowledged");
}

// Numbers of packets around the sizes of the acknowledgements, one or two packets or acknowledgements lost
void many_packets() {
    static const int counts[] = {1, 2, 7, 8, 9, 15, 16, 17, 24};
    const int p = counts[nmc::choose(9, "packets")];
    World w;
    Node& a = w.add("A");
    Node& r = w.add("R");
    w.connect();
    const Bytes d = content(1, size_t(4 * p - 3));
    a.send(H, d, "R", true);
    NMC_REQUIRE(nmc::wire_count() == p, "%d packets instead of %d", nmc::wire_count(), p);
    int faults       = 2;
    const bool order = nmc::choose(2, "order") == 1;
    while (nmc::wire_count() > 0) {
        const int pick = order ? nmc::wire_count() - 1 : 0;
        Node* n        = w.receiver(nmc::wire_at(pick));
        if (faults > 0 && nmc::choose(2, "lost")) {
            --faults;
            nmc::wire_drop(pick);
        }
        else {
            nmc::wire_deliver(pick);
            n->process();
        }
    }
    w.settle(5);
    const int n = got(r, a, H, d);
    NMC_REQUIRE(n == 1, "a reliable message of %d packets was delivered %d times", p, n);
    NMC_REQUIRE(!w.settle(3), "data is sent although all %d packets were acknowledged", p);
}

// A target leaves, with or without saying so, while it has not acknowledged: the others are served, it is left alone
void leaving() {
    World w;
    Node& a = w.add("A");
    Node& r = w.add("R");
    Node& s = w.add("S");
    w.connect();
    const Bytes d = content(1, 6);
    const size_t before = s.log.size();
    a.send(H, d, "", true);
    // S is deaf from now on
    const int s_data = nmc::socket_of(s.data_fd), s_ann = nmc::socket_of(s.ann_fd);
    const int leave_at = nmc::choose(3, "leaves");
    const bool quiet   = nmc::choose(2, "quietly") == 1;
    const uint16_t port = s.port;
    int losses = 1;
    uint64_t gone_since = 0;
    auto note_gone      = [&] {
        if (gone_since == 0 && !a.connected(port)) {
            gone_since = nmc::now_ns();
            for (int i = 0; i < nmc::wire_count();) {  // what is on its way already
                if (nmc::wire_at(i).dst_port == port) {
                    nmc::wire_drop(i);
                }
                else {
                    ++i;
                }
            }
        }
    };
    for (int round = 0; round < 8; ++round) {
        if (round == leave_at) {
            s.net.shutdown();
            if (quiet) {
                for (int i = 0; i < nmc::wire_count();) {
                    const auto v = nmc::wire_at(i);
                    if (View(v.data, v.len).type() == LEAVE) {
                        nmc::wire_drop(i);
                    }
                    else {
                        ++i;
                    }
                }
            }
        }
        bool again = true;
        while (again) {
            again = false;
            for (int i = 0; i < nmc::wire_count(); ++i) {
                const auto v = nmc::wire_at(i);
                const View p(v.data, v.len);
                if (p.data() && v.dst_port == port) {
                    NMC_REQUIRE(gone_since == 0, "data is sent to a target which has left");
                }
                const bool to_s = v.to == s_data || v.to == s_ann || v.dst_port == port || v.to < 0;
                if (to_s || (losses > 0 && !World::chatter(v) && nmc::choose(2, "lost"))) {
                    losses -= to_s ? 0 : 1;
                    nmc::wire_drop(i);
                }
                else {
                    Node* n = w.receiver(v);
                    nmc::wire_deliver(i);
                    n->process();
                    note_gone();
                }
                again = true;
                break;
            }
        }
        note_gone();
        nmc::sleep_ns(600 * MS);
        a.process();
        r.process();
        if (round < leave_at) {
            s.process();
        }
        note_gone();
    }
    NMC_REQUIRE(gone_since != 0, "the target is still thought to be connected");
    NMC_REQUIRE(got(r, a, H, d) == 1, "the other target was given the message %d times", got(r, a, H, d));
    for (size_t i = before; i < s.log.size(); ++i) {
        NMC_REQUIRE(s.log[i].kind != MSG, "the harness has let something through");
    }
}

// Two messages at once, both directions
template <int Losses, int Doubles>
void two_messages() {
    World w;
    Node& a = w.add("A");
    Node& r = w.add("R");
    w.connect();
    const Bytes d1 = content(1, 3), d2 = content(2, 6);
    const bool back = nmc::choose(2, "direction") == 1;
    a.send(H, d1, "R", true);
    (back ? r : a).send(HN, d2, back ? "A" : "R", true);
    Budget b{Losses, Doubles, 0};
    for (int round = 0; round < 2; ++round) {
        w.pass(b);
        w.later(1100);
    }
    w.settle(4);
    NMC_REQUIRE(got(r, a, H, d1) == 1, "the first message was delivered %d times", got(r, a, H, d1));
    const int n = back ? got(a, r, HN, d2) : got(r, a, HN, d2);
    NMC_REQUIRE(n == 1, "the second message was delivered %d times", n);
    NMC_REQUIRE(!w.settle(3), "data is sent although everything was acknowledged");
}

// A message whose first packets are lost has the identifier of one which was delivered long ago
void reused_identifier() {
    World w;
    Node& a = w.add("A");
    Node& r = w.add("R");
    w.connect();
    auto id_on_wire = [] { return View(nmc::wire_at(0).data, nmc::wire_at(0).len).id(); };
    a.send(HN, {1}, "R", true);
    const unsigned id = id_on_wire();
    w.settle(1);
    NMC_REQUIRE(got(r, a, HN, {1}) == 1, "not delivered");
    for (int i = 0; i < 65535; ++i) {
        a.send(H, {}, "nobody", false);
    }
    w.settle(30);
    const Bytes d = content(2, size_t(2 + 4 * nmc::choose(2, "packets")));
    a.send(H, d, "R", true);
    NMC_REQUIRE(id_on_wire() == id, "another identifier");
    Budget b{2, 0, 0};
    w.pass(b);
    w.settle(4);
    NMC_REQUIRE(got(r, a, H, d) == 1, "delivered %d times", got(r, a, H, d));
}

// Every acknowledgement is lost for a long time, during which both announce themselves
template <int P>
void long_outage() {
    World w;
    Node& a = w.add("A");
    Node& r = w.add("R");
    w.connect();
    const Bytes d = content(1, size_t(4 * P - 1));
    a.send(H, d, "R", true);
    static const int lengths[] = {1, 4, 9, 18, 30, 60};
    const int rounds = lengths[nmc::choose(6, "rounds")];
    const int step   = 300 + 400 * nmc::choose(2, "time between");
    for (int i = 0; i < rounds; ++i) {
        for (int guard = 0; nmc::wire_count() > 0; ++guard) {
            const auto v = nmc::wire_at(0);
            Node* n      = w.receiver(v);
            const View p(v.data, v.len);
            if (n == nullptr || p.type() == ACK || p.type() == NACK) {
                nmc::wire_drop(0);
                continue;
            }
            nmc::wire_deliver(0);
            n->process();
        }
        w.later(uint64_t(step));
    }
    NMC_REQUIRE(r.count(LEFT, a.port) == 0 && a.count(LEFT, r.port) == 0, "they lost contact");
    w.settle(4);
    const int n = got(r, a, H, d);
    NMC_REQUIRE(n == 1, "a message whose acknowledgements were lost for %d ms was delivered %d times", rounds * step, n);
    NMC_REQUIRE(!w.settle(3), "data is sent although everything was acknowledged");
}

// Several nodes have the name a message is sent to
template <int Losses>
void same_names() {
    World w;
    Node& a = w.add("A");
    w.add("R");
    w.add("R");
    w.add("S");
    w.connect();
    const Bytes d = content(1, size_t(3 + 4 * nmc::choose(2, "packets")));
    const bool reliable = nmc::choose(2, "unreliable") == 0;
    a.send(H, d, "R", reliable);
    Budget b{reliable ? Losses : 0, 0, 0};
    w.pass(b);
    // one of them goes away, or not
    const int leaves = nmc::choose(3, "leaves");
    if (leaves > 0) {
        w.settle(4);
        w.nodes[size_t(leaves)]->leave();
        w.pass_chatter();
        w.nodes[size_t(leaves)]->log.clear();
        NMC_REQUIRE(!a.connected(w.nodes[size_t(leaves)]->port), "a node which has left is still connected");
        a.send(HN, d, "R", true);
    }
    w.settle(4);
    for (int i = 1; i <= 3; ++i) {
        const Node& n = *w.nodes[size_t(i)];
        if (i == leaves) {
            NMC_REQUIRE(n.log.empty(), "something was delivered to a node which has left");
            continue;
        }
        NMC_REQUIRE(got(n, a, H, d, reliable) == (i < 3 ? 1 : 0), "a message for R was delivered %d times to node %d, which is called %s", got(n, a, H, d, reliable), i, n.name.c_str());
        NMC_REQUIRE(got(n, a, HN, d) == (i < 3 && leaves > 0 ? 1 : 0), "a message for the remaining R was delivered %d times to node %d, which is called %s", got(n, a, HN, d), i, n.name.c_str());
    }
    NMC_REQUIRE(!w.settle(3), "data is sent although everything was acknowledged");
}

// The identifiers come round to one which is still being sent
void identifier_in_use() {
    World w;
    Node& a = w.add("A");
    Node& r = w.add("R");
    w.connect();
    const Bytes d = content(1, size_t(2 + 4 * nmc::choose(2, "packets")));
    const Bytes e = content(2, size_t(2 + 4 * nmc::choose(2, "packets of the other")));
    a.send(H, d, "R", true);
    const unsigned id = View(nmc::wire_at(0).data, nmc::wire_at(0).len).id();
    while (nmc::wire_count() > 0) {
        nmc::wire_drop(0);
    }
    for (int i = 0; i < 65535; ++i) {
        a.send(H, {}, "nobody", false);
    }
    a.send(HN, e, "R", true);
    NMC_REQUIRE(View(nmc::wire_at(0).data, nmc::wire_at(0).len).id() != id, "the identifier of a message which is still being sent is used for another one");
    Budget b{1, 0, 0};
    w.pass(b);
    w.settle(4);
    NMC_REQUIRE(got(r, a, H, d) == 1 && got(r, a, HN, e) == 1, "the messages were delivered %d and %d times", got(r, a, H, d), got(r, a, HN, e));
    NMC_REQUIRE(!w.settle(3), "data is sent although everything was acknowledged");
}

// A peer which acknowledges and refuses the packets of a message in any order: what it refuses is sent at once, what it has
// neither acknowledged nor been given anew is sent for as long as it takes
template <int Depth>
void refused() {
    Node a("A", 72);
    Raw k;
    k.send(a.port, announce("K"));
    a.process();
    k.drain();
    const int n          = 2 + nmc::choose(2, "packets");
    const unsigned every = (1U << n) - 1;
    a.send(H, content(1, size_t(4 * n - 1)), "K", true);
    unsigned id = 0;
    auto sent   = [&] {
        unsigned mask = 0;
        for (const auto& b : k.drain()) {
            const View p(b.data(), b.size());
            if (p.data()) {
                NMC_REQUIRE(p.hash() == H && p.no() < n && p.count() == n && p.reliable(), "another packet");
                NMC_REQUIRE((mask >> p.no() & 1) == 0, "packet %d is sent twice at once", p.no());
                NMC_REQUIRE(mask == 0 || id == p.id(), "another identifier");
                mask |= 1U << p.no();
                id = p.id();
            }
        }
        return mask;
    };
    NMC_REQUIRE(sent() == every, "not every packet was sent");
    unsigned acked = 0;
    auto wait      = [&] {
        nmc::sleep_ns(1500 * MS);
        k.send(a.port, announce("K"));
        a.process();
        const unsigned expect = acked == every ? 0 : every & ~acked;
        const unsigned is     = sent();
        NMC_REQUIRE(is == expect, "acknowledged are %x of %x, sent again were %x", acked, every, is);
    };
    for (int i = 0; i < Depth + int(nmc::thorough()); ++i) {
        const int what = nmc::choose(3, "operation");
        if (what == 2) {
            wait();
            continue;
        }
        const unsigned mask = 1 + unsigned(nmc::choose(int(every), "which"));
        const bool over     = acked == every;  // nothing is left of the message
        if (what == 0) {
            k.send(a.port, ack(id, 0, unsigned(n), {uint8_t(mask)}));
            a.process();
            acked |= over ? 0 : mask;
            NMC_REQUIRE(sent() == 0, "an acknowledgement was answered with data");
        }
        else {
            k.send(a.port, nack(id, unsigned(n), {uint8_t(mask)}));
            a.process();
            acked &= over ? every : ~mask;
            const unsigned is = sent();
            NMC_REQUIRE(is == (over ? 0 : mask), "refused were %x, sent again were %x", mask, is);
        }
    }
    wait();
    wait();
    k.send(a.port, ack(id, 0, unsigned(n), {uint8_t(every)}));
    a.process();
    acked = every;
    wait();
}

// Whole system: several threads send reliably while acknowledgements and time arrive
struct System : h::Kicked {
    REACTOR(System) {
        kick<1>([this] { configure(*this, "V", 72); });
        on<Trigger<h::M<1>>>().then([this](const h::M<1>& m) { emit<Scope::NETWORK>(std::make_unique<uint16_t>(uint16_t(m.v)), "K", true); });
        on<Trigger<h::M<2>>>().then([this](const h::M<2>& m) { emit<Scope::NETWORK>(std::make_unique<uint16_t>(uint16_t(m.v)), "K", true); });
        on<Network<uint64_t>>().then([] { nmc::event(1); });
        on<Trigger<NUClear::message::NetworkJoin>>().then([](const NUClear::message::NetworkJoin& j) { nmc::event(j.name == "K" ? 2 : 9); });
        on<Trigger<NUClear::message::NetworkLeave>>().then([](const NUClear::message::NetworkLeave& j) { nmc::event(j.name == "K" ? 3 : 9); });
    }
    static void drive() {
        Listener l;
        Raw k;
        k.send_group(announce("K"));
        nmc::sleep_ns(700 * MS);
        const uint16_t v = l.announced("V");
        NMC_REQUIRE(v != 0, "the node has not announced itself");
        k.send(v, announce("K"));
        nmc::sleep_ns(1 * MS);
        NMC_REQUIRE(h::count(2) == 1, "K has joined %d times", h::count(2));
        k.drain();
        h::pp()->emit(h::mk<h::M<1>>(11));
        h::pp()->emit(h::mk<h::M<2>>(22));
        k.send(v, data(DATA, 7, 0, 1, 1, NUClear::util::serialise::Serialise<uint64_t>::hash(), Bytes(8, 1)));
        k.send_group(announce("K"));
        nmc::sleep_ns(1 * MS);
        unsigned ids[2] = {0, 0};
        auto look       = [&] {
            unsigned seen = 0;
            for (const auto& b : k.drain()) {
                const View p(b.data(), b.size());
                if (p.data()) {
                    const int which = p.payload()[0] == 11 ? 0 : 1;
                    NMC_REQUIRE(p.payload_len() == 2 && p.payload()[0] == (which == 0 ? 11 : 22), "wrong data");
                    NMC_REQUIRE(ids[which] == 0 || ids[which] == p.id(), "another identifier");
                    ids[which] = p.id();
                    seen |= 1U << which;
                }
            }
            return seen;
        };
        NMC_REQUIRE(look() == 3, "not both messages were sent");
        NMC_REQUIRE(ids[0] != ids[1], "two messages have the same identifier");
        k.send(v, ack(ids[0], 0, 1, {1}));
        k.send_group(announce("K"));
        nmc::sleep_ns(1 * MS);
        look();
        nmc::sleep_ns(1700 * MS);
        NMC_REQUIRE(look() == 2, "the message which was not acknowledged was not sent again, or the other one was");
        k.send(v, ack(ids[1], 0, 1, {1}));
        k.send_group(announce("K"));
        nmc::sleep_ns(1 * MS);
        look();  // it may have been on its way
        nmc::sleep_ns(1700 * MS);
        NMC_REQUIRE(look() == 0, "an acknowledged message is sent again");
        NMC_REQUIRE(h::count(1) == 1, "the message to the system was delivered %d times", h::count(1));
        NMC_REQUIRE(h::count(2) == 1 && h::count(3) == 0, "K has joined %d times and left %d times", h::count(2), h::count(3));
    }
};

}  // namespace

#define SEQ_SCENARIO(NAME, WHAT, BODY, QUICK, THOROUGH) \
    NMC_SCENARIO(NAME, WHAT, nullptr, BODY, nmc::preempt(0).steps(2000000).secs(QUICK), nmc::preempt(0).steps(2000000).secs(THOROUGH))
SEQ_SCENARIO("single", "one packet, two losses, one duplication, one delay", (&deliver<1, 1, 2, 1, 1>), 20, 300);
SEQ_SCENARIO("fragments", "two packets, two losses", (&deliver<2, 1, 2, 0, 0>), 20, 300);
SEQ_SCENARIO("fragments_doubled", "two packets, a loss, a duplication, a delay", (&deliver<2, 1, 1, 1, 1>), 30, 900);
SEQ_SCENARIO("fragments_more", "three packets, two losses, a duplication, two delays", (&deliver<3, 1, 2, 1, 2>), 20, 900);
SEQ_SCENARIO("all", "two targets, two packets, a loss", (&deliver<2, 2, 1, 0, 0>), 20, 300);
SEQ_SCENARIO("all_more", "two targets, two losses, a duplication", (&deliver<1, 2, 2, 1, 1>), 20, 900);
SEQ_SCENARIO("traffic", "other traffic in between", (&traffic<2>), 20, 600);
SEQ_SCENARIO("many_packets", "numbers of packets around multiples of eight", &many_packets, 20, 300);
SEQ_SCENARIO("leaving", "a target leaves", &leaving, 20, 300);
SEQ_SCENARIO("two_messages", "two messages at once", (&two_messages<2, 1>), 20, 600);
SEQ_SCENARIO("reused_identifier", "identifiers wrap around", &reused_identifier, 20, 300);
SEQ_SCENARIO("long_outage", "acknowledgements are lost for up to forty seconds", (&long_outage<1>), 20, 300);
SEQ_SCENARIO("long_outage_parts", "acknowledgements of a message of two parts are lost for up to forty seconds", (&long_outage<2>), 20, 300);
SEQ_SCENARIO("same_names", "two targets of the same name", (&same_names<1>), 20, 300);
SEQ_SCENARIO("identifier_in_use", "the identifiers come round to one in use", &identifier_in_use, 20, 300);
SEQ_SCENARIO("refused", "packets are acknowledged and refused in any order", (&refused<3>), 30, 300);
SEQ_SCENARIO("refused_more", "packets are acknowledged and refused in any order, more of them", (&refused<4>), 30, 900);
NET_SCENARIO(System, 2, "a whole system with two threads", nmc::delays(1).secs(30), nmc::delays(2).secs(900));
