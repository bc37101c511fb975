// P22: no datagram, however malformed, can crash or corrupt a node.
// A real node of the network library is fed sequences of datagrams with boundary values in every field and every
// truncation, from a peer it knows and from strangers; memory is checked, and a reference decides what may be delivered.
#include "net.hpp"

namespace {

using namespace net;
using NUClear::dsl::word::NetworkSource;


const uint16_t MTU = 72;  // four bytes of data per packet
const uint64_t H1 = 0x1111222233334444, H2 = 0x5555666677778888;
const Bytes OUT{'r', 'e', 'l', 'i', 'a', 'b'};  // the reliable message the node is sending to K

Bytes part(uint64_t hash, unsigned no, int len) {
    Bytes b;
    for (int i = 0; i < len; ++i) {
        b.push_back(uint8_t((hash & 0xF0) + no * 16 + i));
    }
    return b;
}

struct Sent {
    bool valid;  // a complete data packet of a known peer
    int who;     // the peer, counting from when it joined
    unsigned id, no, count, reliable;
    uint64_t hash;
    Bytes data;
    bool delivered;
};

enum Choices { Parts, Pairs, Full };

struct World {
    Node v{"V", MTU};
    Raw k, u;
    bool knows_k{true}, knows_u{false};
    int epoch_k{0}, epoch_u{1};
    unsigned out_id{0};
    bool out_acked{false};  // fully acknowledged
    uint8_t out_bits{0};
    std::vector<Sent> sent;
    size_t seen{0};  // of v.log

    // everything the node says must be well-formed
    void listen(Raw& who) {

        for (const auto& b : who.drain()) {
            const View w(b.data(), b.size());
            NMC_REQUIRE(w.ok(), "the node has sent %d bytes which are no packet", int(b.size()));
            switch (w.type()) {
                case ANNOUNCE: NMC_REQUIRE(b == announce("V"), "a wrong announcement was sent"); break;
                case DATA:
                case RETX: {
                    NMC_REQUIRE(&who == &k, "data was sent to a stranger");
                    NMC_REQUIRE(b.size() >= DATA_HEADER && w.count() == 2 && w.no() < 2 && w.hash() == H1 && w.reliable(), "wrong data packet %d of %d sent", w.no(), w.count());
                    if (out_id == 0) {
                        out_id = w.id();
                    }
                    NMC_REQUIRE(w.id() == out_id, "packet id %d instead of %d", w.id(), out_id);
                    const Bytes want(OUT.begin() + w.no() * 4, w.no() == 0 ? OUT.begin() + 4 : OUT.end());
                    NMC_REQUIRE(Bytes(b.begin() + DATA_HEADER, b.end()) == want, "packet %d was sent with wrong data", w.no());
                } break;
                case ACK: NMC_REQUIRE(b.size() == ACK_HEADER + 1 + w.count() / 8, "an acknowledgement of %d bytes for %d packets", int(b.size()), w.count()); break;
                case NACK: NMC_REQUIRE(b.size() == NACK_HEADER + 1 + w.count() / 8, "a refusal of %d bytes for %d packets", int(b.size()), w.count()); break;
                default: NMC_REQUIRE(false, "a packet of type %d was sent", w.type());
            }
        }
    }
    void begin() {
        v.process();
        k.send(v.port, announce("K"));
        v.process();
        NMC_REQUIRE(v.connected(k.port), "K has not joined");
        v.send(H1, OUT, "K", true);
        listen(k);
        NMC_REQUIRE(out_id != 0, "nothing was sent to K");
    }
    bool complete(size_t upto, const Sent& p) {
        std::vector<bool> have(p.count, false);
        for (size_t i = 0; i < upto; ++i) {
            if (sent[i].delivered && i + 1 < upto && sent[i].who == p.who && sent[i].id == p.id && sent[i].count == p.count && sent[i].hash == p.hash && sent[i].reliable == p.reliable) {
                have.assign(p.count, false);  // from here on it is a duplicate of the whole message
            }
            else if (sent[i].valid && sent[i].who == p.who && sent[i].id == p.id && sent[i].count == p.count && sent[i].hash == p.hash && sent[i].reliable == p.reliable) {
                have[sent[i].no] = true;
            }
        }
        for (bool b : have) {
            if (!b) {
                return false;
            }
        }
        return true;
    }
    // any combination of the versions of each part
    bool matches(const Sent& p, const Bytes& got, unsigned no, size_t at) {
        if (no == p.count) {
            return at == got.size();
        }
        for (const auto& s : sent) {
            if (s.valid && s.who == p.who && s.id == p.id && s.count == p.count && s.hash == p.hash && s.reliable == p.reliable && s.no == no && at + s.data.size() <= got.size()
                && std::equal(s.data.begin(), s.data.end(), got.begin() + at) && matches(p, got, no + 1, at + s.data.size())) {
                return true;
            }
        }
        return false;
    }
    // after one datagram: what must, may and must not have been delivered
    void judge() {
        Sent& p = sent.back();
        int n   = 0;
        for (; seen < v.log.size(); ++seen) {
            const auto& e = v.log[seen];
            if (e.kind == MSG) {
                ++n;
                NMC_REQUIRE(p.valid, "a message of %d bytes was delivered which nobody sent", int(e.data.size()));
                NMC_REQUIRE(e.hash == p.hash && e.reliable == (p.reliable != 0) && e.port == (p.who % 2 == 0 ? k.port : u.port) && e.peer == (p.who % 2 == 0 ? "K" : "E"), "delivered with a wrong type or sender");
                NMC_REQUIRE(matches(p, e.data, 0, 0), "a message was delivered with bytes nobody sent");
                p.delivered = true;
            }
        }
        NMC_REQUIRE(n <= 1, "%d messages were delivered for one datagram", n);
        if (!p.valid) {
            return;
        }
        bool must = true, may = true;
        if (p.count > 1) {
            must = may = complete(sent.size(), p);
        }
        for (size_t i = 0; i + 1 < sent.size(); ++i) {
            const auto& s = sent[i];
            if (s.valid && s.who == p.who && s.id == p.id) {
                const bool same = s.count == p.count && s.hash == p.hash && s.reliable == p.reliable;
                if (!same || (s.reliable != 0 && s.data != p.data)) {
                    must = false;  // an identifier used for two things
                }
                else if (p.reliable != 0 && s.delivered) {
                    must = may = false;  // delivered before
                }
            }
        }
        NMC_REQUIRE(may || n == 0, "part %d of %d (id %d, %s) led to a second or premature delivery", p.no, p.count, p.id, p.reliable ? "reliable" : "unreliable");
        NMC_REQUIRE(!must || n == 1, "part %d of %d (id %d, %s) was not delivered", p.no, p.count, p.id, p.reliable ? "reliable" : "unreliable");
    }
    // the choices range from the parts of two-part messages (Parts) to everything there is (Full)
    void attack(Choices rich) {
        static const uint8_t types[] = {ANNOUNCE, LEAVE, DATA, RETX, ACK, NACK, 0, 7, 255};
        static const uint8_t few[] = {DATA, RETX, LEAVE, ANNOUNCE};
        const uint8_t type = rich == Parts ? few[nmc::choose(4, "type")] : types[nmc::choose(9, "type")];
        const bool known   = rich == Parts || (rich == Pairs && type != ANNOUNCE && type != LEAVE) || nmc::choose(2, "sender") == 0;
        Raw& from          = known ? k : u;
        Bytes b;
        Sent s{false, known ? epoch_k : epoch_u, 0, 0, 0, 0, 0, {}, false};
        static const unsigned nos[] = {0, 1, 2, 65535}, counts[] = {2, 1, 0, 3, 65535}, rels[] = {0, 1, 255};
        switch (type) {
            case ANNOUNCE: b = announce(rich != Parts && nmc::choose(2, "name") ? "" : known ? "K" : "E"); break;
            case DATA:
            case RETX: {
                s.id       = rich == Full && nmc::choose(2, "id") ? 65535 : 3;
                s.count    = counts[nmc::choose(rich == Full ? 5 : rich == Pairs ? 3 : 1, "count")];
                s.no       = nos[nmc::choose(rich == Full ? 4 : rich == Pairs ? 3 : 2, "no")];
                s.reliable = rels[nmc::choose(rich == Full ? 3 : 2, "reliable")];
                s.hash     = nmc::choose(2, "hash") ? H2 : H1;
                s.data     = part(s.hash, s.no, rich == Full && nmc::choose(2, "length") ? 0 : 4);
                b          = data(type, s.id, s.no, s.count, s.reliable, s.hash, s.data);
                s.valid    = (known ? knows_k : knows_u) && s.no < s.count;
                if (s.reliable == 255) {
                    s.reliable = 1;
                }
            } break;
            case ACK:
            case NACK: {
                const unsigned id  = nmc::choose(2, "id") ? 9 : out_id;
                const unsigned cnt = counts[nmc::choose(rich == Full ? 5 : 3, "count")];
                static const uint8_t bits[] = {0, 1, 2, 3, 0xFF};
                const uint8_t bit  = bits[nmc::choose(rich == Full ? 5 : 4, "bits")];
                const size_t nbits = nmc::choose(2, "size") ? 1 + cnt / 8 : 1;
                b                  = type == ACK ? ack(id, 0, cnt, Bytes(nbits, bit)) : nack(id, cnt, Bytes(nbits, bit));
            } break;
            default: b = header(type); break;
        }
        const size_t cut = size_t(nmc::choose(rich == Full ? 13 : rich == Pairs ? 2 : 1, "truncation"));
        if (cut > 0) {
            // every length for short packets, and the last few for long ones
            if (cut > b.size()) {
                nmc::prune();
            }
            b.resize(b.size() - cut);
            if (s.valid && b.size() >= DATA_HEADER) {
                s.data.assign(b.begin() + DATA_HEADER, b.end());
            }
            else {
                s.valid = false;
            }
        }
        const int broken = rich == Full && cut == 0 ? nmc::choose(5, "magic") : 0;
        if (broken > 0 && size_t(broken) <= b.size()) {
            b[broken - 1] ^= 0x40;
            s.valid = false;
        }
        const bool ok = broken == 0 && b.size() >= HEADER;
        if (ok && type == LEAVE) {
            (known ? epoch_k : epoch_u) += 2;
            (known ? knows_k : knows_u) = false;
        }
        if (ok && type == ANNOUNCE && b.size() > HEADER + 1) {
            (known ? knows_k : knows_u) = true;
        }
        if (ok && known && knows_k && type == ACK && b.size() == ACK_HEADER + 1 && View(b.data(), b.size()).id() == out_id && View(b.data(), b.size()).count() == 2) {
            out_bits |= b[ACK_HEADER];
        }
        sent.push_back(s);
        from.send(nmc::choose(rich == Full ? 2 : 1, "socket") ? PORT : v.port, b);
        v.process();
        judge();
        listen(k);
        listen(u);
        NMC_REQUIRE(nmc::queued(v.data_fd) == 0 && nmc::queued(v.ann_fd) == 0, "the node has stopped reading");
        NMC_REQUIRE(v.connected(k.port) == knows_k && v.connected(u.port) == knows_u, "the node has a wrong idea of who is connected");
    }
    // well-formed traffic still works
    void aftermath() {
        v.check_alternation();
        k.send(v.port, announce("K"));
        v.process();
        NMC_REQUIRE(v.connected(k.port), "K cannot join any more");
        const bool lost = v.count(LEFT, k.port) > 0;  // the reliable message need not go on then
        seen            = v.log.size();
        k.send(v.port, data(DATA, 100, 0, 1, 1, H1, {'o', 'k'}));
        k.send(v.port, data(DATA, 101, 1, 2, 1, H2, {'z'}));
        k.send(v.port, data(DATA, 101, 0, 2, 1, H2, {'w', 'x', 'y'}));
        v.process();
        NMC_REQUIRE(v.log.size() == seen + 2, "%d of 2 well-formed messages were delivered", int(v.log.size() - seen));
        NMC_REQUIRE(v.log[seen].kind == MSG && v.log[seen].data == Bytes({'o', 'k'}) && v.log[seen].hash == H1, "a well-formed message was delivered wrongly");
        NMC_REQUIRE(v.log[seen + 1].kind == MSG && v.log[seen + 1].data == Bytes({'w', 'x', 'y', 'z'}) && v.log[seen + 1].hash == H2, "a well-formed message was delivered wrongly");
        listen(k);
        // the reliable message is retransmitted until it is acknowledged
        nmc::sleep_ns(1500 * MS);
        k.send(v.port, announce("K"));
        v.process();
        unsigned again = 0;
        for (const auto& b : k.drain()) {
            const View w(b.data(), b.size());
            if (w.data()) {
                again |= 1U << w.no();
            }
        }
        if (lost) {
            NMC_REQUIRE(again == 0, "retransmission to a peer which has left");
        }
        else {
            const unsigned want = (out_bits & 3U) == 3U ? 0U : 3U & ~unsigned(out_bits);
            NMC_REQUIRE((again & want) == want && ((out_bits & 3U) != 3U || again == 0), "packets %x were retransmitted instead of %x", again, want);
        }
        k.send(v.port, ack(out_id, 0, 2, {3}));
        v.process();
        nmc::sleep_ns(1500 * MS);
        k.send(v.port, announce("K"));
        v.process();
        for (const auto& b : k.drain()) {
            NMC_REQUIRE(!View(b.data(), b.size()).data(), "an acknowledged message is sent again");
        }
    }
};

template <int N, Choices Rich>
void fuzz() {
    World w;
    w.begin();
    for (int i = 0; i < N; ++i) {
        w.attack(Rich);
    }
    w.aftermath();
}

// Every truncation of every kind of packet
void truncated() {
    World w;
    w.begin();
    Bytes b;
    switch (nmc::choose(7, "type")) {
        case 0: b = announce("a long name"); break;
        case 1: b = header(LEAVE); break;
        case 2: b = data(DATA, 3, 0, 1, 1, H1, {1, 2, 3}); break;
        case 3: b = data(RETX, 3, 1, 2, 1, H1, {1, 2, 3}); break;
        case 4: b = data(DATA, 3, 0, 1, 0, H1, {1, 2, 3}); break;
        case 5: b = ack(w.out_id, 0, 2, {3}); break;
        default: b = nack(w.out_id, 2, {3}); break;
    }
    const size_t keep = size_t(nmc::choose(int(b.size()), "length"));
    b.resize(keep);
    const bool named = b.size() > HEADER + 1 && b[4] == ANNOUNCE;
    const bool whole = b.size() >= DATA_HEADER && (b[4] == DATA) && View(b.data(), b.size()).count() == 1;
    const bool known = nmc::choose(2, "sender") == 0;
    (known ? w.k : w.u).send(w.v.port, b);
    w.seen = w.v.log.size();
    w.v.process();
    int n = 0;
    for (size_t i = w.seen; i < w.v.log.size(); ++i) {
        if (w.v.log[i].kind == MSG) {
            ++n;
            NMC_REQUIRE(w.v.log[i].data == Bytes(b.begin() + DATA_HEADER, b.end()), "delivered with other bytes than sent");
        }
    }
    NMC_REQUIRE(n == (whole && known ? 1 : 0), "%d messages were delivered", n);
    w.knows_u = named && !known;
    w.knows_k = !(known && keep >= HEADER && b[4] == LEAVE);
    w.listen(w.k);
    w.listen(w.u);
    NMC_REQUIRE(w.v.connected(w.u.port) == w.knows_u && w.v.connected(w.k.port) == w.knows_k, "the node has a wrong idea of who is connected");
    w.aftermath();
}

// Packets from the address announcements are sent to
void from_announce_address() {
    Node v("V", MTU, "10.0.0.1");
    v.process();
    Raw k;
    k.send(v.port, announce("K"));
    v.process();
    NMC_REQUIRE(v.connected(k.port), "K has not joined");
    auto a = addr(OWN, PORT);
    Bytes b;
    switch (nmc::choose(5, "what")) {
        case 0: b = header(LEAVE); break;
        case 1: b = announce("E"); break;
        case 2: b = data(DATA, 3, 0, 1, 1, H1, {1}); break;
        case 3: b = data(DATA, 3, 0, 2, 1, H1, {1}); break;
        default: b = ack(1, 0, 1, {1}); break;
    }
    nmc::net_inject(v.data_fd, &a, nullptr, b.data(), b.size());
    v.process();
    for (const auto& e : v.log) {
        NMC_REQUIRE(e.kind != LEFT && (e.kind != MSG || e.peer == "E"), "the node itself is taken for a peer");
        NMC_REQUIRE(!e.peer.empty(), "a peer without a name");
    }
    // it still announces, and still notices who is gone
    for (int i = 0; i < 6; ++i) {
        nmc::sleep_ns(600 * MS);
        k.drain();
        v.process();
        NMC_REQUIRE(nmc::queued(v.ann_fd) == 0, "not read");
    }
    NMC_REQUIRE(!v.connected(k.port), "K has been silent for 3600 ms and has not left");
}

// More reliable messages than the node remembers
void many_reliable() {
    Node v("V", MTU);
    v.process();
    Raw k;
    k.send(v.port, announce("K"));
    v.process();
    const int n = 250 + nmc::choose(20, "messages");
    for (int i = 0; i < n; ++i) {
        k.send(v.port, data(DATA, unsigned(1000 + i), 0, 1, 1, H1, {uint8_t(i)}));
        v.process();
        NMC_REQUIRE(k.drain().size() >= 1, "message %d was not acknowledged", i);
    }
    NMC_REQUIRE(v.count(MSG, k.port) == n, "%d of %d messages were delivered", v.count(MSG, k.port), n);
    for (int i = n - 200; i < n; ++i) {
        k.send(v.port, data(RETX, unsigned(1000 + i), 0, 1, 1, H1, {uint8_t(i)}));
        v.process();
        NMC_REQUIRE(k.drain().size() == 1, "message %d was not acknowledged again", i);
    }
    NMC_REQUIRE(v.count(MSG, k.port) == n, "a message was delivered twice");
    int i = 0;
    for (const auto& e : v.log) {
        if (e.kind == MSG) {
            NMC_REQUIRE(e.data == Bytes{uint8_t(i)}, "message %d was delivered wrongly", i);
            ++i;
        }
    }
}

// Many packets in one message: acknowledgements with several bytes
void wide() {
    World w;
    w.begin();
    static const int counts[] = {7, 8, 9, 15, 16, 17};
    const int n = counts[nmc::choose(6, "packets")];
    Bytes msg;
    for (int i = 0; i < 4 * n - 2; ++i) {
        msg.push_back(uint8_t(i));
    }
    w.v.send(H2, msg, "K", true);
    unsigned id = 0;
    for (const auto& b : w.k.drain()) {
        const View p(b.data(), b.size());
        if (p.data() && p.hash() == H2) {
            id = p.id();
            NMC_REQUIRE(p.count() == n, "%d packets instead of %d", p.count(), n);
        }
    }
    // a refusal, of everything or of one packet
    Bytes bits(1 + n / 8, 0);
    const int which = nmc::choose(n + 1, "which");
    for (int i = 0; i < n; ++i) {
        if (which == i || which == n) {
            bits[i / 8] |= uint8_t(1 << (i % 8));
        }
    }
    w.k.send(w.v.port, nack(id, unsigned(n), bits));
    w.v.process();
    std::vector<int> got(n, 0);
    for (const auto& b : w.k.drain()) {
        const View p(b.data(), b.size());
        if (p.data() && p.hash() == H2) {
            NMC_REQUIRE(p.no() < n, "packet %d of %d was sent", p.no(), n);
            const auto from = msg.begin() + 4 * p.no();
            NMC_REQUIRE(Bytes(b.begin() + DATA_HEADER, b.end()) == Bytes(from, p.no() + 1 < n ? from + 4 : msg.end()), "packet %d was sent with wrong data", p.no());
            ++got[p.no()];
        }
    }
    for (int i = 0; i < n; ++i) {
        NMC_REQUIRE(got[i] == (which == i || which == n ? 1 : 0), "packet %d was sent %d times", i, got[i]);
    }
    // everything but one packet is acknowledged, then that one
    const int miss = nmc::choose(n, "missing");
    Bytes all(1 + n / 8, 0);
    for (int i = 0; i < n; ++i) {
        all[i / 8] |= uint8_t(i != miss ? 1 << (i % 8) : 0);
    }
    w.k.send(w.v.port, ack(id, 0, unsigned(n), all));
    w.v.process();
    nmc::sleep_ns(1500 * MS);
    w.k.send(w.v.port, announce("K"));
    w.v.process();
    int again = 0;
    for (const auto& b : w.k.drain()) {
        const View p(b.data(), b.size());
        if (p.data() && p.hash() == H2) {
            NMC_REQUIRE(p.no() == miss, "packet %d was sent again, missing is %d", p.no(), miss);
            ++again;
        }
    }
    NMC_REQUIRE(again == 1, "the missing packet was sent %d times", again);
    all[miss / 8] |= uint8_t(1 << (miss % 8));
    w.k.send(w.v.port, ack(id, 0, unsigned(n), all));
    w.v.process();
    nmc::sleep_ns(1500 * MS);
    w.k.send(w.v.port, announce("K"));
    w.v.process();
    for (const auto& b : w.k.drain()) {
        const View p(b.data(), b.size());
        NMC_REQUIRE(!p.data() || p.hash() != H2, "an acknowledged message of %d packets is sent again", n);
    }
}

// Acknowledgements and refusals of the wrong length or for another number of packets change nothing
void lengths() {
    World w;
    w.begin();
    static const int counts[] = {7, 8, 9, 15, 16, 17};
    const int n = counts[nmc::choose(6, "packets")];
    w.v.send(H2, Bytes(size_t(4 * n - 2), 5), "K", true);
    unsigned id = 0, sent = 0;
    auto look = [&] {
        unsigned c = 0;
        for (const auto& b : w.k.drain()) {
            const View p(b.data(), b.size());
            if (p.data() && p.hash() == H2) {
                id = p.id();
                ++c;
            }
        }
        return c;
    };
    sent = look();
    NMC_REQUIRE(int(sent) == n, "%u packets instead of %d", sent, n);
    const size_t right = 1 + size_t(n) / 8;
    const size_t len   = size_t(nmc::choose(int(right) + 3, "length"));
    const int count    = n + nmc::choose(5, "count") - 2;
    if (len == right && count == n) {
        nmc::prune();  // that one is valid
    }
    const Bytes bits(len, nmc::choose(2, "bits") ? 0xFF : 0x01);
    const bool refuse = nmc::choose(2, "kind") == 1;
    w.k.send(w.v.port, refuse ? nack(id, unsigned(count), bits) : ack(id, 0, unsigned(count), bits));
    w.v.process();
    NMC_REQUIRE(look() == 0, "data is sent because of %zu bytes for %d packets, of which there are %d", len, count, n);
    nmc::sleep_ns(1500 * MS);
    w.k.send(w.v.port, announce("K"));
    w.v.process();
    sent = look();
    NMC_REQUIRE(int(sent) == n, "%u packets were sent again instead of %d, after %zu bytes for %d packets", sent, n, len, count);
    w.k.send(w.v.port, ack(id, 0, unsigned(n), Bytes(right, 0xFF)));
    w.v.process();
    nmc::sleep_ns(1500 * MS);
    w.k.send(w.v.port, announce("K"));
    w.v.process();
    NMC_REQUIRE(look() == 0, "an acknowledged message of %d packets is sent again", n);
}

// Messages whose bytes do not fit the type they claim to be, in a whole system
struct Typed : h::Kicked {
    REACTOR(Typed) {
        on<Network<uint32_t>>().then([](const NetworkSource& s, const uint32_t& v) {
            NMC_REQUIRE(s.name == "K", "from %s", s.name.c_str());
            nmc::event(1, v);
        });
        on<Network<uint32_t>, Trigger<h::M<1>>>().then([](const uint32_t&) { nmc::event(2); });
        on<Network<std::vector<uint16_t>>>().then([](const std::vector<uint16_t>& v) { nmc::event(3, int64_t(v.size())); });
        on<Trigger<h::M<2>>>().then([this] { emit(h::mk<h::M<1>>(1)); });
        kick([this] { configure(*this, "V"); });
    }
    static void drive() {
        Listener l;
        Raw k;
        nmc::sleep_ns(100 * MS);
        k.send_group(announce("K"));
        nmc::sleep_ns(600 * MS);
        const uint16_t v = l.announced("V");
        NMC_REQUIRE(v != 0, "the node has not announced itself");
        k.send(v, announce("K"));
        const uint64_t h4 = NUClear::util::serialise::Serialise<uint32_t>::hash();
        const uint64_t hv = NUClear::util::serialise::Serialise<std::vector<uint16_t>>::hash();
        const int len     = nmc::choose(7, "length");
        const int parts   = 1 + nmc::choose(2, "parts");
        const bool vec    = nmc::choose(2, "type") == 1;
        const Bytes body(size_t(len), 7);
        const unsigned rel = unsigned(nmc::choose(2, "reliable"));
        if (parts == 1) {
            k.send(v, data(DATA, 1, 0, 1, rel, vec ? hv : h4, body));
        }
        else {
            k.send(v, data(DATA, 1, 0, 2, rel, vec ? hv : h4, Bytes(body.begin(), body.begin() + len / 2)));
            k.send(v, data(DATA, 1, 1, 2, rel, vec ? hv : h4, Bytes(body.begin() + len / 2, body.end())));
        }
        const int good = !vec && len == 4 ? 1 : 0;
        nmc::sleep_ns(1 * MS);
        h::pp()->emit(h::mk<h::M<2>>(1));
        nmc::sleep_ns(1 * MS);
        NMC_REQUIRE(h::count(2) == good, "the reaction to a message and the network ran %d times instead of %d", h::count(2), good);
        k.send(v, data(DATA, 2, 0, 1, 1, h4, {5, 0, 0, 0}));
        nmc::sleep_ns(1 * MS);
        h::pp()->emit(h::mk<h::M<2>>(1));
        nmc::sleep_ns(1 * MS);
        k.send(v, data(DATA, 3, 0, 1, 0, h4, {6, 0, 0, 0}));
        nmc::sleep_ns(1 * MS);
        NMC_REQUIRE(h::count(1, 5) == 1 && h::count(1, 6) == 1, "well-formed messages were delivered %d and %d times", h::count(1, 5), h::count(1, 6));
        NMC_REQUIRE(h::count(1) == (!vec && len == 4 ? 3 : 2), "%d messages were delivered", h::count(1));
        NMC_REQUIRE(h::count(2) >= 2 + good, "the reaction to a message and the network ran %d times instead of %d", h::count(2), 2 + good);
        NMC_REQUIRE(h::count(3) == (vec && len % 2 == 0 ? 1 : 0), "%d sequences were delivered", h::count(3));
    }
};

}  // namespace

NET_SCENARIO(Typed, 1, "messages which do not fit their type", nmc::delays(0).secs(20), nmc::delays(1).secs(300));
NMC_SCENARIO("truncated", "every truncation of every kind of packet", nullptr, &truncated, nmc::preempt(0), nmc::preempt(0));
NMC_SCENARIO("one", "one datagram with boundary values in every field", nullptr, (&fuzz<1, Full>), nmc::preempt(0).secs(40), nmc::preempt(0).secs(300));
NMC_SCENARIO("two", "two datagrams with boundary values in every field", nullptr, (&fuzz<2, Pairs>), nmc::preempt(0).secs(60), nmc::preempt(0).secs(900));
NMC_SCENARIO("parts", "three parts of two-part messages, first sent or sent again, with leaving and joining", nullptr, (&fuzz<3, Parts>), nmc::preempt(0).secs(30), nmc::preempt(0).secs(900));
NMC_SCENARIO("many_parts", "four parts of two-part messages", nullptr, (&fuzz<4, Parts>), nmc::preempt(0).secs(30), nmc::preempt(0).secs(900));
NMC_SCENARIO("announce_address", "packets which seem to come from the announce address", nullptr, &from_announce_address, nmc::preempt(0), nmc::preempt(0));
NMC_SCENARIO("many_reliable", "more reliable messages than are remembered", nullptr, &many_reliable, nmc::preempt(0), nmc::preempt(0));
NMC_SCENARIO("wide", "refusals and acknowledgements of several bytes", nullptr, &wide, nmc::preempt(0), nmc::preempt(0));
NMC_SCENARIO("lengths", "refusals and acknowledgements of the wrong length", nullptr, &lengths, nmc::preempt(0), nmc::preempt(0));
