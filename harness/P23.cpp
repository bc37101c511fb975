// P23: serialising and deserialising returns the value; type identity is stable.
// Exhaustive over lengths, positions and small alphabets; the hash is compared with an implementation written from the
// published definition which shares no code and no structure with the one in the repository.
#include <cstring>
#include <deque>
#include <limits>
#include <list>
#include <map>
#include <set>
#include <string>
#include <thread>
#include <vector>

namespace google {
namespace protobuf {
    class MessageLite {};
    class Message : public MessageLite {};
}  // namespace protobuf
}  // namespace google

#include "common.hpp"
#include "util/demangle.hpp"
#include "util/serialise/Serialise.hpp"
#include "util/serialise/xxhash.hpp"

using NUClear::util::demangle;
using NUClear::util::serialise::Serialise;
using NUClear::util::serialise::xxhash32;
using NUClear::util::serialise::xxhash64;
using Bytes = std::vector<uint8_t>;

namespace {

// ---------------------------------------------------------------------------------------------------------------------
// The reference: XXH32/XXH64 specification 0.1.1, on a queue of bytes
// ---------------------------------------------------------------------------------------------------------------------
template <class W>
struct Spec;
template <>
struct Spec<uint32_t> {
    static constexpr uint32_t p1 = 2654435761U, p2 = 2246822519U, p3 = 3266489917U, p4 = 668265263U, p5 = 374761393U;
};
template <>
struct Spec<uint64_t> {
    static constexpr uint64_t p1 = 11400714785074694791ULL, p2 = 14029467366897019727ULL, p3 = 1609587929392839161ULL,
                              p4 = 9650029242287828579ULL, p5 = 2870177450012600261ULL;
};
template <class W>
W rol(W v, unsigned n) {
    return W(v << n) | W(v >> (sizeof(W) * 8 - n));
}
template <class W>
W lane(const uint8_t* b) {
    W v = 0;
    for (size_t i = sizeof(W); i-- > 0;) {
        v = W(v << 8) | b[i];
    }
    return v;
}
uint32_t round_(uint32_t acc, uint32_t l) {
    return rol<uint32_t>(acc + l * Spec<uint32_t>::p2, 13) * Spec<uint32_t>::p1;
}
uint64_t round_(uint64_t acc, uint64_t l) {
    return rol<uint64_t>(acc + l * Spec<uint64_t>::p2, 31) * Spec<uint64_t>::p1;
}
template <class W>
W init_acc(const uint8_t*& b, size_t& n, W seed) {
    using S              = Spec<W>;
    const size_t stripe  = 4 * sizeof(W);
    const bool is64      = sizeof(W) == 8;
    if (n < stripe) {
        return seed + S::p5;
    }
    W a[4] = {W(seed + S::p1 + S::p2), W(seed + S::p2), seed, W(seed - S::p1)};
    while (n >= stripe) {
        for (int k = 0; k < 4; ++k) {
            a[k] = round_(a[k], lane<W>(b + k * sizeof(W)));
        }
        b += stripe;
        n -= stripe;
    }
    W acc = rol(a[0], 1) + rol(a[1], 7) + rol(a[2], 12) + rol(a[3], 18);
    if (is64) {
        for (int k = 0; k < 4; ++k) {
            acc = (acc ^ round_(W(0), a[k])) * S::p1 + S::p4;
        }
    }
    return acc;
}
uint32_t spec32(const uint8_t* b, size_t n, uint32_t seed) {
    using S      = Spec<uint32_t>;
    const auto L = uint32_t(n);
    uint32_t acc = init_acc<uint32_t>(b, n, seed) + L;
    while (n >= 4) {
        acc = rol<uint32_t>(acc + lane<uint32_t>(b) * S::p3, 17) * S::p4;
        b += 4;
        n -= 4;
    }
    while (n-- > 0) {
        acc = rol<uint32_t>(acc + *b++ * S::p5, 11) * S::p1;
    }
    acc ^= acc >> 15;
    acc *= S::p2;
    acc ^= acc >> 13;
    acc *= S::p3;
    return acc ^ (acc >> 16);
}
uint64_t spec64(const uint8_t* b, size_t n, uint64_t seed) {
    using S      = Spec<uint64_t>;
    const auto L = uint64_t(n);
    uint64_t acc = init_acc<uint64_t>(b, n, seed) + L;
    while (n >= 8) {
        acc = rol<uint64_t>(acc ^ round_(uint64_t(0), lane<uint64_t>(b)), 27) * S::p1 + S::p4;
        b += 8;
        n -= 8;
    }
    if (n >= 4) {
        acc = rol<uint64_t>(acc ^ (lane<uint32_t>(b) * S::p1), 23) * S::p2 + S::p3;
        b += 4;
        n -= 4;
    }
    while (n-- > 0) {
        acc = rol<uint64_t>(acc ^ (*b++ * S::p5), 11) * S::p1;
    }
    acc ^= acc >> 33;
    acc *= S::p2;
    acc ^= acc >> 29;
    acc *= S::p3;
    return acc ^ (acc >> 32);
}

const uint64_t SEEDS[] = {0, 1, 0x4e55436c, 0x7fffffff, 0xffffffff, 0x100000000ULL, 0x9E3779B185EBCA8DULL, ~0ULL};

void both(const Bytes& b, size_t n, uint64_t seed) {
    const auto* p    = reinterpret_cast<const char*>(b.data());
    const uint32_t a = xxhash32(p, n, uint32_t(seed));
    const uint32_t c = spec32(b.data(), n, uint32_t(seed));
    NMC_REQUIRE(a == c, "xxhash32 of %zu bytes with seed %llx is %08x, defined as %08x", n, (unsigned long long) seed, a, c);
    const uint64_t d = xxhash64(p, n, seed);
    const uint64_t e = spec64(b.data(), n, seed);
    NMC_REQUIRE(d == e, "xxhash64 of %zu bytes with seed %llx is %016llx, defined as %016llx", n,
                (unsigned long long) seed, (unsigned long long) d, (unsigned long long) e);
}

// every length, every position, a set of byte values, a set of seeds
void hash_values() {
    const size_t n    = size_t(nmc::choose(nmc::thorough() ? 321 : 161, "length"));
    const int pattern = nmc::choose(3, "pattern");
    const int off     = nmc::choose(nmc::thorough() ? 4 : 2, "alignment");
    Bytes store(n + 8);
    // the block ends with the input, so a read beyond its end is one beyond the block
    Bytes b(n);
    for (size_t i = 0; i < n; ++i) {
        b[i] = pattern == 0 ? uint8_t(0) : pattern == 1 ? uint8_t(0xff) : uint8_t(i * 37 + 11);
    }
    for (const uint64_t seed : SEEDS) {
        both(b, n, seed);
        if (off > 0 && n > size_t(off)) {
            Bytes shifted(b.begin(), b.end());
            const auto* p    = reinterpret_cast<const char*>(shifted.data()) + off;
            const uint64_t d = xxhash64(p, n - off, seed);
            const uint64_t e = spec64(b.data() + off, n - off, seed);
            NMC_REQUIRE(d == e, "xxhash64 depends on the alignment of its input");
            NMC_REQUIRE(xxhash32(p, n - off, uint32_t(seed)) == spec32(b.data() + off, n - off, uint32_t(seed)),
                        "xxhash32 depends on the alignment of its input");
        }
    }
    if (off == 0) {
        const int values[] = {0x00, 0x01, 0x7f, 0x80, 0xff};
        for (size_t i = 0; i < n; ++i) {
            const uint8_t keep = b[i];
            for (const int v : values) {
                b[i] = uint8_t(v);
                both(b, n, SEEDS[(i + v) % (sizeof(SEEDS) / sizeof(*SEEDS))]);
            }
            b[i] = keep;
        }
    }
}

// all inputs of up to two bytes, with all seeds of the set; and the published test vectors
void hash_small() {
    const int n = nmc::choose(3, "length");
    Bytes b(static_cast<size_t>(n));
    const int total = n == 0 ? 1 : n == 1 ? 256 : 65536;
    for (int v = 0; v < total; ++v) {
        if (n > 0) {
            b[0] = uint8_t(v);
        }
        if (n > 1) {
            b[1] = uint8_t(v >> 8);
        }
        for (const uint64_t seed : SEEDS) {
            both(b, b.size(), seed);
            if (n > 1 && !nmc::thorough()) {
                break;
            }
        }
    }
    // the sanity buffer of the reference implementation (xxhsum)
    uint8_t buf[222];
    uint64_t gen = 2654435761U;
    for (auto& x : buf) {
        x = uint8_t(gen >> 56);
        gen *= 11400714785074694797ULL;
    }
    struct V {
        size_t n;
        uint64_t seed;
        uint32_t h32;
    };
    const V v32[] = {{0, 0, 0x02CC5D05U}, {0, 0x9E3779B1U, 0x36B78AE7U}, {1, 0, 0xCF65B03EU}, {14, 0, 0x1208E7E2U},
                     {222, 0, 0x5BD11DBDU}, {222, 0x9E3779B1U, 0x58803C5FU}};
    for (const V& v : v32) {
        NMC_REQUIRE(spec32(buf, v.n, uint32_t(v.seed)) == v.h32, "the reference itself is wrong (32, %zu)", v.n);
        NMC_REQUIRE(xxhash32(reinterpret_cast<const char*>(buf), v.n, uint32_t(v.seed)) == v.h32, "published vector");
    }
    NMC_REQUIRE(spec64(buf, 0, 0) == 0xEF46DB3751D8E999ULL, "the reference itself is wrong (64)");
    NMC_REQUIRE(spec64(buf, 1, 0) == 0xE934A84ADB052768ULL, "the reference itself is wrong (64)");
    NMC_REQUIRE(spec64(buf, 222, 0) == 0xB641AE8CB691C174ULL, "the reference itself is wrong (64)");
    // the convenience overloads
    const uint32_t word = 0x04030201;
    const uint8_t le[4] = {1, 2, 3, 4};
    NMC_REQUIRE(xxhash64(word, uint64_t(5)) == spec64(le, 4, 5), "the overload for values");
    NMC_REQUIRE(xxhash32(word, uint32_t(5)) == spec32(le, 4, 5), "the overload for values");
    const uint8_t abc[3] = {'a', 'b', 'c'};
    NMC_REQUIRE(xxhash64("abc") == spec64(abc, 3, 0), "the overload for literals");
    NMC_REQUIRE((xxhash32<7>("abc")) == spec32(abc, 3, 7), "the overload for literals");
}

// ---------------------------------------------------------------------------------------------------------------------
// Round trips
// ---------------------------------------------------------------------------------------------------------------------
struct Pod {
    uint8_t a;
    uint32_t b;
    int16_t c;
    double d;
    bool operator==(const Pod& o) const {
        return a == o.a && b == o.b && c == o.c && std::memcmp(&d, &o.d, sizeof(d)) == 0;
    }
};
#pragma pack(push, 1)
struct Packed {
    uint8_t a;
    uint64_t b;
    uint16_t c;
    bool operator==(const Packed& o) const {
        return a == o.a && b == o.b && c == o.c;
    }
};
#pragma pack(pop)
struct Empty {
    bool operator==(const Empty&) const {
        return true;
    }
};
enum class Colour : uint16_t { RED = 1, GREEN = 0x8000 };

template <class T>
void same_bytes(const T& v, const Bytes& b) {
    NMC_REQUIRE(b.size() == sizeof(T) && std::memcmp(b.data(), &v, sizeof(T)) == 0, "the bytes are not those of the value");
}

template <class T>
bool refuses(const Bytes& b) {
    // exactly as large as it says: reading beyond the end is reading beyond the block
    const Bytes copy(b);
    try {
        (void) Serialise<T>::deserialise(copy);
        return false;
    }
    catch (const std::length_error&) {
        return true;
    }
}

template <class T>
void trivial(const T& v) {
    const Bytes b = Serialise<T>::serialise(v);
    same_bytes(v, b);
    const T w = Serialise<T>::deserialise(b);
    NMC_REQUIRE(w == v, "a value of %zu bytes changed", sizeof(T));
}
template <class T>
void trivial_sizes() {
    for (size_t n = 0; n <= 4 * sizeof(T) + 3; ++n) {
        Bytes b(n, 1);
        const bool r = refuses<T>(b);
        NMC_REQUIRE(r == (n != sizeof(T)), "%zu bytes for a type of %zu bytes are %s", n, sizeof(T), r ? "refused" : "accepted");
    }
}
template <class T>
void integers() {
    trivial_sizes<T>();
    const int bits = int(sizeof(T) * 8);
    for (int i = 0; i < bits; ++i) {
        for (int j = 0; j < bits; ++j) {
            using U = std::make_unsigned_t<T>;
            trivial(T(U(1) << i | U(1) << j));
            trivial(T(~(U(1) << i | U(1) << j)));
        }
    }
    trivial(std::numeric_limits<T>::min());
    trivial(std::numeric_limits<T>::max());
    trivial(T(0));
}

template <class C>
void iterable(const C& v) {
    using V        = typename C::value_type;
    const Bytes b  = Serialise<C>::serialise(v);
    const size_t n = size_t(std::distance(v.begin(), v.end()));
    NMC_REQUIRE(b.size() == n * sizeof(V), "%zu elements of %zu bytes became %zu bytes", n, sizeof(V), b.size());
    size_t i = 0;
    for (const V& x : v) {
        NMC_REQUIRE(std::memcmp(b.data() + i * sizeof(V), &x, sizeof(V)) == 0, "the bytes of element %zu differ", i);
        ++i;
    }
    const Bytes copy(b);
    const C w = Serialise<C>::deserialise(copy);
    NMC_REQUIRE(w == v, "a sequence of %zu elements changed", n);
}
template <class C>
void iterable_sizes() {
    using V = typename C::value_type;
    for (size_t n = 0; n <= 4 * sizeof(V) + 1; ++n) {
        const bool r = refuses<C>(Bytes(n, 1));
        NMC_REQUIRE(r == (n % sizeof(V) != 0), "%zu bytes for elements of %zu are %s", n, sizeof(V), r ? "refused" : "accepted");
    }
}
// all sequences over an alphabet up to a length
template <class C>
void sequences(const std::vector<typename C::value_type>& alphabet, int max_len) {
    iterable_sizes<C>();
    for (int n = 0; n <= max_len; ++n) {
        std::vector<size_t> idx(size_t(n), 0);
        while (true) {
            C c;
            for (const size_t i : idx) {
                c.push_back(alphabet[i]);
            }
            iterable(c);
            int k = 0;
            while (k < n && ++idx[k] == alphabet.size()) {
                idx[k++] = 0;
            }
            if (k == n) {
                break;
            }
        }
    }
}

// A message with its own way to the wire and its own name
struct Proto : google::protobuf::Message {
    std::string s;
    int ByteSize() const {
        return int(s.size());
    }
    bool SerializeToArray(void* p, int n) const {
        NMC_REQUIRE(n == int(s.size()), "asked to write %d of %zu bytes", n, s.size());
        std::memcpy(p, s.data(), s.size());
        return true;
    }
    bool ParseFromArray(const void* p, int n) {
        s.assign(static_cast<const char*>(p), size_t(n));
        return true;
    }
    std::string GetTypeName() const {
        return "the.name";
    }
};

void values() {
    switch (nmc::choose(18, "type")) {
        case 0: integers<uint8_t>(); break;
        case 1: integers<int8_t>(); break;
        case 2: integers<uint16_t>(); break;
        case 3: integers<int16_t>(); break;
        case 4: integers<uint32_t>(); break;
        case 5: integers<int32_t>(); break;
        case 6: integers<uint64_t>(); break;
        case 7: integers<int64_t>(); break;
        case 8:
            trivial_sizes<double>();
            trivial_sizes<float>();
            for (const double d : {0.0, -0.0, 1.5, -1e308, 5e-324, std::numeric_limits<double>::infinity()}) {
                trivial(d);
                trivial(float(d));
            }
            break;
        case 9:
            trivial_sizes<Pod>();
            for (int i = 0; i < 256; ++i) {
                Pod p;
                std::memset(&p, i, sizeof(p));
                trivial(p);
            }
            break;
        case 10:
            trivial_sizes<Packed>();
            for (int i = 0; i < 256; ++i) {
                Packed p{};
                p.a = uint8_t(i);
                p.b = uint64_t(i) << 56 | uint64_t(i);
                p.c = uint16_t(i << 8);
                trivial(p);
            }
            break;
        case 11:
            trivial_sizes<bool>();
            trivial_sizes<Colour>();
            trivial_sizes<Empty>();
            trivial(true);
            trivial(false);
            trivial(Colour::RED);
            trivial(Colour::GREEN);
            break;
        case 12: sequences<std::vector<uint8_t>>({0, 1, 0x80, 0xff}, 5); break;
        case 13: sequences<std::string>({'\0', 'a', '\xff'}, 6); break;
        case 14: {
            Pod p{};
            Pod q{};
            std::memset(&p, 0x5a, sizeof(p));
            std::memset(&q, 0x00, sizeof(q));
            sequences<std::vector<Pod>>({p, q}, 4);
            sequences<std::list<Pod>>({p, q}, 4);
        } break;
        case 15:
            sequences<std::list<uint16_t>>({0, 1, 0x8000, 0xffff}, 4);
            sequences<std::deque<int32_t>>({0, -1, 1, std::numeric_limits<int32_t>::min()}, 4);
            break;
        case 16: sequences<std::vector<double>>({0.0, -1.5, 1e300}, 4); break;
        case 17:
            for (size_t n = 0; n < 40; ++n) {
                Proto p;
                p.s           = std::string(n, char('a' + n));
                const Bytes b = Serialise<Proto>::serialise(p);
                NMC_REQUIRE(b.size() == n, "%zu bytes became %zu", n, b.size());
                NMC_REQUIRE(Serialise<Proto>::deserialise(b).s == p.s, "the message changed");
            }
            break;
    }
}

// long sequences: every length up to a limit, elements of different sizes
template <class C>
void lengths(int max_len) {
    using V = typename C::value_type;
    C c;
    for (int n = 0; n <= max_len; ++n) {
        iterable(c);
        V v;
        std::memset(&v, n * 7 + 1, sizeof(v));
        c.push_back(v);
    }
}
void long_sequences() {
    const int n = nmc::thorough() ? 300 : 150;
    switch (nmc::choose(4, "type")) {
        case 0: lengths<std::vector<char>>(n); break;
        case 1: lengths<std::vector<uint32_t>>(n); break;
        case 2: lengths<std::list<Packed>>(n); break;
        case 3: lengths<std::string>(n); break;
    }
}

// ---------------------------------------------------------------------------------------------------------------------
// Identity
// ---------------------------------------------------------------------------------------------------------------------
template <class T>
struct Box {
    T t;
};
template <class T>
uint64_t id_of(const char* name) {
    const uint64_t h   = Serialise<T>::hash();
    const std::string n = demangle(typeid(T).name());
    NMC_REQUIRE(n == name, "the name of %s is %s", name, n.c_str());
    const uint64_t want = spec64(reinterpret_cast<const uint8_t*>(name), std::strlen(name), 0x4e55436c);
    NMC_REQUIRE(h == want, "the identity of %s is %016llx, expected %016llx", name, (unsigned long long) h,
                (unsigned long long) want);
    NMC_REQUIRE(Serialise<T>::hash() == h, "the identity of %s changed", name);
    return h;
}
std::vector<uint64_t> ids() {
    return {id_of<char>("char"),
            id_of<int>("int"),
            id_of<unsigned int>("unsignedint"),
            id_of<double>("double"),
            id_of<long>("long"),
            id_of<std::vector<int>>("std::vector<int,std::allocator<int>>"),
            id_of<std::vector<char>>("std::vector<char,std::allocator<char>>"),
            id_of<std::list<int>>("std::__cxx11::list<int,std::allocator<int>>"),
            id_of<Pod>("(anonymousnamespace)::Pod"),
            id_of<Box<int>>("(anonymousnamespace)::Box<int>"),
            id_of<Box<Box<int>>>("(anonymousnamespace)::Box<(anonymousnamespace)::Box<int>>"),
            id_of<h::M<1>>("h::M<1>"),
            id_of<h::M<10>>("h::M<10>"),
            id_of<h::M<-1>>("h::M<-1>"),
            [] {
                const uint64_t p = Serialise<Proto>::hash();
                NMC_REQUIRE(p == spec64(reinterpret_cast<const uint8_t*>("the.name"), 8, 0x4e55436c),
                            "the identity of a protocol buffer does not come from its name");
                return p;
            }()};
}
void identity() {
    std::vector<uint64_t> a = ids();
    std::vector<uint64_t> b;
    std::thread t([&] { b = ids(); });
    const std::vector<uint64_t> c = ids();
    t.join();
    NMC_REQUIRE(a == b && a == c, "two threads disagree about an identity");
    NMC_REQUIRE(std::set<uint64_t>(a.begin(), a.end()).size() == a.size(), "two types have the same identity");
}

}  // namespace

NMC_SCENARIO("hash_values", "xxhash against its definition: every length and position", nullptr, &hash_values,
             nmc::preempt(0).with(&nmc::Options::races, false).secs(60),
             nmc::preempt(0).with(&nmc::Options::races, false).secs(600));
NMC_SCENARIO("hash_small", "every input of up to two bytes, published vectors", nullptr, &hash_small,
             nmc::preempt(0).with(&nmc::Options::races, false).secs(60),
             nmc::preempt(0).with(&nmc::Options::races, false).secs(600));
NMC_SCENARIO("values", "round trips and refused sizes for every kind of type", nullptr, &values,
             nmc::preempt(0).with(&nmc::Options::races, false).secs(60),
             nmc::preempt(0).with(&nmc::Options::races, false).secs(600));
NMC_SCENARIO("long_sequences", "round trips of every length", nullptr, &long_sequences,
             nmc::preempt(0).with(&nmc::Options::races, false).secs(60),
             nmc::preempt(0).with(&nmc::Options::races, false).secs(600));
NMC_SCENARIO("identity", "identities, asked for by two threads", nullptr, &identity, nmc::preempt(1), nmc::preempt(3));
