// P24: a trace file is well-formed and tells what happened.
// The files of the virtual kernel are decoded by a decoder which knows nothing but the protocol buffer encoding and the
// field numbers of the perfetto schema, and compared with what a reaction saw which was there all the time.
#include <algorithm>
#include <array>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "common.hpp"
#include "extension/TraceController.hpp"
#include "extension/trace/protobuf.hpp"

namespace {

using NUClear::LogLevel;
using NUClear::extension::TraceController;
using NUClear::message::BeginTrace;
using NUClear::message::EndTrace;
using NUClear::message::LogMessage;
using NUClear::message::ReactionEvent;
namespace pb = NUClear::extension::trace::protobuf;

// ---------------------------------------------------------------------------------------------------------------------
// Decoding
// ---------------------------------------------------------------------------------------------------------------------
struct Field {
    uint32_t id;
    int wire;
    uint64_t v;          // wire 0, 1 and 5
    const uint8_t* p;    // wire 2
    size_t n;
    std::string str() const {
        return std::string(reinterpret_cast<const char*>(p), n);
    }
};
uint64_t varint(const uint8_t*& p, const uint8_t* e) {
    uint64_t v = 0;
    for (int shift = 0;; shift += 7) {
        NMC_REQUIRE(p < e, "the file ends inside of a number");
        NMC_REQUIRE(shift < 70, "a number of more than ten bytes");
        const uint8_t b = *p++;
        v |= shift < 64 ? uint64_t(b & 0x7f) << shift : 0;
        if ((b & 0x80) == 0) {
            return v;
        }
    }
}
std::vector<Field> fields(const uint8_t* p, size_t n) {
    std::vector<Field> out;
    const uint8_t* e = p + n;
    while (p < e) {
        const uint64_t tag = varint(p, e);
        Field f{uint32_t(tag >> 3), int(tag & 7), 0, nullptr, 0};
        NMC_REQUIRE(f.id != 0, "field number 0");
        switch (f.wire) {
            case 0: f.v = varint(p, e); break;
            case 1:
            case 5: {
                const size_t w = f.wire == 1 ? 8 : 4;
                NMC_REQUIRE(size_t(e - p) >= w, "the message ends inside of a fixed size number");
                for (size_t i = 0; i < w; ++i) {
                    f.v |= uint64_t(p[i]) << (8 * i);
                }
                p += w;
            } break;
            case 2:
                f.n = size_t(varint(p, e));
                NMC_REQUIRE(f.n <= size_t(e - p), "field %u claims %zu bytes of %zu", f.id, f.n, size_t(e - p));
                f.p = p;
                p += f.n;
                break;
            default: nmc::fail("wire type %d in field %u", f.wire, f.id);
        }
        out.push_back(f);
    }
    return out;
}
void wire(const Field& f, int w, const char* what) {
    NMC_REQUIRE(f.wire == w, "%s has wire type %d, a decoder expects %d", what, f.wire, w);
}

enum { SLICE_BEGIN = 1, SLICE_END = 2, INSTANT = 3 };
struct TrackEvent {
    int type = 0;
    uint64_t ts = 0, track = 0, time = 0, flow = 0;
    bool has_time = false, log = false;
    std::string name, body;
    std::vector<std::string> cats;
    int prio = -1;
};
struct Trace {
    std::map<uint64_t, std::string> threads;  // track -> name
    std::map<uint64_t, std::vector<TrackEvent>> events;
};

Trace decode(const nmc::FileView& file) {
    Trace t;
    std::map<uint64_t, std::string> cats, names, bodies;
    std::map<uint64_t, uint64_t> counters;  // track -> parent
    std::set<uint64_t> processes;
    bool first = true;
    for (const Field& packet : fields(file.data, file.len)) {
        NMC_REQUIRE(packet.id == 1, "field %u where a packet should be", packet.id);
        wire(packet, 2, "a packet");
        uint64_t flags = 0, ts = 0;
        bool has_ts = false, has_seq = false;
        const Field* event = nullptr;
        const auto fs      = fields(packet.p, packet.n);
        for (const Field& f : fs) {
            switch (f.id) {
                case 8: wire(f, 0, "timestamp"); ts = f.v; has_ts = true; break;
                case 10:
                    wire(f, 0, "trusted_packet_sequence_id");
                    NMC_REQUIRE(f.v == 1, "packet sequence %llu", (unsigned long long) f.v);
                    has_seq = true;
                    break;
                case 13: wire(f, 0, "sequence_flags"); flags = f.v; break;
                case 42:
                case 87: wire(f, 0, "first_packet_on_sequence"); break;
                case 11:
                    wire(f, 2, "track_event");
                    NMC_REQUIRE(event == nullptr, "two events in one packet");
                    event = &f;
                    break;
                case 12:
                    wire(f, 2, "interned_data");
                    for (const Field& d : fields(f.p, f.n)) {
                        wire(d, 2, "an interned string");
                        auto* m = d.id == 1 ? &cats : d.id == 2 ? &names : d.id == 20 ? &bodies : nullptr;
                        NMC_REQUIRE(m != nullptr, "interned data of kind %u", d.id);
                        uint64_t iid = 0;
                        std::string s;
                        for (const Field& g : fields(d.p, d.n)) {
                            if (g.id == 1) {
                                wire(g, 0, "iid");
                                iid = g.v;
                            }
                            else if (g.id == 2) {
                                wire(g, 2, "name");
                                s = g.str();
                            }
                        }
                        NMC_REQUIRE(iid != 0, "interned data without an id");
                        NMC_REQUIRE(m->count(iid) == 0, "interned id %llu of kind %u is defined twice", (unsigned long long) iid, d.id);
                        (*m)[iid] = s;
                    }
                    break;
                case 60: {
                    wire(f, 2, "track_descriptor");
                    uint64_t uuid = 0, parent = 0;
                    int kind = 0;
                    std::string name;
                    for (const Field& d : fields(f.p, f.n)) {
                        switch (d.id) {
                            case 1: wire(d, 0, "uuid"); uuid = d.v; break;
                            case 5: wire(d, 0, "parent_uuid"); parent = d.v; break;
                            case 3: wire(d, 2, "process"); kind = 3; break;
                            case 8: wire(d, 2, "counter"); kind = 8; break;
                            case 4:
                                wire(d, 2, "thread");
                                kind = 4;
                                for (const Field& g : fields(d.p, d.n)) {
                                    name = g.id == 5 ? g.str() : name;
                                }
                                break;
                            default: nmc::fail("field %u in a track descriptor", d.id);
                        }
                    }
                    NMC_REQUIRE(uuid != 0 && processes.count(uuid) == 0 && t.threads.count(uuid) == 0 && counters.count(uuid) == 0,
                                "track %llu is defined twice", (unsigned long long) uuid);
                    switch (kind) {
                        case 3: processes.insert(uuid); break;
                        case 4:
                            NMC_REQUIRE(processes.count(parent) == 1, "a thread of an unknown process");
                            t.threads[uuid] = name;
                            break;
                        case 8:
                            NMC_REQUIRE(t.threads.count(parent) == 1, "a counter of an unknown thread");
                            counters[uuid] = parent;
                            break;
                        default: nmc::fail("a track which is nothing");
                    }
                } break;
                default: nmc::fail("field %u in a packet", f.id);
            }
        }
        if (first) {
            NMC_REQUIRE((flags & 1) != 0, "the first packet does not reset the incremental state");
            first = false;
        }
        if (event != nullptr) {
            NMC_REQUIRE(has_ts && has_seq, "an event without time or sequence");
            NMC_REQUIRE((flags & 2) != 0, "an event with interned names which does not need incremental state");
            TrackEvent e;
            e.ts             = ts;
            uint64_t counter = 0;
            for (const Field& f : fields(event->p, event->n)) {
                switch (f.id) {
                    case 9: wire(f, 0, "type"); e.type = int(f.v); break;
                    case 11: wire(f, 0, "track_uuid"); e.track = f.v; break;
                    case 10:
                        wire(f, 0, "name_iid");
                        NMC_REQUIRE(names.count(f.v) == 1, "name %llu is used but not defined", (unsigned long long) f.v);
                        e.name = names[f.v];
                        break;
                    case 3:
                        wire(f, 0, "category_iids");
                        NMC_REQUIRE(cats.count(f.v) == 1, "category %llu is used but not defined", (unsigned long long) f.v);
                        e.cats.push_back(cats[f.v]);
                        break;
                    case 31: wire(f, 0, "extra_counter_track_uuids"); counter = f.v; break;
                    case 12: wire(f, 0, "extra_counter_values"); e.time = f.v; e.has_time = true; break;
                    case 47: wire(f, 1, "flow_ids"); e.flow = f.v; break;
                    case 21:
                        wire(f, 2, "log_message");
                        e.log = true;
                        for (const Field& g : fields(f.p, f.n)) {
                            wire(g, 0, "a part of a log message");
                            if (g.id == 2) {
                                NMC_REQUIRE(bodies.count(g.v) == 1, "log text %llu is used but not defined", (unsigned long long) g.v);
                                e.body = bodies[g.v];
                            }
                            else if (g.id == 3) {
                                e.prio = int(g.v);
                            }
                        }
                        break;
                    default: nmc::fail("field %u in an event", f.id);
                }
            }
            NMC_REQUIRE(t.threads.count(e.track) == 1, "an event on track %llu which is not defined", (unsigned long long) e.track);
            NMC_REQUIRE(e.has_time && counters.count(counter) == 1 && counters[counter] == e.track,
                        "an event without the counter of its thread");
            auto& v = t.events[e.track];
            NMC_REQUIRE(v.empty() || v.back().ts <= e.ts, "time goes backwards on a track");
            NMC_REQUIRE(v.empty() || v.back().time <= e.time, "thread time goes backwards on a track");
            v.push_back(e);
        }
    }
    NMC_REQUIRE(!first, "the file is empty");
    return t;
}

// ---------------------------------------------------------------------------------------------------------------------
// What really happened, per thread
// ---------------------------------------------------------------------------------------------------------------------
enum { LOG = 100 };
struct Rec {
    int type;
    uint64_t task;
    int64_t ts, time;
    std::string name, reactor, text, dsl;
    int level;
    int64_t seq;
};
bool about(const Rec& r, const char* word) {
    return r.dsl.find(word) != std::string::npos;
}
std::array<std::vector<Rec>, 16>& recs() {
    static std::array<std::vector<Rec>, 16> r;
    return r;
}
constexpr int SEQ = 50;

template <class T>
int64_t ns(const T& t) {
    return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count();
}

struct Recorder : h::Kicked {
    REACTOR(Recorder) {
        // all kinds of logs
        on<Trigger<ReactionEvent>, Inline::ALWAYS>().then([](const ReactionEvent& e) {
            const auto& s = *e.statistics;
            const auto& r = e.type == ReactionEvent::STARTED ? s.started : e.type == ReactionEvent::FINISHED ? s.finished : s.created;
            Rec x{int(e.type), s.target.task_id, ns(r.real_time), ns(r.thread_time), "", "", "", "", 0, nmc::cell_add(SEQ, 1)};
            if (s.identifiers != nullptr) {
                x.name    = s.identifiers->name;
                x.reactor = s.identifiers->reactor;
                x.dsl     = s.identifiers->dsl;
            }
            recs()[nmc::thread_id()].push_back(x);
        });
        on<Trigger<LogMessage>, Inline::ALWAYS>().then("log recorder", [](const LogMessage& m) {
            const auto* t = m.statistics.get();
            Rec x{LOG, 0, 0, 0, "", "PowerPlant", m.message, "", int(m.level()), nmc::cell_add(SEQ, 1)};
            if (t != nullptr && t->identifiers != nullptr) {
                x.name    = t->identifiers->name;
                x.reactor = t->identifiers->reactor;
            }
            recs()[nmc::thread_id()].push_back(x);
        });
    }
};

bool same(const TrackEvent& e, const Rec& r) {
    if (e.log || r.type == LOG) {
        return false;
    }
    const int type = r.type == ReactionEvent::STARTED ? SLICE_BEGIN : r.type == ReactionEvent::FINISHED ? SLICE_END : INSTANT;
    const bool flow = r.type == ReactionEvent::STARTED || r.type == ReactionEvent::CREATED;
    return e.type == type && int64_t(e.ts) == r.ts && int64_t(e.time) == r.time && e.flow == (flow ? r.task : 0)
           && (r.name.empty() || e.name == r.name) && e.cats.size() == 2 && e.cats[0] == (r.reactor.empty() ? "PowerPlant" : r.reactor)
           && e.cats[1] == "reaction";
}
bool same_log(const TrackEvent& e, const Rec& r) {
    static const int prio[] = {0, 2, 3, 4, 5, 6, 7};
    return e.log && r.type == LOG && e.type == INSTANT && e.body == r.text && e.prio == prio[r.level]
           && (r.name.empty() || e.name == r.name) && e.cats.size() == 2 && e.cats[0] == r.reactor && e.cats[1] == "log";
}

void slices(const Trace& t, bool complete) {
    for (const auto& track : t.events) {
        std::vector<std::string> open;
        for (const auto& e : track.second) {
            if (e.type == SLICE_BEGIN) {
                open.push_back(e.name);
            }
            else if (e.type == SLICE_END) {
                // a slice may have begun before the trace
                NMC_REQUIRE(!complete || !open.empty(), "a slice ends which did not begin");
                if (!open.empty()) {
                    NMC_REQUIRE(open.back() == e.name, "slice '%s' ends inside of '%s'", e.name.c_str(), open.back().c_str());
                    open.pop_back();
                }
            }
        }
        NMC_REQUIRE(!complete || open.size() <= 1, "%zu slices do not end", open.size());
        NMC_REQUIRE(!complete || open.empty() || t.threads.at(track.first) == "Trace", "slice '%s' does not end", open.back().c_str());
    }
}

// Everything from record `from[thread]` up to `to[thread]`, exactly; behind that only what belongs to the end of the trace
using Marks = std::array<size_t, 16>;
Marks mark() {
    Marks m{};
    for (size_t i = 0; i < m.size(); ++i) {
        m[i] = recs()[i].size();
    }
    return m;
}
void exact(const char* name, const Marks& from, const Marks& to, bool logs) {
    const auto f = nmc::file(name);
    NMC_REQUIRE(f.data != nullptr, "there is no file");
    NMC_REQUIRE(!f.open, "the file is not closed");
    const Trace t = decode(f);
    slices(t, true);
    std::set<uint64_t> used;
    for (size_t th = 0; th < from.size(); ++th) {
        std::vector<Rec> want, want_logs;
        for (size_t i = from[th]; i < to[th]; ++i) {
            const Rec& r = recs()[th][i];
            (r.type == LOG ? want_logs : want).push_back(r);
        }
        if (want.empty() && want_logs.empty()) {
            continue;
        }
        // the track is the one with the first event
        uint64_t track = 0;
        for (const auto& c : t.events) {
            for (const auto& e : c.second) {
                if (!want.empty() && !e.log && same(e, want[0])) {
                    track = c.first;
                }
            }
        }
        NMC_REQUIRE(track != 0, "the first event of thread %zu (type %d of '%s') is missing", th, want.empty() ? LOG : want[0].type,
                    want.empty() ? "" : want[0].name.c_str());
        NMC_REQUIRE(used.insert(track).second, "two threads share a track");
        size_t i = 0, l = 0;
        for (const auto& e : t.events.at(track)) {
            if (e.log) {
                NMC_REQUIRE(logs, "a log message in a trace without logs");
                NMC_REQUIRE(l < want_logs.size() && same_log(e, want_logs[l]), "log message '%s' (%d) was not expected here",
                            e.body.c_str(), e.prio);
                ++l;
            }
            else if (i < want.size()) {
                NMC_REQUIRE(same(e, want[i]), "thread %zu: event %zu is of type %d on '%s', expected event %d of '%s'", th, i,
                            e.type, e.name.c_str(), want[i].type, want[i].name.c_str());
                ++i;
            }
            else {
                // the tail: what happened to the end of the trace itself
                bool tail = false;
                for (size_t k = to[th]; k < recs()[th].size(); ++k) {
                    tail |= same(e, recs()[th][k])
                            && (about(recs()[th][k], "EndTrace") || about(recs()[th][k], "BeginTrace"));
                }
                NMC_REQUIRE(tail, "an event of type %d on '%s' too many", e.type, e.name.c_str());
            }
        }
        NMC_REQUIRE(i == want.size(), "thread %zu: only %zu of %zu events are in the trace", th, i, want.size());
        NMC_REQUIRE(!logs || l == want_logs.size(), "thread %zu: only %zu of %zu log messages are in the trace", th, l, want_logs.size());
    }
    NMC_REQUIRE(used.size() == t.events.size(), "%zu tracks for %zu threads", t.events.size(), used.size());
}

// ---------------------------------------------------------------------------------------------------------------------
// Scenarios
// ---------------------------------------------------------------------------------------------------------------------
struct Work : h::Kicked {
    REACTOR(Work) {
        log_level = min_log_level = LogLevel::UNKNOWN;
        on<Trigger<h::M<0>>>().then("outer", [this](const h::M<0>& m) {
            emit<Scope::INLINE>(h::mk<h::M<1>>(m.v));
            log<LogLevel::WARN>("from outer", m.v);
            emit(h::mk<h::M<2>>(m.v));
        });
        on<Trigger<h::M<1>>>().then("inner", [](const h::M<1>&) {
            NUClear::log<LogLevel::DEBUG>("from inner");
            throw 1;
        });
        on<Trigger<h::M<2>>, Single>().then("single", [this] { log<LogLevel::INFO>("from single"); });
        on<Trigger<h::M<2>>, With<h::M<9>>>().then("missing", [] {});
    }
};

void quiet() {
    nmc::quiesce();
}
void go(int v) {
    h::pp()->emit(h::mk<h::M<0>>(v));
}

// Phases which are separated by quiet moments; what is in the file is known exactly
template <int Phases, bool Logs>
struct Exact {
    static void check() {
        for (int phase = 0; phase < Phases; ++phase) {
            const std::string name = "/nmc/" + std::to_string(phase) + ".trace";
            const auto from        = mark();
            h::pp()->emit(std::make_unique<BeginTrace>(name, Logs));
            quiet();
            go(phase);
            if (phase == 0) {
                go(7);
            }
            quiet();
            const auto to = mark();
            h::pp()->emit(std::make_unique<EndTrace>());
            quiet();
            exact(name.c_str(), from, to, Logs);
            // nothing is written any more
            const size_t len = nmc::file(name.c_str()).len;
            go(9);
            quiet();
            NMC_REQUIRE(nmc::file(name.c_str()).len == len, "something was written after the end of the trace");
        }
    }
};
// the same file again, and a trace which is started while another is running
struct Restart {
    static void check() {
        const auto a = mark();
        h::pp()->emit(std::make_unique<BeginTrace>("/nmc/a", true));
        quiet();
        go(1);
        quiet();
        const auto b = mark();
        const bool same_file = nmc::choose(2, "the same file") == 1;
        h::pp()->emit(std::make_unique<BeginTrace>(same_file ? "/nmc/a" : "/nmc/b", true));
        quiet();
        go(2);
        quiet();
        const auto c = mark();
        h::pp()->emit(std::make_unique<EndTrace>());
        quiet();
        if (!same_file) {
            exact("/nmc/a", a, b, true);
        }
        exact(same_file ? "/nmc/a" : "/nmc/b", b, c, true);
    }
};
// An end without a trace is harmless
struct Ends {
    static void check() {
        h::pp()->emit(std::make_unique<EndTrace>());
        quiet();
        const auto a = mark();
        h::pp()->emit(std::make_unique<BeginTrace>("/nmc/a", true));
        quiet();
        const auto b = mark();
        h::pp()->emit(std::make_unique<EndTrace>());
        h::pp()->emit(std::make_unique<EndTrace>());
        quiet();
        exact("/nmc/a", a, b, true);
    }
};

// Texts of every interesting size
struct Sizes {
    static void check() {
        const int sizes[] = {0, 1, 127, 128, 16000, 16383, 16384, 20000, 70000};
        const int n       = sizes[nmc::choose(9, "size")];
        const auto a      = mark();
        h::pp()->emit(std::make_unique<BeginTrace>("/nmc/a", true));
        quiet();
        go(1);
        quiet();
        NUClear::log<LogLevel::INFO>(std::string(size_t(n), 'x'));
        go(2);
        quiet();
        const auto b = mark();
        h::pp()->emit(std::make_unique<EndTrace>());
        quiet();
        const Trace t = decode(nmc::file("/nmc/a"));
        int found     = 0;
        for (const auto& c : t.events) {
            for (const auto& e : c.second) {
                found += e.log && e.body == std::string(size_t(n), 'x') ? 1 : 0;
            }
        }
        NMC_REQUIRE(found == 1, "the long log message is %d times in the trace", found);
        slices(t, true);
        (void) a;
        (void) b;
    }
};

// Begin and end arrive while work is going on: every thread's events are in the file without a gap
struct Racing : Recorder {
    explicit Racing(std::unique_ptr<NUClear::Environment> e) : Recorder(std::move(e)) {
        kick_main([this] {
            emit(std::make_unique<BeginTrace>("/nmc/r", true));
            emit(h::mk<h::M<3>>(0));
        });
        on<Trigger<h::M<3>>, MainThread>().then("ender", [this] { emit(std::make_unique<EndTrace>()); });
        kick([this] { emit(h::mk<h::M<0>>(1)); });
    }
    static void check() {
        const auto f = nmc::file("/nmc/r");
        NMC_REQUIRE(f.data != nullptr && !f.open, "there is no file, or it is open");
        const Trace t = decode(f);
        slices(t, false);
        // when the trace was certainly running
        int64_t begin = -1, end = -1;
        for (const auto& v : recs()) {
            for (const Rec& r : v) {
                if (about(r, "BeginTrace") && r.type == ReactionEvent::FINISHED) {
                    begin = r.seq;
                }
                if (about(r, "EndTrace") && r.type == ReactionEvent::CREATED) {
                    end = r.seq;
                }
            }
        }
        for (const auto& v : recs()) {
            std::vector<Rec> events;
            for (const Rec& r : v) {
                if (r.type != LOG) {
                    events.push_back(r);
                }
            }
            bool begun = false, gap = false;
            for (size_t i = 0; i < events.size(); ++i) {
                int n = 0;
                for (const auto& c : t.events) {
                    for (const auto& e : c.second) {
                        n += same(e, events[i]) ? 1 : 0;
                    }
                }
                // tasks which end at the same virtual instant cannot be told apart
                const bool ambiguous = events[i].type == ReactionEvent::FINISHED;
                NMC_REQUIRE(n <= 1 || ambiguous, "an event is %d times in the trace", n);
                if (n > 0) {
                    // the start of the trace is written in any case, then from some point on all up to another point
                    const bool prologue = about(events[i], "BeginTrace") && events[i].type != ReactionEvent::FINISHED;
                    if (!ambiguous && !prologue) {
                        NMC_REQUIRE(!gap, "event %zu of a thread is in the trace and one before that is missing", i);
                        begun = true;
                    }
                }
                else if (begun && !ambiguous) {
                    gap = true;
                }
                const bool inside = i > 0 && events[i - 1].seq > begin && i + 1 < events.size() && events[i + 1].seq < end;
                NMC_REQUIRE(!inside || n > 0, "an event of type %d of '%s' is missing", events[i].type, events[i].name.c_str());
            }
        }
    }
};

// ---- the encoding itself
void encoding() {
    const uint64_t edges[] = {0, 1, 127, 128, 16383, 16384, 2097151, 2097152, 0x7fffffffULL, 0x80000000ULL, 0xffffffffULL,
                              0x100000000ULL, (1ULL << 56) - 1, 1ULL << 56, (1ULL << 63) - 1, 1ULL << 63, ~0ULL};
    const uint32_t ids[]   = {1, 15, 16, 47, 2047, 2048, 536870911};
    const uint32_t id      = ids[nmc::choose(7, "id")];
    auto one               = [&](const std::vector<char>& d) {
        const auto f = fields(reinterpret_cast<const uint8_t*>(d.data()), d.size());
        NMC_REQUIRE(f.size() == 1 && f[0].id == id, "one field became %zu", f.size());
        return f[0];
    };
    switch (nmc::choose(7, "kind")) {
        case 0:
            for (const uint64_t v : edges) {
                std::vector<char> d;
                pb::uint64(id, v, d);
                const Field f = one(d);
                NMC_REQUIRE(f.wire == 0 && f.v == v, "uint64");
            }
            break;
        case 1:
            for (const uint64_t v : edges) {
                std::vector<char> d;
                pb::int64(id, int64_t(v), d);
                const Field f = one(d);
                NMC_REQUIRE(f.wire == 0 && f.v == v, "int64");
            }
            break;
        case 2:
            for (const uint64_t v : edges) {
                std::vector<char> d;
                pb::fixed64(id, v, d);
                const Field f = one(d);
                NMC_REQUIRE(f.wire == 1 && f.v == v, "fixed64");
            }
            break;
        case 3:
            for (const uint64_t v : edges) {
                std::vector<char> d;
                pb::uint32(id, uint32_t(v), d);
                const Field f = one(d);
                NMC_REQUIRE(f.wire == 0 && f.v == uint32_t(v), "uint32");
            }
            break;
        case 4:
            for (const uint64_t v : edges) {
                std::vector<char> d;
                pb::int32(id, int32_t(v), d);
                const Field f = one(d);
                // negative numbers are sign extended, or truncated to their 32 bits, which decoders accept as well
                NMC_REQUIRE(f.wire == 0 && int32_t(f.v) == int32_t(v), "int32");
            }
            break;
        case 5:
            for (int n = 0; n < 300; ++n) {
                std::vector<char> d;
                pb::string(id, std::string(size_t(n), '\xff'), d);
                const Field f = one(d);
                NMC_REQUIRE(f.wire == 2 && f.str() == std::string(size_t(n), '\xff'), "string");
            }
            break;
        case 6: {
            const int sizes[] = {0, 1, 126, 127, 128, 16380, 16381, 16382, 16383, 16384, 40000, 2097151, 2097160};
            for (const int n : sizes) {
                std::vector<char> d;
                const std::string s(size_t(n), 'q');
                {
                    const pb::SubMessage outer(id, d);
                    pb::uint32(5, 77, d);
                    {
                        const pb::SubMessage inner(3, d);
                        pb::string(9, s, d);
                    }
                    pb::uint32(6, 78, d);
                }
                const Field f = one(d);
                NMC_REQUIRE(f.wire == 2, "message");
                const auto g = fields(f.p, f.n);
                NMC_REQUIRE(g.size() == 3 && g[0].v == 77 && g[2].v == 78 && g[1].id == 3 && g[1].wire == 2, "a message with %d bytes inside", n);
                const auto i = fields(g[1].p, g[1].n);
                NMC_REQUIRE(i.size() == 1 && i[0].id == 9 && i[0].str() == s, "a message with %d bytes inside", n);
            }
        } break;
    }
}

template <class T>
void run() {
    h::run_until_quiet<T>();
}

}  // namespace

#define TRACE_SCENARIO(NAME, T, CONC, WHAT, QUICK, THOROUGH) \
    NMC_SCENARIO(NAME, WHAT, (&h::setup<CONC, Recorder, TraceController, Work>), &run<T>, QUICK, THOROUGH)

NMC_SCENARIO("encoding", "every kind of field, edge values and sizes", nullptr, &encoding,
             nmc::preempt(0).with(&nmc::Options::races, false), nmc::preempt(0).with(&nmc::Options::races, false));
using Exact1 = Exact<1, true>;
using Exact2 = Exact<2, true>;
using NoLogs = Exact<1, false>;
TRACE_SCENARIO("exact", Exact1, 2, "one trace with everything that can happen to a task", nmc::delays(1).secs(60), nmc::delays(2).secs(600));
TRACE_SCENARIO("twice", Exact2, 1, "two traces one after the other", nmc::delays(1).secs(60), nmc::delays(2).secs(600));
TRACE_SCENARIO("without_logs", NoLogs, 1, "a trace without log messages", nmc::delays(0).secs(60), nmc::delays(1).secs(600));
TRACE_SCENARIO("restart", Restart, 1, "a trace is started while another runs", nmc::delays(0).secs(60), nmc::delays(1).secs(600));
TRACE_SCENARIO("ends", Ends, 1, "ends without a trace", nmc::delays(1).secs(60), nmc::delays(2).secs(600));
TRACE_SCENARIO("sizes", Sizes, 1, "log messages of all sizes", nmc::delays(0).secs(60), nmc::delays(0).secs(600));
NMC_SCENARIO("racing", "a trace begins and ends while tasks run", (&h::setup<1, TraceController, Work, Racing>), &run<Racing>,
             nmc::delays(1).secs(60), nmc::delays(2).secs(600));
