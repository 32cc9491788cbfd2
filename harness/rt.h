// Interface between a generated machine (compiled against the hsm headers) and the harness
// (compiled against rapidcheck and the reference model). Contains nothing of hsm.
#pragma once
#include <array>
#include <cstdint>
#include <cstddef>
#include <memory>
#include <string>
#include <vector>

namespace vh {

enum Kind : std::uint8_t { GUARD, ACTION, ENTRY, EXIT, UNEXP, FACTORY, REUSE, LOGGED };
constexpr int kLog = -7;       // action id of hsm::log
constexpr int kNone = -1;      // id of "no object"
constexpr int kAnon = -1;      // id of the completion event

// One call of user code, as seen by user code.
struct Rec {
    Kind kind {};
    int id {};                 // id of the guard / action / state (for ENTRY, EXIT)
    int ev {};                 // event id, kAnon for the completion event
    std::uint32_t payload {};
    int src { kNone }, tgt { kNone };   // ids of the state objects handed over
    bool holder {};            // target handed over as holder of a custom target
    bool hasObj { true };      // holder holds an object
    std::uint32_t sval {}, tval {};
    int nDeps {};
    std::array<int, 3> depId {};        // identity of the dependency objects
    std::array<std::uint32_t, 3> depVal {};
};

inline std::uint32_t mix(std::uint32_t a, std::uint32_t b)
{
    std::uint64_t x = (std::uint64_t(a) << 32 | b) * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull;
    x ^= x >> 29;
    x *= 0xBF58476D1CE4E5B9ull;
    return std::uint32_t(x >> 32);
}

inline std::uint32_t recHash(const Rec& r)
{
    std::uint32_t h = mix(r.kind, std::uint32_t(r.id));
    h = mix(h, std::uint32_t(r.ev));
    h = mix(h, r.payload);
    h = mix(h, r.sval);
    h = mix(h, r.tval);
    for (int i = 0; i < r.nDeps; i++) {
        h = mix(h, r.depVal[i]);
    }
    return h;
}

// What a callback leaves behind in the objects it was handed; the model applies the same.
struct Mutation {
    bool s, t, p, d;
    std::uint32_t sval, tval, payload;
    std::array<std::uint32_t, 3> depVal;
};

inline Mutation mutationOf(const Rec& r)
{
    const auto h = recHash(r);
    Mutation m {};
    m.s = r.kind != REUSE && r.kind != FACTORY;
    m.t = r.kind != FACTORY && r.kind != UNEXP && r.hasObj;
    m.p = m.s && r.ev != kAnon;
    m.d = true;
    m.sval = mix(h, 1);
    m.tval = mix(h, 2);
    m.payload = mix(h, 3) & 0xffff;
    for (std::uint32_t i = 0; i < 3; i++) {
        m.depVal[i] = mix(h, 4 + i);
    }
    return m;
}
inline std::uint32_t factoryVal(const Rec& r) { return mix(recHash(r), 77); }
inline std::uint32_t initVal(int state) { return 1000003u * std::uint32_t(state + 1); }
inline std::uint32_t depInitVal(int depId) { return 7000003u * std::uint32_t(depId + 1); }

struct Boom { int at; };           // thrown on purpose by a callback
struct Hang {};                    // the machine does not come to rest

// Per-thread context of the running operation.
struct Runtime {
    std::uint64_t mask {};         // outcome of guard g: bit g of mask
    int anonLimit {};              // guards of completion rows fail after that many effects
    int throwAt { -1 };            // index of the effect that throws
    int throwGuard { -1 };         // guard that throws
    bool checkMagic { true };
    int nEffects {};
    int nGuards {};
    bool corrupt {};               // a callback was handed a dead object
    std::vector<Rec> effects, guards;

    void begin(std::uint64_t m, int limit, int ta, int tg)
    {
        mask = m;
        anonLimit = limit;
        throwAt = ta;
        throwGuard = tg;
        nEffects = nGuards = 0;
        effects.clear();
        guards.clear();
    }
    static bool truth(std::uint64_t mask, int g, int ev, int limit, int nEffects)
    {
        return ((mask >> (g & 63)) & 1) != 0 && (ev != kAnon || nEffects < limit);
    }
    bool onGuard(const Rec& r)
    {
        if (++nGuards > 20000) {
            throw Hang {};
        }
        guards.push_back(r);
        if (throwGuard == r.id) {
            throw Boom { -1 };
        }
        return truth(mask, r.id, r.ev, anonLimit, nEffects);
    }
    void onEffect(const Rec& r)
    {
        if (nEffects > 5000) {
            throw Hang {};
        }
        effects.push_back(r);
        if (nEffects++ == throwAt) {
            throw Boom { nEffects - 1 };
        }
    }
};
extern thread_local Runtime* rt;

struct Counters {
    long states {}, events {};     // live objects
    long badDestroy {};
};
extern thread_local Counters counters;

// Memory allocated by the library; what callbacks allocate is not counted
struct Meter {
    bool on {};
    long bytes {};
};
extern thread_local Meter meter;
struct Metered {
    bool before = meter.on;
    explicit Metered(bool on) { meter.on = on; }
    Metered(const Metered&) = delete;
    ~Metered() { meter.on = before; }
};

struct Dep {
    int id;
    std::uint32_t val;
    explicit Dep(int i) : id(i), val(depInitVal(i)) { }
    Dep(const Dep&) = delete;
    Dep& operator=(const Dep&) = delete;
};
template <int N> struct DepT : Dep { using Dep::Dep; };
struct DepSet {
    DepT<0> d0;
    DepT<1> d1;
    DepT<2> d2;
    explicit DepSet(int set) : d0(set * 3), d1(set * 3 + 1), d2(set * 3 + 2) { }
};

struct IMachine {
    virtual ~IMachine() = default;
    // delivers an event, as lvalue (payload is written back) or as temporary
    virtual bool process(int ev, std::uint32_t& payload, bool temporary) = 0;
    virtual void observe(std::vector<std::uint8_t>& out) = 0;
    virtual void set(int index) = 0;
    virtual void setDeps(DepSet& deps) = 0;
    virtual std::unique_ptr<IMachine> moved(int pattern) = 0;   // null if not movable
    virtual std::string status() = 0;
};

// Declarative description of the machine, written by the generator next to the C++ text.
enum SrcKind { S_STATE, S_EXIT, S_DIRECT };
enum DstKind { D_STATE, D_ENTRY, D_DIRECT, D_HISTORY };
enum ActKind { A_NONE, A_PLAIN, A_CREATE, A_REUSE };
struct Row {
    int srcKind, srcParent, src;     // srcParent for S_EXIT, S_DIRECT
    int ev;
    int guard;
    int actKind;
    std::vector<int> acts;
    int dstKind, dstParent, dst;     // dstParent for all but D_STATE
};
struct IRow { int ev, guard; std::vector<int> acts; };
struct StateSpec {
    int id;
    int type;                        // id of the state whose C++ type, tables and object it shares; id if its own
    int parent;                      // composite that contains it, -1 for the root
    bool composite, entry, exit, ndc;
    std::vector<int> defers;
    std::vector<IRow> internal;      // own internal table
    std::vector<Row> rows;           // composite: transition table
    std::vector<int> initials;       // composite: initial state of each region
};
enum ObsKind { O_IS1, O_IS2, O_IS3, O_PARENT };
struct Obs { int kind, region, parent, state; };
struct SetOp { int region, parent, state; };
struct Spec {
    std::string name;
    std::string text;                            // the spec as JSON
    std::vector<StateSpec> states;               // index = id, 0 = root
    int nEvents, nDeps;
    std::vector<int> hasPayload;                 // per event
    bool handler;
    std::vector<Obs> obs;
    std::vector<std::vector<SetOp>> sets;
};

struct MachineDef {
    Spec spec;
    std::unique_ptr<IMachine> (*make)(DepSet&, int pattern);
};
const MachineDef& machineDef();
}
