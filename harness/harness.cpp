// Drives one generated machine with generated histories, in lockstep with the reference model.
#include "model.h"
#include "rt.h"

#include <rapidcheck.h>

#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <thread>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

namespace vh {
thread_local Runtime* rt = nullptr;
thread_local Counters counters;
// Allocations of a build that is linked with --wrap for them
static thread_local long allocations, failingAllocation, liveBlocks;
thread_local Meter meter;
static thread_local bool meterBusy;
static bool meterUsed;
static std::unordered_map<void*, std::size_t>& blocks()
{
    static thread_local std::unordered_map<void*, std::size_t> b;
    return b;
}
}
using namespace vh;

namespace vh {
void metered(void* p, std::size_t n)
{
    if (!meter.on || meterBusy) return;
    meterBusy = true;
    blocks()[p] = n;
    meter.bytes += long(n);
    meterBusy = false;
}
void released(void* p)
{
    if (meterBusy || !meterUsed || !p) return;
    meterBusy = true;
    const auto b = blocks().find(p);
    if (b != blocks().end()) {
        meter.bytes -= long(b->second);
        blocks().erase(b);
    }
    meterBusy = false;
}
}

namespace {

enum Aspect : unsigned {
    A_CONFIG = 1, A_RET = 2, A_UNEXP = 4, A_EFFECT = 8, A_ARGS = 16, A_DATA = 32, A_DEPS = 64, A_GUARD = 128,
    A_EXC = 256, A_MEM = 512, A_PAYLOAD = 1024, A_STATUS = 2048, A_GROWTH = 4096
};
const std::pair<const char*, unsigned> kAspects[] = { { "config", A_CONFIG }, { "ret", A_RET }, { "unexp", A_UNEXP },
    { "effect", A_EFFECT }, { "args", A_ARGS }, { "data", A_DATA }, { "deps", A_DEPS }, { "guard", A_GUARD },
    { "exc", A_EXC }, { "mem", A_MEM }, { "payload", A_PAYLOAD },
    { "status", A_STATUS }, { "growth", A_GROWTH } };
const char* aspectName(unsigned a)
{
    for (auto& x : kAspects)
        if (x.second == a) return x.first;
    return "?";
}

struct Options {
    unsigned aspects = ~0u;
    bool set {}, deps {}, move {}, thr {}, twin {}, log {}, status {}, oom {}, grow {};
    int cases = 100, maxLen = 60, threads = 0, enabledBias = 75;
    std::uint64_t seed = 1;
    std::string stats, cur, replay;
    std::vector<int> nontrivial, relevant;
} opt;

// Operation as generated; resolved against the present configuration when it is executed
struct RawOp {
    int kind {}, pick {}, maskMode {}, limit {}, throwSel {};
    std::uint32_t payload {};
    std::uint64_t m1 {}, m2 {};
    bool temporary {};
};
// Operation as executed
struct Op {
    char k = 'P';                 // Process, Set, Dependency, Move, Out of memory
    int ev {};
    std::uint32_t payload {};
    std::uint64_t mask {};
    int limit {};
    int temporary {}, throwAt { -1 }, throwGuard { -1 }, index {};
    std::string text() const
    {
        std::ostringstream o;
        o << k << ' ' << ev << ' ' << payload << ' ' << mask << ' ' << limit << ' ' << temporary << ' ' << throwAt
          << ' ' << throwGuard << ' ' << index;
        return o.str();
    }
    static bool parse(const std::string& line, Op& op)
    {
        std::istringstream i(line);
        return bool(i >> op.k >> op.ev >> op.payload >> op.mask >> op.limit >> op.temporary >> op.throwAt
            >> op.throwGuard >> op.index);
    }
};

std::string show(const Rec& r)
{
    static const char* n[] = { "guard", "action", "on_entry", "on_exit", "on_unexpected_event", "factory", "reuse", "log" };
    std::ostringstream o;
    o << n[r.kind] << ' ' << r.id << " (event " << r.ev << " payload " << r.payload << ", source S" << r.src << '='
      << r.sval << ", target S" << r.tgt << '=' << r.tval;
    if (r.holder) o << (r.hasObj ? " in holder" : " empty holder");
    for (int i = 0; i < r.nDeps; i++) o << ", dep " << r.depId[i] << '=' << r.depVal[i];
    o << ')';
    return o.str();
}
bool sameWho(const Rec& a, const Rec& b) { return a.kind == b.kind && a.id == b.id; }
bool sameArgs(const Rec& a, const Rec& b)
{
    return a.ev == b.ev && a.src == b.src && a.tgt == b.tgt && a.holder == b.holder && a.hasObj == b.hasObj
        && a.nDeps == b.nDeps;
}
unsigned diff(const Rec& a, const Rec& b)
{
    if (!sameWho(a, b)) return a.kind == UNEXP || b.kind == UNEXP ? A_UNEXP : A_EFFECT;
    if (!sameArgs(a, b)) return A_ARGS;
    if (a.payload != b.payload) return A_PAYLOAD;
    if (a.sval != b.sval || a.tval != b.tval) return A_DATA;
    if (a.depId != b.depId || a.depVal != b.depVal) return A_DEPS;
    return 0;
}
bool sameGuard(const Rec& a, const Rec& b) { return diff(a, b) == 0; }

struct Shared {                    // survives a crash of this process
    char* mem {};
    std::size_t size = 1 << 20, used = 0;
    void open(const std::string& path)
    {
        int fd = ::open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, off_t(size)) != 0) std::exit(3);
        mem = static_cast<char*>(mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        if (mem == MAP_FAILED) std::exit(3);
        close(fd);
    }
    void reset()
    {
        used = 0;
        if (mem) mem[0] = 0;
    }
    void add(const std::string& s)
    {
        if (!mem || used + s.size() + 2 > size) return;
        std::memcpy(mem + used, s.data(), s.size());
        used += s.size();
        mem[used++] = '\n';
        mem[used] = 0;
    }
} shared;

// Stands in for the standard output: each line written by hsm::log becomes a record
class LogBuf final : public std::streambuf {
    std::string line;
    static int number(const std::string& part, char letter)
    {
        int found = -1;
        for (std::size_t i = 0; i + 1 < part.size(); i++) {
            const bool starts = i == 0 || !(std::isalnum(static_cast<unsigned char>(part[i - 1])) || part[i - 1] == '_');
            if (starts && part[i] == letter && std::isdigit(static_cast<unsigned char>(part[i + 1])))
                found = std::atoi(part.c_str() + i + 1);
        }
        return found;
    }
    void flushLine()
    {
        Rec r;
        r.kind = LOGGED;
        r.id = kLog;
        const auto plus = line.find(" + "), eq = line.find(" = ");
        if (plus != std::string::npos && eq != std::string::npos && plus < eq) {
            const auto ev = line.substr(plus + 3, eq - plus - 3);
            r.src = number(line.substr(0, plus), 'S');
            r.ev = ev.find("noneEvent") != std::string::npos ? kAnon : number(ev, 'E');
            if (r.ev < 0 && ev.find("noneEvent") == std::string::npos) r.ev = -99;
            r.tgt = number(line.substr(eq + 3), 'S');
        } else {
            r.ev = -98;
        }
        line.clear();
        if (rt) rt->onEffect(r);
    }
    int overflow(int c) override
    {
        if (c == '\n') flushLine();
        else if (c != EOF) line += char(c);
        return c == EOF ? 0 : c;
    }
} logBuf;

class Session {
  public:
    const MachineDef& def;
    int pattern;
    DepSet deps0 { 0 }, deps1 { 1 };
    Runtime runtime;
    Model model;
    std::unique_ptr<IMachine> machine;
    std::vector<Op> ops;
    std::string report;            // empty: no mismatch
    unsigned aspect {};
    std::uint64_t digest = 1469598103934665603ull;
    long dropped {};
    int nextPattern;
    std::map<std::vector<int>, std::string> toText;
    std::map<std::string, std::vector<int>> toConfig;
    Shared* log {};

    Session(const MachineDef& d, int pat, Shared* l)
        : def(d), pattern(pat), model(d.spec), nextPattern(pat), log(l)
    {
        {
            Metered on(true);
            machine = def.make(deps0, pattern);
        }
        if (!opt.grow) compareConfig("after construction");
        else meter.bytes = 0;       // what the machine needs to exist does not count
    }

    bool ok() const { return report.empty(); }
    void blame(unsigned a, const std::string& what) { fail(a, what); }

    void stepRaw(const RawOp& r)
    {
        Op op;
        auto& spec = def.spec;
        const int k = r.kind % 100;
        if (opt.set && !spec.sets.empty() && k >= 86) {
            op.k = 'S';
            op.index = r.pick % int(spec.sets.size());
        } else if (opt.deps && spec.nDeps && k < 92 && k >= 80) {
            op.k = 'D';
        } else if (opt.move && k < 80 && k >= 72) {
            op.k = 'M';
        } else if (opt.oom && k == 71) {
            op.k = 'O';
            op.index = r.pick;
        } else {
            op.k = 'P';
            const auto on = model.enabledEvents();
            if (k % 25 < opt.enabledBias / 4 && !on.empty()) op.ev = on[std::size_t(r.pick) % on.size()];
            else op.ev = r.pick % spec.nEvents;
            op.payload = spec.hasPayload[op.ev] ? r.payload & 0xffff : 0;
            switch (r.maskMode % 5) {
            case 0: op.mask = ~std::uint64_t(0); break;
            case 1: op.mask = r.m1 | r.m2; break;
            case 2: op.mask = r.m1; break;
            case 3: op.mask = r.m1 & r.m2; break;
            default: op.mask = ~(r.m1 & r.m2 & (r.m1 >> 7)); break;
            }
            // mostly a few rounds of completion transitions, sometimes hundreds
            op.limit = r.limit < 540 ? r.limit % 12 : 12 + (r.limit - 540) * 5;
            op.temporary = r.temporary;
            if (opt.thr && r.throwSel % 6 < (model.queue.empty() ? 1 : 4)) {
                Model probe = model;
                try {
                    auto p = op.payload;
                    probe.process(op.ev, p, OpCtl { op.mask, op.limit, -1, -1 });
                    const int sel = r.throwSel / 6;
                    if (sel % 4 == 3 && !probe.guardsRequired.empty())
                        op.throwGuard = probe.guardsRequired[std::size_t(sel) % probe.guardsRequired.size()].id;
                    else if (probe.replayFrom >= 0 && probe.replayFrom < int(probe.effects.size()) && sel % 4 < 2)
                        op.throwAt = probe.replayFrom + sel % (int(probe.effects.size()) - probe.replayFrom);
                    else if (!probe.effects.empty() && r.throwSel % 6 == 0)
                        op.throwAt = sel % int(probe.effects.size());
                } catch (...) {
                }
            }
        }
        step(op);
    }

    void step(const Op& op)
    {
        if (log) log->add(op.text());
        rt = &runtime;
        const auto executed = ops.size();
        switch (op.k) {
        case 'P': process(op); break;
        case 'S': set(op); break;
        case 'D': setDeps(); ops.push_back(op); break;
        case 'M': move(op); break;
        case 'O': outOfMemory(op); break;
        default: return;
        }
        if (ops.size() == executed) return;     // outside the domain: not run
        if (runtime.corrupt && ok()) fail(A_MEM, "a callback was handed a dead or never constructed object");
        fold(std::uint64_t(op.k));
        if (ok()) compareConfig(op.text());
        if (ok() && opt.status) compareStatus();
    }

    // The same operations again and again need neither more memory nor more work
    void repeat()
    {
        const auto base = ops;
        long most = 0;
        std::map<std::string, long> work;
        for (int round = 0; round < kRounds && ok(); round++) {
            for (std::size_t i = 0; i < base.size() && ok(); i++) {
                const auto key = opt.grow ? situation(i) : std::string();
                ops = base;         // grows with each step otherwise
                step(base[i]);
                most = std::max(most, long(model.queue.size()));
                const long limit = 2048 + 512 * most;
                if (ok() && meter.bytes > limit) {
                    ops = base;
                    fail(A_GROWTH, "after " + std::to_string(round + 1) + " repetitions of the history the machine holds "
                            + std::to_string(meter.bytes) + " bytes more than after its construction");
                }
                if (base[i].k != 'P' || base[i].throwAt >= 0 || base[i].throwGuard >= 0 || !ok()) continue;
                const long n = long(runtime.nGuards);
                const auto seen = work.emplace(key, n).first;
                if (n > 2 * seen->second + 8) {
                    ops = base;
                    fail(A_GROWTH, "the same event in the same situation asked " + std::to_string(seen->second)
                            + " guards first and " + std::to_string(n) + " in repetition " + std::to_string(round + 1));
                }
            }
            ops = base;
        }
        model.hit(F_REPEATED);
    }

    void finish(const Counters& before)
    {
        rt = &runtime;
        machine.reset();
        if (!ok()) return;
        std::ostringstream o;
        if (counters.states != before.states)
            o << counters.states - before.states << " state object(s) not destroyed";
        else if (counters.events != before.events)
            o << counters.events - before.events << " event object(s) not destroyed";
        else if (counters.badDestroy != before.badDestroy)
            o << counters.badDestroy - before.badDestroy << " dead object(s) destroyed again";
        if (!o.str().empty()) fail(A_MEM, o.str());
    }

  private:
    static constexpr int kRounds = 40;
    // Configuration, history and pending events, and which operation comes next
    std::string situation(std::size_t next) const
    {
        std::ostringstream o;
        o << next << ':' << model.active;
        for (int r = 0; r < model.active; r++)
            o << ' ' << model.cur[std::size_t(r)].parent << '/' << model.cur[std::size_t(r)].state;
        for (auto& h : model.hist) {
            o << ',' << h.first;
            for (auto& c : h.second) o << ' ' << c.parent << '/' << c.state;
        }
        for (auto& q : model.queue) o << ';' << q.ev;
        return o.str();
    }
    void fail(unsigned a, const std::string& what)
    {
        if (!ok()) return;
        aspect = a;
        std::ostringstream o;
        o << "[" << aspectName(a) << "] " << what;
        if (!ops.empty()) o << " in operation " << ops.size() << " (" << ops.back().text() << ")";
        report = o.str();
    }
    void fold(std::uint64_t x)
    {
        digest ^= x + 0x9E3779B97F4A7C15ull;
        digest *= 1099511628211ull;
    }
    void foldRec(const Rec& r)
    {
        fold(recHash(r));
        fold(std::uint64_t(r.src + 1) << 32 | std::uint64_t(r.tgt + 1) << 8 | std::uint64_t(r.holder) << 1
            | std::uint64_t(r.hasObj));
        for (int i = 0; i < r.nDeps; i++) fold(std::uint64_t(r.depId[i]));
    }

    void set(const Op& op)
    {
        if (op.index < 0 || op.index >= int(def.spec.sets.size())) return;
        Model next = model;
        try {
            next.set(def.spec.sets[std::size_t(op.index)]);
        } catch (Precondition&) {
            dropped++;
            return;
        }
        ops.push_back(op);
        model = next;
        Metered on(true);
        machine->set(op.index);
    }
    void setDeps()
    {
        if (!def.spec.nDeps) return;
        const int other = 1 - model.depSet;
        DepSet fresh(other);
        auto& d = other ? deps1 : deps0;
        d.d0.val = fresh.d0.val;
        d.d1.val = fresh.d1.val;
        d.d2.val = fresh.d2.val;
        model.setDepObjects(other);
        model.armSetDep = true;
        Metered on(true);
        machine->setDeps(d);
    }
    void move(const Op& op)
    {
        nextPattern = (nextPattern * 31 + 7) % 65536;
        std::unique_ptr<IMachine> m;
        {
            Metered on(true);
            m = machine->moved(nextPattern);
        }
        if (!m) return;
        ops.push_back(op);
        machine = std::move(m);
        model.armMove = true;
    }

    // The construction of another machine in which one of the allocations fails has to be undone
    void outOfMemory(const Op& op)
    {
        ops.push_back(op);
        const Counters before = counters;
        const auto construct = [&](long failing) {
            allocations = 0;
            failingAllocation = failing;
            bool made = true;
            try {
                auto m = def.make(deps0, pattern);
                failingAllocation = 0;
            } catch (std::bad_alloc&) {
                made = false;
            }
            failingAllocation = 0;
            return made;
        };
        const long blocks = liveBlocks;
        construct(0);
        const long needed = allocations;
        if (!needed) return;    // allocations are not counted in this build
        const long failing = 1 + (needed * (op.index % 5040)) / 5040;
        const bool made = construct(failing);
        if (made) fail(A_MEM, "a machine whose memory could not be allocated was constructed");
        else if (counters.states != before.states) fail(A_MEM, "a failed construction leaves state objects behind");
        else if (liveBlocks != blocks) fail(A_MEM, "a failed construction leaks memory");
        model.hit(F_CONSTRUCTION_FAILED);
    }

    void process(const Op& op)
    {
        if (op.ev < 0 || op.ev >= def.spec.nEvents) return;
        Model next = model;
        std::uint32_t payload = def.spec.hasPayload[op.ev] ? op.payload : 0, expectedPayload = payload;
        const OpCtl ctl { op.mask, op.limit, op.throwAt, op.throwGuard };
        bool expected = false, boom = false;
        try {
            expected = next.process(op.ev, expectedPayload, ctl);
        } catch (Precondition&) {
            dropped++;
            return;
        } catch (Hang&) {
            dropped++;
            return;
        } catch (Boom&) {
            boom = true;
            next.armThrow = true;
        }
        ops.push_back(op);
        model = std::move(next);
        runtime.begin(op.mask, op.limit, op.throwAt, op.throwGuard);
        bool result = false, thrown = false;
        try {
            Metered on(true);
            result = machine->process(op.ev, payload, op.temporary != 0);
        } catch (Boom&) {
            thrown = true;
        } catch (Hang&) {
            fail(A_EFFECT, "the machine does not come to rest");
            return;
        } catch (std::exception& e) {
            fail(A_EXC, std::string("process_event threw ") + e.what());
            return;
        }
        for (auto& r : runtime.effects) foldRec(r);
        for (auto& r : runtime.guards) foldRec(r);
        fold(result);
        fold(thrown);
        fold(payload);
        compareEffects();
        if (!ok()) return;
        if (thrown != boom) {
            fail(A_EXC, boom ? "an exception of a callback was swallowed" : "unexpected exception");
            return;
        }
        compareGuards(boom);
        if (!ok()) return;
        if (!boom && result != expected) {
            fail(A_RET, std::string("process_event returned ") + (result ? "true" : "false"));
            return;
        }
        if (!op.temporary && payload != expectedPayload) {
            fail(A_PAYLOAD, "the event object of the caller was not handed by reference");
            return;
        }
        if (!op.temporary && payload != op.payload) model.hit(F_LVALUE_MUTATED);
        if (boom && model.altValid && !matches()) {
            Model alt = model;
            alt.useAlternative();
            std::swap(model, alt);
            if (!matches()) std::swap(model, alt);
        }
    }

    void compareEffects()
    {
        auto& e = model.effects;
        auto& o = runtime.effects;
        for (std::size_t i = 0; i < std::min(e.size(), o.size()); i++) {
            if (auto d = diff(e[i], o[i])) {
                fail(d, "expected " + show(e[i]) + ", observed " + show(o[i]));
                return;
            }
        }
        if (e.size() > o.size())
            fail(e[o.size()].kind == UNEXP ? A_UNEXP : A_EFFECT, "missing " + show(e[o.size()]));
        else if (o.size() > e.size())
            fail(o[e.size()].kind == UNEXP ? A_UNEXP : A_EFFECT, "unexpected " + show(o[e.size()]));
    }
    void compareGuards(bool boom)
    {
        if (boom) return;
        for (auto& g : model.guardsRequired) {
            bool found = false;
            for (auto& o : runtime.guards) found = found || sameGuard(g, o);
            if (!found) {
                fail(A_GUARD, "not evaluated: " + show(g));
                return;
            }
        }
        for (auto& o : runtime.guards) {
            bool found = false;
            for (auto& g : model.guardsAllowed) found = found || sameGuard(g, o);
            if (!found) {
                fail(A_GUARD, "evaluated without need: " + show(o));
                return;
            }
        }
    }
    bool matches()
    {
        std::vector<std::uint8_t> got;
        machine->observe(got);
        return mismatch(got).empty();
    }
    std::string mismatch(const std::vector<std::uint8_t>& got)
    {
        auto& obs = def.spec.obs;
        for (std::size_t i = 0; i < obs.size(); i++) {
            auto& q = obs[i];
            bool want = false;
            std::ostringstream o;
            switch (q.kind) {
            case O_IS1: want = model.is1(q.state); o << "is(S" << q.state << ")"; break;
            case O_IS2:
                want = model.is2(q.parent, q.state);
                o << "is(S" << q.parent << ", S" << q.state << ")";
                break;
            case O_IS3:
                if (q.region >= model.active) continue;
                want = model.is3(q.region, q.parent, q.state);
                o << "is(" << q.region << ", S" << q.parent << ", S" << q.state << ")";
                break;
            default: want = model.parentIs(q.parent); o << "parent_is(S" << q.parent << ")";
            }
            if (want != bool(got[i])) {
                o << " is " << (got[i] ? "true" : "false") << ", expected";
                for (int r = 0; r < model.active; r++)
                    o << " region " << r << ": S" << model.cur[std::size_t(r)].parent << "/S"
                      << model.cur[std::size_t(r)].state;
                return o.str();
            }
        }
        return "";
    }
    // status() tells the configurations apart, and nothing else
    void compareStatus()
    {
        std::vector<int> c;
        for (int r = 0; r < model.active; r++) {
            c.push_back(model.cur[std::size_t(r)].parent);
            c.push_back(model.cur[std::size_t(r)].state);
        }
        const auto text = machine->status();
        if (text.empty()) fail(A_STATUS, "status() is empty");
        const auto a = toText.emplace(c, text).first;
        if (a->second != text) fail(A_STATUS, "status() is '" + text + "' and was '" + a->second + "' in the same configuration");
        const auto b = toConfig.emplace(text, c).first;
        if (b->second != c) fail(A_STATUS, "status() '" + text + "' stands for different configurations");
    }
    void compareConfig(const std::string&)
    {
        std::vector<std::uint8_t> got;
        machine->observe(got);
        for (std::size_t i = 0; i < got.size(); i++)
            if (!(def.spec.obs[i].kind == O_IS3 && def.spec.obs[i].region >= model.active)) fold(got[i]);
        const auto m = mismatch(got);
        if (!m.empty()) fail(A_CONFIG, m);
    }
};

struct Stats {
    long cases {}, ops {}, dropped {}, desync {}, nontrivial {};
    std::vector<long> feat = std::vector<long>(F_COUNT), featCases = std::vector<long>(F_COUNT);
    std::unordered_set<std::uint64_t> distinct;
    std::vector<std::string> samples;
    std::uint64_t digest = 7;
    std::string failReport;
    std::vector<Op> failOps;
    int failPattern {};
    bool failed {};
    std::map<std::string, long> desyncAspects;
} stats;

std::uint64_t hashOps(const std::vector<Op>& ops)
{
    std::uint64_t h = 99;
    for (auto& o : ops) {
        for (char c : o.text()) {
            h ^= std::uint8_t(c);
            h *= 1099511628211ull;
        }
    }
    return h;
}

// true: no violation
bool account(Session& s, bool counting)
{
    // A history that never touches the property does not say anything about it
    bool relevant = opt.relevant.empty() || s.aspect == A_MEM;
    for (int f : opt.relevant) relevant = relevant || s.model.feat[std::size_t(f)] > 0;
    const bool violation = !s.ok() && (s.aspect & opt.aspects) && relevant;
    if (counting) {
        stats.cases++;
        stats.ops += long(s.ops.size());
        stats.dropped += s.dropped;
        bool nt = opt.nontrivial.empty();
        for (int f = 0; f < F_COUNT; f++) {
            stats.feat[std::size_t(f)] += s.model.feat[std::size_t(f)];
            stats.featCases[std::size_t(f)] += s.model.feat[std::size_t(f)] > 0;
        }
        for (int f : opt.nontrivial) nt = nt || s.model.feat[std::size_t(f)] > 0;
        if (nt) {
            stats.nontrivial++;
            if (stats.distinct.insert(hashOps(s.ops)).second && stats.samples.size() < 2 && s.ops.size() > 3) {
                std::string t;
                for (auto& o : s.ops) {
                    if (!t.empty()) t += "; ";
                    t += o.text();
                    if (t.size() > 300) break;
                }
                stats.samples.push_back(t);
            }
        }
        if (!s.ok() && !violation) {
            stats.desync++;
            stats.desyncAspects[s.report.substr(0, 160)]++;
        }
        stats.digest = stats.digest * 1099511628211ull ^ s.digest;
    }
    if (violation) {
        stats.failed = true;
        stats.failOps = s.ops;
        stats.failReport = s.report;
        stats.failPattern = s.pattern;
    }
    return !violation;
}

// The same history on memory with other contents must not make a difference
void twin(Session& s)
{
    const Counters before = counters;
    Session t(machineDef(), s.pattern ^ 0x5B, nullptr);
    for (auto& op : s.ops) {
        if (!t.ok()) break;
        t.step(op);
    }
    t.finish(before);
    if (!t.ok()) s.blame(A_MEM, "behaves differently on memory with other contents: " + t.report);
    else if (t.digest != s.digest) s.blame(A_MEM, "behaves differently on memory with other contents");
}

bool runCase(const std::vector<RawOp>& raw, int pattern, bool counting)
{
    const Counters before = counters;
    shared.reset();
    shared.add("X " + std::to_string(pattern));
    Session s(machineDef(), pattern, &shared);
    for (auto& r : raw) {
        if (!s.ok()) break;
        s.stepRaw(r);
    }
    if (opt.grow && s.ok()) s.repeat();
    s.finish(before);
    if (opt.twin && s.ok()) twin(s);
    shared.reset();
    return account(s, counting);
}

// Several machines at once: interleaved in this thread, or one thread each
bool runMany(const std::vector<std::vector<RawOp>>& raws, int pattern, bool threads, bool counting)
{
    std::vector<std::unique_ptr<Session>> sessions(raws.size());
    if (threads) {
        std::vector<std::thread> ts;
        for (std::size_t i = 0; i < raws.size(); i++) {
            ts.emplace_back([&, i] {
                const Counters before = counters;
                auto s = std::make_unique<Session>(machineDef(), pattern + int(i), nullptr);
                for (auto& r : raws[i]) {
                    if (!s->ok()) break;
                    s->stepRaw(r);
                }
                s->finish(before);
                sessions[i] = std::move(s);
            });
        }
        for (auto& t : ts) t.join();
    } else {
        const Counters before = counters;
        std::size_t longest = 0;
        for (std::size_t i = 0; i < raws.size(); i++) {
            sessions[i] = std::make_unique<Session>(machineDef(), pattern + int(i), nullptr);
            longest = std::max(longest, raws[i].size());
        }
        bool ok = true;
        for (std::size_t k = 0; k < longest && ok; k++)
            for (std::size_t i = 0; i < raws.size(); i++) {
                if (k < raws[i].size() && sessions[i]->ok()) sessions[i]->stepRaw(raws[i][k]);
                ok = ok && sessions[i]->ok();
            }
        for (auto& s : sessions) {
            rt = &s->runtime;
            s->machine.reset();
        }
        sessions.back()->finish(before);
    }
    bool ok = true;
    for (auto& s : sessions) ok = account(*s, counting) && ok;
    return ok;
}

template <class T> rc::Gen<T> full() { return rc::gen::resize(100, rc::gen::arbitrary<T>()); }
rc::Gen<int> upTo(int n) { return rc::gen::resize(100, rc::gen::inRange(0, n)); }

rc::Gen<RawOp> genOp()
{
    return rc::gen::build<RawOp>(rc::gen::set(&RawOp::kind, upTo(100)), rc::gen::set(&RawOp::pick, upTo(5040)),
        rc::gen::set(&RawOp::maskMode, upTo(5)), rc::gen::set(&RawOp::limit, upTo(600)),
        rc::gen::set(&RawOp::throwSel, upTo(600)), rc::gen::set(&RawOp::payload, full<std::uint32_t>()),
        rc::gen::set(&RawOp::m1, full<std::uint64_t>()), rc::gen::set(&RawOp::m2, full<std::uint64_t>()),
        rc::gen::set(&RawOp::temporary, full<bool>()));
}
rc::Gen<std::vector<RawOp>> genHistory()
{
    return rc::gen::scale(double(opt.maxLen) / 100.0, rc::gen::container<std::vector<RawOp>>(genOp()));
}

std::string jsonStr(const std::string& s)
{
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') o += '\\';
        if (c == '\n') o += "\\n";
        else o += c;
    }
    return o + "\"";
}

void writeStats()
{
    if (opt.stats.empty()) return;
    std::ofstream o(opt.stats);
    o << "{\"cases\": " << stats.cases << ", \"ops\": " << stats.ops << ", \"dropped\": " << stats.dropped
      << ", \"desync\": " << stats.desync << ", \"nontrivial\": " << stats.nontrivial
      << ", \"distinct\": " << stats.distinct.size() << ", \"digest\": \"" << stats.digest << "\", \"features\": {";
    for (int f = 0; f < F_COUNT; f++)
        o << (f ? ", " : "") << '"' << featureName(f) << "\": [" << stats.feat[std::size_t(f)] << ", "
          << stats.featCases[std::size_t(f)] << ']';
    o << "}, \"samples\": [";
    for (std::size_t i = 0; i < stats.samples.size(); i++) o << (i ? ", " : "") << jsonStr(stats.samples[i]);
    o << "], \"desync_reports\": {";
    bool first = true;
    for (auto& d : stats.desyncAspects) {
        o << (first ? "" : ", ") << jsonStr(d.first) << ": " << d.second;
        first = false;
    }
    o << "}, \"failed\": " << (stats.failed ? "true" : "false");
    if (stats.failed) {
        o << ", \"report\": " << jsonStr(stats.failReport) << ", \"pattern\": " << stats.failPattern << ", \"ops\": [";
        for (std::size_t i = 0; i < stats.failOps.size(); i++)
            o << (i ? ", " : "") << jsonStr(stats.failOps[i].text());
        o << "]";
    }
    o << "}\n";
}

int replay()
{
    std::ifstream in(opt.replay);
    std::string line;
    int pattern = 0;
    std::vector<Op> ops;
    while (std::getline(in, line)) {
        Op op;
        if (line.rfind("X ", 0) == 0) pattern = std::atoi(line.c_str() + 2);
        else if (Op::parse(line, op)) ops.push_back(op);
    }
    const Counters before = counters;
    Session s(machineDef(), pattern, nullptr);
    for (auto& op : ops) {
        if (!s.ok()) break;
        s.step(op);
    }
    if (opt.grow && s.ok()) s.repeat();
    s.finish(before);
    if (opt.twin && s.ok()) twin(s);
    const bool ok = account(s, true);
    writeStats();
    std::cout << (s.ok() ? "no mismatch" : s.report) << " digest " << s.digest << std::endl;
    return ok ? 0 : 1;
}

unsigned parseAspects(const std::string& s)
{
    unsigned m = 0;
    std::istringstream i(s);
    std::string w;
    while (std::getline(i, w, ',')) {
        if (w == "all") return ~0u;
        bool known = false;
        for (auto& x : kAspects)
            if (w == x.first) { m |= x.second; known = true; }
        if (!known) std::exit(3);
    }
    return m;
}
}

#ifdef VH_WRAP_NEW
extern "C" {
void* __real__Znwm(std::size_t);
void __real__ZdlPv(void*);
void __real__ZdlPvm(void*, std::size_t);
void* __wrap__Znwm(std::size_t n)
{
    if (++vh::allocations == vh::failingAllocation) throw std::bad_alloc();
    vh::liveBlocks++;
    void* p = __real__Znwm(n);
    vh::metered(p, n);
    return p;
}
void __wrap__ZdlPv(void* p)
{
    if (p) vh::liveBlocks--;
    vh::released(p);
    __real__ZdlPv(p);
}
void __wrap__ZdlPvm(void* p, std::size_t n)
{
    if (p) vh::liveBlocks--;
    vh::released(p);
    __real__ZdlPvm(p, n);
}
}
#endif

int main(int argc, char** argv)
{
    for (int i = 1; i < argc; i++) {
        const std::string a = argv[i];
        auto next = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
        if (a == "--aspects") opt.aspects = parseAspects(next());
        else if (a == "--cases") opt.cases = std::stoi(next());
        else if (a == "--maxlen") opt.maxLen = std::stoi(next());
        else if (a == "--bias") opt.enabledBias = std::stoi(next());
        else if (a == "--seed") opt.seed = std::stoull(next());
        else if (a == "--set") opt.set = true;
        else if (a == "--deps") opt.deps = true;
        else if (a == "--move") opt.move = true;
        else if (a == "--throw") opt.thr = true;
        else if (a == "--twin") opt.twin = true;
        else if (a == "--oom") opt.oom = true;
        else if (a == "--grow") opt.grow = meterUsed = true;
        else if (a == "--log") opt.log = true;
        else if (a == "--status") opt.status = true;
        else if (a == "--threads") opt.threads = std::stoi(next());
        else if (a == "--stats") opt.stats = next();
        else if (a == "--cur") opt.cur = next();
        else if (a == "--replay") opt.replay = next();
        else if (a == "--nontrivial" || a == "--relevant") {
            auto& list = a == "--nontrivial" ? opt.nontrivial : opt.relevant;
            std::istringstream s(next());
            std::string w;
            while (std::getline(s, w, ',')) {
                bool known = false;
                for (int f = 0; f < F_COUNT; f++)
                    if (w == featureName(f)) { list.push_back(f); known = true; }
                if (!known) { std::cerr << "unknown feature " << w << "\n"; return 3; }
            }
        } else {
            std::cerr << "unknown option " << a << "\n";
            return 3;
        }
    }
    if (!opt.cur.empty()) shared.open(opt.cur);
    std::streambuf* out = opt.log ? std::cout.rdbuf(&logBuf) : nullptr;
    struct Restore {
        std::streambuf* b;
        ~Restore() { if (b) std::cout.rdbuf(b); }
    } restore { out };
    if (!opt.replay.empty()) return replay();

    std::ostringstream params;
    params << "seed=" << opt.seed << " max_success=" << opt.cases << " max_size=100 verbose_progress=0 verbose_shrinking=0";
    setenv("RC_PARAMS", params.str().c_str(), 1);
    bool counting = true;
    bool ok = true;
    if (opt.threads == 0) {
        ok = rc::check(machineDef().spec.name, [&] {
            const auto pattern = *upTo(256);
            const auto ops = *genHistory();
            const bool good = runCase(ops, pattern, counting);
            if (!good) counting = false;
            RC_ASSERT(good);
        });
    } else {
        ok = rc::check(machineDef().spec.name, [&] {
            const auto pattern = *upTo(256);
            const bool threads = *full<bool>();
            const auto hs = *rc::gen::container<std::vector<std::vector<RawOp>>>(std::size_t(opt.threads), genHistory());
            const bool good = runMany(hs, pattern, threads, counting);
            if (!good) counting = false;
            RC_ASSERT(good);
        });
    }
    writeStats();
    return ok ? 0 : 1;
}
