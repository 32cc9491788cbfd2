// Reference model: interprets the declarative description of a machine. Knows nothing of the
// implementation's indices, dispatch tables or compile-time machinery.
#pragma once
#include "rt.h"
#include <algorithm>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>

namespace vh {

struct Precondition { const char* what; };   // the operation is outside the documented domain

struct OpCtl {
    std::uint64_t mask {};
    int anonLimit {};
    int throwAt { -1 };
    int throwGuard { -1 };
};

enum Feature : int {
    F_FIRED, F_GUARD_REJECT, F_ALL_GUARDS_FAILED, F_GUARD_FALLTHROUGH, F_INTERNAL, F_INTERNAL_COMPOSITE,
    F_OUTER, F_INNER_OVER_OUTER, F_ENTER_COMPOSITE, F_EXIT_PS, F_ENTRY_PS, F_DIRECT_PS, F_DIRECT_SRC,
    F_HISTORY, F_HISTORY_NONINITIAL, F_DEPTH2, F_REGION1, F_TWO_REGIONS, F_ENTER_REGIONS, F_LEAVE_REGIONS,
    F_ANON, F_ANON_CHAIN, F_ANON_REGION1, F_DEFERRED, F_REPLAYED, F_REDEFERRED, F_REPLAY2, F_REPLAY_DROPPED,
    F_UNEXPECTED, F_SELF, F_CREATE, F_RECREATE, F_REUSE, F_NOACTION_NDC, F_SETDEP_FIRED, F_SET_FIRED, F_MOVE_FIRED,
    F_THROWN, F_THROWN_THEN_FIRED, F_GUARD_THROWN, F_ENTRY_ACTION, F_EXIT_ACTION, F_CHAIN, F_ORDER3,
    F_PAYLOAD, F_DATA_SEEN, F_DEPS, F_LVALUE_MUTATED, F_REENTER, F_SUSPENDED, F_REPLAY_PAYLOAD, F_LOGGED, F_REPLAY_THREW,
    F_LONG_COMPLETION, F_SHARED_TYPE, F_CONSTRUCTION_FAILED, F_REPEATED, F_COUNT
};
inline const char* featureName(int f)
{
    static const char* n[] = { "fired", "guard_rejected", "all_guards_failed", "guard_fallthrough", "internal",
        "internal_of_composite", "outer_row_fired", "inner_over_outer", "composite_entered", "exit_pseudo_state",
        "entry_pseudo_state", "direct_target", "direct_source", "history", "history_noninitial", "depth2",
        "later_region_fired", "two_regions_fired", "regions_entered", "regions_left", "completion",
        "completion_chain", "completion_later_region", "deferred", "replayed", "deferred_again",
        "two_replayed_in_one_step", "replay_dropped", "unexpected", "self_transition", "target_created",
        "target_recreated", "target_reused", "custom_target_kept", "fired_after_set_dependency",
        "fired_after_set", "fired_after_move", "action_threw", "fired_after_throw", "guard_threw",
        "entry_action", "exit_action", "chained_actions", "exit_action_entry_in_one_transition", "payload_seen",
        "modified_state_data_seen", "dependency_seen", "caller_event_modified", "composite_reentered", "region_suspended",
        "payload_of_replayed_event_seen", "logged", "replay_threw", "completion_of_more_than_20_rounds",
        "state_type_of_two_composites", "construction_failed", "repeated" };
    return n[f];
}

class Model {
  public:
    struct Cfg { int parent, state; };
    struct Pending { int ev; std::uint32_t payload; };

    const Spec* spec;
    std::vector<Cfg> cur;                       // one slot per region
    int active;                                 // number of regions that take part
    std::map<int, std::vector<Cfg>> hist;
    std::deque<Pending> queue;
    std::vector<std::uint32_t> val;
    std::vector<char> created, touched;
    std::vector<int> shared;                    // number of states of a type
    int depSet {};
    std::vector<std::uint32_t> depVal;

    // outcome of the last operation
    std::vector<Rec> effects;
    int replayFrom { -1 };                      // effects from here on belong to replayed events
    std::vector<Rec> guardsRequired;
    std::vector<Rec> guardsAllowed;
    std::vector<long> feat = std::vector<long>(F_COUNT);
    bool armSetDep {}, armSet {}, armMove {}, armThrow {};
    // configuration before the interrupted transition, valid after Boom if altValid
    bool altValid {};
    std::vector<Cfg> altCur;
    int altActive {};
    std::map<int, std::vector<Cfg>> altHist;
    void useAlternative()
    {
        cur = altCur;
        active = altActive;
        hist = altHist;
    }
    // events that can make something happen in the present configuration
    std::vector<int> enabledEvents() const
    {
        std::vector<int> out;
        for (int e = 0; e < spec->nEvents; e++) {
            bool on = false;
            for (int r = 0; r < active && !on; r++) {
                auto& d = typeOf(cur[r].state).defers;
                on = !candidates(cur[r], e).empty() || std::find(d.begin(), d.end(), e) != d.end();
            }
            if (on) out.push_back(e);
        }
        return out;
    }

    explicit Model(const Spec& s) : spec(&s)
    {
        std::size_t maxRegions = 1;
        for (auto& st : s.states) {
            if (st.composite) maxRegions = std::max(maxRegions, st.initials.size());
        }
        cur.assign(maxRegions, Cfg { -1, -1 });
        auto& root = s.states[0];
        for (std::size_t r = 0; r < root.initials.size(); r++) cur[r] = { 0, root.initials[r] };
        active = int(root.initials.size());
        shared.assign(s.states.size(), 0);
        for (auto& st : s.states) {
            shared[std::size_t(st.type)]++;
            val.push_back(initVal(st.id));
            created.push_back(!st.ndc);
            touched.push_back(0);
            if (st.composite) {
                auto& h = hist[st.id];
                for (std::size_t r = 0; r < maxRegions; r++)
                    h.push_back({ st.id, st.initials[r < st.initials.size() ? r : 0] });
            }
        }
        setDepObjects(0);
    }
    void setDepObjects(int set)
    {
        depSet = set;
        depVal.clear();
        for (int i = 0; i < 3; i++) depVal.push_back(depInitVal(set * 3 + i));
    }
    void hit(Feature f) { feat[f]++; }
    // a state type can be a child of several composites; its object, its tables and its actions are one
    int T(int s) const { return spec->states[s].type; }
    const StateSpec& typeOf(int s) const { return spec->states[T(s)]; }

    // ---- expectations -------------------------------------------------------------------------
    bool is1(int s) const { return T(cur[0].state) == T(s); }
    bool is2(int p, int s) const { return cur[0].parent == p && is1(s); }
    bool is3(int r, int p, int s) const { return cur[r].parent == p && T(cur[r].state) == T(s); }
    bool parentIs(int p) const { return cur[0].parent == p; }

    // ---- operations ---------------------------------------------------------------------------
    bool process(int ev, std::uint32_t& payload, const OpCtl& c)
    {
        start(c);
        bool handled = false;
        const auto res = step(ev, payload, handled);
        if (res == Unhandled && spec->handler) {
            const int source = T(cur[0].state);
            Rec r;
            r.kind = UNEXP;
            r.ev = ev;
            r.payload = spec->hasPayload[ev] ? payload : 0;
            setSrc(r, source);
            setDepsIn(r);
            emit(r, source, source, &payload);
        }
        if (res == Unhandled) hit(F_UNEXPECTED);
        if (res != Fired) return false;
        replay();
        return true;
    }
    void set(const std::vector<SetOp>& ops)
    {
        for (auto& o : ops) {
            need(T(o.state));
            cur[o.region] = { o.parent, o.state };
            active = int(spec->states[cur[0].parent].initials.size());
        }
        armSet = true;
    }

  private:
    enum Result { Fired, Rejected, Deferred, Unhandled };
    OpCtl ctl;
    int nEffects {};

    struct Cand {
        const Row* row {};       // external
        const IRow* irow {};     // internal
        int owner {};            // composite whose table holds the row, or the state of an internal table
        bool leave {};           // starts in a state of a composite other than owner
        bool outer {};           // row of the enclosing composite state
    };

    void start(const OpCtl& c)
    {
        ctl = c;
        nEffects = 0;
        replayFrom = -1;
        effects.clear();
        guardsRequired.clear();
        guardsAllowed.clear();
        altValid = false;
    }
    void need(int state) const
    {
        if (!created[state]) throw Precondition { "state object was never created" };
    }
    void setSrc(Rec& r, int s)
    {
        need(s);
        r.src = s;
        r.sval = val[s];
    }
    void setDepsIn(Rec& r)
    {
        r.nDeps = spec->nDeps;
        for (int i = 0; i < spec->nDeps; i++) {
            r.depId[i] = depSet * 3 + i;
            r.depVal[i] = depVal[i];
        }
    }
    void emit(const Rec& r, int s, int t, std::uint32_t* payload)
    {
        if (r.kind == LOGGED) {
            effects.push_back(r);
            nEffects++;
            hit(F_LOGGED);
            return;
        }
        if (r.kind != FACTORY && r.kind != REUSE && r.nDeps) hit(F_DEPS);
        if (r.src >= 0 && touched[r.src]) hit(F_DATA_SEEN);
        if (r.ev != kAnon && spec->hasPayload[r.ev]) hit(F_PAYLOAD);
        effects.push_back(r);
        if (nEffects++ == ctl.throwAt) {
            hit(F_THROWN);
            if (replayFrom >= 0) hit(F_REPLAY_THREW);
            throw Boom { nEffects - 1 };
        }
        const auto m = mutationOf(r);
        if (m.s && s >= 0) { val[s] = m.sval; touched[s] = 1; }
        if (m.t && t >= 0) { val[t] = m.tval; touched[t] = 1; }
        if (m.p && payload && spec->hasPayload[r.ev]) *payload = m.payload;
        if (r.nDeps)
            for (int i = 0; i < r.nDeps; i++) depVal[i] = m.depVal[i];
    }

    // Candidate rows of a configuration, in the order in which they are tried.
    std::vector<Cand> candidates(const Cfg& c, int ev) const
    {
        std::vector<Cand> own, pseudo, inner, outer;
        auto& parent = spec->states[c.parent];
        for (auto& row : parent.rows)
            if (row.srcKind == S_STATE && row.src == c.state && row.ev == ev) own.insert(own.begin(), { &row, nullptr, c.parent, false, false });
        if (parent.parent >= 0) {
            auto& grand = spec->states[parent.parent];
            for (auto& row : grand.rows) {
                if (row.ev != ev) continue;
                if (row.srcKind != S_STATE && row.srcParent == c.parent && row.src == c.state) pseudo.insert(pseudo.begin(), { &row, nullptr, grand.id, true, false });
                if (row.srcKind == S_STATE && row.src == c.parent) outer.insert(outer.begin(), { &row, nullptr, grand.id, true, true });
            }
        }
        auto addInternal = [&](const std::vector<IRow>& rows, int owner) {
            std::vector<Cand> v;
            for (auto& row : rows)
                if (row.ev == ev) v.insert(v.begin(), { nullptr, &row, owner, false, false });
            inner.insert(inner.end(), v.begin(), v.end());
        };
        addInternal(typeOf(c.state).internal, c.state);
        addInternal(parent.internal, c.parent);
        std::vector<Cand> all;
        for (auto* v : { &pseudo, &own, &inner, &outer }) all.insert(all.end(), v->begin(), v->end());
        return all;
    }

    int sourceOf(const Cand& cd, const Cfg& c) const { return cd.outer ? c.parent : c.state; }
    // state whose object is handed to guards and actions as target
    int targetOf(const Cand& cd, const Cfg& c) const
    {
        if (cd.irow) return c.state;
        auto& row = *cd.row;
        if (row.dstKind == D_STATE)
            return spec->states[row.dst].composite ? spec->states[row.dst].initials[0] : row.dst;
        if (row.dstKind == D_HISTORY) return spec->states[row.dstParent].initials[0];
        return row.dst;
    }

    Rec guardRec(const Cand& cd, const Cfg& c, int ev, std::uint32_t payload) const
    {
        Rec r;
        r.kind = GUARD;
        r.id = cd.row ? cd.row->guard : cd.irow->guard;
        r.ev = ev;
        r.payload = ev != kAnon && spec->hasPayload[ev] ? payload : 0;
        const_cast<Model*>(this)->setSrc(r, T(sourceOf(cd, c)));
        r.tgt = T(targetOf(cd, c));
        need(r.tgt);
        r.tval = val[r.tgt];
        const_cast<Model*>(this)->setDepsIn(r);
        return r;
    }

    void saveHistory()
    {
        for (int r = 0; r < active; r++) hist[cur[r].parent][r] = cur[r];
    }

    // tries the candidates of one region; 0 none, 1 all rejected, 2 fired
    int tryRegion(int region, int ev, std::uint32_t& payload, bool& left)
    {
        const Cfg from = cur[region];
        const auto cands = candidates(from, ev);
        if (cands.empty()) return 0;
        for (std::size_t i = 0; i < cands.size(); i++) {
            auto& cd = cands[i];
            const int g = cd.row ? cd.row->guard : cd.irow->guard;
            bool ok = true;
            if (g >= 0) {
                const auto rec = guardRec(cd, from, ev, payload);
                guardsRequired.push_back(rec);
                if (ctl.throwGuard == g) {
                    hit(F_GUARD_THROWN);
                    noteAllowed(cands, i, from, ev, payload);
                    throw Boom { -1 };
                }
                ok = Runtime::truth(ctl.mask, g, ev, ctl.anonLimit, nEffects);
                if (!ok) hit(F_GUARD_REJECT);
            }
            if (!ok) continue;
            if (i > 0) hit(F_GUARD_FALLTHROUGH);
            noteAllowed(cands, i, from, ev, payload);
            fire(cd, cands, region, from, ev, payload, left);
            return 2;
        }
        noteAllowed(cands, 0, from, ev, payload);
        return 1;
    }
    void noteAllowed(const std::vector<Cand>& cands, std::size_t from, const Cfg& c, int ev, std::uint32_t payload)
    {
        // a guard of a row behind the selected one may be evaluated, but nobody can rely on it
        (void)from;
        for (auto& cd : cands) {
            if ((cd.row ? cd.row->guard : cd.irow->guard) < 0) continue;
            if (!created[T(targetOf(cd, c))]) continue;
            guardsAllowed.push_back(guardRec(cd, c, ev, payload));
        }
    }

    void fire(const Cand& cd, const std::vector<Cand>& cands, int region, const Cfg& from, int ev,
        std::uint32_t& payload, bool& left)
    {
        hit(F_FIRED);
        if (armSetDep && spec->nDeps) { hit(F_SETDEP_FIRED); armSetDep = false; }
        if (armSet) { hit(F_SET_FIRED); armSet = false; }
        if (armMove) { hit(F_MOVE_FIRED); armMove = false; }
        if (armThrow) { hit(F_THROWN_THEN_FIRED); armThrow = false; }
        if (region > 0) hit(F_REGION1);
        const int next = targetOf(cd, from);
        const int src = T(sourceOf(cd, from)), tgt = T(next);
        if (shared[T(from.state)] > 1) hit(F_SHARED_TYPE);
        if (cd.irow) {
            hit(F_INTERNAL);
            if (cd.owner != from.state) hit(F_INTERNAL_COMPOSITE);
            altValid = false;
            for (int a : cd.irow->acts) call(ACTION, a, ev, src, tgt, false, &payload);
            if (cd.irow->acts.size() > 1) hit(F_CHAIN);
            return;
        }
        auto& row = *cd.row;
        if (cd.outer) hit(F_OUTER);
        else
            for (auto& o : cands)
                if (o.outer) { hit(F_INNER_OVER_OUTER); break; }
        if (row.srcKind == S_EXIT) hit(F_EXIT_PS);
        if (row.srcKind == S_DIRECT) hit(F_DIRECT_SRC);

        // where to
        altCur = cur;
        altActive = active;
        altHist = hist;
        altValid = true;
        saveHistory();
        const bool history = row.dstKind == D_HISTORY;
        const bool composite = row.dstKind != D_STATE || spec->states[row.dst].composite;
        const int dstParent = row.dstKind != D_STATE ? row.dstParent
            : spec->states[row.dst].composite ? row.dst : cd.owner;
        auto& dp = spec->states[dstParent];
        left = cd.leave && spec->states[from.parent].initials.size() > 1;
        const int slot = left ? 0 : region;
        const Cfg before0 = cur[0];
        cur[slot] = history ? hist[dstParent][slot] : Cfg { dstParent, next };
        if (composite && slot == 0 && spec->states[cd.owner].initials.size() == 1) {
            for (std::size_t r = 1; r < dp.initials.size(); r++) {
                cur[r] = history ? hist[dstParent][r] : Cfg { dstParent, dp.initials[r] };
                hit(F_ENTER_REGIONS);
            }
        }
        if (int(spec->states[cur[0].parent].initials.size()) < active && before0.parent != cur[0].parent && !left) hit(F_SUSPENDED);
        active = int(spec->states[cur[0].parent].initials.size());
        if (left) hit(F_LEAVE_REGIONS);
        if (composite) hit(F_ENTER_COMPOSITE);
        if (composite && dstParent == from.parent) hit(F_REENTER);
        if (row.dstKind == D_ENTRY) hit(F_ENTRY_PS);
        if (row.dstKind == D_DIRECT) hit(F_DIRECT_PS);
        if (history) {
            hit(F_HISTORY);
            if (cur[slot].state != dp.initials[slot < int(dp.initials.size()) ? slot : 0]) hit(F_HISTORY_NONINITIAL);
        }
        if (dp.parent > 0) hit(F_DEPTH2);
        if (row.srcKind == S_STATE && row.dstKind == D_STATE && row.src == row.dst) hit(F_SELF);

        // effects
        const bool holder = spec->states[tgt].ndc;
        int parts = 0;
        const int exitOwner = row.srcKind == S_STATE ? T(row.src) : row.srcKind == S_EXIT ? row.srcParent : -1;
        if (exitOwner >= 0 && spec->states[exitOwner].exit) {
            hit(F_EXIT_ACTION);
            parts++;
            call(EXIT, exitOwner, ev, src, tgt, holder, &payload);
        }
        if (row.actKind == A_PLAIN) {
            parts++;
            if (row.acts.size() > 1) hit(F_CHAIN);
            for (int a : row.acts) call(ACTION, a, ev, src, tgt, holder, &payload);
        } else if (row.actKind == A_CREATE) {
            Rec r;
            r.kind = FACTORY;
            r.id = row.acts[0];
            r.ev = ev;
            r.payload = ev != kAnon && spec->hasPayload[ev] ? payload : 0;
            setSrc(r, src);
            emit(r, src, -1, nullptr);
            hit(F_CREATE);
            if (created[tgt]) hit(F_RECREATE);
            created[tgt] = 1;
            val[tgt] = factoryVal(r);
        } else if (row.actKind == A_REUSE) {
            need(tgt);
            Rec r;
            r.kind = REUSE;
            r.id = row.acts[0];
            r.ev = ev;
            r.payload = ev != kAnon && spec->hasPayload[ev] ? payload : 0;
            setSrc(r, src);
            r.tgt = tgt;
            r.tval = val[tgt];
            emit(r, src, tgt, nullptr);
            hit(F_REUSE);
        } else if (spec->states[tgt].ndc) {
            hit(F_NOACTION_NDC);
        }
        if (row.dstKind == D_STATE) {
            if (typeOf(row.dst).entry) {
                hit(F_ENTRY_ACTION);
                parts++;
                call(ENTRY, T(row.dst), ev, src, tgt, holder, &payload);
            }
            if (spec->states[row.dst].composite && spec->states[tgt].entry) {
                hit(F_ENTRY_ACTION);
                parts++;
                call(ENTRY, tgt, ev, src, tgt, holder, &payload);
            }
        }
        if (parts >= 3) hit(F_ORDER3);
    }

    void call(Kind k, int id, int ev, int src, int tgt, bool holder, std::uint32_t* payload)
    {
        Rec r;
        r.kind = id == kLog ? LOGGED : k;
        r.id = id;
        r.ev = ev;
        if (id == kLog) {
            r.src = src;
            r.tgt = tgt;
            emit(r, -1, -1, nullptr);
            return;
        }
        r.payload = ev != kAnon && spec->hasPayload[ev] ? *payload : 0;
        setSrc(r, src);
        r.tgt = tgt;
        r.holder = holder;
        r.hasObj = created[tgt];
        if (!holder) need(tgt);
        r.tval = created[tgt] ? val[tgt] : 0;
        setDepsIn(r);
        emit(r, src, tgt, payload);
    }

    Result step(int ev, std::uint32_t& payload, bool& replayed)
    {
        for (int r = 0; r < active; r++) {
            auto& d = typeOf(cur[r].state).defers;
            if (std::find(d.begin(), d.end(), ev) != d.end()) {
                queue.push_back({ ev, payload });
                hit(replayed ? F_REDEFERRED : F_DEFERRED);
                return Deferred;
            }
        }
        int fired = 0, rejected = 0;
        bool left = false;
        const int n = active;
        for (int r = 0; r < n && !left; r++) {
            const int res = tryRegion(r, ev, payload, left);
            if (res == 2) fired++;
            if (res == 1) rejected++;
        }
        if (fired > 1) hit(F_TWO_REGIONS);
        if (!fired && !rejected) return Unhandled;
        if (!fired) {
            hit(F_ALL_GUARDS_FAILED);
            return Rejected;
        }
        completion();
        return Fired;
    }

    void completion()
    {
        int chain = 0;
        for (int rounds = 0;; rounds++) {
            if (rounds > 5000) throw Hang {};
            if (rounds == 20) hit(F_LONG_COMPLETION);
            bool any = false, left = false;
            const int n = active;
            for (int r = 0; r < n && !left; r++) {
                std::uint32_t none = 0;
                const int res = tryRegion(r, kAnon, none, left);
                // known finding KF1: a region without completion rows ends the scan
                if (res == 0) return;
                if (res == 2) {
                    any = true;
                    hit(F_ANON);
                    if (r > 0) hit(F_ANON_REGION1);
                    if (++chain == 2) hit(F_ANON_CHAIN);
                }
            }
            if (!any) return;
        }
    }

    void replay()
    {
        bool again = true;
        int handled = 0;
        replayFrom = int(effects.size());
        while (again) {
            again = false;
            for (auto n = queue.size(); n > 0; n--) {
                auto p = queue.front();
                queue.pop_front();
                bool replayed = true;
                const auto res = step(p.ev, p.payload, replayed);
                if (res == Fired) {
                    again = true;
                    hit(F_REPLAYED);
                    if (spec->hasPayload[p.ev]) hit(F_REPLAY_PAYLOAD);
                    if (++handled == 2) hit(F_REPLAY2);
                } else if (res != Deferred) {
                    hit(F_REPLAY_DROPPED);
                }
            }
        }
    }
};
}
