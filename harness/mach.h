// Included by generated machines, after the hsm header under test.
#pragma once
#include "rt.h"
#include <cstring>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>

namespace vh {

// Factories get a copy of the source: alive tells whether the object it was copied from still exists
struct StateTracker {
    std::uint32_t magic = 0xC0FFEE11;
    std::shared_ptr<bool> alive = std::make_shared<bool>(true);
    bool copy = false;
    StateTracker() { counters.states++; }
    StateTracker(const StateTracker& o) : magic(o.magic), alive(o.alive), copy(true) { counters.states++; }
    StateTracker& operator=(const StateTracker&) = delete;
    ~StateTracker()
    {
        counters.states--;
        if (magic != 0xC0FFEE11) counters.badDestroy++;
        magic = 0xDEADDEAD;
        if (!copy) *alive = false;
    }
};
struct EventTracker {
    std::uint32_t magic = 0xE7E7E7E7;
    EventTracker() { counters.events++; }
    EventTracker(const EventTracker& o) { magic = o.magic; counters.events++; }
    EventTracker(EventTracker&& o) { magic = o.magic; counters.events++; }
    EventTracker& operator=(const EventTracker&) = default;
    ~EventTracker()
    {
        counters.events--;
        if (magic != 0xE7E7E7E7) counters.badDestroy++;
        magic = 0xDEADDEAD;
    }
};

// Objects that can be neither copied nor moved
struct Pinned {
    Pinned() = default;
    Pinned(const Pinned&) = delete;
    Pinned& operator=(const Pinned&) = delete;
};

template <int Id> struct St {
    static constexpr int sid = Id;
    std::uint32_t val = initVal(Id);
    StateTracker tracker;
};
// State that can only be built by a factory
template <int Id> struct StNdc {
    static constexpr int sid = Id;
    explicit StNdc(std::uint32_t v) : val(v) { }
    std::uint32_t val;
    StateTracker tracker;
};
template <int Id> struct EvPayload {
    static constexpr int eid = Id;
    explicit EvPayload(std::uint32_t v) : p(v) { }
    std::uint32_t p;
    EventTracker tracker;
};
template <int Id> struct EvEmpty {
    static constexpr int eid = Id;
};

template <class T, class = void> struct is_state : std::false_type { };
template <class T> struct is_state<T, std::void_t<decltype(T::sid)>> : std::true_type { };
template <class T, class = void> struct is_ev : std::false_type { };
template <class T> struct is_ev<T, std::void_t<decltype(T::eid)>> : std::true_type { };
template <class T, class = void> struct has_p : std::false_type { };
template <class T> struct has_p<T, std::void_t<decltype(std::declval<T&>().p)>> : std::true_type { };

template <class T, class = void> struct is_holder : std::false_type { };
template <class T> struct is_holder<T, std::void_t<decltype((**std::declval<T&>()).val)>> : std::true_type { };
// The library instantiates callbacks for pseudo states, too, but never calls them
template <class S, class T> constexpr bool real = is_state<S>::value && (is_state<T>::value || is_holder<T>::value);

template <class E> void readEvent(Rec& r, const E& e)
{
    if constexpr (is_ev<E>::value) {
        r.ev = E::eid;
        if constexpr (has_p<E>::value) {
            r.payload = e.p;
            if (e.tracker.magic != 0xE7E7E7E7) rt->corrupt = true;
        }
    } else {
        r.ev = kAnon;
    }
}
template <class S> void readSource(Rec& r, const S& s)
{
    r.src = S::sid;
    r.sval = s.val;
    if (s.tracker.magic != 0xC0FFEE11 || !*s.tracker.alive) rt->corrupt = true;
}
template <class T> void readTarget(Rec& r, const T& t)
{
    if constexpr (is_state<T>::value) {
        r.tgt = T::sid;
        r.tval = t.val;
        if (t.tracker.magic != 0xC0FFEE11) rt->corrupt = true;
    } else {
        using S = std::decay_t<decltype(**t)>;
        r.tgt = S::sid;
        r.holder = true;
        r.hasObj = bool(t) && bool(*t);
        if (r.hasObj) {
            r.tval = (**t).val;
            if ((**t).tracker.magic != 0xC0FFEE11) rt->corrupt = true;
        }
    }
}
template <class... D> void readDeps(Rec& r, const D&... deps)
{
    static_assert(sizeof...(D) <= 3);
    ((r.depId[r.nDeps] = deps.id, r.depVal[r.nDeps] = deps.val, r.nDeps++), ...);
}
template <class E, class S, class T, class... D>
void apply(const Mutation& m, E& e, S& s, T& t, D&... deps)
{
    if (m.s) {
        s.val = m.sval;
    }
    if (m.t) {
        if constexpr (is_state<T>::value) {
            t.val = m.tval;
        } else {
            (**t).val = m.tval;
        }
    }
    if constexpr (has_p<E>::value) {
        if (m.p) {
            e.p = m.payload;
        }
    } else {
        (void)e;
    }
    int i = 0;
    ((deps.val = m.depVal[i++]), ...);
    (void)i;
}
template <class E, class S, class T, class... D>
void effect(Kind k, int id, E& e, S& s, T& t, D&... deps)
{
    if constexpr (real<S, T>) {
        Metered pause(false);
        Rec r;
        r.kind = k;
        r.id = id;
        readEvent(r, e);
        readSource(r, s);
        readTarget(r, t);
        readDeps(r, deps...);
        rt->onEffect(r);
        apply(mutationOf(r), e, s, t, deps...);
    } else {
        rt->corrupt = true;
    }
}

template <class E, class S, class T, class... D> bool guard(int id, E& e, S& s, T& t, D&... deps)
{
    if constexpr (real<S, T>) {
        Metered pause(false);
        Rec r;
        r.kind = GUARD;
        r.id = id;
        readEvent(r, e);
        readSource(r, s);
        readTarget(r, t);
        readDeps(r, deps...);
        return rt->onGuard(r);
    } else {
        rt->corrupt = true;
        return false;
    }
}
// The callbacks come in three forms: without state; with a value and a type of their own (V); with
// a value and the type shared by all of them (X).
template <int Id> struct Grd {
    template <class E, class S, class T, class... D> auto operator()(E& e, S& s, T& t, D&... deps) const -> bool
    {
        return guard(Id, e, s, t, deps...);
    }
};
struct GrdX {
    int id;
    template <class E, class S, class T, class... D> auto operator()(E& e, S& s, T& t, D&... deps) const -> bool
    {
        return guard(id, e, s, t, deps...);
    }
};
template <int Id> struct GrdV : GrdX { };
template <int Id> struct Act {
    template <class E, class S, class T, class... D>
    void operator()(E& e, S& s, T& t, D&... deps) const { effect(ACTION, Id, e, s, t, deps...); }
};
template <int Id> struct Entry {
    template <class E, class S, class T, class... D>
    void operator()(E& e, S& s, T& t, D&... deps) const { effect(ENTRY, Id, e, s, t, deps...); }
};
template <int Id> struct Exit {
    template <class E, class S, class T, class... D>
    void operator()(E& e, S& s, T& t, D&... deps) const { effect(EXIT, Id, e, s, t, deps...); }
};
struct ActX {
    int id;
    template <class E, class S, class T, class... D>
    void operator()(E& e, S& s, T& t, D&... deps) const { effect(ACTION, id, e, s, t, deps...); }
};
template <int Id> struct ActV : ActX { };
struct EntryX {
    int id;
    template <class E, class S, class T, class... D>
    void operator()(E& e, S& s, T& t, D&... deps) const { effect(ENTRY, id, e, s, t, deps...); }
};
template <int Id> struct EntryV : EntryX { };
struct ExitX {
    int id;
    template <class E, class S, class T, class... D>
    void operator()(E& e, S& s, T& t, D&... deps) const { effect(EXIT, id, e, s, t, deps...); }
};
template <int Id> struct ExitV : ExitX { };
struct Unexp {
    template <class E, class S, class... D> void operator()(E& e, S& s, D&... deps) const
    {
        if constexpr (!is_state<S>::value) {
            // instantiated for pseudo states, which are never current
            rt->corrupt = true;
            (void)e;
            (void)s;
            ((void)deps, ...);
        } else {
            handle(e, s, deps...);
        }
    }
    template <class E, class S, class... D> void handle(E& e, S& s, D&... deps) const
    {
        Metered pause(false);
        Rec r;
        r.kind = UNEXP;
        readEvent(r, e);
        readSource(r, s);
        readDeps(r, deps...);
        rt->onEffect(r);
        apply(mutationOf(r), e, s, s, deps...);
    }
};
// for create_state
template <int Id, class Target> struct Fac {
    template <class E, class S> auto operator()(const E& e, const S& s) const
    {
        Metered pause(false);
        Rec r;
        r.kind = FACTORY;
        r.id = Id;
        readEvent(r, e);
        readSource(r, s);
        rt->onEffect(r);
        return std::make_unique<Target>(factoryVal(r));
    }
};
template <class Target> struct FacX {
    int id;
    template <class E, class S> auto operator()(const E& e, const S& s) const
    {
        Metered pause(false);
        Rec r;
        r.kind = FACTORY;
        r.id = id;
        readEvent(r, e);
        readSource(r, s);
        rt->onEffect(r);
        return std::make_unique<Target>(factoryVal(r));
    }
};
template <int Id, class Target> struct FacV : FacX<Target> { };
// for reuse_state
template <int Id> struct Reu {
    template <class E, class S, class T> void operator()(const E& e, const S& s, T& t) const
    {
        Metered pause(false);
        Rec r;
        r.kind = REUSE;
        r.id = Id;
        readEvent(r, e);
        readSource(r, s);
        readTarget(r, t);
        rt->onEffect(r);
        t.val = mutationOf(r).tval;
    }
};
struct ReuX {
    int id;
    template <class E, class S, class T> void operator()(const E& e, const S& s, T& t) const
    {
        Metered pause(false);
        Rec r;
        r.kind = REUSE;
        r.id = id;
        readEvent(r, e);
        readSource(r, s);
        readTarget(r, t);
        rt->onEffect(r);
        t.val = mutationOf(r).tval;
    }
};
template <int Id> struct ReuV : ReuX { };

// Shapes of user types
struct Virtual {
    virtual int kind() const { return 1; }
    virtual ~Virtual() = default;
};
// Operators nobody may use on objects of the user
struct Hostile {
    void operator&() const = delete;
    template <class T> void operator,(T&&) const = delete;
    bool operator!() const = delete;
};
template <class T> void operator,(T&&, const Hostile&) = delete;
template <class T> void operator+(const Hostile&, T&&) = delete;
template <class T> void operator/(const Hostile&, T&&) = delete;
template <class T> void operator==(const Hostile&, const T&) = delete;
template <class T> void operator<<(T&&, const Hostile&) = delete;

template <int Id, class E, class S, class T, class... D> bool callGrd(E& e, S& s, T& t, D&... d)
{
    return guard(Id, e, s, t, d...);
}
template <int Id, class E, class S, class T, class... D> void callAct(E& e, S& s, T& t, D&... d)
{
    effect(ACTION, Id, e, s, t, d...);
}
// Callbacks in other shapes, made from those above
template <class F> struct Int {
    template <class... A> int operator()(A&&... a) const { return F {}(a...) ? 256 : 0; }
};
struct BoolLike {
    bool b;
    operator bool() const { return b; }
    void operator&() const = delete;
    template <class T> void operator,(T&&) const = delete;
};
template <class F> struct Like {
    template <class... A> BoolLike operator()(A&&... a) const { return { bool(F {}(a...)) }; }
};
template <class F> struct Final final : Hostile {
    template <class... A> auto operator()(A&&... a) const { return F {}(a...); }
};
template <class F> struct alignas(64) Align {
    std::uint64_t canary = 0x0123456789ABCDEFull;
    template <class... A> auto operator()(A&&... a) const
    {
        if (reinterpret_cast<std::uintptr_t>(this) % 64 != 0 || canary != 0x0123456789ABCDEFull) rt->corrupt = true;
        return F {}(a...);
    }
};
template <class F> struct Ret {
    template <class... A> std::unique_ptr<int> operator()(A&&... a) const
    {
        F {}(a...);
        return std::make_unique<int>(1);
    }
};
template <class F> struct ReturnsHostile {
    template <class... A> ::vh::Hostile operator()(A&&... a) const
    {
        F {}(a...);
        return {};
    }
};

// Owns an sm in storage filled with a byte pattern beforehand, so that the result of reading a
// member that was never written depends on the pattern.
template <class Traits> struct Impl final : IMachine {
    using SM = typename Traits::SM;
    void* mem;
    SM* sm;

    static void* allocate(int pattern)
    {
        void* p = ::operator new(sizeof(SM), std::align_val_t(alignof(SM)));
        std::memset(p, pattern & 0xff, sizeof(SM));
        return p;
    }
    static SM* construct(void* mem, DepSet& deps)
    {
        try {
            return Traits::construct(mem, deps);
        } catch (...) {
            ::operator delete(mem, std::align_val_t(alignof(SM)));
            throw;
        }
    }
    Impl(DepSet& deps, int pattern) : mem(allocate(pattern)), sm(construct(mem, deps)) { }
    Impl(SM&& other, int pattern) : mem(allocate(pattern)), sm(nullptr)
    {
        if constexpr (std::is_move_constructible_v<SM>) {
            sm = new (mem) SM(std::move(other));
        } else {
            (void)other;
        }
    }
    ~Impl() override
    {
        if (sm) sm->~SM();
        std::memset(mem, 0xA5, sizeof(SM));
        ::operator delete(mem, std::align_val_t(alignof(SM)));
    }
    bool process(int ev, std::uint32_t& payload, bool temporary) override
    {
        return Traits::process(*sm, ev, payload, temporary);
    }
    void observe(std::vector<std::uint8_t>& out) override { Traits::observe(*sm, out); }
    void set(int index) override { Traits::set(*sm, index); }
    void setDeps(DepSet& deps) override { Traits::setDeps(*sm, deps); }
    std::unique_ptr<IMachine> moved(int pattern) override
    {
        if constexpr (std::is_move_constructible_v<SM>) {
            return std::make_unique<Impl>(std::move(*sm), pattern);
        } else {
            (void)pattern;
            return nullptr;
        }
    }
    std::string status() override { return sm->status(); }
};

template <class SM, class E>
bool deliver(SM& sm, std::uint32_t& payload, bool temporary)
{
    if constexpr (has_p<E>::value) {
        if (temporary) {
            return sm.process_event(E { payload });
        }
        E e { payload };
        struct WriteBack {
            E& e;
            std::uint32_t& p;
            ~WriteBack() { p = e.p; }
        } writeBack { e, payload };
        return sm.process_event(e);
    } else {
        if (temporary) {
            return sm.process_event(E {});
        }
        E e {};
        return sm.process_event(e);
    }
}
}
