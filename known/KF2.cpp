// Two internal transitions whose guard and action have the same types but different values.
#include "hsm/hsm.h"
#include <cstdio>
struct e1 { };
struct A0 { }; struct A1 { };
struct Guard {
    bool value;
    template <class... T> constexpr bool operator()(T&&...) const { return value; }
};
static int last = 0;
struct Action {
    int id;
    template <class... T> constexpr void operator()(T&&...) const { last = id; }
};
struct Root {
    static constexpr auto make_transition_table()
    {
        return hsm::transition_table(* hsm::state<A0> + hsm::event<int> = hsm::state<A1>);
    }
    static constexpr auto make_internal_transition_table()
    {
        return hsm::transition_table(
            + (hsm::event<e1> [Guard { true }] / Action { 1 }),
            + (hsm::event<e1> [Guard { true }] / Action { 2 }));
    }
};
int main()
{
    hsm::sm<Root> sm;
    sm.process_event(e1 {});
    // the row declared last has priority
    if (last == 1) std::puts("PRESENT");
    else if (last != 2) return 1;
}
