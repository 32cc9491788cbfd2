// The second region while the first one is in a sub machine with one region.
#include "hsm/hsm.h"
#include <cstdio>
struct go { }; struct e2 { }; struct in { };
struct A0 { }; struct B0 { }; struct B1 { }; struct L1 { }; struct L2 { };
struct Sub {
    static constexpr auto make_transition_table()
    {
        return hsm::transition_table(* hsm::state<L1> + hsm::event<in> = hsm::state<L2>);
    }
};
struct Root {
    static constexpr auto make_transition_table()
    {
        return hsm::transition_table(
            * hsm::state<A0> + hsm::event<go> = hsm::state<Sub>,
            * hsm::state<B0> + hsm::event<e2> = hsm::state<B1>);
    }
};
int main()
{
    hsm::sm<Root> sm;
    sm.process_event(go {});
    if (!sm.is(hsm::state<Sub>, hsm::state<L1>)) return 1;
    if (!sm.process_event(e2 {})) std::puts("PRESENT");
}
