// Completion transition of the second region while the first region's state has none.
#include "hsm/hsm.h"
#include <cstdio>
struct go { };
struct A0 { }; struct A1 { }; struct B0 { }; struct B1 { }; struct B2 { };
struct Root {
    static constexpr auto make_transition_table()
    {
        return hsm::transition_table(
            * hsm::state<A0> + hsm::event<go> = hsm::state<A1>,
            * hsm::state<B0> + hsm::event<go> = hsm::state<B1>,
            hsm::state<B1> = hsm::state<B2>);
    }
};
int main()
{
    hsm::sm<Root> sm;
    sm.process_event(go {});
    // region 0 is in A1, which has no completion transition; region 1 has to be in B2
    if (!sm.is(0, hsm::state<Root>, hsm::state<A1>)) return 1;
    if (sm.is(1, hsm::state<Root>, hsm::state<B1>)) std::puts("PRESENT");
    else if (!sm.is(1, hsm::state<Root>, hsm::state<B2>)) return 1;
}
