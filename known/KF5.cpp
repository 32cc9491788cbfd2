// Entry action of the state that a direct transition enters.
#include "hsm/hsm.h"
#include <cstdio>
struct go { }; struct in { };
struct I { }; struct L2 { };
static int entered = 0;
struct L1 {
    static constexpr auto on_entry()
    {
        return [](auto&&...) { entered++; };
    }
};
struct Sub {
    static constexpr auto make_transition_table()
    {
        return hsm::transition_table(* hsm::state<L2> + hsm::event<in> = hsm::state<L1>, hsm::state<L1> + hsm::event<in> = hsm::state<L2>);
    }
};
struct Root {
    static constexpr auto make_transition_table()
    {
        return hsm::transition_table(* hsm::state<I> + hsm::event<go> = hsm::direct<Sub, L1>);
    }
};
int main()
{
    hsm::sm<Root> sm;
    sm.process_event(go {});
    if (!sm.is(hsm::state<Sub>, hsm::state<L1>)) return 1;
    if (entered == 0) std::puts("PRESENT");
}
