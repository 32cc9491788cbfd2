// A row of a composite state while the machine is two levels below it.
#include "hsm/hsm.h"
#include <cstdio>
struct go { }; struct stop { }; struct in { };
struct I { }; struct O { }; struct L1 { }; struct L2 { }; struct M1 { };
struct Inner {
    static constexpr auto make_transition_table()
    {
        return hsm::transition_table(* hsm::state<L1> + hsm::event<in> = hsm::state<L2>);
    }
};
struct Outer {
    static constexpr auto make_transition_table()
    {
        return hsm::transition_table(* hsm::state<M1> + hsm::event<go> = hsm::state<Inner>);
    }
};
struct Root {
    static constexpr auto make_transition_table()
    {
        return hsm::transition_table(
            * hsm::state<I> + hsm::event<go> = hsm::state<Outer>,
            hsm::state<Outer> + hsm::event<stop> = hsm::state<O>);
    }
};
int main()
{
    hsm::sm<Root> sm;
    sm.process_event(go {});
    sm.process_event(go {});
    const bool handled = sm.process_event(stop {});
    if (!handled) std::puts("PRESENT");
    else if (!sm.is(hsm::state<O>)) return 1;
}
