// Guard of a transition whose target was not created yet and has no default constructor.
#include "hsm/hsm.h"
#include <cstdio>
#include <memory>
#include <cstdint>
struct go { };
struct A { };
struct B { explicit B(int x) : v(x) { } int v; };
static bool null_reference = false, seen = false;
struct Root {
    static constexpr auto make_transition_table()
    {
        constexpr auto guard = [](auto&, auto&, auto& target) {
            seen = true;
            volatile std::uintptr_t p = reinterpret_cast<std::uintptr_t>(&target);
            null_reference = p == 0;
            return false;
        };
        return hsm::transition_table(
            * hsm::state<A> + hsm::event<go> [guard] / hsm::create_state([](auto&...) { return std::make_unique<B>(1); }) = hsm::state<B>);
    }
};
int main()
{
    hsm::sm<Root> sm;
    sm.process_event(go {});
    if (seen && null_reference) std::puts("PRESENT");
}
