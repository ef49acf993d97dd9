// Lots of further component types, so that component ids spread over several words of a bit set
#include "ops.hpp"
namespace vf {
u64 touch_dummies() {
    u64 s = 0;
    [&]<int... I>(std::integer_sequence<int, I...>) { ((s += co_ecs::component_id::value<Dummy<I>>), ...); }(
        std::make_integer_sequence<int, 90>{});
    return s;
}
} // namespace vf
