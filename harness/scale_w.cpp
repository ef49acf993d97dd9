#include "scale_w.hpp"
#ifndef G
#define G 0
#endif

namespace vf {

template<int I>
WOps wops() {
    WOps o{ [](registry& r, entity e, u32 v) { r.get_entity(e).template set<W<I>>(W<I>{ v }); },
        [](registry& r, entity e) { r.get_entity(e).template remove<W<I>>(); },
        [](const registry& r, entity e) { return r.get_entity(e).template has<W<I>>(); },
        [](const registry& r, entity e) { return r.get_entity(e).template get<W<I>>().v; }, nullptr };
    if constexpr (I % 5 == 0) { // views take long to compile
        o.collect = [](registry& r, std::vector<std::pair<u64, u32>>& out) {
            r.template view<const entity&, const W<I>&>().each([&](const entity& e, const W<I>& w) { out.emplace_back(key(e), w.v); });
        };
    }
    return o;
}
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void CAT(add_w_, G)(std::vector<WOps>& v) {
    constexpr int n = NW / W_GROUPS;
    [&]<int... J>(std::integer_sequence<int, J...>) { (v.push_back(wops<G * n + J>()), ...); }(std::make_integer_sequence<int, n>{});
}

} // namespace vf
