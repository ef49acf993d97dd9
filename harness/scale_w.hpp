// Many component types for the size monitor
#pragma once
#include "vf.hpp"
#include <co_ecs/co_ecs.hpp>

namespace vf {

using u32 = std::uint32_t;
using co_ecs::entity;
using co_ecs::registry;

inline u64 key(entity e) {
    return u64(e.id()) << 32 | e.generation();
}

template<int I>
struct W {
    u32 v;
};
constexpr int NW = 160, W_GROUPS = 4;

struct WOps {
    void (*set)(registry&, entity, u32);
    void (*remove)(registry&, entity);
    bool (*has)(const registry&, entity);
    u32 (*get)(const registry&, entity);
    void (*collect)(registry&, std::vector<std::pair<u64, u32>>&);
};
void add_w_0(std::vector<WOps>&);
void add_w_1(std::vector<WOps>&);
void add_w_2(std::vector<WOps>&);
void add_w_3(std::vector<WOps>&);

} // namespace vf
