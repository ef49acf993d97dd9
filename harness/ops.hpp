// Type erased operations on registries, one table entry per component type and per fixed combination of types.
#pragma once
#include "types.hpp"

#include <ranges>

#include <co_ecs/co_ecs.hpp>
#include <co_ecs/command.hpp>
#include <co_ecs/view.hpp>

#include <functional>

namespace vf {

using co_ecs::entity;
using co_ecs::registry;

struct Seen {
    const void* addr = nullptr;
    u64 value = 0;
};

struct Row {
    bool has_entity = false;
    entity ent;
    std::vector<Seen> c; // one per component of the combination, in order
};

// Returns the value to write, called for each visited entry if writing is requested
using Writer = std::function<u64(u64 row)>;

struct TypeOps {
    int index;
    std::size_t size, align;
    bool tracked, copyable, throwing, from_u64;
    co_ecs::component_id_t (*id)();
    u64 (*canon)(u64);
    u64 (*read_ptr)(const void*);

    entity (*create)(registry&, u64);
    // mode 0 moved in value, 1 constructed in place from arguments, 2 const entity_ref chain with two sets of the type
    void (*set)(registry&, entity, u64, int mode);
    // the argument is a reference to the u64 stored in a component of src
    void (*set_alias_u64)(registry&, entity, entity src, bool goi);
    // copies the component of the same type from src, the argument is a reference to it
    void (*set_alias_same)(registry&, entity, entity src);
    void (*set_throw)(registry&, entity, bool goi);
    Seen (*get_or_insert)(registry&, entity, u64, int mode);
    void (*remove)(registry&, entity);
    bool (*has)(registry&, entity, int mode);
    Seen (*get)(registry&, entity, int mode);
    void (*write)(registry&, entity, u64);
    void (*cmd_set)(co_ecs::command_entity_ref&, u64, int mode);
    void (*cmd_remove)(co_ecs::command_entity_ref&);
    entity (*cmd_create)(co_ecs::command_writer&, u64);
    bool (*arch_has)(const co_ecs::archetype&);
};

constexpr int VIEW_MODES = 13;

struct ComboOps {
    std::vector<int> types;
    entity (*create)(registry&, const u64*);
    entity (*cmd_create)(co_ecs::command_writer&, const u64*);
    bool (*has)(registry&, entity, int mode);
    void (*get)(registry&, entity, int mode, std::vector<Seen>&);
    // returns false if the mode does not apply
    bool (*view)(registry&, int mode, std::vector<Row>&, const Writer*);
    // a view that stays around, to be iterated later
    std::function<void(std::vector<Row>&)> (*keep_view)(registry&, int mode);
};

std::vector<TypeOps>& type_ops();
std::vector<ComboOps>& combo_ops();

// --------------------------------------------------------------------------------------------------------------------

template<int I>
struct TypeAt;
#define VF_TYPE(I, ...)          \
    template<>                   \
    struct TypeAt<I> {           \
        using type = __VA_ARGS__; \
    };

VF_TYPE(0, Trk<0, 8, 8, F_COPY>)
VF_TYPE(1, Trk<1, 1, 1, F_COPY>)
VF_TYPE(2, Trk<2, 3, 1, F_COPY>)
VF_TYPE(3, Trk<3, 24, 8, F_COPY | F_SELF>)
VF_TYPE(4, Trk<4, 16, 16, F_COPY>)
VF_TYPE(5, Trk<5, 64, 32, F_COPY>)
VF_TYPE(6, Trk<6, 64, 64, F_COPY | F_HEAP>)
VF_TYPE(7, Trk<7, 1000, 8, F_COPY>)
VF_TYPE(8, Trk<8, 4000, 4, F_COPY>)
VF_TYPE(9, Trk<9, 9000, 8, F_COPY>)
VF_TYPE(10, Trk<10, 12, 4, 0>)
VF_TYPE(11, EmptyTrk<11>)
VF_TYPE(12, Tag)
VF_TYPE(13, Pod<13, std::uint32_t>)
VF_TYPE(14, Bytes<14, 7>)
VF_TYPE(15, Str)
VF_TYPE(16, UPtr)
VF_TYPE(17, SPtr)
VF_TYPE(18, Trk<18, 40, 8, F_COPY | F_THROW>)
VF_TYPE(19, Trk<19, 128, 128, F_COPY>)
VF_TYPE(20, Trk<20, 5, 1, F_COPY | F_THROW>)
VF_TYPE(21, Poly)
VF_TYPE(22, Trk<22, 7400, 8, F_COPY>)
VF_TYPE(23, Trk<23, 256, 256, F_COPY | F_HEAP>)
VF_TYPE(24, Trk<24, 2, 2, F_COPY>)
VF_TYPE(25, Trk<25, 48, 16, F_SELF>)
VF_TYPE(26, Trk<26, 4096, 4096, F_COPY>)
VF_TYPE(27, Trk<27, 16, 8, F_HEAP>)
VF_TYPE(28, Pod<28, u64>)
VF_TYPE(29, Bytes<29, 16376>)
VF_TYPE(30, Trk<30, 17000, 8, F_COPY>)
VF_TYPE(31, Bytes<31, 500>)

VF_TYPE(32, SelfTriv)
VF_TYPE(33, MoveOnly)
VF_TYPE(34, Listy)
VF_TYPE(35, Greedy)
VF_TYPE(36, Oddball)
VF_TYPE(37, Agg)
VF_TYPE(38, NoCopyAssign)
VF_TYPE(39, Derived)

constexpr int NTYPES = 40;
constexpr int T_U64 = 28;

template<int I>
using type_at = typename TypeAt<I>::type;

} // namespace vf
