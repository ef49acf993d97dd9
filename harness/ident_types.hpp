// Component types and the interface of the parts of a program made of several binaries (C19).
#pragma once
#include <co_ecs/co_ecs.hpp>

#include <cstdint>
#include <memory>
#include <string>
#include <tuple>
#include <vector>

#define ID_API __attribute__((visibility("default")))

namespace idt {

using u64 = std::uint64_t;

constexpr u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

// the kinds of content
struct Plain {
    u64 x;
    explicit Plain(u64 v) : x(v) {
    }
    u64 get() const {
        return x;
    }
};
struct alignas(64) Wide {
    u64 x, y;
    explicit Wide(u64 v) : x(v), y(~v) {
    }
    u64 get() const {
        return x == ~y && reinterpret_cast<std::uintptr_t>(this) % 64 == 0 ? x : 0xbad;
    }
};
struct Text {
    std::string s;
    explicit Text(u64 v) : s("a text that does not fit into the object " + std::to_string(v)) {
    }
    u64 get() const {
        return std::stoull(s.substr(41));
    }
};
struct Owner {
    std::unique_ptr<u64> p;
    explicit Owner(u64 v) : p(new u64(v)) {
    }
    u64 get() const {
        return p ? *p : 0xdead;
    }
};

// distinct types with names that are easily mixed up
#define ID_TYPE(name, base) \
    struct name : base {    \
        using base::base;   \
    }
ID_TYPE(P, Plain);
ID_TYPE(Q, Text);
ID_TYPE(P1, Plain);
ID_TYPE(P11, Wide);
namespace na {
ID_TYPE(P, Plain);
ID_TYPE(Q, Owner);
namespace nb {
ID_TYPE(P, Text);
ID_TYPE(Q, Plain);
} // namespace nb
} // namespace na
namespace nb {
ID_TYPE(P, Wide);
ID_TYPE(Q, Text);
} // namespace nb
struct Outer {
    ID_TYPE(P, Plain);
    ID_TYPE(Q, Text);
};
template<typename T, typename B = Plain>
struct Box : B {
    using B::B;
};
enum class E1 { a, b };
enum class E2 { a, b };
template<auto V, typename B = Plain>
struct Val : B {
    using B::B;
};
template<int I, typename B = Plain>
struct Num : B {
    using B::B;
};
template<typename... T>
struct Pack : Plain {
    using Plain::Plain;
};

namespace a_namespace_with_a_long_name_that_takes_some_space::and_another_one_inside_of_it_that_is_not_short_either {
ID_TYPE(component_with_a_long_name_a, Plain);
ID_TYPE(component_with_a_long_name_b, Text);
} // namespace a_namespace_with_a_long_name_that_takes_some_space::and_another_one_inside_of_it_that_is_not_short_either
namespace lng = a_namespace_with_a_long_name_that_takes_some_space::and_another_one_inside_of_it_that_is_not_short_either;
namespace b_namespace_with_a_long_name_that_takes_some_space::and_another_one_inside_of_it_that_is_not_short_either {
ID_TYPE(component_with_a_long_name_a, Wide);
} // namespace b_namespace_with_a_long_name_that_takes_some_space::and_another_one_inside_of_it_that_is_not_short_either

using Types = std::tuple<P, na::P, nb::P, na::nb::P, Q, na::Q, nb::Q, na::nb::Q, Outer::P, Outer::Q, P1, P11, Box<P>, Box<na::P>, Box<Box<P>>,
    Box<int>, Box<int*>, Box<const int*>, Val<E1::a>, Val<E2::a>, Val<E1::b, Text>, Num<1>, Num<11, Owner>, Num<-1>, Num<111, Wide>, Pack<>, Pack<P>,
    Pack<P, P>, Pack<Pack<P>, P>, Box<char, Text>, Box<signed char>, Box<unsigned char>,
    Pack<P, Q>, Pack<P, Q, P>, Pack<Box<P>, Q>, Pack<Box<P>, P1>, lng::component_with_a_long_name_a, lng::component_with_a_long_name_b,
    b_namespace_with_a_long_name_that_takes_some_space::and_another_one_inside_of_it_that_is_not_short_either::component_with_a_long_name_a,
    Pack<lng::component_with_a_long_name_a, P>, Pack<lng::component_with_a_long_name_a, Q>, Pack<int, long>, Pack<long, int>>;
constexpr int N = int(std::tuple_size_v<Types>);
constexpr int MANY = 1200;
template<int I>
struct Many {
    u64 x;
};

constexpr int PARTS = 10;
// which part knows which types; every type is known by several of them
constexpr bool knows(int part, int t) {
    return mix(u64(part) * 131 + u64(t)) % 10 < 6;
}
// the ids of all types are compared, some of them is used as components
constexpr bool is_full(int t) {
    return t % 5 == 1 || t == 0;
}
constexpr bool knows_many(int part, int i) {
    return mix(u64(part) * 977 + u64(i) + 5555) % 100 < 8;
}

using co_ecs::command_writer;
using co_ecs::component_id_t;
using co_ecs::entity;
using co_ecs::registry;

struct TypeOps {
    component_id_t (*id)();       // as the library uses it
    component_id_t (*value)();    // the public variable
    bool (*in_set)(const co_ecs::component_set&);
    void (*to_set)(co_ecs::component_set&);
    entity (*create)(registry&, u64);
    bool (*set)(registry&, entity, u64);
    bool (*get)(const registry&, entity, u64*);
    bool (*remove)(registry&, entity);
    void (*sum)(registry&, u64* n, u64* sum);
    void (*const_sum)(const registry&, u64* n, u64* sum);
    void (*add)(registry&, u64); // to every value, through a mutable view
    void (*cmd_create)(registry&, u64);
    void (*cmd_set)(registry&, entity, u64);
    // together with the next type the part knows
    int next;
    entity (*create2)(registry&, u64, u64);
    void (*sum2)(registry&, u64* n, u64* sum, u64* sum_next);
};

struct Early { // what happened while the part was initialised
    registry* reg;
    std::vector<std::tuple<entity, int, u64>> expect;
    std::vector<std::pair<int, component_id_t>> ids;
    bool done;
    bool failed;
};

struct Api {
    int part;
    TypeOps ops[N];
    component_id_t (*many[MANY])();
    registry* (*make)();
    void (*free)(registry*);
    bool (*destroy)(registry&, entity);
    int (*clone)(registry&, entity, entity*);           // 0 done, 1 failed
    int (*move)(registry&, entity, registry&, entity*); // 0 done, 1 failed
    std::size_t (*size)(const registry&);
    bool (*alive)(const registry&, entity);
    void (*flush)(registry&);
    Early* (*early)();
};

} // namespace idt

#define ID_DECLARE(k) extern "C" ID_API const idt::Api* ident_api_##k();
ID_DECLARE(0)
ID_DECLARE(1)
ID_DECLARE(2)
ID_DECLARE(3)
ID_DECLARE(4)
ID_DECLARE(5)
ID_DECLARE(6)
ID_DECLARE(7)
ID_DECLARE(8)
ID_DECLARE(9)
