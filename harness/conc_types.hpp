// Components for the concurrent monitors, reached by index.
#pragma once
#include <co_ecs/co_ecs.hpp>

namespace vf {

constexpr int NC = 8;

inline long live_components = 0; // instances of the counting component types

template<int I>
struct Comp;

// Component ids spread over several words of a bit set
template<int I>
struct Filler {};
template<int... I>
co_ecs::component_id_t touch(std::integer_sequence<int, I...>, int from) {
    co_ecs::component_id_t s = 0;
    ((I >= from ? s += co_ecs::component_id::get<Filler<I>>() : 0), ...);
    return s;
}
static const auto touched = touch(std::make_integer_sequence<int, 3>{}, 0) + co_ecs::component_id::get<Comp<6>>() + co_ecs::component_id::get<Comp<3>>()
                            + co_ecs::component_id::get<Comp<1>>() + touch(std::make_integer_sequence<int, 62>{}, 3) + co_ecs::component_id::get<Comp<0>>()
                            + co_ecs::component_id::get<Comp<7>>() + touch(std::make_integer_sequence<int, 126>{}, 62);

template<>
struct Comp<0> {
    u64 v;
    u64 val() const {
        return v;
    }
    void put(u64 x) {
        v = x;
    }
};

// owns memory, copyable or not
template<bool Copyable>
struct Owning {
    u64* p;
    explicit Owning(u64 v) : p(new u64(v)) {
        __atomic_fetch_add(&live_components, 1, __ATOMIC_RELAXED);
    }
    Owning(const Owning& o)
        requires(Copyable)
        : p(o.p ? new u64(*o.p) : nullptr) {
        __atomic_fetch_add(&live_components, 1, __ATOMIC_RELAXED);
    }
    Owning(Owning&& o) noexcept : p(o.p) {
        o.p = nullptr;
        __atomic_fetch_add(&live_components, 1, __ATOMIC_RELAXED);
    }
    Owning& operator=(const Owning& o)
        requires(Copyable)
    {
        if (this != &o) {
            delete p;
            p = o.p ? new u64(*o.p) : nullptr;
        }
        return *this;
    }
    Owning& operator=(Owning&& o) noexcept {
        if (this != &o) {
            delete p;
            p = o.p;
            o.p = nullptr;
        }
        return *this;
    }
    ~Owning() {
        delete p;
        __atomic_fetch_sub(&live_components, 1, __ATOMIC_RELAXED);
    }
    u64 val() const {
        return p ? *p : ~0ull;
    }
    void put(u64 x) {
        if (p) *p = x;
    }
};

template<>
struct Comp<1> : Owning<true> {
    using Owning<true>::Owning;
};
template<>
struct Comp<2> : Owning<false> {
    using Owning<false>::Owning;
};

template<>
struct alignas(64) Comp<3> {
    u64 v;
    u64 pad[9];
    u64 inv;
    explicit Comp(u64 x) : v(x), inv(~x) {
    }
    u64 val() const {
        return v == ~inv ? v : ~0ull;
    }
    void put(u64 x) {
        v = x;
        inv = ~x;
    }
};

template<>
struct Comp<4> {
    Comp() = default;
    explicit Comp(u64) {
    }
    u64 val() const {
        return 0;
    }
    void put(u64) {
    }
};

template<>
struct Comp<5> {
    u64 v;
    unsigned char fill[2400];
    u64 inv;
    explicit Comp(u64 x) : v(x), inv(~x) {
    }
    u64 val() const {
        return v == ~inv ? v : ~0ull;
    }
    void put(u64 x) {
        v = x;
        inv = ~x;
    }
};

template<>
struct Comp<6> {
    std::uint32_t v;
    explicit Comp(u64 x) : v(std::uint32_t(x)) {
    }
    u64 val() const {
        return v;
    }
    void put(u64 x) {
        v = std::uint32_t(x);
    }
};

template<>
struct Comp<7> {
    u64 v;
    explicit Comp(u64 x) : v(x) {
        __atomic_fetch_add(&live_components, 1, __ATOMIC_RELAXED);
    }
    Comp(const Comp& o) : v(o.v) {
        __atomic_fetch_add(&live_components, 1, __ATOMIC_RELAXED);
    }
    Comp(Comp&& o) noexcept : v(o.v) {
        o.v = ~0ull;
        __atomic_fetch_add(&live_components, 1, __ATOMIC_RELAXED);
    }
    Comp& operator=(const Comp& o) = default;
    Comp& operator=(Comp&& o) noexcept {
        if (this != &o) {
            v = o.v;
            o.v = ~0ull;
        }
        return *this;
    }
    ~Comp() {
        __atomic_fetch_sub(&live_components, 1, __ATOMIC_RELAXED);
    }
    u64 val() const {
        return v;
    }
    void put(u64 x) {
        v = x;
    }
};

constexpr bool counting(int c) {
    return c == 1 || c == 2 || c == 7;
}

template<typename F>
decltype(auto) with(int i, F&& f) {
    switch (i) {
    case 0: return f.template operator()<0>();
    case 1: return f.template operator()<1>();
    case 2: return f.template operator()<2>();
    case 3: return f.template operator()<3>();
    case 4: return f.template operator()<4>();
    case 5: return f.template operator()<5>();
    case 6: return f.template operator()<6>();
    default: return f.template operator()<7>();
    }
}

// the value a component keeps of x
inline u64 kept(int c, u64 x) {
    return c == 4 ? 0 : c == 6 ? u64(std::uint32_t(x)) : x;
}

template<int... I>
struct L {};

using Combos = std::tuple<L<>, L<0>, L<1>, L<2>, L<0, 1>, L<3, 4>, L<0, 5>, L<4>, L<1, 2, 3>, L<6, 7>, L<0, 1, 3, 6>, L<7, 0>>;
constexpr int NCOMBOS = int(std::tuple_size_v<Combos>);

using Ent = std::map<int, u64>; // component -> value

inline u64 key(co_ecs::entity e) {
    return (u64(e.id()) << 32) | e.generation();
}
inline co_ecs::entity unkey(u64 k) {
    return co_ecs::entity{ std::uint32_t(k >> 32), std::uint32_t(k) };
}

// creates through a registry or a command writer
template<typename Target>
co_ecs::entity create_combo(Target& t, int combo, Rng& r, Ent& model) {
    co_ecs::entity result;
    auto one = [&]<int... I>(L<I...>) {
        std::array<u64, sizeof...(I) + 1> vals{};
        int k = 0;
        ((vals[k] = r.next() >> 1, model[I] = kept(I, vals[k]), k++), ...);
        k = 0;
        // evaluated left to right because of the braces
        std::tuple<Comp<I>...> args{ Comp<I>{ vals[k++] }... };
        result = std::apply([&](auto&&... a) -> co_ecs::entity { return t.template create<Comp<I>...>(std::move(a)...); }, args);
    };
    [&]<std::size_t... K>(std::index_sequence<K...>) {
        ((int(K) == combo ? (one(std::tuple_element_t<K, Combos>{}), 0) : 0), ...);
    }(std::make_index_sequence<std::size_t(NCOMBOS)>{});
    return result;
}

// empty if e has exactly the components and values of m (all components, const access)
inline std::string differs(const co_ecs::registry& reg, co_ecs::entity e, const Ent& m) {
    if (!reg.alive(e)) return "is not alive";
    auto ref = reg.get_entity(e);
    std::string bad;
    for (int c = 0; c < NC; c++) {
        with(c, [&]<int I>() {
            bool want = m.contains(I);
            if (ref.template has<Comp<I>>() != want) {
                bad = fmt("%s component %d", want ? "lacks" : "has", I);
            } else if (want) {
                u64 got = ref.template get<Comp<I>>().val();
                if (got != m.at(I)) bad = fmt("has %llx in component %d, not %llx", (unsigned long long)got, I, (unsigned long long)m.at(I));
            }
        });
        if (!bad.empty()) break;
    }
    return bad;
}

} // namespace vf
