// One part (translation unit) of a program made of several binaries. PART: its number; HOST: it belongs to the host library.
#ifdef HOST
#define CO_ECS_HOST
#else
#define CO_ECS_CLIENT
#endif
#include "ident_types.hpp"

namespace {

using namespace idt;

constexpr int next_known(int t) {
    for (int k = 1; k < N; k++) {
        if (knows(PART, (t + k) % N) && is_full((t + k) % N)) return (t + k) % N;
    }
    return t;
}

template<int T>
using At = std::tuple_element_t<std::size_t(T), Types>;

template<typename F>
bool guarded(F&& f) {
    try {
        f();
        return true;
    } catch (const std::exception&) {
        return false;
    }
}

template<int T>
struct Ops {
    using C = At<T>;
    static constexpr int NEXT = next_known(T);
    using C2 = At<NEXT>;

    static component_id_t id() {
        return co_ecs::component_meta::of<C>().id;
    }
    static component_id_t value() {
        return co_ecs::component_id::value<C>;
    }
    static bool in_set(const co_ecs::component_set& s) {
        return s.contains<C>();
    }
    static void to_set(co_ecs::component_set& s) {
        s.insert<C>();
    }
    static entity create(registry& r, u64 v) {
        return r.create<C>(C(v));
    }
    static bool set(registry& r, entity e, u64 v) {
        return guarded([&] { r.get_entity(e).set<C>(C(v)); });
    }
    static bool get(const registry& r, entity e, u64* v) {
        auto ref = r.get_entity(e);
        if (!ref.template has<C>()) return false;
        *v = ref.template get<C>().get();
        return true;
    }
    static bool remove(registry& r, entity e) {
        auto ref = r.get_entity(e);
        if (!ref.template has<C>()) return false;
        ref.template remove<C>();
        return true;
    }
    static void sum(registry& r, u64* n, u64* s) {
        auto one = [&](const entity& e, C& c) {
            ++*n;
            *s += mix(c.get() ^ mix(e.id()));
        };
        if constexpr (T % 6 == 0) {
            for (auto [e, c] : r.view<const entity&, C&>().each()) one(e, c);
        } else {
            r.view<const entity&, C&>().each(one);
        }
    }
    static void const_sum(const registry& r, u64* n, u64* s) {
        r.each([&](const C& c, const entity& e) {
            ++*n;
            *s += mix(c.get() ^ mix(e.id()));
        });
    }
    static void add(registry& r, u64 d) {
        r.each([&](C& c) { c = C(c.get() + d); });
    }
    static void cmd_create(registry& r, u64 v) {
        command_writer(r).create<C>(C(v));
    }
    static void cmd_set(registry& r, entity e, u64 v) {
        if constexpr (std::is_copy_constructible_v<C>) command_writer(r).get_entity(e).template set<C>(C(v));
        else command_writer(r).get_entity(e).template set<C>(C(v));
    }
    static entity create2(registry& r, u64 v, u64 w) {
        return r.create<C, C2>(C(v), C2(w));
    }
    static void sum2(registry& r, u64* n, u64* s, u64* s2) {
        r.view<const C2&, const entity&, C&>().each([&](const C2& c2, const entity& e, C& c) {
            ++*n;
            *s += mix(c.get() ^ mix(e.id()));
            *s2 += mix(c2.get() ^ mix(e.id()));
        });
    }
    static constexpr TypeOps ops() {
        if constexpr (knows(PART, T) && !is_full(T)) {
            return { &id, &value, &in_set, &to_set };
        } else if constexpr (knows(PART, T)) {
            return { &id, &value, &in_set, &to_set, &create, &set, &get, &remove, &sum, &const_sum, &add, &cmd_create, &cmd_set, NEXT, &create2, &sum2 };
        } else {
            return {};
        }
    }
};

template<int I>
component_id_t many_id() {
    return co_ecs::component_id::value<Many<I>>;
}
template<int I>
constexpr auto many_op() -> component_id_t (*)() {
    if constexpr (knows_many(PART, I)) return &many_id<I>;
    else return nullptr;
}

registry* make() {
    return new registry;
}
void free_registry(registry* r) {
    delete r;
}
bool destroy(registry& r, entity e) {
    return guarded([&] { r.get_entity(e).destroy(); });
}
int clone(registry& r, entity e, entity* out) {
    return guarded([&] { *out = r.get_entity(e).clone(); }) ? 0 : 1;
}
int move(registry& r, entity e, registry& to, entity* out) {
    return guarded([&] { *out = r.get_entity(e).move(to); }) ? 0 : 1;
}
std::size_t size(const registry& r) {
    return r.size();
}
bool alive(const registry& r, entity e) {
    return r.alive(e);
}
void flush(registry& r) {
    co_ecs::command_buffer::flush(r);
}

constinit Early early_state{};
Early* early() {
    return &early_state;
}

// component ids in an order of the part's own
template<int... I>
constexpr Api make_api(std::integer_sequence<int, I...>) {
    Api a{};
    a.part = PART;
    constexpr int S = (PART * 2 + 5) % N;
    ((a.ops[(I * (S | 1)) % N] = Ops<(I * (S | 1)) % N>::ops()), ...);
    a.make = &make;
    a.free = &free_registry;
    a.destroy = &destroy;
    a.clone = &clone;
    a.move = &move;
    a.size = &size;
    a.alive = &alive;
    a.flush = &flush;
    a.early = &early;
    return a;
}
template<int... I>
constexpr void add_many(Api& a, std::integer_sequence<int, I...>) {
    ((a.many[I] = many_op<I>()), ...);
}
constexpr Api whole() {
    Api a = make_api(std::make_integer_sequence<int, N>{});
    add_many(a, std::make_integer_sequence<int, MANY>{});
    return a;
}
constinit const Api api = whole();

#define CAT(a, b) a##b
#define NAME(k) CAT(ident_api_, k)

// initialisation of this part uses registries, through this and through other parts that need not be initialised yet
struct Init {
    Init() {
        auto& s = early_state;
        s.reg = new registry;
        const Api* all[] = { &api,
#define FRIEND(k) NAME(k)(),
            FRIENDS
#undef FRIEND
        };
        u64 n = PART * 1000;
        for (auto* a : all) {
            for (int i = 0; i < N; i++) {
                int t = (i * 7 + PART) % N;
                if (!a->ops[t].id) continue;
                s.ids.emplace_back(t, a->ops[t].id());
                if (!a->ops[t].create) continue;
                n++;
                s.expect.emplace_back(a->ops[t].create(*s.reg, n), t, n);
                if (n % 3 == 1) { // a component that comes and goes
                    auto e = std::get<0>(s.expect.back());
                    int o = a->ops[t].next;
                    if (!a->ops[o].set(*s.reg, e, n + 5) || !a->ops[o].remove(*s.reg, e)) s.failed = true;
                }
                if (n % 3 == 0) {
                    auto e = a->ops[t].create2(*s.reg, n, n + 1);
                    s.expect.emplace_back(e, t, n);
                    s.expect.emplace_back(e, a->ops[t].next, n + 1);
                }
            }
        }
        s.done = true;
    }
} init;

} // namespace

extern "C" ID_API const Api* NAME(PART)() {
    return &api;
}
