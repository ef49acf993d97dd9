#pragma once
#include "ops.hpp"

namespace vf {

template<int I>
TypeOps make_type_ops() {
    using T = type_at<I>;
    using Tr = Traits<T>;
    TypeOps o{};
    o.index = I;
    o.size = sizeof(T);
    o.align = alignof(T);
    o.tracked = Tr::tracked;
    o.copyable = Tr::copyable;
    o.throwing = Tr::throwing;
    o.from_u64 = Tr::from_u64;
    o.id = [] { return co_ecs::component_id::value<T>; };
    o.canon = [](u64 v) { return Tr::canon(v); };
    o.read_ptr = [](const void* p) { return Tr::read(*static_cast<const T*>(p)); };
    o.create = [](registry& r, u64 v) -> entity { return r.template create<T>(Tr::make(v)); };
    o.set = [](registry& r, entity e, u64 v, int mode) {
        if constexpr (Tr::from_u64) {
            if (mode == 1) {
                r.get_entity(e).template set<T>(v);
                return;
            }
        }
        if (mode == 2) {
            r.get_entity(e).template set<T>(Tr::make(v + 1)).template set<T>(Tr::make(v));
            return;
        }
        r.get_entity(e).template set<T>(Tr::make(v));
    };
    o.set_alias_u64 = [](registry& r, entity e, entity src, bool goi) {
        if constexpr (Tr::from_u64) {
            const u64& arg = r.get_entity(src).template get<type_at<T_U64>>().v;
            if (goi) {
                (void)r.get_entity(e).template get_or_insert<T>(arg);
            } else {
                r.get_entity(e).template set<T>(arg);
            }
        }
    };
    o.set_alias_same = [](registry& r, entity e, entity src) {
        if constexpr (Tr::copyable) {
            const T& arg = r.get_entity(src).template get<T>();
            r.get_entity(e).template set<T>(arg);
        }
    };
    o.set_throw = [](registry& r, entity e, bool goi) {
        if constexpr (Tr::tracked) {
            if (goi) {
                (void)r.get_entity(e).template get_or_insert<T>(ThrowArg{ 1 });
            } else {
                r.get_entity(e).template set<T>(ThrowArg{ 1 });
            }
        }
    };
    o.get_or_insert = [](registry& r, entity e, u64 v, int mode) -> Seen {
        if constexpr (Tr::from_u64) {
            if (mode == 1) {
                auto& c = r.get_entity(e).template get_or_insert<T>(v);
                return { std::addressof(c), Tr::read(c) };
            }
        }
        auto& c = r.get_entity(e).template get_or_insert<T>(Tr::make(v));
        return { std::addressof(c), Tr::read(c) };
    };
    o.remove = [](registry& r, entity e) { r.get_entity(e).template remove<T>(); };
    o.has = [](registry& r, entity e, int mode) {
        const registry& cr = r;
        return mode == 0   ? r.get_entity(e).template has<T>()
               : mode == 1 ? cr.get_entity(e).template has<T>()
                           : cr.template has<T>(e);
    };
    o.get = [](registry& r, entity e, int mode) -> Seen {
        const registry& cr = r;
        if (mode == 0) {
            auto& c = r.get_entity(e).template get<T>();
            return { std::addressof(c), Tr::read(c) };
        }
        if (mode == 1) {
            const auto ref = r.get_entity(e);
            const T& c = ref.template get<T>();
            return { std::addressof(c), Tr::read(c) };
        }
        const T& c = cr.get_entity(e).template get<T>();
        return { std::addressof(c), Tr::read(c) };
    };
    o.write = [](registry& r, entity e, u64 v) { r.get_entity(e).template get<T>() = Tr::make(v); };
    o.cmd_set = [](co_ecs::command_entity_ref& c, u64 v, int mode) {
        if constexpr (Tr::from_u64) {
            if (mode == 1) {
                c.template set<T>(v);
                return;
            }
        }
        c.template set<T>(Tr::make(v));
    };
    o.cmd_remove = [](co_ecs::command_entity_ref& c) { c.template remove<T>(); };
    o.cmd_create = [](co_ecs::command_writer& w, u64 v) -> entity { return w.template create<T>(Tr::make(v)); };
    o.arch_has = [](const co_ecs::archetype& a) { return a.template contains<T>(); };
    return o;
}

template<typename T>
Seen see(const T& c) {
    return { std::addressof(c), Traits<T>::read(c) };
}

template<int... I>
struct ComboImpl {
    template<int J>
    using ct = type_at<J>;

    static constexpr int N = sizeof...(I);

    static entity create(registry& r, const u64* v) {
        return create_seq(r, v, std::make_index_sequence<N>{});
    }
    template<std::size_t... J>
    static entity create_seq(auto& r, const u64* v, std::index_sequence<J...>) {
        return r.template create<ct<I>...>(Traits<ct<I>>::make(v[J])...);
    }
    static entity cmd_create(co_ecs::command_writer& w, const u64* v) {
        return create_seq(w, v, std::make_index_sequence<N>{});
    }
    static bool has(registry& r, entity e, int mode) {
        const registry& cr = r;
        return mode == 0   ? r.get_entity(e).template has<ct<I>...>()
               : mode == 1 ? cr.get_entity(e).template has<ct<I>...>()
                           : r.template has<ct<I>...>(e);
    }
    static void get(registry& r, entity e, int mode, std::vector<Seen>& out) {
        const registry& cr = r;
        auto take = [&](const auto&... c) { (out.push_back(see(c)), ...); };
        if constexpr (N == 1) {
            if (mode == 0) take(r.get_entity(e).template get<ct<I>...>());
            else take(cr.get_entity(e).template get<ct<I>...>());
        } else {
            if (mode == 0) std::apply(take, r.get_entity(e).template get<ct<I>...>());
            else if (mode == 1) {
                const auto ref = r.get_entity(e);
                std::apply(take, ref.template get<ct<I>...>());
            } else std::apply(take, cr.get_entity(e).template get<ct<I>...>());
        }
    }

    struct Sink {
        std::vector<Row>& out;
        const Writer* w;
        void put(const entity* e, auto&... c) {
            Row row;
            if (e) {
                row.has_entity = true;
                row.ent = *e;
            }
            (row.c.push_back(see(std::as_const(c))), ...);
            u64 n = out.size();
            out.push_back(std::move(row));
            if (w) {
                (write(c, n), ...);
            }
        }
        void write(auto& c, u64 n) {
            using C = std::remove_reference_t<decltype(c)>;
            if constexpr (!std::is_const_v<C>) {
                c = Traits<C>::make((*w)(n));
            }
        }
    };

    static bool view(registry& r, int mode, std::vector<Row>& out, const Writer* w) {
        const registry& cr = r;
        Sink s{ out, w };
        auto tuple_e = [&](auto&& t) { std::apply([&](const entity& e, auto&... c) { s.put(&e, c...); }, t); };
        switch (mode) {
        case 0:
            for (auto&& t : r.template view<const entity&, ct<I>&...>().each()) tuple_e(t);
            return true;
        case 1:
            r.template view<const entity&, ct<I>&...>().each([&](const entity& e, auto&... c) { s.put(&e, c...); });
            return true;
        case 2: {
            auto v = r.template view<const entity&, ct<I>&...>();
            for (auto chunk : v.chunks()) {
                for (auto t : chunk) tuple_e(t);
            }
            return true;
        }
        case 3:
            r.each([&](const entity& e, ct<I>&... c) { s.put(&e, c...); });
            return true;
        case 4:
            for (auto&& t : cr.template view<const entity&, const ct<I>&...>().each()) tuple_e(t);
            return true;
        case 5:
            cr.template view<const entity&, const ct<I>&...>().each([&](const entity& e, auto&... c) { s.put(&e, c...); });
            return true;
        case 6: {
            auto v = cr.template view<const entity&, const ct<I>&...>();
            for (auto chunk : v.chunks()) {
                for (auto t : chunk) tuple_e(t);
            }
            return true;
        }
        case 7:
            cr.each([&](const entity& e, const ct<I>&... c) { s.put(&e, c...); });
            return true;
        case 8: // no entity, mutable
            r.template view<ct<I>&...>().each([&](auto&... c) { s.put(nullptr, c...); });
            return true;
        case 9: // no entity, const
            for (auto&& t : cr.template view<const ct<I>&...>().each()) {
                std::apply([&](auto&... c) { s.put(nullptr, c...); }, t);
            }
            return true;
        case 10: { // first component mutable, all others const, entity last
            return mixed(r, s);
        }
        case 11: {
            auto t = r.template single<const entity&, ct<I>&...>();
            if (t) tuple_e(*t);
            return true;
        }
        case 12: {
            auto t = cr.template single<const ct<I>&...>();
            if (t) std::apply([&](auto&... c) { s.put(nullptr, c...); }, *t);
            return true;
        }
        }
        return false;
    }

    static bool mixed(registry& r, Sink& s) {
        return mixed_impl<I...>(r, s);
    }
    template<int First, int... Rest>
    static bool mixed_impl(registry& r, Sink& s) {
        r.template view<ct<First>&, const ct<Rest>&..., const entity&>().each([&](auto& a, auto&... rest) {
            auto t = std::tie(rest...);
            constexpr std::size_t n = sizeof...(Rest);
            mixed_put(s, a, t, std::make_index_sequence<n>{});
        });
        return true;
    }
    template<std::size_t... J>
    static void mixed_put(Sink& s, auto& a, auto& t, std::index_sequence<J...>) {
        const entity& e = std::get<sizeof...(J)>(t);
        s.put(&e, a, std::get<J>(t)...);
    }

    static std::function<void(std::vector<Row>&)> keep_view(registry& r, int mode) {
        if (mode == 0) {
            return [v = r.template view<const entity&, ct<I>&...>()](std::vector<Row>& out) mutable {
                Sink s{ out, nullptr };
                for (auto&& t : v.each()) {
                    std::apply([&](const entity& e, auto&... c) { s.put(&e, c...); }, t);
                }
            };
        }
        const registry& cr = r;
        return [v = cr.template view<const entity&, const ct<I>&...>()](std::vector<Row>& out) mutable {
            Sink s{ out, nullptr };
            v.each([&](const entity& e, auto&... c) { s.put(&e, c...); });
        };
    }

    static ComboOps ops() {
        return ComboOps{ { I... }, &create, &cmd_create, &has, &get, &view, &keep_view };
    }
};

} // namespace vf
