// Monitor for size: identifiers used again very often, very many entities, very many component sets and component types.
#include "scale_w.hpp"

#include <algorithm>
#include <memory>
#include <unordered_set>

namespace vf {

using co_ecs::command_buffer;
using co_ecs::command_writer;
using co_ecs::entity;
using co_ecs::registry;

template<int I>
struct P {
    u64 v;
};
template<int I>
struct Sized {
    u64 v;
    unsigned char pad[I];
    Sized(u64 v) : v(v) {
        std::memset(pad, int(v), I);
    }
    bool ok() const {
        for (auto b : pad)
            if (b != static_cast<unsigned char>(v)) return false;
        return true;
    }
};
struct Str {
    std::string s;
};

// ---- identifiers used again and again ------------------------------------------------------------------------------

// Every handle that a registry ever gives out is different, and a dead one stays dead
void reuse(u64 c, Rng& rng) {
    const u64 n = args.num("n", 200000);
    registry reg, other;
    command_writer cw(reg);
    std::vector<entity> live;
    std::size_t keep = rng.chance(1, 2) ? rng.below(3) : rng.below(40);
    for (std::size_t i = 0; i < keep; i++) live.push_back(reg.create<P<0>>({ i }));
    std::vector<std::vector<u32>> gens; // by identifier, in the order they were given out
    std::vector<entity> kept;           // dead handles, sampled
    std::vector<u64> starts;
    u64 handed = 0;
    int way = int(rng.below(8));
    auto note = [&](entity e) {
        handed++;
        if (e.id() >= gens.size()) gens.resize(e.id() + 1);
        gens[e.id()].push_back(e.generation());
    };
    for (auto e : live) note(e);
    auto flush = [&] { command_buffer::flush(reg); };
    for (u64 k = 0; k < n && !case_bad; k++) {
        entity e;
        bool husk = false; // reserved and never given components
        int w = way == 7 ? int(rng.below(7)) : way;
        // the rarer and the dearer ways now and then
        switch (w) {
        case 0: e = reg.create<P<0>>({ k }); break;
        case 1: e = reg.create<>(); break;
        case 2: {
            auto p = reg.reserve();
            e = p.get_entity();
            reg.sync();
            husk = k % 7 || live.empty();
            if (!husk) reg.get_entity(live[0]).clone(p);
            break;
        }
        case 3: {
            entity src = live.empty() ? reg.create<P<0>>({ k }) : live[0];
            if (live.empty()) {
                note(src);
                live.push_back(src);
            }
            e = reg.get_entity(src).clone();
            break;
        }
        case 4: {
            entity f = other.create<P<0>>({ k });
            e = other.get_entity(f).move(reg);
            break;
        }
        case 5: {
            e = cw.create<P<0>>({ k });
            flush();
            break;
        }
        default: {
            entity f = other.create<P<0>>({ k });
            e = other.get_entity(f).copy(reg);
            other.destroy(f);
            break;
        }
        }
        note(e);
        if (!reg.alive(e)) report("C02", "dead-at-birth", fmt("a new handle is not alive after %llu handles", (unsigned long long)handed));
        if (rng.chance(1, 200) || (k & (k - 1)) == 0) kept.push_back(e);
        // dies, in different ways
        switch (rng.below(4)) {
        case 0:
        case 1: reg.destroy(e); break;
        case 2: reg.get_entity(e).destroy(); break;
        default:
            if (k % 16 == 0) {
                cw.destroy(e);
                flush();
            } else if (k % 16 == 1 && !husk) {
                entity f = reg.get_entity(e).move(other);
                other.destroy(f);
            } else reg.destroy(e);
        }
        if (reg.alive(e)) report("C02", "alive-after-destroy", fmt("a destroyed handle is alive after %llu handles", (unsigned long long)handed));
        if (k % 4096 == 0 || k + 1 == n) {
            for (auto d : kept) {
                if (reg.alive(d)) report("C02", "came-back", fmt("a dead handle is alive again after %llu handles", (unsigned long long)handed));
            }
            for (auto e : live) {
                if (!reg.alive(e)) report("C02", "lost", fmt("a handle in use is dead after %llu handles", (unsigned long long)handed));
            }
            count("stale_handles_checked", kept.size());
            // one more in use at the same time: dead handles must not name it
            entity x = reg.create<P<0>>({ 1 });
            note(x);
            for (auto d : kept) {
                if (reg.alive(d)) report("C02", "came-back", fmt("a dead handle names a new entity after %llu handles", (unsigned long long)handed));
            }
            reg.destroy(x);
            if (reg.size() != live.size()) report("C01", "size", fmt("%zu entities, %zu expected", reg.size(), live.size()));
        }
    }
    for (auto& g : gens) {
        u64 most = g.size();
        std::sort(g.begin(), g.end());
        if (std::adjacent_find(g.begin(), g.end()) != g.end()) {
            report("C02", "handed-out-twice", fmt("the same handle was given out more than once (%llu handles, %llu of one identifier)", (unsigned long long)handed, (unsigned long long)most));
            break;
        }
        maximum("uses_of_one_identifier", most);
    }
    count("handles_checked", handed);
    seen("scale_histories", mix(handed ^ mix(rng.next())));
    sample(fmt("case %llu: reuse: %llu handles over %zu identifiers, way %d", (unsigned long long)c, (unsigned long long)handed, gens.size(), way));
}

// ---- many entities -------------------------------------------------------------------------------------------------

struct Ent {
    entity h;
    u32 mask = 0;
    u64 seed = 0;
    bool alive = false;
};

constexpr int NC = 6;
u64 val(const Ent& e, int i) {
    return mix(e.seed + i) % 1000000007;
}

std::string text(u64 v) {
    return std::to_string(v) + (v % 3 ? "" : std::string(30, '.'));
}

template<typename Ref>
void give(Ref ref, Ent& e, int i) {
    switch (i) {
    case 0: ref.template set<P<0>>(P<0>{ val(e, 0) }); break;
    case 1: ref.template set<P<1>>(P<1>{ val(e, 1) }); break;
    case 2: ref.template set<Sized<5>>(val(e, 2)); break;
    case 3: ref.template set<Sized<200>>(val(e, 3)); break;
    case 4: ref.template set<Str>(Str{ text(val(e, 4)) }); break;
    default: ref.template set<Sized<1>>(val(e, 5)); break;
    }
    e.mask |= 1u << i;
}
template<typename Ref>
void take(Ref ref, Ent& e, int i) {
    switch (i) {
    case 0: ref.template remove<P<0>>(); break;
    case 1: ref.template remove<P<1>>(); break;
    case 2: ref.template remove<Sized<5>>(); break;
    case 3: ref.template remove<Sized<200>>(); break;
    case 4: ref.template remove<Str>(); break;
    default: ref.template remove<Sized<1>>(); break;
    }
    e.mask &= ~(1u << i);
}

bool same(const P<0>& c, const Ent& e) {
    return c.v == val(e, 0);
}
bool same(const P<1>& c, const Ent& e) {
    return c.v == val(e, 1);
}
bool same(const Sized<5>& c, const Ent& e) {
    return c.v == val(e, 2) && c.ok();
}
bool same(const Sized<200>& c, const Ent& e) {
    return c.v == val(e, 3) && c.ok();
}
bool same(const Str& c, const Ent& e) {
    return c.s == text(val(e, 4));
}
bool same(const Sized<1>& c, const Ent& e) {
    return c.v == val(e, 5) && c.ok();
}

struct Many {
    registry reg;
    std::vector<Ent> es;
    std::unordered_map<u64, std::size_t> index;
    std::size_t peak = 0;

    template<typename C>
    void one(const Ent& e, int i) {
        const registry& r = reg;
        bool has = r.get_entity(e.h).template has<C>();
        if (has != bool(e.mask >> i & 1)) {
            report("C01", "has", fmt("component %d is wrong about its existence, %zu entities", i, reg.size()));
            return;
        }
        if (has && !same(r.get_entity(e.h).template get<C>(), e)) report("C01", "value", fmt("component %d has a wrong value, %zu entities", i, reg.size()));
    }

    void compare() {
        std::size_t alive = 0;
        for (auto& e : es) {
            bool a = reg.alive(e.h);
            if (a != e.alive) {
                report("C02", "alive", fmt("alive() is %d for a handle, %d expected, %zu entities", a, e.alive, reg.size()));
                continue;
            }
            if (!a) continue;
            alive++;
            one<P<0>>(e, 0);
            one<P<1>>(e, 1);
            one<Sized<5>>(e, 2);
            one<Sized<200>>(e, 3);
            one<Str>(e, 4);
            one<Sized<1>>(e, 5);
        }
        if (reg.size() != alive) report("C01", "size", fmt("size() is %zu, %zu expected", reg.size(), alive));
        // between two comparisons the number of entities only grows or only falls
        peak = std::max(peak, alive);
        std::size_t ids = 0;
        for (auto& e : es) ids = std::max(ids, std::size_t(e.h.id()) + 1);
        if (ids > peak) report("C02", "ids-not-recycled", fmt("%zu identifiers have been used, there were at most %zu entities at a time", ids, peak));
        maximum("most_identifiers", ids);
        count("entity_states_compared", alive);
        maximum("most_entities", alive);
    }

    template<typename... C>
    void view(u32 need) {
        std::unordered_set<u64> met;
        std::size_t want = 0, bad = 0, wrong = 0, n = 0;
        for (auto& e : es) want += e.alive && (e.mask & need) == need;
        reg.view<const entity&, const C&...>().each([&](const entity& h, const C&... c) {
            n++;
            auto i = index.find(key(h));
            if (i == index.end() || !es[i->second].alive || (es[i->second].mask & need) != need || !met.insert(key(h)).second) bad++;
            else if (!(same(c, es[i->second]) && ...)) wrong++;
        });
        if (bad || n != want) report("C03", "view", fmt("a view shows %zu rows, %zu expected, %zu do not belong there, %zu entities", n, want, bad, reg.size()));
        if (wrong) report("C03", "view-value", fmt("a view shows %zu wrong rows of %zu", wrong, n));
        if constexpr (sizeof...(C) > 0) {
            std::size_t m = 0;
            auto v = reg.view<const C&...>();
            for (auto chunk : v.chunks())
                for (auto t : chunk) {
                    (void)t;
                    m++;
                }
            if (m != want) report("C03", "view-chunks", fmt("the blocks of a view have %zu rows, %zu expected", m, want));
        }
        count("views_compared", 2);
    }

    void add(Rng& rng, u32 mask) {
        Ent e;
        e.seed = rng.next();
        e.alive = true;
        if (mask == 1) {
            e.h = reg.create<P<0>>({ val(e, 0) });
            e.mask = 1;
        } else if (mask == 0x19) {
            e.h = reg.create<P<0>, Sized<200>, Str>({ val(e, 0) }, Sized<200>(val(e, 3)), Str{ text(val(e, 4)) });
            e.mask = mask;
        } else {
            e.h = reg.create<>();
            for (int i = 0; i < NC; i++)
                if (mask >> i & 1) give(reg.get_entity(e.h), e, i);
        }
        put(e);
    }

    void put(const Ent& e) {
        if (!index.emplace(key(e.h), es.size()).second) report("C02", "handed-out-twice", fmt("the same handle was given out again, %zu entities", reg.size()));
        es.push_back(e);
    }

    // Many recorded creations, or reservations that are filled later, at a time
    void add_later(Rng& rng, std::size_t n) {
        bool recorded = rng.chance(1, 2);
        command_writer cw(reg);
        std::vector<co_ecs::placeholder_entity> places;
        Ent first;
        first.seed = rng.next();
        first.alive = true;
        first.mask = 1;
        if (!recorded) {
            first.h = reg.create<P<0>>({ val(first, 0) });
            put(first);
        }
        for (std::size_t k = 0; k < n; k++) {
            if (recorded) {
                Ent e;
                e.seed = rng.next();
                e.alive = true;
                e.mask = 3;
                e.h = cw.create<P<0>, P<1>>({ val(e, 0) }, { val(e, 1) });
                put(e);
            } else places.push_back(reg.reserve());
        }
        if (recorded) command_buffer::flush(reg);
        else reg.sync();
        for (auto p : places) {
            Ent e = first;
            e.h = p.get_entity();
            if (!reg.alive(e.h)) {
                report("C09", "dead-after-sync", fmt("a reserved handle is not alive after the synchronisation of %zu", n));
                report("C02", "dead-at-birth", fmt("a reserved handle is not alive after the synchronisation of %zu", n));
                return;
            }
            reg.get_entity(first.h).clone(p);
            put(e);
        }
        count(recorded ? "recorded_creations" : "reservations_filled", n);
    }
};

void many(u64 c, Rng& rng) {
    Many m;
    std::size_t n = rng.chance(1, 3) ? args.num("n", 150000) : rng.range(1, args.num("n", 150000));
    u32 masks[3] = { 1, rng.chance(1, 2) ? 0x19u : 0u, u32(rng.below(1 << NC)) };
    int nm = int(rng.range(1, 3));
    u64 ops = 0;
    for (std::size_t i = 0; i < n; i++) m.add(rng, masks[i % nm]);
    m.compare();
    auto views = [&] {
        m.view<P<0>>(1);
        m.view<P<0>, Sized<200>>(9);
        m.view<Str>(16);
        m.view<Sized<5>, P<1>, Sized<1>>(0x26);
        m.view<>(0);
    };
    views();
    for (int round = int(rng.range(1, 3)); round && !case_bad; round--) {
        int what = int(rng.below(6)), i = int(rng.below(NC)), step = int(rng.range(1, 4));
        std::vector<std::size_t> order;
        for (std::size_t k = 0; k < m.es.size(); k++)
            if (m.es[k].alive && (step == 1 || rng.below(step) == 0)) order.push_back(k);
        if (rng.chance(1, 3)) std::reverse(order.begin(), order.end());
        else if (rng.chance(1, 2))
            for (std::size_t k = order.size(); k > 1; k--) std::swap(order[k - 1], order[rng.below(k)]);
        command_writer cw(m.reg);
        for (auto k : order) {
            auto& e = m.es[k];
            auto ref = m.reg.get_entity(e.h);
            ops++;
            switch (what) {
            case 0:
                m.reg.destroy(e.h);
                e.alive = false;
                break;
            case 1: give(ref, e, i); break;
            case 2: take(ref, e, i); break;
            case 3:
                cw.destroy(e.h);
                e.alive = false;
                break;
            case 4: give(cw.get_entity(e.h), e, i); break;
            default: {
                if (k % 3) break;
                Ent x;
                x.h = ref.clone();
                x.mask = e.mask;
                x.seed = e.seed;
                x.alive = true;
                if (!m.index.emplace(key(x.h), m.es.size()).second) report("C02", "handed-out-twice", fmt("the same handle was given out again, %zu entities", m.reg.size()));
                m.es.push_back(x);
                break;
            }
            }
        }
        command_buffer::flush(m.reg);
        m.compare();
        views();
        if (rng.chance(1, 2)) {
            for (std::size_t k = rng.below(n / (rng.chance(1, 2) ? 1 : 4) + 1); k; k--) m.add(rng, masks[k % nm]);
            m.compare();
            views();
        }
        if (rng.chance(1, 2)) {
            m.add_later(rng, rng.below(n / (rng.chance(1, 2) ? 1 : 4) + 1));
            m.compare();
            views();
        }
    }
    count("operations", ops + n);
    seen("scale_histories", mix(m.es.size() ^ mix(rng.next())));
    sample(fmt("case %llu: many: %zu entities", (unsigned long long)c, m.es.size()));
}

// ---- many storage blocks -------------------------------------------------------------------------------------------

// One entity per storage block, more than 2^16 of them
void huge(u64 c, Rng& rng) {
    constexpr std::size_t n = 66000;
    using Whole = Sized<9000>;
    auto ok = [](const Whole& w, u64 v) { return w.v == v && w.pad[0] == static_cast<unsigned char>(v) && w.pad[8999] == static_cast<unsigned char>(v); };
    registry reg;
    std::vector<std::pair<entity, u64>> es;
    for (std::size_t i = 0; i < n; i++) {
        u64 v = rng.next();
        es.emplace_back(reg.create<Whole>(Whole(v)), v);
    }
    auto compare = [&]() -> void {
        for (auto& [e, v] : es) {
            if (!reg.alive(e)) {
                report("C02", "alive", fmt("an entity is lost among %zu storage blocks", es.size()));
                return;
            }
            if (!ok(reg.get_entity(e).get<Whole>(), v)) {
                report("C01", "value", fmt("a component has a wrong value among %zu storage blocks", es.size()));
                return;
            }
        }
        std::unordered_map<u64, u64> want;
        for (auto& [e, v] : es) want[key(e)] = v;
        std::size_t rows = 0, wrong = 0;
        reg.view<const entity&, const Whole&>().each([&](const entity& e, const Whole& w) {
            rows++;
            auto i = want.find(key(e));
            wrong += i == want.end() || !ok(w, i->second);
        });
        if (rows != es.size() || wrong) report("C03", "view", fmt("a view shows %zu rows, %zu expected, %zu wrong ones", rows, es.size(), wrong));
        if (reg.size() != es.size()) report("C01", "size", fmt("%zu entities, %zu expected", reg.size(), es.size()));
        count("entity_states_compared", es.size());
        count("views_compared");
    };
    compare();
    for (int k = 0; k < 3000; k++) {
        auto i = rng.chance(1, 3) ? es.size() - 1 - rng.below(300) : rng.below(es.size());
        switch (rng.below(4)) {
        case 0:
            reg.destroy(es[i].first);
            std::swap(es[i], es.back());
            es.pop_back();
            break;
        case 1:
            reg.get_entity(es[i].first).set<P<0>>(P<0>{ 1 });
            break;
        case 2: reg.get_entity(es[i].first).remove<P<0>>(); break;
        default: es.emplace_back(reg.get_entity(es[i].first).clone(), es[i].second);
        }
    }
    compare();
    maximum("most_storage_blocks", n);
    seen("scale_histories", mix(es.size()));
    sample(fmt("case %llu: huge: %zu entities in as many storage blocks", (unsigned long long)c, es.size()));
}

// ---- many component sets and types ---------------------------------------------------------------------------------

std::vector<WOps>& all_w() {
    static auto v = [] {
        std::vector<WOps> v;
        add_w_0(v);
        add_w_1(v);
        add_w_2(v);
        add_w_3(v);
        return v;
    }();
    return v;
}

void wide(u64 c, Rng& rng) {
    auto& T = all_w();
    registry reg;
    struct E {
        entity h;
        std::map<int, u32> w;
    };
    std::vector<E> es;
    std::set<std::vector<int>> sets;
    u64 ops = 0;
    int shape = int(rng.below(3));
    int first = int(rng.below(NW - 12));
    std::vector<int> types; // used in this case
    if (shape == 0) {
        for (int i = 0; i < 11; i++) types.push_back(rng.chance(1, 2) ? first + i : int(rng.below(NW)));
        std::sort(types.begin(), types.end());
        types.erase(std::unique(types.begin(), types.end()), types.end());
    } else {
        for (int i = 0; i < NW; i++) types.push_back(i);
    }
    auto note = [&](const E& e) {
        std::vector<int> k;
        for (auto& [i, v] : e.w) k.push_back(i);
        sets.insert(k);
    };
    if (shape == 0) {
        // all subsets
        std::size_t all = std::size_t(1) << types.size();
        for (std::size_t m = 0; m < all; m++) {
            for (int copies = 1 + int(rng.below(2)); copies; copies--) {
                E e{ reg.create<>(), {} };
                // in any order
                std::vector<int> in;
                for (std::size_t i = 0; i < types.size(); i++)
                    if (m >> i & 1) in.push_back(types[i]);
                for (std::size_t k = in.size(); k > 1; k--) std::swap(in[k - 1], in[rng.below(k)]);
                for (auto i : in) {
                    u32 v = u32(rng.next());
                    T[i].set(reg, e.h, v);
                    e.w[i] = v;
                    ops++;
                }
                note(e);
                es.push_back(std::move(e));
            }
        }
    } else if (shape == 1) {
        // random sets of any size
        for (int k = 0; k < 60; k++) {
            E e{ reg.create<>(), {} };
            for (int n = int(rng.below(k % 10 == 0 ? NW : 30)); n; n--) {
                int i = rng.pick(types);
                u32 v = u32(rng.next());
                T[i].set(reg, e.h, v);
                e.w[i] = v;
                ops++;
                note(e);
            }
            es.push_back(std::move(e));
        }
    } else {
        // pairs: sets that differ in one or two types
        for (int k = 0; k < 900; k++) {
            E e{ reg.create<>(), {} };
            int a = int(rng.below(NW)), b = rng.chance(1, 2) ? (a + 64) % NW : rng.chance(1, 2) ? (a + 1) % NW : int(rng.below(NW));
            for (int i : { a, b }) {
                u32 v = u32(rng.next());
                T[i].set(reg, e.h, v);
                e.w[i] = v;
            }
            ops += 2;
            note(e);
            es.push_back(std::move(e));
        }
    }
    auto compare = [&] {
        for (auto& e : es) {
            if (!reg.alive(e.h)) {
                report("C02", "alive", "an entity is lost among many component sets");
                continue;
            }
            for (auto& [i, v] : e.w) {
                if (!T[i].has(reg, e.h)) report("C01", "has", fmt("component %d of %zu is missing, %zu component sets", i, e.w.size(), sets.size()));
                else if (T[i].get(reg, e.h) != v) report("C01", "value", fmt("component %d of %zu has a wrong value, %zu component sets", i, e.w.size(), sets.size()));
            }
            for (int k = 0; k < 12; k++) {
                int i = int(rng.below(NW));
                if (!e.w.contains(i) && T[i].has(reg, e.h)) report("C01", "has", fmt("component %d exists, %zu component sets", i, sets.size()));
            }
            if (case_bad) return;
        }
        count("entity_states_compared", es.size());
        for (int k = 0; k < 60; k++) {
            int i = rng.pick(types);
            if (!T[i].collect) continue;
            std::vector<std::pair<u64, u32>> got, want;
            T[i].collect(reg, got);
            for (auto& e : es)
                if (auto f = e.w.find(i); f != e.w.end()) want.emplace_back(key(e.h), f->second);
            std::sort(got.begin(), got.end());
            std::sort(want.begin(), want.end());
            if (got != want) report("C03", "view", fmt("a view of component %d shows %zu rows, %zu expected, or wrong ones, among %zu component sets", i, got.size(), want.size(), sets.size()));
            count("views_compared");
        }
    };
    compare();
    // change component sets, and compare again
    for (int round = 0; round < 3 && !case_bad; round++) {
        for (auto& e : es) {
            if (!rng.chance(1, 3)) continue;
            for (int k = int(rng.range(1, 4)); k; k--) {
                ops++;
                if (!e.w.empty() && rng.chance(1, 2)) {
                    auto i = std::next(e.w.begin(), rng.below(e.w.size()));
                    T[i->first].remove(reg, e.h);
                    e.w.erase(i);
                } else {
                    int i = rng.pick(types);
                    u32 v = u32(rng.next());
                    T[i].set(reg, e.h, v);
                    e.w[i] = v;
                }
                note(e);
            }
        }
        if (round == 1) {
            while (es.size() > 10 && rng.chance(199, 200)) {
                auto k = rng.below(es.size());
                reg.destroy(es[k].h);
                std::swap(es[k], es.back());
                es.pop_back();
            }
        }
        compare();
    }
    count("operations", ops);
    maximum("most_component_sets", sets.size());
    seen("scale_histories", mix(sets.size() ^ mix(rng.next())));
    if (c % 7 == 0) sample(fmt("case %llu: wide: %zu component sets, %zu entities", (unsigned long long)c, sets.size(), es.size()));
}

} // namespace vf

int main(int argc, char** argv) {
    vf::parse_args(argc, argv);
    auto& mode = vf::args.mode;
    return vf::run_cases([&](vf::u64 c, vf::Rng& rng) {
        if (mode == "reuse") vf::reuse(c, rng);
        else if (mode == "huge") vf::huge(c, rng);
        else if (mode == "many") vf::many(c, rng);
        else vf::wide(c, rng);
    });
}
