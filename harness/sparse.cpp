// Monitor for sparse maps, dynamic bit sets and component sets (C17): random histories against std::map and std::set.
#include "tracked.hpp"
#include <limits>
#include <list>
#include <memory>
#include <optional>
#include <utility>
#include <co_ecs/detail/dynamic_bitset.hpp>
#include <co_ecs/detail/sparse_map.hpp>
#include <co_ecs/component.hpp>

namespace vf {

using co_ecs::component_id_t;
using co_ecs::detail::dynamic_bitset;
using co_ecs::detail::sparse_map;

template<typename V>
u64 value_number(const V& v) {
    if constexpr (std::is_same_v<V, std::unique_ptr<u64>>) return v ? *v : 0;
    else if constexpr (std::is_same_v<V, std::string>) return v.empty() ? 0 : std::strtoull(v.c_str() + 1, nullptr, 10);
    else if constexpr (std::is_integral_v<V>) return u64(v);
    else return v.get();
}

template<typename V>
V make_value(u64 x) {
    if constexpr (std::is_same_v<V, std::string>) return x ? "v" + std::to_string(x) + std::string(20, ' ') : std::string();
    else if constexpr (std::is_same_v<V, std::unique_ptr<u64>>) return std::make_unique<u64>(x);
    else return V(x);
}

// ---- sparse map ----------------------------------------------------------------------------------------------------

template<typename K, typename V>
struct SparseRunner {
    static constexpr bool copies = std::is_copy_constructible_v<V>;
    using Map = sparse_map<K, V>;
    using Model = std::map<u64, u64>;
    Rng& rng;
    u64 keys = 1; // usual keys are below
    struct Slot {
        std::unique_ptr<Map> m;
        Model model;
    };
    std::vector<Slot> slots;
    u64 next_value = 1;
    u64 checks = 0;
    std::vector<std::string> log;

    explicit SparseRunner(Rng& r) : rng(r) {
    }
    void fail(const char* key, const std::string& msg) {
        violation("C17", key, msg + fmt(" (%zu byte keys)", sizeof(K)));
    }
    // keys that are never inserted when they are too large to be
    u64 any_key() {
        constexpr u64 max = std::numeric_limits<K>::max();
        switch (rng.below(20)) {
        case 0: return max;
        case 1: return max - rng.below(3);
        case 2: return max / 2 + rng.below(3);
        case 3: return (rng.next() >> rng.below(64)) & max;
        default: return rng.below(keys);
        }
    }
    u64 rkey() {
        constexpr u64 max = std::numeric_limits<K>::max();
        if (sizeof(K) <= 2 && rng.chance(1, 12)) return max - rng.below(3);
        if (rng.chance(1, 60)) return std::min<u64>(max, keys * rng.range(2, 200));
        return rng.below(keys);
    }
    u64 present(const Model& m) {
        if (m.empty()) return rkey();
        auto i = m.lower_bound(rkey());
        return i == m.end() ? m.begin()->first : i->first;
    }
    u64 some(const Model& m) {
        return rng.chance(1, 2) ? present(m) : rkey();
    }

    template<typename I>
    void entry(const I& i, Map& m, u64 k, u64 v, const char* what) {
        if (i == m.end()) fail("lost", fmt("%s: the entry with key %llu is not there", what, (unsigned long long)k));
        if (u64(i->first) != k || value_number(i->second) != v) {
            fail("wrong-entry", fmt("%s: key %llu holds %llu, expected %llu", what, (unsigned long long)k, (unsigned long long)value_number(i->second), (unsigned long long)v));
        }
        checks++;
    }

    void probe(Slot& s, u64 k) {
        Map& m = *s.m;
        const Map& c = m;
        bool there = s.model.contains(k);
        if (c.contains(K(k)) != there || (c.find(K(k)) != c.end()) != there || (m.find(K(k)) != m.end()) != there) {
            fail("membership", fmt("key %llu: membership is wrong, expected %d", (unsigned long long)k, there));
        }
        checks++;
    }

    void check_all(Slot& s) {
        Map& m = *s.m;
        const Map& c = m;
        if (m.size() != s.model.size() || m.empty() != s.model.empty()) fail("size", fmt("size %zu, expected %zu", m.size(), s.model.size()));
        std::set<u64> met;
        auto visit = [&](const auto& e) {
            u64 k = u64(e.first);
            auto i = s.model.find(k);
            if (i == s.model.end()) fail("iterates-absent", fmt("iteration yields key %llu which is not in the map", (unsigned long long)k));
            if (!met.insert(k).second) fail("iterates-twice", fmt("iteration yields key %llu twice", (unsigned long long)k));
            if (value_number(e.second) != i->second) fail("wrong-value", fmt("key %llu has a wrong value", (unsigned long long)k));
        };
        switch (rng.below(3)) {
        case 0:
            for (auto& e : m) visit(e);
            break;
        case 1:
            for (auto& e : c) visit(e);
            break;
        default:
            for (auto i = c.cbegin(); i != c.cend(); i++) visit(*i);
            break;
        }
        if (met.size() != s.model.size()) fail("iteration-incomplete", fmt("iteration yields %zu entries of %zu", met.size(), s.model.size()));
        for (auto& [k, v] : s.model) {
            entry(m.find(K(k)), m, k, v, "find");
        }
        for (int i = 0; i < 40; i++) probe(s, any_key());
        count("maps_compared");
    }

    template<typename R>
    void result(Slot& s, R&& r, u64 k, u64 v, const char* what) {
        auto [i, fresh] = s.model.emplace(k, v);
        if (r.second != fresh) fail("insert-result", fmt("%s of key %llu says %d, expected %d", what, (unsigned long long)k, r.second, fresh));
        entry(r.first, *s.m, k, i->second, what);
    }

    void op(Slot& s) {
        Map& m = *s.m;
        const Map& c = m;
        u64 v = next_value++;
        auto name = [&](const char* n, u64 k) {
            log.push_back(fmt("map %zu: %s key %llu value %llu", std::size_t(&s - slots.data()), n, (unsigned long long)k, (unsigned long long)v));
        };
        switch (rng.below(28)) {
        case 0: case 1: case 2: case 3: {
            u64 k = some(s.model);
            name("emplace", k);
            if constexpr (std::is_same_v<V, Tracked<2>>) {
                if (rng.chance(1, 4)) {
                    result(s, m.emplace(K(k), v, u64(0)), k, v, "emplace");
                    break;
                }
            }
            result(s, m.emplace(K(k), make_value<V>(v)), k, v, "emplace");
            break;
        }
        case 4: {
            u64 k = some(s.model);
            name("emplace default", k);
            result(s, m.emplace(K(k)), k, 0, "emplace");
            break;
        }
        case 5: case 6:
            if constexpr (copies) {
                u64 k = some(s.model);
                name("insert", k);
                std::pair<K, V> e(K(k), make_value<V>(v));
                result(s, m.insert(e), k, v, "insert");
                if (u64(e.first) != k || value_number(e.second) != v) fail("argument", "insert changed its argument");
            }
            break;
        case 7: case 8: case 9: {
            u64 k = some(s.model);
            name("operator[]", k);
            V& r = m[K(k)];
            auto [i, fresh] = s.model.emplace(k, 0);
            if (value_number(r) != i->second) fail("subscript", fmt("operator[] of key %llu yields %llu, expected %llu", (unsigned long long)k, (unsigned long long)value_number(r), (unsigned long long)i->second));
            r = make_value<V>(v);
            i->second = v;
            break;
        }
        case 10: case 11: {
            u64 k = rng.chance(1, 2) ? present(s.model) : any_key();
            auto i = s.model.find(k);
            bool thrown = false;
            name("at", k);
            try {
                u64 got = rng.chance(1, 2) ? value_number(m.at(K(k))) : value_number(c.at(K(k)));
                if (i != s.model.end() && got != i->second) fail("at", fmt("at(%llu) yields %llu", (unsigned long long)k, (unsigned long long)got));
            } catch (const std::out_of_range&) {
                thrown = true;
            }
            if (thrown != (i == s.model.end())) fail("at", fmt("at(%llu) %s", (unsigned long long)k, thrown ? "threw for a present key" : "did not throw for an absent key"));
            if (!thrown && rng.chance(1, 2)) {
                m.at(K(k)) = make_value<V>(v);
                i->second = v;
            }
            break;
        }
        case 12: case 13: case 14: case 15: case 16: {
            u64 k = rng.chance(3, 4) ? present(s.model) : any_key();
            name("erase", k);
            auto n = m.erase(K(k));
            auto e = s.model.erase(k);
            if (n != e) fail("erase-result", fmt("erase of key %llu says %zu, expected %zu", (unsigned long long)k, std::size_t(n), e));
            break;
        }
        case 17:
            if (rng.chance(1, 5)) {
                name("clear", 0);
                m.clear();
                s.model.clear();
            }
            break;
        case 18: {
            std::size_t n = rng.below(300);
            name("reserve", n);
            if (rng.chance(1, 2)) m.reserve_dense(n);
            else m.reserve_sparse(n);
            break;
        }
        case 19:
            // an element's value as argument
            if constexpr (copies) {
                if (s.model.empty()) break;
                u64 from = present(s.model), k = some(s.model), x = s.model[from];
                name("emplace from element", k);
                result(s, m.emplace(K(k), c.at(K(from))), k, x, "emplace from an element");
            }
            break;
        case 20: case 21:
            if constexpr (copies) {
                Slot& o = rng.pick(slots);
                name("copy", u64(&o - slots.data()));
                if (rng.chance(1, 2)) m = *o.m; // may be itself
                else s.m = std::make_unique<Map>(*o.m);
                s.model = Model(o.model);
                check_all(s);
                check_all(o);
            }
            break;
        case 22: case 23: {
            Slot& o = rng.pick(slots);
            if (&o == &s) break;
            name("move", u64(&o - slots.data()));
            if (rng.chance(1, 2)) m = std::move(*o.m);
            else s.m = std::make_unique<Map>(std::move(*o.m));
            s.model = std::move(o.model);
            o.model = {};
            // the source holds something unspecified, and is usable
            if (rng.chance(1, 4)) o.m = std::make_unique<Map>();
            else if (rng.chance(1, 2)) o.m->clear();
            for (auto& e : *o.m) o.model.emplace(u64(e.first), value_number(e.second));
            check_all(s);
            check_all(o);
            break;
        }
        case 24: {
            name("construct", 0);
            s.model.clear();
            s.m = std::make_unique<Map>();
            if constexpr (copies) {
                if (rng.chance(1, 2)) {
                    u64 a = rkey(), b = rkey(), d = rkey();
                    s.m = std::make_unique<Map>(std::initializer_list<std::pair<K, V>>{
                        { K(a), make_value<V>(v) }, { K(b), make_value<V>(v + 1) }, { K(d), make_value<V>(v + 2) } });
                    next_value += 3;
                    s.model.emplace(a, v);
                    s.model.emplace(b, v + 1);
                    s.model.emplace(d, v + 2);
                }
            }
            check_all(s);
            break;
        }
        case 25: {
            name("write", 0);
            for (auto& e : m) {
                u64 x = next_value++;
                s.model[u64(e.first)] = x;
                e.second = make_value<V>(x);
            }
            break;
        }
        case 26: {
            // every key there is
            if (sizeof(K) > 2 || !rng.chance(1, sizeof(K) == 1 ? 6 : 400)) break;
            name("fill", 0);
            u64 all = u64(std::numeric_limits<K>::max()) + 1, start = rng.next(), stride = rng.next() | 1;
            for (u64 n = 0; n < all; n++) {
                u64 k = (start + n * stride) % all;
                result(s, m.emplace(K(k), make_value<V>(next_value)), k, next_value, "emplace");
                next_value++;
            }
            check_all(s);
            if (all > 256) {
                // back to the usual
                u64 keep = rng.below(all);
                for (u64 n = 0; n < all; n++) {
                    u64 k = (start + n * stride) % all;
                    if (n >= 100 && k != keep) {
                        if (m.erase(K(k)) != 1) fail("erase-result", "erase");
                        s.model.erase(k);
                    }
                }
            }
            break;
        }
        default: probe(s, any_key()); break;
        }
        if (s.m->size() != s.model.size()) fail("size", fmt("size %zu, expected %zu", s.m->size(), s.model.size()));
    }

    void run() {
        static const u64 sizes[] = { 2, 5, 17, 100, 256, 256, 3000 };
        keys = std::min<u64>(sizes[rng.below(7)], u64(std::numeric_limits<K>::max()) + 1);
        if (sizeof(K) == 8 && keys == 0) keys = 100;
        int ops = int(rng.range(20, keys > 200 ? 2500 : 400));
        trace_log = &log;
        slots.resize(rng.range(1, 3));
        for (auto& s : slots) {
            s.m = std::make_unique<Map>();
            check_all(s);
        }
        u64 every = keys > 200 ? 200 : rng.range(1, 15);
        u64 shape = 0;
        bool growing = true;
        for (int i = 0; i < ops; i++) {
            Slot& s = rng.pick(slots);
            op(s);
            if (rng.chance(1, 60)) growing = !growing;
            if (rng.chance(1, 4)) {
                for (u64 k = 0, n = rng.below(keys > 200 ? 80 : 6); k < n; k++) {
                    u64 x = growing ? rkey() : present(s.model);
                    if (growing) {
                        result(s, s.m->emplace(K(x), make_value<V>(next_value)), x, next_value, "emplace");
                        next_value++;
                    } else {
                        if (s.m->erase(K(x)) != s.model.erase(x)) fail("erase-result", "erase");
                    }
                }
            }
            if (i % every == 0) check_all(s);
            shape = mix(shape ^ s.model.size());
        }
        for (auto& s : slots) check_all(s);
        count("operations", ops);
        count("entries_checked", checks);
        seen("histories", mix(shape ^ (u64(sizeof(K)) << 50) ^ keys));
        slots.clear();
        trace_log = nullptr;
    }
};

template<typename K, typename V>
void run_sparse(Rng& rng) {
    tracker.live.clear();
    {
        SparseRunner<K, V> r(rng);
        try {
            r.run();
        } catch (...) {
            trace_log = nullptr;
            throw;
        }
    }
    if (!tracker.live.empty()) {
        auto n = tracker.live.size();
        tracker.live.clear();
        violation("C17", "not-destroyed", fmt("%zu elements were never destroyed", n));
    }
}

template<typename V>
void run_sparse_v(Rng& rng) {
    switch (rng.below(5)) {
    case 0: case 1: return run_sparse<std::uint8_t, V>(rng);
    case 2: return run_sparse<std::uint16_t, V>(rng);
    case 3: return run_sparse<std::uint32_t, V>(rng);
    default: return run_sparse<std::uint64_t, V>(rng);
    }
}

// ---- sets of positions: bit sets and component sets ----------------------------------------------------------------

template<int N>
struct Comp {
    int x;
};

constexpr int COMPS = 200;

// One interface over the kinds of sets
struct BitsBase {
    virtual ~BitsBase() = default;
    virtual void set(u64 p, bool how) = 0;
    virtual void reset(u64 p, bool how) = 0;
    virtual bool test(u64 p) const = 0;
    virtual void clear() = 0;
    virtual bool equal(const BitsBase& o) const = 0;
    virtual u64 hash() const = 0;
    virtual std::unique_ptr<BitsBase> copy() const = 0;
    virtual void assign(const BitsBase& o) = 0;
    virtual void check(const std::set<u64>&) const {
    }
};

template<typename T>
struct Bits : BitsBase {
    dynamic_bitset<T> b;
    explicit Bits(std::size_t blocks = 1) : b(blocks) {
    }
    void set(u64 p, bool how) override {
        if (how) b.set(p);
        else b.set(p, true);
    }
    void reset(u64 p, bool) override {
        b.set(p, false);
    }
    bool test(u64 p) const override {
        return b.test(p);
    }
    void clear() override {
        b.clear();
    }
    bool equal(const BitsBase& o) const override {
        auto& r = static_cast<const Bits&>(o);
        bool e = b == r.b;
        if ((b != r.b) == e) violation("C17", "inequality", "== and != of bit sets agree");
        return e;
    }
    u64 hash() const override {
        return std::hash<dynamic_bitset<T>>()(b);
    }
    std::unique_ptr<BitsBase> copy() const override {
        return std::make_unique<Bits>(*this);
    }
    void assign(const BitsBase& o) override {
        b = static_cast<const Bits&>(o).b;
    }
};

struct CompOps {
    component_id_t id;
    co_ecs::component_meta meta;
    void (*insert)(co_ecs::component_set&);
    void (*erase)(co_ecs::component_set&);
    bool (*contains)(const co_ecs::component_set&);
    void (*minsert)(co_ecs::component_meta_set&);
    void (*merase)(co_ecs::component_meta_set&);
    bool (*mcontains)(const co_ecs::component_meta_set&);
};

template<int... N>
std::vector<CompOps> comp_ops(std::integer_sequence<int, N...>) {
    return { CompOps{
        co_ecs::component_id::value<Comp<N>>,
        co_ecs::component_meta::of<Comp<N>>(),
        [](co_ecs::component_set& s) { s.insert<Comp<N>>(); },
        [](co_ecs::component_set& s) { s.erase<Comp<N>>(); },
        [](const co_ecs::component_set& s) { return s.contains<Comp<N>>(); },
        [](co_ecs::component_meta_set& s) { s.insert<Comp<N>>(); },
        [](co_ecs::component_meta_set& s) { s.erase<Comp<N>>(); },
        [](const co_ecs::component_meta_set& s) { return s.contains<Comp<N>>(); },
    }... };
}

const std::vector<CompOps>& comps() {
    static const auto ops = comp_ops(std::make_integer_sequence<int, COMPS>());
    return ops;
}

struct CompBits : BitsBase {
    co_ecs::component_set s;
    void set(u64 p, bool how) override {
        if (how) comps()[p].insert(s);
        else s.insert(comps()[p].id);
    }
    void reset(u64 p, bool how) override {
        if (how) comps()[p].erase(s);
        else s.erase(comps()[p].id);
    }
    bool test(u64 p) const override {
        bool a = comps()[p].contains(s), b = s.contains(comps()[p].id);
        if (a != b) violation("C17", "contains", "contains by type and by id disagree");
        return a;
    }
    void clear() override {
        s.clear();
    }
    bool equal(const BitsBase& o) const override {
        return s == static_cast<const CompBits&>(o).s;
    }
    u64 hash() const override {
        return co_ecs::component_set_hasher()(s);
    }
    std::unique_ptr<BitsBase> copy() const override {
        return std::make_unique<CompBits>(*this);
    }
    void assign(const BitsBase& o) override {
        s = static_cast<const CompBits&>(o).s;
    }
};

struct MetaBits : BitsBase {
    co_ecs::component_meta_set s;
    void set(u64 p, bool how) override {
        if (how) comps()[p].minsert(s);
        else s.insert(comps()[p].meta);
    }
    void reset(u64 p, bool how) override {
        if (how) comps()[p].merase(s);
        else s.erase(comps()[p].id);
    }
    bool test(u64 p) const override {
        bool a = comps()[p].mcontains(s), b = s.contains(comps()[p].id), c = s.ids().contains(comps()[p].id);
        if (a != b || a != c) violation("C17", "contains", "contains by type, by id and of ids() disagree");
        return a;
    }
    void clear() override {
        s = {};
    }
    bool equal(const BitsBase& o) const override {
        bool a = s == static_cast<const MetaBits&>(o).s, b = s.ids() == static_cast<const MetaBits&>(o).s.ids();
        if (a != b) violation("C17", "equality", "equality of sets and of their ids() disagree");
        return a;
    }
    u64 hash() const override {
        return co_ecs::component_set_hasher()(s.ids());
    }
    std::unique_ptr<BitsBase> copy() const override {
        return std::make_unique<MetaBits>(*this);
    }
    void assign(const BitsBase& o) override {
        s = static_cast<const MetaBits&>(o).s;
    }
    void check(const std::set<u64>& model) const override {
        std::multiset<u64> ids, want;
        for (auto& m : s) {
            ids.insert(m.id);
            if (!m.type) violation("C17", "meta", "a component of the set has no type");
        }
        for (u64 p : model) want.insert(comps()[p].id);
        if (ids != want || s.size() != model.size()) violation("C17", "iteration", fmt("a component set of %zu yields %zu (size %zu)", want.size(), ids.size(), s.size()));
        std::size_t n = 0;
        for (auto i = s.cbegin(); i != s.cend(); ++i) n++;
        if (n != want.size()) violation("C17", "iteration", "iteration of a component set");
    }
};

void run_bits(Rng& rng) {
    int kind = int(rng.below(6));
    u64 limit = kind >= 4 ? COMPS : std::array<u64, 5>{ 9, 70, 300, 1000, 20000 }[rng.below(5)];
    auto fresh = [&]() -> std::unique_ptr<BitsBase> {
        std::size_t blocks = rng.chance(1, 2) ? 1 : rng.below(6);
        switch (kind) {
        case 0: return std::make_unique<Bits<std::uint8_t>>(blocks);
        case 1: return std::make_unique<Bits<std::uint16_t>>(blocks);
        case 2: return std::make_unique<Bits<std::uint32_t>>(blocks);
        case 3: return std::make_unique<Bits<std::uint64_t>>(blocks);
        case 4: return std::make_unique<CompBits>();
        default: return std::make_unique<MetaBits>();
        }
    };
    struct Slot {
        std::unique_ptr<BitsBase> b;
        std::set<u64> model;
    };
    std::vector<Slot> slots(4);
    for (auto& s : slots) s.b = fresh();
    std::vector<std::string> log;
    struct LogGuard {
        ~LogGuard() {
            trace_log = nullptr;
        }
    } guard;
    trace_log = &log;
    auto full = [&](Slot& s) {
        for (u64 p = 0; p < std::min<u64>(limit, 400); p++) {
            u64 x = limit <= 400 ? p : rng.below(limit);
            if (s.b->test(x) != s.model.contains(x)) violation("C17", "test", fmt("position %llu tests %d (kind %d)", (unsigned long long)x, s.b->test(x), kind));
        }
        for (u64 p : s.model) {
            if (!s.b->test(p)) violation("C17", "test", fmt("position %llu is lost (kind %d)", (unsigned long long)p, kind));
        }
        if (kind < 4) {
            for (u64 p : { limit, limit + 1, limit + 63, limit + 64, limit * 3, ~u64(0), ~u64(0) / 2 + 1 }) {
                if (s.b->test(p) && !s.model.contains(p)) violation("C17", "test", fmt("position %llu beyond the set tests true (kind %d)", (unsigned long long)p, kind));
            }
        }
        s.b->check(s.model);
        count("sets_compared");
    };
    auto compare = [&](const Slot& a, const Slot& b) {
        bool want = a.model == b.model;
        if (a.b->equal(*b.b) != want || b.b->equal(*a.b) != want) violation("C17", "equality", fmt("two sets of %zu and %zu members compare %s (kind %d)", a.model.size(), b.model.size(), want ? "unequal" : "equal", kind));
        if (want && a.b->hash() != b.b->hash()) violation("C17", "hash", fmt("equal sets hash differently (kind %d)", kind));
        count(want ? "equal_pairs" : "unequal_pairs");
    };
    int ops = int(rng.range(20, 400));
    u64 shape = 0;
    for (int i = 0; i < ops; i++) {
        Slot& s = rng.pick(slots);
        u64 p = rng.below(limit);
        bool how = rng.chance(1, 2);
        if (rng.chance(1, 3) && !s.model.empty()) {
            auto j = s.model.lower_bound(p);
            p = j == s.model.end() ? *s.model.rbegin() : *j;
        }
        auto x = rng.below(20);
        log.push_back(fmt("set %zu: op %d position %llu", std::size_t(&s - slots.data()), int(x), (unsigned long long)p));
        if (x < 8) {
            s.b->set(p, how);
            s.model.insert(p);
        } else if (x < 13) {
            s.b->reset(p, how);
            s.model.erase(p);
        } else if (x == 13) {
            // highest members go first
            for (int k = int(rng.below(8)); k > 0 && !s.model.empty(); k--) {
                u64 h = *s.model.rbegin();
                s.b->reset(h, how);
                s.model.erase(h);
            }
        } else if (x == 14 && rng.chance(1, 4)) {
            s.b->clear();
            s.model.clear();
        } else if (x == 15) {
            Slot& o = rng.pick(slots);
            if (rng.chance(1, 2)) s.b = o.b->copy();
            else s.b->assign(*o.b);
            s.model = std::set<u64>(o.model);
            compare(s, o);
        } else if (x == 16) {
            // the same members added in another order, after others came and went
            Slot n{ fresh(), {} };
            std::vector<u64> v(s.model.begin(), s.model.end());
            for (std::size_t k = v.size(); k > 1; k--) std::swap(v[k - 1], v[rng.below(k)]);
            for (u64 y : v) {
                u64 z = rng.below(limit);
                n.b->set(z, how);
                n.b->set(y, how);
                if (!s.model.contains(z)) n.b->reset(z, how);
            }
            n.model = s.model;
            for (u64 y : n.model) n.b->set(y, how);
            compare(n, s);
            full(n);
        } else if (x == 17) {
            // nearly the same
            auto n = Slot{ s.b->copy(), s.model };
            u64 z = rng.below(limit);
            if (n.model.contains(z)) n.b->reset(z, how), n.model.erase(z);
            else n.b->set(z, how), n.model.insert(z);
            compare(n, s);
        } else if (x == 18) {
            Slot n{ fresh(), {} };
            compare(n, s);
        } else {
            full(s);
        }
        compare(slots[rng.below(4)], slots[rng.below(4)]);
        shape = mix(shape ^ p ^ (x << 40));
    }
    for (auto& s : slots) full(s);
    count("operations", ops);
    seen("histories", shape);
}

} // namespace vf

int main(int argc, char** argv) {
    using namespace vf;
    parse_args(argc, argv);
    tracker.prop = "C17";
    cpu_limit_s = 60;
    return run_cases([](u64 c, Rng& rng) {
        switch (rng.below(8)) {
        case 0: run_sparse_v<u64>(rng); break;
        case 1: run_sparse_v<Tracked<2>>(rng); break;
        case 2: run_sparse_v<std::string>(rng); break;
        case 3: run_sparse_v<std::unique_ptr<u64>>(rng); break;
        default: run_bits(rng); break;
        }
        if (c % 97 == 0) sample(fmt("case %llu", (unsigned long long)c));
    });
}
