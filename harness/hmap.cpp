// Monitor for the hash map (C16): random histories against std::map, with good, bad and stateful hash functions, tracked
// elements, and every entry point.
#include "tracked.hpp"
#include <list>
#include <memory>
#include <optional>
#include <utility>
#include <co_ecs/detail/hash_map.hpp>

namespace vf {

using co_ecs::detail::hash_map;

enum HashKind { identity, constant, few, stride16, high, good, runs, HASHES };
const char* hash_names[] = { "identity", "constant", "few", "stride16", "high", "good", "runs" };

inline u64 hash_number(u64 x, int kind, u64 salt) {
    switch (kind) {
    case identity: return x + salt;
    case constant: return salt;
    case few: return (x + salt) % 5;
    case stride16: return (x << 4) + salt;
    case high: return (x << 58) | (salt & 15);
    case runs: return (x / 7) * 3 + salt;
    default: return mix(x ^ salt);
    }
}

template<typename K>
u64 number(const K& k) {
    if constexpr (std::is_same_v<K, std::string>) return k.empty() ? 0 : std::strtoull(k.c_str() + 1, nullptr, 10);
    else if constexpr (std::is_integral_v<K>) return u64(k);
    else return k.get();
}

template<typename K>
K make_key(u64 x) {
    if constexpr (std::is_same_v<K, std::string>) return "k" + std::to_string(x) + std::string(x % 3 ? 0 : 20, 'x');
    else return K(x);
}

template<typename V>
u64 value_number(const V& v) {
    if constexpr (std::is_same_v<V, std::unique_ptr<u64>>) return v ? *v : 0;
    else return number(v);
}

template<typename V>
V make_value(u64 x) {
    if constexpr (std::is_same_v<V, std::string>) return x ? "v" + std::to_string(x) : std::string();
    else if constexpr (std::is_same_v<V, std::unique_ptr<u64>>) return std::make_unique<u64>(x);
    else return V(x);
}

template<typename K>
struct Hash {
    int kind = identity;
    u64 salt = 0;
    std::size_t operator()(const K& k) const {
        return hash_number(number(k), kind, salt);
    }
};

// equality with an identity of its own: it has to travel with the map
template<typename K>
struct Equal {
    u64 salt = 0;
    bool operator()(const K& a, const K& b) const {
        return number(a) == number(b);
    }
};

template<typename K, typename V>
struct Runner {
    static constexpr bool copies = std::is_copy_constructible_v<V>;
    using Map = hash_map<K, V, Hash<K>, Equal<K>>;
    using Model = std::map<u64, u64>;
    Rng& rng;
    u64 keys;
    Hash<K> hash;
    struct Slot {
        std::unique_ptr<Map> m;
        Model model;
    };
    std::vector<Slot> slots;
    u64 next_value = 1;
    u64 checks = 0;
    std::vector<std::string> log;

    explicit Runner(Rng& r) : rng(r) {
    }

    void fail(const char* key, const std::string& msg) {
        violation("C16", key, msg + fmt(" (hash %s)", hash_names[hash.kind]));
    }

    u64 rkey() {
        return rng.below(keys);
    }
    u64 present(const Model& m) {
        if (m.empty()) return rkey();
        auto i = m.lower_bound(rkey());
        return i == m.end() ? m.begin()->first : i->first;
    }
    u64 some(const Model& m) {
        return rng.chance(1, 2) ? present(m) : rkey();
    }
    std::size_t buckets() {
        return std::size_t(1) << rng.below(8);
    }

    template<typename I>
    void entry(const I& i, Map& m, u64 k, u64 v, const char* what) {
        if (i == m.end()) fail("lost", fmt("%s: the entry with key %llu is not there", what, (unsigned long long)k));
        if (number(i->first) != k || value_number(i->second) != v) {
            fail("wrong-entry", fmt("%s: key %llu holds %llu, expected %llu", what, (unsigned long long)k, (unsigned long long)value_number(i->second), (unsigned long long)v));
        }
        checks++;
    }

    void check_all(Slot& s) {
        Map& m = *s.m;
        const Map& c = m;
        if (m.size() != s.model.size() || m.empty() != s.model.empty()) {
            fail("size", fmt("size %zu, expected %zu", m.size(), s.model.size()));
        }
        std::set<u64> met;
        std::size_t n = 0;
        auto visit = [&](const auto& e) {
            u64 k = number(e.first);
            auto i = s.model.find(k);
            if (i == s.model.end()) fail("iterates-absent", fmt("iteration yields key %llu which is not in the map", (unsigned long long)k));
            if (!met.insert(k).second) fail("iterates-twice", fmt("iteration yields key %llu twice", (unsigned long long)k));
            if (value_number(e.second) != i->second) fail("wrong-value", fmt("key %llu has a wrong value", (unsigned long long)k));
            if (++n > s.model.size() + 5) fail("iterates-too-much", "iteration does not end");
        };
        switch (rng.below(4)) {
        case 0:
            for (auto& e : m) visit(e);
            break;
        case 1:
            for (auto& e : c) visit(e);
            break;
        case 2:
            for (auto i = c.cbegin(); i != c.cend(); i++) visit(*i);
            break;
        default:
            for (auto i = m.begin(); !(i == m.end()); ++i) visit(*i);
            break;
        }
        if (met.size() != s.model.size()) fail("iteration-incomplete", fmt("iteration yields %zu entries of %zu", met.size(), s.model.size()));
        for (auto& [k, v] : s.model) {
            auto key = make_key<K>(k);
            entry(m.find(key), m, k, v, "find");
        }
        for (u64 k = 0; k < std::min<u64>(keys, 60); k++) {
            u64 x = keys <= 60 ? k : rkey();
            auto key = make_key<K>(x);
            bool there = s.model.contains(x);
            if (c.contains(key) != there || c.count(key) != there || (c.find(key) != c.end()) != there || (m.find(key) != m.end()) != there) {
                fail("membership", fmt("key %llu: membership is wrong, expected %d", (unsigned long long)x, there));
            }
            checks++;
        }
        count("maps_compared");
    }

    void result(Slot& s, auto r, u64 k, u64 v, bool assign, const char* what) {
        auto [i, fresh] = s.model.emplace(k, v);
        if (!fresh && assign) i->second = v;
        if (r.second != fresh) fail("insert-result", fmt("%s of key %llu says %d, expected %d", what, (unsigned long long)k, r.second, fresh));
        entry(r.first, *s.m, k, i->second, what);
        // the iterator is a position of the iteration
        if (rng.chance(1, 4)) {
            if (!(r.first == s.m->find(make_key<K>(k)))) fail("iterator", fmt("%s returned another iterator than find", what));
            std::size_t before = 0, after = 0;
            auto j = s.m->begin();
            for (; j != s.m->end() && !(j == r.first); ++j) before++;
            for (; j != s.m->end(); ++j) after++;
            if (before + after != s.m->size() || after == 0) fail("iterator", fmt("%s returned an iterator that is not part of the iteration", what));
        }
    }

    void op(Slot& s) {
        Map& m = *s.m;
        const Map& c = m;
        u64 v = next_value++;
        auto name = [&](const char* n, u64 k) {
            log.push_back(fmt("map %zu: %s key %llu value %llu", std::size_t(&s - slots.data()), n, (unsigned long long)k, (unsigned long long)v));
        };
        switch (rng.below(34)) {
        case 0: case 1: case 2: {
            u64 k = rkey();
            name("emplace", k);
            result(s, m.emplace(make_key<K>(k), make_value<V>(v)), k, v, false, "emplace");
            break;
        }
        case 3: {
            u64 k = some(s.model);
            name("emplace piecewise", k);
            if constexpr (std::is_constructible_v<V, u64>) {
                result(s, m.emplace(std::piecewise_construct, std::forward_as_tuple(make_key<K>(k)), std::forward_as_tuple(v)), k, v, false, "emplace");
            } else {
                result(s, m.emplace(std::pair<K, V>(make_key<K>(k), make_value<V>(v))), k, v, false, "emplace");
            }
            break;
        }
        case 4: case 5:
            if constexpr (copies) {
                u64 k = rkey();
                name("insert", k);
                std::pair<K, V> e(make_key<K>(k), make_value<V>(v));
                result(s, m.insert(e), k, v, false, "insert");
                if (number(e.first) != k || value_number(e.second) != v) fail("argument", "insert changed its argument");
            }
            break;
        case 6:
            if constexpr (copies) {
                u64 k = some(s.model);
                name("insert hint", k);
                std::pair<K, V> e(make_key<K>(k), make_value<V>(v));
                auto i = rng.chance(1, 2) ? m.insert(m.begin(), e) : m.insert(m.end(), std::move(e));
                auto [mi, fresh] = s.model.emplace(k, v);
                entry(i, m, k, mi->second, "insert with hint");
            }
            break;
        case 7: case 8: case 9:
            if constexpr (copies) {
                u64 k = some(s.model);
                name("insert_or_assign", k);
                std::pair<K, V> e(make_key<K>(k), make_value<V>(v));
                result(s, m.insert_or_assign(e), k, v, true, "insert_or_assign");
                if (number(e.first) != k || value_number(e.second) != v) fail("argument", "insert_or_assign changed its argument");
            }
            break;
        case 10: case 11: case 12: {
            u64 k = some(s.model);
            name("operator[]", k);
            auto key = make_key<K>(k);
            V& r = m[key];
            auto [i, fresh] = s.model.emplace(k, 0);
            if (value_number(r) != i->second) fail("subscript", fmt("operator[] of key %llu yields %llu, expected %llu", (unsigned long long)k, (unsigned long long)value_number(r), (unsigned long long)i->second));
            r = make_value<V>(v);
            i->second = v;
            if (number(key) != k) fail("argument", "operator[] changed its argument");
            break;
        }
        case 13: case 14: {
            u64 k = some(s.model);
            auto key = make_key<K>(k);
            auto i = s.model.find(k);
            bool thrown = false;
            name("at", k);
            try {
                u64 got = rng.chance(1, 2) ? value_number(m.at(key)) : value_number(c.at(key));
                if (i != s.model.end() && got != i->second) fail("at", fmt("at(%llu) yields %llu", (unsigned long long)k, (unsigned long long)got));
            } catch (const std::out_of_range&) {
                thrown = true;
            }
            if (thrown != (i == s.model.end())) fail("at", fmt("at(%llu) %s", (unsigned long long)k, thrown ? "threw for a present key" : "did not throw for an absent key"));
            if (!thrown && rng.chance(1, 2)) {
                m.at(key) = make_value<V>(v);
                i->second = v;
            }
            break;
        }
        case 15: case 16: case 17: case 18: {
            u64 k = some(s.model);
            name("erase", k);
            auto key = make_key<K>(k);
            const auto& ckey = key;
            auto x = rng.below(3);
            if (x == 0) m.erase(ckey);
            else if (x == 1) m.erase(key);
            else m.erase(make_key<K>(k));
            s.model.erase(k);
            break;
        }
        case 19: case 20: {
            if (s.model.empty()) break;
            u64 k = present(s.model);
            name("erase iterator", k);
            auto key = make_key<K>(k);
            auto i = m.find(key);
            entry(i, m, k, s.model[k], "find");
            auto x = rng.below(4);
            if (x == 0) m.erase(i);
            else if (x == 1) m.erase(c.find(key));
            else if (x == 2) m.erase(i->first); // the key inside of the element
            else m.erase(m.find(key));
            s.model.erase(k);
            break;
        }
        case 21:
            if (rng.chance(1, 6)) {
                name("clear", 0);
                m.clear();
                s.model.clear();
            }
            break;
        case 22: {
            std::size_t n = rng.chance(1, 3) ? rng.below(2 * keys + 2) : rng.chance(1, 2) ? s.model.size() + rng.below(3) : rng.below(s.model.size() + 1);
            name("reserve", n);
            m.reserve(n);
            break;
        }
        case 23: case 24:
            // an element's value as argument, also when the table grows
            if constexpr (copies) {
                if (s.model.empty()) break;
                u64 from = present(s.model), k = some(s.model);
                name("emplace from element", k);
                u64 x = s.model[from];
                if (rng.chance(1, 2)) {
                    result(s, m.emplace(make_key<K>(k), std::as_const(m).at(make_key<K>(from))), k, x, false, "emplace from an element");
                } else {
                    auto i = m.find(make_key<K>(from));
                    const auto& e = *i;
                    u64 mv = s.model[from];
                    auto r = rng.chance(1, 2) ? m.insert_or_assign(e) : m.insert(e);
                    if (r.second) fail("insert-result", "an element was inserted that is there already");
                    entry(r.first, m, from, mv, "insert of an element");
                }
            }
            break;
        case 25: case 26: {
            if constexpr (copies) {
                Slot& o = rng.pick(slots);
                name("copy", u64(&o - slots.data()));
                if (rng.chance(1, 2)) {
                    m = *o.m; // may be itself
                } else {
                    auto copy = std::make_unique<Map>(*o.m);
                    s.m = std::move(copy);
                }
                s.model = Model(o.model);
                check_all(s);
                check_all(o);
            }
            break;
        }
        case 27: case 28: {
            Slot& o = rng.pick(slots);
            if (&o == &s) break;
            name("move", u64(&o - slots.data()));
            if (rng.chance(1, 2)) {
                m = std::move(*o.m);
            } else {
                s.m = std::make_unique<Map>(std::move(*o.m));
            }
            s.model = std::move(o.model);
            o.model = {};
            // valid but unspecified: usable again after clear, or replaced
            if (rng.chance(2, 3)) o.m->clear();
            else o.m = std::make_unique<Map>(buckets(), hash, Equal<K>{});
            check_all(s);
            check_all(o);
            break;
        }
        case 29: {
            name("construct", 0);
            s.model.clear();
            switch (rng.below(6)) {
            case 0: s.m = std::make_unique<Map>(buckets(), hash, Equal<K>{}); break;
            case 1: s.m = std::make_unique<Map>(); break; // (its hash is the default one)
            default:
                s.m = std::make_unique<Map>(buckets(), hash);
                if constexpr (copies) {
                    auto n = rng.below(rng.chance(1, 3) ? keys + 1 : 8);
                    std::map<u64, u64> pick;
                    for (u64 i = 0; i < n; i++) pick.emplace(rkey(), next_value++);
                    std::vector<std::pair<K, V>> in;
                    for (auto& [k, x] : pick) in.emplace_back(make_key<K>(k), make_value<V>(x));
                    for (std::size_t i = in.size(); i > 1; i--) std::swap(in[i - 1], in[rng.below(i)]);
                    if (rng.chance(1, 3) && in.size() >= 2) {
                        s.m = std::make_unique<Map>(std::initializer_list<std::pair<K, V>>{ in[0], in[1] }, buckets(), hash);
                        for (int i = 0; i < 2; i++) s.model.emplace(number(in[i].first), value_number(in[i].second));
                    } else if (rng.chance(1, 2)) {
                        std::list<std::pair<K, V>> l(in.begin(), in.end());
                        s.m = std::make_unique<Map>(l.begin(), l.end(), buckets(), hash, Equal<K>{});
                        s.model = pick;
                        for (auto& e : l) {
                            if (value_number(e.second) != pick[number(e.first)]) fail("argument", "construction from a range changed the range");
                        }
                    } else {
                        const auto& cin = in;
                        s.m = std::make_unique<Map>(cin.begin(), cin.end(), buckets(), hash, Equal<K>{});
                        s.model = pick;
                    }
                    for (auto& e : in) {
                        if (value_number(e.second) != pick[number(e.first)]) fail("argument", "construction from a range changed the range");
                    }
                }
            }
            check_all(s);
            break;
        }
        case 30: {
            // write through iteration
            name("write", 0);
            for (auto& e : m) {
                u64 k = number(e.first);
                u64 x = next_value++;
                e.second = make_value<V>(x);
                s.model[k] = x;
            }
            break;
        }
        default: {
            u64 k = some(s.model);
            auto key = make_key<K>(k);
            bool there = s.model.contains(k);
            if (c.contains(key) != there || c.count(key) != std::size_t(there)) fail("membership", fmt("key %llu: expected %d", (unsigned long long)k, there));
            auto i = m.find(key);
            if (there) entry(i, m, k, s.model[k], "find");
            else if (i != m.end()) fail("membership", "find of an absent key found something");
            break;
        }
        }
        if (s.m->size() != s.model.size()) fail("size", fmt("size %zu, expected %zu", s.m->size(), s.model.size()));
    }

    void run() {
        hash.kind = int(rng.below(HASHES));
        hash.salt = rng.chance(1, 3) ? 0 : rng.next() >> rng.below(64);
        static const u64 sizes[] = { 3, 12, 20, 40, 120, 700, 3000 };
        bool slow = hash.kind == constant || hash.kind == few || hash.kind == high || hash.kind == stride16;
        keys = sizes[rng.below(slow ? 5 : 7)];
        int ops = int(rng.range(20, keys > 500 ? 4000 : 500));
        trace_log = &log;
        slots.resize(rng.range(1, 3));
        for (auto& s : slots) {
            s.m = std::make_unique<Map>(buckets(), hash, Equal<K>{});
            check_all(s);
        }
        u64 every = keys > 500 ? 400 : rng.range(1, 20);
        u64 shape = 0;
        bool growing = true;
        for (int i = 0; i < ops; i++) {
            Slot& s = rng.pick(slots);
            op(s);
            // phases of growth and of shrinking
            if (rng.chance(1, 60)) growing = !growing;
            if (rng.chance(1, 3)) {
                for (u64 k = 0, n = rng.below(keys > 500 ? 60 : 6); k < n; k++) {
                    u64 x = growing ? rkey() : present(s.model);
                    if (growing) {
                        auto r = s.m->emplace(make_key<K>(x), make_value<V>(next_value));
                        if (r.second != !s.model.contains(x)) fail("insert-result", "emplace");
                        if (r.second) s.model[x] = next_value;
                        next_value++;
                    } else {
                        s.m->erase(make_key<K>(x));
                        s.model.erase(x);
                    }
                }
            }
            if (i % every == 0) check_all(s);
            shape = mix(shape ^ s.model.size() ^ (log.empty() ? 0 : std::hash<std::string>()(log.back().substr(7, 12))));
        }
        for (auto& s : slots) check_all(s);
        count("operations", ops);
        count("entries_checked", checks);
        seen("histories", mix(shape ^ (u64(hash.kind) << 50) ^ keys));
        count(std::string("hash_") + hash_names[hash.kind]);
        slots.clear();
        trace_log = nullptr;
    }
};

template<typename K, typename V>
void run(Rng& rng) {
    {
        Runner<K, V> r(rng);
        r.run();
    }
    if (!tracker.live.empty()) {
        auto n = tracker.live.size();
        tracker.live.clear();
        violation("C16", "not-destroyed", fmt("%zu elements were never destroyed", n));
    }
}

} // namespace vf

int main(int argc, char** argv) {
    using namespace vf;
    parse_args(argc, argv);
    tracker.prop = "C16";
    cpu_limit_s = 60;
    return run_cases([](u64 c, Rng& rng) {
        tracker.live.clear();
        try {
            switch (rng.below(5)) {
            case 0: run<u64, u64>(rng); break;
            case 1: run<Tracked<1>, Tracked<2>>(rng); break;
            case 2: run<std::string, Tracked<2>>(rng); break;
            case 3: run<std::uint32_t, std::string>(rng); break;
            default: run<Tracked<1>, std::unique_ptr<u64>>(rng); break;
            }
        } catch (...) {
            trace_log = nullptr;
            throw;
        }
        if (c % 97 == 0) sample(fmt("case %llu: %llu constructions so far", (unsigned long long)c, (unsigned long long)tracker.constructions));
    });
}
