// Differential monitor for registries: drives random operation histories over several registries and compares
// everything observable with an executable model (a map from entity to typed values).
#include "ops.hpp"

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#endif

namespace vf {

void add_types_0(std::vector<TypeOps>&);
void add_types_1(std::vector<TypeOps>&);
void add_types_2(std::vector<TypeOps>&);
void add_types_3(std::vector<TypeOps>&);
void add_types_4(std::vector<TypeOps>&);
void add_combos_0(std::vector<ComboOps>&);
void add_combos_1(std::vector<ComboOps>&);
void add_combos_2(std::vector<ComboOps>&);
void add_combos_3(std::vector<ComboOps>&);
void add_combos_4(std::vector<ComboOps>&);
u64 touch_dummies();

std::vector<TypeOps>& type_ops() {
    static auto v = [] {
        std::vector<TypeOps> v;
        add_types_0(v);
        add_types_1(v);
        add_types_2(v);
        add_types_3(v);
        add_types_4(v);
        return v;
    }();
    return v;
}

std::vector<ComboOps>& combo_ops() {
    static auto v = [] {
        std::vector<ComboOps> v;
        add_combos_0(v);
        add_combos_1(v);
        add_combos_2(v);
        add_combos_3(v);
        add_combos_4(v);
        return v;
    }();
    return v;
}

enum Outcome {
    OK = 1,
    ENTITY_NOT_FOUND = 2,
    COMPONENT_NOT_FOUND = 4,
    INSUFFICIENT = 8,
    BOOM = 16,
    INVALID_ARGUMENT = 32,
    OTHER = 64,
};

const char* outcome_name(int o) {
    switch (o) {
    case OK: return "success";
    case ENTITY_NOT_FOUND: return "entity_not_found";
    case COMPONENT_NOT_FOUND: return "component_not_found";
    case INSUFFICIENT: return "insufficient_chunk_size";
    case BOOM: return "the component's exception";
    case INVALID_ARGUMENT: return "invalid_argument";
    default: return "another exception";
    }
}

int attempt(auto&& f) {
    try {
        f();
        return OK;
    } catch (const CaseAbort&) {
        throw;
    } catch (const co_ecs::entity_not_found&) {
        return ENTITY_NOT_FOUND;
    } catch (const co_ecs::component_not_found&) {
        return COMPONENT_NOT_FOUND;
    } catch (const co_ecs::insufficient_chunk_size&) {
        return INSUFFICIENT;
    } catch (const Boom&) {
        return BOOM;
    } catch (const std::invalid_argument&) {
        return INVALID_ARGUMENT;
    } catch (...) {
        return OTHER;
    }
}

u64 key(entity e) {
    return (u64(e.id()) << 32) | e.generation();
}

using CompSet = std::map<int, u64>; // component type -> value

struct MEnt {
    entity h;
    CompSet c;
};

constexpr std::size_t block_bytes = co_ecs::chunk::chunk_bytes;

// Whether one instance of the set must fit into a storage block: 1 must, 0 must not, -1 depends on the block order
int fits(const CompSet& c) {
    std::size_t sum = sizeof(entity), slack = 0, max_align = alignof(entity);
    auto& t = type_ops();
    for (auto& [i, v] : c) {
        sum += t[i].size;
        slack += t[i].align - 1;
        max_align = std::max(max_align, t[i].align);
    }
    if (sum > block_bytes) return 0;
    bool padding_free = sizeof(entity) % max_align == 0;
    for (auto& [i, v] : c) padding_free = padding_free && t[i].size % max_align == 0;
    if (padding_free || sum + slack + (alignof(entity) - 1) <= block_bytes) return 1;
    if (c.size() == 1) {
        // only two blocks, in the order entity, component or reversed
        auto& o = t[c.begin()->first];
        auto up = [](std::size_t a, std::size_t b) { return (a + b - 1) / b * b; };
        if (up(sizeof(entity), o.align) + o.size <= block_bytes && up(o.size, alignof(entity)) + sizeof(entity) <= block_bytes)
            return 1;
    }
    return -1;
}

struct MReg {
    std::unique_ptr<registry> r = std::make_unique<registry>();
    std::vector<MEnt> ents;
    std::unordered_map<u64, std::size_t> index;
    std::unordered_set<u64> ever;      // handles handed out so far
    std::vector<entity> dead;          // some of those that are not alive any more
    std::vector<co_ecs::placeholder_entity> pending; // reserved, not synchronised
    std::vector<co_ecs::placeholder_entity> ready;   // reserved and synchronised
    std::unordered_set<std::uint32_t> ids;
    std::size_t peak = 0;
    struct Kept {
        int combo;
        std::function<void(std::vector<Row>&)> fn;
    };
    std::vector<Kept> views;

    std::size_t outstanding() const {
        return ents.size() + pending.size() + ready.size();
    }
    MEnt* find(entity e) {
        auto i = index.find(key(e));
        return i == index.end() ? nullptr : &ents[i->second];
    }
    void add(MEnt e) {
        index[key(e.h)] = ents.size();
        ents.push_back(std::move(e));
    }
    void del(entity e) {
        auto i = index.find(key(e));
        auto n = i->second;
        index.erase(i);
        if (n + 1 != ents.size()) {
            ents[n] = std::move(ents.back());
            index[key(ents[n].h)] = n;
        }
        ents.pop_back();
        if (dead.size() < 64) dead.push_back(e);
        else dead[key(e) % 64] = e;
    }
};

enum PropTag : unsigned { T01 = 1, T02 = 2, T03 = 4, T05 = 16, T06 = 32, T07 = 64, T08 = 128, T09 = 256, T20 = 1 << 19 };

void tagged(unsigned tags, const std::string& k, const std::string& msg) {
    if (tags & T01) violation("C01", k, msg);
    if (tags & T02) violation("C02", k, msg);
    if (tags & T03) violation("C03", k, msg);
    if (tags & T05) violation("C05", k, msg);
    if (tags & T06) violation("C06", k, msg);
    if (tags & T07) violation("C07", k, msg);
    if (tags & T08) violation("C08", k, msg);
    if (tags & T09) violation("C09", k, msg);
    if (tags & T20) violation("C20", k, msg);
}

struct Engine {
    Rng& rng;
    std::vector<TypeOps>& T = type_ops();
    std::vector<ComboOps>& C = combo_ops();
    std::vector<MReg> regs;
    std::vector<int> palette;
    std::vector<int> combos; // combinations in use
    u64 next_value = 1;
    std::size_t max_entities;
    std::unordered_map<co_ecs::component_id_t, int> by_id;
    std::vector<std::string> log;
    u64 ops = 0;
    u64 state_hash = 0;

    explicit Engine(Rng& r) : rng(r) {
        for (auto& t : T) {
            auto [i, ins] = by_id.emplace(t.id(), t.index);
            VF_CHECK("C19", "id-collision", ins, "types %d and %d share component id %u", i->second, t.index, t.id());
        }
    }

    u64 val() {
        return next_value++;
    }

    template<typename... A>
    void trace(const char* f, A... a) {
        if (log.size() > 400) log.erase(log.begin(), log.begin() + 200);
        log.push_back(fmt(f, a...));
    }

    static std::string name(entity e) {
        return fmt("(%u,%u)", e.id(), e.generation());
    }

    // ---- checks ----

    void expect(int got, int allowed, unsigned tags, const char* what) {
        if (case_bad) throw CaseAbort{};
        if (got & allowed) return;
        unsigned t = tags;
        // success reported for something that cannot succeed, or a wrong exception: the failure contract
        if (!(allowed & OK) || got != OK) t |= T06;
        tagged(t, std::string("outcome-") + what, fmt("%s: %s", what, outcome_name(got)));
    }

    void no_copies(u64 before, const char* what) {
        if (ledger.copies != before) {
            violation("C04", "unasked-copy", fmt("%s copied a component although no copy was asked for", what));
        }
    }

    void check_entity(MReg& m, MEnt& e, unsigned tags) {
        auto& r = *m.r;
        const registry& cr = r;
        count_ent++;
        if (!r.alive(e.h) || !r.get_entity(e.h).alive() || !cr.get_entity(e.h).alive()) {
            tagged(tags | T02, "live-reported-dead", "live entity " + name(e.h) + " is reported dead");
        }
        std::map<int, const void*> addr;
        for (auto i : palette) {
            bool want = e.c.contains(i);
            bool got = false;
            int o = attempt([&] { got = T[i].has(r, e.h, int(rng.below(3))); });
            if (o != OK) tagged(tags | T06, "has-throws", fmt("has<%d> throws %s for a live entity", i, outcome_name(o)));
            if (got != want) tagged(tags, "has", fmt("has<%d> of %s is %d, expected %d", i, name(e.h).c_str(), got, want));
            if (!want && rng.chance(1, 8)) {
                int o = attempt([&] { T[i].get(r, e.h, int(rng.below(3))); });
                expect(o, COMPONENT_NOT_FOUND, T06, "get-missing");
            }
        }
        for (auto& [i, v] : e.c) {
            Seen s;
            int o = attempt([&] { s = T[i].get(r, e.h, int(rng.below(3))); });
            if (case_bad) throw CaseAbort{};
            if (o != OK) tagged(tags | T06, "get-throws", fmt("get<%d> throws %s although %s has it", i, outcome_name(o), name(e.h).c_str()));
            addr[i] = s.addr;
            if (s.value != v) {
                tagged(tags, "value", fmt("component %d of %s is %llx, expected %llx", i, name(e.h).c_str(),
                    (unsigned long long)s.value, (unsigned long long)v));
            }
            if (reinterpret_cast<std::uintptr_t>(s.addr) % T[i].align) {
                tagged(T05, "misaligned", fmt("component %d (align %zu) at misaligned address", i, T[i].align));
            }
        }
        // visit
        std::map<int, const void*> seen_addr;
        bool dup = false, unknown = false, badsize = false;
        auto visitor = [&](const co_ecs::component_meta& meta, const void* p) noexcept {
            auto k = by_id.find(meta.id);
            if (k == by_id.end()) {
                unknown = true;
                return;
            }
            dup = dup || !seen_addr.emplace(k->second, p).second;
            badsize = badsize || meta.type->size != T[k->second].size;
        };
        int o;
        if (rng.chance(1, 2)) o = attempt([&] { r.get_entity(e.h).visit([&](const co_ecs::component_meta& m, void* p) { visitor(m, p); }); });
        else o = attempt([&] { cr.get_entity(e.h).visit([&](const co_ecs::component_meta& m, const void* p) { visitor(m, p); }); });
        if (o != OK) tagged(tags | T06, "visit-throws", "visit throws for a live entity");
        if (dup || unknown || badsize) tagged(tags, "visit-set", "visit reports a component twice, an unknown component or a wrong size");
        if (seen_addr.size() != e.c.size()) tagged(tags, "visit-set", fmt("visit reports %zu components of %s, expected %zu", seen_addr.size(), name(e.h).c_str(), e.c.size()));
        for (auto& [i, v] : e.c) {
            auto k = seen_addr.find(i);
            if (k == seen_addr.end()) tagged(tags, "visit-set", fmt("visit misses component %d", i));
            else if (T[i].read_ptr(k->second) != v) tagged(tags, "visit-value", fmt("visit shows a wrong value of component %d", i));
        }
        if (case_bad) throw CaseAbort{};
        // archetype
        o = attempt([&] {
            auto& a = r.get_entity(e.h).archetype();
            if (a.components().size() != e.c.size()) tagged(tags, "archetype", "the entity's archetype has a wrong number of components");
            for (auto i : palette) {
                if (T[i].arch_has(a) != e.c.contains(i)) tagged(tags, "archetype", fmt("the entity's archetype is wrong about component %d", i));
            }
        });
        if (o != OK) tagged(tags | T06, "archetype-throws", "archetype() throws for a live entity");
    }

    u64 count_ent = 0;

    void check_size(MReg& m, unsigned tags) {
        auto n = m.r->size();
        auto reserved = m.pending.size() + m.ready.size();
        if (n < m.ents.size() || n > m.ents.size() + reserved) {
            tagged(tags, "size", fmt("size() is %zu, expected %zu", n, m.ents.size()));
        }
        if (m.r->empty() != (n == 0)) tagged(tags, "empty", "empty() disagrees with size()");
    }

    void check_dead(MReg& m, unsigned tags) {
        if (m.dead.empty()) return;
        for (int k = 0; k < 3; k++) {
            auto h = rng.pick(m.dead);
            if (m.r->alive(h) || m.r->get_entity(h).alive()) {
                tagged(tags | T02, "dead-reported-alive", "destroyed entity " + name(h) + " is reported alive");
            }
        }
        for (auto h : { entity::invalid(), entity{}, entity{ entity::invalid_id, 0 } }) {
            if (m.r->alive(h)) tagged(tags | T02, "invalid-alive", "an invalid handle is reported alive");
        }
    }

    void check_reg(MReg& m, unsigned tags, std::size_t limit) {
        check_size(m, tags);
        check_dead(m, tags);
        if (m.ents.size() <= limit) {
            for (auto& e : m.ents) check_entity(m, e, tags);
            count("registry_states_fully_compared");
        } else {
            auto from = rng.below(m.ents.size());
            for (std::size_t k = 0; k < limit; k++) check_entity(m, m.ents[(from + k) % m.ents.size()], tags);
        }
        count("entity_states_compared", count_ent);
        count_ent = 0;
    }

    void check_view(MReg& m, int ci, int mode, bool writes, unsigned tags) {
        auto& co = C[ci];
        // expectation
        std::vector<std::pair<entity, std::vector<u64>>> want;
        for (auto& e : m.ents) {
            std::vector<u64> v;
            for (auto i : co.types) {
                auto k = e.c.find(i);
                if (k == e.c.end()) break;
                v.push_back(k->second);
            }
            if (v.size() == co.types.size()) want.emplace_back(e.h, std::move(v));
        }
        std::vector<Row> rows;
        std::vector<u64> written;
        u64 base = next_value;
        Writer w = [&](u64) {
            written.push_back(next_value);
            return next_value++;
        };
        bool can_write = writes && (mode == 0 || mode == 1 || mode == 2 || mode == 3 || mode == 11);
        trace("view combo %d mode %d write %d", ci, mode, int(can_write));
        u64 copies = ledger.copies;
        int o = attempt([&] { co.view(*m.r, mode, rows, can_write ? &w : nullptr); });
        if (case_bad) throw CaseAbort{};
        if (o != OK) tagged(tags, "view-throws", fmt("iterating a view throws %s", outcome_name(o)));
        no_copies(copies, "view");
        count("views_compared");
        count("view_rows", rows.size());
        compare_rows(m, co, rows, want, mode == 11 || mode == 12, tags);
        if (can_write) {
            // the k-th row's components were written with consecutive values, in order
            std::size_t n = 0;
            for (auto& row : rows) {
                auto* e = m.find(row.ent);
                for (auto i : co.types) {
                    if (e) e->c[i] = T[i].canon(written[n]);
                    n++;
                }
            }
            (void)base;
            for (std::size_t k = 0; k < std::min<std::size_t>(rows.size(), 16); k++) {
                auto* e = m.find(rows[rng.below(rows.size())].ent);
                if (e) check_entity(m, *e, tags | T01);
            }
        }
    }

    void compare_rows(MReg& m, ComboOps& co, std::vector<Row>& rows, std::vector<std::pair<entity, std::vector<u64>>>& want,
        bool single, unsigned tags) {
        if (single) {
            if (rows.size() != (want.empty() ? 0 : 1)) {
                tagged(tags, "single", fmt("single() yields %zu entries, %zu entities match", rows.size(), want.size()));
            }
        } else if (rows.size() != want.size()) {
            tagged(tags, "view-count", fmt("view visits %zu entries, %zu entities match", rows.size(), want.size()));
        }
        std::unordered_set<u64> once;
        std::vector<std::vector<u64>> got_values, want_values;
        for (auto& row : rows) {
            std::vector<u64> v;
            for (auto& s : row.c) v.push_back(s.value);
            if (row.has_entity) {
                if (!once.insert(key(row.ent)).second) tagged(tags, "view-twice", "view visits " + name(row.ent) + " twice");
                auto* e = m.find(row.ent);
                if (!e) {
                    tagged(tags, "view-foreign", "view visits " + name(row.ent) + ", which is not a live entity");
                    continue;
                }
                for (std::size_t k = 0; k < co.types.size(); k++) {
                    auto i = e->c.find(co.types[k]);
                    if (i == e->c.end()) tagged(tags, "view-nonmatching", "view visits " + name(row.ent) + ", which lacks a requested component");
                    else if (i->second != v[k]) tagged(tags, "view-value", fmt("view pairs %s with a wrong value of component %d", name(row.ent).c_str(), co.types[k]));
                }
            }
            got_values.push_back(std::move(v));
        }
        if (single) {
            if (rows.size() == 1 && !want.empty()) {
                bool found = false;
                for (auto& [h, v] : want) found = found || v == got_values[0];
                if (!found) tagged(tags, "single-value", "single() yields values no matching entity has");
            }
            return;
        }
        for (auto& [h, v] : want) want_values.push_back(v);
        std::sort(got_values.begin(), got_values.end());
        std::sort(want_values.begin(), want_values.end());
        if (got_values != want_values) tagged(tags, "view-values", "the values a view yields differ from those of the matching entities");
        // the references are those of the entities' own components
        for (std::size_t k = 0; k < std::min<std::size_t>(4, rows.size()); k++) {
            auto& row = rows[rng.below(rows.size())];
            if (!row.has_entity) continue;
            std::vector<Seen> own;
            int o = attempt([&] { co.get(*m.r, row.ent, int(rng.below(3)), own); });
            if (o != OK) continue;
            for (std::size_t j = 0; j < own.size(); j++) {
                if (own[j].addr != row.c[j].addr) tagged(tags, "view-address", "a view yields a reference to something else than the entity's component");
            }
        }
    }

    void check_entity_view(MReg& m, unsigned tags) {
        std::unordered_set<u64> got;
        std::size_t n = 0;
        const registry& cr = *m.r;
        if (rng.chance(1, 2)) {
            for (auto [e] : m.r->view<const entity&>().each()) {
                got.insert(key(e));
                n++;
            }
        } else {
            cr.view<const entity&>().each([&](const entity& e) {
                got.insert(key(e));
                n++;
            });
        }
        if (n != m.ents.size() || got.size() != n) {
            tagged(tags, "entity-view", fmt("the view of all entities has %zu entries (%zu distinct), expected %zu", n, got.size(), m.ents.size()));
        }
        for (auto& e : m.ents) {
            if (!got.contains(key(e.h))) tagged(tags, "entity-view", "the view of all entities misses " + name(e.h));
        }
        count("views_compared");
    }

    void check_kept(MReg& m, unsigned tags) {
        for (auto& k : m.views) {
            std::vector<Row> rows;
            auto& co = C[k.combo];
            std::vector<std::pair<entity, std::vector<u64>>> want;
            for (auto& e : m.ents) {
                std::vector<u64> v;
                for (auto i : co.types) {
                    auto x = e.c.find(i);
                    if (x == e.c.end()) break;
                    v.push_back(x->second);
                }
                if (v.size() == co.types.size()) want.emplace_back(e.h, std::move(v));
            }
            int o = attempt([&] { k.fn(rows); });
            if (case_bad) throw CaseAbort{};
            if (o != OK) tagged(tags, "view-throws", "iterating a view again throws");
            compare_rows(m, co, rows, want, false, tags);
            count("kept_views_iterated_again");
        }
    }

    // every component and entity handle occupies its own, accessible, aligned memory
    void check_layout(MReg& m) {
        struct Iv {
            std::uintptr_t a, b;
            int type;
        };
        std::vector<Iv> iv;
        for (auto& e : m.ents) {
            for (auto& [i, v] : e.c) {
                Seen s;
                if (attempt([&] { s = T[i].get(*m.r, e.h, int(rng.below(3))); }) != OK) continue;
                auto a = reinterpret_cast<std::uintptr_t>(s.addr);
                if (a % T[i].align) tagged(T05, "misaligned", fmt("component %d (align %zu) at misaligned address", i, T[i].align));
                iv.push_back({ a, a + T[i].size, i });
            }
        }
        for (auto [e] : m.r->view<const entity&>().each()) {
            auto a = reinterpret_cast<std::uintptr_t>(&e);
            if (a % alignof(entity)) tagged(T05, "misaligned", "entity handle at misaligned address");
            iv.push_back({ a, a + sizeof(entity), -1 });
        }
        std::sort(iv.begin(), iv.end(), [](auto& x, auto& y) { return x.a < y.a; });
        std::uintptr_t end = 0;
        int last = -2;
        for (auto& x : iv) {
            if (x.a < end) tagged(T05, "overlap", fmt("component %d overlaps component %d", x.type, last));
            if (x.b > end) {
                end = x.b;
                last = x.type;
            }
#if defined(__SANITIZE_ADDRESS__)
            if (__asan_region_is_poisoned(reinterpret_cast<void*>(x.a), x.b - x.a)) {
                tagged(T05, "outside", fmt("component %d extends outside of allocated memory", x.type));
            }
            char nm[8];
            void* region = nullptr;
            std::size_t size = 0;
            const char* where = __asan_locate_address(reinterpret_cast<void*>(x.a), nm, sizeof nm, &region, &size);
            auto ra = reinterpret_cast<std::uintptr_t>(region);
            if (std::strcmp(where, "heap") || x.a < ra || x.b > ra + size) {
                tagged(T05, "outside", fmt("component %d does not lie within one heap block", x.type));
            }
#endif
        }
        count("layout_intervals_checked", iv.size());
        std::set<std::vector<int>> sets;
        for (auto& e : m.ents) {
            std::vector<int> s;
            for (auto& [i, v] : e.c) s.push_back(i);
            sets.insert(s);
        }
        for (auto& s : sets) {
            u64 h = 17;
            for (auto i : s) h = mix(h ^ u64(i + 1));
            seen("component_sets", h);
        }
    }

    // storage blocks are bounded by what the entities need plus one
    void check_blocks(MReg& m) {
        std::map<std::vector<int>, std::size_t> n;
        for (auto& e : m.ents) {
            std::vector<int> s;
            for (auto& [i, v] : e.c) s.push_back(i);
            n[s]++;
        }
        for (auto& entry : std::as_const(*m.r).archetypes()) {
            auto& a = *entry.second;
            std::vector<int> s;
            bool known = true;
            for (auto& meta : a.components()) {
                auto k = by_id.find(meta.id);
                if (k == by_id.end()) known = false;
                else s.push_back(k->second);
            }
            if (!known) continue;
            std::sort(s.begin(), s.end());
            auto count_ents = n.contains(s) ? n[s] : 0;
            auto& chunks = a.chunks();
            std::size_t per_block = chunks.empty() ? 1 : chunks[0].max_size();
            std::size_t need = per_block ? (count_ents + per_block - 1) / per_block : 0;
            if (chunks.size() > need + 1) {
                tagged(T20, "blocks", fmt("%zu storage blocks for %zu entities of a set with %zu per block", chunks.size(), count_ents, per_block));
            }
            count("component_set_block_counts_checked");
        }
    }

    // ---- bookkeeping of handles ----

    void handed_out(MReg& m, entity h, unsigned tags, bool now_alive = true) {
        if (!h.valid()) tagged(T02 | tags, "invalid-handle", "an invalid handle is handed out");
        if (!m.ever.insert(key(h)).second) {
            tagged(T02 | tags, "handle-reused", "handle " + name(h) + " is handed out twice");
        }
        if (now_alive && !m.r->alive(h)) tagged(T02 | tags, "new-not-alive", "new entity " + name(h) + " is not alive");
        m.ids.insert(h.id());
    }

    void note_peak(MReg& m) {
        m.peak = std::max(m.peak, m.outstanding());
        if (m.ids.size() > m.peak) {
            tagged(T02 | T20, "ids-not-recycled", fmt("%zu distinct ids handed out, at most %zu entities were live or reserved at a time", m.ids.size(), m.peak));
        }
    }

    // ---- operations ----

    MEnt* any(MReg& m) {
        return m.ents.empty() ? nullptr : &rng.pick(m.ents);
    }
    MEnt* any_with(MReg& m, int type) {
        for (int k = 0; k < 6; k++) {
            auto* e = any(m);
            if (e && e->c.contains(type)) return e;
        }
        for (auto& e : m.ents)
            if (e.c.contains(type)) return &e;
        return nullptr;
    }

    void op_create(MReg& m) {
        if (m.ents.size() >= max_entities) return op_destroy(m);
        CompSet want;
        entity h;
        int o;
        u64 copies = ledger.copies;
        auto was = rng.below(10);
        if (was == 0) {
            trace("create()");
            o = attempt([&] { h = m.r->create(); });
        } else if (was < 5 || combos.empty()) {
            int t = rng.pick(palette);
            u64 v = val();
            want[t] = T[t].canon(v);
            trace("create<%d>", t);
            o = attempt([&] { h = T[t].create(*m.r, v); });
        } else {
            auto& co = C[rng.pick(combos)];
            u64 v[16];
            for (std::size_t k = 0; k < co.types.size(); k++) {
                v[k] = val();
                want[co.types[k]] = T[co.types[k]].canon(v[k]);
            }
            trace("create combo of %zu", co.types.size());
            o = attempt([&] { h = co.create(*m.r, v); });
        }
        int f = fits(want);
        count("op_create");
        expect(o, f == 1 ? OK : f == 0 ? INSUFFICIENT : OK | INSUFFICIENT, T01 | T05, "create");
        no_copies(copies, "create");
        if (o != OK) {
            count("failed_operations");
            after_failure();
            return;
        }
        handed_out(m, h, 0);
        m.add({ h, want });
        note_peak(m);
        check_entity(m, m.ents.back(), T01);
        auto_check(m);
    }

    void auto_check(MReg& m) {
        if (rng.chance(1, 4)) {
            if (auto* e = any(m)) check_entity(m, *e, T01);
        }
    }

    void after_failure() {
        for (auto& m : regs) {
            check_reg(m, T01 | T06, 24);
            if (rng.chance(1, 4)) check_entity_view(m, T03 | T06);
        }
        state();
    }

    void op_set(MReg& m) {
        auto* e = any(m);
        if (!e) return op_create(m);
        int t = rng.pick(palette);
        auto h = e->h;
        CompSet want = e->c;
        u64 v = val();
        bool had = want.contains(t);
        want[t] = T[t].canon(v);
        int mode = int(rng.below(3));
        if (mode == 2) val();
        trace("set<%d> %s mode %d", t, name(h).c_str(), mode);
        u64 copies = ledger.copies;
        int o = attempt([&] { T[t].set(*m.r, h, v, mode); });
        count("op_set");
        int f = fits(want);
        expect(o, f == 1 || had ? OK : f == 0 ? INSUFFICIENT : OK | INSUFFICIENT, T01 | T05, "set");
        no_copies(copies, "set");
        if (o != OK) {
            count("failed_operations");
            return after_failure();
        }
        e->c = want;
        check_entity(m, *e, T01);
        auto_check(m);
    }

    void op_goi(MReg& m) {
        auto* e = any(m);
        if (!e) return op_create(m);
        int t = rng.pick(palette);
        auto h = e->h;
        CompSet want = e->c;
        u64 v = val();
        bool had = want.contains(t);
        if (!had) want[t] = T[t].canon(v);
        Seen s;
        trace("get_or_insert<%d> %s", t, name(h).c_str());
        u64 copies = ledger.copies;
        int o = attempt([&] { s = T[t].get_or_insert(*m.r, h, v, int(rng.below(2))); });
        count("op_get_or_insert");
        int f = fits(want);
        expect(o, f == 1 || had ? OK : f == 0 ? INSUFFICIENT : OK | INSUFFICIENT, T01 | T05, "get_or_insert");
        no_copies(copies, "get_or_insert");
        if (o != OK) {
            count("failed_operations");
            return after_failure();
        }
        e->c = want;
        if (s.value != want[t]) tagged(T01, "get_or_insert-value", "get_or_insert returns a wrong value");
        if (s.addr != T[t].get(*m.r, h, 0).addr) tagged(T01, "get_or_insert-ref", "get_or_insert returns a reference to something else");
        check_entity(m, *e, T01);
        auto_check(m);
    }

    void op_remove(MReg& m) {
        auto* e = any(m);
        if (!e) return op_create(m);
        int t = rng.pick(palette);
        if (!e->c.empty() && rng.chance(3, 4)) {
            auto i = e->c.begin();
            std::advance(i, rng.below(e->c.size()));
            t = i->first;
        }
        trace("remove<%d> %s", t, name(e->h).c_str());
        u64 copies = ledger.copies;
        int o = attempt([&] { T[t].remove(*m.r, e->h); });
        count("op_remove");
        CompSet want = e->c;
        want.erase(t);
        // an order dependent layout may reject the smaller set, all others fit
        expect(o, fits(want) == 1 ? OK : OK | INSUFFICIENT, T01, "remove");
        no_copies(copies, "remove");
        if (o == OK) e->c = want;
        check_entity(m, *e, T01);
        auto_check(m);
    }

    void op_write(MReg& m) {
        auto* e = any(m);
        if (!e || e->c.empty()) return op_create(m);
        auto i = e->c.begin();
        std::advance(i, rng.below(e->c.size()));
        u64 v = val();
        trace("write<%d> %s", i->first, name(e->h).c_str());
        int o = attempt([&] { T[i->first].write(*m.r, e->h, v); });
        count("op_write");
        expect(o, OK, T01, "get");
        i->second = T[i->first].canon(v);
        check_entity(m, *e, T01);
        auto_check(m);
    }

    void op_multi_get(MReg& m) {
        auto* e = any(m);
        if (!e || combos.empty()) return op_create(m);
        auto& co = C[rng.pick(combos)];
        bool all = true;
        for (auto i : co.types) all = all && e->c.contains(i);
        bool got = false;
        int o = attempt([&] { got = co.has(*m.r, e->h, int(rng.below(3))); });
        expect(o, OK, T01, "has");
        if (got != all) tagged(T01, "has-many", "has<...>() of several components is wrong");
        std::vector<Seen> s;
        o = attempt([&] { co.get(*m.r, e->h, int(rng.below(3)), s); });
        if (case_bad) throw CaseAbort{};
        expect(o, all ? OK : COMPONENT_NOT_FOUND, all ? T01 : T06, "get-many");
        if (all) {
            for (std::size_t k = 0; k < s.size(); k++) {
                if (s[k].value != e->c[co.types[k]]) tagged(T01, "get-many-value", "get<...>() of several components yields a wrong value");
            }
        }
        count("op_get_many");
    }

    void op_alias(MReg& m) {
        int t = rng.pick(palette);
        // make sure there is a source to alias
        if (rng.chance(1, 2)) {
            auto* src = any_with(m, T_U64);
            auto* e = rng.chance(1, 2) ? src : any(m);
            if (!src || !e || !T[t].from_u64) return op_set(m);
            bool goi = rng.chance(1, 2);
            CompSet want = e->c;
            bool had = want.contains(t);
            u64 v = src->c[T_U64];
            if (!(goi && had)) want[t] = T[t].canon(v);
            trace("%s<%d> %s from the u64 of %s", goi ? "get_or_insert" : "set", t, name(e->h).c_str(), name(src->h).c_str());
            int o = attempt([&] { T[t].set_alias_u64(*m.r, e->h, src->h, goi); });
            count("op_alias");
            int f = fits(want);
            expect(o, f == 1 || had ? OK : f == 0 ? INSUFFICIENT : OK | INSUFFICIENT, T01, "set-alias");
            if (o == OK) e->c = want;
            check_entity(m, *e, T01);
            check_entity(m, *src, T01);
        } else {
            auto* src = any_with(m, t);
            auto* e = any(m);
            if (!src || !e || !T[t].copyable) return op_set(m);
            CompSet want = e->c;
            bool had = want.contains(t);
            want[t] = src->c[t];
            trace("set<%d> %s from the same component of %s", t, name(e->h).c_str(), name(src->h).c_str());
            int o = attempt([&] { T[t].set_alias_same(*m.r, e->h, src->h); });
            count("op_alias");
            int f = fits(want);
            expect(o, f == 1 || had ? OK : f == 0 ? INSUFFICIENT : OK | INSUFFICIENT, T01, "set-alias");
            if (o == OK) e->c = want;
            check_entity(m, *e, T01);
            check_entity(m, *src, T01);
        }
        auto_check(m);
    }

    void op_throwing_ctor(MReg& m) {
        auto* e = any(m);
        int t = rng.pick(palette);
        if (!e || !T[t].tracked) return op_stale(m);
        bool goi = rng.chance(1, 2);
        bool had = e->c.contains(t);
        trace("%s<%d> %s with a constructor that throws", goi ? "get_or_insert" : "set", t, name(e->h).c_str());
        int o = attempt([&] { T[t].set_throw(*m.r, e->h, goi); });
        count("op_throwing_constructor");
        count("failed_operations");
        CompSet want = e->c;
        want[t] = 0;
        int allowed = goi && had ? OK : BOOM;
        if (!had && fits(want) != 1) allowed |= INSUFFICIENT;
        expect(o, allowed, T06, "throwing-constructor");
        after_failure();
    }

    void op_destroy(MReg& m) {
        auto* e = any(m);
        if (!e) return;
        auto h = e->h;
        trace("destroy %s", name(h).c_str());
        u64 copies = ledger.copies;
        int o = attempt([&] {
            if (rng.chance(1, 2)) m.r->destroy(h);
            else m.r->get_entity(h).destroy();
        });
        count("op_destroy");
        expect(o, OK, T01, "destroy");
        no_copies(copies, "destroy");
        m.del(h);
        if (m.r->alive(h)) tagged(T01 | T02, "dead-reported-alive", "destroyed entity " + name(h) + " is reported alive");
        auto_check(m);
    }

    void op_destroy_many(MReg& m) {
        // leaves few or no entities behind
        std::size_t keep = rng.chance(1, 2) ? 0 : rng.below(4);
        auto kind = rng.below(3);
        while (m.ents.size() > keep) {
            std::size_t n = kind == 0 ? 0 : kind == 1 ? m.ents.size() - 1 : rng.below(m.ents.size());
            auto h = m.ents[n].h;
            int o = attempt([&] { m.r->destroy(h); });
            expect(o, OK, T01, "destroy");
            m.del(h);
            count("op_destroy");
        }
        trace("destroy all but %zu", keep);
        full(m);
    }

    // an operation through a handle that is not alive
    void op_stale(MReg& m) {
        entity h;
        auto kind = rng.below(5);
        if (kind < 3 && !m.dead.empty()) h = rng.pick(m.dead);
        else if (kind == 3) h = entity{ std::uint32_t(m.ids.size() + rng.below(100)), std::uint32_t(rng.below(3)) };
        else if (kind == 4 && regs.size() > 1) {
            auto& o = rng.pick(regs);
            if (o.dead.empty()) return;
            h = rng.pick(o.dead);
        } else h = entity::invalid();
        if (m.find(h)) return;
        for (auto& p : m.pending)
            if (p.get_entity() == h) return;
        for (auto& p : m.ready)
            if (p.get_entity() == h) return;
        int t = rng.pick(palette);
        auto& other = rng.pick(regs);
        auto what = rng.below(15);
        trace("stale %s operation %d", name(h).c_str(), int(what));
        u64 v = val();
        const registry& cr = *m.r;
        bool answered = false;
        int o = attempt([&] {
            switch (what) {
            case 0: T[t].set(*m.r, h, v, int(rng.below(2))); break;
            case 1: T[t].get(*m.r, h, int(rng.below(3))); break;
            case 2: T[t].get_or_insert(*m.r, h, v, 0); break;
            case 3: T[t].remove(*m.r, h); break;
            case 4: m.r->destroy(h); break;
            case 5: m.r->get_entity(h).destroy(); break;
            case 6: (void)m.r->get_entity(h).clone(); break;
            case 7: (void)m.r->get_entity(h).copy(*other.r); break;
            case 8:
                if (&other == &m) throw co_ecs::entity_not_found{ h };
                (void)m.r->get_entity(h).move(*other.r);
                break;
            case 9: answered = T[t].has(*m.r, h, int(rng.below(3))); break;
            case 10: m.r->get_entity(h).visit([&](const co_ecs::component_meta&, void*) { answered = true; }); break;
            case 11: cr.get_entity(h).visit([&](const co_ecs::component_meta&, const void*) { answered = true; }); break;
            case 12: (void)m.r->get_entity(h).archetype(); break;
            case 13: (void)cr.get_entity(h).copy(*other.r); break;
            case 14:
                if (combos.empty()) throw co_ecs::entity_not_found{ h };
                std::vector<Seen> s;
                C[combos[0]].get(*m.r, h, int(rng.below(3)), s);
                break;
            }
        });
        count("op_stale_handle");
        count("failed_operations");
        expect(o, ENTITY_NOT_FOUND, T06 | T02, "stale-handle");
        if (answered) tagged(T02, "stale-access", "a handle that is not alive gives access to an entity");
        if (m.r->alive(h)) tagged(T02 | T06, "stale-alive", "handle " + name(h) + " has become alive");
        for (auto& x : regs) check_reg(x, T02 | T06, 24);
    }

    // ---- transfer ----

    void op_transfer(MReg& m) {
        auto* e = any(m);
        if (!e) return op_create(m);
        auto h = e->h;
        CompSet comps = e->c;
        auto kind = rng.below(3); // clone, copy, move
        std::size_t di = rng.below(regs.size());
        if (kind == 0 || regs.size() == 1) di = &m - regs.data();
        if (kind == 2 && &regs[di] == &m) {
            if (regs.size() == 1) kind = 0;
            else di = (di + 1) % regs.size();
        }
        MReg& d = regs[di];
        if (d.ents.size() >= max_entities && kind != 2) return op_destroy(d);
        bool use_place = rng.chance(1, 3);
        if (use_place && d.ready.empty()) {
            if (d.pending.empty()) op_reserve(d);
            op_sync(d);
            e = m.find(h);
        }
        bool copying = kind != 2;
        bool copyable = true, throwing = false;
        for (auto& [i, v] : comps) {
            copyable = copyable && T[i].copyable;
            throwing = throwing || T[i].throwing;
        }
        bool boom = false;
        if (copying && throwing && rng.chance(1, 2)) {
            throw_copy_in = int(rng.below(2));
            boom = true;
        }
        entity got;
        trace("%s %s into registry %zu%s%s", kind == 0 ? "clone" : kind == 1 ? "copy" : "move", name(h).c_str(), di,
            use_place ? ", reserved" : "", boom ? ", copy throws" : "");
        u64 copies = ledger.copies;
        bool by_const = rng.chance(1, 3);
        const registry& cm = *m.r;
        int o = attempt([&] {
            auto ref = m.r->get_entity(h);
            if (use_place) {
                auto p = d.ready.back();
                if (kind == 0) got = ref.clone(p);
                else if (kind == 1) got = by_const ? entity(cm.get_entity(h).copy(*d.r, p)) : entity(ref.copy(*d.r, p));
                else got = ref.move(*d.r, p);
            } else {
                if (kind == 0) got = ref.clone();
                else if (kind == 1) got = by_const ? entity(cm.get_entity(h).copy(*d.r)) : entity(ref.copy(*d.r));
                else got = ref.move(*d.r);
            }
        });
        bool fired = boom && throw_copy_in < 0;
        throw_copy_in = -1;
        count(kind == 0 ? "op_clone" : kind == 1 ? "op_copy" : "op_move");
        int allowed = OK;
        if (copying) {
            if (!copyable) allowed = INVALID_ARGUMENT | (fired ? BOOM : 0);
            else if (fired) allowed = BOOM;
        } else {
            no_copies(copies, "move");
        }
        expect(o, allowed, T07 | T01, "transfer");
        if (o != OK) {
            count("failed_operations");
            return after_failure();
        }
        if (use_place) {
            if (got != d.ready.back().get_entity()) tagged(T07 | T09, "placeholder-ignored", "the transferred entity is not the reserved one");
            d.ready.pop_back();
        } else {
            handed_out(d, got, T07);
        }
        if (!copying) {
            m.del(h);
            if (m.r->alive(h)) tagged(T07 | T02, "moved-source-alive", "the moved entity's source handle is still alive");
        }
        d.add({ got, comps });
        note_peak(d);
        check_entity(d, d.ents.back(), T01 | T07);
        if (copying) check_entity(m, *m.find(h), T01 | T07);
        check_reg(m, T01 | T07, 16);
        if (&d != &m) check_reg(d, T01 | T07, 16);
        // visited under its new handle
        if (!comps.empty() && rng.chance(1, 3)) {
            for (int ci : combos) {
                bool all = true;
                for (auto i : C[ci].types) all = all && comps.contains(i);
                if (all) {
                    check_view(d, ci, int(rng.below(8)), false, T03 | T07);
                    break;
                }
            }
            check_entity_view(d, T03 | T07);
        }
        if (copying && !comps.empty()) {
            // independence: changing one leaves the other alone
            auto i = comps.begin();
            std::advance(i, rng.below(comps.size()));
            bool change_new = rng.chance(1, 2);
            auto* target = change_new ? d.find(got) : m.find(h);
            auto& reg = change_new ? *d.r : *m.r;
            u64 v = val();
            if (attempt([&] { T[i->first].write(reg, target->h, v); }) == OK) {
                target->c[i->first] = T[i->first].canon(v);
            }
            check_entity(d, *d.find(got), T01 | T07);
            check_entity(m, *m.find(h), T01 | T07);
        }
    }

    // ---- reservation ----

    void op_reserve(MReg& m) {
        if (m.pending.size() + m.ready.size() > 40) return op_sync(m);
        std::size_t n = 1 + rng.below(rng.chance(1, 6) ? 12 : 3);
        for (std::size_t k = 0; k < n; k++) {
            auto p = m.r->reserve();
            trace("reserve %s", name(p.get_entity()).c_str());
            handed_out(m, p.get_entity(), T09, false);
            m.pending.push_back(p);
            count("op_reserve");
        }
        note_peak(m);
    }

    void op_sync(MReg& m) {
        trace("sync");
        m.r->sync();
        for (auto& p : m.pending) m.ready.push_back(p);
        m.pending.clear();
        for (auto& p : m.ready) {
            if (!m.r->alive(p.get_entity())) tagged(T09 | T02, "reserved-not-alive", "reserved entity " + name(p.get_entity()) + " is not alive after synchronisation");
        }
        count("op_sync");
        check_reg(m, T01 | T09, 16);
    }

    void op_release(MReg& m) {
        // destroys a reserved entity that was never used
        if (m.ready.empty()) return op_reserve(m);
        auto h = m.ready.back().get_entity();
        trace("destroy reserved %s", name(h).c_str());
        int o = attempt([&] { m.r->destroy(h); });
        expect(o, OK, T09, "destroy-reserved");
        m.ready.pop_back();
        if (m.dead.size() < 64) m.dead.push_back(h);
        if (m.r->alive(h)) tagged(T09 | T02, "dead-reported-alive", "destroyed entity is alive");
        check_reg(m, T01 | T09, 16);
    }

    void check_ready(MReg& m) {
        for (auto& p : m.ready) {
            if (!m.r->alive(p.get_entity())) tagged(T09 | T02, "reserved-died", "reserved entity " + name(p.get_entity()) + " is not alive any more");
        }
    }

    // ---- deferred commands ----

    void op_commands(MReg& m) {
        co_ecs::command_writer w(*m.r);
        std::vector<MEnt> shadow; // entities created by this burst, in the order of the commands
        struct Cmd {
            enum Kind { create, set, remove, destroy, clone } kind;
            entity target, result;
            int type;
            u64 value;
            CompSet comps;
        };
        std::vector<Cmd> cmds;
        std::vector<entity> targets;
        std::unordered_set<u64> unusable; // results of clones that may fail
        auto n = 1 + rng.below(12);
        u64 copies = ledger.copies;
        bool bad_targets = rng.chance(1, 3);
        auto target = [&]() -> entity {
            if (bad_targets && !m.dead.empty() && rng.chance(1, 8)) return rng.pick(m.dead);
            if (!targets.empty() && rng.chance(1, 2)) return rng.pick(targets);
            if (auto* e = any(m)) return e->h;
            return entity::invalid();
        };
        for (u64 k = 0; k < n; k++) {
            Cmd c{};
            auto kind = rng.below(10);
            if (kind < 3) {
                c.kind = Cmd::create;
                int o;
                if (rng.chance(1, 2) || combos.empty()) {
                    int t = rng.pick(palette);
                    u64 v = val();
                    c.comps[t] = T[t].canon(v);
                    o = attempt([&] { c.result = T[t].cmd_create(w, v); });
                } else {
                    auto& co = C[rng.pick(combos)];
                    u64 v[16];
                    for (std::size_t j = 0; j < co.types.size(); j++) {
                        v[j] = val();
                        c.comps[co.types[j]] = T[co.types[j]].canon(v[j]);
                    }
                    o = attempt([&] { c.result = co.cmd_create(w, v); });
                }
                int f = fits(c.comps);
                expect(o, f == 1 ? OK : f == 0 ? INSUFFICIENT : OK | INSUFFICIENT, T08 | T06, "record-create");
                if (o != OK) continue;
                handed_out(m, c.result, T08, false);
                targets.push_back(c.result);
                trace("command create -> %s", name(c.result).c_str());
            } else if (kind < 6) {
                c.kind = Cmd::set;
                c.target = target();
                c.type = rng.pick(palette);
                CompSet one;
                one[c.type] = 0;
                if (fits(one) != 1) continue;
                u64 v = val();
                c.value = T[c.type].canon(v);
                auto ref = w.get_entity(c.target);
                int o = attempt([&] { T[c.type].cmd_set(ref, v, int(rng.below(2))); });
                expect(o, OK, T08, "record-set");
                trace("command set<%d> %s", c.type, name(c.target).c_str());
            } else if (kind < 7) {
                c.kind = Cmd::remove;
                c.target = target();
                c.type = rng.pick(palette);
                auto ref = w.get_entity(c.target);
                T[c.type].cmd_remove(ref);
                trace("command remove<%d> %s", c.type, name(c.target).c_str());
            } else if (kind < 9) {
                c.kind = Cmd::clone;
                c.target = target();
                c.result = w.get_entity(c.target).clone();
                handed_out(m, c.result, T08, false);
                trace("command clone %s -> %s", name(c.target).c_str(), name(c.result).c_str());
            } else {
                c.kind = Cmd::destroy;
                c.target = target();
                if (rng.chance(1, 2)) w.destroy(c.target);
                else w.get_entity(c.target).destroy();
                trace("command destroy %s", name(c.target).c_str());
            }
            cmds.push_back(std::move(c));
        }
        count("commands_recorded", cmds.size());
        no_copies(copies, "recording a command");
        if (case_bad) throw CaseAbort{};
        // nothing has happened yet
        check_reg(m, T08, 12);

        // the model plays them; failing ones are each reported by one flush
        std::map<u64, CompSet> created; // live entities created by this burst
        std::vector<entity> gone;       // created and destroyed again
        std::vector<std::pair<u64, entity>> order;
        std::vector<int> failures;
        std::vector<entity> unused; // reserved for a clone that failed
        std::size_t extra = 0, peak_extra = 0;
        for (auto& c : cmds)
            if (c.kind == Cmd::create || c.kind == Cmd::clone) peak_extra++;
        m.peak = std::max(m.peak, m.outstanding() + peak_extra);
        (void)extra;
        for (auto& c : cmds) {
            auto find = [&](entity h) -> CompSet* {
                if (auto* e = m.find(h)) return &e->c;
                auto i = created.find(key(h));
                return i == created.end() ? nullptr : &i->second;
            };
            switch (c.kind) {
            case Cmd::create:
                created[key(c.result)] = c.comps;
                order.emplace_back(key(c.result), c.result);
                break;
            case Cmd::clone: {
                auto* src = find(c.target);
                int fail = 0;
                if (!src) fail = ENTITY_NOT_FOUND | OTHER;
                else
                    for (auto& [i, v] : *src)
                        if (!T[i].copyable) fail = INVALID_ARGUMENT;
                if (fail) {
                    failures.push_back(fail);
                    unused.push_back(c.result);
                } else {
                    created[key(c.result)] = *src;
                    order.emplace_back(key(c.result), c.result);
                }
                break;
            }
            case Cmd::set: {
                auto* s = find(c.target);
                bool reserved_only = std::find(unused.begin(), unused.end(), c.target) != unused.end();
                if (!s) {
                    failures.push_back(reserved_only ? OTHER | ENTITY_NOT_FOUND | COMPONENT_NOT_FOUND | OK : ENTITY_NOT_FOUND);
                    if (reserved_only) skip_burst = true;
                    break;
                }
                CompSet want = *s;
                bool had = want.contains(c.type);
                want[c.type] = c.value;
                int f = fits(want);
                if (f == 1 || had) *s = want;
                else if (f == 0) failures.push_back(INSUFFICIENT);
                else {
                    undecided.push_back({ c.target, c.type });
                    *s = want;
                }
                break;
            }
            case Cmd::remove: {
                auto* s = find(c.target);
                bool reserved_only = std::find(unused.begin(), unused.end(), c.target) != unused.end();
                if (reserved_only) skip_burst = true;
                if (!s) failures.push_back(reserved_only ? OTHER | ENTITY_NOT_FOUND | OK : ENTITY_NOT_FOUND);
                else s->erase(c.type);
                break;
            }
            case Cmd::destroy: {
                auto* s = find(c.target);
                auto u = std::find(unused.begin(), unused.end(), c.target);
                if (u != unused.end()) {
                    unused.erase(u);
                    gone.push_back(c.target);
                } else if (!s) failures.push_back(ENTITY_NOT_FOUND);
                else if (m.find(c.target)) m.del(c.target);
                else {
                    created.erase(key(c.target));
                    gone.push_back(c.target);
                }
                break;
            }
            }
        }
        for (auto& [k, h] : order) {
            auto i = created.find(k);
            if (i != created.end()) {
                m.add({ h, i->second });
            }
        }
        for (auto h : gone) {
            if (m.dead.size() < 64) m.dead.push_back(h);
        }
        m.peak = std::max(m.peak, m.outstanding());

        std::vector<int> got;
        copies = ledger.copies;
        bool clones = std::any_of(cmds.begin(), cmds.end(), [](auto& c) { return c.kind == Cmd::clone; });
        trace("flush");
        bool loose = skip_burst || !undecided.empty();
        for (std::size_t k = 0; k <= cmds.size() + 1; k++) {
            int o = attempt([&] { co_ecs::command_buffer::flush(*m.r); });
            if (case_bad) throw CaseAbort{};
            if (o == OK) break;
            got.push_back(o);
            if (k == cmds.size() + 1) tagged(T06 | T08, "flush-never-succeeds", "flush keeps failing although no commands are left");
        }
        count("commands_applied", cmds.size());
        count("command_failures_reported", got.size());
        if (!clones) no_copies(copies, "flush");
        for (auto& p : m.pending) m.ready.push_back(p); // flush synchronises
        m.pending.clear();
        if (loose) {
            // an outcome the specification leaves open: take over what the registry says, skip the comparison
            skip_burst = false;
            std::vector<entity> touched;
            for (auto& [k, h] : order) touched.push_back(h);
            for (auto& c : cmds) touched.push_back(c.target);
            for (auto h : touched) {
                auto* e = m.find(h);
                if (!e) continue;
                CompSet now;
                bool bad = false;
                for (auto i : palette) {
                    bool has = false;
                    bad = bad || attempt([&] { has = T[i].has(*m.r, h, 0); }) != OK;
                    if (!bad && has) bad = attempt([&] { now[i] = T[i].get(*m.r, h, 0).value; }) != OK;
                }
                if (case_bad) throw CaseAbort{};
                if (bad) {
                    // a clone that turned out to fail
                    attempt([&] { m.r->destroy(h); });
                    m.del(h);
                } else {
                    e->c = now;
                }
            }
            undecided.clear();
        } else {
            if (got.size() != failures.size()) {
                tagged(T08 | T06, "flush-failures", fmt("%zu commands fail, flush reported %zu failures", failures.size(), got.size()));
            }
            for (std::size_t k = 0; k < std::min(got.size(), failures.size()); k++) {
                if (!(got[k] & failures[k])) tagged(T08 | T06, "flush-failure-kind", fmt("a failing command is reported by %s", outcome_name(got[k])));
            }
        }
        for (auto h : unused) {
            if (!m.r->alive(h)) tagged(T09, "reserved-not-alive", "an entity reserved for a clone is not alive after the flush");
            if (attempt([&] { m.r->destroy(h); }) == OK && m.dead.size() < 64) m.dead.push_back(h);
        }
        for (auto& [k, h] : order) {
            if (auto* e = m.find(h)) check_entity(m, *e, T08);
        }
        for (auto h : gone) {
            if (m.r->alive(h)) tagged(T08, "command-destroy", "an entity destroyed by a command is alive");
        }
        for (auto& c : cmds) {
            if (auto* e = m.find(c.target)) check_entity(m, *e, T08);
        }
        check_reg(m, got.empty() ? T08 : T08 | T06, 24);
    }

    bool skip_burst = false;
    std::vector<std::pair<entity, int>> undecided;

    // ---- whole registry ----

    void full(MReg& m) {
        check_reg(m, T01, 400);
        check_ready(m);
        check_blocks(m);
        check_layout(m);
        check_entity_view(m, T03);
        state();
    }

    void state() {
        u64 h = 0;
        for (auto& m : regs) {
            u64 x = m.ents.size();
            for (auto& e : m.ents) {
                u64 y = e.h.id() * 31 + e.h.generation();
                for (auto& [i, v] : e.c) y = mix(y ^ u64(i));
                x += mix(y);
            }
            h = mix(h ^ x);
        }
        seen("registry_states", h);
    }

    void op_view(MReg& m) {
        if (combos.empty()) return check_entity_view(m, T03);
        int ci = rng.pick(combos);
        check_view(m, ci, int(rng.below(VIEW_MODES)), rng.chance(1, 2), T03);
        check_kept(m, T03);
        if (m.views.size() < 3 && rng.chance(1, 3)) {
            m.views.push_back({ ci, C[ci].keep_view(*m.r, int(rng.below(2))) });
        }
    }
};

// --------------------------------------------------------------------------------------------------------------------

void run_case(u64 c, Rng& rng) {
    const std::string& mode = args.mode;
    ledger.reset();
    long cnt_before = Cnt::alive;
    {
        Engine e(rng);
        trace_log = &e.log;
        struct Untrace {
            ~Untrace() {
                trace_log = nullptr;
            }
        } untrace;
        // palette: a few types, sometimes many
        std::size_t nt = rng.chance(1, 8) ? 14 : 2 + rng.below(6);
        std::size_t big = 0;
        while (e.palette.size() < nt) {
            int t = int(rng.below(NTYPES));
            if ((t == 30 || t == 29 || t == 26) && !rng.chance(1, mode == "layout" || mode == "failure" ? 2 : 6)) continue;
            if (mode == "failure" && rng.chance(1, 3)) t = rng.chance(1, 2) ? 18 : rng.chance(1, 2) ? 22 : 9;
            if (std::find(e.palette.begin(), e.palette.end(), t) == e.palette.end()) e.palette.push_back(t);
            big += type_ops()[t].size > 1000;
        }
        // combinations over the palette, plus some others whose types then join the palette
        auto& C = combo_ops();
        std::size_t nc = 1 + rng.below(3);
        for (std::size_t k = 0; k < nc; k++) e.combos.push_back(int(rng.below(C.size())));
        for (std::size_t ci = 0; ci < C.size(); ci++) {
            bool in = true;
            for (auto t : C[ci].types) in = in && std::find(e.palette.begin(), e.palette.end(), t) != e.palette.end();
            if (in) e.combos.push_back(int(ci));
        }
        for (auto ci : e.combos) {
            for (auto t : C[ci].types) {
                if (std::find(e.palette.begin(), e.palette.end(), t) == e.palette.end()) e.palette.push_back(t);
            }
        }
        std::size_t nregs = mode == "transfer" ? 2 + rng.below(2) : 1 + rng.below(3);
        e.regs.resize(nregs);
        // sizes: mostly small with long histories, sometimes thousands of entities
        u64 kind = rng.below(20);
        u64 nops;
        if (kind < 8) e.max_entities = 1 + rng.below(8), nops = 80 + rng.below(200);
        else if (kind < 16) e.max_entities = 10 + rng.below(60), nops = 150 + rng.below(300);
        else if (kind < 19) e.max_entities = 100 + rng.below(300), nops = 400 + rng.below(500);
        else e.max_entities = 2000 + rng.below(3000), nops = 300;
        nops *= args.scale;
        if (nregs > 1) e.max_entities = 1 + e.max_entities / nregs;

        struct W {
            void (Engine::*op)(MReg&);
            unsigned w;
        };
        auto boost = [&](const char* m, unsigned a, unsigned b) { return mode == m ? b : a; };
        std::vector<W> ws{
            { &Engine::op_create, 30 },
            { &Engine::op_set, 22 },
            { &Engine::op_goi, 8 },
            { &Engine::op_remove, 14 },
            { &Engine::op_write, 8 },
            { &Engine::op_multi_get, 5 },
            { &Engine::op_alias, boost("general", 4, 10) },
            { &Engine::op_throwing_ctor, boost("failure", 2, 14) },
            { &Engine::op_destroy, boost("handles", 16, 30) },
            { &Engine::op_destroy_many, 1 },
            { &Engine::op_stale, boost("handles", boost("failure", 3, 14), 16) },
            { &Engine::op_transfer, boost("transfer", boost("failure", 8, 20), 40) },
            { &Engine::op_reserve, boost("handles", boost("reserve", 2, 20), 8) },
            { &Engine::op_sync, boost("handles", boost("reserve", 1, 10), 4) },
            { &Engine::op_release, boost("reserve", 1, 4) },
            { &Engine::op_commands, boost("commands", boost("failure", 2, 6), 30) },
            { &Engine::op_view, boost("view", 5, 50) },
            { &Engine::full, 2 },
        };
        unsigned total = 0;
        for (auto& w : ws) {
            // swarm: every case has its own mix
            if (rng.chance(1, 5)) w.w = w.w / 4;
            if (rng.chance(1, 6)) w.w *= 3;
            total += w.w;
        }
        if (kind == 19) {
            // bulk phase
            auto& m = e.regs[0];
            auto n = e.max_entities * 3 / 4;
            for (u64 k = 0; k < n; k++) {
                int t = e.palette[k % std::min<std::size_t>(e.palette.size(), 3)];
                if (type_ops()[t].size > 1000) continue;
                u64 v = e.val();
                entity h = type_ops()[t].create(*m.r, v);
                e.handed_out(m, h, 0);
                m.add({ h, { { t, type_ops()[t].canon(v) } } });
                e.note_peak(m);
            }
            count("bulk_cases");
        }
        for (u64 k = 0; k < nops; k++) {
            u64 x = rng.below(total);
            for (auto& w : ws) {
                if (x < w.w) {
                    auto& m = e.regs[rng.below(e.regs.size())];
                    (e.*w.op)(m);
                    e.ops++;
                    break;
                }
                x -= w.w;
            }
            if (case_bad) throw CaseAbort{};
            if (k % 64 == 63) e.state();
        }
        for (auto& m : e.regs) e.full(m);
        if (mode == "view") {
            for (auto& m : e.regs) {
                for (auto ci : e.combos) {
                    for (int v = 0; v < VIEW_MODES; v++) e.check_view(m, ci, v, true, T03);
                }
                e.full(m);
            }
        }
        count("operations", e.ops);
        maximum("max_entities_at_once", [&] {
            std::size_t n = 0;
            for (auto& m : e.regs) n = std::max(n, m.peak);
            return n;
        }());
        if (c % 37 == 0) {
            sample(fmt("case %llu: %zu registries, %zu types, %zu combinations, %llu operations, %zu entities left, last: %s",
                (unsigned long long)c, e.regs.size(), e.palette.size(), e.combos.size(), (unsigned long long)e.ops,
                e.regs[0].ents.size(), e.log.empty() ? "" : e.log.back().c_str()));
        }
        // destruction order of the registries does not matter
        while (!e.regs.empty()) {
            if (rng.chance(1, 2)) std::swap(e.regs.front(), e.regs.back());
            e.regs.pop_back();
        }
    }
    if (case_bad) throw CaseAbort{};
    if (ledger.size() != 0) {
        violation("C04", "leaked", fmt("%zu component objects are alive after the registries are destroyed", ledger.size()));
    }
    if (Cnt::alive != cnt_before) {
        violation("C04", "leaked-owned", fmt("%ld objects owned by components are alive after the registries are destroyed", Cnt::alive - cnt_before));
    }
}

} // namespace vf

int main(int argc, char** argv) {
    vf::parse_args(argc, argv);
    vf::cpu_limit_s = 100;
    vf::touch_dummies();
    int rc = vf::run_cases([](vf::u64 c, vf::Rng& rng) {
        vf::run_case(c, rng);
    });
    return rc;
}
