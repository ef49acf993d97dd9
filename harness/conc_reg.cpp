// Monitor for the registry used from several threads: recorded commands (C08), reservations (C09), concurrent reading,
// disjoint writing and separate registries (C15).
#include "conc.hpp"
#include "conc_types.hpp"

namespace vf {

using co_ecs::command_buffer;
using co_ecs::command_writer;
using co_ecs::entity;
using co_ecs::placeholder_entity;
using co_ecs::registry;
using co_ecs::thread_pool;

struct Phase;

// what one thread does in one round
struct Part {
    Rng rng{ 1 };
    int ops = 0;
    // recording
    std::vector<std::pair<u64, Ent>> own;                // entities only this thread changes, as they will be
    std::vector<char> dead;                              // own[i] has been destroyed by a recorded command
    std::vector<u64> handed_out;                         // handles it got
    std::vector<placeholder_entity> reserved;            // reserved and not used by a command
    int failing = 0;                                     // recorded commands that must fail
    u64 recorded = 0;
    // reading
    u64 reads = 0;
    std::string bad_read;
    // writing
    int write_comp = -1;                                 // this thread alone uses this component, of all entities
    std::vector<u64> write_ents;                         // this thread alone uses these entities' other components
    std::map<u64, Ent> written;                          // values it left
    bool do_record = false, do_reserve = false, do_read = false, do_write = false, do_own = false;
};

struct World {
    std::unique_ptr<registry> reg;
    std::map<u64, Ent> live;       // entities with components
    std::set<u64> bare;            // reserved, synchronised, without components
    std::set<u64> ever;            // every handle handed out
    std::set<std::uint32_t> ids;
    std::size_t peak = 0;
    std::vector<u64> gone;         // destroyed
    // shared with the readers, unchanged during a phase
    std::vector<u64> all, frozen;
    u64 excluded_comps = 0;        // components somebody writes
    std::set<u64> excluded_ents;   // entities somebody writes
    std::array<std::size_t, NC> count_with{};
};


void fail(const char* prop, const char* k, const std::string& m) {
    report(args.prop == "ALL" ? prop : args.prop.c_str(), k, m);
}

// ---- recording -----------------------------------------------------------------------------------------------------

void record(World& w, Part& p) {
    command_writer cw{ *w.reg };
    auto& r = p.rng;
    auto pick_own = [&]() -> int {
        for (int t = 0; t < 6 && !p.own.empty(); t++) {
            int i = int(r.below(p.own.size()));
            if (!p.dead[i]) return i;
        }
        return -1;
    };
    for (int k = 0; k < p.ops; k++) {
        pause(r);
        p.recorded++;
        switch (r.below(10)) {
        case 0:
        case 1:
        case 2: {
            Ent m;
            auto e = create_combo(cw, int(r.below(NCOMBOS)), r, m);
            p.handed_out.push_back(key(e));
            p.own.emplace_back(key(e), std::move(m));
            p.dead.push_back(0);
            break;
        }
        case 3:
        case 4:
        case 5: {
            int i = pick_own();
            if (i < 0) break;
            int n = 1 + int(r.below(3));
            auto ref = cw.get_entity(unkey(p.own[i].first));
            for (int s = 0; s < n; s++) {
                int c = int(r.below(NC));
                if (c == 5 && r.chance(2, 3)) c = 0;
                u64 v = r.next() >> 1;
                with(c, [&]<int I>() { ref.template set<Comp<I>>(v); });
                p.own[i].second[c] = kept(c, v);
            }
            break;
        }
        case 6: {
            int i = pick_own();
            if (i < 0) break;
            int c = int(r.below(NC));
            with(c, [&]<int I>() { cw.get_entity(unkey(p.own[i].first)).template remove<Comp<I>>(); });
            p.own[i].second.erase(c);
            break;
        }
        case 7: {
            int i = pick_own();
            if (i < 0 || r.chance(1, 3)) break;
            if (r.chance(1, 2)) cw.destroy(unkey(p.own[i].first));
            else cw.get_entity(unkey(p.own[i].first)).destroy();
            p.dead[i] = 1;
            break;
        }
        case 8: {
            // clone something nobody else changes
            u64 src;
            const Ent* m = nullptr;
            if (!w.frozen.empty() && r.chance(1, 2)) {
                src = w.frozen[r.below(w.frozen.size())];
                m = &w.live.at(src);
            } else {
                int i = pick_own();
                if (i < 0) break;
                src = p.own[i].first;
                m = &p.own[i].second;
            }
            if (m->contains(2)) break; // not copyable
            entity e = cw.get_entity(unkey(src)).clone();
            p.handed_out.push_back(key(e));
            Ent copy = *m;
            p.own.emplace_back(key(e), std::move(copy));
            p.dead.push_back(0);
            break;
        }
        case 9: {
            if (p.own.empty() || !r.chance(1, 4)) break;
            int i = int(r.below(p.own.size()));
            if (!p.dead[i]) break;
            // fails when it is applied
            auto e = unkey(p.own[i].first);
            switch (r.below(3)) {
            case 0: cw.destroy(e); break;
            case 1: cw.get_entity(e).set<Comp<1>>(u64(7)); break;
            default: cw.get_entity(e).remove<Comp<1>>(); break;
            }
            p.failing++;
            break;
        }
        }
    }
}

void reserve_some(World& w, Part& p) {
    auto& r = p.rng;
    for (int k = 0; k < p.ops; k++) {
        pause(r);
        auto ph = w.reg->reserve();
        p.reserved.push_back(ph);
        p.handed_out.push_back(key(ph.get_entity()));
        p.recorded++;
    }
}

// ---- reading -------------------------------------------------------------------------------------------------------

template<int I>
std::size_t read_view(const registry& reg, const World& w, Part& p, int form) {
    std::size_t n = 0;
    auto one = [&](const entity& e, const Comp<I>& c) {
        n++;
        auto it = w.live.find(key(e));
        if (it == w.live.end() || !it->second.contains(I)) p.bad_read = fmt("a view shows an entity without component %d", I);
        else if (!w.excluded_ents.contains(key(e)) && it->second.at(I) != c.val()) p.bad_read = fmt("a view shows a wrong value of component %d", I);
    };
    switch (form) {
    case 0: {
        auto v = reg.view<const entity&, const Comp<I>&>();
        for (auto [e, c] : v.each()) one(e, c);
        break;
    }
    case 1: {
        co_ecs::view<const entity&, const Comp<I>&> v{ reg };
        v.each(one);
        break;
    }
    case 2: {
        co_ecs::view<const entity&, const Comp<I>&> v{ reg };
        for (auto chunk : v.chunks())
            for (auto [e, c] : chunk) one(e, c);
        break;
    }
    case 3: reg.each([&](const entity& e, const Comp<I>& c) { one(e, c); }); break;
    case 4: {
        auto s = reg.single<const entity&, const Comp<I>&>();
        if (s.has_value() != (w.count_with[I] > 0)) p.bad_read = "single() is wrong about emptiness";
        if (s) one(std::get<0>(*s), std::get<1>(*s));
        return w.count_with[I];
    }
    }
    return n;
}

void read(const World& w, Part& p) {
    const registry& reg = *w.reg;
    auto& r = p.rng;
    for (int k = 0; k < p.ops && p.bad_read.empty(); k++) {
        pause(r);
        p.reads++;
        switch (r.below(7)) {
        case 0: {
            if (reg.size() != w.live.size()) p.bad_read = fmt("size() is %zu, not %zu", reg.size(), w.live.size());
            if (reg.empty() != w.live.empty()) p.bad_read = "empty() is wrong";
            break;
        }
        case 1: {
            if (w.gone.empty()) break;
            auto e = unkey(w.gone[r.below(w.gone.size())]);
            if (reg.alive(e)) p.bad_read = "a destroyed entity is alive";
            break;
        }
        case 2: {
            if (w.all.empty()) break;
            u64 k2 = w.all[r.below(w.all.size())];
            auto e = unkey(k2);
            if (!reg.alive(e) || !reg.get_entity(e).alive()) {
                p.bad_read = "a live entity is not alive";
                break;
            }
            const Ent& m = w.live.at(k2);
            int c = int(r.below(NC));
            with(c, [&]<int I>() {
                bool want = m.contains(I);
                if (reg.get_entity(e).template has<Comp<I>>() != want || reg.template has<Comp<I>>(e) != want) p.bad_read = "has() is wrong";
                if (!want) {
                    try {
                        (void)reg.get_entity(e).template get<Comp<I>>();
                        p.bad_read = "get() of a missing component returns";
                    } catch (const co_ecs::component_not_found&) {
                    }
                } else if (!(w.excluded_comps >> I & 1) && !w.excluded_ents.contains(k2)) {
                    if (reg.get_entity_const(e).template get<Comp<I>>().val() != m.at(I)) p.bad_read = "get() gives a wrong value";
                }
            });
            break;
        }
        case 3: {
            if (w.all.empty()) break;
            u64 k2 = w.all[r.below(w.all.size())];
            const Ent& m = w.live.at(k2);
            std::size_t n = 0;
            reg.get_entity(unkey(k2)).visit([&](auto, const void*) noexcept { n++; });
            if (n != m.size()) p.bad_read = fmt("visit() shows %zu components of %zu", n, m.size());
            break;
        }
        case 4: {
            if (w.all.size() < 2) break;
            u64 a = w.all[r.below(w.all.size())], b = w.all[r.below(w.all.size())];
            bool same_set = w.live.at(a).size() == w.live.at(b).size()
                            && std::equal(w.live.at(a).begin(), w.live.at(a).end(), w.live.at(b).begin(), [](auto& x, auto& y) { return x.first == y.first; });
            bool same = &reg.get_entity(unkey(a)).archetype() == &reg.get_entity(unkey(b)).archetype();
            if (same != same_set) p.bad_read = "archetypes of two entities are wrong";
            break;
        }
        default: {
            int c = int(r.below(NC));
            if (w.excluded_comps >> c & 1) break;
            if (!w.excluded_ents.empty()) {
                // somebody writes components of single entities: count only
                std::size_t n = 0;
                with(c, [&]<int I>() { co_ecs::view<const Comp<I>&>{ reg }.each([&](const Comp<I>&) { n++; }); });
                if (n != w.count_with[c]) p.bad_read = fmt("a view shows %zu entities, not %zu", n, w.count_with[c]);
                break;
            }
            std::size_t n = with(c, [&]<int I>() { return read_view<I>(reg, w, p, int(r.below(5))); });
            if (n != w.count_with[c]) p.bad_read = fmt("a view shows %zu entities, not %zu", n, w.count_with[c]);
            break;
        }
        }
    }
}

// ---- writing -------------------------------------------------------------------------------------------------------

void write_some(World& w, Part& p) {
    auto& r = p.rng;
    for (int k = 0; k < p.ops; k++) {
        pause(r);
        p.recorded++;
        if (p.write_comp >= 0 && (p.write_ents.empty() || r.chance(1, 2))) {
            with(p.write_comp, [&]<int I>() {
                int form = int(r.below(3));
                auto one = [&](const entity& e, Comp<I>& c) {
                    u64 v = r.next() >> 1;
                    c.put(v);
                    p.written[key(e)][I] = kept(I, v);
                };
                if (form == 0) {
                    co_ecs::view<const entity&, Comp<I>&> v{ *w.reg };
                    v.each(one);
                } else if (form == 1) {
                    for (auto [e, c] : w.reg->view<const entity&, Comp<I>&>().each()) one(e, c);
                } else {
                    w.reg->each([&](const entity& e, Comp<I>& c) { one(e, c); });
                }
            });
        } else if (!p.write_ents.empty()) {
            u64 e = p.write_ents[r.below(p.write_ents.size())];
            auto ref = w.reg->get_entity(unkey(e));
            for (int c = 0; c < NC; c++) {
                if (w.excluded_comps >> c & 1) continue;
                with(c, [&]<int I>() {
                    if (!ref.template has<Comp<I>>()) return;
                    u64 v = r.next() >> 1;
                    ref.template get<Comp<I>>().put(v);
                    p.written[e][I] = kept(I, v);
                });
            }
        }
    }
}

// ---- a registry of the thread's own --------------------------------------------------------------------------------

std::string check_all(const registry& reg, const std::map<u64, Ent>& live) {
    if (reg.size() != live.size()) return fmt("size() is %zu, not %zu", reg.size(), live.size());
    std::array<std::size_t, NC> with_comp{};
    for (auto& [k, m] : live) {
        auto d = differs(reg, unkey(k), m);
        if (!d.empty()) return fmt("entity %llx ", (unsigned long long)k) + d;
        for (auto& [c, v] : m) with_comp[c]++;
    }
    for (int c = 0; c < NC; c++) {
        std::size_t n = 0;
        with(c, [&]<int I>() { reg.each([&](const entity& e, const Comp<I>&) { n += live.contains(key(e)); }); });
        if (n != with_comp[c]) return fmt("a view of component %d shows %zu entities, not %zu", c, n, with_comp[c]);
    }
    return "";
}

// random direct changes to a registry, followed by the model
void direct(registry& reg, std::map<u64, Ent>& live, Rng& r, int ops, std::vector<u64>& gone, auto&& created) {
    for (int k = 0; k < ops; k++) {
        auto any = [&]() {
            auto it = live.begin();
            std::advance(it, r.below(std::min<std::size_t>(live.size(), 40)));
            return it;
        };
        auto x = r.below(10);
        if (live.empty() || x < 4) {
            Ent m;
            auto e = create_combo(reg, int(r.below(NCOMBOS)), r, m);
            created(key(e));
            live.emplace(key(e), std::move(m));
        } else if (x < 6) {
            auto it = any();
            int c = int(r.below(NC));
            if (c == 5 && !it->second.contains(5)) c = 6;
            u64 v = r.next() >> 1;
            with(c, [&]<int I>() { reg.get_entity(unkey(it->first)).template set<Comp<I>>(v); });
            it->second[c] = kept(c, v);
        } else if (x < 7) {
            auto it = any();
            int c = int(r.below(NC));
            with(c, [&]<int I>() { reg.get_entity(unkey(it->first)).template remove<Comp<I>>(); });
            it->second.erase(c);
        } else if (x < 9) {
            auto it = any();
            if (r.chance(1, 2)) reg.destroy(unkey(it->first));
            else reg.get_entity(unkey(it->first)).destroy();
            gone.push_back(it->first);
            live.erase(it);
        } else {
            auto it = any();
            if (it->second.contains(2)) continue;
            entity e = reg.get_entity(unkey(it->first)).clone();
            Ent m = it->second;
            created(key(e));
            live.emplace(key(e), std::move(m));
        }
    }
}

// component types that are used by nothing else, the first time by concurrent threads
template<int I>
struct First {
    u64 v[1 + I % 5];
};
constexpr int NFIRST = 48;

template<int I>
std::string first_use(registry& reg, Rng& r) {
    u64 x = r.next() >> 1;
    First<I> c{};
    c.v[0] = x;
    auto e = reg.create<First<I>>(std::move(c));
    if (!e.template has<First<I>>() || e.template has<First<(I + 1) % NFIRST>>()) return "has() is wrong";
    if (e.template get<First<I>>().v[0] != x) return "get() gives a wrong value";
    e.template set<First<(I + 7) % NFIRST>>(First<(I + 7) % NFIRST>{ { x + 1 } });
    std::size_t n = 0;
    reg.each([&](const First<I>& a, const First<(I + 7) % NFIRST>& b) { n += a.v[0] == x && b.v[0] == x + 1; });
    if (n != 1) return "a view is wrong";
    e.destroy();
    return "";
}

using FirstUse = std::string (*)(registry&, Rng&);
template<std::size_t... I>
constexpr std::array<FirstUse, sizeof...(I)> first_uses_of(std::index_sequence<I...>) {
    return { &first_use<int(I)>... };
}
constexpr auto first_uses = first_uses_of(std::make_index_sequence<std::size_t(NFIRST)>{});

void own_registry(World&, Part& p) {
    registry mine;
    for (int k = 0; k < 2; k++) {
        auto bad = p.rng.pick(first_uses)(mine, p.rng);
        if (!bad.empty()) {
            p.bad_read = "separate registry: " + bad;
            return;
        }
    }
    std::map<u64, Ent> live;
    std::vector<u64> gone;
    std::set<u64> ever;
    std::string bad;
    for (int part = 0; part < 3; part++) {
        pause(p.rng);
        direct(mine, live, p.rng, p.ops, gone, [&](u64 k) {
            if (!ever.insert(k).second) bad = "the same handle was handed out twice";
        });
        if (bad.empty()) bad = check_all(mine, live);
        for (auto k : gone)
            if (mine.alive(unkey(k))) bad = "a destroyed entity is alive";
        if (!bad.empty()) {
            p.bad_read = "separate registry: " + bad;
            return;
        }
        p.reads++;
    }
}

// ---- rounds --------------------------------------------------------------------------------------------------------

void body(World& w, Part& p) {
    if (p.do_own) own_registry(w, p);
    if (p.do_write) write_some(w, p);
    if (p.do_reserve) reserve_some(w, p);
    if (p.do_record) record(w, p);
    if (p.do_read) read(w, p);
}

void handed_out(World& w, u64 k) {
    if (!w.ever.insert(k).second) fail("C09", "handle-twice", fmt("handle %llx was handed out twice", (unsigned long long)k));
    w.ids.insert(std::uint32_t(k >> 32));
}

void check_world(World& w, const char* prop, const char* when) {
    auto bad = check_all(*w.reg, w.live);
    if (!bad.empty()) {
        fail(prop, "state", fmt("%s: %s", when, bad.c_str()));
        return;
    }
    for (auto k : w.bare) {
        if (!w.reg->alive(unkey(k))) return fail("C09", "reserved-not-alive", fmt("%s: a synchronised reserved entity is not alive", when));
    }
    for (auto k : w.gone) {
        if (w.reg->alive(unkey(k))) return fail(prop, "dead-alive", fmt("%s: a destroyed entity is alive", when));
    }
    count("states_compared");
}

long counted(const World& w) {
    long n = 0;
    for (auto& [k, m] : w.live)
        for (auto& [c, v] : m) n += counting(c);
    return n;
}

void bump(World& w, std::size_t pending) {
    w.peak = std::max(w.peak, w.live.size() + w.bare.size() + pending);
}

struct Plan {
    std::string scenario; // commands, reserve, read
    int threads;
    int rounds;
    int use_pool; // 0 threads that end, 1 pool tasks, 2 threads that stay
};

// threads that stay over several rounds
struct Crew {
    struct Member {
        std::counting_semaphore<> go{ 0 }, done{ 0 };
        Part* part = nullptr;
        bool quit = false;
        std::thread t;
    };
    std::vector<std::unique_ptr<Member>> members;
    Crew(World& w, int n) {
        for (int i = 0; i < n; i++) {
            members.push_back(std::make_unique<Member>());
            auto* m = members.back().get();
            m->t = std::thread([m, &w] {
                while (true) {
                    m->go.acquire();
                    if (m->quit) break;
                    if (m->part) body(w, *m->part);
                    m->done.release();
                }
            });
        }
    }
    void retire(std::size_t i) {
        auto& m = *members[i];
        if (!m.t.joinable()) return;
        m.quit = true;
        m.go.release();
        m.t.join();
    }
    ~Crew() {
        for (std::size_t i = 0; i < members.size(); i++) retire(i);
    }
};

void round(World& w, const Plan& plan, Rng& rng, Crew* crew, int no, u64& h) {
    // changes made directly
    direct(*w.reg, w.live, rng, int(rng.below(simulated ? 14 : 60)), w.gone, [&](u64 k) {
        handed_out(w, k);
        bump(w, 1);
    });
    for (auto it = w.bare.begin(); it != w.bare.end();) {
        if (rng.chance(1, 3)) {
            w.reg->destroy(unkey(*it));
            w.gone.push_back(*it);
            it = w.bare.erase(it);
        } else ++it;
    }
    if (w.gone.size() > 4000) w.gone.erase(w.gone.begin(), w.gone.begin() + 2000);
    bump(w, 0);

    // who does what
    bool main_too = rng.chance(1, 2);
    int waves = plan.use_pool == 0 && plan.scenario != "read" && rng.chance(1, 4) ? int(rng.range(2, 3)) : 1;
    int others = plan.threads * waves;
    int n = others + main_too;
    std::vector<Part> parts(n);
    w.all.clear();
    w.frozen.clear();
    w.excluded_comps = 0;
    w.excluded_ents.clear();
    w.count_with.fill(0);
    for (auto& [k, m] : w.live) {
        w.all.push_back(k);
        for (auto& [c, v] : m) w.count_with[c]++;
    }
    int most = plan.scenario == "reserve" ? (simulated ? 12 : 400) : simulated ? 14 : 120;
    for (auto& p : parts) {
        p.rng = Rng(rng.next());
        p.ops = int(rng.below(most));
        if (plan.scenario == "commands") {
            p.do_record = !rng.chance(1, 8);
            p.do_read = rng.chance(1, 8);
        } else if (plan.scenario == "reserve") {
            p.do_reserve = !rng.chance(1, 8);
            p.do_record = rng.chance(1, 5);
            p.do_read = rng.chance(1, 8);
        } else {
            auto x = rng.below(10);
            if (x < 5) p.do_read = true;
            else if (x < 6) p.do_record = p.do_read = true;
            else if (x < 7) p.do_reserve = p.do_read = true;
            else if (x < 8) p.do_write = true;
            else p.do_own = true;
        }
        h = mix(h ^ u64(p.ops) ^ (u64(p.do_record) << 20) ^ (u64(p.do_read) << 21) ^ (u64(p.do_reserve) << 22) ^ (u64(p.do_write) << 23));
    }
    // owners of the entities, for recording; writers
    bool writers = std::any_of(parts.begin(), parts.end(), [](auto& p) { return p.do_write; });
    std::vector<int> comps(NC);
    for (int c = 0; c < NC; c++) comps[c] = c;
    std::vector<char> owned_by_writer;
    if (writers) {
        for (auto& p : parts) {
            if (!p.do_write) continue;
            if (!rng.chance(1, 4) && !comps.empty()) {
                auto i = rng.below(comps.size());
                p.write_comp = comps[i];
                w.excluded_comps |= 1ull << comps[i];
                comps.erase(comps.begin() + i);
            }
        }
        bool by_entity = rng.chance(1, 2);
        for (auto k : w.all) {
            if (!by_entity || rng.chance(1, 3)) continue;
            auto& p = parts[rng.below(n)];
            if (!p.do_write) continue;
            p.write_ents.push_back(k);
            w.excluded_ents.insert(k);
        }
    }
    for (auto k : w.all) {
        auto i = rng.below(n + 1);
        if (int(i) == n || writers || !parts[i].do_record) w.frozen.push_back(k);
        else {
            parts[i].own.emplace_back(k, w.live.at(k));
            parts[i].dead.push_back(0);
        }
    }
    if (writers) w.frozen.clear(); // clones would read while others write ... they happen at the flush, but the values are not predicted

    // run
    if (plan.use_pool == 1) {
        auto& tp = thread_pool::get();
        co_ecs::task_t* parent = nullptr;
        for (int i = 0; i < plan.threads; i++) {
            Part* p = &parts[i];
            auto* t = tp.submit([&w, p] { body(w, *p); }, parent);
            if (!parent) parent = t;
        }
        if (main_too) body(w, parts.back());
        if (parent) tp.wait(parent);
    } else if (plan.use_pool == 2) {
        for (int i = 0; i < plan.threads; i++) {
            crew->members[i]->part = &parts[i];
            if (crew->members[i]->t.joinable()) crew->members[i]->go.release();
            else parts[i] = Part{};
        }
        if (main_too) body(w, parts.back());
        for (int i = 0; i < plan.threads; i++) {
            if (crew->members[i]->t.joinable()) crew->members[i]->done.acquire();
        }
        // some end with their commands outstanding
        if (rng.chance(1, 6)) crew->retire(rng.below(plan.threads));
    } else {
        for (int wave = 0; wave < waves; wave++) {
            std::vector<std::thread> ts;
            for (int i = 0; i < plan.threads; i++) {
                Part* p = &parts[wave * plan.threads + i];
                ts.emplace_back([&w, p] { body(w, *p); });
            }
            if (main_too && wave == 0) body(w, parts.back());
            for (auto& t : ts) t.join();
        }
    }

    // what happened
    std::vector<placeholder_entity> reserved;
    int failing = 0;
    std::size_t pending = 0;
    for (auto& p : parts) {
        if (!p.bad_read.empty()) fail("C15", "read", p.bad_read);
        for (auto k : p.handed_out) handed_out(w, k);
        pending += p.handed_out.size();
        for (auto ph : p.reserved) reserved.push_back(ph);
        failing += p.failing;
        for (auto& [k, m] : p.written)
            for (auto& [c, v] : m) w.live.at(k)[c] = v;
        count("commands", p.do_record ? p.recorded : 0);
        count("reservations", p.reserved.size());
        count("reads", p.reads);
        if (p.do_write) count("writes", p.recorded);
    }
    bump(w, pending);
    check_world(w, plan.scenario == "read" ? "C15" : "C08", "before the flush");
    if (case_bad) return;

    // entities are created and destroyed directly while reservations are outstanding
    if (plan.scenario == "reserve" && rng.chance(1, 2)) {
        bool commands = std::any_of(parts.begin(), parts.end(), [](auto& p) { return p.do_record; });
        if (!commands) {
            direct(*w.reg, w.live, rng, int(rng.below(20)), w.gone, [&](u64 k) {
                handed_out(w, k);
                bump(w, pending + 1);
            });
            check_world(w, "C09", "with reservations outstanding");
        }
    }

    // publish
    int threw = 0;
    bool only_reserved = failing == 0 && std::none_of(parts.begin(), parts.end(), [](auto& p) { return p.do_record; });
    if (only_reserved && rng.chance(1, 2)) {
        w.reg->sync();
        if (rng.chance(1, 3)) w.reg->sync();
    } else {
        // meanwhile threads start, get a command writer and end
        std::vector<std::thread> visitors;
        for (auto v = rng.chance(1, 5) ? rng.range(1, 2) : 0; v; v--) {
            visitors.emplace_back([&w] { command_writer cw{ *w.reg }; });
        }
        for (int tries = 0; tries <= failing + 1; tries++) {
            try {
                command_buffer::flush(*w.reg);
                break;
            } catch (const std::exception&) {
                threw++;
            }
        }
        for (auto& t : visitors) t.join();
        count("flushes");
    }
    if (threw != failing) fail("C08", "failures", fmt("%d commands must fail, %d failures were reported", failing, threw));
    for (auto& p : parts) {
        for (std::size_t i = 0; i < p.own.size(); i++) {
            if (p.dead[i]) {
                w.live.erase(p.own[i].first);
                w.gone.push_back(p.own[i].first);
            } else {
                w.live[p.own[i].first] = p.own[i].second;
            }
        }
    }
    for (auto ph : reserved) {
        if (!w.reg->alive(ph.get_entity())) return fail("C09", "reserved-not-alive", "a reserved entity is not alive after synchronisation");
        w.bare.insert(key(ph.get_entity()));
    }
    bump(w, 0);
    check_world(w, plan.scenario == "reserve" ? "C09" : "C08", "after the flush");
    if (case_bad) return;
    if (live_components != counted(w)) {
        return fail("C08", "retained", fmt("%ld component objects exist, %ld are in the registry", live_components, counted(w)));
    }

    // use the reserved ones
    registry other;
    std::vector<u64> other_gone;
    std::map<u64, Ent> other_live;
    if (!reserved.empty()) direct(other, other_live, rng, 12, other_gone, [](u64) {});
    for (auto ph : reserved) {
        u64 k = key(ph.get_entity());
        auto x = rng.below(6);
        auto source = [&](std::map<u64, Ent>& from, bool copyable) {
            std::vector<u64> c;
            for (auto& [e, m] : from) {
                if (!copyable || !m.contains(2)) c.push_back(e);
                if (c.size() > 20) break;
            }
            return c.empty() ? ~0ull : c[rng.below(c.size())];
        };
        if (x == 0) {
            u64 s = source(w.live, true);
            if (s == ~0ull) continue;
            w.reg->get_entity(unkey(s)).clone(ph);
            w.live[k] = w.live.at(s);
        } else if (x == 1) {
            u64 s = source(other_live, true);
            if (s == ~0ull) continue;
            other.get_entity(unkey(s)).copy(*w.reg, ph);
            w.live[k] = other_live.at(s);
        } else if (x == 2) {
            u64 s = source(other_live, false);
            if (s == ~0ull) continue;
            other.get_entity(unkey(s)).move(*w.reg, ph);
            w.live[k] = other_live.at(s);
            other_live.erase(s);
        } else if (x == 3) {
            w.reg->destroy(ph.get_entity());
            w.gone.push_back(k);
        } else continue;
        w.bare.erase(k);
        count("placeholders_used");
    }
    if (!reserved.empty()) {
        check_world(w, "C09", "after using reserved entities");
        auto bad = check_all(other, other_live);
        if (!bad.empty()) fail("C09", "source", "the registry entities were taken from: " + bad);
    }
    if (w.ids.size() > w.peak) {
        fail("C09", "ids", fmt("%zu ids were used, at most %zu entities were live or reserved", w.ids.size(), w.peak));
    }
    (void)no;
}

void one_case(u64 c, Rng& rng) {
    u64 seed = rng.next();
    Plan plan;
    plan.scenario = args.mode.empty() ? std::array{ "commands", "reserve", "read" }[rng.below(3)] : args.mode;
    plan.threads = int(rng.range(1, simulated ? 4 : 7));
    plan.rounds = 1 + int(rng.below(4));
    plan.use_pool = int(rng.below(3));
#if defined __SANITIZE_THREAD__ && !defined SIM
    plan.use_pool = int(rng.below(2)) * 2; // the compiler's race detector does not know fences, which the pool's queues use
#endif
    World w;
    live_components = 0;
    u64 h = mix(plan.threads * 100 + plan.rounds * 10 + plan.use_pool);
    execute(seed, 2000000, [&] {
        w.reg = std::make_unique<registry>();
        std::unique_ptr<thread_pool> tp;
        std::unique_ptr<Crew> crew;
        if (plan.use_pool == 1) tp = std::make_unique<thread_pool>(rng.range(1, plan.threads + 1));
        if (plan.use_pool == 2) crew = std::make_unique<Crew>(w, plan.threads);
        for (int r = 0; r < plan.rounds && !case_bad; r++) round(w, plan, rng, crew.get(), r, h);
        crew.reset();
        tp.reset();
        if (!case_bad) command_buffer::flush(*w.reg);
        w.reg.reset();
    });
    if (!case_bad && live_components != 0) fail("C08", "retained", fmt("%ld component objects are left over at the end", live_components));
    for (auto k : w.ever) h = mix(h ^ k);
    seen("histories", h);
    count("rounds", plan.rounds);
    if (c % 97 == 0) sample(fmt("case %llu: %s, %d threads (%s), %d rounds, %zu handles", (unsigned long long)c, plan.scenario.c_str(), plan.threads,
        plan.use_pool == 0 ? "ending" : plan.use_pool == 1 ? "pool" : "staying", plan.rounds, w.ever.size()));
}

} // namespace vf

int main(int argc, char** argv) {
    vf::parse_args(argc, argv);
    return vf::run_cases([](vf::u64 c, vf::Rng& rng) {
        vf::one_case(c, rng);
    });
}
