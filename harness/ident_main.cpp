// Monitor for component identity across translation units and shared libraries (C19). The driver starts a fresh process
// of a randomly chosen executable for every case; the process loads plug-ins in random order, works on registries through
// randomly chosen parts, and compares everything with a model.
#define CO_ECS_CLIENT
#include "ident_types.hpp"
#include "vf.hpp"

#include <dlfcn.h>
#include <thread>
#include <sys/wait.h>

namespace {

using namespace idt;
using vf::fmt;
using vf::Rng;

[[noreturn]] void bad(const char* key, const std::string& msg) {
    printf("V\t%s\t%s\n", key, msg.c_str());
    fflush(stdout);
    _exit(0);
}

struct Model {
    registry* reg;
    std::map<u64, std::map<int, u64>> e; // entity -> type -> value
};
u64 pack(entity e) {
    return (u64(e.id()) << 32) | e.generation();
}
entity unpack(u64 h) {
    return entity{ std::uint32_t(h >> 32), std::uint32_t(h) };
}

std::vector<const Api*> parts;
std::map<int, component_id_t> ids; // of types, and of the Many as 1000 + i
std::map<component_id_t, int> types;
u64 n_ids, n_ops, n_values;

void an_id(int part, int t, component_id_t id, const char* when) {
    n_ids++;
    auto [i, fresh] = ids.emplace(t, id);
    if (!fresh && i->second != id) bad("identity", fmt("part %d has id %u for type %d (%s), other parts have %u", part, id, t, when, i->second));
    auto [j, fresh2] = types.emplace(id, t);
    if (!fresh2 && j->second != t) bad("distinct", fmt("types %d and %d have the same id %u (%s, part %d)", t, j->second, id, when, part));
}

void check_ids(Rng& r) {
    co_ecs::component_set s;
    std::set<int> in;
    for (int k = 0; k < 10; k++) {
        int t = int(r.below(N));
        auto* p = r.pick(parts);
        if (p->ops[t].to_set) {
            p->ops[t].to_set(s);
            in.insert(t);
        }
    }
    for (auto* p : parts) {
        for (int t = 0; t < N; t++) {
            if (!p->ops[t].id) continue;
            an_id(p->part, t, p->ops[t].id(), "now");
            an_id(p->part, t, p->ops[t].value(), "component_id::value");
            if (p->ops[t].in_set(s) != in.contains(t)) bad("set", fmt("part %d misreads a component set made by others: type %d", p->part, t));
        }
        for (int i = 0; i < MANY; i++)
            if (p->many[i]) an_id(p->part, 1000 + i, p->many[i](), "now");
    }
}

void verify(Model& m, Rng& r) {
    for (auto& [h, want] : m.e) {
        auto* p = r.pick(parts);
        if (!p->alive(*m.reg, unpack(h))) bad("alive", fmt("entity %u is not alive in part %d", unpack(h).id(), p->part));
        for (int t = 0; t < N; t++) {
            auto* q = p->ops[t].get ? p : r.pick(parts);
            if (!q->ops[t].get) continue;
            u64 v = 0;
            bool has = q->ops[t].get(*m.reg, unpack(h), &v);
            n_values++;
            auto i = want.find(t);
            if (has != (i != want.end())) bad("component", fmt("part %d says entity %u has%s type %d", q->part, unpack(h).id(), has ? "" : " not", t));
            if (has && v != i->second) bad("value", fmt("part %d reads %llu in type %d of entity %u, not %llu", q->part, (unsigned long long)v, t, unpack(h).id(), (unsigned long long)i->second));
        }
    }
    for (int t = 0; t < N; t++) {
        auto* p = r.pick(parts);
        if (!p->ops[t].sum) continue;
        u64 n = 0, s = 0, wn = 0, ws = 0, n2 = 0, s2 = 0, t2 = 0, wn2 = 0, ws2 = 0, wt2 = 0;
        int next = p->ops[t].next;
        for (auto& [h, want] : m.e) {
            auto i = want.find(t);
            if (i == want.end()) continue;
            u64 x = mix(i->second ^ mix(unpack(h).id()));
            wn++, ws += x;
            if (auto j = want.find(next); j != want.end()) wn2++, ws2 += x, wt2 += mix(j->second ^ mix(unpack(h).id()));
        }
        if (r.chance(1, 2)) p->ops[t].sum(*m.reg, &n, &s);
        else p->ops[t].const_sum(*m.reg, &n, &s);
        n_values += n;
        if (n != wn || s != ws) bad("view", fmt("a view of type %d in part %d yields %llu entities, not %llu, or other values", t, p->part, (unsigned long long)n, (unsigned long long)wn));
        p->ops[t].sum2(*m.reg, &n2, &s2, &t2);
        n_values += 2 * n2;
        if (n2 != wn2 || s2 != ws2 || t2 != wt2) bad("view", fmt("a view of types %d and %d in part %d yields %llu entities, not %llu, or other values", t, next, p->part, (unsigned long long)n2, (unsigned long long)wn2));
    }
    auto* p = r.pick(parts);
    if (p->size(*m.reg) != m.e.size()) bad("size", fmt("the registry has %zu entities in part %d, not %zu", p->size(*m.reg), p->part, m.e.size()));
}

void add_part(const Api* a, Rng& r) {
    parts.push_back(a);
    auto* early = a->early();
    if (!early->done) bad("init", "a part has not been initialised");
    if (early->failed) bad("component", fmt("a component added during the initialisation of part %d could not be removed", a->part));
    for (auto [t, id] : early->ids) an_id(a->part, t, id, "during initialisation");
    Model m{ early->reg, {} };
    for (auto [e, t, v] : early->expect) m.e[pack(e)][t] = v;
    check_ids(r);
    verify(m, r);
}

int child(u64 seed) {
    alarm(60);
    Rng r(seed);
    for (auto* a : { ident_api_0(), ident_api_1(), ident_api_2(), ident_api_3(), ident_api_8(), ident_api_9() }) add_part(a, r);
    std::vector<std::pair<std::string, std::vector<std::string>>> plugs = { { "libvfp1.so", { "ident_api_4", "ident_api_5" } },
        { "libvfp2.so", { "ident_api_6" } }, { "libvfp3.so", { "ident_api_7" } } };
    char self[4096] = {};
    if (readlink("/proc/self/exe", self, sizeof self - 1) < 0) return 3;
    std::string dir(self);
    dir = dir.substr(0, dir.rfind('/') + 1);
    std::vector<Model> regs;
    u64 order = 0;
    int steps = int(r.range(60, 400));
    for (int step = 0; step < steps; step++) {
        n_ops++;
        auto* p = r.pick(parts);
        if (!plugs.empty() && r.chance(1, 25)) {
            auto i = r.below(plugs.size());
            int flags = (r.chance(1, 2) ? RTLD_LOCAL : RTLD_GLOBAL) | (r.chance(1, 2) ? RTLD_NOW : RTLD_LAZY);
            void* h = nullptr;
            auto load = [&] { h = dlopen((dir + plugs[i].first).c_str(), flags); };
            if (r.chance(1, 3)) std::thread(load).join();
            else load();
            if (!h) {
                fprintf(stderr, "dlopen: %s\n", dlerror());
                return 3;
            }
            for (auto& name : plugs[i].second) {
                auto* f = reinterpret_cast<const Api* (*)()>(dlsym(h, name.c_str()));
                if (!f) return 3;
                add_part(f(), r);
            }
            order = order * 31 + i * 7 + flags + 1 + u64(step) * 1000;
            plugs.erase(plugs.begin() + i);
            for (auto& m : regs) verify(m, r);
            continue;
        }
        if (regs.empty() || (regs.size() < 3 && r.chance(1, 30))) {
            regs.push_back({ p->make(), {} });
            continue;
        }
        Model& m = r.pick(regs);
        if (r.chance(1, 60)) {
            verify(m, r);
            p->free(m.reg);
            regs.erase(regs.begin() + (&m - regs.data()));
            continue;
        }
        std::vector<int> known;
        for (int t = 0; t < N; t++)
            if (p->ops[t].create) known.push_back(t);
        int t = r.pick(known);
        auto& o = p->ops[t];
        u64 v = r.below(1000000000), w = r.below(1000000000);
        u64 h = 0;
        if (!m.e.empty()) h = std::next(m.e.begin(), r.below(m.e.size()))->first;
        switch (r.below(m.e.empty() ? 2 : 12)) {
        case 0: m.e[pack(o.create(*m.reg, v))][t] = v; break;
        case 1: {
            auto e = pack(o.create2(*m.reg, v, w));
            m.e[e][t] = v;
            m.e[e][o.next] = w;
            break;
        }
        case 2:
        case 3:
        case 4:
            if (!o.set(*m.reg, unpack(h), v)) bad("set", fmt("part %d cannot set type %d", p->part, t));
            m.e[h][t] = v;
            break;
        case 5:
        case 6: {
            bool had = o.remove(*m.reg, unpack(h));
            if (had != (m.e[h].erase(t) > 0)) bad("component", fmt("part %d removing type %d: had it %d", p->part, t, had));
            break;
        }
        case 7:
            if (!p->destroy(*m.reg, unpack(h))) bad("destroy", fmt("part %d cannot destroy an entity", p->part));
            m.e.erase(h);
            break;
        case 8: {
            entity e;
            bool movable_only = false;
            auto probe = [&]<int... I>(std::integer_sequence<int, I...>) {
                ((m.e[h].contains(I) && !std::is_copy_constructible_v<std::tuple_element_t<std::size_t(I), Types>> ? (movable_only = true, 0) : 0), ...);
            };
            probe(std::make_integer_sequence<int, N>{});
            int rc = p->clone(*m.reg, unpack(h), &e);
            if (rc != (movable_only ? 1 : 0)) bad("clone", fmt("part %d: clone %s", p->part, rc ? "failed" : "did not fail"));
            if (!rc) m.e[pack(e)] = std::map<int, u64>(m.e[h]);
            break;
        }
        case 9: {
            Model& to = r.pick(regs);
            if (&to == &m) break;
            entity e;
            if (p->move(*m.reg, unpack(h), *to.reg, &e)) bad("move", fmt("part %d: move failed", p->part));
            auto vals = m.e[h];
            m.e.erase(h);
            to.e[pack(e)] = vals;
            verify(to, r);
            break;
        }
        case 10: {
            o.add(*m.reg, 3);
            for (auto& [_, c] : m.e)
                if (auto i = c.find(t); i != c.end()) i->second += 3;
            break;
        }
        default: {
            // commands; recorded and flushed by the same part
            o.cmd_set(*m.reg, unpack(h), v);
            p->flush(*m.reg);
            m.e[h][t] = v;
            break;
        }
        }
        if (r.chance(1, 6)) verify(m, r);
        if (r.chance(1, 40)) check_ids(r);
    }
    check_ids(r);
    for (auto& m : regs) {
        verify(m, r);
        r.pick(parts)->free(m.reg);
    }
    for (auto* p : parts) r.pick(parts)->free(p->early()->reg);
    u64 dig = order;
    for (auto [t, id] : ids) dig = mix(dig ^ (u64(t) << 32) ^ id);
    printf("C\tids_compared\t%llu\nC\toperations\t%llu\nC\tvalues_compared\t%llu\nD\tload_histories\t%llu\nOK\n", (unsigned long long)n_ids, (unsigned long long)n_ops,
        (unsigned long long)n_values, (unsigned long long)dig);
    fflush(stdout);
    return 0;
}

} // namespace

int main(int argc, char** argv) {
    if (argc > 2 && !strcmp(argv[1], "child")) return child(std::strtoull(argv[2], nullptr, 10));
    vf::parse_args(argc, argv);
    char self[4096] = {};
    if (readlink("/proc/self/exe", self, sizeof self - 1) < 0) return 3;
    std::string dir(self);
    dir = dir.substr(0, dir.rfind('/') + 1);
    int harness_error = 0;
    int rc = vf::run_cases([&](u64 c, Rng& rng) {
        static const char* exes[] = { "ident_x1", "ident_x2", "ident_x3", "ident" };
        std::string cmd = dir + exes[rng.below(4)] + " child " + std::to_string(rng.next());
        FILE* f = popen(cmd.c_str(), "r");
        if (!f) {
            harness_error = 1;
            return;
        }
        char line[4096];
        bool ok = false;
        while (fgets(line, sizeof line, f)) {
            std::string l(line);
            if (!l.empty() && l.back() == '\n') l.pop_back();
            if (l == "OK") ok = true;
            auto a = l.find('\t'), b = l.find('\t', a + 1);
            if (a == std::string::npos || b == std::string::npos) continue;
            auto k = l.substr(a + 1, b - a - 1), v = l.substr(b + 1);
            if (l[0] == 'V') {
                vf::report("C19", k, v);
                ok = true;
            }
            if (l[0] == 'C') vf::count(k, std::strtoull(v.c_str(), nullptr, 10));
            if (l[0] == 'D') vf::seen(k, std::strtoull(v.c_str(), nullptr, 10));
        }
        int st = pclose(f);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) harness_error = 1;
        else if (!ok || !WIFEXITED(st) || WEXITSTATUS(st)) vf::report("C19", "crash", fmt("a process of several binaries ended abnormally (status %d): %s", st, cmd.c_str()));
        if (c % 17 == 0) vf::sample("case " + std::to_string(c) + ": " + cmd.substr(dir.size()));
    });
    return harness_error ? 3 : rc;
}
