// Monitor for schedules: every system once per run, stage by stage, main-thread policy, command flushing (C13), and
// systems with conflicting access never overlap (C14).
#include "conc.hpp"
#include <co_ecs/co_ecs.hpp>
#include <co_ecs/system/schedule.hpp>
#include <co_ecs/system/named_system.hpp>

namespace vf {

// Component ids spread over several words of a bit set
template<int I>
struct Dummy {};
template<int... I>
co_ecs::component_id_t touch(std::integer_sequence<int, I...>, int from) {
    co_ecs::component_id_t s = 0;
    ((I >= from ? s += co_ecs::component_id::get<Dummy<I>>() : 0), ...);
    return s;
}
struct Extra;
template<int I>
struct X;
static const auto touched = touch(std::make_integer_sequence<int, 3>{}, 0) + co_ecs::component_id::get<X<0>>() + co_ecs::component_id::get<X<2>>()
                            + touch(std::make_integer_sequence<int, 62>{}, 3) + co_ecs::component_id::get<X<3>>() + co_ecs::component_id::get<X<1>>()
                            + co_ecs::component_id::get<Extra>() + touch(std::make_integer_sequence<int, 140>{}, 62);

using co_ecs::command_writer;
using co_ecs::entity;
using co_ecs::registry;
using co_ecs::thread_pool;
using co_ecs::view;

constexpr int NX = 6;
template<int I>
struct X {
    u64 v;
};
struct Mask {
    unsigned m;
};
struct Extra {
    u64 v[30];
};
struct Made { // created by commands
    int sys, run;
};
struct RegMade { // created directly
    int sys, run;
};
struct Ctx {
    u64 magic;
};

} // namespace vf

namespace vf {
struct Reader { // reads everything
    const registry* reg;
};
struct Writer { // writes X<3>
    view<X<3>&, const Mask&> v;
};
} // namespace vf

// arguments of the user's own: from the user context, and with access patterns of their own
namespace co_ecs {
class vf_reader_state {
public:
    explicit vf_reader_state(registry& reg, void*) noexcept : _reg(reg) {
    }
    vf::Reader get() noexcept {
        return { &_reg };
    }
    auto access_pattern() const -> access_pattern_t {
        return access_pattern_t(access_type::read);
    }

private:
    registry& _reg;
};
template<>
class system_argument_state_trait<vf::Reader> {
public:
    using state_type = vf_reader_state;
};
class vf_writer_state {
public:
    explicit vf_writer_state(registry& reg, void*) noexcept : _reg(reg) {
    }
    vf::Writer get() noexcept {
        return { view<vf::X<3>&, const vf::Mask&>(_reg) };
    }
    auto access_pattern() const -> access_pattern_t {
        return access_pattern_t(access_type::read, component_meta::of<vf::Mask>())
               & access_pattern_t(access_type::write, component_meta::of<vf::X<3>>());
    }

private:
    registry& _reg;
};
template<>
class system_argument_state_trait<vf::Writer> {
public:
    using state_type = vf_writer_state;
};

class vf_ctx_state {
public:
    explicit vf_ctx_state(registry&, void* user_context) noexcept : _c(static_cast<vf::Ctx*>(user_context)) {
    }
    vf::Ctx* get() noexcept {
        return _c;
    }
    auto access_pattern() const -> access_pattern_t {
        return access_pattern_t();
    }

private:
    vf::Ctx* _c;
};
template<>
class system_argument_state_trait<vf::Ctx*> {
public:
    using state_type = vf_ctx_state;
};
} // namespace co_ecs

namespace vf {

struct Access {
    unsigned reads = 0, writes = 0; // X components; bit 8: Extra, 9: Made, 10: Mask, 11: RegMade
    int reg = 0;                    // 0 none, 1 reserves, 2 reads, 3 writes
};

inline bool conflict(const Access& a, const Access& b) {
    if ((a.writes & (b.reads | b.writes)) || (b.writes & (a.reads | a.writes))) return true;
    auto all = [](const Access& x, const Access& y) {
        if (x.reg == 3 && (y.reg || y.reads || y.writes)) return true;
        return x.reg == 2 && y.writes;
    };
    return all(a, b) || all(b, a);
}

struct Info {
    int id = 0;
    int stage = 0; // -1 init
    bool main = false;
    int signature = 0;
    int wrapping = 0;
    int load = 0;
    Access access;
    u64 inc = 0;
    // per executor
    std::vector<int> runs;
    std::vector<u64> last_made; // handle of the entity it made by command in the previous run, ~0 none
};

struct RegModel {
    std::unique_ptr<registry> reg;
    std::map<unsigned, std::array<u64, NX>> x; // per kind of entity: value of its components
    std::map<unsigned, std::size_t> population;
    std::map<int, int> made, reg_made;         // per system
    std::size_t size = 0;
    u64 made_total = 0;
};

struct Exec {
    int id = 0;
    RegModel* rm = nullptr;
    std::unique_ptr<co_ecs::schedule_executor> exec;
    Ctx ctx{};
    int runs = 0;
};

// the run that is going on, written by the main thread in between
struct Run {
    Exec* exec = nullptr;
    bool init = false;
    int no = 0;
    std::vector<std::map<unsigned, std::array<u64, NX>>> at_stage; // values when the stage starts
    std::vector<unsigned> stage_writes;                            // components written in the stage
    std::vector<std::array<int, NX>> writers;                      // number of systems writing it in the stage
    u64 made_at_start = 0;
    std::vector<int> main_log;
} run_;

std::deque<Info> infos;
const void* main_marker;
thread_local char marker;
int n_stages;
std::vector<int> stage_size;
int stage_started[32], stage_finished[32];
int active[400];
u64 case_seed;

int aload(int& x) {
    return __atomic_load_n(&x, __ATOMIC_RELAXED);
}
void aadd(int& x, int d) {
    __atomic_fetch_add(&x, d, __ATOMIC_RELAXED);
}
u64 n_runs, n_overlaps;
int failed;

// A finding of the other property of the two ends the case (the models no longer apply) but is not reported for this one.
void fail(const char* prop, const char* key, const std::string& msg) {
    bool c14 = !std::strcmp(prop, "C14"), effects = !std::strcmp(key, "effects");
    if (args.prop == "C13" && c14) return;
    aadd(failed, 1);
    if (args.prop == "C14" && !c14 && !effects) return;
    report(args.prop == "ALL" ? prop : args.prop.c_str(), key, msg);
}

template<int I>
void see(Info& me, unsigned mask, u64 v, bool own_write) {
    int s = run_.init ? 0 : me.stage;
    bool others = run_.writers[s][I] > (own_write ? 1 : 0);
    if (others) return; // only settled if nobody else writes it in this stage
    u64 want = run_.at_stage[s].at(mask)[I];
    if (v != want) {
        fail("C13", "visibility",
            fmt("system %d in stage %d of %d sees %llu in component %d, not %llu: effects of earlier stages are missing or later ones early", me.id, me.stage,
                n_stages, (unsigned long long)v, I, (unsigned long long)want));
    }
}

template<typename T>
struct Field; // what a system does with one component of a row
template<int I>
struct Field<X<I>&> {
    static constexpr unsigned r = 0, w = 1u << I;
    static void touch(Info& me, unsigned mask, X<I>& x) {
        // a system may have the component in two views
        if (!me.access.reads || !(me.access.reads >> I & 1)) see<I>(me, mask, x.v, true);
        x.v += me.inc;
    }
};
template<int I>
struct Field<const X<I>&> {
    static constexpr unsigned r = 1u << I, w = 0;
    static void touch(Info& me, unsigned mask, const X<I>& x) {
        if (!(me.access.writes >> I & 1)) see<I>(me, mask, x.v, false);
        else if (x.v == ~0ull) fail("C13", "visibility", "impossible value");
    }
};
template<>
struct Field<const Mask&> {
    static constexpr unsigned r = 1u << 10, w = 0;
    static void touch(Info&, unsigned, const Mask&) {
    }
};
template<>
struct Field<const entity&> {
    static constexpr unsigned r = 0, w = 0;
    static void touch(Info&, unsigned, const entity& e) {
        if (!e.valid()) fail("C13", "visibility", "invalid entity in a view");
    }
};
template<>
struct Field<Extra&> {
    static constexpr unsigned r = 0, w = 1u << 8;
    static void touch(Info& me, unsigned, Extra& e) {
        for (auto& v : e.v) v += me.inc;
    }
};
template<>
struct Field<const Made&> {
    static constexpr unsigned r = 1u << 9, w = 0;
};

template<typename T>
struct Arg;

template<typename... Ts>
struct Arg<view<Ts...>> {
    static void describe(Access& a) {
        ((a.reads |= Field<Ts>::r, a.writes |= Field<Ts>::w), ...);
    }
    static void act(Info& me, view<Ts...>& v, Rng& r) {
        if constexpr ((std::is_same_v<Ts, const Made&> || ...)) {
            u64 n = 0;
            v.each([&](const Made&) { n++; });
            if (n != run_.made_at_start) {
                fail("C13", "early-flush", fmt("system %d in stage %d sees %llu entities made by commands, there were %llu when the run started", me.id, me.stage,
                    (unsigned long long)n, (unsigned long long)run_.made_at_start));
            }
        } else {
            auto one = [&me](Ts... fields) {
                unsigned mask = 0;
                auto get = [&](auto& f) {
                    if constexpr (std::is_same_v<decltype(f), const Mask&>) mask = f.m;
                };
                (get(fields), ...);
                (Field<Ts>::touch(me, mask, fields), ...);
            };
            auto form = r.below(4);
            if (form == 0) {
                v.par_each(one);
            } else if (form == 1) {
                for (auto row : v.each()) {
                    std::apply(one, row);
                    pause(r, 30);
                }
            } else {
                v.each([&](Ts... f) {
                    one(f...);
                    if (form == 2) pause(r, 30);
                });
            }
        }
    }
};

void see_all(Info& me, const registry& reg) {
    int s = run_.init ? 0 : me.stage;
    auto one = [&]<int I>(std::integral_constant<int, I>) {
        if (me.access.writes >> I & 1) return;
        if (run_.writers[s][I] > 0) return; // shared writers exclude each other with this system, their order is open
        reg.each([&](const X<I>& x, const Mask& m) { see<I>(me, m.m, x.v, false); });
    };
    [&]<int... I>(std::integer_sequence<int, I...>) { (one(std::integral_constant<int, I>{}), ...); }(std::make_integer_sequence<int, NX>{});
    u64 n = 0;
    reg.each([&](const Made&) { n++; });
    if (n != run_.made_at_start) fail("C13", "early-flush", fmt("system %d sees %llu entities made by commands, there were %llu when the run started", me.id, (unsigned long long)n, (unsigned long long)run_.made_at_start));
}

template<>
struct Arg<const registry&> {
    static void describe(Access& a) {
        a.reg = std::max(a.reg, 2);
    }
    static void act(Info& me, const registry& reg, Rng& r) {
        if (&reg != run_.exec->rm->reg.get()) fail("C13", "registry", fmt("system %d got the registry of another executor", me.id));
        see_all(me, reg);
        pause(r);
        (void)reg.size();
    }
};

template<>
struct Arg<Reader> {
    static void describe(Access& a) {
        a.reg = std::max(a.reg, 2);
    }
    static void act(Info& me, Reader& reader, Rng& r) {
        Arg<const registry&>::act(me, *reader.reg, r);
        reader.reg->each([&](const entity& e, const RegMade&) {
            if (!reader.reg->alive(e)) fail("C13", "visibility", "an entity in the registry is not alive");
        });
    }
};
template<>
struct Arg<Writer> {
    static void describe(Access& a) {
        Arg<view<X<3>&, const Mask&>>::describe(a);
    }
    static void act(Info& me, Writer& w, Rng& r) {
        Arg<view<X<3>&, const Mask&>>::act(me, w.v, r);
    }
};

template<>
struct Arg<registry&> {
    static void describe(Access& a) {
        a.reg = 3;
    }
    static void act(Info& me, registry& reg, Rng& r) {
        if (&reg != run_.exec->rm->reg.get()) fail("C13", "registry", fmt("system %d got the registry of another executor", me.id));
        see_all(me, reg);
        // structural changes: everything may move
        auto e = reg.create<RegMade>({ me.id, run_.no });
        pause(r);
        std::vector<entity> some;
        reg.each([&](const entity& ent, const Mask&) {
            if (r.chance(1, 4)) some.push_back(ent);
        });
        for (auto ent : some) {
            auto ref = reg.get_entity(ent);
            if (ref.has<Extra>()) ref.remove<Extra>();
            else ref.set<Extra>();
        }
        if (r.chance(1, 3)) {
            auto t = reg.create<X<0>>({ 5 });
            pause(r);
            t.destroy();
        }
        (void)e;
    }
};

template<>
struct Arg<command_writer> {
    static void describe(Access& a) {
        a.reg = std::max(a.reg, 1);
    }
    static void act(Info& me, command_writer& cw, Rng& r) {
        int n = me.load;
        for (int k = 0; k < n; k++) {
            pause(r);
            entity e = cw.create<Made>({ me.id, run_.no });
            if (k == 0) {
                auto& last = me.last_made[run_.exec->id];
                if (last != ~0ull) cw.destroy(entity{ std::uint32_t(last >> 32), std::uint32_t(last) });
                last = (u64(e.id()) << 32) | e.generation();
            }
        }
    }
};

template<>
struct Arg<Ctx*> {
    static void describe(Access&) {
    }
    static void act(Info& me, Ctx* c, Rng&) {
        if (c != &run_.exec->ctx || c->magic != 4711u + run_.exec->id) fail("C13", "context", fmt("system %d did not get its user context", me.id));
    }
};

template<typename... Args>
struct Sys {
    Info* info;
    int calls = 0;

    void operator()(Args... as) {
        Info& me = *info;
        Exec& ex = *run_.exec;
        bool init = me.stage < 0;
        // policy and order
        if (init != run_.init) fail("C13", "init", fmt("%s system %d ran %s", init ? "initialisation" : "stage", me.id, run_.init ? "while the executor was created" : "in a run"));
        if (me.main) {
            if (main_marker != &marker) fail("C13", "thread", fmt("main-thread system %d ran on another thread", me.id));
            else run_.main_log.push_back(me.id);
        }
        if (!init) {
            for (int s = 0; s < n_stages; s++) {
                if (s < me.stage && aload(stage_finished[s]) != stage_size[s]) {
                    fail("C13", "stage-order", fmt("system %d of stage %d started when %d of %d systems of stage %d had finished", me.id, me.stage, aload(stage_finished[s]), stage_size[s], s));
                }
                if (s > me.stage && aload(stage_started[s])) fail("C13", "stage-order", fmt("system %d of stage %d started when stage %d had begun", me.id, me.stage, s));
            }
            aadd(stage_started[me.stage], 1);
        }
        me.runs[ex.id]++;
        if (++calls != (init ? 1 : run_.no + 1)) fail("C13", "count", fmt("system %d was called %d times by run %d of its executor", me.id, calls, run_.no));
        // overlap
        __atomic_store_n(&active[me.id], 1, __ATOMIC_SEQ_CST);
        u64 overlaps = 0;
        for (auto& o : infos) {
            if (o.id == me.id || !__atomic_load_n(&active[o.id], __ATOMIC_SEQ_CST)) continue;
            overlaps++;
            if (conflict(o.access, me.access)) {
                fail("C14", "overlap", fmt("system %d (signature %d%s) runs while system %d (signature %d%s) runs, their access conflicts", me.id, me.signature,
                    me.main ? ", main thread" : "", o.id, o.signature, o.main ? ", main thread" : ""));
            }
        }
        __atomic_fetch_add(&n_overlaps, overlaps, __ATOMIC_RELAXED);
        __atomic_fetch_add(&n_runs, 1, __ATOMIC_RELAXED);
        Rng r(case_seed ^ mix(me.id * 1000 + run_.no));
        pause(r, 200);
        (Arg<Args>::act(me, as, r), ...);
        pause(r, 200);
        __atomic_store_n(&active[me.id], 0, __ATOMIC_SEQ_CST);
        if (!init) aadd(stage_finished[me.stage], 1);
    }
};

template<typename... A>
struct Sig {};
template<int I>
using R = const X<I>&;
template<int I>
using W = X<I>&;
using M = const Mask&;

using Sigs = std::tuple<                                           //
    Sig<view<W<0>, M>>,                                            // 0
    Sig<view<R<0>, M>>,                                            //
    Sig<view<W<1>, R<0>, M>>,                                      //
    Sig<view<R<1>, W<2>, M>>,                                      //
    Sig<view<W<2>, W<3>, M>>,                                      //
    Sig<view<W<3>, M>, view<R<4>, M>>,                             // 5
    Sig<view<W<4>, M>, command_writer>,                            //
    Sig<command_writer>,                                           //
    Sig<registry&>,                                                //
    Sig<const registry&>,                                          //
    Sig<view<const Made&>>,                                        // 10
    Sig<command_writer, view<R<5>, M>>,                            //
    Sig<Ctx*>,                                                     //
    Sig<view<W<5>, const entity&, M>>,                             //
    Sig<>,                                                         //
    Sig<view<R<0>, R<1>, R<2>, R<3>, R<4>, R<5>, M>>,              // 15
    Sig<registry&, command_writer>,                                //
    Sig<view<R<0>, M>, view<W<0>, M>>,                             //
    Sig<command_writer, const registry&>,                          //
    Sig<view<Extra&>>,                                             //
    Sig<Ctx*, view<M, R<2>>, view<W<1>, M>>,                       // 20
    Sig<view<W<3>, M, R<1>>, view<const Made&>, command_writer>,   //
    Sig<view<W<4>, M>, view<R<4>, R<1>, M>>,                       //
    Sig<Reader>,                                                   //
    Sig<Writer>,                                                   //
    Sig<Reader, command_writer>,                                   // 25
    Sig<command_writer, Writer, view<R<2>, M>>>;                   //
constexpr int NSIGS = int(std::tuple_size_v<Sigs>);

template<typename F>
void with_sig(int i, F&& f) {
    [&]<std::size_t... K>(std::index_sequence<K...>) { ((int(K) == i ? (f(std::tuple_element_t<K, Sigs>{}), 0) : 0), ...); }(
        std::make_index_sequence<std::size_t(NSIGS)>{});
}

// which components of an entity of that kind the system increments, per signature
void model_apply(const Info& s, std::map<unsigned, std::array<u64, NX>>& x) {
    auto view_apply = [&]<typename... Ts>(view<Ts...>*) {
        unsigned need = 0, writes = 0;
        ((need |= (Field<Ts>::r | Field<Ts>::w) & ((1u << NX) - 1), writes |= Field<Ts>::w & ((1u << NX) - 1)), ...);
        for (auto& [mask, vals] : x) {
            if ((mask & need) != need) continue;
            for (int i = 0; i < NX; i++)
                if (writes >> i & 1) vals[i] += s.inc;
        }
    };
    auto one_arg = [&]<typename A>(A*) {
        if constexpr (std::is_same_v<A, Writer>) view_apply((view<X<3>&, const Mask&>*)nullptr);
        else if constexpr (!std::is_same_v<A, Reader> && !std::is_same_v<A, registry> && !std::is_same_v<A, const registry> && !std::is_same_v<A, command_writer> && !std::is_same_v<A, Ctx*>) {
            view_apply((A*)nullptr);
        }
    };
    with_sig(s.signature, [&]<typename... A>(Sig<A...>) { (one_arg((std::remove_reference_t<A>*)nullptr), ...); });
}

template<typename... Args>
void add(Rng&, Info& s, auto&& into) {
    Sys<Args...> sys{ &s };
    switch (s.wrapping) {
    case 0: into(std::move(sys)); break;
    case 1: into(std::function<void(Args...)>(sys)); break;
    case 2: into(std::make_unique<co_ecs::named_system<Sys<Args...>>>(std::move(sys), "named")); break;
    default: into(std::make_unique<co_ecs::system<Sys<Args...>>>(std::move(sys))); break;
    }
}

void populate(RegModel& rm, Rng& r) {
    rm.reg = std::make_unique<registry>();
    int n = int(r.below(simulated ? 8 : 60));
    for (int i = 0; i < n; i++) {
        unsigned mask = r.chance(1, 3) ? (1u << NX) - 1 : unsigned(r.below(1u << NX));
        if (rm.population.size() > 5 && !rm.population.contains(mask)) mask = rm.population.begin()->first;
        auto& vals = rm.x.emplace(mask, std::array<u64, NX>{}).first->second;
        rm.population[mask]++;
        auto e = rm.reg->create<Mask>({ mask });
        [&]<int... I>(std::integer_sequence<int, I...>) {
            ((mask >> I & 1 ? (vals[I] = 1000 * (I + 1), e.set<X<I>>(X<I>{ 1000u * (I + 1) }), 0) : 0), ...);
        }(std::make_integer_sequence<int, NX>{});
        if (r.chance(1, 3)) e.set<Extra>();
        rm.size++;
    }
}

void prepare(Exec& ex, bool init) {
    run_ = Run{};
    run_.exec = &ex;
    run_.init = init;
    run_.no = init ? 0 : ex.runs;
    run_.made_at_start = ex.rm->made_total;
    int stages = init ? 1 : n_stages;
    run_.stage_writes.assign(stages, 0);
    run_.writers.assign(stages, {});
    auto x = ex.rm->x;
    for (int s = 0; s < stages; s++) {
        run_.at_stage.push_back(x);
        for (auto& i : infos) {
            if (i.stage != (init ? -1 : s)) continue;
            model_apply(i, x);
            for (int c = 0; c < NX; c++)
                if (i.access.writes >> c & 1) run_.writers[s][c]++;
        }
    }
    ex.rm->x = x; // as it will be
    for (int s = 0; s < 32; s++) stage_started[s] = stage_finished[s] = 0;
}

void after(Exec& ex, bool init) {
    auto& rm = *ex.rm;
    // every system exactly once
    std::vector<int> order;
    for (int s = init ? -1 : 0; s < (init ? 0 : n_stages); s++) {
        for (auto& i : infos) {
            if (i.stage != s) continue;
            if (i.main) order.push_back(i.id);
            int want = init ? 1 : ex.runs + 1;
            if (i.runs[ex.id] != want) {
                fail("C13", "count", fmt("%s system %d (signature %d%s) has run %d times after %d runs of executor %d", init ? "initialisation" : "stage", i.id,
                    i.signature, i.main ? ", main thread" : "", i.runs[ex.id], want, ex.id));
            }
            bool cw = false;
            with_sig(i.signature, [&]<typename... A>(Sig<A...>) {
                cw = (std::is_same_v<A, command_writer> || ...);
                if ((std::is_same_v<A, registry&> || ...)) {
                    rm.reg_made[i.id]++;
                    rm.size++;
                }
            });
            if (cw && i.load) {
                // it has destroyed the one entity of its previous run in this executor
                int d = i.load - (want > 1 ? 1 : 0);
                rm.made[i.id] += d;
                rm.made_total += d;
                rm.size += d;
            }
        }
    }
    if (run_.main_log != order) fail("C13", "main-order", "main-thread systems did not run in the order they were added");
    if (failed) return;
    // effects
    auto& reg = std::as_const(*rm.reg);
    std::map<int, int> made, reg_made;
    reg.each([&](const Made& m) { made[m.sys]++; });
    reg.each([&](const RegMade& m) { reg_made[m.sys]++; });
    for (auto& i : infos) {
        if (made[i.id] != rm.made[i.id]) {
            fail("C13", "flush", fmt("after the %s there are %d entities made by commands of system %d, not %d", init ? "initialisation" : "run", made[i.id], i.id, rm.made[i.id]));
        }
        if (reg_made[i.id] != rm.reg_made[i.id]) fail("C13", "effects", fmt("system %d has made %d entities directly, not %d", i.id, reg_made[i.id], rm.reg_made[i.id]));
    }
    auto one = [&]<int I>(std::integral_constant<int, I>) {
        std::size_t n = 0, want_n = 0;
        for (auto& [mask, k] : rm.population) want_n += (mask >> I & 1) ? k : 0;
        reg.each([&](const X<I>& x, const Mask& m) {
            n++;
            if (x.v != rm.x.at(m.m)[I]) {
                fail("C13", "effects", fmt("component %d is %llu after the run, not %llu: effects of a system are lost or doubled", I, (unsigned long long)x.v,
                    (unsigned long long)rm.x.at(m.m)[I]));
            }
        });
        if (n != want_n) fail("C13", "effects", "entities are missing");
    };
    [&]<int... I>(std::integer_sequence<int, I...>) { (one(std::integral_constant<int, I>{}), ...); }(std::make_integer_sequence<int, NX>{});
    if (reg.size() != rm.size) fail("C13", "effects", fmt("the registry has %zu entities after the run, not %zu", reg.size(), rm.size));
    for (auto& i : infos) {
        auto h = i.last_made[ex.id];
        if (h != ~0ull && !reg.alive(entity{ std::uint32_t(h >> 32), std::uint32_t(h) })) fail("C13", "flush", "an entity made by a command is not alive after the run");
    }
}

void one_case(u64 c, Rng& rng) {
    u64 seed = rng.next();
    case_seed = rng.next();
    infos.clear();
    failed = 0;
    n_runs = n_overlaps = 0;
    std::memset(active, 0, sizeof active);
    main_marker = &marker;
    // now and then a schedule with many systems
    const int many = simulated || !rng.chance(1, 40) ? 0 : int(rng.range(1, 3));
    n_stages = many ? int(rng.range(1, many == 1 ? 20 : 2)) : int(rng.below(5));
    const char* names[] = { "", "", "a stage", "a stage", "another stage" };
    std::vector<const char*> stage_names;
    for (int s = 0; s < n_stages; s++) stage_names.push_back(names[rng.below(5)]);
    stage_size.assign(n_stages, 0);
    int n_exec = 1 + int(rng.below(3));
    int workers = !simulated && rng.chance(1, 30) ? int(rng.range(9, 40)) : int(rng.range(1, simulated ? 4 : 8));
    int max_runs = 1 + int(rng.below(4));
    // which signatures this case uses
    std::vector<int> sigs;
    for (int k = 2 + int(rng.below(6)); k; k--) sigs.push_back(int(rng.below(NSIGS)));
    int main_share = int(rng.below(3)) * 2; // of 10
    u64 h = mix(n_stages * 1000 + n_exec * 100 + workers * 10 + max_runs);
    for (int s = -1; s < n_stages; s++) {
        int n = many > 1 ? int(rng.range(20, 130)) : int(rng.below(s < 0 ? 4 : simulated ? 6 : 9));
        for (int k = 0; k < n; k++) {
            Info& i = infos.emplace_back();
            i.id = int(infos.size()) - 1;
            i.stage = s;
            i.signature = rng.chance(1, 6) ? int(rng.below(NSIGS)) : rng.pick(sigs);
            i.main = rng.chance(main_share, 10);
            i.wrapping = int(rng.below(4));
            i.load = int(rng.below(4));
            i.inc = 1 + rng.below(1u << 30);
            i.runs.assign(n_exec, 0);
            i.last_made.assign(n_exec, ~0ull);
            with_sig(i.signature, [&]<typename... A>(Sig<A...>) { (Arg<A>::describe(i.access), ...); });
            if (s >= 0) stage_size[s]++;
            h = mix(h ^ i.signature ^ (u64(i.main) << 10) ^ (u64(s + 1) << 20));
        }
    }
    std::vector<RegModel> regs(1 + rng.below(n_exec));
    u64 total_runs = 0;
    bool keep_schedule = rng.chance(1, 2);
    execute(seed, 4000000, [&] {
        thread_pool tp(workers);
        for (auto& rm : regs) populate(rm, rng);
        std::vector<Exec> execs(n_exec);
        auto build = [&](co_ecs::schedule& sched) {
            for (auto& i : infos) {
                if (i.stage >= 0) continue;
                with_sig(i.signature, [&]<typename... A>(Sig<A...>) {
                    add<A...>(rng, i, [&](auto&& s) {
                        if (i.main) sched.add_init_system(co_ecs::main_thread_execution_policy, std::forward<decltype(s)>(s));
                        else sched.add_init_system(std::forward<decltype(s)>(s));
                    });
                });
            }
            for (int s = 0; s < n_stages; s++) {
                auto& st = sched.begin_stage(stage_names[s]);
                for (auto& i : infos) {
                    if (i.stage != s) continue;
                    with_sig(i.signature, [&]<typename... A>(Sig<A...>) {
                        add<A...>(rng, i, [&](auto&& sy) {
                            if (i.main) st.add_system(co_ecs::main_thread_execution_policy, std::forward<decltype(sy)>(sy));
                            else st.add_system(std::forward<decltype(sy)>(sy));
                        });
                    });
                }
                if (&st.end_stage() != &sched) fail("C13", "chain", "end_stage does not return its schedule");
            }
        };
        auto sched = std::make_unique<co_ecs::schedule>();
        build(*sched);
        for (int e = 0; e < n_exec && !failed; e++) {
            auto& ex = execs[e];
            ex.id = e;
            ex.rm = &regs[e < int(regs.size()) ? e : rng.below(regs.size())];
            ex.ctx.magic = 4711u + e;
            prepare(ex, true);
            ex.exec = sched->create_executor(*ex.rm->reg, &ex.ctx);
            total_runs++;
            after(ex, true);
            // run some before the next one is created
            while (!failed && ex.runs < max_runs && rng.chance(1, 3)) {
                prepare(ex, false);
                ex.exec->run_once();
                total_runs++;
                after(ex, false);
                ex.runs++;
            }
        }
        if (!keep_schedule) sched.reset();
        for (int k = 0; k < n_exec * max_runs && !failed; k++) {
            auto& ex = execs[rng.below(n_exec)];
            if (ex.runs > max_runs) continue;
            prepare(ex, false);
            ex.exec->run_once();
            total_runs++;
            after(ex, false);
            ex.runs++;
        }
        std::size_t first = rng.below(n_exec);
        for (int e = 0; e < n_exec; e++) execs[(first + e) % n_exec].exec.reset();
        sched.reset();
        if (!failed) co_ecs::command_buffer::flush(*regs[0].reg);
    });
    regs.clear();
    count("schedule_runs", total_runs);
    count("system_runs", n_runs);
    count("overlapping_pairs", n_overlaps);
    seen("schedules", h);
    if (c % 151 == 0) {
        sample(fmt("case %llu: %d stages, %zu systems, %d executors, %d workers: %llu runs, %llu system runs, %llu overlapping pairs", (unsigned long long)c, n_stages,
            infos.size(), n_exec, workers, (unsigned long long)total_runs, (unsigned long long)n_runs, (unsigned long long)n_overlaps));
    }
}

} // namespace vf

int main(int argc, char** argv) {
    vf::parse_args(argc, argv);
    return vf::run_cases([](vf::u64 c, vf::Rng& rng) {
        vf::one_case(c, rng);
    });
}
