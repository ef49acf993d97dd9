// Monitor for resource use under steady-state churn (C20): the same bounded workload is repeated for many rounds, the bytes
// and blocks allocated at the end of the rounds must stop growing.
#include "vf.hpp"
#include <co_ecs/co_ecs.hpp>
#include <co_ecs/system/named_system.hpp>
#include <co_ecs/system/schedule.hpp>
#include <co_ecs/thread_pool/parallel_for.hpp>

#include <dirent.h>
#include <functional>
#include <malloc.h>
#include <numeric>
#include <thread>

// ---- allocation statistics -----------------------------------------------------------------------------------------

namespace vf {
long live_bytes, live_blocks;
u64 n_allocs;

void* obtain(std::size_t n, std::size_t align) {
    void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    __atomic_fetch_add(&live_bytes, long(malloc_usable_size(p)), __ATOMIC_RELAXED);
    __atomic_fetch_add(&live_blocks, 1, __ATOMIC_RELAXED);
    __atomic_fetch_add(&n_allocs, 1, __ATOMIC_RELAXED);
    return p;
}
void release(void* p) {
    if (!p) return;
    __atomic_fetch_sub(&live_bytes, long(malloc_usable_size(p)), __ATOMIC_RELAXED);
    __atomic_fetch_sub(&live_blocks, 1, __ATOMIC_RELAXED);
    free(p);
}
} // namespace vf

void* operator new(std::size_t n) {
    return vf::obtain(n, 16);
}
void* operator new[](std::size_t n) {
    return vf::obtain(n, 16);
}
void* operator new(std::size_t n, std::align_val_t a) {
    return vf::obtain(n, std::size_t(a));
}
void* operator new[](std::size_t n, std::align_val_t a) {
    return vf::obtain(n, std::size_t(a));
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept {
    return vf::obtain(n, 16);
}
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept {
    return vf::obtain(n, 16);
}
void operator delete(void* p) noexcept {
    vf::release(p);
}
void operator delete[](void* p) noexcept {
    vf::release(p);
}
void operator delete(void* p, std::size_t) noexcept {
    vf::release(p);
}
void operator delete[](void* p, std::size_t) noexcept {
    vf::release(p);
}
void operator delete(void* p, std::align_val_t) noexcept {
    vf::release(p);
}
void operator delete[](void* p, std::align_val_t) noexcept {
    vf::release(p);
}
void operator delete(void* p, std::size_t, std::align_val_t) noexcept {
    vf::release(p);
}
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept {
    vf::release(p);
}

namespace vf {

using co_ecs::command_buffer;
using co_ecs::command_writer;
using co_ecs::entity;
using co_ecs::registry;
using co_ecs::thread_pool;

long n_objects; // live instrumented components

struct Counted {
    Counted() {
        __atomic_fetch_add(&n_objects, 1, __ATOMIC_RELAXED);
    }
    Counted(const Counted&) : Counted() {
    }
    Counted(Counted&&) noexcept : Counted() {
    }
    Counted& operator=(const Counted&) = default;
    Counted& operator=(Counted&&) noexcept = default;
    ~Counted() {
        __atomic_fetch_sub(&n_objects, 1, __ATOMIC_RELAXED);
    }
};

template<int I>
struct Pod {
    u64 v[1 << I];
};
struct Empty {};
struct Heap : Counted {
    std::vector<u64> v;
    explicit Heap(std::size_t n = 20) : v(n, 7) {
    }
};
struct Only : Counted { // cannot be copied
    std::unique_ptr<u64> p{ new u64(3) };
};
struct Huge {
    char c[20000]; // does not fit into a block
};
struct Thrower : Counted {
    std::vector<u64> v;
    bool armed = false;
    explicit Thrower(int x) : v(10, 1) {
        if (x) throw std::runtime_error("thrower");
    }
    Thrower(const Thrower& o) : Counted(o), v(o.v) {
        throw std::runtime_error("copy");
    }
    Thrower(Thrower&&) noexcept = default;
    Thrower& operator=(Thrower&&) noexcept = default;
    Thrower& operator=(const Thrower&) = default;
};

struct State {
    registry regs[2];
    std::unique_ptr<thread_pool> pool;
    int workers = 1;
    u64 ops = 0;
};

template<typename F>
bool attempt(F&& f) {
    try {
        f();
        return true;
    } catch (const std::exception&) {
        return false;
    }
}

// One activity leaves the state as it found it: the same entities (as many, with the same components), no commands, no tasks.
using Activity = void (*)(State&, Rng&);

void make_some(State& s, registry& reg, Rng& r, std::vector<entity>& es, int n) {
    for (int i = 0; i < n; i++) {
        s.ops++;
        switch (r.below(8)) {
        case 0: es.push_back(reg.create<Pod<0>>({})); break;
        case 1: es.push_back(reg.create<Pod<0>, Heap>({}, Heap(r.below(40)))); break;
        case 2: es.push_back(reg.create<Pod<6>, Pod<1>>({}, {})); break;
        case 3: es.push_back(reg.create<Only, Pod<3>>(Only{}, {})); break;
        case 4: es.push_back(reg.create<Empty>({})); break;
        case 5: es.push_back(reg.create<Heap, Only, Pod<9>>(Heap(5), Only{}, {})); break;
        case 6: es.push_back(reg.create<Pod<8>>({})); break;
        default: es.push_back(reg.create<Thrower, Pod<0>>(Thrower(0), {})); break;
        }
    }
}

void create_destroy(State& s, Rng& r) {
    auto& reg = s.regs[r.below(2)];
    std::vector<entity> es;
    make_some(s, reg, r, es, int(r.range(1, 300)));
    while (!es.empty()) {
        auto i = r.below(es.size());
        reg.get_entity(es[i]).destroy();
        s.ops++;
        es[i] = es.back();
        es.pop_back();
    }
}

void set_remove(State& s, Rng& r) {
    auto& reg = s.regs[0];
    std::vector<entity> es;
    make_some(s, reg, r, es, int(r.range(1, 40)));
    for (int k = 0; k < 200; k++) {
        auto e = reg.get_entity(r.pick(es));
        s.ops++;
        switch (r.below(9)) {
        case 0: e.set<Heap>(Heap(r.below(30))); break;
        case 1:
            if (e.has<Heap>()) e.remove<Heap>();
            break;
        case 2: e.set<Pod<2>>(Pod<2>{}); break;
        case 3:
            if (e.has<Pod<2>>()) e.remove<Pod<2>>();
            break;
        case 4: e.set<Only>(Only{}); break;
        case 5:
            if (e.has<Only>()) e.remove<Only>();
            break;
        case 6: attempt([&] { e.set<Huge>(); }); break;
        case 7: attempt([&] { e.set<Thrower>(1); }); break;
        default: e.get_or_insert<Pod<5>>(Pod<5>{}); break;
        }
    }
    for (auto e : es) reg.get_entity(e).destroy();
}

void clones(State& s, Rng& r) {
    auto& reg = s.regs[0];
    std::vector<entity> es;
    make_some(s, reg, r, es, int(r.range(1, 30)));
    std::size_t originals = es.size();
    for (int k = 0; k < 100; k++) {
        auto e = reg.get_entity(es[r.below(originals)]);
        s.ops++;
        if (r.chance(1, 2)) attempt([&] { es.push_back(e.clone()); });
        else {
            entity c;
            if (attempt([&] { c = e.copy(s.regs[1]); })) s.regs[1].get_entity(c).destroy();
        }
    }
    for (auto e : es) reg.get_entity(e).destroy();
}

void moves(State& s, Rng& r) {
    std::vector<entity> es;
    make_some(s, s.regs[0], r, es, int(r.range(1, 60)));
    for (int k = 0; k < 6; k++) {
        auto &from = s.regs[k % 2], &to = s.regs[1 - k % 2];
        for (auto& e : es) {
            e = from.get_entity(e).move(to);
            s.ops++;
        }
    }
    for (auto e : es) s.regs[0].get_entity(e).destroy();
}

void reserves(State& s, Rng& r) {
    auto& reg = s.regs[r.below(2)];
    std::vector<entity> es, src;
    make_some(s, reg, r, src, 10);
    for (int k = 0, n = int(r.range(1, 100)); k < n; k++) {
        auto p = reg.reserve();
        s.ops++;
        es.push_back(p.get_entity());
        if (r.chance(1, 5)) {
            reg.sync();
            attempt([&] { reg.get_entity(r.pick(src)).clone(p); });
        }
    }
    reg.sync();
    for (auto e : es) reg.get_entity(e).destroy();
    for (auto e : src) reg.get_entity(e).destroy();
}

void record(State& s, registry& reg, u64 seed, std::vector<entity>& mine) {
    Rng r(seed);
    command_writer cw(reg);
    std::vector<entity> made;
    for (int k = 0; k < 30; k++) {
        __atomic_fetch_add(&s.ops, 1, __ATOMIC_RELAXED);
        switch (r.below(9)) {
        case 0: made.push_back(cw.create<Pod<1>>({})); break;
        case 1: made.push_back(cw.create<Heap, Pod<0>>(Heap(4), {})); break;
        case 2: made.push_back(cw.create<Thrower>(Thrower(0))); break;
        case 3:
            if (!made.empty()) cw.get_entity(r.pick(made)).set<Heap>(Heap(9));
            break;
        case 4:
            if (!made.empty()) cw.get_entity(r.pick(made)).set<Only>();
            break;
        case 5:
            if (!made.empty()) cw.get_entity(r.pick(made)).remove<Heap>();
            break;
        case 6:
            if (!made.empty()) made.push_back(cw.get_entity(r.pick(made)).clone()); // fails for some
            break;
        case 7: attempt([&] { cw.create<Huge>({}); }); break;
        default:
            if (!made.empty() && r.chance(1, 2)) {
                auto e = r.pick(made);
                cw.destroy(e);
                if (r.chance(1, 2)) cw.get_entity(e).set<Heap>(Heap(3)); // fails
            }
            break;
        }
    }
    mine = made;
}

void apply(State& s, registry& reg, std::vector<entity>& es) {
    for (int k = 0; k < 10000; k++) {
        if (attempt([&] { command_buffer::flush(reg); })) break;
    }
    for (auto e : es) {
        if (reg.alive(e)) reg.get_entity(e).destroy();
    }
}

void commands(State& s, Rng& r) {
    std::vector<entity> es;
    auto& reg = s.regs[r.below(2)];
    record(s, reg, r.next(), es);
    apply(s, reg, es);
}

void command_threads(State& s, Rng& r) {
    int n = int(r.range(1, 6));
    std::vector<std::vector<entity>> es(n);
    std::vector<std::thread> ts;
    for (int i = 0; i < n; i++) {
        u64 seed = r.next();
        ts.emplace_back([&, i, seed] { record(s, s.regs[0], seed, es[i]); });
    }
    for (auto& t : ts) t.join();
    std::vector<entity> all;
    for (auto& e : es) all.insert(all.end(), e.begin(), e.end());
    apply(s, s.regs[0], all);
}

void command_thread_without_commands(State& s, Rng& r) {
    // a thread that makes a writer and records nothing, and one whose commands all concern dead entities
    std::thread([&] { command_writer cw(s.regs[0]); }).join();
    entity dead = s.regs[0].create<Pod<0>>({});
    s.regs[0].get_entity(dead).destroy();
    std::thread([&] {
        command_writer cw(s.regs[0]);
        for (int i = 0; i < 5; i++) cw.get_entity(dead).set<Heap>(Heap(50));
    }).join();
    std::vector<entity> none;
    apply(s, s.regs[0], none);
    s.ops += 6;
}

void task_tree(State& s, Rng& r) {
    auto& tp = *s.pool;
    int n = int(r.range(1, 300));
    auto big = std::make_shared<std::vector<u64>>(50, 1);
    std::atomic<int> done{ 0 };
    auto* root = tp.submit([&done, big] { done++; });
    for (int i = 0; i < n; i++) {
        std::array<u64, 6> capture{};
        tp.submit([&done, &tp, capture, big, i] {
            if (i % 7 == 0) {
                auto* sub = tp.submit([&done, capture] { done++; });
                tp.submit([&done, big] { done++; }, sub);
                tp.wait(sub);
            }
            done++;
        }, root);
        s.ops++;
    }
    tp.wait(root);
    // the slots of finished tasks keep their callables until they are used again: let go of 'big'
    big.reset();
}

void loops(State& s, Rng& r) {
    std::vector<u64> v(r.range(1, 2000), 1);
    co_ecs::parallel_for(v, [](u64& x) { x++; });
    auto& reg = s.regs[0];
    std::vector<entity> es;
    for (int i = 0; i < 100; i++) es.push_back(reg.create<Pod<0>, Pod<1>>({}, {}));
    reg.view<Pod<0>&, const Pod<1>&>().par_each([](Pod<0>& p, const Pod<1>& q) { p.v[0] += q.v[0] + 1; });
    for (auto e : es) reg.get_entity(e).destroy();
    s.ops += v.size() + 100;
}

void schedules(State& s, Rng& r) {
    auto& reg = s.regs[0];
    std::vector<entity> es;
    for (int i = 0; i < 20; i++) es.push_back(reg.create<Pod<0>, Heap>({}, Heap(3)));
    co_ecs::schedule sched;
    sched.add_init_system([](registry&) {});
    auto big = std::make_shared<std::vector<u64>>(20, 1);
    for (int st = 0; st < 3; st++) {
        auto& stage = sched.begin_stage("stage");
        for (int k = 0, n = int(r.below(5)); k < n; k++) {
            stage.add_system([big](co_ecs::view<Pod<0>&> v) { v.each([](Pod<0>& p) { p.v[0]++; }); });
            stage.add_system([big](command_writer cw) { entity e = cw.create<Heap>(Heap(3)); cw.destroy(e); });
            stage.add_system(co_ecs::main_thread_execution_policy, [](const registry& reg) { (void)reg.size(); });
        }
    }
    auto ex = sched.create_executor(reg);
    for (int k = 0, n = int(r.below(4)); k < n; k++) ex->run_once();
    s.ops += 20;
    ex.reset();
    for (auto e : es) reg.get_entity(e).destroy();
    std::vector<entity> none;
    apply(s, reg, none);
}

void pool_turnover(State& s, Rng& r) {
    s.pool.reset();
    s.pool = std::make_unique<thread_pool>(s.workers);
    std::atomic<int> n{ 0 };
    auto* t = s.pool->submit([&] { n++; });
    for (int i = 0; i < 20; i++) s.pool->submit([&] { n++; }, t);
    s.pool->wait(t);
    s.ops += 20;
}

void queries(State& s, Rng& r) {
    auto& reg = s.regs[0];
    std::vector<entity> es;
    make_some(s, reg, r, es, int(r.range(1, 60)));
    u64 n = 0;
    for (int k = 0; k < 20; k++) {
        s.ops++;
        reg.each([&](const Pod<0>&) { n++; });
        for (auto row : reg.view<const entity&, Heap&>().each()) n += sizeof row;
        (void)reg.single<Only&>();
        std::as_const(reg).each([&](const Empty&, const entity&) { n++; });
        attempt([&] { (void)reg.get_entity(r.pick(es)).get<Pod<7>>(); });
        attempt([&] { reg.get_entity(entity{ 999999, 3 }).set<Heap>(); });
    }
    for (auto e : es) reg.get_entity(e).destroy();
}

void registries(State& s, Rng& r) {
    // a registry of its own that ends with entities, reservations and commands of its own in it
    auto reg = std::make_unique<registry>();
    std::vector<entity> es;
    make_some(s, *reg, r, es, int(r.range(1, 200)));
    for (int i = 0; i < 5; i++) (void)reg->reserve();
    s.ops += 5;
    if (r.chance(1, 2)) {
        std::vector<entity> more;
        record(s, *reg, r.next(), more);
        apply(s, *reg, more);
    }
}

struct Named {
    const char* name;
    Activity f;
    bool threads;
};
const Named activities[] = {
    { "create_destroy", create_destroy, false },
    { "set_remove", set_remove, false },
    { "clones", clones, false },
    { "moves", moves, false },
    { "reserves", reserves, false },
    { "commands", commands, false },
    { "queries", queries, false },
    { "registries", registries, false },
    { "command_threads", command_threads, true },
    { "idle_writers", command_thread_without_commands, true },
    { "task_tree", task_tree, true },
    { "loops", loops, true },
    { "schedules", schedules, true },
    { "pool_turnover", pool_turnover, true },
};
constexpr std::size_t NACT = sizeof activities / sizeof *activities;

// every worker runs as much as it ever will, so that what threads keep for themselves is there
void warm_up(State& s) {
    auto& tp = *s.pool;
    std::atomic<int> arrived{ 0 };
    auto body = [&] {
        command_writer cw(s.regs[0]);
        (void)cw;
        arrived++;
        while (arrived < s.workers) std::this_thread::yield();
        auto* t = tp.submit([] {});
        for (int i = 0; i < 700; i++) tp.submit([] {}, t);
        tp.wait(t);
    };
    auto* root = tp.submit(body);
    for (int i = 1; i < s.workers; i++) tp.submit(body, root);
    tp.wait(root);
    // all slots of the task pools get used and their callables dropped
}

// new allocations of slots: callables of finished tasks live on in the slots until those are used again
void cycle_tasks(State& s) {
    auto& tp = *s.pool;
    std::atomic<int> arrived{ 0 };
    auto body = [&] {
        arrived++;
        while (arrived < s.workers) std::this_thread::yield();
        for (int k = 0; k < 9; k++) {
            auto* t = tp.submit([] {});
            for (int i = 0; i < 500; i++) tp.submit([] {}, t);
            tp.wait(t);
        }
    };
    auto* root = tp.submit(body);
    for (int i = 1; i < s.workers; i++) tp.submit(body, root);
    tp.wait(root);
}

int threads_now() {
    int n = 0;
    if (DIR* d = opendir("/proc/self/task")) {
        while (auto* e = readdir(d)) n += e->d_name[0] != '.';
        closedir(d);
    }
    return n;
}

// What a peak took must come back: a registry that held many entities with large components, or many commands, and holds few now,
// needs no more memory than one that never did, apart from what it keeps per handle ever given out.
void peak_case(u64 c, Rng& rng) {
    registry reg, other;
    const int n = int(rng.range(300, 900)); // 4 kB each
    std::vector<entity> es, stay;
    u64 ops = 0;
    auto make = [&](registry& r, int kind) -> entity {
        ops++;
        switch (kind) {
        case 0: return r.create<Pod<9>>({});
        case 1: return r.create<Pod<9>, Heap>({}, Heap(3));
        case 2: return r.create<Only, Pod<9>>(Only{}, {});
        default: return r.create<Thrower, Pod<9>>(Thrower(0), {});
        }
    };
    // all component sets that will occur, and all handles
    auto prepare = [&](registry& r) {
        for (int k = 0; k < 4; k++) {
            entity e = make(r, k);
            r.get_entity(e).remove<Pod<9>>();
            r.get_entity(e).set<Pod<9>>().set<Pod<1>>();
            r.get_entity(e).remove<Pod<9>>();
            r.get_entity(e).destroy();
        }
        std::vector<entity> many;
        for (int i = 0; i < 2 * n; i++) many.push_back(r.create<>());
        for (auto e : many) r.get_entity(e).destroy();
    };
    prepare(reg);
    prepare(other);
    command_writer cw(reg);
    auto flush = [&] {
        while (!attempt([&] { command_buffer::flush(reg); })) {
        }
    };
    for (int i = int(rng.below(20)); i; i--) stay.push_back(make(reg, int(rng.below(3))));
    long objects0 = __atomic_load_n(&n_objects, __ATOMIC_RELAXED);
    long before = __atomic_load_n(&live_bytes, __ATOMIC_RELAXED);
    int kind = int(rng.below(4)), way = int(rng.below(8)), keep = rng.chance(1, 2) ? 0 : int(rng.below(n / 2));
    if (way == 3 && kind == 2) kind = 1;
    const char* ways[] = { "destroyed", "stripped of the component", "moved away and destroyed", "failed clones", "destroyed by commands", "stripped by commands",
        "values set by commands, applied to dead entities", "entities created and destroyed by commands" };
    auto shuffle = [&] {
        for (std::size_t i = es.size(); i > 1; i--) std::swap(es[i - 1], es[rng.below(i)]);
    };
    int peaks = int(rng.range(1, 3));
    for (int p = 0; p < peaks; p++) {
        es.clear();
        if (way == 3) {
            keep = 0;
            entity e = make(reg, kind == 3 ? 3 : 2);
            for (int i = 0; i < n; i++) {
                attempt([&] { (void)reg.get_entity(e).clone(); });
                attempt([&] { (void)reg.get_entity(e).copy(other); });
                attempt([&] { (void)cw.get_entity(e).clone(); });
                ops += 3;
            }
            flush();
            // what the commands promised to make exists, without components
            std::vector<entity> husks;
            reg.view<const entity&>().each([&](const entity& h) {
                if (!(h == e) && std::find(stay.begin(), stay.end(), h) == stay.end()) husks.push_back(h);
            });
            for (auto h : husks) reg.get_entity(h).destroy();
            reg.get_entity(e).destroy();
        } else if (way == 6) {
            keep = 0;
            entity e = make(reg, 0);
            cw.destroy(e);
            for (int i = 0; i < n; i++) cw.get_entity(e).set<Pod<9>>(Pod<9>{});
            ops += n;
            flush();
        } else if (way == 7) {
            keep = 0;
            for (int i = 0; i < n; i++) {
                entity e = kind ? cw.create<Pod<9>, Heap>({}, Heap(9)) : cw.create<Pod<9>>({});
                cw.destroy(e);
                ops += 2;
            }
            flush();
        } else {
            for (int i = 0; i < n; i++) es.push_back(make(reg, kind));
            if (rng.chance(2, 3)) shuffle();
            for (int i = keep; i < n; i++) {
                auto e = reg.get_entity(es[i]);
                ops++;
                switch (way) {
                case 0: e.destroy(); break;
                case 1: e.remove<Pod<9>>(); break;
                case 2: other.get_entity(e.move(other)).destroy(); break;
                case 4: cw.destroy(es[i]); break;
                default: cw.get_entity(es[i]).remove<Pod<9>>().set<Pod<1>>(); break;
                }
            }
            flush();
            if (way == 1 || way == 5) {
                for (int i = keep; i < n; i++) reg.get_entity(es[i]).destroy();
            }
            es.resize(keep);
        }
        long now = __atomic_load_n(&live_bytes, __ATOMIC_RELAXED);
        // three or more entities per block of 16 kB, what their components own, and what is kept per handle or command
        long need = (long(keep) / 3 + 1) * 17000 + long(keep) * 400, slack = 3l * 17000 + long(n) * 3 * 128 + 20000;
        count("peaks_measured");
        if (now > before + need + slack) {
            report("C20", "peak", fmt("a peak of %d entities or commands (%s) left %ld bytes more than before, %d entities are left (%ld bytes needed)", n, ways[way], now - before,
                keep, need));
            return;
        }
        for (auto e : es) reg.get_entity(e).destroy();
        long obj = __atomic_load_n(&n_objects, __ATOMIC_RELAXED);
        if (obj != objects0) {
            report("C20", "objects", fmt("%ld component objects are alive after a peak (%s), %ld before", obj, ways[way], objects0));
            return;
        }
        keep = rng.chance(1, 2) ? 0 : int(rng.below(n / 2));
    }
    count("operations", ops);
    seen("workloads", mix(mix(n ^ (u64(way) << 20) ^ (u64(kind) << 30)) ^ rng.next()));
    if (c % 11 == 0) sample(fmt("case %llu: %d peaks of %d entities, %s", (unsigned long long)c, peaks, n, ways[way]));
}

void one_case(u64 c, Rng& rng) {
    if (rng.chance(1, 3)) return peak_case(c, rng);
    std::vector<Named> chosen;
    bool threads = rng.chance(1, 2);
    u64 h = 0;
    if (auto i = args.kv.find("only"); i != args.kv.end()) {
        for (auto& a : activities)
            if (i->second == a.name) {
                chosen.push_back(a);
                threads = a.threads;
            }
    } else {
        for (std::size_t n = rng.range(1, 4); n; n--) {
            auto& a = activities[rng.below(threads ? NACT : 8)];
            h = mix(h ^ u64(&a - activities));
            chosen.push_back(a);
        }
    }
    State s;
    s.workers = threads ? int(rng.range(1, 4)) : 1;
    h = mix(h ^ s.workers);
    s.pool = std::make_unique<thread_pool>(s.workers);
    if (threads) warm_up(s);
    std::vector<entity> base;
    make_some(s, s.regs[0], rng, base, int(rng.below(50))); // stays
    std::size_t variants = rng.range(1, 3);                 // different rounds
    std::vector<u64> seeds;
    for (std::size_t i = 0; i < variants; i++) seeds.push_back(rng.next());
    long objects0 = -1, threads0 = -1, size0 = long(s.regs[0].size()), size1 = long(s.regs[1].size());
    std::size_t rounds = 0;
    struct Peak {
        long bytes = 0, blocks = 0;
    };
    // what is allocated after rounds [from, to)
    auto run = [&](std::size_t n) {
        Peak p;
        for (std::size_t k = 0; k < n; k++, rounds++) {
            Rng r(seeds[rounds % variants]);
            for (auto& a : chosen) a.f(s, r);
            if (rounds % variants) continue;
            bool sample_now = !threads || k % 4 == 0;
            if (!sample_now) continue;
            if (threads) cycle_tasks(s);
            p.bytes = std::max(p.bytes, __atomic_load_n(&live_bytes, __ATOMIC_RELAXED));
            p.blocks = std::max(p.blocks, __atomic_load_n(&live_blocks, __ATOMIC_RELAXED));
            long obj = __atomic_load_n(&n_objects, __ATOMIC_RELAXED), thr = threads_now();
            if (objects0 < 0) objects0 = obj, threads0 = thr;
            if (obj != objects0) {
                report("C20", "objects", fmt("%ld component objects are alive after round %zu, %ld after the first round (%s ...)", obj, rounds, objects0, chosen[0].name));
                return p;
            }
            if (thr > threads0) {
                report("C20", "threads", fmt("%ld threads exist after round %zu, %ld after the first round (%s ...)", thr, rounds, threads0, chosen[0].name));
                return p;
            }
            if (long(s.regs[0].size()) != size0 || long(s.regs[1].size()) != size1) {
                report("C20", "entities", fmt("%zu + %zu entities are left after round %zu, not %ld + %ld (%s ...)", s.regs[0].size(), s.regs[1].size(), rounds, size0, size1,
                    chosen[0].name));
                return p;
            }
            count("rounds_measured");
        }
        return p;
    };
    long slack = threads ? 8192 : 1024;
    std::size_t w = 4 * args.num("window", threads ? 12 : 40);
    run(w);
    Peak a = run(w), b = run(w);
    if (!case_bad && b.bytes > a.bytes + slack) {
        // keeps growing, again and again?
        int grew = 0;
        Peak prev = b;
        for (int k = 0; k < 4 && !case_bad; k++) {
            Peak next = run(w * 2);
            grew += next.bytes > prev.bytes + slack;
            prev = next;
        }
        count("suspicions");
        if (grew >= 3 && !case_bad) {
            std::string names;
            for (auto& x : chosen) names += std::string(x.name) + " ";
            report("C20", "memory", fmt("memory keeps growing: %ld bytes in %ld blocks after %zu rounds, %ld bytes in %ld blocks after %zu rounds; every round leaves the same "
                                        "%zu entities and nothing else (%s)", a.bytes, a.blocks, 2 * w, prev.bytes, prev.blocks, rounds, base.size(), names.c_str()));
        }
    }
    count("operations", s.ops);
    count("rounds", rounds);
    seen("workloads", mix(h ^ seeds[0]));
    if (c % 11 == 0) {
        std::string names;
        for (auto& x : chosen) names += std::string(x.name) + " ";
        sample(fmt("case %llu: %s, %zu rounds, %llu operations, %d workers, %ld then %ld bytes allocated", (unsigned long long)c, names.c_str(), rounds, (unsigned long long)s.ops,
            s.workers, a.bytes, b.bytes));
    }
    s.pool.reset();
}

} // namespace vf

int main(int argc, char** argv) {
    vf::parse_args(argc, argv);
    int rc = vf::run_cases([](vf::u64 c, vf::Rng& rng) { vf::one_case(c, rng); });
    return rc;
}
