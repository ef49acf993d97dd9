// Monitor for parallel_for and par_each (C12): every element is visited exactly once, by reference, before the return.
#include "conc.hpp"
#include <co_ecs/co_ecs.hpp>
#include <co_ecs/thread_pool/parallel_for.hpp>
#include <forward_list>
#include <list>
#include <ranges>
#include <span>

namespace vf {

using co_ecs::entity;
using co_ecs::registry;
using co_ecs::thread_pool;

struct Loop;

struct Elem {
    u64 id = 0;
    bool odd = false;
    Loop* child = nullptr;
    mutable int hits = 0;
    mutable u64 out = 0;
    mutable int wrong = 0;
    u64 written = 0; // through non-const references
};
static_assert(co_ecs::component<Elem>);

struct Big {
    u64 v[260];
};
struct TagA {};
struct TagB {
    int x = 0;
};
struct u32_box {
    std::uint32_t i, calls;
};

enum Kind { VECTOR, CONST_VECTOR, LIST, DEQUE, SPAN, IOTA, FILTER, TRANSFORM, SUBRANGE, FORWARD, JOIN, PAR_EACH, NKINDS };
const char* kind_names[] = { "vector", "const vector", "list", "deque", "span", "iota", "filter", "transform", "subrange", "forward_list",
    "join", "par_each" };

struct Loop {
    int id = 0;
    int kind = 0;
    int form = 0;
    std::size_t length = 0;
    int functor = 0;
    std::vector<Elem> vec;
    std::list<Elem> lst;
    std::deque<Elem> deq;
    std::forward_list<Elem> fwd;
    std::vector<std::vector<Elem>> nested;
    std::unique_ptr<registry> reg;
    std::size_t others = 0; // entities that do not match
    std::vector<std::unique_ptr<Loop>> children;
    u64 salt = 0;
    // the running loop
    bool returned = false;
    int late = 0;
    int times = 0;
    int bad_state = 0; // calls that found the callable's state damaged

    void each(auto&& f) {
        for (auto& e : vec) f(e);
        for (auto& e : lst) f(e);
        for (auto& e : deq) f(e);
        for (auto& e : fwd) f(e);
        for (auto& v : nested)
            for (auto& e : v) f(e);
        if (reg) {
            for (auto chunk : reg->view<Elem&>().chunks())
                for (auto [e] : chunk) f(e);
        }
    }
};

thread_local Rng* local_rng;

void run(Loop& l);

void visit(Loop& l, const Elem& e) {
    if (l.returned) e.wrong++;
    e.hits++;
    e.out = mix(e.id ^ l.salt);
    Rng r(e.id ^ l.salt);
    pause(r, 40);
    if (e.child) run(*e.child);
}

void visit(Loop& l, Elem& e) {
    e.written = e.id + 1;
    visit(l, std::as_const(e));
}

// A callable that owns state: what it owns must be there during every call
template<typename Core>
struct Owner {
    Core core;
    Loop* l;
    std::shared_ptr<u64> token;
    std::vector<u64> words;
    std::array<u64, 6> ballast;
    Owner(Core c, Loop& loop) : core(c), l(&loop), token(std::make_shared<u64>(loop.salt)), words(5, loop.salt) {
        ballast.fill(loop.salt);
    }
    void operator()(auto&&... e) const {
        bool ok = token && *token == l->salt && words.size() == 5;
        for (auto w : words) ok = ok && w == l->salt;
        for (auto w : ballast) ok = ok && w == l->salt;
        if (!ok) __atomic_fetch_add(&l->bad_state, 1, __ATOMIC_RELAXED);
        core(std::forward<decltype(e)>(e)...);
    }
};

// Hands the callable over in different ways
void with(Loop& l, auto core, auto&& par) {
    switch (l.functor) {
    case 0: par(core); break;
    case 1: par(std::move(core)); break;
    case 2: {
        const Owner o(core, l);
        par(o);
        break;
    }
    case 3: {
        Owner o(core, l);
        par(o);
        if (!o.token || o.words.size() != 5) __atomic_fetch_add(&l.bad_state, 1, __ATOMIC_RELAXED);
        break;
    }
    default: par(Owner(core, l)); break;
    }
}

void go(Loop& l) {
    auto f = [&l](Elem& e) { visit(l, e); };
    auto cf = [&l](const Elem& e) { visit(l, e); };
    using co_ecs::parallel_for;
    auto over = [](auto&& range) { return [&range](auto&& fn) { parallel_for(std::forward<decltype(range)>(range), std::forward<decltype(fn)>(fn)); }; };
    switch (l.kind) {
    case VECTOR:
        if (l.functor == 5) parallel_for(l.vec, std::function<void(Elem&)>(Owner(f, l)));
        else with(l, f, over(l.vec));
        break;
    case CONST_VECTOR: with(l, cf, over(std::as_const(l.vec))); break;
    case LIST: with(l, f, over(l.lst)); break;
    case DEQUE: with(l, [&l](auto& e) { visit(l, e); }, over(l.deq)); break;
    case SPAN: with(l, f, over(std::span<Elem>(l.vec))); break;
    case IOTA: with(l, [&l](int i) { visit(l, l.vec[i]); }, over(std::views::iota(0, int(l.vec.size())))); break;
    case FILTER: with(l, f, over(l.vec | std::views::filter([](const Elem& e) { return e.odd; }))); break;
    case TRANSFORM:
        with(l, [&l](Elem* e) { visit(l, *e); }, over(l.vec | std::views::transform([](Elem& e) -> Elem* { return &e; })));
        break;
    case SUBRANGE: with(l, f, over(std::ranges::subrange(l.vec.begin(), l.vec.end()))); break;
    case FORWARD: with(l, f, over(l.fwd)); break;
    case JOIN: {
        auto joined = l.nested | std::views::join;
        with(l, f, over(joined));
        break;
    }
    case PAR_EACH: {
        auto& reg = *l.reg;
        auto each = [](auto&& v) { return [&v](auto&& fn) { v.par_each(std::forward<decltype(fn)>(fn)); }; };
        switch (l.form) {
        case 0: with(l, f, each(co_ecs::view<Elem&>{ reg })); break;
        case 1: {
            co_ecs::view<const entity&, Elem&> v{ reg };
            with(l, [&l, &reg](const entity& ent, Elem& e) {
                if (&std::as_const(reg).get_entity(ent).get<Elem>() != &e) e.wrong++;
                visit(l, e);
            }, each(v));
            break;
        }
        case 2: {
            const co_ecs::view<const Elem&> v{ reg };
            with(l, cf, each(v));
            break;
        }
        case 3: with(l, f, each(reg.view<Elem&>())); break;
        case 4: {
            const registry& c = reg;
            with(l, [&l](const Elem& e, const entity&) { visit(l, e); }, each(c.view<const Elem&, const entity&>()));
            break;
        }
        default: {
            co_ecs::view<TagB&, Elem&> v{ reg };
            with(l, [&l](TagB& t, Elem& e) {
                t.x++;
                visit(l, e);
            }, each(v));
            break;
        }
        }
        break;
    }
    }
}

bool expected(const Loop& l, const Elem& e) {
    if (l.kind == FILTER) return e.odd;
    if (l.kind == PAR_EACH && l.form == 5) return e.odd; // those with the additional component
    return true;
}

bool writes(const Loop& l) {
    return l.kind != CONST_VECTOR && !(l.kind == PAR_EACH && (l.form == 2 || l.form == 4));
}

void run(Loop& l) {
    l.returned = false;
    go(l);
    l.returned = true;
    std::size_t n = 0, missing = 0, twice = 0, extra = 0, wrong = 0, value = 0;
    l.each([&](Elem& e) {
        n++;
        bool want = expected(l, e);
        if (want && e.hits == 0) missing++;
        if (e.hits > 1) twice++;
        if (!want && e.hits) extra++;
        wrong += e.wrong;
        if (want && e.hits == 1 && (e.out != mix(e.id ^ l.salt) || (writes(l) && e.written != e.id + 1))) value++;
        e.hits = 0;
        e.out = 0;
        e.written = 0;
    });
    l.times++;
    auto what = [&](const char* s, std::size_t k) {
        return fmt("%s of length %zu (form %d) with %zu workers: %zu elements %s", kind_names[l.kind], l.length, l.form, thread_pool::get().num_workers(), k, s);
    };
    if (missing) report("C12", "missing", what("were not visited when it returned", missing));
    if (twice) report("C12", "twice", what("were visited more than once", twice));
    if (extra) report("C12", "extra", what("were visited that do not belong to the range", extra));
    if (wrong) report("C12", "wrong", what("were visited after the return or by a wrong reference or function", wrong));
    if (value) report("C12", "effects", what("do not show the effects of their call", value));
    if (l.bad_state) report("C12", "callable", what("(or more) were visited by a callable without its state", l.bad_state));
    if (n != l.length) report("C12", "length", what("exist", n));
}

struct Gen {
    Rng& r;
    int workers;
    int next_id = 0;
    u64 next_elem = 1;
    int budget;
    u64 hash = 0;

    std::size_t length() {
        auto x = r.below(12);
        if (x == 0) return 0;
        if (x == 1) return 1;
        if (x < 4) return r.below(workers + 1);
        if (x < 7) {
            long v = long(workers) * long(r.range(1, 4)) + long(r.below(3)) - 1;
            return std::size_t(std::max(0l, v));
        }
        return r.below(simulated ? 20 : x == 11 ? 5000 : 200);
    }

    std::unique_ptr<Loop> loop(int depth) {
        auto l = std::make_unique<Loop>();
        l->id = next_id++;
        l->kind = int(r.below(4)) == 0 ? int(PAR_EACH) : int(r.below(NKINDS));
        l->form = int(r.below(6));
        l->functor = int(r.below(6));
        l->salt = r.next();
        std::size_t n = length();
        if (depth > 0) n = std::min<std::size_t>(n, simulated ? 6 : 24);
        if (int(n) > budget) n = std::max(budget, 0);
        budget -= int(n);
        l->length = n;
        hash = mix(hash ^ l->kind ^ (n << 8) ^ (u64(depth) << 40));
        auto make = [&] {
            Elem e;
            e.id = next_elem++;
            e.odd = r.chance(1, 2);
            if (depth < 2 && r.chance(1, depth == 0 ? 5 : 9) && budget > 0) {
                l->children.push_back(loop(depth + 1));
                e.child = l->children.back().get();
            }
            return e;
        };
        switch (l->kind) {
        case LIST:
            for (std::size_t i = 0; i < n; i++) l->lst.push_back(make());
            break;
        case DEQUE:
            for (std::size_t i = 0; i < n; i++) l->deq.push_back(make());
            break;
        case FORWARD:
            for (std::size_t i = 0; i < n; i++) l->fwd.push_front(make());
            break;
        case JOIN:
            while (n > 0 || r.chance(1, 3)) {
                l->nested.emplace_back();
                for (auto k = r.below(6); k && n; k--, n--) l->nested.back().push_back(make());
            }
            break;
        case PAR_EACH: {
            l->reg = std::make_unique<registry>();
            auto& reg = *l->reg;
            bool big = r.chance(1, 3), mixed = r.chance(1, 2);
            std::vector<entity> junk;
            for (std::size_t i = 0; i < n; i++) {
                Elem e = make();
                bool odd = e.odd;
                if (r.chance(1, 5)) junk.push_back(reg.create<TagB>({}));
                if (r.chance(1, 9)) junk.push_back(reg.create<>());
                auto ref = odd ? reg.create<Elem, TagB>(std::move(e), {}) : reg.create<Elem>(std::move(e));
                if (big && (!mixed || r.chance(1, 2))) ref.set<Big>(Big{});
                if (mixed && r.chance(1, 3)) ref.set<TagA>();
            }
            for (auto e : junk)
                if (r.chance(1, 2)) reg.destroy(e);
            break;
        }
        default:
            l->vec.reserve(n);
            for (std::size_t i = 0; i < n; i++) l->vec.push_back(make());
            break;
        }
        return l;
    }
};

u64 calls(Loop& l) {
    u64 n = 0;
    l.each([&](Elem& e) { n += expected(l, e); });
    n *= l.times;
    for (auto& c : l.children) n += calls(*c);
    return n;
}

u64 loops(Loop& l) {
    u64 n = l.times;
    for (auto& c : l.children) n += loops(*c);
    return n;
}

// very long ranges
void big_case(u64 c, Rng& rng) {
    int workers = int(rng.range(1, 12));
    thread_pool tp(workers);
    std::vector<u64> sizes{ 1u << 15, 1u << 16, u64(workers) << 15, u64(workers) << 16, 1u << 20, u64(workers) * 1000003 };
    std::size_t n = rng.pick(sizes);
    n += rng.below(2 * workers + 3) - std::size_t(workers);
    std::vector<std::uint32_t> v(n);
    std::atomic<u64> calls{ 0 }, outside{ 0 };
    const char* what = "";
    switch (rng.below(4)) {
    case 0:
        what = "a vector";
        co_ecs::parallel_for(v, [&](std::uint32_t& x) { x++; });
        break;
    case 1: {
        what = "a constant vector";
        const auto& cv = v;
        co_ecs::parallel_for(cv, [&](const std::uint32_t& x) { const_cast<std::uint32_t&>(x)++; });
        break;
    }
    case 2:
        what = "numbers";
        co_ecs::parallel_for(std::views::iota(0, int(n)), [&](int i) {
            if (i < 0 || std::size_t(i) >= n) outside++;
            else __atomic_fetch_add(&v[i], 1, __ATOMIC_RELAXED);
        });
        break;
    default: {
        what = "a view";
        n = std::min<std::size_t>(n, 300000);
        v.resize(n);
        registry reg;
        for (std::size_t i = 0; i < n; i++) {
            if (i % 3) reg.create<u32_box>({ std::uint32_t(i), 0 });
            else reg.create<u32_box, TagB>({ std::uint32_t(i), 0 }, {});
        }
        reg.view<u32_box&>().par_each([&](u32_box& b) {
            b.calls++;
            if (b.i >= n) outside++;
            else __atomic_fetch_add(&v[b.i], 1, __ATOMIC_RELAXED);
        });
        break;
    }
    }
    std::size_t not_called = 0, again = 0;
    for (auto x : v) {
        not_called += x == 0;
        again += x > 1;
    }
    if (not_called || again || outside) {
        report("C12", not_called ? "not-called" : "called-again", fmt("%s of %zu elements, %d workers: %zu elements not called, %zu more than once, %llu others", what, n, workers, not_called, again,
            (unsigned long long)outside.load()));
    }
    count("calls", n);
    count("long_ranges");
    maximum("longest_range", n);
    seen("loop_shapes", mix(n ^ mix(workers)));
    sample(fmt("case %llu: %s of %zu elements, %d workers", (unsigned long long)c, what, n, workers));
}

void one_case(u64 c, Rng& rng) {
    if (args.mode == "big") return big_case(c, rng);
    u64 seed = rng.next();
    int workers = !simulated && rng.chance(1, 40) ? int(rng.range(10, 40)) : int(rng.range(1, simulated ? 4 : 9));
    Gen g{ rng, workers, 0, 1, simulated ? 40 : 6000, 0 };
    std::vector<std::unique_ptr<Loop>> tops;
    // run by the main thread, or by tasks at the same time
    struct Step {
        std::vector<Loop*> loops;
        bool tasks;
        bool repeat;
    };
    std::vector<Step> steps;
    for (int k = 1 + int(rng.below(4)); k; k--) {
        Step s;
        s.tasks = rng.chance(1, 3);
        s.repeat = rng.chance(1, 5);
        int n = s.tasks ? 1 + int(rng.below(4)) : 1;
        for (int i = 0; i < n; i++) {
            tops.push_back(g.loop(0));
            s.loops.push_back(tops.back().get());
        }
        steps.push_back(s);
    }
    execute(seed, 3000000, [&] {
        thread_pool tp(workers);
        for (auto& s : steps) {
            for (int times = s.repeat ? 2 : 1; times; times--) {
                if (!s.tasks) {
                    run(*s.loops[0]);
                    continue;
                }
                std::vector<co_ecs::task_t*> ts;
                for (auto* l : s.loops) ts.push_back(tp.submit([l] { run(*l); }));
                for (auto* t : ts) tp.wait(t);
            }
        }
    });
    u64 n = 0, m = 0;
    for (auto& l : tops) {
        n += calls(*l);
        m += loops(*l);
        for (auto* s : { l.get() }) {
            count(std::string("loops_over_") + kind_names[s->kind], s->times);
        }
    }
    count("calls", n);
    count("loops", m);
    seen("loop_shapes", g.hash ^ mix(workers));
    if (c % 151 == 0) sample(fmt("case %llu: %d workers, %llu loops, %llu calls", (unsigned long long)c, workers, (unsigned long long)m, (unsigned long long)n));
}

} // namespace vf

int main(int argc, char** argv) {
    vf::parse_args(argc, argv);
    return vf::run_cases([](vf::u64 c, vf::Rng& rng) {
        vf::one_case(c, rng);
    });
}
