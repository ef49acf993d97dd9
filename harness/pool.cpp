// Monitor for the thread pool (C10): random task trees; every task must run exactly once with its own callable, waits
// must cover the task and everything submitted under it, and must return.
#include "conc.hpp"
#include <co_ecs/thread_pool/thread_pool.hpp>

namespace vf {

using co_ecs::task_t;
using co_ecs::thread_pool;

struct Node;

struct Action {
    enum Kind { submit, wait, work } kind;
    int child; // submit, wait: index of the child
};

enum Under { NONE = -1, SELF = -2 }; // or the index of an earlier sibling

struct Node {
    int id = 0;
    int capture = 0; // how much the callable carries
    int want_under = NONE;
    std::vector<std::unique_ptr<Node>> children;
    std::vector<Action> actions;
    // plain data, handed over by the pool's synchronisation only
    task_t* handle = nullptr; // written by the submitter
    Node* under = nullptr;    // written by the submitter
    bool submitted = false;
    int runs = 0;
    u64 result = 0;
    int bad_callable = 0;
    // for tasks that submit under themselves
    std::atomic<task_t*> self{ nullptr };
};

struct World {
    std::deque<Rng> rngs;
    int nodes = 0;
    bool checks_off = false;
    u64 waits = 0;
};

enum Shape { BUSHY, WIDE, CHAIN, DEEP }; // CHAIN: each task under the one before; DEEP: each submitted by the one before

void generate(Node& n, Rng& r, int& budget, int depth, Shape shape, World& w) {
    const bool wide = shape == WIDE;
    n.id = w.nodes++;
    n.capture = int(r.below(3));
    w.rngs.emplace_back(r.next());
    std::vector<int> waited;
    int kids = shape == DEEP ? 1 : shape == CHAIN && depth > 0 ? 0 : depth == 0 ? budget : depth > 5 ? 0 : wide && depth > 1 ? 0 : int(r.below(4));
    for (int k = 0; k < kids && budget > 0; k++) {
        budget--;
        auto c = std::make_unique<Node>();
        auto x = r.below(10);
        int idx = int(n.children.size());
        if (shape == DEEP) c->want_under = depth == 0 || x == 0 ? NONE : SELF;
        else if (shape == CHAIN) c->want_under = idx == 0 || r.chance(1, 100) ? NONE : idx - 1;
        else if (wide && idx > 0 && depth == 0) c->want_under = 0;
        else if (x < 4 && idx > 0) c->want_under = int(r.below(idx));
        else if (x < 7 && depth > 0) c->want_under = SELF;
        n.children.push_back(std::move(c));
        n.actions.push_back({ Action::submit, idx });
        int share = shape == DEEP ? budget : depth == 0 ? std::min<int>(budget, wide ? int(r.below(60) == 0) : int(r.below(12))) : budget;
        int before = share;
        generate(*n.children.back(), r, share, depth + 1, shape, w);
        budget -= before - share;
        if (r.chance(1, 3)) n.actions.push_back({ Action::work, 0 });
        if (r.chance(1, wide || shape == CHAIN ? 400 : 4)) n.actions.push_back({ Action::wait, int(r.below(n.children.size())) });
    }
    // wait for the rest, or leave it to others
    if (depth == 0 || r.chance(1, 2)) {
        for (int k = 0; k < int(n.children.size()); k++) {
            if (depth == 0 || r.chance(2, 3)) n.actions.push_back({ Action::wait, k });
        }
    }
    if (depth > 0 && r.chance(1, 2)) n.actions.push_back({ Action::work, 0 });
}

World* world;

u64 result_of(int id) {
    return mix(u64(id) + 99);
}

// n and everything submitted under it have finished: nothing may be missing, everything must be visible
void verify(Node& n, std::set<Node*>& covered) {
    covered.insert(&n);
    if (n.runs != 1 || n.result != result_of(n.id)) {
        report("C10", n.runs > 1 ? "ran-twice" : "wait-too-early",
            fmt("a wait returned, task %d it covers has run %d times", n.id, n.runs));
        return;
    }
    if (n.bad_callable) report("C10", "wrong-callable", fmt("task %d ran with a damaged callable", n.id));
    for (auto& c : n.children) {
        if (c->submitted && c->under && covered.contains(c->under)) verify(*c, covered);
    }
}

void run_actions(Node& n);

template<int S>
struct Body {
    Node* node;
    std::array<u64, S> data;
    std::shared_ptr<u64> shared;
    explicit Body(Node* n) : node(n), shared(std::make_shared<u64>(mix(n->id))) {
        for (int i = 0; i < S; i++) data[i] = mix(u64(n->id) * 1000 + i);
    }
    void operator()() const {
        bool ok = *shared == mix(node->id);
        for (int i = 0; i < S; i++) ok = ok && data[i] == mix(u64(node->id) * 1000 + i);
        node->runs++;
        if (!ok) node->bad_callable++;
        run_actions(*node);
        node->result = result_of(node->id);
    }
};

void run_actions(Node& n) {
    auto& r = world->rngs[n.id];
    auto& tp = thread_pool::get();
    for (auto& a : n.actions) {
        switch (a.kind) {
        case Action::work: pause(r, 300); break;
        case Action::submit: {
            auto& c = *n.children[a.child];
            task_t* parent = nullptr;
            c.under = nullptr;
            if (c.want_under == SELF) {
                parent = n.self.load(std::memory_order_acquire);
                if (parent) c.under = &n;
            } else if (c.want_under >= 0) {
                parent = n.children[c.want_under]->handle;
                c.under = n.children[c.want_under].get();
            }
            c.submitted = true;
            task_t* h;
            if (c.capture == 0) {
                Node* p = &c;
                h = tp.submit([p] {
                    p->runs++;
                    run_actions(*p);
                    p->result = result_of(p->id);
                }, parent);
            } else if (c.capture == 1) {
                h = tp.submit(Body<2>(&c), parent);
            } else {
                Body<40> b(&c);
                h = tp.submit(b, parent);
            }
            c.handle = h;
            c.self.store(h, std::memory_order_release);
            break;
        }
        case Action::wait: {
            auto& c = *n.children[a.child];
            if (!c.submitted) break;
            tp.wait(c.handle);
            if (!c.handle->is_completed()) report("C10", "not-completed", "a task that was waited for is not completed");
            std::set<Node*> covered;
            verify(c, covered);
            for (auto& s : n.children) {
                if (s->submitted && s->under && covered.contains(s->under) && !covered.contains(s.get())) verify(*s, covered);
            }
            break;
        }
        }
    }
}

void wait_rest(Node& n, int& total) {
    for (auto& c : n.children) {
        if (!c->submitted) continue;
        thread_pool::get().wait(c->handle);
        std::set<Node*> covered;
        verify(*c, covered);
        total++;
        wait_rest(*c, total);
    }
}

void check_all(Node& n, int& executed) {
    for (auto& c : n.children) {
        if (c->runs > 1) report("C10", "ran-twice", fmt("task %d has run %d times", c->id, c->runs));
        if (c->submitted && c->runs != 1) report("C10", "not-run", fmt("task %d has run %d times", c->id, c->runs));
        executed += c->runs;
        check_all(*c, executed);
    }
}

// many tasks one after the other while some are kept in flight: storage gets reused
void long_run(u64 seed, Rng& rng) {
    int n = simulated ? 5000 + int(rng.below(4000)) : 20000;
    int workers = int(rng.range(simulated ? 2 : 1, simulated ? 3 : 6));
    // a block of tasks that stay unfinished while others come and go: the owner of the queue takes the newest first
    int block = rng.chance(1, 2) ? int(rng.range(1, 3500)) : 0;
    if (block) workers = 1;
    std::vector<int> block_runs(block, 0);
    int group = 1 + int(rng.below(4));
    Rng r2(rng.next());
    std::vector<int> runs(n, 0);
    bool keep = rng.chance(1, 2);
    int kept_runs = 0, under_kept = 0, inner = 0;
    execute(seed, 30000000, [&] {
        thread_pool tp(workers);
        task_t* kept = nullptr;
        std::vector<task_t*> blocked;
        for (int k = 0; k < block; k++) {
            int* p = &block_runs[k];
            blocked.push_back(tp.submit([p] { ++*p; }));
        }
        int i = 0;
        auto some = [&](int upto, task_t* parent) {
            while (i < upto) {
                task_t* hs[8];
                int from = i;
                int g = std::min(group, upto - i);
                for (int k = 0; k < g; k++) {
                    int* p = &runs[i++];
                    hs[k] = tp.submit([p] { ++*p; }, parent);
                }
                for (int k = 0; k < g; k++) tp.wait(hs[k]);
                for (int k = 0; k < g; k++) {
                    if (runs[from + k] != 1) report("C10", runs[from + k] ? "ran-twice" : "wait-too-early", fmt("task %d has run %d times after waiting for it", from + k, runs[from + k]));
                }
            }
        };
        if (keep) {
            // a task that stays unfinished while all the others come and go in its own thread
            kept = tp.submit([&] {
                kept_runs++;
                some(n, nullptr);
                inner = 1;
            });
            tp.wait(kept);
            if (kept_runs != 1 || !inner) report("C10", "wait-too-early", "the wait for a long task returned early");
        } else {
            some(n, nullptr);
        }
        (void)under_kept;
        for (int k = 0; k < block; k++) {
            tp.wait(blocked[k]);
            if (block_runs[k] != 1) report("C10", block_runs[k] ? "ran-twice" : "wait-too-early", fmt("a task that stayed unfinished for long has run %d times after waiting for it", block_runs[k]));
        }
    });
    for (int r : block_runs) {
        if (r != 1) report("C10", r ? "ran-twice" : "not-run", fmt("a task has run %d times", r));
    }
    count("tasks", block);
    for (int i = 0; i < n; i++) {
        if (runs[i] != 1) report("C10", runs[i] ? "ran-twice" : "not-run", fmt("task %d has run %d times", i, runs[i]));
    }
    count("tasks", n);
    count("long_runs");
}

void one_case(u64 c, Rng& rng) {
    u64 seed = rng.next();
    if (rng.chance(1, args.mode == "long" ? 2 : 300)) return long_run(seed, rng);
    World w;
    world = &w;
    int pools = 1 + int(rng.below(2));
    std::vector<std::unique_ptr<Node>> roots;
    std::vector<int> workers;
    Shape shape = rng.chance(1, 40) ? WIDE : rng.chance(1, 40) ? CHAIN : rng.chance(1, 40) ? DEEP : BUSHY;
    bool wide = shape == WIDE;
    for (int k = 0; k < pools; k++) {
        roots.push_back(std::make_unique<Node>());
        int budget;
        if (wide) budget = simulated ? 300 + int(rng.below(100)) : 300 + int(rng.below(3500));
        else if (shape == CHAIN) budget = simulated ? 20 + int(rng.below(150)) : 100 + int(rng.below(900));
        else if (shape == DEEP) budget = simulated ? 8 + int(rng.below(50)) : 20 + int(rng.below(200));
        else budget = 1 + int(rng.below(simulated ? 16 : 600));
        generate(*roots.back(), rng, budget, 0, shape, w);
        workers.push_back(wide && rng.chance(1, 2) ? 1 : !simulated && rng.chance(1, 30) ? int(rng.range(9, 40)) : int(rng.range(1, simulated ? 4 : 8)));
    }
    int total = 0;
    execute(seed, shape != BUSHY ? 4000000 : 1500000, [&] {
        for (int k = 0; k < pools; k++) {
            thread_pool tp(workers[k]);
            if (tp.num_workers() != std::size_t(workers[k])) report("C10", "workers", "a pool has a wrong number of workers");
            run_actions(*roots[k]);
            wait_rest(*roots[k], total);
        }
    });
    int executed = 0;
    for (auto& r : roots) check_all(*r, executed);
    if (executed != total) report("C10", "count", fmt("%d tasks submitted, %d executions", total, executed));
    count("tasks", executed);
    count("pools", pools);
    u64 h = 0;
    std::function<void(Node&)> digest = [&](Node& n) {
        for (auto& x : n.children) {
            h = mix(h ^ u64(x->want_under + 7) ^ (x->under ? u64(x->under->id) << 20 : 0));
            digest(*x);
        }
        for (auto& a : n.actions) h = mix(h ^ u64(a.kind) ^ (u64(a.child) << 8));
    };
    for (auto& r : roots) digest(*r);
    seen("task_trees", h);
    if (c % 211 == 0) sample(fmt("case %llu: %d pools of %d.. workers, %d tasks", (unsigned long long)c, pools, workers[0], executed));
}

} // namespace vf

int main(int argc, char** argv) {
    vf::parse_args(argc, argv);
    return vf::run_cases([](vf::u64 c, vf::Rng& rng) {
        vf::one_case(c, rng);
    });
}
