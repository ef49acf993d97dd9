// Monitor for the work stealing queue (C11): histories of push, pop and steal with unique values.
#include "conc.hpp"
#include <co_ecs/detail/work_stealing_queue.hpp>

namespace vf {

struct Cell {
    u64 value = 0;
    int taken = 0; // plain: written by whoever takes it, handed over by the queue
};

enum Kind { PUSH, POP, STEAL };

struct Op {
    int thread;
    Kind kind;
    long index;     // element, -1: nothing
    u64 begin, end; // in the total order of events (controlled runs) or per-thread sequence (native runs)
};

struct Elem {
    std::vector<Cell> cells;
};

std::atomic<u64> native_clock{ 0 };

u64 now() {
#ifdef SIM
    // the log is totally ordered and not visible to the race detector
    sim::log(0);
    return sim::log_size();
#else
    return native_clock.fetch_add(1, std::memory_order_relaxed);
#endif
}

template<typename T>
struct Enc;
template<>
struct Enc<Cell*> {
    static Cell* make(std::vector<Cell>& c, long i) {
        return &c[i];
    }
    static long index(std::vector<Cell>& c, Cell* p) {
        if (p < c.data() || p >= c.data() + c.size()) return -2;
        return p - c.data();
    }
};
template<>
struct Enc<long> {
    static long make(std::vector<Cell>&, long i) {
        return i * 7 + 3;
    }
    static long index(std::vector<Cell>& c, long v) {
        if ((v - 3) % 7 || v < 3 || std::size_t((v - 3) / 7) >= c.size()) return -2;
        return (v - 3) / 7;
    }
};

template<typename T>
void one(u64 seed, Rng& rng) {
    using queue_t = co_ecs::detail::work_stealing_queue<T>;
    constexpr bool payload = std::is_pointer_v<T>;
    const bool small = simulated;
    static const int caps[] = { 2, 2, 4, 8, 16, 64 };
    int64_t cap = caps[rng.below(small ? 4 : 6)];
    int thieves = int(rng.range(small ? 1 : 0, 3));
    long total = long(rng.range(1, small ? 24 : 3000));
    unsigned push_bias = 2 + unsigned(rng.below(7)); // of 10
    bool burst = rng.chance(1, 3);
    bool early_stop = rng.chance(1, 4);
    std::vector<Cell> cells(total);
    std::vector<std::vector<Op>> logs(thieves + 1);
    for (auto& l : logs) l.reserve(small ? 400 : 20000);
    std::vector<Rng> rngs;
    for (int i = 0; i <= thieves; i++) rngs.emplace_back(rng.next());
    std::size_t size_quiet = 0;
    bool empty_quiet = false;
    std::optional<T> extra_pop, extra_steal;
    bool bad_value = false;
    std::size_t final_size = 9;
    bool final_empty = false;
    bool quiet_lifo_ok = true;
    std::string quiet_msg;

    execute(seed, 400000, [&] {
        queue_t q(cap);
        std::atomic<bool> stop{ false };
        auto took = [&](Rng& r, long i) {
            if (i >= 0 && payload) {
                // the element's content arrived with it
                cells[i].taken++;
            }
            pause(r);
        };
        auto thief = [&](int t) {
            auto& r = rngs[t];
            auto& log = logs[t];
            for (long k = 0; k < (small ? 60 : 1000000); k++) {
                if (stop.load(std::memory_order_relaxed)) break;
                u64 b = now();
                auto v = q.steal();
                u64 e = now();
                long i = v ? Enc<T>::index(cells, *v) : -1;
                if (i != -1 || small) log.push_back({ t, STEAL, i, b, e });
                took(r, i);
            }
        };
        {
            std::vector<std::thread> th;
            for (int t = 1; t <= thieves; t++) th.emplace_back(thief, t);
            auto& r = rngs[0];
            auto& log = logs[0];
            long pushed = 0;
            long steps = 0;
            while (pushed < total && steps++ < total * 6) {
                bool do_push = burst ? ((steps / 7) % 2 == 0) : r.below(10) < push_bias;
                if (do_push) {
                    cells[pushed].value = mix(pushed + 1);
                    u64 b = now();
                    if (r.chance(1, 2)) {
                        q.push(Enc<T>::make(cells, pushed));
                    } else {
                        auto v = Enc<T>::make(cells, pushed);
                        q.push(v);
                    }
                    log.push_back({ 0, PUSH, pushed, b, now() });
                    pushed++;
                    pause(r);
                } else {
                    u64 b = now();
                    auto v = q.pop();
                    u64 e = now();
                    long i = v ? Enc<T>::index(cells, *v) : -1;
                    log.push_back({ 0, POP, i, b, e });
                    took(r, i);
                }
                if (r.chance(1, 30)) {
                    (void)q.size();
                    (void)q.empty();
                }
            }
            if (early_stop) stop.store(true, std::memory_order_relaxed);
            else {
                // drain in competition with the thieves
                for (int k = 0; k < total + 8; k++) {
                    u64 b = now();
                    auto v = q.pop();
                    u64 e = now();
                    long i = v ? Enc<T>::index(cells, *v) : -1;
                    log.push_back({ 0, POP, i, b, e });
                    took(r, i);
                    if (!v && r.chance(1, 2)) break;
                }
                stop.store(true, std::memory_order_relaxed);
            }
            for (auto& t : th) t.join();
        }
        // quiescent: what is left comes out in order, from both ends
        std::set<long> left;
        for (auto& l : logs)
            for (auto& o : l)
                if (o.kind == PUSH) left.insert(o.index);
        for (auto& l : logs)
            for (auto& o : l)
                if (o.kind != PUSH && o.index >= 0) left.erase(o.index);
        size_quiet = q.size();
        empty_quiet = q.empty();
        if (size_quiet != left.size()) {
            quiet_lifo_ok = false;
            quiet_msg = fmt("size() is %zu with %zu elements left and no operation in progress", size_quiet, left.size());
        }
        if (empty_quiet != left.empty()) {
            quiet_lifo_ok = false;
            quiet_msg = "empty() is wrong with no operation in progress";
        }
        auto& r = rngs[0];
        while (!left.empty() && quiet_lifo_ok) {
            bool pop = r.chance(1, 2);
            auto v = pop ? q.pop() : q.steal();
            long i = v ? Enc<T>::index(cells, *v) : -1;
            long want = pop ? *left.rbegin() : *left.begin();
            if (i != want) {
                quiet_lifo_ok = false;
                quiet_msg = fmt("%s without interference yields element %ld, expected %ld", pop ? "pop" : "steal", i, want);
            }
            if (i >= 0 && payload) cells[i].taken++;
            left.erase(want);
            logs[0].push_back({ 0, pop ? POP : STEAL, i, now(), now() });
        }
        if (auto v = q.pop()) extra_pop = v;
        if (auto v = q.steal()) extra_steal = v;
        final_size = q.size();
        final_empty = q.empty();
        // reusable afterwards
        for (int k = 0; k < 3; k++) q.push(Enc<T>::make(cells, 0));
        if (q.size() != 3) bad_value = true;
        while (q.pop()) {
        }
    });

    VF_CHECK("C11", "quiet", quiet_lifo_ok, "%s", quiet_msg.c_str());
    VF_CHECK("C11", "invented", !extra_pop && !extra_steal, "an empty queue yields an element");
    VF_CHECK("C11", "final-size", final_size == 0 && final_empty && !bad_value, "size() or empty() is wrong for an empty queue");

    std::vector<long> taken_by(total, -1);
    std::vector<Op> takes(total);
    u64 ops = 0, stolen = 0, popped = 0, fails = 0;
    long pushed = 0;
    for (auto& l : logs) {
        long last = -1;
        for (auto& o : l) {
            ops++;
            if (o.kind == PUSH) {
                pushed++;
                continue;
            }
            if (o.index == -1) {
                fails++;
                continue;
            }
            VF_CHECK("C11", "invented", o.index >= 0, "an element is returned that was never pushed");
            VF_CHECK("C11", "duplicated", taken_by[o.index] < 0, "element %ld is returned twice (threads %ld and %d)", o.index, taken_by[o.index], o.thread);
            taken_by[o.index] = o.thread;
            takes[o.index] = o;
            (o.kind == STEAL ? stolen : popped)++;
            if (o.kind == STEAL && o.thread > 0) {
                VF_CHECK("C11", "thief-order", o.index > last, "a thief gets element %ld after element %ld", o.index, last);
                last = o.index;
            }
        }
    }
    for (long i = 0; i < pushed; i++) {
        VF_CHECK("C11", "lost", taken_by[i] >= 0, "element %ld of %ld is never returned", i, pushed);
        if (payload) VF_CHECK("C11", "handover", cells[i].taken == 1 && cells[i].value == mix(i + 1), "element %ld was taken %d times", i, cells[i].taken);
    }
    if (simulated) {
        std::vector<u64> push_begin(total);
        for (auto& o : logs[0])
            if (o.kind == PUSH) push_begin[o.index] = o.begin;
        for (auto& l : logs) {
            for (auto& o : l) {
                if (o.kind == PUSH) continue;
                if (o.index >= 0) {
                    VF_CHECK("C11", "from-the-future", push_begin[o.index] < o.end, "an element is returned before it is pushed");
                }
                if (o.kind == POP && o.index == -1) {
                    // empty: every element pushed before is being or has been taken
                    for (auto& p : logs[0]) {
                        if (p.kind == PUSH && p.end < o.begin) {
                            VF_CHECK("C11", "false-empty", takes[p.index].begin < o.end, "pop finds nothing although element %ld is in the queue", p.index);
                        }
                    }
                }
                if (o.kind == POP && o.index >= 0) {
                    for (auto& p : logs[0]) {
                        if (p.kind == PUSH && p.index > o.index && p.end < o.begin) {
                            VF_CHECK("C11", "pop-order", takes[p.index].begin < o.end, "pop yields element %ld although the newer element %ld is in the queue", o.index, p.index);
                        }
                    }
                }
                if (o.kind == STEAL && o.index >= 0) {
                    for (auto& p : logs[0]) {
                        if (p.kind == PUSH && p.index < o.index) {
                            VF_CHECK("C11", "steal-order", takes[p.index].begin < o.end, "steal yields element %ld although the older element %ld is in the queue", o.index, p.index);
                        }
                    }
                }
            }
        }
    }
    count("queue_operations", ops);
    count("stolen", stolen);
    count("popped", popped);
    count("failed_takes", fails);
    u64 h = 0;
    for (long i = 0; i < pushed; i++) h = mix(h ^ u64(taken_by[i] + 1));
    seen("outcomes", h);
}

} // namespace vf

int main(int argc, char** argv) {
    vf::parse_args(argc, argv);
    return vf::run_cases([](vf::u64 c, vf::Rng& rng) {
        vf::u64 seed = rng.next();
        if (rng.chance(2, 3)) vf::one<vf::Cell*>(seed, rng);
        else vf::one<long>(seed, rng);
        if (c % 401 == 0) vf::sample(vf::fmt("case %llu", (unsigned long long)c));
    });
}
