// Common part of the concurrent monitors. With -DSIM the threads run under the controlled scheduler (sim/), otherwise
// natively. Include this before the library.
#pragma once
#include "vf.hpp"
#include <deque>
#include <functional>
#include <memory>
#include <optional>
#ifdef SIM
#include "sim/shim.hpp"
#else
#include <thread>
namespace sim {
inline void point() {
}
inline void yield() {
    std::this_thread::yield();
}
} // namespace sim
#endif

namespace vf {

#ifdef SIM
constexpr bool simulated = true;
#else
constexpr bool simulated = false;
#endif

// Statistics from inside threads must not order them: plain relaxed atomics outside of the controlled world would be
// seen by the race detector as (harmless, relaxed) accesses only.
inline void stuck(const char* what) {
    report(args.prop == "ALL" ? "C10" : args.prop.c_str(), std::string("stuck-") + (what[0] == 'd' ? "deadlock" : "livelock"), what);
    finish();
}

// One execution of body under a schedule derived from the seed
template<typename F>
void execute(u64 seed, u64 max_steps, F&& body) {
#ifdef SIM
    auto p = sim::random_params(seed);
    p.max_steps = max_steps;
    sim::on_stuck = stuck;
    sim::begin(p);
    body();
    sim::end();
    seen("interleavings", sim::schedule_hash());
    count("executions");
    count("scheduled_steps", sim::steps());
    count("context_switches", sim::switches());
    count("stale_loads", sim::stale_loads());
    maximum("max_threads", u64(sim::max_threads()));
#else
    (void)seed;
    (void)max_steps;
    body();
    count("executions");
#endif
}

// a random pause: moves threads against each other in native runs, a scheduling point in controlled ones
inline void pause(Rng& r, unsigned most = 60) {
#ifdef SIM
    (void)most;
    if (r.chance(1, 2)) sim::point();
#else
    auto k = r.below(most);
    if (r.chance(1, 40)) std::this_thread::yield();
    for (volatile u64 i = 0; i < k; i = i + 1) {
    }
#endif
}

} // namespace vf
