// Controlled execution: the threads of a program run one at a time, a seeded scheduler decides at every operation on an
// atomic, mutex, semaphore, condition variable or thread who goes next, and loads of atomics may return any value the
// C++ memory model lets them return. Happens-before is passed on to ThreadSanitizer exactly (fences included), so data
// races in the real code are found whatever the schedule. Implemented in sim.cpp, which is built without sanitizers.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim {

using u64 = std::uint64_t;

struct Raw { // representation of an atomic
    u64 val;
    void* loc;
};

enum Order { RELAXED, CONSUME, ACQUIRE, RELEASE, ACQ_REL, SEQ_CST }; // as std::memory_order

// atomics
u64 a_load(const Raw*, int order);
void a_store(Raw*, u64, int order);
u64 a_rmw(Raw*, u64 (*f)(u64 old, u64 arg), u64 arg, int order);
bool a_cas(Raw*, u64* expected, u64 desired, int order, int fail_order, bool weak);
void a_wait(const Raw*, u64 old, int order);
void a_notify(const Raw*, bool all);
void a_destroy(Raw*);
void a_fence(int order);
void big_begin(const Raw*); // atomics too large for the above: indivisible, sequentially consistent
void big_end(const Raw*);
void copy(void* to, const void* from, std::size_t n);

// blocking primitives
struct RawMutex {
    int owner = -1; // thread holding it exclusively
    int depth = 0;
    int readers = 0;
    void* view = nullptr;
};
void m_lock(RawMutex*, bool recursive);
bool m_try_lock(RawMutex*, bool recursive, bool timed);
void m_unlock(RawMutex*);
void m_lock_shared(RawMutex*);
bool m_try_lock_shared(RawMutex*, bool timed);
void m_unlock_shared(RawMutex*);
void m_destroy(RawMutex*);

struct RawSem {
    std::ptrdiff_t count;
    void* view = nullptr;
};
void s_release(RawSem*, std::ptrdiff_t n);
void s_acquire(RawSem*);
bool s_try_acquire(RawSem*, bool timed);
void s_destroy(RawSem*);

// returns false on timeout
bool c_wait(void* cv, void (*unlock)(void*), void (*lock)(void*), void* mutex, bool timed);
void c_notify(void* cv, bool all);

// threads
int t_create();          // by the creator, before the real thread is created
void t_start(int tid);   // by the new thread
void t_join(int tid);    // returns once the thread has ended
void yield();
void point(); // scheduling point
unsigned hardware_concurrency();
unsigned random();

// control
struct Params {
    u64 seed = 1;
    int strategy = 0;          // 0 random, 1 priorities with change points
    int switch_den = 3;        // random: switches at one in switch_den points
    int change_points = 3;     // priorities: number of changes
    int expected_steps = 2000; // priorities: changes lie below this
    int stale_pct = 20;        // how often a load looks for an older value
    u64 max_steps = 600000;    // no progress beyond that many steps: livelock
};
Params random_params(u64 seed);
void begin(const Params&);
void end();
bool active();
int self();
extern void (*on_stuck)(const char* what); // deadlock or livelock: reports; the process ends afterwards
u64 steps();
u64 switches();
u64 stale_loads();
u64 schedule_hash();
int max_threads();

// event log: totally ordered, invisible to ThreadSanitizer
struct Event {
    int thread;
    int kind;
    u64 a, b;
};
void log(int kind, u64 a = 0, u64 b = 0);
std::size_t log_size();
Event log_at(std::size_t i);
void log_clear();

} // namespace sim
