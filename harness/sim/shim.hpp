// Replaces the standard concurrency primitives by controlled ones (see sim.hpp) in everything included after it.
#pragma once
#include <bits/stdc++.h>
#include "sim.hpp"

namespace std {

template<typename T>
struct vf_atomic_base {
    static_assert(is_trivially_copyable_v<T>);
    static constexpr bool small = sizeof(T) <= 8;
    static constexpr bool is_always_lock_free = sizeof(T) <= 8;
    using value_type = T;

protected:
    mutable sim::Raw raw{};
    struct None {};
    [[no_unique_address]] mutable conditional_t<small, None, T> big{};

    static sim::u64 enc(T v) noexcept {
        sim::u64 r = 0;
        __builtin_memcpy(&r, &v, small ? sizeof(T) : 0);
        return r;
    }
    static T dec(sim::u64 r) noexcept {
        if constexpr (small) {
            alignas(T) unsigned char b[8];
            __builtin_memcpy(b, &r, 8);
            T v = *reinterpret_cast<T*>(b);
            return v;
        } else {
            return T{};
        }
    }
    static int o(memory_order m) noexcept {
        return static_cast<int>(m);
    }

public:
    vf_atomic_base() noexcept {
        if constexpr (small) raw.val = enc(T{});
    }
    vf_atomic_base(T v) noexcept {
        if constexpr (small) raw.val = enc(v);
        else big = v;
    }
    vf_atomic_base(const vf_atomic_base&) = delete;
    vf_atomic_base& operator=(const vf_atomic_base&) = delete;
    ~vf_atomic_base() {
        sim::a_destroy(&raw);
    }
    bool is_lock_free() const noexcept {
        return small;
    }
    T load(memory_order m = memory_order_seq_cst) const noexcept {
        if constexpr (small) return dec(sim::a_load(&raw, o(m)));
        else {
            alignas(T) unsigned char b[sizeof(T)];
            sim::big_begin(&raw);
            sim::copy(b, &big, sizeof(T));
            sim::big_end(&raw);
            return *reinterpret_cast<T*>(b);
        }
    }
    void store(T v, memory_order m = memory_order_seq_cst) noexcept {
        if constexpr (small) sim::a_store(&raw, enc(v), o(m));
        else {
            sim::big_begin(&raw);
            sim::copy(&big, &v, sizeof(T));
            sim::big_end(&raw);
        }
    }
    T exchange(T v, memory_order m = memory_order_seq_cst) noexcept {
        if constexpr (small) return dec(sim::a_rmw(&raw, +[](sim::u64, sim::u64 a) { return a; }, enc(v), o(m)));
        else {
            alignas(T) unsigned char b[sizeof(T)];
            sim::big_begin(&raw);
            sim::copy(b, &big, sizeof(T));
            sim::copy(&big, &v, sizeof(T));
            sim::big_end(&raw);
            return *reinterpret_cast<T*>(b);
        }
    }
    bool cas(T& e, T d, memory_order s, memory_order f, bool weak) noexcept {
        if constexpr (small) {
            sim::u64 x = enc(e);
            bool r = sim::a_cas(&raw, &x, enc(d), o(s), o(f), weak);
            if (!r) e = dec(x);
            return r;
        } else {
            sim::big_begin(&raw);
            bool r = __builtin_memcmp(&big, &e, sizeof(T)) == 0;
            if (r) sim::copy(&big, &d, sizeof(T));
            else sim::copy(&e, &big, sizeof(T));
            sim::big_end(&raw);
            return r;
        }
    }
    static memory_order fail_of(memory_order m) noexcept {
        return m == memory_order_acq_rel ? memory_order_acquire : m == memory_order_release ? memory_order_relaxed : m;
    }
    bool compare_exchange_strong(T& e, T d, memory_order s, memory_order f) noexcept {
        return cas(e, d, s, f, false);
    }
    bool compare_exchange_strong(T& e, T d, memory_order m = memory_order_seq_cst) noexcept {
        return cas(e, d, m, fail_of(m), false);
    }
    bool compare_exchange_weak(T& e, T d, memory_order s, memory_order f) noexcept {
        return cas(e, d, s, f, true);
    }
    bool compare_exchange_weak(T& e, T d, memory_order m = memory_order_seq_cst) noexcept {
        return cas(e, d, m, fail_of(m), true);
    }
    void wait(T old, memory_order m = memory_order_seq_cst) const noexcept {
        sim::a_wait(&raw, enc(old), o(m));
    }
    void notify_one() noexcept {
        sim::a_notify(&raw, false);
    }
    void notify_all() noexcept {
        sim::a_notify(&raw, true);
    }
    operator T() const noexcept {
        return load();
    }
};

template<typename T>
struct vf_atomic : vf_atomic_base<T> {
    using B = vf_atomic_base<T>;
    using B::B;
    vf_atomic() noexcept = default;
    T operator=(T v) noexcept {
        B::store(v);
        return v;
    }

    using D = conditional_t<is_pointer_v<T>, ptrdiff_t, T>;
    template<typename F>
    T rmw(D a, memory_order m, F) noexcept {
        sim::u64 x = 0;
        __builtin_memcpy(&x, &a, sizeof a);
        return B::dec(sim::a_rmw(
            &this->raw,
            +[](sim::u64 old, sim::u64 arg) {
                D d;
                __builtin_memcpy(&d, &arg, sizeof d);
                return B::enc(static_cast<T>(F{}(B::dec(old), d)));
            },
            x, B::o(m)));
    }
    T fetch_add(D a, memory_order m = memory_order_seq_cst) noexcept requires(!is_same_v<T, bool>) {
        return rmw(a, m, [](T x, D y) { return x + y; });
    }
    T fetch_sub(D a, memory_order m = memory_order_seq_cst) noexcept requires(!is_same_v<T, bool>) {
        return rmw(a, m, [](T x, D y) { return x - y; });
    }
    T fetch_and(D a, memory_order m = memory_order_seq_cst) noexcept requires(is_integral_v<T>) {
        return rmw(a, m, [](T x, D y) { return x & y; });
    }
    T fetch_or(D a, memory_order m = memory_order_seq_cst) noexcept requires(is_integral_v<T>) {
        return rmw(a, m, [](T x, D y) { return x | y; });
    }
    T fetch_xor(D a, memory_order m = memory_order_seq_cst) noexcept requires(is_integral_v<T>) {
        return rmw(a, m, [](T x, D y) { return x ^ y; });
    }
    T operator++() noexcept requires(!is_same_v<T, bool>) {
        return static_cast<T>(fetch_add(1) + 1);
    }
    T operator++(int) noexcept requires(!is_same_v<T, bool>) {
        return fetch_add(1);
    }
    T operator--() noexcept requires(!is_same_v<T, bool>) {
        return static_cast<T>(fetch_sub(1) - 1);
    }
    T operator--(int) noexcept requires(!is_same_v<T, bool>) {
        return fetch_sub(1);
    }
    T operator+=(D a) noexcept requires(!is_same_v<T, bool>) {
        return static_cast<T>(fetch_add(a) + a);
    }
    T operator-=(D a) noexcept requires(!is_same_v<T, bool>) {
        return static_cast<T>(fetch_sub(a) - a);
    }
    T operator&=(D a) noexcept requires(is_integral_v<T>) {
        return static_cast<T>(fetch_and(a) & a);
    }
    T operator|=(D a) noexcept requires(is_integral_v<T>) {
        return static_cast<T>(fetch_or(a) | a);
    }
    T operator^=(D a) noexcept requires(is_integral_v<T>) {
        return static_cast<T>(fetch_xor(a) ^ a);
    }
};
template<typename T>
vf_atomic(T) -> vf_atomic<T>;

// anything that is not trivially copyable (shared_ptr) is left to the library
template<typename T>
struct vf_atomic<shared_ptr<T>> : atomic<shared_ptr<T>> {
    using atomic<shared_ptr<T>>::atomic;
};

struct vf_atomic_flag {
    vf_atomic<bool> f{ false };
    bool test(memory_order m = memory_order_seq_cst) const noexcept {
        return f.load(m);
    }
    bool test_and_set(memory_order m = memory_order_seq_cst) noexcept {
        return f.exchange(true, m);
    }
    void clear(memory_order m = memory_order_seq_cst) noexcept {
        f.store(false, m);
    }
    void wait(bool v, memory_order m = memory_order_seq_cst) const noexcept {
        f.wait(v, m);
    }
    void notify_one() noexcept {
        f.notify_one();
    }
    void notify_all() noexcept {
        f.notify_all();
    }
};

inline void vf_atomic_thread_fence(memory_order m) noexcept {
    sim::a_fence(static_cast<int>(m));
}

struct vf_mutex {
    sim::RawMutex m;
    vf_mutex() = default;
    vf_mutex(const vf_mutex&) = delete;
    ~vf_mutex() {
        sim::m_destroy(&m);
    }
    void lock() {
        sim::m_lock(&m, false);
    }
    bool try_lock() {
        return sim::m_try_lock(&m, false, false);
    }
    void unlock() {
        sim::m_unlock(&m);
    }
    bool try_lock_for(auto&&) {
        return sim::m_try_lock(&m, false, true);
    }
    bool try_lock_until(auto&&) {
        return sim::m_try_lock(&m, false, true);
    }
};
struct vf_timed_mutex : vf_mutex {};
struct vf_recursive_mutex {
    sim::RawMutex m;
    vf_recursive_mutex() = default;
    vf_recursive_mutex(const vf_recursive_mutex&) = delete;
    ~vf_recursive_mutex() {
        sim::m_destroy(&m);
    }
    void lock() {
        sim::m_lock(&m, true);
    }
    bool try_lock() {
        return sim::m_try_lock(&m, true, false);
    }
    void unlock() {
        sim::m_unlock(&m);
    }
};
struct vf_shared_mutex : vf_mutex {
    void lock_shared() {
        sim::m_lock_shared(&m);
    }
    bool try_lock_shared() {
        return sim::m_try_lock_shared(&m, false);
    }
    void unlock_shared() {
        sim::m_unlock_shared(&m);
    }
};
struct vf_shared_timed_mutex : vf_shared_mutex {
    bool try_lock_shared_for(auto&&) {
        return sim::m_try_lock_shared(&m, true);
    }
    bool try_lock_shared_until(auto&&) {
        return sim::m_try_lock_shared(&m, true);
    }
};

struct vf_condition_variable {
    char c[2];
    template<typename L>
    bool raw_wait(L& l, bool timed) {
        return sim::c_wait(
            this, [](void* p) { static_cast<L*>(p)->unlock(); }, [](void* p) { static_cast<L*>(p)->lock(); }, &l, timed);
    }
    void wait(auto& l) {
        raw_wait(l, false);
    }
    void wait(auto& l, auto p) {
        while (!p()) raw_wait(l, false);
    }
    cv_status wait_for(auto& l, const auto&) {
        return raw_wait(l, true) ? cv_status::no_timeout : cv_status::timeout;
    }
    cv_status wait_until(auto& l, const auto&) {
        return raw_wait(l, true) ? cv_status::no_timeout : cv_status::timeout;
    }
    bool wait_for(auto& l, const auto&, auto p) {
        while (!p())
            if (!raw_wait(l, true)) return p();
        return true;
    }
    bool wait_until(auto& l, const auto&, auto p) {
        while (!p())
            if (!raw_wait(l, true)) return p();
        return true;
    }
    void notify_one() noexcept {
        sim::c_notify(this, false);
    }
    void notify_all() noexcept {
        sim::c_notify(this, true);
    }
};
using vf_condition_variable_any = vf_condition_variable;

template<ptrdiff_t N = __PTRDIFF_MAX__>
struct vf_counting_semaphore {
    sim::RawSem s;
    explicit vf_counting_semaphore(ptrdiff_t n) : s{ n } {
    }
    vf_counting_semaphore(const vf_counting_semaphore&) = delete;
    ~vf_counting_semaphore() {
        sim::s_destroy(&s);
    }
    static constexpr ptrdiff_t max() noexcept {
        return N;
    }
    void release(ptrdiff_t n = 1) {
        sim::s_release(&s, n);
    }
    void acquire() {
        sim::s_acquire(&s);
    }
    bool try_acquire() noexcept {
        return sim::s_try_acquire(&s, false);
    }
    bool try_acquire_for(const auto&) {
        return sim::s_try_acquire(&s, true);
    }
    bool try_acquire_until(const auto&) {
        return sim::s_try_acquire(&s, true);
    }
};
using vf_binary_semaphore = vf_counting_semaphore<1>;

struct vf_latch {
    vf_atomic<ptrdiff_t> n;
    explicit vf_latch(ptrdiff_t k) : n(k) {
    }
    void count_down(ptrdiff_t k = 1) {
        n.fetch_sub(k);
        n.notify_all();
    }
    bool try_wait() const noexcept {
        return n.load() == 0;
    }
    void wait() const {
        for (auto v = n.load(); v != 0; v = n.load()) n.wait(v);
    }
    void arrive_and_wait(ptrdiff_t k = 1) {
        count_down(k);
        wait();
    }
};

struct vf_once_flag {
    vf_mutex m;
    bool done = false;
};
template<typename F, typename... A>
void vf_call_once(vf_once_flag& o, F&& f, A&&... a) {
    lock_guard<vf_mutex> lk(o.m);
    if (!o.done) {
        std::invoke(std::forward<F>(f), std::forward<A>(a)...);
        o.done = true;
    }
}

class vf_thread {
    thread t;
    int tid = -1;

public:
    using id = thread::id;
    using native_handle_type = thread::native_handle_type;
    vf_thread() noexcept = default;
    template<typename F, typename... A>
        requires(!is_same_v<remove_cvref_t<F>, vf_thread>)
    explicit vf_thread(F&& f, A&&... a) {
        tid = sim::t_create();
        t = thread(
            [n = tid](auto&& g, auto&&... b) {
                sim::t_start(n);
                std::invoke(std::move(g), std::move(b)...);
            },
            std::forward<F>(f), std::forward<A>(a)...);
        sim::point();
    }
    vf_thread(vf_thread&& o) noexcept : t(std::move(o.t)), tid(std::exchange(o.tid, -1)) {
    }
    vf_thread& operator=(vf_thread&& o) noexcept {
        t = std::move(o.t);
        tid = std::exchange(o.tid, -1);
        return *this;
    }
    bool joinable() const noexcept {
        return t.joinable();
    }
    void join() {
        sim::t_join(tid);
        t.join();
    }
    void detach() {
        t.detach();
    }
    id get_id() const noexcept {
        return t.get_id();
    }
    native_handle_type native_handle() {
        return t.native_handle();
    }
    void swap(vf_thread& o) noexcept {
        std::swap(t, o.t);
        std::swap(tid, o.tid);
    }
    static unsigned hardware_concurrency() noexcept {
        return sim::hardware_concurrency();
    }
};

class vf_jthread {
    stop_source ss;
    vf_thread t;

public:
    using id = thread::id;
    vf_jthread() noexcept : ss(nostopstate) {
    }
    template<typename F, typename... A>
        requires(!is_same_v<remove_cvref_t<F>, vf_jthread>)
    explicit vf_jthread(F&& f, A&&... a) {
        if constexpr (is_invocable_v<decay_t<F>, stop_token, decay_t<A>...>) {
            t = vf_thread(std::forward<F>(f), ss.get_token(), std::forward<A>(a)...);
        } else {
            t = vf_thread(std::forward<F>(f), std::forward<A>(a)...);
        }
    }
    vf_jthread(vf_jthread&&) noexcept = default;
    vf_jthread& operator=(vf_jthread&& o) noexcept {
        finish();
        ss = std::move(o.ss);
        t = std::move(o.t);
        return *this;
    }
    ~vf_jthread() {
        finish();
    }
    void finish() {
        if (t.joinable()) {
            ss.request_stop();
            t.join();
        }
    }
    bool joinable() const noexcept {
        return t.joinable();
    }
    void join() {
        t.join();
    }
    void detach() {
        t.detach();
    }
    id get_id() const noexcept {
        return t.get_id();
    }
    bool request_stop() noexcept {
        return ss.request_stop();
    }
    stop_token get_stop_token() const noexcept {
        return ss.get_token();
    }
    stop_source get_stop_source() noexcept {
        return ss;
    }
    static unsigned hardware_concurrency() noexcept {
        return sim::hardware_concurrency();
    }
};

namespace vf_this_thread {
inline void yield() noexcept {
    sim::yield();
}
inline void sleep_for(const auto&) {
    sim::yield();
}
inline void sleep_until(const auto&) {
    sim::yield();
}
inline thread::id get_id() noexcept {
    return this_thread::get_id();
}
} // namespace vf_this_thread

struct vf_random_device {
    using result_type = unsigned;
    vf_random_device() = default;
    explicit vf_random_device(const string&) {
    }
    result_type operator()() {
        return sim::random();
    }
    static constexpr result_type min() {
        return 0;
    }
    static constexpr result_type max() {
        return ~0u;
    }
    double entropy() const noexcept {
        return 32;
    }
};

} // namespace std

#define atomic vf_atomic
#define atomic_flag vf_atomic_flag
#define atomic_bool vf_atomic<bool>
#define atomic_int vf_atomic<int>
#define atomic_uint vf_atomic<unsigned>
#define atomic_size_t vf_atomic<std::size_t>
#define atomic_ptrdiff_t vf_atomic<std::ptrdiff_t>
#define atomic_int32_t vf_atomic<std::int32_t>
#define atomic_uint32_t vf_atomic<std::uint32_t>
#define atomic_int64_t vf_atomic<std::int64_t>
#define atomic_uint64_t vf_atomic<std::uint64_t>
#define atomic_uint16_t vf_atomic<std::uint16_t>
#define atomic_thread_fence vf_atomic_thread_fence
#define mutex vf_mutex
#define timed_mutex vf_timed_mutex
#define recursive_mutex vf_recursive_mutex
#define shared_mutex vf_shared_mutex
#define shared_timed_mutex vf_shared_timed_mutex
#define condition_variable vf_condition_variable
#define condition_variable_any vf_condition_variable_any
#define counting_semaphore vf_counting_semaphore
#define binary_semaphore vf_binary_semaphore
#define latch vf_latch
#define once_flag vf_once_flag
#define call_once vf_call_once
#define thread vf_thread
#define jthread vf_jthread
#define this_thread vf_this_thread
#define random_device vf_random_device
