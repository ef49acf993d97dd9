// See sim.hpp. This file is built without sanitizers; only types local to it are used with templates so that no
// instrumented instantiation gets linked in.
#include "sim.hpp"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <new>
#include <sys/mman.h>

#if defined(SIM_TSAN)
extern "C" void __tsan_acquire(void*);
extern "C" void __tsan_release(void*);
extern "C" unsigned long __tsan_atomic64_load(const volatile unsigned long*, int);
#define HB_ACQUIRE(p) __tsan_acquire(p)
#define HB_RELEASE(p) __tsan_release(p)
// lets the race detector see an atomic access (against construction, destruction and release of the memory)
#define MARK(p) __tsan_atomic64_load(reinterpret_cast<const volatile unsigned long*>(p), 0)
#elif defined(SIM_ASAN)
extern "C" void __asan_load8(void*) __attribute__((weak));
#define HB_ACQUIRE(p) (void)(p)
#define HB_RELEASE(p) (void)(p)
#define MARK(p) (__asan_load8 ? __asan_load8(const_cast<void*>(static_cast<const void*>(p))) : void())
#else
#define HB_ACQUIRE(p) (void)(p)
#define HB_RELEASE(p) (void)(p)
#define MARK(p) (void)(p)
#endif

namespace sim {

void (*on_stuck)(const char*) = nullptr;

namespace {

// ---- memory of the simulator: neither intercepted allocation nor intercepted memcpy may be used here ----

struct FreeNode {
    FreeNode* next;
};
FreeNode* free_lists[48];
char *chunk_at, *chunk_end;

void* zalloc(std::size_t n) {
    int c = 4;
    while ((std::size_t(1) << c) < n) c++;
    if (auto* f = free_lists[c]) {
        free_lists[c] = f->next;
        return f;
    }
    std::size_t size = std::size_t(1) << c;
    if (std::size_t(chunk_end - chunk_at) < size) {
        std::size_t len = std::max<std::size_t>(size, 1 << 22);
        long p = syscall(SYS_mmap, nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (p < 0 && p > -4096) _exit(3);
        chunk_at = reinterpret_cast<char*>(p);
        chunk_end = chunk_at + len;
    }
    void* r = chunk_at;
    chunk_at += size;
    return r;
}

void zfree(void* p, std::size_t n) {
    int c = 4;
    while ((std::size_t(1) << c) < n) c++;
    auto* f = static_cast<FreeNode*>(p);
    f->next = free_lists[c];
    free_lists[c] = f;
}

template<typename T>
T* make() {
    return new (zalloc(sizeof(T))) T{};
}
template<typename T>
void unmake(T* p) {
    if (p) {
        p->~T();
        zfree(p, sizeof(T));
    }
}

template<typename T>
struct Vec {
    T* d = nullptr;
    std::size_t n = 0, cap = 0;
    Vec() = default;
    Vec(const Vec& o) {
        reserve(o.n);
        for (std::size_t i = 0; i < o.n; i++) new (d + i) T(o.d[i]);
        n = o.n;
    }
    Vec(Vec&& o) noexcept : d(o.d), n(o.n), cap(o.cap) {
        o.d = nullptr;
        o.n = o.cap = 0;
    }
    Vec& operator=(const Vec& o) {
        if (this != &o) {
            clear();
            reserve(o.n);
            for (std::size_t i = 0; i < o.n; i++) new (d + i) T(o.d[i]);
            n = o.n;
        }
        return *this;
    }
    Vec& operator=(Vec&& o) noexcept {
        if (this != &o) swap(o);
        return *this;
    }
    ~Vec() {
        clear();
        if (d) zfree(d, cap * sizeof(T));
    }
    void swap(Vec& o) {
        auto a = d;
        d = o.d;
        o.d = a;
        auto b = n;
        n = o.n;
        o.n = b;
        b = cap;
        cap = o.cap;
        o.cap = b;
    }
    void reserve(std::size_t c) {
        if (c <= cap) return;
        std::size_t nc = cap ? cap * 2 : 4;
        while (nc < c) nc *= 2;
        T* e = static_cast<T*>(zalloc(nc * sizeof(T)));
        for (std::size_t i = 0; i < n; i++) {
            new (e + i) T(static_cast<T&&>(d[i]));
            d[i].~T();
        }
        if (d) zfree(d, cap * sizeof(T));
        d = e;
        cap = nc;
    }
    void push_back(T x) {
        reserve(n + 1);
        new (d + n) T(static_cast<T&&>(x));
        n++;
    }
    void pop_back() {
        d[--n].~T();
    }
    void insert_at(std::size_t k, T x) {
        push_back(static_cast<T&&>(x));
        for (std::size_t i = n - 1; i > k; i--) {
            T t = static_cast<T&&>(d[i]);
            d[i] = static_cast<T&&>(d[i - 1]);
            d[i - 1] = static_cast<T&&>(t);
        }
    }
    void erase_first() {
        for (std::size_t i = 0; i + 1 < n; i++) d[i] = static_cast<T&&>(d[i + 1]);
        pop_back();
    }
    void clear() {
        while (n) pop_back();
    }
    bool empty() const {
        return n == 0;
    }
    std::size_t size() const {
        return n;
    }
    T& operator[](std::size_t i) {
        return d[i];
    }
    const T& operator[](std::size_t i) const {
        return d[i];
    }
    T& back() {
        return d[n - 1];
    }
    T* begin() {
        return d;
    }
    T* end() {
        return d + n;
    }
    const T* begin() const {
        return d;
    }
    const T* end() const {
        return d + n;
    }
};

// ---- views: the oldest value of each location a thread may still read ----

struct Ent {
    std::uint32_t loc, idx;
};

struct View {
    Vec<Ent> v;
    std::size_t find(std::uint32_t loc) const {
        std::size_t a = 0, b = v.size();
        while (a < b) {
            auto m = (a + b) / 2;
            if (v[m].loc < loc) a = m + 1;
            else b = m;
        }
        return a;
    }
    std::uint32_t get(std::uint32_t loc) const {
        auto i = find(loc);
        return i < v.size() && v[i].loc == loc ? v[i].idx : 0;
    }
    void raise(std::uint32_t loc, std::uint32_t idx) {
        auto i = find(loc);
        if (i < v.size() && v[i].loc == loc) {
            if (v[i].idx < idx) v[i].idx = idx;
        } else {
            v.insert_at(i, Ent{ loc, idx });
        }
    }
    void merge(const View& o) {
        if (o.v.empty()) return;
        if (v.empty()) {
            v = o.v;
            return;
        }
        bool contained = true;
        std::size_t i = 0;
        for (auto& e : o.v) {
            while (i < v.size() && v[i].loc < e.loc) i++;
            if (i == v.size() || v[i].loc != e.loc) {
                contained = false;
                break;
            }
            if (v[i].idx < e.idx) v[i].idx = e.idx;
        }
        if (contained) return;
        Vec<Ent> r;
        r.reserve(v.size() + o.v.size());
        std::size_t a = 0, b = 0;
        while (a < v.size() || b < o.v.size()) {
            if (b == o.v.size() || (a < v.size() && v[a].loc < o.v[b].loc)) r.push_back(v[a++]);
            else if (a == v.size() || o.v[b].loc < v[a].loc) r.push_back(o.v[b++]);
            else {
                r.push_back(Ent{ v[a].loc, std::max(v[a].idx, o.v[b].idx) });
                a++;
                b++;
            }
        }
        v.swap(r);
    }
};

struct Sync {
    void* p;
};

struct Rec {
    u64 val;
    View view;
    Vec<Sync> syncs;
};

constexpr std::size_t history = 8;

struct Loc {
    u64 epoch;
    std::uint32_t id;
    std::uint32_t base; // index of h[0]
    u64 wrote;          // step of the last store
    bool settled;       // not written for long, view already reduced
    Vec<Rec> h;
};

struct Obj { // view attached to a mutex, semaphore, ...
    u64 epoch;
    u64 next_gc;
    View view;
};

enum State { FREE, RUNNABLE, BLOCKED, TIMED, FINISHED };

struct VT {
    State state = FREE;
    int futex = 0;
    const void* waits = nullptr;
    bool timed_out = false;
    View cur, acq, rel;
    Vec<Sync> acq_syncs;
    void* rel_sync = nullptr;
    long prio = 0;
    u64 run_steps = 0;
    const void* last_loc = nullptr;
    int stale_in_row = 0;
};

constexpr int max_vt = 64;
VT vt[max_vt];
int nvt = 0, most = 0;
__thread int me = -1;
__thread int exiting = 0;
pthread_key_t exit_key;
bool key_made = false;

bool running = false;
u64 epoch = 0;
Params P;
u64 rng_state = 1;
u64 n_steps, n_switches, n_stale, hash_state;
std::uint32_t next_loc;
View sc;
bool fair = false;
struct Change {
    u64 at;
};
Vec<Change> change_points;
long low_prio = 0;

alignas(64) char arena[8 * 16384];
std::size_t arena_next = 0;

struct LocRef {
    Loc* p;
};
Vec<LocRef> locs; // by id
u64 next_gc;

struct LogEntry {
    Event e;
};
Vec<LogEntry> events;

u64 rnd() {
    rng_state += 0x9e3779b97f4a7c15ull;
    u64 x = rng_state;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

void* new_sync() {
    arena_next = (arena_next + 1) % (sizeof arena / 8);
    return arena + 8 * arena_next;
}

void fwait(int* f) {
    while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) {
        syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    }
    __atomic_store_n(f, 0, __ATOMIC_RELAXED);
}

void fwake(int* f) {
    __atomic_store_n(f, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

[[noreturn]] void stuck(const char* what) {
    running = false;
    if (on_stuck) on_stuck(what);
    fflush(stdout);
    _exit(1);
}

// who runs next; the current thread may not be able to
int pick(bool may_stay) {
    int run[max_vt], nr = 0, tim[max_vt], nt = 0;
    for (int i = 0; i < nvt; i++) {
        if (vt[i].state == RUNNABLE) run[nr++] = i;
        else if (vt[i].state == TIMED) tim[nt++] = i;
    }
    if (nr == 0 || (nt > 0 && rnd() % 32 == 0)) {
        if (nt == 0) {
            if (nr == 0) stuck("deadlock: every thread waits");
        } else {
            int t = tim[rnd() % nt];
            vt[t].state = RUNNABLE;
            vt[t].timed_out = true;
            return t;
        }
    }
    if (P.strategy == 1 && !fair) {
        int best = run[0];
        for (int k = 1; k < nr; k++)
            if (vt[run[k]].prio > vt[best].prio) best = run[k];
        return best;
    }
    if (may_stay && vt[me].state == RUNNABLE && !fair && rnd() % P.switch_den != 0) return me;
    return run[rnd() % nr];
}

void transfer(int to) {
    if (to == me) return;
    n_switches++;
    hash_state = (hash_state ^ (u64(to) + (n_steps << 8))) * 0x100000001b3ull;
    hash_state ^= hash_state >> 29;
    vt[to].run_steps = 0;
    int self_ = me;
    bool gone = self_ < 0 || vt[self_].state == FINISHED; // the slot may be reused once the turn is given up
    fwake(&vt[to].futex);
    if (!gone) fwait(&vt[self_].futex);
}

void step() {
    n_steps++;
    if (n_steps > P.max_steps / 2) fair = true;
    if (n_steps > P.max_steps) stuck("livelock: no end is reached");
    auto& t = vt[me];
    if (P.strategy == 1) {
        while (!change_points.empty() && change_points.back().at <= n_steps) {
            change_points.pop_back();
            t.prio = --low_prio;
        }
        if (++t.run_steps > 200) {
            t.run_steps = 0;
            t.prio = --low_prio;
        }
    }
}

bool on() {
    return running && me >= 0 && !exiting;
}

void sched_point() {
    step();
    transfer(pick(true));
}

void block_on(const void* what, bool timed) {
    auto& t = vt[me];
    t.state = timed ? TIMED : BLOCKED;
    t.waits = what;
    t.timed_out = false;
    step();
    transfer(pick(false));
    t.waits = nullptr;
}

void wake(const void* what, bool all) {
    int c[max_vt], n = 0;
    for (int i = 0; i < nvt; i++)
        if ((vt[i].state == BLOCKED || vt[i].state == TIMED) && vt[i].waits == what) c[n++] = i;
    if (!n) return;
    if (all) {
        for (int k = 0; k < n; k++) vt[c[k]].state = RUNNABLE;
    } else {
        vt[c[rnd() % n]].state = RUNNABLE;
    }
}

// Forgets old values of locations that have not been written for a while; what views say about them is then implied.
// This only takes away possible stale reads.
void filter(View& v) {
    std::size_t k = 0;
    for (std::size_t i = 0; i < v.v.size(); i++) {
        auto* l = locs[v.v[i].loc - 1].p;
        if (l && v.v[i].idx > l->base) v.v[k++] = v.v[i];
    }
    while (v.v.size() > k) v.v.pop_back();
}

void gc() {
    for (auto& r : locs) {
        auto* l = r.p;
        if (!l || l->settled) continue;
        if (l->wrote + 1000 > n_steps) {
            for (auto& rec : l->h) filter(rec.view);
            continue;
        }
        while (l->h.size() > 1) {
            l->h.erase_first();
            l->base++;
        }
        filter(l->h[0].view);
        l->settled = l->wrote + 3000 < n_steps;
    }
    for (int i = 0; i < nvt; i++) {
        filter(vt[i].cur);
        filter(vt[i].acq);
        filter(vt[i].rel);
    }
    filter(sc);
}

bool acquires(int o) {
    return o == CONSUME || o == ACQUIRE || o == ACQ_REL || o == SEQ_CST;
}
bool releases(int o) {
    return o == RELEASE || o == ACQ_REL || o == SEQ_CST;
}

Loc* loc_of(Raw* r) {
    if (n_steps >= next_gc) {
        next_gc = n_steps + 1000;
        gc();
    }
    auto* l = static_cast<Loc*>(r->loc);
    if (!l) {
        l = make<Loc>();
        r->loc = l;
        l->epoch = 0;
    }
    if (l->epoch != epoch) {
        l->epoch = epoch;
        l->id = ++next_loc;
        l->wrote = n_steps;
        l->settled = false;
        locs.push_back(LocRef{ l });
        l->base = 1;
        l->h.clear();
        l->h.push_back(Rec{ r->val, View{}, {} });
    }
    return l;
}

void take(VT& t, const Rec& rec, bool acq) {
    t.acq.merge(rec.view);
    if (acq) {
        t.cur.merge(rec.view);
        for (auto& s : rec.syncs) HB_ACQUIRE(s.p);
    } else {
        for (auto& s : rec.syncs) {
            bool have = false;
            for (auto& x : t.acq_syncs) have = have || x.p == s.p;
            if (!have) t.acq_syncs.push_back(s);
        }
        if (t.acq_syncs.size() > 256) {
            for (auto& s : t.acq_syncs) HB_ACQUIRE(s.p);
            t.acq_syncs.clear();
        }
    }
}

void append(VT& t, Raw* r, Loc* l, u64 val, int order, const Rec* pred, bool pred_acquired) {
    Rec rec{ val, View{}, {} };
    std::uint32_t idx = l->base + std::uint32_t(l->h.size());
    t.cur.raise(l->id, idx);
    t.acq.raise(l->id, idx);
    if (order == SEQ_CST) sc.raise(l->id, idx);
    if (releases(order)) {
        rec.view = t.cur;
        void* s = new_sync();
        HB_RELEASE(s);
        rec.syncs.push_back(Sync{ s });
    } else {
        rec.view = t.rel;
        rec.view.raise(l->id, idx);
        if (t.rel_sync) rec.syncs.push_back(Sync{ t.rel_sync });
    }
    if (pred) {
        rec.view.merge(pred->view);
        if (!(pred_acquired && releases(order))) {
            for (auto& s : pred->syncs) rec.syncs.push_back(s);
            if (rec.syncs.size() > 64) {
                for (auto& s : rec.syncs) HB_ACQUIRE(s.p);
                void* s = new_sync();
                HB_RELEASE(s);
                rec.syncs.clear();
                rec.syncs.push_back(Sync{ s });
            }
        }
    }
    l->wrote = n_steps;
    l->settled = false;
    l->h.push_back(static_cast<Rec&&>(rec));
    if (l->h.size() > history) {
        l->h.erase_first();
        l->base++;
    }
    r->val = val;
}

View& obj_view(void*& slot) {
    auto* o = static_cast<Obj*>(slot);
    if (!o) {
        o = make<Obj>();
        slot = o;
    }
    if (o->epoch != epoch) {
        o->epoch = epoch;
        o->view.v.clear();
        o->next_gc = 1000;
    }
    if (n_steps >= o->next_gc) {
        o->next_gc = n_steps + 1000;
        filter(o->view);
    }
    return o->view;
}

void in(void*& slot, void* addr) { // acquire
    auto& t = vt[me];
    t.cur.merge(obj_view(slot));
    t.acq.merge(t.cur);
    HB_ACQUIRE(addr);
}
void out(void*& slot, void* addr) { // release
    obj_view(slot).merge(vt[me].cur);
    HB_RELEASE(addr);
}

void thread_exit(void*) {
    // runs after the thread's thread_local objects are gone
    if (!running || me < 0) return;
    exiting = 1;
    auto& t = vt[me];
    t.state = FINISHED;
    wake(&t, true);
    step();
    int to = pick(false);
    transfer(to);
    me = -1;
}

} // namespace

// a change outside of a controlled run
static void forget(Raw* r) {
    if (auto* l = static_cast<Loc*>(r->loc)) {
        if (l->epoch == epoch && l->id <= locs.size()) locs[l->id - 1].p = nullptr;
        l->epoch = 0;
    }
}

// ---- atomics ----

u64 a_load(const Raw* cr, int order) {
    MARK(cr);
    auto* r = const_cast<Raw*>(cr);
    if (!on()) return r->val;
    sched_point();
    auto& t = vt[me];
    auto* l = loc_of(r);
    std::uint32_t newest = l->base + std::uint32_t(l->h.size()) - 1;
    std::uint32_t from = std::max(t.cur.get(l->id), l->base);
    if (order == SEQ_CST) from = std::max(from, sc.get(l->id));
    std::uint32_t idx = newest;
    if (!fair && from < newest && int(rnd() % 100) < P.stale_pct) {
        idx = from + std::uint32_t(rnd() % (newest - from + 1));
        if (t.last_loc == r && ++t.stale_in_row > 6) idx = newest;
        if (t.last_loc != r) t.stale_in_row = 0;
        t.last_loc = r;
        if (idx != newest) n_stale++;
    }
    auto& rec = l->h[idx - l->base];
    t.cur.raise(l->id, idx);
    t.acq.raise(l->id, idx);
    take(t, rec, acquires(order));
    return rec.val;
}

void a_store(Raw* r, u64 v, int order) {
    MARK(r);
    if (!on()) {
        r->val = v;
        forget(r);
        return;
    }
    sched_point();
    append(vt[me], r, loc_of(r), v, order, nullptr, false);
}

u64 a_rmw(Raw* r, u64 (*f)(u64, u64), u64 arg, int order) {
    MARK(r);
    if (!on()) {
        u64 old = r->val;
        r->val = f(old, arg);
        forget(r);
        return old;
    }
    sched_point();
    auto& t = vt[me];
    auto* l = loc_of(r);
    Rec pred = l->h.back();
    take(t, pred, acquires(order));
    append(t, r, l, f(pred.val, arg), order, &pred, acquires(order));
    return pred.val;
}

bool a_cas(Raw* r, u64* expected, u64 desired, int order, int fail_order, bool weak) {
    MARK(r);
    if (!on()) {
        if (r->val != *expected) {
            *expected = r->val;
            return false;
        }
        r->val = desired;
        forget(r);
        return true;
    }
    sched_point();
    auto& t = vt[me];
    auto* l = loc_of(r);
    Rec pred = l->h.back();
    std::uint32_t idx = l->base + std::uint32_t(l->h.size()) - 1;
    if (pred.val != *expected || (weak && !fair && rnd() % 16 == 0)) {
        t.cur.raise(l->id, idx);
        t.acq.raise(l->id, idx);
        take(t, pred, acquires(fail_order));
        *expected = pred.val;
        return false;
    }
    take(t, pred, acquires(order));
    append(t, r, l, desired, order, &pred, acquires(order));
    return true;
}

void a_wait(const Raw* cr, u64 old, int order) {
    auto* r = const_cast<Raw*>(cr);
    if (!on()) return;
    sched_point();
    while (r->val == old) block_on(r, false);
    auto& t = vt[me];
    auto* l = loc_of(r);
    std::uint32_t idx = l->base + std::uint32_t(l->h.size()) - 1;
    t.cur.raise(l->id, idx);
    t.acq.raise(l->id, idx);
    take(t, l->h.back(), acquires(order));
}

void a_notify(const Raw* r, bool all) {
    if (!on()) return;
    sched_point();
    wake(r, all);
}

void a_destroy(Raw* r) {
    auto* l = static_cast<Loc*>(r->loc);
    if (l && l->epoch == epoch && l->id <= locs.size()) locs[l->id - 1].p = nullptr;
    unmake(l);
    r->loc = nullptr;
}

void a_fence(int order) {
    if (!on()) return;
    sched_point();
    auto& t = vt[me];
    if (acquires(order)) {
        t.cur.merge(t.acq);
        for (auto& s : t.acq_syncs) HB_ACQUIRE(s.p);
        t.acq_syncs.clear();
    }
    if (order == SEQ_CST) {
        sc.merge(t.cur);
        t.cur.merge(sc);
        t.acq.merge(t.cur);
    }
    if (releases(order)) {
        t.rel = t.cur;
        t.rel_sync = new_sync();
        HB_RELEASE(t.rel_sync);
    }
}

void big_begin(const Raw* cr) {
    if (!on()) return;
    sched_point();
    auto* r = const_cast<Raw*>(cr);
    in(r->loc, r);
}
void big_end(const Raw* cr) {
    if (!on()) return;
    auto* r = const_cast<Raw*>(cr);
    out(r->loc, r);
}
void copy(void* to, const void* from, std::size_t n) {
    for (std::size_t i = 0; i < n; i++) static_cast<volatile char*>(to)[i] = static_cast<const volatile char*>(from)[i];
}

// ---- mutexes ----

void m_lock(RawMutex* m, bool recursive) {
    if (!on()) {
        m->depth++;
        m->owner = -2;
        return;
    }
    sched_point();
    if (recursive && m->owner == me) {
        m->depth++;
        return;
    }
    while (m->owner != -1 || m->readers) block_on(m, false);
    m->owner = me;
    m->depth = 1;
    in(m->view, m);
}

bool m_try_lock(RawMutex* m, bool recursive, bool timed) {
    if (!on()) {
        if (m->owner != -1 && !recursive) return false;
        m->depth++;
        m->owner = -2;
        return true;
    }
    sched_point();
    if (recursive && m->owner == me) {
        m->depth++;
        return true;
    }
    while (m->owner != -1 || m->readers) {
        if (!timed) return false;
        block_on(m, true);
        if (vt[me].timed_out) return false;
    }
    m->owner = me;
    m->depth = 1;
    in(m->view, m);
    return true;
}

void m_unlock(RawMutex* m) {
    if (!on()) {
        if (--m->depth <= 0) {
            m->depth = 0;
            m->owner = -1;
        }
        return;
    }
    if (--m->depth > 0) return;
    m->depth = 0;
    out(m->view, m);
    m->owner = -1;
    wake(m, true);
    sched_point();
}

void m_lock_shared(RawMutex* m) {
    if (!on()) {
        m->readers++;
        return;
    }
    sched_point();
    while (m->owner != -1) block_on(m, false);
    m->readers++;
    in(m->view, m);
}

bool m_try_lock_shared(RawMutex* m, bool timed) {
    if (!on()) {
        m->readers++;
        return true;
    }
    sched_point();
    while (m->owner != -1) {
        if (!timed) return false;
        block_on(m, true);
        if (vt[me].timed_out) return false;
    }
    m->readers++;
    in(m->view, m);
    return true;
}

void m_unlock_shared(RawMutex* m) {
    if (!on()) {
        m->readers--;
        return;
    }
    // readers release towards later writers; what this also orders between readers is not relied upon by them
    out(m->view, m);
    m->readers--;
    wake(m, true);
    sched_point();
}

void m_destroy(RawMutex* m) {
    unmake(static_cast<Obj*>(m->view));
    m->view = nullptr;
}

// ---- semaphores ----

void s_release(RawSem* s, std::ptrdiff_t n) {
    MARK(s);
    if (!on()) {
        s->count += n;
        return;
    }
    sched_point();
    out(s->view, s);
    s->count += n;
    wake(s, true);
}

void s_acquire(RawSem* s) {
    MARK(s);
    if (!on()) {
        s->count--;
        return;
    }
    sched_point();
    while (s->count <= 0) block_on(s, false);
    s->count--;
    in(s->view, s);
}

bool s_try_acquire(RawSem* s, bool timed) {
    MARK(s);
    if (!on()) {
        if (s->count <= 0) return false;
        s->count--;
        return true;
    }
    sched_point();
    while (s->count <= 0) {
        if (!timed) return false;
        block_on(s, true);
        if (vt[me].timed_out) return false;
    }
    s->count--;
    in(s->view, s);
    return true;
}

void s_destroy(RawSem* s) {
    unmake(static_cast<Obj*>(s->view));
    s->view = nullptr;
}

// ---- condition variables ----

bool c_wait(void* cv, void (*unlock)(void*), void (*lock)(void*), void* mutex, bool timed) {
    if (!on()) return !timed;
    auto& t = vt[me];
    if (rnd() % 50 == 0) { // spurious wakeup
        unlock(mutex);
        lock(mutex);
        return true;
    }
    // registered as waiting before the mutex is released: unlock() gives up the turn, and this thread gets it back
    // only once it has been notified or has timed out
    t.timed_out = false;
    t.waits = cv;
    t.state = timed ? TIMED : BLOCKED;
    unlock(mutex);
    if (t.state != RUNNABLE) {
        step();
        transfer(pick(false));
    }
    t.waits = nullptr;
    bool timeout = t.timed_out;
    lock(mutex);
    return !timeout;
}

void c_notify(void* cv, bool all) {
    if (!on()) return;
    sched_point();
    wake(cv, all);
}

// ---- threads ----

int t_create() {
    if (!on()) return -1;
    sched_point();
    if (nvt >= max_vt) {
        // reuse a finished one
        for (int i = 1; i < nvt; i++) {
            if (vt[i].state == FREE) {
                vt[i] = VT{};
                vt[i].state = RUNNABLE;
                vt[i].cur = vt[i].acq = vt[me].cur;
                vt[i].prio = long(rnd() % 1000);
                return i;
            }
        }
        fprintf(stderr, "sim: too many threads\n");
        _exit(3);
    }
    int i = nvt++;
    vt[i] = VT{};
    vt[i].state = RUNNABLE;
    vt[i].cur = vt[i].acq = vt[me].cur;
    vt[i].prio = long(rnd() % 1000);
    int alive = 0;
    for (int k = 0; k < nvt; k++) alive += vt[k].state != FINISHED && vt[k].state != FREE;
    most = std::max(most, alive);
    return i;
}

void t_start(int tid) {
    if (tid < 0) return;
    me = tid;
    exiting = 0;
    pthread_setspecific(exit_key, &vt[tid]);
    fwait(&vt[tid].futex);
}

void t_join(int tid) {
    if (!on() || tid < 0) return;
    sched_point();
    while (vt[tid].state != FINISHED) block_on(&vt[tid], false);
    vt[me].cur.merge(vt[tid].cur);
    vt[me].acq.merge(vt[tid].cur);
    vt[tid].state = FREE;
}

void yield() {
    if (!on()) return;
    if (P.strategy == 1) vt[me].prio = --low_prio;
    sched_point();
}

void point() {
    if (on()) sched_point();
}

unsigned hardware_concurrency() {
    return on() ? 1 + unsigned(rnd() % 4) : 3;
}

unsigned random() {
    return unsigned(rnd());
}

// ---- control ----

Params random_params(u64 seed) {
    rng_state = seed * 0x9e3779b97f4a7c15ull + 12345;
    Params p;
    p.seed = rnd();
    p.strategy = rnd() % 3 == 0;
    static const int dens[] = { 1, 2, 2, 4, 8, 20, 60 };
    p.switch_den = dens[rnd() % 7];
    p.change_points = 1 + int(rnd() % 6);
    static const int exps[] = { 100, 400, 1500, 6000 };
    p.expected_steps = exps[rnd() % 4];
    static const int st[] = { 0, 5, 20, 50, 80 };
    p.stale_pct = st[rnd() % 5];
    return p;
}

void begin(const Params& p) {
    if (!key_made) {
        pthread_key_create(&exit_key, thread_exit);
        key_made = true;
    }
    P = p;
    rng_state = p.seed;
    epoch++;
    n_steps = n_switches = n_stale = 0;
    hash_state = 0xcbf29ce484222325ull;
    next_loc = 0;
    locs.clear();
    next_gc = 1000;
    sc.v.clear();
    fair = false;
    low_prio = 0;
    nvt = 1;
    most = 1;
    vt[0] = VT{};
    vt[0].state = RUNNABLE;
    vt[0].prio = long(rnd() % 1000);
    me = 0;
    change_points.clear();
    for (int i = 0; i < p.change_points; i++) change_points.push_back(Change{ 1 + rnd() % u64(p.expected_steps) });
    for (std::size_t i = 0; i < change_points.size(); i++)
        for (std::size_t j = i + 1; j < change_points.size(); j++)
            if (change_points[i].at < change_points[j].at) {
                auto x = change_points[i].at;
                change_points[i].at = change_points[j].at;
                change_points[j].at = x;
            }
    events.clear();
    running = true;
}

void end() {
    // everything still running may finish first
    for (;;) {
        bool others = false;
        for (int i = 1; i < nvt; i++) others = others || (vt[i].state != FINISHED && vt[i].state != FREE);
        if (!others) break;
        fair = true;
        step();
        vt[0].state = BLOCKED;
        vt[0].waits = nullptr;
        bool any = false;
        for (int i = 1; i < nvt; i++) any = any || vt[i].state == RUNNABLE || vt[i].state == TIMED;
        vt[0].state = RUNNABLE;
        if (!any) stuck("deadlock: threads left behind wait forever");
        int to = pick(false);
        transfer(to);
    }
    running = false;
    me = -1;
}

bool active() {
    return running;
}
int self() {
    return me;
}
u64 steps() {
    return n_steps;
}
u64 switches() {
    return n_switches;
}
u64 stale_loads() {
    return n_stale;
}
u64 schedule_hash() {
    return hash_state;
}
int max_threads() {
    return most;
}

void log(int kind, u64 a, u64 b) {
    events.push_back(LogEntry{ Event{ me, kind, a, b } });
}
std::size_t log_size() {
    return events.size();
}
Event log_at(std::size_t i) {
    return events[i].e;
}
void log_clear() {
    events.clear();
}

} // namespace sim

// ---- function-local statics ----
// A thread must not really block in another one's initialiser while it holds the turn.

extern "C" {

int __cxa_guard_acquire(unsigned char* g) {
    using namespace sim;
    if (__atomic_load_n(g, __ATOMIC_ACQUIRE)) {
        HB_ACQUIRE(g);
        return 0;
    }
    if (running && me >= 0) {
        while (g[1]) {
            if (exiting) break;
            block_on(g, false);
        }
        if (g[0]) {
            HB_ACQUIRE(g);
            return 0;
        }
    }
    g[1] = 1;
    return 1;
}

void __cxa_guard_release(unsigned char* g) {
    using namespace sim;
    HB_RELEASE(g);
    g[1] = 0;
    __atomic_store_n(g, 1, __ATOMIC_RELEASE);
    if (running && me >= 0) wake(g, true);
}

void __cxa_guard_abort(unsigned char* g) {
    using namespace sim;
    g[1] = 0;
    if (running && me >= 0) wake(g, true);
}
}
