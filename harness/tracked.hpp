// A value type that follows every one of its instances: construction over a live instance, use or destruction of something
// that is not alive, lost instances.
#pragma once
#include "vf.hpp"

namespace vf {

struct Tracker {
    std::unordered_map<const void*, int> live; // address -> type
    const char* prop = "C16";
    u64 constructions = 0;
    void bad(const char* key, const char* what) {
        report(prop, key, what); // raised from special members: must not throw
    }
    void construct(const void* p, int type) {
        constructions++;
        auto [i, fresh] = live.emplace(p, type);
        if (!fresh) bad("constructed-twice", "an element was constructed over a live one");
    }
    void destroy(const void* p, int type) {
        auto i = live.find(p);
        if (i == live.end() || i->second != type) {
            bad("destroyed-dead", "something that is not a live element was destroyed");
            return;
        }
        live.erase(i);
    }
    void use(const void* p, int type) {
        auto i = live.find(p);
        if (i == live.end() || i->second != type) bad("used-dead", "something that is not a live element was used");
    }
};

inline Tracker tracker;

constexpr u64 MOVED = 0xdeadull << 40;

template<int Type>
struct Tracked {
    u64 v = 0;
    u64* heap; // an owned resource: byte-wise copies, leaks and double frees show
    Tracked() : heap(new u64(0)) {
        tracker.construct(this, Type);
    }
    Tracked(u64 x) : v(x), heap(new u64(x)) {
        tracker.construct(this, Type);
    }
    Tracked(u64 x, u64 y) : Tracked(x + y) {
    }
    Tracked(const Tracked& o) : v(o.get()), heap(new u64(v)) {
        tracker.construct(this, Type);
    }
    Tracked(Tracked&& o) noexcept : v(o.v), heap(o.heap) {
        tracker.use(&o, Type);
        o.heap = nullptr;
        o.v = MOVED;
        tracker.construct(this, Type);
    }
    Tracked& operator=(const Tracked& o) {
        tracker.use(this, Type);
        u64 x = o.get();
        delete heap;
        heap = new u64(x);
        v = x;
        return *this;
    }
    Tracked& operator=(Tracked&& o) noexcept {
        tracker.use(this, Type);
        tracker.use(&o, Type);
        if (this == &o) return *this;
        delete heap;
        heap = o.heap;
        v = o.v;
        o.heap = nullptr;
        o.v = MOVED;
        return *this;
    }
    ~Tracked() {
        tracker.destroy(this, Type);
        delete heap;
        heap = reinterpret_cast<u64*>(16);
    }
    u64 get() const {
        tracker.use(this, Type);
        return heap ? *heap : v;
    }
    bool operator==(const Tracked& o) const {
        return get() == o.get();
    }
    bool operator<(const Tracked& o) const {
        return get() < o.get();
    }
};

} // namespace vf
