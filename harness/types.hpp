// Component types with instrumented special members, and the ledger that follows every instance's life.
#pragma once
#include "vf.hpp"

#include <array>
#include <cstdlib>
#include <initializer_list>
#include <memory>
#include <new>
#include <utility>

namespace vf {

struct Boom {
    int why;
};

struct ThrowArg {
    u64 v;
};

constexpr u64 POISON = 0xBADBADBADBADBAD0ull;

// ---- ledger --------------------------------------------------------------------------------------------------------

struct LedgerRec {
    int type;
    std::size_t size;
    bool moved;
};

struct Ledger {
    std::mutex m;
    bool locked = false; // set by multi threaded users
    std::map<std::uintptr_t, LedgerRec> live;
    std::map<std::pair<std::uintptr_t, int>, bool> live_empty; // instances of empty types may share an address
    u64 ctor = 0, dtor = 0, copies = 0, moves = 0, assigns = 0;

    struct Guard {
        Ledger& l;
        bool on;
        explicit Guard(Ledger& l) : l(l), on(l.locked) {
            if (on) l.m.lock();
        }
        ~Guard() {
            if (on) l.m.unlock();
        }
    };

    // All ledger findings concern object lifetimes, and must not throw: they are raised inside special members
    void construct(const void* p, int type, std::size_t size, std::size_t align, bool empty, bool moved) {
        Guard g(*this);
        ctor++;
        auto a = reinterpret_cast<std::uintptr_t>(p);
        if (a % align) {
            report("C04", "construct-misaligned", fmt("type %d constructed at misaligned address (align %zu)", type, align));
        }
        if (empty) {
            auto [i, ins] = live_empty.emplace(std::pair{ a, type }, moved);
            if (!ins) {
                report("C04", "construct-over-live", fmt("empty type %d constructed over a live instance", type));
                i->second = moved;
            }
            return;
        }
        auto i = live.lower_bound(a);
        bool bad = false;
        if (i != live.end() && i->first < a + size) bad = true;
        if (i != live.begin()) {
            auto j = std::prev(i);
            if (j->first + j->second.size > a) bad = true;
        }
        if (bad) {
            report("C04", "construct-over-live", fmt("type %d constructed over a live component object", type));
        }
        live[a] = LedgerRec{ type, size, moved };
    }

    bool destroy(const void* p, int type, bool empty) {
        Guard g(*this);
        dtor++;
        auto a = reinterpret_cast<std::uintptr_t>(p);
        if (empty) {
            if (!live_empty.erase({ a, type })) {
                report("C04", "destroy-dead", fmt("destructor of empty type %d run on a dead object", type));
                return false;
            }
            return true;
        }
        auto i = live.find(a);
        if (i == live.end() || i->second.type != type) {
            report("C04", "destroy-dead", fmt("destructor of type %d run on a dead object or twice", type));
            return false;
        }
        live.erase(i);
        return true;
    }

    // 0 dead, 1 live, 2 live but moved from
    int state(const void* p, int type, bool empty) {
        Guard g(*this);
        auto a = reinterpret_cast<std::uintptr_t>(p);
        if (empty) {
            auto i = live_empty.find({ a, type });
            return i == live_empty.end() ? 0 : i->second ? 2 : 1;
        }
        auto i = live.find(a);
        return i == live.end() || i->second.type != type ? 0 : i->second.moved ? 2 : 1;
    }

    void set_moved(const void* p, int type, bool empty, bool moved) {
        Guard g(*this);
        auto a = reinterpret_cast<std::uintptr_t>(p);
        if (empty) {
            auto i = live_empty.find({ a, type });
            if (i != live_empty.end()) i->second = moved;
            return;
        }
        auto i = live.find(a);
        if (i != live.end() && i->second.type == type) i->second.moved = moved;
    }

    std::size_t size() {
        Guard g(*this);
        return live.size() + live_empty.size();
    }

    void reset() {
        Guard g(*this);
        live.clear();
        live_empty.clear();
    }
};

inline Ledger ledger;

inline int throw_copy_in = -1; // the n-th copy of a throwing type throws, -1: none does

inline void maybe_throw_copy() {
    if (throw_copy_in >= 0 && throw_copy_in-- == 0) {
        throw Boom{ 1 };
    }
}

// ---- tracked component ---------------------------------------------------------------------------------------------

enum : unsigned {
    F_COPY = 1,
    F_SELF = 2,      // stores its own address
    F_HEAP = 4,      // owns memory
    F_THROW = 8,     // copy constructor may throw
};

template<int N, std::size_t S, std::size_t A, unsigned F>
struct alignas(A) Trk {
    static constexpr std::size_t heap_off = (F & F_SELF) ? 8 : 0;
    static constexpr std::size_t val_off = heap_off + ((F & F_HEAP) ? 8 : 0);
    static constexpr std::size_t val_len = S - val_off < 8 ? S - val_off : 8;
    static_assert(S > val_off && S % A == 0);
    static constexpr u64 mask = val_len == 8 ? ~0ull : (1ull << (8 * val_len)) - 1;

    unsigned char b[S];

    Trk() : Trk(u64{ 0 }) {
    }
    explicit Trk(const u64& v) {
        u64 copy = v;
        ledger.construct(this, N, S, A, false, false);
        init(copy);
    }
    explicit Trk(ThrowArg a) {
        // fails half way through
        (void)a;
        throw Boom{ 0 };
    }
    Trk(const Trk& o) noexcept(!(F & F_THROW)) requires(bool(F & F_COPY)) {
        if constexpr (bool(F & F_THROW)) {
            maybe_throw_copy();
        }
        check_source(o, "copy constructed from");
        if (ledger.state(&o, N, false) == 2) {
            report("C04", "copy-of-moved-from", fmt("type %d copied from a moved-from object", N));
        }
        ledger.copies++;
        ledger.construct(this, N, S, A, false, false);
        init(o.value());
    }
    Trk(Trk&& o) noexcept {
        bool live = check_source(o, "move constructed from");
        ledger.moves++;
        ledger.construct(this, N, S, A, false, live && ledger.state(&o, N, false) == 2);
        take(o, live);
    }
    Trk& operator=(const Trk& o) requires(bool(F & F_COPY)) {
        if (this != &o) {
            bool self_live = check_target("copy assigned to");
            check_source(o, "copy assigned from");
            ledger.copies++;
            u64 v = o.value();
            if (self_live) drop();
            init(v);
            ledger.set_moved(this, N, false, false);
        }
        return *this;
    }
    Trk& operator=(Trk&& o) noexcept {
        if (this != &o) {
            bool self_live = check_target("move assigned to");
            bool live = check_source(o, "move assigned from");
            ledger.assigns++;
            if (self_live) drop();
            bool moved = live && ledger.state(&o, N, false) == 2;
            take(o, live);
            ledger.set_moved(this, N, false, moved);
        }
        return *this;
    }
    ~Trk() {
        if (ledger.destroy(this, N, false)) {
            drop();
        }
        std::memset(b, 0xDE, S);
    }

    // What a user of the component sees: POISON if it is not intact
    u64 read() const {
        int st = ledger.state(this, N, false);
        if (st == 0) {
            report("C04", "observed-dead", fmt("type %d: a component that was never constructed is observable", N));
            return POISON;
        }
        if (st == 2) {
            report("C04", "observed-moved-from", fmt("type %d: a moved-from component is observable", N));
            return POISON;
        }
        return value();
    }

private:
    static unsigned char pattern(u64 v, std::size_t i) {
        return static_cast<unsigned char>((v * 31 + i * 7) ^ (v >> 3) ^ N);
    }
    void init(u64 v) {
        v &= mask;
        if constexpr (bool(F & F_SELF)) {
            const void* self = this;
            std::memcpy(b, &self, 8);
        }
        if constexpr (bool(F & F_HEAP)) {
            u64* h = new u64(v);
            std::memcpy(b + heap_off, &h, 8);
        }
        std::memcpy(b + val_off, &v, val_len);
        for (std::size_t i = val_off + val_len; i < S; i++) {
            b[i] = pattern(v, i);
        }
    }
    void drop() {
        if constexpr (bool(F & F_HEAP)) {
            u64* h;
            std::memcpy(&h, b + heap_off, 8);
            delete h;
        }
    }
    void take(Trk& o, bool live) {
        if (!live) {
            init(0);
            return;
        }
        u64 v = 0;
        std::memcpy(b, o.b, S);
        std::memcpy(&v, b + val_off, val_len);
        if constexpr (bool(F & F_SELF)) {
            const void *self = this, *theirs;
            std::memcpy(&theirs, o.b, 8);
            if (theirs != &o) {
                report("C04", "relocated-bytewise", fmt("type %d: self pointer does not point to the object", N));
            }
            std::memcpy(b, &self, 8);
        }
        // leave a recognisably dead value behind
        std::memset(o.b + val_off, 0xDD, S - val_off);
        if constexpr (bool(F & F_HEAP)) {
            u64* none = nullptr;
            std::memcpy(o.b + heap_off, &none, 8);
        }
        ledger.set_moved(&o, N, false, true);
    }
    bool check_source(const Trk& o, const char* what) const {
        if (!ledger.state(&o, N, false)) {
            report("C04", "use-of-dead", fmt("type %d %s a dead object", N, what));
            return false;
        }
        return true;
    }
    bool check_target(const char* what) {
        if (!ledger.state(this, N, false)) {
            report("C04", "use-of-dead", fmt("type %d %s a dead object", N, what));
            ledger.construct(this, N, S, A, false, false);
            return false;
        }
        return true;
    }
    u64 value() const {
        u64 v = 0;
        std::memcpy(&v, b + val_off, val_len);
        for (std::size_t i = val_off + val_len; i < S; i++) {
            if (b[i] != pattern(v, i)) return POISON;
        }
        if constexpr (bool(F & F_SELF)) {
            const void* self;
            std::memcpy(&self, b, 8);
            if (self != this) {
                report("C04", "relocated-bytewise", fmt("type %d: self pointer does not point to the object", N));
                return POISON;
            }
        }
        if constexpr (bool(F & F_HEAP)) {
            u64* h;
            std::memcpy(&h, b + heap_off, 8);
            if (!h || *h != v) return POISON;
        }
        return v;
    }
};

template<int N>
struct EmptyTrk {
    EmptyTrk() {
        ledger.construct(this, N, 1, 1, true, false);
    }
    explicit EmptyTrk(const u64&) : EmptyTrk() {
    }
    explicit EmptyTrk(ThrowArg) {
        throw Boom{ 0 };
    }
    EmptyTrk(const EmptyTrk& o) {
        src(o);
        ledger.copies++;
        ledger.construct(this, N, 1, 1, true, false);
    }
    EmptyTrk(EmptyTrk&& o) noexcept {
        src(o);
        ledger.moves++;
        ledger.construct(this, N, 1, 1, true, false);
        ledger.set_moved(&o, N, true, true);
    }
    EmptyTrk& operator=(const EmptyTrk& o) {
        src(o);
        src(*this);
        ledger.copies++;
        return *this;
    }
    EmptyTrk& operator=(EmptyTrk&& o) noexcept {
        src(o);
        src(*this);
        ledger.set_moved(&o, N, true, true);
        ledger.set_moved(this, N, true, false);
        return *this;
    }
    ~EmptyTrk() {
        ledger.destroy(this, N, true);
    }
    u64 read() const {
        int st = ledger.state(this, N, true);
        if (st != 1) {
            report("C04", st ? "observed-moved-from" : "observed-dead", fmt("empty type %d observable outside its life", N));
            return POISON;
        }
        return 0;
    }

private:
    static void src(const EmptyTrk& o) {
        if (!ledger.state(&o, N, true)) {
            report("C04", "use-of-dead", fmt("special member of empty type %d applied to a dead object", N));
        }
    }
};

// ---- untracked components ------------------------------------------------------------------------------------------

struct Tag {};

template<int N, typename U>
struct Pod {
    U v;
};

template<int N, std::size_t S>
struct Bytes {
    unsigned char b[S];
};

struct Str {
    std::string s;
};

// Owned by components, counts its instances
struct Cnt {
    u64 v;
    static inline long alive = 0;
    explicit Cnt(u64 v) : v(v) {
        alive++;
    }
    Cnt(const Cnt&) = delete;
    ~Cnt() {
        alive--;
    }
};

struct UPtr {
    std::unique_ptr<Cnt> p;
};

struct SPtr {
    std::shared_ptr<Cnt> p;
};

struct Poly {
    Poly() = default;
    explicit Poly(u64 v) : v(v) {
    }
    Poly(const Poly&) = default;
    Poly(Poly&& o) noexcept : v(std::exchange(o.v, POISON)) {
    }
    Poly& operator=(const Poly&) = default;
    Poly& operator=(Poly&& o) noexcept {
        v = std::exchange(o.v, POISON);
        return *this;
    }
    virtual ~Poly() {
        v = POISON;
    }
    virtual u64 get() const {
        return v;
    }
    u64 v = 0;
};

// Types with unusual special members

// Trivially destructible, but its objects know where they are
struct SelfTriv {
    const void* self;
    u64 v;
    explicit SelfTriv(u64 v) : self(this), v(v) {
    }
    SelfTriv(const SelfTriv& o) : self(this), v(o.get()) {
    }
    SelfTriv(SelfTriv&& o) noexcept : self(this), v(o.get()) {
        o.v = POISON;
    }
    SelfTriv& operator=(const SelfTriv& o) {
        u64 n = o.get();
        v = self == this ? n : get();
        return *this;
    }
    SelfTriv& operator=(SelfTriv&& o) noexcept {
        u64 n = o.get();
        o.v = POISON;
        v = self == this ? n : get();
        return *this;
    }
    u64 get() const {
        if (self == this) return v;
        report("C04", "relocated-bytewise", "a trivially destructible component that stores its address does not know it");
        return POISON;
    }
};
static_assert(std::is_trivially_destructible_v<SelfTriv>);

// Can only be moved; no default constructor, address or allocation
struct MoveOnly final {
    u64 v;
    explicit MoveOnly(u64 v) : v(v) {
    }
    MoveOnly(MoveOnly&& o) noexcept : v(std::exchange(o.v, POISON)) {
    }
    MoveOnly& operator=(MoveOnly&& o) noexcept {
        v = std::exchange(o.v, POISON);
        return *this;
    }
    void operator&() const = delete;
    static void* operator new(std::size_t) = delete;
    static void operator delete(void*) = delete;
};

// Braces and parentheses mean different things
struct Listy {
    u64 v;
    explicit Listy(u64 v) : v(v) {
    }
    Listy(std::initializer_list<u64> l) : v(POISON - l.size()) {
    }
};

// Can be made of anything, a non-constant object of its own type included
struct Greedy {
    u64 v;
    template<typename U>
    explicit Greedy(U&& u) {
        if constexpr (std::is_same_v<std::remove_cvref_t<U>, Greedy>) v = POISON;
        else v = u;
    }
    Greedy(const Greedy&) = default;
    Greedy(Greedy&&) = default;
    Greedy& operator=(const Greedy&) = default;
    Greedy& operator=(Greedy&&) = default;
};

// Operators that surprise
struct Oddball {
    std::uint32_t v;
    std::uint16_t w;
    template<typename X>
    int operator,(X&&) const {
        std::abort();
    }
    Oddball* operator&() {
        return nullptr;
    }
    const Oddball* operator&() const {
        return nullptr;
    }
    bool operator==(const Oddball&) const = delete;
};
template<typename X>
int operator,(X&&, const Oddball&) {
    std::abort();
}

// Aggregate with a default
struct Agg {
    u64 v;
    std::uint32_t check = 0x77;
    std::array<u64, 2> more{ 5, 6 };
};

// Can be copied, but not assigned a copy
struct NoCopyAssign {
    u64 v;
    explicit NoCopyAssign(u64 v) : v(v) {
    }
    NoCopyAssign(const NoCopyAssign&) = default;
    NoCopyAssign(NoCopyAssign&& o) noexcept : v(std::exchange(o.v, POISON)) {
    }
    NoCopyAssign& operator=(const NoCopyAssign&) = delete;
    NoCopyAssign& operator=(NoCopyAssign&& o) noexcept {
        v = std::exchange(o.v, POISON);
        return *this;
    }
};

// Virtual base, base class that is a component itself
struct VBase {
    u64 a = 0;
    virtual ~VBase() = default;
};
struct Derived : Pod<28, u64>, virtual VBase {
    explicit Derived(u64 v) : Pod<28, u64>{ v } {
        a = ~v;
    }
    Derived(const Derived&) = default;
    Derived(Derived&& o) noexcept : Pod<28, u64>(o), VBase(o) {
        o.a = 0;
    }
    Derived& operator=(const Derived&) = default;
    Derived& operator=(Derived&& o) noexcept {
        this->v = o.v;
        a = o.a;
        o.a = 0;
        return *this;
    }
};

template<int I>
struct Dummy {
    char c;
};

// ---- uniform access ------------------------------------------------------------------------------------------------

template<typename T>
struct Traits;

template<int N, std::size_t S, std::size_t A, unsigned F>
struct Traits<Trk<N, S, A, F>> {
    using T = Trk<N, S, A, F>;
    static constexpr bool tracked = true, copyable = bool(F & F_COPY), throwing = bool(F & F_THROW), from_u64 = true;
    static T make(u64 v) {
        return T(v);
    }
    static u64 canon(u64 v) {
        return v & T::mask;
    }
    static u64 read(const T& t) {
        return t.read();
    }
};
template<int N>
struct Traits<EmptyTrk<N>> {
    static constexpr bool tracked = true, copyable = true, throwing = false, from_u64 = true;
    static EmptyTrk<N> make(u64) {
        return EmptyTrk<N>();
    }
    static u64 canon(u64) {
        return 0;
    }
    static u64 read(const EmptyTrk<N>& t) {
        return t.read();
    }
};
template<>
struct Traits<Tag> {
    static constexpr bool tracked = false, copyable = true, throwing = false, from_u64 = false;
    static Tag make(u64) {
        return {};
    }
    static u64 canon(u64) {
        return 0;
    }
    static u64 read(const Tag&) {
        return 0;
    }
};
template<int N, typename U>
struct Traits<Pod<N, U>> {
    static constexpr bool tracked = false, copyable = true, throwing = false, from_u64 = false;
    static Pod<N, U> make(u64 v) {
        return { static_cast<U>(v) };
    }
    static u64 canon(u64 v) {
        return static_cast<u64>(static_cast<U>(v));
    }
    static u64 read(const Pod<N, U>& t) {
        return static_cast<u64>(t.v);
    }
};
template<int N, std::size_t S>
struct Traits<Bytes<N, S>> {
    static constexpr bool tracked = false, copyable = true, throwing = false, from_u64 = false;
    static constexpr std::size_t L = S < 8 ? S : 8;
    static Bytes<N, S> make(u64 v) {
        Bytes<N, S> r;
        for (std::size_t i = 0; i < S; i++) r.b[i] = static_cast<unsigned char>(v >> (8 * (i % L)));
        return r;
    }
    static u64 canon(u64 v) {
        return L == 8 ? v : v & ((1ull << (8 * L)) - 1);
    }
    static u64 read(const Bytes<N, S>& t) {
        u64 v = 0;
        std::memcpy(&v, t.b, L);
        for (std::size_t i = 0; i < S; i++) {
            if (t.b[i] != static_cast<unsigned char>(v >> (8 * (i % L)))) return POISON;
        }
        return v;
    }
};
template<>
struct Traits<Str> {
    static constexpr bool tracked = false, copyable = true, throwing = false, from_u64 = false;
    static Str make(u64 v) {
        std::string s = std::to_string(v);
        if (v & 1) s += std::string(40, 'x');
        return { std::move(s) };
    }
    static u64 canon(u64 v) {
        return v;
    }
    static u64 read(const Str& t) {
        if (t.s.empty()) return POISON;
        u64 v = std::strtoull(t.s.c_str(), nullptr, 10);
        return make(v).s == t.s ? v : POISON;
    }
};
template<>
struct Traits<UPtr> {
    static constexpr bool tracked = false, copyable = false, throwing = false, from_u64 = false;
    static UPtr make(u64 v) {
        return { std::make_unique<Cnt>(v) };
    }
    static u64 canon(u64 v) {
        return v;
    }
    static u64 read(const UPtr& t) {
        return t.p ? t.p->v : POISON;
    }
};
template<>
struct Traits<SPtr> {
    static constexpr bool tracked = false, copyable = true, throwing = false, from_u64 = false;
    static SPtr make(u64 v) {
        return { std::make_shared<Cnt>(v) };
    }
    static u64 canon(u64 v) {
        return v;
    }
    static u64 read(const SPtr& t) {
        return t.p ? t.p->v : POISON;
    }
};
template<>
struct Traits<Poly> {
    static constexpr bool tracked = false, copyable = true, throwing = false, from_u64 = true;
    static Poly make(u64 v) {
        return Poly(v);
    }
    static u64 canon(u64 v) {
        return v;
    }
    static u64 read(const Poly& t) {
        return t.get();
    }
};
template<>
struct Traits<SelfTriv> {
    static constexpr bool tracked = false, copyable = true, throwing = false, from_u64 = true;
    static SelfTriv make(u64 v) {
        return SelfTriv(v);
    }
    static u64 canon(u64 v) {
        return v;
    }
    static u64 read(const SelfTriv& t) {
        return t.get();
    }
};
template<>
struct Traits<MoveOnly> {
    static constexpr bool tracked = false, copyable = false, throwing = false, from_u64 = true;
    static MoveOnly make(u64 v) {
        return MoveOnly(v);
    }
    static u64 canon(u64 v) {
        return v;
    }
    static u64 read(const MoveOnly& t) {
        return t.v;
    }
};
template<>
struct Traits<Listy> {
    static constexpr bool tracked = false, copyable = true, throwing = false, from_u64 = true;
    static Listy make(u64 v) {
        return Listy(v);
    }
    static u64 canon(u64 v) {
        return v;
    }
    static u64 read(const Listy& t) {
        return t.v;
    }
};
template<>
struct Traits<Greedy> {
    static constexpr bool tracked = false, copyable = true, throwing = false, from_u64 = true;
    static Greedy make(u64 v) {
        return Greedy(v);
    }
    static u64 canon(u64 v) {
        return v;
    }
    static u64 read(const Greedy& t) {
        return t.v;
    }
};
template<>
struct Traits<Oddball> {
    static constexpr bool tracked = false, copyable = true, throwing = false, from_u64 = false;
    static Oddball make(u64 v) {
        return { std::uint32_t(v), std::uint16_t(v * 3) };
    }
    static u64 canon(u64 v) {
        return std::uint32_t(v);
    }
    static u64 read(const Oddball& t) {
        return t.w == std::uint16_t(t.v * 3) ? t.v : POISON;
    }
};
template<>
struct Traits<Agg> {
    static constexpr bool tracked = false, copyable = true, throwing = false, from_u64 = true;
    static Agg make(u64 v) {
        return Agg{ v };
    }
    static u64 canon(u64 v) {
        return v;
    }
    static u64 read(const Agg& t) {
        return t.check == 0x77 && t.more[0] == 5 && t.more[1] == 6 ? t.v : POISON;
    }
};
template<>
struct Traits<NoCopyAssign> {
    static constexpr bool tracked = false, copyable = true, throwing = false, from_u64 = true;
    static NoCopyAssign make(u64 v) {
        return NoCopyAssign(v);
    }
    static u64 canon(u64 v) {
        return v;
    }
    static u64 read(const NoCopyAssign& t) {
        return t.v;
    }
};
template<>
struct Traits<Derived> {
    static constexpr bool tracked = false, copyable = true, throwing = false, from_u64 = true;
    static Derived make(u64 v) {
        return Derived(v);
    }
    static u64 canon(u64 v) {
        return v;
    }
    static u64 read(const Derived& t) {
        return t.a == ~t.v ? t.v : POISON;
    }
};
template<int I>
struct Traits<Dummy<I>> {
    static constexpr bool tracked = false, copyable = true, throwing = false, from_u64 = false;
    static Dummy<I> make(u64 v) {
        return { static_cast<char>(v) };
    }
    static u64 canon(u64 v) {
        return static_cast<unsigned char>(v);
    }
    static u64 read(const Dummy<I>& t) {
        return static_cast<unsigned char>(t.c);
    }
};

} // namespace vf
