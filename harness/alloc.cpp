// Monitor for the arena allocators (C18): random allocation histories over buffers of all sizes and misalignments; every
// outstanding allocation is an interval filled with its own pattern.
#include "vf.hpp"
#include <cassert>
#include <cstddef>
#include <memory>
#include <optional>
#include <thread>
#include <utility>
#include <co_ecs/detail/allocator/linear_allocator.hpp>
#include <co_ecs/detail/allocator/stack_allocator.hpp>
#include <co_ecs/detail/allocator/temp_allocator.hpp>

namespace vf {

using co_ecs::detail::linear_allocator;
using co_ecs::detail::stack_allocator;
using co_ecs::detail::temp_allocator;

std::vector<std::string> trail;

struct Buffer {
    std::size_t off, size;
    std::unique_ptr<unsigned char[]> mem; // ends exactly where the buffer ends
    Buffer(std::size_t off, std::size_t size) : off(off), size(size), mem(new unsigned char[off + size]) {
        for (std::size_t i = 0; i < off; i++) mem[i] = (unsigned char)(i * 7 + 3);
    }
    unsigned char* begin() {
        return mem.get() + off;
    }
    void check_front() {
        for (std::size_t i = 0; i < off; i++) {
            if (mem[i] != (unsigned char)(i * 7 + 3)) violation("C18", "outside", "memory before the buffer was written to");
        }
    }
};

struct Block {
    unsigned char* p;
    std::size_t n;
    unsigned char tag;
    std::size_t before; // remaining space before it was allocated
};

void fill(const Block& b) {
    memset(b.p, b.tag, b.n);
}

void verify(const char* prop, const Block& b) {
    for (std::size_t i = 0; i < b.n; i++) {
        if (b.p[i] != b.tag) violation(prop, "overwritten", fmt("byte %zu of an outstanding allocation of %zu bytes was overwritten", i, b.n));
    }
}

void verify_all(const std::vector<Block>& bs) {
    for (auto& b : bs) verify("C18", b);
}

void check_block(Buffer& buf, const std::vector<Block>& bs, void* q, std::size_t n, std::size_t align) {
    auto* p = static_cast<unsigned char*>(q);
    if (reinterpret_cast<std::uintptr_t>(p) % align) violation("C18", "misaligned", fmt("allocation of %zu bytes is not aligned to %zu", n, align));
    auto a = reinterpret_cast<std::uintptr_t>(p), lo = reinterpret_cast<std::uintptr_t>(buf.begin());
    if (a < lo || a > lo + buf.size || n > lo + buf.size - a) {
        violation("C18", "outside", fmt("allocation of %zu bytes (alignment %zu) lies outside of the buffer of %zu bytes: offset %lld", n, align, buf.size, (long long)(a - lo)));
    }
    for (auto& b : bs) {
        if (b.n && n && p < b.p + b.n && b.p < p + n) violation("C18", "overlap", fmt("allocation of %zu bytes overlaps an outstanding one of %zu bytes", n, b.n));
    }
    count("allocations");
}

unsigned greed = 10; // one request in that many goes to the limits

std::size_t some_size(Rng& r, std::size_t left) {
    if (!r.chance(1, greed)) return r.below(r.chance(1, 3) ? 200 : 30);
    switch (r.below(12)) {
    case 0: return 0;
    case 1: return left;
    case 2: return left ? left - 1 : 1;
    case 3: return left + 1;
    case 4: return left > 20 ? left - r.below(20) : left;
    case 5: return ~std::size_t(0) - r.below(300);
    case 6: return r.below(left + 10);
    default: return r.below(40);
    }
}

Buffer some_buffer(Rng& r) {
    static const std::size_t sizes[] = { 0, 1, 2, 3, 8, 17, 64, 100, 256, 1024, 4096, 60000 };
    std::size_t n = sizes[r.below(12)];
    if (r.chance(1, 2)) n += r.below(n / 2 + 2);
    return Buffer(r.below(3) ? r.below(130) : 0, n);
}

void run_linear(Rng& r) {
    std::vector<Buffer> bufs;
    bufs.push_back(some_buffer(r));
    bufs.push_back(some_buffer(r));
    std::optional<linear_allocator> a[2];
    std::vector<Block> bs[2];
    int of[2] = { 0, 1 }; // allocator -> buffer
    for (int i = 0; i < 2; i++) a[i].emplace(bufs[i].begin(), bufs[i].size);
    std::size_t used[2] = { 0, 0 }; // upper bound of what is used, per buffer: end of the last block
    int ops = int(r.range(5, 120));
    u64 shape = 0;
    for (int op = 0; op < ops; op++) {
        int i = int(r.below(2));
        int b = of[i];
        if (b < 0) continue;
        Buffer& buf = bufs[b];
        switch (r.below(10)) {
        case 0:
            if (r.chance(1, 3)) {
                trail.push_back("reset");
                a[i]->reset();
                bs[b].clear();
                used[b] = 0;
                if (r.chance(1, 2) && buf.size) {
                    void* p = a[i]->allocate(buf.size, 1);
                    if (p != buf.begin()) violation("C18", "reset", "the whole buffer is not available after reset");
                    a[i]->reset();
                }
            }
            break;
        case 1:
            if (r.chance(1, 3)) {
                trail.push_back("move");
                if (r.chance(1, 2)) {
                    linear_allocator t(std::move(*a[i]));
                    a[i].emplace(std::move(t));
                } else {
                    linear_allocator t(nullptr, 0);
                    t = std::move(*a[i]);
                    *a[i] = std::move(t);
                }
            }
            break;
        default: {
            std::size_t align = std::size_t(1) << r.below(r.chance(1, 4) ? 13 : 8);
            std::size_t left = buf.size - used[b];
            std::size_t n = some_size(r, left);
            trail.push_back(fmt("linear allocate %zu alignment %zu, at most %zu left of %zu", n, align, left, buf.size));
            bool plain = r.chance(1, 6);
            if (plain) align = alignof(std::max_align_t);
            void* p = plain ? a[i]->allocate(n) : a[i]->allocate(n, align);
            if (!p) {
                if (n <= left && left - n >= align) violation("C18", "refused", fmt("%zu bytes (alignment %zu) were refused with %zu left", n, align, left));
                count("refused");
                // nothing changed
                if (left && r.chance(1, 2)) {
                    void* q = a[i]->allocate(1, 1);
                    if (!q) violation("C18", "failed-request-changed-state", fmt("after a refused request one byte is refused with %zu left", left));
                    check_block(buf, bs[b], q, 1, 1);
                    bs[b].push_back({ (unsigned char*)q, 1, (unsigned char)r.next(), 0 });
                    fill(bs[b].back());
                    used[b] = bs[b].back().p + 1 - buf.begin();
                }
                break;
            }
            check_block(buf, bs[b], p, n, align);
            bs[b].push_back({ (unsigned char*)p, n, (unsigned char)r.next(), 0 });
            fill(bs[b].back());
            used[b] = std::max<std::size_t>(used[b], bs[b].back().p + n - buf.begin());
            shape = mix(shape ^ n ^ (align << 32) ^ used[b] << 40);
        }
        }
        verify_all(bs[0]);
        verify_all(bs[1]);
    }
    for (auto& b : bufs) b.check_front();
    seen("histories", shape);
}

void run_stack(Rng& r) {
    std::vector<Buffer> bufs;
    std::vector<std::unique_ptr<stack_allocator>> as;
    std::vector<std::vector<Block>> bss(2);
    std::vector<std::size_t> whole;
    for (int i = 0; i < 2; i++) {
        bufs.push_back(some_buffer(r));
        as.push_back(std::make_unique<stack_allocator>(bufs[i].begin(), bufs[i].size));
        whole.push_back(as[i]->remaining());
        if (whole[i] != bufs[i].size) violation("C18", "remaining", "a fresh allocator does not have its whole buffer remaining");
    }
    int ops = int(r.range(5, 250));
    u64 shape = 0;
    for (int op = 0; op < ops; op++) {
        int i = int(r.below(2));
        auto& buf = bufs[i];
        auto& a = *as[i];
        auto& bs = bss[i];
        auto x = r.below(20);
        if (x == 0 && r.chance(1, 4)) {
            trail.push_back("reset");
            a.reset();
            bs.clear();
            if (a.remaining() != whole[i]) violation("C18", "reset", "the whole buffer is not available after reset");
        } else if (x == 1) {
            trail.push_back("move");
            auto rem = a.remaining();
            switch (r.below(3)) {
            case 0: as[i] = std::make_unique<stack_allocator>(std::move(a)); break;
            case 1: {
                stack_allocator t(nullptr, 0);
                t = std::move(a);
                as[i] = std::make_unique<stack_allocator>(std::move(t));
                break;
            }
            default: {
                // over one that is in use for another buffer
                Buffer other(0, 200);
                auto t = std::make_unique<stack_allocator>(other.begin(), other.size);
                (void)t->allocate(r.below(100), 8);
                *t = std::move(a);
                as[i] = std::move(t);
            }
            }
            if (as[i]->remaining() != rem) violation("C18", "move", fmt("moving an allocator with %zu remaining leaves %zu", rem, as[i]->remaining()));
        } else if (x < 9 && !bs.empty()) {
            // free some, the last one first
            for (auto k = r.range(1, 3); k > 0 && !bs.empty(); k--) {
                Block b = bs.back();
                trail.push_back(fmt("free %zu bytes", b.n));
                verify("C18", b);
                bs.pop_back();
                a.deallocate(b.p);
                if (a.remaining() != b.before) violation("C18", "free", fmt("freeing in reverse order leaves %zu remaining instead of %zu", a.remaining(), b.before));
                count("frees");
            }
        } else {
            std::size_t align = std::size_t(1) << r.below(8);
            std::size_t left = a.remaining();
            std::size_t n = some_size(r, left);
            trail.push_back(fmt("stack allocate %zu alignment %zu, %zu remaining of %zu", n, align, left, buf.size));
            void* p = a.allocate(n, align);
            if (!p) {
                if (a.remaining() != left) violation("C18", "failed-request-changed-state", fmt("a refused request changed the remaining space from %zu to %zu", left, a.remaining()));
                if (n <= left && left - n >= 2 * align + 16) violation("C18", "refused", fmt("%zu bytes (alignment %zu) were refused with %zu remaining", n, align, left));
                count("refused");
            } else {
                check_block(buf, bs, p, n, align);
                if (a.remaining() > left || left - a.remaining() < n) violation("C18", "remaining", fmt("%zu bytes were allocated, remaining went from %zu to %zu", n, left, a.remaining()));
                bs.push_back({ (unsigned char*)p, n, (unsigned char)r.next(), left });
                fill(bs.back());
            }
            shape = mix(shape ^ n ^ (align << 32) ^ a.remaining() << 40);
        }
        verify_all(bss[0]);
        verify_all(bss[1]);
        if (as[i]->remaining() > buf.size) violation("C18", "remaining", "more remains than the buffer has");
    }
    for (int i = 0; i < 2; i++) {
        while (!bss[i].empty()) {
            Block b = bss[i].back();
            verify_all(bss[i]);
            bss[i].pop_back();
            as[i]->deallocate(b.p);
            if (as[i]->remaining() != b.before) violation("C18", "free", fmt("freeing in reverse order leaves %zu remaining instead of %zu", as[i]->remaining(), b.before));
        }
        if (as[i]->remaining() != whole[i]) violation("C18", "free", "freeing everything does not restore the buffer");
        bufs[i].check_front();
    }
    seen("histories", shape);
}

// ---- the temporary allocator ---------------------------------------------------------------------------------------

std::mutex live_mutex;
std::map<unsigned char*, std::size_t> live;

template<std::size_t N, std::size_t A>
struct alignas(A) Obj {
    unsigned char b[N];
};

struct TempOp {
    void* (*alloc)(std::size_t);
    void (*free)(void*, std::size_t);
    std::size_t size, align;
};

template<typename T>
TempOp temp_op() {
    return { [](std::size_t n) -> void* { return temp_allocator<T>().allocate(n); },
        [](void* p, std::size_t n) { temp_allocator<T>(temp_allocator<int>()).deallocate(static_cast<T*>(p), n); }, sizeof(T), alignof(T) };
}

const std::vector<TempOp> temp_ops{ temp_op<char>(), temp_op<int>(), temp_op<double>(), temp_op<Obj<24, 8>>(), temp_op<Obj<48, 16>>(),
    temp_op<Obj<64, 64>>(), temp_op<Obj<3, 128>>(), temp_op<Obj<5, 1>>() };

void temp_user(u64 seed, int ops, std::atomic<int>& ready, int n_threads) {
    Rng r(seed);
    struct B {
        const TempOp* op;
        std::size_t n;
        Block b;
    };
    std::vector<B> bs;
    ready++;
    while (ready < n_threads) std::this_thread::yield();
    auto free_last = [&] {
        B b = bs.back();
        bs.pop_back();
        for (std::size_t i = 0; i < b.b.n; i += 1 + (b.b.n > 4096 ? 61 : 0)) {
            if (b.b.p[i] != b.b.tag) {
                report("C18", "overwritten", "a temporary allocation was overwritten");
                break;
            }
        }
        {
            std::lock_guard lk{ live_mutex };
            live.erase(b.b.p);
        }
        b.op->free(b.b.p, b.n);
    };
    for (int i = 0; i < ops && !case_bad; i++) {
        auto x = r.below(10);
        if (x < 4 && !bs.empty()) {
            free_last();
        } else if (x == 4) {
            // more than there can be
            auto& op = r.pick(temp_ops);
            std::size_t n = r.chance(1, 2) ? (16ull << 20) / op.size + 1 + r.below(1000) : ~std::size_t(0) / op.size - r.below(3) + r.below(6);
            if (op.size == 1) n = std::max<std::size_t>(n, (16ull << 20) + 1);
            bool thrown = false;
            try {
                (void)op.alloc(n);
            } catch (const std::bad_alloc&) {
                thrown = true;
            }
            if (!thrown) report("C18", "exhaustion", fmt("a temporary allocation of %zu objects of %zu bytes succeeds", n, op.size));
            count("exhaustions");
        } else {
            auto& op = r.pick(temp_ops);
            std::size_t n = r.chance(1, 20) ? (200000 + r.below(1 << 20)) / op.size : r.range(1, 50);
            void* p;
            try {
                p = op.alloc(n);
            } catch (const std::bad_alloc&) {
                count("full");
                std::size_t total = 0;
                for (auto& b : bs) total += b.b.n + 256;
                if (total + n * op.size < (8u << 20)) report("C18", "exhaustion", fmt("a temporary allocation fails with %zu bytes in use", total));
                continue;
            }
            if (reinterpret_cast<std::uintptr_t>(p) % op.align) report("C18", "misaligned", "a temporary allocation is misaligned");
            Block b{ static_cast<unsigned char*>(p), n * op.size, (unsigned char)r.next(), 0 };
            {
                std::lock_guard lk{ live_mutex };
                auto [j, fresh] = live.emplace(b.p, b.n);
                if (!fresh || (j != live.begin() && std::prev(j)->first + std::prev(j)->second > b.p)
                    || (std::next(j) != live.end() && b.p + b.n > std::next(j)->first)) {
                    report("C18", "overlap", "temporary allocations overlap");
                    return;
                }
            }
            memset(b.p, b.tag, b.n);
            bs.push_back({ &op, n, b });
        }
    }
    count("temp_operations", ops);
    while (!bs.empty() && !case_bad) free_last();
    // with everything freed most of the memory is there
    if (!case_bad) {
        try {
            char* p = temp_allocator<char>().allocate(15 << 20);
            temp_allocator<char>().deallocate(p, 15 << 20);
        } catch (const std::bad_alloc&) {
            report("C18", "exhaustion", "temporary memory is not available again after freeing everything");
        }
    }
}

void run_temp(Rng& r) {
    int n = int(r.range(1, 4));
    std::atomic<int> ready{ 0 };
    std::vector<std::thread> ts;
    u64 s = r.next();
    int ops = int(r.range(20, 300));
    live.clear();
    for (int i = 1; i < n; i++) ts.emplace_back([&, i] { temp_user(s + i, ops, ready, n); });
    temp_user(s, ops, ready, n);
    for (auto& t : ts) t.join();
    // standard containers
    if (n == 1) {
        std::vector<u64, temp_allocator<u64>> v;
        v.reserve(r.range(1, 2000));
        while (v.size() < v.capacity()) v.push_back(v.size());
        std::vector<u64, temp_allocator<u64>> w(v.begin(), v.end());
        if (!(w == v)) violation("C18", "overwritten", "a container in temporary memory lost its contents");
    }
    seen("histories", mix(s));
    count("temp_cases");
}

} // namespace vf

int main(int argc, char** argv) {
    using namespace vf;
    parse_args(argc, argv);
    trace_log = &trail;
    return run_cases([](u64 c, Rng& rng) {
        trail.clear();
        greed = unsigned(rng.range(1, 40));
        switch (rng.below(args.mode == "temp" ? 1 : 20)) {
        case 0: run_temp(rng); break;
        case 1: case 2: case 3: case 4: case 5: case 6: run_linear(rng); break;
        default: run_stack(rng); break;
        }
        if (c % 997 == 0 && !trail.empty()) sample(trail.back());
    });
}
