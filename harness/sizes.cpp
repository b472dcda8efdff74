// C19: the allocator for every count; placement of objects created in place.
#include "world.h"
#include <xmem/allocator.hpp>

template <size_t S, size_t Al = 1> struct alignas(Al) Blob { char c[S]; };
static bool mul_fits(uint64_t n, uint64_t s, uint64_t& r) { return !__builtin_mul_overflow(n, s, &r); }

template <class T> static void any_count() {
    xmem::allocator<T> a;
    uint64_t n = sv_u64();
    sv_bigalloc(true);
    T* p = nullptr;
    bool failed = false;
    try { p = a.allocate(n); }
    catch (const std::bad_alloc&) { failed = true; }
    uint64_t need;
    bool fits = mul_fits(n, sizeof(T), need);
    if (failed) { sv_reach("soft:refused"); CHECK(!fits || need > (uint64_t(1) << 62)); return; }
    sv_reach("obtained");
    CHECK(fits);
    CHECK(sv_objsize(p) >= need);
    CHECK(sv_objalign(p) % alignof(T) == 0);
    xmem::allocator<T> b(a);
    xmem::allocator<char> c;
    xmem::allocator<T> d(c);
    switch (sv_choose(3)) {
    case 0: a.deallocate(p, n); break;
    case 1: b.deallocate(p, n); break;
    default: d.deallocate(p, n); break;
    }
    CHECK(!sv_is_live(p) || sv_live() == 0);
}
#define AC(n, ...) ENTRY h_count_##n() { any_count<__VA_ARGS__>(); }
AC(char, char) AC(short, short) AC(int, int) AC(ll, long long)
AC(3, Blob<3>) AC(12, Blob<12, 4>) AC(24, Blob<24, 8>) AC(100, Blob<100>) AC(4096, Blob<4096>)
AC(a16, Blob<16, 16>) AC(a32, Blob<32, 32>) AC(a64, Blob<64, 64>) AC(a64b, Blob<192, 64>) AC(a128, Blob<128, 128>) AC(a4096, Blob<8192, 4096>)
AC(D, D)

// a failing operator new reaches the caller; several blocks do not overlap (checked by the memory model)
ENTRY h_fails() {
    xmem::allocator<D> a;
    D* p[3] = {};
    uint32_t k = sv_u32();
    sv_fault_arm(k);
    uint32_t got = 0;
    for (auto& x : p) {
        try { x = a.allocate(1 + got); ++got; }
        catch (const std::bad_alloc&) { CHECK(got == k); break; }
    }
    sv_fault_disarm();
    CHECK(got == (k < 3 ? k : 3));
    for (uint32_t i = 0; i < got; ++i) {
        CHECK(p[i] != nullptr);
        for (uint32_t j = 0; j < i; ++j) CHECK(p[i] != p[j]);
        std::memset(static_cast<void*>(p[i]), 0x5a, (1 + i) * sizeof(D));
    }
    for (uint32_t i = 0; i < got; ++i) a.deallocate(p[i], 1 + i);
}

// objects created in place sit at addresses satisfying their alignment inside their block
template <class T> struct Wrap { T t; uint32_t k = 9; };
template <class F, class T> static void place() {
    {
        typename F::template sp<T> s;
        switch (sv_choose(3)) {
        case 0: s = F::template make<T>(); break;
        case 1: s = F::template make_ow<T>(); break;
        default: { T v{}; s = F::make_ptr(v); } break;
        }
        T* p = s.get();
        CHECK(u(p) % alignof(T) == 0);
        CHECK(sv_objalign(p) % alignof(T) == 0);       // guaranteed by the allocation, not by chance
        CHECK(sv_objoff(p) % alignof(T) == 0);
        CHECK(sv_objoff(p) != ~size_t(0) && sv_objoff(p) + sizeof(T) <= sv_objsize(p));
        std::memset(static_cast<void*>(p), 0x77, sizeof(T));
        CHECK(s.use_count() == 1);                      // the counters do not share memory with the object
        typename F::template wp<T> w(s);
        auto t = s;
        CHECK(s.use_count() == 2);
        for (size_t i = 0; i < sizeof(T); i += sizeof(T) > 256 ? 67 : 1) CHECK(reinterpret_cast<unsigned char*>(p)[i] == 0x77);
    }
}
#define PL(n, ...) ENTRY h_place_##n() { place<FA, __VA_ARGS__>(); } ENTRY h_placel_##n() { place<FL, __VA_ARGS__>(); }
PL(char, char) PL(short, short) PL(int, int) PL(ll, long long) PL(3, Blob<3>) PL(24, Blob<24, 8>)
PL(a16, Blob<16, 16>) PL(a32, Blob<32, 32>) PL(a64, Blob<64, 64>) PL(a128, Blob<256, 128>) PL(a4096, Blob<4096, 4096>) PL(w64, Wrap<Blob<64, 64>>)

// adopted objects: the control block itself is placed and released properly for over-aligned deleters
struct alignas(64) BigDel { char c[64] = {}; void operator()(A* p) const { CHECK(u(this) % 64 == 0); delete p; } };
template <class F> static void adopt() {
    xmem::unique_ptr<A, BigDel> q(new A, BigDel{});
    typename F::template sp<A> s(std::move(q));
    CHECK(sv_objalign(s.owner()) % 64 == 0);
    typename F::template wp<A> w(s);
    s.reset();
    CHECK(g.dead[1] == 1 && w.expired());
}
ENTRY h_adopt() { adopt<FA>(); }
ENTRY h_adopt_local() { adopt<FL>(); }
// over-aligned objects in unique pointers
ENTRY h_unique() {
    auto p = xmem::make_unique<Blob<64, 64>>();
    CHECK(u(p.get()) % 64 == 0 && sv_objalign(p.get()) % 64 == 0);
    auto q = xmem::make_unique<Blob<32, 32>[]>(3);
    CHECK(u(&q[2]) % 32 == 0 && sv_objsize(q.get()) >= 96);
    auto r = xmem::make_unique_for_overwrite<Blob<128, 128>>();
    CHECK(sv_objalign(r.get()) % 128 == 0);
    xmem::shared_ptr<Blob<64, 64>> s(std::move(p));
    CHECK(u(s.get()) % 64 == 0);
}
// the storage keeps its lock away from other objects: it is aligned to and fills cache lines
ENTRY h_storage() {
    auto s = new xmem::atomic_shared_ptr_storage<int>;
    CHECK(u(s) % alignof(xmem::atomic_shared_ptr_storage<int>) == 0);
    CHECK(sv_objalign(s) % alignof(xmem::atomic_shared_ptr_storage<int>) == 0);
    s->store(xmem::make_shared<int>(3));
    delete s;
}
