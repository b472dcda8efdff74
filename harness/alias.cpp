// C11 (and the conversion part of C04): aliasing constructors, make_aliased, pointer casts and conversions over
// multiple and virtual inheritance; alias addresses and use counts are symbolic.
#include "world.h"
#ifndef FLAV
#define FLAV FA
#endif

struct M1 { uint32_t a = 1; virtual ~M1() = default; };
struct M2 { uint32_t b = 2; virtual ~M2() = default; };
struct V { uint32_t v = 3; virtual ~V() = default; };
struct L : virtual V { uint32_t l = 4; };
struct R : virtual V { uint32_t r = 5; };
// everything: two ordinary bases, a diamond with a virtual base, and the ghost base
struct E : Life<E>, M1, M2, L, R, A0 { uint32_t mem = 6; uint32_t arr[3] = {7, 8, 9}; explicit E(uint32_t x = 1u) : A0(x) {} };
struct N : M1 { uint32_t n = 10; };      // unrelated to E
struct Plain { uint32_t p = 1; };
struct PlainD : Life<PlainD>, X1, Plain { uint32_t q = 2; };

template <class F> struct AW {
    template <class T> using sp = typename F::template sp<T>;
    template <class T> using wp = typename F::template wp<T>;
    sp<E> root;
    const void* cb;
    long extra = 0;       // further owners held by the scenario
    E* raw;
    long base = 1;
    Counter cs;
    uint32_t xs = 0;
    void create() {
        switch (sv_choose(3)) {
        case 0: root = F::template make<E>(5u); break;
        case 1: root = sp<E>(new E(5u)); break;
        default: { xmem::unique_ptr<E> u(new E(5u)); root = std::move(u); } break;
        }
        raw = root.get();
        cb = root.owner();
        sv_snap(cb);
        bool ok;
        { sp<E> t(root); ok = cs.find(cb, 1); }
        if (ok) {
            xs = sv_u32();
            sv_assume(xs <= 0xFFFFFFFEu - 16);
            cs.set(1 + xs);
        }
    }
    template <class T> void is(const sp<T>& p, const volatile void* at, long own) {     // own further owners exist now
        CHECK(static_cast<const volatile void*>(p.get()) == at);
        CHECK(p.owner() == cb);
        CHECK(uint64_t(p.use_count()) == uint64_t(base + own) + xs);
        CHECK(uint64_t(root.use_count()) == (root.owner() ? uint64_t(base + own) + xs : 0));
    }
    template <class T> void empty(const sp<T>& p) { CHECK(!p.get() && !p.owner() && p.use_count() == 0 && no_owner(p)); }
    // dropping everything else: the alias alone keeps the object alive, and is the last to let go
    template <class T> void last(sp<T>& p) {
        CHECK(g.dead[raw->id] == 0);
        root.reset(); --base;
        if (xs == 0) {
            sv_reach("soft:sole");
            CHECK(g.dead[1] == 0);
            CHECK(sv_is_live(cb));
            p.reset();
            CHECK(g.dead[1] == 1);
            CHECK(!sv_is_live(cb));
        }
        else {
            p.reset();
            CHECK(g.dead[1] == 0);
            sv_allow_leak();
        }
    }
};

template <class F, class T, class Fn> static void owning_case(Fn fn, const volatile void* (*at)(E*)) {
    AW<F> w;
    w.create();
    auto p = fn(w.root);
    static_assert(std::is_same_v<decltype(p), typename F::template sp<T>>, "type of the result");
    w.is(p, at(w.raw), 1);
    { auto c = p; w.is(c, at(w.raw), 2); w.is(p, at(w.raw), 2); }
    w.is(p, at(w.raw), 1);
    w.last(p);
}
#define AT(x) [](E* e) -> const volatile void* { return (x); }
#define OC(n, T, fnbody, x) ENTRY h_own_##n() { using F = FLAV; owning_case<F, T>([](const F::sp<E>& s) { fnbody; }, AT(x)); }
// implicit conversions, copying and moving
OC(conv_m2, M2, F::sp<M2> p(s); return p, static_cast<M2*>(e))
OC(conv_v, V, F::sp<V> p(s); return p, static_cast<V*>(e))
OC(conv_vmove, V, auto t = s; F::sp<V> p(std::move(t)); CHECK(!t && !t.owner()); return p, static_cast<V*>(e))
OC(conv_assign, M2, F::sp<M2> p; p = s; return p, static_cast<M2*>(e))
OC(conv_massign, M2, F::sp<M2> p; auto t = s; p = std::move(t); CHECK(!t && !t.owner()); return p, static_cast<M2*>(e))
OC(conv_void, void, F::sp<void> p(s); return p, e)
OC(conv_cvoid, const void, F::sp<const void> p; p = F::sp<M2>(s); return p, static_cast<M2*>(e))
OC(conv_const, const M2, F::sp<const M2> p(s); return p, static_cast<M2*>(e))
OC(conv_two, V, F::sp<L> l(s); F::sp<V> p(std::move(l)); return p, static_cast<V*>(e))
// casts
OC(static_down, E, F::sp<M2> b(s); return xmem::static_pointer_cast<E>(b), e)
OC(static_up, M2, return xmem::static_pointer_cast<M2>(s), static_cast<M2*>(e))
OC(static_void, E, F::sp<void> b(s); return xmem::static_pointer_cast<E>(b), e)
OC(const_add, const E, return xmem::const_pointer_cast<const E>(s), e)
OC(const_rm, E, F::sp<const E> b(s); return xmem::const_pointer_cast<E>(b), e)
OC(reint, uint64_t, return xmem::reinterpret_pointer_cast<uint64_t>(s), e)
OC(dyn_down, E, F::sp<M1> b(s); return xmem::dynamic_pointer_cast<E>(b), e)
OC(dyn_vdown, E, F::sp<V> b(s); return xmem::dynamic_pointer_cast<E>(b), e)
OC(dyn_cross, M2, F::sp<M1> b(s); return xmem::dynamic_pointer_cast<M2>(b), static_cast<M2*>(e))
OC(dyn_crossv, R, F::sp<V> b(s); return xmem::dynamic_pointer_cast<R>(b), static_cast<R*>(e))
OC(dyn_up, V, return xmem::dynamic_pointer_cast<V>(s), static_cast<V*>(e))
// aliases
OC(alias_mem, uint32_t, return F::sp<uint32_t>(s, &s->mem), &e->mem)
OC(alias_helper, uint32_t, return xmem::make_aliased(s, &s->arr[2]), &e->arr[2])
OC(alias_null, uint32_t, return F::sp<uint32_t>(s, nullptr), nullptr)
OC(alias_helper_null, uint32_t, return xmem::make_aliased(s, static_cast<uint32_t*>(nullptr)), nullptr)
OC(alias_alias, M2, auto a = xmem::make_aliased(s, &s->mem); return F::sp<M2>(a, static_cast<M2*>(s.get())), static_cast<M2*>(e))
OC(alias_of_null, const uint32_t, auto a = F::sp<M1>(s, nullptr); return xmem::make_aliased(a, static_cast<const uint32_t*>(&s->mem)), &e->mem)

// failed dynamic casts and casts and aliases of empty sources take nothing
template <class F> static void none(int c) {
    AW<F> w;
    w.create();
    typename F::template sp<M1> b(w.root), nul;
    switch (c) {
    case 0: { auto p = xmem::dynamic_pointer_cast<N>(b); w.empty(p); } break;
    case 1: { auto p = xmem::dynamic_pointer_cast<N>(nul); w.empty(p); } break;
    case 2: { auto p = xmem::static_pointer_cast<E>(nul); w.empty(p); } break;
    case 3: { auto p = xmem::const_pointer_cast<const M1>(nul); w.empty(p); } break;
    case 4: { auto p = xmem::reinterpret_pointer_cast<int>(nul); w.empty(p); } break;
    case 5: { auto p = xmem::make_aliased(nul, reinterpret_cast<char*>(sv_u64())); w.empty(p); } break;
    case 6: { typename F::template sp<M2> m2(w.root); auto p = xmem::dynamic_pointer_cast<N>(m2); w.empty(p); } break;
    case 7: { typename F::template sp<V> v(w.root); auto p = xmem::dynamic_pointer_cast<N>(v); w.empty(p); typename F::template sp<M1> a(b, nullptr); auto q = xmem::dynamic_pointer_cast<E>(a); w.empty(q); } break;
    case 8: // aliasing weak pointers of ownerless sources
        {
            typename F::template sp<M1> e;
            typename F::template sp<E> al(e, reinterpret_cast<E*>(sv_u64()));
            CHECK(!al.owner() && al.use_count() == 0);
            typename F::template wp<uint32_t> x(al, reinterpret_cast<uint32_t*>(sv_u64()));
            CHECK(!x && !x.owner() && x.expired() && no_owner(x) && !x.lock());
            typename F::template wp<E> we;
            typename F::template wp<uint32_t> y(we, reinterpret_cast<uint32_t*>(sv_u64()));
            CHECK(!y && !y.owner() && y.expired() && no_owner(y) && !y.lock().get());
        }
        break;
    }
    w.is(b, static_cast<M1*>(w.raw), 1);
    w.is(w.root, w.raw, 1);
    w.last(b);
}
#define NO(n) ENTRY h_none_##n() { none<FLAV>(n); }
NO(0) NO(1) NO(2) NO(3) NO(4) NO(5) NO(6) NO(7) NO(8)

// weak pointers: conversions and aliases of live and expired pointers
template <class F, class T> static void wk(int c, const volatile void* (*at)(E*)) {
    AW<F> w;
    w.create();
    {
        typename F::template wp<E> s(w.root);
        const volatile void* want = at(w.raw);
        bool expire = sv_choose(2);
        if (expire) {
            w.root.reset(); --w.base;
        }
        bool alive = uint64_t(w.base) + w.xs != 0;
        typename F::template wp<T> d;
        switch (c) {
        case 0: d = s; break;
        case 1: d = typename F::template wp<T>(s); break;
        case 2: d = std::move(s); CHECK(!s && !s.owner()); break;
        case 3: d = typename F::template wp<T>(std::move(s)); CHECK(!s && !s.owner()); break;
        case 4: if constexpr (std::is_same_v<T, V>) { typename F::template wp<L> l(s); d = std::move(l); CHECK(!l); } break;
        case 5: { typename F::template wp<E> t; t = s; auto& tt = t; t = tt; d = t; } break;
        }
        CHECK(d.owner() == w.cb);
        CHECK(uint64_t(d.use_count()) == uint64_t(w.base) + w.xs);
        CHECK(d.expired() == !alive);
        CHECK(bool(d));
        {
            auto l = d.lock();
            if (alive) { sv_reach("alive"); CHECK(static_cast<const volatile void*>(l.get()) == want); CHECK(l.owner() == w.cb); CHECK(uint64_t(l.use_count()) == uint64_t(w.base) + w.xs + 1); }
            else { sv_reach("expired"); w.empty(l); }
        }
        CHECK(sv_is_live(w.cb));
        CHECK(g.dead[1] == (alive ? 0 : 1));
        if (!expire) { w.root.reset(); --w.base; }
        CHECK(g.dead[1] == (uint64_t(w.base) + w.xs ? 0 : 1));
    }
    if (w.xs) sv_allow_leak();
    else CHECK(!sv_is_live(w.cb));
}
#define WK(n) \
    ENTRY h_weak_v##n() { wk<FLAV, V>(n, AT(static_cast<V*>(e))); } 
WK(0) WK(1) WK(2) WK(3) WK(4) WK(5)
ENTRY h_weak_m2_0() { wk<FLAV, M2>(0, AT(static_cast<M2*>(e))); }
ENTRY h_weak_m2_1() { wk<FLAV, M2>(1, AT(static_cast<M2*>(e))); }
ENTRY h_weak_m2_2() { wk<FLAV, M2>(2, AT(static_cast<M2*>(e))); }
ENTRY h_weak_m2_3() { wk<FLAV, const M2>(3, AT(static_cast<M2*>(e))); }
ENTRY h_weak_void() { wk<FLAV, void>(0, AT(e)); }
ENTRY h_weak_cvoid() { wk<FLAV, const void>(3, AT(e)); }

// weak pointers made from shared pointers to derived classes, and aliasing weak pointers
template <class F> static void wfrom(int c) {
    AW<F> w;
    w.create();
    {
        typename F::template wp<V> v;
        typename F::template wp<uint32_t> a;
        uint64_t adr = sv_u64();
        const volatile void* want = static_cast<V*>(w.raw);
        switch (c) {
        case 0: v = w.root; break;
        case 1: v = typename F::template wp<V>(w.root); break;
        case 2: { typename F::template wp<E> e(w.root); v = typename F::template wp<V>(e, static_cast<V*>(w.raw)); } break;
        case 3: v = typename F::template wp<V>(w.root, static_cast<V*>(w.raw)); break;
        }
        typename F::template wp<E> e2(w.root);
        a = sv_choose(2) ? typename F::template wp<uint32_t>(w.root, reinterpret_cast<uint32_t*>(adr)) : typename F::template wp<uint32_t>(e2, reinterpret_cast<uint32_t*>(adr));
        w.is(w.root, w.raw, 0);
        { auto l = v.lock(); w.is(l, want, 1); auto k = a.lock(); w.is(l, want, 2); CHECK(u(k.get()) == adr); CHECK(k.owner() == w.cb); }
        w.root.reset(); --w.base;
        bool alive = uint64_t(w.base) + w.xs != 0;
        CHECK(v.expired() == !alive && a.expired() == !alive);
        CHECK(bool(v) && bool(a));
        { auto l = v.lock(); CHECK(bool(l) == alive); auto k = a.lock(); CHECK(k.owner() == (alive ? w.cb : nullptr)); CHECK(u(k.get()) == (alive ? adr : 0)); }
        CHECK(g.dead[1] == (alive ? 0 : 1));
        // expired aliasing source
        typename F::template wp<uint32_t> b(v, reinterpret_cast<uint32_t*>(adr));
        CHECK(b.owner() == w.cb && b.expired() == !alive);
        { auto k = b.lock(); CHECK(u(k.get()) == (alive ? adr : 0)); }
    }
    if (w.xs) sv_allow_leak();
    else CHECK(!sv_is_live(w.cb));
}
ENTRY h_wfrom_0() { wfrom<FLAV>(0); }
ENTRY h_wfrom_1() { wfrom<FLAV>(1); }
ENTRY h_wfrom_2() { wfrom<FLAV>(2); }
ENTRY h_wfrom_3() { wfrom<FLAV>(3); }

// the destructor that runs is that of the created object, also without virtual destructors
static int pd;
struct PB { uint32_t x = 1; };
struct PD : Life<PD>, X1, PB { uint32_t y = 2; ~PD() { ++pd; } };
ENTRY h_nonvirtual() {
    using F = FLAV;
    F::sp<PB> p;
    switch (sv_choose(3)) {
    case 0: p = F::make<PD>(); break;
    case 1: p.reset(new PD); break;
    case 2: p = F::sp<PB>(new PD, CountDel<PD>(1)); break;
    }
    CHECK(p->x == 1);
    F::sp<void> v(p);
    p.reset();
    CHECK(pd == 0);
    v = nullptr;
    CHECK(pd == 1);
}
// a member owned through an alias outlives the last pointer to the whole
ENTRY h_member() {
    using F = FLAV;
    F::sp<uint32_t> m;
    F::wp<E> w;
    {
        auto e = F::make<E>(5u);
        e->arr[1] = 77;
        m = xmem::make_aliased(e, &e->arr[1]);
        w = e;
    }
    CHECK(g.dead[1] == 0);
    CHECK(*m == 77 && m[1] == 9 && m.use_count() == 1 && !w.expired());
    auto e2 = w.lock();
    CHECK(e2 && e2->mem == 6 && same_owner(e2, m));
    e2.reset();
    m.reset();
    CHECK(g.dead[1] == 1 && w.expired());
}
