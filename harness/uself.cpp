// C10: a unique_ptr observed and used by the destructor of the object it disposes of.
#include "sv.h"
#include <xmem/unique_ptr.hpp>
#include <xmem/shared_ptr.hpp>

static const int MAXO = 24;
static int made;
static uint8_t gone[MAXO];
static void (*hook)(int id, void* self);
static int depth;
struct X1 { uint64_t pad = 1; virtual ~X1() = default; };
struct A0 {
    int id; uint32_t mark;
    A0() : id(++made), mark(uint32_t(id) * 11) {}
    A0(const A0&) = delete;
    virtual ~A0() { CHECK(mark == uint32_t(id) * 11); }
    void bye() { CHECK(gone[id] == 0); ++gone[id]; if (hook) { ++depth; hook(id, this); --depth; } }
};
struct A : Life<A>, A0 { ~A() override { bye(); } };
struct D : Life<D>, X1, A0 { ~D() override { bye(); } };

template <class T> struct Del {
    int k = 0;
    Del() = default;
    explicit Del(int k) : k(k) {}
    template <class U> Del(Del<U>&& o) noexcept : k(o.k) {}
    template <class U> Del& operator=(Del<U>&& o) noexcept { k = o.k; return *this; }
    void operator()(T* p) { CHECK(p); delete p; }
};
struct RDel { void operator()(A0* p) { CHECK(p); delete p; } };
static RDel rd, rd2;
static void fdel(A0* p) { CHECK(p); delete p; }
static void fdel2(A0* p) { CHECK(p); delete p; }

struct KD { using U = xmem::unique_ptr<A0>; using C = xmem::unique_ptr<D>; static U mk(A0* p) { return U(p); } static C mkc(D* p) { return C(p); } };
struct KV { using U = xmem::unique_ptr<A0, Del<A0>>; using C = xmem::unique_ptr<D, Del<D>>; static U mk(A0* p) { return U(p, Del<A0>(1)); } static C mkc(D* p) { return C(p, Del<D>(2)); } };
struct KR { using U = xmem::unique_ptr<A0, RDel&>; using C = xmem::unique_ptr<D, RDel&>; static U mk(A0* p) { return U(p, rd); } static C mkc(D* p) { return C(p, rd2); } };
struct FnLike { using F = void (*)(A0*); operator F() const { return &fdel2; } void operator()(A0* p) const { fdel(p); } };
struct KF { using U = xmem::unique_ptr<A0, void (*)(A0*)>; using C = xmem::unique_ptr<D, FnLike>; static U mk(A0* p) { return U(p, &fdel); } static C mkc(D* p) { return C(p, FnLike{}); } };

template <class KK> struct H {
    using U = typename KK::U; using C = typename KK::C;
    static inline U* u; static inline U* o;
    static inline A0* expect; static inline bool checking; static inline int runs, act1, act2;
    static inline A0* rel;
    static void act(int a) {
        switch (a) {
        case 1: u->reset(); break;
        case 2: u->reset(new D); break;
        case 3: *u = std::move(*o); break;
        case 4: *o = std::move(*u); break;
        case 5: u->swap(*o); break;
        case 6: if (!rel) rel = u->release(); break;
        case 7: *u = nullptr; break;
        case 8: { auto& r = *u; r = std::move(*u); } break;
        case 9: { U t(std::move(*u)); CHECK(!*u); *u = std::move(t); } break;
        default: if (*u) { CHECK((*u)->mark == uint32_t((*u)->id) * 11); CHECK(u->operator->() == u->get() && &**u == u->get()); } break;
        }
    }
    static void hk(int id, void* self) {
        if (id == 1) {
            ++runs;
            if (checking) CHECK(u->get() == expect);
            act(act1);
        }
        else if (id == 2 && depth <= 2) act(act2);
    }
};

// reset and assignment
template <class KK> static void reassign(int op) {
    using h = H<KK>;
    using U = typename KK::U;
    {
        U u = KK::mk(sv_choose(2) ? static_cast<A0*>(new A) : static_cast<A0*>(new D));    // 1
        U o = KK::mk(new D);                                                               // 2
        A0* o2 = o.get();
        typename KK::C c = KK::mkc(new D);                                                 // 3
        A0* c3 = c.get();
        h::u = &u; h::o = &o; h::rel = nullptr; h::runs = 0; h::checking = true;
        h::act1 = int(sv_choose(10)); h::act2 = int(sv_choose(3)) == 2 ? 2 : int(sv_choose(2));
        hook = &h::hk;
        switch (op) {
        case 0: h::expect = nullptr; u.reset(); break;
        case 1: h::expect = nullptr; u = nullptr; break;
        case 2: { A0* p = new A; h::expect = p; u.reset(p); } break;
        case 3: h::expect = o2; u = std::move(o); break;
        case 4: h::expect = c3; u = std::move(c); break;
        case 5: { U t = KK::mk(new A); h::expect = t.get(); u = std::move(t); } break;
        case 6: { U t = KK::mk(nullptr); h::expect = nullptr; u = std::move(t); } break;
        }
        CHECK(h::runs == 1);
        hook = nullptr;
        A0* held[4] = {u.get(), o.get(), c.get(), h::rel};
        for (int i = 1; i <= made; ++i) {
            int n = 0;
            for (auto p : held) if (p && p->id == i) ++n;
            CHECK(gone[i] == (n ? 0 : 1));
            CHECK(n <= 1);
        }
        sv_obs(uint64_t(made)); sv_obs(u ? uint64_t(u->id) : 0); sv_obs(o ? uint64_t(o->id) : 0);
        if (h::rel) { delete h::rel; }
    }
    for (int i = 1; i <= made; ++i) CHECK(gone[i] == 1);
}
#define RE(K, n) ENTRY h_re##K##_##n() { reassign<K>(n); }
#define REALL(K) RE(K, 0) RE(K, 1) RE(K, 2) RE(K, 3) RE(K, 4) RE(K, 5) RE(K, 6)
REALL(KD) REALL(KV) REALL(KR) REALL(KF)

// the pointer's own destructor
template <class U> static U* self_ptr;
static int own_runs;
template <class U> static void own_hook(int id, void* self) {
    if (id != 1) return;
    ++own_runs;
    U& u = *self_ptr<U>;
    CHECK(u.get() == static_cast<A0*>(self));
    CHECK(bool(u));
    CHECK(u->id == 1);
    CHECK(&*u == static_cast<A0*>(self));
}
template <class KK> static void own() {
    using U = typename KK::U;
    hook = &own_hook<U>;
    {
        switch (sv_choose(4)) {
        case 0: { U u = KK::mk(new D); self_ptr<U> = &u; } break;
        case 1: { U t = KK::mk(new A); U u(std::move(t)); self_ptr<U> = &u; } break;
        case 2: { U u = KK::mk(new A); U t = KK::mk(new D); u.swap(t); self_ptr<U> = &t; } break;
        case 3: { struct Owner { int x = 4; U u; }; auto o = new Owner{4, KK::mk(new D)}; self_ptr<U> = &o->u; delete o; } break;
        }
    }
    CHECK(own_runs == 1);
    for (int i = 1; i <= made; ++i) CHECK(gone[i] == 1);
}
ENTRY h_own_KD() { own<KD>(); }
ENTRY h_own_KV() { own<KV>(); }
ENTRY h_own_KR() { own<KR>(); }
ENTRY h_own_KF() { own<KF>(); }

// array forms
struct El;
static void (*ehook)(El*);
static uint8_t egone[16]; static int emade;
struct El { int id; El() : id(++emade) {} ~El() { CHECK(egone[id] == 0); ++egone[id]; if (ehook) ehook(this); } };
struct EDel { int k = 3; void operator()(El* p) { CHECK(p); delete[] p; } };
template <class U> struct HA {
    static inline U* u; static inline El* expect; static inline int act, runs; static inline bool own;
    static inline El* first;
    static void hk(El* e) {
        if (e->id > 2) return;
        ++runs;
        if (own) { CHECK(u->get() == first); CHECK(&(*u)[e->id - 1] == e); return; }
        if (runs == 1) CHECK(u->get() == expect);
        if (e->id == 2) switch (act) {
            case 1: u->reset(); break;
            case 2: u->reset(new El[1]); break;
            case 3: { U t(std::move(*u)); *u = std::move(t); } break;
            case 4: *u = nullptr; break;
            default: break;
        }
    }
};
template <class U> static void arr() {
    using h = HA<U>;
    {
        U u(new El[2]);
        U o(new El[1]);        // 3
        El* po = o.get();
        h::u = &u; h::act = int(sv_choose(5)); h::runs = 0; ehook = &h::hk;
        h::own = false; h::first = u.get();
        switch (sv_choose(5)) {
        case 0: h::expect = nullptr; u.reset(); break;
        case 1: h::expect = nullptr; u = nullptr; break;
        case 2: { El* p = new El[1]; h::expect = p; u.reset(p); } break;
        case 3: h::expect = po; u = std::move(o); break;
        case 4: h::own = true; { U t(std::move(u)); h::u = &t; } break;
        }
        CHECK(h::runs == 2);
        ehook = nullptr;
        CHECK(egone[1] == 1 && egone[2] == 1);
        for (int i = 3; i <= emade; ++i) CHECK(egone[i] == ((u && u.get()->id == i) || (o && o.get()->id == i) ? 0 : 1));
    }
    for (int i = 1; i <= emade; ++i) CHECK(egone[i] == 1);
}
ENTRY h_arr_def() { arr<xmem::unique_ptr<El[]>>(); }
ENTRY h_arr_del() { arr<xmem::unique_ptr<El[], EDel>>(); }

// a unique_ptr reached through its own object in a shared pointer's control block
static xmem::weak_ptr<A0> gw;
static int sruns;
ENTRY h_adopted() {
    hook = [](int, void*) { ++sruns; CHECK(gw.expired()); CHECK(!gw.lock()); };
    {
        xmem::unique_ptr<A0> u(new D);
        xmem::shared_ptr<A0> s(std::move(u));
        gw = s;
        s.reset();
        CHECK(sruns == 1);
    }
    gw.reset();
}
